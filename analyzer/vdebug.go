package main

import (
	"fmt"
	"os"
	"strings"
)

func vgMain(p *Program, args []string) {
	for _, fn := range p.funcs {
		n := fn.RelString(nil)
		if !strings.HasSuffix(n, args[0]) {
			continue
		}
		e := newVEval(p)
		if len(args) > 1 && args[1] == "flat" {
			e.inline = nil
		}
		ret, _ := e.Run(fn, nil)
		fmt.Println("==", n, "nodes", e.n, "steps", e.steps)
		for _, x := range e.effs {
			e.dump(p, x)
		}
		fmt.Println("ret", ret.str(8))
	}
	_ = os.Stdout
}

func (e *VEval) dump(p *Program, x *VEff) {
	var ls []string
	for _, l := range x.loops {
		s := l.name
		if l.known {
			s += "<" + l.trip.str(5)
		}
		ls = append(ls, s)
	}
	var as []string
	for _, a := range x.args {
		as = append(as, a.str(5))
	}
	fmt.Printf("[g%d %v] %s %s %s\n     if %s\n", x.goid, ls, p.rel(x.pos), x.kind, x.name, x.guard.str(5))
	if x.addr != nil {
		fmt.Println("     addr", x.addr.str(8))
	}
	if x.val != nil {
		fmt.Println("     val", x.val.str(12))
	}
	if len(as) > 0 {
		fmt.Println("     args", strings.Join(as, " ; "))
	}
	for i, d := range x.deref {
		if d != nil {
			fmt.Println("     *arg", i, d.str(10))
		}
	}
}
