package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Parallel work: which functions start workers, what they are given, how
// they are joined.

// unit is one piece of work: a call of a worker with its arguments.
type unit struct {
	callee *ssa.Function // nil: an unknown function value
	fv     V             // the function value
	args   []V
	loops  []*VLoop
	guard  V
	spawn  *ssa.Go // the go statement, nil for a call on the caller's goroutine
	eff    *VEff
	body   *ssa.Function // function started by the go statement
	seq    int
}

// launcher is a function that starts workers.
type launcher struct {
	fn    *ssa.Function
	e     *VEval
	args  []V
	units []*unit
	effs  []*VEff
	reads []VRead

	wloops []*VLoop // loops whose count the launcher's values depend on
}

func methodIs(c *ssa.CallCommon, names ...string) bool {
	if f := c.StaticCallee(); f != nil {
		for _, n := range names {
			if f.String() == n {
				return true
			}
		}
	}
	return false
}

func callCommon(in ssa.Instruction) *ssa.CallCommon {
	if c, ok := in.(ssa.CallInstruction); ok {
		return c.Common()
	}
	return nil
}

func instrs(fn *ssa.Function, f func(ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
}

// parFacts classifies functions by what they do with wait groups.
type parFacts struct {
	done   map[*ssa.Function]bool // calls or defers WaitGroup.Done on an argument, itself or by a helper
	waits  map[*ssa.Function]bool // waits for a wait group
	spawns map[*ssa.Function]bool
	worker map[*ssa.Function]bool
	loops  map[*ssa.Function]bool
}

func goTarget(g *ssa.Go) *ssa.Function {
	c := g.Common()
	if f := c.StaticCallee(); f != nil {
		return f
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		return mc.Fn.(*ssa.Function)
	}
	return nil
}

func collectPar(p *Program) *parFacts {
	pf := &parFacts{map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}}
	fns := p.repoFuncs()
	for _, fn := range fns {
		instrs(fn, func(in ssa.Instruction) {
			c := callCommon(in)
			if c == nil {
				return
			}
			if _, ok := in.(*ssa.Go); ok {
				pf.spawns[fn] = true
				return
			}
			if methodIs(c, "(*sync.WaitGroup).Done") {
				pf.done[fn] = true
			}
			if methodIs(c, "(*sync.WaitGroup).Wait") {
				pf.waits[fn] = true
			}
		})
		pf.loops[fn] = hasLoop(fn)
	}
	// helpers and closures
	for ch := true; ch; {
		ch = false
		for _, fn := range fns {
			instrs(fn, func(in ssa.Instruction) {
				c := callCommon(in)
				if c == nil {
					return
				}
				var t *ssa.Function
				if g, ok := in.(*ssa.Go); ok {
					t = goTarget(g)
					if t != nil && pf.waits[t] && !pf.waits[fn] {
						pf.waits[fn] = true
						ch = true
					}
					return
				}
				t = c.StaticCallee()
				if t == nil {
					return
				}
				if pf.done[t] && !pf.done[fn] && t != fn && !pf.loops[t] && !pf.spawns[fn] {
					pf.done[fn] = true
					ch = true
				}
				if pf.waits[t] && !pf.waits[fn] && !pf.spawns[fn] && !callsAdd(fn) {
					pf.waits[fn] = true
					ch = true
				}
			})
		}
	}
	for _, fn := range fns {
		if !pf.spawns[fn] && !callsAdd(fn) {
			continue
		}
		instrs(fn, func(in ssa.Instruction) {
			c := callCommon(in)
			if c == nil {
				return
			}
			if g, ok := in.(*ssa.Go); ok {
				t := goTarget(g)
				if t == nil {
					return
				}
				pf.worker[t] = true
				instrs(t, func(in ssa.Instruction) {
					if c := callCommon(in); c != nil {
						if u := c.StaticCallee(); u != nil && pf.loops[u] && t.Parent() == fn {
							pf.worker[u] = true
						}
					}
				})
				return
			}
			if t := c.StaticCallee(); t != nil && pf.done[t] && t.Blocks != nil && pf.loops[t] {
				pf.worker[t] = true
			}
		})
	}
	return pf
}

func callsAdd(fn *ssa.Function) bool {
	ok := false
	instrs(fn, func(in ssa.Instruction) {
		if c := callCommon(in); c != nil && methodIs(c, "(*sync.WaitGroup).Add") {
			ok = true
		}
	})
	return ok
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// launchers evaluates every function that starts or counts workers.
func launchers(ctx *Ctx) ([]*launcher, *parFacts) {
	if k, ok := ctx.cache["launchers"]; ok {
		return k.([]*launcher), ctx.cache["parfacts"].(*parFacts)
	}
	p := ctx.prog("linux-amd64")
	pf := collectPar(p)
	var ls []*launcher
	var fns []*ssa.Function
	for _, fn := range p.repoFuncs() {
		if (pf.spawns[fn] || callsAdd(fn)) && !pf.waits[fn] || callsAdd(fn) {
			if fn.Parent() == nil {
				fns = append(fns, fn)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnLabel(fns[i]) < fnLabel(fns[j]) })
	e := kernels(ctx)[0].e
	for _, fn := range fns {
		l := &launcher{fn: fn, e: e}
		e.effs, e.reads, e.nloop, e.nsym, e.gos = nil, nil, 0, 0, 0
		for i, pr := range fn.Params {
			l.args = append(l.args, e.param(fmt.Sprintf("p%d", i), i, pr.Type()))
		}
		e.inline = func(f *ssa.Function, args []V) bool {
			for x := f; x != nil; x = x.Parent() {
				if x == fn && !pf.loops[f] {
					return true
				}
			}
			if pf.worker[f] || pf.waits[f] || pf.spawns[f] || f.Name() == "Done" {
				return false
			}
			for x := f; x != nil; x = x.Parent() {
				if x.Pkg != nil {
					return e.isRepo[x.Pkg]
				}
			}
			return f.Synthetic != ""
		}
		e.Run(fn, l.args)
		e.inline = nil
		l.effs, l.reads = e.effs, e.reads
		e.effs, e.reads = nil, nil
		l.collect(pf)
		seen := map[V]bool{}
		for _, x := range l.effs {
			for _, a := range x.args {
				anyNode(a, func(n V) bool {
					if n.op == "iter" && n.loop != nil && !seen[n] {
						seen[n] = true
						l.wloops = append(l.wloops, n.loop)
					}
					return false
				})
			}
		}
		ls = append(ls, l)
	}
	ctx.cache["launchers"], ctx.cache["parfacts"] = ls, pf
	return ls, pf
}

func (l *launcher) collect(pf *parFacts) {
	byGo := map[int][]*VEff{}
	for _, x := range l.effs {
		if x.goid != 0 {
			byGo[x.goid] = append(byGo[x.goid], x)
		}
	}
	for i, x := range l.effs {
		if x.goid != 0 {
			continue
		}
		switch x.kind {
		case "go":
			id, _ := x.res.intConst()
			u := &unit{args: x.args, loops: x.loops, guard: x.guard, eff: x, seq: i}
			u.spawn, _ = x.ins.(*ssa.Go)
			if x.addr != nil {
				u.callee, _ = x.addr.ref.(*ssa.Function)
				u.body = u.callee
			}
			if u.callee == nil && u.spawn != nil {
				u.callee = goTarget(u.spawn)
				u.body = u.callee
			}
			// a closure around a single call
			var work []*VEff
			plain := true
			for _, y := range byGo[int(id)] {
				switch {
				case len(y.loops) != len(x.loops):
					plain = false
				case y.kind == "defer" || y.kind == "return":
				case y.kind == "call" && (strings.HasSuffix(y.name, ").Done") || strings.HasSuffix(y.name, "WaitGroup).Wait")):
				case y.kind == "call" || y.kind == "dyncall":
					work = append(work, y)
				}
			}
			if plain && len(work) == 1 {
				y := work[0]
				u.args, u.guard, u.eff = y.args, y.guard, y
				u.callee, u.fv = nil, y.addr
				if y.addr != nil {
					u.callee, _ = y.addr.ref.(*ssa.Function)
				}
				if y.kind == "call" {
					if c := callCommon(y.ins); c != nil {
						u.callee = c.StaticCallee()
					}
				}
			}
			l.units = append(l.units, u)
		case "call", "dyncall":
			c := callCommon(x.ins)
			if c == nil {
				continue
			}
			if f := c.StaticCallee(); f != nil && pf.worker[f] {
				l.units = append(l.units, &unit{callee: f, args: x.args, loops: x.loops, guard: x.guard, eff: x, seq: i})
			} else if x.kind == "dyncall" && x.addr != nil {
				l.units = append(l.units, &unit{fv: x.addr, args: x.args, loops: x.loops, guard: x.guard, eff: x, seq: i})
			}
		}
	}
}

func dumpPar(ctx *Ctx) {
	ls, pf := launchers(ctx)
	for f := range pf.worker {
		fmt.Println("worker", fnLabel(f))
	}
	for f := range pf.waits {
		fmt.Println("waits", fnLabel(f))
	}
	for _, l := range ls {
		fmt.Println("==", fnLabel(l.fn))
		for _, u := range l.units {
			n := "?"
			if u.callee != nil {
				n = fnLabel(u.callee)
			}
			var as []string
			for _, a := range u.args {
				as = append(as, a.str(8))
			}
			fmt.Printf("  %s go=%v loops=%d guard=%s\n     %s\n", n, u.spawn != nil, len(u.loops), u.guard.str(3), strings.Join(as, " ; "))
			for _, lp := range u.loops {
				fmt.Printf("     loop %s known=%v trip=%s\n", lp.name, lp.known, lp.trip.str(4))
			}
		}
		for _, x := range l.effs {
			if strings.Contains(x.name, "WaitGroup") || strings.Contains(x.name, ").Wait") {
				fmt.Printf("   [g%d] %s %s %v\n", x.goid, x.kind, x.name, x.args)
			}
		}
	}
}
