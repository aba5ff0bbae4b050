package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// runEntry interprets fn with unknown arguments; the reader-like ones deliver the input stream.
func (x *Interp) runEntry(fn *ssa.Function) []outcome {
	st := x.init.clone()
	var args []Val
	for _, p := range fn.Params {
		args = append(args, x.entryVal(st, p.Type(), p.Name()))
	}
	return x.call(fn, args, nil, st, nil, nil)
}

func (x *Interp) entryVal(st *State, t types.Type, name string) Val {
	if isInterface(t) && strings.HasSuffix(t.String(), "io.Reader") {
		return &IfaceV{role: "reader", id: name}
	}
	if x.optVal != nil {
		if v := x.optVal(st, t, name); v != nil {
			return v
		}
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if x.nilPtrs {
			return PtrV{}
		}
		o := st.alloc(pt.Elem(), name)
		st.setObj(o, x.entryVal(st, pt.Elem(), name))
		return PtrV{obj: o}
	}
	if x.cfgInv != nil {
		if v := x.cfgInv(st, t, name); v != nil {
			return v
		}
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		v := &StructV{}
		for i := 0; i < s.NumFields(); i++ {
			v.f = append(v.f, x.entryVal(st, s.Field(i).Type(), name+"."+s.Field(i).Name()))
		}
		return v
	}
	return st.freshVal(t, name, false)
}

func debugMain(repo string, args []string) {
	p, err := Load(repo, configs["linux-amd64"])
	if err != nil {
		fmt.Println(err)
		return
	}
	if args[0] == "pd" {
		dumpPD(&Ctx{Repo: repo, progs: map[string]*Program{"linux-amd64": p}, cache: map[string]any{}}, args[1])
		return
	}
	if args[0] == "par" {
		dumpPar(&Ctx{Repo: repo, progs: map[string]*Program{"linux-amd64": p}, cache: map[string]any{}})
		return
	}
	if args[0] == "c20" {
		dumpC20(&Ctx{Repo: repo, progs: map[string]*Program{"linux-amd64": p}, cache: map[string]any{}})
		return
	}
	if args[0] == "c19" {
		dumpCore(&Ctx{Repo: repo, progs: map[string]*Program{"linux-amd64": p}, cache: map[string]any{}})
		return
	}
	if len(args) > 1 && args[0] == "vg" {
		vgMain(p, args[1:])
		return
	}
	if f := os.Getenv("PSDAN_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if args[0] == "decode" {
		d := runDecode(p, retMon{}, 800*time.Second)
		for _, e := range d.entries {
			fmt.Printf("%s: %d outcomes %s %s\n", fnLabel(e.fn), len(e.outs), e.took, e.err)
			printOuts(e.outs)
		}
		fmt.Println("limit:", d.limit)
		d.x.dumpObl()
		return
	}
	x := newInterp(p, retMon{})
	x.modular = true
	x.prepareGlobals(ssautil.AllFunctions(p.SSA))
	for fn := range ssautil.AllFunctions(p.SSA) {
		if fnLabel(fn) == args[0] && len(fn.Blocks) > 0 {
			t0 := time.Now()
			out := x.runEntry(fn)
			fmt.Printf("%s: %d outcomes, %d steps, %s, lp %d\n", fnLabel(fn), len(out), x.steps, time.Since(t0), lpCalls)
			printOuts(out)
			break
		}
	}
	fmt.Printf("deferred: %d\n", len(x.defs))
	if len(args) > 1 {
		x.runDeferred()
	}
	x.dumpObl()
}

func (x *Interp) dumpObl() {
	n, f := 0, 0
	var ks []string
	for k, o := range x.obl {
		n++
		if o.fail+o.fuzzy > 0 {
			f++
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	fmt.Printf("obligations: %d, not discharged: %d\n", n, f)
	for _, k := range ks {
		o := x.obl[k]
		fmt.Printf("  %s: %d/%d (fuzzy %d) %s\n     via %s\n", k, o.fail, o.n, o.fuzzy, o.msg, o.chain)
	}
	for _, m := range []map[string]int{x.notes, x.unmod} {
		for k, v := range m {
			fmt.Printf("note: %s x%d\n", k, v)
		}
	}
	for k, v := range x.loopOK {
		fmt.Printf("loop ok: %s x%d\n", k, v)
	}
	for k, v := range x.loopBad {
		fmt.Printf("loop BAD: %s %s\n", k, v)
	}
}

func printOuts(out []outcome) {
	for _, o := range out {
		var s []string
		for _, v := range o.vals {
			if q, ok := v.(*Poly); ok {
				v = o.st.norm(q)
			}
			s = append(s, vstr(v))
		}
		fmt.Printf("  -> %s   G=%s failed=%s unv=%s facts=%d\n", strings.Join(s, ", "), o.st.norm(o.st.G("G")), o.st.norm(o.st.G("failed")), o.st.norm(o.st.G("unv")), len(o.st.facts))
	}
}
