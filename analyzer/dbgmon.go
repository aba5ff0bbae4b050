package main

import (
	"fmt"
	"os"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// retMon prints what is known at returns and stores (debugging aid).
type retMon struct{ nopMon }

func (retMon) leave(x *Interp, a *act, st *State, vals []Val) {
	if a.g0 == nil || os.Getenv("PSDAN_RET") == "" {
		return
	}
	d := addScaled(st.norm(st.G("G")), -1, st.norm(a.g0))
	if os.Getenv("PSDAN_RET") == a.fn.Name() && d.hasJoined() {
		fmt.Println(st.dump())
	}
	fmt.Printf("RET %s G0=%s dG=%s vals=", fnLabel(a.fn), a.g0, d)
	for _, v := range vals {
		if q, ok := v.(*Poly); ok {
			v = st.norm(q)
		}
		fmt.Printf("%.60s, ", vstr(v))
	}
	if countedSig(a.fn) {
		if n, ok := vals[len(vals)-2].(*Poly); ok {
			fmt.Printf(" eq=%d", st.decideEq(addScaled(st.norm(n), -1, st.norm(d))))
		}
	}
	fmt.Println()
}

func (retMon) store(x *Interp, a *act, ins *ssa.Store, st *State, p PtrV, v Val) {
	if os.Getenv("PSDAN_STORE") == "" {
		return
	}
	fa, ok := ins.Addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	s := t.Underlying().(*types.Struct)
	v = mapVal(v, func(p *Poly) *Poly { return st.norm(p) })
	if os.Getenv("PSDAN_STORE") == s.Field(fa.Field).Name() {
		fmt.Println(st.dump())
	}
	fmt.Printf("STORE %s %s.%s G=%s v=%.200s\n", x.pos(ins), t, s.Field(fa.Field).Name(), st.norm(st.G("G")), vstr(v))
}

func (retMon) dyncall(x *Interp, a *act, ins ssa.CallInstruction, st *State, role string, args []Val) {
	if os.Getenv("PSDAN_STORE") == "" {
		return
	}
	fmt.Printf("CALLBACK %s %s G=%s n=%s", x.pos(ins), role, st.norm(st.G("G")), st.norm(st.G("cb:"+role)))
	for _, v := range args {
		fmt.Printf("  %.200s", vstr(mapVal(v, func(p *Poly) *Poly { return st.norm(p) })))
	}
	fmt.Println()
}
