package main

import (
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: a change to a layer invalidates every cached ancestor up to the root.

func init() {
	checks["C23"] = Check{
		run:   runC23,
		level: "other",
		expl:  "Gated value numbering of the functions that delete tiles from the caches: the tiles of the whole list are deleted from the cache of the layer, the step continues with the clipping base of a clipped layer and otherwise with the parent, whose pass-through children are all visited first (and theirs, recursively); the entry point applies this to its layer or, while a render runs, appends it to the list of deferred marks; a render opens that list before it starts a worker and applies every entry on every way out, after which the list is closed. Every place that makes children links each of them to the layer that holds them, after anything that overwrites the child.",
		assum: []string{"which tiles a layer covers is read from its canvas (C29)"},
	}
}

type dirtyRun struct {
	*cancelRun
	layer   *types.Named
	applies map[*ssa.Function]int // parameter that is marked
	pass    map[*ssa.Function]bool
	listFld string
	size    V // number of tiles to mark
}

func layerFieldIdx(t *types.Named, name string) string {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return strconv.Itoa(i)
		}
	}
	return "?"
}

func isLayerOf(t types.Type, n *types.Named) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), n)
}

func runC23(ctx *Ctx, r *Report) {
	p := ctx.prog("linux-amd64")
	c := &cancelRun{p: p, r: r, e: newVEval(p), fns: p.pkgFuncs("composite"), runs: map[*ssa.Function][]*VEff{}, rets: map[*ssa.Function]V{}, root: map[*ssa.Function]bool{}, seen: map[string]bool{}, deep: true}
	d := &dirtyRun{cancelRun: c, applies: map[*ssa.Function]int{}, pass: map[*ssa.Function]bool{}}
	for _, f := range c.fns {
		if f.Pkg != nil {
			if o, ok := f.Pkg.Pkg.Scope().Lookup("Layer").(*types.TypeName); ok {
				d.layer = o.Type().(*types.Named)
			}
		}
	}
	if d.layer == nil {
		r.bad("marks", "composite", "", "there is no type Layer")
		return
	}
	if n := os.Getenv("PSDAN_C22"); n != "" {
		for _, f := range c.fns {
			if n == f.Name() {
				c.eval(f)
			}
		}
		return
	}
	// functions with a layer and a list of tiles
	var cands []*ssa.Function
	for _, f := range c.fns {
		if f.Blocks == nil || f.Parent() != nil {
			continue
		}
		l, a := -1, -1
		for i, pr := range f.Params {
			if isLayerOf(pr.Type(), d.layer) {
				l = i
			}
			if isPointList(pr.Type()) {
				a = i
			}
		}
		if l >= 0 && a >= 0 && !heavyFuncs(c.fns)[f] {
			cands = append(cands, f)
		}
	}
	// those that visit pass-through children
	for _, f := range cands {
		if d.passThrough(f, false) {
			d.pass[f] = true
			d.passThrough(f, true)
		}
	}
	for _, f := range cands {
		if !d.pass[f] {
			d.climb(f)
		}
	}
	if len(d.applies) == 0 {
		r.bad("marks", "composite", "", "no function marks a layer and continues with its parents")
		return
	}
	d.entry()
	d.area()
	d.links()
	r.atLeast("tiles deleted", 2)
	r.atLeast("climbs to the parent", 1)
	r.atLeast("climbs to the clipping base", 1)
	r.atLeast("pass-through children", 2)
	r.atLeast("entry", 1)
	r.atLeast("deferred marks", 3)
	r.atLeast("parent link", 3)
}

func (d *dirtyRun) fld(name string, of V) func(V) bool {
	idx := layerFieldIdx(d.layer, name)
	return func(v V) bool {
		return v.op == "field" && v.aux == idx && strings.HasPrefix(v.args[0].op, "deref") && v.args[0].args[0] == of
	}
}

// objOf strips the field accesses from a map inside a cache.
func objOf(v V) V {
	for v.op == "field" || strings.HasPrefix(v.op, "deref") {
		v = v.args[0]
	}
	return v
}

// cacheIDOf: the number with which the cache was found.
func (d *dirtyRun) cacheIDOf(f *ssa.Function, obj V) V {
	l := obj
	if l.op == "ext" {
		l = l.args[0]
	}
	if l.op == "lookup" && len(l.args) > 1 {
		return l.args[1]
	}
	return d.numberArg(f, l)
}

// free assumes what does not depend on the layers: the cache exists and the
// loop goes on.
func (d *dirtyRun) relax(x *VEff, obj V) map[V]bool {
	env := map[V]bool{}
	anyNode(x.guard, func(n V) bool {
		if n.op == "eq" && obj != nil {
			for i := range n.args {
				if n.args[1-i].op == "nil" && n.args[i] == obj {
					env[n] = false
				}
			}
		}
		if obj != nil && obj.op == "ext" && n.op == "ext" && n.aux == "1" && n.args[0] == obj.args[0] {
			env[n] = true
		}
		return false
	})
	if d.size != nil { // there are tiles to mark
		atoms(x.guard, func(n V) {
			if anyNode(n, func(m V) bool { return m == d.size }) {
				if y := d.e.subst(n, d.size, d.e.int(1000, 64)); y.isTrue() || y.isFalse() {
					env[n] = y.isTrue()
				}
			}
		})
	}
	for _, l := range x.loops {
		for _, c := range []V{l.cont, l.head} {
			if c == nil {
				continue
			}
			for _, k := range conjuncts(c) {
				env[k] = true
			}
		}
		// a loop that is not run because it has no elements
		if l.known {
			anyNode(x.guard, func(n V) bool {
				if n.op == "lt" || n.op == "neg?" {
					if n == d.e.subst(d.e.not(l.cont), l.iter, d.e.int(0, 64)) {
						env[n] = false
					}
				}
				return false
			})
		}
	}
	return env
}

func (d *dirtyRun) under(x *VEff, obj V, extra map[V]bool) V {
	env := d.relax(x, obj)
	for k, v := range extra {
		env[k] = v
	}
	g := d.e.assume(x.guard, env)
	var rest []V
	for _, k := range conjuncts(g) {
		if k.isTrue() {
			continue
		}
		skip := false
		for _, l := range x.loops {
			skip = skip || inLoopCond(k, l)
			if l.known { // the loop is run at all
				z := d.e.not(d.e.subst(l.cont, l.iter, d.e.int(0, 64)))
				skip = skip || k == d.e.not(z)
			}
		}
		if !skip {
			rest = append(rest, k)
		}
	}
	out := d.e.boolean(true)
	for _, k := range rest {
		out = d.e.and(out, k)
	}
	return out
}

// deletes: every tile of area is deleted from the cache of layer l.
func (d *dirtyRun) deletes(f *ssa.Function, l, area V, extra map[V]bool) (found *VEff, why string) {
	why = "no tile is deleted from its cache"
	for _, x := range d.eval(f) {
		if x.kind != "delete" || len(x.args) < 2 || len(x.loops) == 0 {
			continue
		}
		obj := objOf(x.args[0])
		id := d.cacheIDOf(f, obj)
		if id == nil || !d.fld("SeqID", l)(id) {
			continue
		}
		inner := x.loops[len(x.loops)-1]
		el := x.args[1]
		if !strings.HasPrefix(el.op, "deref") || el.args[0].op != "elem" || el.args[0].args[0] != area {
			found, why = x, "the tiles deleted are not the given ones"
			continue
		}
		if !inner.known || !d.e.coversAll(inner, el.args[0].args[1], area) {
			found, why = x, "not every tile of the list is deleted"
			continue
		}
		if g := d.under(x, obj, extra); !g.isTrue() {
			found, why = x, "the tiles are deleted only if "+g.str(4)
			continue
		}
		return x, ""
	}
	return
}

func (d *dirtyRun) params(f *ssa.Function) (l, area V, li, ai int) {
	li, ai = -1, -1
	for i, pr := range f.Params {
		if isLayerOf(pr.Type(), d.layer) {
			li = i
		}
		if isPointList(pr.Type()) {
			ai = i
		}
	}
	return d.par(f, li), d.par(f, ai), li, ai
}

func (d *dirtyRun) par(f *ssa.Function, i int) V {
	d.eval(f)
	return d.e.param(fnLabel(f)+"."+strconv.Itoa(i), i, f.Params[i].Type())
}

// eachPass: the effect is a call of a pass-through marker for every
// pass-through child of holder.
func (d *dirtyRun) eachPass(f *ssa.Function, holder, area V, extra map[V]bool) (bool, string) {
	why := "its pass-through children are not visited"
	for _, x := range d.eval(f) {
		if x.kind != "call" || len(x.loops) == 0 {
			continue
		}
		k, ok := x.ins.(ssa.CallInstruction)
		if !ok || k.Common().StaticCallee() == nil || !(d.pass[k.Common().StaticCallee()] || k.Common().StaticCallee() == f) {
			continue
		}
		_, _, li, ai := d.params(k.Common().StaticCallee())
		if li >= len(x.args) || ai >= len(x.args) || x.args[li].op != "elem" {
			continue
		}
		el := x.args[li]
		if !d.fld("Children", holder)(el.args[0]) {
			continue
		}
		if x.args[ai] != area {
			why = "they are marked with other tiles"
			continue
		}
		in := x.loops[len(x.loops)-1]
		if !in.known || !d.e.coversAll(in, el.args[1], el.args[0]) {
			why = "not every child is looked at"
			continue
		}
		env := map[V]bool{}
		for q, v := range extra {
			env[q] = v
		}
		isMode := d.fld("BlendMode", el)
		anyNode(x.guard, func(n V) bool {
			if n.op == "eq" {
				for i := range n.args {
					if isMode(n.args[i]) && strings.Contains(n.args[1-i].str(2), "pass") {
						env[n] = true
					}
				}
			}
			return false
		})
		if g := d.under(x, nil, env); !g.isTrue() {
			why = "they are visited only if " + g.str(4)
			continue
		}
		return true, ""
	}
	return false, why
}

// passThrough: f deletes the tiles from its layer and calls itself for the
// pass-through children.
func (d *dirtyRun) passThrough(f *ssa.Function, report bool) bool {
	l, area, _, _ := d.params(f)
	self := false
	for _, x := range d.eval(f) {
		if k, ok := x.ins.(ssa.CallInstruction); ok && x.kind == "call" && k.Common().StaticCallee() == f {
			for _, a := range x.args {
				if a.op == "elem" && d.fld("Children", l)(a.args[0]) {
					self = true
				}
			}
		}
	}
	if !report {
		return self
	}
	d.r.fn(fnLabel(f))
	d.size = d.e.mk("len", "", area)
	_, why := d.deletes(f, l, area, nil)
	d.r.check(why == "", "tiles deleted", fnLabel(f), d.p.rel(f.Pos()), "a pass-through group is not invalidated: %s", why)
	ok, why := d.eachPass(f, l, area, nil)
	d.r.check(ok, "pass-through children", fnLabel(f), d.p.rel(f.Pos()), "the pass-through groups inside a pass-through group are not invalidated: %s", why)
	return true
}

// climb: f marks its layer and goes on to the base or the parent.
func (d *dirtyRun) climb(f *ssa.Function) {
	e := d.e
	l, area, li, ai := d.params(f)
	effs := d.eval(f)
	d.size = e.mk("len", "", area)
	defer func() { d.size = nil }()
	// the layer is the parameter, or what a loop makes of it
	syms := []V{l}
	var loops []*VLoop
	seen := map[*VLoop]bool{}
	for _, x := range effs {
		for _, lp := range x.loops {
			if !seen[lp] {
				seen[lp] = true
				for _, ph := range lp.phis {
					if ph.init == l {
						syms = append(syms, ph.sym)
						loops = append(loops, lp)
					}
				}
			}
		}
	}
	// helpers that mark a single layer are not climbers
	steps := func(L V, want string, env map[V]bool) (bool, string) {
		isWant := d.fld(want, L)
		why := "nothing continues with it"
		for _, x := range effs {
			if k, ok := x.ins.(ssa.CallInstruction); ok && x.kind == "call" && k.Common().StaticCallee() == f && li < len(x.args) {
				if !isWant(e.assume(x.args[li], env)) {
					continue
				}
				if x.args[ai] != area {
					why = "the tiles handed on are others"
					continue
				}
				if g := d.under(x, nil, env); !g.isTrue() {
					why = "only if " + g.str(4)
					continue
				}
				return true, ""
			}
		}
		for _, lp := range loops {
			for _, ph := range lp.phis {
				if ph.sym != L || ph.next == nil {
					continue
				}
				if isWant(e.assume(ph.next, env)) {
					if lp.back != nil {
						env2 := map[V]bool{}
						for k, v := range env {
							env2[k] = v
						}
						g := e.assume(lp.back, env2)
						bad := ""
						for _, k := range conjuncts(g) {
							if !k.isTrue() && !inLoopCond(k, lp) && !(k.op == "not" && k.args[0].op == "eq") {
								bad = k.str(4)
							}
						}
						if bad != "" {
							why = "only if " + bad
							continue
						}
					}
					return true, ""
				}
			}
		}
		return false, why
	}
	// conditions about the layer
	about := func(L V, clip bool) map[V]bool {
		env := map[V]bool{}
		note := func(n V) bool {
			if d.fld("Clipping", L)(n) {
				env[n] = clip
			}
			if n.op == "eq" {
				for i := range n.args {
					a := n.args[i]
					if n.args[1-i].op == "nil" && (a == L || d.fld("ClippedBy", L)(a) || d.fld("Parent", L)(a)) {
						env[n] = false
					}
				}
			}
			return false
		}
		for _, x := range effs {
			anyNode(x.guard, note)
			for _, a := range x.args {
				anyNode(a, note)
			}
		}
		for _, lp := range loops {
			for _, ph := range lp.phis {
				if ph.next != nil {
					anyNode(ph.next, note)
				}
			}
			if lp.back != nil {
				anyNode(lp.back, note)
			}
			if lp.cont != nil {
				anyNode(lp.cont, note)
			}
		}
		return env
	}
	mentions := false
	for _, L := range syms {
		for _, x := range effs {
			for _, a := range x.args {
				mentions = mentions || anyNode(a, d.fld("Parent", L)) || anyNode(a, d.fld("ClippedBy", L))
			}
		}
	}
	if !mentions {
		return
	}
	L := syms[len(syms)-1]
	recursive := false
	for _, x := range effs {
		if k, ok := x.ins.(ssa.CallInstruction); ok && x.kind == "call" && k.Common().StaticCallee() == f {
			recursive = true
		}
	}
	if !recursive && len(loops) == 0 {
		// one step, driven by the caller
		return
	}
	if recursive {
		L = l
	}
	d.r.fn(fnLabel(f))
	d.applies[f] = li
	where, pos := fnLabel(f), d.p.rel(f.Pos())
	for _, clip := range []bool{true, false} {
		env := about(L, clip)
		x, why := d.deletes(f, L, area, env)
		ps := pos
		if x != nil {
			ps = d.p.rel(x.pos)
		}
		d.r.check(why == "", "tiles deleted", where, ps, "the cache of the layer is not invalidated: %s", why)
	}
	ok, why := steps(L, "ClippedBy", about(L, true))
	d.r.check(ok, "climbs to the clipping base", where, pos, "the clipping base of a clipped layer is not invalidated: %s", why)
	env := about(L, false)
	ok, why = steps(L, "Parent", env)
	d.r.check(ok, "climbs to the parent", where, pos, "the group that holds the layer is not invalidated: %s", why)
	var parent V
	for _, x := range effs {
		for _, a := range x.args {
			anyNode(a, func(n V) bool {
				if d.fld("Parent", L)(n) {
					parent = n
				}
				return false
			})
		}
	}
	if parent == nil {
		d.r.bad("pass-through children", where, pos, "the pass-through groups beside the layer are not invalidated")
		return
	}
	ok, why = d.eachPass(f, parent, area, env)
	d.r.check(ok, "pass-through children", where, pos, "the pass-through groups beside the layer are not invalidated: %s", why)
}

// appliesCall: x marks one layer; which.
func (d *dirtyRun) appliesCall(x *VEff) V {
	if x.kind != "call" {
		return nil
	}
	k, ok := x.ins.(ssa.CallInstruction)
	if !ok || k.Common().StaticCallee() == nil {
		return nil
	}
	i, ok := d.applies[k.Common().StaticCallee()]
	if !ok || i >= len(x.args) {
		return nil
	}
	return x.args[i]
}

func (d *dirtyRun) entry() {
	r, e := d.r, d.e
	// functions that compute the tiles of a layer and mark it
	climbers := map[*ssa.Function]bool{}
	for f := range d.applies {
		climbers[f] = true
	}
	for again := true; again; {
		again = false
		for _, f := range d.fns {
			if _, ok := d.applies[f]; ok || d.pass[f] || f.Blocks == nil || f.Parent() != nil || f.Object() != nil && f.Object().Exported() {
				continue
			}
			li := -1
			for i, pr := range f.Params {
				if isLayerOf(pr.Type(), d.layer) {
					li = i
				}
			}
			if li < 0 {
				continue
			}
			direct := false
			instrs(f, func(in ssa.Instruction) {
				if k, ok := in.(ssa.CallInstruction); ok && k.Common().StaticCallee() != nil {
					if _, ok := d.applies[k.Common().StaticCallee()]; ok {
						direct = true
					}
				}
			})
			if !direct {
				continue
			}
			for g := range d.applies {
				d.root[g] = true
			}
			delete(d.runs, f)
			for _, x := range d.eval(f) {
				if a := d.appliesCall(x); a != nil && a == d.par(f, li) {
					d.r.fn(fnLabel(f))
					d.applies[f] = li
					again = true
					g := d.under(x, nil, nil)
					r.check(g.isTrue(), "entry", fnLabel(f), d.p.rel(x.pos), "the layer is marked only if %s", g.str(4))
				}
			}
		}
	}
	for g := range d.applies {
		d.root[g] = true
	}
	d.runs = map[*ssa.Function][]*VEff{}
	// what the climbers are called with
	for _, f := range d.fns {
		if climbers[f] || f.Blocks == nil {
			continue
		}
		calls := false
		instrs(f, func(in ssa.Instruction) {
			if k, ok := in.(ssa.CallInstruction); ok && climbers[k.Common().StaticCallee()] {
				calls = true
			}
		})
		if !calls {
			continue
		}
		for _, x := range d.eval(f) {
			k, ok := x.ins.(ssa.CallInstruction)
			if !ok || x.kind != "call" || !climbers[k.Common().StaticCallee()] {
				continue
			}
			_, _, li, ai := d.params(k.Common().StaticCallee())
			l := x.args[li]
			r.check(anyNode(x.args[ai], func(n V) bool { return n == l }), "area", fnLabel(f), d.p.rel(x.pos), "the tiles that are marked are not those of the layer")
		}
	}
	// exported functions
	for _, f := range d.fns {
		if f.Object() == nil || !f.Object().Exported() || f.Blocks == nil || f.Signature.Recv() == nil {
			continue
		}
		li := -1
		for i, pr := range f.Params {
			if isLayerOf(pr.Type(), d.layer) {
				li = i
			}
		}
		if li < 0 {
			continue
		}
		effs := d.eval(f)
		l := d.par(f, li)
		var now, later *VEff
		var list V
		for _, x := range effs {
			if d.appliesCall(x) == l {
				now = x
			}
			if x.kind == "store" && x.val != nil && strings.HasPrefix(x.val.op, "append") {
				if st, ok := x.ins.(*ssa.Store); ok {
					if s, ok := st.Val.Type().Underlying().(*types.Slice); ok && isLayerOf(s.Elem(), d.layer) {
						holds := false
						for _, y := range effs {
							if y.kind == "store" && y.val == l && anyNode(x.val, func(n V) bool { return y.addr != nil && (n == y.addr || len(y.addr.args) == 1 && n == y.addr.args[0]) }) {
								holds = true
							}
						}
						if holds {
							later, list = x, x.val.args[0]
						}
					}
				}
			}
		}
		if now == nil && later == nil {
			continue
		}
		r.fn(fnLabel(f))
		where, pos := fnLabel(f), d.p.rel(f.Pos())
		if now == nil {
			r.bad("entry", where, pos, "the layer is never marked at once")
			continue
		}
		if later == nil {
			r.bad("deferred marks", where, pos, "a mark made while a render is running is not deferred")
			continue
		}
		if list.op != "field" {
			r.undecided("deferred marks", where, pos, "the list of deferred marks is %s", list.str(3))
			continue
		}
		d.listFld = list.aux
		env := map[V]bool{}
		for _, g := range []V{now.guard, later.guard} {
			anyNode(g, func(n V) bool {
				if n.op == "eq" {
					for i := range n.args {
						if n.args[1-i].op == "nil" && n.args[i].op == "field" && n.args[i].aux == d.listFld {
							env[n] = true
						}
					}
				}
				return false
			})
		}
		r.check(e.assume(now.guard, env).isTrue(), "entry", where, d.p.rel(now.pos), "while no render is running the layer is marked only if %s", e.assume(now.guard, env).str(4))
		for k := range env {
			env[k] = false
		}
		r.check(e.assume(later.guard, env).isTrue(), "deferred marks", where, d.p.rel(later.pos), "while a render is running the mark is deferred only if %s", e.assume(later.guard, env).str(4))
	}
	if d.listFld == "" {
		return
	}
	d.render()
}

// isListField: the address of the list of deferred marks.
func (d *dirtyRun) isListStore(x *VEff) bool {
	if x.kind != "store" || x.addr == nil || x.addr.op != "fld" && !strings.HasPrefix(x.addr.op, "fld") || x.addr.aux != d.listFld {
		return false
	}
	st, ok := x.ins.(*ssa.Store)
	if !ok {
		return false
	}
	s, ok := st.Val.Type().Underlying().(*types.Slice)
	return ok && isLayerOf(s.Elem(), d.layer)
}

// drains: the effects mark every layer of the list and close it.
func (d *dirtyRun) drains(effs []*VEff) (mark, shut *VEff, why string) {
	for _, x := range effs {
		if d.isListStore(x) && x.val.op == "nil" {
			shut = x
		}
		a := d.appliesCall(x)
		if a == nil || len(x.loops) == 0 || !strings.HasPrefix(a.op, "deref") || a.args[0].op != "elem" {
			continue
		}
		lst, idx := a.args[0].args[0], a.args[0].args[1]
		if lst.op != "field" || lst.aux != d.listFld {
			continue
		}
		in := x.loops[len(x.loops)-1]
		mark = x
		if !in.known || !d.e.coversAll(in, idx, lst) {
			why = "not every deferred mark is applied"
		}
	}
	return
}

func (d *dirtyRun) render() {
	r, e := d.r, d.e
	// functions that apply the deferred marks
	drain := map[*ssa.Function]bool{}
	for _, f := range d.fns {
		if f.Blocks == nil {
			continue
		}
		has := false
		instrs(f, func(in ssa.Instruction) {
			if k, ok := in.(ssa.CallInstruction); ok && k.Common().StaticCallee() != nil {
				if _, ok := d.applies[k.Common().StaticCallee()]; ok {
					has = true
				}
			}
		})
		if !has {
			continue
		}
		mark, shut, why := d.drains(d.eval(f))
		if mark == nil {
			continue
		}
		r.fn(fnLabel(f))
		drain[f] = true
		where, pos := fnLabel(f), d.p.rel(mark.pos)
		r.check(why == "", "deferred marks", where, pos, "%s", why)
		g := d.under(mark, nil, nil)
		starts := false
		instrs(f, func(in ssa.Instruction) {
			if _, ok := in.(*ssa.Go); ok {
				starts = true
			}
		})
		if !starts {
			r.check(g.isTrue(), "deferred marks", where, pos, "deferred marks are applied only if %s", g.str(4))
			r.check(shut != nil && d.under(shut, nil, nil).isTrue(), "deferred marks", where, pos, "the list of deferred marks is not closed, so later marks are never applied")
		}
	}
	if len(drain) == 0 {
		r.bad("deferred marks", "composite", "", "no function applies the deferred marks")
		return
	}
	for f := range drain {
		d.root[f] = true
	}
	for _, f := range d.fns {
		if f.Blocks == nil || drain[f] {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || strconv.Itoa(fa.Field) != d.listFld {
				return
			}
			if s, ok := st.Val.Type().Underlying().(*types.Slice); !ok || !isLayerOf(s.Elem(), d.layer) {
				return
			}
			if k, ok := st.Val.(*ssa.Const); ok && k.IsNil() {
				r.bad("deferred marks", fnLabel(f), d.p.rel(st.Pos()), "the deferred marks are dropped here without being applied")
			}
		})
	}
	n := 0
	for _, f := range d.fns {
		starts := false
		instrs(f, func(in ssa.Instruction) {
			if _, ok := in.(*ssa.Go); ok {
				starts = true
			}
		})
		if !starts || f.Signature.Recv() == nil || f.Parent() != nil {
			continue
		}
		// the function renders if it opens or drains the list
		delete(d.runs, f)
		effs := d.eval(f)
		var open, first *VEff
		ends := e.boolean(false)
		uses := false
		for _, x := range effs {
			if d.isListStore(x) && x.val.op != "nil" {
				uses = true
				if open == nil {
					open = x
				}
			}
			if x.kind == "go" && first == nil {
				first = x
			}
		}
		for _, x := range effs {
			if k, ok := x.ins.(ssa.CallInstruction); ok {
				t := k.Common().StaticCallee()
				if mc, isC := k.Common().Value.(*ssa.MakeClosure); isC {
					t = mc.Fn.(*ssa.Function)
				}
				if t != nil && drain[t] {
					uses = true
					if x.kind == "call" && first != nil && x.seq > first.seq {
						ends = e.or(ends, x.guard)
					}
				}
			}
		}
		if !uses {
			continue
		}
		n++
		r.fn(fnLabel(f))
		where, pos := fnLabel(f), d.p.rel(f.Pos())
		if open == nil || first == nil || open.seq > first.seq || !d.under(open, nil, nil).isTrue() {
			r.bad("deferred marks", where, pos, "workers are started before marks are deferred")
			continue
		}
		r.ok("deferred marks")
		for _, x := range effs {
			if x.kind != "return" || x.fn != f {
				continue
			}
			if first != nil && x.seq < open.seq {
				continue
			}
			b := 4000
			r.check(e.holds(e.or(e.not(x.guard), ends), nil, &b), "deferred marks", where, d.p.rel(x.pos), "the render ends here without applying the marks that were deferred")
		}
	}
	if n == 0 {
		r.bad("deferred marks", "composite", "", "no render opens the list of deferred marks")
	}
}

// area: nothing but what makes a layer invisible keeps tiles out of the list.
func (d *dirtyRun) area() {
	r, e := d.r, d.e
	in := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || in[f] || d.pass[f] || f.Blocks == nil || !inPkg(f, "composite") || returnsCache(f) {
			return
		}
		in[f] = true
		instrs(f, func(i ssa.Instruction) {
			if k, ok := i.(ssa.CallInstruction); ok {
				walk(k.Common().StaticCallee())
			}
		})
	}
	for f := range d.applies {
		walk(f)
	}
	heavy := heavyFuncs(d.fns)
	d.deep = false // each function for itself
	d.runs = map[*ssa.Function][]*VEff{}
	for f := range in {
		d.root[f] = true
	}
	for _, f := range d.fns {
		if !in[f] || heavy[f] {
			continue
		}
		for _, x := range d.eval(f) {
			var v V
			what := "a tile"
			switch i := x.ins.(type) {
			case *ssa.MapUpdate:
				if i.Key.Type().String() == "image.Point" && x.kind == "mapset" {
					v = x.args[1]
				}
			case *ssa.Store:
				if i.Val.Type().String() == "image.Point" && x.kind == "store" {
					v = x.val
				}
			case *ssa.Call:
				if i.Call.StaticCallee() == f && x.kind == "call" {
					for _, a := range x.args {
						if a.op == "elem" {
							v, what = a, "a group inside the group"
						}
					}
				}
			}
			if v == nil || v.op != "elem" && !(v.op == "ext" && v.aux == "1" && v.args[0].op == "next") {
				continue
			}
			if _, ok := d.applies[f]; ok {
				continue
			}
			r.fn(fnLabel(f))
			env := map[V]bool{}
			var next V
			if v.op == "ext" {
				next = v.args[0]
			}
			atoms(x.guard, func(n V) {
				anyNode(n, func(m V) bool {
					if m.op == "field" && strings.HasPrefix(m.args[0].op, "deref") {
						switch m.aux {
						case layerFieldIdx(d.layer, "Visible"):
							if m == n {
								env[n] = true
							}
						case layerFieldIdx(d.layer, "Clipping"):
							if m == n {
								env[n] = false
							}
						case layerFieldIdx(d.layer, "Opacity"):
							if y := e.subst(n, m, e.int(255, 64)); y.isTrue() || y.isFalse() {
								env[n] = y.isTrue()
							}
						}
					}
					if m.op == "len" && d.isChildren(m.args[0]) {
						if y := e.subst(n, m, e.int(1000, 64)); y.isTrue() || y.isFalse() {
							env[n] = y.isTrue()
						}
					}
					return false
				})
				if n.op == "ext" && n.aux == "0" && n.args[0] == next {
					env[n] = true
				}
			})
			var left []string
			for _, k := range conjuncts(d.under(x, nil, env)) {
				if k.op == "not" {
					k = k.args[0]
				}
				if k.isTrue() || k.op == "eq" && (k.args[0].op == "nil" || k.args[1].op == "nil") {
					continue
				}
				left = append(left, k.str(4))
			}
			r.check(len(left) == 0, "area", fnLabel(f), d.p.rel(x.pos), "%s is marked only depending on %s", what, strings.Join(left, ", "))
		}
	}
	r.atLeast("area", 3)
}

func (d *dirtyRun) isChildren(v V) bool {
	return v.op == "field" && v.aux == layerFieldIdx(d.layer, "Children") && strings.HasPrefix(v.args[0].op, "deref")
}

// links: every child knows its parent.
func (d *dirtyRun) links() {
	r, e := d.r, d.e
	chi, par := layerFieldIdx(d.layer, "Children"), layerFieldIdx(d.layer, "Parent")
	for _, f := range d.fns {
		if f.Blocks == nil {
			continue
		}
		makes := false
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isLayerOf(fa.X.Type(), d.layer) && strconv.Itoa(fa.Field) == chi {
					makes = true
				}
			}
			if c, ok := in.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					if s, ok := c.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), d.layer) {
						r.bad("parent link", fnLabel(f), d.p.rel(c.Pos()), "layers are moved by append, which leaves the links to them behind")
					}
				}
			}
		})
		if !makes {
			continue
		}
		r.fn(fnLabel(f))
		effs := d.eval(f)
		for _, x := range effs {
			st, ok := x.ins.(*ssa.Store)
			if x.kind != "store" || !ok || x.addr == nil || x.addr.op != "fld" || x.addr.aux != chi {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isLayerOf(fa.X.Type(), d.layer) {
				continue
			}
			if x.val.op == "nil" {
				r.ok("parent link")
				continue
			}
			holder := x.addr.args[0]
			where, pos := fnLabel(x.fn), d.p.rel(x.pos)
			size := e.sliceParts(x.val)[2]
			good, why := false, "nothing links the children made here to this layer"
			for _, y := range effs {
				if y.kind != "store" || y.addr == nil || y.addr.op != "fld" || y.addr.aux != par || y.seq < x.seq || len(y.loops) <= len(x.loops) {
					continue
				}
				ys, ok := y.ins.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := ys.Addr.(*ssa.FieldAddr); !ok || !isLayerOf(fa.X.Type(), d.layer) {
					continue
				}
				el := y.addr.args[0]
				if el.op != "elem" {
					continue
				}
				if el.args[0] != x.val && el.args[0] != e.sliceParts(x.val)[0] && !d.sameSlice(el.args[0], x.val, holder, chi) {
					continue
				}
				isHolder := y.val == holder
				for _, z := range effs { // a literal that is copied into place
					if z.kind == "store" && z.addr == y.val && z.val != nil && z.val.op == "struct" && anyNode(z.val, func(n V) bool { return n == x.val }) {
						isHolder = true
					}
				}
				if !isHolder {
					why = "they are linked to " + y.val.str(4)
					continue
				}
				in := y.loops[len(y.loops)-1]
				if !in.known || in.trip != size && in.trip.str(9) != size.str(9) && in.trip != e.mk("len", "", el.args[0]) || el.args[1] != in.iter && el.args[1] != e.add(e.sub(in.trip, in.iter, 64), e.int(-1, 64), 64) {
					why = "not every child is linked"
					continue
				}
				outer := map[V]bool{}
				for _, k := range conjuncts(x.guard) {
					outer[k] = true
				}
				if g := d.under(y, nil, outer); !g.isTrue() {
					why = "they are linked only if " + g.str(4)
					continue
				}
				// nothing overwrites the child afterwards
				over := ""
				for _, z := range effs {
					if z.seq < y.seq || z.kind != "call" {
						continue
					}
					k, ok := z.ins.(ssa.CallInstruction)
					if !ok || k.Common().StaticCallee() == nil {
						continue
					}
					for i, a := range z.args {
						if (a == el || a.op == "elem" && a.args[0] == el.args[0]) && overwrites(k.Common().StaticCallee(), i, d.layer, 0) {
							over = "the link is overwritten by " + fnLabel(k.Common().StaticCallee())
						}
					}
				}
				if over != "" {
					why = over
					continue
				}
				good = true
			}
			r.check(good, "parent link", where, pos, "marks of a child do not reach the layer that holds it: %s", why)
		}
	}
}

// sameSlice: the field of the holder that was just set.
func (d *dirtyRun) sameSlice(a, val, holder V, chi string) bool {
	return a.op == "field" && a.aux == chi && anyNode(a, func(n V) bool { return n == holder })
}

// overwrites: f stores a whole layer, or its parent, through parameter i.
func overwrites(f *ssa.Function, i int, layer *types.Named, depth int) bool {
	if f == nil || f.Blocks == nil || i >= len(f.Params) || depth > 4 {
		return false
	}
	out := false
	instrs(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Addr == f.Params[i] {
				out = true
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.X == f.Params[i] && fieldNameOf(fa.X.Type(), fa.Field) == "Parent" {
				out = true
			}
		case *ssa.Call:
			if t := x.Call.StaticCallee(); t != nil && t != f {
				for j, a := range x.Call.Args {
					if a == f.Params[i] && overwrites(t, j, layer, depth+1) {
						out = true
					}
				}
			}
		}
	})
	return out
}

// atoms visits the conditions a formula is made of.
func atoms(v V, f func(V)) {
	switch v.op {
	case "and", "or", "not":
		for _, a := range v.args {
			atoms(a, f)
		}
		return
	}
	f(v)
}
