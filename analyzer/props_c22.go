package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: a cancelled render leaves no tile marked as rendered.

func init() {
	checks["C22"] = Check{
		run:   runC22,
		level: "other",
		expl:  "Gated value numbering of every function that marks a tile as up to date: under the condition of the mark, the same tile is recorded in the list of changes under the number of the layer (or of the root) whose cache was marked, without losing what was recorded before; the correspondence of cache and number, and the identity of the list, are followed through the parameters of all callers up to the function that starts the render. There, after the workers have ended and whenever the wait reports that it was cut short, every tile of every list is deleted from the cache with that number.",
		assum: []string{"the error the wait reports when it was cut short is the one C26 requires"},
	}
}

func isCachedMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || m.Key().String() != "image.Point" {
		return false
	}
	b, ok := m.Elem().Underlying().(*types.Basic)
	return ok && (b.Info()&types.IsBoolean != 0 || b.Info()&types.IsInteger != 0)
}

func isPointList(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && s.Elem().String() == "image.Point"
}

func isChangeMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && isPointList(m.Elem())
}

// isCacheStruct: the struct that holds a map of up to date tiles.
func isCacheStruct(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isCachedMap(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

type cancelRun struct {
	p    *Program
	r    *Report
	e    *VEval
	fns  []*ssa.Function
	runs map[*ssa.Function][]*VEff
	rets map[*ssa.Function]V
	root map[*ssa.Function]bool // functions not expanded
	seen map[string]bool
	deep bool // expand everything that is not recursive
	acyc map[*ssa.Function]bool
}

func returnsCache(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && func() bool {
		_, ok := rs.At(0).Type().Underlying().(*types.Pointer)
		return ok && isCacheStruct(rs.At(0).Type())
	}()
}

// heavy: functions that draw or start goroutines are not expanded.
func heavyFuncs(fns []*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range fns {
		instrs(f, func(in ssa.Instruction) {
			if _, ok := in.(*ssa.Go); ok {
				out[f] = true
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if t := c.Common().StaticCallee(); t != nil && inPkg(t, "blend") {
					out[f] = true
				}
				if c.Common().IsInvoke() && strings.HasPrefix(c.Common().Method.Name(), "Draw") {
					out[f] = true
				}
			}
		})
	}
	return out
}

func (c *cancelRun) eval(f *ssa.Function) []*VEff {
	if x, ok := c.runs[f]; ok {
		return x
	}
	e := c.e
	e.effs, e.reads, e.nloop, e.nsym, e.gos = nil, nil, 0, 0, 0
	var args []V
	for i, pr := range f.Params {
		args = append(args, e.param(fmt.Sprintf("%s.%d", fnLabel(f), i), i, pr.Type()))
	}
	okh := compositeOnly(c.p, f)
	heavy := heavyFuncs(c.fns)
	if c.deep {
		okh = c.acyclic()
	}
	e.keepGo = true
	e.inline = func(g *ssa.Function, as []V) bool {
		return okh[g] && !heavy[g] && !returnsCache(g) && !c.root[g] || g.Synthetic != "" || g.Pkg != nil && g.Pkg.Pkg.Path() == "image"
	}
	c.rets[f], _ = e.Run(f, args)
	e.inline = nil
	e.keepGo = false
	c.runs[f] = e.effs
	e.effs = nil
	if os.Getenv("PSDAN_C22") == f.Name() {
		for _, x := range c.runs[f] {
			e.dump(c.p, x)
		}
	}
	return c.runs[f]
}

// acyclic: the functions of the package that do not lead back to themselves.
func (c *cancelRun) acyclic() map[*ssa.Function]bool {
	if c.acyc != nil {
		return c.acyc
	}
	c.acyc = map[*ssa.Function]bool{}
	for _, f := range c.fns {
		seen := map[*ssa.Function]bool{}
		var reach func(g *ssa.Function) bool
		reach = func(g *ssa.Function) bool {
			found := false
			instrs(g, func(in ssa.Instruction) {
				k, ok := in.(ssa.CallInstruction)
				if !ok || found {
					return
				}
				t := k.Common().StaticCallee()
				if t == nil || t.Blocks == nil || !inPkg(t, "composite") {
					return
				}
				if t == f {
					found = true
				} else if !seen[t] {
					seen[t] = true
					found = reach(t)
				}
			})
			return found
		}
		c.acyc[f] = !reach(f)
	}
	return c.acyc
}

// holds decides a formula by cases over its atoms; assumed values are given in env.
func (e *VEval) holds(v V, env map[V]bool, budget *int) bool {
	v = e.assume(v, env)
	if v.isTrue() {
		return true
	}
	if v.isFalse() {
		return false
	}
	*budget--
	if *budget < 0 {
		return false
	}
	a := boolAtom(v)
	if a == nil {
		return false
	}
	for _, b := range []bool{true, false} {
		if !e.holds(v, map[V]bool{a: b}, budget) {
			return false
		}
	}
	return true
}

func boolAtom(v V) V {
	switch v.op {
	case "and", "or", "not":
		for _, a := range v.args {
			if x := boolAtom(a); x != nil {
				return x
			}
		}
		return nil
	case "ite":
		return boolAtom(v.args[0])
	}
	if v.isTrue() || v.isFalse() {
		return nil
	}
	return v
}

// assume replaces conditions by their assumed values.
func (e *VEval) assume(v V, env map[V]bool) V {
	if len(env) == 0 {
		return v
	}
	return e.rebuild(v, func(n V) V {
		if b, ok := env[n]; ok {
			return e.boolean(b)
		}
		return nil
	})
}

// callersOf lists the functions of the package that call f.
func (c *cancelRun) callersOf(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, g := range c.fns {
		found := false
		instrs(g, func(in ssa.Instruction) {
			if k, ok := in.(ssa.CallInstruction); ok && k.Common().StaticCallee() == f {
				found = true
			}
		})
		if found {
			out = append(out, g)
		}
	}
	return out
}

// record is a tile that is put on the list of changes.
type record struct {
	x     *VEff
	m, k  V // map and key
	guard V
}

// recordsOf finds what is recorded, and changes of the list that lose records.
func (c *cancelRun) recordsOf(effs []*VEff, pt V) (recs []record, lossy []*VEff, any bool) {
	has := func(v V) bool { // does the value carry the tile, directly or in new memory
		seen := map[V]bool{}
		var rec func(v V) bool
		rec = func(v V) bool {
			return anyNode(v, func(n V) bool {
				if n == pt {
					return true
				}
				if seen[n] || n == v && seen[v] {
					return false
				}
				seen[n] = true
				for _, y := range effs {
					if y.kind == "store" && y.addr != nil && y.val != nil && (y.addr == n || len(y.addr.args) == 1 && y.addr.args[0] == n) {
						if rec(y.val) {
							return true
						}
					}
				}
				return false
			})
		}
		return rec(v)
	}
	for _, x := range effs {
		switch in := x.ins.(type) {
		case *ssa.MapUpdate:
			if x.kind != "mapset" || !isChangeMap(in.Map.Type()) {
				continue
			}
			any = true
			m, k := x.args[0], x.args[1]
			if has(x.args[2]) {
				recs = append(recs, record{x, m, k, x.guard})
			}
			// what was there must be kept, unless there was nothing
			keeps := anyNode(x.args[2], func(n V) bool {
				return n.op == "lookup" && len(n.args) > 1 && n.args[0] == m && n.args[1] == k
			})
			env := map[V]bool{}
			anyNode(x.guard, func(n V) bool {
				if n.op == "ext" && n.aux == "1" && n.args[0].op == "lookup" && n.args[0].args[0] == m && n.args[0].args[1] == k {
					env[n] = true
				}
				if n.op == "eq" && len(n.args) == 2 {
					for i := range n.args {
						l := n.args[i]
						if l.op == "ext" {
							l = l.args[0]
						}
						if n.args[1-i].op == "nil" && l.op == "lookup" && l.args[0] == m && l.args[1] == k {
							env[n] = false
						}
					}
				}
				return false
			})
			if !keeps {
				if len(env) == 0 || !c.e.assume(x.guard, env).isFalse() {
					lossy = append(lossy, x)
				}
			}
		case *ssa.Store:
			if x.kind != "store" || !isPointList(in.Addr.Type()) || x.addr == nil {
				continue
			}
			a := x.addr
			if a.op == "ext" {
				a = a.args[0]
			}
			if a.op != "lookup" || len(a.args) < 2 {
				continue
			}
			any = true
			if has(x.val) {
				recs = append(recs, record{x, a.args[0], a.args[1], x.guard})
			}
			val := x.val
			if strings.HasPrefix(val.op, "append") && len(val.args) > 0 {
				val = val.args[0]
			}
			isOld := func(n V) bool { return strings.HasPrefix(n.op, "deref") && n.args[0] == x.addr || n == x.addr }
			if val.op == "slice" && !isOld(val) || !anyNode(val, isOld) {
				lossy = append(lossy, x)
			}
		}
	}
	return
}

func sameLoops(a, b []*VLoop) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC22(ctx *Ctx, r *Report) {
	p := ctx.prog("linux-amd64")
	c := &cancelRun{p: p, r: r, e: newVEval(p), fns: p.pkgFuncs("composite"), runs: map[*ssa.Function][]*VEff{}, rets: map[*ssa.Function]V{}, root: map[*ssa.Function]bool{}, seen: map[string]bool{}}
	if n := os.Getenv("PSDAN_C22"); n != "" {
		for _, f := range c.fns {
			if n == f.Name() {
				c.eval(f)
			}
		}
		return
	}
	// the functions in which both the mark and the record are visible
	depth := map[*ssa.Function]int{}
	var todo []*ssa.Function
	for _, f := range c.fns {
		found := false
		instrs(f, func(in ssa.Instruction) {
			if u, ok := in.(*ssa.MapUpdate); ok && isCachedMap(u.Map.Type()) {
				found = true
			}
		})
		if found {
			todo = append(todo, f)
		}
	}
	var owners []*ssa.Function
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		any := false
		for _, x := range c.eval(f) {
			switch in := x.ins.(type) {
			case *ssa.MapUpdate:
				any = any || isChangeMap(in.Map.Type())
			case *ssa.Store:
				any = any || isPointList(in.Addr.Type()) && x.kind == "store" && x.addr != nil && (x.addr.op == "lookup" || x.addr.op == "ext" && x.addr.args[0].op == "lookup")
			}
		}
		if any {
			owners = append(owners, f)
			continue
		}
		cs := c.callersOf(f)
		if len(cs) == 0 || depth[f] > 3 {
			r.bad("recorded", fnLabel(f), p.rel(f.Pos()), "a tile is marked as up to date here and not recorded in a list of changes")
			continue
		}
		for _, g := range cs {
			if _, ok := depth[g]; !ok {
				depth[g] = depth[f] + 1
				todo = append(todo, g)
			}
		}
	}
	for _, f := range owners {
		c.root[f] = true
	}
	c.runs = map[*ssa.Function][]*VEff{}
	done := map[string]bool{}
	for _, f := range owners {
		r.fn(fnLabel(f))
		effs := c.eval(f)
		for _, x := range effs {
			u, ok := x.ins.(*ssa.MapUpdate)
			if !ok || x.kind != "mapset" || !isCachedMap(u.Map.Type()) {
				continue
			}
			where, pos := fnLabel(x.fn), p.rel(x.pos)
			recs, lossy, _ := c.recordsOf(effs, x.args[1])
			for _, l := range lossy {
				r.bad("kept", fnLabel(l.fn), p.rel(l.pos), "what was recorded before is lost when this list of changes is replaced")
			}
			rest := c.e.not(x.guard)
			var used []record
			for _, rc := range recs {
				if sameLoops(rc.x.loops, x.loops) {
					rest = c.e.or(rest, rc.guard)
					used = append(used, rc)
				}
			}
			n := 4000
			if !c.e.holds(rest, nil, &n) {
				r.bad("recorded", where, pos, "the tile marked as up to date here is not recorded in the list of changes on every path")
				continue
			}
			r.ok("recorded")
			for _, rc := range used {
				if c.e.and(rc.guard, x.guard).isFalse() {
					continue
				}
				key := fmt.Sprint(x.args[0].id, rc.k.id, rc.m.id)
				if done[key] {
					continue
				}
				done[key] = true
				cacheObj := x.args[0]
				if cacheObj.op == "field" {
					cacheObj = cacheObj.args[0]
				}
				if strings.HasPrefix(cacheObj.op, "deref") {
					cacheObj = cacheObj.args[0]
				}
				c.match(f, cacheObj, rc.k, rc.x, 0)
				c.list(f, rc.m, rc.x, 0)
			}
		}
	}
	r.atLeast("recorded", 2)
	r.atLeast("same cache", 2)
	r.atLeast("forgotten", 1)
}

// leaves are the values v can have, with conditions removed.
func valueLeaves(v V) []V {
	if v.op == "ite" {
		return append(valueLeaves(v.args[1]), valueLeaves(v.args[2])...)
	}
	return []V{v}
}

func (c *cancelRun) paramIndex(f *ssa.Function, v V) int {
	for i, pr := range f.Params {
		if v == c.e.param(fmt.Sprintf("%s.%d", fnLabel(f), i), i, pr.Type()) {
			return i
		}
	}
	return -1
}

// up rewrites values in the parameters of f to the arguments of a call.
func (c *cancelRun) up(f *ssa.Function, v V, args []V) V {
	sub := map[V]V{}
	for i, pr := range f.Params {
		if i < len(args) {
			sub[c.e.param(fmt.Sprintf("%s.%d", fnLabel(f), i), i, pr.Type())] = args[i]
		}
	}
	return c.e.rebuild(v, func(n V) V { return sub[n] })
}

// sites are the calls of f as effects of its callers.
func (c *cancelRun) sites(f *ssa.Function) (out []*VEff, in []*ssa.Function) {
	c.root[f] = true
	for _, g := range c.callersOf(f) {
		delete(c.runs, g)
		for _, x := range c.eval(g) {
			if x.kind != "call" && x.kind != "go" && x.kind != "defer" {
				continue
			}
			if k, ok := x.ins.(ssa.CallInstruction); ok && k.Common().StaticCallee() == f {
				out = append(out, x)
				in = append(in, g)
			}
		}
	}
	return
}

// match: the number under which is recorded is the one of the cache.
func (c *cancelRun) match(f *ssa.Function, obj, key V, x *VEff, d int) {
	if d > 6 {
		c.r.undecided("same cache", fnLabel(f), c.p.rel(x.pos), "the cache is handed through too many functions")
		return
	}
	up := false
	for _, l := range valueLeaves(obj) {
		if l.op == "nil" {
			continue
		}
		if c.paramIndex(f, l) >= 0 {
			up = true
			continue
		}
		var id V
		if l.op == "ext" {
			l = l.args[0]
		}
		switch {
		case l.op == "lookup" && len(l.args) > 1:
			id = l.args[1]
		default:
			id = c.numberArg(f, l)
		}
		if id == nil {
			c.r.undecided("same cache", fnLabel(f), c.p.rel(x.pos), "it is not known which cache %s is", l.str(3))
			continue
		}
		ok := false
		env := map[V]bool{}
		anyNode(key, func(n V) bool { // a layer whose number is read is not nil
			if n.op == "eq" {
				for i := range n.args {
					if n.args[1-i].op == "nil" && anyNode(id, func(m V) bool { return m == n.args[i] }) {
						env[n] = false
					}
				}
			}
			return false
		})
		if c.e.assume(key, env) == id {
			ok = true
		}
		c.r.check(ok, "same cache", fnLabel(f), c.p.rel(x.pos), "the tile is recorded under %s and marked in the cache of %s", key.str(4), id.str(4))
	}
	if !up {
		return
	}
	ss, gs := c.sites(f)
	for i, s := range ss {
		c.match(gs[i], c.up(f, obj, s.args), c.up(f, key, s.args), s, d+1)
	}
}

// numberArg: the layer number given to a call that returned the cache.
func (c *cancelRun) numberArg(f *ssa.Function, l V) V {
	for _, y := range c.eval(f) {
		k, ok := y.ins.(ssa.CallInstruction)
		if !ok || y.res != l || k.Common().IsInvoke() {
			continue
		}
		for i, a := range k.Common().Args {
			if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && i < len(y.args) {
				return y.args[i]
			}
		}
	}
	return nil
}

// list follows the list of changes to where it is made, and looks at what
// becomes of it there.
func (c *cancelRun) list(f *ssa.Function, m V, x *VEff, d int) {
	r, p := c.r, c.p
	base := m
	for {
		if base.op == "field" || strings.HasPrefix(base.op, "deref") || strings.HasPrefix(base.op, "fld") {
			base = base.args[0]
			continue
		}
		break
	}
	if d > 8 {
		r.undecided("list of changes", fnLabel(f), p.rel(x.pos), "the list is handed through too many functions")
		return
	}
	if i := c.paramIndex(f, base); i >= 0 {
		key := fmt.Sprint("list", f, m.id)
		if c.seen[key] {
			return
		}
		c.seen[key] = true
		ss, gs := c.sites(f)
		for k, s := range ss {
			if gs[k] == f { // recursion hands it on unchanged
				r.check(s.args[i] == base, "list of changes", fnLabel(f), p.rel(s.pos), "another list of changes is handed on")
				continue
			}
			c.list(gs[k], c.up(f, m, s.args), s, d+1)
		}
		return
	}
	r.ok("list of changes")
	key := fmt.Sprint("made", f, base.id)
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	effs := c.eval(f)
	isList := func(v V) bool {
		if v == m || v == base || anyNode(v, func(n V) bool { return n == base }) {
			return true
		}
		for _, y := range effs {
			if y.kind == "store" && y.addr != nil && y.val == v && anyNode(y.addr, func(n V) bool { return n == base }) {
				return true
			}
		}
		return false
	}
	// the wait
	var wait *VEff
	for _, y := range effs {
		if k, ok := y.ins.(ssa.CallInstruction); ok && y.kind == "call" && y.seq > x.seq {
			rs := k.Common().Signature().Results()
			if rs.Len() > 0 && rs.At(rs.Len()-1).Type().String() == "error" && y.res != nil {
				for _, a := range k.Common().Args {
					if wait == nil && isCtx(a.Type()) {
						wait = y
					}
				}
			}
		}
	}
	if wait == nil {
		r.bad("forgotten", fnLabel(f), p.rel(f.Pos()), "no wait that can be cut short follows the start of the work")
		return
	}
	var all []*VEff
	good := false
	why := "nothing deletes the recorded tiles"
	for _, y := range effs {
		if y.kind != "delete" || y.seq < wait.seq {
			continue
		}
		var next V
		anyNode(y.args[1], func(n V) bool {
			if n.op == "next" {
				next = n
			}
			return next != nil
		})
		if next == nil || len(next.args) == 0 || next.args[0].op != "range" || !isList(next.args[0].args[0]) {
			continue
		}
		all = append(all, y)
		w := c.revert(y, next, wait)
		if w == "" {
			good = true
		} else {
			why = w
		}
	}
	pos := p.rel(wait.pos)
	if len(all) > 0 {
		pos = p.rel(all[0].pos)
	}
	r.check(good, "forgotten", fnLabel(f), pos, "when the render is cut short, recorded tiles stay marked as up to date: %s", why)
}

// revert: y deletes every tile of every list whenever the wait fails.
func (c *cancelRun) revert(y *VEff, next V, wait *VEff) string {
	e := c.e
	// the cache has the number the list is stored under
	obj := y.args[0]
	for obj.op == "field" || strings.HasPrefix(obj.op, "deref") {
		obj = obj.args[0]
	}
	id := func(n V) bool { return n.op == "ext" && n.aux == "1" && n.args[0] == next }
	cobj := obj
	if cobj.op == "ext" {
		cobj = cobj.args[0]
	}
	okID := false
	if cobj.op == "lookup" && len(cobj.args) > 1 {
		okID = id(cobj.args[1])
	} else if strings.HasPrefix(cobj.op, "call") {
		for _, a := range cobj.args {
			okID = okID || id(a)
		}
	}
	if !okID {
		return "the cache they are deleted from is not the one they were recorded for"
	}
	// every element of the list
	if len(y.loops) < 2 {
		return "not every element is visited"
	}
	inner := y.loops[len(y.loops)-1]
	var lst, idx V
	anyNode(y.args[1], func(n V) bool {
		if n.op == "elem" && len(n.args) > 1 {
			lst, idx = n.args[0], n.args[1]
		}
		return false
	})
	if lst == nil || !strings.HasPrefix(y.args[1].op, "deref") || y.args[1].args[0].op != "elem" {
		return "what is deleted is not an element of the list"
	}
	if !anyNode(lst, func(n V) bool { return n.op == "ext" && n.aux == "2" && n.args[0] == next }) || lst.op == "slice" {
		return "what is visited is not the whole list"
	}
	if !inner.known || !e.coversAll(inner, idx, lst) {
		return "not every element of the list is visited"
	}
	// the errors that are not looked for do not occur
	var special V
	anyNode(y.guard, func(n V) bool {
		if n.op == "eq" {
			for i := range n.args {
				if n.args[i] == wait.res && n.args[1-i].op != "nil" {
					special = n.args[1-i]
				}
			}
		}
		return false
	})
	if special != nil {
		if k, ok := wait.ins.(ssa.CallInstruction); ok && k.Common().StaticCallee() != nil {
			t := k.Common().StaticCallee()
			for _, z := range c.eval(t) {
				if z.kind != "return" || z.fn != t || z.val == nil {
					continue
				}
				for _, l := range valueLeaves(z.val) {
					if l.op != "nil" && l != special {
						return "the wait can also report " + l.str(3)
					}
				}
			}
		}
	}
	// nothing but the failure of the wait decides
	env := map[V]bool{}
	set := func(n V) bool {
		switch n.op {
		case "ext":
			if n.aux == "0" && n.args[0] == next || n.aux == "1" && n.args[0] == cobj {
				env[n] = true
			}
		case "eq":
			for i := range n.args {
				a, b := n.args[i], n.args[1-i]
				if b.op == "nil" && (a == obj || a == wait.res) {
					env[n] = false
				}
				if a == wait.res && strings.HasPrefix(b.op, "deref") {
					env[n] = true
				}
			}
		}
		return false
	}
	anyNode(y.guard, set)
	g := e.assume(y.guard, env)
	for _, k := range conjuncts(g) {
		if k == inner.cont || k == inner.head || k == e.and(inner.cont, inner.head) || inLoopCond(k, inner) {
			continue
		}
		if k.isTrue() {
			continue
		}
		return "they are only deleted if " + k.str(4)
	}
	return ""
}

// inLoopCond: a condition on the number of the iteration that holds in every one.
func inLoopCond(k V, l *VLoop) bool {
	if k == l.cont || k == l.head {
		return true
	}
	for _, c := range [](V){l.cont, l.head} {
		if c == nil {
			continue
		}
		for _, x := range conjuncts(c) {
			if x == k {
				return true
			}
		}
	}
	return false
}

// coversAll: idx runs over all positions of lst, in whatever order.
func (e *VEval) coversAll(l *VLoop, idx, lst V) bool {
	n := e.mk("len", "", lst)
	if l.trip != n && l.trip.str(9) != n.str(9) {
		return false
	}
	return idx == l.iter || idx == e.add(e.sub(l.trip, l.iter, 64), e.int(-1, 64), 64)
}
