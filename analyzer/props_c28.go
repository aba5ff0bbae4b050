package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: pooled buffers are clean when reused and never used after return.

func init() {
	checks["C28"] = Check{
		run:   runC28,
		level: "other",
		expl:  "Typestate of every slice obtained from a sync.Pool, followed through the image structs that carry it, local variables, deferred calls, closures and the functions of the package (calls are expanded, the states of all paths are kept apart): a slice is given back at most once, not used or returned afterwards, and one that is given back is not kept anywhere that outlives the call. Value numbering of the functions that give slices back (or take them): the whole slice is cleared before Put (or right after Get), and the function installed as Pool.New returns a new slice.",
		assum: []string{"the drawing functions of package blend and of the standard library do not keep the images they are given"},
	}
}

func isPoolCall(in ssa.Instruction, name string) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := c.Common().StaticCallee()
	return f != nil && f.String() == "(*sync.Pool)."+name
}

func runC28(ctx *Ctx, r *Report) {
	p := ctx.prog("linux-amd64")
	for _, rel := range []string{"composite", "blend", ""} {
		fns := p.pkgFuncs(rel)
		uses := false
		for _, f := range fns {
			instrs(f, func(in ssa.Instruction) {
				if isPoolCall(in, "Get") || isPoolCall(in, "Put") {
					uses = true
				}
			})
		}
		if !uses {
			continue
		}
		poolNew(p, r, fns)
		poolClean(p, r, fns)
		poolPaths(p, r, fns)
	}
	r.atLeast("new buffers", 1)
	r.atLeast("cleared", 1)
	r.atLeast("pool object", 1)
	r.atLeast("given back once", 1)
	r.atLeast("use of a buffer", 10)
}

// poolNew: what a pool makes is new, and every pool can make something.
func poolNew(p *Program, r *Report, fns []*ssa.Function) {
	isPool := func(t types.Type) bool { return t.String() == "sync.Pool" }
	news := map[types.Type]int{} // structures with a pool: places that install New
	holder := func(a ssa.Value) (types.Type, ssa.Value) {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok || fieldNameOf(fa.X.Type(), fa.Field) != "New" || !isPool(types.Unalias(fa.X.Type().Underlying().(*types.Pointer).Elem())) {
			return nil, nil
		}
		if o, ok := fa.X.(*ssa.FieldAddr); ok {
			return o.X.Type().Underlying().(*types.Pointer).Elem(), o.X
		}
		return fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.X
	}
	for _, f := range fns {
		f := f
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			h, _ := holder(st.Addr)
			if h == nil {
				return
			}
			news[h]++
			pos := p.rel(st.Pos())
			v := st.Val
			for {
				if c, ok := v.(*ssa.ChangeType); ok {
					v = c.X
					continue
				}
				break
			}
			var g *ssa.Function
			switch x := v.(type) {
			case *ssa.Function:
				g = x
			case *ssa.MakeClosure:
				g = x.Fn.(*ssa.Function)
			}
			if g == nil {
				r.undecided("new buffers", fnLabel(f), pos, "the function installed in the pool is not known")
				return
			}
			r.fn(fnLabel(g))
			e := newVEval(p)
			var args []V
			for i, q := range g.Params {
				args = append(args, e.param(q.Name(), i, q.Type()))
			}
			e.Run(g, args)
			n := 0
			for _, x := range e.effs {
				if x.kind != "return" || x.goid != 0 || len(x.args) == 0 || len(x.loops) > 0 {
					continue
				}
				if x.fn != nil && x.fn != g && g.Synthetic == "" {
					continue
				}
				n++
				v := x.args[0]
				if v.op == "iface" && len(v.args) == 1 {
					v = v.args[0]
				}
				made := v
				for made.op == "slice" {
					made = made.args[0]
				}
				if !strings.HasPrefix(made.op, "mkslice") && made.op != "alloc" {
					r.bad("new buffers", fnLabel(g), p.rel(x.pos), "the pool hands out %s, which is not a new slice", v.str(4))
					continue
				}
				dirty := false
				for _, y := range e.effs {
					if (y.kind == "store" || y.kind == "copy") && y.goid == 0 {
						a := y.addr
						if y.kind == "copy" {
							a = y.args[0]
						}
						if y.kind == "store" && (y.val.isFalse() || isZeroV(y.val)) {
							continue
						}
						if a != nil && made.op != "alloc" && anyNode(a, func(n V) bool { return n == made }) {
							dirty = true
						}
					}
				}
				r.check(!dirty, "new buffers", fnLabel(g), p.rel(x.pos), "a new slice of the pool is written to before it is handed out")
			}
			if n == 0 {
				r.undecided("new buffers", fnLabel(g), pos, "no result found")
			}
		})
	}
	// every structure with a pool gets a New
	for _, f := range fns {
		f := f
		instrs(f, func(in ssa.Instruction) {
			a, ok := in.(*ssa.Alloc)
			if !ok {
				return
			}
			t := types.Unalias(a.Type().Underlying().(*types.Pointer).Elem())
			s, ok := t.Underlying().(*types.Struct)
			if !ok || news[t] == 0 {
				return
			}
			has := false
			for i := 0; i < s.NumFields(); i++ {
				has = has || isPool(s.Field(i).Type())
			}
			if !has && !isPool(t) {
				return
			}
			// installed in this function, or in one that is given the object
			done := false
			seen := map[ssa.Value]bool{}
			var in2 func(v ssa.Value, d int)
			in2 = func(v ssa.Value, d int) {
				if d > 6 || seen[v] || v.Referrers() == nil {
					return
				}
				seen[v] = true
				for _, ref := range *v.Referrers() {
					switch x := ref.(type) {
					case *ssa.FieldAddr:
						in2(x, d)
						for _, u := range *x.Referrers() {
							if st, ok := u.(*ssa.Store); ok && st.Addr == x && fieldNameOf(x.X.Type(), x.Field) == "New" {
								done = true
							}
						}
					case *ssa.Store:
						if x.Val == v {
							// kept in a variable or a field: any read of the same place
							if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
								instrs(x.Parent(), func(in ssa.Instruction) {
									if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
										if fb, ok := u.X.(*ssa.FieldAddr); ok && fb.X == fa.X && fb.Field == fa.Field {
											in2(u, d+1)
										}
									}
								})
							} else if x.Addr.Referrers() != nil {
								for _, u := range *x.Addr.Referrers() {
									if u, ok := u.(*ssa.UnOp); ok {
										in2(u, d+1)
									}
								}
							}
						}
					case ssa.CallInstruction:
						t := x.Common().StaticCallee()
						if t == nil {
							continue
						}
						for i, a := range x.Common().Args {
							if a == v && i < len(t.Params) {
								in2(t.Params[i], d+1)
							}
						}
					case *ssa.Return:
						for _, g := range fns {
							instrs(g, func(in ssa.Instruction) {
								if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == x.Parent() {
									in2(c, d+1)
								}
							})
						}
					case *ssa.Phi:
						in2(x, d)
					case *ssa.UnOp:
						in2(x, d+1)
					}
				}
			}
			in2(a, 0)
			r.check(done, "pool object", fnLabel(f), p.rel(a.Pos()), "a %s is made without a function that makes the buffers of its pool", t)
		})
	}
}

func isZeroV(v V) bool {
	k, ok := v.intConst()
	return ok && k == 0
}

// poolClean: everything put into a pool has been cleared completely, or
// everything taken out is cleared.
func poolClean(p *Program, r *Report, fns []*ssa.Function) {
	callers := map[*ssa.Function][]*ssa.Function{}
	var puts, gets []*ssa.Function
	for _, f := range fns {
		f := f
		pu, ge := false, false
		instrs(f, func(in ssa.Instruction) {
			pu = pu || isPoolCall(in, "Put")
			ge = ge || isPoolCall(in, "Get")
			if c, ok := in.(ssa.CallInstruction); ok {
				if t := c.Common().StaticCallee(); t != nil {
					callers[t] = append(callers[t], f)
				}
			}
		})
		if pu {
			puts = append(puts, f)
		}
		if ge {
			gets = append(gets, f)
		}
	}
	check := func(f *ssa.Function, put bool, out *[]Finding, nok, nund *int) bool {
		e := newVEval(p)
		var args []V
		for i, q := range f.Params {
			args = append(args, e.param(q.Name(), i, q.Type()))
		}
		e.Run(f, args)
		all := true
		for _, x := range e.effs {
			if x.kind != "call" || x.name != "(*sync.Pool).Put" && put || x.name != "(*sync.Pool).Get" && !put {
				continue
			}
			var v V
			if put {
				v = x.args[1]
				if v.op == "iface" {
					v = v.args[0]
				}
			} else {
				v = x.res
			}
			if v == nil {
				all = false
				continue
			}
			ok, why, und := e.cleared(x, v, put)
			switch {
			case ok:
				*nok++
			case und:
				*nund++
			default:
				all = false
				*out = append(*out, Finding{Where: fnLabel(f), Pos: p.rel(x.pos), Msg: why})
			}
		}
		return all
	}
	var bad []Finding
	nok, nund := 0, 0
	okPut := true
	var at func(f *ssa.Function, d int) bool
	at = func(f *ssa.Function, d int) bool {
		var b []Finding
		if check(f, true, &b, &nok, &nund) {
			return true
		}
		if d < 2 && len(callers[f]) > 0 && f.Object() != nil && !f.Object().Exported() {
			k := true
			for _, c := range callers[f] {
				if !at(c, d+1) {
					k = false
				}
			}
			if k {
				return true
			}
		}
		bad = append(bad, b...)
		return false
	}
	for _, f := range puts {
		r.fn(fnLabel(f))
		if !at(f, 0) {
			okPut = false
		}
	}
	if okPut {
		r.okN("cleared", nok)
		if nund > 0 {
			r.undecided("cleared", "", "", "%d places where a buffer is cleared in a way that is not understood", nund)
		}
		return
	}
	okGet, n2 := true, 0
	var b2 []Finding
	for _, f := range gets {
		if !check(f, false, &b2, &n2, &nund) {
			okGet = false
		}
	}
	if okGet && n2 > 0 {
		r.okN("cleared", n2)
		return
	}
	for _, f := range bad {
		r.bad("cleared", f.Where, f.Pos, "%s", f.Msg)
	}
}

// cleared reports whether all of slice v is zero at x (or after it).
func (e *VEval) cleared(x *VEff, v V, before bool) (ok bool, why string, und bool) {
	about := func(s V) bool {
		if s == v {
			return true
		}
		if before {
			return anyNode(s, func(n V) bool { return n == v })
		}
		// the result of Get, asserted
		return (s.op == "as" || s.op == "ext" || s.op == "field" || s.op == "deref") && anyNode(s, func(n V) bool { return n == v })
	}
	within := func(y *VEff) bool {
		in := conjuncts(x.guard)
		for _, c := range conjuncts(y.guard) {
			hit := false
			for _, d := range in {
				hit = hit || c == d
			}
			for _, l := range y.loops {
				if l.cont == c || l.head == c || l.back == c {
					hit = true
				}
				for _, k := range append(conjuncts(l.cont), conjuncts(l.head)...) {
					hit = hit || k == c
				}
				hit = hit || l.iter != nil && anyNode(c, func(n V) bool { return n == l.iter })
			}
			if !hit {
				return false
			}
		}
		return true
	}
	why = "a buffer is given back to the pool without being cleared"
	type key struct {
		l *VLoop
		s V
		c int64
	}
	offs := map[key]map[int64]bool{}
	clean := false
	for _, y := range e.effs {
		if y.goid != x.goid || y == x {
			continue
		}
		if before && y.seq >= x.seq || !before && y.seq <= x.seq {
			continue
		}
		switch y.kind {
		case "clear":
			if about(y.args[0]) && within(y) && len(y.loops) == len(x.loops) {
				s := y.args[0]
				if s == v || s.op != "slice" {
					clean = true
				} else {
					why = "only a part of the buffer is cleared"
				}
			}
		case "copy":
			if about(y.args[0]) {
				und, clean = true, false
			}
		case "store":
			if y.addr == nil || y.addr.op != "elem" {
				continue
			}
			s, i := y.addr.args[0], y.addr.args[1]
			if !about(s) {
				continue
			}
			if !isZeroV(y.val) {
				clean, why = false, "the buffer is written to after it is cleared"
				offs = map[key]map[int64]bool{}
				continue
			}
			if len(y.loops) != len(x.loops)+1 {
				und = und || len(y.loops) > len(x.loops)+1
				continue
			}
			l := y.loops[len(y.loops)-1]
			if !within(y) {
				why = "the buffer is cleared only under a condition"
				continue
			}
			cv, k0, lin := e.coefOf(i, l.iter)
			if !lin {
				und = true
				continue
			}
			c, isC := cv.intConst()
			if !isC || c <= 0 {
				und = true
				continue
			}
			k, isK := k0.intConst()
			if !isK {
				und = true
				continue
			}
			kk := key{l, s, c}
			if offs[kk] == nil {
				offs[kk] = map[int64]bool{}
			}
			offs[kk][k] = true
			if int64(len(offs[kk])) < c {
				why = fmt.Sprintf("only some of every %d bytes of the buffer are cleared", c)
				continue
			}
			full := true
			for j := int64(0); j < c; j++ {
				full = full && offs[kk][j]
			}
			if !full {
				why = "the first bytes of the buffer are not cleared"
				continue
			}
			if !l.known {
				und = true
				continue
			}
			ln := e.sliceParts(s)[2]
			if c == 1 && l.trip != ln {
				d := e.sub(l.trip, ln, 64)
				if _, isC := d.intConst(); isC {
					why = "the buffer is not cleared to its end"
				} else {
					und = true
				}
				continue
			}
			clean = true
		}
	}
	if clean {
		return true, "", false
	}
	return false, why, und
}

// ---- typestate of the buffers

type pkind int

const (
	pNone pkind = iota
	pNil
	pObj  // a structure that carries a buffer: index into objs
	pTok  // a buffer
	pCell // a local variable holding one of these
	pFunc // a closure
	pPix  // address of the field of an object that holds the buffer
)

type pval struct {
	k pkind
	i int
	m *ssa.MakeClosure
}

type ptok struct {
	site string
	own  bool // taken from the pool by the code looked at
	rel  bool
	kept string
}

type pdefer struct {
	in   *ssa.Defer
	fn   pval
	args []pval
}

type pstate struct {
	env    map[ssa.Value]pval
	cells  map[int]pval
	objs   []int // object -> token (-1 none)
	toks   []ptok
	defers [][]pdefer
}

func (s *pstate) clone() *pstate {
	n := &pstate{env: make(map[ssa.Value]pval, len(s.env)), cells: make(map[int]pval, len(s.cells))}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.objs = append([]int(nil), s.objs...)
	n.toks = append([]ptok(nil), s.toks...)
	for _, d := range s.defers {
		n.defers = append(n.defers, append([]pdefer(nil), d...))
	}
	return n
}

func (s *pstate) key(f *ssa.Function, live map[ssa.Value]bool) string {
	var b strings.Builder
	var ks []string
	for v, x := range s.env {
		if x.k != pNone && v.Parent() == f {
			ks = append(ks, fmt.Sprintf("%s=%d.%d", v.Name(), x.k, x.i))
		}
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ","))
	var cs []string
	for i, x := range s.cells {
		cs = append(cs, fmt.Sprintf("%d=%d.%d", i, x.k, x.i))
	}
	sort.Strings(cs)
	b.WriteString("|" + strings.Join(cs, ","))
	fmt.Fprintf(&b, "|%v|", s.objs)
	for _, t := range s.toks {
		fmt.Fprintf(&b, "%v%v%s;", t.own, t.rel, t.kept)
	}
	for _, d := range s.defers {
		fmt.Fprintf(&b, "/%d", len(d))
		for _, x := range d {
			fmt.Fprintf(&b, ".%d", x.in.Pos())
		}
	}
	return b.String()
}

type poolFlow struct {
	p      *Program
	r      *Report
	inPool map[*ssa.Function]bool // functions that can touch buffers
	root   *ssa.Function
	stack  []*ssa.Function
	n      int
	over   bool
	done   map[string]bool
	sites  map[string]int
	cells  map[ssa.Value]int
}

// carrier structures: images of the standard library and structures of the
// repository that what comes out of a pool is put into
func carriesBytes(t types.Type) (int, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "image" && !poolCarriers[n] {
		return 0, false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return 0, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isByteSliceT(s.Field(i).Type()) {
			return i, true
		}
	}
	return 0, false
}

// isCarrier: pointers to image structures.
func isCarrier(t types.Type) bool {
	q, ok := types.Unalias(t).Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = carriesBytes(q.Elem())
	return ok
}

var poolCarriers = map[*types.Named]bool{}

func poolPaths(p *Program, r *Report, fns []*ssa.Function) {
	// functions through which a buffer can pass: those that take or give
	// one back and their callers
	touch := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range fns {
			if touch[f] {
				continue
			}
			f := f
			hit := false
			instrs(f, func(in ssa.Instruction) {
				if isPoolCall(in, "Get") || isPoolCall(in, "Put") {
					hit = true
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && touch[mc.Fn.(*ssa.Function)] {
					hit = true
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if t := c.Common().StaticCallee(); t != nil && touch[t] {
						hit = true
					}
				}
			})
			if hit {
				touch[f], ch = true, true
			}
		}
	}
	for _, f := range fns {
		takes := false
		instrs(f, func(in ssa.Instruction) { takes = takes || isPoolCall(in, "Get") })
		if !takes {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && isByteSliceT(st.Val.Type()) {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if n, ok := types.Unalias(fa.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Named); ok {
						poolCarriers[n] = true
					}
				}
			}
		})
	}
	inPkgFns := map[*ssa.Function]bool{}
	for _, f := range fns {
		inPkgFns[f] = true
	}
	for _, f := range fns {
		if !touch[f] || f.Parent() != nil {
			continue
		}
		q := &poolFlow{p: p, r: r, inPool: inPkgFns, root: f, done: map[string]bool{}, sites: map[string]int{}, cells: map[ssa.Value]int{}}
		st := &pstate{env: map[ssa.Value]pval{}, cells: map[int]pval{}}
		for _, a := range f.Params {
			if isCarrier(a.Type()) {
				st.toks = append(st.toks, ptok{site: a.Name()})
				st.objs = append(st.objs, len(st.toks)-1)
				st.env[a] = pval{k: pObj, i: len(st.objs) - 1}
			} else if isByteSliceT(a.Type()) {
				st.toks = append(st.toks, ptok{site: a.Name()})
				st.env[a] = pval{k: pTok, i: len(st.toks) - 1}
			}
		}
		r.fn(fnLabel(f))
		outs := q.run(f, st, 0)
		r.Analysed["states of "+fnLabel(f)] = q.n
		if q.over {
			r.undecided("given back once", fnLabel(f), p.rel(f.Pos()), "too many paths")
			continue
		}
		rec := callsItself(f)
		for _, o := range outs {
			for i, a := range f.Params {
				v := st.env[a]
				if v.k != pObj {
					continue
				}
				// a recursive call was taken to leave its argument alone
				if rec && (o.st.toks[st.objs[v.i]].rel || o.st.objs[v.i] != st.objs[v.i]) {
					r.bad("given back once", fnLabel(f), p.rel(f.Pos()), "the buffer of parameter %d, which belongs to the caller, is given back or exchanged", i)
				}
			}
		}
	}
}

func callsItself(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		hit := false
		instrs(g, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				h, ok := (*op).(*ssa.Function)
				if !ok || h.Blocks == nil {
					continue
				}
				if h == f {
					hit = true
				} else if !seen[h] && h.Pkg == f.Pkg {
					seen[h] = true
					hit = hit || walk(h)
				}
			}
		})
		return hit
	}
	return walk(f)
}

type pout struct {
	st  *pstate
	res []pval
}

func (q *poolFlow) pos(in ssa.Instruction) string { return q.p.rel(posOf(in)) }

func (q *poolFlow) once(rule, where, pos string, ok bool, format string, a ...any) {
	k := rule + where + pos
	if !ok {
		k += "!"
	}
	if q.done[k] {
		return
	}
	q.done[k] = true
	q.r.check(ok, rule, where, pos, format, a...)
}

// use of a value that carries a buffer
func (q *poolFlow) use(s *pstate, in ssa.Instruction, v pval) {
	t := -1
	switch v.k {
	case pObj:
		t = s.objs[v.i]
	case pTok:
		t = v.i
	}
	if t < 0 {
		return
	}
	q.once("use of a buffer", fnLabel(in.Parent()), q.pos(in), !s.toks[t].rel, "a buffer that was given back to the pool is used (it was taken by %s)", s.toks[t].site)
}

func (q *poolFlow) keep(s *pstate, in ssa.Instruction, v pval, how string) {
	t := -1
	switch v.k {
	case pObj:
		t = s.objs[v.i]
	case pTok:
		t = v.i
	}
	if t < 0 {
		return
	}
	q.use(s, in, v)
	s.toks[t].kept = how + " at " + q.pos(in)
}

func (q *poolFlow) put(s *pstate, in ssa.Instruction, v pval) {
	t := -1
	switch v.k {
	case pObj:
		t = s.objs[v.i]
	case pTok:
		t = v.i
	default:
		return
	}
	if t < 0 {
		return
	}
	where, pos := fnLabel(in.Parent()), q.pos(in)
	if len(q.stack) > 1 {
		where += " called by " + fnLabel(q.root)
	}
	q.once("given back once", where, pos, !s.toks[t].rel, "the buffer taken by %s is given back to the pool twice", s.toks[t].site)
	q.once("not kept", where, pos, s.toks[t].kept == "", "a buffer is given back to the pool although it was %s", s.toks[t].kept)
	s.toks[t].rel = true
}

func (q *poolFlow) run(f *ssa.Function, st *pstate, depth int) []pout {
	q.stack = append(q.stack, f)
	defer func() { q.stack = q.stack[:len(q.stack)-1] }()
	st = st.clone()
	st.defers = append(st.defers, nil)
	var outs []pout
	type item struct {
		b, from *ssa.BasicBlock
		s       *pstate
	}
	seen := map[string]bool{}
	oseen := map[string]bool{}
	work := []item{{f.Blocks[0], nil, st}}
	for len(work) > 0 && !q.over {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		s := it.s
		b := it.b
		// phis
		var pv []pval
		var ph []*ssa.Phi
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, e := range b.Preds {
				if e == it.from {
					pv, ph = append(pv, q.val(s, x.Edges[i])), append(ph, x)
					break
				}
			}
		}
		for i, x := range ph {
			q.set(s, x, pv[i])
		}
		k := fmt.Sprint(b.Index, " ", s.key(f, nil))
		if seen[k] {
			continue
		}
		seen[k] = true
		if q.n++; q.n > 200000 {
			q.over = true
			return nil
		}
		states := []*pstate{s}
		ended := false
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			var next []*pstate
			for _, s := range states {
				switch x := in.(type) {
				case *ssa.If:
					t := q.cond(s, x.Cond)
					for i, to := range b.Succs {
						if t >= 0 && t != 1-i {
							continue
						}
						work = append(work, item{to, b, q.refine(s.clone(), x.Cond, i == 0)})
					}
					ended = true
				case *ssa.Jump:
					work = append(work, item{b.Succs[0], b, s})
					ended = true
				case *ssa.Panic:
					ended = true
				case *ssa.Return:
					o := pout{st: s}
					for _, v := range x.Results {
						w := q.val(s, v)
						if w.k == pObj || w.k == pTok {
							q.use(s, x, w)
						}
						o.res = append(o.res, w)
					}
					s.defers = s.defers[:len(s.defers)-1]
					k := fmt.Sprint(o.res) + s.key(nil, nil)
					if !oseen[k] {
						oseen[k] = true
						outs = append(outs, o)
					}
					ended = true
				case *ssa.RunDefers:
					next = append(next, q.runDefers(s, depth)...)
				default:
					next = append(next, q.instr(s, in, depth)...)
				}
			}
			if ended {
				break
			}
			if len(next) == 0 {
				break
			}
			if len(next) > 1 {
				u := map[string]bool{}
				var nn []*pstate
				for _, s := range next {
					if k := s.key(f, nil); !u[k] {
						u[k] = true
						nn = append(nn, s)
					}
				}
				next = nn
			}
			states = next
		}
	}
	// values of the function are gone
	for i := range outs {
		for v := range outs[i].st.env {
			if v.Parent() == f {
				delete(outs[i].st.env, v)
			}
		}
	}
	return outs
}

func (q *poolFlow) set(s *pstate, v ssa.Value, x pval) {
	if x.k == pNone {
		delete(s.env, v)
	} else {
		s.env[v] = x
	}
}

func (q *poolFlow) val(s *pstate, v ssa.Value) pval {
	if c, ok := v.(*ssa.Const); ok && c.IsNil() {
		return pval{k: pNil}
	}
	return s.env[v]
}

// cond decides nil tests: 1 true, 0 false, -1 unknown.
func (q *poolFlow) cond(s *pstate, c ssa.Value) int {
	neg := false
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		neg, c = !neg, u.X
	}
	x, ok := c.(*ssa.BinOp)
	if !ok || x.Op != token.EQL && x.Op != token.NEQ {
		return -1
	}
	a, b := q.val(s, x.X), q.val(s, x.Y)
	if a.k == pNil {
		a, b = b, a
	}
	if b.k != pNil {
		return -1
	}
	r := -1
	switch a.k {
	case pNil:
		r = 1
	case pTok, pObj:
		if a.k == pObj && s.objs[a.i] >= 0 && !s.toks[s.objs[a.i]].own && q.param(a, s) {
			return -1
		}
		r = 0
	}
	if r >= 0 && (x.Op == token.NEQ) != neg {
		r = 1 - r
	}
	return r
}

func (q *poolFlow) param(a pval, s *pstate) bool {
	for _, v := range q.root.Params {
		if s.env[v] == a {
			return true
		}
	}
	return false
}

func (q *poolFlow) refine(s *pstate, c ssa.Value, t bool) *pstate {
	x, ok := c.(*ssa.BinOp)
	if !ok || x.Op != token.EQL && x.Op != token.NEQ {
		return s
	}
	for _, y := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
		if q.val(s, y[1]).k == pNil && (x.Op == token.EQL) == t {
			if v := q.val(s, y[0]); v.k == pObj {
				s.env[y[0]] = pval{k: pNil}
			}
		}
	}
	return s
}

func (q *poolFlow) newTok(s *pstate, site string) pval {
	s.toks = append(s.toks, ptok{site: site, own: true})
	return pval{k: pTok, i: len(s.toks) - 1}
}

// compact renumbers what is still reachable, so that loops end.
func (q *poolFlow) compact(s *pstate) {
	no, nt := map[int]int{}, map[int]int{}
	var objs []int
	var toks []ptok
	tok := func(i int) int {
		if i < 0 {
			return i
		}
		if j, ok := nt[i]; ok {
			return j
		}
		nt[i] = len(toks)
		toks = append(toks, s.toks[i])
		return nt[i]
	}
	obj := func(i int) int {
		if j, ok := no[i]; ok {
			return j
		}
		no[i] = len(objs)
		objs = append(objs, -1)
		t := tok(s.objs[i])
		objs[no[i]] = t
		return no[i]
	}
	mv := func(v pval) pval {
		switch v.k {
		case pObj, pPix:
			v.i = obj(v.i)
		case pTok:
			v.i = tok(v.i)
		}
		return v
	}
	for i := range q.root.Params {
		if v, ok := s.env[q.root.Params[i]]; ok {
			s.env[q.root.Params[i]] = mv(v)
		}
	}
	isP := map[ssa.Value]bool{}
	for _, a := range q.root.Params {
		isP[a] = true
	}
	var vs []ssa.Value
	for v := range s.env {
		if !isP[v] {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool {
		a, b := vs[i], vs[j]
		if a.Parent() != b.Parent() {
			return a.Parent().String() < b.Parent().String()
		}
		return a.Name() < b.Name()
	})
	for _, v := range vs {
		s.env[v] = mv(s.env[v])
	}
	var cs []int
	for c := range s.cells {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	for _, c := range cs {
		s.cells[c] = mv(s.cells[c])
	}
	for _, d := range s.defers {
		for i := range d {
			d[i].fn = mv(d[i].fn)
			args := append([]pval(nil), d[i].args...)
			for j := range args {
				args[j] = mv(args[j])
			}
			d[i].args = args
		}
	}
	s.objs, s.toks = objs, toks
}

func (q *poolFlow) cell(v ssa.Value) int {
	if i, ok := q.cells[v]; ok {
		return i
	}
	q.cells[v] = len(q.cells)
	return q.cells[v]
}

func (q *poolFlow) runDefers(s *pstate, depth int) []*pstate {
	top := len(s.defers) - 1
	list := s.defers[top]
	s.defers[top] = nil
	states := []*pstate{s}
	for i := len(list) - 1; i >= 0; i-- {
		d := list[i]
		var next []*pstate
		for _, s := range states {
			next = append(next, q.call(s, d.in, d.fn, d.args, nil, depth)...)
		}
		states = next
	}
	return states
}

func (q *poolFlow) instr(s *pstate, in ssa.Instruction, depth int) []*pstate {
	one := []*pstate{s}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if _, ok := carriesBytes(t); ok {
			s.objs = append(s.objs, -1)
			s.env[x] = pval{k: pObj, i: len(s.objs) - 1}
		} else if isCarrier(t) || isByteSliceT(t) || types.IsInterface(t) {
			c := q.cell(x)
			s.cells[c] = pval{k: pNil}
			s.env[x] = pval{k: pCell, i: c}
		}
	case *ssa.FieldAddr:
		v := q.val(s, x.X)
		if v.k == pNil {
			return nil // panics
		}
		if v.k == pObj {
			t := x.X.Type().Underlying().(*types.Pointer).Elem()
			if i, ok := carriesBytes(t); ok && i == x.Field {
				s.env[x] = pval{k: pPix, i: v.i}
				return one
			}
		}
		q.set(s, x, pval{})
	case *ssa.Field:
		v := q.val(s, x.X)
		if v.k == pTok && isByteSliceT(x.Type()) {
			s.env[x] = v
		} else {
			q.set(s, x, pval{})
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			q.set(s, x, pval{})
			break
		}
		v := q.val(s, x.X)
		switch v.k {
		case pCell:
			q.set(s, x, s.cells[v.i])
		case pPix:
			if t := s.objs[v.i]; t >= 0 {
				s.env[x] = pval{k: pTok, i: t}
			} else {
				s.env[x] = pval{}
				delete(s.env, x)
			}
		case pObj: // a copy of the structure
			if t := s.objs[v.i]; t >= 0 {
				s.env[x] = pval{k: pTok, i: t}
			} else {
				delete(s.env, x)
			}
		default:
			q.set(s, x, pval{})
		}
	case *ssa.Store:
		a, v := q.val(s, x.Addr), q.val(s, x.Val)
		switch a.k {
		case pCell:
			s.cells[a.i] = v
		case pPix, pObj:
			switch v.k {
			case pTok:
				s.objs[a.i] = v.i
			case pObj:
				q.keep(s, x, v, "stored")
			default:
				if a.k == pPix || isStructT(x.Val.Type()) {
					s.objs[a.i] = -1
				}
			}
			if t := s.objs[a.i]; a.k == pPix && t >= 0 && q.param(pval{k: pObj, i: a.i}, s) && s.toks[t].own {
				// the caller's image now carries it
				s.toks[t].kept = "put into an image of the caller at " + q.pos(x)
			}
		default:
			if v.k == pObj || v.k == pTok {
				if localArray(x.Addr) {
					q.use(s, x, v)
				} else {
					q.keep(s, x, v, "stored")
				}
			}
		}
	case *ssa.IndexAddr:
		q.use(s, x, q.val(s, x.X))
	case *ssa.Index, *ssa.Range:
		for _, op := range in.Operands(nil) {
			q.use(s, in, q.val(s, *op))
		}
	case *ssa.Slice:
		q.set(s, x, q.val(s, x.X))
	case *ssa.MakeInterface:
		q.set(s, x, q.val(s, x.X))
	case *ssa.ChangeInterface:
		q.set(s, x, q.val(s, x.X))
	case *ssa.ChangeType:
		q.set(s, x, q.val(s, x.X))
	case *ssa.TypeAssert:
		q.set(s, x, q.val(s, x.X))
	case *ssa.Extract:
		v := q.val(s, x.Tuple)
		if (v.k == pTok || v.k == pObj) && x.Index > 0 {
			v = pval{}
		}
		q.set(s, x, v)
	case *ssa.MapUpdate:
		q.keep(s, x, q.val(s, x.Value), "stored in a map")
	case *ssa.Send:
		q.keep(s, x, q.val(s, x.X), "sent to another goroutine")
	case *ssa.Go:
		for _, a := range x.Call.Args {
			q.keep(s, x, q.val(s, a), "handed to another goroutine")
		}
		if m, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			for _, b := range m.Bindings {
				v := q.val(s, b)
				if v.k == pCell {
					v = s.cells[v.i]
				}
				q.keep(s, x, v, "handed to another goroutine")
			}
		}
	case *ssa.MakeClosure:
		s.env[x] = pval{k: pFunc, m: x}
		// bindings are looked up when it is called: cells by identity,
		// values now
	case *ssa.Defer:
		d := pdefer{in: x, fn: q.val(s, x.Call.Value)}
		for _, a := range x.Call.Args {
			d.args = append(d.args, q.val(s, a))
		}
		s.defers[len(s.defers)-1] = append(s.defers[len(s.defers)-1], d)
	case *ssa.Call:
		var args []pval
		for _, a := range x.Call.Args {
			args = append(args, q.val(s, a))
		}
		return q.call(s, x, q.val(s, x.Call.Value), args, x, depth)
	default:
		if v, ok := in.(ssa.Value); ok {
			q.set(s, v, pval{})
		}
	}
	return one
}

func isStructT(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

// localArray: the array of variadic arguments.
func localArray(a ssa.Value) bool {
	ia, ok := a.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	_, ok = ia.X.(*ssa.Alloc)
	return ok
}

func (q *poolFlow) call(s *pstate, in ssa.CallInstruction, fn pval, args []pval, res *ssa.Call, depth int) []*pstate {
	c := in.Common()
	one := []*pstate{s}
	if res != nil {
		delete(s.env, res)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
		case "append":
			for _, a := range args {
				q.use(s, in, a)
			}
			if res != nil && len(args) > 0 {
				q.set(s, res, args[0])
			}
		case "ssa:wrapnilchk":
			if res != nil {
				q.set(s, res, args[0])
			}
		default:
			for _, a := range args {
				q.use(s, in, a)
			}
		}
		return one
	}
	t := c.StaticCallee()
	var mc *ssa.MakeClosure
	if fn.k == pFunc {
		mc = fn.m
		t = mc.Fn.(*ssa.Function)
	}
	if t != nil && t.String() == "(*sync.Pool).Get" {
		q.compact(s)
		v := q.newTok(s, fnLabel(in.Parent())+" "+q.pos(in))
		q.once("taken", fnLabel(in.Parent())+" in "+fnLabel(q.root), q.pos(in), true, "")
		if res != nil {
			s.env[res] = v
		}
		return one
	}
	if t != nil && t.String() == "(*sync.Pool).Put" {
		if len(args) > 1 {
			q.put(s, in, args[1])
		}
		return one
	}
	carries := mc != nil
	for _, a := range args {
		carries = carries || a.k == pObj || a.k == pTok || a.k == pCell
	}
	inline := t != nil && t.Blocks != nil && q.inPool[t]
	for _, g := range q.stack {
		if g == t {
			inline = false
		}
	}
	if inline && depth < 8 {
		n := s
		// a call that neither takes nor is given buffers cannot matter
		if !carries && !q.returnsBuffer(t) {
			return one
		}
		for i, a := range t.Params {
			if i < len(args) {
				q.set(n, a, args[i])
			}
		}
		if mc != nil {
			for i, fv := range t.FreeVars {
				q.set(n, fv, q.val(s, mc.Bindings[i]))
			}
		}
		outs := q.run(t, n, depth+1)
		var r []*pstate
		for _, o := range outs {
			if res != nil && len(o.res) > 0 {
				w := o.res[0]
				q.set(o.st, res, w)
			}
			r = append(r, o.st)
		}
		return r
	}
	// unknown code: uses its arguments
	var alias pval
	for _, a := range args {
		q.use(s, in, a)
		if a.k == pObj || a.k == pTok {
			alias = a
		}
	}
	if res != nil && alias.k != pNone && t != nil && !q.inPool[t] && sharesMemory(t, alias) {
		s.env[res] = alias
	}
	return one
}

// sharesMemory: results of SubImage and the like.
func sharesMemory(t *ssa.Function, v pval) bool {
	res := t.Signature.Results()
	if res.Len() == 0 || t.Signature.Recv() == nil {
		return false
	}
	switch u := types.Unalias(res.At(0).Type()).Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Interface:
		return strings.Contains(res.At(0).Type().String(), "image.Image") || u.NumMethods() > 1
	case *types.Slice:
		return true
	}
	return false
}

// returnsBuffer: f can return a buffer or image.
func (q *poolFlow) returnsBuffer(f *ssa.Function) bool {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if isCarrier(t) || isByteSliceT(t) || types.IsInterface(t) {
			return true
		}
		if _, ok := carriesBytes(t); ok {
			return true
		}
	}
	return false
}
