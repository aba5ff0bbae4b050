package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: decoded layer pixels are never modified by rendering.

func init() {
	checks["C24"] = Check{
		run:   runC24,
		level: "other",
		expl:  "Interprocedural dataflow (function summaries over SSA): the tile maps of layerImage values, the tiles found in them and the memory of those tiles are followed through lookups, ranges, conversions, variables, fields, calls and results. None of them may reach a place that changes it: the destination of a drawing call, a setter, a store through its pixels, copy, clear, append, a map update or delete. The map of layer images of a tree may be updated only on a tree whose map was made anew in the same operation.",
		assum: []string{"outside the package a function changes only the parameters it calls dst or dest, receivers of Set methods and builtin destinations", "tiles under construction belong to the functions that build them until they are found through a layerImage"},
	}
}

type lbl uint64

const (
	lSrc  lbl = 1       // part of the document
	lElem lbl = 1 << 62 // a map with tiles of the document in it
	lOwn      = lSrc | lElem
)

type pixFlow struct {
	p    *Program
	r    *Report
	pkg  *types.Package
	fns  []*ssa.Function
	val  map[*ssa.Function]map[ssa.Value]lbl
	ret  map[*ssa.Function][]lbl
	mut  map[*ssa.Function]lbl            // parameters it changes
	muts map[*ssa.Function]map[int]string // where
	put  map[*ssa.Function]map[[2]int]lbl // labels of parameters that reach field (struct index, field)
	fld  map[*types.Var]lbl
	fput map[*ssa.Function]map[*types.Var]lbl
	ch   bool
	last bool
	seen map[string]bool
}

func (q *pixFlow) isLayerImage(t types.Type) bool {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == q.pkg && n.Obj().Name() == "layerImage"
}

// canShare: values of the type can refer to memory of others.
func canShare(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if canShare(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return canShare(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if canShare(u.At(i).Type()) {
				return true
			}
		}
		return false
	case *types.Signature:
		return false
	}
	return true
}

// isPixels: tiles, maps of tiles and memory of tiles.
func (q *pixFlow) isPixels(t types.Type) bool {
	t = types.Unalias(t)
	if q.isLayerImage(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Pointer:
		return q.isPixels(u.Elem())
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8 || q.isPixels(u.Elem())
	case *types.Map:
		return q.isPixels(u.Elem())
	case *types.Array:
		return q.isPixels(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if q.isPixels(u.At(i).Type()) {
				return true
			}
		}
		return false
	case *types.Struct:
		n, ok := t.(*types.Named)
		if ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "image" {
			_, c := carriesBytes(t)
			return c
		}
		for i := 0; i < u.NumFields(); i++ {
			if _, isM := types.Unalias(u.Field(i).Type()).Underlying().(*types.Map); isM && q.isPixels(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func structField(t types.Type, i int) *types.Var {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return s.Field(i)
}

func runC24(ctx *Ctx, r *Report) {
	p := ctx.prog("linux-amd64")
	rp := p.Pkgs["composite"]
	q := &pixFlow{p: p, r: r, pkg: rp.SSA.Pkg, fns: p.pkgFuncs("composite"),
		val: map[*ssa.Function]map[ssa.Value]lbl{}, ret: map[*ssa.Function][]lbl{}, mut: map[*ssa.Function]lbl{},
		muts: map[*ssa.Function]map[int]string{}, fld: map[*types.Var]lbl{}, fput: map[*ssa.Function]map[*types.Var]lbl{}, seen: map[string]bool{}}
	for _, f := range q.fns {
		q.val[f] = map[ssa.Value]lbl{}
		q.muts[f] = map[int]string{}
		q.fput[f] = map[*types.Var]lbl{}
		for i, a := range f.Params {
			if q.isPixels(a.Type()) {
				q.val[f][a] = bit(i)
			}
		}
		for i, a := range f.FreeVars {
			q.val[f][a] = bit(len(f.Params) + i)
		}
	}
	for n := 0; n < 40; n++ {
		q.ch = false
		for _, f := range q.fns {
			q.function(f)
		}
		if !q.ch {
			break
		}
	}
	q.last = true
	for _, f := range q.fns {
		q.function(f)
		for _, l := range q.val[f] {
			if l&lSrc != 0 {
				r.fn(fnLabel(f))
			}
		}
	}
	q.treeMaps()
	r.atLeast("tile source", 5)
	r.atLeast("drawing destination", 8)
	r.atLeast("layer image map", 1)
}

func bit(i int) lbl {
	if i > 59 {
		i = 59
	}
	return 1 << uint(i+1)
}

func (q *pixFlow) add(f *ssa.Function, v ssa.Value, l lbl) {
	if l == 0 || !canShare(v.Type()) {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if l&lElem != 0 {
		// no longer the map
		switch u := types.Unalias(v.Type()).Underlying().(type) {
		case *types.Interface:
			l = found(l)
		case *types.Pointer:
			if _, ok := carriesBytes(u.Elem()); ok {
				l = found(l)
			}
		case *types.Slice:
			l = found(l)
		}
	}
	if o := q.val[f][v]; o|l != o {
		q.val[f][v] = o | l
		q.ch = true
	}
}

func (q *pixFlow) get(f *ssa.Function, v ssa.Value) lbl { return q.val[f][v] }

// sink: v is changed here.
func (q *pixFlow) sink(f *ssa.Function, in ssa.Instruction, v ssa.Value, rule, how string) {
	l := q.get(f, v)
	if q.last {
		k := rule + q.p.rel(posOf(in)) + how
		if q.seen[k] {
			return
		}
		q.seen[k] = true
		q.r.check(l&lSrc == 0, rule, fnLabel(f), q.p.rel(posOf(in)), "pixels of the document are changed: %s", how)
		return
	}
	if l &^= lOwn; l != 0 {
		if q.mut[f]|l != q.mut[f] {
			q.mut[f] |= l
			q.ch = true
		}
	}
}

func (q *pixFlow) function(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			q.instr(f, in)
		}
	}
}

func (q *pixFlow) fieldLoad(f *ssa.Function, dst ssa.Value, base ssa.Value, i int) {
	fv := structField(base.Type(), i)
	if fv == nil {
		return
	}
	if q.isLayerImage(base.Type()) {
		q.add(f, dst, lSrc)
		if q.last {
			q.r.ok("tile source")
		}
		return
	}
	q.add(f, dst, q.fld[fv])
	if q.isPixels(base.Type()) {
		q.add(f, dst, q.get(f, base))
	}
}

func (q *pixFlow) instr(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			q.add(f, x, q.get(f, e))
		}
	case *ssa.ChangeType:
		q.add(f, x, q.get(f, x.X))
	case *ssa.Convert:
		q.add(f, x, q.get(f, x.X))
	case *ssa.ChangeInterface:
		q.add(f, x, q.get(f, x.X))
	case *ssa.MakeInterface:
		q.add(f, x, q.get(f, x.X))
	case *ssa.TypeAssert:
		q.add(f, x, q.get(f, x.X))
	case *ssa.Extract:
		q.add(f, x, q.get(f, x.Tuple))
	case *ssa.Slice:
		q.add(f, x, q.get(f, x.X))
	case *ssa.Lookup:
		q.add(f, x, found(q.get(f, x.X)))
	case *ssa.Range:
		q.add(f, x, q.get(f, x.X))
	case *ssa.Next:
		q.add(f, x, found(q.get(f, x.Iter)))
	case *ssa.Index:
		q.add(f, x, q.get(f, x.X))
	case *ssa.IndexAddr:
		q.add(f, x, q.get(f, x.X))
	case *ssa.Field:
		q.fieldLoad(f, x, x.X, x.Field)
	case *ssa.FieldAddr:
		// the address stands for what is stored there
		q.fieldLoad(f, x, x.X, x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL || x.Op == token.ARROW {
			q.add(f, x, q.get(f, x.X))
		}
	case *ssa.Store:
		q.store(f, x)
	case *ssa.MapUpdate:
		if q.isPixels(x.Map.Type()) && !q.isLayerImage(elemT(x.Map.Type())) {
			q.sink(f, x, x.Map, "map of tiles", "a tile is put into the map")
		}
		if q.isPixels(x.Value.Type()) {
			l := q.get(f, x.Value)
			if l&lSrc != 0 {
				l = l&^lSrc | lElem
			}
			q.flowInto(f, x.Map, l)
		}
	case *ssa.Send:
		q.add(f, x.Chan, q.get(f, x.X))
	case *ssa.Return:
		if q.ret[f] == nil {
			q.ret[f] = make([]lbl, len(x.Results))
		}
		for i, v := range x.Results {
			if l := q.get(f, v); q.ret[f][i]|l != q.ret[f][i] {
				q.ret[f][i] |= l
				q.ch = true
			}
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			j := bit(len(g.Params) + i)
			l := q.get(f, b)
			if q.mut[g]&j != 0 && l != 0 {
				q.sink(f, x, b, "captured", "a function literal changes a tile it captured")
			}
			// what the literal stores into captured variables
			q.apply(f, g, b, j, nil, x.Bindings)
		}
	case ssa.CallInstruction:
		q.call(f, x)
	}
}

// found: what is looked up in a map
func found(l lbl) lbl {
	if l&lElem != 0 {
		l |= lSrc
	}
	return l &^ lElem
}

func elemT(t types.Type) types.Type {
	if m, ok := types.Unalias(t).Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return t
}

// flowInto: something with label l is stored inside the object v.
func (q *pixFlow) flowInto(f *ssa.Function, v ssa.Value, l lbl) {
	if l == 0 {
		return
	}
	for d := 0; d < 8; d++ {
		q.add(f, v, l)
		switch x := v.(type) {
		case *ssa.FieldAddr:
			q.intoField(f, x.X, x.Field, l)
			if _, ok := x.X.(*ssa.Alloc); !ok && !q.isPixels(x.X.Type()) {
				return
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return
		}
	}
}

func (q *pixFlow) intoField(f *ssa.Function, base ssa.Value, i int, l lbl) {
	fv := structField(base.Type(), i)
	if fv == nil || q.isLayerImage(base.Type()) || fv.Pkg() != q.pkg {
		return
	}
	if _, ok := types.Unalias(fv.Type()).Underlying().(*types.Struct); ok {
		return
	}
	if q.fld[fv]|l&lOwn != q.fld[fv] {
		q.fld[fv] |= l & lOwn
		q.ch = true
	}
	if k := l &^ lOwn; k != 0 && q.fput[f][fv]|k != q.fput[f][fv] {
		q.fput[f][fv] |= k
		q.ch = true
	}
}

func (q *pixFlow) store(f *ssa.Function, x *ssa.Store) {
	if q.isPixels(x.Val.Type()) {
		q.flowInto(f, x.Addr, q.get(f, x.Val))
	}
	switch a := x.Addr.(type) {
	case *ssa.IndexAddr:
		if b, ok := x.Val.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			q.sink(f, x, a.X, "pixel store", "a pixel is stored")
		}
	case *ssa.FieldAddr:
		t := types.Unalias(a.X.Type().Underlying().(*types.Pointer).Elem())
		if _, ok := carriesBytes(t); ok && !localObj(a.X) {
			q.sink(f, x, a.X, "tile header", "a field of a tile is changed")
		}
	default:
		t := x.Val.Type()
		if _, ok := carriesBytes(t); ok && !localObj(x.Addr) {
			q.sink(f, x, x.Addr, "tile header", "a tile is overwritten")
		}
	}
}

// localObj: a structure of this function
func localObj(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

// apply passes what a callee does with argument a (bit j) on to the caller.
func (q *pixFlow) apply(f, g *ssa.Function, a ssa.Value, j lbl, res ssa.Value, all []ssa.Value) {
	l := q.get(f, a)
	for fv, m := range q.fput[g] {
		if m&j != 0 && l != 0 {
			if q.fld[fv]|l&lOwn != q.fld[fv] {
				q.fld[fv] |= l & lOwn
				q.ch = true
			}
			if k := l &^ lOwn; k != 0 && q.fput[f][fv]|k != q.fput[f][fv] {
				q.fput[f][fv] |= k
				q.ch = true
			}
		}
	}
}

// changesParam tells what a function outside the package changes.
func changesParam(sig *types.Signature, i int) bool {
	if i >= sig.Params().Len() {
		return false
	}
	v := sig.Params().At(i)
	switch strings.ToLower(v.Name()) {
	case "dst", "dest", "d":
		return true
	case "src", "s", "mask", "sp", "r":
		return false
	}
	t := types.Unalias(v.Type())
	if n, ok := t.(*types.Named); ok && strings.HasSuffix(n.String(), "draw.Image") {
		// the first of several
		for k := 0; k < i; k++ {
			if types.Identical(sig.Params().At(k).Type(), v.Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (q *pixFlow) call(f *ssa.Function, x ssa.CallInstruction) {
	c := x.Common()
	res, _ := x.(ssa.Value)
	if _, ok := x.(*ssa.Call); !ok {
		res = nil
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "clear":
			if isByteSliceT(c.Args[0].Type()) {
				q.sink(f, x, c.Args[0], "pixel store", b.Name()+" into the memory of a tile")
			} else if q.isPixels(c.Args[0].Type()) {
				q.sink(f, x, c.Args[0], "map of tiles", b.Name()+" of a collection of tiles")
			}
		case "append":
			if isByteSliceT(c.Args[0].Type()) {
				q.sink(f, x, c.Args[0], "pixel store", "append to the memory of a tile")
			}
			if res != nil {
				for _, a := range c.Args {
					if !isByteSliceT(a.Type()) || a == c.Args[0] {
						q.add(f, res, q.get(f, a))
					}
				}
			}
		case "delete":
			if q.isPixels(c.Args[0].Type()) && !q.isLayerImage(elemT(c.Args[0].Type())) {
				q.sink(f, x, c.Args[0], "map of tiles", "a tile is removed from the map")
			}
		case "ssa:wrapnilchk":
			if res != nil {
				q.add(f, res, q.get(f, c.Args[0]))
			}
		}
		return
	}
	g := c.StaticCallee()
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		g = mc.Fn.(*ssa.Function)
	}
	var targets []*ssa.Function
	if g != nil && q.val[g] != nil {
		targets = []*ssa.Function{g}
	} else if c.IsInvoke() {
		for _, m := range q.p.implementations(c.Method) {
			if q.val[m] != nil {
				targets = append(targets, m)
			}
		}
	} else if g == nil {
		// a function value: its literal, when it is one of the package
		for _, h := range q.fns {
			if h.Parent() != nil && types.Identical(h.Signature, c.Signature()) {
				targets = append(targets, h)
			}
		}
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	for _, g := range targets {
		for i, a := range args {
			if i >= len(g.Params) {
				break
			}
			if q.mut[g]&bit(i) != 0 {
				q.sink(f, x, a, "argument", "the call of "+g.Name()+" changes it")
			}
			q.apply(f, g, a, bit(i), res, nil)
			if res != nil {
				for _, l := range q.ret[g] {
					if l&bit(i) != 0 {
						q.add(f, res, q.get(f, a))
					}
				}
			}
		}
		if res != nil {
			for _, l := range q.ret[g] {
				if q.isPixels(res.Type()) {
					q.add(f, res, l&lOwn)
				}
			}
		}
	}
	if len(targets) > 0 && !c.IsInvoke() {
		return
	}
	// outside the package
	sig := c.Signature()
	name := ""
	off := 0
	if c.IsInvoke() {
		name = c.Method.Name()
		off = 1
	} else if g != nil {
		name = g.Name()
		if g.Signature.Recv() != nil {
			off = 1
		}
	}
	for i, a := range args {
		if i < off {
			if strings.HasPrefix(name, "Set") {
				q.sink(f, x, a, "setter", "the call of "+name+" changes it")
			}
			// parts of an image
			if res != nil && q.isPixels(res.Type()) && q.isPixels(a.Type()) {
				q.add(f, res, q.get(f, a))
			}
			continue
		}
		if changesParam(sig, i-off) {
			if q.isPixels(a.Type()) {
				q.sink(f, x, a, "drawing destination", "the call of "+name+" draws into it")
			}
		}
	}
}

// treeMaps: the map of layer images of a tree is shared between clones.
func (q *pixFlow) treeMaps() {
	isMap := func(t types.Type) bool {
		m, ok := types.Unalias(t).Underlying().(*types.Map)
		return ok && q.isLayerImage(m.Elem())
	}
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range q.fns {
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if t := c.Common().StaticCallee(); t != nil {
					callers[t] = append(callers[t], c)
				}
			}
		})
	}
	// resolve a value to what it was before conversions and single stores
	plain := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.UnOp:
				if s := onlyStore(x.X); x.Op == token.MUL && s != nil {
					v = s
					continue
				}
			}
			return v
		}
	}
	var freshMap func(v ssa.Value, at ssa.Instruction, d int) bool
	// freshField: field i of object o holds a map made in this operation
	var freshField func(o ssa.Value, i int, at ssa.Instruction, d int) bool
	freshField = func(o ssa.Value, i int, at ssa.Instruction, d int) bool {
		if d > 6 {
			return false
		}
		o = plain(o)
		f := at.Parent()
		found := false
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fa.Field != i || plain(fa.X) != o {
				return
			}
			if precedes(st, at) && freshMap(st.Val, st, d+1) {
				found = true
			}
		})
		if found {
			return true
		}
		lift := func(k int, pick func(c ssa.CallInstruction) ssa.Value, cs []ssa.CallInstruction) bool {
			if len(cs) == 0 {
				return false
			}
			for _, c := range cs {
				a := pick(c)
				if a == nil || !freshField(a, i, c, d+1) {
					return false
				}
			}
			return true
		}
		switch x := o.(type) {
		case *ssa.Parameter:
			for k, a := range f.Params {
				if a == x {
					return lift(k, func(c ssa.CallInstruction) ssa.Value {
						if k < len(c.Common().Args) {
							return c.Common().Args[k]
						}
						return nil
					}, callers[f])
				}
			}
		case *ssa.FreeVar:
			return freshFree(q, f, x, func(b ssa.Value, mc ssa.Instruction) bool { return freshField(b, i, mc, d+1) })
		case *ssa.UnOp:
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				return freshFree(q, f, fv, func(b ssa.Value, mc ssa.Instruction) bool {
					if s := onlyStore(b); s != nil {
						return freshField(s, i, mc, d+1)
					}
					return false
				})
			}
		}
		return false
	}
	freshMap = func(v ssa.Value, at ssa.Instruction, d int) bool {
		if d > 6 {
			return false
		}
		v = plain(v)
		f := at.Parent()
		switch x := v.(type) {
		case *ssa.MakeMap:
			return true
		case *ssa.Parameter:
			ok := len(callers[f]) > 0
			for k, a := range f.Params {
				if a != x {
					continue
				}
				for _, c := range callers[f] {
					ok = ok && k < len(c.Common().Args) && freshMap(c.Common().Args[k], c, d+1)
				}
			}
			return ok
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return freshField(fa.X, fa.Field, at, d+1)
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				return freshFree(q, f, fv, func(b ssa.Value, mc ssa.Instruction) bool {
					s := onlyStore(b)
					return s != nil && freshMap(s, mc, d+1)
				})
			}
		case *ssa.FreeVar:
			return freshFree(q, f, x, func(b ssa.Value, mc ssa.Instruction) bool { return freshMap(b, mc, d+1) })
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !freshMap(e, at, d+1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil || q.val[g] == nil {
				return false
			}
			ok := true
			instrs(g, func(in ssa.Instruction) {
				if rt, is := in.(*ssa.Return); is && len(rt.Results) > 0 {
					ok = ok && freshMap(rt.Results[0], rt, d+1)
				}
			})
			return ok
		}
		return false
	}
	for _, f := range q.fns {
		f := f
		instrs(f, func(in ssa.Instruction) {
			var m ssa.Value
			switch x := in.(type) {
			case *ssa.MapUpdate:
				m = x.Map
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
					m = x.Call.Args[0]
				}
			}
			if m == nil || !isMap(m.Type()) {
				return
			}
			q.r.check(freshMap(m, in, 0), "layer image map", fnLabel(f), q.p.rel(posOf(in)), "the map of layer images is changed, which other trees may share: it is not one that was made in this operation")
		})
	}
}

func freshFree(q *pixFlow, f *ssa.Function, fv *ssa.FreeVar, ok func(b ssa.Value, mc ssa.Instruction) bool) bool {
	n := 0
	good := true
	for i, v := range f.FreeVars {
		if v != fv || f.Parent() == nil {
			continue
		}
		instrs(f.Parent(), func(in ssa.Instruction) {
			if mc, is := in.(*ssa.MakeClosure); is && mc.Fn == f {
				n++
				good = good && ok(mc.Bindings[i], mc)
			}
		})
	}
	return n > 0 && good
}

// precedes: a is executed before b whenever b is.
func precedes(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return indexOf(a.Block(), a) < indexOf(b.Block(), b)
	}
	return a.Block().Dominates(b.Block())
}
