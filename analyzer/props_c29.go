package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C29"] = Check{run: runC29, level: "other",
		expl:  "Value numbering of every function that hands tile rows to workers and of the workers: first row and column are the tile size's floor multiple of the minimum of the rectangle whose maximum ends the range (the floor function is checked case by case, negative remainders included); inside a worker every tile key, every rectangle of a tile and every position passed on is a polynomial that equals a start coordinate plus a multiple of the same tile size, with x and y in place; the pixel loops that cut tiles address the sample of the same absolute position; functions that take a tile position hand exactly that position on.",
		assum: []string{"the tile size is positive", "coordinates plus the tile size fit an int"}}
}

// gridRun is one worker that visits the tiles of a rectangle.
type gridRun struct {
	p     *parting
	e     *VEval
	w     *work
	ts    V            // tile size, in terms of the launcher
	start map[V]string // start parameters of the worker by axis
	sub   map[V]V      // parameters of the worker: arguments of the launcher
}

func compositeOnly(p *Program, root *ssa.Function) map[*ssa.Function]bool {
	// helpers that do not lead into recursion
	memo := map[*ssa.Function]int{}
	var okf func(f *ssa.Function) bool
	okf = func(f *ssa.Function) bool {
		switch memo[f] {
		case 1:
			return false
		case 2:
			return true
		case 3:
			return false
		}
		memo[f] = 1
		res := true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if t := c.Common().StaticCallee(); t != nil && inPkg(t, "composite") && t.Blocks != nil {
					if !okf(t) {
						res = false
					}
				}
			}
		}
		if res {
			memo[f] = 2
		} else {
			memo[f] = 3
		}
		return res
	}
	out := map[*ssa.Function]bool{}
	for _, f := range p.repoFuncs() {
		if inPkg(f, "composite") && f != root && okf(f) {
			out[f] = true
		}
	}
	return out
}

func runC29(ctx *Ctx, r *Report) {
	ls, pf := launchers(ctx)
	p := ctx.prog("linux-amd64")
	for _, l := range ls {
		if !inPkg(l.fn, "composite") {
			continue
		}
		pt, why := l.partition()
		if pt == nil {
			// the number of workers is not understood: C06's finding, but
			// the grid is not decided either
			r.bad("grid start", fnLabel(l.fn), p.rel(l.fn.Pos()), "%s", why)
			continue
		}
		if len(pt.varying()) == 0 {
			continue
		}
		grid := false
		for _, i := range pt.varying() {
			if rr, c, _ := rectOf(pt.b[i]); rr != nil && c == "1" {
				grid = true
			}
			for _, v := range []V{pt.atK(pt.zero())[i], pt.b[i]} {
				if anyNode(v, func(n V) bool { rr, c, _ := rectOf(n); return rr != nil && (c == "0" || c == "1") && isRectV(l.e, rr) }) {
					grid = true
				}
			}
		}
		if !grid {
			continue
		}
		r.fn(fnLabel(l.fn))
		r.count("functions handing out tile rows", 1)
		sub := newReport("C29", r.Tier)
		pt.whole(sub, nil, nil)
		for _, f := range sub.Findings {
			r.bad("grid start", f.Where, f.Pos, "%s", f.Msg)
		}
		if len(sub.Findings) > 0 {
			continue
		}
		r.ok("grid start")
		g := &gridRun{p: pt, e: l.e}
		g.run(ctx, r, pf)
	}
	pointPlumbing(p, r)
	tileRects(ctx, r)
	r.atLeast("grid start", 5)
	r.atLeast("tile position", 5)
	r.atLeast("tile rectangle", 5)
	r.atLeast("tile content", 20)
	r.atLeast("position handed on", 20)
}

func isRectV(e *VEval, v V) bool {
	t := e.leafT[v]
	if t == nil {
		return false
	}
	return strings.HasSuffix(t.String(), "image.Rectangle")
}

func (g *gridRun) run(ctx *Ctx, r *Report, pf *parFacts) {
	e, p := g.e, g.p
	first := p.atK(p.zero())
	g.start, g.sub = map[V]string{}, map[V]V{}
	callee := p.at.callee
	if callee == nil {
		r.undecided("tile position", p.where(), e.p.rel(p.at.eff.pos), "the worker is not known")
		return
	}
	r.fn(fnLabel(callee))
	e.effs, e.reads, e.nloop, e.nsym, e.gos = nil, nil, 0, 0, 0
	w := &work{fn: callee, e: e}
	for i, pr := range callee.Params {
		w.args = append(w.args, e.param(fmt.Sprintf("g%d", i), i, pr.Type()))
	}
	okh := compositeOnly(e.p, callee)
	e.inline = func(f *ssa.Function, args []V) bool {
		if f.Parent() == callee {
			return true
		}
		return okh[f] && !pf.worker[f] && !pf.waits[f] && !pf.spawns[f] && f.Name() != "Done" || f.Synthetic != "" || f.Pkg != nil && f.Pkg.Pkg.Path() == "image"
	}
	e.Run(callee, w.args)
	e.inline = nil
	w.effs, e.effs = e.effs, nil
	g.w = w

	// captured values count as arguments of the worker
	for i, a := range w.args {
		if i < len(p.a) {
			g.sub[a] = p.b[i]
		}
	}
	for i, a := range w.args {
		if i >= len(first) {
			break
		}
		if m, ts, ok := e.tileFloor(first[i]); ok {
			if rr, c, ax := rectOf(m); rr != nil && c == "0" {
				g.start[a] = ax
				g.ts = ts
			}
		}
	}
	if len(g.start) != 2 || g.ts == nil {
		r.undecided("tile position", p.where(), e.p.rel(p.at.eff.pos), "the worker gets %d start coordinates", len(g.start))
		return
	}
	n := 0
	for _, x := range w.effs {
		var pts, rects []V
		switch x.kind {
		case "lookup", "mapset", "delete":
			if len(x.args) > 1 {
				pts = append(pts, x.args[1])
			}
		case "call", "go", "defer":
			for _, a := range x.args {
				if isPoint(a) {
					pts = append(pts, a)
				} else if isRectangle(a) {
					rects = append(rects, a)
				}
			}
		case "store":
			if isRectangle(x.val) {
				rects = append(rects, x.val)
			}
		}
		where := fnLabel(x.fn)
		pos := e.p.rel(x.pos)
		for _, v := range pts {
			if !isPoint(v) || !g.moving(v.args[0]) && !g.moving(v.args[1]) {
				continue
			}
			n++
			if why := g.aligned(v); why != "" {
				r.bad("tile position", where, pos, "the position (%s, %s) used here is not on the grid: %s", v.args[0].str(4), v.args[1].str(4), why)
			} else {
				r.ok("tile position")
			}
		}
		for _, v := range rects {
			lo, hi := v.args[0], v.args[1]
			if !g.moving(lo.args[0]) && !g.moving(lo.args[1]) {
				continue
			}
			n++
			if why := g.tile(v); why != "" {
				r.bad("tile rectangle", where, pos, "the rectangle from (%s, %s) to (%s, %s) is not the one of a tile: %s", lo.args[0].str(4), lo.args[1].str(4), hi.args[0].str(4), hi.args[1].str(4), why)
			} else {
				r.ok("tile rectangle")
			}
		}
	}
	if n == 0 {
		r.undecided("tile position", fnLabel(callee), e.p.rel(callee.Pos()), "no tile position was found in this worker")
	}
	if debugC29 {
		for _, x := range w.effs {
			if x.kind == "store" {
				fmt.Println(x.addr.str(3), x.val.str(5))
			}
		}
	}
	g.content(r)
}

func isPoint(v V) bool {
	return v != nil && v.op == "struct" && len(v.args) == 2 && v.args[0].op != "struct" && v.args[1].op != "struct"
}
func isRectangle(v V) bool {
	return v != nil && v.op == "struct" && len(v.args) == 2 && isPoint(v.args[0]) && isPoint(v.args[1])
}

// moving reports whether v is computed from an iteration of the worker.
func (g *gridRun) moving(v V) bool {
	switch v.op {
	case "iter", "phi", "final", "exitsel":
		return true
	case "poly":
		for _, t := range v.terms() {
			for _, x := range t.m {
				if g.moving(x) {
					return true
				}
			}
		}
	case "min", "max", "ite":
		for _, a := range v.args {
			if g.moving(a) {
				return true
			}
		}
	}
	return false
}

func (g *gridRun) up(v V) V {
	return g.e.rebuild(v, func(n V) V { return g.sub[n] })
}

// coord checks one coordinate.
func (g *gridRun) coord(v V, axis string) string {
	e := g.e
	for s, ax := range g.start {
		q, rest, ok := e.split(v, s)
		if !ok || q != e.int(1, 64) {
			continue
		}
		if ax != axis {
			return "x and y are exchanged"
		}
		if rest == e.int(0, 64) {
			return ""
		}
		// the rest must be a multiple of the tile size
		for _, t := range rest.terms() {
			found := false
			for _, x := range t.m {
				if g.isTS(x) {
					found = true
				}
			}
			if c := e.fromTerms([]vterm{{t.c, nil}}, 64); !found && len(t.m) == 0 && g.up(c) == g.ts {
				found = true
			}
			if !found {
				return "its distance from the first tile, " + rest.str(4) + ", is not a multiple of the tile size"
			}
		}
		return ""
	}
	return "it does not begin at a start coordinate given to the worker"
}

func (g *gridRun) isTS(x V) bool { return x == g.ts || g.up(x) == g.ts }

func (g *gridRun) aligned(v V) string {
	if why := g.coord(v.args[0], "0"); why != "" {
		return why
	}
	return g.coord(v.args[1], "1")
}

// tile checks that the rectangle is the one of a tile.
func (g *gridRun) tile(v V) string {
	e := g.e
	for ax := 0; ax < 2; ax++ {
		lo, hi := v.args[0].args[ax], v.args[1].args[ax]
		base, why := g.span(lo, hi)
		if why != "" {
			return why
		}
		if w := g.coord(base, fmt.Sprint(ax)); w != "" {
			return w
		}
	}
	_ = e
	return ""
}

// span returns the start of an interval of the tile size.
func (g *gridRun) span(lo, hi V) (V, string) {
	e := g.e
	if lo.op == "min" && hi.op == "max" && lo.args[0] == hi.args[0] && lo.args[1] == hi.args[1] {
		a, b := lo.args[0], lo.args[1]
		if g.isTS(e.sub(b, a, 64)) {
			return a, ""
		}
		if g.isTS(e.sub(a, b, 64)) {
			return b, ""
		}
		return nil, "it is " + e.sub(b, a, 64).str(4) + " wide, not the tile size"
	}
	if g.isTS(e.sub(hi, lo, 64)) {
		return lo, ""
	}
	return nil, "it is " + e.sub(hi, lo, 64).str(4) + " wide, not the tile size"
}

// canonMinMax writes minima and maxima as one kind of maximum.
func (e *VEval) canonMinMax(v V) V {
	memo := map[V]V{}
	zero := e.int(0, 64)
	var f func(v V) V
	f = func(v V) V {
		if x := memo[v]; x != nil {
			return x
		}
		x := e.rebuild(v, func(n V) V {
			if n.op != "min" && n.op != "max" || len(n.args) != 2 {
				return nil
			}
			a, b := f(n.args[0]), f(n.args[1])
			d := e.sub(a, b, 64)
			m := e.sub(b, a, 64)
			// pos(d) = max(0, d)
			pos := func(d, m V) V {
				if m.id < d.id {
					return e.add(e.mk("pos", "", m), d, 64)
				}
				if d == zero {
					return zero
				}
				return e.mk("pos", "", d)
			}
			if n.op == "max" {
				return e.add(b, pos(d, m), 64)
			}
			return e.sub(a, pos(d, m), 64)
		})
		memo[v] = x
		return x
	}
	return f(v)
}

// content checks that the pixel loops that cut tiles move each sample to its
// own position.
func (g *gridRun) content(r *Report) {
	e := g.e
	// the tile images stored in the maps
	type tileObj struct {
		key         V
		stride, buf V
	}
	var objs []*tileObj
	for _, x := range g.w.effs {
		if x.kind != "mapset" || len(x.args) < 3 || !isPoint(x.args[1]) {
			continue
		}
		o := &tileObj{key: x.args[1]}
		for _, y := range g.w.effs {
			if y.kind != "store" || y.addr == nil || !strings.HasPrefix(y.addr.op, "fld") || len(y.addr.args) == 0 || y.addr.args[0] != x.args[2] && !isIfaceOf(x.args[2], y.addr.args[0]) {
				continue
			}
			switch {
			case isRectangle(y.val):
				lo, why1 := g.span(y.val.args[0].args[0], y.val.args[1].args[0])
				lo2, why2 := g.span(y.val.args[0].args[1], y.val.args[1].args[1])
				if why1+why2 == "" && (lo != o.key.args[0] || lo2 != o.key.args[1]) {
					r.bad("tile rectangle", fnLabel(y.fn), e.p.rel(y.pos), "the tile stored at (%s, %s) covers another place", o.key.args[0].str(4), o.key.args[1].str(4))
				}
			case y.typ != nil && isByteSliceT(y.typ) || y.addr.aux == "0":
				o.buf = y.val
			default:
				o.stride = y.val
			}
		}
		if o.stride != nil && o.buf != nil {
			objs = append(objs, o)
		}
	}
	if debugC29 {
		fmt.Println("objs", len(objs))
	}
	var tsw V
	for _, a := range g.w.args {
		if g.up(a) == g.ts {
			tsw = a
		}
	}
	if tsw == nil {
		tsw = g.ts
	}
	for _, o := range objs {
		bpp, ok := e.exactDiv(o.stride, tsw)
		nb, isc := int64(0), false
		if ok {
			nb, isc = bpp.intConst()
		}
		if !isc || nb <= 0 {
			r.bad("tile content", fnLabel(g.w.fn), e.p.rel(g.w.fn.Pos()), "the stored tile's row length is %s, not a number of bytes per pixel times the tile size", o.stride.str(4))
			continue
		}
		for _, x := range g.w.effs {
			if x.kind != "store" || x.addr == nil || x.addr.op != "elem" || x.addr.args[0] != o.buf {
				continue
			}
			g.pixel(r, o.key, nb, tsw, x)
		}
	}
}

func isIfaceOf(v, o V) bool { return len(v.args) > 0 && v.args[0] == o }
func isByteSliceT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// pixel checks one store of a sample into a tile.
func (g *gridRun) pixel(r *Report, key V, bpp int64, ts V, x *VEff) {
	e := g.e
	where, pos := fnLabel(x.fn), e.p.rel(x.pos)
	if debugC29 {
		fmt.Println("pixel", x.addr.str(5), x.val.str(5), len(x.loops))
	}
	if len(x.loops) < 2 {
		return
	}
	// positions relative to the tile: its origin becomes a symbol
	org := map[V]V{}
	var nkey []V
	for i, k := range key.args {
		t := e.mk("sym", "tile"+strconv.Itoa(i))
		e.leafT[t] = types.Typ[types.Int]
		nkey = append(nkey, t)
		for s := range g.start {
			if _, rest, ok := e.split(k, s); ok {
				org[s] = e.sub(t, rest, 64)
			}
		}
	}
	if len(org) != 2 {
		return
	}
	oldKey := key
	key = e.mk("struct", "", nkey...)
	canon := func(v V) V {
		return e.canonMinMax(e.rebuild(v, func(n V) V { return org[n] }))
	}
	a := canon(x.addr.args[1])
	if anyNode(a, func(n V) bool { return n.op == "ite" || n.op == "phi" }) {
		r.count("pixel stores whose position is not a polynomial", 1)
		return
	}
	q, rest, ok := e.split(a, ts)
	if !ok {
		r.count("pixel stores whose position is not a polynomial", 1)
		return
	}
	unit := e.int(bpp, 64)
	ry, ok1 := e.exactDiv(q, unit)
	// channel: constant part of the rest modulo the pixel size
	c := int64(0)
	for _, t := range rest.terms() {
		if len(t.m) == 0 {
			c = t.c % bpp
		}
	}
	rx, ok2 := e.exactDiv(e.sub(rest, e.int(c, 64), 64), unit)
	if !ok1 || !ok2 {
		r.count("pixel stores whose position is not a polynomial", 1)
		return
	}
	// rectangle: the one the launcher's grid comes from
	rect := g.rect()
	if debugC29 {
		fmt.Println("rect", rect, unit.str(3), q.str(4))
		for _, a := range g.w.args {
			fmt.Println("  ", a.str(2), g.sub[a].str(4))
		}
	}
	if rect == nil {
		return
	}
	at := func(corner, axis int) V {
		return e.field(e.field(rect, corner, 2), axis, 2)
	}
	absX := e.canonMinMax(e.sub(e.add(key.args[0], rx, 64), at(0, 0), 64))
	absY := e.canonMinMax(e.sub(e.add(key.args[1], ry, 64), at(0, 1), 64))
	width := e.sub(at(1, 0), at(0, 0), 64)
	height := e.sub(at(1, 1), at(0, 1), 64)
	lin := e.canonMinMax(e.add(e.mul(absY, width, 64), absX, 64))
	// samples the value depends on
	n := 0
	anyNode(x.val, func(v V) bool {
		if v.op != "elem" || !g.isParamBase(v.args[0]) {
			return false
		}
		n++
		s := canon(v.args[1])
		if s == lin || g.scaled(s, lin) {
			r.ok("tile content")
			return false
		}
		r.bad("tile content", where, pos, "the sample %s is stored in the tile as the one of (%s, %s) of the rectangle", s.str(5), absX.str(4), absY.str(4))
		return false
	})
	if n == 0 {
		return
	}
	// the loops cover exactly the part of the tile inside the rectangle
	for axis, o := range map[int]V{0: absX, 1: absY} {
		lim := width
		if axis == 1 {
			lim = height
		}
		tl := e.canonMinMax(e.add(e.sub(key.args[axis], at(0, axis), 64), ts, 64))
		inTile := e.canonMinMax(e.sub(o, tl, 64)) // < 0
		inRect := e.canonMinMax(e.sub(o, lim, 64))
		both := e.canonMinMax(e.sub(o, e.minmax("min", "i", tl, lim), 64))
		okT, okR := false, false
		for _, cj := range conjuncts(x.guard) {
			if cj.op != "neg" {
				continue
			}
			pc := canon(cj.args[0])
			for _, d := range []V{nil, unit, ts, e.mul(unit, ts, 64)} {
				v := pc
				if d != nil {
					var ok bool
					if v, ok = e.exactDiv(pc, d); !ok {
						continue
					}
				}
				if v == both {
					okT, okR = true, true
				}
				okT = okT || v == inTile
				okR = okR || v == inRect
			}
		}
		if okT && okR {
			r.ok("tile content")
		} else {
			r.bad("tile content", where, pos, "the loop does not stop where both the tile and the rectangle end on the %s axis", []string{"x", "y"}[axis])
		}
		// start: iteration 0 is the larger of the two minima
		lo := o
		for _, l := range x.loops {
			if l != nil {
				lo = g.zeroIter(lo, l, oldKey)
			}
		}
		want := e.canonMinMax(e.minmax("max", "i", e.int(0, 64), e.sub(key.args[axis], at(0, axis), 64)))
		if e.canonMinMax(lo) == want {
			r.ok("tile content")
		} else {
			r.bad("tile content", where, pos, "on the %s axis the loop starts at %s of the rectangle, not where both the tile and the rectangle begin", []string{"x", "y"}[axis], lo.str(5))
		}
	}
}

// zeroIter sets the iteration of a loop the tile does not depend on to 0.
func (g *gridRun) zeroIter(v V, l *VLoop, key V) V {
	e := g.e
	return e.rebuild(v, func(n V) V {
		if n.op == "iter" && n.loop == l && !anyNode(key, func(k V) bool { return k == n }) {
			return e.int(0, 64)
		}
		return nil
	})
}

// scaled reports whether s is lin times a parameter (distance of samples).
func (g *gridRun) scaled(s, lin V) bool {
	e := g.e
	for _, a := range g.w.args {
		t := e.leafT[a]
		if t == nil {
			continue
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		if s == e.canonMinMax(e.mul(lin, a, 64)) {
			return true
		}
	}
	return false
}

func (g *gridRun) isParamBase(v V) bool {
	for _, a := range g.w.args {
		if v == a {
			return true
		}
	}
	if v.op == "slice" {
		return g.isParamBase(v.args[0])
	}
	return v.op == "base" || strings.HasPrefix(v.op, "base")
}

// rect is the worker's parameter that holds the rectangle of the grid.
func (g *gridRun) rect() V {
	var rr V
	first := g.p.atK(g.p.zero())
	for i := range g.w.args {
		if i < len(first) {
			if m, _, ok := g.e.tileFloor(first[i]); ok {
				if x, c, _ := rectOf(m); x != nil && c == "0" {
					rr = x
				}
			}
		}
	}
	for _, a := range g.w.args {
		if g.sub[a] == rr {
			return a
		}
	}
	return nil
}

// pointPlumbing checks that functions that are given a tile position use
// that position, unchanged, as key and as argument.
func pointPlumbing(p *Program, r *Report) {
	isPt := func(t types.Type) bool { return t.String() == "image.Point" }
	keyed := map[*ssa.Function]map[int]bool{} // parameters used as tile keys
	mapKey := func(in ssa.Instruction) (m, k ssa.Value) {
		switch x := in.(type) {
		case *ssa.Lookup:
			return x.X, x.Index
		case *ssa.MapUpdate:
			return x.Map, x.Key
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				return x.Call.Args[0], x.Call.Args[1]
			}
		}
		return nil, nil
	}
	origin := func(v ssa.Value) ssa.Value {
		for d := 0; d < 6; d++ {
			if u, ok := v.(*ssa.UnOp); ok {
				if s := onlyStore(u.X); s != nil {
					v = s
					continue
				}
			}
			break
		}
		return v
	}
	var fns []*ssa.Function
	for _, f := range p.repoFuncs() {
		if inPkg(f, "composite") {
			fns = append(fns, f)
		}
	}
	mark := func(f *ssa.Function, v ssa.Value) bool {
		pr, ok := origin(v).(*ssa.Parameter)
		if !ok || !isPt(pr.Type()) {
			return false
		}
		for i, q := range f.Params {
			if q == pr {
				if keyed[f] == nil {
					keyed[f] = map[int]bool{}
				}
				if !keyed[f][i] {
					keyed[f][i] = true
					return true
				}
			}
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if m, k := mapKey(in); m != nil && isPt(k.Type()) {
						changed = mark(f, k) || changed
					}
					if c, ok := in.(ssa.CallInstruction); ok {
						if t := c.Common().StaticCallee(); t != nil {
							for i, a := range c.Common().Args {
								if keyed[t][i] {
									changed = mark(f, a) || changed
								}
							}
						}
					}
				}
			}
		}
	}
	for _, f := range fns {
		if keyed[f] == nil {
			continue
		}
		r.fn(fnLabel(f))
		own := func(v ssa.Value) bool {
			pr, ok := origin(v).(*ssa.Parameter)
			if !ok {
				return false
			}
			for i, q := range f.Params {
				if q == pr && keyed[f][i] {
					return true
				}
			}
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, k := mapKey(in); m != nil && isPt(k.Type()) {
					if own(k) {
						r.ok("position handed on")
					} else {
						r.bad("position handed on", fnLabel(f), p.rel(in.Pos()), "a tile is looked up at another position than the one this function was given")
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				t := cc.StaticCallee()
				if t == nil && !cc.IsInvoke() {
					continue
				}
				var args []ssa.Value
				args = append(args, cc.Args...)
				for i, a := range args {
					if !isPt(a.Type()) {
						continue
					}
					tile := t != nil && keyed[t][i]
					draws := t == nil || t.Pkg != nil && strings.HasSuffix(t.Pkg.Pkg.Path(), "/blend") || !tile && t != nil && inPkg(t, "composite")
					switch {
					case own(a), !tile && !draws:
						r.ok("position handed on")
					case tile:
						r.bad("position handed on", fnLabel(f), p.rel(in.Pos()), "%s is given another position than the one this function was given", t.Name())
					case zeroPoint(a):
						// allowed for uniform sources only
						if uniformSource(args) {
							r.ok("position handed on")
						} else {
							r.bad("position handed on", fnLabel(f), p.rel(in.Pos()), "the drawn image is not uniform, but is drawn from the origin instead of the tile's position")
						}
					case boundsMin(a, origin):
						r.ok("position handed on")
					default:
						r.bad("position handed on", fnLabel(f), p.rel(in.Pos()), "an image is drawn from another position than the tile's")
					}
				}
			}
		}
	}
}

func zeroPoint(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	if ok {
		return k.Value == nil
	}
	// *alloc without stores
	if u, ok := v.(*ssa.UnOp); ok {
		if al, ok := u.X.(*ssa.Alloc); ok {
			for _, x := range *al.Referrers() {
				switch y := x.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if !zeroPoint(y.Val) {
						return false
					}
				default:
					return false
				}
			}
			return true
		}
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "image" && g.Name() == "ZP" {
			return true
		}
	}
	return false
}

// boundsMin: the minimum of the bounds or rectangle of an image, which is the
// position of the pixel stored first.
func boundsMin(v ssa.Value, origin func(ssa.Value) ssa.Value) bool {
	switch x := origin(v).(type) {
	case *ssa.Field:
		return x.Field == 0 && strings.HasSuffix(x.X.Type().String(), "image.Rectangle")
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fa.Field == 0 && strings.HasSuffix(fa.X.Type().String(), "image.Rectangle")
		}
	}
	return false
}

// uniformSource reports whether an image argument of the call is uniform.
func uniformSource(args []ssa.Value) bool {
	for _, a := range args {
		v := a
		if m, ok := v.(*ssa.MakeInterface); ok {
			v = m.X
		}
		if m, ok := v.(*ssa.ChangeInterface); ok {
			v = m.X
		}
		if strings.HasSuffix(v.Type().String(), "*image.Uniform") {
			return true
		}
	}
	return false
}

// tileRects checks the functions that make the image of one tile.
func tileRects(ctx *Ctx, r *Report) {
	p := ctx.prog("linux-amd64")
	ls, pf := launchers(ctx)
	if len(ls) == 0 {
		return
	}
	e := ls[0].e
	for _, f := range p.repoFuncs() {
		if !inPkg(f, "composite") || f.Blocks == nil || pf.worker[f] || pf.spawns[f] || f.Parent() != nil {
			continue
		}
		ptI := -1
		for i, pr := range f.Params {
			if pr.Type().String() == "image.Point" {
				ptI = i
			}
		}
		if ptI < 0 || !makesImage(f) || !compositeOnly(p, nil)[f] {
			continue
		}
		r.fn(fnLabel(f))
		e.effs, e.reads, e.nloop, e.nsym, e.gos = nil, nil, 0, 0, 0
		var args []V
		for i, pr := range f.Params {
			args = append(args, e.param(fmt.Sprintf("h%d", i), i, pr.Type()))
		}
		e.Run(f, args)
		pt := args[ptI]
		for _, x := range e.effs {
			var rc V
			switch x.kind {
			case "store":
				rc = x.val
			case "call":
				if strings.Contains(x.name, "image.New") && len(x.args) > 0 {
					rc = x.args[0]
				}
			}
			if !isRectangle(rc) {
				continue
			}
			why := ""
			var size V
			for ax := 0; ax < 2; ax++ {
				lo, hi := rc.args[0].args[ax], rc.args[1].args[ax]
				c := e.field(pt, ax, 2)
				var d V
				if lo.op == "min" && hi.op == "max" && lo.args[0] == hi.args[0] && lo.args[1] == hi.args[1] {
					switch c {
					case lo.args[0]:
						d = e.sub(lo.args[1], c, 64)
					case lo.args[1]:
						d = e.sub(lo.args[0], c, 64)
					}
				} else if lo == c {
					d = e.sub(hi, lo, 64)
				}
				if d == nil {
					why = "it does not begin at the position given"
					continue
				}
				if size != nil && d != size {
					why = "its width and height differ"
				}
				size = d
				if _, isPoly := d.intConst(); isPoly || d.op == "poly" {
					why = "its size is " + d.str(4) + ", not the tile size"
				}
			}
			if why != "" {
				r.bad("tile rectangle", fnLabel(f), p.rel(x.pos), "the rectangle of the tile made here is wrong: %s", why)
			} else {
				r.ok("tile rectangle")
			}
		}
		e.effs = nil
	}
}

// makesImage reports whether the function returns an image.
func makesImage(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		s := rs.At(i).Type().String()
		if strings.Contains(s, "image.") || strings.Contains(s, "draw.Image") {
			return true
		}
	}
	return false
}

var debugC29 = false

// split writes p as q*x + rest where rest may still mention x inside other
// operations.
func (e *VEval) split(p, x V) (q, rest V, ok bool) {
	var qs, rs []vterm
	for _, t := range p.terms() {
		m := append([]V{}, t.m...)
		found := false
		for i, y := range m {
			if y == x {
				m = append(m[:i:i], m[i+1:]...)
				found = true
				break
			}
		}
		if found {
			qs = append(qs, vterm{t.c, m})
		} else {
			rs = append(rs, t)
		}
	}
	return e.fromTerms(qs, 64), e.fromTerms(rs, 64), len(qs) > 0
}
