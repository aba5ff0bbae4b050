package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The drawing methods of every mode and what they hand to their kernels.

type drawMethod struct {
	mode  string // exported name of the mode
	typ   types.Type
	fn    *ssa.Function
	name  string
	args  []V // receiver, dst, r, src, sp, mask[, mp]
	effs  []*VEff
	e     *VEval
	src   string // source format of the signature
	dst   string
	par   []*VEff // calls of a kernel's parallel driver
	selfK *kernel // kernel loop written in the method itself
}

func isKernelDriver(fn *ssa.Function) bool {
	rec := fn.Signature.Recv()
	if rec == nil || len(fn.Params) == 0 {
		return false
	}
	_, ok := rec.Type().Underlying().(*types.Signature)
	return ok
}

var methFormats = map[string]string{"*image.RGBA": "RGBA", "*image.NRGBA": "NRGBA", "*image.Alpha": "Alpha", "*image.Uniform": "Uniform"}

func methodFormat(t types.Type) string {
	if f, ok := methFormats[types.TypeString(t, nil)]; ok {
		return f
	}
	return "any"
}

// drawMethods evaluates the format-specific methods of every exported mode.
func drawMethods(ctx *Ctx) []*drawMethod {
	if k, ok := ctx.cache["drawmethods"]; ok {
		return k.([]*drawMethod)
	}
	ks := kernels(ctx)
	e := ks[0].e
	p := ctx.prog("linux-amd64")
	modes := drawerModes(p)
	var names []string
	for n := range modes {
		names = append(names, n)
	}
	sort.Strings(names)
	old := e.inline
	e.inline = func(fn *ssa.Function, args []V) bool {
		if isKernelDriver(fn) {
			return false
		}
		return fn.Pkg != nil && e.isRepo[fn.Pkg]
	}
	defer func() { e.inline = old }()
	var out []*drawMethod
	for _, n := range names {
		v := e.globalValue(modes[n])
		t := dynType(v)
		if t == nil {
			out = append(out, &drawMethod{mode: n})
			continue
		}
		ms := p.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			fn := p.SSA.MethodValue(ms.At(i))
			if fn == nil || fn.Blocks == nil || fn.Signature.Results().Len() != 0 {
				continue
			}
			m := &drawMethod{mode: n, typ: t, fn: fn, name: fn.Name(), e: e}
			// receiver, dst, r, src, sp, mask [, mp]; not the public entry points
			if len(fn.Params) < 6 || isExportedName(fn.Name()) {
				continue
			}
			if _, ok := fn.Params[2].Type().Underlying().(*types.Struct); !ok {
				continue
			}
			m.dst, m.src = methodFormat(fn.Params[1].Type()), methodFormat(fn.Params[3].Type())
			e.effs, e.nloop, e.nsym, e.gos = nil, 0, 0, 0
			for i, pr := range fn.Params {
				m.args = append(m.args, e.param(fmt.Sprintf("m%d", i), i, pr.Type()))
			}
			e.Run(fn, m.args)
			m.effs = e.effs
			e.effs = nil
			for _, x := range m.effs {
				if x.kind == "call" && x.fn != nil && x.callee() != nil && isKernelDriver(x.callee()) {
					m.par = append(m.par, x)
				}
			}
			if len(m.par) == 0 {
				k := &kernel{name: "draw" + n + "Fallback", mode: n, fn: fn, kind: "fallback", e: e, args: m.args, effs: m.effs, dst: m.args[1], src: m.args[3], mask: m.args[5]}
				if len(k.groups()) > 0 {
					m.selfK = k
				}
			}
			out = append(out, m)
		}
	}
	ctx.cache["drawmethods"] = out
	return out
}

// isExportedName reports an exported method name.
func isExportedName(n string) bool { return n[0] >= 'A' && n[0] <= 'Z' }

func (x *VEff) callee() *ssa.Function {
	if c, ok := x.ins.(ssa.CallInstruction); ok {
		return c.Common().StaticCallee()
	}
	return nil
}

func dumpC20(ctx *Ctx) {
	for _, m := range drawMethods(ctx) {
		if os.Getenv("M") != "" && os.Getenv("M") != m.mode {
			continue
		}
		fmt.Println(m.mode, m.name, m.src, m.dst, len(m.par), m.selfK != nil, len(m.effs))
		for _, x := range m.par {
			fmt.Println("   if", x.guard.str(5))
			for i, a := range x.args {
				fmt.Println("   ", i, a.str(6))
			}
		}
	}
}

func dynType(v V) types.Type {
	if v != nil && v.op == "iface" {
		t, _ := v.ref.(types.Type)
		return t
	}
	return nil
}

func init() {
	checks["C20"] = Check{run: checkStep, level: "other",
		expl:  "Value numbering of every format-specific drawing method of every mode together with the kernel it hands its arguments to (the parallel driver is treated as one call of the kernel; C06 shows that it is equivalent to one). The arguments, polynomials in the rectangle, the start points, the strides and the image origins, are substituted into the kernel's loop conditions and addresses; every case of the direction decision is treated separately. Obligations per method and case: the loops run exactly height times width iterations; in iteration (m,n) the destination address is that of the pixel (r.Min + (U,V)) and source and mask positions are those of (sp + (U,V)) and (mp + (U,V)) with the same U in {n, width-1-n} and V in {m, height-1-m}; every sample read belongs to these pixels; the direction chosen for overlapping images does not overwrite source pixels before they are read (sequentially). For the dispatcher: the rectangle passed on is the intersection of the request with the destination bounds and the translated source and mask bounds, nothing else and nothing less, and the start points move by the same amount as the corner of the rectangle.",
		assum: []string{"Rectangle.Intersect, Add, Sub, PixOffset and Bounds behave as documented", "pixel strides and slices of the images are consistent with their rectangles"}}
	checks["C21"] = Check{run: checkDispatch, level: "other",
		expl:  "Value numbering of the dispatcher and of the public entry points of every mode. Obligations: Draw and DrawMask of each mode call the dispatcher once with the mode itself and their own arguments; under every combination of concrete destination, source and mask types and of optional interfaces (a finite case analysis over the type tests that occur in the code) exactly one drawing method is called when the region is not empty and none otherwise; the images passed are the given ones asserted to the types the method requires, under the type tests that make the assertion succeed; a method is called without a mask only when there is none; every method of a mode hands over to the kernel of the same mode and of the formats in its signature, passes the mask alpha in the scale of that kernel and full opacity without a mask, and skips drawing only when the mask is fully transparent.",
		assum: []string{"kernels are identified by the package-level variable they are bound to; that the variables hold what their names say is C19"}}
}

// splitCases separates expressions by the conditions of the gates in them.
func (e *VEval) splitCases(vals []V, f func(assume map[V]bool, vals []V)) {
	var rec func(as map[V]bool, vals []V, d int)
	rec = func(as map[V]bool, vals []V, d int) {
		var c V
		for _, v := range vals {
			if c != nil {
				break
			}
			if v != nil {
				anyNode(v, func(n V) bool {
					if c == nil && n.op == "ite" {
						c = n.args[0]
					}
					return c != nil
				})
			}
		}
		if c == nil || d > 12 {
			f(as, vals)
			return
		}
		for c.op == "not" {
			c = c.args[0]
		}
		for _, b := range []bool{true, false} {
			na := map[V]bool{c: b}
			for k, v := range as {
				na[k] = v
			}
			if e.infeasible(na) {
				continue
			}
			nv := make([]V, len(vals))
			for i, v := range vals {
				if v != nil {
					nv[i] = e.subst(v, c, e.boolean(b))
				}
			}
			rec(na, nv, d+1)
		}
	}
	rec(map[V]bool{}, vals, 0)
}

func (e *VEval) infeasible(as map[V]bool) bool {
	var yes []V
	for c, b := range as {
		if b {
			if e.excluded(c, yes) {
				return true
			}
			yes = append(yes, c)
		}
	}
	return false
}

// sameModulo reports a == b, or equality under the assumed equations.
func (e *VEval) sameModulo(a, b V, as map[V]bool) bool {
	d := e.sub(a, b, 64)
	if k, ok := d.intConst(); ok {
		return k == 0
	}
	for c, v := range as {
		if v && c.op == "eq0" {
			for _, s := range []int64{1, -1} {
				if k, ok := e.sub(d, e.scale(c.args[0], s, 64), 64).intConst(); ok && k == 0 {
					return true
				}
			}
		}
	}
	return false
}

// tripIs reports whether a loop condition in n holds for exactly n < w.
func (e *VEval) tripIs(cont, n, w V) bool {
	c := cont
	neg := false
	if c.op == "not" {
		c, neg = c.args[0], true
	}
	if len(c.args) == 0 {
		return false
	}
	p := c.args[0]
	switch {
	case c.op == "eq0" && neg:
		a, rest, ok := e.coefOf(p, n)
		if !ok {
			return false
		}
		k, isc := a.intConst()
		if !isc || k == 0 {
			return false
		}
		z, ok := e.add(rest, e.scale(w, k, 64), 64).intConst()
		return ok && z == 0
	case c.op == "neg" && neg: // p >= 0
		z, ok := e.sub(p, e.sub(e.sub(w, n, 64), e.int(1, 64), 64), 64).intConst()
		return ok && z == 0
	case c.op == "neg": // p < 0
		z, ok := e.sub(p, e.sub(n, w, 64), 64).intConst()
		return ok && z == 0
	}
	return false
}

// renamed carries a kernel expression over to the arguments of a call.
func (k *kernel) renamed(v V, argv []V) V {
	if v == nil || argv == nil {
		return v
	}
	m := map[V]V{}
	for i, a := range k.args {
		if i < len(argv) {
			m[a] = argv[i]
		}
	}
	return k.e.rebuild(v, func(n V) V {
		if x := m[n]; x != nil {
			return x
		}
		return nil
	})
}

type posn struct {
	img  int // 1 destination, 2 source, 3 mask
	off  V   // byte offset within the image's pixels (nil: coordinates)
	x, y V
	what string
}

// positions of a kernel: where it stores and reads for one iteration
func (k *kernel) positions(pg *pixGroup) []posn {
	e := k.e
	var out []posn
	seen := map[V]bool{}
	if pg.off != nil {
		out = append(out, posn{img: 1, off: pg.off, what: "store"})
	} else {
		out = append(out, posn{img: 1, x: pg.xy[0], y: pg.xy[1], what: "store"})
	}
	visit := func(v V) {
		anyNode(v, func(n V) bool {
			img, ch, ok := k.leaf(n)
			if !ok || seen[n] || n.op == "param" {
				return false
			}
			seen[n] = true
			if n.op == "deref" {
				off := n.args[0].args[1]
				c, base := e.splitConst(off)
				if k.oneByte && img == 2 {
					base = off
				} else if int64(ch) != c && k.kind != "fallback" {
					base = off // channel constant outside 0..3
				}
				out = append(out, posn{img: img, off: base, what: "read"})
				return false
			}
			at := n.args[0].args[0]
			if len(at.args) == 3 {
				out = append(out, posn{img: img, x: at.args[1], y: at.args[2], what: "read"})
			}
			return false
		})
	}
	for c := 0; c < 4; c++ {
		for _, a := range pg.alts[c] {
			visit(a.val)
			visit(a.guard)
		}
	}
	return out
}

func (m *drawMethod) where() string { return m.mode + "." + m.name }

func checkStep(ctx *Ctx, r *Report) {
	ms := drawMethods(ctx)
	byFn := map[*ssa.Function]*kernel{}
	for _, k := range kernels(ctx) {
		byFn[k.fn] = k
	}
	for _, m := range ms {
		if m.fn == nil {
			continue
		}
		r.fn(m.where())
		r.count("drawing methods", 1)
		if m.selfK != nil {
			m.step(r, m.selfK, nil, nil)
			continue
		}
		for _, x := range m.par {
			f := x.args[0]
			fn, _ := f.ref.(*ssa.Function)
			k := byFn[fn]
			if k == nil {
				r.undecided("in-step", m.where(), m.e.p.rel(x.pos), "%s: kernel not identified: %s", m.where(), f.str(3))
				continue
			}
			m.step(r, k, x.args[1:], x.guard)
		}
	}
	dispatcherClip(ctx, r)
	r.atLeast("in-step", 200)
	r.atLeast("trip-count", 200)
	r.atLeast("clip", 5)
}

func (m *drawMethod) step(r *Report, k *kernel, argv []V, guard V) {
	e := m.e
	where := m.where()
	k.oneByte = m.src == "Alpha"
	gs := k.groups()
	if len(gs) == 0 {
		r.count("methods that store nothing", 1)
		return
	}
	pos := e.p.rel(m.fn.Pos())
	rMin, rMax := e.field(m.args[2], 0, 2), e.field(m.args[2], 1, 2)
	rx, ry := e.field(rMin, 0, 2), e.field(rMin, 1, 2)
	h := e.sub(e.field(rMax, 1, 2), ry, 64)
	w := e.sub(e.field(rMax, 0, 2), rx, 64)
	pt := func(i int) (V, V) {
		if i >= len(m.args) {
			return nil, nil
		}
		return e.field(m.args[i], 0, 2), e.field(m.args[i], 1, 2)
	}
	sx, sy := pt(4)
	mx, my := pt(6)
	img := func(a V) (pix [4]V, stride, ox, oy V) {
		d := e.mk("deref", "", a)
		pix = e.sliceParts(e.field(d, 0, 3))
		rect := e.field(d, 2, 3)
		mn := e.field(rect, 0, 2)
		return pix, e.field(d, 1, 3), e.field(mn, 0, 2), e.field(mn, 1, 2)
	}
	for _, pg := range gs {
		if len(pg.loops) != 2 {
			r.undecided("in-step", where, pos, "%s: pixels are stored in %d nested loops", where, len(pg.loops))
			continue
		}
		ps := k.positions(pg)
		var vals []V
		for _, l := range pg.loops {
			c := l.cont
			if c == nil {
				c = e.boolean(true)
			}
			vals = append(vals, k.renamed(c, argv))
		}
		for _, p := range ps {
			vals = append(vals, k.renamed(p.off, argv), k.renamed(p.x, argv), k.renamed(p.y, argv))
		}
		e.splitCases(vals, func(as map[V]bool, vs []V) {
			r.count("cases", 1)
			row, col := pg.loops[0].iter, pg.loops[1].iter
			okR := e.tripIs(vs[0], row, h)
			okC := e.tripIs(vs[1], col, w)
			if !okR && !okC && e.tripIs(vs[0], row, w) && e.tripIs(vs[1], col, h) {
				row, col = col, row
				okR, okC = true, true
			}
			r.check(okR, "trip-count", where+"/rows", pos, "%s: the loop over the rows does not run once per row of the region: it continues while %s", where, vs[0].str(7))
			r.check(okC, "trip-count", where+"/columns", pos, "%s: the loop over the columns does not run once per column of the region: it continues while %s", where, vs[1].str(7))
			if !okR || !okC {
				return
			}
			one := e.int(1, 64)
			V1 := []V{row, e.sub(e.sub(h, one, 64), row, 64)}
			U1 := []V{col, e.sub(e.sub(w, one, 64), col, 64)}
			dirs := []string{"forwards", "backwards"}
			best, bestMiss, bestN := "", "", -1
			for vi, vv := range V1 {
				for ui, uu := range U1 {
					miss := ""
					n := 0
					for i, p := range ps {
						off, x, y := vs[2+3*i], vs[3+3*i], vs[4+3*i]
						ok := false
						switch {
						case p.off != nil:
							im, px, py, bpp := m.args[1], rx, ry, int64(4)
							si := 0
							if p.img == 2 {
								im, px, py = m.args[3], sx, sy
								si = 1
								if k.oneByte {
									bpp = 1
								}
							}
							pix, stride, ox, oy := img(im)
							if argv != nil {
								sp := e.sliceParts(argv[si])
								if sp[0] != pix[0] {
									break
								}
								off = e.add(off, e.sub(sp[1], pix[1], 64), 64)
							}
							want := e.add(e.mul(e.sub(e.add(py, vv, 64), oy, 64), stride, 64), e.scale(e.sub(e.add(px, uu, 64), ox, 64), bpp, 64), 64)
							ok = e.sameModulo(off, want, as)
						default:
							px, py := rx, ry
							if p.img == 2 {
								px, py = sx, sy
							}
							if p.img == 3 {
								px, py = mx, my
							}
							if px == nil {
								break
							}
							ok = e.sameModulo(x, e.add(px, uu, 64), as) && e.sameModulo(y, e.add(py, vv, 64), as)
						}
						if ok {
							n++
						} else if miss == "" {
							names := []string{"", "destination", "source", "mask"}
							at := off
							if p.off == nil {
								at = e.mk("tuple", "", x, y)
							}
							miss = fmt.Sprintf("the %s of the %s pixel is at %s", p.what, names[p.img], at.str(6))
						}
					}
					if n > bestN {
						bestN, bestMiss = n, miss
						best = fmt.Sprintf("rows %s, columns %s", dirs[vi], dirs[ui])
					}
				}
			}
			r.check(bestN == len(ps), "in-step", where, pos, "%s (%s; %s): %s, not at the same offset from its start point as the destination from the corner of the region", where, best, assumeStr(as), bestMiss)
			if bestN == len(ps) {
				if guard != nil {
					as[guard] = true
				}
				m.direction(r, pos, as, best, rx, ry, sx, sy)
			}
		})
	}
}

// direction checks that a case of the traversal decision is compatible with
// the order in which overlapping pixels have to be read.
func (m *drawMethod) direction(r *Report, pos string, as map[V]bool, dir string, rx, ry, sx, sy V) {
	if m.src == "Uniform" || m.src == "Alpha" && m.dst != "Alpha" || m.src != m.dst {
		return // cannot be the same image
	}
	e := m.e
	dy, dx := e.sub(sy, ry, 64), e.sub(sx, rx, 64)
	// sign cases of (sy-ry, sx-rx)
	type iv struct{ lo, hi int64 }
	const inf = int64(1) << 40
	ivs := []iv{{-inf, -1}, {0, 0}, {1, inf}}
	for yi, yv := range ivs {
		for xi, xv := range ivs {
			// may this case of the decision hold for these signs?
			may := true
			for c, b := range as {
				v := evalSign(e, c, dy, dx, yv.lo, yv.hi, xv.lo, xv.hi)
				if v == 0 {
					continue
				}
				if (v > 0) != b {
					may = false
				}
			}
			if !may {
				continue
			}
			before := yi == 0 || yi == 1 && xi == 0 // source starts before the destination
			after := yi == 2 || yi == 1 && xi == 2
			if before {
				r.check(dir == "rows backwards, columns backwards", "direction", m.where(), pos, "%s goes %s although the destination follows the source in the same image", m.where(), dir)
			} else if after {
				r.check(dir == "rows forwards, columns forwards", "direction", m.where(), pos, "%s goes %s although the destination precedes the source in the same image", m.where(), dir)
			}
		}
	}
}

// evalSign decides a condition from the ranges of dy and dx, for an
// overlapping draw of an image onto itself: 1 true, -1 false, 0 unknown.
func evalSign(e *VEval, c, dy, dx V, yl, yh, xl, xh int64) int {
	switch c.op {
	case "not":
		return -evalSign(e, c.args[0], dy, dx, yl, yh, xl, xh)
	case "true":
		return 1
	case "false":
		return -1
	case "and", "or":
		worst, s := 1, 1
		if c.op == "or" {
			s = -1
		}
		for _, a := range c.args {
			worst = min(worst, s*evalSign(e, a, dy, dx, yl, yh, xl, xh))
		}
		return s * worst
	case "eq0", "neg":
		p := c.args[0]
		for _, d := range []struct {
			v      V
			lo, hi int64
		}{{dy, yl, yh}, {dx, xl, xh}} {
			for _, s := range []int64{1, -1} {
				k, ok := e.sub(p, e.scale(d.v, s, 64), 64).intConst()
				if !ok {
					continue
				}
				lo, hi := s*d.lo+k, s*d.hi+k
				if lo > hi {
					lo, hi = hi, lo
				}
				if c.op == "eq0" {
					if lo == 0 && hi == 0 {
						return 1
					}
					if lo > 0 || hi < 0 {
						return -1
					}
					return 0
				}
				if hi < 0 {
					return 1
				}
				if lo >= 0 {
					return -1
				}
				return 0
			}
		}
		return 0
	case "eq":
		if c.args[0].op != "nil" && c.args[1].op != "nil" {
			return 1
		}
	case "call":
		if strings.HasSuffix(c.aux, "Rectangle).Overlaps") {
			return 1
		}
	}
	return 0
}

func assumeStr(as map[V]bool) string {
	var out []string
	for c, b := range as {
		s := c.str(4)
		if !b {
			s = "not " + s
		}
		out = append(out, s)
	}
	sort.Strings(out)
	if len(out) == 0 {
		return "in every case"
	}
	return "when " + strings.Join(out, ", ")
}

// ---- dispatcher ----

type dispatch struct {
	fn    *ssa.Function
	e     *VEval
	args  []V
	calls []*VEff
	// index of the parameters
	d, dst, r, src, sp, mask, mp int
}

// dispatchers are the functions that receive a mode as an interface and call
// its drawing methods.
func dispatchers(ctx *Ctx) []*dispatch {
	if k, ok := ctx.cache["dispatchers"]; ok {
		return k.([]*dispatch)
	}
	ks := kernels(ctx)
	e := ks[0].e
	p := ctx.prog("linux-amd64")
	var out []*dispatch
	for _, fn := range p.repoFuncs() {
		if fn.Pkg == nil || fn.Pkg != p.Pkgs[blendPkg].SSA || fn.Blocks == nil || len(fn.Params) < 7 {
			continue
		}
		d := &dispatch{fn: fn, e: e, d: -1, dst: -1, r: -1, src: -1, sp: -1, mask: -1, mp: -1}
		for i, pr := range fn.Params {
			t := pr.Type()
			if it, ok := t.Underlying().(*types.Interface); ok {
				switch {
				case hasMethod(it, "Set"):
					d.dst = i
				case hasMethod(it, "At") && d.src < 0:
					d.src = i
				case hasMethod(it, "At"):
					d.mask = i
				case it.NumMethods() > 2:
					d.d = i
				}
				continue
			}
			switch types.TypeString(t, nil) {
			case "image.Rectangle":
				d.r = i
			case "image.Point":
				if d.sp < 0 {
					d.sp = i
				} else {
					d.mp = i
				}
			}
		}
		if d.d < 0 || d.dst < 0 || d.src < 0 || d.r < 0 || d.sp < 0 || d.mask < 0 || d.mp < 0 {
			continue
		}
		e.effs, e.nloop, e.nsym, e.gos = nil, 0, 0, 0
		for i, pr := range fn.Params {
			d.args = append(d.args, e.param("disp:"+pr.Name(), i, pr.Type()))
		}
		e.Run(fn, d.args)
		for _, x := range e.effs {
			if x.kind == "call" && strings.HasPrefix(x.name, "invoke:") && len(x.args) >= 6 && stripAs(x.args[0]) == d.args[d.d] {
				d.calls = append(d.calls, x)
			}
		}
		e.effs = nil
		if len(d.calls) > 0 {
			out = append(out, d)
		}
	}
	ctx.cache["dispatchers"] = out
	return out
}

func stripAs(v V) V {
	for v.op == "as" || v.op == "iface" && len(v.args) == 1 {
		v = v.args[0]
	}
	return v
}

// rectKey lists the four coordinates of a rectangle.
func (e *VEval) rectKey(v V) [4]V {
	mn, mx := e.field(v, 0, 2), e.field(v, 1, 2)
	return [4]V{e.field(mn, 0, 2), e.field(mn, 1, 2), e.field(mx, 0, 2), e.field(mx, 1, 2)}
}

// operands of nested intersections
func (e *VEval) intersects(v V) map[[4]V]bool {
	out := map[[4]V]bool{}
	var rec func(v V)
	rec = func(v V) {
		k := e.rectKey(v)
		// the fields of one intersection
		x := k[0]
		if x.op == "field" && x.args[0].op == "field" {
			b := x.args[0].args[0]
			if b.op == "call" && strings.HasSuffix(b.aux, "image.Rectangle).Intersect") && e.rectKey(b) == k {
				rec(b.args[0])
				rec(b.args[1])
				return
			}
		}
		out[k] = true
	}
	rec(v)
	return out
}

func dispatcherClip(ctx *Ctx, r *Report) {
	ds := dispatchers(ctx)
	if len(ds) == 0 {
		r.bad("clip", "dispatcher", "", "no function dispatches on the image types")
	}
	for _, d := range ds {
		e := d.e
		r.fn(fnLabel(d.fn))
		a := d.args
		bounds := func(im V) V {
			return e.mk("call", "invoke:Bounds", im)
		}
		req := a[d.r]
		rk := e.rectKey(req)
		shift := func(b V, p V) [4]V {
			k := e.rectKey(b)
			for i := range k {
				k[i] = e.add(k[i], e.sub(rk[i%2], e.field(p, i%2, 2), 64), 64)
			}
			return k
		}
		isNil := e.eqAny(a[d.mask], e.mk("nil", ""))
		for _, x := range d.calls {
			where := fnLabel(d.fn) + ">" + strings.TrimPrefix(x.name, "invoke:")
			pos := e.p.rel(x.pos)
			for _, noMask := range []bool{true, false} {
				g := e.subst(x.guard, isNil, e.boolean(noMask))
				if g.isFalse() {
					continue
				}
				vals := []V{e.subst(x.args[2], isNil, e.boolean(noMask)), e.subst(x.args[4], isNil, e.boolean(noMask))}
				if len(x.args) > 6 {
					vals = append(vals, e.subst(x.args[6], isNil, e.boolean(noMask)))
				}
				e.splitCases(vals, func(as map[V]bool, vs []V) {
					want := map[[4]V]bool{rk: true, e.rectKey(bounds(a[d.dst])): true, shift(bounds(a[d.src]), a[d.sp]): true}
					names := map[[4]V]string{rk: "the requested rectangle", e.rectKey(bounds(a[d.dst])): "the destination bounds", shift(bounds(a[d.src]), a[d.sp]): "the source bounds"}
					if !noMask {
						k := shift(bounds(a[d.mask]), a[d.mp])
						want[k] = true
						names[k] = "the mask bounds"
					}
					got := e.intersects(vs[0])
					miss, extra := "", ""
					for k := range want {
						if !got[k] {
							miss = names[k]
						}
					}
					for k := range got {
						if !want[k] {
							extra = fmt.Sprintf("(%s,%s)-(%s,%s)", k[0].str(4), k[1].str(4), k[2].str(4), k[3].str(4))
						}
					}
					r.check(miss == "", "clip", where, pos, "%s passes a region to %s that is not clipped to %s (%s)", fnLabel(d.fn), x.name, miss, extra)
					if miss == "" {
						r.check(extra == "", "clip", where+"/extra", pos, "%s also clips the region to %s", fnLabel(d.fn), extra)
					}
					nk := e.rectKey(vs[0])
					for pi, p := range []int{d.sp, d.mp} {
						if pi+1 >= len(vs) || pi == 1 && noMask {
							continue
						}
						for c := 0; c < 2; c++ {
							got := e.field(vs[1+pi], c, 2)
							w := e.add(e.field(a[p], c, 2), e.sub(nk[c], rk[c], 64), 64)
							r.check(e.sameModulo(got, w, as), "start-point", fmt.Sprintf("%s/%d.%d", where, pi, c), pos, "%s passes a start point to %s that does not move with the clipped corner: %s (%s)", fnLabel(d.fn), x.name, got.str(5), assumeStr(as))
						}
					}
				})
			}
		}
	}
}

// allKernels are the kernel variables and the methods that contain a kernel loop.
func allKernels(ctx *Ctx) []*kernel {
	ks := append([]*kernel{}, kernels(ctx)...)
	for _, m := range drawMethods(ctx) {
		if k := m.selfK; k != nil {
			k.known = true
			k.seps = !nonSeparable[k.mode]
			ks = append(ks, k)
		}
	}
	return ks
}

func checkDispatch(ctx *Ctx, r *Report) {
	p := ctx.prog("linux-amd64")
	ms := drawMethods(ctx)
	byFn := map[*ssa.Function]*kernel{}
	for _, k := range kernels(ctx) {
		byFn[k.fn] = k
	}
	// methods and their kernels
	draws := map[string]int{}
	for _, m := range ms {
		if m.fn != nil && (len(m.par) > 0 || m.selfK != nil) {
			draws[m.mode]++
		}
	}
	for _, m := range ms {
		if m.fn == nil {
			r.undecided("own-kernel", m.mode, "", "the value of %s is not known", m.mode)
			continue
		}
		e := m.e
		r.fn(m.where())
		pos := p.rel(m.fn.Pos())
		if m.selfK != nil && len(m.par) == 0 {
			r.ok("own-kernel")
			continue
		}
		if len(m.par) == 0 {
			r.check(draws[m.mode] == 0, "own-kernel", m.where(), pos, "%s draws nothing, other methods of the mode do", m.where())
			continue
		}
		// the driver is called once
		var ors []V
		for i, x := range m.par {
			ors = append(ors, x.guard)
			for _, y := range m.par[:i] {
				r.check(e.and(x.guard, y.guard).isFalse(), "once", m.where(), pos, "%s may draw twice", m.where())
			}
		}
		m.alwaysDrawn(r, e.or(ors...), pos)
		for _, x := range m.par {
			fn, _ := x.args[0].ref.(*ssa.Function)
			k := byFn[fn]
			if k == nil {
				r.undecided("own-kernel", m.where(), pos, "%s: kernel not identified: %s", m.where(), x.args[0].str(3))
				continue
			}
			s, d := k.format()
			r.check(k.mode == m.mode, "own-kernel", m.where(), p.rel(x.pos), "%s hands over to %s, the kernel of another mode", m.where(), k.name)
			r.check(s == m.src && d == m.dst, "own-format", m.where(), p.rel(x.pos), "%s hands over to %s, the kernel of another pair of formats", m.where(), k.name)
			m.opacity(r, k, x)
		}
	}
	entryPoints(ctx, r)
	for _, d := range dispatchers(ctx) {
		d.check(r)
	}
	r.atLeast("own-kernel", 100)
	r.atLeast("entry", 40)
	r.atLeast("once-called", 50)
}

// alwaysDrawn: drawing may be left out only because the mask is transparent
// (or the region is empty).
func (m *drawMethod) alwaysDrawn(r *Report, g V, pos string) {
	e := m.e
	mask := m.args[5]
	isMask := func(n V) bool {
		return anyNode(n, func(x V) bool { return x == mask })
	}
	g = e.rebuild(g, func(n V) V {
		if n.op == "eq0" && isMask(n) && anyNode(n, func(x V) bool { return x.op == "ext" && x.aux == "3" }) {
			return e.boolean(false)
		}
		return nil
	})
	if g.isTrue() {
		r.ok("always-drawn")
		return
	}
	// conditions on the region alone
	other := ""
	anyNode(g, func(n V) bool {
		if n.op == "param" && n != m.args[2] {
			other = g.str(6)
		}
		return false
	})
	if other != "" {
		r.bad("always-drawn", m.where(), pos, "%s draws only if %s", m.where(), other)
	} else {
		r.undecided("always-drawn", m.where(), pos, "%s draws only if %s", m.where(), g.str(6))
	}
}

// opacity: the mask alpha handed to the kernel.
func (m *drawMethod) opacity(r *Report, k *kernel, x *VEff) {
	e := m.e
	mask := m.args[5]
	isNil := e.eqAny(mask, e.mk("nil", ""))
	pos := e.p.rel(x.pos)
	full := int64(0xff)
	if k.isPD() {
		full = 0xffff
	}
	maskAlpha := func(v V) bool {
		return v.op == "ext" && v.aux == "3" && v.args[0].op == "call" && strings.HasSuffix(v.args[0].aux, "RGBA") && anyNode(v.args[0], func(n V) bool { return n == mask })
	}
	switch k.kind {
	case "pix":
		a := x.args[3]
		un := e.subst(a, isNil, e.boolean(true))
		c, ok := un.intConst()
		r.check(ok && c == full, "no-mask-opaque", m.where(), pos, "%s passes the opacity %s without a mask, not %d", m.where(), un.str(4), full)
		ma := e.subst(a, isNil, e.boolean(false))
		if !k.isPD() && ma.op == "div" && ma.args[1].op == "int" && ma.args[1].k == 256 {
			ma = ma.args[0]
		} else if !k.isPD() {
			ma = e.mk("opaque", "unscaled")
		}
		r.check(maskAlpha(ma), "mask-alpha", m.where(), pos, "%s passes %s as the opacity of the mask, not its alpha in the scale of the kernel", m.where(), e.subst(a, isNil, e.boolean(false)).str(5))
	case "uniform":
		for i := 0; i < 4; i++ {
			a := x.args[2+i]
			isSrc := func(v V) bool {
				return v.op == "ext" && v.aux == fmt.Sprint(i) && v.args[0].op == "call" && strings.HasSuffix(v.args[0].aux, "RGBA") && anyNode(v.args[0], func(n V) bool { return n == m.args[3] })
			}
			un := e.subst(a, isNil, e.boolean(true))
			r.check(isSrc(un), "uniform-colour", m.where(), pos, "%s passes %s as channel %d of the uniform source", m.where(), un.str(5), i)
			ma := e.subst(a, isNil, e.boolean(false))
			// under every remaining case: source times mask alpha over full scale, or one of them at its limit
			e.splitCases([]V{ma}, func(as map[V]bool, vs []V) {
				v := vs[0]
				zero, one := false, false
				for c, b := range as {
					if b && c.op == "eq0" && anyNode(c, maskAlpha) {
						k := e.fromTerms(c.args[0].terms(), 32)
						kc, _ := e.splitConst(k)
						zero = zero || kc == 0
						one = one || kc != 0
					}
				}
				ok := false
				switch {
				case zero:
					z, isc := v.intConst()
					ok = isc && z == 0
				case one:
					ok = isSrc(v)
				}
				if !ok && v.op == "div" {
					d, isc := v.args[1].intConst()
					ts := v.args[0].terms()
					if isc && d == 0xffff && len(ts) == 1 && ts[0].c == 1 && len(ts[0].m) == 2 {
						a, b := ts[0].m[0], ts[0].m[1]
						ok = isSrc(a) && maskAlpha(b) || isSrc(b) && maskAlpha(a)
					}
				}
				r.check(ok, "uniform-mask", m.where(), pos, "%s passes %s as channel %d of the masked uniform source", m.where(), v.str(5), i)
			})
		}
	}
}

// entryPoints checks Draw and DrawMask of every mode.
func entryPoints(ctx *Ctx, r *Report) {
	p := ctx.prog("linux-amd64")
	ks := kernels(ctx)
	e := ks[0].e
	ds := map[*ssa.Function]*dispatch{}
	for _, d := range dispatchers(ctx) {
		ds[d.fn] = d
	}
	modes := drawerModes(p)
	var names []string
	for n := range modes {
		names = append(names, n)
	}
	sort.Strings(names)
	old := e.inline
	e.inline = func(fn *ssa.Function, args []V) bool {
		return ds[fn] == nil && !isKernelDriver(fn) && fn.Pkg != nil && e.isRepo[fn.Pkg]
	}
	defer func() { e.inline = old }()
	for _, n := range names {
		t := dynType(e.globalValue(modes[n]))
		if t == nil {
			r.undecided("entry", n, "", "the value of %s is not known", n)
			continue
		}
		set := p.SSA.MethodSets.MethodSet(t)
		for i := 0; i < set.Len(); i++ {
			fn := p.SSA.MethodValue(set.At(i))
			if fn == nil || fn.Blocks == nil || !isExportedName(fn.Name()) || fn.Signature.Results().Len() != 0 || len(fn.Params) < 5 {
				continue
			}
			where := n + "." + fn.Name()
			r.fn(where)
			e.effs, e.nloop, e.nsym, e.gos = nil, 0, 0, 0
			var args []V
			for i, pr := range fn.Params {
				args = append(args, e.param(fmt.Sprintf("entry%d", i), i, pr.Type()))
			}
			e.Run(fn, args)
			var calls []*VEff
			for _, x := range e.effs {
				if x.kind == "call" && ds[x.callee()] != nil {
					calls = append(calls, x)
				}
			}
			e.effs = nil
			pos := p.rel(fn.Pos())
			if len(calls) != 1 {
				r.bad("entry", where, pos, "%s calls the dispatcher %d times", where, len(calls))
				continue
			}
			x := calls[0]
			d := ds[x.callee()]
			r.check(x.guard.isTrue(), "entry", where+"/always", pos, "%s draws only if %s", where, x.guard.str(5))
			rt := dynType(x.args[d.d])
			r.check(rt != nil && types.Identical(rt, t), "entry", where+"/mode", pos, "%s hands over another mode: %s", where, x.args[d.d].str(3))
			// order of the parameters of an image/draw operation
			want := []int{d.dst, d.r, d.src, d.sp, d.mask, d.mp}
			what := []string{"destination", "region", "source", "source point", "mask", "mask point"}
			for i, w := range want {
				got := x.args[w]
				if i+1 < len(args) {
					r.check(stripAs(got) == args[i+1], "entry", where+"/"+what[i], pos, "%s passes %s as the %s", where, got.str(4), what[i])
				} else if what[i] == "mask" {
					r.check(stripAs(got).op == "nil", "entry", where+"/mask", pos, "%s passes %s as a mask", where, got.str(4))
				}
			}
		}
	}
}

// check goes through the combinations of types the dispatcher tests for.
func (d *dispatch) check(r *Report) {
	e := d.e
	where := fnLabel(d.fn)
	pos := e.p.rel(d.fn.Pos())
	mask := d.args[d.mask]
	isNil := e.eqAny(mask, e.mk("nil", ""))
	// arguments
	for _, x := range d.calls {
		name := strings.TrimPrefix(x.name, "invoke:")
		xp := e.p.rel(x.pos)
		img := []struct {
			arg, par int
			what     string
		}{{1, d.dst, "destination"}, {3, d.src, "source"}, {5, d.mask, "mask"}}
		vals := []V{x.args[0], x.guard}
		for _, im := range img {
			vals = append(vals, x.args[im.arg])
		}
		for _, none := range []bool{true, false} {
			given := make([]V, len(vals))
			for i, v := range vals {
				given[i] = e.subst(v, isNil, e.boolean(none))
			}
			if given[1].isFalse() {
				continue
			}
			e.splitCases(given, func(as map[V]bool, vs []V) {
				if vs[1].isFalse() {
					return
				}
				held := map[V]bool{}
				for _, c := range conj(vs[1]) {
					held[c] = true
				}
				for c, b := range as {
					held[c] = held[c] || b
				}
				for i, im := range img {
					a := vs[2+i]
					if im.what == "mask" && a.op == "nil" {
						r.check(none, "mask-passed", where+">"+name, xp, "%s calls %s without a mask although there may be one", where, name)
						continue
					}
					r.check(stripAs(a) == d.args[im.par], "same-image", where+">"+name+"/"+im.what, xp, "%s passes %s to %s as the %s", where, a.str(4), name, im.what)
					if a.op == "as" && !(none && im.what == "mask") {
						r.check(held[e.mk("typeis", a.aux, a.args[0])], "type-tested", where+">"+name+"/"+im.what, xp, "%s calls %s with a %s that was not tested for %s", where, name, im.what, a.aux)
					}
				}
				if a := vs[0]; a.op == "as" {
					r.check(held[e.mk("typeis", a.aux, a.args[0])], "type-tested", where+">"+name+"/mode", xp, "%s calls %s of a mode that was not tested for %s", where, name, a.aux)
				}
			})
		}
	}
	// exactly one call under every combination
	var atoms []V
	seen := map[V]bool{}
	var region []V
	for _, x := range d.calls {
		anyNode(x.guard, func(n V) bool {
			switch n.op {
			case "and", "or", "not", "true", "false":
				return false
			case "typeis", "eq":
				if !seen[n] {
					seen[n] = true
					atoms = append(atoms, n)
				}
				return false
			}
			return false
		})
		for _, c := range conj(x.guard) {
			if !anyNode(c, func(n V) bool { return n.op == "typeis" }) && c != isNil && c != e.not(isNil) && !seen[c] {
				seen[c] = true
				region = append(region, c)
			}
		}
	}
	if len(atoms) > 14 {
		r.undecided("once-called", where, pos, "%s tests for %d types", where, len(atoms))
		return
	}
	gs := make([]V, len(d.calls))
	for i, x := range d.calls {
		g := x.guard
		for _, c := range region {
			g = e.subst(g, c, e.boolean(true))
		}
		gs[i] = g
	}
	// the region conditions are the same for every call
	for i, x := range d.calls {
		held := map[V]bool{}
		for _, c := range conj(x.guard) {
			held[c] = true
		}
		_ = i
		for _, c := range region {
			r.check(held[c], "region-condition", where+">"+strings.TrimPrefix(x.name, "invoke:"), e.p.rel(x.pos), "%s calls %s whatever the condition %s under which the other methods are called", where, x.name, c.str(5))
		}
	}
	for _, c := range region {
		// an empty region is the only reason not to draw
		ok := anyNode(c, func(n V) bool { return n.op == "call" && strings.HasSuffix(n.aux, "Intersect") })
		r.check(ok, "region-condition", where, pos, "%s draws only if %s", where, c.str(5))
	}
	var rec func(i int, gs []V, desc []string)
	rec = func(i int, gs []V, desc []string) {
		if i == len(atoms) {
			n := 0
			var which []string
			for j, g := range gs {
				if g.isTrue() {
					n++
					which = append(which, strings.TrimPrefix(d.calls[j].name, "invoke:"))
				} else if !g.isFalse() {
					r.undecided("once-called", where, pos, "%s: %s is called if %s", where, d.calls[j].name, g.str(5))
					return
				}
			}
			r.check(n == 1, "once-called", where+"/"+strings.Join(desc, ","), pos, "%s calls %d drawing methods (%s) when %s", where, n, strings.Join(which, ", "), strings.Join(desc, ", "))
			return
		}
		a := atoms[i]
		for _, b := range []bool{true, false} {
			if b {
				// one concrete type at a time; nil has none
				clash := false
				for _, s := range atoms[:i] {
					if s.op == "typeis" && a.op == "typeis" && s.args[0] == a.args[0] && !strings.Contains(a.aux, "rawer") && contains(desc, atomStr(s)) {
						clash = true
					}
					if (s == isNil || a == isNil) && (s.args[0] == mask || len(s.args) > 1 && s.args[1] == mask) && (a.args[0] == mask || len(a.args) > 1 && a.args[1] == mask) && contains(desc, atomStr(s)) {
						clash = true
					}
				}
				if clash {
					continue
				}
			}
			ng := make([]V, len(gs))
			for j, g := range gs {
				ng[j] = e.subst(g, a, e.boolean(b))
			}
			nd := desc
			if b {
				nd = append(append([]string{}, desc...), atomStr(a))
			}
			rec(i+1, ng, nd)
		}
	}
	rec(0, gs, nil)
}

func atomStr(a V) string {
	if a.op == "typeis" {
		return strings.TrimPrefix(a.args[0].str(2), "disp:") + " is " + a.aux
	}
	return a.str(3)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
