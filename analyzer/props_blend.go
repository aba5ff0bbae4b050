package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Pixel kernels: the functions bound to the package-level kernel variables of blend.

const blendPkg = "blend"

type kernel struct {
	name    string // variable
	mode    string
	fn      *ssa.Function
	kind    string // "pix", "uniform", "fallback"
	e       *VEval
	args    []V
	effs    []*VEff
	dst     V
	src     V
	mask    V
	seps    bool
	known   bool
	lastDiv V
	oneByte bool
}

// blend modes whose formula mixes the colour channels by definition
var nonSeparable = map[string]bool{"Hue": true, "Saturation": true, "Color": true, "Luminosity": true, "DarkerColor": true, "LighterColor": true}

var formatRe = regexp.MustCompile(`^draw(.+?)(NRGBATo|RGBATo|AlphaTo|UniformTo|Fallback)(NRGBA|RGBA)?$`)

// drawerModes lists the exported drawers of the package.
func drawerModes(p *Program) map[string]*ssa.Global {
	out := map[string]*ssa.Global{}
	rp := p.Pkgs[blendPkg]
	if rp == nil {
		return out
	}
	for n, m := range rp.SSA.Members {
		g, ok := m.(*ssa.Global)
		if !ok || g.Object() == nil || !g.Object().Exported() {
			continue
		}
		t := g.Type().(*types.Pointer).Elem()
		if it, ok := t.Underlying().(*types.Interface); ok && hasMethod(it, "Draw") {
			out[n] = g
		}
	}
	return out
}

func hasMethod(it *types.Interface, name string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func kernelKind(fn *ssa.Function) string {
	nb, ni := 0, 0
	set := false
	for _, p := range fn.Params {
		if isByteSlice(p.Type()) {
			nb++
		}
		if it, ok := p.Type().Underlying().(*types.Interface); ok && hasMethod(it, "At") {
			ni++
			set = set || hasMethod(it, "Set")
		}
	}
	switch {
	case nb == 2 && ni == 0:
		return "pix"
	case nb == 1 && ni == 0 && len(fn.Params) > 5:
		return "uniform"
	case nb == 0 && ni == 3 && set:
		return "fallback"
	}
	return ""
}

// kernels evaluates every kernel of the package.
func kernels(ctx *Ctx) []*kernel {
	if k, ok := ctx.cache["kernels"]; ok {
		return k.([]*kernel)
	}
	p := ctx.prog("linux-amd64")
	modes := drawerModes(p)
	e := newVEval(p)
	var ks []*kernel
	var gs []*ssa.Global
	for g := range e.gstore {
		if g.Pkg == p.Pkgs[blendPkg].SSA {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Pos() < gs[j].Pos() })
	for _, g := range gs {
		v := e.globalValue(g)
		if v == nil || v.op != "fn" {
			continue
		}
		fn := v.ref.(*ssa.Function)
		kind := kernelKind(fn)
		if kind == "" || fn.Blocks == nil {
			continue
		}
		k := &kernel{name: g.Name(), fn: fn, kind: kind, e: e}
		if m := formatRe.FindStringSubmatch(g.Name()); m != nil {
			k.mode = m[1]
			_, k.known = modes[k.mode]
		}
		k.seps = !nonSeparable[k.mode]
		e.effs, e.nloop, e.nsym, e.gos = nil, 0, 0, 0
		for i, pr := range fn.Params {
			a := e.param(fmt.Sprintf("%s%d", kind, i), i, pr.Type())
			k.args = append(k.args, a)
			if isByteSlice(pr.Type()) {
				if k.dst == nil {
					k.dst = a
				} else {
					k.src = a
				}
			}
			if it, ok := pr.Type().Underlying().(*types.Interface); ok && hasMethod(it, "At") {
				switch {
				case hasMethod(it, "Set"):
					k.dst = a
				case k.src == nil:
					k.src = a
				default:
					k.mask = a
				}
			}
		}
		e.Run(fn, k.args)
		k.effs = e.effs
		e.effs = nil
		ks = append(ks, k)
	}
	ctx.cache["kernels"] = ks
	return ks
}

// pixel stores of a kernel, grouped by the pixel they belong to
type pixGroup struct {
	key   string
	ch    map[int]V
	guard map[int]V
	pos   string
	loops []*VLoop
	off   V // offset without the channel constant (nil for fallback)
	effs  map[int]*VEff
	xy    [2]V
	alts  map[int][]pixAlt
}

// pixAlt is one store to a channel and its condition.
type pixAlt struct{ val, guard V }

func deadLoop(ls []*VLoop) bool {
	for _, l := range ls {
		if k, ok := l.trip.intConst(); ok && l.known && k <= 0 {
			return true
		}
	}
	return false
}

func (k *kernel) groups() []*pixGroup {
	e := k.e
	by := map[string]*pixGroup{}
	var order []string
	put := func(key string, c int, v, g V, x *VEff, loops []*VLoop, off V) *pixGroup {
		pg := by[key]
		if pg == nil {
			pg = &pixGroup{key: key, ch: map[int]V{}, guard: map[int]V{}, effs: map[int]*VEff{}, alts: map[int][]pixAlt{}, pos: e.p.rel(x.pos), loops: loops, off: off}
			by[key] = pg
			order = append(order, key)
		}
		pg.alts[c] = append(pg.alts[c], pixAlt{v, g})
		if pg.ch[c] != nil {
			// a second store to the channel: later one wins where both happen
			pg.ch[c] = e.ite(g, v, pg.ch[c])
			pg.guard[c] = e.or(g, pg.guard[c])
		} else {
			pg.ch[c] = v
			pg.guard[c] = g
		}
		pg.effs[c] = x
		return pg
	}
	for _, x := range k.effs {
		if deadLoop(x.loops) {
			continue
		}
		switch {
		case x.kind == "store" && x.addr.op == "elem" && x.addr.args[0] == k.dst:
			// unroll loops over the channels
			type inst struct {
				off, val, guard V
				loops           []*VLoop
			}
			ins := []inst{{x.addr.args[1], x.val, x.guard, x.loops}}
			for n := len(x.loops); n > 0; n-- {
				l := x.loops[n-1]
				t, ok := l.trip.intConst()
				if !l.known || !ok || t > 4 {
					break
				}
				var next []inst
				for _, i := range ins {
					for c := int64(0); c < t; c++ {
						sub := func(v V) V { return e.subst(v, l.iter, e.int(c, 64)) }
						next = append(next, inst{sub(i.off), sub(i.val), sub(i.guard), x.loops[:n-1]})
					}
				}
				ins = next
			}
			for _, i := range ins {
				c, base := e.splitConst(i.off)
				put(fmt.Sprint(base.id, loopNames(i.loops)), int(((c%4)+4)%4), i.val, i.guard, x, i.loops, base)
			}
		case x.kind == "call" && x.name == "invoke:Set" && x.args[0] == k.dst && len(x.args) == 4:
			key := fmt.Sprint(x.args[1].id, x.args[2].id, loopNames(x.loops))
			d := x.deref[3]
			if d == nil || d.op != "struct" {
				d = nil
			}
			for c := 0; c < 4; c++ {
				var v V
				if d != nil && c < len(d.args) {
					v = d.args[c]
				} else {
					v = e.mk("opaque", fmt.Sprint("setarg", c), x.args[3])
				}
				pg := put(key, c, v, x.guard, x, x.loops, nil)
				pg.xy = [2]V{x.args[1], x.args[2]}
			}
		}
	}
	var out []*pixGroup
	for _, o := range order {
		out = append(out, by[o])
	}
	return out
}

// splitConst separates the constant term of an integer node.
func (g *VG) splitConst(p V) (int64, V) {
	var c int64
	var rest []vterm
	for _, t := range p.terms() {
		if len(t.m) == 0 {
			c = t.c
		} else {
			rest = append(rest, t)
		}
	}
	return c, g.fromTerms(rest, 64)
}

func (g *VG) subst(v, x, y V) V {
	return g.rebuild(v, func(n V) V {
		if n == x {
			return y
		}
		return nil
	})
}

// leaf classifies a sample of the source or destination pixel: image 1
// destination, 2 source, and its channel. ok is false for other nodes.
func (k *kernel) leaf(v V) (img, ch int, ok bool) {
	switch v.op {
	case "deref":
		a := v.args[0]
		if a.op == "elem" && (a.args[0] == k.dst || a.args[0] == k.src) && k.kind != "fallback" {
			c, _ := k.e.splitConst(a.args[1])
			img = 1
			if a.args[0] == k.src {
				img = 2
			}
			return img, int(((c % 4) + 4) % 4), true
		}
	case "param":
		if k.kind == "uniform" {
			for i := 1; i <= 4 && i < len(k.args); i++ {
				if k.args[i] == v {
					return 2, i - 1, true
				}
			}
		}
	case "ext":
		if c := v.args[0]; c.op == "call" && c.aux == "invoke:RGBA" && c.args[0].op == "call" && c.args[0].aux == "invoke:At" {
			i, _ := strconv.Atoi(v.aux)
			switch c.args[0].args[0] {
			case k.dst:
				return 1, i, true
			case k.src:
				return 2, i, true
			case k.mask:
				return 3, i, true
			}
		}
	}
	return 0, 0, false
}

// moved is the leaf of the same pixel in another channel.
func (k *kernel) moved(v V, from, to int) V {
	switch v.op {
	case "deref":
		a := v.args[0]
		n := k.e.mk("elem", "", a.args[0], k.e.add(a.args[1], k.e.int(int64(to-from), 64), 64))
		r := k.e.mk("deref", v.aux, n)
		k.e.leafT[r] = k.e.leafT[v]
		return r
	case "param":
		return k.args[to+1]
	case "ext":
		return k.e.extract(v.args[0], to)
	}
	return v
}

// fourChannels reports whether the source has colour channels of its own.
func (k *kernel) srcChannels(gs []*pixGroup) map[int]bool {
	m := map[int]bool{}
	for _, pg := range gs {
		for c := 0; c < 4; c++ {
			if pg.ch[c] == nil {
				continue
			}
			for _, r := range []V{pg.ch[c], pg.guard[c]} {
				anyNode(r, func(n V) bool {
					if img, ch, ok := k.leaf(n); ok && img == 2 {
						m[ch] = true
					}
					return false
				})
			}
		}
	}
	return m
}

func init() {
	checks["C18"] = Check{run: checkChannels, level: "other",
		expl:  "Value numbering of every drawing kernel: the SSA form of each kernel bound to a kernel variable is turned into a hash-consed graph of gated expressions (callees inlined, loops reduced to iteration counters, integer arithmetic kept as polynomials), giving for each store to the destination its condition, its address and the expression stored. Obligations per kernel: the three colour channels of a pixel are stored under the same condition at consecutive offsets; replacing the red samples of source and destination by the green (blue) ones in the expression stored to red gives exactly the node stored to green (blue); the red expression reads no green or blue sample and the alpha expression reads no colour sample. Blend modes that mix channels by definition are checked for the alpha expression, the storing conditions and the coverage of the channels only.",
		assum: []string{"source, destination and mask pixels of one iteration do not overlap other than by being the same pixel"}}
}

func checkChannels(ctx *Ctx, r *Report) {
	ks := allKernels(ctx)
	names := []string{"red", "green", "blue", "alpha"}
	for _, k := range ks {
		e := k.e
		r.fn(k.name)
		r.count("kernels", 1)
		gs := k.groups()
		src4 := k.srcChannels(gs)
		alphaOnly := !src4[1] && !src4[2] && !src4[3] && k.kind == "pix"
		if len(gs) == 0 {
			r.count("kernels that store nothing", 1)
			continue
		}
		use := func(v V, f func(img, ch int)) {
			anyNode(v, func(n V) bool {
				if img, ch, ok := k.leaf(n); ok && img != 3 {
					if alphaOnly && img == 2 {
						ch = 3
					}
					f(img, ch)
				}
				return false
			})
		}
		for gi, pg := range gs {
			r.count("pixel stores", len(pg.ch))
			where := fmt.Sprintf("%s#%d", k.name, gi)
			have := 0
			for c := 0; c < 3; c++ {
				if pg.ch[c] != nil {
					have++
				}
			}
			if have != 0 && have != 3 {
				for c := 0; c < 3; c++ {
					if pg.ch[c] == nil {
						r.bad("all-channels", where+"/"+names[c], pg.pos, "%s stores some colour channels of a pixel but not %s", k.name, names[c])
					}
				}
				continue
			}
			r.ok("all-channels")
			if a := pg.ch[3]; a != nil {
				okA := true
				use(a, func(img, ch int) {
					if ch < 3 {
						okA = false
					}
				})
				r.check(okA, "alpha-formula", where, pg.pos, "%s: the alpha stored depends on a colour sample: %s", k.name, a.str(7))
			}
			if have == 0 {
				continue
			}
			for c := 1; c < 3; c++ {
				r.check(pg.guard[c] == pg.guard[0], "same-condition", where+"/"+names[c], pg.pos, "%s: %s is stored under another condition than red", k.name, names[c])
			}
			if !k.seps {
				r.count("kernels mixing channels by definition", 1)
				continue
			}
			if !k.known {
				r.undecided("same-formula", where, pg.pos, "%s: the mode of the kernel is not recognised by its name", k.name)
				continue
			}
			for c := 0; c < 3; c++ {
				bad := -1
				use(pg.ch[c], func(img, ch int) {
					if ch < 3 && ch != c {
						bad = ch
					}
				})
				r.check(bad < 0, "own-samples", where+"/"+names[c], e.p.rel(pg.effs[c].pos), "%s: the value stored to %s is computed from a %s sample: %s", k.name, names[c], names[max(bad, 0)], pg.ch[c].str(7))
				if bad >= 0 || c == 0 {
					continue
				}
				want := e.rebuild(pg.ch[0], func(n V) V {
					if img, ch, ok := k.leaf(n); ok && ch == 0 && img != 3 && !(alphaOnly && img == 2) {
						return k.moved(n, 0, c)
					}
					return nil
				})
				if want == pg.ch[c] {
					r.ok("same-formula")
				} else {
					a, b := firstDiff(want, pg.ch[c], 0)
					r.bad("same-formula", where+"/"+names[c], e.p.rel(pg.effs[c].pos), "%s: %s is not computed like red: red has %s where %s has %s", k.name, names[c], a.str(5), names[c], b.str(5))
				}
			}
			if gi == 0 && len(r.Samples) < 5 {
				r.sample("%s: dst.red = %s", k.name, pg.ch[0].str(8))
			}
		}
	}
	r.atLeast("same-formula", 300)
	r.atLeast("alpha-formula", 150)
}

// firstDiff finds a smallest pair of differing parts.
func firstDiff(a, b V, d int) (V, V) {
	if a == nil || b == nil || a.op != b.op || a.aux != b.aux || len(a.args) != len(b.args) || d > 40 || a.op == "poly" {
		if a != nil && b != nil && a.op == "poly" && b.op == "poly" && len(a.poly) == len(b.poly) && d <= 40 {
			diff := -1
			n := 0
			for i := range a.poly {
				if a.poly[i].c != b.poly[i].c || monoKey(a.poly[i].m) != monoKey(b.poly[i].m) {
					diff = i
					n++
				}
			}
			if n == 1 && a.poly[diff].c == b.poly[diff].c && len(a.poly[diff].m) == len(b.poly[diff].m) {
				for j := range a.poly[diff].m {
					if a.poly[diff].m[j] != b.poly[diff].m[j] {
						return firstDiff(a.poly[diff].m[j], b.poly[diff].m[j], d+1)
					}
				}
			}
		}
		return a, b
	}
	diff := -1
	for i := range a.args {
		if a.args[i] != b.args[i] {
			if diff >= 0 {
				return a, b
			}
			diff = i
		}
	}
	if diff < 0 {
		return a, b
	}
	return firstDiff(a.args[diff], b.args[diff], d+1)
}

var _ = strings.Contains
