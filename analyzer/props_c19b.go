package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	checks["C19"] = Check{run: checkFormats, level: "other",
		expl:  "Value numbering of the drawing kernels (as for C18), then rewriting of each kernel's expressions into one vocabulary: straight 16-bit samples of source and destination and the mask alpha. The un-premultiplying gates of premultiplied formats, the 8-bit to 16-bit expansion and the final division and truncation of the destination format are recognised as whole nodes of the graph and removed. Obligations: the three 16-bit kernels and the generic one of a blend mode have the same numerator, alpha and pixel condition node; the final division is by the result alpha for straight destinations and by full scale for premultiplied ones; the 8-bit kernel's blend terms become the 16-bit ones when full-scale, half-scale and rounding constants are exchanged. For compositing operators the kernels of all sources and destinations have the same premultiplied channel expressions, and straight destinations store them divided by the result alpha.",
		assum: []string{"8-bit kernels of Add, Overlay, SoftLight and the modes that mix channels are compared for their alpha and weights only; rounding differences between widths are not bounded"}}
}

// conjuncts of a condition
func conj(v V) []V {
	if v.op == "and" {
		return v.args
	}
	return []V{v}
}

// pixelCond drops the conjuncts that do not look at samples.
func (k *kernel) pixelCond(g V) V {
	var out []V
	for _, c := range conj(g) {
		if anyNode(c, func(n V) bool { _, _, ok := k.leaf(n); return ok }) {
			out = append(out, c)
		}
	}
	return k.e.and(out...)
}

// maskAlpha finds the effective mask alpha of a generic kernel.
func (k *kernel) maskAlpha(v V) V {
	var m V
	anyNode(v, func(n V) bool {
		if n.op != "ite" || m != nil {
			return m != nil
		}
		hit := false
		for _, a := range n.args[1:] {
			if img, ch, ok := k.leaf(a); ok && img == 3 && ch == 3 {
				hit = true
			}
		}
		for _, a := range n.args[1:] {
			if c, ok := a.intConst(); hit && ok && c == 0xffff {
				m = n
			}
		}
		return m != nil
	})
	return m
}

func (k *kernel) isPD() bool {
	switch k.mode {
	case "Clear", "Copy", "Dest":
		return true
	}
	return strings.HasPrefix(k.mode, "Src") || strings.HasPrefix(k.mode, "Dest") || k.mode == "XOR"
}

type canonKernel struct {
	k      *kernel
	x      [3]V
	whole  [3]V
	a      V
	cond   V
	how    string
	div    V
	pos    string
	ok     bool
	reason string
}

func canonOf(k *kernel) *canonKernel {
	c := &canonKernel{k: k}
	gs := k.groups()
	if len(gs) != 1 {
		c.reason = fmt.Sprintf("%d pixel stores", len(gs))
		return c
	}
	pg := gs[0]
	c.pos = pg.pos
	if pg.ch[3] == nil || pg.ch[0] == nil || pg.ch[1] == nil || pg.ch[2] == nil {
		c.reason = "not all channels stored"
		return c
	}
	e := k.e
	pre := func(v V) V {
		if k.kind != "fallback" {
			return v
		}
		m := k.maskAlpha(v)
		if m == nil {
			return v
		}
		al := e.mk("param", "alpha")
		e.leafT[al] = types.Typ[types.Uint8]
		return e.subst(v, m, e.scale(al, 257, 32))
	}
	for i := 0; i < 3; i++ {
		k.lastDiv = nil
		c.whole[i] = pg.ch[i]
		c.x[i], c.how = k.canon(pre(pg.ch[i]))
		if i == 0 {
			c.div = k.lastDiv
		} else if k.lastDiv != c.div {
			c.div = e.mk("opaque", "different divisors")
		}
	}
	c.a, _ = k.canon(pre(pg.ch[3]))
	c.cond, _ = k.canon(pre(k.pixelCond(pg.guard[3])))
	c.ok = true
	return c
}

func modeKernels(ctx *Ctx) (modes []string, by map[string]map[string]*kernel) {
	by = map[string]map[string]*kernel{}
	for _, k := range allKernels(ctx) {
		m := formatRe.FindStringSubmatch(k.name)
		if m == nil {
			continue
		}
		f := m[2] + m[3]
		if by[k.mode] == nil {
			by[k.mode] = map[string]*kernel{}
			modes = append(modes, k.mode)
		}
		by[k.mode][f] = k
	}
	sort.Strings(modes)
	return
}

func checkFormats(ctx *Ctx, r *Report) {
	modes, by := modeKernels(ctx)
	chn := []string{"red", "green", "blue"}
	for _, m := range modes {
		ks := by[m]
		ref := ks["RGBAToRGBA"]
		if ref == nil {
			r.undecided("same-formula", m, "", "%s has no RGBA to RGBA kernel", m)
			continue
		}
		if ref.isPD() {
			checkPD(ctx, r, m, ks)
			continue
		}
		r.count("blend modes", 1)
		rc := canonOf(ref)
		r.fn(ref.name)
		if !rc.ok {
			r.undecided("same-formula", ref.name, "", "%s: %s", ref.name, rc.reason)
			continue
		}
		e := ref.e
		plain := strings.HasSuffix(rc.how, "/65535") // final division found
		for _, f := range []string{"NRGBAToRGBA", "RGBAToNRGBA", "Fallback"} {
			k := ks[f]
			if k == nil {
				r.undecided("same-formula", m+"/"+f, "", "%s has no %s kernel", m, f)
				continue
			}
			r.fn(k.name)
			c := canonOf(k)
			if !c.ok {
				r.undecided("same-formula", k.name, "", "%s: %s", k.name, c.reason)
				continue
			}
			r.check(e.bare(c.a, 16) == e.bare(rc.a, 16), "same-alpha", k.name, c.pos, "the alpha of %s is %s, that of %s %s", k.name, c.a.str(5), ref.name, rc.a.str(5))
			if f != "Fallback" {
				r.check(c.cond == rc.cond, "same-pixels", k.name, c.pos, "%s stores a pixel under another condition than %s: %s and %s", k.name, ref.name, c.cond.str(5), rc.cond.str(5))
			}
			if !plain && f != "NRGBAToRGBA" {
				r.count("kernels whose final step is not a plain division", 1)
				continue
			}
			if plain {
				if f == "RGBAToNRGBA" {
					r.check(c.div == rc.a, "final-division", k.name, c.pos, "%s does not divide the colour by the alpha it stores", k.name)
				} else {
					r.check(strings.HasSuffix(c.how, "/65535"), "final-division", k.name, c.pos, "%s does not divide the colour by full scale", k.name)
				}
			}
			for i := 0; i < 3; i++ {
				r.check(c.x[i] == rc.x[i], "same-formula", k.name+"/"+chn[i], c.pos, "%s computes another formula for %s than %s: %s, not %s", k.name, chn[i], ref.name, diffStr(c.x[i], rc.x[i]), diffStr(rc.x[i], c.x[i]))
			}
		}
		k := ks["NRGBAToNRGBA"]
		if k == nil {
			continue
		}
		r.fn(k.name)
		c := canonOf(k)
		if !c.ok {
			r.undecided("same-formula", k.name, "", "%s: %s", k.name, c.reason)
			continue
		}
		t := &to16{e: e, memo: map[V]V{}, deg: map[V]int{}}
		if c.div != nil {
			if na := t.rw(c.div, 1); t.fail == "" {
				r.check(na == rc.a, "same-alpha-8bit", k.name, c.pos, "the alpha of %s is %s, that of %s %s", k.name, c.a.str(5), ref.name, rc.a.str(5))
			}
		}
		if !plain {
			r.count("kernels whose final step is not a plain division", 1)
			continue
		}
		if c.div == nil {
			r.bad("final-division", k.name, c.pos, "%s does not divide the colour by the alpha", k.name)
			continue
		}
		r.check(e.bare(c.div, 8) == e.bare(c.a, 8), "final-division", k.name, c.pos, "%s divides the colour by %s, the alpha it stores is %s", k.name, c.div.str(6), c.a.str(6))
		for i := 0; i < 3; i++ {
			w, ok1 := k.weights(c.x[i], c.div)
			z, ok2 := k.weights(rc.x[i], rc.a)
			if !ok1 || !ok2 || len(w) != len(z) {
				r.undecided("same-formula-8bit", k.name+"/"+chn[i], c.pos, "%s: the weights of %s were not recognised", k.name, chn[i])
				continue
			}
			// weights correspond through their 16-bit form
			for a, f := range w {
				t := &to16{e: e, memo: map[V]V{}, deg: map[V]int{}}
				wa := t.rw(a, 1)
				g := z[wa]
				if t.fail != "" || g == nil {
					r.undecided("same-formula-8bit", k.name+"/"+chn[i], c.pos, "%s: the weight %s has no counterpart", k.name, a.str(4))
					continue
				}
				t = &to16{e: e, memo: map[V]V{}, deg: map[V]int{}}
				n := t.rw(f, 1)
				if t.fail != "" {
					r.count("8-bit terms not comparable", 1)
					continue
				}
				r.check(n == g, "same-formula-8bit", k.name+"/"+chn[i], c.pos, "%s computes another term for %s than %s: %s, not %s", k.name, chn[i], ref.name, diffStr(n, g), diffStr(g, n))
			}
		}
	}
	r.atLeast("same-formula", 120)
	r.atLeast("same-operator", 150)
}

// weights splits a numerator into the factors of the terms of the alpha.
func (k *kernel) weights(x, alpha V) (map[V]V, bool) {
	e := k.e
	out := map[V]V{}
	rest := x
	for _, t := range alpha.terms() {
		if t.c != 1 || len(t.m) != 1 {
			return nil, false
		}
		q, r, ok := e.coefOf(rest, t.m[0])
		if !ok {
			return nil, false
		}
		out[t.m[0]] = e.fromTerms(q.terms(), 32)
		rest = r
	}
	z, ok := rest.intConst()
	return out, ok && z == 0
}

// diffStr shows the first subexpression of a that differs from b.
func diffStr(a, b V) string {
	for {
		if a == nil || b == nil {
			break
		}
		if a.op != b.op || a.aux != b.aux || len(a.args) != len(b.args) || a.op == "poly" {
			break
		}
		n := -1
		for i := range a.args {
			if a.args[i] != b.args[i] {
				if n >= 0 {
					n = -2
					break
				}
				n = i
			}
		}
		if n < 0 {
			break
		}
		a, b = a.args[n], b.args[n]
	}
	if a == nil {
		return "nothing"
	}
	return a.str(5)
}

// ---- compositing operators ----

type pdKernel struct {
	k     *kernel
	ch    [4]V // stored value, samples renamed, store conversion still present
	pos   string
	cond  V
	ok    bool
	why   string
	alpha bool
}

func (k *kernel) canonPD() *pdKernel {
	e := k.e
	out := &pdKernel{k: k}
	s, d := k.format()
	P := func(n string) V {
		v := e.mk("param", n)
		e.leafT[v] = types.Typ[types.Uint8]
		return v
	}
	S16 := func(n string) V { return e.scale(P(n), 257, 32) }
	name := []string{"r", "g", "b", "a"}
	u32 := types.Typ[types.Uint32]
	full := e.int(0xffff, 32)
	out.alpha = s == "Alpha"

	gs := k.groups()
	if len(gs) == 0 {
		out.why = "stores nothing"
		return out
	}
	if len(gs) != 1 {
		out.why = fmt.Sprintf("%d pixel stores", len(gs))
		return out
	}
	pg := gs[0]
	out.pos = pg.pos
	all := []V{}
	for c := 0; c < 4; c++ {
		for _, a := range pg.alts[c] {
			all = append(all, a.val, a.guard)
		}
	}
	// nodes to rename, whole nodes first
	ren := map[V]V{}
	var al V
	if k.kind == "pix" {
		al = k.args[2]
	}
	if k.kind == "fallback" {
		for _, v := range all {
			if al == nil {
				al = k.maskAlpha(v)
			}
		}
	}
	leafs := map[V][2]int{}
	for _, v := range all {
		anyNode(v, func(n V) bool {
			if img, ch, ok := k.leaf(n); ok && img != 3 {
				leafs[n] = [2]int{img, ch}
			}
			return false
		})
	}
	premul := func(c16, a16 V) V {
		return e.ite(e.eqInt(a16, e.int(0, 32), 32), e.int(0, 32), e.ite(e.lt("u", a16, full, 32), e.div("u", e.mul(c16, a16, 32), full, 32, u32), c16))
	}
	wide := func(n V) V {
		if k.kind == "pix" || k.kind == "uniform" && leafs[n][0] == 1 {
			return e.scale(n, 257, 32)
		}
		return n
	}
	for n, l := range leafs {
		img, ch := l[0], l[1]
		if img == 1 {
			switch {
			case ch == 3:
				ren[n] = P("Da")
				if k.kind == "fallback" {
					ren[n] = S16("Da")
				}
			case d == "NRGBA":
				ren[premul(wide(n), wide(k.moved(n, ch, 3)))] = S16("D" + name[ch])
			case k.kind == "fallback":
				ren[n] = S16("D" + name[ch])
			default:
				ren[n] = P("D" + name[ch])
			}
			continue
		}
		switch {
		case k.kind == "uniform":
			ren[n] = S16("S" + name[ch])
		case s == "Alpha":
			if al != nil {
				ren[e.div("u", e.mul(wide(n), al, 32), full, 32, u32)] = S16("Sa")
			}
		case s == "NRGBA" && ch < 3:
			if al != nil {
				a16 := e.div("u", e.mul(wide(k.moved(n, ch, 3)), al, 32), full, 32, u32)
				ren[premul(wide(n), a16)] = S16("S" + name[ch])
				ren[a16] = S16("Sa")
			}
		default:
			if al != nil {
				ren[e.div("u", e.mul(wide(n), al, 32), full, 32, u32)] = S16("S" + name[ch])
			}
		}
	}
	rw := func(v V) V {
		return e.rebuild(v, func(n V) V {
			if x := ren[n]; x != nil {
				return x
			}
			return nil
		})
	}
	// common conjuncts of the guards
	var common map[V]bool
	for c := 0; c < 4; c++ {
		for _, a := range pg.alts[c] {
			m := map[V]bool{}
			for _, x := range conj(a.guard) {
				if common == nil || common[x] {
					m[x] = true
				}
			}
			common = m
		}
	}
	for c := 0; c < 4; c++ {
		type gv struct{ g, v V }
		var alts []gv
		atoms := map[V]bool{}
		for _, a := range pg.alts[c] {
			var rest []V
			for _, x := range conj(a.guard) {
				if !common[x] {
					x = rw(x)
					rest = append(rest, x)
					for x.op == "not" {
						x = x.args[0]
					}
					atoms[x] = true
				}
			}
			alts = append(alts, gv{e.and(rest...), rw(a.val)})
		}
		var as []V
		for a := range atoms {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		if len(as) > 6 {
			out.why = "too many store conditions"
			return out
		}
		var build func(i int, l []gv, yes []V) V
		build = func(i int, l []gv, yes []V) V {
			if i == len(as) {
				v := e.mk("opaque", "unset")
				for _, a := range l {
					if a.g.isTrue() {
						v = a.v
					}
				}
				return v
			}
			var x [2]V
			for b := 0; b < 2; b++ {
				ny := yes
				if b == 1 {
					if e.excluded(as[i], yes) {
						continue
					}
					ny = append(append([]V{}, yes...), as[i])
				}
				var nl []gv
				for _, a := range l {
					nl = append(nl, gv{e.subst(a.g, as[i], e.boolean(b == 1)), e.subst(a.v, as[i], e.boolean(b == 1))})
				}
				x[b] = build(i+1, nl, ny)
			}
			if x[1] == nil || x[0] == x[1] {
				return x[0]
			}
			return e.mk("case", "", as[i], x[1], x[0])
		}
		out.ch[c] = build(0, alts, nil)
	}
	var cs []V
	for c := range common {
		if anyNode(c, func(n V) bool { _, ok := leafs[n]; return ok }) {
			cs = append(cs, rw(c))
		}
	}
	out.cond = e.and(cs...)
	out.ok = true
	return out
}

func checkPD(ctx *Ctx, r *Report, m string, ks map[string]*kernel) {
	ref := ks["RGBAToRGBA"]
	rc := ref.canonPD()
	r.count("operators", 1)
	r.fn(ref.name)
	if !rc.ok {
		if rc.why != "stores nothing" {
			r.undecided("same-operator", ref.name, "", "%s: %s", ref.name, rc.why)
		}
		for _, k := range ks {
			if k != ref && (len(k.groups()) == 0) != (len(ref.groups()) == 0) {
				r.bad("same-operator", k.name, "", "%s stores pixels, %s does not", k.name, ref.name)
			}
		}
		return
	}
	e := ref.e
	name := []string{"red", "green", "blue", "alpha"}
	var base [4]V
	for c := 0; c < 4; c++ {
		v := rc.ch[c]
		// 8-bit store
		if v.op == "trunc" {
			v = v.args[0]
		}
		if v.op == "div" && v.args[1].op == "int" && v.args[1].k == 256 {
			v = v.args[0]
		} else if i, ok := v.intConst(); !ok || i != 0 {
			r.undecided("same-operator", ref.name+"/"+name[c], rc.pos, "%s stores %s in %s", ref.name, v.str(4), name[c])
			return
		}
		base[c] = v
	}
	var fs []string
	for f := range ks {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	u32 := types.Typ[types.Uint32]
	full := e.int(0xffff, 32)
	for _, f := range fs {
		k := ks[f]
		if k == ref {
			continue
		}
		r.fn(k.name)
		c := k.canonPD()
		if !c.ok {
			if c.why == "stores nothing" {
				r.bad("same-operator", k.name, "", "%s stores no pixel, %s does", k.name, ref.name)
			} else {
				r.undecided("same-operator", k.name, "", "%s: %s", k.name, c.why)
			}
			continue
		}
		want := base
		if c.alpha {
			for i := range want {
				for _, n := range []string{"Sr", "Sg", "Sb"} {
					p := e.mk("param", n)
					want[i] = e.subst(want[i], p, e.int(0, 32))
				}
			}
		}
		_, d := k.format()
		b8 := func(v V) V { return e.narrow(e.div("u", v, e.int(256, 32), 32, u32), 8) }
		for i := 0; i < 4; i++ {
			w := want[i]
			switch {
			case k.kind == "fallback":
				w = e.narrow(w, 16)
			case d == "RGBA" || i == 3:
				w = b8(w)
			default:
				a := want[3]
				is0, isF := e.eqInt(a, e.int(0, 32), 32), e.eqInt(a, full, 32)
				q := b8(e.div("u", e.mul(w, full, 32), a, 32, u32))
				z := e.int(0, 8)
				o := b8(w)
				if is0.isTrue() {
					w = z
					break
				}
				if isF.isTrue() {
					w = o
					break
				}
				switch {
				case is0.isFalse() && isF.isFalse():
					w = q
				case is0.isFalse():
					w = caseOf(e, isF, o, q)
				case isF.isFalse():
					w = caseOf(e, is0, z, q)
				case is0.id < isF.id:
					w = caseOf(e, is0, z, caseOf(e, isF, o, q))
				default:
					w = caseOf(e, isF, o, caseOf(e, is0, z, q))
				}
			}
			bits := 8
			if k.kind == "fallback" {
				bits = 16
			}
			w = e.bare(w, bits)
			got := e.bare(c.ch[i], bits)
			r.check(got == w, "same-operator", k.name+"/"+name[i], c.pos, "%s computes another value for %s than %s: %s, not %s", k.name, name[i], ref.name, diffStr(got, w), diffStr(w, got))
		}
	}
}

func caseOf(e *VEval, c, a, b V) V {
	if a == b {
		return a
	}
	return e.mk("case", "", c, a, b)
}

// bare drops conversions and reduces the value modulo its width.
func (e *VEval) bare(v V, bits int) V {
	if v.op == "case" {
		return caseOf(e, v.args[0], e.bare(v.args[1], bits), e.bare(v.args[2], bits))
	}
	var drop func(n V) V
	drop = func(n V) V {
		if n.op == "trunc" {
			return e.rebuild(n.args[0], drop)
		}
		return nil
	}
	v = e.rebuild(v, drop)
	return e.fromTerms(v.terms(), bits)
}

// excluded reports whether a condition contradicts one of those assumed:
// the same quantity cannot equal two different constants.
func (e *VEval) excluded(a V, yes []V) bool {
	for _, y := range yes {
		if a.op == "eq0" && y.op == "eq0" && a.aux == y.aux {
			d := e.sub(a.args[0], y.args[0], 32)
			if k, ok := d.intConst(); ok && k != 0 {
				return true
			}
		}
	}
	return false
}

// narrow is the conversion of a 32-bit value to a smaller unsigned type.
func (e *VEval) narrow(v V, bits int) V {
	return e.convert(v, types.Typ[types.Uint32], bitsType(bits))
}
