package main

import (
	"fmt"
	"go/types"
	"strings"
)

// kernel formats: source and destination pixel layout
func (k *kernel) format() (src, dst string) {
	m := formatRe.FindStringSubmatch(k.name)
	if m == nil {
		return "", ""
	}
	if m[2] == "Fallback" {
		return "any", "any"
	}
	return strings.TrimSuffix(m[2], "To"), m[3]
}

// sample16 is the 16-bit sample of a leaf in kernels computing in 16 bits.
func (k *kernel) unpremul(c, a V) V {
	e := k.e
	u32 := types.Typ[types.Uint32]
	full := e.int(0xffff, 32)
	q := e.div("u32"[:1], e.mul(c, full, 32), a, 32, u32)
	return e.ite(e.eqInt(a, e.int(0, 32), 32), e.int(0, 32), e.ite(e.lt("u", a, full, 32), q, c))
}

func dumpC19(ctx *Ctx) {
	ks := kernels(ctx)
	for _, k := range ks {
		gs := k.groups()
		if len(gs) == 0 {
			fmt.Println(k.name, "none")
			continue
		}
		x, how := k.canon(gs[0].ch[0])
		a, _ := k.canon(gs[0].ch[3])
		g, _ := k.canon(gs[0].guard[3])
		fmt.Println(k.mode, k.name, len(gs), how, x.id, a.id, g.id)
	}
}

// canon rewrites an expression so that every format speaks of the same straight 16-bit samples.
func (k *kernel) canon(v V) (V, string) {
	if v == nil {
		return k.e.mk("none", ""), ""
	}
	e := k.e
	s, d := k.format()
	samp := map[string]V{}
	name := []string{"r", "g", "b", "a"}
	for _, im := range []string{"S", "D"} {
		for _, c := range name {
			n := e.mk("param", im+c)
			e.leafT[n] = types.Typ[types.Uint8]
			samp[im+c] = n
		}
	}
	k16 := func(n V) V { return e.scale(n, 257, 32) }
	// straight colour of premultiplied formats
	strip := map[V]V{}
	anyNode(v, func(n V) bool {
		img, ch, ok := k.leaf(n)
		if !ok || ch == 3 || img == 3 {
			return false
		}
		im, f := "S", s
		if img == 1 {
			im, f = "D", d
		}
		al := k.moved(n, ch, 3)
		switch {
		case k.kind == "fallback":
			strip[k.unpremul(n, al)] = k16(samp[im+name[ch]])
		case f == "RGBA":
			strip[k.unpremul(k16(n), k16(al))] = k16(samp[im+name[ch]])
		case f == "NRGBA":
			strip[n] = samp[im+name[ch]]
		}
		return false
	})
	r := e.rebuild(v, func(n V) V {
		if x := strip[n]; x != nil {
			return x
		}
		return nil
	})
	r = e.rebuild(r, func(n V) V {
		if img, ch, ok := k.leaf(n); ok && ch == 3 && img != 3 {
			im := "S"
			if img == 1 {
				im = "D"
			}
			if k.kind == "fallback" {
				return k16(samp[im+"a"])
			}
			return samp[im+"a"]
		}
		if k.kind == "pix" && n == k.args[2] {
			x := e.mk("param", "alpha")
			e.leafT[x] = types.Typ[types.Uint8]
			return x
		}
		return nil
	})
	how := ""
	for {
		if r.op == "trunc" {
			how += "t" + r.aux
			r = r.args[0]
			continue
		}
		if r.op == "div" {
			how += "/" + r.args[1].str(1)
			if r.args[1].op == "poly" {
				k.lastDiv = r.args[1]
			}
			r = r.args[0]
			continue
		}
		break
	}
	return r, how
}

// to16 rewrites an expression over 8-bit samples into the one a 16-bit kernel
// computes: samples and full-scale constants are multiplied by 257, products
// divided by 255 become products divided by 65535. deg is the number of
// full-scale factors the value stands for.
type to16 struct {
	e    *VEval
	memo map[V]V
	deg  map[V]int
	fail string
}

func (t *to16) isSample(v V) bool {
	return v.op == "param" && v.aux == "alpha" || v.op == "param" && len(v.aux) == 2 && (v.aux[0] == 'S' || v.aux[0] == 'D')
}

// degree of an atom; -1 when any (constants)
func (t *to16) degree(v V) int {
	if d, ok := t.deg[v]; ok {
		return d
	}
	t.deg[v] = 1
	d := 1
	switch v.op {
	case "int":
		d = -1
		if v.k != 0 && v.k%255 == 0 {
			d = 1
		}
	case "poly":
		d = 0
		for _, m := range v.poly {
			s := 0
			for _, a := range m.m {
				s += max(t.degree(a), 0)
			}
			d = max(d, s)
		}
	case "ite":
		d = max(t.degree(v.args[1]), t.degree(v.args[2]))
	case "min", "max":
		d = max(t.degree(v.args[0]), t.degree(v.args[1]))
	case "div":
		if v.args[1].op == "int" && (v.args[1].k == 1<<23 || v.args[1].k == 1<<22) {
			if q := t.by(v.args[0], 32897); q != nil {
				d = t.degree(q) - 1
				break
			}
		}
		if v.args[1].op == "int" {
			d = t.degree(v.args[0])
			if v.args[1].k%255 == 0 {
				d--
			}
			break
		}
		d = t.degree(v.args[0]) - t.degree(v.args[1])
	}
	t.deg[v] = d
	return d
}

// by divides a polynomial by a constant, exactly, reading wrapped
// coefficients as small multiples of either sign.
func (t *to16) by(v V, k int64) V {
	var out []vterm
	for _, m := range v.terms() {
		c := m.c
		if v.bits == 32 && c >= 1<<31 {
			c -= 1 << 32
		}
		if c%k != 0 {
			return nil
		}
		out = append(out, vterm{c / k, m.m})
	}
	return t.e.fromTerms(out, 32)
}

func pow257(n int) int64 {
	r := int64(1)
	for i := 0; i < n; i++ {
		r *= 257
	}
	return r
}

// constant scales a constant of the 8-bit formula: full scale, half and
// quarter (with the off-by-one variants in use) become those of 16 bits.
func (t *to16) constant(c int64, deg int, alone bool) int64 {
	if deg == 1 && alone {
		switch c {
		case 64:
			return 0x4000
		case 127, 128, 129:
			return c - 128 + 0x8000
		}
		q := (c + 128) / 255
		if c < 0 {
			q = (c - 128) / 255
		}
		if r := c - 255*q; q != 0 && r >= -1 && r <= 1 {
			return 65535*q + r
		}
	}
	return c * pow257(deg)
}

func (t *to16) rw(v V, k int) V {
	e := t.e
	switch v.op {
	case "int", "poly":
		var acc V = e.int(0, 32)
		for _, m := range v.terms() {
			c := m.c
			if v.bits == 32 && c >= 1<<31 {
				c -= 1 << 32
			}
			s := 0
			p := e.int(1, 32)
			for _, a := range m.m {
				da := max(t.degree(a), 0)
				s += da
				p = e.mul(p, t.rw(a, da), 32)
			}
			if s > k {
				t.fail = "degree"
				return v
			}
			acc = e.add(acc, e.mul(p, e.int(t.constant(c, k-s, len(m.m) == 0), 32), 32), 32)
		}
		return acc
	}
	if t.isSample(v) {
		r := e.scale(v, 257, 32)
		return r
	}
	if r, ok := t.memo[v]; ok {
		return r
	}
	r := v
	switch v.op {
	case "ite":
		r = e.ite(t.cond(v.args[0]), t.rw(v.args[1], k), t.rw(v.args[2], k))
	case "min", "max":
		r = e.minmax(v.op, v.aux, t.rw(v.args[0], k), t.rw(v.args[1], k))
	case "div":
		u32 := types.Typ[types.Uint32]
		if v.args[1].op == "int" && v.args[1].k == 1<<23 {
			if q := t.by(v.args[0], 32897); q != nil {
				r = e.div("u", t.rw(q, k+1), e.int(65535, 32), 32, u32)
				break
			}
		}
		if v.args[1].op == "int" && v.args[1].k == 1<<22 {
			if q := t.by(v.args[0], 32897); q != nil {
				r = e.div("u", t.rw(q, k+1), e.int(32768, 32), 32, u32)
				break
			}
		}
		if v.args[1].op == "int" {
			if v.args[1].k%255 == 0 {
				r = e.div(strings.TrimRight(v.aux, "0123456789"), t.rw(v.args[0], k+1), e.int(v.args[1].k*257, 32), 32, u32)
			} else {
				r = e.div(strings.TrimRight(v.aux, "0123456789"), t.rw(v.args[0], k), v.args[1], 32, u32)
			}
			break
		}
		d := t.degree(v.args[1])
		r = e.div(strings.TrimRight(v.aux, "0123456789"), t.rw(v.args[0], k+d), t.rw(v.args[1], d), 32, u32)
	default:
		t.fail = v.op
	}
	t.memo[v] = r
	return r
}

// linear: a sum of samples and constants
func (t *to16) linear(v V) bool {
	for _, m := range v.terms() {
		if len(m.m) > 1 || len(m.m) == 1 && !t.isSample(m.m[0]) {
			return false
		}
	}
	return true
}

func (t *to16) cond(c V) V {
	e := t.e
	switch c.op {
	case "not":
		return e.not(t.cond(c.args[0]))
	case "and", "or":
		var xs []V
		for _, a := range c.args {
			xs = append(xs, t.cond(a))
		}
		if c.op == "and" {
			return e.and(xs...)
		}
		return e.or(xs...)
	case "eq0":
		if a := c.args[0]; strings.HasPrefix(a.op, "comm") && len(a.args) == 2 && (a.args[0].op == "int" || a.args[1].op == "int") {
			n, x := a.args[0], a.args[1]
			if x.op == "int" {
				n, x = x, n
			}
			return e.eqInt(e.mk(a.op, a.aux, n, t.rw(x, max(1, t.degree(x)))), e.int(0, 32), 32)
		}
		return e.eqInt(t.rw(c.args[0], max(1, t.degree(c.args[0]))), e.int(0, 32), 32)
	case "lt":
		if t.linear(c.args[0]) && t.linear(c.args[1]) {
			// over samples alone the comparison scales exactly
			return e.lt(c.aux[:1], e.scale(c.args[0], 257, 32), e.scale(c.args[1], 257, 32), 32)
		}
		k := max(1, max(t.degree(c.args[0]), t.degree(c.args[1])))
		return e.lt(c.aux[:1], t.rw(c.args[0], k), t.rw(c.args[1], k), 32)
	}
	t.fail = "cond " + c.op
	return c
}

// core finds the factors of the three weights of a blended colour.
func (k *kernel) core(x, alpha V) (b, s, d V, ok bool) {
	e := k.e
	// alpha = a1 + a2 + a3
	ts := alpha.terms()
	if len(ts) != 3 {
		return
	}
	var a [3]V
	for _, t := range ts {
		if t.c != 1 || len(t.m) != 1 {
			return
		}
	}
	for i := range a {
		a[i] = ts[i].m[0]
	}
	var co [3]V
	rest := x
	for i := range a {
		q, r, okc := e.coefOf(rest, a[i])
		if !okc {
			return
		}
		co[i] = e.fromTerms(q.terms(), 32)
		rest = r
	}
	if z, okz := rest.intConst(); !okz || z != 0 {
		return
	}
	// which weight is which: source, destination, both
	si, di := -1, -1
	for i := range co {
		hasS := anyNode(co[i], func(n V) bool { return n.op == "param" && n.aux == "Sr" })
		hasD := anyNode(co[i], func(n V) bool { return n.op == "param" && n.aux == "Dr" })
		if anyNode(a[i], func(n V) bool { return n.op == "param" && n.aux == "Da" }) && hasD && !hasS && di < 0 {
			di = i
		}
		_ = hasS
	}
	for i := range co {
		if i != di && anyNode(co[i], func(n V) bool { return n.op == "param" && n.aux == "Sr" }) && !anyNode(co[i], func(n V) bool { return n.op == "param" && n.aux == "Dr" }) {
			si = i
		}
	}
	_ = si
	return co[0], co[1], co[2], true
}

func dumpPD(ctx *Ctx, mode string) {
	for _, k := range kernels(ctx) {
		if k.mode != mode {
			continue
		}
		gs := k.groups()
		for _, pg := range gs {
			for _, c := range []int{0, 3} {
				if pg.ch[c] == nil {
					continue
				}
				x, how := k.canon(pg.ch[c])
				fmt.Println(k.name, c, how, x.str(9))
			}
		}
	}
}

func dumpCore(ctx *Ctx) {
	ks := kernels(ctx)
	for _, k := range ks {
		if !strings.HasSuffix(k.name, "NRGBAToNRGBA") || k.kind != "pix" || strings.Contains(k.name, "ToNRGBAToN") {
			continue
		}
		gs := k.groups()
		if len(gs) == 0 {
			continue
		}
		x, _ := k.canon(gs[0].ch[0])
		a := k.lastDiv
		if a == nil {
			fmt.Println(k.name, "no divisor")
			continue
		}
		var o *kernel
		for _, l := range ks {
			if l.mode == k.mode && strings.HasSuffix(l.name, "NRGBAToRGBA") {
				o = l
			}
		}
		og := o.groups()
		ox, _ := o.canon(og[0].ch[0])
		oa, _ := o.canon(og[0].ch[3])
		t := &to16{e: k.e, memo: map[V]V{}, deg: map[V]int{}}
		c1, c2, c3, ok := k.core(x, a)
		o1, o2, o3, ok2 := o.core(ox, oa)
		if !ok || !ok2 {
			fmt.Println(k.name, "no core", ok, ok2)
			continue
		}
		w := []V{c1, c2, c3}
		z := []V{o1, o2, o3}
		for i := range w {
			n := t.rw(w[i], 1)
			fmt.Print(k.name, " ", i, " ", n == z[i], " ", t.fail, "; ")
			if n != z[i] {
				fmt.Println()
				fmt.Println("   8:", w[i].str(8))
				fmt.Println("  to:", n.str(8))
				fmt.Println("  16:", z[i].str(8))
			}
			t.fail = ""
		}
		fmt.Println()
	}
}
