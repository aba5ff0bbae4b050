package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Value graph: a hash-consed normal form of what SSA values are computed
// from (gated SSA value numbering). Two computations with the same node are
// the same function of the same inputs; integer ring operations are kept as
// polynomials so that reordering and redistribution do not matter.

type V = *VN

type VN struct {
	id   int
	op   string
	aux  string
	args []V
	poly []vterm // op "poly"
	bits int     // op "poly"/"int"
	k    int64   // op "int"
	loop *VLoop  // op "iter"
	ref  any     // op specific (ssa value, types.Type)
}

type vterm struct {
	c int64
	m []V
}

type VG struct {
	tab   map[string]V
	n     int
	leafT map[V]types.Type // type of opaque integer leaves, for ranges
	// rng bounds a value (the mathematical value of a polynomial)
	rng func(v V, signed bool) (lo, hi *big.Int, ok bool)
}

func newVG() *VG { return &VG{tab: map[string]V{}, leafT: map[V]types.Type{}} }

func (g *VG) mk(op, aux string, args ...V) V {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		if a == nil {
			sb.WriteByte('_')
			continue
		}
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if v, ok := g.tab[k]; ok {
		return v
	}
	g.n++
	v := &VN{id: g.n, op: op, aux: aux, args: args}
	g.tab[k] = v
	return v
}

func wrapTo(c int64, bits int) int64 {
	if bits >= 64 || bits <= 0 {
		return c
	}
	m := int64(1)<<uint(bits) - 1
	return c & m
}

func (g *VG) int(c int64, bits int) V {
	c = wrapTo(c, bits)
	v := g.mk("int", strconv.FormatInt(c, 10))
	v.k = c
	return v
}

func (g *VG) boolean(b bool) V {
	if b {
		return g.mk("true", "")
	}
	return g.mk("false", "")
}

func (v *VN) isTrue() bool  { return v != nil && v.op == "true" }
func (v *VN) isFalse() bool { return v != nil && v.op == "false" }

func (v *VN) intConst() (int64, bool) {
	if v != nil && v.op == "int" {
		return v.k, true
	}
	return 0, false
}

// terms views an integer node as a polynomial.
func (v *VN) terms() []vterm {
	switch v.op {
	case "int":
		if v.k == 0 {
			return nil
		}
		return []vterm{{v.k, nil}}
	case "poly":
		return v.poly
	}
	return []vterm{{1, []V{v}}}
}

func monoKey(m []V) string {
	var sb strings.Builder
	for _, a := range m {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte('.')
	}
	return sb.String()
}

func (g *VG) fromTerms(ts []vterm, bits int) V {
	acc := map[string]*vterm{}
	var keys []string
	for _, t := range ts {
		k := monoKey(t.m)
		if o, ok := acc[k]; ok {
			o.c += t.c
		} else {
			acc[k] = &vterm{t.c, t.m}
			keys = append(keys, k)
		}
	}
	var out []vterm
	for _, k := range keys {
		t := acc[k]
		t.c = wrapTo(t.c, bits)
		if t.c != 0 {
			out = append(out, *t)
		}
	}
	if len(out) == 0 {
		return g.int(0, bits)
	}
	sort.Slice(out, func(i, j int) bool { return lessMono(out[i].m, out[j].m) })
	if len(out) == 1 {
		if len(out[0].m) == 0 {
			return g.int(out[0].c, bits)
		}
		if out[0].c == 1 && len(out[0].m) == 1 {
			return out[0].m[0]
		}
	}
	var sb strings.Builder
	var args []V
	for _, t := range out {
		fmt.Fprintf(&sb, "%d*%s+", t.c, monoKey(t.m))
		args = append(args, t.m...)
	}
	b := bits
	if b > 64 || b <= 0 {
		b = 64
	}
	k := "poly|" + strconv.Itoa(b) + "|" + sb.String()
	if v, ok := g.tab[k]; ok {
		return v
	}
	g.n++
	v := &VN{id: g.n, op: "poly", aux: strconv.Itoa(b), args: args, poly: out, bits: b}
	g.tab[k] = v
	return v
}

func lessMono(a, b []V) bool {
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i].id < b[i].id
		}
	}
	return false
}

func (g *VG) add(a, b V, bits int) V {
	ta, tb := a.terms(), b.terms()
	return g.fromTerms(append(append([]vterm{}, ta...), tb...), bits)
}

func (g *VG) scale(a V, c int64, bits int) V {
	var out []vterm
	for _, t := range a.terms() {
		out = append(out, vterm{t.c * c, t.m})
	}
	return g.fromTerms(out, bits)
}

func (g *VG) sub(a, b V, bits int) V { return g.add(a, g.scale(b, -1, bits), bits) }

func (g *VG) mul(a, b V, bits int) V {
	ta, tb := a.terms(), b.terms()
	if len(ta)*len(tb) > 200 {
		x, y := a, b
		if x.id > y.id {
			x, y = y, x
		}
		return g.mk("mul", strconv.Itoa(bits), x, y)
	}
	var out []vterm
	for _, x := range ta {
		for _, y := range tb {
			m := append(append([]V{}, x.m...), y.m...)
			sort.Slice(m, func(i, j int) bool { return m[i].id < m[j].id })
			out = append(out, vterm{x.c * y.c, m})
		}
	}
	return g.fromTerms(out, bits)
}

// coefOf splits p into q*x + r with x not in r; ok is false when x occurs
// non-linearly or inside an atom.
func (g *VG) coefOf(p, x V) (q, r V, ok bool) {
	var tq, tr []vterm
	for _, t := range p.terms() {
		n := 0
		var rest []V
		for _, a := range t.m {
			if a == x {
				n++
			} else {
				if g.mentions(a, x) {
					return nil, nil, false
				}
				rest = append(rest, a)
			}
		}
		switch n {
		case 0:
			tr = append(tr, t)
		case 1:
			tq = append(tq, vterm{t.c, rest})
		default:
			return nil, nil, false
		}
	}
	return g.fromTerms(tq, 64), g.fromTerms(tr, 64), true
}

func (g *VG) mentions(v, x V) bool {
	seen := map[V]bool{}
	var rec func(V) bool
	rec = func(v V) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if v == x {
			return true
		}
		for _, a := range v.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

// anyNode reports whether some node under v satisfies f.
func anyNode(v V, f func(V) bool) bool {
	seen := map[V]bool{}
	var rec func(V) bool
	rec = func(v V) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if f(v) {
			return true
		}
		for _, a := range v.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

// negate of a boolean.
func (g *VG) not(a V) V {
	switch a.op {
	case "true":
		return g.boolean(false)
	case "false":
		return g.boolean(true)
	case "not":
		return a.args[0]
	case "and":
		var o []V
		for _, x := range a.args {
			o = append(o, g.not(x))
		}
		return g.or(o...)
	case "or":
		var o []V
		for _, x := range a.args {
			o = append(o, g.not(x))
		}
		return g.and(o...)
	}
	return g.mk("not", "", a)
}

func (g *VG) nary(op string, unit, zero bool, xs []V) V {
	set := map[V]bool{}
	var out []V
	var put func(x V)
	put = func(x V) {
		if x.op == op {
			for _, a := range x.args {
				put(a)
			}
			return
		}
		if x == g.boolean(unit) || set[x] {
			return
		}
		set[x] = true
		out = append(out, x)
	}
	for _, x := range xs {
		put(x)
	}
	for _, x := range out {
		if x == g.boolean(zero) || set[g.not(x)] {
			return g.boolean(zero)
		}
	}
	switch len(out) {
	case 0:
		return g.boolean(unit)
	case 1:
		return out[0]
	}
	// absorption: x op (x dual y) = x ; x op (not x dual y) = x op y
	dual := "or"
	if op == "or" {
		dual = "and"
	}
	for i, x := range out {
		if x.op != dual {
			continue
		}
		var keep []V
		absorbed, changed := false, false
		for _, a := range x.args {
			if set[a] {
				absorbed = true
				break
			}
			if set[g.not(a)] {
				changed = true
				continue
			}
			keep = append(keep, a)
		}
		if absorbed {
			rest := append(append([]V{}, out[:i]...), out[i+1:]...)
			return g.nary(op, unit, zero, rest)
		}
		if changed {
			rest := append(append([]V{}, out[:i]...), out[i+1:]...)
			var n V
			if dual == "or" {
				n = g.or(keep...)
			} else {
				n = g.and(keep...)
			}
			return g.nary(op, unit, zero, append(rest, n))
		}
	}
	// (a and b) or (a and not b) = a
	for i := 0; i < len(out); i++ {
		for j := i + 1; j < len(out); j++ {
			if m := g.resolve(dual, out[i], out[j]); m != nil {
				var rest []V
				for k, x := range out {
					if k != i && k != j {
						rest = append(rest, x)
					}
				}
				return g.nary(op, unit, zero, append(rest, m))
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return g.mk(op, "", out...)
}

func (g *VG) resolve(dual string, x, y V) V {
	parts := func(v V) []V {
		if v.op == dual {
			return v.args
		}
		return []V{v}
	}
	px, py := parts(x), parts(y)
	if len(px) != len(py) || len(px) < 2 {
		return nil
	}
	inY := map[V]bool{}
	for _, a := range py {
		inY[a] = true
	}
	var common []V
	var odd V
	for _, a := range px {
		if inY[a] {
			common = append(common, a)
		} else if odd == nil {
			odd = a
		} else {
			return nil
		}
	}
	if odd == nil || !inY[g.not(odd)] {
		return nil
	}
	if dual == "and" {
		return g.and(common...)
	}
	return g.or(common...)
}

func (g *VG) and(xs ...V) V { return g.nary("and", true, false, xs) }
func (g *VG) or(xs ...V) V  { return g.nary("or", false, true, xs) }

// eq of two values; ints by their difference.
func (g *VG) eqInt(a, b V, bits int) V {
	d := g.sub(a, b, bits)
	if k, ok := d.intConst(); ok {
		return g.boolean(k == 0)
	}
	if g.rng != nil && bits < 64 {
		if lo, hi, ok := g.rng(d, true); ok && lo.BitLen() <= bits && hi.BitLen() <= bits && lo.CmpAbs(new(big.Int).Lsh(big.NewInt(1), uint(bits))) < 0 {
			if lo.Sign() > 0 || hi.Sign() < 0 {
				return g.boolean(false)
			}
			if q, c, r, ok := g.common(d, bits); ok {
				if c%r != 0 {
					return g.boolean(false)
				}
				d = g.add(q, g.int(c/r, bits), bits)
			}
		}
	}
	if ts := d.terms(); ts[0].c < 0 || (bits < 64 && ts[0].c > wrapTo(-ts[0].c, bits)) {
		d = g.scale(d, -1, bits)
	}
	// the two conversions of a leaf cannot leave its range
	return g.mk("eq0", strconv.Itoa(bits), d)
}

func (g *VG) eqAny(a, b V) V {
	if a == b {
		return g.boolean(true)
	}
	if a.op == "iface" || a.op == "closure" || a.op == "alloc" || a.op == "fn" {
		if b.op == "nil" {
			return g.boolean(false)
		}
	}
	if b.op == "iface" || b.op == "closure" || b.op == "alloc" || b.op == "fn" {
		if a.op == "nil" {
			return g.boolean(false)
		}
	}
	if a.op == "str" && b.op == "str" {
		return g.boolean(a == b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return g.mk("eq", "", a, b)
}

// lt: sign "u", "i" (canonical sign test of the difference) or "f".
func (g *VG) lt(sign string, a, b V, bits int) V {
	ka, oka := a.intConst()
	kb, okb := b.intConst()
	switch sign {
	case "i":
		d := g.sub(a, b, 64)
		if k, ok := d.intConst(); ok {
			return g.boolean(k < 0)
		}
		return g.neg(d)
	case "u":
		if oka && okb {
			return g.boolean(uint64(ka) < uint64(kb))
		}
		if a == b || (okb && kb == 0) {
			return g.boolean(false)
		}
		if okb && kb == 1 {
			return g.eqInt(a, g.int(0, bits), bits)
		}
		if oka && ka >= 0 && wrapTo(ka+1, bits) != 0 {
			return g.not(g.lt("u", b, g.int(ka+1, bits), bits))
		}
		if okb && kb > 0 && g.rng != nil && bits <= 64 {
			if lo, hi, ok := g.rng(a, false); ok && lo.Sign() >= 0 && hi.BitLen() <= bits && hi.BitLen() < 64 {
				switch {
				case hi.Int64() < kb:
					return g.boolean(true)
				case lo.Int64() >= kb:
					return g.boolean(false)
				case hi.Int64() == kb:
					return g.not(g.eqInt(a, b, bits))
				}
				if q, c, r, ok := g.common(a, bits); ok && c >= 0 && c < kb {
					return g.lt("u", q, g.int((kb-c+r-1)/r, bits), bits)
				}
			}
		}
	}
	if a == b {
		return g.boolean(false)
	}
	return g.mk("lt", sign+strconv.Itoa(bits), a, b)
}

// common splits p = r*q + c with the largest r > 1, reading coefficients as
// signed numbers.
func (g *VG) common(p V, bits int) (q V, c, r int64, ok bool) {
	var out []vterm
	for _, t := range p.terms() {
		k := t.c
		if bits < 64 && k >= int64(1)<<(bits-1) {
			k -= int64(1) << bits
		}
		if len(t.m) == 0 {
			c = k
			continue
		}
		out = append(out, vterm{k, t.m})
		a, b := k, r
		if a < 0 {
			a = -a
		}
		for b != 0 {
			a, b = b, a%b
		}
		r = a
	}
	if r <= 1 {
		return nil, 0, 0, false
	}
	for i := range out {
		out[i].c /= r
	}
	return g.fromTerms(out, bits), c, r, true
}

// neg: p < 0 over the integers, with a canonical leading sign.
func (g *VG) neg(p V) V {
	ts := p.terms()
	if ts[0].c < 0 {
		return g.not(g.mk("neg", "", g.sub(g.scale(p, -1, 64), g.int(1, 64), 64)))
	}
	return g.mk("neg", "", p)
}

func isBoolNode(v V) bool {
	switch v.op {
	case "true", "false", "not", "and", "or", "eq0", "eq", "lt", "neg", "typeis":
		return true
	}
	return false
}

// ite with nil meaning "cannot happen".
func (g *VG) ite(c, a, b V) V {
	if a == nil {
		return b
	}
	if b == nil || a == b || c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if isBoolNode(a) && isBoolNode(b) || a.isTrue() || a.isFalse() || b.isTrue() || b.isFalse() {
		return g.or(g.and(c, a), g.and(g.not(c), b))
	}
	if c.op == "not" {
		c, a, b = c.args[0], b, a
	}
	a = g.assume(c, true, a, 4)
	b = g.assume(c, false, b, 4)
	if a == b {
		return a
	}
	if c.op == "or" || c.op == "and" {
		// keep the literal order independent form
		n := g.not(c)
		if n.id < c.id {
			c, a, b = n, b, a
		}
	}
	if a.op == "struct" && b.op == "struct" && len(a.args) == len(b.args) && a.aux == b.aux {
		args := make([]V, len(a.args))
		for i := range args {
			args[i] = g.ite(c, a.args[i], b.args[i])
		}
		return g.mk("struct", a.aux, args...)
	}
	if a.op == "tuple" && b.op == "tuple" && len(a.args) == len(b.args) {
		args := make([]V, len(a.args))
		for i := range args {
			args[i] = g.ite(c, a.args[i], b.args[i])
		}
		return g.mk("tuple", "", args...)
	}
	if a.op == "slice" || b.op == "slice" {
		pa, pb := g.sliceParts(a), g.sliceParts(b)
		if pa[0] == pb[0] {
			return g.mkSlice(pa[0], g.ite(c, pa[1], pb[1]), g.ite(c, pa[2], pb[2]), g.ite(c, pa[3], pb[3]))
		}
	}
	for _, s := range []string{"u", "i"} {
		bits := 64
		switch {
		case s == "u" && c.op == "lt" && c.aux[0] == 'u':
			bits, _ = strconv.Atoi(c.aux[1:])
		case s == "u" && c.op == "eq0":
			bits, _ = strconv.Atoi(c.aux)
		case s == "i" && c.op == "neg":
		default:
			continue
		}
		l := g.lt(s, a, b, bits)
		if l.op == "not" {
			if l.args[0] == c {
				return g.minmax("max", s, a, b)
			}
		} else if l == c {
			return g.minmax("min", s, a, b)
		}
		l = g.lt(s, b, a, bits)
		if l.op == "not" {
			if l.args[0] == c {
				return g.minmax("min", s, a, b)
			}
		} else if l == c {
			return g.minmax("max", s, a, b)
		}
	}
	return g.mk("ite", "", c, a, b)
}

func (g *VG) minmax(op, sign string, a, b V) V {
	if a == b {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return g.mk(op, sign, a, b)
}

// assume simplifies x under c being val (a few levels deep).
func (g *VG) assume(c V, val bool, x V, d int) V {
	if d == 0 || x == nil {
		return x
	}
	if x.op == "ite" {
		if x.args[0] == c {
			if val {
				return g.assume(c, val, x.args[1], d-1)
			}
			return g.assume(c, val, x.args[2], d-1)
		}
		a := g.assume(c, val, x.args[1], d-1)
		b := g.assume(c, val, x.args[2], d-1)
		if a != x.args[1] || b != x.args[2] {
			return g.ite(x.args[0], a, b)
		}
	}
	return x
}

func (g *VG) mkSlice(base, off, ln, cp V) V { return g.mk("slice", "", base, off, ln, cp) }

func (g *VG) sliceParts(v V) [4]V {
	switch v.op {
	case "slice":
		return [4]V{v.args[0], v.args[1], v.args[2], v.args[3]}
	case "nil":
		return [4]V{v, g.int(0, 64), g.int(0, 64), g.int(0, 64)}
	case "ite":
		a, b := g.sliceParts(v.args[1]), g.sliceParts(v.args[2])
		if a[0] == b[0] {
			var r [4]V
			for i := range r {
				r[i] = g.ite(v.args[0], a[i], b[i])
			}
			return r
		}
	}
	return [4]V{v, g.int(0, 64), g.mk("len", "", v), g.mk("cap", "", v)}
}

func (g *VG) field(v V, i int, n int) V {
	switch v.op {
	case "struct":
		if i < len(v.args) {
			return v.args[i]
		}
	case "ite":
		if v.args[1].op == "struct" || v.args[2].op == "struct" || v.args[1].op == "ite" {
			return g.ite(v.args[0], g.field(v.args[1], i, n), g.field(v.args[2], i, n))
		}
	}
	return g.mk("field", strconv.Itoa(i), v)
}

func (g *VG) extract(v V, i int) V {
	switch v.op {
	case "tuple":
		if i < len(v.args) {
			return v.args[i]
		}
	case "ite":
		return g.ite(v.args[0], g.extract(v.args[1], i), g.extract(v.args[2], i))
	}
	return g.mk("ext", strconv.Itoa(i), v)
}

// elem is element i of an array value.
func (g *VG) elem(v, i V) V {
	if k, ok := i.intConst(); ok && v.op == "struct" && k >= 0 && k < int64(len(v.args)) {
		return v.args[k]
	}
	return g.mk("index", "", v, i)
}

// rebuild reconstructs v with f applied to nodes bottom-up: f may return a
// replacement for a node before its children are visited.
func (g *VG) rebuild(v V, f func(V) V) V {
	memo := map[V]V{}
	var rec func(V) V
	rec = func(v V) V {
		if v == nil {
			return nil
		}
		if r, ok := memo[v]; ok {
			return r
		}
		if r := f(v); r != nil {
			memo[v] = r
			return r
		}
		r := v
		switch v.op {
		case "poly":
			b := v.bits
			acc := g.int(0, b)
			for _, t := range v.poly {
				p := g.int(t.c, b)
				for _, a := range t.m {
					p = g.mul(p, rec(a), b)
				}
				acc = g.add(acc, p, b)
			}
			r = acc
		default:
			ch := false
			args := make([]V, len(v.args))
			for i, a := range v.args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			if ch {
				r = g.remake(v, args)
			}
		}
		memo[v] = r
		return r
	}
	return rec(v)
}

func (g *VG) remake(v V, a []V) V {
	switch v.op {
	case "index":
		if len(a) == 2 {
			return g.elem(a[0], a[1])
		}
	case "elem":
		if a[0].op == "slice" {
			a = []V{a[0].args[0], g.add(a[0].args[1], a[1], 64)}
		}
	case "len":
		if a[0].op == "slice" {
			return a[0].args[2]
		}
	case "cap":
		if a[0].op == "slice" {
			return a[0].args[3]
		}
	case "slice":
		if a[0].op == "slice" {
			a = []V{a[0].args[0], g.add(a[0].args[1], a[1], 64), a[2], a[3]}
		}
	case "not":
		return g.not(a[0])
	case "and":
		return g.and(a...)
	case "or":
		return g.or(a...)
	case "ite":
		return g.ite(a[0], a[1], a[2])
	case "eq0":
		b, _ := strconv.Atoi(v.aux)
		return g.eqInt(a[0], g.int(0, b), b)
	case "eq":
		return g.eqAny(a[0], a[1])
	case "neg":
		if k, ok := a[0].intConst(); ok {
			return g.boolean(k < 0)
		}
		return g.neg(a[0])
	case "lt":
		b, _ := strconv.Atoi(v.aux[1:])
		return g.lt(v.aux[:1], a[0], a[1], b)
	case "min", "max":
		return g.minmax(v.op, v.aux, a[0], a[1])
	case "mul":
		b, _ := strconv.Atoi(v.aux)
		return g.mul(a[0], a[1], b)
	case "div":
		x, ok1 := a[0].intConst()
		y, ok2 := a[1].intConst()
		if ok1 && ok2 && x >= 0 && y > 0 {
			_, b, _ := strings.Cut(v.aux, v.aux[:len(strings.TrimRight(v.aux, "0123456789"))])
			n, _ := strconv.Atoi(b)
			return g.int(x/y, n)
		}
	case "comm":
		if a[0].id > a[1].id {
			a[0], a[1] = a[1], a[0]
		}
	case "field":
		i, _ := strconv.Atoi(v.aux)
		return g.field(a[0], i, 0)
	case "ext":
		i, _ := strconv.Atoi(v.aux)
		return g.extract(a[0], i)
	}
	r := g.mk(v.op, v.aux, a...)
	if r.loop == nil {
		r.loop = v.loop
	}
	if r.ref == nil {
		r.ref = v.ref
	}
	if t := g.leafT[v]; t != nil && g.leafT[r] == nil {
		g.leafT[r] = t
	}
	return r
}

// String renders a node for reports.
func (v *VN) String() string { return v.str(6) }

func (v *VN) str(d int) string {
	if v == nil {
		return "?"
	}
	if d == 0 {
		return "…"
	}
	switch v.op {
	case "int":
		return v.aux
	case "true", "false", "nil":
		return v.op
	case "param", "sym", "iter", "alloc", "global", "float", "str", "fn", "trip", "phi":
		return v.aux
	case "poly":
		var ps []string
		for _, t := range v.poly {
			c := t.c
			if v.bits == 32 && c > 1<<31 {
				c -= 1 << 32
			}
			var ms []string
			for _, a := range t.m {
				ms = append(ms, a.str(d-1))
			}
			switch {
			case len(ms) == 0:
				ps = append(ps, strconv.FormatInt(c, 10))
			case c == 1:
				ps = append(ps, strings.Join(ms, "*"))
			case c == -1:
				ps = append(ps, "-"+strings.Join(ms, "*"))
			default:
				ps = append(ps, strconv.FormatInt(c, 10)+"*"+strings.Join(ms, "*"))
			}
		}
		return "(" + strings.ReplaceAll(strings.Join(ps, "+"), "+-", "-") + ")"
	case "not":
		return "!" + v.args[0].str(d)
	case "neg":
		return "(" + v.args[0].str(d-1) + "<0)"
	case "eq0":
		return "(" + v.args[0].str(d-1) + "==0)"
	}
	var as []string
	for _, a := range v.args {
		as = append(as, a.str(d-1))
	}
	s := v.op
	if v.aux != "" {
		s += ":" + v.aux
	}
	return s + "(" + strings.Join(as, ",") + ")"
}
