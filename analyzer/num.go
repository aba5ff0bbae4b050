package main

import (
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Bounds of value graph nodes under assumptions: linear facts taken from the
// conditions of a path, and the defining inequalities of divisions, minima
// and maxima. Everything is decided by elimination over integer linear forms
// of the nodes; nothing is enumerated or handed to a solver.

type nlin struct {
	c map[string]*big.Int // monomial -> coefficient, "" is the constant
	m map[string][]V
}

func newLin() *nlin { return &nlin{c: map[string]*big.Int{}, m: map[string][]V{}} }

func (l *nlin) addTerm(c *big.Int, m []V) {
	k := monoKey(m)
	if o, ok := l.c[k]; ok {
		o = new(big.Int).Add(o, c)
		if o.Sign() == 0 {
			delete(l.c, k)
			delete(l.m, k)
			return
		}
		l.c[k] = o
		return
	}
	if c.Sign() != 0 {
		l.c[k] = new(big.Int).Set(c)
		l.m[k] = m
	}
}

func (l *nlin) plus(o *nlin, k *big.Int) *nlin {
	n := newLin()
	for x, c := range l.c {
		n.addTerm(c, l.m[x])
	}
	for x, c := range o.c {
		n.addTerm(new(big.Int).Mul(c, k), o.m[x])
	}
	return n
}

func (l *nlin) times(k *big.Int) *nlin { return newLin().plus(l, k) }

// nfact says d <= hi.
type nfact struct {
	d  *nlin
	hi *big.Int
}

// num is a set of assumptions.
type num struct {
	e     *VEval
	env   map[V]bool
	facts []nfact
	nz    map[V]bool // values known to be different from zero
	flo   map[V]float64
	fhi   map[V]float64
	fnum  map[V]bool // is not NaN
	seen  map[V]bool
	contr bool                                 // the assumptions exclude each other
	leaf  func(v V) (lo, hi *big.Int, ok bool) // bounds of leaves
	rel   func(v V) []nfact                    // further facts of a leaf
	rank  func(v V) int                        // order of elimination
	prods bool                                 // products of two values are bounded by either
	split bool
	ubM   map[string]*big.Int
	ubN   int
	steps *int // work left
	light bool // only use the conditions themselves
	memo  map[V]*[3]any
	fitM  map[fitKey]bool
}

type fitKey struct {
	v   V
	uns bool
}

func newNum(e *VEval) *num {
	steps := 30000
	return &num{e: e, ubM: map[string]*big.Int{}, steps: &steps, env: map[V]bool{}, nz: map[V]bool{}, flo: map[V]float64{}, fhi: map[V]float64{}, fnum: map[V]bool{}, seen: map[V]bool{}, memo: map[V]*[3]any{}, fitM: map[fitKey]bool{}}
}

func (n *num) clone() *num {
	o := newNum(n.e)
	o.leaf, o.rel, o.rank, o.prods, o.contr, o.light, o.steps = n.leaf, n.rel, n.rank, n.prods, n.contr, n.light, n.steps
	for k, v := range n.env {
		o.env[k] = v
	}
	for k := range n.nz {
		o.nz[k] = true
	}
	for k, v := range n.flo {
		o.flo[k] = v
	}
	for k, v := range n.fhi {
		o.fhi[k] = v
	}
	for k := range n.fnum {
		o.fnum[k] = true
	}
	for k, v := range n.memo {
		o.memo[k] = v
	}
	for k := range n.seen {
		o.seen[k] = true
	}
	o.facts = append(o.facts, n.facts...)
	return o
}

var bigOne = big.NewInt(1)

// lin views a node as a linear form. The form is the mathematical value; it
// is only used where the value is known not to wrap.
func (n *num) lin(v V) *nlin {
	l := newLin()
	if v.op == "int" {
		l.addTerm(big.NewInt(v.k), nil)
		return l
	}
	if v.op == "poly" {
		for _, t := range n.e.signedTerms(v) {
			l.addTerm(big.NewInt(t.c), t.m)
		}
		return l
	}
	l.addTerm(bigOne, []V{v})
	return l
}

// define adds the defining facts of the atoms of a form.
func (n *num) define(l *nlin) {
	for k := range l.c {
		for _, a := range l.m[k] {
			n.defineAtom(a)
		}
	}
}

func (n *num) defineAtom(v V) {
	if n.seen[v] {
		return
	}
	n.seen[v] = true
	if v.op != "ite" && v.op != "call" && v.op != "deref" && v.op != "elem" {
		for _, a := range v.args {
			if a != nil {
				n.define(n.lin(a))
			}
		}
	}
	if n.rel != nil {
		n.facts = append(n.facts, n.rel(v)...)
	}
	if v.op != "poly" && v.op != "int" {
		lo, hi, ok := n.base1(v)
		n.memo[v] = &[3]any{lo, hi, ok}
	}
	self := n.lin(v)
	minus := big.NewInt(-1)
	switch v.op {
	case "poly":
		return
	case "min", "max":
		for _, a := range v.args {
			if a.op == "poly" && !n.fits(a, v.aux == "u") {
				continue
			}
			x := n.lin(a)
			n.define(x)
			d := self.plus(x, minus)
			if v.op == "max" {
				d = d.times(minus)
			}
			n.facts = append(n.facts, nfact{d, new(big.Int)})
		}
	case "div":
		if v.aux[0] != 'u' && v.aux[0] != 'f' && v.aux[0] != 't' {
			return
		}
		p, q := v.args[0], v.args[1]
		if !n.fits(p, v.aux[0] == 'u') {
			return
		}
		x := n.lin(p)
		n.define(x)
		if v.aux[0] == 't' {
			if lo, _, ok := n.bound(p); !ok || lo.Sign() < 0 {
				return
			}
		}
		if k, ok := q.intConst(); ok && k > 0 {
			kb := big.NewInt(k)
			// k*v <= p, p - k*v <= k-1
			n.facts = append(n.facts, nfact{self.times(kb).plus(x, minus), new(big.Int)})
			n.facts = append(n.facts, nfact{x.plus(self, new(big.Int).Neg(kb)), big.NewInt(k - 1)})
			if n.prods {
				for mk := range x.c {
					m := x.m[mk]
					if len(m) != 2 {
						continue
					}
					for i := range m {
						lo, hi, ok := n.bound(m[i])
						lo2, _, ok2 := n.bound(m[1-i])
						if ok && ok2 && lo.Sign() >= 0 && lo2.Sign() >= 0 {
							d := newLin()
							d.addTerm(bigOne, m)
							n.facts = append(n.facts, nfact{d.plus(n.lin(m[1-i]), new(big.Int).Neg(hi)), new(big.Int)})
						}
					}
				}
			}
			// c*x*y/k <= f*y if c*x <= f*k
			if len(x.c) == 1 {
				for mk, c := range x.c {
					m := x.m[mk]
					if c.Sign() > 0 && len(m) == 2 {
						for i := range m {
							lo, hi, ok := n.bound(m[i])
							lo2, _, ok2 := n.bound(m[1-i])
							if !ok || !ok2 || lo.Sign() < 0 || lo2.Sign() < 0 {
								continue
							}
							f, rem := new(big.Int).QuoRem(new(big.Int).Mul(hi, c), kb, new(big.Int))
							if rem.Sign() > 0 && f.Sign() == 0 {
								f, rem = big.NewInt(1), new(big.Int)
							}
							if rem.Sign() == 0 {
								n.facts = append(n.facts, nfact{self.plus(n.lin(m[1-i]), new(big.Int).Neg(f)), new(big.Int)})
							}
						}
					}
				}
			}
			return
		}
		if !n.fits(q, v.aux[0] == 'u') {
			return
		}
		y := n.lin(q)
		n.define(y)
		if lo, _, ok := n.boundLin(y, 4); !ok || lo.Sign() < 0 {
			return
		}
		// p <= c*q makes p/q <= c
		tried := map[string]bool{}
		for _, c := range x.c {
			a := new(big.Int).Abs(c)
			if tried[a.String()] {
				continue
			}
			tried[a.String()] = true
			if u, ok := n.ub(x.plus(y, new(big.Int).Neg(a)), 6); ok && u.Sign() <= 0 {
				d := newLin()
				d.addTerm(bigOne, []V{v})
				n.facts = append(n.facts, nfact{d, a})
			}
		}
	}
}

// fits: the mathematical value of the node is its value.
func (n *num) fits(v V, uns bool) bool {
	if v.op != "poly" {
		return true
	}
	if r, ok := n.fitM[fitKey{v, uns}]; ok {
		return r
	}
	r := n.fits1(v, uns)
	n.fitM[fitKey{v, uns}] = r
	return r
}

func (n *num) fits1(v V, uns bool) bool {
	if v.bits == 64 && !uns {
		return true // counts and positions are assumed not to overflow int
	}
	l := n.lin(v)
	n.define(l)
	lo, hi, ok := n.boundLin(l, 5)
	if !ok {
		return false
	}
	b := v.bits
	if b == 0 {
		b = 64
	}
	if uns {
		return lo.Sign() >= 0 && hi.BitLen() <= b
	}
	return lo.BitLen() < b && hi.BitLen() < b
}

// bound bounds the value of a node.
func (n *num) bound(v V) (lo, hi *big.Int, ok bool) {
	l := n.lin(v)
	n.define(l)
	return n.boundLin(l, 4)
}

// base bounds an atom; what it is computed from has been defined before.
func (n *num) base(v V) (lo, hi *big.Int, ok bool) {
	if v.op == "int" {
		return big.NewInt(v.k), big.NewInt(v.k), true
	}
	if m := n.memo[v]; m != nil {
		lo, _ = m[0].(*big.Int)
		hi, _ = m[1].(*big.Int)
		return lo, hi, m[2].(bool)
	}
	if n.leaf != nil {
		if lo, hi, ok = n.leaf(v); ok {
			return
		}
	}
	if v.loop != nil && v.loop.iter == v {
		// rounds so far
		return big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 62), true
	}
	return n.e.typeRange(v)
}

// base1 computes the bounds of an atom from its own structure.
func (n *num) base1(v V) (lo, hi *big.Int, ok bool) {
	if n.leaf != nil {
		if lo, hi, ok = n.leaf(v); ok {
			return
		}
	}
	meet := func(l, h *big.Int) (*big.Int, *big.Int, bool) {
		if tl, th, ok := n.e.typeRange(v); ok {
			// both hold, unless the computed range says that the value wraps
			if l.Cmp(tl) < 0 || h.Cmp(th) > 0 {
				return tl, th, true
			}
		}
		return l, h, true
	}
	if v.loop != nil && v.loop.iter == v {
		// rounds so far
		return big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 62), true
	}
	switch v.op {
	case "ite":
		c := n.e.assume(v.args[0], n.env)
		var l, h *big.Int
		for i, a := range v.args[1:] {
			if c.isTrue() && i == 1 || c.isFalse() && i == 0 {
				continue
			}
			m := n.clone()
			m.assumeCond(c, i == 0)
			if m.contr {
				continue
			}
			if a.op == "poly" && !m.fits(a, false) && !m.fits(a, true) {
				return n.e.typeRange(v)
			}
			al, ah, ok := m.bound(a)
			if !ok {
				return n.e.typeRange(v)
			}
			if l == nil {
				l, h = al, ah
			} else {
				l, h = minB(l, al), maxB(h, ah)
			}
		}
		if l != nil {
			return meet(l, h)
		}
	case "min", "max":
		l1, h1, ok1 := n.bound(v.args[0])
		l2, h2, ok2 := n.bound(v.args[1])
		uns := v.aux == "u"
		if ok1 && ok2 && n.fits(v.args[0], uns) && n.fits(v.args[1], uns) {
			if v.op == "min" {
				return meet(minB(l1, l2), minB(h1, h2))
			}
			return meet(maxB(l1, l2), maxB(h1, h2))
		}
	case "div":
		uns := v.aux[0] == 'u'
		al, ah, ok1 := n.bound(v.args[0])
		bl, _, ok2 := n.bound(v.args[1])
		if !n.fits(v.args[0], uns) {
			if uns && v.args[0].op == "poly" {
				b := v.args[0].bits
				lim := new(big.Int).Lsh(bigOne, uint(b))
				al, ah, ok1 = new(big.Int), lim.Sub(lim, bigOne), true
			} else {
				ok1 = false
			}
		}
		if ok1 && al.Sign() >= 0 {
			d := bigOne
			if ok2 && bl.Sign() > 0 && n.fits(v.args[1], uns) {
				d = bl
			} else if !uns {
				return n.e.typeRange(v)
			}
			return meet(new(big.Int), new(big.Int).Quo(ah, d))
		}
		if k, ok := v.args[1].intConst(); ok1 && ok && k > 0 {
			kb := big.NewInt(k)
			return meet(new(big.Int).Sub(new(big.Int).Quo(al, kb), bigOne), new(big.Int).Add(new(big.Int).Quo(ah, kb), bigOne))
		}
	case "rem":
		if k, ok := v.args[1].intConst(); ok && k > 0 && v.aux[0] == 'u' {
			return meet(new(big.Int), big.NewInt(k-1))
		}
	case "comm":
		if strings.HasPrefix(v.aux, "&") {
			for _, a := range v.args {
				if l, h, ok := n.bound(a); ok && l.Sign() >= 0 && n.fits(a, true) {
					return new(big.Int), h, true
				}
			}
		}
		if strings.HasPrefix(v.aux, "|") || strings.HasPrefix(v.aux, "^") {
			m, low := new(big.Int), new(big.Int)
			for _, a := range v.args {
				l, h, ok := n.bound(a)
				if !ok || l.Sign() < 0 || !n.fits(a, true) {
					return n.e.typeRange(v)
				}
				m = maxB(m, h)
				if v.aux[0] == '|' {
					low = maxB(low, l)
				}
			}
			lim := new(big.Int).Lsh(bigOne, uint(m.BitLen()))
			return meet(low, lim.Sub(lim, bigOne))
		}
	case "zext":
		fb, _ := strconv.Atoi(v.aux)
		if l, h, ok := n.bound(v.args[0]); ok && l.Sign() >= 0 && h.BitLen() <= fb {
			return l, h, true
		}
	case "sext":
		fb, _ := strconv.Atoi(v.aux)
		if l, h, ok := n.bound(v.args[0]); ok && l.BitLen() < fb && h.BitLen() < fb {
			return l, h, true
		}
	case "trunc":
		if l, h, ok := n.bound(v.args[0]); ok && l.Sign() >= 0 && n.fits(v.args[0], true) {
			if b, err := strconv.Atoi(v.aux); err == nil && h.BitLen() <= b {
				return l, h, true
			}
		}
	case "f2i":
		if l, h, ok := n.fbound(v.args[0]); ok && l > -1 && h < 9e15 {
			return meet(new(big.Int), big.NewInt(int64(h)))
		}
	}
	return n.e.typeRange(v)
}

// minMax: the smaller or larger of two floating point values, which is not a
// number if one of them is not.
func minMax(v V) (min, ok bool) {
	if len(v.args) != 2 {
		return false, false
	}
	switch {
	case v.op == "min" && v.aux == "f" || isCallOf(v, "math.Min"):
		return true, true
	case v.op == "max" && v.aux == "f" || isCallOf(v, "math.Max"):
		return false, true
	}
	return false, false
}

func (n *num) isNum(v V) bool {
	if n.fnum[v] || v.op == "float" || v.op == "i2f" {
		return true
	}
	if v.op == "f2f" {
		return n.isNum(v.args[0])
	}
	if _, ok := minMax(v); ok {
		return n.isNum(v.args[0]) && n.isNum(v.args[1])
	}
	_, _, ok := n.fbound(v)
	return ok
}

// fpart are the bounds of a value, if it is a number.
func (n *num) fpart(v V) (lo, hi *float64) {
	if l, ok := n.flo[v]; ok {
		lo = &l
	}
	if h, ok := n.fhi[v]; ok {
		hi = &h
	}
	min, ok := minMax(v)
	if !ok {
		if lo == nil || hi == nil {
			if v.op != "call" {
				if l, h, ok := n.fbound(v); ok {
					return &l, &h
				}
			}
		}
		return lo, hi
	}
	l1, h1 := n.fpart(v.args[0])
	l2, h2 := n.fpart(v.args[1])
	least := func(a, b *float64) *float64 {
		if *a < *b {
			return a
		}
		return b
	}
	most := func(a, b *float64) *float64 {
		if *a > *b {
			return a
		}
		return b
	}
	// f gives the bound on the side that either value provides
	either := func(a, b *float64, f func(a, b *float64) *float64) *float64 {
		if a == nil {
			return b
		}
		if b == nil {
			return a
		}
		return f(a, b)
	}
	if min {
		if h := either(h1, h2, least); h != nil {
			hi = either(hi, h, least)
		}
		if l1 != nil && l2 != nil {
			lo = either(lo, least(l1, l2), most)
		}
	} else {
		if l := either(l1, l2, most); l != nil {
			lo = either(lo, l, most)
		}
		if h1 != nil && h2 != nil {
			hi = either(hi, most(h1, h2), least)
		}
	}
	return lo, hi
}

// fbound bounds a floating point value and excludes NaN.
func (n *num) fbound(v V) (lo, hi float64, ok bool) {
	if l, ok1 := n.flo[v]; ok1 && n.fnum[v] {
		if h, ok2 := n.fhi[v]; ok2 {
			return l, h, true
		}
	}
	switch v.op {
	case "float":
		x, err := strconv.ParseFloat(v.aux, 64)
		return x, x, err == nil
	case "i2f":
		l, h, ok := n.bound(v.args[0])
		if !ok || !n.fits(v.args[0], true) && !n.fits(v.args[0], false) {
			return 0, 0, false
		}
		a, _ := new(big.Float).SetInt(l).Float64()
		b, _ := new(big.Float).SetInt(h).Float64()
		return a, b, true
	case "f2f":
		// rounding is monotone and integers of up to 24 bits are exact
		l, h, ok := n.fbound(v.args[0])
		if ok && l == float64(int64(l)) && h == float64(int64(h)) && l > -1<<24 && h < 1<<24 {
			return l, h, true
		}
	case "min", "max", "call":
		if _, ok := minMax(v); !ok {
			break
		}
		l, h := n.fpart(v)
		if l != nil && h != nil && n.isNum(v) {
			return *l, *h, true
		}
	case "fbin":
		l1, h1, ok1 := n.fbound(v.args[0])
		l2, h2, ok2 := n.fbound(v.args[1])
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		switch v.aux {
		case "+", "-":
			if v.aux == "-" {
				l2, h2 = -h2, -l2
			}
			if l, h := l1+l2, h1+h2; l > -1e15 && h < 1e15 {
				return l, h, true
			}
		case "*":
			if l1 >= 0 && l2 >= 0 && h1 < 1e15 && h2 < 1e15 {
				return l1 * l2, h1 * h2, true
			}
		case "/":
			if l1 >= 0 && l2 > 0 && h1 < 1e15 {
				lo := l1 / h2 * 0.999 // rounding, also to float32
				if lo < 1e-30 {
					lo = 0
				}
				return lo, h1 / l2, true
			}
		}
	case "ite":
		c := n.e.assume(v.args[0], n.env)
		first := true
		for i, a := range v.args[1:] {
			if c.isTrue() && i == 1 || c.isFalse() && i == 0 {
				continue
			}
			m := n.clone()
			m.assumeCond(c, i == 0)
			if m.contr {
				continue
			}
			l, h, ok := m.fbound(a)
			if !ok {
				return 0, 0, false
			}
			if first {
				lo, hi, first = l, h, false
			} else {
				if l < lo {
					lo = l
				}
				if h > hi {
					hi = h
				}
			}
		}
		return lo, hi, !first
	}
	return 0, 0, false
}

// interval bounds a form from the bounds of its atoms.
func (n *num) interval(l *nlin) (lo, hi *big.Int, ok bool) {
	lo, hi = new(big.Int), new(big.Int)
	for k, c := range l.c {
		a, b := c, c
		m := l.m[k]
		for _, v := range m {
			vl, vh, ok := n.base(v)
			if !ok {
				return nil, nil, false
			}
			a, b = mulRange(a, b, vl, vh)
		}
		lo = new(big.Int).Add(lo, a)
		hi = new(big.Int).Add(hi, b)
	}
	return lo, hi, true
}

// boundLin bounds a form with the facts.
func (n *num) boundLin(l *nlin, d int) (lo, hi *big.Int, ok bool) {
	hi, ok1 := n.ub(l, d)
	lo, ok2 := n.ub(l.times(big.NewInt(-1)), d)
	if !ok1 || !ok2 {
		return nil, nil, false
	}
	return new(big.Int).Neg(lo), hi, true
}

// ub is an upper bound of a form: the interval, or a fact about its newest
// monomial and an upper bound of what is left.
func (n *num) ub(l *nlin, d int) (*big.Int, bool) {
	if len(l.c) == 0 {
		return new(big.Int), true
	}
	ks := make([]string, 0, len(l.c))
	for k := range l.c {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(d))
	for _, k := range ks {
		sb.WriteByte('|')
		sb.WriteString(k)
		sb.WriteByte('*')
		sb.WriteString(l.c[k].String())
	}
	if n.ubN != len(n.facts) {
		n.ubM, n.ubN = map[string]*big.Int{}, len(n.facts)
	}
	key := sb.String()
	if v, ok := n.ubM[key]; ok {
		return v, v != nil
	}
	v, ok := n.ub1(l, d)
	if !ok {
		v = nil
	}
	if n.ubN == len(n.facts) && *n.steps >= 0 {
		n.ubM[key] = v
	}
	return v, ok
}

func (n *num) ub1(l *nlin, d int) (*big.Int, bool) {
	if len(l.c) == 0 {
		return new(big.Int), true
	}
	*n.steps--
	if *n.steps < 0 {
		d = 0
	}
	// take out a common factor
	k0 := l.c[""]
	g := new(big.Int)
	for k, c := range l.c {
		if k != "" {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
	}
	if g.Sign() == 0 {
		return new(big.Int).Set(k0), true
	}
	if k0 != nil || g.Cmp(bigOne) > 0 {
		r := newLin()
		for k, c := range l.c {
			if k != "" {
				r.addTerm(new(big.Int).Quo(c, g), l.m[k])
			}
		}
		u, ok := n.ub(r, d)
		if !ok {
			return nil, false
		}
		u = new(big.Int).Mul(u, g)
		if k0 != nil {
			u.Add(u, k0)
		}
		return u, true
	}
	var best *big.Int
	if _, hi, ok := n.interval(l); ok {
		best = hi
	}
	if d > 0 {
		var keys []string
		for k := range l.c {
			keys = append(keys, k)
		}
		newest := func(m []V) int {
			x := 0
			for _, v := range m {
				id := v.id
				if n.rank != nil {
					id = n.rank(v)
				}
				if id > x {
					x = id
				}
			}
			return x
		}
		sort.Slice(keys, func(i, j int) bool {
			a, b := newest(l.m[keys[i]]), newest(l.m[keys[j]])
			if a != b {
				return a > b
			}
			return keys[i] > keys[j]
		})
		for _, k := range keys {
			c := l.c[k]
			used := false
			for _, f := range n.facts {
				fc := f.d.c[k]
				if fc == nil || fc.Sign() != c.Sign() {
					continue
				}
				used = true
				// |fc|*l - |c|*d has no such monomial
				a, b := new(big.Int).Abs(fc), new(big.Int).Abs(c)
				rest := l.times(a).plus(f.d, new(big.Int).Neg(b))
				if u, ok := n.ub(rest, d-1); ok {
					u = new(big.Int).Add(u, new(big.Int).Mul(b, f.hi))
					u.Div(u, a) // floor
					if best == nil || u.Cmp(best) < 0 {
						best = u
					}
				}
			}
			if used {
				// or its own bounds, with something better for the rest
				one := newLin()
				one.addTerm(c, l.m[k])
				if _, h, ok := n.interval(one); ok && len(l.c) > 1 {
					if u, ok := n.ub(l.plus(one, big.NewInt(-1)), d); ok {
						u = new(big.Int).Add(u, h)
						if best == nil || u.Cmp(best) < 0 {
							best = u
						}
					}
				}
				break
			}
		}
	}
	return best, best != nil
}

// assumeCond adds a condition.
func (n *num) assumeCond(c V, want bool) {
	if c.isTrue() || c.isFalse() {
		if c.isTrue() != want {
			n.contr = true
		}
		return
	}
	switch c.op {
	case "not":
		n.assumeCond(c.args[0], !want)
		return
	case "and":
		if want {
			for _, a := range c.args {
				n.assumeCond(a, true)
			}
			return
		}
	case "or":
		if !want {
			for _, a := range c.args {
				n.assumeCond(a, false)
			}
			return
		}
	}
	if o, ok := n.env[c]; ok {
		if o != want {
			n.contr = true
		}
		return
	}
	if c.op == "and" || c.op == "or" {
		// all parts but one are decided
		rest := n.e.assume(c, n.env)
		if rest != c {
			n.assumeCond(rest, want)
		}
		return
	}
	n.env[c] = want
	if n.light {
		return
	}
	n.fitM = map[fitKey]bool{}
	defer func() { n.fitM = map[fitKey]bool{} }()
	minus := big.NewInt(-1)
	add := func(d *nlin, hi int64) {
		n.define(d)
		n.facts = append(n.facts, nfact{d, big.NewInt(hi)})
	}
	switch c.op {
	case "neg":
		d := n.lin(c.args[0])
		if want {
			add(d, -1)
		} else {
			add(d.times(minus), 0)
		}
	case "lt":
		a, b := c.args[0], c.args[1]
		switch c.aux[0] {
		case 'u':
			if !n.fits(a, true) || !n.fits(b, true) {
				return
			}
			d := n.lin(a).plus(n.lin(b), minus)
			if want {
				add(d, -1)
			} else {
				add(d.times(minus), 0)
			}
		case 'f', 'g':
			// true: a < b (a <= b); false says nothing of NaN, but bounds
			// a value that another condition has found to be a number
			if want {
				n.fnum[a], n.fnum[b] = true, true
				if x, ok := fconst(a); ok {
					n.setF(b, &x, nil)
				}
				if x, ok := fconst(b); ok {
					n.setF(a, nil, &x)
				}
			} else {
				if x, ok := fconst(b); ok {
					n.setF(a, &x, nil)
				}
				if x, ok := fconst(a); ok {
					n.setF(b, nil, &x)
				}
			}
		}
	case "eq":
		// nothing else differs from itself
		if want && c.aux == "f" {
			n.fnum[c.args[0]], n.fnum[c.args[1]] = true, true
		}
	case "call":
		if !want && isCallOf(c, "math.IsNaN") && len(c.args) == 1 {
			n.fnum[c.args[0]] = true
		}
	case "eq0":
		x := c.args[0]
		if !want {
			n.nz[x] = true
			if lo, hi, ok := n.bound(x); ok && n.fits(x, lo.Sign() >= 0) {
				d := n.lin(x)
				if lo.Sign() >= 0 {
					add(d.times(minus), -1)
				} else if hi.Sign() <= 0 {
					add(d, -1)
				}
			}
			return
		}
		if n.fits(x, true) || n.fits(x, false) {
			d := n.lin(x)
			add(d, 0)
			add(d.times(minus), 0)
		}
	}
}

func fconst(v V) (float64, bool) {
	if v.op != "float" {
		return 0, false
	}
	x, err := strconv.ParseFloat(v.aux, 64)
	return x, err == nil
}

func (n *num) setF(v V, lo, hi *float64) {
	if lo != nil {
		if o, ok := n.flo[v]; !ok || *lo > o {
			n.flo[v] = *lo
		}
	}
	if hi != nil {
		if o, ok := n.fhi[v]; !ok || *hi < o {
			n.fhi[v] = *hi
		}
	}
}

// guarded calls f for the assumptions of a guard: once for the conjunction,
// split by alternatives that remain, and by the conditions of choices inside
// the given values.
func (n *num) cases(guard V, vs []V, budget *int, f func(m *num, vs []V) bool) bool {
	m := n.clone()
	m.assumeCond(guard, true)
	if m.contr {
		return true
	}
	rest := make([]V, len(vs))
	for i, v := range vs {
		rest[i] = m.e.assume(v, m.env)
	}
	if f(m, rest) {
		return true
	}
	var a V
	for _, v := range rest {
		if a = innerCond(v, m.env); a != nil {
			break
		}
	}
	if a == nil {
		g := m.e.assume(guard, m.env)
		a = boolAtom(g)
		if a != nil {
			if _, ok := m.env[a]; ok {
				a = nil
			}
		}
	}
	if a == nil {
		return false
	}
	for _, b := range []bool{true, false} {
		*budget--
		if *budget < 0 {
			return false
		}
		o := m.clone()
		o.assumeCond(a, b)
		if o.contr {
			continue
		}
		if !o.cases(o.e.assume(guard, o.env), rest, budget, f) {
			return false
		}
	}
	return true
}

// innerCond finds the condition of a choice inside a value.
func innerCond(v V, env map[V]bool) V {
	var found V
	deepNode(v, func(x V) bool {
		if found != nil {
			return true
		}
		if x.op == "ite" {
			if a := boolAtom(x.args[0]); a != nil {
				if _, ok := env[a]; !ok {
					found = a
					return true
				}
			}
		}
		return false
	})
	return found
}

// nonzero: the value cannot be zero.
func (n *num) nonzero(d V, bits int, uns bool) bool {
	z := n.e.eqInt(d, n.e.int(0, bits), bits)
	if n.e.assume(z, n.env).isFalse() {
		return true
	}
	for d.op == "zext" || d.op == "sext" {
		fb, _ := strconv.Atoi(d.aux)
		d = d.args[0]
		if n.e.assume(n.e.eqInt(d, n.e.int(0, fb), fb), n.env).isFalse() {
			return true
		}
		bits = fb
	}
	// the same form in a narrower type is not zero
	dl := n.lin(d)
	for c, v := range n.env {
		if v || c.op != "eq0" {
			continue
		}
		if b, _ := strconv.Atoi(c.aux); b <= bits {
			x := n.lin(c.args[0])
			if len(dl.plus(x, big.NewInt(-1)).c) == 0 || len(dl.plus(x, bigOne).c) == 0 {
				return true
			}
		}
	}
	if n.light {
		return false
	}
	if !n.fits(d, uns) {
		return false
	}
	l := n.lin(d)
	n.define(l)
	if u, ok := n.ub(l, 6); ok && u.Sign() < 0 {
		return true
	}
	if u, ok := n.ub(l.times(big.NewInt(-1)), 6); ok && u.Sign() < 0 {
		return true
	}
	// counters of loops: no round so far, or the loop went on the last time
	if n.split {
		return false
	}
	var it V
	for k := range l.c {
		for _, a := range l.m[k] {
			if a.loop != nil && a.loop.iter == a && loopOn(a.loop) != nil && (it == nil || a.id > it.id) {
				it = a
			}
		}
	}
	if it == nil {
		return false
	}
	for _, first := range []bool{true, false} {
		m := n.clone()
		m.split = true
		d1 := d
		if first {
			d1 = n.e.subst(d, it, n.e.int(0, 64))
		} else {
			m.assumeCond(n.e.subst(loopOn(it.loop), it, n.e.sub(it, n.e.int(1, 64), 64)), true)
		}
		if !m.contr && !m.nonzero(d1, bits, uns) {
			return false
		}
	}
	return true
}

func isUnsigned(t types.Type) bool {
	_, u, ok := typeBits(t)
	return ok && u
}

// deepNode is anyNode that also looks into polynomials.
func deepNode(v V, f func(V) bool) bool {
	seen := map[V]bool{}
	var rec func(V) bool
	rec = func(v V) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if f(v) {
			return true
		}
		for _, a := range v.args {
			if rec(a) {
				return true
			}
		}
		for _, t := range v.poly {
			for _, a := range t.m {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	return rec(v)
}

// loopOn is the condition under which a loop goes on.
func loopOn(l *VLoop) V {
	if l.back != nil {
		return l.back
	}
	return l.cont
}

// isCallOf: v is the result of a call of the function of this name.
func isCallOf(v V, name string) bool {
	return v.op == "call" && (v.aux == name || strings.HasPrefix(v.aux, name+"@"))
}

// fnonzero: a floating point value is not zero (it may not be a number).
func (n *num) fnonzero(v V) bool {
	if l, h, ok := n.fbound(v); ok && (l > 0 || h < 0) {
		return true
	}
	for c, b := range n.env {
		if len(c.args) != 2 || c.args[0] != v && c.args[1] != v {
			continue
		}
		o := c.args[0]
		if o == v {
			o = c.args[1]
		}
		k, ok := fconst(o)
		if !ok {
			continue
		}
		switch c.op {
		case "eq":
			if b && k != 0 || !b && k == 0 {
				return true
			}
		case "lt":
			strict := (c.aux[0] == 'f') == b
			below := (c.args[0] == v) == b // v is below k
			if below && (k < 0 || strict && k == 0) || !below && (k > 0 || strict && k == 0) {
				return true
			}
		}
	}
	switch v.op {
	case "i2f":
		return n.nonzero(v.args[0], 64, true)
	case "f2f":
		return n.fnonzero(v.args[0])
	case "fbin":
		return (v.aux == "*" || v.aux == "/") && n.fnonzero(v.args[0]) && (v.aux == "/" || n.fnonzero(v.args[1]))
	}
	return false
}
