package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Polynomials over integer symbols: the numeric domain of the abstract
// interpreter. All polynomials and monomials are hash-consed, so that pointer
// equality is equality.

// Sym identifies a symbol.
type Sym int32

const (
	negInf = math.MinInt64
	posInf = math.MaxInt64
)

// iv is an interval; negInf and posInf stand for "unbounded".
type iv struct{ lo, hi int64 }

var ivAll = iv{negInf, posInf}

type symInfo struct {
	name string
	rng  iv
	set  []int64 // optional finite set of values
	// derived symbols: op applied to args (polynomials)
	op   string
	args []*Poly
	n    int64 // parameter of op
	// loop generation: symbols created while analysing a loop
	tag string
	// opaque: result of imprecision of the analysis, not a property of the program input
	fuzzy bool
}

var syms []symInfo
var derived = map[string]Sym{}

func newSym(name string, rng iv) Sym {
	syms = append(syms, symInfo{name: name, rng: rng})
	return Sym(len(syms) - 1)
}

func (s Sym) info() *symInfo { return &syms[s] }

func (s Sym) String() string {
	in := s.info()
	if in.op != "" {
		var as []string
		for _, a := range in.args {
			as = append(as, a.String())
		}
		if in.n != 0 {
			as = append(as, strconv.FormatInt(in.n, 10))
		}
		return in.op + "(" + strings.Join(as, ",") + ")"
	}
	return in.name + "#" + strconv.Itoa(int(s))
}

type mono struct {
	id   int32
	syms []Sym // sorted
}

var monoTab = map[string]*mono{}
var monos []*mono

func monoOf(ss []Sym) *mono {
	sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
	var sb [64]byte
	k := sb[:0]
	for _, s := range ss {
		k = append(k, byte(s), byte(s>>8), byte(s>>16), byte(s>>24))
	}
	if m, ok := monoTab[string(k)]; ok {
		return m
	}
	m := &mono{id: int32(len(monos)), syms: append([]Sym(nil), ss...)}
	monos = append(monos, m)
	monoTab[string(k)] = m
	return m
}

type term struct {
	m *mono
	c int64
}

// Poly is an immutable, interned polynomial c + sum t.
type Poly struct {
	c  int64
	t  []term // sorted by mono id, nonzero coefficients
	id int32
}

var polyTab = map[string]*Poly{}
var polyCount int32

func mkPoly(c int64, t []term) *Poly {
	k := make([]byte, 0, 8+len(t)*12)
	put := func(v int64) {
		for i := 0; i < 8; i++ {
			k = append(k, byte(v>>(8*i)))
		}
	}
	put(c)
	for _, x := range t {
		k = append(k, byte(x.m.id), byte(x.m.id>>8), byte(x.m.id>>16), byte(x.m.id>>24))
		put(x.c)
	}
	if p, ok := polyTab[string(k)]; ok {
		return p
	}
	p := &Poly{c: c, t: append([]term(nil), t...), id: polyCount}
	polyCount++
	polyTab[string(k)] = p
	return p
}

func K(c int64) *Poly { return mkPoly(c, nil) }

var zeroP = K(0)
var oneP = K(1)

func symP(s Sym) *Poly { return mkPoly(0, []term{{monoOf([]Sym{s}), 1}}) }

func (p *Poly) isConst() bool { return len(p.t) == 0 }

// asSym returns the symbol if p is exactly one symbol.
func (p *Poly) asSym() (Sym, bool) {
	if p.c == 0 && len(p.t) == 1 && p.t[0].c == 1 && len(p.t[0].m.syms) == 1 {
		return p.t[0].m.syms[0], true
	}
	return 0, false
}

func (p *Poly) String() string {
	if p == nil {
		return "?"
	}
	var sb strings.Builder
	for i, t := range p.t {
		c := t.c
		if i > 0 {
			if c < 0 {
				sb.WriteString("-")
				c = -c
			} else {
				sb.WriteString("+")
			}
		} else if c == -1 {
			sb.WriteString("-")
			c = 1
		}
		if c != 1 {
			fmt.Fprintf(&sb, "%d*", c)
		}
		for j, s := range t.m.syms {
			if j > 0 {
				sb.WriteString("*")
			}
			sb.WriteString(s.String())
		}
	}
	if p.c != 0 || len(p.t) == 0 {
		if p.c >= 0 && len(p.t) > 0 {
			sb.WriteString("+")
		}
		fmt.Fprintf(&sb, "%d", p.c)
	}
	return sb.String()
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	if (c > a) == (b > 0) {
		return c, true
	}
	return 0, false
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = -ua
	}
	if b < 0 {
		ub = -ub
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > 1<<63-1 {
		return 0, false
	}
	if neg {
		return -int64(lo), true
	}
	return int64(lo), true
}

// addScaled returns a + k*b, or nil on overflow of a coefficient.
func addScaled(a *Poly, k int64, b *Poly) *Poly {
	if a == nil || k != 0 && b == nil {
		return nil
	}
	if k == 0 {
		return a
	}
	m, ok := mulOv(k, b.c)
	if !ok {
		return nil
	}
	c, ok := addOv(a.c, m)
	if !ok {
		return nil
	}
	if len(b.t) == 0 {
		return mkPoly(c, a.t)
	}
	t := make([]term, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j == len(b.t) || (i < len(a.t) && a.t[i].m.id < b.t[j].m.id):
			t = append(t, a.t[i])
			i++
		case i == len(a.t) || a.t[i].m.id > b.t[j].m.id:
			v, ok := mulOv(k, b.t[j].c)
			if !ok {
				return nil
			}
			t = append(t, term{b.t[j].m, v})
			j++
		default:
			v, ok := mulOv(k, b.t[j].c)
			if !ok {
				return nil
			}
			if v, ok = addOv(a.t[i].c, v); !ok {
				return nil
			}
			if v != 0 {
				t = append(t, term{a.t[i].m, v})
			}
			i++
			j++
		}
	}
	return mkPoly(c, t)
}

func mulPoly(a, b *Poly) *Poly {
	if a.isConst() {
		return addScaled(zeroP, a.c, b)
	}
	if b.isConst() {
		return addScaled(zeroP, b.c, a)
	}
	if len(a.t)*len(b.t) > 200 {
		return nil
	}
	r := addScaled(zeroP, b.c, a)
	if r == nil {
		return nil
	}
	r = addScaled(r, a.c, addScaled(b, -b.c, oneP))
	if r == nil {
		return nil
	}
	for _, x := range a.t {
		for _, y := range b.t {
			if len(x.m.syms)+len(y.m.syms) > 6 {
				return nil
			}
			c, ok := mulOv(x.c, y.c)
			if !ok {
				return nil
			}
			ss := append(append([]Sym(nil), x.m.syms...), y.m.syms...)
			if r = addScaled(r, c, mkPoly(0, []term{{monoOf(ss), 1}})); r == nil {
				return nil
			}
		}
	}
	return r
}

// interval arithmetic with saturation

func satAdd(a, b int64, inf int64) int64 {
	if a == negInf || b == negInf || a == posInf || b == posInf {
		if a == inf || b == inf {
			return inf
		}
		if a == negInf || b == negInf {
			return negInf
		}
		return posInf
	}
	c, ok := addOv(a, b)
	if !ok {
		if a > 0 {
			return posInf
		}
		return negInf
	}
	return c
}

func ivAdd(a, b iv) iv { return iv{satAdd(a.lo, b.lo, negInf), satAdd(a.hi, b.hi, posInf)} }

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	neg := (a < 0) != (b < 0)
	inf := int64(posInf)
	if neg {
		inf = negInf
	}
	if a == negInf || a == posInf || b == negInf || b == posInf {
		return inf
	}
	c, ok := mulOv(a, b)
	if !ok {
		return inf
	}
	return c
}

func ivMul(a, b iv) iv {
	v := [4]int64{satMul(a.lo, b.lo), satMul(a.lo, b.hi), satMul(a.hi, b.lo), satMul(a.hi, b.hi)}
	r := iv{v[0], v[0]}
	for _, x := range v[1:] {
		if x < r.lo {
			r.lo = x
		}
		if x > r.hi {
			r.hi = x
		}
	}
	return r
}

func ivMeet(a, b iv) iv {
	if b.lo > a.lo {
		a.lo = b.lo
	}
	if b.hi < a.hi {
		a.hi = b.hi
	}
	return a
}

func ivHull(a, b iv) iv {
	if b.lo < a.lo {
		a.lo = b.lo
	}
	if b.hi > a.hi {
		a.hi = b.hi
	}
	return a
}

func (a iv) String() string {
	f := func(x int64) string {
		switch x {
		case negInf:
			return "-inf"
		case posInf:
			return "inf"
		}
		return strconv.FormatInt(x, 10)
	}
	return "[" + f(a.lo) + "," + f(a.hi) + "]"
}

func (p *Poly) hasSym(s Sym) bool {
	for _, t := range p.t {
		for _, x := range t.m.syms {
			if x == s {
				return true
			}
		}
	}
	return false
}

func (p *Poly) eachSym(f func(Sym)) {
	for _, t := range p.t {
		for _, x := range t.m.syms {
			f(x)
		}
	}
}

// deepSyms visits the symbols of p and of the arguments of derived symbols.
func (p *Poly) deepSyms(f func(Sym)) {
	seen := map[Sym]bool{}
	var rec func(p *Poly)
	rec = func(p *Poly) {
		p.eachSym(func(s Sym) {
			if seen[s] {
				return
			}
			seen[s] = true
			f(s)
			for _, a := range s.info().args {
				rec(a)
			}
		})
	}
	rec(p)
}

// linCoef returns the coefficient of the monomial consisting of s alone, and
// whether s occurs in no other monomial.
func (p *Poly) linCoef(s Sym) (int64, bool) {
	var c int64
	for _, t := range p.t {
		n := 0
		for _, x := range t.m.syms {
			if x == s {
				n++
			}
		}
		if n == 0 {
			continue
		}
		if len(t.m.syms) != 1 {
			return 0, false
		}
		c = t.c
	}
	return c, true
}

// subst replaces symbols in p through f (nil: unchanged).
func (p *Poly) subst(f func(Sym) *Poly) *Poly {
	changed := false
	p.eachSym(func(s Sym) {
		if !changed && f(s) != nil {
			changed = true
		}
	})
	if !changed {
		return p
	}
	r := K(p.c)
	for _, t := range p.t {
		m := oneP
		for _, s := range t.m.syms {
			q := f(s)
			if q == nil {
				q = symP(s)
			}
			if m = mulPoly(m, q); m == nil {
				return nil
			}
		}
		if r = addScaled(r, t.c, m); r == nil {
			return nil
		}
	}
	return r
}

func maxSymOf(p *Poly) Sym {
	m := Sym(-1)
	p.deepSyms(func(s Sym) {
		if s > m {
			m = s
		}
	})
	return m
}

// derive returns the canonical symbol op(args; n). The caller gives the range
// of the result.
func derive(op string, n int64, rng iv, args ...*Poly) *Poly {
	k := op + ":" + strconv.FormatInt(n, 10)
	for _, a := range args {
		k += "," + strconv.Itoa(int(a.id))
	}
	if s, ok := derived[k]; ok {
		return symP(s)
	}
	syms = append(syms, symInfo{name: op, op: op, args: args, n: n, rng: rng})
	s := Sym(len(syms) - 1)
	derived[k] = s
	return symP(s)
}

// be merges big-endian words: 256^k*be(n,P) + be(k,P+n) becomes be(n+k,P).
func canonBE(p *Poly) *Poly {
	for {
		var q *Poly
	outer:
		for i, a := range p.t {
			if len(a.m.syms) != 1 {
				continue
			}
			ia := a.m.syms[0].info()
			if ia.op != "be" {
				continue
			}
			for j, b := range p.t {
				if i == j || len(b.m.syms) != 1 {
					continue
				}
				ib := b.m.syms[0].info()
				if ib.op != "be" || len(ib.args) != len(ia.args) || ia.n+ib.n > 8 {
					continue
				}
				if len(ia.args) == 2 && ia.args[1] != ib.args[1] {
					continue
				}
				sh := int64(1) << uint(8*ib.n)
				if ib.n >= 8 || a.c%sh != 0 || a.c/sh != b.c || b.c == 0 {
					continue
				}
				if addScaled(ia.args[0], 1, K(ia.n)) != ib.args[0] {
					continue
				}
				q = addScaled(p, -a.c, symP(a.m.syms[0]))
				q = addScaled(q, -b.c, symP(b.m.syms[0]))
				q = addScaled(q, b.c, streamBE(ia.args[0], ia.n+ib.n, ia.args[1:]...))
				break outer
			}
		}
		if q == nil {
			return p
		}
		p = q
	}
}

// streamBE is the big-endian value of the n stream bytes at position pos.
func streamBE(pos *Poly, n int64, src ...*Poly) *Poly {
	r := iv{0, posInf}
	if n < 8 {
		r.hi = 1<<uint(8*n) - 1
	}
	return derive("be", n, r, append([]*Poly{pos}, src...)...)
}
