package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// State is an abstract state: a heap of abstract objects and relational facts
// about the symbols that occur in it.
type State struct {
	heap  map[ObjID]*Obj
	gh    map[string]*Poly // ghost integers
	sub   map[Sym]*Poly    // equalities
	bnd   map[Sym]iv
	bools map[Sym]bool
	facts []*Poly // each >= 0
	fset  map[*Poly]bool
	nes   []*Poly         // each != 0
	fin   map[Sym][]int64 // the only possible values; never modified in place

	sharedHeap, sharedGh, sharedSub, sharedBnd, sharedBools, sharedFset bool
	ncache                                                              map[*Poly]*Poly
	trace                                                               *traceEl
}

type traceEl struct {
	up  *traceEl
	msg string
}

func newState() *State {
	return &State{heap: map[ObjID]*Obj{}, gh: map[string]*Poly{}, sub: map[Sym]*Poly{}, bnd: map[Sym]iv{}, bools: map[Sym]bool{}, fset: map[*Poly]bool{}}
}

func (st *State) clone() *State {
	st.sharedHeap, st.sharedGh, st.sharedSub, st.sharedBnd, st.sharedBools, st.sharedFset = true, true, true, true, true, true
	n := *st
	n.facts = st.facts[:len(st.facts):len(st.facts)]
	n.nes = st.nes[:len(st.nes):len(st.nes)]
	return &n
}

func (st *State) ownHeap() {
	if st.sharedHeap {
		m := make(map[ObjID]*Obj, len(st.heap)+4)
		for k, v := range st.heap {
			m[k] = v
		}
		st.heap, st.sharedHeap = m, false
	}
}

func (st *State) setGh(k string, p *Poly) {
	if st.sharedGh {
		m := make(map[string]*Poly, len(st.gh)+1)
		for k, v := range st.gh {
			m[k] = v
		}
		st.gh, st.sharedGh = m, false
	}
	st.gh[k] = p
}

func (st *State) setSub(s Sym, p *Poly) {
	if st.sharedSub {
		m := make(map[Sym]*Poly, len(st.sub)+1)
		for k, v := range st.sub {
			m[k] = v
		}
		st.sub, st.sharedSub = m, false
	}
	st.sub[s] = p
	st.ncache = nil
}

func (st *State) setBnd(s Sym, r iv) {
	if st.sharedBnd {
		m := make(map[Sym]iv, len(st.bnd)+1)
		for k, v := range st.bnd {
			m[k] = v
		}
		st.bnd, st.sharedBnd = m, false
	}
	st.bnd[s] = r
}

func (st *State) setBool(s Sym, b bool) {
	if st.sharedBools {
		m := make(map[Sym]bool, len(st.bools)+1)
		for k, v := range st.bools {
			m[k] = v
		}
		st.bools, st.sharedBools = m, false
	}
	st.bools[s] = b
}

func (st *State) addFact(p *Poly) {
	if st.fset[p] {
		return
	}
	if st.sharedFset {
		m := make(map[*Poly]bool, len(st.fset)+1)
		for k, v := range st.fset {
			m[k] = v
		}
		st.fset, st.sharedFset = m, false
	}
	st.fset[p] = true
	st.facts = append(st.facts, p)
}

func (st *State) G(k string) *Poly {
	if p := st.gh[k]; p != nil {
		return p
	}
	return zeroP
}

// norm rewrites p with the equalities known in st.
func (st *State) norm(p *Poly) *Poly {
	if len(p.t) == 0 {
		return p
	}
	if st.ncache == nil {
		st.ncache = map[*Poly]*Poly{}
	}
	if q, ok := st.ncache[p]; ok {
		return q
	}
	st.ncache[p] = p // cycle guard
	q := p.subst(func(s Sym) *Poly {
		if q, ok := st.sub[s]; ok {
			return st.norm(q)
		}
		in := s.info()
		if in.op == "" {
			return nil
		}
		var as []*Poly
		ch := false
		for _, a := range in.args {
			b := st.norm(a)
			ch = ch || a != b
			as = append(as, b)
		}
		if !ch {
			return nil
		}
		r := st.rederive(in.op, in.n, in.rng, as)
		if rs, ok := r.asSym(); ok {
			if q, ok := st.sub[rs]; ok {
				return st.norm(q)
			}
		}
		return r
	})
	if q == nil {
		q = p
	}
	if q != p {
		// be-words may meet only after substitution
		q = canonBE(q)
	}
	st.ncache[p] = q
	return q
}

func (st *State) symIv(s Sym) iv {
	return st.symIvD(s, 6)
}

func (st *State) symIvD(s Sym, d int) iv {
	in := s.info()
	r := in.rng
	if b, ok := st.bnd[s]; ok {
		r = ivMeet(r, b)
	}
	if d == 0 {
		return r
	}
	switch in.op {
	case "fdiv":
		a := st.ivalD(in.args[0], d-1)
		// the dividend is a value of the program and fits 64 bits
		q := iv{floorDiv(-1<<63, in.n), floorDiv(1<<63-1, in.n)}
		if in.n == 2 {
			q = iv{negInf, posInf}
		}
		if a.lo != negInf {
			q.lo = floorDiv(a.lo, in.n)
		}
		if a.hi != posInf {
			q.hi = floorDiv(a.hi, in.n)
		}
		r = ivMeet(r, q)
	case "min":
		a, b := st.ivalD(in.args[0], d-1), st.ivalD(in.args[1], d-1)
		r = ivMeet(r, iv{min64(a.lo, b.lo), min64(a.hi, b.hi)})
	case "max":
		a, b := st.ivalD(in.args[0], d-1), st.ivalD(in.args[1], d-1)
		r = ivMeet(r, iv{max64(a.lo, b.lo), max64(a.hi, b.hi)})
	}
	return r
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func floorDiv(a, n int64) int64 {
	q := a / n
	if a%n != 0 && (a < 0) != (n < 0) {
		q--
	}
	return q
}

func (st *State) ival(p *Poly) iv { return st.ivalD(p, 6) }

func (st *State) monoIv(m *mono, d int) iv {
	x := iv{1, 1}
	for _, s := range m.syms {
		x = ivMul(x, st.symIvD(s, d))
	}
	return x
}

func (st *State) ivalD(p *Poly, d int) iv {
	r := iv{p.c, p.c}
	for _, t := range p.t {
		r = ivAdd(r, ivMul(iv{t.c, t.c}, st.monoIv(t.m, d)))
	}
	return r
}

// defFacts returns facts that hold for a derived symbol by definition.
func defFacts(s Sym) []*Poly {
	in := s.info()
	if in.op == "" {
		return nil
	}
	x := symP(s)
	le := func(a, b *Poly) *Poly { return addScaled(b, -1, a) } // a <= b
	var r []*Poly
	add := func(p *Poly) {
		if p != nil {
			r = append(r, p)
		}
	}
	switch in.op {
	case "fdiv":
		p := in.args[0]
		add(addScaled(p, -in.n, x))                          // p - n q >= 0
		add(addScaled(addScaled(K(in.n-1), in.n, x), -1, p)) // n q + n-1 - p >= 0
	case "mod":
		// p = n*fdiv(p,n) + mod
		p := in.args[0]
		q := derive("fdiv", in.n, ivAll, p)
		e := addScaled(addScaled(p, -1, x), -in.n, q)
		add(e)
		if e != nil {
			add(addScaled(zeroP, -1, e))
		}
		add(x)
		add(addScaled(K(in.n-1), -1, x))
	case "bit":
		p := in.args[0]
		if globalLo(p) >= 0 {
			add(addScaled(p, -(int64(1) << uint(in.n)), x))
		}
	case "min":
		add(le(x, in.args[0]))
		add(le(x, in.args[1]))
	case "max":
		add(le(in.args[0], x))
		add(le(in.args[1], x))
	case "and":
		for _, a := range in.args {
			if globalLo(a) >= 0 {
				add(le(x, a))
			}
		}
	case "or":
		for _, a := range in.args {
			if globalLo(a) >= 0 {
				add(le(a, x))
			}
		}
	case "seq":
		// values of a monotone sequence; see sequences
	}
	return r
}

var emptyState = newState()

func globalLo(p *Poly) int64 { return emptyState.ival(p).lo }
func globalHi(p *Poly) int64 { return emptyState.ival(p).hi }

// tighten divides by the gcd of the coefficients (sound for integers).
func tighten(p *Poly) *Poly {
	if len(p.t) == 0 {
		return p
	}
	g := int64(0)
	for _, t := range p.t {
		g = gcd64(g, t.c)
	}
	if g <= 1 {
		return p
	}
	t := make([]term, len(p.t))
	for i, x := range p.t {
		t[i] = term{x.m, x.c / g}
	}
	return mkPoly(floorDiv(p.c, g), t)
}

func negP(p *Poly) *Poly { return addScaled(zeroP, -1, p) }

var lpCalls, lpCons int

// entails reports whether st implies p >= 0.
func (st *State) entails(p *Poly) bool {
	if p == nil {
		return false
	}
	p = st.norm(p)
	if p == nil {
		return false
	}
	p = tighten(p)
	if st.ival(p).lo >= 0 {
		return true
	}
	if st.fset[p] {
		return true
	}
	if len(p.t) == 0 {
		return p.c >= 0
	}
	np := addScaled(K(-1), -1, p) // p <= -1
	if np == nil {
		return false
	}
	return st.contradicts(np)
}

// contradicts reports whether adding np >= 0 makes st infeasible.
func (st *State) contradicts(np *Poly) bool {
	lpCalls++
	cons := []*Poly{np}
	seen := map[*Poly]bool{np: true}
	inSet := map[*mono]bool{}
	var front []*mono
	addM := func(p *Poly) {
		for _, t := range p.t {
			if !inSet[t.m] {
				inSet[t.m] = true
				front = append(front, t.m)
			}
		}
	}
	add := func(p *Poly) {
		if p == nil || seen[p] || len(p.t) == 0 || len(cons) > 220 {
			return
		}
		seen[p] = true
		cons = append(cons, p)
	}
	addM(np)
	for round := 0; round < 5 && len(front) > 0; round++ {
		cur := front
		front = nil
		curSet := map[*mono]bool{}
		for _, m := range cur {
			curSet[m] = true
		}
		n0 := len(cons)
		for _, f := range st.facts {
			f = st.norm(f)
			if f == nil || seen[f] {
				continue
			}
			for _, t := range f.t {
				if curSet[t.m] {
					add(f)
					break
				}
			}
		}
		for _, m := range cur {
			for _, s := range m.syms {
				if s.info().op != "" {
					for _, d := range defFacts(s) {
						if d = st.norm(d); d == nil {
							continue
						}
						if len(m.syms) == 1 {
							add(d)
						} else {
							// a product with the other factors when they are nonnegative
							rest := oneP
							skipped := false
							for _, o := range m.syms {
								if o == s && !skipped {
									skipped = true
									continue
								}
								rest = mulPoly(rest, symP(o))
							}
							if st.ival(rest).lo >= 0 {
								add(mulPoly(rest, d))
							}
						}
					}
					for _, d := range st.seqFacts(s, inSet) {
						add(st.norm(d))
					}
				}
			}
			// products
			if len(m.syms) >= 2 {
				for i, s := range m.syms {
					if st.symIv(s).lo < 0 || (i > 0 && m.syms[i-1] == s) {
						continue
					}
					var rest []Sym
					rest = append(rest, m.syms[:i]...)
					rest = append(rest, m.syms[i+1:]...)
					rm := monoOf(append([]Sym(nil), rest...))
					sp := symP(s)
					for _, f := range st.facts {
						f = st.norm(f)
						if f == nil {
							continue
						}
						for _, t := range f.t {
							if t.m == rm {
								add(mulPoly(f, sp))
								break
							}
						}
					}
					r := st.monoIv(rm, 4)
					rp := mkPoly(0, []term{{rm, 1}})
					if r.lo != negInf {
						add(mulPoly(addScaled(rp, -r.lo, oneP), sp))
					}
					if r.hi != posInf {
						add(mulPoly(addScaled(K(r.hi), -1, rp), sp))
					}
				}
			}
		}
		for _, c := range cons[n0:] {
			addM(c)
		}
	}
	// interval bounds of every monomial that occurs
	ms := map[*mono]bool{}
	for _, c := range cons {
		for _, t := range c.t {
			ms[t.m] = true
		}
	}
	var ml []*mono
	for m := range ms {
		ml = append(ml, m)
	}
	sort.Slice(ml, func(i, j int) bool { return ml[i].id < ml[j].id })
	for _, m := range ml {
		r := st.monoIv(m, 6)
		mp := mkPoly(0, []term{{m, 1}})
		if r.lo != negInf {
			cons = append(cons, addScaled(mp, -1, K(r.lo)))
		}
		if r.hi != posInf {
			cons = append(cons, addScaled(K(r.hi), -1, mp))
		}
	}
	lpCons += len(cons)
	return infeasible(cons)
}

// entailsSplit is entails with case splits over small finite symbols and over
// minima and maxima.
func (st *State) entailsSplit(p *Poly) bool { return st.entailsS(p, 3) }

func (st *State) entailsS(p *Poly, depth int) bool {
	if p == nil {
		return false
	}
	if st.entails(p) {
		return true
	}
	if depth == 0 {
		return false
	}
	p = st.norm(p)
	var cand []Sym
	add := func(q *Poly) {
		q.deepSyms(func(s Sym) {
			for _, c := range cand {
				if c == s {
					return
				}
			}
			cand = append(cand, s)
		})
	}
	add(p)
	for _, s := range cand {
		in := s.info()
		if in.op == "min" || in.op == "max" {
			a, b := in.args[0], in.args[1]
			d := addScaled(b, -1, a) // b-a
			if in.op == "max" {
				d = negP(d)
			}
			s1, s2 := st.clone(), st.clone()
			ok1 := s1.assume(d) && s1.assumeEq(addScaled(symP(s), -1, a))
			ok2 := s2.assume(addScaled(negP(d), 1, K(0))) && s2.assumeEq(addScaled(symP(s), -1, b))
			return (!ok1 || s1.entailsS(p, depth-1)) && (!ok2 || s2.entailsS(p, depth-1))
		}
	}
	for _, s := range cand {
		vals := st.finite(s)
		if vals == nil {
			continue
		}
		for _, v := range vals {
			s1 := st.clone()
			if s1.assumeEq(addScaled(symP(s), -v, oneP)) && !s1.entailsS(p, depth-1) {
				return false
			}
		}
		return true
	}
	return false
}

func (st *State) setOf(s Sym) []int64 {
	if f := st.fin[s]; f != nil {
		return f
	}
	return s.info().set
}

// finite returns the possible values of s when there are few.
func (st *State) finite(s Sym) []int64 {
	r := st.symIv(s)
	if set := st.setOf(s); set != nil {
		var o []int64
		for _, v := range set {
			if v >= r.lo && v <= r.hi {
				o = append(o, v)
			}
		}
		return st.filterNe(s, o)
	}
	if r.lo != negInf && r.hi != posInf && r.hi-r.lo <= 8 && r.hi-r.lo >= 0 {
		var o []int64
		for v := r.lo; v <= r.hi; v++ {
			o = append(o, v)
		}
		return st.filterNe(s, o)
	}
	return nil
}

func (st *State) filterNe(s Sym, vs []int64) []int64 {
	o := vs[:0:0]
outer:
	for _, v := range vs {
		for _, ne := range st.nes {
			if len(ne.t) == 1 && len(ne.t[0].m.syms) == 1 && ne.t[0].m.syms[0] == s && ne.t[0].c*v+ne.c == 0 {
				continue outer
			}
		}
		o = append(o, v)
	}
	return o
}

// assume adds p >= 0; it returns false if the state becomes infeasible.
func (st *State) assume(p *Poly) bool {
	if p == nil {
		return true
	}
	p = st.norm(p)
	if p == nil {
		return true
	}
	p = tighten(p)
	r := st.ival(p)
	if r.lo >= 0 {
		return true
	}
	if r.hi < 0 {
		return false
	}
	if len(p.t) == 1 && len(p.t[0].m.syms) == 1 {
		s, c := p.t[0].m.syms[0], p.t[0].c
		b := st.symIv(s)
		if c == 1 {
			b.lo = max64(b.lo, -p.c)
		} else { // -1 after tightening
			b.hi = min64(b.hi, p.c)
		}
		return st.refine(s, b)
	}
	st.addFact(p)
	return true
}

// refine narrows the bounds of s.
func (st *State) refine(s Sym, b iv) bool {
	for again := true; again; {
		again = false
		if b.lo > b.hi {
			return false
		}
		if set := st.setOf(s); set != nil {
			lo, hi, any := int64(0), int64(0), false
			for _, v := range st.filterNe(s, set) {
				if v >= b.lo && v <= b.hi {
					if !any || v < lo {
						lo = v
					}
					if !any || v > hi {
						hi = v
					}
					any = true
				}
			}
			if !any {
				return false
			}
			b = iv{lo, hi}
		}
		for _, ne := range st.nes {
			ne = st.norm(ne)
			if ne == nil || len(ne.t) != 1 || len(ne.t[0].m.syms) != 1 || ne.t[0].m.syms[0] != s || ne.c%ne.t[0].c != 0 {
				continue
			}
			v := -ne.c / ne.t[0].c
			if v == b.lo {
				b.lo++
				again = true
			}
			if v == b.hi {
				b.hi--
				again = true
			}
		}
	}
	if b.lo == b.hi {
		return st.bind(s, K(b.lo))
	}
	st.setBnd(s, b)
	return true
}

// bind records s = p (s does not occur in p).
func (st *State) bind(s Sym, p *Poly) bool {
	b := st.symIv(s)
	st.setSub(s, p)
	if b.lo != negInf && !st.assume(addScaled(p, -b.lo, oneP)) {
		return false
	}
	if b.hi != posInf && !st.assume(addScaled(K(b.hi), -1, p)) {
		return false
	}
	if set := st.setOf(s); set != nil && p.isConst() {
		ok := false
		for _, v := range set {
			ok = ok || v == p.c
		}
		if !ok {
			return false
		}
	}
	for _, ne := range st.nes {
		if q := st.norm(ne); q != nil && q == zeroP {
			return false
		}
	}
	// facts that collapsed
	for _, f := range st.facts {
		q := st.norm(f)
		if q != nil && q != f {
			if r := st.ival(q); r.hi < 0 {
				return false
			}
			if len(q.t) == 1 && len(q.t[0].m.syms) == 1 {
				if !st.assume(q) {
					return false
				}
			}
		}
	}
	return true
}

// assumeEq adds p == 0.
func (st *State) assumeEq(p *Poly) bool {
	if p == nil {
		return true
	}
	p = st.norm(p)
	if p == nil {
		return true
	}
	if len(p.t) == 0 {
		return p.c == 0
	}
	g := int64(0)
	for _, t := range p.t {
		g = gcd64(g, t.c)
	}
	if p.c%g != 0 {
		return false
	}
	if g > 1 {
		t := make([]term, len(p.t))
		for i, x := range p.t {
			t[i] = term{x.m, x.c / g}
		}
		p = mkPoly(p.c/g, t)
	}
	r := st.ival(p)
	if r.lo > 0 || r.hi < 0 {
		return false
	}
	// choose a symbol to eliminate: newest plain symbol, then newest derived symbol
	best, bestDerived := Sym(-1), true
	for _, t := range p.t {
		if len(t.m.syms) != 1 || (t.c != 1 && t.c != -1) {
			continue
		}
		s := t.m.syms[0]
		if c, lin := p.linCoef(s); !lin || c == 0 {
			continue
		}
		rest := addScaled(p, -t.c, symP(s))
		occ := false
		rest.deepSyms(func(x Sym) { occ = occ || x == s })
		if occ {
			continue
		}
		d := s.info().op != ""
		if best < 0 || (bestDerived && !d) || (bestDerived == d && s > best) {
			best, bestDerived = s, d
		}
	}
	if best < 0 {
		return st.assume(p) && st.assume(negP(p))
	}
	c, _ := p.linCoef(best)
	rest := addScaled(p, -c, symP(best)) // c*s + rest = 0
	return st.bind(best, addScaled(zeroP, -c, rest))
}

// assumeNe adds p != 0.
func (st *State) assumeNe(p *Poly) bool {
	if p == nil {
		return true
	}
	p = st.norm(p)
	if p == nil {
		return true
	}
	if p.isConst() {
		return p.c != 0
	}
	r := st.ival(p)
	if r.lo > 0 || r.hi < 0 {
		return true
	}
	if r.lo == 0 {
		return st.assume(addScaled(p, -1, oneP))
	}
	if r.hi == 0 {
		return st.assume(addScaled(K(-1), -1, p))
	}
	st.nes = append(st.nes, p)
	if len(p.t) == 1 && len(p.t[0].m.syms) == 1 {
		s := p.t[0].m.syms[0]
		return st.refine(s, st.symIv(s))
	}
	if st.entails(p) {
		return st.assume(addScaled(p, -1, oneP))
	}
	if st.entails(negP(p)) {
		return st.assume(addScaled(K(-1), -1, p))
	}
	return true
}

// decide: 1 if p >= 0 holds, 0 if p < 0 holds, -1 unknown.
func (st *State) decideGe(p *Poly) int {
	if st.entails(p) {
		return 1
	}
	if st.entails(addScaled(K(-1), -1, p)) {
		return 0
	}
	return -1
}

func (st *State) decideEq(p *Poly) int {
	p = st.norm(p)
	if p == nil {
		return -1
	}
	if p.isConst() {
		if p.c == 0 {
			return 1
		}
		return 0
	}
	for _, ne := range st.nes {
		q := st.norm(ne)
		if q == p || (q != nil && negP(q) == p) {
			return 0
		}
	}
	if r := st.ival(p); r.lo > 0 || r.hi < 0 {
		return 0
	}
	if len(p.t) == 1 && len(p.t[0].m.syms) == 1 {
		if p.c%p.t[0].c != 0 {
			return 0
		}
		if vs := st.setOf(p.t[0].m.syms[0]); vs != nil {
			in := false
			for _, v := range st.finite(p.t[0].m.syms[0]) {
				in = in || p.t[0].c*v+p.c == 0
			}
			if !in {
				return 0
			}
		}
	}
	if st.entails(addScaled(p, -1, oneP)) || st.entails(addScaled(K(-1), -1, p)) {
		return 0
	}
	if st.entails(p) && st.entails(negP(p)) {
		return 1
	}
	return -1
}

// ---- arithmetic constructors ----

func (st *State) rederive(op string, n int64, rng iv, as []*Poly) *Poly {
	switch op {
	case "fdiv":
		return st.fdiv(as[0], n)
	case "mod":
		return st.mod(as[0], n)
	case "bit":
		return st.bit(as[0], n)
	case "min":
		return st.minmax(as[0], as[1], true)
	case "max":
		return st.minmax(as[0], as[1], false)
	case "sx":
		return st.sx(as[0], n)
	case "be":
		return streamBE(as[0], n, as[1:]...)
	}
	return derive(op, n, rng, as...)
}

func (st *State) fdiv(p *Poly, n int64) *Poly {
	if n == 1 {
		return p
	}
	var ta, tb []term
	for _, t := range p.t {
		q := floorDiv(t.c, n)
		r := t.c - q*n
		if q != 0 {
			ta = append(ta, term{t.m, q})
		}
		if r != 0 {
			tb = append(tb, term{t.m, r})
		}
	}
	ca := floorDiv(p.c, n)
	a, b := mkPoly(ca, ta), mkPoly(p.c-ca*n, tb)
	if r := st.ival(b); r.lo >= 0 && r.hi < n {
		return a
	}
	// fdiv(fdiv(x,a),b) = fdiv(x,a*b)
	if s, ok := b.asSym(); ok && s.info().op == "fdiv" {
		if m, ok := mulOv(s.info().n, n); ok {
			return addScaled(a, 1, st.fdiv(s.info().args[0], m))
		}
	}
	// fdiv(be(k,P), 256^j) = be(k-j, P)
	if s, ok := b.asSym(); ok && s.info().op == "be" {
		for j := int64(1); j < s.info().n; j++ {
			if n == int64(1)<<uint(8*j) {
				return addScaled(a, 1, streamBE(s.info().args[0], s.info().n-j, s.info().args[1:]...))
			}
		}
	}
	return addScaled(a, 1, derive("fdiv", n, ivAll, b))
}

// mod is the nonnegative remainder of p by n (n > 0).
func (st *State) mod(p *Poly, n int64) *Poly {
	if n == 1 {
		return zeroP
	}
	t := make([]term, 0, len(p.t))
	for _, x := range p.t {
		c := x.c - floorDiv(x.c, n)*n
		if c != 0 {
			t = append(t, term{x.m, c})
		}
	}
	c := p.c - floorDiv(p.c, n)*n
	q := mkPoly(c, t)
	if r := st.ival(q); r.lo >= 0 && r.hi < n {
		return q
	}
	if r := st.ival(p); r.lo >= 0 && r.hi < n {
		return p
	}
	if c > n/2 && len(t) > 0 {
		// the representative closest to zero keeps facts about the dividend useful
		q = mkPoly(c-n, t)
	}
	if s, ok := q.asSym(); ok {
		in := s.info()
		if in.op == "be" {
			for j := int64(1); j < in.n; j++ {
				if n == int64(1)<<uint(8*j) {
					return streamBE(addScaled(in.args[0], 1, K(in.n-j)), j, in.args[1:]...)
				}
			}
		}
		if (in.op == "mod" && in.n%n == 0) || (in.op == "sx" && in.n < 62 && (int64(1)<<uint(in.n))%n == 0) {
			return st.mod(in.args[0], n)
		}
	}
	if n == 2 {
		return derive("bit", 0, iv{0, 1}, q)
	}
	return derive("mod", n, iv{0, n - 1}, q)
}

// bit is bit k of p (two's complement).
func (st *State) bit(p *Poly, k int64) *Poly {
	if k == 0 {
		return st.mod(p, 2)
	}
	if p.isConst() {
		return K(p.c >> uint(k) & 1)
	}
	if r := st.ival(p); r.lo >= 0 && r.hi < int64(1)<<uint(k) {
		return zeroP
	}
	if s, ok := p.asSym(); ok {
		in := s.info()
		switch in.op {
		case "fdiv":
			if in.n&(in.n-1) == 0 {
				return st.bit(in.args[0], k+int64(bits.TrailingZeros64(uint64(in.n))))
			}
		case "mod":
			if in.n&(in.n-1) == 0 {
				if k < int64(bits.TrailingZeros64(uint64(in.n))) {
					return st.bit(in.args[0], k)
				}
				return zeroP
			}
		case "sx":
			if k < in.n {
				return st.bit(in.args[0], k)
			}
		case "be":
			// the byte that holds the bit
			if in.n > 1 {
				j := in.n - 1 - k/8
				if j >= 0 {
					return st.bit(streamBE(addScaled(in.args[0], 1, K(j)), 1, in.args[1:]...), k%8)
				}
			}
		}
	}
	return derive("bit", k, iv{0, 1}, p)
}

func (st *State) and(p, q *Poly) *Poly {
	if p.isConst() {
		p, q = q, p
	}
	if p == q {
		return p
	}
	if q.isConst() {
		if p.isConst() {
			return K(p.c & q.c)
		}
		m := q.c
		if m == 0 {
			return zeroP
		}
		if m == -1 {
			return p
		}
		if m > 0 {
			if m&(m+1) == 0 { // low bits
				return st.mod(p, m+1)
			}
			// clip to the bits p can have
			if r := st.ival(p); r.lo >= 0 && r.hi < 1<<60 {
				top := int64(1)
				for top <= r.hi {
					top <<= 1
				}
				if mm := m & (top - 1); mm != m {
					return st.and(p, K(mm))
				}
				if m|^(top-1) == -1 {
					return p
				}
			}
			if bits.OnesCount64(uint64(m)) <= 8 {
				r := zeroP
				for k := int64(0); k < 62; k++ {
					if m>>uint(k)&1 != 0 {
						r = addScaled(r, int64(1)<<uint(k), st.bit(p, k))
					}
				}
				return r
			}
			return derive("and", 0, iv{0, m}, p, q)
		}
		// negative mask: p minus the bits of ^m
		if r := addScaled(p, -1, st.and(p, K(^m))); r != nil {
			return r
		}
	}
	r := ivAll
	if globalLo(p) >= 0 {
		r = iv{0, globalHi(p)}
	}
	if globalLo(q) >= 0 {
		r = ivMeet(r, iv{0, globalHi(q)})
	}
	if p.id > q.id {
		p, q = q, p
	}
	return derive("and", 0, r, p, q)
}

func divisibleBy(p *Poly, n int64) bool {
	if p.c%n != 0 {
		return false
	}
	for _, t := range p.t {
		if t.c%n != 0 {
			return false
		}
	}
	return true
}

func (st *State) or(p, q *Poly) *Poly {
	if p == zeroP {
		return q
	}
	if q == zeroP {
		return p
	}
	if p.isConst() && q.isConst() {
		return K(p.c | q.c)
	}
	for i := 0; i < 2; i++ {
		if r := st.ival(q); r.lo >= 0 && r.hi < 1<<61 {
			n := int64(1)
			for n <= r.hi {
				n <<= 1
			}
			if divisibleBy(p, n) {
				if s := addScaled(p, 1, q); s != nil {
					return canonBE(s)
				}
			}
		}
		p, q = q, p
	}
	r := ivAll
	if globalLo(p) >= 0 && globalLo(q) >= 0 {
		r = iv{max64(globalLo(p), globalLo(q)), posInf}
		h := max64(globalHi(p), globalHi(q))
		if h < 1<<61 {
			n := int64(1)
			for n <= h {
				n <<= 1
			}
			r.hi = n - 1
		}
	}
	if p.id > q.id {
		p, q = q, p
	}
	return derive("or", 0, r, p, q)
}

// sx sign-extends the low w bits of p.
func (st *State) sx(p *Poly, w int64) *Poly {
	if w >= 64 {
		if r := st.ival(p); r.hi != posInf && r.lo != negInf {
			return p
		}
		return derive("sx", 64, ivAll, p)
	}
	h := int64(1) << uint(w-1)
	if r := st.ival(p); r.lo >= -h && r.hi < h {
		return p
	}
	if p.isConst() {
		return K(p.c << uint(64-w) >> uint(64-w))
	}
	// canonical argument: reduce modulo 2^w
	if w < 62 {
		q := st.mod(p, int64(1)<<uint(w))
		if s, ok := q.asSym(); ok && s.info().op == "mod" && s.info().n == int64(1)<<uint(w) {
			q = s.info().args[0]
		}
		p = q
	}
	return derive("sx", w, iv{-h, h - 1}, p)
}

func (st *State) minmax(a, b *Poly, isMin bool) *Poly {
	if a == b {
		return a
	}
	d := st.decideGe(addScaled(b, -1, a)) // a <= b
	if d == 1 {
		if isMin {
			return a
		}
		return b
	}
	if d == 0 {
		if isMin {
			return b
		}
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	op := "max"
	if isMin {
		op = "min"
	}
	return derive(op, 0, ivAll, a, b)
}

func (st *State) dump() string {
	var sb strings.Builder
	var ks []string
	for k := range st.gh {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, "  ghost %s = %s\n", k, st.norm(st.gh[k]))
	}
	for _, f := range st.facts {
		fmt.Fprintf(&sb, "  fact %s >= 0\n", st.norm(f))
	}
	for s, b := range st.bnd {
		fmt.Fprintf(&sb, "  %s in %s\n", s, b)
	}
	for s, b := range st.sub {
		fmt.Fprintf(&sb, "  %s := %s\n", s, b)
	}
	for s, b := range st.fin {
		fmt.Fprintf(&sb, "  %s in %v\n", s, b)
	}
	return sb.String()
}

var seqDepth int

// seqFacts: facts about prefix sums of nonnegative functions.
func (st *State) seqFacts(s Sym, in map[*mono]bool) []*Poly {
	si := s.info()
	if si.op != "psum" || seqDepth > 0 {
		return nil
	}
	f := psumFns[si.n]
	if f == nil || globalLo(f) < 0 {
		return nil
	}
	seqDepth++
	defer func() { seqDepth-- }()
	var r []*Poly
	var ms []*mono
	for m := range in {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	for _, m := range ms {
		for _, t := range m.syms {
			ti := t.info()
			if t == s || ti.op != "psum" || ti.n != si.n {
				continue
			}
			d := st.norm(addScaled(ti.args[0], -1, si.args[0]))
			if d == nil {
				continue
			}
			e := addScaled(symP(t), -1, symP(s))
			switch {
			case d == oneP:
				v := st.substPoly(f, iotaSym, si.args[0])
				r = append(r, addScaled(e, -1, v), addScaled(v, -1, e))
			case st.entails(d):
				r = append(r, e)
			}
			switch {
			case d == K(-1):
				v := st.substPoly(f, iotaSym, ti.args[0])
				r = append(r, addScaled(negP(e), -1, v), addScaled(v, 1, e))
			case st.entails(negP(d)):
				r = append(r, negP(e))
			}
		}
	}
	return r
}
