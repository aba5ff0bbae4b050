package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops: the configuration at the header is generalised until it describes
// every iteration. Integers that change are described, in this order of
// preference, as affine in the iteration number, as prefix sums of a function
// of the iteration number, as an affine function of another changing integer,
// or as a symbol of its own about which candidate facts are kept as long as
// they are inductive.

type leafPlan struct {
	path   string
	q      Sym
	e      *Poly // value at entry (nil: unknown)
	kind   int   // 1 affine, 2 prefix sum, 3 related, 4 own symbol
	lam    *Poly // affine
	base   string
	ratio  int64
	dead   map[string]bool
	expr   *Poly // value at the header in terms of k and own symbols
	ncands bool
}

type part struct {
	E, H   *Conf
	k      Sym
	plans  map[string]*leafPlan
	order  []string
	cands  map[*Poly]bool // facts about header symbols: alive or not
	clist  []*Poly
	hsyms  map[Sym]bool
	limit  Sym // symbols below exist before the loop
	leaves []seenLeaf
	young  bool
	flat   map[string]bool
}

type termRec struct {
	a     *act
	l     *loopInfo
	ps    []*Poly // measures: p >= 0 whenever the loop goes on
	nexts bool
}

func (x *Interp) recordTerm(a *act, b *ssa.BasicBlock, ins *ssa.If, c *Conf, v *BoolV) {
	for _, t := range x.terms {
		if t.a != a || !t.l.blocks[b] {
			continue
		}
		stay0, stay1 := t.l.blocks[b.Succs[0]], t.l.blocks[b.Succs[1]]
		if stay0 == stay1 {
			continue
		}
		t.measure(c.st, v, stay0)
	}
}

func (t *termRec) measure(st *State, v *BoolV, want bool) {
	add := func(p *Poly) {
		if p == nil {
			return
		}
		p = st.norm(p)
		for _, q := range t.ps {
			if q == p {
				return
			}
		}
		if len(t.ps) < 24 {
			t.ps = append(t.ps, p)
		}
	}
	switch v.op {
	case bNot:
		t.measure(st, v.a, !want)
	case bGe:
		if want {
			add(v.p)
		} else {
			add(addScaled(K(-1), -1, v.p))
		}
	case bEq:
		if !want {
			p := st.norm(v.p)
			if p != nil && st.entails(p) {
				add(p)
			} else if p != nil && st.entails(negP(p)) {
				add(negP(p))
			}
		}
	case bAnd:
		if want {
			t.measure(st, v.a, true)
			t.measure(st, v.b, true)
		}
	case bOr:
		if !want {
			t.measure(st, v.a, false)
			t.measure(st, v.b, false)
		}
	}
}

func (x *Interp) loop(a *act, l *loopInfo, entry *Conf) map[*ssa.BasicBlock][]*Conf {
	live := a.info.live[l.header]
	entry.gc(live, a.frame)
	x.loopSeq++
	iterKey := fmt.Sprintf("iter:%s:%d:%d", a.fn.Name(), l.n, len(x.stack))
	where := fnLabel(a.fn)
	pos := x.p.rel(loopPos(l))
	parts := map[string]*part{}
	var order []string
	mk := func(c *Conf, sig string) *part {
		p := &part{E: c, plans: map[string]*leafPlan{}, cands: map[*Poly]bool{}, hsyms: map[Sym]bool{}, flat: map[string]bool{}, limit: Sym(len(syms)), young: true}
		p.k = newSym("k", iv{0, posInf})
		p.hsyms[p.k] = true
		parts[sig] = p
		order = append(order, sig)
		return p
	}
	if !x.inWorkers && (simpleLoop(a, l) || fewTimes(a, l)) {
		if ex, ok := x.unroll(a, l, entry, iterKey); ok {
			if x.quiet == 0 {
				x.loopOK[where+"|"+pos]++
			}
			return ex
		}
	}
	p0 := mk(entry, entry.sig(live, 1))
	p0.H = &Conf{entry.env.clone(), entry.st.clone()}
	p0.H.st.setGh(iterKey, zeroP)
	converged := false
	for round := 0; round < 16; round++ {
		x.quiet++
		changed := false
		backs := map[string][]*Conf{}
		var bord []string
		for _, sig := range order {
			p := parts[sig]
			_, bs := x.region(a, l, map[*ssa.BasicBlock][]*Conf{l.header: {{p.H.env.clone(), p.H.st.clone()}}})
			for _, b := range bs {
				b.gc(live, a.frame)
				if x.dbg && x.quiet <= 1 {
					fmt.Printf("  BACK G=%s", b.st.norm(b.st.G("G")))
					for _, v := range live {
						if q, ok := b.env.m[v].(*Poly); ok {
							fmt.Printf(" %s=%s", regName(v), b.st.norm(q))
						}
					}
					fmt.Println()
				}
				s := b.sig(live, 1)
				if parts[s] == nil && len(parts) >= 8 {
					s = order[0]
				}
				b.st.setGh(iterKey, addScaled(b.st.G(iterKey), 1, oneP))
				if p != parts[s] && parts[s] != nil {
					// from another partition: its symbols keep their meaning of the previous iteration
					b = x.rename(b, p, nil)
				} else if parts[s] == nil {
					b = x.rename(b, p, nil)
				} else {
					b = x.rename(b, p, &p.k)
				}
				if len(backs[s]) == 0 {
					bord = append(bord, s)
				}
				backs[s] = append(backs[s], b)
			}
		}
		for _, s := range bord {
			bs := backs[s]
			p := parts[s]
			if p == nil {
				q := mk(bs[0], s)
				// the first configuration is the entry of the new partition
				q.E = &Conf{bs[0].env.clone(), bs[0].st.clone()}
				q.H = &Conf{bs[0].env.clone(), bs[0].st.clone()}
				changed = true
				if len(bs) > 1 {
					b := x.joinAll(bs[1:], live, a.frame)
					x.generalise(q, b, live, a.frame, iterKey, round)
				}
				continue
			}
			b := x.joinAll(bs, live, a.frame)
			if x.generalise(p, b, live, a.frame, iterKey, round) {
				changed = true
			}
		}
		x.quiet--
		if !changed {
			converged = true
			break
		}
	}
	if !converged {
		if ex, ok := x.unrollAfter(a, l, entry, iterKey); ok {
			if x.quiet == 0 {
				x.loopOK[where+"|"+pos]++
			}
			return ex
		}
		if x.quiet == 0 {
			x.notes["loop not converged: "+where+" "+pos]++
			x.oblige("loop-analysis", l.header.Instrs[0], entry.st, false, true, "the analysis of the loop does not converge")
		}
		for _, sig := range order {
			x.forget(parts[sig], live, a.frame)
		}
	}
	// final pass
	exits := map[*ssa.BasicBlock][]*Conf{}
	for _, sig := range order {
		p := parts[sig]
		tr := &termRec{a: a, l: l}
		x.terms = append(x.terms, tr)
		if x.dbg && x.quiet == 0 {
			fmt.Printf("LOOP %s %s part %s converged=%v\n", where, pos, sig, converged)
			for _, pa := range p.order {
				pl := p.plans[pa]
				fmt.Printf("   %s (%s): kind %d e=%v expr=%v\n", pa, pl.q, pl.kind, pl.e, pl.expr)
			}
			for _, c := range p.clist {
				if p.cands[c] {
					fmt.Printf("   cand %s\n", c)
				}
			}
		}
		ex, bs := x.region(a, l, map[*ssa.BasicBlock][]*Conf{l.header: {{p.H.env.clone(), p.H.st.clone()}}})
		x.terms = x.terms[:len(x.terms)-1]
		for t, cs := range ex {
			for _, c := range cs {
				c.st.dropGh(iterKey)
			}
			exits[t] = append(exits[t], cs...)
		}
		if x.quiet == 0 {
			for _, b := range bs {
				if b.st.feasible() {
					x.mon.back(x, a, l, p.H.st, b.st)
				}
			}
		}
		if x.quiet == 0 && !x.noObl {
			x.terminates(a, l, p, tr, bs, live, converged, where, pos)
		}
	}
	return exits
}

// simpleLoop: a small loop without calls.
func simpleLoop(a *act, l *loopInfo) bool {
	n := 0
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			n++
			switch ins.(type) {
			case *ssa.Call, *ssa.Defer, *ssa.Go, *ssa.Next:
				return false
			}
		}
	}
	return n < 40
}

// unrollAfter: workers on their own are not worth the time.
func (x *Interp) unrollAfter(a *act, l *loopInfo, entry *Conf, iterKey string) (map[*ssa.BasicBlock][]*Conf, bool) {
	if x.inWorkers {
		return nil, false
	}
	return x.unroll(a, l, entry, iterKey)
}

// unroll runs a small loop iteration by iteration until it cannot go on.
func (x *Interp) unroll(a *act, l *loopInfo, entry *Conf, iterKey string) (map[*ssa.BasicBlock][]*Conf, bool) {
	if len(l.blocks) > 6 && !fewTimes(a, l) {
		return nil, false
	}
	for b := range l.blocks {
		if b != l.header && a.info.loops[b] != nil {
			return nil, false
		}
	}
	live := a.info.live[l.header]
	exits := map[*ssa.BasicBlock][]*Conf{}
	run := func() bool {
		cur := []*Conf{{entry.env.clone(), entry.st.clone()}}
		exits = map[*ssa.BasicBlock][]*Conf{}
		for i := 0; i < 24; i++ {
			ex, bs := x.region(a, l, map[*ssa.BasicBlock][]*Conf{l.header: cur})
			for t, cs := range ex {
				exits[t] = append(exits[t], cs...)
			}
			if len(bs) == 0 {
				return true
			}
			if len(bs) > 1 {
				bs = []*Conf{x.joinAll(bs, live, a.frame)}
			}
			cur = bs
		}
		return false
	}
	x.quiet++
	ok := run()
	x.quiet--
	if ok && x.quiet == 0 {
		ok = run()
	}
	return exits, ok
}

// fewTimes: the loop goes round a small constant number of times.
func fewTimes(a *act, l *loopInfo) bool {
	if len(l.blocks) > 24 {
		return false
	}
	for b := range l.blocks {
		if b != l.header && a.info.loops[b] != nil {
			return false
		}
	}
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok || l.blocks[l.header.Succs[0]] == l.blocks[l.header.Succs[1]] {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	v, c := bo.X, bo.Y
	if _, ok := v.(*ssa.Const); ok {
		v, c = c, v
	}
	k, ok := c.(*ssa.Const)
	if !ok || k.Value == nil || !isIntType(k.Type()) {
		return false
	}
	for _, ins := range l.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := constStep(v, phi, l, 0); !ok {
			continue
		}
		for i, q := range l.header.Preds {
			if l.blocks[q] {
				if d, ok := constStep(phi.Edges[i], phi, l, 0); !ok || d == 0 {
					return false
				}
				continue
			}
			e, ok := phi.Edges[i].(*ssa.Const)
			if !ok || e.Value == nil || e.Int64()-k.Int64() > 17 || k.Int64()-e.Int64() > 17 {
				return false
			}
		}
		return true
	}
	return false
}

func loopPos(l *loopInfo) token.Pos {
	for _, ins := range l.header.Instrs {
		if p := posOf(ins); ins.Pos().IsValid() {
			return p
		}
	}
	best := token.NoPos
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			if p := ins.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

func (st *State) dropGh(k string) {
	if _, ok := st.gh[k]; ok {
		st.setGh("x", zeroP)
		delete(st.gh, "x")
		delete(st.gh, k)
	}
}

func (x *Interp) joinAll(cs []*Conf, live []ssa.Value, frame ObjID) *Conf {
	for len(cs) > 1 {
		var n []*Conf
		for i := 0; i+1 < len(cs); i += 2 {
			n = append(n, joinConfs(cs[i], cs[i+1], live, frame))
		}
		if len(cs)%2 == 1 {
			n = append(n, cs[len(cs)-1])
		}
		cs = n
	}
	cs[0].gc(live, frame)
	return cs[0]
}

// rename expresses a configuration of the end of an iteration in terms of the
// next one: own symbols of the header get new names, and the iteration number
// k becomes k-1 (or a new name as well, when k is nil).
func (x *Interp) rename(c *Conf, p *part, k *Sym) *Conf {
	m := map[Sym]*Poly{}
	for s := range p.hsyms {
		if k != nil && s == *k {
			m[s] = addScaled(symP(s), 1, K(-1))
			continue
		}
		in := s.info()
		n := newSym(strings.TrimSuffix(in.name, "'")+"'", in.rng)
		syms[n].set = in.set
		syms[n].fuzzy = in.fuzzy
		m[s] = symP(n)
	}
	memo := map[*Poly]*Poly{}
	blank := newState()
	var f func(q *Poly) *Poly
	f = func(q *Poly) *Poly {
		if len(q.t) == 0 {
			return q
		}
		if r, ok := memo[q]; ok {
			return r
		}
		r := q.subst(func(s Sym) *Poly {
			if n, ok := m[s]; ok {
				return n
			}
			in := s.info()
			if in.op == "" {
				return nil
			}
			ch := false
			as := make([]*Poly, len(in.args))
			for i, a := range in.args {
				as[i] = f(a)
				ch = ch || as[i] != a
			}
			if !ch {
				return nil
			}
			return blank.rederive(in.op, in.n, in.rng, as)
		})
		if r == nil {
			s := newSym("overflow", ivAll)
			syms[s].fuzzy = true
			r = symP(s)
		}
		memo[q] = r
		return r
	}
	st := c.st
	// bounds known for the renamed symbols
	n := newState()
	for s, r := range st.bnd {
		q := f(symP(s))
		if t, ok := q.asSym(); ok {
			n.bnd[t] = r
		} else {
			if r.lo != negInf {
				n.addFact(addScaled(q, -1, K(r.lo)))
			}
			if r.hi != posInf {
				n.addFact(addScaled(K(r.hi), -1, q))
			}
		}
	}
	for s, q := range st.sub {
		t := f(symP(s))
		r := f(st.norm(q))
		if ts, ok := t.asSym(); ok && !r.hasSym(ts) {
			n.sub[ts] = r
		} else {
			n.addFact(addScaled(t, -1, r))
			n.addFact(addScaled(r, -1, t))
		}
	}
	for _, q := range st.facts {
		if r := f(q); r != nil && len(r.t) > 0 {
			if guessed[q] {
				guessed[r] = true
				guessed[tighten(r)] = true
			}
			n.addFact(r)
		}
	}
	for _, q := range st.nes {
		n.nes = append(n.nes, f(q))
	}
	for s, b := range st.bools {
		n.bools[s] = b
	}
	for s, vs := range st.fin {
		if t, ok := f(symP(s)).asSym(); ok {
			if n.fin == nil {
				n.fin = map[Sym][]int64{}
			}
			n.fin[t] = vs
		}
	}
	g := func(q *Poly) *Poly {
		if inputOnly(q) {
			return q
		}
		return f(st.norm(q))
	}
	for id, o := range st.heap {
		no := *o
		no.val = mapVal(o.val, g)
		n.heap[id] = &no
	}
	for key, q := range st.gh {
		n.gh[key] = g(q)
	}
	n.trace = st.trace
	env := &Env{m: map[ssa.Value]Val{}}
	for r, v := range c.env.m {
		env.m[r] = mapVal(v, g)
	}
	return &Conf{env, n}
}

// invariant: p only depends on what was there before the loop.
func (p *part) invariant(q *Poly) bool {
	ok := true
	q.deepSyms(func(s Sym) {
		if s.info().op == "" && s >= p.limit {
			ok = false
		}
	})
	return ok
}

// onlyK: p depends on the iteration number and on what was there before the loop.
func (p *part) onlyK(q *Poly) bool {
	ok := true
	q.deepSyms(func(s Sym) {
		if s.info().op == "" && s >= p.limit && s != p.k {
			ok = false
		}
	})
	return ok
}

// generalise updates the header configuration of p so that it covers b; it
// reports whether anything changed.
func (x *Interp) generalise(p *part, b *Conf, live []ssa.Value, frame ObjID, iterKey string, round int) bool {
	A, B := p.H.st, b.st
	J := p.E.st.clone()
	j := &joiner{A: A, B: B, J: J, frame: frame, loopMode: true, flat: p.flat}
	changed := false
	type obs struct {
		a, b *Poly
		pl   *leafPlan
		neu  bool
	}
	var seen []*obs
	called := map[string]*obs{}
	j.leaf = func(path string, pa, pb *Poly) *Poly {
		if o := called[path]; o != nil {
			return symP(o.pl.q)
		}
		pl := p.plans[path]
		o := &obs{a: pa, b: pb}
		if pl == nil {
			pl = &leafPlan{path: path, dead: map[string]bool{}}
			pl.q = newSym("q."+strings.TrimPrefix(path, "r:"), ivAll)
			p.hsyms[pl.q] = true
			if p.invariant(pa) {
				pl.e = pa
			}
			p.plans[path] = pl
			p.order = append(p.order, path)
			o.neu = true
			changed = true
		}
		o.pl = pl
		called[path] = o
		seen = append(seen, o)
		return symP(pl.q)
	}
	j.tmplSub = func(v Val, idx *Poly) (Val, bool) {
		// idx = k-1+o for an invariant o: the element of iteration i is at i+o
		d := addScaled(idx, -1, symP(p.k))
		r := v
		if d != nil && p.invariant(d) {
			r = B.substVal(v, p.k, addScaled(iotaP, -1, d))
		}
		good := true
		exs := map[Sym]*Poly{}
		var sub func(s Sym) *Poly
		sub = func(s Sym) *Poly {
			inv := true
			symP(s).deepSyms(func(t Sym) {
				if t.info().op == "" && t >= p.limit && t != iotaSym && !isEx(t) {
					inv = false
				}
			})
			if inv {
				return nil
			}
			in := s.info()
			if in.op != "" && exs[s] == nil && B.finite(s) == nil && B.symIv(s) == in.rng {
				// nothing is known beyond what follows from the operation
				as := make([]*Poly, len(in.args))
				fine := true
				for i, a := range in.args {
					if as[i] = B.norm(a).subst(sub); as[i] == nil {
						fine = false
						break
					}
				}
				if fine {
					return B.rederive(in.op, in.n, in.rng, as)
				}
			}
			if exs[s] == nil {
				e := newEx("elt", B.ival(symP(s)))
				syms[e].set = B.finite(s)
				exs[s] = symP(e)
			}
			return exs[s]
		}
		r = mapVal(r, func(q *Poly) *Poly {
			q = B.norm(q)
			t := q.subst(sub)
			if t == nil {
				return symP(newEx("elt", B.ival(q)))
			}
			return t
		})
		if hasFreshRefs(r, frame) {
			good = true // objects are handled by unification
		}
		return r, good
	}
	j.prepare(live, p.H.env, b.env)
	env := j.build(live, p.H.env, b.env)
	if j.changed {
		changed = true
	}
	k := symP(p.k)
	// decide the plan of every path that was seen
	sort.SliceStable(seen, func(i, l int) bool { return seen[i].pl.path < seen[l].pl.path })
	delta := func(o *obs) *Poly {
		if o.pl.e == nil {
			return nil
		}
		return B.norm(addScaled(o.b, -1, o.pl.e))
	}
	set := func(pl *leafPlan, kind int) {
		if pl.kind != kind {
			pl.kind = kind
			changed = true
		}
	}
	for _, o := range seen {
		pl := o.pl
		if pl.kind == 4 {
			continue
		}
		if o.neu {
			d := B.norm(addScaled(o.b, -1, o.a))
			if d != nil && pl.e != nil && p.invariant(d) {
				pl.lam = d
				set(pl, 1)
				continue
			}
			if d != nil && pl.e != nil && p.onlyK(d) && strings.Contains(d.String(), "") && d.hasDeep(p.k) {
				pl.lam = psumFn(B.substPoly(d, p.k, addScaled(iotaP, 1, oneP)))
				set(pl, 2)
				continue
			}
			set(pl, 3)
			continue
		}
		if pl.kind == 1 || pl.kind == 2 {
			if pl.kind == 1 && pl.e != nil {
				// the step of the last iteration, in terms of the new k
				prev := addScaled(pl.e, 1, mulPoly(pl.lam, addScaled(k, -1, oneP)))
				if prev != nil {
					d := B.norm(addScaled(o.b, -1, prev))
					if d != nil && d.hasDeep(p.k) && p.onlyK(d) {
						pl.lam = psumFn(B.substPoly(d, p.k, addScaled(iotaP, 1, oneP)))
						set(pl, 2)
						continue
					}
				}
			}
			set(pl, 3)
			pl.base = ""
		}
	}
	// related integers
	for _, o := range seen {
		pl := o.pl
		if pl.kind != 3 {
			continue
		}
		if pl.base != "" {
			ro := called[pl.base]
			if ro != nil && pl.e != nil {
				da, db := delta(o), delta(ro)
				if da != nil && db != nil && B.norm(addScaled(da, -pl.ratio, db)) == zeroP {
					continue // still related
				}
				if da != nil && db != nil {
					diff := addScaled(da, -pl.ratio, db)
					if diff != nil && B.decideEq(diff) == 1 {
						continue
					}
				}
			}
			pl.dead[pl.base] = true
			pl.base = ""
			changed = true
		}
		found := false
		if pl.e != nil {
			for _, ro := range seen {
				if ro == o || ro.pl.kind != 4 || pl.dead[ro.pl.path] || ro.pl.e == nil {
					continue
				}
				da, db := delta(o), delta(ro)
				if da == nil || db == nil {
					continue
				}
				if r, ok := polyRatio(da, db); ok && db != zeroP {
					pl.base, pl.ratio = ro.pl.path, r
					found = true
					changed = true
					break
				}
			}
		}
		if !found {
			set(pl, 4)
		}
	}
	// expressions
	J.setBnd(p.k, iv{0, posInf})
	for _, path := range p.order {
		pl := p.plans[path]
		pl.expr = nil
		switch pl.kind {
		case 1:
			if m := mulPoly(pl.lam, k); m != nil {
				pl.expr = addScaled(pl.e, 1, m)
			}
		case 2:
			pl.expr = addScaled(pl.e, 1, psum(pl.lam, k))
		case 3:
			r := p.plans[pl.base]
			rq := symP(r.q)
			pl.expr = addScaled(addScaled(pl.e, pl.ratio, rq), -pl.ratio, r.e)
		case 4:
			syms[pl.q].fuzzy = false
		}
		if pl.expr != nil {
			J.setSub(pl.q, pl.expr)
		} else if o := called[path]; o != nil && (polyFuzzy(o.b)) {
			syms[pl.q].fuzzy = true
		}
	}
	// candidate facts
	p.leaves = nil
	for _, o := range seen {
		p.leaves = append(p.leaves, seenLeaf{o.pl, o.b})
	}
	p.candidates(x, A, B, round)
	atE := func(c *Poly) *Poly {
		return p.E.st.substAll(c, func(s Sym) *Poly {
			if s == p.k {
				return zeroP
			}
			for _, path := range p.order {
				if pl := p.plans[path]; pl.q == s {
					return pl.e
				}
			}
			return nil
		})
	}
	atB := func(c *Poly) *Poly {
		return B.substAll(c, func(s Sym) *Poly {
			for _, path := range p.order {
				if pl := p.plans[path]; pl.q == s {
					if o := called[path]; o != nil {
						return o.b
					}
					return nil
				}
			}
			return nil
		})
	}
	n := 0
	for _, c := range p.clist {
		if !p.cands[c] {
			continue
		}
		e := atE(c)
		if e == nil || !p.E.st.entails(e) {
			p.cands[c] = false
			continue
		}
		bb := atB(c)
		if bb == nil || !B.entails(bb) {
			p.cands[c] = false
			if !p.young {
				changed = true
			}
			continue
		}
		n++
	}
	for _, c := range p.clist {
		if p.cands[c] {
			J.assume(c)
		}
	}
	J.setGh(iterKey, J.G(iterKey))
	p.young = false
	p.H = &Conf{env, J}
	if x.dbg && x.quiet <= 1 {
		fmt.Printf("  generalise round %d changed=%v jchanged=%v plans=%d cands=%d\n", round, changed, j.marks, len(p.order), n)
		for _, o := range seen {
			fmt.Printf("     %s kind=%d a=%s b=%s expr=%v\n", o.pl.path, o.pl.kind, o.a, o.b, o.pl.expr)
		}
	}
	return changed
}

func hasFreshRefs(v Val, frame ObjID) bool {
	r := false
	eachObj(v, func(o ObjID) { r = r || o >= frame })
	return r
}

func (q *Poly) hasDeep(s Sym) bool {
	f := false
	q.deepSyms(func(t Sym) { f = f || t == s })
	return f
}

// substAll substitutes also inside derived symbols.
func (st *State) substAll(q *Poly, f func(Sym) *Poly) *Poly {
	var rec func(q *Poly) *Poly
	rec = func(q *Poly) *Poly {
		return q.subst(func(s Sym) *Poly {
			if r := f(s); r != nil {
				return r
			}
			in := s.info()
			if in.op == "" {
				return nil
			}
			ch := false
			as := make([]*Poly, len(in.args))
			for i, a := range in.args {
				as[i] = rec(a)
				if as[i] == nil {
					return nil
				}
				ch = ch || as[i] != a
			}
			if !ch {
				return nil
			}
			return st.rederive(in.op, in.n, in.rng, as)
		})
	}
	return rec(q)
}

func (p *part) candidates(x *Interp, A, B *State, round int) {
	if round > 6 {
		return
	}
	add := func(c *Poly) {
		if c == nil || len(c.t) == 0 {
			return
		}
		c = tighten(c)
		if _, ok := p.cands[c]; ok {
			return
		}
		if len(p.clist) > 150 {
			return
		}
		p.cands[c] = true
		p.clist = append(p.clist, c)
	}
	k := symP(p.k)
	var own []*leafPlan
	for _, path := range p.order {
		if pl := p.plans[path]; pl.kind == 4 {
			own = append(own, pl)
		}
	}
	for _, pl := range own {
		q := symP(pl.q)
		add(q)
		add(addScaled(q, -1, oneP))
		if pl.e != nil && !pl.ncands {
			pl.ncands = true
			add(addScaled(q, -1, pl.e))
			add(addScaled(pl.e, -1, q))
			d := addScaled(q, -1, pl.e)
			add(addScaled(d, -1, k))
			add(addScaled(k, -1, d))
			// what the entry state knows about the entry value
			for _, t := range pl.e.t {
				if len(t.m.syms) != 1 || (t.c != 1 && t.c != -1) {
					continue
				}
				s := t.m.syms[0]
				if _, lin := pl.e.linCoef(s); !lin {
					continue
				}
				rest := addScaled(pl.e, -t.c, symP(s))
				xe := addScaled(zeroP, t.c, addScaled(q, -1, rest))
				n := 0
				for _, f := range p.E.st.facts {
					f = p.E.st.norm(f)
					if f == nil || !f.hasSym(s) {
						continue
					}
					c := f.subst(func(y Sym) *Poly {
						if y == s {
							return xe
						}
						return nil
					})
					add(c)
					if n++; n > 12 {
						break
					}
				}
				r := p.E.st.symIv(s)
				if r.lo != negInf {
					add(addScaled(xe, -1, K(r.lo)))
				}
				if r.hi != posInf {
					add(addScaled(K(r.hi), -1, xe))
				}
			}
		}
	}
	for i, a := range own {
		for _, b := range own[i+1:] {
			if a.e == nil || b.e == nil || len(own) > 8 {
				continue
			}
			da, db := addScaled(symP(a.q), -1, a.e), addScaled(symP(b.q), -1, b.e)
			add(addScaled(da, -1, db))
			add(addScaled(db, -1, da))
		}
	}
	// what the end of an iteration knows about the iteration number
	if round <= 3 {
		n := 0
		for _, f := range B.facts {
			f = B.norm(f)
			if f == nil || guessed[f] || len(f.t) < 2 || !p.onlyK(f) {
				continue
			}
			if c, lin := f.linCoef(p.k); lin && c < 0 {
				add(f)
				if n++; n > 8 {
					break
				}
			}
		}
	}
	// what the end of an iteration knows about the new value
	if round <= 3 {
		x.candFromBack(p, B, add)
	}
}

func (x *Interp) candFromBack(p *part, B *State, add func(*Poly)) {
	for _, pl := range p.lastSeen() {
		if pl.plan.kind != 4 {
			continue
		}
		q := symP(pl.plan.q)
		n := 0
		for _, t := range pl.b.t {
			if len(t.m.syms) != 1 || (t.c != 1 && t.c != -1) {
				continue
			}
			s := t.m.syms[0]
			if _, lin := pl.b.linCoef(s); !lin || s < p.limit {
				continue
			}
			rest := addScaled(pl.b, -t.c, symP(s))
			xe := addScaled(zeroP, t.c, addScaled(q, -1, rest))
			for _, f := range B.facts {
				f = B.norm(f)
				if f == nil || !f.hasSym(s) {
					continue
				}
				c := f.subst(func(y Sym) *Poly {
					if y == s {
						return xe
					}
					return nil
				})
				if c != nil && p.headerOnly(c) {
					add(c)
					if n++; n > 12 {
						break
					}
				}
			}
		}
	}
}

type seenLeaf struct {
	plan *leafPlan
	b    *Poly
}

func (p *part) lastSeen() []seenLeaf { return p.leaves }

func (p *part) headerOnly(q *Poly) bool {
	ok := true
	q.deepSyms(func(s Sym) {
		if s.info().op == "" && s >= p.limit && !p.hsyms[s] {
			ok = false
		}
	})
	return ok
}

// forget makes the header configuration independent of the analysis (used when it does not converge).
func (x *Interp) forget(p *part, live []ssa.Value, frame ObjID) {
	for _, path := range p.order {
		syms[p.plans[path].q].fuzzy = true
	}
	syms[p.k].fuzzy = true
	st := p.H.st
	for id, o := range st.heap {
		if id < frame && !o.summary {
			continue
		}
		if o.typ == nil {
			continue
		}
		if a, ok := o.val.(*ArrV); ok {
			n := *a
			n.segs, n.base = nil, st.exVal(a.elem, "unstable")
			st.setObj(id, &n)
		}
	}
}

// ---- prefix sums ----

// psumFn canonicalises a function of iota.
func psumFn(f *Poly) *Poly { return f }

var psumFns = map[int64]*Poly{}

// psum is the sum of f(0) .. f(n-1).
func psum(f, n *Poly) *Poly {
	psumFns[int64(f.id)] = f
	lo := globalLo(f)
	r := ivAll
	if lo >= 0 {
		r.lo = 0
	}
	if n == zeroP {
		return zeroP
	}
	return derive("psum", int64(f.id), r, n)
}

// ---- termination ----

func (x *Interp) terminates(a *act, l *loopInfo, p *part, tr *termRec, bs []*Conf, live []ssa.Value, converged bool, where, pos string) {
	key := where + "|" + pos
	if len(bs) == 0 {
		x.loopOK[key]++
		return
	}
	// loops over maps and strings
	for _, ins := range l.header.Instrs {
		if _, ok := ins.(*ssa.Next); ok {
			x.loopOK[key]++
			return
		}
	}
	g0 := p.H.st.norm(p.H.st.G("G"))
	if converged && pureLoop(l) {
		for _, b := range bs {
			if p.stuck(b, live) {
				x.loopStuck[key] = x.chain()
			}
		}
	}
	if countedLoop(l) {
		x.loopOK[key]++
		return
	}
	for _, b := range bs {
		if x.decreases(p, tr.ps, g0, b, live) {
			continue
		}
		if !converged {
			x.notes["termination of an unconverged loop "+key]++
			x.loopOK[key] += 0
			continue
		}
		if x.loopBad[key] == "" {
			var s []string
			for _, q := range tr.ps {
				s = append(s, q.String())
			}
			if x.dbg {
				fmt.Printf("NOTERM %s: %s\n%s", key, strings.Join(s, "; "), b.st.dump())
			}
			x.loopBad[key] = "no measure decreases on every way round (tried " + strings.Join(s, "; ") + ")"
		}
		return
	}
	x.loopOK[key]++
}

// stuck: the way round the loop ends in the very state that it began in.
func (p *part) stuck(b *Conf, live []ssa.Value) bool {
	if !b.st.feasible() {
		return false
	}
	str := func(v Val) string { return vstr(mapVal(v, func(q *Poly) *Poly { return b.st.norm(q) })) }
	for _, r := range live {
		av, bv := p.H.env.m[r], b.env.m[r]
		if av == nil || bv == nil {
			if (av == nil) != (bv == nil) {
				return false
			}
			continue
		}
		if str(av) != str(bv) {
			return false
		}
	}
	if len(b.st.heap) != len(p.H.st.heap) {
		return false
	}
	for id, o := range p.H.st.heap {
		ob := b.st.heap[id]
		if ob == nil || ob != o && str(o.val) != str(ob.val) {
			return false
		}
	}
	for k, g := range p.H.st.gh {
		h := b.st.gh[k]
		if h == nil || b.st.norm(g) != b.st.norm(h) {
			return false
		}
	}
	return true
}

// pureLoop: the loop does nothing but compute, and does not load what it stores.
func pureLoop(l *loopInfo) bool {
	root := func(v ssa.Value) ssa.Value {
		for {
			switch w := v.(type) {
			case *ssa.IndexAddr:
				v = w.X
			case *ssa.FieldAddr:
				v = w.X
			case *ssa.Slice:
				v = w.X
			default:
				return v
			}
		}
	}
	loads, stores := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				stores[root(i.Addr)] = true
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					return false
				}
				if i.Op == token.MUL {
					loads[root(i.X)] = true
				}
			case *ssa.Call:
				if b, ok := i.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "copy" {
						stores[root(i.Call.Args[0])] = true
					}
					continue
				}
				return false
			case *ssa.Select, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Next, *ssa.MapUpdate, *ssa.Lookup:
				return false
			}
		}
	}
	for v := range loads {
		if stores[v] {
			return false
		}
	}
	return true
}

// countedLoop: a variable of the loop only grows (or only shrinks) by
// constants on every way round, and the loop is left, in a block that every
// way round passes, when it passes a bound that the loop does not change.
func countedLoop(l *loopInfo) bool {
	var invariant func(v ssa.Value) bool
	invariant = func(v ssa.Value) bool {
		switch c := v.(type) {
		case *ssa.Call:
			b, isB := c.Call.Value.(*ssa.Builtin)
			if isB && (b.Name() == "len" || b.Name() == "cap") {
				return invariant(c.Call.Args[0])
			}
		case *ssa.BinOp:
			return invariant(c.X) && invariant(c.Y)
		case *ssa.Convert:
			return invariant(c.X)
		}
		if i, ok := v.(ssa.Instruction); ok {
			return !l.blocks[i.Block()]
		}
		return true
	}
	for b := range l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] {
			continue
		}
		all := true
		for _, q := range l.header.Preds {
			if l.blocks[q] && !(b == q || b.Dominates(q)) {
				all = false
			}
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !all || !ok {
			continue
		}
		op := bo.Op
		if !l.blocks[b.Succs[0]] {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			default:
				continue
			}
		}
		for side, v := range []ssa.Value{bo.X, bo.Y} {
			other := bo.Y
			if side == 1 {
				other = bo.X
			}
			want := 0
			switch op {
			case token.LSS, token.LEQ:
				want = 1 - 2*side
			case token.GTR, token.GEQ:
				want = 2*side - 1
			}
			if want == 0 || !invariant(other) {
				continue
			}
			for _, ins := range l.header.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if d, ok := constStep(v, phi, l, 0); !ok || d*int64(want) < 0 {
					continue
				}
				grows := true
				for i, q := range l.header.Preds {
					if l.blocks[q] {
						d, ok := constStep(phi.Edges[i], phi, l, 0)
						if !ok || d*int64(want) <= 0 {
							grows = false
						}
					}
				}
				if grows {
					return true
				}
			}
		}
	}
	return false
}

// constStep: v is phi plus a constant (the one nearest to zero of those it may be).
func constStep(v ssa.Value, phi *ssa.Phi, l *loopInfo, depth int) (int64, bool) {
	if v == phi {
		return 0, true
	}
	if depth > 8 {
		return 0, false
	}
	switch w := v.(type) {
	case *ssa.BinOp:
		c, ok := w.Y.(*ssa.Const)
		if !ok || c.Value == nil || w.Op != token.ADD && w.Op != token.SUB {
			return 0, false
		}
		d, ok := constStep(w.X, phi, l, depth+1)
		if !ok {
			return 0, false
		}
		k := c.Int64()
		if w.Op == token.SUB {
			k = -k
		}
		return d + k, true
	case *ssa.Phi:
		if !l.blocks[w.Block()] || w.Block() == l.header {
			return 0, false
		}
		best, first := int64(0), true
		for _, e := range w.Edges {
			d, ok := constStep(e, phi, l, depth+1)
			if !ok {
				return 0, false
			}
			if !first && (d > 0) != (best > 0) {
				return 0, false
			}
			if first || d > 0 && d < best || d < 0 && d > best {
				best, first = d, false
			}
		}
		return best, !first
	}
	return 0, false
}

func (x *Interp) decreases(p *part, ps []*Poly, g0 *Poly, b *Conf, live []ssa.Value) bool {
	B := b.st
	if !B.feasible() {
		return true
	}
	// bytes were read
	if d := addScaled(B.norm(B.G("G")), -1, g0); d != nil && B.entails(addScaled(d, -1, oneP)) {
		return true
	}
	// the values at the next header, found in the same places
	next := map[Sym]*Poly{p.k: addScaled(symP(p.k), 1, oneP)}
	j := &joiner{A: p.H.st, B: B, J: newState(), frame: 1 << 30}
	vals := map[string]*Poly{}
	j.leaf = func(path string, pa, pb *Poly) *Poly { vals[path] = pb; return pa }
	var dummy func(path string, a, b Val)
	dummy = func(path string, av, bv Val) {
		defer func() { recover() }()
		j.au = &antiUnifier{a: j.A, b: j.B, memo: map[[2]*Poly]*Poly{}}
		j.val(path, av, bv, false)
	}
	for _, r := range live {
		if av, ok := p.H.env.m[r]; ok {
			if bv, ok := b.env.m[r]; ok {
				dummy("r:"+regName(r), av, bv)
			}
		}
	}
	for id, o := range p.H.st.heap {
		if ob := B.heap[id]; ob != nil {
			dummy("o"+fmt.Sprint(int(id)), o.val, ob.val)
		}
	}
	for key, g := range p.H.st.gh {
		if h := B.gh[key]; h != nil {
			j.poly("g:"+key, g, h)
		}
	}
	for _, path := range p.order {
		pl := p.plans[path]
		if pl.kind == 4 {
			if v := vals[path]; v != nil {
				next[pl.q] = v
			} else {
				next[pl.q] = symP(pl.q)
			}
		}
	}
	for _, m := range ps {
		if !p.headerOnly(m) {
			continue
		}
		m = p.H.st.norm(m)
		n := B.substAll(m, func(s Sym) *Poly { return next[s] })
		if n == nil {
			continue
		}
		if d := addScaled(m, -1, n); d != nil && B.entails(addScaled(d, -1, oneP)) && B.entails(m) {
			return true
		}
	}
	return false
}
