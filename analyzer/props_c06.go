package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Splitting of work over goroutines: every row, line, tile or item once.

func init() {
	checks["C06"] = Check{run: runC06, level: "other",
		expl:  "Value numbering of every function that counts workers: the arguments of worker k, of the last worker and of the sequential call are polynomials in k and the number of workers. The worker (every pixel kernel of that kind, for the drawing drivers) is value-numbered once with symbolic arguments; substituting worker k's arguments must give, effect by effect, iteration it of worker 0 moved by k times the worker's number of iterations, the last worker must continue where the previous one stopped and end where the sequential call ends. Number of launches, the count given to the wait group and the share of each worker (whole work divided by the number of workers) are compared as polynomials.",
		assum: []string{"runtime.GOMAXPROCS(0) is at least 1", "the product of an index and a step does not exceed the int range", "tile sizes and row strides are positive"}}
}

// parting is the division of work of one launcher.
type parting struct {
	l    *launcher
	e    *VEval
	k    V   // number of the worker
	t    V   // number of workers before the last
	a    []V // arguments of worker k
	b    []V // of the last
	c    []V // of the sequential call, nil if none
	at   *unit
	last *unit
	seq  *unit
	n    V // number of workers
}

var loopSyms = map[string]bool{"iter": true, "phi": true, "final": true, "trip": true, "exitsel": true}

// own renames the loop symbols of a launcher, so that they differ from those of its workers.
func (l *launcher) own(v V) V {
	e := l.e
	return e.rebuild(v, func(n V) V {
		if loopSyms[n.op] && len(n.args) == 0 && !strings.HasPrefix(n.aux, "L.") {
			x := e.mk(n.op, "L."+n.aux)
			if t := e.leafT[n]; t != nil {
				e.leafT[x] = t
			}
			return x
		}
		return nil
	})
}

func (l *launcher) ownAll(vs []V) []V {
	out := make([]V, len(vs))
	for i, v := range vs {
		out[i] = l.own(v)
	}
	return out
}

func conjuncts(v V) []V {
	if v == nil {
		return nil
	}
	if v.op == "and" {
		return v.args
	}
	return []V{v}
}

// nonNeg lists polynomials known to be >= 0 when v holds.
func (e *VEval) nonNeg(v V) []V {
	var out []V
	for _, c := range conjuncts(v) {
		switch {
		case c.op == "not" && c.args[0].op == "neg":
			out = append(out, c.args[0].args[0])
		case c.op == "neg":
			out = append(out, e.sub(e.scale(c.args[0], -1, 64), e.int(1, 64), 64))
		}
	}
	return out
}

func (p *parting) where() string { return fnLabel(p.l.fn) }

// partition finds the workers of a launcher.
func (l *launcher) partition() (*parting, string) {
	e := l.e
	var loop, last, seq *unit
	var add *VEff
	for _, x := range l.effs {
		if x.kind == "call" && x.goid == 0 && x.name == "(*sync.WaitGroup).Add" {
			if add != nil {
				return nil, "several calls of WaitGroup.Add"
			}
			add = x
		}
	}
	if add == nil || len(add.args) < 2 {
		return nil, "no call of WaitGroup.Add"
	}
	if len(add.loops) > 0 {
		return nil, "WaitGroup.Add within a loop"
	}
	var us []*unit
	for _, u := range l.units {
		if u.callee == nil && u.fv != nil && len(u.args) < 2 {
			continue // an ordinary callback
		}
		us = append(us, u)
	}
	for _, u := range us {
		switch {
		case len(u.loops) == 1 && loop == nil:
			loop = u
		case len(u.loops) == 0 && u.seq > add.seq && last == nil && (u.spawn != nil || !l.anySpawn()):
			last = u
		case len(u.loops) == 0 && seq == nil && u.spawn == nil:
			seq = u
		default:
			return nil, fmt.Sprintf("unit of work at %s does not belong to one loop and a last worker", e.p.rel(u.eff.pos))
		}
	}
	if loop == nil {
		return nil, "no loop that starts workers"
	}
	if !loop.loops[0].known {
		return nil, "number of workers started by the loop is not known"
	}
	p := &parting{l: l, e: e, at: loop, last: last, seq: seq}
	p.k = l.own(loop.loops[0].iter)
	p.t = l.own(loop.loops[0].trip)
	p.n = l.own(add.args[1])
	p.a = l.ownAll(loop.args)
	if last != nil {
		p.b = l.ownAll(last.args)
	} else {
		// the last worker is an iteration of the loop
		p.t = e.sub(p.t, e.int(1, 64), 64)
		eq := e.eqInt(p.k, p.t, 64)
		for i, a := range p.a {
			p.b = append(p.b, e.subst(e.subst(a, eq, e.boolean(true)), p.k, p.t))
			p.a[i] = e.subst(a, eq, e.boolean(false))
			lt := e.lt("i", p.k, p.t, 64)
			p.a[i] = e.subst(p.a[i], lt, e.boolean(true))
		}
	}
	if seq != nil {
		p.c = l.ownAll(seq.args)
	}
	return p, ""
}

func (l *launcher) anySpawn() bool {
	for _, u := range l.units {
		if u.spawn != nil {
			return true
		}
	}
	return false
}

// atK gives worker k's arguments.
func (p *parting) atK(k V) []V {
	out := make([]V, len(p.a))
	for i, a := range p.a {
		out[i] = p.e.subst(a, p.k, k)
	}
	return out
}

func (p *parting) zero() V { return p.e.int(0, 64) }

// counts: launches, the wait group and at least one worker.
func (p *parting) counts(r *Report) {
	e := p.e
	pos := e.p.rel(p.at.eff.pos)
	n := e.add(p.t, e.int(1, 64), 64)
	if e.sub(n, p.n, 64) == e.int(0, 64) {
		r.okN("number of workers", 1)
	} else {
		r.bad("number of workers", p.where(), pos, "%s workers are started, but the work is counted for %s", n.str(6), p.n.str(6))
	}
	// n >= 1
	ok := false
	var steps []string
	nv := p.n
	if k, isc := nv.intConst(); isc && k >= 1 {
		ok = true
	}
	isProcs := func(v V) bool {
		return strings.Contains(v.aux, "runtime.GOMAXPROCS") || strings.Contains(v.aux, "runtime.NumCPU")
	}
	if isProcs(nv) {
		ok = true
	}
	for _, lp := range p.l.wloops {
		it := p.l.own(lp.iter)
		q, rest, lin := e.coefOf(nv, it)
		if !lin {
			continue
		}
		c, isc := q.intConst()
		if !isc || c >= 0 || !isProcs(rest) {
			continue
		}
		// before another step the number is at least 1 - c
		want := e.sub(e.add(nv, e.int(c, 64), 64), e.int(1, 64), 64)
		for _, x := range e.nonNeg(p.l.own(lp.back)) {
			steps = append(steps, x.str(5))
			if d, isd := e.sub(want, x, 64).intConst(); isd && d >= 0 {
				ok = true
			}
		}
	}
	for _, u := range []*unit{p.last, p.at} {
		if u == nil || ok {
			continue
		}
		for _, x := range e.nonNeg(p.l.own(u.guard)) {
			if d, isd := e.sub(e.sub(nv, e.int(1, 64), 64), x, 64).intConst(); isd && d >= 0 {
				ok = true
			}
		}
		break
	}
	if !ok {
		if lo, _, has := e.rangeOf(nv, 6); has && lo.Sign() > 0 {
			ok = true
		}
	}
	if ok {
		r.okN("at least one worker", 1)
	} else {
		r.bad("at least one worker", p.where(), pos, "the number of workers %s is not kept at 1 or more %v", nv.str(6), steps)
	}
}

// guards of the units: every worker is started on the same paths.
func (p *parting) guards(r *Report) {
	e := p.e
	pos := e.p.rel(p.at.eff.pos)
	if p.last == nil {
		return
	}
	g := map[V]bool{}
	for _, c := range conjuncts(p.last.guard) {
		g[c] = true
	}
	// the looped unit's guard is the last one's plus the loop's own condition
	var extra []V
	lc := map[V]bool{}
	if lp := p.at.loops[0]; lp.cont != nil {
		for _, c := range conjuncts(lp.cont) {
			lc[c] = true
		}
	}
	for _, c := range conjuncts(p.at.guard) {
		if !g[c] && !lc[c] && !c.isTrue() {
			extra = append(extra, c)
		}
		delete(g, c)
	}
	delete(g, e.boolean(true))
	if len(extra) == 0 && len(g) == 0 {
		r.okN("same paths", 1)
	} else {
		var s []string
		for _, c := range extra {
			s = append(s, c.str(4))
		}
		for c := range g {
			s = append(s, c.str(4))
		}
		sort.Strings(s)
		r.bad("same paths", p.where(), pos, "some workers are started under a further condition: %s", strings.Join(s, ", "))
	}
	if p.seq == nil {
		return
	}
	// sequential exactly when not parallel
	sg, pg := conjuncts(p.seq.guard), conjuncts(p.last.guard)
	only := func(x, y []V) []V {
		m := map[V]bool{}
		for _, c := range y {
			m[c] = true
		}
		var o []V
		for _, c := range x {
			if !m[c] {
				o = append(o, c)
			}
		}
		return o
	}
	a, b := only(sg, pg), only(pg, sg)
	if len(a) == 1 && len(b) == 1 && e.not(a[0]) == b[0] {
		r.okN("sequential or parallel", 1)
	} else {
		r.bad("sequential or parallel", p.where(), e.p.rel(p.seq.eff.pos), "the sequential call and the workers are not each other's alternative")
	}
}

// work is the value-numbered body of a worker.
type work struct {
	name string
	fn   *ssa.Function
	e    *VEval
	args []V
	effs []*VEff
}

func (w *work) with(v V, argv []V, it, itv V) V {
	if v == nil {
		return nil
	}
	m := map[V]V{}
	for i, a := range w.args {
		if i < len(argv) {
			m[a] = argv[i]
		}
	}
	if it != nil {
		m[it] = itv
	}
	return w.e.rebuild(v, func(n V) V {
		if x := m[n]; x != nil {
			return x
		}
		return nil
	})
}

// bound describes a loop that goes on while step*it + off (?) 0.
type bound struct {
	kind      string // "<", "!="
	step, off V
}

func (e *VEval) boundOf(cont, it V) (bound, bool) {
	for _, c := range conjuncts(cont) {
		var p V
		kind := "<"
		switch {
		case c.op == "neg":
			p = c.args[0]
		case c.op == "not" && c.args[0].op == "neg":
			p = e.sub(e.scale(c.args[0].args[0], -1, 64), e.int(1, 64), 64)
		case c.op == "not" && c.args[0].op == "eq0":
			p, kind = c.args[0].args[0], "!="
		default:
			continue
		}
		q, rest, ok := e.coefOf(p, it)
		if !ok || q == e.int(0, 64) {
			continue
		}
		return bound{kind, q, rest}, true
	}
	return bound{}, false
}

// exactDiv divides polynomials when the divisor is a single term.
func (e *VEval) exactDiv(p, q V) (V, bool) {
	ts := q.terms()
	if len(ts) != 1 {
		return nil, false
	}
	d := ts[0]
	var out []vterm
	for _, t := range p.terms() {
		if t.c%d.c != 0 {
			return nil, false
		}
		m := append([]V{}, t.m...)
		for _, x := range d.m {
			f := false
			for i, y := range m {
				if x == y {
					m = append(m[:i:i], m[i+1:]...)
					f = true
					break
				}
			}
			if !f {
				return nil, false
			}
		}
		out = append(out, vterm{t.c / d.c, m})
	}
	return e.fromTerms(out, 64), true
}

// same effects of two instances of the worker; what tells where they differ.
func (w *work) sameEff(x *VEff, a1, a2 []V, it, it1, it2 V) (string, V, V) {
	cmp := func(what string, v V) (string, V, V) {
		if v == nil {
			return "", nil, nil
		}
		p, q := w.with(v, a1, it, it1), w.with(v, a2, it, it2)
		if p != q {
			d1, d2 := firstDiff(p, q, 6)
			return what, d1, d2
		}
		return "", nil, nil
	}
	list := []struct {
		s string
		v V
	}{{"address", x.addr}, {"value", x.val}, {"function", nil}}
	for i, a := range x.args {
		list = append(list, struct {
			s string
			v V
		}{fmt.Sprintf("argument %d", i), a})
	}
	for _, l := range x.loops {
		if l.iter == it {
			continue
		}
		list = append(list, struct {
			s string
			v V
		}{"inner loop", l.head})
		for _, ph := range l.phis {
			list = append(list, struct {
				s string
				v V
			}{"inner loop", ph.init})
		}
	}
	for _, c := range list {
		if s, p, q := cmp(c.s, c.v); s != "" {
			return s, p, q
		}
	}
	return "", nil, nil
}

// varying lists the arguments that depend on the worker.
func (p *parting) varying() []int {
	var out []int
	a0 := p.atK(p.zero())
	for i := range p.a {
		if p.e.mentions(p.a[i], p.k) || i < len(p.b) && a0[i] != p.b[i] {
			out = append(out, i)
		}
	}
	return out
}

// split checks the ranges handed to the workers against the worker's loops.
func (p *parting) split(r *Report, w *work) (full V) {
	e := p.e
	pos := e.p.rel(p.at.eff.pos)
	where := p.where()
	if w.name != "" {
		where += " / " + w.name
	}
	a0 := p.atK(p.zero())
	type dom struct {
		lp   *VLoop
		s    V
		unit V
	}
	doms := map[*VLoop]*dom{}
	badLoop := map[*VLoop]bool{}
	done := map[string]bool{}
	badOnce := func(rule, format string, a ...any) {
		m := fmt.Sprintf(format, a...)
		if !done[rule] {
			done[rule] = true
			r.bad(rule, where, pos, "%s", m)
		}
	}
	n := 0
	for _, x := range w.effs {
		switch x.kind {
		case "return", "lookup", "assert":
			continue
		}
		if len(x.loops) == 0 {
			if s, p1, p2 := w.sameEff(x, p.a, a0, nil, nil, nil); s != "" {
				badOnce("same rows", "outside its loop the worker's %s at %s depends on its number: %s and %s", s, e.p.rel(x.pos), p1.str(4), p2.str(4))
			}
			continue
		}
		lp := x.loops[0]
		if badLoop[lp] || deadLoop(x.loops[:1]) {
			continue
		}
		d := doms[lp]
		if d == nil {
			cont := lp.head
			if cont == nil {
				cont = lp.cont
			}
			bk, ok1 := e.boundOf(w.with(cont, p.a, lp.iter, lp.iter), lp.iter)
			b0, ok2 := e.boundOf(w.with(cont, a0, lp.iter, lp.iter), lp.iter)
			bl, ok3 := e.boundOf(w.with(cont, p.b, lp.iter, lp.iter), lp.iter)
			if !ok1 || !ok2 || !ok3 {
				badLoop[lp] = true
				badOnce("range", "the range of the worker's loop at %s cannot be told from its arguments", e.p.rel(lp.pos))
				continue
			}
			s, ok := e.exactDiv(e.scale(bk.off, -1, 64), bk.step)
			if bk.step != b0.step || bk.step != bl.step {
				ok = false
			}
			if !ok || e.mentions(s, p.k) || bk.off != b0.off {
				badLoop[lp] = true
				badOnce("range", "workers do not each handle the same number of iterations: %s times %s", bk.off.str(6), bk.step.str(4))
				continue
			}
			d = &dom{lp: lp, s: s, unit: bk.step}
			doms[lp] = d
			// the last worker ends where the whole work ends
			tot := e.sub(bl.off, e.mul(bk.step, e.mul(p.t, s, 64), 64), 64)
			if anyNode(tot, func(n V) bool { return n == p.k || p.isWorkers(n) }) {
				badOnce("whole work", "the end of the last worker depends on the number of workers: %s", e.scale(tot, -1, 64).str(6))
				badLoop[lp] = true
				continue
			}
			n++
			full = e.scale(tot, -1, 64)
			if p.c != nil {
				bc, ok := e.boundOf(w.with(cont, p.c, lp.iter, lp.iter), lp.iter)
				if !ok || bc.step != bl.step || bc.off != tot {
					badOnce("whole work", "the workers together do %s iterations, the sequential call %s", full.str(6), e.scale(bc.off, -1, 64).str(6))
				} else {
					n++
				}
			}
			if why := p.shares(s, full, bk.step, bl.kind); why != "" {
				badOnce("share", "%s", why)
			} else {
				n++
			}
		}
		shift := func(k V) V { return e.add(lp.iter, e.mul(k, d.s, 64), 64) }
		if s, p1, p2 := w.sameEff(x, p.a, a0, lp.iter, lp.iter, shift(p.k)); s != "" {
			badOnce("same rows", "worker k's iteration does not continue worker 0's: %s at %s is %s, expected %s", s, e.p.rel(x.pos), p1.str(5), p2.str(5))
		} else {
			n++
		}
		if s, p1, p2 := w.sameEff(x, p.b, a0, lp.iter, lp.iter, shift(p.t)); s != "" {
			badOnce("same rows", "the last worker does not continue where the others stop: %s at %s is %s, expected %s", s, e.p.rel(x.pos), p1.str(5), p2.str(5))
		} else {
			n++
		}
		if p.c != nil {
			if s, p1, p2 := w.sameEff(x, p.c, a0, lp.iter, lp.iter, lp.iter); s != "" {
				badOnce("same rows", "the sequential call and the first worker differ: %s at %s is %s, expected %s", s, e.p.rel(x.pos), p1.str(5), p2.str(5))
			} else {
				n++
			}
		}
	}
	if len(doms) == 0 && len(badLoop) == 0 {
		badOnce("range", "no loop over the worker's range was found in %s", fnLabel(w.fn))
	}
	r.okN("split", n)
	return full
}

// isWorkers recognises atoms that depend on the number of workers.
func (p *parting) isWorkers(n V) bool {
	for _, lp := range p.l.wloops {
		if n == p.l.own(lp.iter) {
			return true
		}
	}
	return strings.Contains(n.aux, "runtime.GOMAXPROCS")
}

// shares: the iterations of one worker are the whole divided by the number of workers.
func (p *parting) shares(s, full, unit V, kind string) string {
	e := p.e
	c := int64(1)
	ts := s.terms()
	if len(ts) != 1 || len(ts[0].m) != 1 || ts[0].m[0].op != "div" {
		if k, ok := s.intConst(); ok && k == 0 {
			return ""
		}
		return fmt.Sprintf("a worker's share %s is not the whole work divided by the number of workers", s.str(6))
	}
	if ts[0].c != c {
		return fmt.Sprintf("a worker's share %s is a multiple of the quotient", s.str(6))
	}
	q := ts[0].m[0]
	x, y := q.args[0], q.args[1]
	if y != p.n {
		return fmt.Sprintf("the work is divided by %s, the number of workers is %s", y.str(6), p.n.str(6))
	}
	if x == full {
		return ""
	}
	// whole tiles
	if x.op == "div" && x.args[0] == full && x.args[1] == unit {
		return ""
	}
	// a distance, with steps of one up or down
	if kind == "!=" || kind == "<" {
		neg := e.scale(full, -1, 64)
		if kind == "!=" && x.op == "ite" {
			a, b := x.args[1], x.args[2]
			if a == full && b == neg || a == neg && b == full {
				return ""
			}
		}
		fd, ok := e.exactDiv(full, unit)
		if kind == "!=" && ok && (x == fd) {
			return ""
		}
	}
	return fmt.Sprintf("a worker's share is %s divided by the number of workers, the whole work is %s in steps of %s", x.str(6), full.str(6), unit.str(4))
}

// worksOf gives the workers a launcher may run.
func (l *launcher) worksOf(ctx *Ctx, u *unit, vary map[int]bool) []*work {
	if u.callee == nil {
		var out []*work
		var sig string
		if l.fn.Signature.Recv() != nil {
			sig = l.fn.Signature.Recv().Type().Underlying().String()
		}
		for _, k := range kernels(ctx) {
			if k.fn.Signature.String() == sig {
				out = append(out, &work{name: k.name, fn: k.fn, e: k.e, args: k.args, effs: k.effs})
			}
		}
		return out
	}
	e := l.e
	w := &work{fn: u.callee, e: e}
	e.effs, e.nloop, e.nsym, e.gos = nil, 0, 0, 0
	for i, pr := range u.callee.Params {
		w.args = append(w.args, e.param(fmt.Sprintf("q%d", i), i, pr.Type()))
	}
	vp := map[V]bool{}
	for i := range vary {
		if i < len(w.args) {
			vp[w.args[i]] = true
		}
	}
	e.inline = func(f *ssa.Function, args []V) bool {
		for _, a := range args {
			if vp[a] {
				return true
			}
		}
		return f.Synthetic != "" || f.Parent() == u.callee
	}
	e.Run(u.callee, w.args)
	e.inline = nil
	w.effs, e.effs = e.effs, nil
	return []*work{w}
}

func runC06(ctx *Ctx, r *Report) {
	ls, _ := launchers(ctx)
	for _, l := range ls {
		r.fn(fnLabel(l.fn))
		p, why := l.partition()
		if p == nil {
			r.bad("division of work", fnLabel(l.fn), l.e.p.rel(l.fn.Pos()), "%s", why)
			continue
		}
		p.counts(r)
		p.guards(r)
		vary := map[int]bool{}
		slices := 0
		for _, i := range p.varying() {
			vary[i] = true
			if p.a[i].op == "slice" {
				slices++
			}
		}
		if len(vary) == 0 {
			checkFed(ctx, r, l, p)
			continue
		}
		if slices > 0 && slices == len(vary) && p.at.callee != nil && p.c != nil {
			p.slices(r)
			continue
		}
		ws := l.worksOf(ctx, p.at, vary)
		if len(ws) == 0 {
			r.bad("division of work", fnLabel(l.fn), l.e.p.rel(l.fn.Pos()), "the workers started here are not known")
		}
		var full V
		for _, w := range ws {
			r.fn(fnLabel(w.fn))
			full = p.split(r, w)
		}
		if p.c == nil {
			p.whole(r, ws, full)
		}
	}
	r.atLeast("number of workers", 10)
	r.atLeast("split", 300)
	r.atLeast("slices", 1)
	r.atLeast("whole work", 6)
	r.atLeast("channel", 1)
}

// slices: workers that get slices of the same tables and buffers.
func (p *parting) slices(r *Report) {
	e := p.e
	pos := e.p.rel(p.at.eff.pos)
	where := p.where()
	one := e.int(1, 64)
	a0, a1, at := p.atK(p.zero()), p.atK(e.add(p.k, one, 64)), p.atK(p.t)
	eq := func(a, b V) bool { return e.sub(a, b, 64) == e.int(0, 64) }
	var rows V // first line of worker k
	var tabs []V
	n := 0
	type cut struct {
		i         int
		off, ln   V
		full      V
		tab       V
		idx       V
		isTab, ok bool
	}
	var cuts []*cut
	for _, i := range p.varying() {
		c := &cut{i: i, off: p.a[i].args[1], ln: p.a[i].args[2]}
		cuts = append(cuts, c)
		base := p.a[i].args[0]
		if p.b[i].op != "slice" || p.b[i].args[0] != base {
			r.bad("contiguous", where, pos, "argument %d of the last worker is not a slice of the same data: %s", i, p.b[i].str(4))
			continue
		}
		c.ok = true
		start, end := p.zero(), e.mk("len", "", base)
		if p.c != nil {
			parts := e.sliceParts(p.c[i])
			if parts[0] != base {
				if p.c[i] == base {
					parts[1] = p.zero()
				} else {
					r.bad("contiguous", where, pos, "argument %d: the workers divide %s, the sequential call handles %s", i, base.str(4), p.c[i].str(4))
					c.ok = false
					continue
				}
			}
			start, end = parts[1], e.add(parts[1], parts[2], 64)
		}
		c.full = e.sub(end, start, 64)
		if !eq(e.add(c.off, c.ln, 64), a1[i].args[1]) {
			r.bad("contiguous", where, pos, "argument %d of worker k ends at %s, that of the next begins at %s", i, e.add(c.off, c.ln, 64).str(6), a1[i].args[1].str(6))
			c.ok = false
		}
		if !eq(p.b[i].args[1], at[i].args[1]) {
			r.bad("contiguous", where, pos, "argument %d of the last worker begins at %s, the one before ends at %s", i, p.b[i].args[1].str(6), at[i].args[1].str(6))
			c.ok = false
		}
		if be := e.add(p.b[i].args[1], p.b[i].args[2], 64); !eq(be, end) {
			r.bad("contiguous", where, pos, "argument %d of the last worker ends at %s, the data at %s", i, be.str(6), end.str(6))
			c.ok = false
		}
		// table entry or number
		o := c.off
		if ts := o.terms(); len(ts) == 1 && ts[0].c == 1 && len(ts[0].m) == 1 && ts[0].m[0].op == "deref" && ts[0].m[0].args[0].op == "elem" {
			el := ts[0].m[0].args[0]
			c.isTab, c.tab, c.idx = true, el.args[0], el.args[1]
			tabs = append(tabs, c.tab)
			if z := e.subst(c.idx, p.k, p.zero()); z != p.zero() || start != p.zero() {
				r.bad("contiguous", where, pos, "argument %d of the first worker begins at entry %s", i, z.str(4))
				c.ok = false
			}
		} else if !eq(a0[i].args[1], start) {
			r.bad("contiguous", where, pos, "argument %d of the first worker begins at %s, the data at %s", i, a0[i].args[1].str(6), start.str(6))
			c.ok = false
		}
		if c.ok {
			n++
		}
	}
	// the lines: the argument whose length is the share itself
	var lines *cut
	for _, c := range cuts {
		if c.ok && !c.isTab && p.shares(c.ln, c.full, one, "<") == "" {
			lines = c
		}
	}
	if lines == nil {
		for _, c := range cuts {
			if c.ok && !c.isTab {
				r.bad("share", where, pos, "argument %d: %s", c.i, p.shares(c.ln, c.full, one, "<"))
				return
			}
		}
		r.bad("share", where, pos, "no argument divides the lines by the number of workers")
		return
	}
	rows = lines.off
	for _, c := range cuts {
		if !c.ok || c == lines {
			continue
		}
		if c.isTab {
			if c.idx == rows {
				n++
			} else {
				r.bad("same rows", where, pos, "argument %d begins at line %s, argument %d at line %s", c.i, c.idx.str(6), lines.i, rows.str(6))
			}
			continue
		}
		w, ok := e.exactDiv(c.off, rows.terms0(e))
		if !ok {
			w, ok = e.ratio(c.off, rows)
		}
		if ok && !e.mentions(w, p.k) && !anyNode(w, p.isWorkers) {
			n++
		} else {
			r.bad("same rows", where, pos, "argument %d begins at %s, which is not a multiple of line %s", c.i, c.off.str(6), rows.str(6))
		}
	}
	r.okN("slices", n)
	for _, t := range tabs {
		p.prefixSums(r, t, lines.full, p.c[lines.i])
	}
}

func (v *VN) terms0(e *VEval) V { return v }

// ratio finds q with a == q*b, by the first terms.
func (e *VEval) ratio(a, b V) (V, bool) {
	bt := b.terms()
	if len(bt) == 0 {
		return nil, false
	}
	first := e.fromTerms(bt[:1], 64)
	for _, t := range a.terms() {
		if q, ok := e.exactDiv(e.fromTerms([]vterm{t}, 64), first); ok && e.sub(e.mul(q, b, 64), a, 64) == e.int(0, 64) {
			return q, true
		}
	}
	return nil, false
}

// prefixSums: entry i of the table is the sum of the lengths before i.
func (p *parting) prefixSums(r *Report, tab, lines, lens V) {
	e := p.e
	base := e.sliceParts(lens)[0]
	var cover []V
	n := 0
	for _, x := range p.l.effs {
		if x.kind != "store" || x.goid != 0 || x.addr == nil || x.addr.op != "elem" || p.l.own(x.addr.args[0]) != tab {
			continue
		}
		pos := e.p.rel(x.pos)
		if len(x.loops) != 1 {
			r.bad("offsets", p.where(), pos, "entries of the offset table are not written in one loop")
			continue
		}
		lp := x.loops[0]
		if x.addr.args[1] != lp.iter || !lp.known || e.sub(p.l.own(lp.trip), lines, 64) != e.int(0, 64) {
			r.bad("offsets", p.where(), pos, "the offset table is written at %s for %s entries, there are %s lines", x.addr.args[1].str(4), lp.trip.str(4), lines.str(4))
			continue
		}
		// the length stored in the same round
		var ln V
		for _, y := range p.l.effs {
			if y.kind == "store" && y.addr != nil && y.addr.op == "elem" && p.l.own(y.addr.args[0]) == base && len(y.loops) == 1 && y.loops[0] == lp && y.addr.args[1] == lp.iter {
				ln = y.val
			}
		}
		good := false
		for _, ph := range lp.phis {
			if ph.sym == x.val && ln != nil && ph.init == e.int(0, 64) && e.sub(ph.next, e.add(ph.sym, ln, 64), 64) == e.int(0, 64) {
				good = true
			}
		}
		if !good {
			r.bad("offsets", p.where(), pos, "entry i of the offset table is not the sum of the lengths before i")
			continue
		}
		n++
		var g []V
		lc := map[V]bool{}
		for _, c := range conjuncts(lp.cont) {
			lc[c] = true
		}
		for _, c := range conjuncts(x.guard) {
			if !lc[c] {
				g = append(g, p.l.own(c))
			}
		}
		cover = append(cover, e.and(g...))
	}
	if n == 0 {
		r.bad("offsets", p.where(), e.p.rel(p.at.eff.pos), "no loop fills the offset table the workers' data is cut with")
		return
	}
	all := e.or(cover...)
	have := map[V]bool{}
	for _, c := range conjuncts(p.l.own(p.at.guard)) {
		have[c] = true
	}
	for _, c := range conjuncts(all) {
		if !have[c] && !c.isTrue() {
			r.bad("offsets", p.where(), e.p.rel(p.at.eff.pos), "the offset table is filled only if %s", c.str(5))
			return
		}
	}
	r.okN("offsets", n)
}

// slots: the results of the workers are kept apart and all looked at after the join.
func (p *parting) slots(r *Report) {
	e := p.e
	res := func(u *unit) (V, string) {
		for _, x := range p.l.effs {
			if x.kind == "store" && x.goid != 0 && x.val == u.eff.res && u.eff.res != nil {
				return p.l.own(x.addr), e.p.rel(x.pos)
			}
		}
		return nil, e.p.rel(u.eff.pos)
	}
	if p.last == nil || p.at.eff.res == nil {
		return
	}
	var sig string
	if p.at.callee != nil {
		sig = p.at.callee.Signature.Results().String()
	}
	if !strings.Contains(sig, "error") {
		return
	}
	a, pos := res(p.at)
	b, pos2 := res(p.last)
	if a == nil || b == nil {
		if a == nil {
			r.bad("worker errors", p.where(), pos, "the error of the workers started in the loop is not kept")
		}
		if b == nil {
			r.bad("worker errors", p.where(), pos2, "the error of the last worker is not kept")
		}
		return
	}
	if a.op != "elem" || b.op != "elem" || a.args[0] != b.args[0] {
		r.bad("worker errors", p.where(), pos, "the workers' errors are not kept in elements of one table: %s and %s", a.str(4), b.str(4))
		return
	}
	q, c0, ok := e.coefOf(a.args[1], p.k)
	if k, isc := q.intConst(); !ok || !isc || k != 1 {
		r.bad("worker errors", p.where(), pos, "the element for worker k's error is %s", a.args[1].str(5))
		return
	}
	// indices used: c0 .. c0+t-1 and the last
	lastIdx := b.args[1]
	lo, hi := c0, e.add(c0, p.t, 64)
	switch {
	case lastIdx == hi:
		hi = e.add(hi, e.int(1, 64), 64)
	case e.sub(c0, lastIdx, 64) == e.int(1, 64):
		lo = lastIdx
	default:
		r.bad("worker errors", p.where(), pos2, "the last worker's error goes to element %s, the others use %s up to %s", lastIdx.str(5), c0.str(4), hi.str(5))
		return
	}
	n := 0
	for _, rd := range p.l.reads {
		if rd.goid != 0 || rd.root.op != "elem" || p.l.own(rd.root.args[0]) != a.args[0] || rd.seq < p.last.seq || len(rd.loops) != 1 {
			continue
		}
		lp := rd.loops[0]
		cont := lp.head
		if cont == nil {
			cont = lp.cont
		}
		idx := p.l.own(rd.root.args[1])
		it := p.l.own(lp.iter)
		q, first, ok := e.coefOf(idx, it)
		bd, ok2 := e.boundOf(p.l.own(cont), it)
		if k, isc := q.intConst(); !ok || !ok2 || !isc || k != 1 && k != -1 {
			continue
		}
		cnt, ok := e.exactDiv(e.scale(bd.off, -1, 64), bd.step)
		if !ok {
			continue
		}
		n++
		k, _ := q.intConst()
		wantLo, wantHi := lo, hi
		gotLo, gotHi := first, e.add(first, cnt, 64)
		if k == -1 {
			gotHi = e.add(first, e.int(1, 64), 64)
			gotLo = e.sub(gotHi, cnt, 64)
		}
		d1, isc1 := e.sub(wantLo, gotLo, 64).intConst()
		d2, isc2 := e.sub(gotHi, wantHi, 64).intConst()
		if isc1 && isc2 && d1 >= 0 && d2 >= 0 {
			r.ok("worker errors")
			return
		}
		r.bad("worker errors", p.where(), e.p.rel(lp.pos), "after the join only the errors %s up to %s are looked at, the workers use %s up to %s", gotLo.str(4), gotHi.str(5), wantLo.str(4), wantHi.str(5))
		return
	}
	r.bad("worker errors", p.where(), pos, "no loop after the join looks at the workers' errors")
}

// tileFloor recognises the greatest multiple of ts that is at most m.
func (e *VEval) tileFloor(f V) (m, ts V, ok bool) {
	var rem V
	anyNode(f, func(n V) bool {
		if rem == nil && (n.op == "rem" || n.op == "div") && strings.HasPrefix(n.aux, "trunc") || rem == nil && n.op == "rem:trunc64" {
			rem = n
		}
		return rem != nil
	})
	if rem == nil {
		return nil, nil, false
	}
	m, ts = rem.args[0], rem.args[1]
	if anyNode(ts, func(n V) bool { return n.op == "ite" }) && ts.op != "poly" {
		sym := e.mk("sym", fmt.Sprintf("ts%d", ts.id))
		e.leafT[sym] = types.Typ[types.Int]
		m, _, ok := e.tileFloor(e.subst(f, ts, sym))
		return m, ts, ok
	}
	ro := e.mk("rem", rem.aux, m, ts)
	q := e.mk("div", rem.aux, m, ts)
	e.leafT[ro], e.leafT[q] = e.leafT[rem], e.leafT[rem]
	low := e.sub(m, ro, 64)
	quo := e.mul(ts, q, 64)
	good := true
	n := 0
	e.splitCases([]V{f}, func(as map[V]bool, vals []V) {
		n++
		v := vals[0]
		isLow := v == low || v == quo
		isNext := v == e.sub(low, ts, 64) || v == e.sub(quo, ts, 64)
		neg, pos := false, false
		for c, b := range as {
			if c.op == "neg" {
				switch c.args[0] {
				case ro:
					neg, pos = b, !b
				case m:
					pos = pos || !b
				case e.sub(m, quo, 64):
					neg, pos = b, !b
				}
			}
			if c.op == "eq0" && b && (c.args[0] == ro || e.scale(c.args[0], -1, 64) == ro) {
				pos = true
			}
		}
		if !(isLow && pos || isNext && neg) {
			good = false
		}
	})
	return m, ts, good && n > 1
}

// rectOf gives R when v is R.Min.X, R.Min.Y, R.Max.X or R.Max.Y.
func rectOf(v V) (r V, corner, axis string) {
	if v.op == "field" && v.args[0].op == "field" {
		return v.args[0].args[0], v.args[0].aux, v.aux
	}
	return nil, "", ""
}

// whole: where no sequential call tells, the range is all of the data.
func (p *parting) whole(r *Report, ws []*work, full V) {
	e := p.e
	pos := e.p.rel(p.at.eff.pos)
	var start, end = -1, -1
	for _, i := range p.varying() {
		if p.a[i].op == "slice" {
			continue
		}
		if anyNode(p.b[i], p.isWorkers) {
			start = i
		} else {
			end = i
		}
	}
	if start < 0 || end < 0 {
		r.bad("whole work", p.where(), pos, "the range given to the workers has no start and end")
		return
	}
	f, en := p.atK(p.zero())[start], p.b[end]
	if en.op == "len" {
		found := false
		for _, a := range p.a {
			if a == en.args[0] || anyNode(a, func(n V) bool { return n == en.args[0] }) || e.sliceParts(a)[2] == en {
				found = true
			}
		}
		if f == p.zero() && found {
			r.ok("whole work")
		} else {
			r.bad("whole work", p.where(), pos, "the workers handle items %s up to %s", f.str(4), en.str(4))
		}
		return
	}
	m, ts, ok := e.tileFloor(f)
	if !ok {
		if rr, corner, axis := rectOf(en); rr != nil && corner == "1" {
			if r2, c2, a2 := rectOf(f); r2 == rr && c2 == "0" && a2 == axis {
				r.bad("whole work", p.where(), pos, "the first tile row is %s, which is not a multiple of the tile size", f.str(5))
				return
			}
		}
		if p.c == nil && f == p.zero() {
			for _, a := range p.a {
				if a.op == "slice" && a.args[2] == en {
					r.ok("whole work")
					return
				}
			}
		}
		r.bad("whole work", p.where(), pos, "the workers handle %s up to %s: neither all items of a list nor the tiles of a rectangle", f.str(5), en.str(5))
		return
	}
	rm, c1, a1 := rectOf(m)
	rx, c2, a2 := rectOf(en)
	if rm == nil || rx == nil || rm != rx || c1 != "0" || c2 != "1" || a1 != a2 {
		r.bad("whole work", p.where(), pos, "the tile rows begin at the one of %s and end at %s: not the rows of one rectangle", m.str(4), en.str(4))
		return
	}
	// the other axis, with the same rectangle
	other := map[string]string{"0": "1", "1": "0"}[a1]
	okS, okE := false, false
	for i, a := range p.a {
		if i == start || i == end {
			continue
		}
		if x, c, ax := rectOf(a); x == rm && c == "1" && ax == other {
			okE = true
		}
		if m2, t2, ok := e.tileFloor(a); ok && t2 == ts {
			if x, c, ax := rectOf(m2); x == rm && c == "0" && ax == other {
				okS = true
			}
		}
	}
	if okS && okE {
		r.ok("whole work")
	} else {
		r.bad("whole work", p.where(), pos, "the columns given to the workers are not the tile columns of the rectangle the rows come from")
	}
}

// checkFed: workers that take their items from a channel: the feeder sends
// each item it is given once, and a worker handles each item it receives.
func checkFed(ctx *Ctx, r *Report, l *launcher, p *parting) {
	pos := l.e.p.rel(l.fn.Pos())
	// receives
	for _, u := range l.units {
		if u.callee == nil || u.spawn == nil {
			continue
		}
		n := 0
		instrs(u.callee, func(in ssa.Instruction) {
			if x, ok := in.(*ssa.UnOp); ok && x.Op.String() == "<-" {
				n++
			}
			if s, ok := in.(*ssa.Select); ok {
				for _, st := range s.States {
					if st.Dir == types.RecvOnly {
						n++
					}
				}
			}
		})
		if n != 1 {
			r.bad("channel", fnLabel(u.callee), pos, "the worker receives at %d places", n)
		} else {
			r.ok("channel")
		}
	}
	// the feeder: a closure of the launcher that sends its own parameter
	sent := 0
	for _, fn := range l.e.p.repoFuncs() {
		if fn.Parent() != l.fn && fn != l.fn {
			continue
		}
		instrs(fn, func(in ssa.Instruction) {
			var v ssa.Value
			switch x := in.(type) {
			case *ssa.Send:
				v = x.X
			case *ssa.Select:
				for _, st := range x.States {
					if st.Dir == types.SendOnly {
						v = st.Send
					}
				}
			}
			if v == nil {
				return
			}
			if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
				return
			}
			sent++
			prm, isP := v.(*ssa.Parameter)
			if !isP || prm.Parent() != fn {
				r.bad("channel", fnLabel(fn), l.e.p.rel(in.Pos()), "the feeder does not send the item it was given")
				return
			}
			if hasLoop(fn) || !dominatesReturns(fn, in.Block()) {
				r.bad("channel", fnLabel(fn), l.e.p.rel(in.Pos()), "the feeder does not send every item exactly once")
				return
			}
			r.ok("channel")
		})
	}
	if sent != 1 {
		r.bad("channel", fnLabel(l.fn), pos, "%d places send items to the workers", sent)
	}
}

// dominatesReturns reports whether every path to a return passes b.
func dominatesReturns(fn *ssa.Function, b *ssa.BasicBlock) bool {
	for _, x := range fn.Blocks {
		if len(x.Instrs) == 0 {
			continue
		}
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !b.Dominates(x) && x != fn.Recover {
			return false
		}
	}
	return true
}

// workerErrors: the errors of workers started while decoding reach the caller.
func workerErrors(ctx *Ctx, r *Report) {
	ls, _ := launchers(ctx)
	for _, l := range ls {
		if l.fn.Pkg == nil || l.fn.Pkg.Pkg.Name() != "psd" {
			continue
		}
		p, why := l.partition()
		if p == nil {
			r.bad("worker errors", fnLabel(l.fn), l.e.p.rel(l.fn.Pos()), "%s", why)
			continue
		}
		p.slots(r)
	}
}
