package main

import (
	"go/types"
)

// ---- memory ----

func (st *State) inRange(idx *Poly, g Seg) int {
	a := addScaled(idx, -1, g.off)                  // idx-off >= 0
	b := addScaled(addScaled(a, -1, g.ln), 1, oneP) // idx-off-ln+1 <= 0
	if a == nil || b == nil {
		return -1
	}
	nb := negP(b)
	if ca, cb := st.norm(a), st.norm(b); ca.isConst() && cb.isConst() {
		if ca.c >= 0 && cb.c <= 0 {
			return 1
		}
		return 0
	}
	if st.entails(a) && st.entails(nb) {
		return 1
	}
	if st.entails(addScaled(K(-1), -1, a)) || st.entails(addScaled(b, -1, oneP)) {
		return 0
	}
	return -1
}

func (st *State) segVal(g Seg, idx *Poly) Val {
	if g.stream != nil {
		pos := addScaled(addScaled(g.stream, 1, idx), -1, g.off)
		if g.src != "" {
			return derive("be", 1, iv{0, 255}, pos, K(srcID(g.src)))
		}
		return streamBE(pos, 1)
	}
	v := g.val
	if mentions(v, iotaSym) {
		v = st.substVal(v, iotaSym, idx)
	}
	return st.instantiate(v)
}

var srcIDs = map[string]int64{}

func srcID(s string) int64 {
	if _, ok := srcIDs[s]; !ok {
		srcIDs[s] = int64(len(srcIDs) + 1)
	}
	return srcIDs[s]
}

func (st *State) readElem(elem types.Type, segs []Seg, base Val, idx *Poly) Val {
	idx = st.norm(idx)
	var cand []Val
	for i := len(segs) - 1; i >= 0; i-- {
		switch st.inRange(idx, segs[i]) {
		case 1:
			v := st.segVal(segs[i], idx)
			if len(cand) == 0 {
				return v
			}
			return st.oneOf(elem, append(cand, v))
		case -1:
			cand = append(cand, st.segVal(segs[i], idx))
		}
	}
	var v Val
	if base == nil {
		v = zeroVal(elem)
	} else {
		v = st.instantiate(base)
	}
	if len(cand) == 0 {
		return v
	}
	return st.oneOf(elem, append(cand, v))
}

// oneOf is a value that is one of vs.
func (st *State) oneOf(t types.Type, vs []Val) Val {
	if _, _, ok := intType(t); ok {
		r := iv{posInf, negInf}
		same := true
		for _, v := range vs {
			p, ok := v.(*Poly)
			if !ok {
				return st.freshVal(t, "oneof", true)
			}
			r = ivHull(r, st.ival(st.norm(p)))
			same = same && v == vs[0]
		}
		if same {
			return vs[0]
		}
		s := newSym("oneof", r)
		syms[s].fuzzy = true
		return symP(s)
	}
	var out []Val
	for _, v := range vs {
		if a, ok := v.(AltV); ok {
			for _, x := range a.alts {
				out = addAlt(out, x)
			}
			continue
		}
		if _, ok := v.(OpqV); ok {
			return v
		}
		out = addAlt(out, v)
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) > 8 {
		return OpqV{t: t, why: "too many alternatives", nz: st.nilIfEmpty(AltV{out})}
	}
	return AltV{out}
}

func addAlt(out []Val, v Val) []Val {
	for _, o := range out {
		if sameVal(o, v) {
			return out
		}
	}
	return append(out, v)
}

// sameVal is structural identity.
func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Poly:
		return a == b
	case *BoolV:
		y, ok := b.(*BoolV)
		if !ok || x.op != y.op || x.c != y.c || x.p != y.p || x.s != y.s {
			return x == y && ok
		}
		return (x.a == nil) == (y.a == nil) && (x.a == nil || sameVal(x.a, y.a)) && (x.b == nil) == (y.b == nil) && (x.b == nil || sameVal(x.b, y.b))
	case FloatV:
		return a == b
	case *StrV:
		y, ok := b.(*StrV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.konst != y.konst || x.s != y.s || x.len != y.len || x.key != y.key || (x.c == nil) != (y.c == nil) {
			return false
		}
		if x.c == nil {
			return true
		}
		return x.c.off == y.c.off && sameVal(x.c.base, y.c.base) && sameSegs(x.c.segs, y.c.segs)
	case PtrV:
		y, ok := b.(PtrV)
		return ok && samePtr(x, y)
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			return false
		}
		if x.base.obj == 0 && y.base.obj == 0 {
			return true
		}
		return samePtr(x.base, y.base) && x.off == y.off && x.ln == y.ln && x.cp == y.cp && (x.nilAs == nil) == (y.nilAs == nil) && (x.nilAs == nil || sameVal(x.nilAs, y.nilAs))
	case *ArrV:
		y, ok := b.(*ArrV)
		return ok && (x == y || x.n == y.n && sameVal(x.base, y.base) && sameSegs(x.segs, y.segs))
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if x == y || (x.isNil && y.isNil) {
			return true
		}
		return x.isNil == y.isNil && x.nilSym == y.nilSym && x.role == y.role && x.id == y.id && sameType(x.dyn, y.dyn) && sameVal(x.val, y.val)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return false
		}
		if x == y || (x.isNil && y.isNil) {
			return true
		}
		if x.fn != y.fn || x.nilSym != y.nilSym || x.role != y.role || x.isNil != y.isNil || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !sameVal(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case MapV:
		y, ok := b.(MapV)
		return ok && x.obj == y.obj && (x.nilAs == nil) == (y.nilAs == nil) && (x.nilAs == nil || sameVal(x.nilAs, y.nilAs))
	case *MapC:
		y, ok := b.(*MapC)
		if !ok || len(x.consts) != len(y.consts) || !sameVal(x.sum, y.sum) {
			return false
		}
		for k, v := range x.consts {
			if w, ok := y.consts[k]; !ok || !sameVal(v, w) {
				return false
			}
		}
		return true
	case AltV:
		y, ok := b.(AltV)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if !sameVal(x.alts[i], y.alts[i]) {
				return false
			}
		}
		return true
	case OpqV:
		y, ok := b.(OpqV)
		return ok && x.why == y.why && x.role == y.role && x.nz == y.nz
	}
	return false
}

func sameType(a, b types.Type) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return types.Identical(a, b)
}

func samePtr(x, y PtrV) bool {
	if x.obj != y.obj || len(x.path) != len(y.path) {
		return false
	}
	for i := range x.path {
		if x.path[i] != y.path[i] {
			return false
		}
	}
	return true
}

func sameSegs(a, b []Seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].off != b[i].off || a[i].ln != b[i].ln || a[i].stream != b[i].stream || a[i].src != b[i].src || !sameVal(a[i].val, b[i].val) {
			return false
		}
	}
	return true
}

// loadPath reads the part of v selected by path. pt is the type of v.
func (st *State) loadPath(v Val, path []PathEl) Val {
	for i, e := range path {
		switch x := v.(type) {
		case *StructV:
			if e.idx != nil || e.f >= len(x.f) {
				return OpqV{why: "bad path"}
			}
			v = x.f[e.f]
		case *ArrV:
			if e.idx == nil {
				return OpqV{why: "bad path"}
			}
			v = st.readElem(x.elem, x.segs, x.base, e.idx)
		case AltV:
			var out []Val
			for _, a := range x.alts {
				out = append(out, st.loadPath(a, path[i:]))
			}
			if len(out) == 0 {
				return OpqV{why: "no alternative"}
			}
			for _, o := range out[1:] {
				if !sameVal(o, out[0]) {
					return AltV{out}
				}
			}
			return out[0]
		case OpqV:
			return OpqV{why: x.why + " part"}
		default:
			return OpqV{why: "bad path"}
		}
	}
	return v
}

// coerce turns an opaque value read from memory into a fresh value of type t.
func (st *State) coerce(v Val, t types.Type) Val {
	if o, ok := v.(OpqV); ok && t != nil {
		if _, isChan := t.Underlying().(*types.Chan); isChan {
			return v
		}
		r := st.freshVal(t, "opq:"+o.why, true)
		if s, ok := r.(*SliceV); ok && o.nz {
			s.nilAs = st.simpBool(&BoolV{op: bGe, p: negP(s.ln)})
		}
		return r
	}
	if a, ok := v.(AltV); ok && t != nil {
		if _, _, isInt := intType(t); isInt {
			return st.oneOf(t, a.alts)
		}
	}
	return v
}

func (st *State) load(p PtrV, t types.Type) Val {
	o := st.heap[p.obj]
	if o == nil {
		return st.freshVal(t, "unknown object", true)
	}
	v := st.loadPath(o.val, p.path)
	if o.summary {
		v = st.instantiate(v)
	}
	return st.coerce(v, t)
}

func (st *State) store(p PtrV, v Val) {
	o := st.heap[p.obj]
	if o == nil {
		return
	}
	nv := st.storePath(o.val, p.path, v, o.summary)
	st.setObj(p.obj, nv)
}

func (st *State) storePath(cur Val, path []PathEl, v Val, weak bool) Val {
	if len(path) == 0 {
		if weak {
			return st.weakJoin(cur, v)
		}
		return v
	}
	switch x := cur.(type) {
	case *StructV:
		if path[0].idx != nil || path[0].f >= len(x.f) {
			return cur
		}
		n := &StructV{append([]Val(nil), x.f...)}
		n.f[path[0].f] = st.storePath(x.f[path[0].f], path[1:], v, weak)
		return n
	case *ArrV:
		idx := st.norm(path[0].idx)
		var nv Val
		if len(path) == 1 {
			nv = v
		} else {
			nv = st.storePath(st.readElem(x.elem, x.segs, x.base, idx), path[1:], v, false)
		}
		if weak {
			n := *x
			n.base = st.weakJoin(st.collapse(x), nv)
			n.segs = nil
			return &n
		}
		return st.writeSeg(x, Seg{off: idx, ln: oneP, val: nv})
	}
	return cur
}

// writeSeg overwrites a run of elements.
func (st *State) writeSeg(x *ArrV, g Seg) *ArrV {
	n := *x
	n.segs = nil
	ge := addScaled(g.off, 1, g.ln)
	for _, o := range x.segs {
		// drop runs that are certainly covered
		a := addScaled(o.off, -1, g.off)
		b := addScaled(addScaled(ge, -1, o.off), -1, o.ln)
		if a != nil && b != nil {
			ra, rb := st.ival(st.norm(a)), st.ival(st.norm(b))
			if ra.lo >= 0 && rb.lo >= 0 {
				continue
			}
		}
		n.segs = append(n.segs, o)
	}
	if g.stream != nil && g.ln == oneP && g.src == "" {
		g.val, g.stream = streamBE(g.stream, 1), nil
	}
	n.segs = append(n.segs, g)
	if len(n.segs) > 40 {
		n.base = st.collapse(&n)
		n.segs = nil
	}
	return &n
}

// collapse is the join of all elements of an array.
func (st *State) collapse(x *ArrV) Val {
	if len(x.segs) == 0 {
		return x.base
	}
	var v Val
	if x.base == nil {
		v = zeroVal(x.elem)
	} else {
		v = x.base
	}
	for _, g := range x.segs {
		v = st.weakJoin(v, st.segAny(x.elem, g))
	}
	return v
}

// segAny is a summary value for any element of g.
func (st *State) segAny(elem types.Type, g Seg) Val {
	if g.stream != nil {
		return derive("be", 1, iv{0, 255}, symP(newEx("pos", ivAll)))
	}
	if mentions(g.val, iotaSym) {
		return st.substVal(g.val, iotaSym, symP(newEx("idx", iv{0, posInf})))
	}
	return g.val
}

// weakJoin joins values for summary content (anti-unification).
func (st *State) weakJoin(a, b Val) Val {
	j := &antiUnifier{a: st, b: st, memo: map[[2]*Poly]*Poly{}}
	return j.val(a, b)
}

// antiUnifier generalises two values; integers that differ become ex symbols.
type antiUnifier struct {
	a, b *State
	memo map[[2]*Poly]*Poly
}

func (j *antiUnifier) poly(p, q *Poly) *Poly {
	if p == q {
		return p
	}
	if r, ok := j.memo[[2]*Poly{p, q}]; ok {
		return r
	}
	if s, ok := p.asSym(); ok && isEx(s) && covers(s.info(), j.b.ival(j.b.norm(q))) {
		j.memo[[2]*Poly{p, q}] = p
		return p
	}
	var r *Poly
	// common part
	d := addScaled(p, -1, q)
	if d != nil {
		var pa, pb []term
		var com []term
		i, k := 0, 0
		for i < len(p.t) || k < len(q.t) {
			switch {
			case k == len(q.t) || (i < len(p.t) && p.t[i].m.id < q.t[k].m.id):
				pa = append(pa, p.t[i])
				i++
			case i == len(p.t) || p.t[i].m.id > q.t[k].m.id:
				pb = append(pb, q.t[k])
				k++
			default:
				if p.t[i].c == q.t[k].c {
					com = append(com, p.t[i])
				} else {
					pa = append(pa, p.t[i])
					pb = append(pb, q.t[k])
				}
				i++
				k++
			}
		}
		if len(pa) == 1 && len(pb) == 1 && pa[0].c == pb[0].c && len(pa[0].m.syms) == 1 && len(pb[0].m.syms) == 1 && p.c == q.c {
			x, y := pa[0].m.syms[0], pb[0].m.syms[0]
			ix, iy := x.info(), y.info()
			if ix.op != "" && ix.op == iy.op && ix.n == iy.n && len(ix.args) == len(iy.args) {
				var as []*Poly
				for k := range ix.args {
					as = append(as, j.poly(ix.args[k], iy.args[k]))
				}
				nx := j.a.rederive(ix.op, ix.n, ivHull(ix.rng, iy.rng), as)
				r = addScaled(mkPoly(p.c, com), pa[0].c, nx)
			} else if isEx(x) && covers(ix, j.b.ival(j.b.norm(symP(y)))) {
				r = p
			}
		}
	}
	if r == nil {
		h := ivHull(j.a.ival(j.a.norm(p)), j.b.ival(j.b.norm(q)))
		if x, ok := p.asSym(); ok && isEx(x) {
			// widening
			o := x.info().rng
			if h.lo < o.lo {
				if h.lo >= 0 {
					h.lo = 0
				} else if h.lo >= -(1 << 31) {
					h.lo = -(1 << 31)
				} else {
					h.lo = negInf
				}
			}
			if h.hi > o.hi {
				h.hi = widenHi(h.hi)
			}
		}
		s := newEx("any", h)
		r = symP(s)
		// avoid endless growth of the interval
		if syms[s].rng.hi > 1<<20 && syms[s].rng.hi != posInf {
			syms[s].rng.hi = widenHi(syms[s].rng.hi)
		}
	}
	j.memo[[2]*Poly{p, q}] = r
	return r
}

func widenHi(h int64) int64 {
	for _, t := range []int64{1<<32 - 1, 1 << 40} {
		if h <= t {
			return t
		}
	}
	return posInf
}

func covers(in *symInfo, r iv) bool { return in.rng.lo <= r.lo && in.rng.hi >= r.hi }

func (j *antiUnifier) val(a, b Val) Val {
	if r, ok := j.try(a, b); ok {
		return r
	}
	return j.alt(a, b)
}

// try merges two values of the same kind.
func (j *antiUnifier) try(a, b Val) (Val, bool) {
	if r := j.try1(a, b); r != nil {
		return r, true
	}
	return nil, false
}

func (j *antiUnifier) try1(a, b Val) Val {
	if sameVal(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Poly:
		if y, ok := b.(*Poly); ok {
			return j.poly(x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			n := &StructV{make([]Val, len(x.f))}
			for i := range x.f {
				n.f[i] = j.val(x.f[i], y.f[i])
			}
			return n
		}
	case *SliceV:
		y, ok := b.(*SliceV)
		if ok && x.base.obj == y.base.obj && x.base.obj != 0 && samePath(x.base.path, y.base.path) && (x.nilAs == nil) == (y.nilAs == nil) && (x.nilAs == nil || sameVal(x.nilAs, y.nilAs)) {
			n := *x
			n.off, n.ln, n.cp = j.poly(x.off, y.off), j.poly(x.ln, y.ln), j.poly(x.cp, y.cp)
			return &n
		}
	case PtrV:
		y, ok := b.(PtrV)
		if ok && x.obj == y.obj && len(x.path) == len(y.path) {
			n := PtrV{obj: x.obj, path: append([]PathEl(nil), x.path...)}
			good := true
			for i := range n.path {
				if (x.path[i].idx == nil) != (y.path[i].idx == nil) || x.path[i].f != y.path[i].f {
					good = false
					break
				}
				if x.path[i].idx != nil {
					n.path[i].idx = j.poly(x.path[i].idx, y.path[i].idx)
				}
			}
			if good {
				return n
			}
		}
	case *StrV:
		y, ok := b.(*StrV)
		if ok {
			n := &StrV{len: j.poly(x.len, y.len), key: "joined"}
			if x.c != nil && y.c != nil && len(x.c.segs) == 1 && len(y.c.segs) == 1 && x.c.segs[0].stream != nil && y.c.segs[0].stream != nil {
				g := x.c.segs[0]
				h := y.c.segs[0]
				g.off, g.ln, g.stream = j.poly(g.off, h.off), j.poly(g.ln, h.ln), j.poly(g.stream, h.stream)
				n.c = &Content{segs: []Seg{g}, off: j.poly(x.c.off, y.c.off)}
			}
			return n
		}
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if ok && !x.isNil && !y.isNil && x.nilSym == 0 && y.nilSym == 0 {
			if x.dyn != nil && sameType(x.dyn, y.dyn) {
				n := *x
				n.val = j.val(x.val, y.val)
				if _, bad := n.val.(OpqV); !bad {
					return &n
				}
			}
			if x.role == "error" || y.role == "error" {
				return &IfaceV{role: "error", id: "joined"}
			}
		}
	case FloatV:
		if _, ok := b.(FloatV); ok {
			return FloatV{"joined"}
		}
	case *BoolV:
		if _, ok := b.(*BoolV); ok {
			return OpqV{why: "joined bool"}
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok {
			n := &ArrV{n: j.poly(x.n, y.n), elem: x.elem}
			n.base = j.val(baseOf(j.a.collapse(x), x.elem), baseOf(j.b.collapse(y), y.elem))
			return n
		}
	case *MapC:
		if y, ok := b.(*MapC); ok {
			n := *x
			n.consts = map[string]Val{}
			switch {
			case x.sum == nil:
				n.sum = y.sum
			case y.sum == nil:
			default:
				n.sum = j.val(x.sum, y.sum)
			}
			return &n
		}
	}
	if o, ok := a.(OpqV); ok {
		o.nz = j.nz(a, b)
		return o
	}
	if o, ok := b.(OpqV); ok {
		o.nz = j.nz(a, b)
		return o
	}
	return nil
}

func (j *antiUnifier) nz(a, b Val) bool {
	return j.a != nil && j.b != nil && j.a.nilIfEmpty(a) && j.b.nilIfEmpty(b)
}

func (j *antiUnifier) alt(a, b Val) Val {
	var out []Val
	add := func(v Val) {
		if x, ok := v.(AltV); ok {
			for _, y := range x.alts {
				out = addAlt(out, y)
			}
			return
		}
		out = addAlt(out, v)
	}
	add(a)
	n0 := len(out)
	// values of the same shape are merged into one alternative
	var bs []Val
	if x, ok := b.(AltV); ok {
		bs = x.alts
	} else {
		bs = []Val{b}
	}
outer:
	for _, y := range bs {
		for i := 0; i < n0; i++ {
			if shapeOf(out[i]) == shapeOf(y) {
				if m, ok := j.try(out[i], y); ok {
					out[i] = m
					continue outer
				}
			}
		}
		out = addAlt(out, y)
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) > 8 {
		return OpqV{why: "too many alternatives", nz: j.nz(a, b)}
	}
	return AltV{out}
}

func baseOf(v Val, elem types.Type) Val {
	if v == nil {
		return zeroVal(elem)
	}
	return v
}

func samePath(a, b []PathEl) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
