package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Interp) instr(a *act, ins ssa.Instruction, c *Conf) []*Conf {
	st := c.st
	switch ins := ins.(type) {
	case *ssa.DebugRef:
		return one(c)
	case *ssa.Alloc:
		t := ins.Type().(*types.Pointer).Elem()
		o := st.alloc(t, x.pos(ins))
		st.setObj(o, zeroVal(t))
		return one(c.with(ins, PtrV{obj: o}))
	case *ssa.BinOp:
		return one(c.with(ins, x.binop(a, ins, c)))
	case *ssa.UnOp:
		return x.unop(a, ins, c)
	case *ssa.ChangeType:
		return one(c.with(ins, x.val(a, c, ins.X)))
	case *ssa.Convert:
		return one(c.with(ins, x.convert(a, c, ins, x.val(a, c, ins.X), ins.X.Type(), ins.Type())))
	case *ssa.ChangeInterface:
		return one(c.with(ins, x.val(a, c, ins.X)))
	case *ssa.MakeInterface:
		v := x.val(a, c, ins.X)
		return one(c.with(ins, &IfaceV{dyn: ins.X.Type(), val: v}))
	case *ssa.MakeClosure:
		f := &FuncV{fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			f.bind = append(f.bind, x.val(a, c, b))
		}
		return one(c.with(ins, f))
	case *ssa.MakeMap:
		t := ins.Type().Underlying().(*types.Map)
		o := st.alloc(ins.Type(), x.pos(ins))
		st.setObj(o, &MapC{kt: t.Key(), vt: t.Elem(), consts: map[string]Val{}})
		return one(c.with(ins, MapV{obj: o}))
	case *ssa.MakeChan:
		return one(c.with(ins, OpqV{t: ins.Type(), why: "chan"}))
	case *ssa.MakeSlice:
		n, cp := x.intVal(a, c, ins.Len), x.intVal(a, c, ins.Cap)
		if !x.need("make-length", ins, st, n, "the length given to make may be negative") {
			return nil
		}
		if cp != n {
			if !x.need("make-length", ins, st, addScaled(cp, -1, n), "the capacity given to make may be less than the length") {
				return nil
			}
		}
		et := ins.Type().Underlying().(*types.Slice).Elem()
		o := st.alloc(ins.Type(), x.pos(ins))
		st.setObj(o, &ArrV{n: cp, elem: et})
		return one(c.with(ins, &SliceV{base: PtrV{obj: o}, off: zeroP, ln: n, cp: cp}))
	case *ssa.FieldAddr:
		return x.eachPtr(a, c, ins, x.val(a, c, ins.X), func(c *Conf, p PtrV) []*Conf {
			return one(c.with(ins, PtrV{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], PathEl{f: ins.Field})}))
		})
	case *ssa.Field:
		v := x.val(a, c, ins.X)
		r := st.coerce(st.loadPath(v, []PathEl{{f: ins.Field}}), ins.Type())
		return one(c.with(ins, r))
	case *ssa.IndexAddr:
		return x.indexAddr(a, ins, c)
	case *ssa.Index:
		idx := x.intVal(a, c, ins.Index)
		v := x.val(a, c, ins.X)
		switch v := v.(type) {
		case *ArrV:
			if !x.bounds(ins, st, idx, v.n) {
				return nil
			}
			return one(c.with(ins, st.coerce(st.readElem(v.elem, v.segs, v.base, idx), ins.Type())))
		case *StrV:
			if !x.bounds(ins, st, idx, v.len) {
				return nil
			}
			return one(c.with(ins, x.strByte(st, v, idx)))
		}
		return one(c.with(ins, st.freshVal(ins.Type(), "index", true)))
	case *ssa.Slice:
		return x.slice(a, ins, c)
	case *ssa.SliceToArrayPointer:
		return one(c.with(ins, st.freshVal(ins.Type(), "arrayptr", true)))
	case *ssa.Store:
		v := x.val(a, c, ins.Val)
		return x.eachPtr(a, c, ins, x.val(a, c, ins.Addr), func(c *Conf, p PtrV) []*Conf {
			if x.quiet == 0 {
				x.mon.store(x, a, ins, c.st, p, v)
			}
			c.st.store(p, v)
			return one(c)
		})
	case *ssa.MapUpdate:
		x.mapUpdate(a, ins, c)
		return one(c)
	case *ssa.Lookup:
		return x.lookup(a, ins, c)
	case *ssa.Range:
		v := x.val(a, c, ins.X)
		return one(c.with(ins, TupleV{v}))
	case *ssa.Next:
		return x.next(a, ins, c)
	case *ssa.Extract:
		t := x.val(a, c, ins.Tuple)
		if tv, ok := t.(TupleV); ok && ins.Index < len(tv) {
			return one(c.with(ins, st.coerce(tv[ins.Index], ins.Type())))
		}
		return one(c.with(ins, st.freshVal(ins.Type(), "extract", true)))
	case *ssa.TypeAssert:
		return x.typeAssert(a, ins, c)
	case *ssa.Defer:
		return one(c.with(deferKey(ins), x.deferred(a, ins, c)))
	case *ssa.RunDefers:
		return x.runDefers(a, ins, c)
	case *ssa.Go:
		var out []*Conf
		for _, o := range x.callInstr(a, ins, c) {
			out = append(out, &Conf{c.env.clone(), o.st})
		}
		return out
	case *ssa.Call:
		var out []*Conf
		for _, o := range x.callInstr(a, ins, c) {
			n := &Conf{c.env.clone(), o.st}
			switch len(o.vals) {
			case 0:
			case 1:
				if ins.Call.Signature().Results().Len() == 1 || isBuiltinCall(ins) {
					n.env.set(ins, o.vals[0])
				} else {
					n.env.set(ins, TupleV(o.vals))
				}
			default:
				n.env.set(ins, TupleV(o.vals))
			}
			out = append(out, n)
		}
		return out
	case *ssa.Send, *ssa.Select:
		if v, ok := ins.(ssa.Value); ok {
			c.env.set(v, st.freshVal(v.Type(), "select", true))
		}
		return one(c)
	}
	if v, ok := ins.(ssa.Value); ok {
		x.notes["unmodelled instruction "+fmt.Sprintf("%T", ins)]++
		c.env.set(v, st.freshVal(v.Type(), "unmodelled", true))
	}
	return one(c)
}

// plainPath: p is a variable or one of its (nested) fields.
func plainPath(p PtrV) bool {
	for _, e := range p.path {
		if e.idx != nil {
			return false
		}
	}
	return true
}

func isBuiltinCall(ins *ssa.Call) bool {
	_, ok := ins.Call.Value.(*ssa.Builtin)
	return ok
}

// eachPtr runs f for every object a pointer may refer to, after checking it for nil.
func (x *Interp) eachPtr(a *act, c *Conf, ins ssa.Instruction, v Val, f func(*Conf, PtrV) []*Conf) []*Conf {
	switch p := v.(type) {
	case PtrV:
		if p.obj == 0 {
			x.oblige("nil-dereference", ins, c.st, false, false, "a nil pointer is dereferenced")
			return nil
		}
		x.oblige("nil-dereference", ins, c.st, true, false, "")
		return f(c, p)
	case AltV:
		var out []*Conf
		for _, w := range p.alts {
			out = append(out, x.eachPtr(a, c.clone(), ins, w, f)...)
		}
		return out
	}
	x.oblige("nil-dereference", ins, c.st, false, true, "unknown pointer")
	if iv, ok := ins.(ssa.Value); ok {
		o := c.st.alloc(iv.Type(), "unknown")
		if pt, ok := iv.Type().(*types.Pointer); ok {
			c.st.heap[o].typ = pt.Elem()
			c.st.setObj(o, c.st.freshVal(pt.Elem(), "unknownptr", true))
		}
		return one(c.with(iv, PtrV{obj: o}))
	}
	return one(c)
}

func (x *Interp) bounds(ins ssa.Instruction, st *State, idx, n *Poly) bool {
	if !x.need("index-range", ins, st, idx, "the index may be negative") {
		return false
	}
	return x.need("index-range", ins, st, addScaled(addScaled(n, -1, idx), 1, K(-1)), "the index may be beyond the length")
}

func (x *Interp) indexAddr(a *act, ins *ssa.IndexAddr, c *Conf) []*Conf {
	idx := x.intVal(a, c, ins.Index)
	v := x.val(a, c, ins.X)
	if _, isPtr := ins.X.Type().Underlying().(*types.Pointer); isPtr {
		return x.eachPtr(a, c, ins, v, func(c *Conf, p PtrV) []*Conf {
			at := ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !x.bounds(ins, c.st, idx, K(at.Len())) {
				return nil
			}
			return one(c.with(ins, PtrV{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], PathEl{idx: idx})}))
		})
	}
	var out []*Conf
	for _, w := range altsOf(v) {
		d := c
		if len(altsOf(v)) > 1 {
			d = c.clone()
		}
		s, ok := w.(*SliceV)
		if !ok {
			x.oblige("index-range", ins, d.st, false, true, "unknown slice")
			out = append(out, x.eachPtr(a, d, ins, OpqV{}, nil)...)
			continue
		}
		if !x.bounds(ins, d.st, idx, s.ln) {
			continue
		}
		if s.base.obj == 0 {
			continue
		}
		out = append(out, d.with(ins, PtrV{obj: s.base.obj, path: append(s.base.path[:len(s.base.path):len(s.base.path)], PathEl{idx: addScaled(s.off, 1, idx)})}))
	}
	return out
}

func altsOf(v Val) []Val {
	if a, ok := v.(AltV); ok {
		return a.alts
	}
	return []Val{v}
}

func (x *Interp) slice(a *act, ins *ssa.Slice, c *Conf) []*Conf {
	v := x.val(a, c, ins.X)
	var lo, hi, max *Poly
	if ins.Low != nil {
		lo = x.intVal(a, c, ins.Low)
	} else {
		lo = zeroP
	}
	if ins.High != nil {
		hi = x.intVal(a, c, ins.High)
	}
	if ins.Max != nil {
		max = x.intVal(a, c, ins.Max)
	}
	var out []*Conf
	alts := altsOf(v)
	for _, w := range alts {
		c := c
		if len(alts) > 1 {
			c = c.clone()
		}
		st := c.st
		var base PtrV
		off, ln, cp := zeroP, zeroP, zeroP
		switch w := w.(type) {
		case *StrV:
			h := hi
			if h == nil {
				h = w.len
			}
			if !x.need("slice-range", ins, st, lo, "the lower bound may be negative") || !x.need("slice-range", ins, st, addScaled(h, -1, lo), "the lower bound may exceed the upper bound") ||
				!x.need("slice-range", ins, st, addScaled(w.len, -1, h), "the upper bound may exceed the length") {
				continue
			}
			n := &StrV{len: addScaled(h, -1, lo)}
			if w.konst && lo.isConst() && h.isConst() && lo.c >= 0 && h.c <= int64(len(w.s)) && lo.c <= h.c {
				out = append(out, c.with(ins, constStr(w.s[lo.c:h.c])))
				continue
			}
			if w.c != nil {
				n.c = &Content{segs: w.c.segs, base: w.c.base, off: addScaled(w.c.off, 1, lo)}
			}
			freshN++
			n.key = fmt.Sprintf("substr#%d", freshN)
			out = append(out, c.with(ins, n))
			continue
		case *SliceV:
			base, off, ln, cp = w.base, w.off, w.ln, w.cp
		case PtrV:
			if w.obj == 0 {
				x.oblige("nil-dereference", ins, st, false, false, "a nil array pointer is sliced")
				continue
			}
			at, ok := ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok {
				break
			}
			base, ln, cp = w, K(at.Len()), K(at.Len())
		default:
			x.oblige("slice-range", ins, st, false, true, "unknown slice")
			out = append(out, c.with(ins, st.freshVal(ins.Type(), "slice", true)))
			continue
		}
		h := hi
		if h == nil {
			h = ln
		}
		m := max
		if m == nil {
			m = cp
		}
		if !x.need("slice-range", ins, st, lo, "the lower bound may be negative") ||
			!x.need("slice-range", ins, st, addScaled(h, -1, lo), "the lower bound may exceed the upper bound") {
			continue
		}
		if hi != nil {
			if max == nil && st.entails(addScaled(ln, -1, h)) {
				// the length never exceeds the capacity
				x.oblige("slice-range", ins, st, true, false, "")
				st.assume(addScaled(m, -1, h))
			} else if !x.need("slice-range", ins, st, addScaled(m, -1, h), "the upper bound may exceed the capacity") {
				continue
			}
		}
		if max != nil {
			if !x.need("slice-range", ins, st, addScaled(cp, -1, m), "the capacity bound may exceed the capacity") {
				continue
			}
		}
		var nilAs *BoolV
		if sv, ok := w.(*SliceV); ok {
			nilAs = sv.nilAs
		}
		out = append(out, c.with(ins, &SliceV{base: base, off: addScaled(off, 1, lo), ln: addScaled(h, -1, lo), cp: addScaled(m, -1, lo), nilAs: nilAs}))
	}
	return out
}

func (x *Interp) strByte(st *State, v *StrV, idx *Poly) Val {
	if v.konst && idx.isConst() && idx.c >= 0 && idx.c < int64(len(v.s)) {
		return K(int64(v.s[idx.c]))
	}
	if v.konst {
		r := iv{255, 0}
		for i := 0; i < len(v.s); i++ {
			r = ivHull(r, iv{int64(v.s[i]), int64(v.s[i])})
		}
		if len(v.s) == 0 {
			r = iv{0, 255}
		}
		return derive("strbyte:"+v.s, 0, r, idx)
	}
	if v.c != nil {
		return st.readElem(types.Typ[types.Uint8], v.c.segs, v.c.base, addScaled(v.c.off, 1, idx))
	}
	return st.freshVal(types.Typ[types.Uint8], "strbyte", true)
}

// wrap reduces p to type t.
func (st *State) wrap(p *Poly, t types.Type) *Poly {
	w, signed, ok := intType(t)
	if !ok || p == nil {
		if p == nil {
			s := newSym("overflow", typeRange(t))
			syms[s].fuzzy = true
			return symP(s)
		}
		return p
	}
	if signed {
		if w == 64 {
			return p
		}
		return st.sx(p, int64(w))
	}
	if w < 64 {
		if r := st.ival(p); r.lo >= 0 && w < 62 && r.hi < int64(1)<<uint(w) {
			return p
		}
		q := addScaled(K(int64(1)<<uint(w)-1), -1, p)
		if st.entails(p) && st.entails(q) {
			return p
		}
		return st.mod(p, int64(1)<<uint(w))
	}
	if st.entails(p) {
		return p
	}
	// may wrap around zero
	return derive("wrap64", 0, iv{0, posInf}, p)
}

func (x *Interp) binop(a *act, ins *ssa.BinOp, c *Conf) Val {
	st := c.st
	xt := ins.X.Type()
	if _, _, ok := intType(xt); ok && ins.Op != token.SHL && ins.Op != token.SHR {
		p, q := x.intVal(a, c, ins.X), x.intVal(a, c, ins.Y)
		return x.intop(ins, st, ins.Op, p, q, ins.Type())
	}
	if _, _, ok := intType(xt); ok {
		p, q := x.intVal(a, c, ins.X), x.intVal(a, c, ins.Y)
		if _, signed, _ := intType(ins.Y.Type()); signed {
			x.need("shift-count", ins, st, q, "the shift count may be negative")
		}
		if q.isConst() {
			k := q.c
			w, signed, _ := intType(ins.Type())
			if ins.Op == token.SHL {
				if k >= int64(w) {
					return zeroP
				}
				if k < 62 {
					return st.wrap(addScaled(zeroP, int64(1)<<uint(k), p), ins.Type())
				}
			} else {
				if k < 62 {
					return st.fdiv(p, int64(1)<<uint(k))
				}
				if !signed {
					return zeroP
				}
			}
		}
		if vs := finiteOf(st, q); vs != nil && len(vs) <= 4 && ins.Op == token.SHL {
			// only the range
			r := iv{posInf, negInf}
			for _, k := range vs {
				if k < 0 || k > 40 {
					r = ivAll
					break
				}
				r = ivHull(r, ivMul(st.ival(p), iv{1 << uint(k), 1 << uint(k)}))
			}
			return derive("shl", 0, ivMeet(r, typeRange(ins.Type())), p, q)
		}
		op := "shl"
		r := typeRange(ins.Type())
		if ins.Op == token.SHR {
			op = "shr"
			if pr := st.ival(p); pr.lo >= 0 {
				r = iv{0, pr.hi}
			}
		}
		return derive(op, 0, r, p, q)
	}
	vx, vy := x.val(a, c, ins.X), x.val(a, c, ins.Y)
	switch ins.Op {
	case token.EQL, token.NEQ:
		b := st.simpBool(x.equal(st, vx, vy, xt))
		if ins.Op == token.NEQ {
			return notB(b)
		}
		return b
	}
	if isString(xt) {
		sx, ok1 := vx.(*StrV)
		sy, ok2 := vy.(*StrV)
		if ins.Op == token.ADD && ok1 && ok2 {
			if sx.konst && sy.konst {
				return constStr(sx.s + sy.s)
			}
			return &StrV{len: addScaled(sx.len, 1, sy.len), key: "(" + strKey(st, sx) + "+" + strKey(st, sy) + ")"}
		}
		return st.freshVal(ins.Type(), "strop", false)
	}
	if isBool(ins.Type()) {
		// ordering of floats or strings
		fx, ok1 := vx.(FloatV)
		fy, ok2 := vy.(FloatV)
		if ok1 && ok2 {
			return &BoolV{op: bSym, s: keySym("cmp:" + ins.Op.String() + ":" + fx.key + ":" + fy.key)}
		}
		if bx, ok := vx.(*BoolV); ok {
			by, _ := vy.(*BoolV)
			if by != nil {
				switch ins.Op {
				case token.AND:
					return st.simpBool(&BoolV{op: bAnd, a: bx, b: by})
				case token.OR:
					return st.simpBool(&BoolV{op: bOr, a: bx, b: by})
				}
			}
		}
		return st.freshVal(ins.Type(), "cmp", false)
	}
	if isFloat(xt) {
		fx, ok1 := vx.(FloatV)
		fy, ok2 := vy.(FloatV)
		if ok1 && ok2 {
			return FloatV{fkey(ins.Op.String(), fx.key, fy.key)}
		}
	}
	return st.freshVal(ins.Type(), "binop", true)
}

func fkey(op string, a ...string) string {
	k := op + "(" + strings.Join(a, ",") + ")"
	if len(k) > 300 {
		freshN++
		return fmt.Sprintf("float#%d", freshN)
	}
	return k
}

var keySyms = map[string]Sym{}

func keySym(k string) Sym {
	if s, ok := keySyms[k]; ok {
		return s
	}
	s := newSym(k, ivAll)
	keySyms[k] = s
	return s
}

func strKey(st *State, s *StrV) string {
	if s.konst {
		return fmt.Sprintf("%q", s.s)
	}
	if s.c != nil {
		if p := contentStream(st, s.c, s.len); p != nil {
			return "stream@" + p.String() + "+" + st.norm(s.len).String()
		}
	}
	return s.key
}

// contentStream: the stream position of the first byte if the whole content is one run of the stream.
func contentStream(st *State, c *Content, n *Poly) *Poly {
	for i := len(c.segs) - 1; i >= 0; i-- {
		g := c.segs[i]
		lo := addScaled(c.off, 1, zeroP)
		last := addScaled(addScaled(c.off, 1, n), 1, K(-1))
		if g.src == "" && g.stream != nil && st.inRange(lo, g) == 1 && st.inRange(last, g) == 1 {
			return st.norm(addScaled(addScaled(g.stream, 1, c.off), -1, g.off))
		}
		// a later run that does not overlap is irrelevant
		if st.inRange(lo, g) != 0 || st.inRange(last, g) != 0 {
			return nil
		}
	}
	return nil
}

func (x *Interp) intop(ins ssa.Instruction, st *State, op token.Token, p, q *Poly, t types.Type) Val {
	switch op {
	case token.ADD:
		return st.wrap(addScaled(p, 1, q), t)
	case token.SUB:
		return st.wrap(addScaled(p, -1, q), t)
	case token.MUL:
		return st.wrap(mulPoly(p, q), t)
	case token.QUO, token.REM:
		if q.isConst() && q.c != 0 {
			x.oblige("division", ins, st, true, false, "")
			if q.c > 0 && st.entails(p) {
				if op == token.QUO {
					d := st.fdiv(p, q.c)
					if q.c > 1 && st.ival(d).hi > posInf/q.c {
						if _, ok := d.asSym(); ok {
							st.refineP(d, iv{negInf, posInf / q.c})
							return d
						}
						s := derive("trunc/", q.c, iv{0, posInf / q.c}, p)
						st.assume(addScaled(p, -q.c, s))
						st.assume(addScaled(addScaled(K(q.c-1), q.c, s), -1, p))
						return s
					}
					return d
				}
				return st.mod(p, q.c)
			}
			r := ivAll
			if op == token.REM {
				m := q.c
				if m < 0 {
					m = -m
				}
				r = iv{-(m - 1), m - 1}
			} else if pr := st.ival(p); pr.lo != negInf && pr.hi != posInf && pr.lo != -pr.lo {
				m := max64(pr.hi, -pr.lo)
				r = iv{-m, m}
			} else if q.c > 1 {
				r = iv{-(posInf/q.c + 1), posInf/q.c + 1}
			}
			return derive("trunc"+op.String(), q.c, r, p)
		}
		d := st.decideEq(q)
		x.oblige("division", ins, st, d == 0 || st.entails(addScaled(q, -1, oneP)), polyFuzzy(q) || st.outside(q), "the divisor may be zero: "+q.String())
		if d == 1 {
			return zeroP
		}
		st.assumeNe(q)
		if st.entails(p) && st.entails(addScaled(q, -1, oneP)) {
			s := derive("div", 0, iv{0, posInf}, p, q)
			if pr := st.ival(p); pr.hi != posInf {
				st.refineP(s, iv{0, pr.hi})
			}
			// q*s <= p < q*s + q, s <= p
			if m := mulPoly(q, s); m != nil {
				st.assume(addScaled(p, -1, m))
				st.assume(addScaled(addScaled(addScaled(m, 1, q), -1, p), 1, K(-1)))
			}
			st.assume(addScaled(p, -1, s))
			if op == token.QUO {
				return s
			}
			if m := mulPoly(q, s); m != nil {
				return addScaled(p, -1, m)
			}
		}
		return st.freshVal(t, "quo", true)
	case token.AND:
		return st.wrap(st.and(p, q), t)
	case token.OR:
		return st.wrap(st.or(p, q), t)
	case token.AND_NOT:
		return st.wrap(addScaled(p, -1, st.and(p, q)), t)
	case token.XOR:
		if q.isConst() && q.c == -1 {
			return st.wrap(addScaled(K(-1), -1, p), t)
		}
		return derive("xor", 0, typeRange(t), p, q)
	case token.EQL:
		return st.simpBool(&BoolV{op: bEq, p: addScaled(p, -1, q)})
	case token.NEQ:
		return notB(st.simpBool(&BoolV{op: bEq, p: addScaled(p, -1, q)}))
	case token.LSS: // p < q
		return st.simpBool(&BoolV{op: bGe, p: addScaled(addScaled(q, -1, p), 1, K(-1))})
	case token.LEQ:
		return st.simpBool(&BoolV{op: bGe, p: addScaled(q, -1, p)})
	case token.GTR:
		return st.simpBool(&BoolV{op: bGe, p: addScaled(addScaled(p, -1, q), 1, K(-1))})
	case token.GEQ:
		return st.simpBool(&BoolV{op: bGe, p: addScaled(p, -1, q)})
	}
	return st.freshVal(t, "intop", true)
}

func (st *State) refineP(p *Poly, r iv) {
	if s, ok := p.asSym(); ok {
		st.refine(s, r)
	}
}

// nilness of a value: 1 nil, 0 not nil, -1 unknown.
func (st *State) nilBool(v Val) *BoolV {
	switch v := v.(type) {
	case PtrV:
		return boolC(v.obj == 0)
	case *SliceV:
		if v.base.obj == 0 {
			return bTrue
		}
		if v.nilAs != nil {
			return v.nilAs
		}
		return bFalse
	case MapV:
		if v.obj == 0 {
			return bTrue
		}
		if v.nilAs != nil {
			return v.nilAs
		}
		return bFalse
	case *IfaceV:
		if v.isNil {
			return bTrue
		}
		if v.nilSym > 0 {
			return &BoolV{op: bSym, s: v.nilSym}
		}
		return bFalse
	case *FuncV:
		if v.isNil {
			return bTrue
		}
		if v.nilSym > 0 {
			return &BoolV{op: bSym, s: v.nilSym}
		}
		return bFalse
	}
	return nil
}

func isNilConst(v Val) bool {
	switch v := v.(type) {
	case PtrV:
		return v.obj == 0
	case *SliceV:
		return v.base.obj == 0
	case MapV:
		return v.obj == 0
	case *IfaceV:
		return v.isNil
	case *FuncV:
		return v.isNil
	}
	return false
}

func (x *Interp) equal(st *State, vx, vy Val, t types.Type) *BoolV {
	unknown := func() *BoolV { return &BoolV{op: bSym, s: newSym("eq", ivAll)} }
	if isNilConst(vy) {
		vx, vy = vy, vx
	}
	if isNilConst(vx) {
		if al, ok := vy.(AltV); ok {
			all := true
			v0 := st.nilBool(al.alts[0])
			for _, w := range al.alts {
				b := st.nilBool(w)
				if b == nil || v0 == nil || b.op != bConst || v0.op != bConst || b.c != v0.c {
					all = false
				}
			}
			if all && v0 != nil {
				return v0
			}
			return unknown()
		}
		if b := st.nilBool(vy); b != nil {
			return b
		}
		return unknown()
	}
	switch p := vx.(type) {
	case *Poly:
		if q, ok := vy.(*Poly); ok {
			return &BoolV{op: bEq, p: addScaled(p, -1, q)}
		}
	case PtrV:
		if q, ok := vy.(PtrV); ok {
			if samePtr(p, q) {
				return bTrue
			}
			if p.obj != q.obj && !st.heapSummary(p.obj) && !st.heapSummary(q.obj) {
				return bFalse
			}
		}
	case *StrV:
		if q, ok := vy.(*StrV); ok {
			return x.strEq(st, p, q)
		}
	case *IfaceV:
		if q, ok := vy.(*IfaceV); ok {
			if strings.Contains(p.id, "/") && p.id == q.id && p.role == q.role && p.nilSym == q.nilSym {
				return bTrue
			}
			if p.nilSym == 0 && q.nilSym == 0 && p.id != "" && q.id != "" && strings.Contains(p.id, ".err") && strings.Contains(q.id, ".err") {
				return boolC(p.id == q.id)
			}
		}
	case *BoolV:
		if q, ok := vy.(*BoolV); ok {
			if q.op == bConst {
				if q.c {
					return p
				}
				return notB(p)
			}
			if p.op == bConst {
				if p.c {
					return q
				}
				return notB(q)
			}
		}
	case *StructV:
		if q, ok := vy.(*StructV); ok && len(p.f) == len(q.f) {
			r := bTrue
			stt, _ := t.Underlying().(*types.Struct)
			for i := range p.f {
				var ft types.Type
				if stt != nil {
					ft = stt.Field(i).Type()
				} else {
					ft = types.Typ[types.Int]
				}
				e := st.simpBool(x.equal(st, p.f[i], q.f[i], ft))
				if e.op == bConst && !e.c {
					return bFalse
				}
				if e.op == bConst {
					continue
				}
				if r.op == bConst {
					r = e
				} else {
					r = &BoolV{op: bAnd, a: r, b: e}
				}
			}
			return r
		}
	case FloatV:
		if q, ok := vy.(FloatV); ok {
			if p.key == q.key && !strings.Contains(p.key, "#") && isConstFloat(p.key) {
				return bTrue
			}
			return &BoolV{op: bSym, s: keySym("feq:" + p.key + ":" + q.key)}
		}
	}
	return unknown()
}

func isConstFloat(k string) bool {
	return strings.Trim(k, "0123456789/-.") == ""
}

func (st *State) heapSummary(o ObjID) bool { return st.heap[o] != nil && st.heap[o].summary }

func (x *Interp) strEq(st *State, p, q *StrV) *BoolV {
	if p.konst && q.konst {
		return boolC(p.s == q.s)
	}
	if q.konst {
		p, q = q, p
	}
	// p may be constant
	d := st.norm(addScaled(p.len, -1, q.len))
	if d.isConst() && d.c != 0 {
		return bFalse
	}
	if p.konst && len(p.s) == 0 {
		return &BoolV{op: bEq, p: q.len}
	}
	if p.konst && q.c != nil && len(p.s) <= 7 {
		n := int64(len(p.s))
		if pos := contentStream(st, q.c, K(n)); pos != nil {
			var k int64
			for i := 0; i < len(p.s); i++ {
				k = k<<8 | int64(p.s[i])
			}
			e := &BoolV{op: bEq, p: addScaled(streamBE(pos, n), -1, K(k))}
			if d.isConst() {
				return e
			}
			le := &BoolV{op: bEq, p: d}
			return &BoolV{op: bAnd, a: le, b: e}
		}
	}
	if !p.konst && p.c == nil && q.c == nil && p.key == q.key && p.key != "" {
		return bTrue
	}
	kp, kq := strKey(st, p), strKey(st, q)
	if kp == kq && strings.HasPrefix(kp, "stream@") {
		return bTrue
	}
	if kp > kq {
		kp, kq = kq, kp
	}
	return &BoolV{op: bSym, s: keySym("streq:" + kp + ":" + kq)}
}

func (x *Interp) unop(a *act, ins *ssa.UnOp, c *Conf) []*Conf {
	st := c.st
	switch ins.Op {
	case token.MUL:
		return x.eachPtr(a, c, ins, x.val(a, c, ins.X), func(c *Conf, p PtrV) []*Conf {
			v := c.st.load(p, ins.Type())
			if al, ok := v.(AltV); ok && len(al.alts) <= 3 && plainPath(p) {
				if o := c.st.heap[p.obj]; o != nil && !o.summary {
					// later loads of the same cell see the same alternative
					var out []*Conf
					for _, w := range al.alts {
						d := c.clone()
						d.st.store(p, w)
						out = append(out, d.with(ins, w))
					}
					return out
				}
			}
			if q, ok := v.(*Poly); ok {
				v = c.st.norm(q)
			}
			return one(c.with(ins, v))
		})
	case token.NOT:
		if b, ok := x.val(a, c, ins.X).(*BoolV); ok {
			return one(c.with(ins, notB(b)))
		}
	case token.SUB:
		if _, _, ok := intType(ins.Type()); ok {
			return one(c.with(ins, st.wrap(negP(x.intVal(a, c, ins.X)), ins.Type())))
		}
		if f, ok := x.val(a, c, ins.X).(FloatV); ok {
			return one(c.with(ins, FloatV{fkey("neg", f.key)}))
		}
	case token.XOR:
		if _, _, ok := intType(ins.Type()); ok {
			return one(c.with(ins, st.wrap(addScaled(K(-1), -1, x.intVal(a, c, ins.X)), ins.Type())))
		}
	case token.ARROW:
		return one(c.with(ins, st.freshVal(ins.Type(), "recv", true)))
	}
	return one(c.with(ins, st.freshVal(ins.Type(), "unop", true)))
}

func (x *Interp) convert(a *act, c *Conf, ins ssa.Instruction, v Val, from, to types.Type) Val {
	st := c.st
	_, _, fi := intType(from)
	tw, ts, ti := intType(to)
	switch {
	case fi && ti:
		p, _ := st.coerce(v, from).(*Poly)
		if p == nil {
			return st.freshVal(to, "convert", true)
		}
		p = st.norm(p)
		fw, fs, _ := intType(from)
		if tw == 64 && ts {
			if fw == 64 && !fs {
				if r := st.ival(p); r.hi != posInf {
					return p
				}
				return st.sx(p, 64)
			}
			return p
		}
		if tw == 64 && !ts {
			if !fs {
				return p
			}
			if st.entails(p) {
				return p
			}
			return derive("wrap64", 0, iv{0, posInf}, p)
		}
		return st.wrap(p, to)
	case fi && isFloat(to):
		p, _ := v.(*Poly)
		if p == nil {
			return st.freshVal(to, "convert", true)
		}
		return FloatV{fkey("int2"+to.String(), st.norm(p).String())}
	case isFloat(from) && isFloat(to):
		if f, ok := v.(FloatV); ok {
			return FloatV{fkey(to.String(), f.key)}
		}
	case isFloat(from) && ti:
		if f, ok := v.(FloatV); ok {
			return derive("f2i:"+f.key, int64(tw), typeRange(to))
		}
	case isString(from):
		if s, ok := v.(*StrV); ok {
			if sl, ok := to.Underlying().(*types.Slice); ok {
				o := st.alloc(to, "string to slice")
				arr := &ArrV{n: s.len, elem: sl.Elem()}
				if s.konst {
					for i := 0; i < len(s.s) && i < 32; i++ {
						arr.segs = append(arr.segs, Seg{off: K(int64(i)), ln: oneP, val: K(int64(s.s[i]))})
					}
					if len(s.s) > 32 {
						arr.base = st.exVal(sl.Elem(), "strbytes")
					}
				} else if s.c != nil {
					for _, g := range s.c.segs {
						g.off = addScaled(g.off, -1, s.c.off)
						arr.segs = append(arr.segs, g)
					}
					arr.base = s.c.base
				} else {
					arr.base = st.exVal(sl.Elem(), "strbytes")
				}
				st.setObj(o, arr)
				return &SliceV{base: PtrV{obj: o}, off: zeroP, ln: s.len, cp: s.len}
			}
			return v
		}
	case isString(to):
		if s, ok := v.(*SliceV); ok {
			if s.base.obj == 0 {
				return constStr("")
			}
			freshN++
			r := &StrV{len: s.ln, key: fmt.Sprintf("str#%d", freshN)}
			if sl, ok := from.Underlying().(*types.Slice); ok {
				if w, _, ok := intType(sl.Elem()); ok && w == 8 {
					av := st.loadPath(st.heap[s.base.obj].val, s.base.path)
					if arr, ok := av.(*ArrV); ok && !st.heap[s.base.obj].summary {
						r.c = &Content{segs: arr.segs, base: arr.base, off: s.off}
					}
				} else {
					r.len = st.freshVal(types.Typ[types.Int], "runes.len", false).(*Poly)
					st.assume(r.len)
				}
			}
			return r
		}
		return st.freshVal(to, "tostring", false)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return st.freshVal(to, "convert", true)
}

func (p *Poly) mustSym() Sym {
	s, _ := p.asSym()
	return s
}

// ---- maps ----

func constKey(st *State, v Val) (string, bool) {
	switch v := v.(type) {
	case *Poly:
		if p := st.norm(v); p.isConst() {
			return fmt.Sprint(p.c), true
		}
	case *StrV:
		if v.konst {
			return fmt.Sprintf("%q", v.s), true
		}
	}
	return "", false
}

func (x *Interp) mapUpdate(a *act, ins *ssa.MapUpdate, c *Conf) {
	st := c.st
	m, k, v := x.val(a, c, ins.Map), x.val(a, c, ins.Key), x.val(a, c, ins.Value)
	ms := altsOf(m)
	for _, w := range ms {
		mv, ok := w.(MapV)
		if !ok {
			x.oblige("nil-map", ins, st, false, true, "unknown map")
			continue
		}
		if mv.obj == 0 {
			x.oblige("nil-map", ins, st, false, false, "assignment to an entry of a nil map")
			continue
		}
		if mv.nilAs != nil {
			x.oblige("nil-map", ins, st, st.decideBool(mv.nilAs) == 0, false, "assignment to an entry of a map that may be nil")
			st.assumeBool(mv.nilAs, false)
		} else {
			x.oblige("nil-map", ins, st, true, false, "")
		}
		mc, _ := st.heap[mv.obj].val.(*MapC)
		if mc == nil {
			continue
		}
		n := *mc
		n.consts = map[string]Val{}
		if key, ok := constKey(st, k); ok && len(ms) == 1 {
			for q, w := range mc.consts {
				n.consts[q] = w
			}
			n.consts[key] = v
		}
		g := exify(st, v, a.frame)
		if n.sum == nil {
			n.sum = g
		} else {
			n.sum = st.weakJoin(n.sum, g)
		}
		st.setObj(mv.obj, &n)
	}
}

// exify turns a value into one fit for a summary.
func exify(st *State, v Val, frame ObjID) Val { return v }

func (x *Interp) lookup(a *act, ins *ssa.Lookup, c *Conf) []*Conf {
	st := c.st
	if s, ok := x.val(a, c, ins.X).(*StrV); ok {
		idx := x.intVal(a, c, ins.Index)
		if !x.bounds(ins, st, idx, s.len) {
			return nil
		}
		return one(c.with(ins, x.strByte(st, s, idx)))
	}
	mt, ok := ins.X.Type().Underlying().(*types.Map)
	if !ok {
		return one(c.with(ins, st.freshVal(ins.Type(), "lookup", true)))
	}
	k := x.val(a, c, ins.Index)
	var out []*Conf
	missing := func(c *Conf) {
		z := zeroVal(mt.Elem())
		if ins.CommaOk {
			out = append(out, c.with(ins, TupleV{z, bFalse}))
		} else {
			out = append(out, c.with(ins, z))
		}
	}
	found := func(c *Conf, v Val) {
		v = c.st.coerce(v, mt.Elem())
		if ins.CommaOk {
			out = append(out, c.with(ins, TupleV{v, bTrue}))
		} else {
			out = append(out, c.with(ins, v))
		}
	}
	for _, w := range altsOf(x.val(a, c, ins.X)) {
		mv, ok := w.(MapV)
		if !ok {
			missing(c.clone())
			d := c.clone()
			found(d, d.st.freshVal(mt.Elem(), "lookup", true))
			continue
		}
		if mv.obj == 0 {
			missing(c.clone())
			continue
		}
		mc, _ := st.heap[mv.obj].val.(*MapC)
		if mc == nil {
			missing(c.clone())
			continue
		}
		key, isC := constKey(st, k)
		if isC {
			if v, ok := mc.consts[key]; ok {
				found(c.clone(), v)
				continue
			}
		}
		missing(c.clone())
		if mc.sum != nil {
			d := c.clone()
			found(d, d.st.instantiate(mc.sum))
		}
	}
	return out
}

func (x *Interp) next(a *act, ins *ssa.Next, c *Conf) []*Conf {
	t := ins.Type().(*types.Tuple)
	end := c.clone()
	z := TupleV{bFalse}
	for i := 1; i < t.Len(); i++ {
		if b, ok := t.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			z = append(z, OpqV{why: "unused"})
			continue
		}
		z = append(z, zeroVal(t.At(i).Type()))
	}
	end.env.set(ins, z)
	more := c.clone()
	v := TupleV{bTrue}
	src, _ := x.val(a, c, ins.Iter).(TupleV)
	for i := 1; i < t.Len(); i++ {
		tt := t.At(i).Type()
		if b, ok := tt.(*types.Basic); ok && b.Kind() == types.Invalid {
			v = append(v, OpqV{why: "unused"})
			continue
		}
		var e Val
		if len(src) == 1 {
			switch s := src[0].(type) {
			case MapV:
				if s.obj == 0 {
					return one(end)
				}
				if mc, ok := more.st.heap[s.obj].val.(*MapC); ok {
					if mc.sum == nil {
						return one(end)
					}
					if i == 2 {
						e = more.st.coerce(more.st.instantiate(mc.sum), tt)
					}
				}
			case *StrV:
				if i == 1 {
					p := more.st.freshVal(types.Typ[types.Int], "strpos", false).(*Poly)
					more.st.assume(p)
					more.st.assume(addScaled(addScaled(s.len, -1, p), 1, K(-1)))
					e = p
				}
			}
		}
		if e == nil {
			e = more.st.freshVal(tt, "next", false)
		}
		v = append(v, e)
	}
	more.env.set(ins, v)
	return []*Conf{more, end}
}

// ---- type assertions ----

func (x *Interp) typeAssert(a *act, ins *ssa.TypeAssert, c *Conf) []*Conf {
	var out []*Conf
	res := func(c *Conf, ok bool, v Val) {
		if !ins.CommaOk {
			if !ok {
				x.oblige("type-assertion", ins, c.st, false, false, "the assertion to "+ins.AssertedType.String()+" fails")
				return
			}
			out = append(out, c.with(ins, v))
			return
		}
		if !ok {
			v = zeroVal(ins.AssertedType)
		}
		out = append(out, c.with(ins, TupleV{v, boolC(ok)}))
	}
	for _, w := range altsOf(x.val(a, c, ins.X)) {
		d := c.clone()
		v, ok := w.(*IfaceV)
		if !ok {
			x.oblige("type-assertion", ins, d.st, ins.CommaOk, true, "unknown interface value")
			if ins.CommaOk {
				res(c.clone(), false, nil)
			}
			res(d, true, d.st.freshVal(ins.AssertedType, "assert", true))
			continue
		}
		if v.isNil {
			res(d, false, nil)
			continue
		}
		if v.nilSym > 0 {
			e := c.clone()
			if e.st.assumeBool(&BoolV{op: bSym, s: v.nilSym}, true) {
				res(e, false, nil)
			}
			if !d.st.assumeBool(&BoolV{op: bSym, s: v.nilSym}, false) {
				continue
			}
		}
		if v.dyn != nil {
			var good bool
			if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
				good = types.Implements(v.dyn, it)
				res(d, good, v)
			} else {
				good = types.Identical(v.dyn, ins.AssertedType)
				res(d, good, v.val)
			}
			continue
		}
		// unknown dynamic type
		if !ins.CommaOk {
			x.oblige("type-assertion", ins, d.st, false, false, "the dynamic type is not known to be "+ins.AssertedType.String())
		}
		if ins.CommaOk {
			res(c.clone(), false, nil)
		}
		if _, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
			n := *v
			n.nilSym = 0
			res(d, true, &n)
		} else {
			res(d, true, d.st.freshVal(ins.AssertedType, "assert", false))
		}
	}
	if !ins.CommaOk && len(out) > 0 {
		x.oblige("type-assertion", ins, c.st, true, false, "")
	}
	return out
}

// ---- calls ----

func (x *Interp) deferred(a *act, ins *ssa.Defer, c *Conf) Val {
	t := TupleV{}
	t = append(t, x.val(a, c, ins.Call.Value))
	for _, v := range ins.Call.Args {
		t = append(t, x.val(a, c, v))
	}
	return t
}

func (x *Interp) runDefers(a *act, ins *ssa.RunDefers, c *Conf) []*Conf {
	cs := one(c)
	for i := len(a.info.defers) - 1; i >= 0; i-- {
		d := a.info.defers[i]
		var next []*Conf
		for _, c := range cs {
			t, ok := c.env.m[deferKey(d)].(TupleV)
			if !ok {
				next = append(next, c)
				continue
			}
			for _, o := range x.dispatch(a, d, c, t[0], t[1:]) {
				next = append(next, &Conf{c.env.clone(), o.st})
			}
		}
		cs = next
	}
	return cs
}

func (x *Interp) callInstr(a *act, ins ssa.CallInstruction, c *Conf) []outcome {
	cc := ins.Common()
	var args []Val
	for _, v := range cc.Args {
		args = append(args, x.val(a, c, v))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(a, ins, c, b.Name(), args)
	}
	return x.dispatch(a, ins, c, x.val(a, c, cc.Value), args)
}

func (x *Interp) dispatch(a *act, ins ssa.CallInstruction, c *Conf, callee Val, args []Val) []outcome {
	cc := ins.Common()
	st := c.st
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(a, ins, c, b.Name(), args)
	}
	if cc.IsInvoke() {
		var out []outcome
		alts := altsOf(callee)
		for _, w := range alts {
			d := c.st
			if len(alts) > 1 {
				d = c.st.clone()
			}
			v, ok := w.(*IfaceV)
			if !ok {
				x.oblige("nil-dereference", ins, d, false, true, "method call on an unknown value")
				out = append(out, x.unknownCall(ins, d, cc.Signature(), args, "method "+cc.Method.Name())...)
				continue
			}
			if v.isNil {
				x.oblige("nil-dereference", ins, d, false, false, "method "+cc.Method.Name()+" is called on a nil interface value")
				continue
			}
			if v.nilSym > 0 {
				x.oblige("nil-dereference", ins, d, d.decideBool(&BoolV{op: bSym, s: v.nilSym}) == 0, false, "method "+cc.Method.Name()+" is called on an interface value that may be nil")
				if !d.assumeBool(&BoolV{op: bSym, s: v.nilSym}, false) {
					continue
				}
			} else {
				x.oblige("nil-dereference", ins, d, true, false, "")
			}
			if v.dyn != nil {
				m := x.p.SSA.LookupMethod(v.dyn, cc.Method.Pkg(), cc.Method.Name())
				if m != nil {
					out = append(out, x.callFn(a, ins, d, m, append([]Val{v.val}, args...), nil)...)
					continue
				}
			}
			out = append(out, x.invokeModel(a, ins, d, v, cc.Method, args)...)
		}
		return out
	}
	var out []outcome
	alts := altsOf(callee)
	for _, w := range alts {
		d := st
		if len(alts) > 1 {
			d = st.clone()
		}
		f, ok := w.(*FuncV)
		if !ok {
			out = append(out, x.unknownCall(ins, d, cc.Signature(), args, "unknown function value")...)
			continue
		}
		if f.isNil {
			x.oblige("nil-dereference", ins, d, false, false, "a nil function is called")
			continue
		}
		if f.fn != nil {
			out = append(out, x.callFn(a, ins, d, f.fn, args, f.bind)...)
			continue
		}
		if f.nilSym > 0 {
			b := &BoolV{op: bSym, s: f.nilSym}
			x.oblige("nil-dereference", ins, d, d.decideBool(b) == 0, false, "a function value that may be nil is called")
			if !d.assumeBool(b, false) {
				continue
			}
		}
		out = append(out, x.callback(a, ins, d, f.role, args, cc.Signature())...)
	}
	return out
}

func (x *Interp) callFn(a *act, ins ssa.CallInstruction, st *State, fn *ssa.Function, args, bind []Val) []outcome {
	if x.quiet == 0 {
		x.mon.call(x, a, ins, st, fn, args)
	}
	if out, ok := x.model(a, ins, st, fn, args); ok {
		return out
	}
	if len(fn.Blocks) > 0 && x.p.inRepo(fn) && x.worker(fn) {
		return x.workerCall(ins, st, fn, args, bind)
	}
	if len(fn.Blocks) > 0 && x.p.inRepo(fn) && x.contracted(fn) {
		return x.contractCall(ins, st, fn, args, bind)
	}
	if len(fn.Blocks) > 0 && x.p.inRepo(fn) && x.counted(fn) {
		return x.countedCall(ins, st, fn, args, bind)
	}
	if len(fn.Blocks) > 0 && x.p.inRepo(fn) && !(x.opaque != nil && x.opaque(fn)) {
		return x.call(fn, args, bind, st, ins, a)
	}
	if x.quiet == 0 {
		x.unmod[fn.String()]++
	}
	return x.unknownCall(ins, st, fn.Signature, args, fn.String())
}

// unknownCall: a call about which nothing is known except its result types.
func (x *Interp) unknownCall(ins ssa.CallInstruction, st *State, sig *types.Signature, args []Val, what string) []outcome {
	x.havocArgs(st, args)
	for _, v := range args {
		if i, ok := v.(*IfaceV); ok && i.role == "reader" {
			st.setGh("G", addScaled(st.G("G"), 1, symP(newSym("unknownread", iv{0, posInf}))))
		}
	}
	o := outcome{st: st}
	rt := sig.Results()
	for i := 0; i < rt.Len(); i++ {
		o.vals = append(o.vals, st.freshVal(rt.At(i).Type(), "call:"+what, true))
	}
	return []outcome{o}
}

func (x *Interp) builtin(a *act, ins ssa.CallInstruction, c *Conf, name string, args []Val) []outcome {
	st := c.st
	r := func(v Val) []outcome { return []outcome{{st, []Val{v}}} }
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case *SliceV:
			if name == "cap" {
				return r(v.cp)
			}
			return r(st.norm(v.ln))
		case *StrV:
			return r(st.norm(v.len))
		case *ArrV:
			return r(v.n)
		case PtrV:
			if at, ok := ins.Common().Args[0].Type().Underlying().(*types.Pointer); ok {
				if ar, ok := at.Elem().Underlying().(*types.Array); ok {
					return r(K(ar.Len()))
				}
			}
		}
		s := newSym("len", iv{0, posInf})
		syms[s].fuzzy = true
		return r(symP(s))
	case "append":
		return x.appendB(a, ins, st, args)
	case "copy":
		return x.copyB(a, ins, st, args)
	case "delete", "print", "println", "close", "clear":
		if name == "delete" || name == "clear" {
			x.notes[name]++
		}
		return []outcome{{st, nil}}
	case "min", "max":
		if p, ok := args[0].(*Poly); ok {
			for _, v := range args[1:] {
				q, ok := v.(*Poly)
				if !ok {
					return r(st.freshVal(ins.Common().Signature().Results().At(0).Type(), name, true))
				}
				p = st.minmax(st.norm(p), st.norm(q), name == "min")
			}
			return r(p)
		}
	case "recover":
		return r(&IfaceV{isNil: true})
	case "ssa:wrapnilchk":
		return r(args[0])
	}
	if v, ok := ins.(ssa.Value); ok {
		return r(st.freshVal(v.Type(), name, true))
	}
	return []outcome{{st, nil}}
}

func (x *Interp) appendB(a *act, ins ssa.CallInstruction, st *State, args []Val) []outcome {
	t := ins.(ssa.Value).Type()
	s, ok := args[0].(*SliceV)
	el := t.Underlying().(*types.Slice).Elem()
	var addLn *Poly
	var src *SliceV
	var srcStr *StrV
	if len(args) > 1 {
		switch v := args[1].(type) {
		case *SliceV:
			src, addLn = v, v.ln
		case *StrV:
			srcStr, addLn = v, v.len
		}
	} else {
		addLn = zeroP
	}
	if !ok || addLn == nil {
		return []outcome{{st, []Val{st.freshVal(t, "append", true)}}}
	}
	// the result is a new array holding both parts
	o := st.alloc(t, x.pos(ins))
	n := addScaled(s.ln, 1, addLn)
	arr := &ArrV{n: n, elem: el}
	if s.base.obj != 0 {
		if old, ok := st.loadPath(st.heap[s.base.obj].val, s.base.path).(*ArrV); ok {
			if st.heap[s.base.obj].summary {
				arr.base = st.collapse(old)
			} else if s.off == zeroP && old.n == s.ln {
				arr.segs, arr.base = old.segs, old.base
			} else {
				arr.base = st.collapse(old)
			}
		} else {
			arr.base = OpqV{t: el, why: "append"}
		}
	}
	if src != nil && src.base.obj != 0 {
		if sa, ok := st.loadPath(st.heap[src.base.obj].val, src.base.path).(*ArrV); ok {
			if ln := st.norm(src.ln); ln.isConst() && ln.c <= 8 && !st.heap[src.base.obj].summary {
				for i := int64(0); i < ln.c; i++ {
					arr = st.writeSeg(arr, Seg{off: addScaled(s.ln, 1, K(i)), ln: oneP, val: st.readElem(el, sa.segs, sa.base, addScaled(src.off, 1, K(i)))})
				}
			} else {
				arr = x.copySeg(st, arr, s.ln, sa, src.off, src.ln, st.heap[src.base.obj].summary)
			}
		}
	} else if srcStr != nil {
		arr = st.writeSeg(arr, Seg{off: s.ln, ln: addLn, val: st.exVal(el, "appended")})
	}
	arr2 := *arr
	arr2.n = n
	st.setObj(o, &arr2)
	return []outcome{{st, []Val{&SliceV{base: PtrV{obj: o}, off: zeroP, ln: n, cp: n}}}}
}

// copySeg writes ln elements of sa from so at do.
func (x *Interp) copySeg(st *State, d *ArrV, do *Poly, sa *ArrV, so, ln *Poly, summary bool) *ArrV {
	if !summary {
		last := addScaled(addScaled(so, 1, ln), 1, K(-1))
		for i := len(sa.segs) - 1; i >= 0; i-- {
			g := sa.segs[i]
			if g.stream != nil && st.inRange(so, g) == 1 && st.inRange(last, g) == 1 {
				return st.writeSeg(d, Seg{off: do, ln: ln, stream: addScaled(addScaled(g.stream, 1, so), -1, g.off), src: g.src})
			}
			if st.inRange(so, g) != 0 || st.inRange(last, g) != 0 {
				break
			}
		}
	}
	return st.writeSeg(d, Seg{off: do, ln: ln, val: st.coerceSeg(st.collapse(sa), d.elem)})
}

func (st *State) coerceSeg(v Val, elem types.Type) Val {
	if v == nil {
		return zeroVal(elem)
	}
	return v
}

func (x *Interp) copyB(a *act, ins ssa.CallInstruction, st *State, args []Val) []outcome {
	d, ok := args[0].(*SliceV)
	if !ok {
		return []outcome{{st, []Val{st.freshVal(types.Typ[types.Int], "copy", true)}}}
	}
	var sl *Poly
	s, isS := args[1].(*SliceV)
	str, isStr := args[1].(*StrV)
	switch {
	case isS:
		sl = s.ln
	case isStr:
		sl = str.len
	default:
		return []outcome{{st, []Val{st.freshVal(types.Typ[types.Int], "copy", true)}}}
	}
	n := st.minmax(st.norm(d.ln), st.norm(sl), true)
	if d.base.obj == 0 || (isS && s.base.obj == 0) {
		return []outcome{{st, []Val{zeroP}}}
	}
	o := st.heap[d.base.obj]
	if da, ok := st.loadPath(o.val, d.base.path).(*ArrV); ok {
		var nv *ArrV
		if isS {
			so := st.heap[s.base.obj]
			if sa, ok := st.loadPath(so.val, s.base.path).(*ArrV); ok && !o.summary {
				nv = x.copySeg(st, da, d.off, sa, s.off, n, so.summary)
			}
		}
		if nv == nil {
			nv = st.writeSeg(da, Seg{off: d.off, ln: n, val: st.exVal(da.elem, "copied")})
		}
		if o.summary {
			nv.base, nv.segs = st.collapse(nv), nil
		}
		st.store(d.base, nv)
	}
	return []outcome{{st, []Val{n}}}
}
