package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ObjID identifies an abstract object; ids grow in allocation order.
type ObjID int32

// Obj is an abstract heap object. A summary object stands for several
// concrete ones and is only updated weakly.
type Obj struct {
	val     Val
	typ     types.Type
	site    string
	summary bool
}

// Val is an abstract value. Integers are *Poly.
type Val interface{}

type boolOp uint8

const (
	bConst boolOp = iota
	bGe           // p >= 0
	bEq           // p == 0
	bNot
	bSym // opaque boolean symbol
	bAnd
	bOr
	bIsNil // a value with undecided nilness
)

// BoolV is a boolean expression.
type BoolV struct {
	op boolOp
	c  bool
	p  *Poly
	a  *BoolV
	b  *BoolV
	s  Sym
}

var bTrue, bFalse = &BoolV{op: bConst, c: true}, &BoolV{op: bConst, c: false}

func boolC(b bool) *BoolV {
	if b {
		return bTrue
	}
	return bFalse
}

func (b *BoolV) String() string {
	switch b.op {
	case bConst:
		return fmt.Sprint(b.c)
	case bGe:
		return "(" + b.p.String() + ">=0)"
	case bEq:
		return "(" + b.p.String() + "==0)"
	case bNot:
		return "!" + b.a.String()
	case bAnd:
		return "(" + b.a.String() + "&&" + b.b.String() + ")"
	case bOr:
		return "(" + b.a.String() + "||" + b.b.String() + ")"
	}
	return "bool#" + fmt.Sprint(int(b.s))
}

// FloatV is an uninterpreted floating point (or complex) value, canonical by key.
type FloatV struct{ key string }

// StrV is a string: a constant, or the bytes of some content.
type StrV struct {
	konst bool
	s     string
	len   *Poly
	c     *Content // bytes, if known
	key   string   // canonical identity for opaque strings
}

// Content describes immutable bytes.
type Content struct {
	segs []Seg
	base Val
	off  *Poly // offset of byte 0 within the segments' coordinates
}

// PathEl selects a field (idx nil) or an element.
type PathEl struct {
	f   int
	idx *Poly
}

// PtrV is a pointer; obj 0 is nil.
type PtrV struct {
	obj  ObjID
	path []PathEl
}

// SliceV is a slice of the array at base; isnil is nil (known non-nil), or a condition.
type SliceV struct {
	base  PtrV // obj 0: nil slice
	off   *Poly
	ln    *Poly
	cp    *Poly
	nilAs *BoolV // if not nil: whether the slice is nil (base still valid when it is not)
}

// ArrV is the contents of an array.
type ArrV struct {
	n    *Poly
	elem types.Type
	segs []Seg // newest last
	base Val   // value of the other elements: nil = zero value; may hold ex symbols
}

// Seg is a run of elements [off, off+ln).
type Seg struct {
	off, ln *Poly
	stream  *Poly // non-nil: bytes of the input stream from this position
	src     string
	val     Val // otherwise: value with iota for the index relative to the array
}

type StructV struct{ f []Val }
type TupleV []Val

// IfaceV is an interface value.
type IfaceV struct {
	nilSym Sym // >0: nil iff bool symbol true
	isNil  bool
	dyn    types.Type // dynamic type if known
	val    Val
	role   string // "reader", "error", "debug", ...: behaviour of an unknown dynamic type
	id     string
}

type FuncV struct {
	fn     *ssa.Function
	bind   []Val
	isNil  bool
	nilSym Sym
	role   string
}

type MapV struct {
	obj   ObjID // 0 = nil map
	nilAs *BoolV
}

// MapC is the content of a map object.
type MapC struct {
	kt, vt types.Type
	sum    Val // join of the values ever stored; nil = empty
	key    Val
	consts map[string]Val // latest value stored under a constant key
}

// AltV is one of several values.
type AltV struct{ alts []Val }

// OpqV is a value about which nothing is known.
type OpqV struct {
	t    types.Type
	why  string
	role string
	nz   bool // a slice that is nil if it is empty
}

// nilIfEmpty: the slice v is nil or not empty.
func (st *State) nilIfEmpty(v Val) bool {
	switch v := v.(type) {
	case *SliceV:
		return v.base.obj == 0 || st.ival(st.norm(v.ln)).lo >= 1
	case OpqV:
		return v.nz
	case AltV:
		for _, a := range v.alts {
			if !st.nilIfEmpty(a) {
				return false
			}
		}
		return true
	}
	return false
}

// iota stands for the element index in the value of a segment.
var iotaSym = newSym("iota", iv{0, posInf})
var iotaP = symP(iotaSym)

func isEx(s Sym) bool { return syms[s].tag == "ex" }

// ---- types helpers ----

func intType(t types.Type) (width int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func typeRange(t types.Type) iv {
	w, s, ok := intType(t)
	if !ok {
		return ivAll
	}
	if s {
		if w == 64 {
			return ivAll
		}
		return iv{-(int64(1) << uint(w-1)), int64(1)<<uint(w-1) - 1}
	}
	if w == 64 {
		return iv{0, posInf}
	}
	return iv{0, int64(1)<<uint(w) - 1}
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return zeroP
		case u.Info()&types.IsBoolean != 0:
			return bFalse
		case u.Info()&types.IsString != 0:
			return constStr("")
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return FloatV{"0"}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return PtrV{}
		}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return &SliceV{off: zeroP, ln: zeroP, cp: zeroP}
	case *types.Map:
		return MapV{}
	case *types.Interface:
		return &IfaceV{isNil: true}
	case *types.Signature:
		return &FuncV{isNil: true}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return &StructV{f}
	case *types.Array:
		return &ArrV{n: K(u.Len()), elem: u.Elem()}
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = zeroVal(u.At(i).Type())
		}
		return r
	case *types.Chan:
		return OpqV{t: t, why: "nil chan"}
	}
	return OpqV{t: t, why: "zero"}
}

func constStr(s string) *StrV { return &StrV{konst: true, s: s, len: K(int64(len(s)))} }

var freshN int

// freshVal makes an unconstrained value of type t.
func (st *State) freshVal(t types.Type, why string, fuzzy bool) Val {
	freshN++
	mk := func(rng iv) *Poly {
		s := newSym(why, rng)
		syms[s].fuzzy = fuzzy
		return symP(s)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mk(typeRange(t))
		case u.Info()&types.IsBoolean != 0:
			s := newSym(why, ivAll)
			syms[s].fuzzy = fuzzy
			return &BoolV{op: bSym, s: s}
		case u.Info()&types.IsString != 0:
			return &StrV{len: mk(iv{0, posInf}), key: fmt.Sprintf("%s#%d", why, freshN)}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return FloatV{fmt.Sprintf("%s#%d", why, freshN)}
		}
	case *types.Slice:
		o := st.alloc(types.NewSlice(u.Elem()), why)
		n := mk(iv{0, posInf})
		st.heap[o].val = &ArrV{n: n, elem: u.Elem(), base: st.exVal(u.Elem(), why)}
		ns := newSym(why+".nil", ivAll)
		return &SliceV{base: PtrV{obj: o}, off: zeroP, ln: n, cp: n, nilAs: &BoolV{op: bSym, s: ns}}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = st.freshVal(u.Field(i).Type(), why+"."+u.Field(i).Name(), fuzzy)
		}
		return &StructV{f}
	case *types.Array:
		return &ArrV{n: K(u.Len()), elem: u.Elem(), base: st.exVal(u.Elem(), why)}
	case *types.Interface:
		role := ""
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			role = "error"
		}
		return &IfaceV{nilSym: newSym(why+".nil", ivAll), role: role, id: fmt.Sprintf("%s#%d", why, freshN)}
	case *types.Signature:
		return &FuncV{nilSym: newSym(why+".nil", ivAll), role: why}
	case *types.Map:
		o := st.alloc(t, why)
		st.heap[o].val = &MapC{kt: u.Key(), vt: u.Elem(), sum: st.exVal(u.Elem(), why), consts: map[string]Val{}}
		return MapV{obj: o, nilAs: &BoolV{op: bSym, s: newSym(why+".nil", ivAll)}}
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = st.freshVal(u.At(i).Type(), fmt.Sprintf("%s.%d", why, i), fuzzy)
		}
		return r
	}
	return OpqV{t: t, why: why}
}

// exVal is a summary value standing for any value of the type.
func (st *State) exVal(t types.Type, why string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return symP(newEx(why, typeRange(t)))
		}
	}
	return OpqV{t: t, why: why}
}

func newEx(why string, r iv) Sym {
	s := newSym("ex:"+why, r)
	syms[s].tag = "ex"
	return s
}

var objCount ObjID

func (st *State) alloc(t types.Type, site string) ObjID {
	st.ownHeap()
	objCount++
	st.heap[objCount] = &Obj{typ: t, site: site}
	return objCount
}

func (st *State) setObj(id ObjID, v Val) {
	st.ownHeap()
	o := *st.heap[id]
	o.val = v
	st.heap[id] = &o
}

// ---- printing ----

func vstr(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<zero>"
	case *Poly:
		return v.String()
	case *BoolV:
		return v.String()
	case FloatV:
		return v.key
	case *StrV:
		if v.konst {
			return fmt.Sprintf("%q", v.s)
		}
		return "str(" + v.key + cstr(v.c) + ",len=" + v.len.String() + ")"
	case PtrV:
		if v.obj == 0 {
			return "nil"
		}
		return fmt.Sprintf("&o%d%s", v.obj, pathStr(v.path))
	case *SliceV:
		if v.base.obj == 0 {
			return "nil[]"
		}
		s := fmt.Sprintf("o%d%s[%s:+%s:%s]", v.base.obj, pathStr(v.base.path), v.off, v.ln, v.cp)
		if v.nilAs != nil {
			s += "?"
		}
		return s
	case *ArrV:
		return "arr(n=" + v.n.String() + segsStr(v.segs) + " base=" + vstr(v.base) + ")"
	case *StructV:
		var s []string
		for _, x := range v.f {
			s = append(s, vstr(x))
		}
		return "{" + strings.Join(s, "; ") + "}"
	case TupleV:
		var s []string
		for _, x := range v {
			s = append(s, vstr(x))
		}
		return "(" + strings.Join(s, "; ") + ")"
	case *IfaceV:
		if v.isNil {
			return "nil-iface"
		}
		if v.dyn != nil {
			return v.dyn.String() + "(" + vstr(v.val) + ")"
		}
		return "iface:" + v.role + v.id
	case *FuncV:
		if v.isNil {
			return "nil-func"
		}
		if v.fn != nil {
			return "func " + v.fn.String()
		}
		return "func?" + v.role
	case MapV:
		return fmt.Sprintf("map o%d", v.obj)
	case *MapC:
		return "mapc(" + vstr(v.sum) + ")"
	case AltV:
		var s []string
		for _, x := range v.alts {
			s = append(s, vstr(x))
		}
		return "alt<" + strings.Join(s, " | ") + ">"
	case OpqV:
		return "opq:" + v.why
	case *Content:
		return cstr(v)
	}
	return fmt.Sprintf("%T", v)
}

func cstr(c *Content) string {
	if c == nil {
		return ""
	}
	return "@" + c.off.String() + segsStr(c.segs)
}

func segsStr(segs []Seg) string {
	s := ""
	for _, g := range segs {
		s += " [" + g.off.String() + "+" + g.ln.String() + "]="
		if g.stream != nil {
			s += "stream" + g.src + "@" + g.stream.String()
		} else {
			s += vstr(g.val)
		}
	}
	return s
}

func pathStr(p []PathEl) string {
	s := ""
	for _, e := range p {
		if e.idx != nil {
			s += "[" + e.idx.String() + "]"
		} else {
			s += fmt.Sprintf(".%d", e.f)
		}
	}
	return s
}

// ---- mapping over the polynomials of a value ----

func mapVal(v Val, f func(*Poly) *Poly) Val {
	switch v := v.(type) {
	case *Poly:
		return f(v)
	case *BoolV:
		if v.op == bConst || v.op == bSym {
			return v
		}
		n := *v
		if v.p != nil {
			n.p = f(v.p)
		}
		if v.a != nil {
			n.a = mapVal(v.a, f).(*BoolV)
		}
		if v.b != nil {
			n.b = mapVal(v.b, f).(*BoolV)
		}
		return &n
	case *StrV:
		if v.konst {
			return v
		}
		n := *v
		n.len = f(v.len)
		if v.c != nil {
			n.c = mapContent(v.c, f)
		}
		return &n
	case PtrV:
		return mapPtr(v, f)
	case *SliceV:
		if v.base.obj == 0 {
			return v
		}
		n := *v
		n.base = mapPtr(v.base, f)
		n.off, n.ln, n.cp = f(v.off), f(v.ln), f(v.cp)
		return &n
	case *ArrV:
		n := *v
		n.n = f(v.n)
		n.segs = mapSegs(v.segs, f)
		n.base = mapVal(v.base, f)
		return &n
	case *StructV:
		n := &StructV{make([]Val, len(v.f))}
		for i := range v.f {
			n.f[i] = mapVal(v.f[i], f)
		}
		return n
	case TupleV:
		n := make(TupleV, len(v))
		for i := range v {
			n[i] = mapVal(v[i], f)
		}
		return n
	case *IfaceV:
		if v.val == nil {
			return v
		}
		n := *v
		n.val = mapVal(v.val, f)
		return &n
	case *FuncV:
		if len(v.bind) == 0 {
			return v
		}
		n := *v
		n.bind = make([]Val, len(v.bind))
		for i := range v.bind {
			n.bind[i] = mapVal(v.bind[i], f)
		}
		return &n
	case AltV:
		n := AltV{make([]Val, len(v.alts))}
		for i := range v.alts {
			n.alts[i] = mapVal(v.alts[i], f)
		}
		return n
	case *MapC:
		n := *v
		n.sum = mapVal(v.sum, f)
		n.consts = map[string]Val{}
		for k, x := range v.consts {
			n.consts[k] = mapVal(x, f)
		}
		return &n
	}
	return v
}

func mapPtr(v PtrV, f func(*Poly) *Poly) PtrV {
	has := false
	for _, e := range v.path {
		has = has || e.idx != nil
	}
	if !has {
		return v
	}
	n := PtrV{obj: v.obj, path: make([]PathEl, len(v.path))}
	for i, e := range v.path {
		if e.idx != nil {
			e.idx = f(e.idx)
		}
		n.path[i] = e
	}
	return n
}

func mapSegs(segs []Seg, f func(*Poly) *Poly) []Seg {
	if len(segs) == 0 {
		return segs
	}
	r := make([]Seg, len(segs))
	for i, g := range segs {
		g.off, g.ln = f(g.off), f(g.ln)
		if g.stream != nil {
			g.stream = f(g.stream)
		}
		if g.val != nil {
			g.val = mapVal(g.val, f)
		}
		r[i] = g
	}
	return r
}

func mapContent(c *Content, f func(*Poly) *Poly) *Content {
	return &Content{segs: mapSegs(c.segs, f), base: mapVal(c.base, f), off: f(c.off)}
}

// eachObj visits the objects a value refers to.
func eachObj(v Val, f func(ObjID)) {
	switch v := v.(type) {
	case PtrV:
		if v.obj != 0 {
			f(v.obj)
		}
	case *SliceV:
		if v.base.obj != 0 {
			f(v.base.obj)
		}
	case *ArrV:
		for _, g := range v.segs {
			eachObj(g.val, f)
		}
		eachObj(v.base, f)
	case *StructV:
		for _, x := range v.f {
			eachObj(x, f)
		}
	case TupleV:
		for _, x := range v {
			eachObj(x, f)
		}
	case *IfaceV:
		eachObj(v.val, f)
	case *FuncV:
		for _, x := range v.bind {
			eachObj(x, f)
		}
	case MapV:
		if v.obj != 0 {
			f(v.obj)
		}
	case AltV:
		for _, x := range v.alts {
			eachObj(x, f)
		}
	case *MapC:
		eachObj(v.sum, f)
		eachObj(v.key, f)
		for _, k := range sortedKeys(v.consts) {
			eachObj(v.consts[k], f)
		}
	}
}

func sortedKeys[T any](m map[string]T) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// instantiate replaces ex symbols by fresh ones.
func (st *State) instantiate(v Val) Val {
	ren := map[Sym]*Poly{}
	var f func(p *Poly) *Poly
	sub := func(s Sym) *Poly {
		in := s.info()
		if isEx(s) {
			if ren[s] == nil {
				n := newSym(strings.TrimPrefix(in.name, "ex:"), in.rng)
				syms[n].fuzzy = in.fuzzy
				syms[n].set = in.set
				ren[s] = symP(n)
			}
			return ren[s]
		}
		if in.op != "" {
			ch := false
			var as []*Poly
			for _, a := range in.args {
				b := f(a)
				ch = ch || a != b
				as = append(as, b)
			}
			if ch {
				return st.rederive(in.op, in.n, in.rng, as)
			}
		}
		return nil
	}
	f = func(p *Poly) *Poly {
		q := p.subst(sub)
		if q == nil {
			return symP(newSym("overflow", ivAll))
		}
		return q
	}
	return mapVal(v, f)
}

// substVal replaces symbol s by q everywhere in v, also inside derived symbols.
func (st *State) substVal(v Val, s Sym, q *Poly) Val {
	return mapVal(v, func(p *Poly) *Poly { return st.substPoly(p, s, q) })
}

func (st *State) substPoly(p *Poly, s Sym, q *Poly) *Poly {
	r := p.subst(func(x Sym) *Poly {
		if x == s {
			return q
		}
		in := x.info()
		if in.op == "" {
			return nil
		}
		ch := false
		var as []*Poly
		for _, a := range in.args {
			b := st.substPoly(a, s, q)
			ch = ch || a != b
			as = append(as, b)
		}
		if !ch {
			return nil
		}
		return st.rederive(in.op, in.n, in.rng, as)
	})
	if r == nil {
		return symP(newSym("overflow", ivAll))
	}
	return r
}

func mentions(v Val, s Sym) bool {
	found := false
	mapVal(v, func(p *Poly) *Poly {
		p.deepSyms(func(x Sym) { found = found || x == s })
		return p
	})
	return found
}
