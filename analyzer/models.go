package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Descriptions of the functions outside of the repository that the code uses.

func (p *Program) inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	if pk == nil {
		// wrappers and bound methods: the receiver's package
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), "github.com/oov/psd")
		}
		return false
	}
	return strings.HasPrefix(pk.Pkg.Path(), "github.com/oov/psd")
}

func nilErr() Val { return &IfaceV{isNil: true} }

func someErr(what string) Val { return &IfaceV{role: "error", id: what} }

// reader describes what a value given as a reader delivers.
type readerKind struct {
	base  bool
	lim   *PtrV // *io.LimitedReader
	zlib  *IfaceV
	bytes *PtrV
	other bool
}

func readerOf(v Val) readerKind {
	i, ok := v.(*IfaceV)
	if !ok {
		return readerKind{other: true}
	}
	if i.role == "reader" {
		return readerKind{base: true}
	}
	if i.role == "zlib" {
		return readerKind{zlib: i}
	}
	if i.dyn != nil && i.dyn.String() == "*io.LimitedReader" {
		if p, ok := i.val.(PtrV); ok && p.obj != 0 {
			return readerKind{lim: &p}
		}
	}
	return readerKind{other: true}
}

// consume accounts for n bytes taken from r; certain tells that they were all
// there. It returns the stream position of the first byte (nil: not the base stream)
// and false if that is impossible.
func (x *Interp) consume(st *State, r Val, n *Poly, certain bool) (*Poly, bool) {
	k := readerOf(r)
	switch {
	case k.base:
		pos := st.G("G")
		st.setGh("G", addScaled(pos, 1, n))
		if certain {
			x.taken(st, pos, n)
			if st.entails(addScaled(n, -1, oneP)) {
				st.setGh("unv", zeroP)
			}
		}
		return pos, true
	case k.lim != nil:
		// field 0: R, field 1: N
		np := PtrV{obj: k.lim.obj, path: append(k.lim.path[:len(k.lim.path):len(k.lim.path)], PathEl{f: 1})}
		left, _ := st.load(np, types.Typ[types.Int64]).(*Poly)
		if left == nil {
			return nil, true
		}
		left = st.norm(left)
		if !st.assume(addScaled(left, -1, n)) {
			// nothing left, only possible for n <= 0
			return nil, false
		}
		st.store(np, addScaled(left, -1, n))
		rp := PtrV{obj: k.lim.obj, path: append(k.lim.path[:len(k.lim.path):len(k.lim.path)], PathEl{f: 0})}
		return x.consume(st, st.load(rp, nil), n, certain)
	case k.zlib != nil:
		// an unknown number of compressed bytes
		s := newSym("zbytes", iv{0, posInf})
		x.consume(st, k.zlib.val, symP(s), false)
		return nil, true
	}
	st.setGh("G", addScaled(st.G("G"), 1, symP(newSym("unknownread", iv{0, posInf}))))
	return nil, true
}

// taken tells the activations and the monitor about a read.
func (x *Interp) taken(st *State, pos, n *Poly) {
	pos, n = st.norm(pos), st.norm(n)
	if n == zeroP {
		return
	}
	for _, a := range x.stack {
		if a.g0 != nil && a.g0 == pos {
			if a.first == nil {
				a.first = map[int64]bool{}
			}
			if n.isConst() {
				a.first[n.c] = true
			} else {
				a.first[0] = true
			}
		}
	}
	if x.quiet == 0 && len(x.stack) > 0 {
		x.mon.take(x, x.stack[len(x.stack)-1], st, pos, n)
	}
}

var readSrcN int

// fill stores n bytes read from r (at stream position pos if known) into s.
func (x *Interp) fill(st *State, s *SliceV, off, n *Poly, pos *Poly) {
	if s == nil || s.base.obj == 0 {
		return
	}
	o := st.heap[s.base.obj]
	if o == nil {
		return
	}
	a, ok := st.loadPath(o.val, s.base.path).(*ArrV)
	if !ok {
		return
	}
	g := Seg{off: addScaled(s.off, 1, off), ln: n}
	if pos != nil {
		g.stream = pos
	} else {
		g.val = symP(newEx("data", iv{0, 255}))
	}
	if o.summary {
		b := *a
		b.base, b.segs = st.weakJoin(st.collapse(a), st.segAny(a.elem, g)), nil
		st.store(s.base, &b)
		return
	}
	st.store(s.base, st.writeSeg(a, g))
}

func (x *Interp) readFail(st *State, r Val, max *Poly) *Poly {
	s := newSym("short", iv{0, posInf})
	n := symP(s)
	if max != nil {
		st.assume(addScaled(max, -1, n))
	}
	x.consume(st, r, n, false)
	st.setGh("failed", oneP)
	return n
}

// readFull is io.ReadFull(r, s): the whole slice or an error.
func (x *Interp) readFull(ins ssa.CallInstruction, st *State, r Val, s *SliceV) []outcome {
	var out []outcome
	if s == nil {
		return x.unknownCall(ins, st, ins.Common().Signature(), nil, "ReadFull")
	}
	ln := st.norm(s.ln)
	ok := st.clone()
	pos, _ := x.consume(ok, r, ln, true)
	x.fill(ok, s, zeroP, ln, pos)
	out = append(out, outcome{ok, []Val{ln, nilErr()}})
	if st.decideEq(ln) != 1 {
		bad := st.clone()
		if bad.assume(addScaled(ln, -1, oneP)) {
			n := x.readFail(bad, r, addScaled(ln, -1, oneP))
			x.fill(bad, s, zeroP, ln, nil)
			out = append(out, outcome{bad, []Val{n, someErr("read")}})
		}
	}
	return out
}

func asSlice(v Val) *SliceV {
	s, _ := v.(*SliceV)
	return s
}

func structPoly(st *State, v Val, path ...int) *Poly {
	for _, f := range path {
		s, ok := v.(*StructV)
		if !ok || f >= len(s.f) {
			return nil
		}
		v = s.f[f]
	}
	p, _ := v.(*Poly)
	if p == nil {
		return nil
	}
	return st.norm(p)
}

// model describes a call; ok is false when there is no description.
func (x *Interp) model(a *act, ins ssa.CallInstruction, st *State, fn *ssa.Function, args []Val) ([]outcome, bool) {
	if x.p.inRepo(fn) {
		return nil, false
	}
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	r := func(v ...Val) ([]outcome, bool) { return []outcome{{st, v}}, true }
	intT := types.Typ[types.Int]
	poly := func(i int) *Poly {
		p, _ := args[i].(*Poly)
		if p == nil {
			p = st.freshVal(intT, "arg", true).(*Poly)
		}
		return st.norm(p)
	}
	switch name {
	case "io.ReadFull":
		return x.readFull(ins, st, args[0], asSlice(args[1])), true
	case "io.ReadAtLeast":
		s := asSlice(args[1])
		if s == nil {
			return nil, false
		}
		min := poly(2)
		if st.decideEq(addScaled(min, -1, s.ln)) == 1 {
			return x.readFull(ins, st, args[0], s), true
		}
		ok := st.clone()
		n := symP(newSym("atleast", iv{0, posInf}))
		ok.assume(addScaled(n, -1, min))
		ok.assume(addScaled(s.ln, -1, n))
		pos, _ := x.consume(ok, args[0], n, false)
		x.fill(ok, s, zeroP, n, pos)
		bad := st.clone()
		m := x.readFail(bad, args[0], s.ln)
		x.fill(bad, s, zeroP, s.ln, nil)
		return []outcome{{ok, []Val{n, nilErr()}}, {bad, []Val{m, someErr("read")}}}, true
	case "io.CopyN":
		n := poly(2)
		var out []outcome
		neg := st.clone()
		if neg.assume(addScaled(K(-1), -1, n)) {
			out = append(out, outcome{neg, []Val{zeroP, nilErr()}})
		}
		ok := st.clone()
		if ok.assume(n) {
			pos, _ := x.consume(ok, args[1], n, true)
			x.write(ok, args[0], n, pos)
			out = append(out, outcome{ok, []Val{n, nilErr()}})
		}
		bad := st.clone()
		if bad.assume(addScaled(n, -1, oneP)) {
			m := x.readFail(bad, args[1], addScaled(n, -1, oneP))
			x.write(bad, args[0], m, nil)
			// the source delivered less than asked for
			out = append(out, outcome{bad, []Val{m, &IfaceV{role: "error", id: "copyn"}}})
		}
		return out, true
	case "io.Copy", "io.ReadAll", "io/ioutil.ReadAll":
		src := args[len(args)-1]
		ok := st.clone()
		n := symP(newSym("rest", iv{0, posInf}))
		pos, good := x.consume(ok, src, n, false)
		if !good {
			pos = nil
		}
		bad := st.clone()
		x.readFail(bad, src, nil)
		if name == "io.Copy" {
			x.write(ok, args[0], n, pos)
			return []outcome{{ok, []Val{n, nilErr()}}, {bad, []Val{bad.freshVal(intT, "n", false), someErr("read")}}}, true
		}
		o := ok.alloc(types.NewSlice(types.Typ[types.Uint8]), "ReadAll")
		g := Seg{off: zeroP, ln: n, stream: pos}
		if pos == nil {
			g.val = symP(newEx("data", iv{0, 255}))
		}
		ok.setObj(o, &ArrV{n: n, elem: types.Typ[types.Uint8], segs: []Seg{g}})
		bt := types.NewSlice(types.Typ[types.Uint8])
		return []outcome{{ok, []Val{&SliceV{base: PtrV{obj: o}, off: zeroP, ln: n, cp: n}, nilErr()}}, {bad, []Val{bad.freshVal(bt, "part", true), someErr("read")}}}, true
	case "io.LimitReader":
		t := x.limitedReaderType()
		if t == nil {
			return nil, false
		}
		o := st.alloc(t, x.pos(ins))
		st.setObj(o, &StructV{f: []Val{args[0], args[1]}})
		return r(&IfaceV{dyn: types.NewPointer(t), val: PtrV{obj: o}})
	case "compress/zlib.NewReader", "compress/zlib.NewReaderDict":
		ok := st.clone()
		var out []outcome
		if _, good := x.consume(ok, args[0], symP(newSym("zhead", iv{0, posInf})), false); good {
			out = append(out, outcome{ok, []Val{&IfaceV{role: "zlib", val: args[0]}, nilErr()}})
		}
		bad := st.clone()
		x.readFail(bad, args[0], nil)
		out = append(out, outcome{bad, []Val{&IfaceV{isNil: true}, someErr("zlib")}})
		return out, true
	case "errors.New", "fmt.Errorf":
		return r(&IfaceV{role: "error", id: "new@" + x.pos(ins)})
	case "errors.Is", "errors.As":
		return r(st.freshVal(types.Typ[types.Bool], "errors.Is", false))
	case "image.Rect":
		x0, y0, x1, y1 := poly(0), poly(1), poly(2), poly(3)
		mm := func(a, b *Poly) (*Poly, *Poly) {
			return st.minmax(a, b, true), st.minmax(a, b, false)
		}
		ax, bx := mm(x0, x1)
		ay, by := mm(y0, y1)
		return r(&StructV{[]Val{&StructV{[]Val{ax, ay}}, &StructV{[]Val{bx, by}}}})
	case "image.Pt":
		return r(&StructV{[]Val{poly(0), poly(1)}})
	case "(image.Rectangle).Dx", "(image.Rectangle).Dy":
		i := 0
		if strings.HasSuffix(name, "y") {
			i = 1
		}
		lo, hi := structPoly(st, args[0], 0, i), structPoly(st, args[0], 1, i)
		if lo == nil || hi == nil {
			return r(st.freshVal(intT, name, true))
		}
		return r(st.norm(addScaled(hi, -1, lo)))
	case "(image.Rectangle).Empty":
		x0, y0, x1, y1 := structPoly(st, args[0], 0, 0), structPoly(st, args[0], 0, 1), structPoly(st, args[0], 1, 0), structPoly(st, args[0], 1, 1)
		if x0 == nil || y0 == nil || x1 == nil || y1 == nil {
			return r(st.freshVal(types.Typ[types.Bool], name, true))
		}
		return r(st.simpBool(&BoolV{op: bOr, a: &BoolV{op: bGe, p: addScaled(x0, -1, x1)}, b: &BoolV{op: bGe, p: addScaled(y0, -1, y1)}}))
	case "(image.Point).In":
		px, py := structPoly(st, args[0], 0), structPoly(st, args[0], 1)
		x0, y0, x1, y1 := structPoly(st, args[1], 0, 0), structPoly(st, args[1], 0, 1), structPoly(st, args[1], 1, 0), structPoly(st, args[1], 1, 1)
		if px == nil || py == nil || x0 == nil || y0 == nil || x1 == nil || y1 == nil {
			return r(st.freshVal(types.Typ[types.Bool], name, true))
		}
		ge := func(a, b *Poly) *BoolV { return &BoolV{op: bGe, p: addScaled(a, -1, b)} }
		gt := func(a, b *Poly) *BoolV { return &BoolV{op: bGe, p: addScaled(addScaled(a, -1, b), 1, K(-1))} }
		return r(st.simpBool(&BoolV{op: bAnd, a: &BoolV{op: bAnd, a: ge(px, x0), b: gt(x1, px)}, b: &BoolV{op: bAnd, a: ge(py, y0), b: gt(y1, py)}}))
	case "runtime.GOMAXPROCS", "runtime.NumCPU":
		n := newSym("cpus", iv{1, 1 << 20})
		return r(symP(n))
	case "math.Float32frombits", "math.Float64frombits":
		return r(FloatV{fkey(strings.TrimPrefix(name, "math."), poly(0).String())})
	case "unicode/utf16.Decode":
		s := asSlice(args[0])
		v := st.freshVal(fn.Signature.Results().At(0).Type(), "utf16", false).(*SliceV)
		if s != nil {
			st.assume(addScaled(s.ln, -1, v.ln))
		}
		v.nilAs = nil
		return r(v)
	case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader":
		x.notes[name]++
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*bytes.Buffer).Len":
		if p, ok := args[0].(PtrV); ok && p.obj != 0 && len(p.path) == 0 {
			arr, isA := st.heap[p.obj].val.(*ArrV)
			if !isA {
				arr = &ArrV{n: zeroP, elem: types.Typ[types.Uint8]}
				st.setObj(p.obj, arr)
			}
			if strings.HasSuffix(name, "Len") {
				return r(arr.n)
			}
			return r(&SliceV{base: p, off: zeroP, ln: arr.n, cp: arr.n, nilAs: &BoolV{op: bSym, s: newSym("buffer.nil", ivAll)}})
		}
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock",
		"(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.Gosched", "runtime.GC":
		return []outcome{{st, nil}}, true
	case "image.RegisterFormat":
		return []outcome{{st, nil}}, true
	case "strconv.Itoa", "fmt.Sprintf", "fmt.Sprint", "strings.ToLower", "strings.TrimSpace", "strings.TrimRight", "strings.TrimLeft", "strings.Replace", "strconv.FormatInt", "strconv.Quote":
		return r(st.freshVal(types.Typ[types.String], name, false))
	}
	if strings.HasPrefix(name, "(encoding/binary.bigEndian).") || strings.HasPrefix(name, "(encoding/binary.littleEndian).") {
		return x.binaryModel(a, ins, st, fn, name, args)
	}
	if strings.HasPrefix(name, "math.") || strings.HasPrefix(name, "math/bits.") || strings.HasPrefix(name, "(image/color.") || strings.HasPrefix(name, "image/color.") ||
		strings.HasPrefix(name, "(image.") || strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "bytes.Equal") || strings.HasPrefix(name, "unicode") {
		// no effect on the state
		var vs []Val
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			vs = append(vs, st.freshVal(fn.Signature.Results().At(i).Type(), name, false))
		}
		return r(vs...)
	}
	return nil, false
}

func (x *Interp) limitedReaderType() types.Type {
	for _, p := range x.p.SSA.AllPackages() {
		if p.Pkg.Path() == "io" {
			if o := p.Pkg.Scope().Lookup("LimitedReader"); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// write appends n bytes to a writer we know about.
func (x *Interp) write(st *State, w Val, n, pos *Poly) {
	i, ok := w.(*IfaceV)
	if !ok || i.dyn == nil || i.dyn.String() != "*bytes.Buffer" {
		return
	}
	p, ok := i.val.(PtrV)
	if !ok || p.obj == 0 || len(p.path) != 0 {
		return
	}
	arr, isA := st.heap[p.obj].val.(*ArrV)
	if !isA {
		arr = &ArrV{n: zeroP, elem: types.Typ[types.Uint8]}
	}
	g := Seg{off: arr.n, ln: n, stream: pos}
	if pos == nil {
		g.val = symP(newEx("data", iv{0, 255}))
	}
	nv := *st.writeSeg(arr, g)
	nv.n = addScaled(arr.n, 1, n)
	st.setObj(p.obj, &nv)
}

func (x *Interp) binaryModel(a *act, ins ssa.CallInstruction, st *State, fn *ssa.Function, name string, args []Val) ([]outcome, bool) {
	m := name[strings.LastIndex(name, ".")+1:]
	w := map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8}[m]
	s := asSlice(args[1])
	if w == 0 || s == nil || s.base.obj == 0 {
		return nil, false
	}
	if !x.bounds(ins, st, K(w-1), s.ln) {
		return nil, true
	}
	big := strings.Contains(name, "bigEndian")
	arr, ok := st.loadPath(st.heap[s.base.obj].val, s.base.path).(*ArrV)
	if !ok {
		return nil, false
	}
	if strings.HasPrefix(m, "Put") {
		v, _ := args[2].(*Poly)
		if v == nil {
			return nil, false
		}
		for i := int64(0); i < w; i++ {
			sh := 8 * (w - 1 - i)
			if !big {
				sh = 8 * i
			}
			var b *Poly
			if sh < 62 {
				b = st.mod(st.fdiv(v, int64(1)<<uint(sh)), 256)
			} else {
				b = symP(newSym("byte", iv{0, 255}))
			}
			st.store(PtrV{obj: s.base.obj, path: append(s.base.path[:len(s.base.path):len(s.base.path)], PathEl{idx: addScaled(s.off, 1, K(i))})}, b)
		}
		return []outcome{{st, nil}}, true
	}
	// the same bytes in one run of the stream
	if big && !st.heap[s.base.obj].summary {
		if pos := contentStream(st, &Content{segs: arr.segs, base: arr.base, off: s.off}, K(w)); pos != nil {
			return []outcome{{st, []Val{streamBE(pos, w)}}}, true
		}
	}
	sum := zeroP
	for i := int64(0); i < w; i++ {
		sh := 8 * (w - 1 - i)
		if !big {
			sh = 8 * i
		}
		b, _ := st.coerce(st.readElem(types.Typ[types.Uint8], arr.segs, arr.base, addScaled(s.off, 1, K(i))), types.Typ[types.Uint8]).(*Poly)
		if b == nil || sh > 55 {
			if w == 8 {
				return []outcome{{st, []Val{st.freshVal(types.Typ[types.Uint64], "u64", false)}}}, true
			}
		}
		sum = addScaled(sum, int64(1)<<uint(sh), b)
	}
	return []outcome{{st, []Val{sum}}}, true
}

// invokeModel describes method calls on values whose dynamic type is unknown.
func (x *Interp) invokeModel(a *act, ins ssa.CallInstruction, st *State, v *IfaceV, m *types.Func, args []Val) []outcome {
	intT := types.Typ[types.Int]
	switch {
	case v.role == "debug":
		o := outcome{st: st}
		for i := 0; i < m.Type().(*types.Signature).Results().Len(); i++ {
			o.vals = append(o.vals, st.freshVal(m.Type().(*types.Signature).Results().At(i).Type(), "debug", false))
		}
		return []outcome{o}
	case m.Name() == "Error" && (v.role == "error" || v.role == ""):
		return []outcome{{st, []Val{st.freshVal(types.Typ[types.String], "error text", false)}}}
	case v.role == "zlib" && m.Name() == "Close":
		bad := st.clone()
		bad.setGh("failed", oneP)
		return []outcome{{st, []Val{nilErr()}}, {bad, []Val{someErr("close")}}}
	case (v.role == "reader" || v.role == "zlib") && m.Name() == "Read":
		s := asSlice(args[0])
		if s == nil {
			break
		}
		var out []outcome
		for i := 0; i < 2; i++ {
			d := st.clone()
			n := symP(newSym("readn", iv{0, posInf}))
			d.assume(addScaled(s.ln, -1, n))
			pos, _ := x.consume(d, v, n, false)
			x.fill(d, s, zeroP, n, pos)
			if v.role == "reader" {
				// what a single call of Read leaves out
				d.setGh("part", addScaled(d.G("part"), 1, addScaled(s.ln, -1, n)))
			}
			if i == 0 {
				out = append(out, outcome{d, []Val{n, nilErr()}})
			} else {
				d.setGh("failed", oneP)
				out = append(out, outcome{d, []Val{n, someErr("read")}})
			}
		}
		return out
	case v.role == "reader" && m.Name() == "ReadByte":
		ok := st.clone()
		pos, _ := x.consume(ok, v, oneP, true)
		bad := st.clone()
		bad.setGh("failed", oneP)
		b := Val(symP(newSym("byte", iv{0, 255})))
		if pos != nil {
			b = streamBE(pos, 1)
		}
		return []outcome{{ok, []Val{b, nilErr()}}, {bad, []Val{zeroP, someErr("read")}}}
	case v.role == "reader" && m.Name() == "Discard":
		n, _ := args[0].(*Poly)
		if n == nil {
			break
		}
		n = st.norm(n)
		var out []outcome
		neg := st.clone()
		if neg.assume(addScaled(K(-1), -1, n)) {
			neg.setGh("failed", oneP)
			out = append(out, outcome{neg, []Val{zeroP, someErr("discard")}})
		}
		ok := st.clone()
		if ok.assume(n) {
			x.consume(ok, v, n, true)
			out = append(out, outcome{ok, []Val{n, nilErr()}})
		}
		bad := st.clone()
		if bad.assume(addScaled(n, -1, oneP)) {
			q := x.readFail(bad, v, addScaled(n, -1, oneP))
			out = append(out, outcome{bad, []Val{q, someErr("discard")}})
		}
		return out
	case v.role == "reader" && m.Name() == "Seek":
		off, _ := args[0].(*Poly)
		wh, _ := args[1].(*Poly)
		if off == nil || wh == nil {
			break
		}
		off, wh = st.norm(off), st.norm(wh)
		ok := st.clone()
		if wh.isConst() && wh.c == 1 {
			x.oblige("seek-backwards", ins, ok, ok.entails(off), polyFuzzy(off), "seeking may move backwards: offset "+off.String())
			if ok.decideEq(off) != 1 {
				ok.setGh("G", addScaled(ok.G("G"), 1, off))
				ok.setGh("unv", oneP)
			}
		} else {
			x.oblige("seek-absolute", ins, ok, false, false, "seeking relative to the start or the end")
			ok.setGh("G", addScaled(ok.G("G"), 1, symP(newSym("seek", ivAll))))
			ok.setGh("unv", oneP)
		}
		bad := st.clone()
		p := symP(newSym("pos", iv{0, posInf}))
		return []outcome{{ok, []Val{p, nilErr()}}, {bad, []Val{zeroP, someErr("seek")}}}
	}
	_ = intT
	if x.quiet == 0 {
		x.unmod["method "+m.FullName()+" of "+v.role]++
	}
	return x.unknownCall(ins, st, m.Type().(*types.Signature), args, "method "+m.Name())
}

// callback describes calls of function values given by the user.
func (x *Interp) callback(a *act, ins ssa.CallInstruction, st *State, role string, args []Val, sig *types.Signature) []outcome {
	if x.quiet == 0 {
		x.mon.dyncall(x, a, ins, st, role, args)
	}
	st.setGh("cb:"+role, addScaled(st.G("cb:"+role), 1, oneP))
	rt := sig.Results()
	o := outcome{st: st}
	errIdx := -1
	for i := 0; i < rt.Len(); i++ {
		v := st.freshVal(rt.At(i).Type(), "callback "+role, false)
		o.vals = append(o.vals, v)
		if types.Identical(rt.At(i).Type(), types.Universe.Lookup("error").Type()) {
			errIdx = i
		}
	}
	if errIdx < 0 {
		return []outcome{o}
	}
	ok := outcome{st: st.clone(), vals: append([]Val(nil), o.vals...)}
	ok.vals[errIdx] = nilErr()
	bad := outcome{st: st.clone(), vals: append([]Val(nil), o.vals...)}
	bad.vals[errIdx] = someErr("callback")
	bad.st.setGh("failed", oneP)
	return []outcome{ok, bad}
}

var _ = fmt.Sprint
