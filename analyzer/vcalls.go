package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calls of the value graph

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke:" + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}
	return "dyncall"
}

func (f *vframe) callee(c *ssa.CallCommon) (fn V, args []V) {
	if c.IsInvoke() {
		args = append(args, f.val(c.Value))
	} else {
		fn = f.val(c.Value)
	}
	for _, a := range c.Args {
		args = append(args, f.val(a))
	}
	return fn, args
}

func (f *vframe) docall(in ssa.Instruction, c *ssa.CallCommon) V {
	fn, args := f.callee(c)
	return f.invoke(in, c, fn, args, false)
}

// resolve a call target to a function with a body.
func (f *vframe) target(c *ssa.CallCommon, fn V, args []V) (*ssa.Function, []V, []V) {
	e := f.e
	if c.IsInvoke() {
		r := args[0]
		if r.op == "iface" {
			t := r.ref.(types.Type)
			if m := e.p.SSA.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil {
				return m, append([]V{r.args[0]}, args[1:]...), nil
			}
		}
		return nil, args, nil
	}
	switch fn.op {
	case "fn":
		return fn.ref.(*ssa.Function), args, nil
	case "closure":
		return fn.ref.(*ssa.Function), args, fn.args
	}
	return nil, args, nil
}

func (f *vframe) invoke(in ssa.Instruction, c *ssa.CallCommon, fn V, args []V, deferred bool) V {
	e := f.e
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return f.builtin(in, c, b.Name(), args)
	}
	if fn != nil && fn.op == "ite" {
		// a choice of functions: call opaque
		return f.opaque(in, c, "dyncall", fn, args)
	}
	t, targs, free := f.target(c, fn, args)
	if t == nil {
		if c.IsInvoke() {
			return f.opaque(in, c, "invoke:"+c.Method.Name(), nil, args)
		}
		return f.opaque(in, c, "dyncall", fn, args)
	}
	if r := f.model(t, targs); r != nil {
		return r
	}
	if !f.inlinable(t, targs) {
		v := f.opaque(in, c, t.String(), nil, targs)
		return v
	}
	r, m := e.call(f, t, targs, free)
	f.mem = m
	return r
}

func (f *vframe) inlinable(t *ssa.Function, args []V) bool {
	e := f.e
	if t.Blocks == nil || len(e.stack) > e.maxDep || e.steps > 3000000 {
		return false
	}
	for _, s := range e.stack {
		if s == t {
			return false
		}
	}
	if e.cf.info(t).irred {
		return false
	}
	if e.inline != nil {
		return e.inline(t, args)
	}
	for x := t; x != nil; x = x.Parent() {
		if x.Pkg != nil {
			return e.isRepo[x.Pkg]
		}
	}
	// wrappers and bound methods of repository types
	return t.Synthetic != ""
}

var pureCalls = map[string]bool{
	"runtime.GOMAXPROCS": true, "runtime.NumCPU": true, "math.Sqrt": true, "math.Pow": true, "math.Floor": true, "math.Ceil": true,
	"math.Float32frombits": true, "math.Float64frombits": true, "math.IsNaN": true, "math.Abs": true, "math.Max": true, "math.Min": true,
	"invoke:RGBA": true, "invoke:At": true, "invoke:Bounds": true, "invoke:ColorModel": true, "invoke:Err": true, "invoke:Done": true,
	"(context.Context).Err": true, "errors.New": true, "image.NewNRGBA": false,
}

func (f *vframe) opaque(in ssa.Instruction, c *ssa.CallCommon, name string, fn V, args []V) V {
	e := f.e
	kind := "call"
	if name == "dyncall" {
		kind = "dyncall"
	}
	var deref []V
	for _, a := range args {
		deref = append(deref, f.content(a, 0))
	}
	ef := e.eff(f, &VEff{kind: kind, name: name, args: args, deref: deref, addr: fn, pos: in.Pos(), ins: in})
	nargs := args
	if fn != nil {
		nargs = append([]V{fn}, args...)
	}
	var r V
	if pureCalls[name] {
		r = e.mk("call", name, args...)
	} else {
		r = e.mk("call", name+"@"+f.path+"/"+loopNames(f.loops)+"#"+strconv.Itoa(int(in.Pos())), nargs...)
		r.loop = f.curLoop()
		f.havoc(args)
	}
	if v, ok := in.(ssa.Value); ok {
		if tt, ok := v.Type().(*types.Tuple); ok {
			for i := 0; i < tt.Len(); i++ {
				e.typed(e.extract(r, i), tt.At(i).Type())
			}
		} else {
			e.typed(r, v.Type())
		}
	}
	ef.res = r
	return r
}

// havoc forgets what an unknown call can reach through its arguments.
func (f *vframe) havoc(args []V) {
	e := f.e
	for _, a := range args {
		for a.op == "iface" && len(a.args) == 1 {
			a = a.args[0]
		}
		if a.op == "alloc" || a.op == "fld" {
			root, _ := addrRoot(a)
			if cur := f.mem.m[root]; cur != nil {
				if t, ok := root.ref.(types.Type); ok && strings.HasPrefix(t.String(), "sync.") {
					continue
				}
				n := e.sym("havoc", f.curLoop())
				f.mem.m[root] = n
			}
		}
		if a.op == "slice" {
			for k := range f.mem.m {
				if k.op == "elem" && k.args[0] == a.args[0] {
					delete(f.mem.m, k)
				}
			}
		}
	}
}

// content of a pointer argument (or of the pointer in an interface).
func (f *vframe) content(a V, d int) V {
	for a.op == "iface" && len(a.args) == 1 {
		a = a.args[0]
	}
	if a.op == "struct" {
		return a
	}
	if a.op == "alloc" || a.op == "fld" {
		root, path := addrRoot(a)
		v := f.mem.m[root]
		if v == nil {
			v = f.e.deref(root)
		}
		for _, i := range path {
			v = f.e.field(v, i, 0)
		}
		return v
	}
	return nil
}

func (f *vframe) builtin(in ssa.Instruction, c *ssa.CallCommon, name string, args []V) V {
	e := f.e
	switch name {
	case "len", "cap":
		t := c.Args[0].Type().Underlying()
		if _, ok := t.(*types.Slice); ok {
			ps := e.sliceParts(args[0])
			if name == "len" {
				return ps[2]
			}
			return ps[3]
		}
		v := e.mk(name, "", args[0])
		e.leafT[v] = types.Typ[types.Int]
		return v
	case "min", "max":
		bt := c.Args[0].Type()
		if bits, uns, ok := typeBits(bt); ok {
			s := "i"
			if uns {
				s = "u"
			}
			r := args[0]
			for _, a := range args[1:] {
				l := e.lt(s, r, a, bits)
				if name == "min" {
					r = e.ite(l, r, a)
				} else {
					r = e.ite(l, a, r)
				}
			}
			return r
		}
		return e.mk(name, "f", args...)
	case "append":
		r := e.mk("append", f.path+"/"+loopNames(f.loops)+"#"+strconv.Itoa(int(in.Pos())), args...)
		r.loop = f.curLoop()
		e.eff(f, &VEff{kind: "append", args: args, pos: in.Pos(), ins: in, res: r})
		return r
	case "copy":
		e.eff(f, &VEff{kind: "copy", args: args, pos: in.Pos(), ins: in})
		if args[0].op == "slice" {
			for k := range f.mem.m {
				if k.op == "elem" && k.args[0] == args[0].args[0] {
					delete(f.mem.m, k)
				}
			}
		}
		return e.sym("copied", f.curLoop())
	case "clear":
		e.eff(f, &VEff{kind: "clear", args: args, pos: in.Pos(), ins: in})
		for k := range f.mem.m {
			if k.op == "elem" && (k.args[0] == args[0] || args[0].op == "slice" && k.args[0] == args[0].args[0]) {
				delete(f.mem.m, k)
			}
		}
	case "close":
		e.eff(f, &VEff{kind: "close", args: args, pos: in.Pos(), ins: in})
	case "delete":
		e.eff(f, &VEff{kind: "delete", args: args, pos: in.Pos(), ins: in})
	case "recover":
		return e.mk("nil", "")
	case "ssa:wrapnilchk":
		return args[0]
	}
	return e.mk("nil", "")
}

func (f *vframe) goCall(x *ssa.Go) {
	e := f.e
	c := x.Common()
	fn, args := f.callee(c)
	t, targs, free := f.target(c, fn, args)
	e.gos++
	id := e.gos
	ef := e.eff(f, &VEff{kind: "go", name: calleeName(c), args: targs, addr: fn, pos: x.Pos(), ins: x})
	ef.res = e.int(int64(id), 64)
	if t == nil {
		return
	}
	ef.name = t.String()
	if e.keepGo || !f.inlinable(t, targs) {
		var deref []V
		for _, a := range targs {
			deref = append(deref, f.content(a, 0))
		}
		ef.deref = deref
		return
	}
	g := &vframe{e: e, fn: f.fn, guard: f.guard, loops: f.loops, goid: id, path: f.path + "/go", mem: f.mem.clone()}
	e.call(g, t, targs, free)
}

// small geometry of the standard library

func (e *VEval) pt(x, y V) V { return e.mk("struct", "", x, y) }
func (e *VEval) rect(a, b V) V {
	return e.mk("struct", "", a, b)
}

func (f *vframe) model(t *ssa.Function, a []V) V {
	if t.Blocks != nil || t.Pkg == nil {
		return nil
	}
	e := f.e
	fl := func(v V, is ...int) V {
		for _, i := range is {
			v = e.field(v, i, 2)
		}
		return v
	}
	sub := func(x, y V) V { return e.sub(x, y, 64) }
	add := func(x, y V) V { return e.add(x, y, 64) }
	ptAdd := func(p, q V) V { return e.pt(add(fl(p, 0), fl(q, 0)), add(fl(p, 1), fl(q, 1))) }
	ptSub := func(p, q V) V { return e.pt(sub(fl(p, 0), fl(q, 0)), sub(fl(p, 1), fl(q, 1))) }
	le := func(x, y V) V { return e.not(e.lt("i", y, x, 64)) }
	empty := func(r V) V {
		return e.or(le(fl(r, 1, 0), fl(r, 0, 0)), le(fl(r, 1, 1), fl(r, 0, 1)))
	}
	_ = empty
	switch t.String() {
	case "image.Pt":
		return e.pt(a[0], a[1])
	case "image.Rect":
		x := e.lt("i", a[2], a[0], 64)
		y := e.lt("i", a[3], a[1], 64)
		return e.rect(e.pt(e.ite(x, a[2], a[0]), e.ite(y, a[3], a[1])), e.pt(e.ite(x, a[0], a[2]), e.ite(y, a[1], a[3])))
	case "(image.Point).Add":
		return ptAdd(a[0], a[1])
	case "(image.Point).Sub":
		return ptSub(a[0], a[1])
	case "(image.Rectangle).Dx":
		return sub(fl(a[0], 1, 0), fl(a[0], 0, 0))
	case "(image.Rectangle).Dy":
		return sub(fl(a[0], 1, 1), fl(a[0], 0, 1))
	case "(image.Rectangle).Size":
		return ptSub(fl(a[0], 1), fl(a[0], 0))
	case "(image.Rectangle).Add":
		return e.rect(ptAdd(fl(a[0], 0), a[1]), ptAdd(fl(a[0], 1), a[1]))
	case "(image.Rectangle).Sub":
		return e.rect(ptSub(fl(a[0], 0), a[1]), ptSub(fl(a[0], 1), a[1]))
	case "(image.Rectangle).Empty":
		return empty(a[0])
	case "(image.Rectangle).Intersect", "(image.Rectangle).Union":
		r := e.mk("call", t.String(), a...)
		return e.rect(e.pt(fl(r, 0, 0), fl(r, 0, 1)), e.pt(fl(r, 1, 0), fl(r, 1, 1)))
	case "(image.Rectangle).Overlaps", "(image.Rectangle).In", "(image.Rectangle).Eq":
		r := e.mk("call", t.String(), a...)
		return r
	case "(*image.NRGBA).PixOffset", "(*image.RGBA).PixOffset", "(*image.Alpha).PixOffset", "(*image.NRGBA64).PixOffset", "(*image.RGBA64).PixOffset", "(*image.Gray).PixOffset", "(*image.Alpha16).PixOffset", "(*image.Gray16).PixOffset", "(*image.CMYK).PixOffset":
		w := map[string]int64{"(*image.NRGBA).PixOffset": 4, "(*image.RGBA).PixOffset": 4, "(*image.CMYK).PixOffset": 4, "(*image.NRGBA64).PixOffset": 8, "(*image.RGBA64).PixOffset": 8, "(*image.Gray16).PixOffset": 2, "(*image.Alpha16).PixOffset": 2}[t.String()]
		if w == 0 {
			w = 1
		}
		img := f.load(a[0], t.Signature.Recv().Type().(*types.Pointer).Elem())
		stride, r := e.field(img, 1, 3), e.field(img, 2, 3)
		return add(e.mul(sub(a[2], fl(r, 0, 1)), stride, 64), e.scale(sub(a[1], fl(r, 0, 0)), w, 64))
	case "(*image.NRGBA).Bounds", "(*image.RGBA).Bounds", "(*image.Alpha).Bounds":
		img := f.load(a[0], t.Signature.Recv().Type().(*types.Pointer).Elem())
		return e.field(img, 2, 3)
	}
	return nil
}

var _ = token.NoPos
