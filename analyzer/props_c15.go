package main

import (
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"go/token"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C15"] = Check{
		run:   runC15,
		level: "other",
		expl:  "Gated value numbering of every RGBA method of a colour type (calls expanded): on every path the four components are integers from 0 to 65535 and red, green and blue are at most alpha, shown by elimination over integer linear forms. Conversions from floating point must be of values that the conditions on the path bound from both sides and show to be numbers.",
		assum: []string{"math.Pow returns any floating point value"},
	}
	checks["C16"] = Check{
		run:   runC16,
		level: "other",
		expl:  "Gated value numbering of every colour model (calls expanded): with a colour of the model's own type the result is that value; with any other colour every result is of the model's own type; no divisor can be zero, no operation of at most 32 bits and no narrowing conversion loses the value, for all components that keep the contract of color.Color. Decided by elimination over integer linear forms.",
		assum: []string{"colours handed to a model keep the contract of color.Color"},
	}
}

// component is one of the results of a call.
func (e *VEval) component(v V, i int) V {
	switch v.op {
	case "tuple":
		if i < len(v.args) {
			return v.args[i]
		}
	case "ite":
		return e.ite(v.args[0], e.component(v.args[1], i), e.component(v.args[2], i))
	}
	return e.mk("ext", strconv.Itoa(i), v)
}

// colorOf tells which component of which colour a value is.
func colorOf(v V) (c V, i int, ok bool) {
	if v.op == "ext" && v.args[0].op == "call" && strings.HasSuffix(v.args[0].aux, "RGBA") {
		i, err := strconv.Atoi(v.aux)
		return v.args[0], i, err == nil && i < 4
	}
	return nil, 0, false
}

// contract assumes of colours what C15 says.
func (n *numRun) contract() *num {
	m := newNum(n.e)
	m.prods = true
	m.leaf = func(v V) (lo, hi *big.Int, ok bool) {
		if _, _, ok := colorOf(v); ok {
			return new(big.Int), big.NewInt(0xffff), true
		}
		return nil, nil, false
	}
	m.rank = func(v V) int {
		if c, i, ok := colorOf(v); ok && i == 3 {
			return c.id
		}
		return v.id
	}
	m.rel = func(v V) []nfact {
		c, i, ok := colorOf(v)
		if !ok || i == 3 {
			return nil
		}
		a := n.e.mk("ext", "3", c)
		return []nfact{{m.lin(v).plus(m.lin(a), big.NewInt(-1)), new(big.Int)}}
	}
	return m
}

// unknownPart: something that the value is computed from is not known.
func unknownPart(v V) bool {
	return deepNode(v, func(x V) bool {
		switch x.op {
		case "call":
			return !strings.HasSuffix(x.aux, "RGBA") && !isCallOf(x, "math.Pow") && !isCallOf(x, "math.Min") && !isCallOf(x, "math.Max") && !isCallOf(x, "math.IsNaN")
		case "fbin":
			// the smaller or larger of floating point values, not a number included
			return x.aux != "+" && x.aux != "-" && x.aux != "*" && x.aux != "/"
		case "undef", "phi", "final", "lookup", "unop", "trip", "havoc":
			return true
		}
		return false
	})
}

func runC15(ctx *Ctx, r *Report) {
	p := ctx.prog("linux-amd64")
	n := newNumRun(p, r, "color")
	n.e.inline = func(fn *ssa.Function, args []V) bool { return fn.Pkg == nil || n.e.isRepo[fn.Pkg] }
	for _, fn := range colorMethods(p) {
		name := fnLabel(fn)
		at := p.rel(fn.Pos())
		r.fn(name)
		n.e.effs, n.e.nloop, n.e.nsym, n.e.gos, n.e.reads = nil, 0, 0, 0, nil
		ret, _ := n.e.Run(fn, n.params(fn))
		var c [4]V
		for i := range c {
			c[i] = n.e.component(ret, i)
		}
		decide := func(rule string, vs []V, f func(m *num, vs []V) bool, msg string, what string) {
			budget := 400
			m := n.contract()
			if m.cases(n.e.boolean(true), vs, &budget, f) {
				r.ok(rule)
				return
			}
			for _, v := range vs {
				if unknownPart(v) {
					r.undecided(rule, name, at, "%s depends on something that is not known", what)
					return
				}
			}
			r.bad(rule, name, at, msg, what)
		}
		for i, what := range []string{"red", "green", "blue", "alpha"} {
			decide("component range", []V{c[i]}, func(m *num, vs []V) bool {
				l, h, ok := m.bound(vs[0])
				return ok && l.Sign() >= 0 && h.Cmp(big.NewInt(0xffff)) <= 0 && m.fits(vs[0], true)
			}, "%s may lie outside of 0 to 65535", what)
			if i < 3 {
				decide("premultiplied", []V{c[i], c[3]}, func(m *num, vs []V) bool {
					if !m.fits(vs[0], true) || !m.fits(vs[1], true) {
						return false
					}
					d := m.lin(vs[0]).plus(m.lin(vs[1]), big.NewInt(-1))
					m.define(d)
					u, ok := m.ub(d, 6)
					return ok && u.Sign() <= 0
				}, "%s may exceed alpha", what)
			}
		}
	}
	r.atLeast("component range", 8)
}

// colorMethods are the methods with which types are colours.
func colorMethods(p *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.repoFuncs() {
		if fn.Name() != "RGBA" || fn.Signature.Recv() == nil || fn.Synthetic != "" || fn.Blocks == nil {
			continue
		}
		s := fn.Signature
		if s.Params().Len() != 0 || s.Results().Len() != 4 {
			continue
		}
		ok := true
		for i := 0; i < 4; i++ {
			b, ok2 := s.Results().At(i).Type().Underlying().(*types.Basic)
			ok = ok && ok2 && b.Kind() == types.Uint32
		}
		if ok {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// model is a colour model: the conversion and the type it converts to.
type model struct {
	name string
	typ  types.Type
	fn   *ssa.Function
	pos  token.Pos
}

func colorModels(p *Program, r *Report, pkg *ssa.Package) []model {
	var out []model
	var names []string
	for name := range pkg.Members {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		g, ok := pkg.Members[name].(*ssa.Global)
		if !ok || !strings.HasSuffix(name, "Model") || g.Type().(*types.Pointer).Elem().String() != "image/color.Model" {
			continue
		}
		m := model{name: name, pos: g.Pos()}
		if o, ok := pkg.Pkg.Scope().Lookup(strings.TrimSuffix(name, "Model")).(*types.TypeName); ok {
			m.typ = o.Type()
		}
		instrs(pkg.Func("init"), func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				m.fn = modelFn(st.Val, 4)
			}
		})
		out = append(out, m)
	}
	return out
}

// modelFn is the conversion a model is made of.
func modelFn(v ssa.Value, d int) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		if len(x.Bindings) == 0 {
			return x.Fn.(*ssa.Function)
		}
	case *ssa.MakeInterface:
		return modelFn(x.X, d-1)
	case *ssa.ChangeType:
		return modelFn(x.X, d-1)
	case *ssa.ChangeInterface:
		return modelFn(x.X, d-1)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.String() == "image/color.ModelFunc" && len(x.Call.Args) == 1 {
			return modelFn(x.Call.Args[0], d-1)
		}
	}
	return nil
}

func runC16(ctx *Ctx, r *Report) {
	p := ctx.prog("linux-amd64")
	n := newNumRun(p, r, "color")
	e := n.e
	e.inline = func(fn *ssa.Function, args []V) bool { return fn.Pkg == nil || e.isRepo[fn.Pkg] }
	pkg := p.Pkgs["color"].SSA
	for _, m := range colorModels(p, r, pkg) {
		at := p.rel(m.pos)
		if m.fn == nil || m.typ == nil || len(m.fn.Params) != 1 {
			r.undecided("model", m.name, at, "the conversion or the type of the model is not known")
			continue
		}
		r.fn(fnLabel(m.fn))
		at = p.rel(m.fn.Pos())
		// its own type
		e.effs, e.nloop, e.nsym, e.gos, e.reads = nil, 0, 0, 0, nil
		own := e.mk("param", "own:"+m.name)
		in := e.iface(own, m.typ)
		ret, _ := e.Run(m.fn, []V{in})
		same := ret == in
		if !same && ret.op == "iface" && types.Identical(ret.ref.(types.Type), m.typ) {
			same = e.sameFields(ret.args[0], own, m.typ)
		}
		if !same && unknownPart(ret) {
			r.undecided("own type unchanged", m.name, at, "the result depends on something that is not known")
		} else {
			r.check(same, "own type unchanged", m.name, at, "a value that is of the type %s already may be changed: %s", m.typ.String(), short(ret))
		}
		// any other colour
		ret, ops := n.evalArgs(m.fn, n.params(m.fn))
		n.resultType(ret, e.boolean(true), m, at)
		for _, op := range ops {
			n.arith(op, m)
		}
	}
	r.atLeast("own type unchanged", 4)
	r.atLeast("no wrap", 10)
}

// sameFields: v is the value x, field by field.
func (e *VEval) sameFields(v, x V, t types.Type) bool {
	if v == x {
		return true
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || v.op != "struct" || len(v.args) != s.NumFields() {
		return false
	}
	for i, a := range v.args {
		if a.op != "fld" && a.op != "field" || a.aux != strconv.Itoa(i) || a.args[0] != x {
			return false
		}
	}
	return true
}

// resultType: whatever is returned is of the model's type.
func (n *numRun) resultType(v, guard V, m model, at string) {
	e, r := n.e, n.r
	switch v.op {
	case "ite":
		n.resultType(v.args[1], e.and(guard, v.args[0]), m, at)
		n.resultType(v.args[2], e.and(guard, e.not(v.args[0])), m, at)
		return
	case "iface":
		r.check(types.Identical(v.ref.(types.Type), m.typ), "result type", m.name, at, "the result may be a %s", v.ref.(types.Type).String())
		return
	case "param":
		// the argument itself, where it is known to be of this type
		ok := false
		for _, c := range conjuncts(guard) {
			if c.op == "typeis" && c.args[0] == v || strings.HasPrefix(c.op, "assert") && c.args[0] == v {
				ok = ok || c.ref != nil && types.Identical(c.ref.(types.Type), m.typ) || c.aux == m.typ.String()
			}
		}
		r.check(ok, "result type", m.name, at, "the colour may be returned without being of the type %s: %s", m.typ.String(), short(guard))
		return
	case "nil":
		r.bad("result type", m.name, at, "the result may be nil")
		return
	}
	r.undecided("result type", m.name, at, "the type of the result is not known: %s", short(v))
}

// arith decides one operation of a conversion.
func (n *numRun) arith(op numOp, md model) {
	e, r := n.e, n.r
	fn := op.ins.Parent()
	at := n.p.rel(posOf(op.ins))
	where := fnLabel(fn)
	decide := func(rule string, vs []V, f func(m *num, vs []V) bool, format string, a ...any) {
		budget := 300
		if n.contract().cases(op.guard, vs, &budget, f) {
			r.ok(rule)
			return
		}
		for _, v := range append(append([]V{}, vs...), op.guard) {
			if unknownPart(v) {
				r.undecided(rule, where, at, "depends on something that is not known: %s", short(v))
				return
			}
		}
		r.bad(rule, where, at, format, a...)
	}
	switch x := op.ins.(type) {
	case *ssa.BinOp:
		bits, uns, isInt := typeBits(x.X.Type())
		switch x.Op {
		case token.QUO, token.REM:
			if isInt {
				if k, ok := op.b.intConst(); ok && k != 0 {
					r.ok("divisor")
					return
				}
				decide("divisor", []V{op.b}, func(m *num, vs []V) bool { return m.nonzero(vs[0], bits, uns) }, "the divisor may be zero: %s", short(op.b))
			} else if isFloatT(x.X.Type()) {
				decide("divisor", []V{op.b}, func(m *num, vs []V) bool { return m.fnonzero(vs[0]) }, "the divisor may be zero: %s", short(op.b))
			}
		case token.ADD, token.SUB, token.MUL:
			if !isInt || bits > 32 {
				return
			}
			v := e.binop(x.Op, op.a, op.b, x.X.Type(), x.Y.Type())
			decide("no wrap", []V{op.a, op.b, v}, func(m *num, vs []V) bool {
				if !m.fits(vs[0], uns) || !m.fits(vs[1], uns) {
					return false
				}
				return m.fits(vs[2], uns)
			}, "the result may not fit %d bits: %s", bits, short(v))
		}
	case *ssa.Convert:
		fb, fu, ok1 := typeBits(x.X.Type())
		tb, tu, ok2 := typeBits(x.Type())
		if !ok1 || !ok2 || tb > fb || tb == fb && tu == fu {
			return
		}
		decide("no loss", []V{op.a}, func(m *num, vs []V) bool {
			l, h, ok := m.bound(vs[0])
			if !ok || !m.fits(vs[0], fu) {
				return false
			}
			if tu {
				return l.Sign() >= 0 && h.BitLen() <= tb
			}
			return l.BitLen() < tb && h.BitLen() < tb
		}, "the value may not fit the narrower type: %s", short(op.a))
	}
}

func (n *numRun) evalArgs(fn *ssa.Function, args []V) (V, []numOp) {
	e := n.e
	e.effs, e.nloop, e.nsym, e.gos, e.reads = nil, 0, 0, 0, nil
	e.ops, e.recOps = nil, true
	ret, _ := e.Run(fn, args)
	ops := e.ops
	e.ops, e.recOps, e.effs = nil, false, nil
	return ret, ops
}
