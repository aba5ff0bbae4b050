package main

import (
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15, C16, C17: arithmetic of colours and pixel kernels.

func init() {
	checks["C17"] = Check{
		run:   runC17,
		level: "other",
		expl:  "Gated value numbering of every pixel kernel, blend helper and colour computation (calls expanded): at every integer division and remainder whose divisor is not a constant, the conditions on the path and the defining inequalities of the values it is computed from exclude a zero divisor; every shift count is a constant, unsigned or shown not to be negative; every index into a table of fixed length is shown to lie in it. Decided by elimination over integer linear forms, for all sample values.",
		assum: []string{"colours obtained from other packages keep the contract of color.Color"},
	}
}

// numOp is one evaluated arithmetic operation.
type numOp struct {
	ins   ssa.Instruction
	a, b  V
	guard V
}

// numRun evaluates functions and collects their arithmetic.
type numRun struct {
	p       *Program
	r       *Report
	e       *VEval
	fns     []*ssa.Function
	seen    map[ssa.Instruction]bool
	order   []*ssa.Function
	entered map[*ssa.Function]bool
}

func newNumRun(p *Program, r *Report, rels ...string) *numRun {
	n := &numRun{p: p, r: r, e: newVEval(p), seen: map[ssa.Instruction]bool{}, entered: map[*ssa.Function]bool{}}
	for _, rel := range rels {
		for _, f := range p.pkgFuncs(rel) {
			if f.Blocks != nil && f.Name() != "init" {
				n.fns = append(n.fns, f)
			}
		}
	}
	return n
}

// roots are the functions that something outside of the static calls of the
// packages may call.
func (n *numRun) roots() []*ssa.Function {
	called := map[*ssa.Function]bool{}
	value := map[*ssa.Function]bool{}
	for _, f := range n.p.repoFuncs() {
		instrs(f, func(in ssa.Instruction) {
			var callee ssa.Value
			if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
				callee = c.Common().Value
				if g := c.Common().StaticCallee(); g != nil && g != f {
					called[g] = true
				}
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil || *op == callee {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok && !onlyCalled(in) {
					value[g] = true
				}
			}
		})
	}
	var out []*ssa.Function
	for _, f := range n.fns {
		o := f.Object()
		if !called[f] || value[f] || o != nil && o.Exported() {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// eval runs a function and hands every arithmetic operation to f.
func (n *numRun) eval(fn *ssa.Function, f func(op numOp)) V {
	e := n.e
	e.effs, e.nloop, e.nsym, e.gos, e.reads = nil, 0, 0, 0, nil
	e.ops, e.recOps = nil, true
	ret, _ := e.Run(fn, n.params(fn))
	ops := e.ops
	e.ops, e.recOps, e.effs = nil, false, nil
	for _, op := range ops {
		n.seen[op.ins] = true
		n.entered[op.ins.Parent()] = true
		f(op)
	}
	return ret
}

// onlyCalled: in makes a closure that is called and nothing else.
func onlyCalled(in ssa.Instruction) bool {
	m, ok := in.(*ssa.MakeClosure)
	if !ok || m.Referrers() == nil {
		return false
	}
	for _, u := range *m.Referrers() {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			if x.Call.Value != ssa.Value(m) {
				return false
			}
			for _, a := range x.Call.Args {
				if a == ssa.Value(m) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// captured: the value depends on something that a closure captured and that is
// not known.
func captured(v V) bool {
	return deepNode(v, func(x V) bool { return x.op == "undef" })
}

// params are arguments of a function's own: what is known of the types of
// values must not be mixed up.
func (n *numRun) params(fn *ssa.Function) []V {
	var args []V
	for i, p := range fn.Params {
		args = append(args, n.e.param(p.Name()+"@"+fn.String(), i, p.Type()))
	}
	return args
}

// every evaluates the roots, then what they did not reach.
func (n *numRun) every(want func(ssa.Instruction) bool, f func(root *ssa.Function, op numOp)) {
	done := map[*ssa.Function]bool{}
	roots := n.roots()
	isRoot := map[*ssa.Function]bool{}
	for _, fn := range roots {
		isRoot[fn] = true
	}
	n.e.inline = func(fn *ssa.Function, args []V) bool {
		return !isRoot[fn] && (fn.Pkg == nil || n.e.isRepo[fn.Pkg])
	}
	n.e.keepGo = true
	for _, fn := range roots {
		done[fn] = true
		n.order = append(n.order, fn)
		n.eval(fn, func(op numOp) { f(fn, op) })
	}
	for _, fn := range n.fns {
		miss := false
		instrs(fn, func(in ssa.Instruction) {
			if want(in) && !n.seen[in] {
				miss = true
			}
		})
		if miss && !done[fn] {
			n.order = append(n.order, fn)
			n.eval(fn, func(op numOp) { f(fn, op) })
		}
	}
}

// contract is the assumption about a colour that comes from elsewhere.
func (n *numRun) num() *num {
	m := n.contract()
	m.prods = false
	color := m.rel
	m.rel = func(v V) []nfact {
		if v.op == "call" && strings.HasPrefix(v.aux, "runtime.GOMAXPROCS") || strings.HasPrefix(v.aux, "runtime.NumCPU") {
			return []nfact{{m.lin(v).times(big.NewInt(-1)), big.NewInt(-1)}}
		}
		return color(v)
	}
	return m
}

func intDiv(in ssa.Instruction) *ssa.BinOp {
	b, ok := in.(*ssa.BinOp)
	if !ok || b.Op != token.QUO && b.Op != token.REM {
		return nil
	}
	if _, _, ok := typeBits(b.X.Type()); !ok {
		return nil
	}
	return b
}

func shiftOp(in ssa.Instruction) *ssa.BinOp {
	b, ok := in.(*ssa.BinOp)
	if !ok || b.Op != token.SHL && b.Op != token.SHR {
		return nil
	}
	return b
}

// tableIndex is an index into something of fixed length.
func tableIndex(in ssa.Instruction) (idx ssa.Value, n int64) {
	var x ssa.Value
	switch y := in.(type) {
	case *ssa.IndexAddr:
		x, idx = y.X, y.Index
	case *ssa.Index:
		x, idx = y.X, y.Index
	default:
		return nil, 0
	}
	t := x.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if a, ok := t.(*types.Array); ok {
		return idx, a.Len()
	}
	return nil, 0
}

func runC17(ctx *Ctx, r *Report) {
	p := ctx.prog("linux-amd64")
	n := newNumRun(p, r, blendPkg, "color")
	want := func(in ssa.Instruction) bool {
		if intDiv(in) != nil || shiftOp(in) != nil {
			return true
		}
		_, l := tableIndex(in)
		return l > 0
	}
	n.every(want, func(root *ssa.Function, op numOp) {
		if !want(op.ins) {
			return
		}
		fn := op.ins.Parent()
		r.fn(fnLabel(fn))
		at := p.rel(posOf(op.ins))
		in := ""
		if root != fn {
			in = " (called from " + fnLabel(root) + ")"
		}
		if b := intDiv(op.ins); b != nil {
			bits, uns, _ := typeBits(b.X.Type())
			if k, ok := op.b.intConst(); ok && k != 0 {
				r.ok("divisor")
				return
			}
			budget := 200
			m := n.num()
			m.light = true
			nz := func(m *num, vs []V) bool { return m.nonzero(vs[0], bits, uns) }
			ok := m.cases(op.guard, []V{op.b}, &budget, nz)
			if !ok {
				m.light = false
				budget = 200
				ok = m.cases(op.guard, []V{op.b}, &budget, nz)
			}
			if !ok && captured(op.b) {
				r.undecided("divisor", fnLabel(fn), at, "a captured value decides whether the divisor is zero%s", in)
				return
			}
			if !ok && nestedDiv(op.b) {
				r.undecided("divisor", fnLabel(fn), at, "products and quotients of samples decide whether the divisor is zero%s", in)
				return
			}
			r.check(ok, "divisor", fnLabel(fn), at, "the divisor may be zero%s: %s", in, short(op.b))
			return
		}
		if b := shiftOp(op.ins); b != nil {
			if isUnsigned(b.Y.Type()) {
				r.ok("shift count")
				return
			}
			budget := 200
			ok := n.num().cases(op.guard, []V{op.b}, &budget, func(m *num, vs []V) bool {
				lo, _, ok := m.bound(vs[0])
				return ok && lo.Sign() >= 0 && m.fits(vs[0], false)
			})
			if !ok && captured(op.b) {
				r.undecided("shift count", fnLabel(fn), at, "a captured value decides whether the count is negative%s", in)
				return
			}
			r.check(ok, "shift count", fnLabel(fn), at, "the shift count may be negative%s: %s", in, short(op.b))
			return
		}
		idx, l := tableIndex(op.ins)
		budget := 200
		ok := n.num().cases(op.guard, []V{op.b}, &budget, func(m *num, vs []V) bool {
			lo, hi, ok := m.bound(vs[0])
			return ok && lo.Sign() >= 0 && hi.IsInt64() && hi.Int64() < l && m.fits(vs[0], isUnsigned(idx.Type()))
		})
		if !ok && captured(op.b) {
			r.undecided("table index", fnLabel(fn), at, "a captured value decides where the index lies%s", in)
			return
		}
		r.check(ok, "table index", fnLabel(fn), at, "the index may lie outside of the %d elements%s: %s", l, in, short(op.b))
	})
	for _, fn := range n.fns {
		instrs(fn, func(in ssa.Instruction) {
			if want(in) && !n.seen[in] {
				if n.entered[fn] {
					r.ok("on no path")
					return
				}
				r.check(false, "reached", fnLabel(fn), p.rel(posOf(in)), "this operation was not reached by the analysis")
			}
		})
	}
	r.count("functions evaluated on their own", len(n.order))
	r.atLeast("divisor", 100)
}

func short(v V) string {
	s := v.String()
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return strings.ReplaceAll(s, "\n", " ")
}

// nestedDiv: the value depends on a quotient by something that is not constant.
func nestedDiv(v V) bool {
	return deepNode(v, func(x V) bool {
		if x.op != "div" && x.op != "rem" {
			return false
		}
		_, c := x.args[1].intConst()
		return !c
	})
}
