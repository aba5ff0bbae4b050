package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// VEval builds the value graph of a function: values become nodes over the
// parameters and the memory at entry, joins become gated choices, loops are
// reduced to iteration counters with closed forms for their linear variables,
// and everything with an outside effect is listed with the condition, loops
// and goroutine it happens under.
type VEval struct {
	*VG
	p      *Program
	cf     *Interp
	effs   []*VEff
	nloop  int
	nsym   int
	gos    int
	maxDep int
	inline func(fn *ssa.Function, args []V) bool // nil: repo functions
	isRepo map[*ssa.Package]bool
	globs  map[*ssa.Global]V
	gstore map[*ssa.Global][]*ssa.Store
	quiet  int
	stack  []*ssa.Function
	keepGo bool // leave the bodies of goroutines alone
	steps  int
	reads  []VRead
	recOps bool // keep every integer operation, conversion and index
	ops    []numOp
}

// VRead is a load from memory.
type VRead struct {
	root  V
	goid  int
	seq   int // number of effects before
	pos   token.Pos
	fn    *ssa.Function
	loops []*VLoop
}

// VEff is one effect.
// VEff is one effect.
type VEff struct {
	kind  string // store call go send recv close return panic defer select
	name  string
	args  []V
	deref []V // content of pointer arguments at the time
	addr  V
	val   V
	guard V
	loops []*VLoop
	goid  int
	pos   token.Pos
	fn    *ssa.Function
	ins   ssa.Instruction
	seq   int
	typ   types.Type
	res   V
}

// VPhi is a value carried around a loop.
type VPhi struct{ sym, init, next V }

// VLoop is one loop instance.
type VLoop struct {
	name   string
	iter   V
	trip   V // number of iterations when left at the header
	known  bool
	cont   V // condition for another iteration, in iter
	single bool
	back   V      // condition for reaching the next iteration, in iter
	head   V      // condition of staying, if the header decides
	phis   []VPhi // values carried around that are not affine
	up     *VLoop
	fn     *ssa.Function
	pos    token.Pos
}

func newVEval(p *Program) *VEval {
	e := &VEval{VG: newVG(), p: p, cf: &Interp{fi: map[*ssa.Function]*cfInfo{}}, maxDep: 24, globs: map[*ssa.Global]V{}, gstore: map[*ssa.Global][]*ssa.Store{}, isRepo: map[*ssa.Package]bool{}}
	e.rng = func(v V, signed bool) (lo, hi *big.Int, ok bool) { return e.rangeOf(v, 5) }
	for _, rp := range p.Pkgs {
		e.isRepo[rp.SSA] = true
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						e.gstore[g] = append(e.gstore[g], st)
					}
				}
			}
		}
	}
	return e
}

type vmem struct {
	m   map[V]V
	off map[V][]V // stored element offsets by base
}

func (m *vmem) clone() *vmem {
	n := &vmem{m: map[V]V{}, off: map[V][]V{}}
	for k, v := range m.m {
		n.m[k] = v
	}
	for k, v := range m.off {
		n.off[k] = v
	}
	return n
}

type vframe struct {
	e      *VEval
	fn     *ssa.Function
	info   *cfInfo
	env    map[ssa.Value]V
	guard  V
	loops  []*VLoop
	goid   int
	path   string
	defers []*vdefer
	mem    *vmem // memory at the current point
}

type vdefer struct {
	call  *ssa.CallCommon
	fnv   V
	args  []V
	guard V
	loops []*VLoop
	in    ssa.Instruction
}

type vout struct {
	from, to *ssa.BasicBlock // to nil: return
	sel      V
	mem      *vmem
	env      map[*ssa.Phi]V // operands of phis in to, evaluated
	ret      V
	guard    V
}

type vnodeR struct {
	b    *ssa.BasicBlock
	outs []*vout
}

type vregion struct {
	l     *loopInfo
	nodes map[*ssa.BasicBlock]*vnodeR
	entry *ssa.BasicBlock
	ord   map[*ssa.BasicBlock]int
	g     *VEval
}

func (r *vregion) gate(target *ssa.BasicBlock, absent V, leaf func(*vout) V) V {
	memo := map[*ssa.BasicBlock]V{}
	done := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) V
	walk = func(b *ssa.BasicBlock) V {
		if done[b] {
			return memo[b]
		}
		done[b] = true
		n := r.nodes[b]
		if n == nil {
			memo[b] = absent
			return absent
		}
		var v V = absent
		for i := len(n.outs) - 1; i >= 0; i-- {
			o := n.outs[i]
			var w V
			switch {
			case o.to == target && (o.to != r.entry || o.to != nil):
				w = leaf(o)
			case o.to == nil || o.to == r.entry || r.nodes[o.to] == nil:
				w = absent
			default:
				w = walk(o.to)
			}
			if i == len(n.outs)-1 {
				v = w
			} else {
				v = r.g.ite(o.sel, w, v)
			}
		}
		memo[b] = v
		return v
	}
	return walk(r.entry)
}

func (r *vregion) reach(target *ssa.BasicBlock) V {
	g := r.g
	return r.gate(target, g.boolean(false), func(*vout) V { return g.boolean(true) })
}

func (r *vregion) outsTo(target *ssa.BasicBlock) []*vout {
	var out []*vout
	for _, n := range r.nodes {
		for _, o := range n.outs {
			if o.to == target {
				out = append(out, o)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return r.ord[out[i].from] < r.ord[out[j].from] })
	return out
}

func (r *vregion) joinMem(target *ssa.BasicBlock, outs []*vout) *vmem {
	if len(outs) == 0 {
		return &vmem{m: map[V]V{}, off: map[V][]V{}}
	}
	if len(outs) == 1 {
		return outs[0].mem.clone()
	}
	res := outs[0].mem.clone()
	keys := map[V]bool{}
	for _, o := range outs {
		for k := range o.mem.m {
			keys[k] = true
		}
		for b, offs := range o.mem.off {
			for _, of := range offs {
				dup := false
				for _, x := range res.off[b] {
					dup = dup || x == of
				}
				if !dup {
					res.off[b] = append(append([]V{}, res.off[b]...), of)
				}
			}
		}
	}
	for k := range keys {
		same := true
		for _, o := range outs {
			if o.mem.m[k] != outs[0].mem.m[k] {
				same = false
			}
		}
		if same {
			res.m[k] = outs[0].mem.m[k]
			continue
		}
		k := k
		res.m[k] = r.gate(target, nil, func(o *vout) V {
			if v := o.mem.m[k]; v != nil {
				return v
			}
			return r.g.deref(k)
		})
	}
	return res
}

func (g *VG) deref(root V) V { return g.mk("deref", "", root) }

func typeBits(t types.Type) (bits int, unsigned bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false, true
	case types.Int16:
		return 16, false, true
	case types.Int32:
		return 32, false, true
	case types.Uint8:
		return 8, true, true
	case types.Uint16:
		return 16, true, true
	case types.Uint32:
		return 32, true, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, true, true
	}
	return 64, false, true
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (e *VEval) constant(c *ssa.Const) V {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	t := c.Type()
	if bits, _, ok := typeBits(t); ok {
		if x := constant.ToInt(c.Value); x.Kind() == constant.Int {
			if k, ok := constant.Int64Val(x); ok {
				return e.int(k, bits)
			}
			if k, ok := constant.Uint64Val(x); ok {
				return e.int(int64(k), bits)
			}
		}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return e.boolean(constant.BoolVal(c.Value))
	case constant.String:
		return e.mk("str", strconv.Quote(constant.StringVal(c.Value)))
	}
	if isFloatT(t) {
		return e.float(c.Value)
	}
	return e.mk("const", c.Value.ExactString()+":"+t.String())
}

func (e *VEval) float(v constant.Value) V {
	f := constant.ToFloat(v)
	r, _ := constant.Float64Val(f)
	return e.mk("float", strconv.FormatFloat(r, 'g', -1, 64))
}

func (e *VEval) zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			b, _, _ := typeBits(t)
			return e.int(0, b)
		case u.Info()&types.IsBoolean != 0:
			return e.boolean(false)
		case u.Info()&types.IsString != 0:
			return e.mk("str", `""`)
		case u.Info()&types.IsFloat != 0:
			return e.mk("float", "0")
		}
		return e.mk("nil", "")
	case *types.Struct:
		args := make([]V, u.NumFields())
		for i := range args {
			args[i] = e.zero(u.Field(i).Type())
		}
		return e.mk("struct", "", args...)
	case *types.Array:
		if u.Len() <= 16 {
			args := make([]V, u.Len())
			for i := range args {
				args[i] = e.zero(u.Elem())
			}
			return e.mk("struct", "", args...)
		}
		return e.mk("zero", t.String())
	}
	return e.mk("nil", "")
}

func (e *VEval) sym(kind string, l *VLoop) V {
	e.nsym++
	v := e.mk("sym", fmt.Sprintf("%s%d", kind, e.nsym))
	v.loop = l
	return v
}

// variant reports whether v changes from one iteration of l to the next.
func variant(v V, l *VLoop) bool {
	return anyNode(v, func(n V) bool {
		for x := n.loop; x != nil; x = x.up {
			if x == l {
				return true
			}
		}
		return false
	})
}

func (f *vframe) curLoop() *VLoop {
	if len(f.loops) == 0 {
		return nil
	}
	return f.loops[len(f.loops)-1]
}

func (e *VEval) global(x *ssa.Global) V {
	if v, ok := e.globs[x]; ok {
		return v
	}
	v := e.mk("global", x.RelString(nil))
	v.ref = x
	return v
}

// globalValue resolves a package-level variable that is set once, at initialisation.
func (e *VEval) globalValue(x *ssa.Global) V {
	st := e.gstore[x]
	if len(st) != 1 || x.Pkg == nil || st[0].Parent() != x.Pkg.Func("init") {
		return nil
	}
	var val func(v ssa.Value, d int) V
	val = func(v ssa.Value, d int) V {
		if d > 4 {
			return nil
		}
		switch y := v.(type) {
		case *ssa.Function:
			return e.fnNode(y)
		case *ssa.Const:
			if _, ok := y.Type().Underlying().(*types.Struct); ok || y.Value != nil {
				return e.constant(y)
			}
		case *ssa.ChangeType:
			return val(y.X, d+1)
		case *ssa.MakeInterface:
			if in := val(y.X, d+1); in != nil {
				return e.iface(in, y.X.Type())
			}
		case *ssa.MakeClosure:
			if len(y.Bindings) == 0 {
				return e.fnNode(y.Fn.(*ssa.Function))
			}
		case *ssa.UnOp:
			if g, ok := y.X.(*ssa.Global); ok && y.Op == token.MUL {
				return e.globalValue(g)
			}
		}
		return nil
	}
	return val(st[0].Val, 0)
}

func (e *VEval) fnNode(f *ssa.Function) V {
	v := e.mk("fn", f.String())
	v.ref = f
	return v
}

func (e *VEval) iface(x V, t types.Type) V {
	v := e.mk("iface", t.String(), x)
	v.ref = t
	return v
}

func (f *vframe) val(v ssa.Value) V {
	e := f.e
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return e.global(x)
	case *ssa.Function:
		return e.fnNode(x)
	case *ssa.Builtin:
		return e.mk("builtin", x.Name())
	}
	if r := f.env[v]; r != nil {
		return r
	}
	r := e.mk("undef", f.path+"/"+v.Name())
	f.env[v] = r
	return r
}

// root splits an address into its object and the path of fields in it.
func addrRoot(a V) (V, []int) {
	var path []int
	for a.op == "fld" {
		i, _ := strconv.Atoi(a.aux)
		path = append([]int{i}, path...)
		a = a.args[0]
	}
	return a, path
}

func (f *vframe) fldAddr(a V, i int, t types.Type) V {
	if a.op == "ite" {
		return f.e.ite(a.args[0], f.fldAddr(a.args[1], i, t), f.fldAddr(a.args[2], i, t))
	}
	v := f.e.mk("fld", strconv.Itoa(i), a)
	return v
}

func (f *vframe) elemAddr(base, off V) V {
	e := f.e
	if k, ok := off.intConst(); ok && base.op == "alloc" {
		if t, ok := base.ref.(types.Type); ok {
			if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 16 && k >= 0 && k < at.Len() {
				return e.mk("fld", strconv.FormatInt(k, 10), base)
			}
		}
	}
	return e.mk("elem", "", base, off)
}

func (f *vframe) load(a V, t types.Type) V {
	e := f.e
	if a.op == "ite" {
		return e.ite(a.args[0], f.load(a.args[1], t), f.load(a.args[2], t))
	}
	root, path := addrRoot(a)
	if root.op == "global" && len(path) == 0 {
		if v := e.globalValue(root.ref.(*ssa.Global)); v != nil {
			return v
		}
	}
	v := f.mem.m[root]
	if e.quiet == 0 {
		e.reads = append(e.reads, VRead{root, f.goid, len(e.effs), token.NoPos, f.fn, f.loops})
	}
	if v == nil {
		v = e.deref(root)
		if root.op == "elem" {
			// stores to other elements of unknown distance
			h := ""
			for _, o := range f.mem.off[root.args[0]] {
				if d := e.sub(o, root.args[1], 64); d.op != "int" {
					h += fmt.Sprint(o.id) + ","
				}
			}
			if h != "" {
				v = e.mk("deref", "after "+h, root)
			}
		}
	}
	for _, i := range path {
		v = e.field(v, i, 0)
	}
	if _, _, ok := typeBits(t); ok && v.op != "int" && v.op != "poly" && e.leafT[v] == nil {
		e.leafT[v] = t
	}
	return v
}

func (e *VEval) setPath(v V, t types.Type, path []int, val V) V {
	if len(path) == 0 {
		return val
	}
	n := 0
	var sub types.Type
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = u.NumFields()
		if path[0] < n {
			sub = u.Field(path[0]).Type()
		}
	case *types.Array:
		n = int(u.Len())
		sub = u.Elem()
	}
	if n == 0 || n > 64 || sub == nil {
		return e.mk("upd", fmt.Sprint(path), v, val)
	}
	args := make([]V, n)
	for i := range args {
		args[i] = e.field(v, i, n)
	}
	args[path[0]] = e.setPath(args[path[0]], sub, path[1:], val)
	return e.mk("struct", "", args...)
}

func (f *vframe) store(a, val V, st types.Type) {
	e := f.e
	if a.op == "ite" {
		// weak: both sides conditionally
		old1 := f.load(a.args[1], st)
		old2 := f.load(a.args[2], st)
		f.store(a.args[1], e.ite(a.args[0], val, old1), st)
		f.store(a.args[2], e.ite(a.args[0], old2, val), st)
		return
	}
	root, path := addrRoot(a)
	if root.op == "elem" {
		b, off := root.args[0], root.args[1]
		for k := range f.mem.m {
			if k.op == "elem" && k.args[0] == b && k != root {
				if d := e.sub(k.args[1], off, 64); d.op != "int" {
					delete(f.mem.m, k)
				}
			}
		}
		dup := false
		for _, x := range f.mem.off[b] {
			dup = dup || x == off
		}
		if !dup {
			f.mem.off[b] = append(append([]V{}, f.mem.off[b]...), off)
		}
	}
	if len(path) == 0 {
		f.mem.m[root] = val
		return
	}
	cur := f.mem.m[root]
	if cur == nil {
		cur = e.deref(root)
	}
	rt := rootType(root, a)
	if rt == nil {
		f.mem.m[root] = e.mk("upd", fmt.Sprint(path), cur, val)
		return
	}
	f.mem.m[root] = e.setPath(cur, rt, path, val)
}

// rootType is recorded on address nodes as they are formed.
func rootType(root, a V) types.Type {
	if t, ok := root.ref.(types.Type); ok {
		return t
	}
	if g, ok := root.ref.(*ssa.Global); ok {
		return g.Type().(*types.Pointer).Elem()
	}
	return nil
}

func (e *VEval) eff(f *vframe, x *VEff) *VEff {
	x.guard = f.guard
	x.loops = append([]*VLoop{}, f.loops...)
	x.goid = f.goid
	if x.fn == nil {
		x.fn = f.fn
	}
	x.seq = len(e.effs)
	e.effs = append(e.effs, x)
	return x
}

// Run evaluates a function from its parameters.
func (e *VEval) Run(fn *ssa.Function, args []V) (ret V, mem *vmem) {
	if args == nil {
		for i, p := range fn.Params {
			args = append(args, e.param(p.Name(), i, p.Type()))
		}
	}
	f := &vframe{e: e, fn: fn, guard: e.boolean(true), mem: &vmem{m: map[V]V{}, off: map[V][]V{}}}
	return e.call(f, fn, args, nil)
}

func (e *VEval) param(name string, i int, t types.Type) V {
	v := e.mk("param", name)
	e.typed(v, t)
	return v
}

func (e *VEval) typed(v V, t types.Type) {
	if _, _, ok := typeBits(t); ok && e.leafT[v] == nil && v.op != "int" && v.op != "poly" {
		e.leafT[v] = t
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && v.ref == nil {
		v.ref = p.Elem()
	}
}

// call inlines fn into the caller's frame.
func (e *VEval) call(c *vframe, fn *ssa.Function, args []V, free []V) (V, *vmem) {
	f := &vframe{e: e, fn: fn, info: e.cf.info(fn), env: map[ssa.Value]V{}, guard: c.guard, loops: c.loops, goid: c.goid, path: c.path + "/" + fn.Name(), mem: c.mem.clone()}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
			e.typed(args[i], p.Type())
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			f.env[v] = free[i]
		}
	}
	e.stack = append(e.stack, fn)
	reg := f.region(nil, fn.Blocks[0])
	e.stack = e.stack[:len(e.stack)-1]
	outs := reg.outsTo(nil)
	var ret V
	if len(outs) > 0 {
		ret = reg.gateRet(func(o *vout) V { return o.ret })
		c.mem = reg.joinRetMem(outs)
	}
	if ret == nil {
		ret = e.mk("noreturn", "")
	}
	return ret, c.mem
}

func (r *vregion) gateRet(leaf func(*vout) V) V {
	memo := map[*ssa.BasicBlock]V{}
	done := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) V
	walk = func(b *ssa.BasicBlock) V {
		if done[b] {
			return memo[b]
		}
		done[b] = true
		n := r.nodes[b]
		if n == nil {
			return nil
		}
		var v V
		for i := len(n.outs) - 1; i >= 0; i-- {
			o := n.outs[i]
			var w V
			if o.to == nil {
				w = leaf(o)
			} else if o.to != r.entry {
				w = walk(o.to)
			}
			if i == len(n.outs)-1 {
				v = w
			} else {
				v = r.g.ite(o.sel, w, v)
			}
		}
		memo[b] = v
		return v
	}
	return walk(r.entry)
}

func (r *vregion) joinRetMem(outs []*vout) *vmem {
	if len(outs) == 1 {
		return outs[0].mem.clone()
	}
	res := outs[0].mem.clone()
	keys := map[V]bool{}
	for _, o := range outs {
		for k := range o.mem.m {
			keys[k] = true
		}
		for b, offs := range o.mem.off {
			if len(offs) > len(res.off[b]) {
				res.off[b] = offs
			}
		}
	}
	for k := range keys {
		same := true
		for _, o := range outs {
			same = same && o.mem.m[k] == outs[0].mem.m[k]
		}
		if same {
			continue
		}
		k := k
		res.m[k] = r.gateRet(func(o *vout) V {
			if v := o.mem.m[k]; v != nil {
				return v
			}
			return r.g.deref(k)
		})
	}
	return res
}

// region evaluates the blocks of a loop (or of the whole function) once, in order.
func (f *vframe) region(l *loopInfo, entry *ssa.BasicBlock) *vregion {
	e := f.e
	r := &vregion{l: l, nodes: map[*ssa.BasicBlock]*vnodeR{}, entry: entry, ord: f.info.ord, g: e}
	base := f.guard
	mem0 := f.mem
	for _, b := range f.info.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		in := f.info.inner[b]
		if in != l {
			// only headers of direct inner loops are nodes of this region
			h := in
			for h != nil && h.up != l {
				h = h.up
			}
			if h == nil || h.header != b {
				continue
			}
			in = h
		}
		if b == entry {
			f.guard = base
			f.mem = mem0
		} else {
			outs := r.outsTo(b)
			if len(outs) == 0 {
				continue
			}
			g := r.reach(b)
			if g.isFalse() {
				continue
			}
			f.guard = e.and(base, g)
			f.mem = r.joinMem(b, outs)
			for _, ins := range b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if in != l {
					// initial value of a loop variable
					f.env[phi] = r.gate(b, nil, func(o *vout) V { return o.env[phi] })
				} else {
					f.env[phi] = r.gate(b, nil, func(o *vout) V { return o.env[phi] })
				}
			}
		}
		if in != l {
			r.nodes[b] = &vnodeR{b: b, outs: f.loop(in)}
			continue
		}
		r.nodes[b] = &vnodeR{b: b, outs: f.block(b, b == entry && l != nil)}
	}
	f.guard = base
	return r
}

func (f *vframe) edgeEnv(from, to *ssa.BasicBlock) map[*ssa.Phi]V {
	m := map[*ssa.Phi]V{}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		m[phi] = f.val(phi.Edges[pi])
	}
	return m
}

func (f *vframe) block(b *ssa.BasicBlock, skipPhi bool) []*vout {
	e := f.e
	for _, ins := range b.Instrs {
		e.steps++
		switch x := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := f.val(x.Cond)
			var outs []*vout
			if !c.isFalse() {
				outs = append(outs, &vout{from: b, to: b.Succs[0], sel: c, mem: f.mem, env: f.edgeEnv2(b, 0), guard: e.and(f.guard, c)})
			}
			if !c.isTrue() {
				outs = append(outs, &vout{from: b, to: b.Succs[1], sel: e.not(c), mem: f.mem, env: f.edgeEnv2(b, 1), guard: e.and(f.guard, e.not(c))})
			}
			return outs
		case *ssa.Jump:
			return []*vout{{from: b, to: b.Succs[0], sel: e.boolean(true), mem: f.mem, env: f.edgeEnv2(b, 0), guard: f.guard}}
		case *ssa.Return:
			var rs []V
			for _, r := range x.Results {
				rs = append(rs, f.val(r))
			}
			var ret V
			if len(rs) == 1 {
				ret = rs[0]
			} else {
				ret = e.mk("tuple", "", rs...)
			}
			e.eff(f, &VEff{kind: "return", args: rs, pos: x.Pos(), ins: x, val: ret})
			return []*vout{{from: b, to: nil, sel: e.boolean(true), mem: f.mem, ret: ret, guard: f.guard}}
		case *ssa.Panic:
			e.eff(f, &VEff{kind: "panic", args: []V{f.val(x.X)}, pos: x.Pos(), ins: x})
			return nil
		default:
			f.instr(ins)
		}
	}
	return nil
}

func (f *vframe) edgeEnv2(b *ssa.BasicBlock, k int) map[*ssa.Phi]V {
	to := b.Succs[k]
	// the k-th successor edge may be one of several from the same block
	seen := 0
	for i := 0; i < k; i++ {
		if b.Succs[i] == to {
			seen++
		}
	}
	m := map[*ssa.Phi]V{}
	pi := -1
	for i, p := range to.Preds {
		if p == b {
			if seen == 0 {
				pi = i
				break
			}
			seen--
		}
	}
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		m[phi] = f.val(phi.Edges[pi])
	}
	return m
}

// closed forms of loop variables
type vform struct {
	init V
	kind int // 0 unknown, 1 linear/known
	expr func(it V) V
}

func (e *VEval) classify(init, s, next V, l *VLoop, bits int) func(it V) V {
	if next == nil || next == s {
		return func(V) V { return init }
	}
	if next.op == "slice" {
		ps := e.sliceParts(s)
		pn := e.sliceParts(next)
		pi := e.sliceParts(init)
		if pn[0] != s {
			return nil
		}
		var d [4]V
		for i := 1; i < 4; i++ {
			d[i] = e.sub(pn[i], ps[i], 64)
			if variant(d[i], l) {
				return nil
			}
		}
		return func(it V) V {
			var r [4]V
			r[0] = pi[0]
			for i := 1; i < 4; i++ {
				r[i] = e.add(pi[i], e.mul(d[i], it, 64), 64)
			}
			return e.mkSlice(r[0], r[1], r[2], r[3])
		}
	}
	if next.op == "struct" {
		var fs []func(V) V
		for i, a := range next.args {
			fn := e.classify(e.field(init, i, len(next.args)), e.field(s, i, len(next.args)), a, l, 64)
			if fn == nil {
				return nil
			}
			fs = append(fs, fn)
		}
		return func(it V) V {
			args := make([]V, len(fs))
			for i := range fs {
				args[i] = fs[i](it)
			}
			return e.mk("struct", "", args...)
		}
	}
	if next.op == "poly" && bits > 0 {
		d := e.sub(next, s, bits)
		if !variant(d, l) {
			return func(it V) V { return e.add(init, e.mul(d, it, bits), bits) }
		}
	}
	return nil
}

func (f *vframe) loop(l *loopInfo) []*vout {
	e := f.e
	h := l.header
	lp := &VLoop{fn: f.fn, pos: loopPos(l), up: f.curLoop()}
	e.nloop++
	lp.name = fmt.Sprintf("n%d", e.nloop)
	lp.iter = e.mk("iter", lp.name)
	lp.iter.loop = lp
	e.leafT[lp.iter] = types.Typ[types.Int]
	nl, ns, ng, nr, ne, no := e.nloop, e.nsym, e.gos, len(e.reads), len(e.effs), len(e.ops)
	var phis []*ssa.Phi
	for _, ins := range h.Instrs {
		if phi, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, phi)
		}
	}
	init := map[*ssa.Phi]V{}
	form := map[*ssa.Phi]func(V) V{}
	psym := map[*ssa.Phi]V{}
	for i, p := range phis {
		init[p] = f.env[p]
		psym[p] = e.mk("phi", fmt.Sprintf("%s.%d", lp.name, i))
		psym[p].loop = lp
		e.typed(psym[p], p.Type())
	}
	mem0 := f.mem
	minit := map[V]V{}
	mform := map[V]func(V) V{}
	msym := map[V]V{}
	loops0, guard0, defers0 := f.loops, f.guard, len(f.defers)
	var reg *vregion
	run := func(it V, quiet bool) {
		e.nloop, e.nsym, e.gos = nl, ns, ng
		e.effs, e.reads, e.ops = e.effs[:ne], e.reads[:nr], e.ops[:no]
		f.defers = f.defers[:defers0]
		for _, p := range phis {
			if form[p] != nil {
				f.env[p] = form[p](it)
			} else {
				f.env[p] = psym[p]
			}
		}
		f.mem = mem0.clone()
		for k := range msym {
			if mform[k] != nil {
				f.mem.m[k] = mform[k](it)
			} else {
				f.mem.m[k] = msym[k]
			}
		}
		f.loops = append(append([]*VLoop{}, loops0...), lp)
		f.guard = guard0
		if quiet {
			e.quiet++
		}
		reg = f.region(l, h)
		if quiet {
			e.quiet--
		}
		f.loops, f.guard = loops0, guard0
	}
	for pass := 0; pass < 4; pass++ {
		run(lp.iter, true)
		backs := reg.outsTo(h)
		changed := false
		if len(backs) > 0 {
			// memory changed in the body
			bm := reg.joinMem(h, backs)
			for k, v := range bm.m {
				old := mem0.m[k]
				if old == nil {
					old = e.deref(k)
				}
				if msym[k] == nil && v != old && !variant(k, lp) {
					minit[k] = old
					msym[k] = e.mk("phi", fmt.Sprintf("%s.m%d", lp.name, len(msym)))
					msym[k].loop = lp
					if t := e.leafT[e.deref(k)]; t != nil {
						e.leafT[msym[k]] = t
					}
					changed = true
				}
			}
			if !changed {
				for k, s := range msym {
					if mform[k] == nil {
						if fn := e.classify(minit[k], s, bm.m[k], lp, 64); fn != nil {
							mform[k] = fn
							changed = true
						}
					}
				}
				for _, p := range phis {
					if form[p] == nil {
						next := reg.gate(h, nil, func(o *vout) V { return o.env[p] })
						bits, _, _ := typeBits(p.Type())
						if fn := e.classify(init[p], psym[p], next, lp, bits); fn != nil {
							form[p] = fn
							changed = true
						}
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	run(lp.iter, false)
	if backs := reg.outsTo(h); len(backs) > 0 {
		lp.back = reg.reach(h)
		for _, p := range phis {
			if form[p] == nil {
				lp.phis = append(lp.phis, VPhi{psym[p], init[p], reg.gate(h, nil, func(o *vout) V { return o.env[p] })})
			}
		}
	}
	// exits
	var exits []*vout
	for _, b := range f.info.rpo {
		n := reg.nodes[b]
		if n == nil {
			continue
		}
		for _, o := range n.outs {
			if o.to == h {
				continue
			}
			if o.to == nil || !l.blocks[o.to] {
				exits = append(exits, o)
			}
		}
	}
	for _, o := range exits {
		if o.from == h && f.info.inner[h] == l && o.sel != nil {
			lp.head = e.not(o.sel)
		}
	}
	lp.trip = e.mk("trip", lp.name)
	lp.trip.loop = lp.up
	e.leafT[lp.trip] = types.Typ[types.Int]
	if len(exits) == 1 && exits[0].from == h && f.info.inner[h] == l {
		lp.single = true
		lp.cont = e.not(exits[0].sel)
		if t := e.solveTrip(lp.cont, lp.iter); t != nil && !variant(t, lp) {
			lp.trip, lp.known = t, true
			if k, ok := t.intConst(); ok && k > 0 && k <= 8 {
				// a few iterations: one after the other
				restore := func() {
					e.nloop, e.nsym, e.gos = nl, ns, ng
					e.effs, e.reads, e.ops = e.effs[:ne], e.reads[:nr], e.ops[:no]
					f.defers = f.defers[:defers0]
				}
				restore()
				cur, mem := map[*ssa.Phi]V{}, mem0
				for _, p := range phis {
					cur[p] = init[p]
				}
				done := true
				for i := int64(0); i < k; i++ {
					for _, p := range phis {
						f.env[p] = cur[p]
					}
					f.mem, f.loops, f.guard = mem.clone(), loops0, guard0
					reg = f.region(l, h)
					f.loops, f.guard = loops0, guard0
					backs := reg.outsTo(h)
					if len(backs) == 0 {
						done = false
						break
					}
					next := map[*ssa.Phi]V{}
					for _, p := range phis {
						next[p] = reg.gate(h, nil, func(o *vout) V { return o.env[p] })
					}
					cur, mem = next, reg.joinMem(h, backs)
				}
				if done {
					for _, p := range phis {
						f.env[p] = cur[p]
					}
					f.mem = mem.clone()
					for _, o := range f.block(h, true) {
						if o.to == exits[0].to && !o.sel.isFalse() {
							o.sel = e.boolean(true)
							o.mem = f.mem
							return []*vout{o}
						}
					}
				}
				restore()
				run(lp.iter, false)
			}
		}
		// values after the loop
		se, sr := len(e.effs), len(e.reads)
		for i, p := range phis {
			if form[p] != nil {
				f.env[p] = form[p](lp.trip)
			} else {
				f.env[p] = e.mk("final", fmt.Sprintf("%s.%d", lp.name, i))
				f.env[p].loop = lp.up
				e.typed(f.env[p], p.Type())
			}
		}
		mm := exits[0].mem.clone()
		i := 0
		keys := make([]V, 0, len(msym))
		for k := range msym {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(a, b int) bool { return keys[a].id < keys[b].id })
		for _, k := range keys {
			i++
			if mform[k] != nil {
				mm.m[k] = mform[k](lp.trip)
			} else {
				fin := e.mk("final", fmt.Sprintf("%s.m%d", lp.name, i))
				fin.loop = lp.up
				mm.m[k] = fin
			}
		}
		f.mem = mm
		e.quiet++
		outs := f.block(h, true)
		e.quiet--
		e.effs, e.reads = e.effs[:se], e.reads[:sr]
		to := exits[0].to
		for _, o := range outs {
			if o.to == to {
				o.sel = e.boolean(true)
				o.mem = f.mem
				return []*vout{o}
			}
		}
		// the condition folded to the other side: use the recorded exit
		exits[0].mem = mm
		exits[0].env = f.edgeEnv(h, to)
		exits[0].sel = e.boolean(true)
		return exits
	}
	for i, o := range exits {
		if len(exits) > 1 && i < len(exits)-1 {
			s := e.mk("exitsel", fmt.Sprintf("%s.%d", lp.name, i))
			s.loop = lp.up
			o.sel = s
		} else {
			o.sel = e.boolean(true)
		}
	}
	return exits
}

// solveTrip finds the number of iterations from the condition for another one.
func (e *VEval) solveTrip(cont, it V) V {
	p := cont
	neg := false
	if p.op == "not" {
		neg = true
		p = p.args[0]
	}
	var q, r V
	var ok bool
	switch p.op {
	case "neg": // p < 0
		x := p.args[0]
		if neg {
			x = e.sub(e.scale(x, -1, 64), e.int(1, 64), 64)
		}
		q, r, ok = e.coefOf(x, it)
	case "eq0":
		if !neg {
			return nil
		}
		q, r, ok = e.coefOf(p.args[0], it)
	default:
		return nil
	}
	if !ok {
		return nil
	}
	k, isk := q.intConst()
	if !isk || k == 0 {
		return nil
	}
	var out []vterm
	for _, t := range r.terms() {
		if t.c%k != 0 {
			return nil
		}
		out = append(out, vterm{-t.c / k, t.m})
	}
	if p.op == "neg" && k < 0 {
		return nil
	}
	return e.fromTerms(out, 64)
}

func (f *vframe) set(v ssa.Value, x V) {
	f.e.typed(x, v.Type())
	f.env[v] = x
}

func (f *vframe) instr(ins ssa.Instruction) {
	e := f.e
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.BinOp:
		if e.recOps && e.quiet == 0 {
			e.ops = append(e.ops, numOp{x, f.val(x.X), f.val(x.Y), f.guard})
		}
		f.set(x, f.binop(x))
	case *ssa.UnOp:
		f.unop(x)
	case *ssa.Convert:
		if e.recOps && e.quiet == 0 {
			e.ops = append(e.ops, numOp{x, f.val(x.X), nil, f.guard})
		}
		f.set(x, e.convert(f.val(x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeType:
		f.set(x, f.val(x.X))
	case *ssa.ChangeInterface:
		f.set(x, f.val(x.X))
	case *ssa.MakeInterface:
		f.set(x, e.iface(f.val(x.X), x.X.Type()))
	case *ssa.Alloc:
		a := e.mk("alloc", f.path+"/"+x.Name()+"/"+loopNames(f.loops))
		a.ref = x.Type().(*types.Pointer).Elem()
		a.loop = f.curLoop()
		f.mem.m[a] = e.zero(x.Type().(*types.Pointer).Elem())
		f.set(x, a)
	case *ssa.FieldAddr:
		f.set(x, f.fldAddr(f.val(x.X), x.Field, x.X.Type()))
	case *ssa.Field:
		f.set(x, e.field(f.val(x.X), x.Field, 0))
	case *ssa.IndexAddr:
		base, off := f.val(x.X), f.val(x.Index)
		if e.recOps && e.quiet == 0 {
			e.ops = append(e.ops, numOp{x, base, off, f.guard})
		}
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			ps := e.sliceParts(base)
			base, off = ps[0], e.add(ps[1], off, 64)
		}
		f.set(x, f.elemAddr(base, off))
	case *ssa.Index:
		v := f.val(x.X)
		if e.recOps && e.quiet == 0 {
			e.ops = append(e.ops, numOp{x, v, f.val(x.Index), f.guard})
		}
		if k, ok := f.val(x.Index).intConst(); ok {
			f.set(x, e.field(v, int(k), 0))
		} else {
			f.set(x, e.elem(v, f.val(x.Index)))
		}
	case *ssa.Store:
		a, v := f.val(x.Addr), f.val(x.Val)
		t := x.Val.Type()
		f.store(a, v, t)
		e.eff(f, &VEff{kind: "store", addr: a, val: v, pos: x.Pos(), ins: x, typ: t})
	case *ssa.Slice:
		f.slice(x)
	case *ssa.MakeSlice:
		b := e.mk("mkslice", f.path+"/"+x.Name()+"/"+loopNames(f.loops))
		b.loop = f.curLoop()
		f.set(x, e.mkSlice(b, e.int(0, 64), f.val(x.Len), f.val(x.Cap)))
	case *ssa.MakeMap, *ssa.MakeChan:
		v := ins.(ssa.Value)
		m := e.mk("make", f.path+"/"+v.Name()+"/"+loopNames(f.loops))
		m.ref = v.Type()
		if c, ok := ins.(*ssa.MakeChan); ok {
			m = e.mk("mkchan", f.path+"/"+v.Name()+"/"+loopNames(f.loops), f.val(c.Size))
		}
		m.loop = f.curLoop()
		f.env[v] = m
	case *ssa.MakeClosure:
		var bs []V
		for _, b := range x.Bindings {
			bs = append(bs, f.val(b))
		}
		c := e.mk("closure", x.Fn.String(), bs...)
		c.ref = x.Fn
		f.env[x] = c
	case *ssa.Extract:
		f.set(x, e.extract(f.val(x.Tuple), x.Index))
	case *ssa.TypeAssert:
		f.typeAssert(x)
	case *ssa.Lookup:
		v := e.mk("lookup", "", f.val(x.X), f.val(x.Index))
		e.eff(f, &VEff{kind: "lookup", args: []V{f.val(x.X), f.val(x.Index)}, pos: x.Pos(), ins: x})
		f.env[x] = v
	case *ssa.MapUpdate:
		e.eff(f, &VEff{kind: "mapset", args: []V{f.val(x.Map), f.val(x.Key), f.val(x.Value)}, pos: x.Pos(), ins: x})
	case *ssa.Range:
		f.env[x] = e.mk("range", "", f.val(x.X))
	case *ssa.Next:
		f.env[x] = e.mk("next", loopNames(f.loops), f.val(x.Iter))
		f.env[x].loop = f.curLoop()
	case *ssa.Call:
		f.env[x] = f.docall(x, x.Common())
		e.typed(f.env[x], x.Type())
	case *ssa.Go:
		f.goCall(x)
	case *ssa.Defer:
		d := &vdefer{call: x.Common(), guard: f.guard, loops: f.loops, in: x}
		d.fnv, d.args = f.callee(x.Common())
		f.defers = append(f.defers, d)
		e.eff(f, &VEff{kind: "defer", name: calleeName(x.Common()), args: d.args, pos: x.Pos(), ins: x})
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.defers[i]
			g := f.guard
			f.guard = e.and(g, d.guard)
			f.invoke(d.in, d.call, d.fnv, d.args, true)
			f.guard = g
		}
	case *ssa.Send:
		e.eff(f, &VEff{kind: "send", args: []V{f.val(x.Chan), f.val(x.X)}, pos: x.Pos(), ins: x})
	case *ssa.Select:
		var as []V
		for _, s := range x.States {
			as = append(as, f.val(s.Chan))
		}
		e.eff(f, &VEff{kind: "select", args: as, pos: x.Pos(), ins: x})
		f.env[x] = e.sym("select", f.curLoop())
	default:
		if v, ok := ins.(ssa.Value); ok {
			f.env[v] = e.mk("opaque", f.path+"/"+v.Name())
			f.env[v].loop = f.curLoop()
		}
	}
}

func loopNames(ls []*VLoop) string {
	var s []string
	for _, l := range ls {
		s = append(s, l.name)
	}
	return strings.Join(s, ".")
}

func (f *vframe) slice(x *ssa.Slice) {
	e := f.e
	v := f.val(x.X)
	var ps [4]V
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		n := e.int(at.Len(), 64)
		ps = [4]V{v, e.int(0, 64), n, n}
	} else if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
		f.env[x] = e.mk("substr", "", v, f.valOr(x.Low), f.valOr(x.High))
		return
	} else {
		ps = e.sliceParts(v)
	}
	lo := e.int(0, 64)
	if x.Low != nil {
		lo = f.val(x.Low)
	}
	hi := ps[2]
	if x.High != nil {
		hi = f.val(x.High)
	}
	mx := ps[3]
	if x.Max != nil {
		mx = f.val(x.Max)
	}
	f.env[x] = e.mkSlice(ps[0], e.add(ps[1], lo, 64), e.sub(hi, lo, 64), e.sub(mx, lo, 64))
}

func (f *vframe) valOr(v ssa.Value) V {
	if v == nil {
		return nil
	}
	return f.val(v)
}

func (f *vframe) unop(x *ssa.UnOp) {
	e := f.e
	v := f.val(x.X)
	switch x.Op {
	case token.MUL:
		f.set(x, f.load(v, x.Type()))
	case token.SUB:
		if b, _, ok := typeBits(x.Type()); ok {
			f.set(x, e.scale(v, -1, b))
		} else {
			f.set(x, e.mk("fneg", "", v))
		}
	case token.XOR:
		b, _, _ := typeBits(x.Type())
		f.set(x, e.sub(e.scale(v, -1, b), e.int(1, b), b))
	case token.NOT:
		f.set(x, e.not(v))
	case token.ARROW:
		r := e.sym("recv", f.curLoop())
		e.eff(f, &VEff{kind: "recv", args: []V{v}, pos: x.Pos(), ins: x, res: r})
		f.env[x] = r
	}
}

func (f *vframe) typeAssert(x *ssa.TypeAssert) {
	e := f.e
	v := f.val(x.X)
	var val, ok V
	if v.op == "iface" {
		t := v.ref.(types.Type)
		if types.IsInterface(x.AssertedType) {
			it := x.AssertedType.Underlying().(*types.Interface)
			ok = e.boolean(types.Implements(t, it))
			val = v
		} else {
			same := types.Identical(t, x.AssertedType)
			ok = e.boolean(same)
			val = v.args[0]
			if !same {
				val = e.zero(x.AssertedType)
			}
		}
	} else if v.op == "nil" {
		ok = e.boolean(false)
		val = e.zero(x.AssertedType)
	} else {
		if types.IsInterface(x.AssertedType) {
			val = v
		} else {
			val = e.mk("as", x.AssertedType.String(), v)
			e.typed(val, x.AssertedType)
		}
		ok = e.mk("typeis", x.AssertedType.String(), v)
		ok.ref = x.AssertedType
	}
	if x.CommaOk {
		f.env[x] = e.mk("tuple", "", val, ok)
		return
	}
	if !ok.isTrue() {
		e.eff(f, &VEff{kind: "assert", args: []V{v}, pos: x.Pos(), ins: x})
	}
	f.env[x] = val
}

func commutative(op token.Token) bool {
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		return true
	}
	return false
}

func (f *vframe) binop(x *ssa.BinOp) V {
	return f.e.binop(x.Op, f.val(x.X), f.val(x.Y), x.X.Type(), x.Y.Type())
}

func (e *VEval) binop(op token.Token, a, b V, t, ty types.Type) V {
	bits, uns, isInt := typeBits(t)
	if isInt {
		switch op {
		case token.ADD:
			return e.add(a, b, bits)
		case token.SUB:
			return e.sub(a, b, bits)
		case token.MUL:
			return e.mul(a, b, bits)
		case token.EQL:
			return e.eqInt(a, b, bits)
		case token.NEQ:
			return e.not(e.eqInt(a, b, bits))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			s := "i"
			if uns {
				s = "u"
			}
			switch op {
			case token.LSS:
				return e.lt(s, a, b, bits)
			case token.GTR:
				return e.lt(s, b, a, bits)
			case token.LEQ:
				return e.not(e.lt(s, b, a, bits))
			}
			return e.not(e.lt(s, a, b, bits))
		case token.SHL:
			if k, ok := b.intConst(); ok && k >= 0 && k < 63 {
				return e.mul(a, e.int(1<<uint(k), bits), bits)
			}
		case token.QUO, token.SHR, token.REM, token.AND:
			kb, okb := b.intConst()
			ka, oka := a.intConst()
			if op == token.SHR && okb {
				if kb == 0 {
					return a
				}
				if uns && kb < 63 {
					op, kb = token.QUO, 1<<uint(kb)
					b = e.int(kb, 64)
				} else if kb < 63 {
					op, kb = token.QUO, 1<<uint(kb)
					b = e.int(kb, 64)
					return e.div("floor", a, b, bits, t)
				}
			}
			if op == token.REM && uns && okb && kb > 0 && kb&(kb-1) == 0 {
				op, kb = token.AND, kb-1
				b = e.int(kb, bits)
			}
			if op == token.AND && oka && !okb {
				a, b, kb, okb = b, a, ka, true
			}
			if op == token.QUO {
				if okb && kb == 1 {
					return a
				}
				if oka && okb && kb != 0 {
					if uns {
						return e.int(int64(uint64(ka)/uint64(kb)), bits)
					}
					return e.int(ka/kb, bits)
				}
				s := "trunc"
				if uns {
					s = "u"
				}
				return e.div(s, a, b, bits, t)
			}
			if op == token.AND && okb && oka {
				return e.int(ka&kb, bits)
			}
			if op == token.REM {
				s := "trunc"
				if uns {
					s = "u"
				}
				if oka && okb && kb != 0 && !uns {
					return e.int(ka%kb, bits)
				}
				v := e.mk("rem", s+strconv.Itoa(bits), a, b)
				e.leafT[v] = t
				return v
			}
		case token.AND_NOT:
			if kb, ok := b.intConst(); ok {
				return e.binop(token.AND, a, e.int(^kb, bits), t, ty)
			}
		}
		if commutative(op) {
			if a.id > b.id {
				a, b = b, a
			}
			v := e.mk("comm", op.String()+strconv.Itoa(bits), a, b)
			e.leafT[v] = t
			return v
		}
		v := e.mk("bin", op.String()+t.Underlying().String(), a, b)
		e.leafT[v] = t
		return v
	}
	if isFloatT(t) {
		switch op {
		case token.LSS:
			return e.lt("f", a, b, 64)
		case token.GTR:
			return e.lt("f", b, a, 64)
		case token.LEQ:
			return e.mk("lt", "g64", a, b) // <= on floats is not the negation of >
		case token.GEQ:
			return e.mk("lt", "g64", b, a)
		}
		if op == token.ADD || op == token.MUL || op == token.EQL {
			if a.id > b.id {
				a, b = b, a
			}
		}
		if op == token.NEQ {
			if a.id > b.id {
				a, b = b, a
			}
			return e.not(e.mk("eq", "f", a, b))
		}
		if op == token.EQL {
			return e.mk("eq", "f", a, b)
		}
		if a.op == "float" && b.op == "float" {
			x, _ := strconv.ParseFloat(a.aux, 64)
			y, _ := strconv.ParseFloat(b.aux, 64)
			switch op {
			case token.ADD:
				return e.mk("float", strconv.FormatFloat(x+y, 'g', -1, 64))
			case token.SUB:
				return e.mk("float", strconv.FormatFloat(x-y, 'g', -1, 64))
			case token.MUL:
				return e.mk("float", strconv.FormatFloat(x*y, 'g', -1, 64))
			case token.QUO:
				if y != 0 {
					return e.mk("float", strconv.FormatFloat(x/y, 'g', -1, 64))
				}
			}
		}
		return e.mk("fbin", op.String(), a, b)
	}
	switch op {
	case token.EQL, token.NEQ:
		var r V
		if isBoolNode(a) && isBoolNode(b) {
			r = e.or(e.and(a, b), e.and(e.not(a), e.not(b)))
		} else {
			r = e.eqAny(a, b)
		}
		if op == token.NEQ {
			return e.not(r)
		}
		return r
	}
	return e.mk("bin", op.String()+t.Underlying().String(), a, b)
}

func (e *VEval) div(s string, a, b V, bits int, t types.Type) V {
	if x, ok := a.intConst(); ok && x >= 0 {
		if y, ok := b.intConst(); ok && y > 0 {
			return e.int(x/y, bits)
		}
	}
	v := e.mk("div", s+strconv.Itoa(bits), a, b)
	e.leafT[v] = t
	return v
}

func (e *VEval) convert(v V, from, to types.Type) V {
	if v.op == "ite" {
		if _, _, ok := typeBits(to); ok {
			return e.ite(v.args[0], e.convert(v.args[1], from, to), e.convert(v.args[2], from, to))
		}
	}
	fb, fu, fi := typeBits(from)
	tb, tu, ti := typeBits(to)
	switch {
	case fi && ti:
		if tb == fb {
			return e.retype(v, tb)
		}
		if tb < fb {
			// truncation commutes with ring operations
			var ts []vterm
			for _, t := range v.terms() {
				var m []V
				for _, a := range t.m {
					m = append(m, e.truncAtom(a, tb))
				}
				sort.Slice(m, func(i, j int) bool { return m[i].id < m[j].id })
				c := vterm{t.c, m}
				ts = append(ts, c)
			}
			// factors that are constants or polynomials must be multiplied out
			acc := e.int(0, tb)
			for _, t := range ts {
				p := e.int(t.c, tb)
				for _, a := range t.m {
					p = e.mul(p, a, tb)
				}
				acc = e.add(acc, p, tb)
			}
			return acc
		}
		// widening
		if v.op == "int" {
			k := v.k
			if !fu && fb < 64 && k >= 1<<uint(fb-1) {
				k -= 1 << uint(fb)
			}
			return e.int(k, tb)
		}
		if fu {
			if lo, hi, ok := e.rangeOf(v, 6); ok && v.op == "poly" && lo.Sign() >= 0 && hi.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(fb))) < 0 {
				// no wrap: the polynomial means the same in the wider type
				return e.fromTerms(e.signedTerms(v), tb)
			}
			if e.leafFits(v, fb) {
				return v
			}
			z := e.mk("zext", strconv.Itoa(fb), v)
			e.leafT[z] = from
			return z
		}
		s := e.mk("sext", strconv.Itoa(fb), v)
		e.leafT[s] = from
		return s
	case fi && isFloatT(to):
		return e.mk("i2f", from.Underlying().String(), v)
	case isFloatT(from) && ti:
		r := e.mk("f2i", to.Underlying().String(), v)
		e.leafT[r] = to
		_ = tu
		return r
	case isFloatT(from) && isFloatT(to):
		if types.Identical(from.Underlying(), to.Underlying()) {
			return v
		}
		return e.mk("f2f", to.Underlying().String(), v)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return e.mk("conv", to.String(), v)
}

// leafFits: an unsigned leaf can stand for itself in any wider type.
func (e *VEval) leafFits(v V, bits int) bool {
	if v.op == "poly" {
		return false
	}
	t := e.leafT[v]
	if t == nil {
		return false
	}
	b, u, ok := typeBits(t)
	return ok && u && b <= bits
}

func (e *VEval) signedTerms(v V) []vterm {
	var out []vterm
	for _, t := range v.terms() {
		c := t.c
		if v.bits < 64 && c >= 1<<uint(v.bits-1) {
			c -= 1 << uint(v.bits)
		}
		out = append(out, vterm{c, t.m})
	}
	return out
}

func (e *VEval) retype(v V, bits int) V {
	return v
}

func (e *VEval) truncAtom(a V, bits int) V {
	if lo, hi, ok := e.rangeOf(a, 6); ok && lo.Sign() >= 0 && hi.BitLen() <= bits {
		return a
	}
	if a.op == "zext" || a.op == "sext" {
		fb, _ := strconv.Atoi(a.aux)
		if fb == bits {
			return a.args[0]
		}
		if fb > bits {
			return e.truncAtom(a.args[0], bits)
		}
	}
	if a.op == "poly" {
		return e.convert(a, types.Typ[types.Uint64], bitsType(bits))
	}
	t := e.mk("trunc", strconv.Itoa(bits), a)
	e.leafT[t] = bitsType(bits)
	return t
}

func bitsType(b int) types.Type {
	switch b {
	case 8:
		return types.Typ[types.Uint8]
	case 16:
		return types.Typ[types.Uint16]
	case 32:
		return types.Typ[types.Uint32]
	}
	return types.Typ[types.Uint64]
}

// rangeOf bounds the mathematical value of a node; polynomials are evaluated
// without wrapping (coefficients of narrow types read as signed).
func (e *VEval) rangeOf(v V, d int) (lo, hi *big.Int, ok bool) {
	if v.op == "int" {
		return big.NewInt(v.k), big.NewInt(v.k), true
	}
	if d == 0 {
		return e.typeRange(v)
	}
	switch v.op {
	case "poly":
		lo, hi = big.NewInt(0), big.NewInt(0)
		for _, t := range e.signedTerms(v) {
			l, h := big.NewInt(t.c), big.NewInt(t.c)
			for _, a := range t.m {
				al, ah, ok := e.rangeOf(a, d-1)
				if !ok {
					return nil, nil, false
				}
				l, h = mulRange(l, h, al, ah)
			}
			lo = new(big.Int).Add(lo, l)
			hi = new(big.Int).Add(hi, h)
		}
		return lo, hi, true
	case "ite", "min", "max":
		as := v.args
		if v.op == "ite" {
			as = as[1:]
		}
		arm := func(a V) (l, h *big.Int, ok bool) {
			l, h, ok = e.rangeOf(a, d-1)
			if ok && a.op == "poly" && a.bits < 64 && (l.Sign() < 0 && (l.BitLen() >= a.bits || h.BitLen() >= a.bits) || h.BitLen() > a.bits) {
				return nil, nil, false // may wrap
			}
			return
		}
		l1, h1, ok1 := arm(as[0])
		l2, h2, ok2 := arm(as[1])
		if v.op != "ite" && v.aux == "u" {
			// unsigned minimum is bounded by either side
			if v.op == "min" {
				if ok1 && (!ok2 || h1.Cmp(h2) < 0) && l1.Sign() >= 0 {
					return big.NewInt(0), h1, true
				}
				if ok2 && l2.Sign() >= 0 {
					return big.NewInt(0), h2, true
				}
			}
		}
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		switch v.op {
		case "min":
			return minB(l1, l2), minB(h1, h2), true
		case "max":
			return maxB(l1, l2), maxB(h1, h2), true
		}
		return minB(l1, l2), maxB(h1, h2), true
	case "div":
		if v.aux[0] == 'u' || v.aux[0] == 't' || v.aux[0] == 'f' {
			al, ah, ok1 := e.rangeOf(v.args[0], d-1)
			if v.aux[0] == 'u' && v.args[0].op == "poly" {
				// wrapped polynomials stay below the type's limit
				b := v.args[0].bits
				lim := new(big.Int).Lsh(big.NewInt(1), uint(b))
				if !ok1 || al.Sign() < 0 || ah.Cmp(lim) >= 0 {
					al, ah, ok1 = big.NewInt(0), lim.Sub(lim, big.NewInt(1)), true
				}
			}
			bl, _, ok2 := e.rangeOf(v.args[1], d-1)
			if ok1 && ok2 && bl.Sign() > 0 && al.Sign() >= 0 {
				return big.NewInt(0), new(big.Int).Quo(ah, bl), true
			}
			if ok1 && al.Sign() >= 0 && v.aux[0] == 'u' {
				return big.NewInt(0), ah, true
			}
		}
	case "comm":
		if strings.HasPrefix(v.aux, "&") {
			for _, a := range v.args {
				if l, h, ok := e.rangeOf(a, d-1); ok && l.Sign() >= 0 {
					return big.NewInt(0), h, true
				}
			}
		}
	case "zext":
		if l, h, ok := e.rangeOf(v.args[0], d-1); ok {
			fb, _ := strconv.Atoi(v.aux)
			if l.Sign() >= 0 && h.BitLen() <= fb {
				return l, h, true
			}
		}
	}
	return e.typeRange(v)
}

func (e *VEval) typeRange(v V) (lo, hi *big.Int, ok bool) {
	t := e.leafT[v]
	if t == nil {
		return nil, nil, false
	}
	b, u, isInt := typeBits(t)
	if !isInt || b == 64 {
		if isInt && u {
			lim := new(big.Int).Lsh(big.NewInt(1), 64)
			return big.NewInt(0), lim.Sub(lim, big.NewInt(1)), true
		}
		return nil, nil, false
	}
	if u {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(b))
		return big.NewInt(0), lim.Sub(lim, big.NewInt(1)), true
	}
	lim := new(big.Int).Lsh(big.NewInt(1), uint(b-1))
	return new(big.Int).Neg(lim), new(big.Int).Sub(lim, big.NewInt(1)), true
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func mulRange(al, ah, bl, bh *big.Int) (lo, hi *big.Int) {
	for i, x := range []*big.Int{al, ah} {
		for j, y := range []*big.Int{bl, bh} {
			p := new(big.Int).Mul(x, y)
			if i == 0 && j == 0 {
				lo, hi = p, p
				continue
			}
			lo, hi = minB(lo, p), maxB(hi, p)
		}
	}
	return
}
