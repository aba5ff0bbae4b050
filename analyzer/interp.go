package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The abstract interpreter: functions are executed over sets of
// configurations; calls inside the repository are entered; loops are
// generalised by loops.go; calls out of the repository are described by
// models.go.

// Mon receives the events a property is about.
type Mon interface {
	// ret is called for every outcome of an activation of a repository function.
	ret(x *Interp, a *act, st *State, vals []Val)
	// store is called before a store of v to address p.
	store(x *Interp, a *act, ins *ssa.Store, st *State, p PtrV, v Val)
	// call is called before a call to a resolved function (repo or not).
	call(x *Interp, a *act, ins ssa.CallInstruction, st *State, fn *ssa.Function, args []Val)
	// dyncall is called before a call of an unknown function value (a callback).
	dyncall(x *Interp, a *act, ins ssa.CallInstruction, st *State, role string, args []Val)
	// leave is called for every way an activation returns, before they are merged.
	leave(x *Interp, a *act, st *State, vals []Val)
	// take is called when n bytes are successfully taken from the input at pos.
	take(x *Interp, a *act, st *State, pos, n *Poly)
	// back is called for every way round a loop, with the state at its header and the one after the iteration.
	back(x *Interp, a *act, l *loopInfo, h, b *State)
}

type nopMon struct{}

func (nopMon) ret(*Interp, *act, *State, []Val)                                      {}
func (nopMon) store(*Interp, *act, *ssa.Store, *State, PtrV, Val)                    {}
func (nopMon) call(*Interp, *act, ssa.CallInstruction, *State, *ssa.Function, []Val) {}
func (nopMon) dyncall(*Interp, *act, ssa.CallInstruction, *State, string, []Val)     {}
func (nopMon) leave(*Interp, *act, *State, []Val)                                    {}
func (nopMon) back(*Interp, *act, *loopInfo, *State, *State)                         {}
func (nopMon) take(*Interp, *act, *State, *Poly, *Poly)                              {}

type oblRec struct {
	kind, where, pos, msg string
	n, fail, fuzzy        int
	chain                 string
}

type Interp struct {
	p         *Program
	mon       Mon
	obl       map[string]*oblRec
	stack     []*act
	globals   map[*ssa.Global]ObjID
	init      *State
	fi        map[*ssa.Function]*cfInfo
	fnSeen    map[string]bool
	quiet     int // > 0: provisional loop rounds, nothing is recorded
	loopBad   map[string]string
	loopOK    map[string]int
	loopStuck map[string]string // loops that can go round without changing anything
	deadline  time.Time
	steps     int
	opaque    func(fn *ssa.Function) bool // repo functions that are not entered
	notes     map[string]int
	noObl     bool
	inWorkers bool
	dbg       bool
	unmod     map[string]int
	loopSeq   int
	terms     []*termRec
	countedM  map[*ssa.Function]bool
	modular   bool // workers are analysed apart, see summ.go
	readers   map[*ssa.Function]bool
	nests     map[*ssa.Function]int
	defs      []*deferredCall
	defSeen   map[string]int
	globalEnd ObjID
	backs     map[*ssa.Function]bool
	contracts map[*ssa.Function]bool
	roots     []*ssa.Function
	optVal    func(st *State, t types.Type, name string) Val // entry value of options that are fixed
	cbFields  map[*ssa.Function]map[string]bool
	noMerge   bool                                           // keep paths apart outside of loops
	nilPtrs   bool                                           // pointers given by the user are nil
	cfgInv    func(st *State, t types.Type, name string) Val // entry value of a type with a known invariant
}

func newInterp(p *Program, mon Mon) *Interp {
	x := &Interp{p: p, mon: mon, obl: map[string]*oblRec{}, globals: map[*ssa.Global]ObjID{}, init: newState(), fi: map[*ssa.Function]*cfInfo{},
		fnSeen: map[string]bool{}, loopBad: map[string]string{}, loopOK: map[string]int{}, loopStuck: map[string]string{}, notes: map[string]int{}, unmod: map[string]int{},
		dbg: os.Getenv("PSDAN_TRACE") != ""}
	x.deadline = time.Now().Add(700 * time.Second)
	return x
}

// act is one activation.
type act struct {
	args  []Val
	fn    *ssa.Function
	info  *cfInfo
	frame ObjID
	site  ssa.Instruction
	rets  []*Conf // env holds the results under retKey
	up    *act
	id    int
	entry *State
	g0    *Poly          // bytes consumed at the entry of a function that may read
	first map[int64]bool // sizes of the first reads (0: not constant)
}

type analysisLimit struct{ msg string }

func retKey(i int) ssa.Value {
	for len(retKeys) <= i {
		retKeys = append(retKeys, ssa.NewConst(constant.MakeInt64(int64(len(retKeys))), types.Typ[types.Int]))
	}
	return retKeys[i]
}

var retKeys []ssa.Value

var deferKeys = map[*ssa.Defer]*ssa.Const{}

func deferKey(d *ssa.Defer) ssa.Value {
	if deferKeys[d] == nil {
		deferKeys[d] = ssa.NewConst(constant.MakeInt64(0), types.Typ[types.Int])
	}
	return deferKeys[d]
}

// ---- control flow information ----

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	up     *loopInfo
	n      int
}

type cfInfo struct {
	fn     *ssa.Function
	rpo    []*ssa.BasicBlock
	ord    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*loopInfo
	inner  map[*ssa.BasicBlock]*loopInfo // innermost loop of a block
	live   map[*ssa.BasicBlock][]ssa.Value
	defers []*ssa.Defer
	irred  bool
}

func (x *Interp) info(fn *ssa.Function) *cfInfo {
	if f := x.fi[fn]; f != nil {
		return f
	}
	f := &cfInfo{fn: fn, ord: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, inner: map[*ssa.BasicBlock]*loopInfo{}, live: map[*ssa.BasicBlock][]ssa.Value{}}
	x.fi[fn] = f
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.ord[post[i]] = len(f.rpo)
		f.rpo = append(f.rpo, post[i])
	}
	// natural loops
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if f.ord[s] > f.ord[b] {
				continue
			}
			if !s.Dominates(b) {
				f.irred = true
				continue
			}
			l := f.loops[s]
			if l == nil {
				l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, n: len(f.loops)}
				f.loops[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				c := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[c] {
					continue
				}
				l.blocks[c] = true
				for _, p := range c.Preds {
					if seen[p] {
						work = append(work, p)
					}
				}
			}
		}
	}
	for _, b := range f.rpo {
		var in *loopInfo
		for _, l := range f.loops {
			if l.blocks[b] && (in == nil || len(l.blocks) < len(in.blocks)) {
				in = l
			}
		}
		f.inner[b] = in
	}
	for _, l := range f.loops {
		for _, m := range f.loops {
			if m != l && m.blocks[l.header] && (l.up == nil || len(m.blocks) < len(l.up.blocks)) {
				l.up = m
			}
		}
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return true
	}
	edgeUse := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.rpo {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, ins := range b.Instrs {
			if df, ok := ins.(*ssa.Defer); ok {
				f.defers = append(f.defers, df)
			}
			if phi, ok := ins.(*ssa.Phi); ok {
				d[phi] = true
				for i, e := range phi.Edges {
					if isReg(e) {
						p := b.Preds[i]
						if edgeUse[p] == nil {
							edgeUse[p] = map[ssa.Value]bool{}
						}
						edgeUse[p][e] = true
					}
				}
				continue
			}
			for _, op := range ins.Operands(nil) {
				if *op != nil && isReg(*op) && !d[*op] {
					u[*op] = true
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b], in[b] = u, d, map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.rpo) - 1; i >= 0; i-- {
			b := f.rpo[i]
			out := map[ssa.Value]bool{}
			for v := range edgeUse[b] {
				out[v] = true
			}
			for _, s := range b.Succs {
				for v := range in[s] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						continue
					}
					out[v] = true
				}
			}
			n := map[ssa.Value]bool{}
			for v := range out {
				if !def[b][v] {
					n[v] = true
				}
			}
			for v := range use[b] {
				n[v] = true
			}
			// phis are evaluated on the edge: live into the block when used
			for _, ins := range b.Instrs {
				if p, ok := ins.(*ssa.Phi); ok {
					n[p] = true
				}
			}
			if len(n) != len(in[b]) {
				in[b] = n
				changed = true
			}
		}
	}
	for _, b := range f.rpo {
		var l []ssa.Value
		for v := range in[b] {
			l = append(l, v)
		}
		sort.Slice(l, func(i, k int) bool {
			if l[i].Name() != l[k].Name() {
				return l[i].Name() < l[k].Name()
			}
			return l[i].Pos() < l[k].Pos()
		})
		for _, d := range f.defers {
			l = append(l, deferKey(d))
		}
		f.live[b] = l
	}
	return f
}

// ---- positions ----

func (x *Interp) pos(ins ssa.Instruction) string {
	if ins == nil {
		return "-"
	}
	return x.p.rel(posOf(ins))
}

func posOf(ins ssa.Instruction) token.Pos {
	if p := ins.Pos(); p.IsValid() {
		return p
	}
	var best token.Pos
	for _, op := range ins.Operands(nil) {
		if *op == nil {
			continue
		}
		if i, ok := (*op).(ssa.Instruction); ok && i.Parent() == ins.Parent() {
			if p := i.Pos(); p.IsValid() {
				best = p
			}
		}
	}
	if !best.IsValid() && ins.Parent() != nil {
		best = ins.Parent().Pos()
	}
	return best
}

func (x *Interp) chain() string {
	var s []string
	for _, a := range x.stack {
		s = append(s, a.fn.Name())
	}
	return strings.Join(s, " > ")
}

func fnLabel(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/oov/psd/", "")
	return strings.ReplaceAll(s, "github.com/oov/psd.", "psd.")
}

// oblige records a proof obligation; proved tells whether it holds.
func (x *Interp) oblige(kind string, ins ssa.Instruction, st *State, proved, fuzzy bool, msg string) {
	if x.quiet > 0 || x.noObl {
		return
	}
	k := kind + "|" + x.pos(ins)
	if ins.Parent() != nil {
		k += "|" + fnLabel(ins.Parent())
	}
	for _, a := range x.stack {
		if a.site != nil {
			k += "|" + x.pos(a.site)
		}
	}
	o := x.obl[k]
	if o == nil {
		o = &oblRec{kind: kind, pos: x.pos(ins)}
		if ins.Parent() != nil {
			o.where = fnLabel(ins.Parent())
		}
		x.obl[k] = o
	}
	o.n++
	if !proved {
		if fuzzy {
			o.fuzzy++
			if o.msg == "" {
				o.msg, o.chain = msg, x.chain()
			}
		} else {
			o.fail++
			if o.fail == 1 {
				o.msg, o.chain = msg, x.chain()
			}
		}
	}
}

// need proves p >= 0, then assumes it. It returns false if p >= 0 is impossible.
func (x *Interp) need(kind string, ins ssa.Instruction, st *State, p *Poly, msg string) bool {
	if p == nil {
		x.oblige(kind, ins, st, false, true, msg)
		return true
	}
	q := st.norm(p)
	if q != nil && (st.entails(q) || st.entailsSplit(q)) {
		x.oblige(kind, ins, st, true, false, "")
		return true
	}
	if x.dbg && x.quiet == 0 && !x.noObl {
		fmt.Printf("FAIL %s %s: need %s >= 0 (%s)\n%s", kind, x.pos(ins), q, msg, st.dump())
	}
	fuzzy := q == nil || polyFuzzy(q) || st.outside(q) || q.hasJoined() && !st.entails(addScaled(K(-1), -1, q)) ||
		q.isConst() && (p.movesIn() || x.varyingIn(ins))
	if fuzzy && q != nil && q.unchecked(st) {
		fuzzy = false
	}
	x.oblige(kind, ins, st, false, fuzzy, msg+fmt.Sprintf(" [need %s >= 0]", q))
	if q == nil {
		return true
	}
	if fuzzy {
		guessed[q] = true
		for _, t := range q.t {
			for _, s := range t.m.syms {
				guessedSym[s] = true
			}
		}
	}
	return st.assume(q)
}

// unchecked: p says something about nothing but the length of one piece of
// memory that the loop analysis or a summary gave a name to. Facts about it
// alone survive joins, so that a check of the length would have been seen.
func (p *Poly) unchecked(st *State) bool {
	if len(p.t) != 1 || len(p.t[0].m.syms) != 1 || p.t[0].c != 1 {
		return false
	}
	in := p.t[0].m.syms[0].info()
	if guessedSym[p.t[0].m.syms[0]] {
		return false
	}
	return in.op == "" && (strings.HasPrefix(in.name, "q.") && strings.HasSuffix(in.name, ".len") || strings.HasPrefix(in.name, "opq") &&
		(!strings.Contains(in.name, "alternatives") || st.ival(symP(p.t[0].m.syms[0])).lo > 0)) // checked, but not enough
}

// hasJoined: p mentions a value that stands for several.
func (p *Poly) hasJoined() bool {
	r := false
	p.deepSyms(func(s Sym) {
		if in := s.info(); in.op == "" && in.name == "j" {
			r = true
		}
	})
	return r
}

// varyingIn: the instruction is in a loop and its operands are not constants:
// a constant that they have on some path may come from a path that only the
// imprecision of the loop analysis makes possible.
func (x *Interp) varyingIn(ins ssa.Instruction) bool {
	if ins == nil || ins.Parent() == nil || x.info(ins.Parent()).inner[ins.Block()] == nil {
		return false
	}
	konst := func(vs ...ssa.Value) bool {
		for _, v := range vs {
			if v == nil {
				continue
			}
			if _, ok := v.(*ssa.Const); !ok {
				return false
			}
		}
		return true
	}
	switch i := ins.(type) {
	case *ssa.IndexAddr:
		return !konst(i.Index)
	case *ssa.Index:
		return !konst(i.Index)
	case *ssa.Slice:
		return !konst(i.Low, i.High, i.Max)
	case *ssa.MakeSlice:
		return !konst(i.Len)
	}
	return true
}

// movesIn: p mentions what changes in a loop.
func (p *Poly) movesIn() bool {
	r := false
	p.deepSyms(func(s Sym) {
		if in := s.info(); in.op == "" && (in.name == "j" || in.name == "k" || in.name == "any" || strings.HasPrefix(in.name, "q.")) {
			r = true
		}
	})
	return r
}

// guessed: inequalities that were assumed without proof.
var guessed = map[*Poly]bool{}

// guessedSym: their symbols.
var guessedSym = map[Sym]bool{}

// outside: p >= 0 is outside of what the linear domain can decide. It has
// products or quotients of unknowns or depends on the number of processors, or
// it mentions a loop counter or a merged value that nothing known bounds on the side that matters.
func (st *State) outside(p *Poly) bool {
	out := false
	upper, lower := map[Sym]bool{}, map[Sym]bool{}
	for _, f := range st.facts {
		f = st.norm(f)
		lin := true
		for _, t := range f.t {
			lin = lin && len(t.m.syms) == 1
		}
		if !lin || len(f.t) < 2 || guessed[f] {
			continue
		}
		for _, t := range f.t {
			if t.c < 0 {
				upper[t.m.syms[0]] = true
			} else {
				lower[t.m.syms[0]] = true
			}
		}
	}
	var deep func(p *Poly, top bool)
	deep = func(p *Poly, top bool) {
		for _, t := range p.t {
			if len(t.m.syms) > 1 {
				out = true
			}
			for _, s := range t.m.syms {
				in := s.info()
				switch {
				case in.op == "div" || in.name == "cpus" || in.name == "any":
					out = true
				case in.op == "" && (in.name == "k" || in.name == "j" || strings.HasPrefix(in.name, "q.")):
					r := st.symIv(s)
					if top && (t.c < 0 && r.hi == posInf && !upper[s] || t.c > 0 && (r.lo == negInf || r.lo == 0) && !lower[s]) {
						out = true
					}
				}
				for _, a := range in.args {
					deep(a, false)
				}
			}
		}
	}
	deep(p, true)
	// two induction variables, the bound of neither of which alone matters
	moving := 0
	for _, t := range p.t {
		if s := t.m.syms[0]; t.c < 0 && len(t.m.syms) == 1 && s.info().op == "" && (s.info().name == "k" || strings.HasPrefix(s.info().name, "q.")) {
			moving++
		}
	}
	return out || moving > 1
}

// ---- function execution ----

type outcome struct {
	st   *State
	vals []Val
}

func (x *Interp) call(fn *ssa.Function, args, bind []Val, st *State, site ssa.Instruction, up *act) []outcome {
	for _, s := range x.stack {
		if s.fn == fn {
			return x.recursiveCall(fn, args, st, site)
		}
	}
	if len(x.stack) > 60 {
		panic(analysisLimit{"call depth"})
	}
	if x.quiet == 0 {
		x.fnSeen[fnLabel(fn)] = true
	}
	a := &act{fn: fn, info: x.info(fn), frame: objCount + 1, site: site, up: up, args: args}
	if !x.touchesReader(fn) {
		a.entry = st // see inputConsts
	} else {
		a.g0 = st.norm(st.G("G"))
	}
	if a.info.irred {
		panic(analysisLimit{"irreducible control flow in " + fn.String()})
	}
	x.stack = append(x.stack, a)
	env := &Env{m: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		if i < len(args) {
			env.m[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			env.m[f] = bind[i]
		}
	}
	x.region(a, nil, map[*ssa.BasicBlock][]*Conf{fn.Blocks[0]: {{env, st.clone()}}})
	// merge outcomes
	n := fn.Signature.Results().Len()
	var keys []ssa.Value
	for i := 0; i < n; i++ {
		keys = append(keys, retKey(i))
	}
	if x.quiet == 0 {
		for _, c := range a.rets {
			var vals []Val
			for _, k := range keys {
				vals = append(vals, c.env.m[k])
			}
			x.mon.leave(x, a, c.st, vals)
		}
	}
	for _, c := range a.rets {
		if c.failing() {
			c.st.onlyFactsOf(st)
		}
	}
	a.entry = nil
	confs := a.rets
	if !x.noMerge || len(confs) > 600 {
		confs = x.merge(a.rets, keys, a.frame, 16)
	}
	x.stack = x.stack[:len(x.stack)-1]
	var out []outcome
	for _, c := range confs {
		o := outcome{st: c.st}
		for _, k := range keys {
			o.vals = append(o.vals, c.env.m[k])
		}
		if x.quiet == 0 {
			x.mon.ret(x, a, o.st, o.vals)
		}
		out = append(out, o)
	}
	return out
}

// inputConsts lists the values that the state fixes for small input fields
// (at most four bytes, at most 64 in size): the alternatives the code
// distinguishes by a switch over such a field are kept apart while they are
// few, up to the end of the function that distinguishes them.
func (st *State) inputConsts(old *State) string {
	var l []string
	for s, p := range st.sub {
		if p.isConst() && p.c >= -8 && p.c <= 64 {
			if q := old.sub[s]; q != nil && q.isConst() {
				continue
			}
			if in := s.info(); in.op == "sx" || in.op == "be" && in.n <= 4 || in.op == "" && in.set != nil {
				l = append(l, fmt.Sprintf("%d=%d", s, p.c))
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// failing: the results hold an error that is not nil.
func (c *Conf) failing() bool {
	for k, v := range c.env.m {
		if _, ok := k.(*ssa.Const); !ok {
			continue
		}
		if e, ok := v.(*IfaceV); ok && !e.isNil && e.nilSym == 0 && (e.role == "error" || isErrorish(e)) {
			return true
		}
	}
	return false
}

// onlyFactsOf forgets the facts that were not known in old: what is known when
// a function fails hardly matters to its callers.
func (st *State) onlyFactsOf(old *State) {
	n := newState()
	for _, f := range st.facts {
		if old.fset[f] {
			n.addFact(f)
		}
	}
	st.facts, st.fset, st.ncache = n.facts, n.fset, nil
	st.nes = old.nes
}

// recursiveCall: the result of a recursive call is unknown.
func (x *Interp) recursiveCall(fn *ssa.Function, args []Val, st *State, site ssa.Instruction) []outcome {
	if x.quiet == 0 {
		x.notes["recursive call of "+fnLabel(fn)]++
		x.oblige("recursion", site, st, false, true, "recursive call of "+fnLabel(fn))
	}
	x.havocArgs(st, args)
	o := outcome{st: st.clone()}
	rt := fn.Signature.Results()
	for i := 0; i < rt.Len(); i++ {
		o.vals = append(o.vals, o.st.freshVal(rt.At(i).Type(), fn.Name()+".r", true))
	}
	return []outcome{o}
}

// havocArgs forgets what is stored in objects reachable from the arguments.
func (x *Interp) havocArgs(st *State, args []Val) {
	seen := map[ObjID]bool{}
	var f func(v Val)
	f = func(v Val) {
		eachObj(v, func(o ObjID) {
			if o == 0 || seen[o] {
				return
			}
			seen[o] = true
			ob := st.heap[o]
			if ob == nil {
				return
			}
			old := ob.val
			f(old)
			switch v := old.(type) {
			case *ArrV:
				n := *v
				n.segs = nil
				n.base = st.exVal(v.elem, "havoc")
				st.setObj(o, &n)
			case *MapC:
				n := *v
				n.consts = map[string]Val{}
				n.sum = st.exVal(v.vt, "havoc")
				st.setObj(o, &n)
			default:
				if ob.typ != nil {
					st.setObj(o, st.freshVal(ob.typ, "havoc", true))
				}
			}
		})
	}
	for _, a := range args {
		f(a)
	}
}

// merge joins configurations that look alike.
func (x *Interp) merge(cs []*Conf, live []ssa.Value, frame ObjID, limit int) []*Conf {
	if len(cs) <= 1 {
		for _, c := range cs {
			c.gc(live, frame)
		}
		return cs
	}
	first := 0
	var entry *State
	if len(x.stack) > 0 {
		if entry = x.stack[len(x.stack)-1].entry; entry != nil {
			first = -1
		}
	}
	for level := first; level < 3; level++ {
		groups := map[string][]*Conf{}
		var ord []string
		for _, c := range cs {
			s := ""
			if level < 2 {
				s = c.sig(live, max(level, 0))
			}
			if level < 0 && !c.failing() {
				s += c.st.inputConsts(entry)
			}
			if len(groups[s]) == 0 {
				ord = append(ord, s)
			}
			groups[s] = append(groups[s], c)
		}
		lim := limit
		if level == 1 {
			lim = limit * 3
		}
		if len(ord) > lim && level < 2 {
			continue
		}
		var out []*Conf
		for _, s := range ord {
			g := groups[s]
			for _, c := range g {
				c.gc(live, frame)
			}
			// pairwise, so that similar states meet first
			for len(g) > 1 {
				var n []*Conf
				for i := 0; i+1 < len(g); i += 2 {
					n = append(n, joinConfs(g[i], g[i+1], live, frame))
				}
				if len(g)%2 == 1 {
					n = append(n, g[len(g)-1])
				}
				g = n
			}
			g[0].gc(live, frame)
			out = append(out, g[0])
		}
		return out
	}
	return cs
}

// gc drops local objects that nothing refers to.
func (c *Conf) gc(live []ssa.Value, frame ObjID) {
	reach := map[ObjID]bool{}
	var work []ObjID
	add := func(o ObjID) {
		if o != 0 && !reach[o] {
			reach[o] = true
			work = append(work, o)
		}
	}
	lv := map[ssa.Value]bool{}
	for _, r := range live {
		lv[r] = true
	}
	n := &Env{m: map[ssa.Value]Val{}}
	for _, r := range live {
		if v, ok := c.env.m[r]; ok {
			n.m[r] = v
			eachObj(v, add)
		}
	}
	c.env = n
	local := 0
	for id := range c.st.heap {
		if id < frame {
			add(id)
		} else {
			local++
		}
	}
	if local == 0 {
		return
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if ob := c.st.heap[o]; ob != nil {
			eachObj(ob.val, add)
		}
	}
	var dead []ObjID
	for id := range c.st.heap {
		if !reach[id] {
			dead = append(dead, id)
		}
	}
	if len(dead) > 0 {
		c.st.ownHeap()
		for _, d := range dead {
			delete(c.st.heap, d)
		}
	}
}

type edge struct{ from, to *ssa.BasicBlock }

// region executes the blocks of loop l (nil: the whole function) from the
// given entries. It returns the configurations that left the loop and those
// that came back to its header.
func (x *Interp) region(a *act, l *loopInfo, pending map[*ssa.BasicBlock][]*Conf) (exits map[*ssa.BasicBlock][]*Conf, backs []*Conf) {
	exits = map[*ssa.BasicBlock][]*Conf{}
	first := true
	for _, b := range a.info.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		cs := pending[b]
		if len(cs) == 0 {
			continue
		}
		delete(pending, b)
		if in := a.info.loops[b]; in != nil && !(l != nil && in == l) {
			// an inner loop: run it to the end
			for _, c := range x.merge(cs, a.info.live[b], a.frame, 10) {
				ex := x.loop(a, in, c)
				for _, t := range a.info.rpo {
					if len(ex[t]) == 0 {
						continue
					}
					x.route(a, l, t, ex[t], pending, exits, &backs)
				}
			}
			first = false
			continue
		}
		if a.info.inner[b] != l {
			continue // belongs to an inner loop that is run from its header
		}
		if (!first || len(cs) > 1) && !(len(cs) <= 32 && onlyReturns(b)) && !(x.noMerge && l == nil && len(cs) <= 600) {
			cs = x.merge(cs, a.info.live[b], a.frame, 12)
		}
		first = false
		for _, c := range cs {
			x.block(a, b, c, func(t *ssa.BasicBlock, c *Conf) {
				x.route(a, l, t, []*Conf{c}, pending, exits, &backs)
			})
		}
	}
	return
}

func (x *Interp) route(a *act, l *loopInfo, t *ssa.BasicBlock, cs []*Conf, pending, exits map[*ssa.BasicBlock][]*Conf, backs *[]*Conf) {
	switch {
	case l != nil && t == l.header:
		*backs = append(*backs, cs...)
	case l != nil && !l.blocks[t]:
		exits[t] = append(exits[t], cs...)
	default:
		pending[t] = append(pending[t], cs...)
	}
}

// block executes the instructions of b; emit receives the successors with
// their phis already set.
func (x *Interp) block(a *act, b *ssa.BasicBlock, c *Conf, emit func(*ssa.BasicBlock, *Conf)) {
	cs := []*Conf{{c.env.clone(), c.st.clone()}}
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		x.steps++
		if x.steps%256 == 0 && time.Now().After(x.deadline) {
			panic(analysisLimit{"time"})
		}
		switch ins := ins.(type) {
		case *ssa.If:
			for _, c := range cs {
				v, _ := x.val(a, c, ins.Cond).(*BoolV)
				if v == nil {
					v = &BoolV{op: bSym, s: newSym("cond", ivAll)}
				}
				if len(x.terms) > 0 {
					x.recordTerm(a, b, ins, c, v)
				}
				for i, want := range []bool{true, false} {
					st := c.st.clone()
					if st.assumeBool(v, want) {
						x.edge(a, b, b.Succs[i], &Conf{c.env.clone(), st}, emit)
					}
				}
			}
			return
		case *ssa.Jump:
			for _, c := range cs {
				x.edge(a, b, b.Succs[0], c, emit)
			}
			return
		case *ssa.Return:
			for _, c := range cs {
				e := &Env{m: map[ssa.Value]Val{}}
				for i, r := range ins.Results {
					e.m[retKey(i)] = x.val(a, c, r)
				}
				a.rets = append(a.rets, &Conf{e, c.st})
			}
			return
		case *ssa.Panic:
			for _, c := range cs {
				if c.st.feasible() {
					x.oblige("panic", ins, c.st, false, false, "explicit panic is reachable")
				}
			}
			return
		default:
			var next []*Conf
			for _, c := range cs {
				next = append(next, x.instr(a, ins, c)...)
			}
			cs = next
			if len(cs) > 48 && !(x.noMerge && len(cs) <= 600) {
				cs = x.merge(cs, x.liveAfter(a, b, ins), a.frame, 24)
			}
			if len(cs) == 0 {
				return
			}
		}
	}
}

// liveAfter is a superset of what is live after ins.
func (x *Interp) liveAfter(a *act, b *ssa.BasicBlock, ins ssa.Instruction) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var l []ssa.Value
	add := func(v ssa.Value) {
		if !seen[v] {
			seen[v] = true
			l = append(l, v)
		}
	}
	after := false
	for _, i := range b.Instrs {
		if after {
			for _, op := range i.Operands(nil) {
				if *op != nil {
					add(*op)
				}
			}
		}
		if i == ins {
			after = true
		}
	}
	for _, s := range b.Succs {
		for _, v := range a.info.live[s] {
			add(v)
		}
		for _, i := range s.Instrs {
			if p, ok := i.(*ssa.Phi); ok {
				for _, e := range p.Edges {
					add(e)
				}
			}
		}
	}
	for _, d := range a.info.defers {
		add(deferKey(d))
	}
	return l
}

func (st *State) feasible() bool { return !st.contradicts(zeroP) }

func (x *Interp) edge(a *act, from, to *ssa.BasicBlock, c *Conf, emit func(*ssa.BasicBlock, *Conf)) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, x.val(a, c, p.Edges[pi]))
	}
	if len(phis) > 0 {
		c = &Conf{c.env.clone(), c.st}
		for i, p := range phis {
			c.env.set(p, vals[i])
		}
	}
	emit(to, c)
}

// assumeBool restricts st to the states where v is want.
func (st *State) assumeBool(v *BoolV, want bool) bool {
	switch v.op {
	case bConst:
		return v.c == want
	case bGe:
		if want {
			return st.assumeTight(v.p)
		}
		return st.assumeTight(addScaled(K(-1), -1, v.p))
	case bEq:
		if want {
			return st.assumeEq(v.p)
		}
		return st.assumeNe(v.p)
	case bNot:
		return st.assumeBool(v.a, !want)
	case bSym:
		if b, ok := st.bools[v.s]; ok {
			return b == want
		}
		st.setBool(v.s, want)
		return true
	case bAnd:
		if want {
			return st.assumeBool(v.a, true) && st.assumeBool(v.b, true)
		}
		// one of them is false
		a := st.decideBool(v.a)
		b := st.decideBool(v.b)
		if a == 1 {
			return st.assumeBool(v.b, false)
		}
		if b == 1 {
			return st.assumeBool(v.a, false)
		}
		return true
	case bOr:
		if !want {
			return st.assumeBool(v.a, false) && st.assumeBool(v.b, false)
		}
		if st.decideBool(v.a) == 0 {
			return st.assumeBool(v.b, true)
		}
		if st.decideBool(v.b) == 0 {
			return st.assumeBool(v.a, true)
		}
		return true
	}
	return true
}

// assumeTight is assume, and notices when p can only be zero.
func (st *State) assumeTight(p *Poly) bool {
	if p == nil {
		return true
	}
	p = st.norm(p)
	if p == nil {
		return true
	}
	if st.ival(p).hi == 0 || (len(p.t) > 0 && st.entails(negP(p))) {
		return st.assumeEq(p)
	}
	return st.assume(p)
}

func (st *State) decideBool(v *BoolV) int {
	switch v.op {
	case bConst:
		if v.c {
			return 1
		}
		return 0
	case bGe:
		return st.decideGe(v.p)
	case bEq:
		return st.decideEq(v.p)
	case bNot:
		d := st.decideBool(v.a)
		if d < 0 {
			return d
		}
		return 1 - d
	case bSym:
		if b, ok := st.bools[v.s]; ok {
			if b {
				return 1
			}
			return 0
		}
	case bAnd:
		a, b := st.decideBool(v.a), st.decideBool(v.b)
		if a == 0 || b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
	case bOr:
		a, b := st.decideBool(v.a), st.decideBool(v.b)
		if a == 1 || b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
	}
	return -1
}

func (st *State) simpBool(v *BoolV) *BoolV {
	switch st.decideBool(v) {
	case 0:
		return bFalse
	case 1:
		return bTrue
	}
	return v
}

func notB(v *BoolV) *BoolV {
	if v.op == bConst {
		return boolC(!v.c)
	}
	if v.op == bNot {
		return v.a
	}
	return &BoolV{op: bNot, a: v}
}

// ---- values ----

func (x *Interp) val(a *act, c *Conf, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Global:
		return PtrV{obj: x.global(v, c.st)}
	case *ssa.Builtin:
		return OpqV{t: v.Type(), why: "builtin"}
	}
	if r, ok := c.env.m[v]; ok {
		return r
	}
	// not computed on this path (pruned): unknown
	x.notes["missing register "+v.Name()+" in "+a.fn.Name()]++
	return c.st.freshVal(v.Type(), "missing:"+v.Name(), true)
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Int:
		if isFloat(t) {
			return FloatV{c.Value.ExactString()}
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return K(n)
		}
		return derive("bigconst:"+c.Value.ExactString(), 0, iv{posInf, posInf})
	case constant.Bool:
		return boolC(constant.BoolVal(c.Value))
	case constant.String:
		return constStr(constant.StringVal(c.Value))
	case constant.Float, constant.Complex:
		return FloatV{c.Value.ExactString()}
	}
	return OpqV{t: t, why: "const"}
}

func (x *Interp) global(g *ssa.Global, st *State) ObjID {
	id, ok := x.globals[g]
	if !ok {
		panic(analysisLimit{"global not prepared: " + g.String()})
	}
	return id
}

// prepareGlobals allocates the globals the given functions may touch.
func (x *Interp) prepareGlobals(fns map[*ssa.Function]bool) {
	var gs []*ssa.Global
	seen := map[*ssa.Global]bool{}
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && !seen[g] {
						seen[g] = true
						gs = append(gs, g)
					}
				}
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	st := x.init
	for _, g := range gs {
		t := g.Type().(*types.Pointer).Elem()
		id := st.alloc(t, "global "+g.Name())
		x.globals[g] = id
		var v Val
		switch {
		case types.Identical(t, types.Universe.Lookup("error").Type()):
			v = &IfaceV{role: "error", id: g.String()}
		case isInterface(t) && g.Pkg != nil && g.Name() == "Debug":
			v = &IfaceV{role: "debug", id: g.String(), nilSym: newSym("Debug.nil", ivAll)}
		default:
			v = st.freshVal(t, "global."+g.Name(), true)
		}
		st.setObj(id, v)
		x.globalEnd = id + 1
	}
}

func isInterface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (x *Interp) intVal(a *act, c *Conf, v ssa.Value) *Poly {
	r := x.val(a, c, v)
	if p, ok := r.(*Poly); ok {
		return c.st.norm(p)
	}
	p, _ := c.st.coerce(r, v.Type()).(*Poly)
	if p == nil {
		p, _ = c.st.freshVal(types.Typ[types.Int], "notint", true).(*Poly)
	}
	return p
}

func (c *Conf) with(k ssa.Value, v Val) *Conf {
	c.env.set(k, v)
	return c
}

func one(c *Conf) []*Conf { return []*Conf{c} }

// onlyReturns: the block ends the function without doing anything else; the
// configurations that reach it need not be joined.
func onlyReturns(b *ssa.BasicBlock) bool {
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
		return false
	}
	for _, ins := range b.Instrs {
		switch ins.(type) {
		case ssa.CallInstruction:
			return false
		}
	}
	return true
}
