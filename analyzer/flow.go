package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file holds the interprocedural typestate engine: a forward dataflow analysis over the SSA form that
// inlines statically resolved callees and closures, names values by canonical access paths and keeps the
// outcomes of repeated conditions apart.

// FState is one dataflow state.
type FState struct {
	env    map[string]string // phi and local cell contents
	facts  map[string]bool   // outcomes of conditions
	ts     map[string]string // the client's typestate
	defers []*deferred
	sigc   string
}

type deferred struct {
	fr   *frame
	in   *ssa.Defer
	args []string
	fn   string
}

func (s *FState) clone() *FState {
	n := &FState{env: make(map[string]string, len(s.env)), facts: make(map[string]bool, len(s.facts)), ts: make(map[string]string, len(s.ts))}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.ts {
		n.ts[k] = v
	}
	n.defers = append([]*deferred{}, s.defers...)
	return n
}

func (s *FState) set(k, v string) *FState {
	n := s.clone()
	if v == "" {
		delete(n.ts, k)
	} else {
		n.ts[k] = v
	}
	return n
}

func (s *FState) sig() string {
	if s.sigc != "" {
		return s.sigc
	}
	var p []string
	for k, v := range s.env {
		p = append(p, "e"+k+"="+v)
	}
	for k, v := range s.facts {
		p = append(p, fmt.Sprintf("f%s=%v", k, v))
	}
	for k, v := range s.ts {
		p = append(p, "t"+k+"="+v)
	}
	sort.Strings(p)
	for _, d := range s.defers {
		p = append(p, fmt.Sprintf("d%d:%p:%s", d.fr.id, d.in, strings.Join(d.args, ",")))
	}
	s.sigc = strings.Join(p, ";")
	if s.sigc == "" {
		s.sigc = "-"
	}
	return s.sigc
}

type frame struct {
	id     int
	fn     *ssa.Function
	bind   map[ssa.Value]string
	parent *frame
	call   ssa.Instruction
	names  map[ssa.Value]string
	rep    map[string]int // condition key -> number of branches on it
	depth  int
}

func (f *frame) stack() string {
	if f == nil {
		return ""
	}
	s := fnName(f.fn)
	if f.parent != nil {
		return f.parent.stack() + " > " + s
	}
	return s
}

func fnName(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), repoModule, "psd")
}

type closure struct {
	fn   *ssa.Function
	bind []string
}

// flowClient receives the events of the analysis.
type flowClient interface {
	// call handles a call; if handled is false the engine inlines or havocs it.
	call(fl *Flow, fr *frame, st *FState, in ssa.CallInstruction, callee *ssa.Function, args []string) (handled bool, outs []*FState)
	// instr sees every other instruction.
	instr(fl *Flow, fr *frame, st *FState, in ssa.Instruction) *FState
	// spawn sees every go statement.
	spawn(fl *Flow, fr *frame, st *FState, in *ssa.Go, callee *ssa.Function, args []string) *FState
	// relevant reports whether inlining callee can matter.
	relevant(st *FState, callee *ssa.Function) bool
	// recursive sees calls that are not inlined because the callee is active already.
	recursive(fl *Flow, fr *frame, st *FState, in ssa.CallInstruction, callee *ssa.Function)
}

// Flow is one run of the engine.
type Flow struct {
	p        *Program
	cl       flowClient
	closures map[string]*closure
	frames   map[string]*frame
	nframe   int
	steps    int
	memo     map[string][]*FState
	maxDepth int
	visited  map[*ssa.Function]bool
}

func newFlow(p *Program, cl flowClient) *Flow {
	return &Flow{p: p, cl: cl, closures: map[string]*closure{}, frames: map[string]*frame{}, memo: map[string][]*FState{}, maxDepth: 12, visited: map[*ssa.Function]bool{}}
}

func (fl *Flow) newFrame(fn *ssa.Function, parent *frame, call ssa.Instruction, args []string, fvs []string) *frame {
	pid := 0
	if parent != nil {
		pid = parent.id
	}
	key := fmt.Sprintf("%d|%p|%p|%s|%s", pid, call, fn, strings.Join(args, ","), strings.Join(fvs, ","))
	if f := fl.frames[key]; f != nil {
		return f
	}
	fl.nframe++
	f := &frame{id: fl.nframe, fn: fn, parent: parent, call: call, bind: map[ssa.Value]string{}, names: map[ssa.Value]string{}, rep: map[string]int{}}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	for i, p := range fn.Params {
		if i < len(args) {
			f.bind[p] = args[i]
		} else {
			f.bind[p] = fmt.Sprintf("p%d", i)
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(fvs) {
			f.bind[v] = fvs[i]
		} else {
			f.bind[v] = "fv:" + v.Name()
		}
	}
	fl.frames[key] = f
	return f
}

// run analyses fn as a root and returns the states at its exits.
func (fl *Flow) run(fn *ssa.Function, init *FState) []*FState {
	var args []string
	for _, p := range fn.Params {
		args = append(args, "$"+p.Name())
	}
	fr := fl.newFrame(fn, nil, nil, args, nil)
	outs := fl.body(fr, init)
	var r []*FState
	for _, o := range outs {
		r = append(r, o.st)
	}
	return r
}

func emptyFState() *FState {
	return &FState{env: map[string]string{}, facts: map[string]bool{}, ts: map[string]string{}}
}

type flowOut struct {
	st  *FState
	ret []string
	in  ssa.Instruction
}

func atomic(c string) bool {
	return c != "" && !strings.ContainsAny(c, "()") && len(c) < 160
}

// val names v in frame fr and state st.
func (fl *Flow) val(fr *frame, st *FState, v ssa.Value) string {
	if b, ok := fr.bind[v]; ok {
		return b
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isNilable(x.Type()) {
				return "nil"
			}
			return "zero"
		}
		if x.Value.Kind() == constant.Bool {
			return x.Value.String()
		}
		return "c:" + x.Value.ExactString()
	case *ssa.Global:
		return "g:" + strings.ReplaceAll(x.String(), repoModule, "psd")
	case *ssa.Function:
		k := "fn:" + fnName(x)
		if fl.closures[k] == nil {
			fl.closures[k] = &closure{fn: x}
		}
		return k
	case *ssa.Builtin:
		return "builtin:" + x.Name()
	case *ssa.Alloc:
		return fl.key("a", fr, x)
	case *ssa.FieldAddr:
		return fl.val(fr, st, x.X) + "." + fieldNameOf(x.X.Type(), x.Field)
	case *ssa.Field:
		return fl.val(fr, st, x.X) + "." + fieldNameOf(x.X.Type(), x.Field)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := fl.val(fr, st, x.X)
			if c, ok := st.env["cell:"+a]; ok {
				return c
			}
			return a + "*"
		case token.NOT:
			return negKey(fl.val(fr, st, x.X))
		}
		return fl.key("u", fr, x)
	case *ssa.ChangeType:
		return fl.val(fr, st, x.X)
	case *ssa.ChangeInterface:
		return fl.val(fr, st, x.X)
	case *ssa.MakeInterface:
		return fl.val(fr, st, x.X)
	case *ssa.Convert:
		return fl.val(fr, st, x.X)
	case *ssa.Phi:
		k := fl.key("phi", fr, x)
		if c, ok := st.env[k]; ok {
			return c
		}
		return k
	case *ssa.BinOp:
		return binKey(x.Op, fl.val(fr, st, x.X), fl.val(fr, st, x.Y))
	case *ssa.MakeClosure:
		k := fl.key("cl", fr, x)
		cl := &closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			cl.bind = append(cl.bind, fl.val(fr, st, b))
		}
		fl.closures[k] = cl
		return k
	case *ssa.Call:
		k := fl.key("r", fr, x)
		if c, ok := st.env[k]; ok {
			return c
		}
		return k
	case *ssa.Extract:
		t := fl.val(fr, st, x.Tuple)
		k := fmt.Sprintf("%s#%d", t, x.Index)
		if c, ok := st.env[k]; ok {
			return c
		}
		return k
	case *ssa.IndexAddr:
		return fl.val(fr, st, x.X) + "[" + fl.val(fr, st, x.Index) + "]"
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && x.Max == nil {
			return fl.val(fr, st, x.X)
		}
	case *ssa.Lookup:
		return fl.key("lk", fr, x)
	}
	return fl.key("v", fr, v)
}

func negKey(k string) string {
	switch k {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(k, "!") {
		return k[1:]
	}
	return "!" + k
}

// binKey names a comparison, normalising its direction.
func binKey(op token.Token, x, y string) string {
	switch op {
	case token.EQL, token.NEQ:
		if x > y {
			x, y = y, x
		}
		if isConstKey(x) && isConstKey(y) {
			r := x == y
			if op == token.NEQ {
				r = !r
			}
			return fmt.Sprint(r)
		}
		nonNil := func(a string) bool {
			return strings.HasPrefix(a, "a:") || strings.HasPrefix(a, "cl:") || strings.HasPrefix(a, "fn:")
		}
		if (x == "nil" && nonNil(y)) || (y == "nil" && nonNil(x)) {
			return fmt.Sprint(op == token.NEQ)
		}
		k := "(" + x + "==" + y + ")"
		if op == token.NEQ {
			return "!" + k
		}
		return k
	case token.LSS:
		return "(" + x + "<" + y + ")"
	case token.GTR:
		return "(" + y + "<" + x + ")"
	case token.GEQ:
		return "!(" + x + "<" + y + ")"
	case token.LEQ:
		return "!(" + y + "<" + x + ")"
	}
	return "(" + x + op.String() + y + ")"
}

func isConstKey(k string) bool {
	return k == "nil" || k == "true" || k == "false" || k == "zero" || strings.HasPrefix(k, "c:")
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func (fl *Flow) key(kind string, fr *frame, v ssa.Value) string {
	if n, ok := fr.names[v]; ok {
		return kind + ":" + n
	}
	n := fmt.Sprintf("%d:%s.%s", fr.id, v.Parent().Name(), v.Name())
	fr.names[v] = n
	return kind + ":" + n
}

func fieldNameOf(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

// kill drops what is known about a value that is computed again.
func kill(st *FState, k string) {
	for f := range st.facts {
		if strings.Contains(f, k) {
			delete(st.facts, f)
		}
	}
	for f, v := range st.env {
		if f == k || strings.HasPrefix(f, k+"#") || strings.Contains(v, k) {
			delete(st.env, f)
		}
	}
	st.sigc = ""
}

// body runs fr from its entry.
func (fl *Flow) body(fr *frame, init *FState) []flowOut {
	fn := fr.fn
	fl.visited[fn] = true
	type item struct {
		b  *ssa.BasicBlock
		st *FState
	}
	seen := map[*ssa.BasicBlock]map[string]bool{}
	work := []item{{fn.Blocks[0], init}}
	var outs []flowOut
	outSeen := map[string]bool{}
	push := func(from, to *ssa.BasicBlock, st *FState) {
		// phis
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		n := st
		cp := false
		type asg struct {
			k, v string
			ok   bool
		}
		var as []asg
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			k := fl.key("phi", fr, ph)
			v := fl.val(fr, st, ph.Edges[pi])
			as = append(as, asg{k, v, phiTracked(ph)})
		}
		for _, a := range as {
			if !cp {
				n = st.clone()
				cp = true
			}
			kill(n, a.k)
		}
		for _, a := range as {
			if !a.ok {
				continue
			}
			if atomic(a.v) && !strings.Contains(a.v, a.k) || a.v == "true" || a.v == "false" {
				n.env[a.k] = a.v
			} else if strings.HasPrefix(a.v, "(") || strings.HasPrefix(a.v, "!(") {
				if !strings.Contains(a.v, a.k) && len(a.v) < 200 {
					n.env[a.k] = a.v
				}
			}
		}
		if !cp {
			n = st.clone()
		}
		fl.prune(fr, n, to)
		m := seen[to]
		if m == nil {
			m = map[string]bool{}
			seen[to] = m
		}
		sg := n.sig()
		if m[sg] {
			return
		}
		if len(m) > 400 || len(m) > 24 && fl.steps > coarseAfter {
			// widen: forget branch facts
			n = n.clone()
			n.facts = map[string]bool{}
			n.env = map[string]string{}
			sg = n.sig()
			if m[sg] {
				return
			}
			if len(m) > 1500 {
				panic(fmt.Sprintf("too many dataflow states in %s", fnName(fn)))
			}
		}
		m[sg] = true
		work = append(work, item{to, n})
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		cur := []*FState{it.st}
		for _, in := range it.b.Instrs {
			fl.steps++
			if fl.steps > 6000000 {
				panic("dataflow step limit exceeded")
			}
			switch x := in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.If:
				for _, st := range cur {
					k := fl.val(fr, st, x.Cond)
					switch fl.decide(st, k) {
					case 1:
						push(it.b, it.b.Succs[0], st)
					case 0:
						push(it.b, it.b.Succs[1], st)
					default:
						if infoOf(fn).keep[x] {
							push(it.b, it.b.Succs[0], fl.assume(fr, st, k, true))
							push(it.b, it.b.Succs[1], fl.assume(fr, st, k, false))
						} else {
							push(it.b, it.b.Succs[0], st)
							push(it.b, it.b.Succs[1], st)
						}
					}
				}
				cur = nil
			case *ssa.Jump:
				for _, st := range cur {
					push(it.b, it.b.Succs[0], st)
				}
				cur = nil
			case *ssa.Return:
				for _, st := range cur {
					st = fl.cl.instr(fl, fr, st, in)
					if st == nil {
						continue
					}
					var ret []string
					for _, r := range x.Results {
						ret = append(ret, fl.val(fr, st, r))
					}
					sg := st.sig() + "|" + strings.Join(ret, ",") + fmt.Sprintf("|%p", in)
					if !outSeen[sg] {
						outSeen[sg] = true
						outs = append(outs, flowOut{st, ret, in})
					}
				}
				cur = nil
			case *ssa.Panic:
				cur = nil
			case *ssa.Defer:
				for i, st := range cur {
					d := &deferred{fr: fr, in: x}
					for _, a := range x.Call.Args {
						d.args = append(d.args, fl.val(fr, st, a))
					}
					if x.Call.Method == nil {
						d.fn = fl.val(fr, st, x.Call.Value)
					}
					n := st.clone()
					c := 0
					for _, e := range n.defers {
						if e.in == x && e.fr == fr {
							c++
						}
					}
					if c < 2 {
						n.defers = append(n.defers, d)
					}
					cur[i] = n
				}
			case *ssa.RunDefers:
				var next []*FState
				for _, st := range cur {
					next = append(next, fl.runDefers(fr, st)...)
				}
				cur = next
			case *ssa.Go:
				for i, st := range cur {
					callee, args := fl.resolve(fr, st, &x.Call)
					cur[i] = fl.cl.spawn(fl, fr, st, x, callee, args)
				}
			case *ssa.Call:
				var next []*FState
				ds := map[string]bool{}
				for _, st := range cur {
					for _, o := range fl.doCall(fr, st, x) {
						if !ds[o.sig()] {
							ds[o.sig()] = true
							next = append(next, o)
						}
					}
				}
				cur = next
			case *ssa.Store:
				for i, st := range cur {
					st = fl.cl.instr(fl, fr, st, in)
					a := fl.val(fr, st, x.Addr)
					if strings.HasPrefix(a, "a:") {
						v := fl.val(fr, st, x.Val)
						n := st.clone()
						for k := range n.env {
							if strings.HasPrefix(k, "cell:"+a) {
								delete(n.env, k)
							}
						}
						for k := range n.facts {
							if strings.Contains(k, a+"*") || strings.Contains(k, a+".") {
								delete(n.facts, k)
							}
						}
						if atomic(v) {
							n.env["cell:"+a] = v
						}
						st = n
					} else {
						n := st
						for k := range st.facts {
							if strings.Contains(k, a+"*") {
								if n == st {
									n = st.clone()
								}
								delete(n.facts, k)
							}
						}
						st = n
					}
					cur[i] = st
				}
			default:
				var next []*FState
				for _, st := range cur {
					if v, ok := in.(ssa.Value); ok {
						switch in.(type) {
						case *ssa.Next, *ssa.Lookup, *ssa.TypeAssert, *ssa.Select, *ssa.Alloc:
							k := ""
							switch in.(type) {
							case *ssa.Lookup:
								k = fl.key("lk", fr, v)
							case *ssa.Alloc:
								k = fl.key("a", fr, v)
							default:
								k = fl.key("v", fr, v)
							}
							n := st.clone()
							kill(n, k)
							if in, ok := in.(*ssa.Alloc); ok {
								for e := range n.env {
									if strings.HasPrefix(e, "cell:"+k) {
										delete(n.env, e)
									}
								}
								if isNilable(in.Type().(*types.Pointer).Elem()) {
									n.env["cell:"+k] = "nil"
								}
							}
							st = n
						case *ssa.UnOp:
							if in.(*ssa.UnOp).Op == token.ARROW {
								n := st.clone()
								kill(n, fl.key("u", fr, v))
								st = n
							}
						}
					}
					if st = fl.cl.instr(fl, fr, st, in); st != nil {
						next = append(next, st)
					}
				}
				cur = next
			}
			if len(cur) == 0 {
				break
			}
		}
	}
	return outs
}

// phiTracked reports whether the incoming values of a phi are kept apart: references, truth values and
// choices between constants.
func phiTracked(ph *ssa.Phi) bool {
	switch t := ph.Type().Underlying().(type) {
	case *types.Basic:
		if t.Info()&types.IsBoolean != 0 {
			return true
		}
		for _, e := range ph.Edges {
			if _, ok := e.(*ssa.Const); !ok {
				return false
			}
		}
		return true
	case *types.Struct, *types.Array, *types.Tuple, *types.Slice:
		return false
	}
	return true
}

// decide evaluates a condition key: 1 true, 0 false, -1 unknown.
func (fl *Flow) decide(st *FState, k string) int {
	neg := false
	for strings.HasPrefix(k, "!") {
		neg = !neg
		k = k[1:]
	}
	r := -1
	switch k {
	case "true":
		r = 1
	case "false":
		r = 0
	default:
		if b, ok := st.facts[k]; ok {
			r = 0
			if b {
				r = 1
			}
		}
	}
	if r >= 0 && neg {
		r = 1 - r
	}
	return r
}

func (fl *Flow) assume(fr *frame, st *FState, k string, b bool) *FState {
	for strings.HasPrefix(k, "!") {
		b = !b
		k = k[1:]
	}
	n := st.clone()
	if len(k) < 300 {
		n.facts[k] = b
	}
	// x == const true: bind nothing, but exclude other constants implicitly
	return n
}

// resolve finds the statically known callee of a call.
func (fl *Flow) resolve(fr *frame, st *FState, c *ssa.CallCommon) (*ssa.Function, []string) {
	var args []string
	if c.IsInvoke() {
		args = append(args, fl.val(fr, st, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, fl.val(fr, st, a))
	}
	if c.IsInvoke() {
		return nil, args
	}
	if f := c.StaticCallee(); f != nil {
		return f, args
	}
	if cl := fl.closures[fl.val(fr, st, c.Value)]; cl != nil {
		return cl.fn, args
	}
	return nil, args
}

func (fl *Flow) active(fr *frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (fl *Flow) doCall(fr *frame, st *FState, x *ssa.Call) []*FState {
	k := fl.key("r", fr, x)
	st = st.clone()
	callee, args := fl.resolve(fr, st, &x.Call)
	fnv := ""
	if !x.Call.IsInvoke() {
		fnv = fl.val(fr, st, x.Call.Value)
	}
	kill(st, k)
	return fl.invoke(fr, st, x, callee, args, fnv, k)
}

func (fl *Flow) invoke(fr *frame, st *FState, in ssa.CallInstruction, callee *ssa.Function, args []string, fnv, k string) []*FState {
	if h, outs := fl.cl.call(fl, fr, st, in, callee, args); h {
		return outs
	}
	if callee == nil || callee.Blocks == nil || !fl.inRepo(callee) || !fl.cl.relevant(st, callee) {
		return []*FState{st}
	}
	if fl.active(fr, callee) || fr.depth >= fl.maxDepth {
		fl.cl.recursive(fl, fr, st, in, callee)
		return []*FState{st}
	}
	var fvs []string
	if cl := fl.closures[fnv]; cl != nil {
		fvs = cl.bind
	}
	nf := fl.newFrame(callee, fr, in.(ssa.Instruction), args, fvs)
	mk := fmt.Sprintf("%d|%s", nf.id, st.sig())
	if m, ok := fl.memo[mk]; ok {
		return m
	}
	outer := st.defers
	st2 := st.clone()
	outs := fl.body(nf, st2)
	var res []*FState
	ds := map[string]bool{}
	pre := fmt.Sprintf(":%d:", nf.id)
	for _, o := range outs {
		n := o.st.clone()
		n.defers = outer
		// forget the callee's own conditions and cells
		for f := range n.facts {
			if strings.Contains(f, pre) {
				delete(n.facts, f)
			}
		}
		for f := range n.env {
			if strings.Contains(f, pre) && !strings.HasPrefix(f, "cell:a"+pre) {
				delete(n.env, f)
			}
		}
		if k != "" {
			if len(o.ret) == 1 && atomic(o.ret[0]) {
				n.env[k] = o.ret[0]
			} else {
				for i, r := range o.ret {
					if atomic(r) {
						n.env[fmt.Sprintf("%s#%d", k, i)] = r
					}
				}
			}
		}
		if !ds[n.sig()] {
			ds[n.sig()] = true
			res = append(res, n)
		}
	}
	if len(res) > 1 && fl.steps > coarseAfter {
		res = joinOuts(res)
	}
	fl.memo[mk] = res
	return res
}

func (fl *Flow) inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	pk := f.Package()
	if pk == nil {
		if o := f.Origin(); o != nil {
			pk = o.Package()
		}
	}
	if pk == nil {
		return f.Synthetic != "" && strings.Contains(f.String(), repoModule)
	}
	return strings.HasPrefix(pk.Pkg.Path(), repoModule)
}

func (fl *Flow) runDefers(fr *frame, st *FState) []*FState {
	cur := []*FState{st}
	for {
		var next []*FState
		more := false
		for _, s := range cur {
			n := len(s.defers)
			if n == 0 || s.defers[n-1].fr != fr {
				next = append(next, s)
				continue
			}
			more = true
			d := s.defers[n-1]
			s = s.clone()
			s.defers = s.defers[:n-1]
			callee := d.in.Call.StaticCallee()
			args := d.args
			if callee == nil {
				if cl := fl.closures[d.fn]; cl != nil {
					callee = cl.fn
				}
			}
			next = append(next, fl.invoke(fr, s, d.in, callee, args, d.fn, "")...)
		}
		cur = next
		if !more {
			return cur
		}
	}
}

// repoFuncs lists the source functions of one package of the repository.
func (p *Program) pkgFuncs(rel string) []*ssa.Function {
	rp := p.Pkgs[rel]
	if rp == nil {
		return nil
	}
	var out []*ssa.Function
	for _, f := range p.funcs {
		o := f
		for o.Parent() != nil {
			o = o.Parent()
		}
		if o.Package() == rp.SSA && (o.Synthetic == "" || o.Name() == "init") {
			out = append(out, f)
		}
	}
	return out
}

// staticCallers counts the static uses of every function.
func (p *Program) calledFuncs() map[*ssa.Function]int {
	m := map[*ssa.Function]int{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						m[g]++
					}
				}
			}
		}
	}
	return m
}

// coarseAfter is the number of steps after which states with the same
// typestate are joined.
const coarseAfter = 800000

// joinOuts keeps one state per typestate, with what all of them agree on.
func joinOuts(in []*FState) []*FState {
	var out []*FState
	at := map[string]int{}
	for _, s := range in {
		t := s.clone()
		t.facts, t.env, t.sigc = map[string]bool{}, map[string]string{}, ""
		k := t.sig()
		i, ok := at[k]
		if !ok {
			at[k] = len(out)
			out = append(out, s.clone())
			continue
		}
		o := out[i]
		for f, v := range o.facts {
			if w, ok := s.facts[f]; !ok || w != v {
				delete(o.facts, f)
			}
		}
		for f, v := range o.env {
			if w, ok := s.env[f]; !ok || w != v {
				delete(o.env, f)
			}
		}
		o.sigc = ""
	}
	return out
}
