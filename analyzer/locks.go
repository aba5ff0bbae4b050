package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isSync reports whether f is the named method of one of package sync's types.
func syncMethod(f *ssa.Function) (typ, name string, ok bool) {
	if f == nil {
		return
	}
	if o := f.Object(); o != nil {
		fo, isf := o.(*types.Func)
		if !isf || fo.Pkg() == nil || fo.Pkg().Path() != "sync" {
			return
		}
		sig := fo.Type().(*types.Signature)
		if sig.Recv() == nil {
			return
		}
		t := sig.Recv().Type()
		if p, isp := t.(*types.Pointer); isp {
			t = p.Elem()
		}
		if n, isn := t.(*types.Named); isn {
			return n.Obj().Name(), fo.Name(), true
		}
	}
	return
}

// lockClass names the lock a value refers to, independent of the instance.
func lockClass(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t := x.X.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n := types.TypeString(t, func(p *types.Package) string { return p.Name() })
		if _, ok := t.(*types.Named); !ok {
			return lockClass(x.X) + "." + fieldNameOf(x.X.Type(), x.Field)
		}
		return n + "." + fieldNameOf(x.X.Type(), x.Field)
	case *ssa.Global:
		return x.Name()
	case *ssa.Alloc:
		return "local " + x.Comment
	case *ssa.Parameter:
		return "param " + types.TypeString(x.Type(), nil)
	case *ssa.UnOp:
		return lockClass(x.X)
	case *ssa.FreeVar:
		return "captured " + x.Name()
	case *ssa.MakeInterface:
		return lockClass(x.X)
	}
	return "lock " + types.TypeString(v.Type(), nil)
}

type lockOp struct {
	acquire, try bool
	read         bool
}

func lockOpOf(c *ssa.CallCommon, callee *ssa.Function) (lockOp, bool) {
	name := ""
	if t, n, ok := syncMethod(callee); ok && (t == "Mutex" || t == "RWMutex") {
		name = n
	} else if c.IsInvoke() && c.Method.Pkg() != nil && c.Method.Pkg().Path() == "sync" {
		name = c.Method.Name()
	}
	switch name {
	case "Lock":
		return lockOp{acquire: true}, true
	case "RLock":
		return lockOp{acquire: true, read: true}, true
	case "Unlock":
		return lockOp{}, true
	case "RUnlock":
		return lockOp{read: true}, true
	case "TryLock":
		return lockOp{acquire: true, try: true}, true
	case "TryRLock":
		return lockOp{acquire: true, read: true, try: true}, true
	}
	return lockOp{}, false
}

// callGraph is a conservative call graph of the repository's functions.
type callGraph struct {
	p     *Program
	out   map[*ssa.Function][]*ssa.Function
	impls map[string][]*ssa.Function
}

func newCallGraph(p *Program) *callGraph {
	g := &callGraph{p: p, out: map[*ssa.Function][]*ssa.Function{}, impls: map[string][]*ssa.Function{}}
	addrTaken := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if f.Signature.Recv() != nil {
			g.impls[f.Name()] = append(g.impls[f.Name()], f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					fn, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, isc := in.(ssa.CallInstruction); isc && i == 0 && !c.Common().IsInvoke() {
						continue
					}
					addrTaken[fn] = true
				}
			}
		}
	}
	var taken []*ssa.Function
	for _, f := range p.funcs {
		if addrTaken[f] {
			taken = append(taken, f)
		}
	}
	for _, f := range p.funcs {
		seen := map[*ssa.Function]bool{}
		add := func(c *ssa.Function) {
			if c != nil && c.Blocks != nil && !seen[c] {
				seen[c] = true
				g.out[f] = append(g.out[f], c)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if cc.IsInvoke() {
					for _, m := range g.impls[cc.Method.Name()] {
						if types.Identical(m.Signature.Params(), cc.Method.Type().(*types.Signature).Params()) {
							add(m)
						}
					}
					continue
				}
				if s := cc.StaticCallee(); s != nil {
					add(s)
					for _, a := range cc.Args {
						if fa, ok := a.(*ssa.Function); ok {
							add(fa)
						}
					}
					continue
				}
				if _, isb := cc.Value.(*ssa.Builtin); isb {
					continue
				}
				for _, t := range taken {
					if types.Identical(t.Signature, cc.Signature()) {
						add(t)
					}
				}
			}
		}
	}
	return g
}

// reach lists everything reachable from fns without following go statements' boundaries specially.
func (g *callGraph) reach(fns ...*ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	work := append([]*ssa.Function{}, fns...)
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if m[f] {
			continue
		}
		m[f] = true
		work = append(work, g.out[f]...)
	}
	return m
}

// reaching lists the functions from which one of the targets can be reached.
func (g *callGraph) reaching(targets map[*ssa.Function]bool) map[*ssa.Function]bool {
	rev := map[*ssa.Function][]*ssa.Function{}
	for f, cs := range g.out {
		for _, c := range cs {
			rev[c] = append(rev[c], f)
		}
	}
	m := map[*ssa.Function]bool{}
	var w []*ssa.Function
	for t := range targets {
		w = append(w, t)
	}
	for len(w) > 0 {
		f := w[len(w)-1]
		w = w[:len(w)-1]
		if m[f] {
			continue
		}
		m[f] = true
		w = append(w, rev[f]...)
	}
	return m
}

// acquires lists the lock classes that may be taken by the functions.
func acquires(fns map[*ssa.Function]bool) map[string]bool {
	m := map[string]bool{}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if op, ok := lockOpOf(cc, cc.StaticCallee()); ok && op.acquire && !op.try {
						m[lockClass(lockRecv(cc))] = true
					}
				}
			}
		}
	}
	return m
}

func lockRecv(c *ssa.CallCommon) ssa.Value {
	if c.IsInvoke() {
		return c.Value
	}
	return c.Args[0]
}

type lockClient struct {
	r        *Report
	p        *Program
	edges    map[[2]string]string
	root     string
	mayAcq   map[*ssa.Function]map[string]bool
	g        *callGraph
	goAcq    map[string]bool
	sites    map[ssa.Instruction]bool
	badSites map[ssa.Instruction]bool
	rel      map[*ssa.Function]bool
	relB     map[*ssa.Function]bool
}

func (c *lockClient) held(st *FState) []string {
	var h []string
	for k := range st.ts {
		if strings.HasPrefix(k, "L:") {
			h = append(h, k)
		}
	}
	sort.Strings(h)
	return h
}

func (c *lockClient) at(in ssa.Instruction) string { return c.p.rel(in.Pos()) }

func (c *lockClient) fail(in ssa.Instruction, rule string, fr *frame, format string, a ...any) {
	c.badSites[in] = true
	c.r.bad(rule, fnName(in.Parent()), c.at(in), "%s (path %s)", fmt.Sprintf(format, a...), fr.stack())
}

func (c *lockClient) blocking(fr *frame, st *FState, in ssa.Instruction, what string) {
	for _, h := range c.held(st) {
		cls := strings.SplitN(st.ts[h], "|", 2)[0]
		if c.goAcq[cls] {
			c.fail(in, "wait-while-locked", fr, "%s while holding %s, which goroutines being waited for may take", what, cls)
		} else {
			c.r.ok("wait-while-locked")
		}
	}
}

func (c *lockClient) call(fl *Flow, fr *frame, st *FState, in ssa.CallInstruction, callee *ssa.Function, args []string) (bool, []*FState) {
	cc := in.Common()
	if op, ok := lockOpOf(cc, callee); ok {
		c.sites[in] = true
		k := "L:" + args[0]
		cls := lockClass(lockRecv(cc))
		mode := "W"
		if op.read {
			mode = "R"
		}
		if op.acquire {
			for _, h := range c.held(st) {
				hc := strings.SplitN(st.ts[h], "|", 3)
				if h == k {
					if !op.try {
						c.fail(in, "no-double-lock", fr, "%s is requested while the same goroutine holds it since %s", cls, hc[2])
					}
					continue
				}
				if !op.try {
					c.edges[[2]string{hc[0], cls}] = c.at(in) + " in " + fr.stack()
					if hc[0] == cls {
						c.fail(in, "no-double-lock", fr, "%s of another instance is requested while holding one of the same class since %s: the instances may be the same or taken in opposite order", cls, hc[2])
					}
				}
			}
			n := st.set(k, cls+"|"+mode+"|"+c.at(in))
			if op.try {
				key := fl.val(fr, st, in.(ssa.Value))
				a, b := fl.assume(fr, n, key, true), fl.assume(fr, st, key, false)
				return true, []*FState{a, b}
			}
			return true, []*FState{n}
		}
		cur, held := st.ts[k]
		if !held {
			c.fail(in, "unlock-held", fr, "%s is released without being held", cls)
			return true, []*FState{st}
		}
		if m := strings.SplitN(cur, "|", 3)[1]; m != mode {
			c.fail(in, "unlock-held", fr, "%s is released in mode %s but was taken in mode %s", cls, mode, m)
		}
		return true, []*FState{st.set(k, "")}
	}
	if t, n, ok := syncMethod(callee); ok {
		if t == "WaitGroup" && n == "Wait" || t == "Cond" && n == "Wait" {
			c.blocking(fr, st, in, "waiting for goroutines")
		}
		if t == "Once" && n == "Do" && len(args) > 1 {
			return false, nil
		}
	}
	return false, nil
}

func (c *lockClient) instr(fl *Flow, fr *frame, st *FState, in ssa.Instruction) *FState {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			c.blocking(fr, st, in, "receiving from a channel")
		}
	case *ssa.Send:
		c.blocking(fr, st, in, "sending to a channel")
	case *ssa.Select:
		if x.Blocking {
			c.blocking(fr, st, in, "selecting")
		}
	}
	return st
}

func (c *lockClient) spawn(fl *Flow, fr *frame, st *FState, in *ssa.Go, callee *ssa.Function, args []string) *FState {
	return st
}

func (c *lockClient) relevant(st *FState, f *ssa.Function) bool {
	return c.rel[f] || c.relB[f] && len(c.held(st)) > 0
}

func (c *lockClient) recursive(fl *Flow, fr *frame, st *FState, in ssa.CallInstruction, callee *ssa.Function) {
	hs := c.held(st)
	if len(hs) == 0 {
		return
	}
	if c.mayAcq[callee] == nil {
		c.mayAcq[callee] = acquires(c.g.reach(callee))
	}
	for _, h := range hs {
		hc := strings.SplitN(st.ts[h], "|", 3)
		for cls := range c.mayAcq[callee] {
			c.edges[[2]string{hc[0], cls}] = c.at(in) + " in " + fr.stack()
			if cls == hc[0] {
				c.fail(in, "no-double-lock", fr, "the recursive call may request %s, held since %s", cls, hc[2])
			}
		}
	}
}

// roots are the functions the analysis starts from: what is exported, spawned or otherwise not only called statically.
func (p *Program) roots(rel string) []*ssa.Function {
	static := map[*ssa.Function]bool{}
	other := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					fn, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					_, isCall := in.(*ssa.Call)
					_, isDefer := in.(*ssa.Defer)
					if (isCall || isDefer) && i == 0 {
						static[fn] = true
					} else if mc, ok := in.(*ssa.MakeClosure); ok && i == 0 {
						// called or deferred in place only?
						only := true
						for _, ref := range *mc.Referrers() {
							switch rr := ref.(type) {
							case *ssa.Call:
								only = only && rr.Call.Value == mc
							case *ssa.Defer:
								only = only && rr.Call.Value == mc
							case *ssa.DebugRef:
							default:
								only = false
							}
						}
						if only {
							static[fn] = true
						} else {
							other[fn] = true
						}
					} else {
						other[fn] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range p.pkgFuncs(rel) {
		if f.Name() == "init" {
			continue
		}
		exp := f.Object() != nil && f.Object().Exported()
		if exp || other[f] || !static[f] {
			out = append(out, f)
		}
	}
	return out
}

func init() {
	checks["C27"] = Check{level: "other", run: checkLocks,
		expl:  "Typestate analysis over the SSA form of every package: from every root (exported, spawned or address-taken function) callees and closures are inlined, locks are named by canonical access path, and the set of held locks is propagated along all paths including deferred calls. Obligations: at each function exit no lock is held that the root took; each release matches a lock held in the same mode; no lock is requested while held by the same goroutine (also through recursion); the order of lock classes is acyclic; no goroutine is waited for while a lock is held that spawned code may take; no value containing a lock is copied.",
		assum: []string{"locks reached through different access paths are different instances unless their class is the same, in which case nesting is reported", "code called through unknown function values takes none of the repository's locks"}}
}

func checkLocks(ctx *Ctx, r *Report) {
	for _, cfg := range []string{"linux-amd64", "js-wasm"} {
		p := ctx.prog(cfg)
		g := newCallGraph(p)
		var gos []*ssa.Function
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if gi, ok := in.(*ssa.Go); ok {
						if s := gi.Call.StaticCallee(); s != nil {
							gos = append(gos, s)
						} else if mc, ok := gi.Call.Value.(*ssa.MakeClosure); ok {
							gos = append(gos, mc.Fn.(*ssa.Function))
						}
					}
				}
			}
		}
		goAcq := acquires(g.reach(gos...))
		edges := map[[2]string]string{}
		sites := map[ssa.Instruction]bool{}
		badSites := map[ssa.Instruction]bool{}
		nroots := 0
		var rels []string
		for k := range p.Pkgs {
			rels = append(rels, k)
		}
		sort.Strings(rels)
		total := 0
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if _, ok := lockOpOf(c.Common(), c.Common().StaticCallee()); ok {
							total++
						}
					}
				}
			}
		}
		lockFns := map[*ssa.Function]bool{}
		blockFns := map[*ssa.Function]bool{}
		for _, f := range p.funcs {
			lk, bl := blocksOne(f)
			if lk {
				lockFns[f] = true
			}
			if bl {
				blockFns[f] = true
			}
		}
		relF, relB := g.reaching(lockFns), g.reaching(blockFns)
		for _, rel := range rels {
			for _, f := range p.roots(rel) {
				if !relF[f] {
					continue
				}
				nroots++
				lc := &lockClient{r: r, p: p, edges: edges, root: fnName(f), mayAcq: map[*ssa.Function]map[string]bool{}, g: g, goAcq: goAcq, rel: relF, relB: relB, sites: sites, badSites: badSites}
				fl := newFlow(p, lc)
				outs := fl.body(fl.newFrame(f, nil, nil, paramNames(f), nil), emptyFState())
				for v := range fl.visited {
					r.fn(fnName(v))
				}
				for _, o := range outs {
					hs := lc.held(o.st)
					if len(hs) == 0 {
						r.ok("released-at-exit")
					}
					for _, h := range hs {
						hc := strings.SplitN(o.st.ts[h], "|", 3)
						r.bad("released-at-exit", fnName(f), p.rel(o.in.Pos()), "%s, taken at %s, is still held when %s returns", hc[0], hc[2], fnName(f))
					}
				}
			}
		}
		// order
		adj := map[string][]string{}
		for e := range edges {
			adj[e[0]] = append(adj[e[0]], e[1])
		}
		for e, where := range edges {
			if e[0] != e[1] && reachStr(adj, e[1], e[0]) {
				r.bad("lock-order", e[0]+" then "+e[1], where, "%s is taken while %s is held, and elsewhere in the opposite order", e[1], e[0])
			} else {
				r.ok("lock-order")
				r.sample("lock order: %s before %s at %s", e[0], e[1], where)
			}
		}
		n := 0
		for s := range sites {
			if !badSites[s] {
				n++
			}
		}
		r.okN("lock-site", n)
		if len(sites) < total {
			for _, f := range p.funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(ssa.CallInstruction); ok {
							if _, ok := lockOpOf(c.Common(), c.Common().StaticCallee()); ok && !sites[in] {
								r.Notes = append(r.Notes, "lock site not reached by the analysis: "+p.rel(in.Pos()))
							}
						}
					}
				}
			}
		}
		checkLockCopies(p, r)
		r.count("roots_"+cfg, nroots)
		r.count("lock_sites_"+cfg, len(sites))
	}
	r.atLeast("lock-site", 20)
	r.atLeast("released-at-exit", 6)
}

// blocksOne reports whether f itself uses a lock, and whether it waits or communicates.
func blocksOne(f *ssa.Function) (locks, blocks bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				if _, ok := lockOpOf(x.Common(), x.Common().StaticCallee()); ok {
					locks = true
				}
				if _, n, ok := syncMethod(x.Common().StaticCallee()); ok && n == "Wait" {
					blocks = true
				}
			case *ssa.Send, *ssa.Select:
				blocks = true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					blocks = true
				}
			}
		}
	}
	return
}

func paramNames(f *ssa.Function) []string {
	var a []string
	for _, p := range f.Params {
		a = append(a, "$"+p.Name())
	}
	return a
}

func reachStr(adj map[string][]string, from, to string) bool {
	seen := map[string]bool{}
	w := []string{from}
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		if x == to {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		w = append(w, adj[x]...)
	}
	return false
}

// containsLock reports whether values of t embed a lock or wait group.
func containsLock(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		switch n.Obj().Name() {
		case "Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "Pool", "Map":
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if containsLock(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Array:
		return containsLock(u.Elem(), seen)
	}
	return false
}

func checkLockCopies(p *Program, r *Report) {
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.MUL || !containsLock(u.Type(), map[types.Type]bool{}) {
					continue
				}
				// a freshly built composite literal may be moved into place
				if a, ok := u.X.(*ssa.Alloc); ok && a.Comment == "complit" {
					continue
				}
				r.bad("no-lock-copy", fnName(f), p.rel(u.Pos()), "a value of type %s, which contains a lock, is copied", u.Type())
			}
		}
	}
}
