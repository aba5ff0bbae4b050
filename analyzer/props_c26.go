package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C26: cancelling always returns.

func init() {
	checks["C26"] = Check{
		run:   runC26,
		level: "other",
		expl:  "Enumerates every channel and every blocking channel operation of the library and decides the protocol each follows: a completion channel is received from exactly as often as it is sent to on every path, a work channel is closed on every path before its receivers are waited for and sends to it give up when the context of the receivers is done. Workers may stop early only because of cancellation, and every function that waits reports the cancellation.",
		assum: []string{
			"a context handed in by the user follows the contract of package context",
			"loops over tiles, layers and rows end (C03 for decoding; the tile size is positive)",
			"mutexes do not block for ever (C27)",
		},
	}
}

type chanOp struct {
	in     ssa.Instruction
	fn     *ssa.Function
	kind   string // send, recv, close
	sel    *ssa.Select
	state  int
	defer_ bool
}

// chanOps follows a channel through variables, closures and calls.
func chanOps(mk ssa.Value) (ops []chanOp, unknown ssa.Instruction) {
	seen := map[ssa.Value]bool{}
	var follow func(v ssa.Value)
	cell := func(v ssa.Value) {}
	follow = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.ChangeType:
				follow(x)
			case *ssa.Phi:
				follow(x)
			case *ssa.Send:
				if x.Chan == v {
					ops = append(ops, chanOp{in: x, fn: x.Parent(), kind: "send"})
				} else {
					unknown = x
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					ops = append(ops, chanOp{in: x, fn: x.Parent(), kind: "recv"})
				}
			case *ssa.Select:
				for i, s := range x.States {
					if s.Chan == v {
						k := "recv"
						if s.Dir == types.SendOnly {
							k = "send"
						}
						ops = append(ops, chanOp{in: x, fn: x.Parent(), kind: k, sel: x, state: i})
					} else if s.Send == v {
						unknown = x
					}
				}
			case *ssa.Store:
				if x.Val == v {
					cell(x.Addr)
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						follow(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			case ssa.CallInstruction:
				c := x.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					if b.Name() == "close" {
						_, d := x.(*ssa.Defer)
						ops = append(ops, chanOp{in: x, fn: x.Parent(), kind: "close", defer_: d})
					}
					continue
				}
				t := c.StaticCallee()
				if t == nil || t.Blocks == nil {
					unknown = x
					continue
				}
				for i, a := range c.Args {
					if a == v && i < len(t.Params) {
						follow(t.Params[i])
					}
				}
			case *ssa.BinOp, *ssa.DebugRef:
			default:
				unknown = ref
			}
		}
	}
	var cells func(a ssa.Value)
	cells = func(a ssa.Value) {
		if seen[a] || a.Referrers() == nil {
			return
		}
		seen[a] = true
		for _, ref := range *a.Referrers() {
			switch x := ref.(type) {
			case *ssa.UnOp:
				follow(x)
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == a {
						cells(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			case *ssa.Store:
				if x.Addr != a {
					unknown = x
				}
			case *ssa.DebugRef:
			default:
				unknown = ref
			}
		}
	}
	cell = func(a ssa.Value) {
		switch a.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			cells(a)
		default:
			if in, ok := a.(ssa.Instruction); ok {
				unknown = in
			}
		}
	}
	follow(mk)
	return
}

// resolveUp finds the value a parameter or captured variable stands for where the function is created or started.
func (w *waitFacts) resolveUp(v ssa.Value, depth int) ssa.Value {
	v = rootObj(v)
	if depth > 8 {
		return v
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fv, ok := u.X.(*ssa.FreeVar); ok {
			b := w.binding(fv)
			if b == nil {
				return v
			}
			if s := onlyStore(b); s != nil {
				return w.resolveUp(s, depth+1)
			}
			if al, ok := b.(*ssa.FreeVar); ok {
				if bb := w.binding(al); bb != nil {
					if s := onlyStore(bb); s != nil {
						return w.resolveUp(s, depth+1)
					}
					return bb
				}
			}
			return b
		}
	}
	switch x := v.(type) {
	case *ssa.FreeVar:
		if b := w.binding(x); b != nil {
			return w.resolveUp(b, depth+1)
		}
	case *ssa.Alloc:
		if s := onlyStore(x); s != nil {
			return w.resolveUp(s, depth+1)
		}
	}
	return v
}

func (w *waitFacts) binding(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	if f.Parent() == nil {
		return nil
	}
	var out ssa.Value
	instrs(f.Parent(), func(in ssa.Instruction) {
		if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
			for i, q := range f.FreeVars {
				if q == fv {
					out = mc.Bindings[i]
				}
			}
		}
	})
	return out
}

// ctxChain lists the context and those it is derived from.
func (w *waitFacts) ctxChain(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	for i := 0; i < 8; i++ {
		v = w.resolveUp(v, 0)
		out = append(out, v)
		ex, ok := v.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			return out
		}
		c, ok := ex.Tuple.(*ssa.Call)
		if !ok || !methodIs(&c.Call, "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause") {
			return out
		}
		v = c.Call.Args[0]
	}
	return out
}

func related(a, b []ssa.Value) bool {
	for _, x := range a {
		if x == b[0] {
			return true
		}
	}
	for _, x := range b {
		if x == a[0] {
			return true
		}
	}
	return false
}

// doneCtx: the channel is the Done channel of a context.
func doneCtx(ch ssa.Value) ssa.Value {
	c, ok := rootObj(ch).(*ssa.Call)
	if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Done" {
		return nil
	}
	if n, ok := c.Call.Value.Type().(*types.Named); !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "context" {
		return nil
	}
	return c.Call.Value
}

// selEdge is the block and successor taken when a select chose a state.
func selEdge(sel *ssa.Select, state int) (b, s *ssa.BasicBlock) {
	for _, ref := range *sel.Referrers() {
		ex, ok := ref.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		for _, r2 := range *ex.Referrers() {
			cmp, ok := r2.(*ssa.BinOp)
			if !ok || cmp.Op != token.EQL {
				continue
			}
			k, ok := cmp.Y.(*ssa.Const)
			if !ok || int(k.Int64()) != state {
				continue
			}
			for _, r3 := range *cmp.Referrers() {
				if ifi, ok := r3.(*ssa.If); ok {
					return ifi.Block(), ifi.Block().Succs[0]
				}
			}
		}
	}
	return nil, nil
}

// pathCount bounds how many of the marked places a path from the start passes.
func pathCount(f *ssa.Function, start *ssa.BasicBlock, from int, at map[ssa.Instruction]bool, edges map[[2]int]bool) doneCount {
	own := func(b *ssa.BasicBlock, from int) int {
		n := 0
		for _, in := range b.Instrs[from:] {
			if at[in] {
				n++
			}
		}
		return n
	}
	const inf = 1 << 20
	min := make([]int, len(f.Blocks))
	max := make([]int, len(f.Blocks))
	for i := range min {
		min[i], max[i] = inf, -1
	}
	r := doneCount{inf, 0}
	push := func(b *ssa.BasicBlock, mn, mx int) bool {
		ch := false
		for _, s := range b.Succs {
			e := 0
			if edges[[2]int{b.Index, s.Index}] {
				e = 1
			}
			n := own(s, 0)
			if v := mn + e + n; v < min[s.Index] {
				min[s.Index] = v
				ch = true
			}
			v := mx + e + n
			if v > 1000 {
				v = 1000
			}
			if v > max[s.Index] {
				max[s.Index] = v
				ch = true
			}
		}
		return ch
	}
	n0 := own(start, from)
	if _, ok := start.Instrs[len(start.Instrs)-1].(*ssa.Return); ok {
		return doneCount{n0, n0}
	}
	push(start, n0, n0)
	for round := 0; round < 1100; round++ {
		ch := false
		for _, b := range f.Blocks {
			if max[b.Index] >= 0 {
				ch = push(b, min[b.Index], max[b.Index]) || ch
			}
		}
		if !ch {
			break
		}
	}
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && max[b.Index] >= 0 {
			if min[b.Index] < r.min {
				r.min = min[b.Index]
			}
			if max[b.Index] > r.max {
				r.max = max[b.Index]
			}
		}
	}
	return r
}

// nilEdges are the edges on which v is known to be nil.
func nilEdges(f *ssa.Function, is func(ssa.Value) bool) map[[2]int]bool {
	out := map[[2]int]bool{}
	for _, b := range f.Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.EQL && c.Op != token.NEQ {
			continue
		}
		isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.IsNil() }
		if !(is(c.X) && isNil(c.Y) || is(c.Y) && isNil(c.X)) {
			continue
		}
		s := 0
		if c.Op == token.NEQ {
			s = 1
		}
		if b.Succs[0] != b.Succs[1] {
			out[[2]int{b.Index, b.Succs[s].Index}] = true
		}
	}
	return out
}

// errorReturn: the last result is certainly an error, or one of the given values.
func errorReturn(r *ssa.Return, is func(ssa.Value) bool) bool {
	if len(r.Results) == 0 {
		return false
	}
	v := resultVal(r, len(r.Results)-1)
	if !isErrorType(v.Type()) {
		return false
	}
	return certainError(v, is, 0)
}

func certainError(v ssa.Value, is func(ssa.Value) bool, d int) bool {
	if is(v) {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global)
		return ok && x.Op == token.MUL
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if methodIs(&x.Call, "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf") {
			return true
		}
		if methodIs(&x.Call, "github.com/pkg/errors.Wrap", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.Wrapf") {
			return certainError(x.Call.Args[0], is, d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !certainError(e, is, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// abortOnly: the function fails only when the context given as parameter is done.
type abortCalc struct {
	w    *waitFacts
	memo map[*ssa.Function]int // 0 unknown, 1 yes, 2 no
}

func (a *abortCalc) only(f *ssa.Function) bool {
	switch a.memo[f] {
	case 1:
		return true
	case 2:
		return false
	}
	if f.Blocks == nil {
		a.memo[f] = 2
		return false
	}
	a.memo[f] = 1
	ok := true
	wt := a.w.waits(f) >= 0 && !callsAdd(f)
	var origin func(v ssa.Value, b *ssa.BasicBlock, d int) bool
	origin = func(v ssa.Value, b *ssa.BasicBlock, d int) bool {
		if d > 8 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Const:
			return x.IsNil()
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !origin(e, b, d+1) {
					return false
				}
			}
			return true
		case *ssa.Extract:
			return origin(x.Tuple, b, d+1)
		case *ssa.Call:
			if t := x.Call.StaticCallee(); t != nil && t.Blocks != nil && hasCtx(t) {
				return a.only(t)
			}
			if x.Call.IsInvoke() && x.Call.Method.Name() == "Err" {
				return true
			}
			return false
		case *ssa.UnOp:
			if _, g := x.X.(*ssa.Global); g && b != nil {
				// only where the context is done
				for _, blk := range f.Blocks {
					for _, in := range blk.Instrs {
						sel, ok := in.(*ssa.Select)
						if !ok {
							continue
						}
						for i, s := range sel.States {
							if s.Dir == types.RecvOnly && doneCtx(s.Chan) != nil {
								if _, to := selEdge(sel, i); to != nil && len(to.Preds) == 1 && to.Dominates(b) {
									return true
								}
							}
						}
					}
				}
				// or after the context's error was seen
				is := func(v ssa.Value) bool {
					c, ok := v.(*ssa.Call)
					return ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Err"
				}
				for e := range nilEdges(f, is) {
					from := f.Blocks[e[0]]
					for _, s := range from.Succs {
						if s.Index != e[1] && len(s.Preds) == 1 && s.Dominates(b) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !is || len(ret.Results) == 0 {
			continue
		}
		v := resultVal(ret, len(ret.Results)-1)
		if !isErrorType(v.Type()) || !origin(v, b, 0) {
			ok = false
		}
	}
	_ = wt
	if !ok {
		a.memo[f] = 2
	}
	return ok
}

func hasCtx(f *ssa.Function) bool {
	for _, q := range f.Params {
		if isCtx(q.Type()) {
			return true
		}
	}
	return false
}

func isCtx(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && n.Obj().Name() == "Context"
}

func ctxArg(c *ssa.CallCommon) ssa.Value {
	for _, a := range c.Args {
		if isCtx(a.Type()) {
			return a
		}
	}
	return nil
}

func isBackground(v ssa.Value) bool {
	c, ok := rootObj(v).(*ssa.Call)
	return ok && methodIs(&c.Call, "context.Background", "context.TODO")
}

func runC26(ctx *Ctx, r *Report) {
	p := ctx.prog("linux-amd64")
	w := &waitFacts{p: p, memo: map[*ssa.Function]int{}}
	dc := &doneCalc{memo: map[*ssa.Function]doneCount{}, busy: map[*ssa.Function]bool{}}
	ab := &abortCalc{w: w, memo: map[*ssa.Function]int{}}
	handled := map[ssa.Instruction]bool{}
	lossy := map[*ssa.Function]ssa.Instruction{} // launchers whose work may be cut short without the wait reporting it
	for _, f := range p.repoFuncs() {
		instrs(f, func(in ssa.Instruction) {
			mk, ok := in.(*ssa.MakeChan)
			if !ok {
				return
			}
			r.fn(fnLabel(f))
			ops, unk := chanOps(mk)
			if unk != nil {
				r.bad("channel-protocol", fnLabel(f), p.rel(unk.Pos()), "the channel made at %s is handed on in a way that cannot be followed", p.rel(mk.Pos()))
				return
			}
			for _, o := range ops {
				handled[o.in] = true
				r.fn(fnLabel(o.fn))
			}
			if c26Completion(p, r, w, f, mk, ops) {
				return
			}
			c26Work(p, r, w, ab, f, mk, ops, lossy)
		})
	}
	// every other blocking operation
	for _, f := range p.repoFuncs() {
		instrs(f, func(in ssa.Instruction) {
			blocking := false
			switch x := in.(type) {
			case *ssa.Send:
				blocking = true
			case *ssa.UnOp:
				blocking = x.Op == token.ARROW
			case *ssa.Select:
				blocking = x.Blocking
			}
			if !blocking {
				return
			}
			r.check(handled[in], "channel-protocol", fnLabel(f), p.rel(in.Pos()), "this operation may block for ever: the channel is none of the library's completion or work channels")
		})
	}
	// early ends of workers
	for _, f := range p.repoFuncs() {
		instrs(f, func(in ssa.Instruction) {
			g, ok := in.(*ssa.Go)
			if !ok {
				return
			}
			if t := goTarget(g); t != nil && t.Blocks != nil && dc.counts(t).max > 0 && inPkg(f, "composite") {
				c26Early(p, r, w, ab, f, t, g, lossy)
			}
		})
	}
	// waits report cancellation
	for _, f := range p.repoFuncs() {
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			t := c.Call.StaticCallee()
			if t == nil || t.Blocks == nil || !hasCtx(t) || t.Signature.Results().Len() == 0 {
				return
			}
			if !isErrorType(t.Signature.Results().At(t.Signature.Results().Len() - 1).Type()) {
				return
			}
			arg := ctxArg(&c.Call)
			if arg == nil || isBackground(arg) {
				return
			}
			r.fn(fnLabel(f))
			c26Reported(p, r, f, c)
		})
		if w.waits(f) >= 0 && hasCtx(f) && !callsAdd(f) {
			c26Helper(p, r, w, f)
		}
	}
	c26Flag(p, r)
	for f, in := range lossy {
		is := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Err" && isCtx(c.Call.Value.Type())
		}
		ev := &joinEvents{at: map[ssa.Instruction]bool{}, edges: nilEdges(f, is)}
		var wait ssa.Instruction
		for _, o := range addedGroups(f) {
			for x := range w.events(f, o).at {
				wait = x
			}
		}
		if wait == nil {
			r.bad("cut-short-reported", fnLabel(f), p.rel(in.Pos()), "work may be cut short here and nothing waits for it")
			continue
		}
		ret := ev.missingFrom(wait.Block(), indexOf(wait.Block(), wait)+1, func(x *ssa.Return) bool { return failing(x) })
		if ret != nil {
			r.bad("cut-short-reported", fnLabel(f), p.rel(ret.Pos()), "when cancellation at %s drops work this return still hands over the results: the context's error is not looked at after the wait", p.rel(in.Pos()))
		} else {
			r.ok("cut-short-reported")
			r.sample("%s: the context's error is looked at after the wait before results are handed over", fnLabel(f))
		}
	}
	r.atLeast("completion-channel", 1)
	r.atLeast("cancel-reported", 5)
	r.atLeast("wait-helper", 1)
	r.atLeast("early-end", 3)
}

func inPkg(f *ssa.Function, name string) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && f.Pkg.Pkg.Name() == name
}

// c26Completion decides the protocol of a channel a goroutine signals once.
func c26Completion(p *Program, r *Report, w *waitFacts, f *ssa.Function, mk *ssa.MakeChan, ops []chanOp) bool {
	var g *ssa.Go
	instrs(f, func(in ssa.Instruction) {
		if x, ok := in.(*ssa.Go); ok {
			for _, o := range append(addedGroups(f), paramsOf(f)...) {
				if ch := w.signals(x, o); ch != nil && rootObj(ch) == ssa.Value(mk) {
					g = x
				}
			}
		}
	})
	if g == nil {
		return false
	}
	t := goTarget(g)
	closes := false
	send := map[ssa.Instruction]bool{}
	at := map[ssa.Instruction]bool{}
	edges := map[[2]int]bool{}
	for _, o := range ops {
		switch {
		case o.fn == t && o.kind == "close":
			closes = true
		case o.fn == t && o.kind == "send" && o.sel == nil:
			send[o.in] = true
		case o.fn == f && o.kind == "recv" && o.sel == nil:
			at[o.in] = true
		case o.fn == f && o.kind == "recv":
			b, s := selEdge(o.sel, o.state)
			if b == nil {
				r.bad("completion-channel", fnLabel(f), p.rel(o.in.Pos()), "a select on the completion channel whose outcome is not looked at")
				return true
			}
			edges[[2]int{b.Index, s.Index}] = true
		default:
			r.bad("completion-channel", fnLabel(f), p.rel(o.in.Pos()), "the completion channel is used in another way here")
			return true
		}
	}
	if closes && len(send) == 0 {
		r.ok("completion-channel")
		return true
	}
	sc := pathCount(t, t.Blocks[0], 0, send, nil)
	rc := pathCount(f, g.Block(), indexOf(g.Block(), g)+1, at, edges)
	size := int64(0)
	if k, ok := mk.Size.(*ssa.Const); ok {
		size = k.Int64()
	}
	switch {
	case closes:
		r.ok("completion-channel")
	case rc.max > sc.min:
		r.bad("completion-channel", fnLabel(f), p.rel(g.Pos()), "a path receives %d times from the completion channel, which is sent to only %d times: it waits for ever", rc.max, sc.min)
	case int64(sc.max-rc.min) > size:
		r.bad("completion-channel", fnLabel(f), p.rel(g.Pos()), "a path receives only %d times from the completion channel, so the goroutine sending to it is blocked for ever", rc.min)
	default:
		r.ok("completion-channel")
		r.sample("%s: %d send and %d receives of the completion channel on every path", fnLabel(f), sc.max, rc.max)
	}
	return true
}

// c26Work decides the protocol of a channel that hands out work.
func c26Work(p *Program, r *Report, w *waitFacts, ab *abortCalc, f *ssa.Function, mk *ssa.MakeChan, ops []chanOp, lossy map[*ssa.Function]ssa.Instruction) {
	where := fnLabel(f)
	var gos []*ssa.Go
	instrs(f, func(in ssa.Instruction) {
		if g, ok := in.(*ssa.Go); ok {
			gos = append(gos, g)
		}
	})
	closeAt := map[ssa.Instruction]bool{}
	for _, o := range ops {
		if o.kind == "close" {
			if o.fn != f {
				r.bad("work-channel", fnLabel(o.fn), p.rel(o.in.Pos()), "the channel made in %s is closed here", where)
				return
			}
			if !o.defer_ {
				closeAt[o.in] = true
			}
		}
	}
	// receivers: workers of f
	early := false
	var wctx []ssa.Value
	for _, o := range ops {
		if o.kind != "recv" {
			continue
		}
		var g *ssa.Go
		for _, x := range gos {
			if goTarget(x) == o.fn {
				g = x
			}
		}
		if g == nil {
			r.bad("work-channel", fnLabel(o.fn), p.rel(o.in.Pos()), "a receive outside the goroutines %s starts", where)
			return
		}
		u, ok := o.in.(*ssa.UnOp)
		if !ok || !u.CommaOk {
			if o.sel == nil {
				r.bad("work-channel", fnLabel(o.fn), p.rel(o.in.Pos()), "a receive that does not notice that the channel is closed")
				return
			}
		}
		// closed before the workers are waited for and on every path
		ev := &joinEvents{at: closeAt, edges: map[[2]int]bool{}}
		if ret := ev.missingFrom(g.Block(), indexOf(g.Block(), g)+1, func(*ssa.Return) bool { return false }); ret != nil {
			r.bad("work-channel", where, p.rel(ret.Pos()), "a path from the start of the workers to this return does not close the channel they receive from: they are blocked for ever")
		} else {
			r.ok("work-channel")
		}
		for _, obj := range addedGroups(f) {
			for wi := range w.events(f, obj).at {
				// every path to the wait passes a close
				if pathAvoids(g, wi, closeAt) {
					r.bad("work-channel", where, p.rel(wi.Pos()), "the workers are waited for while the channel they receive from may still be open")
				} else {
					r.ok("work-channel")
				}
			}
		}
		if n := pathCount(f, g.Block(), indexOf(g.Block(), g)+1, closeAt, nil); n.max > 1 && n.max < 1000 {
			r.bad("work-channel", where, p.rel(mk.Pos()), "a path closes the channel twice")
		}
		if a := ctxArg(&g.Call); a != nil {
			wctx = w.ctxChain(a)
		} else if c := capturedCtx(o.fn, g); c != nil {
			wctx = w.ctxChain(c)
		}
		early = early || stopsEarly(o)
	}
	for _, o := range ops {
		if o.kind != "send" {
			continue
		}
		if !early {
			r.ok("work-channel")
			continue
		}
		if o.sel == nil {
			r.bad("work-channel", fnLabel(o.fn), p.rel(o.in.Pos()), "the receivers may stop before the channel is closed, and then this send blocks for ever")
			continue
		}
		ok := !o.sel.Blocking
		for i, s := range o.sel.States {
			if s.Dir != types.RecvOnly || i == o.state {
				continue
			}
			if c := doneCtx(s.Chan); c != nil && wctx != nil && related(w.ctxChain(c), wctx) {
				ok = true
			}
		}
		if r.check(ok, "work-channel", fnLabel(o.fn), p.rel(o.in.Pos()), "the receivers stop when their context is done, but this send does not give up then") {
			lossy[f] = o.in
		}
	}
}

func capturedCtx(t *ssa.Function, g *ssa.Go) ssa.Value {
	mc, ok := g.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return nil
	}
	for i, q := range t.FreeVars {
		ty := q.Type()
		if pt, ok := ty.(*types.Pointer); ok {
			ty = pt.Elem()
		}
		if isCtx(ty) {
			return mc.Bindings[i]
		}
	}
	return nil
}

// pathAvoids: wait can be reached from g without passing one of the places.
func pathAvoids(g, wait ssa.Instruction, at map[ssa.Instruction]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			if at[in] {
				return false
			}
			if in == wait {
				return true
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(g.Block(), indexOf(g.Block(), g)+1)
}

// stopsEarly: the receiver can return while the channel is open.
func stopsEarly(o chanOp) bool {
	u, ok := o.in.(*ssa.UnOp)
	if !ok {
		return true
	}
	// the edge taken when the channel is closed
	closed := map[[2]int]bool{}
	for _, ref := range *u.Referrers() {
		ex, ok := ref.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}
		for _, r2 := range *ex.Referrers() {
			if ifi, ok := r2.(*ssa.If); ok {
				closed[[2]int{ifi.Block().Index, ifi.Block().Succs[1].Index}] = true
			}
		}
	}
	ev := &joinEvents{at: map[ssa.Instruction]bool{}, edges: closed}
	return ev.missing(o.fn) != nil
}

// c26Early: a worker that stops before its work is done does so only when it is told to, or its context is done.
func c26Early(p *Program, r *Report, w *waitFacts, ab *abortCalc, f, t *ssa.Function, g *ssa.Go, lossy map[*ssa.Function]ssa.Instruction) {
	// errors of calls that end the worker
	for _, b := range t.Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.NEQ && cmp.Op != token.EQL {
			continue
		}
		k, ok := cmp.Y.(*ssa.Const)
		if !ok || !k.IsNil() || !isErrorType(cmp.X.Type()) {
			continue
		}
		s := b.Succs[0]
		if cmp.Op == token.EQL {
			s = b.Succs[1]
		}
		if !endsWorker(s) {
			continue
		}
		var call *ssa.Call
		switch x := cmp.X.(type) {
		case *ssa.Call:
			call = x
		case *ssa.Extract:
			call, _ = x.Tuple.(*ssa.Call)
		}
		if call == nil {
			r.bad("early-end", fnLabel(t), p.rel(ifi.Cond.Pos()), "the worker ends early because of an error of unknown origin, which nobody hears of")
			continue
		}
		if call.Call.IsInvoke() && call.Call.Method.Name() == "Err" && isCtx(call.Call.Value.Type()) {
			lossy[f] = call
			r.ok("early-end")
			continue
		}
		callee := call.Call.StaticCallee()
		a := ctxArg(&call.Call)
		if callee == nil || a == nil || !ab.only(callee) {
			r.bad("early-end", fnLabel(t), p.rel(call.Pos()), "the worker ends early when this call fails, for other reasons than cancellation: nobody hears of the error, and senders may be left blocked")
			continue
		}
		r.ok("early-end")
		if isBackground(a) {
			continue
		}
		lossy[f] = call
	}
	// the abort flag
	instrs(t, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil {
			return
		}
		if bt, ok := c.Type().(*types.Basic); ok && bt.Kind() == types.Bool && inPkg(c.Call.StaticCallee(), "composite") {
			for _, ref := range *c.Referrers() {
				ifi, ok := ref.(*ssa.If)
				if ok && (endsWorker(ifi.Block().Succs[0]) || endsWorker(ifi.Block().Succs[1])) {
					o := w.abortFlag(c)
					r.check(o != nil && o == passesRoot(g, t, c), "early-end", fnLabel(t), p.rel(c.Pos()), "the worker ends early on a condition that is not its launcher's abort flag")
				}
			}
		}
	})
}

// abortFlag: the call asks a structure that also carries the wait group.
func (w *waitFacts) abortFlag(c *ssa.Call) ssa.Value {
	if len(c.Call.Args) == 0 {
		return nil
	}
	return rootObj(c.Call.Args[0])
}

func passesRoot(g *ssa.Go, t *ssa.Function, c *ssa.Call) ssa.Value {
	o := rootObj(c.Call.Args[0])
	grp := addedGroups(g.Parent())
	for _, x := range grp {
		if v := passes(g, x); v != nil {
			if v == o {
				return o
			}
			if u, ok := o.(*ssa.UnOp); ok && u.X == v {
				return o
			}
		}
	}
	return nil
}

// endsWorker: the block leads straight to a return.
func endsWorker(b *ssa.BasicBlock) bool {
	for i := 0; i < 6; i++ {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return true
		}
		if len(b.Succs) != 1 {
			return false
		}
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.RunDefers, *ssa.Jump:
			default:
				return false
			}
		}
		b = b.Succs[0]
	}
	return false
}

// c26Reported: the error of a call that may be cancelled reaches the caller.
func c26Reported(p *Program, r *Report, f *ssa.Function, c *ssa.Call) {
	if f.Signature.Results().Len() == 0 {
		return // a worker; see early-end
	}
	var errs []ssa.Value
	n := c.Call.Signature().Results().Len()
	if n == 1 {
		errs = append(errs, c)
	} else {
		for _, ref := range *c.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok && ex.Index == n-1 {
				errs = append(errs, ex)
			}
		}
	}
	is := func(v ssa.Value) bool {
		for _, e := range errs {
			if v == e {
				return true
			}
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if a, ok := u.X.(*ssa.Alloc); ok {
					for _, ref := range *a.Referrers() {
						if s, ok := ref.(*ssa.Store); ok && s.Val == e {
							return true
						}
					}
				}
			}
		}
		return false
	}
	ev := &joinEvents{at: map[ssa.Instruction]bool{}, edges: nilEdges(f, is)}
	// handing all results on
	whole := func(x *ssa.Return) bool {
		return errorReturn(x, is)
	}
	ret := ev.missingFrom(c.Block(), indexOf(c.Block(), c)+1, whole)
	if ret != nil {
		r.bad("cancel-reported", fnLabel(f), p.rel(c.Pos()), "when this call reports that it was aborted, the return at %s may still report success", p.rel(ret.Pos()))
	} else {
		r.ok("cancel-reported")
	}
}

// c26Helper: where the context is done the helper reports an error.
func c26Helper(p *Program, r *Report, w *waitFacts, f *ssa.Function) {
	found := false
	instrs(f, func(in ssa.Instruction) {
		sel, ok := in.(*ssa.Select)
		if !ok {
			return
		}
		for i, s := range sel.States {
			if s.Dir != types.RecvOnly || doneCtx(s.Chan) == nil {
				continue
			}
			_, to := selEdge(sel, i)
			if to == nil {
				continue
			}
			found = true
			ev := &joinEvents{at: map[ssa.Instruction]bool{}, edges: map[[2]int]bool{}}
			ret := ev.missingFrom(to, 0, func(x *ssa.Return) bool { return errorReturn(x, func(ssa.Value) bool { return false }) })
			if ret != nil {
				r.bad("wait-helper", fnLabel(f), p.rel(ret.Pos()), "this return is reached when the context is done, and may report success")
			} else {
				r.ok("wait-helper")
			}
		}
	})
	if !found {
		// no select: the helper waits for the workers and must look at the context afterwards
		is := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Err" && isCtx(c.Call.Value.Type())
		}
		ev := &joinEvents{at: map[ssa.Instruction]bool{}, edges: nilEdges(f, is)}
		ret := ev.missingFrom(f.Blocks[0], 0, func(x *ssa.Return) bool { return errorReturn(x, is) })
		r.check(ret == nil, "wait-helper", fnLabel(f), p.rel(f.Pos()), "the helper waits without looking at its context: workers that were told to stop are reported as complete")
	}
}

// c26Flag: whoever tells the workers to stop reports that the operation was aborted.
func c26Flag(p *Program, r *Report) {
	setter := map[*ssa.Function]bool{}
	stores := func(in ssa.Instruction) bool {
		c := callCommon(in)
		if c == nil || c.StaticCallee() == nil || len(c.Args) == 0 {
			return false
		}
		t := c.StaticCallee()
		if t.Pkg == nil || t.Pkg.Pkg.Path() != "sync/atomic" {
			return false
		}
		n := t.Name()
		if !(len(n) >= 5 && n[:5] == "Store" || len(n) >= 4 && n[:4] == "Swap" || len(n) >= 7 && n[:7] == "Compare") {
			return false
		}
		_, ok := c.Args[0].(*ssa.FieldAddr)
		return ok
	}
	for _, f := range p.repoFuncs() {
		if inPkg(f, "composite") {
			instrs(f, func(in ssa.Instruction) {
				if stores(in) {
					setter[f] = true
				}
			})
		}
	}
	for _, f := range p.repoFuncs() {
		instrs(f, func(in ssa.Instruction) {
			c := callCommon(in)
			if c == nil {
				return
			}
			t := c.StaticCallee()
			direct := stores(in) && inPkg(f, "composite") && f.Signature.Results().Len() > 0
			if !direct && (t == nil || !setter[t]) {
				return
			}
			ev := &joinEvents{at: map[ssa.Instruction]bool{}, edges: map[[2]int]bool{}}
			ret := ev.missingFrom(in.Block(), indexOf(in.Block(), in)+1, func(x *ssa.Return) bool { return errorReturn(x, func(ssa.Value) bool { return false }) })
			r.check(ret == nil, "stop-reported", fnLabel(f), p.rel(in.Pos()), "the workers are told to stop here, but the function may still report success")
		})
	}
	r.atLeast("stop-reported", 1)
}
