package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: workers signal completion exactly once, are joined before their
// results are used, and share nothing unsynchronised.

func init() {
	checks["C07"] = Check{
		run:   runC07,
		level: "other",
		expl:  "Counts the completion signals on every path of every goroutine body, checks that every path from a go statement to a return that uses results passes a wait that returns only after all workers signalled, computes the locks held at every access to maps, struct fields and captured variables reachable from goroutines started together (lockset analysis with canonical access paths), and finds accesses of the launching function between starting its workers and waiting for them.",
		assum: []string{
			"elements of slices and pixels are C06's matter: ranges handed to workers are disjoint",
			"standard library types and blend kernels synchronise as documented",
			"callbacks supplied by the user do not touch the package's internals",
		},
	}
}

// rootObj is the object an address, slice or pointer value belongs to.
func rootObj(v ssa.Value) ssa.Value {
	o, _ := rootField(v)
	return o
}

// rootField is the object and the field of it.
func rootField(v ssa.Value) (ssa.Value, string) {
	field := ""
	for i := 0; i < 40; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			field = fieldNameOf(x.X.Type(), x.Field)
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v, field
			}
			if s := onlyStore(x.X); s != nil {
				v = s
				continue
			}
			return v, field
		default:
			return v, field
		}
	}
	return v, field
}

// onlyStore is the value of a local variable that is assigned once.
func onlyStore(cell ssa.Value) ssa.Value {
	a, ok := cell.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var val ssa.Value
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr != a {
				return nil
			}
			if val != nil {
				return nil
			}
			val = x.Val
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == ssa.Value(a) && storesFree(f, i) {
					return nil
				}
			}
		default:
			return nil
		}
	}
	return val
}

func storesFree(f *ssa.Function, i int) bool {
	bad := false
	fv := f.FreeVars[i]
	for _, ref := range *fv.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			bad = true
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for j, b := range x.Bindings {
				if b == ssa.Value(fv) && storesFree(g, j) {
					bad = true
				}
			}
		}
	}
	return bad
}

// ---- completion signals

type doneCount struct{ min, max int } // max 1000: unbounded

type doneCalc struct {
	memo map[*ssa.Function]doneCount
	busy map[*ssa.Function]bool
}

// nilGuard: the block is the one taken when a parameter is nil.
func nilParamEdge(b *ssa.BasicBlock, succ int) bool {
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.EQL && c.Op != token.NEQ {
		return false
	}
	isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.IsNil() }
	isPar := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			return true
		}
		return false
	}
	if !(isPar(c.X) && isNil(c.Y) || isPar(c.Y) && isNil(c.X)) {
		return false
	}
	return (c.Op == token.EQL) == (succ == 0)
}

// counts gives how often f signals completion, at least and at most, on a path.
func (d *doneCalc) counts(f *ssa.Function) doneCount {
	if c, ok := d.memo[f]; ok {
		return c
	}
	if d.busy[f] || f.Blocks == nil {
		return doneCount{}
	}
	d.busy[f] = true
	defer delete(d.busy, f)
	own := make([]doneCount, len(f.Blocks))
	any := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c := d.instr(in)
			own[b.Index].min += c.min
			own[b.Index].max += c.max
			if c.max > 0 {
				any = true
			}
		}
	}
	if !any {
		d.memo[f] = doneCount{}
		return doneCount{}
	}
	// blocks in cycles that signal
	inCycle := func(b *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(x *ssa.BasicBlock) bool
		walk = func(x *ssa.BasicBlock) bool {
			for _, s := range x.Succs {
				if s == b {
					return true
				}
				if !seen[s] {
					seen[s] = true
					if walk(s) {
						return true
					}
				}
			}
			return false
		}
		return walk(b)
	}
	for i, c := range own {
		if c.max > 0 && inCycle(f.Blocks[i]) {
			own[i] = doneCount{0, 1000}
		}
	}
	// shortest and longest, by relaxation
	const inf = 1 << 20
	min := make([]int, len(f.Blocks))
	max := make([]int, len(f.Blocks))
	for i := range min {
		min[i], max[i] = inf, -1
	}
	min[0], max[0] = own[0].min, own[0].max
	for round := 0; round < 2*len(f.Blocks)+4; round++ {
		for _, b := range f.Blocks {
			if max[b.Index] < 0 {
				continue
			}
			for si, s := range b.Succs {
				if nilParamEdge(b, si) {
					continue
				}
				if m := min[b.Index] + own[s.Index].min; m < min[s.Index] {
					min[s.Index] = m
				}
				m := max[b.Index] + own[s.Index].max
				if m > 1000 {
					m = 1000
				}
				if m > max[s.Index] {
					max[s.Index] = m
				}
			}
		}
	}
	r := doneCount{inf, 0}
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && max[b.Index] >= 0 {
			if min[b.Index] < r.min {
				r.min = min[b.Index]
			}
			if max[b.Index] > r.max {
				r.max = max[b.Index]
			}
		}
	}
	if r.min == inf {
		r.min = 0
	}
	d.memo[f] = r
	return r
}

func (d *doneCalc) instr(in ssa.Instruction) doneCount {
	c := callCommon(in)
	if c == nil {
		return doneCount{}
	}
	if _, ok := in.(*ssa.Go); ok {
		return doneCount{}
	}
	if methodIs(c, "(*sync.WaitGroup).Done") {
		return doneCount{1, 1}
	}
	t := c.StaticCallee()
	if t == nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			t = mc.Fn.(*ssa.Function)
		}
	}
	if t == nil || t.Blocks == nil {
		return doneCount{}
	}
	return d.counts(t)
}

// effectful: the instruction can change something others see, or return results through shared memory.
func effectful(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Store:
		_, local := rootObj(x.Addr).(*ssa.Alloc)
		return !local
	case *ssa.MapUpdate, *ssa.Send:
		return true
	case *ssa.Call:
		return callEffect(&x.Call)
	}
	return false
}

func callEffect(c *ssa.CallCommon) bool {
	if methodIs(c, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Done") {
		return false
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name() == "delete" || b.Name() == "copy" || b.Name() == "append"
	}
	return true
}

// afterDone reports an effect that follows the completion signal.
func (d *doneCalc) afterDone(f *ssa.Function) ssa.Instruction {
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok || d.instr(in).max == 0 {
				continue
			}
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock, from int) ssa.Instruction
			walk = func(b *ssa.BasicBlock, from int) ssa.Instruction {
				for _, x := range b.Instrs[from:] {
					if d.instr(x).max == 0 && effectful(x) {
						return x
					}
				}
				for _, s := range b.Succs {
					if !seen[s] {
						seen[s] = true
						if r := walk(s, 0); r != nil {
							return r
						}
					}
				}
				return nil
			}
			if r := walk(b, i+1); r != nil {
				return r
			}
		}
	}
	// a function deferred before the signal runs after it
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			df, ok := in.(*ssa.Defer)
			if !ok || d.instr(in).max > 0 || !callEffect(&df.Call) {
				continue
			}
			for _, b2 := range f.Blocks {
				for i2, in2 := range b2.Instrs {
					if _, ok := in2.(*ssa.Defer); !ok || d.instr(in2).max == 0 {
						continue
					}
					if b == b2 && indexOf(b, in) < i2 || b != b2 && reaches(b, b2) {
						return in
					}
				}
			}
		}
	}
	return nil
}

func indexOf(b *ssa.BasicBlock, in ssa.Instruction) int {
	for i, x := range b.Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a)
}

// ---- waiting

// waitFacts knows which functions return only after a wait group's counter reached zero.
type waitFacts struct {
	p    *Program
	memo map[*ssa.Function]int // parameter index waited for, -1: none
}

// waitArg: the call waits for this wait group (or structure containing it).
func (w *waitFacts) waitArg(c *ssa.CallCommon) ssa.Value {
	if methodIs(c, "(*sync.WaitGroup).Wait") {
		return c.Args[0]
	}
	t := c.StaticCallee()
	if t == nil || t.Blocks == nil {
		return nil
	}
	if i := w.waits(t); i >= 0 && i < len(c.Args) {
		return c.Args[i]
	}
	return nil
}

// waits: every path of f to a return waits for the wait group of parameter i.
func (w *waitFacts) waits(f *ssa.Function) int {
	if i, ok := w.memo[f]; ok {
		return i
	}
	w.memo[f] = -1
	for i, prm := range f.Params {
		if _, ok := prm.Type().Underlying().(*types.Pointer); !ok {
			continue
		}
		if ev := w.events(f, prm); ev.any && ev.missing(f) == nil {
			w.memo[f] = i
			return i
		}
	}
	return -1
}

type joinEvents struct {
	any   bool
	at    map[ssa.Instruction]bool
	edges map[[2]int]bool
}

// events are the places in f after which the workers of obj have finished.
func (w *waitFacts) events(f *ssa.Function, obj ssa.Value) *joinEvents {
	ev := &joinEvents{at: map[ssa.Instruction]bool{}, edges: map[[2]int]bool{}}
	chans := map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c := callCommon(in)
			if c == nil {
				continue
			}
			if g, ok := in.(*ssa.Go); ok {
				if ch := w.signals(g, obj); ch != nil {
					chans[rootObj(ch)] = true
				}
				continue
			}
			if a := w.waitArg(c); a != nil && rootObj(a) == obj {
				ev.at[in] = true
				ev.any = true
			}
		}
	}
	if len(chans) == 0 {
		return ev
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && chans[rootObj(u.X)] {
				ev.at[in] = true
				ev.any = true
			}
		}
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL {
			continue
		}
		ex, ok := cmp.X.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		sel, ok := ex.Tuple.(*ssa.Select)
		k, isK := cmp.Y.(*ssa.Const)
		if !ok || !isK {
			continue
		}
		i := int(k.Int64())
		if i >= 0 && i < len(sel.States) && sel.States[i].Dir == types.RecvOnly && chans[rootObj(sel.States[i].Chan)] {
			ev.edges[[2]int{b.Index, b.Succs[0].Index}] = true
			ev.any = true
		}
	}
	return ev
}

// missing is a return of f that can be reached without a join.
func (ev *joinEvents) missing(f *ssa.Function) *ssa.Return {
	return ev.missingFrom(f.Blocks[0], 0, func(*ssa.Return) bool { return false })
}

func (ev *joinEvents) missingFrom(b *ssa.BasicBlock, from int, excused func(*ssa.Return) bool) *ssa.Return {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int, deferred bool) *ssa.Return
	walk = func(b *ssa.BasicBlock, from int, deferred bool) *ssa.Return {
		for _, in := range b.Instrs[from:] {
			if ev.at[in] {
				return nil // also when deferred: it runs before the function returns
			}
			if r, ok := in.(*ssa.Return); ok && !excused(r) {
				return r
			}
		}
		for _, s := range b.Succs {
			if ev.edges[[2]int{b.Index, s.Index}] || seen[s] {
				continue
			}
			seen[s] = true
			if r := walk(s, 0, deferred); r != nil {
				return r
			}
		}
		return nil
	}
	return walk(b, from, false)
}

// signals: the goroutine waits for obj and then sends on or closes a channel; it returns the channel.
func (w *waitFacts) signals(g *ssa.Go, obj ssa.Value) ssa.Value {
	t := goTarget(g)
	if t == nil || t.Blocks == nil {
		return nil
	}
	outer := func(v ssa.Value) ssa.Value { // value of the launcher
		v = rootObj(v)
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			v = u.X
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			for i, q := range t.Params {
				if q == x && i < len(g.Call.Args) {
					return rootObj(g.Call.Args[i])
				}
			}
		case *ssa.FreeVar:
			if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
				for i, q := range t.FreeVars {
					if q == x {
						b := mc.Bindings[i]
						if s := onlyStore(b); s != nil {
							return rootObj(s)
						}
						return rootObj(b)
					}
				}
			}
		}
		return nil
	}
	var ch ssa.Value
	ev := &joinEvents{at: map[ssa.Instruction]bool{}, edges: map[[2]int]bool{}}
	for _, b := range t.Blocks {
		for _, in := range b.Instrs {
			if c := callCommon(in); c != nil {
				if a := w.waitArg(c); a != nil && outer(a) == obj {
					if _, ok := in.(*ssa.Call); ok {
						ev.at[in] = true
					}
				}
			}
		}
	}
	if len(ev.at) == 0 {
		return nil
	}
	sig := map[ssa.Instruction]bool{}
	for _, b := range t.Blocks {
		for _, in := range b.Instrs {
			var c ssa.Value
			switch x := in.(type) {
			case *ssa.Send:
				c = x.Chan
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					c = x.Call.Args[0]
				}
			case *ssa.Defer:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					c = x.Call.Args[0]
				}
			}
			if c == nil {
				continue
			}
			o := outer(c)
			if o == nil || ch != nil && o != ch {
				return nil
			}
			ch = o
			sig[in] = true
		}
	}
	if ch == nil {
		return nil
	}
	// the wait comes before every signal; deferred signals come at the end
	for s := range sig {
		if _, ok := s.(*ssa.Defer); ok {
			if ev.missing(t) != nil {
				return nil
			}
			continue
		}
		ok := false
		for a := range ev.at {
			if a.Block() == s.Block() && indexOf(a.Block(), a) < indexOf(s.Block(), s) || a.Block() != s.Block() && a.Block().Dominates(s.Block()) {
				ok = true
			}
		}
		if !ok {
			return nil
		}
	}
	// and every path signals
	if (&joinEvents{at: sig}).missing(t) != nil {
		return nil
	}
	return ch
}

// failing: the return hands over no results, only an error.
func failing(r *ssa.Return) bool {
	if len(r.Results) == 0 {
		return false
	}
	last := resultVal(r, len(r.Results)-1)
	if !isErrorType(last.Type()) {
		return false
	}
	if k, ok := last.(*ssa.Const); ok && k.IsNil() {
		return false
	}
	if len(r.Results) == 1 {
		return false // results live in the arguments
	}
	for i := range r.Results[:len(r.Results)-1] {
		k, ok := resultVal(r, i).(*ssa.Const)
		if !ok {
			return false
		}
		if k.Value != nil && !isZeroConst(k) {
			return false
		}
	}
	return true
}

// resultVal is what the return hands over, also when results are kept in variables for deferred functions.
func resultVal(r *ssa.Return, i int) ssa.Value {
	v := r.Results[i]
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	b := r.Block()
	for n := 0; n < 8; n++ {
		for j := len(b.Instrs) - 1; j >= 0; j-- {
			if s, ok := b.Instrs[j].(*ssa.Store); ok && s.Addr == u.X {
				return s.Val
			}
		}
		if len(b.Preds) != 1 {
			break
		}
		b = b.Preds[0]
	}
	return v
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

func isZeroConst(k *ssa.Const) bool {
	s := k.Value.ExactString()
	return s == "0" || s == `""` || s == "false"
}

// ---- what a function touches through a parameter, captured variable

type touch struct{ read, write bool }

type touches map[string]touch // by field; "" for the object itself

func (t touches) add(f string, x touch) {
	o := t[f]
	t[f] = touch{o.read || x.read, o.write || x.write}
}

func (t touches) any() touch {
	var out touch
	for _, x := range t {
		out.read = out.read || x.read
		out.write = out.write || x.write
	}
	return out
}

// on gives what is done to field f.
func (t touches) on(f string) touch {
	if f == "" {
		return t.any()
	}
	a, b := t[f], t[""]
	return touch{a.read || b.read, a.write || b.write}
}

type touchCalc struct {
	memo map[ssa.Value]touches
	busy map[ssa.Value]bool
}

// of: what does the function do to the memory its parameter or captured variable refers to (maps and structs, not elements of slices)?
func (t *touchCalc) of(v ssa.Value) touches {
	if r, ok := t.memo[v]; ok {
		return r
	}
	if t.busy[v] {
		return touches{}
	}
	t.busy[v] = true
	out := touches{}
	merge := func(field string, r touches) {
		if field != "" {
			out.add(field, r.any())
			return
		}
		for f, x := range r {
			out.add(f, x)
		}
	}
	var follow func(v ssa.Value, field string)
	seen := map[ssa.Value]bool{}
	follow = func(v ssa.Value, field string) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.FieldAddr:
				f := field
				if f == "" {
					f = fieldNameOf(x.X.Type(), x.Field)
				}
				follow(x, f)
			case *ssa.IndexAddr:
				if _, arr := x.X.Type().Underlying().(*types.Pointer); arr {
					follow(x, field)
				}
			case *ssa.ChangeType, *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeInterface:
				follow(x.(ssa.Value), field)
			case *ssa.UnOp:
				if x.Op == token.MUL {
					out.add(field, touch{read: true})
					switch x.Type().Underlying().(type) {
					case *types.Map, *types.Pointer:
						if _, fld := v.(*ssa.FieldAddr); !fld {
							follow(x, field)
						} else if _, m := x.Type().Underlying().(*types.Map); m {
							follow(x, field)
						}
					}
				}
			case *ssa.Store:
				if x.Addr == v {
					out.add(field, touch{write: true})
				}
			case *ssa.MapUpdate:
				if x.Map == v {
					out.add(field, touch{write: true})
				}
			case *ssa.Lookup, *ssa.Range:
				out.add(field, touch{read: true})
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						merge(field, t.of(f.FreeVars[i]))
					}
				}
			case ssa.CallInstruction:
				c := x.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "delete", "clear":
						out.add(field, touch{write: true})
					case "len":
						if _, m := v.Type().Underlying().(*types.Map); m {
							out.add(field, touch{read: true})
						}
					}
					continue
				}
				f := c.StaticCallee()
				if f == nil || f.Blocks == nil {
					continue
				}
				if strings.HasPrefix(f.String(), "(*sync.") {
					continue
				}
				for i, a := range c.Args {
					if a == v && i < len(f.Params) {
						merge(field, t.of(f.Params[i]))
					}
				}
			}
		}
	}
	follow(v, "")
	delete(t.busy, v)
	t.memo[v] = out
	return out
}

// cellTouch: is the captured variable itself read or assigned?
func cellTouch(fv ssa.Value) touch {
	var out touch
	if fv.Referrers() == nil {
		return out
	}
	for _, ref := range *fv.Referrers() {
		switch x := ref.(type) {
		case *ssa.UnOp:
			out.read = true
		case *ssa.Store:
			if x.Addr == fv {
				out.write = true
			}
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == fv {
					r := cellTouch(g.FreeVars[i])
					out.read = out.read || r.read
					out.write = out.write || r.write
				}
			}
		}
	}
	return out
}

func runC07(ctx *Ctx, r *Report) {
	p := ctx.prog("linux-amd64")
	pf := collectPar(p)
	dc := &doneCalc{memo: map[*ssa.Function]doneCount{}, busy: map[*ssa.Function]bool{}}
	wf := &waitFacts{p: p, memo: map[*ssa.Function]int{}}
	tc := &touchCalc{memo: map[ssa.Value]touches{}, busy: map[ssa.Value]bool{}}
	fns := p.repoFuncs()
	for _, fn := range fns {
		var gos []*ssa.Go
		instrs(fn, func(in ssa.Instruction) {
			if g, ok := in.(*ssa.Go); ok {
				gos = append(gos, g)
			}
		})
		if len(gos) == 0 && !callsAdd(fn) {
			continue
		}
		r.fn(fnLabel(fn))
		checkJoin(p, r, pf, dc, wf, fn, gos)
		checkBetween(p, r, wf, tc, fn, gos)
	}
	r.atLeast("signals-once", 10)
	r.atLeast("joined", 10)
	r.atLeast("untouched-while-working", 10)
	checkShared(p, r)
}

// addedGroups are the wait groups fn adds to.
func addedGroups(fn *ssa.Function) []ssa.Value {
	var out []ssa.Value
	instrs(fn, func(in ssa.Instruction) {
		if c := callCommon(in); c != nil && methodIs(c, "(*sync.WaitGroup).Add") {
			o := rootObj(c.Args[0])
			for _, x := range out {
				if x == o {
					return
				}
			}
			out = append(out, o)
		}
	})
	return out
}

// passes: the go statement hands obj to the goroutine.
func passes(g *ssa.Go, obj ssa.Value) ssa.Value {
	t := goTarget(g)
	for i, a := range g.Call.Args {
		if rootObj(a) == obj && t != nil && i < len(t.Params) {
			return t.Params[i]
		}
	}
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		for i, b := range mc.Bindings {
			o := rootObj(b)
			if o == obj {
				return t.FreeVars[i]
			}
			if s := onlyStore(b); s != nil && rootObj(s) == obj {
				return t.FreeVars[i]
			}
		}
	}
	return nil
}

// signalsOn: the objects whose Done is called by f, as parameters or captured variables of f.
func doneObjs(f *ssa.Function, dc *doneCalc, depth int) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	if depth > 6 {
		return out
	}
	base := func(v ssa.Value) ssa.Value {
		o := rootObj(v)
		if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
			o = u.X
		}
		return o
	}
	instrs(f, func(in ssa.Instruction) {
		c := callCommon(in)
		if c == nil {
			return
		}
		if _, ok := in.(*ssa.Go); ok {
			return
		}
		if methodIs(c, "(*sync.WaitGroup).Done") {
			out[base(c.Args[0])] = true
			return
		}
		var t *ssa.Function
		var mc *ssa.MakeClosure
		if t = c.StaticCallee(); t == nil {
			if m, ok := c.Value.(*ssa.MakeClosure); ok {
				mc, t = m, m.Fn.(*ssa.Function)
			}
		} else if m, ok := c.Value.(*ssa.MakeClosure); ok {
			mc = m
		}
		if t == nil || t.Blocks == nil || t == f || dc.counts(t).max == 0 {
			return
		}
		for o := range doneObjs(t, dc, depth+1) {
			for i, q := range t.Params {
				if o == ssa.Value(q) && i < len(c.Args) {
					out[base(c.Args[i])] = true
				}
			}
			if mc != nil {
				for i, q := range t.FreeVars {
					if o == ssa.Value(q) {
						out[base(mc.Bindings[i])] = true
					}
				}
			}
		}
	})
	return out
}

func checkJoin(p *Program, r *Report, pf *parFacts, dc *doneCalc, wf *waitFacts, fn *ssa.Function, gos []*ssa.Go) {
	groups := addedGroups(fn)
	where := fnLabel(fn)
	// calls that do the work of a counted worker on the caller's goroutine
	instrs(fn, func(in ssa.Instruction) {
		c := callCommon(in)
		if c == nil || len(groups) == 0 {
			return
		}
		if _, ok := in.(*ssa.Go); ok {
			return
		}
		t := c.StaticCallee()
		if t == nil || t.Blocks == nil || dc.counts(t).max == 0 {
			return
		}
		checkDone(p, r, dc, t)
	})
	for _, g := range gos {
		t := goTarget(g)
		if t == nil {
			r.bad("joined", where, p.rel(g.Pos()), "the goroutine started here runs an unknown function")
			continue
		}
		r.fn(fnLabel(t))
		var grp, prm ssa.Value
		for _, o := range groups {
			if v := passes(g, o); v != nil && doneObjs(t, dc, 0)[v] {
				grp, prm = o, v
			}
		}
		if grp == nil {
			// a helper of the wait protocol?
			helper := false
			for _, o := range append(append([]ssa.Value{}, groups...), paramsOf(fn)...) {
				if ch := wf.signals(g, o); ch != nil {
					helper = true
				}
			}
			if r.check(helper, "joined", where, p.rel(g.Pos()), "nothing waits for the goroutine %s started here: it signals no wait group this function adds to", fnLabel(t)) {
				r.sample("%s: the goroutine signals a channel after waiting for the workers", where)
			}
			continue
		}
		_ = prm
		checkDone(p, r, dc, t)
		ev := wf.events(fn, grp)
		ret := ev.missingFrom(g.Block(), indexOf(g.Block(), g)+1, failing)
		if ret != nil {
			r.bad("joined", where, p.rel(g.Pos()), "the return at %s can be reached without waiting for the goroutine %s started here", p.rel(ret.Pos()), fnLabel(t))
		} else if r.check(ev.any, "joined", where, p.rel(g.Pos()), "nothing waits for the goroutine %s started here", fnLabel(t)) {
			r.sample("%s: every path from the start of %s waits for it", where, fnLabel(t))
		}
	}
}

func paramsOf(fn *ssa.Function) []ssa.Value {
	var out []ssa.Value
	for _, q := range fn.Params {
		out = append(out, q)
	}
	return out
}

func checkDone(p *Program, r *Report, dc *doneCalc, t *ssa.Function) {
	c := dc.counts(t)
	n := fnLabel(t)
	switch {
	case c.max > 1:
		r.bad("signals-once", n, p.rel(t.Pos()), "a path of %s signals completion more than once", n)
	case c.min < 1:
		r.bad("signals-once", n, p.rel(t.Pos()), "a path of %s returns without signalling completion", n)
	default:
		r.ok("signals-once")
	}
	if in := dc.afterDone(t); in != nil {
		r.bad("signals-last", n, p.rel(in.Pos()), "%s still does something here after it has signalled completion", n)
	} else {
		r.ok("signals-last")
	}
}

// checkBetween finds what the launching function does to shared objects while its workers run.
func checkBetween(p *Program, r *Report, wf *waitFacts, tc *touchCalc, fn *ssa.Function, gos []*ssa.Go) {
	groups := addedGroups(fn)
	for _, g := range gos {
		t := goTarget(g)
		if t == nil {
			continue
		}
		// objects handed over, and what the goroutine does to them
		type shared struct {
			obj  ssa.Value
			cell bool
			tch  touches
			name string
		}
		var objs []shared
		for i, a := range g.Call.Args {
			switch a.Type().Underlying().(type) {
			case *types.Map, *types.Pointer:
				if i < len(t.Params) {
					objs = append(objs, shared{rootObj(a), false, tc.of(t.Params[i]), t.Params[i].Name()})
				}
			}
		}
		if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
			for i, b := range mc.Bindings {
				tch := tc.of(t.FreeVars[i])
				if pt, ok := t.FreeVars[i].Type().Underlying().(*types.Pointer); ok {
					switch pt.Elem().Underlying().(type) {
					case *types.Map, *types.Pointer:
						// the variable and what it refers to
						obj := tch
						tch = touches{"": cellTouch(t.FreeVars[i])}
						if v := onlyStore(b); v != nil {
							objs = append(objs, shared{rootObj(v), false, obj, t.FreeVars[i].Name()})
						}
					}
				}
				objs = append(objs, shared{b, true, tch, t.FreeVars[i].Name()})
				if tch.any().write {
					// stores by several goroutines of one statement
					if reaches(g.Block(), g.Block()) && !freshIn(b, g) && !lockedStores(t, i) {
						r.bad("untouched-while-working", fnLabel(fn), p.rel(g.Pos()), "every goroutine started by this loop assigns the captured variable %s", t.FreeVars[i].Name())
					}
				}
			}
		}
		for _, o := range groups {
			_ = o
		}
		// events ending the parallel section
		ends := map[ssa.Instruction]bool{}
		for _, o := range append(append([]ssa.Value{}, groups...), paramsOf(fn)...) {
			for in := range wf.events(fn, o).at {
				if _, ok := in.(*ssa.Call); ok {
					ends[in] = true
				}
			}
		}
		seen := map[*ssa.BasicBlock]bool{}
		found := false
		visit := func(in ssa.Instruction) {
			var obj ssa.Value
			field, write := "", false
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.IndexAddr); ok {
					return
				}
				obj, field = rootField(x.Addr)
				write = true
			case *ssa.MapUpdate:
				obj, field = rootField(x.Map)
				write = true
			case *ssa.Lookup:
				obj, field = rootField(x.X)
			case *ssa.Range:
				obj, field = rootField(x.X)
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return
				}
				if _, ok := x.X.(*ssa.IndexAddr); ok {
					return
				}
				if a, ok := x.X.(*ssa.Alloc); ok {
					obj = a
				} else {
					obj, field = rootField(x.X)
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					obj, field = rootField(x.Call.Args[0])
					write = true
				}
			}
			if obj == nil {
				return
			}
			for _, s := range objs {
				if s.obj != obj {
					continue
				}
				// rereading a variable set once before is harmless
				if tch := s.tch.on(field); (write && (tch.read || tch.write)) || (!write && tch.write) {
					if write && s.cell && freshIn(s.obj, g) && !sameCellAfter(in, g) {
						continue
					}
					found = true
					verb := "reads"
					if write {
						verb = "changes"
					}
					r.bad("untouched-while-working", fnLabel(fn), p.rel(in.Pos()), "%s %s %s while the goroutine %s started at %s may use it", fnLabel(fn), verb, s.name, fnLabel(t), p.rel(g.Pos()))
				}
			}
		}
		var walk func(b *ssa.BasicBlock, from int)
		walk = func(b *ssa.BasicBlock, from int) {
			for _, in := range b.Instrs[from:] {
				if ends[in] {
					return
				}
				visit(in)
			}
			for _, s := range b.Succs {
				if !seen[s] {
					seen[s] = true
					walk(s, 0)
				}
			}
		}
		walk(g.Block(), indexOf(g.Block(), g)+1)
		if !found {
			r.ok("untouched-while-working")
		}
	}
}

// freshIn: the cell is allocated anew in every round of the loop the go statement is in.
func freshIn(cell ssa.Value, g *ssa.Go) bool {
	a, ok := cell.(*ssa.Alloc)
	if !ok {
		return false
	}
	// a block of the cycle through g that dominates g
	return a.Block().Dominates(g.Block()) && reaches(a.Block(), a.Block()) && reaches(g.Block(), a.Block())
}

// sameCellAfter: in comes after g before the cell is allocated again.
func sameCellAfter(in ssa.Instruction, g *ssa.Go) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return true
	}
	a, ok := rootObj(st.Addr).(*ssa.Alloc)
	if !ok {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for _, x := range b.Instrs[from:] {
			if x == ssa.Instruction(a) {
				return false
			}
			if x == in {
				return true
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(g.Block(), indexOf(g.Block(), g)+1)
}

// lockedStores: the goroutine assigns captured variable i only while holding a lock.
func lockedStores(t *ssa.Function, i int) bool {
	fv := t.FreeVars[i]
	for _, ref := range *fv.Referrers() {
		s, ok := ref.(*ssa.Store)
		if !ok {
			continue
		}
		held := false
		instrs(t, func(in ssa.Instruction) {
			if c := callCommon(in); c != nil {
				if op, ok := lockOpOf(c, c.StaticCallee()); ok && op.acquire && !op.read {
					if in.Block() == s.Block() && indexOf(in.Block(), in) < indexOf(s.Block(), s) || in.Block() != s.Block() && in.Block().Dominates(s.Block()) {
						held = true
					}
				}
			}
		})
		if !held {
			return false
		}
	}
	return true
}

// ---- locks held at accesses

type access struct {
	class, base string
	write       bool
	locks       map[string]bool // "class|mode|samebase"
	pos, stack  string
	in          ssa.Instruction
}

type raceClient struct {
	p     *Program
	acc   []*access
	rel   map[*ssa.Function]bool
	fresh map[string]bool
	root  *ssa.Function
	seen  map[string]bool
}

func (c *raceClient) call(fl *Flow, fr *frame, st *FState, in ssa.CallInstruction, callee *ssa.Function, args []string) (bool, []*FState) {
	cc := in.Common()
	if op, ok := lockOpOf(cc, callee); ok {
		k := "L:" + args[0]
		if op.acquire {
			mode := "W"
			if op.read {
				mode = "R"
			}
			return true, []*FState{st.set(k, lockClass(lockRecv(cc))+"|"+mode)}
		}
		return true, []*FState{st.set(k, "")}
	}
	if v, ok := in.(*ssa.Call); ok && callee != nil && returnsFresh(callee) {
		c.fresh[fl.key("r", fr, v)] = true
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear":
			c.mapAccess(fl, fr, st, in, cc.Args[0], true)
		case "len":
			if _, m := cc.Args[0].Type().Underlying().(*types.Map); m {
				c.mapAccess(fl, fr, st, in, cc.Args[0], false)
			}
		}
	}
	return false, nil
}

func (c *raceClient) spawn(fl *Flow, fr *frame, st *FState, in *ssa.Go, callee *ssa.Function, args []string) *FState {
	return st
}
func (c *raceClient) relevant(st *FState, f *ssa.Function) bool { return c.rel[f] }
func (c *raceClient) recursive(fl *Flow, fr *frame, st *FState, in ssa.CallInstruction, callee *ssa.Function) {
}

func typeLabel(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (c *raceClient) mapAccess(fl *Flow, fr *frame, st *FState, in ssa.Instruction, m ssa.Value, write bool) {
	path := fl.val(fr, st, m)
	class := "map " + typeLabel(m.Type()) + " " + lastField(path)
	c.record(fl, fr, st, in, path, class, ownerOf(path), write)
}

// returnsFresh: the only result of f is an object allocated by it.
func returnsFresh(f *ssa.Function) bool {
	if f.Blocks == nil || f.Signature.Results().Len() != 1 {
		return false
	}
	ok, n := true, 0
	instrs(f, func(in ssa.Instruction) {
		if r, is := in.(*ssa.Return); is {
			n++
			switch x := resultVal(r, 0).(type) {
			case *ssa.Alloc, *ssa.MakeMap:
				for _, ref := range *x.(ssa.Value).Referrers() {
					if s, is := ref.(*ssa.Store); is && s.Val == x.(ssa.Value) {
						ok = false
					}
				}
			default:
				ok = false
			}
		}
	})
	return ok && n > 0
}

// lastField of a.b*.c* is c.
func lastField(path string) string {
	s := strings.TrimRight(path, "*")
	if i := strings.LastIndex(s, "."); i >= 0 && !strings.HasSuffix(path, "]") && strings.HasSuffix(path, "*") {
		return s[i+1:]
	}
	return ""
}

func ownerOf(path string) string {
	s := strings.TrimRight(path, "*")
	if i := strings.LastIndex(s, "."); i >= 0 && strings.HasSuffix(path, "*") {
		return s[:i]
	}
	return path
}

func pathRoot(path string) string {
	if i := strings.IndexAny(path, "*[#"); i >= 0 {
		path = path[:i]
	}
	return path
}

func (c *raceClient) local(path string) bool {
	s := path
	for {
		if c.fresh[s] {
			return true
		}
		t := strings.TrimRight(s, "*")
		i := strings.LastIndexAny(t, ".[")
		if t != s && !c.fresh[t] {
			// what a fresh object's field refers to need not be fresh
			if i < 0 || !c.fresh[t[:i]] {
				s = t
				if i < 0 {
					return false
				}
				return false
			}
			return false
		}
		if i < 0 {
			return c.fresh[t]
		}
		s = t[:i]
	}
}

func (c *raceClient) localMap(fl *Flow, fr *frame, st *FState, m ssa.Value) bool {
	path := fl.val(fr, st, m)
	return c.local(path) || c.fresh[ownerOf(path)]
}

func (c *raceClient) record(fl *Flow, fr *frame, st *FState, in ssa.Instruction, path, class, owner string, write bool) {
	if c.local(path) {
		return
	}
	if strings.HasPrefix(class, "map ") && c.fresh[owner] {
		return
	}
	a := &access{class: class, base: owner, write: write, locks: map[string]bool{}, pos: c.p.rel(in.Pos()), stack: fr.stack(), in: in}
	var ls []string
	for k, v := range st.ts {
		if !strings.HasPrefix(k, "L:") {
			continue
		}
		f := strings.SplitN(v, "|", 2)
		lockBase := k[2:]
		if i := strings.LastIndex(lockBase, "."); i >= 0 {
			lockBase = lockBase[:i]
		}
		same := "other"
		if lockBase == owner {
			same = "same"
		}
		l := f[0] + "|" + f[1] + "|" + same
		a.locks[l] = true
		ls = append(ls, l)
	}
	sort.Strings(ls)
	key := class + "|" + a.pos + "|" + strings.Join(ls, ",")
	if write {
		key += "|w"
	}
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	c.acc = append(c.acc, a)
}

func (c *raceClient) instr(fl *Flow, fr *frame, st *FState, in ssa.Instruction) *FState {
	switch x := in.(type) {
	case *ssa.Alloc:
		c.fresh[fl.val(fr, st, x)] = true
	case *ssa.MakeMap:
		c.fresh[fl.val(fr, st, x)] = true
	case *ssa.Extract:
		// what is found in a map only this goroutine has
		if nx, ok := x.Tuple.(*ssa.Next); ok && !nx.IsString {
			if rg, ok := nx.Iter.(*ssa.Range); ok && c.localMap(fl, fr, st, rg.X) {
				c.fresh[fl.val(fr, st, x)] = true
			}
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 && c.localMap(fl, fr, st, lk.X) {
			c.fresh[fl.val(fr, st, x)] = true
		}
	case *ssa.MapUpdate:
		c.mapAccess(fl, fr, st, in, x.Map, true)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			c.mapAccess(fl, fr, st, in, x.X, false)
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			c.mapAccess(fl, fr, st, in, x.X, false)
		}
	case *ssa.Store:
		c.addr(fl, fr, st, in, x.Addr, true)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			c.addr(fl, fr, st, in, x.X, false)
		}
	}
	return st
}

func (c *raceClient) addr(fl *Flow, fr *frame, st *FState, in ssa.Instruction, a ssa.Value, write bool) {
	path := fl.val(fr, st, a)
	switch x := a.(type) {
	case *ssa.FieldAddr:
		c.record(fl, fr, st, in, path, typeLabel(x.X.Type())+"."+fieldNameOf(x.X.Type(), x.Field), fl.val(fr, st, x.X), write)
	case *ssa.Global:
		c.record(fl, fr, st, in, path, "variable "+x.Name(), path, write)
	case *ssa.FreeVar:
		c.record(fl, fr, st, in, path, "captured "+x.Name(), path, write)
	case *ssa.IndexAddr, *ssa.Alloc:
	default:
		// through a pointer found somewhere
		c.record(fl, fr, st, in, path, "value "+typeLabel(a.Type())+" "+lastField(path), path, write)
	}
}

// checkShared compares the locks held at the accesses of goroutines that run at the same time.
func checkShared(p *Program, r *Report) {
	g := newCallGraph(p)
	touchFns := map[*ssa.Function]bool{}
	for _, f := range p.repoFuncs() {
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				touchFns[f] = true
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					touchFns[f] = true
				}
			case *ssa.Store:
				_, own := rootObj(x.Addr).(*ssa.Alloc)
				if _, ok := x.Addr.(*ssa.IndexAddr); !ok && !own {
					touchFns[f] = true
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					touchFns[f] = true
				}
				if _, ok := lockOpOf(&x.Call, x.Call.StaticCallee()); ok {
					touchFns[f] = true
				}
			}
		})
	}
	rel := g.reaching(touchFns)
	type group struct {
		name  string
		roots []*ssa.Function
		api   map[*ssa.Function]bool
	}
	var groups []*group
	fns := p.repoFuncs()
	for _, fn := range fns {
		seen := map[*ssa.Function]bool{}
		gr := &group{name: fnLabel(fn)}
		instrs(fn, func(in ssa.Instruction) {
			if g, ok := in.(*ssa.Go); ok {
				if t := goTarget(g); t != nil && !seen[t] && t.Blocks != nil {
					seen[t] = true
					gr.roots = append(gr.roots, t)
				}
			}
		})
		if len(gr.roots) > 0 {
			groups = append(groups, gr)
		}
	}
	// types with a lock: their exported methods may be called at the same time
	byType := map[string]*group{}
	var names []string
	for _, fn := range fns {
		rc := fn.Signature.Recv()
		if rc == nil || fn.Object() == nil || !fn.Object().Exported() || fn.Parent() != nil {
			continue
		}
		pt, ok := rc.Type().(*types.Pointer)
		if !ok {
			continue
		}
		n, ok := pt.Elem().(*types.Named)
		if !ok || !n.Obj().Exported() || !hasLockField(n) {
			continue
		}
		gr := byType[n.Obj().Name()]
		if gr == nil {
			gr = &group{name: "methods of " + n.Obj().Name(), api: map[*ssa.Function]bool{}}
			byType[n.Obj().Name()] = gr
			names = append(names, n.Obj().Name())
		}
		gr.roots = append(gr.roots, fn)
		gr.api[fn] = true
		for f := range g.reach(fn) {
			instrs(f, func(in ssa.Instruction) {
				if s, ok := in.(*ssa.Go); ok {
					if t := goTarget(s); t != nil && t.Blocks != nil && f.Pkg == fn.Pkg {
						for _, x := range gr.roots {
							if x == t {
								return
							}
						}
						gr.roots = append(gr.roots, t)
					}
				}
			})
		}
	}
	sort.Strings(names)
	for _, n := range names {
		groups = append(groups, byType[n])
	}
	covered := func(gr *group) bool {
		for _, n := range names {
			in := map[*ssa.Function]bool{}
			for _, f := range byType[n].roots {
				in[f] = true
			}
			all := byType[n] != gr
			for _, f := range gr.roots {
				all = all && in[f]
			}
			if all {
				return true
			}
		}
		return false
	}
	for _, gr := range groups {
		if covered(gr) {
			continue
		}
		acc := map[string][]*access{}
		nroot := 0
		for _, root := range gr.roots {
			rc := &raceClient{p: p, rel: rel, fresh: map[string]bool{}, root: root, seen: map[string]bool{}}
			fl := newFlow(p, rc)
			fl.body(fl.newFrame(root, nil, nil, paramNames(root), nil), emptyFState())
			nroot++
			for v := range fl.visited {
				r.fn(fnLabel(v))
			}
			for _, a := range rc.acc {
				acc[a.class] = append(acc[a.class], a)
			}
		}
		var classes []string
		for c := range acc {
			classes = append(classes, c)
		}
		sort.Strings(classes)
		for _, cl := range classes {
			as := acc[cl]
			var w *access
			for _, a := range as {
				if a.write {
					w = a
				}
			}
			if w == nil {
				r.ok("only-read")
				continue
			}
			// locks common to all accesses
			var common map[string]bool
			for _, a := range as {
				set := map[string]bool{}
				for l := range a.locks {
					f := strings.Split(l, "|")
					if a.write && f[1] != "W" {
						continue
					}
					// a lock that belongs to the same type must be that of the same object
					if f[2] != "same" && lockOwnedBy(f[0], cl) {
						continue
					}
					set[f[0]] = true
				}
				if common == nil {
					common = set
					continue
				}
				for l := range common {
					if !set[l] {
						delete(common, l)
					}
				}
			}
			if len(common) > 0 {
				var ls []string
				for l := range common {
					ls = append(ls, l)
				}
				sort.Strings(ls)
				r.okN("common-lock", len(as))
				r.sample("%s: %d accesses to %s, all under %s", gr.name, len(as), cl, strings.Join(ls, ", "))
				continue
			}
			// report the access with the fewest locks
			b := as[0]
			for _, a := range as {
				if len(a.locks) < len(b.locks) || len(a.locks) == len(b.locks) && a.write && !b.write {
					b = a
				}
			}
			r.bad("common-lock", gr.name, b.pos, "no lock is held at all accesses to %s by goroutines that run at the same time: written at %s (%s), accessed at %s (%s)", cl, w.pos, w.stack, b.pos, b.stack)
		}
		r.count("concurrent_roots", nroot)
	}
	r.atLeast("common-lock", 10)
}

func hasLockField(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Type().String() {
		case "sync.Mutex", "sync.RWMutex":
			return true
		}
	}
	return false
}

// lockOwnedBy: lock "composite.cache.M" and class "composite.cache.Image".
func lockOwnedBy(lock, class string) bool {
	i := strings.LastIndex(lock, ".")
	if i < 0 {
		return false
	}
	return strings.HasPrefix(class, lock[:i]+".")
}
