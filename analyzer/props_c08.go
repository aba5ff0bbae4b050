package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: debug logging is optional and never changes the result.

func init() {
	checks["C08"] = Check{
		run:   runC08,
		level: "other",
		expl:  "Control and data dependence over SSA: every use of the debug logger (a package variable whose type only has printing methods, followed through local variables and parameters) is only reached when a test has found it non-nil; and whatever depends on such a test, on either side of it up to the point where the sides meet, only logs: it does not store outside of its own variables, call anything with an effect, return, or choose a value that is used elsewhere. Functions called there are analysed transitively, as are String and Error methods of values that are logged.",
		assum: []string{"the installed logger and its writer do not touch the document", "asking a reader for its position (a seek by zero from where it is) does not move it", "nobody replaces the logger while a document is decoded"},
	}
}

type dbgRun struct {
	p      *Program
	r      *Report
	fns    []*ssa.Function
	val    map[ssa.Value]bool // holds the logger
	isTest map[ssa.Value]bool // is true iff there is a logger (or iff there is none)
	side   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	region map[*ssa.BasicBlock]bool // reached only on one side of a test
	with   map[*ssa.BasicBlock]bool // reached only with a logger
	pureM  map[*ssa.Function]int
	only   map[*ssa.Function]bool // only called with a logger
}

func isLogger(t types.Type) bool {
	if t.String() == "*log.Logger" {
		return true
	}
	i, ok := t.Underlying().(*types.Interface)
	if !ok || i.NumMethods() == 0 {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		switch i.Method(k).Name() {
		case "Print", "Printf", "Println":
		default:
			return false
		}
	}
	return true
}

func runC08(ctx *Ctx, r *Report) {
	for _, cfg := range []string{"linux-amd64"} {
		p := ctx.prog(cfg)
		d := &dbgRun{p: p, r: r, val: map[ssa.Value]bool{}, isTest: map[ssa.Value]bool{}, region: map[*ssa.BasicBlock]bool{}, with: map[*ssa.BasicBlock]bool{}, pureM: map[*ssa.Function]int{}, only: map[*ssa.Function]bool{}}
		for _, f := range p.repoFuncs() {
			if f.Blocks != nil && !inPkg(f, "main") {
				d.fns = append(d.fns, f)
			}
		}
		d.run()
	}
	r.atLeast("guarded use", 20)
	r.atLeast("only logs", 20)
}

// loggerVar: the load of a package variable of the repository.
func (d *dbgRun) loggerVar(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || !isLogger(u.Type()) {
		return false
	}
	_, ok = u.X.(*ssa.Global)
	return ok
}

func (d *dbgRun) run() {
	// values
	for again := true; again; {
		again = false
		mark := func(v ssa.Value) {
			if !d.val[v] {
				d.val[v] = true
				again = true
			}
		}
		for _, f := range d.fns {
			instrs(f, func(in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.UnOp:
					if d.loggerVar(x) {
						mark(x)
					} else if x.Op == token.MUL && isLogger(x.Type()) {
						if a, ok := x.X.(*ssa.Alloc); ok && d.val[a] {
							mark(x)
						}
					}
				case *ssa.Phi:
					if isLogger(x.Type()) {
						for _, e := range x.Edges {
							if d.val[e] {
								mark(x)
							}
						}
					}
				case *ssa.Store:
					if d.val[x.Val] {
						if a, ok := x.Addr.(*ssa.Alloc); ok {
							mark(a)
						}
					}
				case ssa.CallInstruction:
					c := x.Common()
					if t := c.StaticCallee(); t != nil && t.Blocks != nil && d.inRepo(t) {
						for i, a := range c.Args {
							if d.val[a] && i < len(t.Params) {
								mark(t.Params[i])
							}
						}
					}
				}
			})
		}
	}
	// tests
	nonnil := map[ssa.Value]bool{}
	for _, f := range d.fns {
		instrs(f, func(in ssa.Instruction) {
			b, ok := in.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return
			}
			if d.val[b.X] && isNilC(b.Y) || d.val[b.Y] && isNilC(b.X) {
				d.isTest[b] = true
				nonnil[b] = b.Op == token.NEQ
			}
		})
	}
	type split struct {
		f          *ssa.Function
		b          *ssa.BasicBlock
		with, none map[*ssa.BasicBlock]bool
		meet       *ssa.BasicBlock
	}
	var splits []split
	for _, f := range d.fns {
		var pd map[*ssa.BasicBlock]*ssa.BasicBlock
		for _, b := range f.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cond, neg := i.Cond, false
			for {
				u, ok := cond.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				cond, neg = u.X, !neg
			}
			if !d.isTest[cond] {
				continue
			}
			if pd == nil {
				pd = postDoms(f)
			}
			s := split{f: f, b: b, meet: pd[b]}
			w, n := b.Succs[0], b.Succs[1]
			if nonnil[cond] == neg {
				w, n = n, w
			}
			s.with, s.none = between(w, s.meet), between(n, s.meet)
			splits = append(splits, s)
			for x := range s.with {
				d.region[x] = true
				if !s.none[x] {
					d.with[x] = true
				}
			}
			for x := range s.none {
				d.region[x] = true
			}
		}
		d.testUses(f)
	}
	// functions that are only called with a logger
	type site struct {
		in ssa.Instruction
		g  *ssa.Function
	}
	calls := map[*ssa.Function][]site{}
	asValue := map[*ssa.Function]bool{}
	for _, g := range d.fns {
		instrs(g, func(in ssa.Instruction) {
			c, isCall := in.(ssa.CallInstruction)
			if isCall {
				if t := c.Common().StaticCallee(); t != nil {
					calls[t] = append(calls[t], site{in, g})
				}
			}
			for _, o := range in.Operands(nil) {
				if t, ok := (*o).(*ssa.Function); ok && !(isCall && c.Common().Value == *o) {
					asValue[t] = true
				}
			}
		})
	}
	for again := true; again; {
		again = false
		for _, f := range d.fns {
			if d.only[f] || asValue[f] || len(calls[f]) == 0 || f.Object() != nil && f.Object().Exported() {
				continue
			}
			good := true
			for _, s := range calls[f] {
				good = good && (d.with[s.in.Block()] || d.only[s.g])
			}
			if good {
				d.only[f] = true
				again = true
			}
		}
	}
	// every use
	for _, f := range d.fns {
		used := false
		instrs(f, func(in ssa.Instruction) {
			st, isSt := in.(*ssa.Store)
			if isSt {
				if g, ok := st.Addr.(*ssa.Global); ok && isLogger(st.Val.Type()) && g.Pkg != nil && f.Name() != "init" {
					d.r.bad("logger kept", fnLabel(f), d.p.rel(posOf(in)), "the logger is replaced here")
				}
			}
			for _, o := range in.Operands(nil) {
				if *o == nil || !d.val[*o] {
					continue
				}
				switch x := in.(type) {
				case *ssa.BinOp, *ssa.Phi, *ssa.DebugRef, *ssa.UnOp:
					continue
				case *ssa.Store:
					if _, ok := x.Addr.(*ssa.Alloc); ok {
						continue
					}
					d.r.bad("logger kept", fnLabel(f), d.p.rel(posOf(in)), "the logger is stored here, where its uses cannot be followed")
				case ssa.CallInstruction:
					c := x.Common()
					t := c.StaticCallee()
					used = true
					if c.IsInvoke() && c.Value == *o && strings.HasPrefix(c.Method.Name(), "Print") {
						if _, ok := x.(*ssa.Call); ok {
							d.r.check(d.with[in.Block()] || d.only[f], "guarded use", fnLabel(f), d.p.rel(posOf(in)), "the logger is used here without having been tested")
							continue
						}
					}
					if t != nil && d.inRepo(t) {
						continue // followed as a parameter
					}
					if t == nil || len(c.Args) == 0 || c.Args[0] != *o || !logMethod(t) {
						d.r.bad("guarded use", fnLabel(f), d.p.rel(posOf(in)), "the logger is used here for something else than a message")
						continue
					}
					d.r.check(d.with[in.Block()] || d.only[f], "guarded use", fnLabel(f), d.p.rel(posOf(in)), "the logger is used here without having been tested")
				default:
					d.r.bad("logger kept", fnLabel(f), d.p.rel(posOf(in)), "the logger is kept here, where its uses cannot be followed")
				}
			}
		})
		if used {
			d.r.fn(fnLabel(f))
		}
	}
	// what depends on a test
	for _, s := range splits {
		d.r.count("tests of the logger", 1)
		good := true
		all := map[*ssa.BasicBlock]bool{}
		for b := range s.with {
			all[b] = true
		}
		for b := range s.none {
			all[b] = true
		}
		for _, b := range s.f.Blocks {
			if !all[b] {
				continue
			}
			for _, in := range b.Instrs {
				if why := d.effect(s.f, in); why != "" {
					good = false
					d.r.bad("only logs", fnLabel(s.f), d.p.rel(posOf(in)), "%s depends on whether there is a debug logger", why)
				}
			}
		}
		if s.meet != nil {
			for _, in := range s.meet.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				var one ssa.Value
				same := true
				for i, pr := range s.meet.Preds {
					if !all[pr] && pr != s.b {
						continue
					}
					if one == nil {
						one = ph.Edges[i]
					} else if one != ph.Edges[i] && !sameConst(one, ph.Edges[i]) {
						same = false
					}
				}
				if !same && !d.onlyForLog(ph, map[ssa.Value]bool{}) {
					good = false
					d.r.bad("only logs", fnLabel(s.f), d.p.rel(s.b.Instrs[len(s.b.Instrs)-1].(*ssa.If).Cond.Pos()), "the value of %s depends on whether there is a debug logger", ph.Comment)
				}
			}
		}
		if good {
			d.r.ok("only logs")
		}
	}
}

func (d *dbgRun) inRepo(f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/oov/psd")
}

func logMethod(f *ssa.Function) bool {
	switch f.String() {
	case "(*log.Logger).Println", "(*log.Logger).Printf", "(*log.Logger).Print", "(*log.Logger).Output":
		return true
	}
	return false
}

func isNilC(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

func constInt(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		return c.Value.ExactString()
	}
	return "?"
}

func sameConst(a, b ssa.Value) bool {
	x, ok := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok && ok2 && types.Identical(x.Type(), y.Type()) && x.String() == y.String()
}

// testUses: the outcome of the test decides branches and nothing else.
func (d *dbgRun) testUses(f *ssa.Function) {
	instrs(f, func(in ssa.Instruction) {
		v, ok := in.(ssa.Value)
		if !ok || !d.isTest[v] {
			return
		}
		var uses func(v ssa.Value)
		uses = func(v ssa.Value) {
			if v.Referrers() == nil {
				return
			}
			for _, u := range *v.Referrers() {
				switch x := u.(type) {
				case *ssa.If, *ssa.DebugRef:
				case *ssa.UnOp:
					uses(x)
				default:
					d.r.bad("only logs", fnLabel(f), d.p.rel(posOf(in)), "whether there is a debug logger is used as a value")
				}
			}
		}
		uses(v)
	})
}

// effect tells what an instruction does that can be noticed.
func (d *dbgRun) effect(f *ssa.Function, in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Return:
		if len(x.Results) > 0 {
			return "the end of the function with a result"
		}
	case *ssa.Store:
		if a := rootAlloc(x.Addr); a != nil && !a.Heap {
			if !d.allocForLog(a) {
				return "a change of a variable that is used elsewhere"
			}
			return ""
		} else if a != nil && d.allocForLog(a) {
			return ""
		}
		return "a change of memory"
	case *ssa.MapUpdate:
		return "a change of a map"
	case *ssa.Send:
		return "a send"
	case *ssa.Select:
		return "a select"
	case *ssa.Go:
		return "the start of a goroutine"
	case *ssa.Defer:
		return "a deferred call"
	case *ssa.RunDefers:
		// runs at every end
	case *ssa.Panic:
		return "a panic"
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return "a receive"
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return "a type assertion that may fail"
		}
	case *ssa.BinOp:
		if x.Op == token.QUO || x.Op == token.REM {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if _, ok := x.Y.(*ssa.Const); !ok {
					return "a division"
				}
			}
		}
	case *ssa.Call:
		return d.callEffect(x.Common())
	}
	return ""
}

func (d *dbgRun) callEffect(c *ssa.CallCommon) string {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "delete", "close", "clear", "panic":
			return "the builtin " + b.Name()
		}
		return ""
	}
	if c.IsInvoke() {
		if isLogger(c.Value.Type()) {
			return d.logArgs(c)
		}
		switch c.Method.Name() {
		case "Seek": // asking for the position
			if len(c.Args) == 2 && constInt(c.Args[0]) == "0" && constInt(c.Args[1]) == "1" {
				return ""
			}
		case "String", "Error", "Bounds", "ColorModel":
			return ""
		}
		return "a call of " + c.Method.Name()
	}
	t := c.StaticCallee()
	if t == nil {
		return "a call of an unknown function"
	}
	if logMethod(t) {
		return d.logArgs(c)
	}
	if d.inRepo(t) {
		if t.Blocks == nil || !d.pure(t) {
			return "a call of " + fnLabel(t) + ", which has an effect,"
		}
		return ""
	}
	if t.Pkg != nil {
		switch t.Pkg.Pkg.Path() {
		case "fmt":
			if strings.HasPrefix(t.Name(), "Sprint") || t.Name() == "Errorf" {
				return ""
			}
		case "strings", "strconv", "unicode/utf8", "math", "path", "errors", "encoding/hex":
			if t.Signature.Recv() == nil {
				return ""
			}
		case "time", "image", "runtime":
			if !strings.Contains(t.Name(), "Sleep") && !strings.Contains(t.Name(), "Goexit") && t.Name() != "GC" {
				return ""
			}
		}
	}
	return "a call of " + t.String()
}

// logArgs: methods that formatting may call have no effect.
func (d *dbgRun) logArgs(c *ssa.CallCommon) string {
	for _, a := range c.Args {
		sl, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok || al.Referrers() == nil {
			continue
		}
		for _, u := range *al.Referrers() {
			ia, ok := u.(*ssa.IndexAddr)
			if !ok || ia.Referrers() == nil {
				continue
			}
			for _, w := range *ia.Referrers() {
				st, ok := w.(*ssa.Store)
				if !ok {
					continue
				}
				mi, ok := st.Val.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				for _, name := range []string{"Format", "Error", "String", "GoString"} {
					ms := d.p.SSA.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						if ms.At(i).Obj().Name() != name {
							continue
						}
						if f := d.p.SSA.MethodValue(ms.At(i)); f != nil && d.inRepo(f) && !d.pure(f) {
							return "a message whose " + name + " method has an effect"
						}
					}
				}
			}
		}
	}
	return ""
}

func (d *dbgRun) pure(f *ssa.Function) bool {
	switch d.pureM[f] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	d.pureM[f] = 1
	ok := true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return:
				continue
			case *ssa.Store:
				if rootAlloc(x.Addr) != nil {
					continue
				}
				ok = false
			case *ssa.Panic:
				ok = false
			default:
				if d.effect(f, in) != "" {
					ok = false
				}
			}
		}
	}
	if ok {
		d.pureM[f] = 2
	} else {
		d.pureM[f] = 3
	}
	return ok
}

func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				if s, ok := x.X.(*ssa.Slice); ok {
					v = s.X
					continue
				}
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
}

// allocForLog: everything done with the variable depends on the logger too.
func (d *dbgRun) allocForLog(a *ssa.Alloc) bool {
	if a.Referrers() == nil {
		return true
	}
	if d.region[a.Block()] {
		return true // made for this
	}
	for _, u := range *a.Referrers() {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		if d.region[u.Block()] {
			continue
		}
		if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
			continue
		}
		return false
	}
	return true
}

// onlyForLog: the value is only used where there is a logger.
func (d *dbgRun) onlyForLog(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return true
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Phi:
			if d.onlyForLog(x, seen) {
				continue
			}
		}
		if d.region[u.Block()] {
			if _, ok := u.(*ssa.Phi); !ok {
				continue
			}
		}
		return false
	}
	return true
}

// between: the blocks reached from b before meet.
func between(b, meet *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if b == meet || out[b] {
			return
		}
		out[b] = true
		for _, s := range b.Succs {
			rec(s)
		}
	}
	rec(b)
	return out
}

// postDoms: the immediate post-dominator of each block (nil: the exit).
func postDoms(f *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(f.Blocks)
	full := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		full[b] = true
	}
	set := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		set[b] = full
	}
	for again := true; again; {
		again = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			ns := map[*ssa.BasicBlock]bool{}
			if len(b.Succs) > 0 {
				for x := range set[b.Succs[0]] {
					in := true
					for _, s := range b.Succs[1:] {
						in = in && set[s][x]
					}
					if in {
						ns[x] = true
					}
				}
			}
			ns[b] = true
			if len(ns) != len(set[b]) {
				set[b] = ns
				again = true
			}
		}
	}
	out := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for _, b := range f.Blocks {
		for x := range set[b] {
			if x == b {
				continue
			}
			// the closest: post-dominated by all others
			if len(set[x]) == len(set[b])-1 {
				out[b] = x
			}
		}
	}
	return out
}
