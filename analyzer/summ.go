package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Functions without access to the reader that contain nested loops (the
// decompression workers) are not analysed at each call: the caller only sees
// that their slices get other contents and that they may fail. They are
// analysed on their own, once for each different way they are called.

type deferredCall struct {
	fn   *ssa.Function
	args []Val
	bind []Val
	st   *State
	site ssa.CallInstruction
}

// touchesReader: fn may read from, seek or hand on a reader.
func (x *Interp) touchesReader(fn *ssa.Function) bool {
	if x.readers == nil {
		x.readers = map[*ssa.Function]bool{}
	}
	if r, ok := x.readers[fn]; ok {
		return r
	}
	x.readers[fn] = false
	r := false
	for _, p := range fn.Params {
		r = r || readerType(p.Type())
	}
	for _, p := range fn.FreeVars {
		r = r || readerType(p.Type())
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if c.Common().IsInvoke() && readerType(c.Common().Value.Type()) {
					r = true
				}
				if f := c.Common().StaticCallee(); f != nil && x.p.inRepo(f) && x.touchesReader(f) {
					r = true
				}
			}
		}
	}
	x.readers[fn] = r
	return r
}

func readerType(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if i, ok := t.Underlying().(*types.Interface); ok {
		for k := 0; k < i.NumMethods(); k++ {
			switch i.Method(k).Name() {
			case "Read", "ReadByte", "Seek", "Discard", "WriteTo":
				return true
			}
		}
	}
	return strings.HasPrefix(t.String(), "io.") || strings.HasPrefix(t.String(), "bufio.")
}

// nest is the depth of nested loops of fn, through calls.
func (x *Interp) nest(fn *ssa.Function) int {
	if x.nests == nil {
		x.nests = map[*ssa.Function]int{}
	}
	if n, ok := x.nests[fn]; ok {
		return n
	}
	x.nests[fn] = 0
	in := x.info(fn)
	best := 0
	for _, b := range fn.Blocks {
		d := 0
		for l := in.inner[b]; l != nil; l = l.up {
			d++
		}
		if d > best {
			best = d
		}
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				f := c.Common().StaticCallee()
				if f == nil || !x.p.inRepo(f) || len(f.Blocks) == 0 || f.Signature.Results().Len() == 1 && isString(f.Signature.Results().At(0).Type()) {
					continue
				}
				if n := d + x.nest(f); n > best {
					best = n
				}
			}
		}
	}
	x.nests[fn] = best
	return best
}

// worker: fn is analysed apart from its callers.
func (x *Interp) worker(fn *ssa.Function) bool {
	if !x.modular {
		return false
	}
	return len(x.info(fn).loops) > 0 && !x.touchesReader(fn) && x.nest(fn) >= 2
}

func (x *Interp) workerCall(ins ssa.CallInstruction, st *State, fn *ssa.Function, args, bind []Val) []outcome {
	x.deferCall(ins, st, fn, args, bind)
	x.havocArgs(st, args)
	x.havocArgs(st, bind)
	o := outcome{st: st}
	rt := fn.Signature.Results()
	for i := 0; i < rt.Len(); i++ {
		o.vals = append(o.vals, st.freshVal(rt.At(i).Type(), fmt.Sprintf("call:%s", fn.Name()), true))
	}
	return []outcome{o}
}

func (x *Interp) deferCall(ins ssa.CallInstruction, st *State, fn *ssa.Function, args, bind []Val) {
	if x.quiet == 0 && !x.noObl {
		sig := fn.String()
		for _, v := range args {
			sig += "|" + sigVal(v, 0)
		}
		if x.defSeen == nil {
			x.defSeen = map[string]int{}
		}
		if x.defSeen[sig] < 3 {
			x.defSeen[sig]++
			c := &Conf{&Env{m: map[ssa.Value]Val{}}, st.clone()}
			var live []ssa.Value
			for i, v := range append(append([]Val{}, args...), bind...) {
				c.env.m[retKey(i)] = v
				live = append(live, retKey(i))
			}
			c.gc(live, x.globalEnd)
			x.defs = append(x.defs, &deferredCall{fn, args, bind, c.st, ins})
		}
	}
}

// runDeferred analyses the workers.
func (x *Interp) runDeferred() {
	x.inWorkers = true
	for len(x.defs) > 0 {
		d := x.defs[0]
		x.defs = x.defs[1:]
		x.call(d.fn, d.args, d.bind, d.st, d.site, nil)
	}
}

// counted: fn reads from the reader and starts goroutines, returns (.., int,
// error), and on its own (whatever its arguments) the int equals the number of
// bytes consumed whenever the error is nil, and the error is not nil whenever
// a read failed. Its callers only need that.
func (x *Interp) counted(fn *ssa.Function) bool {
	if !x.modular {
		return false
	}
	if r, ok := x.countedM[fn]; ok {
		return r
	}
	if x.countedM == nil {
		x.countedM = map[*ssa.Function]bool{}
	}
	x.countedM[fn] = false
	rs := fn.Signature.Results()
	if rs.Len() != 2 || !isIntType(rs.At(0).Type()) || rs.At(1).Type().String() != "error" || !x.touchesReader(fn) || !hasGo(fn) {
		return false
	}
	y := newInterp(x.p, nopMon{})
	y.modular, y.noObl, y.deadline = true, true, x.deadline
	y.globals, y.init, y.globalEnd = x.globals, x.init, x.globalEnd
	outs := y.runEntry(fn)
	ok := len(outs) > 0
	for _, o := range outs {
		n, isP := o.vals[0].(*Poly)
		e, isI := o.vals[1].(*IfaceV)
		if !isP || !(isI || isAlt(o.vals[1])) {
			ok = false
			continue
		}
		mayNil := !isI || e.isNil || e.nilSym != 0
		if mayNil {
			g := o.st.norm(o.st.G("G"))
			if o.st.decideEq(addScaled(o.st.norm(n), -1, g)) != 1 || o.st.norm(o.st.G("failed")) != zeroP {
				ok = false
			}
		}
		if u := o.st.norm(o.st.G("unv")); mayNil && u != zeroP {
			ok = false
		}
	}
	x.countedM[fn] = ok
	return ok
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isAlt(v Val) bool { _, ok := v.(AltV); return ok }

func hasGo(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Go); ok {
				return true
			}
		}
	}
	return false
}

// backTargets: functions that a chain of calls starting in them calls again;
// the first one of each cycle that is met from the roots.
func (x *Interp) backTarget(fn *ssa.Function) bool {
	if x.backs == nil {
		x.backs = map[*ssa.Function]bool{}
		on, done := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
		var dfs func(f *ssa.Function)
		dfs = func(f *ssa.Function) {
			on[f] = true
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := c.Common().StaticCallee()
					if g == nil || !x.p.inRepo(g) || len(g.Blocks) == 0 {
						continue
					}
					if on[g] {
						x.backs[g] = true
					} else if !done[g] {
						dfs(g)
					}
				}
			}
			on[f] = false
			done[f] = true
		}
		for _, r := range x.roots {
			if !done[r] {
				dfs(r)
			}
		}
	}
	return x.backs[fn]
}

func countedSig(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	n := rs.Len()
	return n >= 2 && isIntType(rs.At(n-2).Type()) && rs.At(n-1).Type().String() == "error"
}

// contracted: a recursive function that reads. What it must fulfil is assumed
// at its calls and is shown on its own.
func (x *Interp) contracted(fn *ssa.Function) bool {
	if !x.modular || !countedSig(fn) || !x.touchesReader(fn) || !x.backTarget(fn) {
		return false
	}
	if x.contracts == nil {
		x.contracts = map[*ssa.Function]bool{}
	}
	x.contracts[fn] = true
	return true
}

// contractCall is a call of a contracted function.
func (x *Interp) contractCall(ins ssa.CallInstruction, st *State, fn *ssa.Function, args, bind []Val) []outcome {
	x.recursion(ins, st, fn, args)
	m := x.modset(fn)
	x.havocMod(st, args, m)
	x.havocMod(st, bind, m)
	for _, k := range sortedKeys(st.gh) {
		if strings.HasPrefix(k, "cb:") && x.mayCallBack(fn, k) {
			st.setGh(k, symP(newSym(k, iv{0, posInf})))
		}
	}
	rs := fn.Signature.Results()
	k := rs.Len()
	ok := outcome{st: st.clone()}
	bad := outcome{st: st}
	n := symP(newSym("n", iv{0, posInf}))
	ok.st.setGh("G", addScaled(ok.st.G("G"), 1, n))
	bad.st.setGh("G", addScaled(bad.st.G("G"), 1, symP(newSym("m", iv{0, posInf}))))
	bad.st.setGh("failed", symP(newSym("failed", iv{0, 1})))
	for i := 0; i < k-2; i++ {
		ok.vals = append(ok.vals, ok.st.freshVal(rs.At(i).Type(), fn.Name(), true))
		bad.vals = append(bad.vals, bad.st.freshVal(rs.At(i).Type(), fn.Name(), true))
	}
	ok.vals = append(ok.vals, n, nilErr())
	bad.vals = append(bad.vals, symP(newSym("w", iv{0, posInf})), someErr("contract"))
	return []outcome{ok, bad}
}

// recursion: a reading function must not be able to call itself, directly or
// not, because the input decides how deep the calls go; a call that counts
// is not judged.
func (x *Interp) recursion(ins ssa.CallInstruction, st *State, fn *ssa.Function, args []Val) {
	for _, a := range x.stack {
		if a.fn != fn {
			continue
		}
		counts := false
		for i, v := range args {
			p, ok := v.(*Poly)
			if !ok || i >= len(a.args) {
				continue
			}
			if q, ok := a.args[i].(*Poly); ok {
				if d := st.norm(addScaled(p, -1, q)); d != nil && d.isConst() && d.c != 0 {
					counts = true
				}
			}
		}
		x.oblige("recursion", ins, st, !st.feasible(), counts, "the input can make "+fnLabel(fn)+" call itself again and again until the stack is exhausted")
		return
	}
	x.oblige("recursion", ins, st, true, false, "")
}

// mayCallBack: fn may call the callback counted by ghost k, which is held in a field.
func (x *Interp) mayCallBack(fn *ssa.Function, k string) bool {
	if x.cbFields == nil {
		x.cbFields = map[*ssa.Function]map[string]bool{}
	}
	m := x.cbFields[fn]
	if m == nil {
		m = map[string]bool{}
		x.cbFields[fn] = m
		seen := map[*ssa.Function]bool{}
		var f func(fn *ssa.Function)
		f = func(fn *ssa.Function) {
			if seen[fn] {
				return
			}
			seen[fn] = true
			for _, p := range fn.Params {
				if _, ok := p.Type().Underlying().(*types.Signature); ok {
					m["*"] = true
				}
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					switch i := ins.(type) {
					case *ssa.FieldAddr:
						st := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
						if _, ok := st.Field(i.Field).Type().Underlying().(*types.Signature); ok {
							m[st.Field(i.Field).Name()] = true
						}
					case *ssa.Field:
						st := i.X.Type().Underlying().(*types.Struct)
						if _, ok := st.Field(i.Field).Type().Underlying().(*types.Signature); ok {
							m[st.Field(i.Field).Name()] = true
						}
					case *ssa.MakeClosure:
						f(i.Fn.(*ssa.Function))
					}
					if c, ok := ins.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && x.p.inRepo(g) {
							f(g)
						}
					}
				}
			}
		}
		f(fn)
	}
	if m["*"] {
		return true
	}
	for n := range m {
		if strings.HasSuffix(k, "."+n) {
			return true
		}
	}
	return false
}

// modset names the kinds of places that fn may store to, itself or through calls.
func (x *Interp) modset(fn *ssa.Function) map[string]bool {
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var f func(fn *ssa.Function)
	addr := func(v ssa.Value) {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			m[a.X.Type().Underlying().(*types.Pointer).Elem().String()+"."+fmt.Sprint(a.Field)] = true
		case *ssa.Alloc, *ssa.FreeVar:
			// a variable of the activation itself
		case *ssa.IndexAddr:
			m["[]"+v.Type().Underlying().(*types.Pointer).Elem().String()] = true
		default:
			m["*"+v.Type().Underlying().(*types.Pointer).Elem().String()] = true
		}
	}
	f = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					addr(i.Addr)
				case *ssa.MapUpdate:
					m["map "+i.Map.Type().Underlying().String()] = true
				case *ssa.MakeClosure:
					f(i.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					cc := i.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy":
							if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
								m["[]"+s.Elem().String()] = true
							}
						case "delete", "clear":
							m["map "+cc.Args[0].Type().Underlying().String()] = true
						}
						continue
					}
					if g := cc.StaticCallee(); g != nil {
						if x.p.inRepo(g) {
							f(g)
						} else {
							for _, a := range cc.Args {
								switch t := a.Type().Underlying().(type) {
								case *types.Slice:
									m["[]"+t.Elem().String()] = true
								case *types.Pointer:
									m["*"+t.Elem().String()] = true
								}
							}
						}
						continue
					}
					if cc.IsInvoke() {
						for _, g := range x.p.implementations(cc.Method) {
							f(g)
						}
						for _, a := range cc.Args {
							if t, ok := a.Type().Underlying().(*types.Slice); ok {
								m["[]"+t.Elem().String()] = true
							}
						}
					}
				}
			}
		}
	}
	f(fn)
	return m
}

// implementations are the methods of repository types with the name of m.
func (p *Program) implementations(m *types.Func) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range p.repoFuncs() {
		if fn.Signature.Recv() != nil && fn.Name() == m.Name() {
			r = append(r, fn)
		}
	}
	return r
}

// havocMod forgets what the places named by m hold in objects reachable from vs.
func (x *Interp) havocMod(st *State, vs []Val, m map[string]bool) {
	seen := map[ObjID]bool{}
	var mod func(v Val, t types.Type) Val
	mod = func(v Val, t types.Type) Val {
		if t == nil || v == nil {
			return v
		}
		if m["*"+t.String()] {
			return st.freshVal(t, "havoc", true)
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			s, ok := v.(*StructV)
			if !ok {
				return v
			}
			n := &StructV{append([]Val(nil), s.f...)}
			for i := range n.f {
				if m[t.String()+"."+fmt.Sprint(i)] {
					n.f[i] = st.freshVal(u.Field(i).Type(), "havoc", true)
				} else {
					n.f[i] = mod(n.f[i], u.Field(i).Type())
				}
			}
			return n
		case *types.Map:
			return v
		}
		switch w := v.(type) {
		case *ArrV:
			w2 := *w
			z := mod(zeroVal(w.elem), w.elem)
			if m["*"+w.elem.String()] || m["[]"+w.elem.String()] || !sameVal(z, zeroVal(w.elem)) {
				w2.segs = nil
				w2.base = st.exVal(w.elem, "havoc")
			}
			return &w2
		case *MapC:
			for k := range m {
				if strings.HasPrefix(k, "map ") {
					w2 := *w
					w2.consts = map[string]Val{}
					w2.sum = st.exVal(w.vt, "havoc")
					return &w2
				}
			}
		}
		return v
	}
	var f func(v Val)
	f = func(v Val) {
		eachObj(v, func(o ObjID) {
			if o == 0 || seen[o] {
				return
			}
			seen[o] = true
			ob := st.heap[o]
			if ob == nil {
				return
			}
			f(ob.val)
			t := ob.typ
			if _, ok := ob.val.(*ArrV); ok || t == nil {
				t = types.Typ[types.UnsafePointer]
			}
			if _, ok := ob.val.(*MapC); ok {
				t = types.Typ[types.UnsafePointer]
			}
			if n := mod(ob.val, t); !sameVal(n, ob.val) {
				st.setObj(o, n)
			}
		})
	}
	for _, v := range vs {
		f(v)
	}
}

func (x *Interp) countedCall(ins ssa.CallInstruction, st *State, fn *ssa.Function, args, bind []Val) []outcome {
	x.deferCall(ins, st, fn, args, bind)
	x.havocArgs(st, args)
	x.havocArgs(st, bind)
	ok := st.clone()
	n := symP(newSym("n", iv{0, posInf}))
	ok.setGh("G", addScaled(ok.G("G"), 1, n))
	bad := st
	m, w := symP(newSym("m", iv{0, posInf})), symP(newSym("w", iv{0, posInf}))
	bad.setGh("G", addScaled(bad.G("G"), 1, m))
	bad.setGh("failed", symP(newSym("failed", iv{0, 1})))
	return []outcome{
		{ok, []Val{n, &IfaceV{isNil: true}}},
		{bad, []Val{w, &IfaceV{role: "error", id: "counted"}}},
	}
}
