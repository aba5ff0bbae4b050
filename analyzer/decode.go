package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// The decoder, interpreted as a whole: every exported function that takes a
// reader, the functions registered with the image package, every recursive
// reading function on its own and every decompression worker in the contexts
// it is called from.

func (p *Program) repoFuncs() []*ssa.Function {
	if p.repoFns == nil {
		for fn := range ssautil.AllFunctions(p.SSA) {
			if len(fn.Blocks) > 0 && p.inRepo(fn) {
				p.repoFns = append(p.repoFns, fn)
			}
		}
		sort.Slice(p.repoFns, func(i, j int) bool { return p.repoFns[i].String() < p.repoFns[j].String() })
	}
	return p.repoFns
}

type entryResult struct {
	fn   *ssa.Function
	outs []outcome
	err  string
	took time.Duration
}

type decodeRun struct {
	x       *Interp
	entries []*entryResult
	limit   string
}

// decodeRoots: the exported functions of the decoder that take a reader.
func decodeRoots(p *Program) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range p.repoFuncs() {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "psd" || fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		if fn.Signature.Recv() != nil || !token_IsExported(fn.Name()) {
			continue
		}
		for _, q := range fn.Params {
			if readerType(q.Type()) && isInterface(q.Type()) {
				r = append(r, fn)
				break
			}
		}
	}
	// DecodeConfig first
	sort.SliceStable(r, func(i, j int) bool { return len(r[i].Params) < len(r[j].Params) })
	return r
}

func token_IsExported(s string) bool { return s != "" && strings.ToUpper(s[:1]) == s[:1] }

func runDecode(p *Program, mon Mon, limit time.Duration) *decodeRun {
	x := newInterp(p, mon)
	x.modular = true
	x.deadline = time.Now().Add(limit)
	x.prepareGlobals(ssautil.AllFunctions(p.SSA))
	x.roots = decodeRoots(p)
	d := &decodeRun{x: x}
	todo := append([]*ssa.Function(nil), x.roots...)
	done := map[*ssa.Function]bool{}
	for len(todo) > 0 {
		fn := todo[0]
		todo = todo[1:]
		if done[fn] {
			continue
		}
		done[fn] = true
		d.entry(fn)
		if fn.Name() == "DecodeConfig" {
			d.configInvariant(d.entries[len(d.entries)-1])
		}
		if len(todo) == 0 {
			var cs []*ssa.Function
			for c := range x.contracts {
				if !done[c] {
					cs = append(cs, c)
				}
			}
			sort.Slice(cs, func(i, j int) bool { return cs[i].String() < cs[j].String() })
			todo = cs
		}
	}
	d.guard(func() { x.runDeferred() })
	return d
}

func (d *decodeRun) guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if l, ok := r.(analysisLimit); ok {
				msg = l.msg
				if d.limit == "" {
					d.limit = l.msg
				}
				d.x.stack, d.x.quiet = nil, 0
				return
			}
			if os.Getenv("PSDAN_TRACE") != "" {
				panic(r)
			}
			// the interpreter met something that it was not made for
			msg = fmt.Sprintf("internal: %v", r)
			if d.limit == "" {
				d.limit = msg
			}
			d.x.stack, d.x.quiet = nil, 0
		}
	}()
	f()
	return ""
}

func (d *decodeRun) entry(fn *ssa.Function) {
	e := &entryResult{fn: fn}
	t0 := time.Now()
	e.err = d.guard(func() { e.outs = d.x.runEntry(fn) })
	e.took = time.Since(t0)
	d.entries = append(d.entries, e)
}

// configInvariant: what every configuration that DecodeConfig returns fulfils
// is assumed of configurations given to functions that are analysed on their
// own, provided that nothing else writes to configurations.
func (d *decodeRun) configInvariant(e *entryResult) {
	fn := e.fn
	rs := fn.Signature.Results()
	if rs.Len() < 2 {
		return
	}
	t := rs.At(0).Type()
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	allowed := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function)
	reach = func(f *ssa.Function) {
		if allowed[f] {
			return
		}
		allowed[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && d.x.p.inRepo(g) {
						reach(g)
					}
				}
			}
		}
	}
	reach(fn)
	written := map[int]bool{}
	for _, f := range d.x.p.repoFuncs() {
		if allowed[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				for v := st.Addr; v != nil; {
					fa, ok := v.(*ssa.FieldAddr)
					if !ok {
						break
					}
					if types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), t) {
						written[fa.Field] = true
					}
					v = fa.X
				}
			}
		}
	}
	type fieldInv struct {
		rng iv
		set map[int64]bool
	}
	var collect func(v Val, t types.Type, path string, o outcome, m map[string]*fieldInv)
	collect = func(v Val, t types.Type, path string, o outcome, m map[string]*fieldInv) {
		switch x := v.(type) {
		case *Poly:
			x = o.st.norm(x)
			r := o.st.ival(x)
			fs := finiteOf(o.st, x)
			f := m[path]
			if f == nil {
				f = &fieldInv{rng: r, set: map[int64]bool{}}
				m[path] = f
			}
			f.rng = ivHull(f.rng, r)
			if fs == nil || f.set == nil {
				f.set = nil
			} else {
				for _, k := range fs {
					f.set[k] = true
				}
			}
		case *StructV:
			st := t.Underlying().(*types.Struct)
			for i, y := range x.f {
				collect(y, st.Field(i).Type(), path+"."+st.Field(i).Name(), o, m)
			}
		}
	}
	inv := map[string]*fieldInv{}
	n := 0
	for _, o := range e.outs {
		if i, ok := o.vals[rs.Len()-1].(*IfaceV); ok && !i.isNil && i.nilSym == 0 {
			continue
		}
		n++
		collect(o.vals[0], t, "", o, inv)
	}
	if n == 0 {
		return
	}
	for i := range written {
		for k := range inv {
			if k == "."+s.Field(i).Name() || strings.HasPrefix(k, "."+s.Field(i).Name()+".") {
				delete(inv, k)
			}
		}
	}
	x := d.x
	x.cfgInv = func(st *State, u types.Type, name string) Val {
		if !types.Identical(u, t) {
			return nil
		}
		var mk func(u types.Type, path string) Val
		mk = func(u types.Type, path string) Val {
			if st2, ok := u.Underlying().(*types.Struct); ok {
				v := &StructV{}
				for i := 0; i < st2.NumFields(); i++ {
					v.f = append(v.f, mk(st2.Field(i).Type(), path+"."+st2.Field(i).Name()))
				}
				return v
			}
			v := x.entryVal(st, u, name+path)
			if f := inv[path]; f != nil {
				if p, ok := v.(*Poly); ok {
					if s, ok := p.asSym(); ok {
						if f.rng.lo == f.rng.hi {
							return K(f.rng.lo)
						}
						if syms[s].rng.lo < f.rng.lo {
							syms[s].rng.lo = f.rng.lo
						}
						if syms[s].rng.hi > f.rng.hi {
							syms[s].rng.hi = f.rng.hi
						}
						if f.set != nil && len(f.set) <= 8 {
							var ks []int64
							for k := range f.set {
								ks = append(ks, k)
							}
							sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
							syms[s].set = ks
						}
					}
				}
			}
			return v
		}
		return mk(u, "")
	}
}

// ---- what the whole-decoder analysis shows ----

// decFact is one judged statement about a function of the decoder.
type decFact struct {
	rule, where, msg string
	verdict          int // 1 holds, 0 does not, -1 undecided
}

type decMon struct {
	nopMon
	judged
	roots map[*ssa.Function]bool
	sects map[string]bool
}

// equal judges p == 0.
func equal(st *State, p *Poly) int {
	p = st.norm(p)
	if p == nil {
		return -1
	}
	if st.decideEq(p) == 1 {
		return 1
	}
	if polyFuzzy(p) || st.outside(p) || st.outside(negP(p)) {
		return -1
	}
	if p.hasJoined() && !st.entails(addScaled(p, 1, K(-1))) && !st.entails(addScaled(negP(p), 1, K(-1))) {
		return -1 // what is known about a value that stands for several may not be all
	}
	return 0
}

// exactly judges p == 0 where the program compares the two sides: if only one
// of the two inequalities is known, then only that one was checked.
func exactly(st *State, p *Poly) int {
	v := equal(st, p)
	if v != -1 {
		return v
	}
	p = st.norm(p)
	if p == nil {
		return -1
	}
	if a, b := st.entails(p), st.entails(negP(p)); a != b {
		return 0
	}
	return -1
}

func hintKey(x *Interp, a *act) string { return fmt.Sprintf("hint:%s:%d", a.fn.Name(), len(x.stack)) }

// call: data with a declared length is given to a decompressor.
func (m *decMon) call(x *Interp, a *act, ins ssa.CallInstruction, st *State, fn *ssa.Function, args []Val) {
	if fn.Name() != "Decode" || fn.Signature.Recv() == nil || !countedSig(fn) || !x.p.inRepo(fn) || len(args) != len(fn.Params) {
		return
	}
	m.atHint(x, a, st)
	st.dropGh(hintKey(x, a))
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
			h, ok := args[i].(*Poly)
			if !ok || st.decideEq(h) == 1 {
				return
			}
			st.setGh(hintKey(x, a), addScaled(addScaled(st.G("G"), 1, h), 1, oneP))
			return
		}
	}
}

// atHint: the compressed data given to the last decompressor must have been left at its end.
func (m *decMon) atHint(x *Interp, a *act, st *State) {
	h := st.gh[hintKey(x, a)]
	if h == nil || st.decideEq(h) == 1 {
		return
	}
	d := st.norm(addScaled(addScaled(h, -1, st.G("G")), -1, oneP))
	m.judge("channel-end", fnLabel(a.fn), "", fmt.Sprintf("the declared end of compressed data is %s bytes after the position that decoding goes on at", d), exactly(st, d))
}

func (m *decMon) back(x *Interp, a *act, l *loopInfo, h, b *State) {
	if h.gh[hintKey(x, a)] == nil || h.decideEq(h.gh[hintKey(x, a)]) == 1 {
		m.atHint(x, a, b)
	}
}

func asIface(v Val) *IfaceV {
	i, _ := v.(*IfaceV)
	return i
}

// succeeds tells whether the last result is a nil error: 1 yes, 0 no, -1 perhaps.
func succeeds(st *State, vals []Val) int {
	if len(vals) == 0 {
		return -1
	}
	switch e := vals[len(vals)-1].(type) {
	case *IfaceV:
		if e.isNil {
			return 1
		}
		if e.nilSym == 0 {
			return 0
		}
		if b, ok := st.bools[e.nilSym]; ok {
			if b {
				return 1
			}
			return 0
		}
	}
	return -1
}

func resultsError(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	return rs.Len() > 0 && rs.At(rs.Len()-1).Type().String() == "error"
}

func (m *decMon) leave(x *Interp, a *act, st *State, vals []Val) {
	if a.g0 == nil || !resultsError(a.fn) {
		return
	}
	where := fnLabel(a.fn)
	ok := succeeds(st, vals)
	d := st.norm(addScaled(st.G("G"), -1, a.g0))
	entry := m.roots[a.fn] || x.contracts[a.fn]
	if ok == 1 {
		m.atHint(x, a, st)
	}
	st.dropGh(hintKey(x, a))
	if ok == 0 {
		if m.roots[a.fn] {
			v := 1
			if !emptyVal(st, vals[0]) {
				v = 0
			}
			m.judge("no-result-on-error", where, "", "a result is returned together with an error: "+vstr(vals[0]), v)
		}
		return
	}
	if ok == -1 {
		if entry {
			m.judge("count", where, "", "it is not known whether the call succeeds", -1)
		}
		return
	}
	// the count of bytes
	if entry && countedSig(a.fn) {
		n, isP := vals[len(vals)-2].(*Poly)
		if !isP {
			m.judge("count", where, "", "the count is not known", -1)
		} else {
			n = st.norm(n)
			m.judge("count", where, "", fmt.Sprintf("%s bytes were taken from the reader, but %s is reported", d, n), equal(st, addScaled(n, -1, d)))
		}
	}
	if !entry && countedSig(a.fn) && x.touchesReader(a.fn) {
		if n, isP := vals[len(vals)-2].(*Poly); isP {
			n = st.norm(n)
			m.judge("inner-count", where, "", fmt.Sprintf("%s bytes were taken from the reader, but %s is reported", d, n), equal(st, addScaled(n, -1, d)))
		}
	}
	if entry {
		m.judge("failure", where, "", "success is reported although a read, skip, decompression or callback failed", ghostZero(st, "failed"))
		m.judge("unverified-skip", where, "", "success is reported although the last skip may have moved past the end of the data", ghostZero(st, "unv"))
		m.judge("partial-read", where, "", "success is reported although a single call of Read may have delivered less than was asked for", ghostZero(st, "part"))
	}
	m.section(x, a, st, vals, d, where)
}

func ghostZero(st *State, k string) int {
	p := st.norm(st.G(k))
	if p == zeroP || p != nil && st.decideEq(p) == 1 {
		return 1
	}
	if p == nil || polyFuzzy(p) {
		return -1
	}
	return 0
}

// emptyVal: nil or the zero value.
func emptyVal(st *State, v Val) bool {
	switch v := v.(type) {
	case *Poly:
		return st.decideEq(v) == 1
	case PtrV:
		return v.obj == 0
	case *SliceV:
		return v.base.obj == 0 || st.decideEq(v.ln) == 1
	case *StructV:
		for _, f := range v.f {
			if !emptyVal(st, f) {
				return false
			}
		}
		return true
	case *StrV:
		return st.decideEq(v.len) == 1
	case *BoolV:
		return v.op == bConst && !v.c
	case *IfaceV:
		return v.isNil
	case MapV:
		return v.obj == 0
	case AltV:
		for _, w := range v.alts {
			if !emptyVal(st, w) {
				return false
			}
		}
		return true
	}
	return false
}

// lengthTerms: the values that a length field of w bytes at pos can be converted to.
func lengthTerms(st *State, pos *Poly, w int64) []*Poly {
	f := streamBE(pos, w)
	r := []*Poly{f}
	if w == 8 {
		r = append(r, st.sx(f, 64))
	}
	return r
}

// mentionedIn: the state knows something about one of the symbols of the length field.
func knownSym(st *State, s Sym) bool {
	if _, ok := st.sub[s]; ok {
		return true
	}
	if _, ok := st.bnd[s]; ok {
		return true
	}
	for _, f := range st.facts {
		if f.hasSym(s) {
			return true
		}
	}
	for _, f := range st.nes {
		if f.hasSym(s) {
			return true
		}
	}
	return false
}

// section: a function that begins by reading a length field and that acts
// upon it must have consumed exactly as much when it succeeds.
func (m *decMon) section(x *Interp, a *act, st *State, vals []Val, d *Poly, where string) {
	if len(a.first) != 1 {
		if len(a.first) == 2 && a.first[4] && a.first[8] {
			// the width depends on the version of the document
		} else {
			return
		}
	}
	var widths []int64
	for _, w := range []int64{4, 8} {
		if a.first[w] {
			widths = append(widths, w)
		}
	}
	if len(widths) == 0 {
		return
	}
	known, best := false, -2
	for _, w := range widths {
		for _, f := range lengthTerms(st, a.g0, w) {
			s, ok := f.asSym()
			if !ok {
				continue
			}
			if !knownSym(st, s) && !d.hasSym(s) {
				continue
			}
			for _, v := range vals {
				if mentionsSym(v, s) && !d.hasSym(s) {
					return // a helper that returns the field
				}
			}
			known = true
			if v := exactly(st, addScaled(addScaled(d, -1, f), -1, K(w))); v == 1 || v > best && best != 1 {
				best = v
			}
		}
	}
	if !known {
		return
	}
	m.sects[where] = true
	m.judge("section-end", where, "", fmt.Sprintf("the section starts with its length, but %s bytes are consumed on success", d), best)
}

func mentionsSym(v Val, s Sym) bool {
	found := false
	mapVal(v, func(p *Poly) *Poly {
		if p.hasSym(s) {
			found = true
		}
		return p
	})
	return found
}

func (m *decMon) take(x *Interp, a *act, st *State, pos, n *Poly) {
	if n.isConst() {
		return
	}
	if r := st.ival(n); r.hi <= 8 {
		return // alignment
	}
	// the caller that decided about the amount
	where := fnLabel(a.fn)
	for b := a; b.up != nil; b = b.up {
		if b.fn.Name() != "" && isHelperParam(b.fn) {
			where = fnLabel(b.up.fn)
			continue
		}
		break
	}
	end := st.norm(addScaled(pos, 1, n))
	if end == nil {
		m.judge("declared-amount", where, "", "amount unknown", -1)
		return
	}
	best := 0
	end.deepTop(func(s Sym) {
		in := s.info()
		if in.op == "sx" && len(in.args) > 0 {
			if t, ok := in.args[0].asSym(); ok {
				in = t.info()
			}
		}
		if in.op != "be" {
			return
		}
		e := addScaled(addScaled(end, -1, symP(s)), -1, addScaled(in.args[0], 1, K(in.n)))
		if st.decideEq(e) == 1 {
			best = 1
		}
	})
	if best == 1 {
		m.judge("declared-amount", where, "", "", 1)
		return
	}
	exact := true
	n.deepSyms(func(s Sym) {
		in := s.info()
		if in.fuzzy || in.op == "" || in.op == "div" {
			exact = false
		}
	})
	for _, t := range n.t {
		if len(t.m.syms) > 1 {
			exact = false
		}
	}
	if !exact {
		m.judge("declared-amount", where, n.String(), fmt.Sprintf("%s bytes are taken at %s", n, pos), -1)
		return
	}
	m.judge("declared-amount", where, n.String(), fmt.Sprintf("%s bytes are taken at offset %s, which does not end where any length field read before says", n, pos), 0)
}

// isHelperParam: a function that is told how much to read.
func isHelperParam(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isIntType(p.Type()) {
			return true
		}
	}
	return false
}

// deepTop calls f for the symbols of the linear terms of p.
func (p *Poly) deepTop(f func(Sym)) {
	for _, t := range p.t {
		if len(t.m.syms) == 1 && t.c == 1 {
			f(t.m.syms[0])
		}
	}
}
