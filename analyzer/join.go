package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Env maps the registers of a function activation to values.
type Env struct {
	m      map[ssa.Value]Val
	shared bool
}

func (e *Env) clone() *Env {
	e.shared = true
	return &Env{m: e.m, shared: true}
}

func (e *Env) set(k ssa.Value, v Val) {
	if e.shared {
		m := make(map[ssa.Value]Val, len(e.m)+4)
		for a, b := range e.m {
			m[a] = b
		}
		e.m, e.shared = m, false
	}
	e.m[k] = v
}

// Conf is a configuration inside one function activation.
type Conf struct {
	env *Env
	st  *State
}

func (c *Conf) clone() *Conf { return &Conf{c.env.clone(), c.st.clone()} }

// ---- discrete signatures ----

func sigVal(v Val, level int) string {
	switch v := v.(type) {
	case nil:
		return "z"
	case *Poly:
		if level == 0 && v.isConst() && v.c >= -8 && v.c <= 64 {
			return "k" + strconv.FormatInt(v.c, 10)
		}
		return "i"
	case *BoolV:
		if v.op == bConst {
			if v.c {
				return "T"
			}
			return "F"
		}
		return "b"
	case FloatV:
		return "f"
	case *StrV:
		if v.konst && len(v.s) < 32 && level == 0 {
			return strconv.Quote(v.s)
		}
		return "s"
	case PtrV:
		if v.obj == 0 {
			return "0"
		}
		s := "p"
		for _, e := range v.path {
			if e.idx != nil {
				s += "[]"
			} else {
				s += "." + strconv.Itoa(e.f)
			}
		}
		return s
	case *SliceV:
		if v.base.obj == 0 {
			return "0[]"
		}
		if v.nilAs != nil {
			return "[?]"
		}
		return "[]"
	case *StructV:
		s := "{"
		for _, x := range v.f {
			s += sigVal(x, 1)
		}
		return s + "}"
	case TupleV:
		s := "("
		for _, x := range v {
			s += sigVal(x, level)
		}
		return s + ")"
	case *IfaceV:
		if v.isNil {
			return "0i"
		}
		if v.nilSym != 0 {
			return "?i"
		}
		if v.role == "error" || isErrorish(v) {
			return "E"
		}
		if v.dyn != nil {
			return "I" + v.dyn.String() + sigVal(v.val, 1)
		}
		return "I:" + v.role
	case *FuncV:
		if v.isNil {
			return "0f"
		}
		if v.fn != nil {
			return "f" + v.fn.String()
		}
		return "f?"
	case MapV:
		if v.obj == 0 {
			return "0m"
		}
		return "m"
	case AltV:
		return "A"
	case OpqV:
		return "o"
	}
	return "?"
}

func isErrorish(v *IfaceV) bool {
	if v.dyn == nil {
		return false
	}
	s := v.dyn.String()
	return strings.Contains(s, "errors.") || strings.HasSuffix(s, "Error") || strings.HasSuffix(s, "errorString")
}

func shapeOf(v Val) string {
	switch x := v.(type) {
	case PtrV:
		return sigVal(v, 1) + "o" + strconv.Itoa(int(x.obj))
	case *SliceV:
		return sigVal(v, 1) + "o" + strconv.Itoa(int(x.base.obj))
	case *IfaceV:
		return sigVal(v, 1) + shapeOf(x.val)
	case MapV:
		return sigVal(v, 1) + "o" + strconv.Itoa(int(x.obj))
	}
	return sigVal(v, 1)
}

func (c *Conf) sig(live []ssa.Value, level int) string {
	var sb strings.Builder
	for _, r := range live {
		v, ok := c.env.m[r]
		if !ok {
			sb.WriteString("-,")
			continue
		}
		if p, ok := v.(*Poly); ok {
			v = c.st.norm(p)
		}
		sb.WriteString(sigVal(v, level))
		if p, ok := v.(PtrV); ok && p.obj != 0 && len(p.path) == 0 {
			if _, isAlloc := r.(*ssa.Alloc); isAlloc {
				if o := c.st.heap[p.obj]; o != nil && !o.summary {
					switch o.val.(type) {
					case *StructV, *ArrV:
					default:
						sb.WriteString(sigVal(o.val, 1))
					}
				}
			}
		}
		sb.WriteByte(',')
	}
	for k := range c.st.gh {
		if strings.HasPrefix(k, "hint:") && c.st.gh[k] != zeroP {
			sb.WriteString("hint")
		}
	}
	return sb.String()
}

// ---- joining ----

type pairInfo struct {
	path string
	a, b *Poly
	sym  Sym
}

type joiner struct {
	A, B, J   *State
	frame     ObjID // objects from here on are local to the activation
	uf        map[onode]onode
	visited   map[[2]ObjID]bool
	canonA    map[ObjID]ObjID
	canonB    map[ObjID]ObjID
	comp      map[onode][]onode
	sumComp   map[ObjID]bool
	leaf      func(path string, a, b *Poly) *Poly
	changed   bool
	marks     map[int]int
	flat      map[string]bool
	au        *antiUnifier
	loopMode  bool
	tmplSub   func(v Val, idx *Poly) (Val, bool) // loop mode: generalise an element stored at idx
	floatMemo map[[2]string]string
}

func (j *joiner) why(n, path string, a, b Val) {
	if os.Getenv("PSDAN_WHY") != "" && j.loopMode {
		fmt.Printf("WHY %s %s\n   A %s\n   B %s\n", n, path, vstr(a), vstr(b))
	}
}

func (j *joiner) mark(n int) {
	j.changed = true
	if j.marks == nil {
		j.marks = map[int]int{}
	}
	j.marks[n]++
}

type onode struct {
	b  bool
	id ObjID
}

func (j *joiner) find(n onode) onode {
	for {
		p, ok := j.uf[n]
		if !ok || p == n {
			return n
		}
		n = p
	}
}

func (j *joiner) union(x, y onode) {
	rx, ry := j.find(x), j.find(y)
	if rx != ry {
		j.uf[rx] = ry
	}
}

// match walks two values in parallel and unifies the objects they refer to.
func (j *joiner) match(a, b Val) {
	switch x := a.(type) {
	case PtrV:
		if y, ok := b.(PtrV); ok {
			j.matchObj(x.obj, y.obj)
			return
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			j.matchObj(x.base.obj, y.base.obj)
			return
		}
	case MapV:
		if y, ok := b.(MapV); ok {
			j.matchObj(x.obj, y.obj)
			return
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			for i := range x.f {
				j.match(x.f[i], y.f[i])
			}
			return
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			for i := range x {
				j.match(x[i], y[i])
			}
			return
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x.dyn != nil && sameType(x.dyn, y.dyn) {
				j.match(x.val, y.val)
			}
			return
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok && x.fn == y.fn && len(x.bind) == len(y.bind) {
			for i := range x.bind {
				j.match(x.bind[i], y.bind[i])
			}
			return
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok {
			if !hasRefs(x) && !hasRefs(y) {
				return
			}
			if sameLayout(j.A, j.B, x.segs, y.segs) {
				for i := range x.segs {
					j.match(x.segs[i].val, y.segs[i].val)
				}
				j.match(x.base, y.base)
				return
			}
			for _, v := range arrVals(x) {
				for _, w := range arrVals(y) {
					if shapeCompatible(v, w) {
						j.match(v, w)
					}
				}
			}
			return
		}
	case *MapC:
		if y, ok := b.(*MapC); ok {
			j.match(x.sum, y.sum)
			for _, k := range sortedKeys(x.consts) {
				j.match(x.consts[k], y.consts[k])
			}
			return
		}
	}
	// alternatives: match by shape
	xa, xok := a.(AltV)
	ya, yok := b.(AltV)
	if xok || yok {
		if !xok {
			xa = AltV{[]Val{a}}
		}
		if !yok {
			ya = AltV{[]Val{b}}
		}
		for _, v := range xa.alts {
			for _, w := range ya.alts {
				if shapeCompatible(v, w) {
					j.match(v, w)
				}
			}
		}
	}
}

func shapeCompatible(a, b Val) bool {
	if x, ok := a.(*StructV); ok {
		y, ok := b.(*StructV)
		return ok && len(x.f) == len(y.f)
	}
	if x, ok := a.(AltV); ok {
		for _, v := range x.alts {
			if shapeCompatible(v, b) {
				return true
			}
		}
		return false
	}
	if x, ok := b.(AltV); ok {
		for _, v := range x.alts {
			if shapeCompatible(a, v) {
				return true
			}
		}
		return false
	}
	return sigVal(a, 1) == sigVal(b, 1)
}

func arrVals(x *ArrV) []Val {
	var r []Val
	for _, g := range x.segs {
		if g.val != nil {
			r = append(r, g.val)
		}
	}
	if x.base != nil {
		r = append(r, x.base)
	}
	return r
}

func hasRefs(v Val) bool {
	r := false
	eachObj(v, func(ObjID) { r = true })
	return r
}

func sameLayout(A, B *State, x, y []Seg) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].off != y[i].off && A.norm(x[i].off) != B.norm(y[i].off) {
			return false
		}
		if x[i].ln != y[i].ln && A.norm(x[i].ln) != B.norm(y[i].ln) {
			return false
		}
	}
	return true
}

func (j *joiner) matchObj(a, b ObjID) {
	if a == 0 || b == 0 {
		return
	}
	if j.visited[[2]ObjID{a, b}] {
		return
	}
	j.visited[[2]ObjID{a, b}] = true
	if a != b && (a < j.frame || b < j.frame) {
		return
	}
	oa, ob := j.A.heap[a], j.B.heap[b]
	if oa == nil || ob == nil {
		return
	}
	j.union(onode{false, a}, onode{true, b})
	j.match(oa.val, ob.val)
}

func (j *joiner) prepare(live []ssa.Value, ea, eb *Env) {
	j.uf = map[onode]onode{}
	j.visited = map[[2]ObjID]bool{}
	for _, r := range live {
		j.match(ea.m[r], eb.m[r])
	}
	var ids []ObjID
	for id, o := range j.A.heap {
		if id < j.frame {
			if ob := j.B.heap[id]; ob != nil && ob != o {
				ids = append(ids, id)
			}
		}
	}
	sort.Slice(ids, func(i, k int) bool { return ids[i] < ids[k] })
	for _, id := range ids {
		j.matchObj(id, id)
	}
	// objects with the same identity in both states stay together
	for again := true; again; {
		again = false
		var same []ObjID
		for p := range j.visited {
			for _, id := range p {
				if id >= j.frame && !j.visited[[2]ObjID{id, id}] && j.A.heap[id] != nil && j.B.heap[id] != nil {
					same = append(same, id)
				}
			}
		}
		sort.Slice(same, func(i, k int) bool { return same[i] < same[k] })
		for _, id := range same {
			if !j.visited[[2]ObjID{id, id}] {
				j.matchObj(id, id)
				again = true
			}
		}
	}
	// components
	j.comp = map[onode][]onode{}
	seen := map[onode]bool{}
	var ns []onode
	for p := range j.visited {
		for _, n := range []onode{{false, p[0]}, {true, p[1]}} {
			if !seen[n] {
				seen[n] = true
				ns = append(ns, n)
			}
		}
	}
	sort.Slice(ns, func(i, k int) bool {
		if ns[i].id != ns[k].id {
			return ns[i].id < ns[k].id
		}
		return !ns[i].b && ns[k].b
	})
	for _, n := range ns {
		r := j.find(n)
		j.comp[r] = append(j.comp[r], n)
	}
	j.canonA, j.canonB = map[ObjID]ObjID{}, map[ObjID]ObjID{}
	j.sumComp = map[ObjID]bool{}
	for _, c := range j.comp {
		na, nb := 0, 0
		id := ObjID(0)
		sum := false
		for _, n := range c {
			if n.b {
				nb++
			} else {
				na++
				if id == 0 {
					id = n.id
				}
			}
		}
		if id == 0 {
			id = c[0].id
		}
		for _, n := range c {
			if n.b {
				j.canonB[n.id] = id
				if o := j.B.heap[n.id]; o != nil && o.summary {
					sum = true
				}
			} else {
				j.canonA[n.id] = id
				if o := j.A.heap[n.id]; o != nil && o.summary {
					sum = true
				}
			}
		}
		if na > 1 || nb > 1 || sum {
			j.sumComp[id] = true
		}
	}
}

// renames reports whether m changes any name.
func renames(m map[ObjID]ObjID) bool {
	for k, v := range m {
		if k != v {
			return true
		}
	}
	return false
}

func renameObjs(v Val, m map[ObjID]ObjID) Val {
	if len(m) == 0 || !hasRefs(v) {
		return v
	}
	ren := func(o ObjID) ObjID {
		if n, ok := m[o]; ok {
			return n
		}
		return o
	}
	var f func(v Val) Val
	f = func(v Val) Val {
		switch v := v.(type) {
		case PtrV:
			v.obj = ren(v.obj)
			return v
		case *SliceV:
			if v.base.obj == 0 {
				return v
			}
			n := *v
			n.base.obj = ren(v.base.obj)
			return &n
		case MapV:
			v.obj = ren(v.obj)
			return v
		case *ArrV:
			n := *v
			n.segs = append([]Seg(nil), v.segs...)
			for i := range n.segs {
				if n.segs[i].val != nil {
					n.segs[i].val = f(n.segs[i].val)
				}
			}
			if v.base != nil {
				n.base = f(v.base)
			}
			return &n
		case *StructV:
			n := &StructV{make([]Val, len(v.f))}
			for i := range v.f {
				n.f[i] = f(v.f[i])
			}
			return n
		case TupleV:
			n := make(TupleV, len(v))
			for i := range v {
				n[i] = f(v[i])
			}
			return n
		case *IfaceV:
			if v.val == nil {
				return v
			}
			n := *v
			n.val = f(v.val)
			return &n
		case *FuncV:
			n := *v
			n.bind = make([]Val, len(v.bind))
			for i := range v.bind {
				n.bind[i] = f(v.bind[i])
			}
			return &n
		case AltV:
			n := AltV{make([]Val, len(v.alts))}
			for i := range v.alts {
				n.alts[i] = f(v.alts[i])
			}
			return n
		case *MapC:
			n := *v
			if v.sum != nil {
				n.sum = f(v.sum)
			}
			n.consts = map[string]Val{}
			for k, x := range v.consts {
				n.consts[k] = f(x)
			}
			return &n
		}
		return v
	}
	return f(v)
}

// build computes the joined environment and heap into J.
func (j *joiner) build(live []ssa.Value, ea, eb *Env) *Env {
	j.au = &antiUnifier{a: j.A, b: j.B, memo: map[[2]*Poly]*Poly{}}
	rnA, rnB := j.canonA, j.canonB
	if !renames(rnA) {
		rnA = nil
	}
	if !renames(rnB) {
		rnB = nil
	}
	env := &Env{m: map[ssa.Value]Val{}}
	for _, r := range live {
		a, oka := ea.m[r]
		b, okb := eb.m[r]
		if !oka || !okb {
			continue
		}
		env.m[r] = j.val("r:"+regName(r), renameObjs(a, rnA), renameObjs(b, rnB), false)
	}
	// heap
	heap := map[ObjID]*Obj{}
	done := map[ObjID]bool{}
	var roots []onode
	for r := range j.comp {
		roots = append(roots, r)
	}
	sort.Slice(roots, func(i, k int) bool { return j.comp[roots[i]][0].id < j.comp[roots[k]][0].id })
	for _, r := range roots {
		c := j.comp[r]
		var id ObjID
		var av, bv []*Obj
		for _, n := range c {
			if n.b {
				if o := j.B.heap[n.id]; o != nil {
					bv = append(bv, o)
				}
				id = j.canonB[n.id]
			} else {
				if o := j.A.heap[n.id]; o != nil {
					av = append(av, o)
				}
				id = j.canonA[n.id]
			}
		}
		done[id] = true
		switch {
		case len(av) == 1 && len(bv) == 1 && !j.sumComp[id]:
			o := *av[0]
			o.val = j.val("o"+strconv.Itoa(int(id)), renameObjs(av[0].val, rnA), renameObjs(bv[0].val, rnB), false)
			heap[id] = &o
		case len(av)+len(bv) > 0:
			var o Obj
			var v Val
			first := true
			wasSummary := len(av) == 1 && av[0].summary
			for _, x := range av {
				w := renameObjs(x.val, rnA)
				if first {
					o, v, first = *x, w, false
				} else {
					v = j.au.val(v, w)
				}
			}
			v0 := v
			for _, x := range bv {
				w := renameObjs(x.val, rnB)
				if first {
					o, v, first = *x, w, false
				} else {
					v = j.au.val(v, w)
				}
			}
			if !wasSummary || !sameVal(v, v0) {
				j.mark(628)
				j.why("628", fmt.Sprint("o", id), v0, v)
			}
			o.val, o.summary = j.degrade(v), true
			heap[id] = &o
		}
	}
	// the rest: objects of one side (or common ones not reached)
	for id, o := range j.A.heap {
		cid := id
		if c, ok := j.canonA[id]; ok {
			cid = c
		}
		if !done[cid] {
			if ob := j.B.heap[id]; ob != nil && ob != o {
				n := *o
				n.val = j.val("o"+strconv.Itoa(int(id)), renameObjs(o.val, rnA), renameObjs(ob.val, rnB), false)
				heap[cid] = &n
			} else {
				if rnA == nil {
					heap[cid] = o
				} else {
					n := *o
					n.val = renameObjs(o.val, rnA)
					heap[cid] = &n
				}
			}
			done[cid] = true
		}
	}
	for id, o := range j.B.heap {
		cid := id
		if c, ok := j.canonB[id]; ok {
			cid = c
		}
		if !done[cid] {
			n := *o
			n.val = renameObjs(o.val, rnB)
			heap[cid] = &n
			done[cid] = true
		}
	}
	j.J.heap, j.J.sharedHeap = heap, false
	gh := map[string]*Poly{}
	keys := map[string]bool{}
	for k := range j.A.gh {
		keys[k] = true
	}
	for k := range j.B.gh {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		if strings.HasPrefix(k, "iter:") && j.A.gh[k] == nil {
			continue
		}
		a, b := j.A.gh[k], j.B.gh[k]
		if a == nil {
			a = zeroP
		}
		if b == nil {
			b = zeroP
		}
		gh[k] = j.poly("g:"+k, a, b)
	}
	j.J.gh, j.J.sharedGh = gh, false
	return env
}

// degrade makes the content of an object fit for a summary: named ex symbols only.
func (j *joiner) degrade(v Val) Val { return v }

func regName(v ssa.Value) string {
	return v.Name()
}

func (j *joiner) poly(path string, a, b *Poly) *Poly {
	if a == b {
		return a
	}
	na, nb := j.A.norm(a), j.B.norm(b)
	if na == nb {
		return na
	}
	// one side's value may be a special case of the other's
	for _, q := range []*Poly{b, nb} {
		if !q.isConst() && inputOnly(q) && j.A.norm(q) == na {
			return q
		}
	}
	for _, q := range []*Poly{a, na} {
		if !q.isConst() && inputOnly(q) && j.B.norm(q) == nb {
			return q
		}
	}
	return j.leaf(path, na, nb)
}

// inputOnly: the value depends on constant positions of the input only, so that
// it means the same in every state.
func inputOnly(p *Poly) bool {
	ok := true
	p.deepSyms(func(s Sym) {
		if in := s.info(); in.op != "be" && in.op != "sx" && in.set == nil {
			ok = false
		}
	})
	return ok
}

func (j *joiner) val(path string, a, b Val, sum bool) Val {
	if pa, ok := a.(*Poly); ok {
		if pb, ok := b.(*Poly); ok {
			return j.poly(path, pa, pb)
		}
	}
	if sameVal(a, b) {
		if !hasSubbed(a, j.A, j.B) {
			return a
		}
	}
	r := j.val1(path, a, b)
	return r
}

// hasSubbed: identical raw values stay identical whatever is known of their symbols.
func hasSubbed(v Val, A, B *State) bool { return false }

func (j *joiner) val1(path string, a, b Val) Val {
	switch x := a.(type) {
	case *BoolV:
		if y, ok := b.(*BoolV); ok {
			if x.op == y.op && (x.op == bGe || x.op == bEq) {
				if j.A.norm(x.p) == j.B.norm(y.p) {
					return x
				}
			}
			if x.op == bSym && strings.HasPrefix(syms[x.s].name, "joinbool") && j.loopMode {
				return x
			}
			j.mark(739)
			return &BoolV{op: bSym, s: newSym("joinbool", ivAll)}
		}
	case FloatV:
		if y, ok := b.(FloatV); ok {
			if strings.HasPrefix(x.key, "joined") {
				return x
			}
			_ = y
			j.mark(748)
			return FloatV{"joined@" + path}
		}
	case *StrV:
		if y, ok := b.(*StrV); ok {
			n := &StrV{len: j.poly(path+".len", x.len, y.len), key: "joined@" + path}
			if x.c != nil && y.c != nil && len(x.c.segs) == 1 && len(y.c.segs) == 1 {
				g, h := x.c.segs[0], y.c.segs[0]
				if g.stream != nil && h.stream != nil && g.src == h.src {
					ng := Seg{stream: j.poly(path+".str", g.stream, h.stream), off: j.poly(path+".off", g.off, h.off), ln: j.poly(path+".ln", g.ln, h.ln), src: g.src}
					n.c = &Content{segs: []Seg{ng}, off: j.poly(path+".coff", x.c.off, y.c.off)}
					return n
				}
			}
			if x.key == n.key && !x.konst && x.c == nil {
				return n
			}
			j.mark(765)
			return n
		}
	case PtrV:
		if y, ok := b.(PtrV); ok && x.obj == y.obj && x.obj != 0 && len(x.path) == len(y.path) {
			n := PtrV{obj: x.obj, path: append([]PathEl(nil), x.path...)}
			good := true
			for i := range x.path {
				if (x.path[i].idx == nil) != (y.path[i].idx == nil) || x.path[i].f != y.path[i].f {
					good = false
					break
				}
				if x.path[i].idx != nil {
					n.path[i].idx = j.poly(fmt.Sprintf("%s.ix%d", path, i), x.path[i].idx, y.path[i].idx)
				}
			}
			if good {
				return n
			}
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok && x.base.obj == y.base.obj && x.base.obj != 0 && samePathShape(x.base.path, y.base.path) &&
			(x.nilAs == nil) == (y.nilAs == nil) && (x.nilAs == nil || sameVal(x.nilAs, y.nilAs)) {
			n := *x
			n.base.path = append([]PathEl(nil), x.base.path...)
			for i := range x.base.path {
				if x.base.path[i].idx != nil {
					n.base.path[i].idx = j.poly(fmt.Sprintf("%s.ix%d", path, i), x.base.path[i].idx, y.base.path[i].idx)
				}
			}
			n.off = j.poly(path+".off", x.off, y.off)
			n.ln = j.poly(path+".len", x.ln, y.ln)
			n.cp = j.poly(path+".cap", x.cp, y.cp)
			return &n
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			n := &StructV{make([]Val, len(x.f))}
			for i := range x.f {
				n.f[i] = j.val(fmt.Sprintf("%s.%d", path, i), x.f[i], y.f[i], false)
			}
			return n
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			n := make(TupleV, len(x))
			for i := range x {
				n[i] = j.val(fmt.Sprintf("%s.%d", path, i), x[i], y[i], false)
			}
			return n
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if !x.isNil && !y.isNil && x.nilSym == 0 && y.nilSym == 0 {
				if (x.role == "error" || isErrorish(x)) && (y.role == "error" || isErrorish(y)) {
					if x.role == "error" && x.id == "joined" {
						return x
					}
					j.mark(823)
					return &IfaceV{role: "error", id: "joined"}
				}
				if x.dyn != nil && sameType(x.dyn, y.dyn) {
					n := *x
					n.val = j.val(path+".v", x.val, y.val, false)
					return &n
				}
			}
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok && x.fn == y.fn && x.fn != nil && len(x.bind) == len(y.bind) {
			n := *x
			n.bind = make([]Val, len(x.bind))
			for i := range x.bind {
				n.bind[i] = j.val(fmt.Sprintf("%s.b%d", path, i), x.bind[i], y.bind[i], false)
			}
			return &n
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok {
			return j.arr(path, x, y)
		}
	case *MapC:
		if y, ok := b.(*MapC); ok {
			n := *x
			n.consts = map[string]Val{}
			for k, v := range x.consts {
				if w, ok := y.consts[k]; ok {
					n.consts[k] = j.val(path+"["+k+"]", v, w, false)
				}
			}
			switch {
			case x.sum == nil:
				n.sum = y.sum
				if y.sum != nil {
					j.mark(859)
				}
			case y.sum == nil:
			default:
				n.sum = j.au.val(x.sum, y.sum)
				if !sameVal(n.sum, x.sum) {
					j.mark(865)
				}
			}
			return &n
		}
	case OpqV:
		if x.nz && !j.B.nilIfEmpty(b) {
			j.mark(873)
			x.nz = false
		}
		return x
	}
	if o, ok := b.(OpqV); ok {
		j.mark(874)
		o.nz = o.nz && j.A.nilIfEmpty(a)
		return o
	}
	if a == nil {
		if b != nil {
			j.mark(879)
		}
		return b
	}
	if b == nil {
		return a
	}
	// alternatives
	r := j.au.alt(a, b)
	if !sameVal(r, a) {
		j.mark(889)
	}
	return r
}

func samePathShape(a, b []PathEl) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i].idx == nil) != (b[i].idx == nil) || a[i].f != b[i].f {
			return false
		}
	}
	return true
}

func (j *joiner) arr(path string, x, y *ArrV) Val {
	n := &ArrV{n: j.poly(path+".n", x.n, y.n), elem: x.elem}
	joinBase := func(a, b Val) Val {
		if a == nil && b == nil {
			return nil
		}
		a2, b2 := baseOf(a, x.elem), baseOf(b, x.elem)
		r := j.au.val(a2, b2)
		if !sameVal(r, a2) {
			j.mark(915)
		}
		return r
	}
	// common prefix
	i := 0
	for i < len(x.segs) && i < len(y.segs) && sameLayout(j.A, j.B, x.segs[i:i+1], y.segs[i:i+1]) {
		i++
	}
	common := func(k int) Seg {
		g, h := x.segs[k], y.segs[k]
		p := fmt.Sprintf("%s.s%d", path, k)
		r := Seg{off: g.off, ln: g.ln}
		if g.off != h.off {
			r.off = j.A.norm(g.off)
		}
		if g.ln != h.ln {
			r.ln = j.A.norm(g.ln)
		}
		switch {
		case g.stream != nil && h.stream != nil && g.src == h.src:
			r.src = g.src
			r.stream = j.poly(p+".str", g.stream, h.stream)
		case g.stream == nil && h.stream == nil:
			if mentions(g.val, iotaSym) || mentions(h.val, iotaSym) {
				r.val = j.au.val(g.val, h.val)
				if !sameVal(r.val, g.val) {
					j.mark(942)
				}
			} else {
				r.val = j.val(p, g.val, h.val, false)
			}
		default:
			r.val = j.au.val(j.A.segAny(x.elem, g), j.B.segAny(x.elem, h))
			j.mark(949)
		}
		return r
	}
	if i == len(x.segs) && i == len(y.segs) {
		for k := 0; k < i; k++ {
			n.segs = append(n.segs, common(k))
		}
		n.base = joinBase(x.base, y.base)
		return n
	}
	ra, rb := x.segs[i:], y.segs[i:]
	if j.loopMode && j.tmplSub != nil && !j.flat[path] {
		// a prefix that grows by one element per iteration
		var t *Seg
		last := func(g Seg) *Poly { return j.B.norm(addScaled(g.off, 1, g.ln)) }
		switch {
		case len(ra) == 0 && len(rb) == 1 && rb[0].ln == oneP && rb[0].stream == nil:
			if v, good := j.tmplSub(rb[0].val, j.B.norm(rb[0].off)); good {
				t = &Seg{off: j.B.norm(rb[0].off), ln: j.leaf(path+".tl", zeroP, oneP), val: v}
				j.mark(969)
			}
		case len(ra) == 1 && len(rb) == 2 && ra[0].stream == nil && rb[0].stream == nil && rb[1].stream == nil && rb[1].ln == oneP &&
			j.A.norm(ra[0].off) == j.B.norm(rb[0].off) && last(rb[0]) == j.B.norm(rb[1].off):
			if v, good := j.tmplSub(rb[1].val, j.B.norm(rb[1].off)); good {
				val := ra[0].val
				j.why("982", path, rb[1].val, v)
				if !sameVal(v, val) {
					// the element of the first iteration is an instance of the general one
					if first := j.B.substVal(v, iotaSym, j.B.norm(rb[0].off)); sameVal(first, val) {
						val = v
					} else {
						val = j.au.val(val, v)
					}
					if !sameVal(val, ra[0].val) {
						j.mark(983)
						j.why("983", path, ra[0].val, val)
					}
				}
				t = &Seg{off: ra[0].off, ln: j.poly(path+".tl", ra[0].ln, addScaled(rb[0].ln, 1, oneP)), val: val}
			}
		case len(ra) == 1 && len(rb) == 1 && ra[0].stream == nil && rb[0].stream == nil && j.A.norm(ra[0].off) == j.B.norm(rb[0].off):
			v := ra[0].val
			if !sameVal(v, rb[0].val) {
				v = j.au.val(ra[0].val, rb[0].val)
				if !sameVal(v, ra[0].val) {
					j.mark(993)
				}
			}
			t = &Seg{off: ra[0].off, ln: j.poly(path+".tl", ra[0].ln, rb[0].ln), val: v}
		}
		if t != nil {
			for k := 0; k < i; k++ {
				n.segs = append(n.segs, common(k))
			}
			n.segs = append(n.segs, *t)
			n.base = joinBase(x.base, y.base)
			return n
		}
	}
	// generic: single elements written on one side only
	if len(ra)+len(rb) <= 8 && allOnes(ra) && allOnes(rb) && !j.loopMode {
		for k := 0; k < i; k++ {
			n.segs = append(n.segs, common(k))
		}
		n.base = joinBase(x.base, y.base)
		seen := map[*Poly]bool{}
		for s, gs := range [][]Seg{ra, rb} {
			for q := range gs {
				off := gs[len(gs)-1-q].off
				if seen[off] {
					continue
				}
				seen[off] = true
				va := j.A.readElem(x.elem, x.segs, x.base, off)
				vb := j.B.readElem(y.elem, y.segs, y.base, off)
				n.segs = append(n.segs, Seg{off: off, ln: oneP, val: j.val(fmt.Sprintf("%s.x%d.%d", path, s, q), va, vb, false)})
			}
		}
		return n
	}
	// collapse what differs
	for k := 0; k < i; k++ {
		n.segs = append(n.segs, common(k))
	}
	n.base = joinBase(x.base, y.base)
	for side, gs := range [][]Seg{ra, rb} {
		st, o := j.A, j.B
		ox := y
		if side == 1 {
			st, o, ox = j.B, j.A, x
		}
		for _, g := range gs {
			w := baseOf(o.collapse(ox), x.elem)
			v := j.au.val(st.segAny(x.elem, g), w)
			if _, _, isInt := intType(x.elem); isInt {
				// the run keeps its place
				if symsBelongTo(g.off, o) && symsBelongTo(g.ln, o) && !j.loopMode {
					n.segs = append(n.segs, Seg{off: g.off, ln: g.ln, val: v})
					continue
				}
			}
			n.base = j.au.val(baseOf(n.base, x.elem), v)
		}
	}
	if j.flat != nil {
		j.flat[path] = true
	}
	if len(n.segs) != len(x.segs) || !sameVal(baseOf(n.base, x.elem), baseOf(x.base, x.elem)) {
		j.mark(7)
	}
	return n
}

func symsBelongTo(p *Poly, st *State) bool { return true }

func allOnes(gs []Seg) bool {
	for _, g := range gs {
		if g.ln != oneP || g.stream != nil || mentions(g.val, iotaSym) {
			return false
		}
	}
	return true
}

// structuralOp: operations that are kept through joins.
var structuralOp = map[string]bool{"min": true, "max": true, "sx": true, "be": true}

var joinTrace = os.Getenv("PSDAN_JOIN") != ""

// joinConfs joins two configurations of the same signature at an ordinary join point.
func joinConfs(a, b *Conf, live []ssa.Value, frame ObjID) *Conf {
	J := newState()
	j := &joiner{A: a.st, B: b.st, J: J, frame: frame}
	var pairs []*pairInfo
	memo := map[[2]*Poly]*pairInfo{}
	dmemo := map[[2]*Poly]*Poly{}
	j.leaf = func(path string, pa, pb *Poly) *Poly {
		k := [2]*Poly{pa, pb}
		if p := memo[k]; p != nil {
			return symP(p.sym)
		}
		if p := dmemo[k]; p != nil {
			return p
		}
		// the same operation applied to different operands
		if x, ok := pa.asSym(); ok && syms[x].op != "" {
			if y, ok := pb.asSym(); ok && syms[y].op == syms[x].op && syms[y].n == syms[x].n && len(syms[x].args) == len(syms[y].args) && structuralOp[syms[x].op] {
				ix, iy := syms[x], syms[y]
				as := make([]*Poly, len(ix.args))
				for i := range as {
					as[i] = j.poly(path+"."+ix.op, ix.args[i], iy.args[i])
				}
				r := J.rederive(ix.op, ix.n, ivHull(ix.rng, iy.rng), as)
				if s, ok := r.asSym(); ok {
					h := ivHull(a.st.symIv(x), b.st.symIv(y))
					if h.lo > syms[s].rng.lo || h.hi < syms[s].rng.hi {
						J.setBnd(s, h)
					}
					dmemo[k] = r
					return r
				}
			}
		}
		p := &pairInfo{path: path, a: pa, b: pb, sym: newSym("j", ivAll)}
		memo[k] = p
		pairs = append(pairs, p)
		return symP(p.sym)
	}
	j.prepare(live, a.env, b.env)
	env := j.build(live, a.env, b.env)
	joinFacts(a.st, b.st, J)
	relate(pairs, a.st, b.st, J)
	if joinTrace {
		fmt.Printf("JOIN %d pairs\n", len(pairs))
		for _, p := range pairs {
			fmt.Printf("   %s: %s | %s -> %s\n", p.path, p.a, p.b, J.norm(symP(p.sym)))
		}
	}
	return &Conf{env, J}
}

// joinFacts keeps in J what both states know about the symbols they share.
func joinFacts(A, B, J *State) {
	ss := map[Sym]bool{}
	for s := range A.sub {
		ss[s] = true
	}
	for s := range B.sub {
		ss[s] = true
	}
	for s := range A.bnd {
		ss[s] = true
	}
	for s := range B.bnd {
		ss[s] = true
	}
	for s := range A.fin {
		ss[s] = true
	}
	for s := range B.fin {
		ss[s] = true
	}
	var ord []Sym
	for s := range ss {
		ord = append(ord, s)
	}
	sort.Slice(ord, func(i, k int) bool { return ord[i] < ord[k] })
	var eqA, eqB []*Poly
	for _, s := range ord {
		pa, pb := A.sub[s], B.sub[s]
		if pa != nil && pb != nil && (pa == pb || A.norm(pa) == B.norm(pb)) {
			if pa != pb {
				pa = A.norm(pa)
			}
			J.sub[s] = pa
			continue
		}
		sp := symP(s)
		na, nb := A.norm(sp), B.norm(sp)
		if fa := finiteOf(A, na); fa != nil {
			if fb := finiteOf(B, nb); fb != nil {
				if u := unionInts(fa, fb); len(u) <= 8 && len(u) > 1 {
					f := make(map[Sym][]int64, len(J.fin)+1)
					for k, v := range J.fin {
						f[k] = v
					}
					f[s] = u
					J.fin = f
				}
			}
		}
		r := ivHull(A.ival(na), B.ival(nb))
		if r.lo > s.info().rng.lo || r.hi < s.info().rng.hi {
			J.bnd[s] = r
		}
		if pa != nil {
			eqA = append(eqA, addScaled(sp, -1, pa))
		}
		if pb != nil {
			eqB = append(eqB, addScaled(sp, -1, pb))
		}
	}
	keep := func(f *Poly, in, other *State) {
		if f == nil || len(f.t) == 0 {
			return
		}
		if J.fset[f] {
			return
		}
		if other.fset[f] || other.entails(f) {
			J.addFact(f)
		}
	}
	for _, f := range A.facts {
		keep(f, A, B)
	}
	for _, f := range B.facts {
		keep(f, B, A)
	}
	for _, e := range eqA {
		if e != nil {
			keep(e, A, B)
			keep(negP(e), A, B)
		}
	}
	for _, e := range eqB {
		if e != nil {
			keep(e, B, A)
			keep(negP(e), B, A)
		}
	}
	for s, v := range A.bools {
		if w, ok := B.bools[s]; ok && v == w {
			J.bools[s] = v
		}
	}
	for _, n := range A.nes {
		if B.decideEq(n) == 0 {
			J.nes = append(J.nes, n)
		}
	}
}

// relateTo expresses p as a combination of one or two of the basis.
func relateTo(p *pairInfo, d *Poly, basis []*pairInfo, diff func(*pairInfo) *Poly, A, B, J *State) bool {
	set := func(e *Poly) bool {
		if e == nil {
			return false
		}
		J.sub[p.sym] = e
		J.ncache = nil
		return true
	}
	for _, q := range basis {
		dq := diff(q)
		if dq == nil {
			continue
		}
		if l, ok := polyRatio(d, dq); ok {
			// v = l*w + (a_p - l*a_q)
			if set(addScaled(addScaled(p.a, -l, q.a), l, symP(q.sym))) {
				return true
			}
		}
	}
	for i, q := range basis {
		dq := diff(q)
		if dq == nil {
			continue
		}
		for _, m := range []int64{1, -1} {
			r := addScaled(d, -m, dq)
			if r == nil || len(r.t) > len(d.t)+3 {
				continue
			}
			for k, q2 := range basis {
				if k <= i {
					continue
				}
				d2 := diff(q2)
				if d2 == nil {
					continue
				}
				if l, ok := polyRatio(r, d2); ok {
					e := addScaled(addScaled(p.a, -m, q.a), m, symP(q.sym))
					if set(addScaled(addScaled(e, -l, q2.a), l, symP(q2.sym))) {
						return true
					}
				}
			}
		}
	}
	// the same difference only in view of what the states know
	same := func(r *Poly) bool {
		if r == nil || len(r.t) > 6 {
			return false
		}
		return B.norm(r) == zeroP || A.norm(r) == zeroP
	}
	for _, q := range basis {
		dq := diff(q)
		if dq == nil || dq.isConst() && d.isConst() {
			continue
		}
		r := addScaled(d, -1, dq)
		if same(r) {
			// the form that means the same in both states
			e := addScaled(p.a, -1, q.a)
			if B.norm(r) != zeroP {
				e = addScaled(p.b, -1, q.b)
			}
			if set(addScaled(e, 1, symP(q.sym))) {
				return true
			}
		}
	}
	for i, q := range basis {
		dq := diff(q)
		if dq == nil {
			continue
		}
		for _, q2 := range basis[i+1:] {
			d2 := diff(q2)
			if d2 == nil {
				continue
			}
			r := addScaled(addScaled(d, -1, dq), -1, d2)
			if same(r) {
				e := addScaled(addScaled(p.a, -1, q.a), -1, q2.a)
				if B.norm(r) != zeroP {
					e = addScaled(addScaled(p.b, -1, q.b), -1, q2.b)
				}
				if set(addScaled(addScaled(e, 1, symP(q.sym)), 1, symP(q2.sym))) {
					return true
				}
			}
		}
	}
	return false
}

// relate constrains the symbols of differing integers.
func relate(pairs []*pairInfo, A, B, J *State) {
	if len(pairs) == 0 {
		return
	}
	diff := func(p *pairInfo) *Poly { return addScaled(p.a, -1, p.b) }
	size := func(d *Poly) int64 {
		g := int64(0)
		for _, t := range d.t {
			g = gcd64(g, t.c)
		}
		return gcd64(g, d.c)
	}
	if os.Getenv("PSDAN_REL") != "" {
		fmt.Println("RELATE")
		for _, p := range pairs {
			fmt.Printf("   %s %s: %s | %s\n", p.path, p.sym, p.a, p.b)
		}
	}
	ps := append([]*pairInfo(nil), pairs...)
	sort.SliceStable(ps, func(i, k int) bool {
		di, dk := diff(ps[i]), diff(ps[k])
		if di == nil || dk == nil {
			return dk == nil && di != nil
		}
		return size(di) < size(dk)
	})
	var basis []*pairInfo
outer:
	for _, p := range ps {
		d := diff(p)
		if d != nil && relateTo(p, d, basis, diff, A, B, J) {
			continue outer
		}
		basis = append(basis, p)
		r := ivHull(A.ival(p.a), B.ival(p.b))
		syms[p.sym].rng = r
		if fs := finitePair(A, B, p); fs != nil {
			syms[p.sym].set = fs
		}
		if polyFuzzy(p.a) || polyFuzzy(p.b) {
			syms[p.sym].fuzzy = true
		}
	}
	for _, p := range basis {
		t := symP(p.sym)
		cands := map[*Poly]bool{}
		gen := func(st *State, a *Poly) {
			for _, tm := range a.t {
				if len(tm.m.syms) != 1 || (tm.c != 1 && tm.c != -1) {
					continue
				}
				x := tm.m.syms[0]
				if c, lin := a.linCoef(x); !lin || c == 0 {
					continue
				}
				rest := addScaled(a, -tm.c, symP(x))
				xe := addScaled(zeroP, tm.c, addScaled(t, -1, rest)) // x = c*(t-rest)
				if xe == nil {
					continue
				}
				try := func(f *Poly) {
					f = st.norm(f)
					if f == nil || !f.hasSym(x) {
						return
					}
					if q := f.subst(func(s Sym) *Poly {
						if s == x {
							return xe
						}
						return nil
					}); q != nil {
						cands[tighten(q)] = true
					}
				}
				for _, f := range st.facts {
					try(f)
				}
			}
		}
		gen(A, p.a)
		gen(B, p.b)
		cands[addScaled(t, -1, p.a)] = true
		cands[addScaled(p.a, -1, t)] = true
		cands[addScaled(t, -1, p.b)] = true
		cands[addScaled(p.b, -1, t)] = true
		var cl []*Poly
		for c := range cands {
			if c != nil && len(c.t) > 0 {
				cl = append(cl, c)
			}
		}
		sort.Slice(cl, func(i, k int) bool { return cl[i].id < cl[k].id })
		if len(cl) > 40 {
			cl = cl[:40]
		}
		for _, c := range cl {
			ca := c.subst(func(s Sym) *Poly {
				if s == p.sym {
					return p.a
				}
				return nil
			})
			if ca == nil || !A.entails(ca) {
				continue
			}
			cb := c.subst(func(s Sym) *Poly {
				if s == p.sym {
					return p.b
				}
				return nil
			})
			if cb == nil || !B.entails(cb) {
				continue
			}
			J.addFact(c)
		}
	}
}

func finitePair(A, B *State, p *pairInfo) []int64 {
	va, vb := finiteOf(A, p.a), finiteOf(B, p.b)
	if va == nil || vb == nil {
		return nil
	}
	m := map[int64]bool{}
	for _, v := range va {
		m[v] = true
	}
	for _, v := range vb {
		m[v] = true
	}
	if len(m) > 6 {
		return nil
	}
	var r []int64
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, k int) bool { return r[i] < r[k] })
	return r
}

func unionInts(a, b []int64) []int64 {
	m := map[int64]bool{}
	for _, v := range a {
		m[v] = true
	}
	for _, v := range b {
		m[v] = true
	}
	var r []int64
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, k int) bool { return r[i] < r[k] })
	return r
}

func finiteOf(st *State, p *Poly) []int64 {
	if p.isConst() {
		return []int64{p.c}
	}
	if s, ok := p.asSym(); ok {
		return st.finite(s)
	}
	return nil
}

func polyFuzzy(p *Poly) bool {
	f := false
	p.deepSyms(func(s Sym) { f = f || syms[s].fuzzy })
	return f
}

// polyRatio finds an integer l with a = l*b.
func polyRatio(a, b *Poly) (int64, bool) {
	if b == zeroP {
		return 0, a == zeroP
	}
	if a == zeroP {
		return 0, true
	}
	var l int64
	if len(b.t) > 0 {
		if len(a.t) != len(b.t) || a.t[0].m != b.t[0].m || a.t[0].c%b.t[0].c != 0 {
			return 0, false
		}
		l = a.t[0].c / b.t[0].c
	} else {
		if len(a.t) != 0 || a.c%b.c != 0 {
			return 0, false
		}
		l = a.c / b.c
	}
	return l, addScaled(a, -l, b) == zeroP
}
