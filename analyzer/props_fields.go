package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ---- C10: where the fields come from ----

// fieldMon compares what is stored to the fields of the exported structures
// with the place in the file that the format documents for them.
type fieldMon struct {
	nopMon
	j       judged
	rects   map[string][]*Poly // position of the rectangle, by structure
	waiting []func()
}

// judged collects verdicts.
type judged struct {
	facts map[string]*decFact
	order []string
	recs  map[string]int
}

func (m *judged) judge(rule, where, class, msg string, verdict int) {
	if m.facts == nil {
		m.facts, m.recs = map[string]*decFact{}, map[string]int{}
	}
	k := rule + "|" + where + "|" + class
	f := m.facts[k]
	if f == nil {
		f = &decFact{rule: rule, where: where, verdict: 1}
		m.facts[k] = f
		m.order = append(m.order, k)
	}
	m.recs[rule]++
	switch {
	case verdict == 0 && f.verdict != 0, verdict == -1 && f.verdict == 1:
		f.verdict, f.msg = verdict, msg
	}
}

func (m *judged) report(r *Report, rules ...string) {
	want := map[string]bool{}
	for _, k := range rules {
		want[k] = true
	}
	for _, k := range m.order {
		f := m.facts[k]
		if !want[f.rule] {
			continue
		}
		switch f.verdict {
		case 1:
			r.ok(f.rule)
		case 0:
			r.bad(f.rule, f.where, "-", "%s", f.msg)
		default:
			r.undecided(f.rule, f.where, "-", "%s", f.msg)
		}
	}
	for _, k := range rules {
		r.count("judged: "+k, m.recs[k])
	}
}

// field is the big-endian integer that a value is made of.
type beField struct {
	pos    *Poly
	w      int64
	signed bool
}

func beOf(v Val) (beField, bool) {
	p, ok := v.(*Poly)
	if !ok {
		return beField{}, false
	}
	s, ok := p.asSym()
	if !ok {
		return beField{}, false
	}
	in := s.info()
	f := beField{}
	if in.op == "sx" {
		f.signed = true
		w := in.n
		if s, ok = in.args[0].asSym(); !ok {
			return beField{}, false
		}
		in = s.info()
		if in.op != "be" || in.n*8 != w {
			return beField{}, false
		}
	}
	if in.op != "be" || len(in.args) != 1 {
		return beField{}, false
	}
	f.pos, f.w = in.args[0], in.n
	return f, true
}

func ptrKey(p PtrV) string { return fmt.Sprintf("%d%s", p.obj, pathStr(p.path)) }

// rectPos: the position of a rectangle stored as top, left, bottom, right.
// The second result tells whether the rectangle is the documented one.
func (m *fieldMon) rectPos(st *State, v Val) (*Poly, int, string) {
	sv, ok := v.(*StructV)
	if !ok || len(sv.f) != 2 {
		return nil, -1, ""
	}
	var low *Poly
	fuzzy := false
	mapVal(v, func(p *Poly) *Poly {
		p.deepSyms(func(s Sym) {
			in := s.info()
			if in.fuzzy || in.op == "" && (in.name == "j" || in.name == "any") {
				fuzzy = true
			}
			if in.op == "be" && len(in.args) == 1 {
				q := in.args[0]
				if low == nil {
					low = q
				} else if d := addScaled(q, -1, low); d.isConst() && d.c < 0 {
					low = q
				}
			}
		})
		return p
	})
	if low == nil {
		if emptyVal(st, v) {
			return nil, 1, ""
		}
		return nil, -1, ""
	}
	at := func(off int64) *Poly { return st.sx(streamBE(addScaled(low, 1, K(off)), 4), 32) }
	t, l, b, r := at(0), at(4), at(8), at(12)
	want := &StructV{f: []Val{
		&StructV{f: []Val{st.minmax(l, r, true), st.minmax(t, b, true)}},
		&StructV{f: []Val{st.minmax(l, r, false), st.minmax(t, b, false)}},
	}}
	raw := &StructV{f: []Val{&StructV{f: []Val{l, t}}, &StructV{f: []Val{r, b}}}}
	for _, w := range []*StructV{want, raw} {
		same := true
		for i := range 2 {
			a, ok1 := sv.f[i].(*StructV)
			b := w.f[i].(*StructV)
			if !ok1 {
				same = false
				break
			}
			for k := range 2 {
				p, ok := a.f[k].(*Poly)
				if !ok || equal(st, addScaled(p, -1, b.f[k].(*Poly))) != 1 {
					same = false
				}
			}
		}
		if same {
			return low, 1, ""
		}
	}
	if fuzzy {
		return nil, -1, ""
	}
	return low, 0, fmt.Sprintf("the rectangle is %.300s instead of top, left, bottom, right as signed 32 bit integers at %s", vstr(v), low)
}

// psbIn: whether the document is known to be a large one.
func psbIn(st *State) int {
	r := -2
	for _, o := range st.heap {
		n, ok := o.typ.(*types.Named)
		if !ok || n.Obj().Name() != "Config" {
			continue
		}
		sv, ok := o.val.(*StructV)
		s, ok2 := n.Underlying().(*types.Struct)
		if !ok || !ok2 {
			continue
		}
		for i := range sv.f {
			if s.Field(i).Name() != "Version" {
				continue
			}
			p, ok := sv.f[i].(*Poly)
			if !ok {
				return -1
			}
			p = st.norm(p)
			v := -1
			switch {
			case p.isConst() && p.c == 1:
				v = 0
			case p.isConst() && p.c == 2:
				v = 1
			case p.isConst():
				continue
			}
			if r != -2 && r != v {
				return -1
			}
			r = v
		}
	}
	if r == -2 {
		return -1
	}
	return r
}

// at judges that the value is the integer of width w at one of the positions.
func (m *fieldMon) at(st *State, label, where string, v Val, poss []*Poly, w int64, signed bool) {
	p, ok := v.(*Poly)
	if ok && p.isConst() {
		return // the default
	}
	f, ok := beOf(v)
	if !ok {
		m.j.judge("field", label, "", "the value is not recognised: "+fmt.Sprintf("%.200s", vstr(v)), -1)
		return
	}
	if len(poss) == 0 {
		m.j.judge("field", label, "", "the start of the structure is not known", -1)
		return
	}
	best, near := -1, false
	for _, q := range poss {
		d := st.norm(addScaled(f.pos, -1, q))
		if d == nil {
			continue
		}
		switch e := equal(st, d); {
		case e == 1:
			best = 1
		case e == 0 && best != 1:
			unrelated := false
			d.deepSyms(func(s Sym) {
				if strings.HasPrefix(s.info().name, "q.") {
					unrelated = true
				}
			})
			if !unrelated {
				best, near = 0, true
			}
		}
	}
	_ = near
	if best == 1 && (f.w != w || f.signed != signed && w < 8) {
		best = 0
	}
	m.j.judge("field", label, "", fmt.Sprintf("the value is %s, but the format has a %d byte %s integer at %s", vstr(v), w, map[bool]string{true: "signed", false: "unsigned"}[signed], poss[len(poss)-1]), best)
}

func shift(ps []*Poly, d *Poly) []*Poly {
	var r []*Poly
	if d == nil {
		return nil
	}
	for _, p := range ps {
		if q := addScaled(p, 1, d); q != nil {
			r = append(r, q)
		}
	}
	return r
}

func (m *fieldMon) store(x *Interp, a *act, ins *ssa.Store, st *State, p PtrV, v Val) {
	fa, ok := ins.Addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	s := t.Underlying().(*types.Struct)
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != "psd" {
		return
	}
	v = mapVal(v, func(p *Poly) *Poly { return st.norm(p) })
	tn, fname := n.Obj().Name(), s.Field(fa.Field).Name()
	base := p
	base.path = append([]PathEl(nil), p.path...)
	if len(base.path) > 0 {
		base.path = base.path[:len(base.path)-1]
	}
	key := ptrKey(base)
	label := tn + "." + fname
	where := fnLabel(a.fn)
	switch tn {
	case "Config":
		m.config(st, fname, label, where, v)
		return
	case "Layer", "Mask":
	default:
		return
	}
	if fname == "Rect" || fname == "RealRect" {
		pos, ok, msg := m.rectPos(st, v)
		if ok != 1 || pos == nil {
			if ok != 1 {
				m.j.judge("field", label, "", msg, ok)
			}
			return
		}
		m.j.judge("field", label, "", "", 1)
		switch {
		case fname == "Rect":
			m.addRect(tn, key, pos)
			if tn == "Mask" {
				// the mask follows the twelve bytes after the channel list, the length of
				// the extra data and its own length
				m.fromLayer(st, label, where, base, pos, 20)
			}
		default:
			m.where(st, label, pos, shift(m.rects["Mask"+key], m.maskOff(st, m.rects["Mask"+key], 2)))
		}
		return
	}
	rs := m.rects[tn+key]
	if tn == "Layer" {
		switch fname {
		case "Opacity":
			m.at(st, label, where, v, m.afterChannels(st, rs, 8), 1, false)
		case "Flags":
			m.at(st, label, where, v, m.afterChannels(st, rs, 10), 1, false)
		case "Clipping":
			b, ok := v.(*BoolV)
			if !ok || b.op == bConst {
				return
			}
			neg := false
			if b.op == bNot && b.a != nil {
				neg, b = true, b.a
			}
			if b.op != bEq || !neg {
				m.j.judge("field", label, "", "the value is not recognised: "+vstr(v), -1)
				return
			}
			m.at(st, label, where, st.norm(b.p), m.afterChannels(st, rs, 9), 1, false)
		case "BlendMode":
			m.str(st, label, v, m.afterChannels(st, rs, 4), 4)
		}
		return
	}
	switch fname {
	case "DefaultColor":
		m.at(st, label, where, v, shift(rs, K(16)), 1, false)
	case "Flags":
		m.at(st, label, where, v, shift(rs, K(17)), 1, false)
	case "UserMaskDensity":
		m.param(st, label, where, v, rs, 0, 1)
	case "UserMaskFeather":
		m.param(st, label, where, v, rs, 1, 8)
	case "VectorMaskDensity":
		m.param(st, label, where, v, rs, 2, 1)
	case "VectorMaskFeather":
		m.param(st, label, where, v, rs, 3, 8)
	case "RealFlags":
		m.at(st, label, where, v, shift(rs, m.maskOff(st, rs, 0)), 1, false)
	case "RealBackgroundColor":
		m.at(st, label, where, v, shift(rs, m.maskOff(st, rs, 1)), 1, false)
	}
}

func (m *fieldMon) addRect(tn, key string, pos *Poly) {
	k := tn + key
	for _, q := range m.rects[k] {
		if q == pos {
			return
		}
	}
	m.rects[k] = append(m.rects[k], pos)
}

func (m *fieldMon) where(st *State, label string, pos *Poly, want []*Poly) {
	best := -1
	var exp *Poly
	for _, q := range want {
		switch e := equal(st, addScaled(pos, -1, q)); {
		case e == 1:
			best = 1
		case e == 0 && best == -1:
			d := st.norm(addScaled(pos, -1, q))
			rel := true
			d.deepSyms(func(s Sym) {
				if strings.HasPrefix(s.info().name, "q.") {
					rel = false
				}
			})
			if rel {
				best, exp = 0, q
			}
		}
	}
	m.j.judge("field", label, "", fmt.Sprintf("taken from %s instead of %s", pos, exp), best)
}

// afterChannels: positions relative to the signature behind the channel list.
func (m *fieldMon) afterChannels(st *State, rs []*Poly, off int64) []*Poly {
	psb := psbIn(st)
	var r []*Poly
	for _, b := range rs {
		n := streamBE(addScaled(b, 1, K(16)), 2)
		for v, stride := range []int64{6, 10} {
			if psb >= 0 && psb != v {
				continue
			}
			if q := addScaled(addScaled(b, 1, K(18+off)), stride, n); q != nil {
				r = append(r, st.norm(q))
			}
		}
	}
	return r
}

func (m *fieldMon) fromLayer(st *State, label, where string, mask PtrV, pos *Poly, off int64) {
	if len(mask.path) == 0 {
		return
	}
	b := mask
	b.path = b.path[:len(b.path)-1]
	rs := m.rects["Layer"+ptrKey(b)]
	if len(rs) == 0 {
		return
	}
	m.where(st, label+" (offset)", pos, m.afterChannels(st, rs, off))
}

func (m *fieldMon) str(st *State, label string, v Val, poss []*Poly, n int64) {
	s, ok := v.(*StrV)
	if !ok || s.konst || s.c == nil {
		if ok && s.konst {
			return
		}
		m.j.judge("field", label, "", "the value is not recognised: "+vstr(v), -1)
		return
	}
	if len(poss) == 0 {
		m.j.judge("field", label, "", "the start of the structure is not known", -1)
		return
	}
	if l := st.norm(s.len); !l.isConst() || l.c != n {
		m.j.judge("field", label, "", fmt.Sprintf("the length of the key is %s", l), 0)
		return
	}
	p := contentStream(st, s.c, K(n))
	if p == nil {
		m.j.judge("field", label, "", "the bytes are not known: "+vstr(v), -1)
		return
	}
	m.where(st, label, p, poss)
}

// bitsOf: the flags and parameter bytes of a mask with its rectangle at b.
func (m *fieldMon) bits(st *State, b *Poly) (present *Poly, bit [4]*Poly) {
	present = st.norm(st.bit(streamBE(addScaled(b, 1, K(17)), 1), 4))
	for i := range bit {
		bit[i] = st.norm(st.bit(streamBE(addScaled(b, 1, K(18)), 1), int64(i)))
	}
	return
}

var maskParamSize = [4]int64{1, 8, 1, 8}

// maskOff: the offset behind the mask parameters, if the state determines it.
func (m *fieldMon) maskOff(st *State, rs []*Poly, off int64) *Poly {
	var found *Poly
	for _, b := range rs {
		pr, bit := m.bits(st, b)
		if !pr.isConst() {
			continue
		}
		d := K(18 + off)
		if pr.c == 1 {
			d = addScaled(d, 1, oneP)
			for i := range bit {
				d = addScaled(d, maskParamSize[i], bit[i])
			}
		}
		found = d
	}
	return found
}

// param: a mask parameter is there if its bit is set.
func (m *fieldMon) param(st *State, label, where string, v Val, rs []*Poly, i int, w int64) {
	if p, ok := v.(*Poly); ok && p.isConst() {
		if p.c != 0 && p.c != 255 {
			m.j.judge("field", label, "", "the default is "+vstr(v), 0)
		}
		return
	}
	f, isF := v.(FloatV)
	var pos []*Poly
	for _, b := range rs {
		pr, bit := m.bits(st, b)
		if !pr.isConst() || !bit[i].isConst() {
			continue
		}
		if pr.c == 0 || bit[i].c == 0 {
			m.j.judge("field", label, "", "the parameter is taken from the file although its bit is not set", 0)
			return
		}
		d := addScaled(b, 1, K(19))
		for k := range i {
			d = addScaled(d, maskParamSize[k], bit[k])
		}
		pos = append(pos, st.norm(d))
	}
	if isF {
		if len(pos) == 0 {
			m.j.judge("field", label, "", "the start of the structure is not known", -1)
			return
		}
		best := -1
		for _, q := range pos {
			if f.key == fkey("Float64frombits", keyOfPoly(st, streamBE(q, 8))) {
				best = 1
			} else if strings.HasPrefix(f.key, "Float64frombits(be(") && best != 1 && !polyFuzzy(q) && m.bitsKnown(st, rs, i) {
				best = 0
			}
		}
		m.j.judge("field", label, "", fmt.Sprintf("the value is %s, but the format has a double at %s", f.key, pos[0]), best)
		return
	}
	m.at(st, label, where, v, pos, w, false)
}

// bitsKnown: the bits of the parameters before number i are known.
func (m *fieldMon) bitsKnown(st *State, rs []*Poly, i int) bool {
	for _, b := range rs {
		_, bit := m.bits(st, b)
		for k := range i {
			if !bit[k].isConst() {
				return false
			}
		}
	}
	return true
}

func keyOfPoly(st *State, p *Poly) string { return st.norm(p).String() }

func (m *fieldMon) config(st *State, fname, label, where string, v Val) {
	exp := configTerms(st)[fname]
	if exp == nil {
		return
	}
	if emptyVal(st, v) {
		return
	}
	m.j.judge("field", label, "", fmt.Sprintf("the value is %.200s instead of %s", vstr(v), vstr(exp)), sameTerm(st, v, exp))
}

// configTerms are the documented places of the header fields.
func configTerms(st *State) map[string]Val {
	be := func(o, n int64) *Poly { return streamBE(K(o), n) }
	return map[string]Val{
		"Version":   be(4, 2),
		"Channels":  be(12, 2),
		"Rect":      &StructV{f: []Val{&StructV{f: []Val{zeroP, zeroP}}, &StructV{f: []Val{be(18, 4), be(14, 4)}}}},
		"Depth":     be(22, 2),
		"ColorMode": st.sx(be(24, 2), 16),
	}
}

// sameTerm: 1 same, 0 different, -1 unknown.
func sameTerm(st *State, v, w Val) int {
	switch w := w.(type) {
	case *Poly:
		p, ok := v.(*Poly)
		if !ok {
			return -1
		}
		if e := equal(st, addScaled(p, -1, w)); e != 0 {
			return e
		}
		// a field of 16 bits may be kept signed or unsigned if it cannot tell
		if f, ok := beOf(p); ok {
			if g, ok := beOf(w); ok && f.w == g.w && f.pos == g.pos {
				return -1
			}
		}
		return 0
	case *StructV:
		s, ok := v.(*StructV)
		if !ok || len(s.f) != len(w.f) {
			return -1
		}
		r := 1
		for i := range w.f {
			if w.f[i] == nil {
				continue
			}
			switch e := sameTerm(st, s.f[i], w.f[i]); {
			case e == 0:
				return 0
			case e == -1:
				r = -1
			}
		}
		return r
	}
	return -1
}

// ---- C14: the header ----

type headMon struct {
	nopMon
	judged
}

func (m *headMon) leave(x *Interp, a *act, st *State, vals []Val) {
	if a.up == nil && a.g0 != nil && resultsError(a.fn) {
		m.header(a, st, vals, succeeds(st, vals))
	}
}

func headerRun(c *Ctx, m *headMon, limit time.Duration) (*Interp, string) {
	p := c.prog("linux-amd64")
	x := newInterp(p, m)
	x.modular, x.noMerge = true, true
	x.deadline = time.Now().Add(limit)
	x.prepareGlobals(ssautil.AllFunctions(p.SSA))
	x.roots = decodeRoots(p)
	d := &decodeRun{x: x}
	for _, fn := range x.roots {
		rs := fn.Signature.Results()
		if rs.Len() != 3 {
			continue
		}
		if n, ok := rs.At(0).Type().(*types.Named); ok && n.Obj().Name() == "Config" {
			d.entry(fn)
		}
	}
	return x, d.limit
}

func (m *headMon) header(a *act, st *State, vals []Val, ok int) {
	rs := a.fn.Signature.Results()
	if rs.Len() != 3 {
		return
	}
	n, isN := rs.At(0).Type().(*types.Named)
	if !isN || n.Obj().Name() != "Config" {
		return
	}
	where := fnLabel(a.fn)
	be := func(o, n int64) *Poly { return streamBE(K(o), n) }
	sig := addScaled(be(0, 4), -1, K(0x38425053))
	ver, chs, h, w, depth := be(4, 2), be(12, 2), be(14, 4), be(18, 4), be(22, 2)
	atLeast := func(p *Poly, k int64) *Poly { return addScaled(p, 1, K(-k)) }
	atMost := func(p *Poly, k int64) *Poly { return addScaled(K(k), -1, p) }
	if ok == 1 {
		j := func(class, msg string, holds bool) {
			v := 0
			if holds {
				v = 1
			}
			m.judge("accepts-only-valid", where, class, msg, v)
		}
		j("signature", "a header without the signature 8BPS is accepted", st.decideEq(sig) == 1)
		j("version", "a version other than 1 and 2 is accepted", refuted(st, func(s *State) bool { return s.assume(atMost(ver, 0)) }) && refuted(st, func(s *State) bool { return s.assume(atLeast(ver, 3)) }))
		j("channels", "less than 1 or more than 56 channels are accepted", refuted(st, func(s *State) bool { return s.assume(atMost(chs, 0)) }) && refuted(st, func(s *State) bool { return s.assume(atLeast(chs, 57)) }))
		good := true
		for _, r := range [][2]int64{{0, 0}, {2, 7}, {9, 15}, {17, 31}, {33, 65535}} {
			good = good && refuted(st, func(s *State) bool { return s.assume(atLeast(depth, r[0])) && s.assume(atMost(depth, r[1])) })
		}
		j("depth", "a depth other than 1, 8, 16 and 32 is accepted", good)
		for v, lim := range map[int64]int64{1: 30000, 2: 300000} {
			for name, d := range map[string]*Poly{"width": w, "height": h} {
				j(name, fmt.Sprintf("a %s out of the range from 1 to %d is accepted in version %d", name, lim, v),
					refuted(st, func(s *State) bool { return s.assumeEq(addScaled(ver, -1, K(v))) && s.assume(atMost(d, 0)) }) &&
						refuted(st, func(s *State) bool { return s.assumeEq(addScaled(ver, -1, K(v))) && s.assume(atLeast(d, lim+1)) }))
			}
		}
		return
	}
	if ok != 0 || ghostZero(st, "failed") != 1 {
		return
	}
	// a rejection that no failed read explains
	if g := st.norm(st.G("G")); !g.isConst() || g.c > 30 {
		return // behind the header
	}
	verdict, msg := 1, ""
	for v, lim := range map[int64]int64{1: 30000, 2: 300000} {
		for _, dp := range []int64{1, 8, 16, 32} {
			s := st.clone()
			if s.assumeEq(sig) && s.assumeEq(addScaled(ver, -1, K(v))) && s.assumeEq(addScaled(depth, -1, K(dp))) &&
				s.assume(atLeast(chs, 1)) && s.assume(atMost(chs, 56)) &&
				s.assume(atLeast(w, 1)) && s.assume(atMost(w, lim)) && s.assume(atLeast(h, 1)) && s.assume(atMost(h, lim)) && s.feasible() {
				verdict = 0
				msg = fmt.Sprintf("a version %d header with depth %d within the documented limits is rejected", v, dp)
			}
		}
	}
	m.judge("rejects-only-invalid", where, "", msg, verdict)
}

// refuted: the state becomes contradictory with the assumption.
func refuted(st *State, f func(s *State) bool) bool {
	s := st.clone()
	return !f(s) || !s.feasible()
}

// ---- C11: options and callbacks ----

type optMon struct {
	nopMon
	j       judged
	variant string
	merged  bool // SkipMergedImage
	layers  bool // SkipLayerImage
	cbs     bool // the callbacks are given
	entry   *ssa.Function
	called  map[string]int
	totals  []*Poly
	sites   map[*ssa.BasicBlock]bool // calls of the layer callback
	role    string
}

func isCallback(role, name string) bool { return strings.HasSuffix(role, "."+name) || role == name }

func headerEnd() *Poly {
	c := streamBE(K(26), 4)
	return addScaled(addScaled(K(34), 1, c), 1, streamBE(addScaled(K(30), 1, c), 4))
}

func (m *optMon) dyncall(x *Interp, a *act, ins ssa.CallInstruction, st *State, role string, args []Val) {
	where := fnLabel(a.fn)
	for i := range args {
		args[i] = mapVal(args[i], func(p *Poly) *Poly { return st.norm(p) })
	}
	switch {
	case isCallback(role, "ConfigLoaded"):
		m.called["config"]++
		m.j.judge("config-callback", where, "position", fmt.Sprintf("the configuration callback is called when %s bytes were read, not when exactly the header was", st.norm(st.G("G"))),
			equal(st, addScaled(st.G("G"), -1, headerEnd())))
		if len(args) != 1 {
			return
		}
		t := ins.Common().Signature().Params().At(0).Type()
		s, ok := t.Underlying().(*types.Struct)
		v, ok2 := args[0].(*StructV)
		if !ok || !ok2 {
			return
		}
		for i := range v.f {
			if w := configTerms(st)[s.Field(i).Name()]; w != nil {
				m.j.judge("config-callback", where, s.Field(i).Name(), fmt.Sprintf("the callback gets %s = %s", s.Field(i).Name(), vstr(v.f[i])), sameTerm(st, v.f[i], w))
			}
		}
	case isCallback(role, "LayerImageLoaded"):
		m.called["layer"]++
		if m.layers {
			m.j.judge("layer-callback", where, "skipped", "the layer callback is called although the layer images are skipped", 0)
			return
		}
		if len(args) != 3 || m.entry == nil {
			return
		}
		n := st.norm(st.G("cb:" + role))
		for _, f := range []string{"Channel", "Picker"} {
			g := st.norm(st.G("set:" + f))
			v := -1
			switch {
			case g == oneP:
				v = 1
			case st.gh["set:"+f] == nil:
				v = 0
			}
			m.j.judge("layer-callback", where, f, "the layer callback is called before the "+f+" of the layer is set", v)
		}
		m.sites[ins.Block()] = true
		for b := a; b.up != nil; b = b.up {
			if b.site != nil {
				m.sites[b.site.Block()] = true
			}
		}
		m.role = role
		if i, ok := args[1].(*Poly); ok {
			m.j.judge("layer-callback", where, "index", fmt.Sprintf("the layer callback is called with index %s when it was called %s times before", i, n), equal(st, addScaled(i, -1, n)))
		}
		if t, ok := args[2].(*Poly); ok {
			m.totals = append(m.totals, t)
		}
	}
}

func (m *optMon) store(x *Interp, a *act, ins *ssa.Store, st *State, p PtrV, v Val) {
	fa, ok := ins.Addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	n, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
	if !ok || n.Obj().Name() != "Layer" {
		return
	}
	switch n.Underlying().(*types.Struct).Field(fa.Field).Name() {
	case "Channel", "Picker":
		if !m.layers {
			f := n.Underlying().(*types.Struct).Field(fa.Field).Name()
			if x.quiet == 0 && !emptyVal(st, v) {
				st.setGh("set:"+f, oneP)
			}
			return
		}
		if !emptyVal(st, v) {
			m.j.judge("skip-layers", fnLabel(a.fn), "", "a layer gets image data although the layer images are skipped", 0)
		}
	}
}

func (m *optMon) back(x *Interp, a *act, l *loopInfo, h, b *State) {
	if m.entry == nil || m.layers || !m.cbs {
		return
	}
	here := false
	for s := range m.sites {
		here = here || s.Parent() == a.fn && x.info(a.fn).inner[s] == l
	}
	if !here {
		return
	}
	d := b.norm(addScaled(addScaled(b.G("cb:"+m.role), -1, h.G("cb:"+m.role)), -1, oneP))
	v := equal(b, d)
	if v == -1 && !refuted(b, func(s *State) bool { return s.assumeEq(addScaled(d, 1, oneP)) }) {
		v = 0
	}
	m.j.judge("layer-callback", fnLabel(a.fn), "each", "there is a way round the loop over the layers on which the layer callback is not called exactly once", v)
}

func (m *optMon) leave(x *Interp, a *act, st *State, vals []Val) {
	if a.g0 == nil || a.up != nil || !resultsError(a.fn) || succeeds(st, vals) != 1 {
		return
	}
	where := fnLabel(a.fn)
	if m.entry != nil {
		if m.layers {
			m.j.judge("skip-layers", where, "", "", 1)
			return
		}
		// the callback was called for each layer
		sl, ok := vals[0].(*SliceV)
		if !ok {
			return
		}
		n := K(0)
		for k := range st.gh {
			if strings.HasPrefix(k, "cb:") && strings.HasSuffix(k, "LayerImageLoaded") {
				n = st.norm(st.G(k))
			}
		}
		ln := sl.ln
		if sl.base.obj == 0 {
			ln = zeroP
		}
		m.j.judge("layer-callback", where, "count", fmt.Sprintf("the layer callback is called %s times for %s layers", n, st.norm(ln)), equal(st, addScaled(n, -1, ln)))
		for _, t := range m.totals {
			if sl.base.obj != 0 && st.decideEq(ln) != 1 {
				m.j.judge("layer-callback", where, "total", fmt.Sprintf("the layer callback is told that there are %s layers, but there are %s", t, st.norm(ln)), equal(st, addScaled(t, -1, ln)))
			}
		}
		return
	}
	if len(vals) != 3 {
		return
	}
	n := zeroP
	for k := range st.gh {
		if strings.HasPrefix(k, "cb:") && strings.HasSuffix(k, "ConfigLoaded") {
			n = st.norm(st.G(k))
		}
	}
	want := K(0)
	if m.cbs {
		want = oneP
	}
	m.j.judge("config-callback", where, "count", fmt.Sprintf("the configuration callback is called %s times", n), equal(st, addScaled(n, -1, want)))
	p, ok := vals[0].(PtrV)
	if !ok || p.obj == 0 || st.heap[p.obj] == nil {
		return
	}
	sv, ok := st.heap[p.obj].val.(*StructV)
	s, ok2 := a.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok || !ok2 {
		return
	}
	for i, f := range sv.f {
		switch s.Field(i).Name() {
		case "Data", "Channel", "Picker":
			empty := emptyVal(st, f)
			if m.merged {
				m.j.judge("skip-merged", where, s.Field(i).Name(), "the merged image is present in "+s.Field(i).Name()+" although it is skipped: "+vstr(f), b2i(empty))
			} else {
				m.j.judge("skip-merged", where, s.Field(i).Name(), "the merged image is missing in "+s.Field(i).Name()+" although it is not skipped", b2i(!empty))
			}
		}
	}
	best := -1
	for _, w := range []int64{4, 8} {
		for _, f := range lengthTerms(st, headerEnd(), w) {
			d := addScaled(addScaled(addScaled(st.G("G"), -1, headerEnd()), -1, f), -1, K(w))
			switch e := equal(st, d); {
			case m.merged && e == 1:
				best = 1
			case !m.merged && e == 1:
				best = 0
			case !m.merged && best == -1:
				best = 1
			case m.merged && e == 0 && best == -1 && knownWidth(st, w):
				best = 0
			}
		}
	}
	m.j.judge("skip-merged", where, "position", fmt.Sprintf("with SkipMergedImage %v decoding ends at %s", m.merged, st.norm(st.G("G"))), best)
}

func knownWidth(st *State, w int64) bool {
	v := st.norm(streamBE(K(4), 2))
	return v.isConst() && (v.c == 1 && w == 4 || v.c == 2 && w == 8)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// optionsRun analyses the decoder with fixed options.
func optionsRun(c *Ctx, m *optMon, limit time.Duration) (*Interp, string) {
	p := c.prog("linux-amd64")
	x := newInterp(p, m)
	x.modular = true
	x.deadline = time.Now().Add(limit)
	x.prepareGlobals(ssautil.AllFunctions(p.SSA))
	x.roots = decodeRoots(p)
	d := &decodeRun{x: x}
	x.optVal = func(st *State, t types.Type, name string) Val {
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Name() != "DecodeOptions" {
			return nil
		}
		s := n.Underlying().(*types.Struct)
		v := &StructV{}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			switch {
			case f.Name() == "SkipLayerImage":
				v.f = append(v.f, boolC(m.layers))
			case f.Name() == "SkipMergedImage":
				v.f = append(v.f, boolC(m.merged))
			default:
				if _, ok := f.Type().Underlying().(*types.Signature); ok {
					if m.cbs {
						v.f = append(v.f, &FuncV{role: name + "." + f.Name()})
					} else {
						v.f = append(v.f, &FuncV{isNil: true})
					}
					continue
				}
				v.f = append(v.f, st.freshVal(f.Type(), name+"."+f.Name(), false))
			}
		}
		return v
	}
	run := func(fn *ssa.Function, merged, layers, cbs bool) {
		m.merged, m.layers, m.cbs, m.totals = merged, layers, cbs, nil
		d.entry(fn)
	}
	m.called, m.sites = map[string]int{}, map[*ssa.BasicBlock]bool{}
	for _, fn := range x.roots {
		takes := false
		for _, q := range fn.Params {
			if pt, ok := q.Type().Underlying().(*types.Pointer); ok {
				if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Name() == "DecodeOptions" {
					takes = true
				}
			}
		}
		if !takes {
			continue
		}
		run(fn, true, true, true)
		run(fn, false, false, true)
		run(fn, false, true, false)
		x.nilPtrs = true
		run(fn, false, false, false)
		x.nilPtrs = false
	}
	for _, k := range sortedFns(x.contracts) {
		takes := false
		for _, q := range k.Params {
			if pt, ok := q.Type().Underlying().(*types.Pointer); ok {
				if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Name() == "DecodeOptions" {
					takes = true
				}
			}
		}
		if !takes {
			continue
		}
		m.entry = k
		run(k, false, true, true)
		run(k, false, false, true)
		m.entry = nil
	}
	return x, d.limit
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var r []*ssa.Function
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func init() {
	checks["C14"] = Check{run: func(c *Ctx, r *Report) {
		m := &headMon{}
		x, lim := headerRun(c, m, 600*time.Second)
		for fn := range x.fnSeen {
			r.fn(fn)
		}
		r.count("interpreted instructions", x.steps)
		if lim != "" {
			r.undecided("limit", "decoder", "-", "%s", lim)
		}
		m.report(r, "accepts-only-valid", "rejects-only-invalid")
		if lim == "" {
			r.atLeast("accepts-only-valid", 5)
			r.atLeast("rejects-only-invalid", 1)
		}
	}, level: "other", expl: "The function that decodes the header is interpreted abstractly, path by path (linear relations between the symbolic header fields, no input is executed). Where it succeeds the header fields must be confined to the documented ranges; where it fails within the header although no read failed, the documented ranges must be contradicted."}
	checks["C11"] = Check{run: func(c *Ctx, r *Report) {
		m := &optMon{}
		x, lim := optionsRun(c, m, 600*time.Second)
		for fn := range x.fnSeen {
			r.fn(fn)
		}
		r.count("interpreted instructions", x.steps)
		if lim != "" {
			r.undecided("limit", "decoder", "-", "%s", lim)
		}
		m.j.report(r, "config-callback", "layer-callback", "skip-layers", "skip-merged")
		if lim == "" {
			r.atLeast("config-callback", 5)
			r.atLeast("skip-merged", 4)
			r.check(m.called["config"] > 0, "config-callback", "decoder", "-", "the configuration callback is never called")
			r.check(m.called["layer"] > 0, "layer-callback", "decoder", "-", "the layer callback is never called")
		}
	}, level: "other", expl: "The decoder is interpreted abstractly with each combination of options fixed (callbacks given, not given, no options at all; layer images and merged image skipped or not)."}
}
