package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = Check{run: runC13, level: "other",
		expl:  "Conditional constant propagation through the value graphs of the identifier functions: for every documented key the name, length width or channel count is folded to one constant and compared with the table of the format; names are compared pairwise; the arguments of every registration with the image registry are folded.",
		assum: []string{"the analyser's tables of keys, names and widths are those of the file format documentation"}}
	checks["C25"] = Check{run: runC25, level: "other",
		expl:  "Conditional constant propagation of every blend mode value (documented ones, the empty one and an unknown one) through the value graphs of the functions that choose a drawer, map tables included: the receiver of the drawing call must fold to one implementation that is not nil, which is the one named like the mode, or the normal one for modes without implementation. Dataflow over every drawing call: mode and opacity are the drawn layer's own. The mode given to a layer when the tree is built is folded per kind of layer.",
		assum: []string{"the mode 'linear dodge' is implemented by the drawer named Add"}}
}

// modeKeys is the table of the format: name of the constant without prefix
// and key.
var modeKeys = [][2]string{
	{"PassThrough", "pass"}, {"Normal", "norm"}, {"Dissolve", "diss"}, {"Darken", "dark"}, {"Multiply", "mul "}, {"ColorBurn", "idiv"},
	{"LinearBurn", "lbrn"}, {"DarkerColor", "dkCl"}, {"Lighten", "lite"}, {"Screen", "scrn"}, {"ColorDodge", "div "}, {"LinearDodge", "lddg"},
	{"LighterColor", "lgCl"}, {"Overlay", "over"}, {"SoftLight", "sLit"}, {"HardLight", "hLit"}, {"VividLight", "vLit"}, {"LinearLight", "lLit"},
	{"PinLight", "pLit"}, {"HardMix", "hMix"}, {"Difference", "diff"}, {"Exclusion", "smud"}, {"Subtract", "fsub"}, {"Divide", "fdiv"},
	{"Hue", "hue "}, {"Saturation", "sat "}, {"Color", "colr"}, {"Luminosity", "lum "},
}

var wideKeys = []string{"LMsk", "Lr16", "Lr32", "Layr", "Mt16", "Mt32", "Mtrn", "Alph", "FMsk", "lnk2", "FEid", "FXid", "PxSD"}

func kebab(s string) string {
	var b strings.Builder
	for i, c := range s {
		if c >= 'A' && c <= 'Z' {
			if i > 0 {
				b.WriteByte('-')
			}
			c += 'a' - 'A'
		}
		b.WriteRune(c)
	}
	return b.String()
}

func (e *VEval) strV(s string) V { return e.mk("str", strconv.Quote(s)) }

// constTables are the package level maps filled once, when the package is
// initialised.
func (e *VEval) constTable(g *ssa.Global) (map[V]V, string) {
	if len(e.gstore[g]) != 1 {
		return nil, "it is assigned more than once"
	}
	st := e.gstore[g][0]
	mk, ok := st.Val.(*ssa.MakeMap)
	if !ok || st.Parent().Name() != "init" {
		return nil, "it is not filled by a literal"
	}
	out := map[V]V{}
	for _, ref := range *mk.Referrers() {
		switch x := ref.(type) {
		case *ssa.MapUpdate:
			k, ok := x.Key.(*ssa.Const)
			if !ok {
				return nil, "a key is not constant"
			}
			var kv V
			if k.Value != nil && k.Value.Kind() == constant.String {
				kv = e.strV(constant.StringVal(k.Value))
			} else if k.Value != nil && k.Value.Kind() == constant.Int {
				n, _ := constant.Int64Val(k.Value)
				kv = e.int(n, 64)
			} else {
				return nil, "a key is not constant"
			}
			v := e.initValue(x.Value)
			if v == nil {
				return nil, "the entry for " + kv.str(2) + " is not known"
			}
			out[kv] = v
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil, "it is changed elsewhere"
		}
	}
	// no changes through the variable
	for _, f := range e.p.repoFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.MUL || u.X != ssa.Value(g) {
					continue
				}
				for _, ref := range *u.Referrers() {
					switch x := ref.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.Call:
						if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
							return nil, "it is changed or handed out in " + fnLabel(f)
						}
					default:
						return nil, "it is changed or handed out in " + fnLabel(f)
					}
				}
			}
		}
	}
	return out, ""
}

func (e *VEval) initValue(v ssa.Value) V {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.mk("nil", "")
		}
		if x.Value.Kind() == constant.String {
			return e.strV(constant.StringVal(x.Value))
		}
		if x.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(x.Value)
			return e.int(n, 64)
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return e.globalValue(g)
		}
	case *ssa.MakeInterface:
		if in := e.initValue(x.X); in != nil {
			return e.mk("iface", x.X.Type().String(), in)
		}
	case *ssa.ChangeInterface:
		return e.initValue(x.X)
	case *ssa.ChangeType:
		return e.initValue(x.X)
	}
	return nil
}

// fold replaces lookups of constants in constant tables.
func (e *VEval) fold(v V) (V, string) {
	why := ""
	find := func(lk V) (val V, found, ok bool) {
		m, k := lk.args[0], lk.args[1]
		if m.op != "deref" || k.op != "str" && k.op != "int" {
			return nil, false, false
		}
		g, isG := m.args[0].ref.(*ssa.Global)
		if !isG {
			return nil, false, false
		}
		tab, w := e.constTable(g)
		if tab == nil {
			why = g.Name() + ": " + w
			return nil, false, false
		}
		val, found = tab[k]
		return val, found, true
	}
	r := e.rebuild(v, func(n V) V {
		if n.op == "ext" && n.args[0].op == "lookup" {
			val, found, ok := find(n.args[0])
			if !ok {
				return nil
			}
			if n.aux == "1" {
				return e.boolean(found)
			}
			if !found {
				return e.mk("nil", "")
			}
			return val
		}
		if n.op == "lookup" {
			val, found, ok := find(n)
			if !ok {
				return nil
			}
			if !found {
				return e.mk("nil", "")
			}
			return val
		}
		return nil
	})
	return r, why
}

// constsOf returns the package level constants of a named type.
func constsOf(pkg *types.Package, typ string) map[string]constant.Value {
	out := map[string]constant.Value{}
	sc := pkg.Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok {
			continue
		}
		if nt, ok := c.Type().(*types.Named); ok && nt.Obj().Name() == typ && nt.Obj().Pkg() == pkg {
			out[n] = c.Val()
		}
	}
	return out
}

func methodOf(p *Program, pkg *RepoPkg, typ, name string) *ssa.Function {
	for _, f := range p.repoFuncs() {
		if f.Name() == name && f.Signature.Recv() != nil && f.Pkg == pkg.SSA && f.Synthetic == "" {
			t := f.Signature.Recv().Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if nt, ok := t.(*types.Named); ok && nt.Obj().Name() == typ {
				return f
			}
		}
	}
	return nil
}

// result folds the result of a function for constant arguments.
func (e *VEval) result(f *ssa.Function, args ...V) (V, string) {
	e.effs, e.reads, e.nloop, e.nsym, e.gos = nil, nil, 0, 0, 0
	ret, _ := e.Run(f, args)
	e.effs = nil
	if ret == nil {
		return nil, "no result"
	}
	return e.fold(ret)
}

func runC13(ctx *Ctx, r *Report) {
	p := ctx.prog("linux-amd64")
	e := newVEval(p)
	root := p.Pkgs[""]
	// blend modes
	consts := constsOf(root.Types, "BlendMode")
	keys := map[string]string{}
	for _, mk := range modeKeys {
		name := "BlendMode" + mk[0]
		c, ok := consts[name]
		if !r.check(ok, "blend mode keys", name, "blendmode.go", "the documented mode %q has no constant", mk[0]) {
			continue
		}
		got := constant.StringVal(c)
		r.check(got == mk[1], "blend mode keys", name, "blendmode.go", "%s is %q, the format's key is %q", name, got, mk[1])
	}
	for n, c := range consts {
		s := constant.StringVal(c)
		if o, dup := keys[s]; dup {
			r.bad("blend mode keys", n, "blendmode.go", "%s and %s have the same key %q", n, o, s)
		}
		keys[s] = n
	}
	str := methodOf(p, root, "BlendMode", "String")
	if str == nil {
		r.undecided("blend mode names", "BlendMode.String", "-", "the function that names modes was not found")
	} else {
		r.fn(fnLabel(str))
		pos := p.rel(str.Pos())
		names := map[V]string{}
		known := append([][2]string{}, modeKeys...)
		for _, mk := range known {
			v, why := e.result(str, e.strV(mk[1]))
			if v == nil || v.op != "str" {
				r.undecided("blend mode names", fnLabel(str), pos, "the name of %q is not constant %s", mk[1], why)
				continue
			}
			want := e.strV(kebab(mk[0]))
			r.check(v == want, "blend mode names", fnLabel(str)+" "+mk[1], pos, "the name of mode %q is %s, not %s", mk[1], v.str(2), want.str(2))
			if o, dup := names[v]; dup {
				r.bad("blend mode names", fnLabel(str)+" "+mk[1], pos, "modes %q and %q have the same name %s", o, mk[1], v.str(2))
			}
			names[v] = mk[1]
		}
		for _, unk := range []string{"", "zzzz", "NORM", "mul", "hue", "sat", "lum"} {
			v, _ := e.result(str, e.strV(unk))
			r.check(v == nil || names[v] == "", "blend mode names", fnLabel(str)+" unknown", pos, "the unknown key %q has the name of mode %q", unk, names[v])
		}
	}
	// length widths
	ls := methodOf(p, root, "AdditionalInfoKey", "LenSize")
	if ls == nil {
		r.undecided("length widths", "LenSize", "-", "the function that gives the width of lengths was not found")
	} else {
		r.fn(fnLabel(ls))
		pos := p.rel(ls.Pos())
		wide := map[string]bool{}
		all := map[string]bool{"": true, "zzzz": true}
		for _, k := range wideKeys {
			wide[k] = true
			all[k] = true
		}
		for _, c := range constsOf(root.Types, "AdditionalInfoKey") {
			all[constant.StringVal(c)] = true
		}
		// keys the function itself distinguishes, and other documented ones
		sym := e.mk("param", "key")
		for _, lg := range []bool{false, true} {
			v, _ := e.result(ls, sym, e.boolean(lg))
			anyNode(v, func(n V) bool {
				if n.op == "str" {
					if s, err := strconv.Unquote(n.aux); err == nil {
						all[s] = true
					}
				}
				return false
			})
		}
		for _, k := range strings.Fields("SoCo GdFl PtFl brit levl curv expA vibA hue hue2 blnc blwh phfl mixr clrL nvrt post thrs grdm selc lrFX tySh luni lyid lfx2 Patt Pat2 Pat3 Anno clbl infx knko lspf lclr fxrp grdm lsct lsdk brst vmsk vsms TySh ffxr lnsr shpa SoLd vstk vscg sn2P vogk Mtrn lnkD lnk3 lnkE CgEd Txt2 pths anFX vmgm cinf artb artd abdd PlLd SoLE") {
			all[k] = true
		}
		var ks []string
		for k := range all {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, lg := range []bool{false, true} {
				want := int64(4)
				if lg && wide[k] {
					want = 8
				}
				v, why := e.result(ls, e.strV(k), e.boolean(lg))
				n, ok := int64(0), false
				if v != nil {
					n, ok = v.intConst()
				}
				if !ok {
					r.undecided("length widths", fnLabel(ls), pos, "the width for key %q is not constant %s", k, why)
					continue
				}
				r.check(n == want, "length widths", fnLabel(ls)+" "+k, pos, "the length of key %q has %d bytes (large document: %v), the format has %d", k, n, lg, want)
			}
		}
	}
	infoKeys := map[string]string{"LayerInfo": "Layr", "LayerInfo16": "Lr16", "LayerInfo32": "Lr32", "UnicodeLayerName": "luni", "BlendClippingElements": "clbl", "SectionDividerSetting": "lsct", "SectionDividerSetting2": "lsdk"}
	ac := constsOf(root.Types, "AdditionalInfoKey")
	for n, k := range infoKeys {
		c, ok := ac["AdditionalInfoKey"+n]
		if ok {
			r.check(constant.StringVal(c) == k, "information keys", "AdditionalInfoKey"+n, "psd.go", "AdditionalInfoKey%s is %q, the format's key is %q", n, constant.StringVal(c), k)
		}
	}
	seen := map[string]string{}
	for n, c := range ac {
		s := constant.StringVal(c)
		r.check(seen[s] == "", "information keys", n, "psd.go", "%s and %s have the same key", n, seen[s])
		seen[s] = n
	}
	// colour modes
	modes := []struct {
		name string
		val  int64
		ch   int64
	}{{"Bitmap", 0, 1}, {"Grayscale", 1, 1}, {"Indexed", 2, 1}, {"RGB", 3, 3}, {"CMYK", 4, 4}, {"Multichannel", 7, 0}, {"Duotone", 8, 0}, {"Lab", 9, 0}}
	cm := constsOf(root.Types, "ColorMode")
	chf := methodOf(p, root, "ColorMode", "Channels")
	for _, m := range modes {
		if c, ok := cm["ColorMode"+m.name]; ok {
			n, _ := constant.Int64Val(c)
			r.check(n == m.val, "colour modes", "ColorMode"+m.name, "colormode.go", "ColorMode%s is %d, the format has %d", m.name, n, m.val)
		} else {
			r.bad("colour modes", "ColorMode"+m.name, "colormode.go", "the colour mode %s has no constant", m.name)
		}
		if chf == nil || m.ch == 0 {
			continue
		}
		v, why := e.result(chf, e.int(m.val, 64))
		n, ok := int64(0), false
		if v != nil {
			n, ok = v.intConst()
		}
		if !ok {
			r.undecided("colour modes", fnLabel(chf), p.rel(chf.Pos()), "the number of channels of %s is not constant %s", m.name, why)
			continue
		}
		r.check(n == m.ch, "colour modes", fnLabel(chf)+" "+m.name, p.rel(chf.Pos()), "colour mode %s reports %d channels instead of %d", m.name, n, m.ch)
	}
	if chf == nil {
		r.undecided("colour modes", "ColorMode.Channels", "-", "the function that counts channels was not found")
	} else {
		r.fn(fnLabel(chf))
	}
	c13Register(ctx, r, p, e, root)
	r.atLeast("blend mode keys", 28)
	r.atLeast("blend mode names", 28)
	r.atLeast("length widths", 40)
	r.atLeast("colour modes", 13)
	r.atLeast("registration", 2)
}

// c13Register checks the registrations with the image registry.
func c13Register(ctx *Ctx, r *Report, p *Program, e *VEval, root *RepoPkg) {
	want := map[string]bool{"8BPS\x00\x01": false, "8BPS\x00\x02": false}
	names := map[string]bool{}
	n := 0
	for _, f := range p.repoFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				t := c.Call.StaticCallee()
				if t == nil || t.String() != "image.RegisterFormat" {
					continue
				}
				n++
				where, pos := fnLabel(f), p.rel(c.Pos())
				if !strings.HasPrefix(f.Name(), "init") {
					r.bad("registration", where, pos, "a format is registered outside initialisation")
				}
				magic, ok := constStrOf(c.Call.Args[1])
				name, ok2 := constStrOf(c.Call.Args[0])
				if !ok || !ok2 {
					r.undecided("registration", where, pos, "the registered signature is not constant")
					continue
				}
				done, known := want[magic]
				r.check(known && !done, "registration", where+" "+name, pos, "the signature %q is not one of a version not yet registered", magic)
				want[magic] = true
				r.check(!names[name], "registration", where+" "+name, pos, "two versions are registered under the name %q", name)
				names[name] = true
				// the functions
				for i, api := range map[int]string{2: "Decode", 3: "DecodeConfig"} {
					fn := fnOf(c.Call.Args[i])
					if fn == nil {
						r.undecided("registration", where+" "+name, pos, "the registered function is not known")
						continue
					}
					target := root.SSA.Func(api)
					r.check(target != nil && callsFn(fn, target, 4), "registration", where+" "+name, pos, "%s, registered for %s, does not call %s", fnLabel(fn), name, api)
				}
			}
		}
	}
	for m, ok := range want {
		r.check(ok, "registration", fmt.Sprintf("signature %q", m), "psd.go", "the signature %q is not registered", m)
	}
}

func constStrOf(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func fnOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return fnOf(x.X)
	}
	return nil
}

func callsFn(f, t *ssa.Function, d int) bool {
	if f == t {
		return true
	}
	if d == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Blocks != nil && callsFn(g, t, d-1) {
					return true
				}
			}
		}
	}
	return false
}

// drawerType is the dynamic type bound to a drawer of package blend.
func drawerTypes(p *Program) map[string]string {
	out := map[string]string{}
	pk := p.Pkgs["blend"]
	for _, m := range pk.SSA.Members {
		g, ok := m.(*ssa.Global)
		if !ok || !token.IsExported(g.Name()) {
			continue
		}
		for _, b := range pk.SSA.Func("init").Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				if mi, ok := st.Val.(*ssa.MakeInterface); ok {
					out[g.Name()] = mi.X.Type().String()
				}
			}
		}
	}
	return out
}

func isModeT(t types.Type) bool { return strings.HasSuffix(t.String(), "psd.BlendMode") }
func isLayerPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && strings.HasSuffix(pt.Elem().String(), "/composite.Layer")
}

func runC25(ctx *Ctx, r *Report) {
	p := ctx.prog("linux-amd64")
	e := newVEval(p)
	drawers := drawerTypes(p)
	byType := map[string]string{}
	for n, t := range drawers {
		if o, dup := byType[t]; dup {
			r.bad("drawers", n, "blend", "the drawers %s and %s are the same implementation", o, n)
		}
		byType[t] = n
		r.ok("drawers")
	}
	okh := compositeOnly(p, nil)
	var fns []*ssa.Function
	for _, f := range p.repoFuncs() {
		if inPkg(f, "composite") && f.Blocks != nil {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnLabel(fns[i]) < fnLabel(fns[j]) })
	modeParam := func(f *ssa.Function) int {
		for i, pr := range f.Params {
			if isModeT(pr.Type()) {
				return i
			}
		}
		return -1
	}
	for _, f := range fns {
		mp := modeParam(f)
		if mp < 0 || !okh[f] {
			continue
		}
		e.effs, e.reads, e.nloop, e.nsym, e.gos = nil, nil, 0, 0, 0
		var args []V
		ints := map[V]bool{}
		for i, pr := range f.Params {
			a := e.param(fmt.Sprintf("d%d", i), i, pr.Type())
			args = append(args, a)
			if b, ok := pr.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ints[a] = true
			}
		}
		e.inline = func(g *ssa.Function, as []V) bool { return okh[g] || g.Synthetic != "" }
		e.Run(f, args)
		e.inline = nil
		var draws []*VEff
		own := false
		for _, x := range e.effs {
			if x.kind == "call" && (x.name == "invoke:DrawMask" || x.name == "invoke:Draw" || strings.HasSuffix(x.name, ").Draw") || strings.HasSuffix(x.name, ").DrawMask")) && len(x.args) > 0 {
				draws = append(draws, x)
				own = own || anyNode(x.args[0], func(n V) bool { return n == args[mp] })
			}
		}
		if !own {
			continue
		}
		r.fn(fnLabel(f))
		r.count("functions that choose a drawer", 1)
		for _, x := range draws {
			if !anyNode(x.args[0], func(n V) bool { return n == args[mp] }) {
				continue
			}
			// the opacity reaches the mask unchanged
			if strings.HasSuffix(x.name, "DrawMask") && len(x.args) > 5 {
				good := false
				anyNode(x.args[5], func(n V) bool {
					if n.op == "trunc" && n.aux == "8" && ints[n.args[0]] {
						good = true
					}
					return false
				})
				r.check(good, "opacity", fnLabel(f), p.rel(x.pos), "the mask the image is drawn with is not the given opacity")
			} else {
				r.bad("opacity", fnLabel(f), p.rel(x.pos), "the image is drawn without the given opacity")
			}
		}
		modes := append([][2]string{}, modeKeys...)
		modes = append(modes, [2]string{"", ""}, [2]string{"", "zzzz"})
		for _, m := range modes {
			if m[0] == "PassThrough" {
				m[0] = ""
			}
			want := drawers[m[0]]
			if m[0] == "LinearDodge" { // "Linear Dodge (Add)"
				want = drawers["Add"]
			}
			if want == "" {
				want = drawers["Normal"]
			}
			n := 0
			for _, x := range draws {
				g, why := e.fold(e.subst(x.guard, args[mp], e.strV(m[1])))
				if g.isFalse() {
					continue
				}
				n++
				v, why2 := e.fold(e.subst(x.args[0], args[mp], e.strV(m[1])))
				if why == "" {
					why = why2
				}
				where := fmt.Sprintf("%s mode %q", fnLabel(f), m[1])
				switch {
				case !anyNode(x.args[0], func(n V) bool { return n == args[mp] }):
				case v.op == "nil":
					r.bad("mode table", where, p.rel(x.pos), "a layer with this mode is drawn with no drawer: the program fails")
				case v.op != "iface":
					r.undecided("mode table", where, p.rel(x.pos), "the drawer is not known: %s %s", v.str(4), why)
				default:
					r.check(v.aux == want, "mode table", where, p.rel(x.pos), "a layer with this mode is drawn with %s instead of %s", v.aux, want)
				}
			}
			if n == 0 && m[1] != "pass" {
				r.bad("mode table", fmt.Sprintf("%s mode %q", fnLabel(f), m[1]), p.rel(f.Pos()), "a layer with this mode is not drawn at all")
			}
		}
	}
	e.effs = nil
	c25Calls(p, r, fns, modeParam)
	c25Build(ctx, p, e, r, fns)
	r.atLeast("drawers", 26)
	r.atLeast("mode table", 30)
	r.atLeast("own mode", 6)
	r.atLeast("layer mode", 16)
}

// layerField finds the object whose field is loaded, following conversions.
func layerField(v ssa.Value, field string) ssa.Value {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldNameOf(fa.X.Type(), fa.Field) == field {
			return rootLayer(fa.X)
		}
		if s := onlyStore(x.X); s != nil {
			return layerField(s, field)
		}
	case *ssa.Field:
		if fieldNameOf(x.X.Type(), x.Field) == field {
			if u, ok := x.X.(*ssa.UnOp); ok {
				return rootLayer(u.X)
			}
		}
	case *ssa.Convert:
		return layerField(x.X, field)
	case *ssa.ChangeType:
		return layerField(x.X, field)
	}
	return nil
}

// rootLayer normalises a pointer to a layer: a local copy stands for itself.
func rootLayer(v ssa.Value) ssa.Value {
	for d := 0; d < 5; d++ {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if s := onlyStore(u.X); s != nil {
				v = s
				continue
			}
		}
		break
	}
	return v
}

// dependsOn reports whether v is computed from something satisfying f.
func dependsOn(v ssa.Value, f func(ssa.Value) bool, d int) bool {
	if f(v) {
		return true
	}
	if d == 0 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return dependsOn(x.X, f, d-1) || dependsOn(x.Y, f, d-1)
	case *ssa.Convert:
		return dependsOn(x.X, f, d-1)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if dependsOn(a, f, d-1) {
				return true
			}
		}
	case *ssa.Phi:
		for _, a := range x.Edges {
			if !dependsOn(a, f, d-1) {
				return false
			}
		}
		return true
	}
	return false
}

// sameLayer compares two pointers to layers: equal values, or addresses of
// the same element.
func sameLayer(a, b ssa.Value) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.IndexAddr)
	y, ok2 := b.(*ssa.IndexAddr)
	return ok1 && ok2 && x.Index == y.Index && skey(x.X, 0) == skey(y.X, 0)
}

// c25Calls checks that every drawing call is given the drawn layer's own mode
// and opacity.
func c25Calls(p *Program, r *Report, fns []*ssa.Function, modeParam func(*ssa.Function) int) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				t := c.Common().StaticCallee()
				if t == nil || !inPkg(t, "composite") || modeParam(t) < 0 {
					continue
				}
				as := c.Common().Args
				m := as[modeParam(t)]
				where, pos := fnLabel(f)+" "+t.Name(), p.rel(in.Pos())
				var layerArg ssa.Value
				var opac []ssa.Value
				for i, pr := range t.Params {
					if isLayerPtr(pr.Type()) {
						layerArg = rootLayer(as[i])
					}
					if bt, ok := pr.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Int {
						opac = append(opac, as[i])
					}
				}
				isParam := func(v ssa.Value) bool {
					for d := 0; d < 3; d++ {
						if u, ok := v.(*ssa.UnOp); ok {
							if s := onlyStore(u.X); s != nil {
								v = s
							}
						}
					}
					_, ok := v.(*ssa.Parameter)
					return ok
				}
				if isParam(m) && layerArg == nil {
					for _, o := range opac {
						r.check(isParam(o) || len(f.Params) == 0, "own mode", where, pos, "the opacity handed on is not the one this function was given")
					}
					r.ok("own mode")
					continue
				}
				obj := layerField(m, "BlendMode")
				if obj == nil {
					// a helper that is given the layer and its mode
					if isParam(m) && isParam(layerArg) {
						r.ok("own mode")
						continue
					}
					if isParam(m) {
						r.bad("own mode", where, pos, "a layer is drawn with the mode of another layer")
						continue
					}
					r.undecided("own mode", where, pos, "it is not known where the mode comes from")
					continue
				}
				if layerArg != nil {
					r.check(sameLayer(obj, layerArg), "own mode", where, pos, "a layer is drawn with the mode of another layer")
				}
				for _, o := range opac {
					r.check(dependsOn(o, func(v ssa.Value) bool {
						w := layerField(v, "Opacity")
						return w != nil && sameLayer(w, obj)
					}, 6), "own mode", where, pos, "a layer is drawn with an opacity that does not depend on its own")
				}
			}
		}
	}
}

// c25Build checks the modes layers are given when the tree is built.
func c25Build(ctx *Ctx, p *Program, e *VEval, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		if f.Blocks == nil || f.Parent() != nil {
			continue
		}
		li, si := -1, -1
		for i, pr := range f.Params {
			if isLayerPtr(pr.Type()) {
				li = i
			}
			if pt, ok := pr.Type().Underlying().(*types.Pointer); ok && strings.HasSuffix(pt.Elem().String(), "/psd.Layer") {
				si = i
			}
		}
		if li < 0 || si < 0 {
			continue
		}
		lst := f.Params[li].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		sst := f.Params[si].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		idx := func(s *types.Struct, n string) int {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == n {
					return i
				}
			}
			return -1
		}
		e.effs, e.reads, e.nloop, e.nsym, e.gos = nil, nil, 0, 0, 0
		var args []V
		for i, pr := range f.Params {
			args = append(args, e.param(fmt.Sprintf("b%d", i), i, pr.Type()))
		}
		e.Run(f, args)
		l, s := args[li], e.mk("deref", "", args[si])
		fieldV := func(n string) V { return e.field(s, idx(sst, n), sst.NumFields()) }
		div := fieldV("SectionDividerSetting")
		dst := sst.Field(idx(sst, "SectionDividerSetting")).Type().Underlying().(*types.Struct)
		typV := e.field(div, idx(dst, "Type"), dst.NumFields())
		divM := e.field(div, idx(dst, "BlendMode"), dst.NumFields())
		mode := fieldV("BlendMode")
		var stores []*VEff
		bi := strconv.Itoa(idx(lst, "BlendMode"))
		for _, x := range e.effs {
			if x.kind == "store" && x.addr.op == "fld" && x.addr.args[0] == l && x.addr.aux == bi {
				stores = append(stores, x)
			}
		}
		where, pos := fnLabel(f), p.rel(f.Pos())
		if len(stores) == 0 {
			continue
		}
		r.fn(where)
		for _, typ := range []int64{0, 1, 2, 3} {
			for _, m := range []string{"pass", "norm", "mul ", "zzzz", "diss"} {
				at := func(v V) V {
					v = e.subst(e.subst(v, typV, e.int(typ, 64)), mode, e.strV(m))
					v, _ = e.fold(v)
					return v
				}
				var got V
				known := true
				for _, x := range stores {
					g := at(x.guard)
					if g.isFalse() {
						continue
					}
					if !g.isTrue() {
						known = false
					}
					got = at(x.val)
				}
				want := e.strV(m)
				if typ == 1 || typ == 2 {
					want = divM
				} else if m == "pass" {
					want = e.strV("norm")
				}
				if got == nil || !known {
					r.undecided("layer mode", fmt.Sprintf("%s type %d mode %q", where, typ, m), pos, "the mode the layer gets is not decided")
					continue
				}
				r.check(got == want, "layer mode", fmt.Sprintf("%s type %d mode %q", where, typ, m), p.rel(stores[0].pos), "a layer with divider type %d and mode %q gets the mode %s", typ, m, got.str(4))
			}
		}
		// other properties that decide how the layer is drawn
		for _, n := range []string{"SeqID", "Opacity", "Clipping", "BlendClippedElements"} {
			i, j := idx(lst, n), idx(sst, n)
			if i < 0 || j < 0 {
				continue
			}
			found := false
			for _, x := range e.effs {
				if x.kind == "store" && x.addr.op == "fld" && x.addr.args[0] == l && x.addr.aux == strconv.Itoa(i) {
					found = true
					v := x.val
					for v.op == "conv" || v.op == "zx" || v.op == "sx" || v.op == "trunc" {
						v = v.args[0]
					}
					r.check(v == fieldV(n) && x.guard.isTrue(), "layer property", where+" "+n, p.rel(x.pos), "the layer's %s is not the one of the record", n)
				}
			}
			r.check(found, "layer property", where+" "+n, pos, "the layer's %s is never set", n)
		}
	}
	e.effs = nil
}
