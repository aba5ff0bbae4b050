package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fnInfo holds what the typestate engine precomputes about a function.
type fnInfo struct {
	reach   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	usedIn  map[ssa.Value]map[*ssa.BasicBlock]bool
	keep    map[*ssa.If]bool
	tracked []ssa.Value // phis, calls and allocs
}

var fnInfos = map[*ssa.Function]*fnInfo{}

// skey names a condition without regard to the state; comparisons with constants are named by their operand.
func skey(v ssa.Value, d int) string {
	if d > 8 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.Const:
		return "const"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return "*" + skey(x.X, d+1)
		}
		return skey(x.X, d+1)
	case *ssa.FieldAddr:
		return skey(x.X, d+1) + "." + fmt.Sprint(x.Field)
	case *ssa.Field:
		return skey(x.X, d+1) + "." + fmt.Sprint(x.Field)
	case *ssa.BinOp:
		a, b := skey(x.X, d+1), skey(x.Y, d+1)
		if a > b {
			a, b = b, a
		}
		return "(" + a + " " + b + ")"
	case *ssa.ChangeInterface:
		return skey(x.X, d+1)
	case *ssa.MakeInterface:
		return skey(x.X, d+1)
	case *ssa.ChangeType:
		return skey(x.X, d+1)
	case *ssa.Convert:
		return skey(x.X, d+1)
	}
	return v.Name()
}

func infoOf(fn *ssa.Function) *fnInfo {
	if i := fnInfos[fn]; i != nil {
		return i
	}
	fi := &fnInfo{reach: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, usedIn: map[ssa.Value]map[*ssa.BasicBlock]bool{}, keep: map[*ssa.If]bool{}}
	fnInfos[fn] = fi
	for _, b := range fn.Blocks {
		m := map[*ssa.BasicBlock]bool{b: true}
		w := []*ssa.BasicBlock{b}
		for len(w) > 0 {
			x := w[len(w)-1]
			w = w[:len(w)-1]
			for _, s := range x.Succs {
				if !m[s] {
					m[s] = true
					w = append(w, s)
				}
			}
		}
		fi.reach[b] = m
	}
	var ifs []*ssa.If
	keys := map[*ssa.If]string{}
	mark := func(v ssa.Value, b *ssa.BasicBlock) {
		if fi.usedIn[v] == nil {
			fi.usedIn[v] = map[*ssa.BasicBlock]bool{}
		}
		fi.usedIn[v][b] = true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.If:
				ifs = append(ifs, x)
				keys[x] = skey(x.Cond, 0)
			case *ssa.Phi:
				for i, e := range x.Edges {
					mark(e, b.Preds[i])
				}
				fi.tracked = append(fi.tracked, x)
				continue
			case *ssa.Call:
				fi.tracked = append(fi.tracked, x)
			case *ssa.Alloc:
				fi.tracked = append(fi.tracked, x)
			}
			for _, op := range in.Operands(nil) {
				if *op != nil {
					mark(*op, b)
				}
			}
		}
	}
	for _, i := range ifs {
		for _, j := range ifs {
			if i != j && keys[i] == keys[j] && fi.reach[i.Block()][j.Block()] {
				fi.keep[i] = true
			}
		}
	}
	return fi
}

// liveAt reports whether v, or something computed from it without memory, is used in or after b.
func (fi *fnInfo) liveAt(v ssa.Value, b *ssa.BasicBlock, d int) bool {
	for ub := range fi.usedIn[v] {
		if fi.reach[b][ub] {
			return true
		}
	}
	if d > 6 {
		return true
	}
	if r := v.Referrers(); r != nil {
		for _, ref := range *r {
			switch rv := ref.(type) {
			case *ssa.BinOp:
				if fi.liveAt(rv, b, d+1) {
					return true
				}
			case *ssa.Extract:
				if fi.liveAt(rv, b, d+1) {
					return true
				}
			case *ssa.MakeInterface:
				if fi.liveAt(rv, b, d+1) {
					return true
				}
			case *ssa.ChangeInterface:
				if fi.liveAt(rv, b, d+1) {
					return true
				}
			case *ssa.ChangeType:
				if fi.liveAt(rv, b, d+1) {
					return true
				}
			case *ssa.FieldAddr:
				if fi.liveAt(rv, b, d+1) {
					return true
				}
			case *ssa.UnOp:
				if fi.liveAt(rv, b, d+1) {
					return true
				}
			case *ssa.MakeClosure:
				return true
			case *ssa.Defer:
				return true
			}
		}
	}
	return false
}

// prune forgets what is no longer needed at b.
func (fl *Flow) prune(fr *frame, st *FState, b *ssa.BasicBlock) {
	fi := infoOf(fr.fn)
	for _, v := range fi.tracked {
		kind := "phi"
		switch v.(type) {
		case *ssa.Call:
			kind = "r"
		case *ssa.Alloc:
			kind = "a"
		}
		if _, named := fr.names[v]; !named {
			continue
		}
		k := fl.key(kind, fr, v)
		has := false
		for e := range st.env {
			if e == k || strings.HasPrefix(e, k+"#") || strings.HasPrefix(e, "cell:"+k) {
				has = true
			}
		}
		if !has || fi.liveAt(v, b, 0) {
			continue
		}
		for e := range st.env {
			if e == k || strings.HasPrefix(e, k+"#") || strings.HasPrefix(e, "cell:"+k) {
				delete(st.env, e)
			}
		}
		st.sigc = ""
	}
}
