package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// decodeResult runs the whole-decoder analysis once per process.
func decodeResult(c *Ctx) (*decodeRun, *decodeMons) {
	if v, ok := c.cache["decode"]; ok {
		r := v.([2]any)
		return r[0].(*decodeRun), r[1].(*decodeMons)
	}
	p := c.prog("linux-amd64")
	m := &decodeMons{decMon: &decMon{roots: map[*ssa.Function]bool{}, sects: map[string]bool{}}, fields: &fieldMon{rects: map[string][]*Poly{}}}
	for _, fn := range decodeRoots(p) {
		m.roots[fn] = true
	}
	d := runDecode(p, m, 780*time.Second)
	c.cache["decode"] = [2]any{d, m}
	return d, m
}

// decodeMons watches for all the properties at once.
type decodeMons struct {
	*decMon
	fields *fieldMon
}

func (m *decodeMons) store(x *Interp, a *act, ins *ssa.Store, st *State, p PtrV, v Val) {
	m.fields.store(x, a, ins, st, p, v)
}

// base reports what was analysed and what kept it from being complete.
func (d *decodeRun) base(r *Report) {
	for fn := range d.x.fnSeen {
		r.fn(fn)
	}
	r.count("entry functions", len(d.entries))
	r.count("interpreted instructions", d.x.steps)
	if d.limit != "" {
		r.undecided("limit", "decoder", "-", "%s", d.limit)
	}
	r.check(len(d.entries) >= 2, "coverage", "decoder", "-", "the entry points of the decoder were not found")
	for _, e := range d.entries {
		if e.err != "" {
			r.undecided("limit", fnLabel(e.fn), "-", "%s", e.err)
		}
	}
	for _, k := range sortedKeys(d.x.unmod) {
		r.Notes = append(r.Notes, fmt.Sprintf("called without a model: %s (%d times)", k, d.x.unmod[k]))
	}
}

func (d *decodeRun) obligations(r *Report, want func(kind string) bool) {
	var ks []string
	for k := range d.x.obl {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o := d.x.obl[k]
		if !want(o.kind) {
			continue
		}
		switch {
		case o.fail > 0:
			msg := o.msg
			if o.chain != "" {
				msg += " (" + o.chain + ")"
			}
			r.bad(o.kind, o.where, o.pos, "%s", msg)
		case o.fuzzy > 0:
			r.undecided(o.kind, o.where, o.pos, "%s", o.msg)
		default:
			r.ok(o.kind)
		}
	}
}

func init() {
	const how = "The decoder is interpreted abstractly as a whole (linear relations between symbolic input fields, loop invariants by affine induction, no input is executed): every path from every exported entry point and every recursive reading function on its own."
	checks["C01"] = Check{run: func(c *Ctx, r *Report) {
		d, m := decodeResult(c)
		d.base(r)
		m.report(r, "count")
		// Where the count of an entry point cannot be followed, the
		// functions that it is summed up from are judged on their own.
		unknown := false
		for _, f := range m.facts {
			unknown = unknown || f.rule == "count" && f.verdict == -1
		}
		if unknown {
			m.report(r, "inner-count")
		}
		if d.limit == "" {
			r.atLeast("count", 2)
		}
	}, level: "other", expl: how + " At every successful return of an entry point the returned count must equal the number of bytes taken from the reader, as polynomials over the input fields."}
	checks["C02"] = Check{run: func(c *Ctx, r *Report) {
		d, m := decodeResult(c)
		d.base(r)
		m.report(r, "section-end", "declared-amount", "channel-end")
		if d.limit == "" {
			r.atLeast("section-end", 3)
			r.atLeast("declared-amount", 3)
			r.atLeast("channel-end", 1)
		}
	}, level: "other", expl: how + " A function that begins with reading a length field and acts upon it must have consumed exactly that many bytes at every successful return; every read or skip of an amount that depends on the input must end where a length field read before says."}
	checks["C03"] = Check{run: func(c *Ctx, r *Report) {
		d, _ := decodeResult(c)
		d.base(r)
		d.obligations(r, func(k string) bool { return !strings.HasPrefix(k, "seek-") })
		var ls []string
		for k := range d.x.loopOK {
			ls = append(ls, k)
		}
		for k := range d.x.loopStuck {
			if d.x.loopOK[k] == 0 && d.x.loopBad[k] == "" {
				ls = append(ls, k)
			}
		}
		for k := range d.x.loopBad {
			if d.x.loopOK[k] == 0 {
				ls = append(ls, k)
			}
		}
		sort.Strings(ls)
		for _, k := range ls {
			fn, pos, _ := strings.Cut(k, "|")
			switch {
			case d.x.loopStuck[k] != "":
				r.bad("termination", fn, pos, "the loop can go round without changing anything, for ever (%s)", d.x.loopStuck[k])
			case d.x.loopOK[k] > 0:
				r.ok("termination")
			case d.limit != "":
				r.undecided("termination", fn, pos, "%s", d.x.loopBad[k])
			default:
				r.bad("termination", fn, pos, "the loop may not terminate: %s", d.x.loopBad[k])
			}
		}
		if d.limit == "" {
			r.atLeast("index-range", 30)
			r.atLeast("termination", 8)
		}
	}, level: "other", expl: how + " Every index, slice, make length, nil dereference, type assertion, conversion, shift, division and explicit panic is an obligation; every loop must have a measure that decreases on every way round; recursion is only accepted where it is bounded."}
	checks["C04"] = Check{run: func(c *Ctx, r *Report) {
		d, m := decodeResult(c)
		d.base(r)
		m.report(r, "failure", "no-result-on-error")
		workerErrors(c, r)
		if d.limit == "" {
			r.atLeast("failure", 2)
		}
	}, level: "other", expl: how + " A ghost variable records that a read, skip, decompression or callback failed; it must be unset at every successful return of an entry point, and with an error no result may be returned."}
	checks["C05"] = Check{run: func(c *Ctx, r *Report) {
		d, m := decodeResult(c)
		d.base(r)
		m.report(r, "unverified-skip", "partial-read")
		d.obligations(r, func(k string) bool { return strings.HasPrefix(k, "seek-") })
		if d.limit == "" {
			r.atLeast("unverified-skip", 2)
		}
	}, level: "other", expl: how + " Seeking must be relative and forwards, every skip that does not verify that the data is there must be followed by a real read before success, and no successful path may depend on a single call of Read filling its buffer."}
	checks["C10"] = Check{run: func(c *Ctx, r *Report) {
		d, m := decodeResult(c)
		d.base(r)
		m.fields.j.report(r, "field")
		if d.limit == "" {
			r.atLeast("field", 15)
		}
	}, level: "other", expl: how + " Every value stored to a field of the configuration, of a layer or of a mask must be the big-endian integer of the documented width and sign at the documented offset from the beginning of its structure."}
}
