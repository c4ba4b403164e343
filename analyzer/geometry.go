package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *Ctx) plain(recv, name string, stop func(*ssa.Function) bool) *explorer {
	fn := c.w.fn("internal/tui", recv, name)
	if fn == nil {
		c.undecide("geometry", recv+"."+name+" not found")
		return nil
	}
	fl := c.flatStop(fn, stop)
	x := newExplorer(c, fl)
	x.recv = "\x00"
	x.inLoop = []string{""} // all conditions
	return x
}

func (x *explorer) inside(b, px, py string) []*lin {
	X, Y, W, H := linAtom(b+".X"), linAtom(b+".Y"), linAtom(b+".W"), linAtom(b+".H")
	p, q := linAtom(px), linAtom(py)
	return []*lin{
		linAdd(p, X, -1), linAdd(linAdd(linAdd(linConst(-1), X, 1), W, 1), p, -1),
		linAdd(q, Y, -1), linAdd(linAdd(linAdd(linConst(-1), Y, 1), H, 1), q, -1),
	}
}

// geometry: which points a node covers, which outcome is in which row.
func (c *Ctx) geometry() {
	never := func(*ssa.Function) bool { return false }
	if x := c.plain("Bounds", "Contains", never); x != nil && len(x.fl.params) == 3 {
		x.run()
		in := x.inside(x.fl.params[0].name, x.fl.params[1].name, x.fl.params[2].name)
		c.iff(x, "Contains", in, func(o xout) (xv, bool) { return o.rets[0], len(o.rets) == 1 })
	}
	if x := c.plain("node", "SelectedOutcome", never); x != nil && len(x.fl.params) == 3 {
		x.run()
		n := x.fl.params[0].name
		in := x.inside(n+".bounds", x.fl.params[1].name, x.fl.params[2].name)
		row := linAdd(linAdd(linConst(-2), linAtom(x.fl.params[2].name), 1), linAtom(n+".bounds.Y"), -1)
		in = append(in, row, linAdd(linAdd(linConst(-1), linAtom("len("+n+".node.Outcomes)"), 1), row, -1))
		c.iff(x, "SelectedOutcome", in, func(o xout) (xv, bool) {
			if len(o.rets) != 2 {
				return xv{}, false
			}
			return o.rets[1], true
		})
		for _, o := range x.outs {
			if o.bad != nil || len(o.rets) != 2 || o.rets[1].s == "false" || o.st.opaque {
				continue
			}
			i := o.rets[0]
			if i.l == nil {
				c.undecide("geometry", "SelectedOutcome: outcome not understood: "+i.s)
				continue
			}
			d := linAdd(i.l, row, -1)
			f := x.bounded(o.st.facts, d)
			if implies(f, d) && implies(f, linAdd(linConst(0), d, -1)) {
				c.ok("geometry", "SelectedOutcome: outcome "+i.s+" in row "+i.s+"+2 below the top")
			} else if strings.Contains(i.s, "?") || strings.Contains(i.s, "(") {
				c.undecide("geometry", "SelectedOutcome: outcome not understood: "+i.s)
			} else {
				c.fail("geometry", "SelectedOutcome:row", c.w.pos(x.fl.entryFn.Pos()), "the outcome in the row at "+row.String()+" is taken to be "+i.s, "")
			}
		}
	}
	if x := c.plain("Bounds", "Extend", never); x != nil && len(x.fl.params) == 2 {
		c.extend(x)
	}
}

// iff: the result is true exactly if all of in hold.
func (c *Ctx) iff(x *explorer, name string, in []*lin, ret func(o xout) (xv, bool)) {
	if x.why != "" {
		c.undecide("geometry", name+": "+x.why)
		return
	}
	at := c.w.pos(x.fl.entryFn.Pos())
	for _, o := range x.outs {
		r, ok := ret(o)
		if o.bad != nil || !ok || o.st.opaque {
			c.undecide("geometry", name+": a path is not understood")
			continue
		}
		type br struct {
			facts []*lin
			val   bool
		}
		var bs []br
		if r.cv != nil && r.cv.Kind() == constant.Bool {
			bs = []br{{o.st.facts, constant.BoolVal(r.cv)}}
		} else if r.cmp != nil && r.cmp.kind != "atom" {
			for _, b := range x.split(o.st, r, x.fl.entry) {
				bs = append(bs, br{b.st.facts, b.taken})
			}
		} else {
			c.undecide("geometry", name+": result not understood: "+r.s)
			continue
		}
		for _, b := range bs {
			vague := len(o.st.conds) > 0
			for _, f := range b.facts {
				if strings.Contains(f.String(), "?") || strings.Contains(f.String(), "min(") || strings.Contains(f.String(), "max(") || strings.Contains(f.String(), "div(") || strings.Contains(f.String(), "mod(") {
					vague = true
				}
			}
			if b.val {
				good := true
				for _, l := range in {
					if !implies(x.bounded(b.facts, in...), l) {
						good = false
						if vague {
							c.undecide("geometry", name+": a condition is not understood")
						} else {
							c.fail("geometry", name+":true", at, name+" may be true although "+l.String()+" < 0", "")
						}
						break
					}
				}
				if good {
					c.ok("geometry", name+" true: all conditions hold")
				}
				continue
			}
			if infeasible(x.bounded(append(append([]*lin{}, b.facts...), in...))) {
				c.ok("geometry", name+" false: a condition fails")
				continue
			}
			// a search that finds nothing
			if l := x.searched(o); l != nil {
				c.ok("geometry", name+" false: nothing found")
				continue
			}
			if vague || len(x.cont) > 0 {
				c.undecide("geometry", name+": false under conditions that are not understood")
			} else {
				c.fail("geometry", name+":false", at, name+" may be false although all conditions hold", "")
			}
		}
	}
}

// searched: the path runs through a loop to its end.
func (x *explorer) searched(o xout) *Loop {
	for l, cm := range x.cont {
		if cm.kind != "ge" {
			continue
		}
		stop := linAdd(linConst(-1), cm.l, -1)
		for _, f := range o.st.facts {
			if f.String() == stop.String() {
				for k := range cm.l.m {
					if strings.HasPrefix(k, "len(") {
						list := k[4 : len(k)-1]
						idx := linAdd(linAdd(linConst(-1), linAtom(k), 1), cm.l, -1)
						if x.full(l, idx, list) == 1 {
							return l
						}
					}
				}
			}
		}
	}
	return nil
}

// extend: afterwards the bounds are the smallest that cover both.
func (c *Ctx) extend(x *explorer) {
	x.run()
	if x.why != "" {
		c.undecide("geometry", "Extend: "+x.why)
		return
	}
	b, q := x.fl.params[0].name, x.fl.params[1].name
	for _, f := range []string{"W", "H"} {
		x.facts = append(x.facts, linAtom(b+"."+f), linAtom(q+"."+f))
	}
	x.run()
	for _, o := range x.outs {
		if o.bad != nil || o.st.opaque {
			continue
		}
		get := func(k string) *lin {
			return x.load(o.st, k, types.Typ[types.Int]).l
		}
		good := true
		for _, d := range [][2]string{{"X", "W"}, {"Y", "H"}} {
			lo, size := get(b+"."+d[0]), get(b+"."+d[1])
			if lo == nil || size == nil || strings.ContainsAny(lo.String()+size.String(), "?(") {
				c.undecide("geometry", "Extend: result not understood")
				good = false
				continue
			}
			hi := linAdd(lo, size, 1)
			l1, l2 := linAtom(b+"."+d[0]), linAtom(q+"."+d[0])
			h1, h2 := linAdd(l1, linAtom(b+"."+d[1]), 1), linAdd(l2, linAtom(q+"."+d[1]), 1)
			f := x.bounded(o.st.facts)
			eq := func(u, v *lin) bool {
				e := linAdd(u, v, -1)
				return implies(f, e) && implies(f, linAdd(linConst(0), e, -1))
			}
			okLo := implies(f, linAdd(l1, lo, -1)) && implies(f, linAdd(l2, lo, -1)) && (eq(lo, l1) || eq(lo, l2))
			okHi := implies(f, linAdd(hi, h1, -1)) && implies(f, linAdd(hi, h2, -1)) && (eq(hi, h1) || eq(hi, h2))
			if !okLo || !okHi {
				good = false
				c.fail("geometry", "Extend:"+d[0], c.w.pos(x.fl.entryFn.Pos()), fmt.Sprintf("extended bounds go from %s to %s in %s, which is not the smallest range covering both", lo, hi, d[0]), "")
			}
		}
		if good {
			c.ok("geometry", "Extend: smallest bounds covering both")
		}
	}
}

// plus: the text of the number s, increased by k.
func plus(s string, k int64) string {
	i := strings.LastIndexAny(s, "+-")
	if i > 0 && strings.LastIndexAny(s, ")]") < i {
		var n int64
		if _, err := fmt.Sscan(s[i:], &n); err == nil {
			if n+k == 0 {
				return s[:i]
			}
			return fmt.Sprintf("%s%+d", s[:i], n+k)
		}
	}
	var n int64
	if m, err := fmt.Sscan(s, &n); err == nil && m == 1 && fmt.Sprint(n) == s {
		return fmt.Sprint(n + k)
	}
	return fmt.Sprintf("%s%+d", s, k)
}

// sameCount: both count with the same counter, or are constants.
func sameCount(s, t string) bool {
	base := func(s string) string {
		i := strings.LastIndexAny(s, "+-")
		if i > 0 && strings.LastIndexAny(s, ")]") < i {
			return s[:i]
		}
		if strings.Trim(s, "0123456789") == "" {
			return ""
		}
		return s
	}
	if base(s) == base(t) || base(t) == "" || base(s) == "" {
		return true
	}
	// one counter, and lengths
	if b := base(s); strings.HasPrefix(b, "φ") && strings.Count(t, "φ") == 1 && strings.Contains(t, b) && !strings.ContainsAny(t, "?*/%") && strings.Count(t, "(") == strings.Count(t, "len(") {
		return true
	}
	return false
}

// lastIndex: the index that ends s.
func lastIndex(s string) (string, bool) {
	if !strings.HasSuffix(s, "]") {
		return "", false
	}
	depth := 0
	for i := len(s) - 1; i >= 0; i-- {
		switch s[i] {
		case ']':
			depth++
		case '[':
			if depth--; depth == 0 {
				return s[i+1 : len(s)-1], true
			}
		}
	}
	return "", false
}

// last: the text between the last pair of brackets, which ends s.
func last(s, field string) (string, bool) {
	i := strings.LastIndex(s, field+"[")
	if i < 0 || !strings.HasSuffix(s, "]") {
		return "", false
	}
	return s[i+len(field)+1 : len(s)-1], true
}

// rows: labels, bars, numbers and marks of an outcome are in the row that is its own when clicked.
func (c *Ctx) rows() {
	never := func(*ssa.Function) bool { return false }
	sel, evid := c.w.runeConst("SelectionStart"), c.w.runeConst("EvidenceStart")
	for _, n := range [][2]string{{"node", "Render"}, {"", "NewNode"}} {
		x := c.plain(n[0], n[1], never)
		if x == nil {
			continue
		}
		if len(x.fl.params) == 0 {
			continue
		}
		x.recv = x.fl.params[0].name
		probs := ""
		for _, p := range x.fl.params {
			if isList(p.typ) {
				probs = p.name
			}
		}
		if n[1] == "Render" && len(x.fl.params) == 5 {
			x.inLoop = nil
			for _, p := range x.fl.params[2:] {
				x.inLoop = append(x.inLoop, p.name)
			}
		}
		done := map[string]bool{}
		ok := func(s string) {
			if !done[s] {
				done[s] = true
				c.ok("rows", n[1]+": "+s)
			}
		}
		x.onCopy = func(st *xstate, v *Value, args []xv) {
			sl := args[0].sl
			if sl == nil {
				return
			}
			row, is := lastIndex(sl.base)
			if !is {
				return
			}
			src := args[1].s
			if !strings.HasPrefix(src, "conv(") {
				return
			}
			src = src[5 : len(src)-1]
			fail := func(what, msg string) {
				c.fail("rows", n[1]+":"+what, x.fl.where(v), msg, x.fl.chain(v))
			}
			if i, is := last(src, ".Outcomes"); is {
				if plus(i, 2) != row {
					if !sameCount(i, row) {
						c.undecide("rows", n[1]+": row "+row+" of the label of outcome "+i+" not understood")
						return
					}
					fail("label", "the label of outcome "+i+" is in row "+row+", it is clicked in row "+plus(i, 2))
				} else {
					ok("label of outcome " + i + " in row " + row)
				}
				return
			}
			if src == "\"total\"" {
				if !strings.HasSuffix(row, ".Outcomes)+2") {
					if strings.Contains(row, ".Outcomes)") {
						fail("total", "the label of the total is in row "+row+", after the outcomes there is row len(Outcomes)+2")
					}
				} else {
					ok("label of the total in row " + row)
				}
				return
			}
			if strings.HasPrefix(src, "fmt.Sprintf(") && probs != "" {
				j := strings.Index(src, "slice(&")
				if j < 0 {
					return
				}
				arr := src[j+6:]
				arr = arr[:strings.IndexAny(arr, ",)")]
				val, has := st.mem[arr+"[0]"]
				if _, more := st.mem[arr+"[1]"]; !has || more {
					return
				}
				s := val.s
				hundred := false
				for _, f := range []string{"*100)", "*100.0)"} {
					if strings.HasPrefix(s, "(") && strings.HasSuffix(s, f) {
						s = s[1 : len(s)-len(f)]
						hundred = true
					}
				}
				if strings.HasPrefix(s, "(100*") {
					s = s[5 : len(s)-1]
					hundred = true
				}
				i, is := last(s, probs)
				if !is || s != probs+"["+i+"]" {
					return
				}
				if plus(i, 2) != row {
					if !sameCount(i, row) {
						c.undecide("rows", n[1]+": row "+row+" of the value of outcome "+i+" not understood")
						return
					}
					fail("value", "the value of outcome "+i+" is in row "+row+", its label in row "+plus(i, 2))
					return
				}
				typ := linAdd(linConst(-2), linAtom(x.fl.params[0].name+".node.NodeType"), 1)
				isU := implies(st.facts, typ) && implies(st.facts, linAdd(linConst(0), typ, -1))
				notU := infeasible(append(append([]*lin{}, st.facts...), typ, linAdd(linConst(0), typ, -1)))
				if isU && hundred || notU && !hundred {
					fail("percent", "the value shown is "+val.s+", a probability is shown in percent and a utility as it is")
					return
				}
				if isU || notU {
					ok("value " + val.s + " in row " + row)
				}
				if d := decimals(src); d >= 0 && d < 3 {
					fail("decimals", "the value is shown with less than three decimals: "+src)
				}
			}
		}
		if n[1] == "Render" && len(x.fl.params) == 5 && sel != 0 {
			P := x.fl.params
			x.onSet = func(st *xstate, v *Value, loc string, val xv) {
				k, isc := constInt64(val)
				if !isc || k != sel && k != evid {
					return
				}
				j := strings.LastIndex(loc, "][")
				if j < 0 {
					return
				}
				row, is := lastIndex(loc[:j+1])
				if !is {
					return
				}
				i := plus(row, -2)
				marked, known := st.conds[P[2].name]
				if k == evid {
					if e, known := st.conds[P[4].name]; known && !e {
						c.fail("rows", "evidence", x.fl.where(v), "a node without evidence is marked as having some", "")
					} else if known {
						ok("evidence mark in row " + row)
					}
					return
				}
				want := plus(P[3].name, 0)
				_ = want
				eq := false
				for _, il := range x.counts(i) {
					d := linAdd(il, linAtom(P[3].name), -1)
					f := x.bounded(st.facts, d)
					eq = implies(f, d) && implies(f, linAdd(linConst(0), d, -1))
				}
				switch {
				case !known || st.opaque:
				case !marked:
					c.fail("rows", "mark", x.fl.where(v), "an outcome of a node that is not selected is marked", "")
				case !eq:
					for _, il := range x.counts(i) {
						for _, f := range st.facts {
							if f.m[P[3].name] != 0 {
								c.fail("rows", "mark", x.fl.where(v), "outcome "+il.String()+" is marked as selected when "+f.String()+">=0", "")
								return
							}
						}
					}
				default:
					ok("selection mark in row " + row)
				}
			}
		}
		x.run()
		if x.why != "" {
			c.undecide("rows", n[1]+": "+x.why)
		}
	}
}

// counts: s as a number.
func (x *explorer) counts(s string) []*lin {
	a := &appx{explorer: x}
	return a.counters(s)
}

// runeConst: the value of a rune constant of internal/tui.
func (w *World) runeConst(name string) int64 {
	p := w.pkg("internal/tui")
	if p == nil || p.Pkg == nil {
		return 0
	}
	o, ok := p.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0
	}
	k, _ := constant.Int64Val(o.Val())
	return k
}
