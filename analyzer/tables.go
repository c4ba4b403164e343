package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "every path through the function that gives a cell of the table, as a guard over row and column and a term over the node's factor; header, stride of each parent and sum of each row as recurrences over the parents and the cells of the row; compared with the row-major layout of the node's table", checkC23)
}

var (
	calls      = regexp.MustCompile(`[A-Za-z_./)]+\(`)
	fieldNames = regexp.MustCompile(`\.[A-Za-z_]\w*`)
)

// foreign: s contains something other than fields, indices and arithmetic.
func foreign(s string) bool {
	if strings.ContainsAny(s, "?@") {
		return true
	}
	for _, f := range calls.FindAllString(s, -1) {
		switch f[strings.LastIndexAny(f, "./")+1:] {
		case "mod(", "div(", "len(":
		default:
			return true
		}
	}
	for _, f := range fieldNames.FindAllString(s, -1) {
		switch f {
		case ".nodes", ".index", ".nodesByName", ".header", ".columns", ".node", ".Factor", ".Table", ".Given", ".For", ".Outcomes", ".NodeType", ".Name":
		default:
			return true
		}
	}
	return false
}

func (c *Ctx) tableFn(recv, name string) *explorer {
	fn := c.w.fn("internal/tui", recv, name)
	if fn == nil {
		c.undecide("cells", recv+"."+name+" not found")
		return nil
	}
	fl := c.flatStop(fn, func(*ssa.Function) bool { return false })
	x := newExplorer(c, fl)
	x.recv = "\x00"
	x.inLoop = []string{""}
	x.texts = map[*Value]xv{}
	x.lins = map[string]*lin{}
	x.known = func(x *explorer, st *xstate, v *Value, args []xv) (xv, bool) {
		if strings.HasPrefix(v.name, "slices.Concat") && len(args) == 1 {
			if vs := elems(st.variadic(args[0])); len(vs) > 0 {
				return xatom("cat(" + strings.Join(vs, ";") + ")cat"), true
			}
		}
		return xv{}, false
	}
	return x
}

func checkC23(c *Ctx) {
	if x := c.tableFn("", "NewTable"); x != nil && len(x.fl.params) == 3 {
		x.run()
		c.header(x)
	}
	for _, n := range []string{"GetRowCount", "GetColumnCount"} {
		if x := c.tableFn("Table", n); x != nil && len(x.fl.params) == 1 {
			x.run()
			t := x.fl.params[0].name
			node := t + ".nodes[" + t + ".index].node"
			want := map[string]bool{"len(" + t + ".header)": true}
			if n == "GetRowCount" {
				want = map[string]bool{"div(len(" + node + ".Factor.Table)," + t + ".columns)+1": true}
			}
			for _, o := range x.outs {
				if o.bad != nil || len(o.rets) != 1 {
					continue
				}
				got := o.rets[0].s
				switch {
				case want[got]:
					c.ok("count", n+": "+got)
				case foreign(got) || strings.Contains(got, "φ"):
					c.undecide("count", n+": not understood: "+got)
				case n == "GetColumnCount" && got != t+".columns" && !strings.HasPrefix(got, "len("+t+".header)"):
					c.undecide("count", n+": not understood: "+got)
				default:
					for w := range want {
						c.fail("count", n, c.w.pos(x.fl.entryFn.Pos()), "the table has "+got+" of them, should be "+w, "")
					}
				}
			}
		}
	}
	if x := c.tableFn("Table", "GetCell"); x != nil && len(x.fl.params) == 3 {
		c.cells(x)
	}
	c.floor("cells", 3)
	c.floor("count", 2)
	c.floor("header", 1)
}

// header: the parents, then the outcomes.
func (c *Ctx) header(x *explorer) {
	P := x.fl.params
	node := P[0].name + "[" + P[1].name + "].node"
	want := "cat(" + node + ".Factor.Given;" + node + ".Outcomes)cat"
	cols := map[string]bool{
		"len(" + P[0].name + "[" + P[2].name + "[" + node + ".Factor.For]].node.Outcomes)": true,
		"len(" + node + ".Outcomes)": true,
	}
	for _, o := range x.outs {
		if o.bad != nil || len(o.rets) != 1 {
			continue
		}
		at := c.w.pos(x.fl.entryFn.Pos())
		names := map[string]string{}
		if r := o.rets[0]; len(r.tup) > 0 {
			if u := structOf(x.fl.entryFn.Signature.Results().At(0).Type()); u != nil && u.NumFields() == len(r.tup) {
				for i := range r.tup {
					names[u.Field(i).Name()] = r.tup[i].s
				}
			}
		}
		check := func(f string, ok bool, want string) {
			got, has := names[f]
			switch {
			case !has:
				c.undecide("header", "NewTable: field "+f+" not understood")
			case ok || got == want:
				c.ok("header", "NewTable: "+f+" = "+got)
			case strings.HasPrefix(got, "cat(") && !foreign(strings.ReplaceAll(strings.TrimPrefix(got, "cat("), ")cat", "")), !foreign(got) && !strings.HasPrefix(got, "slice(") && !strings.Contains(got, "φ") && got != "nil":
				c.fail("header", "NewTable:"+f, at, f+" of the table is "+got+", should be "+want, "")
			default:
				c.undecide("header", "NewTable: "+f+" not understood: "+got)
			}
		}
		check("header", false, want)
		check("columns", cols[names["columns"]], "len("+node+".Outcomes)")
		check("index", false, P[1].name)
		check("nodes", false, P[0].name)
		check("nodesByName", false, P[2].name)
	}
}

func (c *Ctx) cells(x *explorer) {
	t, row, col := x.fl.params[0].name, linAtom(x.fl.params[1].name), linAtom(x.fl.params[2].name)
	x.facts = []*lin{row, col}
	node := t + ".nodes[" + t + ".index].node"
	given := linAtom("len(" + node + ".Factor.Given)")
	text := map[string][]xv{} // cells by their text
	x.known = func(x *explorer, st *xstate, v *Value, args []xv) (xv, bool) {
		if strings.HasSuffix(v.name, ".NewTableCell") {
			return xatom("cell(" + args[0].s + ")"), true
		}
		if strings.HasSuffix(v.name, ".TableCell).SetText") {
			return xatom("cell(" + args[1].s + ")"), true
		}
		if strings.HasPrefix(v.name, "(*"+tviewPkg+".TableCell).Set") {
			return args[0], true
		}
		if v.name == "fmt.Sprintf" && len(args) == 2 {
			s := fmt.Sprintf("text%d", v.id)
			text[s] = append([]xv{args[0]}, st.variadic(args[1])...)
			return xatom(s), true
		}
		return xv{}, false
	}
	x.run()
	if x.why != "" {
		c.undecide("cells", "GetCell: "+x.why)
		return
	}
	at := c.w.pos(x.fl.entryFn.Pos())
	for _, o := range x.outs {
		if o.bad != nil || len(o.rets) != 1 {
			continue
		}
		f := o.st.facts
		has := func(l *lin) bool { return implies(f, l) }
		body := has(linAdd(linConst(-1), row, 1))
		head := has(linAdd(linConst(0), row, -1))
		inGiven := has(linAdd(linAdd(linConst(-1), given, 1), col, -1))
		inValues := has(linAdd(col, given, -1))
		s := o.rets[0].s
		if !strings.HasPrefix(s, "cell(") || o.st.opaque {
			c.undecide("cells", "GetCell: cell not understood: "+s)
			continue
		}
		s = s[5 : len(s)-1]
		guard := func(what string, ok bool) bool {
			if !ok {
				vague := false
				for _, l := range f {
					if foreign(l.String()) {
						vague = true
					}
				}
				if vague {
					c.undecide("cells", "GetCell: guard of the "+what+" not understood")
				} else {
					var gs []string
					for _, l := range f {
						gs = append(gs, l.String()+">=0")
					}
					c.fail("cells", "GetCell:guard "+what, at, "the "+what+" is shown where "+strings.Join(gs, ", "), "")
				}
			}
			return ok
		}
		switch {
		case strings.HasPrefix(s, t+".header["):
			if !guard("header", head) {
				continue
			}
			if s == t+".header["+col.String()+"]" {
				c.ok("cells", "header: "+s)
			} else {
				c.fail("cells", "GetCell:header", at, "the header of column "+col.String()+" is "+s, "")
			}
		case strings.Contains(s, ".Outcomes["):
			if !guard("parent's outcome", body && inGiven) {
				continue
			}
			O := fmt.Sprintf("%s.nodes[%s.nodesByName[%s.Factor.Given[%s]]].node.Outcomes", t, t, node, col)
			pre, post := O+"[mod(div("+row.String()+"-1,", "),len("+O+"))]"
			if strings.HasPrefix(s, pre) && strings.HasSuffix(s, post) {
				c.stride(x, o, s[len(pre):len(s)-len(post)], node, t, col)
				continue
			}
			if foreign(s) {
				c.undecide("cells", "GetCell: outcome not understood: "+s)
			} else if strings.Contains(regexp.MustCompile(`,φ\d+\)`).ReplaceAllString(s, ""), "φ") {
				c.undecide("cells", "GetCell: outcome not understood: "+s)
			} else {
				c.fail("cells", "GetCell:outcome", at, "the outcome of the parent in column "+col.String()+" is "+s+", should be "+pre+"stride"+post, "")
			}
		case text[s] != nil:
			if !guard("value", body && inValues) {
				continue
			}
			c.value(x, o, text[s], node, t, row, col, given, at)
		default:
			c.undecide("cells", "GetCell: cell not understood: "+s)
		}
	}
}

// phiOf: the value φN, and its loop.
func (x *explorer) phiOf(s string) (*Value, *Loop) {
	for _, l := range x.inner {
		for _, v := range l.head.instrs {
			if v.op == OpPhi && fmt.Sprintf("φ%d", v.id) == s {
				return v, l
			}
		}
	}
	return nil, nil
}

// parts: the values of φ before the loop and after a round.
func phiParts(v *Value, l *Loop) (init, step *Value) {
	for i, p := range l.head.preds {
		if l.blocks[p] {
			if step != nil && step != v.args[i] {
				return nil, nil
			}
			step = v.args[i]
		} else {
			if init != nil && init != v.args[i] {
				return nil, nil
			}
			init = v.args[i]
		}
	}
	return init, step
}

// ranges: the values of idx in the rounds of the loop, first and last (in either order).
func (x *explorer) ranges(st *xstate, l *Loop, idx *lin) (lo, hi *lin, ok bool) {
	cm := x.cont[l]
	if cm == nil || cm.kind != "ge" {
		return nil, nil, false
	}
	phi := ""
	for k, v := range idx.m {
		if strings.HasPrefix(k, "φ") && x.mentions(k, l) {
			if v != 1 || phi != "" {
				return nil, nil, false
			}
			phi = k
		}
	}
	v, _ := x.phiOf(phi)
	if v == nil {
		return nil, nil, false
	}
	init, step := phiParts(v, l)
	if init == nil || step == nil || step.op != OpBin || step.args[0] != v {
		return nil, nil, false
	}
	k, isc := constInt64(x.get(st, step.args[1]))
	if step.tok == token.SUB {
		k = -k
	} else if step.tok != token.ADD {
		return nil, nil, false
	}
	i0 := x.get(st, init)
	if !isc || k != 1 && k != -1 || i0.l == nil {
		return nil, nil, false
	}
	c := cm.l
	if cm.neg {
		c = linAdd(linConst(-1), cm.l, -1)
	}
	rest := linAdd(idx, linAtom(phi), -1)
	first := linAdd(rest, i0.l, 1)
	// c >= 0: idx <= last, or idx >= last
	if c.m[phi] != -k {
		return nil, nil, false
	}
	last := linAdd(idx, c, k)
	if k > 0 {
		return first, last, true
	}
	return last, first, true
}

// stride: the number of rows after which the outcome of the parent changes.
func (c *Ctx) stride(x *explorer, o xout, s, node, t string, col *lin) {
	v, l := x.phiOf(s)
	at := c.w.pos(x.fl.entryFn.Pos())
	if v == nil {
		if foreign(s) {
			c.undecide("cells", "GetCell: stride not understood: "+s)
		} else {
			c.fail("cells", "GetCell:stride", at, "the outcome of a parent changes every "+s+" rows", "")
		}
		return
	}
	init, step := phiParts(v, l)
	if init == nil || step == nil || step.op != OpBin || step.tok != token.MUL || step.args[0] != v && step.args[1] != v {
		c.undecide("cells", "GetCell: stride not understood: "+s)
		return
	}
	f := step.args[1]
	if f == v {
		f = step.args[0]
	}
	ft := x.texts[f].s
	if ft == "" {
		ft = x.get(o.st, f).s
	}
	pre, post := "len("+t+".nodes["+t+".nodesByName["+node+".Factor.Given[", "]]].node.Outcomes)"
	if !strings.HasPrefix(ft, pre) || !strings.HasSuffix(ft, post) {
		if foreign(ft) || ft == "" {
			c.undecide("cells", "GetCell: factor of the stride not understood: "+ft)
		} else {
			c.fail("cells", "GetCell:stride factor", x.fl.where(step), "the stride is multiplied by "+ft, x.fl.chain(step))
		}
		return
	}
	is := ft[len(pre) : len(ft)-len(post)]
	var idx *lin
	if l := x.lins[is]; l != nil && strings.Contains(is, "φ") {
		idx = l
	}
	if p, pl := x.phiOf(is); p != nil && pl == l {
		idx = linAtom(is)
	}
	if idx == nil && is == col.String() {
		c.fail("cells", "GetCell:stride factor", x.fl.where(step), "the stride is multiplied by "+ft+" each time", x.fl.chain(step))
		return
	}
	if idx == nil {
		c.undecide("cells", "GetCell: stride not understood: factor "+is)
		return
	}
	lo, hi, ok := x.ranges(o.st, l, idx)
	k, isc := constInt64(x.get(o.st, init))
	if !ok || !isc {
		c.undecide("cells", "GetCell: range of the stride not understood")
		return
	}
	wantLo := linAdd(linConst(1), col, 1)
	wantHi := linAdd(linConst(-1), linAtom("len("+node+".Factor.Given)"), 1)
	if k == 1 && lo.String() == wantLo.String() && hi.String() == wantHi.String() {
		c.ok("cells", "parent: every product of the numbers of outcomes of parents "+lo.String()+" to "+hi.String()+" rows")
		return
	}
	if foreign(lo.String()) || foreign(hi.String()) {
		c.undecide("cells", "GetCell: range of the stride not understood")
		return
	}
	c.fail("cells", "GetCell:stride", x.fl.where(v), fmt.Sprintf("the outcome of a parent changes every %d times the outcomes of parents %s to %s rows, should be %s to %s", k, lo, hi, wantLo, wantHi), x.fl.chain(v))
}

// value: a cell of the row, utilities as they are, others in percent of the row.
func (c *Ctx) value(x *explorer, o xout, args []xv, node, t string, row, col, given *lin, at string) {
	if len(args) != 2 {
		c.undecide("cells", "GetCell: value not understood")
		return
	}
	typ := linAdd(linConst(-2), linAtom(node+".NodeType"), 1)
	f := o.st.facts
	isU := implies(f, typ) && implies(f, linAdd(linConst(0), typ, -1))
	notU := infeasible(append(append([]*lin{}, f...), typ, linAdd(linConst(0), typ, -1)))
	T := node + ".Factor.Table"
	cols := linAtom(t + ".columns")
	first := linAdd(linMul(row, cols), cols, -1)
	want := T + "[" + linAdd(linAdd(first, col, 1), given, -1).String() + "]"
	fail := func(what, msg string) { c.fail("cells", "GetCell:"+what, at, msg, "") }
	s := args[1].s
	if args[0].cv != nil && args[0].cv.Kind() == constant.String {
		if d := decimals(constant.StringVal(args[0].cv)); d >= 0 && d < 3 {
			fail("decimals", "values are shown with less than three decimals")
		}
	}
	if s == want {
		if isU {
			c.ok("cells", "utility: "+s)
		} else if notU {
			fail("percent", "a value that is not a utility is shown as "+s+", not in percent of its row")
		} else {
			c.undecide("cells", "GetCell: type of the node not understood")
		}
		return
	}
	sum := ""
	for _, p := range [][2]string{{"div((100*" + want + "),", ")"}, {"div((" + want + "*100),", ")"}, {"(100*div(" + want + ",", "))"}, {"(div(" + want + ",", ")*100)"}} {
		if strings.HasPrefix(s, p[0]) && strings.HasSuffix(s, p[1]) {
			sum = s[len(p[0]) : len(s)-len(p[1])]
		}
	}
	if sum == "" {
		if !foreign(s) && strings.Count(s, T+"[") == 1 && !strings.Contains(s, want) {
			fail("value", "the value shown is "+s+", should be "+want)
		} else if strings.HasPrefix(s, "div("+want+",φ") && strings.Count(s, "(") == strings.Count("div("+want, "(") {
			fail("percent", "the value shown is "+s+", not in percent")
		} else {
			c.undecide("cells", "GetCell: value not understood: "+s)
		}
		return
	}
	if isU {
		fail("percent", "a utility is shown in percent of its row")
		return
	}
	v, l := x.phiOf(sum)
	if v == nil {
		c.undecide("cells", "GetCell: sum not understood: "+sum)
		return
	}
	init, step := phiParts(v, l)
	if init == nil || step == nil || step.op != OpBin || step.tok != token.ADD || step.args[0] != v && step.args[1] != v {
		c.undecide("cells", "GetCell: sum not understood: "+sum)
		return
	}
	e := step.args[1]
	if e == v {
		e = step.args[0]
	}
	et := x.texts[e].s
	var idx *lin
	for i, iv := range x.texts {
		if (i.op == OpIndexAddr || i.op == OpIndex) && et != "" && strings.HasPrefix(et, T+"[") && iv.s == et {
			// the index, as a number
			if a := x.texts[i.args[1]]; a.l != nil {
				idx = a.l
			} else if a := x.get(o.st, i.args[1]); a.l != nil {
				idx = a.l
			}
			if b := x.texts[i.args[0]]; idx != nil && b.sl != nil {
				idx = linAdd(idx, b.sl.lo, 1)
			}
			break
		}
	}
	i0 := x.get(o.st, init)
	zero := i0.cv != nil && constant.Sign(i0.cv) == 0
	if idx == nil || i0.cv == nil {
		c.undecide("cells", "GetCell: sum not understood: "+et)
		return
	}
	lo, hi, ok := x.ranges(o.st, l, idx)
	if !ok || foreign(lo.String()) || foreign(hi.String()) {
		c.undecide("cells", "GetCell: range of the sum not understood")
		return
	}
	wantHi := linAdd(linMul(row, cols), linConst(-1), 1)
	if !zero || lo.String() != first.String() || hi.String() != wantHi.String() {
		c.fail("cells", "GetCell:sum", x.fl.where(v), fmt.Sprintf("values are shown in percent of the sum of cells %s to %s, should be %s to %s", lo, hi, first, wantHi), x.fl.chain(v))
		return
	}
	c.ok("cells", "probability: 100*"+want+" divided by the sum of cells "+lo.String()+" to "+hi.String())
}
