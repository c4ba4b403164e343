package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// registerFields treats fields of a struct behind a pointer parameter as local variables, as far as they are
// only read and written: a field that serves as scratch space becomes an ordinary value.
func (fl *Flat) registerFields(p *Value) {
	fl.computeUses()
	byField := map[int][]*Value{}
	for _, u := range p.uses {
		if u.op == OpFieldAddr {
			byField[u.idx] = append(byField[u.idx], u)
		}
	}
	st := structOf(p.typ)
	if st == nil {
		return
	}
	var pre []*Value
	for f := 0; f < st.NumFields(); f++ {
		as := byField[f]
		ok, stores := len(as) > 0, false
		for _, a := range as {
			for _, u := range a.uses {
				switch {
				case u.op == OpLoad:
				case u.op == OpStore && u.args[0] == a && u.args[1] != a:
					stores = true
				default:
					ok = false
				}
			}
		}
		if !ok || !stores {
			continue
		}
		al := fl.newVal(fl.entry, OpAlloc, as[0].typ, p.pos)
		ad := fl.newVal(fl.entry, OpFieldAddr, as[0].typ, p.pos)
		ad.args, ad.idx, ad.src = []*Value{p}, f, as[0].src
		ld := fl.newVal(fl.entry, OpLoad, st.Field(f).Type(), p.pos)
		ld.args = []*Value{ad}
		sv := fl.newVal(fl.entry, OpStore, nil, p.pos)
		sv.args = []*Value{al, ld}
		pre = append(pre, al, ad, ld, sv)
		rep := map[*Value]bool{}
		for _, a := range as {
			rep[a] = true
		}
		for _, b := range fl.blocks {
			for _, v := range b.instrs {
				for i, x := range v.args {
					if rep[x] {
						v.args[i] = al
					}
				}
			}
		}
	}
	if len(pre) == 0 {
		return
	}
	// behind the parameters
	k := 0
	for k < len(fl.entry.instrs) && fl.entry.instrs[k].op == OpParam {
		k++
	}
	rest := append([]*Value{}, fl.entry.instrs[k:]...)
	fl.entry.instrs = append(append(fl.entry.instrs[:k], pre...), rest...)
}

// flattenFields: like flattenStop, with the fields of the receiver as local variables.
func flattenFields(w *World, fn *ssa.Function, stop func(*ssa.Function) bool) *Flat {
	fl := flattenRaw(w, fn, stop)
	fl.prune()
	if len(fl.params) > 0 {
		fl.registerFields(fl.params[0])
	}
	fl.promote()
	fl.simplify()
	fl.prune()
	fl.computeUses()
	fl.computeDom()
	return fl
}

func isRowLookup(fn *ssa.Function) bool {
	return fn.Signature.Recv() != nil && fn.Name() == "rowIndex" && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "bbn"
}

func isTrainerOp(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "bbn" {
		return false
	}
	return fn.Name() == "NewTrainer" || fn.Signature.Recv() != nil && (fn.Name() == "AddSample" || fn.Name() == "UpdateNetwork")
}

// trainSeq: a view of a function for the naming of lists and conditions.
func trainSeq(c *Ctx, fl *Flat, name string) *netc {
	a := newAlg(c, fl, name)
	n := &netc{alg: a, q: newQL(a), entry: name, totals: map[*Value]bool{}}
	n.q.markErrors()
	return n
}

// rowList: the row of a node is looked up with the values of all its parents, in their order, in its own table.
func (c *Ctx) rowList() {
	fn := c.must("", "Trainer", "AddSample")
	if fn == nil {
		return
	}
	fl := flattenFields(c.w, fn, isRowLookup)
	n := trainSeq(c, fl, "AddSample")
	ip, _ := sampleParams(fl)
	var calls []*Value
	fl.each(func(v *Value) {
		if prim(v, "rowIndex") {
			calls = append(calls, v)
		}
	})
	if ip == nil || len(calls) == 0 {
		c.undecide("parent-values", "AddSample: no row lookup found")
		return
	}
	for _, v := range calls {
		// the node: the element of the outer loop whose factor is asked
		k := n.q.key(v.args[0])
		var l *Loop
		for x := n.q.inner[v.blk]; x != nil; x = n.q.parent[x] {
			if strings.Contains(k, n.q.tok(x)) {
				l = x
			}
		}
		if l == nil || n.q.dom(l) == nil || n.q.dom(l).isMap {
			n.undec("parent-values", v, "row lookup in "+k)
			continue
		}
		d := n.q.dom(l)
		cur := n.q.key(d.ct.iv.cur)
		ps, ok := n.seqOf(v.args[1])
		if !ok && alteredElem(n, v.args[1], ip) {
			n.bad("parent-values", "parent values", v, "the value of a parent is altered before the row is looked up")
			continue
		}
		if !ok {
			n.undec("parent-values", v, "list of values")
			continue
		}
		switch {
		case len(ps) == 0:
			n.bad("parent-values", "parent values", v, "the row is looked up without values of parents")
			continue
		case len(ps) > 1:
			n.bad("parent-values", "parent values", v, "the row is looked up with more than the values of the parents")
			continue
		}
		co := ps[0].co
		if co == nil {
			n.bad("parent-values", "parent values", v, "the row is looked up with a single value")
			continue
		}
		if co.bad != "" {
			n.bad("parent-values", "parent values", co.at, "not every parent is used: "+co.bad)
			continue
		}
		if co.sel != 1 {
			if u := n.q.unknown(co.sel); u != "" {
				n.undec("parent-values", v, "parents under "+u)
			} else {
				n.bad("parent-values", "parent values", v, "a parent is used only when "+n.q.m.canon(co.sel))
			}
			continue
		}
		if co.ord != 0 {
			n.bad("parent-values", "parent values", v, "the values of the parents are not in the order of the parents")
			continue
		}
		if !strings.HasSuffix(co.src, "["+cur+"]") {
			n.undec("parent-values", v, "parents from "+co.src)
			continue
		}
		if co.expr != ip.name+"[·]" {
			if alteredElem(n, ps[0].list, ip) {
				n.bad("parent-values", "parent values", v, "the value of a parent is altered before the row is looked up")
			} else if known(co.expr) {
				n.bad("parent-values", "parent values", v, "the value of a parent is taken as "+co.expr)
			} else {
				n.undec("parent-values", v, "value of a parent "+co.expr)
			}
			continue
		}
		c.ok("parent-values", "row lookup with the sample at every parent position, in order")
	}
}

// alteredElem: the elements of the list are computed from elements of p.
func alteredElem(n *netc, list, p *Value) bool {
	sites, ok := n.q.appends(list)
	if !ok {
		return false
	}
	for _, s := range sites {
		v := stripConv(s.v)
		if v.op != OpBin && !(v.op == OpBuiltin && (v.name == "min" || v.name == "max")) {
			return false
		}
		has := false
		for _, a := range v.args {
			a = stripConv(a)
			if a.op == OpLoad && a.args[0].op == OpIndexAddr && stripCT(a.args[0].args[0]) == p {
				has = true
			} else if _, isC := constInt(a); !isC {
				return false
			}
		}
		if !has {
			return false
		}
	}
	return len(sites) > 0
}

// reorders: calls that change the order or contents of the list they get.
func reorders(v *Value) bool {
	if v.op != OpCall {
		return false
	}
	for _, p := range []string{"slices.Sort", "slices.Reverse", "sort.", "(sort."} {
		if strings.HasPrefix(v.name, p) {
			return true
		}
	}
	return false
}

// parentPositions: NewTrainer records for each node the position of each parent, in the order of the parents.
func (c *Ctx) parentPositions() {
	fn := c.must("", "", "NewTrainer")
	if fn == nil {
		return
	}
	fl := c.flat(fn)
	n := trainSeq(c, fl, "NewTrainer")
	found := 0
	fl.each(func(v *Value) {
		// idx[k] = positions{Given[k]}
		if v.op != OpStore || !isInteger(v.args[1].typ) || v.args[0].op != OpIndexAddr {
			return
		}
		x := stripConv(v.args[1])
		if x.op == OpExtract {
			x = x.args[0]
		}
		if x.op != OpLookup {
			return
		}
		mt, ok := x.args[0].typ.Underlying().(*types.Map)
		if !ok || !isString(mt.Key()) {
			return
		}
		found++
		l := n.q.inner[v.blk]
		d := (*qdom)(nil)
		if l != nil {
			d = n.q.dom(l)
		}
		if d == nil || d.isMap {
			n.undec("parent-order", v, "loop over the parents")
			return
		}
		src := n.q.key(d.list)
		if !strings.HasSuffix(src, ".Given") {
			n.undec("parent-order", v, "positions of "+src)
			return
		}
		if d.partial != "" {
			n.bad("parent-order", "parent positions", v, "not every parent gets a position: the loop "+d.partial)
			return
		}
		if f := n.q.cond(l, v.blk); f != 1 {
			if u := n.q.unknown(f); u != "" {
				n.undec("parent-order", v, "positions under "+u)
			} else {
				n.bad("parent-order", "parent positions", v, "a parent gets its position only when "+n.q.m.canon(f))
			}
			return
		}
		if n.q.key(x.args[1]) != n.q.tok(l) {
			if known(n.q.key(x.args[1])) {
				n.bad("parent-order", "parent positions", v, "the position recorded for a parent is that of "+n.q.key(x.args[1]))
			} else {
				n.undec("parent-order", v, "name of a parent")
			}
			return
		}
		if arr := stripCT(v.args[0].args[0]); arr.op == OpAlloc {
			// one element appended
			if d.ct.iv.step < 0 {
				n.bad("parent-order", "parent positions", v, "the positions of the parents are recorded in reversed order")
			} else {
				c.ok("parent-order", "position of each parent appended in order")
			}
			return
		}
		at := n.p(v.args[0].args[1])
		if cur := n.p(d.ct.iv.cur); !at.equal(cur) {
			diff := at.add(cur, -1)
			if len(diff) == 1 && diff[""] != 0 || len(at) == 0 {
				n.bad("parent-order", "parent positions", v, "the position of a parent is recorded at another place than that of the parent")
			} else if at.add(cur, 1).equal(n.p(d.ct.iv.bound).add(polyConst(1), -1)) {
				n.bad("parent-order", "parent positions", v, "the positions of the parents are recorded in reversed order")
			} else {
				n.undec("parent-order", v, "place "+at.String())
			}
			return
		}
		c.ok("parent-order", "position of each parent at its place")
		// nothing rearranges the list later
		list := stripCT(v.args[0].args[0])
		seen := map[*Value]bool{}
		var walk func(x *Value)
		walk = func(x *Value) {
			if seen[x] {
				return
			}
			seen[x] = true
			for _, u := range x.uses {
				switch {
				case reorders(u) && len(u.args) > 0 && stripCT(u.args[0]) == x:
					n.bad("parent-order", "parent positions", u, "the positions of the parents are reordered")
				case u.op == OpChangeType || u.op == OpMakeIface || u.op == OpSlice || u.op == OpConvert:
					walk(u)
				}
			}
		}
		walk(list)
	})
	if found == 0 {
		c.undecide("parent-order", "NewTrainer: positions of the parents not recognised")
	}
}

// everyRow: each row of a data file is added exactly once, with the values of this row.
func (c *Ctx) everyRow() {
	fn := c.w.fn("internal/tui", "", "TrainNetwork")
	if fn == nil {
		c.undecide("rows", "TrainNetwork not found")
		return
	}
	fl := c.flatStop(fn, isTrainerOp)
	loops := fl.loops()
	var reads, adds []*Value
	fl.each(func(v *Value) {
		if v.op == OpCall && v.name == "(*encoding/csv.Reader).Read" {
			for _, l := range loops {
				if l.blocks[v.blk] {
					reads = append(reads, v)
					break
				}
			}
		}
		if prim(v, "AddSample") {
			adds = append(adds, v)
		}
	})
	if len(reads) != 1 || len(adds) == 0 {
		c.undecide("rows", fmt.Sprintf("%d places read rows, %d add samples", len(reads), len(adds)))
		return
	}
	rd := reads[0]
	// a list of rows collected first, and added later: not followed
	rec := map[*Value]bool{rd: true}
	kept := false
	fl.each(func(v *Value) {
		if v.op == OpExtract && v.args[0] == rd && v.idx == 0 {
			rec[v] = true
		}
	})
	fl.each(func(v *Value) {
		if v.op == OpStore && rec[stripConv(v.args[1])] {
			kept = true
		}
	})
	var rl *Loop
	for _, l := range loops {
		if l.blocks[rd.blk] && (rl == nil || len(l.blocks) < len(rl.blocks)) {
			rl = l
		}
	}
	in := false
	for _, a := range adds {
		if rl.blocks[a.blk] {
			in = true
		}
	}
	if kept || !in {
		c.undecide("rows", "rows are kept before they are added")
		return
	}
	isErr := func(v *Value) bool {
		v = stripConv(v)
		return v.op == OpExtract && v.args[0] == rd && isErrorType(v.typ)
	}
	assume := func(s *Sim, env simEnv, v *Value) (Fact, bool) {
		if isErr(v) {
			return Fact{kind: fNil}, true
		}
		if v.op == OpBin && (v.tok == token.EQL || v.tok == token.NEQ) {
			x, y := v.args[0], v.args[1]
			if isErr(y) {
				x, y = y, x
			}
			if isErr(x) && !isNilConst(y) {
				return boolFact(v.tok == token.NEQ), true
			}
		}
		if v.op == OpCall && v.name == "errors.Is" && isErr(v.args[0]) {
			return boolFact(false), true
		}
		return Fact{}, false
	}
	ends := func(s *Sim, k exitKind, env simEnv, v *Value) bool { return true }
	// from a row to the next, or to the end: no way around adding it
	var lost *Value
	s := &Sim{fl: fl, assume: assume, exit: ends}
	s.visit = func(s *Sim, env simEnv, v *Value) bool {
		if prim(v, "AddSample") {
			return true
		}
		if v == rd || prim(v, "UpdateNetwork") {
			lost = v
			return true
		}
		return false
	}
	s.run(rd, nil)
	switch {
	case s.overflow:
		c.undecide("rows", "path limit")
	case lost != nil:
		c.fail("rows", "TrainNetwork: a row is not added", fl.where(lost), "a row that was read can be left out of the training data", fl.chain(rd))
	default:
		c.ok("rows", "every row read is added")
	}
	// and only once
	for _, a := range adds {
		var twice *Value
		s := &Sim{fl: fl, exit: ends}
		s.visit = func(s *Sim, env simEnv, v *Value) bool {
			if v == rd {
				return true
			}
			if prim(v, "AddSample") {
				twice = v
				return true
			}
			return false
		}
		s.run(a, nil)
		if s.overflow {
			c.undecide("rows", "path limit")
		} else if twice != nil {
			c.fail("rows", "TrainNetwork: a row is added twice", fl.where(twice), "a row can be added more than once", fl.chain(twice))
		} else {
			c.ok("rows", "a row is added once")
		}
	}
	c.rowValues(fl, rd, rl, adds)
}

// rowValues: the lists given to AddSample get a value for every node in every row, and it comes from the node's column.
func (c *Ctx) rowValues(fl *Flat, rd *Value, rl *Loop, adds []*Value) {
	n := trainSeq(c, fl, "TrainNetwork")
	n.utilityFlags()
	for _, a := range adds {
		if len(a.args) < 3 {
			continue
		}
		lists := []*Value{stripCT(a.args[1]), stripCT(a.args[2])}
		cover := map[*Loop]int{}
		at := map[*Loop]*Value{}
		used := true
		for _, l := range lists {
			if l.op != OpMakeSlice || rl.blocks[l.blk] {
				used = false // fresh in every row
				break
			}
			for _, u := range l.uses {
				if u.op == OpBuiltin || u.op == OpCall && u != a || u.op == OpPhi || u.op == OpStore || u.op == OpSlice {
					if u.op == OpBuiltin && (u.name == "len" || u.name == "cap") {
						continue
					}
					used = false
				}
				if u.op != OpIndexAddr {
					continue
				}
				for _, s := range u.uses {
					if s.op != OpStore || s.args[0] != u || !rl.blocks[s.blk] {
						continue
					}
					x := n.q.inner[s.blk]
					if x == nil || x == rl {
						used = false
						continue
					}
					d := n.q.dom(x)
					if d == nil || d.isMap || d.partial != "" || stripConv(u.args[1]) != stripConv(d.ct.iv.cur) {
						used = false
						continue
					}
					cover[x] = n.q.m.or(cover[x], n.q.cond(x, s.blk))
					n.cellValue(s, x, rd, l == lists[1])
					at[x] = s
				}
			}
		}
		if !used || len(cover) != 1 {
			c.undecide("row-values", "TrainNetwork: lists of values not recognised")
			continue
		}
		for x, f := range cover {
			if f == 1 {
				c.ok("row-values", "a value for every node in every row")
				continue
			}
			not := n.q.m.not(f)
			c.fail("row-values", "TrainNetwork: value of an earlier row", fl.where(at[x]), "a node can keep its value of an earlier row, when "+n.q.m.canon(not), fl.chain(at[x]))
		}
	}
}

// leafCond: a value that can be meant, and when.
type leafCond struct {
	v *Value
	f int
}

// leafConds: the values v can have at b in a round of l.
func (n *netc) leafConds(l *Loop, v *Value, b *Block) []leafCond {
	var out []leafCond
	var walk func(v *Value, f, d int)
	walk = func(v *Value, f, d int) {
		v = stripCT(v)
		if v.op == OpPhi && d < 8 && n.q.inner[v.blk] == l && v.blk != l.head {
			r := n.q.reach(l)
			for i, a := range v.args {
				if n.q.gone(v.blk.preds[i]) {
					continue
				}
				if e := n.q.m.and(f, n.q.into(l, v.blk.preds[i], v.blk, r)); e != 0 {
					walk(a, e, d+1)
				}
			}
			return
		}
		out = append(out, leafCond{v, f})
	}
	walk(v, n.q.cond(l, b), 0)
	return out
}

// cellValue: what is stored for a node is what the row has in the node's column.
func (n *netc) cellValue(s *Value, l *Loop, rd *Value, utility bool) {
	c, m := n.c, n.q.m
	noData := paramNamed(n.fl, isString, 1)
	if noData == nil {
		return
	}
	isRow := func(v *Value) bool {
		v = stripCT(v)
		return v.op == OpExtract && v.args[0] == rd && v.idx == 0
	}
	// cell: record[columns[i]]
	cell := func(v *Value) (k string, good, bad bool) {
		v = stripConv(v)
		if v.op == OpLoad {
			v = v.args[0]
		}
		if v.op != OpIndexAddr && v.op != OpIndex || !isRow(v.args[0]) {
			return "", false, false
		}
		k = n.q.key(v)
		ix := stripConv(v.args[1])
		if ix == stripConv(n.q.dom(l).ct.iv.cur) {
			return k, false, true
		}
		if _, isC := constInt(ix); isC {
			return k, false, true
		}
		if ix.op == OpLoad {
			ix = ix.args[0]
		}
		if ix.op != OpIndexAddr || stripConv(ix.args[1]) != stripConv(n.q.dom(l).ct.iv.cur) {
			return k, false, false
		}
		co := n.q.coll(ix.args[0])
		if co.unk != "" || co.src != "nodes" || co.sel != 1 || co.bad != "" {
			return k, false, n.arithFill(ix.args[0])
		}
		if strings.HasPrefix(co.expr, "ix(") && strings.HasSuffix(co.expr, ",·.Name)") {
			return k, true, false
		}
		return k, false, known(co.expr) || n.arithFill(ix.args[0])
	}
	for _, lc := range n.leafConds(l, s.args[1], s.blk) {
		v := stripConv(lc.v)
		var src *Value
		kind := ""
		switch {
		case v.op == OpCall && v.name == "math.NaN":
			kind = "missing"
		case v.op == OpConst:
			kind = "const"
			if i, ok := constInt(v); ok && i < 0 && !utility {
				kind = "missing"
			}
		case v.op == OpExtract && v.args[0].op == OpCall && v.args[0].name == "strconv.ParseFloat":
			kind, src = "parsed", v.args[0].args[0]
			if b, ok := constInt(v.args[0].args[1]); ok && b != 64 {
				n.bad("cell-value", "utility cell", s, "a utility is read with less precision than the table has")
				continue
			}
		case v.op == OpExtract && v.args[0].op == OpLookup:
			kind, src = "looked up", v.args[0].args[1]
		case v.op == OpLookup:
			kind, src = "looked up", v.args[1]
		case utility && (v.op == OpBin || v.op == OpBuiltin || v.op == OpCall && strings.HasPrefix(v.name, "math.")):
			n.bad("cell-value", "utility cell", s, "a utility is not stored as it is in the file")
			continue
		}
		if kind == "const" {
			n.bad("cell-value", "fixed value", s, "a fixed value is stored for a node")
			continue
		}
		if kind == "" {
			n.undec("cell-value", s, "stored value")
			continue
		}
		if kind == "missing" {
			// only if the cell holds the no-data value
			var e string
			for _, a := range m.support(lc.f) {
				if strings.HasPrefix(a, "eq(") && strings.Contains(a, noData.name) {
					e = a
				}
			}
			if e == "" {
				n.undec("cell-value", s, "missing when "+m.canon(lc.f))
			} else if m.set(lc.f, e, false) != 0 {
				n.bad("cell-value", "missing value", s, "a value counts as missing although its cell does not hold the no-data value, when "+m.canon(m.set(lc.f, e, false)))
			} else {
				c.ok("cell-value", "missing value")
			}
			continue
		}
		k, good, bad := cell(src)
		switch {
		case bad:
			n.bad("cell-value", "column", s, "the value of a node is taken from another column than that of its name")
		case !good:
			n.undec("cell-value", s, kind+" "+k)
		default:
			c.ok("cell-value", kind+" from the column with the node's name")
		}
	}
}

// arithFill: the list is filled with positions or computed values instead of places in the header.
func (n *netc) arithFill(list *Value) bool {
	list = n.q.pick(stripCT(list))
	if list.op != OpMakeSlice {
		return false
	}
	for _, u := range list.uses {
		if u.op != OpIndexAddr || u.args[0] != list {
			continue
		}
		for _, s := range u.uses {
			if s.op != OpStore || s.args[0] != u {
				continue
			}
			v := stripConv(s.args[1])
			if v.op == OpBin || v.op == OpBuiltin && (v.name == "min" || v.name == "max") {
				return true
			}
			if l := n.q.inner[s.blk]; l != nil && n.q.dom(l) != nil && !n.q.dom(l).isMap && v == stripConv(n.q.dom(l).ct.iv.cur) {
				return true
			}
		}
	}
	return false
}

// utilityFlags: a list of flags that tells the utilities: it does so by the type of the node alone.
func (n *netc) utilityFlags() {
	n.fl.each(func(s *Value) {
		if s.op != OpStore || s.args[0].op != OpIndexAddr || !isBoolT(s.args[1].typ) {
			return
		}
		l := n.q.inner[s.blk]
		if l == nil || n.q.dom(l) == nil {
			return
		}
		f := n.q.m.and(n.q.cond(l, s.blk), n.q.val(s.args[1], l))
		typ := ""
		for _, a := range n.q.m.support(f) {
			if strings.HasSuffix(a, ".NodeType="+n.c.nodeTypes()["UtilityNode"]) {
				typ = a
			}
		}
		if typ == "" {
			return
		}
		if f == n.q.m.atom(typ) || f == n.q.m.not(n.q.m.atom(typ)) {
			n.c.ok("cell-value", "utilities are told by the type of the node")
		} else if n.q.unknown(f) == "" {
			n.bad("cell-value", "utilities", s, "a node is treated as a utility only when "+n.q.m.canon(f))
		}
	})
}

// outcomeNumbers: the numbers by which outcomes in a data file are looked up.
func (c *Ctx) outcomeNumbers() {
	fn := c.w.fn("internal/tui", "", "TrainNetwork")
	if fn == nil {
		return
	}
	fl := c.flatStop(fn, isTrainerOp)
	n := trainSeq(c, fl, "TrainNetwork")
	noData := paramNamed(fl, isString, 1)
	if noData == nil {
		return
	}
	k := 0
	fl.each(func(v *Value) {
		if v.op != OpMapUpdate || !n.q.live(v.blk) {
			return
		}
		mt, ok := v.args[0].typ.Underlying().(*types.Map)
		if !ok || !isString(mt.Key()) || !isInteger(mt.Elem()) {
			return
		}
		if stripConv(v.args[1]) == noData {
			k++
			if i, ok := constInt(v.args[2]); ok && i >= 0 {
				n.bad("outcome-number", "no-data outcome", v, "the no-data value is recorded as a regular outcome")
			} else if ok {
				c.ok("outcome-number", "no-data value")
			}
			return
		}
		l := n.q.inner[v.blk]
		if l == nil {
			return
		}
		d := n.q.dom(l)
		if d == nil || d.isMap || !strings.HasSuffix(n.q.key(d.list), ".Outcomes") {
			return
		}
		if n.q.key(v.args[1]) != n.q.tok(l) {
			return
		}
		k++
		if d.partial != "" {
			n.bad("outcome-number", "outcomes", v, "not every outcome is recorded: the loop "+d.partial)
			return
		}
		val, cur := n.p(v.args[2]), n.p(d.ct.iv.cur)
		if val.equal(cur) {
			c.ok("outcome-number", "outcome → its position")
			return
		}
		diff := val.add(cur, -1)
		if len(diff) == 1 && diff[""] != 0 || val.add(cur, 1).equal(n.p(d.ct.iv.bound).add(polyConst(1), -1)) || len(val) == 0 || len(val) == 1 && val[""] != 0 {
			n.bad("outcome-number", "outcomes", v, "an outcome is recorded with another number than its position")
		} else {
			n.undec("outcome-number", v, "number "+val.String())
		}
	})
	if k == 0 {
		c.undecide("outcome-number", "TrainNetwork: numbers of outcomes not recognised")
	}
}

// ratio: v as a quotient of polynomials over the given atoms; ok is false if anything else occurs.
func ratio(v *Value, atom func(*Value) string, d int) (num, den Poly, ok bool) {
	v = stripConv(v)
	if a := atom(v); a != "" {
		return polyAtom(a), polyConst(1), true
	}
	if v.op == OpConst && v.cval != nil {
		if f := constant.ToInt(v.cval); f.Kind() == constant.Int {
			if i, exact := constant.Int64Val(f); exact {
				return polyConst(i), polyConst(1), true
			}
		}
		return polyAtom("const " + v.cval.ExactString()), polyConst(1), true
	}
	if d > 12 {
		return nil, nil, false
	}
	if v.op == OpBuiltin && (v.name == "min" || v.name == "max") {
		name := v.name
		for _, a := range v.args {
			x, y, ok := ratio(a, atom, d+1)
			if !ok {
				return nil, nil, false
			}
			name += " " + x.String() + "/" + y.String()
		}
		return polyAtom(name), polyConst(1), true
	}
	if v.op != OpBin {
		return nil, nil, false
	}
	a, b, ok1 := ratio(v.args[0], atom, d+1)
	x, y, ok2 := ratio(v.args[1], atom, d+1)
	if !ok1 || !ok2 {
		return nil, nil, false
	}
	switch v.tok {
	case token.ADD:
		return a.mul(y).add(x.mul(b), 1), b.mul(y), true
	case token.SUB:
		return a.mul(y).add(x.mul(b), -1), b.mul(y), true
	case token.MUL:
		return a.mul(x), b.mul(y), true
	case token.QUO:
		return a.mul(y), b.mul(x), true
	}
	return nil, nil, false
}
