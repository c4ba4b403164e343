package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The operators by name: constant tables ...

func lrows(n int, f func(a, b bool) bool) []bool {
	if n == 1 {
		return []bool{f(true, false), f(false, false)}
	}
	return []bool{f(true, true), f(true, false), f(false, true), f(false, false)}
}

var logicBool = map[string][]bool{
	"Not":       lrows(1, func(a, _ bool) bool { return !a }),
	"Equals":    lrows(1, func(a, _ bool) bool { return a }),
	"EqualsNot": lrows(1, func(a, _ bool) bool { return !a }),

	"And":       lrows(2, func(a, b bool) bool { return a && b }),
	"NotAnd":    lrows(2, func(a, b bool) bool { return !a && b }),
	"AndNot":    lrows(2, func(a, b bool) bool { return a && !b }),
	"NotAndNot": lrows(2, func(a, b bool) bool { return !a && !b }),

	"Or":       lrows(2, func(a, b bool) bool { return a || b }),
	"NotOr":    lrows(2, func(a, b bool) bool { return !a || b }),
	"OrNot":    lrows(2, func(a, b bool) bool { return a || !b }),
	"NotOrNot": lrows(2, func(a, b bool) bool { return !a || !b }),

	"XOr": lrows(2, func(a, b bool) bool { return a != b }),

	"Cond":       lrows(2, func(a, b bool) bool { return !a || b }),
	"NotCond":    lrows(2, func(a, b bool) bool { return a || b }),
	"CondNot":    lrows(2, func(a, b bool) bool { return !a || !b }),
	"NotCondNot": lrows(2, func(a, b bool) bool { return a || !b }),

	"BiCond": lrows(2, func(a, b bool) bool { return a == b }),
}

var logicFloat = map[string][]float64{
	"IfThen":       {1, 0, .5, .5},
	"IfNotThen":    {.5, .5, 1, 0},
	"IfThenNot":    {0, 1, .5, .5},
	"IfNotThenNot": {.5, .5, 0, 1},
}

// ... and computed ones. guard: arguments for which there is a table; rows, width; truth: rows for
// which the operator is true (width 2); col: the column holding 1 (other widths).
type lspec struct {
	args  int // arguments of the constructor
	list  bool
	rows  Poly
	width Poly
	guard func(w *lview) int
	truth func(w *lview) []int // equivalent forms
	col   Poly
}

func logicSpecs() map[string]*lspec {
	g, r := polyAtom("given"), polyAtom("r")
	a0, a1 := polyAtom("a0"), polyAtom("a1")
	one := polyConst(1)
	two := polyConst(2)
	all := func(w *lview) int { return 1 }
	trues := g.add(polyAtom("ones(r)"), -1)
	count := func(f func(w *lview, d Poly) int) *lspec {
		return &lspec{args: 1, rows: pow2(g), width: two, guard: all, truth: func(w *lview) []int {
			return []int{f(w, trues.add(a0, -1))}
		}}
	}
	inGiven := func(w *lview) int {
		return w.m.and(w.m.not(w.lt(a0)), w.lt(a0.add(g, -1)))
	}
	bitAt := func(w *lview, e Poly) int { return w.m.atom("bit(" + nest(e) + ")") }
	mine := func(w *lview) int { return w.m.not(bitAt(w, g.add(one, -1).add(a0, -1))) }
	given := func(f func(w *lview) []int) *lspec {
		return &lspec{args: 1, rows: pow2(g), width: two, guard: inGiven, truth: f}
	}
	outcome := func(upto bool, f func(w *lview) int) *lspec {
		return &lspec{args: 2, rows: a1, width: two, guard: func(w *lview) int {
			x := a0.add(a1, -1) // index < length
			if upto {
				x = x.add(one, -1)
			}
			return w.m.and(w.eq(g.add(one, -1)), w.m.and(w.m.not(w.lt(a0)), w.lt(x)))
		}, truth: func(w *lview) []int { return []int{f(w)} }}
	}
	return map[string]*lspec{
		"CountIs":      count(func(w *lview, d Poly) int { return w.eq(d) }),
		"CountLess":    count(func(w *lview, d Poly) int { return w.lt(d) }),
		"CountGreater": count(func(w *lview, d Poly) int { return w.lt(Poly{}.add(d, -1)) }),
		"CountTrue":    {rows: pow2(g), width: g.add(one, 1), guard: all, col: trues},
		"CountFalse":   {rows: pow2(g), width: g.add(one, 1), guard: all, col: polyAtom("ones(r)")},
		"Bits":         {rows: pow2(g), width: pow2(g), guard: all, col: pow2(g).add(one, -1).add(r, -1)},
		"Given":        given(func(w *lview) []int { return []int{mine(w)} }),
		"GivenNot":     given(func(w *lview) []int { return []int{w.m.not(mine(w))} }),
		"GivenExcl": given(func(w *lview) []int {
			j := polyAtom("j1")
			var ids [2]int
			for k, x := range []Poly{j, g.add(one, -1).add(j, -1)} {
				ids[k] = w.m.and(w.m.not(w.eq(x.add(a0, -1))), w.m.not(bitAt(w, g.add(one, -1).add(x, -1))))
			}
			if ids[1] < ids[0] {
				ids[0] = ids[1]
			}
			other := w.exists(Poly{}, g, ids[0])
			return []int{
				w.m.and(mine(w), w.m.not(other)),
				w.m.and(mine(w), w.eq(trues.add(one, -1))),
				w.m.and(mine(w), w.lt(trues.add(two, -1))),
				w.eq(r.add(pow2(g).add(one, -1).add(pow2(g.add(one, -1).add(a0, -1)), -1), -1)),
			}
		}),
		"OutcomeIs":      outcome(false, func(w *lview) int { return w.eq(r.add(a0, -1)) }),
		"OutcomeIsNot":   outcome(false, func(w *lview) int { return w.m.not(w.eq(r.add(a0, -1))) }),
		"OutcomeLess":    outcome(true, func(w *lview) int { return w.lt(r.add(a0, -1)) }),
		"OutcomeGreater": outcome(true, func(w *lview) int { return w.m.not(w.lt(r.add(a0, -1))) }),
		"OutcomeEither": {args: 2, list: true, rows: a1, width: two, guard: func(w *lview) int {
			j := polyAtom("j1")
			n := polyAtom("len(a0)")
			var ids [2]int
			for k, x := range []Poly{j, n.add(one, -1).add(j, -1)} {
				e := polyAtom("el(a0," + nest(x) + ")")
				ids[k] = w.m.or(w.lt(e), w.m.not(w.lt(e.add(a1, -1))))
			}
			if ids[1] < ids[0] {
				ids[0] = ids[1]
			}
			return w.m.and(w.eq(g.add(one, -1)), w.m.and(w.m.not(w.lt(a1)), w.m.not(w.exists(Poly{}, n, ids[0]))))
		}, truth: func(w *lview) []int { return []int{w.m.atom("in(a0)")} }},
	}
}

func logicKey(s string) string { return strings.ToLower(strings.ReplaceAll(s, "-", "")) }

// oper: a constructor and what it makes.
type oper struct {
	name  string
	fn    *ssa.Function
	typ   *types.Named
	glob  *ssa.Global
	fresh bool
	role  map[string]string
	konst map[string]*Value
	rules map[*ssa.Function]bool
}

func checkC10(c *Ctx) {
	p := c.w.pkg("logic")
	if p == nil {
		c.fail("anchor", "logic", "-", "package logic not found", "")
		return
	}
	fac := c.w.namedType("logic", "Factor")
	if fac == nil {
		c.fail("anchor", "logic.Factor", "-", "type Factor not found", "")
		return
	}
	specs := logicSpecs()
	var names []string
	for n := range specs {
		names = append(names, n)
	}
	for n := range logicBool {
		names = append(names, n)
	}
	for n := range logicFloat {
		names = append(names, n)
	}
	sort.Strings(names)
	ops := map[string]*oper{}
	for _, n := range names {
		fn := c.must("logic", "", n)
		if fn == nil {
			continue
		}
		if o := c.operOf(fn); o != nil {
			ops[n] = o
		}
	}
	boolT := map[*types.Named]bool{}
	for _, n := range names {
		o := ops[n]
		if o == nil {
			continue
		}
		if b, ok := logicBool[n]; ok {
			c.constTable(o, "truth-table", func(i int, v *Value) (string, bool, bool) {
				x, ok := constBool(v)
				if !ok {
					return "", false, false
				}
				return fmt.Sprint(x), i < len(b) && x == b[i], true
			}, len(b), func(i int) string { return fmt.Sprint(b[i]) })
			boolT[o.typ] = true
			continue
		}
		if f, ok := logicFloat[n]; ok {
			c.constTable(o, "truth-table", func(i int, v *Value) (string, bool, bool) {
				x, ok := constFloat(v)
				if !ok {
					return "", false, false
				}
				return fmt.Sprint(x), i < len(f) && x == f[i], true
			}, len(f), func(i int) string { return fmt.Sprint(f[i]) })
			boolT[o.typ] = true
			continue
		}
		if o.glob != nil && specs[n].args > 0 {
			c.fail("registry", n+" shared", c.w.pos(o.fn.Pos()), fmt.Sprintf("every call of %s returns the same instance, whose arguments can be set", n), "")
			continue
		}
		c.opTable(o, specs[n])
		c.opArgs(o, specs[n])
	}
	for t := range boolT {
		c.arrayTable(t)
	}
	c.logicGet(ops)
	for r, k := range map[string]int{"truth-table": 10, "rows": 5, "domain": 5, "size": 5, "arguments": 5, "registry": 15} {
		c.floor(r, k)
	}
}

// operOf: what a constructor returns.
func (c *Ctx) operOf(fn *ssa.Function) *oper {
	fl := c.flat(fn)
	o := &oper{name: fn.Name(), fn: fn, role: map[string]string{}, konst: map[string]*Value{}, rules: map[*ssa.Function]bool{}}
	var rets []*Value
	fl.each(func(v *Value) {
		if v.op == OpReturn {
			rets = append(rets, v)
		}
	})
	if len(rets) != 1 || len(rets[0].args) == 0 {
		c.undecide("operator", o.name+": result not recognised")
		return nil
	}
	v := rets[0].args[0]
	for v.op == OpMakeIface || v.op == OpChangeType {
		v = v.args[0]
	}
	t := v.typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	nm, ok := t.(*types.Named)
	if !ok {
		c.undecide("operator", o.name+": type of the result not recognised")
		return nil
	}
	o.typ = nm
	switch v.op {
	case OpGlobal:
		o.glob = v.glob
		return o
	case OpLoad:
		if v.args[0].op == OpGlobal {
			o.glob = v.args[0].glob
			return o
		}
	case OpAlloc:
		o.fresh = true
		bad := false
		n := map[string]int{}
		fl.each(func(s *Value) {
			if s.op != OpStore {
				return
			}
			a := s.args[0]
			if a == v {
				bad = true
				return
			}
			if a.op != OpFieldAddr || a.args[0] != v {
				return
			}
			f := fieldName(a)
			n[f]++
			x := stripCT(s.args[1])
			switch x.op {
			case OpParam:
				for i, p := range fl.params {
					if p == x {
						o.role[f] = fmt.Sprintf("a%d", i)
					}
				}
			case OpConst:
				o.konst[f] = x
			case OpFunc, OpClosure:
				o.rules[x.fn] = true
			}
		})
		for f, k := range n {
			if k > 1 {
				delete(o.role, f)
				delete(o.konst, f)
			}
		}
		if bad {
			c.undecide("operator", o.name+": stored as a whole")
			return nil
		}
		// fields never set are zero
		if st := structOf(nm); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if n[f.Name()] == 0 {
					if z := zeroConst(f.Type()); z != nil {
						o.konst[f.Name()] = &Value{op: OpConst, cval: z, typ: f.Type()}
					}
				}
			}
		}
		return o
	}
	c.undecide("operator", o.name+": result not recognised")
	return nil
}

// constTable: the constants behind a global table.
func (c *Ctx) constTable(o *oper, rule string, get func(i int, v *Value) (string, bool, bool), n int, want func(int) string) {
	if o.glob == nil {
		c.undecide(rule, o.name+": not a constant table")
		return
	}
	ini := o.glob.Pkg.Func("init")
	if ini == nil {
		c.undecide(rule, o.name+": no initializer")
		return
	}
	fl := c.initFlat(ini)
	var st *Value
	k := 0
	fl.each(func(v *Value) {
		if v.op == OpStore && v.args[0].op == OpGlobal && v.args[0].glob == o.glob {
			st = v
			k++
		}
	})
	if k != 1 {
		c.undecide(rule, o.name+": table initialised in several places or none")
		return
	}
	x := stripCT(st.args[1])
	for x.op == OpMakeIface {
		x = stripCT(x.args[0])
	}
	if x.op != OpSlice || x.args[1] != nil || x.args[2] != nil || stripCT(x.args[0]).op != OpAlloc {
		c.undecide(rule, o.name+": table not made of constants")
		return
	}
	al := stripCT(x.args[0])
	at, ok := al.typ.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	arr, ok := at.Elem().Underlying().(*types.Array)
	if !ok {
		c.undecide(rule, o.name+": table not made of constants")
		return
	}
	cells := make([]*Value, arr.Len())
	bad := false
	fl.each(func(v *Value) {
		if v.op != OpIndexAddr || stripCT(v.args[0]) != al {
			return
		}
		i, ok := constInt(v.args[1])
		if !ok || i < 0 || i >= arr.Len() {
			bad = true
			return
		}
		for _, u := range v.uses {
			if u.op == OpStore && u.args[0] == v && cells[i] == nil {
				cells[i] = u.args[1]
			} else {
				bad = true
			}
		}
	})
	if bad {
		c.undecide(rule, o.name+": table not made of constants")
		return
	}
	if int(arr.Len()) != n {
		c.fail(rule, o.name, c.w.pos(o.glob.Pos()), fmt.Sprintf("the table of %s has %d entries; expected %d", o.name, arr.Len(), n), "")
		return
	}
	for i := range cells {
		v := cells[i]
		if v == nil {
			v = &Value{op: OpConst, cval: zeroConst(arr.Elem()), typ: arr.Elem()}
		}
		got, eq, ok := get(i, v)
		if !ok {
			c.undecide(rule, o.name+": table not made of constants")
			return
		}
		if !eq {
			c.fail(rule, fmt.Sprintf("%s[%d]", o.name, i), c.w.pos(o.glob.Pos()), fmt.Sprintf("the table of %s (global %s) has %s at entry %d; expected %s", o.name, o.glob.Name(), got, i, want(i)), "")
			continue
		}
	}
	c.ok(rule, o.name)
}

func (c *Ctx) method(t *types.Named, name string) *ssa.Function {
	return c.w.fn("logic", t.Obj().Name(), name)
}

// lstore: a write into the table being built.
type lstore struct {
	v    *Value
	base *Value
}

func (o *lop) setup(op *oper) {
	if len(o.fl.params) < 2 {
		return
	}
	o.recv, o.given = o.fl.params[0], o.fl.params[1]
	if op != nil {
		for k, v := range op.role {
			o.role[k] = v
		}
		for k, v := range op.konst {
			o.konst[k] = v
		}
		for k := range op.rules {
			o.rules[k] = true
		}
	}
}

// success: the results returned without error, and the condition for it.
func (w *lview) success() (res map[*Value]bool, cond int, ok bool) {
	res = map[*Value]bool{}
	var walk func(blk *Block, c int, r, e *Value, d int) bool
	walk = func(blk *Block, c int, r, e *Value, d int) bool {
		if d > 20 || c == 0 {
			return c == 0
		}
		if e.op == OpPhi && w.inner[e.blk] == nil {
			for i, a := range e.args {
				p := e.blk.preds[i]
				rr := r
				if r.op == OpPhi && r.blk == e.blk {
					rr = r.args[i]
				}
				if !walk(p, w.m.and(c, w.edge(nil, p, e.blk)), rr, a, d+1) {
					return false
				}
			}
			return true
		}
		if isNilConst(e) {
			if r.op == OpPhi && w.inner[r.blk] == nil {
				for i, a := range r.args {
					p := r.blk.preds[i]
					if !walk(p, w.m.and(c, w.edge(nil, p, r.blk)), a, e, d+1) {
						return false
					}
				}
				return true
			}
			cond = w.m.or(cond, c)
			res[stripCT(r)] = true
			return true
		}
		x := e
		for x.op == OpMakeIface || x.op == OpChangeType {
			x = x.args[0]
		}
		return x.op == OpCall || x.op == OpAlloc || x.op == OpLoad && x.args[0].op == OpGlobal || x.op == OpExtract
	}
	for _, b := range w.fl.blocks {
		n := len(b.instrs)
		if n == 0 || b.instrs[n-1].op != OpReturn {
			continue
		}
		rt := b.instrs[n-1]
		if len(rt.args) != 2 || w.inner[b] != nil {
			return nil, 0, false
		}
		if !walk(b, w.reach(nil)[b], rt.args[0], rt.args[1], 0) {
			return nil, 0, false
		}
	}
	return res, cond, true
}

func unkn(s string) bool { return strings.Contains(s, "?") || strings.Contains(s, "φ") }

func (o *lop) unknown(f int) bool {
	for _, a := range o.m.support(f) {
		if unkn(a) {
			return true
		}
	}
	return false
}

// opTable: the table of a computed operator.
func (c *Ctx) opTable(op *oper, sp *lspec) {
	fn := c.method(op.typ, "Table")
	if fn == nil {
		c.fail("anchor", "Table of "+op.name, "-", "method Table not found", "")
		return
	}
	sa := c.method(op.typ, "SetArgs")
	if sa != nil {
		// fields that can change are not constant
		fl := c.flat(sa)
		fl.each(func(v *Value) {
			if v.op == OpStore && v.args[0].op == OpFieldAddr {
				delete(op.konst, fieldName(v.args[0]))
			}
		})
	}
	fl := c.flat(fn)
	o := newLop(c, fl, op.name)
	o.setup(op)
	o.full = sp.rows
	w := o.view()
	res, suc, ok := w.success()
	if !ok || len(res) == 0 {
		c.undecide("domain", op.name+": results of Table not recognised")
		return
	}
	where := c.w.pos(fn.Pos())
	want := sp.guard(w)
	ax := o.axioms()
	if o.m.and(ax, suc) == o.m.and(ax, want) {
		c.ok("domain", op.name)
	} else if o.unknown(suc) {
		c.undecide("domain", op.name+": conditions for a table not recognised: "+o.m.canon(suc))
	} else {
		c.fail("domain", op.name, where, fmt.Sprintf("Table of %s succeeds when %s; expected %s", op.name, o.m.canon(suc), o.m.canon(want)), "")
	}
	if len(res) != 1 {
		c.undecide("rows", op.name+": several tables")
		return
	}
	var tab *Value
	for r := range res {
		tab = r
	}
	dom := o.m.and(suc, want)
	two := sp.width.equal(polyConst(2))
	if tab.op == OpPhi && two {
		o.appendRows(op, sp, tab, dom, where)
		return
	}
	if tab.op != OpMakeSlice {
		c.undecide("rows", op.name+": way of building the table not recognised")
		return
	}
	n, ok := w.single(tab.args[0])
	size := sp.rows.mul(sp.width)
	switch {
	case !ok || unkn(n.String()):
		c.undecide("size", op.name+": size of the table not recognised")
	case n.equal(size):
		c.ok("size", op.name)
	default:
		c.fail("size", op.name, fl.where(tab), fmt.Sprintf("the table of %s has %s entries; expected %s", op.name, n, size), "")
		return
	}
	// writes
	var stores []*Value
	bad := ""
	fl.each(func(v *Value) {
		switch v.op {
		case OpStore:
			if v.args[0].op == OpIndexAddr && unslice(v.args[0].args[0]) == tab {
				stores = append(stores, v)
			}
		case OpBuiltin:
			if v.name == "copy" && unslice(v.args[0]) == tab || v.name == "append" && unslice(v.args[0]) == tab {
				bad = v.name
			}
		case OpCall:
			for _, a := range v.args {
				if a != nil && unslice(a) == tab {
					bad = v.name
				}
			}
		}
	})
	if bad != "" {
		c.undecide("rows", op.name+": table written by "+bad)
		return
	}
	o.sortStores(stores)
	if two {
		o.truthRows(op, sp, stores, dom, where)
	} else {
		o.colRows(op, sp, stores, dom, where)
	}
}

func unslice(v *Value) *Value {
	v = stripCT(v)
	for v.op == OpSlice {
		v = stripCT(v.args[0])
	}
	return v
}

// rep: the block, or the outermost loop not containing the other.
func (o *lop) chainOf(b *Block) []*Loop {
	var out []*Loop
	for l := o.inner[b]; l != nil; l = o.up[l] {
		out = append([]*Loop{l}, out...)
	}
	return out
}

// before: a runs before b where both run in the same iteration of their common loops.
func (o *lop) before(a, b *Value) bool {
	if a.blk == b.blk {
		return instrIndex(a) < instrIndex(b)
	}
	ca, cb := o.chainOf(a.blk), o.chainOf(b.blk)
	i := 0
	for i < len(ca) && i < len(cb) && ca[i] == cb[i] {
		i++
	}
	var com *Loop
	if i > 0 {
		com = ca[i-1]
	}
	set := func(ch []*Loop, blk *Block) map[*Block]bool {
		if i < len(ch) {
			return ch[i].blocks
		}
		return map[*Block]bool{blk: true}
	}
	sa, sb := set(ca, a.blk), set(cb, b.blk)
	seen := map[*Block]bool{}
	var st []*Block
	for x := range sa {
		seen[x] = true
		st = append(st, x)
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		for _, s := range x.succs {
			if com != nil && (s == com.head || !com.blocks[s]) {
				continue
			}
			if sb[s] && !sa[s] {
				return true
			}
			if !seen[s] {
				seen[s] = true
				st = append(st, s)
			}
		}
	}
	return false
}

func (o *lop) sortStores(s []*Value) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && o.before(s[j], s[j-1]); j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// rowView: for a write, the view in which it concerns row r, its condition and its column.
type rowWrite struct {
	w    *lview
	cond int
	col  Poly
}

func (o *lop) index(w *lview, addr *Value) []gcase {
	cs := w.polys(addr.args[1], 0)
	b := stripCT(addr.args[0])
	for b.op == OpSlice {
		if b.args[1] != nil {
			cs = w.cross(cs, w.polys(b.args[1], 0), func(x, y Poly) Poly { return x.add(y, 1) })
		}
		b = stripCT(b.args[0])
	}
	return cs
}

// rowsOf: the rows and columns a write reaches.
func (o *lop) rowsOf(st *Value, width Poly) ([]rowWrite, string) {
	r := polyAtom("r")
	addr := st.args[0]
	chain := o.chainOf(st.blk)
	two := width.equal(polyConst(2))
	if len(chain) == 0 {
		w := o.view()
		var out []rowWrite
		for _, x := range o.index(w, addr) {
			if !two {
				return nil, "write outside a loop"
			}
			row, col, ok := halve(x.p)
			if !ok || unkn(x.p.String()) {
				return nil, "index " + x.p.String()
			}
			out = append(out, rowWrite{w, w.m.and(w.m.and(x.c, w.path(st.blk)), w.eq(r.add(row, -1))), col})
		}
		return out, ""
	}
	if len(chain) > 1 {
		return nil, "nested loops around a write"
	}
	l := chain[0]
	iv := o.ivs[l]
	if iv == nil {
		return nil, "loop around a write without a counter"
	}
	if len((&lview{lop: o}).early(l)) > 0 {
		return nil, "loop around a write left early"
	}
	w := o.view()
	// the row is the counter
	if iv.step == 1 || iv.step == -1 {
		if !w.bind(l, r) {
			return nil, "counter"
		}
		lo, hi, ok := o.view().span(l)
		if !ok || unkn(lo.String()) || unkn(hi.String()) {
			return nil, "range of rows"
		}
		in := w.m.and(w.m.not(w.lt(r.add(lo, -1))), w.lt(r.add(hi, -1)))
		var out []rowWrite
		fits := true
		for _, x := range o.index(w, addr) {
			col := x.p.add(width.mul(r), -1)
			if two && len(col) > 0 && !(len(col) == 1 && col[""] == 1) || unkn(col.String()) {
				fits = false
				break
			}
			out = append(out, rowWrite{w, w.m.and(in, w.m.and(x.c, w.path(st.blk))), col})
		}
		if fits {
			return out, ""
		}
		// an element of a list names the row
		if two && len(lo) == 0 && strings.HasPrefix(hi.String(), "len(a") {
			w2 := o.view()
			w2.bind(l, polyAtom("r·?"))
			w2.el[l] = r
			out = nil
			for _, x := range o.index(w2, addr) {
				col := x.p.add(width.mul(r), -1)
				if len(col) > 0 && !(len(col) == 1 && col[""] == 1) {
					return nil, "index " + x.p.String()
				}
				c := w2.m.and(x.c, w2.path(st.blk))
				out = append(out, rowWrite{w2, w2.m.and(w2.m.atom("in("+strings.TrimSuffix(strings.TrimPrefix(hi.String(), "len("), ")")+")"), c), col})
			}
			return out, ""
		}
		if two {
			// another row for each value of the counter: a shifted or reversed row number
			if xs := o.index(o.bound(l, polyAtom("x")), addr); len(xs) == 1 && !unkn(xs[0].p.String()) {
				row, col, ok := halve(xs[0].p)
				if ok && (row["x"] == 1 || row["x"] == -1) {
					rest := row.add(polyAtom("x"), -row["x"])
					if !strings.Contains(rest.String(), "x") {
						// x = (r - rest) * sign
						x := r.add(rest, -1).mul(polyConst(row["x"]))
						w3 := o.bound(l, x)
						in := w3.m.and(w3.m.not(w3.lt(x.add(lo, -1))), w3.lt(x.add(hi, -1)))
						return []rowWrite{{w3, w3.m.and(in, w3.path(st.blk)), col}}, ""
					}
				}
			}
		}
		return nil, "index of a write"
	}
	if two && iv.step == 2 && !iv.pre {
		i0, ok := constInt(iv.init)
		b, ok2 := o.view().single(iv.bound)
		if ok && ok2 && (i0 == 0 || i0 == 1) && !unkn(b.String()) {
			x := r.mul(polyConst(2)).add(polyConst(i0), 1)
			w.bind(l, x)
			in := w.lt(x.add(b, -1))
			if iv.tok.String() == "<=" {
				in = w.lt(x.add(b, -1).add(polyConst(1), -1))
			}
			var out []rowWrite
			for _, y := range o.index(w, addr) {
				col := y.p.add(r.mul(polyConst(2)), -1)
				if len(col) > 0 && !(len(col) == 1 && col[""] == 1) {
					return nil, "index " + y.p.String()
				}
				out = append(out, rowWrite{w, w.m.and(in, w.m.and(y.c, w.path(st.blk))), col})
			}
			return out, ""
		}
	}
	return nil, "index of a write"
}

func (o *lop) bound(l *Loop, x Poly) *lview {
	w := o.view()
	w.bind(l, x)
	return w
}

// halve: 2*row + col.
func halve(p Poly) (row, col Poly, ok bool) {
	row = Poly{}
	for k, c := range p {
		if k == "" {
			f := c / 2
			if c < 0 && c%2 != 0 {
				f--
			}
			if f != 0 {
				row[""] = f
			}
			if c-2*f != 0 {
				col = polyConst(c - 2*f)
			}
			continue
		}
		if c%2 != 0 {
			return nil, nil, false
		}
		row[k] = c / 2
	}
	if col == nil {
		col = Poly{}
	}
	return row, col, true
}

// truthOf: a stored 0 or 1 as a function of the row.
func (w *lview) truthOf(v *Value, d int) (int, bool) {
	if f, ok := constFloat(v); ok {
		switch f {
		case 0:
			return 0, true
		case 1:
			return 1, true
		}
		return 0, false
	}
	if d > 10 {
		return 0, false
	}
	switch v.op {
	case OpConvert, OpChangeType:
		return w.truthOf(v.args[0], d+1)
	case OpBin:
		if c, ok := constFloat(v.args[0]); ok && c == 1 && v.tok.String() == "-" {
			x, ok := w.truthOf(v.args[1], d+1)
			return w.m.not(x), ok
		}
	case OpPhi:
		l := w.inner[v.blk]
		if l != nil && l.head == v.blk {
			return 0, false
		}
		r := 0
		for i, a := range v.args {
			x, ok := w.truthOf(a, d+1)
			if !ok {
				return 0, false
			}
			r = w.m.or(r, w.m.and(x, w.edge(l, v.blk.preds[i], v.blk)))
		}
		return r, true
	}
	return 0, false
}

func (o *lop) truthRows(op *oper, sp *lspec, stores []*Value, dom int, where string) {
	m := o.m
	cell := [2]int{0, 0}
	w0 := o.view()
	for _, s := range stores {
		ws, why := o.rowsOf(s, sp.width)
		if why != "" {
			o.c.undecide("rows", op.name+": "+why+" at "+o.fl.where(s))
			return
		}
		for _, x := range ws {
			val, ok := x.w.truthOf(s.args[1], 0)
			if !ok {
				o.c.undecide("rows", op.name+": value written at "+o.fl.where(s))
				return
			}
			k := x.col[""]
			cell[k] = m.ite(x.cond, val, cell[k])
		}
	}
	o.judge(op, sp, w0, cell, dom, where)
}

// judge compares the two cells of a generic row with the operator.
func (o *lop) judge(op *oper, sp *lspec, w *lview, cell [2]int, dom int, where string) {
	m := o.m
	r := polyAtom("r")
	forms := sp.truth(w)
	in := m.and(m.not(w.lt(r)), w.lt(r.add(sp.rows, -1)))
	ax := m.and(m.and(o.axioms(), dom), in)
	for _, f := range forms {
		if m.and(ax, cell[0]) == m.and(ax, f) && m.and(ax, cell[1]) == m.and(ax, m.not(f)) {
			o.c.ok("rows", op.name)
			return
		}
	}
	if o.unknown(m.and(ax, cell[0])) || o.unknown(m.and(ax, cell[1])) {
		o.c.undecide("rows", fmt.Sprintf("%s: row condition not recognised: %s", op.name, m.canon(cell[0])))
		return
	}
	for _, f := range forms {
		if m.and(ax, cell[0]) == m.and(ax, f) {
			o.c.fail("rows", op.name, where, fmt.Sprintf("in the table of %s, the second column is 1 for rows r with %s; expected the rows where the operator is false (%s)", op.name, m.canon(cell[1]), m.canon(m.not(f))), "")
			return
		}
	}
	o.c.fail("rows", op.name, where, fmt.Sprintf("in the table of %s, the first column is 1 for rows r with %s; expected %s", op.name, m.canon(cell[0]), m.canon(forms[0])), "")
}

func (o *lop) colRows(op *oper, sp *lspec, stores []*Value, dom int, where string) {
	m := o.m
	r := polyAtom("r")
	cov := 0
	w := o.view()
	in := m.and(m.not(w.lt(r)), w.lt(r.add(sp.rows, -1)))
	for _, s := range stores {
		ws, why := o.rowsOf(s, sp.width)
		if why != "" {
			o.c.undecide("rows", op.name+": "+why+" at "+o.fl.where(s))
			return
		}
		f, ok := constFloat(s.args[1])
		if !ok || f != 1 {
			o.c.undecide("rows", op.name+": value written at "+o.fl.where(s))
			return
		}
		for _, x := range ws {
			if unkn(x.col.String()) || o.unknown(x.cond) {
				o.c.undecide("rows", op.name+": index at "+o.fl.where(s))
				return
			}
			if !o.norm(x.col).equal(o.norm(sp.col)) {
				if m.and(m.and(o.axioms(), in), x.cond) == 0 {
					continue
				}
				o.c.fail("rows", op.name, o.fl.where(s), fmt.Sprintf("the table of %s has 1 in column %s of row r; expected column %s", op.name, x.col, sp.col), "")
				return
			}
			cov = m.or(cov, x.cond)
		}
	}
	ax := m.and(o.axioms(), in)
	if m.and(ax, cov) != ax {
		o.c.fail("rows", op.name, where, fmt.Sprintf("the table of %s is filled for rows r with %s only; expected every row", op.name, m.canon(cov)), "")
		return
	}
	o.c.ok("rows", op.name)
}

// appendRows: the table grows by one row per iteration.
func (o *lop) appendRows(op *oper, sp *lspec, tab *Value, dom int, where string) {
	l := o.inner[tab.blk]
	und := func(s string) { o.c.undecide("rows", op.name+": "+s) }
	if l == nil || l.head != tab.blk || o.up[l] != nil || o.ivs[l] == nil || len((&lview{lop: o}).early(l)) > 0 {
		und("way of building the table not recognised")
		return
	}
	lo, hi, ok := o.view().span(l)
	if !ok || o.ivs[l].step != 1 || len(lo) != 0 || unkn(hi.String()) {
		und("rows of the table not recognised")
		return
	}
	if !o.norm(hi).equal(o.norm(sp.rows)) {
		o.c.fail("size", op.name, where, fmt.Sprintf("the table of %s has %s rows; expected %s", op.name, hi, sp.rows), "")
		return
	}
	o.c.ok("size", op.name)
	w := o.bound(l, polyAtom("r"))
	cell := [2]int{}
	m := o.m
	var grow func(v *Value, c int, d int) bool
	grow = func(v *Value, c int, d int) bool {
		v = stripCT(v)
		if d > 10 {
			return false
		}
		if v.op == OpPhi && v != tab {
			if o.inner[v.blk] != l {
				return false
			}
			for i, a := range v.args {
				if !grow(a, m.and(c, w.edge(l, v.blk.preds[i], v.blk)), d+1) {
					return false
				}
			}
			return true
		}
		if v.op != OpBuiltin || v.name != "append" || stripCT(v.args[0]) != tab {
			return false
		}
		es, ok := litElems(o.fl, v.args[1])
		if !ok || len(es) != 2 {
			return false
		}
		for k, e := range es {
			x, ok := w.truthOf(e, 0)
			if !ok {
				return false
			}
			cell[k] = m.or(cell[k], m.and(c, x))
		}
		return true
	}
	var init *Value
	for i, a := range tab.args {
		p := tab.blk.preds[i]
		if !l.blocks[p] {
			init = a
			continue
		}
		if !grow(a, w.edge(l, p, tab.blk), 0) {
			und("rows added to the table not recognised")
			return
		}
	}
	if init == nil || !emptyList(init, map[*Value]bool{}) {
		und("start of the table not recognised")
		return
	}
	o.judge(op, sp, o.view(), cell, dom, where)
}

// litElems: the elements of a literal list.
func litElems(fl *Flat, v *Value) ([]*Value, bool) {
	v = stripCT(v)
	if v.op != OpSlice || v.args[1] != nil || v.args[2] != nil {
		return nil, false
	}
	al := stripCT(v.args[0])
	if al.op != OpAlloc {
		return nil, false
	}
	pt, ok := al.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	arr, ok := pt.Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]*Value, arr.Len())
	for _, u := range al.uses {
		if u.op != OpIndexAddr {
			continue
		}
		i, ok := constInt(u.args[1])
		if !ok || i < 0 || i >= arr.Len() {
			return nil, false
		}
		for _, s := range u.uses {
			if s.op == OpStore && s.args[0] == u {
				if out[i] != nil {
					return nil, false
				}
				out[i] = s.args[1]
			}
		}
	}
	for i := range out {
		if out[i] == nil {
			out[i] = &Value{op: OpConst, cval: zeroConst(arr.Elem()), typ: arr.Elem()}
		}
	}
	return out, true
}

// arrayTable: the table of an operator that is a list of constants.
func (c *Ctx) arrayTable(t *types.Named) {
	fn := c.method(t, "Table")
	if fn == nil {
		c.fail("anchor", "Table of "+t.Obj().Name(), "-", "method Table not found", "")
		return
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		c.undecide("rows", t.Obj().Name()+": not a list of constants")
		return
	}
	op := &oper{name: t.Obj().Name(), typ: t}
	fl := c.flat(fn)
	o := newLop(c, fl, op.name)
	o.setup(nil)
	w := o.view()
	res, suc, ok := w.success()
	if !ok || len(res) != 1 {
		c.undecide("domain", op.name+": results of Table not recognised")
		return
	}
	where := c.w.pos(fn.Pos())
	g, n := polyAtom("given"), polyAtom("len(f)")
	isF := isFloat(sl.Elem())
	need := pow2(g)
	if isF {
		need = need.mul(polyConst(2))
	}
	want := w.eq(n.add(need, -1))
	ax := o.axioms()
	if o.m.and(ax, suc) == o.m.and(ax, want) {
		c.ok("domain", op.name)
	} else if o.unknown(suc) {
		c.undecide("domain", op.name+": conditions for a table not recognised: "+o.m.canon(suc))
		return
	} else {
		c.fail("domain", op.name, where, fmt.Sprintf("Table of %s succeeds when %s; expected %s", op.name, o.m.canon(suc), o.m.canon(want)), "")
		return
	}
	var tab *Value
	for r := range res {
		tab = r
	}
	if isF {
		if isCopyOf(fl, tab, func(v *Value) bool { return w.list(v) == "f" }) {
			c.ok("rows", op.name+" copies its constants")
		} else {
			c.undecide("rows", op.name+": way of building the table not recognised")
		}
		return
	}
	// rows: the number of constants
	o.subst["2^(given)"] = n
	sp := &lspec{rows: n, width: polyConst(2), truth: func(w *lview) []int { return []int{w.m.atom("el(f,r)")} }}
	if tab.op == OpPhi {
		o.appendRows(op, sp, tab, 1, where)
		return
	}
	if tab.op != OpMakeSlice {
		c.undecide("rows", op.name+": way of building the table not recognised")
		return
	}
	sz, ok := w.single(tab.args[0])
	switch {
	case !ok || unkn(sz.String()):
		c.undecide("size", op.name+": size of the table not recognised")
	case o.norm(sz).equal(n.mul(polyConst(2))):
		c.ok("size", op.name)
	default:
		c.fail("size", op.name, fl.where(tab), fmt.Sprintf("the table of %s has %s entries; expected twice the number of rows", op.name, sz), "")
		return
	}
	var stores []*Value
	fl.each(func(v *Value) {
		if v.op == OpStore && v.args[0].op == OpIndexAddr && unslice(v.args[0].args[0]) == tab {
			stores = append(stores, v)
		}
	})
	o.sortStores(stores)
	o.truthRows(op, sp, stores, 1, where)
}

// isCopyOf: a fresh list with all elements of another.
func isCopyOf(fl *Flat, v *Value, src func(*Value) bool) bool {
	v = stripCT(v)
	switch v.op {
	case OpBuiltin:
		return v.name == "append" && len(v.args) == 2 && emptyList(v.args[0], map[*Value]bool{}) && src(stripCT(v.args[1]))
	case OpCall:
		return strings.HasPrefix(v.name, "slices.Clone") && src(stripCT(v.args[0]))
	case OpMakeSlice:
		n := stripCT(v.args[0])
		if n.op != OpBuiltin || n.name != "len" || !src(stripCT(n.args[0])) {
			return false
		}
		k, full := 0, false
		fl.each(func(u *Value) {
			if u.op == OpBuiltin && u.name == "copy" && unslice(u.args[0]) == v {
				k++
				full = stripCT(u.args[0]) == v && src(stripCT(u.args[1]))
			}
			if u.op == OpStore && u.args[0].op == OpIndexAddr && unslice(u.args[0].args[0]) == v {
				k += 2
			}
		})
		return k == 1 && full
	}
	return false
}

// opArgs: arguments set by name mean the same as those of the constructor.
func (c *Ctx) opArgs(op *oper, sp *lspec) {
	fn := c.method(op.typ, "SetArgs")
	if fn == nil {
		c.fail("anchor", "SetArgs of "+op.name, "-", "method SetArgs not found", "")
		return
	}
	fl := c.flat(fn)
	o := newLop(c, fl, op.name)
	if len(fl.params) != 2 {
		return
	}
	o.recv = fl.params[0]
	o.argsRule(op, sp, fl, fl.params[1], c.w.pos(fn.Pos()))
}

func (o *lop) argsRule(op *oper, sp *lspec, fl *Flat, args *Value, where string) {
	c := o.c
	o.argv = args
	w := o.view()
	n := polyAtom("len(args)")
	suc, ok := 0, true
	var walk func(cd int, e *Value, d int)
	walk = func(cd int, e *Value, d int) {
		switch {
		case cd == 0:
		case d > 10:
			ok = false
		case e.op == OpPhi && o.inner[e.blk] == nil:
			for i, a := range e.args {
				walk(o.m.and(cd, w.edge(nil, e.blk.preds[i], e.blk)), a, d+1)
			}
		case isNilConst(e):
			suc = o.m.or(suc, cd)
		case e.op == OpCall || e.op == OpMakeIface || e.op == OpExtract || e.op == OpLoad:
		default:
			ok = false
		}
	}
	for _, b := range fl.blocks {
		if k := len(b.instrs); k > 0 && b.instrs[k-1].op == OpReturn && len(b.instrs[k-1].args) == 1 {
			walk(w.reach(nil)[b], b.instrs[k-1].args[0], 0)
		}
	}
	want := w.eq(n.add(polyConst(int64(sp.args)), -1))
	if sp.list {
		want = o.m.not(w.lt(n.add(polyConst(int64(sp.args)), -1)))
	}
	ax := o.axioms()
	switch {
	case !ok:
		c.undecide("arguments", op.name+": results of SetArgs not recognised")
	case o.m.and(ax, suc) == o.m.and(ax, want):
		c.ok("arguments", op.name+" number")
	case o.unknown(suc):
		c.undecide("arguments", op.name+": condition of SetArgs not recognised")
	default:
		c.fail("arguments", op.name+" number", where, fmt.Sprintf("SetArgs of %s accepts arguments when %s; expected %s", op.name, o.m.canon(suc), o.m.canon(want)), "")
	}
	// fields
	got := map[string]string{}
	n2 := map[string]int{}
	when := map[string]int{}
	for _, v := range storesOf(fl) {
		a := v.args[0]
		if a.op != OpFieldAddr || a.args[0] != o.recv {
			if a == o.recv {
				n2["*"]++
			}
			continue
		}
		f := fieldName(a)
		n2[f]++
		when[f] = w.path(v.blk)
		x := stripCT(v.args[1])
		// a copied list counts as the list
		for k := 0; k < 4; k++ {
			if x.op == OpBuiltin && x.name == "append" && len(x.args) == 2 && emptyList(x.args[0], map[*Value]bool{}) {
				x = stripCT(x.args[1])
			} else if x.op == OpCall && strings.HasPrefix(x.name, "slices.Clone") {
				x = stripCT(x.args[0])
			} else {
				break
			}
		}
		switch {
		case x.op == OpLoad && x.args[0].op == OpIndexAddr && unslice(x.args[0].args[0]) == args:
			if is := o.index(w, x.args[0]); len(is) == 1 {
				got[f] = is[0].p.String()
			}
		case x.op == OpSlice && stripCT(x.args[0]) == args:
			lo, hi := Poly{}, n
			ok := true
			if x.args[1] != nil {
				lo, ok = w.single(x.args[1])
			}
			if ok && x.args[2] != nil {
				hi, ok = w.single(x.args[2])
			}
			if ok {
				got[f] = "[" + lo.String() + ":" + hi.String() + "]"
			}
		}
	}
	var fs []string
	for f := range op.role {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		want := strings.TrimPrefix(op.role[f], "a")
		if sp.list {
			switch want {
			case "0":
				want = "[0:" + n.add(polyConst(1), -1).String() + "]"
			case "1":
				want = n.add(polyConst(1), -1).String()
			}
		}
		key := op.name + "." + f
		switch {
		case n2[f] == 0 && n2["*"] == 0:
			c.fail("arguments", key, where, fmt.Sprintf("SetArgs of %s does not set %s, which the constructor sets from its argument %s", op.name, f, strings.TrimPrefix(op.role[f], "a")), "")
		case n2[f] != 1 || got[f] == "" || unkn(got[f]):
			c.undecide("arguments", key+": value not recognised")
		case got[f] != want:
			c.fail("arguments", key, where, fmt.Sprintf("SetArgs of %s sets %s from argument %s; the constructor sets it from %s", op.name, f, got[f], want), "")
		case o.m.and(ax, o.m.and(suc, o.m.not(when[f]))) != 0:
			if o.unknown(when[f]) {
				c.undecide("arguments", key+": set under a condition not recognised")
			} else {
				c.fail("arguments", key, where, fmt.Sprintf("SetArgs of %s sets %s only when %s", op.name, f, o.m.canon(when[f])), "")
			}
		default:
			c.ok("arguments", key)
		}
	}
}

func storesOf(fl *Flat) []*Value {
	var out []*Value
	fl.each(func(v *Value) {
		if v.op == OpStore {
			out = append(out, v)
		}
	})
	return out
}

// logicGet: names map to the operators of that name, and every operator has a name.
func (c *Ctx) logicGet(ops map[string]*oper) {
	fn := c.must("logic", "", "Get")
	if fn == nil {
		return
	}
	p := fn.Pkg
	// the map consulted by Get
	var reg *ssa.Global
	fl := c.flat(fn)
	many := false
	var look *Value
	fl.each(func(v *Value) {
		if v.op == OpLookup {
			if m := stripCT(v.args[0]); m.op == OpLoad && m.args[0].op == OpGlobal {
				if reg != nil && reg != m.args[0].glob {
					many = true
				}
				reg = m.args[0].glob
				look = v
			}
		}
	})
	if reg == nil || many {
		c.undecide("registry", "Get: the map of operators is not recognised")
		return
	}
	if k := stripCT(look.args[1]); k != fl.params[0] {
		if k.op == OpConst {
			c.fail("registry", "Get key", fl.where(look), "Get looks up a constant instead of the name", "")
		} else {
			c.undecide("registry", "Get: the name looked up is computed")
		}
	}
	ini := p.Func("init")
	if ini == nil {
		return
	}
	in := c.initFlat(ini)
	var mm *Value
	n := 0
	in.each(func(v *Value) {
		if v.op == OpStore && v.args[0].op == OpGlobal && v.args[0].glob == reg {
			mm = stripCT(v.args[1])
			n++
		}
	})
	if n != 1 || mm.op != OpMakeMap {
		c.undecide("registry", "the map of operators is not a literal")
		return
	}
	seen := map[string]bool{}
	all := true
	in.each(func(v *Value) {
		if v.op != OpMapUpdate || stripCT(v.args[0]) != mm {
			return
		}
		key, ok := constStr(v.args[1])
		if !ok {
			all = false
			c.undecide("registry", "computed name of an operator")
			return
		}
		val := v.args[2]
		name, shared := c.ctorOf(val, ops)
		if name == "" {
			all = false
			c.undecide("registry", "operator behind "+key+" not recognised")
			return
		}
		if shared {
			c.fail("registry", key+" shared", in.where(v), fmt.Sprintf("all users of operator %q get the same instance, whose arguments can be set", key), "")
			return
		}
		if logicKey(key) != logicKey(name) {
			if ops[name] == nil {
				return
			}
			for o := range ops {
				if logicKey(o) == logicKey(key) {
					c.fail("registry", key, in.where(v), fmt.Sprintf("the name %q stands for %s; expected %s", key, name, o), "")
					return
				}
			}
			c.undecide("registry", "name "+key+" of "+name+" is not a known one")
			return
		}
		seen[name] = true
		c.ok("registry", key)
	})
	if !all {
		return
	}
	var ns []string
	for o := range ops {
		ns = append(ns, o)
	}
	sort.Strings(ns)
	for _, o := range ns {
		if !seen[o] {
			dup := false
			for _, f := range c.findings {
				if f.Rule == "registry" {
					dup = true
				}
			}
			if !dup {
				c.fail("registry", "missing "+o, c.w.pos(reg.Pos()), fmt.Sprintf("operator %s cannot be obtained by name", o), "")
			}
		}
	}
}

// sharedOf: a function that returns an instance kept in a global.
func (c *Ctx) sharedOf(fn *ssa.Function, ops map[string]*oper) (string, bool) {
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(rt.Results) != 1 {
			continue
		}
		ld, ok := rt.Results[0].(*ssa.UnOp)
		if !ok {
			continue
		}
		g, ok := ld.X.(*ssa.Global)
		if !ok || g.Pkg == nil || g.Pkg.Func("init") == nil {
			continue
		}
		var st *Value
		c.initFlat(g.Pkg.Func("init")).each(func(v *Value) {
			if v.op == OpStore && v.args[0].op == OpGlobal && v.args[0].glob == g {
				st = v
			}
		})
		if st != nil {
			return c.ctorOf(st.args[1], ops)
		}
	}
	return "", false
}

// ctorOf: the constructor behind an entry of the registry.
func (c *Ctx) ctorOf(v *Value, ops map[string]*oper) (name string, shared bool) {
	v = stripCT(v)
	var fn *ssa.Function
	switch v.op {
	case OpFunc, OpClosure:
		fn = v.fn
	}
	for k := 0; k < 5 && fn != nil; k++ {
		if o := ops[fn.Name()]; o != nil && o.fn == fn {
			return fn.Name(), false
		}
		// a function that only calls another one
		var next *ssa.Function
		n := 0
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(*ssa.Call); ok {
					n++
					next = call.Call.StaticCallee()
				}
			}
		}
		if n == 0 {
			return c.sharedOf(fn, ops)
		}
		if n != 1 {
			return "", false
		}
		fn = next
	}
	// an instance made once
	x := v
	for x.op == OpMakeIface || x.op == OpChangeType {
		x = x.args[0]
	}
	if x.op == OpAlloc && x.fr != nil {
		for fr := x.fr; fr != nil; fr = fr.parent {
			if o := ops[fr.fn.Name()]; o != nil && o.fn == fr.fn {
				return o.name, o.fresh && len(o.role) > 0
			}
		}
	}
	if x.op == OpGlobal {
		for n, o := range ops {
			if o.glob == x.glob {
				return n, false
			}
		}
	}
	return "", false
}
