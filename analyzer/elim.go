package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C16", "variable elimination: selection and bookkeeping of factors", checkC16)
}

// elim: one solving entry point, with the factor operations left as calls.
type elim struct {
	*alg
	q       *ql
	recv    string // name of the solver
	facs    string // its factors
	vars    string // its variables
	ins     []*Value
	dels    []*Value
	clrs    []*Value
	other   *Value // the factors are used in a way that is not recognised
	entry   string
	single  string // name of the bool parameter
	query   string
	evid    string
	util    string
	checked map[string]bool
}

func checkC16(c *Ctx) {
	for _, name := range []string{"SolveQuery", "SolveUtility", "SolvePolicies"} {
		fn := c.must("ve", "VE", name)
		if fn == nil {
			continue
		}
		fl := c.flatStop(fn, isOperation)
		a := newAlg(c, fl, name)
		e := &elim{alg: a, q: newQL(a), entry: name, checked: map[string]bool{}}
		if len(fl.params) == 0 {
			continue
		}
		e.recv = fl.params[0].name
		e.facs, e.vars = e.recv+".factors", e.recv+".variables.variables"
		for _, p := range fl.params[1:] {
			switch t := p.typ.Underlying().(type) {
			case *types.Slice:
				if named(t.Elem()) == "Evidence" {
					e.evid = p.name
				} else if named(t.Elem()) == "Variable" {
					e.query = p.name
				}
			case *types.Pointer:
				e.util = p.name
			case *types.Basic:
				e.single = p.name
			}
		}
		e.collect()
		if e.other != nil {
			c.undecide("conserve", name+": the factors are handed to "+e.other.name+" at "+fl.where(e.other))
			continue
		}
		e.run()
	}
	c.newSolver()
	for r, n := range map[string]int{"evidence": 2, "eliminate": 3, "hidden-set": 3, "conserve": 5, "result": 2, "utility": 3, "weight": 2, "policy": 1} {
		c.floor(r, n)
	}
}

func named(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (e *elim) isFactors(v *Value) bool {
	m, ok := v.typ.Underlying().(*types.Map)
	return ok && named(m.Elem()) == "Factor" && e.q.key(v) == e.facs
}

func (e *elim) collect() {
	e.fl.each(func(v *Value) {
		for i, x := range v.args {
			if x == nil || !e.isFactors(x) || x.op == OpFieldAddr {
				continue
			}
			if !e.q.live(v.blk) {
				continue
			}
			switch {
			case v.op == OpMapUpdate && i == 0:
				e.ins = append(e.ins, v)
			case v.op == OpBuiltin && v.name == "delete":
				e.dels = append(e.dels, v)
			case v.op == OpBuiltin && v.name == "clear":
				e.clrs = append(e.clrs, v)
			case v.op == OpBuiltin, v.op == OpLookup, v.op == OpRange, v.op == OpPhi:
			case v.op == OpCall && (strings.HasPrefix(v.name, "maps.Keys") || strings.HasPrefix(v.name, "maps.Values")):
			default:
				e.other = v
			}
		}
		if v.op == OpStore && v.args[0].op == OpFieldAddr && fieldName(v.args[0]) == "factors" && e.q.live(v.blk) {
			e.other = v
		}
	})
}

// calls of a factor operation that can be executed.
func (e *elim) calls(name string) []*Value {
	var out []*Value
	e.fl.each(func(v *Value) {
		if prim(v, name) && e.q.live(v.blk) {
			out = append(out, v)
		}
	})
	return out
}

func (e *elim) und(rule string, at *Value, msg string) {
	where := ""
	if at != nil {
		where = " at " + e.fl.where(at)
	}
	e.c.undecide(rule, e.entry+": "+msg+where)
}

// selection of the factor (or factor id) v as it is used at `at`.
func (e *elim) selected(v, at *Value) *qcoll {
	k := e.q.key(v)
	st := e.q.stageOf(k, at.blk)
	if st == nil {
		return &qcoll{unk: "not from a loop: " + k, at: at}
	}
	c := e.q.stage(st, k, e.q.cond(st, at.blk), at)
	c.selT = e.q.m.canon(c.sel)
	return c
}

// round: the loop around the one a factor is taken from.
func (e *elim) round(v, at *Value) *Loop {
	st := e.q.stageOf(e.q.key(v), at.blk)
	if st == nil {
		return nil
	}
	return e.q.parent[st]
}

// reachStores: the values a local can hold at `at`; nil for the initial value.
func reachStores(al, at *Value) []*Value {
	var out []*Value
	seen := map[*Block]bool{}
	var back func(b *Block, i int)
	back = func(b *Block, i int) {
		for ; i >= 0; i-- {
			v := b.instrs[i]
			if v.op == OpStore && v.args[0] == al {
				for _, o := range out {
					if o == v.args[1] {
						return
					}
				}
				out = append(out, v.args[1])
				return
			}
			if v == al {
				return
			}
		}
		for _, p := range b.preds {
			if !seen[p] {
				seen[p] = true
				back(p, len(p.instrs)-1)
			}
		}
	}
	back(at.blk, instrIndex(at)-1)
	return out
}

// leafOf: the factors a factor pointer can be at `at`: calls of operations, or other values.
func (e *elim) leavesAt(p, at *Value) []*Value { return leavesAt(p, at) }

func leavesAt(p, at *Value) []*Value {
	var out []*Value
	seen := map[*Value]bool{}
	var w func(v, at *Value)
	w = func(v, at *Value) {
		v = stripCT(v)
		if seen[v] {
			return
		}
		seen[v] = true
		switch v.op {
		case OpPhi:
			for i, x := range v.args {
				if i < len(v.blk.preds) {
					pb := v.blk.preds[i]
					w(x, pb.instrs[len(pb.instrs)-1])
				}
			}
		case OpAlloc:
			st := reachStores(v, at)
			if len(st) == 0 {
				out = append(out, v)
			}
			for _, s := range st {
				w(s, at)
			}
		case OpLoad:
			if v.args[0].op == OpAlloc {
				w(v.args[0], v)
				return
			}
			out = append(out, v)
		default:
			out = append(out, v)
		}
	}
	w(p, at)
	return out
}

func isOpCall(v *Value) bool {
	return v.op == OpCall && strings.HasPrefix(v.name, "@")
}

// listArg: the list handed to Product or Sum.
func listArg(call *Value) *Value { return call.args[len(call.args)-1] }

func (e *elim) run() {
	if e.evid != "" {
		e.evidence()
	}
	e.eliminations()
	e.deletions()
	if e.entry == "SolvePolicies" {
		e.policies()
	} else {
		e.result()
		e.order()
	}
	e.utilities()
}

// unknowns: whether a function depends on tests that are not recognised. Comparisons of plain quantities count as recognised.
func (e *elim) unknown(f int) string { return e.q.unknown(f) }

func (q *ql) unknown(f int) string {
	for _, s := range q.m.support(f) {
		if !strings.HasPrefix(s, "?") {
			if x := q.exs[s]; x != nil {
				if u := q.unknown(x.body); u != "" {
					return u
				}
				if u := q.unknown(x.co.sel); u != "" {
					return u
				}
			}
			continue
		}
		if v := q.unk[s]; v != nil && v.op == OpBin && plain(v) {
			continue
		}
		return s
	}
	return ""
}

// plain: a comparison of numbers read from variables, factors or constants.
func plain(v *Value) bool {
	ok := true
	seen := map[*Value]bool{}
	var w func(x *Value)
	w = func(x *Value) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		switch x.op {
		case OpConst, OpParam, OpLoad, OpField, OpExtract:
		case OpLookup:
			// not what was collected on the way
			if stripCT(x.args[0]).op == OpMakeMap {
				ok = false
			}
		case OpBin, OpUn, OpConvert, OpChangeType:
			for _, y := range x.args {
				w(y)
			}
		case OpBuiltin:
			if x.name != "len" {
				ok = false
			}
		default:
			ok = false
		}
	}
	w(v)
	return ok
}

// judge: got is the selection found, lo and hi the least and greatest allowed ones.
func (e *elim) judge(rule, what string, at *Value, got, lo, hi int, msg string) bool {
	m := e.q.m
	con := e.types(got, lo, hi)
	g := m.and(got, con)
	if m.implies(m.and(lo, con), g) && m.implies(g, hi) {
		e.c.ok(rule, e.entry+" "+what)
		return true
	}
	if u := e.unknown(got); u != "" {
		e.und(rule, at, what+": condition "+u+" not recognised in "+m.canon(got))
		return false
	}
	e.bad(rule, what, at, fmt.Sprintf("%s: selected when %s; expected %s", msg, m.canon(got), m.canon(hi)))
	return false
}

// types: a variable has exactly one node type.
func (e *elim) types(fs ...int) int {
	m := e.q.m
	base := map[string]bool{}
	for _, f := range fs {
		for _, s := range m.support(f) {
			if i := strings.Index(s, ".nodeType="); i > 0 && !strings.ContainsAny(s, "(∃") {
				base[s[:i]] = true
			}
		}
	}
	con := 1
	var ks []string
	for k := range base {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var t [3]int
		for i := range t {
			t[i] = m.atom(fmt.Sprintf("%s.nodeType=%d", k, i))
		}
		one := 0
		for i := range t {
			x := t[i]
			for j := range t {
				if j != i {
					x = m.and(x, m.not(t[j]))
				}
			}
			one = m.or(one, x)
		}
		con = m.and(con, one)
	}
	// a list is not both empty and of length one
	for _, f := range fs {
		for _, s := range m.support(f) {
			if strings.HasPrefix(s, "one") {
				con = m.and(con, m.not(m.and(m.atom(s), m.atom("empty"+s[3:]))))
			}
		}
	}
	return con
}

// contains: the factor of the current id contains the variable named k; both ways of comparing.
func (e *elim) contains(k string, byID bool) (int, int) {
	f := e.facs + "{·.key}.variables"
	a := e.q.m.atom("has(" + f + "," + k + ")")
	if byID {
		return a, a
	}
	return a, e.q.m.atom("has*(" + f + "," + k + ")")
}

// either: the selection is one of the two.
func (e *elim) isContains(rule, what string, at *Value, co *qcoll, k string, byID bool, msg string) bool {
	if co.unk != "" {
		e.und(rule, at, what+": "+co.unk)
		return false
	}
	if co.src != e.facs {
		e.und(rule, at, what+": selected from "+co.src)
		return false
	}
	if co.bad != "" {
		e.bad(rule, what, co.at, msg+": "+co.bad)
		return false
	}
	a, b := e.contains(k, byID)
	if co.sel == b && !byID {
		a = b
	}
	return e.judge(rule, what, at, co.sel, a, a, msg)
}

// always: the block is executed in every round of l, apart from tests that cannot matter.
func (e *elim) always(l *Loop, b *Block, allow func(string) bool) (bool, int) {
	f := e.q.cond(l, b)
	g := f
	for _, s := range e.q.m.support(f) {
		if allow(s) {
			// with either value that lets it happen
			g = e.q.m.or(e.q.m.set(g, s, true), e.q.m.set(g, s, false))
		}
	}
	return g == 1, f
}

func (e *elim) evidence() {
	rs := e.calls("Restrict")
	if len(rs) == 0 {
		e.bad("evidence", "evidence", e.fl.params[0], "evidence is never applied to the factors")
		return
	}
	for _, r := range rs {
		if len(r.args) < 4 {
			continue
		}
		kv, ko := e.q.key(r.args[2]), e.q.key(r.args[3])
		st := e.q.stageOf(kv, r.blk)
		if st == nil {
			e.und("evidence", r, "variable "+kv+" not from a loop")
			continue
		}
		d := e.q.dom(st)
		if d == nil || d.isMap {
			e.und("evidence", r, "loop not recognised")
			continue
		}
		co := e.q.stage(st, kv, 1, r)
		if co.unk != "" || co.src != e.evid {
			e.und("evidence", r, "evidence taken from "+co.src+" "+co.unk)
			continue
		}
		if co.bad != "" {
			e.bad("evidence", "all evidence", co.at, "not every piece of evidence is applied: "+co.bad)
			continue
		}
		if kv != e.q.tok(st)+".Variable" {
			e.und("evidence", r, "variable "+kv)
			continue
		}
		if ko != e.q.tok(st)+".Value" {
			if strings.Contains(ko, e.q.tok(st)) || e.derived(r.args[3], e.q.tok(st)+".Value") || !strings.HasPrefix(ko, "v") {
				e.bad("evidence", "outcome", r, "the outcome is not that of the same piece of evidence: "+ko)
			} else {
				e.und("evidence", r, "outcome "+ko)
			}
			continue
		}
		// every piece of evidence
		fst := e.q.stageOf(e.q.key(r.args[1]), r.blk)
		if fst == nil {
			e.und("evidence", r, "factor not from a loop")
			continue
		}
		if fst == st || !st.blocks[fst.head] {
			if !fst.blocks[st.head] {
				e.und("evidence", r, "factor loop not recognised")
				continue
			}
			e.und("evidence", r, "factors visited outside the evidence loop")
			continue
		}
		head := fst.head
		ok, f := e.always(st, head, func(s string) bool { return strings.HasPrefix(s, "empty{"+e.facs) })
		if !ok {
			e.judge("evidence", "all evidence", r, f, 1, 1, "evidence is skipped")
			continue
		}
		ok, f = e.outer(st, func(s string) bool { return strings.HasPrefix(s, "empty{"+e.evid+"}") || s == "nil("+e.evid+")" })
		if !ok {
			e.judge("evidence", "all evidence", r, f, 1, 1, "evidence is skipped")
			continue
		}
		sel := e.selected(r.args[1], r)
		if !e.isContains("evidence", "factors", r, sel, kv, false, "evidence must restrict exactly the factors containing its variable") {
			continue
		}
		e.replaced("evidence", r, r, sel, st)
	}
}

// derived: v is computed from the value named k by arithmetic.
func (e *elim) derived(v *Value, k string) bool {
	v = stripConv(v)
	if v.op == OpBin && (v.tok == token.REM || v.tok == token.ADD || v.tok == token.SUB || v.tok == token.MUL || v.tok == token.QUO) || v.op == OpBuiltin && (v.name == "min" || v.name == "max") {
		for _, x := range v.args {
			if e.q.key(x) == k || e.derived(x, k) {
				return true
			}
		}
	}
	return false
}

// carried: the list at `at` still holds what earlier rounds of a loop around it added.
func (e *elim) carried(list, at *Value) *Value {
	seen := map[*Value]bool{}
	var res *Value
	var walk func(v *Value)
	walk = func(v *Value) {
		v = stripCT(v)
		if seen[v] || res != nil || emptyList(v, map[*Value]bool{}) {
			return
		}
		seen[v] = true
		switch {
		case v.op == OpBuiltin && v.name == "append":
			walk(v.args[0])
		case v.op == OpPhi:
			for i, x := range v.args {
				if i >= len(v.blk.preds) {
					return
				}
				p := v.blk.preds[i]
				for _, l := range e.loops {
					if l.head == v.blk && l.blocks[p] && l.blocks[at.blk] && stripCT(x) != v && !emptyList(x, map[*Value]bool{}) {
						if sites, ok := e.q.appends(x); ok && len(sites) > 0 {
							in := true
							for _, s := range sites {
								if !l.blocks[s.at.blk] || e.q.inner[s.at.blk] == l {
									in = false
								}
							}
							if in {
								res = v
								return
							}
						}
					}
				}
				walk(x)
			}
		}
	}
	walk(list)
	return res
}

// outer: l is entered on every way through the function (or round of the loop around it).
func (e *elim) outer(l *Loop, allow func(string) bool) (bool, int) {
	return e.always(e.q.parent[l], l.head, allow)
}

// replaced: the factors of sel are removed and the result of last inserted, in each round of ctx.
func (e *elim) replaced(rule string, first, last *Value, sel *qcoll, ctx *Loop) {
	// removal
	found := false
	for _, d := range e.dels {
		ds := e.selected(d.args[1], d)
		if e.round(d.args[1], d) != ctx || ds.unk != "" {
			continue
		}
		if ds.bad != "" && e.strayDelete(ctx) {
			e.und("conserve", d, "several removals")
			return
		}
		if ds.bad != "" {
			e.bad("conserve", "removal after "+opName(first), ds.at, "not all used factors are removed: "+ds.bad)
			e.checked[valAtom(d)] = true
			return
		}
		if ds.src == sel.src && ds.sel == sel.sel {
			found = true
			e.checked[valAtom(d)] = true
			continue
		}
	}
	if !found {
		for _, d := range e.clrs {
			if e.q.inner[d.blk] == ctx && sel.sel == 1 {
				found = true
			}
		}
	}
	if !found {
		n := 0
		for _, d := range e.dels {
			if e.checked[valAtom(d)] {
				continue
			}
			ds := e.selected(d.args[1], d)
			if ds.unk != "" {
				e.und("conserve", d, "removal not recognised: "+ds.unk)
				return
			}
			if e.round(d.args[1], d) == ctx {
				n++
				e.checked[valAtom(d)] = true
				if u := e.unknown(ds.sel); u != "" {
					e.und("conserve", d, "removal condition not recognised: "+u)
					return
				}
				e.bad("conserve", "removal after "+opName(first), d, fmt.Sprintf("the factors removed are not the ones used: removed when %s, used when %s", ds.selT, sel.selT))
				return
			}
		}
		if n == 0 {
			if e.anyDelete(ctx) {
				e.und("conserve", first, "removal of the used factors not recognised")
				return
			}
			e.bad("conserve", "removal after "+opName(first), first, "the factors used are not removed")
			return
		}
	}
	e.inserted(last)
}

// strayDelete: a removal in ctx that is not recognised.
func (e *elim) strayDelete(ctx *Loop) bool {
	for _, d := range e.dels {
		if (ctx == nil || ctx.blocks[d.blk]) && e.selected(d.args[1], d).unk != "" {
			return true
		}
	}
	return false
}

func (e *elim) anyDelete(ctx *Loop) bool {
	for _, d := range append(append([]*Value{}, e.dels...), e.clrs...) {
		if ctx == nil || ctx.blocks[d.blk] {
			return true
		}
	}
	return false
}

func opName(v *Value) string {
	if v.fn != nil {
		return v.fn.Name()
	}
	return v.name
}

// inserted: the result of an operation is stored among the factors under its own id, whenever it is computed.
func (e *elim) inserted(call *Value) {
	var al *Value
	for _, u := range call.uses {
		if u.op == OpStore && u.args[1] == call && u.args[0].op == OpAlloc {
			al = u.args[0]
		}
	}
	if al == nil {
		e.und("conserve", call, "result of "+opName(call)+" not followed")
		return
	}
	var hit *Value
	for _, in := range e.ins {
		has := false
		for _, lf := range e.leavesAt(in.args[2], in) {
			if lf == call {
				has = true
			}
		}
		if !has {
			continue
		}
		k := stripCT(in.args[1])
		// the id of the inserted factor
		okKey := k.op == OpLoad && k.args[0].op == OpFieldAddr && fieldName(k.args[0]) == "id" && stripCT(k.args[0].args[0]) == stripCT(in.args[2])
		if okKey {
			// read after the last store
			okKey = false
			for _, lf := range e.leavesAt(in.args[2], k) {
				if lf == call {
					okKey = true
				}
			}
		}
		if kk := e.q.key(k); !okKey && (!strings.HasSuffix(kk, ".id") || strings.HasPrefix(kk, e.facs+"{")) {
			e.und("conserve", in, "key of the inserted factor not recognised")
			return
		}
		if !okKey {
			e.bad("conserve", "insertion of "+opName(call), in, "the result is stored under the id of another factor, which it replaces")
			return
		}
		hit = in
	}
	if hit == nil {
		for _, in := range e.ins {
			lv := e.leavesAt(in.args[2], in)
			if len(lv) == 1 && !isOpCall(lv[0]) {
				e.und("conserve", in, "inserted factor not recognised")
				return
			}
		}
		e.bad("conserve", "insertion of "+opName(call), call, "the result of "+opName(call)+" is not put back among the factors")
		return
	}
	l := e.common(call.blk, hit.blk)
	cc, ci := e.q.cond(l, call.blk), e.q.cond(l, hit.blk)
	if !e.q.m.implies(cc, ci) {
		if u := e.unknown(e.q.m.and(cc, e.q.m.not(ci))); u != "" {
			e.und("conserve", hit, "insertion condition "+u)
			return
		}
		e.bad("conserve", "insertion of "+opName(call), hit, "the result is put back only when "+e.q.m.canon(ci))
		return
	}
	e.c.ok("conserve", e.entry+" "+opName(call))
}

// common: the innermost loop around both blocks.
func (e *elim) common(x, y *Block) *Loop {
	for l := e.q.inner[x]; l != nil; l = e.q.parent[l] {
		if l.blocks[y] {
			return l
		}
	}
	return nil
}

// eliminations: sum-outs of hidden variables.
func (e *elim) eliminations() {
	n := 0
	for _, s := range e.calls("SumOut") {
		if len(s.args) < 3 {
			continue
		}
		var prod *Value
		other := ""
		sum := false
		for _, lf := range e.leavesAt(s.args[1], s) {
			switch {
			case prim(lf, "Product"):
				prod = lf
			case prim(lf, "Sum"), prim(lf, "SumOut"):
				sum = true
			default:
				other = e.q.key(lf)
			}
		}
		if sum {
			continue // utilities
		}
		if prod == nil {
			e.und("eliminate", s, "the factor summed over is not recognised: "+other)
			continue
		}
		n++
		what := "product"
		kv := e.q.key(s.args[2])
		// shortcut for a single factor
		if other != "" && !e.shortcut(s.args[1], s, prod) {
			e.und("eliminate", s, "the factor summed over is not recognised: "+other)
			continue
		}
		co := e.q.coll(listArg(prod))
		byID := e.entry == "SolvePolicies"
		if co.unk == "" && co.expr != e.facs+"{·.key}" {
			e.und("eliminate", prod, "factors "+co.expr)
			continue
		}
		if !e.isContains("eliminate", what, prod, co, kv, byID, "eliminating a variable must multiply exactly the factors containing it"+map[bool]string{true: ", compared by identity (a solved decision changes its type)", false: ""}[byID]) {
			continue
		}
		st := e.q.stageOf(kv, s.blk)
		if st == nil {
			e.und("eliminate", s, "eliminated variable "+kv)
			continue
		}
		// skipped only if no factor contains the variable
		ok, f := e.always(st, s.blk, func(x string) bool { return x == e.q.emptyName(co) })
		if ok && !e.q.m.implies(e.q.m.not(e.q.m.atom(e.q.emptyName(co))), f) {
			ok = false
		}
		if !ok {
			lo := e.q.m.not(e.q.m.atom(e.q.emptyName(co)))
			if !e.judge("eliminate", "every variable", s, f, lo, 1, "hidden variables are skipped") {
				continue
			}
		}
		if f == 1 {
			e.bad("eliminate", "no factor", s, "a variable that is in no factor is summed out of the product of no factors")
		}
		e.replaced("eliminate", prod, s, co, st)
		e.hidden(st, kv, s)
	}
	if n == 0 && len(e.calls("SumOut")) > 0 {
		e.und("eliminate", nil, "no elimination recognised")
	}
	if len(e.calls("SumOut")) == 0 {
		e.bad("eliminate", "elimination", e.fl.params[0], "no variable is ever summed out")
	}
}

// shortcut: the other possibility is the only factor of the list.
func (e *elim) shortcut(p, at, prod *Value) bool {
	co := e.q.coll(listArg(prod))
	if co.unk != "" {
		return false
	}
	return e.onlyIfOne(p, at, listArg(prod), co) == ""
}

// onlyIfOne: list[0] is used instead of the product only if the list has one element. Returns a description otherwise.
func (e *elim) onlyIfOne(p, at, list *Value, co *qcoll) string {
	p = stripCT(p)
	one := e.q.m.atom("one" + co.text())
	res := ""
	n := 0
	var w func(v *Value, c int)
	w = func(v *Value, c int) {
		v = stripCT(v)
		if v.op == OpLoad && v.args[0].op == OpIndexAddr {
			ia := v.args[0]
			if i, ok := constInt(ia.args[1]); ok && i == 0 && (stripCT(ia.args[0]) == stripCT(list) || e.q.key(ia.args[0]) == e.q.key(list)) {
				n++
				d := e.q.m.and(c, e.q.m.not(one))
				d = e.q.m.and(d, e.q.m.not(e.q.m.atom(e.q.emptyName(co))))
				if d != 0 {
					res = "the first factor is used when " + e.q.m.canon(c)
				}
			}
			return
		}
		if v.op == OpPhi {
			l := e.q.inner[v.blk]
			r := e.q.reach(l)
			for i, x := range v.args {
				if i < len(v.blk.preds) {
					w(x, e.q.into(l, v.blk.preds[i], v.blk, r))
				}
			}
		}
		if v.op == OpAlloc {
			for _, u := range v.uses {
				if u.op == OpStore && u.args[0] == v {
					w(u.args[1], e.q.cond(e.q.inner[u.blk], u.blk))
				}
			}
		}
	}
	w(p, 1)
	if n == 0 {
		return "not recognised"
	}
	return res
}

// hidden: the variables eliminated.
func (e *elim) hidden(st *Loop, kv string, at *Value) {
	c := e.q.stage(st, kv, 1, at)
	if c.unk != "" {
		e.und("hidden-set", at, c.unk)
		return
	}
	if c.bad != "" {
		e.bad("hidden-set", "all hidden variables", c.at, "not every hidden variable is eliminated: "+c.bad)
		return
	}
	if c.src != e.vars || c.expr != "·" {
		e.und("hidden-set", at, "variables "+c.expr+" of "+c.src)
		return
	}
	m := e.q.m
	T := func(i int) int { return m.atom(fmt.Sprintf("·.nodeType=%d", i)) }
	f := c.sel
	f = m.rename(f, func(s string) string {
		switch {
		case s == "at("+e.recv+".eliminated,·#)":
			return "E"
		case strings.HasPrefix(s, "at(") && strings.HasSuffix(s, ",·#)"):
			if e.decisionParents(e.q.lists[s], at) {
				return "D"
			}
			return "?" + s
		case e.query != "" && (strings.HasPrefix(s, "del{"+e.query+"|always}·.id") || s == "key{"+e.query+"|always}·.id@·.id" || s == "has("+e.query+",·)" || s == "has*("+e.query+",·)"):
			return "Q"
		case e.evid != "" && (strings.HasPrefix(s, "del{"+e.evid+"|always}·.Variable.id") || s == "key{"+e.evid+"|always}·.Variable.id@·.id" || s == "∃{"+e.evid+"}(same(∘.Variable,·))" || s == "∃{"+e.evid+"}(same(·,∘.Variable))" || s == "∃{"+e.evid+"}(same*(·,∘.Variable))" || s == "∃{"+e.evid+"}(same*(∘.Variable,·))"):
			return "V"
		}
		return s
	})
	lo := T(0)
	hi := T(0)
	for _, s := range []string{"E", "D", "Q", "V"} {
		lo = m.and(lo, m.not(m.atom(s)))
	}
	if e.query != "" {
		hi = m.and(hi, m.not(m.atom("Q")))
	}
	if e.entry == "SolvePolicies" {
		hi = m.and(hi, m.not(m.atom("D")))
	}
	// atoms about unknown flag lists stay unknown
	for _, s := range m.support(f) {
		if strings.HasPrefix(s, "?at(") || localName(s, "at(v") || localName(s, "in(v") {
			e.und("hidden-set", at, "flag list not recognised: "+s)
			return
		}
	}
	e.judge("hidden-set", "hidden variables", at, f, lo, hi, "exactly the chance variables that are neither queried nor needed by an open decision are to be eliminated (E eliminated, D decision parent, Q query, V evidence)")
	// always run
	ok, g := e.outer(st, func(s string) bool {
		return strings.HasPrefix(s, "empty{"+e.vars) || strings.HasPrefix(s, "nil("+e.util) || strings.HasPrefix(s, "?nd")
	})
	if ok {
		return
	}
	if e.entry == "SolvePolicies" {
		return
	}
	if u := e.unknown(g); u != "" {
		e.und("hidden-set", at, "elimination under "+u)
		return
	}
	e.bad("hidden-set", "elimination", at, "hidden variables are eliminated only when "+m.canon(g))
}

// decisionParents: the flags are set for exactly the parents of the decisions (of the last one, if only one is solved).
func (e *elim) decisionParents(list, at *Value) bool {
	list = stripCT(list)
	if list == nil || list.op != OpMakeSlice {
		return false
	}
	key := "dp" + valAtom(list)
	if e.checked[key] {
		return true
	}
	n := 0
	for _, ia := range list.uses {
		if ia.op != OpIndexAddr {
			if ia.op == OpBuiltin || ia.op == OpLoad || ia.op == OpPhi {
				continue
			}
			return false
		}
		for _, st := range ia.uses {
			if st.op != OpStore || !e.q.live(st.blk) {
				continue
			}
			n++
			if b, ok := constBool(st.args[1]); !ok || !b {
				return false
			}
			k := e.q.posKey(ia.args[1])
			l := e.q.stageOf(k, st.blk)
			if l == nil || e.q.dom(l) == nil {
				return false
			}
			d := e.q.dom(l)
			lk := e.q.key(d.list)
			dl := e.q.stageOf(lk, l.head)
			if k == e.q.tok(l)+".id" && strings.HasPrefix(lk, e.recv+".dependencies{") {
				e.checked[key] = true
				e.bad("hidden-set", "decision parents", st, "the parents of decisions are marked by their id, but the marks are read by position")
				return true
			}
			if k != e.q.tok(l)+"#" {
				return false
			}
			if dl == nil {
				// a loop over decisions that is left with the first one
				for _, x := range e.loops {
					if lk != e.recv+".dependencies{"+e.q.tok(x)+"}" || x.blocks[l.head] {
						continue
					}
					_, brk := e.q.exits(x)
					f := 0
					for _, b := range brk {
						f = e.q.m.or(f, e.q.edgeIn(x, b.p, b.w))
					}
					if e.single != "" && e.q.m.implies(f, e.q.m.atom(e.single)) || e.unknown(f) != "" {
						return false
					}
					e.checked[key] = true
					e.bad("hidden-set", "decision parents", st, "the parents of only one decision are kept")
					return true
				}
			}
			if dl == nil || lk != e.recv+".dependencies{"+e.q.tok(dl)+"}" {
				return false
			}
			e.checked[key] = true
			what := "decision parents"
			if d.partial != "" {
				e.bad("hidden-set", what, d.exit, "not all parents of a decision are kept: the loop "+d.partial)
				return true
			}
			if c := e.q.cond(l, st.blk); c != 1 {
				if e.unknown(c) == "" {
					e.bad("hidden-set", what, st, "parents of a decision are kept only when "+e.q.m.canon(c))
				} else {
					e.und("hidden-set", st, "condition on decision parents")
				}
				return true
			}
			if _, brk := e.q.exits(l); len(brk) > 0 {
				e.bad("hidden-set", what, brk[0].p.instrs[len(brk[0].p.instrs)-1], "not all parents of a decision are kept: the loop stops early")
				return true
			}
			c := e.q.reach(dl)[l.head]
			okc := e.q.m.implies(e.q.m.atom("in("+e.recv+".dependencies,"+e.q.tok(dl)+")"), c)
			if !okc {
				if e.unknown(c) == "" {
					e.bad("hidden-set", what, st, "decisions count only when "+e.q.m.canon(c))
				} else {
					e.und("hidden-set", st, "condition on decisions")
				}
				return true
			}
			dd := e.q.dom(dl)
			if dd == nil {
				e.und("hidden-set", st, "loop over decisions")
				return true
			}
			if dd.partial != "" {
				if dd.ct.iv != nil && (hasPhi(dd.ct.iv.init) || hasPhi(dd.ct.iv.bound)) {
					e.und("hidden-set", st, "range of the loop over decisions")
					return true
				}
				e.bad("hidden-set", what, dd.exit, "not all decisions count: the loop "+dd.partial)
				return true
			}
			_, brk := e.q.exits(dl)
			stops := 0
			for _, x := range brk {
				stops = e.q.m.or(stops, e.q.edgeIn(dl, x.p, x.w))
			}
			if e.single != "" && !e.q.m.implies(e.q.m.atom(e.single), stops) {
				if e.unknown(stops) == "" && !e.guarded(dl) && !hasPart(dd.list) {
					e.bad("hidden-set", what, dd.exit, "with a single step, the parents of decisions other than the last are kept")
				} else {
					e.und("hidden-set", st, "decisions with a single step")
				}
				return true
			}
			for _, x := range brk {
				f := e.q.edgeIn(dl, x.p, x.w)
				if f == 0 {
					continue
				}
				if e.single != "" && e.q.m.implies(f, e.q.m.atom(e.single)) {
					// the last decision is the one that counts
					if dd.ct.iv.step != -1 {
						e.bad("hidden-set", what, dd.exit, "with a single step, the last decision is the one to be solved")
					}
					continue
				}
				if e.unknown(f) == "" {
					e.bad("hidden-set", what, x.p.instrs[len(x.p.instrs)-1], "the parents of some decisions are not kept: the loop stops when "+e.q.m.canon(f))
				} else {
					e.und("hidden-set", st, "loop over decisions stops")
				}
				return true
			}
			e.c.ok("hidden-set", e.entry+" decision parents")
		}
	}
	return n > 0
}

// utilSel: the selection "contains a utility variable (other than the one asked for)". 1 yes, 0 unknown, -1 no.
func (e *elim) utilSel(sel int, except bool) (int, string, *Loop) {
	m := e.q.m
	sup := m.support(sel)
	if len(sup) != 1 || m.atom(sup[0]) != sel {
		return 0, m.canon(sel), nil
	}
	x := e.q.exs[sup[0]]
	if x == nil {
		return 0, sup[0], nil
	}
	if x.co.bad != "" {
		return -1, x.co.bad, x.loop
	}
	fv := e.facs + "{·.key}.variables"
	T := func(d string) int { return m.atom(d + ".nodeType=2") }
	not := func(d string) int {
		f := 1
		for _, p := range []string{"same", "same*"} {
			for _, s := range []string{"(" + d + "," + e.util + ")", "(" + e.util + "," + d + ")"} {
				f = m.and(f, m.not(m.atom(p+s)))
			}
		}
		return f
	}
	nilU := m.atom("nil(" + e.util + ")")
	simp := func(f int, d string) int {
		if !except {
			return f
		}
		f = m.set(f, "nil("+e.util+")", false)
		// the ways of comparing agree
		var first string
		for _, p := range []string{"same", "same*"} {
			for _, s := range []string{"(" + d + "," + e.util + ")", "(" + e.util + "," + d + ")"} {
				if first == "" {
					first = p + s
				}
				f = m.rename(f, func(x string) string {
					if x == p+s {
						return first
					}
					return x
				})
			}
		}
		return f
	}
	_ = nilU
	want := func(d string) int {
		f := T(d)
		if except {
			f = m.and(f, not(d))
		}
		return simp(f, d)
	}
	eq := func(f, g int) bool {
		c := e.types(f, g)
		return m.and(f, c) == m.and(g, c)
	}
	// the member test is renamed to the current element later: compare by text
	body := m.rename(x.body, func(s string) string { return s })
	bs := m.support(body)
	isMember := len(bs) == 1 && m.atom(bs[0]) == body && (bs[0] == "has("+fv+",∘)" || bs[0] == "has*("+fv+",∘)")
	if !isMember && len(bs) == 1 {
		// within the loop over factors the name is not renamed yet
		s := bs[0]
		if (strings.HasPrefix(s, "has(") || strings.HasPrefix(s, "has*(")) && strings.HasSuffix(s, ".variables,∘)") && strings.Contains(s, e.facs+"{") {
			isMember = m.atom(s) == body
		}
	}
	switch {
	case x.co.src == e.vars && x.co.expr == "·" && isMember:
		if eq(simp(x.co.sel, "·"), want("·")) {
			return 1, "", x.loop
		}
		if u := e.unknown(x.co.sel); u != "" {
			return 0, u, x.loop
		}
		return -1, "utilities are the variables with " + m.canon(x.co.sel), x.loop
	case strings.HasPrefix(x.co.src, e.facs+"{") && strings.HasSuffix(x.co.src, "}.variables") && x.co.sel == 1 && x.co.expr == "·":
		if eq(simp(body, "∘"), want("∘")) {
			return 1, "", x.loop
		}
		if u := e.unknown(body); u != "" {
			return 0, u, x.loop
		}
		return -1, "factors are chosen with " + m.canon(body), x.loop
	}
	return 0, sup[0], x.loop
}

// deletions that no operation accounts for.
func (e *elim) deletions() {
	var drops []*Value
	for _, d := range e.dels {
		if e.checked[valAtom(d)] {
			continue
		}
		ds := e.selected(d.args[1], d)
		if ds.unk != "" {
			e.und("conserve", d, "removal not recognised: "+ds.unk)
			continue
		}
		// removal of summed utilities is judged there
		if e.round(d.args[1], d) == nil && e.sumCtx(d) {
			continue
		}
		drops = append(drops, d)
	}
	if e.entry == "SolvePolicies" {
		for _, d := range drops {
			e.bad("conserve", "removal", d, "factors are removed without being used")
		}
		return
	}
	except := e.util != ""
	if len(drops) == 0 {
		if len(e.dels) == 0 {
			e.und("utility", nil, "no removal of factors found")
			return
		}
		e.bad("utility", "other utilities", e.dels[0], "the factors of the utilities not asked for are not removed")
		return
	}
	if len(drops) > 1 {
		e.und("utility", drops[1], "several removals")
		return
	}
	d := drops[0]
	ds := e.selected(d.args[1], d)
	if ds.bad != "" {
		e.bad("utility", "other utilities", ds.at, "not all of their factors are removed: "+ds.bad)
		return
	}
	if e.round(d.args[1], d) != nil {
		e.und("conserve", d, "removal within another loop")
		return
	}
	r, why, _ := e.utilSel(ds.sel, except)
	switch r {
	case 1:
		e.c.ok("utility", e.entry+" other utilities removed")
	case -1:
		e.bad("utility", "other utilities", d, "the factors removed must be exactly those of the utilities not asked for: "+why)
		return
	default:
		if u := e.unknown(ds.sel); u != "" || strings.Contains(why, "∃") {
			e.und("utility", d, "removal condition "+why)
		} else {
			e.bad("utility", "other utilities", d, "the factors removed must be exactly those of the utilities not asked for, but are those with "+why)
		}
		return
	}
	// always, when a utility is asked for
	st := e.q.stageOf(e.q.key(d.args[1]), d.blk)
	f := e.q.reach(nil)[st.head]
	m := e.q.m
	if except {
		f = m.set(f, "nil("+e.util+")", false)
	}
	for _, s := range m.support(f) {
		if strings.HasPrefix(s, "empty{"+e.vars) || strings.HasPrefix(s, "empty{"+e.facs) || strings.HasPrefix(s, "?nd") {
			f = m.or(m.set(f, s, true), m.set(f, s, false))
		}
	}
	if f != 1 {
		if u := e.unknown(f); u != "" {
			e.und("utility", d, "removal under "+u)
		} else {
			e.bad("utility", "other utilities", d, "they are removed only when "+m.canon(f))
		}
	}
	if except {
		// not for the total utility
		g := m.set(e.q.reach(nil)[st.head], "nil("+e.util+")", true)
		if g != 0 && e.unknown(g) == "" {
			e.bad("utility", "total utility", d, "utilities are removed although the total is asked for")
		}
	}
}

func (e *elim) sumCtx(d *Value) bool {
	for _, s := range e.calls("Sum") {
		if e.q.inner[s.blk] != nil {
			continue
		}
		// the removal follows the sum, or the sum the removal, on the same way
		if reachesBlock(s.blk, d.blk, nil) && dominates(s.blk, d.blk) {
			return true
		}
		if st := e.q.stageOf(e.q.key(d.args[1]), d.blk); st != nil && dominates(st.head, s.blk) && !st.blocks[s.blk] {
			return true
		}
	}
	return false
}

// utilities: all are summed, each with its own weight.
func (e *elim) utilities() {
	if e.entry == "SolveQuery" {
		if len(e.calls("Sum")) > 0 {
			e.und("utility", e.calls("Sum")[0], "sum of factors in a query")
		}
		return
	}
	sums := e.calls("Sum")
	if len(sums) == 0 {
		e.bad("utility", "total utility", e.fl.params[0], "utilities are never added up")
		return
	}
	m := e.q.m
	for _, s := range sums {
		list := listArg(s)
		sites, ok := e.q.appends(list)
		if !ok || len(sites) == 0 {
			e.und("utility", s, "list of utilities not recognised")
			continue
		}
		co := e.q.fromSites(list, sites, func(st qsite) string {
			// the loop over factors
			for _, lf := range e.factorLeaves(st.v, st.at) {
				if strings.HasPrefix(e.q.key(lf), e.facs+"{") {
					return e.q.key(lf)
				}
			}
			return e.q.key(st.v)
		})
		co.selT = m.canon(co.sel)
		if co.unk != "" || co.src != e.facs {
			e.und("utility", s, "list of utilities: "+co.unk+" "+co.src)
			continue
		}
		if co.bad != "" {
			e.bad("utility", "total utility", co.at, "not every utility counts exactly once: "+co.bad)
			continue
		}
		r, why, ul := e.utilSel(co.sel, false)
		if r == 0 {
			if u := e.unknown(co.sel); u != "" || strings.Contains(why, "∃") {
				e.und("utility", s, "selection "+why)
			} else {
				e.bad("utility", "total utility", s, "the factors added up must be exactly those of all utilities, but are those with "+why)
			}
			continue
		}
		if r < 0 {
			e.bad("utility", "total utility", s, "the factors added up must be exactly those of all utilities: "+why)
			continue
		}
		e.c.ok("utility", e.entry+" all utilities added up")
		// when
		f := e.q.cond(e.q.inner[s.blk], s.blk)
		if e.util != "" {
			f = m.set(f, "nil("+e.util+")", true)
		}
		for _, x := range m.support(f) {
			if strings.HasPrefix(x, "empty{") || strings.HasPrefix(x, "?nd") || strings.HasPrefix(x, "empty(") {
				f = m.or(m.set(f, x, true), m.set(f, x, false))
			}
		}
		if f != 1 {
			if u := e.unknown(f); u != "" {
				e.und("utility", s, "added up under "+u)
			} else {
				e.bad("utility", "total utility", s, "utilities are added up only when "+m.canon(f))
			}
		}
		e.weights(s, sites, ul)
		e.sumOut(s, co)
	}
}

// factorLeaves: the factor itself, through the multiplication with a weight.
func (e *elim) factorLeaves(v, at *Value) []*Value {
	var out []*Value
	for _, lf := range e.leavesAt(v, at) {
		if prim(lf, "Product") {
			for _, x := range literalArgs(lf) {
				out = append(out, e.leavesAt(x, lf)...)
			}
			continue
		}
		out = append(out, lf)
	}
	return out
}

// literalArgs: the arguments of a variadic call written out.
func literalArgs(call *Value) []*Value {
	s := stripCT(listArg(call))
	if s.op != OpSlice || s.args[0].op != OpAlloc {
		return nil
	}
	var out []*Value
	for _, u := range s.args[0].uses {
		if u.op != OpIndexAddr {
			continue
		}
		for _, st := range u.uses {
			if st.op == OpStore && st.args[0] == u {
				out = append(out, st.args[1])
			}
		}
	}
	return out
}

func (e *elim) weights(s *Value, sites []qsite, ul *Loop) {
	m := e.q.m
	for _, st := range sites {
		var weighted, plainLeaf bool
		for _, lf := range e.leavesAt(st.v, st.at) {
			if !prim(lf, "Product") {
				plainLeaf = true
				continue
			}
			weighted = true
			var fac, w *Value
			for _, x := range literalArgs(lf) {
				lv := e.leavesAt(x, lf)
				if len(lv) == 1 && strings.HasPrefix(e.q.key(lv[0]), e.facs+"{") {
					fac = lv[0]
				} else if x.op == OpAlloc {
					w = x
				}
			}
			if fac == nil || w == nil {
				e.und("weight", lf, "weighted factor not recognised")
				return
			}
			// data: one number
			var num *Value
			for _, u := range w.uses {
				if u.op == OpFieldAddr && fieldName(u) == "data" {
					if d := singleStore(u); d != nil {
						if d = stripCT(d); d.op == OpSlice && d.args[0].op == OpAlloc {
							n := 0
							for _, ia := range d.args[0].uses {
								if ia.op == OpIndexAddr {
									if x := singleStore(ia); x != nil {
										num = x
										n++
									}
								}
							}
							if n != 1 {
								num = nil
							}
						}
					}
				}
			}
			if num == nil {
				e.und("weight", lf, "weight not recognised")
				return
			}
			if num.op == OpLoad && num.args[0].op == OpIndexAddr && e.q.key(num.args[0].args[0]) == e.recv+".weights" {
				ix := num.args[0].args[1]
				k := e.q.posKey(ix)
				if ul != nil && k == "pos"+e.q.tok(ul) {
					e.c.ok("weight", e.entry+" weight of its own utility")
					continue
				}
				// position found by searching the list of utilities
				if ixs := stripConv(ix); ixs.op == OpBuiltin && ixs.name == "len" && ul != nil && e.q.stageOf(e.q.key(fac), ul.head) != nil {
					e.bad("weight", "weights", num, "a utility must be multiplied by the weight at its own position among the utilities, not by the number of factors found so far")
					return
				}
				if strings.HasPrefix(k, "v") {
					e.und("weight", num, "position of the weight not recognised")
					return
				}
				e.bad("weight", "weights", num, "a utility must be multiplied by the weight at its own position among the utilities, not at "+k)
				return
			}
			if c, ok := constFloat(num); ok {
				e.bad("weight", "weights", num, fmt.Sprintf("a utility is multiplied by %g", c))
				return
			}
			e.und("weight", num, "weight not recognised")
			return
		}
		if !weighted {
			if e.usesWeights() {
				e.und("weight", s, "use of weights not recognised")
			} else {
				e.bad("weight", "weights", s, "the weights of the utilities are not used")
			}
			return
		}
		if plainLeaf {
			// only without weights
			v := stripCT(st.v)
			if v.op != OpPhi {
				e.und("weight", st.at, "choice of the weighted factor")
				return
			}
			l := e.q.inner[v.blk]
			r := e.q.reach(l)
			for i, x := range v.args {
				if i >= len(v.blk.preds) || (len(e.leavesAt(x, v.blk.preds[i].instrs[len(v.blk.preds[i].instrs)-1])) == 1 && prim(e.leavesAt(x, v.blk.preds[i].instrs[len(v.blk.preds[i].instrs)-1])[0], "Product")) {
					continue
				}
				f := e.q.into(l, v.blk.preds[i], v.blk, r)
				f = m.set(f, "nil("+e.recv+".weights)", false)
				f = m.set(f, "empty{"+e.recv+".weights}", false)
				if f == 0 {
					continue
				}
				if u := e.unknown(f); u != "" {
					e.und("weight", st.at, "choice of the weighted factor: "+u)
					return
				}
				e.bad("weight", "weights", st.at, "the weight is left out when "+m.canon(f))
				return
			}
		}
	}
}

func (e *elim) usesWeights() bool {
	found := false
	e.fl.each(func(v *Value) {
		if v.op == OpFieldAddr && fieldName(v) == "weights" && e.q.live(v.blk) {
			found = true
		}
	})
	return found
}

// sumOut: the utility variables are summed out of the total, which replaces their factors.
func (e *elim) sumOut(s *Value, co *qcoll) {
	var last *Value
	for _, so := range e.calls("SumOut") {
		is := false
		for _, lf := range e.leavesAt(so.args[1], so) {
			if lf == s {
				is = true
			}
		}
		if !is {
			continue
		}
		kv := e.q.key(so.args[2])
		st := e.q.stageOf(kv, so.blk)
		if st == nil {
			e.und("utility", so, "variable summed out of the total")
			return
		}
		c := e.q.stage(st, kv, e.q.cond(st, so.blk), so)
		if c.unk != "" || c.src != e.vars {
			e.und("utility", so, "variables summed out of the total: "+c.unk+c.src)
			return
		}
		if c.bad != "" {
			e.bad("utility", "total utility", c.at, "not every utility variable is summed out of the total: "+c.bad)
			return
		}
		t := e.q.m.atom("·.nodeType=2")
		e.judge("utility", "utility variables", so, c.sel, t, t, "all utility variables are to be summed out of the total")
		last = so
	}
	if last == nil {
		e.bad("utility", "utility variables", s, "the utility variables are not summed out of the total")
		return
	}
	e.replacedSum(s, last, co)
}

func (e *elim) replacedSum(s, last *Value, co *qcoll) {
	ok := false
	for _, d := range e.dels {
		if e.round(d.args[1], d) != nil || !e.sumCtx(d) {
			continue
		}
		ds := e.selected(d.args[1], d)
		if ds.unk != "" {
			e.und("conserve", d, ds.unk)
			return
		}
		if ds.bad != "" && e.strayDelete(nil) {
			e.und("conserve", d, "several removals")
			return
		}
		if ds.bad != "" {
			e.bad("conserve", "removal after Sum", ds.at, "not all utilities added up are removed: "+ds.bad)
			return
		}
		if ds.sel != co.sel {
			e.bad("conserve", "removal after Sum", d, "the factors removed are not the ones added up: "+ds.selT)
			return
		}
		ok = true
	}
	if !ok {
		e.bad("conserve", "removal after Sum", s, "the utilities added up are not removed")
		return
	}
	e.inserted(last)
}

// result: the product of all remaining factors.
func (e *elim) result() {
	for _, r := range e.fl.returns() {
		if !e.q.live(r.blk) || len(r.args) == 0 {
			continue
		}
		for _, lf := range e.leavesAt(r.args[0], r) {
			if !prim(lf, "Product") {
				e.und("result", r, "result not recognised: "+e.q.key(lf))
				continue
			}
			co := e.q.coll(listArg(lf))
			if co.unk != "" || co.src != e.facs {
				e.und("result", lf, "factors of the result: "+co.unk+" "+co.src)
				continue
			}
			if co.bad != "" {
				e.bad("result", "all factors", co.at, "not every remaining factor enters the result once: "+co.bad)
				continue
			}
			e.judge("result", "all factors", lf, co.sel, 1, 1, "the result is the product of all remaining factors")
		}
	}
}

// order: evidence, then utilities, then hidden variables, then the product.
func (e *elim) order() {
	var prod []*Value
	for _, r := range e.fl.returns() {
		if e.q.live(r.blk) && len(r.args) > 0 {
			for _, lf := range e.leavesAt(r.args[0], r) {
				if prim(lf, "Product") {
					prod = append(prod, lf)
				}
			}
		}
	}
	rank := func(v *Value) (int, string) {
		for _, p := range prod {
			if p == v {
				return 4, "the final product"
			}
		}
		switch {
		case prim(v, "Restrict"):
			return 1, "evidence"
		case prim(v, "SumOut"):
			for _, lf := range e.leavesAt(v.args[1], v) {
				if prim(lf, "Sum") || prim(lf, "SumOut") {
					return 2, "utilities"
				}
			}
			return 3, "hidden variables"
		case v.op == OpBuiltin && v.name == "delete" && e.isFactors(v.args[0]) && !e.checked[valAtom(v)]:
			return 2, "utilities"
		}
		return 0, ""
	}
	var evs []*Value
	e.fl.each(func(v *Value) {
		if (isOpCall(v) || v.op == OpBuiltin && v.name == "delete") && e.q.live(v.blk) {
			if r, _ := rank(v); r > 0 {
				evs = append(evs, v)
			}
		}
	})
	for _, x := range evs {
		rx, nx := rank(x)
		for _, y := range evs {
			ry, ny := rank(y)
			// utilities may be removed before evidence
			if rx <= ry || (rx == 2 && ry == 1 && false) {
				continue
			}
			if rx == 2 && ry == 1 {
				// removing or adding up utilities first gives the same result
				continue
			}
			if rx == 4 && ry == 2 && y.op == OpBuiltin && y.name == "delete" {
				// emptying the factors after the product
			}
			if x.blk == y.blk && instrIndex(x) < instrIndex(y) || x.blk != y.blk && reachesLive(e.q, x.blk, y.blk) {
				e.bad("order", ny+" after "+nx, y, ny+" must be dealt with before "+nx)
				return
			}
		}
	}
	e.c.ok("order", e.entry)
}

// reachesLive: reachability over blocks that can be executed.
func reachesLive(q *ql, from, to *Block) bool {
	seen := map[*Block]bool{}
	var f func(b *Block) bool
	f = func(b *Block) bool {
		for _, s := range b.succs {
			if seen[s] || !q.live(s) {
				continue
			}
			if s == to {
				return true
			}
			seen[s] = true
			if f(s) {
				return true
			}
		}
		return false
	}
	return f(from)
}

// policies: from the last decision to the first, from all factors containing it.
func (e *elim) policies() {
	ps := e.calls("Policy")
	if len(ps) == 0 {
		e.bad("policy", "policies", e.fl.params[0], "no policy is determined")
		return
	}
	m := e.q.m
	for _, p := range ps {
		kd := e.q.key(p.args[2])
		dl := e.q.stageOf(kd, p.blk)
		if dl == nil || kd != e.q.tok(dl) || e.q.dom(dl) == nil {
			e.und("policy", p, "decision "+kd)
			continue
		}
		d := e.q.dom(dl)
		if d.partial != "" {
			e.bad("policy", "all decisions", d.exit, "not every decision is solved: the loop "+d.partial)
			continue
		}
		if !d.isMap && d.ct.iv.step != -1 {
			e.bad("policy", "order of decisions", d.exit, "decisions must be solved from the last to the first")
			continue
		}
		if c := e.q.cond(dl, p.blk); c != 1 {
			if e.unknown(c) == "" {
				// panics are not counted: only real conditions remain
				e.bad("policy", "all decisions", p, "a decision is solved only when "+m.canon(c))
			} else {
				e.und("policy", p, "decision solved under "+m.canon(c))
			}
			continue
		}
		_, brk := e.q.exits(dl)
		stop := false
		for _, x := range brk {
			f := e.q.edgeIn(dl, x.p, x.w)
			if f == 0 || (e.single != "" && m.implies(f, m.atom(e.single))) {
				continue
			}
			if e.unknown(f) == "" {
				e.bad("policy", "all decisions", x.p.instrs[len(x.p.instrs)-1], "decisions are left out when "+m.canon(f))
			} else {
				e.und("policy", p, "loop over decisions stops")
			}
			stop = true
		}
		if stop {
			continue
		}
		if e.single != "" && d.list != nil && !d.isMap {
			f := 0
			for _, x := range brk {
				f = m.or(f, e.q.edgeIn(dl, x.p, x.w))
			}
			if m.and(m.atom(e.single), m.not(f)) != 0 && e.unknown(f) == "" {
				e.bad("policy", "only the last decision", d.exit, "when only the last decision is asked for, others are solved as well")
				continue
			}
		}
		e.c.ok("policy", "all decisions, last first")
		// the factors
		var prod *Value
		rest := false
		for _, lf := range e.leavesAt(p.args[1], p) {
			if prim(lf, "Product") {
				prod = lf
			} else {
				rest = true
			}
		}
		if prod == nil {
			e.und("policy", p, "factor of the decision not recognised")
		} else {
			co := e.q.coll(listArg(prod))
			if ph := e.carried(listArg(prod), prod); ph != nil {
				e.bad("policy", "factors", ph, "the factors of a decision still include those of the decisions solved before")
			}
			e.isContains("policy", "factors", prod, co, kd, false, "a decision is made on the product of all factors containing it")
			if rest && co.unk == "" {
				if w := e.onlyIfOne(p.args[1], p, listArg(prod), co); w == "not recognised" {
					e.und("policy", p, "factor of the decision "+w)
				} else if w != "" {
					e.bad("policy", "factors", p, w)
				}
			}
		}
		e.inserted(p)
		e.policyResult(p, kd, dl)
	}
}

// policyResult: stored by decision, the decision becomes a chance variable, and what can be eliminated is.
func (e *elim) policyResult(p *Value, kd string, dl *Loop) {
	stored, typed, elim := false, false, false
	e.fl.each(func(v *Value) {
		if !dl.blocks[v.blk] || !e.q.live(v.blk) {
			return
		}
		switch {
		case v.op == OpMapUpdate && !e.isFactors(v.args[0]):
			if e.q.key(v.args[1]) != kd {
				return
			}
			if pair := e.pair(v.args[2], v); pair != nil {
				stored = true
				is := func(x *Value) bool {
					for _, lf := range e.leavesAt(x, v) {
						if lf == p {
							return true
						}
					}
					return false
				}
				if pair[1] != nil && !is(pair[1]) {
					e.bad("policy", "stored policy", v, "the second element stored for a decision is not its policy")
				}
				if c := e.q.cond(dl, v.blk); c != 1 && e.unknown(c) == "" {
					e.bad("policy", "stored policy", v, "the policy is stored only when "+e.q.m.canon(c))
				}
			} else {
				stored = true
			}
		case v.op == OpStore && v.args[0].op == OpFieldAddr && fieldName(v.args[0]) == "nodeType":
			k := e.q.key(v.args[0])
			if k == e.vars+"["+kd+".index].nodeType" {
				if c, ok := constInt(v.args[1]); ok && c == 0 && e.q.cond(dl, v.blk) == 1 {
					typed = true
				}
			}
		case prim(v, "SumOut"):
			if e.q.inner[v.blk] != dl {
				elim = true
			}
		}
	})
	if !stored {
		e.bad("policy", "stored policy", p, "the policy of a decision is not stored under the decision")
	} else {
		e.c.ok("policy", "policy stored for its decision")
	}
	if !typed {
		if e.storesType() {
			e.und("policy", p, "type of the solved decision")
		} else {
			e.bad("policy", "solved decision", p, "a solved decision is not turned into a chance variable, so it is never summed out")
		}
	} else {
		e.c.ok("policy", "solved decision becomes a chance variable")
	}
	if !elim {
		e.bad("policy", "elimination between decisions", p, "nothing is eliminated before the next decision")
	} else {
		e.c.ok("policy", "elimination between decisions")
	}
}

func (e *elim) storesType() bool {
	found := false
	e.fl.each(func(v *Value) {
		if v.op == OpStore && v.args[0].op == OpFieldAddr && fieldName(v.args[0]) == "nodeType" {
			found = true
		}
	})
	return found
}

// pair: the elements of a stored array.
func (e *elim) pair(v, at *Value) []*Value {
	v = stripCT(v)
	if v.op == OpStruct && len(v.args) == 2 {
		return v.args
	}
	if v.op == OpLoad && v.args[0].op == OpAlloc {
		out := make([]*Value, 2)
		for _, u := range v.args[0].uses {
			if u.op != OpIndexAddr {
				continue
			}
			i, ok := constInt(u.args[1])
			if x := singleStore(u); ok && i < 2 && x != nil {
				out[i] = x
			}
		}
		if out[0] != nil || out[1] != nil {
			return out
		}
	}
	return nil
}

// localName: s starts with pre and a number.
func localName(s, pre string) bool {
	return strings.HasPrefix(s, pre) && len(s) > len(pre) && s[len(pre)] >= '0' && s[len(pre)] <= '9'
}

// guarded: whether a loop is entered depends on single steps.
func (e *elim) guarded(l *Loop) bool {
	for _, s := range e.q.m.support(e.q.cond(e.q.parent[l], l.head)) {
		if s == e.single {
			return true
		}
	}
	return false
}

// hasPhi: a number or list is merged from several.
func hasPhi(v *Value) bool {
	v = stripConv(v)
	switch v.op {
	case OpPhi:
		return true
	case OpBin, OpSlice:
		for _, x := range v.args {
			if x != nil && hasPhi(x) {
				return true
			}
		}
	}
	return false
}

// hasPart: a list is, on some paths, part of a list.
func hasPart(v *Value) bool {
	seen := map[*Value]bool{}
	var walk func(v *Value) bool
	walk = func(v *Value) bool {
		v = stripCT(v)
		if seen[v] {
			return false
		}
		seen[v] = true
		if v.op == OpSlice && (v.args[1] != nil || v.args[2] != nil) {
			return true
		}
		if v.op == OpPhi {
			for _, x := range v.args {
				if walk(x) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}
