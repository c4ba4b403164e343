package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "construction of a network: every variable is linked to the factor with its name (or a new one), with the number of its own outcomes and of its parents' outcomes in order; the total utility is the utility node with utility parents; and the set of rejected definitions, as a boolean formula over the definition, equals the required one", checkC21)
}

// construct: the constructor of a network.
type construct struct {
	*netc
	net    *Value            // the network made
	fields map[string]string // field name -> role
	maps   map[string]string // key of a map by variable name -> what it holds for the name ⊙
	sets   map[string][]*Value
	fmaps  map[string]bool // key of a map by factor name, holding the factor
	tot    string
	totF   string
	split  int // condition under which no outcomes are multiplied
}

func checkC21(c *Ctx) {
	fn := c.must("", "", "New")
	if fn == nil {
		return
	}
	k := newConstruct(c, c.flatStop(fn, isSolver))
	if k == nil {
		c.undecide("fields", "New: the parts of a network are not recognised")
		return
	}
	k.run()
	for r, n := range map[string]int{"fields": 4, "factor": 1, "columns": 1, "outcomes": 1, "total": 1, "rejected": 5} {
		c.floor(r, n)
	}
}

func newConstruct(c *Ctx, fl *Flat) *construct {
	if len(fl.params) < 4 {
		return nil
	}
	a := newAlg(c, fl, "New")
	n := &netc{alg: a, q: newQL(a), entry: "New", totals: map[*Value]bool{}}
	k := &construct{netc: n, fields: map[string]string{}, maps: map[string]string{}, sets: map[string][]*Value{}, fmaps: map[string]bool{}}
	n.q.markErrors()
	for _, r := range fl.returns() {
		if len(r.args) == 0 {
			continue
		}
		for _, v := range n.liveLeaves(r.args[0]) {
			if isNilConst(v) {
				continue
			}
			if v.op != OpAlloc || k.net != nil && k.net != v {
				return nil
			}
			k.net = v
		}
	}
	if k.net == nil {
		return nil
	}
	st := structOf(k.net.typ)
	if st == nil {
		return nil
	}
	n.vs, n.fs = fl.params[2].name, fl.params[3].name
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			k.totF = st.Field(i).Name()
		}
	}
	q := n.q
	for i := 0; i < st.NumFields(); i++ {
		k.sets[st.Field(i).Name()] = k.stores(st.Field(i).Name())
	}
	q.hook = func(v *Value) (string, bool) {
		switch v.op {
		case OpLoad:
			x := v.args[0]
			if x.op == OpFieldAddr && x.args[0] == k.net {
				if s := k.stored(fieldName(x)); len(s) == 1 {
					return q.key(s[0].args[1]), true
				}
			}
		case OpBuiltin:
			if v.name == "len" && len(v.args) == 1 {
				return "len(" + q.key(v.args[0]) + ")", true
			}
		}
		return "", false
	}
	q.found = k.found
	q.forget()
	return k
}

func (k *construct) stored(field string) []*Value { return k.sets[field] }

// stores to a field of the network.
func (k *construct) stores(field string) []*Value {
	var out []*Value
	for _, u := range k.net.uses {
		if u.op == OpFieldAddr && u.args[0] == k.net && fieldName(u) == field {
			for _, s := range u.uses {
				if s.op == OpStore && s.args[0] == u && k.q.live(s.blk) {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

// ssaPath: how a closure obtains a value: p (its argument) or a captured variable, and fields.
func ssaPath(v ssa.Value, fn *ssa.Function, bind func(i int) string, d int) string {
	if d > 12 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range fn.Params {
			if p == x {
				return fmt.Sprintf("p%d", i)
			}
		}
	case *ssa.FreeVar:
		for i, p := range fn.FreeVars {
			if p == x {
				return bind(i)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return ssaPath(x.X, fn, bind, d+1)
		}
	case *ssa.FieldAddr:
		st := structOf(x.X.Type())
		if st != nil {
			return ssaPath(x.X, fn, bind, d+1) + "." + st.Field(x.Field).Name()
		}
	case *ssa.Field:
		st := structOf(x.X.Type())
		if st != nil {
			return ssaPath(x.X, fn, bind, d+1) + "." + st.Field(x.Field).Name()
		}
	case *ssa.Alloc:
		var s ssa.Value
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x {
				if s != nil {
					return "?"
				}
				s = st.Val
			}
		}
		if s != nil {
			return ssaPath(s, fn, bind, d+1)
		}
	}
	return "?"
}

// predicate of a search as a condition on the element p0.
func (k *construct) predicate(cl *Value) (int, bool) {
	cl = stripCT(cl)
	if cl.op != OpClosure && cl.op != OpFunc || cl.fn == nil || len(cl.fn.Blocks) == 0 || len(cl.fn.Blocks) > 12 {
		return 0, false
	}
	m := k.q.m
	fn := cl.fn
	bind := func(i int) string {
		if i < len(cl.args) {
			return k.q.key(cl.args[i])
		}
		return "?"
	}
	bad := false
	var val func(v ssa.Value, from *ssa.BasicBlock, d int) int
	text := func(v ssa.Value) string {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				return "nil"
			}
			return x.Value.ExactString()
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return "len(" + ssaPath(x.Call.Args[0], fn, bind, 0) + ")"
			}
		}
		return ssaPath(v, fn, bind, 0)
	}
	val = func(v ssa.Value, from *ssa.BasicBlock, d int) int {
		if d > 12 {
			bad = true
			return 0
		}
		switch x := v.(type) {
		case *ssa.Const:
			if b, ok := constBoolVal(x); ok {
				if b {
					return 1
				}
				return 0
			}
		case *ssa.UnOp:
			if x.Op == token.NOT {
				return m.not(val(x.X, from, d+1))
			}
		case *ssa.Phi:
			for i, p := range x.Block().Preds {
				if p == from {
					return val(x.Edges[i], from, d+1)
				}
			}
		case *ssa.BinOp:
			a, b, op := text(x.X), text(x.Y), x.Op
			if strings.Contains(a+b, "?") {
				break
			}
			neg := false
			if op == token.NEQ {
				op, neg = token.EQL, true
			}
			if op == token.EQL && !strings.HasPrefix(a, "p0") {
				a, b = b, a
			}
			f := m.atom(a + op.String() + b)
			if neg {
				return m.not(f)
			}
			return f
		case *ssa.Call:
			if cf := x.Call.StaticCallee(); cf != nil {
				s := cf.Name() + "("
				for _, a := range x.Call.Args {
					s += text(a) + ";"
				}
				if !strings.Contains(s, "?") {
					return m.atom(s + ")")
				}
			}
		}
		bad = true
		return 0
	}
	out := 0
	var walk func(b, from *ssa.BasicBlock, f, d int)
	walk = func(b, from *ssa.BasicBlock, f, d int) {
		if d > 24 || bad {
			bad = true
			return
		}
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			if len(x.Results) == 1 {
				out = m.or(out, m.and(f, val(x.Results[0], from, 0)))
				return
			}
		case *ssa.Jump:
			walk(b.Succs[0], b, f, d+1)
			return
		case *ssa.If:
			cv := val(x.Cond, from, 0)
			walk(b.Succs[0], b, m.and(f, cv), d+1)
			walk(b.Succs[1], b, m.and(f, m.not(cv)), d+1)
			return
		}
		bad = true
	}
	walk(fn.Blocks[0], nil, 1, 0)
	return out, !bad
}

func constBoolVal(c *ssa.Const) (bool, bool) {
	if c.Value == nil || c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

// found: a search in a list by one field.
func (k *construct) found(v *Value) (int, bool) {
	switch baseName(v.name) {
	case "slices.ContainsFunc", "slices.IndexFunc":
		f, ok := k.predicate(v.args[1])
		if !ok {
			return 0, false
		}
		m := k.q.m
		if sup := m.support(f); len(sup) == 1 && f == m.atom(sup[0]) {
			if p := strings.SplitN(sup[0], "==", 2); len(p) == 2 && strings.HasPrefix(p[0], "p0.") {
				return m.atom("key{" + k.q.key(v.args[0]) + "|always}·" + p[0][2:] + "@" + p[1]), true
			}
		}
		return m.atom("search{" + k.q.key(v.args[0]) + "}(" + m.canon(f) + ")"), true
	}
	return 0, false
}

func (k *construct) run() {
	k.header()
	k.nameMaps()
	k.totals()
	k.sizes()
	k.links()
	k.rejected()
}

// header: the plain fields of the network.
func (k *construct) header() {
	for i, f := range []string{"name", "info", "variables", "factors"} {
		p := k.fl.params[i]
		done := false
		for _, u := range k.net.uses {
			if u.op != OpFieldAddr || u.args[0] != k.net {
				continue
			}
			for _, s := range u.uses {
				if s.op == OpStore && s.args[0] == u && k.q.key(s.args[1]) == p.name && strings.EqualFold(fieldName(u), f) {
					done = true
				}
			}
		}
		if done {
			k.c.ok("fields", "New "+f)
			continue
		}
		other := ""
		var at *Value
		for _, u := range k.net.uses {
			if u.op == OpFieldAddr && u.args[0] == k.net && strings.EqualFold(fieldName(u), f) {
				for _, s := range u.uses {
					if s.op == OpStore && s.args[0] == u {
						other, at = k.q.key(s.args[1]), s
					}
				}
			}
		}
		for j, p2 := range k.fl.params {
			if other == p2.name && j != i {
				k.bad("fields", f, at, "the network's "+f+" is taken from "+p2.name)
				other = "done"
			}
		}
		if at != nil && stripConv(at.args[1]).op == OpConst {
			k.bad("fields", f, at, "the network's "+f+" is a constant")
			other = "done"
		}
		if other != "done" {
			k.undec("fields", at, "field "+f+" of the network is not recognised")
		}
	}
}

// nameMaps: maps from names of variables or factors, filled in a loop over all of them.
func (k *construct) nameMaps() {
	q := k.q
	k.fl.each(func(v *Value) {
		if v.op != OpMakeMap {
			return
		}
		var up *Value
		for _, u := range v.uses {
			if u.op == OpMapUpdate && u.args[0] == v && q.live(u.blk) {
				if up != nil {
					return
				}
				up = u
			}
			if u.op == OpBuiltin && (u.name == "delete" || u.name == "clear") {
				return
			}
		}
		if up == nil {
			return
		}
		l := q.inner[up.blk]
		if l == nil || q.dom(l) == nil || q.parent[l] != nil || q.cond(l, up.blk) != 1 {
			return
		}
		co := q.stage(l, q.tok(l), 1, up)
		if co.unk != "" || co.bad != "" || co.sel != 1 || co.expr != "·" {
			return
		}
		t := q.tok(l)
		name, val := q.key(up.args[1]), q.key(up.args[2])
		switch {
		case co.src == k.vs && name == t+".Name":
			if q.posKey(up.args[2]) == "pos"+t {
				k.maps[q.key(v)] = "P(⊙)"
			} else if val == t || known(val) {
				k.maps[q.key(v)] = strings.ReplaceAll(val, t, "N(⊙)")
			}
		case co.src == k.fs && name == t+".For":
			if val == t {
				k.fmaps[q.key(v)] = true
			} else if q.posKey(up.args[2]) == "pos"+t {
				k.maps[q.key(v)] = "Q(⊙)"
			}
		}
	})
}

// norm: names in terms of the definition.
func (k *construct) norm(s string) string {
	for i := 0; i < 6; i++ {
		old := s
		for m, w := range k.maps {
			for {
				p := strings.Index(s, m+"{")
				if p < 0 || p > 0 && isWord(s[p-1]) {
					break
				}
				j := matching(s, p+len(m))
				if j < 0 {
					break
				}
				x := s[p+len(m)+1 : j]
				r := strings.ReplaceAll(w, "⊙", x)
				s = s[:p] + r + s[j+1:]
			}
		}
		// variables[P(x)] is N(x)
		for {
			p := strings.Index(s, k.vs+"[P(")
			if p < 0 {
				break
			}
			j := matching(s, p+len(k.vs))
			if j < 0 {
				break
			}
			s = s[:p] + "N" + s[p+len(k.vs)+2:j] + s[j+1:]
		}
		if s == old {
			break
		}
	}
	return s
}

func isWord(c byte) bool { return isLetter(c) || c >= '0' && c <= '9' || c == '.' }

// matching: the position of the bracket that closes the one at i.
func matching(s string, i int) int {
	open := s[i]
	cl := map[byte]byte{'{': '}', '[': ']', '(': ')'}[open]
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case open:
			d++
		case cl:
			d--
			if d == 0 {
				return j
			}
		}
	}
	return -1
}

// key in terms of the definition.
func (k *construct) dkey(v *Value) string { return k.norm(k.q.key(v)) }

// total: where the position of the total utility is set.
func (k *construct) totals() {
	q := k.q
	if k.totF == "" {
		return
	}
	st := k.stored(k.totF)
	if len(st) == 1 {
		// computed first
		k.tot = q.key(st[0].args[1])
	} else {
		k.tot = q.key(k.net) + "." + k.totF
	}
	q.minus = k.tot
	q.forget()
}

// checkTotal: -1, and the position of the utility node with utility parents.
func (k *construct) checkTotal() {
	q, c, m := k.q, k.c, k.q.m
	if k.totF == "" {
		k.undec("total", nil, "no field for the position of the total utility")
		return
	}
	type set struct {
		v    *Value
		l    *Loop
		cond int
		at   *Value
	}
	var sets []set
	var init *Value
	st := k.stored(k.totF)
	if len(st) == 1 {
		v := stripConv(st[0].args[1])
		if v.op != OpPhi || q.inner[v.blk] == nil || q.inner[v.blk].head != v.blk {
			k.undec("total", st[0], "value of the position not recognised")
			return
		}
		l := q.inner[v.blk]
		var walk func(x *Value, f, d int)
		walk = func(x *Value, f, d int) {
			x = stripConv(x)
			if x == v || f == 0 || d > 8 {
				return
			}
			if x.op == OpPhi && q.inner[x.blk] == l && x.blk != l.head {
				for i, a := range x.args {
					if !q.gone(x.blk.preds[i]) {
						walk(a, m.and(f, q.into(l, x.blk.preds[i], x.blk, q.reach(l))), d+1)
					}
				}
				return
			}
			sets = append(sets, set{x, l, f, st[0]})
		}
		for i, a := range v.args {
			p := v.blk.preds[i]
			if !l.blocks[p] {
				init = a
				continue
			}
			f := 1
			if q.inner[p] == l {
				f = m.and(q.reach(l)[p], q.edge(p, v.blk))
			}
			walk(a, f, 0)
		}
	} else {
		for _, s := range st {
			if _, ok := constInt(s.args[1]); ok && q.inner[s.blk] == nil {
				init = s.args[1]
				continue
			}
			l := q.inner[s.blk]
			if l == nil {
				k.undec("total", s, "position set outside of a loop")
				return
			}
			sets = append(sets, set{s.args[1], l, q.cond(l, s.blk), s})
		}
	}
	if init == nil {
		k.undec("total", nil, "initial position not recognised")
		return
	}
	if ci, ok := constInt(init); !ok || ci != -1 {
		k.bad("total", "none", sets0(st), "the position of the total utility does not start as -1, which stands for none")
		return
	}
	c.ok("total", "New none")
	for _, s := range sets {
		l := s.l
		for ; l != nil; l = q.parent[l] {
			if d := q.dom(l); d != nil && q.key(d.list) == k.vs {
				break
			}
		}
		if l == nil || q.posKey(s.v) != "pos"+q.tok(l) {
			if _, isC := constInt(s.v); isC {
				k.bad("total", "position", s.at, "the position of the total utility is set to a constant")
			} else {
				k.undec("total", s.at, "position "+q.posKey(s.v)+" not recognised")
			}
			return
		}
		f := s.cond
		if s.l != l {
			f = k.lift(l, s.l, f)
		}
		co := q.stage(l, q.tok(l), 1, s.at)
		if co.unk != "" {
			k.undec("total", s.at, "loop over the variables")
			return
		}
		if co.bad != "" {
			k.bad("total", "position", s.at, "total utility searched only in a part of the variables: "+co.bad)
			return
		}
		g := k.body(l, f)
		U := k.U()
		want := m.and(m.atom("·.NodeType=2"), U)
		con := m.and(k.con(), m.not(m.and(U, k.O())))
		con = m.and(con, m.or(m.not(m.atom("·.NodeType=2")), m.or(U, k.O())))
		if m.and(g, con) == m.and(want, con) {
			c.ok("total", "New position")
			continue
		}
		if u := q.unknown(g); u != "" || k.foreign(g) {
			k.undec("total", s.at, "condition "+m.canon(g)+" not recognised")
			continue
		}
		k.bad("total", "position", s.at, "a variable becomes the total utility when "+m.canon(g)+"; expected "+m.canon(want))
	}
	if len(sets) == 0 {
		k.bad("total", "position", sets0(st), "the position of the total utility is never set")
	}
}

func sets0(st []*Value) *Value {
	if len(st) > 0 {
		return st[0]
	}
	return nil
}

// lift a condition within rounds of an inner loop to the rounds of l.
func (k *construct) lift(l, in *Loop, f int) int {
	for in != l && in != nil {
		p := k.q.parent[in]
		f = k.q.m.and(k.q.reach(p)[in.head], k.q.exists(in, f))
		in = p
	}
	return f
}

// body: a condition on an element of a loop, in terms of the definition; the element is ·.
func (k *construct) body(l *Loop, f int) int {
	q, m := k.q, k.q.m
	t := ""
	if l != nil {
		t = q.tok(l)
	}
	ren := func(s string) string {
		if t != "" {
			s = strings.ReplaceAll(s, "pos"+t, "#")
			s = strings.ReplaceAll(s, t, "·")
		}
		s = k.norm(s)
		s = strings.ReplaceAll(s, "·.Factor.columns", "len(·.Outcomes)")
		return s
	}
	f = q.rename(f, ren)
	// membership, emptiness, duplicates
	f = m.rename(f, func(s string) string {
		return k.atomName(s)
	})
	E := "empty{·.Factor.Given}"
	if _, ok := m.idx[E]; ok {
		none := m.and(m.not(k.U()), m.not(k.O()))
		f = m.or(m.and(none, m.set(f, E, true)), m.and(m.not(none), m.set(f, E, false)))
	}
	return f
}

const parentsU = "∃{·.Factor.Given}(N(∘).NodeType=2)"
const parentsO = "∃{·.Factor.Given}(!N(∘).NodeType=2)"

func (k *construct) U() int { return k.q.m.atom(parentsU) }
func (k *construct) O() int { return k.q.m.atom(parentsO) }

// con: a variable has one type; the total is a utility with utility parents.
func (k *construct) con() int {
	m := k.q.m
	_, con := oneType(m, "·.NodeType")
	t := m.atom(k.totalAtom())
	return m.and(con, m.or(m.not(t), m.and(m.atom("·.NodeType=2"), k.U())))
}

func (k *construct) totalAtom() string { return "eq(#," + k.tot + ")" }

// atomName: other ways of writing the same test.
func (k *construct) atomName(s string) string {
	all := "key{" + k.vs + "|always}·.Name@"
	switch {
	case strings.HasPrefix(s, all):
		return "known(" + s[len(all):] + ")"
	case strings.HasPrefix(s, "key{"+k.fs+"|always}·.For@"):
		return "has(" + s[len("key{"+k.fs+"|always}·.For@"):] + ")"
	case strings.HasPrefix(s, "in(") && strings.HasSuffix(s, ")"):
		p := strings.SplitN(s[3:len(s)-1], ",", 2)
		if len(p) == 2 && (k.maps[p[0]] != "" || k.fmaps[p[0]]) {
			if p[1] == "·.Name" || p[1] == "·.For" {
				return "dup(" + p[1] + ")"
			}
		}
	case strings.HasPrefix(s, "at("):
		p := strings.SplitN(s[3:len(s)-1], ",", 2)
		if len(p) == 2 && k.seenMap(p[0], p[1]) {
			return "dup(" + p[1] + ")"
		}
		if len(p) == 2 && k.sometimes(p[0]) {
			return "sometimes(" + p[1] + ")"
		}
	case s == "∃{·.Factor.Given}(!key{"+k.vs+"|always}·.Name@∘)":
		return "∃{·.Factor.Given}(!known(∘))"
	case s == "empty{·.Factor.Table}":
		return "nil(·.Factor.Table)"
	case s == k.tot+"=-1":
		return "first"
	case s == "eq(len(·.Factor.Given),len(·.Outcomes))", s == "eq(len(·.Outcomes),len(·.Factor.Given))":
		return "parents=outcomes"
	case s == "eq("+k.tot+",#)":
		return k.totalAtom()
	}
	return s
}

// sometimes: a map of flags that are not always set.
func (k *construct) sometimes(mk string) bool {
	ok := false
	k.fl.each(func(v *Value) {
		if v.op == OpMakeMap && k.q.key(v) == mk && len(v.uses) > 0 {
			// never set
			only := true
			for _, u := range v.uses {
				only = only && u.op == OpLookup
			}
			ok = ok || only
		}
		if v.op == OpMapUpdate && k.q.key(v.args[0]) == mk && k.q.live(v.blk) {
			l := k.q.inner[v.blk]
			x := stripConv(v.args[2])
			if b, isB := constBool(x); isB && !b {
				ok = true
			}
			ok = ok || l != nil && (x.op == OpBin && plain(x) || k.q.cond(l, v.blk) != 1 && k.q.unknown(k.q.cond(l, v.blk)) == "")
		}
	})
	return ok
}

// seenMap: a map of flags set for the key in each round, after the test.
func (k *construct) seenMap(mk, key string) bool {
	ok := false
	k.fl.each(func(v *Value) {
		if v.op != OpMakeMap || k.q.key(v) != mk {
			return
		}
		n := 0
		for _, u := range v.uses {
			if u.op != OpMapUpdate || u.args[0] != v || !k.q.live(u.blk) {
				continue
			}
			n++
			l := k.q.inner[u.blk]
			if l == nil || k.q.cond(l, u.blk) != 1 {
				n = 5
				continue
			}
			b, isB := constBool(u.args[2])
			if strings.ReplaceAll(k.q.key(u.args[1]), k.q.tok(l), "·") != key || isBoolT(u.args[2].typ) && (!isB || !b) {
				n = 5
			}
		}
		ok = n == 1
	})
	return ok
}

// sizes: comparisons of the table's length with the expected size.
func (k *construct) sizes() {
	q, m := k.q, k.q.m
	k.fl.each(func(v *Value) {
		op := "="
		switch {
		case v.op != OpBin:
			return
		case v.tok == token.EQL, v.tok == token.NEQ:
		case v.tok == token.LSS, v.tok == token.LEQ, v.tok == token.GTR, v.tok == token.GEQ:
			op = v.tok.String()
		default:
			return
		}
		l := q.inner[v.blk]
		if l == nil || q.dom(l) == nil || q.key(q.dom(l).list) != k.vs {
			return
		}
		t := q.tok(l)
		var size *Value
		for i, x := range v.args {
			if q.key(x) == "len("+t+".Factor.Table)" {
				size = v.args[1-i]
			}
		}
		if size == nil {
			return
		}
		f := 0
		lcs := k.leafConds(l, size, v.blk)
		for _, lc := range lcs {
			kind := k.sizeKind(l, lc.v)
			if n, isc := constInt(lc.v); kind == "" && isc && n > 0 && len(lcs) > 1 {
				kind = "other"
			}
			if kind == "" && k.computed(lc.v) {
				kind = "other"
			}
			if kind == "" {
				return
			}
			if kind == "guarded" {
				f = m.or(f, m.and(m.and(lc.f, k.split), m.atom("size"+op+"columns")))
				f = m.or(f, m.and(m.and(lc.f, m.not(k.split)), m.atom("size"+op+"table")))
				continue
			}
			f = m.or(f, m.and(lc.f, m.atom("size"+op+kind)))
		}
		if v.tok == token.NEQ {
			f = m.and(q.cond(l, v.blk), m.not(f))
		}
		q.vals[v] = f
	})
}

// sizeKind: the number of columns, alone or times the outcomes of all parents.
func (k *construct) sizeKind(l *Loop, v *Value) string {
	q := k.q
	v = stripConv(v)
	cols := func(x *Value) bool {
		s := k.dkey(x)
		return s == q.tok(l)+".Factor.columns" || s == "len("+q.tok(l)+".Outcomes)"
	}
	if cols(v) {
		return "columns"
	}
	if v.op != OpPhi {
		if v.op == OpBin && v.tok == token.MUL {
			for i, x := range v.args {
				if cols(x) {
					return k.product(l, v.args[1-i], func(x *Value) bool { c, ok := constInt(x); return ok && c == 1 })
				}
			}
		}
		return ""
	}
	return k.product(l, v, cols)
}

// product of the parents' outcomes.
func (k *construct) product(l *Loop, v *Value, start func(*Value) bool) string {
	q := k.q
	v = stripConv(v)
	if v.op != OpPhi {
		return ""
	}
	in := q.inner[v.blk]
	if in == nil || in.head != v.blk || q.parent[in] != l {
		return ""
	}
	d := q.dom(in)
	if d == nil {
		return ""
	}
	kind := "table"
	_, brk := q.exits(in)
	if len(brk) > 0 || d.partial != "" {
		kind = "part"
	}
	for _, e := range brk {
		// a condition that is the same in all rounds
		t := e.p.instrs[len(e.p.instrs)-1]
		if t.op != OpIf || in.blocks[stripNot(t.args[0]).blk] {
			continue
		}
		if len(brk) > 1 || d.partial != "" {
			return ""
		}
		kind, k.split = "guarded", q.edge(e.p, e.w)
	}
	list := stripCT(d.list)
	for list.op == OpSlice && partOf(list) != "" {
		list, kind = stripCT(list.args[0]), "part"
	}
	src := q.key(list)
	elem := map[string]bool{}
	t := q.tok(l)
	switch src {
	case t + ".Factor.outcomes":
		elem[q.tok(in)] = true
	case t + ".Factor.Given":
		elem["len(N("+q.tok(in)+").Outcomes)"] = true
	default:
		return ""
	}
	for i, a := range v.args {
		if !in.blocks[v.blk.preds[i]] {
			if !start(a) {
				// some tables start from a fixed number
				fixed, cols := false, false
				b := stripConv(a)
				if b.op != OpPhi {
					return ""
				}
				for _, x := range b.args {
					_, isc := constInt(x)
					switch {
					case start(x):
						cols = true
					case isc:
						fixed = true
					default:
						return ""
					}
				}
				if !fixed || !cols {
					return ""
				}
				kind = "other"
			}
			continue
		}
		a = stripConv(a)
		if a.op != OpBin || a.tok != token.MUL {
			return ""
		}
		ok := false
		for j, x := range a.args {
			if stripConv(x) == v && (elem[k.dkey(a.args[1-j])] || kind == "part") {
				if ok = true; kind != "guarded" && q.cond(in, a.blk) != 1 {
					kind = "part"
				} else if kind == "guarded" && q.m.and(q.cond(in, a.blk), q.m.not(k.split)) != q.m.not(k.split) {
					return ""
				}
			}
		}
		if !ok {
			return ""
		}
	}
	return kind
}

// foreign: a condition mentions values that are not parts of the definition.
func (k *construct) foreign(f int) bool {
	for _, s := range k.q.m.support(f) {
		if v := k.q.unk[s]; v != nil && v.op == OpBin && plain(v) {
			continue
		}
		if !known(s) && s != k.tot && s != k.totalAtom() {
			return true
		}
	}
	return false
}

// varLoop: the loop over the list around a block.
func (k *construct) varLoop(b *Block, src string) *Loop {
	for l := k.q.inner[b]; l != nil; l = k.q.parent[l] {
		if d := k.q.dom(l); d != nil && !d.isMap && k.q.key(d.list) == src {
			return l
		}
	}
	return nil
}

// links: the factor of every variable, its width and the radix of its parents.
func (k *construct) links() {
	q, c, m := k.q, k.c, k.q.m
	// stores to the Factor field of a variable
	type link struct {
		at, v *Value
		l     *Loop
		cond  int
	}
	var links []link
	own := map[*Value]*Loop{} // values that are the factor of the current variable of a loop
	k.fl.each(func(v *Value) {
		if v.op != OpStore || v.args[0].op != OpFieldAddr || !q.live(v.blk) || fieldName(v.args[0]) != "Factor" || named(v.args[0].args[0].typ) != "Variable" {
			return
		}
		base := q.key(v.args[0].args[0])
		l := k.varLoop(v.blk, k.vs)
		if l == nil || base != q.tok(l) {
			k.undec("factor", v, "variable "+base+" given a factor not recognised")
			return
		}
		in := q.inner[v.blk]
		if in == l {
			for _, lc := range k.leafConds(l, v.args[1], v.blk) {
				links = append(links, link{v, lc.v, l, lc.f})
				own[stripCT(lc.v)] = l
			}
			own[stripCT(v.args[1])] = l
		} else {
			links = append(links, link{v, v.args[1], l, k.lift(l, in, q.cond(in, v.blk))})
			own[stripCT(v.args[1])] = l
		}
	})
	if len(links) == 0 {
		k.undec("factor", nil, "no place links variables to factors")
		return
	}
	var had, fresh int
	good := true
	for _, x := range links {
		f := k.body(x.l, x.cond)
		t := q.tok(x.l)
		co := q.stage(x.l, t, 1, x.at)
		if co.unk != "" || !k.entered("factor", "link", x.l, x.at) {
			good = false
			continue
		}
		if co.bad != "" {
			k.bad("factor", "link", x.at, "only a part of the variables get their factor: "+co.bad)
			return
		}
		v := stripCT(x.v)
		switch kind, why := k.factorKind(x.l, v); kind {
		case "own":
			had = m.or(had, f)
		case "new":
			fresh = m.or(fresh, f)
		case "wrong":
			k.bad("factor", "link", x.at, why)
			return
		default:
			k.undec("factor", x.at, "factor "+q.key(v)+" not recognised"+why)
			good = false
		}
	}
	if good {
		F := m.atom("has(·.Name)")
		bad := false
		for _, x := range []struct {
			f, want int
			what    string
		}{{had, F, "the factor for it"}, {fresh, m.not(F), "an empty factor"}} {
			// links inside a search loop: found means the element matches
			g := k.searched(x.f)
			if g == x.want {
				continue
			}
			// a default that is replaced when found
			if x.what == "an empty factor" && g == 1 && k.before(fresh, had) {
				continue
			}
			bad = true
			if u := q.unknown(g); u != "" || k.foreign(g) {
				k.undec("factor", links[0].at, "condition "+m.canon(g)+" not recognised")
			} else {
				k.bad("factor", "link", links[0].at, "a variable is given "+x.what+" when "+m.canon(g)+"; expected "+m.canon(x.want))
			}
		}
		if !bad {
			c.ok("factor", "New link")
		}
	}
	k.radix(own)
	k.checkTotal()
}

func (k *construct) before(a, b int) bool { return false }

// searched: a search loop over the factors finds the one with the name.
func (k *construct) searched(f int) int {
	m := k.q.m
	for _, s := range m.support(f) {
		for _, e := range []string{"∃{" + k.fs + "}(eq(∘.For,·.Name))", "∃{" + k.fs + "}(eq(·.Name,∘.For))"} {
			if s == e {
				F := m.atom("has(·.Name)")
				f = m.or(m.and(F, m.set(f, s, true)), m.and(m.not(F), m.set(f, s, false)))
			}
		}
	}
	return f
}

// factorKind: own (found by the variable's name), new (made for the variable), wrong or unknown.
func (k *construct) factorKind(l *Loop, v *Value) (kind, why string) {
	q := k.q
	t := q.tok(l)
	if v.op == OpAlloc {
		name := ""
		for _, u := range v.uses {
			if u.op != OpFieldAddr || u.args[0] != v {
				continue
			}
			for _, s := range u.uses {
				if s.op != OpStore || s.args[0] != u {
					continue
				}
				switch fieldName(u) {
				case "For":
					name = q.key(s.args[1])
				case "Given", "Table":
					return "", ": its " + fieldName(u) + " is set"
				}
			}
		}
		switch {
		case name == t+".Name":
			return "new", ""
		case name == "":
			return "wrong", "the factor made for a variable does not name it"
		case known(name):
			return "wrong", "the factor made for a variable is for " + name
		}
		return "", ""
	}
	key := k.dkey(v)
	// element of a search loop
	for in := q.inner[v.blk]; in != nil && in != l; in = q.parent[in] {
		if d := q.dom(in); d != nil && q.key(d.list) == k.fs && key == q.tok(in) {
			return "own", "" // the condition is compared by the caller
		}
	}
	// by search
	if v.op == OpIndexAddr {
		list, ix := q.key(v.args[0]), stripConv(v.args[1])
		if list != k.fs {
			return "", ""
		}
		if ix.op == OpCall && baseName(ix.name) == "slices.IndexFunc" && q.key(ix.args[0]) == k.fs {
			if f, ok := k.predicate(ix.args[1]); ok {
				if f == q.m.atom("p0.For=="+t+".Name") {
					return "own", ""
				}
				return "wrong", "the factor of a variable is searched by " + strings.ReplaceAll(q.m.canon(f), t, "variable")
			}
			return "", ""
		}
		if k.norm(q.key(ix)) == "Q("+t+".Name)" {
			return "own", ""
		}
		if q.posKey(ix) == "pos"+t {
			return "wrong", "a variable is linked to the factor at its own position, not the one with its name"
		}
		if p, ok := k.posSearch(l, ix); ok {
			return p, ""
		}
		if k.computed(ix) {
			return "wrong", "the factor of a variable is not the one found by its name, but at a computed position"
		}
	}
	for mk := range k.fmaps {
		if key == mk+"{"+t+".Name}" {
			return "own", ""
		}
	}
	return "", ""
}

// computed: arithmetic or a choice of numbers, made of recognised parts.
func (k *construct) computed(v *Value) bool {
	var w func(v *Value, d int) bool
	w = func(v *Value, d int) bool {
		v = stripConv(v)
		if d > 8 {
			return false
		}
		switch {
		case strings.HasPrefix(k.q.posKey(v), "pos"):
			return true
		case v.op == OpBin && isInteger(v.typ), v.op == OpBuiltin && (v.name == "min" || v.name == "max"):
			for _, a := range v.args {
				if !w(a, d+1) {
					return false
				}
			}
			return true
		case v.op == OpConst:
			return true
		case v.op == OpCall && (baseName(v.name) == "slices.IndexFunc" || baseName(v.name) == "slices.Index"):
			return true
		}
		return known(k.dkey(v))
	}
	v = stripConv(v)
	return !strings.HasPrefix(k.q.posKey(v), "pos") && (v.op == OpBin || v.op == OpBuiltin && v.name != "len") && w(v, 0)
}

// posSearch: a position found by a loop over the factors.
func (k *construct) posSearch(l *Loop, ix *Value) (string, bool) {
	q := k.q
	seen := map[*Value]bool{}
	ok := false
	var walk func(x *Value) bool
	walk = func(x *Value) bool {
		x = stripConv(x)
		if seen[x] {
			return true
		}
		seen[x] = true
		if c, isC := constInt(x); isC {
			return c < 0
		}
		if x.op == OpPhi {
			for i, a := range x.args {
				p := x.blk.preds[i]
				if q.gone(p) {
					continue
				}
				if in := q.inner[p]; in != nil && in != l {
					if d := q.dom(in); d != nil && q.key(d.list) == k.fs && q.posKey(a) == "pos"+q.tok(in) {
						f := q.edgeIn(in, p, x.blk)
						e := k.body(l, f)
						for _, s := range []string{"eq(" + q.tok(in) + ".For,·.Name)", "eq(·.Name," + q.tok(in) + ".For)"} {
							if e == q.m.atom(s) {
								ok = true
								e = 1
							}
						}
						if e != 1 {
							return false
						}
						continue
					}
				}
				if !walk(a) {
					return false
				}
			}
			return true
		}
		return false
	}
	if walk(ix) && ok {
		return "own", true
	}
	return "", false
}

// radix: columns and outcomes of each factor.
func (k *construct) radix(own map[*Value]*Loop) {
	q, c, m := k.q, k.c, k.q.m
	// the factor a field belongs to
	owner := func(b *Value) *Loop {
		b = stripCT(b)
		if l := own[b]; l != nil && l.blocks[b.blk] || own[b] != nil {
			return own[b]
		}
		for l := q.inner[b.blk]; l != nil; l = q.parent[l] {
			if q.key(b) == q.tok(l)+".Factor" && q.dom(l) != nil && q.key(q.dom(l).list) == k.vs {
				return l
			}
		}
		return nil
	}
	seen := map[string]bool{}
	k.fl.each(func(v *Value) {
		if v.op != OpStore || v.args[0].op != OpFieldAddr || !q.live(v.blk) {
			return
		}
		fa := v.args[0]
		if named(fa.args[0].typ) != "Factor" {
			return
		}
		ft := fa.typ.Underlying().(*types.Pointer).Elem()
		rule := ""
		switch {
		case isInteger(ft):
			rule = "columns"
		case isIntList(ft):
			rule = "outcomes"
		default:
			return
		}
		l := owner(fa.args[0])
		if l == nil {
			k.undec(rule, v, "factor "+q.key(fa.args[0])+" not recognised")
			return
		}
		t := q.tok(l)
		in := q.inner[v.blk]
		f := k.lift(l, in, q.cond(in, v.blk))
		if in == l {
			f = q.cond(l, v.blk)
		}
		seen[rule] = true
		co := q.stage(l, t, 1, v)
		if co.unk != "" {
			k.undec(rule, v, "loop over the variables")
			return
		}
		if co.bad != "" {
			k.bad(rule, rule, v, rule+" set only for a part of the variables: "+co.bad)
			return
		}
		if in != l && isAppend(v.args[1]) {
			f = 1 // compared below
		}
		if f != 1 {
			if u := q.unknown(f); u != "" {
				k.undec(rule, v, "set under condition "+m.canon(f))
			} else {
				k.bad(rule, rule, v, rule+" of a factor set only when "+m.canon(k.body(l, f)))
			}
			return
		}
		if rule == "columns" {
			switch val := k.dkey(v.args[1]); {
			case val == "len("+t+".Outcomes)", val == "len(N("+t+".Name).Outcomes)":
				c.ok(rule, "New columns")
			case known(val), k.computed(v.args[1]):
				k.bad(rule, rule, v, "the width of a row is "+strings.ReplaceAll(val, t, "variable")+", not the number of outcomes")
			default:
				k.undec(rule, v, "width "+val+" not recognised")
			}
			return
		}
		if emptyList(v.args[1], map[*Value]bool{}) {
			return // filled by appending
		}
		lc := q.coll(v.args[1])
		given := t + ".Factor.Given"
		if mk := stripCT(v.args[1]); mk.op == OpMakeSlice {
			lc = k.filled(mk, l, owner, lc)
		} else if mk.op == OpBuiltin && mk.name == "append" {
			if b := stripCT(mk.args[0]); b.op == OpLoad && b.args[0].op == OpFieldAddr && fieldName(b.args[0]) == fieldName(fa) && owner(b.args[0].args[0]) == l {
				if el := appended(mk); len(el) == 1 {
					lc = q.stage(q.inner[v.blk], q.key(el[0]), q.cond(q.inner[v.blk], v.blk), v)
					lc.calc = k.computed(el[0])
				}
			}
		}
		if k.ownGiven(lc.src, own, l) {
			lc = &qcoll{src: given, sel: lc.sel, expr: lc.expr, bad: lc.bad, unk: lc.unk, ord: lc.ord, at: lc.at, calc: lc.calc}
		}
		switch ex := k.norm(lc.expr); {
		case lc.unk != "":
			k.undec(rule, v, "list of parents' outcomes: "+lc.unk)
		case lc.bad != "":
			k.bad(rule, rule, v, "not all parents' numbers of outcomes are set: "+lc.bad)
		case lc.src != given:
			if known(lc.src) {
				k.bad(rule, rule, v, "parents' numbers of outcomes are taken for "+lc.src)
			} else {
				k.undec(rule, v, "list over "+lc.src)
			}
		case lc.sel != 1:
			if u := q.unknown(lc.sel); u != "" {
				k.undec(rule, v, "parents counted when "+u)
			} else {
				k.bad(rule, rule, v, "only parents with "+m.canon(lc.sel)+" are counted")
			}
		case lc.ord != 0:
			k.bad(rule, rule, v, "parents' numbers of outcomes are not in the order of the parents")
		case ex == "len(N(·).Outcomes)":
			c.ok(rule, "New outcomes")
		case known(ex), lc.calc:
			k.bad(rule, rule, v, "the number for a parent is "+ex+", not its number of outcomes")
		default:
			k.undec(rule, v, "number "+ex+" not recognised")
		}
	})
	for _, r := range []string{"columns", "outcomes"} {
		if !seen[r] {
			k.undec(r, nil, "no place sets the "+r+" of factors")
		}
	}
}

// ownGiven: the parents of the variable's factor under another name.
func (k *construct) ownGiven(src string, own map[*Value]*Loop, l *Loop) bool {
	for v, ol := range own {
		if ol == l && src == k.q.key(v)+".Given" {
			return true
		}
	}
	return false
}

// filled: a list made for the parents and filled by index, possibly through the field.
func (k *construct) filled(mk *Value, l *Loop, owner func(*Value) *Loop, lc *qcoll) *qcoll {
	q := k.q
	unk := func(s string, at *Value) *qcoll { return &qcoll{unk: s, src: q.key(mk), expr: "·", at: at} }
	var sites []*Value
	k.fl.each(func(v *Value) {
		if v.op != OpStore || v.args[0].op != OpIndexAddr || !q.live(v.blk) {
			return
		}
		b := stripCT(v.args[0].args[0])
		if b == mk || b.op == OpLoad && b.args[0].op == OpFieldAddr && isIntList(b.typ) && owner(b.args[0].args[0]) == l {
			sites = append(sites, v)
		}
	})
	if len(sites) != 1 {
		return unk(fmt.Sprintf("filled at %d places", len(sites)), mk)
	}
	s := sites[0]
	in := q.inner[s.blk]
	if in == nil || in == l || q.dom(in) == nil || q.dom(in).isMap {
		return unk("loop not recognised", s)
	}
	d := q.dom(in)
	if q.key(mk.args[0]) != "len("+q.key(d.list)+")" {
		return unk("length not recognised", s)
	}
	out := q.stage(in, q.key(s.args[1]), q.cond(in, s.blk), s)
	out.calc = k.computed(s.args[1])
	ix := stripConv(s.args[0].args[1])
	switch {
	case ix == stripConv(d.ct.iv.cur):
		out.ord = q.coll(d.list).ord
	case q.a.p(ix).add(q.a.p(d.ct.iv.cur), 1).equal(q.a.p(mk.args[0]).add(polyConst(1), -1)):
		out.ord = 1
	case ix.op == OpConst:
		out.bad, out.at = "always the same place is filled", s
	default:
		return unk("index not recognised", s)
	}
	return out
}

func isAppend(v *Value) bool {
	v = stripCT(v)
	return v.op == OpBuiltin && v.name == "append"
}

func isIntList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isInteger(s.Elem())
}

// rejected: when the definition is refused.
func (k *construct) rejected() {
	q, c, m := k.q, k.c, k.q.m
	type piece struct {
		f  int
		at *Value
	}
	var vars, facs []piece
	unknown := ""
	var blocks []*Block
	for b := range q.dead {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].id < blocks[j].id })
	n := 0
	for _, b := range blocks {
		p := b.preds[0]
		if q.gone(p) {
			continue
		}
		t := p.instrs[len(p.instrs)-1]
		in := q.inner[p]
		f := q.val(t.args[0], in)
		if len(p.succs) == 2 && p.succs[1] == b {
			f = m.not(f)
		}
		f = m.and(q.cond(in, p), f)
		if f == 0 {
			continue
		}
		n++
		if l := k.varLoop(p, k.vs); l != nil {
			if co := q.stage(l, q.tok(l), 1, t); co.bad != "" && co.unk == "" {
				k.bad("rejected", "loop", t, "only a part of the variables are checked: "+co.bad)
				return
			}
			if !k.entered("rejected", "check", l, t) {
				return
			}
			vars = append(vars, piece{k.body(l, k.lift(l, in, f)), t})
		} else if l := k.varLoop(p, k.fs); l != nil {
			facs = append(facs, piece{k.body(l, k.lift(l, in, f)), t})
		} else if g, ok := k.top(f); ok {
			vars = append(vars, piece{g, t})
		} else {
			unknown = m.canon(f)
			k.undec("rejected", t, "condition "+unknown+" not recognised")
		}
	}
	if n == 0 {
		k.undec("rejected", nil, "no rejections recognised")
		return
	}
	U, O, con := k.U(), k.O(), k.con()
	util, T := m.atom("·.NodeType=2"), m.atom(k.totalAtom())
	want := []struct {
		f    int
		what string
	}{
		{m.atom("dup(·.Name)"), "two variables have one name"},
		{m.atom("empty{·.Outcomes}"), "a variable has no outcomes"},
		{m.atom("∃{·.Factor.Given}(!known(∘))"), "a parent does not exist"},
		{m.and(util, m.and(U, O)), "a utility node has utility parents and others"},
		{m.and(util, m.and(m.not(U), m.not(O))), "a utility node has no parents"},
		{m.and(util, m.and(U, m.not(m.atom("first")))), "there are several total utilities"},
		{m.and(util, m.and(U, m.not(m.atom("parents=outcomes")))), "the total utility has another number of outcomes than of parents"},
		{m.and(T, m.not(m.atom("size=columns"))), "the total utility's table is not of the size of its outcomes"},
		{m.and(m.not(T), m.and(m.not(m.atom("nil(·.Factor.Table)")), m.not(m.atom("size=table")))), "a table has the wrong size"},
	}
	wantF := []struct {
		f    int
		what string
	}{{m.atom("dup(·.For)"), "a variable has several factors"}}
	got, all := 0, 0
	for _, p := range vars {
		got = m.or(got, p.f)
		if u := q.unknown(p.f); u != "" {
			unknown = u
		} else if k.foreign(p.f) {
			unknown = m.canon(p.f)
		}
	}
	for _, w := range want {
		all = m.or(all, w.f)
		if m.and(m.and(w.f, con), m.not(got)) == 0 {
			c.ok("rejected", "New "+w.what)
		} else if unknown != "" {
			k.undec("rejected", nil, "not recognised whether it is rejected when "+w.what+": "+unknown)
		} else {
			k.bad("rejected", w.what, k.fl.entry.instrs[0], "a definition is accepted although "+w.what)
		}
	}
	gotF := 0
	for _, p := range facs {
		gotF = m.or(gotF, p.f)
		if u := q.unknown(p.f); u != "" {
			unknown = u
		} else if k.foreign(p.f) {
			unknown = m.canon(p.f)
		}
	}
	allF := m.not(m.atom("known(·.For)"))
	for _, w := range wantF {
		allF = m.or(allF, w.f)
		if m.and(w.f, m.not(gotF)) == 0 {
			c.ok("rejected", "New "+w.what)
		} else if unknown != "" {
			k.undec("rejected", nil, "not recognised whether it is rejected when "+w.what+": "+unknown)
		} else {
			k.bad("rejected", w.what, k.fl.entry.instrs[0], "a definition is accepted although "+w.what)
		}
	}
	// nothing else
	extra := func(ps []piece, all int) {
		for _, p := range ps {
			if m.and(m.and(p.f, con), m.not(all)) == 0 {
				c.ok("accepted", "New "+m.canon(p.f))
				continue
			}
			if u := q.unknown(p.f); u != "" || k.foreign(p.f) {
				k.undec("accepted", p.at, "rejection when "+m.canon(p.f)+" not recognised")
				continue
			}
			k.bad("accepted", m.canon(p.f), p.at, "a valid definition is rejected when "+m.canon(p.f))
		}
	}
	extra(vars, all)
	extra(facs, allF)
}

// top: a rejection after a loop over the variables.
func (k *construct) top(f int) (int, bool) {
	m := k.q.m
	g, rest := 0, f
	for _, s := range m.support(f) {
		x := k.q.exs[s]
		if x == nil || x.co.src != k.vs || x.co.sel != 1 {
			return 0, false
		}
		if m.set(f, s, true) != 1 {
			return 0, false
		}
		rest = m.set(rest, s, false)
		b := m.rename(x.body, func(s string) string {
			return k.atomName(k.norm(strings.ReplaceAll(s, "∘", "·")))
		})
		g = m.or(g, b)
	}
	return g, rest == 0 && g != 0
}
