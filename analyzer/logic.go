package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Boolean functions over named atoms, as reduced ordered binary decision diagrams.
// 0 is false, 1 is true.

type bnode struct{ v, lo, hi int }

type bdd struct {
	nodes []bnode
	uniq  map[bnode]int
	atoms []string
	idx   map[string]int
	memo  map[[3]int]int
}

func newBDD() *bdd {
	return &bdd{nodes: []bnode{{1 << 30, 0, 0}, {1 << 30, 1, 1}}, uniq: map[bnode]int{}, idx: map[string]int{}, memo: map[[3]int]int{}}
}

func (m *bdd) mk(v, lo, hi int) int {
	if lo == hi {
		return lo
	}
	k := bnode{v, lo, hi}
	if n, ok := m.uniq[k]; ok {
		return n
	}
	m.nodes = append(m.nodes, k)
	m.uniq[k] = len(m.nodes) - 1
	return len(m.nodes) - 1
}

func (m *bdd) atom(s string) int {
	i, ok := m.idx[s]
	if !ok {
		i = len(m.atoms)
		m.atoms = append(m.atoms, s)
		m.idx[s] = i
	}
	return m.mk(i, 0, 1)
}

func (m *bdd) ite(f, g, h int) int {
	switch {
	case f == 1:
		return g
	case f == 0:
		return h
	case g == h:
		return g
	case g == 1 && h == 0:
		return f
	}
	k := [3]int{f, g, h}
	if r, ok := m.memo[k]; ok {
		return r
	}
	v := m.nodes[f].v
	for _, x := range []int{g, h} {
		if m.nodes[x].v < v {
			v = m.nodes[x].v
		}
	}
	co := func(x int, hi bool) int {
		if m.nodes[x].v != v {
			return x
		}
		if hi {
			return m.nodes[x].hi
		}
		return m.nodes[x].lo
	}
	r := m.mk(v, m.ite(co(f, false), co(g, false), co(h, false)), m.ite(co(f, true), co(g, true), co(h, true)))
	m.memo[k] = r
	return r
}

func (m *bdd) and(f, g int) int { return m.ite(f, g, 0) }
func (m *bdd) or(f, g int) int  { return m.ite(f, 1, g) }
func (m *bdd) not(f int) int    { return m.ite(f, 0, 1) }
func (m *bdd) implies(f, g int) bool {
	return m.and(f, m.not(g)) == 0
}

// support: the atoms a function depends on, sorted.
func (m *bdd) support(f int) []string {
	seen := map[int]bool{}
	at := map[string]bool{}
	var w func(x int)
	w = func(x int) {
		if x < 2 || seen[x] {
			return
		}
		seen[x] = true
		at[m.atoms[m.nodes[x].v]] = true
		w(m.nodes[x].lo)
		w(m.nodes[x].hi)
	}
	w(f)
	var out []string
	for s := range at {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// restrict an atom to a value.
func (m *bdd) set(f int, atom string, val bool) int {
	i, ok := m.idx[atom]
	if !ok {
		return f
	}
	memo := map[int]int{}
	var w func(x int) int
	w = func(x int) int {
		if x < 2 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		n := m.nodes[x]
		var r int
		if n.v == i {
			if val {
				r = n.hi
			} else {
				r = n.lo
			}
		} else {
			r = m.ite(m.mk(n.v, 0, 1), w(n.hi), w(n.lo))
		}
		memo[x] = r
		return r
	}
	return w(f)
}

// rename atoms.
func (m *bdd) rename(f int, ren func(string) string) int {
	memo := map[int]int{}
	var w func(x int) int
	w = func(x int) int {
		if x < 2 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		n := m.nodes[x]
		s := m.atoms[n.v]
		r := m.ite(m.atom(ren(s)), w(n.hi), w(n.lo))
		memo[x] = r
		return r
	}
	return w(f)
}

// canon: a text that is the same for the same function.
func (m *bdd) canon(f int) string {
	switch f {
	case 0:
		return "never"
	case 1:
		return "always"
	}
	sup := m.support(f)
	if len(sup) > 10 {
		return fmt.Sprintf("f%d", f)
	}
	// cubes in sorted atom order, by recursive splitting
	var cubes []string
	var w func(x, i int, cube []string)
	w = func(x, i int, cube []string) {
		if x == 0 {
			return
		}
		if x == 1 {
			cubes = append(cubes, strings.Join(cube, " & "))
			return
		}
		lo, hi := m.set(x, sup[i], false), m.set(x, sup[i], true)
		if lo == hi {
			w(lo, i+1, cube)
			return
		}
		w(hi, i+1, append(append([]string{}, cube...), sup[i]))
		w(lo, i+1, append(append([]string{}, cube...), "!"+sup[i]))
	}
	w(f, 0, nil)
	return strings.Join(cubes, " | ")
}

// ql: conditions under which blocks are executed, as boolean functions of what is tested.
type ql struct {
	minus  string // a position that is -1 if there is none
	a      *alg
	m      *bdd
	inner  map[*Block]*Loop // innermost loop of a block
	parent map[*Loop]*Loop
	reachM map[*Loop]map[*Block]int
	doms   map[*Loop]*qdom
	vals   map[*Value]int
	busy   map[*Value]bool
	busyL  map[*Loop]bool
	unk    map[string]*Value // unrecognised tests
	colls  map[*Value]*qcoll
	lists  map[string]*Value // bool lists tested
	keyM   map[*Value]string
	exs    map[string]*qex
	dead   map[*Block]bool // ways that end in an error
	goneM  map[*Block]bool
	nils   bool
	hook   func(*Value) (string, bool) // names given by the caller
	found  func(*Value) (int, bool)    // searches recognised by the caller
}

// qdom: what a loop runs over.
type qdom struct {
	l       *Loop
	list    *Value // list or map
	isMap   bool
	next    *Value // map iteration
	ct      counter
	partial string // part of the list only
	exit    *Value // condition of the regular exit
}

func newQL(a *alg) *ql {
	q := &ql{a: a, m: newBDD(), inner: map[*Block]*Loop{}, parent: map[*Loop]*Loop{}, reachM: map[*Loop]map[*Block]int{}, doms: map[*Loop]*qdom{}, vals: map[*Value]int{}, busy: map[*Value]bool{}, busyL: map[*Loop]bool{}, unk: map[string]*Value{}, colls: map[*Value]*qcoll{}, lists: map[string]*Value{}, keyM: map[*Value]string{}, exs: map[string]*qex{}}
	for _, l := range a.loops {
		for b := range l.blocks {
			if x := q.inner[b]; x == nil || len(l.blocks) < len(x.blocks) {
				q.inner[b] = l
			}
		}
		for _, x := range a.loops {
			if x != l && x.blocks[l.head] {
				if p := q.parent[l]; p == nil || len(x.blocks) < len(p.blocks) {
					q.parent[l] = x
				}
			}
		}
	}
	return q
}

func (q *ql) tok(l *Loop) string { return fmt.Sprintf("⟨%d⟩", l.head.id) }

// forget what was derived before names were given.
func (q *ql) forget() {
	q.keyM = map[*Value]string{}
	q.vals = map[*Value]int{}
	q.reachM = map[*Loop]map[*Block]int{}
	q.colls = map[*Value]*qcoll{}
	q.doms = map[*Loop]*qdom{}
}

// dom of a loop, nil if not recognised.
func (q *ql) dom(l *Loop) *qdom {
	if d, ok := q.doms[l]; ok {
		return d
	}
	q.doms[l] = nil
	for _, v := range l.head.instrs {
		if v.op == OpNext && v.args[0].op == OpRange {
			d := &qdom{l: l, list: v.args[0].args[0], isMap: true, next: v}
			for _, u := range v.uses {
				if u.op == OpExtract && u.idx == 0 {
					d.exit = u
				}
			}
			q.doms[l] = d
			return d
		}
	}
	ct, ok := q.a.counterOf(l)
	if !ok {
		return nil
	}
	d := &qdom{l: l, ct: ct, exit: ct.iv.cond}
	// the list whose length bounds the loop
	var find func(v *Value) *Value
	find = func(v *Value) *Value {
		v = stripConv(v)
		if v.op == OpBuiltin && v.name == "len" {
			return v.args[0]
		}
		if v.op == OpBin {
			for _, x := range v.args {
				if r := find(x); r != nil {
					return r
				}
			}
		}
		return nil
	}
	src := ct.iv.bound
	if ct.iv.step < 0 {
		src = ct.iv.init
	}
	d.list = find(src)
	if d.list == nil {
		return nil
	}
	ln := q.a.p(lenValue(src))
	if len(ct.lo) != 0 {
		d.partial = "starts at " + ct.lo.String()
	} else if !ct.hi.equal(ln) {
		d.partial = "ends at " + ct.hi.String() + " instead of " + ln.String()
	}
	q.doms[l] = d
	return d
}

func lenValue(v *Value) *Value {
	v = stripConv(v)
	if v.op == OpBuiltin && v.name == "len" {
		return v
	}
	if v.op == OpBin {
		for _, x := range v.args {
			if r := lenValue(x); r != nil {
				return r
			}
		}
	}
	return nil
}

// key names a value by how it is obtained: parameters, fields, elements of loops, lookups.
func (q *ql) key(v *Value) string {
	if v == nil {
		return "nil"
	}
	v = q.pick(stripConv(v))
	if k, ok := q.keyM[v]; ok {
		return k
	}
	q.keyM[v] = valAtom(v)
	if q.hook != nil {
		if k, ok := q.hook(v); ok {
			q.keyM[v] = k
			return k
		}
	}
	k := q.key1(v)
	q.keyM[v] = k
	return k
}

// pick: a choice of which only one value can be taken without an error.
func (q *ql) pick(v *Value) *Value {
	for i := 0; i < 20; i++ {
		if len(q.dead) == 0 || v.op != OpPhi || v.blk == nil || len(v.args) != len(v.blk.preds) {
			return v
		}
		if l := q.inner[v.blk]; l != nil && l.head == v.blk {
			return v
		}
		var one *Value
		for j, a := range v.args {
			if p := v.blk.preds[j]; q.gone(p) || q.ends(p) {
				continue
			}
			if one != nil && one != a {
				return v
			}
			one = a
		}
		if one == nil {
			return v
		}
		v = stripConv(one)
	}
	return v
}

func (q *ql) key1(v *Value) string {
	switch v.op {
	case OpParam:
		return v.name
	case OpConst:
		if v.cval == nil {
			return "nil"
		}
		return v.cval.ExactString()
	case OpFieldAddr, OpField:
		return q.key(v.args[0]) + "." + fieldName(v)
	case OpAlloc:
		if s := singleStore(v); s != nil {
			return q.key(s)
		}
	case OpLoad:
		if v.args[0].op == OpAlloc {
			if s := singleStore(v.args[0]); s != nil {
				return q.key(s)
			}
			return valAtom(v)
		}
		return q.key(v.args[0])
	case OpIndexAddr, OpIndex:
		if l := q.elemLoop(v); l != nil {
			return q.tok(l)
		}
		return q.key(v.args[0]) + "[" + q.key(v.args[1]) + "]"
	case OpExtract:
		x := v.args[0]
		if x.op == OpNext && x.args[0].op == OpRange {
			for _, l := range q.a.loops {
				if l.head == x.blk {
					switch v.idx {
					case 1:
						return q.tok(l) + ".key"
					case 2:
						return q.key(x.args[0].args[0]) + "{" + q.tok(l) + ".key}"
					}
				}
			}
		}
		if x.op == OpLookup && v.idx == 0 {
			return q.key(x.args[0]) + "{" + q.key(x.args[1]) + "}"
		}
	case OpLookup:
		if !v.commaOk {
			return q.key(v.args[0]) + "{" + q.key(v.args[1]) + "}"
		}
	case OpSlice:
		if v.args[1] == nil && v.args[2] == nil {
			return q.key(v.args[0])
		}
	case OpStruct:
		if k := q.whole(v); k != "" {
			return k
		}
		return valAtom(v)
	case OpCall:
		if strings.HasPrefix(v.name, "slices.Index[") || v.name == "slices.Index" {
			return "ix(" + q.key(v.args[0]) + "," + q.key(v.args[1]) + ")"
		}
		if strings.HasPrefix(v.name, "slices.Clone[") || v.name == "slices.Clone" {
			return q.key(v.args[0])
		}
	case OpPhi:
		k := ""
		for i, x := range v.args {
			if x == v {
				continue
			}
			if i < len(v.blk.preds) && q.gone(v.blk.preds[i]) {
				continue
			}
			kk := q.key(x)
			if k != "" && k != kk {
				return valAtom(v)
			}
			k = kk
		}
		if k != "" {
			return k
		}
	}
	return valAtom(v)
}

// whole: a struct put together from all fields of one value.
func (q *ql) whole(v *Value) string {
	st := structOf(v.typ)
	base := ""
	for i, x := range v.args {
		suf := fmt.Sprintf("[%d]", i)
		if st != nil {
			if i >= st.NumFields() {
				return ""
			}
			suf = "." + st.Field(i).Name()
		}
		k := q.key(x)
		if !strings.HasSuffix(k, suf) {
			return ""
		}
		k = strings.TrimSuffix(k, suf)
		if base != "" && base != k {
			return ""
		}
		base = k
	}
	return base
}

// elemLoop: the loop whose current element an index expression is.
func (q *ql) elemLoop(v *Value) *Loop {
	for l := q.inner[v.blk]; l != nil; l = q.parent[l] {
		d := q.dom(l)
		if d == nil || d.isMap {
			continue
		}
		if stripConv(v.args[1]) == stripConv(d.ct.iv.cur) && (v.args[0] == d.list || q.key(v.args[0]) == q.key(d.list)) {
			return l
		}
	}
	return nil
}

// varIdx: the variable a position belongs to: x.index, or the counter of a loop over the list.
func (q *ql) posKey(v *Value) string {
	v = stripConv(v)
	for l := q.inner[v.blk]; l != nil; l = q.parent[l] {
		if d := q.dom(l); d != nil && !d.isMap && stripConv(d.ct.iv.cur) == v {
			if co := q.coll(d.list); co.unk == "" && co.sel == 1 && co.expr == "·" && strings.HasSuffix(co.src, ".variables.variables") {
				return q.tok(l) + "#"
			}
			return "pos" + q.tok(l)
		}
	}
	k := q.key(v)
	if strings.HasSuffix(k, ".index") {
		return strings.TrimSuffix(k, ".index") + "#"
	}
	return k
}

func (q *ql) edge(p, w *Block) int {
	t := p.instrs[len(p.instrs)-1]
	if t.op != OpIf || len(p.succs) != 2 || p.succs[0] == p.succs[1] {
		return 1
	}
	for i, s := range p.succs {
		if s == w && q.ends(p.succs[1-i]) {
			return 1
		}
	}
	if q.dead[w] {
		return 0
	}
	// the test at the head of a loop holds within its rounds
	if l := q.inner[p]; l != nil && l.head == p && l.blocks[w] && q.dom(l) == nil {
		for i, s := range p.succs {
			if s == w && !l.blocks[p.succs[1-i]] {
				return 1
			}
		}
	}
	c := q.val(t.args[0], q.inner[p])
	if p.succs[0] == w {
		return c
	}
	return q.m.not(c)
}

// ends: nothing after b counts: it panics, or an error is returned.
func (q *ql) ends(b *Block) bool { return q.dead[b] || endsInPanic(b) }

// gone: blocks that can only be reached through dead ends.
func (q *ql) gone(b *Block) bool {
	if len(q.dead) == 0 {
		return false
	}
	if q.goneM == nil {
		q.goneM = map[*Block]bool{}
		live := map[*Block]bool{}
		var w func(b *Block)
		w = func(b *Block) {
			if live[b] || q.ends(b) {
				return
			}
			live[b] = true
			for _, s := range b.succs {
				w(s)
			}
		}
		w(q.a.fl.entry)
		for _, b := range q.a.fl.blocks {
			if !live[b] {
				q.goneM[b] = true
			}
		}
	}
	return q.goneM[b]
}

// markErrors: ways that end in a returned error do not count as ways of solving.
func (q *ql) markErrors() {
	q.dead = map[*Block]bool{}
	for _, b := range q.a.fl.blocks {
		if len(b.preds) != 1 || b.dead {
			continue
		}
		t := b.preds[0].instrs[len(b.preds[0].instrs)-1]
		if t.op == OpIf && !endsInPanic(b) && q.a.c.leadsToError(q.a.fl, b) {
			q.dead[b] = true
		}
	}
	// a test of an error that is always nil on the other ways is no test
	q.nils = true
}

// direct: the loop directly inside l that contains b (nil if b is in l itself).
func (q *ql) direct(l *Loop, b *Block) *Loop {
	x := q.inner[b]
	if x == l {
		return nil
	}
	for x != nil && q.parent[x] != l {
		x = q.parent[x]
	}
	return x
}

// reach: for the blocks of one round of l (or of the function): the condition for executing them.
func (q *ql) reach(l *Loop) map[*Block]int {
	if r, ok := q.reachM[l]; ok {
		return r
	}
	r := map[*Block]int{}
	q.reachM[l] = r
	var bl []*Block
	for _, b := range q.a.fl.blocks {
		if b.dead || (l != nil && !l.blocks[b]) {
			continue
		}
		if q.inner[b] == l {
			bl = append(bl, b)
		} else if x := q.direct(l, b); x != nil && x.head == b {
			bl = append(bl, b)
		}
	}
	sort.SliceStable(bl, func(i, j int) bool { return bl[i].rpo < bl[j].rpo })
	for _, b := range bl {
		if (l != nil && b == l.head) || (l == nil && b == q.a.fl.entry) {
			r[b] = 1
			continue
		}
		f := 0
		for _, p := range b.preds {
			f = q.m.or(f, q.into(l, p, b, r))
		}
		r[b] = f
	}
	return r
}

// into: the condition for going over the edge p->b within a round of l.
func (q *ql) into(l *Loop, p, b *Block, r map[*Block]int) int {
	if l != nil && !l.blocks[p] {
		return 0
	}
	if q.inner[p] == l {
		if _, ok := r[p]; !ok {
			return 0 // back edge
		}
		if l != nil && b == l.head {
			return 0
		}
		return q.m.and(r[p], q.edge(p, b))
	}
	x := q.direct(l, p)
	if x == nil || x.blocks[b] {
		return 0
	}
	return q.m.and(r[x.head], q.leave(x, p, b))
}

type exitEdge struct{ p, w *Block }

// exits of a loop other than panics, the regular one first.
func (q *ql) exits(x *Loop) (regular []exitEdge, breaks []exitEdge) {
	d := q.dom(x)
	for _, b := range q.a.fl.blocks {
		if !x.blocks[b] {
			continue
		}
		for _, s := range b.succs {
			if x.blocks[s] || q.ends(s) {
				continue
			}
			t := b.instrs[len(b.instrs)-1]
			if d != nil && t.op == OpIf && d.exit != nil && stripNot(t.args[0]) == stripNot(d.exit) {
				regular = append(regular, exitEdge{b, s})
			} else {
				breaks = append(breaks, exitEdge{b, s})
			}
		}
	}
	return
}

// edgeIn: the condition, within a round of x, for leaving over p->w.
func (q *ql) edgeIn(x *Loop, p, w *Block) int {
	r := q.reach(x)
	if q.inner[p] == x {
		return q.m.and(r[p], q.edge(p, w))
	}
	y := q.direct(x, p)
	if y == nil {
		return 1
	}
	return q.m.and(r[y.head], q.leave(y, p, w))
}

// leave: the condition, once x is entered, for leaving it over p->w.
func (q *ql) leave(x *Loop, p, w *Block) int {
	if q.busyL[x] {
		return q.m.atom(fmt.Sprintf("?loop%d", x.head.id))
	}
	q.busyL[x] = true
	defer delete(q.busyL, x)
	reg, brk := q.exits(x)
	if len(reg) == 0 && len(brk) == 1 {
		return 1
	}
	all := 0
	for _, e := range brk {
		all = q.m.or(all, q.edgeIn(x, e.p, e.w))
	}
	any := q.exists(x, all)
	if len(reg) == 0 {
		any = 1
	}
	for _, e := range reg {
		if e.p == p && e.w == w {
			return q.m.not(any)
		}
	}
	same := true
	for _, e := range brk {
		if e.w != w {
			same = false
		}
	}
	if len(brk) == 1 {
		return any
	}
	mine := q.edgeIn(x, p, w)
	if mine == 0 {
		return 0
	}
	// the only possible break
	if mine == all {
		n := 0
		for _, e := range brk {
			if q.edgeIn(x, e.p, e.w) != 0 {
				n++
			}
		}
		if n == 1 {
			return any
		}
	}
	_ = same
	return q.m.and(any, q.m.atom(fmt.Sprintf("?brk%d-%d", p.id, w.id)))
}

// exists: in some round of x, f holds.
func (q *ql) exists(x *Loop, f int) int {
	if f == 0 {
		return 0
	}
	d := q.dom(x)
	t := q.tok(x)
	dep := false
	for _, s := range q.m.support(f) {
		if strings.Contains(s, t) {
			dep = true
		}
	}
	if d == nil {
		return q.m.and(f, q.m.atom(fmt.Sprintf("?rounds%d", x.head.id)))
	}
	co := q.coll(d.list)
	if co.unk != "" || d.partial != "" {
		n := fmt.Sprintf("?some%d{%s}", x.head.id, d.partial)
		q.unk[n] = d.exit
		return q.m.and(q.m.atom(n), 1)
	}
	if co.sel == 0 && co.bad == "" {
		return 0
	}
	if !dep {
		return q.m.and(f, q.m.not(q.m.atom(q.emptyName(co))))
	}
	dot := func(s string) string { return strings.ReplaceAll(s, "·", "∘") }
	g := q.rename(f, func(s string) string { return q.sub(d, co, s, "∘") })
	sup := q.m.support(g)
	// membership of one variable in a plain list
	if len(sup) == 1 && g == q.m.atom(sup[0]) && co.sel == 1 && co.expr == "·" && !d.isMap {
		for _, p := range []string{"same", "same*"} {
			if strings.HasPrefix(sup[0], p+"(∘,") {
				return q.m.atom(strings.Replace(p, "same", "has", 1) + "(" + co.src + "," + sup[0][len(p)+len("(∘,"):])
			}
		}
	}
	name := "∃" + dot(co.text()) + "(" + q.m.canon(g) + ")"
	q.exs[name] = &qex{co: co, body: g, loop: x}
	return q.m.atom(name)
}

// rename atoms, together with what is known about them.
func (q *ql) rename(f int, ren func(string) string) int {
	return q.m.rename(f, func(s string) string {
		n := ren(s)
		if n == s {
			return n
		}
		if x := q.exs[s]; x != nil && q.exs[n] == nil {
			co := *x.co
			co.src = ren(co.src)
			co.sel = q.rename(co.sel, ren)
			co.selT = q.m.canon(co.sel)
			q.exs[n] = &qex{co: &co, body: q.rename(x.body, ren), loop: x.loop}
		}
		if l := q.lists[s]; l != nil {
			q.lists[n] = l
		}
		if v := q.unk[s]; v != nil {
			q.unk[n] = v
		}
		return n
	})
}

// qex: some element of co satisfies body.
type qex struct {
	co   *qcoll
	body int
	loop *Loop
}

// sub: a name within a round of a loop in terms of the elements of what it runs over.
func (q *ql) sub(d *qdom, co *qcoll, s, dot string) string {
	t := q.tok(d.l)
	if !strings.Contains(s, t) {
		return s
	}
	if d.isMap {
		s = strings.ReplaceAll(s, q.key(d.list)+"{"+t+".key}", strings.ReplaceAll(co.expr, "·", dot))
		s = strings.ReplaceAll(s, t+".key", strings.ReplaceAll(co.kexpr, "·", dot))
		return project(s)
	}
	return project(strings.ReplaceAll(s, t, strings.ReplaceAll(co.expr, "·", dot)))
}

// project: <A:x,B:y>.A is x.
func project(s string) string {
	for {
		i := strings.IndexByte(s, '<')
		if i < 0 {
			return s
		}
		depth, j := 0, i
		for ; j < len(s); j++ {
			if s[j] == '<' {
				depth++
			} else if s[j] == '>' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		if j >= len(s)-1 || s[j+1] != '.' {
			return s
		}
		k := j + 2
		for k < len(s) && (s[k] == '_' || s[k] >= 'a' && s[k] <= 'z' || s[k] >= 'A' && s[k] <= 'Z' || s[k] >= '0' && s[k] <= '9') {
			k++
		}
		field := s[j+2 : k]
		// fields of the struct
		val := ""
		depth = 0
		start := i + 1
		for p := i + 1; p <= j; p++ {
			switch {
			case s[p] == '<' || s[p] == '(' || s[p] == '{':
				depth++
			case p == j || (s[p] == ',' && depth == 0):
				f := s[start:p]
				if strings.HasPrefix(f, field+":") {
					val = f[len(field)+1:]
				}
				start = p + 1
			case s[p] == '>' || s[p] == ')' || s[p] == '}':
				depth--
			}
		}
		if val == "" {
			return s
		}
		s = s[:i] + val + s[k:]
	}
}

func (q *ql) emptyName(co *qcoll) string { return "empty" + co.text() }

// cond: the condition for executing b in a round of l (l contains b).
func (q *ql) cond(l *Loop, b *Block) int {
	if q.inner[b] == l {
		return q.reach(l)[b]
	}
	y := q.direct(l, b)
	if y == nil {
		return 1
	}
	return q.m.and(q.reach(l)[y.head], q.exists(y, q.cond(y, b)))
}

// live: b can be executed at all.
func (q *ql) live(b *Block) bool {
	l := q.inner[b]
	if q.cond(l, b) == 0 {
		return false
	}
	for l != nil {
		p := q.parent[l]
		if q.reach(p)[l.head] == 0 {
			return false
		}
		l = p
	}
	return true
}

// val: a truth value, seen from region `from`.
func (q *ql) val(v *Value, from *Loop) int {
	neg := false
	for v.op == OpUn && v.tok == token.NOT {
		v = v.args[0]
		neg = !neg
	}
	r := q.val1(v, from)
	if neg {
		return q.m.not(r)
	}
	return r
}

func (q *ql) fresh(v *Value) int {
	n := "?" + valAtom(v)
	q.unk[n] = v
	return q.m.atom(n)
}

func (q *ql) val1(v *Value, from *Loop) int {
	if b, ok := constBool(v); ok {
		if b {
			return 1
		}
		return 0
	}
	if v.op == OpPhi {
		return q.phi(v, from)
	}
	if r, ok := q.vals[v]; ok {
		return r
	}
	q.vals[v] = q.fresh(v)
	r := q.val2(v, from)
	q.vals[v] = r
	return r
}

func (q *ql) phi(v *Value, from *Loop) int {
	if q.busy[v] {
		return q.m.atom("?carry" + valAtom(v))
	}
	l := q.inner[v.blk]
	if l != nil && l.head == v.blk {
		in := from
		for in != nil && in != l {
			in = q.parent[in]
		}
		carry := "?carry" + valAtom(v)
		if in == l {
			q.unk[carry] = v
			return q.m.atom(carry)
		}
		return q.final(v, l, carry)
	}
	q.busy[v] = true
	defer delete(q.busy, v)
	r := q.reach(l)
	f := 0
	for i, p := range v.blk.preds {
		if i >= len(v.args) {
			break
		}
		e := q.into(l, p, v.blk, r)
		f = q.m.or(f, q.m.and(e, q.val(v.args[i], l)))
	}
	return f
}

// final: the value of a flag after its loop.
func (q *ql) final(v *Value, l *Loop, carry string) int {
	init, next := -1, 0
	r := q.reach(l)
	for i, p := range v.blk.preds {
		if i >= len(v.args) {
			return q.fresh(v)
		}
		if !l.blocks[p] {
			x := q.val(v.args[i], q.parent[l])
			if init >= 0 && init != x {
				return q.fresh(v)
			}
			init = x
			continue
		}
		var e int
		if q.inner[p] == l {
			e = q.m.and(r[p], q.edge(p, v.blk))
		} else if x := q.direct(l, p); x != nil {
			e = q.m.and(r[x.head], q.leave(x, p, v.blk))
		} else {
			return q.fresh(v)
		}
		a := v.args[i]
		var av int
		if a == v {
			av = q.m.atom(carry)
		} else {
			av = q.val(a, l)
		}
		next = q.m.or(next, q.m.and(e, av))
	}
	if init != 0 && init != 1 {
		return q.fresh(v)
	}
	nt, nf := q.m.set(next, carry, true), q.m.set(next, carry, false)
	_, brk := q.exits(l)
	// rounds that leave early do not set the flag
	var leave int
	for _, e := range brk {
		leave = q.m.or(leave, q.edgeIn(l, e.p, e.w))
	}
	stay := q.m.not(leave)
	cont := q.dom(l)
	var inb int = 1
	if cont != nil && cont.exit != nil {
		// within a round the bound test holds
		c := q.val(cont.exit, l)
		inb = c
		for _, s := range q.m.support(c) {
			nt = q.m.set(nt, s, true)
			nf = q.m.set(nf, s, true)
			stay = q.m.set(stay, s, true)
		}
	}
	_ = inb
	if init == 1 && q.m.implies(stay, nt) {
		return 1
	}
	if init == 0 && q.m.and(stay, nf) == 0 {
		return 0
	}
	if len(brk) > 0 {
		return q.fresh(v)
	}
	if init == 0 && nt == 1 {
		return q.exists(l, nf)
	}
	if init == 1 && nf == 0 {
		return q.m.not(q.exists(l, q.m.not(nt)))
	}
	return q.fresh(v)
}

func (q *ql) val2(v *Value, from *Loop) int {
	// bound tests hold within a round
	for l := q.inner[v.blk]; l != nil; l = q.parent[l] {
		if d := q.dom(l); d != nil && d.exit != nil && (v == d.exit || v == stripNot(d.exit)) {
			return 1
		}
	}
	switch v.op {
	case OpParam:
		return q.m.atom(v.name)
	case OpNonDet:
		return q.m.atom("?nd" + valAtom(v))
	case OpExtract:
		if v.idx == 1 && v.args[0].op == OpLookup {
			if f, ok := q.inPhi(v.args[0].args[0], q.key(v.args[0].args[1])); ok {
				return f
			}
			if f, ok := q.inMap(v.args[0], false); ok {
				return f
			}
			if q.key(v.args[0].args[0]) == "nil" {
				return 0
			}
			return q.m.atom("in(" + q.key(v.args[0].args[0]) + "," + q.key(v.args[0].args[1]) + ")")
		}
	case OpLoad:
		if x := v.args[0]; x.op == OpIndexAddr {
			k := q.posKey(x.args[1])
			if strings.HasPrefix(k, "v") && strings.Trim(k[1:], "0123456789") == "" && stripConv(x.args[1]).op != OpBin {
				return q.fresh(v)
			}
			n := "at(" + q.key(x.args[0]) + "," + k + ")"
			q.lists[n] = x.args[0]
			return q.m.atom(n)
		}
	case OpLookup:
		if !v.commaOk && isBoolT(v.typ) {
			if f, ok := q.inMap(v, true); ok {
				return f
			}
			return q.m.atom("at(" + q.key(v.args[0]) + "," + q.key(v.args[1]) + ")")
		}
	case OpCall:
		if f, ok := q.member(v); ok {
			return f
		}
	case OpBin:
		if f, ok := q.compare(v); ok {
			return f
		}
	}
	return q.fresh(v)
}

// inMap: the test of a key in a local map filled by loops (with the value true, if the value is tested).
func (q *ql) inMap(v *Value, value bool) (int, bool) {
	mp := stripCT(v.args[0])
	if mp.op != OpMakeMap {
		return 0, false
	}
	f := 0
	for _, u := range mp.uses {
		switch {
		case u.op == OpMapUpdate && u.args[0] == mp:
			if !q.live(u.blk) {
				continue
			}
			if value {
				if b, ok := constBool(u.args[2]); !ok || !b {
					return 0, false
				}
			}
			k := q.key(u.args[1])
			st := q.stageOf(k, u.blk)
			if st == nil || st.blocks[v.blk] || reachesBlock(v.blk, u.blk, q.parent[st]) {
				return 0, false
			}
			c := q.stage(st, k, q.cond(st, u.blk), u)
			if c.unk != "" || c.bad != "" {
				return 0, false
			}
			if c.sel == 0 {
				continue
			}
			o := q.reach(q.parent[st])[st.head]
			name := "key{" + c.src + "|" + q.m.canon(c.sel) + "}" + c.expr + "@" + q.key(v.args[1])
			f = q.m.or(f, q.m.and(o, q.m.atom(name)))
		case u.op == OpBuiltin && u.name == "len", u.op == OpRange, u.op == OpLookup:
		default:
			return 0, false
		}
	}
	return f, true
}

func (q *ql) member(v *Value) (int, bool) {
	if q.found != nil {
		if f, ok := q.found(v); ok {
			return f, true
		}
	}
	base := v.name
	if i := strings.IndexByte(base, '['); i > 0 {
		base = base[:i]
	}
	switch base {
	case "slices.Contains", "slices.Index":
		return q.m.atom("has*(" + q.key(v.args[0]) + "," + q.key(v.args[1]) + ")"), true
	case "slices.ContainsFunc", "slices.IndexFunc":
		if k, ok := q.a.eqClosureK(v.args[1], q.key); ok {
			return q.m.atom("has(" + q.key(v.args[0]) + "," + k + ")"), true
		}
	}
	return 0, false
}

func (q *ql) compare(v *Value) (int, bool) {
	x, y := stripCT(v.args[0]), stripCT(v.args[1])
	tok := v.tok
	if x.op == OpConst && y.op != OpConst {
		x, y = y, x
		tok = swapTok(tok)
	}
	pol := func(f int) (int, bool) {
		if tok == token.NEQ {
			return q.m.not(f), true
		}
		return f, true
	}
	eq := tok == token.EQL || tok == token.NEQ
	// nil tests
	if isNilConst(y) && eq {
		if isNilConst(x) {
			return pol(1)
		}
		if f, ok := q.nilPhi(x, v); ok {
			return pol(f)
		}
		if x.op == OpAlloc || x.op == OpMakeSlice || x.op == OpMakeMap || (x.op == OpSlice && x.args[0].op == OpAlloc) {
			return pol(0)
		}
		return pol(q.m.atom("nil(" + q.key(x) + ")"))
	}
	if c, ok := constInt(y); ok {
		// lengths
		if s := stripConv(x); s.op == OpBuiltin && s.name == "len" {
			return q.lenTest(s.args[0], tok, c)
		}
		// position found
		if s := stripConv(x); s.op == OpCall {
			if f, ok := q.member(s); ok && strings.HasPrefix(s.name, "slices.Index") {
				switch {
				case tok == token.LSS && c == 0, tok == token.EQL && c == -1, tok == token.LEQ && c == -1:
					return q.m.not(f), true
				case tok == token.GEQ && c == 0, tok == token.NEQ && c == -1, tok == token.GTR && c == -1:
					return f, true
				}
				return 0, false
			}
		}
		if q.minus != "" && q.key(x) == q.minus {
			f := q.m.atom(q.minus + "=-1")
			switch {
			case tok == token.LSS && c == 0, tok == token.LEQ && c == -1:
				return f, true
			case tok == token.GEQ && c == 0, tok == token.GTR && c == -1:
				return q.m.not(f), true
			}
		}
		if eq {
			return pol(q.m.atom(fmt.Sprintf("%s=%d", q.key(x), c)))
		}
		return 0, false
	}
	if !eq {
		return 0, false
	}
	if s, ok := constStr(y); ok {
		return pol(q.m.atom(fmt.Sprintf("%s=%q", q.key(x), s)))
	}
	if b, ok := constBool(y); ok {
		f := q.val(x, q.inner[v.blk])
		if !b {
			f = q.m.not(f)
		}
		return pol(f)
	}
	kx, ky := q.key(x), q.key(y)
	if isInteger(x.typ) {
		if k := q.posKey(x); strings.HasPrefix(k, "pos") {
			kx = k
		}
		if k := q.posKey(y); strings.HasPrefix(k, "pos") {
			ky = k
		}
	}
	name := "same*"
	if isInteger(x.typ) || isStringT(x.typ) {
		f := ""
		for _, s := range []string{".id", ".index"} {
			if strings.HasSuffix(kx, s) && strings.HasSuffix(ky, s) {
				f = s
			}
		}
		if f == "" {
			name = "eq"
		} else {
			kx, ky, name = strings.TrimSuffix(kx, f), strings.TrimSuffix(ky, f), "same"
		}
	}
	// the innermost loop element first
	if q.depth(ky) > q.depth(kx) || (q.depth(ky) == q.depth(kx) && ky < kx) {
		kx, ky = ky, kx
	}
	if kx == ky {
		return pol(1)
	}
	return pol(q.m.atom(name + "(" + kx + "," + ky + ")"))
}

// inPhi: a lookup in one of several maps.
func (q *ql) inPhi(x *Value, k string) (int, bool) {
	x = stripCT(x)
	if !q.nils || x.op != OpPhi || q.inner[x.blk] != nil {
		return 0, false
	}
	r := q.reach(nil)
	f := 0
	for i, a := range x.args {
		if i >= len(x.blk.preds) {
			return 0, false
		}
		a = stripCT(a)
		if isNilConst(a) || q.gone(x.blk.preds[i]) {
			continue
		}
		if a.op == OpPhi {
			return 0, false
		}
		f = q.m.or(f, q.m.and(q.into(nil, x.blk.preds[i], x.blk, r), q.m.atom("in("+q.key(a)+","+k+")")))
	}
	return f, true
}

// nilPhi: a choice of values, as far as it is known which of them are nil.
func (q *ql) nilPhi(x, at *Value) (int, bool) {
	if !q.nils || x.op != OpPhi {
		return 0, false
	}
	l := q.inner[x.blk]
	if l != nil && l.head == x.blk {
		return 0, false
	}
	r := q.reach(l)
	f := 0
	var all, none = true, true
	for i, a := range x.args {
		if i >= len(x.blk.preds) {
			return 0, false
		}
		if q.gone(x.blk.preds[i]) {
			continue
		}
		e := q.into(l, x.blk.preds[i], x.blk, r)
		if e == 0 {
			continue
		}
		a = stripCT(a)
		var n int
		switch {
		case isNilConst(a):
			n = 1
		case a.op == OpAlloc || a.op == OpMakeSlice || a.op == OpMakeMap || a.op == OpFieldAddr || a.op == OpIndexAddr || (a.op == OpSlice && a.args[0].op == OpAlloc) || (a.op == OpCall && (strings.HasPrefix(a.name, "fmt.Errorf") || strings.HasPrefix(a.name, "errors.New"))):
			n = 0
		case a.op == OpPhi:
			m, ok := q.nilPhi(a, at)
			if !ok {
				return 0, false
			}
			n = m
		default:
			n = q.m.atom("nil(" + q.key(a) + ")")
		}
		if n != 1 {
			all = false
		}
		if n != 0 {
			none = false
		}
		f = q.m.or(f, q.m.and(e, n))
	}
	if all {
		return 1, true
	}
	if none {
		return 0, true
	}
	return f, true
}

// depth of the innermost loop a key mentions.
func (q *ql) depth(k string) int {
	best := 0
	for _, l := range q.a.loops {
		if strings.Contains(k, q.tok(l)) {
			n := 1
			for p := q.parent[l]; p != nil; p = q.parent[p] {
				n++
			}
			if n > best {
				best = n
			}
		}
	}
	return best
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (q *ql) lenTest(list *Value, tok token.Token, c int64) (int, bool) {
	co := q.coll(list)
	var e, o int
	if co.unk == "" {
		e, o = q.m.atom(q.emptyName(co)), q.m.atom("one"+co.text())
	} else {
		e, o = q.m.atom("empty("+q.key(list)+")"), q.m.atom("one("+q.key(list)+")")
	}
	ge2 := q.m.and(q.m.not(e), q.m.not(o))
	switch tok {
	case token.EQL:
		switch c {
		case 0:
			return e, true
		case 1:
			return o, true
		}
	case token.NEQ:
		switch c {
		case 0:
			return q.m.not(e), true
		case 1:
			return q.m.not(o), true
		}
	case token.LSS:
		switch c {
		case 0:
			return 0, true
		case 1:
			return e, true
		case 2:
			return q.m.or(e, o), true
		}
	case token.LEQ:
		switch c {
		case 0:
			return e, true
		case 1:
			return q.m.or(e, o), true
		}
	case token.GTR:
		switch c {
		case 0:
			return q.m.not(e), true
		case 1:
			return ge2, true
		}
	case token.GEQ:
		switch c {
		case 0:
			return 1, true
		case 1:
			return q.m.not(e), true
		case 2:
			return ge2, true
		}
	}
	return 0, false
}

// qcoll: the elements of a list or map: expr of the elements · of src that satisfy sel.
type qcoll struct {
	src  string
	sel  int
	expr string
	// maps: the key; expr is the value
	kexpr string
	bad   string // known to lose or repeat elements
	at    *Value
	unk   string
	selT  string // canonical text of sel
	calc  bool   // the elements are computed from recognised parts
	ord   int    // 0 same order as src, 1 reversed, 2 none
}

func (c *qcoll) text() string {
	if c.selT == "always" {
		return "{" + c.src + "}"
	}
	return "{" + c.src + "|" + c.selT + "}"
}

func (q *ql) coll(v *Value) *qcoll {
	v = q.pick(stripCT(v))
	if c, ok := q.colls[v]; ok {
		return c
	}
	q.colls[v] = &qcoll{unk: "recursive"}
	c := q.coll1(v)
	c.selT = q.m.canon(c.sel)
	q.colls[v] = c
	return c
}

func (q *ql) coll1(v *Value) *qcoll {
	if _, isMap := v.typ.Underlying().(*types.Map); isMap {
		return q.mapColl(v)
	}
	switch v.op {
	case OpConst:
		return &qcoll{src: "nothing", expr: "·"}
	case OpPhi:
		if emptyList(v, map[*Value]bool{}) {
			return &qcoll{src: "nothing", expr: "·"}
		}
		return q.listColl(v)
	case OpMakeSlice:
		return q.filledColl(v)
	case OpBuiltin:
		if v.name == "append" {
			return q.listColl(v)
		}
	case OpCall:
		base := v.name
		if i := strings.IndexByte(base, '['); i > 0 {
			base = base[:i]
		}
		switch base {
		case "slices.Sorted", "slices.Collect", "slices.SortedFunc", "slices.SortedStableFunc":
			if len(v.args) >= 1 && v.args[0].op == OpCall {
				in := v.args[0]
				nm := in.name
				if i := strings.IndexByte(nm, '['); i > 0 {
					nm = nm[:i]
				}
				if len(in.args) == 1 && (nm == "maps.Keys" || nm == "maps.Values") {
					c := *q.coll(in.args[0])
					if nm == "maps.Keys" {
						c.expr = c.kexpr
					}
					c.kexpr = ""
					return &c
				}
			}
		case "slices.Clone":
			return q.coll(v.args[0])
		}
	case OpSlice:
		if v.args[0].op == OpAlloc {
			if emptyList(v, map[*Value]bool{}) {
				return &qcoll{src: "nothing", expr: "·"}
			}
			return &qcoll{unk: "literal", src: valAtom(v), expr: "·"}
		}
		if v.args[1] == nil && v.args[2] == nil {
			return q.coll(v.args[0])
		}
		if c, ok := constInt(v.args[2]); v.args[2] != nil && ok && c == 0 {
			return &qcoll{src: "nothing", expr: "·"}
		}
		if w := partOf(v); w != "" {
			if c := q.coll(v.args[0]); c.unk == "" {
				d := *c
				if d.bad == "" {
					d.bad, d.at = w, v
				}
				return &d
			}
		}
		return &qcoll{unk: "part of a list", src: q.key(v), expr: "·"}
	case OpUnknown, OpRecCall:
		return &qcoll{unk: "unknown list", src: q.key(v), expr: "·"}
	}
	return &qcoll{src: q.key(v), sel: 1, expr: "·"}
}

// partOf: how a slice expression certainly leaves out elements of some lists.
func partOf(v *Value) string {
	if lo := v.args[1]; lo != nil {
		if c, ok := constInt(lo); ok && c > 0 {
			return "its first elements are left out"
		}
		return ""
	}
	if v.args[2] == nil {
		return ""
	}
	hi := stripConv(v.args[2])
	if c, ok := constInt(hi); ok && c > 0 {
		return "only its first elements are used"
	}
	isLen := func(x *Value) bool {
		x = stripConv(x)
		return x.op == OpBuiltin && x.name == "len" && stripCT(x.args[0]) == stripCT(v.args[0])
	}
	switch {
	case hi.op == OpBuiltin && hi.name == "min":
		for _, x := range hi.args {
			if _, ok := constInt(x); ok {
				return "only its first elements are used"
			}
		}
	case hi.op == OpBin && len(hi.args) == 2 && isLen(hi.args[0]):
		if c, ok := constInt(hi.args[1]); ok && c > 0 {
			return "its last elements are left out"
		}
	}
	return ""
}

// stages: the elements added to a list in a loop, in terms of what the loop runs over.
type qsite struct {
	v   *Value // element
	at  *Value
	l   *Loop
	con int // condition within a round of l
}

// appends that build a list; false if something else contributes.
func (q *ql) appends(v *Value) (sites []qsite, ok bool) {
	seen := map[*Value]bool{}
	ok = true
	var walk func(x *Value)
	walk = func(x *Value) {
		x = q.pick(stripCT(x))
		if seen[x] || !ok {
			return
		}
		seen[x] = true
		if emptyList(x, map[*Value]bool{}) {
			return
		}
		switch {
		case x.op == OpPhi:
			for _, a := range x.args {
				walk(a)
			}
		case x.op == OpBuiltin && x.name == "append":
			walk(x.args[0])
			if !q.live(x.blk) {
				return
			}
			el := appended(x)
			if el == nil {
				ok = false
				return
			}
			for _, e := range el {
				sites = append(sites, qsite{v: e, at: x, l: q.inner[x.blk]})
			}
		default:
			ok = false
		}
	}
	walk(v)
	return
}

// elemStage: the outermost loop mentioned by the key of an element.
func (q *ql) stageOf(k string, b *Block) *Loop {
	var out *Loop
	for l := q.inner[b]; l != nil; l = q.parent[l] {
		if strings.Contains(k, q.tok(l)) && out == nil {
			out = l
		}
	}
	return out
}

func (q *ql) listColl(v *Value) *qcoll {
	sites, ok := q.appends(v)
	if !ok || len(sites) == 0 {
		return &qcoll{unk: "list not recognised", src: q.key(v), expr: "·"}
	}
	return q.fromSites(v, sites, func(s qsite) string { return q.structKey(s.v) })
}

func (q *ql) fromSites(v *Value, sites []qsite, key func(qsite) string) *qcoll {
	type group struct {
		l     *Loop
		out   *qcoll
		total int
	}
	var gs []*group
	for _, s := range sites {
		k := key(s)
		st := q.stageOf(k, s.at.blk)
		if st == nil {
			return &qcoll{unk: "elements not from a loop", src: q.key(v), expr: "·", at: s.at}
		}
		con := q.cond(st, s.at.blk)
		c := q.stage(st, k, con, s.at)
		if c.unk != "" {
			return c
		}
		var g *group
		for _, x := range gs {
			if x.l == st {
				g = x
			}
		}
		if g == nil {
			gs = append(gs, &group{st, c, con})
			continue
		}
		if g.out.src != c.src || g.out.expr != c.expr {
			return &qcoll{unk: "different elements", src: q.key(v), expr: "·", at: s.at}
		}
		if q.m.and(g.total, con) != 0 && g.out.bad == "" {
			g.out.bad, g.out.at = "an element can be added twice", s.at
		}
		g.total = q.m.or(g.total, con)
		g.out.sel = q.m.or(g.out.sel, c.sel)
		if c.bad != "" && g.out.bad == "" {
			g.out.bad, g.out.at = c.bad, c.at
		}
	}
	if len(gs) == 1 {
		return gs[0].out
	}
	// a second loop that only runs if the first found nothing, and looks for less
	sort.Slice(gs, func(i, j int) bool { return gs[i].l.head.rpo < gs[j].l.head.rpo })
	first := gs[0].out
	first.selT = q.m.canon(first.sel)
	for _, g := range gs[1:] {
		oc := q.reach(q.parent[g.l])[g.l.head]
		if g.out.src == first.src && g.out.expr == first.expr && q.m.implies(oc, q.m.atom(q.emptyName(first))) && q.m.implies(g.out.sel, first.sel) {
			continue
		}
		if g.out.src == first.src && g.out.expr == first.expr && first.bad == "" && g.out.bad == "" && q.m.implies(oc, q.m.atom(q.emptyName(first))) && len(gs) == 2 {
			// something else if the first found nothing
			out := *first
			out.sel = q.m.or(first.sel, q.m.and(oc, g.out.sel))
			return &out
		}
		return &qcoll{unk: "elements from several loops", src: q.key(v), expr: "·", at: g.out.at}
	}
	return first
}

// stage: elements named k, added under con in the rounds of l.
func (q *ql) stage(l *Loop, k string, con int, at *Value) *qcoll {
	d := q.dom(l)
	if d == nil {
		return &qcoll{unk: "loop not recognised", src: k, expr: "·", at: at}
	}
	in := q.coll(d.list)
	if in.unk != "" {
		return in
	}
	out := &qcoll{src: in.src, bad: in.bad, at: in.at, ord: in.ord}
	if d.isMap {
		out.ord = 2
	} else if d.ct.iv.step < 0 && out.ord < 2 {
		out.ord = 1 - out.ord
	}
	out.sel = q.m.and(in.sel, q.rename(con, func(s string) string { return q.sub(d, in, s, "·") }))
	out.expr = q.sub(d, in, k, "·")
	if out.bad == "" {
		if d.partial != "" {
			out.bad, out.at = "the loop "+d.partial, d.exit
		} else if _, brk := q.exits(l); len(brk) > 0 {
			for _, e := range brk {
				if f := q.edgeIn(l, e.p, e.w); f != 0 {
					out.bad, out.at = "the loop stops early when "+q.m.canon(f), e.p.instrs[len(e.p.instrs)-1]
				}
			}
		}
	}
	return out
}

// filledColl: make([]T, n) filled by index.
func (q *ql) filledColl(v *Value) *qcoll {
	base := &qcoll{src: q.key(v), sel: 1, expr: "·"}
	if emptyList(v, map[*Value]bool{}) {
		return &qcoll{src: "nothing", expr: "·"}
	}
	var sites []qsite
	for _, u := range v.uses {
		if u.op != OpIndexAddr || u.args[0] != v {
			continue
		}
		for _, s := range u.uses {
			if s.op == OpStore && s.args[0] == u && q.live(s.blk) {
				sites = append(sites, qsite{v: s.args[1], at: s, l: q.inner[s.blk]})
			}
			if s.op == OpFieldAddr {
				for _, s2 := range s.uses {
					if s2.op == OpStore && s2.args[0] == s && q.live(s2.blk) {
						return &qcoll{unk: "filled by field", src: q.key(v), expr: "·", at: s2}
					}
				}
			}
		}
	}
	if len(sites) == 0 {
		return base
	}
	if len(sites) > 1 {
		return &qcoll{unk: "filled at several places", src: q.key(v), expr: "·", at: sites[1].at}
	}
	s := sites[0]
	l := s.l
	if l == nil || q.cond(l, s.at.blk) != 1 {
		return &qcoll{unk: "not every place is filled", src: q.key(v), expr: "·", at: s.at}
	}
	d := q.dom(l)
	if d == nil {
		return &qcoll{unk: "loop not recognised", src: q.key(v), expr: "·", at: s.at}
	}
	// index: the counter of the loop, or a counter of the rounds
	ix := stripConv(s.at.args[0].args[1])
	okIx := !d.isMap && ix == stripConv(d.ct.iv.cur)
	for _, iv := range inductions(l) {
		if iv.phi == ix && iv.step == 1 {
			if c, ok := constInt(iv.init); ok && c == 0 {
				okIx = true
			}
		}
	}
	rev := false
	if !okIx && !d.isMap {
		// from the back
		if lv := lenValue(v.args[0]); lv != nil && q.a.p(ix).add(q.a.p(d.ct.iv.cur), 1).equal(q.a.p(lv).add(polyConst(1), -1)) {
			okIx, rev = true, true
		}
	}
	if !okIx {
		return &qcoll{unk: "index not recognised", src: q.key(v), expr: "·", at: s.at}
	}
	// length
	n := lenValue(v.args[0])
	if n == nil || stripConv(v.args[0]) != n || (n.args[0] != d.list && q.key(n.args[0]) != q.key(d.list)) {
		return &qcoll{unk: "length not recognised", src: q.key(v), expr: "·", at: v}
	}
	c := q.stage(l, q.structKey(s.v), 1, s.at)
	if !d.isMap && ix == stripConv(d.ct.iv.cur) {
		c.ord = q.coll(d.list).ord
	}
	if rev {
		c.ord = 1 - q.coll(d.list).ord
		if q.coll(d.list).ord == 2 {
			c.ord = 2
		}
	}
	return c
}

// structKey: the key of a value, or of the parts of a composed struct.
func (q *ql) structKey(v *Value) string {
	v = q.pick(v)
	if v.op == OpLoad && v.args[0].op == OpAlloc && singleStore(v.args[0]) != nil {
		return q.structKey(singleStore(v.args[0]))
	}
	if v.op == OpStruct {
		if k := q.whole(v); k != "" {
			return k
		}
		st := structOf(v.typ)
		var out []string
		for i, x := range v.args {
			if st != nil && i < st.NumFields() {
				out = append(out, st.Field(i).Name()+":"+q.key(x))
			}
		}
		return "<" + strings.Join(out, ",") + ">"
	}
	return q.key(v)
}

// mapColl: a map filled in loops, and reduced by deleting.
func (q *ql) mapColl(v *Value) *qcoll {
	if v.op != OpMakeMap {
		k := q.key(v)
		return &qcoll{src: k, sel: 1, expr: k + "{·.key}", kexpr: "·.key"}
	}
	var out *qcoll
	var dels []*Value
	var ins []*Value
	for _, u := range v.uses {
		switch {
		case u.op == OpMapUpdate && u.args[0] == v:
			if q.live(u.blk) {
				ins = append(ins, u)
			}
		case u.op == OpBuiltin && u.name == "delete":
			if q.live(u.blk) {
				dels = append(dels, u)
			}
		case u.op == OpBuiltin && u.name == "len", u.op == OpRange, u.op == OpLookup:
		case u.op == OpCall && (strings.HasPrefix(u.name, "maps.Keys") || strings.HasPrefix(u.name, "maps.Values")):
		default:
			return &qcoll{unk: "map used by " + opNames[u.op], src: q.key(v), expr: "·", at: u}
		}
	}
	if len(ins) == 0 {
		return &qcoll{src: "nothing", expr: "·"}
	}
	var sites []qsite
	for _, u := range ins {
		sites = append(sites, qsite{v: u.args[2], at: u, l: q.inner[u.blk]})
	}
	out = q.fromSites(v, sites, func(s qsite) string { return q.key(s.v) })
	if out.unk != "" {
		return out
	}
	c := *out
	out = &c
	for _, u := range ins {
		k := q.key(u.args[1])
		if st := q.stageOf(q.key(u.args[2]), u.blk); st != nil && q.dom(st) != nil {
			out.kexpr = q.sub(q.dom(st), q.coll(q.dom(st).list), k, "·")
		}
		if k != q.key(u.args[2])+".id" && k != q.key(u.args[2])+".index" && k != q.key(u.args[2]) {
			return &qcoll{unk: "map key not recognised", src: q.key(v), expr: "·", at: u}
		}
	}
	for _, dl := range dels {
		k := q.key(dl.args[1])
		st := q.stageOf(k, dl.blk)
		if st == nil {
			return &qcoll{unk: "deletion not recognised", src: q.key(v), expr: "·", at: dl}
		}
		dc := q.stage(st, k, q.cond(st, dl.blk), dl)
		if dc.unk != "" {
			return dc
		}
		if dc.sel == 0 {
			continue
		}
		if dc.bad != "" {
			out.bad, out.at = "deletion of "+dc.src+": "+dc.bad, dc.at
		}
		for _, u := range ins {
			if reachesBlock(dl.blk, u.blk, q.parent[st]) {
				return &qcoll{unk: "deletion before insertion", src: q.key(v), expr: "·", at: dl}
			}
		}
		name := "del{" + dc.src + "|" + q.m.canon(dc.sel) + "}" + dc.expr
		// only reached under a condition
		o := q.reach(q.parent[st])[st.head]
		f := q.m.atom(name)
		out.sel = q.m.and(out.sel, q.m.not(q.m.and(f, o)))
	}
	return out
}

// reachesBlock: to is reachable from `from` without starting another round of l.
func reachesBlock(from, to *Block, l *Loop) bool {
	seen := map[*Block]bool{}
	var f func(b *Block) bool
	f = func(b *Block) bool {
		for _, s := range b.succs {
			if s == to {
				return true
			}
			if seen[s] || (l != nil && (s == l.head || !l.blocks[s])) {
				continue
			}
			seen[s] = true
			if f(s) {
				return true
			}
		}
		return false
	}
	return f(from)
}

// pretty: a readable form of a selection.
func (q *ql) pretty(f int) string { return q.m.canon(f) }
