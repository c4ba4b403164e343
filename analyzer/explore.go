package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// Summaries of the handlers of the app: for one kind of event, the constant parts of the event are propagated
// through the flattened handler; what is left are guarded updates of the app's fields, each guard a conjunction
// of linear inequalities over the fields and of opaque conditions.

// lin: an integer, linear in named quantities.
type lin struct {
	m map[string]int64
	c int64
}

func (l *lin) String() string {
	ks := make([]string, 0, len(l.m))
	for k, v := range l.m {
		if v != 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var sb strings.Builder
	for i, k := range ks {
		v := l.m[k]
		switch {
		case v == 1 && i > 0:
			sb.WriteString("+")
		case v == 1:
		case v == -1:
			sb.WriteString("-")
		case v > 0 && i > 0:
			fmt.Fprintf(&sb, "+%d*", v)
		default:
			fmt.Fprintf(&sb, "%d*", v)
		}
		sb.WriteString(k)
	}
	if len(ks) == 0 {
		return strconv.FormatInt(l.c, 10)
	}
	if l.c != 0 {
		fmt.Fprintf(&sb, "%+d", l.c)
	}
	return sb.String()
}

func linConst(c int64) *lin { return &lin{m: map[string]int64{}, c: c} }
func linAtom(s string) *lin { return &lin{m: map[string]int64{s: 1}} }

// linAdd: a + k*b
func linAdd(a, b *lin, k int64) *lin {
	out := &lin{m: map[string]int64{}, c: a.c + k*b.c}
	for x, v := range a.m {
		out.m[x] += v
	}
	for x, v := range b.m {
		out.m[x] += k * v
	}
	for x, v := range out.m {
		if v == 0 {
			delete(out.m, x)
		}
	}
	return out
}

// linMul: the product, in products of two quantities.
func linMul(a, b *lin) *lin {
	out := linAdd(linAdd(linConst(a.c*b.c), &lin{m: a.m}, b.c), &lin{m: b.m}, a.c)
	for x, v := range a.m {
		for y, w := range b.m {
			p, q := x, y
			if q < p {
				p, q = q, p
			}
			out = linAdd(out, linAtom(p+"*"+q), v*w)
		}
	}
	return out
}

func (l *lin) isConst() (int64, bool) { return l.c, len(l.m) == 0 }

// infeasible: no numbers satisfy all of facts >= 0 (elimination of one quantity after the other).
func infeasible(facts []*lin) bool {
	cur := facts
	for {
		var next []*lin
		name := ""
		seen := map[string]bool{}
		for _, f := range cur {
			if len(f.m) == 0 {
				if f.c < 0 {
					return true
				}
				continue
			}
			if k := f.String(); !seen[k] {
				seen[k] = true
				next = append(next, f)
			}
			for k := range f.m {
				if name == "" || k < name {
					name = k
				}
			}
		}
		if name == "" || len(next) > 400 {
			return false
		}
		var out, pos, neg []*lin
		for _, f := range next {
			switch v := f.m[name]; {
			case v > 0:
				pos = append(pos, f)
			case v < 0:
				neg = append(neg, f)
			default:
				out = append(out, f)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := p.m[name], -n.m[name]
				x := linAdd(linConst(0), p, b)
				out = append(out, linAdd(x, n, a))
			}
		}
		cur = out
	}
}

// implies: facts force l >= 0.
func implies(facts []*lin, l *lin) bool {
	return infeasible(append(append([]*lin{}, facts...), linAdd(linConst(-1), l, -1)))
}

// xv: what is known about a value.
type xv struct {
	s   string
	l   *lin           // integers
	cv  constant.Value // constants
	tup []xv           // tuples, composed values
	cmp *xcmp          // conditions
	err int            // errors: 1 nil, 2 not nil
	sl  *xslice

	whole bool // structures
}

// xslice: part of a list.
type xslice struct {
	base   string
	lo, hi *lin
}

// xcmp: l >= 0, l == 0, or an opaque condition.
type xcmp struct {
	kind string // "ge", "eq", "atom"
	l    *lin
	s    string
	neg  bool
}

func (c *xcmp) String() string {
	n := ""
	if c.neg {
		n = "!"
	}
	switch c.kind {
	case "ge":
		return n + "(" + c.l.String() + ">=0)"
	case "eq":
		return n + "(" + c.l.String() + "==0)"
	}
	return n + c.s
}

func xatom(s string) xv { return xv{s: s} }
func xint(l *lin) xv {
	v := xv{s: l.String(), l: l}
	if k, ok := l.isConst(); ok {
		v.cv = constant.MakeInt64(k)
	}
	return v
}
func xconst(cv constant.Value) xv {
	if cv == nil {
		return xv{s: "nil", err: 1}
	}
	switch cv.Kind() {
	case constant.Int:
		if k, ok := constant.Int64Val(cv); ok {
			return xint(linConst(k))
		}
	case constant.Bool:
		return xbool(constant.BoolVal(cv))
	}
	return xv{s: cv.ExactString(), cv: cv}
}
func xbool(b bool) xv {
	if b {
		return xv{s: "true", cv: constant.MakeBool(true)}
	}
	return xv{s: "false", cv: constant.MakeBool(false)}
}
func xcond(c *xcmp) xv {
	if c.kind != "atom" {
		if k, ok := c.l.isConst(); ok {
			r := k >= 0
			if c.kind == "eq" {
				r = k == 0
			}
			return xbool(r != c.neg)
		}
	}
	return xv{s: c.String(), cmp: c}
}

// xev: an effect.
type xev struct {
	kind string
	args []xv
	at   *Value
	n    int // number of changes of evidence and settings before
	pos  int // number of visible changes before
	rep  bool
}

type xstate struct {
	env    map[*Value]xv
	mem    map[string]xv
	conds  map[string]bool
	facts  []*lin
	evs    []xev
	inputs int // changes of evidence and settings
	shown  int // changes of what is shown
	moved  int // shown, at the last move of a node
	clear  int // shown, when the canvas was last cleared
	drawn  int // shown, when the nodes were last drawn
	text   int // shown, of the text on the screen
	loops  map[*Loop]xloop
	opaque bool // passed a condition that is not understood
}

type xloop struct{ visits, evs int }

func (s *xstate) clone() *xstate {
	n := *s
	n.env = make(map[*Value]xv, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	n.mem = make(map[string]xv, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.conds = make(map[string]bool, len(s.conds))
	for k, v := range s.conds {
		n.conds[k] = v
	}
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.evs = s.evs[:len(s.evs):len(s.evs)]
	n.loops = make(map[*Loop]xloop, len(s.loops))
	for k, v := range s.loops {
		n.loops[k] = v
	}
	return &n
}

type xout struct {
	st   *xstate
	rets []xv
	bad  *Value // panic
}

type explorer struct {
	c      *Ctx
	fl     *Flat
	recv   string
	known  func(x *explorer, st *xstate, v *Value, args []xv) (xv, bool) // results of calls
	inits  map[string]xv                                                 // initial contents
	facts  []*lin
	assume map[string]bool
	inner  map[*Block]*Loop
	outer  map[*Loop]*Loop
	draw   map[*Loop]bool
	clear  map[*Loop]bool
	outs   []xout
	why    string
	steps  int
	seen   map[string]bool
	live   *Sim
	events func(x *explorer, st *xstate, v *Value, args []xv) (string, bool)
	inLoop []string // opaque conditions that are kept inside loops
	drawn  []xdraw
	mods   map[string][2]*lin // remainders
	lower  map[string]int64   // loop counters: least value
	cont   map[*Loop]*xcmp    // conditions to continue loops
	texts  map[*Value]xv
	lins   map[string]*lin // the numbers used as indices
	calls  bool            // handlers may or may not be called
	onCopy func(st *xstate, v *Value, args []xv)
	onSet  func(st *xstate, v *Value, loc string, val xv)
	onMap  func(st *xstate, v *Value, m, key, val xv)
	leave  map[*Loop]bool // loops that are left under a condition that is not kept
}

// xdraw: a node is drawn.
type xdraw struct {
	xev
	sel, state, marg, evid string
}

func newExplorer(c *Ctx, fl *Flat) *explorer {
	x := &explorer{c: c, fl: fl, inits: map[string]xv{}, assume: map[string]bool{}, draw: map[*Loop]bool{}, clear: map[*Loop]bool{}, mods: map[string][2]*lin{}, lower: map[string]int64{}, cont: map[*Loop]*xcmp{}, leave: map[*Loop]bool{}}
	x.live = &Sim{fl: fl}
	x.inner = map[*Block]*Loop{}
	x.outer = map[*Loop]*Loop{}
	ls := fl.loops()
	for _, l := range ls {
		for b := range l.blocks {
			if o := x.inner[b]; o == nil || len(l.blocks) < len(o.blocks) {
				x.inner[b] = l
			}
		}
	}
	for _, l := range ls {
		for _, o := range ls {
			if o != l && o.blocks[l.head] && (x.outer[l] == nil || len(o.blocks) < len(x.outer[l].blocks)) {
				x.outer[l] = o
			}
		}
	}
	return x
}

func (x *explorer) outermost(l *Loop) *Loop {
	for l != nil && x.outer[l] != nil {
		l = x.outer[l]
	}
	return l
}

func (x *explorer) run() {
	x.once()
	if n := len(x.leave); n > 0 {
		x.once()
	}
}

func (x *explorer) once() {
	x.outs, x.why, x.steps, x.seen, x.drawn = nil, "", 0, map[string]bool{}, nil
	st := &xstate{env: map[*Value]xv{}, mem: map[string]xv{}, conds: map[string]bool{}, loops: map[*Loop]xloop{}, clear: -1, drawn: -1}
	st.facts = append(st.facts, x.facts...)
	for k, v := range x.inits {
		st.mem[k] = v
	}
	x.block(st, x.fl.entry, nil, 0)
}

func (x *explorer) fail(why string) {
	if x.why == "" {
		x.why = why
	}
}

func (x *explorer) key(st *xstate, b *Block) string {
	var ks []string
	for v, t := range st.env {
		if x.live.liveIn(v, b) {
			ks = append(ks, fmt.Sprintf("%d=%s", v.id, t.s))
		}
	}
	for k, t := range st.mem {
		ks = append(ks, k+"="+t.s)
	}
	for k, t := range st.conds {
		ks = append(ks, fmt.Sprintf("%s?%v", k, t))
	}
	for _, f := range st.facts {
		ks = append(ks, "f"+f.String())
	}
	for l, n := range st.loops {
		ks = append(ks, fmt.Sprintf("l%d=%d", l.head.id, n.visits))
	}
	sort.Strings(ks)
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d %d %d %d %d %d %d %v;", b.id, st.inputs, st.shown, st.moved, st.clear, st.drawn, st.text, st.opaque)
	for _, e := range st.evs {
		sb.WriteString(e.kind)
		for _, a := range e.args {
			sb.WriteString("," + a.s)
		}
		fmt.Fprintf(&sb, "@%d;", e.n)
	}
	sb.WriteString(strings.Join(ks, ";"))
	return sb.String()
}

// block executes b, coming from another block.
func (x *explorer) block(st *xstate, b, from *Block, edge int) {
	for {
		x.steps++
		if x.steps > 60000 {
			x.fail("too many paths")
			return
		}
		if from != nil {
			// loops that are left
			for l := range st.loops {
				if !l.blocks[b] {
					delete(st.loops, l)
				}
			}
		}
		if l := x.inner[b]; l != nil && l.head == b {
			ls, again := st.loops[l]
			if again && from != nil && l.blocks[from] {
				if len(st.evs) == ls.evs || ls.visits >= 2 {
					return
				}
			}
			if x.draw[l] {
				st.drawn = st.shown
			}
			if x.clear[l] {
				st.clear = st.shown
			}
			ls.visits++
			ls.evs = len(st.evs)
			st.loops[l] = ls
			x.havoc(st, l)
		} else {
			x.phis(st, b, from, edge)
		}
		if len(b.preds) > 1 {
			k := x.key(st, b)
			if x.seen[k] {
				return
			}
			x.seen[k] = true
		}
		var last *Value
		for _, v := range b.instrs {
			switch v.op {
			case OpPhi, OpParam, OpConst, OpGlobal, OpFunc, OpClosure:
				continue
			}
			if v.op == OpIf || v.op == OpJump || v.op == OpReturn || v.op == OpPanic {
				last = v
				break
			}
			st.env[v] = x.eval(st, v)
			if x.texts != nil {
				x.texts[v] = st.env[v]
			}
			if isNoReturn(v.name) && v.op == OpCall {
				return
			}
		}
		if last == nil {
			if len(b.succs) == 1 {
				from, edge, b = b, 0, b.succs[0]
				continue
			}
			return
		}
		switch last.op {
		case OpReturn:
			var rets []xv
			for _, a := range last.args {
				rets = append(rets, x.get(st, a))
			}
			x.outs = append(x.outs, xout{st: st, rets: rets})
			return
		case OpPanic:
			x.outs = append(x.outs, xout{st: st, bad: last})
			return
		case OpJump:
			if len(b.succs) == 0 {
				return
			}
			from, edge, b = b, 0, b.succs[0]
			continue
		case OpIf:
			c := x.get(st, last.args[0])
			if last.args[0].op == OpNonDet {
				c = xatom("?")
			}
			if c.cv != nil && c.cv.Kind() == constant.Bool {
				i := 1
				if constant.BoolVal(c.cv) {
					i = 0
				}
				from, edge, b = b, i, b.succs[i]
				continue
			}
			if l := x.inner[b]; l != nil && l.head == b && c.cmp != nil && len(b.succs) == 2 {
				cm := *c.cmp
				if !l.blocks[b.succs[0]] {
					cm.neg = !cm.neg
				}
				x.cont[l] = &cm
			}
			vague := x.vague(c)
			if last.args[0].op == OpNonDet {
				vague = !x.calls
			}
			for _, br := range x.split(st, c, b) {
				i := 1
				if br.taken {
					i = 0
				}
				// a condition that is not understood decides how it goes on
				if l := x.inner[b]; l == nil && vague {
					br.st.opaque = true
				} else if l != nil && l.head != b && !l.blocks[b.succs[i]] && !x.kept(c) {
					br.st.opaque = true
					x.leave[l] = true
				} else if l != nil && l.head == b && !l.blocks[b.succs[i]] && x.leave[l] {
					br.st.opaque = true
				}
				x.block(br.st, b.succs[i], b, i)
				if x.why != "" {
					return
				}
			}
			return
		}
		return
	}
}

// vague: a condition over quantities without a meaning for the app.
func (x *explorer) vague(c xv) bool {
	odd := func(s string) bool {
		if strings.Contains(s, "?") {
			return true
		}
		if x.kept(xatom(s)) {
			return false
		}
		for _, p := range []string{x.recv + ".", "len(" + x.recv + ".", "mod(" + x.recv + ".", "φ", "mouse", "inner", "scroll"} {
			if strings.HasPrefix(s, p) {
				return false
			}
		}
		if strings.HasPrefix(s, `eq("",`) && strings.HasSuffix(s, ".info)") {
			return false
		}
		for _, p := range []string{"has(" + x.recv + ".", "eq(" + x.recv + ".", `eq("",` + x.recv + "."} {
			if strings.HasPrefix(s, p) {
				return false
			}
		}
		if strings.HasPrefix(s, "eq(") && (strings.HasSuffix(s, ",nil)") || strings.HasPrefix(s, "eq(nil,")) {
			return false
		}
		return true
	}
	if c.cmp == nil || c.cmp.kind == "atom" {
		s := strings.TrimPrefix(c.s, "!")
		return odd(s)
	}
	for k := range c.cmp.l.m {
		if odd(k) {
			return true
		}
	}
	return false
}

func (x *explorer) kept(c xv) bool {
	for _, k := range x.inLoop {
		if strings.Contains(c.s, k) {
			return true
		}
	}
	return false
}

type xbranch struct {
	st    *xstate
	taken bool
}

func (x *explorer) split(st *xstate, c xv, b *Block) []xbranch {
	cm := c.cmp
	if cm == nil {
		s := c.s
		neg := strings.HasPrefix(s, "!")
		cm = &xcmp{kind: "atom", s: strings.TrimPrefix(s, "!"), neg: neg}
	}
	in := x.inner[b] != nil
	keep := !in || x.inner[b].head == b
	if in && x.kept(c) {
		keep = true
	}
	var out []xbranch
	switch cm.kind {
	case "atom":
		if r, ok := x.assume[cm.s]; ok {
			return []xbranch{{st, r != cm.neg}}
		}
		if r, ok := st.conds[cm.s]; ok {
			return []xbranch{{st, r != cm.neg}}
		}
		for _, r := range []bool{true, false} {
			n := st.clone()
			if keep {
				n.conds[cm.s] = r
			}
			out = append(out, xbranch{n, r != cm.neg})
		}
		return out
	case "ge":
		for _, r := range []bool{true, false} {
			f := cm.l
			if !r {
				f = linAdd(linConst(-1), cm.l, -1)
			}
			if n := x.with(st, f, keep); n != nil {
				out = append(out, xbranch{n, r != cm.neg})
			}
		}
		return out
	default: // eq
		up := linAdd(linConst(-1), cm.l, 1)
		down := linAdd(linConst(-1), cm.l, -1)
		if n := x.with(st, cm.l, keep); n != nil {
			if n = x.with(n, linAdd(linConst(0), cm.l, -1), keep); n != nil {
				out = append(out, xbranch{n, !cm.neg})
			}
		}
		for _, f := range []*lin{up, down} {
			if n := x.with(st, f, keep); n != nil {
				out = append(out, xbranch{n, cm.neg})
				if !keep {
					break
				}
			}
		}
		return out
	}
}

func (x *explorer) with(st *xstate, f *lin, keep bool) *xstate {
	facts := append(append([]*lin{}, st.facts...), f)
	// quantities that are never negative
	if infeasible(x.bounded(facts)) {
		return nil
	}
	n := st.clone()
	if keep {
		n.facts = facts
	}
	return n
}

// bounded adds what is always true of the quantities in facts.
func (x *explorer) bounded(facts []*lin, more ...*lin) []*lin {
	out := append([]*lin{}, facts...)
	seen := map[string]bool{}
	for _, f := range append(append([]*lin{}, facts...), more...) {
		for k := range f.m {
			if seen[k] {
				continue
			}
			seen[k] = true
			if strings.HasPrefix(k, "len(") {
				out = append(out, linAtom(k))
			}
			if n, ok := x.lower[k]; ok {
				out = append(out, linAdd(linConst(-n), linAtom(k), 1))
			}
		}
	}
	return out
}

func (x *explorer) phis(st *xstate, b, from *Block, edge int) {
	if from == nil {
		return
	}
	pi := -1
	// which of the edges from -> b this is
	n := 0
	for i := 0; i < edge; i++ {
		if from.succs[i] == b {
			n++
		}
	}
	for i, p := range b.preds {
		if p == from {
			if n == 0 {
				pi = i
				break
			}
			n--
		}
	}
	if pi < 0 {
		for i, p := range b.preds {
			if p == from {
				pi = i
			}
		}
	}
	vals := map[*Value]xv{}
	for _, v := range b.instrs {
		if v.op == OpPhi && pi >= 0 && pi < len(v.args) {
			vals[v] = x.get(st, v.args[pi])
		}
	}
	for k, v := range vals {
		st.env[k] = v
	}
}

func (x *explorer) havoc(st *xstate, l *Loop) {
	for _, v := range l.head.instrs {
		if v.op == OpPhi {
			s := fmt.Sprintf("φ%d", v.id)
			t := xatom(s)
			if isInt(v.typ) {
				t = xint(linAtom(s))
				x.counter(v, l, s)
			}
			st.env[v] = t
		}
	}
	for k := range st.conds {
		if x.mentions(k, l) {
			delete(st.conds, k)
		}
	}
	var facts []*lin
	for _, f := range st.facts {
		if !x.mentions(f.String(), l) {
			facts = append(facts, f)
		}
	}
	st.facts = facts
	for b := range l.blocks {
		for _, v := range b.instrs {
			if v.op != OpStore {
				continue
			}
			a := v.args[0]
			path := ""
			for a.op == OpFieldAddr {
				path = "." + fieldName(a) + path
				a = a.args[0]
			}
			var loc string
			switch a.op {
			case OpParam:
				loc = a.name + path
			case OpAlloc:
				loc = fmt.Sprintf("&%d", a.id) + path
			default:
				continue
			}
			for k := range st.mem {
				if k == loc || strings.HasPrefix(k, loc+".") || strings.HasPrefix(k, loc+"[") {
					delete(st.mem, k)
				}
			}
			st.mem[loc] = x.unknown(v.args[1].typ, fmt.Sprintf("φ%d@%s", l.head.id, loc))
		}
	}
}

// counter: a loop counter that starts at a constant and only grows.
func (x *explorer) counter(v *Value, l *Loop, s string) {
	least, ok := int64(0), false
	for i, p := range l.head.preds {
		if i >= len(v.args) {
			return
		}
		a := v.args[i]
		if l.blocks[p] {
			if a != v && !(a.op == OpBin && a.tok == token.ADD && a.args[0] == v && a.args[1].op == OpConst && a.args[1].cval != nil && constant.Sign(a.args[1].cval) >= 0) {
				return
			}
			continue
		}
		if a.op != OpConst || a.cval == nil {
			return
		}
		k, exact := constant.Int64Val(a.cval)
		if !exact || ok && k != least {
			return
		}
		least, ok = k, true
	}
	if ok {
		x.lower[s] = least
	}
}

// full: idx runs through all positions of list, from the first to the last; 1 yes, 0 no, -1 not known.
func (x *explorer) full(l *Loop, idx *lin, list string) int {
	cm := x.cont[l]
	if cm == nil || cm.kind != "ge" || len(idx.m) != 1 {
		return -1
	}
	phi := ""
	for k, v := range idx.m {
		if v != 1 {
			return -1
		}
		phi = k
	}
	for _, v := range l.head.instrs {
		if v.op != OpPhi || fmt.Sprintf("φ%d", v.id) != phi {
			continue
		}
		for i, p := range l.head.preds {
			a := v.args[i]
			if l.blocks[p] {
				if !(a.op == OpBin && a.tok == token.ADD && a.args[0] == v && a.args[1].op == OpConst && a.args[1].cval != nil) {
					return -1
				}
				if k, ok := constant.Int64Val(a.args[1].cval); !ok || k != 1 {
					return 0
				}
			}
		}
		least, ok := x.lower[phi]
		if !ok {
			return -1
		}
		if least+idx.c != 0 {
			return 0
		}
		c := cm.l
		if cm.neg {
			c = linAdd(linConst(-1), cm.l, -1)
		}
		want := linAdd(linAdd(linConst(-1), linAtom("len("+list+")"), 1), idx, -1)
		if c.String() == want.String() {
			return 1
		}
		if _, ok := linAdd(c, want, -1).isConst(); ok {
			return 0
		}
		return -1
	}
	return -1
}

func (x *explorer) mentions(k string, l *Loop) bool {
	for b := range l.blocks {
		for _, v := range b.instrs {
			if v.op == OpPhi && strings.Contains(k, fmt.Sprintf("φ%d", v.id)) {
				return true
			}
		}
	}
	return false
}

func (x *explorer) unknown(t types.Type, s string) xv {
	if isInt(t) {
		return xint(linAtom(s))
	}
	return xatom(s)
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *explorer) get(st *xstate, v *Value) xv {
	if v == nil {
		return xatom("")
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	switch v.op {
	case OpConst:
		if v.cval == nil {
			switch u := v.typ.Underlying().(type) {
			case *types.Basic:
				switch {
				case u.Info()&types.IsInteger != 0:
					return xint(linConst(0))
				case u.Info()&types.IsString != 0:
					return xconst(constant.MakeString(""))
				case u.Info()&types.IsBoolean != 0:
					return xbool(false)
				}
			}
		}
		return xconst(v.cval)
	case OpParam:
		if t, ok := x.inits[v.name]; ok {
			return t
		}
		return x.unknown(v.typ, v.name)
	case OpGlobal:
		return xatom("global:" + v.name)
	case OpFunc, OpClosure:
		if v.fn != nil {
			return xatom("func:" + v.fn.Name())
		}
	}
	return x.unknown(v.typ, fmt.Sprintf("?%d", v.id))
}

func (x *explorer) load(st *xstate, loc string, t types.Type) xv {
	if v, ok := st.mem[loc]; ok {
		return v
	}
	for i := len(loc) - 1; i > 0; i-- {
		if loc[i] == '.' || loc[i] == '[' {
			if v, ok := st.mem[loc[:i]]; ok && v.s != loc[:i] && isStruct(v) {
				if !strings.ContainsAny(v.s, ".[({&?") {
					return x.unknown(t, v.s+loc[i:]) // a parameter
				}
				return x.unknown(t, "?"+loc)
			}
		}
	}
	return x.unknown(t, loc)
}

// isStruct: a whole structure was stored, not a reference.
func isStruct(v xv) bool { return v.whole }

func (x *explorer) eval(st *xstate, v *Value) xv {
	var args []xv
	for _, a := range v.args {
		args = append(args, x.get(st, a))
	}
	switch v.op {
	case OpFieldAddr, OpField:
		if len(args[0].tup) > v.idx && v.op == OpField {
			return args[0].tup[v.idx]
		}
		s := args[0].s + "." + fieldName(v)
		if v.op == OpField {
			return x.load(st, s, v.typ)
		}
		return xatom(s)
	case OpIndexAddr, OpIndex:
		if k, ok := constInt64(args[1]); ok && v.op == OpIndex && int(k) < len(args[0].tup) && k >= 0 {
			return args[0].tup[k]
		}
		if v.op == OpIndex && args[0].cv != nil && args[0].cv.Kind() == constant.String {
			if k, ok := constInt64(args[1]); ok {
				if s := constant.StringVal(args[0].cv); k >= 0 && int(k) < len(s) {
					return xint(linConst(int64(s[k])))
				}
			}
		}
		s := args[0].s + "[" + args[1].s + "]"
		if sl := args[0].sl; sl != nil && args[1].l != nil {
			at := linAdd(args[1].l, sl.lo, 1)
			if x.lins != nil {
				x.lins[at.String()] = at
			}
			s = sl.base + "[" + at.String() + "]"
		} else if args[1].l != nil && x.lins != nil {
			x.lins[args[1].s] = args[1].l
		}
		if v.op == OpIndex {
			return x.load(st, s, v.typ)
		}
		return xatom(s)
	case OpLoad:
		return x.load(st, args[0].s, v.typ)
	case OpStore:
		if x.onSet != nil {
			x.onSet(st, v, args[0].s, args[1])
		}
		x.store(st, v, args[0].s, args[1])
		return xv{}
	case OpAlloc:
		loc := fmt.Sprintf("&%d", v.id)
		for k := range st.mem {
			if k == loc || strings.HasPrefix(k, loc+".") || strings.HasPrefix(k, loc+"[") {
				delete(st.mem, k)
			}
		}
		return xatom(loc)
	case OpChangeType, OpMakeIface:
		return args[0]
	case OpTypeAssert:
		if !v.commaOk {
			return args[0]
		}
	case OpConvert:
		return x.convert(v, args[0])
	case OpTuple, OpStruct:
		var ss []string
		for _, a := range args {
			ss = append(ss, a.s)
		}
		return xv{s: "{" + strings.Join(ss, ",") + "}", tup: args}
	case OpExtract:
		if v.idx < len(args[0].tup) {
			return args[0].tup[v.idx]
		}
		return x.unknown(v.typ, fmt.Sprintf("%s#%d", args[0].s, v.idx))
	case OpUn:
		if v.tok == token.NOT {
			return xnot(args[0])
		}
		if v.tok == token.SUB && args[0].l != nil {
			return xint(linAdd(linConst(0), args[0].l, -1))
		}
	case OpBin:
		return x.bin(v, args)
	case OpBuiltin:
		switch v.name {
		case "len":
			if args[0].cv != nil && args[0].cv.Kind() == constant.String {
				return xint(linConst(int64(len(constant.StringVal(args[0].cv)))))
			}
			if sl := args[0].sl; sl != nil {
				return xint(linAdd(sl.hi, sl.lo, -1))
			}
			return xint(linAtom("len(" + args[0].s + ")"))
		case "delete":
			st.inputs++
			st.shown++
			x.emit(st, "delete", v, args)
			return xv{}
		case "copy":
			if x.onCopy != nil {
				x.onCopy(st, v, args)
			}
		case "append":
			if x.texts != nil && len(args) == 2 {
				a := args[0].s
				if mk := v.args[0]; mk.op == OpMakeSlice {
					if n, ok := constInt64(x.get(st, mk.args[0])); ok && n == 0 {
						a = ""
					}
				}
				if strings.HasPrefix(a, "slice(&") || a == "nil" {
					a = strings.Join(elems(st.variadic(args[0])), ",")
					if strings.HasPrefix(a, "slice(") {
						a = ""
					}
				}
				a = strings.TrimSuffix(strings.TrimPrefix(a, "cat("), ")cat")
				if a != "" {
					a += ";"
				}
				return xatom("cat(" + a + args[1].s + ")cat")
			}
		case "min", "max":
			var ss []string
			for _, a := range args {
				ss = append(ss, a.s)
			}
			sort.Strings(ss)
			return x.unknown(v.typ, v.name+"("+strings.Join(ss, ",")+")")
		}
	case OpLookup:
		val := fmt.Sprintf("%s[%s]", args[0].s, args[1].s)
		if args[0].s == x.recv+".evidence" {
			val = fmt.Sprintf("%s@%d[%s]", args[0].s, st.inputs, args[1].s)
		}
		if v.commaOk {
			return xv{s: val, tup: []xv{x.unknown(mapElem(v), val), {s: "has(" + val + ")", cmp: &xcmp{kind: "atom", s: "has(" + val + ")"}}}}
		}
		return x.unknown(v.typ, val)
	case OpMapUpdate:
		if x.onMap != nil {
			x.onMap(st, v, args[0], args[1], args[2])
		}
		if args[0].s == x.recv+".evidence" {
			st.inputs++
			st.shown++
			x.emit(st, "set", v, args)
		}
		return xv{}
	case OpCall:
		return x.call(st, v, args)
	case OpSlice:
		var ss []string
		for _, a := range args {
			ss = append(ss, a.s)
		}
		t := xatom("slice(" + strings.Join(ss, ",") + ")")
		if args[0].cv != nil && args[0].cv.Kind() == constant.String {
			s := constant.StringVal(args[0].cv)
			lo, hi, ok := int64(0), int64(len(s)), true
			if len(args) > 1 && v.args[1] != nil {
				if lo, ok = constInt64(args[1]); !ok {
					return t
				}
			}
			if len(args) > 2 && v.args[2] != nil {
				if hi, ok = constInt64(args[2]); !ok {
					return t
				}
			}
			if lo >= 0 && lo <= hi && hi <= int64(len(s)) {
				return xconst(constant.MakeString(s[lo:hi]))
			}
			return t
		}
		if _, ok := v.args[0].typ.Underlying().(*types.Slice); ok {
			sl := &xslice{base: args[0].s, lo: linConst(0), hi: linAtom("len(" + args[0].s + ")")}
			if len(args) > 1 && v.args[1] != nil {
				sl.lo = args[1].l
			}
			if len(args) > 2 && v.args[2] != nil {
				sl.hi = args[2].l
			}
			if o := args[0].sl; o != nil {
				sl.base = o.base
				if sl.lo != nil {
					sl.lo = linAdd(o.lo, sl.lo, 1)
				}
				if len(args) > 2 && v.args[2] != nil {
					if sl.hi != nil {
						sl.hi = linAdd(o.lo, sl.hi, 1)
					}
				} else {
					sl.hi = o.hi
				}
			}
			if sl.lo != nil && sl.hi != nil {
				t.sl = sl
			}
		}
		return t
	}
	return x.unknown(v.typ, fmt.Sprintf("?%d", v.id))
}

func mapElem(v *Value) types.Type {
	if m, ok := v.args[0].typ.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return nil
}

func constInt64(v xv) (int64, bool) {
	if v.l == nil {
		return 0, false
	}
	return v.l.isConst()
}

func xnot(a xv) xv {
	if a.cv != nil && a.cv.Kind() == constant.Bool {
		return xbool(!constant.BoolVal(a.cv))
	}
	if a.cmp != nil {
		c := *a.cmp
		c.neg = !c.neg
		return xcond(&c)
	}
	if strings.HasPrefix(a.s, "!") {
		return xatom(a.s[1:])
	}
	return xatom("!" + a.s)
}

func (x *explorer) emit(st *xstate, kind string, at *Value, args []xv) {
	st.evs = append(st.evs, xev{kind: kind, args: args, at: at, n: st.inputs, pos: st.shown, rep: x.repeated(st)})
}

func (x *explorer) repeated(st *xstate) bool {
	for _, l := range st.loops {
		if l.visits > 1 {
			return true
		}
	}
	return false
}

func (x *explorer) store(st *xstate, v *Value, loc string, val xv) {
	old, ok := st.mem[loc]
	if !ok {
		old = xatom(loc)
	}
	if old.s == val.s {
		return
	}
	// a whole structure replaces its parts
	for k := range st.mem {
		if strings.HasPrefix(k, loc+".") || strings.HasPrefix(k, loc+"[") {
			delete(st.mem, k)
		}
	}
	if v.op == OpStore {
		if u, ok := v.args[1].typ.Underlying().(*types.Struct); ok {
			val.whole = true
			st.parts(loc, u, val)
		}
	}
	st.mem[loc] = val
	if strings.HasPrefix(loc, "&") {
		return
	}
	switch field := strings.TrimPrefix(loc, x.recv); {
	case field == ".selectedNode" || field == ".selectedState" || field == ".marginals":
		st.shown++
	case field == ".ignorePolicies" || field == ".evidence":
		st.inputs++
	case strings.Contains(field, ".bounds"):
		st.shown++
		st.moved = st.shown
	}
	if isTracked(strings.TrimPrefix(loc, x.recv)) {
		x.emit(st, "store", v, []xv{xatom(loc), val})
	}
}

// parts: a structure stored at loc.
func (st *xstate) parts(loc string, u *types.Struct, val xv) {
	for i := 0; i < u.NumFields() && len(val.tup) == u.NumFields(); i++ {
		f, k := val.tup[i], loc+"."+u.Field(i).Name()
		if w, ok := u.Field(i).Type().Underlying().(*types.Struct); ok {
			f.whole = true
			st.parts(k, w, f)
		}
		st.mem[k] = f
	}
}

func isTracked(field string) bool {
	switch field {
	case ".selectedNode", ".selectedState", ".marginals", ".ignorePolicies", ".evidence", ".network", ".nodes", ".nodesByName":
		return true
	}
	return strings.HasPrefix(field, ".nodes[") || strings.HasPrefix(field, ".network.")
}

func (x *explorer) convert(v *Value, a xv) xv {
	from, to := v.args[0].typ, v.typ
	if isInt(from) && isInt(to) {
		return a
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && isInt(from) {
		if k, ok := constInt64(a); ok {
			return xconst(constant.MakeString(string(rune(k))))
		}
	}
	if bf, ok := from.Underlying().(*types.Basic); ok && bf.Info()&types.IsString != 0 {
		if bt, ok := to.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return a
		}
	}
	return x.unknown(v.typ, "conv("+a.s+")")
}

func (x *explorer) bin(v *Value, args []xv) xv {
	a, b := args[0], args[1]
	neg := false
	switch v.tok {
	case token.EQL, token.NEQ:
		neg = v.tok == token.NEQ
		if a.l != nil && b.l != nil {
			d := linAdd(a.l, b.l, -1)
			if strings.HasPrefix(d.String(), "-") { // one sign
				d = linAdd(linConst(0), d, -1)
			}
			return xcond(&xcmp{kind: "eq", l: d, neg: neg})
		}
		if a.s == b.s && (a.cv != nil || !strings.Contains(a.s, "?")) {
			return xbool(!neg)
		}
		if a.cv != nil && b.cv != nil && a.cv.Kind() == b.cv.Kind() {
			return xbool(constant.Compare(a.cv, token.EQL, b.cv) != neg)
		}
		if a.err != 0 && b.err != 0 && (a.err == 1 || b.err == 1) {
			return xbool((a.err == b.err) != neg)
		}
		for i := 0; i < 2; i++ {
			if a.cv != nil && a.cv.Kind() == constant.Bool {
				r := b
				if constant.BoolVal(a.cv) == neg {
					r = xnot(b)
				}
				return r
			}
			a, b = b, a
		}
		s, t := a.s, b.s
		if t < s {
			s, t = t, s
		}
		return xcond(&xcmp{kind: "atom", s: "eq(" + s + "," + t + ")", neg: neg})
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.l != nil && b.l != nil {
			var d *lin
			switch v.tok {
			case token.LSS:
				d = linAdd(linAdd(linConst(-1), b.l, 1), a.l, -1)
			case token.LEQ:
				d = linAdd(b.l, a.l, -1)
			case token.GTR:
				d = linAdd(linAdd(linConst(-1), a.l, 1), b.l, -1)
			case token.GEQ:
				d = linAdd(a.l, b.l, -1)
			}
			return xcond(&xcmp{kind: "ge", l: d})
		}
	case token.ADD:
		if a.l != nil && b.l != nil {
			return xint(linAdd(a.l, b.l, 1))
		}
		if a.cv != nil && b.cv != nil && a.cv.Kind() == constant.String && b.cv.Kind() == constant.String {
			return xconst(constant.MakeString(constant.StringVal(a.cv) + constant.StringVal(b.cv)))
		}
		return x.unknown(v.typ, "("+a.s+"+"+b.s+")")
	case token.SUB:
		if a.l != nil && b.l != nil {
			return xint(linAdd(a.l, b.l, -1))
		}
	case token.MUL:
		if a.l != nil && b.l != nil && x.texts != nil {
			return xint(linMul(a.l, b.l))
		}
		if k, ok := constInt64(a); ok && b.l != nil {
			return xint(linAdd(linConst(0), b.l, k))
		}
		if k, ok := constInt64(b); ok && a.l != nil {
			return xint(linAdd(linConst(0), a.l, k))
		}
	case token.QUO, token.REM:
		p, ok1 := constInt64(a)
		q, ok2 := constInt64(b)
		if ok1 && ok2 && q != 0 {
			if v.tok == token.QUO {
				return xint(linConst(p / q))
			}
			return xint(linConst(p % q))
		}
		if v.tok == token.REM {
			r := x.unknown(v.typ, "mod("+a.s+","+b.s+")")
			if a.l != nil && b.l != nil {
				x.mods[r.s] = [2]*lin{a.l, b.l}
			}
			return r
		}
		return x.unknown(v.typ, "div("+a.s+","+b.s+")")
	}
	return x.unknown(v.typ, fmt.Sprintf("(%s%s%s)", a.s, v.tok, b.s))
}

func (x *explorer) call(st *xstate, v *Value, args []xv) xv {
	if x.known != nil {
		if r, ok := x.known(x, st, v, args); ok {
			return r
		}
	}
	if v.name == "fmt.Sprintf" && len(args) == 2 {
		if s, ok := sprintf(append([]xv{args[0]}, st.variadic(args[1])...)); ok {
			return s
		}
	}
	if v.name == "path.Join" || v.name == "path/filepath.Join" {
		if vs := st.variadic(args[0]); allConst(vs) {
			var ss []string
			for _, a := range vs {
				ss = append(ss, constant.StringVal(a.cv))
			}
			return xconst(constant.MakeString(path.Join(ss...)))
		}
	}
	if r, ok := foldCall(v.name, args); ok {
		return r
	}
	if x.events != nil {
		if k, ok := x.events(x, st, v, args); ok {
			x.emit(st, k, v, args)
		}
	}
	var ss []string
	for _, a := range args {
		ss = append(ss, a.s)
	}
	s := v.name + "(" + strings.Join(ss, ",") + ")"
	if v.typ == nil {
		return xatom(s)
	}
	if tp, ok := v.typ.(*types.Tuple); ok {
		r := xv{s: s}
		for i := 0; i < tp.Len(); i++ {
			e := x.unknown(tp.At(i).Type(), fmt.Sprintf("%s#%d", s, i))
			r.tup = append(r.tup, e)
		}
		return r
	}
	return x.unknown(v.typ, s)
}

func elems(vs []xv) []string {
	var ss []string
	for _, v := range vs {
		ss = append(ss, v.s)
	}
	return ss
}

// variadic: the elements of a list of arguments.
func (st *xstate) variadic(l xv) []xv {
	if !strings.HasPrefix(l.s, "slice(&") {
		return []xv{l}
	}
	arr := l.s[6:strings.Index(l.s, ",")]
	var vals []xv
	for i := 0; ; i++ {
		m, ok := st.mem[fmt.Sprintf("%s[%d]", arr, i)]
		if !ok {
			return vals
		}
		vals = append(vals, m)
	}
}

func allConst(vs []xv) bool {
	for _, v := range vs {
		if v.cv == nil || v.cv.Kind() != constant.String {
			return false
		}
	}
	return len(vs) > 0
}

// sprintf: only %s and %v of texts, as a concatenation.
func sprintf(args []xv) (xv, bool) {
	if args[0].cv == nil || args[0].cv.Kind() != constant.String {
		return xv{}, false
	}
	f := strings.ReplaceAll(constant.StringVal(args[0].cv), "%v", "%s")
	parts := strings.Split(f, "%s")
	if strings.Contains(strings.Join(parts, ""), "%") || len(parts) != len(args) {
		return xv{}, false
	}
	if allConst(args[1:]) {
		s := parts[0]
		for i, a := range args[1:] {
			s += constant.StringVal(a.cv) + parts[i+1]
		}
		return xconst(constant.MakeString(s)), true
	}
	if len(parts) == 2 && parts[0] == "" {
		return xatom("(" + args[1].s + "+" + strconv.Quote(parts[1]) + ")"), true
	}
	return xv{}, false
}

// foldCall: functions of the standard library on constants.
func foldCall(name string, args []xv) (xv, bool) {
	str := func(i int) (string, bool) {
		if i < len(args) && args[i].cv != nil && args[i].cv.Kind() == constant.String {
			return constant.StringVal(args[i].cv), true
		}
		return "", false
	}
	num := func(i int) (rune, bool) {
		if i >= len(args) {
			return 0, false
		}
		k, ok := constInt64(args[i])
		return rune(k), ok
	}
	switch name {
	case "unicode.IsDigit", "unicode.IsNumber", "unicode.IsLetter", "unicode.IsSpace", "unicode.IsUpper", "unicode.IsLower":
		if r, ok := num(0); ok {
			f := map[string]func(rune) bool{"unicode.IsDigit": unicode.IsDigit, "unicode.IsNumber": unicode.IsNumber, "unicode.IsLetter": unicode.IsLetter, "unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower}[name]
			return xbool(f(r)), true
		}
	case "unicode.ToLower":
		if r, ok := num(0); ok {
			return xint(linConst(int64(unicode.ToLower(r)))), true
		}
	case "unicode.ToUpper":
		if r, ok := num(0); ok {
			return xint(linConst(int64(unicode.ToUpper(r)))), true
		}
	case "strings.ContainsRune":
		if s, ok := str(0); ok {
			if r, ok := num(1); ok {
				return xbool(strings.ContainsRune(s, r)), true
			}
		}
	case "strings.IndexRune":
		if s, ok := str(0); ok {
			if r, ok := num(1); ok {
				return xint(linConst(int64(strings.IndexRune(s, r)))), true
			}
		}
	case "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimRight", "strings.TrimLeft", "strings.Trim":
		if s, ok := str(0); ok {
			if t, ok := str(1); ok {
				f := map[string]func(s, t string) string{"TrimSuffix": strings.TrimSuffix, "TrimPrefix": strings.TrimPrefix, "TrimRight": strings.TrimRight, "TrimLeft": strings.TrimLeft, "Trim": strings.Trim}[name[len("strings."):]]
				return xconst(constant.MakeString(f(s, t))), true
			}
		}
	case "strings.CutSuffix":
		if s, ok := str(0); ok {
			if t, ok := str(1); ok {
				b, found := strings.CutSuffix(s, t)
				return xv{s: "cut(" + s + ")", tup: []xv{xconst(constant.MakeString(b)), xbool(found)}}, true
			}
		}
	case "strings.Cut":
		if s, ok := str(0); ok {
			if t, ok := str(1); ok {
				b, e, found := strings.Cut(s, t)
				return xv{s: "cut(" + s + ")", tup: []xv{xconst(constant.MakeString(b)), xconst(constant.MakeString(e)), xbool(found)}}, true
			}
		}
	case "strings.ReplaceAll", "strings.Replace":
		if s, ok := str(0); ok {
			if t, ok := str(1); ok {
				if u, ok := str(2); ok {
					n := int64(-1)
					if name == "strings.Replace" {
						if len(args) < 4 {
							break
						}
						if n, ok = constInt64(args[3]); !ok {
							break
						}
					}
					return xconst(constant.MakeString(strings.Replace(s, t, u, int(n)))), true
				}
			}
		}
	case "strings.LastIndex", "strings.Index", "strings.HasSuffix", "strings.HasPrefix":
		if s, ok := str(0); ok {
			if t, ok := str(1); ok {
				switch name {
				case "strings.LastIndex":
					return xint(linConst(int64(strings.LastIndex(s, t)))), true
				case "strings.Index":
					return xint(linConst(int64(strings.Index(s, t)))), true
				case "strings.HasSuffix":
					return xbool(strings.HasSuffix(s, t)), true
				}
				return xbool(strings.HasPrefix(s, t)), true
			}
		}
	case "strings.LastIndexByte", "strings.IndexByte":
		if s, ok := str(0); ok {
			if r, ok := num(1); ok {
				if name == "strings.IndexByte" {
					return xint(linConst(int64(strings.IndexByte(s, byte(r))))), true
				}
				return xint(linConst(int64(strings.LastIndexByte(s, byte(r))))), true
			}
		}
	case "path.Ext", "path/filepath.Ext", "path.Base", "path/filepath.Base", "path.Dir", "path/filepath.Dir", "path.Clean", "path/filepath.Clean":
		if s, ok := str(0); ok {
			f := map[string]func(string) string{"Ext": path.Ext, "Base": path.Base, "Dir": path.Dir, "Clean": path.Clean}[name[strings.LastIndex(name, ".")+1:]]
			return xconst(constant.MakeString(f(s))), true
		}
	case "strings.ToLower":
		if s, ok := str(0); ok {
			return xconst(constant.MakeString(strings.ToLower(s))), true
		}
	case "strings.Contains":
		if s, ok := str(0); ok {
			if t, ok := str(1); ok {
				return xbool(strings.Contains(s, t)), true
			}
		}
	case "strconv.Atoi":
		if s, ok := str(0); ok {
			k, err := strconv.Atoi(s)
			e := xv{s: "nil", err: 1}
			if err != nil {
				e = xv{s: "error", err: 2}
			}
			return xv{s: "atoi(" + s + ")", tup: []xv{xint(linConst(int64(k))), e}}, true
		}
	}
	return xv{}, false
}
