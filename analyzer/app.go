package main

import (
	"fmt"
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "for each key, mouse action and dialog in front, the constants of the event are propagated through the flattened handler; the guarded updates of the app's fields, the evidence, the positions and the screen that remain are compared with what the key or action is documented to do, and every change has to be followed by solving again with the current evidence and settings and by drawing again", checkC19)
}

// isAppOp: what the handlers of the app are expressed in.
func isAppOp(fn *ssa.Function) bool {
	if isShownOp(fn) {
		return true
	}
	if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "tui" {
		return false
	}
	switch fn.Name() {
	case "SelectedOutcome", "Contains", "NewTable", "Extend":
		return true
	}
	return false
}

const tcellPkg = "github.com/gdamore/tcell/v2"
const tviewPkg = "github.com/rivo/tview"

// appx: one handler.
type appx struct {
	*explorer
	name   string
	scen   string
	hits   map[string][]xv
	front  string
	key    int64
	ch     int64
	action int64
	util   int64
	errs   map[string]bool
}

func newAppx(c *Ctx, name string) *appx {
	fn := c.w.fn("internal/tui", "App", name)
	if fn == nil {
		c.undecide("keys", "handler "+name+" not found")
		return nil
	}
	fl := c.flatStop(fn, isAppOp)
	if len(fl.params) == 0 {
		return nil
	}
	a := &appx{explorer: newExplorer(c, fl), name: name, hits: map[string][]xv{}, errs: map[string]bool{}}
	a.recv = fl.params[0].name
	a.util = 2
	a.inLoop = []string{"Contains(", "SelectedOutcome("}
	a.known = a.result
	a.events = a.event
	// loops that draw the nodes, loops that clear the canvas
	hit := map[*Loop]bool{}
	fl.each(func(v *Value) {
		if v.op == OpCall && strings.HasSuffix(v.name, ".Contains") {
			for l := a.inner[v.blk]; l != nil; l = a.outer[l] {
				hit[l] = true
			}
		}
	})
	top := func(l *Loop) *Loop {
		for a.outer[l] != nil && !hit[a.outer[l]] {
			l = a.outer[l]
		}
		return l
	}
	fl.each(func(v *Value) {
		l := a.inner[v.blk]
		if l == nil {
			return
		}
		if v.op == OpCall && strings.HasSuffix(v.name, ".Render") {
			a.draw[top(l)] = true
		}
		if v.op == OpStore && v.args[1].op == OpConst && v.args[1].cval != nil && v.args[0].op == OpIndexAddr {
			if k, ok := constant.Int64Val(v.args[1].cval); ok && k == ' ' && isNamedRune(v.args[1]) {
				a.clear[top(l)] = true
			}
		}
	})
	n, s := a.field("selectedNode"), a.field("selectedState")
	a.facts = []*lin{n, linAdd(linAdd(linConst(-1), a.nodes(), 1), n, -1), s, linAdd(linAdd(linConst(-1), a.outcomes(), 1), s, -1)}
	for _, f := range []string{"X", "Y"} {
		a.facts = append(a.facts, linAtom(a.recv+".nodes["+n.String()+"].bounds."+f))
	}
	return a
}

func isNamedRune(v *Value) bool {
	return strings.HasSuffix(v.typ.String(), "rune") || v.typ.String() == "int32"
}

func (a *appx) field(f string) *lin { return linAtom(a.recv + "." + f) }
func (a *appx) nodes() *lin         { return linAtom("len(" + a.recv + ".nodes)") }
func (a *appx) node(i string) string {
	return a.recv + ".nodes[" + i + "].node"
}
func (a *appx) outcomes() *lin {
	return linAtom("len(" + a.node(a.recv+".selectedNode") + ".Outcomes)")
}

func tuple(s string, vs ...xv) (xv, bool) { return xv{s: s, tup: vs}, true }

func (a *appx) result(x *explorer, st *xstate, v *Value, args []xv) (xv, bool) {
	li := func(s string) xv { return xint(linAtom(s)) }
	switch v.name {
	case "(*" + tcellPkg + ".EventKey).Key":
		return xint(linConst(a.key)), true
	case "(*" + tcellPkg + ".EventKey).Rune":
		return xint(linConst(a.ch)), true
	case "(*" + tcellPkg + ".EventKey).Modifiers":
		return xint(linConst(0)), true
	case "(*" + tcellPkg + ".EventMouse).Position":
		return tuple("mouse", li("mouseX"), li("mouseY"))
	case "(*" + tviewPkg + ".Box).GetInnerRect":
		return tuple("rect", li("innerX"), li("innerY"), li("innerW"), li("innerH"))
	case "(*" + tviewPkg + ".Box).GetRect":
		return tuple("outer", li("outerX"), li("outerY"), li("outerW"), li("outerH"))
	case "(*" + tviewPkg + ".TextView).GetScrollOffset":
		return tuple("scroll", li("scrollRow"), li("scrollColumn"))
	case "(*" + tviewPkg + ".Pages).GetFrontPage":
		return tuple("front", xconst(constant.MakeString(a.front)), xatom("frontItem"))
	}
	if strings.HasSuffix(v.name, ".Contains") && len(args) == 3 {
		s := fmt.Sprintf("Contains(%s,%s,%s)", args[0].s, args[1].s, args[2].s)
		a.hits[s] = args
		return xv{s: s, cmp: &xcmp{kind: "atom", s: s}}, true
	}
	if strings.HasSuffix(v.name, ".SelectedOutcome") && len(args) == 3 {
		s := fmt.Sprintf("SelectedOutcome(%s,%s,%s)", args[0].s, args[1].s, args[2].s)
		a.hits[s] = args
		return tuple(s, li(s+"#0"), xv{s: s + "#1", cmp: &xcmp{kind: "atom", s: s + "#1"}})
	}
	if strings.HasSuffix(v.name, "/tui.Solve") || strings.HasSuffix(v.name, "@internal/tui.Solve") {
		x.emit(st, "solve", v, args)
		s := fmt.Sprintf("Solve@%d", st.inputs)
		return tuple(s, xatom(fmt.Sprintf("%s(%s)", s, joinX(args))), xatom("err"+fmt.Sprint(v.id)))
	}
	if strings.HasSuffix(v.name, ".NewTable") {
		return xatom("NewTable(" + joinX(args) + ")"), true
	}
	if strings.HasSuffix(v.name, ".Render") && len(args) == 5 {
		get := func(f string) string {
			if m, ok := st.mem[a.recv+"."+f]; ok {
				return m.s
			}
			return a.recv + "." + f
		}
		a.explorer.drawn = append(a.explorer.drawn, xdraw{xev: xev{kind: "draw", args: args, at: v, n: st.inputs}, sel: get("selectedNode"), state: get("selectedState"), marg: get("marginals"), evid: get("evidence")})
		return xv{}, false
	}
	return xv{}, false
}

func joinX(args []xv) string {
	var ss []string
	for _, x := range args {
		ss = append(ss, x.s)
	}
	return strings.Join(ss, ",")
}

func (a *appx) event(x *explorer, st *xstate, v *Value, args []xv) (string, bool) {
	n := v.name[strings.LastIndex(v.name, ".")+1:]
	switch {
	case v.name == "(*"+tviewPkg+".Application).Stop":
		return "stop", true
	case strings.HasPrefix(v.name, "(*"+tviewPkg+".Pages)."):
		switch n {
		case "ShowPage":
			return "show", true
		case "HidePage":
			return "hide", true
		case "RemovePage", "SwitchToPage", "AddPage", "AddAndSwitchToPage", "SendToBack", "SendToFront":
			return "page", true
		}
	case v.name == "(*"+tviewPkg+".TextView).SetText":
		if args[0].s == a.recv+".graph" {
			st.text = st.drawn
		}
	case v.name == "(*"+tviewPkg+".Table).SetContent":
		c := args[1]
		if m, ok := st.mem[c.s]; ok {
			c = m
		}
		args[1] = c
		return "content", true
	case changesWorld(v.name) == 1:
		return "write", true
	}
	return "", false
}

// want: what an event is documented to do.
type want struct {
	node     string // "", "next", "prev"
	state    string // "", "zero", "next", or a number
	flip     bool   // policies
	toggle   bool   // evidence
	dx, dy   int64
	calls    []string // "stop", "show Table", "write"...
	consumed bool     // the event is not passed on
	passed   bool     // the event is passed on
}

func (a *appx) fin(st *xstate, f string) xv {
	if v, ok := st.mem[a.recv+"."+f]; ok {
		return v
	}
	if f == "selectedNode" || f == "selectedState" {
		return xint(a.field(f))
	}
	return xatom(a.recv + "." + f)
}

func (a *appx) equal(st *xstate, v, w *lin) bool {
	d := linAdd(v, w, -1)
	return a.ge(st, d) && a.ge(st, linAdd(linConst(0), d, -1))
}

func (a *appx) ge(st *xstate, l *lin) bool { return implies(a.bounded(st.facts, l), l) }

// errorPath: a failure has been reported on the way.
func errorPath(st *xstate) bool {
	for k, v := range st.conds {
		if strings.HasPrefix(k, "eq(") && (strings.HasSuffix(k, ",nil)") || strings.HasPrefix(k, "eq(nil,")) && !v {
			return true
		}
	}
	return false
}

// cyclic: v is cur+d, wrapped around at n; "" yes, "?" not known, otherwise what it is.
func (a *appx) cyclic(st *xstate, v xv, cur, n *lin, d int64) string {
	if v.l == nil || strings.Contains(v.s, "φ") || strings.Contains(v.s, "?") {
		return "?"
	}
	to := linAdd(linConst(d), cur, 1)
	if m, ok := a.mods[v.s]; ok {
		if m[1].String() != n.String() {
			return v.s
		}
		diff := linAdd(m[0], to, -1) // a multiple of n
		k := diff.m[n.String()]
		rest := linAdd(diff, n, -k)
		if c, isc := rest.isConst(); isc && c == 0 && (d > 0 && k >= 0 || k >= 1) {
			return ""
		}
		// the remainder of a number in range is the number
		if a.ge(st, m[0]) && a.ge(st, linAdd(linAdd(linConst(-1), n, 1), m[0], -1)) {
			return a.cyclic(st, xint(m[0]), cur, n, d)
		}
		return v.s
	}
	for k := range v.l.m {
		if _, ok := a.mods[k]; ok {
			if a.differs(st, v.l, cur, n, d) {
				return v.s
			}
			return "?"
		}
		if strings.HasPrefix(k, "min(") || strings.HasPrefix(k, "max(") || strings.HasPrefix(k, "div(") {
			return "?"
		}
	}
	inRange := a.ge(st, to) && a.ge(st, linAdd(linAdd(linConst(-1), n, 1), to, -1))
	if inRange && a.equal(st, v.l, to) {
		return ""
	}
	if d > 0 && a.ge(st, linAdd(to, n, -1)) && a.equal(st, v.l, linConst(0)) {
		return ""
	}
	if d < 0 && a.ge(st, linAdd(linConst(-1), to, -1)) && a.equal(st, v.l, linAdd(linConst(-1), n, 1)) {
		return ""
	}
	return v.s
}

// differs: for some position and number of elements, v is not cur+d around the ends.
func (a *appx) differs(st *xstate, v, cur, n *lin, d int64) bool {
	C, L := cur.String(), n.String()
	own := func(l *lin) (only, some bool) {
		only = true
		for k := range l.m {
			if k == C || k == L {
				some = true
			} else {
				only = false
			}
		}
		return
	}
	var facts []*lin
	for _, f := range st.facts {
		only, some := own(f)
		if some && !only && !strings.Contains(f.String(), "φ") {
			return false
		}
		if some && only {
			facts = append(facts, f)
		}
	}
	for ln := int64(1); ln <= 5; ln++ {
	next:
		for c := int64(0); c < ln; c++ {
			val := func(l *lin) int64 { return l.c + l.m[C]*c + l.m[L]*ln }
			for _, f := range facts {
				if val(f) < 0 {
					continue next
				}
			}
			r := v.c
			for k, x := range v.m {
				switch m, ok := a.mods[k]; {
				case k == C:
					r += x * c
				case k == L:
					r += x * ln
				case ok:
					p, _ := own(m[0])
					q, _ := own(m[1])
					if !p || !q {
						return false
					}
					if val(m[1]) == 0 {
						return true
					}
					r += x * (val(m[0]) % val(m[1]))
				default:
					return false
				}
			}
			if r != (c+d+ln)%ln {
				return true
			}
		}
	}
	return false
}

func (a *appx) at(o xout) string {
	if n := len(o.st.evs); n > 0 {
		return a.fl.where(o.st.evs[n-1].at)
	}
	if o.bad != nil {
		return a.fl.where(o.bad)
	}
	return a.c.w.pos(a.fl.entryFn.Pos())
}

func (a *appx) bad(rule, what string, o xout, msg string) {
	if o.st.opaque {
		a.c.undecide(rule, a.name+" "+a.scen+": "+msg+", under a condition that is not understood")
		return
	}
	a.c.fail(rule, a.name+":"+a.scen+":"+what, a.at(o), a.scen+": "+msg, "")
}

func (a *appx) check(scen string, w want) {
	a.scen = scen
	a.run()
	if a.why != "" {
		a.c.undecide("keys", a.name+" "+scen+": "+a.why)
		return
	}
	a.draws()
	n := 0
	for _, o := range a.outs {
		if errorPath(o.st) {
			continue
		}
		n++
		if o.bad != nil {
			if len(o.st.conds) == 0 && !o.st.opaque {
				a.bad("keys", "panic", o, "the application panics")
			} else {
				a.c.undecide("keys", a.name+" "+scen+": a panic may be reached")
			}
			continue
		}
		if a.path(o, w) {
			a.c.ok("keys", fmt.Sprintf("%s %s: node %s, state %s", a.name, scen, a.fin(o.st, "selectedNode").s, a.fin(o.st, "selectedState").s))
		}
	}
	if n == 0 {
		a.c.undecide("keys", a.name+" "+scen+": no path")
	}
}

// path compares one guarded update with what is wanted.
func (a *appx) path(o xout, w want) bool {
	st := o.st
	good := true
	no := func(rule, what, msg string) {
		good = false
		a.bad(rule, what, o, msg)
	}
	unk := func(msg string) {
		good = false
		a.c.undecide("keys", a.name+" "+a.scen+": "+msg)
	}
	for _, e := range st.evs {
		if e.rep && e.kind != "draw" {
			unk("effects in a loop")
			return false
		}
	}
	N, S := a.field("selectedNode"), a.field("selectedState")
	n, s := a.fin(st, "selectedNode"), a.fin(st, "selectedState")
	// node
	switch w.node {
	case "":
		if n.s != N.String() && !(n.l != nil && a.equal(st, n.l, N)) {
			if strings.Contains(n.s, "φ") || strings.Contains(n.s, "?") {
				unk("the selected node is not understood")
			} else {
				no("keys", "node", "selects the node at "+n.s+", the selected node should stay")
			}
		}
	default:
		d := int64(1)
		if w.node == "prev" {
			d = -1
		}
		if r := a.cyclic(st, n, N, a.nodes(), d); r == "?" {
			unk("the selected node is not understood: " + n.s)
		} else if r != "" {
			no("keys", "node", "selects the node at "+r+", should be the "+map[string]string{"next": "next", "prev": "previous"}[w.node]+" one, around the ends")
		}
	}
	// state
	vague := strings.Contains(s.s, "φ") || strings.Contains(s.s, "?")
	switch w.state {
	case "":
		if s.s != S.String() && !(s.l != nil && a.equal(st, s.l, S)) {
			if vague {
				unk("the selected state is not understood")
			} else {
				no("keys", "state", "selects state "+s.s+", the selected state should stay")
			}
		}
	case "zero":
		if s.l == nil || !a.equal(st, s.l, linConst(0)) {
			if vague {
				unk("the selected state is not understood")
			} else {
				no("keys", "state", "another node is selected, but the selected state is "+s.s+" instead of the first one")
			}
		}
	case "next":
		if r := a.cyclic(st, s, S, a.outcomes(), 1); r == "?" {
			unk("the selected state is not understood: " + s.s)
		} else if r != "" {
			no("keys", "state", "selects state "+r+", should be the next one of the selected node, around the end")
		}
	default:
		var k int64
		fmt.Sscan(w.state, &k)
		exists := linAdd(linConst(-k), a.outcomes(), 1) // O-k >= 0
		gone := linAdd(linConst(-1), exists, -1)
		switch {
		case vague:
			unk("the selected state is not understood: " + s.s)
		case k > 0 && a.ge(st, exists):
			if s.l == nil || !a.equal(st, s.l, linConst(k-1)) {
				no("keys", "state", fmt.Sprintf("selects state %s, should be state %d (counted from 1)", s.s, k))
			}
		case k == 0 || a.ge(st, gone):
			if s.l == nil || !a.equal(st, s.l, S) {
				no("keys", "state", fmt.Sprintf("selects state %s, but there is no state %d", s.s, k))
			}
		default: // not known whether there is such a state
			if s.l != nil && a.equal(st, s.l, linConst(k-1)) {
				no("keys", "state", fmt.Sprintf("selects state %d without there being so many", k))
			} else if s.l != nil && a.equal(st, s.l, S) {
				no("keys", "state", fmt.Sprintf("does not select state %d although there may be so many", k))
			} else {
				unk("the selected state is not understood: " + s.s)
			}
		}
	}
	// policies
	P := a.recv + ".ignorePolicies"
	p := a.fin(st, "ignorePolicies").s
	if cv, ok := st.conds[P]; ok { // decided on the way
		if p == "true" || p == "false" {
			if (p == "true") == cv {
				p = P
			} else {
				p = "!" + P
			}
		}
	}
	if wp := map[bool]string{false: P, true: "!" + P}[w.flip]; p != wp {
		if p != P && p != "!"+P && p != "true" && p != "false" {
			unk("the setting for policies is not understood: " + p)
		} else {
			no("keys", "policies", "ignoring policies becomes "+p+", should be "+wp)
		}
	}
	// evidence
	if w.toggle {
		good = a.toggled(o, n.s, s.s, st.facts) && good
	} else {
		for _, e := range st.evs {
			if e.kind == "set" || e.kind == "delete" {
				no("keys", "evidence", "changes the evidence ("+e.kind+" "+joinX(e.args[1:])+")")
			}
		}
		if a.fin(st, "evidence").s != a.recv+".evidence" {
			unk("the evidence is replaced")
		}
	}
	good = a.fresh(o, w.flip) && good
	good = a.moved(o, w) && good
	// calls
	have := map[string]*Value{}
	for _, e := range st.evs {
		switch e.kind {
		case "stop", "write", "page":
			have[e.kind] = e.at
		case "show", "hide":
			if len(e.args) > 1 && e.args[1].cv != nil {
				have[e.kind+" "+constant.StringVal(e.args[1].cv)] = e.at
			} else {
				have[e.kind+" ?"] = e.at
			}
		}
	}
	wanted := map[string]bool{}
	for _, c := range w.calls {
		wanted[c] = true
		if have[c] == nil {
			if have["show ?"] != nil || have["hide ?"] != nil || have["page"] != nil {
				unk("pages are handled in a way that is not understood")
			} else {
				no("keys", "call:"+c, "does not "+c)
			}
		}
	}
	for c := range have {
		if !wanted[c] && c != "page" && !strings.HasSuffix(c, "?") {
			no("keys", "call:"+c, "should not "+c)
		}
	}
	if wanted["show Table"] {
		good = a.table(o, n.s) && good
	}
	// passed on
	if len(o.rets) > 0 {
		r := o.rets[len(o.rets)-1]
		ev := a.fl.params[len(a.fl.params)-1].name
		if w.passed && r.s == "nil" {
			no("keys", "passed", "the event is swallowed, it should be passed on")
		}
		if w.consumed && r.s == ev {
			no("keys", "consumed", "the event is handled and passed on as well")
		}
		if w.passed && len(o.rets) == 2 && o.rets[0].l != nil && o.rets[0].s != fmt.Sprint(a.action) {
			no("keys", "passed", "the event is passed on as another action")
		}
	}
	return good
}

// table: the table shown is that of the selected node.
func (a *appx) table(o xout, n string) bool {
	want := fmt.Sprintf("NewTable(%s.nodes,%s,%s.nodesByName)", a.recv, n, a.recv)
	found := false
	for _, e := range o.st.evs {
		if e.kind == "content" {
			found = true
			if !strings.HasPrefix(e.args[1].s, "NewTable(") {
				a.c.undecide("keys", a.name+" "+a.scen+": the content of the table is not understood: "+e.args[1].s)
				return false
			}
			if e.args[1].s != want {
				a.bad("keys", "content", o, "shows "+e.args[1].s+", should be "+want)
				return false
			}
		}
	}
	if !found {
		a.bad("keys", "content", o, "shows the table without giving it the selected node's content")
	}
	return found
}

// toggled: the evidence for outcome s of node n is set, or removed if it was set already; never for a utility.
func (a *appx) toggled(o xout, n, s string, facts []*lin) bool {
	st := o.st
	name := a.node(n) + ".Name"
	val := fmt.Sprintf("%s.Outcomes[%s]", a.node(n), s)
	typ := linAdd(linConst(-a.util), linAtom(a.node(n)+".NodeType"), 1)
	old := fmt.Sprintf("%s.evidence@0[%s]", a.recv, name)
	isUtil := implies(facts, typ) && implies(facts, linAdd(linConst(0), typ, -1))
	notUtil := infeasible(append(append([]*lin{}, facts...), typ, linAdd(linConst(0), typ, -1)))
	var last *xev
	for i, e := range st.evs {
		if e.kind != "set" && e.kind != "delete" {
			continue
		}
		if e.args[0].s != a.recv+".evidence" {
			a.c.undecide("evidence", a.name+" "+a.scen+": another map is changed: "+e.args[0].s)
			return false
		}
		if e.args[1].s != name {
			if strings.Contains(e.args[1].s, "?") {
				a.c.undecide("evidence", a.name+" "+a.scen+": evidence is stored under "+e.args[1].s)
			} else {
				a.bad("evidence", "name", o, "evidence is stored under "+e.args[1].s+", should be "+name)
			}
			return false
		}
		last = &st.evs[i]
	}
	if a.fin(st, "evidence").s != a.recv+".evidence" {
		a.c.undecide("evidence", a.name+" "+a.scen+": the evidence is replaced")
		return false
	}
	if isUtil {
		if last != nil {
			a.bad("evidence", "utility", o, "evidence is set for a utility node")
			return false
		}
		a.c.ok("evidence", a.name+" "+a.scen+": no evidence for a utility node")
		return true
	}
	has, hasK := st.conds["has("+old+")"]
	x, y := old, val
	if y < x {
		x, y = y, x
	}
	eq, eqK := st.conds["eq("+x+","+y+")"]
	for k := range st.conds {
		if strings.Contains(k, ".evidence") && k != "has("+old+")" && k != "eq("+x+","+y+")" {
			if strings.HasPrefix(k, "eq(") && strings.Contains(k, old) {
				a.bad("evidence", "compare", o, "the old evidence is compared in "+k+", should be with "+val)
				return false
			}
			if strings.HasPrefix(k, "has(") {
				a.bad("evidence", "lookup", o, "the evidence is looked up in "+k+", should be under "+name)
				return false
			}
			a.c.undecide("evidence", a.name+" "+a.scen+": condition not understood: "+k)
			return false
		}
	}
	if !notUtil && last != nil {
		a.bad("evidence", "utility", o, "evidence is set without excluding utility nodes")
		return false
	}
	if !notUtil {
		a.c.undecide("evidence", a.name+" "+a.scen+": node type not known")
		return false
	}
	remove := eqK && eq && !(hasK && !has)
	add := eqK && !eq || hasK && !has
	got := "unchanged"
	if last != nil {
		got = last.kind
		if got == "set" && last.args[2].s != val {
			if strings.Contains(last.args[2].s, "?") {
				a.c.undecide("evidence", a.name+" "+a.scen+": value "+last.args[2].s)
			} else {
				a.bad("evidence", "value", o, "the evidence becomes "+last.args[2].s+", should be "+val)
			}
			return false
		}
	}
	switch {
	case remove && got != "delete":
		a.bad("evidence", "remove", o, "the evidence is "+got+" although the state is the evidence already; it should be removed")
	case add && got != "set":
		a.bad("evidence", "add", o, "the evidence is "+got+", it should become the selected state")
	case !remove && !add && got != "unchanged":
		a.bad("evidence", "blind", o, "the evidence is "+got+" without regard to what it was")
	case !remove && !add:
		a.bad("evidence", "none", o, "the evidence stays unchanged")
	default:
		a.c.ok("evidence", fmt.Sprintf("%s %s: %s %s", a.name, a.scen, got, name))
		return true
	}
	return false
}

// fresh: after a change of evidence or settings the results are computed anew, after any change the screen is drawn anew.
func (a *appx) fresh(o xout, flip bool) bool {
	st := o.st
	if st.inputs > 0 {
		m := a.fin(st, "marginals").s
		P := a.fin(st, "ignorePolicies").s
		if _, ok := st.conds[a.recv+".ignorePolicies"]; ok && (P == "true" || P == "false") {
			// either way of writing it
			for _, e := range st.evs {
				if e.kind == "solve" && len(e.args) == 4 && (e.args[3].s == "true" || e.args[3].s == "false") && e.args[3].s != P {
					a.bad("solved", "policies", o, "results are computed with the old setting for policies")
					return false
				}
			}
		}
		want := fmt.Sprintf("Solve@%d(%s.network,%s.evidence,%s.nodes,%s)", st.inputs, a.recv, a.recv, a.recv, P)
		switch {
		case m == want:
			a.c.ok("solved", a.name+" "+a.scen+": results of "+want)
		case m == a.recv+".marginals":
			a.bad("solved", "stale", o, "the evidence or a setting changes, but the results are not computed anew")
			return false
		case strings.HasPrefix(m, "Solve@"):
			a.bad("solved", "args", o, "the results become those of "+m+", should be "+want)
			return false
		default:
			a.c.undecide("solved", a.name+" "+a.scen+": results are "+m)
			return false
		}
	}
	if st.shown > 0 {
		if st.text != st.shown {
			a.bad("drawn", "stale", o, "what is shown changes, but the screen is not drawn anew afterwards")
			return false
		}
		a.c.ok("drawn", a.name+" "+a.scen)
	}
	return true
}

// moved: bounds and network position change by the same, in the direction of the key, not beyond the border.
func (a *appx) moved(o xout, w want) bool {
	st := o.st
	N := a.recv + ".selectedNode"
	if v, ok := st.mem[N]; ok {
		N = v.s
	}
	B := a.recv + ".nodes[" + N + "].bounds"
	V := a.recv + ".network.variables[" + N + "].Position"
	var ks []string
	for k := range st.mem {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(k, "&") {
			continue
		}
		if strings.Contains(k, ".bounds") && k != B+".X" && k != B+".Y" {
			if k == B {
				a.c.undecide("moved", a.name+" "+a.scen+": bounds replaced")
			} else {
				a.bad("moved", "other", o, "changes "+k)
			}
			return false
		}
		if strings.Contains(k, ".Position") && k != V && !strings.HasPrefix(k, V+"[") {
			if strings.HasPrefix(k, a.node(N)+".Position") {
				continue
			}
			a.bad("moved", "other", o, "changes "+k)
			return false
		}
	}
	get := func(k string) *lin {
		if v, ok := st.mem[k]; ok {
			return v.l
		}
		return linAtom(k)
	}
	bx, by := get(B+".X"), get(B+".Y")
	var px, py *lin
	if v, ok := st.mem[V]; ok {
		if len(v.tup) == 2 {
			px, py = v.tup[0].l, v.tup[1].l
		} else {
			a.c.undecide("moved", a.name+" "+a.scen+": position replaced")
			return false
		}
	} else {
		px, py = get(V+"[0]"), get(V+"[1]")
	}
	if bx == nil || by == nil || px == nil || py == nil {
		a.c.undecide("moved", a.name+" "+a.scen+": position not understood")
		return false
	}
	delta := func(l *lin, k string) (int64, bool) {
		return linAdd(l, linAtom(k), -1).isConst()
	}
	dx, ok1 := delta(bx, B+".X")
	dy, ok2 := delta(by, B+".Y")
	ex, ok3 := delta(px, V+"[0]")
	ey, ok4 := delta(py, V+"[1]")
	if !ok1 || !ok2 || !ok3 || !ok4 {
		if strings.Contains(bx.String()+by.String()+px.String()+py.String(), "?") {
			a.c.undecide("moved", a.name+" "+a.scen+": not a move by a constant")
		} else {
			a.bad("moved", "const", o, fmt.Sprintf("the node goes to %s, %s and its position to %s, %s", bx, by, px, py))
		}
		return false
	}
	if dx != ex || dy != ey {
		a.bad("moved", "both", o, fmt.Sprintf("the node moves by %d, %d, but its position in the network by %d, %d", dx, dy, ex, ey))
		return false
	}
	wdx, wdy := w.dx, w.dy
	// not beyond the border
	x, y := linAtom(B+".X"), linAtom(B+".Y")
	if wdx < 0 && !a.ge(st, linAdd(linConst(-1), x, 1)) || wdy < 0 && !a.ge(st, linAdd(linConst(-1), y, 1)) {
		at := linAdd(linConst(0), x, -1)
		if wdy < 0 {
			at = linAdd(linConst(0), y, -1)
		}
		if a.ge(st, at) {
			wdx, wdy = 0, 0
		} else if dx != 0 || dy != 0 {
			a.bad("moved", "border", o, "the node can be moved beyond the border")
			return false
		} else {
			a.bad("moved", "stuck", o, "the node cannot always be moved although it is not at the border")
			return false
		}
	}
	if dx != wdx || dy != wdy {
		a.bad("moved", "delta", o, fmt.Sprintf("the node moves by %d, %d, should be %d, %d", dx, dy, wdx, wdy))
		return false
	}
	if dx != 0 || dy != 0 {
		if st.clear < st.moved {
			a.bad("moved", "erase", o, "the node is moved, but the canvas is not cleared before it is drawn")
			return false
		}
		_, renewed := st.mem[a.recv+".canvas"]
		if !renewed && (dx > 0 || dy > 0) {
			c := a.recv + ".canvas"
			size, edge := linAtom("len("+c+")"), linAdd(linAtom(B+".Y"), linAtom(B+".H"), 1)
			if dx > 0 {
				size, edge = linAtom("len("+c+"[0])"), linAdd(linAtom(B+".X"), linAtom(B+".W"), 1)
			}
			if !a.ge(st, linAdd(linAdd(linConst(-1), size, 1), edge, -1)) {
				known := false
				for _, f := range st.facts {
					if f.m[size.String()] != 0 {
						known = true
					}
				}
				if known || len(st.conds) == 0 {
					a.bad("moved", "canvas", o, "the node may be moved beyond the canvas without making it larger")
				} else {
					a.c.undecide("moved", a.name+" "+a.scen+": size of the canvas not understood")
				}
				return false
			}
		}
		a.c.ok("moved", fmt.Sprintf("%s %s: by %d, %d", a.name, a.scen, dx, dy))
	}
	return true
}

func checkC19(c *Ctx) {
	a := newAppx(c, "inputMainPanel")
	if a == nil {
		return
	}
	const (
		esc, tab, backtab, enter, ctrlS, char, up = 27, 9, 278, 13, 19, 256, 257
	)
	key := func(scen string, k, r int64, w want) {
		a.key, a.ch = k, r
		a.check(scen, w)
	}
	key("Esc", esc, 0, want{calls: []string{"stop"}})
	key("Tab", tab, 9, want{node: "next", state: "zero", consumed: true})
	key("BackTab", backtab, 0, want{node: "prev", state: "zero", consumed: true})
	key("Space", char, ' ', want{state: "next", consumed: true})
	for d := int64(0); d <= 9; d++ {
		key(fmt.Sprintf("digit %d", d), char, '0'+d, want{state: fmt.Sprint(d)})
	}
	key("a digit that is not 0 to 9", char, 0x663, want{})
	typ := a.node(a.recv+".selectedNode") + ".NodeType"
	for t, n := range []string{"chance", "decision", "utility"} {
		a.inits[typ] = xint(linConst(int64(t)))
		a.facts = append(a.facts, linAdd(linConst(-int64(t)), linAtom(typ), 1), linAdd(linConst(int64(t)), linAtom(typ), -1))
		key("Enter on a "+n+" node", enter, 13, want{toggle: true, consumed: true})
		a.facts = a.facts[:len(a.facts)-2]
		delete(a.inits, typ)
	}
	key("H", char, 'h', want{calls: []string{"show Help"}, consumed: true})
	key("I", char, 'i', want{calls: []string{"show Info"}, consumed: true})
	key("T", char, 't', want{calls: []string{"show Table"}, consumed: true})
	key("P", char, 'p', want{flip: true, consumed: true})
	key("Ctrl+S", ctrlS, 19, want{calls: []string{"write"}, consumed: true})
	key("W", char, 'w', want{dy: -1})
	key("A", char, 'a', want{dx: -1})
	key("S", char, 's', want{dy: 1, consumed: true})
	key("D", char, 'd', want{dx: 1, consumed: true})
	key("arrow", up, 0, want{passed: true})
	key("another key", char, 'x', want{passed: true})
	c.mouse()
	c.geometry()
	c.rows()
	c.starts()
	for r, n := range map[string]int{"keys": 20, "evidence": 3, "solved": 3, "drawn": 8, "moved": 4, "mouse": 5, "shown": 1, "geometry": 8, "rows": 4, "started": 10} {
		c.floor(r, n)
	}
}

// loopOf: the loop whose counter idx is.
func (a *appx) loopOf(idx *lin) *Loop {
	for l := range a.cont {
		for _, v := range l.head.instrs {
			if v.op == OpPhi && idx.m[fmt.Sprintf("φ%d", v.id)] == 1 {
				return l
			}
		}
	}
	return nil
}

// drawn: each node is drawn with its own results, its own evidence, and the selection.
func (a *appx) draws() {
	seen := map[*Value]bool{}
	for _, d := range a.explorer.drawn {
		if seen[d.at] {
			continue
		}
		seen[d.at] = true
		pre := a.recv + ".nodes["
		r := d.args[0].s
		if !strings.HasPrefix(r, pre) || !strings.HasSuffix(r, "]") {
			a.c.undecide("shown", a.name+": which node is drawn is not understood: "+r)
			continue
		}
		i := strings.TrimSuffix(strings.TrimPrefix(r, pre), "]")
		fail := func(what, msg string) {
			a.c.fail("shown", "draw:"+what, a.fl.where(d.at), msg, a.fl.chain(d.at))
		}
		name := a.node(i) + ".Name"
		bad := false
		cmp := func(what string, got xv, want, say string) {
			if got.s == want {
				return
			}
			bad = true
			if strings.Contains(got.s, "?") || strings.Contains(got.s, "φ") && !strings.Contains(got.s, i) {
				a.c.undecide("shown", a.name+": "+what+" is not understood: "+got.s)
				return
			}
			fail(what, "node "+i+" is drawn with "+say+" "+got.s+", should be "+want)
		}
		cmp("results", d.args[1], d.marg+"["+name+"]", "the results")
		cmp("state", d.args[3], d.state, "the selected state")
		has := fmt.Sprintf("has(%s[%s])", d.evid, name)
		if strings.HasPrefix(d.evid, a.recv+".") {
			has = fmt.Sprintf("has(%s@%d[%s])", d.evid, d.n, name)
		}
		cmp("evidence", d.args[4], has, "evidence")
		// selected
		sel := d.args[2]
		if sel.cmp == nil || sel.cmp.kind != "eq" {
			bad = true
			a.c.undecide("shown", a.name+": selection not understood: "+sel.s)
		} else {
			want := "(" + i + "-" + d.sel + "==0)"
			ok := false
			for _, s := range []int64{1, -1} {
				l := linAdd(linConst(0), sel.cmp.l, s)
				// i - selected
				var il *lin
				for _, x := range a.counters(i) {
					il = x
				}
				if il != nil {
					rest := linAdd(il, l, -1)
					if rest.String() == d.sel && !sel.cmp.neg {
						ok = true
					}
				}
			}
			if !ok {
				bad = true
				if strings.Contains(sel.s, "?") {
					a.c.undecide("shown", a.name+": selection not understood: "+sel.s)
				} else {
					fail("selected", "the node is drawn as selected if "+sel.s+", should be "+want)
				}
			}
		}
		for _, il := range a.counters(i) {
			if l := a.loopOf(il); l != nil {
				switch a.full(l, il, a.recv+".nodes") {
				case 0:
					bad = true
					fail("all", "not all nodes are drawn")
				case -1:
					bad = true
					a.c.undecide("shown", a.name+": loop over the nodes not understood")
				}
			}
		}
		if !bad {
			a.c.ok("shown", a.name+": node "+i+" is drawn with "+d.args[1].s)
		}
	}
}

// counters: i as a number.
func (a *appx) counters(i string) []*lin {
	for l := range a.cont {
		for _, v := range l.head.instrs {
			if v.op != OpPhi {
				continue
			}
			p := linAtom(fmt.Sprintf("φ%d", v.id))
			for k := int64(-2); k <= 2; k++ {
				if x := linAdd(linConst(k), p, 1); x.String() == i {
					return []*lin{x}
				}
			}
		}
	}
	return nil
}

func (c *Ctx) mouse() {
	a := newAppx(c, "mouseInputGraph")
	if a == nil {
		return
	}
	acts := map[string]int64{"left click": 3, "right click": 11}
	for _, n := range []string{"left click", "right click"} {
		a.inits[a.fl.params[1].name] = xint(linConst(acts[n]))
		a.action = acts[n]
		for _, f := range []string{"Table", "Help", "Info"} {
			a.front = f
			a.check(n+" with "+f+" in front", want{calls: []string{"hide " + f}, consumed: true})
		}
		a.front = "Graph"
		a.click(n)
	}
	for _, k := range []int64{0, 2, 14} { // move, button down, scroll
		a.action = k
		a.inits[a.fl.params[1].name] = xint(linConst(k))
		for _, f := range []string{"Graph", "Help"} {
			a.front = f
			a.check(fmt.Sprintf("mouse action %d with %s in front", k, f), want{passed: true})
		}
	}
	for _, n := range []string{"Table", "Help", "Info"} {
		if m := newAppx(c, "mouseInput"+n); m != nil {
			m.front = n
			for _, act := range []string{"left click", "right click"} {
				m.action = acts[act]
				m.inits[m.fl.params[1].name] = xint(linConst(m.action))
				m.check(act, want{calls: []string{"hide " + n}, consumed: true})
			}
			m.action = 14
			m.inits[m.fl.params[1].name] = xint(linConst(14))
			m.check("scroll", want{passed: true})
		}
		if k := newAppx(c, "input"+n); k != nil {
			k.front = n
			for key, name := range map[int64]string{27: "Esc", 13: "Enter"} {
				k.key, k.ch = key, key
				k.check(name, want{calls: []string{"hide " + n}, consumed: true})
			}
			k.key, k.ch = 257, 0
			k.check("arrow", want{passed: true})
		}
	}
}

// click: the node under the mouse is selected, the outcome under the mouse toggled; or its table shown.
func (a *appx) click(scen string) {
	a.scen = scen
	a.run()
	if a.why != "" {
		a.c.undecide("mouse", scen+": "+a.why)
		return
	}
	a.draws()
	X := linAdd(linAdd(linAtom("mouseX"), linAtom("innerX"), -1), linAtom("scrollColumn"), 1).String()
	Y := linAdd(linAdd(linAtom("mouseY"), linAtom("innerY"), -1), linAtom("scrollRow"), 1).String()
	hits := 0
	for _, o := range a.outs {
		if errorPath(o.st) {
			continue
		}
		if o.bad != nil {
			a.c.undecide("mouse", scen+": a panic may be reached")
			continue
		}
		good := true
		no := func(what, msg string) {
			good = false
			a.bad("mouse", what, o, msg)
		}
		unk := func(msg string) {
			good = false
			a.c.undecide("mouse", scen+": "+msg)
		}
		hit, miss := "", ""
		for k, v := range o.st.conds {
			if strings.HasPrefix(k, "Contains(") {
				if v {
					hit = k
				} else {
					miss = k
				}
			}
		}
		for _, e := range o.st.evs {
			if e.rep {
				no("again", "the loop goes on after a node is found, so that more than one may be changed")
				break
			}
		}
		if !good {
			continue
		}
		if hit == "" {
			if miss != "" {
				no("early", "the search for the node ends before all nodes are looked at")
				continue
			}
			if a.path(o, want{consumed: true}) {
				a.c.ok("mouse", scen+": no node there, nothing changes")
			}
			continue
		}
		hits++
		args := a.hits[hit]
		i := strings.TrimSuffix(strings.TrimPrefix(args[0].s, a.recv+".nodes["), "].bounds")
		if a.recv+".nodes["+i+"].bounds" != args[0].s {
			unk("which node contains the mouse is not understood: " + args[0].s)
			continue
		}
		if args[1].s != X || args[2].s != Y {
			if strings.Contains(args[1].s+args[2].s, "?") {
				unk("the place of the mouse is not understood: " + args[1].s + ", " + args[2].s)
			} else {
				no("place", "looks for the node at "+args[1].s+", "+args[2].s+", should be "+X+", "+Y)
			}
			continue
		}
		for _, il := range a.counters(i) {
			if l := a.loopOf(il); l != nil {
				switch a.full(l, il, a.recv+".nodes") {
				case 0:
					no("all", "not all nodes are looked at")
				case -1:
					unk("loop over the nodes not understood")
				}
			}
		}
		if n := a.fin(o.st, "selectedNode"); n.s != i {
			if n.s == a.recv+".selectedNode" || n.l != nil && !strings.Contains(n.s, "?") {
				no("node", "selects the node at "+n.s+", should be "+i)
			} else {
				unk("the selected node is not understood: " + n.s)
			}
			continue
		}
		s := a.fin(o.st, "selectedState")
		w := "0"
		toggle := false
		if scen == "left click" {
			for k, v := range o.st.conds {
				if !strings.HasPrefix(k, "SelectedOutcome(") {
					continue
				}
				b := strings.TrimSuffix(k, "#1")
				if as := a.hits[b]; as == nil || as[0].s != a.recv+".nodes["+i+"]" || as[1].s != X || as[2].s != Y {
					no("outcome", "looks for the outcome with "+b)
				}
				if v {
					w = b + "#0"
					toggle = true
				}
			}
			if !toggle && good {
				found := false
				for k := range o.st.conds {
					if strings.HasPrefix(k, "SelectedOutcome(") {
						found = true
					}
				}
				if !found {
					no("outcome", "does not look for the outcome under the mouse")
				}
			}
		}
		if !good {
			continue
		}
		if s.s != w {
			if strings.Contains(s.s, "?") {
				unk("the selected state is not understood: " + s.s)
			} else {
				no("state", "selects state "+s.s+", should be "+w)
			}
			continue
		}
		if toggle {
			good = a.toggled(o, i, w, o.st.facts) && good
		} else {
			for _, e := range o.st.evs {
				if e.kind == "set" || e.kind == "delete" {
					no("evidence", "changes the evidence")
				}
			}
		}
		if a.fin(o.st, "ignorePolicies").s != a.recv+".ignorePolicies" {
			no("policies", "changes the setting for policies")
		}
		good = a.fresh(o, false) && good
		shown := false
		for _, e := range o.st.evs {
			switch e.kind {
			case "stop", "hide", "write":
				no("call", "should not "+e.kind)
			case "show":
				if len(e.args) > 1 && e.args[1].cv != nil && constant.StringVal(e.args[1].cv) == "Table" && scen == "right click" {
					shown = true
				} else {
					no("call", "should not show a dialog")
				}
			}
		}
		if scen == "right click" {
			if !shown {
				no("show", "the table is not shown")
			} else {
				good = a.table(o, i) && good
			}
		}
		if len(o.rets) == 2 && o.rets[1].s == a.fl.params[2].name {
			no("consumed", "the event is handled and passed on as well")
		}
		if good {
			a.c.ok("mouse", scen+": node "+i+", state "+w)
		}
	}
	if hits == 0 {
		a.c.undecide("mouse", scen+": no test which node the mouse is on")
	}
}
