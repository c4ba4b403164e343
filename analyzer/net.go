package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C18", "network to solver: one-to-one mapping of variables, tables, parents, policies, weights, evidence and results", checkC18)
}

// netc: one solving entry point of the network, with everything of the solver left as calls.
type netc struct {
	zeroCount map[string]bool
	*alg
	q      *ql
	entry  string
	recv   string
	vs     string // the network's variables
	fs     string // its factors
	pol    string // its policies
	tot    string // position of the total utility
	fV, fD string // fields of the entry of a name: solver variable, definition
	mapT   types.Type
	slvT   types.Type
	totals map[*Value]bool
}

func checkC18(c *Ctx) {
	for _, name := range []string{"SolveQuery", "SolveUtility", "SolvePolicies"} {
		fn := c.must("", "Network", name)
		if fn == nil {
			continue
		}
		n := newNetc(c, c.flatStop(fn, isSolver), name)
		if n == nil {
			c.undecide("variables", name+": the parts of a network are not recognised")
			continue
		}
		n.run()
		c.found(n.fl, "found", name)
	}
	n := 0
	for _, x := range []struct {
		name string
		f    func(*netc)
	}{{"Marginal", (*netc).marginal}, {"Normalize", (*netc).normalize}, {"NormalizeUtility", (*netc).normalizeUtility}, {"Rearrange", (*netc).rearrange}, {"ToEvidence", (*netc).toEvidence}} {
		fn := c.must("", "Network", x.name)
		if fn == nil {
			continue
		}
		w := newNetc(c, c.flatStop(fn, isSolver), x.name)
		if w == nil {
			c.undecide("wrapper", x.name+": the parts of a network are not recognised")
			continue
		}
		n++
		x.f(w)
		c.found(w.fl, "found", x.name)
	}
	c.added()
	for r, k := range map[string]int{"added": 5, "variables": 3, "names": 3, "tables": 3, "parents": 3, "normalized": 3, "policies": 3, "weights": 3, "evidence": 2, "query": 2, "results": 2, "wrapper": 3} {
		c.floor(r, k)
	}
}

// added: a variable of the solver keeps what it is defined with, and its identity is its own.
func (c *Ctx) added() {
	fn := c.must("ve", "Variables", "AddVariable")
	if fn == nil {
		return
	}
	fl := c.flat(fn)
	a := newAlg(c, fl, "AddVariable")
	q := newQL(a)
	if len(fl.params) != 4 {
		c.undecide("added", "parameters of AddVariable")
		return
	}
	ids, id := fl.params[0].name+".ids", fl.params[1].name
	und := func(msg string, v *Value) { c.undecide("added", "AddVariable: "+msg+" at "+fl.where(v)) }
	n := 0
	fl.each(func(v *Value) {
		if v.op != OpStruct || !isNamed(v.typ, "ve", "Variable") || len(v.args) != 4 {
			return
		}
		n++
		st := v.typ.Underlying().(*types.Struct)
		for i, x := range v.args {
			f := st.Field(i).Name()
			want := map[string]string{"id": id, "outcomes": fl.params[3].name, "nodeType": fl.params[2].name}[f]
			x = stripConv(x)
			if f == "index" {
				if x.op == OpBuiltin && x.name == "len" && q.key(x.args[0]) == fl.params[0].name+".variables" {
					c.ok("added", "AddVariable "+f)
				} else {
					und("index "+q.key(x), v)
				}
				continue
			}
			switch {
			case q.key(x) == want:
				c.ok("added", "AddVariable "+f)
			case x.op == OpParam || x.op == OpConst:
				a.bad("added", f, v, "the "+f+" of a new variable is "+q.key(x)+" instead of "+want)
			default:
				und(f+" "+q.key(x), v)
			}
		}
	})
	if n == 0 {
		c.undecide("added", "AddVariable: the new variable is not recognised")
		return
	}
	guard, panics := false, false
	fl.each(func(v *Value) {
		if v.op == OpPanic {
			panics = true
		}
		if v.op != OpIf || len(v.blk.succs) != 2 {
			return
		}
		x, pol := v.args[0], 0
		for x.op == OpUn && x.tok == token.NOT {
			x, pol = x.args[0], 1-pol
		}
		if x.op == OpExtract && x.idx == 1 {
			x = x.args[0]
		}
		if x.op == OpLookup && q.key(x.args[0]) == ids && q.key(x.args[1]) == id && c.leadsToError(fl, v.blk.succs[pol]) {
			guard = true
		}
	})
	switch {
	case !panics && len(fl.returns()) > 0:
		a.bad("added", "unique", fl.returns()[0], "an id that is already in use is accepted")
		return
	case !guard:
		und("when an id is refused", fl.params[0])
		return
	}
	for _, r := range fl.returns() {
		found, other := false, false
		fl.each(func(u *Value) {
			if u.op != OpMapUpdate || q.key(u.args[0]) != ids {
				return
			}
			if q.key(u.args[1]) == id && dominates(u.blk, r.blk) {
				found = true
			} else {
				other = true
			}
		})
		switch {
		case found:
			c.ok("added", "AddVariable unique")
		case other:
			und("ids in use", r)
		default:
			a.bad("added", "unique", r, "the id of a new variable is not remembered, so another variable with the same id is accepted")
		}
	}
}

// newNetc finds the parts of a network by their types.
func newNetc(c *Ctx, fl *Flat, name string) *netc {
	a := newAlg(c, fl, name)
	n := &netc{alg: a, q: newQL(a), entry: name, totals: map[*Value]bool{}}
	if len(fl.params) == 0 {
		return nil
	}
	n.recv = fl.params[0].name
	st := structOf(fl.params[0].typ)
	if st == nil {
		return nil
	}
	isVe := func(t types.Type, s string) bool {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		nm, ok := t.(*types.Named)
		return ok && nm.Obj().Name() == s && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Name() == "ve"
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		k := n.recv + "." + f.Name()
		switch t := f.Type().Underlying().(type) {
		case *types.Slice:
			if isVe(t.Elem(), "Variable") || isVe(t.Elem(), "Factor") {
				continue
			}
			switch named(t.Elem()) {
			case "Variable":
				n.vs = k
			case "Factor":
				n.fs = k
			}
		case *types.Map:
			if isVe(t.Elem(), "Factor") {
				n.pol = k
			} else if s := structOf(t.Elem()); s != nil {
				for j := 0; j < s.NumFields(); j++ {
					ft := s.Field(j).Type()
					if isVe(ft, "Variable") {
						n.fV, n.mapT = s.Field(j).Name(), f.Type()
					} else if named(ft) == "Variable" {
						n.fD = s.Field(j).Name()
					}
				}
			}
		case *types.Basic:
			if t.Kind() == types.Int {
				n.tot = k
			}
		case *types.Pointer:
			if isVe(f.Type(), "VE") {
				n.slvT = f.Type()
			}
		}
	}
	if n.vs == "" || n.fs == "" || n.pol == "" || n.tot == "" || n.fV == "" || n.fD == "" || n.slvT == nil {
		return nil
	}
	n.q.minus = n.tot
	n.q.markErrors()
	n.q.hook = func(v *Value) (string, bool) {
		if types.Identical(v.typ, n.mapT) {
			switch v.op {
			case OpMakeMap:
				return "V", true
			case OpLoad:
				if x := v.args[0]; x.op == OpFieldAddr && n.q.key(x.args[0]) == n.recv {
					return "V", true
				}
			}
		}
		if types.Identical(v.typ, n.slvT) && v.op == OpLoad {
			if x := v.args[0]; x.op == OpFieldAddr && n.q.key(x.args[0]) == n.recv {
				return "S", true
			}
		}
		if n.totals[v] {
			return "T", true
		}
		return "", false
	}
	n.findTotals()
	return n
}

// findTotals: strings that hold the name of the total utility, or nothing if there is none.
func (n *netc) findTotals() {
	n.fl.each(func(v *Value) {
		if v.op != OpPhi || !isStringT(v.typ) {
			return
		}
		l := n.q.inner[v.blk]
		if l == nil || l.head != v.blk || n.q.dom(l) == nil || n.q.key(n.q.dom(l).list) != n.vs {
			return
		}
		x := n.q.m.atom("eq(pos" + n.q.tok(l) + "," + n.tot + ")")
		for i, a := range v.args {
			p := v.blk.preds[i]
			if !l.blocks[p] {
				if s, ok := constStr(a); !ok || s != "" {
					return
				}
				continue
			}
			if a == v {
				continue
			}
			if n.q.key(a) != n.q.tok(l)+".Name" || n.q.inner[p] != l || n.q.m.and(n.q.reach(l)[p], n.q.edge(p, v.blk)) != x {
				return
			}
		}
		n.totals[v] = true
		delete(n.q.keyM, v)
	})
	if len(n.totals) > 0 {
		// names and conditions computed so far may mention the value
		n.q.keyM = map[*Value]string{}
		n.q.vals = map[*Value]int{}
		n.q.reachM = map[*Loop]map[*Block]int{}
		n.q.colls = map[*Value]*qcoll{}
		n.q.doms = map[*Loop]*qdom{}
	}
}

func (n *netc) undec(rule string, at *Value, msg string) {
	w := ""
	if at != nil {
		w = " at " + n.fl.where(at)
	}
	n.c.undecide(rule, n.entry+": "+msg+w)
}

func (n *netc) calls(name string) []*Value {
	var out []*Value
	n.fl.each(func(v *Value) {
		if prim(v, name) && n.q.live(v.blk) {
			out = append(out, v)
		}
	})
	return out
}

func (n *netc) run() {
	news := n.calls("New")
	if len(news) != 1 {
		n.undec("variables", nil, fmt.Sprintf("%d places create the solver", len(news)))
		return
	}
	nw := news[0]
	if len(nw.args) < 4 {
		n.undec("variables", nw, "arguments of the solver")
		return
	}
	n.variables()
	n.factors(nw)
	n.weights(nw)
	if n.entry == "SolvePolicies" {
		n.solvePolicies(nw)
	} else {
		n.solve(nw)
	}
}

// eqSel: a selection compared with the expected one under a constraint.
func (n *netc) eqSel(rule, what string, at *Value, got, want, con int, msg string) bool {
	m := n.q.m
	if m.and(got, con) == m.and(want, con) {
		n.c.ok(rule, n.entry+" "+what)
		return true
	}
	if u := n.q.unknown(got); u != "" {
		n.undec(rule, at, what+": condition "+u+" not recognised in "+m.canon(got))
		return false
	}
	n.bad(rule, what, at, fmt.Sprintf("%s: done when %s; expected %s", msg, m.canon(got), m.canon(want)))
	return false
}

// known: a name made of parts of the network and arguments only.
func known(k string) bool {
	for i := 0; i < len(k); i++ {
		if k[i] == 'v' && i+1 < len(k) && k[i+1] >= '0' && k[i+1] <= '9' && (i == 0 || !isLetter(k[i-1])) {
			return false
		}
	}
	return true
}

func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }

// over: the loop around b that runs over the list or map named src; with what is wrong about it.
func (n *netc) over(b *Block, src string) (*Loop, *qcoll) {
	for l := n.q.inner[b]; l != nil; l = n.q.parent[l] {
		d := n.q.dom(l)
		if d == nil {
			continue
		}
		co := n.q.coll(d.list)
		if co.unk == "" && co.src == src && co.sel == 1 {
			return l, n.q.stage(l, n.q.tok(l), 1, b.instrs[0])
		}
	}
	return nil, nil
}

// entered: the loop is entered on every way (or in every round of the loop around it).
func (n *netc) entered(rule, what string, l *Loop, at *Value) bool {
	f := n.q.reach(n.q.parent[l])[l.head]
	m := n.q.m
	for _, s := range m.support(f) {
		if strings.HasPrefix(s, "empty{") || strings.HasPrefix(s, "?nd") {
			f = m.or(m.set(f, s, true), m.set(f, s, false))
		}
	}
	if f == 1 {
		return true
	}
	if u := n.q.unknown(f); u != "" {
		n.undec(rule, at, what+": done under "+u)
		return false
	}
	n.bad(rule, what, at, what+": done only when "+m.canon(f))
	return false
}

func oneType(m *bdd, k string) (t [3]int, con int) {
	for i := range t {
		t[i] = m.atom(fmt.Sprintf("%s=%d", k, i))
	}
	for i := range t {
		x := t[i]
		for j := range t {
			if j != i {
				x = m.and(x, m.not(t[j]))
			}
		}
		con = m.or(con, x)
	}
	return
}

// typeIs: for each node type, when the value is that type.
func (n *netc) typeIs(v *Value, key string) (t [3]int, ok bool) {
	m := n.q.m
	v = stripConv(v)
	if c, isC := constInt(v); isC {
		if c < 0 || c > 2 {
			return t, false
		}
		t[c] = 1
		return t, true
	}
	if n.q.key(v) == key {
		t, _ = oneType(m, key)
		return t, true
	}
	if v.op == OpPhi {
		l := n.q.inner[v.blk]
		if l != nil && l.head == v.blk {
			return t, false
		}
		r := n.q.reach(l)
		for i, a := range v.args {
			e := n.q.into(l, v.blk.preds[i], v.blk, r)
			x, ok := n.typeIs(a, key)
			if !ok {
				return t, false
			}
			for j := range t {
				t[j] = m.or(t[j], m.and(e, x[j]))
			}
		}
		return t, true
	}
	return t, false
}

// variables: every variable but the total utility becomes a solver variable, and is found by its name.
func (n *netc) variables() {
	m := n.q.m
	adds := n.calls("AddVariable")
	if len(adds) == 0 {
		n.bad("variables", "variables", n.fl.params[0], "no variable is handed to the solver")
		return
	}
	var loop *Loop
	var S [3]int
	all := 0
	for _, a := range adds {
		l, co := n.over(a.blk, n.vs)
		if l == nil || (loop != nil && loop != l) || len(a.args) < 4 {
			n.undec("variables", a, "loop over the variables not recognised")
			return
		}
		if loop == nil && co.bad != "" {
			n.bad("variables", "all variables", co.at, "not every variable is handed to the solver: "+co.bad)
			return
		}
		loop = l
		t := n.q.tok(l)
		if k := n.q.posKey(a.args[1]); k != "pos"+t {
			if n.readsByID() && (known(k) || stripConv(a.args[1]).op == OpBuiltin || stripConv(a.args[1]).op == OpBin || stripConv(a.args[1]).op == OpPhi) {
				n.bad("variables", "id", a, "variables are looked up by id as positions in the network, so the id must be the position")
			} else {
				n.undec("variables", a, "id "+k)
			}
			return
		}
		oc := stripConv(a.args[3])
		if oc.op != OpBuiltin || oc.name != "len" || n.q.key(oc.args[0]) != t+".Outcomes" {
			if _, isC := constInt(oc); isC || oc.op == OpBuiltin && oc.name == "len" && known(n.q.key(oc.args[0])) || oc.op == OpBuiltin && (oc.name == "min" || oc.name == "max") || oc.op == OpBin {
				n.bad("variables", "outcomes", a, "the number of outcomes handed to the solver is not that of the variable")
			} else {
				n.undec("variables", a, "number of outcomes")
			}
			return
		}
		if narrowed(a.args[3]) {
			n.bad("variables", "outcomes", a, "the number of outcomes is cut off to 8 bits")
			return
		}
		ty, ok := n.typeIs(a.args[2], t+".NodeType")
		if !ok {
			n.undec("variables", a, "node type")
			return
		}
		c := n.q.cond(l, a.blk)
		if m.and(all, c) != 0 {
			n.undec("variables", a, "several places add a variable")
			return
		}
		all = m.or(all, c)
		for i := range S {
			S[i] = m.or(S[i], m.and(c, ty[i]))
		}
	}
	t := n.q.tok(loop)
	N, con := oneType(m, t+".NodeType")
	X := m.atom("eq(pos" + t + "," + n.tot + ")")
	P := m.atom("in(" + n.pol + "," + t + ".Name)")
	con = m.and(con, m.or(m.not(X), N[2]))
	con = m.and(con, m.or(m.not(X), m.not(m.atom(n.tot+"=-1"))))
	want := [3]int{m.or(N[0], m.and(N[1], P)), m.and(N[1], m.not(P)), N[2]}
	names := []string{"chance variables", "decisions", "utilities"}
	for i := range S {
		if !n.eqSel("variables", names[i], adds[0], S[i], m.and(want[i], m.not(X)), con, "every variable but the total utility must be handed to the solver with its own type, and a decision that has a policy as a chance variable ("+names[i]+")") {
			return
		}
	}
	if !n.entered("variables", "variables", loop, adds[0]) {
		return
	}
	n.names(loop, adds, X, con)
}

// narrowed: a conversion on the way keeps less than 16 bits.
func narrowed(v *Value) bool {
	for v.op == OpConvert || v.op == OpChangeType {
		if b, ok := v.typ.Underlying().(*types.Basic); ok && (b.Kind() == types.Int8 || b.Kind() == types.Uint8) {
			return true
		}
		v = v.args[0]
	}
	return false
}

// readsByID: the network's variables are indexed by solver ids.
func (n *netc) readsByID() bool {
	found := false
	n.fl.each(func(v *Value) {
		if v.op == OpIndexAddr && n.q.key(v.args[0]) == n.vs && strings.HasSuffix(n.q.key(v.args[1]), ".id") {
			found = true
		}
	})
	return found
}

// parts of the entry stored for a name: definition and solver variable.
func (n *netc) parts(p, at *Value) (d, v *Value) {
	p = stripCT(p)
	st := structOf(p.typ)
	set := func(x *Value) {
		x = stripCT(x)
		if x.op == OpLoad && x.args[0].op == OpAlloc {
			if s := singleStore(x.args[0]); s != nil {
				x = s
			}
		}
		if x.op != OpStruct {
			return
		}
		for i, a := range x.args {
			switch st.Field(i).Name() {
			case n.fD:
				d = a
			case n.fV:
				v = a
			}
		}
	}
	if st == nil {
		return
	}
	field := func(fa *Value) {
		for _, s := range fa.uses {
			if s.op == OpStore && s.args[0] == fa {
				switch fieldName(fa) {
				case n.fD:
					d = s.args[1]
				case n.fV:
					v = s.args[1]
				}
			}
		}
	}
	switch p.op {
	case OpStruct:
		set(p)
	case OpAlloc:
		for _, u := range p.uses {
			if u.op == OpStore && u.args[0] == p {
				set(u.args[1])
			}
			if u.op == OpFieldAddr {
				field(u)
			}
		}
	case OpIndexAddr:
		for _, u := range p.args[0].uses {
			if u.op != OpIndexAddr || stripConv(u.args[1]) != stripConv(p.args[1]) || !(u.blk == at.blk || dominates(u.blk, at.blk)) {
				continue
			}
			for _, s := range u.uses {
				if s.op == OpStore && s.args[0] == u {
					set(s.args[1])
				}
				if s.op == OpFieldAddr {
					field(s)
				}
			}
		}
	case OpLoad:
		return n.parts(p.args[0], at)
	}
	return
}

// names: the map from names to variables.
func (n *netc) names(loop *Loop, adds []*Value, X, con int) {
	m := n.q.m
	t := n.q.tok(loop)
	all, cnt := 0, 0
	var first *Value
	okAll := true
	n.fl.each(func(u *Value) {
		if u.op != OpMapUpdate || !types.Identical(u.args[0].typ, n.mapT) || !n.q.live(u.blk) || !okAll {
			return
		}
		if !loop.blocks[u.blk] {
			n.undec("names", u, "names are entered elsewhere")
			okAll = false
			return
		}
		cnt++
		if first == nil {
			first = u
		}
		if k := n.q.key(u.args[1]); k != t+".Name" {
			if known(k) {
				n.bad("names", "key", u, "a variable is entered under "+k+", not under its name")
			} else {
				n.undec("names", u, "key "+k)
			}
			okAll = false
			return
		}
		d, v := n.parts(u.args[2], u)
		if d == nil || v == nil {
			if x := stripCT(u.args[2]); x.op == OpIndexAddr {
				if _, isC := constInt(x.args[1]); isC {
					n.bad("names", "entry", u, "every variable is entered with the same entry")
					okAll = false
					return
				}
			}
			n.undec("names", u, "entry not recognised")
			okAll = false
			return
		}
		if k := n.q.key(d); k != t {
			if known(k) {
				n.bad("names", "definition", u, "the definition entered for a variable is another one: "+k)
			} else {
				n.undec("names", u, "definition "+k)
			}
			okAll = false
			return
		}
		for _, lf := range leavesAt(v, u) {
			if !prim(lf, "AddVariable") {
				n.undec("names", u, "solver variable not recognised")
				okAll = false
				return
			}
		}
		all = m.or(all, n.q.cond(loop, u.blk))
	})
	if !okAll {
		return
	}
	if cnt == 0 {
		n.undec("names", adds[0], "no map of names")
		return
	}
	n.eqSel("names", "all names", first, all, m.not(X), con, "every solver variable must be found by its name")
}

type nsite struct {
	v  *Value
	at *Value
}

// listSites: the elements of a list built by appending, other lists appended included.
func (n *netc) listSites(v *Value, home *Loop) (out []nsite, ok bool) {
	seen := map[*Value]bool{}
	ok = true
	var w func(x *Value)
	w = func(x *Value) {
		x = stripCT(x)
		if seen[x] || !ok {
			return
		}
		seen[x] = true
		if emptyList(x, map[*Value]bool{}) {
			return
		}
		switch {
		case x.op == OpPhi:
			for i, a := range x.args {
				if i < len(x.blk.preds) && n.q.gone(x.blk.preds[i]) {
					continue
				}
				w(a)
			}
		case x.op == OpBuiltin && x.name == "append":
			w(x.args[0])
			if !n.q.live(x.blk) {
				return
			}
			if el := appended(x); el != nil {
				for _, e := range el {
					out = append(out, nsite{e, x})
				}
				return
			}
			if n.q.inner[x.blk] != home {
				ok = false
				return
			}
			w(x.args[1])
		case x.op == OpCall && strings.HasPrefix(x.name, "slices.Concat"):
			ok = false
		default:
			ok = false
		}
	}
	w(v)
	return
}

// factors: tables and policies.
func (n *netc) factors(nw *Value) {
	sites, ok := n.listSites(nw.args[1], n.q.inner[nw.blk])
	if !ok || len(sites) == 0 {
		n.undec("tables", nw, "list of factors not recognised")
		return
	}
	m := n.q.m
	var tl, pl *Loop
	tsel, psel, norm := 0, 0, 0
	var tat, pat, nat *Value
	for _, s := range sites {
		if l, co := n.over(s.at.blk, n.fs); l != nil {
			if tl != nil && tl != l {
				n.undec("tables", s.at, "several loops over the factors")
				return
			}
			if tl == nil && co.bad != "" {
				n.bad("tables", "all tables", co.at, "not every table becomes a factor: "+co.bad)
				return
			}
			tl, tat = l, s.at
			c := n.q.cond(l, s.at.blk)
			if m.and(tsel, c) != 0 {
				n.undec("tables", s.at, "several places add a factor")
				return
			}
			tsel = m.or(tsel, c)
			if !n.tableFactor(s, l, &norm, &nat) {
				return
			}
			continue
		}
		if l, co := n.over(s.at.blk, n.pol); l != nil {
			if pl != nil && pl != l {
				n.undec("policies", s.at, "several loops over the policies")
				return
			}
			if pl == nil && co.bad != "" {
				n.bad("policies", "all policies", co.at, "not every policy becomes a factor: "+co.bad)
				return
			}
			pl, pat = l, s.at
			psel = m.or(psel, n.q.cond(l, s.at.blk))
			if !n.policyFactor(s, l) {
				return
			}
			continue
		}
		n.undec("tables", s.at, "origin of a factor not recognised")
		return
	}
	if tl == nil {
		n.bad("tables", "all tables", nw, "no table becomes a factor")
		return
	}
	t := n.q.tok(tl)
	if nat == nil {
		n.bad("normalized", "normalization", tat, "the tables of chance variables are not normalized")
		return
	}
	X := m.atom("eq(" + t + ".For,T)")
	tsel = n.total(tsel, t)
	norm = n.total(norm, t)
	N, con := oneType(m, "V{"+t+".For}."+n.fD+".NodeType")
	E, con2 := oneType(m, "V{"+t+".For}."+n.fV+".nodeType")
	con = m.and(con, con2)
	con = m.and(con, m.or(m.not(E[1]), N[1]))
	con = m.and(con, m.or(m.not(E[2]), N[2]))
	con = m.and(con, m.or(m.not(N[2]), E[2]))
	con = m.and(con, m.or(m.not(N[0]), E[0]))
	con = m.and(con, m.or(m.not(X), N[2]))
	con = m.and(con, m.or(m.not(X), m.not(m.atom(n.tot+"=-1"))))
	ncon := m.and(m.and(con, tsel), m.or(m.not(E[0]), m.not(N[2])))
	if !n.eqSel("normalized", "chance variables", nat, m.and(norm, tsel), N[0], ncon, "exactly the tables of chance variables are normalized") {
		return
	}
	if !n.eqSel("tables", "all tables", tat, tsel, m.and(m.not(X), m.not(N[1])), con, "the table of every chance and utility variable but the total must become a factor") {
		return
	}
	if !n.entered("tables", "tables", tl, tat) {
		return
	}
	n.dependencies(nw, tl, X, N, E, con)
	if pl == nil {
		n.bad("policies", "all policies", nw, "policies do not become factors")
		return
	}
	pt := n.q.tok(pl)
	// the key of the current policy
	pk := n.policyKey(pl)
	want := 1
	var ev, ig string
	for _, p := range n.fl.params[1:] {
		switch p.typ.Underlying().(type) {
		case *types.Map:
			ev = p.name
		case *types.Basic:
			if isBoolT(p.typ) && n.entry != "SolvePolicies" {
				ig = p.name
			}
		}
	}
	_ = pt
	if ev != "" && ig != "" {
		want = m.not(m.and(m.atom(ig), m.atom("in("+ev+","+pk+")")))
	}
	if !n.eqSel("policies", "all policies", pat, psel, want, 1, "every policy is a factor, except those of decisions with evidence when policies are to be ignored") {
		return
	}
	n.entered("policies", "policies", pl, pat)
}

// total: the test for the total utility under one name.
func (n *netc) total(f int, t string) int {
	return n.q.rename(f, func(s string) string {
		for _, k := range []string{"eq(" + t + ".For," + n.vs + "[" + n.tot + "].Name)", "eq(" + n.vs + "[" + n.tot + "].Name," + t + ".For)", "eq(T," + t + ".For)"} {
			if s == k {
				return "eq(" + t + ".For,T)"
			}
		}
		return s
	})
}

func (n *netc) policyKey(l *Loop) string {
	if n.q.dom(l).isMap {
		return n.q.tok(l) + ".key"
	}
	return n.q.tok(l)
}

// seqPart: a single value or the elements of a list.
type seqPart struct {
	one  string
	co   *qcoll
	v    *Value
	list *Value
}

func (n *netc) seqOf(v *Value) ([]seqPart, bool) {
	v = n.q.pick(stripCT(v))
	switch {
	case emptyList(v, map[*Value]bool{}):
		return nil, true
	case v.op == OpBuiltin && v.name == "append":
		if l := n.q.inner[v.blk]; l != nil {
			if x := stripCT(v.args[0]); x.op == OpPhi && x.blk == l.head {
				break
			}
		}
		a, ok := n.seqOf(v.args[0])
		if !ok {
			return nil, false
		}
		if el := appended(v); el != nil {
			for _, e := range el {
				a = append(a, seqPart{one: n.q.key(e), v: e})
			}
			return a, true
		}
		b, ok := n.seqOf(v.args[1])
		return append(a, b...), ok
	case v.op == OpSlice && v.args[0].op == OpAlloc && v.args[1] == nil && v.args[2] == nil:
		type el struct {
			i int64
			v *Value
		}
		var els []el
		for _, u := range v.args[0].uses {
			if u.op == OpIndexAddr {
				i, ok := constInt(u.args[1])
				s := singleStore(u)
				if !ok || s == nil {
					return nil, false
				}
				els = append(els, el{i, s})
			}
		}
		sort.Slice(els, func(i, j int) bool { return els[i].i < els[j].i })
		var out []seqPart
		for _, e := range els {
			out = append(out, seqPart{one: n.q.key(e.v), v: e.v})
		}
		return out, true
	case v.op == OpMakeSlice:
		// filled by a loop, and the last place separately
		var lone []*Value
		var inLoop *Value
		for _, u := range v.uses {
			if u.op != OpIndexAddr || u.args[0] != v {
				continue
			}
			for _, s := range u.uses {
				if s.op == OpStore && s.args[0] == u && n.q.live(s.blk) {
					if n.q.inner[s.blk] == n.q.inner[v.blk] {
						lone = append(lone, s)
					} else {
						inLoop = s
					}
				}
			}
		}
		if len(lone) == 1 && inLoop != nil {
			l := n.q.inner[inLoop.blk]
			d := n.q.dom(l)
			if d == nil || d.isMap || n.q.cond(l, inLoop.blk) != 1 || stripConv(inLoop.args[0].args[1]) != stripConv(d.ct.iv.cur) {
				return nil, false
			}
			ln, pos := n.p(v.args[0]), n.p(lone[0].args[0].args[1])
			if len(d.ct.lo) != 0 || !d.ct.hi.equal(pos) || !ln.equal(pos.add(polyConst(1), 1)) {
				return nil, false
			}
			co := n.q.stage(l, n.q.key(inLoop.args[1]), 1, inLoop)
			co.selT = n.q.m.canon(co.sel)
			co.ord = n.q.coll(d.list).ord
			return []seqPart{{co: co, list: v}, {one: n.q.key(lone[0].args[1]), v: lone[0].args[1]}}, true
		}
	}
	co := n.q.coll(v)
	if co.unk != "" {
		return nil, false
	}
	return []seqPart{{co: co, list: v}}, true
}

// parents: the list is the solver variables of the parents in their order; rest is what follows.
func (n *netc) isParents(rule string, list, at *Value, t string) (rest []seqPart, res int) {
	ps, ok := n.seqOf(list)
	if !ok || len(ps) == 0 {
		if st := n.fixedPlace(list, t); st != nil {
			n.bad(rule, "parents", st, "a parent is put at a fixed place of the list")
			return nil, -1
		}
		n.undec(rule, at, "list of variables not recognised")
		return nil, 0
	}
	p := ps[0]
	if p.co == nil {
		if known(p.one) {
			n.bad(rule, "parents", at, "the variables of a factor must start with the parents; they start with "+p.one)
			return nil, -1
		}
		n.undec(rule, at, "list of variables starts with "+p.one)
		return nil, 0
	}
	co := p.co
	if co.src != t+".Given" {
		if known(co.src) && known(co.expr) {
			n.bad(rule, "parents", at, "the variables of a factor are taken from "+co.src)
			return nil, -1
		}
		n.undec(rule, at, "variables taken from "+co.src)
		return nil, 0
	}
	if co.bad != "" {
		n.bad(rule, "parents", co.at, "not every parent is included: "+co.bad)
		return nil, -1
	}
	if co.sel != 1 {
		if u := n.q.unknown(co.sel); u != "" {
			n.undec(rule, at, "parents under "+u)
			return nil, 0
		}
		n.bad(rule, "parents", at, "parents are included only when "+n.q.m.canon(co.sel))
		return nil, -1
	}
	if co.ord == 1 {
		n.bad(rule, "parents", at, "the parents are in reversed order")
		return nil, -1
	}
	if co.expr != "V{·}."+n.fV {
		if known(co.expr) {
			n.bad(rule, "parents", at, "a parent is represented by "+co.expr)
			return nil, -1
		}
		n.undec(rule, at, "parent "+co.expr)
		return nil, 0
	}
	n.c.ok(rule, n.entry+" parents in their order")
	return ps[1:], 1
}

// fixedPlace: a store of a parent, in a loop over the parents, at a constant position.
func (n *netc) fixedPlace(list *Value, t string) *Value {
	for i := 0; i < 4 && list != nil; i++ {
		list = stripCT(list)
		if list.op == OpBuiltin && list.name == "append" {
			list = list.args[0]
			continue
		}
		break
	}
	if list == nil || list.op != OpMakeSlice {
		return nil
	}
	for _, ia := range list.uses {
		if ia.op != OpIndexAddr || ia.args[0] != list {
			continue
		}
		if _, isC := constInt(ia.args[1]); !isC {
			continue
		}
		for _, s := range ia.uses {
			if s.op != OpStore || s.args[0] != ia || !n.q.live(s.blk) {
				continue
			}
			if l := n.q.inner[s.blk]; l != nil && n.q.dom(l) != nil && n.q.key(n.q.dom(l).list) == t+".Given" && n.q.key(s.args[1]) == "V{"+n.q.tok(l)+"}."+n.fV {
				return s
			}
		}
	}
	return nil
}

// tableFactor: the factor of a table.
func (n *netc) tableFactor(s nsite, l *Loop, norm *int, nat **Value) bool {
	m := n.q.m
	t := n.q.tok(l)
	var cr, nf *Value
	for _, lf := range leavesAt(s.v, s.at) {
		switch {
		case prim(lf, "CreateFactor"):
			cr = lf
		case prim(lf, "NormalizeFor"):
			nf = lf
		case prim(lf, "Normalize"):
			n.bad("normalized", "normalization", lf, "a table is normalized as a whole, not per combination of parents")
			return false
		default:
			n.undec("tables", s.at, "factor not recognised")
			return false
		}
	}
	forK := "V{" + t + ".For}." + n.fV
	isFor := func(x *Value, list *Value) (bool, string) {
		k := n.q.key(x)
		if k == forK {
			return true, k
		}
		// last element of the list
		x = stripCT(x)
		if x.op == OpLoad && x.args[0].op == OpIndexAddr {
			ia := x.args[0]
			if stripCT(ia.args[0]) == stripCT(list) {
				if p, q := n.p(ia.args[1]), n.lenPoly(list); q != nil && p.equal(q.add(polyConst(1), -1)) {
					return true, k
				}
				if _, ok := constInt(ia.args[1]); ok {
					return false, "a parent"
				}
			}
		}
		return false, k
	}
	if nf != nil {
		for _, lf := range leavesAt(nf.args[1], nf) {
			if prim(lf, "CreateFactor") && (cr == nil || cr == lf) {
				cr = lf
			} else {
				n.undec("normalized", nf, "factor normalized not recognised")
				return false
			}
		}
	}
	if cr == nil || len(cr.args) < 3 {
		n.undec("tables", s.at, "factor not recognised")
		return false
	}
	if k := n.q.key(cr.args[2]); k != t+".Table" {
		if known(k) {
			n.bad("tables", "table", cr, "the table of a factor is "+k)
		} else {
			n.undec("tables", cr, "table "+k)
		}
		return false
	}
	rest, r := n.isParents("parents", cr.args[1], cr, t)
	if r != 1 {
		return false
	}
	if len(rest) != 1 || rest[0].co != nil || rest[0].one != forK {
		d := ""
		for _, x := range rest {
			if x.co != nil {
				d += " " + x.co.src
			} else {
				d += " " + x.one
			}
		}
		if known(d) {
			n.bad("tables", "own variable", cr, "the variable itself must follow the parents, as the last one; found:"+d)
		} else {
			n.undec("tables", cr, "last variable"+d)
		}
		return false
	}
	if nf == nil {
		return true
	}
	if ok, k := isFor(nf.args[2], cr.args[1]); !ok {
		if known(k) {
			n.bad("normalized", "normalization", nf, "a table is normalized for another variable than its own: "+k)
		} else {
			n.undec("normalized", nf, "normalized for "+k)
		}
		return false
	}
	*norm = m.or(*norm, m.and(n.q.cond(l, nf.blk), n.q.cond(l, s.at.blk)))
	*nat = nf
	return true
}

// lenPoly: the length of a list built by appending single values.
func (n *netc) lenPoly(list *Value) Poly {
	var out Poly
	n.fl.each(func(v *Value) {
		if v.op == OpBuiltin && v.name == "len" && stripCT(v.args[0]) == stripCT(list) {
			out = n.p(v)
		}
	})
	return out
}

// dependencies: the parents of open decisions.
func (n *netc) dependencies(nw *Value, tl *Loop, X int, N, E [3]int, con int) {
	m := n.q.m
	t := n.q.tok(tl)
	mp := stripCT(nw.args[2])
	if mp.op != OpMakeMap {
		n.undec("parents", nw, "decision parents not recognised")
		return
	}
	all := 0
	var at *Value
	for _, u := range mp.uses {
		if u.op != OpMapUpdate || u.args[0] != mp || !n.q.live(u.blk) {
			continue
		}
		if !tl.blocks[u.blk] {
			n.undec("parents", u, "decision parents entered elsewhere")
			return
		}
		if k := n.q.key(u.args[1]); k != "V{"+t+".For}."+n.fV {
			if known(k) {
				n.bad("parents", "decision", u, "the parents of a decision are entered for "+k)
			} else {
				n.undec("parents", u, "decision "+k)
			}
			return
		}
		rest, r := n.isParents("parents", u.args[2], u, t)
		if r != 1 {
			return
		}
		if len(rest) > 0 {
			n.bad("parents", "decision parents", u, "something else is entered among the parents of a decision")
			return
		}
		all = m.or(all, n.q.cond(tl, u.blk))
		at = u
	}
	if at == nil {
		n.bad("parents", "decision parents", nw, "the parents of decisions are not handed to the solver")
		return
	}
	n.eqSel("parents", "open decisions", at, n.total(all, t), m.and(m.not(X), E[1]), con, "the parents of every decision without a policy must be handed to the solver")
}

// policyFactor: the factor of a policy.
func (n *netc) policyFactor(s nsite, l *Loop) bool {
	m := n.q.m
	pk := n.policyKey(l)
	pf := n.pol + "{" + pk + "}"
	lv := leavesAt(s.v, s.at)
	for _, x := range lv {
		if prim(x, "Normalize") || prim(x, "Invert") || prim(x, "Marginal") {
			n.bad("policies", "table", x, "a policy is changed by "+x.fn.Name()+" before it is handed to the solver")
			return false
		}
	}
	if len(lv) != 1 || !prim(lv[0], "CreateFactor") {
		n.undec("policies", s.at, "factor not recognised")
		return false
	}
	cr := lv[0]
	if k := n.q.key(cr.args[2]); k != pf+".data" {
		if known(k) {
			n.bad("policies", "table", cr, "the table of a policy is "+k)
		} else {
			n.undec("policies", cr, "table "+k)
		}
		return false
	}
	// the variables, in their order, at most of another type
	list := stripCT(cr.args[1])
	if n.q.key(list) == pf+".variables" {
		n.bad("policies", "variables", cr, "decisions with a policy stay decisions in the policies of others")
		return false
	}
	var stores []*Value
	if list.op == OpMakeSlice {
		for _, u := range list.uses {
			if u.op != OpIndexAddr || u.args[0] != list {
				continue
			}
			for _, x := range u.uses {
				if x.op == OpStore && x.args[0] == u && n.q.live(x.blk) {
					stores = append(stores, x)
				}
			}
		}
	}
	var vl *Loop
	var val *Value
	switch {
	case len(stores) == 1:
		st := stores[0]
		vl, val = n.q.inner[st.blk], st.args[1]
		if vl == nil || n.q.dom(vl) == nil || n.q.cond(vl, st.blk) != 1 || stripConv(st.args[0].args[1]) != stripConv(n.q.dom(vl).ct.iv.cur) {
			n.undec("policies", cr, "variables of a policy not recognised")
			return false
		}
	case list.op == OpPhi:
		sites, ok := n.q.appends(list)
		if !ok || len(sites) != 1 {
			n.undec("policies", cr, "variables of a policy not recognised")
			return false
		}
		vl, val = sites[0].l, sites[0].v
		if vl == nil || n.q.dom(vl) == nil || n.q.cond(vl, sites[0].at.blk) != 1 || n.q.dom(vl).ct.iv.step < 0 {
			n.undec("policies", cr, "variables of a policy not recognised")
			return false
		}
	default:
		n.undec("policies", cr, "variables of a policy not recognised")
		return false
	}
	d := n.q.dom(vl)
	if k := n.q.key(d.list); k != pf+".variables" {
		n.undec("policies", cr, "variables from "+k)
		return false
	}
	if d.partial != "" {
		n.bad("policies", "variables", d.exit, "not all variables of a policy are used: the loop "+d.partial)
		return false
	}
	vt := n.q.tok(vl)
	val = stripCT(val)
	if val.op == OpLoad && val.args[0].op == OpAlloc {
		if x := singleStore(val.args[0]); x != nil {
			val = x
		}
	}
	if n.q.key(val) == vt {
		n.bad("policies", "variables", cr, "decisions with a policy stay decisions in the policies of others")
		return false
	}
	st := structOf(val.typ)
	if val.op != OpStruct || st == nil {
		n.undec("policies", cr, "variable of a policy")
		return false
	}
	for i, a := range val.args {
		f := st.Field(i).Name()
		if f != "nodeType" {
			if k := n.q.key(a); k != vt+"."+f {
				n.undec("policies", cr, "variable of a policy: "+k)
				return false
			}
			continue
		}
		ty, ok := n.typeIs(a, vt+".nodeType")
		if !ok {
			n.undec("policies", cr, "type of a policy's variable")
			return false
		}
		N, con := oneType(m, vt+".nodeType")
		P := m.atom("P")
		got := n.q.rename(ty[0], func(s string) string {
			if strings.HasPrefix(s, "in("+n.pol+",") && strings.Contains(s, vt+".id]") && (strings.HasSuffix(s, "."+n.fD+".Name)") || strings.HasPrefix(s, "in("+n.pol+","+n.vs+"[")) {
				return "P"
			}
			return s
		})
		if !n.eqSel("policies", "solved decisions", cr, got, m.or(N[0], m.and(N[1], P)), con, "within a policy, a decision that has itself a policy counts as a chance variable, and nothing else changes its type") {
			return false
		}
	}
	return true
}

// weights of the utilities.
func (n *netc) weights(nw *Value) {
	m := n.q.m
	w := stripCT(nw.args[3])
	var list *Value
	var nilC int
	var walk func(v *Value, c int) bool
	walk = func(v *Value, c int) bool {
		v = stripCT(v)
		switch {
		case isNilConst(v):
			nilC = m.or(nilC, c)
		case v.op == OpPhi:
			l := n.q.inner[v.blk]
			if l != nil && l.head == v.blk {
				if list != nil && list != v {
					return false
				}
				list = v
				return true
			}
			r := n.q.reach(l)
			for i, a := range v.args {
				if n.q.gone(v.blk.preds[i]) {
					continue
				}
				if !walk(a, n.q.into(l, v.blk.preds[i], v.blk, r)) {
					return false
				}
			}
		default:
			if list != nil && list != v {
				return false
			}
			list = v
		}
		return true
	}
	if !walk(w, 1) {
		n.undec("weights", nw, "weights not recognised")
		return
	}
	if list == nil {
		n.bad("weights", "weights", nw, "the weights of the total utility are not handed to the solver")
		return
	}
	tu := n.vs + "[" + n.tot + "].Factor"
	// one weight per utility but the total
	var val *Value
	var l *Loop
	switch list.op {
	case OpMakeSlice:
		for _, u := range list.uses {
			if u.op != OpIndexAddr || u.args[0] != list {
				continue
			}
			for _, s := range u.uses {
				if s.op == OpStore && s.args[0] == u && n.q.live(s.blk) {
					if val != nil {
						n.undec("weights", s, "weights set at several places")
						return
					}
					val = s.args[1]
					l = n.q.inner[s.blk]
					d := n.q.dom(l)
					if l == nil || d == nil || d.isMap || stripConv(u.args[1]) != stripConv(d.ct.iv.cur) {
						if k := n.q.key(u.args[1]); strings.HasPrefix(k, "ix("+tu+".Given,") {
							n.bad("weights", "order", s, "the weights are in the order of the total's parents, not in that of the variables")
							return
						}
						n.undec("weights", s, "position of a weight")
						return
					}
					if c := n.q.cond(l, s.blk); c != 1 {
						if n.q.unknown(c) == "" {
							n.bad("weights", "all weights", s, "a weight is set only when "+m.canon(c))
						} else {
							n.undec("weights", s, "condition of a weight")
						}
						return
					}
				}
			}
		}
	default:
		sites, ok := n.q.appends(list)
		if !ok || len(sites) != 1 {
			n.undec("weights", nw, "weights not recognised")
			return
		}
		val, l = sites[0].v, sites[0].l
		if l == nil {
			n.undec("weights", nw, "weights not recognised")
			return
		}
		n.weightLoop(l, sites[0].at.blk, val, tu, nw)
		n.weightNil(nilC, nw)
		return
	}
	if val == nil {
		n.undec("weights", nw, "weights not recognised")
		return
	}
	n.weightLoop(l, nil, val, tu, nw)
	n.weightNil(nilC, nw)
}

func (n *netc) weightNil(nilC int, nw *Value) {
	m := n.q.m
	nilC = n.q.rename(nilC, func(s string) string {
		if s == n.tot+"=-1" {
			return "none"
		}
		return s
	})
	n.eqSel("weights", "no weights", nw, nilC, m.atom("none"), 1, "utilities are unweighted exactly if there is no total utility")
}

// weightLoop: the weight of each utility is the one at its position among the parents of the total.
func (n *netc) weightLoop(l *Loop, b *Block, val *Value, tu string, nw *Value) {
	m := n.q.m
	d := n.q.dom(l)
	if d == nil || d.isMap {
		n.undec("weights", nw, "loop over the utilities")
		return
	}
	con := 1
	if b != nil {
		con = n.q.cond(l, b)
	}
	co := n.q.stage(l, n.q.tok(l), con, nw)
	if co.unk != "" {
		n.undec("weights", nw, "utilities: "+co.unk)
		return
	}
	t := n.q.tok(l)
	if co.src == tu+".Given" {
		n.bad("weights", "order", d.exit, "the weights are in the order of the total's parents, not in that of the variables")
		return
	}
	if co.src != n.vs {
		n.undec("weights", nw, "utilities from "+co.src)
		return
	}
	if co.bad != "" {
		n.bad("weights", "all weights", co.at, "not every utility gets a weight: "+co.bad)
		return
	}
	if co.ord == 1 {
		n.bad("weights", "order", d.exit, "the weights are in reversed order")
		return
	}
	N, cn := oneType(m, "·.NodeType")
	X := m.atom("eq(pos·," + n.tot + ")")
	cn = m.and(cn, m.or(m.not(X), N[2]))
	cn = m.and(cn, m.or(m.not(X), m.not(m.atom(n.tot+"=-1"))))
	if !n.eqSel("weights", "utilities", nw, co.sel, m.and(N[2], m.not(X)), cn, "there is one weight for every utility but the total") {
		return
	}
	v := stripCT(val)
	if v.op != OpLoad || v.args[0].op != OpIndexAddr {
		if v.op == OpBin || v.op == OpBuiltin {
			for _, x := range v.args {
				if x := stripCT(x); x.op == OpLoad && x.args[0].op == OpIndexAddr && n.q.key(x.args[0].args[0]) == tu+".Table" {
					n.bad("weights", "value", v, "a weight is changed before it is handed to the solver")
					return
				}
			}
		}
		n.undec("weights", nw, "weight not recognised")
		return
	}
	tb, ix := n.q.key(v.args[0].args[0]), n.q.key(v.args[0].args[1])
	// the name of the utility in terms of the variables
	in := n.q.coll(d.list)
	ixs := n.q.sub(d, in, ix, "·")
	_ = t
	if tb != tu+".Table" {
		if known(tb) {
			n.bad("weights", "table", val, "the weights are taken from "+tb)
		} else {
			n.undec("weights", val, "weights from "+tb)
		}
		return
	}
	if ixs == "ix("+tu+".Given,·.Name)" {
		n.c.ok("weights", n.entry+" weight at the position among the parents")
		return
	}
	if pk := n.q.posKey(v.args[0].args[1]); strings.HasPrefix(pk, "pos") {
		// found by searching the parents
		for _, x := range n.loops {
			if pk == "pos"+n.q.tok(x) {
				dx := n.q.dom(x)
				if dx != nil && n.q.key(dx.list) == tu+".Given" {
					n.undec("weights", val, "position found by a search")
					return
				}
			}
		}
		n.bad("weights", "position", val, "a weight must be the one at the position of its utility among the total's parents, not at its own position")
		return
	}
	if known(ixs) {
		n.bad("weights", "position", val, "a weight must be the one at the position of its utility among the total's parents, not at "+ixs)
		return
	}
	if x := stripConv(v.args[0].args[1]); x.op == OpBin || x.op == OpBuiltin {
		for _, y := range x.args {
			if k := n.q.sub(d, in, n.q.key(y), "·"); k == "ix("+tu+".Given,·.Name)" {
				n.bad("weights", "position", val, "a weight must be the one at the position of its utility among the total's parents, not at a position computed from it")
				return
			}
		}
	}
	n.undec("weights", val, "position "+ixs)
}

// solve: evidence, query and utility handed to the solver, and the results of a query.
func (n *netc) solve(nw *Value) {
	var cs []*Value
	for _, nm := range []string{"SolveQuery", "SolveUtility"} {
		cs = append(cs, n.calls(nm)...)
	}
	if len(cs) != 1 {
		n.undec("evidence", nil, fmt.Sprintf("%d places solve", len(cs)))
		return
	}
	s := cs[0]
	if s.fn.Name() != n.entry {
		n.bad("query", "kind", s, n.entry+" calls "+s.fn.Name()+" of the solver")
		return
	}
	var ev, qu, ut string
	for _, p := range n.fl.params[1:] {
		switch p.typ.Underlying().(type) {
		case *types.Map:
			ev = p.name
		case *types.Slice:
			qu = p.name
		case *types.Basic:
			if isStringT(p.typ) {
				ut = p.name
			}
		}
	}
	if len(s.args) < 3 || ev == "" || qu == "" {
		n.undec("evidence", s, "arguments of the solver")
		return
	}
	m := n.q.m
	// evidence
	co := n.q.coll(s.args[1])
	switch {
	case co.unk != "":
		n.undec("evidence", s, co.unk)
	case co.src == "nothing":
		n.bad("evidence", "evidence", s, "no evidence is handed to the solver")
	case co.src != ev:
		n.undec("evidence", s, "evidence from "+co.src)
	case co.bad != "":
		n.bad("evidence", "all evidence", co.at, "not every piece of evidence is handed to the solver: "+co.bad)
	default:
		if !n.eqSel("evidence", "all evidence", s, co.sel, 1, 1, "every piece of evidence must be handed to the solver") {
			break
		}
		want := "<Variable:V{·.key}." + n.fV + ",Value:ix(V{·.key}." + n.fD + ".Outcomes," + ev + "{·.key})>"
		alt := "<Variable:V{·.key}." + n.fV + ",Value:ix(" + n.vs + "[V{·.key}." + n.fV + ".id].Outcomes," + ev + "{·.key})>"
		if co.expr == want || co.expr == alt {
			n.c.ok("evidence", n.entry+" outcome index of the named variable")
		} else if known(co.expr) && strings.HasPrefix(co.expr, "<") {
			n.bad("evidence", "evidence", s, "a piece of evidence must be the named variable with the index of the given outcome among its outcomes, not "+co.expr)
		} else if pre := strings.Index(co.expr, ",Value:"); pre > 0 && strings.HasPrefix(co.expr, "<") && n.arith(s.args[1]) {
			n.bad("evidence", "evidence", s, "the index of the outcome is changed before it is handed to the solver")
		} else {
			n.undec("evidence", s, "evidence "+co.expr)
		}
	}
	// query
	co = n.q.coll(s.args[2])
	switch {
	case co.unk != "":
		n.undec("query", s, co.unk)
	case co.src == "nothing":
		n.bad("query", "query", s, "no query variable is handed to the solver")
	case co.src != qu:
		n.undec("query", s, "query from "+co.src)
	case co.bad != "":
		n.bad("query", "all query variables", co.at, "not every query variable is handed to the solver: "+co.bad)
	default:
		if !n.eqSel("query", "all query variables", s, co.sel, 1, 1, "every query variable must be handed to the solver") {
			break
		}
		if co.expr == "V{·}."+n.fV {
			n.c.ok("query", n.entry+" query variables by name")
		} else if known(co.expr) {
			n.bad("query", "query", s, "a query variable must be the one of its name, not "+co.expr)
		} else {
			n.undec("query", s, "query variable "+co.expr)
		}
	}
	if n.entry == "SolveUtility" && len(s.args) > 3 {
		n.utility(s, ut)
	}
	// the solver that was set up
	if k := n.q.key(s.args[0]); k != "S" && stripCT(s.args[0]) != nw {
		n.undec("query", s, "solver "+k)
	}
	_ = m
	if n.entry == "SolveQuery" {
		n.results(s, qu)
	} else {
		for _, r := range n.fl.returns() {
			if !n.q.live(r.blk) || n.q.gone(r.blk) {
				continue
			}
			for _, lf := range n.liveLeaves(r.args[0]) {
				if lf == s {
					n.c.ok("results", n.entry+" result of the solver")
				} else if !isNilConst(lf) {
					n.undec("results", r, "result not recognised")
				}
			}
		}
	}
}

// arith: the value of the evidence entries is computed by arithmetic.
func (n *netc) arith(list *Value) bool {
	sites, ok := n.q.appends(stripCT(list))
	if !ok {
		return false
	}
	for _, s := range sites {
		v := stripCT(s.v)
		if v.op == OpLoad && v.args[0].op == OpAlloc {
			if x := singleStore(v.args[0]); x != nil {
				v = x
			}
		}
		if v.op == OpStruct && len(v.args) == 2 {
			if x := stripConv(v.args[1]); x.op == OpBin || x.op == OpBuiltin {
				return true
			}
		}
	}
	return false
}

// liveLeaves: the values a choice can have, without the ways that end in an error.
func (n *netc) liveLeaves(v *Value) []*Value {
	var out []*Value
	seen := map[*Value]bool{}
	var w func(v *Value)
	w = func(v *Value) {
		v = stripCT(v)
		if seen[v] {
			return
		}
		seen[v] = true
		if v.op == OpPhi {
			for i, a := range v.args {
				if i < len(v.blk.preds) && !n.q.gone(v.blk.preds[i]) && n.q.live(v.blk.preds[i]) {
					w(a)
				}
			}
			return
		}
		out = append(out, v)
	}
	w(v)
	return out
}

// utility: the variable of the given name, none for the total.
func (n *netc) utility(s *Value, ut string) {
	m := n.q.m
	nilC := 0
	okAll := true
	var walk func(v *Value, c int)
	walk = func(v *Value, c int) {
		v = stripCT(v)
		switch {
		case isNilConst(v):
			nilC = m.or(nilC, c)
		case v.op == OpPhi:
			l := n.q.inner[v.blk]
			r := n.q.reach(l)
			for i, a := range v.args {
				if !n.q.gone(v.blk.preds[i]) {
					walk(a, n.q.into(l, v.blk.preds[i], v.blk, r))
				}
			}
		default:
			if k := n.q.key(v); k != "V{"+ut+"}."+n.fV {
				okAll = false
				if known(k) {
					n.bad("query", "utility", s, "the utility solved is "+k+", not the one asked for")
				} else {
					n.undec("query", s, "utility "+k)
				}
			}
		}
	}
	walk(s.args[3], 1)
	if !okAll {
		return
	}
	n.eqSel("query", "utility", s, nilC, m.atom(ut+"=\"\""), 1, "the total is solved exactly if no utility is named")
}

// results of a query, by name.
func (n *netc) results(s *Value, qu string) {
	for _, r := range n.fl.returns() {
		if !n.q.live(r.blk) || n.q.gone(r.blk) || len(r.args) < 2 {
			continue
		}
		for _, lf := range n.liveLeaves(r.args[1]) {
			if lf != s && !isNilConst(lf) {
				n.undec("results", r, "factor not recognised")
			}
		}
		for _, mp := range n.liveLeaves(r.args[0]) {
			if isNilConst(mp) {
				continue
			}
			if mp.op != OpMakeMap {
				n.undec("results", r, "map not recognised")
				continue
			}
			n.resultMap(mp, s, qu)
		}
	}
}

func (n *netc) resultMap(mp, s *Value, qu string) {
	all := 0
	var loop *Loop
	var at *Value
	for _, u := range mp.uses {
		if u.op != OpMapUpdate || u.args[0] != mp || !n.q.live(u.blk) {
			continue
		}
		l, co := n.over(u.blk, qu)
		if l == nil {
			n.undec("results", u, "loop over the query not recognised")
			return
		}
		if co.bad != "" {
			n.bad("results", "all query variables", co.at, "not every query variable gets a result: "+co.bad)
			return
		}
		t := n.q.tok(l)
		if k := n.q.key(u.args[1]); k != t {
			if known(k) {
				n.bad("results", "name", u, "a result is stored under "+k)
			} else {
				n.undec("results", u, "name "+k)
			}
			return
		}
		// Normalize(Marginal(f, variable)).data
		v := stripCT(u.args[2])
		if v.op != OpField || fieldName(v) != "data" {
			n.undec("results", u, "result not recognised")
			return
		}
		nm := v.args[0]
		if !prim(nm, "Normalize") {
			if prim(nm, "Marginal") {
				if lv := leavesAt(nm.args[1], nm); len(lv) == 1 && prim(lv[0], "Normalize") {
					// normalized before
					if x := n.liveLeaves(lv[0].args[1]); len(x) == 1 && x[0] == s && n.q.key(nm.args[2]) == "V{"+t+"}."+n.fV {
						loop, at = l, u
						all = n.q.m.or(all, n.q.cond(l, u.blk))
						continue
					}
					n.undec("results", u, "result not recognised")
					return
				}
				n.bad("results", "normalization", u, "the marginal of a query variable is not normalized")
			} else {
				n.undec("results", u, "result not recognised")
			}
			return
		}
		lv := leavesAt(nm.args[1], nm)
		if len(lv) != 1 || !prim(lv[0], "Marginal") {
			joint := false
			for _, x := range lv {
				if x == s || x.op == OpLoad && len(n.liveLeaves(x.args[0])) == 1 && n.liveLeaves(x.args[0])[0] == s {
					joint = true
				}
			}
			if joint {
				n.bad("results", "marginal", u, "the result of a query variable is not its marginal")
			} else {
				n.undec("results", u, "marginal not recognised")
			}
			return
		}
		mg := lv[0]
		if k := n.q.key(mg.args[2]); k != "V{"+t+"}."+n.fV {
			if known(k) {
				n.bad("results", "marginal", mg, "the result of a query variable is the marginal of "+k)
			} else {
				n.undec("results", mg, "marginal of "+k)
			}
			return
		}
		if x := n.liveLeaves(mg.args[1]); len(x) != 1 || x[0] != s {
			n.undec("results", mg, "marginal of another factor")
			return
		}
		loop, at = l, u
		all = n.q.m.or(all, n.q.cond(l, u.blk))
	}
	if loop == nil {
		n.bad("results", "results", mp, "no marginal is returned")
		return
	}
	if n.eqSel("results", "all query variables", at, all, 1, 1, "every query variable gets its marginal") {
		n.entered("results", "results", loop, at)
	}
}

// solvePolicies: policies are stored under the name of their decision and returned with the decision last.
func (n *netc) solvePolicies(nw *Value) {
	cs := n.calls("SolvePolicies")
	if len(cs) != 1 {
		n.undec("results", nil, fmt.Sprintf("%d places solve policies", len(cs)))
		return
	}
	s := cs[0]
	if k := n.q.key(s.args[1]); k != n.fl.params[1].name {
		if known(k) {
			n.bad("results", "stepwise", s, "policies are solved with "+k)
		} else {
			n.undec("results", s, "stepwise "+k)
		}
	}
	m := n.q.m
	found := false
	n.fl.each(func(u *Value) {
		if u.op != OpMapUpdate || n.q.key(u.args[0]) != n.pol || !n.q.live(u.blk) || found {
			return
		}
		found = true
		k := n.q.key(u.args[1])
		v := n.q.key(u.args[2])
		var l *Loop
		for x := n.q.inner[u.blk]; x != nil; x = n.q.parent[x] {
			if d := n.q.dom(x); d != nil && n.q.key(d.list) == "V" {
				l = x
			} else if d != nil && n.q.coll(d.list).unk == "" && n.q.coll(d.list).src == "V" {
				l = x
			}
			if l != nil {
				break
			}
		}
		if l == nil {
			n.undec("results", u, "loop over the variables not recognised")
			return
		}
		nk := n.q.tok(l)
		if n.q.dom(l).isMap {
			nk += ".key"
		}
		if k != nk {
			n.undec("results", u, "policy stored under "+k)
			return
		}
		base := valAtom(s) + "{V{" + nk + "}." + n.fV + "}"
		switch {
		case v == base+"[1]":
			n.c.ok("results", n.entry+" policy stored by name")
		case v == base+"[0]":
			n.bad("results", "policy", u, "the utilities of a decision are stored instead of its policy")
			return
		default:
			n.undec("results", u, "stored policy "+v)
			return
		}
		c := n.q.cond(l, u.blk)
		in := m.atom("in(" + valAtom(s) + ",V{" + nk + "}." + n.fV + ")")
		D := m.atom("V{" + nk + "}." + n.fV + ".nodeType=1")
		// only decisions have policies
		con := m.or(m.not(in), D)
		n.eqSel("results", "all policies", u, c, in, con, "the policy of every solved decision is stored")
	})
	if !found {
		n.bad("results", "policies", s, "policies are not stored in the network")
	}
	n.steps(s)
	n.policyResults()
}

// steps: as many rounds as there may be decisions, unless nothing is left to solve.
func (n *netc) steps(s *Value) {
	m := n.q.m
	l := n.q.inner[s.blk]
	if l == nil {
		n.undec("steps", s, "no loop around the solver")
		return
	}
	st := n.fl.params[1].name
	// no other way out
	_, brk := n.q.exits(l)
	ct, counted := n.counterOf(l)
	for _, e := range brk {
		if e.p == l.head && (!counted || stripNot(e.p.instrs[len(e.p.instrs)-1].args[0]) == stripNot(ct.iv.cond)) {
			continue
		}
		f := n.q.edgeIn(l, e.p, e.w)
		f = n.q.rename(f, func(k string) string {
			if k == "nil("+valAtom(s)+")" || k == "empty{"+valAtom(s)+"}" {
				return "none"
			}
			return k
		})
		if m.and(f, m.not(m.atom("none"))) == 0 || n.q.unknown(f) != "" {
			continue
		}
		// without stepwise, one round is all
		if m.and(m.and(f, m.not(m.atom("none"))), m.atom(st)) == 0 {
			continue
		}
		n.bad("steps", "rounds", e.p.instrs[len(e.p.instrs)-1], "solving ends before all decisions are solved, when "+m.canon(f))
		return
	}
	if !counted {
		n.undec("steps", s, "number of rounds not recognised")
		return
	}
	if len(ct.lo) != 0 {
		n.undec("steps", s, "rounds start at "+ct.lo.String())
		return
	}
	b := stripConv(ct.iv.bound)
	count := func(v *Value) bool {
		v = stripConv(v)
		if v.op != OpPhi {
			return false
		}
		x := n.q.inner[v.blk]
		if x == nil || x.head != v.blk || n.q.dom(x) == nil || n.q.key(n.q.dom(x).list) != n.vs {
			return false
		}
		for _, a := range v.args {
			if a == v {
				continue
			}
			if c, ok := constInt(a); ok && c == 0 {
				continue
			}
			if a.op == OpBin && a.tok == token.ADD && a.args[0] == v {
				if c, ok := constInt(a.args[1]); ok && c == 1 && n.q.cond(x, a.blk) == m.atom(n.q.tok(x)+".NodeType=1") {
					continue
				}
			}
			return false
		}
		return true
	}
	if b.op == OpBuiltin && b.name == "min" {
		n.bad("steps", "rounds", b, "the number of rounds is limited")
		return
	}
	if _, ok := constInt(b); ok {
		n.bad("steps", "rounds", s, "the number of rounds does not depend on the number of decisions")
		return
	}
	floor := false
	atLeast := func(v *Value) {
		for _, a := range v.args {
			if k, ok := constInt(a); ok && k > 0 {
				floor = true
			}
		}
	}
	if b.op == OpBuiltin && b.name == "max" {
		atLeast(b)
		for _, a := range b.args {
			if _, ok := constInt(a); !ok {
				b = stripConv(a)
			}
		}
	}
	// under stepwise, the count unless it is zero
	none := false
	res, und := 1, ""
	var walk func(v *Value, c int)
	walk = func(v *Value, c int) {
		if k, ok := constInt(stripConv(v)); ok && k < 1 && !floor && m.and(c, m.not(m.atom(st))) != 0 && n.q.unknown(c) == "" {
			none = true
		}
		if x := stripConv(v); x.op == OpBuiltin && x.name == "max" {
			atLeast(x)
		}
		if m.and(c, m.atom(st)) == 0 {
			return
		}
		v = stripConv(v)
		if v.op == OpBuiltin && v.name == "max" {
			for _, a := range v.args {
				if _, ok := constInt(a); !ok {
					walk(a, c)
				}
			}
			return
		}
		if k, ok := constInt(v); ok {
			// only if there is no decision
			if u := n.q.unknown(c); u != "" {
				und = "constant number of rounds under " + u
				return
			}
			for _, a := range m.support(c) {
				if x := n.zeroCount[a]; x {
					c = m.set(c, a, false)
				}
			}
			if m.and(c, m.atom(st)) != 0 {
				res = 0
				und = fmt.Sprint(k)
			}
			return
		}
		if count(v) {
			return
		}
		if v.op == OpPhi && (n.q.inner[v.blk] == nil || n.q.inner[v.blk].head != v.blk) {
			x := n.q.inner[v.blk]
			r := n.q.reach(x)
			was := floor
			for _, u := range v.uses {
				// zero is told apart
				if u.op != OpBin {
					continue
				}
				if _, ok := constInt(u.args[1]); ok {
					floor = true
				}
			}
			for i, a := range v.args {
				walk(a, m.and(c, n.q.into(x, v.blk.preds[i], v.blk, r)))
			}
			floor = was
			return
		}
		und = "number of rounds not recognised"
	}
	n.zeroCount = map[string]bool{}
	orZero := func(v *Value) bool {
		// the count, or zero where there was nothing to count
		v = stripConv(v)
		if v.op != OpPhi {
			return false
		}
		some := false
		for _, a := range v.args {
			if k, ok := constInt(a); ok && k == 0 {
				continue
			}
			if !count(a) {
				return false
			}
			some = true
		}
		return some
	}
	n.fl.each(func(v *Value) {
		if v.op != OpBin || !count(v.args[0]) && !orZero(v.args[0]) {
			return
		}
		if c, ok := constInt(v.args[1]); ok && (c == 0 && (v.tok == token.EQL || v.tok == token.LEQ) || c == 1 && v.tok == token.LSS) {
			f := n.q.val(v, n.q.inner[v.blk])
			for _, a := range m.support(f) {
				n.zeroCount[a] = true
			}
		}
	})
	walk(b, 1)
	switch {
	case none:
		n.bad("steps", "rounds", s, "without stepwise solving, there is no round at all")
	case res == 0:
		n.bad("steps", "rounds", s, "with stepwise solving, the number of rounds is "+und+" whatever the number of decisions")
	case und != "":
		n.undec("steps", s, und)
	default:
		n.c.ok("steps", n.entry+" one round per decision")
	}
}

// policyResults: For, Given and Table of the returned policies belong together.
func (n *netc) policyResults() {
	done := false
	n.fl.each(func(u *Value) {
		if u.op != OpMapUpdate || !n.q.live(u.blk) || n.q.key(u.args[0]) == n.pol {
			return
		}
		mt, ok := u.args[0].typ.Underlying().(*types.Map)
		if !ok || named(mt.Elem()) != "Factor" {
			return
		}
		done = true
		v := stripCT(u.args[2])
		if v.op == OpLoad && v.args[0].op == OpAlloc {
			if x := singleStore(v.args[0]); x != nil {
				v = x
			}
		}
		st := structOf(v.typ)
		if v.op != OpStruct || st == nil {
			n.undec("results", u, "returned policy not recognised")
			return
		}
		l, co := n.over(u.blk, n.pol)
		if l == nil {
			n.undec("results", u, "loop over the policies not recognised")
			return
		}
		if co.bad != "" {
			n.bad("results", "all policies", co.at, "not every policy is returned: "+co.bad)
			return
		}
		if !n.eqSel("results", "returned policies", u, n.q.cond(l, u.blk), 1, 1, "every policy is returned") {
			return
		}
		pk := n.policyKey(l)
		if k := n.q.key(u.args[1]); k != pk {
			n.undec("results", u, "policy returned under "+k)
			return
		}
		var given, table, forV *Value
		for i, a := range v.args {
			switch st.Field(i).Name() {
			case "For":
				forV = a
			case "Given":
				given = a
			case "Table":
				table = a
			}
		}
		if k := n.q.key(forV); k != pk {
			if known(k) {
				n.bad("results", "returned policies", u, "a policy is returned for "+k)
			} else {
				n.undec("results", u, "policy returned for "+k)
			}
			return
		}
		table = stripCT(table)
		if table.op != OpField || fieldName(table) != "data" {
			if k := n.q.key(table); k == n.pol+"{"+pk+"}.data" {
				n.bad("results", "returned policies", u, "the table of a policy is returned without moving the decision to the last place")
			} else {
				n.undec("results", u, "returned table "+k)
			}
			return
		}
		re := table.args[0]
		if !prim(re, "Rearrange") {
			n.undec("results", u, "returned table not recognised")
			return
		}
		// given: names of the rearranged variables, without the last
		n.givenNames(u, given, re)
	})
	if !done {
		n.undec("results", nil, "returned policies not found")
	}
}

// givenNames: the names are those of the first variables of the rearranged factor.
func (n *netc) givenNames(u, given, re *Value) {
	g := stripCT(given)
	vars := stripCT(re.args[2])
	// both lists are built alike
	if ps, ok := n.seqOf(vars); ok && len(ps) == 2 && ps[0].co != nil && ps[1].co == nil && ps[0].co.bad == "" && ps[0].co.ord == 0 {
		a, b := ps[0].co, n.q.coll(g)
		if b.unk == "" && b.bad == "" && b.ord == 0 && a.src == b.src && a.sel == b.sel && a.sel != 1 && b.expr == n.vs+"["+a.expr+".id].Name" {
			n.c.ok("results", n.entry+" parents of a returned policy")
			n.decisionLast(u, vars)
			return
		}
	}
	var val, ixv *Value
	var l *Loop
	switch {
	case g.op == OpMakeSlice:
		for _, ia := range g.uses {
			if ia.op != OpIndexAddr || ia.args[0] != g {
				continue
			}
			for _, s := range ia.uses {
				if s.op == OpStore && s.args[0] == ia {
					val, ixv, l = s.args[1], ia.args[1], n.q.inner[s.blk]
				}
			}
		}
	case g.op == OpPhi:
		if sites, ok := n.q.appends(g); ok && len(sites) == 1 {
			val, l = sites[0].v, sites[0].l
		}
	}
	if val == nil || l == nil {
		n.undec("results", u, "parents of a returned policy not recognised")
		return
	}
	ct, ok := n.counterOf(l)
	if !ok {
		n.undec("results", u, "parents of a returned policy not recognised")
		return
	}
	if ixv != nil && stripConv(ixv) != stripConv(ct.iv.cur) {
		// from the back
		if d := n.p(ixv).add(n.p(ct.iv.cur), 1); n.p(ixv).mentions(n.p(ct.iv.cur)) && !d.mentions(n.p(ct.iv.cur)) {
			n.bad("results", "returned policies", val, "the parents of a returned policy are named in reversed order")
			return
		}
		n.undec("results", u, "position of a parent")
		return
	}
	// n.variables[x.id].Name with x = vars[i]
	v := stripCT(val)
	base := v
	for base.op == OpLoad || base.op == OpFieldAddr || base.op == OpField {
		if base.op == OpFieldAddr && fieldName(base) != "Name" {
			break
		}
		base = base.args[0]
	}
	if base.op != OpIndexAddr || n.q.key(base.args[0]) != n.vs {
		n.undec("results", u, "name of a parent")
		return
	}
	id := stripConv(base.args[1])
	x := id
	for x.op == OpLoad || x.op == OpFieldAddr || x.op == OpField {
		x = x.args[0]
	}
	k := n.q.key(id)
	if !strings.HasSuffix(k, ".id") {
		if strings.HasSuffix(k, ".index") || stripConv(id) == stripConv(ct.iv.cur) {
			n.bad("results", "returned policies", val, "the name of a parent must be found by the id of the variable")
			return
		}
		n.undec("results", u, "name of a parent by "+k)
		return
	}
	if x.op != OpIndexAddr || stripConv(x.args[1]) != stripConv(ct.iv.cur) {
		n.undec("results", u, "parent "+k)
		return
	}
	src := stripCT(x.args[0])
	if src != vars {
		if sk := n.q.key(src); strings.HasPrefix(sk, n.pol+"{") && strings.HasSuffix(sk, ".variables") && n.q.cond(l, val.blk) == 1 {
			n.bad("results", "returned policies", val, "the parents of a returned policy are named in the order before rearranging")
		} else {
			n.undec("results", u, "parents from "+sk)
		}
		return
	}
	ln := n.p2len(src)
	if ln == nil || len(ct.lo) != 0 || !ct.hi.equal(ln.add(polyConst(1), -1)) {
		if ln != nil && len(ct.lo) == 0 && ct.hi.equal(ln) {
			n.bad("results", "returned policies", val, "the decision itself is listed among its parents")
			return
		}
		n.undec("results", u, "number of parents")
		return
	}
	n.c.ok("results", n.entry+" parents of a returned policy")
	// the decision is the last of the rearranged variables
	n.decisionLast(u, vars)
}

func (n *netc) p2len(list *Value) Poly {
	if list.op == OpMakeSlice {
		return n.p(list.args[0])
	}
	return n.lenPoly(list)
}

// decisionLast: the last variable handed to Rearrange is the decision.
func (n *netc) decisionLast(u, vars *Value) {
	var last *Value
	switch {
	case vars.op == OpMakeSlice:
		ln := n.p(vars.args[0])
		for _, ia := range vars.uses {
			if ia.op != OpIndexAddr || ia.args[0] != vars {
				continue
			}
			for _, s := range ia.uses {
				if s.op == OpStore && s.args[0] == ia && n.p(ia.args[1]).equal(ln.add(polyConst(1), -1)) {
					last = s.args[1]
				}
			}
		}
	case vars.op == OpBuiltin && vars.name == "append":
		if el := appended(vars); len(el) > 0 {
			last = el[len(el)-1]
		}
	}
	if last == nil && vars.op == OpMakeSlice {
		for _, ia := range vars.uses {
			if ia.op != OpIndexAddr || ia.args[0] != vars {
				continue
			}
			for _, s := range ia.uses {
				if s.op != OpStore || s.args[0] != ia || n.q.inner[s.blk] != n.q.inner[vars.blk] {
					continue
				}
				if x := stripCT(s.args[1]); x.op == OpLoad && x.args[0].op == OpIndexAddr && stripConv(x.args[0].args[1]) == stripConv(ia.args[1]) {
					n.bad("results", "returned policies", s, "the decision of a returned policy is not moved to the last place")
					return
				}
			}
		}
	}
	if last == nil {
		n.undec("results", u, "last variable of a returned policy not recognised")
		return
	}
	x := stripCT(last)
	if x.op == OpLoad && x.args[0].op == OpIndexAddr {
		ix := stripConv(x.args[0].args[1])
		if ix.op == OpCall && strings.HasPrefix(ix.name, "slices.IndexFunc") {
			n.c.ok("results", n.entry+" decision last")
			return
		}
	}
	if k := n.q.key(x); strings.HasPrefix(k, "V{") && strings.HasSuffix(k, "}."+n.fV) {
		n.c.ok("results", n.entry+" decision last")
		return
	}
	n.undec("results", u, "last variable of a returned policy not recognised")
}

// wrappers

func (n *netc) marginal() {
	for _, c := range n.calls("Marginal") {
		if k := n.q.key(c.args[1]); k != n.fl.params[1].name {
			n.wrong(c, "factor", k)
			return
		}
		if k := n.q.key(c.args[2]); k != "V{"+n.fl.params[2].name+"}."+n.fV {
			n.wrong(c, "variable", k)
			return
		}
		n.returned(c)
	}
}

func (n *netc) wrong(at *Value, what, k string) {
	if known(k) {
		n.bad("wrapper", what, at, "the "+what+" used is "+k)
	} else {
		n.undec("wrapper", at, what+" "+k)
	}
}

// returned: the result of the operation is what is returned.
func (n *netc) returned(c *Value) {
	for _, r := range n.fl.returns() {
		if !n.q.live(r.blk) {
			continue
		}
		for _, lf := range leavesAt(r.args[0], r) {
			if lf != c {
				for _, p := range n.fl.params[1:] {
					if n.q.key(lf) == p.name {
						n.bad("wrapper", n.entry, r, "the argument "+p.name+" is returned as it is")
						return
					}
				}
				n.undec("wrapper", r, "result not recognised")
				return
			}
		}
	}
	n.c.ok("wrapper", n.entry)
}

func (n *netc) normalize() {
	for _, c := range n.calls("Normalize") {
		if k := n.q.key(c.args[1]); k != n.fl.params[1].name {
			n.wrong(c, "factor", k)
			return
		}
		n.returned(c)
	}
}

// normalizeUtility: utility times the inverse of the probabilities.
func (n *netc) normalizeUtility() {
	for _, c := range n.calls("Product") {
		ps, ok := n.seqOf(listArg(c))
		if !ok || len(ps) != 2 || ps[0].v == nil || ps[1].v == nil {
			n.undec("wrapper", c, "factors not recognised")
			return
		}
		u, p := n.fl.params[1].name, n.fl.params[2].name
		var hasU, hasP bool
		for _, x := range ps {
			for _, lf := range leavesAt(x.v, c) {
				switch {
				case prim(lf, "Invert") && n.q.key(lf.args[1]) == p:
					hasP = true
				case prim(lf, "Invert") && n.q.key(lf.args[1]) == u:
					n.bad("wrapper", "normalized utility", lf, "the utility is inverted instead of the probabilities")
					return
				case n.q.key(lf) == u:
					hasU = true
				case n.q.key(lf) == p:
					n.bad("wrapper", "normalized utility", c, "the probabilities are not inverted")
					return
				}
			}
		}
		if !hasU || !hasP {
			n.undec("wrapper", c, "factors not recognised")
			return
		}
		n.returned(c)
	}
}

func (n *netc) rearrange() {
	for _, c := range n.calls("Rearrange") {
		if k := n.q.key(c.args[1]); k != n.fl.params[1].name {
			n.wrong(c, "factor", k)
			return
		}
		n.returned(c)
		n.rearrangeList(c)
	}
}

// single: a choice with only one value that is no failure.
func (n *netc) single(v *Value) *Value {
	var out *Value
	for _, x := range n.liveLeaves(v) {
		if i, ok := constInt(x); ok && i < 0 {
			continue
		}
		if out != nil {
			return nil
		}
		out = stripConv(x)
	}
	return out
}

// rearrangeList: the named variables in their order, the last one last, the others of the factor in between.
func (n *netc) rearrangeList(c *Value) {
	m := n.q.m
	fv := n.fl.params[1].name + ".variables"
	nm := n.fl.params[2]
	list := stripCT(c.args[2])
	if list.op != OpBuiltin || list.name != "append" {
		n.undec("wrapper", c, "order not recognised")
		return
	}
	el := appended(list)
	if len(el) != 1 {
		if x := stripCT(list.args[0]); x.op == OpSlice && x.args[0].op == OpAlloc && el == nil {
			n.bad("wrapper", "order", list, "the last of the named variables must be the last one of the factor")
			return
		}
		n.undec("wrapper", c, "order not recognised")
		return
	}
	// index of the element of the factor's variables that a value is
	index := func(v *Value) *Value {
		v = stripCT(v)
		if v.op == OpLoad && v.args[0].op == OpIndexAddr && n.q.key(v.args[0].args[0]) == fv {
			return v.args[0].args[1]
		}
		return nil
	}
	// position of the name that a found index belongs to
	name := func(ix *Value) *Value {
		x := n.single(ix)
		if x == nil || x.op != OpCall || !strings.HasPrefix(x.name, "slices.IndexFunc") || n.q.key(x.args[0]) != fv {
			return nil
		}
		f := stripCT(x.args[1])
		if f.op != OpClosure || len(f.args) != 1 || !strings.HasSuffix(n.q.key(f.args[0]), "."+n.fV) {
			return nil
		}
		v := f.args[0]
		for i := 0; i < 8; i++ {
			switch v.op {
			case OpLoad, OpField, OpFieldAddr, OpExtract:
				v = v.args[0]
				continue
			case OpLookup:
				v = stripCT(v.args[1])
				if v.op == OpLoad && v.args[0].op == OpIndexAddr && stripCT(v.args[0].args[0]) == nm {
					return v.args[0].args[1]
				}
				return nil
			}
			return nil
		}
		return nil
	}
	li := index(el[0])
	if li == nil {
		n.undec("wrapper", c, "last variable not recognised")
		return
	}
	p := name(li)
	ln := n.lenPoly(nm)
	if p == nil || ln == nil {
		n.undec("wrapper", c, "last variable not recognised")
		return
	}
	if !n.p(p).equal(ln.add(polyConst(1), -1)) {
		if _, isC := constInt(p); isC {
			n.bad("wrapper", "order", list, "the last variable must be the last one named")
		} else {
			n.undec("wrapper", c, "last variable")
		}
		return
	}
	sites, ok := n.q.appends(list.args[0])
	if !ok || len(sites) != 2 {
		n.undec("wrapper", c, "order not recognised")
		return
	}
	var done *Value
	var restAt *Value
	var rest int
	var rl *Loop
	named := false
	for _, st := range sites {
		if st.l == nil || n.q.dom(st.l) == nil {
			n.undec("wrapper", st.at, "order not recognised")
			return
		}
		ix := index(st.v)
		if ix == nil {
			n.undec("wrapper", st.at, "variable not recognised")
			return
		}
		if pk := n.q.posKey(ix); pk == "pos"+n.q.tok(st.l) {
			restAt, rl = st.at, st.l
			rest = n.q.cond(st.l, st.at.blk)
			continue
		}
		q := name(ix)
		if q == nil || n.q.posKey(q) != "pos"+n.q.tok(st.l) {
			n.undec("wrapper", st.at, "named variable not recognised")
			return
		}
		if cd := n.q.cond(st.l, st.at.blk); cd != 1 {
			n.undec("wrapper", st.at, "named variables under "+m.canon(cd))
			return
		}
		ct := n.q.dom(st.l).ct
		if len(ct.lo) != 0 || !ct.hi.equal(ln.add(polyConst(1), -1)) {
			n.undec("wrapper", st.at, "number of named variables")
			return
		}
		named = true
		// marked as done
		for b := range st.l.blocks {
			for _, v := range b.instrs {
				if v.op != OpStore || v.args[0].op != OpIndexAddr || !n.q.live(b) {
					continue
				}
				if t, ok := constBool(v.args[1]); !ok || !t {
					continue
				}
				done = v.args[0].args[0]
				mi := v.args[0].args[1]
				if stripConv(mi) == stripConv(ix) || n.single(mi) == n.single(ix) && n.single(ix) != nil {
					continue
				}
				if n.q.posKey(mi) == "pos"+n.q.tok(st.l) {
					n.bad("wrapper", "order", v, "a variable is marked as used at the position of its name, not at its own")
				} else {
					n.undec("wrapper", v, "marked variable")
				}
				return
			}
		}
	}
	if !named || restAt == nil || done == nil {
		n.undec("wrapper", c, "order not recognised")
		return
	}
	// the last one may be marked too
	lastMarked := false
	for _, ia := range stripCT(done).uses {
		if ia.op != OpIndexAddr || n.q.inner[ia.blk] != nil {
			continue
		}
		for _, v := range ia.uses {
			if v.op == OpStore && v.args[0] == ia && n.single(ia.args[1]) == n.single(li) {
				lastMarked = true
			}
		}
	}
	t := n.q.tok(rl)
	D := m.atom("D")
	L := m.atom("L")
	lk := n.q.key(el[0])
	rest = n.q.rename(rest, func(s string) string {
		switch {
		case s == "at("+n.q.key(done)+",pos"+t+")" || s == "at("+n.q.key(done)+","+t+"#)":
			return "D"
		case strings.HasPrefix(s, "same(") && strings.Contains(s, lk), strings.HasPrefix(s, "eq(pos"+t) && strings.Contains(s, n.q.key(li)):
			return "L"
		}
		return s
	})
	want := m.and(m.not(D), m.not(L))
	con := 1
	if lastMarked {
		con = m.or(m.not(L), D)
	}
	n.eqSel("wrapper", "all variables", restAt, rest, want, con, "every variable of the factor that is not named follows the named ones, but the last")
}

// toEvidence: probability one for the given outcome of the named variable.
func (n *netc) toEvidence() {
	for _, r := range n.fl.returns() {
		if !n.q.live(r.blk) || n.q.gone(r.blk) {
			continue
		}
		for _, lf := range n.liveLeaves(r.args[0]) {
			if isNilConst(lf) {
				continue
			}
			if lf.op != OpMakeSlice {
				n.undec("wrapper", r, "probabilities not recognised")
				continue
			}
			ln := stripConv(lf.args[0])
			if ln.op != OpBuiltin || ln.name != "len" {
				n.undec("wrapper", lf, "number of probabilities")
				continue
			}
			oc := n.q.key(ln.args[0])
			// outcomes of the variable that was found
			if o := stripCT(ln.args[0]); o.op == OpLoad && o.args[0].op == OpFieldAddr || o.op == OpField {
				a := o.args[0]
				if o.op == OpLoad {
					a = a.args[0]
				}
				if a.op == OpLoad {
					a = a.args[0]
				}
				if a.op == OpIndexAddr && n.q.key(a.args[0]) == n.vs {
					ar := false
					if x := stripConv(a.args[1]); x.op == OpBin || x.op == OpBuiltin {
						for _, y := range x.args {
							if z := stripConv(y); z.op == OpCall && strings.HasPrefix(z.name, "slices.Index") {
								ar = true
							}
						}
					} else if x.op == OpConst {
						ar = true
					}
					if ar {
						n.bad("wrapper", "evidence vector", lf, "the outcomes are those of another variable")
						return
					}
				}
			}
			cnt := 0
			for _, ia := range lf.uses {
				if ia.op != OpIndexAddr || ia.args[0] != lf {
					continue
				}
				for _, s := range ia.uses {
					if s.op != OpStore || s.args[0] != ia {
						continue
					}
					cnt++
					if f, ok := constFloat(s.args[1]); !ok || f != 1 {
						n.bad("wrapper", "evidence vector", s, "the probability of the given outcome is not 1")
						return
					}
					ix := n.q.key(ia.args[1])
					if ix != "ix("+oc+","+n.fl.params[2].name+")" {
						x := stripConv(ia.args[1])
						if pk := n.q.posKey(x); strings.HasPrefix(pk, "pos⟨") {
							// set in a loop over the outcomes, where the outcome is found
							l := n.q.inner[s.blk]
							if l == nil || pk != "pos"+n.q.tok(l) || n.q.dom(l) == nil {
								n.undec("wrapper", s, "position "+ix)
								return
							}
							val := n.fl.params[2].name
							c := n.q.cond(l, s.blk)
							lk := n.q.key(n.q.dom(l).list)
							if lk == oc && c == n.q.m.atom("eq("+n.q.tok(l)+","+val+")") || c == n.q.m.atom("eq(pos"+n.q.tok(l)+",ix("+oc+","+val+"))") {
								continue
							}
							n.undec("wrapper", s, "position under "+n.q.m.canon(c))
							return
						}
						ar := x.op == OpBuiltin
						if x.op == OpBin {
							for _, y := range x.args {
								if strings.HasPrefix(n.q.key(y), "ix(") {
									ar = true
								}
							}
						}
						if known(ix) || ar {
							n.bad("wrapper", "evidence vector", s, "the probability is set at "+ix)
						} else {
							n.undec("wrapper", s, "position "+ix)
						}
						return
					}
				}
			}
			if cnt != 1 {
				n.undec("wrapper", lf, "probabilities set at several places")
				continue
			}
			n.c.ok("wrapper", n.entry)
		}
	}
}
