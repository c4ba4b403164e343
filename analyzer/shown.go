package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C22", "the results shown: each entry of the result map is expressed as a term over the network's solving operations, its arguments and the node it is stored for, together with the boolean condition for which nodes it is stored, and compared with the definition; the same for the values the inference command prints, the values the app renders for a node and the cells of the table dialog", checkC22)
}

// shown: terms over the network's solving operations.
type shown struct {
	*netc
	net, ev, nodes, ign string
	res                 *Value
	nans                []*Value // values, or not a number
}

func checkC22(c *Ctx) {
	fn := c.w.fn("internal/tui", "", "Solve")
	if fn == nil {
		c.undecide("entries", "tui.Solve not found")
		return
	}
	s := newShown(c, c.flatStop(fn, isNetworkOp), "Solve")
	s.solve()
	c.inference()
	for r, n := range map[string]int{"entries": 4, "value": 4, "policies": 1, "arguments": 4, "printed": 5} {
		c.floor(r, n)
	}
}

func newShown(c *Ctx, fl *Flat, name string) *shown {
	a := newAlg(c, fl, name)
	n := &netc{alg: a, q: newQL(a), entry: name, totals: map[*Value]bool{}}
	s := &shown{netc: n}
	n.q.markErrors()
	n.q.hook = s.hook
	n.q.forget()
	return s
}

// list: the text of a list argument.
func (s *shown) list(v *Value) string {
	v = s.q.pick(stripCT(v))
	if isNilConst(v) || emptyList(v, map[*Value]bool{}) {
		return "[]"
	}
	if el, ok := litElems(s.fl, v); ok {
		var out []string
		for _, e := range el {
			out = append(out, s.q.key(e))
		}
		return "[" + strings.Join(out, ",") + "]"
	}
	if v.op == OpParam {
		return v.name
	}
	if co := s.q.coll(v); co.unk == "" && co.bad == "" && !(co.sel == 1 && co.expr == "·") {
		return "list" + co.text() + co.expr
	}
	return s.q.key(v)
}

func isList(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// term: the text of a value that may be a list.
func (s *shown) term(v *Value) string {
	if isList(v.typ) {
		if el, ok := litElems(s.fl, s.q.pick(stripCT(v))); ok {
			var out []string
			for _, e := range el {
				out = append(out, s.q.key(e))
			}
			return "[" + strings.Join(out, ",") + "]"
		}
	}
	return s.q.key(v)
}

func (s *shown) call(x *Value) (string, bool) {
	if x.op != OpCall || x.fn == nil || !strings.HasPrefix(x.name, "@") {
		return "", false
	}
	var out []string
	for i, a := range x.args {
		if i == 0 && x.fn.Signature.Recv() != nil {
			if k := s.q.key(a); k != s.net {
				out = append(out, k)
			}
			continue
		}
		if isList(a.typ) {
			out = append(out, s.list(a))
		} else {
			out = append(out, s.q.key(a))
		}
	}
	return x.fn.Name() + "(" + strings.Join(out, ";") + ")", true
}

func isNaNCall(v *Value) bool {
	v = stripConv(v)
	return v.op == OpCall && v.name == "math.NaN"
}

func (s *shown) hook(v *Value) (string, bool) {
	q := s.q
	switch v.op {
	case OpTypeAssert:
		if !v.commaOk {
			return q.key(v.args[0]), true
		}
	case OpMakeMap:
		if v == s.res {
			return "RESULT", true
		}
		for _, u := range v.uses {
			if u.op == OpMapUpdate || u.op == OpPhi || u.op == OpStore {
				return "", false
			}
		}
		return "{}", true
	case OpUn:
		if v.tok == token.NOT {
			return "!" + q.key(v.args[0]), true
		}
	case OpExtract:
		if t, ok := s.call(v.args[0]); ok {
			return fmt.Sprintf("%s#%d", t, v.idx), true
		}
	case OpCall:
		if t, ok := s.call(v); ok {
			return t, true
		}
	case OpBin:
		if !isFloat(v.typ) {
			return "", false
		}
		x, y := q.key(v.args[0]), q.key(v.args[1])
		switch v.tok {
		case token.QUO:
			return "(" + x + "/" + y + ")", true
		case token.MUL:
			if strings.HasPrefix(x, "(1/") {
				x, y = y, x
			}
			if strings.HasPrefix(y, "(1/") {
				return "(" + x + "/" + y[3:], true
			}
			if y < x {
				x, y = y, x
			}
			return "(" + x + "*" + y + ")", true
		case token.ADD:
			if y < x {
				x, y = y, x
			}
			return "(" + x + "+" + y + ")", true
		case token.SUB:
			return "(" + x + "-" + y + ")", true
		}
	case OpIndexAddr, OpIndex:
		if q.elemLoop(v) == nil {
			if p := q.posKey(v.args[1]); strings.HasPrefix(p, "pos") {
				return q.key(v.args[0]) + "[" + p + "]", true
			}
		}
	case OpPhi:
		l := q.inner[v.blk]
		if l != nil && l.head == v.blk {
			return s.picked(v, l)
		}
		// a value, or NaN if there is none
		var val *Value
		nan := -1
		for i, x := range v.args {
			if q.gone(v.blk.preds[i]) {
				continue
			}
			x = stripConv(x)
			if isNaNCall(x) {
				nan = i
			} else if val != nil && val != x {
				return "", false
			} else {
				val = x
			}
		}
		if nan >= 0 && val != nil {
			s.nans = append(s.nans, v)
			return q.key(val), true
		}
	}
	return "", false
}

// picked: the element of a list that satisfies a condition, nil if there is none.
func (s *shown) picked(v *Value, l *Loop) (string, bool) {
	if _, ok := v.typ.Underlying().(*types.Pointer); !ok || s.q.dom(l) == nil {
		return "", false
	}
	text := ""
	for i, p := range l.head.preds {
		if !l.blocks[p] {
			if !isNilConst(stripCT(v.args[i])) {
				return "", false
			}
			continue
		}
		for _, lf := range s.leafConds(l, v.args[i], p) {
			if lf.v == v {
				continue
			}
			co := s.q.stage(l, s.q.key(lf.v), lf.f, v)
			if co.unk != "" {
				return "", false
			}
			t := "the{" + co.src + "|" + s.q.m.canon(co.sel) + "}" + co.expr
			if text != "" && text != t {
				return "", false
			}
			text = t
		}
	}
	return text, text != ""
}

// elem: names in terms of the node •, whichever list it is taken from.
func (s *shown) elem(src, k string) (string, bool) {
	switch src {
	case s.nodes:
		k = strings.ReplaceAll(k, "·.node", "•")
	case s.net + ".variables":
		k = strings.ReplaceAll(k, "pos·", "pos§")
		k = strings.ReplaceAll(k, "·", "•")
		k = strings.ReplaceAll(k, "pos§", "pos·")
	default:
		return k, false
	}
	return k, !strings.Contains(strings.ReplaceAll(k, "pos·", ""), "·")
}

func (s *shown) cmp(rule, what string, at *Value, got, want, msg string) bool {
	if got == want {
		s.c.ok(rule, s.entry+" "+what+": "+got)
		return true
	}
	if !known(got) || strings.Contains(got, "⟨") {
		s.undec(rule, at, what+": "+got+" is not recognised")
		return false
	}
	s.bad(rule, what, at, fmt.Sprintf("%s: %s instead of %s", msg, got, want))
	return false
}

// sel: which nodes an entry is stored for.
func (s *shown) sel(what string, at *Value, got, want, con int) bool {
	m := s.q.m
	if m.and(got, con) == m.and(want, con) {
		s.c.ok("entries", s.entry+" "+what+": "+m.canon(got))
		return true
	}
	u := s.q.unknown(got)
	for _, x := range m.support(got) {
		if x != s.isTotal() && strings.Contains(x, "otalUtility") {
			u = x
		}
	}
	if u != "" {
		s.undec("entries", at, what+": condition "+u+" not recognised in "+m.canon(got))
		return false
	}
	s.bad("entries", what, at, fmt.Sprintf("%s: stored for nodes with %s; expected %s", what, m.canon(got), m.canon(want)))
	return false
}

func (s *shown) isTotal() string { return "eq(pos·," + s.net + ".totalUtilityIndex)" }

func (s *shown) solve() {
	for _, p := range s.fl.params {
		switch t := p.typ.Underlying().(type) {
		case *types.Pointer:
			s.net = p.name
		case *types.Map:
			s.ev = p.name
		case *types.Slice:
			s.nodes = p.name
		case *types.Basic:
			if t.Kind() == types.Bool {
				s.ign = p.name
			}
		}
	}
	if s.net == "" || s.ev == "" || s.nodes == "" || s.ign == "" {
		s.undec("entries", nil, "parameters")
		return
	}
	for _, r := range s.fl.returns() {
		for _, v := range s.liveLeaves(r.args[0]) {
			if isNilConst(v) {
				continue
			}
			if v.op != OpMakeMap || s.res != nil && s.res != v {
				s.undec("entries", v, "the result is not a single map")
				return
			}
			s.res = v
		}
	}
	if s.res == nil {
		s.undec("entries", nil, "no result")
		return
	}
	q, m := s.q, s.q.m
	q.minus = s.net + ".totalUtilityIndex"
	q.forget()
	P := fmt.Sprintf("SolveQuery(%s;[];%s)#1.data[0]", s.ev, s.ign)
	T := fmt.Sprintf("(SolveUtility(%s;[];\"\";%s)#0.data[0]/%s)", s.ev, s.ign, P)
	vE := func(name string) string { return fmt.Sprintf("ToEvidence(%s;%s{%s})#0", name, s.ev, name) }
	vQ := func(list string) string { return fmt.Sprintf("SolveQuery(%s;%s;%s)#0{•.Name}", s.ev, list, s.ign) }
	vU := fmt.Sprintf("[(SolveUtility(%s;[];•.Name;%s)#0.data[0]/%s),%s]", s.ev, s.ign, P, T)
	tu, con := oneType(m, "•.NodeType")
	isU := tu[2]
	inEv := m.atom("in(" + s.ev + ",•.Name)")
	isT := m.atom(s.isTotal())
	con = m.and(con, m.not(m.and(isU, inEv))) // evidence of utilities is rejected
	con = m.and(con, m.or(isU, m.not(isT)))   // the total is a utility
	var sets [3]int
	var at [3]*Value
	var totals []*Value
	done := false
	var updates []*Value
	mixed := false
	s.fl.each(func(u *Value) {
		if u.op != OpMapUpdate || !q.live(u.blk) {
			return
		}
		has, other := false, false
		for _, v := range s.liveLeaves(u.args[0]) {
			if v == s.res {
				has = true
			} else if !isNilConst(v) {
				other = true
			}
		}
		if has && other {
			mixed = true
			s.undec("entries", u, "an entry of the result or of another map")
		}
		if has {
			updates = append(updates, u)
		}
	})
	if mixed {
		return
	}
	for _, u := range updates {
		k, v := q.key(u.args[1]), s.term(u.args[2])
		l := q.stageOf(k, u.blk)
		if l == nil {
			if q.inner[u.blk] != nil {
				s.undec("entries", u, "entry "+k+" set in a loop")
				return
			}
			totals = append(totals, u)
			continue
		}
		d := q.dom(l)
		if d == nil {
			s.undec("entries", u, "loop around the entry "+k)
			return
		}
		in := q.coll(d.list)
		c := q.stage(l, k, q.cond(l, u.blk), u)
		if c.unk != "" || in.unk != "" {
			s.undec("entries", u, "elements of the loop: "+c.unk)
			return
		}
		v = q.sub(d, in, v, "·")
		if !s.entered("entries", "entry "+c.expr, l, u) {
			return
		}
		if c.bad != "" {
			s.bad("entries", "all", c.at, "some nodes get no result: "+c.bad)
			return
		}
		if c.src == s.ev {
			if !s.cmp("value", "key of evidence", u, c.expr, "·.key", "the evidence vector is stored under another name") {
				return
			}
			if !s.cmp("value", "evidence", u, v, vE("·.key"), "the result of a variable with evidence") {
				return
			}
			s.selEvidence(u, c.sel)
			done = true
			continue
		}
		if src := s.nodes; c.src != src && c.src != s.net+".variables" {
			s.undec("entries", u, "elements of "+c.src)
			return
		}
		name, _ := s.elem(c.src, c.expr)
		v, _ = s.elem(c.src, v)
		sel := q.rename(c.sel, func(x string) string { y, _ := s.elem(c.src, x); return y })
		if !s.cmp("value", "name", u, name, "•.Name", "the result is stored under another name") {
			return
		}
		kind := -1
		switch {
		case strings.HasPrefix(v, "ToEvidence("):
			kind = 0
			if !s.cmp("value", "evidence", u, v, vE("•.Name"), "the result of a variable with evidence") {
				return
			}
		case strings.HasPrefix(v, "SolveQuery("):
			kind = 1
			want := vQ("[•.Name]")
			if joint := vQ("list" + in.text() + in.expr); s.joint(c.src, joint) == v {
				want = v
			}
			if !s.cmp("value", "query", u, v, want, "the result of a variable without evidence") {
				return
			}
		case strings.HasPrefix(v, "["):
			kind = 2
			if !s.cmp("value", "utility", u, v, vU, "the result of a utility") {
				return
			}
		default:
			if m.and(m.and(sel, isT), con) == m.and(sel, con) {
				totals = append(totals, u)
				continue
			}
			s.undec("entries", u, "value "+v)
			return
		}
		if m.and(sets[kind], sel) != 0 {
			s.undec("entries", u, "a result is stored at several places")
			return
		}
		sets[kind] = m.or(sets[kind], sel)
		at[kind] = u
	}
	if at[0] != nil {
		s.sel("evidence", at[0], sets[0], m.and(inEv, m.not(isU)), con)
		done = true
	}
	if !done {
		s.bad("entries", "evidence", s.res, "no result is stored for variables with evidence")
	}
	if at[1] == nil {
		s.bad("entries", "query", s.res, "no result is stored for variables without evidence")
	} else {
		s.sel("query", at[1], sets[1], m.and(m.not(inEv), m.not(isU)), con)
	}
	if at[2] == nil {
		s.bad("entries", "utility", s.res, "no result is stored for utilities")
	} else {
		s.sel("utility", at[2], sets[2], m.and(isU, m.not(isT)), con)
	}
	s.notNumbers()
	if len(totals) == 0 {
		s.bad("entries", "total", s.res, "no result is stored for the total utility")
		return
	}
	if len(totals) > 1 {
		s.undec("entries", totals[1], "the total utility is stored at several places")
		return
	}
	if u := at[2]; u != nil && !reachesBlock(u.blk, totals[0].blk, nil) {
		s.bad("entries", "order", totals[0], "the total utility is put together before the utilities it is made of")
		return
	}
	s.totalEntry(totals[0], T)
}

// joint: the term of a query for all elements of the list the loop runs over.
func (s *shown) joint(src, k string) string {
	k, _ = s.elem(src, k)
	return k
}

func (s *shown) selEvidence(u *Value, sel int) {
	if sel == 1 {
		s.c.ok("entries", s.entry+" evidence: all")
		return
	}
	if x := s.q.unknown(sel); x != "" {
		s.undec("entries", u, "evidence: condition "+x)
		return
	}
	s.bad("entries", "evidence", u, "the evidence vector is stored only if "+s.q.m.canon(sel))
}

// totalEntry: per parent its utility times its weight, and the total.
func (s *shown) totalEntry(u *Value, T string) {
	q, m := s.q, s.q.m
	base := q.key(u.args[1])
	if !strings.HasSuffix(base, ".Name") {
		s.undec("entries", u, "name of the total utility: "+base)
		return
	}
	base = strings.TrimSuffix(base, ".Name")
	cond := q.cond(nil, u.blk)
	pick := "the{" + s.nodes + "|" + s.isTotal() + "}·.node"
	pick2 := "the{" + s.net + ".variables|" + s.isTotal() + "}·"
	want := -1
	switch base {
	case pick, pick2:
		want = m.not(m.atom("nil(" + base + ")"))
	case s.nodes + "[" + q.minus + "].node", s.net + ".variables[" + q.minus + "]":
		want = m.not(m.atom(q.minus + "=-1"))
	default:
		if known(base) && strings.HasPrefix(base, "the{") && !strings.Contains(base, "?") {
			s.bad("entries", "total", u, "the total utility is "+base+" instead of the node at the total utility's position")
		} else {
			s.undec("entries", u, "total utility: "+base)
		}
		return
	}
	if cond != want {
		if x := q.unknown(cond); x != "" || cond == 1 {
			s.undec("entries", u, "total utility: condition "+m.canon(cond))
		} else {
			s.bad("entries", "total", u, "the total utility is stored only if "+m.canon(cond))
		}
		return
	}
	s.c.ok("entries", s.entry+" total: "+base)
	given := base + ".Factor.Given"
	one := func(pos, elem string) string {
		x := []string{"RESULT{" + elem + "}[0]", base + ".Factor.Table[" + pos + "]"}
		sort.Strings(x)
		return "(" + x[0] + "*" + x[1] + ")"
	}
	parts, ok := s.seqOf(u.args[2])
	if !ok || len(parts) != 2 || parts[0].co == nil || parts[1].co != nil {
		if ok && len(parts) == 2 && parts[0].co == nil {
			s.bad("value", "total", u, "the total utility is not listed after its parts")
			return
		}
		if msg := s.lastPlace(q.pick(stripCT(u.args[2])), u); msg != "" {
			s.bad("value", "total", u, msg)
			return
		}
		s.undec("value", u, "parts of the total utility")
		return
	}
	co := parts[0].co
	switch {
	case co.unk != "":
		s.undec("value", u, "parts of the total utility: "+co.unk)
		return
	case co.bad != "":
		s.bad("value", "total parts", co.at, "parts of the total utility are missing: "+co.bad)
		return
	case co.src != given:
		s.undec("value", u, "parts of the total utility from "+co.src)
		return
	case co.sel != 1:
		if x := q.unknown(co.sel); x != "" {
			s.undec("value", u, "parts of the total utility if "+x)
		} else {
			s.bad("value", "total parts", u, "a part of the total utility is listed only if "+m.canon(co.sel))
		}
		return
	case co.ord != 0:
		s.bad("value", "total parts", u, "the parts of the total utility are listed in another order")
		return
	}
	if !s.cmp("value", "total parts", u, co.expr, one("pos·", "·"), "a part of the total utility") {
		return
	}
	s.cmp("value", "total", u, parts[1].one, T, "the total utility")
}

// lastPlace: whether the last place of a new list is not filled.
func (s *shown) lastPlace(v, at *Value) string {
	if v.op != OpMakeSlice {
		return ""
	}
	var lone []*Value
	for _, u := range v.uses {
		switch {
		case u.op == OpMapUpdate && u == at, u.op == OpBuiltin && u.name == "len":
		case u.op == OpIndexAddr && u.args[0] == v:
			for _, x := range u.uses {
				if x.op != OpStore || x.args[0] != u {
					return ""
				}
				if s.q.inner[x.blk] == s.q.inner[v.blk] {
					lone = append(lone, u)
				}
			}
		default:
			return ""
		}
	}
	if len(lone) == 0 {
		return "the total is missing from the result of the total utility"
	}
	if len(lone) > 1 {
		return ""
	}
	ln, pos := s.p(v.args[0]), s.p(lone[0].args[1])
	if d := ln.add(pos, -1).add(polyConst(1), -1); len(ln) > 0 && len(d) > 0 {
		return "the total is not at the last place of the result of the total utility"
	}
	return ""
}

// notNumbers: a single value of a result is always used.
func (s *shown) notNumbers() {
	q, m := s.q, s.q.m
	seen := map[*Value]bool{}
	for _, v := range s.nans {
		if seen[v] {
			continue
		}
		seen[v] = true
		l := q.inner[v.blk]
		r := q.reach(l)
		f := 0
		for i, x := range v.args {
			if !isNaNCall(x) && !q.gone(v.blk.preds[i]) {
				f = m.or(f, q.into(l, v.blk.preds[i], v.blk, r))
			}
		}
		g := r[v.blk]
		for _, x := range append(m.support(f), m.support(g)...) {
			if strings.HasPrefix(x, "one{") || strings.HasPrefix(x, "empty{") {
				f, g = m.set(f, x, x[0] == 'o'), m.set(g, x, x[0] == 'o')
			}
		}
		switch {
		case f == g:
			s.c.ok("value", s.entry+" number")
		case q.unknown(f) != "":
			s.undec("value", v, "a number is used if "+m.canon(f))
		default:
			s.bad("value", "number", v, "a single value is used only if "+m.canon(f))
		}
	}
}

// chain: the condition for b within a round of outer, without the loops in between being empty.
func (s *shown) chainCond(outer *Loop, b *Block) int {
	q, m := s.q, s.q.m
	l := q.inner[b]
	f := q.cond(l, b)
	for l != nil && l != outer {
		p := q.parent[l]
		f = m.and(f, q.reach(p)[l.head])
		l = p
	}
	for _, x := range m.support(f) {
		if strings.HasPrefix(x, "empty{") {
			f = m.or(m.set(f, x, true), m.set(f, x, false))
		}
	}
	return f
}

// printCall: the values a call prints, and its format.
func (s *shown) printCall(v *Value) (vals []*Value, format string, ok bool) {
	if v.op != OpCall || !strings.HasPrefix(v.name, "fmt.") {
		return nil, "", false
	}
	args := v.args
	switch v.name {
	case "fmt.Print", "fmt.Println":
	case "fmt.Printf", "fmt.Fprint", "fmt.Fprintln":
		args = args[1:]
		if v.name == "fmt.Printf" {
			format, _ = constStr(v.args[0])
		}
	case "fmt.Fprintf":
		format, _ = constStr(v.args[1])
		args = args[2:]
	default:
		return nil, "", false
	}
	if len(args) != 1 {
		return nil, "", false
	}
	if isNilConst(stripCT(args[0])) {
		return nil, format, true
	}
	el, ok := litElems(s.fl, args[0])
	for i, e := range el {
		for e.op == OpMakeIface {
			e = e.args[0]
		}
		el[i] = e
	}
	return el, format, ok
}

// decimals of the only number in a format, -1 if not known.
func decimals(format string) int {
	i := strings.IndexByte(format, '.')
	if i < 0 || i+2 >= len(format) || strings.IndexByte(format[i+1:], '.') >= 0 || format[i+2] != 'f' {
		return -1
	}
	return int(format[i+1] - '0')
}

// inference: the command solves policies, solves everything, and prints each value for its node.
func (c *Ctx) inference() {
	var s *shown
	var solves []*Value
	for _, fn := range c.w.funcs {
		if fn.Pkg == nil || fn.Pkg != c.w.pkg("cmd/bbn") || fn.Parent() == nil || fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 1 {
			continue
		}
		fl, _ := flattenStop(c.w, fn, isShownOp)
		has := false
		fl.each(func(v *Value) { has = has || prim(v, "Solve") })
		if !has {
			continue
		}
		if s != nil {
			c.undecide("printed", "several commands solve")
			return
		}
		s = newShown(c, c.flatStop(fn, isShownOp), "inference")
	}
	if s == nil {
		c.undecide("printed", "no command solves")
		return
	}
	q, m := s.q, s.q.m
	s.fl.each(func(v *Value) {
		if prim(v, "Solve") && q.live(v.blk) {
			solves = append(solves, v)
		}
	})
	if len(solves) != 1 || len(solves[0].args) != 4 {
		s.undec("arguments", nil, fmt.Sprintf("%d calls of Solve", len(solves)))
		return
	}
	sv := solves[0]
	net := q.key(sv.args[0])
	if !strings.HasPrefix(net, "FromFile(") || !known(net) {
		s.undec("arguments", sv, "network "+net)
		return
	}
	ev := q.key(sv.args[1])
	s.c.ok("arguments", "inference network: "+net)
	if !strings.HasPrefix(ev, "ParseEvidence(") {
		s.undec("arguments", sv, "evidence "+ev)
		return
	}
	s.c.ok("arguments", "inference evidence: "+ev)
	s.cmp("arguments", "nodes", sv, s.list(sv.args[2]), "list{"+net+".variables}NewNode(·)", "the nodes solved for")
	s.cmp("arguments", "policies", sv, q.key(sv.args[3]), "false", "whether policies are ignored")
	// policies first
	var pol *Value
	s.fl.each(func(v *Value) {
		if prim(v, "SolvePolicies") && q.live(v.blk) {
			pol = v
		}
	})
	switch {
	case pol == nil:
		s.bad("policies", "solved", sv, "the results are computed without solving the policies")
	case q.key(pol.args[0]) != net:
		s.undec("policies", pol, "policies of "+q.key(pol.args[0]))
	case !dominates(pol.blk, sv.blk) || pol.blk == sv.blk && pol.id > sv.id:
		if f := q.cond(nil, pol.blk); q.inner[pol.blk] == nil && q.unknown(f) == "" {
			s.bad("policies", "solved", pol, "the policies are solved after the results, or only if "+m.canon(f))
		} else {
			s.undec("policies", pol, "order")
		}
	default:
		s.cmp("policies", "stepwise", pol, q.key(pol.args[1]), "true", "stepwise solving of policies")
	}
	// printing
	R := q.key(&Value{op: OpExtract, args: []*Value{sv}, idx: 0})
	want := map[string]string{}
	for k, v := range map[string]string{"name": "•.Name", "outcomes": "elem(•.Outcomes)", "utility": "elem(" + R + "{•.Name})", "probability": "(" + minmax("100", "elem("+R+"{•.Name})") + ")"} {
		want[v] = k
	}
	ty, con := oneType(m, "•.NodeType")
	wantC := map[string]int{"name": 1, "outcomes": 1, "utility": ty[2], "probability": m.not(ty[2]), "evidence": m.atom("in(" + ev + ",•.Name)")}
	got := map[string]int{}
	at := map[string]*Value{}
	bad := false
	s.fl.each(func(v *Value) {
		vals, format, ok := s.printCall(v)
		if !ok || !q.live(v.blk) || bad {
			return
		}
		outer, d := s.over(v.blk, net+".variables")
		if outer == nil {
			return
		}
		if d.bad != "" || d.ord != 0 {
			bad = true
			s.bad("printed", "all", v, "not all nodes are printed in order: "+d.bad)
			return
		}
		sub := func(x string) string {
			for l := q.inner[v.blk]; l != nil && l != outer; l = q.parent[l] {
				if d := q.dom(l); d != nil && !d.isMap {
					x = strings.ReplaceAll(x, q.tok(l), "elem("+q.key(d.list)+")")
				}
			}
			return strings.ReplaceAll(x, q.tok(outer), "•")
		}
		f := m.rename(s.chainCond(outer, v.blk), sub)
		for _, e := range vals {
			k := sub(q.key(e))
			what := want[k]
			if cs, isC := constStr(e); isC {
				if !strings.Contains(cs, "+") {
					continue
				}
				what = "evidence"
			}
			if what == "" {
				if isFloat(e.typ) && known(k) && strings.Contains(k, "elem(") && !strings.Contains(k, "⟨") {
					bad = true
					s.bad("printed", "value", v, "the value printed for a node is "+k)
				}
				continue
			}
			if l := q.inner[v.blk]; l != outer {
				st := q.stage(l, q.tok(l), 1, v)
				if d := q.dom(l); st.bad == "" && d != nil && d.ct.iv != nil && d.ct.iv.step < 0 {
					st.bad = "the loop runs backwards"
				}
				if st.bad != "" {
					bad = true
					s.bad("printed", what, v, "values of a node are left out or in another order: "+st.bad)
					return
				}
			}
			if n := decimals(format); n >= 0 && n != 3 && isFloat(e.typ) {
				bad = true
				s.bad("printed", what, v, fmt.Sprintf("values are printed with %d decimals", n))
				return
			}
			if m.and(got[what], f) != 0 {
				s.undec("printed", v, what+" is printed twice")
				bad = true
				return
			}
			got[what] = m.or(got[what], f)
			at[what] = v
		}
	})
	if bad {
		return
	}
	for what, w := range wantC {
		if at[what] == nil {
			s.undec("printed", sv, "where the "+what+" is printed")
			continue
		}
		s.eqSel("printed", what, at[what], got[what], w, con, "the "+what+" of a node is printed")
	}
}

func minmax(a, b string) string {
	if b < a {
		return b + "*" + a
	}
	return a + "*" + b
}
