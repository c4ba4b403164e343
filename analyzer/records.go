package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Records of a file in lockstep with the variables of a network: which record goes where, field by field.

func isNetworkNew(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	switch fn.Pkg.Pkg.Name() {
	case "bbn":
		return fn.Name() == "New" && fn.Signature.Recv() == nil
	case "logic":
		return true
	}
	return false
}

// fsite: a value put into a field of an element of a list.
type fsite struct {
	field string
	val   *Value
	at    *Value
	idx   *Value // place in the list, nil if appended
}

// fieldSites: everything put into the elements of a list.
func fieldSites(n *netc, list *Value) (out []fsite, ok bool) {
	list = n.q.pick(stripCT(list))
	ok = true
	spread := func(v, at, idx *Value) {
		v = n.q.pick(stripCT(v))
		if v.op == OpLoad && v.args[0].op == OpAlloc {
			// a local record, filled field by field
			for _, u := range v.args[0].uses {
				switch u.op {
				case OpStore:
					if st := stripCT(u.args[1]); st.op == OpStruct {
						s := structOf(st.typ)
						for i, x := range st.args {
							out = append(out, fsite{s.Field(i).Name(), x, u, idx})
						}
					} else if st.op != OpConst {
						ok = false
					}
				case OpFieldAddr:
					for _, w := range u.uses {
						if w.op == OpStore && w.args[0] == u {
							out = append(out, fsite{fieldName(u), w.args[1], w, idx})
						}
					}
				}
			}
			return
		}
		if v.op != OpStruct || structOf(v.typ) == nil {
			ok = false
			return
		}
		s := structOf(v.typ)
		for i, x := range v.args {
			out = append(out, fsite{s.Field(i).Name(), x, at, idx})
		}
	}
	if list.op == OpMakeSlice {
		for _, u := range list.uses {
			if u.op != OpIndexAddr || u.args[0] != list {
				continue
			}
			for _, s := range u.uses {
				switch {
				case s.op == OpStore && s.args[0] == u && n.q.live(s.blk):
					spread(s.args[1], s, u.args[1])
				case s.op == OpFieldAddr:
					for _, w := range s.uses {
						if w.op == OpStore && w.args[0] == s && n.q.live(w.blk) {
							out = append(out, fsite{fieldName(s), w.args[1], w, u.args[1]})
						}
					}
				}
			}
		}
		if len(out) > 0 {
			return out, ok
		}
	}
	sites, k := n.q.appends(list)
	if !k {
		return nil, false
	}
	for _, s := range sites {
		spread(s.v, s.at, nil)
	}
	return out, ok
}

// recordRule: a field and what it is filled with, relative to the current record.
type recordRule struct {
	field string // Go name
	what  string
	want  []string // acceptable names; ⟨⟩ is the current record
}

// records: every element of src becomes an element of list, with fields as required.
func (n *netc) records(rule string, list, at *Value, src string, rules []recordRule) {
	sites, ok := fieldSites(n, list)
	if !ok || len(sites) == 0 {
		n.undec(rule, at, "list of records not recognised")
		return
	}
	count := map[string]int{}
	for _, r := range rules {
		for _, s := range sites {
			if s.field != r.field {
				continue
			}
			// the loop over the records
			var l *Loop
			for x := n.q.inner[s.at.blk]; x != nil; x = n.q.parent[x] {
				if d := n.q.dom(x); d != nil && !d.isMap && strings.HasSuffix(n.q.key(d.list), src) {
					l = x
				}
			}
			if l == nil {
				n.undec(rule, s.at, r.what+" is not set in a loop over the records")
				continue
			}
			d := n.q.dom(l)
			if s.idx != nil && stripConv(s.idx) != stripConv(d.ct.iv.cur) {
				p := n.p(s.idx).add(n.p(d.ct.iv.cur), -1)
				if len(p) == 1 && p[""] != 0 {
					n.bad(rule, "place of a record", s.at, "a record is put at another place than its own")
				} else {
					n.undec(rule, s.at, "place of a record")
				}
				continue
			}
			if d.partial != "" {
				n.bad(rule, "records", s.at, "not every record is used: the loop "+d.partial)
				continue
			}
			count[r.field]++
			n.sameField(rule, r, s, l)
		}
		if count[r.field] == 0 {
			n.undec(rule, at, r.what+": no value found")
		}
	}
}

// sameField: the value of a field is that of the record, whatever way it takes.
func (n *netc) sameField(rule string, r recordRule, s fsite, l *Loop) {
	m := n.q.m
	tok := n.q.tok(l)
	match := func(k string) bool {
		for _, w := range r.want {
			w = strings.ReplaceAll(w, "⟨⟩", tok)
			if p, rest, wild := strings.Cut(w, "*"); wild {
				if strings.HasSuffix(k, rest) && strings.HasPrefix(k, p) && !strings.ContainsAny(strings.TrimSuffix(k, rest), ".[{") {
					return true
				}
			} else if k == w {
				return true
			}
		}
		return false
	}
	for _, lc := range n.leafConds(l, s.val, s.at.blk) {
		v := stripCT(lc.v)
		k := n.q.key(v)
		if match(k) {
			n.c.ok(rule, n.entry+" "+r.what)
			continue
		}
		switch {
		case v.op == OpSlice && match(n.q.key(v.args[0])):
			if v.args[1] == nil && v.args[2] != nil {
				// up to its own length
				if h := stripConv(v.args[2]); h.op == OpBuiltin && h.name == "len" && match(n.q.key(h.args[0])) {
					n.c.ok(rule, n.entry+" "+r.what)
					continue
				}
			}
			n.bad(rule, r.what, s.at, "only a part of the "+r.what+" is kept")
		case v.op == OpConst || v.op == OpSlice && isLit(n.fl, v):
			// a fixed value: only in place of nothing
			empty := false
			for _, a := range m.support(lc.f) {
				if m.set(lc.f, a, false) != 0 {
					continue
				}
				if (strings.HasPrefix(a, "empty{") || strings.HasPrefix(a, "nil(")) && n.aboutField(a, match) && v.op == OpConst {
					empty = true
				}
				if x, y, ok := strings.Cut(a, "="); ok && match(x) && v.op == OpConst && v.cval != nil && v.cval.ExactString() == y {
					empty = true
				}
			}
			if u := n.q.unknown(lc.f); u != "" {
				n.undec(rule, s.at, r.what+" under "+u)
				continue
			}
			if empty || v.op == OpConst && v.cval == nil {
				n.undec(rule, s.at, r.what+" can be nothing")
				continue
			}
			if lc.f == 0 {
				continue
			}
			n.bad(rule, r.what, s.at, "the "+r.what+" is replaced by a fixed value when "+m.canon(lc.f))
		case v.op == OpCall && strings.HasPrefix(v.name, "strings.") && len(v.args) > 0 && match(n.q.key(v.args[0])) && v.name != "strings.Clone":
			n.bad(rule, r.what, s.at, "the "+r.what+" is changed by "+v.name)
		case known(k) && strings.Contains(k, "⟨"):
			n.bad(rule, r.what, s.at, "the "+r.what+" of a record is taken from "+k)
		case v.op == OpLoad && foreignIndex(n, v, l):
			n.bad(rule, r.what, s.at, "the "+r.what+" is taken by position from another list: "+k)
		default:
			n.undec(rule, s.at, r.what+" is "+k)
		}
	}
}

func (n *netc) aboutField(atom string, match func(string) bool) bool {
	i, j := strings.IndexAny(atom, "({"), strings.LastIndexAny(atom, ")}")
	if i < 0 || j < i {
		return false
	}
	in := atom[i+1 : j]
	if match(in) {
		return true
	}
	for i := range in {
		if in[i] == ',' && (match(in[:i]) || match(in[i+1:])) {
			return true
		}
	}
	return false
}

// foreignIndex: a field of an element, at the loop's position, of a list that the loop does not run over.
func foreignIndex(n *netc, v *Value, l *Loop) bool {
	for i := 0; i < 6; i++ {
		switch v.op {
		case OpLoad, OpField, OpFieldAddr, OpChangeType:
			v = v.args[0]
		case OpIndexAddr, OpIndex:
			d := n.q.dom(l)
			return stripConv(v.args[1]) == stripConv(d.ct.iv.cur) && n.q.elemLoop(v) == nil
		default:
			return false
		}
	}
	return false
}

// goField: the Go field of a record type with the given external key.
func goField(t types.Type, key string) string {
	for i := 0; i < 4; i++ {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		}
		break
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		k, ok := extKey(st, i)
		if ok && k == key {
			return st.Field(i).Name()
		}
		if ok && k == "" {
			if f := goField(st.Field(i).Type(), key); f != "" {
				return f
			}
		}
	}
	return ""
}

// fileRecords: the lockstep of records and variables in the writer and both readers.
func (c *Ctx) fileRecords() {
	if fn := c.must("", "", "ToYAML"); fn != nil {
		fl := c.flatStop(fn, isNetworkNew)
		n := trainSeq(c, fl, "ToYAML")
		done := false
		for _, a := range encodeArgs(fl) {
			a = stripConv(a)
			if a.op == OpMakeIface {
				a = stripConv(a.args[0])
			}
			a = n.q.pick(a)
			st := structOf(a.typ)
			if a.op != OpStruct || st == nil {
				continue
			}
			for i, x := range a.args {
				k, _ := extKey(st, i)
				if k != "variables" {
					continue
				}
				done = true
				var rules []recordRule
				for _, f := range [][3]string{{"variable", "name", ".Name"}, {"given", "parents", ".Factor.Given"}, {"outcomes", "outcomes", ".Outcomes"}, {"position", "position", ".Position"}, {"color", "color", ".Color"}} {
					if g := goField(st.Field(i).Type(), f[0]); g != "" {
						rules = append(rules, recordRule{g, f[1], []string{"⟨⟩" + f[2]}})
					}
				}
				n.records("record", x, a, ".variables", rules)
			}
		}
		if !done {
			c.undecide("record", "ToYAML: list of records not recognised")
		}
	}
	for _, format := range []string{"YAML", "BIFXML"} {
		fn := c.must("", "", "From"+format)
		if fn == nil {
			continue
		}
		fl := c.flatStop(fn, isNetworkNew)
		n := trainSeq(c, fl, "From"+format)
		var nw *Value
		cnt := 0
		var rec types.Type
		fl.each(func(v *Value) {
			if prim(v, "New") {
				nw = v
				cnt++
			}
			if v.op == OpFieldAddr && fieldName(v) == "Variables" {
				if p, ok := v.typ.Underlying().(*types.Pointer); ok {
					rec = p.Elem()
				}
			}
		})
		if cnt != 1 || len(nw.args) < 4 || rec == nil {
			n.undec("record", nil, "creation of the network not recognised")
			continue
		}
		var vr, fr []recordRule
		add := func(rs *[]recordRule, field, what, key, pre string) {
			if g := goField(rec, key); g != "" {
				*rs = append(*rs, recordRule{field, what, []string{"⟨⟩." + pre + g}})
			}
		}
		nameKey := "variable"
		if format == "BIFXML" {
			nameKey = "name"
			add(&vr, "Outcomes", "outcomes", "outcome", "")
		} else {
			add(&vr, "Outcomes", "outcomes", "outcomes", "")
			add(&vr, "Position", "position", "position", "")
			add(&vr, "Color", "color", "color", "")
			add(&fr, "Given", "parents", "given", "")
		}
		add(&vr, "Name", "name", nameKey, "")
		add(&fr, "For", "name of the factor", nameKey, "")
		if format == "BIFXML" {
			nm := goField(rec, nameKey)
			fr = append(fr, recordRule{"Given", "parents", []string{"*{⟨⟩." + nm + "}.Given"}})
		}
		if format == "YAML" {
			for _, k := range []string{"variable", "given", "type", "outcomes", "position", "color", "logic", "table"} {
				if goField(rec, k) == "" {
					n.bad("key", "key "+k, nw, "the key '"+k+"' of the file format is not read")
				} else {
					c.ok("key", k)
				}
			}
		}
		n.records("record", nw.args[2], nw, ".Variables", vr)
		n.records("record", nw.args[3], nw, ".Variables", fr)
		n.parsedTables()
		if format == "YAML" {
			n.logicText(rec)
		} else {
			n.positionProperty()
		}
	}
}

// positionProperty: both coordinates come from the property named position, and only from it.
func (n *netc) positionProperty() {
	fl := n.fl
	set := map[int64]*Value{}
	var nums []*Value
	fl.each(func(v *Value) {
		if v.op == OpCall && (v.name == "strconv.Atoi" || v.name == "strconv.ParseInt") {
			nums = append(nums, v)
		}
		if v.op == OpCall && (strings.HasPrefix(v.name, "strings.Split") || v.name == "strings.Cut") && len(v.args) > 1 {
			if _, ok := constStr(v.args[0]); ok {
				n.bad("position", "separator", v, "a constant is split instead of the text of a property")
			}
		}
		parsed := func(k int64, x *Value) {
			seen := map[*Value]bool{}
			var walk func(x *Value)
			walk = func(x *Value) {
				x = stripConv(x)
				if seen[x] {
					return
				}
				seen[x] = true
				switch {
				case x.op == OpPhi:
					for _, y := range x.args {
						walk(y)
					}
				case x.op == OpBin && x.tok == token.QUO:
					walk(x.args[0])
				case x.op == OpExtract && x.idx == 0 && x.args[0].op == OpCall && strings.HasPrefix(x.args[0].name, "strconv."):
					set[k] = v
				}
			}
			walk(x)
		}
		if ar, ok := v.typ.(*types.Array); ok && v.op == OpStruct && ar.Len() == 2 && isInteger(ar.Elem()) {
			for k, x := range v.args {
				parsed(int64(k), x)
			}
		}
		if v.op == OpStore && v.args[0].op == OpIndexAddr && isInteger(v.args[1].typ) {
			if k, ok := constInt(v.args[0].args[1]); ok {
				parsed(k, v.args[1])
			}
		}
	})
	switch {
	case len(set) == 1:
		for k, v := range set {
			n.bad("position", "coordinates", v, fmt.Sprintf("only coordinate %d of the position is read", k))
		}
		return
	case set[0] == nil || set[1] == nil || len(nums) == 0:
		n.c.undecide("position", n.entry+": coordinates of the position not recognised")
		return
	}
	// name and value, and two coordinates
	wrong := false
	fl.each(func(v *Value) {
		if v.op != OpBin || v.tok != token.EQL && v.tok != token.NEQ || wrong {
			return
		}
		for i, x := range v.args {
			k, isc := constInt(v.args[1-i])
			x = stripConv(x)
			if !isc || k <= 2 || x.op != OpBuiltin || x.name != "len" {
				continue
			}
			if y := stripCT(x.args[0]); y.op == OpCall && y.name == "strings.Split" && n.q.inner[v.blk] != nil {
				wrong = true
				n.bad("position", "parts", v, fmt.Sprintf("the position has %d parts", k))
			}
		}
	})
	if wrong {
		return
	}
	// another property is no position
	var tests []*Value
	other := ""
	fl.each(func(v *Value) {
		if v.op != OpBin || v.tok != token.EQL && v.tok != token.NEQ || n.q.inner[v.blk] == nil {
			return
		}
		for i := 0; i < 2; i++ {
			t, ok := constStr(v.args[i])
			if !ok || !isString(v.args[1-i].typ) {
				continue
			}
			if x := stripCT(v.args[1-i]); x.op != OpCall && x.op != OpLoad && x.op != OpIndex && x.op != OpExtract {
				continue
			}
			reaches := false
			for _, c := range nums {
				if n.q.inner[c.blk] != nil && n.q.inner[v.blk].blocks[c.blk] && dominates(v.blk, c.blk) {
					reaches = true
				}
			}
			if !reaches && t != "position" {
				continue
			}
			if t == "position" {
				tests = append(tests, v)
			} else {
				other = t
			}
		}
	})
	if len(tests) == 0 {
		if other != "" {
			n.bad("position", "name of the property", nums[0], "the position is read from a property named '"+other+"'")
		} else {
			n.c.undecide("position", n.entry+": name of the property not recognised")
		}
		return
	}
	if l := n.q.inner[tests[0].blk]; len(l.head.instrs) > 0 {
		s := &Sim{fl: fl}
		var hit *Value
		first := true
		s.visit = func(s *Sim, env simEnv, v *Value) bool {
			for _, t := range tests {
				if v == t {
					return true
				}
			}
			for _, c := range nums {
				if v == c {
					hit = v
				}
			}
			if v.blk != l.head {
				first = false
			}
			return hit != nil || v.blk == l.head && !first || !l.blocks[v.blk]
		}
		s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool { return true }
		s.run(l.head.instrs[0], nil)
		if hit != nil {
			n.bad("position", "name of the property", hit, "a property is taken for the position without a look at its name")
			return
		}
	}
	for _, t := range tests {
		l := n.q.inner[t.blk]
		s := &Sim{fl: fl}
		var hit *Value
		s.assume = func(s *Sim, env simEnv, v *Value) (Fact, bool) { return boolFact(t.tok == token.NEQ), v == t }
		s.visit = func(s *Sim, env simEnv, v *Value) bool {
			for _, c := range nums {
				if v == c {
					hit = v
				}
			}
			return hit != nil || v.blk == l.head || !l.blocks[v.blk]
		}
		s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool { return true }
		s.run(t, simEnv{t: boolFact(t.tok == token.NEQ)})
		if hit != nil {
			n.bad("position", "name of the property", hit, "a property with another name is taken for the position")
			return
		}
		if n.looked(l, t) {
			n.bad("position", "other properties", t, "properties after one with another name are not looked at")
			return
		}
		s = &Sim{fl: fl}
		s.visit = func(s *Sim, env simEnv, v *Value) bool {
			for _, c := range nums {
				if v == c {
					hit = v
				}
			}
			return hit != nil || v.blk == l.head || !l.blocks[v.blk]
		}
		s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool { return true }
		s.run(t, simEnv{t: boolFact(t.tok == token.EQL)})
		if hit == nil {
			n.bad("position", "name of the property", t, "the property named position is not read")
			return
		}
	}
	n.c.ok("position", n.entry+" property named position, both coordinates")
}

// parsedTables: numbers of a table stay at their place.
func (n *netc) parsedTables() {
	n.fl.each(func(s *Value) {
		if s.op != OpStore || s.args[0].op != OpIndexAddr || !isFloat(s.args[1].typ) {
			return
		}
		for _, v := range n.liveLeaves(s.args[1]) {
			if v.op != OpExtract || v.args[0].op != OpCall || v.args[0].name != "strconv.ParseFloat" {
				if b := stripConv(v); b.op == OpBin {
					n.undec("table-order", s, "computed value")
				}
				continue
			}
			call := v.args[0]
			if b, ok := constInt(call.args[1]); ok && b != 64 {
				n.bad("table-order", "numbers", s, "the numbers of a table are read with less precision than the table has")
				continue
			}
			x := stripConv(call.args[0])
			if x.op == OpLoad {
				x = x.args[0]
			}
			if x.op != OpIndexAddr && x.op != OpIndex {
				n.undec("table-order", s, "text of a number")
				continue
			}
			p, q := n.p(s.args[0].args[1]), n.p(x.args[1])
			l := n.q.inner[s.blk]
			if p.equal(q) {
				// all places of the table
				if mk := stripCT(s.args[0].args[0]); mk.op == OpMakeSlice && l != nil {
					if ct, ok := n.counterOf(l); ok && p.equal(n.p(ct.iv.cur)) {
						d := ct.hi.add(n.p(mk.args[0]), -1)
						if b := stripConv(ct.iv.bound); b.op == OpBuiltin && b.name == "len" {
							if sl := stripCT(b.args[0]); sl.op == OpSlice && stripCT(sl.args[0]) == mk && (sl.args[1] != nil || sl.args[2] != nil) {
								lo, hi := Poly{}, n.p(mk.args[0])
								if sl.args[1] != nil {
									lo = n.p(sl.args[1])
								}
								if sl.args[2] != nil {
									hi = n.p(sl.args[2])
								}
								d = hi.add(lo, -1).add(n.p(mk.args[0]), -1)
							}
						}
						if len(ct.lo) != 0 && onlyConst(ct.lo) || len(d) != 0 && onlyConst(d) {
							n.bad("table-order", "numbers", s, "not all numbers of a table are read: the loop runs from "+ct.lo.String()+" to "+ct.hi.String())
							continue
						}
					}
				}
				n.c.ok("table-order", n.entry+" numbers at their places")
				continue
			}
			if onlyConst(q) && l != nil && n.q.dom(l) != nil && !n.q.dom(l).isMap && p.equal(n.p(n.q.dom(l).ct.iv.cur)) {
				n.bad("table-order", "numbers", s, "all numbers of a table are read from the same place")
				continue
			}
			if l == nil || n.q.dom(l) == nil || n.q.dom(l).isMap {
				n.undec("table-order", s, "place of a number")
				continue
			}
			cur := n.p(n.q.dom(l).ct.iv.cur)
			if d := p.add(q, -1); len(d) == 1 && d[""] != 0 || q.equal(cur) && mirrored(p, cur) {
				n.bad("table-order", "numbers", s, "a number of a table is put at another place than it has in the file")
			} else {
				n.undec("table-order", s, "place "+p.String()+" of number "+q.String())
			}
		}
	})
}

// logicText: the logic operator of a record is not ignored for some operators.
func (n *netc) logicText(rec types.Type) {
	g := goField(rec, "logic")
	if g == "" {
		return
	}
	n.fl.each(func(v *Value) {
		if v.op != OpBin || len(v.args) != 2 {
			return
		}
		x, y := v.args[0], v.args[1]
		if _, ok := constStr(x); ok {
			x, y = y, x
		}
		s, ok := constStr(y)
		if !ok || !strings.HasSuffix(n.q.key(x), "."+g) {
			return
		}
		if s != "" && (v.tok.String() == "==" || v.tok.String() == "!=") {
			n.bad("logic-text", "logic operator", v, "the logic operator \""+s+"\" of a record is treated specially")
		} else if s == "" {
			n.c.ok("logic-text", "no logic operator")
		}
	})
}

func isLit(fl *Flat, v *Value) bool {
	_, ok := litElems(fl, v)
	return ok
}

// mirrored: p counts down while cur counts up.
func mirrored(p, cur Poly) bool {
	if len(cur) == 0 {
		return false
	}
	for k, x := range cur {
		if k != "" && p[k] != -x {
			return false
		}
	}
	return true
}

// looked: when the name of a property is another one, the loop over the properties is always left, without an error.
func (n *netc) looked(l *Loop, t *Value) bool {
	s := &Sim{fl: n.fl}
	again, left := false, false
	s.assume = func(s *Sim, env simEnv, v *Value) (Fact, bool) { return boolFact(t.tok == token.NEQ), v == t }
	s.visit = func(s *Sim, env simEnv, v *Value) bool {
		if v.blk == l.head {
			again = true
			return true
		}
		if !l.blocks[v.blk] {
			left = true
			return true
		}
		return false
	}
	s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool { again = true; return true }
	s.run(t, simEnv{t: boolFact(t.tok == token.NEQ)})
	return left && !again
}
