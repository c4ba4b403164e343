package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "Rejection of unknown names: for every place where a name supplied by the user enters (evidence variables and outcomes, query variables, utility variable, parents, node types, logic operators, definitions, file types, CSV columns and cells, evidence syntax), the name is assumed to match nothing (map lookups miss, searches return -1, comparisons are false) and all paths of the inlined program are followed. Every path must end in a returned non-nil error (or a panic, for the functions that document it).", checkC08)
}

type labelSpec struct {
	what    string
	values  func(fl *Flat) []*Value               // values that are the name itself
	seed    func(fl *Flat, l Loc) bool            // memory that holds names
	outer   func(fl *Flat, pt *PTA, l Loc) bool   // containers that must have elements
	starts  func(fl *Flat, t *Taint) []*Value     // default: the entry
	assume  func(fl *Flat, v *Value) (Fact, bool) // further assumptions
	also    func(fl *Flat, l Loc) bool            // names that come along with this one
	noMatch bool                                  // malformed rather than unknown: separators are missing
	dynamic bool                                  // the known names are those of the network: matched exactly, no built-in names
	keyword bool                                  // built-in names; letter case and surrounding space may be ignored
	empty   bool                                  // the empty text has a meaning of its own
	ids     bool                                  // the variable exists, but not in the factor
	number  bool                                  // unknown texts are no numbers
	kind    string                                // the variable exists, and all variables have this type
	returns bool                                  // rejected by an error, not by the panic of Marginal
	each    bool                                  // also decide for a single element of a sequence
}

func paramNamed(fl *Flat, pred func(t types.Type) bool, nth int) *Value {
	for _, p := range fl.params {
		if pred(p.typ) {
			if nth == 0 {
				return p
			}
			nth--
		}
	}
	return nil
}

func isStrMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isString(m.Key()) && isString(m.Elem())
}

func isStrSlice(t types.Type) bool {
	m, ok := t.Underlying().(*types.Slice)
	return ok && isString(m.Elem())
}

func seedPath(pred func(t types.Type) bool, path string) func(fl *Flat, l Loc) bool {
	return func(fl *Flat, l Loc) bool {
		if l.obj.kind != ObjRegion {
			return false
		}
		p := paramNamed(fl, pred, 0)
		return p != nil && l.obj.root == p && l.obj.path+l.path == path
	}
}

func scalarParam(nth int) func(fl *Flat) []*Value {
	return func(fl *Flat) []*Value {
		if p := paramNamed(fl, isString, nth); p != nil {
			return []*Value{p}
		}
		return nil
	}
}

// decoded: a field of a record filled by a decoder, by its external key.
func decoded(key string) func(fl *Flat, l Loc) bool {
	return func(fl *Flat, l Loc) bool {
		if l.obj.kind != ObjExtern || !isDecoder(l.obj.site.name) {
			return false
		}
		f := l.path
		suffix := ""
		if i := strings.LastIndex(f, "."); i >= 0 {
			f = f[i+1:]
		}
		if strings.HasSuffix(f, "*[]") {
			f, suffix = strings.TrimSuffix(f, "*[]"), "*[]"
		}
		return decodedKey(l, f)+suffix == key
	}
}

// decodedKey: external name of the field with the given Go name in the decoded record types.
func decodedKey(l Loc, field string) string {
	a := stripConv(l.obj.site.args[1])
	key := ""
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem())
		case *types.Slice:
			walk(u.Elem())
		case *types.Array:
			walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == field && strings.Contains(pathTypes(l), "") {
					k := tagKey(u.Tag(i), field)
					if key == "" || strings.EqualFold(k, field) {
						key = k
					}
				}
				walk(u.Field(i).Type())
			}
		}
	}
	walk(a.typ)
	return strings.ToLower(key)
}

func pathTypes(l Loc) string { return "" }

func tagKey(tag, field string) string {
	for _, k := range []string{"yaml", "xml"} {
		if v, ok := lookupTag(tag, k); ok {
			n, _, _ := strings.Cut(v, ",")
			if n != "" {
				return n
			}
		}
	}
	return field
}

func lookupTag(tag, key string) (string, bool) {
	i := strings.Index(tag, key+":\"")
	if i < 0 {
		return "", false
	}
	rest := tag[i+len(key)+2:]
	j := strings.Index(rest, "\"")
	if j < 0 {
		return "", false
	}
	return rest[:j], true
}

func isVarSlice(t types.Type) bool {
	m, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(m.Elem(), "", "Variable")
}

func isFactorSlice(t types.Type) bool {
	m, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(m.Elem(), "", "Factor")
}

func checkC08(c *Ctx) {
	ev := func(path string) func(fl *Flat, l Loc) bool { return seedPath(isStrMap, path) }
	qry := seedPath(isStrSlice, "[]")
	type item struct {
		rel, recv, name string
		spec            labelSpec
	}
	items := []item{
		{"", "Network", "SolveQuery", labelSpec{what: "evidence variable", dynamic: true, seed: ev("{k}"), each: true}},
		{"", "Network", "SolveQuery", labelSpec{what: "evidence outcome", dynamic: true, seed: ev("{v}"), also: ev("{k}"), each: true}},
		{"", "Network", "SolveQuery", labelSpec{what: "query variable", dynamic: true, seed: qry, each: true}},
		{"", "Network", "SolveUtility", labelSpec{what: "evidence variable", dynamic: true, seed: ev("{k}"), each: true}},
		{"", "Network", "SolveUtility", labelSpec{what: "evidence outcome", dynamic: true, seed: ev("{v}"), also: ev("{k}"), each: true}},
		{"", "Network", "SolveUtility", labelSpec{what: "query variable", dynamic: true, seed: qry, each: true}},
		{"", "Network", "SolveUtility", labelSpec{what: "utility variable", dynamic: true, empty: true, values: scalarParam(0)}},
		{"", "Network", "SolveQuery", labelSpec{what: "query variable that is not in the result", ids: true, returns: true, seed: qry}},
		{"", "Network", "SolveQuery", labelSpec{what: "evidence variable that is a utility", kind: "2", seed: ev("{k}")}},
		{"", "Network", "SolveUtility", labelSpec{what: "evidence variable that is a utility", kind: "2", seed: ev("{k}")}},
		{"", "Network", "SolveUtility", labelSpec{what: "utility variable that is a chance variable", kind: "0", empty: true, values: scalarParam(0)}},
		{"", "Network", "SolveUtility", labelSpec{what: "utility variable that is a decision", kind: "1", empty: true, values: scalarParam(0)}},
		{"", "Network", "ToEvidence", labelSpec{what: "variable", dynamic: true, values: scalarParam(0)}},
		{"", "Network", "ToEvidence", labelSpec{what: "outcome", dynamic: true, values: scalarParam(1)}},
		{"", "Network", "Marginal", labelSpec{what: "variable", dynamic: true, values: scalarParam(0)}},
		{"", "Network", "Marginal", labelSpec{what: "variable that is not in the factor", ids: true, values: scalarParam(0)}},
		{"", "Network", "Rearrange", labelSpec{what: "variable that is not in the factor", ids: true, seed: qry, each: true}},
		{"", "Network", "Rearrange", labelSpec{what: "variable", dynamic: true, seed: qry, each: true}},
		{"", "", "New", labelSpec{what: "parent of a node", dynamic: true, seed: seedPath(isFactorSlice, "[].Given*[]"), each: true,
			outer: func(fl *Flat, pt *PTA, l Loc) bool {
				return l.obj.kind == ObjRegion && l.obj.root != nil && (isVarSlice(l.obj.root.typ) || isFactorSlice(l.obj.root.typ)) && l.obj.path == "" && l.path == ""
			},
			assume: func(fl *Flat, v *Value) (Fact, bool) {
				// the node has a factor
				if v.op == OpCall && baseName(v.name) == "slices.IndexFunc" && isFactorSlice(v.args[0].typ) {
					return intFact(0), true
				}
				return Fact{}, false
			}}},
		{"", "", "FromFile", labelSpec{what: "file extension", values: func(fl *Flat) []*Value {
			var out []*Value
			fl.each(func(v *Value) {
				if v.op == OpCall && (v.name == "path/filepath.Ext" || v.name == "path.Ext") {
					out = append(out, v)
				}
			})
			return out
		}}},
		{"", "", "FromYAML", labelSpec{what: "node type", keyword: true, seed: decoded("type"), each: true, outer: decodedOuter}},
		{"", "", "FromYAML", labelSpec{what: "logic operator", keyword: true, seed: decoded("logic"), each: true, outer: decodedOuter}},
		{"", "", "FromBIFXML", labelSpec{what: "node type", keyword: true, seed: decoded("type"), each: true, outer: decodedOuter}},
		{"", "", "FromBIFXML", labelSpec{what: "variable without definition", dynamic: true, seed: decodedIn("name", "variable"), each: true, outer: decodedOuter}},
		{"internal/tui", "", "ParseEvidence", labelSpec{what: "evidence entry without '='", seed: qry, each: true, noMatch: true}},
		{"internal/tui", "", "TrainNetwork", labelSpec{what: "node without data column", dynamic: true, seed: seedPath(isVarSlice, "[].Name"), each: true}},
		{"internal/tui", "", "TrainNetwork", labelSpec{what: "data value", dynamic: true, number: true, seed: func(fl *Flat, l Loc) bool {
			return l.obj.kind == ObjExtern && l.obj.site.name == "(*encoding/csv.Reader).Read" && l.path == "@0[]"
		}, starts: csvReads, outer: func(fl *Flat, pt *PTA, l Loc) bool {
			return l.obj.kind == ObjRegion && l.obj.root != nil && isVarSlice(l.obj.root.typ) && l.obj.path == "" && l.path == ""
		}}},
	}
	for _, it := range items {
		fn := c.w.fn(it.rel, it.recv, it.name)
		if fn == nil {
			if it.rel == "" {
				c.must(it.rel, it.recv, it.name)
			} else {
				c.undecide("unknown-name", it.name+" not found")
			}
			continue
		}
		c.rejects(fn, it.spec)
	}
	c.knownKeys()
	c.extensions()
	c.floor("unknown-name", 18)
	c.floor("unknown-element", 8)
}

func decodedOuter(fl *Flat, pt *PTA, l Loc) bool {
	return l.obj.kind == ObjExtern && isDecoder(l.obj.site.name)
}

// decodedIn restricts to fields of records in the list with the given external key.
func decodedIn(key, list string) func(fl *Flat, l Loc) bool {
	d := decoded(key)
	return func(fl *Flat, l Loc) bool {
		if !d(fl, l) {
			return false
		}
		// ...<List>*[].<Field>
		i := strings.LastIndex(l.path, "*[].")
		if i < 0 {
			return false
		}
		p := l.path[:i]
		if j := strings.LastIndexAny(p, ".!"); j >= 0 {
			p = p[j+1:]
		}
		return decodedKey(l, p) == list
	}
}

func csvReads(fl *Flat, t *Taint) []*Value {
	var out []*Value
	loops := fl.loops()
	fl.each(func(v *Value) {
		if v.op != OpCall || v.name != "(*encoding/csv.Reader).Read" {
			return
		}
		for _, l := range loops {
			if l.blocks[v.blk] {
				out = append(out, v)
				return
			}
		}
	})
	return out
}

func (c *Ctx) rejects(fn *ssa.Function, spec labelSpec) {
	fl := c.flat(fn)
	pt := c.pta(fl)
	t := newTaint(fl, pt)
	if spec.seed != nil {
		t.seed = func(l Loc) bool { return spec.seed(fl, l) }
	}
	if spec.values != nil {
		vs := spec.values(fl)
		if len(vs) == 0 {
			c.undecide("unknown-name", shortFn(fn)+": no source for "+spec.what)
			return
		}
		for _, v := range vs {
			t.add(v, "")
		}
	}
	t.run()
	key := shortFn(fn) + ": " + spec.what
	n := 0
	for range t.vals {
		n++
	}
	if n == 0 {
		c.fail("unknown-name", key, fl.w.pos(fn.Pos()), "the "+spec.what+" is never read, so it cannot be checked", "")
		return
	}
	starts := []*Value{nil}
	if spec.starts != nil {
		starts = spec.starts(fl, t)
		if len(starts) == 0 {
			c.undecide("unknown-name", key+": no start point")
			return
		}
	}
	for _, st := range starts {
		s := c.labelSim(fl, t, spec, func(v *Value) bool { return t.has(v) }, true)
		if st != nil {
			base := s.assume
			s.assume = func(s *Sim, env simEnv, v *Value) (Fact, bool) {
				if v.op == OpExtract && v.args[0] == st && isErrorType(v.typ) && env[st].c != "again" {
					return Fact{kind: fNil}, true
				}
				if v == st {
					// only the first record is assumed to be there
					return Fact{kind: fUnknown, c: "again"}, true
				}
				return base(s, env, v)
			}
		}
		if !s.run(st, nil) {
			c.fail("unknown-name", key, fl.where(s.badExit), "with a "+spec.what+" that matches nothing, "+shortFn(fn)+" ends without an error via "+strings.Join(s.badPath, " > "), fl.chain(s.badExit))
			return
		}
		if s.overflow {
			c.undecide("unknown-name", key+": path limit")
			return
		}
		c.ok("unknown-name", fmt.Sprintf("%s rejected on all paths (%d values, %d steps)", key, n, s.steps))
	}
	if spec.dynamic || spec.keyword {
		c.inexact(fl, pt, spec, key)
	}
	if !spec.each {
		return
	}
	// one element at an arbitrary position of the sequence
	loops := fl.loops()
	inLoop := func(b *Block) bool {
		for _, l := range loops {
			if l.blocks[b] {
				return true
			}
		}
		return false
	}
	tried := 0
	var lastBad string
	var lastExit *Value
	passed := false
	fl.each(func(v *Value) {
		if passed || !inLoop(v.blk) {
			return
		}
		root := false
		switch v.op {
		case OpLoad, OpField:
			root = t.has(v)
		case OpExtract:
			root = t.has(v) && (v.args[0].op == OpNext || v.args[0].op == OpLookup)
		case OpLookup:
			root = t.has(v)
		}
		if !root {
			return
		}
		one := newTaint(fl, pt)
		one.add(v, "")
		one.run()
		if !c.checked(fl, one, t, spec) {
			return
		}
		tried++
		s := c.labelSim(fl, t, spec, func(x *Value) bool { return one.has(x) }, false)
		base := s.assume
		mark := &Value{op: OpConst} // remembered on all ways
		s.assume = func(s *Sim, env simEnv, x *Value) (Fact, bool) {
			if x == v {
				// the next element; the assumed one is gone
				if spec.ids {
					env[mark] = Fact{kind: fUnknown, c: "other"}
				}
				return Fact{kind: fUnknown, c: "other"}, true
			}
			if f, ok := env[v]; ok && f.c == "other" {
				return Fact{}, false
			}
			if env[mark].c == "other" {
				return Fact{}, false
			}
			return base(s, env, x)
		}
		if s.run(v, nil) && !s.overflow {
			passed = true
			c.ok("unknown-element", key+", read at "+fl.where(v))
			return
		}
		if s.badExit != nil {
			lastBad = strings.Join(s.badPath, " > ")
			lastExit = s.badExit
		}
	})
	if !passed && tried > 0 && lastExit != nil {
		c.fail("unknown-element", key, fl.where(lastExit), "a "+spec.what+" at some position that matches nothing does not always lead to an error: "+lastBad, fl.chain(lastExit))
	}
}

// checked: the value takes part in a check.
func (c *Ctx) checked(fl *Flat, one, all *Taint, spec labelSpec) bool {
	found := false
	fl.each(func(v *Value) {
		if found {
			return
		}
		if _, ok := noMatchFact(fl, v, func(x *Value) bool { return one.has(x) }, all, spec); ok {
			found = true
		}
	})
	return found
}

func isID(v *Value) bool {
	v = stripConv(v)
	if v.op == OpLoad {
		v = v.args[0]
	}
	return (v.op == OpField || v.op == OpFieldAddr) && fieldName(v) == "id"
}

func isVeVars(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), "ve", "Variable")
}

func zeroFact(t types.Type) (Fact, bool) {
	if t == nil {
		return Fact{}, false
	}
	if pointerLike(t) {
		return Fact{kind: fNil}, true
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return boolFact(false), true
		case b.Info()&types.IsInteger != 0:
			return intFact(0), true
		}
	}
	return Fact{}, false
}

// noMatchFact: the result of a check of the name under the assumption that it matches nothing.
func noMatchFact(fl *Flat, v *Value, is func(*Value) bool, all *Taint, spec labelSpec) (Fact, bool) {
	self := func(m *Value) bool { return all.container(m) }
	if spec.kind != "" {
		switch v.op {
		case OpExtract:
			if l := v.args[0]; l.op == OpLookup && l.commaOk && v.idx == 1 && is(l.args[1]) && !self(l.args[0]) {
				return boolFact(true), true
			}
		case OpLoad, OpField:
			if isNamed(v.typ, "ve", "NodeType") {
				return Fact{kind: fConst, c: spec.kind}, true
			}
		case OpBin:
			if spec.empty && (v.tok == token.EQL || v.tok == token.NEQ) {
				for i := 0; i < 2; i++ {
					if cs, isc := constStr(v.args[i]); isc && cs == "" && is(v.args[1-i]) {
						return boolFact(v.tok == token.NEQ), true
					}
				}
			}
		}
		return Fact{}, false
	}
	if spec.ids {
		// known in the network, but no variable of the factor
		switch v.op {
		case OpExtract:
			if l := v.args[0]; l.op == OpLookup && l.commaOk && v.idx == 1 && is(l.args[1]) && !self(l.args[0]) {
				return boolFact(true), true
			}
		case OpBin:
			if (v.tok == token.EQL || v.tok == token.NEQ) && isID(v.args[0]) && isID(v.args[1]) {
				return boolFact(v.tok == token.NEQ), true
			}
		case OpCall:
			if len(v.args) > 1 && isVeVars(v.args[0].typ) {
				switch baseName(v.name) {
				case "slices.IndexFunc", "slices.Index":
					return intFact(-1), true
				case "slices.ContainsFunc", "slices.Contains":
					return boolFact(false), true
				}
			}
		}
		return Fact{}, false
	}
	switch v.op {
	case OpLookup:
		if !spec.noMatch && !v.commaOk && is(v.args[1]) && !self(v.args[0]) {
			if _, ok := v.args[0].typ.Underlying().(*types.Map); ok {
				return zeroFact(v.typ)
			}
		}
	case OpExtract:
		if l := v.args[0]; l.op == OpLookup && l.commaOk && !spec.noMatch && is(l.args[1]) && !self(l.args[0]) {
			return zeroFact(v.typ)
		}
		if l := v.args[0]; l.op == OpCall && len(l.args) > 0 {
			switch baseName(l.name) {
			case "slices.BinarySearch", "slices.BinarySearchFunc":
				if v.idx == 1 && (is(l.args[1]) || captures(l.args, is, all)) && !spec.noMatch {
					return boolFact(false), true
				}
			case "strings.Cut":
				if v.idx == 2 && is(l.args[0]) && spec.noMatch {
					return boolFact(false), true
				}
			case "strconv.ParseFloat", "strconv.Atoi", "strconv.ParseInt":
				// a name of the network may look like a number
				if v.idx == 1 && is(l.args[0]) && !spec.noMatch && (!spec.dynamic || spec.number) {
					return Fact{kind: fNonNil, bad: true}, true
				}
			}
		}
	case OpBin:
		if spec.noMatch {
			return Fact{}, false
		}
		if (v.tok == token.EQL || v.tok == token.NEQ) && is(v.args[0]) != is(v.args[1]) && isString(v.args[0].typ) {
			o := v.args[1]
			if is(o) {
				o = v.args[0]
			}
			if all.has(o) {
				return Fact{}, false
			}
			if cs, isc := constStr(o); isc && spec.dynamic && !(spec.empty && cs == "") {
				return Fact{}, false // a name may equal any given text
			}
			return boolFact(v.tok == token.NEQ), true
		}
	case OpBuiltin:
		if spec.noMatch && v.name == "len" {
			if s := stripCT(v.args[0]); s.op == OpCall && len(s.args) > 0 && is(s.args[0]) {
				switch s.name {
				case "strings.Split", "strings.SplitN", "strings.SplitAfter":
					return intFact(1), true
				}
			}
		}
	case OpCall:
		if len(v.args) == 0 {
			return Fact{}, false
		}
		n := baseName(v.name)
		if spec.noMatch {
			switch n {
			case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
				if is(v.args[0]) {
					return boolFact(false), true
				}
			case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex":
				if is(v.args[0]) {
					return intFact(-1), true
				}
			case "strings.Count":
				if is(v.args[0]) {
					return intFact(0), true
				}
			}
			return Fact{}, false
		}
		switch n {
		case "slices.Index":
			if is(v.args[1]) && !self(v.args[0]) {
				return intFact(-1), true
			}
		case "slices.Contains":
			if is(v.args[1]) && !self(v.args[0]) {
				return boolFact(false), true
			}
		case "slices.IndexFunc":
			if captures(v.args, is, all) {
				return intFact(-1), true
			}
		case "slices.ContainsFunc":
			if captures(v.args, is, all) {
				return boolFact(false), true
			}
		case "strings.EqualFold":
			if is(v.args[0]) != is(v.args[1]) {
				return boolFact(false), true
			}
		}
	}
	return Fact{}, false
}

// captures: a closure argument captured the name.
func captures(args []*Value, is func(*Value) bool, t *Taint) bool {
	for _, a := range args {
		f := stripCT(a)
		if f == nil || f.op != OpClosure {
			continue
		}
		for _, b := range f.args {
			if is(b) {
				return true
			}
			if b.op == OpAlloc {
				for _, l := range t.pt.locs(b) {
					if t.marked(l) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *Ctx) labelSim(fl *Flat, t *Taint, spec labelSpec, is func(*Value) bool, nonEmpty bool) *Sim {
	s := &Sim{fl: fl, arith: true, limit: 200000}
	pt := t.pt
	var t2 *Taint
	if spec.also != nil {
		t2 = newTaint(fl, pt)
		t2.seed = func(l Loc) bool { return spec.also(fl, l) }
		t2.run()
	}
	var filled func(v *Value, d int) bool
	memo := map[*Value]bool{}
	filled = func(v *Value, d int) bool {
		if r, ok := memo[v]; ok {
			return r
		}
		memo[v] = false
		r := t.container(v) || (t2 != nil && t2.container(v))
		if !r && spec.outer != nil {
			for _, l := range pt.locs(v) {
				if spec.outer(fl, pt, l) {
					r = true
				}
			}
		}
		if !r && d < 4 {
			switch x := stripCT(v); x.op {
			case OpMakeSlice:
				if l := x.args[0]; l.op == OpBuiltin && l.name == "len" {
					r = filled(l.args[0], d+1)
				}
			case OpPhi:
				// nil comes with an error
				n := 0
				r = true
				for _, a := range x.args {
					if isNilConst(a) {
						continue
					}
					n++
					if !filled(a, d+1) {
						r = false
					}
				}
				r = r && n > 0
			}
		}
		memo[v] = r
		return r
	}
	isLen := func(v *Value) bool {
		return v.op == OpBuiltin && v.name == "len" && filled(v.args[0], 0)
	}
	s.assume = func(s *Sim, env simEnv, v *Value) (Fact, bool) {
		if spec.assume != nil {
			if f, ok := spec.assume(fl, v); ok {
				return f, true
			}
		}
		if f, ok := noMatchFact(fl, v, is, t, spec); ok {
			return f, true
		}
		if !nonEmpty {
			return Fact{}, false
		}
		switch v.op {
		case OpRange:
			if filled(v.args[0], 0) {
				return Fact{kind: fNonNil, c: "fresh"}, true
			}
		case OpNext:
			if r := v.args[0]; env[r].c == "fresh" {
				delete(env, r)
				return Fact{kind: fNonNil, c: "first"}, true
			}
		case OpExtract:
			if v.idx == 0 && v.args[0].op == OpNext && env[v.args[0]].c == "first" {
				return boolFact(true), true
			}
		case OpBin:
			x, y, op := v.args[0], v.args[1], v.tok
			if isLen(x) {
				x, y = y, x
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
			if !isLen(y) {
				break
			}
			f := s.get(env, x)
			cv := factConst(f)
			if cv == nil {
				break
			}
			// len >= 1
			switch {
			case f.c == "0":
				switch op {
				case token.LSS, token.LEQ, token.NEQ:
					return boolFact(true), true
				case token.GTR, token.GEQ, token.EQL:
					return boolFact(op == token.GTR && false), true
				}
			case f.c == "1":
				if op == token.LEQ {
					return boolFact(true), true
				}
				if op == token.GTR {
					return boolFact(false), true
				}
			}
		}
		return Fact{}, false
	}
	s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool {
		switch k {
		case exitPanic, exitProcess:
			return !spec.returns || !strings.Contains(fl.chain(v), "Network.Marginal") && !strings.Contains(fl.chain(v), "Network).Marginal")
		}
		for _, a := range v.args {
			if isErrorType(a.typ) && s.get(env, a).kind == fNonNil {
				return true
			}
		}
		return false
	}
	return s
}

// knownKeys: the YAML decoder is told to reject unknown keys before it decodes.
func (c *Ctx) knownKeys() {
	fn := c.w.fn("", "", "FromYAML")
	if fn == nil {
		return
	}
	fl := c.flat(fn)
	var strict, decs []*Value
	fl.each(func(v *Value) {
		if v.op != OpCall || !strings.Contains(v.name, "gopkg.in/yaml.v3") {
			return
		}
		switch {
		case strings.HasSuffix(v.name, ".KnownFields"):
			strict = append(strict, v)
		case isDecoder(v.name):
			decs = append(decs, v)
		}
	})
	for _, d := range decs {
		ok := false
		for _, s := range strict {
			on, isc := constBool(s.args[1])
			if !isc {
				continue
			}
			if isc && on && stripCT(s.args[0]) == stripCT(d.args[0]) && valDominates(s, d) {
				ok = true
			}
			if isc && !on && stripCT(s.args[0]) == stripCT(d.args[0]) && !valDominates(d, s) {
				ok = false
				break
			}
		}
		if ok {
			c.ok("unknown-key", "FromYAML")
		} else {
			c.fail("unknown-key", "FromYAML", fl.where(d), "unknown keys in the file are ignored by this decoding", fl.chain(d))
		}
	}
	if len(decs) == 0 {
		c.undecide("unknown-key", "no YAML decoding found in FromYAML")
	}
}

// inexact: names of the network are compared as they are, not by parts or altered forms.
func (c *Ctx) inexact(fl *Flat, pt *PTA, spec labelSpec, key string) {
	mk := func(exact bool) *Taint {
		t := newTaint(fl, pt)
		t.exact = exact && spec.dynamic
		t.whole = exact && spec.keyword
		t.parts = !exact
		if spec.seed != nil {
			t.seed = func(l Loc) bool { return spec.seed(fl, l) }
		}
		if spec.values != nil {
			for _, v := range spec.values(fl) {
				t.add(v, "")
			}
		}
		t.run()
		return t
	}
	ex, any := mk(true), mk(false)
	n := 0
	altered := func(v *Value) bool { return any.has(v) && !ex.has(v) }
	bad := func(v *Value, how string) {
		c.fail("exact-match", key, fl.where(v), "the "+spec.what+" is "+how+", so another name than the one given may match", fl.chain(v))
	}
	fl.each(func(v *Value) {
		switch v.op {
		case OpLookup:
			if _, ok := v.args[0].typ.Underlying().(*types.Map); ok && any.has(v.args[1]) {
				n++
				if altered(v.args[1]) {
					bad(v, "altered before it is looked up")
				}
			}
		case OpBin:
			if (v.tok == token.EQL || v.tok == token.NEQ) && isString(v.args[0].typ) {
				for i := 0; i < 2; i++ {
					if _, isc := constStr(v.args[1-i]); !isc && altered(v.args[i]) {
						bad(v, "altered before it is compared")
					}
				}
				if any.has(v.args[0]) || any.has(v.args[1]) {
					n++
				}
			}
		case OpCall:
			switch baseName(v.name) {
			case "slices.Index", "slices.Contains":
				if any.has(v.args[1]) {
					n++
				}
				if altered(v.args[1]) {
					bad(v, "altered before it is searched")
				}
			case "strings.HasPrefix", "strings.HasSuffix", "strings.EqualFold", "strings.Contains", "strings.Index":
				if len(v.args) == 2 && (any.has(v.args[0]) || any.has(v.args[1])) {
					_, c0 := constStr(v.args[0])
					_, c1 := constStr(v.args[1])
					if !c0 && !c1 {
						bad(v, "compared by "+baseName(v.name))
					}
				}
			}
		}
	})
	if n > 0 {
		c.ok("exact-match", fmt.Sprintf("%s (%d comparisons)", key, n))
	}
}

// extensions: only the documented file types are recognised.
func (c *Ctx) extensions() {
	fn := c.w.fn("", "", "FromFile")
	if fn == nil {
		return
	}
	fl := c.flat(fn)
	t := newTaint(fl, c.pta(fl))
	fl.each(func(v *Value) {
		if v.op == OpCall && (v.name == "path/filepath.Ext" || v.name == "path.Ext") {
			t.add(v, "")
		}
	})
	t.run()
	known := map[string]bool{".yml": true, ".yaml": true, ".xml": true, ".bifxml": true, "yml": true, "yaml": true, "xml": true, "bifxml": true}
	fl.each(func(v *Value) {
		if v.op != OpBin || v.tok != token.EQL {
			return
		}
		for i := 0; i < 2; i++ {
			if s, ok := constStr(v.args[i]); ok && t.has(v.args[1-i]) {
				if known[s] {
					c.ok("file-type", s)
				} else if br := v.uses; len(br) == 1 && br[0].op == OpIf && c.leadsToError(fl, br[0].blk.succs[0]) {
					c.ok("file-type", s)
				} else {
					c.fail("file-type", "FromFile: "+strconv.Quote(s), fl.where(v), "a file type that is not documented is accepted", fl.chain(v))
				}
			}
		}
	})
}

// leadsToError: all paths from a block end in a returned error or a panic.
func (c *Ctx) leadsToError(fl *Flat, b *Block) bool {
	s := &Sim{fl: fl, limit: 20000}
	s.assume = func(s *Sim, env simEnv, v *Value) (Fact, bool) { return Fact{}, false }
	s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool {
		if k != exitReturn {
			return true
		}
		for _, a := range v.args {
			if isErrorType(a.typ) && s.get(env, a).kind == fNonNil {
				return true
			}
		}
		return false
	}
	if len(b.instrs) == 0 {
		return false
	}
	// the error just tested is not nil
	var env simEnv
	if len(b.preds) == 1 {
		p := b.preds[0]
		if t := p.instrs[len(p.instrs)-1]; t.op == OpIf && len(p.succs) == 2 && p.succs[0] != p.succs[1] {
			cond, pol := t.args[0], p.succs[0] == b
			for cond.op == OpUn && cond.tok == token.NOT {
				cond, pol = cond.args[0], !pol
			}
			if cond.op == OpBin && len(cond.args) == 2 && (cond.tok == token.NEQ && pol || cond.tok == token.EQL && !pol) {
				for i, x := range cond.args {
					if isErrorType(x.typ) && isNilConst(cond.args[1-i]) {
						env = simEnv{x: Fact{kind: fNonNil}}
					}
				}
			}
		}
	}
	return s.run(b.instrs[0], env) && !s.overflow
}
