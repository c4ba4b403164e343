package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- helpers on entry points

// exportedFuncs lists the exported functions and methods of exported or unexported types of a package.
func (w *World) exportedFuncs(rel string) []*ssa.Function {
	var out []*ssa.Function
	p := w.pkg(rel)
	if p == nil {
		return nil
	}
	sc := p.Pkg.Scope()
	for _, n := range sc.Names() {
		switch ob := sc.Lookup(n).(type) {
		case *types.Func:
			if ob.Exported() {
				if f := w.prog.FuncValue(ob); f != nil && f.Blocks != nil && f.TypeParams().Len() == 0 {
					out = append(out, f)
				}
			}
		case *types.TypeName:
			nt, ok := ob.Type().(*types.Named)
			if !ok || types.IsInterface(nt) || nt.TypeParams().Len() > 0 {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				m := nt.Method(i)
				if m.Exported() {
					if f := w.prog.FuncValue(m); f != nil && f.Blocks != nil {
						out = append(out, f)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func recvNamed(f *ssa.Function) *types.Named {
	r := f.Signature.Recv()
	if r == nil {
		return nil
	}
	return namedOf(r.Type())
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func isNamed(t types.Type, rel, name string) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	pp := modPath
	if rel != "" {
		pp += "/" + rel
	}
	return n.Obj().Name() == name && n.Obj().Pkg().Path() == pp
}

// holdsType reports whether t contains (by value, pointer, slice, map) the named type.
func holdsType(t types.Type, pred func(types.Type) bool) bool {
	seen := map[types.Type]bool{}
	var visit func(t types.Type) bool
	visit = func(t types.Type) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return visit(u.Elem())
		case *types.Slice:
			return visit(u.Elem())
		case *types.Array:
			return visit(u.Elem())
		case *types.Map:
			return visit(u.Key()) || visit(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if visit(u.Field(i).Type()) {
					return true
				}
			}
		}
		return false
	}
	return visit(t)
}

// firstField is the first field on an access path ".a*[].b" -> "a"
func firstField(path string) string {
	path = strings.TrimLeft(path, "*[]")
	if !strings.HasPrefix(path, ".") {
		return ""
	}
	path = path[1:]
	if i := strings.IndexAny(path, ".*[{@#"); i >= 0 {
		path = path[:i]
	}
	return path
}

func fieldType(n *types.Named, name string) types.Type {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

func (c *Ctx) entryKey(f *ssa.Function) string { return shortFn(f) }

// reportWrites fails for every effect that forbid() objects to, otherwise discharges one obligation.
func (c *Ctx) noWrites(rule string, fn *ssa.Function, forbid func(e Effect) string) {
	fl := c.flat(fn)
	pt := c.pta(fl)
	bad := false
	for _, e := range pt.effects() {
		if msg := forbid(e); msg != "" {
			bad = true
			if strings.HasPrefix(e.what, "call of unknown function ") {
				c.undecide(rule, c.entryKey(fn)+": "+e.what+" with "+e.loc.String())
				continue
			}
			c.fail(rule, c.entryKey(fn)+" writes "+e.loc.String(), fl.where(e.at), fmt.Sprintf("%s: %s of %s", msg, e.what, e.loc), fl.chain(e.at))
		}
	}
	if !bad {
		c.ok(rule, c.entryKey(fn))
	}
}

func (fl *Flat) returns() []*Value {
	var out []*Value
	fl.each(func(v *Value) {
		if v.op == OpReturn {
			out = append(out, v)
		}
	})
	return out
}

func factorArg(t types.Type) bool {
	return holdsTypeShallow(t, func(t types.Type) bool { return isNamedVal(t, "ve", "Factor") })
}

func isNamedVal(t types.Type, rel, name string) bool {
	n, ok := t.(*types.Named)
	return ok && isNamed(n, rel, name)
}

// holdsTypeShallow: the type itself, a pointer to it, or a slice of either.
func holdsTypeShallow(t types.Type, pred func(types.Type) bool) bool {
	for i := 0; i < 4 && t != nil; i++ {
		if pred(t) {
			return true
		}
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return false
		}
	}
	return false
}

// freshResult demands that no pointer held (deeply) by result i refers to memory that existed before the call.
// allowRoot lists parameter names whose memory may be shared.
func (c *Ctx) freshResult(rule string, fn *ssa.Function, i int, allow func(*Obj) bool) {
	fl := c.flat(fn)
	pt := c.pta(fl)
	bad := false
	for _, r := range fl.returns() {
		if i >= len(r.args) {
			continue
		}
		for o := range pt.reach(pt.valueLocs(r.args[i]), nil) {
			if o.kind != ObjRegion && o.kind != ObjGlobal {
				continue
			}
			if t := pt.typeOf[o]; t != nil {
				// immutable or code pointers do not matter
				if _, ok := t.Underlying().(*types.Signature); ok {
					continue
				}
			}
			if allow != nil && allow(o) {
				continue
			}
			bad = true
			c.fail(rule, fmt.Sprintf("%s result %d shares %s", c.entryKey(fn), i, o), fl.where(r), fmt.Sprintf("result %d may share memory with %s", i, o), "")
		}
	}
	if !bad {
		c.ok(rule, fmt.Sprintf("%s result %d", c.entryKey(fn), i))
	}
}

func init() {
	register("C01", "For every factor operation (exported methods of ve.Variables taking factors, ve.Factor accessors, the factor helpers of Network): in the call-inlined program, the points-to sets of all stores, map updates, appends, copies and modelled external writes contain no memory reachable from an operand and none of the receiver's variable records; the pointers held by the returned factor refer only to memory allocated during the call.", checkC01)
	register("C02", "For every read or solve entry point: the write effects of the call-inlined program touch neither the network definition (name, info, variables, tables, total-utility index), nor arguments; queries additionally never write stored policies.", checkC02)
	register("C03", "For every solve entry point and logic table builder: no object reachable from a returned value existed before the call or is reachable from the network state afterwards (solver scratch excluded); arguments are not retained by the network.", checkC03)
	register("C04", "For every exported function, method, command closure and event handler: the write effects of the call-inlined program touch no memory rooted at a package-level variable; no exported function hands out package-level memory whose type has a method that writes its receiver.", checkC04)
}

func checkC01(c *Ctx) {
	w := c.w
	floor := 0
	check := func(fn *ssa.Function, outParams bool) {
		c.noWrites("operand-write", fn, func(e Effect) string {
			if e.loc.obj.kind == ObjGlobal {
				return "factor operation writes package-level state"
			}
			if len(fn.Params) > 0 && e.loc.obj.root.src == fn.Params[0] && fn.Signature.Recv() != nil {
				rn := recvNamed(fn)
				if rn != nil && rn.Obj().Name() == "Factor" {
					return "factor accessor modifies the factor"
				}
				// the receiver may keep counters and scratch, but not change variables, factors or tables
				if writesModelMemory(c, e) {
					return "factor operation modifies its variables or factors"
				}
				return ""
			}
			if outParams {
				if _, ok := e.loc.obj.root.typ.Underlying().(*types.Slice); ok {
					return ""
				}
			}
			return "factor operation modifies its operand"
		})
	}
	for _, fn := range w.exportedFuncs("ve") {
		rn := recvNamed(fn)
		if rn == nil {
			continue
		}
		switch rn.Obj().Name() {
		case "Variables":
			takes := false
			ps := fn.Signature.Params()
			for i := 0; i < ps.Len(); i++ {
				if factorArg(ps.At(i).Type()) {
					takes = true
				}
			}
			rs := fn.Signature.Results()
			gives := rs.Len() > 0 && factorArg(rs.At(0).Type())
			if !takes && !gives {
				continue
			}
			floor++
			check(fn, false)
			for i := 0; i < rs.Len(); i++ {
				if !factorArg(rs.At(i).Type()) {
					continue
				}
				create := !takes // creation from a caller-supplied table adopts it
				c.freshResult("result-alias", fn, i, func(o *Obj) bool {
					return create && o.kind == ObjRegion && isFloatSlice(o.root.typ)
				})
			}
		case "Factor":
			if fn.Name() == "Set" {
				continue
			}
			floor++
			check(fn, fn.Signature.Results().Len() == 0)
		case "Variable":
			floor++
			check(fn, false)
		}
	}
	for _, n := range []string{"Normalize", "NormalizeUtility", "Marginal", "Rearrange"} {
		fn := c.must("", "Network", n)
		if fn == nil {
			continue
		}
		floor++
		check(fn, false)
		c.freshResult("result-alias", fn, 0, nil)
	}
	c.floor("operand-write", 20)
	c.floor("result-alias", 14)
}

func isFloatSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isFloat(s.Elem())
}

// writesModelMemory: the written location belongs to a variable record, factor or float table (not to a counter or scratch integer).
func writesModelMemory(c *Ctx, e Effect) bool {
	t := typeAtPath(e.loc)
	if t == nil {
		return true
	}
	p := e.loc.fullPath()
	_ = p
	switch {
	case isNamedVal(t, "ve", "Variable"), isNamedVal(t, "ve", "Factor"), isNamedVal(t, "", "Variable"), isNamedVal(t, "", "Factor"):
		return true
	}
	if isFloat(t) {
		return true
	}
	// a field of a variable or factor record
	if o := ownerType(e.loc); o != nil {
		for _, n := range [][2]string{{"ve", "Variable"}, {"ve", "Factor"}, {"", "Variable"}, {"", "Factor"}} {
			if isNamed(o, n[0], n[1]) {
				return true
			}
		}
	}
	if holdsType(t, func(t types.Type) bool {
		return isNamedVal(t, "ve", "Variable") || isNamedVal(t, "ve", "Factor")
	}) {
		return true
	}
	return false
}

// typeAtPath walks the access path of a location from its root and returns the type stored there.
func typeAtPath(l Loc) types.Type {
	t, _ := walkPath(l)
	return t
}

// ownerType is the named struct type whose field the location is.
func ownerType(l Loc) *types.Named {
	_, o := walkPath(l)
	return o
}

// inNetwork: the location belongs to a network, a variable or a factor definition (tables included).
func inNetwork(l Loc) bool {
	hit := false
	walkOwners(l, func(n *types.Named) {
		for _, x := range []string{"Network", "Variable", "Factor"} {
			if isNamed(n, "", x) {
				hit = true
			}
		}
	})
	return hit
}

func walkPath(l Loc) (types.Type, *types.Named) { return walkOwners(l, nil) }

func walkOwners(l Loc, visit func(*types.Named)) (types.Type, *types.Named) {
	if l.obj.root == nil {
		return nil, nil
	}
	t := l.obj.root.typ
	// region objects denote the memory a pointer-like value refers to: path "" = pointee of the root
	path := l.obj.path + l.path
	var owner *types.Named
	deref := func(t types.Type) types.Type {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
		return t
	}
	// leading value sub-path of a struct parameter is part of the path as well
	if _, ok := t.Underlying().(*types.Pointer); ok {
		t = deref(t)
	}
	for path != "" && t != nil {
		switch path[0] {
		case '*':
			t = deref(t)
			path = path[1:]
		case '[':
			if e := sliceElem(t); e != nil {
				t = e
			} else {
				return nil, owner
			}
			owner = nil
			path = path[2:]
		case '{':
			m, ok := t.Underlying().(*types.Map)
			if !ok {
				return nil, owner
			}
			if strings.HasPrefix(path, "{k}") {
				t = m.Key()
			} else {
				t = m.Elem()
			}
			owner = nil
			path = path[3:]
		case '.':
			rest := path[1:]
			i := strings.IndexAny(rest, ".*[{@#")
			name := rest
			if i >= 0 {
				name = rest[:i]
				rest = rest[i:]
			} else {
				rest = ""
			}
			st, ok := deref(t).Underlying().(*types.Struct)
			if !ok {
				return nil, owner
			}
			owner = namedOf(t)
			if visit != nil && owner != nil {
				visit(owner)
			}
			var ft types.Type
			for k := 0; k < st.NumFields(); k++ {
				if st.Field(k).Name() == name {
					ft = st.Field(k).Type()
				}
			}
			t = ft
			path = rest
		default:
			return nil, owner
		}
	}
	return t, owner
}

// netRoot finds the parameter (by position) holding the network.
func netParam(fl *Flat) *Value {
	for _, p := range fl.params {
		if isNamed(p.typ, "", "Network") {
			return p
		}
	}
	return nil
}

// netField returns the top-level Network field a location lies under ("" if not rooted at a network).
func netField(c *Ctx, l Loc) (string, types.Type) {
	if l.obj.kind != ObjRegion || l.obj.root == nil || !isNamed(l.obj.root.typ, "", "Network") {
		return "", nil
	}
	f := firstField(l.fullPath())
	nt := c.w.namedType("", "Network")
	if nt == nil {
		return f, nil
	}
	return f, fieldType(nt, f)
}

func isPolicyField(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isNamed(m.Elem(), "ve", "Factor")
}

// definitionField: part of what the user defined (as opposed to solver state).
func definitionFields(c *Ctx) map[string]bool {
	res := map[string]bool{}
	for _, a := range []string{"Name", "Info", "Variables", "TotalUtilityIndex"} {
		fn := c.w.fn("", "Network", a)
		if fn == nil {
			continue
		}
		fl := c.flat(fn)
		fl.each(func(v *Value) {
			if v.op == OpFieldAddr && v.args[0].op == OpParam {
				res[fieldName(v)] = true
			}
		})
	}
	if nt := c.w.namedType("", "Network"); nt != nil {
		st := nt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			t := st.Field(i).Type()
			if s, ok := t.Underlying().(*types.Slice); ok && (isNamed(s.Elem(), "", "Factor") || isNamed(s.Elem(), "", "Variable")) {
				res[st.Field(i).Name()] = true
			}
		}
	}
	return res
}

func checkC02(c *Ctx) {
	def := definitionFields(c)
	type ent struct {
		rel, recv, name string
		policies        bool // may write policies
		must            bool
	}
	ents := []ent{
		{"", "Network", "SolvePolicies", true, true},
		{"", "Network", "SolveQuery", false, true},
		{"", "Network", "SolveUtility", false, true},
		{"", "Network", "ToEvidence", false, true},
		{"", "Network", "Variables", false, true},
		{"", "Network", "Name", false, true},
		{"", "Network", "Info", false, true},
		{"", "Network", "TotalUtilityIndex", false, true},
		{"", "Network", "Normalize", false, true},
		{"", "Network", "NormalizeUtility", false, true},
		{"", "Network", "Marginal", false, true},
		{"", "Network", "Rearrange", false, true},
		{"", "", "ToYAML", false, true},
		{"", "", "NewTrainer", false, true},
		{"internal/tui", "", "Solve", false, false},
		{"internal/tui", "", "ParseEvidence", false, false},
		{"internal/tui", "", "NewNode", false, false},
	}
	n := 0
	for _, e := range ents {
		fn := c.w.fn(e.rel, e.recv, e.name)
		if fn == nil {
			if e.must {
				c.must(e.rel, e.recv, e.name)
			}
			continue
		}
		n++
		c.noWrites("definition-write", fn, func(ef Effect) string {
			if ef.loc.obj.kind == ObjGlobal {
				return "" // C04
			}
			f, ft := netField(c, ef.loc)
			if f == "" && isNamed(ef.loc.obj.root.typ, "", "Network") {
				return "overwrites the whole network"
			}
			if ft == nil && f == "" {
				return "modifies its argument"
			}
			if def[f] {
				return "modifies the network definition"
			}
			if ft != nil && isPolicyField(ft) && !e.policies {
				return "modifies stored policies"
			}
			return ""
		})
	}
	c.floor("definition-write", 15)
	if len(def) < 3 {
		c.undecide("definition", "could not identify the fields of the network definition")
	}
	_ = n
}

func checkC03(c *Ctx) {
	type ent struct {
		rel, recv, name string
		results         []int
		must            bool
	}
	ents := []ent{
		{"", "Network", "SolvePolicies", []int{0}, true},
		{"", "Network", "SolveQuery", []int{0, 1}, true},
		{"", "Network", "SolveUtility", []int{0}, true},
		{"", "Network", "ToEvidence", []int{0}, true},
		{"", "Network", "Normalize", []int{0}, true},
		{"", "Network", "NormalizeUtility", []int{0}, true},
		{"", "Network", "Marginal", []int{0}, true},
		{"", "Network", "Rearrange", []int{0}, true},
		{"", "", "ToYAML", []int{0}, true},
		{"ve", "VE", "SolveQuery", []int{0}, true},
		{"ve", "VE", "SolveUtility", []int{0}, true},
		{"internal/tui", "", "Solve", []int{0}, false},
		{"internal/tui", "", "ParseEvidence", []int{0}, false},
	}
	for _, e := range ents {
		fn := c.w.fn(e.rel, e.recv, e.name)
		if fn == nil {
			if e.must {
				c.must(e.rel, e.recv, e.name)
			}
			continue
		}
		for _, i := range e.results {
			c.freshResult("result-alias", fn, i, nil)
			c.ownEntries(fn, i)
		}
		// results are not shared with the state the network keeps
		fl := c.flat(fn)
		pt := c.pta(fl)
		if len(e.results) > 1 {
			shared := false
			for _, r := range fl.returns() {
				seen := map[*Obj]int{}
				for _, i := range e.results {
					for o := range pt.reach(pt.valueLocs(r.args[i]), nil) {
						if j, ok := seen[o]; ok && j != i && o.kind != ObjGlobal {
							shared = true
							at, ch := "-", ""
							if o.site != nil {
								at, ch = fl.where(o.site), fl.chain(o.site)
							}
							c.fail("mutual-alias", fmt.Sprintf("%s results %d and %d", c.entryKey(fn), j, i), at, "two results of one call share memory (allocated here)", ch)
						}
						seen[o] = i
					}
				}
			}
			if !shared {
				c.ok("mutual-alias", c.entryKey(fn))
			}
		}
		if net := netParam(fl); net != nil {
			kept := pt.reach([]Loc{{pt.region(ObjRegion, net, "", net.typ, 0), ""}}, func(at Loc) bool {
				_, ft := netField(c, at)
				return ft != nil && (holdsType(ft, func(t types.Type) bool { return isNamedVal(t, "ve", "VE") || isNamedVal(t, "ve", "Variables") }) || scratchField(ft))
			})
			bad := false
			for _, r := range fl.returns() {
				for _, i := range e.results {
					for o := range pt.reach(pt.valueLocs(r.args[i]), nil) {
						if kept[o] && o.kind == ObjSite {
							bad = true
							c.fail("state-alias", fmt.Sprintf("%s result %d kept", c.entryKey(fn), i), fl.where(o.site), fmt.Sprintf("memory returned in result %d is also kept by the network (allocated here)", i), fl.chain(o.site))
						}
					}
				}
			}
			for o := range kept {
				if o.kind == ObjRegion && o.root != net && pointerLike(o.root.typ) && !isNamed(o.root.typ, "", "Network") {
					bad = true
					c.fail("retains-argument", c.entryKey(fn)+" retains "+o.String(), fl.where(fl.entry.instrs[0]), "the network keeps a reference to its argument "+o.String(), "")
				}
			}
			if !bad {
				c.ok("state-alias", c.entryKey(fn))
			}
		}
	}
	for _, fn := range logicMethods(c, "Table") {
		c.freshResult("table-alias", fn, 0, nil)
	}
	// scripts that read files must not be able to change what was read before: constructors from bytes
	for _, n := range []string{"FromYAML", "FromBIFXML"} {
		if fn := c.must("", "", n); fn != nil {
			c.freshResult("result-alias", fn, 0, nil)
		}
	}
	c.floor("result-alias", 14)
	c.floor("table-alias", 8)
	c.floor("state-alias", 6)
}

// floatTable: a list of numbers, or the array behind one.
func floatTable(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return isFloat(a.Elem())
		}
		return false
	}
	return isFloatSlice(t)
}

// ownEntries demands that the entries a loop puts into a returned map do not share one table: a table allocated
// before the loop and stored under a changing key inside it belongs to every entry.
func (c *Ctx) ownEntries(fn *ssa.Function, i int) {
	rs := fn.Signature.Results()
	if i >= rs.Len() {
		return
	}
	if _, ok := rs.At(i).Type().Underlying().(*types.Map); !ok {
		return
	}
	fl := c.flat(fn)
	pt := c.pta(fl)
	loops := fl.loops()
	out := map[*Obj]bool{}
	for _, r := range fl.returns() {
		if i < len(r.args) {
			for _, l := range pt.valueLocs(r.args[i]) {
				out[l.obj] = true
			}
		}
	}
	bad := false
	fl.each(func(v *Value) {
		if v.op != OpMapUpdate {
			return
		}
		mine := false
		for _, l := range pt.valueLocs(v.args[0]) {
			mine = mine || out[l.obj]
		}
		if !mine {
			return
		}
		for _, l := range loops {
			if !l.blocks[v.blk] || v.args[1].blk == nil || !l.blocks[v.args[1].blk] {
				continue
			}
			// the map itself must live longer than one round
			fresh := false
			for _, m := range pt.valueLocs(v.args[0]) {
				fresh = fresh || m.obj.site != nil && l.blocks[m.obj.site.blk]
			}
			if fresh {
				continue
			}
		objs:
			for o := range pt.reach(pt.valueLocs(v.args[2]), nil) {
				if o.kind != ObjSite || o.site == nil || o.site.op != OpMakeSlice && o.site.op != OpAlloc || l.blocks[o.site.blk] || !floatTable(o.site.typ) {
					continue
				}
				for _, k := range loops {
					if k.blocks[o.site.blk] && !k.blocks[v.blk] {
						continue objs
					}
				}
				part := false
				fl.each(func(s *Value) {
					if s.op != OpSlice || !l.blocks[s.blk] {
						return
					}
					for _, a := range s.args[1:] {
						if a != nil && a.op != OpConst {
							for _, sl := range pt.valueLocs(s.args[0]) {
								part = part || sl.obj == o
							}
						}
					}
				})
				if part {
					continue
				}
				bad = true
				c.fail("entry-alias", fmt.Sprintf("%s result %d entries", c.entryKey(fn), i), fl.where(v), "entries of the returned map share one table, allocated at "+fl.where(o.site), fl.chain(v))
			}
		}
	})
	if !bad {
		c.ok("entry-alias", fmt.Sprintf("%s result %d", c.entryKey(fn), i))
	}
}

// scratchField: solver scratch of the network (mapping of names to solver variables).
func scratchField(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	return !isNamed(m.Elem(), "ve", "Factor") && holdsType(m.Elem(), func(t types.Type) bool { return isNamedVal(t, "ve", "Variable") })
}

// logicMethods returns the given method of every implementer of logic.Factor.
func logicMethods(c *Ctx, name string) []*ssa.Function {
	nt := c.w.namedType("logic", "Factor")
	if nt == nil {
		c.fail("anchor", "logic.Factor", "-", "interface not found", "")
		return nil
	}
	iface, ok := nt.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, t := range c.w.named {
		if types.IsInterface(t) {
			continue
		}
		for _, tt := range []types.Type{t, types.NewPointer(t)} {
			if types.Implements(tt, iface) {
				if f := c.w.prog.LookupMethod(tt, t.Obj().Pkg(), name); f != nil && f.Blocks != nil {
					out = append(out, f)
				}
				break
			}
		}
	}
	return out
}

func checkC04(c *Ctx) {
	var entries []*ssa.Function
	for _, rel := range []string{"", "ve", "logic", "internal/tui"} {
		entries = append(entries, c.w.exportedFuncs(rel)...)
	}
	// command closures and event handlers: every address-taken function of the programs
	for _, f := range c.w.taken {
		if f.Synthetic != "" && !strings.HasSuffix(f.Name(), "$bound") {
			continue
		}
		if f.Pkg != nil || f.Parent() != nil || strings.HasSuffix(f.Name(), "$bound") {
			entries = append(entries, f)
		}
	}
	for _, rel := range []string{"cmd/bbn", "cmd/bbni"} {
		if p := c.w.pkg(rel); p != nil {
			if f := p.Func("main"); f != nil {
				entries = append(entries, f)
			}
		}
	}
	mutates := map[*types.Named]string{}
	for _, fn := range entries {
		c.noWrites("global-write", fn, func(e Effect) string {
			if e.loc.obj.kind == ObjGlobal {
				if !strings.Contains(e.loc.obj.root.name, modPath) {
					return "" // library configuration
				}
				return "writes package-level state"
			}
			if fn.Signature.Recv() != nil && e.loc.obj.root.src == fn.Params[0] {
				if n := recvNamed(fn); n != nil {
					mutates[n] = shortFn(fn)
				}
			}
			return ""
		})
	}
	for _, fn := range entries {
		if fn.Signature.Results().Len() == 0 || fn.Object() == nil {
			continue
		}
		fl := c.flat(fn)
		pt := c.pta(fl)
		bad := false
		for _, r := range fl.returns() {
			for i, a := range r.args {
				for _, l := range pt.valueLocs(a) {
					if l.obj.kind != ObjGlobal || !strings.Contains(l.obj.root.name, modPath) {
						continue
					}
					if isErrorType(a.typ) {
						continue
					}
					t := typeAtPath(l)
					if n := namedOf(t); n != nil && mutates[n] != "" {
						bad = true
						c.fail("global-handout", fmt.Sprintf("%s result %d -> %s", c.entryKey(fn), i, l), fl.where(r), fmt.Sprintf("hands out package-level %s, which %s modifies", l, mutates[n]), "")
					} else if n == nil && !isNamed(t, "", "") {
						switch t := t.(type) {
						case nil:
						default:
							if _, ok := t.Underlying().(*types.Basic); ok {
								continue
							}
							if pointerLike(t) {
								bad = true
								c.fail("global-handout", fmt.Sprintf("%s result %d -> %s", c.entryKey(fn), i, l), fl.where(r), fmt.Sprintf("hands out package-level %s", l), "")
							}
						}
					}
				}
			}
		}
		if !bad {
			c.ok("global-handout", c.entryKey(fn))
		}
	}
	// goroutines are not used: solving is sequential, so independence of networks is independence of memory
	for _, fn := range c.w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					c.fail("goroutine", shortFn(fn), c.w.pos(g.Pos()), "starts a goroutine: the sequential effect analysis no longer covers this program", "")
				}
			}
		}
	}
	c.floor("global-write", 60)
}
