package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "Per definition field (name, info, variable name, node type, outcomes, position, colour, parents, table): the external keys the YAML writer fills from the field are the keys the YAML reader fills it from; the data is copied unchanged; no record or field is skipped on some path (unless the field itself is empty); table rows are complete adjacent windows; node type names map back to the same type. The BIFXML reader fills each field from its documented element.", checkC11)
}

// cells enumerates the memory cells of a value of type t stored at locs. The name is built
// from Go field names and, in parallel, from external keys.
type cell struct {
	path  string // Go access path
	key   string // external key path
	field bool   // cell of a record field itself (may hold a slice or pointer)
	locs  []Loc
	sub   string // for struct values: sub-path of the value
	typ   types.Type
}

func extKey(st *types.Struct, i int) (string, bool) {
	tag := st.Tag(i)
	name := st.Field(i).Name()
	for _, k := range []string{"yaml", "xml"} {
		if v, ok := lookupTag(tag, k); ok {
			n, opt, _ := strings.Cut(v, ",")
			if n == "-" {
				return "", false
			}
			if n != "" {
				return strings.ToLower(strings.ReplaceAll(n, ">", "/")), true
			}
			if strings.Contains(opt, "inline") {
				return "", true
			}
		}
	}
	return strings.ToLower(name), true
}

func joinKey(a, b string) string {
	if a == "" || b == "" {
		return a + b
	}
	return a + "/" + b
}

func cellsOf(pt *PTA, t types.Type, locs []Loc, path, key string, depth int, out *[]cell) {
	if t == nil || depth > 9 || len(locs) == 0 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			k, ok := extKey(u, i)
			if !ok {
				k = "-"
			}
			ls := suffix(locs, "."+f.Name())
			*out = append(*out, cell{path + "." + f.Name(), joinKey(key, k), true, ls, "", f.Type()})
			cellsOf(pt, f.Type(), ls, path+"."+f.Name(), joinKey(key, k), depth+1, out)
		}
	case *types.Array:
		cellsOf(pt, u.Elem(), suffix(locs, "[]"), path+"[]", key, depth+1, out)
	case *types.Pointer:
		cellsOf(pt, u.Elem(), contents(pt, locs, t), path+"*", key, depth+1, out)
	case *types.Slice:
		cellsOf(pt, u.Elem(), suffix(contents(pt, locs, t), "[]"), path+"*[]", key, depth+1, out)
	case *types.Basic:
		*out = append(*out, cell{path, key, false, locs, "", t})
	}
}

func contents(pt *PTA, locs []Loc, t types.Type) []Loc {
	set := map[Loc]bool{}
	var out []Loc
	for _, l := range locs {
		pt.materialise(l, t)
		for x := range pt.contents[l] {
			if !set[x] {
				set[x] = true
				out = append(out, x)
			}
		}
	}
	return out
}

// valueCells: cells reachable from a struct (or pointer) value.
func valueCells(pt *PTA, v *Value, out *[]cell) {
	if p, ok := v.typ.Underlying().(*types.Pointer); ok {
		cellsOf(pt, p.Elem(), pt.locs(v), "", "", 0, out)
		return
	}
	var walk func(t types.Type, sub, key string, d int)
	walk = func(t types.Type, sub, key string, d int) {
		if d > 4 {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				k, ok := extKey(u, i)
				if !ok {
					k = "-"
				}
				s := sub + "." + f.Name()
				*out = append(*out, cell{path: s, key: joinKey(key, k), field: true, sub: s, typ: f.Type()})
				walk(f.Type(), s, joinKey(key, k), d+1)
			}
		case *types.Array:
			walk(u.Elem(), sub+"[]", key, d+1)
		case *types.Basic:
			*out = append(*out, cell{path: sub, key: key, sub: sub, typ: t})
		case *types.Pointer:
			cellsOf(pt, u.Elem(), setLocs(pt.get(v)[sub]), sub+"*", key, d+1, out)
		case *types.Slice:
			cellsOf(pt, u.Elem(), suffix(setLocs(pt.get(v)[sub]), "[]"), sub+"*[]", key, d+1, out)
		}
	}
	walk(v.typ, "", "", 0)
}

func setLocs(s locSet) []Loc {
	var out []Loc
	for l := range s {
		out = append(out, l)
	}
	return out
}

// decodedPath gives the external key path of a location filled by a decoder.
func decodedPath(pt *PTA, l Loc, decs []*Value) (string, bool) {
	walk := func(t types.Type, path string) (string, bool) {
		key := ""
		for path != "" && t != nil {
			switch {
			case path[0] == '*':
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				path = path[1:]
			case strings.HasPrefix(path, "[]"):
				t = sliceElem(t)
				path = path[2:]
			case path[0] == '.':
				rest := path[1:]
				name := rest
				if i := strings.IndexAny(rest, ".*[{@#"); i >= 0 {
					name, rest = rest[:i], rest[i:]
				} else {
					rest = ""
				}
				st, ok := t.Underlying().(*types.Struct)
				if !ok {
					return "", false
				}
				t = nil
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == name {
						k, _ := extKey(st, i)
						key = joinKey(key, k)
						t = st.Field(i).Type()
					}
				}
				path = rest
			default:
				return "", false
			}
		}
		if t == nil {
			return "", false
		}
		return key, true
	}
	for _, d := range decs {
		a := stripConv(d.args[1])
		p, ok := a.typ.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		if l.obj.kind == ObjExtern && l.obj.site == d && strings.HasPrefix(l.path, "!") {
			return walk(p.Elem(), l.path[1:])
		}
		for _, al := range pt.locs(d.args[1]) {
			if al.obj == l.obj && strings.HasPrefix(l.path, al.path) {
				return walk(p.Elem(), l.path[len(al.path):])
			}
		}
	}
	return "", false
}

func decodeCalls(fl *Flat) []*Value {
	var decs []*Value
	fl.each(func(v *Value) {
		if v.op == OpCall && isDecoder(v.name) && len(v.args) > 1 {
			decs = append(decs, v)
		}
	})
	return decs
}

// netLeaves: roles of the network's definition cells.
type netNames struct{ name, info, vars, facs string }

func networkNames(c *Ctx) (netNames, bool) {
	var n netNames
	role := func(acc string) string {
		fn := c.w.fn("", "Network", acc)
		if fn == nil {
			return ""
		}
		r := ""
		c.flat(fn).each(func(v *Value) {
			if v.op == OpFieldAddr && v.args[0].op == OpParam {
				r = fieldName(v)
			}
		})
		return r
	}
	n.name, n.info, n.vars = role("Name"), role("Info"), role("Variables")
	if nt := c.w.namedType("", "Network"); nt != nil {
		if st, ok := nt.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if isFactorSlice(st.Field(i).Type()) {
					n.facs = st.Field(i).Name()
				}
			}
		}
	}
	return n, n.name != "" && n.info != "" && n.vars != ""
}

var leafRoles = []string{"name", "info", "variable name", "node type", "outcomes", "position", "color", "parents", "table"}

func (n netNames) role(path string) string {
	switch path {
	case "." + n.name:
		return "name"
	case "." + n.info:
		return "info"
	}
	rest := ""
	if p := "." + n.vars + "*[]."; strings.HasPrefix(path, p) {
		rest = path[len(p):]
		if strings.HasPrefix(rest, "Factor*.") {
			rest = "F." + rest[len("Factor*."):]
		}
	} else if p := "." + n.facs + "*[]."; n.facs != "" && strings.HasPrefix(path, p) {
		rest = "F." + path[len(p):]
	}
	switch strings.TrimSuffix(rest, "*[]") {
	case "Name", "F.For":
		return "variable name"
	case "NodeType":
		return "node type"
	case "Outcomes":
		return "outcomes"
	case "Color":
		return "color"
	case "F.Given":
		return "parents"
	case "F.Table":
		return "table"
	}
	if rest == "Position[]" || rest == "Position" {
		return "position"
	}
	return ""
}

// derived lets data pass through lookups in package-level tables and through choices that compare it.
func derived(t *Taint, v *Value) {
	switch v.op {
	case OpLookup:
		if !t.has(v.args[1]) {
			return
		}
		if v.commaOk {
			t.add(v, "#0")
		} else {
			t.add(v, "")
		}
	case OpPhi:
		if t.has(v) || !chosenBy(t, v) {
			return
		}
		t.add(v, "")
	case OpLoad:
		if a := v.args[0]; a.op == OpIndexAddr && t.has(a.args[1]) {
			t.add(v, "")
		}
	}
}

func chosenBy(t *Taint, phi *Value) bool {
	consts := 0
	for _, a := range phi.args {
		if a.op == OpConst && a.cval != nil {
			consts++
		}
	}
	if consts < 1 || len(phi.args) < 2 {
		return false
	}
	if _, ok := phi.typ.Underlying().(*types.Basic); !ok {
		return false
	}
	for _, p := range phi.blk.preds {
		for _, cd := range edgeConds(phi.blk, p) {
			if condOf(cd, t.has) {
				return true
			}
		}
	}
	return false
}

// edgeConds: branch conditions between the immediate dominator of b and its predecessor p that decide whether the edge is taken.
func edgeConds(b, p *Block) []*Value {
	top := idomOf(b)
	var out []*Value
	seen := map[*Block]bool{}
	var walk func(x *Block)
	walk = func(x *Block) {
		if x == nil || seen[x] || (top != nil && !dominates(top, x)) {
			return
		}
		seen[x] = true
		if n := len(x.instrs); n > 0 && x.instrs[n-1].op == OpIf {
			out = append(out, x.instrs[n-1].args[0])
		}
		if x == top {
			return
		}
		for _, q := range x.preds {
			walk(q)
		}
	}
	walk(p)
	return out
}

// condOf: the condition (through comparisons, negations, len) uses a value with the predicate.
func condOf(v *Value, is func(*Value) bool) bool {
	for d := 0; d < 6 && v != nil; d++ {
		if is(v) {
			return true
		}
		switch v.op {
		case OpUn, OpConvert, OpChangeType:
			v = v.args[0]
		case OpBin:
			return condOf(v.args[0], is) || condOf(v.args[1], is)
		case OpBuiltin:
			if len(v.args) == 0 {
				return false
			}
			v = v.args[0]
		case OpExtract:
			v = v.args[0]
		case OpLookup:
			return condOf(v.args[0], is) || condOf(v.args[1], is)
		case OpCall:
			for _, a := range v.args {
				if is(a) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// exactTaint follows plain copies only.
func exactTaint(fl *Flat, pt *PTA, seed func(l Loc) bool, derive bool) *Taint {
	t := newTaint(fl, pt)
	t.seed = seed
	t.exact = true
	if derive {
		t.derive = true
	}
	t.run()
	return t
}

// altered: data of the source that is changed on the way; returns the changing instructions and a taint of their results.
func altered(fl *Flat, pt *PTA, t *Taint) (*Taint, []*Value) {
	a := newTaint(fl, pt)
	var sites []*Value
	fl.each(func(v *Value) {
		hit := false
		for _, x := range v.args {
			if x != nil && t.has(x) {
				hit = true
			}
		}
		if !hit {
			return
		}
		switch v.op {
		case OpBin:
			switch v.tok {
			case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.SHL, token.SHR, token.XOR:
				if isFloat(v.typ) || isString(v.typ) || isInteger(v.typ) {
					sites = append(sites, v)
					a.add(v, "")
				}
			}
		case OpUn:
			if v.tok == token.SUB {
				sites = append(sites, v)
				a.add(v, "")
			}
		case OpConvert:
			if isFloat(v.args[0].typ) && !types.Identical(v.typ.Underlying(), v.args[0].typ.Underlying()) {
				sites = append(sites, v)
				a.add(v, "")
			}
		case OpCall:
			n := baseName(v.name)
			if strings.HasPrefix(n, "math.") || (strings.HasPrefix(n, "strings.") && isString(v.typ)) {
				sites = append(sites, v)
				a.add(v, "")
			}
		}
	})
	if len(sites) == 0 {
		return nil, nil
	}
	a.exact = true
	a.run()
	return a, sites
}

func (c *Ctx) markedCells(t *Taint, v *Value, cs []cell) map[string]bool {
	out := map[string]bool{}
	for _, x := range cs {
		if x.field {
			if _, ok := x.typ.Underlying().(*types.Basic); !ok {
				continue
			}
		}
		hit := false
		if x.sub != "" && v != nil && t.vals[v][x.sub] {
			hit = true
		}
		for _, l := range x.locs {
			if t.marked(l) {
				hit = true
			}
		}
		if hit {
			out[x.path] = true
		}
	}
	return out
}

func checkC11(c *Ctx) {
	nn, ok := networkNames(c)
	if !ok {
		c.undecide("anchor", "network accessors not found")
		return
	}
	wfn, rfn := c.must("", "", "ToYAML"), c.must("", "", "FromYAML")
	if wfn == nil || rfn == nil {
		return
	}
	writes := c.yamlWriter(wfn, nn)
	reads := c.fileReader(rfn, nn, "YAML")
	if writes == nil || reads == nil {
		return
	}
	allWritten := map[string]bool{}
	for _, ks := range writes {
		for k := range ks {
			allWritten[k] = true
		}
	}
	for _, role := range leafRoles {
		w, r := writes[role], reads[role]
		key := "field " + role
		if fn := c.unmodelled(wfn); len(w) == 0 && fn != "" {
			c.undecide("written", role+": data passes through "+fn)
			continue
		}
		if len(w) == 0 {
			c.fail("written", key, c.w.pos(wfn.Pos())+" in ToYAML", "the writer does not put the field into any key of the output", "")
			continue
		}
		c.ok("written", role+" → "+keyList(w))
		bad := false
		for k := range w {
			if fn := c.unmodelled(rfn); !r[k] && fn != "" {
				bad = true
				c.undecide("agree", role+": data passes through "+fn)
				continue
			}
			if !r[k] {
				bad = true
				c.fail("agree", key, c.w.pos(rfn.Pos())+" in FromYAML", "key '"+k+"' is written from the field, but the reader does not fill the field from it", "")
			}
		}
		for k := range r {
			if !w[k] && allWritten[k] {
				bad = true
				c.fail("agree", key, c.w.pos(rfn.Pos())+" in FromYAML", "the reader fills the field from key '"+k+"', which the writer fills from other data", "")
			}
		}
		if !bad {
			c.ok("agree", role+" ↔ "+keyList(w))
		}
	}
	c.nodeTypeNames(wfn, rfn, nn)
	if xfn := c.must("", "", "FromBIFXML"); xfn != nil {
		xr := c.fileReader(xfn, nn, "BIFXML")
		if xr != nil {
			want := map[string]string{"name": "network/name", "variable name": "network/variable/name", "node type": "network/variable/type", "outcomes": "network/variable/outcome", "parents": "network/definition/given"}
			for _, role := range leafRoles {
				k, ok := want[role]
				if !ok {
					continue
				}
				if fn := c.unmodelled(xfn); !xr[role][k] && fn != "" {
					c.undecide("bif-field", role+": data passes through "+fn)
					continue
				}
				if !xr[role][k] {
					c.fail("bif-field", "field "+role, c.w.pos(xfn.Pos())+" in FromBIFXML", "the field is not filled from element '"+k+"' (but from: "+keyList(xr[role])+")", "")
					continue
				}
				bad := false
				for k2 := range xr[role] {
					for r2, kk := range want {
						if kk == k2 && r2 != role {
							bad = true
							c.fail("bif-field", "field "+role, c.w.pos(xfn.Pos())+" in FromBIFXML", "the field is also filled from element '"+k2+"', which holds the "+r2, "")
						}
					}
				}
				if !bad {
					c.ok("bif-field", role+" ← "+k)
				}
			}
		}
		c.typeNames(xfn, "network/variable/type", nn, "BIFXML")
	}
	c.fileRecords()
	c.floor("written", 9)
	c.floor("agree", 9)
	c.floor("type-name", 6)
}

func keyList(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return "nothing"
	}
	return strings.Join(ks, ", ")
}

func isEncoder(name string) bool {
	return strings.HasSuffix(name, ".Encode") || strings.HasSuffix(name, ".Marshal") || strings.HasSuffix(name, ".MarshalIndent")
}

func encodeArgs(fl *Flat) []*Value {
	var out []*Value
	fl.each(func(v *Value) {
		if v.op == OpCall && isEncoder(v.name) && len(v.args) > 0 {
			out = append(out, stripConv(v.args[len(v.args)-1]))
		}
	})
	return out
}

// yamlWriter: keys of the encoded record filled from each field of the network.
func (c *Ctx) yamlWriter(fn interface{ String() string }, nn netNames) map[string]map[string]bool {
	f := c.w.fn("", "", "ToYAML")
	fl := c.flat(f)
	pt := c.pta(fl)
	net := netParam(fl)
	encs := encodeArgs(fl)
	if net == nil || len(encs) == 0 {
		c.undecide("writer", "ToYAML: no encoder call found")
		return nil
	}
	res := map[string]map[string]bool{}
	for _, enc := range encs {
		var cs []cell
		valueCells(pt, enc, &cs)
		keyOf := map[string]string{}
		for _, x := range cs {
			keyOf[x.path] = x.key
		}
		for _, role := range leafRoles {
			role := role
			seed := func(l Loc) bool {
				return l.obj.kind == ObjRegion && l.obj.root == net && nn.role(l.fullPath()) == role && isBasicLeaf(l)
			}
			t := exactTaint(fl, pt, seed, role == "node type")
			for p := range c.markedCells(t, enc, cs) {
				if strings.Contains(keyOf[p], "-") && !validKey(keyOf[p]) {
					continue
				}
				if res[role] == nil {
					res[role] = map[string]bool{}
				}
				res[role][keyOf[p]] = true
			}
			c.notAltered(fl, pt, t, enc, cs, "ToYAML", role, func(x cell) bool { return res[role][x.key] })
			c.noDrop(fl, pt, t, enc, cs, "ToYAML", role, func(x cell) bool { return res[role][x.key] })
			c.complete(fl, t, "ToYAML", role)
		}
	}
	c.rowWindows(fl, pt, net, nn)
	c.pairOrder(fl, "ToYAML")
	return res
}

func validKey(k string) bool { return !strings.HasPrefix(k, "-") && !strings.Contains(k, "/-") }

func isBasicLeaf(l Loc) bool {
	t := typeAtPath(l)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// fileReader: keys of the decoded record that fill each field of the returned network.
func (c *Ctx) fileReader(fn interface{ String() string }, nn netNames, format string) map[string]map[string]bool {
	f := c.w.fn("", "", "From"+format)
	fl := c.flat(f)
	pt := c.pta(fl)
	decs := decodeCalls(fl)
	if len(decs) == 0 {
		c.undecide("reader", "From"+format+": no decoder call found")
		return nil
	}
	// all keys of the record
	keys := map[string]bool{}
	for _, d := range decs {
		a := stripConv(d.args[1])
		if p, ok := a.typ.Underlying().(*types.Pointer); ok {
			typeKeys(p.Elem(), "", keys, 0)
		}
	}
	var cs []cell
	for _, r := range fl.returns() {
		if len(r.args) > 0 && isNamed(r.args[0].typ, "", "Network") {
			valueCells(pt, r.args[0], &cs)
		}
	}
	if len(cs) == 0 {
		c.undecide("reader", "From"+format+": result not traceable")
		return nil
	}
	c.pairOrder(fl, "From"+format)
	res := map[string]map[string]bool{}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		k := k
		seed := func(l Loc) bool {
			p, ok := decodedPath(pt, l, decs)
			return ok && p == k
		}
		t := exactTaint(fl, pt, seed, false)
		t2 := exactTaint(fl, pt, seed, true)
		hitRoles := map[string]bool{}
		for p := range c.markedCells(t, nil, cs) {
			if r := nn.role(p); r != "" && r != "node type" {
				hitRoles[r] = true
			}
		}
		for p := range c.markedCells(t2, nil, cs) {
			if r := nn.role(p); r == "node type" {
				hitRoles[r] = true
			}
		}
		for r := range hitRoles {
			if res[r] == nil {
				res[r] = map[string]bool{}
			}
			res[r][k] = true
			r := r
			tt := t
			if r == "node type" {
				tt = t2
			}
			is := func(x cell) bool {
				return nn.role(x.path) == r && !(r == "variable name" && strings.Contains(x.path, "For"))
			}
			c.notAltered(fl, pt, tt, nil, cs, "From"+format, r, is)
			c.noDrop(fl, pt, tt, nil, cs, "From"+format, r, is)
			c.complete(fl, tt, "From"+format, r)
		}
	}
	return res
}

func typeKeys(t types.Type, key string, out map[string]bool, d int) {
	if d > 8 || t == nil {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			k, ok := extKey(u, i)
			if ok {
				typeKeys(u.Field(i).Type(), joinKey(key, k), out, d+1)
			}
		}
	case *types.Pointer:
		typeKeys(u.Elem(), key, out, d+1)
	case *types.Slice:
		typeKeys(u.Elem(), key, out, d+1)
	case *types.Array:
		typeKeys(u.Elem(), key, out, d+1)
	case *types.Basic:
		out[key] = true
	}
}

func (c *Ctx) notAltered(fl *Flat, pt *PTA, t *Taint, v *Value, cs []cell, fn, role string, is func(cell) bool) {
	a, sites := altered(fl, pt, t)
	if a == nil {
		return
	}
	m := c.markedCells(a, v, cs)
	for _, x := range cs {
		if m[x.path] && is(x) {
			c.fail("unaltered", fn+" "+role, fl.where(sites[0]), "the data is changed on its way between the network and the file", fl.chain(sites[0]))
			return
		}
	}
}

// source of a stored value: follow struct composition and phis.
type valSource struct {
	v    *Value
	edge *Block // predecessor edge of the phi it comes through
	phi  *Value
}

func sourcesOf(v *Value, sub string, edge *Block, phi *Value, seen map[*Value]bool, out *[]valSource) {
	if v == nil || seen[v] {
		return
	}
	switch v.op {
	case OpPhi:
		seen[v] = true
		for i, a := range v.args {
			if i < len(v.blk.preds) {
				sourcesOf(a, sub, v.blk.preds[i], v, seen, out)
			}
		}
		return
	case OpChangeType, OpMakeIface:
		sourcesOf(v.args[0], sub, edge, phi, seen, out)
		return
	case OpStruct:
		if st, ok := v.typ.Underlying().(*types.Struct); ok && sub != "" {
			for i, a := range v.args {
				pre := "." + st.Field(i).Name()
				if strings.HasPrefix(sub, pre) && (len(sub) == len(pre) || strings.ContainsRune(".[*", rune(sub[len(pre)]))) {
					sourcesOf(a, sub[len(pre):], edge, phi, seen, out)
				}
			}
			return
		}
	}
	if sub == "" || sub == "[]" {
		*out = append(*out, valSource{v, edge, phi})
	}
}

// accumulates: the edge enters the loop whose head holds phi, and a round of
// the loop appends to phi: the value on the edge is only the empty start.
func accumulates(phi *Value, edge *Block) bool {
	if phi == nil || dominates(phi.blk, edge) {
		return false
	}
	for i, p := range phi.blk.preds {
		if i >= len(phi.args) || !dominates(phi.blk, p) {
			continue
		}
		var q func(v *Value, d int) bool
		q = func(v *Value, d int) bool {
			if d > 6 {
				return false
			}
			switch v.op {
			case OpBuiltin:
				if v.name != "append" {
					return false
				}
				return v.args[0] == phi || q(v.args[0], d+1)
			case OpPhi:
				if v == phi {
					return false
				}
				for _, a := range v.args {
					if q(a, d+1) {
						return true
					}
				}
			}
			return false
		}
		if q(phi.args[i], 0) {
			return true
		}
	}
	return false
}

// noDrop: no path leaves the field out unless the field itself says so.
func (c *Ctx) noDrop(fl *Flat, pt *PTA, t *Taint, v *Value, cs []cell, fn, role string, is func(cell) bool) {
	related := func(x *Value) bool { return t.has(x) || t.container(x) || t.nested(x) }
	check := func(val *Value, sub string, at *Value) {
		var src []valSource
		sourcesOf(val, sub, nil, nil, map[*Value]bool{}, &src)
		for _, s := range src {
			if s.v.op != OpConst || s.phi == nil {
				continue
			}
			if t.derive && s.v.cval != nil {
				continue
			}
			if erroringEdge(s.phi, s.edge) {
				continue
			}
			if s.v.cval == nil && accumulates(s.phi, s.edge) {
				continue
			}
			ok := false
			for _, cd := range edgeConds(s.phi.blk, s.edge) {
				if condOf(cd, related) {
					ok = true
				}
			}
			if !ok {
				c.fail("dropped", fn+" "+role, fl.where(at), "on some paths the field is replaced by a constant, decided by other data", fl.chain(at))
			}
		}
	}
	// records
	objs := map[*Obj][]cell{}
	for _, x := range cs {
		if !x.field || !is(x) {
			continue
		}
		if x.sub != "" && v != nil {
			check(v, x.sub, v)
		}
		for _, l := range x.locs {
			objs[l.obj] = append(objs[l.obj], x)
		}
	}
	if len(objs) == 0 {
		return
	}
	// temporaries that are appended
	from := map[*Obj]map[*Obj]bool{}
	for i := 0; i < 3; i++ {
		fl.each(func(v *Value) {
			if v.op == OpBuiltin && v.name == "append" && len(v.args) > 1 {
				for _, l := range pt.locs(v) {
					if xs := objs[l.obj]; len(xs) > 0 {
						for _, a := range pt.locs(v.args[1]) {
							if a.obj != l.obj && from[a.obj] == nil {
								from[a.obj] = map[*Obj]bool{l.obj: true}
								objs[a.obj] = append(objs[a.obj], xs...)
							}
						}
					}
				}
			}
		})
	}
	var events []*Value
	fl.each(func(st *Value) {
		if st.op != OpStore {
			return
		}
		for _, l := range pt.locs(st.args[0]) {
			for _, x := range objs[l.obj] {
				for _, xl := range x.locs {
					p := xl.path
					if xl.obj != l.obj && !from[l.obj][xl.obj] {
						continue
					}
					if strings.HasPrefix(p, l.path) && (len(p) == len(l.path) || strings.ContainsRune(".[", rune(p[len(l.path)]))) {
						check(st.args[1], p[len(l.path):], st)
						if tainted(t, st.args[1], p[len(l.path):]) {
							events = append(events, st)
						}
					}
				}
			}
		}
	})
	// each record is written in every iteration
	loops := fl.loops()
	evBlk := map[*Block]bool{}
	for _, e := range events {
		evBlk[e.blk] = true
	}
	done := map[*Loop]bool{}
	for _, e := range events {
		l := innermost(loops, e.blk)
		if l == nil || done[l] {
			continue
		}
		done[l] = true
		if skip := pathAvoiding(l, evBlk); skip != nil {
			c.fail("skipped", fn+" "+role, fl.where(e), "an iteration over the variables can pass without storing the field (at "+fl.where(lastInstr(skip))+")", fl.chain(e))
		} else {
			c.ok("every-record", fn+" "+role)
		}
	}
}

func tainted(t *Taint, v *Value, sub string) bool {
	if t.vals[v][sub] || t.vals[v][sub+"[]"] {
		return true
	}
	var src []valSource
	sourcesOf(v, sub, nil, nil, map[*Value]bool{}, &src)
	for _, s := range src {
		if t.has(s.v) || t.container(s.v) || t.nested(s.v) || t.vals[s.v]["[]"] {
			return true
		}
	}
	return false
}

func lastInstr(b *Block) *Value {
	for i := len(b.instrs) - 1; i >= 0; i-- {
		if b.instrs[i].pos.IsValid() {
			return b.instrs[i]
		}
	}
	return b.instrs[len(b.instrs)-1]
}

// erroringEdge: the phi merges results of a call, and this edge returns an error.
func erroringEdge(phi *Value, edge *Block) bool {
	for _, x := range phi.blk.instrs {
		if x.op != OpPhi {
			break
		}
		if isErrorType(x.typ) || isBoolOK(x.typ) && false {
			for i, p := range phi.blk.preds {
				if p == edge && i < len(x.args) && !isNilConst(x.args[i]) {
					return true
				}
			}
		}
	}
	return false
}

func isBoolOK(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func innermost(loops []*Loop, b *Block) *Loop {
	var best *Loop
	for _, l := range loops {
		if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
			best = l
		}
	}
	return best
}

// pathAvoiding: a path through one iteration (header to latch) that meets none of the blocks.
// The returned block is the last one before the header.
func pathAvoiding(l *Loop, avoid map[*Block]bool) *Block {
	if avoid[l.head] {
		return nil
	}
	seen := map[*Block]bool{l.head: true}
	work := []*Block{l.head}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, s := range b.succs {
			if s == l.head {
				return b
			}
			if !l.blocks[s] || avoid[s] || seen[s] {
				continue
			}
			seen[s] = true
			work = append(work, s)
		}
	}
	return nil
}

// nodeTypeNames: writing and reading a node type gives the same type again.
func (c *Ctx) nodeTypeNames(wfn, rfn interface{ String() string }, nn netNames) {
	c.typeNames(c.w.fn("", "", "FromYAML"), "variables/type", nn, "YAML")
	types_ := c.nodeTypes()
	fl := c.flat(c.w.fn("", "", "ToYAML"))
	pt := c.pta(fl)
	net := netParam(fl)
	encs := encodeArgs(fl)
	if net == nil || len(encs) == 0 {
		return
	}
	var cs []cell
	valueCells(pt, encs[0], &cs)
	t := exactTaint(fl, pt, func(l Loc) bool {
		return l.obj.kind == ObjRegion && l.obj.root == net && nn.role(l.fullPath()) == "node type" && isBasicLeaf(l)
	}, false)
	t2 := exactTaint(fl, pt, t.seed, true)
	marked := c.markedCells(t2, encs[0], cs)
	for _, nt := range sortedKeysOf(types_) {
		val := types_[nt]
		got := c.constAt(fl, pt, t.has, val, cs, func(x cell) bool { return marked[x.path] && isString(x.typ) })
		if len(got) == 0 {
			c.undecide("type-roundtrip", "text written for "+nt+" not determined")
			continue
		}
		for s := range got {
			back := c.readType(c.w.fn("", "", "FromYAML"), "variables/type", s, nn)
			if len(back) == 0 {
				c.fail("type-roundtrip", "node type "+nt, c.w.pos(c.w.fn("", "", "FromYAML").Pos()), "the text "+s+" written for the type is not accepted by the reader", "")
				continue
			}
			for b := range back {
				if b != val {
					c.fail("type-roundtrip", "node type "+nt, c.w.pos(c.w.fn("", "", "ToYAML").Pos()), "the text "+s+" written for the type is read as a different type ("+b+")", "")
				} else {
					c.ok("type-roundtrip", nt+" ↔ "+s)
				}
			}
		}
	}
}

func sortedKeysOf(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// nodeTypes: declared node type constants.
func (c *Ctx) nodeTypes() map[string]string {
	out := map[string]string{}
	p := c.w.pkg("ve")
	if p == nil {
		return out
	}
	for _, n := range p.Pkg.Scope().Names() {
		if k, ok := p.Pkg.Scope().Lookup(n).(*types.Const); ok && isNamedVal(k.Type(), "ve", "NodeType") {
			out[n] = k.Val().ExactString()
		}
	}
	return out
}

// typeNames: the documented type names denote the documented types.
func (c *Ctx) typeNames(fn interface{ String() string }, key string, nn netNames, format string) {
	f := c.w.fn("", "", "From"+format)
	ts := c.nodeTypes()
	want := []struct{ text, name string }{{"nature", "ChanceNode"}, {"decision", "DecisionNode"}, {"utility", "UtilityNode"}}
	if format == "YAML" {
		want = append(want, struct{ text, name string }{"", "ChanceNode"})
	}
	for _, w := range want {
		val, ok := ts[w.name]
		if !ok {
			c.undecide("type-name", w.name+" not declared")
			continue
		}
		got := c.readType(f, key, fmt.Sprintf("%q", w.text), nn)
		if len(got) == 0 {
			c.undecide("type-name", format+" type '"+w.text+"' not determined")
			continue
		}
		for g := range got {
			if g != val {
				c.fail("type-name", format+" type "+w.text, c.w.pos(f.Pos()), "type text '"+w.text+"' is read as node type "+g+" instead of "+w.name, "")
			} else {
				c.ok("type-name", format+" '"+w.text+"' → "+w.name)
			}
		}
	}
}

func (c *Ctx) readType(fn interface{ String() string }, key, text string, nn netNames) map[string]bool {
	f := c.w.fn("", "", strings.TrimPrefix(fn.String(), modPath+"."))
	fl := c.flat(f)
	pt := c.pta(fl)
	decs := decodeCalls(fl)
	t := exactTaint(fl, pt, func(l Loc) bool {
		p, ok := decodedPath(pt, l, decs)
		return ok && p == key
	}, false)
	var cs []cell
	for _, r := range fl.returns() {
		if len(r.args) > 0 && isNamed(r.args[0].typ, "", "Network") {
			valueCells(pt, r.args[0], &cs)
		}
	}
	return c.constAt(fl, pt, t.has, text, cs, func(x cell) bool { return nn.role(x.path) == "node type" })
}

// constAt: with the source values assumed to be the given constant, the constants stored in the cells.
// Unknown stored values give an empty result.
func (c *Ctx) constAt(fl *Flat, pt *PTA, is func(*Value) bool, val string, cs []cell, want func(cell) bool) map[string]bool {
	got := map[string]bool{}
	unknown := false
	locs := map[Loc]bool{}
	for _, x := range cs {
		if want(x) {
			for _, l := range x.locs {
				locs[l] = true
			}
		}
	}
	s := &Sim{fl: fl, limit: 100000}
	s.assume = func(s *Sim, env simEnv, v *Value) (Fact, bool) {
		switch v.op {
		case OpLoad, OpField, OpExtract, OpPhi, OpIndex:
			if is(v) {
				return Fact{kind: fConst, c: val}, true
			}
		case OpLookup:
			m := c.constMap(v.args[0], pt)
			if m == nil {
				break
			}
			k := s.get(env, v.args[1])
			if k.kind != fConst {
				break
			}
			r, ok := m[k.c]
			if !v.commaOk {
				if !ok {
					z, zok := zeroFact(v.typ)
					return z, zok
				}
				return Fact{kind: fConst, c: r}, true
			}
			// tuple: remember both parts
			if ok {
				return Fact{kind: fNonNil, c: "ok:" + r}, true
			}
			return Fact{kind: fNonNil, c: "missing"}, true
		}
		if v.op == OpExtract && v.args[0].op == OpLookup {
			tf := env[v.args[0]]
			if strings.HasPrefix(tf.c, "ok:") {
				if v.idx == 0 {
					return Fact{kind: fConst, c: tf.c[3:]}, true
				}
				return boolFact(true), true
			}
			if tf.c == "missing" && v.idx == 1 {
				return boolFact(false), true
			}
		}
		return Fact{}, false
	}
	s.visit = func(s *Sim, env simEnv, v *Value) bool {
		if v.op != OpStore {
			return false
		}
		for _, l := range pt.locs(v.args[0]) {
			for w := range locs {
				if w.obj == l.obj && strings.HasPrefix(w.path, l.path) {
					sub := w.path[len(l.path):]
					f := s.factAt(env, v.args[1], sub)
					if f.kind == fConst {
						got[f.c] = true
					} else {
						unknown = true
					}
				}
			}
		}
		return false
	}
	s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool { return true }
	s.run(nil, nil)
	if s.overflow || unknown && len(got) == 0 {
		return nil
	}
	return got
}

// factAt: fact of a component of a struct value.
func (s *Sim) factAt(env simEnv, v *Value, sub string) Fact {
	for {
		if sub == "" {
			return s.get(env, v)
		}
		switch v.op {
		case OpChangeType:
			v = v.args[0]
		case OpStruct:
			st, ok := v.typ.Underlying().(*types.Struct)
			if !ok {
				return Fact{}
			}
			hit := false
			for i, a := range v.args {
				pre := "." + st.Field(i).Name()
				if strings.HasPrefix(sub, pre) && (len(sub) == len(pre) || strings.ContainsRune(".[*", rune(sub[len(pre)]))) {
					v, sub, hit = a, sub[len(pre):], true
					break
				}
			}
			if !hit {
				return Fact{}
			}
		default:
			return Fact{}
		}
	}
}

// constMap: contents of a package-level map that is filled with constants in the package initializer and never changed.
func (c *Ctx) constMap(m *Value, pt *PTA) map[string]string {
	m = stripCT(m)
	if m.op != OpLoad || m.args[0].op != OpGlobal {
		return nil
	}
	g := m.args[0].glob
	if g == nil {
		return nil
	}
	if c.cmaps == nil {
		c.cmaps = map[string]map[string]string{}
	}
	if r, ok := c.cmaps[g.String()]; ok {
		return r
	}
	c.cmaps[g.String()] = nil
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	fl := c.initFlat(init)
	var mk *Value
	n := 0
	fl.each(func(v *Value) {
		if v.op == OpStore && v.args[0].op == OpGlobal && v.args[0].glob == g {
			mk = stripCT(v.args[1])
			n++
		}
	})
	if n != 1 || mk.op != OpMakeMap {
		return nil
	}
	res := map[string]string{}
	good := true
	fl.each(func(v *Value) {
		if v.op == OpMapUpdate && stripCT(v.args[0]) == mk {
			k, x := stripCT(v.args[1]), stripCT(v.args[2])
			if k.op != OpConst || x.op != OpConst || k.cval == nil || x.cval == nil {
				good = false
				return
			}
			res[k.cval.ExactString()] = x.cval.ExactString()
		}
	})
	if !good {
		return nil
	}
	c.cmaps[g.String()] = res
	return res
}

// rowWindows: the flat table is cut into complete adjacent rows, one per row index.
func (c *Ctx) rowWindows(fl *Flat, pt *PTA, net *Value, nn netNames) {
	role := func(want string) *Taint {
		return exactTaint(fl, pt, func(l Loc) bool {
			return l.obj.kind == ObjRegion && l.obj.root == net && nn.role(l.fullPath()) == want && isBasicLeaf(l)
		}, false)
	}
	tab, outc := role("table"), role("outcomes")
	atom := func(v *Value) string {
		if v.op == OpBuiltin && v.name == "len" && outc.container(v.args[0]) {
			return "columns"
		}
		if v.op == OpLoad && isColumnsField(v.args[0]) || v.op == OpField && columnsField(v.args[0].typ) == fieldName(v) && fieldName(v) != "" {
			return "columns"
		}
		return valAtom(v)
	}
	fl.each(func(v *Value) {
		if v.op != OpSlice || !isFloatSlice(v.typ) || !tab.container(v.args[0]) {
			return
		}
		if len(v.args) < 3 || v.args[1] == nil && v.args[2] == nil {
			return
		}
		low, high := polyConst(0), Poly(nil)
		if v.args[1] != nil {
			low = polyOf(v.args[1], atom, 0)
		}
		if v.args[2] != nil {
			high = polyOf(v.args[2], atom, 0)
		}
		where := fl.where(v)
		if high == nil {
			return
		}
		w := high.add(low, -1)
		if !w.equal(polyAtom("columns")) {
			if w.equal(Poly{}) {
				return // empty prefix for appending
			}
			c.fail("row-window", "ToYAML table rows", where, "a row of the written table covers "+w.String()+" values of the flat table instead of one value per outcome", fl.chain(v))
			return
		}
		// stored at row index i: low == i*columns
		for _, u := range v.uses {
			if u.op != OpStore || u.args[1] != v || u.args[0].op != OpIndexAddr {
				continue
			}
			idx := polyOf(u.args[0].args[1], atom, 0)
			if _, ok := constInt(u.args[0].args[1]); ok {
				continue // temporary of an append
			}
			want := idx.mul(polyAtom("columns"))
			if low.equal(want) {
				c.ok("row-window", "row i is columns*i .. columns*(i+1)")
			} else if onlyAtoms(low, append(atomsOf(idx), "columns")) {
				c.fail("row-window", "ToYAML table rows", where, "row i of the written table starts at "+low.String()+" of the flat table instead of "+want.String(), fl.chain(v))
			}
		}
	})
}

func atomsOf(p Poly) []string {
	set := map[string]bool{}
	for k := range p {
		for _, a := range strings.Split(k, "·") {
			if a != "" {
				set[a] = true
			}
		}
	}
	var out []string
	for a := range set {
		out = append(out, a)
	}
	sort.Strings(out)
	return out
}

func onlyAtoms(p Poly, allowed []string) bool {
	for _, a := range atomsOf(p) {
		ok := a == ""
		for _, b := range allowed {
			if a == b {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// columnsField: the int field of a factor definition that holds the number of columns.
func columnsField(t types.Type) string {
	n := namedOf(t)
	if n == nil || !isNamed(n, "", "Factor") {
		return ""
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	r := ""
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if r != "" {
				return ""
			}
			r = st.Field(i).Name()
		}
	}
	return r
}

func isColumnsField(a *Value) bool {
	return a.op == OpFieldAddr && columnsField(a.args[0].typ) == fieldName(a) && fieldName(a) != ""
}

// complete: lists of the field are handled from their first to their last element.
func (c *Ctx) complete(fl *Flat, t *Taint, fn, role string) {
	has := func(v *Value) bool { return t.container(v) || t.nested(v) }
	lenOf := func(v *Value) string {
		if v.op == OpBuiltin && v.name == "len" && has(v.args[0]) {
			return "len"
		}
		return valAtom(v)
	}
	short := func(v *Value) string {
		p := polyOf(v, lenOf, 0)
		if d := p.add(polyAtom("len"), -1); len(d) == 1 && d[""] < 0 {
			return p.String()
		}
		return ""
	}
	fl.each(func(v *Value) {
		if v.op != OpSlice || len(v.args) < 3 || !has(v.args[0]) {
			return
		}
		if v.args[1] != nil {
			if k, ok := constInt(v.args[1]); ok && k > 0 {
				c.fail("complete", fn+" "+role, fl.where(v), fmt.Sprintf("the first %d elements of the list are left out", k), fl.chain(v))
			}
		}
		if v.args[2] != nil {
			if s := short(v.args[2]); s != "" {
				c.fail("complete", fn+" "+role, fl.where(v), "the list is cut to "+s+" elements", fl.chain(v))
			}
		}
	})
	for _, l := range fl.loops() {
		for _, iv := range inductions(l) {
			use := false
			for _, u := range iv.cur.uses {
				if (u.op == OpIndexAddr || u.op == OpIndex) && l.blocks[u.blk] && u.args[1] == iv.cur && has(u.args[0]) {
					use = true
				}
			}
			if !use || iv.step != 1 {
				continue
			}
			if f := iv.first(valAtom); len(f) == 1 && f[""] > 0 {
				c.fail("complete", fn+" "+role, fl.where(iv.phi), "the iteration starts at element "+f.String()+" of the list", fl.chain(iv.phi))
			}
			if e := iv.end(lenOf); e != nil {
				if d := e.add(polyAtom("len"), -1); len(d) == 1 && d[""] < 0 {
					c.fail("complete", fn+" "+role, fl.where(iv.phi), "the iteration ends before the last element of the list ("+e.String()+")", fl.chain(iv.phi))
				}
			}
		}
	}
}

// pairOrder: coordinates keep their place in a pair.
func (c *Ctx) pairOrder(fl *Flat, fn string) {
	isPair := func(t types.Type) bool {
		if t == nil {
			return false
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		a, ok := t.Underlying().(*types.Array)
		return ok && a.Len() == 2 && isInteger(a.Elem())
	}
	var back func(v *Value, d int, seen map[*Value]bool, out map[int64]*Value)
	back = func(v *Value, d int, seen map[*Value]bool, out map[int64]*Value) {
		if v == nil || d > 12 || seen[v] {
			return
		}
		seen[v] = true
		switch v.op {
		case OpPhi, OpConvert, OpChangeType, OpExtract, OpBin, OpUn, OpCall, OpSlice:
			for _, a := range v.args {
				back(a, d+1, seen, out)
			}
		case OpLoad:
			if a := v.args[0]; a.op == OpIndexAddr {
				if k, ok := constInt(a.args[1]); ok {
					out[k] = v
				}
			}
		case OpIndex:
			if k, ok := constInt(v.args[1]); ok {
				out[k] = v
			}
		}
	}
	n := 0
	one := func(i int64, v, at *Value) {
		m := map[int64]*Value{}
		back(v, 0, map[*Value]bool{}, m)
		bad := false
		for k := range m {
			if k != i {
				bad = true
			}
		}
		if len(m) == 1 && bad {
			c.fail("pair-order", fn+" position", fl.where(at), fmt.Sprintf("coordinate %d of the position is taken from element %s", i, m[firstKey(m)].short()), fl.chain(at))
		} else if len(m) > 0 {
			n++
		}
	}
	fl.each(func(v *Value) {
		switch v.op {
		case OpStruct:
			if isPair(v.typ) {
				for i, a := range v.args {
					one(int64(i), a, v)
				}
			}
		case OpStore:
			if a := v.args[0]; a.op == OpIndexAddr && isPair(a.args[0].typ) {
				if k, ok := constInt(a.args[1]); ok {
					one(k, v.args[1], v)
				}
			}
		}
	})
	if n > 0 {
		c.ok("pair-order", fn)
	}
}

func firstKey(m map[int64]*Value) int64 {
	for k := range m {
		return k
	}
	return 0
}

// unmodelled: a library function that may hand data on in a way that is not followed.
func (c *Ctx) unmodelled(fn *ssa.Function) string {
	fl := c.flat(fn)
	out := ""
	fl.each(func(v *Value) {
		if v.op != OpCall || isEncoder(v.name) || isDecoder(v.name) {
			return
		}
		switch n := baseName(v.name); calleePkg(v.name) {
		case "slices", "maps", "iter", "sort", "reflect", "sync", "":
			switch n {
			case "slices.Clone", "slices.Compact", "slices.Clip", "slices.Insert", "slices.Delete", "slices.Concat", "slices.Index", "slices.IndexFunc", "slices.Contains", "slices.ContainsFunc", "slices.Equal", "maps.Clone", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "sort.Strings", "sort.Ints", "sort.Slice":
			default:
				out = v.name
			}
		}
	})
	return out
}
