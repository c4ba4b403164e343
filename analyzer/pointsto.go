package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Flow-insensitive, field-sensitive, inclusion-based points-to analysis on the flattened IR.
// Because every repository call is inlined per call site, it is fully context-sensitive.

type ObjKind int

const (
	ObjSite   ObjKind = iota // allocated in the analysed code
	ObjRegion                // memory that existed before the entry was called, reachable from a parameter
	ObjGlobal                // memory reachable from a package-level variable
	ObjExtern                // returned by an external call
)

type Obj struct {
	id    int
	kind  ObjKind
	site  *Value
	root  *Value // parameter / global
	path  string // access path from the root
	depth int
	note  string
}

func (o *Obj) String() string {
	switch o.kind {
	case ObjSite, ObjExtern:
		return fmt.Sprintf("%s(v%d)", opNames[o.site.op], o.site.id)
	}
	return o.rootName() + o.path
}

func (o *Obj) rootName() string {
	if o.root == nil {
		return "?"
	}
	if o.kind == ObjGlobal {
		return strings.TrimPrefix(strings.TrimPrefix(o.root.name, modPath), "/")
	}
	return o.root.name
}

type Loc struct {
	obj  *Obj
	path string
}

func (l Loc) String() string { return l.obj.String() + l.path }

type locSet map[Loc]struct{}

type PTA struct {
	fl       *Flat
	objs     []*Obj
	siteObj  map[*Value]*Obj
	regions  map[string]*Obj
	vals     map[*Value]map[string]locSet // value -> subpath -> locations
	contents map[Loc]locSet
	byObj    map[*Obj]map[string]bool // obj -> content paths present
	changed  bool
	typeOf   map[*Obj]types.Type
}

func pointsTo(fl *Flat) *PTA {
	p := &PTA{fl: fl, siteObj: map[*Value]*Obj{}, regions: map[string]*Obj{}, vals: map[*Value]map[string]locSet{}, contents: map[Loc]locSet{}, byObj: map[*Obj]map[string]bool{}, typeOf: map[*Obj]types.Type{}}
	for _, pr := range append(append([]*Value{}, fl.params...), fl.free...) {
		p.seedRegion(pr, pr, "", pr.typ, ObjRegion, 0, "")
	}
	for i := 0; i < 200; i++ {
		p.changed = false
		for _, b := range fl.blocks {
			for _, v := range b.instrs {
				p.step(v)
			}
		}
		if !p.changed {
			break
		}
	}
	return p
}

func pointerLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// ptrLeaves lists the sub-paths of t holding pointers.
func ptrLeaves(t types.Type, prefix string, out map[string]types.Type, depth int) {
	if t == nil || depth > 6 {
		return
	}
	if pointerLike(t) {
		out[prefix] = t
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ptrLeaves(u.Field(i).Type(), prefix+"."+u.Field(i).Name(), out, depth+1)
		}
	case *types.Array:
		ptrLeaves(u.Elem(), prefix+"[]", out, depth+1)
	}
}

func pointee(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	}
	return t
}

func (p *PTA) region(kind ObjKind, root *Value, path string, t types.Type, depth int) *Obj {
	key := fmt.Sprintf("%d|%p|%s", kind, root, path)
	if kind == ObjGlobal {
		key = fmt.Sprintf("%d|%s|%s", kind, root.name, path)
	}
	if o, ok := p.regions[key]; ok {
		return o
	}
	o := &Obj{id: len(p.objs), kind: kind, root: root, path: path, depth: depth}
	p.objs = append(p.objs, o)
	p.regions[key] = o
	p.typeOf[o] = t
	return o
}

func (p *PTA) seedRegion(v, root *Value, path string, t types.Type, kind ObjKind, depth int, sub string) {
	leaves := map[string]types.Type{}
	ptrLeaves(t, "", leaves, 0)
	for lp, lt := range leaves {
		o := p.region(kind, root, path+lp, lt, depth)
		p.add(v, sub+lp, Loc{o, ""})
	}
}

func (p *PTA) add(v *Value, sub string, l Loc) {
	m := p.vals[v]
	if m == nil {
		m = map[string]locSet{}
		p.vals[v] = m
	}
	s := m[sub]
	if s == nil {
		s = locSet{}
		m[sub] = s
	}
	if _, ok := s[l]; !ok {
		s[l] = struct{}{}
		p.changed = true
	}
}

func (p *PTA) addContent(at Loc, l Loc) {
	s := p.contents[at]
	if s == nil {
		s = locSet{}
		p.contents[at] = s
		m := p.byObj[at.obj]
		if m == nil {
			m = map[string]bool{}
			p.byObj[at.obj] = m
		}
		m[at.path] = true
	}
	if _, ok := s[l]; !ok {
		s[l] = struct{}{}
		p.changed = true
	}
}

func (p *PTA) obj(v *Value) *Obj {
	if o, ok := p.siteObj[v]; ok {
		return o
	}
	o := &Obj{id: len(p.objs), kind: ObjSite, site: v}
	p.objs = append(p.objs, o)
	p.siteObj[v] = o
	p.typeOf[o] = v.typ
	return o
}

func (p *PTA) extern(v *Value) *Obj {
	o := p.obj(v)
	o.kind = ObjExtern
	return o
}

func (p *PTA) get(v *Value) map[string]locSet {
	if v == nil {
		return nil
	}
	if v.op == OpGlobal {
		if p.vals[v] == nil {
			o := p.region(ObjGlobal, v, "", v.typ, 0)
			p.add(v, "", Loc{o, ""})
		}
	}
	return p.vals[v]
}

func (p *PTA) locs(v *Value) []Loc {
	var r []Loc
	for l := range p.get(v)[""] {
		r = append(r, l)
	}
	return r
}

func (p *PTA) copyAll(dst, src *Value) {
	for sub, s := range p.get(src) {
		for l := range s {
			p.add(dst, sub, l)
		}
	}
}

// loadFrom copies the contents at l (of type t) into dst at subpath.
func (p *PTA) loadFrom(dst *Value, sub string, l Loc, t types.Type) {
	leaves := map[string]types.Type{}
	ptrLeaves(t, "", leaves, 0)
	for lp, lt := range leaves {
		at := Loc{l.obj, l.path + lp}
		p.materialise(at, lt)
		for x := range p.contents[at] {
			p.add(dst, sub+lp, x)
		}
	}
}

// materialise creates the initial content of pre-existing memory lazily.
func (p *PTA) materialise(at Loc, t types.Type) {
	if at.obj.kind == ObjExtern {
		// memory behind an external result
		if strings.Count(at.path, "*") < 6 {
			p.addContent(at, Loc{at.obj, at.path + "*"})
		}
		return
	}
	if at.obj.kind != ObjRegion && at.obj.kind != ObjGlobal {
		return
	}
	o := at.obj
	var c *Obj
	if o.depth >= 7 {
		c = o
	} else {
		c = p.region(o.kind, o.root, o.path+at.path+"*", t, o.depth+1)
	}
	p.addContent(at, Loc{c, ""})
}

func (p *PTA) storeTo(l Loc, src *Value, t types.Type) {
	for sub, s := range p.get(src) {
		for x := range s {
			p.addContent(Loc{l.obj, l.path + sub}, x)
		}
	}
}

// copyElems copies the contents below from+"[]" to to+"[]".
func (p *PTA) copyElems(to, from Loc, elem types.Type) {
	leaves := map[string]types.Type{}
	ptrLeaves(elem, "", leaves, 0)
	for lp, lt := range leaves {
		at := Loc{from.obj, from.path + "[]" + lp}
		p.materialise(at, lt)
		for x := range p.contents[at] {
			p.addContent(Loc{to.obj, to.path + "[]" + lp}, x)
		}
	}
}

func sliceElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return sliceElem(u.Elem())
	}
	return nil
}

// freshBase reports whether appending to s always copies (no spare capacity in s).
func freshBase(s *Value) bool {
	s = stripCT(s)
	if isNilConst(s) {
		return true
	}
	if s.op == OpSlice {
		if s.args[3] != nil && (s.args[3] == s.args[2] || sameConst(s.args[3], s.args[2])) {
			return true
		}
		if a := s.args[0]; a.op == OpAlloc {
			if at, ok := elemType(a.typ).Underlying().(*types.Array); ok && at.Len() == 0 {
				return true
			}
		}
	}
	if s.op == OpCall && baseName(s.name) == "slices.Clip" {
		return true
	}
	return false
}

func sameConst(a, b *Value) bool {
	if a == nil || b == nil {
		return false
	}
	x, ok := constInt(a)
	y, ok2 := constInt(b)
	return ok && ok2 && x == y
}

func (p *PTA) step(v *Value) {
	switch v.op {
	case OpGlobal:
		p.get(v)
	case OpAlloc, OpMakeSlice, OpMakeMap, OpMakeChan, OpClosure:
		p.add(v, "", Loc{p.obj(v), ""})
		if v.op == OpClosure {
			for i, a := range v.args {
				for sub, s := range p.get(a) {
					for l := range s {
						p.addContent(Loc{p.obj(v), fmt.Sprintf(".bind%d%s", i, sub)}, l)
					}
				}
			}
		}
	case OpFieldAddr:
		f := "." + fieldName(v)
		for _, l := range p.locs(v.args[0]) {
			p.add(v, "", Loc{l.obj, l.path + f})
		}
	case OpIndexAddr:
		for _, l := range p.locs(v.args[0]) {
			p.add(v, "", Loc{l.obj, l.path + "[]"})
		}
	case OpField:
		pre := "." + fieldName(v)
		for sub, s := range p.get(v.args[0]) {
			if strings.HasPrefix(sub, pre) && (len(sub) == len(pre) || sub[len(pre)] == '.' || sub[len(pre)] == '[') {
				for l := range s {
					p.add(v, sub[len(pre):], l)
				}
			}
		}
	case OpIndex:
		for sub, s := range p.get(v.args[0]) {
			if strings.HasPrefix(sub, "[]") {
				for l := range s {
					p.add(v, sub[2:], l)
				}
			}
		}
	case OpStruct:
		switch u := v.typ.Underlying().(type) {
		case *types.Struct:
			for i, a := range v.args {
				for sub, s := range p.get(a) {
					for l := range s {
						p.add(v, "."+u.Field(i).Name()+sub, l)
					}
				}
			}
		default:
			for _, a := range v.args {
				for sub, s := range p.get(a) {
					for l := range s {
						p.add(v, "[]"+sub, l)
					}
				}
			}
		}
	case OpLoad:
		for _, l := range p.locs(v.args[0]) {
			p.loadFrom(v, "", l, v.typ)
		}
	case OpStore:
		for _, l := range p.locs(v.args[0]) {
			p.storeTo(l, v.args[1], v.args[1].typ)
		}
	case OpPhi, OpChangeType, OpTypeAssert, OpConvert:
		if v.op == OpConvert && !pointerLike(v.typ) {
			return
		}
		if v.op == OpConvert {
			// []byte(string), []rune(string): fresh
			p.add(v, "", Loc{p.obj(v), ""})
			return
		}
		for _, a := range v.args {
			if a == nil {
				continue
			}
			if v.op == OpTypeAssert {
				// unwrap interface: pointers pass through; struct values were boxed at ".iface"
				if pointerLike(v.typ) || v.commaOk {
					for l := range p.get(a)[""] {
						if l.path == "" && !v.commaOk {
							if t := p.typeOf[l.obj]; t != nil && !types.IsInterface(t) && !types.IsInterface(v.typ) && !types.Identical(t, v.typ) {
								continue // a different dynamic type
							}
						}
						p.add(v, "", l)
					}
				}
				for sub, s := range p.get(a) {
					if strings.HasPrefix(sub, ".iface") {
						for l := range s {
							p.add(v, sub[6:], l)
						}
					}
				}
				continue
			}
			p.copyAll(v, a)
		}
	case OpMakeIface:
		a := v.args[0]
		if pointerLike(a.typ) {
			p.copyAll(v, a)
		} else {
			for sub, s := range p.get(a) {
				for l := range s {
					p.add(v, ".iface"+sub, l)
				}
			}
		}
	case OpSlice:
		for _, l := range p.locs(v.args[0]) {
			p.add(v, "", l)
		}
	case OpLookup:
		m := v.args[0]
		mt, ok := m.typ.Underlying().(*types.Map)
		if !ok {
			return
		}
		pre := ""
		if v.commaOk {
			pre = "#0"
		}
		for _, l := range p.locs(m) {
			p.loadFrom(v, pre, Loc{l.obj, l.path + "{v}"}, mt.Elem())
		}
	case OpMapUpdate:
		for _, l := range p.locs(v.args[0]) {
			p.storeTo(Loc{l.obj, l.path + "{k}"}, v.args[1], v.args[1].typ)
			p.storeTo(Loc{l.obj, l.path + "{v}"}, v.args[2], v.args[2].typ)
		}
	case OpRange:
		p.copyAll(v, v.args[0])
	case OpNext:
		r := v.args[0]
		if r.op == OpRange {
			if mt, ok := r.args[0].typ.Underlying().(*types.Map); ok {
				for _, l := range p.locs(r) {
					p.loadFrom(v, "#1", Loc{l.obj, l.path + "{k}"}, mt.Key())
					p.loadFrom(v, "#2", Loc{l.obj, l.path + "{v}"}, mt.Elem())
				}
			}
		}
	case OpExtract:
		pre := fmt.Sprintf("#%d", v.idx)
		t := v.args[0]
		for sub, s := range p.get(t) {
			if strings.HasPrefix(sub, pre) {
				for l := range s {
					p.add(v, sub[len(pre):], l)
				}
			}
		}
		if t.op == OpTypeAssert && v.idx == 0 {
			p.copyAll(v, t)
		}
	case OpTuple:
		for i, a := range v.args {
			for sub, s := range p.get(a) {
				for l := range s {
					p.add(v, fmt.Sprintf("#%d%s", i, sub), l)
				}
			}
		}
	case OpRecCall:
		if len(v.args) == 1 {
			p.copyAll(v, v.args[0])
		} else {
			for i, a := range v.args {
				for sub, s := range p.get(a) {
					for l := range s {
						p.add(v, fmt.Sprintf("#%d%s", i, sub), l)
					}
				}
			}
		}
	case OpUnknown:
		switch {
		case v.name == "recparam":
			for _, a := range v.args {
				p.copyAll(v, a)
			}
		case strings.HasPrefix(v.name, "cbarg:"):
			// element of a slice argument
			for _, a := range v.args {
				if a.typ == nil {
					continue
				}
				if e := sliceElem(a.typ); e != nil && types.Identical(e, v.typ) {
					for _, l := range p.locs(a) {
						p.loadFrom(v, "", Loc{l.obj, l.path + "[]"}, v.typ)
					}
				} else if types.Identical(a.typ, v.typ) {
					p.copyAll(v, a)
				}
			}
		default:
			if pointerLike(v.typ) {
				p.add(v, "", Loc{p.extern(v), ""})
			}
		}
	case OpBuiltin:
		switch v.name {
		case "append":
			n := p.obj(v)
			p.add(v, "", Loc{n, ""})
			e := sliceElem(v.typ)
			base := v.args[0]
			fresh := freshBase(base)
			if !fresh {
				for _, l := range p.locs(base) {
					p.add(v, "", l)
				}
			}
			for _, l := range p.locs(base) {
				p.copyElems(Loc{n, ""}, l, e)
			}
			if len(v.args) > 1 {
				for _, l := range p.locs(v.args[1]) {
					p.copyElems(Loc{n, ""}, l, e)
					if !fresh {
						for _, bl := range p.locs(base) {
							p.copyElems(bl, l, e)
						}
					}
				}
			}
		case "copy":
			e := sliceElem(v.args[0].typ)
			for _, d := range p.locs(v.args[0]) {
				for _, s := range p.locs(v.args[1]) {
					p.copyElems(d, s, e)
				}
			}
		}
	case OpCall:
		p.callStep(v)
	}
}

// isDecoder: the call fills its argument with data from outside.
func isDecoder(name string) bool {
	return strings.HasSuffix(name, ".Decode") || strings.HasSuffix(name, ".Unmarshal") || strings.HasSuffix(name, ".DecodeElement") || strings.HasSuffix(name, ".UnmarshalStrict")
}

func (p *PTA) callStep(v *Value) {
	m := modelOf(v.name)
	if isDecoder(v.name) && len(v.args) > 1 {
		a := stripConv(v.args[1])
		if pt, ok := a.typ.Underlying().(*types.Pointer); ok {
			leaves := map[string]types.Type{}
			ptrLeaves(pt.Elem(), "", leaves, 0)
			for _, l := range p.locs(v.args[1]) {
				for lp := range leaves {
					p.addContent(Loc{l.obj, l.path + lp}, Loc{p.extern(v), "!" + lp + "*"})
				}
			}
		}
	}
	var results []types.Type
	tuple := false
	switch t := v.typ.(type) {
	case nil:
	case *types.Tuple:
		tuple = true
		for i := 0; i < t.Len(); i++ {
			results = append(results, t.At(i).Type())
		}
	default:
		results = []types.Type{t}
	}
	for i, rt := range results {
		pre := ""
		if tuple {
			pre = fmt.Sprintf("#%d", i)
		}
		leaves := map[string]types.Type{}
		ptrLeaves(rt, "", leaves, 0)
		for lp, lt := range leaves {
			p.add(v, pre+lp, Loc{p.extern(v), fmt.Sprintf("@%d%s", i, lp)})
			_ = lt
		}
		if m.cloneOf >= 0 && m.cloneOf < len(v.args) && i == 0 {
			if e := sliceElem(rt); e != nil {
				for _, l := range p.locs(v.args[m.cloneOf]) {
					p.copyElems(Loc{p.extern(v), "@0"}, l, e)
				}
			}
		}
		if baseName(v.name) == "slices.Concat" && len(v.args) == 1 && sliceElem(rt) != nil {
			for _, l := range p.locs(v.args[0]) {
				at := Loc{l.obj, l.path + "[]"}
				p.materialise(at, rt)
				for x := range p.contents[at] {
					p.copyElems(Loc{p.extern(v), "@0"}, x, sliceElem(rt))
				}
			}
		}
		if v.name == "(*bytes.Buffer).Bytes" || v.name == "(*bytes.Buffer).Next" || v.name == "(*bytes.Buffer).AvailableBuffer" {
			// a window into the buffer
			for _, l := range p.locs(v.args[0]) {
				if l.obj.kind == ObjRegion || l.obj.kind == ObjGlobal {
					p.add(v, pre, Loc{l.obj, l.path + "~"})
				}
			}
		}
		if m.aliasArgs {
			for _, a := range v.args {
				if a != nil && a.typ != nil && pointerLike(a.typ) && pointerLike(rt) && types.Identical(a.typ.Underlying(), rt.Underlying()) {
					for _, l := range p.locs(a) {
						p.add(v, pre, l)
					}
				}
			}
		}
	}
}

// ---- models of external functions

type extModel struct {
	pure      bool  // does not write memory reachable from its arguments
	writes    []int // arguments whose elements/pointees are written
	aliasArgs bool  // results may alias arguments of the same type
	cloneOf   int   // result is a shallow copy of this argument
	known     bool
}

var purePkgs = map[string]bool{"fmt": true, "strings": true, "strconv": true, "math": true, "math/bits": true, "errors": true, "unicode": true, "unicode/utf8": true, "cmp": true, "path": true, "path/filepath": true, "bytes": true, "os": true, "encoding/csv": true, "io": true, "time": true, "log": true,
	"github.com/rivo/tview": true, "github.com/gdamore/tcell/v2": true, "github.com/spf13/cobra": true, "github.com/spf13/pflag": true, "reflect": false, "runtime": true, "runtime/pprof": true, "sync": true, "context": true, "iter": true, "bufio": true}

func calleePkg(name string) string {
	s := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	i := strings.LastIndex(s, "/")
	j := strings.Index(s[i+1:], ".")
	if j < 0 {
		return ""
	}
	return s[:i+1+j]
}

func modelOf(name string) extModel {
	base := name
	if i := strings.Index(base, "["); i > 0 && !strings.HasPrefix(base, "(") {
		base = base[:i]
	}
	switch base {
	case "slices.Index", "slices.IndexFunc", "slices.Contains", "slices.ContainsFunc", "slices.Equal", "slices.EqualFunc", "slices.Compare", "slices.Max", "slices.MaxFunc", "slices.Min", "slices.MinFunc", "slices.BinarySearch", "slices.BinarySearchFunc", "slices.IsSorted", "slices.IsSortedFunc", "maps.Keys", "maps.Values", "maps.All", "slices.Values", "slices.All", "maps.Equal", "maps.EqualFunc", "sort.SearchInts", "sort.Search", "sort.SearchStrings", "sort.IsSorted", "slices.Backward":
		return extModel{pure: true, cloneOf: -1, known: true}
	case "slices.Sorted", "slices.Collect", "maps.Collect", "slices.SortedFunc", "slices.SortedStableFunc", "slices.Concat", "slices.Repeat":
		return extModel{pure: true, cloneOf: -1, known: true}
	case "slices.Clone", "bytes.Clone", "maps.Clone":
		return extModel{pure: true, cloneOf: 0, known: true}
	case "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse", "sort.Slice", "sort.SliceStable", "sort.Ints", "sort.Strings", "sort.Float64s", "sort.Sort", "sort.Stable", "maps.Copy", "maps.DeleteFunc", "math/rand.Shuffle":
		return extModel{writes: []int{0}, cloneOf: -1, known: true}
	case "slices.Insert", "slices.Delete", "slices.DeleteFunc", "slices.Compact", "slices.CompactFunc", "slices.Replace", "slices.AppendSeq":
		return extModel{writes: []int{0}, aliasArgs: true, cloneOf: -1, known: true}
	case "slices.Clip", "slices.Grow", "slices.Chunk":
		return extModel{pure: true, aliasArgs: true, cloneOf: -1, known: true}
	}
	if strings.HasSuffix(name, ".Decode") || strings.HasSuffix(name, ".Unmarshal") || strings.HasSuffix(name, ".DecodeElement") {
		return extModel{writes: []int{len2(name)}, cloneOf: -1, known: true}
	}
	if strings.HasSuffix(name, ".Encode") || strings.HasSuffix(name, ".Marshal") || strings.HasSuffix(name, ".MarshalIndent") || strings.Contains(name, "yaml.NewDecoder") || strings.Contains(name, "yaml.NewEncoder") || strings.Contains(name, "xml.NewDecoder") || strings.HasSuffix(name, "KnownFields") || strings.HasSuffix(name, "SetIndent") || strings.Contains(name, "yaml.v3") || strings.Contains(name, "encoding/xml") {
		return extModel{pure: true, cloneOf: -1, known: true}
	}
	if name == "(error).Error" || strings.HasSuffix(name, ").Error") {
		return extModel{pure: true, cloneOf: -1, known: true}
	}
	if purePkgs[calleePkg(name)] {
		return extModel{pure: true, cloneOf: -1, known: true}
	}
	return extModel{aliasArgs: true, cloneOf: -1}
}

func len2(name string) int {
	if strings.HasPrefix(name, "(") {
		return 1
	}
	return 1
}

// ---- effects

// Effect is a possible write to memory that existed before the call.
type Effect struct {
	at   *Value
	loc  Loc
	what string
	deep bool // anything reachable may be written
}

// writeLocs returns the locations an instruction may write.
func (p *PTA) writeLocs(v *Value) (locs []Loc, what string, deep bool) {
	switch v.op {
	case OpStore:
		return p.locs(v.args[0]), "assignment", false
	case OpMapUpdate:
		for _, l := range p.locs(v.args[0]) {
			locs = append(locs, Loc{l.obj, l.path + "{v}"})
		}
		return locs, "map update", false
	case OpBuiltin:
		switch v.name {
		case "delete", "clear":
			for _, l := range p.locs(v.args[0]) {
				suffix := "{v}"
				if sliceElem(v.args[0].typ) != nil {
					suffix = "[]"
				}
				locs = append(locs, Loc{l.obj, l.path + suffix})
			}
			return locs, v.name, false
		case "copy":
			for _, l := range p.locs(v.args[0]) {
				locs = append(locs, Loc{l.obj, l.path + "[]"})
			}
			return locs, "copy", false
		case "append":
			if freshBase(v.args[0]) {
				return nil, "", false
			}
			for _, l := range p.locs(v.args[0]) {
				locs = append(locs, Loc{l.obj, l.path + "[]"})
			}
			return locs, "append (may write into spare capacity)", false
		}
	case OpCall:
		m := modelOf(v.name)
		if m.pure {
			return nil, "", false
		}
		if m.known {
			for _, i := range m.writes {
				if i < len(v.args) {
					for _, l := range p.locs(v.args[i]) {
						if sliceElem(v.args[i].typ) != nil {
							locs = append(locs, Loc{l.obj, l.path + "[]"})
						} else {
							locs = append(locs, l)
						}
					}
				}
			}
			return locs, "call of " + v.name, true
		}
		for _, a := range v.args {
			if a == nil {
				continue
			}
			for _, s := range p.get(a) {
				for l := range s {
					locs = append(locs, l)
				}
			}
		}
		return locs, "call of unknown function " + v.name, true
	}
	return nil, "", false
}

func (p *PTA) effects() []Effect {
	var out []Effect
	p.fl.each(func(v *Value) {
		locs, what, deep := p.writeLocs(v)
		for _, l := range locs {
			if l.obj.kind == ObjRegion || l.obj.kind == ObjGlobal {
				out = append(out, Effect{v, l, what, deep})
			}
		}
	})
	sort.Slice(out, func(i, j int) bool {
		if out[i].at.id != out[j].at.id {
			return out[i].at.id < out[j].at.id
		}
		return out[i].loc.String() < out[j].loc.String()
	})
	return out
}

// fullPath is the access path of a location from its root, e.g. ".variables*[].Factor*.Table*[]".
func (l Loc) fullPath() string { return l.obj.path + l.path }

// reach collects all locations' objects reachable from the given locations.
func (p *PTA) reach(start []Loc, skip func(Loc) bool) map[*Obj]bool {
	seen := map[*Obj]bool{}
	seenLoc := map[Loc]bool{}
	work := append([]Loc{}, start...)
	for len(work) > 0 {
		l := work[len(work)-1]
		work = work[:len(work)-1]
		if seenLoc[l] {
			continue
		}
		seenLoc[l] = true
		seen[l.obj] = true
		for path := range p.byObj[l.obj] {
			if !strings.HasPrefix(path, l.path) {
				continue
			}
			at := Loc{l.obj, path}
			if skip != nil && skip(at) {
				continue
			}
			for x := range p.contents[at] {
				work = append(work, x)
			}
		}
	}
	return seen
}

// valueLocs returns all locations held in a value (all sub-paths).
func (p *PTA) valueLocs(v *Value) []Loc {
	var r []Loc
	for _, s := range p.get(v) {
		for l := range s {
			r = append(r, l)
		}
	}
	return r
}

// where formats the source position of v with its call chain.
func (fl *Flat) where(v *Value) string {
	var sb strings.Builder
	fn := "?"
	if v.fr != nil {
		fn = shortFn(v.fr.fn)
	} else if fl.entryFn != nil {
		fn = shortFn(fl.entryFn)
	}
	fmt.Fprintf(&sb, "%s in %s", fl.w.pos(v.pos), fn)
	return sb.String()
}

func (fl *Flat) chain(v *Value) string {
	var parts []string
	for fr := v.fr; fr != nil; fr = fr.parent {
		s := shortFn(fr.fn)
		if fr.site.IsValid() && fr.parent != nil {
			s += " (called at " + fl.w.pos(fr.site) + ")"
		}
		parts = append(parts, s)
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return strings.Join(parts, " -> ")
}
