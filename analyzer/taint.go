package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// Taint: which values and memory cells hold data of one source. Values of struct type carry
// sub-paths; memory is tracked per points-to location.
type Taint struct {
	fl     *Flat
	pt     *PTA
	vals   map[*Value]map[string]bool
	mem    map[*Obj]map[string]bool
	seed   func(l Loc) bool // memory that holds the source from the start
	call   func(t *Taint, v *Value)
	dirty  bool
	exact  bool // plain copies only
	derive bool // through lookups and choices as well
	runes  bool // characters of a text as well
	whole  bool // not through functions that cut a text
	parts  bool // parts and concatenations of a text as well
}

func newTaint(fl *Flat, pt *PTA) *Taint {
	return &Taint{fl: fl, pt: pt, vals: map[*Value]map[string]bool{}, mem: map[*Obj]map[string]bool{}}
}

func (t *Taint) add(v *Value, sub string) {
	m := t.vals[v]
	if m == nil {
		m = map[string]bool{}
		t.vals[v] = m
	}
	if !m[sub] {
		m[sub] = true
		t.dirty = true
	}
}

func (t *Taint) mark(l Loc) {
	m := t.mem[l.obj]
	if m == nil {
		m = map[string]bool{}
		t.mem[l.obj] = m
	}
	if !m[l.path] {
		m[l.path] = true
		t.dirty = true
	}
}

func (t *Taint) has(v *Value) bool { return v != nil && t.vals[v][""] }

func (t *Taint) marked(l Loc) bool { return t.mem[l.obj][l.path] || (t.seed != nil && t.seed(l)) }

// leaves lists the non-pointer sub-paths of a type.
func scalarLeaves(ty types.Type, prefix string, out *[]string, depth int) {
	if ty == nil || depth > 5 {
		return
	}
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			scalarLeaves(u.Field(i).Type(), prefix+"."+u.Field(i).Name(), out, depth+1)
		}
	case *types.Array:
		scalarLeaves(u.Elem(), prefix+"[]", out, depth+1)
	case *types.Basic, *types.Interface:
		*out = append(*out, prefix)
	}
}

func (t *Taint) load(v *Value, pre string, ls []Loc, ty types.Type) {
	var leaves []string
	scalarLeaves(ty, "", &leaves, 0)
	for _, l := range ls {
		for _, s := range leaves {
			if t.marked(Loc{l.obj, l.path + s}) {
				t.add(v, pre+s)
			}
		}
	}
}

func (t *Taint) store(ls []Loc, v *Value) {
	for s := range t.vals[v] {
		for _, l := range ls {
			t.mark(Loc{l.obj, l.path + s})
		}
	}
}

func (t *Taint) copyElems(dst, src []Loc, elem types.Type) {
	for _, s := range src {
		pre := s.path + "[]"
		for p := range t.mem[s.obj] {
			if strings.HasPrefix(p, pre) {
				for _, d := range dst {
					t.mark(Loc{d.obj, d.path + "[]" + p[len(pre):]})
				}
			}
		}
		if t.seed != nil && elem != nil {
			var leaves []string
			scalarLeaves(elem, "", &leaves, 0)
			for _, lf := range leaves {
				if t.seed(Loc{s.obj, pre + lf}) {
					for _, d := range dst {
						t.mark(Loc{d.obj, d.path + "[]" + lf})
					}
				}
			}
		}
	}
}

func suffix(ls []Loc, s string) []Loc {
	out := make([]Loc, len(ls))
	for i, l := range ls {
		out[i] = Loc{l.obj, l.path + s}
	}
	return out
}

func (t *Taint) run() {
	for i := 0; i < 100; i++ {
		t.dirty = false
		t.fl.each(t.step)
		if !t.dirty {
			return
		}
	}
}

func (t *Taint) step(v *Value) {
	if t.derive {
		derived(t, v)
	}
	switch v.op {
	case OpPhi, OpChangeType, OpConvert, OpMakeIface, OpRecCall:
		if v.op == OpConvert && !(isString(v.typ) && isString(v.args[0].typ)) {
			// numeric conversions keep the taint
			if _, ok := v.typ.Underlying().(*types.Basic); !ok {
				if t.runes && t.has(v.args[0]) {
					for _, l := range t.pt.locs(v) {
						t.mark(Loc{l.obj, l.path + "[]"})
					}
				}
				return
			}
		}
		if v.op == OpRecCall && len(v.args) != 1 {
			for i, a := range v.args {
				for s := range t.vals[a] {
					t.add(v, fmt.Sprintf("#%d%s", i, s))
				}
			}
			return
		}
		for _, a := range v.args {
			for s := range t.vals[a] {
				t.add(v, s)
			}
		}
	case OpUnknown:
		if v.name == "recparam" {
			for _, a := range v.args {
				for s := range t.vals[a] {
					t.add(v, s)
				}
			}
		} else if strings.HasPrefix(v.name, "cbarg:") {
			for _, a := range v.args {
				if e := sliceElem(a.typ); e != nil && types.Identical(e, v.typ) {
					t.load(v, "", suffix(t.pt.locs(a), "[]"), v.typ)
				}
			}
		}
	case OpSlice:
		if t.parts && isString(v.typ) && t.has(v.args[0]) {
			t.add(v, "")
		}
	case OpBin:
		if t.parts && isString(v.typ) && v.tok == token.ADD && (t.has(v.args[0]) || t.has(v.args[1])) {
			t.add(v, "")
		}
	case OpTypeAssert:
		for s := range t.vals[v.args[0]] {
			if v.commaOk {
				s = "#0" + s
			}
			t.add(v, s)
		}
	case OpExtract:
		pre := fmt.Sprintf("#%d", v.idx)
		for s := range t.vals[v.args[0]] {
			if strings.HasPrefix(s, pre) {
				t.add(v, s[len(pre):])
			}
		}
	case OpTuple:
		for i, a := range v.args {
			for s := range t.vals[a] {
				t.add(v, fmt.Sprintf("#%d%s", i, s))
			}
		}
	case OpField:
		pre := "." + fieldName(v)
		for s := range t.vals[v.args[0]] {
			if strings.HasPrefix(s, pre) && (len(s) == len(pre) || s[len(pre)] == '.' || s[len(pre)] == '[') {
				t.add(v, s[len(pre):])
			}
		}
	case OpIndex:
		for s := range t.vals[v.args[0]] {
			if strings.HasPrefix(s, "[]") {
				t.add(v, s[2:])
			}
		}
	case OpStruct:
		for i, a := range v.args {
			pre := "[]"
			if u, ok := v.typ.Underlying().(*types.Struct); ok {
				pre = "." + u.Field(i).Name()
			}
			for s := range t.vals[a] {
				t.add(v, pre+s)
			}
		}
	case OpLoad:
		t.load(v, "", t.pt.locs(v.args[0]), v.typ)
	case OpStore:
		t.store(t.pt.locs(v.args[0]), v.args[1])
	case OpMapUpdate:
		t.store(suffix(t.pt.locs(v.args[0]), "{k}"), v.args[1])
		t.store(suffix(t.pt.locs(v.args[0]), "{v}"), v.args[2])
	case OpLookup:
		if mt, ok := v.args[0].typ.Underlying().(*types.Map); ok {
			pre := ""
			if v.commaOk {
				pre = "#0"
			}
			t.load(v, pre, suffix(t.pt.locs(v.args[0]), "{v}"), mt.Elem())
		}
	case OpNext:
		if r := v.args[0]; r.op == OpRange {
			if t.runes && t.has(r.args[0]) {
				t.add(v, "#2")
			}
			if mt, ok := r.args[0].typ.Underlying().(*types.Map); ok {
				ls := t.pt.locs(r)
				t.load(v, "#1", suffix(ls, "{k}"), mt.Key())
				t.load(v, "#2", suffix(ls, "{v}"), mt.Elem())
			}
		}
	case OpBuiltin:
		switch v.name {
		case "append":
			for _, a := range v.args {
				t.copyElems(t.pt.locs(v), t.pt.locs(a), sliceElem(a.typ))
			}
		case "min", "max":
			if !t.exact {
				for _, a := range v.args {
					if t.has(a) {
						t.add(v, "")
					}
				}
			}
		case "copy":
			t.copyElems(t.pt.locs(v.args[0]), t.pt.locs(v.args[1]), sliceElem(v.args[1].typ))
		}
	case OpCall:
		t.ext(v)
		if t.call != nil {
			t.call(t, v)
		}
	}
}

func isString(ty types.Type) bool {
	if ty == nil {
		return false
	}
	b, ok := ty.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// baseName strips type arguments from the name of an external function.
func baseName(name string) string {
	if i := strings.Index(name, "["); i > 0 && !strings.HasPrefix(name, "(") {
		return name[:i]
	}
	return name
}

// ext: library functions that hand the data on.
func (t *Taint) ext(v *Value) {
	if len(v.args) == 0 {
		return
	}
	if t.exact && strings.HasPrefix(v.name, "strings.") && baseName(v.name) != "strings.Clone" {
		return
	}
	if t.whole {
		switch baseName(v.name) {
		case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ReplaceAll", "strings.CutPrefix", "strings.CutSuffix":
			return
		}
	}
	switch n := baseName(v.name); n {
	case "unicode/utf8.DecodeRuneInString":
		if t.runes && t.has(v.args[0]) {
			t.add(v, "#0")
		}
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ReplaceAll", "strings.Clone", "path/filepath.Ext", "path.Ext", "strings.Title":
		if t.has(v.args[0]) {
			t.add(v, "")
		}
	case "strings.Split", "strings.SplitN", "strings.Fields", "strings.SplitAfter", "strings.FieldsFunc":
		if t.has(v.args[0]) {
			for _, l := range t.pt.locs(v) {
				t.mark(Loc{l.obj, l.path + "[]"})
			}
		}
	case "strings.Cut", "strings.CutPrefix", "strings.CutSuffix":
		if t.has(v.args[0]) {
			t.add(v, "#0")
			if n == "strings.Cut" {
				t.add(v, "#1")
			}
		}
	case "slices.Clone", "slices.Compact", "slices.Clip", "slices.Insert", "slices.Delete":
		t.copyElems(t.pt.locs(v), t.pt.locs(v.args[0]), sliceElem(v.args[0].typ))
	case "slices.Concat":
		for _, l := range t.pt.locs(v.args[0]) {
			for x := range t.pt.contents[Loc{l.obj, l.path + "[]"}] {
				t.copyElems(t.pt.locs(v), []Loc{x}, sliceElem(v.typ))
			}
		}
	case "maps.Keys", "maps.Values":
		k := "{k}"
		if n == "maps.Values" {
			k = "{v}"
		}
		for _, l := range t.pt.locs(v.args[0]) {
			if t.marked(Loc{l.obj, l.path + k}) {
				t.add(v, ".seq")
			}
		}
	case "slices.Sorted", "slices.Collect", "slices.SortedFunc":
		for s := range t.vals[v.args[0]] {
			if s == ".seq" {
				for _, l := range t.pt.locs(v) {
					t.mark(Loc{l.obj, l.path + "[]"})
				}
			}
		}
	case "maps.Clone":
		for _, l := range t.pt.locs(v.args[0]) {
			for _, k := range []string{"{k}", "{v}"} {
				if t.marked(Loc{l.obj, l.path + k}) {
					for _, d := range t.pt.locs(v) {
						t.mark(Loc{d.obj, d.path + k})
					}
				}
			}
		}
	}
}

// container: a slice or map with tainted elements (possibly nested).
func (t *Taint) container(v *Value) bool {
	ls := t.pt.locs(v)
	for _, l := range ls {
		for p := range t.mem[l.obj] {
			if strings.HasPrefix(p, l.path+"[]") || strings.HasPrefix(p, l.path+"{") {
				return true
			}
		}
		if t.seed != nil {
			var leaves []string
			switch u := v.typ.Underlying().(type) {
			case *types.Slice:
				scalarLeaves(u.Elem(), "[]", &leaves, 0)
			case *types.Map:
				scalarLeaves(u.Key(), "{k}", &leaves, 0)
				scalarLeaves(u.Elem(), "{v}", &leaves, 0)
			}
			for _, s := range leaves {
				if t.seed(Loc{l.obj, l.path + s}) {
					return true
				}
			}
		}
	}
	return false
}

// nested: a slice of slices (or pointers) that lead to tainted cells.
func (t *Taint) nested(v *Value) bool {
	if v == nil || v.typ == nil || !pointerLike(v.typ) {
		return false
	}
	var cs []cell
	switch u := v.typ.Underlying().(type) {
	case *types.Slice:
		cellsOf(t.pt, u.Elem(), suffix(t.pt.locs(v), "[]"), "", "", 5, &cs)
	case *types.Pointer:
		cellsOf(t.pt, u.Elem(), t.pt.locs(v), "", "", 5, &cs)
	}
	for _, x := range cs {
		for _, l := range x.locs {
			if t.marked(l) {
				return true
			}
		}
	}
	return false
}
