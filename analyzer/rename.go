package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The rules name fields of the repository's own records. So that a renamed
// field or record is still recognised, the program is brought back to the
// names known here before the analysis: a record without its known field and
// with an unknown field of the same type has it renamed.

type canonField struct{ name, typ string }

func qualify(p *types.Package) string {
	if p.Path() == modPath {
		return "bbn"
	}
	return strings.TrimPrefix(p.Path(), modPath+"/")
}

func fieldsOf(st *types.Struct) []canonField {
	var out []canonField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		out = append(out, canonField{f.Name(), types.TypeString(f.Type(), qualify)})
	}
	return out
}

// structs: the record types of the repository, by package and name.
func structs(pkgs []*packages.Package) map[string]*types.TypeName {
	out := map[string]*types.TypeName{}
	for _, p := range pkgs {
		if p.Types == nil || !strings.HasPrefix(p.Types.Path(), modPath) {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, ok := tn.Type().Underlying().(*types.Struct); ok {
				out[qualify(p.Types)+"."+n] = tn
			}
		}
	}
	return out
}

// printCanon prints the table of known names.
func printCanon(pkgs []*packages.Package) {
	ss := structs(pkgs)
	var names []string
	for n := range ss {
		names = append(names, n)
	}
	sort.Strings(names)
	fmt.Println("package main\n\nvar canonStructs = map[string][]canonField{")
	for _, n := range names {
		fmt.Printf("\t%q: {", n)
		for i, f := range fieldsOf(ss[n].Type().Underlying().(*types.Struct)) {
			if i > 0 {
				fmt.Print(", ")
			}
			fmt.Printf("{%q, %q}", f.name, f.typ)
		}
		fmt.Println("},")
	}
	fmt.Println("}\n\nvar canonFuncs = map[string]string{")
	fs := funcObjs(pkgs, func(t string) string { return t })
	names = nil
	for n := range fs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Printf("\t%q: %q,\n", n, fs[n].sig)
	}
	fmt.Println("}")
}

type funcObj struct {
	fn  *types.Func
	sig string
}

// funcObjs: the functions and methods of the repository, by package,
// receiver and name.
func funcObjs(pkgs []*packages.Package, fix func(string) string) map[string]funcObj {
	out := map[string]funcObj{}
	for _, p := range pkgs {
		if p.Types == nil || !strings.HasPrefix(p.Types.Path(), modPath) {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				fn, ok := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if !ok || fn.Name() == "init" || fn.Name() == "main" || fn.Name() == "_" {
					continue
				}
				sig := fn.Type().(*types.Signature)
				recv := ""
				if sig.Recv() != nil {
					recv = fix(types.TypeString(sig.Recv().Type(), qualify))
				}
				// the parameter and result types, without their names
				t := ""
				for i := 0; i < sig.Params().Len(); i++ {
					t += types.TypeString(sig.Params().At(i).Type(), qualify) + ","
				}
				t += ":"
				for i := 0; i < sig.Results().Len(); i++ {
					t += types.TypeString(sig.Results().At(i).Type(), qualify) + ","
				}
				if sig.Variadic() {
					t += "..."
				}
				out[qualify(p.Types)+"|"+recv+"|"+fn.Name()] = funcObj{fn, fix(t)}
			}
		}
	}
	return out
}

// renamings: objects with another name than the known one.
func renamings(pkgs []*packages.Package) map[types.Object]string {
	ren := map[types.Object]string{}
	ss := structs(pkgs)
	// records with another name
	typeRen := map[string]string{} // new text -> known text
	for n, want := range canonStructs {
		if ss[n] != nil || len(want) == 0 {
			continue
		}
		pkg := n[:strings.LastIndexByte(n, '.')+1]
		var cand []string
		for m, tn := range ss {
			if canonStructs[m] != nil || !strings.HasPrefix(m, pkg) || strings.Contains(m[len(pkg):], ".") {
				continue
			}
			if sameFields(fieldsOf(tn.Type().Underlying().(*types.Struct)), want, m, n) {
				cand = append(cand, m)
			}
		}
		if len(cand) == 1 {
			tn := ss[cand[0]]
			ren[tn] = n[len(pkg):]
			typeRen[cand[0]] = n
			ss[n] = tn
		}
	}
	fix := func(t string) string {
		for a, b := range typeRen {
			t = replaceWord(t, a, b)
		}
		return t
	}
	for n, want := range canonStructs {
		tn := ss[n]
		if tn == nil {
			continue
		}
		st := tn.Type().Underlying().(*types.Struct)
		has := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			has[st.Field(i).Name()] = true
		}
		known := map[string]bool{}
		for _, f := range want {
			known[f.name] = true
		}
		// missing names and new fields by type, in order
		missing, fresh := map[string][]string{}, map[string][]*types.Var{}
		for _, f := range want {
			if !has[f.name] {
				missing[f.typ] = append(missing[f.typ], f.name)
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); !known[f.Name()] && !f.Embedded() {
				t := fix(types.TypeString(f.Type(), qualify))
				fresh[t] = append(fresh[t], f)
			}
		}
		for t, ms := range missing {
			if fs := fresh[t]; len(fs) == len(ms) {
				for i := range ms {
					ren[fs[i]] = ms[i]
				}
			}
		}
	}
	// functions: a known one that is missing and a single new one of its kind
	fs := funcObjs(pkgs, fix)
	missing, fresh := map[string][]string{}, map[string][]*types.Func{}
	kind := func(n, sig string) string { return n[:strings.LastIndexByte(n, '|')] + "|" + sig }
	for n, sig := range canonFuncs {
		if _, ok := fs[n]; !ok {
			missing[kind(n, sig)] = append(missing[kind(n, sig)], n[strings.LastIndexByte(n, '|')+1:])
		}
	}
	for n, o := range fs {
		if _, ok := canonFuncs[n]; !ok {
			fresh[kind(n, o.sig)] = append(fresh[kind(n, o.sig)], o.fn)
		}
	}
	for k, ms := range missing {
		if len(ms) == 1 && len(fresh[k]) == 1 {
			ren[fresh[k][0]] = ms[0]
		}
	}
	return ren
}

func sameFields(a, b []canonField, old, nw string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].name != b[i].name || replaceWord(a[i].typ, old, nw) != b[i].typ {
			return false
		}
	}
	return true
}

// replaceWord replaces whole occurrences of a qualified type name.
func replaceWord(s, old, nw string) string {
	out := ""
	for {
		i := strings.Index(s, old)
		if i < 0 {
			return out + s
		}
		j := i + len(old)
		if j < len(s) && (isLetter(s[j]) || s[j] >= '0' && s[j] <= '9') || i > 0 && (isLetter(s[i-1]) || s[i-1] == '/') {
			out += s[:j]
		} else {
			out += s[:i] + nw
		}
		s = s[j:]
	}
}

// overlay: the sources with known names.
func overlay(pkgs []*packages.Package, ren map[types.Object]string) (map[string][]byte, error) {
	type edit struct {
		from, to int
		text     string
	}
	edits := map[string][]edit{}
	seen := map[string]bool{}
	for _, p := range pkgs {
		if p.TypesInfo == nil {
			continue
		}
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			if seen[name] {
				continue
			}
			seen[name] = true

			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				o := p.TypesInfo.Defs[id]
				if o == nil {
					o = p.TypesInfo.Uses[id]
				}
				switch x := o.(type) {
				case *types.Var:
					o = x.Origin()
				case *types.Func:
					o = x.Origin()
				}
				if nw, ok := ren[o]; ok && o != nil {
					from := p.Fset.Position(id.Pos()).Offset
					edits[name] = append(edits[name], edit{from, from + len(id.Name), nw})
				}
				return true
			})
		}
	}
	out := map[string][]byte{}
	for name, es := range edits {
		src, err := os.ReadFile(name)
		if err != nil {
			return nil, err
		}
		sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
		for _, e := range es {
			src = append(src[:e.from:e.from], append([]byte(e.text), src[e.to:]...)...)
		}
		out[name] = src
	}
	return out, nil
}
