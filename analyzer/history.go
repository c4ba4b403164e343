package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "Solver state of the network = its fields written by any solve entry point. In the call-inlined program of every solve and read entry point, each read of such a field is preceded, on every path from the entry, by an assignment of the whole field (or a clear of the map it holds); only the policies stored by SolvePolicies may be read by queries without one.", checkC05)
}

type histEntry struct {
	rel, recv, name string
	readsPolicies   bool
	solver          bool
}

func checkC05(c *Ctx) {
	ents := []histEntry{
		{"", "Network", "SolvePolicies", false, true},
		{"", "Network", "SolveQuery", true, true},
		{"", "Network", "SolveUtility", true, true},
		{"", "Network", "ToEvidence", false, false},
		{"", "Network", "Variables", false, false},
		{"", "Network", "Name", false, false},
		{"", "Network", "Info", false, false},
		{"", "Network", "TotalUtilityIndex", false, false},
		{"", "", "ToYAML", false, false},
		{"", "", "NewTrainer", false, false},
		{"internal/tui", "", "Solve", true, true},
	}
	fns := map[histEntry]*ssa.Function{}
	for _, e := range ents {
		fn := c.w.fn(e.rel, e.recv, e.name)
		if fn == nil {
			if e.rel == "" {
				c.must(e.rel, e.recv, e.name)
			}
			continue
		}
		fns[e] = fn
	}
	mutable := map[string]bool{}
	for _, e := range ents {
		fn := fns[e]
		if fn == nil || !e.solver {
			continue
		}
		for _, ef := range c.pta(c.flat(fn)).effects() {
			if f, ft := netField(c, ef.loc); f != "" && ft != nil {
				mutable[f] = true
			}
		}
	}
	var names []string
	for f := range mutable {
		names = append(names, f)
	}
	sort.Strings(names)
	c.samples = append(c.samples, "solver state fields: "+strings.Join(names, ", "))
	nt := c.w.namedType("", "Network")
	for _, e := range ents {
		fn := fns[e]
		if fn == nil {
			continue
		}
		fl := c.flat(fn)
		pt := c.pta(fl)
		net := netParam(fl)
		if net == nil {
			continue
		}
		killed := mustKill(fl, pt, net)
		bad := false
		n := 0
		fl.each(func(v *Value) {
			if v.op != OpLoad {
				return
			}
			for _, l := range pt.locs(v.args[0]) {
				if l.obj.kind != ObjRegion || l.obj.root != net || l.obj.path != "" {
					continue
				}
				f := firstField(l.path)
				if !mutable[f] {
					continue
				}
				ft := fieldType(nt, f)
				if e.readsPolicies && ft != nil && isPolicyField(ft) {
					continue
				}
				if onlyWrites(v) {
					continue
				}
				n++
				if !killed(v, f) {
					bad = true
					c.fail("stale-read", c.entryKey(fn)+" reads "+f, fl.where(v), "reads the network's "+f+" left over from an earlier call", fl.chain(v))
				}
			}
		})
		if !bad {
			c.ok("stale-read", c.entryKey(fn))
			c.obligs += n
			c.discharged += n
			c.rules["stale-read"] += n
		}
	}
	c.floor("stale-read", 20)
}

// onlyWrites: the loaded map is only cleared or inserted into.
func onlyWrites(v *Value) bool {
	if _, ok := v.typ.Underlying().(*types.Map); !ok {
		return false
	}
	for _, u := range v.uses {
		switch {
		case u.op == OpMapUpdate && u.args[0] == v && u.args[1] != v && u.args[2] != v:
		case u.op == OpBuiltin && (u.name == "clear" || u.name == "delete"):
		default:
			return false
		}
	}
	return true
}

// mustKill computes, by forward must-analysis, the fields of the network overwritten on every path
// before an instruction.
func mustKill(fl *Flat, pt *PTA, net *Value) func(v *Value, field string) bool {
	gen := func(v *Value) string {
		switch v.op {
		case OpStore:
			ls := pt.locs(v.args[0])
			if len(ls) == 1 && ls[0].obj.root == net && ls[0].obj.kind == ObjRegion && ls[0].obj.path == "" {
				p := ls[0].path
				if f := firstField(p); p == "."+f {
					return f
				}
			}
		case OpBuiltin:
			if v.name == "clear" {
				m := v.args[0]
				if m.op == OpLoad {
					ls := pt.locs(m.args[0])
					if len(ls) == 1 && ls[0].obj.root == net && ls[0].obj.path == "" {
						p := ls[0].path
						if f := firstField(p); p == "."+f {
							return f
						}
					}
				}
			}
		}
		return ""
	}
	type set map[string]bool
	out := map[*Block]set{}
	bonus := map[*Block]func() set{} // facts that hold on entry of a block, because an insertion must have happened
	fl.each(func(v *Value) {
		if v.op != OpIf || len(v.blk.succs) != 2 {
			return
		}
		if ups := mustHaveInserted(fl, pt, net, v.args[0]); ups != nil {
			body := v.blk.succs[0]
			if len(body.preds) != 1 {
				return
			}
			bonus[body] = func() set {
				var r set
				for _, u := range ups {
					s, ok := out[u.blk]
					if !ok {
						continue
					}
					if r == nil {
						r = set{}
						for k := range s {
							r[k] = true
						}
						continue
					}
					for k := range r {
						if !s[k] {
							delete(r, k)
						}
					}
				}
				return r
			}
		}
	})
	inSet := func(b *Block) (set, bool) {
		if b == fl.entry {
			return set{}, true
		}
		var r set
		ok := false
		if f := bonus[b]; f != nil {
			defer func() {
				if r != nil {
					for k := range f() {
						r[k] = true
					}
				}
			}()
		}
		for _, p := range b.preds {
			o, has := out[p]
			if !has {
				continue
			}
			if !ok {
				r = set{}
				for k := range o {
					r[k] = true
				}
				ok = true
				continue
			}
			for k := range r {
				if !o[k] {
					delete(r, k)
				}
			}
		}
		return r, ok
	}
	// out sets start at "everything" (absent) and shrink; bonus facts shrink with them
	for iter := 0; iter < 1000; iter++ {
		changed := false
		for _, b := range fl.blocks {
			s, ok := inSet(b)
			if !ok {
				continue
			}
			for _, v := range b.instrs {
				if g := gen(v); g != "" {
					s[g] = true
				}
			}
			if o, has := out[b]; !has || len(o) != len(s) {
				out[b] = s
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	return func(v *Value, field string) bool {
		s, ok := inSet(v.blk)
		if !ok {
			return true
		}
		if s[field] {
			return true
		}
		for _, u := range v.blk.instrs {
			if u == v {
				return false
			}
			if gen(u) == field {
				return true
			}
		}
		return false
	}
}

// mustHaveInserted recognises the condition that enters the body of an iteration over a collection
// which was empty at some point of this call: a map field of the network that is cleared first, or a
// local slice that starts empty. It returns the insertions, one of which must have executed.
func mustHaveInserted(fl *Flat, pt *PTA, net *Value, cond *Value) []*Value {
	// map iteration: extract #0 of next
	if cond.op == OpExtract && cond.idx == 0 && cond.args[0].op == OpNext {
		r := cond.args[0].args[0]
		if r.op != OpRange {
			return nil
		}
		m := r.args[0]
		if m.op == OpLoad {
			f := ""
			for _, l := range pt.locs(m.args[0]) {
				if l.obj.root != net || l.obj.path != "" || len(pt.locs(m.args[0])) != 1 {
					return nil
				}
				f = firstField(l.path)
			}
			cleared := false
			var ups []*Value
			fl.each(func(v *Value) {
				switch {
				case v.op == OpBuiltin && v.name == "clear" && v.args[0].op == OpLoad && sameField(pt, net, v.args[0].args[0], f):
					if valDominates(v, r) {
						cleared = true
					}
				case v.op == OpMapUpdate && v.args[0].op == OpLoad && sameField(pt, net, v.args[0].args[0], f):
					ups = append(ups, v)
				}
			})
			if cleared && len(ups) > 0 {
				return ups
			}
		}
		if m.op == OpMakeMap {
			var ups []*Value
			for _, u := range m.uses {
				switch {
				case u.op == OpMapUpdate && u.args[0] == m:
					ups = append(ups, u)
				case u.op == OpRange || u.op == OpLookup || u.op == OpBuiltin:
				default:
					return nil
				}
			}
			if len(ups) > 0 {
				return ups
			}
		}
		return nil
	}
	// slice iteration: i < len(x)
	if cond.op != OpBin || cond.tok.String() != "<" {
		return nil
	}
	ln := cond.args[1]
	if ln.op != OpBuiltin || ln.name != "len" {
		return nil
	}
	var ups []*Value
	ok := true
	seen := map[*Value]bool{}
	var visit func(v *Value)
	visit = func(v *Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch {
		case v.op == OpPhi || v.op == OpChangeType:
			for _, a := range v.args {
				visit(a)
			}
		case v.op == OpBuiltin && v.name == "append":
			ups = append(ups, v)
			visit(v.args[0])
		case isNilConst(v) || freshBase(v):
		case v.op == OpMakeSlice:
			if n, isC := constInt(v.args[0]); !isC || n != 0 {
				ok = false
			}
		default:
			ok = false
		}
	}
	visit(ln.args[0])
	if ok && len(ups) > 0 {
		return ups
	}
	return nil
}

func sameField(pt *PTA, net, addr *Value, f string) bool {
	ls := pt.locs(addr)
	return len(ls) == 1 && ls[0].obj.root == net && ls[0].obj.path == "" && ls[0].path == "."+f
}
