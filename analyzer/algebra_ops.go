package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "Factor algebra, with cell access as primitives (their meaning is decided by C15): the variables of each result are derived as a sequence of pieces of the operands' lists and compared with the definition of the operation; every loop over table cells covers the whole table, has no other exit, advances the index vector exactly once per round, after its last use, in step with the cell; every index vector used for another factor holds, for each of its variables, the outcome of that same variable; every cell takes part exactly once, under no condition but the one the operation defines; and the combination is the exact operator with its neutral start value. Shortcuts must imply that the result is a copy.", checkC17)
}

type csite struct {
	at, vec, pos, val *Value
	add               bool
}

func newAlg(c *Ctx, fl *Flat, name string) *alg {
	a := &alg{c: c, fl: fl, name: name, busy: map[*Value]bool{}, ren: map[string]string{}}
	a.loops = fl.loops()
	a.closeCounters()
	return a
}

func checkC17(c *Ctx) {
	ops := []struct {
		name string
		run  func(a *alg)
	}{
		{"Restrict", (*alg).opProject}, {"SumOut", (*alg).opProject}, {"Marginal", (*alg).opProject},
		{"Product", (*alg).opCombine}, {"Sum", (*alg).opCombine}, {"Rearrange", (*alg).opRearrange},
		{"Normalize", (*alg).opScale}, {"Invert", (*alg).opScale}, {"NormalizeFor", (*alg).opRows},
		{"Policy", (*alg).opPolicy},
	}
	for _, o := range ops {
		fn := c.must("ve", "Variables", o.name)
		if fn == nil {
			continue
		}
		name := o.name
		fl := c.flatStop(fn, func(f *ssa.Function) bool {
			return isPrimitive(f) || (name == "NormalizeFor" && f.Name() == "Rearrange" && f.Signature.Recv() != nil)
		})
		o.run(newAlg(c, fl, name))
	}
	if fn := c.must("ve", "Variables", "CreateFactor"); fn != nil {
		newAlg(c, c.flatStop(fn, func(f *ssa.Function) bool { return false }), "CreateFactor").opCreate()
	}
	for r, n := range map[string]int{"result-variables": 6, "all-cells": 6, "odometer": 3, "every-cell": 6, "index-map": 3, "value": 4, "combine": 3} {
		c.floor(r, n)
	}
}

// opCreate: a new factor has the given variables and one cell per combination of outcomes.
func (a *alg) opCreate() {
	var vars, data *Value
	for _, p := range a.fl.params {
		if s, ok := p.typ.Underlying().(*types.Slice); ok {
			if isFloat(s.Elem()) {
				data = p
			} else {
				vars = p
			}
		}
	}
	if vars == nil || data == nil {
		a.und("parameters", nil)
		return
	}
	// the number of cells
	var rows *Value
	a.fl.each(func(v *Value) {
		if v.op != OpPhi || !isInteger(v.typ) {
			return
		}
		for _, l := range a.loops {
			if l.head != v.blk {
				continue
			}
			for i, p := range l.head.preds {
				if l.blocks[p] {
					for _, lf := range leaves(v.args[i], l) {
						if lf.op == OpBin && lf.tok == token.MUL && (lf.args[0] == v || lf.args[1] == v) {
							rows = v
						}
					}
				}
			}
		}
	})
	if rows == nil {
		a.und("number of cells", nil)
		return
	}
	var l *Loop
	for _, x := range a.loops {
		if x.head == rows.blk {
			l = x
		}
	}
	ct, ok := a.counterOf(l)
	if !ok {
		a.und("number of cells", rows)
		return
	}
	n := polyAtom("len(" + vars.name + ")")
	if len(ct.lo) != 0 || !ct.hi.equal(n) {
		if onlyConst(ct.lo) && onlyConst(ct.hi.add(n, -1)) {
			a.bad("size", "cells", ct.iv.cond, "the number of cells leaves out a variable")
		} else {
			a.und("number of cells", rows)
		}
		return
	}
	if x := earlyExit(l, ct.iv); x != nil {
		a.bad("size", "cells", x, "the number of cells leaves out variables")
		return
	}
	for i, p := range l.head.preds {
		if !l.blocks[p] {
			if c, isc := constInt(rows.args[i]); !isc || c != 1 {
				a.bad("size", "cells", rows, "the number of cells does not start at 1")
				return
			}
			continue
		}
		for _, lf := range leaves(rows.args[i], l) {
			if lf == rows {
				a.bad("size", "cells", rows, "the number of cells leaves out some variables")
				return
			}
			x, y, ok := bin2(lf, token.MUL)
			if !ok {
				a.und("number of cells", lf)
				return
			}
			if y == rows {
				x, y = y, x
			}
			want := "<" + vars.name + "[" + a.p(ct.iv.cur).String() + "].outcomes>"
			if got := a.p(y); x != rows || !got.equal(polyAtom(want)) {
				if x == rows && got.mentions(polyAtom(want)) {
					a.bad("size", "cells", lf, "the number of cells is multiplied by "+got.String())
				} else {
					a.und("number of cells", lf)
				}
				return
			}
		}
	}
	a.c.ok("size", "cells = product of outcomes")
	// the table
	mk := false
	a.fl.each(func(v *Value) {
		if v.op == OpMakeSlice && isFloat(v.typ.Underlying().(*types.Slice).Elem()) {
			mk = true
			if stripConv(v.args[0]) != rows {
				a.bad("size", "table", v, "the new table does not have one cell per combination")
			}
		}
	})
	if mk {
		a.c.ok("size", "new table")
	}
	// a given table has that size
	good := false
	a.fl.each(func(v *Value) {
		if v.op != OpIf {
			return
		}
		cd, neg := v.args[0], false
		for cd.op == OpUn && cd.tok == token.NOT {
			cd, neg = cd.args[0], !neg
		}
		if cd.op != OpBin || (cd.tok != token.EQL && cd.tok != token.NEQ) {
			return
		}
		x, y := stripConv(cd.args[0]), stripConv(cd.args[1])
		if x == rows {
			x, y = y, x
		}
		if y != rows || x.op != OpBuiltin || x.name != "len" || stripCT(x.args[0]) != data {
			return
		}
		s := v.blk.succs[0]
		if (cd.tok == token.EQL) != neg {
			s = v.blk.succs[1]
		}
		if endsInPanic(s) {
			good = true
		}
	})
	if good {
		a.c.ok("size", "given table")
	} else {
		a.und("size of a given table", nil)
	}
	// the variables
	for _, r := range a.fl.returns() {
		for _, x := range r.args {
			x = stripCT(x)
			if x.op != OpStruct {
				a.und("result", r)
				continue
			}
			st := x.typ.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() != "variables" {
					continue
				}
				v := stripCT(x.args[i])
				var q lseq
				gap := ""
				ok := false
				if v.op == OpMakeSlice {
					q, gap, ok = a.vecSeq(v, r)
					if ok && gap == "" && len(q) == 0 {
						ok = false
					}
				} else {
					q, ok = a.seq(v)
				}
				if !ok {
					a.und("variables of the factor", r)
					continue
				}
				if gap != "" || !q.equal(lseq{{vars.name, Poly{}, n}}) {
					a.bad("result-variables", "factor", r, "the factor does not have the given variables in order: "+q.String()+" "+gap)
				} else {
					a.c.ok("result-variables", "CreateFactor")
				}
			}
		}
	}
}

func (a *alg) und(msg string, v *Value) {
	w := ""
	if v != nil {
		w = " at " + a.fl.where(v)
	}
	a.c.undecide("algebra", a.name+": "+msg+w)
}

// sources of a returned factor.
func (a *alg) sources() []*Value {
	var out []*Value
	seen := map[*Value]bool{}
	var walk func(v *Value)
	walk = func(v *Value) {
		v = stripCT(v)
		if seen[v] {
			return
		}
		seen[v] = true
		switch v.op {
		case OpPhi:
			for _, x := range v.args {
				walk(x)
			}
		case OpLoad:
			if v.args[0].op == OpAlloc {
				for _, u := range v.args[0].uses {
					if u.op == OpStore && u.args[0] == v.args[0] {
						walk(u.args[1])
					}
				}
				return
			}
			out = append(out, v)
		case OpStruct:
			// a factor taken apart and put together
			var x *Value
			for _, y := range v.args {
				y = stripCT(y)
				if y.op != OpField || (x != nil && x != y.args[0]) {
					out = append(out, v)
					return
				}
				x = y.args[0]
			}
			walk(x)
		default:
			out = append(out, v)
		}
	}
	for _, r := range a.fl.returns() {
		for _, x := range r.args {
			walk(x)
		}
	}
	return out
}

func (a *alg) param(typ string) *Value {
	for _, p := range a.fl.params {
		t := p.typ
		if strings.HasSuffix(t.String(), typ) && p.idx > 0 {
			return p
		}
	}
	return nil
}

// copyOf: the table a new table is a copy of.
func (a *alg) copyOf(v *Value) string {
	v = stripCT(v)
	switch {
	case v.op == OpCall && strings.HasPrefix(v.name, "slices.Clone"):
		return a.key(v.args[0])
	case v.op == OpBuiltin && v.name == "append" && len(v.args) == 2:
		if q, ok := a.seq(v.args[0]); ok && len(q) == 0 {
			return a.key(v.args[1])
		}
	case v.op == OpMakeSlice:
		for _, u := range v.uses {
			if u.op == OpBuiltin && u.name == "copy" && u.args[0] == v {
				return a.key(u.args[1])
			}
		}
	}
	return ""
}

// sites writing cells of the factor created by cr.
func (a *alg) sites(cr *Value) []csite {
	k := a.key(cr)
	tables := map[string]bool{k + ".data": true}
	if len(cr.args) > 2 && !isNilConst(cr.args[2]) {
		tables[a.key(cr.args[2])] = true
	}
	var out []csite
	a.fl.each(func(v *Value) {
		switch {
		case prim(v, "Set") && a.key(v.args[0]) == k:
			s := csite{at: v, vec: v.args[1], val: v.args[2]}
			if x, y, ok := bin2(s.val, token.ADD); ok {
				for i := 0; i < 2; i++ {
					if prim(x, "Get") && a.key(x.args[0]) == k && a.key(x.args[1]) == a.key(s.vec) {
						s.val, s.add = y, true
						break
					}
					x, y = y, x
				}
			}
			out = append(out, s)
		case v.op == OpStore && v.args[0].op == OpIndexAddr && tables[a.key(v.args[0].args[0])]:
			s := csite{at: v, val: v.args[1]}
			ix := stripConv(v.args[0].args[1])
			if prim(ix, "Index") {
				s.vec = ix.args[1]
			} else {
				s.pos = v.args[0].args[1]
			}
			if x, y, ok := bin2(s.val, token.ADD); ok {
				for i := 0; i < 2; i++ {
					if x.op == OpLoad && x.args[0].op == OpIndexAddr && tables[a.key(x.args[0].args[0])] && (x.args[0] == v.args[0] || sameVal(x.args[0].args[1], v.args[0].args[1]) || a.p(x.args[0].args[1]).equal(a.p(v.args[0].args[1]))) {
						s.val, s.add = y, true
						break
					}
					x, y = y, x
				}
			}
			out = append(out, s)
		}
	})
	return out
}

func bin2(v *Value, tok token.Token) (*Value, *Value, bool) {
	v = stripCT(v)
	if v.op == OpBin && v.tok == tok {
		return v.args[0], v.args[1], true
	}
	return nil, nil, false
}

// isCell: v is the table cell at the counter.
func (a *alg) isCell(v *Value, tables map[string]bool, cur *Value) int {
	v = stripCT(v)
	if v.op != OpLoad || v.args[0].op != OpIndexAddr || !tables[a.key(v.args[0].args[0])] {
		return 0
	}
	if a.p(v.args[0].args[1]).equal(a.p(cur)) {
		return 1
	}
	return -1
}

// covers: the loop visits the whole table once.
func (a *alg) covers(l *Loop, ct counter, tables map[string]bool, what string) bool {
	ok := true
	if !onlyConst(ct.lo) || len(ct.lo) != 0 {
		if onlyConst(ct.lo) {
			a.bad("all-cells", what, ct.iv.cond, "the loop over the cells starts at "+ct.lo.String())
		}
		ok = false
	}
	full := false
	some := false
	for t := range tables {
		n := polyAtom("len(" + t + ")")
		if ct.hi.equal(n) {
			full = true
		}
		if ct.hi.mentions(n) {
			some = true
		}
	}
	if !full {
		if some && onlyConst(ct.hi.add(polyAtom(atomOnlyNonConst(ct.hi)), -1)) {
			a.bad("all-cells", what, ct.iv.cond, "the loop over the cells ends at "+ct.hi.String())
		} else {
			a.und("range of the loop over the cells: "+ct.hi.String(), ct.iv.cond)
		}
		ok = false
	}
	if x := earlyExit(l, ct.iv); x != nil {
		a.bad("all-cells", what, x, "the loop over the cells can end before the last cell")
		ok = false
	}
	if ok {
		a.c.ok("all-cells", a.name+" "+what)
	}
	return ok
}

func atomOnlyNonConst(p Poly) string {
	for k := range p {
		if k != "" {
			return k
		}
	}
	return ""
}

// lockstep: vector o is the cell's outcome indices in every round of l.
func (a *alg) lockstep(l *Loop, ct counter, vec *Value, lists map[string]bool, what string) bool {
	o := a.key(vec)
	var steps []*Value
	var uses []*Value
	outside := false
	bad := false
	a.fl.each(func(v *Value) {
		switch {
		case prim(v, "increment") && a.key(v.args[1]) == o:
			if l.blocks[v.blk] {
				steps = append(steps, v)
			} else {
				outside = true
			}
			if !lists[a.key(v.args[0])] {
				a.bad("odometer", what, v, "the index vector is advanced with the variables of another factor")
				bad = true
			}
		case prim(v, "Outcomes") && a.key(v.args[2]) == o:
			if l.blocks[v.blk] {
				steps = append(steps, v)
			} else {
				outside = true
			}
		case v.op == OpIndexAddr && a.key(v.args[0]) == o:
			for _, u := range v.uses {
				if u.op == OpStore && u.args[0] == v {
					outside = true
				} else if u.op == OpLoad && l.blocks[u.blk] {
					uses = append(uses, u)
				}
			}
		case v.op == OpCall && l.blocks[v.blk]:
			for _, x := range v.args {
				if x != nil && isSliceT(x.typ) && a.key(x) == o {
					uses = append(uses, v)
				}
			}
		}
	})
	if bad {
		return false
	}
	if outside {
		a.und("index vector is changed elsewhere", vec)
		return false
	}
	if len(steps) != 1 {
		if len(steps) == 0 {
			a.bad("odometer", what, vec, "the index vector does not follow the cells")
		} else {
			a.und("several steps of the index vector", steps[0])
		}
		return false
	}
	st := steps[0]
	if innermost(a.loops, st.blk) != l {
		a.und("step of the index vector in another loop", st)
		return false
	}
	if gs := a.realGuards(l, st.blk); len(gs) > 0 {
		a.bad("odometer", what, st, "in some rounds the index vector is not advanced")
		return false
	}
	if prim(st, "Outcomes") {
		pos := a.p(st.args[1])
		if !pos.equal(a.p(ct.iv.cur)) {
			a.bad("odometer", what, st, "the outcome indices are those of cell "+pos.String())
			return false
		}
		for _, u := range uses {
			if u != st && (u.blk == st.blk && instrIndex(u) < instrIndex(st) || u.blk != st.blk && !dominates(st.blk, u.blk)) {
				a.und("outcome indices used before they are set", u)
				return false
			}
		}
		a.c.ok("odometer", a.name+" "+what)
		return true
	}
	for _, u := range uses {
		if u == st {
			continue
		}
		if u.blk == st.blk && instrIndex(u) > instrIndex(st) || u.blk != st.blk && dominates(st.blk, u.blk) && reachesWithin(l, st.blk, u.blk) {
			a.bad("odometer", what, u, "the index vector is used after it was advanced to the next cell")
			return false
		}
	}
	mk := stripCT(vec)
	if mk.op == OpSlice && mk.args[0].op == OpAlloc {
		mk = mk.args[0]
	}
	if (mk.op == OpMakeSlice || mk.op == OpAlloc) && l.blocks[mk.blk] {
		a.bad("odometer", what, mk, "the index vector starts again in every round")
		return false
	}
	if mk.op != OpMakeSlice && mk.op != OpAlloc {
		a.und("start of the index vector", mk)
		return false
	}
	a.c.ok("odometer", a.name+" "+what)
	return true
}

func reachesWithin(l *Loop, from, to *Block) bool {
	seen := map[*Block]bool{}
	var f func(b *Block) bool
	f = func(b *Block) bool {
		for _, s := range b.succs {
			if s == l.head || !l.blocks[s] || seen[s] {
				continue
			}
			if s == to {
				return true
			}
			seen[s] = true
			if f(s) {
				return true
			}
		}
		return false
	}
	return f(from)
}

// realGuards: guards within a round of l, without the bound tests of l and of inner loops.
func (a *alg) realGuards(l *Loop, b *Block) []pathCond {
	bound := map[*Value]bool{}
	for _, x := range a.loops {
		if x == l || (l.blocks[x.head] && x.blocks[b]) {
			if ct, ok := a.counterOf(x); ok {
				bound[ct.iv.cond] = true
			}
		}
	}
	var out []pathCond
	for _, g := range guards(l, b) {
		if !bound[stripNot(g.cond)] {
			out = append(out, g)
		}
	}
	return out
}

// zeroTest: v compared with 0.
func zeroTest(cd, v *Value) bool {
	cd = stripNot(cd)
	if cd.op != OpBin || (cd.tok != token.EQL && cd.tok != token.NEQ) {
		return false
	}
	x, y := cd.args[0], cd.args[1]
	if f, ok := constFloat(x); ok && f == 0 {
		x, y = y, x
	}
	f, ok := constFloat(y)
	return ok && f == 0 && (x == v || sameVal(x, v))
}

// compareVec: got against want.
func (a *alg) compareVec(vec, use *Value, want lseq, what string) {
	got, gap, ok := a.vecSeq(vec, use)
	switch {
	case !ok:
		a.und("contents of an index vector", use)
	case gap != "":
		a.bad("index-map", what, use, "index vector of the cell: "+gap)
	case !got.equal(want):
		a.bad("index-map", what, use, fmt.Sprintf("the outcome indices of the cell are %s, not %s", got, want))
	default:
		a.c.ok("index-map", a.name+" "+what+": "+got.String())
	}
}

func (a *alg) varsOf(cr *Value) (lseq, bool) {
	v := stripCT(cr.args[1])
	if v.op == OpMakeSlice {
		if c, isc := constInt(v.args[0]); !isc || c != 0 {
			q, gap, ok := a.vecSeq(v, cr)
			if ok && gap == "" {
				return q, true
			}
			return nil, false
		}
	}
	return a.seq(v)
}

// opProject: Restrict, SumOut, Marginal.
func (a *alg) opProject() {
	f, vr := a.param("ve.Factor"), a.param("ve.Variable")
	if f == nil || vr == nil {
		a.und("parameters", nil)
		return
	}
	L := f.name + ".variables"
	n := polyAtom("len(" + L + ")")
	K := polyAtom(posName(L, vr.name))
	one := polyConst(1)
	rest := lseq{{L, Poly{}, K}, {L, K.add(one, 1), n}}
	self := lseq{{L, K, K.add(one, 1)}}
	want := rest
	if a.name == "Marginal" {
		want = self
	}
	for _, cr := range a.sources() {
		if !prim(cr, "CreateFactor") {
			a.und("result", cr)
			continue
		}
		vars, ok := a.varsOf(cr)
		if !ok {
			a.und("variables of the result", cr)
			continue
		}
		if len(vars) == 1 && vars[0].base == "="+vr.name {
			vars = self
		}
		if vars.equal(lseq{{L, Poly{}, n}}) {
			a.und("shortcut", cr)
			continue
		}
		if !vars.equal(want) {
			a.bad("result-variables", "result", cr, fmt.Sprintf("the variables of the result are %s, not %s", vars, want))
			continue
		}
		a.c.ok("result-variables", a.name+": "+vars.String())
		if !isNilConst(cr.args[2]) && stripCT(cr.args[2]).op != OpMakeSlice {
			a.und("table of the result", cr)
			continue
		}
		sites := a.sites(cr)
		if len(sites) == 0 {
			a.und("no cell is written", cr)
			continue
		}
		if len(sites) > 1 {
			a.und("several writes", sites[1].at)
			continue
		}
		s := sites[0]
		ml := innermost(a.loops, s.at.blk)
		if ml == nil {
			a.bad("all-cells", "cells", s.at, "only one cell is written")
			continue
		}
		ct, ok := a.counterOf(ml)
		if !ok || ct.iv.step != 1 {
			a.und("loop over the cells", s.at)
			continue
		}
		tables := map[string]bool{f.name + ".data": true}
		switch a.isCell(s.val, tables, ct.iv.cur) {
		case -1:
			a.bad("value", "cells", s.at, "the value does not come from the current cell")
			continue
		case 0:
			if a.usesCell(s.val, tables) {
				a.bad("value", "cells", s.at, "the value of the cell is changed on the way")
			} else {
				a.und("value", s.at)
			}
			continue
		}
		a.c.ok("value", a.name+" cell value")
		a.covers(ml, ct, tables, "cells")
		// the index vector of the operand
		ovec := a.cellVector(ml, L)
		if ovec == nil {
			a.und("index vector of the operand", s.at)
			continue
		}
		o := a.key(ovec)
		a.lockstep(ml, ct, ovec, map[string]bool{L: true}, "index vector")
		if s.add != (a.name != "Restrict") {
			if s.add {
				a.und("adds", s.at)
			} else {
				a.bad("combine", "cells", s.at, "values are overwritten, not added up")
			}
		} else {
			a.c.ok("combine", a.name)
		}
		// conditions
		matched := false
		for _, g := range a.realGuards(ml, s.at.blk) {
			if zeroTest(g.cond, s.val) && (s.add || a.name == "Restrict") {
				continue
			}
			if a.name == "Restrict" && a.isMatch(g, o, K) {
				matched = true
				continue
			}
			a.bad("every-cell", "cells", g.cond, "whether a cell takes part depends on another condition")
			matched = true
		}
		if a.name == "Restrict" && !matched {
			a.bad("every-cell", "cells", s.at, "cells of other outcomes are not left out")
		}
		a.c.ok("every-cell", a.name)
		// target
		switch {
		case s.vec != nil:
			a.compareVec(s.vec, s.at, want.subst(L, o), "target cell")
		case a.name == "Marginal":
			e := a.elem(s.pos)
			if e.base != o {
				a.und("target cell", s.at)
			} else if !e.lo.equal(K) {
				a.bad("index-map", "target cell", s.at, "the cell is that of variable "+e.lo.String())
			} else {
				a.c.ok("index-map", a.name)
			}
		default:
			a.und("target cell", s.at)
		}
	}
}

// usesCell: computed from a cell of the table.
func (a *alg) usesCell(v *Value, tables map[string]bool) bool {
	seen := map[*Value]bool{}
	var f func(v *Value) bool
	f = func(v *Value) bool {
		v = stripCT(v)
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		switch v.op {
		case OpLoad:
			return v.args[0].op == OpIndexAddr && tables[a.key(v.args[0].args[0])]
		case OpBin, OpUn, OpConvert, OpCall:
			for _, x := range v.args {
				if f(x) {
					return true
				}
			}
		}
		return false
	}
	return f(v)
}

func arith(v *Value) bool {
	v = stripCT(v)
	return v.op == OpBin || v.op == OpUn || v.op == OpConvert
}

// isMatch: o[K] == observation, taken.
func (a *alg) isMatch(g pathCond, o string, K Poly) bool {
	cd, taken := g.cond, g.taken
	for cd.op == OpUn && cd.tok == token.NOT {
		cd, taken = cd.args[0], !taken
	}
	if cd.op != OpBin {
		return false
	}
	tok := cd.tok
	if !taken {
		tok = negTok(tok)
	}
	if tok != token.EQL {
		return false
	}
	x, y := cd.args[0], cd.args[1]
	if stripCT(x).op == OpParam {
		x, y = y, x
	}
	if y = stripConv(y); y.op != OpParam || !isInteger(y.typ) {
		return false
	}
	e := a.elem(stripConv(x))
	return e.base == o && e.lo.equal(K)
}

// cellVector: the vector advanced in the loop, for the list.
func (a *alg) cellVector(l *Loop, list string) *Value {
	var out, other *Value
	a.fl.each(func(v *Value) {
		if !l.blocks[v.blk] {
			return
		}
		if prim(v, "increment") {
			if a.key(v.args[0]) == list {
				out = v.args[1]
			}
			other = v.args[1]
		}
		if prim(v, "Outcomes") {
			k := a.key(v.args[0])
			if k == list || k+".variables" == list {
				out = v.args[2]
			}
		}
	})
	if out == nil {
		return other
	}
	return out
}

// opCombine: Product, Sum.
func (a *alg) opCombine() {
	fs := a.param("[]*" + modPath + "/ve.Factor")
	if fs == nil {
		for _, p := range a.fl.params {
			if isSliceT(p.typ) {
				fs = p
			}
		}
	}
	if fs == nil {
		a.und("parameters", nil)
		return
	}
	tok, neutral, word := token.MUL, 1.0, "multiplied"
	if a.name == "Sum" {
		tok, neutral, word = token.ADD, 0, "added"
	}
	nf := polyAtom("len(" + fs.name + ")")
	a.firstFound()
	for _, cr := range a.sources() {
		if !prim(cr, "CreateFactor") {
			a.und("result", cr)
			continue
		}
		if cp := a.copyOf(cr.args[2]); cp != "" {
			// shortcut: a copy of one factor
			if cp != fs.name+"[0].data" || a.key(cr.args[1]) != fs.name+"[0].variables" {
				a.bad("shortcut", "copy", cr, "the shortcut does not copy the only factor")
				continue
			}
			if !a.onlyOne(cr, nf) {
				a.bad("shortcut", "copy", cr, "the first factor is returned although there can be others")
				continue
			}
			a.c.ok("shortcut", a.name+" of one factor")
			continue
		}
		if !isNilConst(cr.args[2]) && stripCT(cr.args[2]).op != OpMakeSlice {
			a.und("table of the result", cr)
			continue
		}
		sites := a.sites(cr)
		if len(sites) != 1 || sites[0].add || sites[0].pos == nil {
			a.und("writes of the result", cr)
			continue
		}
		s := sites[0]
		ml := innermost(a.loops, s.at.blk)
		if ml == nil {
			a.und("loop over the cells", s.at)
			continue
		}
		ct, ok := a.counterOf(ml)
		if !ok {
			a.und("loop over the cells", s.at)
			continue
		}
		k := a.key(cr)
		tables := map[string]bool{k + ".data": true}
		lists := map[string]bool{k + ".variables": true, a.key(cr.args[1]): true}
		if !a.p(s.pos).equal(a.p(ct.iv.cur)) {
			a.bad("value", "cells", s.at, "the value is not written to the current cell")
			continue
		}
		a.covers(ml, ct, tables, "cells")
		nvec := a.cellVector(ml, k+".variables")
		if nvec == nil {
			a.und("index vector of the result", s.at)
			continue
		}
		a.lockstep(ml, ct, nvec, lists, "index vector")
		if g := a.realGuards(ml, s.at.blk); len(g) > 0 {
			a.bad("every-cell", "cells", g[0].cond, "whether a cell is written depends on a condition")
		} else {
			a.c.ok("every-cell", a.name)
		}
		acc := stripCT(s.val)
		if acc.op != OpPhi {
			if arith(acc) {
				a.bad("value", "cells", s.at, "the combined value is changed before it is stored")
			} else {
				a.und("combined value", s.at)
			}
			continue
		}
		var il *Loop
		for _, l := range a.loops {
			if l.head == acc.blk {
				il = l
			}
		}
		if il == nil || !ml.blocks[il.head] {
			// the value is merged with something else after the loop
			hasAcc := false
			for _, x := range acc.args {
				x = stripCT(x)
				if x.op == OpPhi {
					for _, l := range a.loops {
						if l.head == x.blk && ml.blocks[l.head] {
							hasAcc = true
						}
					}
				}
			}
			if hasAcc {
				a.bad("value", "cells", s.at, "the combined value is replaced in some cases")
			} else {
				a.und("combined value", s.at)
			}
			continue
		}
		ic, ok := a.counterOf(il)
		if !ok || !ic.hi.equal(nf) && !ic.hi.mentions(nf) {
			a.und("loop over the factors", acc)
			continue
		}
		if !ic.hi.equal(nf) || len(ic.lo) != 0 {
			if !onlyConst(ic.lo) || !onlyConst(ic.hi.add(nf, -1)) {
				a.und("loop over the factors", acc)
				continue
			}
			a.bad("all-factors", "factors", ic.iv.cond, "the loop over the factors runs from "+ic.lo.String()+" to "+ic.hi.String())
			continue
		}
		if x := earlyExit(il, ic.iv); x != nil {
			a.bad("all-factors", "factors", x, "the loop over the factors can end before the last factor")
		}
		var init *Value
		var next []*Value
		for i, p := range il.head.preds {
			if i >= len(acc.args) {
				continue
			}
			if il.blocks[p] {
				next = append(next, leaves(acc.args[i], il)...)
			} else {
				init = acc.args[i]
			}
		}
		if fv, isc := constFloat(init); !isc {
			a.und("start value", acc)
			continue
		} else if fv != neutral {
			a.bad("combine", "start value", acc, fmt.Sprintf("the values start at %v", fv))
			continue
		}
		good := true
		var get *Value
		for _, nx := range next {
			if nx == acc {
				a.bad("all-factors", "factors", acc, "in some cases a factor's value is left out")
				good = false
				continue
			}
			x, y, ok := bin2(nx, tok)
			if !ok {
				if nx.op == OpBin || nx.op == OpConst {
					a.bad("combine", "operator", nx, "the values are not "+word)
				} else {
					a.und("combination", nx)
				}
				good = false
				continue
			}
			if y == acc {
				x, y = y, x
			}
			if x != acc {
				mixed := false
				for _, z := range []*Value{x, y} {
					for _, lf := range leaves(z, il) {
						if lf == acc && stripCT(z) != acc {
							mixed = true
						}
					}
				}
				if mixed {
					a.bad("combine", "operator", nx, "in some cases the values combined so far are replaced")
				} else {
					a.und("combination", nx)
				}
				good = false
				continue
			}
			if !prim(y, "Get") {
				if arith(y) {
					a.bad("combine", "operator", nx, "the values of the factors are changed before they are combined")
				} else {
					a.und("combined value", nx)
				}
				good = false
				continue
			}
			get = y
		}
		if !good || get == nil {
			continue
		}
		a.c.ok("combine", a.name)
		cur := a.p(ic.iv.cur)
		fk := fs.name + "[" + cur.String() + "]"
		if a.key(get.args[0]) != fk {
			a.bad("all-factors", "factors", get, "the value is taken from another factor than the one of the round")
			continue
		}
		a.c.ok("all-factors", a.name)
		a.transfer(get.args[1], get, fk+".variables", ic, nvec, cr, "operand cell")
	}
}

// leaves of the phis inside a loop.
func leaves(v *Value, l *Loop) []*Value {
	var out []*Value
	seen := map[*Value]bool{}
	var walk func(v *Value)
	walk = func(v *Value) {
		v = stripCT(v)
		if seen[v] {
			return
		}
		seen[v] = true
		if v.op == OpPhi && l.blocks[v.blk] && v.blk != l.head {
			for _, x := range v.args {
				walk(x)
			}
			return
		}
		out = append(out, v)
	}
	walk(v)
	return out
}

func (a *alg) onlyOne(cr *Value, n Poly) bool {
	for _, g := range domConds(cr.blk, nil) {
		cd, taken := g.cond, g.taken
		for cd.op == OpUn && cd.tok == token.NOT {
			cd, taken = cd.args[0], !taken
		}
		if cd.op != OpBin || !isInteger(cd.args[0].typ) {
			continue
		}
		tok := cd.tok
		if !taken {
			tok = negTok(tok)
		}
		d := a.p(cd.args[0]).add(a.p(cd.args[1]), -1)
		// normalise to n + c tok 0
		if d.add(n, 1).mentions(n) && !d.add(n, -1).mentions(n) {
			// d = n + c
		} else {
			d = Poly{}.add(d, -1)
			tok = swapTok(tok)
		}
		c := d.add(n, -1)
		if !onlyConst(c) {
			continue
		}
		k := c[""]
		switch {
		case tok == token.EQL && k == -1, tok == token.LSS && k == -2, tok == token.LEQ && k == -1:
			return true
		}
	}
	return false
}

// transfer: vector s (for list S) is filled from vector n of the result created by cr.
func (a *alg) transfer(s, use *Value, S string, ic counter, nvec *Value, cr *Value, what string) {
	s = stripCT(s)
	o := a.key(nvec)
	sk := a.key(s)
	var st *Value
	cnt := 0
	a.fl.each(func(v *Value) {
		if v.op == OpStore && v.args[0].op == OpIndexAddr && a.key(v.args[0].args[0]) == sk {
			st = v
			cnt++
		}
	})
	if cnt != 1 {
		a.und("index vector of an operand", use)
		return
	}
	kl := innermost(a.loops, st.blk)
	if kl == nil || kl.blocks[use.blk] {
		a.und("loop over the index vector", st)
		return
	}
	kc, ok := a.counterOf(kl)
	if !ok || len(kc.lo) != 0 {
		if ok && onlyConst(kc.lo) {
			a.bad("index-map", what, st, "the first outcome index is not set")
		} else {
			a.und("loop over the index vector", st)
		}
		return
	}
	if x := earlyExit(kl, kc.iv); x != nil {
		a.bad("index-map", what, x, "not all outcome indices are set")
		return
	}
	if g := a.realGuards(kl, st.blk); len(g) > 0 {
		a.bad("index-map", what, g[0].cond, "in some cases an outcome index is not set")
		return
	}
	cur := a.p(kc.iv.cur)
	di, sv := st.args[0].args[1], stripConv(st.args[1])
	if sv.op != OpLoad || sv.args[0].op != OpIndexAddr || a.key(sv.args[0].args[0]) != o {
		if arith(sv) || sv.op == OpConst {
			a.bad("index-map", what, st, "an outcome index is changed on the way")
		} else {
			a.und("source of an outcome index", st)
		}
		return
	}
	si := sv.args[0].args[1]
	N := a.listName(cr.args[1])
	gather := a.p(di).equal(cur)
	scatter := a.p(si).equal(cur)
	var m *Value
	switch {
	case gather && scatter:
		a.bad("index-map", what, st, "outcome indices are taken over by position, not by variable")
		return
	case gather:
		m = stripConv(si)
	case scatter:
		m = stripConv(di)
	default:
		a.und("mapping of outcome indices", st)
		return
	}
	// m is element cur of a map
	if m.op != OpLoad || m.args[0].op != OpIndexAddr || !a.p(m.args[0].args[1]).equal(cur) {
		a.und("mapping of outcome indices", st)
		return
	}
	list, elem, mlen, ok := a.mapping(m.args[0].args[0], ic)
	if !ok {
		a.und("mapping of outcome indices", m)
		return
	}
	if gather {
		// m[k] must be the position in N of S[k]
		if list != N || elem != S+"[$]" {
			a.bad("index-map", what, st, fmt.Sprintf("position %s of %s is filled from the position of %s in %s", "k", S, elem, list))
			return
		}
	} else {
		if list != S || elem != N+"[$]" {
			a.bad("index-map", what, st, fmt.Sprintf("the outcome of %s[k] goes to the position of %s in %s", N, elem, list))
			return
		}
	}
	if mlen != nil && !kc.hi.equal(mlen) && kc.hi.mentions(mlen) && onlyConst(kc.hi.add(mlen, -1)) {
		a.bad("index-map", what, kc.iv.cond, "not all outcome indices are set")
		return
	}
	a.c.ok("index-map", a.name+" "+what+": by variable")
}

// listName: name of a list; lists built by appending get the name of their web of phis.
func (a *alg) listName(v *Value) string {
	v = stripCT(v)
	w := a.web(v)
	if w != "" {
		return w
	}
	return a.key(v)
}

func (a *alg) web(v *Value) string {
	v = stripCT(v)
	if v.op != OpPhi && !(v.op == OpBuiltin && v.name == "append") {
		return ""
	}
	min := -1
	seen := map[*Value]bool{}
	var walk func(x *Value)
	walk = func(x *Value) {
		x = stripCT(x)
		if seen[x] {
			return
		}
		seen[x] = true
		switch {
		case x.op == OpPhi:
			if min < 0 || x.id < min {
				min = x.id
			}
			for _, y := range x.args {
				walk(y)
			}
		case x.op == OpBuiltin && x.name == "append":
			walk(x.args[0])
		}
	}
	walk(v)
	if min < 0 {
		return ""
	}
	return fmt.Sprintf("W%d", min)
}

// mapping: m[$] is the position in list of elem.
func (a *alg) mapping(m *Value, ic counter) (list, elem string, n Poly, ok bool) {
	m = stripCT(m)
	outer := ""
	if m.op == OpLoad && m.args[0].op == OpIndexAddr {
		// a map per factor
		if !a.p(m.args[0].args[1]).equal(a.p(ic.iv.cur)) {
			return
		}
		val, ct, ok1 := a.pointwise(m.args[0].args[0])
		if !ok1 {
			return
		}
		outer = a.p(ct.iv.cur).String()
		m = stripCT(val)
	}
	val, ct, ok1 := a.pointwise(m)
	if !ok1 {
		return
	}
	in := a.p(ct.iv.cur).String()
	fix := func(s string) string {
		s = strings.ReplaceAll(s, "["+in+"]", "[$]")
		if outer != "" {
			s = strings.ReplaceAll(s, "["+outer+"]", "["+a.p(ic.iv.cur).String()+"]")
		}
		return s
	}
	n = ct.hi
	val = stripConv(val)
	// plain position
	pos := func(v *Value) (string, string, bool) {
		v = stripConv(v)
		if v.op == OpCall && len(v.args) == 2 {
			if strings.HasPrefix(v.name, "slices.IndexFunc") {
				if k, ok := a.eqClosure(v.args[1]); ok {
					return a.listName(v.args[0]), fix(k), true
				}
				return "", "", false
			}
			if strings.HasPrefix(v.name, "slices.Index") {
				return a.listName(v.args[0]), fix(a.elemKey(v.args[1])), true
			}
		}
		return "", "", false
	}
	if l, e, ok := pos(val); ok {
		return l, e, n, true
	}
	if val.op == OpPhi {
		// position if found, else the length, and the element is appended
		var l, e string
		for i, x := range val.args {
			x = stripConv(x)
			if ll, ee, ok := pos(x); ok {
				if l != "" && (l != ll || e != ee) {
					return "", "", nil, false
				}
				l, e = ll, ee
				continue
			}
			// the edge on which the element is appended
			if i >= len(val.blk.preds) {
				return "", "", nil, false
			}
			okk := false
			for _, g := range val.blk.instrs {
				if g.op != OpPhi {
					break
				}
				y := stripCT(g.args[i])
				if y.op == OpBuiltin && y.name == "append" {
					q, oks := a.seq(y.args[1])
					if !oks || len(q) != 1 {
						continue
					}
					at := a.lenOf(y.args[0])
					if a.p(x).equal(at) || a.p(x).equal(a.lenOf(y).add(polyConst(1), -1)) {
						okk = true
						ee := fix(strings.TrimPrefix(q[0].base, "="))
						if q[0].base[0] != '=' {
							ee = fix(q[0].base + "[" + q[0].lo.String() + "]")
						}
						if e != "" && ee != e {
							return a.web(y), ee, n, true
						}
						e = ee
					}
				}
			}
			if !okk {
				return "", "", nil, false
			}
		}
		if l != "" && e != "" {
			return l, e, n, true
		}
	}
	if k, ok := a.posOf(val); ok && strings.HasPrefix(k, "K(") {
		i := strings.LastIndex(k, ",")
		return k[2:i], fix(k[i+1 : len(k)-1]), n, true
	}
	return "", "", nil, false
}

// pointwise: s[cur] = val for all positions of the counter, from 0, unconditionally.
func (a *alg) pointwise(s *Value) (*Value, counter, bool) {
	s = stripCT(s)
	// appended in a loop
	if s.op == OpPhi {
		for _, l := range a.loops {
			if l.head != s.blk {
				continue
			}
			ct, ok := a.counterOf(l)
			if !ok || len(ct.lo) != 0 || ct.iv.step != 1 || earlyExit(l, ct.iv) != nil {
				return nil, counter{}, false
			}
			for i, p := range l.head.preds {
				x := stripCT(s.args[i])
				if !l.blocks[p] {
					if !isEmptySlice(x, 0) {
						return nil, counter{}, false
					}
					continue
				}
				if x.op != OpBuiltin || x.name != "append" || stripCT(x.args[0]) != s {
					return nil, counter{}, false
				}
				el := appended(x)
				if len(el) != 1 {
					return nil, counter{}, false
				}
				return el[0], ct, true
			}
		}
		return nil, counter{}, false
	}
	k := a.key(s)
	var st *Value
	n := 0
	a.fl.each(func(v *Value) {
		if v.op == OpStore && v.args[0].op == OpIndexAddr && a.key(v.args[0].args[0]) == k {
			st = v
			n++
		}
	})
	if n != 1 {
		return nil, counter{}, false
	}
	l := innermost(a.loops, st.blk)
	if l == nil {
		return nil, counter{}, false
	}
	ct, ok := a.counterOf(l)
	if !ok || len(ct.lo) != 0 || earlyExit(l, ct.iv) != nil || len(a.realGuards(l, st.blk)) > 0 {
		return nil, counter{}, false
	}
	if !a.p(st.args[0].args[1]).equal(a.p(ct.iv.cur)) {
		return nil, counter{}, false
	}
	return st.args[1], ct, true
}

// appended: the single elements of an append.
func appended(ap *Value) []*Value {
	var out []*Value
	s := stripCT(ap.args[1])
	if s.op != OpSlice || s.args[0].op != OpAlloc {
		return nil
	}
	for _, u := range s.args[0].uses {
		if u.op != OpIndexAddr {
			continue
		}
		for _, st := range u.uses {
			if st.op == OpStore && st.args[0] == u {
				out = append(out, st.args[1])
			}
		}
	}
	return out
}

// opRearrange
func (a *alg) opRearrange() {
	f := a.param("ve.Factor")
	var vs *Value
	for _, p := range a.fl.params {
		if isSliceT(p.typ) {
			vs = p
		}
	}
	if f == nil || vs == nil {
		a.und("parameters", nil)
		return
	}
	for _, cr := range a.sources() {
		if !prim(cr, "CreateFactor") {
			a.und("result", cr)
			continue
		}
		if cp := a.copyOf(cr.args[2]); cp != "" {
			if cp != f.name+".data" {
				a.und("copied table", cr)
				continue
			}
			a.sameOrder(cr, f, vs)
			continue
		}
		if a.key(cr.args[1]) != vs.name {
			if q, ok := a.varsOf(cr); !ok || !q.equal(lseq{{vs.name, Poly{}, polyAtom("len(" + vs.name + ")")}}) {
				if ok {
					a.bad("result-variables", "result", cr, "the result does not have the variables asked for: "+q.String())
				} else {
					a.und("variables of the result", cr)
				}
				continue
			}
		}
		a.c.ok("result-variables", a.name)
		sites := a.sites(cr)
		if len(sites) != 1 || sites[0].add || sites[0].pos == nil {
			a.und("writes of the result", cr)
			continue
		}
		s := sites[0]
		ml := innermost(a.loops, s.at.blk)
		if ml == nil {
			a.und("loop over the cells", s.at)
			continue
		}
		ct, ok := a.counterOf(ml)
		if !ok {
			a.und("loop over the cells", s.at)
			continue
		}
		k := a.key(cr)
		if !a.p(s.pos).equal(a.p(ct.iv.cur)) {
			a.und("written cell", s.at)
			continue
		}
		// both tables have the same size
		a.covers(ml, ct, map[string]bool{k + ".data": true, f.name + ".data": true}, "cells")
		nvec := a.cellVector(ml, k+".variables")
		if nvec == nil {
			a.und("index vector", s.at)
			continue
		}
		a.lockstep(ml, ct, nvec, map[string]bool{k + ".variables": true, vs.name: true}, "index vector")
		if g := a.realGuards(ml, s.at.blk); len(g) > 0 {
			a.bad("every-cell", "cells", g[0].cond, "whether a cell is written depends on a condition")
		} else {
			a.c.ok("every-cell", a.name)
		}
		if !prim(s.val, "Get") || a.key(s.val.args[0]) != f.name {
			if arith(s.val) {
				a.bad("value", "cells", s.at, "the value is changed on the way")
			} else {
				a.und("value", s.at)
			}
			continue
		}
		a.c.ok("value", a.name)
		a.transfer(s.val.args[1], s.val, f.name+".variables", counter{iv: ct.iv}, nvec, cr, "operand cell")
	}
}

// sameOrder: the shortcut of Rearrange is taken only if all variables agree in order.
func (a *alg) sameOrder(cr, f, vs *Value) {
	found := false
	for _, g := range domConds(cr.blk, nil) {
		cd, taken := g.cond, g.taken
		for cd.op == OpUn && cd.tok == token.NOT {
			cd, taken = cd.args[0], !taken
		}
		switch cd.op {
		case OpCall:
			if strings.HasPrefix(cd.name, "slices.Equal") && taken {
				found = true
			}
		case OpPhi:
			if taken && isBoolT(cd.typ) {
				r, at := a.allFlag(cd)
				if r == -1 {
					a.bad("shortcut", "copy", at, "the factor is returned unchanged although not all variables were found to agree")
					return
				}
				if r == 1 {
					found = true
				}
			}
		case OpBin:
			// at most one variable
			if a.smallList(cd, taken, f, vs) {
				found = true
			}
		}
	}
	if !found {
		// does the condition look at the variables at all?
		for _, g := range domConds(cr.blk, nil) {
			cd := stripNot(g.cond)
			if cd.op == OpPhi || cd.op == OpCall {
				a.und("condition of the shortcut", cr)
				return
			}
		}
		a.bad("shortcut", "copy", cr, "the factor is returned unchanged without comparing all variables")
		return
	}
	if k := a.key(cr.args[1]); k != f.name+".variables" && k != vs.name {
		a.und("variables of the shortcut", cr)
		return
	}
	a.c.ok("shortcut", a.name+" in the same order")
}

func (a *alg) smallList(cd *Value, taken bool, f, vs *Value) bool {
	for _, k := range []string{f.name + ".variables", vs.name} {
		n := polyAtom("len(" + k + ")")
		x, y := a.p(cd.args[0]), a.p(cd.args[1])
		tok := cd.tok
		if !taken {
			tok = negTok(tok)
		}
		if x.equal(n) && onlyConst(y) {
			c := y[""]
			if tok == token.EQL && c <= 1 || tok == token.LSS && c <= 2 || tok == token.LEQ && c <= 1 {
				return true
			}
		}
	}
	return false
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// allFlag: 1 if the flag is true only if a comparison held in every round, -1 if only some rounds count, 0 unknown.
func (a *alg) allFlag(v *Value) (int, *Value) {
	seen := map[*Value]bool{}
	res := 1
	at := v
	var walk func(x *Value)
	walk = func(x *Value) {
		if seen[x] {
			return
		}
		seen[x] = true
		var l *Loop
		for _, y := range a.loops {
			if y.blocks[x.blk] && (l == nil || len(y.blocks) < len(l.blocks)) {
				l = y
			}
		}
		for i, arg := range x.args {
			switch {
			case arg.op == OpPhi:
				walk(arg)
			case arg.op == OpConst:
				b, _ := constBool(arg)
				back := l != nil && i < len(x.blk.preds) && l.blocks[x.blk.preds[i]]
				if b && back {
					// set to true again within the loop: only if it was true
					ok := false
					for _, g := range domConds(x.blk.preds[i], x.blk) {
						if g.cond.op == OpPhi && g.taken {
							ok = true
						}
					}
					if !ok {
						res, at = -1, x
					}
				}
				if !b && back && i < len(x.blk.preds) {
					// must be the failed comparison of elements
					ok := false
					for _, g := range domConds(x.blk.preds[i], x.blk) {
						if l2, _, _, neg, is := a.eqTest(g.cond); is && l2 != nil && neg == g.taken {
							ok = true
						}
						if g.cond.op == OpPhi && !g.taken {
							ok = true
						}
					}
					if !ok && res == 1 {
						res = 0
					}
				}
			case arg.op == OpBin:
				// flag = comparison: the earlier rounds are lost unless guarded by the flag
				ok := false
				for _, g := range domConds(arg.blk, nil) {
					if g.cond.op == OpPhi && seen[g.cond] && g.taken {
						ok = true
					}
				}
				if l != nil && l.blocks[arg.blk] && !ok {
					res, at = -1, arg
				} else if l == nil {
					res = 0
				}
			default:
				if res == 1 {
					res = 0
				}
			}
		}
	}
	walk(v)
	// the comparison loop covers all positions
	if res == 1 {
		for x := range seen {
			for _, l := range a.loops {
				if l.head != x.blk {
					continue
				}
				ct, ok := a.counterOf(l)
				if !ok {
					return 0, v
				}
				if onlyConst(ct.lo) && len(ct.lo) != 0 {
					return -1, ct.iv.cond
				}
			}
		}
	}
	return res, at
}

// opScale: Normalize, Invert.
func (a *alg) opScale() {
	f := a.param("ve.Factor")
	if f == nil {
		a.und("parameters", nil)
		return
	}
	for _, cr := range a.sources() {
		if !prim(cr, "CreateFactor") {
			a.und("result", cr)
			continue
		}
		if a.key(cr.args[1]) != f.name+".variables" {
			a.und("variables of the result", cr)
			continue
		}
		a.c.ok("result-variables", a.name)
		k := a.key(cr)
		tables := map[string]bool{k + ".data": true, f.name + ".data": true, a.key(cr.args[2]): true}
		sites := a.sites(cr)
		if len(sites) != 1 || sites[0].pos == nil {
			a.und("writes of the result", cr)
			continue
		}
		s := sites[0]
		ml := innermost(a.loops, s.at.blk)
		if ml == nil {
			a.und("loop over the cells", s.at)
			continue
		}
		ct, ok := a.counterOf(ml)
		if !ok {
			a.und("loop over the cells", s.at)
			continue
		}
		a.covers(ml, ct, tables, "cells")
		if !a.p(s.pos).equal(a.p(ct.iv.cur)) {
			a.bad("value", "cells", s.at, "the value is not written to the current cell")
			continue
		}
		if g := a.realGuards(ml, s.at.blk); len(g) > 0 {
			a.bad("every-cell", "cells", g[0].cond, "whether a cell is changed depends on a condition")
		} else {
			a.c.ok("every-cell", a.name)
		}
		x, y, ok := bin2(s.val, token.QUO)
		if !ok {
			if s.val.op == OpBin {
				a.und("operator", s.at)
			} else {
				a.und("value", s.at)
			}
			continue
		}
		if a.name == "Invert" {
			fv, isc := constFloat(x)
			if !isc || a.isCell(y, tables, ct.iv.cur) != 1 {
				a.bad("value", "cells", s.at, "the new value is not the inverse of the cell")
				continue
			}
			if fv != 1 {
				a.bad("value", "cells", s.at, "the dividend is not 1")
				continue
			}
			a.c.ok("value", a.name)
			continue
		}
		if a.isCell(x, tables, ct.iv.cur) != 1 {
			a.bad("value", "cells", s.at, "the new value is not a share of the cell itself")
			continue
		}
		a.sumOf(y, nil, Poly{}, tables, s)
	}
}

// sumOf: y is the sum of all cells (row nil), or of the cells row·n + 0..n-1.
func (a *alg) sumOf(y *Value, within *Loop, base Poly, tables map[string]bool, s csite) *counter {
	y = stripCT(y)
	if y.op != OpPhi {
		if arith(y) {
			a.bad("divisor", "sum", s.at, "the divisor is not the plain sum")
		} else {
			a.und("divisor", s.at)
		}
		return nil
	}
	var sl *Loop
	for _, l := range a.loops {
		if l.head == y.blk {
			sl = l
		}
	}
	if sl == nil {
		// merged with something else
		for i, x := range y.args {
			if x.op != OpConst {
				continue
			}
			if one, isc := constFloat(x); isc && one == 1 && within != nil && len(y.args) == 2 && i < len(y.blk.preds) && isZeroOn(y.blk.preds[i], y.blk, y.args[1-i]) {
				// a row of zeros divided by one
				a.und("divisor", s.at)
				return nil
			}
			a.bad("divisor", "sum", s.at, "the divisor is replaced in some cases")
			return nil
		}
		a.und("divisor", s.at)
		return nil
	}
	ct, ok := a.counterOf(sl)
	if !ok {
		a.und("loop of the sum", y)
		return nil
	}
	if within == nil {
		if !a.covers(sl, ct, tables, "sum") {
			return nil
		}
	} else if x := earlyExit(sl, ct.iv); x != nil {
		a.bad("divisor", "sum", x, "the sum can end before the last cell")
		return nil
	}
	for i, p := range sl.head.preds {
		if i >= len(y.args) {
			continue
		}
		if !sl.blocks[p] {
			fv, isc := constFloat(y.args[i])
			if !isc {
				if within != nil && stripCT(y.args[i]).op == OpPhi {
					a.bad("divisor", "sum", y, "the sum is not started again for each row")
				} else {
					a.und("start of the sum", y)
				}
				return nil
			}
			if fv != 0 {
				a.bad("divisor", "sum", y, fmt.Sprintf("the sum starts at %v", fv))
				return nil
			}
			continue
		}
		for _, nx := range leaves(y.args[i], sl) {
			if nx == y {
				a.bad("divisor", "sum", y, "some cells are left out of the sum")
				return nil
			}
			x, z, ok := bin2(nx, token.ADD)
			if !ok {
				if nx.op == OpBin {
					a.bad("divisor", "sum", nx, "the cells are not added up")
				} else {
					a.und("sum", nx)
				}
				return nil
			}
			if z == y {
				x, z = z, x
			}
			if x != y {
				a.und("sum", nx)
				return nil
			}
			z = stripCT(z)
			if z.op != OpLoad || z.args[0].op != OpIndexAddr {
				if arith(z) || z.op == OpCall {
					a.bad("divisor", "sum", nx, "the cells are changed before they are added up")
				} else {
					a.und("added value", nx)
				}
				return nil
			}
			if within == nil {
				if a.isCell(z, tables, ct.iv.cur) != 1 {
					a.und("added cell", nx)
					return nil
				}
			} else {
				tb, ix := a.flatCell(z.args[0])
				if !tables[tb] {
					a.und("added cell", nx)
					return nil
				}
				want := base.add(a.p(ct.iv.cur), 1)
				if !ix.equal(want) {
					a.bad("divisor", "sum", nx, "cell "+ix.String()+" is added up, not "+want.String())
					return nil
				}
			}
		}
	}
	a.c.ok("divisor", a.name)
	return &ct
}

// flatCell: table and position of an element, through windows.
func (a *alg) flatCell(addr *Value) (string, Poly) {
	p := a.p(addr.args[1])
	b := stripCT(addr.args[0])
	for b.op == OpSlice {
		if b.args[1] != nil {
			p = p.add(a.p(b.args[1]), 1)
		}
		b = stripCT(b.args[0])
	}
	return a.key(b), p
}

// opRows: NormalizeFor.
func (a *alg) opRows() {
	f, vr := a.param("ve.Factor"), a.param("ve.Variable")
	if f == nil || vr == nil {
		a.und("parameters", nil)
		return
	}
	L := f.name + ".variables"
	n := polyAtom("len(" + L + ")")
	K := polyAtom(posName(L, vr.name))
	one := polyConst(1)
	want := lseq{{L, Poly{}, K}, {L, K.add(one, 1), n}, {L, K, K.add(one, 1)}}
	for _, cr := range a.sources() {
		if !(cr.op == OpCall && cr.fn != nil && cr.fn.Name() == "Rearrange") || a.key(cr.args[1]) != f.name {
			a.und("result", cr)
			continue
		}
		var q lseq
		v := stripCT(cr.args[2])
		ok := false
		if v.op == OpMakeSlice {
			q, ok = a.varsOf(&Value{op: OpCall, args: []*Value{nil, v}, blk: cr.blk, id: cr.id})
			if !ok {
				var gap string
				q, gap, ok = a.vecSeq(v, cr)
				if ok && gap != "" {
					a.bad("result-variables", "result", cr, gap)
					continue
				}
			}
		} else {
			q, ok = a.seq(v)
		}
		if !ok {
			a.und("variables of the result", cr)
			continue
		}
		for i := range q {
			if q[i].base == "="+vr.name {
				q[i] = lseg{L, K, K.add(one, 1)}
			}
		}
		if !q.equal(want) {
			a.bad("result-variables", "result", cr, fmt.Sprintf("the variables are arranged as %s, not %s", q, want))
			continue
		}
		a.c.ok("result-variables", a.name)
		k := a.key(cr)
		tables := map[string]bool{k + ".data": true}
		var st *Value
		cnt := 0
		a.fl.each(func(v *Value) {
			if v.op == OpStore && v.args[0].op == OpIndexAddr {
				if t, _ := a.flatCell(v.args[0]); tables[t] {
					st = v
					cnt++
				}
			}
		})
		if cnt != 1 {
			a.und("writes of the result", cr)
			continue
		}
		jl := innermost(a.loops, st.blk)
		var il *Loop
		for _, l := range a.loops {
			if l != jl && l.blocks[st.blk] {
				il = l
			}
		}
		if jl == nil || il == nil {
			a.und("loops over rows and cells", st)
			continue
		}
		jc, ok1 := a.counterOf(jl)
		ic, ok2 := a.counterOf(il)
		if !ok1 || !ok2 {
			a.und("loops over rows and cells", st)
			continue
		}
		_, ix := a.flatCell(st.args[0])
		cols := jc.hi
		rows := polyAtom("(len(" + k + ".data))/(" + strings.ReplaceAll(cols.String(), "·", "×") + ")")
		base := a.p(ic.iv.cur).mul(cols)
		// step by row: base may be a counter itself
		if ic.iv.step == 1 && !ic.hi.equal(rows) || ic.iv.step != 1 {
			a.und("rows", ic.iv.cond)
			continue
		}
		outs := map[string]bool{"<" + vr.name + ".outcomes>": true, "<" + L + "[" + K.String() + "].outcomes>": true}
		if s := atomOnly(cols); s == "" || !outs[s] {
			a.und("cells of a row: "+cols.String(), jc.iv.cond)
			continue
		}
		if len(jc.lo) != 0 || len(ic.lo) != 0 {
			a.bad("all-cells", "rows", ic.iv.cond, "the loops over rows and cells do not start at 0")
			continue
		}
		for _, x := range []struct {
			l  *Loop
			iv *IndVar
		}{{jl, jc.iv}, {il, ic.iv}} {
			if e := earlyExit(x.l, x.iv); e != nil {
				a.bad("all-cells", "rows", e, "the loop can end before the last row or cell")
			}
		}
		a.c.ok("all-cells", a.name)
		if !ix.equal(base.add(a.p(jc.iv.cur), 1)) {
			a.bad("value", "cells", st, "cell "+ix.String()+" is written")
			continue
		}
		x, y, okq := bin2(st.args[1], token.QUO)
		if !okq {
			a.und("operator", st)
			continue
		}
		if x = stripCT(x); x.op != OpLoad || x.args[0].op != OpIndexAddr {
			a.bad("value", "cells", st, "the new value is not a share of the cell itself")
			continue
		}
		if t, p := a.flatCell(x.args[0]); !tables[t] || !p.equal(ix) {
			a.bad("value", "cells", st, "the new value is not a share of the cell itself")
			continue
		}
		a.c.ok("value", a.name)
		sc := a.sumOf(y, il, base, tables, csite{at: st})
		if sc != nil {
			if len(sc.lo) != 0 || !sc.hi.equal(cols) {
				if onlyConst(sc.lo) && (sc.hi.equal(cols) || onlyConst(sc.hi.add(cols, -1))) {
					a.bad("divisor", "sum", sc.iv.cond, "the sum runs over the cells "+sc.lo.String()+" to "+sc.hi.String()+" of the row")
				} else {
					a.und("cells of the sum", sc.iv.cond)
				}
			}
		}
		kept := false
		for _, g := range a.realGuards(il, st.blk) {
			cell := zeroTest(g.cond, x)
			if zeroTest(g.cond, y) || cell {
				cd, taken := g.cond, g.taken
				for cd.op == OpUn && cd.tok == token.NOT {
					cd, taken = cd.args[0], !taken
				}
				if taken == (cd.tok == token.EQL) {
					a.bad("every-cell", "cells", g.cond, "only rows or cells of zeros are normalized")
				}
				kept = true
				continue
			}
			a.bad("every-cell", "cells", g.cond, "whether a row is normalized depends on another condition")
		}
		if !kept && sc != nil {
			a.bad("every-cell", "zero rows", st, "a row of zeros is divided by its sum")
		}
		a.c.ok("every-cell", a.name)
	}
}

// firstFound: a variable found at the first position is found.
func (a *alg) firstFound() {
	a.fl.each(func(v *Value) {
		if v.op != OpBin || len(v.args) != 2 {
			return
		}
		for i, x := range v.args {
			x = stripConv(x)
			n, isc := constInt(v.args[1-i])
			if !isc || x.op != OpCall || !strings.HasPrefix(x.name, "slices.Index") || len(x.args) != 2 {
				continue
			}
			at := func(p int64) (bool, bool) {
				l, r := p, n
				if i == 1 {
					l, r = n, p
				}
				switch v.tok {
				case token.LSS:
					return l < r, true
				case token.LEQ:
					return l <= r, true
				case token.GTR:
					return l > r, true
				case token.GEQ:
					return l >= r, true
				case token.EQL:
					return l == r, true
				case token.NEQ:
					return l != r, true
				}
				return false, false
			}
			none, ok := at(-1)
			if !ok {
				continue
			}
			f0, _ := at(0)
			f1, _ := at(1)
			f9, _ := at(9)
			if f0 == none && f1 != none && f9 != none {
				a.bad("result-variables", "union", v, "a variable found at the first position is treated as not found")
			}
		}
	})
}

// isZeroOn: on an edge, v is known to be zero.
func isZeroOn(p, b *Block, v *Value) bool {
	for _, g := range domConds(p, b) {
		c := stripCT(g.cond)
		if c.op != OpBin || c.tok != token.EQL && c.tok != token.NEQ || (c.tok == token.EQL) != g.taken {
			continue
		}
		for i, x := range c.args {
			if z, isc := constFloat(c.args[1-i]); isc && z == 0 && stripCT(x) == stripCT(v) {
				return true
			}
		}
	}
	return false
}
