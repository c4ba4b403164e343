package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isPrimitive: cell access of factors, whose meaning C15 decides.
func isPrimitive(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil || fn.Pkg == nil || fn.Pkg.Pkg.Name() != "ve" {
		return false
	}
	switch fn.Name() {
	case "Index", "IndexWithNoData", "Outcomes", "increment", "RowIndex", "Get", "Set", "Row", "CreateFactor":
		return true
	}
	return false
}

// lseg: a segment base[lo..hi) of a list; base "#" is a single number lo, base "=x" the single value x.
type lseg struct {
	base   string
	lo, hi Poly
}

func (s lseg) String() string {
	if s.base == "#" {
		return "#" + s.lo.String()
	}
	if strings.HasPrefix(s.base, "=") {
		return s.base[1:]
	}
	return fmt.Sprintf("%s[%s..%s)", s.base, s.lo, s.hi)
}

func (s lseg) length() Poly {
	if s.base == "#" || strings.HasPrefix(s.base, "=") {
		return polyConst(1)
	}
	return s.hi.add(s.lo, -1)
}

type lseq []lseg

func (q lseq) length() Poly {
	p := Poly{}
	for _, s := range q {
		p = p.add(s.length(), 1)
	}
	return p
}

func (q lseq) String() string {
	var out []string
	for _, s := range q {
		out = append(out, s.String())
	}
	return strings.Join(out, " ++ ")
}

// norm merges adjacent segments and drops empty ones.
func (q lseq) norm() lseq {
	var out lseq
	for _, s := range q {
		if len(s.length()) == 0 {
			continue
		}
		if n := len(out); n > 0 && out[n-1].base == s.base && s.base != "#" && s.base[0] != '=' && out[n-1].hi.equal(s.lo) {
			out[n-1].hi = s.hi
			continue
		}
		out = append(out, s)
	}
	return out
}

func (q lseq) equal(r lseq) bool {
	q, r = q.norm(), r.norm()
	if len(q) != len(r) {
		return false
	}
	for i := range q {
		if q[i].base != r[i].base || !q[i].lo.equal(r[i].lo) || (q[i].base != "#" && !q[i].length().equal(r[i].length())) {
			return false
		}
	}
	return true
}

func (q lseq) subst(from, to string) lseq {
	var out lseq
	for _, s := range q {
		if s.base == from {
			s.base = to
		}
		out = append(out, s)
	}
	return out
}

// part of the list [a,b); false if the bounds cannot be located.
func (q lseq) part(a, b Poly) (lseq, bool) {
	pos := Poly{}
	var out lseq
	in := false
	for _, s := range q.norm() {
		l := s.length()
		end := pos.add(l, 1)
		if !in && pos.equal(a) {
			in = true
		}
		if in {
			if pos.equal(b) {
				return out, true
			}
			out = append(out, s)
			if end.equal(b) {
				return out, true
			}
		} else if len(q.norm()) == 1 && s.base != "#" && s.base[0] != '=' {
			// one segment: the bounds lie inside
			return lseq{{s.base, s.lo.add(a, 1), s.lo.add(b, 1)}}, true
		}
		pos = end
	}
	if in && pos.equal(b) {
		return out, true
	}
	return nil, false
}

type alg struct {
	c     *Ctx
	fl    *Flat
	name  string
	loops []*Loop
	busy  map[*Value]bool
	ren   map[string]string // renaming of loop counters in names
	fresh map[*Value]string
}

func (a *alg) wh(v *Value) string { return a.fl.where(v) }

func (a *alg) bad(rule, what string, at *Value, msg string) {
	a.c.fail(rule, a.name+" "+what, a.fl.where(at), msg, a.fl.chain(at))
}

func prim(v *Value, name string) bool {
	return v != nil && v.op == OpCall && strings.HasPrefix(v.name, "@") && v.fn != nil && v.fn.Name() == name
}

// singleStore: the value stored as a whole into a local.
func singleStore(al *Value) *Value {
	var out *Value
	for _, u := range al.uses {
		if u.op == OpStore && u.args[0] == al {
			if out != nil {
				return nil
			}
			out = u.args[1]
		}
	}
	return out
}

// key: canonical name of an object (factor, list, table).
func (a *alg) key(v *Value) string { return a.keyD(v, 0) }

func (a *alg) keyD(v *Value, d int) string {
	v = stripCT(v)
	if v == nil {
		return "nil"
	}
	if d > 12 {
		return valAtom(v)
	}
	switch v.op {
	case OpParam:
		return v.name
	case OpAlloc:
		if s := singleStore(v); s != nil {
			return a.keyD(s, d+1)
		}
	case OpLoad:
		x := v.args[0]
		if x.op == OpAlloc {
			return a.keyD(x, d+1)
		}
		return a.keyD(x, d+1)
	case OpFieldAddr, OpField:
		return a.keyD(v.args[0], d+1) + "." + fieldName(v)
	case OpIndexAddr, OpIndex:
		return a.keyD(v.args[0], d+1) + "[" + strings.ReplaceAll(a.p(v.args[1]).String(), "·", "×") + "]"
	case OpSlice:
		if v.args[1] == nil && v.args[2] == nil {
			return a.keyD(v.args[0], d+1)
		}
	case OpPhi:
		// the same object on all edges
		k := ""
		for _, x := range v.args {
			if x == v {
				continue
			}
			if a.busy[v] {
				return valAtom(v)
			}
			a.busy[v] = true
			kk := a.keyD(x, d+1)
			delete(a.busy, v)
			if k != "" && k != kk {
				return valAtom(v)
			}
			k = kk
		}
		if k != "" {
			return k
		}
	}
	return valAtom(v)
}

// sameCond: equality test of a list element with a variable: list, index value, variable key.
func (a *alg) eqTest(cd *Value) (list *Value, idx *Value, vr string, neg, ok bool) {
	for cd.op == OpUn && cd.tok == token.NOT {
		cd = cd.args[0]
		neg = !neg
	}
	if cd.op != OpBin || (cd.tok != token.EQL && cd.tok != token.NEQ) {
		return
	}
	if cd.tok == token.NEQ {
		neg = !neg
	}
	side := func(v *Value) (*Value, *Value, string) { // element of a list, or other key; with the field name
		f := ""
		x := stripCT(v)
		if x.op == OpLoad {
			x = x.args[0]
		}
		if x.op == OpFieldAddr || x.op == OpField {
			f = fieldName(x)
			x = x.args[0]
			if x.op == OpLoad {
				x = x.args[0]
			}
		}
		if x.op == OpIndexAddr || x.op == OpIndex {
			return x.args[0], x.args[1], f
		}
		return nil, x, f
	}
	l0, i0, f0 := side(cd.args[0])
	l1, i1, f1 := side(cd.args[1])
	if f0 != f1 || (f0 != "" && f0 != "id" && f0 != "index") {
		return
	}
	if l0 == nil && l1 != nil {
		l0, i0, l1, i1 = l1, i1, l0, i0
		f0 = f1
	}
	if l0 == nil {
		return
	}
	if l1 != nil {
		return l0, i0, a.key(l1) + "[" + a.p(i1).String() + "]", neg, true
	}
	return l0, i0, a.key(i1), neg, true
}

func posName(list, vr string) string { return "K(" + list + "," + vr + ")" }

// posOf: v is the position of a variable in a list.
func (a *alg) posOf(v *Value) (string, bool) {
	v = stripCT(v)
	switch v.op {
	case OpCall:
		if (v.name == "slices.Index" || strings.HasPrefix(v.name, "slices.Index[")) && len(v.args) == 2 {
			return posName(a.key(v.args[0]), a.elemKey(v.args[1])), true
		}
		if strings.HasPrefix(v.name, "slices.IndexFunc") && len(v.args) == 2 {
			if k, ok := a.eqClosure(v.args[1]); ok {
				return posName(a.key(v.args[0]), k), true
			}
		}
	case OpPhi:
		if !isInteger(v.typ) {
			return "", false
		}
		name := ""
		ok := true
		seen := map[*Value]bool{}
		var walk func(x *Value)
		walk = func(x *Value) {
			if seen[x] || !ok {
				return
			}
			seen[x] = true
			for i, arg := range x.args {
				if c, isc := constInt(arg); isc {
					if c >= 0 {
						ok = false
					}
					continue
				}
				if arg.op == OpPhi {
					isIV := false
					for _, l := range a.loops {
						for _, iv := range inductions(l) {
							if iv.phi == arg && !seen[arg] {
								isIV = true
							}
						}
					}
					if !isIV {
						walk(arg)
						continue
					}
				}
				if i >= len(x.blk.preds) {
					ok = false
					return
				}
				found := false
				for _, g := range domConds(x.blk.preds[i], x.blk) {
					l, ix, vr, neg, is := a.eqTest(g.cond)
					if !is || neg == g.taken || stripCT(ix) != stripCT(arg) {
						continue
					}
					n := posName(a.key(l), vr)
					if name != "" && name != n {
						ok = false
					}
					name = n
					found = true
				}
				if !found {
					ok = false
				}
			}
		}
		// not a counter itself
		for _, l := range a.loops {
			for _, iv := range inductions(l) {
				if iv.phi == v {
					return "", false
				}
			}
		}
		walk(v)
		if ok && name != "" {
			return name, true
		}
	}
	return "", false
}

// domConds: the branches that must have been taken to go from the entry to b and on to `to`.
func domConds(b, to *Block) []pathCond {
	var out []pathCond
	add := func(p, s *Block) {
		t := p.instrs[len(p.instrs)-1]
		if t.op != OpIf || len(p.succs) != 2 || p.succs[0] == p.succs[1] {
			return
		}
		out = append(out, pathCond{t.args[0], p.succs[0] == s})
	}
	if to != nil {
		add(b, to)
	}
	for x := b; x != nil; x = idomOf(x) {
		if len(x.preds) == 1 {
			add(x.preds[0], x)
		}
	}
	return out
}

// eqClosure: func(x) bool { return x.id == captured.id }
func (a *alg) eqClosure(v *Value) (string, bool) { return a.eqClosureK(v, a.elemKey) }

func (a *alg) eqClosureK(v *Value, key func(*Value) string) (string, bool) {
	v = stripCT(v)
	if v.op != OpClosure || v.fn == nil || len(v.fn.Blocks) != 1 || len(v.fn.Params) != 1 {
		return "", false
	}
	ins := v.fn.Blocks[0].Instrs
	ret, ok := ins[len(ins)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return "", false
	}
	be, ok := ret.Results[0].(*ssa.BinOp)
	if !ok || be.Op != token.EQL {
		return "", false
	}
	var root func(x ssa.Value, f string) (ssa.Value, string)
	root = func(x ssa.Value, f string) (ssa.Value, string) {
		switch t := x.(type) {
		case *ssa.Field:
			return root(t.X, structOf(t.X.Type()).Field(t.Field).Name())
		case *ssa.FieldAddr:
			return root(t.X, structOf(t.X.Type()).Field(t.Field).Name())
		case *ssa.UnOp:
			if t.Op == token.MUL {
				return root(t.X, f)
			}
		case *ssa.Alloc:
			for _, u := range *t.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == t {
					return root(st.Val, f)
				}
			}
		}
		return x, f
	}
	x, fx := root(be.X, "")
	y, fy := root(be.Y, "")
	if fx != fy || (fx != "" && fx != "id") {
		return "", false
	}
	if _, isP := y.(*ssa.Parameter); isP {
		x, y = y, x
	}
	if x != ssa.Value(v.fn.Params[0]) {
		return "", false
	}
	for i, fv := range v.fn.FreeVars {
		if ssa.Value(fv) == y && i < len(v.args) {
			return key(v.args[i]), true
		}
	}
	return "", false
}

// elemKey names a variable: list elements by list and position.
func (a *alg) elemKey(v *Value) string { return a.key(v) }

// p: polynomial of an integer value.
func (a *alg) p(v *Value) Poly { return a.pD(v, 0) }

func (a *alg) pD(v *Value, d int) Poly {
	v = stripCT(v)
	if c, ok := constInt(v); ok {
		return polyConst(c)
	}
	if d < 20 {
		switch v.op {
		case OpConvert:
			if isInteger(v.typ) && isInteger(v.args[0].typ) {
				return a.pD(v.args[0], d+1)
			}
		case OpBin:
			switch v.tok {
			case token.ADD:
				return a.pD(v.args[0], d+1).add(a.pD(v.args[1], d+1), 1)
			case token.SUB:
				return a.pD(v.args[0], d+1).add(a.pD(v.args[1], d+1), -1)
			case token.MUL:
				return a.pD(v.args[0], d+1).mul(a.pD(v.args[1], d+1))
			case token.QUO:
				return polyAtom("(" + strings.ReplaceAll(a.pD(v.args[0], d+1).String(), "·", "×") + ")/(" + strings.ReplaceAll(a.pD(v.args[1], d+1).String(), "·", "×") + ")")
			}
		case OpPhi, OpCall:
			if !a.busy[v] {
				a.busy[v] = true
				n, ok := a.posOf(v)
				delete(a.busy, v)
				if ok {
					return polyAtom(n)
				}
			}
		case OpBuiltin:
			if v.name == "len" {
				return a.lenOf(v.args[0])
			}
		case OpLoad, OpField, OpIndex:
			return polyAtom("<" + a.key(v) + ">")
		}
	}
	if r, ok := a.ren[valAtom(v)]; ok {
		return polyAtom(r)
	}
	return polyAtom(valAtom(v))
}

func (a *alg) lenOf(v *Value) Poly {
	v = stripCT(v)
	if v.op == OpMakeSlice {
		return a.p(v.args[0])
	}
	if q, ok := a.seq(v); ok {
		return q.length()
	}
	return polyAtom("len(" + a.key(v) + ")")
}

// seq: the elements of a list, in terms of other lists.
func (a *alg) seq(v *Value) (lseq, bool) {
	v = stripCT(v)
	if v == nil || a.busy[v] {
		return nil, false
	}
	a.busy[v] = true
	defer delete(a.busy, v)
	whole := func() (lseq, bool) {
		k := a.key(v)
		return lseq{{k, Poly{}, polyAtom("len(" + k + ")")}}, true
	}
	switch v.op {
	case OpConst:
		if v.cval == nil {
			return lseq{}, true
		}
	case OpParam:
		return whole()
	case OpLoad, OpField:
		x := v
		if v.op == OpLoad {
			x = v.args[0]
		}
		if (x.op == OpFieldAddr || x.op == OpField) && fieldName(x) == "variables" {
			if cr := a.factorCall(x.args[0]); cr != nil {
				return a.seq(cr.args[1])
			}
		}
		if isSliceT(v.typ) {
			return whole()
		}
	case OpBuiltin:
		if v.name == "append" && len(v.args) == 2 {
			q, ok := a.seq(v.args[0])
			if !ok {
				return nil, false
			}
			r, ok := a.seq(v.args[1])
			if !ok {
				return nil, false
			}
			return append(append(lseq{}, q...), r...).norm(), true
		}
	case OpSlice:
		b := v.args[0]
		if al := stripCT(b); al.op == OpAlloc {
			if arr, ok := derefT(al.typ).Underlying().(*types.Array); ok {
				if v.args[2] != nil {
					if c, isc := constInt(v.args[2]); isc && c == 0 {
						return lseq{}, true
					}
					return nil, false
				}
				out := make(lseq, arr.Len())
				got := int64(0)
				for _, u := range al.uses {
					if u.op != OpIndexAddr {
						continue
					}
					i, isc := constInt(u.args[1])
					if !isc || i >= arr.Len() {
						return nil, false
					}
					for _, st := range u.uses {
						if st.op == OpStore && st.args[0] == u {
							out[i] = a.elem(st.args[1])
							got++
						}
					}
				}
				if got != arr.Len() {
					return nil, false
				}
				return out, true
			}
		}
		q, ok := a.seq(b)
		if !ok {
			return nil, false
		}
		lo, hi := Poly{}, q.length()
		if v.args[1] != nil {
			lo = a.p(v.args[1])
		}
		if v.args[2] != nil {
			hi = a.p(v.args[2])
		}
		return q.part(lo, hi)
	case OpMakeSlice:
		if c, isc := constInt(v.args[0]); isc && c == 0 {
			return lseq{}, true
		}
		return nil, false
	case OpCall:
		switch {
		case strings.HasPrefix(v.name, "slices.Clone"):
			return a.seq(v.args[0])
		case strings.HasPrefix(v.name, "slices.Delete") && len(v.args) == 3:
			q, ok := a.seq(v.args[0])
			if !ok {
				return nil, false
			}
			x, ok1 := q.part(Poly{}, a.p(v.args[1]))
			y, ok2 := q.part(a.p(v.args[2]), q.length())
			if !ok1 || !ok2 {
				return nil, false
			}
			return append(append(lseq{}, x...), y...).norm(), true
		case strings.HasPrefix(v.name, "slices.DeleteFunc") && len(v.args) == 2:
			q, ok := a.seq(v.args[0])
			k, ok2 := a.eqClosure(v.args[1])
			if !ok || !ok2 || len(q) != 1 {
				return nil, false
			}
			pos := polyAtom(posName(q[0].base, k))
			x, ok1 := q.part(Poly{}, pos)
			y, ok2 := q.part(pos.add(polyConst(1), 1), q.length())
			if !ok1 || !ok2 {
				return nil, false
			}
			return append(append(lseq{}, x...), y...).norm(), true
		}
	case OpPhi:
		return a.accSeq(v)
	}
	return nil, false
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// elem: one list element.
func (a *alg) elem(v *Value) lseg {
	v = stripCT(v)
	x := v
	if x.op == OpLoad {
		x = x.args[0]
	}
	if x.op == OpIndexAddr || x.op == OpIndex {
		p := a.p(x.args[1])
		return lseg{a.key(x.args[0]), p, p.add(polyConst(1), 1)}
	}
	if isInteger(v.typ) {
		return lseg{"#", a.p(v), Poly{}}
	}
	return lseg{"=" + a.key(v), Poly{}, Poly{}}
}

// factorCall: the CreateFactor call a factor (value or pointer) comes from.
func (a *alg) factorCall(v *Value) *Value {
	for d := 0; d < 8; d++ {
		v = stripCT(v)
		switch v.op {
		case OpAlloc:
			s := singleStore(v)
			if s == nil {
				return nil
			}
			v = s
		case OpLoad:
			v = v.args[0]
		case OpCall:
			if prim(v, "CreateFactor") {
				return v
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

// where3: subset of {<,=,>} relative to a position.
type where3 struct {
	pos        Poly
	lt, eq, gt bool
}

// relOf: what a condition says about the counter cur.
func (a *alg) relOf(cd *Value, taken bool, cur *Value) (where3, bool) {
	for cd.op == OpUn && cd.tok == token.NOT {
		cd = cd.args[0]
		taken = !taken
	}
	if l, ix, vr, neg, ok := a.eqTest(cd); ok && stripCT(ix) == stripCT(cur) {
		w := where3{pos: polyAtom(posName(a.key(l), vr))}
		if taken != neg {
			w.eq = true
		} else {
			w.lt, w.gt = true, true
		}
		return w, true
	}
	if cd.op != OpBin {
		return where3{}, false
	}
	tok := cd.tok
	if !taken {
		tok = negTok(tok)
	}
	x, y := a.p(cd.args[0]), a.p(cd.args[1])
	if !isInteger(cd.args[0].typ) {
		return where3{}, false
	}
	c := polyAtom(valAtom(stripCT(cur)))
	if cc := a.p(cur); len(cc) > 0 {
		c = cc
	}
	// bring to cur tok pos
	d := x.add(y, -1) // x - y tok 0
	for k, n := range c {
		if n != 1 || len(c) > 2 {
			return where3{}, false
		}
		if k == "" {
			continue
		}
		switch d[k] {
		case 1:
		case -1:
			d = Poly{}.add(d, -1)
			tok = swapTok(tok)
		default:
			return where3{}, false
		}
	}
	pos := c.add(d, -1) // cur - pos = d
	w := where3{pos: pos}
	switch tok {
	case token.EQL:
		w.eq = true
	case token.NEQ:
		w.lt, w.gt = true, true
	case token.LSS:
		w.lt = true
	case token.LEQ:
		w.lt, w.eq = true, true
	case token.GTR:
		w.gt = true
	case token.GEQ:
		w.gt, w.eq = true, true
	default:
		return where3{}, false
	}
	return w, true
}

// counter of a loop with its range [lo,hi), step 1.
type counter struct {
	iv     *IndVar
	lo, hi Poly
}

func (a *alg) counterOf(l *Loop) (counter, bool) {
	for _, iv := range inductions(l) {
		if iv.cond == nil || iv.step != 1 {
			continue
		}
		var hi Poly
		b := a.p(iv.bound)
		switch iv.tok {
		case token.LSS, token.NEQ:
			hi = b
		case token.LEQ:
			hi = b.add(polyConst(1), 1)
		default:
			continue
		}
		lo := a.p(iv.init)
		if iv.pre {
			lo = lo.add(polyConst(1), 1)
		}
		return counter{iv, lo, hi}, true
	}
	// downward loops
	for _, iv := range inductions(l) {
		if iv.cond == nil || iv.step != -1 || iv.pre {
			continue
		}
		b := a.p(iv.bound)
		switch iv.tok {
		case token.GEQ:
		case token.GTR:
			b = b.add(polyConst(1), 1)
		default:
			continue
		}
		return counter{iv, b, a.p(iv.init).add(polyConst(1), 1)}, true
	}
	return counter{}, false
}

// ranges of the counter on which a path of one iteration is taken.
func (a *alg) pathRanges(ct counter, conds []pathCond) ([][2]Poly, bool) {
	w := where3{lt: true, eq: true, gt: true}
	for _, cd := range conds {
		if cd.cond == ct.iv.cond || stripNot(cd.cond) == ct.iv.cond {
			continue
		}
		r, ok := a.relOf(cd.cond, cd.taken, ct.iv.cur)
		if !ok {
			return nil, false
		}
		if w.pos != nil && !w.pos.equal(r.pos) {
			return nil, false
		}
		w.pos = r.pos
		w.lt, w.eq, w.gt = w.lt && r.lt, w.eq && r.eq, w.gt && r.gt
	}
	if w.pos == nil {
		return [][2]Poly{{ct.lo, ct.hi}}, true
	}
	one := polyConst(1)
	var out [][2]Poly
	if w.lt {
		hi := w.pos
		if w.eq {
			hi = hi.add(one, 1)
			if w.gt {
				hi = ct.hi
			}
		}
		out = append(out, [2]Poly{ct.lo, hi})
		if w.eq {
			return out, true
		}
	}
	if w.eq {
		hi := w.pos.add(one, 1)
		if w.gt {
			hi = ct.hi
		}
		return append(out, [2]Poly{w.pos, hi}), true
	}
	if w.gt {
		out = append(out, [2]Poly{w.pos.add(one, 1), ct.hi})
	}
	return out, true
}

func stripNot(v *Value) *Value {
	for v.op == OpUn && v.tok == token.NOT {
		v = v.args[0]
	}
	return v
}

// accSeq: list built by appending in a loop.
func (a *alg) accSeq(phi *Value) (lseq, bool) {
	var l *Loop
	for _, x := range a.loops {
		if x.head == phi.blk {
			l = x
		}
	}
	if l == nil {
		// the same list on all edges that go on
		var res lseq
		got := false
		for i, x := range phi.args {
			if i < len(phi.blk.preds) && endsInPanic(phi.blk.preds[i]) {
				continue
			}
			q, ok := a.seq(x)
			if !ok || (got && !res.equal(q)) {
				return nil, false
			}
			res, got = q, true
		}
		return res, got
	}
	ct, ok := a.counterOf(l)
	if !ok || ct.iv.step != 1 {
		return nil, false
	}
	var init *Value
	for i, p := range l.head.preds {
		if !l.blocks[p] && i < len(phi.args) {
			init = phi.args[i]
		}
	}
	start, ok := a.seq(init)
	if !ok {
		return nil, false
	}
	paths, ok := iterPaths(l)
	if !ok {
		return nil, false
	}
	type piece struct {
		lo, hi Poly
		seg    lseg
	}
	var ps []piece
	for _, p := range paths {
		if !p.back {
			if p.exit != nil && !boundExit(l, ct.iv, p) && !endsInPanic(p.exit) {
				return nil, false
			}
			continue
		}
		nx := nextOf(l, p, phi)
		for d := 0; d < 10 && nx != nil && p.res[nx] != nil && nx != phi; d++ {
			nx = p.res[nx]
		}
		rs, ok := a.pathRanges(ct, p.conds)
		if !ok || nx == nil {
			return nil, false
		}
		if nx == phi {
			continue
		}
		if nx.op != OpBuiltin || nx.name != "append" || stripCT(nx.args[0]) != phi {
			return nil, false
		}
		e, ok := a.seq(nx.args[1])
		if !ok || len(e) != 1 || e[0].base == "#" || e[0].base[0] == '=' {
			return nil, false
		}
		cur := a.p(ct.iv.cur)
		off := e[0].lo.add(cur, -1)
		if off.mentions(cur) {
			return nil, false
		}
		for _, r := range rs {
			ps = append(ps, piece{r[0], r[1], lseg{e[0].base, r[0].add(off, 1), r[1].add(off, 1)}})
		}
	}
	// order the pieces along the range
	out := append(lseq{}, start...)
	pos := ct.lo
	for len(ps) > 0 {
		found := -1
		for i, p := range ps {
			if p.lo.equal(pos) {
				found = i
			}
		}
		if found < 0 {
			// a single hole
			for i, p := range ps {
				if p.lo.equal(pos.add(polyConst(1), 1)) {
					found = i
				}
			}
		}
		if found < 0 {
			return nil, false
		}
		out = append(out, ps[found].seg)
		pos = ps[found].hi
		ps = append(ps[:found], ps[found+1:]...)
	}
	return out.norm(), true
}

func boundExit(l *Loop, iv *IndVar, p iterPath) bool {
	last := p.blocks[len(p.blocks)-1]
	t := last.instrs[len(last.instrs)-1]
	return t.op == OpIf && stripNot(t.args[0]) == iv.cond
}

// vecSeq: contents of an index vector at a use, from the writes of the same round.
// gap is set if the writes are understood but do not cover the vector.
func (a *alg) vecSeq(vec, use *Value) (q lseq, gap string, ok bool) {
	vec = stripCT(vec)
	type piece struct {
		lo, hi Poly
		seg    lseg
		st     *Value
	}
	var ps []piece
	add := func(st *Value, lo, hi Poly, s lseg) { ps = append(ps, piece{lo, hi, s, st}) }
	var visit func(b *Value, off Poly) bool
	visit = func(b *Value, off Poly) bool {
		for _, u := range b.uses {
			switch {
			case u.op == OpChangeType:
				if !visit(u, off) {
					return false
				}
			case u.op == OpSlice && u.args[0] == b:
				o := off
				if u.args[1] != nil {
					o = o.add(a.p(u.args[1]), 1)
				}
				if !visit(u, o) {
					return false
				}
			case u.op == OpBuiltin && u.name == "copy" && u.args[0] == b:
				if u.blk != use.blk && !dominates(u.blk, use.blk) {
					return false
				}
				src, ok := a.seqAny(u.args[1])
				if !ok {
					return false
				}
				// copies as much as both hold: take the source unless it is larger
				n := src.length()
				if b.op == OpSlice && b.args[2] != nil {
					m := a.p(b.args[2]).add(off, -1)
					if s2, ok := src.part(Poly{}, m); ok {
						src, n = s2, m
					}
				}
				o := off
				for _, s := range src {
					add(u, o, o.add(s.length(), 1), s)
					o = o.add(s.length(), 1)
				}
				_ = n
			case u.op == OpIndexAddr && u.args[0] == b:
				for _, st := range u.uses {
					if st.op != OpStore || st.args[0] != u {
						if st.op == OpLoad || st.op == OpStore {
							continue
						}
						return false
					}
					if !a.vecStore(st, u, off, use, add) {
						return false
					}
				}
			}
		}
		return true
	}
	if !visit(vec, Poly{}) {
		return nil, "", false
	}
	n := a.lenOf(vec)
	pos := Poly{}
	var out lseq
	used := make([]bool, len(ps))
	for guard := 0; guard < 12 && !pos.equal(n); guard++ {
		found := -1
		for i, p := range ps {
			if !used[i] && p.lo.equal(pos) && !p.hi.equal(p.lo) {
				found = i
			}
		}
		if found < 0 {
			return out.norm(), "position " + pos.String() + " is not set", true
		}
		used[found] = true
		out = append(out, ps[found].seg)
		pos = ps[found].hi
	}
	if !pos.equal(n) {
		return nil, "", false
	}
	for i := range ps {
		if !used[i] {
			return nil, "", false
		}
	}
	return out.norm(), "", true
}

// seqAny: also vectors of numbers as a whole.
func (a *alg) seqAny(v *Value) (lseq, bool) {
	v = stripCT(v)
	if v.op == OpSlice {
		q, ok := a.seqAny(v.args[0])
		if !ok {
			return nil, false
		}
		lo, hi := Poly{}, q.length()
		if v.args[1] != nil {
			lo = a.p(v.args[1])
		}
		if v.args[2] != nil {
			hi = a.p(v.args[2])
		}
		return q.part(lo, hi)
	}
	if v.op == OpMakeSlice {
		return lseq{{a.key(v), Poly{}, a.lenOf(v)}}, true
	}
	return a.seq(v)
}

func (a *alg) vecStore(st, addr *Value, off Poly, use *Value, add func(*Value, Poly, Poly, lseg)) bool {
	// outermost loop around the store that does not contain the use
	var l *Loop
	n := 0
	for _, x := range a.loops {
		if x.blocks[st.blk] && !x.blocks[use.blk] {
			n++
			l = x
		}
	}
	if n > 1 {
		return false
	}
	val := st.args[1]
	if l == nil {
		if !dominates(st.blk, use.blk) {
			return false
		}
		if st.blk == use.blk && instrIndex(st) > instrIndex(use) {
			return false
		}
		p := a.p(addr.args[1]).add(off, 1)
		add(st, p, p.add(polyConst(1), 1), a.elem(val))
		return true
	}
	if !dominates(l.head, use.blk) {
		return false
	}
	ct, ok := a.counterOf(l)
	if !ok {
		return false
	}
	paths, ok := iterPaths(l)
	if !ok {
		return false
	}
	cur := a.p(ct.iv.cur)
	// second counters that skip one position
	type skip struct{ at Poly }
	skips := map[*Value]skip{}
	var inits = map[*Value]Poly{}
	for _, phi := range l.head.instrs {
		if phi.op != OpPhi {
			break
		}
		if !isInteger(phi.typ) || phi == ct.iv.phi {
			continue
		}
		okk := true
		var at Poly
		for _, p := range paths {
			if !p.back {
				continue
			}
			nx := nextOf(l, p, phi)
			for d := 0; d < 10 && nx != nil && p.res[nx] != nil && nx != phi; d++ {
				nx = p.res[nx]
			}
			if nx == nil {
				okk = false
				break
			}
			diff := a.p(nx).add(polyAtom(valAtom(phi)), -1)
			rs, ok := a.pathRanges(ct, p.conds)
			if !ok {
				okk = false
				break
			}
			switch {
			case diff.equal(polyConst(1)):
			case len(diff) == 0 && len(rs) == 1 && rs[0][1].equal(rs[0][0].add(polyConst(1), 1)):
				at = rs[0][0]
			default:
				okk = false
			}
		}
		if !okk || at == nil {
			continue
		}
		for i, p := range l.head.preds {
			if !l.blocks[p] && i < len(phi.args) {
				inits[phi] = a.p(phi.args[i])
			}
		}
		skips[phi] = skip{at}
	}
	resolve := func(p Poly, past bool) Poly {
		for phi, s := range skips {
			k := valAtom(phi)
			n := p[k]
			if n == 0 {
				continue
			}
			_ = s
			r := Poly{}.add(p, 1)
			delete(r, k)
			x := inits[phi].add(cur, 1).add(ct.lo, -1)
			if past {
				x = x.add(polyConst(1), -1)
			}
			p = r.add(x, n)
		}
		return p
	}
	for _, p := range paths {
		in := false
		for _, b := range p.blocks {
			if b == st.blk {
				in = true
			}
		}
		if !in {
			continue
		}
		rs, ok := a.pathRanges(ct, p.conds)
		if !ok {
			return false
		}
		for _, r := range rs {
			past := false
			for _, s := range skips {
				if r[0].equal(s.at.add(polyConst(1), 1)) {
					past = true
				}
			}
			d := resolve(a.p(addr.args[1]), past)
			e := a.elem(val)
			if e.base == "#" || e.base[0] == '=' {
				return false
			}
			if !d.mentions(cur) && stripConv(addr.args[1]).op != OpLoad && invariantIn(l, addr.args[1]) {
				// all values go to one position
				add(st, d.add(off, 1), d.add(off, 1).add(polyConst(1), 1), lseg{"the last of " + e.base, Poly{}, polyConst(1)})
				continue
			}
			dOff := d.add(cur, -1)
			if dOff.mentions(cur) {
				return false
			}
			e.lo = resolve(e.lo, past)
			sOff := e.lo.add(cur, -1)
			if sOff.mentions(cur) {
				if x := stripCT(val); !e.lo.mentions(cur) && x.op == OpLoad && invariantIn(l, x.args[0].args[1]) {
					add(st, r[0].add(dOff, 1).add(off, 1), r[1].add(dOff, 1).add(off, 1), lseg{"always " + e.base, e.lo, e.lo.add(r[1], 1).add(r[0], -1)})
					continue
				}
				return false
			}
			add(st, r[0].add(dOff, 1).add(off, 1), r[1].add(dOff, 1).add(off, 1), lseg{e.base, r[0].add(sOff, 1), r[1].add(sOff, 1)})
		}
	}
	return true
}

// guards: the conditions that decide, within one round of l, whether b is executed.
func guards(l *Loop, b *Block) []pathCond {
	// reach[x]: b reachable from x in this round; avoid[x]: the round can end from x without b
	type ra struct{ reach, avoid bool }
	memo := map[*Block]*ra{}
	calc := func(x *Block) ra {
		if m := memo[x]; m != nil {
			return *m
		}
		m := &ra{}
		memo[x] = m
		// reach
		seen := map[*Block]bool{}
		var f func(y *Block)
		f = func(y *Block) {
			if seen[y] || !l.blocks[y] {
				return
			}
			seen[y] = true
			if y == b {
				m.reach = true
				return
			}
			for _, s := range y.succs {
				if s == l.head {
					m.avoid = true
					continue
				}
				if !l.blocks[s] && !endsInPanic(s) {
					m.avoid = true
					continue
				}
				f(s)
			}
		}
		f(x)
		return *m
	}
	var out []pathCond
	var bl []*Block
	for x := range l.blocks {
		bl = append(bl, x)
	}
	sort.Slice(bl, func(i, j int) bool { return bl[i].id < bl[j].id })
	for _, x := range bl {
		t := x.instrs[len(x.instrs)-1]
		if t.op != OpIf || len(x.succs) != 2 || x == b && false {
			continue
		}
		var r [2]ra
		skip := false
		for i, s := range x.succs {
			switch {
			case s == l.head:
				r[i] = ra{false, true}
			case !l.blocks[s]:
				r[i] = ra{false, true}
				if endsInPanic(s) {
					skip = true
				}
			default:
				r[i] = calc(s)
				if !r[i].reach && !r[i].avoid {
					skip = true // only panics
				}
			}
		}
		if skip || r[0] == r[1] {
			continue
		}
		// b itself must come after x
		if x == b {
			continue
		}
		if b != l.head && dominates(b, x) {
			continue
		}
		out = append(out, pathCond{t.args[0], r[0].reach && (!r[1].reach || !r[0].avoid)})
	}
	return out
}

// earlyExit: an edge out of the loop other than its bound test.
func earlyExit(l *Loop, iv *IndVar) *Value {
	var bl []*Block
	for x := range l.blocks {
		bl = append(bl, x)
	}
	sort.Slice(bl, func(i, j int) bool { return bl[i].id < bl[j].id })
	for _, x := range bl {
		for _, s := range x.succs {
			if l.blocks[s] || endsInPanic(s) {
				continue
			}
			t := x.instrs[len(x.instrs)-1]
			if t.op == OpIf && iv != nil && stripNot(t.args[0]) == iv.cond {
				continue
			}
			return t
		}
	}
	return nil
}

// invariantIn: the value is the same in all rounds of the loop.
func invariantIn(l *Loop, v *Value) bool {
	v = stripConv(v)
	if v.op == OpConst || v.op == OpParam || !l.blocks[v.blk] {
		return true
	}
	if v.op == OpBin {
		return invariantIn(l, v.args[0]) && invariantIn(l, v.args[1])
	}
	return false
}

// closeCounters gives a counter its own name after a loop that is only left where the search succeeds,
// so that it stands for the position found.
func (a *alg) closeCounters() {
	done := false
	for _, l := range a.loops {
		var from, to *Block
		n := 0
		for _, b := range a.fl.blocks {
			if !l.blocks[b] {
				continue
			}
			for _, s := range b.succs {
				if !l.blocks[s] && !endsInPanic(s) {
					n++
					from, to = b, s
				}
			}
		}
		if n != 1 || len(to.preds) != 1 {
			continue
		}
		for _, iv := range inductions(l) {
			if iv.cond == nil {
				continue
			}
			if t := from.instrs[len(from.instrs)-1]; t.op == OpIf && stripNot(t.args[0]) == iv.cond {
				continue
			}
			var out []*Value
			for _, u := range iv.cur.uses {
				if !l.blocks[u.blk] && dominates(to, u.blk) {
					out = append(out, u)
				}
			}
			if len(out) == 0 {
				continue
			}
			phi := a.fl.newVal(to, OpPhi, iv.cur.typ, iv.cur.pos)
			phi.args = []*Value{iv.cur}
			to.instrs = append([]*Value{phi}, to.instrs...)
			for _, u := range out {
				for i, x := range u.args {
					if x == iv.cur {
						u.args[i] = phi
					}
				}
			}
			done = true
		}
	}
	if done {
		a.fl.computeUses()
	}
}
