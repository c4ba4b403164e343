package main

import (
	"fmt"
	"go/token"
	"strings"
)

func emptyList(v *Value, seen map[*Value]bool) bool {
	v = stripCT(v)
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v.op {
	case OpConst:
		return v.cval == nil
	case OpMakeSlice:
		c, ok := constInt(v.args[0])
		return ok && c == 0
	case OpSlice:
		if v.args[2] != nil {
			c, ok := constInt(v.args[2])
			return ok && c == 0
		}
		if v.args[0].op == OpAlloc {
			return isEmptySlice(v, 0)
		}
	case OpPhi:
		for _, x := range v.args {
			if !emptyList(x, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// floatRel: what a condition says about u relative to m.
func floatRel(cd *Value, taken bool, u, m *Value) (lt, eq, gt, ok bool) {
	for cd.op == OpUn && cd.tok == token.NOT {
		cd, taken = cd.args[0], !taken
	}
	if cd.op != OpBin {
		return
	}
	tok := cd.tok
	x, y := cd.args[0], cd.args[1]
	if (y == u || sameVal(y, u)) && x == m {
		x, y = y, x
		tok = swapTok(tok)
	}
	if !(x == u || sameVal(x, u)) || y != m {
		return
	}
	if !taken {
		tok = negTok(tok)
	}
	switch tok {
	case token.LSS:
		return true, false, false, true
	case token.LEQ:
		return true, true, false, true
	case token.EQL:
		return false, true, false, true
	case token.NEQ:
		return true, false, true, true
	case token.GTR:
		return false, false, true, true
	case token.GEQ:
		return false, true, true, true
	}
	return
}

func (a *alg) opPolicy() {
	f, vr := a.param("ve.Factor"), a.param("ve.Variable")
	if f == nil || vr == nil {
		a.und("parameters", nil)
		return
	}
	L := f.name + ".variables"
	n := polyAtom("len(" + L + ")")
	K := polyAtom(posName(L, vr.name))
	one := polyConst(1)
	self := lseg{L, K, K.add(one, 1)}
	want := lseq{{L, Poly{}, K}, {L, K.add(one, 1), n}, self}
	for _, cr := range a.sources() {
		if !prim(cr, "CreateFactor") {
			a.und("result", cr)
			continue
		}
		vars, ok := a.varsOf(cr)
		if !ok {
			a.und("variables of the result", cr)
			continue
		}
		for i := range vars {
			if vars[i].base == "="+vr.name {
				vars[i] = self
			}
		}
		if !vars.equal(want) {
			a.bad("result-variables", "result", cr, fmt.Sprintf("the variables of the policy are %s, not %s", vars, want))
			continue
		}
		a.c.ok("result-variables", a.name+": "+vars.String())
		sites := a.sites(cr)
		if len(sites) != 1 || sites[0].vec == nil {
			a.und("writes of the result", cr)
			continue
		}
		a.policyRows(cr, sites[0], f, vr, L, n, K)
	}
}

func (a *alg) policyRows(cr *Value, s csite, f, vr *Value, L string, n, K Poly) {
	one := polyConst(1)
	k := a.key(cr)
	tl := innermost(a.loops, s.at.blk)
	var ml *Loop
	for _, l := range a.loops {
		if l.blocks[s.at.blk] && (ml == nil || len(l.blocks) > len(ml.blocks)) {
			ml = l
		}
	}
	if tl == nil || ml == tl {
		a.und("loop over the rows", s.at)
		return
	}
	mc, ok := a.counterOf(ml)
	if !ok {
		a.und("loop over the rows", s.at)
		return
	}
	// reading of the utilities
	var get *Value
	cnt := 0
	a.fl.each(func(v *Value) {
		if prim(v, "Get") && a.key(v.args[0]) == f.name && ml.blocks[v.blk] {
			get = v
			cnt++
		}
	})
	if cnt != 1 {
		a.und("reading of the utilities", s.at)
		return
	}
	cl := innermost(a.loops, get.blk)
	cc, ok := a.counterOf(cl)
	if !ok || cl == ml {
		a.und("loop over the options", get)
		return
	}
	cols := cc.hi
	outs := map[string]bool{"<" + vr.name + ".outcomes>": true, "<" + L + "[" + K.String() + "].outcomes>": true}
	if x := atomOnly(cols); x == "" || !outs[x] {
		if onlyConst(cols.add(polyAtom(atomOnlyNonConst(cols)), -1)) && outs[atomOnlyNonConst(cols)] {
			a.bad("options", "options", cc.iv.cond, "the loop over the options ends at "+cols.String())
		} else {
			a.und("number of options: "+cols.String(), cc.iv.cond)
		}
		return
	}
	if len(cc.lo) != 0 {
		a.bad("options", "options", cc.iv.cond, "the loop over the options starts at "+cc.lo.String())
		return
	}
	if x := earlyExit(cl, cc.iv); x != nil {
		a.bad("options", "options", x, "the loop over the options can end early")
		return
	}
	c := strings.ReplaceAll(cols.String(), "·", "×")
	if len(mc.lo) != 0 && onlyConst(mc.lo) {
		a.bad("all-cells", "rows", mc.iv.cond, "the loop over the rows starts at "+mc.lo.String())
		return
	}
	full := false
	for _, t := range []string{f.name + ".data", k + ".data"} {
		if mc.hi.equal(polyAtom("(len(" + t + "))/(" + c + ")")) {
			full = true
		}
	}
	if !full {
		a.und("number of rows: "+mc.hi.String(), mc.iv.cond)
		return
	}
	if x := earlyExit(ml, mc.iv); x != nil {
		a.bad("all-cells", "rows", x, "the loop over the rows can end early")
		return
	}
	a.c.ok("all-cells", a.name+" rows")
	// the row's outcome indices
	nk := a.key(s.vec)
	var oc *Value
	a.fl.each(func(v *Value) {
		if prim(v, "Outcomes") && a.key(v.args[2]) == nk && ml.blocks[v.blk] {
			oc = v
		}
	})
	if oc == nil {
		a.und("outcome indices of the row", s.at)
		return
	}
	if ok := a.key(oc.args[0]); ok != k && ok != k+".variables" {
		a.bad("index-map", "row", oc, "the outcome indices of the row are those of another factor")
		return
	}
	if pos, w := a.p(oc.args[1]), a.p(mc.iv.cur).mul(cols); !pos.equal(w) {
		a.bad("index-map", "row", oc, "the outcome indices of the row are those of cell "+pos.String()+", not "+w.String())
		return
	}
	if g := a.realGuards(ml, oc.blk); len(g) > 0 {
		a.bad("index-map", "row", oc, "in some rounds the outcome indices of the row are not set")
		return
	}
	// cell of the utility
	last := n.add(one, -1)
	got, gap, ok := a.vecSeq(get.args[1], get)
	cur := a.p(cc.iv.cur)
	w1 := lseq{{nk, Poly{}, K}, {nk, last, n}, {nk, K, last}}
	w2 := lseq{{nk, Poly{}, K}, {"#", cur, Poly{}}, {nk, K, last}}
	switch {
	case !ok:
		a.und("contents of an index vector", get)
		return
	case gap != "":
		a.bad("index-map", "utility cell", get, gap)
		return
	case got.equal(w2):
	case got.equal(w1):
		// the option is the last index
		var st *Value
		for b := range cl.blocks {
			for _, v := range b.instrs {
				if v.op == OpStore && v.args[0].op == OpIndexAddr && a.key(v.args[0].args[0]) == nk {
					st = v
				}
			}
		}
		if st == nil || !dominates(st.blk, get.blk) {
			a.und("option of the cell", get)
			return
		}
		if !a.p(st.args[0].args[1]).equal(last) || !a.p(st.args[1]).equal(cur) {
			a.bad("index-map", "utility cell", st, "the option's index is not that of the decision variable")
			return
		}
	default:
		a.bad("index-map", "utility cell", get, fmt.Sprintf("the outcome indices of the utility are %s, not %s", got, w1))
		return
	}
	a.c.ok("index-map", a.name+" utility cell")
	// stored per option
	var rs *Value
	for _, u := range get.uses {
		if u.op == OpStore && u.args[1] == get && u.args[0].op == OpIndexAddr {
			rs = u
		}
	}
	if rs == nil {
		a.und("utilities of the row", get)
		return
	}
	if !a.p(rs.args[0].args[1]).equal(cur) || len(a.realGuards(cl, rs.blk)) > 0 {
		a.bad("options", "options", rs, "the utility of an option is not always kept under its index")
		return
	}
	a.c.ok("options", a.name)
	a.argmax(ml, tl, s, a.key(rs.args[0].args[0]), cols, nk, last)
}

// argmax over the utilities of a row; ties share the probability.
func (a *alg) argmax(ml, tl *Loop, s csite, row string, cols Poly, nk string, last Poly) {
	// loop with a float phi compared with the row's elements
	var al *Loop
	var mx, lst *Value
	for _, l := range a.loops {
		if !ml.blocks[l.head] || l == ml || l == tl {
			continue
		}
		for _, v := range l.head.instrs {
			if v.op != OpPhi {
				break
			}
			if isFloat(v.typ) {
				al, mx = l, v
			}
		}
	}
	if al == nil {
		a.und("choice of the best option", s.at)
		return
	}
	for _, v := range al.head.instrs {
		if v.op == OpPhi && isIntSlice(v.typ) {
			lst = v
		}
	}
	ct, ok := a.counterOf(al)
	paths, ok2 := iterPaths(al)
	if !ok || !ok2 {
		a.und("loop of the choice", mx)
		return
	}
	if len(ct.lo) != 0 && onlyConst(ct.lo) && ct.lo[""] > 1 {
		a.bad("best", "choice", ct.iv.cond, "the comparison starts at option "+ct.lo.String())
		return
	}
	if x := earlyExit(al, ct.iv); x != nil {
		a.bad("best", "choice", x, "the comparison can end before the last option")
		return
	}
	if lst == nil {
		a.und("list of the best options", mx)
		return
	}
	isElem := func(v *Value) bool {
		v = stripCT(v)
		return v.op == OpLoad && v.args[0].op == OpIndexAddr && a.key(v.args[0].args[0]) == row && a.p(v.args[0].args[1]).equal(a.p(ct.iv.cur))
	}
	// start
	for i, p := range al.head.preds {
		if al.blocks[p] {
			continue
		}
		x := stripCT(mx.args[i])
		switch {
		case x.op == OpCall && x.name == "math.Inf":
			if c, isc := constInt(x.args[0]); !isc || c >= 0 {
				a.bad("best", "start", x, "the maximum does not start at minus infinity")
				return
			}
		case x.op == OpConst:
			a.bad("best", "start", mx, "the maximum starts at a fixed value, so that options below it are never chosen")
			return
		default:
			if !(x.op == OpLoad && x.args[0].op == OpIndexAddr && a.key(x.args[0].args[0]) == row) {
				if x.op == OpPhi && ml.blocks[x.blk] {
					a.bad("best", "start", mx, "the maximum is carried over from the row before")
				} else {
					a.und("start of the maximum", mx)
				}
				return
			}
		}
		if len(ct.lo) == 0 && !emptyList(lst.args[i], map[*Value]bool{}) {
			a.bad("best", "start", lst, "the list of best options is carried over from the row before")
			return
		}
	}
	for _, p := range paths {
		if !p.back {
			continue
		}
		lt, eq, gt := true, true, true
		var u *Value
		var unk *Value
		first := false
		for _, b := range p.blocks {
			for _, v := range b.instrs {
				if isElem(v) {
					u = v
				}
			}
		}
		if u == nil {
			a.bad("best", "choice", mx, "in some rounds the option is not compared")
			return
		}
		for _, cd := range p.conds {
			if stripNot(cd.cond) == ct.iv.cond {
				continue
			}
			l, e, g, ok := floatRel(cd.cond, cd.taken, u, mx)
			if !ok {
				if fst, is := a.firstOption(cd.cond, cd.taken, ct.iv.cur, lst); is {
					first = first || fst
				} else {
					unk = cd.cond
				}
				continue
			}
			lt, eq, gt = lt && l, eq && e, gt && g
		}
		if !lt && !eq && !gt {
			continue // not a path
		}
		// wrong: what happens on this path is not what the comparison asks for
		wrong := func(key, msg string) {
			if unk == nil {
				a.bad("best", key, mx, msg)
			} else if dependsOnVal(unk, u) || dependsOnVal(unk, mx) {
				a.bad("best", "choice", unk, "options are compared by another test than greater and equal")
			} else if dependsOnVal(unk, lst) || dependsOnVal(unk, ct.iv.cur) {
				a.bad("best", key, unk, msg+" under a condition on the number of options")
			} else {
				a.und("condition of the choice", unk)
			}
		}
		res := func(phi *Value) *Value {
			nx := nextOf(al, p, phi)
			for d := 0; d < 10 && nx != nil && p.res[nx] != nil && nx != phi; d++ {
				nx = p.res[nx]
			}
			return stripCT(nx)
		}
		nm, nl := res(mx), res(lst)
		resets, appends := false, false
		switch {
		case nl == lst:
		case nl.op == OpBuiltin && nl.name == "append":
			el := appended(nl)
			if len(el) != 1 || !a.p(el[0]).equal(a.p(ct.iv.cur)) {
				a.bad("best", "choice", nl, "another index than the option's is kept")
				return
			}
			b := stripCT(nl.args[0])
			if b == lst {
				appends = true
			} else if emptyList(b, map[*Value]bool{}) {
				resets = true
			} else {
				a.und("list of the best options", nl)
				return
			}
		case nl.op == OpSlice:
			// list[:1] with element 0 set, or a new list of one element
			if c, isc := int64(1), true; nl.args[2] != nil {
				c, isc = constInt(nl.args[2])
				if !isc || c != 1 {
					a.und("list of the best options", nl)
					return
				}
			}
			set := false
			for _, b := range p.blocks {
				for _, v := range b.instrs {
					if v.op == OpStore && v.args[0].op == OpIndexAddr && (stripCT(v.args[0].args[0]) == nl || stripCT(v.args[0].args[0]) == stripCT(nl.args[0])) {
						if c, isc := constInt(v.args[0].args[1]); isc && c == 0 && a.p(v.args[1]).equal(a.p(ct.iv.cur)) {
							set = true
						}
					}
				}
			}
			if !set {
				a.bad("best", "choice", nl, "the index of the new best option is not kept")
				return
			}
			resets = true
		default:
			a.und("list of the best options", nl)
			return
		}
		updated := nm == stripCT(u) || sameVal(nm, u)
		keeps := nm == mx && nl == lst
		switch {
		case first && updated && (resets || appends):
			// the first option is the best one so far
		case gt && (lt || eq) && !(first && unk == nil):
			wrong("choice", "better and other options are treated alike")
			return
		case gt:
			if !updated || !resets {
				wrong("choice", "a better option does not replace the options found before")
				return
			}
		case eq && lt && keeps:
			wrong("ties", "options with the same utility do not share the choice")
			return
		case eq && lt:
			wrong("choice", "worse and equal options are treated alike")
			return
		case eq:
			if !appends || (nm != mx && !updated) {
				wrong("ties", "options with the same utility do not share the choice")
				return
			}
		case lt:
			if !keeps {
				wrong("choice", "a worse option changes the choice")
				return
			}
		}
	}
	if !ct.hi.equal(cols) && ct.hi.mentions(cols) {
		a.bad("best", "choice", ct.iv.cond, "the comparison ends at option "+ct.hi.String())
		return
	}
	a.c.ok("best", a.name+" choice")
	// probabilities
	tc, ok := a.counterOf(tl)
	if !ok {
		a.und("loop over the best options", s.at)
		return
	}
	lk := polyAtom("len(" + a.key(lst) + ")")
	if !tc.hi.equal(lk) || len(tc.lo) != 0 {
		if tc.hi.mentions(lk) && onlyConst(tc.hi.add(lk, -1)) || onlyConst(tc.lo) && len(tc.lo) != 0 {
			a.bad("ties", "probability", tc.iv.cond, "not all best options get their share")
		} else {
			a.und("loop over the best options", tc.iv.cond)
		}
		return
	}
	if x := earlyExit(tl, tc.iv); x != nil {
		a.bad("ties", "probability", x, "not all best options get their share")
		return
	}
	if g := a.realGuards(ml, s.at.blk); len(g) > 0 {
		a.bad("ties", "probability", g[0].cond, "whether a best option gets its share depends on a condition")
		return
	}
	x, y, okq := bin2(s.val, token.QUO)
	good := false
	if okq {
		fv, isc := constFloat(x)
		y = stripCT(y)
		if isc && fv == 1 && y.op == OpConvert && a.p(y.args[0]).equal(lk) {
			good = true
		}
	}
	if !good {
		if okq || s.val.op == OpConst {
			a.bad("ties", "probability", s.at, "the probability is not one divided by the number of best options")
		} else {
			a.und("probability", s.at)
		}
		return
	}
	// index of the cell: last index is the option
	var st *Value
	for b := range tl.blocks {
		for _, v := range b.instrs {
			if v.op == OpStore && v.args[0].op == OpIndexAddr && a.key(v.args[0].args[0]) == nk {
				st = v
			}
		}
	}
	if st == nil {
		a.und("cell of the probability", s.at)
		return
	}
	v := stripConv(st.args[1])
	if !a.p(st.args[0].args[1]).equal(last) || v.op != OpLoad || v.args[0].op != OpIndexAddr || stripCT(v.args[0].args[0]) != lst || !a.p(v.args[0].args[1]).equal(a.p(tc.iv.cur)) {
		a.bad("ties", "probability", st, "the probability is not set at the best option's index")
		return
	}
	a.c.ok("ties", a.name)
}

// firstOption: a test whether this is the first option or the list of best
// options is still empty; first is what the branch taken says.
func (a *alg) firstOption(cd *Value, taken bool, cur, lst *Value) (first, is bool) {
	for cd.op == OpUn && cd.tok == token.NOT {
		cd, taken = cd.args[0], !taken
	}
	if cd.op != OpBin {
		return
	}
	x, y, tok := cd.args[0], cd.args[1], cd.tok
	if _, c := constInt(x); c {
		x, y, tok = y, x, swapTok(tok)
	}
	k, c := constInt(y)
	if !c || !(a.p(x).equal(a.p(cur)) || a.p(x).equal(polyAtom("len("+a.key(lst)+")"))) {
		return
	}
	if !taken {
		tok = negTok(tok)
	}
	switch {
	case tok == token.EQL && k == 0, tok == token.LSS && k == 1, tok == token.LEQ && k == 0:
		return true, true
	case tok == token.NEQ && k == 0, tok == token.GEQ && k == 1, tok == token.GTR && k == 0:
		return false, true
	}
	return
}
