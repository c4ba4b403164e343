package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "Every iteration in unspecified order (range over a map; iteration over a slice filled in map order) in the call-inlined program of every entry point may only have effects that do not depend on the order: keyed writes, set insertions and deletions, integer reductions, constant flags, minima and maxima, error exits, or filling a slice that is sorted by a total key before any order-dependent use. Random and clock sources are not used.", checkC06)
}

// Loop is a natural loop of the flattened CFG.
type Loop struct {
	head   *Block
	blocks map[*Block]bool
}

func (fl *Flat) loops() []*Loop {
	byHead := map[*Block]*Loop{}
	var order []*Loop
	for _, b := range fl.blocks {
		for _, s := range b.succs {
			if !dominates(s, b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &Loop{head: s, blocks: map[*Block]bool{s: true}}
				byHead[s] = l
				order = append(order, l)
			}
			work := []*Block{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.preds...)
			}
		}
	}
	return order
}

// uloop is an iteration in unspecified order.
type uloop struct {
	*Loop
	what    string
	src     *Value          // position
	elems   map[*Value]bool // values that identify the current element
	keys    map[*Value]bool // values injective in the iteration
	index   map[*Value]bool // positions (order dependent)
	iter    map[*Value]bool // depends on the current element
	noKey   bool            // elements may repeat (a slice that is not a set)
	eqGuard map[*Block]bool // blocks executed for at most one element
}

type orderAn struct {
	c     *Ctx
	fl    *Flat
	pt    *PTA
	loops []*Loop
	perm  map[*Value]*Value // slices whose element order is unspecified -> origin
	permQ []*Value
	done  map[*Block]bool
	inner map[*Block]*Loop // innermost loop
	fails int
	n     int
}

func (c *Ctx) allEntries() []*ssa.Function {
	var entries []*ssa.Function
	for _, rel := range []string{"", "ve", "logic", "internal/tui"} {
		entries = append(entries, c.w.exportedFuncs(rel)...)
	}
	for _, f := range c.w.taken {
		if f.Synthetic != "" && !strings.HasSuffix(f.Name(), "$bound") {
			continue
		}
		entries = append(entries, f)
	}
	for _, rel := range []string{"cmd/bbn", "cmd/bbni"} {
		if p := c.w.pkg(rel); p != nil {
			if f := p.Func("main"); f != nil {
				entries = append(entries, f)
			}
		}
	}
	return entries
}

func checkC06(c *Ctx) {
	for _, fn := range c.allEntries() {
		fl := c.flat(fn)
		a := &orderAn{c: c, fl: fl, perm: map[*Value]*Value{}, done: map[*Block]bool{}}
		a.run()
		if a.fails == 0 {
			c.ok("entry", shortFn(fn))
		}
	}
	c.floor("unordered-loop", 10)
	c.floor("entry", 60)
}

func (a *orderAn) bad(rule string, u *uloop, at *Value, msg string) {
	a.fails++
	fn := "?"
	if at.fr != nil {
		fn = shortFn(at.fr.fn)
	}
	a.c.fail(rule, fn+": "+msg, a.fl.where(at), msg+" (iteration: "+u.what+")", a.fl.chain(at))
}

func (a *orderAn) run() {
	fl := a.fl
	var nexts []*Value
	fl.each(func(v *Value) {
		switch v.op {
		case OpNext:
			if r := v.args[0]; r.op == OpRange {
				if _, ok := r.args[0].typ.Underlying().(*types.Map); ok {
					nexts = append(nexts, v)
				}
			}
		case OpCall:
			p := calleePkg(v.name)
			if p == "math/rand" || p == "math/rand/v2" || p == "crypto/rand" || v.name == "time.Now" || v.name == "time.Since" || v.name == "os.Getpid" {
				if !strings.Contains(shortFn(v.fr.fn), "profile") {
					a.fails++
					a.c.fail("entropy", shortFn(v.fr.fn)+" calls "+v.name, fl.where(v), "result may depend on "+v.name, fl.chain(v))
				}
			}
			if strings.HasPrefix(v.name, "slices.Collect") && !ofSlice(v.args[0]) {
				a.addPerm(v, v)
			}
		}
	})
	if len(nexts) == 0 && len(a.permQ) == 0 {
		return
	}
	a.loops = fl.loops()
	a.inner = map[*Block]*Loop{}
	for _, l := range a.loops {
		for b := range l.blocks {
			if o := a.inner[b]; o == nil || len(l.blocks) < len(o.blocks) {
				a.inner[b] = l
			}
		}
	}
	for _, nx := range nexts {
		var l *Loop
		for _, x := range a.loops {
			if x.head == nx.blk {
				l = x
			}
		}
		if l == nil {
			// no back edge: the body runs at most once and always leaves
			l = &Loop{head: nx.blk, blocks: a.onceBody(nx)}
		}
		a.n++
		u := &uloop{Loop: l, src: nx, what: "range over " + typeStr(nx.args[0].args[0].typ) + " at " + fl.w.pos(nx.args[0].pos), elems: map[*Value]bool{}, keys: map[*Value]bool{}, index: map[*Value]bool{}}
		for _, e := range nx.uses {
			if e.op == OpExtract && e.idx == 1 {
				u.keys[e] = true
				u.elems[e] = true
			} else if e.op == OpExtract && e.idx == 2 {
				u.elems[e] = true
			}
		}
		a.analyse(u)
	}
	for len(a.permQ) > 0 {
		x := a.permQ[0]
		a.permQ = a.permQ[1:]
		a.permUses(x)
	}
}

func (a *orderAn) onceBody(nx *Value) map[*Block]bool {
	m := map[*Block]bool{nx.blk: true}
	if len(nx.blk.succs) == 2 {
		body := nx.blk.succs[0]
		for _, b := range a.fl.blocks {
			if dominates(body, b) {
				m[b] = true
			}
		}
	}
	return m
}

func (a *orderAn) addPerm(x, origin *Value) {
	if _, ok := a.perm[x]; ok {
		return
	}
	a.perm[x] = origin
	a.permQ = append(a.permQ, x)
}

// taint closes the element-dependent values of a loop.
func (a *orderAn) taint(u *uloop) {
	u.iter = map[*Value]bool{}
	for e := range u.elems {
		u.iter[e] = true
	}
	pt := a.pta()
	written := map[Loc]bool{}
	inLoop := func(v *Value) bool { return u.blocks[v.blk] }
	// control dependence: blocks guarded by an element-dependent condition
	for changed := true; changed; {
		changed = false
		mark := func(v *Value) {
			if !u.iter[v] {
				u.iter[v] = true
				changed = true
			}
		}
		for b := range u.blocks {
			for _, v := range b.instrs {
				if u.iter[v] {
					continue
				}
				if v.op == OpPhi && b == u.head {
					continue
				}
				for _, x := range v.args {
					if x != nil && u.iter[x] {
						mark(v)
						break
					}
				}
				if u.iter[v] {
					continue
				}
				switch v.op {
				case OpLoad:
					for _, l := range pt.locs(v.args[0]) {
						if written[l] {
							mark(v)
						}
					}
				case OpLookup:
					for _, l := range pt.locs(v.args[0]) {
						if written[Loc{l.obj, l.path + "{v}"}] {
							mark(v)
						}
					}
				case OpPhi:
					for _, p := range b.preds {
						if u.blocks[p] && a.controlled(u, p, b) {
							mark(v)
							break
						}
					}
				}
			}
		}
		for b := range u.blocks {
			for _, v := range b.instrs {
				if v.op == OpStore && u.iter[v.args[1]] {
					for _, l := range pt.locs(v.args[0]) {
						if (l.obj.kind == ObjSite || l.obj.kind == ObjExtern) && l.obj.site.blk != nil && inLoop(l.obj.site) && !written[l] {
							written[l] = true
							changed = true
						}
					}
				}
			}
		}
	}
}

func (a *orderAn) controlled(u *uloop, p, b *Block) bool {
	// p is reached under an element-dependent branch that b post-joins
	for x := p; x != nil && x != u.head; x = idomOf(x) {
		if len(x.instrs) > 0 {
			last := x.instrs[len(x.instrs)-1]
			if last.op == OpIf && x != b && u.iter[last.args[0]] && !dominates(b, x) {
				return true
			}
		}
		if dominates(x, b) && x != p {
			break
		}
	}
	return false
}

func (a *orderAn) pta() *PTA {
	if a.pt == nil {
		a.pt = a.c.pta(a.fl)
	}
	return a.pt
}

// injective: the value determines the current element.
func (a *orderAn) injective(u *uloop, v *Value) bool {
	v = stripConv(v)
	if u.keys[v] {
		return true
	}
	switch v.op {
	case OpField:
		if identityField(v.args[0].typ, fieldName(v)) && a.elemDerived(u, v.args[0]) {
			return true
		}
		if u.keys[v.args[0]] {
			// a field of a struct key: identity only
			return identityField(v.args[0].typ, fieldName(v))
		}
	case OpLoad:
		ad := v.args[0]
		if ad.op == OpFieldAddr && identityField(ad.args[0].typ, fieldName(ad)) {
			return a.elemDerived(u, ad.args[0])
		}
		if a.elemDerived(u, v) && !u.noKey {
			return true
		}
	case OpStruct:
		for _, x := range v.args {
			if a.injective(u, x) {
				return true
			}
		}
	case OpLookup:
		// name -> index mapping
		return a.injective(u, v.args[1])
	case OpExtract:
		if v.idx == 0 && v.args[0].op == OpLookup {
			return a.injective(u, v.args[0].args[1])
		}
	}
	return false
}

func stripConv(v *Value) *Value {
	for v.op == OpChangeType || v.op == OpConvert || v.op == OpMakeIface {
		v = v.args[0]
	}
	return v
}

// elemDerived: the value is the element itself, or loaded directly from it.
func (a *orderAn) elemDerived(u *uloop, v *Value) bool {
	v = stripConv(v)
	if u.elems[v] {
		return true
	}
	switch v.op {
	case OpLoad, OpIndexAddr, OpFieldAddr, OpField:
		return a.elemDerived(u, v.args[0]) || (v.op == OpIndexAddr && a.injective(u, v.args[1]))
	case OpAlloc:
		// spilled copy of the element
		for _, s := range v.uses {
			if s.op == OpStore && s.args[0] == v && a.elemDerived(u, s.args[1]) {
				return true
			}
		}
	}
	return false
}

// identityField: a field that identifies a record (what Id() returns, a name, or the "for" of a factor).
func identityField(t types.Type, f string) bool {
	switch f {
	case "id", "ID", "Id", "Name", "name", "For", "Variable", "index", "Index":
		return true
	}
	return false
}

// keyEq: cond compares the element's identity with something that does not change during the loop.
func (a *orderAn) keyEq(u *uloop, cond *Value) bool {
	if cond.op != OpBin || cond.tok != token.EQL {
		return false
	}
	x, y := cond.args[0], cond.args[1]
	return (a.injective(u, x) && a.invariant(u, y)) || (a.injective(u, y) && a.invariant(u, x))
}

func (a *orderAn) invariant(u *uloop, v *Value) bool {
	if v.op == OpConst || v.op == OpGlobal || v.op == OpParam || v.op == OpFunc {
		return true
	}
	if !u.blocks[v.blk] {
		return true
	}
	if u.iter[v] || u.index[v] {
		return false
	}
	if v.op == OpPhi && v.blk == u.head {
		return false
	}
	if v.op == OpAlloc || v.op == OpMakeMap || v.op == OpMakeSlice || v.op == OpCall || v.op == OpRecCall {
		return false
	}
	if v.op == OpLoad {
		pt := a.pta()
		inv := true
		w := map[Loc]bool{}
		for _, l := range pt.locs(v.args[0]) {
			w[l] = true
		}
		for b := range u.blocks {
			for _, s := range b.instrs {
				ls, _, deep := pt.writeLocs(s)
				for _, l := range ls {
					if w[l] || deep {
						inv = false
					}
				}
			}
		}
		if !inv {
			return false
		}
	}
	if v.op == OpPhi {
		return false
	}
	for _, x := range v.args {
		if x != nil && !a.invariant(u, x) {
			return false
		}
	}
	return true
}

func (a *orderAn) computeEqGuard(u *uloop) {
	u.eqGuard = map[*Block]bool{}
	for b := range u.blocks {
		if len(b.instrs) == 0 {
			continue
		}
		last := b.instrs[len(b.instrs)-1]
		if last.op != OpIf || len(b.succs) != 2 {
			continue
		}
		var body *Block
		if a.keyEq(u, last.args[0]) {
			body = b.succs[0]
		} else if n := last.args[0]; n.op == OpBin && n.tok == token.NEQ {
			x, y := n.args[0], n.args[1]
			if (a.injective(u, x) && a.invariant(u, y)) || (a.injective(u, y) && a.invariant(u, x)) {
				body = b.succs[1]
			}
		}
		if body == nil || len(body.preds) != 1 {
			continue
		}
		for _, x := range a.fl.blocks {
			if dominates(body, x) {
				u.eqGuard[x] = true
			}
		}
	}
}

func (a *orderAn) analyse(u *uloop) {
	a.taint(u)
	a.computeEqGuard(u)
	a.c.ok("unordered-loop", u.what)
	earlyExit := a.exits(u)
	a.headerPhis(u, earlyExit)
	a.effects(u, earlyExit)
}

// exits checks edges that leave the loop from inside its body.
func (a *orderAn) exits(u *uloop) bool {
	early := false
	for b := range u.blocks {
		if b == u.head {
			continue
		}
		for _, s := range b.succs {
			if u.blocks[s] {
				continue
			}
			if a.failing(s, b) {
				continue
			}
			if u.eqGuard[b] {
				continue
			}
			early = true
			// values that flow out on this edge
			pi := -1
			for i, p := range s.preds {
				if p == b {
					pi = i
				}
			}
			for _, v := range s.instrs {
				if v.op == OpPhi && pi >= 0 {
					x := v.args[pi]
					if u.iter[x] || u.index[x] {
						a.bad("early-exit", u, x, "the value found first in unspecified order leaves the loop")
					}
				}
			}
			// values of the loop used after it
			for bb := range u.blocks {
				for _, v := range bb.instrs {
					if !u.iter[v] && !u.index[v] {
						continue
					}
					for _, use := range v.uses {
						if !u.blocks[use.blk] && use.op != OpPhi && dominates(bb, b) && a.reaches(s, use.blk) && !a.failing(use.blk, nil) {
							a.bad("early-exit", u, use, "the element found first in unspecified order is used after the loop")
						}
					}
				}
			}
		}
	}
	return early
}

func (a *orderAn) reaches(from, to *Block) bool {
	seen := map[*Block]bool{from: true}
	work := []*Block{from}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == to {
			return true
		}
		for _, s := range b.succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return false
}

// failing: every path from s ends in a panic or carries an error result out of the function it is in.
// The error travels through phis of the inlined return blocks, so the test is: on the edge p->s, or on
// the way from s, a phi of error type receives a value that is an error creation or the tested error.
func (a *orderAn) failing(s, p *Block) bool {
	cur, prev := s, p
	for i := 0; i < 60; i++ {
		if prev != nil {
			pi := -1
			for k, q := range cur.preds {
				if q == prev {
					pi = k
				}
			}
			for _, v := range cur.instrs {
				if v.op == OpPhi && isErrorType(v.typ) && pi >= 0 && !isNilConst(v.args[pi]) {
					return true
				}
			}
		}
		for _, v := range cur.instrs {
			if v.op == OpPanic {
				return true
			}
			if v.op == OpReturn {
				for _, r := range v.args {
					if isErrorType(r.typ) && !isNilConst(r) {
						return true
					}
				}
				return false
			}
		}
		if len(cur.succs) != 1 {
			return false
		}
		prev, cur = cur, cur.succs[0]
	}
	return false
}

// headerPhis classifies the loop-carried values.
func (a *orderAn) headerPhis(u *uloop, early bool) {
	for _, v := range u.head.instrs {
		if v.op != OpPhi || isErrorType(v.typ) {
			continue
		}
		if u.index[v] {
			continue
		}
		a.classify(u, v, early)
	}
}

func (a *orderAn) classify(u *uloop, phi *Value, early bool) {
	var updates []*Value
	for i, p := range u.head.preds {
		if u.blocks[p] {
			updates = append(updates, phi.args[i])
		}
	}
	carriers := map[*Value]bool{phi: true}
	kind := ""
	sens := ""
	setKind := func(k string) {
		if kind == "" || kind == k {
			kind = k
		} else if (kind == "flag" && k == "minmax") || (kind == "minmax" && k == "flag") {
			kind = "minmax"
		} else {
			sens = "mixed reduction"
		}
	}
	seen := map[*Value]bool{}
	var constFlag *Value
	var visit func(v *Value, blk *Block)
	dependsOnPhi := func(v *Value) bool { return a.dependsOn(u, v, phi, map[*Value]bool{}) }
	visit = func(v *Value, blk *Block) {
		if v == phi {
			return
		}
		if seen[v] {
			return
		}
		seen[v] = true
		if a.invariant(u, v) {
			if v.op == OpConst {
				if constFlag != nil && !constEq(constFlag, v) {
					// two different constants: which one is last depends on the order
					if blk == nil || !u.eqGuard[blk] {
						sens = "last assignment wins"
					}
				}
				constFlag = v
			}
			setKind("flag")
			return
		}
		if u.eqGuard[v.blk] || (blk != nil && u.eqGuard[blk]) {
			setKind("keyed")
			kind = ""
			return
		}
		switch {
		case v.op == OpPhi && u.blocks[v.blk]:
			carriers[v] = true
			for i, x := range v.args {
				visit(x, v.blk.preds[i])
			}
		case v.op == OpBuiltin && v.name == "append":
			carriers[v] = true
			if dependsOnPhi(v.args[0]) {
				setKind("slice")
				visit(v.args[0], v.blk)
			} else if isEmptySlice(v.args[0], 0) {
				setKind("slice")
			} else {
				sens = "last assignment wins"
			}
		case v.op == OpSlice && dependsOnPhi(v.args[0]):
			carriers[v] = true
			visit(v.args[0], v.blk)
			setKind("slice")
		case v.op == OpBin && dependsOnPhi(v) && isInteger(v.typ) && (v.tok == token.ADD || v.tok == token.MUL || v.tok == token.OR || v.tok == token.AND || v.tok == token.XOR || (v.tok == token.SUB && dependsOnPhi(v.args[0]))):
			carriers[v] = true
			setKind("int" + map[bool]string{true: "*", false: "+"}[v.tok == token.MUL])
			for _, x := range v.args {
				if dependsOnPhi(x) {
					visit(x, v.blk)
				}
			}
		case v.op == OpBuiltin && (v.name == "min" || v.name == "max"):
			carriers[v] = true
			setKind("minmax")
			for _, x := range v.args {
				if dependsOnPhi(x) {
					visit(x, v.blk)
				}
			}
		case v.op == OpRecCall && dependsOnPhi(v):
			sens = "order-dependent recursion"
		case isEmptySlice(v, 0):
			setKind("slice")
		default:
			if dependsOnPhi(v) {
				if isFloat(v.typ) {
					sens = "floating-point accumulation"
				} else {
					sens = "order-dependent accumulation"
				}
				return
			}
			// assignment of an element-dependent value: fine only as minimum/maximum
			if blk != nil && a.guardedMinMax(u, v, carriers, blk) {
				setKind("minmax")
				return
			}
			sens = "last assignment wins"
		}
	}
	for i, up := range updates {
		_ = i
		visit(up, nil)
	}
	used := a.usedOutside(u, carriers) || kind == "slice" || a.usedInside(u, carriers)
	if sens != "" {
		if !used && !a.usedForEffect(u, carriers) {
			return
		}
		a.bad("order-sensitive", u, phi, sens+" in a loop-carried value")
		return
	}
	if early && kind != "flag" && kind != "" && a.usedOutside(u, carriers) {
		a.bad("order-sensitive", u, phi, "partial result of a loop that stops at an unspecified element")
		return
	}
	switch {
	case kind == "slice":
		for v := range carriers {
			a.addPerm(v, phi)
		}
	case strings.HasPrefix(kind, "int"), kind == "minmax":
		// values inside the loop depend on the order: only as position to fill a slice
		for v := range carriers {
			for _, use := range v.uses {
				if carriers[use] || !u.blocks[use.blk] {
					continue
				}
				a.orderUse(u, v, use, 0)
			}
		}
	case kind == "flag":
		// a constant flag read inside the loop is order dependent: only allowed in conditions
		for v := range carriers {
			for _, use := range v.uses {
				if carriers[use] || !u.blocks[use.blk] || use.op == OpIf {
					if use.op == OpIf && v.blk == u.head && a.flagGuardsEffect(u, use, carriers) {
						a.bad("order-sensitive", u, use, "only the first element in unspecified order is treated specially")
					}
					continue
				}
			}
		}
	}
}

// flagGuardsEffect: the branch on a loop-carried flag guards an element-dependent effect.
func (a *orderAn) flagGuardsEffect(u *uloop, iff *Value, carriers map[*Value]bool) bool {
	for _, s := range iff.blk.succs {
		if !u.blocks[s] || len(s.preds) != 1 {
			continue
		}
		for b := range u.blocks {
			if !dominates(s, b) || b == u.head {
				continue
			}
			for _, v := range b.instrs {
				switch v.op {
				case OpStore, OpMapUpdate:
					return true
				case OpBuiltin:
					if v.name == "append" || v.name == "delete" {
						return true
					}
				}
			}
		}
	}
	return false
}

func isEmptySlice(v *Value, d int) bool {
	v = stripCT(v)
	if isNilConst(v) || freshBase(v) {
		return true
	}
	if v.op == OpMakeSlice {
		n, ok := constInt(v.args[0])
		return ok && n == 0
	}
	if v.op == OpSlice && v.args[2] != nil {
		n, ok := constInt(v.args[2])
		return ok && n == 0
	}
	return false
}

func (a *orderAn) dependsOn(u *uloop, v, phi *Value, seen map[*Value]bool) bool {
	if v == phi {
		return true
	}
	if v == nil || seen[v] || v.blk == nil || !u.blocks[v.blk] {
		return false
	}
	seen[v] = true
	for _, x := range v.args {
		if a.dependsOn(u, x, phi, seen) {
			return true
		}
	}
	return false
}

// guardedMinMax: the assignment happens under a comparison between the candidate and the carried value.
func (a *orderAn) guardedMinMax(u *uloop, v *Value, carriers map[*Value]bool, blk *Block) bool {
	for b := blk; b != nil && b != u.head; b = idomOf(b) {
		p := b.idom
		if p == nil || len(p.instrs) == 0 {
			return false
		}
		last := p.instrs[len(p.instrs)-1]
		if last.op == OpIf && last.args[0].op == OpBin {
			c := last.args[0]
			switch c.tok {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				x, y := c.args[0], c.args[1]
				if (sameVal(x, v) && carriers[y]) || (sameVal(y, v) && carriers[x]) {
					return true
				}
			}
		}
		if !u.blocks[p] {
			return false
		}
	}
	return false
}

// sameVal: syntactically equal pure expressions.
func sameVal(x, y *Value) bool {
	if x == y {
		return true
	}
	if x == nil || y == nil || x.op != y.op || x.tok != y.tok || x.idx != y.idx || len(x.args) != len(y.args) {
		return false
	}
	switch x.op {
	case OpConst:
		return constEq(x, y)
	case OpGlobal:
		return x.glob == y.glob
	case OpFieldAddr, OpIndexAddr, OpField, OpIndex, OpBin, OpUn, OpConvert, OpChangeType, OpExtract, OpLoad:
		for i := range x.args {
			if !sameVal(x.args[i], y.args[i]) {
				return false
			}
		}
		return true
	case OpBuiltin:
		if x.name != y.name || (x.name != "len" && x.name != "cap") {
			return false
		}
		return sameVal(x.args[0], y.args[0])
	}
	return false
}

func (a *orderAn) usedOutside(u *uloop, carriers map[*Value]bool) bool {
	for v := range carriers {
		for _, use := range v.uses {
			if !u.blocks[use.blk] {
				return true
			}
		}
	}
	return false
}

func (a *orderAn) usedInside(u *uloop, carriers map[*Value]bool) bool {
	for v := range carriers {
		for _, use := range v.uses {
			if u.blocks[use.blk] && !carriers[use] {
				return true
			}
		}
	}
	return false
}

func (a *orderAn) usedForEffect(u *uloop, carriers map[*Value]bool) bool { return false }

// orderUse checks a use of an order-dependent value inside the loop.
func (a *orderAn) orderUse(u *uloop, v, use *Value, depth int) {
	if depth > 12 {
		return
	}
	switch use.op {
	case OpIndexAddr:
		if use.args[1] == v {
			// filling a slice position by position
			for _, s := range use.uses {
				a.slotUse(u, use, s)
			}
			return
		}
	case OpConvert, OpChangeType:
		for _, x := range use.uses {
			a.orderUse(u, use, x, depth+1)
		}
		return
	case OpBin:
		switch use.tok {
		case token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
			// comparison with the carried minimum/maximum, or a bound
			return
		}
		for _, x := range use.uses {
			a.orderUse(u, use, x, depth+1)
		}
		return
	case OpIf:
		return
	case OpBuiltin:
		if use.name == "min" || use.name == "max" {
			return
		}
	case OpStore:
		if use.args[1] == v && a.commutativeCell(u, use.args[0], v) {
			return // the next step of the count itself
		}
	case OpStruct:
		for i, x := range use.args {
			if x == v {
				a.fieldUse(u, use, i, depth+1, map[*Value]bool{})
			}
		}
		return
	case OpPhi:
		if !u.blocks[use.blk] {
			return
		}
		for _, x := range use.uses {
			if x != use && x != v && depth < 6 {
				a.orderUse(u, use, x, depth+1)
			}
		}
		return
	}
	a.bad("order-sensitive", u, use, "a running count in unspecified order is used as a value")
}

// fieldUse: field i of struct value st is order dependent; only uses that read that field matter.
func (a *orderAn) fieldUse(u *uloop, st *Value, i, depth int, seen map[*Value]bool) {
	if seen[st] {
		return
	}
	seen[st] = true
	for _, use := range st.uses {
		switch use.op {
		case OpField:
			if use.idx == i {
				for _, x := range use.uses {
					a.orderUse(u, use, x, depth+1)
				}
			}
		case OpPhi:
			a.fieldUse(u, use, i, depth, seen)
		case OpStore:
			if use.args[1] == st && use.args[0].op == OpAlloc && a.privateAlloc(use.args[0]) {
				for _, x := range use.args[0].uses {
					if x.op == OpLoad {
						a.fieldUse(u, x, i, depth, seen)
					} else if x.op == OpFieldAddr && x.idx == i {
						for _, l := range x.uses {
							if l.op == OpLoad {
								for _, y := range l.uses {
									a.orderUse(u, l, y, depth+1)
								}
							}
						}
					}
				}
				continue
			}
			a.bad("order-sensitive", u, use, "a running count in unspecified order is used as a value")
		default:
			a.bad("order-sensitive", u, use, "a running count in unspecified order is used as a value")
		}
	}
}

// privateAlloc: the cell is only loaded and stored, directly or by field.
func (a *orderAn) privateAlloc(al *Value) bool {
	for _, x := range al.uses {
		switch x.op {
		case OpLoad:
		case OpStore:
			if x.args[1] == al {
				return false
			}
		case OpFieldAddr:
			for _, y := range x.uses {
				if y.op != OpLoad && !(y.op == OpStore && y.args[0] == x) && y.op != OpFieldAddr && y.op != OpIndexAddr {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// slotUse: address x[i] with i order dependent.
func (a *orderAn) slotUse(u *uloop, addr, use *Value) {
	base := addr.args[0]
	switch use.op {
	case OpStore:
		if use.args[0] == addr {
			a.permBase(base, addr)
			return
		}
	case OpFieldAddr:
		for _, s := range use.uses {
			if s.op == OpStore && s.args[0] == use {
				a.permBase(base, addr)
			}
		}
		return
	case OpLoad:
		if a.invariantSlice(u, base) {
			a.bad("order-sensitive", u, use, "reads a position determined by unspecified order")
		}
		return
	}
}

func (a *orderAn) invariantSlice(u *uloop, base *Value) bool { return !u.blocks[base.blk] }

func (a *orderAn) permBase(base, at *Value) {
	b := stripCT(base)
	if b.op == OpLoad || b.op == OpParam {
		// memory that outlives the call
		u := &uloop{what: "position-wise fill"}
		a.bad("order-sensitive", u, at, "fills memory in unspecified order")
		return
	}
	a.addPerm(b, at)
}

// effects checks memory effects inside the loop.
func (a *orderAn) effects(u *uloop, early bool) {
	pt := a.pta()
	for b := range u.blocks {
		if u.eqGuard[b] {
			continue
		}
		for _, v := range b.instrs {
			switch v.op {
			case OpStore:
				addr, val := v.args[0], v.args[1]
				if a.failing(b, nil) {
					continue
				}
				outer := false
				for _, l := range pt.locs(addr) {
					if l.obj.kind == ObjSite || l.obj.kind == ObjExtern {
						if u.blocks[l.obj.site.blk] {
							continue
						}
					}
					outer = true
				}
				if !outer {
					continue
				}
				if addr.op == OpIndexAddr && (a.carriedIndex(u, addr.args[1])) {
					continue // handled with the counter
				}
				if addr.op == OpFieldAddr && addr.args[0].op == OpIndexAddr && a.carriedIndex(u, addr.args[0].args[1]) {
					continue
				}
				if a.invariant(u, val) {
					if early && !u.iter[addr] {
						continue
					}
					if early && u.iter[addr] {
						a.bad("order-sensitive", u, v, "writes for an unspecified subset of the elements")
					}
					continue
				}
				if a.keyedAddr(u, addr) {
					if early {
						a.bad("order-sensitive", u, v, "writes for an unspecified subset of the elements")
					}
					continue
				}
				if a.commutativeCell(u, addr, val) {
					// a counter: its value inside the loop is order dependent
					for _, use := range a.cellReads(u, addr) {
						for _, x := range use.uses {
							if x != val {
								a.orderUse(u, use, x, 0)
							}
						}
					}
					for _, x := range val.uses {
						if x != v {
							a.orderUse(u, val, x, 0)
						}
					}
					continue
				}
				if a.monotoneSlice(u, addr, val) {
					continue
				}
				if a.innerScratch(u, v) {
					continue
				}
				a.bad("order-sensitive", u, v, "assigns to memory that outlives the iteration; the last element in unspecified order wins")
			case OpMapUpdate:
				outer := false
				for _, l := range pt.locs(v.args[0]) {
					if (l.obj.kind == ObjSite || l.obj.kind == ObjExtern) && u.blocks[l.obj.site.blk] {
						continue
					}
					outer = true
				}
				if !outer {
					continue
				}
				if early {
					a.bad("order-sensitive", u, v, "inserts an unspecified subset of the elements")
					continue
				}
				if a.invariant(u, v.args[2]) || a.injective(u, v.args[1]) {
					continue
				}
				if bn := v.args[2]; bn.op == OpBin && isInteger(bn.typ) && (bn.tok == token.ADD || bn.tok == token.SUB) && bn.args[0].op == OpLookup && sameVal(bn.args[0].args[1], v.args[1]) {
					continue
				}
				a.bad("order-sensitive", u, v, "map insertion under a key that several elements may share; the last in unspecified order wins")
			case OpBuiltin:
				if v.name == "delete" && early {
					a.bad("order-sensitive", u, v, "deletes an unspecified subset of the elements")
				}
				if v.name == "print" || v.name == "println" {
					a.bad("output-order", u, v, "prints in unspecified order")
				}
			case OpCall:
				if isOutput(v.name) && !a.failing(b, nil) {
					a.bad("output-order", u, v, "writes output in unspecified order ("+v.name+")")
				}
			case OpSend:
				a.bad("output-order", u, v, "sends in unspecified order")
			case OpRecCall:
				a.bad("order-sensitive", u, v, "recursion in unspecified order")
			}
		}
	}
}

func (a *orderAn) carriedIndex(u *uloop, idx *Value) bool {
	idx = stripConv(idx)
	if idx.op == OpPhi && idx.blk == u.head {
		return true
	}
	if idx.op == OpBin && (idx.tok == token.ADD || idx.tok == token.SUB) {
		for _, x := range idx.args {
			if x.op == OpPhi && x.blk == u.head {
				return true
			}
		}
	}
	return false
}

// keyedAddr: a distinct location per element.
func (a *orderAn) keyedAddr(u *uloop, addr *Value) bool {
	switch addr.op {
	case OpIndexAddr:
		return a.injective(u, addr.args[1]) || a.keyedAddr(u, addr.args[0])
	case OpFieldAddr:
		return a.keyedAddr(u, addr.args[0])
	case OpLoad, OpLookup, OpExtract, OpTypeAssert, OpPhi, OpField:
		if u.elems[addr] && pointerLike(addr.typ) {
			return true
		}
		for _, x := range addr.args {
			if x == nil {
				continue
			}
			if addr.op == OpLookup && a.injective(u, x) {
				return true
			}
			if a.keyedAddr(u, x) {
				return true
			}
		}
	}
	return false
}

// commutativeCell: *addr = *addr (+) x with an integer operation.
func (a *orderAn) commutativeCell(u *uloop, addr, val *Value) bool {
	if val.op != OpBin || !isInteger(val.typ) {
		return false
	}
	switch val.tok {
	case token.ADD, token.MUL, token.OR, token.AND, token.XOR, token.SUB:
	default:
		return false
	}
	for i, x := range val.args {
		if i == 1 && val.tok == token.SUB {
			break
		}
		if x.op == OpLoad && (x.args[0] == addr || sameVal(x.args[0], addr)) {
			return true
		}
	}
	return false
}

func (a *orderAn) cellReads(u *uloop, addr *Value) []*Value {
	pt := a.pta()
	want := map[Loc]bool{}
	for _, l := range pt.locs(addr) {
		want[l] = true
	}
	var out []*Value
	for b := range u.blocks {
		for _, v := range b.instrs {
			if v.op == OpLoad {
				for _, l := range pt.locs(v.args[0]) {
					if want[l] {
						out = append(out, v)
						break
					}
				}
			}
		}
	}
	return out
}

func (a *orderAn) monotoneSlice(u *uloop, addr, val *Value) bool { return false }

// innerScratch: a store to a slice element that is rewritten in every iteration before it is read
// (index-addressed scratch, such as per-iteration index vectors), inside a nested loop of this one.
func (a *orderAn) innerScratch(u *uloop, st *Value) bool {
	addr := st.args[0]
	if addr.op != OpIndexAddr {
		return false
	}
	idx := stripConv(addr.args[1])
	if u.iter[idx] && !a.innerInduction(u, idx) {
		return false
	}
	// every read of the same base inside the loop happens in a nested loop or after; the base must not be used outside
	base := stripCT(addr.args[0])
	if base.op != OpMakeSlice && base.op != OpPhi && base.op != OpSlice {
		return false
	}
	for _, x := range base.uses {
		if !u.blocks[x.blk] {
			return false
		}
	}
	return true
}

func (a *orderAn) innerInduction(u *uloop, idx *Value) bool {
	return idx.op == OpPhi && idx.blk != u.head && u.blocks[idx.blk]
}

func isOutput(name string) bool {
	switch {
	case strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Fprint"), strings.HasPrefix(name, "log."):
		return true
	case strings.HasPrefix(name, "(*strings.Builder).Write"), strings.HasPrefix(name, "(*bytes.Buffer).Write"), strings.HasPrefix(name, "(*os.File).Write"), strings.HasPrefix(name, "(io.Writer).Write"), strings.HasPrefix(name, "(*bufio.Writer)"):
		return true
	case strings.HasSuffix(name, ".Encode"), name == "os.WriteFile":
		return true
	}
	return false
}

// ---- slices in unspecified order

func (a *orderAn) sanitised(x, use *Value) bool {
	for s := range a.aliases(x) {
		for _, u := range s.uses {
			if u.op == OpCall && totalSort(a, u, s) && (valDominates(u, use)) {
				return true
			}
		}
	}
	return false
}

// aliases: values that denote the same backing slice without further appends.
func (a *orderAn) aliases(x *Value) map[*Value]bool {
	m := map[*Value]bool{x: true}
	work := []*Value{x}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		add := func(y *Value) {
			if !m[y] {
				m[y] = true
				work = append(work, y)
			}
		}
		if v.op == OpChangeType || (v.op == OpMakeIface) {
			add(v.args[0])
		}
		for _, u := range v.uses {
			if u.op == OpChangeType || u.op == OpMakeIface {
				add(u)
			}
		}
	}
	return m
}

// totalSort: the call sorts s by an order without ties between distinct elements.
func totalSort(a *orderAn, call, s *Value) bool {
	if len(call.args) == 0 || stripConv(call.args[0]) != stripConv(s) {
		return false
	}
	base := call.name
	if i := strings.Index(base, "["); i > 0 {
		base = base[:i]
	}
	switch base {
	case "slices.Sort", "sort.Ints", "sort.Strings", "sort.Float64s":
		return true
	case "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable":
		f := stripCT(call.args[1])
		if f.fn == nil {
			return false
		}
		return totalComparator(a, f.fn)
	}
	return false
}

func totalComparator(a *orderAn, fn *ssa.Function) bool {
	if !a.c.w.repoFunc(fn) {
		return strings.Contains(fn.String(), "cmp.Compare") || strings.Contains(fn.String(), "strings.Compare") || strings.Contains(fn.String(), "cmp.Less")
	}
	total := false
	fl := a.c.flat(fn)
	fl.each(func(v *Value) {
		var x, y *Value
		switch {
		case v.op == OpBin && (v.tok == token.LSS || v.tok == token.GTR || v.tok == token.LEQ || v.tok == token.GEQ || v.tok == token.SUB):
			x, y = v.args[0], v.args[1]
		case v.op == OpCall && (strings.HasPrefix(v.name, "cmp.Compare") || strings.HasPrefix(v.name, "strings.Compare") || strings.HasPrefix(v.name, "cmp.Less")):
			x, y = v.args[0], v.args[1]
		default:
			return
		}
		cx, rx := fieldChain(x)
		cy, ry := fieldChain(y)
		if rx == nil || ry == nil || rx == ry || strings.Join(cx, ".") != strings.Join(cy, ".") {
			return
		}
		if len(cx) == 0 {
			if _, ok := rx.typ.Underlying().(*types.Basic); ok && rx.op == OpParam {
				total = true
			}
			return
		}
		if identityField(nil, cx[len(cx)-1]) {
			total = true
		}
	})
	return total
}

// fieldChain follows field selections (and element loads) down to a parameter.
func fieldChain(v *Value) ([]string, *Value) {
	var chain []string
	for {
		switch v.op {
		case OpField, OpFieldAddr:
			chain = append([]string{fieldName(v)}, chain...)
			v = v.args[0]
		case OpLoad, OpConvert, OpChangeType:
			v = v.args[0]
		case OpIndexAddr, OpIndex:
			// less(i, j): element i of a captured slice
			v = v.args[1]
		case OpParam:
			return chain, v
		case OpAlloc:
			var src *Value
			for _, u := range v.uses {
				if u.op == OpStore && u.args[0] == v {
					src = u.args[1]
				}
			}
			if src == nil {
				return nil, nil
			}
			v = src
		default:
			return nil, nil
		}
	}
}

func (a *orderAn) permUses(x *Value) {
	u0 := &uloop{what: "slice in unspecified order, filled at " + a.fl.w.pos(a.perm[x].pos)}
	for _, use := range x.uses {
		if a.sanitised(x, use) {
			continue
		}
		switch use.op {
		case OpBuiltin:
			switch use.name {
			case "len", "cap", "clear":
				continue
			case "append":
				if use.args[0] == x {
					a.addPerm(use, a.perm[x])
				} else {
					a.addPerm(use, a.perm[x])
				}
				continue
			case "copy":
				if use.args[0] == x {
					continue
				}
				a.addPerm(stripCT(use.args[0]), a.perm[x])
				continue
			}
		case OpPhi:
			a.addPerm(use, a.perm[x])
			continue
		case OpChangeType:
			a.addPerm(use, a.perm[x])
			continue
		case OpMakeIface:
			// only for sort.Slice
			okUse := true
			for _, y := range use.uses {
				if !(y.op == OpCall && strings.HasPrefix(y.name, "sort.")) {
					okUse = false
				}
			}
			if okUse {
				continue
			}
		case OpSlice:
			if isEmptySlice(use, 0) {
				continue
			}
			if use.args[1] == nil && use.args[2] == nil {
				a.addPerm(use, a.perm[x])
				continue
			}
			a.bad("order-sensitive", u0, use, "takes part of a slice in unspecified order")
			continue
		case OpIndexAddr, OpIndex:
			if use.args[0] == x {
				a.permIndex(x, use, u0)
				continue
			}
		case OpCall:
			base := use.name
			if i := strings.Index(base, "["); i > 0 {
				base = base[:i]
			}
			switch base {
			case "slices.Contains", "slices.ContainsFunc", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.Ints", "sort.Strings", "sort.SliceStable", "slices.Max", "slices.Min", "slices.MaxFunc", "slices.MinFunc":
				if base == "slices.MaxFunc" || base == "slices.MinFunc" {
					break
				}
				continue
			case "slices.Index", "slices.IndexFunc":
				ok := true
				for _, y := range use.uses {
					if !(y.op == OpBin && (isConstInt(y.args[0]) || isConstInt(y.args[1]))) {
						ok = false
					}
				}
				if ok {
					continue
				}
			}
			if strings.HasPrefix(use.name, "fmt.Errorf") || strings.HasPrefix(use.name, "fmt.Sprintf") {
				continue
			}
		case OpUnknown:
			continue // callback argument of a membership test
		case OpStruct, OpClosure:
			if use.op == OpClosure {
				continue
			}
		case OpRange:
			continue
		}
		a.bad("order-sensitive", u0, use, "a slice in unspecified order is used without sorting it by a total key ("+opNames[use.op]+")")
	}
}

func isConstInt(v *Value) bool { _, ok := constInt(v); return ok }

// permIndex: an element access on a slice in unspecified order: either a whole iteration or a position.
func (a *orderAn) permIndex(x, ad *Value, u0 *uloop) {
	// pure fills were already accounted for
	onlyStore := len(ad.uses) > 0
	for _, s := range ad.uses {
		if !(s.op == OpStore && s.args[0] == ad) && s.op != OpFieldAddr {
			onlyStore = false
		}
		if s.op == OpFieldAddr {
			for _, t := range s.uses {
				if !(t.op == OpStore && t.args[0] == s) {
					onlyStore = false
				}
			}
		}
	}
	if onlyStore {
		return
	}
	idx := stripConv(ad.args[1])
	var l *Loop
	for _, lp := range a.loops {
		if lp.blocks[ad.blk] && inductionOf(lp, idx) {
			if l == nil || len(lp.blocks) < len(l.blocks) {
				l = lp
			}
		}
	}
	if l == nil {
		a.bad("order-sensitive", u0, ad, "takes a particular element of a slice in unspecified order")
		return
	}
	u := &uloop{Loop: l, src: ad, what: "iteration over a slice in unspecified order at " + a.fl.w.pos(ad.pos), elems: map[*Value]bool{}, keys: map[*Value]bool{}, index: map[*Value]bool{}}
	for _, v := range l.head.instrs {
		if v.op == OpPhi && inductionOf(l, v) {
			u.index[v] = true
		}
	}
	u.index[idx] = true
	for _, ld := range ad.uses {
		if ld.op == OpLoad {
			u.elems[ld] = true
			u.keys[ld] = true
		}
	}
	u.elems[ad] = true
	if a.done[l.head] {
		return
	}
	a.done[l.head] = true
	a.n++
	a.analyse(u)
}

// inductionOf: v is the loop's counter (header phi, or header phi plus a constant).
func inductionOf(l *Loop, v *Value) bool {
	v = stripConv(v)
	if v.op == OpBin && (v.tok == token.ADD || v.tok == token.SUB) && isConstInt(v.args[1]) {
		v = v.args[0]
	}
	if v.op != OpPhi || v.blk != l.head {
		return false
	}
	for i, p := range l.head.preds {
		if !l.blocks[p] {
			continue
		}
		up := v.args[i]
		if up.op != OpBin || (up.tok != token.ADD && up.tok != token.SUB) || up.args[0] != v || !isConstInt(up.args[1]) {
			return false
		}
	}
	return isInteger(v.typ)
}

var _ = fmt.Sprint

// ofSlice: a sequence of the elements of a slice, in their order.
func ofSlice(v *Value) bool {
	if v = stripConv(v); v.op != OpCall {
		return false
	}
	switch baseName(v.name) {
	case "slices.Chunk", "slices.Values", "slices.All", "slices.Backward":
		return true
	}
	return false
}
