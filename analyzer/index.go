package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "Row-major addressing: every loop that turns outcome indices into a flat table index is reduced to its recurrence (polynomials over the loop's accumulators, the index entry and the number of outcomes at the loop's position) and compared with the mixed-radix recurrence with the last variable varying fastest; the inverse and the step to the next cell likewise, with the range the loop covers. A missing entry leads to a false second result on every path, a row is the window [start, start+length) with the number of outcomes of the last variable as length, the number of indices is tested first, and no index arithmetic is done in integers narrower than the machine word.", checkC15)
}

// namer gives canonical names to loads, so that two loads of the same cell have the same name.
type namer struct {
	res   map[*Value]*Value
	kinds map[string]elemAtom
}

type elemAtom struct {
	base *Value // root of the indexed object
	path string
	idx  Poly
	typ  types.Type
}

func newNamer() *namer { return &namer{kinds: map[string]elemAtom{}} }

func (n *namer) root(v *Value) (*Value, string) {
	path := ""
	for d := 0; d < 20; d++ {
		v = stripCT(v)
		if r := n.res[v]; r != nil {
			v = r
			continue
		}
		switch v.op {
		case OpLoad:
			v = v.args[0]
			path = "*" + path
		case OpFieldAddr:
			path = "." + fieldName(v) + path
			v = v.args[0]
		case OpField:
			path = "." + fieldName(v) + path
			v = v.args[0]
		case OpIndexAddr, OpIndex:
			path = "[" + strings.ReplaceAll(polyWith(v.args[1], n.res, n.atom, 1).String(), "·", "×") + "]" + path
			v = v.args[0]
		default:
			return v, path
		}
	}
	return v, path
}

func (n *namer) atom(v *Value) string {
	v = stripCT(v)
	switch v.op {
	case OpLoad, OpField, OpIndex:
		a := v
		if v.op == OpLoad {
			a = v.args[0]
		}
		field := ""
		for a.op == OpFieldAddr || a.op == OpField {
			field = "." + fieldName(a) + field
			a = a.args[0]
			if a.op == OpLoad && a.args[0].op == OpIndexAddr {
				a = a.args[0]
			}
		}
		if a.op == OpIndexAddr || a.op == OpIndex {
			idx := polyWith(a.args[1], n.res, n.atom, 1)
			b, p := n.root(a.args[0])
			name := fmt.Sprintf("<v%d%s%s@%s>", b.id, p, field, strings.ReplaceAll(idx.String(), "·", "×"))
			n.kinds[name] = elemAtom{b, p + field, idx, v.typ}
			return name
		}
		b, p := n.root(v)
		return fmt.Sprintf("<v%d%s>", b.id, p)
	case OpBuiltin:
		if v.name == "len" {
			b, p := n.root(v.args[0])
			if b.op == OpMakeSlice && p == "" {
				// the length it was made with
				return n.polyName(polyWith(b.args[0], n.res, n.atom, 2))
			}
			return fmt.Sprintf("len<v%d%s>", b.id, p)
		}
	}
	return valAtom(v)
}

func (n *namer) polyName(p Poly) string {
	if len(p) == 1 {
		for k, c := range p {
			if c == 1 && k != "" && !strings.Contains(k, "·") {
				return k
			}
		}
	}
	return "(" + strings.ReplaceAll(p.String(), "·", "×") + ")"
}

func (n *namer) poly(v *Value) Poly { return polyWith(v, n.res, n.atom, 0) }

// iterPath: one acyclic path through a loop body, from the header back to the header (or out of the loop).
type iterPath struct {
	blocks []*Block
	res    map[*Value]*Value
	back   bool
	exit   *Block
	conds  []pathCond
}

type pathCond struct {
	cond  *Value
	taken bool
}

// iterPaths enumerates the paths of one iteration; false if the body has inner loops or too many paths.
func iterPaths(l *Loop) ([]iterPath, bool) {
	var out []iterPath
	ok := true
	var walk func(b *Block, seen map[*Block]bool, blocks []*Block, res map[*Value]*Value, conds []pathCond)
	walk = func(b *Block, seen map[*Block]bool, blocks []*Block, res map[*Value]*Value, conds []pathCond) {
		if !ok || len(out) > 64 {
			ok = false
			return
		}
		blocks = append(append([]*Block{}, blocks...), b)
		var cond *Value
		if t := b.instrs[len(b.instrs)-1]; t.op == OpIf {
			cond = t.args[0]
		}
		for i, s := range b.succs {
			cs := conds
			if cond != nil && len(b.succs) == 2 {
				cs = append(append([]pathCond{}, conds...), pathCond{cond, i == 0})
			}
			if s == l.head {
				r := map[*Value]*Value{}
				for k, v := range res {
					r[k] = v
				}
				// values of the header's phis for the next iteration
				out = append(out, iterPath{blocks: blocks, res: r, back: true, conds: cs})
				continue
			}
			if !l.blocks[s] {
				out = append(out, iterPath{blocks: blocks, res: res, exit: s, conds: cs})
				continue
			}
			if seen[s] {
				ok = false
				return
			}
			r := map[*Value]*Value{}
			for k, v := range res {
				r[k] = v
			}
			for pi, p := range s.preds {
				if p != b {
					continue
				}
				for _, phi := range s.instrs {
					if phi.op != OpPhi {
						break
					}
					if pi < len(phi.args) {
						a := phi.args[pi]
						if x := res[a]; x != nil {
							a = x
						}
						r[phi] = a
					}
				}
				break
			}
			sn := map[*Block]bool{}
			for k := range seen {
				sn[k] = true
			}
			sn[s] = true
			walk(s, sn, blocks, r, cs)
		}
	}
	walk(l.head, map[*Block]bool{l.head: true}, nil, map[*Value]*Value{}, nil)
	return out, ok
}

// nextOf: value of a header phi for the next iteration on a path.
func nextOf(l *Loop, p iterPath, phi *Value) *Value {
	last := p.blocks[len(p.blocks)-1]
	for i, q := range l.head.preds {
		if q == last && i < len(phi.args) {
			return phi.args[i]
		}
	}
	return nil
}

// rankLoop: a loop that accumulates a flat index from entries of an index list.
type rankLoop struct {
	l      *Loop
	iv     *IndVar
	acc    *Value // accumulator phi
	stride *Value // stride phi, or nil (Horner form)
	nm     *namer
	entry  elemAtom
	radix  elemAtom
	bad    string
	at     *Value
}

func isIntSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isInteger(s.Elem())
}

// rankLoops finds loops that multiply or add entries of the given index list into an accumulator.
func rankLoops(fl *Flat, idx *Value) []*rankLoop {
	var out []*rankLoop
	for _, l := range fl.loops() {
		paths, ok := iterPaths(l)
		if !ok {
			continue
		}
		var iv *IndVar
		ivs := inductions(l)
		for _, x := range ivs {
			if x.cond != nil {
				iv = x
			}
		}
		if iv == nil && len(ivs) > 0 {
			iv = ivs[0]
		}
		if iv == nil {
			continue
		}
		var phis []*Value
		for _, phi := range l.head.instrs {
			if phi.op != OpPhi {
				break
			}
			if isInteger(phi.typ) && phi != iv.phi {
				phis = append(phis, phi)
			}
		}
		nm := newNamer()
		isEntry := func(a string) (elemAtom, bool) {
			e, ok := nm.kinds[a]
			return e, ok && e.base == idx && e.path == ""
		}
		for _, phi := range phis {
			hit := false
			r := &rankLoop{l: l, iv: iv, acc: phi, nm: nm, at: phi}
			n := 0
			for _, p := range paths {
				if !p.back {
					continue
				}
				n++
				nm.res = p.res
				nx := nextOf(l, p, phi)
				if nx == nil {
					continue
				}
				q := nm.poly(nx)
				for _, a := range atomsOf(q) {
					if e, ok := isEntry(a); ok {
						hit = true
						r.entry = e
						r.at = nx
						if nx.op == OpPhi {
							r.at = phi
						}
					}
				}
			}
			if !hit || n == 0 {
				continue
			}
			for _, p := range paths {
				if !p.back {
					continue
				}
				nm.res = p.res
				r.checkPath(p, phis, isEntry)
			}
			nm.res = nil
			out = append(out, r)
		}
	}
	return out
}

// checkPath compares the recurrence on one path with the mixed-radix recurrence.
func (r *rankLoop) checkPath(p iterPath, phis []*Value, isEntry func(string) (elemAtom, bool)) {
	nm := r.nm
	cur := nm.poly(r.iv.cur)
	q := nm.poly(nextOf(r.l, p, r.acc))
	acc := polyAtom(nm.atom(r.acc))
	zero := map[string]bool{}
	one := map[string]bool{}
	for _, c := range p.conds {
		cd, taken := c.cond, c.taken
		for cd.op == OpUn && cd.tok == token.NOT {
			cd, taken = cd.args[0], !taken
		}
		if cd.op != OpBin {
			continue
		}
		eq := cd.tok == token.EQL && taken || cd.tok == token.NEQ && !taken
		if !eq {
			continue
		}
		for i := 0; i < 2; i++ {
			if k, ok := constInt(cd.args[i]); ok {
				a := nm.poly(cd.args[1-i])
				for _, at := range atomsOf(a) {
					if a.equal(polyAtom(at)) {
						if k == 0 {
							zero[at] = true
						}
						if k == 1 {
							one[at] = true
						}
					}
				}
			}
		}
	}
	var entry string
	var radices []string
	scan := func(q Poly) {
		for _, a := range atomsOf(q) {
			if e, ok := isEntry(a); ok {
				if !e.idx.equal(cur) {
					r.bad = "the index entry is taken at another position than the loop's"
				}
				entry = a
			} else if e, ok := nm.kinds[a]; ok && isInteger(e.typ) {
				radices = append(radices, a)
				if !e.idx.equal(cur) {
					r.bad = "the number of outcomes is taken at another position than the index entry"
				}
				r.radix = e
			}
		}
	}
	scan(q)
	// stride form: acc' = acc + entry*stride; stride' = stride*radix
	for _, s := range phis {
		if s == r.acc {
			continue
		}
		sp := polyAtom(nm.atom(s))
		if !q.mentions(sp) && r.stride != s {
			continue
		}
		r.stride = s
		sq := nm.poly(nextOf(r.l, p, s))
		scan(sq)
		if entry == "" {
			// path without the entry: only right if the entry is zero there
			ok := false
			for z := range zero {
				if _, is := isEntry(z); is {
					ok = true
				}
			}
			if !ok || !q.equal(acc) {
				r.bad = "on one path the entry is not added to the index"
				return
			}
		} else if !q.equal(acc.add(polyAtom(entry).mul(sp), 1)) {
			r.bad = "the index grows by something other than entry times stride: " + q.add(acc, -1).String()
			return
		}
		good := false
		for _, a := range radices {
			if sq.equal(sp.mul(polyAtom(a))) {
				good = true
			}
		}
		if !good && sq.equal(sp) {
			for o := range one {
				if e, ok := nm.kinds[o]; ok && e.idx.equal(cur) {
					good = true
				}
			}
		}
		if !good {
			r.bad = "the stride is not multiplied by the number of outcomes at the same position"
		}
		return
	}
	// Horner form: acc' = acc*radix + entry
	if entry == "" {
		r.bad = "on one path the entry is not added to the index"
		return
	}
	for _, a := range radices {
		if q.equal(acc.mul(polyAtom(a)).add(polyAtom(entry), 1)) {
			return
		}
	}
	if r.bad == "" {
		r.bad = "the index is not accumulated by multiplying with the number of outcomes and adding the entry: " + q.String()
	}
}

func checkC15(c *Ctx) {
	type spec struct {
		rel, recv, name string
		row             bool
	}
	for _, s := range []spec{{"ve", "Factor", "Index", false}, {"ve", "Factor", "Get", false}, {"ve", "Factor", "Set", false}, {"ve", "Factor", "IndexWithNoData", false}, {"ve", "Factor", "RowIndex", true}, {"ve", "Factor", "Row", true}, {"", "Factor", "Row", false}} {
		fn := c.must(s.rel, s.recv, s.name)
		if fn == nil {
			continue
		}
		fl := c.flat(fn)
		idx := paramNamed(fl, isIntSlice, 0)
		key := shortFn(fn)
		if idx == nil {
			c.undecide("rank", key+": index list not recognised")
			continue
		}
		rs := rankLoops(fl, idx)
		if len(rs) == 0 {
			c.undecide("rank", key+": no index recurrence recognised")
			continue
		}
		for _, r := range rs {
			c.rank(fl, fn, r, idx, s.row)
		}
		off := int64(0)
		if s.row {
			off = 1
		}
		c.lengthTest(fl, fn, idx, off)
		c.entriesUsed(fl, fn, idx, off)
	}
	c.inverse()
	c.odometers()
	c.missingIndex("ve", "Factor", "IndexWithNoData")
	c.missingIndex("", "Factor", "Row")
	c.rowWindow("ve", "Factor", "Row")
	c.rowWindow("", "Factor", "Row")
	c.narrow()
	c.floor("rank", 5)
	c.floor("inverse", 1)
	c.floor("step", 1)
}

// rank checks initial values and range of a rank loop.
func (c *Ctx) rank(fl *Flat, fn *ssa.Function, r *rankLoop, idx *Value, row bool) {
	key := shortFn(fn)
	fail := func(msg string) {
		c.fail("rank", key+": flat index", fl.where(r.at), msg, fl.chain(r.at))
	}
	if r.bad != "" {
		fail(r.bad)
		return
	}
	nm := r.nm
	initOf := func(phi *Value) *Value {
		for i, p := range r.l.head.preds {
			if !r.l.blocks[p] && i < len(phi.args) {
				return phi.args[i]
			}
		}
		return nil
	}
	a0 := nm.poly(initOf(r.acc))
	if len(a0) != 0 {
		fail("the index does not start at zero")
		return
	}
	lenIdx := polyAtom(fmt.Sprintf("len<v%d>", idx.id))
	radixLen := Poly{}
	if r.radix.base != nil {
		p := r.radix.path
		if i := strings.LastIndex(p, "*."); i >= 0 && false {
			p = p[:i]
		}
		if j := strings.LastIndex(p, "."); j >= 0 && !strings.HasSuffix(p, "*") {
			p = p[:j] // element field
		}
		radixLen = polyAtom(fmt.Sprintf("len<v%d%s>", r.radix.base.id, p))
	}
	if row && r.radix.base != nil && stripCT(r.radix.base).op == OpSlice {
		c.undecide("rank", key+": part of the variables not followed")
		return
	}
	n := []Poly{lenIdx}
	if row {
		n = append(n, radixLen.add(polyConst(1), -1))
	} else {
		n = append(n, radixLen)
	}
	full := func(p Poly, off int64) bool {
		for _, x := range n {
			if p.equal(x.add(polyConst(off), 1)) {
				return true
			}
		}
		return false
	}
	first := r.iv.first(nm.atom)
	if r.stride != nil {
		s0 := nm.poly(initOf(r.stride))
		if row {
			ok := false
			for _, a := range atomsOf(s0) {
				if e, is := nm.kinds[a]; is && s0.equal(polyAtom(a)) && e.base == r.radix.base && e.path == r.radix.path && e.idx.equal(radixLen.add(polyConst(1), -1)) {
					ok = true
				}
			}
			for _, a := range atomsOf(s0) {
				if e, is := nm.kinds[a]; is && !ok && s0.equal(polyAtom(a)) && e.base == r.radix.base && e.path == r.radix.path {
					d := e.idx.add(radixLen, -1)
					if onlyConst(e.idx) || onlyConst(d) {
						fail("the stride does not start with the length of a row: " + s0.String())
						return
					}
				}
			}
			if !ok && s0.equal(polyConst(1)) {
				scaled := false
				for _, u := range allUses(r.acc) {
					if u.op == OpBin && u.tok == token.MUL {
						scaled = true
					}
				}
				if scaled {
					c.undecide("rank", key+": row number scaled after the loop")
					return
				}
			}
			if !ok && (len(s0) == 0 || onlyConst(s0)) {
				fail("the stride does not start with the length of a row: " + s0.String())
				return
			}
			if !ok {
				c.undecide("rank", key+": initial stride not recognised")
				return
			}
		} else if !s0.equal(polyConst(1)) {
			fail("the stride does not start at one: " + s0.String())
			return
		}
		if r.iv.step != -1 {
			if r.iv.step == 1 && len(first) == 0 {
				fail("the first variable varies fastest instead of the last")
			} else {
				c.undecide("rank", key+": loop direction not recognised")
			}
			return
		}
		last := r.iv.last(nm.atom)
		if last == nil {
			c.undecide("rank", key+": loop bound not recognised")
			return
		}
		if len(last) != 0 {
			if onlyConst(last) {
				fail("the loop stops before the first variable")
				return
			}
			c.undecide("rank", key+": loop bound not recognised")
			return
		}
		if !full(first, -1) {
			for _, o := range []int64{-3, -2, 0, 1} {
				if full(first, o) {
					fail("the loop does not start at the last index")
					return
				}
			}
			c.undecide("rank", key+": start of the loop not recognised: "+first.String())
			return
		}
	} else {
		if r.iv.step != 1 {
			if r.iv.step == -1 {
				fail("the first variable varies fastest instead of the last")
			}
			return
		}
		end := r.iv.end(nm.atom)
		if len(first) != 0 && onlyConst(first) {
			fail("the loop skips the first variable")
			return
		}
		if end == nil || len(first) != 0 {
			c.undecide("rank", key+": loop bound not recognised")
			return
		}
		if !full(end, 0) {
			for _, o := range []int64{-2, -1, 1} {
				if full(end, o) {
					fail("the loop stops before the last variable")
					return
				}
			}
			c.undecide("rank", key+": loop bound not recognised: "+end.String())
			return
		}
		if row {
			c.undecide("rank", key+": row length factor not followed")
			return
		}
	}
	c.ok("rank", key+" at "+fl.where(r.at))
}

func onlyConst(p Poly) bool {
	for k := range p {
		if k != "" {
			return false
		}
	}
	return true
}

// entriesUsed: with one or more indices, no position is returned without looking at any of them.
func (c *Ctx) entriesUsed(fl *Flat, fn *ssa.Function, idx *Value, off int64) {
	key := shortFn(fn)
	for n := int64(1); n <= 3; n++ {
		s := &Sim{fl: fl, arith: true}
		s.assume = func(s *Sim, env simEnv, v *Value) (Fact, bool) {
			if v.op != OpBuiltin || v.name != "len" {
				return Fact{}, false
			}
			if x := stripCT(v.args[0]); x == idx {
				return intFact(n), true
			} else if sl, ok := x.typ.Underlying().(*types.Slice); ok && !isFloat(sl.Elem()) {
				return intFact(n + off), true
			}
			return Fact{}, false
		}
		s.visit = func(s *Sim, env simEnv, v *Value) bool {
			if v.op == OpIndexAddr && stripCT(v.args[0]) == idx {
				return true
			}
			if v.op == OpCall && len(v.args) > 0 {
				for _, a := range v.args {
					if stripCT(a) == idx {
						return true
					}
				}
			}
			return false
		}
		s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool {
			if k != exitReturn {
				return true
			}
			if m := len(v.args); m > 1 {
				if f := s.get(env, v.args[m-1]); f.kind == fConst && f.c == "false" {
					return true
				}
			}
			return false
		}
		if !s.run(nil, nil) {
			c.fail("entries", key+": indices not used", fl.where(s.badExit), fmt.Sprintf("with %d indices, a cell can be chosen without looking at any of them", n), fl.chain(s.badExit))
			return
		}
	}
	c.ok("entries", key)
}

// lengthTest: another number of indices than variables (minus off) ends in a panic.
func (c *Ctx) lengthTest(fl *Flat, fn *ssa.Function, idx *Value, off int64) {
	key := shortFn(fn)
	nm := newNamer()
	lenIdx := polyAtom(fmt.Sprintf("len<v%d>", idx.id))
	less, more, unknown := false, false, false
	fl.each(func(u *Value) {
		if u.op != OpBin {
			return
		}
		for _, x := range u.uses {
			tok := u.tok
			if x.op == OpUn && x.tok == token.NOT {
				unknown = true
			}
			if x.op != OpIf {
				continue
			}
			p, q := nm.poly(u.args[0]), nm.poly(u.args[1])
			d := p.add(q, -1)
			if !d.mentions(lenIdx) || len(atomsOf(d)) < 1 {
				continue
			}
			if d[atomOnly(lenIdx)] < 0 {
				d = Poly{}.add(d, -1)
				tok = swapTok(tok)
			}
			if endsInPanic(x.blk.succs[1]) {
				tok = negTok(tok)
			} else if !endsInPanic(x.blk.succs[0]) {
				continue
			}
			// d = len(indices) - other - const  <tok> 0 panics
			rest := d.add(lenIdx, -1)
			other := ""
			for _, a := range atomsOf(rest) {
				other = a
			}
			if other == "" || !strings.HasPrefix(other, "len<") || !onlyConst(rest.add(polyAtom(other), 1)) {
				unknown = true
				continue
			}
			k := rest.add(polyAtom(other), 1)[""] // len(indices) - len(other) + k <tok> 0
			switch tok {
			case token.NEQ:
				if k == off {
					less, more = true, true
				}
			case token.LSS:
				if k == off {
					less = true
				}
			case token.GTR:
				if k == off {
					more = true
				}
			case token.LEQ:
				if k == off+1 {
					less = true
				}
			case token.GEQ:
				if k == off-1 {
					more = true
				}
			default:
			}
		}
	})
	switch {
	case less && more:
		c.ok("count-test", key)
	case unknown:
		c.undecide("count-test", key+": comparison of the number of indices not recognised")
	default:
		c.fail("count-test", key, "-", "a wrong number of indices does not end in a panic", "")
	}
}

func atomOnly(p Poly) string {
	for k := range p {
		return k
	}
	return ""
}

// inverse: Factor.Outcomes.
func (c *Ctx) inverse() {
	fn := c.must("ve", "Factor", "Outcomes")
	if fn == nil {
		return
	}
	fl := c.flat(fn)
	out := paramNamed(fl, isIntSlice, 0)
	flat := paramNamed(fl, func(t types.Type) bool { return isInteger(t) }, 0)
	key := shortFn(fn)
	if out == nil || flat == nil {
		c.undecide("inverse", key+": parameters not recognised")
		return
	}
	n := 0
	for _, l := range fl.loops() {
		paths, ok := iterPaths(l)
		if !ok {
			continue
		}
		ivs := inductions(l)
		var iv *IndVar
		for _, x := range ivs {
			if x.cond != nil {
				iv = x
			}
		}
		if iv == nil {
			continue
		}
		for b := range l.blocks {
			for _, st := range b.instrs {
				if st.op != OpStore || st.args[0].op != OpIndexAddr || stripCT(st.args[0].args[0]) != out {
					continue
				}
				nm := newNamer()
				cur := nm.poly(iv.cur)
				v := stripConv(st.args[1])
				fail := func(msg string) { c.fail("inverse", key+": outcomes", fl.where(st), msg, fl.chain(st)) }
				if v.op != OpBin || v.tok != token.REM {
					if v.op == OpBin && v.tok == token.QUO {
						fail("the outcome is a quotient instead of a remainder")
						n++
					}
					continue
				}
				n++
				if !nm.poly(st.args[0].args[1]).equal(cur) {
					fail("the outcome is stored at another position than the loop's")
					continue
				}
				x := stripConv(v.args[0])
				ra := nm.poly(v.args[1])
				e, isE := elemAtom{}, false
				if len(atomsOf(ra)) == 1 {
					e, isE = nm.kinds[atomsOf(ra)[0]]
				}
				if !isE || !ra.equal(polyAtom(atomsOf(ra)[0])) {
					c.undecide("inverse", key+": divisor not recognised")
					continue
				}
				if !e.idx.equal(cur) {
					fail("the number of outcomes is taken at another position than the outcome")
					continue
				}
				if x.op != OpPhi || x.blk != l.head {
					c.undecide("inverse", key+": dividend not recognised")
					continue
				}
				good := true
				for _, p := range paths {
					if !p.back {
						continue
					}
					nm.res = p.res
					nx := nextOf(l, p, x)
					for r := p.res[nx]; r != nil && r != nx; r = p.res[nx] {
						nx = r
					}
					nx = stripConv(nx)
					if nx.op == OpBin && nx.tok == token.QUO && stripConv(nx.args[0]) == x && nm.poly(nx.args[1]).equal(ra) {
						continue
					}
					good = false
				}
				nm.res = nil
				if !good {
					fail("the rest is not divided by the number of outcomes before the next position")
					continue
				}
				for i, p := range l.head.preds {
					if !l.blocks[p] && stripConv(x.args[i]) != flat {
						good = false
					}
				}
				if !good {
					c.undecide("inverse", key+": start value not recognised")
					continue
				}
				first := iv.first(nm.atom)
				last := iv.last(nm.atom)
				if iv.step != -1 {
					fail("the positions are not visited from the last to the first")
					continue
				}
				if last == nil {
					c.undecide("inverse", key+": loop bound not recognised")
					continue
				}
				if len(last) != 0 && onlyConst(last) {
					fail("the first position is not set")
					continue
				}
				okF := false
				for _, a := range atomsOf(first) {
					if strings.HasPrefix(a, "len<") && first.equal(polyAtom(a).add(polyConst(1), -1)) {
						okF = true
					}
				}
				if !okF {
					bad := false
					for _, a := range atomsOf(first) {
						if strings.HasPrefix(a, "len<") && onlyConst(first.add(polyAtom(a), -1)) {
							bad = true
						}
					}
					if bad {
						fail("the last position is not set first")
					} else {
						c.undecide("inverse", key+": loop start not recognised")
					}
					continue
				}
				c.ok("inverse", fl.where(st))
			}
		}
	}
	if n == 0 {
		c.undecide("inverse", key+": not recognised")
	}
}

// odometers: loops that advance an index list by one cell.
func (c *Ctx) odometers() {
	seen := map[token.Pos]bool{}
	for _, fn := range c.w.exportedFuncs("ve") {
		fl := c.flat(fn)
		for _, l := range fl.loops() {
			paths, ok := iterPaths(l)
			if !ok {
				continue
			}
			var inc *Value
			for b := range l.blocks {
				for _, st := range b.instrs {
					if st.op != OpStore || st.args[0].op != OpIndexAddr || !isInteger(st.args[1].typ) {
						continue
					}
					v := stripConv(st.args[1])
					if v.op == OpBin && v.tok == token.ADD {
						if k, ok := constInt(v.args[1]); ok && k == 1 {
							if x := stripConv(v.args[0]); x.op == OpLoad && x.args[0].op == OpIndexAddr && sameVal(x.args[0].args[0], st.args[0].args[0]) && sameVal(x.args[0].args[1], st.args[0].args[1]) {
								inc = st
							}
						}
					}
				}
			}
			if inc == nil || seen[inc.pos] {
				continue
			}
			// only loops over positions, not counters of a fixed cell
			var iv *IndVar
			for _, x := range inductions(l) {
				if x.cond != nil {
					iv = x
				}
			}
			if iv == nil {
				continue
			}
			nm := newNamer()
			cur := nm.poly(iv.cur)
			if !nm.poly(inc.args[0].args[1]).equal(cur) {
				continue
			}
			seen[inc.pos] = true
			c.odometer(fl, l, iv, inc, paths, nm, cur)
		}
	}
}

func (c *Ctx) odometer(fl *Flat, l *Loop, iv *IndVar, inc *Value, paths []iterPath, nm *namer, cur Poly) {
	where := "(*ve.Variables) operations: next cell"
	if inc.fr != nil {
		where = shortFn(inc.fr.fn) + ": next cell"
	}
	fail := func(msg string) { c.fail("step", where, fl.where(inc), msg, fl.chain(inc)) }
	base := inc.args[0].args[0]
	entryName := func() string {
		b, p := nm.root(base)
		return fmt.Sprintf("<v%d%s@%s>", b.id, p, strings.ReplaceAll(cur.String(), "·", "×"))
	}()
	if iv.step != -1 {
		if iv.step == 1 {
			fail("the first variable varies fastest instead of the last")
		} else {
			c.undecide("step", "direction not recognised")
		}
		return
	}
	last := iv.last(nm.atom)
	if last == nil {
		c.undecide("step", "loop bound not recognised")
		return
	}
	if len(last) != 0 {
		if onlyConst(last) {
			fail("the first variable is never advanced")
		} else {
			c.undecide("step", "loop bound not recognised")
		}
		return
	}
	first := iv.first(nm.atom)
	okF := false
	for _, a := range atomsOf(first) {
		if strings.HasPrefix(a, "len<") {
			d := first.add(polyAtom(a), -1)
			if d.equal(polyConst(-1)) {
				okF = true
			} else if onlyConst(d) {
				fail("the last variable is not advanced first")
				return
			}
		}
	}
	if !okF {
		c.undecide("step", "start of the loop not recognised")
		return
	}
	for _, p := range paths {
		nm.res = p.res
		var stores []*Value
		afterInc := false
		incSeen := false
		for _, b := range p.blocks {
			for _, v := range b.instrs {
				if v == inc {
					incSeen = true
				}
				if v.op == OpStore && v.args[0].op == OpIndexAddr && sameVal(v.args[0].args[0], base) && v != inc {
					stores = append(stores, v)
					if incSeen {
						afterInc = true
					}
				}
			}
		}
		_ = afterInc
		// carry: the advanced entry reached the number of outcomes
		carry, known := false, false
		for _, pc := range p.conds {
			cd, taken := pc.cond, pc.taken
			for cd.op == OpUn && cd.tok == token.NOT {
				cd, taken = cd.args[0], !taken
			}
			if cd.op != OpBin {
				continue
			}
			x, y, tok := nm.poly(cd.args[0]), nm.poly(cd.args[1]), cd.tok
			ex, ey := x.mentions(polyAtom(entryName)), y.mentions(polyAtom(entryName))
			if ey && !ex {
				x, y, tok = y, x, swapTok(tok)
			} else if !ex {
				continue
			}
			if !taken {
				tok = negTok(tok)
			}
			// the entry was loaded after (or before) it was advanced
			loadedAfter := false
			lv := stripConv(cd.args[0])
			if ey && !ex {
				lv = stripConv(cd.args[1])
			}
			if lv.op == OpLoad && (lv.blk != inc.blk || instrIndex(lv) > instrIndex(inc)) && dominates(inc.blk, lv.blk) {
				loadedAfter = true
			}
			d := x.add(polyAtom(entryName), -1) // constant offset
			if !onlyConst(d) {
				continue
			}
			off := d[""]
			if !loadedAfter {
				// value before: new = old + 1; compare old+off with y  <=>  new+off-1
				off--
			}
			ra := atomsOf(y)
			rname := ""
			for _, a := range ra {
				if e, ok := nm.kinds[a]; ok {
					rname = a
					if !e.idx.equal(cur) {
						fail("the number of outcomes is taken at another position than the entry")
						return
					}
				}
			}
			if rname == "" {
				continue
			}
			dy := y.add(polyAtom(rname), -1)
			if !onlyConst(dy) {
				continue
			}
			off -= dy[""] // new + off  <tok>  R
			known = true
			switch {
			case tok == token.GEQ && off == 0, tok == token.GTR && off == 1, tok == token.EQL && off == 0:
				carry = true
			case tok == token.LSS && off == 0, tok == token.LEQ && off == 1, tok == token.NEQ && off == 0:
				carry = false
			default:
				fail("an entry is not advanced up to exactly the number of outcomes minus one")
				return
			}
		}
		if !incSeen {
			continue
		}
		if !known {
			c.undecide("step", "no comparison with the number of outcomes on a path")
			return
		}
		if carry {
			if !p.back && len(stores) == 0 && p.exit != nil {
				fail("an entry that reached the number of outcomes is not reset")
				return
			}
			if len(stores) == 0 {
				fail("an entry that reached the number of outcomes is not reset")
				return
			}
			for _, s := range stores {
				if k, ok := constInt(s.args[1]); !ok || k != 0 {
					fail("an entry that reached the number of outcomes is not reset to zero")
					return
				}
			}
			if !p.back {
				// leaving after a carry loses it, except when the loop is done
				fail("a carry is not passed on to the next variable")
				return
			}
		} else {
			if len(stores) > 0 {
				fail("an entry is reset without having reached the number of outcomes")
				return
			}
			if p.back {
				fail("more than one entry is advanced without a carry")
				return
			}
		}
	}
	nm.res = nil
	c.ok("step", fl.where(inc))
}

// missingIndex: a negative entry leads to a false second result.
func (c *Ctx) missingIndex(rel, recv, name string) {
	fn := c.must(rel, recv, name)
	if fn == nil {
		return
	}
	fl := c.flat(fn)
	idx := paramNamed(fl, isIntSlice, 0)
	if idx == nil {
		return
	}
	key := shortFn(fn)
	loops := fl.loops()
	// groups of loads of one entry in one loop
	type group struct {
		l     *Loop
		loads []*Value
	}
	groups := map[*Loop]*group{}
	var order []*group
	anyLoad := false
	fl.each(func(v *Value) {
		if v.op == OpLoad && v.args[0].op == OpIndexAddr && stripCT(v.args[0].args[0]) == idx {
			anyLoad = true
			l := innermost(loops, v.blk)
			if l == nil {
				return
			}
			g := groups[l]
			if g == nil {
				g = &group{l: l}
				groups[l] = g
				order = append(order, g)
			}
			g.loads = append(g.loads, v)
		}
	})
	// searches of the entries for a missing value
	holds := func(x *Value) bool { return stripCT(x) == idx }
	found := map[*Value]Fact{}
	var contains []*Value
	unclear := false
	fl.each(func(v *Value) {
		f, ok, un := searchFact(v, holds, -1)
		if ok {
			found[v] = f
			contains = append(contains, v)
		}
		unclear = unclear || un
	})
	// complete indices are never reported as missing
	present := &Sim{fl: fl, arith: true}
	present.assume = func(s *Sim, env simEnv, v *Value) (Fact, bool) {
		if v.op == OpLoad && v.args[0].op == OpIndexAddr && stripCT(v.args[0].args[0]) == idx {
			return intFact(0), true
		}
		f, ok, _ := searchFact(v, holds, 0)
		return f, ok
	}
	unknown := false
	present.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool {
		if k != exitReturn || len(v.args) < 2 {
			return true
		}
		f := s.get(env, v.args[len(v.args)-1])
		unknown = unknown || f.kind != fConst
		return f.kind != fConst || f.c == "true"
	}
	if !present.run(nil, nil) {
		c.fail("present", key+": complete indices", fl.where(present.badExit), "indices without a missing value can be reported as missing", fl.chain(present.badExit))
	} else if unknown || present.overflow {
		c.undecide("present", key+": result not recognised")
	} else {
		c.ok("present", key)
	}
	var bad *Value
	try := func(start *Value, fact func(v *Value) (Fact, bool)) bool {
		s := &Sim{fl: fl, arith: true}
		s.assume = func(s *Sim, env simEnv, v *Value) (Fact, bool) { return fact(v) }
		s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool {
			if k != exitReturn {
				return true
			}
			if len(v.args) < 2 {
				return false
			}
			f := s.get(env, v.args[len(v.args)-1])
			return f.kind == fConst && f.c == "false"
		}
		f, _ := fact(start)
		ok := s.run(start, simEnv{start: f})
		if !ok {
			bad = s.badExit
		}
		return ok && !s.overflow
	}
	for _, v := range contains {
		if try(v, func(x *Value) (Fact, bool) { return found[v], x == v }) {
			c.ok("missing", key)
			return
		}
	}
	for _, g := range order {
		first := g.loads[0]
		for _, v := range g.loads {
			if valDominates(v, first) {
				first = v
			}
		}
		is := map[*Value]bool{}
		for _, v := range g.loads {
			if v == first || sameVal(v.args[0].args[1], first.args[0].args[1]) {
				is[v] = true
			}
		}
		if try(first, func(x *Value) (Fact, bool) { return intFact(-1), is[x] }) {
			c.ok("missing", key)
			return
		}
	}
	if !anyLoad && len(contains) == 0 || unclear {
		c.undecide("missing", key+": entries not recognised")
		return
	}
	where, chain := "-", ""
	if bad != nil {
		where, chain = fl.where(bad), fl.chain(bad)
	}
	c.fail("missing", key+": missing entry", where, "a missing value (-1) at some position does not lead to a false result", chain)
}

// rowWindow: Row returns table[start : start+length].
func (c *Ctx) rowWindow(rel, recv, name string) {
	fn := c.w.fn(rel, recv, name)
	if fn == nil {
		return
	}
	fl := c.flat(fn)
	key := shortFn(fn)
	n := 0
	for _, ret := range fl.returns() {
		if len(ret.args) == 0 {
			continue
		}
		seen := map[*Value]bool{}
		var walk func(v *Value)
		walk = func(v *Value) {
			v = stripCT(v)
			if seen[v] {
				return
			}
			seen[v] = true
			if v.op == OpPhi {
				for _, a := range v.args {
					walk(a)
				}
				return
			}
			if v.op != OpSlice {
				return
			}
			n++
			nm := newNamer()
			fail := func(msg string) { c.fail("window", key+": row", fl.where(v), msg, fl.chain(v)) }
			if v.args[1] == nil || v.args[2] == nil {
				fail("the row is not limited to a window of the table")
				return
			}
			lo, hi := nm.poly(v.args[1]), nm.poly(v.args[2])
			w := hi.add(lo, -1)
			// width: a single atom, the number of columns / outcomes of the last variable
			as := atomsOf(w)
			if len(as) != 1 || !w.equal(polyAtom(as[0])) {
				if onlyConst(w) || len(as) > 0 && as[0] != "" {
					fail("the length of the row is not the number of outcomes: " + w.String())
				}
				return
			}
			if e, ok := nm.kinds[as[0]]; ok {
				// outcomes of an element: must be the last
				lastOK := false
				for _, a := range atomsOf(e.idx) {
					if strings.HasPrefix(a, "len<") && e.idx.equal(polyAtom(a).add(polyConst(1), -1)) {
						lastOK = true
					}
				}
				if !lastOK {
					fail("the length of the row is not the number of outcomes of the last variable")
					return
				}
			}
			if rel == "" {
				// start: row number times width
				ok := false
				for _, a := range atomsOf(lo) {
					if a != as[0] && lo.equal(polyAtom(a).mul(polyAtom(as[0]))) {
						ok = true
					}
				}
				if !ok {
					fail("the row does not start at row number times row length: " + lo.String())
					return
				}
			}
			c.ok("window", fl.where(v))
		}
		walk(ret.args[0])
	}
	if n == 0 {
		c.undecide("window", key+": no window recognised")
	}
}

// narrow: no arithmetic in integers narrower than a machine word, no narrowing below 16 bits.
func (c *Ctx) narrow() {
	n := 0
	for _, fn := range c.w.funcs {
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg == nil {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath), "/")
		if rel != "" && rel != "ve" && rel != "logic" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					switch x.Op {
					case token.ADD, token.SUB, token.MUL, token.SHL:
						if bits := intBits(x.Type()); bits > 0 {
							n++
							if bits < 64 && !isRuneType(x.Type()) {
								c.fail("narrow", shortFn(fn)+": "+x.Op.String(), c.w.pos(x.Pos()), fmt.Sprintf("arithmetic in %d-bit integers overflows for large tables", bits), "")
							} else {
								c.ok("narrow", c.w.pos(x.Pos()))
							}
						}
					}
				case *ssa.Convert:
					if _, isConst := x.X.(*ssa.Const); isConst {
						continue
					}
					to, from := intBits(x.Type()), intBits(x.X.Type())
					if to > 0 && from > to && to < 16 {
						c.fail("narrow", shortFn(fn)+": conversion", c.w.pos(x.Pos()), fmt.Sprintf("conversion to %d-bit integers loses large values", to), "")
					}
				}
			}
		}
	}
	_ = n
	c.floor("narrow", 20)
}

func isRuneType(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Name() == "rune"
}

func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// allUses: uses of a value, through conversions and phis.
func allUses(v *Value) []*Value {
	var out []*Value
	seen := map[*Value]bool{}
	var walk func(v *Value)
	walk = func(v *Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, u := range v.uses {
			switch u.op {
			case OpPhi, OpConvert, OpChangeType:
				walk(u)
			default:
				out = append(out, u)
			}
		}
	}
	walk(v)
	return out
}
