package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "logic operators: truth tables, per-row predicates, argument order, registry", checkC10)
}

// lop: the table of one operator type, seen from one constructor.
type lop struct {
	c     *Ctx
	fl    *Flat
	m     *bdd
	name  string
	given *Value
	recv  *Value
	argv  *Value                 // arguments of SetArgs
	role  map[string]string      // field of the operator -> a0, a1, ...
	konst map[string]*Value      // field -> constant set by the constructor and never changed
	rules map[*ssa.Function]bool // functions stored in fields by the constructor
	inner map[*Block]*Loop
	up    map[*Loop]*Loop
	ivs   map[*Loop]*IndVar
	sec   map[*Loop][]*IndVar
	forms map[string]map[int64]int // linear form -> constant -> atom "form + constant < 0"
	full  Poly                     // number of rows
	subst map[string]Poly
}

// lview: an assignment of names to counters.
type lview struct {
	*lop
	env   map[*Value]Poly
	el    map[*Loop]Poly
	depth int
	reaM  map[*Loop]map[*Block]int
	exM   map[*Loop]map[[2]*Block]int
	flag  map[*Value]int // value of a loop flag while its update is analysed
	acc   map[*Value]bool
	cur   map[*Loop]bool
}

type gcase struct {
	c int
	p Poly
}

func nest(p Poly) string { return strings.ReplaceAll(p.String(), "·", "*") }

func newLop(c *Ctx, fl *Flat, name string) *lop {
	o := &lop{c: c, fl: fl, m: newBDD(), name: name, role: map[string]string{}, konst: map[string]*Value{}, rules: map[*ssa.Function]bool{}, inner: map[*Block]*Loop{}, up: map[*Loop]*Loop{}, ivs: map[*Loop]*IndVar{}, sec: map[*Loop][]*IndVar{}, forms: map[string]map[int64]int{}, subst: map[string]Poly{}}
	ls := fl.loops()
	sort.SliceStable(ls, func(i, j int) bool { return len(ls[i].blocks) > len(ls[j].blocks) })
	for _, l := range ls {
		o.up[l] = o.inner[l.head]
		for b := range l.blocks {
			o.inner[b] = l
		}
		for _, iv := range inductions(l) {
			if iv.cond != nil && o.ivs[l] == nil {
				o.ivs[l] = iv
			} else {
				o.sec[l] = append(o.sec[l], iv)
			}
		}
	}
	return o
}

func (o *lop) view() *lview {
	return &lview{lop: o, env: map[*Value]Poly{}, el: map[*Loop]Poly{}, reaM: map[*Loop]map[*Block]int{}, exM: map[*Loop]map[[2]*Block]int{}, flag: map[*Value]int{}, acc: map[*Value]bool{}, cur: map[*Loop]bool{}}
}

func (w *lview) sub() *lview {
	n := w.lop.view()
	for k, v := range w.env {
		n.env[k] = v
	}
	for k, v := range w.el {
		n.el[k] = v
	}
	for k, v := range w.flag {
		n.flag[k] = v
	}
	for k, v := range w.acc {
		n.acc[k] = v
	}
	for k, v := range w.cur {
		n.cur[k] = v
	}
	n.depth = w.depth
	return n
}

// bind the counters of a loop: x is the value of the primary counter in the body.
func (w *lview) bind(l *Loop, x Poly) bool {
	iv := w.ivs[l]
	if iv == nil {
		return false
	}
	w.cur[l] = true
	if iv.pre {
		w.env[iv.cur] = x
		w.env[iv.phi] = x.add(polyConst(iv.step), -1)
	} else {
		w.env[iv.phi] = x
		if iv.cur != iv.phi {
			w.env[iv.cur] = x
		}
	}
	if iv.step != 1 && iv.step != -1 {
		return true
	}
	first, ok := w.single(iv.init)
	if !ok {
		return true
	}
	if iv.pre {
		first = first.add(polyConst(iv.step), 1)
	}
	n := x.add(first, -1).mul(polyConst(iv.step)) // iterations done
	for _, s := range w.sec[l] {
		i2, ok := w.single(s.init)
		if !ok {
			continue
		}
		w.env[s.phi] = i2.add(n, s.step)
	}
	return true
}

func (w *lview) single(v *Value) (Poly, bool) {
	cs := w.polys(v, 0)
	if len(cs) != 1 {
		return nil, false
	}
	return cs[0].p, true
}

// span of a counter: lo <= x < hi.
func (w *lview) span(l *Loop) (lo, hi Poly, ok bool) {
	iv := w.ivs[l]
	if iv == nil || (iv.step != 1 && iv.step != -1) {
		return nil, nil, false
	}
	first, ok1 := w.single(iv.init)
	bound, ok2 := w.single(iv.bound)
	if !ok1 || !ok2 {
		return nil, nil, false
	}
	if iv.pre {
		first = first.add(polyConst(iv.step), 1)
	}
	one := polyConst(1)
	if iv.step > 0 {
		switch iv.tok {
		case token.LSS, token.NEQ:
			return first, bound, true
		case token.LEQ:
			return first, bound.add(one, 1), true
		}
		return nil, nil, false
	}
	switch iv.tok {
	case token.GTR, token.NEQ:
		return bound.add(one, 1), first.add(one, 1), true
	case token.GEQ:
		return bound, first.add(one, 1), true
	}
	return nil, nil, false
}

// ---- comparisons

func atomMin(a string) int64 {
	if strings.HasPrefix(a, "2^(") {
		return 1
	}
	return 0
}

func nonNeg(a string) bool {
	switch {
	case strings.HasPrefix(a, "2^("), strings.HasPrefix(a, "bit("), strings.HasPrefix(a, "ones("), strings.HasPrefix(a, "len("), strings.HasPrefix(a, "cnt"), a == "r", a == "given":
		return true
	}
	return len(a) == 2 && a[0] == 'j' && a[1] >= '0' && a[1] <= '9'
}

func (o *lop) lt(p Poly) int {
	p = o.norm(p)
	for k := range p {
		for _, a := range strings.Split(k, "·") {
			if strings.HasPrefix(a, "bit(") {
				return o.m.ite(o.m.atom(a), o.lt(setAtom(p, a, 1)), o.lt(setAtom(p, a, 0)))
			}
		}
	}
	lo, hi := int64(0), int64(0)
	loOk, hiOk := true, true
	var g int64
	for k, c := range p {
		if k == "" {
			lo += c
			hi += c
			continue
		}
		g = gcd(g, c)
		mn := int64(1)
		pos := true
		for _, a := range strings.Split(k, "·") {
			mn *= atomMin(a)
			if !nonNeg(a) {
				pos = false
			}
		}
		if !pos {
			loOk, hiOk = false, false
			continue
		}
		if c > 0 {
			lo += c * mn
			hiOk = false
		} else {
			hi += c * mn
			loOk = false
		}
	}
	if loOk && lo >= 0 {
		return 0
	}
	if hiOk && hi < 0 {
		return 1
	}
	c := p[""]
	form := Poly{}
	for k, x := range p {
		if k != "" {
			form[k] = x / g
		}
	}
	// g*form + c < 0  <=>  form < ceil(-c/g)
	c = -ceilDiv(-c, g)
	neg := false
	var ks []string
	for k := range form {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if form[ks[0]] < 0 {
		// -F + c < 0  <=>  not (F - c - 1 < 0) with F = -form
		neg = true
		form = Poly{}.add(form, -1)
		c = -c - 1
	}
	s := nest(form)
	if o.forms[s] == nil {
		o.forms[s] = map[int64]int{}
	}
	a := o.m.atom(fmt.Sprintf("lt(%s%+d)", s, c))
	o.forms[s][c] = a
	if neg {
		return o.m.not(a)
	}
	return a
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func ceilDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a > 0) == (b > 0) {
		q++
	}
	return q
}

func (o *lop) eq(p Poly) int {
	return o.m.and(o.lt(p.add(polyConst(1), -1)), o.m.not(o.lt(p)))
}

func setAtom(p Poly, at string, val int64) Poly {
	out := Poly{}
	for k, c := range p {
		var fs []string
		hit := false
		if k != "" {
			for _, a := range strings.Split(k, "·") {
				if a == at {
					hit = true
				} else {
					fs = append(fs, a)
				}
			}
		}
		if hit {
			c *= val
		}
		n := strings.Join(fs, "·")
		out[n] += c
		if out[n] == 0 {
			delete(out, n)
		}
	}
	return out
}

// norm applies the equalities known on the way to the table.
func (o *lop) norm(p Poly) Poly {
	if len(o.subst) == 0 {
		return p
	}
	out := Poly{}
	for k, c := range p {
		t := polyConst(c)
		if k != "" {
			for _, a := range strings.Split(k, "·") {
				if s, ok := o.subst[a]; ok {
					t = t.mul(s)
				} else {
					t = t.mul(polyAtom(a))
				}
			}
		}
		out = out.add(t, 1)
	}
	return out
}

// axioms: comparisons of the same form with different constants are ordered.
func (o *lop) axioms() int {
	r := 1
	var fs []string
	for f := range o.forms {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		var cs []int64
		for c := range o.forms[f] {
			cs = append(cs, c)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
		for i := 1; i < len(cs); i++ {
			r = o.m.and(r, o.m.or(o.m.not(o.forms[f][cs[i]]), o.forms[f][cs[i-1]]))
		}
	}
	return r
}

// pow2 of a polynomial exponent.
func pow2(e Poly) Poly {
	c := e[""]
	if c > 0 && c < 40 {
		return pow2(e.add(polyConst(c), -1)).mul(polyConst(1 << uint(c)))
	}
	if len(e) == 0 {
		return polyConst(1)
	}
	return polyAtom("2^(" + nest(e) + ")")
}

// exponent of a power of two.
func (w *lview) log2(v *Value) (Poly, bool) {
	v = stripConv(stripCT(v))
	if v.op == OpBin && v.tok == token.SHL {
		if k, ok := constInt(stripConv(v.args[0])); ok && k == 1 {
			return w.single(v.args[1])
		}
	}
	if k, ok := constInt(v); ok && k > 0 && k&(k-1) == 0 {
		n := int64(0)
		for k > 1 {
			k >>= 1
			n++
		}
		return polyConst(n), true
	}
	if p, ok := w.single(v); ok && len(p) == 1 {
		for k, c := range p {
			if c == 1 && strings.HasPrefix(k, "2^(") && !strings.Contains(k, "·") && k == "2^(given)" {
				return polyAtom("given"), true
			}
		}
	}
	return nil, false
}

// bitOf: one bit of a row number as 0/1.
func (w *lview) bitOf(p, e Poly) Poly {
	if p.equal(polyAtom("r")) {
		return polyAtom("bit(" + nest(e) + ")")
	}
	if w.norm(p).equal(w.norm(pow2(polyAtom("given")).add(polyConst(1), -1).add(polyAtom("r"), -1))) {
		return polyConst(1).add(polyAtom("bit("+nest(e)+")"), -1)
	}
	return polyAtom("?bitof(" + nest(p) + "," + nest(e) + ")")
}

func (w *lview) onesOf(p Poly) Poly {
	if p.equal(polyAtom("r")) {
		return polyAtom("ones(r)")
	}
	if w.norm(p).equal(w.norm(pow2(polyAtom("given")).add(polyConst(1), -1).add(polyAtom("r"), -1))) {
		return polyAtom("given").add(polyAtom("ones(r)"), -1)
	}
	return polyAtom("ones(" + nest(p) + ")")
}

func intWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
		return 64
	}
	return 0
}

// list: name of a list of the operator.
func (w *lview) list(v *Value) string {
	v = stripCT(v)
	if v == w.argv {
		return "args"
	}
	if v.op == OpLoad {
		a := v.args[0]
		if a == w.recv {
			return "f"
		}
		if a.op == OpFieldAddr && a.args[0] == w.recv {
			if r := w.role[fieldName(a)]; r != "" {
				return r
			}
			return "?" + fieldName(a)
		}
	}
	return "?" + valAtom(v)
}

func (w *lview) mapc(x []gcase, f func(Poly) Poly) []gcase {
	var out []gcase
	for _, a := range x {
		out = append(out, gcase{a.c, f(a.p)})
	}
	return out
}

func (w *lview) cross(x, y []gcase, f func(a, b Poly) Poly) []gcase {
	var out []gcase
	for _, a := range x {
		for _, b := range y {
			if c := w.m.and(a.c, b.c); c != 0 {
				out = append(out, gcase{c, f(a.p, b.p)})
			}
		}
	}
	return out
}

// polys: an integer as polynomials under conditions.
func (w *lview) polys(v *Value, d int) []gcase {
	one := func(p Poly) []gcase { return []gcase{{1, p}} }
	unk := one(polyAtom("?" + valAtom(v)))
	if d > 40 {
		return unk
	}
	if p, ok := w.env[v]; ok {
		return one(p)
	}
	if c, ok := constInt(v); ok {
		return one(polyConst(c))
	}
	if v.op == OpConst && v.cval != nil {
		if f, ok := constFloat(v); ok && f == float64(int64(f)) {
			return one(polyConst(int64(f)))
		}
	}
	if v == w.given {
		return one(polyAtom("given"))
	}
	switch v.op {
	case OpChangeType:
		return w.polys(v.args[0], d+1)
	case OpConvert:
		if isFloat(v.typ) || isFloat(v.args[0].typ) {
			return w.polys(v.args[0], d+1)
		}
		x := w.polys(v.args[0], d+1)
		if n := intWidth(v.typ); n > 0 && n < 32 && intWidth(v.args[0].typ) > n {
			return w.mapc(x, func(p Poly) Poly {
				if len(p) == 0 || len(p) == 1 && p[""] != 0 {
					return p
				}
				return polyAtom(fmt.Sprintf("low%d(%s)", n, nest(p)))
			})
		}
		return x
	case OpUn:
		if v.tok == token.SUB {
			return w.mapc(w.polys(v.args[0], d+1), func(p Poly) Poly { return Poly{}.add(p, -1) })
		}
	case OpBuiltin:
		if v.name == "len" {
			return one(polyAtom("len(" + w.list(v.args[0]) + ")"))
		}
	case OpLoad:
		a := v.args[0]
		if a.op == OpFieldAddr && a.args[0] == w.recv {
			if k := w.konst[fieldName(a)]; k != nil {
				return w.polys(k, d+1)
			}
			if r := w.role[fieldName(a)]; r != "" {
				return one(polyAtom(r))
			}
			return one(polyAtom("?" + fieldName(a)))
		}
		if a.op == OpIndexAddr && isInteger(v.typ) {
			l := w.list(a.args[0])
			i, ok := w.single(a.args[1])
			if ok && !strings.HasPrefix(l, "?") {
				for lp, e := range w.el {
					iv := w.ivs[lp]
					if iv != nil && a.args[1] == iv.cur {
						return one(e)
					}
				}
				return one(polyAtom("el(" + l + "," + nest(i) + ")"))
			}
		}
	case OpCall:
		switch v.name {
		case "math/bits.OnesCount", "math/bits.OnesCount64", "math/bits.OnesCount32", "math/bits.OnesCount16", "math/bits.OnesCount8":
			return w.mapc(w.polys(v.args[0], d+1), w.onesOf)
		case "math.Pow", "math.Exp2", "math.Ldexp":
			var e *Value
			switch v.name {
			case "math.Pow":
				if b, ok := constFloat(v.args[0]); !ok || b != 2 {
					return unk
				}
				e = v.args[1]
			case "math.Exp2":
				e = v.args[0]
			default:
				return unk
			}
			return w.mapc(w.polys(e, d+1), pow2)
		}
	case OpBin:
		if !isInteger(v.typ) && !isFloat(v.typ) {
			return unk
		}
		x, y := v.args[0], v.args[1]
		switch v.tok {
		case token.ADD:
			return w.cross(w.polys(x, d+1), w.polys(y, d+1), func(a, b Poly) Poly { return a.add(b, 1) })
		case token.SUB:
			return w.cross(w.polys(x, d+1), w.polys(y, d+1), func(a, b Poly) Poly { return a.add(b, -1) })
		case token.MUL:
			return w.cross(w.polys(x, d+1), w.polys(y, d+1), func(a, b Poly) Poly { return a.mul(b) })
		case token.SHL:
			return w.cross(w.polys(x, d+1), w.polys(y, d+1), func(a, b Poly) Poly { return a.mul(pow2(b)) })
		case token.AND:
			for i := 0; i < 2; i++ {
				if k, ok := constInt(v.args[1-i]); ok && k > 1 && k < 1<<30 && k&(k+1) == 0 {
					if p, ok := w.single(v.args[i]); ok && !strings.Contains(p.String(), "?") && strings.Contains(p.String(), "r") {
						return one(polyAtom(fmt.Sprintf("low%d(%s)", k, nest(p))))
					}
				}
			}
			for i := 0; i < 2; i++ {
				a, b := v.args[i], v.args[1-i]
				sa := stripConv(stripCT(a))
				if k, ok := constInt(b); ok && k == 1 {
					if sa.op == OpBin && sa.tok == token.SHR {
						p, ok1 := w.single(sa.args[0])
						e, ok2 := w.single(sa.args[1])
						if ok1 && ok2 {
							return one(w.bitOf(p, e))
						}
					}
					if p, ok := w.single(a); ok && p.equal(polyAtom("r")) {
						return one(w.bitOf(p, Poly{}))
					}
				}
				if e, ok := w.log2(b); ok {
					if p, ok := w.single(a); ok {
						if bp := w.bitOf(p, e); !strings.Contains(bp.String(), "?") {
							return one(pow2(e).mul(bp))
						}
					}
				}
			}
		case token.REM:
			if k, ok := constInt(y); ok && k == 2 {
				sx := stripConv(stripCT(x))
				if sx.op == OpBin && (sx.tok == token.SHR || sx.tok == token.QUO) {
					p, ok1 := w.single(sx.args[0])
					var e Poly
					var ok2 bool
					if sx.tok == token.SHR {
						e, ok2 = w.single(sx.args[1])
					} else {
						e, ok2 = w.log2(sx.args[1])
					}
					if ok1 && ok2 {
						return one(w.bitOf(p, e))
					}
				}
				if p, ok := w.single(x); ok && p.equal(polyAtom("r")) {
					return one(w.bitOf(p, Poly{}))
				}
			}
		case token.XOR, token.AND_NOT:
			a, ok1 := w.single(x)
			b, ok2 := w.single(y)
			if ok1 && ok2 {
				mask := pow2(polyAtom("given")).add(polyConst(1), -1)
				if w.norm(a).equal(w.norm(mask)) && b.equal(polyAtom("r")) || v.tok == token.XOR && w.norm(b).equal(w.norm(mask)) && a.equal(polyAtom("r")) {
					return one(mask.add(polyAtom("r"), -1))
				}
			}
		case token.QUO:
			a, ok1 := w.single(x)
			if k, ok := constInt(y); ok && k > 0 && ok1 {
				q := Poly{}
				for n, c := range a {
					if c%k != 0 {
						return unk
					}
					q[n] = c / k
				}
				return one(q)
			}
		}
	case OpPhi:
		l := w.inner[v.blk]
		if l != nil && l.head == v.blk {
			return w.accum(v, l, d)
		}
		var out []gcase
		for i, a := range v.args {
			e := w.edge(l, v.blk.preds[i], v.blk)
			if e == 0 {
				continue
			}
			for _, x := range w.polys(a, d+1) {
				if c := w.m.and(e, x.c); c != 0 {
					out = append(out, gcase{c, x.p})
				}
			}
		}
		if len(out) == 0 {
			return unk
		}
		for _, x := range out[1:] {
			if !x.p.equal(out[0].p) {
				return out
			}
		}
		return one(out[0].p)
	}
	return unk
}

// accum: an integer that grows by one in some iterations of a loop.
func (w *lview) accum(v *Value, l *Loop, d int) []gcase {
	unk := []gcase{{1, polyAtom("?" + valAtom(v))}}
	if w.acc[v] {
		return []gcase{{1, polyAtom("φ")}}
	}
	if w.cur[l] || d > 30 {
		return unk
	}
	var init, next *Value
	for i, a := range v.args {
		if l.blocks[v.blk.preds[i]] {
			if next != nil && next != a {
				return unk
			}
			next = a
		} else {
			init = a
		}
	}
	if init == nil || next == nil {
		return unk
	}
	i0, ok := w.single(init)
	if !ok {
		return unk
	}
	step := int64(0)
	lo, hi, id, ok := w.over(l, func(n *lview) (int, bool) {
		n.acc[v] = true
		s := 0
		for _, x := range n.polys(next, 0) {
			dlt := x.p.add(polyAtom("φ"), -1)
			if len(dlt) == 0 {
				continue
			}
			c := dlt[""]
			if len(dlt) != 1 || c != 1 && c != -1 || step != 0 && c != step {
				return 0, false
			}
			step = c
			s = n.m.or(s, x.c)
		}
		return s, true
	})
	if !ok || len(w.early(l)) > 0 {
		return unk
	}
	if step == 0 {
		return []gcase{{1, i0}}
	}
	cnt := polyAtom(fmt.Sprintf("cnt[%s,%s)#%d", nest(lo), nest(hi), id))
	if len(lo) == 0 && hi.equal(polyAtom("given")) {
		bit := w.m.atom("bit(j" + fmt.Sprint(w.depth+1) + ")")
		rev := w.m.atom("bit(" + nest(polyAtom("given").add(polyConst(1), -1).add(polyAtom(fmt.Sprintf("j%d", w.depth+1)), -1)) + ")")
		min := func(a, b int) int {
			if a < b {
				return a
			}
			return b
		}
		switch id {
		case min(bit, rev):
			cnt = polyAtom("ones(r)")
		case min(w.m.not(bit), w.m.not(rev)):
			cnt = polyAtom("given").add(polyAtom("ones(r)"), -1)
		}
	}
	return []gcase{{1, i0.add(cnt, step)}}
}

// over evaluates a condition for a generic iteration of a loop; the result does not depend on the
// direction of the loop.
func (w *lview) over(l *Loop, f func(n *lview) (int, bool)) (lo, hi Poly, id int, ok bool) {
	lo, hi, ok = w.span(l)
	if !ok {
		return nil, nil, 0, false
	}
	j := polyAtom(fmt.Sprintf("j%d", w.depth+1))
	var ids [2]int
	for k, x := range []Poly{j, lo.add(hi, 1).add(polyConst(1), -1).add(j, -1)} {
		n := w.sub()
		n.depth++
		if !n.bind(l, x) {
			return nil, nil, 0, false
		}
		ids[k], ok = f(n)
		if !ok {
			return nil, nil, 0, false
		}
	}
	id = ids[0]
	if ids[1] < id {
		id = ids[1]
	}
	return lo, hi, id, true
}

// some: a condition holds in some iteration.
func (w *lview) some(l *Loop, f func(n *lview) (int, bool)) (int, bool) {
	lo, hi, id, ok := w.over(l, f)
	if !ok {
		return 0, false
	}
	return w.exists(lo, hi, id), true
}

func (w *lview) exists(lo, hi Poly, id int) int {
	if id == 0 {
		return 0
	}
	j := polyAtom(fmt.Sprintf("j%d", w.depth+1))
	for _, a := range []string{"a0", "a1", "a2"} {
		if len(lo) == 0 && hi.equal(polyAtom("len("+a+")")) {
			rev := hi.add(polyConst(1), -1).add(j, -1)
			for _, x := range []Poly{j, rev} {
				if id == w.eq(polyAtom("el("+a+","+nest(x)+")").add(polyAtom("r"), -1)) {
					return w.m.atom("in(" + a + ")")
				}
			}
		}
	}
	return w.m.atom(fmt.Sprintf("∃[%s,%s)#%d", nest(lo), nest(hi), id))
}

// early: edges that leave a loop other than by its counter.
func (w *lview) early(l *Loop) [][2]*Block {
	var out [][2]*Block
	iv := w.ivs[l]
	for _, b := range w.fl.blocks {
		if !l.blocks[b] {
			continue
		}
		for _, s := range b.succs {
			if l.blocks[s] {
				continue
			}
			if iv != nil && w.isTest(b, iv) {
				continue
			}
			out = append(out, [2]*Block{b, s})
		}
	}
	return out
}

func (w *lop) isTest(b *Block, iv *IndVar) bool {
	n := len(b.instrs)
	if n == 0 || b.instrs[n-1].op != OpIf {
		return false
	}
	c := b.instrs[n-1].args[0]
	for c.op == OpUn && c.tok == token.NOT {
		c = c.args[0]
	}
	return c == iv.cond
}

// edge: condition under which an edge is taken, from the start of an iteration of l (of the
// function, if l is nil).
func (w *lview) edge(l *Loop, p, b *Block) int {
	in := w.inner[p]
	if in == l {
		return w.m.and(w.reach(l)[p], w.branch(p, b))
	}
	// p lies in a loop nested in l
	for k := in; k != nil; k = w.up[k] {
		if w.up[k] == l {
			w.reach(l)
			return w.exM[k][[2]*Block{p, b}]
		}
	}
	return w.m.atom("?edge")
}

func (w *lview) branch(p, b *Block) int {
	if len(p.succs) < 2 {
		return 1
	}
	if p.succs[0] == p.succs[1] {
		return 1
	}
	t := p.instrs[len(p.instrs)-1]
	l := w.inner[p]
	if l != nil {
		if iv := w.ivs[l]; iv != nil && w.isTest(p, iv) {
			if l.blocks[b] {
				return 1
			}
			return 0
		}
	}
	c := 0
	if t.args[0].op == OpNonDet {
		c = w.dispatch(p)
	} else {
		c = w.cond(t.args[0], 0)
	}
	if b == p.succs[0] {
		return c
	}
	return w.m.not(c)
}

// dispatch: which function a field of the operator holds.
func (w *lview) dispatch(p *Block) int {
	leads := func(b *Block) bool {
		seen := map[*Block]bool{}
		var walk func(b *Block) bool
		walk = func(b *Block) bool {
			if seen[b] {
				return false
			}
			seen[b] = true
			if b.fr != p.fr {
				return b.fr != nil && w.rules[b.fr.fn]
			}
			if len(b.succs) > 1 {
				t := b.instrs[len(b.instrs)-1]
				if t.op != OpIf || t.args[0].op != OpNonDet {
					return false
				}
			}
			for _, s := range b.succs {
				if walk(s) {
					return true
				}
			}
			return false
		}
		return walk(b)
	}
	t, f := leads(p.succs[0]), leads(p.succs[1])
	switch {
	case t && !f:
		return 1
	case f && !t:
		return 0
	}
	return w.m.atom(fmt.Sprintf("?dispatch%d", p.id))
}

func (w *lview) reach(l *Loop) map[*Block]int {
	if r, ok := w.reaM[l]; ok {
		return r
	}
	r := map[*Block]int{}
	w.reaM[l] = r
	start := w.fl.entry
	if l != nil {
		start = l.head
	}
	bs := append([]*Block(nil), w.fl.blocks...)
	sort.SliceStable(bs, func(i, j int) bool { return bs[i].rpo < bs[j].rpo })
	for _, b := range bs {
		if l != nil && !l.blocks[b] {
			continue
		}
		in := w.inner[b]
		if in != l && !(w.up[in] == l && in.head == b) {
			continue
		}
		c := 0
		if b == start {
			c = 1
		} else {
			for _, p := range b.preds {
				if l != nil && !l.blocks[p] {
					continue
				}
				if in != l && in.blocks[p] {
					continue // back edge of the nested loop
				}
				if l != nil && b == l.head {
					continue
				}
				c = w.m.or(c, w.edge(l, p, b))
			}
		}
		r[b] = c
		if in != l {
			w.leave(in, c)
		}
	}
	return r
}

// leave: how a nested loop is left.
func (w *lview) leave(l *Loop, in int) {
	ex := map[[2]*Block]int{}
	w.exM[l] = ex
	es := w.early(l)
	tot := 0
	if len(es) > 0 {
		byT := map[*Block][][2]*Block{}
		var ord []*Block
		for _, e := range es {
			if byT[e[1]] == nil {
				ord = append(ord, e[1])
			}
			byT[e[1]] = append(byT[e[1]], e)
		}
		t, ok := w.some(l, func(n *lview) (int, bool) {
			s := 0
			for _, e := range es {
				s = n.m.or(s, n.edge(l, e[0], e[1]))
			}
			return s, true
		})
		if !ok {
			t = w.m.atom(fmt.Sprintf("?exit%d", l.head.id))
		}
		tot = t
		for _, b := range ord {
			g := byT[b]
			c := w.m.and(in, t)
			if len(ord) > 1 {
				c = w.m.and(c, w.m.atom(fmt.Sprintf("?exit%d-%d", l.head.id, b.id)))
			}
			phis := len(b.instrs) > 0 && b.instrs[0].op == OpPhi
			for i, e := range g {
				switch {
				case len(g) > 1 && phis:
					ex[e] = w.m.and(c, w.m.atom(fmt.Sprintf("?exit%d-%d-%d", l.head.id, b.id, i)))
				case i == 0:
					ex[e] = c
				}
			}
		}
	}
	// by the counter
	for b := range l.blocks {
		for _, s := range b.succs {
			if !l.blocks[s] {
				if iv := w.ivs[l]; iv != nil && w.isTest(b, iv) {
					ex[[2]*Block{b, s}] = w.m.and(in, w.m.not(tot))
				}
			}
		}
	}
}

// cond: a boolean as a function of the row.
func (w *lview) cond(v *Value, d int) int {
	m := w.m
	unk := m.atom("?" + valAtom(v))
	if d > 40 {
		return unk
	}
	if b, ok := constBool(v); ok {
		if b {
			return 1
		}
		return 0
	}
	if f, ok := w.flag[v]; ok {
		return f
	}
	switch v.op {
	case OpUn:
		if v.tok == token.NOT {
			return m.not(w.cond(v.args[0], d+1))
		}
	case OpChangeType:
		return w.cond(v.args[0], d+1)
	case OpNonDet:
		return w.dispatch(v.blk)
	case OpBin:
		x, y := v.args[0], v.args[1]
		if isInteger(x.typ) {
			r := 0
			for _, a := range w.polys(x, d+1) {
				for _, b := range w.polys(y, d+1) {
					c := m.and(a.c, b.c)
					if c == 0 {
						continue
					}
					p := a.p.add(b.p, -1)
					if strings.Contains(p.String(), "?") {
						r = m.or(r, m.and(c, unk))
						continue
					}
					k := 0
					switch v.tok {
					case token.EQL:
						k = w.eq(p)
					case token.NEQ:
						k = m.not(w.eq(p))
					case token.LSS:
						k = w.lt(p)
					case token.GEQ:
						k = m.not(w.lt(p))
					case token.GTR:
						k = w.lt(Poly{}.add(p, -1))
					case token.LEQ:
						k = m.not(w.lt(Poly{}.add(p, -1)))
					default:
						return unk
					}
					r = m.or(r, m.and(c, k))
				}
			}
			return r
		}
		if isNilConst(x) {
			x, y = y, x
		}
		if isNilConst(y) && isErrorType(x.typ) {
			if n, ok := w.isNil(x, d+1); ok {
				switch v.tok {
				case token.EQL:
					return n
				case token.NEQ:
					return m.not(n)
				}
			}
			return unk
		}
		if b, ok := x.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			a, b := w.cond(x, d+1), w.cond(y, d+1)
			eq := m.ite(a, b, m.not(b))
			switch v.tok {
			case token.EQL:
				return eq
			case token.NEQ:
				return m.not(eq)
			}
		}
	case OpLoad:
		a := v.args[0]
		if a.op == OpIndexAddr {
			l := w.list(a.args[0])
			if i, ok := w.single(a.args[1]); ok && !strings.HasPrefix(l, "?") && !strings.Contains(i.String(), "?") {
				return m.atom("el(" + l + "," + nest(i) + ")")
			}
		}
		if a.op == OpFieldAddr && a.args[0] == w.recv {
			if k := w.konst[fieldName(a)]; k != nil {
				return w.cond(k, d+1)
			}
		}
	case OpCall:
		if v.name == "slices.Contains" && len(v.args) == 2 {
			if p, ok := w.single(v.args[1]); ok && p.equal(polyAtom("r")) {
				if l := w.list(v.args[0]); !strings.HasPrefix(l, "?") {
					return m.atom("in(" + l + ")")
				}
			}
		}
	case OpPhi:
		l := w.inner[v.blk]
		if l != nil && l.head == v.blk {
			return w.sticky(v, l, unk)
		}
		r := 0
		all := 0
		for i, a := range v.args {
			e := w.edge(l, v.blk.preds[i], v.blk)
			all = m.or(all, e)
			r = m.or(r, m.and(e, w.cond(a, d+1)))
		}
		_ = all
		return r
	}
	return unk
}

// isNil: when an error is nil.
func (w *lview) isNil(v *Value, d int) (int, bool) {
	if d > 20 {
		return 0, false
	}
	switch {
	case isNilConst(v):
		return 1, true
	case v.op == OpCall && (v.name == "fmt.Errorf" || v.name == "errors.New"), v.op == OpMakeIface:
		return 0, true
	case v.op == OpPhi:
		l := w.inner[v.blk]
		if l != nil && l.head == v.blk {
			return 0, false
		}
		r := 0
		for i, a := range v.args {
			n, ok := w.isNil(a, d+1)
			if !ok {
				return 0, false
			}
			r = w.m.or(r, w.m.and(n, w.edge(l, v.blk.preds[i], v.blk)))
		}
		return r, true
	}
	return 0, false
}

// sticky: a flag that changes once during a loop.
func (w *lview) sticky(v *Value, l *Loop, unk int) int {
	if w.cur[l] {
		return unk
	}
	var init, next *Value
	for i, a := range v.args {
		if l.blocks[v.blk.preds[i]] {
			if next != nil && next != a {
				return unk
			}
			next = a
		} else {
			init = a
		}
	}
	c0, ok := constBool(init)
	if !ok || next == nil || len(w.early(l)) > 0 {
		return unk
	}
	at := func(n *lview, val bool) int {
		k := n.sub()
		if val {
			k.flag[v] = 1
		} else {
			k.flag[v] = 0
		}
		return k.cond(next, 0)
	}
	r, ok := w.some(l, func(n *lview) (int, bool) {
		kept := at(n, !c0) // once changed
		if c0 && kept != 0 || !c0 && kept != 1 {
			return 0, false
		}
		ch := at(n, c0)
		if c0 {
			ch = n.m.not(ch)
		}
		return ch, true
	})
	if !ok {
		return unk
	}
	if c0 {
		return w.m.not(r)
	}
	return r
}

// path: condition under which a block runs, for bound loops.
func (w *lview) path(b *Block) int {
	l := w.inner[b]
	c := w.reach(l)[b]
	for ; l != nil; l = w.up[l] {
		c = w.m.and(c, w.reach(w.up[l])[l.head])
	}
	return c
}
