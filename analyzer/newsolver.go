package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// newSolver: a solver keeps the variables, dependencies and weights it is created with, and every
// factor under its own id.
func (c *Ctx) newSolver() {
	fn := c.must("ve", "", "New")
	if fn == nil {
		return
	}
	fl := c.flatStop(fn, isOperation)
	a := newAlg(c, fl, "New")
	q := newQL(a)
	var variables, factors, deps, weights *Value
	for _, p := range fl.params {
		switch t := p.typ.Underlying().(type) {
		case *types.Pointer:
			variables = p
		case *types.Map:
			deps = p
		case *types.Slice:
			if isFloat(t.Elem()) {
				weights = p
			} else if named(t.Elem()) == "Factor" {
				factors = p
			}
		}
	}
	if variables == nil || factors == nil || deps == nil || weights == nil {
		c.undecide("start", "parameters of New")
		return
	}
	rets := fl.returns()
	if len(rets) != 1 {
		c.undecide("start", "several results of New")
		return
	}
	ret := rets[0]
	ve := stripCT(ret.args[0])
	if ve.op != OpAlloc {
		c.undecide("start", "result of New")
		return
	}
	sets := map[string][]*Value{}
	for _, fa := range ve.uses {
		if fa == ret {
			continue
		}
		if fa.op != OpFieldAddr {
			c.undecide("start", "use of the new solver at "+fl.where(fa))
			return
		}
		for _, s := range fa.uses {
			if s.op == OpStore && s.args[0] == fa {
				sets[fieldName(fa)] = append(sets[fieldName(fa)], s)
			}
		}
	}
	for _, x := range []struct {
		field string
		want  *Value
	}{{"variables", variables}, {"dependencies", deps}, {"weights", weights}} {
		st := sets[x.field]
		if _, ok := structField(ve, x.field); !ok {
			c.undecide("start", "field "+x.field+" not found")
			continue
		}
		if len(st) == 0 {
			a.bad("start", x.field, ret, "a new solver is created without the given "+x.field)
			continue
		}
		for _, s := range st {
			v := stripCT(s.args[1])
			switch {
			case v == x.want:
				if len(st) == 1 && !dominates(s.blk, ret.blk) {
					a.bad("start", x.field, s, "the "+x.field+" are only sometimes handed to a new solver")
				} else {
					c.ok("start", x.field)
				}
			case isNilConst(v) && len(st) == 1:
				a.bad("start", x.field, s, "a new solver is created without the given "+x.field)
			case v.op == OpParam:
				a.bad("start", x.field, s, "the "+x.field+" of a new solver are those of "+v.name)
			case v.op == OpSlice && stripCT(v.args[0]) == x.want:
				a.bad("start", x.field, s, "a new solver gets only a part of the "+x.field)
			default:
				c.undecide("start", x.field+" at "+fl.where(s))
			}
		}
	}
	st := sets["factors"]
	if len(st) != 1 || stripCT(st[0].args[1]).op != OpMakeMap {
		if len(st) == 0 {
			a.bad("start", "factors", ret, "a new solver is created without factors")
		} else {
			c.undecide("start", "factors of a new solver")
		}
		return
	}
	mp := stripCT(st[0].args[1])
	n := 0
	for _, u := range mp.uses {
		if u.op != OpMapUpdate || u.args[0] != mp {
			continue
		}
		n++
		l := q.inner[u.blk]
		if l == nil || q.dom(l) == nil {
			c.undecide("start", "loop over the factors")
			continue
		}
		d := q.dom(l)
		lk := q.key(d.list)
		if lk != factors.name {
			if x := stripCT(d.list); x.op == OpSlice && stripCT(x.args[0]) == factors {
				a.bad("start", "factors", u, "a new solver gets only a part of the factors")
			} else {
				c.undecide("start", "factors from "+lk)
			}
			continue
		}
		if d.partial != "" {
			a.bad("start", "factors", d.exit, "a new solver does not get all factors: the loop "+d.partial)
			continue
		}
		if f := q.cond(l, u.blk); f != 1 {
			if q.unknown(f) == "" {
				a.bad("start", "factors", u, "a new solver gets a factor only when "+q.m.canon(f))
			} else {
				c.undecide("start", "condition "+q.m.canon(f))
			}
			continue
		}
		if _, brk := q.exits(l); len(brk) > 0 {
			a.bad("start", "factors", brk[0].p.instrs[len(brk[0].p.instrs)-1], "a new solver does not get all factors: the loop stops early")
			continue
		}
		k := q.key(u.args[1])
		switch {
		case k == q.tok(l)+".id":
			c.ok("start", "factors")
		case k == "pos"+q.tok(l), stripConv(u.args[1]).op == OpBin, strings.HasPrefix(k, "len("):
			a.bad("start", "factors", u, "a factor is not stored under its own id, but under "+k)
		default:
			c.undecide("start", "id "+k)
		}
		// the factor itself: a copy made in this round, or the element
		v := stripCT(u.args[2])
		switch {
		case v.op == OpIndexAddr && stripCT(v.args[0]) == factors:
		case v.op == OpAlloc && l.blocks[v.blk]:
		case v.op == OpAlloc:
			a.bad("start", "factors", u, "all factors of a new solver are the same")
		default:
			c.undecide("start", "factor "+q.key(v))
		}
	}
	if n == 0 {
		c.undecide("start", "factors of a new solver are not recognised")
	}
}

// structField: the struct allocated has this field.
func structField(v *Value, name string) (int, bool) {
	p, ok := v.typ.Underlying().(*types.Pointer)
	if !ok {
		return 0, false
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return 0, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, true
		}
	}
	return 0, false
}

// found: what was found by a search is not rejected for its position.
func (c *Ctx) found(fl *Flat, rule, what string) {
	n := 0
	fl.each(func(v *Value) {
		if v.op != OpCall {
			return
		}
		switch baseName(v.name) {
		case "slices.Index", "slices.IndexFunc":
		default:
			return
		}
		fl.each(func(cd *Value) {
			if cd.op != OpBin {
				return
			}
			x, y, tok := stripConv(cd.args[0]), stripConv(cd.args[1]), cd.tok
			if y == v {
				x, y, tok = y, x, swapTok(tok)
			}
			k, ok := constInt(y)
			if x != v || !ok {
				return
			}
			switch tok {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				return
			}
			for _, u := range cd.uses {
				pol := true
				for u.op == OpUn && u.tok == token.NOT && len(u.uses) == 1 {
					u, pol = u.uses[0], !pol
				}
				if u.op != OpIf || len(u.blk.succs) != 2 {
					continue
				}
				n++
				rejected, accepted := -1, false
				for pos := 2; pos >= 0; pos-- {
					i := 1
					if constant.Compare(constant.MakeInt64(int64(pos)), tok, constant.MakeInt64(k)) == pol {
						i = 0
					}
					if c.leadsToError(fl, u.blk.succs[i]) {
						rejected = pos
					} else {
						accepted = true
					}
				}
				if rejected >= 0 && accepted {
					c.fail(rule, what+": found at position "+fmt.Sprint(rejected), fl.where(u), "what was found is rejected for its position", fl.chain(u))
					return
				}
			}
		})
	})
	if n > 0 {
		c.ok(rule, fmt.Sprintf("%s: %d tests of searches", what, n))
	}
}
