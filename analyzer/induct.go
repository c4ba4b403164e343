package main

import (
	"go/token"
	"sort"
)

// IndVar: a counter of a loop with constant step. The values taken in the loop body by `cur`
// are first, first+step, ...
type IndVar struct {
	loop  *Loop
	phi   *Value
	cur   *Value // value used in the body: the phi or the incremented phi (range loops)
	init  *Value // value of the phi on entry
	pre   bool   // incremented before the test (range loops): first = init + step
	step  int64
	cond  *Value // continuation condition comparing cur with the bound (nil if none recognised)
	tok   token.Token
	bound *Value
}

// inductions of a loop.
func inductions(l *Loop) []*IndVar {
	var out []*IndVar
	for _, phi := range l.head.instrs {
		if phi.op != OpPhi {
			break
		}
		if !isInteger(phi.typ) {
			continue
		}
		var init *Value
		var next *Value
		ok := true
		for i, p := range l.head.preds {
			if i >= len(phi.args) {
				ok = false
				break
			}
			if l.blocks[p] {
				if next != nil && next != phi.args[i] {
					ok = false
				}
				next = phi.args[i]
			} else {
				if init != nil && init != phi.args[i] && !sameConst(init, phi.args[i]) {
					ok = false
				}
				init = phi.args[i]
			}
		}
		if !ok || init == nil || next == nil || next.op != OpBin {
			continue
		}
		iv := &IndVar{loop: l, phi: phi, cur: phi, init: init}
		x, y := next.args[0], next.args[1]
		switch next.tok {
		case token.ADD:
			if y == phi {
				x, y = y, x
			}
			c, isc := constInt(y)
			if x != phi || !isc {
				continue
			}
			iv.step = c
		case token.SUB:
			c, isc := constInt(y)
			if x != phi || !isc {
				continue
			}
			iv.step = -c
		default:
			continue
		}
		iv.pickCond(next)
		out = append(out, iv)
	}
	return out
}

func (iv *IndVar) pickCond(next *Value) {
	// a branch in the loop with one successor outside
	var bs []*Block
	for b := range iv.loop.blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	for _, b := range bs {
		n := len(b.instrs)
		if n == 0 || b.instrs[n-1].op != OpIf || len(b.succs) != 2 {
			continue
		}
		in0, in1 := iv.loop.blocks[b.succs[0]], iv.loop.blocks[b.succs[1]]
		if in0 == in1 {
			continue
		}
		cd := b.instrs[n-1].args[0]
		neg := in1 // the loop continues on the false edge
		for cd.op == OpUn && cd.tok == token.NOT {
			cd = cd.args[0]
			neg = !neg
		}
		if cd.op != OpBin {
			continue
		}
		x, y, tok := cd.args[0], cd.args[1], cd.tok
		if y == iv.phi || y == next {
			x, y = y, x
			tok = swapTok(tok)
		}
		if x != iv.phi && x != next {
			continue
		}
		if neg {
			tok = negTok(tok)
		}
		switch tok {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
		default:
			continue
		}
		// prefer the test in the header
		if iv.cond != nil && b != iv.loop.head {
			continue
		}
		iv.cond, iv.tok, iv.bound = cd, tok, y
		iv.cur, iv.pre = iv.phi, false
		if x == next && next.blk == b && dominates(b, next.blk) && b == iv.loop.head && len(bs) > 1 {
			iv.cur, iv.pre = next, true
		}
	}
}

func swapTok(t token.Token) token.Token {
	switch t {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return t
}

func negTok(t token.Token) token.Token {
	switch t {
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

// first value of cur as a polynomial.
func (iv *IndVar) first(atom func(*Value) string) Poly {
	p := polyOf(iv.init, atom, 0)
	if iv.pre {
		p = p.add(polyConst(iv.step), 1)
	}
	return p
}

// last value + 1 for upward loops with `<`, as a polynomial (nil if not recognised).
func (iv *IndVar) end(atom func(*Value) string) Poly {
	if iv.bound == nil || iv.step != 1 {
		return nil
	}
	b := polyOf(iv.bound, atom, 0)
	switch iv.tok {
	case token.LSS, token.NEQ:
		return b
	case token.LEQ:
		return b.add(polyConst(1), 1)
	}
	return nil
}

// downTo: for downward loops, the last value of cur.
func (iv *IndVar) last(atom func(*Value) string) Poly {
	if iv.bound == nil || iv.step != -1 {
		return nil
	}
	b := polyOf(iv.bound, atom, 0)
	switch iv.tok {
	case token.GEQ:
		return b
	case token.GTR, token.NEQ:
		return b.add(polyConst(1), 1)
	}
	return nil
}
