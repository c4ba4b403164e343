package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// Poly is an integer polynomial over atoms (opaque values): monomial -> coefficient.
type Poly map[string]int64

func polyConst(c int64) Poly {
	if c == 0 {
		return Poly{}
	}
	return Poly{"": c}
}

func polyAtom(a string) Poly { return Poly{a: 1} }

func (p Poly) add(q Poly, f int64) Poly {
	r := Poly{}
	for k, v := range p {
		r[k] = v
	}
	for k, v := range q {
		r[k] += f * v
		if r[k] == 0 {
			delete(r, k)
		}
	}
	return r
}

func (p Poly) mul(q Poly) Poly {
	r := Poly{}
	for a, x := range p {
		for b, y := range q {
			k := monomial(a, b)
			r[k] += x * y
			if r[k] == 0 {
				delete(r, k)
			}
		}
	}
	return r
}

func monomial(a, b string) string {
	var fs []string
	if a != "" {
		fs = append(fs, strings.Split(a, "·")...)
	}
	if b != "" {
		fs = append(fs, strings.Split(b, "·")...)
	}
	sort.Strings(fs)
	return strings.Join(fs, "·")
}

func (p Poly) equal(q Poly) bool { return len(p.add(q, -1)) == 0 }

func (p Poly) String() string {
	var ks []string
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		switch {
		case k == "":
			out = append(out, fmt.Sprint(p[k]))
		case p[k] == 1:
			out = append(out, k)
		default:
			out = append(out, fmt.Sprintf("%d%s", p[k], k))
		}
	}
	if len(out) == 0 {
		return "0"
	}
	return strings.Join(out, "+")
}

// polyOf: v as a polynomial; atom gives the name of a value that is not arithmetic.
func polyOf(v *Value, atom func(*Value) string, d int) Poly { return polyWith(v, nil, atom, d) }

// polyWith resolves phis along a path first.
func polyWith(v *Value, res map[*Value]*Value, atom func(*Value) string, d int) Poly {
	if c, ok := constInt(v); ok {
		return polyConst(c)
	}
	if d < 30 {
		switch v.op {
		case OpPhi:
			if a := res[v]; a != nil && a != v {
				return polyWith(a, res, atom, d+1)
			}
		case OpChangeType:
			return polyWith(v.args[0], res, atom, d+1)
		case OpConvert:
			if isInteger(v.typ) && isInteger(v.args[0].typ) {
				return polyWith(v.args[0], res, atom, d+1)
			}
		case OpBin:
			switch v.tok {
			case token.ADD:
				return polyWith(v.args[0], res, atom, d+1).add(polyWith(v.args[1], res, atom, d+1), 1)
			case token.SUB:
				return polyWith(v.args[0], res, atom, d+1).add(polyWith(v.args[1], res, atom, d+1), -1)
			case token.MUL:
				return polyWith(v.args[0], res, atom, d+1).mul(polyWith(v.args[1], res, atom, d+1))
			}
		case OpUn:
			if v.tok == token.SUB {
				return Poly{}.add(polyWith(v.args[0], res, atom, d+1), -1)
			}
		}
	}
	return polyAtom(atom(v))
}

func valAtom(v *Value) string { return fmt.Sprintf("v%d", v.id) }

// flatIndex: position of an element relative to the unsliced base.
func flatIndex(addr *Value, atom func(*Value) string) Poly {
	p := polyOf(addr.args[1], atom, 0)
	b := stripCT(addr.args[0])
	for b.op == OpSlice {
		if b.args[1] != nil {
			p = p.add(polyOf(b.args[1], atom, 0), 1)
		}
		b = stripCT(b.args[0])
	}
	return p
}

func (p Poly) mentions(q Poly) bool {
	for _, a := range atomsOf(q) {
		if a == "" {
			continue
		}
		for _, b := range atomsOf(p) {
			if a == b {
				return true
			}
		}
	}
	return false
}

// rowMajor compares an index with row*A + col for some A: 1 equal, -1 different, 0 not comparable.
func rowMajor(got, row, col Poly) int {
	if !got.mentions(col) {
		return 0
	}
	rest := got.add(col, -1)
	if rest.mentions(col) {
		return -1
	}
	if len(rest) == 0 {
		return -1
	}
	for _, a := range atomsOf(rest) {
		if a != "" && rest.equal(row.mul(polyAtom(a))) {
			return 1
		}
	}
	if rest.mentions(row) {
		return -1
	}
	return 0
}
