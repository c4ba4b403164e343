package main

import (
	"fmt"
	"go/types"
)

// promote turns non-escaping allocations into SSA values (scalar replacement + mem2reg).
// A location is (alloc, constant field/element path); leaves are non-struct, non-array parts.

type leafKey struct {
	a    *Value
	path string
}

const maxLeaves = 64

func leafPaths(t types.Type, prefix string, out *[]string, tys *[]types.Type, depth int) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if depth > 6 {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if !leafPaths(u.Field(i).Type(), fmt.Sprintf("%s.%d", prefix, i), out, tys, depth+1) {
				return false
			}
		}
		return true
	case *types.Array:
		if u.Len() > 8 || depth > 6 {
			return false
		}
		for i := 0; i < int(u.Len()); i++ {
			if !leafPaths(u.Elem(), fmt.Sprintf("%s.%d", prefix, i), out, tys, depth+1) {
				return false
			}
		}
		return true
	}
	*out = append(*out, prefix)
	*tys = append(*tys, t)
	return len(*out) <= maxLeaves
}

func elemType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (fl *Flat) promote() {
	fl.computeUses()
	fl.computeDom()
	// candidate allocs
	type access struct {
		alloc *Value
		path  string
		typ   types.Type
	}
	acc := map[*Value]access{} // address value -> location
	cand := []*Value{}
	fl.each(func(v *Value) {
		if v.op != OpAlloc {
			return
		}
		et := elemType(v.typ)
		var ps []string
		var ts []types.Type
		if et == nil || !leafPaths(et, "", &ps, &ts, 0) {
			return
		}
		local := map[*Value]access{}
		ok := true
		var walk func(addr *Value, path string, t types.Type)
		walk = func(addr *Value, path string, t types.Type) {
			local[addr] = access{v, path, t}
			for _, u := range addr.uses {
				if !ok {
					return
				}
				switch u.op {
				case OpLoad:
				case OpStore:
					if u.args[1] == addr {
						ok = false
					}
				case OpFieldAddr:
					st, isS := t.Underlying().(*types.Struct)
					if !isS {
						ok = false
						return
					}
					walk(u, fmt.Sprintf("%s.%d", path, u.idx), st.Field(u.idx).Type())
				case OpIndexAddr:
					at, isA := t.Underlying().(*types.Array)
					k, isC := constInt(u.args[1])
					if !isA || !isC || u.args[0] != addr || k < 0 || k >= at.Len() {
						ok = false
						return
					}
					walk(u, fmt.Sprintf("%s.%d", path, k), at.Elem())
				default:
					ok = false
				}
			}
		}
		walk(v, "", et)
		if ok {
			cand = append(cand, v)
			for a, l := range local {
				acc[a] = l
			}
		}
	})
	if len(cand) == 0 {
		return
	}
	// variables
	type vinfo struct {
		alloc *Value
		path  string
		typ   types.Type
		defs  map[*Block]bool
	}
	vars := []*vinfo{}
	byKey := map[leafKey]*vinfo{}
	for _, a := range cand {
		var ps []string
		var ts []types.Type
		leafPaths(elemType(a.typ), "", &ps, &ts, 0)
		for i := range ps {
			vi := &vinfo{a, ps[i], ts[i], map[*Block]bool{a.blk: true}}
			vars = append(vars, vi)
			byKey[leafKey{a, ps[i]}] = vi
		}
	}
	leavesUnder := func(l access) []*vinfo {
		var ps []string
		var ts []types.Type
		leafPaths(l.typ, l.path, &ps, &ts, 0)
		var r []*vinfo
		for _, p := range ps {
			r = append(r, byKey[leafKey{l.alloc, p}])
		}
		return r
	}
	fl.each(func(v *Value) {
		if v.op == OpStore {
			if l, ok := acc[v.args[0]]; ok {
				for _, vi := range leavesUnder(l) {
					vi.defs[v.blk] = true
				}
			}
		}
	})
	// dominance frontiers
	df := map[*Block]map[*Block]bool{}
	for _, b := range fl.blocks {
		if len(b.preds) < 2 {
			continue
		}
		for _, p := range b.preds {
			r := p
			for r != b.idom {
				if df[r] == nil {
					df[r] = map[*Block]bool{}
				}
				df[r][b] = true
				r = r.idom
			}
		}
	}
	phiOf := map[*Value]*vinfo{}
	newPhis := map[*Block][]*Value{}
	for _, vi := range vars {
		work := []*Block{}
		for b := range vi.defs {
			work = append(work, b)
		}
		has := map[*Block]bool{}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			for d := range df[b] {
				if has[d] || !dominates(vi.alloc.blk, d) {
					continue
				}
				has[d] = true
				p := fl.newVal(d, OpPhi, vi.typ, vi.alloc.pos)
				p.name = vi.alloc.name
				p.args = make([]*Value, len(d.preds))
				phiOf[p] = vi
				newPhis[d] = append(newPhis[d], p)
				if !vi.defs[d] {
					work = append(work, d)
				}
			}
		}
	}
	cur := map[*vinfo]*Value{}
	zero := func(b *Block, t types.Type) *Value {
		c := fl.constVal(b, zeroConst(t), t)
		return c
	}
	get := func(b *Block, vi *vinfo) *Value {
		if v := cur[vi]; v != nil {
			return v
		}
		return zero(b, vi.typ)
	}
	var compose func(b *Block, t types.Type, path string, a *Value, out *[]*Value) *Value
	compose = func(b *Block, t types.Type, path string, a *Value, out *[]*Value) *Value {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			s := fl.newVal(b, OpStruct, t, a.pos)
			for i := 0; i < u.NumFields(); i++ {
				s.args = append(s.args, compose(b, u.Field(i).Type(), fmt.Sprintf("%s.%d", path, i), a, out))
			}
			*out = append(*out, s)
			return s
		case *types.Array:
			s := fl.newVal(b, OpStruct, t, a.pos)
			for i := 0; i < int(u.Len()); i++ {
				s.args = append(s.args, compose(b, u.Elem(), fmt.Sprintf("%s.%d", path, i), a, out))
			}
			*out = append(*out, s)
			return s
		}
		return get(b, byKey[leafKey{a, path}])
	}
	var decompose func(b *Block, val *Value, t types.Type, path string, a *Value, out *[]*Value)
	decompose = func(b *Block, val *Value, t types.Type, path string, a *Value, out *[]*Value) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				var x *Value
				if val.op == OpStruct {
					x = val.args[i]
				} else if val.op == OpConst {
					x = zero(b, u.Field(i).Type())
				} else {
					x = fl.newVal(b, OpField, u.Field(i).Type(), val.pos)
					x.args = []*Value{val}
					x.idx = i
					*out = append(*out, x)
				}
				decompose(b, x, u.Field(i).Type(), fmt.Sprintf("%s.%d", path, i), a, out)
			}
			return
		case *types.Array:
			for i := 0; i < int(u.Len()); i++ {
				var x *Value
				if val.op == OpStruct {
					x = val.args[i]
				} else if val.op == OpConst {
					x = zero(b, u.Elem())
				} else {
					x = fl.newVal(b, OpIndex, u.Elem(), val.pos)
					ci := fl.newVal(b, OpConst, types.Typ[types.Int], val.pos)
					ci.cval = mkInt(int64(i))
					x.args = []*Value{val, ci}
					*out = append(*out, x)
				}
				decompose(b, x, u.Elem(), fmt.Sprintf("%s.%d", path, i), a, out)
			}
			return
		}
		cur[byKey[leafKey{a, path}]] = val
	}
	remap := map[*Value]*Value{}
	R := func(v *Value) *Value {
		for {
			n, ok := remap[v]
			if !ok {
				return v
			}
			v = n
		}
	}
	type frame struct {
		b     *Block
		saved map[*vinfo]*Value
		kid   int
	}
	process := func(b *Block) map[*vinfo]*Value {
		saved := map[*vinfo]*Value{}
		save := func(vi *vinfo) {
			if _, ok := saved[vi]; !ok {
				saved[vi] = cur[vi]
			}
		}
		var ni []*Value
		for _, p := range newPhis[b] {
			vi := phiOf[p]
			save(vi)
			cur[vi] = p
			ni = append(ni, p)
		}
		for _, v := range b.instrs {
			if v.op != OpPhi {
				for i, a := range v.args {
					if a != nil {
						v.args[i] = R(a)
					}
				}
			}
			if v.op == OpAlloc {
				if l, ok := acc[v]; ok {
					for _, vi := range leavesUnder(l) {
						save(vi)
						cur[vi] = zero(b, vi.typ)
					}
					continue
				}
			}
			if _, ok := acc[v]; ok {
				continue // address computation
			}
			if v.op == OpLoad {
				if l, ok := acc[v.args[0]]; ok {
					x := compose(b, l.typ, l.path, l.alloc, &ni)
					remap[v] = x
					continue
				}
			}
			if v.op == OpStore {
				if l, ok := acc[v.args[0]]; ok {
					for _, vi := range leavesUnder(l) {
						save(vi)
					}
					decompose(b, v.args[1], l.typ, l.path, l.alloc, &ni)
					continue
				}
			}
			if v.op == OpField && v.args[0].op == OpStruct {
				remap[v] = v.args[0].args[v.idx]
				continue
			}
			ni = append(ni, v)
		}
		b.instrs = ni
		for _, s := range b.succs {
			for k, p := range s.preds {
				if p != b {
					continue
				}
				for _, ph := range newPhis[s] {
					if ph.args[k] == nil {
						ph.args[k] = get(b, phiOf[ph])
					}
				}
			}
		}
		return saved
	}
	st := []*frame{{b: fl.entry}}
	st[0].saved = process(fl.entry)
	for len(st) > 0 {
		f := st[len(st)-1]
		if f.kid < len(f.b.domKids) {
			k := f.b.domKids[f.kid]
			f.kid++
			nf := &frame{b: k}
			nf.saved = process(k)
			st = append(st, nf)
			continue
		}
		for vi, v := range f.saved {
			cur[vi] = v
		}
		st = st[:len(st)-1]
	}
	fl.each(func(v *Value) {
		for i, a := range v.args {
			if a != nil {
				v.args[i] = R(a)
			}
		}
	})
}
