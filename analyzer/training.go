package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "Trainer typestate: in the inlined program of AddSample, every path through the treatment of one node performs either exactly one accumulation and exactly one count in the same table row, or neither; under the assumption that a parent's or the node's own value is missing (negative index, NaN), no path reaches an accumulation for it; counts grow by one; AddSample writes nothing of the network. In UpdateNetwork every table cell is assigned the accumulated value of its row and column divided by the count of that row.", checkC13)
	register("C14", "Failure atomicity: after any write to a table of the network (UpdateNetwork, training from file) no path leads to an error result; on every path from a failure in a constructor or reader the returned network is nil; a file is only written after the data for it was produced without error.", checkC14)
}

// trainerCell classifies a store into the trainer's accumulators: "data" (floats) or "count" (integers).
func trainerCell(pt *PTA, recv *Value, st *Value) string {
	for _, l := range pt.locs(st.args[0]) {
		if l.obj.kind != ObjRegion || l.obj.root != recv {
			continue
		}
		p := l.obj.path + l.path
		// a cell of a nested slice: at least two element steps
		if strings.Count(p, "[]") < 2 {
			continue
		}
		if inNetwork(l) {
			continue
		}
		t := typeAtPath(l)
		if t == nil {
			continue
		}
		if isFloat(t) {
			return "data"
		}
		if isInteger(t) {
			return "count"
		}
	}
	return ""
}

// increment: *addr = *addr + x; returns x.
func increment(pt *PTA, st *Value) *Value {
	v := stripConv(st.args[1])
	if v.op != OpBin || v.tok != token.ADD {
		return nil
	}
	for i := 0; i < 2; i++ {
		l := v.args[i]
		if l.op == OpLoad && (l.args[0] == st.args[0] || sameVal(l.args[0], st.args[0])) {
			return v.args[1-i]
		}
	}
	return nil
}

// indexChain returns the indices of nested element accesses, innermost last.
func indexChain(addr *Value) []*Value {
	var out []*Value
	for {
		switch addr.op {
		case OpIndexAddr:
			out = append([]*Value{addr.args[1]}, out...)
			addr = addr.args[0]
		case OpLoad, OpFieldAddr, OpChangeType:
			addr = addr.args[0]
		case OpSlice:
			addr = addr.args[0]
		default:
			return out
		}
	}
}

func checkC13(c *Ctx) {
	fn := c.must("", "Trainer", "AddSample")
	if fn == nil {
		return
	}
	c.noWrites("training-network", fn, func(e Effect) string {
		if f, _ := netField(c, e.loc); f != "" {
			return "adding a sample modifies the network"
		}
		if inNetwork(e.loc) {
			return "adding a sample modifies the network"
		}
		if len(fn.Params) > 0 && e.loc.obj.root.src != fn.Params[0] {
			return "adding a sample modifies its arguments"
		}
		return ""
	})
	for _, x := range [][3]string{{"", "", "NewTrainer"}, {"internal/tui", "", "TrainNetwork"}} {
		if f := c.w.fn(x[0], x[1], x[2]); f != nil {
			c.found(c.flat(f), "found", x[2])
		}
	}
	fl := c.flat(fn)
	pt := c.pta(fl)
	recv := fl.params[0]
	var data, count []*Value
	fl.each(func(v *Value) {
		if v.op != OpStore {
			return
		}
		switch trainerCell(pt, recv, v) {
		case "data":
			data = append(data, v)
		case "count":
			count = append(count, v)
		}
	})
	if len(data) == 0 || len(count) == 0 {
		c.undecide("accumulate", "no accumulating stores recognised in AddSample")
		return
	}
	for _, s := range data {
		if increment(pt, s) == nil {
			c.fail("accumulate", "AddSample: accumulation", fl.where(s), "a sample overwrites accumulated values instead of adding to them", fl.chain(s))
		} else {
			c.ok("accumulate", fl.where(s))
		}
	}
	for _, s := range count {
		inc := increment(pt, s)
		if inc == nil {
			c.fail("accumulate", "AddSample: count", fl.where(s), "a sample overwrites the sample count instead of incrementing it", fl.chain(s))
			continue
		}
		if k, ok := constInt(inc); !ok || k != 1 {
			c.fail("accumulate", "AddSample: count", fl.where(s), "the sample count does not grow by exactly one", fl.chain(s))
			continue
		}
		c.ok("accumulate", fl.where(s))
	}
	// the per-node loop: the outermost loop that contains the stores
	loops := fl.loops()
	contains := func(l *Loop) bool {
		for _, s := range append(append([]*Value{}, data...), count...) {
			if !l.blocks[s.blk] {
				return false
			}
		}
		return true
	}
	var outer, inner *Loop
	for _, l := range loops {
		if contains(l) {
			if outer == nil || len(l.blocks) > len(outer.blocks) {
				outer = l
			}
			if inner == nil || len(l.blocks) < len(inner.blocks) {
				inner = l
			}
		}
	}
	if inner == nil {
		// data and counts are updated in different loops: every sample must do both for the same node set
		c.undecide("once", "accumulation and counting are not in one loop")
		return
	}
	if inner != outer {
		c.fail("once", "AddSample: repeated accumulation", fl.where(count[0]), "accumulation and counting of a node happen in a nested loop, several times per sample", fl.chain(count[0]))
	}
	for _, l := range loops {
		if l == inner || len(l.blocks) >= len(inner.blocks) {
			continue
		}
		for _, s := range append(append([]*Value{}, data...), count...) {
			if l.blocks[s.blk] && inner.blocks[l.head] {
				c.fail("once", "AddSample: repeated accumulation", fl.where(s), "a sample is accumulated or counted in an inner loop, several times per node", fl.chain(s))
			}
		}
	}
	isData, isCount := map[*Value]bool{}, map[*Value]bool{}
	for _, s := range data {
		isData[s] = true
	}
	for _, s := range count {
		isCount[s] = true
	}
	c.pairOnce(fl, inner, isData, isCount)
	// same row
	for _, d := range data {
		for _, k := range count {
			di, ki := indexChain(d.args[0]), indexChain(k.args[0])
			if len(di) < 2 || len(ki) < 2 {
				c.undecide("row", "unrecognised shape of accumulators")
				continue
			}
			for j := 0; j < 2; j++ {
				if di[j] == ki[j] || sameVal(di[j], ki[j]) {
					c.ok("row", fmt.Sprintf("index %d of %s and %s", j, fl.where(d), fl.where(k)))
					continue
				}
				if pureIndex(di[j]) && pureIndex(ki[j]) {
					c.fail("row", "AddSample: row of count", fl.where(k), "the sample is counted for a different node or row than it is accumulated in ("+fl.where(d)+")", fl.chain(k))
				} else {
					c.undecide("row", "cannot compare rows at "+fl.where(k))
				}
			}
		}
	}
	c.missingValues(fl, pt, fn, isData, isCount)
	c.ownCell(fl, pt, data)
	c.allNodes(fl, pt, inner, isData, isCount)
	c.updateFormula()
	c.updateComplete()
	c.trainerParents()
	c.noDataCells()
	c.rowList()
	c.parentPositions()
	c.everyRow()
	c.outcomeNumbers()
	c.floor("accumulate", 3)
	c.floor("once", 1)
	c.floor("row", 2)
	c.floor("missing", 2)
	c.floor("cell-formula", 1)
}

// pureIndex: an index made of loop counters, parameters and constants, so that different means different.
func pureIndex(v *Value) bool {
	v = stripConv(v)
	switch v.op {
	case OpConst, OpParam, OpPhi, OpLoad, OpExtract:
		return true
	case OpBin:
		return pureIndex(v.args[0]) && pureIndex(v.args[1])
	}
	return false
}

// pairOnce explores the acyclic paths of one iteration and counts accumulations and counts.
func (c *Ctx) pairOnce(fl *Flat, l *Loop, isData, isCount map[*Value]bool) {
	type st struct {
		b    *Block
		d, k int
	}
	seen := map[st]bool{}
	type node struct {
		st
		prev *node
		at   *Value
	}
	var work []*node
	for _, s := range l.head.succs {
		if l.blocks[s] {
			work = append(work, &node{st: st{s, 0, 0}})
		}
	}
	n := 0
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x.st] {
			continue
		}
		seen[x.st] = true
		d, k := x.d, x.k
		at := x.at
		for _, v := range x.b.instrs {
			if isData[v] {
				d++
				at = v
			}
			if isCount[v] {
				k++
				at = v
			}
		}
		if d > 2 || k > 2 {
			continue
		}
		for _, s := range x.b.succs {
			if s == l.head || !l.blocks[s] {
				if s != l.head && endsInPanic(s) {
					continue
				}
				n++
				if d == k && d <= 1 {
					continue
				}
				where, chain := "-", ""
				if at != nil {
					where, chain = fl.where(at), fl.chain(at)
				}
				c.fail("once", fmt.Sprintf("AddSample: %d accumulations with %d counts", d, k), where,
					fmt.Sprintf("one path through the treatment of a node accumulates %d times but counts %d times", d, k), chain)
				continue
			}
			work = append(work, &node{st: st{s, d, k}, prev: x, at: at})
		}
	}
	c.ok("once", fmt.Sprintf("%d path ends of one iteration", n))
}

func endsInPanic(b *Block) bool {
	for i := 0; i < 20 && b != nil; i++ {
		for _, v := range b.instrs {
			if v.op == OpPanic {
				return true
			}
		}
		if len(b.succs) != 1 {
			return false
		}
		b = b.succs[0]
	}
	return false
}

// missingValues: assuming missing data, no accumulation is reachable.
func (c *Ctx) missingValues(fl *Flat, pt *PTA, fn *ssa.Function, isData, isCount map[*Value]bool) {
	intParam := paramNamed(fl, func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isInteger(s.Elem())
	}, 0)
	fltParam := paramNamed(fl, isFloatSlice, 0)
	if intParam == nil || fltParam == nil {
		c.undecide("missing", "sample parameters not recognised")
		return
	}
	mk := func(p *Value) *Taint {
		t := newTaint(fl, pt)
		t.seed = func(l Loc) bool { return l.obj.kind == ObjRegion && l.obj.root == p && l.obj.path+l.path == "[]" }
		t.run()
		return t
	}
	run := func(what string, t *Taint, fact func(v *Value) (Fact, bool), starts []*Value, target func(v *Value) bool) {
		for _, st := range starts {
			s := &Sim{fl: fl, arith: true}
			var hit *Value
			s.assume = func(s *Sim, env simEnv, v *Value) (Fact, bool) {
				if f, ok := fact(v); ok {
					return f, true
				}
				// there is a parent
				if v.op == OpBuiltin && v.name == "len" && t.container(v.args[0]) {
					return intFact(1), true
				}
				return Fact{}, false
			}
			s.visit = func(s *Sim, env simEnv, v *Value) bool {
				if target(v) {
					hit = v
				}
				return hit != nil
			}
			s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool { return true }
			s.run(st, nil)
			if s.overflow {
				c.undecide("missing", what+": path limit")
				continue
			}
			unclear := false
			fl.each(func(v *Value) {
				if _, _, un := searchFact(v, t.container, -1); un {
					unclear = true
				}
			})
			if hit != nil && unclear {
				c.undecide("missing", what+": search not understood")
			} else if hit != nil {
				c.fail("missing", "AddSample: "+what, fl.where(hit), "a sample with a missing "+what+" is accumulated or counted here", fl.chain(hit))
			} else {
				c.ok("missing", what)
			}
		}
	}
	neg := func(t *Taint) func(v *Value) (Fact, bool) {
		return func(v *Value) (Fact, bool) {
			if v.op != OpBin {
				return Fact{}, false
			}
			x, y, op := stripConv(v.args[0]), stripConv(v.args[1]), v.tok
			if t.has(y) && !t.has(x) {
				x, y = y, x
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
			k, ok := constInt(y)
			if !t.has(x) || !ok {
				return Fact{}, false
			}
			// x == -1
			switch op {
			case token.LSS:
				return boolFact(-1 < k), true
			case token.LEQ:
				return boolFact(-1 <= k), true
			case token.GTR:
				return boolFact(-1 > k), true
			case token.GEQ:
				return boolFact(-1 >= k), true
			case token.EQL:
				return boolFact(k == -1), true
			case token.NEQ:
				return boolFact(k != -1), true
			}
			return Fact{}, false
		}
	}
	// own or parent values missing: nothing is counted for a node that uses them. The own value of
	// utility nodes is not part of the integer sample, so only rows of nodes with parents count there.
	ti := mk(intParam)
	own := newTaint(fl, pt)
	tfl := paramTaint(fl, pt, fltParam)
	nodeIdx := map[*Value]bool{}
	for s := range isData {
		if ch := indexChain(s.args[0]); len(ch) > 0 {
			nodeIdx[ch[0]] = true
		}
	}
	fl.each(func(v *Value) {
		if v.op == OpLoad && v.args[0].op == OpIndexAddr && nodeIdx[v.args[0].args[1]] {
			for _, l := range pt.locs(v.args[0]) {
				if ti.seed(l) {
					own.add(v, "")
				}
			}
		}
	})
	own.run()
	negOwn, negAll := neg(own), neg(ti)
	run("value of the node itself", newTaint(fl, pt), func(v *Value) (Fact, bool) {
		if f, ok := negOwn(v); ok {
			return f, true
		}
		// the parents have values
		if f, ok := negAll(v); ok {
			return boolFact(f.c != "true"), true
		}
		return Fact{}, false
	}, []*Value{nil}, func(v *Value) bool {
		// chance nodes only: utilities are not part of the integer sample
		if !isData[v] {
			return false
		}
		inc := increment(pt, v)
		return inc == nil || !tfl.has(stripConv(inc))
	})
	// parents: the row index was derived from a sequence holding parent values
	run("parent value", ti, func(v *Value) (Fact, bool) {
		if f, ok, _ := searchFact(v, ti.container, -1); ok {
			return f, true
		}
		return negAll(v)
	}, []*Value{nil}, func(v *Value) bool {
		if !isCount[v] {
			return false
		}
		return parentsRead(fl, ti, v)
	})
	tf := mk(fltParam)
	run("utility value", tf, func(v *Value) (Fact, bool) {
		if v.op == OpCall && v.name == "math.IsNaN" && tf.has(v.args[0]) {
			return boolFact(true), true
		}
		if v.op == OpBin && (v.tok == token.EQL || v.tok == token.NEQ) && v.args[0] == v.args[1] && tf.has(v.args[0]) {
			return boolFact(v.tok == token.NEQ), true
		}
		return Fact{}, false
	}, []*Value{nil}, func(v *Value) bool {
		if !isData[v] {
			return false
		}
		inc := increment(pt, v)
		return inc != nil && tf.has(stripConv(inc))
	})
}

// parentsRead: the path reached v although all parents are missing, with at least one parent.
func parentsRead(fl *Flat, t *Taint, v *Value) bool {
	ch := indexChain(v.args[0])
	if len(ch) < 2 {
		return false
	}
	row := stripConv(ch[1])
	// a constant row is the row of a node without parents
	if row.op == OpConst {
		return false
	}
	return true
}

// updateFormula: cell = accumulated / count.
func (c *Ctx) updateFormula() {
	fn := c.must("", "Trainer", "UpdateNetwork")
	if fn == nil {
		return
	}
	fl := c.flat(fn)
	pt := c.pta(fl)
	n := 0
	fl.each(func(v *Value) {
		if v.op != OpStore || !isFloat(v.args[1].typ) {
			return
		}
		table := false
		for _, l := range pt.locs(v.args[0]) {
			if l.obj.kind == ObjRegion && inNetwork(l) {
				table = true
			}
		}
		if !table {
			return
		}
		n++
		val := stripConv(v.args[1])
		kind := func(x *Value) string {
			if x.op != OpLoad {
				return ""
			}
			fake := &Value{op: OpStore, args: []*Value{x.args[0], x}}
			return trainerCell(pt, fl.params[0], fake)
		}
		var num, den *Value
		many := false
		rn, rd, ok := ratio(val, func(x *Value) string {
			k := kind(x)
			switch {
			case k == "data":
				many = many || num != nil && !sameVal(num, x)
				num = x
			case k == "count":
				many = many || den != nil && !sameVal(den, x)
				den = x
			case x.op == OpLoad && (isInteger(x.typ) || isFloat(x.typ)):
				return valAtom(x)
			}
			return k
		}, 0)
		if !ok {
			c.undecide("cell-formula", "unrecognised formula at "+fl.where(v))
			return
		}
		if !rn.mul(polyAtom("count")).equal(rd.mul(polyAtom("data"))) {
			c.fail("cell-formula", "UpdateNetwork: cell", fl.where(v), "a trained cell is not the accumulated value divided by the number of samples of its row, but ("+rn.String()+")/("+rd.String()+")", fl.chain(v))
			return
		}
		if many {
			c.undecide("cell-formula", "several accumulators at "+fl.where(v))
			return
		}
		// same node and row
		ni, di := indexChain(num.args[0]), indexChain(den.args[0])
		for j := 0; j < 2 && j < len(ni) && j < len(di); j++ {
			if ni[j] != di[j] && !sameVal(ni[j], di[j]) {
				c.fail("cell-formula", "UpdateNetwork: row", fl.where(v), "a trained cell is divided by the count of a different node or row", fl.chain(v))
				return
			}
		}
		c.ok("cell-formula", fl.where(v))
	})
	if n == 0 {
		c.undecide("cell-formula", "no table assignment found in UpdateNetwork")
	}
}

func checkC14(c *Ctx) {
	// no error after the first table write
	type ent struct{ rel, recv, name string }
	for _, e := range []ent{{"", "Trainer", "UpdateNetwork"}, {"internal/tui", "", "TrainNetwork"}} {
		fn := c.w.fn(e.rel, e.recv, e.name)
		if fn == nil {
			if e.rel == "" {
				c.must(e.rel, e.recv, e.name)
			}
			continue
		}
		fl := c.flat(fn)
		pt := c.pta(fl)
		n := 0
		fl.each(func(v *Value) {
			ls, _, _ := pt.writeLocs(v)
			hit := false
			for _, l := range ls {
				if l.obj.kind != ObjRegion {
					continue
				}
				if inNetwork(l) {
					hit = true
				}
			}
			if !hit {
				return
			}
			n++
			s := &Sim{fl: fl}
			s.exit = func(s *Sim, k exitKind, env simEnv, r *Value) bool {
				if k != exitReturn {
					return true
				}
				for _, a := range r.args {
					if isErrorType(a.typ) && s.get(env, a).kind != fNil {
						return false
					}
				}
				return true
			}
			if s.run(v, nil) {
				if s.overflow {
					c.undecide("no-partial-update", "path limit")
					return
				}
				c.ok("no-partial-update", shortFn(fn)+": "+fl.where(v))
				return
			}
			c.fail("no-partial-update", shortFn(fn)+": write before failure", fl.where(v), "the network is written here, and a later step can still fail: "+strings.Join(s.badPath, " > "), fl.chain(v))
		})
		if n == 0 {
			c.undecide("no-partial-update", shortFn(fn)+": no write to the network found")
		}
	}
	// a failed constructor returns no network
	var fns []*ssa.Function
	for _, p := range []string{"", "internal/tui", "ve", "logic"} {
		fns = append(fns, c.w.exportedFuncs(p)...)
	}
	for _, fn := range fns {
		rs := fn.Signature.Results()
		ri, hasErr := -1, false
		nilable := func(t types.Type) bool {
			if pointerLike(t) {
				return true
			}
			switch t.Underlying().(type) {
			case *types.Slice, *types.Map:
				return true
			}
			return false
		}
		for i := 0; i < rs.Len(); i++ {
			if isErrorType(rs.At(i).Type()) {
				hasErr = true
			} else if nilable(rs.At(i).Type()) {
				ri = i
			}
		}
		if ri < 0 || !hasErr {
			continue
		}
		fl := c.flat(fn)
		bad := false
		var origins []*Value
		fl.each(func(v *Value) {
			if v.op == OpCall && !droppable(v.name) && !propagates(v) && !v.fr.inCallback() {
				if _, ok := errorResult(v.typ); ok {
					origins = append(origins, v)
				}
			}
		})
		for _, o := range origins {
			s := failSim(fl, o)
			s.allNil = true
			exit := s.exit
			s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool {
				if k != exitReturn {
					return exit(s, k, env, v)
				}
				isErr := false
				for _, a := range v.args {
					if isErrorType(a.typ) && s.get(env, a).kind == fNonNil {
						isErr = true
					}
				}
				if !isErr {
					return true // C07
				}
				for i, a := range v.args {
					if !isErrorType(a.typ) && nilable(a.typ) && i < rs.Len() && s.get(env, a).kind == fNonNil {
						return false
					}
				}
				return true
			}
			var start simEnv
			start = simEnv{}
			if !isTuple(o.typ) {
				start[o] = Fact{kind: fNonNil, bad: true}
			}
			for _, p := range fl.params {
				if nilable(p.typ) {
					start[p] = Fact{kind: fNonNil}
				}
			}
			if !s.run(o, start) {
				bad = true
				c.fail("no-result-on-failure", shortFn(fn)+": result with error", fl.where(s.badExit), "after a failure at "+fl.where(o)+" a result is returned together with the error", fl.chain(o))
			}
		}
		if !bad {
			c.ok("no-result-on-failure", fmt.Sprintf("%s (%d failure sources)", shortFn(fn), len(origins)))
		}
	}
	c.floor("no-partial-update", 2)
	c.floor("no-result-on-failure", 6)
}

// noDataCells: a cell that holds the no-data value is a missing value, not an error.
func (c *Ctx) noDataCells() {
	fn := c.w.fn("internal/tui", "", "TrainNetwork")
	if fn == nil {
		c.undecide("no-data", "TrainNetwork not found")
		return
	}
	fl := c.flat(fn)
	pt := c.pta(fl)
	noData := paramNamed(fl, isString, 1)
	if noData == nil {
		c.undecide("no-data", "no-data parameter not recognised")
		return
	}
	nd := newTaint(fl, pt)
	nd.add(noData, "")
	nd.run()
	cell := newTaint(fl, pt)
	cell.seed = func(l Loc) bool {
		return l.obj.kind == ObjExtern && l.obj.site.name == "(*encoding/csv.Reader).Read" && l.path == "@0[]"
	}
	cell.run()
	isCell := func(v *Value) bool { return cell.has(stripConv(v)) }
	for _, st := range csvReads(fl, cell) {
		s := &Sim{fl: fl}
		var hit *Value
		s.assume = func(s *Sim, env simEnv, v *Value) (Fact, bool) {
			if v.op == OpBin && (v.tok == token.EQL || v.tok == token.NEQ) {
				x, y := v.args[0], v.args[1]
				if (isCell(x) && nd.has(y)) || (isCell(y) && nd.has(x)) {
					return boolFact(v.tok == token.EQL), true
				}
			}
			if v.op == OpExtract && v.args[0] == st && isErrorType(v.typ) {
				return Fact{kind: fNil}, true
			}
			return Fact{}, false
		}
		s.visit = func(s *Sim, env simEnv, v *Value) bool {
			if v == st {
				return true // next row
			}
			if v.op == OpCall && strings.HasPrefix(v.name, "strconv.") && len(v.args) > 0 && isCell(v.args[0]) {
				hit = v
			}
			return hit != nil
		}
		s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool { return true }
		s.run(st, nil)
		if hit != nil {
			c.fail("no-data", "TrainNetwork: no-data cell is parsed", fl.where(hit), "a cell that holds the no-data value is parsed as a number and rejected", fl.chain(hit))
		} else {
			c.ok("no-data", "numeric cells")
		}
	}
	// outcome lookups: the no-data value maps to a negative index
	fl.each(func(v *Value) {
		if v.op != OpLookup || !isCell(v.args[1]) {
			return
		}
		mt, ok := v.args[0].typ.Underlying().(*types.Map)
		if !ok || !isInteger(mt.Elem()) {
			return
		}
		maps := map[*Obj]bool{}
		for _, l := range pt.locs(v.args[0]) {
			maps[l.obj] = true
		}
		found, neg := false, false
		fl.each(func(u *Value) {
			if u.op != OpMapUpdate || !nd.has(stripConv(u.args[1])) {
				return
			}
			for _, l := range pt.locs(u.args[0]) {
				if maps[l.obj] {
					found = true
					if k, ok := constInt(u.args[2]); ok && k < 0 {
						neg = true
					}
				}
			}
		})
		// alternatively the comparison comes before the lookup
		guarded := false
		for b := v.blk; b != nil; b = idomOf(b) {
			for _, x := range b.instrs {
				if x.op == OpBin && (x.tok == token.EQL || x.tok == token.NEQ) && (isCell(x.args[0]) && nd.has(x.args[1]) || isCell(x.args[1]) && nd.has(x.args[0])) {
					guarded = true
				}
			}
		}
		switch {
		case neg || guarded:
			c.ok("no-data", "outcome lookup at "+fl.where(v))
		case found:
			c.fail("no-data", "TrainNetwork: no-data outcome", fl.where(v), "the no-data value is looked up as a regular outcome", fl.chain(v))
		default:
			c.fail("no-data", "TrainNetwork: no-data outcome", fl.where(v), "the no-data value is not accepted for outcomes", fl.chain(v))
		}
	})
}

func sampleParams(fl *Flat) (ints, floats *Value) {
	ints = paramNamed(fl, func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isInteger(s.Elem())
	}, 0)
	return ints, paramNamed(fl, isFloatSlice, 0)
}

func paramTaint(fl *Flat, pt *PTA, p *Value) *Taint {
	t := newTaint(fl, pt)
	t.seed = func(l Loc) bool { return l.obj.kind == ObjRegion && l.obj.root == p && l.obj.path+l.path == "[]" }
	t.run()
	return t
}

// ownCell: the column of an accumulation is the node's own value, the added utility the node's own utility.
func (c *Ctx) ownCell(fl *Flat, pt *PTA, data []*Value) {
	ip, fp := sampleParams(fl)
	if ip == nil || fp == nil {
		return
	}
	direct := func(v, p *Value) *Value {
		// load of p[i]: returns i
		v = stripConv(v)
		if v.op == OpLoad && v.args[0].op == OpIndexAddr && stripCT(v.args[0].args[0]) == p {
			return v.args[0].args[1]
		}
		return nil
	}
	for _, s := range data {
		ch := indexChain(s.args[0])
		if len(ch) < 3 {
			c.undecide("own-cell", "unrecognised shape of accumulators")
			continue
		}
		inc := increment(pt, s)
		if inc == nil {
			continue
		}
		node, col := ch[0], ch[len(ch)-1]
		own := func(i *Value) bool { return i == node || sameVal(i, node) }
		if i := direct(inc, fp); i != nil {
			if !own(i) {
				c.fail("own-cell", "AddSample: utility of another node", fl.where(s), "the utility added for a node is taken from another position of the sample", fl.chain(s))
			} else if k, ok := constInt(col); ok && k != 0 {
				c.fail("own-cell", "AddSample: utility column", fl.where(s), "the utility is added in another column than the first", fl.chain(s))
			} else {
				c.ok("own-cell", "utility")
			}
			continue
		}
		if k, ok := constFloat(stripConv(inc)); ok && k != 1 {
			c.fail("own-cell", "AddSample: weight of a sample", fl.where(s), "an observation does not count as one", fl.chain(s))
			continue
		}
		if i := direct(col, ip); i != nil {
			if !own(i) {
				c.fail("own-cell", "AddSample: value of another node", fl.where(s), "the observation is counted under the value of another node", fl.chain(s))
			} else {
				c.ok("own-cell", "value")
			}
		} else if _, ok := constInt(col); ok {
			c.fail("own-cell", "AddSample: fixed column", fl.where(s), "the observation is counted in a fixed column", fl.chain(s))
		} else {
			c.undecide("own-cell", "unrecognised column at "+fl.where(s))
		}
	}
}

// allNodes: with a complete sample every chance and utility node is counted, and a missing value
// of one node does not end the treatment of the others.
func (c *Ctx) allNodes(fl *Flat, pt *PTA, l *Loop, isData, isCount map[*Value]bool) {
	for b := range l.blocks {
		if b == l.head {
			continue
		}
		for _, s := range b.succs {
			if l.blocks[s] || endsInPanic(s) {
				continue
			}
			// a bottom-tested loop leaves after its last element
			ind := false
			for _, iv := range inductions(l) {
				if n := len(b.instrs); iv.cond != nil && n > 0 && b.instrs[n-1].op == OpIf && dependsOnVal(b.instrs[n-1].args[0], iv.cond) {
					ind = true
				}
			}
			if ind {
				continue
			}
			c.fail("all-nodes", "AddSample: early end", fl.where(lastInstr(b)), "the treatment of a sample can end before all nodes were handled", fl.chain(lastInstr(b)))
		}
	}
	ip, fp := sampleParams(fl)
	if ip == nil || fp == nil {
		return
	}
	ti, tf := paramTaint(fl, pt, ip), paramTaint(fl, pt, fp)
	// complete data: sample values are 0, utilities are numbers
	for name, val := range c.nodeTypes() {
		if name == "DecisionNode" {
			continue
		}
		var bad *Value
		unclear := false
		s := &Sim{fl: fl, arith: true}
		s.assume = func(s *Sim, env simEnv, v *Value) (Fact, bool) {
			switch v.op {
			case OpCall:
				if v.name == "math.IsNaN" && tf.has(v.args[0]) {
					return boolFact(false), true
				}
				f, ok, un := searchFact(v, ti.container, 0)
				unclear = unclear || un
				return f, ok
			case OpLoad, OpField:
				if isNamedVal(v.typ, "ve", "NodeType") {
					return Fact{kind: fConst, c: val}, true
				}
				if ti.has(v) && isInteger(v.typ) {
					return intFact(0), true
				}
			case OpBuiltin:
				if v.name == "len" && (stripCT(v.args[0]) == ip || stripCT(v.args[0]) == fp) {
					return intFact(1000), true
				}
			case OpBin:
				x, y := v.args[0], v.args[1]
				if (v.tok == token.EQL || v.tok == token.NEQ) && x == y && tf.has(x) {
					return boolFact(v.tok == token.EQL), true
				}
				for _, p := range []*Value{ip, fp} {
					if (v.tok == token.EQL || v.tok == token.NEQ) && (stripCT(x) == p && isNilConst(y) || stripCT(y) == p && isNilConst(x)) {
						return boolFact(v.tok == token.NEQ), true
					}
				}
			}
			return Fact{}, false
		}
		first := l.head
		s.visit = func(s *Sim, env simEnv, v *Value) bool {
			if isCount[v] {
				return true
			}
			return false
		}
		// end of an iteration without a count
		for _, b := range l.head.succs {
			if !l.blocks[b] || len(b.instrs) == 0 {
				continue
			}
			headSeen := false
			vis := s.visit
			s.visit = func(s *Sim, env simEnv, v *Value) bool {
				if v.blk == first {
					headSeen = true
					bad = v
					return true
				}
				return vis(s, env, v)
			}
			s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool { return true }
			var start *Value
			// start after the last phi of the body's first block
			for _, v := range b.instrs {
				if v.op == OpPhi {
					start = v
				}
			}
			if start == nil {
				// begin at the terminator of the header: simulate from there with the body edge forced
				hd := l.head.instrs[len(l.head.instrs)-1]
				if len(l.head.instrs) > 1 {
					start = l.head.instrs[len(l.head.instrs)-2]
				}
				cond := (*Value)(nil)
				if hd.op == OpIf {
					cond = hd.args[0]
				}
				body := l.head.succs[0] == b
				s.branch = func(s *Sim, env simEnv, cd *Value) (bool, bool) {
					if cd == cond && !headSeen {
						return body, true
					}
					return false, false
				}
				first = nil
				passed := false
				inner := s.visit
				s.visit = func(s *Sim, env simEnv, v *Value) bool {
					if v.blk == l.head && v.op != OpIf && v.op != OpJump {
						if passed {
							bad = v
							return true
						}
					} else if v.blk != l.head {
						passed = true
					}
					return inner(s, env, v)
				}
			}
			s.run(start, nil)
			if s.overflow {
				c.undecide("all-nodes", name+": path limit")
			} else if bad != nil && unclear {
				c.undecide("all-nodes", name+": search not understood")
			} else if bad != nil {
				c.fail("all-nodes", "AddSample: "+name+" not counted", fl.where(bad), "a node of this type can be left out although the sample has all values", "")
			} else {
				c.ok("all-nodes", name)
			}
		}
	}
}

func dependsOnVal(v, x *Value) bool {
	seen := map[*Value]bool{}
	var f func(v *Value) bool
	f = func(v *Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if v == x {
			return true
		}
		if v.op == OpPhi {
			return false
		}
		for _, a := range v.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(v)
}

// updateComplete: every cell of every row of every node is assigned, at the place it was counted for.
func (c *Ctx) updateComplete() {
	fn := c.must("", "Trainer", "UpdateNetwork")
	if fn == nil {
		return
	}
	fl := c.flat(fn)
	pt := c.pta(fl)
	loops := fl.loops()
	fl.each(func(v *Value) {
		if v.op != OpStore || !isFloat(v.args[1].typ) || v.args[0].op != OpIndexAddr {
			return
		}
		table := false
		for _, l := range pt.locs(v.args[0]) {
			if l.obj.kind == ObjRegion && inNetwork(l) {
				table = true
			}
		}
		if !table {
			return
		}
		// the iteration of each enclosing loop reaches the store
		ls := enclosing(loops, v.blk)
		for _, l := range ls {
			inner := map[*Block]bool{v.blk: true}
			// the next inner loop's header stands for the store
			for _, m := range ls {
				if m != l && l.blocks[m.head] {
					inner[m.head] = true
				}
			}
			if b := pathAvoiding(l, inner); b != nil {
				c.fail("all-cells", "UpdateNetwork: skipped", fl.where(lastInstr(b)), "an iteration can pass without assigning the table cells", fl.chain(v))
			} else {
				c.ok("all-cells", "iteration at "+fl.where(lastInstr(l.head)))
			}
			for b := range l.blocks {
				if b == l.head {
					continue
				}
				for _, s := range b.succs {
					if !l.blocks[s] && !endsInPanic(s) && !boundTest(l, b) && innermost(loops, b) == l {
						c.fail("all-cells", "UpdateNetwork: early end", fl.where(lastInstr(b)), "the update of the tables can end early", fl.chain(v))
					}
				}
			}
		}
		// index of the cell
		val := stripConv(v.args[1])
		if val.op != OpBin || val.tok != token.QUO {
			return
		}
		num := stripConv(val.args[0])
		if num.op != OpLoad {
			return
		}
		ch := indexChain(num.args[0])
		if len(ch) < 3 {
			return
		}
		atom := func(x *Value) string {
			if isColumns(x) {
				return "columns"
			}
			return valAtom(x)
		}
		got := flatIndex(v.args[0], atom)
		row, col := polyOf(ch[1], atom, 0), polyOf(ch[2], atom, 0)
		switch rowMajor(got, row, col) {
		case 1:
			c.ok("cell-place", "table[row*columns+column]")
		case -1:
			c.fail("cell-place", "UpdateNetwork: place of a cell", fl.where(v), "the value counted for row "+row.String()+" and column "+col.String()+" is written at "+got.String(), fl.chain(v))
		}
		// full range of rows and columns
		for _, l := range ls {
			for _, iv := range inductions(l) {
				if iv.cur != ch[1] && iv.cur != ch[2] && iv.phi != ch[1] && iv.phi != ch[2] {
					continue
				}
				if f := iv.first(atom); len(f) == 1 && f[""] > 0 {
					c.fail("all-cells", "UpdateNetwork: first cells", fl.where(iv.phi), "the update starts at row or column "+f.String(), "")
				}
				if e := iv.end(atom); e != nil && iv.cur == ch[2] && onlyAtoms(e, []string{"columns"}) && !e.equal(polyAtom("columns")) {
					c.fail("all-cells", "UpdateNetwork: last cells", fl.where(iv.phi), "the update covers "+e.String()+" columns of a row", "")
				}
				if e := iv.end(atom); e != nil && e[""] < 0 {
					c.fail("all-cells", "UpdateNetwork: last cells", fl.where(iv.phi), "the update ends before the last row or column", "")
				}
			}
		}
	})
}

func boundTest(l *Loop, b *Block) bool {
	for _, iv := range inductions(l) {
		if n := len(b.instrs); iv.cond != nil && n > 0 && b.instrs[n-1].op == OpIf && dependsOnVal(b.instrs[n-1].args[0], iv.cond) {
			return true
		}
	}
	return false
}

func enclosing(loops []*Loop, b *Block) []*Loop {
	var out []*Loop
	for _, l := range loops {
		if l.blocks[b] {
			out = append(out, l)
		}
	}
	return out
}

// isColumns: the number of columns of a factor definition, or the number of outcomes of a variable.
func isColumns(v *Value) bool {
	v = stripConv(v)
	if v.op == OpLoad && isColumnsField(v.args[0]) {
		return true
	}
	if v.op == OpField && columnsField(v.args[0].typ) == fieldName(v) && fieldName(v) != "" {
		return true
	}
	if v.op == OpBuiltin && v.name == "len" {
		a := stripCT(v.args[0])
		if a.op == OpLoad && a.args[0].op == OpFieldAddr && fieldName(a.args[0]) == "Outcomes" || a.op == OpField && fieldName(a) == "Outcomes" {
			return true
		}
	}
	return false
}

// trainerParents: the position of a parent in a sample is its position among the nodes.
func (c *Ctx) trainerParents() {
	fn := c.must("", "", "NewTrainer")
	if fn == nil {
		return
	}
	fl := c.flat(fn)
	n := 0
	fl.each(func(v *Value) {
		if v.op != OpMapUpdate {
			return
		}
		mt, ok := v.args[0].typ.Underlying().(*types.Map)
		if !ok || !isString(mt.Key()) || !isInteger(mt.Elem()) {
			return
		}
		idx := nameIndex(v.args[1])
		if idx == nil {
			c.undecide("parent-index", "unrecognised key at "+fl.where(v))
			return
		}
		n++
		if v.args[2] == idx || sameVal(v.args[2], idx) {
			c.ok("parent-index", "name → position")
			return
		}
		p, q := polyOf(v.args[2], valAtom, 0), polyOf(idx, valAtom, 0)
		if d := p.add(q, -1); len(d) == 1 && d[""] != 0 {
			c.fail("parent-index", "NewTrainer: node positions", fl.where(v), "a node is recorded at another position than its own", fl.chain(v))
		} else {
			c.undecide("parent-index", "unrecognised position at "+fl.where(v))
		}
	})
	if n == 0 {
		c.undecide("parent-index", "no table of node positions found")
	}
}

// nameIndex: v is nodes[i].Name; returns i.
func nameIndex(v *Value) *Value {
	v = stripCT(v)
	for d := 0; d < 6; d++ {
		switch v.op {
		case OpField, OpFieldAddr, OpLoad, OpChangeType:
			v = v.args[0]
		case OpIndexAddr, OpIndex:
			return v.args[1]
		default:
			return nil
		}
	}
	return nil
}
