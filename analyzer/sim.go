package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path-sensitive propagation of facts over the flattened CFG.
//
// A simulation starts at a program point with a set of assumed facts and follows every
// path that the facts do not rule out. Branch conditions that the facts do not decide are
// followed both ways. It is used to show that every path from a failure ends in an error.

type factKind uint8

const (
	fUnknown factKind = iota
	fNil
	fNonNil
	fConst
)

type Fact struct {
	kind factKind
	c    string // exact constant
	bad  bool   // carries the assumed failure
}

func constFact(cv constant.Value) Fact { return Fact{kind: fConst, c: cv.ExactString()} }
func boolFact(b bool) Fact             { return constFact(constant.MakeBool(b)) }
func intFact(i int64) Fact             { return constFact(constant.MakeInt64(i)) }

type simEnv map[*Value]Fact

type simState struct {
	blk  *Block
	from int // first instruction
	env  simEnv
	path *simPath
}

type simPath struct {
	blk  *Block
	prev *simPath
}

type exitKind int

const (
	exitReturn exitKind = iota
	exitPanic
	exitProcess // os.Exit and the like
	exitHandled // an accepted discrimination of the failure
)

type Sim struct {
	fl       *Flat
	assume   func(s *Sim, env simEnv, v *Value) (Fact, bool)        // fact of an instruction's result
	visit    func(s *Sim, env simEnv, v *Value) bool                // true: path ends here, accepted
	exit     func(s *Sim, k exitKind, env simEnv, v *Value) bool    // true: accepted
	branch   func(s *Sim, env simEnv, cond *Value) (taken, ok bool) // decide an otherwise unknown condition
	limit    int
	steps    int
	overflow bool
	arith    bool // follow small integer arithmetic
	allNil   bool // remember for maps and lists whether they are nil
	errOnly  bool // of branch conditions, remember only whether errors are nil
	live     map[*Value]map[*Block]bool
	badExit  *Value
	badPath  []string
}

func (s *Sim) get(env simEnv, v *Value) Fact {
	if v == nil {
		return Fact{}
	}
	if f, ok := env[v]; ok {
		return f
	}
	switch v.op {
	case OpConst:
		if v.cval == nil {
			return Fact{kind: fNil}
		}
		return constFact(v.cval)
	case OpAlloc, OpMakeMap, OpMakeSlice, OpMakeChan, OpClosure, OpFunc, OpFieldAddr, OpIndexAddr, OpGlobal, OpStruct:
		return Fact{kind: fNonNil}
	case OpMakeIface:
		if _, ok := v.args[0].typ.Underlying().(*types.Pointer); ok {
			f := s.get(env, v.args[0])
			return Fact{kind: fNonNil, bad: f.bad}
		}
		f := s.get(env, v.args[0])
		if f.kind == fConst {
			return Fact{kind: fNonNil, bad: f.bad}
		}
		return Fact{kind: fNonNil, bad: f.bad}
	case OpChangeType:
		return s.get(env, v.args[0])
	case OpTuple:
		return Fact{kind: fNonNil}
	case OpExtract:
		if v.args[0].op == OpTuple && v.idx < len(v.args[0].args) {
			return s.get(env, v.args[0].args[v.idx])
		}
	case OpField:
		if v.args[0].op == OpStruct && v.idx < len(v.args[0].args) {
			return s.get(env, v.args[0].args[v.idx])
		}
	case OpCall:
		if isErrorMaker(v.name) {
			return Fact{kind: fNonNil}
		}
	case OpLoad:
		// package level sentinel errors
		if v.args[0].op == OpGlobal && isErrorType(v.typ) {
			return Fact{kind: fNonNil}
		}
	case OpUn:
		if v.tok == token.NOT {
			x := s.get(env, v.args[0])
			if x.kind == fConst {
				return boolFact(x.c != "true")
			}
		}
	case OpBin:
		return s.bin(env, v)
	}
	return Fact{}
}

func isErrorMaker(name string) bool {
	switch name {
	case "fmt.Errorf", "errors.New":
		return true
	}
	return false
}

func (s *Sim) bin(env simEnv, v *Value) Fact {
	x, y := s.get(env, v.args[0]), s.get(env, v.args[1])
	if x.kind == fUnknown || y.kind == fUnknown {
		return Fact{}
	}
	switch v.tok {
	case token.EQL, token.NEQ:
		eq, known := false, false
		switch {
		case x.kind == fConst && y.kind == fConst:
			eq, known = x.c == y.c, true
		case x.kind == fNil && y.kind == fNil:
			eq, known = true, true
		case x.kind == fNil && y.kind == fNonNil, x.kind == fNonNil && y.kind == fNil:
			eq, known = false, true
		}
		if known {
			return boolFact(eq == (v.tok == token.EQL))
		}
		return Fact{}
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.ADD, token.SUB:
		if x.kind != fConst || y.kind != fConst {
			return Fact{}
		}
		cx, cy := factConst(x), factConst(y)
		if cx == nil || cy == nil || cx.Kind() != constant.Int || cy.Kind() != constant.Int {
			return Fact{}
		}
		if v.tok == token.ADD || v.tok == token.SUB {
			if !s.arith {
				return Fact{}
			}
			r := constant.BinaryOp(cx, v.tok, cy)
			if i, ok := constant.Int64Val(r); ok && i >= -2 && i <= 2 {
				return intFact(i)
			}
			return Fact{}
		}
		return boolFact(constant.Compare(cx, v.tok, cy))
	}
	return Fact{}
}

func factConst(f Fact) constant.Value {
	if f.kind != fConst {
		return nil
	}
	switch {
	case f.c == "true":
		return constant.MakeBool(true)
	case f.c == "false":
		return constant.MakeBool(false)
	case strings.HasPrefix(f.c, "\""):
		return constant.MakeFromLiteral(f.c, token.STRING, 0)
	default:
		if c := constant.MakeFromLiteral(strings.TrimPrefix(f.c, "-"), token.INT, 0); c.Kind() == constant.Int {
			if strings.HasPrefix(f.c, "-") {
				return constant.UnaryOp(token.SUB, c, 0)
			}
			return c
		}
	}
	return nil
}

func (st *simState) key() string {
	ks := make([]string, 0, len(st.env))
	for v, f := range st.env {
		ks = append(ks, fmt.Sprintf("%d:%d%s%v", v.id, f.kind, f.c, f.bad))
	}
	sort.Strings(ks)
	return fmt.Sprintf("%d/%d|", st.blk.id, st.from) + strings.Join(ks, ",")
}

// run explores from the instruction after `at` (or the entry if nil). It returns true if all paths are accepted.
func (s *Sim) run(at *Value, start simEnv) bool {
	if s.limit == 0 {
		s.limit = 60000
	}
	st := &simState{blk: s.fl.entry, env: simEnv{}}
	if at != nil {
		st.blk = at.blk
		st.from = instrIndex(at) + 1
	}
	for k, v := range start {
		st.env[k] = v
	}
	seen := map[string]bool{}
	work := []*simState{st}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		s.steps++
		if s.steps > s.limit {
			s.overflow = true
			return true
		}
		st.path = &simPath{st.blk, st.path}
		ended := false
		for i := st.from; i < len(st.blk.instrs) && !ended; i++ {
			v := st.blk.instrs[i]
			if v.op == OpPhi {
				continue
			}
			if s.visit != nil && s.visit(s, st.env, v) {
				ended = true
				break
			}
			switch v.op {
			case OpReturn:
				ended = true
				if !s.exit(s, exitReturn, st.env, v) {
					s.reject(v, st.path)
					return false
				}
			case OpPanic:
				ended = true
				if !s.exit(s, exitPanic, st.env, v) {
					s.reject(v, st.path)
					return false
				}
			case OpCall:
				if isNoReturn(v.name) {
					ended = true
					if !s.exit(s, exitProcess, st.env, v) {
						s.reject(v, st.path)
						return false
					}
				}
			}
			if ended {
				break
			}
			delete(st.env, v)
			if s.assume != nil {
				if f, ok := s.assume(s, st.env, v); ok {
					st.env[v] = f
					continue
				}
			}
			switch v.op {
			case OpBin, OpUn, OpExtract, OpField, OpChangeType, OpMakeIface:
				if f := s.get(st.env, v); f.kind != fUnknown {
					if v.op != OpMakeIface || f.bad {
						st.env[v] = f
					}
				}
			case OpCall:
				if f := s.callFact(st.env, v); f.kind != fUnknown {
					st.env[v] = f
				}
			case OpLoad:
				if x := forwarded(st.blk, i); x != nil {
					if f := s.get(st.env, x); f.kind != fUnknown {
						st.env[v] = f
					}
				}
			}
		}
		if ended {
			continue
		}
		var cond *Value
		if n := len(st.blk.instrs); n > 0 && st.blk.instrs[n-1].op == OpIf {
			cond = st.blk.instrs[n-1].args[0]
		}
		for i, succ := range st.blk.succs {
			env := st.env
			if cond != nil && len(st.blk.succs) == 2 {
				f := s.get(st.env, cond)
				if f.kind != fConst && s.branch != nil {
					if taken, ok := s.branch(s, st.env, cond); ok {
						f = boolFact(taken)
					}
				}
				if f.kind == fConst {
					if (f.c == "true") != (i == 0) {
						continue
					}
				} else {
					env = s.refine(st.env, cond, i == 0)
				}
			}
			ns := &simState{blk: succ, path: st.path}
			ns.env = s.enter(env, st.blk, i, succ)
			k := ns.key()
			if seen[k] {
				continue
			}
			seen[k] = true
			work = append(work, ns)
		}
	}
	return true
}

func (s *Sim) reject(v *Value, p *simPath) {
	s.badExit = v
	var seq []string
	last := ""
	for ; p != nil; p = p.prev {
		for i := len(p.blk.instrs) - 1; i >= 0; i-- {
			if p.blk.instrs[i].pos.IsValid() {
				if w := s.fl.w.pos(p.blk.instrs[i].pos); w != last {
					seq = append(seq, w)
					last = w
				}
				break
			}
		}
		if len(seq) > 14 {
			seq = append(seq, "...")
			break
		}
	}
	for i, j := 0, len(seq)-1; i < j; i, j = i+1, j-1 {
		seq[i], seq[j] = seq[j], seq[i]
	}
	s.badPath = seq
}

// forwarded: the value stored earlier in the block to the element that instruction i loads.
func forwarded(b *Block, i int) *Value {
	addr := b.instrs[i].args[0]
	if addr.op != OpIndexAddr && addr.op != OpFieldAddr {
		return nil
	}
	for i--; i >= 0; i-- {
		switch v := b.instrs[i]; v.op {
		case OpStore:
			if sameVal(v.args[0], addr) {
				return v.args[1]
			}
			if types.Identical(v.args[1].typ, addr.typ.Underlying().(*types.Pointer).Elem()) {
				return nil
			}
		case OpLoad, OpBin, OpUn, OpConvert, OpChangeType, OpIndexAddr, OpFieldAddr, OpIndex, OpField, OpExtract, OpPhi:
		default:
			return nil
		}
	}
	return nil
}

// searchFact: the result of a search of the sequence for a value that it holds.
func searchFact(v *Value, holds func(*Value) bool, k int64) (f Fact, ok, unclear bool) {
	if v.op != OpCall || len(v.args) == 0 || !strings.HasPrefix(v.name, "slices.") || !holds(v.args[0]) {
		return Fact{}, false, false
	}
	found := false
	name := baseName(v.name)
	switch name {
	case "slices.Min":
		return intFact(k), true, false
	case "slices.Contains", "slices.Index":
		c, isc := constInt(v.args[1])
		if !isc {
			return Fact{}, false, true
		}
		found = c == k
	case "slices.ContainsFunc", "slices.IndexFunc":
		fn := stripCT(v.args[1])
		if fn == nil || fn.fn == nil {
			return Fact{}, false, true
		}
		if found, ok = predAt(fn.fn, k); !ok {
			return Fact{}, false, true
		}
	default:
		return Fact{}, false, v.typ != nil && (isInteger(v.typ) || isBoolOK(v.typ))
	}
	if strings.Contains(name, "Contains") {
		return boolFact(found), true, false
	}
	if found {
		return intFact(0), true, false
	}
	return intFact(-1), true, false
}

// predAt: the result of a function that compares its argument with a constant.
func predAt(fn *ssa.Function, k int64) (res, ok bool) {
	if len(fn.Params) != 1 || len(fn.Blocks) != 1 {
		return false, false
	}
	ret, isRet := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
	if !isRet || len(ret.Results) != 1 {
		return false, false
	}
	val := func(v ssa.Value) constant.Value {
		if v == fn.Params[0] {
			return constant.MakeInt64(k)
		}
		if c, ok := v.(*ssa.Const); ok && c.Value != nil {
			return constant.ToInt(c.Value)
		}
		return nil
	}
	b, isBin := ret.Results[0].(*ssa.BinOp)
	if !isBin {
		return false, false
	}
	x, y := val(b.X), val(b.Y)
	if x == nil || y == nil || x.Kind() != constant.Int || y.Kind() != constant.Int {
		return false, false
	}
	switch b.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return constant.Compare(x, b.Op, y), true
	}
	return false, false
}

// callFact: opaque functions that pass an error on.
func (s *Sim) callFact(env simEnv, v *Value) Fact {
	if isErrorMaker(v.name) {
		bad := false
		for _, a := range v.args {
			if s.get(env, a).bad {
				bad = true
			}
		}
		return Fact{kind: fNonNil, bad: bad}
	}
	if (v.name == "errors.Is" || v.name == "errors.As") && len(v.args) == 2 && s.get(env, v.args[0]).kind == fNil && s.get(env, v.args[1]).kind == fNonNil {
		return boolFact(false)
	}
	if isErrorType(v.typ) {
		for _, a := range v.args {
			if f := s.get(env, a); f.bad && f.kind == fNonNil {
				return Fact{kind: fNonNil, bad: true}
			}
		}
		if v.name == "errors.Join" {
			return s.joinFact(env, v)
		}
	}
	return Fact{}
}

func (s *Sim) joinFact(env simEnv, v *Value) Fact {
	// variadic slice: follow stores into its backing array
	for _, a := range v.args {
		b := stripCT(a)
		for b.op == OpSlice {
			b = stripCT(b.args[0])
		}
		for _, u := range b.uses {
			if u.op == OpIndexAddr {
				for _, st := range u.uses {
					if st.op == OpStore && st.args[0] == u {
						if f := s.get(env, st.args[1]); f.kind == fNonNil {
							return Fact{kind: fNonNil, bad: f.bad}
						}
					}
				}
			}
		}
	}
	return Fact{}
}

func (s *Sim) refine(env simEnv, cond *Value, taken bool) simEnv {
	out := simEnv{}
	for k, v := range env {
		out[k] = v
	}
	for cond.op == OpUn && cond.tok == token.NOT {
		cond, taken = cond.args[0], !taken
	}
	if len(cond.uses) > 1 && !s.errOnly {
		out[cond] = boolFact(taken)
	}
	if cond.op == OpBin && (cond.tok == token.EQL || cond.tok == token.NEQ) {
		eq := taken == (cond.tok == token.EQL)
		x, y := cond.args[0], cond.args[1]
		if isNilConst(x) {
			x, y = y, x
		}
		if s.errOnly && !isErrorType(x.typ) {
			return out
		}
		if isNilConst(y) && x.op != OpConst {
			f := out[x]
			if eq {
				f.kind = fNil
			} else {
				f.kind = fNonNil
			}
			out[x] = f
		} else if y.op == OpConst && y.cval != nil && eq && x.op != OpConst {
			out[x] = constFact(y.cval)
		}
	}
	return out
}

// enter evaluates the phis of the successor and drops facts that are not in scope there.
func (s *Sim) enter(env simEnv, from *Block, succIdx int, to *Block) simEnv {
	out := simEnv{}
	for v, f := range env {
		if v.blk == nil || (dominates(v.blk, to) && s.liveIn(v, to)) {
			out[v] = f
		}
	}
	// position of the edge among the predecessors
	pi := -1
	nth := 0
	for i := 0; i < succIdx; i++ {
		if from.succs[i] == to {
			nth++
		}
	}
	for i, p := range to.preds {
		if p == from {
			if nth == 0 {
				pi = i
				break
			}
			nth--
		}
	}
	if pi < 0 {
		return out
	}
	for _, v := range to.instrs {
		if v.op != OpPhi {
			break
		}
		if pi >= len(v.args) {
			continue
		}
		f := s.get(env, v.args[pi])
		delete(out, v)
		if s.assume != nil {
			if af, ok := s.assume(s, env, v); ok {
				out[v] = af
				continue
			}
		}
		if s.errOnly && !f.bad && !isErrorType(v.typ) {
			if f.kind != fConst || !isBoolOK(v.typ) {
				continue
			}
		}
		switch f.kind {
		case fNil, fConst:
			out[v] = f
		case fNonNil:
			if f.bad || isErrorType(v.typ) || s.allNil {
				out[v] = f
			} else if _, ok := v.typ.Underlying().(*types.Pointer); ok {
				out[v] = f
			}
		}
		if f.kind == fUnknown && f.bad {
			out[v] = f
		}
	}
	return out
}

// liveIn: v may be used in or after block b without being computed again.
func (s *Sim) liveIn(v *Value, b *Block) bool {
	if s.live == nil {
		s.live = map[*Value]map[*Block]bool{}
	}
	m, ok := s.live[v]
	if !ok {
		m = map[*Block]bool{}
		s.live[v] = m
		var work []*Block
		push := func(x *Block) {
			if x != v.blk && !m[x] {
				m[x] = true
				work = append(work, x)
			}
		}
		for _, u := range v.uses {
			if u.op == OpPhi {
				for i, a := range u.args {
					if a == v && i < len(u.blk.preds) {
						push(u.blk.preds[i])
					}
				}
			} else if u.blk != nil {
				push(u.blk)
			}
		}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			for _, p := range x.preds {
				push(p)
			}
		}
	}
	return m[b]
}
