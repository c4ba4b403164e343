package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flattened IR: one entry point with every call into the repository inlined.

type Op int

const (
	OpParam Op = iota
	OpConst
	OpGlobal
	OpFunc
	OpClosure
	OpAlloc
	OpFieldAddr
	OpIndexAddr
	OpField
	OpIndex
	OpLoad
	OpStore
	OpBin
	OpUn
	OpConvert    // numeric/string conversion
	OpChangeType // no representation change
	OpMakeIface
	OpTypeAssert
	OpMakeSlice
	OpMakeMap
	OpMakeChan
	OpSlice
	OpLookup
	OpMapUpdate
	OpRange
	OpNext
	OpExtract
	OpCall // opaque (external) call
	OpBuiltin
	OpPhi
	OpIf
	OpJump
	OpReturn
	OpPanic
	OpTuple
	OpStruct // composed struct value (from memory promotion)
	OpUnknown
	OpNonDet // non-deterministic condition
	OpRecCall
	OpSend
	OpNop
)

var opNames = [...]string{"param", "const", "global", "func", "closure", "alloc", "fieldaddr", "indexaddr", "field", "index", "load", "store", "bin", "un", "convert", "changetype", "makeiface", "typeassert", "makeslice", "makemap", "makechan", "slice", "lookup", "mapupdate", "range", "next", "extract", "call", "builtin", "phi", "if", "jump", "return", "panic", "tuple", "struct", "unknown", "nondet", "reccall", "send", "nop"}

type Value struct {
	id       int
	op       Op
	args     []*Value
	blk      *Block
	typ      types.Type
	tok      token.Token    // OpBin, OpUn
	idx      int            // field index / extract index / param index
	commaOk  bool           // lookup, typeassert, next (isString)
	cval     constant.Value // OpConst (nil for nil/zero)
	name     string         // callee name, builtin name, param name, etc.
	fn       *ssa.Function  // OpFunc/OpClosure target
	glob     *ssa.Global
	callee   *types.Func // opaque calls
	fr       *Frame
	pos      token.Pos
	uses     []*Value
	src      ssa.Value // originating SSA value (nil for synthesized)
	heap     bool
	fwd      *Value // replaced by
	isGo     bool
	isDefer  bool
	ellipsis bool
}

type Block struct {
	id              int
	instrs          []*Value
	succs           []*Block
	preds           []*Block
	fr              *Frame
	idom            *Block
	domNum, domLast int
	domKids         []*Block
	rpo             int
	dead            bool
}

type Frame struct {
	fn        *ssa.Function
	parent    *Frame
	site      token.Pos
	vals      map[ssa.Value]*Value
	first     map[*ssa.BasicBlock]*Block
	last      map[*ssa.BasicBlock]*Block
	params    []*Value
	rets      []retSite
	defers    []*ssa.Defer
	depth     int
	recParams []*Value // set if recursive
	recRet    *Value
	callback  bool // called by a library function, result not visible
}

func (fr *Frame) inCallback() bool {
	for ; fr != nil; fr = fr.parent {
		if fr.callback {
			return true
		}
	}
	return false
}

type retSite struct {
	blk  *Block
	vals []*Value
}

type Flat struct {
	w        *World
	entryFn  *ssa.Function
	entry    *Block
	blocks   []*Block
	params   []*Value
	free     []*Value // free variables, if the entry is a closure
	nvals    int
	nblks    int
	frames   []*Frame
	opaque   map[string]int
	problems []string
	recLinks []recLink
	stop     func(*ssa.Function) bool // functions of the repository that are not inlined
}

type recLink struct {
	call *Value
	fr   *Frame
}

const maxVals = 600000

type flatErr struct{ msg string }

func flatten(w *World, fn *ssa.Function) (fl *Flat, err error) { return flattenStop(w, fn, nil) }

// flattenStop does not inline calls of the functions selected by stop; they appear as calls named "@pkg.f".
func flattenStop(w *World, fn *ssa.Function, stop func(*ssa.Function) bool) (fl *Flat, err error) {
	fl = flattenRaw(w, fn, stop)
	fl.prune()
	fl.promote()
	fl.simplify()
	fl.prune()
	fl.computeUses()
	fl.computeDom()
	return fl, nil
}

func flattenRaw(w *World, fn *ssa.Function, stop func(*ssa.Function) bool) *Flat {
	fl := &Flat{w: w, entryFn: fn, opaque: map[string]int{}, stop: stop}
	var args []*Value
	fl.entry = fl.newBlock(nil)
	for i, p := range fn.Params {
		v := fl.newVal(fl.entry, OpParam, p.Type(), p.Pos())
		v.name = p.Name()
		v.idx = i
		v.src = p
		fl.entry.instrs = append(fl.entry.instrs, v)
		args = append(args, v)
	}
	fl.params = args
	var binds []*Value
	for i, f := range fn.FreeVars {
		v := fl.newVal(fl.entry, OpParam, f.Type(), f.Pos())
		v.name = f.Name()
		v.idx = -1 - i
		v.src = f
		fl.entry.instrs = append(fl.entry.instrs, v)
		binds = append(binds, v)
	}
	fl.free = binds
	fr, first, exit, rets := fl.inline(fn, args, binds, nil, fn.Pos())
	_ = fr
	fl.jump(fl.entry, first)
	if exit != nil {
		r := fl.newVal(exit, OpReturn, nil, fn.Pos())
		r.args = rets
		r.fr = nil
		exit.instrs = append(exit.instrs, r)
	}
	return fl
}

func (fl *Flat) newBlock(fr *Frame) *Block {
	b := &Block{id: fl.nblks, fr: fr}
	fl.nblks++
	fl.blocks = append(fl.blocks, b)
	return b
}

func (fl *Flat) newVal(b *Block, op Op, t types.Type, pos token.Pos) *Value {
	v := &Value{id: fl.nvals, op: op, blk: b, typ: t, pos: pos}
	if b != nil {
		v.fr = b.fr
	}
	fl.nvals++
	if fl.nvals > maxVals {
		panic(flatErr{"flattened program too large: " + fl.entryFn.String()})
	}
	return v
}

func (fl *Flat) emit(b *Block, op Op, t types.Type, pos token.Pos, args ...*Value) *Value {
	v := fl.newVal(b, op, t, pos)
	v.args = args
	b.instrs = append(b.instrs, v)
	return v
}

func (fl *Flat) jump(from, to *Block) {
	fl.emit(from, OpJump, nil, token.NoPos)
	from.succs = append(from.succs, to)
	to.preds = append(to.preds, from)
}

func (fl *Flat) constVal(b *Block, c constant.Value, t types.Type) *Value {
	v := fl.newVal(b, OpConst, t, token.NoPos)
	v.cval = c
	return v
}

func (fr *Frame) onStack(fn *ssa.Function) *Frame {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return f
		}
	}
	return nil
}

func isRecursive(fn *ssa.Function, w *World) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && w.repoFunc(g) {
						if g == fn || visit(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

// inline builds a copy of fn's body. It returns the first block, the exit block (nil if fn never
// returns) and the result values available in the exit block.
func (fl *Flat) inline(fn *ssa.Function, args, binds []*Value, parent *Frame, site token.Pos) (*Frame, *Block, *Block, []*Value) {
	fr := &Frame{fn: fn, parent: parent, site: site, vals: map[ssa.Value]*Value{}, first: map[*ssa.BasicBlock]*Block{}, last: map[*ssa.BasicBlock]*Block{}}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	if fr.depth > 60 {
		panic(flatErr{"call depth exceeded in " + fn.String()})
	}
	fl.frames = append(fl.frames, fr)
	for _, b := range fn.Blocks {
		fr.first[b] = fl.newBlock(fr)
		fr.last[b] = fr.first[b]
	}
	firstB := fr.first[fn.Blocks[0]]
	if isRecursive(fn, fl.w) {
		// parameters merge the outer arguments with those of inner recursive calls
		for i, p := range fn.Params {
			v := fl.newVal(firstB, OpUnknown, p.Type(), p.Pos())
			v.name = "recparam"
			v.args = []*Value{args[i]}
			firstB.instrs = append(firstB.instrs, v)
			fr.recParams = append(fr.recParams, v)
		}
		args = fr.recParams
	}
	fr.params = args
	for i, p := range fn.Params {
		if i < len(args) {
			fr.vals[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			fr.vals[f] = binds[i]
		}
	}
	type phiFix struct {
		v   *Value
		phi *ssa.Phi
	}
	var phis []phiFix
	for _, b := range fn.DomPreorder() {
		cur := fr.first[b]
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				v := fl.newVal(cur, OpPhi, p.Type(), p.Pos())
				v.src = p
				v.name = p.Comment
				cur.instrs = append(cur.instrs, v)
				fr.vals[p] = v
				phis = append(phis, phiFix{v, p})
				continue
			}
			cur = fl.instr(fr, cur, in)
		}
		fr.last[b] = cur
	}
	// recover block is ignored (no repo code recovers); reported as a problem if present
	for _, b := range fn.Blocks {
		l := fr.last[b]
		for _, s := range b.Succs {
			l.succs = append(l.succs, fr.first[s])
		}
		f := fr.first[b]
		for _, p := range b.Preds {
			f.preds = append(f.preds, fr.last[p])
		}
	}
	for _, pf := range phis {
		for _, e := range pf.phi.Edges {
			pf.v.args = append(pf.v.args, fl.val(fr, pf.v.blk, e))
		}
	}
	// join returns
	if len(fr.rets) == 0 {
		return fr, firstB, nil, nil
	}
	exit := fl.newBlock(parent)
	n := fn.Signature.Results().Len()
	var results []*Value
	for i := 0; i < n; i++ {
		var v *Value
		if len(fr.rets) == 1 {
			v = fr.rets[0].vals[i]
		} else {
			v = fl.newVal(exit, OpPhi, fn.Signature.Results().At(i).Type(), fn.Pos())
			v.name = fmt.Sprintf("%s#%d", fn.Name(), i)
			for _, r := range fr.rets {
				v.args = append(v.args, r.vals[i])
			}
			exit.instrs = append(exit.instrs, v)
		}
		results = append(results, v)
	}
	for _, r := range fr.rets {
		fl.jump(r.blk, exit)
	}
	for _, l := range fl.recLinks {
		if l.fr == fr {
			l.call.args = append(l.call.args, results...)
		}
	}
	return fr, firstB, exit, results
}

func (fl *Flat) val(fr *Frame, b *Block, v ssa.Value) *Value {
	if x, ok := fr.vals[v]; ok {
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		c := fl.newVal(b, OpConst, v.Type(), v.Pos())
		c.cval = v.Value
		c.src = v
		return c
	case *ssa.Global:
		g := fl.newVal(b, OpGlobal, v.Type(), v.Pos())
		g.glob = v
		g.name = v.String()
		g.src = v
		return g
	case *ssa.Function:
		f := fl.newVal(b, OpFunc, v.Type(), v.Pos())
		f.fn = v
		f.name = v.String()
		return f
	case *ssa.Builtin:
		f := fl.newVal(b, OpUnknown, v.Type(), v.Pos())
		f.name = "builtin:" + v.Name()
		return f
	}
	// use before definition (unreachable code)
	u := fl.newVal(b, OpUnknown, v.Type(), v.Pos())
	u.name = "undef:" + v.Name()
	return u
}

func (fl *Flat) instr(fr *Frame, b *Block, in ssa.Instruction) *Block {
	set := func(v ssa.Value, x *Value) {
		x.src = v
		fr.vals[v] = x
	}
	V := func(v ssa.Value) *Value { return fl.val(fr, b, v) }
	switch in := in.(type) {
	case *ssa.DebugRef:
		return b
	case *ssa.Alloc:
		x := fl.emit(b, OpAlloc, in.Type(), in.Pos())
		x.name = in.Comment
		x.heap = in.Heap
		set(in, x)
	case *ssa.BinOp:
		x := fl.emit(b, OpBin, in.Type(), in.Pos(), V(in.X), V(in.Y))
		x.tok = in.Op
		set(in, x)
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			x := fl.emit(b, OpLoad, in.Type(), in.Pos(), V(in.X))
			set(in, x)
		case token.ARROW:
			x := fl.emit(b, OpUnknown, in.Type(), in.Pos(), V(in.X))
			x.name = "recv"
			set(in, x)
		default:
			x := fl.emit(b, OpUn, in.Type(), in.Pos(), V(in.X))
			x.tok = in.Op
			set(in, x)
		}
	case *ssa.FieldAddr:
		x := fl.emit(b, OpFieldAddr, in.Type(), in.Pos(), V(in.X))
		x.idx = in.Field
		set(in, x)
	case *ssa.Field:
		x := fl.emit(b, OpField, in.Type(), in.Pos(), V(in.X))
		x.idx = in.Field
		set(in, x)
	case *ssa.IndexAddr:
		set(in, fl.emit(b, OpIndexAddr, in.Type(), in.Pos(), V(in.X), V(in.Index)))
	case *ssa.Index:
		set(in, fl.emit(b, OpIndex, in.Type(), in.Pos(), V(in.X), V(in.Index)))
	case *ssa.Convert:
		set(in, fl.emit(b, OpConvert, in.Type(), in.Pos(), V(in.X)))
	case *ssa.MultiConvert:
		set(in, fl.emit(b, OpConvert, in.Type(), in.Pos(), V(in.X)))
	case *ssa.ChangeType:
		set(in, fl.emit(b, OpChangeType, in.Type(), in.Pos(), V(in.X)))
	case *ssa.ChangeInterface:
		set(in, fl.emit(b, OpChangeType, in.Type(), in.Pos(), V(in.X)))
	case *ssa.SliceToArrayPointer:
		set(in, fl.emit(b, OpChangeType, in.Type(), in.Pos(), V(in.X)))
	case *ssa.MakeInterface:
		set(in, fl.emit(b, OpMakeIface, in.Type(), in.Pos(), V(in.X)))
	case *ssa.TypeAssert:
		x := fl.emit(b, OpTypeAssert, in.Type(), in.Pos(), V(in.X))
		x.commaOk = in.CommaOk
		set(in, x)
	case *ssa.MakeSlice:
		set(in, fl.emit(b, OpMakeSlice, in.Type(), in.Pos(), V(in.Len), V(in.Cap)))
	case *ssa.MakeMap:
		set(in, fl.emit(b, OpMakeMap, in.Type(), in.Pos()))
	case *ssa.MakeChan:
		set(in, fl.emit(b, OpMakeChan, in.Type(), in.Pos()))
	case *ssa.MakeClosure:
		x := fl.newVal(b, OpClosure, in.Type(), in.Pos())
		x.fn = in.Fn.(*ssa.Function)
		x.name = x.fn.String()
		for _, bd := range in.Bindings {
			x.args = append(x.args, V(bd))
		}
		b.instrs = append(b.instrs, x)
		set(in, x)
	case *ssa.Slice:
		x := fl.newVal(b, OpSlice, in.Type(), in.Pos())
		x.args = []*Value{V(in.X), nil, nil, nil}
		for i, e := range []ssa.Value{in.Low, in.High, in.Max} {
			if e != nil {
				x.args[i+1] = V(e)
			}
		}
		b.instrs = append(b.instrs, x)
		set(in, x)
	case *ssa.Lookup:
		x := fl.emit(b, OpLookup, in.Type(), in.Pos(), V(in.X), V(in.Index))
		x.commaOk = in.CommaOk
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			x.op = OpIndex // string indexing
		}
		set(in, x)
	case *ssa.MapUpdate:
		fl.emit(b, OpMapUpdate, nil, in.Pos(), V(in.Map), V(in.Key), V(in.Value))
	case *ssa.Range:
		set(in, fl.emit(b, OpRange, in.Type(), in.Pos(), V(in.X)))
	case *ssa.Next:
		x := fl.emit(b, OpNext, in.Type(), in.Pos(), V(in.Iter))
		x.commaOk = in.IsString
		set(in, x)
	case *ssa.Extract:
		t := V(in.Tuple)
		if t.op == OpTuple && in.Index < len(t.args) {
			fr.vals[in] = t.args[in.Index]
			return b
		}
		x := fl.emit(b, OpExtract, in.Type(), in.Pos(), t)
		x.idx = in.Index
		set(in, x)
	case *ssa.Store:
		fl.emit(b, OpStore, nil, in.Pos(), V(in.Addr), V(in.Val))
	case *ssa.Send:
		fl.emit(b, OpSend, nil, in.Pos(), V(in.Chan), V(in.X))
	case *ssa.Select:
		x := fl.emit(b, OpUnknown, in.Type(), in.Pos())
		x.name = "select"
		set(in, x)
	case *ssa.If:
		fl.emit(b, OpIf, nil, in.Pos(), V(in.Cond))
	case *ssa.Jump:
		fl.emit(b, OpJump, nil, token.NoPos)
	case *ssa.Return:
		var vs []*Value
		for _, r := range in.Results {
			vs = append(vs, V(r))
		}
		fr.rets = append(fr.rets, retSite{b, vs})
	case *ssa.Panic:
		fl.emit(b, OpPanic, nil, in.Pos(), V(in.X))
	case *ssa.Call:
		nb, x := fl.call(fr, b, in.Common(), in.Type(), in.Pos(), false, false)
		fr.vals[in] = x
		return nb
	case *ssa.Go:
		nb, _ := fl.call(fr, b, in.Common(), nil, in.Pos(), true, false)
		return nb
	case *ssa.Defer:
		fr.defers = append(fr.defers, in)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			nb, _ := fl.call(fr, b, d.Common(), nil, d.Pos(), false, true)
			b = nb
		}
		return b
	default:
		fl.problems = append(fl.problems, fmt.Sprintf("unsupported instruction %T in %s", in, fr.fn))
	}
	return b
}

func stripCT(v *Value) *Value {
	for v != nil && (v.op == OpChangeType) && len(v.args) == 1 {
		v = v.args[0]
	}
	return v
}

type target struct {
	fn    *ssa.Function
	binds []*Value
	args  []*Value // overriding args (nil: same)
}

func (fl *Flat) call(fr *Frame, b *Block, c *ssa.CallCommon, t types.Type, pos token.Pos, isGo, isDefer bool) (*Block, *Value) {
	V := func(v ssa.Value) *Value { return fl.val(fr, b, v) }
	var args []*Value
	if c.IsInvoke() {
		recv := V(c.Value)
		for _, a := range c.Args {
			args = append(args, V(a))
		}
		return fl.invoke(fr, b, c, recv, args, t, pos)
	}
	for _, a := range c.Args {
		args = append(args, V(a))
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		x := fl.emit(b, OpBuiltin, t, pos, args...)
		x.name = bi.Name()
		if bi.Name() == "recover" {
			fl.problems = append(fl.problems, "recover() used in "+fr.fn.String())
		}
		return b, x
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		return fl.callTargets(fr, b, []target{{fn: f}}, args, nil, t, pos, false)
	}
	fv := stripCT(V(c.Value))
	var tg []target
	unknown := false
	seen := map[*Value]bool{}
	var collect func(v *Value)
	collect = func(v *Value) {
		v = stripCT(v)
		if seen[v] {
			return
		}
		seen[v] = true
		switch v.op {
		case OpFunc:
			tg = append(tg, target{fn: v.fn})
		case OpClosure:
			tg = append(tg, target{fn: v.fn, binds: v.args})
		case OpPhi:
			if len(v.args) == 0 {
				unknown = true
			}
			for _, a := range v.args {
				collect(a)
			}
		case OpConst:
		default:
			unknown = true
		}
	}
	collect(fv)
	if unknown {
		// by signature among address-taken repo functions
		tg = nil
		for _, f := range fl.w.taken {
			if types.Identical(f.Signature, fv.typ.Underlying()) || sigMatch(f.Signature, fv.typ) {
				var binds []*Value
				for _, v := range f.FreeVars {
					u := fl.emit(b, OpUnknown, v.Type(), v.Pos())
					u.name = "freevar:" + f.String() + ":" + v.Name()
					binds = append(binds, u)
				}
				tg = append(tg, target{fn: f, binds: binds})
			}
		}
		if len(tg) == 0 {
			return fl.opaqueCall(fr, b, "dynamic", nil, append([]*Value{fv}, args...), t, pos, isGo, isDefer)
		}
	}
	return fl.callTargets(fr, b, tg, args, nil, t, pos, unknown)
}

func sigMatch(a *types.Signature, t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok {
		return false
	}
	return types.Identical(types.NewSignatureType(nil, nil, nil, a.Params(), a.Results(), a.Variadic()), types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()))
}

func (fl *Flat) invoke(fr *Frame, b *Block, c *ssa.CallCommon, recv *Value, args []*Value, t types.Type, pos token.Pos) (*Block, *Value) {
	r := recv
	for r.op == OpChangeType {
		r = r.args[0]
	}
	m := c.Method
	if r.op == OpMakeIface {
		if f := fl.w.prog.LookupMethod(r.args[0].typ, m.Pkg(), m.Name()); f != nil {
			return fl.callTargets(fr, b, []target{{fn: f}}, append([]*Value{r.args[0]}, args...), m, t, pos, false)
		}
	}
	iface, _ := c.Value.Type().Underlying().(*types.Interface)
	var tg []target
	external := true
	if nt, ok := c.Value.Type().(*types.Named); ok && nt.Obj().Pkg() != nil && fl.w.spkgs[nt.Obj().Pkg().Path()] != nil {
		external = false
	}
	if !external && iface != nil {
		for _, nt := range fl.w.named {
			if types.IsInterface(nt) || nt.TypeParams().Len() > 0 {
				continue
			}
			for _, tt := range []types.Type{nt, types.NewPointer(nt)} {
				if types.Implements(tt, iface) {
					f := fl.w.prog.LookupMethod(tt, m.Pkg(), m.Name())
					if f != nil && f.Blocks != nil {
						ta := fl.emit(b, OpTypeAssert, tt, pos, recv)
						ta.name = "dispatch"
						tg = append(tg, target{fn: f, args: append([]*Value{ta}, args...)})
					}
					break
				}
			}
		}
	}
	if len(tg) == 0 {
		return fl.opaqueCall(fr, b, m.FullName(), m, append([]*Value{recv}, args...), t, pos, false, false)
	}
	return fl.callTargets(fr, b, tg, args, m, t, pos, true)
}

func (fl *Flat) callTargets(fr *Frame, b *Block, tg []target, args []*Value, m *types.Func, t types.Type, pos token.Pos, multi bool) (*Block, *Value) {
	if len(tg) == 1 {
		a := args
		if tg[0].args != nil {
			a = tg[0].args
		}
		return fl.callOne(fr, b, tg[0], a, t, pos)
	}
	join := fl.newBlock(fr)
	n := 0
	if tup, ok := t.(*types.Tuple); ok {
		n = tup.Len()
	} else if t != nil {
		n = 1
	}
	if t != nil && n == 1 {
		if tup, ok := t.(*types.Tuple); ok && tup.Len() == 0 {
			n = 0
		}
	}
	phis := make([][]*Value, n)
	cur := b
	var ends []*Block
	for i, g := range tg {
		var arm *Block
		if i < len(tg)-1 {
			nd := fl.emit(cur, OpNonDet, types.Typ[types.Bool], pos)
			nd.name = "dispatch"
			arm = fl.newBlock(fr)
			next := fl.newBlock(fr)
			fl.emit(cur, OpIf, nil, pos, nd)
			cur.succs = append(cur.succs, arm, next)
			arm.preds = append(arm.preds, cur)
			next.preds = append(next.preds, cur)
			cur = next
		} else {
			arm = cur
		}
		a := args
		if g.args != nil {
			a = g.args
		}
		end, x := fl.callOne(fr, arm, g, a, t, pos)
		if end == nil {
			continue
		}
		ends = append(ends, end)
		switch {
		case n == 1:
			if x != nil && x.op == OpTuple && len(x.args) == 1 {
				x = x.args[0]
			}
			phis[0] = append(phis[0], x)
		case n > 1:
			for j := 0; j < n; j++ {
				if x.op == OpTuple {
					phis[j] = append(phis[j], x.args[j])
				} else {
					e := fl.emit(end, OpExtract, t.(*types.Tuple).At(j).Type(), pos, x)
					e.idx = j
					phis[j] = append(phis[j], e)
				}
			}
		}
	}
	for _, e := range ends {
		fl.jump(e, join)
	}
	if n == 0 {
		return join, fl.emit(join, OpNop, t, pos)
	}
	var res []*Value
	for j := 0; j < n; j++ {
		ty := t
		if tup, ok := t.(*types.Tuple); ok {
			ty = tup.At(j).Type()
		}
		p := fl.newVal(join, OpPhi, ty, pos)
		p.args = phis[j]
		join.instrs = append(join.instrs, p)
		res = append(res, p)
	}
	if n == 1 {
		return join, res[0]
	}
	tu := fl.newVal(join, OpTuple, t, pos)
	tu.args = res
	return join, tu
}

func (fl *Flat) callOne(fr *Frame, b *Block, g target, args []*Value, t types.Type, pos token.Pos) (*Block, *Value) {
	fn := g.fn
	if !fl.w.repoFunc(fn) {
		name := fn.String()
		var ob *types.Func
		if o, ok := fn.Object().(*types.Func); ok {
			ob = o
			name = o.FullName()
		}
		if o := fn.Origin(); o != nil {
			name = o.String()
		}
		return fl.opaqueCall(fr, b, name, ob, args, t, pos, false, false)
	}
	if fl.stop != nil && fl.stop(fn) {
		b, x := fl.opaqueCall(fr, b, "@"+shortFn(fn), nil, args, t, pos, false, false)
		x.fn = fn
		return b, x
	}
	if f := fr.onStack(fn); f != nil {
		x := fl.emit(b, OpRecCall, t, pos, args...)
		x.name = fn.String()
		for i, p := range f.recParams {
			if i < len(args) {
				p.args = append(p.args, args[i])
			}
		}
		x.args = nil // results of f are linked later
		fl.recLinks = append(fl.recLinks, recLink{x, f})
		return b, x
	}
	_, first, exit, rets := fl.inline(fn, args, g.binds, fr, pos)
	fl.jump(b, first)
	if exit == nil {
		// never returns: continue in an unreachable block
		nb := fl.newBlock(fr)
		u := fl.emit(nb, OpUnknown, t, pos)
		u.name = "noreturn"
		return nb, u
	}
	exit.fr = fr
	for _, in := range exit.instrs {
		in.fr = fr
	}
	switch len(rets) {
	case 0:
		return exit, fl.emit(exit, OpNop, t, pos)
	case 1:
		return exit, rets[0]
	}
	tu := fl.newVal(exit, OpTuple, t, pos)
	tu.args = rets
	return exit, tu
}

// opaqueCall emits a call to a function outside the repository. Function-typed arguments that are
// known closures are additionally inlined in a non-deterministic branch, so that their effects and
// checks are visible.
func (fl *Flat) opaqueCall(fr *Frame, b *Block, name string, ob *types.Func, args []*Value, t types.Type, pos token.Pos, isGo, isDefer bool) (*Block, *Value) {
	fl.opaque[name]++
	for _, a := range args {
		f := stripCT(a)
		if f == nil || (f.op != OpFunc && f.op != OpClosure) || !fl.w.repoFunc(f.fn) || fr.onStack(f.fn) != nil {
			continue
		}
		arm := fl.newBlock(fr)
		next := fl.newBlock(fr)
		nd := fl.emit(b, OpNonDet, types.Typ[types.Bool], pos)
		nd.name = "callback"
		fl.emit(b, OpIf, nil, pos, nd)
		b.succs = append(b.succs, arm, next)
		arm.preds = append(arm.preds, b)
		next.preds = append(next.preds, b)
		var cargs []*Value
		for _, p := range f.fn.Params {
			u := fl.emit(arm, OpUnknown, p.Type(), p.Pos())
			u.name = "cbarg:" + name
			for _, o := range args {
				if o != a && o != nil {
					u.args = append(u.args, o)
				}
			}
			cargs = append(cargs, u)
		}
		cf, first, exit, _ := fl.inline(f.fn, cargs, f.args, fr, pos)
		cf.callback = true
		fl.jump(arm, first)
		if exit != nil {
			exit.fr = fr
			fl.jump(exit, next)
		}
		b = next
	}
	x := fl.emit(b, OpCall, t, pos, args...)
	x.name = name
	x.callee = ob
	x.isGo = isGo
	x.isDefer = isDefer
	if isNoReturn(name) {
		fl.emit(b, OpPanic, nil, pos).name = name
		nb := fl.newBlock(fr)
		return nb, x
	}
	return b, x
}

func isNoReturn(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		return true
	}
	return false
}

// ---- cleanup passes

func (fl *Flat) prune() {
	seen := map[*Block]bool{}
	var order []*Block
	var visit func(b *Block)
	stack := []*Block{fl.entry}
	seen[fl.entry] = true
	_ = visit
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		order = append(order, b)
		for _, s := range b.succs {
			if !seen[s] {
				seen[s] = true
				stack = append(stack, s)
			}
		}
	}
	for _, b := range fl.blocks {
		if !seen[b] {
			b.dead = true
		}
	}
	for _, b := range order {
		var np []*Block
		keep := []int{}
		for i, p := range b.preds {
			if seen[p] {
				np = append(np, p)
				keep = append(keep, i)
			}
		}
		if len(np) != len(b.preds) {
			for _, in := range b.instrs {
				if in.op == OpPhi {
					var na []*Value
					for _, k := range keep {
						na = append(na, in.args[k])
					}
					in.args = na
				}
			}
			b.preds = np
		}
	}
	var nb []*Block
	for _, b := range fl.blocks {
		if seen[b] {
			nb = append(nb, b)
		}
	}
	fl.blocks = nb
	fl.computeRPO()
}

func (fl *Flat) computeRPO() {
	seen := map[*Block]bool{}
	var post []*Block
	type item struct {
		b *Block
		i int
	}
	st := []item{{fl.entry, 0}}
	seen[fl.entry] = true
	for len(st) > 0 {
		it := &st[len(st)-1]
		if it.i < len(it.b.succs) {
			s := it.b.succs[it.i]
			it.i++
			if !seen[s] {
				seen[s] = true
				st = append(st, item{s, 0})
			}
			continue
		}
		post = append(post, it.b)
		st = st[:len(st)-1]
	}
	n := len(post)
	fl.blocks = make([]*Block, n)
	for i, b := range post {
		fl.blocks[n-1-i] = b
		b.rpo = n - 1 - i
	}
}

func (fl *Flat) computeDom() {
	for _, b := range fl.blocks {
		b.idom = nil
		b.domKids = nil
	}
	fl.entry.idom = fl.entry
	changed := true
	for changed {
		changed = false
		for _, b := range fl.blocks {
			if b == fl.entry {
				continue
			}
			var nd *Block
			for _, p := range b.preds {
				if p.idom == nil {
					continue
				}
				if nd == nil {
					nd = p
				} else {
					a, c := p, nd
					for a != c {
						for a.rpo > c.rpo {
							a = a.idom
						}
						for c.rpo > a.rpo {
							c = c.idom
						}
					}
					nd = a
				}
			}
			if b.idom != nd {
				b.idom = nd
				changed = true
			}
		}
	}
	for _, b := range fl.blocks {
		if b != fl.entry {
			b.idom.domKids = append(b.idom.domKids, b)
		}
	}
	n := 0
	type item struct {
		b *Block
		i int
	}
	st := []item{{fl.entry, 0}}
	fl.entry.domNum = n
	for len(st) > 0 {
		it := &st[len(st)-1]
		if it.i < len(it.b.domKids) {
			k := it.b.domKids[it.i]
			it.i++
			n++
			k.domNum = n
			st = append(st, item{k, 0})
			continue
		}
		it.b.domLast = n
		st = st[:len(st)-1]
	}
}

// idomOf: the immediate dominator, nil for the entry.
func idomOf(b *Block) *Block {
	if b.idom == b {
		return nil
	}
	return b.idom
}

func dominates(a, b *Block) bool { return a.domNum <= b.domNum && b.domNum <= a.domLast }

// instrIndex returns the position of v in its block, -1 if it is not an instruction (constants etc.).
func instrIndex(v *Value) int {
	for i, in := range v.blk.instrs {
		if in == v {
			return i
		}
	}
	return -1
}

// valDominates: a executes before b on every path to b.
func valDominates(a, b *Value) bool {
	if a.blk == b.blk {
		return instrIndex(a) < instrIndex(b)
	}
	return dominates(a.blk, b.blk)
}

func (fl *Flat) each(f func(v *Value)) {
	for _, b := range fl.blocks {
		for _, v := range b.instrs {
			f(v)
		}
	}
}

func (fl *Flat) computeUses() {
	seen := map[*Value]bool{}
	var clear func(v *Value)
	clear = func(v *Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		v.uses = nil
	}
	fl.each(func(v *Value) {
		clear(v)
		for _, a := range v.args {
			clear(a)
		}
	})
	fl.each(func(v *Value) {
		for _, a := range v.args {
			if a != nil {
				a.uses = append(a.uses, v)
			}
		}
	})
}

func resolve(v *Value) *Value {
	if v == nil {
		return nil
	}
	for v.fwd != nil {
		v = v.fwd
	}
	return v
}

func (fl *Flat) applyFwd() {
	fl.each(func(v *Value) {
		for i, a := range v.args {
			v.args[i] = resolve(a)
		}
	})
	for i, p := range fl.params {
		fl.params[i] = resolve(p)
	}
	for _, b := range fl.blocks {
		var ni []*Value
		for _, v := range b.instrs {
			if v.fwd == nil {
				ni = append(ni, v)
			}
		}
		b.instrs = ni
	}
}

// simplify removes trivial phis and Field(Struct) chains.
func (fl *Flat) simplify() {
	for changed := true; changed; {
		changed = false
		fl.each(func(v *Value) {
			if v.fwd != nil {
				return
			}
			for i, a := range v.args {
				v.args[i] = resolve(a)
			}
			switch v.op {
			case OpPhi:
				var same *Value
				ok := true
				for _, a := range v.args {
					a = resolve(a)
					if a == v || a == same {
						continue
					}
					if same != nil && constEq(a, same) {
						continue
					}
					if same != nil {
						ok = false
						break
					}
					same = a
				}
				if ok && same != nil {
					v.fwd = same
					changed = true
				}
			case OpField:
				a := resolve(v.args[0])
				if a.op == OpStruct {
					v.fwd = resolve(a.args[v.idx])
					changed = true
				}
			case OpStruct:
				if st, ok := v.typ.Underlying().(*types.Struct); ok && st.NumFields() == len(v.args) && len(v.args) > 0 {
					var base *Value
					ok := true
					for i, a := range v.args {
						a = resolve(a)
						if a.op != OpField || a.idx != i || (base != nil && resolve(a.args[0]) != base) || !types.Identical(a.args[0].typ, v.typ) {
							ok = false
							break
						}
						base = resolve(a.args[0])
					}
					if ok {
						v.fwd = base
						changed = true
					}
				}
			case OpExtract:
				a := resolve(v.args[0])
				if a.op == OpTuple {
					v.fwd = resolve(a.args[v.idx])
					changed = true
				}
			}
		})
		fl.applyFwd()
	}
}

func constEq(a, b *Value) bool {
	if a.op != OpConst || b.op != OpConst {
		return false
	}
	if !types.Identical(a.typ, b.typ) {
		return false
	}
	if a.cval == nil || b.cval == nil {
		return a.cval == nil && b.cval == nil
	}
	return constant.Compare(a.cval, token.EQL, b.cval)
}

// ---- printing

func (v *Value) short() string {
	if v == nil {
		return "_"
	}
	switch v.op {
	case OpConst:
		if v.cval == nil {
			return "nil:" + typeStr(v.typ)
		}
		return v.cval.String()
	case OpGlobal:
		return "@" + strings.ReplaceAll(v.name, modPath, "")
	case OpFunc:
		return "fn:" + v.name
	}
	return fmt.Sprintf("v%d", v.id)
}

func typeStr(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (fl *Flat) dump() string {
	var sb strings.Builder
	for _, b := range fl.blocks {
		fmt.Fprintf(&sb, "b%d (preds", b.id)
		for _, p := range b.preds {
			fmt.Fprintf(&sb, " b%d", p.id)
		}
		if b.fr != nil {
			fmt.Fprintf(&sb, ") %s\n", shortFn(b.fr.fn))
		} else {
			sb.WriteString(")\n")
		}
		for _, v := range b.instrs {
			fmt.Fprintf(&sb, "   v%d = %s", v.id, opNames[v.op])
			if v.tok != token.ILLEGAL {
				fmt.Fprintf(&sb, " %s", v.tok)
			}
			if v.name != "" {
				fmt.Fprintf(&sb, " %q", v.name)
			}
			if v.op == OpFieldAddr || v.op == OpField {
				fmt.Fprintf(&sb, " .%s", fieldName(v))
			} else if v.op == OpExtract {
				fmt.Fprintf(&sb, " #%d", v.idx)
			}
			for _, a := range v.args {
				fmt.Fprintf(&sb, " %s", a.short())
			}
			if v.typ != nil {
				fmt.Fprintf(&sb, " : %s", typeStr(v.typ))
			}
			sb.WriteString("\n")
		}
		if len(b.succs) > 0 {
			sb.WriteString("   ->")
			for _, s := range b.succs {
				fmt.Fprintf(&sb, " b%d", s.id)
			}
			sb.WriteString("\n")
		}
	}
	return sb.String()
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldName(v *Value) string {
	s := structOf(v.args[0].typ)
	if s == nil || v.idx >= s.NumFields() {
		return fmt.Sprint(v.idx)
	}
	return s.Field(v.idx).Name()
}
