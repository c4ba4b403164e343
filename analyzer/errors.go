package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "Failure propagation: for every entry point (exported function, command, event handler, callback) with all repository calls inlined, and every call in it that can return an error and every place that creates one, the error is assumed non-nil and followed on all paths. Every path must end in a returned non-nil error, a panic or a non-zero process exit. A path that reaches a normal return, or a handler return, drops the failure.", checkC07)
}

// errorResult returns the index of the error in the results (-1 single result) and whether there is one.
func errorResult(t types.Type) (int, bool) {
	if t == nil {
		return 0, false
	}
	if tu, ok := t.(*types.Tuple); ok {
		for i := 0; i < tu.Len(); i++ {
			if isErrorType(tu.At(i).Type()) {
				return i, true
			}
		}
		return 0, false
	}
	if isErrorType(t) {
		return -1, true
	}
	return 0, false
}

// droppable: functions whose error carries no information for the caller here.
func droppable(name string) bool {
	switch {
	case strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Fprint"), strings.HasPrefix(name, "fmt.Append"):
		return true
	case strings.Contains(name, "strings.Builder)."), strings.Contains(name, "bytes.Buffer)."), strings.Contains(name, "bufio.Writer).Write"):
		return true
	case strings.HasSuffix(name, ").Close"), strings.HasSuffix(name, ").Help"), strings.HasSuffix(name, ").Usage"):
		return true
	}
	return false
}

func isEOF(v *Value) bool {
	v = stripConv(v)
	if v.op == OpLoad {
		v = v.args[0]
	}
	return v.op == OpGlobal && v.glob != nil && v.glob.Pkg != nil && v.glob.Pkg.Pkg.Path() == "io" && v.glob.Name() == "EOF"
}

func checkC07(c *Ctx) {
	dbg := map[string]int{}
	for _, fn := range c.allEntries() {
		fl := c.flat(fn)
		var origins []*Value
		fl.each(func(v *Value) {
			if v.op != OpCall && v.op != OpRecCall && v.op != OpMakeIface {
				return
			}
			if v.fr != nil && v.fr.inCallback() {
				return
			}
			if v.op == OpMakeIface {
				if !isErrorType(v.typ) {
					return
				}
				if n := namedOf(v.args[0].typ); n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
					return
				}
				origins = append(origins, v)
				return
			}
			if _, ok := errorResult(v.typ); !ok {
				return
			}
			if v.op == OpCall && droppable(v.name) {
				return
			}
			origins = append(origins, v)
		})
		for _, o := range origins {
			if o.op == OpCall && propagates(o) {
				continue // wraps an existing error
			}
			dbg[o.name]++
			s := failSim(fl, o)
			var start simEnv
			if !isTuple(o.typ) {
				start = simEnv{o: {kind: fNonNil, bad: true}}
			}
			if s.run(o, start) {
				if s.overflow {
					c.undecide("propagation", "path limit at "+fl.where(o))
					continue
				}
				c.ok("propagation", fmt.Sprintf("%s: %s at %s, %d path steps", shortFn(fn), originName(o), fl.where(o), s.steps))
				continue
			}
			where := "callee"
			if o.fr != nil {
				where = shortFn(o.fr.fn)
			}
			c.fail("propagation", where+": failure of "+originName(o)+" is dropped", fl.where(o),
				"assuming this fails, the entry point "+shortFn(fn)+" ends normally at "+fl.where(s.badExit)+" ("+outcome(s.badExit)+") via "+strings.Join(s.badPath, " > "), fl.chain(o))
		}
	}
	c.recovers()
	c.lenient()
	c.floor("propagation", 150)
}

func outcome(v *Value) string {
	switch v.op {
	case OpReturn:
		return "return"
	case OpPanic:
		return "panic"
	}
	return v.name
}

func originName(o *Value) string {
	switch o.op {
	case OpRecCall:
		return "recursive call"
	case OpMakeIface:
		return "error value " + typeStr(o.args[0].typ)
	}
	return strings.ReplaceAll(o.name, modPath, "bbn")
}

// propagates: the call only wraps another error.
func propagates(o *Value) bool {
	return o.name == "errors.Join" || o.name == "errors.Unwrap"
}

// failSim assumes that the call o failed.
func failSim(fl *Flat, o *Value) *Sim {
	s := &Sim{fl: fl}
	ei, _ := errorResult(o.typ)
	s.assume = func(s *Sim, env simEnv, v *Value) (Fact, bool) {
		if v == o {
			// executed again: this is a different failure
			return Fact{}, true
		}
		if v.op == OpExtract && v.args[0] == o && v.idx == ei && isTuple(o.typ) {
			if _, lost := env[o]; !lost {
				return Fact{kind: fNonNil, bad: true}, true
			}
		}
		return Fact{}, false
	}
	s.visit = func(s *Sim, env simEnv, v *Value) bool {
		switch v.op {
		case OpStore:
			// the error is kept in memory that this rule does not follow
			if f := s.get(env, v.args[1]); f.bad && isErrorType(v.args[1].typ) {
				a := v.args[0]
				if a.op == OpIndexAddr && a.args[0].op == OpAlloc {
					return false // argument list
				}
				return true
			}
		case OpSend, OpMapUpdate:
			for _, a := range v.args {
				if s.get(env, a).bad {
					return true
				}
			}
		}
		return false
	}
	s.branch = func(s *Sim, env simEnv, cond *Value) (bool, bool) {
		return false, false
	}
	s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool {
		switch k {
		case exitPanic:
			return true
		case exitProcess:
			if v.name == "os.Exit" && len(v.args) > 0 {
				f := s.get(env, v.args[0])
				if f.kind == fConst && f.c == "0" {
					return false
				}
				if f.kind != fConst && stripConv(v.args[0]).op == OpBin {
					return false // computed, may be 0
				}
			}
			return true
		case exitReturn:
			for _, a := range v.args {
				if isErrorType(a.typ) && s.get(env, a).kind == fNonNil {
					return true
				}
			}
		}
		return false
	}
	// end of input is not a failure, where rows are read
	if !readsRows(fl, o) {
		return s
	}
	oldVisit := s.visit
	s.visit = func(s *Sim, env simEnv, v *Value) bool {
		if oldVisit(s, env, v) {
			return true
		}
		if v.op == OpIf {
			cond := v.args[0]
			neg := false
			for cond.op == OpUn {
				cond, neg = cond.args[0], !neg
			}
			eof := false
			if cond.op == OpBin && len(cond.args) == 2 {
				eof = (isEOF(cond.args[1]) && s.get(env, cond.args[0]).bad) || (isEOF(cond.args[0]) && s.get(env, cond.args[1]).bad)
			}
			if cond.op == OpCall && cond.name == "errors.Is" {
				eof = isEOF(cond.args[1]) && s.get(env, cond.args[0]).bad
			}
			if eof {
				// the discrimination itself is accepted: follow only the "not end of input" side
				isTrue := cond.op == OpCall || cond.tok.String() == "=="
				if neg {
					isTrue = !isTrue
				}
				env[v.args[0]] = boolFact(!isTrue)
			}
		}
		return false
	}
	return s
}

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

// readsRows: a call in a loop that reads the next piece of its input.
func readsRows(fl *Flat, o *Value) bool {
	if o.op != OpCall {
		return true
	}
	for _, d := range []string{".Decode", ".Unmarshal", ".ReadAll", ".ReadFile", ".DecodeElement"} {
		if strings.HasSuffix(o.name, d) {
			return false
		}
	}
	if !strings.Contains(o.name, ".Read") {
		return true
	}
	for _, l := range fl.loops() {
		if l.blocks[o.blk] {
			return true
		}
	}
	return false
}

// recovers: a recovered panic is raised again or becomes an error.
func (c *Ctx) recovers() {
	n := 0
	for _, fn := range c.w.funcs {
		rec, kept := false, false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						rec = true
					} else if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "os" && f.Name() == "Exit" || f.Pkg.Pkg.Path() == "log") {
						kept = true
					}
				case *ssa.Panic:
					kept = true
				case *ssa.Store:
					if isErrorType(x.Val.Type()) {
						kept = true
					}
				}
			}
		}
		n++
		if rec && !kept {
			c.fail("recover", shortFn(fn)+": recovered panic", c.w.pos(fn.Pos())+" in "+shortFn(fn), "a panic is caught and neither raised again nor turned into an error", "")
		}
	}
	if n > 0 {
		c.ok("recover", fmt.Sprintf("%d functions do not swallow panics", n))
	}
}

// lenient: readers are not told to accept malformed input.
func (c *Ctx) lenient() {
	seen := map[string]bool{}
	for _, fn := range c.w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				p, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				nt, ok := p.Elem().(*types.Named)
				if !ok || nt.Obj().Pkg() == nil {
					continue
				}
				k, isC := st.Val.(*ssa.Const)
				if !isC || k.Value == nil {
					continue
				}
				f := nt.Obj().Pkg().Path() + "." + nt.Obj().Name() + "." + nt.Underlying().(*types.Struct).Field(fa.Field).Name()
				v := k.Value.ExactString()
				if f == "encoding/csv.Reader.LazyQuotes" && v == "true" || f == "encoding/csv.Reader.FieldsPerRecord" && strings.HasPrefix(v, "-") || f == "encoding/xml.Decoder.Strict" && v == "false" {
					if !seen[f] {
						c.fail("lenient", shortFn(fn)+": "+f, c.w.pos(st.Pos())+" in "+shortFn(fn), "the reader is told to accept malformed input instead of failing ("+f+" = "+v+")", "")
					}
					seen[f] = true
				}
			}
		}
	}
	if len(seen) == 0 {
		c.ok("lenient", "no reader accepts malformed input")
	}
}
