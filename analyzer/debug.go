package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// debugConds prints the condition of every store, map update, call and return (development aid).
func debugConds(w *World, spec string, errs bool) {
	p := strings.Split(spec, ":")
	c := &Ctx{w: w}
	fl, _ := flattenStop(w, debugFn(w, p), func(f *ssa.Function) bool { return isSolver(f) || isNetworkOp(f) || isShownOp(f) })
	a := newAlg(c, fl, p[2])
	q := newQL(a)
	if errs {
		q.markErrors()
	}
	for _, l := range a.loops {
		d := q.dom(l)
		s := "?"
		if d != nil {
			s = q.key(d.list) + " " + d.partial
		}
		par := "-"
		if x := q.parent[l]; x != nil {
			par = q.tok(x)
		}
		fmt.Println("loop", q.tok(l), "in", par, "over", s)
	}
	for b := range q.dead {
		p := b.preds[0]
		l := q.inner[p]
		t := p.instrs[len(p.instrs)-1]
		cv := q.val(t.args[0], l)
		if p.succs[1] == b {
			cv = q.m.not(cv)
		}
		tk := ""
		if l != nil {
			tk = q.tok(l)
		}
		fmt.Println("error", fl.where(t), tk, q.pretty(q.m.and(q.cond(l, p), cv)))
	}
	fl.each(func(v *Value) {
		switch v.op {
		case OpStore, OpMapUpdate, OpCall, OpReturn:
		default:
			return
		}
		l := q.inner[v.blk]
		t := ""
		if l != nil {
			t = q.tok(l)
		}
		k := ""
		for _, x := range v.args {
			k += " " + q.key(x)
		}
		fmt.Fprintf(os.Stdout, "v%d %s %s [%s] %s :: %s\n", v.id, opNames[v.op], v.name, k, t, q.pretty(q.cond(l, v.blk)))
	})
}

// debugFn: rel:recv:name, or rel::outer$1 for a closure.
func debugFn(w *World, p []string) *ssa.Function {
	if f := w.fn(p[0], p[1], p[2]); f != nil {
		return f
	}
	for _, f := range w.funcs {
		if f.Pkg == w.pkg(p[0]) && f.Name() == p[2] {
			return f
		}
	}
	return nil
}
