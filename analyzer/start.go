package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isHandler: called for events.
func isHandler(fn *ssa.Function) bool {
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		s := sig.Params().At(i).Type().String()
		if strings.HasSuffix(s, "/v2.EventKey") || strings.HasSuffix(s, "/v2.EventMouse") {
			return true
		}
	}
	return false
}

// starts: what the app does before the first event.
func (c *Ctx) starts() {
	fn := c.w.fn("internal/tui", "App", "Run")
	if fn == nil {
		c.undecide("started", "App.Run not found")
		return
	}
	fl := c.flatStop(fn, func(f *ssa.Function) bool { return isAppOp(f) || isHandler(f) })
	if len(fl.params) == 0 {
		return
	}
	x := newExplorer(c, fl)
	x.recv = fl.params[0].name
	a := &appx{explorer: x, name: "Run", hits: map[string][]xv{}, errs: map[string]bool{}}
	x.known = func(x *explorer, st *xstate, v *Value, args []xv) (xv, bool) {
		switch {
		case strings.HasSuffix(v.name, ".Network).SolvePolicies"):
			x.emit(st, "policies", v, args)
		case strings.HasSuffix(v.name, ".TrainNetwork"):
			x.emit(st, "train", v, args)
		case strings.HasSuffix(v.name, ".Application).Run"):
			x.emit(st, "run", v, args)
		}
		return a.result(x, st, v, args)
	}
	x.events = a.event
	x.calls = true
	done := map[string]bool{}
	var later []func()
	node := func(v *Value, at, what string, key, val xv) {
		later = append(later, func() { a.made(v, at, what, key.s, done) })
	}
	x.onMap = func(st *xstate, v *Value, m, key, val xv) {
		if isInt(v.args[2].typ) && strings.HasSuffix(key.s, ".Name") {
			node(v, val.s, "index", xatom(strings.TrimSuffix(key.s, ".Name")), val)
		}
	}
	stored := false
	x.onSet = func(st *xstate, v *Value, loc string, val xv) {
		if strings.HasSuffix(loc, ".Factor") {
			stored = true
			var n, m int
			f := val.s
			if t, ok := st.mem[f]; ok {
				f = t.s
			}
			i := strings.LastIndex(loc, "[?")
			if i < 0 {
				return
			}
			if k, _ := fmt.Sscanf(loc[i:], "[?%d#1]].node.Factor", &n); k != 1 || loc[i:] != fmt.Sprintf("[?%d#1]].node.Factor", n) {
				return
			}
			if k, _ := fmt.Sscanf(f, "?%d#2", &m); k != 1 || f != fmt.Sprintf("?%d#2", m) {
				return
			}
			if l := x.inner[v.blk]; m == n && l != nil && v.args[1].op == OpAlloc && !l.blocks[v.args[1].blk] {
				c.fail("started", "policy", x.fl.where(v), "all decisions share the policy of the last one as their table", x.fl.chain(v))
				return
			}
			if m == n && !done["policy"] {
				done["policy"] = true
				c.ok("started", "the policy of each decision is its table")
			} else if m != n {
				c.fail("started", "policy", x.fl.where(v), "a decision has the policy of another one as its table", x.fl.chain(v))
			}
			return
		}
		f := callName(val.s)
		if f != "NewNode" {
			return
		}
		if i, ok := lastIndex(loc); ok && loc[0] != '&' {
			arg := val.s[strings.Index(val.s, "(")+1 : len(val.s)-1]
			if p := strings.Index(val.s, "NewNode("); p >= 0 {
				arg = val.s[p+len("NewNode(") : len(val.s)-1]
			}
			node(v, i, "node", xatom(arg), val)
		}
	}
	x.run()
	for _, f := range later {
		f()
	}
	if x.why != "" {
		c.undecide("started", "Run: "+x.why)
		return
	}
	c.wired(fl)
	if !stored {
		c.fail("started", "policy", c.w.pos(fn.Pos()), "the policies are not shown in the tables of the decisions", "")
	}
	n := 0
	for _, o := range x.outs {
		if o.bad != nil || errorPath(o.st) {
			continue
		}
		n++
		a.start(o)
	}
	if n == 0 {
		c.undecide("started", "Run: no path")
	}
}

// made: node, or entry of the index, of a variable.
func (a *appx) made(v *Value, at, what, src string, done map[string]bool) {
	// the variable a node is made of
	const vars = ".variables["
	src = strings.TrimPrefix(src, "{") // field by field
	k := strings.Index(src, vars)
	if k < 0 || !strings.Contains(src[:k], "FromFile(") {
		return
	}
	idx, depth := "", 0
	for i, r := range src[k+len(vars):] {
		if r == '[' {
			depth++
		} else if r == ']' {
			if depth--; depth < 0 {
				idx = src[k+len(vars) : k+len(vars)+i]
				break
			}
		}
	}
	if idx == "" || strings.Count(src, vars) != strings.Count(src, vars+idx+"]") {
		a.c.undecide("started", what+" of several variables")
		return
	}
	if at != idx {
		if !sameCount(at, idx) {
			a.c.undecide("started", what+" "+at+" of variable "+idx+" not understood")
			return
		}
		a.c.fail("started", what, a.fl.where(v), what+" "+at+" is that of variable "+idx, a.fl.chain(v))
		return
	}
	list := src[:k+len(vars)-1]
	for _, il := range a.counters(idx) {
		if l := a.loopOf(il); l != nil {
			switch a.full(l, il, list) {
			case 0:
				a.c.fail("started", what+":all", a.fl.where(v), "not every variable has a "+what, a.fl.chain(v))
				return
			case -1:
				a.c.undecide("started", what+": loop over the variables not understood")
				return
			}
		}
	}
	if !done[what] {
		done[what] = true
		a.c.ok("started", what+" "+at+" of variable "+src)
	}
}

// callName: the name of the function s is a call of.
func callName(s string) string {
	i := strings.Index(s, "NewNode(")
	if i > 0 && s[i-1] == '.' && !strings.Contains(s[:i], "(") {
		return "NewNode"
	}
	return ""
}

// start: one way to start the app.
func (a *appx) start(o xout) {
	st := o.st
	good := true
	bad := func(what, msg string, at *Value) {
		good = false
		if st.opaque {
			a.c.undecide("started", what+": a condition is not understood")
			return
		}
		where, chain := a.c.w.pos(a.fl.entryFn.Pos()), ""
		if at != nil {
			where, chain = a.fl.where(at), a.fl.chain(at)
		}
		a.c.fail("started", "Run:"+what, where, msg, chain)
	}
	net := a.fin(st, "network")
	short := strings.NewReplacer("@github.com/mlange-42/bbn.", "", "@internal/tui.", "", "github.com/mlange-42/bbn/internal/tui.", "", "github.com/mlange-42/bbn.", "", "@", "").Replace
	got := short(net.s)
	from := "FromFile(" + a.recv + ".file)#0"
	trained := fmt.Sprintf("TrainNetwork(%s,%s.variables,%s.trainingFile,%s.noData,%s.csvDelimiter)#0", from, from, a.recv, a.recv, a.recv)
	file, known := st.conds[`eq("",`+a.recv+`.trainingFile)`]
	if !known {
		if e, ok := st.conds[`eq(`+a.recv+`.trainingFile,"")`]; ok {
			file, known = e, true
		}
	}
	length := linAtom("len(" + a.recv + ".trainingFile)")
	if !known && implies(st.facts, linAdd(linConst(-1), length, 1)) {
		file, known = false, true
	}
	if !known && implies(st.facts, linAdd(linConst(0), length, -1)) {
		file, known = true, true
	}
	switch {
	case strings.Contains(got, "?"):
		a.c.undecide("started", "the network is not understood: "+got)
		return
	case got == from && known && !file && st.trained(net.s):
		// in place
	case got == from && known && !file:
		bad("trained", "with a training file, the network is not trained", nil)
	case got == trained && known && file:
		bad("trained", "without a training file, the network is trained", nil)
	case got == from || got == trained:
		if !known {
			good = false
			a.c.undecide("started", "when the network is trained is not understood")
		}
	case strings.HasPrefix(got, "TrainNetwork(") && !strings.Contains(got, ".trainingFile"):
		good = false
		a.c.undecide("started", "the network is not understood: "+got)
	default:
		bad("network", "the network is "+got+", should be "+from+" or "+trained, nil)
	}
	policies, shown, ran := false, false, false
	for _, e := range st.evs {
		switch e.kind {
		case "policies":
			if len(e.args) == 2 && e.args[0].s == net.s {
				if e.args[1].s == "true" {
					policies = true
				} else if e.args[1].s == "false" {
					bad("stepwise", "the policies are not solved one after the other", e.at)
				} else {
					policies = true
					good = false
					a.c.undecide("started", "how policies are solved is not understood")
				}
			}
		case "solve":
			if !policies {
				bad("policies", "the results are computed before the policies of the network are solved", e.at)
			}
		case "show":
			if !ran && strings.HasSuffix(joinX(e.args), `"Info"`) {
				shown = true
			} else if !ran {
				bad("shown", "the app starts with the dialog "+joinX(e.args[1:]), e.at)
			}
		case "run":
			ran = true
			want := fmt.Sprintf("Solve@%d(%s,%s.evidence,%s,%s.ignorePolicies)", e.n, net.s, a.recv, a.fin(st, "nodes").s, a.recv)
			if m := a.fin(st, "marginals"); m.s == a.recv+".marginals" {
				bad("results", "the app starts without results", e.at)
			} else if m.s != want {
				if strings.Contains(strings.TrimPrefix(m.s, want[:strings.Index(want, "(")]), "?") && m.s[:5] != want[:5] {
					good = false
					a.c.undecide("started", "the results are not understood: "+m.s)
				} else {
					bad("results", "the first results shown are "+short(m.s)+", should be "+short(want), e.at)
				}
			}
		}
	}
	if !policies {
		bad("policies", "the policies of the network are not solved", nil)
	}
	if !ran {
		good = false
		a.c.undecide("started", "where the app runs is not understood")
	}
	for _, k := range []string{`eq("",` + net.s + `.info)`, `eq(` + net.s + `.info,"")`} {
		if empty, ok := st.conds[k]; ok && empty == shown {
			bad("info", "the information on the network is shown although there is none, or not shown although there is some", nil)
		}
	}
	if good {
		a.c.ok("started", "Run: "+got)
	}
}

// trained: the network has been trained.
func (st *xstate) trained(net string) bool {
	for _, e := range st.evs {
		if e.kind == "train" && e.args[0].s == net {
			return true
		}
	}
	return false
}

// wired: every handler belongs to the part of the screen it is written for.
func (c *Ctx) wired(fl *Flat) {
	want := map[string]string{
		"inputMainPanel": "", "mouseInputGraph": "graph",
		"inputTable": "table", "mouseInputTable": "table",
		"inputHelp": "help", "mouseInputHelp": "help",
		"inputInfo": "info", "mouseInputInfo": "info",
	}
	found := map[string]bool{}
	odd := false
	fl.each(func(v *Value) {
		if v.op != OpCall || len(v.args) < 2 || !strings.HasPrefix(v.name, "(*"+tviewPkg+".") {
			return
		}
		if !strings.HasSuffix(v.name, ").SetInputCapture") && !strings.HasSuffix(v.name, ").SetMouseCapture") {
			return
		}
		f := v.args[1]
		if f.op != OpClosure && f.op != OpFunc || f.fn == nil {
			odd = true
			return
		}
		h := strings.TrimSuffix(f.fn.Name(), "$bound")
		w, ok := want[h]
		if !ok {
			odd = true
			return
		}
		part := ""
		for r := v.args[0]; r != nil && len(r.args) > 0; r = r.args[0] {
			if r.op == OpFieldAddr || r.op == OpField {
				if len(r.args) > 0 && r.args[0].op == OpParam {
					part = fieldName(r)
					break
				}
				continue
			}
			if r.op != OpLoad {
				break
			}
		}
		if part == "" && w != "" || part != "" && part != w {
			if part == "" {
				odd = true
				return
			}
			c.fail("started", "handler:"+h, fl.where(v), h+" handles the events of "+part, fl.chain(v))
			return
		}
		found[h] = true
		c.ok("started", h+" handles the events of "+w)
	})
	for h := range want {
		if !found[h] && !odd && len(found) > 0 {
			c.fail("started", "handler:"+h, c.w.pos(fl.entryFn.Pos()), h+" is not called for any events", "")
		} else if !found[h] {
			c.undecide("started", "where "+h+" is called is not understood")
		}
	}
}
