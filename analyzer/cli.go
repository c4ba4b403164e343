package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "Command-line flow: for every command, each flag variable (matched with its flag by the registering call) and each positional argument is tracked through the inlined program of the command's action to the place that uses it. The network file is the first argument, the data file the second argument or the --train flag, the CSV delimiter comes from --delim, the missing-value text from --no-data, and evidence from --evidence with the variable before and the outcome after '='. A use fed by another source, by an altered text or by a replacement value is reported; so are a positional argument read without a count check, a delimiter of several characters that is accepted, an entry that is skipped, and output written before training.", checkC12)
}

type cliFlag struct {
	name, short string
	call        *Value
}

type cliCmd struct {
	pkg   string
	use   string
	fn    *ssa.Function
	fl    *Flat
	pt    *PTA
	flags map[string]*cliFlag
	seeds map[string]func(l Loc) bool // flag -> memory in the action
	nargs int64                       // number of arguments guaranteed by the validator, -1 unknown
}

func checkC12(c *Ctx) {
	cmds := c.commands()
	want := map[string][][2]string{
		"inference": {{"evidence", "e"}},
		"train":     {{"no-data", "n"}, {"delim", "d"}},
		"bbni":      {{"evidence", "e"}, {"train", "t"}, {"no-data", "n"}, {"delim", "d"}},
	}
	for name, flags := range want {
		cmd := cmds[name]
		if cmd == nil {
			c.fail("command", name, "-", "the command is not defined, or has no action", "")
			continue
		}
		c.ok("command", name)
		for _, f := range flags {
			fl := cmd.flags[f[0]]
			if fl == nil {
				c.fail("flag", name+" --"+f[0], "-", "the flag is not registered for the command's action", "")
				continue
			}
			if fl.short != f[1] {
				c.fail("flag", name+" --"+f[0], "-", "the short form of the flag is not -"+f[1], "")
			}
			if f[0] == "delim" && len(fl.call.args) > 4 {
				if s, ok := constStr(fl.call.args[len(fl.call.args)-2]); ok && s != "," {
					c.fail("flag", name+" --delim", "-", "the default delimiter is not a comma", "")
				}
			}
			if f[0] == "evidence" && !strings.Contains(fl.call.name, ".StringSlice") && strings.Contains(fl.call.name, ".String") {
				c.fail("flag", name+" --evidence", "-", "the flag does not take a list of entries separated by commas", "")
			}
			if f[0] == "no-data" && len(fl.call.args) > 4 {
				if s, ok := constStr(fl.call.args[len(fl.call.args)-2]); ok && s != "" {
					c.fail("flag", name+" --no-data", "-", "the default no-data value is not the empty text", "")
				}
			}
			c.ok("flag", name+" --"+f[0])
		}
		c.cliFlow(name, cmd)
	}
	c.floor("command", 3)
	c.floor("flow", 8)
}

// commands finds the cobra commands of both programs with their flags and actions.
func (c *Ctx) commands() map[string]*cliCmd {
	out := map[string]*cliCmd{}
	for _, rel := range []string{"cmd/bbn", "cmd/bbni"} {
		p := c.w.pkg(rel)
		if p == nil || p.Func("main") == nil {
			continue
		}
		fl := c.flat(p.Func("main"))
		pt := c.pta(fl)
		type rec struct {
			use   string
			fn    *ssa.Function
			binds []*Value
			nargs int64
			glob  bool
		}
		recs := map[*Obj]*rec{}
		get := func(o *Obj) *rec {
			if recs[o] == nil {
				recs[o] = &rec{nargs: -1}
			}
			return recs[o]
		}
		fl.each(func(v *Value) {
			if v.op != OpStore || v.args[0].op != OpFieldAddr {
				return
			}
			fa := v.args[0]
			pt1, ok := fa.args[0].typ.Underlying().(*types.Pointer)
			if !ok || !strings.HasSuffix(pt1.Elem().String(), "cobra.Command") {
				return
			}
			for _, l := range pt.locs(fa.args[0]) {
				r := get(l.obj)
				switch fieldName(fa) {
				case "Use":
					if s, ok := constStr(v.args[1]); ok && len(strings.Fields(s)) > 0 {
						r.use = strings.Fields(s)[0]
					}
				case "RunE", "Run":
					x := stripCT(v.args[1])
					if x.op == OpClosure || x.op == OpFunc {
						if fieldName(fa) == "Run" && r.fn != nil {
							continue
						}
						r.fn, r.binds = x.fn, x.args
					}
				case "Args":
					x := stripCT(v.args[1])
					if x.op == OpCall && len(x.args) > 0 {
						if k, ok := constInt(x.args[0]); ok {
							switch x.name {
							case "github.com/spf13/cobra.ExactArgs", "github.com/spf13/cobra.MinimumNArgs", "github.com/spf13/cobra.RangeArgs":
								r.nargs = k
							}
						}
					}
				}
			}
		})
		var objs []*Obj
		for o := range recs {
			objs = append(objs, o)
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
		for _, o := range objs {
			r := recs[o]
			if r.use == "" || r.fn == nil {
				continue
			}
			cmd := &cliCmd{pkg: rel, use: r.use, fn: r.fn, nargs: r.nargs, flags: map[string]*cliFlag{}, seeds: map[string]func(l Loc) bool{}}
			cmd.fl = c.flat(r.fn)
			cmd.pt = c.pta(cmd.fl)
			fl.each(func(v *Value) {
				if v.op != OpCall || !strings.HasPrefix(v.name, "(*github.com/spf13/pflag.FlagSet).") {
					return
				}
				m := v.name[strings.LastIndex(v.name, ".")+1:]
				var ni int
				var cells []Loc
				switch {
				case strings.HasSuffix(m, "VarP"), strings.HasSuffix(m, "Var"):
					ni = 2
					if len(v.args) > 2 {
						cells = pt.locs(v.args[1])
					}
				default:
					ni = 1
					cells = pt.locs(v)
				}
				if ni >= len(v.args) {
					return
				}
				name, ok := constStr(v.args[ni])
				if !ok {
					return
				}
				short := ""
				if strings.HasSuffix(m, "P") && ni+1 < len(v.args) {
					short, _ = constStr(v.args[ni+1])
				}
				// which free variable leads to the cell?
				for i, b := range r.binds {
					if i >= len(cmd.fl.free) {
						break
					}
					fv := cmd.fl.free[i]
					try := func(locs []Loc, pre string) {
						for _, bl := range locs {
							for _, cl := range cells {
								if bl.obj == cl.obj && strings.HasPrefix(cl.path, bl.path) {
									rel := pre + cl.path[len(bl.path):]
									cmd.flags[name] = &cliFlag{name, short, v}
									cmd.seeds[name] = func(l Loc) bool {
										p := l.obj.path + l.path
										return l.obj.kind == ObjRegion && l.obj.root == fv && (p == rel || p == rel+"*[]")
									}
								}
							}
						}
					}
					bl := pt.locs(b)
					try(bl, "")
					if pp, ok := b.typ.Underlying().(*types.Pointer); ok {
						if _, ok := pp.Elem().Underlying().(*types.Pointer); ok {
							try(contents(pt, bl, pp.Elem()), "*")
						}
					}
				}
				for _, cl := range cells {
					if cl.obj.kind == ObjGlobal {
						g, rel := cl.obj.root.name, cl.obj.path+cl.path
						cmd.flags[name] = &cliFlag{name, short, v}
						cmd.seeds[name] = func(l Loc) bool {
							p := l.obj.path + l.path
							return l.obj.kind == ObjGlobal && l.obj.root.name == g && (p == rel || p == rel+"*[]")
						}
					}
				}
				// the action asks for the flag by name
				if cmd.flags[name] == nil {
					cmd.fl.each(func(u *Value) {
						if u.op == OpCall && strings.HasPrefix(u.name, "(*github.com/spf13/pflag.FlagSet).Get") && len(u.args) > 1 {
							if s, ok := constStr(u.args[1]); ok && s == name {
								cmd.flags[name] = &cliFlag{name, short, v}
								cmd.seeds[name] = func(l Loc) bool { return l.obj.kind == ObjExtern && l.obj.site == u }
							}
						}
					})
				}
			})
			if old := out[r.use]; old == nil || len(cmd.flags) > len(old.flags) {
				out[r.use] = cmd
			}
		}
	}
	return out
}

// flagTaint follows a flag's text.
func (cmd *cliCmd) flagTaint(name string, exact bool) *Taint {
	t := newTaint(cmd.fl, cmd.pt)
	t.seed = cmd.seeds[name]
	t.exact = exact
	t.runes = true
	cmd.fl.each(func(u *Value) {
		if u.op == OpCall && strings.HasPrefix(u.name, "(*github.com/spf13/pflag.FlagSet).Get") && len(u.args) > 1 {
			if s, ok := constStr(u.args[1]); ok && s == name {
				t.add(u, "#0")
			}
		}
	})
	t.run()
	return t
}

// argTaint follows positional argument i.
func (cmd *cliCmd) argTaint(i int64, exact bool) *Taint {
	t := newTaint(cmd.fl, cmd.pt)
	t.exact = exact
	for _, v := range cmd.argLoads() {
		if k, ok := constInt(v.args[0].args[1]); ok && k == i {
			t.add(v, "")
		}
	}
	t.run()
	return t
}

func (cmd *cliCmd) argLoads() []*Value {
	var out []*Value
	var args *Value
	for _, p := range cmd.fl.params {
		if isStrSlice(p.typ) {
			args = p
		}
	}
	cmd.fl.each(func(v *Value) {
		if v.op == OpLoad && v.args[0].op == OpIndexAddr && args != nil && stripCT(v.args[0].args[0]) == args {
			out = append(out, v)
		}
	})
	return out
}

type cliSink struct {
	role string
	val  *Value
	at   *Value
}

// sinks of the action: places where files, delimiter and no-data text are used.
func (cmd *cliCmd) sinks() []cliSink {
	var out []cliSink
	fl, pt := cmd.fl, cmd.pt
	// results of opening a file that end up in the CSV reader
	csvSrc := map[*Obj]bool{}
	fl.each(func(v *Value) {
		if v.op == OpCall && v.name == "encoding/csv.NewReader" {
			for _, l := range pt.locs(v.args[0]) {
				csvSrc[l.obj] = true
			}
			x := v.args[0]
			for x.op == OpMakeIface || x.op == OpChangeType || x.op == OpExtract {
				x = x.args[0]
			}
			for _, l := range pt.valueLocs(x) {
				csvSrc[l.obj] = true
			}
		}
	})
	cellT := newTaint(fl, pt)
	cellT.seed = func(l Loc) bool {
		return l.obj.kind == ObjExtern && l.obj.site.name == "(*encoding/csv.Reader).Read" && l.path == "@0[]"
	}
	cellT.run()
	inRow := map[*Value]bool{}
	for _, r := range csvReads(fl, cellT) {
		inRow[r] = true
	}
	fl.each(func(v *Value) {
		switch v.op {
		case OpCall:
			switch v.name {
			case "os.ReadFile", "os.Open", "os.OpenFile", "io/ioutil.ReadFile":
				role := "network file"
				for _, l := range pt.valueLocs(v) {
					if csvSrc[l.obj] {
						role = "data file"
					}
				}
				if v.name != "os.ReadFile" && role == "network file" {
					for _, u := range v.uses {
						for _, l := range pt.valueLocs(u) {
							if csvSrc[l.obj] {
								role = "data file"
							}
						}
					}
				}
				out = append(out, cliSink{role, v.args[0], v})
			}
		case OpStore:
			if v.args[0].op == OpFieldAddr && fieldName(v.args[0]) == "Comma" {
				if p, ok := v.args[0].args[0].typ.Underlying().(*types.Pointer); ok && strings.HasSuffix(p.Elem().String(), "csv.Reader") {
					out = append(out, cliSink{"delimiter", v.args[1], v})
				}
			}
		case OpBin:
			if v.tok == token.EQL || v.tok == token.NEQ {
				x, y := v.args[0], v.args[1]
				if cellT.has(x) && !cellT.has(y) && y.op != OpConst {
					out = append(out, cliSink{"no-data", y, v})
				} else if cellT.has(y) && !cellT.has(x) && x.op != OpConst {
					out = append(out, cliSink{"no-data", x, v})
				}
			}
		case OpMapUpdate:
			if k, ok := constInt(v.args[2]); ok && k < 0 && isString(v.args[1].typ) {
				out = append(out, cliSink{"no-data", v.args[1], v})
			}
		}
	})
	return out
}

func (c *Ctx) cliFlow(name string, cmd *cliCmd) {
	fl := cmd.fl
	// positional arguments need a guaranteed count
	for _, v := range cmd.argLoads() {
		k, ok := constInt(v.args[0].args[1])
		if !ok {
			c.undecide("arg-count", "argument with a computed index at "+fl.where(v))
			continue
		}
		if cmd.nargs > k {
			c.ok("arg-count", fmt.Sprintf("%s args[%d]", name, k))
			continue
		}
		// a test of the number of arguments before the access
		tested := false
		for b := v.blk; b != nil; b = idomOf(b) {
			for _, x := range b.instrs {
				if x.op == OpBuiltin && x.name == "len" && stripCT(x.args[0]) == stripCT(v.args[0].args[0]) {
					tested = true
				}
			}
		}
		if tested {
			c.undecide("arg-count", "number of arguments tested in the action")
			continue
		}
		c.fail("arg-count", fmt.Sprintf("%s: argument %d", name, k), fl.where(v), "the argument is used although the command accepts fewer arguments", fl.chain(v))
	}
	srcs := map[string]string{"network file": "argument 0", "delimiter": "--delim", "no-data": "--no-data"}
	if cmd.flags["train"] != nil {
		srcs["data file"] = "--train"
	} else {
		srcs["data file"] = "argument 1"
	}
	full, exact := map[string]*Taint{}, map[string]*Taint{}
	for f := range cmd.flags {
		full["--"+f], exact["--"+f] = cmd.flagTaint(f, false), cmd.flagTaint(f, true)
	}
	for i := int64(0); i < 3; i++ {
		k := fmt.Sprintf("argument %d", i)
		full[k], exact[k] = cmd.argTaint(i, false), cmd.argTaint(i, true)
	}
	reached := map[string]bool{}
	for _, s := range cmd.sinks() {
		want := srcs[s.role]
		v := stripConv(s.val)
		t := full[want]
		if t == nil {
			continue
		}
		key := name + ": " + s.role
		is := func(t *Taint, v *Value) bool {
			return t.has(v)
		}
		if !is(t, v) {
			other := ""
			for n, o := range full {
				if is(o, v) {
					other = n
				}
			}
			if other != "" {
				c.fail("flow", key, fl.where(s.at), fmt.Sprintf("the %s is taken from %s instead of %s", s.role, other, want), fl.chain(s.at))
				continue
			}
			if v.op == OpConst {
				c.fail("flow", key, fl.where(s.at), fmt.Sprintf("the %s is a constant instead of %s", s.role, want), fl.chain(s.at))
				continue
			}
			if s.role == "network file" || s.role == "no-data" {
				// some other file or comparison; whether the right one exists is checked below
				continue
			}
			if s.role == "data file" {
				c.fail("flow", key, fl.where(s.at), fmt.Sprintf("the %s does not come from %s", s.role, want), fl.chain(s.at))
				continue
			}
			c.undecide("flow", key+": source not recognised")
			reached[s.role] = true
			continue
		}
		if s.role != "delimiter" && !is(exact[want], v) {
			c.fail("flow", key, fl.where(s.at), fmt.Sprintf("the text of %s is changed before it is used as the %s", want, s.role), fl.chain(s.at))
			continue
		}
		mixed := ""
		for n, o := range full {
			if n != want && is(o, v) {
				mixed = n
			}
		}
		if mixed != "" {
			c.fail("flow", key, fl.where(s.at), fmt.Sprintf("the %s may come from %s as well as from %s", s.role, mixed, want), fl.chain(s.at))
			continue
		}
		if x := replaced(v, t); x != nil {
			c.fail("flow", key, fl.where(s.at), fmt.Sprintf("%s is replaced by another value in some cases", want), fl.chain(s.at))
			continue
		}
		reached[s.role] = true
		c.ok("flow", key+" from "+want+" at "+fl.where(s.at))
	}
	need := []string{"network file"}
	if cmd.flags["delim"] != nil {
		need = append(need, "data file", "delimiter", "no-data")
	}
	for _, r := range need {
		if !reached[r] {
			c.fail("flow", name+": "+r+" missing", "-", fmt.Sprintf("%s does not reach its use as the %s", srcs[r], r), "")
		}
	}
	// a flag must not be overwritten
	fl.each(func(v *Value) {
		if v.op != OpStore {
			return
		}
		for _, l := range cmd.pt.locs(v.args[0]) {
			for f, seed := range cmd.seeds {
				if seed(l) {
					c.fail("flow", name+": --"+f+" overwritten", fl.where(v), "the value of the flag is overwritten by the action", fl.chain(v))
				}
			}
		}
	})
	c.readerOptions(name, fl)
	if cmd.flags["delim"] != nil {
		c.singleRune(name, cmd, full["--delim"])
		if cmd.flags["train"] == nil {
			c.outputAfterTraining(name, cmd)
		}
	}
	if cmd.flags["evidence"] != nil {
		c.evidenceFlow(name, cmd, full["--evidence"])
	}
}

// replaced: a merge of the tainted value with something else.
func replaced(v *Value, t *Taint) *Value {
	seen := map[*Value]bool{}
	var walk func(v *Value) *Value
	walk = func(v *Value) *Value {
		v = stripCT(v)
		if seen[v] {
			return nil
		}
		seen[v] = true
		if v.op == OpPhi {
			for i, a := range v.args {
				if !t.has(a) {
					if i < len(v.blk.preds) && erroringEdge(v, v.blk.preds[i]) {
						continue
					}
					return a
				}
				if x := walk(a); x != nil {
					return x
				}
			}
		}
		return nil
	}
	return walk(v)
}

// singleRune: a delimiter that is empty or has several characters is rejected before the data is read.
func (c *Ctx) singleRune(name string, cmd *cliCmd, t *Taint) {
	fl := cmd.fl
	var lens []*Value
	decode := false
	fl.each(func(v *Value) {
		if v.op == OpBuiltin && v.name == "len" {
			x := stripCT(v.args[0])
			if x.op == OpConvert && t.has(x.args[0]) || t.has(x) && isString(x.typ) {
				lens = append(lens, v)
			}
		}
		if v.op == OpCall && len(v.args) > 0 && t.has(v.args[0]) {
			switch v.name {
			case "unicode/utf8.RuneCountInString":
				lens = append(lens, v)
			case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeLastRuneInString":
				decode = true
			}
		}
	})
	if decode {
		c.undecide("single-rune", name+": decoding of the delimiter not followed")
		return
	}
	if len(lens) == 0 {
		c.fail("single-rune", name+": --delim", "-", "the length of the delimiter is not checked", "")
		return
	}
	is := map[*Value]bool{}
	for _, l := range lens {
		is[l] = true
	}
	for _, n := range []int64{0, 2, 3} {
		s := &Sim{fl: fl, errOnly: true}
		var hit *Value
		s.assume = func(s *Sim, env simEnv, v *Value) (Fact, bool) {
			if is[v] {
				return intFact(n), true
			}
			return Fact{}, false
		}
		s.visit = func(s *Sim, env simEnv, v *Value) bool {
			if v.op == OpStore && v.args[0].op == OpFieldAddr && fieldName(v.args[0]) == "Comma" {
				hit = v
			}
			return hit != nil
		}
		s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool { return true }
		s.run(nil, nil)
		if hit != nil {
			c.fail("single-rune", fmt.Sprintf("%s: --delim of length %d", name, n), fl.where(hit), "a delimiter that is not a single character is accepted", fl.chain(hit))
		} else if s.overflow {
			c.undecide("single-rune", name+": too many paths")
		} else {
			c.ok("single-rune", fmt.Sprintf("%s: length %d", name, n))
		}
	}
}

// outputAfterTraining: the network is printed after the data was read.
func (c *Ctx) outputAfterTraining(name string, cmd *cliCmd) {
	fl := cmd.fl
	n := 0
	fl.each(func(v *Value) {
		if v.op == OpCall && len(v.args) > 0 && isEncoder(v.name) {
			n++
		}
	})
	if n == 0 {
		c.fail("order", name+": no output", "-", "the trained network is not written", "")
		return
	}
	s := &Sim{fl: fl, errOnly: true}
	var hit *Value
	s.visit = func(s *Sim, env simEnv, v *Value) bool {
		if v.op == OpCall && v.name == "encoding/csv.NewReader" {
			return true
		}
		if v.op == OpCall && len(v.args) > 0 && isEncoder(v.name) {
			hit = v
		}
		return hit != nil
	}
	s.exit = func(s *Sim, k exitKind, env simEnv, v *Value) bool { return true }
	s.run(nil, nil)
	switch {
	case hit != nil:
		c.fail("order", name+": output before training", fl.where(hit), "the network is written on a path on which it was not trained", fl.chain(hit))
	case s.overflow:
		c.undecide("order", name+": too many paths")
	default:
		c.ok("order", name+": output after training")
	}
	// all of it
	fl.each(func(v *Value) {
		if v.op == OpSlice && (v.args[1] != nil || v.args[2] != nil) && encoded(v.args[0], map[*Value]bool{}) {
			c.fail("order", name+": part of the output", fl.where(v), "only a part of the trained network is written", fl.chain(v))
		}
	})
}

// encoded: the text of the trained network.
func encoded(v *Value, seen map[*Value]bool) bool {
	v = stripConv(v)
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v.op {
	case OpExtract:
		return v.idx == 0 && v.args[0].op == OpCall && isEncoder(v.args[0].name)
	case OpPhi:
		for _, a := range v.args {
			if encoded(a, seen) {
				return true
			}
		}
	case OpConvert:
		return encoded(v.args[0], seen)
	case OpCall:
		return v.name == "(*bytes.Buffer).Bytes" || v.name == "(*bytes.Buffer).String"
	}
	return false
}

// readerOptions: cells of a data file are what the file has between delimiters.
func (c *Ctx) readerOptions(name string, fl *Flat) {
	fl.each(func(v *Value) {
		if v.op != OpStore || v.args[0].op != OpFieldAddr {
			return
		}
		base := v.args[0].args[0].typ
		if p, ok := base.Underlying().(*types.Pointer); ok {
			base = p.Elem()
		}
		if nt, ok := base.(*types.Named); !ok || nt.Obj().Name() != "Reader" || nt.Obj().Pkg() == nil || nt.Obj().Pkg().Path() != "encoding/csv" {
			return
		}
		f := fieldName(v.args[0])
		off := false
		if b, ok := constBool(v.args[1]); ok {
			off = !b
		} else if i, ok := constInt(v.args[1]); ok {
			off = i == 0
		}
		if off {
			return
		}
		switch f {
		case "TrimLeadingSpace":
			c.fail("cells", name+": space in cells", fl.where(v), "leading space of cells is dropped: a cell is not compared and used as it is in the file", fl.chain(v))
		case "Comment":
			c.fail("cells", name+": comment rows", fl.where(v), "rows that start with some character are ignored", fl.chain(v))
		}
	})
}

// keptEvidence: where the evidence is merged with another map, the other one is used only in place of a nil map.
func (c *Ctx) keptEvidence(name string, fl *Flat, pt *PTA, objs map[*Obj]bool) {
	is := func(v *Value) bool {
		for _, l := range pt.locs(v) {
			if objs[l.obj] {
				return true
			}
		}
		return false
	}
	fl.each(func(v *Value) {
		if v.op != OpPhi || v.blk == nil || len(v.args) != len(v.blk.preds) {
			return
		}
		mt, ok := v.typ.Underlying().(*types.Map)
		if !ok || !isString(mt.Key()) || !isString(mt.Elem()) {
			return
		}
		var ev *Value
		for _, a := range v.args {
			if is(stripCT(a)) {
				ev = stripCT(a)
			}
		}
		if ev == nil {
			return
		}
		for i, a := range v.args {
			a = stripCT(a)
			if a == v || is(a) || a.op != OpMakeMap {
				continue
			}
			if erroringEdge(v, v.blk.preds[i]) {
				continue
			}
			if p, other := v.blk.preds[i], (*Value)(nil); !onlyIfNil(p, v.blk, ev, &other, map[*Block]bool{}) && other != nil {
				c.fail("evidence", name+": evidence replaced", fl.where(other), "the evidence is replaced by another map although it is given", fl.chain(other))
			}
		}
	})
}

// onlyIfNil: the edge p→b is taken only if ev is nil.
func onlyIfNil(p, b *Block, ev *Value, other **Value, seen map[*Block]bool) bool {
	n := len(p.instrs)
	if n == 0 || seen[p] {
		return true
	}
	seen[p] = true
	last := p.instrs[n-1]
	if last.op == OpIf {
		cd, neg := last.args[0], false
		for cd.op == OpUn && cd.tok == token.NOT {
			cd, neg = cd.args[0], !neg
		}
		if cd.op == OpBin && (cd.tok == token.EQL || cd.tok == token.NEQ) {
			x, y := stripCT(cd.args[0]), stripCT(cd.args[1])
			if isNilConst(x) {
				x, y = y, x
			}
			if x == ev && isNilConst(y) {
				want := (cd.tok == token.EQL) != neg
				return want == (p.succs[0] == b)
			}
			// len(ev) == 0 replaces an empty map by an empty map
			if x.op == OpBuiltin && x.name == "len" && stripCT(x.args[0]) == ev {
				if k, ok := constInt(y); ok && k == 0 {
					want := (cd.tok == token.EQL) != neg
					return want == (p.succs[0] == b)
				}
			}
		}
		*other = last
		return false
	}
	if len(p.preds) == 0 {
		*other = last
		return false
	}
	for _, x := range p.preds {
		if !onlyIfNil(x, p, ev, other, seen) {
			return false
		}
	}
	return true
}

// evidenceFlow: entries of --evidence become evidence, variable=outcome.
func (c *Ctx) evidenceFlow(name string, cmd *cliCmd, t *Taint) {
	fl, pt := cmd.fl, cmd.pt
	n := 0
	loops := fl.loops()
	fl.each(func(v *Value) {
		if v.op != OpMapUpdate || !isString(v.args[1].typ) || !isString(v.args[2].typ) {
			return
		}
		for i, what := range []string{"name", "outcome"} {
			x := stripCT(v.args[1+i])
			if x.op == OpCall && strings.HasPrefix(x.name, "strings.") && x.name != "strings.Clone" && isString(x.typ) && len(x.args) > 0 {
				if _, src := splitPart(x.args[0]); src != nil && t.has(src) {
					n++
					c.fail("evidence", name+": altered entry", fl.where(v), "the "+what+" of an entry is changed by "+x.name, fl.chain(v))
					return
				}
			}
		}
		ki, ks := splitPart(v.args[1])
		vi, vs := splitPart(v.args[2])
		if ks == nil || vs == nil {
			return
		}
		if !t.has(ks) && !t.has(vs) {
			return
		}
		n++
		key := name + ": evidence entry"
		if ki != 0 || vi != 1 {
			c.fail("evidence", key, fl.where(v), fmt.Sprintf("the variable is taken from part %d and the outcome from part %d of an entry", ki, vi), fl.chain(v))
			return
		}
		// every entry is used
		if l := innermost(loops, v.blk); l != nil {
			if b := pathAvoiding(l, map[*Block]bool{v.blk: true}); b != nil {
				c.fail("evidence", name+": skipped entry", fl.where(v), "an entry may be skipped without an error", fl.chain(v))
				return
			}
		}
		// the map is what the solver reads
		used := false
		objs := map[*Obj]bool{}
		for _, l := range pt.locs(v.args[0]) {
			objs[l.obj] = true
		}
		fl.each(func(u *Value) {
			if (u.op == OpRange || u.op == OpCall && strings.HasPrefix(u.name, "maps.")) && u.fr != nil && u.fr.fn != nil && len(u.args) > 0 && underRoot(u.fr) {
				for _, l := range pt.locs(u.args[0]) {
					if objs[l.obj] {
						used = true
					}
				}
			}
		})
		if !used {
			c.fail("evidence", name+": evidence unused", fl.where(v), "the evidence is not passed to the solver", fl.chain(v))
			return
		}
		c.ok("evidence", key+" at "+fl.where(v))
		c.keptEvidence(name, fl, pt, objs)
	})
	// all entries
	fl.each(func(v *Value) {
		if v.op == OpSlice && (v.args[1] != nil || v.args[2] != nil) && !isString(v.typ) {
			st, ok := v.typ.Underlying().(*types.Slice)
			if !ok || !isString(st.Elem()) || v.args[2] == nil && innermost(loops, v.blk) != nil {
				return
			}
			flag := false
			for _, l := range pt.locs(v.args[0]) {
				e := l
				e.path += "[]"
				if cmd.seeds["evidence"](l) || cmd.seeds["evidence"](e) {
					flag = true
				}
			}
			if flag {
				c.fail("evidence", name+": part of the entries", fl.where(v), "only a part of the entries is used", fl.chain(v))
			}
		}
	})
	if n == 0 {
		c.undecide("evidence", name+": parsing of evidence entries not recognised")
	}
}

// underRoot: the frame belongs to a function of the root package.
func underRoot(fr *Frame) bool {
	for ; fr != nil; fr = fr.parent {
		f := fr.fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if o := f.Origin(); o != nil {
			f = o
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath {
			return true
		}
	}
	return false
}

// splitPart: which part of a split text (at "=") a value is, and the text that was split.
func splitPart(v *Value) (int64, *Value) {
	v = stripCT(v)
	for v.op == OpCall && v.name == "strings.Clone" {
		v = stripCT(v.args[0])
	}
	switch v.op {
	case OpLoad:
		if v.args[0].op == OpIndexAddr {
			if k, ok := constInt(v.args[0].args[1]); ok {
				s := stripCT(v.args[0].args[0])
				if s.op == OpCall && strings.HasPrefix(s.name, "strings.Split") {
					return k, s.args[0]
				}
			}
		}
	case OpExtract:
		s := v.args[0]
		if s.op == OpCall && s.name == "strings.Cut" {
			return int64(v.idx), s.args[0]
		}
	case OpSlice:
		// entry[:i], entry[i+1:]
		if isString(v.typ) {
			if v.args[1] == nil && v.args[2] != nil {
				return 0, v.args[0]
			}
			if v.args[1] != nil && v.args[2] == nil {
				return 1, v.args[0]
			}
		}
	}
	return -1, nil
}
