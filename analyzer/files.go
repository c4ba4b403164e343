package main

import (
	"fmt"
	"go/constant"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "every use of a function that changes files, processes or the environment is enumerated in the type-checked program; the only one allowed is reached only through the key that saves; there, the name of the file is compared as a term, and by propagating constant names, with the name it should have, and the content with the YAML form of the current network; the same for what the training command prints", checkC20)
}

// changesWorld: functions that change files, processes or the environment. 1: writes the file named by the first argument; 2: others.
func changesWorld(name string) int {
	switch name {
	case "os.WriteFile", "os.Create", "os.OpenFile", "io/ioutil.WriteFile":
		return 1
	case "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "os.Mkdir", "os.MkdirAll", "os.MkdirTemp", "os.CreateTemp",
		"os.Chmod", "os.Chown", "os.Lchown", "os.Chtimes", "os.Link", "os.Symlink", "os.Chdir", "os.Setenv", "os.Unsetenv", "os.Clearenv",
		"os.CopyFS", "os.StartProcess", "os.OpenRoot", "io/ioutil.TempFile", "io/ioutil.TempDir",
		"os/exec.Command", "os/exec.CommandContext", "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Start", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput",
		"(*os.File).Truncate", "(*os.File).Chmod", "(*os.File).Chown", "(*os.File).Chdir",
		"net.Dial", "net.Listen", "net/http.Get", "net/http.Post", "net/http.ListenAndServe":
		return 2
	}
	if strings.HasPrefix(name, "syscall.") || strings.HasPrefix(name, "(*os.Root).") {
		return 2
	}
	return 0
}

func ssaName(f *ssa.Function) string {
	if f.Signature.Recv() != nil {
		return fmt.Sprintf("(%s).%s", f.Signature.Recv().Type(), f.Name())
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path() + "." + f.Name()
	}
	return f.Name()
}

func checkC20(c *Ctx) {
	save := c.w.fn("internal/tui", "App", "inputMainPanel")
	if save == nil {
		c.undecide("effects", "handler inputMainPanel not found")
		return
	}
	fl := c.flatStop(save, isAppOp)
	in := map[*ssa.Function]bool{}
	for _, fr := range fl.frames {
		in[fr.fn] = true
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	n := 0
	for _, f := range c.w.funcs {
		if f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "/benchmark") {
			continue
		}
		n++
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					callers[g] = append(callers[g], f)
				}
			}
		}
	}
	c.ok("effects", fmt.Sprintf("%d functions", n))
	sites := map[*ssa.Function]bool{}
	for g, fs := range callers {
		k := changesWorld(ssaName(g))
		if k == 0 {
			continue
		}
		for _, f := range fs {
			if !in[f] {
				c.fail("effects", shortFn(f)+": "+ssaName(g), c.w.pos(f.Pos()), shortFn(f)+" uses "+ssaName(g)+", which is only for saving the network", "")
				continue
			}
			c.ok("effects", shortFn(f)+" uses "+ssaName(g))
			sites[f] = true
		}
	}
	// only through the handler
	for f := range sites {
		seen := map[*ssa.Function]bool{f: true}
		todo := []*ssa.Function{f}
		for len(todo) > 0 {
			g := todo[0]
			todo = todo[1:]
			if g == save {
				continue
			}
			if len(callers[g]) == 0 && !in[g] {
				c.fail("effects", "path to "+shortFn(f), c.w.pos(g.Pos()), shortFn(f)+" changes files and is called from "+shortFn(g), "")
				continue
			}
			for _, h := range callers[g] {
				if seen[h] {
					continue
				}
				seen[h] = true
				if !in[h] {
					c.fail("effects", "path to "+shortFn(f), c.w.pos(h.Pos()), shortFn(g)+" changes files and is used by "+shortFn(h), "")
					continue
				}
				todo = append(todo, h)
			}
		}
		c.ok("effects", "only the handler of keys reaches "+shortFn(f))
	}
	c.saves()
	c.prints()
	c.floor("effects", 3)
	c.floor("saved", 1)
	c.floor("printed", 1)
}

func (c *Ctx) saver() *appx {
	a := newAppx(c, "inputMainPanel")
	if a == nil {
		return nil
	}
	old := a.events
	a.events = func(x *explorer, st *xstate, v *Value, args []xv) (string, bool) {
		switch changesWorld(v.name) {
		case 1:
			return "write", true
		case 2:
			return "other", true
		}
		if strings.HasPrefix(v.name, "(*os.File).Write") || strings.HasPrefix(v.name, "(io.Writer).Write") || v.name == "fmt.Fprint" || v.name == "fmt.Fprintln" || v.name == "fmt.Fprintf" || v.name == "io.WriteString" || strings.HasPrefix(v.name, "(*bufio.Writer).Write") {
			return "data", true
		}
		return old(x, st, v, args)
	}
	return a
}

func (c *Ctx) saves() {
	a := c.saver()
	if a == nil {
		return
	}
	// other keys
	for scen, k := range map[string][2]int64{"Esc": {27, 0}, "Tab": {9, 9}, "BackTab": {278, 0}, "Space": {256, ' '}, "digit": {256, '1'}, "Enter": {13, 13}, "H": {256, 'h'}, "I": {256, 'i'}, "T": {256, 't'}, "P": {256, 'p'}, "W": {256, 'w'}, "A": {256, 'a'}, "S": {256, 's'}, "D": {256, 'd'}, "arrow": {257, 0}, "another key": {256, 'x'}} {
		a.key, a.ch = k[0], k[1]
		a.run()
		good := a.why == ""
		for _, o := range a.outs {
			for _, e := range o.st.evs {
				if e.kind == "write" || e.kind == "other" {
					good = false
					if o.st.opaque {
						c.undecide("saved", scen+": a condition is not understood")
					} else {
						c.fail("saved", "key "+scen, a.fl.where(e.at), "the key "+scen+" writes a file", a.fl.chain(e.at))
					}
				}
			}
		}
		if good {
			c.ok("saved", "key "+scen+" writes no file")
		}
	}
	a.key, a.ch = 19, 19
	a.run()
	if a.why != "" {
		c.undecide("saved", "Ctrl+S: "+a.why)
		return
	}
	proved := a.saved("", "")
	if proved {
		return
	}
	// names that are written differently: constants
	for _, f := range []string{"net.yml", "net", "a.b/net", "dir/net.v2.yml", "dir/yml.yml", "./x/lm.yml", "net.bifxml", "a.yml/b.yml", "..", "/r/m-save.yml"} {
		a.inits[a.recv+".file"] = xconst(constant.MakeString(f))
		a.run()
		delete(a.inits, a.recv+".file")
		if a.why == "" {
			a.saved(f, strings.TrimSuffix(f, path.Ext(f))+"-save.yml")
		}
	}
}

// saved: all paths of the key that saves; with file, only the name. true: the name is right for all files.
func (a *appx) saved(file, name string) bool {
	c := a.c
	net := "ToYAML(" + a.recv + ".network)"
	short := strings.NewReplacer("@github.com/mlange-42/bbn.", "", "github.com/mlange-42/bbn.", "", "path/filepath.", "", "path.", "", "strings.", "").Replace
	f := a.recv + ".file"
	right := map[string]bool{}
	for _, stem := range []string{"TrimSuffix(" + f + ",Ext(" + f + "))", "slice(" + f + ",,len(" + f + ")-len(Ext(" + f + ")),)", "slice(" + f + ",0,len(" + f + ")-len(Ext(" + f + ")),)", "slice(" + f + ",,-len(Ext(" + f + "))+len(" + f + "),)", "slice(" + f + ",0,-len(Ext(" + f + "))+len(" + f + "),)"} {
		right["("+stem+"+\"-save.yml\")"] = true
		right["(("+stem+"+\"-save\")+\".yml\")"] = true
	}
	all, n := true, 0
	for _, o := range a.outs {
		if o.bad != nil || errorPath(o.st) {
			continue
		}
		n++
		fail := func(what, msg string, e *xev) {
			all = false
			if o.st.opaque {
				c.undecide("saved", "Ctrl+S: a condition is not understood")
				return
			}
			where, chain := c.w.pos(a.fl.entryFn.Pos()), ""
			if e != nil {
				where, chain = a.fl.where(e.at), a.fl.chain(e.at)
			}
			c.fail("saved", "Ctrl+S:"+what, where, msg, chain)
		}
		unk := func(msg string) {
			all = false
			if file == "" {
				c.undecide("saved", "Ctrl+S: "+msg)
			}
		}
		writes, data := 0, ""
		for i := range o.st.evs {
			e := &o.st.evs[i]
			switch e.kind {
			case "write":
				writes++
				if writes > 1 || e.rep {
					unk("several files are written")
					continue
				}
				got := e.args[0]
				if file != "" {
					if got.cv == nil || got.cv.Kind() != constant.String {
						c.undecide("saved", "Ctrl+S: name of the file not understood: "+short(got.s))
					} else if s := constant.StringVal(got.cv); s != name {
						fail("name", fmt.Sprintf("the network of %q is saved as %q, should be %q", file, s, name), e)
					}
					continue
				}
				if !right[short(got.s)] {
					all = false // constants decide
				}
				switch e.at.name {
				case "os.OpenFile":
					if k, ok := constInt64(e.args[1]); ok {
						if k&0x400 != 0 || k&0x200 == 0 {
							fail("flags", "the file is not emptied before it is written", e)
						}
					} else {
						unk("flags not understood")
					}
				case "os.WriteFile", "io/ioutil.WriteFile":
					data = e.args[1].s
				}
			case "data":
				if file != "" || len(e.args) < 2 || !strings.HasPrefix(e.args[0].s, "os.Create(") && !strings.HasPrefix(e.args[0].s, "os.OpenFile(") {
					continue
				}
				if data != "" {
					unk("the content is written in parts")
				}
				data = e.args[1].s
			case "other":
				unk(e.at.name + " is called")
			}
		}
		if file != "" {
			continue
		}
		if writes == 0 {
			fail("none", "Ctrl+S does not save the network", nil)
			continue
		}
		d := short(data)
		for strings.HasPrefix(d, "conv(") && strings.HasSuffix(d, ")") {
			d = d[5 : len(d)-1]
		}
		e := &o.st.evs[0]
		for i := range o.st.evs {
			if o.st.evs[i].kind == "write" {
				e = &o.st.evs[i]
			}
		}
		if d != net+"#0" {
			if strings.HasPrefix(d, "ToYAML(") && !strings.Contains(d, "?") || d == "nil" || strings.HasPrefix(d, "slice("+net+"#0") {
				fail("content", "the file contains "+d+", should be "+net, e)
			} else {
				unk("content of the file not understood: " + d)
			}
			continue
		}
		// only if the conversion has succeeded
		checked := false
		for k, v := range o.st.conds {
			if v && strings.HasPrefix(k, "eq(") && strings.Contains(k, "ToYAML(") && strings.Contains(k, "#1") {
				checked = true
			}
		}
		if !checked {
			fail("failed", "the file is written even if the network cannot be converted", e)
			continue
		}
		if all {
			c.ok("saved", "Ctrl+S: "+short(e.args[0].s)+" := "+d)
		} else {
			c.ok("saved", "Ctrl+S: content "+d)
		}
	}
	if n == 0 && file == "" {
		c.undecide("saved", "Ctrl+S: no path")
	}
	return all
}

// prints: the command that trains prints the trained network, and nothing else.
func (c *Ctx) prints() {
	cmd := c.commands()["train"]
	if cmd == nil || cmd.fl == nil {
		c.undecide("printed", "the command train is not found")
		return
	}
	fl := c.flatStop(cmd.fl.entryFn, isShownOp)
	x := newExplorer(c, fl)
	x.recv = "\x00"
	x.inLoop = []string{""}
	x.known = func(x *explorer, st *xstate, v *Value, args []xv) (xv, bool) {
		if strings.HasSuffix(v.name, ".FromFile") {
			s := fmt.Sprintf("FromFile@%d(%s)", v.id, joinX(args))
			return tuple(s, xatom(s+"#0"), xatom(s+"#1"))
		}
		return xv{}, false
	}
	x.events = func(x *explorer, st *xstate, v *Value, args []xv) (string, bool) {
		n := v.name
		if strings.HasSuffix(n, ".TrainNetwork") {
			return "train", true
		}
		switch {
		case n == "fmt.Print", n == "fmt.Println", n == "fmt.Printf", n == "fmt.Fprint", n == "fmt.Fprintln", n == "fmt.Fprintf", n == "io.WriteString", strings.HasPrefix(n, "(*os.File).Write"), strings.HasPrefix(n, "(io.Writer).Write"), strings.HasPrefix(n, "(*github.com/spf13/cobra.Command).Print"):
			// the values of a variable number of arguments
			last := len(args) - 1
			if last < 0 {
				return "print", true
			}
			if s := args[last].s; strings.HasPrefix(s, "slice(&") {
				arr := s[6:strings.Index(s, ",")]
				var vals []string
				for i := 0; ; i++ {
					m, ok := st.mem[fmt.Sprintf("%s[%d]", arr, i)]
					if !ok {
						break
					}
					vals = append(vals, m.s)
				}
				args[last] = xatom(strings.Join(vals, "\x00"))
			}
			return "print", true
		}
		return "", false
	}
	x.run()
	if x.why != "" {
		c.undecide("printed", "train: "+x.why)
		return
	}
	short := strings.NewReplacer("@github.com/mlange-42/bbn.", "", "github.com/mlange-42/bbn.", "", "@internal/tui.", "", "github.com/mlange-42/bbn/internal/tui.", "").Replace
	paths := 0
	for _, o := range x.outs {
		if o.bad != nil {
			continue
		}
		st := o.st
		failed := errorPath(st) || len(o.rets) == 1 && o.rets[0].s != "nil"
		if !failed {
			paths++
		}
		trained := map[string]bool{}
		n := 0
		for _, e := range st.evs {
			fail := func(what, msg string) {
				if st.opaque {
					c.undecide("printed", "train: a condition is not understood")
					return
				}
				c.fail("printed", "train:"+what, fl.where(e.at), msg, fl.chain(e.at))
			}
			if e.kind == "train" {
				trained[short(e.args[0].s)] = true
				continue
			}
			if e.kind != "print" || len(e.args) == 0 {
				continue
			}
			d := short(e.args[len(e.args)-1].s)
			for strings.HasPrefix(d, "conv(") && strings.HasSuffix(d, ")") {
				d = d[5 : len(d)-1]
			}
			if !strings.HasPrefix(d, "ToYAML(") || !strings.HasSuffix(d, ")#0") {
				if !strings.Contains(d, "ToYAML(") && strings.HasPrefix(d, "\"") && strings.Trim(d, "\"\\nt ") == "" {
					continue // blank
				}
				if toStderr(e.at.name, e.args) {
					continue
				}
				if strings.HasPrefix(d, "\"") && !strings.Contains(d, "ToYAML(") {
					fail("more", "apart from the network, "+d+" is printed")
				} else {
					c.undecide("printed", "train: what is printed is not understood: "+d)
				}
				continue
			}
			n++
			if toStderr(e.at.name, e.args) {
				fail("stream", "the trained network is printed to the standard error output")
				continue
			}
			net := d[len("ToYAML(") : len(d)-len(")#0")]
			if !strings.HasPrefix(net, "TrainNetwork(") && !trained[net] {
				if strings.Contains(net, "?") {
					c.undecide("printed", "train: network not understood: "+net)
				} else {
					fail("network", "the network printed is "+net+", which is not trained")
				}
				continue
			}
			if n > 1 {
				fail("twice", "the network is printed more than once")
				continue
			}
			bad := false
			for k, v := range st.conds {
				if !v && strings.HasPrefix(k, "eq(") && strings.Contains(k, "ToYAML(") && strings.Contains(k, "#1") {
					bad = true
				}
			}
			if bad {
				fail("failed", "something is printed although the network cannot be converted")
				continue
			}
			c.ok("printed", "train prints "+d)
		}
		if !failed && n == 0 {
			if st.opaque || len(st.evs) > 0 && hasOther(st.evs) {
				c.undecide("printed", "train: what is printed is not understood")
			} else {
				c.fail("printed", "train:none", c.w.pos(fl.entryFn.Pos()), "the trained network is not printed", "")
			}
		}
	}
	if paths == 0 {
		c.undecide("printed", "train: no path")
	}
}

func hasOther(evs []xev) bool {
	for _, e := range evs {
		if e.kind == "print" {
			return true
		}
	}
	return false
}

// toStderr: printed to the standard error output.
func toStderr(name string, args []xv) bool {
	if strings.HasPrefix(name, "(*github.com/spf13/cobra.Command).Print") {
		return true
	}
	return len(args) > 0 && (strings.Contains(args[0].s, "os.Stderr") || strings.Contains(args[0].s, ".OutOrStderr(") || strings.Contains(args[0].s, ".ErrOrStderr("))
}
