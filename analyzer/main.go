package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	root := os.Getenv("BBN_ROOT")
	if root == "" {
		root = "/repo"
	}
	out := os.Getenv("BBN_OUT")
	if out == "" {
		exe, _ := os.Getwd()
		out = filepath.Join(exe, "evidence")
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		code := 0
		for _, id := range os.Args[2:] {
			if r := runCheck(id, root, out); r > code {
				code = r
			}
		}
		os.Exit(code)
	}
	if len(os.Args) == 2 && os.Args[1] == "all" {
		code := 0
		for _, d := range checks {
			if r := runCheck(d.id, root, out); r > code {
				code = r
			}
		}
		os.Exit(code)
	}
	if len(os.Args) == 2 && os.Args[1] == "list" {
		for _, d := range checks {
			fmt.Println(d.id)
		}
		return
	}
	t := time.Now()
	w, err := loadWorld(root)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	if len(os.Args) == 2 && os.Args[1] == "canon" {
		printCanon(w.pkgs)
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "prims" {
		p := strings.Split(os.Args[2], ":")
		fl, _ := flattenStop(w, w.fn(p[0], p[1], p[2]), isPrimitive)
		fmt.Println(fl.dump())
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "ops" {
		p := strings.Split(os.Args[2], ":")
		fl, _ := flattenStop(w, w.fn(p[0], p[1], p[2]), isOperation)
		fmt.Println(fl.dump())
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "net" {
		p := strings.Split(os.Args[2], ":")
		fl, _ := flattenStop(w, w.fn(p[0], p[1], p[2]), isSolver)
		fmt.Println(fl.dump())
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "conds" {
		debugConds(w, os.Args[2], len(os.Args) > 3)
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		p := strings.Split(os.Args[2], ":")
		fn := w.fn(p[0], p[1], p[2])
		fl, _ := flatten(w, fn)
		if len(os.Args) > 3 && os.Args[3] == "app" {
			fl, _ = flattenStop(w, fn, isAppOp)
			fmt.Println(fl.dump())
			return
		}
		if len(os.Args) == 3 {
			fmt.Println(fl.dump())
		}
		fmt.Println(time.Since(t), fl.problems, len(fl.blocks), fl.nvals, fl.opaque)
		pt := pointsTo(fl)
		seen := map[string]bool{}
		for _, e := range pt.effects() {
			s := fmt.Sprintln(e.loc, e.what, fl.where(e.at))
			if !seen[s] {
				fmt.Print(s)
			}
			seen[s] = true
		}
		for _, b := range fl.blocks {
			for _, v := range b.instrs {
				if v.op == OpReturn {
					for i, a := range v.args {
						for _, l := range pt.valueLocs(a) {
							fmt.Println("ret", i, l)
						}
					}
				}
			}
		}
		fmt.Println(time.Since(t))
	}
}

func isOperation(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil || fn.Pkg == nil || fn.Pkg.Pkg.Name() != "ve" {
		return false
	}
	switch fn.Name() {
	case "Restrict", "SumOut", "Product", "Sum", "Policy", "Rearrange", "Marginal", "Normalize", "NormalizeFor", "Invert", "CreateFactor":
		return true
	}
	return false
}

// isNetworkOp: the solving operations of a network.
func isNetworkOp(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil || fn.Pkg == nil || fn.Pkg.Pkg.Name() != "bbn" {
		return false
	}
	switch fn.Name() {
	case "SolveQuery", "SolveUtility", "SolvePolicies", "ToEvidence":
		return true
	}
	return false
}

// isShownOp: what the commands and the app use to obtain and draw results.
func isShownOp(fn *ssa.Function) bool {
	if isNetworkOp(fn) {
		return true
	}
	if fn.Pkg == nil {
		return false
	}
	switch fn.Pkg.Pkg.Name() {
	case "tui":
		switch fn.Name() {
		case "Solve", "NewNode", "ParseEvidence", "TrainNetwork", "Render":
			return true
		}
	case "bbn":
		return fn.Name() == "FromFile" || fn.Name() == "ToYAML"
	}
	return false
}

// isSolver: everything of the solver that the network uses.
func isSolver(fn *ssa.Function) bool {
	if isOperation(fn) {
		return true
	}
	if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "ve" {
		return false
	}
	switch fn.Name() {
	case "New", "NewVariables", "AddVariable", "SolveQuery", "SolveUtility", "SolvePolicies":
		return true
	}
	return false
}
