seed("s02-shared-evidence-vector", "C03", "",
 [("network.go", "	probs := make([]float64, len(outcomes))\n	probs[idx] = 1.0\n	return probs, nil", "	probs, ok := oneHot[[2]int{len(outcomes), idx}]\n	if !ok {\n		probs = make([]float64, len(outcomes))\n		probs[idx] = 1.0\n	}\n	return probs, nil"),
  ("network.go", "// toVE creates a Variable Elimination solver", "// oneHot holds the vectors of the most frequent case of two outcomes.\nvar oneHot = map[[2]int][]float64{\n	{2, 0}: {1, 0},\n	{2, 1}: {0, 1},\n}\n\n// toVE creates a Variable Elimination solver")],
 '''
package bbn

import "testing"

func TestDemo(t *testing.T) {
	net := func() *Network {
		n, err := New("n", "", []Variable{{Name: "a", Outcomes: []string{"y", "n"}}}, []Factor{{For: "a", Table: []float64{1, 1}}})
		if err != nil {
			t.Fatal(err)
		}
		return n
	}
	p, _ := net().ToEvidence("a", "y")
	p[0], p[1] = 0.3, 0.7
	q, _ := net().ToEvidence("a", "y")
	if q[0] != 1 || q[1] != 0 {
		t.Fatal("second result changed by the first caller:", q)
	}
}
''', "a caller that modifies the returned vector of a variable with two outcomes, then another conversion", "results of ToEvidence share process-wide memory")

seed("s03-policy-left-behind", "C05", "",
 [("network.go", "	clear(n.policies)\n\n	decisions := n.countDecisionSteps(stepwise)", "	if !stepwise {\n		clear(n.policies)\n	}\n\n	decisions := n.countDecisionSteps(stepwise)")],
 '''
package bbn

import (
	"testing"

	"github.com/mlange-42/bbn/ve"
)

func TestDemo(t *testing.T) {
	n, err := New("n", "", []Variable{
		{Name: "d", NodeType: ve.DecisionNode, Outcomes: []string{"y", "n"}},
		{Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}},
	}, []Factor{{For: "d"}, {For: "u", Given: []string{"d"}, Table: []float64{1, 2}}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err = n.SolvePolicies(true); err != nil {
		t.Fatal(err)
	}
	n.Variables()[1].Factor.Table[0] = 5
	p, err := n.SolvePolicies(true)
	if err != nil {
		t.Fatal(err)
	}
	if p["d"].Table[0] != 1 {
		t.Fatal("policy of the first solve was kept:", p["d"].Table)
	}
}
''', "stepwise policy solving twice on one network whose tables changed in between", "policies of an earlier solve are read as input of the next one")

seed("s04-evidence-error-lost", "C08", "",
 [("network.go", "		idx := slices.Index(vv.Variable.Outcomes, value)\n		if idx < 0 {\n			return nil, fmt.Errorf(\"outcome %s for evidence variable %s not found\", value, name)\n		}\n		ev =", "		idx := slices.Index(vv.Variable.Outcomes, value)\n		if idx < 0 {\n			if !ignorePolicies || vv.Variable.NodeType == ve.ChanceNode {\n				return nil, fmt.Errorf(\"outcome %s for evidence variable %s not found\", value, name)\n			}\n			continue\n		}\n		ev =")],
 '''
package bbn

import (
	"testing"

	"github.com/mlange-42/bbn/ve"
)

func TestDemo(t *testing.T) {
	n, err := New("n", "", []Variable{
		{Name: "d", NodeType: ve.DecisionNode, Outcomes: []string{"y", "n"}},
		{Name: "a", Outcomes: []string{"y", "n"}},
	}, []Factor{{For: "d"}, {For: "a", Given: []string{"d"}, Table: []float64{1, 2, 3, 4}}})
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err := n.SolveQuery(map[string]string{"d": "typo"}, []string{"a"}, true); err == nil {
		t.Fatal("unknown outcome accepted")
	}
}
''', "evidence on a decision node with an unknown outcome while policies are ignored", "an unknown evidence outcome is silently ignored")

seed("s05-yaml-decision-parents", "C11", "",
 [("yml.go", "			Given:    v.Factor.Given,\n			Type:     nodeTypeNames[v.NodeType],", "			Given:    writtenParents(&v),\n			Type:     nodeTypeNames[v.NodeType],"),
  ("yml.go", "func ToYAML(", "// writtenParents returns the parents that define the rows of the written table.\nfunc writtenParents(v *Variable) []string {\n	if len(v.Factor.Table) == 0 {\n		return nil\n	}\n	return v.Factor.Given\n}\n\nfunc ToYAML(")],
 '''
package bbn

import (
	"testing"

	"github.com/mlange-42/bbn/ve"
)

func TestDemo(t *testing.T) {
	n, err := New("n", "", []Variable{
		{Name: "a", Outcomes: []string{"y", "n"}},
		{Name: "d", NodeType: ve.DecisionNode, Outcomes: []string{"y", "n"}},
		{Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}},
	}, []Factor{{For: "a", Table: []float64{1, 2}}, {For: "d", Given: []string{"a"}}, {For: "u", Given: []string{"a", "d"}, Table: []float64{1, 2, 3, 4}}})
	if err != nil {
		t.Fatal(err)
	}
	b, err := ToYAML(n)
	if err != nil {
		t.Fatal(err)
	}
	n2, err := FromYAML(b)
	if err != nil {
		t.Fatal(err)
	}
	if len(n2.Variables()[1].Factor.Given) != 1 {
		t.Fatal("parents of the decision lost")
	}
}
''', "a decision node with parents (which has no table), written and read back", "information links of decisions are lost in the file")

seed("s06-train-stop-at-missing", "C13", "",
 [("training.go", "		idx, ok := node.Factor.rowIndex(t.sample)\n		if !ok {\n			continue\n		}", "		idx, ok := node.Factor.rowIndex(t.sample)\n		if !ok {\n			break\n		}")],
 '''
package bbn

import "testing"

func TestDemo(t *testing.T) {
	o := []string{"y", "n"}
	n, err := New("n", "", []Variable{{Name: "a", Outcomes: o}, {Name: "b", Outcomes: o}, {Name: "c", Outcomes: o}},
		[]Factor{{For: "a", Table: []float64{1, 1}}, {For: "b", Given: []string{"a"}, Table: []float64{1, 1, 1, 1}}, {For: "c", Table: []float64{1, 1}}})
	if err != nil {
		t.Fatal(err)
	}
	tr := NewTrainer(n)
	tr.AddSample([]int{0, 0, 0}, nil)
	tr.AddSample([]int{1, 1, 0}, nil)
	tr.AddSample([]int{-1, 0, 1}, nil)
	tr.AddSample([]int{-1, 0, 1}, nil)
	n, err = tr.UpdateNetwork()
	if err != nil {
		t.Fatal(err)
	}
	if n.Variables()[2].Factor.Table[0] != 0.5 {
		t.Fatal("nodes after a missing parent were not counted:", n.Variables()[2].Factor.Table)
	}
}
''', "a sample with a missing parent value and a further node later in the list", "the remaining nodes of such samples are not counted")

seed("s07-eliminate-map-order", "C06", "",
 [("ve/ve.go", "	for _, v := range hiddenList {\n		ve.removeHidden(v.Variable)\n	}", "	if len(hiddenList) > 4 {\n		for _, v := range hidden {\n			ve.removeHidden(v)\n		}\n		return\n	}\n	for _, v := range hiddenList {\n		ve.removeHidden(v.Variable)\n	}")],
 '''
package bbn

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	o := []string{"y", "n"}
	build := func() *Network {
		vars := []Variable{{Name: "q", Outcomes: o}}
		fac := []Factor{{For: "q", Table: []float64{0.3, 0.7}}}
		prev := "q"
		for i := 0; i < 7; i++ {
			x := fmt.Sprint("h", i)
			vars = append(vars, Variable{Name: x, Outcomes: o})
			f := 0.1 + 0.0917*float64(i)
			fac = append(fac, Factor{For: x, Given: []string{prev}, Table: []float64{f, 1 - f, 0.37 * f, 1 - 0.37*f}})
			prev = x
		}
		n, err := New("n", "", vars, fac)
		if err != nil {
			t.Fatal(err)
		}
		return n
	}
	seen := map[string]bool{}
	for i := 0; i < 60; i++ {
		_, f, err := build().SolveQuery(map[string]string{"q": "y"}, []string{}, false)
		if err != nil {
			t.Fatal(err)
		}
		seen[fmt.Sprintf("%x", f.Data())] = true
	}
	r := map[string]bool{}
	for i := 0; i < 60; i++ {
		_, f, err := build().SolveQuery(map[string]string{"h6": "n"}, []string{"q"}, false)
		if err != nil {
			t.Fatal(err)
		}
		r[fmt.Sprintf("%x", f.Data())] = true
	}
	if len(seen) > 1 || len(r) > 1 {
		t.Fatal("results differ between identical runs:", len(seen), len(r))
	}
}
''', "a network with more than four hidden variables, solved repeatedly", "the elimination order follows map iteration, so results differ in the last bits between runs")

seed("s08-read-error-swallowed", "C07", "",
 [("yml.go", "		v, err := strconv.Atoi(parts[i])\n		if err != nil {\n			return nil, err\n		}\n		args[i-1] = v", "		v, err := strconv.Atoi(parts[i])\n		if err != nil && parts[i] != \"\" {\n			return nil, err\n		}\n		args[i-1] = v")],
 '''
package bbn

import "testing"

func TestDemo(t *testing.T) {
	_, err := FromYAML([]byte("name: n\\nvariables:\\n- variable: a\\n  outcomes: [x, y]\\n  table:\\n  - [1, 1]\\n- variable: b\\n  given: [a]\\n  outcomes: [y, n]\\n  logic: \\"outcome-is  2\\"\\n"))
	if err == nil {
		t.Fatal("malformed operator argument accepted")
	}
}
''', "a logic operator with a doubled space between its arguments", "a failed number conversion is ignored and the argument becomes 0")
