seed("s09-product-scales-operand", "C01", "ve",
 [("ve/variables.go", '\tnewIndex := make([]int, len(f.variables))\n\tfor i := range f.data {\n\t\tproduct := 1.0', '\tnewIndex := make([]int, len(f.variables))\n\tif len(factors) == 2 && len(factors[1].variables) == 0 {\n\t\t// Scaling by a constant.\n\t\tf.data = factors[0].data\n\t\tfor i := range f.data {\n\t\t\tf.data[i] *= factors[1].data[0]\n\t\t}\n\t\treturn f\n\t}\n\tfor i := range f.data {\n\t\tproduct := 1.0')],
'''
package ve

import "testing"

func TestDemo(t *testing.T) {
	v := NewVariables()
	a := v.AddVariable(0, ChanceNode, 2)
	f := v.CreateFactor([]Variable{a}, []float64{2, 3})
	g := v.CreateFactor([]Variable{}, []float64{0.5})
	_ = v.Product(&f, &g)
	if f.Data()[0] != 2 || f.Data()[1] != 3 {
		t.Fatal("operand modified:", f.Data())
	}
}
''', "a product of a factor with a constant factor as second operand, the first one used again", "the product overwrites its first operand")

seed("s10-query-drops-policies", "C02", "",
 [("network.go", '\tvar err error\n\tn.ve, n.variableNames, err = n.toVE(decisionEvidence)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\tev :=', '\tif ignorePolicies && len(evidence) == 0 {\n\t\tn.policies = map[string]ve.Factor{}\n\t}\n\n\tvar err error\n\tn.ve, n.variableNames, err = n.toVE(decisionEvidence)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\tev :=')],
'''
package bbn

import (
	"testing"

	"github.com/mlange-42/bbn/ve"
)

func TestDemo(t *testing.T) {
	n, err := New("n", "", []Variable{
		{Name: "d", NodeType: ve.DecisionNode, Outcomes: []string{"y", "n"}},
		{Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}},
	}, []Factor{{For: "d"}, {For: "u", Given: []string{"d"}, Table: []float64{1, 2}}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err = n.SolvePolicies(true); err != nil {
		t.Fatal(err)
	}
	if _, _, err = n.SolveQuery(map[string]string{}, []string{"d"}, true); err != nil {
		t.Fatal(err)
	}
	r, _, err := n.SolveQuery(map[string]string{}, []string{"d"}, false)
	if err != nil {
		t.Fatal(err)
	}
	if r["d"][0] != 0 || r["d"][1] != 1 {
		t.Fatal("policies lost by a query:", r["d"])
	}
}
''', "policies solved, then a query ignoring policies without evidence, then any other query", "a query deletes the stored policies of the network")

seed("s11-type-names-remembered", "C04", "",
 [("yml.go", '\t\ttp, ok := nodeTypes[v.Type]\n\t\tif !ok {\n', '\t\ttp, ok := nodeTypes[v.Type]\n\t\tif !ok {\n\t\t\ttp = nodeTypes[strings.ToLower(v.Type)]\n\t\t\tnodeTypes[v.Type] = tp\n\t\t}\n\t\tif !ok {\n')],
'''
package bbn

import "testing"

func TestDemo(t *testing.T) {
	text := []byte("name: n\\nvariables:\\n- variable: a\\n  type: nonsense\\n  outcomes: [y, n]\\n  table:\\n  - [1, 1]\\n")
	for i := 0; i < 3; i++ {
		if _, err := FromYAML(text); err == nil {
			t.Fatal("accepted an unknown type after", i, "other calls")
		}
	}
}
''', "reading two files with the same unknown node type in one process", "the table of type names of the process is changed by reading a file")

seed("s12-count-bits", "C10", "logic",
 [("logic/count.go", 'count := given - bits.OnesCount(i)\n\t\tif f.Rule', 'count := given - bits.OnesCount8(uint8(i))\n\t\tif f.Rule')],
'''
package logic

import "testing"

func TestDemo(t *testing.T) {
	tab, err := CountIs(0).Table(9)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 512; i++ {
		want := 0.0
		if i == 511 {
			want = 1
		}
		if tab[2*i] != want {
			t.Fatal("row", i, tab[2*i])
		}
	}
}
''', "a counting operator with nine or more parents", "the count of true parents ignores the first ones")

seed("s13-nodata-first-parent", "C15", "ve",
 [("ve/factor.go", '\t\tif indices[i] == -1 {\n\t\t\treturn 0, false\n\t\t}\n\t\tindex', '\t\tif indices[i] == -1 && i > 0 {\n\t\t\treturn 0, false\n\t\t}\n\t\tindex')],
'''
package ve

import "testing"

func TestDemo(t *testing.T) {
	v := NewVariables()
	a := v.AddVariable(0, ChanceNode, 2)
	b := v.AddVariable(1, ChanceNode, 3)
	f := v.CreateFactor([]Variable{a, b}, []float64{1, 2, 3, 4, 5, 6})
	if _, ok := f.IndexWithNoData([]int{-1, 1}); ok {
		t.Fatal("missing value not reported")
	}
}
''', "a missing value at the first position of the index", "the lookup addresses another cell instead of reporting the missing value")

seed("s14-empty-evidence-entry", "C12", "internal/tui",
 [("internal/tui/util.go", 'parts := strings.Split(entry, "=")', 'if len(entry) < 3 {\n\t\t\tcontinue\n\t\t}\n\t\tparts := strings.Split(entry, "=")')],
'''
package tui

import "testing"

func TestDemo(t *testing.T) {
	ev, err := ParseEvidence([]string{"Rain=yes", "b="})
	if err != nil {
		t.Fatal(err)
	}
	if v, ok := ev["b"]; !ok || v != "" {
		t.Fatal("entry dropped:", ev)
	}
}
''', "an evidence entry with a name or outcome that is empty", "short evidence entries of the command line are dropped")

seed("s15-policy-ties", "C17", "ve",
 [("ve/variables.go", '\t\t\t} else if u == maxUtility {\n\t\t\t\tmaxIndices = append(maxIndices, c)', '\t\t\t} else if u == maxUtility && len(maxIndices) < 3 {\n\t\t\t\tmaxIndices = append(maxIndices, c)')],
'''
package ve

import "testing"

func TestDemo(t *testing.T) {
	v := NewVariables()
	d := v.AddVariable(0, DecisionNode, 4)
	f := v.CreateFactor([]Variable{d}, []float64{7, 7, 7, 7})
	p := v.Policy(&f, d)
	if p.Data()[0] != 0.25 || p.Data()[3] != 0.25 {
		t.Fatal("policy of a tie:", p.Data())
	}
}
''', "a decision with four or more equally good outcomes", "the policy does not give its share to the fourth of the best outcomes")

seed("s16-evidence-limit", "C16", "ve",
 [("ve/ve.go", '\tfor _, ev := range evidence {\n\t\tve.restrictEvidence(ev)\n\t}', '\tfor i, ev := range evidence {\n\t\tif i > 7 {\n\t\t\tbreak\n\t\t}\n\t\tve.restrictEvidence(ev)\n\t}')],
'''
package ve

import "testing"

func TestDemo(t *testing.T) {
	v := NewVariables()
	facs := []Factor{}
	ev := []Evidence{}
	for i := 0; i < 10; i++ {
		a := v.AddVariable(i, ChanceNode, 2)
		facs = append(facs, v.CreateFactor([]Variable{a}, []float64{0.5, 0.5}))
		ev = append(ev, Evidence{Variable: a, Value: 0})
	}
	s := New(v, facs, nil, nil)
	f := s.SolveQuery(ev, nil)
	if p := f.Data()[0]; len(f.Data()) != 1 || p > 1.0/1000 {
		t.Fatal("probability of ten observations:", p)
	}
}
''', "more than eight pieces of evidence in one query", "the evidence beyond the eighth entry is not applied")

seed("s18-mixed-utility-parents", "C21", "",
 [("network.go", '\t\tif hasUtilParents && hasOtherParents {\n', '\t\tif hasUtilParents && hasOtherParents && len(v.Factor.Given) > 2 {\n')],
'''
package bbn

import (
	"testing"

	"github.com/mlange-42/bbn/ve"
)

func TestDemo(t *testing.T) {
	_, err := New("n", "", []Variable{
		{Name: "a", Outcomes: []string{"y", "n"}},
		{Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}},
		{Name: "t", NodeType: ve.UtilityNode, Outcomes: []string{"p", "q"}},
	}, []Factor{{For: "a", Table: []float64{1, 1}},
		{For: "u", Given: []string{"a"}, Table: []float64{1, 2}},
		{For: "t", Given: []string{"u", "a"}, Table: []float64{1, 2}}})
	if err == nil {
		t.Fatal("utility node with mixed parents accepted")
	}
}
''', "a total utility with one utility parent and one other parent", "an invalid network is accepted")

seed("s19-weights-by-position", "C18", "",
 [("network.go", '\t\tweights[i] = table[idx]', '\t\tweights[i] = table[min(i, idx)]')],
'''
package bbn

import (
	"testing"

	"github.com/mlange-42/bbn/ve"
)

func TestDemo(t *testing.T) {
	n, err := New("n", "", []Variable{
		{Name: "a", Outcomes: []string{"y", "n"}},
		{Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}},
		{Name: "v", NodeType: ve.UtilityNode, Outcomes: []string{"v"}},
		{Name: "t", NodeType: ve.UtilityNode, Outcomes: []string{"p", "q"}},
	}, []Factor{{For: "a", Table: []float64{1, 1}},
		{For: "u", Given: []string{"a"}, Table: []float64{10, 10}},
		{For: "v", Given: []string{"a"}, Table: []float64{1, 1}},
		{For: "t", Given: []string{"v", "u"}, Table: []float64{1, 2}}})
	if err != nil {
		t.Fatal(err)
	}
	f, err := n.SolveUtility(map[string]string{}, []string{}, "", false)
	if err != nil {
		t.Fatal(err)
	}
	if f.Data()[0] != 21 {
		t.Fatal("total utility", f.Data()[0])
	}
}
''', "a total utility that lists its utilities in another order than the network", "utilities are multiplied by the weight of another one")

seed("s20-evidence-next-to-error", "C14", "internal/tui",
 [("internal/tui/util.go", '\t\t\treturn nil, fmt.Errorf("syntax', '\t\t\treturn ev, fmt.Errorf("syntax')],
'''
package tui

import "testing"

func TestDemo(t *testing.T) {
	ev, err := ParseEvidence([]string{"a=b", "c"})
	if err == nil {
		t.Fatal("no error")
	}
	if ev != nil {
		t.Fatal("half a result next to the error:", ev)
	}
}
''', "a malformed evidence entry after a valid one", "the evidence read so far is returned next to the error")
