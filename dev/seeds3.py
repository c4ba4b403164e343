seed("s22-probability-with-policies", "C22", "internal/tui",
 [("internal/tui/solve.go", '	_, f, err := network.SolveQuery(evidence, []string{}, ignorePolicies)', '	_, f, err := network.SolveQuery(evidence, []string{}, false)')],
'''
package tui

import (
	"math"
	"testing"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

func TestDemo(t *testing.T) {
	n, err := bbn.New("n", "", []bbn.Variable{
		{Name: "a", Outcomes: []string{"y", "n"}},
		{Name: "d", NodeType: ve.DecisionNode, Outcomes: []string{"y", "n"}},
		{Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}},
	}, []bbn.Factor{{For: "a", Table: []float64{1, 1}},
		{For: "d", Given: []string{"a"}},
		{For: "u", Given: []string{"a", "d"}, Table: []float64{10, 0, 0, 10}}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err = n.SolvePolicies(true); err != nil {
		t.Fatal(err)
	}
	nodes := []Node{}
	for _, v := range n.Variables() {
		nodes = append(nodes, NewNode(v))
	}
	r, err := Solve(n, map[string]string{"d": "y"}, nodes, true)
	if err != nil {
		t.Fatal(err)
	}
	if math.Abs(r["u"][0]-5) > 1e-9 {
		t.Fatal("utility", r["u"])
	}
}
''', "a decision with a solved policy is given as evidence and policies of such decisions are ignored", "expected utilities are divided by the probability under the policy instead of that without it")
seed("s23-scroll-axes", "C19", "internal/tui",
 [("internal/tui/input.go", '	scrollY, scrollX := a.graph.GetScrollOffset()', '	scrollX, scrollY := a.graph.GetScrollOffset()')],
'''
package tui

import (
	"testing"

	"github.com/gdamore/tcell/v2"
	"github.com/mlange-42/bbn"
	"github.com/rivo/tview"
)

func TestDemo(t *testing.T) {
	n, err := bbn.New("n", "", []bbn.Variable{
		{Name: "a", Outcomes: []string{"y", "n"}, Position: [2]int{0, 0}},
		{Name: "b", Outcomes: []string{"y", "n"}, Position: [2]int{0, 10}},
	}, []bbn.Factor{{For: "a", Table: []float64{1, 1}}, {For: "b", Table: []float64{1, 1}}})
	if err != nil {
		t.Fatal(err)
	}
	a := New("", nil, "", "", ',')
	a.network = n
	a.nodesByName = map[string]int{}
	for i, v := range n.Variables() {
		a.nodes = append(a.nodes, NewNode(v))
		a.nodesByName[v.Name] = i
	}
	if err = a.updateMarginals(); err != nil {
		t.Fatal(err)
	}
	a.createCanvas()
	a.createWidgets()
	a.graph.SetBorder(false)
	a.graph.SetRect(0, 0, 40, 8)
	a.pages = tview.NewPages()
	a.graph.ScrollTo(8, 0)
	// row 12 of the graph: first outcome of b
	a.mouseInputGraph(tview.MouseLeftClick, tcell.NewEventMouse(3, 4, tcell.ButtonPrimary, tcell.ModNone))
	if a.selectedNode != 1 || a.evidence["b"] != "y" || len(a.evidence) != 1 {
		t.Fatal("wrong node hit", a.selectedNode, a.evidence)
	}
}
''', "a left click while the graph is scrolled in one direction", "the click sets evidence for a node other than the one under the mouse, or none")
seed("s24-save-leftovers", "C20", "internal/tui",
 [("internal/tui/input.go", '	err = os.WriteFile(saveFile, yml, 0644)\n	if err != nil {\n		panic(err)\n	}\n', '	f, err := os.OpenFile(saveFile, os.O_WRONLY|os.O_CREATE, 0644)\n	if err != nil {\n		panic(err)\n	}\n	defer f.Close()\n	if _, err = f.Write(yml); err != nil {\n		panic(err)\n	}\n')],
'''
package tui

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/gdamore/tcell/v2"
	"github.com/mlange-42/bbn"
)

func TestDemo(t *testing.T) {
	file := filepath.Join(t.TempDir(), "net.yml")
	net := func(info string) *bbn.Network {
		n, err := bbn.New("n", info, []bbn.Variable{{Name: "a", Outcomes: []string{"y", "n"}}}, []bbn.Factor{{For: "a", Table: []float64{1, 1}}})
		if err != nil {
			t.Fatal(err)
		}
		return n
	}
	ctrlS := tcell.NewEventKey(tcell.KeyCtrlS, 0, tcell.ModCtrl)
	a := New(file, nil, "", "", ',')
	a.network = net(strings.Repeat("long ", 200))
	a.inputMainPanel(ctrlS)
	b := New(file, nil, "", "", ',')
	b.network = net("")
	b.inputMainPanel(ctrlS)
	got, err := os.ReadFile(strings.TrimSuffix(file, ".yml") + "-save.yml")
	if err != nil {
		t.Fatal(err)
	}
	want, err := bbn.ToYAML(b.network)
	if err != nil {
		t.Fatal(err)
	}
	if string(got) != string(want) {
		t.Fatal("saved file is not the current network")
	}
}
''', "the network is saved when a longer file of the same name exists from before", "the end of the older file stays behind the saved network")
seed("s25-evidence-while-ignoring", "C19", "internal/tui",
 [("internal/tui/input.go", '		if oldValue == value {\n			delete(a.evidence, node.Node().Name)\n', '		if oldValue == value && !a.ignorePolicies {\n			delete(a.evidence, node.Node().Name)\n')],
'''
package tui

import (
	"testing"

	"github.com/gdamore/tcell/v2"
	"github.com/mlange-42/bbn"
)

func TestDemo(t *testing.T) {
	n, err := bbn.New("n", "", []bbn.Variable{
		{Name: "a", Outcomes: []string{"y", "n"}},
		{Name: "b", Outcomes: []string{"y", "n"}, Position: [2]int{0, 10}},
	}, []bbn.Factor{{For: "a", Table: []float64{1, 1}}, {For: "b", Table: []float64{1, 1}}})
	if err != nil {
		t.Fatal(err)
	}
	a := New("", nil, "", "", ',')
	a.network = n
	a.nodesByName = map[string]int{}
	for i, v := range n.Variables() {
		a.nodes = append(a.nodes, NewNode(v))
		a.nodesByName[v.Name] = i
	}
	if err = a.updateMarginals(); err != nil {
		t.Fatal(err)
	}
	a.createCanvas()
	a.createWidgets()
	press := func(k tcell.Key, r rune) { a.inputMainPanel(tcell.NewEventKey(k, r, tcell.ModNone)) }
	press(tcell.KeyEnter, 0)
	press(tcell.KeyRune, 'p')
	press(tcell.KeyEnter, 0)
	if len(a.evidence) != 0 {
		t.Fatal("evidence not removed", a.evidence)
	}
}
''', "evidence is set, policies are then ignored, and the same outcome is toggled", "the evidence is not removed")
seed("s26-table-stride", "C23", "internal/tui",
 [("internal/tui/table.go", 'parIdx := t.nodesByName[node.Node().Factor.Given[i]]', 'parIdx := t.nodesByName[node.Node().Factor.Given[column]]')],
'''
package tui

import (
	"testing"

	"github.com/mlange-42/bbn"
)

func TestDemo(t *testing.T) {
	n, err := bbn.New("n", "", []bbn.Variable{
		{Name: "a", Outcomes: []string{"a1", "a2"}},
		{Name: "b", Outcomes: []string{"b1", "b2", "b3"}},
		{Name: "c", Outcomes: []string{"y", "n"}},
	}, []bbn.Factor{{For: "a", Table: []float64{1, 1}}, {For: "b", Table: []float64{1, 1, 1}},
		{For: "c", Given: []string{"a", "b"}, Table: []float64{1, 2, 1, 3, 1, 4, 1, 5, 1, 6, 1, 7}}})
	if err != nil {
		t.Fatal(err)
	}
	byName := map[string]int{}
	var nodes []Node
	for i, v := range n.Variables() {
		nodes = append(nodes, NewNode(v))
		byName[v.Name] = i
	}
	table := NewTable(nodes, byName["c"], byName)
	for row := 0; row < 6; row++ {
		a, b := []string{"a1", "a2"}[row/3], []string{"b1", "b2", "b3"}[row%3]
		if x, y := table.GetCell(row+1, 0).Text, table.GetCell(row+1, 1).Text; x != a || y != b {
			t.Fatal("row", row, "is of", x, y, "not", a, b)
		}
	}
}
''', "the table of a node with several parents that differ in their number of outcomes is shown", "rows are labelled with the wrong outcomes of the parents")
