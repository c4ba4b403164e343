# Further refactorings that keep the behaviour, across the repository.
def o3(id,*e): case("o3ok-"+id,"OK",*e)
V3="ve/variables.go"; W3="ve/ve.go"; F3="ve/factor.go"; N3="network.go"; T3="training.go"; I3="internal/tui/input.go"; S3="internal/tui/solve.go"; R3="internal/tui/render.go"; D3="internal/tui/node.go"; B3="internal/tui/bounds.go"; Y3="yml.go"; X3="xml.go"; C3="cmd/bbn/inference.go"; TT3="internal/tui/training.go"
o3("keyswitch",(I3,'''	if event.Key() == tcell.KeyEsc {
		// Exit program.
		a.app.Stop()
		return nil
	} else if event.Key() == tcell.KeyTAB {
		// Tab through nodes.
		a.selectNextNode()
		return nil
	} else if event.Key() == tcell.KeyBacktab {
		// Tab through nodes, backwards.
		a.selectPreviousNode()
		return nil
	} else if event.Rune() == ' ' {''','''	key, r := event.Key(), event.Rune()
	switch key {
	case tcell.KeyEsc:
		a.app.Stop()
		return nil
	case tcell.KeyTAB:
		a.selectNextNode()
		return nil
	case tcell.KeyBacktab:
		a.selectPreviousNode()
		return nil
	}
	if r == ' ' {'''))
o3("keymap",(I3,'''	} else if event.Rune() == 'h' {
		a.showHelp()
		return nil
	} else if event.Rune() == 'i' {
		a.showInfo()
		return nil
	} else if event.Rune() == 't' {
		a.showTable()
		return nil
	} else if event.Rune() == 'p' {
		a.toggleIgnorePolicy()
		return nil
	} else if event.Key()''','''	} else if a.inputDialogs(event.Rune()) {
		return nil
	} else if event.Key()'''),(I3,"func (a *App) toggleIgnorePolicy",'''func (a *App) inputDialogs(r rune) bool {
	switch r {
	case 'h':
		a.showHelp()
	case 'i':
		a.showInfo()
	case 't':
		a.showTable()
	case 'p':
		a.toggleIgnorePolicy()
	default:
		return false
	}
	return true
}

func (a *App) toggleIgnorePolicy'''))
o3("keymap2",(I3,'''	} else if event.Rune() == 'h' {
		a.showHelp()
		return nil
	} else if event.Rune() == 'i' {
		a.showInfo()
		return nil
	} else if event.Rune() == 't' {
		a.showTable()
		return nil
	} else if event.Rune() == 'p' {
		a.toggleIgnorePolicy()
		return nil
	} else if event.Key()''','''	} else if f, ok := map[rune]func(){'h': a.showHelp, 'i': a.showInfo, 't': a.showTable, 'p': a.toggleIgnorePolicy}[event.Rune()]; ok {
		f()
		return nil
	} else if event.Key()'''))
o3("prevnode",(I3,'''	a.selectedNode--
	if a.selectedNode < 0 {
		a.selectedNode = len(a.nodes) - 1
	}
	a.selectedState = 0
	a.render(true)
''','''	a.selectNode((a.selectedNode + len(a.nodes) - 1) % len(a.nodes))
'''),(I3,'''	a.selectedNode = (a.selectedNode + 1) % len(a.nodes)
	a.selectedState = 0
	a.render(true)
}
''','''	a.selectNode((a.selectedNode + 1) % len(a.nodes))
}

func (a *App) selectNode(index int) {
	a.selectedNode, a.selectedState = index, 0
	a.render(true)
}
'''))
o3("movetable",(I3,'''	dx, dy := 0, 0
	createCanvas := false
	if event.Rune() == 'w' {
		if node.Bounds().Y > 0 {
			dy--
		}
	} else if event.Rune() == 'a' {
		if node.Bounds().X > 0 {
			dx--
		}
	} else if event.Rune() == 's' {
		dy++
		if node.Bounds().Y+node.Bounds().H >= len(a.canvas) {
			createCanvas = true
		}
	} else if event.Rune() == 'd' {
		dx++
		if node.Bounds().X+node.Bounds().W >= len(a.canvas[0]) {
			createCanvas = true
		}
	}
	if dx != 0 || dy != 0 {
		b := node.Bounds()
		b.X += dx
		b.Y += dy
''','''	b := node.Bounds()
	dx, dy := moveDelta(event.Rune())
	if b.X+dx < 0 || b.Y+dy < 0 {
		return event
	}
	createCanvas := dy > 0 && b.Y+b.H >= len(a.canvas) || dx > 0 && b.X+b.W >= len(a.canvas[0])
	if dx != 0 || dy != 0 {
		b.X += dx
		b.Y += dy
'''),(I3,"// inputEnter adds",'''func moveDelta(r rune) (dx, dy int) {
	switch r {
	case 'w':
		return 0, -1
	case 'a':
		return -1, 0
	case 's':
		return 0, 1
	case 'd':
		return 1, 0
	}
	return 0, 0
}

// inputEnter adds'''))
o3("pos",(I3,'''		p := a.network.Variables()[a.selectedNode].Position
		a.network.Variables()[a.selectedNode].Position = [2]int{p[0] + dx, p[1] + dy}
''','''		v := &a.network.Variables()[a.selectedNode]
		v.Position[0] += dx
		v.Position[1] += dy
'''))
o3("enter",(I3,'''	if oldValue, ok := a.evidence[node.Node().Name]; ok {
		if oldValue == value {
			delete(a.evidence, node.Node().Name)
		} else {
			a.evidence[node.Node().Name] = value
		}
	} else {
		a.evidence[node.Node().Name] = value
	}
''','''	name := node.Node().Name
	if oldValue, ok := a.evidence[name]; !ok || oldValue != value {
		a.evidence[name] = value
	} else {
		delete(a.evidence, name)
	}
'''))
o3("click",(I3,'''		for i, node := range a.nodes {
			if node.Bounds().Contains(x, y) {
				a.selectedNode = i
				a.selectedState = 0
				if outcome, ok := node.SelectedOutcome(x, y); ok {
					a.selectedState = outcome
					if err := a.inputEnter(); err != nil {
						panic(err)
					}
				}
				a.render(true)
				break
			}
		}
		return tview.MouseConsumed, nil
	} else if''','''		if i := slices.IndexFunc(a.nodes, func(n Node) bool { return n.Bounds().Contains(x, y) }); i >= 0 {
			a.selectedNode = i
			a.selectedState = 0
			if outcome, ok := a.nodes[i].SelectedOutcome(x, y); ok {
				a.selectedState = outcome
				if err := a.inputEnter(); err != nil {
					panic(err)
				}
			}
			a.render(true)
		}
		return tview.MouseConsumed, nil
	} else if'''),(I3,'	"path"\n','	"path"\n	"slices"\n'))
o3("hide",(I3,'''		if front == "Table" {
			a.pages.HidePage("Table")
			return tview.MouseConsumed, nil
		} else if front == "Help" {
			a.pages.HidePage("Help")
			return tview.MouseConsumed, nil
		} else if front == "Info" {
			a.pages.HidePage("Info")
			return tview.MouseConsumed, nil
		}
''','''		switch front {
		case "Table", "Help", "Info":
			a.pages.HidePage(front)
			return tview.MouseConsumed, nil
		}
'''))
o3("dialogkeys",(I3,'''	if event.Key() == tcell.KeyEsc || event.Key() == tcell.KeyEnter {
		a.pages.HidePage("Table")
		return nil
	}
	return event
''','''	return a.closeOnKey("Table", event)
'''),(I3,'''	if event.Key() == tcell.KeyEsc || event.Key() == tcell.KeyEnter {
		a.pages.HidePage("Help")
		return nil
	}
	return event
''','''	return a.closeOnKey("Help", event)
'''),(I3,'''	if event.Key() == tcell.KeyEsc || event.Key() == tcell.KeyEnter {
		a.pages.HidePage("Info")
		return nil
	}
	return event
''','''	return a.closeOnKey("Info", event)
'''),(I3,"func (a *App) mousePosInGraph",'''func (a *App) closeOnKey(page string, event *tcell.EventKey) *tcell.EventKey {
	switch event.Key() {
	case tcell.KeyEsc, tcell.KeyEnter:
		a.pages.HidePage(page)
		return nil
	}
	return event
}

func (a *App) mousePosInGraph'''))
o3("digit",(I3,'a.selectNodeOutcome(string(event.Rune()))','a.selectNodeOutcome(int(event.Rune() - \'0\'))'),(I3,'''func (a *App) selectNodeOutcome(index string) {
	idx, err := strconv.Atoi(index)
	if err != nil {
		panic(err)
	}
	idx -= 1
	if idx''','''func (a *App) selectNodeOutcome(number int) {
	idx := number - 1
	if idx'''),(I3,'	"strconv"\n',''))
o3("upmarg",(I3,'''	var err error
	a.marginals, err = Solve(a.network, a.evidence, a.nodes, a.ignorePolicies)
	if err != nil {
		return err
	}
	return nil
''','''	marginals, err := Solve(a.network, a.evidence, a.nodes, a.ignorePolicies)
	a.marginals = marginals
	return err
'''))
o3("rnodes",(R3,'''		data := a.marginals[node.Node().Name]
		_, hasEvidence := a.evidence[node.Node().Name]
		runes, colors := node.Render(data, i == a.selectedNode, a.selectedState, hasEvidence)
		b := node.Bounds()
		for i, line := range runes {
			copy(a.canvas[b.Y+i][b.X:], line)
			copy(a.colors[b.Y+i][b.X:], colors[i])
		}
''','''		a.renderNode(node, i == a.selectedNode)
'''),(R3,"func (a *App) renderEdges",'''func (a *App) renderNode(node Node, selected bool) {
	name := node.Node().Name
	_, hasEvidence := a.evidence[name]
	runes, colors := node.Render(a.marginals[name], selected, a.selectedState, hasEvidence)
	b := node.Bounds()
	for row := 0; row < len(runes); row++ {
		copy(a.canvas[b.Y+row][b.X:], runes[row])
		copy(a.colors[b.Y+row][b.X:], colors[row])
	}
}

func (a *App) renderEdges'''))
o3("so",(D3,'''	if !n.bounds.Contains(x, y) {
		return -1, false
	}
	for i := range n.node.Outcomes {
		if y == n.bounds.Y+i+2 {
			return i, true
		}
	}
	return -1, false
''','''	row := y - n.bounds.Y - 2
	if n.bounds.Contains(x, y) && row >= 0 && row < len(n.node.Outcomes) {
		return row, true
	}
	return -1, false
'''))
o3("bars",(D3,'''		var text []rune
		if math.IsNaN(p) {
			text = []rune("    ???")
		} else {
			text = []rune(fmt.Sprintf("%7.3f", p*100))
		}

		copy(n.runes[i+2][n.barsX+maxBars+1:], text)

		if selected && state == i {
			n.runes[i+2][1] = SelectionStart
			n.runes[i+2][n.bounds.W-2] = SelectionEnd
		} else if evidence {
			n.runes[i+2][1] = EvidenceStart
			n.runes[i+2][n.bounds.W-2] = EvidenceEnd
		} else {
			n.runes[i+2][1] = Empty
			n.runes[i+2][n.bounds.W-2] = Empty
		}
''','''		row := n.runes[i+2]
		text := "    ???"
		if !math.IsNaN(p) {
			text = fmt.Sprintf("%7.3f", 100*p)
		}
		copy(row[n.barsX+maxBars+1:], []rune(text))

		start, end := Empty, Empty
		switch {
		case selected && i == state:
			start, end = SelectionStart, SelectionEnd
		case evidence:
			start, end = EvidenceStart, EvidenceEnd
		}
		row[1], row[n.bounds.W-2] = start, end
'''))
o3("contains",(B3,"	return x >= b.X && x < b.X+b.W && y >= b.Y && y < b.Y+b.H\n",'''	if x < b.X || y < b.Y {
		return false
	}
	dx, dy := x-b.X, y-b.Y
	return dx < b.W && dy < b.H
'''))
o3("extend",(B3,'''	if other.X < b.X {
		b.W += b.X - other.X
		b.X = other.X
	}
	if other.Y < b.Y {
		b.H += b.Y - other.Y
		b.Y = other.Y
	}
	if other.X+other.W > b.X+b.W {
		b.W = other.X + other.W - b.X
	}
	if other.Y+other.H > b.Y+b.H {
		b.H = other.Y + other.H - b.Y
	}
''','''	right := max(b.X+b.W, other.X+other.W)
	bottom := max(b.Y+b.H, other.Y+other.H)
	b.X = min(b.X, other.X)
	b.Y = min(b.Y, other.Y)
	b.W = right - b.X
	b.H = bottom - b.Y
'''))
o3("tuisolve",(S3,'''	totalUtility := math.NaN()
	if len(f.Data()) == 1 {
		totalUtility = f.Data()[0]
	}

	totalUtility /= totalProb
''','''	totalUtility := scalar(f) / totalProb
'''),(S3,'''		nodeUtility := math.NaN()
		if len(f.Data()) == 1 {
			nodeUtility = f.Data()[0]
		}

		nodeUtility /= totalProb

		result[n] = []float64{nodeUtility, totalUtility}
''','''		result[n] = []float64{scalar(f) / totalProb, totalUtility}
'''),(S3,'''	totalProb := math.NaN()
	if len(f.Data()) == 1 {
		totalProb = f.Data()[0]
	}
''','''	totalProb := scalar(f)
'''),(S3,"func solveEvidence",'''func scalar(f *ve.Factor) float64 {
	data := f.Data()
	if len(data) != 1 {
		return math.NaN()
	}
	return data[0]
}

func solveEvidence'''))
o3("tuiq",(S3,'''		if n.Node().NodeType == ve.UtilityNode {
			continue
		}
		if _, ok := evidence[n.Node().Name]; ok {
			continue
		}
		queries = append(queries, n.Node().Name)

''','''		node := n.Node()
		_, hasEvidence := evidence[node.Name]
		if node.NodeType != ve.UtilityNode && !hasEvidence {
			queries = append(queries, node.Name)
		}
'''))
o3("print",(C3,'''				for _, p := range probs {
					if node.NodeType == ve.UtilityNode {
						fmt.Printf(" %10.3f", p)
					} else {
						fmt.Printf(" %9.3f%%", p*100)
					}
				}
''','''				isUtility := node.NodeType == ve.UtilityNode
				for i := range probs {
					format, value := " %9.3f%%", probs[i]*100
					if isUtility {
						format, value = " %10.3f", probs[i]
					}
					fmt.Printf(format, value)
				}
'''))
o3("print2",(C3,'''			for _, node := range nodes {
				fmt.Print("                              ")
''','''			for i := range nodes {
				node := &nodes[i]
				fmt.Printf("%30s", "")
'''))
o3("addsample",(T3,'''		if node.NodeType == ve.UtilityNode {
			u := utility[i]
			if math.IsNaN(u) {
				continue
			}
			t.data[i][idx][0] += u
		} else {
			s := sample[i]
			if s < 0 {
				continue
			}
			t.data[i][idx][s]++
		}

		t.counter[i][idx]++
''','''		row := t.data[i][idx]
		switch {
		case node.NodeType != ve.UtilityNode && sample[i] >= 0:
			row[sample[i]]++
		case node.NodeType == ve.UtilityNode && !math.IsNaN(utility[i]):
			row[0] += utility[i]
		default:
			continue
		}
		t.counter[i][idx]++
'''))
o3("update",(T3,'''		data := t.data[i]

		cols := node.Factor.columns
		rows := len(node.Factor.Table) / cols
		for j := 0; j < rows; j++ {
			cnt := t.counter[i][j]
			for k := 0; k < cols; k++ {
				node.Factor.Table[j*cols+k] = float64(data[j][k]) / float64(cnt)
			}
		}
''','''		cols := node.Factor.columns
		table := node.Factor.Table
		for j, row := range t.data[i] {
			cnt := float64(t.counter[i][j])
			for k, value := range row {
				table[j*cols+k] = value / cnt
			}
		}
'''))
o3("csvloop",(TT3,'''		for i, idx := range indices {
			if isUtility[i] {
				var err error
				if record[idx] == noData {
					utility[i] = math.NaN()
					continue
				}
				utility[i], err = strconv.ParseFloat(record[idx], 64)
				if err != nil {
					return nil, fmt.Errorf("unable to parse utility value '%s' to integer in node '%s'", record[idx], nodes[i].Name)
				}

			} else {
				var ok bool
				sample[i], ok = outcomes[i][record[idx]]
				if !ok {
					return nil, fmt.Errorf("outcome '%s' not available in node '%s'", record[idx], nodes[i].Name)
				}
			}
		}
''','''		for i, idx := range indices {
			field := record[idx]
			if !isUtility[i] {
				s, ok := outcomes[i][field]
				if !ok {
					return nil, fmt.Errorf("outcome '%s' not available in node '%s'", field, nodes[i].Name)
				}
				sample[i] = s
				continue
			}
			u := math.NaN()
			if field != noData {
				if u, err = strconv.ParseFloat(field, 64); err != nil {
					return nil, fmt.Errorf("unable to parse utility value '%s' to integer in node '%s'", field, nodes[i].Name)
				}
			}
			utility[i] = u
		}
'''))
o3("sortedkeys",(N3,'''	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	slices.Sort(keys)
	return keys
''','''	return slices.Sorted(maps.Keys(m))
'''),(N3,'	"fmt"\n','	"fmt"\n	"maps"\n'))
o3("factorids",(W3,'''	ids := make([]int, 0, len(ve.factors))
	for id := range ve.factors {
		ids = append(ids, id)
	}
	slices.Sort(ids)
	return ids
''','''	return slices.Sorted(maps.Keys(ve.factors))
'''),(W3,'	"fmt"\n','	"fmt"\n	"maps"\n'))
o3("hidsort",(W3,'''	slices.SortFunc(hiddenList, func(a, b variableDegree) int { return cmp.Compare(a.Variable.id, b.Variable.id) })
	slices.SortStableFunc(hiddenList, func(a, b variableDegree) int { return cmp.Compare(a.Degree, b.Degree) })
''','''	slices.SortFunc(hiddenList, func(a, b variableDegree) int {
		return cmp.Or(cmp.Compare(a.Degree, b.Degree), cmp.Compare(a.Variable.id, b.Variable.id))
	})
'''))
o3("findfac",(W3,'''		if len(deps) == 0 && len(f.variables) == 1 {
			result = append(result, f)
			continue
		}
		hasParent := true
		//hasNonParent := false
		for _, v := range f.variables {
			if slices.Contains(deps, v) {
				hasParent = true
			} /*else if v != dec {
				hasNonParent = true
			}*/
		}
		if !hasParent /*|| hasNonParent*/ {
			continue
		}
		result = append(result, f)
''','''		result = append(result, f)
'''),(W3,"	deps := ve.dependencies[decision]\n",""))
o3("getdec",(W3,'''	dec := []Variable{}
	for _, v := range ve.variables.variables {
		if v.NodeType() == DecisionNode {
			dec = append(dec, v)
		}
	}
	return sortTopological(dec, ve.dependencies)
''','''	return sortTopological(ve.variablesOfType(DecisionNode), ve.dependencies)
'''),(W3,"// Eliminate all evidence from",'''func (ve *VE) variablesOfType(tp NodeType) []Variable {
	vars := []Variable{}
	for i := range ve.variables.variables {
		if v := ve.variables.variables[i]; v.NodeType() == tp {
			vars = append(vars, v)
		}
	}
	return vars
}

// Eliminate all evidence from'''),(W3,'''	utils := []Variable{}
	for _, u := range ve.variables.variables {
		if u.NodeType() != UtilityNode {
			continue
		}
		utils = append(utils, u)
	}
''','''	utils := ve.variablesOfType(UtilityNode)
'''))
o3("invert",(V3,"func (v *Variables) Normalize(f *Factor) Factor {\n	fNew := v.CreateFactor(f.variables, append([]float64{}, f.data...))\n","func (v *Variables) Normalize(f *Factor) Factor {\n	fNew := v.CreateFactor(f.variables, slices.Clone(f.data))\n"))
o3("marg",(V3,'''	idx := -1
	for i := range f.variables {
		if f.variables[i].id == variable.id {
			idx = i
			break
		}
	}

	if idx < 0 {
		panic(fmt.Sprintf("variable %d not in this factor", variable.id))
	}

	newVars := []Variable{variable}
	fNew := v.CreateFactor(newVars, nil)
''','''	idx := f.mustFind(variable)
	fNew := v.CreateFactor([]Variable{variable}, nil)
'''),(F3,"// Helper type for a list",'''// mustFind returns the position of a variable, and panics if there is none.
func (f *Factor) mustFind(variable Variable) int {
	idx := slices.IndexFunc(f.variables, func(v Variable) bool { return v.id == variable.id })
	if idx < 0 {
		panic(fmt.Sprintf("variable %d not in this factor", variable.id))
	}
	return idx
}

// Helper type for a list'''),(F3,'import "fmt"','import (\n	"fmt"\n	"slices"\n)'))
o3("policymax",(V3,'''		maxUtility := math.Inf(-1)
		for c, u := range rowData {
			if u > maxUtility {
				maxUtility = u
				maxIndices = maxIndices[:1]
				maxIndices[0] = c
			} else if u == maxUtility {
				maxIndices = append(maxIndices, c)
			}
		}
''','''		maxUtility := math.Inf(-1)
		for c, u := range rowData {
			if u < maxUtility {
				continue
			}
			if u > maxUtility {
				maxUtility = u
				maxIndices = maxIndices[:0]
			}
			if u == maxUtility {
				maxIndices = append(maxIndices, c)
			}
		}
'''))
o3("indexrange",(F3,'''	index := 0
	multiplier := 1
	for i := len(indices) - 1; i >= 0; i-- {
		index += indices[i] * multiplier
		multiplier *= int(v[i].outcomes)
	}

	return index
}
''','''	index := 0
	for i, idx := range indices {
		index = index*int(v[i].outcomes) + idx
	}
	return index
}
'''))
o3("toyaml",(Y3,'''		cols := len(v.Outcomes)
		table := make([][]float64, len(v.Factor.Table)/cols)

		for i := range table {
			table[i] = v.Factor.Table[i*cols : (i+1)*cols]
		}

		variables[i] = variableYaml{''','''		variables[i] = variableYaml{'''),(Y3,"			Table:    table,\n		}\n	}\n\n	net := networkYaml{","			Table:    tableRows(v.Factor.Table, len(v.Outcomes)),\n		}\n	}\n\n	net := networkYaml{"),(Y3,"func ToYAML(",'''func tableRows(table []float64, cols int) [][]float64 {
	rows := make([][]float64, 0, len(table)/cols)
	for start := 0; start < len(table); start += cols {
		rows = append(rows, table[start:start+cols])
	}
	return rows
}

func ToYAML('''))
o3("chunk",(Y3,'''		table := make([][]float64, len(v.Factor.Table)/cols)

		for i := range table {
			table[i] = v.Factor.Table[i*cols : (i+1)*cols]
		}
''','''		table := slices.Collect(slices.Chunk(v.Factor.Table, cols))
'''),(Y3,'	"fmt"\n','	"fmt"\n	"slices"\n'))
o3("concat",(Y3,'''			table = make([]float64, 0, len(v.Table)*len(v.Table[0]))
			for _, row := range v.Table {
				table = append(table, row...)
			}
''','''			table = slices.Concat(v.Table...)
'''),(Y3,'	"fmt"\n','	"fmt"\n	"slices"\n'))
o3("logicargs",(Y3,'''	args := make([]int, len(parts)-1)
	for i := 1; i < len(parts); i++ {
		v, err := strconv.Atoi(parts[i])
		if err != nil {
			return nil, err
		}
		args[i-1] = v
	}
''','''	args := make([]int, 0, len(parts)-1)
	for _, part := range parts[1:] {
		arg, err := strconv.Atoi(part)
		if err != nil {
			return nil, err
		}
		args = append(args, arg)
	}
'''))
o3("xmldefs",(X3,'''	for i := range bifNet.Network.Definitions {
		def := &bifNet.Network.Definitions[i]
		defs[def.For] = def
	}
''','''	for _, def := range bifNet.Network.Definitions {
		defs[def.For] = &def
	}
'''))
o3("xmltable",(X3,'''		var table []float64
		if len(tableValues) > 0 {
			table = make([]float64, len(tableValues))
			for i := range table {
				v, err := strconv.ParseFloat(tableValues[i], 64)
				if err != nil {
					return nil, fmt.Errorf("error parsing table value in node '%s' to float", variable.Name)
				}
				table[i] = v
			}
		}
''','''		var table []float64
		for _, value := range tableValues {
			v, err := strconv.ParseFloat(value, 64)
			if err != nil {
				return nil, fmt.Errorf("error parsing table value in node '%s' to float", variable.Name)
			}
			table = append(table, v)
		}
'''))
o3("xmlpos",(X3,'''		var err error
		position[0], err = strconv.Atoi(strings.TrimSpace(parts[0]))
		if err != nil {
			return position, fmt.Errorf("error parsing '%s' to integer in property 'position' of node '%s'", parts[0], variable.Name)
		}
		position[1], err = strconv.Atoi(strings.TrimSpace(parts[1]))
		if err != nil {
			return position, fmt.Errorf("error parsing '%s' to integer in property 'position' of node '%s'", parts[1], variable.Name)
		}
		position[0] /= 2
''','''		for i, part := range parts {
			p, err := strconv.Atoi(strings.TrimSpace(part))
			if err != nil {
				return position, fmt.Errorf("error parsing '%s' to integer in property 'position' of node '%s'", part, variable.Name)
			}
			position[i] = p
		}
		position[0] /= 2
'''))
o3("fromfile",(N3,'''	switch strings.ToLower(ext) {
	case ".yml":
		n, err := FromYAML(data)
		if err != nil {
			return nil, err
		}
		return n, nil
	case ".xml", ".bifxml":
		n, err := FromBIFXML(data)
		if err != nil {
			return nil, err
		}
		return n, nil
	default:
		return nil, fmt.Errorf("unsupported file format '%s'", ext)
	}
''','''	readers := map[string]func([]byte) (*Network, error){
		".yml":    FromYAML,
		".xml":    FromBIFXML,
		".bifxml": FromBIFXML,
	}
	read, ok := readers[strings.ToLower(ext)]
	if !ok {
		return nil, fmt.Errorf("unsupported file format '%s'", ext)
	}
	return read(data)
'''))
o3("prepvars",(N3,'''	factorNames := map[string]bool{}
	for i := range n.factors {
		if factorNames[n.factors[i].For] {
			return fmt.Errorf("multiple factors for variable %s", n.factors[i].For)
		}
		factorNames[n.factors[i].For] = true
	}
''','''	factorNames := make(map[string]struct{}, len(n.factors))
	for _, f := range n.factors {
		if _, ok := factorNames[f.For]; ok {
			return fmt.Errorf("multiple factors for variable %s", f.For)
		}
		factorNames[f.For] = struct{}{}
	}
'''))
o3("checktables",(N3,'''		expected := v.Factor.columns
		if i != n.totalUtilityIndex {
			for _, o := range v.Factor.outcomes {
				expected *= o
			}
		}
		if len(v.Factor.Table) != expected {''','''		isTotal := i == n.totalUtilityIndex
		expected := v.Factor.columns
		for j := 0; !isTotal && j < len(v.Factor.outcomes); j++ {
			expected *= v.Factor.outcomes[j]
		}
		if len(v.Factor.Table) != expected {'''))
o3("utilnodes",(N3,'''		if hasUtilParents && hasOtherParents {
			return fmt.Errorf("utility node %s has utility parents and other parents; can only have either or", v.Name)
		}
		if !hasUtilParents && !hasOtherParents {
			return fmt.Errorf("utility node %s has no parents", v.Name)
		}
		if !hasUtilParents {
			continue
		}
''','''		switch {
		case hasUtilParents && hasOtherParents:
			return fmt.Errorf("utility node %s has utility parents and other parents; can only have either or", v.Name)
		case !hasUtilParents && !hasOtherParents:
			return fmt.Errorf("utility node %s has no parents", v.Name)
		case hasOtherParents:
			continue
		}
'''))
o3("tove2",(N3,'''		// treat decision variables with policy as normal change variables
		if v.NodeType == ve.DecisionNode {
			if _, ok := n.policies[v.Name]; ok {
				varIDs[i] = variable{
					Variable:   v,
					VeVariable: vars.AddVariable(i, ve.ChanceNode, uint16(len(v.Outcomes))),
				}
				varNames[v.Name] = &varIDs[i]
				continue
			}
		}

		// for all other variables
		varIDs[i] = variable{
			Variable:   v,
			VeVariable: vars.AddVariable(i, v.NodeType, uint16(len(v.Outcomes))),
		}
''','''		nodeType := v.NodeType
		if _, solved := n.policies[v.Name]; solved && nodeType == ve.DecisionNode {
			nodeType = ve.ChanceNode
		}
		varIDs[i].Variable = v
		varIDs[i].VeVariable = vars.AddVariable(i, nodeType, uint16(len(v.Outcomes)))
'''))
o3("solvequery",(N3,'''		m := n.Marginal(f, q)
		n := n.Normalize(&m)
		result[q] = n.Data()
''','''		marginal := n.Marginal(f, q)
		normalized := n.Normalize(&marginal)
		result[q] = normalized.Data()
'''))
o3("rearr",(N3,'''	for i := 0; i < len(variables)-1; i++ {
		idx, ok := n.variableIndex(f, variables[i])
		if !ok {
			panic(fmt.Sprintf("variable %s to rearrange not in factor", variables[i]))
		}
		vars = append(vars, fVariables[idx])
		done[idx] = true
	}

	idx, ok := n.variableIndex(f, variables[len(variables)-1])
	if !ok {
		panic(fmt.Sprintf("variable %s to rearrange not in factor", variables[len(variables)-1]))
	}
	last := fVariables[idx]
''','''	find := func(name string) int {
		idx, ok := n.variableIndex(f, name)
		if !ok {
			panic(fmt.Sprintf("variable %s to rearrange not in factor", name))
		}
		return idx
	}
	for _, name := range variables[:len(variables)-1] {
		idx := find(name)
		vars = append(vars, fVariables[idx])
		done[idx] = true
	}
	last := fVariables[find(variables[len(variables)-1])]
'''))
o3("evsolve",(N3,'''	ev := []ve.Evidence{}
	for _, name := range sortedKeys(evidence) {
		value := evidence[name]
		vv, ok := n.variableNames[name]
		if !ok {
			return nil, fmt.Errorf("evidence variable %s not found", name)
		}
		if vv.Variable.NodeType == ve.UtilityNode {
			return nil, fmt.Errorf("evidence variable %s is a utility node", name)
		}
		idx := slices.Index(vv.Variable.Outcomes, value)
		if idx < 0 {
			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
		}
		ev = append(ev, ve.Evidence{Variable: vv.VeVariable, Value: idx})
	}

	q := make([]ve.Variable, len(query))
	for i, name := range query {
		vv, ok := n.variableNames[name]
		if !ok {
			return nil, fmt.Errorf("query variable %s not found", name)
		}
		q[i] = vv.VeVariable
	}
''','''	ev, err := n.toVEEvidence(evidence)
	if err != nil {
		return nil, err
	}
	q, err := n.toVEQuery(query)
	if err != nil {
		return nil, err
	}
'''),(N3,"// ToEvidence converts",'''func (n *Network) toVEQuery(query []string) ([]ve.Variable, error) {
	q := make([]ve.Variable, 0, len(query))
	for _, name := range query {
		vv, ok := n.variableNames[name]
		if !ok {
			return nil, fmt.Errorf("query variable %s not found", name)
		}
		q = append(q, vv.VeVariable)
	}
	return q, nil
}

func (n *Network) toVEEvidence(evidence map[string]string) ([]ve.Evidence, error) {
	names := sortedKeys(evidence)
	ev := make([]ve.Evidence, len(names))
	for i, name := range names {
		vv, ok := n.variableNames[name]
		switch {
		case !ok:
			return nil, fmt.Errorf("evidence variable %s not found", name)
		case vv.Variable.NodeType == ve.UtilityNode:
			return nil, fmt.Errorf("evidence variable %s is a utility node", name)
		}
		idx := slices.Index(vv.Variable.Outcomes, evidence[name])
		if idx == -1 {
			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", evidence[name], name)
		}
		ev[i].Variable = vv.VeVariable
		ev[i].Value = idx
	}
	return ev, nil
}

// ToEvidence converts'''))
