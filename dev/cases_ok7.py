# Larger behaviour-preserving restructurings.
S7,T7,R7,U7,P7="internal/tui/solve.go","internal/tui/table.go","internal/tui/training.go","internal/tui/util.go","internal/tui/render.go"
def ok7(id,*e): case("ok7-"+id,"OK",*e)
ok7("solve-single",(S7,'''	totalProb := math.NaN()
	if len(f.Data()) == 1 {
		totalProb = f.Data()[0]
	}

	for''','''	totalProb := scalar(f)

	for'''),(S7,'''	totalUtility := math.NaN()
	if len(f.Data()) == 1 {
		totalUtility = f.Data()[0]
	}
''','''	totalUtility := scalar(f)
'''),(S7,'''		nodeUtility := math.NaN()
		if len(f.Data()) == 1 {
			nodeUtility = f.Data()[0]
		}

		nodeUtility /= totalProb

		result[n] = []float64{nodeUtility, totalUtility}
''','''		result[n] = []float64{scalar(f) / totalProb, totalUtility}
'''),(S7,'''func solveEvidence(''','''// scalar returns the only value of a factor, or NaN.
func scalar(f *ve.Factor) float64 {
	data := f.Data()
	if len(data) != 1 {
		return math.NaN()
	}
	return data[0]
}

func solveEvidence('''))
ok7("solve-queries",(S7,'''	queries := []string{}

	for _, n := range nodes {
		if n.Node().NodeType == ve.UtilityNode {
			continue
		}
		if _, ok := evidence[n.Node().Name]; ok {
			continue
		}
		queries = append(queries, n.Node().Name)

	}

	result''','''	queries := collectQueries(nodes, evidence)
	result'''),(S7,'''func solveEvidence(''','''func collectQueries(nodes []Node, evidence map[string]string) []string {
	queries := make([]string, 0, len(nodes))
	for _, n := range nodes {
		variable := n.Node()
		_, isEvidence := evidence[variable.Name]
		if !isEvidence && variable.NodeType != ve.UtilityNode {
			queries = append(queries, variable.Name)
		}
	}
	return queries
}

func solveEvidence('''))
ok7("solve-total",(S7,'''	if totalUtilityNode != nil {
		util := make([]float64, len(totalUtilityNode.Factor.Given)+1)
		for i, g := range totalUtilityNode.Factor.Given {
			f := result[g]
			util[i] = f[0] * totalUtilityNode.Factor.Table[i]
		}
		util[len(util)-1] = totalUtility
		result[totalUtilityNode.Name] = util
	}

	return nil
''','''	if totalUtilityNode == nil {
		return nil
	}
	factor := totalUtilityNode.Factor
	util := make([]float64, 0, len(factor.Given)+1)
	for i, g := range factor.Given {
		util = append(util, factor.Table[i]*result[g][0])
	}
	result[totalUtilityNode.Name] = append(util, totalUtility)
	return nil
'''))
ok7("solve-util-sel",(S7,'''	utilities := []string{}
	var totalUtilityNode *bbn.Variable

	for i, n := range nodes {
		if i == network.TotalUtilityIndex() {
			totalUtilityNode = n.Node()
			continue
		}
		if n.Node().NodeType == ve.UtilityNode {
			utilities = append(utilities, n.Node().Name)
		}
	}
''','''	total := network.TotalUtilityIndex()
	var totalUtilityNode *bbn.Variable
	if total >= 0 && total < len(nodes) {
		totalUtilityNode = nodes[total].Node()
	}

	utilities := []string{}
	for i, n := range nodes {
		if i != total && n.Node().NodeType == ve.UtilityNode {
			utilities = append(utilities, n.Node().Name)
		}
	}
'''))
ok7("solve-q-single",(S7,'''		var ok bool
		result[q], ok = r[q]
		if !ok {
			panic(fmt.Sprintf("query variable %s not in result", q))
		}
''','''		probs, found := r[q]
		if !found {
			panic(fmt.Sprintf("query variable %s not in result", q))
		}
		result[q] = probs
'''))
ok7("table-stride",(T7,'''		stride := 1
		for i := len(node.Node().Factor.Given) - 1; i > column; i-- {
			parIdx := t.nodesByName[node.Node().Factor.Given[i]]
			par := t.nodes[parIdx]
			stride *= len(par.Node().Outcomes)
		}
''','''		stride := 1
		for _, name := range node.Node().Factor.Given[column+1:] {
			stride *= len(t.nodes[t.nodesByName[name]].Node().Outcomes)
		}
'''))
ok7("table-cells",(T7,'''	var text string

	values := node.Node().Factor.Table[row*t.columns : (row+1)*t.columns]

	if node.Node().NodeType == ve.UtilityNode {
		text = fmt.Sprintf("%9.3f", values[column-numParents])
	} else {
		sum := 0.0
		for _, v := range values {
			sum += v
		}
		text = fmt.Sprintf("%7.3f%%", 100*values[column-numParents]/sum)
	}

	cell := tview.NewTableCell(text)
	cell.SetAlign(tview.AlignRight)
	return cell
}
''','''	start := row * t.columns
	values := node.Node().Factor.Table[start : start+t.columns]
	cell := tview.NewTableCell(formatValue(values, column-numParents, node.Node().NodeType))
	cell.SetAlign(tview.AlignRight)
	return cell
}

func formatValue(values []float64, i int, nodeType ve.NodeType) string {
	value := values[i]
	if nodeType == ve.UtilityNode {
		return fmt.Sprintf("%9.3f", value)
	}
	sum := 0.0
	for _, v := range values {
		sum += v
	}
	return fmt.Sprintf("%7.3f%%", 100*value/sum)
}
'''))
ok7("table-header",(T7,'''	header := append([]string{}, nodes[index].Node().Factor.Given...)
	header = append(header, nodes[index].Node().Outcomes...)

	forIdx := nodesByName[nodes[index].Node().Factor.For]
	forNode := nodes[forIdx]
	columns := len(forNode.Node().Outcomes)
''','''	node := nodes[index].Node()
	header := make([]string, 0, len(node.Factor.Given)+len(node.Outcomes))
	for _, g := range node.Factor.Given {
		header = append(header, g)
	}
	for _, o := range node.Outcomes {
		header = append(header, o)
	}

	columns := len(nodes[nodesByName[node.Factor.For]].Node().Outcomes)
'''))
ok7("train-cell",(R7,'''		for i, idx := range indices {
			if isUtility[i] {
				var err error
				if record[idx] == noData {
					utility[i] = math.NaN()
					continue
				}
				utility[i], err = strconv.ParseFloat(record[idx], 64)
				if err != nil {
					return nil, fmt.Errorf("unable to parse utility value '%s' to integer in node '%s'", record[idx], nodes[i].Name)
				}

			} else {
				var ok bool
				sample[i], ok = outcomes[i][record[idx]]
				if !ok {
					return nil, fmt.Errorf("outcome '%s' not available in node '%s'", record[idx], nodes[i].Name)
				}
			}
		}
''','''		for i := range nodes {
			cell := record[indices[i]]
			if !isUtility[i] {
				outcome, ok := outcomes[i][cell]
				if !ok {
					return nil, fmt.Errorf("outcome '%s' not available in node '%s'", cell, nodes[i].Name)
				}
				sample[i] = outcome
				continue
			}
			value := math.NaN()
			if cell != noData {
				value, err = strconv.ParseFloat(cell, 64)
				if err != nil {
					return nil, fmt.Errorf("unable to parse utility value '%s' to integer in node '%s'", cell, nodes[i].Name)
				}
			}
			utility[i] = value
		}
'''))
ok7("train-split",(R7,'''	train := bbn.NewTrainer(net)
	sample := make([]int, len(nodes))
	utility := make([]float64, len(nodes))

	for {
		record, err := r.Read()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
''','''	train := bbn.NewTrainer(net)
	utility := make([]float64, len(nodes))
	sample := make([]int, len(nodes))

	for {
		record, err := r.Read()
		if err != nil {
			if err == io.EOF {
				break
			}
			return nil, err
		}
'''))
ok7("train-file",(R7,'''	file, err := os.Open(dataFile)
	if err != nil {
		return nil, err
	}
	defer file.Close()

	r := csv.NewReader(file)
	r.ReuseRecord = true
	r.Comma = delimiter

	header, err := r.Read()
	if err != nil {
		return nil, err
	}
''','''	file, err := os.Open(dataFile)
	if err != nil {
		return nil, err
	}
	defer file.Close()

	r := newReader(file, delimiter)
	header, err := r.Read()
	if err != nil {
		return nil, err
	}
'''),(R7,'''func prepare(''','''func newReader(in io.Reader, delimiter rune) *csv.Reader {
	r := csv.NewReader(in)
	r.Comma = delimiter
	r.ReuseRecord = true
	return r
}

func prepare('''))
ok7("prep-outcomes",(R7,'''		outcomes[i] = make(map[string]int, len(node.Outcomes))
		for j, o := range node.Outcomes {
			if o == noData {
				err = fmt.Errorf("no-data value '%s' appears as outcomes of node '%s'", noData, node.Name)
				return
			}
			outcomes[i][o] = j
		}
		outcomes[i][noData] = -1
''','''		if slices.Contains(node.Outcomes, noData) {
			err = fmt.Errorf("no-data value '%s' appears as outcomes of node '%s'", noData, node.Name)
			return
		}
		lookup := map[string]int{noData: -1}
		for j, o := range node.Outcomes {
			lookup[o] = j
		}
		outcomes[i] = lookup
'''))
ok7("evid-cut",(U7,'''		parts := strings.Split(entry, "=")
		if len(parts) != 2 {
			return nil, fmt.Errorf("syntax error in evidence")
		}
		ev[parts[0]] = parts[1]
''','''		name, value, ok := strings.Cut(entry, "=")
		if !ok || strings.Contains(value, "=") {
			return nil, fmt.Errorf("syntax error in evidence")
		}
		ev[name] = value
'''))
ok7("render-node",(P7,'''		data := a.marginals[node.Node().Name]
		_, hasEvidence := a.evidence[node.Node().Name]
		runes, colors := node.Render(data, i == a.selectedNode, a.selectedState, hasEvidence)
		b := node.Bounds()
		for i, line := range runes {
			copy(a.canvas[b.Y+i][b.X:], line)
			copy(a.colors[b.Y+i][b.X:], colors[i])
		}
''','''		a.renderNode(node, i == a.selectedNode)
'''),(P7,'''func (a *App) renderEdges() {''','''func (a *App) renderNode(node Node, selected bool) {
	name := node.Node().Name
	_, hasEvidence := a.evidence[name]
	runes, colors := node.Render(a.marginals[name], selected, a.selectedState, hasEvidence)
	b := node.Bounds()
	for row := range runes {
		y := b.Y + row
		copy(a.canvas[y][b.X:], runes[row])
		copy(a.colors[y][b.X:], colors[row])
	}
}

func (a *App) renderEdges() {'''))
ok7("keys-switch",(I6,'''	} else if event.Rune() == 'h' {
		a.showHelp()
		return nil
	} else if event.Rune() == 'i' {
		a.showInfo()
		return nil
	} else if event.Rune() == 't' {
		a.showTable()
		return nil
	} else if event.Rune() == 'p' {
		a.toggleIgnorePolicy()
		return nil
	} else if event.Key() == tcell.KeyCtrlS {
		a.saveNetwork()
		return nil
	} else {
		return a.moveNode(event)
	}
}
''','''	}
	switch event.Rune() {
	case 'h':
		a.showHelp()
	case 'i':
		a.showInfo()
	case 't':
		a.showTable()
	case 'p':
		a.toggleIgnorePolicy()
	default:
		if event.Key() == tcell.KeyCtrlS {
			a.saveNetwork()
			return nil
		}
		return a.moveNode(event)
	}
	return nil
}
'''))
ok7("enter",(I6,'''	// Add/clear selected state
	if oldValue, ok := a.evidence[node.Node().Name]; ok {
		if oldValue == value {
			delete(a.evidence, node.Node().Name)
		} else {
			a.evidence[node.Node().Name] = value
		}
	} else {
		a.evidence[node.Node().Name] = value
	}
''','''	a.toggleEvidence(node.Node().Name, value)
'''),(I6,'''func (a *App) updateMarginals() error {''','''// toggleEvidence clears the evidence if it is already the given one, or sets it otherwise.
func (a *App) toggleEvidence(name, value string) {
	old, ok := a.evidence[name]
	if ok && old == value {
		delete(a.evidence, name)
		return
	}
	a.evidence[name] = value
}

func (a *App) updateMarginals() error {'''))
ok7("update",(I6,'''	var err error
	a.marginals, err = Solve(a.network, a.evidence, a.nodes, a.ignorePolicies)
	if err != nil {
		return err
	}
	return nil
''','''	marginals, err := Solve(a.network, a.evidence, a.nodes, a.ignorePolicies)
	a.marginals = marginals
	return err
'''))
ok7("toggle",(I6,'''	a.ignorePolicies = !a.ignorePolicies

	if a.ignorePolicies {
		a.graph.SetBorderColor(tcell.ColorBlue)
	} else {
		a.graph.SetBorderColor(tcell.ColorDefault)
	}
''','''	color := tcell.ColorBlue
	if a.ignorePolicies {
		color = tcell.ColorDefault
	}
	a.ignorePolicies = !a.ignorePolicies
	a.graph.SetBorderColor(color)
'''))
ok7("move",(I6,'''		b := node.Bounds()
		b.X += dx
		b.Y += dy

		p := a.network.Variables()[a.selectedNode].Position
		a.network.Variables()[a.selectedNode].Position = [2]int{p[0] + dx, p[1] + dy}
''','''		b := node.Bounds()
		b.X, b.Y = b.X+dx, b.Y+dy

		variable := &a.network.Variables()[a.selectedNode]
		variable.Position[0] += dx
		variable.Position[1] += dy
'''))
ok7("move2",(I6,'''	dx, dy := 0, 0
	createCanvas := false
	if event.Rune() == 'w' {
		if node.Bounds().Y > 0 {
			dy--
		}
	} else if event.Rune() == 'a' {
		if node.Bounds().X > 0 {
			dx--
		}
	} else if event.Rune() == 's' {
		dy++
		if node.Bounds().Y+node.Bounds().H >= len(a.canvas) {
			createCanvas = true
		}
	} else if event.Rune() == 'd' {
		dx++
		if node.Bounds().X+node.Bounds().W >= len(a.canvas[0]) {
			createCanvas = true
		}
	}
''','''	dx, dy := 0, 0
	createCanvas := false
	bounds := node.Bounds()
	switch event.Rune() {
	case 'w':
		if bounds.Y > 0 {
			dy = -1
		}
	case 'a':
		if bounds.X > 0 {
			dx = -1
		}
	case 's':
		dy = 1
		createCanvas = bounds.Y+bounds.H >= len(a.canvas)
	case 'd':
		dx = 1
		createCanvas = bounds.X+bounds.W >= len(a.canvas[0])
	}
'''))
ok7("save",(I6,'''	ext := path.Ext(a.file)
	saveFile := strings.TrimSuffix(a.file, ext) + "-save.yml"

	err = os.WriteFile(saveFile, yml, 0644)
	if err != nil {
		panic(err)
	}
''','''	base := strings.TrimSuffix(a.file, path.Ext(a.file))
	if err := os.WriteFile(base+"-save.yml", yml, 0644); err != nil {
		panic(err)
	}
'''))
ok7("showtable",(I6,'''	node := a.nodes[a.selectedNode].Node()

	data := NewTable(a.nodes, a.selectedNode, a.nodesByName)

	a.tableDialog.SetRows(0, data.GetRowCount()+5, 0)
	a.table.SetContent(&data)
	a.table.SetTitle(" " + node.Name + " ")
	a.pages.ShowPage("Table")

	a.app.SetFocus(a.table)
''','''	selected := a.selectedNode
	content := NewTable(a.nodes, selected, a.nodesByName)
	height := content.GetRowCount() + 5

	a.table.SetTitle(" " + a.nodes[selected].Node().Name + " ")
	a.table.SetContent(&content)
	a.tableDialog.SetRows(0, height, 0)

	a.pages.ShowPage("Table")
	a.app.SetFocus(a.table)
'''))
ok7("mouse-front",(I6,'''		front, _ := a.pages.GetFrontPage()
		if front == "Table" {
			a.pages.HidePage("Table")
			return tview.MouseConsumed, nil
		} else if front == "Help" {
			a.pages.HidePage("Help")
			return tview.MouseConsumed, nil
		} else if front == "Info" {
			a.pages.HidePage("Info")
			return tview.MouseConsumed, nil
		}
''','''		switch front, _ := a.pages.GetFrontPage(); front {
		case "Table", "Help", "Info":
			a.pages.HidePage(front)
			return tview.MouseConsumed, nil
		}
'''))
ok7("infer-print",("cmd/bbn/inference.go",'''			for _, node := range nodes {
				fmt.Print("                              ")
				states := node.Outcomes
				for _, s := range states {
					fmt.Printf(" %10s", s)
				}
				fmt.Printf("\\n%30s", node.Name)
				probs := result[node.Name]
				for _, p := range probs {
					if node.NodeType == ve.UtilityNode {
						fmt.Printf(" %10.3f", p)
					} else {
						fmt.Printf(" %9.3f%%", p*100)
					}
				}
				if _, ok := ev[node.Name]; ok {
					fmt.Print("  +")
				}
				fmt.Println()
			}

			return nil
''','''			for _, node := range nodes {
				_, hasEvidence := ev[node.Name]
				printNode(node, result[node.Name], hasEvidence)
			}

			return nil
'''),("cmd/bbn/inference.go",'''func runInferenceCommand(''','''func printNode(node bbn.Variable, values []float64, hasEvidence bool) {
	fmt.Print("                              ")
	for _, s := range node.Outcomes {
		fmt.Printf(" %10s", s)
	}
	fmt.Printf("\\n%30s", node.Name)
	for _, p := range values {
		if node.NodeType == ve.UtilityNode {
			fmt.Printf(" %10.3f", p)
			continue
		}
		fmt.Printf(" %9.3f%%", 100*p)
	}
	if hasEvidence {
		fmt.Print("  +")
	}
	fmt.Println()
}

func runInferenceCommand('''))
ok7("infer-run",("cmd/bbn/inference.go",'''	net, err := bbn.FromFile(path)
	if err != nil {
		return nil, nil, nil, err
	}

	ev, err := tui.ParseEvidence(evidence)
	if err != nil {
		return nil, nil, nil, err
	}
''','''	ev, err := tui.ParseEvidence(evidence)
	if err != nil {
		return nil, nil, nil, err
	}

	net, err := bbn.FromFile(path)
	if err != nil {
		return nil, nil, nil, err
	}
'''),("cmd/bbn/inference.go",'''	_, err = net.SolvePolicies(true)
	if err != nil {
		return nil, nil, nil, err
	}
''','''	if _, err := net.SolvePolicies(true); err != nil {
		return nil, nil, nil, err
	}
'''))
ok7("train-run",("cmd/bbn/train.go",'''			net, err := bbn.FromFile(netFile)
			if err != nil {
				return err
			}

			nodes := net.Variables()
			net, err = tui.TrainNetwork(net, nodes, datafile, noData, delimRunes[0])
			if err != nil {
				return err
			}

			yml, err := bbn.ToYAML(net)
			if err != nil {
				return err
			}

			fmt.Println(string(yml))
			return nil
''','''			yml, err := runTrainCommand(netFile, datafile, noData, delimRunes[0])
			if err == nil {
				fmt.Println(string(yml))
			}
			return err
'''),("cmd/bbn/train.go",'''func trainCommand()''','''func runTrainCommand(netFile, dataFile, noData string, delim rune) ([]byte, error) {
	net, err := bbn.FromFile(netFile)
	if err != nil {
		return nil, err
	}
	trained, err := tui.TrainNetwork(net, net.Variables(), dataFile, noData, delim)
	if err != nil {
		return nil, err
	}
	return bbn.ToYAML(trained)
}

func trainCommand()'''))
ok7("nq-marginals",(N6,'''	q := make([]ve.Variable, len(query))
	for i, name := range query {
		vv, ok := n.variableNames[name]
		if !ok {
			return nil, fmt.Errorf("query variable %s not found", name)
		}
		q[i] = vv.VeVariable
	}
''','''	q, err := n.queryVariables(query)
	if err != nil {
		return nil, err
	}
'''),(N6,'''// toVE creates''','''func (n *Network) queryVariables(query []string) ([]ve.Variable, error) {
	q := make([]ve.Variable, 0, len(query))
	for _, name := range query {
		if vv, ok := n.variableNames[name]; ok {
			q = append(q, vv.VeVariable)
		} else {
			return nil, fmt.Errorf("query variable %s not found", name)
		}
	}
	return q, nil
}

// toVE creates'''))
ok7("n-evidence",(N6,'''	ev := []ve.Evidence{}
	for _, name := range sortedKeys(evidence) {
		value := evidence[name]
		vv, ok := n.variableNames[name]
		if !ok {
			return nil, fmt.Errorf("evidence variable %s not found", name)
		}
		if vv.Variable.NodeType == ve.UtilityNode {
			return nil, fmt.Errorf("evidence variable %s is a utility node", name)
		}
		idx := slices.Index(vv.Variable.Outcomes, value)
		if idx < 0 {
			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
		}
		ev = append(ev, ve.Evidence{Variable: vv.VeVariable, Value: idx})
	}
''','''	ev := make([]ve.Evidence, 0, len(evidence))
	for _, name := range sortedKeys(evidence) {
		e, err := n.toVeEvidence(name, evidence[name])
		if err != nil {
			return nil, err
		}
		ev = append(ev, e)
	}
'''),(N6,'''// toVE creates''','''func (n *Network) toVeEvidence(name, value string) (ve.Evidence, error) {
	vv, ok := n.variableNames[name]
	switch {
	case !ok:
		return ve.Evidence{}, fmt.Errorf("evidence variable %s not found", name)
	case vv.Variable.NodeType == ve.UtilityNode:
		return ve.Evidence{}, fmt.Errorf("evidence variable %s is a utility node", name)
	}
	for i, o := range vv.Variable.Outcomes {
		if o == value {
			return ve.Evidence{Variable: vv.VeVariable, Value: i}, nil
		}
	}
	return ve.Evidence{}, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
}

// toVE creates'''))
