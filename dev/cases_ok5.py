# Behaviour-preserving rewrites of functions the earlier rounds left alone.
N6,E6,V6,F6,A6,I6,D6,B6="network.go","ve/ve.go","ve/variables.go","ve/factor.go","internal/tui/app.go","internal/tui/input.go","internal/tui/node.go","internal/tui/bounds.go"
def ok5(id,*e): case("ok5-"+id,"OK",*e)
ok5("normutil",(N6,'''	inv := n.ve.Variables().Invert(probs)
	return n.ve.Variables().Product(utility, &inv)
''','''	vars := n.ve.Variables()
	reciprocal := vars.Invert(probs)
	factors := []*ve.Factor{utility, &reciprocal}
	return vars.Product(factors...)
'''))
ok5("marginal",(N6,'''	vv, ok := n.variableNames[variable]
	if !ok {
		panic(fmt.Sprintf("marginal: variable %s not found", variable))
	}
	return n.ve.Variables().Marginal(f, vv.VeVariable)
''','''	if vv, ok := n.variableNames[variable]; ok {
		return n.ve.Variables().Marginal(f, vv.VeVariable)
	}
	panic(fmt.Sprintf("marginal: variable %s not found", variable))
'''))
ok5("rearrange",(N6,'''	vars := n.rearrangeVariables(f, variables)
	return n.ve.Variables().Rearrange(f, vars)
''','''	return n.ve.Variables().Rearrange(f, n.rearrangeVariables(f, variables))
'''))
ok5("varindex",(N6,'''	idx := slices.IndexFunc(f.Variables(), variable.VeVariable.Is)
	if idx < 0 {
		return -1, false
	}
	return idx, true
''','''	for i, v := range f.Variables() {
		if v.Is(variable.VeVariable) {
			return i, true
		}
	}
	return -1, false
'''))
ok5("varindex2",(N6,'''	idx := slices.IndexFunc(f.Variables(), variable.VeVariable.Is)
	if idx < 0 {
		return -1, false
	}
	return idx, true
''','''	idx := slices.IndexFunc(f.Variables(), func(o ve.Variable) bool { return variable.VeVariable.Is(o) })
	return idx, idx >= 0
'''))
ok5("addvar",(V6,'''	v.ids[id] = true
	v.variables = append(v.variables,
		Variable{
			id:       id,
			index:    uint16(len(v.variables)),
			outcomes: outcomes,
			nodeType: nodeType,
		})
	return v.variables[len(v.variables)-1]
''','''	v.ids[id] = true
	variable := Variable{
		id:       id,
		index:    uint16(len(v.variables)),
		outcomes: outcomes,
		nodeType: nodeType,
	}
	v.variables = append(v.variables, variable)
	return variable
'''))
ok5("createfactor",(V6,'''	if data == nil {
		data = make([]float64, rows)
	} else {
		if len(data) != rows {
			panic(fmt.Sprintf("wrong data length for factor. expected %d, got %d", rows, len(data)))
		}
	}

	v.factorCounter++

	return Factor{
		id:        v.factorCounter - 1,
		variables: variables,
		data:      data,
	}
''','''	if data != nil && len(data) != rows {
		panic(fmt.Sprintf("wrong data length for factor. expected %d, got %d", rows, len(data)))
	}
	if data == nil {
		data = make([]float64, rows)
	}

	f := Factor{id: v.factorCounter, variables: variables, data: data}
	v.factorCounter++
	return f
'''))
ok5("createfactor2",(V6,'''	rows := 1
	variables := make([]Variable, len(vars))
	for i, v := range vars {
		variables[i] = v
		rows *= int(v.outcomes)
	}
	if data == nil {''','''	variables := append([]Variable{}, vars...)
	rows := countCells(variables)
	if data == nil {'''),(V6,'''// Restrict a factor to the given evidence.
''','''func countCells(vars []Variable) int {
	n := 1
	for i := range vars {
		n *= int(vars[i].outcomes)
	}
	return n
}

// Restrict a factor to the given evidence.
'''))
ok5("invert",(V6,'''	fNew := v.CreateFactor(f.variables, append([]float64{}, f.data...))

	for i, v := range fNew.data {
		//if v == 0 {
		//	continue
		//}
		fNew.data[i] = 1.0 / v
	}
''','''	fNew := v.CreateFactor(f.variables, nil)

	for i := range f.data {
		fNew.data[i] = 1.0 / f.data[i]
	}
'''))
ok5("venew",(E6,'''	fac := map[int]*Factor{}
	for _, f := range factors {
		fac[f.id] = &f
	}

	return &VE{
		variables:    variables,
		eliminated:   make([]bool, len(variables.variables)),
		dependencies: dependencies,
		factors:      fac,
		weights:      weights,
	}
''','''	ve := &VE{
		variables:    variables,
		dependencies: dependencies,
		factors:      make(map[int]*Factor, len(factors)),
		weights:      weights,
	}
	ve.eliminated = make([]bool, len(variables.variables))
	for i := range factors {
		f := factors[i]
		ve.factors[f.id] = &f
	}
	return ve
'''))
ok5("venew2",(E6,'''	fac := map[int]*Factor{}
	for _, f := range factors {
		fac[f.id] = &f
	}
''','''	fac := factorsByID(factors)
'''),(E6,'''// Variables for the VE.
''','''func factorsByID(factors []Factor) map[int]*Factor {
	byID := make(map[int]*Factor, len(factors))
	for _, f := range factors {
		cp := f
		byID[cp.Id()] = &cp
	}
	return byID
}

// Variables for the VE.
'''))
ok5("vesolve",(E6,'''	if utility {
		if utilityVar == nil {
			ve.sumUtilities()
		} else {
			ve.removeUtilities(utilityVar)
		}
	} else {
		ve.removeUtilities(nil)
	}

	ve.eliminateHidden(evidence, query, false)

	return ve.summarize()
''','''	switch {
	case !utility:
		ve.removeUtilities(nil)
	case utilityVar != nil:
		ve.removeUtilities(utilityVar)
	default:
		ve.sumUtilities()
	}

	ve.eliminateHidden(evidence, query, false)

	return ve.multiplyAll()
'''))
ok5("vepol",(E6,'''	decisions := ve.getDecisions()
	if len(decisions) == 0 {
		return nil
	}

	ve.sumUtilities()

	ve.eliminateHidden(nil, nil, single)

	return ve.solvePolicies(decisions, single)
''','''	if decisions := ve.getDecisions(); len(decisions) > 0 {
		ve.sumUtilities()
		ve.eliminateHidden(nil, nil, single)
		return ve.solvePolicies(decisions, single)
	}
	return nil
'''))
ok5("vepol2",(E6,'''		var fac *Factor
		if len(factors) == 1 {
			fac = factors[0]
		} else {
			f := ve.variables.Product(factors...)
			fac = &f
		}
''','''		fac := factors[0]
		if len(factors) > 1 {
			f := ve.variables.Product(factors...)
			fac = &f
		}
'''))
ok5("decpar",(E6,'''	for i := len(decisions) - 1; i >= 0; i-- {
		dec := decisions[i]
		if vars, ok := ve.dependencies[dec]; ok {
			for _, v := range vars {
				isDecisionParent[v.index] = true
			}
		}
		if single {
			break
		}
	}
''','''	if single {
		decisions = decisions[len(decisions)-1:]
	}
	for _, dec := range decisions {
		for _, v := range ve.dependencies[dec] {
			isDecisionParent[v.index] = true
		}
	}
'''))
ok5("decpar2",(E6,'''	for i := len(decisions) - 1; i >= 0; i-- {
		dec := decisions[i]
		if vars, ok := ve.dependencies[dec]; ok {
			for _, v := range vars {
				isDecisionParent[v.index] = true
			}
		}
		if single {
			break
		}
	}
''','''	first := 0
	if single {
		first = len(decisions) - 1
	}
	for i := len(decisions) - 1; i >= first; i-- {
		for _, v := range ve.dependencies[decisions[i]] {
			isDecisionParent[v.index] = true
		}
	}
'''))
ok5("decpar3",(E6,'''		if single {
			break
		}
	}

	/*''','''		if !single {
			continue
		}
		return isDecisionParent
	}

	/*'''))
ok5("sumidx",(V6,'''			idx := slices.Index(newVars, v)
			if idx < 0 {
				idx = len(newVars)
				newVars = append(newVars, v)
			}
			m[j] = idx
		}
		maps[i] = m
	}

	f := v.CreateFactor(newVars, nil)

	oldIndex := make([][]int, len(factors))
	for i, f := range factors {
		oldIndex[i] = make([]int, len(f.variables))
	}

	newIndex := make([]int, len(f.variables))
	for i := range f.data {
		sum''','''			idx := slices.Index(newVars, v)
			if idx >= 0 {
				m[j] = idx
				continue
			}
			m[j] = len(newVars)
			newVars = append(newVars, v)
		}
		maps[i] = m
	}

	f := v.CreateFactor(newVars, nil)

	oldIndex := make([][]int, len(factors))
	for i, f := range factors {
		oldIndex[i] = make([]int, len(f.variables))
	}

	newIndex := make([]int, len(f.variables))
	for i := range f.data {
		sum'''))
ok5("facrow",(F6,'''	idx, ln := f.RowIndex(indices)
	return f.data[idx : idx+ln]
''','''	start, width := f.RowIndex(indices)
	end := start + width
	return f.data[start:end]
'''))
ok5("rowidx",(F6,'''	idx := 0
	stride := int(f.variables[len(f.variables)-1].outcomes)

	for i := len(f.variables) - 2; i >= 0; i-- {
		idx += indices[i] * stride
		stride *= int(f.variables[i].outcomes)
	}

	return idx, int(f.variables[len(f.variables)-1].outcomes)
''','''	last := len(f.variables) - 1
	width := int(f.variables[last].outcomes)
	row := 0
	for i, v := range f.variables[:last] {
		row = row*int(v.outcomes) + indices[i]
	}

	return row * width, width
'''))
ok5("getset",(F6,'''	idx := f.Index(indices)
	return f.data[idx]
''','''	return f.data[f.variables.Index(indices)]
'''),(F6,'''	idx := f.Index(indices)
	f.data[idx] = value
''','''	cell := &f.data[f.Index(indices)]
	*cell = value
'''))
ok5("varis",("ve/variable.go",'''	return v.id == other.id
''','''	return other.Id() == v.Id()
'''))
ok5("appnew",(A6,'''	if evidence == nil {
		evidence = map[string]string{}
	}
	return &App{
		file:         path,
		trainingFile: trainingFile,
		csvDelimiter: csvDelimiter,
		noData:       noData,
		evidence:     evidence,
	}
''','''	app := &App{file: path, evidence: evidence}
	app.trainingFile = trainingFile
	app.noData = noData
	app.csvDelimiter = csvDelimiter
	if app.evidence == nil {
		app.evidence = make(map[string]string)
	}
	return app
'''))
ok5("appload",(A6,'''	net, err := bbn.FromFile(a.file)
	if err != nil {
		return err
	}

	a.network = net
	nodes := a.network.Variables()

	if a.trainingFile != "" {
		a.network, err = TrainNetwork(net, nodes, a.trainingFile, a.noData, a.csvDelimiter)
		if err != nil {
			return err
		}
	}
''','''	nodes, err := a.loadNetwork()
	if err != nil {
		return err
	}
'''),(A6,'''func (a *App) createCanvas() {''','''func (a *App) loadNetwork() ([]bbn.Variable, error) {
	net, err := bbn.FromFile(a.file)
	if err != nil {
		return nil, err
	}
	nodes := net.Variables()
	if a.trainingFile == "" {
		a.network = net
		return nodes, nil
	}
	a.network, err = TrainNetwork(net, nodes, a.trainingFile, a.noData, a.csvDelimiter)
	if err != nil {
		return nil, err
	}
	return nodes, nil
}

func (a *App) createCanvas() {'''))
ok5("apppages",(A6,'''	a.tableDialog = a.createTablePanel()
	a.pages.AddPage("Table", a.tableDialog, true, false)

	a.helpDialog = a.createHelpPanel()
	a.pages.AddPage("Help", a.helpDialog, true, false)

	a.infoDialog = a.createInfoPanel()
	a.pages.AddPage("Info", a.infoDialog, true, false)

	mainPanel.SetInputCapture(a.inputMainPanel)
	a.graph.SetMouseCapture(a.mouseInputGraph)

	a.table.SetInputCapture(a.inputTable)
	a.table.SetMouseCapture(a.mouseInputTable)

	a.help.SetInputCapture(a.inputHelp)
	a.help.SetMouseCapture(a.mouseInputHelp)

	a.info.SetInputCapture(a.inputInfo)
	a.info.SetMouseCapture(a.mouseInputInfo)
''','''	a.addDialogs()
	mainPanel.SetInputCapture(a.inputMainPanel)
	a.captureInput()
'''),(A6,'''func (a *App) createCanvas() {''','''func (a *App) addDialogs() {
	a.tableDialog = a.createTablePanel()
	a.helpDialog = a.createHelpPanel()
	a.infoDialog = a.createInfoPanel()

	a.pages.AddPage("Table", a.tableDialog, true, false)
	a.pages.AddPage("Help", a.helpDialog, true, false)
	a.pages.AddPage("Info", a.infoDialog, true, false)
}

func (a *App) captureInput() {
	a.graph.SetMouseCapture(a.mouseInputGraph)
	a.table.SetInputCapture(a.inputTable)
	a.help.SetInputCapture(a.inputHelp)
	a.info.SetInputCapture(a.inputInfo)
	a.table.SetMouseCapture(a.mouseInputTable)
	a.help.SetMouseCapture(a.mouseInputHelp)
	a.info.SetMouseCapture(a.mouseInputInfo)
}

func (a *App) createCanvas() {'''))
ok5("apppanels",(A6,'''func (a *App) createHelpPanel() *tview.Grid {
	grid := tview.NewGrid().
		SetColumns(0, 72, 0).
		SetRows(0, 20, 0)

	subGrid := tview.NewGrid().
		SetColumns(0).
		SetRows(0, 1)
	subGrid.SetBorder(true)
	subGrid.SetTitle(" Help ")

	subGrid.AddItem(a.help, 0, 0, 1, 1, 0, 0, true)

	help := tview.NewTextView().
		SetWrap(false).
		SetText(" Close help: ESC  Scroll: ←→↕")
	subGrid.AddItem(help, 1, 0, 1, 1, 0, 0, false)

	grid.AddItem(subGrid, 1, 1, 1, 1, 0, 0, false)

	return grid
}
''','''func (a *App) createHelpPanel() *tview.Grid {
	return createDialog(" Help ", " Close help: ESC  Scroll: ←→↕", a.help)
}

func createDialog(title, footer string, content tview.Primitive) *tview.Grid {
	grid := tview.NewGrid().
		SetColumns(0, 72, 0).
		SetRows(0, 20, 0)

	subGrid := tview.NewGrid().
		SetColumns(0).
		SetRows(0, 1)
	subGrid.SetBorder(true)
	subGrid.SetTitle(title)

	subGrid.AddItem(content, 0, 0, 1, 1, 0, 0, true)

	help := tview.NewTextView().
		SetWrap(false).
		SetText(footer)
	subGrid.AddItem(help, 1, 0, 1, 1, 0, 0, false)

	grid.AddItem(subGrid, 1, 1, 1, 1, 0, 0, false)

	return grid
}
'''))
ok5("apprun",(A6,'''	if err := rooted.Run(); err != nil {
		return err
	}

	return nil
}

func (a *App) createCanvas''','''	return rooted.Run()
}

func (a *App) createCanvas'''))
ok5("mousedlg",(I6,'''	if action == tview.MouseLeftClick || action == tview.MouseRightClick {
		a.pages.HidePage("Help")
		return tview.MouseConsumed, nil
	}
	return action, event
''','''	return a.closeOnClick("Help", action, event)
'''),(I6,'''	if action == tview.MouseLeftClick || action == tview.MouseRightClick {
		a.pages.HidePage("Info")
		return tview.MouseConsumed, nil
	}
	return action, event
}
''','''	return a.closeOnClick("Info", action, event)
}

func (a *App) closeOnClick(page string, action tview.MouseAction, event *tcell.EventMouse) (tview.MouseAction, *tcell.EventMouse) {
	switch action {
	case tview.MouseLeftClick, tview.MouseRightClick:
		a.pages.HidePage(page)
		return tview.MouseConsumed, nil
	}
	return action, event
}
'''))
ok5("mousenode",(I6,'''		x, y := a.mousePosInGraph(event.Position())
		for i, node := range a.nodes {
			if node.Bounds().Contains(x, y) {
				a.selectedNode = i
				a.selectedState = 0
				a.render(true)
				a.showTable()
				break
			}
		}
		return tview.MouseConsumed, nil
''','''		x, y := a.mousePosInGraph(event.Position())
		if i, ok := a.nodeAt(x, y); ok {
			a.selectedNode = i
			a.selectedState = 0
			a.render(true)
			a.showTable()
		}
		return tview.MouseConsumed, nil
'''),(I6,'''func (a *App) mouseInputTable(''','''func (a *App) nodeAt(x, y int) (int, bool) {
	for i, node := range a.nodes {
		if node.Bounds().Contains(x, y) {
			return i, true
		}
	}
	return -1, false
}

func (a *App) mouseInputTable('''))
ok5("keydlg",(I6,'''	if event.Key() == tcell.KeyEsc || event.Key() == tcell.KeyEnter {
		a.pages.HidePage("Table")
		return nil
	}
	return event
''','''	switch event.Key() {
	case tcell.KeyEsc, tcell.KeyEnter:
		a.pages.HidePage("Table")
		return nil
	default:
		return event
	}
'''))
ok5("mousepos",(I6,'''	boxX, boxY, _, _ := a.graph.GetInnerRect()
	scrollY, scrollX := a.graph.GetScrollOffset()
	return x - boxX + scrollX, y - boxY + scrollY
''','''	left, top, _, _ := a.graph.GetInnerRect()
	row, col := a.graph.GetScrollOffset()
	x += col
	x -= left
	y += row - top
	return x, y
'''))
ok5("prevnode",(I6,'''	a.selectedNode--
	if a.selectedNode < 0 {
		a.selectedNode = len(a.nodes) - 1
	}
	a.selectedState = 0
	a.render(true)
''','''	a.selectNode((a.selectedNode + len(a.nodes) - 1) % len(a.nodes))
'''),(I6,'''	a.selectedNode = (a.selectedNode + 1) % len(a.nodes)
	a.selectedState = 0
	a.render(true)
}
''','''	a.selectNode((a.selectedNode + 1) % len(a.nodes))
}

func (a *App) selectNode(i int) {
	a.selectedNode, a.selectedState = i, 0
	a.render(true)
}
'''))
ok5("newnode",(D6,'''	maxStateLen := 0
	for _, state := range n.Outcomes {
		cnt := utf8.RuneCountInString(state)
		if cnt > maxStateLen {
			maxStateLen = cnt
		}
	}
	if maxStateLen > maxStateLabelWidth {
		maxStateLen = maxStateLabelWidth
	}
''','''	maxStateLen := labelWidth(n.Outcomes)
'''),(D6,'''func nodeColor(''','''func labelWidth(labels []string) int {
	w := 0
	for _, l := range labels {
		w = max(w, utf8.RuneCountInString(l))
	}
	return min(w, maxStateLabelWidth)
}

func nodeColor('''))
ok5("newnode2",(D6,'''		H: len(n.Outcomes) + 3,
	}

	if n.NodeType == ve.UtilityNode {
		bounds.H++
	}
''','''	}
	rows := len(n.Outcomes)
	if n.NodeType == ve.UtilityNode {
		rows++
	}
	bounds.H = rows + 3
'''))
ok5("render",(D6,'''	n.drawBorder(selected)
	if n.node.NodeType == ve.UtilityNode {
		n.drawUtility(probs)
	} else {
		n.drawBars(probs, selected, state, evidence)
	}
	return n.runes, n.colors
''','''	n.drawBorder(selected)
	switch n.node.NodeType {
	case ve.UtilityNode:
		n.drawUtility(probs)
	default:
		n.drawBars(probs, selected, state, evidence)
	}
	return n.runes, n.colors
'''))
ok5("selout",(D6,'''	for i := range n.node.Outcomes {
		if y == n.bounds.Y+i+2 {
			return i, true
		}
	}
	return -1, false
''','''	row := y - n.bounds.Y - 2
	if row < 0 || row >= len(n.node.Outcomes) {
		return -1, false
	}
	return row, true
'''))
ok5("utilrow",(D6,'''		var text []rune
		if math.IsNaN(p) {
			text = []rune("         ???")
		} else {
			text = []rune(fmt.Sprintf("%12.3f", p))
		}
		copy(n.runes[i+2][n.barsX+1:], text)
''','''		text := "         ???"
		if !math.IsNaN(p) {
			text = fmt.Sprintf("%12.3f", p)
		}
		row := n.runes[i+2]
		copy(row[n.barsX+1:], []rune(text))
'''))
ok5("barmark",(D6,'''		if selected && state == i {
			n.runes[i+2][1] = SelectionStart
			n.runes[i+2][n.bounds.W-2] = SelectionEnd
		} else if evidence {
			n.runes[i+2][1] = EvidenceStart
			n.runes[i+2][n.bounds.W-2] = EvidenceEnd
		} else {
			n.runes[i+2][1] = Empty
			n.runes[i+2][n.bounds.W-2] = Empty
		}
''','''		start, end := Empty, Empty
		if selected && state == i {
			start, end = SelectionStart, SelectionEnd
		} else if evidence {
			start, end = EvidenceStart, EvidenceEnd
		}
		n.runes[i+2][1] = start
		n.runes[i+2][n.bounds.W-2] = end
'''))
ok5("bartext",(D6,'''		var text []rune
		if math.IsNaN(p) {
			text = []rune("    ???")
		} else {
			text = []rune(fmt.Sprintf("%7.3f", p*100))
		}

		copy(n.runes[i+2][n.barsX+maxBars+1:], text)
''','''		copy(n.runes[i+2][n.barsX+maxBars+1:], percentText(p))
'''),(D6,'''func (n *node) drawUtility(''','''func percentText(p float64) []rune {
	if math.IsNaN(p) {
		return []rune("    ???")
	}
	return []rune(fmt.Sprintf("%7.3f", p*100))
}

func (n *node) drawUtility('''))
ok5("nodecolor",(D6,'''	color := White
	if n.Color == "" {
		switch n.NodeType {
		case ve.ChanceNode:
			color = White
		case ve.UtilityNode:
			color = Green
		case ve.DecisionNode:
			color = Blue
		}
	} else {
		var ok bool
		color, ok = NamedColors[n.Color]
		if !ok {
			return Black, fmt.Errorf("unknown node color %s; available colors are:\\n %s", n.Color, strings.Join(ColorNames, ", "))
		}
	}
	return color, nil
''','''	if n.Color != "" {
		if color, ok := NamedColors[n.Color]; ok {
			return color, nil
		}
		return Black, fmt.Errorf("unknown node color %s; available colors are:\\n %s", n.Color, strings.Join(ColorNames, ", "))
	}
	switch n.NodeType {
	case ve.UtilityNode:
		return Green, nil
	case ve.DecisionNode:
		return Blue, nil
	}
	return White, nil
'''))
ok5("contains",(B6,'''	return x >= b.X && x < b.X+b.W && y >= b.Y && y < b.Y+b.H
''','''	dx, dy := x-b.X, y-b.Y
	if dx < 0 || dy < 0 {
		return false
	}
	return dx < b.W && dy < b.H
'''))
ok5("setargs",("logic/outcome.go",'''		return fmt.Errorf("logic operator expects 2 argument (index, length), got %d", len(args))
	}
	f.Index = args[0]
	f.Length = args[1]
	return nil
''','''		return fmt.Errorf("logic operator expects 2 argument (index, length), got %d", len(args))
	}
	f.Index, f.Length = args[0], args[1]
	return nil
'''))
ok5("outis",("logic/outcome.go",'''	table := make([]float64, f.Length*2)
	for i := 0; i < f.Length; i++ {
		table[i*2+1] = 1
	}
	table[f.Index*2] = 1
	table[f.Index*2+1] = 0

	return table, nil
''','''	table := make([]float64, 2*f.Length)
	for i := 0; i < f.Length; i++ {
		if i == f.Index {
			table[2*i] = 1
		} else {
			table[2*i+1] = 1
		}
	}

	return table, nil
'''))
ok5("clirun",("cmd/bbni/main.go",'''			delimRunes := []rune(delim)
			if len(delimRunes) != 1 {
				return fmt.Errorf("argument for --delim must be a single rune; got '%s'", delim)
			}

			a := tui.New(args[0], ev, training, noData, delimRunes[0])
			return a.Run()
''','''			sep, err := singleRune(delim)
			if err != nil {
				return err
			}

			return tui.New(args[0], ev, training, noData, sep).Run()
'''),("cmd/bbni/main.go",'''// rootCommand sets up''','''func singleRune(s string) (rune, error) {
	runes := []rune(s)
	if len(runes) == 1 {
		return runes[0], nil
	}
	return 0, fmt.Errorf("argument for --delim must be a single rune; got '%s'", s)
}

// rootCommand sets up'''))
ok5("climain",("cmd/bbni/main.go",'''	if err := rootCommand().Execute(); err != nil {
		fmt.Printf("ERROR: %s\\n", err.Error())
		fmt.Print("\\nRun `bbni -h` for help!\\n\\n")
		os.Exit(1)
	}
''','''	err := rootCommand().Execute()
	if err == nil {
		return
	}
	fmt.Printf("ERROR: %s\\n", err)
	fmt.Print("\\nRun `bbni -h` for help!\\n\\n")
	os.Exit(1)
'''))
ok5("solvepol",(N6,'''	clear(n.policies)

	decisions := n.countDecisionSteps(stepwise)
	for i := 0; i < decisions; i++ {''','''	clear(n.policies)

	for steps := n.countDecisionSteps(stepwise); steps > 0; steps-- {'''))
STEPS='''	if !stepwise {
		return 1
	}
	decisions := 0
	for i := range n.variables {
		if n.variables[i].NodeType == ve.DecisionNode {
			decisions++
		}
	}
	if decisions == 0 {
		return 1
	}
	return decisions
'''

ok5("steps1",(N6,STEPS,'''	decisions := 0
	if stepwise {
		for i := range n.variables {
			if n.variables[i].NodeType == ve.DecisionNode {
				decisions++
			}
		}
	}
	if decisions == 0 {
		return 1
	}
	return decisions
'''))
ok5("steps2",(N6,STEPS,'''	decisions := 0
	for i := range n.variables {
		if stepwise && n.variables[i].NodeType == ve.DecisionNode {
			decisions++
		}
	}
	if decisions < 1 {
		decisions = 1
	}
	return decisions
'''))
ok5("steps3",(N6,STEPS,'''	decisions := 0
	for i := range n.variables {
		if n.variables[i].NodeType == ve.DecisionNode {
			decisions++
		}
	}
	if !stepwise || decisions == 0 {
		return 1
	}
	return decisions
'''))
ok5("steps4",(N6,STEPS,'''	decisions := 0
	if !stepwise {
		decisions = 1
	} else {
		for i := range n.variables {
			if n.variables[i].NodeType == ve.DecisionNode {
				decisions++
			}
		}
	}
	return max(1, decisions)
'''))
