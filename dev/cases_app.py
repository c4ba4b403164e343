RE="internal/tui/render.go"; NO="internal/tui/node.go"; BO="internal/tui/bounds.go"
# --- bugs
def bug(id,*e): case("ap-"+id,"C19",*e)
def ok(id,*e): case("apok-"+id,"OK",*e)
bug("tab-state",(IN,"a.selectedNode = (a.selectedNode + 1) % len(a.nodes)\n\ta.selectedState = 0\n","a.selectedNode = (a.selectedNode + 1) % len(a.nodes)\n"))
bug("tab-wrap",(IN,"a.selectedNode = (a.selectedNode + 1) % len(a.nodes)","if a.selectedNode < len(a.nodes)-1 {\n\t\ta.selectedNode++\n\t}"))
bug("tab-mod",(IN,"(a.selectedNode + 1) % len(a.nodes)","a.selectedNode%(len(a.nodes)-1) + 1"))
bug("prev-neg",(IN,"if a.selectedNode < 0 {","if a.selectedNode < -1 {"))
bug("prev-mod",(IN,"a.selectedNode--\n\tif a.selectedNode < 0 {\n\t\ta.selectedNode = len(a.nodes) - 1\n\t}","a.selectedNode = (a.selectedNode - 1) % len(a.nodes)"))
bug("prev-state",(IN,"a.selectedNode = len(a.nodes) - 1\n\t}\n\ta.selectedState = 0","a.selectedNode = len(a.nodes) - 1\n\t\ta.selectedState = 0\n\t}"))
bug("prev-end",(IN,"a.selectedNode = len(a.nodes) - 1","a.selectedNode = len(a.nodes) - 2"))
bug("space-len",(IN,"% len(a.nodes[a.selectedNode].Node().Outcomes)","% len(a.nodes)"))
bug("space-first",(IN,"% len(a.nodes[a.selectedNode].Node().Outcomes)","% len(a.nodes[0].Node().Outcomes)"))
bug("space-nodraw",(IN,"Node().Outcomes)\n\t\ta.render(true)","Node().Outcomes)"))
bug("digit-le",(IN,"if idx >= 0 && idx < len(","if idx >= 0 && idx <= len("))
bug("digit-zero",(IN,"if idx >= 0 && idx < len(","if idx < len("))
bug("digit-dec",(IN,"\tidx -= 1\n",""))
bug("digit-8",(IN,"event.Rune() <= '9'","event.Rune() < '9'"))
bug("digit-unicode",(IN,"event.Rune() >= '0' && event.Rune() <= '9'","unicode.IsDigit(event.Rune())"),(IN,'"strings"\n','"strings"\n\t"unicode"\n'))
bug("enter-util",(IN,"if node.Node().NodeType == ve.UtilityNode {\n\t\treturn nil\n\t}","if node.Node().NodeType == ve.DecisionNode {\n\t\treturn nil\n\t}"))
bug("enter-dec",(IN,"if node.Node().NodeType == ve.UtilityNode {\n\t\treturn nil","if node.Node().NodeType != ve.ChanceNode {\n\t\treturn nil"))
bug("enter-first",(IN,"value := node.Node().Outcomes[a.selectedState]","value := node.Node().Outcomes[0]"))
bug("enter-nodel",(IN,"if oldValue == value {","if oldValue != value {"))
bug("enter-always-del",(IN,"\t\tif oldValue == value {\n\t\t\tdelete(a.evidence, node.Node().Name)\n\t\t} else {\n\t\t\ta.evidence[node.Node().Name] = value\n\t\t}","\t\t_ = oldValue\n\t\tdelete(a.evidence, node.Node().Name)"))
bug("enter-delonly",(IN,"delete(a.evidence, node.Node().Name)","delete(a.evidence, node.Node().Name)\n\t\t\treturn nil"))
bug("enter-early",(IN,"\treturn a.updateMarginals()\n}","\treturn nil\n}"))
bug("enter-order",(IN,"\tvalue := node.Node().Outcomes[a.selectedState]\n","\tvalue := node.Node().Outcomes[a.selectedState]\n\tif err := a.updateMarginals(); err != nil {\n\t\treturn err\n\t}\n"),(IN,"\treturn a.updateMarginals()\n}","\treturn nil\n}"))
bug("enter-nodraw",(IN,"\t\t\tpanic(err)\n\t\t}\n\t\ta.render(true)\n\t\treturn nil\n\t} else if event.Rune() == 'h'","\t\t\tpanic(err)\n\t\t}\n\t\treturn nil\n\t} else if event.Rune() == 'h'"))
bug("pol-nosolve",(IN,"\tif err := a.updateMarginals(); err != nil {\n\t\tpanic(err)\n\t}\n\ta.render(true)\n}","\ta.render(true)\n}"))
bug("pol-order",(IN,"func (a *App) toggleIgnorePolicy() {\n\ta.ignorePolicies = !a.ignorePolicies\n","func (a *App) toggleIgnorePolicy() {\n\tif err := a.updateMarginals(); err != nil {\n\t\tpanic(err)\n\t}\n\ta.ignorePolicies = !a.ignorePolicies\n"),(IN,"\tif err := a.updateMarginals(); err != nil {\n\t\tpanic(err)\n\t}\n\ta.render(true)\n}","\ta.render(true)\n}"))
bug("pol-on",(IN,"a.ignorePolicies = !a.ignorePolicies","a.ignorePolicies = true"))
bug("solve-neg",(IN,"a.nodes, a.ignorePolicies)","a.nodes, !a.ignorePolicies)"))
bug("solve-nil",(IN,"Solve(a.network, a.evidence, a.nodes","Solve(a.network, nil, a.nodes"))
bug("move-pos",(IN,"[2]int{p[0] + dx, p[1] + dy}","[2]int{p[0] + dx, p[1] - dy}"))
bug("move-swap",(IN,"[2]int{p[0] + dx, p[1] + dy}","[2]int{p[0] + dy, p[1] + dx}"))
bug("move-nopos",(IN,"\t\ta.network.Variables()[a.selectedNode].Position = [2]int{p[0] + dx, p[1] + dy}\n","\t\t_ = p\n"))
bug("move-border",(IN,"if node.Bounds().Y > 0 {","if node.Bounds().Y >= 0 {"))
bug("move-borderx",(IN,"if node.Bounds().X > 0 {","if node.Bounds().Y > 0 {"))
bug("move-stuck",(IN,"if node.Bounds().X > 0 {","if node.Bounds().X > 1 {"))
bug("move-canvas",(IN,"node.Bounds().Y+node.Bounds().H >= len(a.canvas)","node.Bounds().Y+node.Bounds().H > len(a.canvas)"))
bug("move-canvas2",(IN,"node.Bounds().X+node.Bounds().W >= len(a.canvas[0])","node.Bounds().X+node.Bounds().W >= len(a.canvas)"))
bug("move-draw",(IN,"\t\ta.render(false)\n","\t\ta.render(true)\n"))
bug("move-order",(IN,"\t\tb.X += dx\n\t\tb.Y += dy\n",""),(IN,"\t\ta.render(false)\n","\t\ta.render(false)\n\t\tb.X += dx\n\t\tb.Y += dy\n"))
bug("move-only0",(IN,"a.network.Variables()[a.selectedNode].Position = ","a.network.Variables()[0].Position = "))
bug("swallow",(IN,"\t\treturn nil\n\t}\n\treturn event\n}\n\n// inputEnter","\t\treturn nil\n\t}\n\treturn nil\n}\n\n// inputEnter"))
bug("m-state",(IN,"a.selectedNode = i\n\t\t\t\ta.selectedState = 0\n\t\t\t\tif outcome","a.selectedNode = i\n\t\t\t\tif outcome"))
bug("m-rstate",(IN,"a.selectedState = 0\n\t\t\t\ta.render(true)\n\t\t\t\ta.showTable()","a.render(true)\n\t\t\t\ta.showTable()"))
bug("m-break",(IN,"\t\t\t\ta.render(true)\n\t\t\t\tbreak\n","\t\t\t\ta.render(true)\n"))
bug("m-scroll",(IN,"scrollY, scrollX :=","scrollX, scrollY :="))
bug("m-noscroll",(IN,"return x - boxX + scrollX, y - boxY + scrollY","_ = scrollY\n\treturn x - boxX + scrollX, y - boxY"))
bug("m-sign",(IN,"return x - boxX + scrollX,","return x - boxX - scrollX,"))
bug("m-rect",(IN,"a.graph.GetInnerRect()","a.graph.GetRect()"))
bug("m-front",(IN,'front == "Info" {\n\t\t\ta.pages.HidePage("Info")','front == "Info" {\n\t\t\ta.pages.HidePage("Help")'))
bug("m-nofront",(IN,' else if front == "Info" {\n\t\t\ta.pages.HidePage("Info")\n\t\t\treturn tview.MouseConsumed, nil\n\t\t}',''))
bug("m-order",(IN,"\t\t\t\t\ta.selectedState = outcome\n\t\t\t\t\tif err := a.inputEnter(); err != nil {\n\t\t\t\t\t\tpanic(err)\n\t\t\t\t\t}\n","\t\t\t\t\tif err := a.inputEnter(); err != nil {\n\t\t\t\t\t\tpanic(err)\n\t\t\t\t\t}\n\t\t\t\t\ta.selectedState = outcome\n"))
bug("m-toggle0",(IN,"\t\t\t\t\ta.selectedState = outcome\n\t\t\t\t\tif err := a.inputEnter(); err != nil {\n\t\t\t\t\t\tpanic(err)\n\t\t\t\t\t}\n\t\t\t\t}\n","\t\t\t\t\ta.selectedState = outcome\n\t\t\t\t}\n\t\t\t\tif err := a.inputEnter(); err != nil {\n\t\t\t\t\tpanic(err)\n\t\t\t\t}\n"))
bug("t-first",(IN,"NewTable(a.nodes, a.selectedNode, a.nodesByName)","NewTable(a.nodes, 0, a.nodesByName)"))
bug("d-esc",(IN,'if event.Key() == tcell.KeyEsc || event.Key() == tcell.KeyEnter {\n\t\ta.pages.HidePage("Help")','if event.Key() == tcell.KeyEnter {\n\t\ta.pages.HidePage("Help")'))
bug("d-page",(IN,'func (a *App) inputInfo(event *tcell.EventKey) *tcell.EventKey {\n\tif event.Key() == tcell.KeyEsc || event.Key() == tcell.KeyEnter {\n\t\ta.pages.HidePage("Info")','func (a *App) inputInfo(event *tcell.EventKey) *tcell.EventKey {\n\tif event.Key() == tcell.KeyEsc || event.Key() == tcell.KeyEnter {\n\t\ta.pages.HidePage("Help")'))
bug("r-sel",(RE,"i == a.selectedNode, a.selectedState, hasEvidence","i == a.selectedState, a.selectedState, hasEvidence"))
bug("r-ev",(RE,"_, hasEvidence := a.evidence[node.Node().Name]","_, hasEvidence := a.marginals[node.Node().Name]"))
bug("r-text",(RE,"\ta.renderNodes()\n\ta.updateCanvas()\n","\ta.updateCanvas()\n\ta.renderNodes()\n"))
bug("r-range",(RE,"for i, node := range a.nodes {\n\t\tdata","for i, node := range a.nodes[1:] {\n\t\tdata"))
# --- the same behaviour
SW_OLD=open("/repo/internal/tui/input.go").read()
body=SW_OLD[SW_OLD.index("\tif event.Key() == tcell.KeyEsc {\n\t\t// Exit"):SW_OLD.index("func (a *App) toggleIgnorePolicy")]
ok("switch",(IN,body,'''	key, r := event.Key(), event.Rune()
	switch {
	case key == tcell.KeyEsc:
		a.app.Stop()
	case key == tcell.KeyTAB:
		a.selectNextNode()
	case key == tcell.KeyBacktab:
		a.selectPreviousNode()
	case r == ' ':
		a.cycleState()
	case r >= '0' && r <= '9':
		a.selectNodeOutcome(string(r))
	case key == tcell.KeyEnter:
		if err := a.inputEnter(); err != nil {
			panic(err)
		}
		a.render(true)
	case r == 'h':
		a.showHelp()
	case r == 'i':
		a.showInfo()
	case r == 't':
		a.showTable()
	case r == 'p':
		a.toggleIgnorePolicy()
	case key == tcell.KeyCtrlS:
		a.saveNetwork()
	default:
		return a.moveNode(event)
	}
	return nil
}

func (a *App) cycleState() {
	outcomes := a.nodes[a.selectedNode].Node().Outcomes
	a.selectedState++
	if a.selectedState >= len(outcomes) {
		a.selectedState = 0
	}
	a.render(true)
}

'''))
ok("select",(IN,"\ta.selectedNode = (a.selectedNode + 1) % len(a.nodes)\n\ta.selectedState = 0\n\ta.render(true)","\tnext := a.selectedNode + 1\n\tif next == len(a.nodes) {\n\t\tnext = 0\n\t}\n\ta.setSelection(next, 0)\n\ta.render(true)"),(IN,"func (a *App) selectPreviousNode","func (a *App) setSelection(node, state int) {\n\ta.selectedNode, a.selectedState = node, state\n}\n\nfunc (a *App) selectPreviousNode"),(IN,"a.selectedNode--\n\tif a.selectedNode < 0 {\n\t\ta.selectedNode = len(a.nodes) - 1\n\t}\n\ta.selectedState = 0","n := len(a.nodes)\n\ta.setSelection((a.selectedNode+n-1)%n, 0)"))
ok("digit",(IN,"\tidx, err := strconv.Atoi(index)\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tidx -= 1\n\tif idx >= 0 && idx < len(a.nodes[a.selectedNode].Node().Outcomes) {\n\t\ta.selectedState = idx\n\t\ta.render(true)\n\t}","\tidx := int(index - '1')\n\tif idx < 0 || idx >= len(a.nodes[a.selectedNode].Node().Outcomes) {\n\t\treturn\n\t}\n\ta.selectedState = idx\n\ta.render(true)"),(IN,"func (a *App) selectNodeOutcome(index string)","func (a *App) selectNodeOutcome(index rune)"),(IN,"string(event.Rune())","event.Rune()"),(IN,'\t"strconv"\n',''))
ok("enter",(IN,'''	if oldValue, ok := a.evidence[node.Node().Name]; ok {
		if oldValue == value {
			delete(a.evidence, node.Node().Name)
		} else {
			a.evidence[node.Node().Name] = value
		}
	} else {
		a.evidence[node.Node().Name] = value
	}
''','''	name := node.Node().Name
	if oldValue, ok := a.evidence[name]; ok && oldValue == value {
		delete(a.evidence, name)
	} else {
		a.evidence[name] = value
	}
'''))
ok("nodeat",(IN,'''		for i, node := range a.nodes {
			if node.Bounds().Contains(x, y) {
				a.selectedNode = i
				a.selectedState = 0
				if outcome, ok := node.SelectedOutcome(x, y); ok {
					a.selectedState = outcome
					if err := a.inputEnter(); err != nil {
						panic(err)
					}
				}
				a.render(true)
				break
			}
		}
		return tview.MouseConsumed, nil
	} else''','''		idx := a.nodeAt(x, y)
		if idx < 0 {
			return tview.MouseConsumed, nil
		}
		node := a.nodes[idx]
		a.selectedNode, a.selectedState = idx, 0
		if outcome, ok := node.SelectedOutcome(x, y); ok {
			a.selectedState = outcome
			if err := a.inputEnter(); err != nil {
				panic(err)
			}
		}
		a.render(true)
		return tview.MouseConsumed, nil
	} else'''),(IN,'''		for i, node := range a.nodes {
			if node.Bounds().Contains(x, y) {
				a.selectedNode = i
				a.selectedState = 0
				a.render(true)
				a.showTable()
				break
			}
		}
''','''		if idx := a.nodeAt(x, y); idx >= 0 {
			a.selectedNode = idx
			a.selectedState = 0
			a.render(true)
			a.showTable()
		}
'''),(IN,"func (a *App) selectNextNode","func (a *App) nodeAt(x, y int) int {\n\tfor i := 0; i < len(a.nodes); i++ {\n\t\tif a.nodes[i].Bounds().Contains(x, y) {\n\t\t\treturn i\n\t\t}\n\t}\n\treturn -1\n}\n\nfunc (a *App) selectNextNode"))
ok("nodeat2",(IN,'''		for i, node := range a.nodes {
			if node.Bounds().Contains(x, y) {
				a.selectedNode = i
				a.selectedState = 0
				a.render(true)
				a.showTable()
				break
			}
		}
''','''		if idx, ok := a.nodeAt(x, y); ok {
			a.selectedNode = idx
			a.selectedState = 0
			a.render(true)
			a.showTable()
		}
'''),(IN,"func (a *App) selectNextNode","func (a *App) nodeAt(x, y int) (int, bool) {\n\tfor i, n := range a.nodes {\n\t\tif !n.Bounds().Contains(x, y) {\n\t\t\tcontinue\n\t\t}\n\t\treturn i, true\n\t}\n\treturn -1, false\n}\n\nfunc (a *App) selectNextNode"))
ok("nodeat3",(IN,"\tif action == tview.MouseLeftClick {\n\t\tx, y := a.mousePosInGraph(event.Position())\n\t\tfor i, node","\tif action == tview.MouseLeftClick {\n\t\tmx, my := event.Position()\n\t\tx, y := a.mousePosInGraph(mx, my)\n\t\tidx := slices.IndexFunc(a.nodes, func(n Node) bool { return n.Bounds().Contains(x, y) })\n\t\tif idx >= 0 {\n\t\t\ta.selectedNode = idx\n\t\t\ta.selectedState = 0\n\t\t\tif outcome, ok := a.nodes[idx].SelectedOutcome(x, y); ok {\n\t\t\t\ta.selectedState = outcome\n\t\t\t\tif err := a.inputEnter(); err != nil {\n\t\t\t\t\tpanic(err)\n\t\t\t\t}\n\t\t\t}\n\t\t\ta.render(true)\n\t\t}\n\t\treturn tview.MouseConsumed, nil\n\t}\n\tif action == tview.MouseMiddleClick {\n\t\treturn action, event\n\t}\n\tif false {\n\t\tx, y := 0, 0\n\t\tfor i, node"),(IN,'"path"\n','"path"\n\t"slices"\n'))
ok("move",(IN,'''		b := node.Bounds()
		b.X += dx
		b.Y += dy

		p := a.network.Variables()[a.selectedNode].Position
		a.network.Variables()[a.selectedNode].Position = [2]int{p[0] + dx, p[1] + dy}
''','''		v := &a.network.Variables()[a.selectedNode]
		v.Position[0] += dx
		v.Position[1] += dy

		b := node.Bounds()
		b.X, b.Y = b.X+dx, b.Y+dy
'''))
ok("move2",(IN,'''	if dx != 0 || dy != 0 {
		b := node.Bounds()''','''	if dx == 0 && dy == 0 {
		return event
	}
	{
		b := node.Bounds()'''),(IN,"\t\ta.render(false)\n\t\treturn nil\n\t}\n\treturn event\n}","\t\ta.render(false)\n\t}\n\treturn nil\n}"))
ok("move3",(IN,body[body.index("		return a.moveNode"):] if False else "		return a.moveNode(event)","		if a.moveNode2(event.Rune()) {\n\t\t\treturn nil\n\t\t}\n\t\treturn event"),(IN,"func (a *App) moveNode(event *tcell.EventKey)",'''func (a *App) moveNode2(r rune) bool {
	b := a.nodes[a.selectedNode].Bounds()
	var d [2]int
	switch r {
	case 'w':
		d[1] = -1
	case 'a':
		d[0] = -1
	case 's':
		d[1] = 1
	case 'd':
		d[0] = 1
	default:
		return false
	}
	if b.X+d[0] < 0 || b.Y+d[1] < 0 {
		return false
	}
	b.X += d[0]
	b.Y += d[1]
	pos := &a.network.Variables()[a.selectedNode].Position
	pos[0] += d[0]
	pos[1] += d[1]
	a.createCanvas()
	a.render(false)
	return true
}

func (a *App) moveNode(event *tcell.EventKey)'''))
ok("draw",(RE,'''	for i, node := range a.nodes {
		data := a.marginals[node.Node().Name]
		_, hasEvidence := a.evidence[node.Node().Name]
		runes, colors := node.Render(data, i == a.selectedNode, a.selectedState, hasEvidence)
''','''	for i := 0; i < len(a.nodes); i++ {
		node := a.nodes[i]
		name := node.Node().Name
		_, hasEvidence := a.evidence[name]
		selected := a.selectedNode == i
		runes, colors := node.Render(a.marginals[name], selected, a.selectedState, hasEvidence)
'''),(RE,"\t\tfor i, line := range runes {\n\t\t\tcopy(a.canvas[b.Y+i][b.X:], line)\n\t\t\tcopy(a.colors[b.Y+i][b.X:], colors[i])","\t\tfor j, line := range runes {\n\t\t\tcopy(a.canvas[b.Y+j][b.X:], line)\n\t\t\tcopy(a.colors[b.Y+j][b.X:], colors[j])"))
ok("dialogs",(IN,'''func (a *App) inputHelp(event *tcell.EventKey) *tcell.EventKey {
	if event.Key() == tcell.KeyEsc || event.Key() == tcell.KeyEnter {
		a.pages.HidePage("Help")
		return nil
	}
	return event
}
''','''func (a *App) inputHelp(event *tcell.EventKey) *tcell.EventKey {
	return a.closeOnKey("Help", event)
}

func (a *App) closeOnKey(page string, event *tcell.EventKey) *tcell.EventKey {
	switch event.Key() {
	case tcell.KeyEsc, tcell.KeyEnter:
		a.pages.HidePage(page)
		return nil
	default:
		return event
	}
}
'''),(IN,'''		if front == "Table" {
			a.pages.HidePage("Table")
			return tview.MouseConsumed, nil
		} else if front == "Help" {
			a.pages.HidePage("Help")
			return tview.MouseConsumed, nil
		} else if front == "Info" {
			a.pages.HidePage("Info")
			return tview.MouseConsumed, nil
		}''','''		switch front {
		case "Table", "Help", "Info":
			a.pages.HidePage(front)
			return tview.MouseConsumed, nil
		}'''))
ok("front2",(IN,'''		if front == "Table" {
			a.pages.HidePage("Table")
			return tview.MouseConsumed, nil
		} else if front == "Help" {
			a.pages.HidePage("Help")
			return tview.MouseConsumed, nil
		} else if front == "Info" {
			a.pages.HidePage("Info")
			return tview.MouseConsumed, nil
		}''','''		for _, page := range []string{"Table", "Help", "Info"} {
			if front == page {
				a.pages.HidePage(page)
				return tview.MouseConsumed, nil
			}
		}'''))
ok("front3",(IN,'''		if front == "Table" {
			a.pages.HidePage("Table")
			return tview.MouseConsumed, nil
		} else if front == "Help" {
			a.pages.HidePage("Help")
			return tview.MouseConsumed, nil
		} else if front == "Info" {
			a.pages.HidePage("Info")
			return tview.MouseConsumed, nil
		}''','''		if front != "Graph" {
			a.pages.HidePage(front)
			return tview.MouseConsumed, nil
		}'''))
ok("policy",(IN,'''	a.ignorePolicies = !a.ignorePolicies

	if a.ignorePolicies {
		a.graph.SetBorderColor(tcell.ColorBlue)
	} else {
		a.graph.SetBorderColor(tcell.ColorDefault)
	}
''','''	color := tcell.ColorDefault
	if !a.ignorePolicies {
		color = tcell.ColorBlue
	}
	a.ignorePolicies = !a.ignorePolicies
	a.graph.SetBorderColor(color)
'''))
ok("policy2",(IN,'''	a.ignorePolicies = !a.ignorePolicies

	if a.ignorePolicies {
		a.graph.SetBorderColor(tcell.ColorBlue)
	} else {
		a.graph.SetBorderColor(tcell.ColorDefault)
	}
''','''	if a.ignorePolicies {
		a.ignorePolicies = false
		a.graph.SetBorderColor(tcell.ColorDefault)
	} else {
		a.ignorePolicies = true
		a.graph.SetBorderColor(tcell.ColorBlue)
	}
'''))
ok("handlers",(IN,'''	} else if event.Rune() == 'h' {
		a.showHelp()
		return nil
	} else if event.Rune() == 'i' {
		a.showInfo()
		return nil
	} else if event.Rune() == 't' {
		a.showTable()
		return nil
	} else if event.Rune() == 'p' {
		a.toggleIgnorePolicy()
		return nil
	} else''','''	} else if f, ok := map[rune]func(){'h': a.showHelp, 'i': a.showInfo, 't': a.showTable, 'p': a.toggleIgnorePolicy}[event.Rune()]; ok {
		f()
		return nil
	} else'''))
ok("update",(IN,'''	var err error
	a.marginals, err = Solve(a.network, a.evidence, a.nodes, a.ignorePolicies)
	if err != nil {
		return err
	}
	return nil''','''	m, err := Solve(a.network, a.evidence, a.nodes, a.ignorePolicies)
	if err == nil {
		a.marginals = m
	}
	return err'''))
ok("moverender",(IN,'''	if err := a.updateMarginals(); err != nil {
		panic(err)
	}
	a.render(true)
}''','''	a.refresh()
}

func (a *App) refresh() {
	if err := a.updateMarginals(); err != nil {
		panic(err)
	}
	a.render(true)
}'''))
bug("g-cont",(BO,"x < b.X+b.W &&","x <= b.X+b.W &&"))
bug("g-cont2",(BO,"y >= b.Y && y < b.Y+b.H","y > b.Y && y < b.Y+b.H"))
bug("g-so",(NO,"if y == n.bounds.Y+i+2 {","if y == n.bounds.Y+i+1 {"))
bug("g-ext",(BO,"b.W += b.X - other.X\n\t\tb.X = other.X","b.X = other.X\n\t\tb.W += b.X - other.X"))
bug("g-ext2",(BO,"b.W = other.X + other.W - b.X","b.W = other.X + other.W"))
bug("g-ext3",(BO,"if other.Y+other.H > b.Y+b.H {","if other.Y+other.H > b.Y+b.W {"))
bug("row-val",(NO,"copy(n.runes[i+2][n.barsX+maxBars+1:], text)","copy(n.runes[i+1][n.barsX+maxBars+1:], text)"))
bug("row-util",(NO,"copy(n.runes[i+2][n.barsX+1:], text)","copy(n.runes[i+3][n.barsX+1:], text)"))
bug("row-pct",(NO,'fmt.Sprintf("%7.3f", p*100)','fmt.Sprintf("%7.3f", p)'))
bug("row-mark",(NO,"if selected && state == i {","if selected && state == i+1 {"))
bug("row-ev",(NO,"} else if evidence {","} else if !evidence {"))
ok("g-cont",(BO,"return x >= b.X && x < b.X+b.W && y >= b.Y && y < b.Y+b.H","if x < b.X || y < b.Y {\n\t\treturn false\n\t}\n\tdx, dy := x-b.X, y-b.Y\n\treturn dx < b.W && dy < b.H"))
ok("g-so",(NO,"	for i := range n.node.Outcomes {\n		if y == n.bounds.Y+i+2 {\n			return i, true\n		}\n	}\n	return -1, false","	idx := y - n.bounds.Y - 2\n	if idx < 0 || idx >= len(n.node.Outcomes) {\n		return -1, false\n	}\n	return idx, true"))
ok("g-ext",(BO,"""	if other.X < b.X {
		b.W += b.X - other.X
		b.X = other.X
	}
	if other.Y < b.Y {
		b.H += b.Y - other.Y
		b.Y = other.Y
	}
	if other.X+other.W > b.X+b.W {
		b.W = other.X + other.W - b.X
	}
	if other.Y+other.H > b.Y+b.H {
		b.H = other.Y + other.H - b.Y
	}
""","""	x := min(b.X, other.X)
	y := min(b.Y, other.Y)
	x2 := max(b.X+b.W, other.X+other.W)
	y2 := max(b.Y+b.H, other.Y+other.H)
	*b = Bounds{X: x, Y: y, W: x2 - x, H: y2 - y}
"""))
ok("row",(NO,"	for i, p := range probs {\n		var full, frac float64","	for i := 0; i < len(probs); i++ {\n		p := probs[i]\n		row := i + 2\n		_ = row\n		var full, frac float64"),(NO,"		copy(n.runes[i+2][n.barsX+maxBars+1:], text)","		line := n.runes[row]\n		copy(line[n.barsX+maxBars+1:], text)"))
ok("row2",(NO,"	for i, label := range n.node.Outcomes {\n		copy(n.runes[i+2][2:n.barsX-1], []rune(label))","	row := 2\n	for _, label := range n.node.Outcomes {\n		copy(n.runes[row][2:n.barsX-1], []rune(label))\n		row++"))
ok("row3",(NO,"		if selected && state == i {\n			n.runes[i+2][1] = SelectionStart\n			n.runes[i+2][n.bounds.W-2] = SelectionEnd\n		} else if evidence {\n			n.runes[i+2][1] = EvidenceStart\n			n.runes[i+2][n.bounds.W-2] = EvidenceEnd\n		} else {\n			n.runes[i+2][1] = Empty\n			n.runes[i+2][n.bounds.W-2] = Empty\n		}","		start, end := Empty, Empty\n		switch {\n		case selected && state == i:\n			start, end = SelectionStart, SelectionEnd\n		case evidence:\n			start, end = EvidenceStart, EvidenceEnd\n		}\n		n.runes[i+2][1] = start\n		n.runes[i+2][n.bounds.W-2] = end"))
bug("row-lab",(NO,"copy(n.runes[i+2][2:n.barsX-1], []rune(label))","copy(n.runes[len(n.node.Outcomes)-i+1][2:n.barsX-1], []rune(label))"))
bug("row-lab2",(NO,"copy(n.runes[i+2][2:n.barsX-1], []rune(label))","copy(n.runes[i+1][2:n.barsX-1], []rune(label))"))
bug("row-tot",(NO,'copy(n.runes[len(n.node.Outcomes)+2][2:n.barsX-1], []rune("total"))','copy(n.runes[len(n.node.Outcomes)+1][2:n.barsX-1], []rune("total"))'))
bug("st-swap",(AP,"a.help.SetInputCapture(a.inputHelp)","a.help.SetInputCapture(a.inputInfo)"))
bug("st-none",(AP,"	a.table.SetMouseCapture(a.mouseInputTable)\n",""))
bug("st-wrong",(AP,"a.info.SetMouseCapture(a.mouseInputInfo)","a.info.SetMouseCapture(a.mouseInputHelp)"))
bug("st-step",(AP,"a.network.SolvePolicies(true)","a.network.SolvePolicies(false)"))
bug("st-late",(AP,"	policy, err := a.network.SolvePolicies(true)\n","	if err := a.updateMarginals(); err != nil {\n		return err\n	}\n	policy, err := a.network.SolvePolicies(true)\n"),(AP,"	err = a.updateMarginals()\n	if err != nil {\n		return err\n	}\n\n	a.createCanvas","	a.createCanvas"))
bug("st-idx",(AP,"a.nodesByName[n.Name] = i","a.nodesByName[n.Name] = i + 1"))
bug("st-pol",(AP,"	for name, f := range policy {\n		idx := a.nodesByName[name]\n		node := a.nodes[idx]\n		node.Node().Factor = &f\n	}\n","	_ = policy\n"))
bug("st-pol2",(AP,"	for name, f := range policy {\n		idx := a.nodesByName[name]\n		node := a.nodes[idx]\n		node.Node().Factor = &f\n	}\n","	var last bbn.Factor\n	for name, f := range policy {\n		idx := a.nodesByName[name]\n		node := a.nodes[idx]\n		last = f\n		node.Node().Factor = &last\n	}\n"))
bug("st-info",(AP,'if a.network.Info() != "" {','if a.network.Info() == "" {'))
bug("st-train",(AP,'if a.trainingFile != "" {','if a.trainingFile != "" && a.noData != "" {'))
ok("st-new",(AP,"	net, err := bbn.FromFile(a.file)\n	if err != nil {\n		return err\n	}\n\n	a.network = net\n	nodes := a.network.Variables()\n\n	if a.trainingFile","	network, err := bbn.FromFile(a.file)\n	if err != nil {\n		return err\n	}\n	nodes := network.Variables()\n	a.network = network\n	net := network\n\n	if a.trainingFile"))
ok("st-len",(AP,'if a.trainingFile != "" {','if len(a.trainingFile) > 0 {'))
ok("st-train",(AP,'''	if a.trainingFile != "" {
		a.network, err = TrainNetwork(net, nodes, a.trainingFile, a.noData, a.csvDelimiter)
		if err != nil {
			return err
		}
	}
''','''	if a.trainingFile != "" {
		if err := a.train(); err != nil {
			return err
		}
	}
'''),(AP,"func (a *App) createCanvas() {",'''func (a *App) train() error {
	trained, err := TrainNetwork(a.network, a.network.Variables(), a.trainingFile, a.noData, a.csvDelimiter)
	if err != nil {
		return err
	}
	a.network = trained
	return nil
}

func (a *App) createCanvas() {'''))
ok("st-append",(AP,'''	a.nodes = make([]Node, len(nodes))
	a.nodesByName = make(map[string]int, len(nodes))
	for i, n := range nodes {
		a.nodes[i] = NewNode(n)
		a.nodesByName[n.Name] = i
	}
''','''	a.nodes = make([]Node, 0, len(nodes))
	a.nodesByName = map[string]int{}
	for _, n := range nodes {
		a.nodesByName[n.Name] = len(a.nodes)
		a.nodes = append(a.nodes, NewNode(n))
	}
'''))
ok("st-wire",(AP,'''	mainPanel.SetInputCapture(a.inputMainPanel)
	a.graph.SetMouseCapture(a.mouseInputGraph)

	a.table.SetInputCapture(a.inputTable)
	a.table.SetMouseCapture(a.mouseInputTable)

	a.help.SetInputCapture(a.inputHelp)
	a.help.SetMouseCapture(a.mouseInputHelp)

	a.info.SetInputCapture(a.inputInfo)
	a.info.SetMouseCapture(a.mouseInputInfo)
''','''	for _, h := range []struct {
		box *tview.Box
		key func(*tcell.EventKey) *tcell.EventKey
	}{{mainPanel.Box, a.inputMainPanel}, {a.table.Box, a.inputTable}, {a.help.Box, a.inputHelp}, {a.info.Box, a.inputInfo}} {
		h.box.SetInputCapture(h.key)
	}
	a.graph.SetMouseCapture(a.mouseInputGraph)
	a.table.SetMouseCapture(a.mouseInputTable)
	a.help.SetMouseCapture(a.mouseInputHelp)
	a.info.SetMouseCapture(a.mouseInputInfo)
'''),(AP,'	"github.com/mlange-42/bbn"\n','	"github.com/gdamore/tcell/v2"\n	"github.com/mlange-42/bbn"\n'))
ok("st-wire2",(AP,'''	mainPanel.SetInputCapture(a.inputMainPanel)
''','''	a.capture(mainPanel)
'''),(AP,'''	a.graph.SetMouseCapture(a.mouseInputGraph)

	a.table.SetInputCapture(a.inputTable)
''',''),(AP,"func (a *App) createCanvas() {",'''func (a *App) capture(mainPanel *tview.Grid) {
	mainPanel.SetInputCapture(func(e *tcell.EventKey) *tcell.EventKey { return a.inputMainPanel(e) })
	graph := a.graph
	graph.SetMouseCapture(a.mouseInputGraph)
	a.table.SetInputCapture(a.inputTable)
}

func (a *App) createCanvas() {'''),(AP,'	"github.com/mlange-42/bbn"\n','	"github.com/gdamore/tcell/v2"\n	"github.com/mlange-42/bbn"\n'))
ok("st-pol",(AP,"		idx := a.nodesByName[name]\n		node := a.nodes[idx]\n		node.Node().Factor = &f\n","		factor := f\n		a.nodes[a.nodesByName[name]].Node().Factor = &factor\n"))
