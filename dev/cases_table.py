TB="internal/tui/table.go"
def tb(id,*e): case("tb-"+id,"C23",*e)
def to(id,*e): case("tbok-"+id,"OK",*e)
LOOP='''		for i := len(node.Node().Factor.Given) - 1; i > column; i-- {
			parIdx := t.nodesByName[node.Node().Factor.Given[i]]
			par := t.nodes[parIdx]
			stride *= len(par.Node().Outcomes)
		}
'''
SUM='''		sum := 0.0
		for _, v := range values {
			sum += v
		}
'''
tb("ge",(TB,"i > column; i--","i >= column; i--"))
tb("zero",(TB,"len(node.Node().Factor.Given) - 1; i > column","len(node.Node().Factor.Given) - 1; i > column+1"))
tb("before",(TB,LOOP,LOOP.replace("i := len(node.Node().Factor.Given) - 1; i > column; i--","i := 0; i < column; i++")))
tb("own",(TB,"stride *= len(par.Node().Outcomes)","stride *= t.columns\n			_ = par"))
tb("same",(TB,"parIdx := t.nodesByName[node.Node().Factor.Given[i]]","parIdx := t.nodesByName[node.Node().Factor.Given[column]]"))
tb("mod",(TB,"parent.Outcomes[(row/stride)%len(parent.Outcomes)]","parent.Outcomes[(row%stride)%len(parent.Outcomes)]"))
tb("row",(TB,"	row -= 1\n\n	node","	node"),(TB,"values := node.Node().Factor.Table[row*t.columns : (row+1)*t.columns]","values := node.Node().Factor.Table[(row-1)*t.columns : row*t.columns]"))
tb("col",(TB,"if column < len(node.Node().Factor.Given) {","if column <= len(node.Node().Factor.Given)-2 {"))
tb("util",(TB,"if node.Node().NodeType == ve.UtilityNode {","if node.Node().NodeType != ve.ChanceNode {"))
tb("util2",(TB,"if node.Node().NodeType == ve.UtilityNode {","if node.Node().NodeType == ve.DecisionNode {"))
tb("sum",(TB,SUM,SUM.replace("range values","range values[1:]")))
tb("sumall",(TB,SUM,SUM.replace("range values","range node.Node().Factor.Table")))
tb("pct",(TB,"100*values[column-numParents]/sum","values[column-numParents]/sum"))
tb("nopct",(TB,SUM,""),(TB,"100*values[column-numParents]/sum","values[column-numParents]"))
tb("hdr",(TB,'''	header := append([]string{}, nodes[index].Node().Factor.Given...)
	header = append(header, nodes[index].Node().Outcomes...)
''','''	header := append([]string{}, nodes[index].Node().Outcomes...)
	header = append(header, nodes[index].Node().Factor.Given...)
'''))
tb("cols",(TB,"columns := len(forNode.Node().Outcomes)","columns := len(forNode.Node().Outcomes) + 1"))
tb("cnt",(TB,"/t.columns + 1","/t.columns"))
tb("cnt2",(TB,"return len(t.header)","return t.columns"))
tb("dec",(TB,'"%7.3f%%"','"%7.1f%%"'))
tb("val",(TB,'100*values[column-numParents]/sum','100*node.Node().Factor.Table[(row+1)*t.columns-1-(column-numParents)]/sum'))
tb("prow",(TB,'parent := t.nodes[t.nodesByName[node.Node().Factor.Given[column]]].Node()','parent := t.nodes[t.nodesByName[node.Node().Factor.Given[numParents-1-column]]].Node()'))
to("up",(TB,LOOP,LOOP.replace("i := len(node.Node().Factor.Given) - 1; i > column; i--","i := column + 1; i < numParents; i++")))
to("range",(TB,LOOP,'''		for _, g := range node.Node().Factor.Given[column+1:] {
			stride *= len(t.nodes[t.nodesByName[g]].Node().Outcomes)
		}
'''))
to("cond",(TB,LOOP,'''		for i, g := range node.Node().Factor.Given {
			if i > column {
				stride *= len(t.nodes[t.nodesByName[g]].Node().Outcomes)
			}
		}
'''))
to("helper",(TB,LOOP,"		stride = t.stride(column)\n"),(TB,"func (t *Table) GetRowCount","func (t *Table) stride(column int) int {\n	given := t.nodes[t.index].Node().Factor.Given\n	s := 1\n	for j := len(given) - 1; j >= column+1; j-- {\n		s = s * len(t.nodes[t.nodesByName[given[j]]].Node().Outcomes)\n	}\n	return s\n}\n\nfunc (t *Table) GetRowCount"))
to("direct",(TB,"	values := node.Node().Factor.Table[row*t.columns : (row+1)*t.columns]\n",""),(TB,"values[column-numParents])\n	} else","node.Node().Factor.Table[row*t.columns+column-numParents])\n	} else"),(TB,SUM,'''		start := row * t.columns
		sum := 0.0
		for i := 0; i < t.columns; i++ {
			sum += node.Node().Factor.Table[start+i]
		}
'''),(TB,"100*values[column-numParents]/sum","node.Node().Factor.Table[start+column-numParents]*100/sum"))
to("sumfn",(TB,SUM,"		sum := total(values)\n"),(TB,"func (t *Table) GetRowCount","func total(values []float64) float64 {\n	t := 0.0\n	for i := range values {\n		t += values[i]\n	}\n	return t\n}\n\nfunc (t *Table) GetRowCount"))
to("switch",(TB,"	if row == 0 {\n		cell := tview.NewTableCell(t.header[column])\n		cell.SetAlign(tview.AlignCenter)\n		cell.SetExpansion(1)\n		return cell\n	}\n","	if row < 1 {\n		return tview.NewTableCell(t.header[column]).SetAlign(tview.AlignCenter).SetExpansion(1)\n	}\n"))
to("hdr",(TB,'''	header := append([]string{}, nodes[index].Node().Factor.Given...)
	header = append(header, nodes[index].Node().Outcomes...)
''','''	node := nodes[index].Node()
	header := make([]string, 0, len(node.Factor.Given)+len(node.Outcomes))
	header = append(header, node.Factor.Given...)
	header = append(header, node.Outcomes...)
'''))
to("hdr2",(TB,'''	header := append([]string{}, nodes[index].Node().Factor.Given...)
	header = append(header, nodes[index].Node().Outcomes...)
''','''	header := slices.Concat(nodes[index].Node().Factor.Given, nodes[index].Node().Outcomes)
'''),(TB,'	"fmt"\n','	"fmt"\n	"slices"\n'))
to("hdr3",(TB,'''	header := append([]string{}, nodes[index].Node().Factor.Given...)
	header = append(header, nodes[index].Node().Outcomes...)
''','''	header := []string{}
	for _, g := range nodes[index].Node().Factor.Given {
		header = append(header, g)
	}
	for _, o := range nodes[index].Node().Outcomes {
		header = append(header, o)
	}
'''))
to("own",(TB,'''	forIdx := nodesByName[nodes[index].Node().Factor.For]
	forNode := nodes[forIdx]
	columns := len(forNode.Node().Outcomes)
''','''	columns := len(nodes[index].Node().Outcomes)
'''))
to("lit",(TB,"	return Table{\n		nodes:       nodes,\n		index:       index,\n		nodesByName: nodesByName,\n		header:      header,\n		columns:     columns,\n	}","	var t Table\n	t.nodes, t.index, t.nodesByName = nodes, index, nodesByName\n	t.header = header\n	t.columns = columns\n	return t"))
to("cell",(TB,"	row -= 1\n\n	node := t.nodes[t.index]\n	numParents := len(node.Node().Factor.Given)\n\n	if column < len(node.Node().Factor.Given) {","	row--\n\n	node := t.nodes[t.index]\n	numParents := len(node.Node().Factor.Given)\n	if isParent := column < numParents; isParent {"))
to("fmt",(TB,'text = fmt.Sprintf("%7.3f%%", 100*values[column-numParents]/sum)','v := values[column-numParents] / sum\n		text = fmt.Sprintf("%7.3f%%", v*100)'))
to("iter",(TB,LOOP,'''		r := row
		for i := numParents - 1; i > column; i-- {
			r /= len(t.nodes[t.nodesByName[node.Node().Factor.Given[i]]].Node().Outcomes)
		}
		_ = stride
'''),(TB,"(row/stride)","r"))
to("pre",(TB,LOOP,'''		strides := make([]int, numParents)
		for i := numParents - 1; i >= 0; i-- {
			strides[i] = 1
			if i < numParents-1 {
				strides[i] = strides[i+1] * len(t.nodes[t.nodesByName[node.Node().Factor.Given[i+1]]].Node().Outcomes)
			}
		}
		stride = strides[column]
'''))
to("varcol",(TB,"	columns := len(forNode.Node().Outcomes)\n","	numColumns := len(forNode.Node().Outcomes)\n"),(TB,"columns:     columns","columns:     numColumns"))
to("rowfn",(TB,"	values := node.Node().Factor.Table[row*t.columns : (row+1)*t.columns]\n","	values := t.rowValues(row)\n"),(TB,"func (t *Table) GetRowCount","func (t *Table) rowValues(row int) []float64 {\n	table := t.nodes[t.index].Node().Factor.Table\n	start := row * t.columns\n	return table[start : start+t.columns]\n}\n\nfunc (t *Table) GetRowCount"))
to("early",(TB,"		text = fmt.Sprintf(\"%9.3f\", values[column-numParents])\n	} else {","		return tview.NewTableCell(fmt.Sprintf(\"%9.3f\", values[column-numParents])).SetAlign(tview.AlignRight)\n	}\n	{"))
to("cellfn",(TB,'''	cell := tview.NewTableCell(text)
	cell.SetAlign(tview.AlignRight)
	return cell
}

func (t *Table) GetRowCount''','''	return rightCell(text)
}

func rightCell(text string) *tview.TableCell {
	cell := tview.NewTableCell(text)
	cell.SetAlign(tview.AlignRight)
	return cell
}

func (t *Table) GetRowCount'''))
to("field",(TB,"	columns     int\n}","	columns     int\n	strides     []int\n	rows        int\n}"),(TB,"	return Table{\n","	given := nodes[index].Node().Factor.Given\n	strides := make([]int, len(given))\n	for i, s := len(given)-1, 1; i >= 0; i-- {\n		strides[i] = s\n		s *= len(nodes[nodesByName[given[i]]].Node().Outcomes)\n	}\n	return Table{\n		strides: strides,\n		rows: len(nodes[index].Node().Factor.Table)/columns,\n"),(TB,LOOP,"		stride = t.strides[column]\n"),(TB,"len(t.nodes[t.index].Node().Factor.Table)/t.columns + 1","t.rows + 1"))
to("numpar",(TB,"	columns     int\n}","	columns     int\n	numParents  int\n}"),(TB,"	return Table{\n","	return Table{\n		numParents: len(nodes[index].Node().Factor.Given),\n"),(TB,"numParents := len(node.Node().Factor.Given)","numParents := t.numParents"),(TB,"if column < len(node.Node().Factor.Given) {","if column < numParents {"))
to("nodef",(TB,"	columns     int\n}","	columns     int\n	self        Node\n}"),(TB,"	return Table{\n","	return Table{\n		self: nodes[index],\n"),(TB,"node := t.nodes[t.index]","node := t.self"))
