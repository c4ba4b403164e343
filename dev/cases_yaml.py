YW="			Position: v.Position,\n			Color:    v.Color,\n			Table:    table,\n"
case("y-color-lower","C11",("yml.go",YW,YW.replace("v.Color","strings.ToLower(v.Color)")))
case("y-given-dropped","C11",("yml.go","		variables[i] = variableYaml{\n			Variable: v.Name,\n			Given:    v.Factor.Given,","		given := v.Factor.Given\n		if v.NodeType == ve.DecisionNode {\n			given = nil\n		}\n		variables[i] = variableYaml{\n			Variable: v.Name,\n			Given:    given,"))
case("y-table-util","C11",("yml.go","		variables[i] = variableYaml{\n			Variable: v.Name,","		if i == network.totalUtilityIndex {\n			table = nil\n		}\n		variables[i] = variableYaml{\n			Variable: v.Name,"))
case("y-skip-total","C11",("yml.go","		cols := len(v.Outcomes)\n		table := make","		if i == network.totalUtilityIndex {\n			continue\n		}\n		cols := len(v.Outcomes)\n		table := make"))
case("y-info","C11",("yml.go","		Info:      network.Info(),\n",""))
case("y-type-swap","C11",("yml.go","	ve.UtilityNode:  UtilityNodeType,\n}","	ve.UtilityNode:  DecisionNodeType,\n}"))
case("y-reader-color","C11",("yml.go","			Color:    v.Color,\n		}\n\n		table, err","			Color:    v.Type,\n		}\n\n		table, err"))
case("y-tag","C11",("yml.go","Color    string      `yaml:\",omitempty\"`","Color    string      `yaml:\"-\"`"))
case("y-window","C11",("yml.go","v.Factor.Table[i*cols : (i+1)*cols]","v.Factor.Table[i*cols : i*cols+cols-1]"))
case("y-window2","C11",("yml.go","v.Factor.Table[i*cols : (i+1)*cols]","v.Factor.Table[i : i+cols]"))
case("y-xml-given","C11",("xml.go","Given: def.Given,","Given: []string{def.For},"))
case("y-xml-outcomes","C11",("xml.go","			Outcomes: variable.Outcomes,","			Outcomes: variable.Properties,"))
case("y-posswap","C11",("yml.go",YW,YW.replace("v.Position","[2]int{v.Position[1], v.Position[0]}")))
case("y-round","C11",("yml.go","			table[i] = v.Factor.Table[i*cols : (i+1)*cols]","			table[i] = make([]float64, cols)\n			for j := range table[i] {\n				table[i][j] = float64(float32(v.Factor.Table[i*cols+j]))\n			}"))
case("y-read-skip","C11",("yml.go","		tp, ok := nodeTypes[v.Type]\n","		if len(v.Outcomes) == 1 && v.Type == \"\" {\n			continue\n		}\n		tp, ok := nodeTypes[v.Type]\n"))
case("y-read-rows","C11",("yml.go","			for _, row := range v.Table {\n","			for _, row := range v.Table[:len(v.Table)-1] {\n"))
case("y-read-trim","C11",("yml.go","			Name:     v.Variable,","			Name:     strings.TrimSpace(v.Variable),"))
case("y-nature-name","C11",("yml.go",'	ChanceNodeType   = "nature"\n	DecisionNodeType = "decision"','	ChanceNodeType   = "decision"\n	DecisionNodeType = "nature"'))
YA="		variables[i] = variableYaml{\n			Variable: v.Name,\n			Given:    v.Factor.Given,\n			Type:     nodeTypeNames[v.NodeType],\n			Outcomes: v.Outcomes,\n			Position: v.Position,\n			Color:    v.Color,\n			Table:    table,\n		}"
case("ok-y-copyrows","OK",("yml.go","			table[i] = v.Factor.Table[i*cols : (i+1)*cols]","			table[i] = append([]float64{}, v.Factor.Table[i*cols:(i+1)*cols]...)"))
case("ok-y-append","OK",("yml.go","	variables := make([]variableYaml, len(network.variables))\n	for i, v := range network.variables {\n		cols","	variables := make([]variableYaml, 0, len(network.variables))\n	for k := range network.variables {\n		v := &network.variables[k]\n		cols"),("yml.go",YA,YA.replace("variables[i] = variableYaml{","variables = append(variables, variableYaml{")+")"))
TN="func typeName(t ve.NodeType) string {\n	switch t {\n	case ve.DecisionNode:\n		return DecisionNodeType\n	case ve.UtilityNode:\n		return UtilityNodeType\n	}\n	return \"\"\n}\n\nfunc ToYAML"
case("ok-y-switch","OK",("yml.go","			Type:     nodeTypeNames[v.NodeType],","			Type:     typeName(v.NodeType),"),("yml.go","func ToYAML",TN))
case("y-switch","C11",("yml.go","			Type:     nodeTypeNames[v.NodeType],","			Type:     typeName(v.NodeType),"),("yml.go","func ToYAML",TN.replace("return UtilityNodeType","return ChanceNodeType")))
case("ok-y-helper","OK",("yml.go",YA,"		variables[i] = toVariableYaml(v, table)"),("yml.go","func ToYAML","func toVariableYaml(v Variable, table [][]float64) variableYaml {\n	out := variableYaml{Variable: v.Name, Outcomes: v.Outcomes}\n	out.Type = nodeTypeNames[v.NodeType]\n	out.Given = v.Factor.Given\n	out.Position = v.Position\n	if v.Color != \"\" {\n		out.Color = v.Color\n	}\n	out.Table = table\n	return out\n}\n\nfunc ToYAML"))
case("ok-y-read-copy","OK",("yml.go","				table = append(table, row...)","				for _, value := range row {\n					table = append(table, value)\n				}"))
case("ok-y-rowindex","OK",("yml.go","		for i := range table {\n			table[i] = v.Factor.Table[i*cols : (i+1)*cols]\n		}","		for r := 0; r < len(table); r++ {\n			start := r * cols\n			table[r] = v.Factor.Table[start : start+cols]\n		}"))
case("ok-y-offset","OK",("yml.go","		for i := range table {\n			table[i] = v.Factor.Table[i*cols : (i+1)*cols]\n		}","		start := 0\n		for i := range table {\n			table[i] = v.Factor.Table[start : start+cols]\n			start += cols\n		}"))
