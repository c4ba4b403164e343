VV="ve/variables.go"; VE="ve/ve.go"; NW="network.go"; YM="yml.go"; XM="xml.go"; TR="training.go"
SO="internal/tui/solve.go"; TT="internal/tui/training.go"; AP="internal/tui/app.go"; IN="internal/tui/input.go"; UT="internal/tui/util.go"
case("ok2-solve-evhelper","OK",(NW,"""	ev := []ve.Evidence{}
	for _, name := range sortedKeys(evidence) {
		value := evidence[name]
		vv, ok := n.variableNames[name]
		if !ok {
			return nil, fmt.Errorf("evidence variable %s not found", name)
		}
		if vv.Variable.NodeType == ve.UtilityNode {
			return nil, fmt.Errorf("evidence variable %s is a utility node", name)
		}
		idx := slices.Index(vv.Variable.Outcomes, value)
		if idx < 0 {
			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
		}
		ev = append(ev, ve.Evidence{Variable: vv.VeVariable, Value: idx})
	}

	q := make([]ve.Variable, len(query))
	for i, name := range query {
		vv, ok := n.variableNames[name]
		if !ok {
			return nil, fmt.Errorf("query variable %s not found", name)
		}
		q[i] = vv.VeVariable
	}
""","""	ev, err := n.collectEvidence(evidence)
	if err != nil {
		return nil, err
	}
	q, err := n.collectQuery(query)
	if err != nil {
		return nil, err
	}
"""),(NW,"// ToEvidence converts","""func (n *Network) collectEvidence(evidence map[string]string) ([]ve.Evidence, error) {
	names := sortedKeys(evidence)
	ev := make([]ve.Evidence, 0, len(names))
	for i := 0; i < len(names); i++ {
		name := names[i]
		vv, found := n.variableNames[name]
		switch {
		case !found:
			return nil, fmt.Errorf("evidence variable %s not found", name)
		case vv.Variable.NodeType == ve.UtilityNode:
			return nil, fmt.Errorf("evidence variable %s is a utility node", name)
		}
		value := evidence[name]
		if idx := slices.Index(vv.Variable.Outcomes, value); idx >= 0 {
			ev = append(ev, ve.Evidence{Variable: vv.VeVariable, Value: idx})
		} else {
			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
		}
	}
	return ev, nil
}

func (n *Network) collectQuery(query []string) ([]ve.Variable, error) {
	q := make([]ve.Variable, 0, len(query))
	for _, name := range query {
		if vv, ok := n.variableNames[name]; ok {
			q = append(q, vv.VeVariable)
			continue
		}
		return nil, fmt.Errorf("query variable %s not found", name)
	}
	return q, nil
}

// ToEvidence converts"""))
case("ok2-utilhelper","OK",(NW,"""	if utility {
		var util *ve.Variable
		if utilityVar != "" {
			u, ok := n.variableNames[utilityVar]
			if !ok {
				return nil, fmt.Errorf("utility query variable %s not found", utilityVar)
			}
			if u.Variable.NodeType != ve.UtilityNode {
				return nil, fmt.Errorf("utility query variable %s is not a utility node", utilityVar)
			}
			util = &u.VeVariable
		}
		return n.ve.SolveUtility(ev, q, util), nil
	} else {
		return n.ve.SolveQuery(ev, q), nil
	}
""","""	if !utility {
		return n.ve.SolveQuery(ev, q), nil
	}
	if utilityVar == "" {
		return n.ve.SolveUtility(ev, q, nil), nil
	}
	u, ok := n.variableNames[utilityVar]
	if !ok {
		return nil, fmt.Errorf("utility query variable %s not found", utilityVar)
	}
	if u.Variable.NodeType != ve.UtilityNode {
		return nil, fmt.Errorf("utility query variable %s is not a utility node", utilityVar)
	}
	return n.ve.SolveUtility(ev, q, &u.VeVariable), nil
"""))
case("ok2-tove-split","OK",(NW,"""		// treat decision variables with policy as normal change variables
		if v.NodeType == ve.DecisionNode {
			if _, ok := n.policies[v.Name]; ok {
				varIDs[i] = variable{
					Variable:   v,
					VeVariable: vars.AddVariable(i, ve.ChanceNode, uint16(len(v.Outcomes))),
				}
				varNames[v.Name] = &varIDs[i]
				continue
			}
		}

		// for all other variables
		varIDs[i] = variable{
			Variable:   v,
			VeVariable: vars.AddVariable(i, v.NodeType, uint16(len(v.Outcomes))),
		}
		varNames[v.Name] = &varIDs[i]
""","""		tp := n.effectiveType(&v)
		varIDs[i] = variable{
			Variable:   v,
			VeVariable: vars.AddVariable(i, tp, uint16(len(v.Outcomes))),
		}
		varNames[v.Name] = &varIDs[i]
"""),(NW,"// prepareUtilityWeights derives","""func (n *Network) effectiveType(v *Variable) ve.NodeType {
	if _, solved := n.policies[v.Name]; solved && v.NodeType == ve.DecisionNode {
		return ve.ChanceNode
	}
	return v.NodeType
}

// prepareUtilityWeights derives"""))
case("ok2-policyresult","OK",(NW,"""		variables := f.Variables()
		forVar := n.variableNames[name]
		newVars := make([]ve.Variable, len(variables))
		idx := slices.IndexFunc(
			variables, forVar.VeVariable.Is,
		)

		for i := 0; i < idx; i++ {
			newVars[i] = variables[i]
		}
		for i := idx + 1; i < len(variables); i++ {
			newVars[i-1] = variables[i]
		}
		newVars[len(newVars)-1] = variables[idx]

		f := n.ve.Variables().Rearrange(&f, newVars)

		given := make([]string, len(newVars)-1)
		for i := 0; i < len(newVars)-1; i++ {
			given[i] = n.variables[newVars[i].Id()].Name
		}

		ff := Factor{
			For:   name,
			Given: given,
			Table: f.Data(),
		}
		result[name] = ff
""","""		result[name] = n.policyResult(name, f)
"""),(NW,"func (n *Network) countDecisionSteps","""func (n *Network) policyResult(name string, f ve.Factor) Factor {
	own := n.variableNames[name].VeVariable
	variables := f.Variables()
	order := make([]ve.Variable, 0, len(variables))
	given := make([]string, 0, len(variables))
	for _, v := range variables {
		if v.Is(own) {
			continue
		}
		order = append(order, v)
		given = append(given, n.variables[v.Id()].Name)
	}
	order = append(order, variables[slices.IndexFunc(variables, own.Is)])
	rearranged := n.ve.Variables().Rearrange(&f, order)
	return Factor{For: name, Given: given, Table: rearranged.Data()}
}

func (n *Network) countDecisionSteps"""))
case("ok2-weights","OK",(NW,"""	utilityNodes := []*Variable{}

	// collect variables for lookup
	for i, v := range n.variables {
		// skip total utility node
		if i == n.totalUtilityIndex {
			continue
		}
		// count utility nodes
		if v.NodeType == ve.UtilityNode {
			utilityNodes = append(utilityNodes, &v)
		}
	}

	var weights []float64
	if n.totalUtilityIndex < 0 {
		return nil, nil
	}
	node := &n.variables[n.totalUtilityIndex]
	table := node.Factor.Table
	parents := node.Factor.Given
	weights = make([]float64, len(utilityNodes))
	for i := range utilityNodes {
		idx := slices.Index(parents, utilityNodes[i].Name)
		if idx < 0 {
			return nil, fmt.Errorf("utility node %s not included in total utility", utilityNodes[i].Name)
		}
		weights[i] = table[idx]
	}

	return weights, nil
""","""	if n.totalUtilityIndex < 0 {
		return nil, nil
	}
	total := n.variables[n.totalUtilityIndex].Factor
	weights := []float64{}
	for i := range n.variables {
		v := &n.variables[i]
		if i == n.totalUtilityIndex || v.NodeType != ve.UtilityNode {
			continue
		}
		idx := slices.Index(total.Given, v.Name)
		if idx < 0 {
			return nil, fmt.Errorf("utility node %s not included in total utility", v.Name)
		}
		weights = append(weights, total.Table[idx])
	}
	return weights, nil
"""))
case("ok2-fromfile","OK",(NW,"""	switch strings.ToLower(ext) {
	case ".yml":
		n, err := FromYAML(data)
		if err != nil {
			return nil, err
		}
		return n, nil
	case ".xml", ".bifxml":
		n, err := FromBIFXML(data)
		if err != nil {
			return nil, err
		}
		return n, nil
	default:
		return nil, fmt.Errorf("unsupported file format '%s'", ext)
	}
""","""	parse, ok := map[string]func([]byte) (*Network, error){
		".yml":    FromYAML,
		".xml":    FromBIFXML,
		".bifxml": FromBIFXML,
	}[strings.ToLower(ext)]
	if !ok {
		return nil, fmt.Errorf("unsupported file format '%s'", ext)
	}
	return parse(data)
"""))
case("ok2-fromfile2","OK",(NW,"""	switch strings.ToLower(ext) {
	case ".yml":
		n, err := FromYAML(data)
		if err != nil {
			return nil, err
		}
		return n, nil
	case ".xml", ".bifxml":
		n, err := FromBIFXML(data)
		if err != nil {
			return nil, err
		}
		return n, nil
	default:
		return nil, fmt.Errorf("unsupported file format '%s'", ext)
	}
""","""	lower := strings.ToLower(ext)
	if lower == ".yml" {
		return FromYAML(data)
	}
	if lower == ".xml" || lower == ".bifxml" {
		return FromBIFXML(data)
	}
	return nil, fmt.Errorf("unsupported file format '%s'", ext)
"""))
case("ok2-prepare","OK",(NW,"""		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })
		if idx < 0 {
			v.Factor = &Factor{For: v.Name}
		} else {
			v.Factor = &n.factors[idx]
		}
""","""		v.Factor = n.factorFor(v.Name)
"""),(NW,"// checkTables checks","""func (n *Network) factorFor(name string) *Factor {
	for i := range n.factors {
		if n.factors[i].For == name {
			return &n.factors[i]
		}
	}
	return &Factor{For: name}
}

// checkTables checks"""))
case("ok2-toevidence","OK",(NW,"""	i := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == variable })
	if i < 0 || i == n.totalUtilityIndex {
		return nil, fmt.Errorf("evidence variable %s not found", variable)
	}
	outcomes := n.variables[i].Outcomes
	idx := slices.Index(outcomes, value)
	if idx < 0 {
		return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
	}
	probs := make([]float64, len(outcomes))
	probs[idx] = 1.0
	return probs, nil
""","""	for i := range n.variables {
		v := &n.variables[i]
		if v.Name != variable || i == n.totalUtilityIndex {
			continue
		}
		probs := make([]float64, len(v.Outcomes))
		for j, o := range v.Outcomes {
			if o == value {
				probs[j] = 1
				return probs, nil
			}
		}
		return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
	}
	return nil, fmt.Errorf("evidence variable %s not found", variable)
"""))
case("ok2-rearrvars","OK",(NW,"""	for i := 0; i < len(variables)-1; i++ {
		idx, ok := n.variableIndex(f, variables[i])
		if !ok {
			panic(fmt.Sprintf("variable %s to rearrange not in factor", variables[i]))
		}
		vars = append(vars, fVariables[idx])
		done[idx] = true
	}

	idx, ok := n.variableIndex(f, variables[len(variables)-1])
	if !ok {
		panic(fmt.Sprintf("variable %s to rearrange not in factor", variables[len(variables)-1]))
	}
	last := fVariables[idx]
""","""	find := func(name string) int {
		idx, ok := n.variableIndex(f, name)
		if !ok {
			panic(fmt.Sprintf("variable %s to rearrange not in factor", name))
		}
		return idx
	}
	tail := len(variables) - 1
	for _, name := range variables[:tail] {
		idx := find(name)
		vars = append(vars, fVariables[idx])
		done[idx] = true
	}
	last := fVariables[find(variables[tail])]
"""))
case("ok2-removehidden","OK",(VE,"""	for _, k := range ve.factorIDs() {
		f := ve.factors[k]
		if slices.ContainsFunc(f.variables, func(v Variable) bool { return v.id == variable.id }) {
			indices = append(indices, k)
""","""	for _, k := range ve.factorIDs() {
		f := ve.factors[k]
		if f.contains(variable) {
			indices = append(indices, k)
"""),("ve/factor.go","// Helper type for","""func (f *Factor) contains(variable Variable) bool {
	for i := range f.variables {
		if f.variables[i].id == variable.id {
			return true
		}
	}
	return false
}

// Helper type for"""))
case("ok2-restrictev","OK",(VE,"""	indices := make([]int, 0, len(ve.factors))
	for _, k := range ve.factorIDs() {
		if slices.Contains(ve.factors[k].variables, evidence.Variable) {
			indices = append(indices, k)
		}
	}

	for _, idx := range indices {
		fac := ve.factors[idx]
		delete(ve.factors, idx)

		fac2 := ve.variables.Restrict(fac, evidence.Variable, evidence.Value)

		ve.factors[fac2.id] = &fac2
	}
""","""	for _, k := range ve.factorIDs() {
		fac := ve.factors[k]
		if !slices.Contains(fac.variables, evidence.Variable) {
			continue
		}
		restricted := ve.variables.Restrict(fac, evidence.Variable, evidence.Value)
		delete(ve.factors, k)
		ve.factors[restricted.id] = &restricted
	}
"""))
case("ok2-multiplyall","OK",(VE,"""	for _, k := range ve.factorIDs() {
		f := ve.factors[k]
		/*hasUtility""","""	ids := ve.factorIDs()
	for i := 0; i < len(ids); i++ {
		f := ve.factors[ids[i]]
		/*hasUtility"""))
case("ok2-solve","OK",(VE,"""	ve.eliminateEvidence(evidence)

	if utility {
		if utilityVar == nil {
			ve.sumUtilities()
		} else {
			ve.removeUtilities(utilityVar)
		}
	} else {
		ve.removeUtilities(nil)
	}
""","""	for i := range evidence {
		ve.restrictEvidence(evidence[i])
	}

	switch {
	case !utility:
		ve.removeUtilities(nil)
	case utilityVar == nil:
		ve.sumUtilities()
	default:
		ve.removeUtilities(utilityVar)
	}
"""),(VE,"""// Eliminate all evidence from all factors
func (ve *VE) eliminateEvidence(evidence []Evidence) {
	for _, ev := range evidence {
		ve.restrictEvidence(ev)
	}
}

""",""))
case("ok2-hidden","OK",(VE,"""	hidden := map[int]Variable{}
	for i, v := range ve.variables.variables {
		if v.NodeType() != ChanceNode || ve.eliminated[i] || isDecisionParent[v.index] {
			continue
		}
		hidden[v.id] = v
	}
	for _, ev := range evidence {
		delete(hidden, ev.Variable.id)
	}
	for _, v := range query {
		delete(hidden, v.id)
	}
""","""	keep := map[int]bool{}
	for _, ev := range evidence {
		keep[ev.Variable.id] = true
	}
	for _, v := range query {
		keep[v.id] = true
	}
	hidden := []Variable{}
	for i, v := range ve.variables.variables {
		if v.NodeType() != ChanceNode || ve.eliminated[i] || isDecisionParent[v.index] || keep[v.id] {
			continue
		}
		hidden = append(hidden, v)
	}
"""))
case("ok2-sort1","OK",(VE,"""	slices.SortFunc(hiddenList, func(a, b variableDegree) int { return cmp.Compare(a.Variable.id, b.Variable.id) })
	slices.SortStableFunc(hiddenList, func(a, b variableDegree) int { return cmp.Compare(a.Degree, b.Degree) })
""","""	slices.SortFunc(hiddenList, func(a, b variableDegree) int {
		if c := cmp.Compare(a.Degree, b.Degree); c != 0 {
			return c
		}
		return cmp.Compare(a.Variable.id, b.Variable.id)
	})
"""))
case("ok2-sumutil","OK",(VE,"""	utils := []Variable{}
	for _, u := range ve.variables.variables {
		if u.NodeType() != UtilityNode {
			continue
		}
		utils = append(utils, u)
	}

	if len(utils) == 0 {
		return
	}

	indices := []int{}
	factors := []*Factor{}
""","""	utils := ve.utilities(nil)
	if len(utils) == 0 {
		return
	}

	indices := []int{}
	factors := []*Factor{}
"""),(VE,"""	utils := []Variable{}
	for _, u := range ve.variables.variables {
		if u.NodeType() == UtilityNode && (except == nil || u.id != except.id) {
			utils = append(utils, u)
		}
	}
""","""	utils := ve.utilities(except)
"""),(VE,"func (ve *VE) sumUtilities() {","""// utilities lists all utility variables but one.
func (ve *VE) utilities(except *Variable) []Variable {
	utils := []Variable{}
	for _, u := range ve.variables.variables {
		if u.NodeType() == UtilityNode && (except == nil || u.id != except.id) {
			utils = append(utils, u)
		}
	}
	return utils
}

func (ve *VE) sumUtilities() {"""))
case("ok2-product-merge","OK",(VV,"""	newVars := []Variable{}
	maps := make([][]int, len(factors))
	for i, f := range factors {
		m := make([]int, len(f.variables))
		for j, v := range f.variables {
			idx := slices.Index(newVars, v)
			if idx < 0 {
				idx = len(newVars)
				newVars = append(newVars, v)
			}
			m[j] = idx
		}
		maps[i] = m
	}
""","""	newVars, maps := mergeVariables(factors)
"""),(VV,"""	newVars := []Variable{}
	maps := make([][]int, len(factors))
	for i, f := range factors {
		m := make([]int, len(f.variables))
		for j, v := range f.variables {
			idx := slices.Index(newVars, v)
			if idx < 0 {
				idx = len(newVars)
				newVars = append(newVars, v)
			}
			m[j] = idx
		}
		maps[i] = m
	}
""","""	newVars, maps := mergeVariables(factors)
"""),(VV,"// Product multiplies factors.","""func mergeVariables(factors []*Factor) ([]Variable, [][]int) {
	newVars := []Variable{}
	maps := make([][]int, 0, len(factors))
	for _, f := range factors {
		m := make([]int, 0, len(f.variables))
		for _, v := range f.variables {
			idx := slices.Index(newVars, v)
			if idx < 0 {
				idx = len(newVars)
				newVars = append(newVars, v)
			}
			m = append(m, idx)
		}
		maps = append(maps, m)
	}
	return newVars, maps
}

// Product multiplies factors."""))
case("ok2-findvar","OK",(VV,"""	idx := -1
	for i := range f.variables {
		if f.variables[i].id == variable.id {
			idx = i
			break
		}
	}

	if idx < 0 {
		panic(fmt.Sprintf("variable %d not in this factor", variable.id))
	}

	newVars := []Variable{variable}
""","""	idx := f.mustIndex(variable)
	newVars := []Variable{variable}
"""),(VV,"""	idx := -1
	for i := range f.variables {
		if f.variables[i].id == variable.id {
			idx = i
			break
		}
	}

	if idx < 0 {
		panic(fmt.Sprintf("variable %d not in this factor", variable.id))
	}

	newVars := make([]Variable, len(f.variables))
""","""	idx := f.mustIndex(variable)

	newVars := make([]Variable, len(f.variables))
"""),("ve/factor.go","// Helper type for","""func (f *Factor) mustIndex(variable Variable) int {
	for i := range f.variables {
		if f.variables[i].id == variable.id {
			return i
		}
	}
	panic(fmt.Sprintf("variable %d not in this factor", variable.id))
}

// Helper type for"""))
case("ok2-normfor","OK",(VV,"""	for i := 0; i < bins; i++ {
		sum := 0.0
		for j := 0; j < values; j++ {
			sum += fNew.data[i*values+j]
		}
		if sum == 0 {
			continue
		}
		for j := 0; j < values; j++ {
			fNew.data[i*values+j] /= sum
		}
	}
""","""	for i := 0; i < bins; i++ {
		normalizeRow(fNew.data[i*values : (i+1)*values])
	}
"""),(VV,"// Invert a [Factor]","""func normalizeRow(row []float64) {
	sum := 0.0
	for _, x := range row {
		sum += x
	}
	if sum == 0 {
		return
	}
	for i := range row {
		row[i] /= sum
	}
}

// Invert a [Factor]"""))
case("ok2-norm","OK",(VV,"""	for i := range fNew.data {
		fNew.data[i] /= sum
	}

	return fNew
}

// NormalizeFor""","""	data := fNew.data
	for i, x := range data {
		data[i] = x / sum
	}

	return fNew
}

// NormalizeFor"""))
case("ok2-policy","OK",(VV,"""		maxUtility := math.Inf(-1)
		for c, u := range rowData {
			if u > maxUtility {
				maxUtility = u
				maxIndices = maxIndices[:1]
				maxIndices[0] = c
			} else if u == maxUtility {
				maxIndices = append(maxIndices, c)
			}
		}
""","""		maxUtility := math.Inf(-1)
		for c, u := range rowData {
			switch {
			case u > maxUtility:
				maxUtility = u
				maxIndices = append(maxIndices[:0], c)
			case u == maxUtility:
				maxIndices = append(maxIndices, c)
			}
		}
"""))
case("ok2-policy2","OK",(VV,"""		maxUtility := math.Inf(-1)
		for c, u := range rowData {
			if u > maxUtility {
				maxUtility = u
				maxIndices = maxIndices[:1]
				maxIndices[0] = c
			} else if u == maxUtility {
				maxIndices = append(maxIndices, c)
			}
		}
""","""		maxUtility := math.Inf(-1)
		for _, u := range rowData {
			if u > maxUtility {
				maxUtility = u
			}
		}
		for c, u := range rowData {
			if u == maxUtility {
				maxIndices = append(maxIndices, c)
			}
		}
"""))
case("ok2-restrict","OK",(VV,"""	for _, v := range f.data {
		if oldIndex[idx] == observation {
			for j := 0; j < idx; j++ {
				newIndex[j] = oldIndex[j]
			}
			for j := idx + 1; j < len(oldIndex); j++ {
				newIndex[j-1] = oldIndex[j]
			}
			fNew.Set(newIndex, v)
		}

		f.variables.increment(oldIndex)
	}
""","""	for i, v := range f.data {
		f.Outcomes(i, oldIndex)
		if oldIndex[idx] != observation {
			continue
		}
		copy(newIndex, oldIndex[:idx])
		copy(newIndex[idx:], oldIndex[idx+1:])
		fNew.Set(newIndex, v)
	}
"""))
case("ok2-sumout","OK",(VV,"""		for j := 0; j < idx; j++ {
			newIndex[j] = oldIndex[j]
		}
		for j := idx + 1; j < len(oldIndex); j++ {
			newIndex[j-1] = oldIndex[j]
		}
		idx := fNew.Index(newIndex)
		fNew.data[idx] += v
""","""		k := 0
		for j, o := range oldIndex {
			if j == idx {
				continue
			}
			newIndex[k] = o
			k++
		}
		fNew.Set(newIndex, fNew.Get(newIndex)+v)
"""))
case("ok2-yaml","OK",(YM,"""		table, err := toTable(&v)
		if err != nil {
			return nil, err
		}

		factors = append(factors, Factor{
			For:   v.Variable,
			Given: v.Given,
			Table: table,
		})
	}
""","""		factor, err := toFactor(&v)
		if err != nil {
			return nil, err
		}
		factors = append(factors, factor)
	}
"""),(YM,"func toTable(v","""func toFactor(v *variableYaml) (Factor, error) {
	table, err := toTable(v)
	if err != nil {
		return Factor{}, err
	}
	return Factor{For: v.Variable, Given: v.Given, Table: table}, nil
}

func toTable(v"""))
case("ok2-totable","OK",(YM,"""	if v.Logic == "" {
		var table []float64
		if len(v.Table) > 0 {
			table = make([]float64, 0, len(v.Table)*len(v.Table[0]))
			for _, row := range v.Table {
				table = append(table, row...)
			}
		}
		return table, nil
	}

	parts := strings.Split(v.Logic, " ")
	l, ok := logic.Get(strings.ToLower(parts[0]))
""","""	if v.Logic == "" {
		return flatten(v.Table), nil
	}
	return logicTable(v)
}

func flatten(rows [][]float64) []float64 {
	var table []float64
	for _, row := range rows {
		table = append(table, row...)
	}
	return table
}

func logicTable(v *variableYaml) ([]float64, error) {
	parts := strings.Split(v.Logic, " ")
	l, ok := logic.Get(strings.ToLower(parts[0]))
"""))
case("ok2-toyaml","OK",(YM,"""		cols := len(v.Outcomes)
		table := make([][]float64, len(v.Factor.Table)/cols)

		for i := range table {
			table[i] = v.Factor.Table[i*cols : (i+1)*cols]
		}
""","""		table := splitRows(v.Factor.Table, len(v.Outcomes))
"""),(YM,"func ToYAML(","""func splitRows(table []float64, cols int) [][]float64 {
	rows := make([][]float64, 0, len(table)/cols)
	for start := 0; start+cols <= len(table); start += cols {
		rows = append(rows, table[start:start+cols])
	}
	return rows
}

func ToYAML("""))
case("ok2-xml","OK",(XM,"""		var table []float64
		if len(tableValues) > 0 {
			table = make([]float64, len(tableValues))
			for i := range table {
				v, err := strconv.ParseFloat(tableValues[i], 64)
				if err != nil {
					return nil, fmt.Errorf("error parsing table value in node '%s' to float", variable.Name)
				}
				table[i] = v
			}
		}
""","""		table, err := parseTable(tableValues, variable.Name)
		if err != nil {
			return nil, err
		}
"""),(XM,"// Search and parse position","""func parseTable(values []string, name string) ([]float64, error) {
	if len(values) == 0 {
		return nil, nil
	}
	table := make([]float64, 0, len(values))
	for _, s := range values {
		x, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return nil, fmt.Errorf("error parsing table value in node '%s' to float", name)
		}
		table = append(table, x)
	}
	return table, nil
}

// Search and parse position"""))
case("ok2-xml-pos","OK",(XM,"""		var err error
		position[0], err = strconv.Atoi(strings.TrimSpace(parts[0]))
		if err != nil {
			return position, fmt.Errorf("error parsing '%s' to integer in property 'position' of node '%s'", parts[0], variable.Name)
		}
		position[1], err = strconv.Atoi(strings.TrimSpace(parts[1]))
		if err != nil {
			return position, fmt.Errorf("error parsing '%s' to integer in property 'position' of node '%s'", parts[1], variable.Name)
		}
		position[0] /= 2
		position[1] /= 12
""","""		scale := [2]int{2, 12}
		for i, part := range parts {
			x, err := strconv.Atoi(strings.TrimSpace(part))
			if err != nil {
				return position, fmt.Errorf("error parsing '%s' to integer in property 'position' of node '%s'", part, variable.Name)
			}
			position[i] = x / scale[i]
		}
"""))
case("ok2-train","OK",(TT,"""		for i, idx := range indices {
			if isUtility[i] {
				var err error
				if record[idx] == noData {
					utility[i] = math.NaN()
					continue
				}
				utility[i], err = strconv.ParseFloat(record[idx], 64)
				if err != nil {
					return nil, fmt.Errorf("unable to parse utility value '%s' to integer in node '%s'", record[idx], nodes[i].Name)
				}

			} else {
				var ok bool
				sample[i], ok = outcomes[i][record[idx]]
				if !ok {
					return nil, fmt.Errorf("outcome '%s' not available in node '%s'", record[idx], nodes[i].Name)
				}
			}
		}
		train.AddSample(sample, utility)
""","""		for i, idx := range indices {
			cell := record[idx]
			switch {
			case !isUtility[i]:
				outcome, ok := outcomes[i][cell]
				if !ok {
					return nil, fmt.Errorf("outcome '%s' not available in node '%s'", cell, nodes[i].Name)
				}
				sample[i] = outcome
			case cell == noData:
				utility[i] = math.NaN()
			default:
				value, err := strconv.ParseFloat(cell, 64)
				if err != nil {
					return nil, fmt.Errorf("unable to parse utility value '%s' to integer in node '%s'", cell, nodes[i].Name)
				}
				utility[i] = value
			}
		}
		train.AddSample(sample, utility)
"""))
case("ok2-train2","OK",(TT,"""		for i, idx := range indices {
			if isUtility[i] {
				var err error
				if record[idx] == noData {
					utility[i] = math.NaN()
					continue
				}
				utility[i], err = strconv.ParseFloat(record[idx], 64)
				if err != nil {
					return nil, fmt.Errorf("unable to parse utility value '%s' to integer in node '%s'", record[idx], nodes[i].Name)
				}

			} else {""","""		for i, idx := range indices {
			if isUtility[i] {
				u, err := parseUtility(record[idx], noData, nodes[i].Name)
				if err != nil {
					return nil, err
				}
				utility[i] = u
			} else {"""),(TT,"func prepare(","""func parseUtility(cell, noData, name string) (float64, error) {
	if cell == noData {
		return math.NaN(), nil
	}
	u, err := strconv.ParseFloat(cell, 64)
	if err != nil {
		return 0, fmt.Errorf("unable to parse utility value '%s' to integer in node '%s'", cell, name)
	}
	return u, nil
}

func prepare("""))
case("ok2-prep","OK",(TT,"""		outcomes[i] = make(map[string]int, len(node.Outcomes))
		for j, o := range node.Outcomes {
			if o == noData {
				err = fmt.Errorf("no-data value '%s' appears as outcomes of node '%s'", noData, node.Name)
				return
			}
			outcomes[i][o] = j
		}
		outcomes[i][noData] = -1
""","""		lookup := make(map[string]int, len(node.Outcomes)+1)
		if slices.Contains(node.Outcomes, noData) {
			err = fmt.Errorf("no-data value '%s' appears as outcomes of node '%s'", noData, node.Name)
			return
		}
		lookup[noData] = -1
		for j, o := range node.Outcomes {
			lookup[o] = j
		}
		outcomes[i] = lookup
"""))
case("ok2-evparse","OK",(UT,"""		parts := strings.Split(entry, "=")
		if len(parts) != 2 {
			return nil, fmt.Errorf("syntax error in evidence")
		}
		ev[parts[0]] = parts[1]
""","""		key, value, ok := strings.Cut(entry, "=")
		if !ok || strings.Contains(value, "=") {
			return nil, fmt.Errorf("syntax error in evidence")
		}
		ev[key] = value
"""))
case("ok2-tuisolve","OK",(SO,"""	for _, q := range queries {
		r, _, err := network.SolveQuery(evidence, []string{q}, ignorePolicies)
		if err != nil {
			return 0, err
		}
		var ok bool
		result[q], ok = r[q]
		if !ok {
			panic(fmt.Sprintf("query variable %s not in result", q))
		}
	}
	return totalProb, nil
""","""	for i := range queries {
		q := queries[i]
		r, _, err := network.SolveQuery(evidence, queries[i:i+1], ignorePolicies)
		if err != nil {
			return 0, err
		}
		probs, ok := r[q]
		if !ok {
			panic(fmt.Sprintf("query variable %s not in result", q))
		}
		result[q] = probs
	}
	return totalProb, nil
"""))
case("ok2-tuiutil","OK",(SO,"""	totalUtility := math.NaN()
	if len(f.Data()) == 1 {
		totalUtility = f.Data()[0]
	}

	totalUtility /= totalProb
""","""	totalUtility := scalar(f) / totalProb
"""),(SO,"""		nodeUtility := math.NaN()
		if len(f.Data()) == 1 {
			nodeUtility = f.Data()[0]
		}

		nodeUtility /= totalProb

		result[n] = []float64{nodeUtility, totalUtility}
""","""		result[n] = []float64{scalar(f) / totalProb, totalUtility}
"""),(SO,"""	totalProb := math.NaN()
	if len(f.Data()) == 1 {
		totalProb = f.Data()[0]
	}
""","""	totalProb := scalar(f)
"""),(SO,"func solveUtility(","""func scalar(f *ve.Factor) float64 {
	if len(f.Data()) != 1 {
		return math.NaN()
	}
	return f.Data()[0]
}

func solveUtility("""))
case("ok2-inputkeys","OK",(IN,"""	if event.Key() == tcell.KeyEsc {
		// Exit program.
		a.app.Stop()
		return nil
	} else if event.Key() == tcell.KeyTAB {
		// Tab through nodes.
		a.selectNextNode()
		return nil
	} else if event.Key() == tcell.KeyBacktab {
		// Tab through nodes, backwards.
		a.selectPreviousNode()
		return nil
	} else if event.Rune() == ' ' {""","""	switch event.Key() {
	case tcell.KeyEsc:
		a.app.Stop()
		return nil
	case tcell.KeyTAB:
		a.selectNextNode()
		return nil
	case tcell.KeyBacktab:
		a.selectPreviousNode()
		return nil
	}
	if event.Rune() == ' ' {"""))
case("ok2-enter","OK",(IN,"""	// Add/clear selected state
	if oldValue, ok := a.evidence[node.Node().Name]; ok {
		if oldValue == value {
			delete(a.evidence, node.Node().Name)
		} else {
			a.evidence[node.Node().Name] = value
		}
	} else {
		a.evidence[node.Node().Name] = value
	}
""","""	name := node.Node().Name
	if old, ok := a.evidence[name]; ok && old == value {
		delete(a.evidence, name)
	} else {
		a.evidence[name] = value
	}
"""))
case("ok2-prev","OK",(IN,"""	a.selectedNode--
	if a.selectedNode < 0 {
		a.selectedNode = len(a.nodes) - 1
	}
	a.selectedState = 0
	a.render(true)
}

func (a *App) selectNodeOutcome""","""	a.selectNode((a.selectedNode + len(a.nodes) - 1) % len(a.nodes))
}

func (a *App) selectNode(i int) {
	a.selectedNode, a.selectedState = i, 0
	a.render(true)
}

func (a *App) selectNodeOutcome"""),(IN,"""	a.selectedNode = (a.selectedNode + 1) % len(a.nodes)
	a.selectedState = 0
	a.render(true)
""","""	a.selectNode((a.selectedNode + 1) % len(a.nodes))
"""))
