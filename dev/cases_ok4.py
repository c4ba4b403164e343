def o4(id,*e): case("o4ok-"+id,"OK",*e)
LG="logic/given.go"; LC="logic/count.go"; LO="logic/outcome.go"; LB="logic/bits.go"; LS="logic/simple.go"; AP4="internal/tui/app.go"; UT4="internal/tui/util.go"
# --- ve
o4("restrict",(V3,'''	oldIndex := make([]int, len(f.variables))
	newIndex := make([]int, len(newVars))
	for _, v := range f.data {
		if oldIndex[idx] == observation {
			for j := 0; j < idx; j++ {
				newIndex[j] = oldIndex[j]
			}
			for j := idx + 1; j < len(oldIndex); j++ {
				newIndex[j-1] = oldIndex[j]
			}
			fNew.Set(newIndex, v)
		}

		f.variables.increment(oldIndex)
	}
''','''	oldIndex := make([]int, len(f.variables))
	newIndex := make([]int, len(newVars))
	for i := range fNew.data {
		copy(oldIndex[:idx], newIndex[:idx])
		oldIndex[idx] = observation
		copy(oldIndex[idx+1:], newIndex[idx:])
		fNew.data[i] = f.Get(oldIndex)

		fNew.variables.increment(newIndex)
	}
'''))
o4("restrictrows",(V3,'''	newVars := make([]Variable, 0, len(f.variables)-1)
	idx := -1

	rows := 1
	for i := range f.variables {
		if f.variables[i].id == variable.id {
			idx = i
		} else {
			newVars = append(newVars, f.variables[i])
			rows *= int(f.variables[i].outcomes)
		}
	}

	if idx < 0 {
		panic(fmt.Sprintf("variable %d not in this factor", variable.id))
	}

	fNew := v.CreateFactor(newVars, nil)

	// TODO''','''	idx := slices.IndexFunc(f.variables, func(o Variable) bool { return o.id == variable.id })
	if idx < 0 {
		panic(fmt.Sprintf("variable %d not in this factor", variable.id))
	}
	newVars := slices.Delete(slices.Clone(f.variables), idx, idx+1)

	fNew := v.CreateFactor(newVars, nil)

	// TODO'''))
o4("sumoutgather",(V3,'''		idx := fNew.Index(newIndex)
		fNew.data[idx] += v

		f.variables.increment(oldIndex)
	}

	return fNew
}

// Policy''','''		target := fNew.Index(newIndex)
		fNew.data[target] = fNew.data[target] + v
		_ = f.variables.increment(oldIndex)
	}

	return fNew
}

// Policy'''))
o4("productmaps",(V3,'''		product := 1.0
		for j, fOld := range factors {
			m := maps[j]
			oldIdx := oldIndex[j]
			for k, idx := range m {
				oldIdx[k] = newIndex[idx]
			}
			product *= fOld.Get(oldIdx)
		}
		f.data[i] = product
''','''		f.data[i] = 1.0
		for j := range factors {
			for k := range maps[j] {
				oldIndex[j][k] = newIndex[maps[j][k]]
			}
			f.data[i] *= factors[j].Get(oldIndex[j])
		}
'''))
o4("gatherfn",(V3,'''		product := 1.0
		for j, fOld := range factors {
			m := maps[j]
			oldIdx := oldIndex[j]
			for k, idx := range m {
				oldIdx[k] = newIndex[idx]
			}
			product *= fOld.Get(oldIdx)
		}
		f.data[i] = product
''','''		product := 1.0
		for j, fOld := range factors {
			gather(newIndex, maps[j], oldIndex[j])
			product *= fOld.Get(oldIndex[j])
		}
		f.data[i] = product
'''),(V3,'''		sum := 0.0
		for j, fOld := range factors {
			m := maps[j]
			oldIdx := oldIndex[j]
			for k, idx := range m {
				oldIdx[k] = newIndex[idx]
			}
			sum += fOld.Get(oldIdx)
		}
		f.data[i] = sum
''','''		sum := 0.0
		for j, fOld := range factors {
			gather(newIndex, maps[j], oldIndex[j])
			sum += fOld.Get(oldIndex[j])
		}
		f.data[i] = sum
'''),(V3,"// Product multiplies factors.",'''func gather(from, positions, to []int) {
	for k, idx := range positions {
		to[k] = from[idx]
	}
}

// Product multiplies factors.'''))
o4("normsum",(V3,'''	sum := 0.0
	for _, v := range fNew.data {
		sum += v
	}
	//if sum == 0 {
	//	return fNew
	//}

	for i := range fNew.data {
		fNew.data[i] /= sum
	}
''','''	total := sumOf(fNew.data)
	for i, value := range fNew.data {
		fNew.data[i] = value / total
	}
'''),(V3,"// Normalize normalizes a [Factor].",'''func sumOf(values []float64) float64 {
	sum := 0.0
	for _, value := range values {
		sum += value
	}
	return sum
}

// Normalize normalizes a [Factor].'''))
o4("normforrow",(V3,'''	for i := 0; i < bins; i++ {
		sum := 0.0
		for j := 0; j < values; j++ {
			sum += fNew.data[i*values+j]
		}
		if sum == 0 {
			continue
		}
		for j := 0; j < values; j++ {
			fNew.data[i*values+j] /= sum
		}
	}
''','''	for i := 0; i < bins; i++ {
		row := fNew.data[i*values : (i+1)*values]
		sum := 0.0
		for _, p := range row {
			sum += p
		}
		if sum != 0 {
			for j := range row {
				row[j] /= sum
			}
		}
	}
'''))
o4("rearrswap",(V3,'''	varsEqual := true
	indices := make([]int, len(variables))
	for i, vv := range variables {
		if vv.id != f.variables[i].id {
			varsEqual = false
		}
		idx := slices.Index(f.variables, vv)
		if idx < 0 {
			panic(fmt.Sprintf("variable %d not in original factor", vv.id))
		}
		indices[i] = idx
	}
	if varsEqual {
		return v.CreateFactor(f.variables, append([]float64{}, f.data...))
	}
''','''	indices := make([]int, 0, len(variables))
	for _, vv := range variables {
		idx := slices.Index(f.variables, vv)
		if idx < 0 {
			panic(fmt.Sprintf("variable %d not in original factor", vv.id))
		}
		indices = append(indices, idx)
	}
'''))
o4("evloop",(W3,'''	for _, ev := range evidence {
		ve.restrictEvidence(ev)
	}
''','''	for i := 0; i < len(evidence); i++ {
		ve.restrictEvidence(evidence[i])
	}
'''))
o4("restrictev",(W3,'''	indices := make([]int, 0, len(ve.factors))
	for _, k := range ve.factorIDs() {
		if slices.Contains(ve.factors[k].variables, evidence.Variable) {
			indices = append(indices, k)
		}
	}

	for _, idx := range indices {
		fac := ve.factors[idx]
		delete(ve.factors, idx)

		fac2 := ve.variables.Restrict(fac, evidence.Variable, evidence.Value)

		ve.factors[fac2.id] = &fac2
	}
''','''	for _, id := range ve.factorIDs() {
		old := ve.factors[id]
		if !slices.Contains(old.variables, evidence.Variable) {
			continue
		}
		restricted := ve.variables.Restrict(old, evidence.Variable, evidence.Value)
		ve.factors[restricted.id] = &restricted
		delete(ve.factors, id)
	}
'''))
o4("rmutil",(W3,'''	indices := []int{}

	for k, f := range ve.factors {
		for _, u := range utils {
			if slices.Contains(f.variables, u) {
				indices = append(indices, k)
				break
			}
		}
	}

	for _, idx := range indices {
		delete(ve.factors, idx)
	}
}
''','''	for k, f := range ve.factors {
		if slices.ContainsFunc(utils, func(u Variable) bool { return slices.Contains(f.variables, u) }) {
			delete(ve.factors, k)
		}
	}
}
'''))
o4("removehid",(W3,'''	prod := ve.variables.Product(factors...)
	prod = ve.variables.SumOut(&prod, variable)

	for _, idx := range indices {
		delete(ve.factors, idx)
	}

	ve.eliminated[variable.index] = true
	ve.factors[prod.id] = &prod
''','''	for _, idx := range indices {
		delete(ve.factors, idx)
	}

	prod := ve.variables.Product(factors...)
	summed := ve.variables.SumOut(&prod, variable)
	ve.factors[summed.id] = &summed
	ve.eliminated[variable.index] = true
'''))
o4("degree",(W3,'''	newVars := make([]Variable, 0, len(ve.factors))
	for _, v := range hidden {
		for _, f := range ve.factors {
			if !slices.ContainsFunc(f.variables, func(v2 Variable) bool { return v2.id == v.id }) {
				continue
			}
			for _, vv := range f.variables {
				if !slices.ContainsFunc(newVars, func(v2 Variable) bool { return v2.id == vv.id }) {
					newVars = append(newVars, vv)
				}
			}
		}
		degree := len(newVars)
		newVars = newVars[:0]
		hiddenList[i] = variableDegree{
			Variable: v,
			Degree:   degree,
		}
		i++
	}
''','''	for _, v := range hidden {
		hiddenList[i] = variableDegree{
			Variable: v,
			Degree:   ve.degree(v),
		}
		i++
	}
'''),(W3,"func (ve *VE) getDecisionParents",'''func (ve *VE) degree(v Variable) int {
	neighbours := map[int]bool{}
	for _, f := range ve.factors {
		if !slices.ContainsFunc(f.variables, func(v2 Variable) bool { return v2.id == v.id }) {
			continue
		}
		for _, vv := range f.variables {
			neighbours[vv.id] = true
		}
	}
	return len(neighbours)
}

func (ve *VE) getDecisionParents'''))
o4("vesolve",(W3,'''	if utility {
		if utilityVar == nil {
			ve.sumUtilities()
		} else {
			ve.removeUtilities(utilityVar)
		}
	} else {
		ve.removeUtilities(nil)
	}
''','''	switch {
	case !utility:
		ve.removeUtilities(nil)
	case utilityVar != nil:
		ve.removeUtilities(utilityVar)
	default:
		ve.sumUtilities()
	}
'''))
o4("decparents",(W3,'''	decisions := ve.getDecisions()
	if len(decisions) == 0 {
		return isDecisionParent
	}

	for i := len(decisions) - 1; i >= 0; i-- {
		dec := decisions[i]
		if vars, ok := ve.dependencies[dec]; ok {
			for _, v := range vars {
				isDecisionParent[v.index] = true
			}
		}
		if single {
			break
		}
	}
''','''	decisions := ve.getDecisions()
	if single && len(decisions) > 0 {
		decisions = decisions[len(decisions)-1:]
	}
	for _, dec := range decisions {
		for _, v := range ve.dependencies[dec] {
			isDecisionParent[v.index] = true
		}
	}
'''))
o4("topo",(W3,'''	v := dec[index]
	for id, vars := range deps {
		if id.id == v.id {
			for _, p := range vars {
				if p.NodeType() != DecisionNode {
					continue
				}
				idx := slices.Index(dec, p)
				result = sortTopologicalRecursive(dec, idx, deps, visited, result)
			}
		}
	}
''','''	for _, p := range deps[dec[index]] {
		if p.NodeType() == DecisionNode {
			result = sortTopologicalRecursive(dec, slices.Index(dec, p), deps, visited, result)
		}
	}
'''))
o4("weights",(W3,'''				scaled := f
				if ve.weights != nil {
					ff := ve.variables.Product(scaled, &Factor{data: []float64{ve.weights[i]}})
					scaled = &ff
				}
				indices = append(indices, k)
				factors = append(factors, scaled)
				break
''','''				indices = append(indices, k)
				if ve.weights == nil {
					factors = append(factors, f)
				} else {
					scaled := ve.variables.Product(f, &Factor{data: []float64{ve.weights[i]}})
					factors = append(factors, &scaled)
				}
				break
'''))
o4("newve",(W3,'''	fac := map[int]*Factor{}
	for _, f := range factors {
		fac[f.id] = &f
	}
''','''	fac := make(map[int]*Factor, len(factors))
	for i := range factors {
		f := factors[i]
		fac[f.id] = &f
	}
'''))
# --- network
o4("linkmap",(N3,'''		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })
		if idx < 0 {
			v.Factor = &Factor{For: v.Name}
		} else {
			v.Factor = &n.factors[idx]
		}
''','''		v.Factor = n.findFactor(v.Name)
'''),(N3,"// checkTables checks",'''// findFactor returns the factor for a variable, or an empty one.
func (n *Network) findFactor(name string) *Factor {
	for i := range n.factors {
		if n.factors[i].For == name {
			return &n.factors[i]
		}
	}
	return &Factor{For: name}
}

// checkTables checks'''))
o4("linkloop2",(N3,'''		v.Factor.columns = len(v.Outcomes)
		v.Factor.outcomes = make([]int, len(v.Factor.Given))
		for i, g := range v.Factor.Given {
			n, ok := outcomes[g]
			if !ok {
				return fmt.Errorf("parent variable %s of %s not found", g, v.Name)
			}
			v.Factor.outcomes[i] = n
		}
''','''		f := v.Factor
		f.columns = len(v.Outcomes)
		f.outcomes = make([]int, 0, len(f.Given))
		for _, parent := range f.Given {
			p, ok := varNames[parent]
			if !ok {
				return fmt.Errorf("parent variable %s of %s not found", parent, v.Name)
			}
			f.outcomes = append(f.outcomes, len(p.Outcomes))
		}
'''),(N3,"		outcomes[v.Name] = len(v.Outcomes)\n",""),(N3,"	outcomes := make(map[string]int, len(n.variables))\n",""))
o4("newnet",(N3,'''	err := net.prepareVariables()
	if err != nil {
		return nil, err
	}
	return net, nil
''','''	if err := net.prepareVariables(); err != nil {
		return nil, err
	}
	return net, nil
'''))
o4("policyres",(N3,'''		newVars := make([]ve.Variable, len(variables))
		idx := slices.IndexFunc(
			variables, forVar.VeVariable.Is,
		)

		for i := 0; i < idx; i++ {
			newVars[i] = variables[i]
		}
		for i := idx + 1; i < len(variables); i++ {
			newVars[i-1] = variables[i]
		}
		newVars[len(newVars)-1] = variables[idx]

		f := n.ve.Variables().Rearrange(&f, newVars)

		given := make([]string, len(newVars)-1)
		for i := 0; i < len(newVars)-1; i++ {
			given[i] = n.variables[newVars[i].Id()].Name
		}
''','''		newVars := make([]ve.Variable, 0, len(variables))
		given := make([]string, 0, len(variables)-1)
		for _, v := range variables {
			if forVar.VeVariable.Is(v) {
				continue
			}
			newVars = append(newVars, v)
			given = append(given, n.variables[v.Id()].Name)
		}
		newVars = append(newVars, variables[slices.IndexFunc(variables, forVar.VeVariable.Is)])

		f := n.ve.Variables().Rearrange(&f, newVars)
'''))
o4("steps",(N3,'''	if !stepwise {
		return 1
	}
	decisions := 0
	for i := range n.variables {
		if n.variables[i].NodeType == ve.DecisionNode {
			decisions++
		}
	}
	if decisions == 0 {
		return 1
	}
	return decisions
''','''	decisions := 0
	if stepwise {
		for _, v := range n.variables {
			if v.NodeType == ve.DecisionNode {
				decisions++
			}
		}
	}
	return max(decisions, 1)
'''))
o4("weights2",(N3,'''	utilityNodes := []*Variable{}

	// collect variables for lookup
	for i, v := range n.variables {
		// skip total utility node
		if i == n.totalUtilityIndex {
			continue
		}
		// count utility nodes
		if v.NodeType == ve.UtilityNode {
			utilityNodes = append(utilityNodes, &v)
		}
	}

	var weights []float64
	if n.totalUtilityIndex < 0 {
		return nil, nil
	}
	node := &n.variables[n.totalUtilityIndex]
	table := node.Factor.Table
	parents := node.Factor.Given
	weights = make([]float64, len(utilityNodes))
	for i := range utilityNodes {
		idx := slices.Index(parents, utilityNodes[i].Name)
		if idx < 0 {
			return nil, fmt.Errorf("utility node %s not included in total utility", utilityNodes[i].Name)
		}
		weights[i] = table[idx]
	}
''','''	if n.totalUtilityIndex < 0 {
		return nil, nil
	}
	total := n.variables[n.totalUtilityIndex].Factor
	weights := []float64{}
	for i, v := range n.variables {
		if i == n.totalUtilityIndex || v.NodeType != ve.UtilityNode {
			continue
		}
		idx := slices.Index(total.Given, v.Name)
		if idx < 0 {
			return nil, fmt.Errorf("utility node %s not included in total utility", v.Name)
		}
		weights = append(weights, total.Table[idx])
	}
'''))
o4("tovefactor",(N3,'''		// don't add factors for unsolved decision nodes, but add dependencies
		if forVar.VeVariable.NodeType() == ve.DecisionNode {
			dependencies[forVar.VeVariable] = variables
			continue
		}
		// don't add factors for solved decision nodes, done later
		if forVar.Variable.NodeType == ve.DecisionNode {
			continue
		}
''','''		if forVar.Variable.NodeType == ve.DecisionNode {
			// unsolved decision nodes only add dependencies, factors of solved ones are added later
			if forVar.VeVariable.NodeType() == ve.DecisionNode {
				dependencies[forVar.VeVariable] = variables
			}
			continue
		}
'''))
o4("toev",(N3,'''	i := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == variable })
	if i < 0 || i == n.totalUtilityIndex {
		return nil, fmt.Errorf("evidence variable %s not found", variable)
	}
	outcomes := n.variables[i].Outcomes
	idx := slices.Index(outcomes, value)
	if idx < 0 {
		return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
	}
	probs := make([]float64, len(outcomes))
	probs[idx] = 1.0
	return probs, nil
''','''	for i, v := range n.variables {
		if v.Name != variable || i == n.totalUtilityIndex {
			continue
		}
		idx := slices.Index(v.Outcomes, value)
		if idx < 0 {
			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
		}
		probs := make([]float64, len(v.Outcomes))
		probs[idx] = 1.0
		return probs, nil
	}
	return nil, fmt.Errorf("evidence variable %s not found", variable)
'''))
o4("rowidx",(N3,'''	if len(indices) == 0 {
		return 0, true
	}

	idx := 0
	stride := 1
	for i := len(indices) - 1; i >= 0; i-- {
		if indices[i] < 0 {
			return 0, false
		}
		idx += indices[i] * stride
		stride *= int(f.outcomes[i])
	}

	return idx, true
''','''	if slices.ContainsFunc(indices, func(i int) bool { return i < 0 }) {
		return 0, false
	}
	row := 0
	for i, outcomes := range f.outcomes {
		row = row*outcomes + indices[i]
	}
	return row, true
'''))
# --- training
o4("trainer",(T3,'''	for i, node := range nodes {
		columns := len(node.Outcomes)
		rows := len(node.Factor.Table) / columns
		d := make([][]float64, rows)
		for j := 0; j < rows; j++ {
			d[j] = make([]float64, columns)
		}
		data[i] = d
		counter[i] = make([]int, rows)
''','''	for i, node := range nodes {
		columns := len(node.Outcomes)
		rows := len(node.Factor.Table) / columns
		counter[i] = make([]int, rows)
		data[i] = make([][]float64, rows)
		for j := range data[i] {
			data[i][j] = make([]float64, columns)
		}
'''))
o4("addfn",(T3,'''		indices := t.indices[i]
		t.sample = t.sample[:0]
		for _, idx := range indices {
			t.sample = append(t.sample, sample[idx])
		}
		if utility != nil {
			t.utility = t.utility[:0]
			for _, idx := range indices {
				t.utility = append(t.utility, utility[idx])
			}
		}

		idx, ok := node.Factor.rowIndex(t.sample)
''','''		idx, ok := node.Factor.rowIndex(t.parentSample(i, sample))
'''),(T3,"// UpdateNetwork applies",'''// parentSample collects the sample values of a node's parents.
func (t *Trainer) parentSample(node int, sample []int) []int {
	t.sample = t.sample[:0]
	for _, idx := range t.indices[node] {
		t.sample = append(t.sample, sample[idx])
	}
	return t.sample
}

// UpdateNetwork applies'''))
o4("checkfn",(T3,'''	for i, node := range nodes {
		for j, cnt := range t.counter[i] {
			if cnt == 0 {
				return nil, fmt.Errorf("no samples for node '%s', table row %d", node.Name, j)
			}
		}
	}

	for i''','''	if err := t.checkCounts(nodes); err != nil {
		return nil, err
	}

	for i'''),(T3,"// UpdateNetwork applies",'''func (t *Trainer) checkCounts(nodes []Variable) error {
	for i := range nodes {
		if j := slices.Index(t.counter[i], 0); j >= 0 {
			return fmt.Errorf("no samples for node '%s', table row %d", nodes[i].Name, j)
		}
	}
	return nil
}

// UpdateNetwork applies'''),(T3,'	"math"\n','	"math"\n	"slices"\n'))
o4("trainread",(TT3,'''	for {
		record, err := r.Read()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
''','''	for {
		record, err := r.Read()
		if errors.Is(err, io.EOF) {
			return train.UpdateNetwork()
		} else if err != nil {
			return nil, err
		}
'''),(TT3,'''		train.AddSample(sample, utility)
	}

	return train.UpdateNetwork()
}''','''		train.AddSample(sample, utility)
	}
}'''),(TT3,'	"encoding/csv"\n','	"encoding/csv"\n	"errors"\n'))
o4("prepcols",(TT3,'''		idx := slices.Index(header, node.Name)
		if idx < 0 {
			err = fmt.Errorf("no column '%s' in training data file", node.Name)
			return
		}
		indices[i] = idx
''','''		indices[i] = slices.Index(header, node.Name)
		if indices[i] == -1 {
			return nil, nil, nil, fmt.Errorf("no column '%s' in training data file", node.Name)
		}
'''),(TT3,'''			if o == noData {
				err = fmt.Errorf("no-data value '%s' appears as outcomes of node '%s'", noData, node.Name)
				return
			}
''','''			if o == noData {
				return nil, nil, nil, fmt.Errorf("no-data value '%s' appears as outcomes of node '%s'", noData, node.Name)
			}
'''))
# --- logic
o4("given",(LG,'''	for i = 0; i < rows; i++ {
		isTrue := (i & (1 << (given - 1 - f.Index))) == 0
		if isTrue {
			table[i*2] = 1
		} else {
			table[i*2+1] = 1
		}
	}
	return table, nil
}

type givenNotFactor''','''	mask := uint(1) << (given - 1 - f.Index)
	for i = 0; i < rows; i++ {
		column := uint(0)
		if i&mask != 0 {
			column = 1
		}
		table[i*2+column] = 1
	}
	return table, nil
}

type givenNotFactor'''))
o4("excl",(LG,'''		otherTrue := false
		for j := 0; j < given; j++ {
			if j == f.Index {
				continue
			}
			if (i & (1 << (given - 1 - j))) == 0 {
				otherTrue = true
				break
			}
		}
		if !otherTrue {
			table[i*2] = 1
		} else {
			table[i*2+1] = 1
		}
''','''		table[i*2] = 1
		for j := 0; j < given; j++ {
			if j != f.Index && (i>>(given-1-j))&1 == 0 {
				table[i*2] = 0
				table[i*2+1] = 1
				break
			}
		}
'''))
o4("isnot",(LO,'''	table := make([]float64, f.Length*2)
	for i := 0; i < f.Length; i++ {
		table[i*2] = 1
	}
	table[f.Index*2] = 0
	table[f.Index*2+1] = 1

	return table, nil
''','''	table := make([]float64, f.Length*2)
	for i := 0; i < f.Length; i++ {
		if i == f.Index {
			table[i*2+1] = 1
		} else {
			table[i*2] = 1
		}
	}

	return table, nil
'''))
o4("lessapp",(LO,'''	table := make([]float64, f.Length*2)
	for i := 0; i < f.Index; i++ {
		table[i*2] = 1
	}
	for i := f.Index; i < f.Length; i++ {
		table[i*2+1] = 1
	}

	return table, nil
''','''	table := make([]float64, 0, f.Length*2)
	for i := 0; i < f.Length; i++ {
		if i < f.Index {
			table = append(table, 1, 0)
		} else {
			table = append(table, 0, 1)
		}
	}

	return table, nil
'''))
o4("bits",(LB,'''	max := cols - 1

	var i uint
	for i = 0; i < rows; i++ {
		value := max - i
		table[i*cols+value] = 1
	}
''','''	for i := uint(0); i < rows; i++ {
		table[i*cols+(cols-1-i)] = 1
	}
'''))
o4("boolf",(LS,'''	table := make([]float64, len(arr)*2)
	for i, v := range arr {
		if v {
			table[i*2] = 1
		} else {
			table[i*2+1] = 1
		}
	}
	return table, nil
''','''	table := make([]float64, 0, len(arr)*2)
	for _, v := range arr {
		if v {
			table = append(table, 1, 0)
			continue
		}
		table = append(table, 0, 1)
	}
	return table, nil
'''))
# --- app, cmd
o4("runsplit",(AP4,'''	net, err := bbn.FromFile(a.file)
	if err != nil {
		return err
	}

	a.network = net
	nodes := a.network.Variables()

	if a.trainingFile != "" {
		a.network, err = TrainNetwork(net, nodes, a.trainingFile, a.noData, a.csvDelimiter)
		if err != nil {
			return err
		}
	}

	a.nodes = make''','''	if err := a.loadNetwork(); err != nil {
		return err
	}
	nodes := a.network.Variables()

	a.nodes = make'''),(AP4,"func (a *App) createCanvas() {",'''func (a *App) loadNetwork() error {
	net, err := bbn.FromFile(a.file)
	if err != nil {
		return err
	}
	a.network = net
	if a.trainingFile == "" {
		return nil
	}
	a.network, err = TrainNetwork(net, net.Variables(), a.trainingFile, a.noData, a.csvDelimiter)
	return err
}

func (a *App) createCanvas() {'''))
o4("runpol",(AP4,'''	for name, f := range policy {
		idx := a.nodesByName[name]
		node := a.nodes[idx]
		node.Node().Factor = &f
	}
''','''	for i := range a.nodes {
		node := a.nodes[i].Node()
		if f, ok := policy[node.Name]; ok {
			node.Factor = &f
		}
	}
'''))
o4("wire",(AP4,'''	mainPanel.SetInputCapture(a.inputMainPanel)
	a.graph.SetMouseCapture(a.mouseInputGraph)

	a.table.SetInputCapture(a.inputTable)
	a.table.SetMouseCapture(a.mouseInputTable)

	a.help.SetInputCapture(a.inputHelp)
	a.help.SetMouseCapture(a.mouseInputHelp)

	a.info.SetInputCapture(a.inputInfo)
	a.info.SetMouseCapture(a.mouseInputInfo)
''','''	a.connectInput(mainPanel)
'''),(AP4,"func (a *App) createCanvas() {",'''func (a *App) connectInput(mainPanel *tview.Grid) {
	mainPanel.SetInputCapture(a.inputMainPanel)
	a.table.SetInputCapture(a.inputTable)
	a.help.SetInputCapture(a.inputHelp)
	a.info.SetInputCapture(a.inputInfo)

	a.graph.SetMouseCapture(a.mouseInputGraph)
	a.table.SetMouseCapture(a.mouseInputTable)
	a.help.SetMouseCapture(a.mouseInputHelp)
	a.info.SetMouseCapture(a.mouseInputInfo)
}

func (a *App) createCanvas() {'''))
o4("lastret",(AP4,'''	if err := rooted.Run(); err != nil {
		return err
	}

	return nil
''','''	return rooted.Run()
'''))
o4("canvas",(AP4,'''	a.canvas = make([][]rune, bounds.H)
	a.colors = make([][]Color, bounds.H)
	for i := range a.canvas {
		a.canvas[i] = make([]rune, bounds.W)
		a.colors[i] = make([]Color, bounds.W)
	}
''','''	canvas := make([][]rune, 0, bounds.H)
	colors := make([][]Color, 0, bounds.H)
	for row := 0; row < bounds.H; row++ {
		canvas = append(canvas, make([]rune, bounds.W))
		colors = append(colors, make([]Color, bounds.W))
	}
	a.canvas, a.colors = canvas, colors
'''))
o4("evid",(UT4,'''		parts := strings.Split(entry, "=")
		if len(parts) != 2 {
			return nil, fmt.Errorf("syntax error in evidence")
		}
		ev[parts[0]] = parts[1]
''','''		name, value, found := strings.Cut(entry, "=")
		if !found || strings.Contains(value, "=") {
			return nil, fmt.Errorf("syntax error in evidence")
		}
		ev[name] = value
'''))
o4("inferr",(C3,'''	ev, err := tui.ParseEvidence(evidence)
	if err != nil {
		return nil, nil, nil, err
	}

	nodes := net.Variables()
	tuiNodes := make([]tui.Node, len(nodes))
	for i, n := range nodes {
		tuiNodes[i] = tui.NewNode(n)
	}

	_, err = net.SolvePolicies(true)
	if err != nil {
		return nil, nil, nil, err
	}
''','''	if _, err = net.SolvePolicies(true); err != nil {
		return nil, nil, nil, err
	}

	ev, err := tui.ParseEvidence(evidence)
	if err != nil {
		return nil, nil, nil, err
	}

	nodes := net.Variables()
	tuiNodes := make([]tui.Node, 0, len(nodes))
	for _, n := range nodes {
		tuiNodes = append(tuiNodes, tui.NewNode(n))
	}
'''))
o4("yamlrec",(Y3,'''		variables[i] = Variable{
			Name:     v.Variable,
			NodeType: tp,
			Outcomes: v.Outcomes,
			Position: v.Position,
			Color:    v.Color,
		}
''','''		variable := &variables[i]
		variable.Name = v.Variable
		variable.NodeType = tp
		variable.Outcomes = v.Outcomes
		variable.Position = v.Position
		variable.Color = v.Color
'''))
o4("yamlconv",(Y3,'''		table, err := toTable(&v)
		if err != nil {
			return nil, err
		}

		factors = append(factors, Factor{
			For:   v.Variable,
			Given: v.Given,
			Table: table,
		})
''','''		factor, err := v.toFactor()
		if err != nil {
			return nil, err
		}
		factors = append(factors, factor)
'''),(Y3,"func toTable(",'''func (v *variableYaml) toFactor() (Factor, error) {
	table, err := toTable(v)
	if err != nil {
		return Factor{}, err
	}
	return Factor{For: v.Variable, Given: v.Given, Table: table}, nil
}

func toTable('''))
o4("marshal",(Y3,'''	writer := bytes.Buffer{}
	encoder := yaml.NewEncoder(&writer)
	encoder.SetIndent(2)

	err := encoder.Encode(net)
	if err != nil {
		return nil, err
	}

	return writer.Bytes(), nil
''','''	var writer bytes.Buffer
	encoder := yaml.NewEncoder(&writer)
	encoder.SetIndent(2)
	if err := encoder.Encode(&net); err != nil {
		return nil, err
	}
	return writer.Bytes(), nil
'''))
