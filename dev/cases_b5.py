def b5(id,p,*e): case("b5-"+id,p,*e)
N5="network.go"; V5="ve/variables.go"; E5="ve/ve.go"; F5="ve/factor.go"; T5="training.go"; TT5="internal/tui/training.go"; S5="internal/tui/solve.go"
b5("sum-into","C01",(V5,'''	f := v.CreateFactor(newVars, nil)

	oldIndex := make([][]int, len(factors))
	for i, f := range factors {
		oldIndex[i] = make([]int, len(f.variables))
	}

	newIndex := make([]int, len(f.variables))
	for i := range f.data {
		sum := 0.0
''','''	var data []float64
	if len(factors) > 0 && len(factors[0].variables) == len(newVars) {
		data = factors[0].data
	}
	f := v.CreateFactor(newVars, data)

	oldIndex := make([][]int, len(factors))
	for i, f := range factors {
		oldIndex[i] = make([]int, len(f.variables))
	}

	newIndex := make([]int, len(f.variables))
	for i := range f.data {
		sum := 0.0
'''))
b5("norm-one","C01",(V5,'''	fNew := v.CreateFactor(f.variables, append([]float64{}, f.data...))

	sum := 0.0
	for _, v := range fNew.data {
		sum += v
	}
''','''	sum := 0.0
	for _, v := range f.data {
		sum += v
	}
	if sum == 1 {
		return *f
	}
	fNew := v.CreateFactor(f.variables, append([]float64{}, f.data...))
'''))
b5("restrict-vars","C01",(V5,'''	newVars := make([]Variable, 0, len(f.variables)-1)
	idx := -1

	rows := 1
	for i := range f.variables {
		if f.variables[i].id == variable.id {
			idx = i
		} else {''','''	newVars := []Variable(f.variables[:0])
	idx := -1

	rows := 1
	for i := range f.variables {
		if f.variables[i].id == variable.id {
			idx = i
		} else {'''))
b5("weights-norm","C02",(N5,'''		weights[i] = table[idx]
''','''		if table[idx] < 0 {
			table[idx] = 0
		}
		weights[i] = table[idx]
'''))
b5("query-sort","C02",(N5,'''	q := make([]ve.Variable, len(query))
''','''	slices.Sort(query)
	q := make([]ve.Variable, len(query))
'''))
b5("evid-trim","C02",(N5,'''		value := evidence[name]
''','''		value := strings.TrimSpace(evidence[name])
		evidence[name] = value
'''))
b5("policy-alias","C03",(N5,'''		f := n.ve.Variables().Rearrange(&f, newVars)
''','''		if idx != len(variables)-1 {
			f = n.ve.Variables().Rearrange(&f, newVars)
		}
'''))
b5("uniform-shared","C03/C04",(N5,'''	probs := make([]float64, len(outcomes))
	probs[idx] = 1.0
	return probs, nil
}
''','''	if len(outcomes) == 2 {
		return binary[idx], nil
	}
	probs := make([]float64, len(outcomes))
	probs[idx] = 1.0
	return probs, nil
}

var binary = [][]float64{{1, 0}, {0, 1}}
'''))
b5("ve-reuse","C05/C18",(N5,'''	var err error
	n.ve, n.variableNames, err = n.toVE(decisionEvidence)
	if err != nil {
		return nil, err
	}

	ev :=''','''	var err error
	if n.ve == nil || utility || len(decisionEvidence) > 0 {
		n.ve, n.variableNames, err = n.toVE(decisionEvidence)
		if err != nil {
			return nil, err
		}
	}

	ev :='''))
b5("pol-keep","C05",(N5,'''	clear(n.policies)
''','''	if stepwise {
		clear(n.policies)
	}
'''))
b5("pol-evid","C05",(N5,'''		n.ve, n.variableNames, err = n.toVE(nil)
		if err != nil {
			return nil, err
		}
		policies''','''		if n.ve == nil || i > 0 {
			n.ve, n.variableNames, err = n.toVE(nil)
		}
		if err != nil {
			return nil, err
		}
		policies'''))
b5("ids-unsorted","C06",(E5,'''	for id := range ve.factors {
		ids = append(ids, id)
	}
	slices.Sort(ids)
''','''	for id := range ve.factors {
		ids = append(ids, id)
	}
	if len(ids) > 16 {
		slices.Sort(ids)
	}
'''))
b5("deg-map","C06",(E5,'''	slices.SortFunc(hiddenList, func(a, b variableDegree) int { return cmp.Compare(a.Variable.id, b.Variable.id) })
''','''	slices.SortFunc(hiddenList, func(a, b variableDegree) int { return cmp.Compare(a.Variable.outcomes, b.Variable.outcomes) })
'''))
b5("csv-fieldcount","C07",(TT5,'''		if err != nil {
			return nil, err
		}

		for i, idx''','''		if pe, ok := err.(*csv.ParseError); ok && pe.Err == csv.ErrFieldCount {
			continue
		}
		if err != nil {
			return nil, err
		}

		for i, idx'''))
b5("ev-fold","C08",(N5,'''		idx := slices.Index(vv.Variable.Outcomes, value)
		if idx < 0 {
			return nil, fmt''','''		idx := slices.IndexFunc(vv.Variable.Outcomes, func(o string) bool { return strings.EqualFold(o, value) })
		if idx < 0 {
			return nil, fmt'''))
b5("util-type","C08",(N5,'''			if u.Variable.NodeType != ve.UtilityNode {''','''			if u.Variable.NodeType == ve.ChanceNode {'''))
b5("hid-ev-idx","C16",(E5,'''	for _, ev := range evidence {
		delete(hidden, ev.Variable.id)
	}
''','''	for _, ev := range evidence {
		delete(hidden, int(ev.Variable.index))
	}
'''))
b5("weight-zero","C16",(E5,'''				scaled := f
				if ve.weights != nil {''','''				scaled := f
				if ve.weights != nil && ve.weights[i] != 0 {'''))
b5("marg-first","C17",(V5,'''	for _, v := range f.data {
		fNew.data[oldIndex[idx]] += v
		f.variables.increment(oldIndex)
	}
	return fNew''','''	for _, v := range f.data {
		fNew.data[oldIndex[idx]] += v
		if !f.variables.increment(oldIndex) || math.IsInf(v, 0) {
			break
		}
	}
	return fNew'''))
b5("pol-eps","C17",(V5,'''			if u > maxUtility {
				maxUtility = u''','''			if u > maxUtility+1e-12 {
				maxUtility = u'''))
b5("nf-neg","C17",(V5,'''		if sum == 0 {
			continue
		}
		for j''','''		if sum <= 0 {
			continue
		}
		for j'''))
b5("prod-zero","C17",(V5,'''			product *= fOld.Get(oldIdx)
		}
		f.data[i] = product
''','''			product *= fOld.Get(oldIdx)
			if product < 1e-300 {
				break
			}
		}
		f.data[i] = product
'''))
b5("idx-16","C15",(F5,'''	index := 0
	multiplier := 1
	for i := len(indices) - 1; i >= 0; i-- {
		index += indices[i] * multiplier
		multiplier *= int(v[i].outcomes)
	}

	return index
''','''	index := 0
	multiplier := uint16(1)
	for i := len(indices) - 1; i >= 0; i-- {
		index += indices[i] * int(multiplier)
		multiplier *= v[i].outcomes
	}

	return index
'''))
b5("row-window","C15",(N5,'''	return f.Table[idx*f.columns : (idx+1)*f.columns], true''','''	return f.Table[idx*f.columns:], true'''))
b5("nodata-last","C15",(F5,'''		if indices[i] == -1 {
			return 0, false
		}
''','''		if indices[i] == -1 && v[i].outcomes > 1 {
			return 0, false
		}
'''))
b5("tot-by-name","C18",(N5,'''		weights[i] = table[idx]
''','''		weights[i] = table[i]
'''))
b5("pol-chance","C18",(N5,'''				if _, ok := n.policies[vv.Variable.Name]; ok {
					v = v.WithNodeType(ve.ChanceNode)
				}''','''				if vv.Variable.Name == name {
					v = v.WithNodeType(ve.ChanceNode)
				}'''))
b5("ignore-all","C18",(N5,'''		if _, isEvidence := evidence[name]; isEvidence {
			continue
		}
		// collect''','''		if len(evidence) > 0 {
			continue
		}
		// collect'''))
b5("norm-skip","C18",(N5,'''		if forVar.Variable.NodeType == ve.ChanceNode {
			factor =''','''		if forVar.Variable.NodeType == ve.ChanceNode && len(f.Given) > 0 {
			factor ='''))
b5("dup-fold","C21",(N5,'''		if _, ok := varNames[v.Name]; ok {''','''		if _, ok := varNames[v.Name]; ok || v.Name == "" {'''))
b5("cols-given","C21",(N5,'''		expected := v.Factor.columns
		if i != n.totalUtilityIndex {''','''		expected := v.Factor.columns
		if v.NodeType == ve.UtilityNode {
			expected = 1
		}
		if i != n.totalUtilityIndex {'''))
b5("mixed","C21",(N5,'''		if hasUtilParents && hasOtherParents {''','''		if hasUtilParents && hasOtherParents && len(v.Factor.Given) > 2 {'''))
b5("tot-first","C21",(N5,'''		if n.totalUtilityIndex >= 0 {
			return''','''		if n.totalUtilityIndex > 0 {
			return'''))
