# Behaviour-preserving rewrites near the rules that came from mutation testing.
def ok6(id,*e): case("ok6-"+id,"OK",*e)
NFB='''		if sum == 0 {
			continue
		}
		for j := 0; j < values; j++ {
			fNew.data[i*values+j] /= sum
		}
'''
ok6("nf1",(V6,NFB,'''		if sum != 0 {
			for j := 0; j < values; j++ {
				fNew.data[i*values+j] /= sum
			}
		}
'''))
ok6("nf2",(V6,'''		sum := 0.0
		for j := 0; j < values; j++ {
			sum += fNew.data[i*values+j]
		}
'''+NFB,'''		normalizeRow(fNew.data[i*values : (i+1)*values])
'''),(V6,'''// NormalizeFor ''','''func normalizeRow(row []float64) {
	sum := 0.0
	for _, v := range row {
		sum += v
	}
	if sum == 0 {
		return
	}
	for j := range row {
		row[j] /= sum
	}
}

// NormalizeFor '''))
ok6("nf3",(V6,'''	for i := 0; i < bins; i++ {
		sum := 0.0
		for j := 0; j < values; j++ {
			sum += fNew.data[i*values+j]
		}
'''+NFB+'''	}
''','''	for start := 0; start < bins*values; start += values {
		row := fNew.data[start : start+values]
		var sum float64
		for _, p := range row {
			sum += p
		}
		if sum == 0 {
			continue
		}
		for j := range row {
			row[j] = row[j] / sum
		}
	}
'''))
ok6("nf4",(V6,NFB,'''		scale := 1.0
		if sum != 0 {
			scale = sum
		}
		for j := 0; j < values; j++ {
			fNew.data[i*values+j] /= scale
		}
'''))
ok6("nodata1",(F6,'''	for i := len(indices) - 1; i >= 0; i-- {
		if indices[i] == -1 {
			return 0, false
		}
		index += indices[i] * multiplier
		multiplier *= int(v[i].outcomes)
	}

	return index, true
''','''	missing := false
	for i := len(indices) - 1; i >= 0; i-- {
		if indices[i] == -1 {
			missing = true
			break
		}
		index += indices[i] * multiplier
		multiplier *= int(v[i].outcomes)
	}
	if missing {
		return 0, false
	}

	return index, true
'''))
ok6("nodata2",(F6,'''	if len(v) == 0 {
		return 0, true
	}

	index := 0
	multiplier := 1

	for i := len(indices) - 1; i >= 0; i-- {
		if indices[i] == -1 {
			return 0, false
		}
		index += indices[i] * multiplier
		multiplier *= int(v[i].outcomes)
	}

	return index, true
''','''	if slices.Contains(indices, -1) {
		return 0, false
	}
	return v.Index(indices), true
'''),(F6,'''import "fmt"''','''import (
	"fmt"
	"slices"
)'''))
ok6("nodata3",(F6,'''	if len(v) == 0 {
		return 0, true
	}

	index := 0
	multiplier := 1

	for i := len(indices) - 1; i >= 0; i-- {
		if indices[i] == -1 {
			return 0, false
		}
		index += indices[i] * multiplier
		multiplier *= int(v[i].outcomes)
	}
''','''	index := 0
	for i, x := range indices {
		if x == -1 {
			return 0, false
		}
		index = index*int(v[i].outcomes) + x
	}
'''))
TE='''	i := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == variable })
	if i < 0 || i == n.totalUtilityIndex {
		return nil, fmt.Errorf("evidence variable %s not found", variable)
	}
	outcomes := n.variables[i].Outcomes
	idx := slices.Index(outcomes, value)
	if idx < 0 {
		return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
	}
	probs := make([]float64, len(outcomes))
	probs[idx] = 1.0
	return probs, nil
'''
ok6("te1",(N6,TE,'''	for i, v := range n.variables {
		if v.Name != variable || i == n.totalUtilityIndex {
			continue
		}
		for j, o := range v.Outcomes {
			if o == value {
				probs := make([]float64, len(v.Outcomes))
				probs[j] = 1.0
				return probs, nil
			}
		}
		return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
	}
	return nil, fmt.Errorf("evidence variable %s not found", variable)
'''))
ok6("te2",(N6,TE,'''	v := n.findVariable(variable)
	if v == nil {
		return nil, fmt.Errorf("evidence variable %s not found", variable)
	}
	probs := make([]float64, len(v.Outcomes))
	idx := slices.Index(v.Outcomes, value)
	if idx < 0 {
		return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
	}
	probs[idx] = 1.0
	return probs, nil
'''),(N6,'''// toVE creates''','''func (n *Network) findVariable(name string) *Variable {
	for i := range n.variables {
		if i != n.totalUtilityIndex && n.variables[i].Name == name {
			return &n.variables[i]
		}
	}
	return nil
}

// toVE creates'''))
ok6("te3",(N6,TE,'''	i := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == variable })
	if i < 0 || i == n.totalUtilityIndex {
		return nil, fmt.Errorf("evidence variable %s not found", variable)
	}
	outcomes := n.variables[i].Outcomes
	if !slices.Contains(outcomes, value) {
		return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
	}
	probs := make([]float64, len(outcomes))
	probs[slices.Index(outcomes, value)] = 1.0
	return probs, nil
'''))
FN='''	factorNames := map[string]bool{}
	for i := range n.factors {
		if factorNames[n.factors[i].For] {
			return fmt.Errorf("multiple factors for variable %s", n.factors[i].For)
		}
		factorNames[n.factors[i].For] = true
	}
'''
ok6("fn1",(N6,FN,'''	factorNames := make(map[string]struct{}, len(n.factors))
	for _, f := range n.factors {
		if _, dup := factorNames[f.For]; dup {
			return fmt.Errorf("multiple factors for variable %s", f.For)
		}
		factorNames[f.For] = struct{}{}
	}
'''))
ok6("fn2",(N6,FN,'''	for i, f := range n.factors {
		for _, g := range n.factors[:i] {
			if f.For == g.For {
				return fmt.Errorf("multiple factors for variable %s", f.For)
			}
		}
	}
'''))
ok6("fn3",(N6,FN,'''	factorCount := map[string]int{}
	for i := range n.factors {
		factorCount[n.factors[i].For]++
		if factorCount[n.factors[i].For] > 1 {
			return fmt.Errorf("multiple factors for variable %s", n.factors[i].For)
		}
	}
'''))
PP='''		parts := strings.Split(prob, "=")
		if len(parts) != 2 || strings.TrimSpace(parts[0]) != "position" {
			continue
		}
		value := strings.TrimSpace(parts[1])
		value = strings.Trim(value, "()")
		parts = strings.Split(value, ",")
		if len(parts) != 2 {
			return position, fmt.Errorf("syntax error in property 'position' of node '%s'", variable.Name)
		}
'''
ok6("pp1",("xml.go",PP,'''		key, value, found := strings.Cut(prob, "=")
		if !found || strings.Contains(value, "=") || strings.TrimSpace(key) != "position" {
			continue
		}
		value = strings.TrimSpace(value)
		value = strings.Trim(value, "()")
		parts := strings.Split(value, ",")
		if len(parts) != 2 {
			return position, fmt.Errorf("syntax error in property 'position' of node '%s'", variable.Name)
		}
'''))
ok6("pp2",("xml.go",PP,'''		nameValue := strings.Split(prob, "=")
		if len(nameValue) == 2 && strings.TrimSpace(nameValue[0]) == "position" {
			// fall through to parsing
		} else {
			continue
		}
		coords := strings.Trim(strings.TrimSpace(nameValue[1]), "()")
		parts := strings.Split(coords, ",")
		if len(parts) != 2 {
			return position, fmt.Errorf("syntax error in property 'position' of node '%s'", variable.Name)
		}
'''))
ok6("pp3",("xml.go",PP,'''		if !isPosition(prob) {
			continue
		}
		value := strings.Split(prob, "=")[1]
		value = strings.Trim(strings.TrimSpace(value), "()")
		parts := strings.Split(value, ",")
		if len(parts) != 2 {
			return position, fmt.Errorf("syntax error in property 'position' of node '%s'", variable.Name)
		}
'''),("xml.go",'''// Search and parse position''','''func isPosition(prop string) bool {
	parts := strings.Split(prop, "=")
	return len(parts) == 2 && strings.TrimSpace(parts[0]) == "position"
}

// Search and parse position'''))
ok6("tab1",("xml.go",'''		var table []float64
		if len(tableValues) > 0 {
			table = make([]float64, len(tableValues))
			for i := range table {
				v, err := strconv.ParseFloat(tableValues[i], 64)
				if err != nil {
					return nil, fmt.Errorf("error parsing table value in node '%s' to float", variable.Name)
				}
				table[i] = v
			}
		}
''','''		var table []float64
		for _, text := range tableValues {
			v, err := strconv.ParseFloat(text, 64)
			if err != nil {
				return nil, fmt.Errorf("error parsing table value in node '%s' to float", variable.Name)
			}
			table = append(table, v)
		}
'''))
ok6("tab2",("xml.go",'''		var table []float64
		if len(tableValues) > 0 {
			table = make([]float64, len(tableValues))
			for i := range table {
				v, err := strconv.ParseFloat(tableValues[i], 64)
				if err != nil {
					return nil, fmt.Errorf("error parsing table value in node '%s' to float", variable.Name)
				}
				table[i] = v
			}
		}
''','''		table, err := parseTable(variable.Name, tableValues)
		if err != nil {
			return nil, err
		}
'''),("xml.go",'''// Search and parse position''','''func parseTable(name string, values []string) ([]float64, error) {
	if len(values) == 0 {
		return nil, nil
	}
	table := make([]float64, len(values))
	for i, text := range values {
		var err error
		if table[i], err = strconv.ParseFloat(text, 64); err != nil {
			return nil, fmt.Errorf("error parsing table value in node '%s' to float", name)
		}
	}
	return table, nil
}

// Search and parse position'''))
ok6("trainer1",("training.go",'''		idx := make([]int, len(node.Factor.Given))
		for i, n := range node.Factor.Given {
			var ok bool
			idx[i], ok = nodeIndices[n]
			if !ok {
				panic(fmt.Sprintf("parent node %s for %s not found", n, node.Name))
			}
		}
		indices[i] = idx
''','''		parents := node.Factor.Given
		indices[i] = make([]int, 0, len(parents))
		for _, parent := range parents {
			pos, ok := nodeIndices[parent]
			if !ok {
				panic(fmt.Sprintf("parent node %s for %s not found", parent, node.Name))
			}
			indices[i] = append(indices[i], pos)
		}
'''))
ok6("trainer2",("training.go",'''		idx := make([]int, len(node.Factor.Given))
		for i, n := range node.Factor.Given {
			var ok bool
			idx[i], ok = nodeIndices[n]
			if !ok {
				panic(fmt.Sprintf("parent node %s for %s not found", n, node.Name))
			}
		}
		indices[i] = idx
''','''		idx := make([]int, len(node.Factor.Given))
		for j, n := range node.Factor.Given {
			pos := slices.IndexFunc(nodes, func(o Variable) bool { return o.Name == n })
			if pos < 0 {
				panic(fmt.Sprintf("parent node %s for %s not found", n, node.Name))
			}
			idx[j] = pos
		}
		indices[i] = idx
'''),("training.go",'''		nodeIndices[node.Name] = i
''',''''''),("training.go",'''	nodeIndices := make(map[string]int, len(nodes))
	maxColumns := 0
	for i, node := range nodes {
''','''	maxColumns := 0
	for _, node := range nodes {
'''),("training.go",'''import (
	"fmt"
	"math"
''','''import (
	"fmt"
	"math"
	"slices"
'''))
ok6("union1",(V6,'''			idx := slices.Index(newVars, v)
			if idx < 0 {
				idx = len(newVars)
				newVars = append(newVars, v)
			}
			m[j] = idx
		}
		maps[i] = m
	}

	f := v.CreateFactor(newVars, nil)
''','''			idx := slices.Index(newVars, v)
			if idx == -1 {
				newVars = append(newVars, v)
				idx = len(newVars) - 1
			}
			m[j] = idx
		}
		maps[i] = m
	}

	f := v.CreateFactor(newVars, nil)
'''))
ok6("size1",(N6,'''		expected := v.Factor.columns
		if i != n.totalUtilityIndex {
			for _, o := range v.Factor.outcomes {
				expected *= o
			}
		}
		if len(v.Factor.Table) != expected {''','''		expected := len(v.Outcomes)
		if i != n.totalUtilityIndex {
			rows := 1
			for _, o := range v.Factor.outcomes {
				rows *= o
			}
			expected *= rows
		}
		if len(v.Factor.Table) != expected {'''))
ok6("size2",(N6,'''		expected := v.Factor.columns
		if i != n.totalUtilityIndex {
			for _, o := range v.Factor.outcomes {
				expected *= o
			}
		}
		if len(v.Factor.Table) != expected {''','''		rows := 1
		if i != n.totalUtilityIndex {
			for _, o := range v.Factor.outcomes {
				rows *= o
			}
		}
		expected := rows * v.Factor.columns
		if len(v.Factor.Table) != expected {'''))
