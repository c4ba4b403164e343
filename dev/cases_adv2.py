# Second adversarial round, written from the statements of the properties.

VV="ve/variables.go"; VE="ve/ve.go"; VF="ve/factor.go"; NW="network.go"; YM="yml.go"; XM="xml.go"; TR="training.go"
SO="internal/tui/solve.go"; TT="internal/tui/training.go"; AP="internal/tui/app.go"; IN="internal/tui/input.go"; UT="internal/tui/util.go"
LS="logic/simple.go"; LF="logic/factor.go"
# --- C01 ---
case("b01-invert-cond","C01",(VV,"""func (v *Variables) Invert(f *Factor) Factor {
	fNew := v.CreateFactor(f.variables, append([]float64{}, f.data...))
""","""func (v *Variables) Invert(f *Factor) Factor {
	data := f.data
	if len(data) > 1 {
		data = append([]float64{}, f.data...)
	}
	fNew := v.CreateFactor(f.variables, data)
"""))
case("b01-copy-helper","C01",(VV,"""	if varsEqual {
		return v.CreateFactor(f.variables, append([]float64{}, f.data...))
	}
""","""	if varsEqual {
		return v.CreateFactor(f.variables, append(f.data[:0:len(f.data)], f.data...))
	}
"""))
case("b01-scratch-vars","C01",(VV,"""	newVars := make([]Variable, 0, len(f.variables)-1)
	idx := -1

	rows := 1
	for i := range f.variables {
		if f.variables[i].id == variable.id {
			idx = i
		} else {
			newVars = append(newVars, f.variables[i])
			rows *= int(f.variables[i].outcomes)
		}
	}

	if idx < 0 {
		panic(fmt.Sprintf("variable %d not in this factor", variable.id))
	}

	fNew := v.CreateFactor(newVars, nil)

	oldIndex := make([]int, len(f.variables))
	newIndex := make([]int, len(newVars))

	for _, v := range f.data {
""","""	newVars := f.variables[:0]
	idx := -1

	for i := range f.variables {
		if f.variables[i].id == variable.id {
			idx = i
		} else {
			newVars = append(newVars, f.variables[i])
		}
	}

	if idx < 0 {
		panic(fmt.Sprintf("variable %d not in this factor", variable.id))
	}

	fNew := v.CreateFactor(newVars, nil)

	oldIndex := make([]int, len(f.variables))
	newIndex := make([]int, len(newVars))

	for _, v := range f.data {
"""))
case("b01-network-rearrange","C01",(NW,"""	vars := n.rearrangeVariables(f, variables)
	return n.ve.Variables().Rearrange(f, vars)""","""	vars := n.rearrangeVariables(f, variables)
	if len(vars) == 1 {
		return *f
	}
	return n.ve.Variables().Rearrange(f, vars)"""))
case("b01-normutil","C01",(NW,"""	inv := n.ve.Variables().Invert(probs)
""","""	for i, p := range probs.Data() {
		if p == 0 {
			probs.Data()[i] = 1
		}
	}
	inv := n.ve.Variables().Invert(probs)
"""))
case("b01-outcomes-write","C01",(VF,"""	idx, ln := f.RowIndex(indices)
	return f.data[idx : idx+ln]""","""	idx, ln := f.RowIndex(indices)
	for len(f.data) < idx+ln {
		f.data = append(f.data, 0)
	}
	return f.data[idx : idx+ln]"""))
case("b01-product-empty","C01",(VV,"""	newIndex := make([]int, len(f.variables))
	for i := range f.data {
		product := 1.0""","""	newIndex := make([]int, len(f.variables))
	if len(factors) == 2 && len(factors[1].variables) == 0 {
		// Scaling by a constant.
		f.data = factors[0].data
		for i := range f.data {
			f.data[i] *= factors[1].data[0]
		}
		return f
	}
	for i := range f.data {
		product := 1.0"""))
case("b01-policy-ties","C01",(VV,"""		maxUtility := math.Inf(-1)
""","""		if math.IsNaN(rowData[0]) {
			f.Set(oldIndex, 0)
		}
		maxUtility := math.Inf(-1)
"""))
# --- C02 ---
case("b02-clip-table","C02",(NW,"""		// append primary variable as last variable of the factor
""","""		for k := range f.Table {
			f.Table[k] = max(f.Table[k], -1e300)
		}

		// append primary variable as last variable of the factor
"""))
case("b02-outcomes-sorted","C02",(YM,"""		cols := len(v.Outcomes)
		table :=""","""		cols := len(v.Outcomes)
		if v.NodeType == ve.UtilityNode {
			slices.Sort(v.Outcomes)
		}
		table :="""),(YM,'	"fmt"\n','	"fmt"\n	"slices"\n'))
case("b02-total-index","C02",(NW,"""	if n.totalUtilityIndex < 0 {
		return nil, nil
	}
	node :=""","""	if n.totalUtilityIndex < 0 {
		return nil, nil
	}
	if len(utilityNodes) == 1 {
		n.totalUtilityIndex = -1
		return nil, nil
	}
	node :="""))
case("b02-append-given","C02",(NW,"""		variables := make([]ve.Variable, len(f.Given))
		for j, v := range f.Given {
""","""		variables := make([]ve.Variable, len(f.Given))
		for j, v := range f.Given {
			f.Given[j] = strings.TrimSpace(v)
"""))
case("b02-cb-variables","C02",(SO,"""	for _, q := range queries {
		r, _,""","""	for i := range network.Variables() {
		if v := &network.Variables()[i]; v.Color == "" {
			v.Color = "white"
		}
	}

	for _, q := range queries {
		r, _,"""))
case("b02-policy-in-query","C02",(NW,"""	var err error
	n.ve, n.variableNames, err = n.toVE(decisionEvidence)
	if err != nil {
		return nil, err
	}

	ev :=""","""	if ignorePolicies && len(evidence) == 0 {
		n.policies = map[string]ve.Factor{}
	}

	var err error
	n.ve, n.variableNames, err = n.toVE(decisionEvidence)
	if err != nil {
		return nil, err
	}

	ev :="""))
case("b02-trainer-rows","C02",(TR,"""		rows := len(node.Factor.Table) / columns
		d := make""","""		if node.Factor.Table == nil {
			node.Factor.Table = make([]float64, columns)
		}
		rows := len(node.Factor.Table) / columns
		d := make"""))
case("b02-restrict-shared","C02",(VE,"""		fac := ve.factors[idx]
		delete(ve.factors, idx)
""","""		fac := ve.factors[idx]
		delete(ve.factors, idx)
		if len(fac.variables) == 1 {
			for i := range fac.data {
				if i != evidence.Value {
					fac.data[i] = 0
				}
			}
		}
"""))
case("b02-weight-inplace","C02",(VE,"""				if ve.weights != nil {
					ff""","""				if ve.weights != nil && ve.weights[i] == 0 {
					clear(f.data)
				} else if ve.weights != nil {
					ff"""))
case("b02-normfor-skip","C02",(VE,"""	f := ve.variables.Product(factors...)
	ve.factors[f.id] = &f

	return &f""","""	f := ve.variables.Product(factors...)
	if len(factors) == 1 {
		f = *factors[0]
		for i, v := range f.data {
			if v < 1e-300 && v > 0 {
				f.data[i] = 0
			}
		}
	}
	ve.factors[f.id] = &f

	return &f"""))
case("b02-evidence-default","C02",(SO,"""		if _, ok := evidence[n.Node().Name]; ok {
			continue
		}
""","""		if v, ok := evidence[n.Node().Name]; ok {
			if v == "" {
				delete(evidence, n.Node().Name)
			}
			continue
		}
"""))
# --- C03 ---
case("b03-result-first","C03",(NW,"""		m := n.Marginal(f, q)
		n := n.Normalize(&m)
		result[q] = n.Data()""","""		if len(f.Variables()) == 1 {
			norm := n.Normalize(f)
			*f = norm
			result[q] = norm.Data()
			continue
		}
		m := n.Marginal(f, q)
		n := n.Normalize(&m)
		result[q] = n.Data()"""))
case("b03-policy-table","C03",(NW,"""		f := n.ve.Variables().Rearrange(&f, newVars)
""","""		if idx != len(variables)-1 {
			f = n.ve.Variables().Rearrange(&f, newVars)
		}
"""))
case("b03-evidence-cache","C03",(NW,"""	probs := make([]float64, len(outcomes))
	probs[idx] = 1.0
	return probs, nil""","""	if n.oneHot == nil {
		n.oneHot = map[string][]float64{}
	}
	key := variable + "=" + value
	if probs, ok := n.oneHot[key]; ok {
		return probs, nil
	}
	probs := make([]float64, len(outcomes))
	probs[idx] = 1.0
	n.oneHot[key] = probs
	return probs, nil"""),(NW,"	totalUtilityIndex int                  // Index of the total utility node. -1 if none.\n","	totalUtilityIndex int                  // Index of the total utility node. -1 if none.\n	oneHot            map[string][]float64\n"))
case("b03-tui-total","C03",(SO,"		result[n] = []float64{nodeUtility, totalUtility}","		pair[0], pair[1] = nodeUtility, totalUtility\n		result[n] = pair"),(SO,"	totalUtility /= totalProb\n","	totalUtility /= totalProb\n	pair := make([]float64, 2)\n"))
case("b03-solve-factor","C03",(NW,"""		return n.ve.SolveQuery(ev, q), nil
	}
}""","""		f := n.ve.SolveQuery(ev, q)
		if len(ev) == 0 && len(q) == 1 {
			if p, ok := n.policies[query[0]]; ok && len(p.Variables()) == 1 {
				return &p, nil
			}
		}
		return f, nil
	}
}"""))
case("b03-result-map","C03",(NW,"	result := map[string]Factor{}\n	for name, f","	result := n.results\n	clear(result)\n	for name, f"),(NW,"	totalUtilityIndex int                  // Index of the total utility node. -1 if none.\n","	totalUtilityIndex int                  // Index of the total utility node. -1 if none.\n	results           map[string]Factor\n"),(NW,"		policies:  map[string]ve.Factor{},\n","		policies:  map[string]ve.Factor{},\n		results:   map[string]Factor{},\n"))
# --- C04 ---
case("b04-pool","C04",(VV,"""		data = make([]float64, rows)
	} else {""","""		data = grab(rows)
	} else {"""),(VV,"// NewVariables creates","""var arena []float64

func grab(n int) []float64 {
	if len(arena) < n {
		arena = make([]float64, n+64)
	}
	d := arena[:n:n]
	arena = arena[n:]
	return d
}

// NewVariables creates"""))
case("b04-typecache","C04",(YM,"		tp, ok := nodeTypes[v.Type]\n		if !ok {\n","		tp, ok := nodeTypes[v.Type]\n		if !ok {\n			tp, ok = nodeTypes[strings.ToLower(v.Type)]\n			nodeTypes[v.Type] = tp\n		}\n		if !ok {\n"))
case("b04-lastnet","C04",(NW,"	err := net.prepareVariables()\n","	lastNetwork = net\n	err := net.prepareVariables()\n"),(NW,"// New creates a new","var lastNetwork *Network\n\n// New creates a new"))
case("b04-onceinit","C04",(SO,"	queries := []string{}\n","	once.Do(func() { defaultNodes = nodes })\n	queries := []string{}\n"),(SO,"func Solve(","var once sync.Once\nvar defaultNodes []Node\n\nfunc Solve("),(SO,'	"math"\n','	"math"\n	"sync"\n'))
case("b04-shared-names","C04",(NW,"	varNames := map[string]*variable{}\n","	varNames := sharedNames\n	clear(varNames)\n"),(NW,"// toVE creates a","var sharedNames = map[string]*variable{}\n\n// toVE creates a"))
case("b04-color-reg","C04",("internal/tui/node.go","		color, ok = NamedColors[n.Color]\n","		color, ok = NamedColors[n.Color]\n		if !ok {\n			color, ok = NamedColors[strings.ToLower(n.Color)]\n			NamedColors[n.Color] = color\n		}\n"))
# --- C05 ---
case("b05-names-stale","C05",(NW,"""	for _, name := range sortedKeys(evidence) {
		value := evidence[name]
""","""	for _, name := range sortedKeys(evidence) {
		value := evidence[name]
		if prev, ok := n.lastEvidence[name]; ok && value == "" {
			value = prev
		}
"""),(NW,"	totalUtilityIndex int                  // Index of the total utility node. -1 if none.\n","	totalUtilityIndex int                  // Index of the total utility node. -1 if none.\n	lastEvidence      map[string]string\n"),(NW,"	q := make([]ve.Variable, len(query))\n","	n.lastEvidence = evidence\n	q := make([]ve.Variable, len(query))\n"))
case("b05-steps-remaining","C05",(NW,"""		if n.variables[i].NodeType == ve.DecisionNode {
			decisions++
		}
	}
	if decisions""","""		if n.variables[i].NodeType == ve.DecisionNode {
			if _, ok := n.policies[n.variables[i].Name]; !ok {
				decisions++
			}
		}
	}
	if decisions"""),(NW,"	clear(n.policies)\n\n	decisions := n.countDecisionSteps(stepwise)\n","	decisions := n.countDecisionSteps(stepwise)\n	clear(n.policies)\n"))
case("b05-solved-flag","C05",(NW,"	clear(n.policies)\n\n	decisions := n","	if !n.solved {\n		clear(n.policies)\n	}\n	n.solved = !stepwise\n\n	decisions := n"),(NW,"	totalUtilityIndex int                  // Index of the total utility node. -1 if none.\n","	totalUtilityIndex int                  // Index of the total utility node. -1 if none.\n	solved            bool\n"))
case("b05-ignore-sticky","C05",(NW,"	var decisionEvidence map[string]string\n	if ignorePolicies {\n","	n.ignore = n.ignore || ignorePolicies\n	var decisionEvidence map[string]string\n	if n.ignore {\n"),(NW,"	totalUtilityIndex int                  // Index of the total utility node. -1 if none.\n","	totalUtilityIndex int                  // Index of the total utility node. -1 if none.\n	ignore            bool\n"))
case("b05-reuse-ve-util","C05",(NW,"""	var err error
	n.ve, n.variableNames, err = n.toVE(decisionEvidence)
	if err != nil {
		return nil, err
	}

	ev :=""","""	if n.ve == nil || !utility {
		var err error
		n.ve, n.variableNames, err = n.toVE(decisionEvidence)
		if err != nil {
			return nil, err
		}
	}

	ev :="""))
case("b05-merge-policies","C05",(NW,"				n.policies[name] = *p[1]\n","				if _, ok := n.policies[name]; !ok {\n					n.policies[name] = *p[1]\n				}\n"),(NW,"	clear(n.policies)\n\n	decisions","	if stepwise {\n		clear(n.policies)\n	}\n\n	decisions"))
case("b05-evidence-err","C05",(NW,"	if i < 0 || i == n.totalUtilityIndex {\n","	if i < 0 || i == n.totalUtilityIndex || (n.ve != nil && n.variableNames[variable] == nil) {\n"))
case("b05-clear-late","C05",(NW,"	clear(n.policies)\n\n	decisions := n.countDecisionSteps(stepwise)\n	for i := 0; i < decisions; i++ {\n		var err error\n		n.ve, n.variableNames, err = n.toVE(nil)\n		if err != nil {\n			return nil, err\n		}\n","	decisions := n.countDecisionSteps(stepwise)\n	for i := 0; i < decisions; i++ {\n		var err error\n		n.ve, n.variableNames, err = n.toVE(nil)\n		if err != nil {\n			return nil, err\n		}\n		if i == 0 {\n			clear(n.policies)\n		}\n"))
# --- C06 ---
case("b06-ev-order","C06",(NW,"	for _, name := range sortedKeys(evidence) {\n		value := evidence[name]\n","	for name, value := range evidence {\n"))
case("b06-pol-order","C06",(NW,"	for _, name := range sortedKeys(n.policies) {\n		f := n.policies[name]\n","	for name, f := range n.policies {\n"))
case("b06-hidden-sort","C06",(VE,"	slices.SortFunc(hiddenList, func(a, b variableDegree) int { return cmp.Compare(a.Variable.id, b.Variable.id) })\n","	slices.SortFunc(hiddenList, func(a, b variableDegree) int { return cmp.Compare(a.Variable.outcomes, b.Variable.outcomes) })\n"))
case("b06-err-which","C06",(SO,"	for _, q := range queries {\n		r, _,","	order := map[string]struct{}{}\n	for _, q := range queries {\n		order[q] = struct{}{}\n	}\n	for q := range order {\n		r, _,"))
case("b06-topo-first","C06",(VE,"	for i := range dec {\n		result = sortTop","	order := map[int]bool{}\n	for i := range dec {\n		order[i] = true\n	}\n	for i := range order {\n		result = sortTop"))
case("b06-remove-any","C06",(VE,"""	for _, k := range ve.factorIDs() {
		f := ve.factors[k]
		if slices.ContainsFunc(f.variables, func(v Variable) bool { return v.id == variable.id }) {
			indices""","""	for k, f := range ve.factors {
		if slices.ContainsFunc(f.variables, func(v Variable) bool { return v.id == variable.id }) {
			indices"""))
case("b06-seed","C06",(VE,"	for i := len(decisions) - 1; i >= 0; i-- {\n		dec := decisions[i]\n		factors =","	if len(decisions) > 2 && rand.IntN(2) == 0 {\n		slices.Reverse(decisions[:2])\n	}\n	for i := len(decisions) - 1; i >= 0; i-- {\n		dec := decisions[i]\n		factors ="),(VE,'	"fmt"\n','	"fmt"\n	"math/rand/v2"\n'))
case("b06-default-pick","C06",(AP,"	for name, f := range policy {\n","	for name := range policy {\n		a.selectedNode = a.nodesByName[name]\n	}\n	for name, f := range policy {\n"))
case("b06-prod-map","C06",(VE,"""	factors := make([]*Factor, 0, len(ve.factors))
	//utilityFactors := []*Factor{}
	for _, k := range ve.factorIDs() {
		f := ve.factors[k]
		/*hasU""","""	factors := make([]*Factor, 0, len(ve.factors))
	//utilityFactors := []*Factor{}
	for _, f := range ve.factors {
		/*hasU"""))
case("b06-sort-len","C06",(VE,"	slices.Sort(ids)\n","	slices.SortFunc(ids, func(a, b int) int { return cmp.Compare(len(ve.factors[a].data), len(ve.factors[b].data)) })\n"))
# --- C07 ---
case("b07-shadow","C07",(SO,"""	totalProb, err := solveQueries(network, evidence, queries, ignorePolicies, result)
	if err != nil {
		return nil, err
	}
""","""	totalProb, err := solveQueries(network, evidence, queries, ignorePolicies, result)
	if err != nil && len(queries) > 0 {
		return nil, err
	}
"""))
case("b07-defer","C07",(IN,"	err = os.WriteFile(saveFile, yml, 0644)\n	if err != nil {\n		panic(err)\n	}","	if err = os.WriteFile(saveFile, yml, 0644); err != nil && !os.IsPermission(err) {\n		panic(err)\n	}"))
case("b07-yamlempty","C07",(YM,"	err := decoder.Decode(&net)\n	if err != nil {\n","	err := decoder.Decode(&net)\n	if err != nil && err != io.EOF {\n"),(YM,'	"fmt"\n','	"fmt"\n	"io"\n'))
case("b07-xmlfloat","C07",(XM,"				if err != nil {\n					return nil, fmt.Errorf(\"error parsing table","				if err != nil && !math.IsInf(v, 0) {\n					return nil, fmt.Errorf(\"error parsing table"),(XM,'	"fmt"\n','	"fmt"\n	"math"\n'))
case("b07-recover","C07",(NW,"func (n *Network) SolveUtility(evidence map[string]string, query []string, utilityVar string, ignorePolicies bool) (*ve.Factor, error) {\n","func (n *Network) SolveUtility(evidence map[string]string, query []string, utilityVar string, ignorePolicies bool) (*ve.Factor, error) {\n	defer func() { _ = recover() }()\n"))
case("b07-joinerr","C07",(NW,"	weights, err := n.prepareUtilityWeights()\n	if err != nil {\n		return nil, nil, err\n	}\n","	weights, err := n.prepareUtilityWeights()\n	if err != nil {\n		weights = nil\n	}\n"))
case("b07-trainerr","C07",(AP,"		a.network, err = TrainNetwork(net, nodes, a.trainingFile, a.noData, a.csvDelimiter)\n		if err != nil {\n			return err\n		}\n","		trained, err := TrainNetwork(net, nodes, a.trainingFile, a.noData, a.csvDelimiter)\n		if err == nil {\n			a.network = trained\n		}\n"))
case("b07-errorder","C07",(NW,"	if err := n.prepareUtilityNodes(varNames); err != nil {\n		return err\n	}\n	return n.checkTables()","	err := n.prepareUtilityNodes(varNames)\n	if e := n.checkTables(); e != nil || len(n.variables) > 64 {\n		err = e\n	}\n	return err"))
case("b07-silent-mouse","C07",(IN,"					if err := a.inputEnter(); err != nil {\n						panic(err)\n					}\n","					if err := a.inputEnter(); err != nil {\n						break\n					}\n"))
case("b07-exit0","C07",("cmd/bbni/main.go","		os.Exit(1)\n","		os.Exit(len(os.Args) / 100)\n")) 
case("b07-toyaml","C07",("cmd/bbn/train.go","			yml, err := bbn.ToYAML(net)\n			if err != nil {\n				return err\n			}\n","			yml, _ := bbn.ToYAML(net)\n"))
case("b07-pos2","C07",(XM,"		position[0], err = strconv.Atoi(strings.TrimSpace(parts[0]))\n		if err != nil {\n			return position, fmt.Errorf(\"error parsing '%s' to integer in property 'position' of node '%s'\", parts[0], variable.Name)\n		}\n","		position[0], err = strconv.Atoi(strings.TrimSpace(parts[0]))\n"))
case("b07-solvepol","C07",("cmd/bbn/inference.go","	_, err = net.SolvePolicies(true)\n	if err != nil {\n		return nil, nil, nil, err\n	}\n\n	result, err :=","	_, perr := net.SolvePolicies(true)\n	if perr != nil && len(ev) == 0 {\n		return nil, nil, nil, perr\n	}\n\n	result, err :="))
case("b07-csvlazy","C07",(TT,"	r.Comma = delimiter\n","	r.Comma = delimiter\n	r.FieldsPerRecord = -1\n	r.LazyQuotes = true\n"))
# --- C08 ---
case("b08-evid-skip","C08",(NW,"		vv, ok := n.variableNames[name]\n		if !ok {\n			return nil, fmt.Errorf(\"evidence variable %s not found\", name)\n		}\n","		vv, ok := n.variableNames[name]\n		if !ok {\n			if len(ev) > 0 {\n				continue\n			}\n			return nil, fmt.Errorf(\"evidence variable %s not found\", name)\n		}\n"))
case("b08-fold","C08",(NW,"		idx := slices.Index(vv.Variable.Outcomes, value)\n","		idx := slices.IndexFunc(vv.Variable.Outcomes, func(o string) bool { return strings.EqualFold(o, value) })\n"))
case("b08-toev-prefix","C08",(NW,"	idx := slices.Index(outcomes, value)\n	if idx < 0 {\n		return nil, fmt.Errorf(\"outcome %s for evidence variable %s not found\", value, variable)\n	}\n	probs","	idx := slices.IndexFunc(outcomes, func(o string) bool { return strings.HasPrefix(o, value) })\n	if idx < 0 {\n		return nil, fmt.Errorf(\"outcome %s for evidence variable %s not found\", value, variable)\n	}\n	probs"))
case("b08-atoi","C08",(NW,"		if idx < 0 {\n			return nil, fmt.Errorf(\"outcome %s for evidence variable %s not found\", value, name)\n		}\n","		if idx < 0 {\n			if k, err := strconv.Atoi(value); err == nil && k < len(vv.Variable.Outcomes) {\n				idx = k\n			} else {\n				return nil, fmt.Errorf(\"outcome %s for evidence variable %s not found\", value, name)\n			}\n		}\n"),(NW,'	"slices"\n','	"slices"\n	"strconv"\n'))
case("b08-util-total","C08",(NW,"			if !ok {\n				return nil, fmt.Errorf(\"utility query variable %s not found\", utilityVar)\n			}\n			if u","			if !ok {\n				return n.ve.SolveUtility(ev, q, nil), nil\n			}\n			if u"))
case("b08-marg-panic","C08",(NW,"		panic(fmt.Sprintf(\"marginal: variable %s not found\", variable))\n","		return *f\n"))
case("b08-rearr-skip","C08",(NW,"		if !ok {\n			panic(fmt.Sprintf(\"variable %s to rearrange not in factor\", variables[i]))\n		}\n","		if !ok {\n			continue\n		}\n"))
case("b08-ext-prefix","C08",(NW,'	case ".xml", ".bifxml":\n','	case ".xml", ".bifxml", "":\n'))
case("b08-split-empty","C08",(UT,'		if len(parts) != 2 {\n			return','		if entry == "" {\n			continue\n		}\n		if len(parts) != 2 {\n			return'))
case("b08-parent-late","C08",(NW,"			if !ok {\n				return fmt.Errorf(\"parent variable %s of %s not found\", g, v.Name)\n			}\n","			if !ok {\n				if v.NodeType != ve.DecisionNode {\n					return fmt.Errorf(\"parent variable %s of %s not found\", g, v.Name)\n				}\n				n = 1\n			}\n"))
case("b08-logic-default","C08",(YM,"	l, ok := logic.Get(strings.ToLower(parts[0]))\n","	l, ok := logic.Get(strings.ToLower(parts[0]))\n	if !ok {\n		l, ok = logic.Get(strings.TrimPrefix(strings.ToLower(parts[0]), \"logic-\"))\n	}\n"))
case("b08-xmltype","C08",(XM,"		tp, ok := nodeTypes[variable.Type]\n		if !ok {\n","		tp, ok := nodeTypes[variable.Type]\n		if !ok && len(variable.Outcomes) < 2 {\n"))
case("b08-cell-util","C08",(TT,"				utility[i], err = strconv.ParseFloat(record[idx], 64)\n				if err != nil {\n","				utility[i], err = strconv.ParseFloat(record[idx], 64)\n				if err != nil && record[idx] == \"NA\" {\n					utility[i] = math.NaN()\n				} else if err != nil {\n"))
case("b08-nodatakey","C08",(TT,"				if !ok {\n					return nil, fmt.Errorf(\"outcome '%s'","				if !ok && record[idx] == \"\" {\n					sample[i] = -1\n				} else if !ok {\n					return nil, fmt.Errorf(\"outcome '%s'"))
case("b08-header-trim","C08",(TT,"		idx := slices.Index(header, node.Name)\n		if idx < 0 {\n","		idx := slices.Index(header, node.Name)\n		if idx < 0 && node.NodeType == ve.UtilityNode {\n			idx = len(header) - 1\n		}\n		if idx < 0 {\n"))
case("b08-query-dup","C08",(NW,"		if !ok {\n			return nil, fmt.Errorf(\"query variable %s not found\", name)\n		}\n		q[i]","		if !ok {\n			if i > 0 {\n				q[i] = q[i-1]\n				continue\n			}\n			return nil, fmt.Errorf(\"query variable %s not found\", name)\n		}\n		q[i]"))
# --- C11 ---
case("b11-omit-pos","C11",(YM,"	Position [2]int      `yaml:\",flow\"`           //","	Position [2]int      `yaml:\"pos,flow\"`        //"))
case("b11-colour-default","C11",(YM,"			Color:    v.Color,\n			Table:    table,","			Color:    yamlColor(v.Color),\n			Table:    table,"),(YM,"func ToYAML(","func yamlColor(c string) string {\n	if c == \"white\" {\n		return \"\"\n	}\n	return c\n}\n\nfunc ToYAML("))
case("b11-given-util","C11",(YM,"			Given:    v.Factor.Given,\n			Type:","			Given:    v.Factor.Given[:min(len(v.Factor.Given), 8)],\n			Type:"))
case("b11-decision-table","C11",(YM,"		variables[i] = variableYaml{\n","		if v.NodeType == ve.DecisionNode {\n			table = nil\n		}\n		variables[i] = variableYaml{\n"))
case("b11-name-trim","C11",(YM,"			Name:     v.Variable,\n			NodeType: tp,","			Name:     strings.TrimSpace(v.Variable),\n			NodeType: tp,"))
case("b11-xml-def","C11",(XM,"			Given: def.Given,\n","			Given: bifNet.Network.Definitions[i].Given,\n"))
case("b11-xml-table-rev","C11",(XM,"				table[i] = v\n","				table[len(table)-1-i] = v\n"))
case("b11-read-info","C11",(YM,"	return New(net.Name, net.Info, variables, factors)","	return New(net.Name, strings.TrimSpace(net.Info), variables, factors)"))
case("b11-neg-pos","C11",(YM,"			Position: v.Position,\n			Color:    v.Color,\n		}\n","			Position: [2]int{max(v.Position[0], 0), max(v.Position[1], 0)},\n			Color:    v.Color,\n		}\n"))
case("b11-type-name","C11",(YM,"			Type:     nodeTypeNames[v.NodeType],\n","			Type:     nodeTypeNames[max(v.NodeType, ve.DecisionNode)],\n"))
case("b11-outcomes-yes","C11",(YM,"			Outcomes: v.Outcomes,\n			Position: v.Position,\n			Color:    v.Color,\n		}\n","			Outcomes: v.Outcomes[:len(v.Outcomes):len(v.Outcomes)],\n			Position: v.Position,\n			Color:    v.Color,\n		}\n		if len(v.Outcomes) == 0 {\n			variables[i].Outcomes = []string{\"yes\", \"no\"}\n		}\n"))
case("b11-logic-lost","C11",(YM,"	if v.Logic == \"\" {\n		var table","	if v.Logic == \"\" || v.Logic == \"none\" {\n		var table"))
# --- C12 ---
case("b12-ev-lower","C12",(UT,"		ev[parts[0]] = parts[1]\n","		ev[parts[0]] = strings.ToLower(parts[1])\n"))
case("b12-ev-space","C12",(UT,"		ev[parts[0]] = parts[1]\n","		ev[strings.TrimSpace(parts[0])] = parts[1]\n"))
case("b12-ev-dup","C12",(UT,"		ev[parts[0]] = parts[1]\n","		if _, ok := ev[parts[0]]; !ok {\n			ev[parts[0]] = parts[1]\n		}\n"))
case("b12-tab","C12",("cmd/bbn/train.go","			delimRunes := []rune(delim)\n","			if delim == \"t\" {\n				delim = \"\\t\"\n			}\n			delimRunes := []rune(delim)\n"))
case("b12-clean-path","C12",("cmd/bbn/train.go","			datafile := args[1]\n","			datafile := strings.TrimSpace(args[1])\n"),("cmd/bbn/train.go",'	"fmt"\n','	"fmt"\n	"strings"\n'))
case("b12-nodata-trim","C12",(TT,"	r.Comma = delimiter\n","	r.Comma = delimiter\n	r.TrimLeadingSpace = true\n"))
case("b12-comment","C12",(TT,"	r.Comma = delimiter\n","	r.Comma = delimiter\n	r.Comment = '#'\n"))
case("b12-nodata-empty","C12",("cmd/bbni/main.go","			a := tui.New(args[0], ev, training, noData, delimRunes[0])\n","			if noData == \"\" {\n				noData = \"NA\"\n			}\n			a := tui.New(args[0], ev, training, noData, delimRunes[0])\n"))
case("b12-semicolon","C12",("cmd/bbni/main.go",'"delim", "d", ","','"delim", "d", ";"'))
case("b12-persist","C12",("cmd/bbn/inference.go","nodes, ev, result, err := runInferenceCommand(args[0], evidence)","nodes, ev, result, err := runInferenceCommand(args[0], evidence[:min(len(evidence), 16)])"))
case("b12-stringarray","C12",("cmd/bbn/inference.go","StringSliceVarP(&evidence","StringArrayVarP(&evidence"))
case("b12-app-swap","C12",(AP,"		trainingFile: trainingFile,\n","		trainingFile: path,\n"))
case("b12-app-ev","C12",(AP,"	if evidence == nil {\n","	if evidence == nil || trainingFile != \"\" {\n"))
case("b12-print-before","C12",("cmd/bbn/train.go","			yml, err := bbn.ToYAML(net)\n			if err != nil {\n				return err\n			}\n\n			fmt.Println(string(yml))","			yml, err := bbn.ToYAML(net)\n			if err != nil {\n				return err\n			}\n			if len(yml) > 1<<20 {\n				yml = yml[:1<<20]\n			}\n\n			fmt.Println(string(yml))"))
# --- C13 ---
case("b13-row-guard","C13",(TR,"		t.counter[i][idx]++\n","		if t.counter[i][idx] < 1<<16 {\n			t.counter[i][idx]++\n		}\n"))
case("b13-util-zero","C13",(TR,"			if math.IsNaN(u) {\n				continue\n			}\n","			if math.IsNaN(u) || u == 0 {\n				continue\n			}\n"))
case("b13-parent-utility","C13",(TR,"			t.sample = append(t.sample, sample[idx])\n","			t.sample = append(t.sample, max(sample[idx], 0))\n"))
case("b13-total-skip","C13",(TR,"		if node.NodeType == ve.DecisionNode {\n			continue\n		}\n","		if node.NodeType == ve.DecisionNode || i == t.network.TotalUtilityIndex() {\n			continue\n		}\n"))
case("b13-div-total","C13",(TR,"				node.Factor.Table[j*cols+k] = float64(data[j][k]) / float64(cnt)\n","				node.Factor.Table[j*cols+k] = float64(data[j][k]) / float64(max(cnt, cols))\n"))
case("b13-smooth","C13",(TR,"				node.Factor.Table[j*cols+k] = float64(data[j][k]) / float64(cnt)\n","				node.Factor.Table[j*cols+k] = (float64(data[j][k]) + 1e-12) / float64(cnt)\n"))
case("b13-csv-stale","C13",(TT,"				if record[idx] == noData {\n					utility[i] = math.NaN()\n					continue\n				}\n","				if record[idx] == noData {\n					if i == 0 {\n						utility[i] = math.NaN()\n					}\n					continue\n				}\n"))
case("b13-csv-last","C13",(TT,"		if err == io.EOF {\n			break\n		}\n		if err","		if err == io.EOF || len(record) == 1 && record[0] == noData {\n			break\n		}\n		if err"))
case("b13-indices-sorted","C13",(TR,"		indices[i] = idx\n	}\n\n	return","		slices.Sort(idx)\n		indices[i] = idx\n	}\n\n	return"),(TR,'	"math"\n','	"math"\n	"slices"\n'))
case("b13-nodata-ifoutcome","C13",(TT,"		outcomes[i][noData] = -1\n","		if node.NodeType == ve.ChanceNode {\n			outcomes[i][noData] = -1\n		} else {\n			outcomes[i][noData] = 0\n		}\n"))
case("b13-ownmissing-first","C13",(TR,"		idx, ok := node.Factor.rowIndex(t.sample)\n		if !ok {\n			continue\n		}\n","		idx, ok := node.Factor.rowIndex(t.sample)\n		if !ok {\n			if len(t.counter[i]) > 1 {\n				continue\n			}\n			idx = 0\n		}\n"))
case("b13-dup-sample","C13",(TT,"		train.AddSample(sample, utility)\n","		if !slices.Equal(sample, prev) {\n			train.AddSample(sample, utility)\n		}\n		copy(prev, sample)\n"),(TT,"	utility := make([]float64, len(nodes))\n","	utility := make([]float64, len(nodes))\n	prev := make([]int, len(nodes))\n	for i := range prev {\n		prev[i] = -2\n	}\n"))
# --- C14 ---
case("b14-partial-net","C14",(NW,"	err := net.prepareVariables()\n	if err != nil {\n		return nil, err\n	}\n	return net, nil","	err := net.prepareVariables()\n	return net, err"))
case("b14-result-err","C14",(SO,"	err = solveUtility(network, nodes, evidence, totalProb, ignorePolicies, result)\n	if err != nil {\n		return nil, err\n	}\n\n	return result, nil","	err = solveUtility(network, nodes, evidence, totalProb, ignorePolicies, result)\n	return result, err"))
case("b14-factor-err","C14",(NW,"			return nil, nil, fmt.Errorf(\"query variable %s is not part of the result\", q)\n","			return result, f, fmt.Errorf(\"query variable %s is not part of the result\", q)\n"))
case("b14-train-zero","C14",(TT,"	train := bbn.NewTrainer(net)\n","	for _, n := range nodes {\n		clear(n.Factor.Table)\n	}\n	train := bbn.NewTrainer(net)\n"))
case("b14-train-net","C14",(TT,"				if err != nil {\n					return nil, fmt.Errorf(\"unable","				if err != nil {\n					return net, fmt.Errorf(\"unable"))
case("b14-ev-partial","C14",(UT,'			return nil, fmt.Errorf("syntax','			return ev, fmt.Errorf("syntax'))
case("b14-policies-err","C14",(NW,"""		if err != nil {
			return nil, err
		}
		policies :=""","""		if err != nil {
			return map[string]Factor{}, err
		}
		policies :="""))
case("b14-interleave","C14",(TR,"""	// Check all rows first, to not leave a partially trained network behind.
	for i, node := range nodes {
		for j, cnt := range t.counter[i] {
			if cnt == 0 {
				return nil, fmt.Errorf("no samples for node '%s', table row %d", node.Name, j)
			}
		}
	}

	for i, node := range nodes {
		data := t.data[i]
""","""	for i, node := range nodes {
		data := t.data[i]
		for j, cnt := range t.counter[i] {
			if cnt == 0 {
				return nil, fmt.Errorf("no samples for node '%s', table row %d", node.Name, j)
			}
		}
"""))
case("b13-col-pos","C13",(TT,"		indices[i] = idx\n","		indices[i] = min(idx, i)\n"))
case("b13-col-pos2","C13",(TT,"		indices[i] = idx\n","		indices[i] = i\n"))
case("b13-col-name","C13",(TT,"				sample[i], ok = outcomes[i][record[idx]]\n","				sample[i], ok = outcomes[i][record[i]]\n"))
case("b13-col-ut","C13",(TT,"				utility[i], err = strconv.ParseFloat(record[idx], 64)\n","				utility[i], err = strconv.ParseFloat(record[i], 64)\n"))
case("b13-cell-abs","C13",(TT,"				utility[i], err = strconv.ParseFloat(record[idx], 64)\n","				utility[i], err = strconv.ParseFloat(record[idx], 64)\n				utility[i] = math.Abs(utility[i])\n"))
case("b13-cell-32","C13",(TT,"strconv.ParseFloat(record[idx], 64)","strconv.ParseFloat(record[idx], 32)"))
case("b13-nodata-empty","C13",(TT,"				if record[idx] == noData {\n","				if record[idx] == noData || record[idx] == \"\" {\n"))
case("b13-nan-zero","C13",(TT,"					utility[i] = math.NaN()\n","					utility[i] = math.Min(0, 1)\n"))
case("b13-isutil","C13",(TT,"		isUtility[i] = node.NodeType == ve.UtilityNode\n","		isUtility[i] = node.NodeType == ve.UtilityNode && len(node.Outcomes) == 1\n"))
case("b13-trainer-nodes","C13",(TR,"	for i, node := range nodes {\n		if node.NodeType == ve.DecisionNode {\n			continue\n		}\n","	for i, node := range nodes {\n		if node.NodeType == ve.DecisionNode || i >= 64 {\n			continue\n		}\n"))
case("ok-t-nan-sep","OK",(TT,"""				var err error
				if record[idx] == noData {
					utility[i] = math.NaN()
					continue
				}
				utility[i], err = strconv.ParseFloat(record[idx], 64)
				if err != nil {
""","""				u := math.NaN()
				if record[idx] != noData {
					u, err = strconv.ParseFloat(record[idx], 64)
				}
				utility[i] = u
				if err != nil {
"""))
case("ok-t-cell","OK",(TT,"		for i, idx := range indices {\n			if isUtility[i] {","		for i := range nodes {\n			idx := indices[i]\n			if isUtility[i] {"))
case("ok-t-collect","OK",(TT,"		for i, idx := range indices {\n			if isUtility[i] {","		sample = make([]int, len(nodes))\n		utility = make([]float64, len(nodes))\n		for i, idx := range indices {\n			if isUtility[i] {"))
case("ok-t-eof","OK",(TT,"		if err == io.EOF {\n			break\n		}\n		if err != nil {\n			return nil, err\n		}\n","		if err != nil {\n			if errors.Is(err, io.EOF) {\n				return train.UpdateNetwork()\n			}\n			return nil, err\n		}\n"),(TT,"	return train.UpdateNetwork()\n}\n","}\n"),(TT,'	"encoding/csv"\n','	"encoding/csv"\n	"errors"\n'))
case("ok-t-idx-append","OK",(TR,"		idx := make([]int, len(node.Factor.Given))\n		for i, n := range node.Factor.Given {\n			var ok bool\n			idx[i], ok = nodeIndices[n]\n","		idx := make([]int, 0, len(node.Factor.Given))\n		for _, n := range node.Factor.Given {\n			k, ok := nodeIndices[n]\n			idx = append(idx, k)\n"))
case("ok-t-sample-local","OK",(TR,"		t.sample = t.sample[:0]\n		for _, idx := range indices {\n			t.sample = append(t.sample, sample[idx])\n		}\n","		parents := make([]int, len(indices))\n		for k, idx := range indices {\n			parents[k] = sample[idx]\n		}\n"),(TR,"rowIndex(t.sample)","rowIndex(parents)"))
case("ok-t-formula","OK",(TR,"			cnt := t.counter[i][j]\n","			cnt := 1 / float64(t.counter[i][j])\n"),(TR,"float64(data[j][k]) / float64(cnt)","data[j][k] * cnt"))
