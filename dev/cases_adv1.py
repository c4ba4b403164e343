VV="ve/variables.go"; VE="ve/ve.go"; NW="network.go"; YM="yml.go"; XM="xml.go"; TR="training.go"
SO="internal/tui/solve.go"; TT="internal/tui/training.go"; AP="internal/tui/app.go"; IN="internal/tui/input.go"; UT="internal/tui/util.go"
# C01
case("a01-rearr-share","C01",(VV,"		return v.CreateFactor(f.variables, append([]float64{}, f.data...))\n	}\n\n	fNew := v.CreateFactor(variables, nil)","		return v.CreateFactor(f.variables, f.data)\n	}\n\n	fNew := v.CreateFactor(variables, nil)"))
case("a01-prod-single","C01",(VV,"	if len(factors) == 1 {\n		return v.CreateFactor(factors[0].variables, append([]float64{}, factors[0].data...))","	if len(factors) == 1 {\n		return *factors[0]"))
case("a01-norm-inplace","C01",(VV,"func (v *Variables) Normalize(f *Factor) Factor {\n	fNew := v.CreateFactor(f.variables, append([]float64{}, f.data...))","func (v *Variables) Normalize(f *Factor) Factor {\n	fNew := v.CreateFactor(f.variables, f.data[:len(f.data):len(f.data)])"))
case("a01-createshare","C01",(VV,"	variables := make([]Variable, len(vars))\n	for i, v := range vars {\n		variables[i] = v\n		rows","	variables := vars\n	for _, v := range vars {\n		rows"))
case("a01-marg-one","C01",(VV,"	newVars := []Variable{variable}\n	fNew := v.CreateFactor(newVars, nil)","	newVars := []Variable{variable}\n	if len(f.variables) == 1 {\n		return v.CreateFactor(newVars, f.data)\n	}\n	fNew := v.CreateFactor(newVars, nil)"))
case("a01-prod-sort","C01",(VV,"	newVars := []Variable{}\n	maps := make([][]int, len(factors))","	if len(factors) > 3 {\n		slices.SortStableFunc(factors, func(a, b *Factor) int { return len(a.data) - len(b.data) })\n	}\n	newVars := []Variable{}\n	maps := make([][]int, len(factors))"))
case("a01-sum-acc","C01",(VV,"		f.data[i] = sum\n","		f.data[i] = sum\n		if len(factors[0].data) == len(f.data) {\n			factors[0].data[i] = sum\n		}\n"))
case("a01-normfor-shallow","C01",(VV,"	fNew := v.Rearrange(f, newVars)\n","	fNew := *f\n	if idx != len(f.variables)-1 {\n		fNew = v.Rearrange(f, newVars)\n	}\n"))
case("a01-policy-vars","C01",(VV,"	newVars = append(newVars, f.variables[idx])\n\n	fNew := v.CreateFactor(newVars, nil)\n\n	oldIndex := make([]int, len(f.variables))\n	newIndex := make([]int, len(newVars))\n	idxNew","	newVars = append(newVars, f.variables[idx])\n	f.variables[idx].nodeType = ChanceNode\n\n	fNew := v.CreateFactor(newVars, nil)\n\n	oldIndex := make([]int, len(f.variables))\n	newIndex := make([]int, len(newVars))\n	idxNew"))
case("a01-restrict-vars","C01",(VV,"	newVars := make([]Variable, 0, len(f.variables)-1)\n	idx := -1\n\n	rows := 1\n	for i := range f.variables {\n		if f.variables[i].id == variable.id {\n			idx = i\n		} else {\n			newVars = append(newVars, f.variables[i])\n			rows *= int(f.variables[i].outcomes)\n		}\n	}\n\n	if idx < 0 {\n		panic(fmt.Sprintf(\"variable %d not in this factor\", variable.id))\n	}\n\n	fNew := v.CreateFactor(newVars, nil)\n\n	// TODO","	idx := slices.IndexFunc(f.variables, func(x Variable) bool { return x.id == variable.id })\n\n	if idx < 0 {\n		panic(fmt.Sprintf(\"variable %d not in this factor\", variable.id))\n	}\n	newVars := append(f.variables[:idx:len(f.variables)-1], f.variables[idx+1:]...)\n\n	fNew := v.CreateFactor(newVars, nil)\n\n	// TODO"))
case("a01-get-write","C01",("ve/factor.go","	idx := f.Index(indices)\n	return f.data[idx]","	for i := range indices {\n		if indices[i] < 0 {\n			indices[i] = 0\n		}\n	}\n	idx := f.Index(indices)\n	return f.data[idx]"))
case("a01-rearrvars-sort","C01",(NW,"	fVariables := f.Variables()\n	vars := make","	fVariables := f.Variables()\n	slices.SortFunc(fVariables[:len(fVariables)-1], func(a, b ve.Variable) int { return a.Id() - b.Id() })\n	vars := make"))
# C02
case("a02-yaml-tablenil","C02",(YM,"		variables[i] = variableYaml{\n","		if v.NodeType == ve.DecisionNode {\n			v.Factor.Table = nil\n		}\n		variables[i] = variableYaml{\n"))
case("a02-weights-norm","C02",(NW,"		weights[i] = table[idx]\n	}\n","		weights[i] = table[idx]\n		if weights[i] != weights[i] {\n			table[idx] = 0\n		}\n	}\n"))
case("a02-evidence-del","C02",(NW,"		if vv.Variable.NodeType == ve.UtilityNode {\n			return nil, fmt.Errorf(\"evidence variable %s is a utility node\", name)\n		}\n","		if vv.Variable.NodeType == ve.UtilityNode {\n			return nil, fmt.Errorf(\"evidence variable %s is a utility node\", name)\n		}\n		evidence[name] = strings.TrimSpace(value)\n"))
case("a02-query-sort","C02",(NW,"	q := make([]ve.Variable, len(query))\n","	slices.Sort(query)\n	q := make([]ve.Variable, len(query))\n"))
case("a02-trainer-zero","C02",(TR,"		data[i] = d\n","		data[i] = d\n		if node.NodeType == ve.UtilityNode {\n			clear(node.Factor.Table)\n		}\n"))
case("a02-tui-evidence","C02",(SO,"		if n.Node().NodeType == ve.UtilityNode {\n			continue\n		}\n","		if n.Node().NodeType == ve.UtilityNode {\n			delete(evidence, n.Node().Name)\n			continue\n		}\n"))
case("a02-tove-norm","C02",(NW,"		factor := vars.CreateFactor(variables, f.Table)\n","		factor := vars.CreateFactor(variables, f.Table)\n		if len(factor.Data()) == 0 {\n			factor.Data()[0] = 1\n		}\n"))
case("a02-policy-del","C02",(NW,"		if _, isEvidence := evidence[name]; isEvidence {\n			continue\n","		if _, isEvidence := evidence[name]; isEvidence {\n			delete(n.policies, name)\n			continue\n"))
case("a02-outcome-count","C02",(NW,"	node := &n.variables[n.totalUtilityIndex]\n","	node := &n.variables[n.totalUtilityIndex]\n	slices.Sort(node.Factor.Given)\n"))
# C03
case("a03-result-alias","C03",(NW,"		m := n.Marginal(f, q)\n		n := n.Normalize(&m)\n		result[q] = n.Data()","		m := n.Marginal(f, q)\n		if len(query) == 1 {\n			result[q] = f.Data()\n			continue\n		}\n		n := n.Normalize(&m)\n		result[q] = n.Data()"))
case("a03-policy-alias","C03",(NW,"			Table: f.Data(),\n		}\n		result[name] = ff","			Table: n.policies[name].Data(),\n		}\n		result[name] = ff"),(NW,"map[string]ve.Factor // Policies","map[string]*ve.Factor // Policies") ) if False else None
case("a03-policy-given","C03",(NW,"		given := make([]string, len(newVars)-1)\n		for i := 0; i < len(newVars)-1; i++ {\n			given[i] = n.variables[newVars[i].Id()].Name\n		}\n","		given := forVar.Variable.Factor.Given\n		if len(given) != len(newVars)-1 {\n			given = make([]string, len(newVars)-1)\n			for i := range given {\n				given[i] = n.variables[newVars[i].Id()].Name\n			}\n		}\n"))
case("a03-logic-shared","C03",("logic/simple.go","	return f.table, nil","	return f.table[:len(f.table):len(f.table)], nil")) if False else None
case("a03-yaml-buf","C03",(YM,"	writer := bytes.Buffer{}\n	encoder := yaml.NewEncoder(&writer)","	writer := &network.buf\n	writer.Reset()\n	encoder := yaml.NewEncoder(writer)"),(NW,"	totalUtilityIndex int                  // Index of the total utility node. -1 if none.\n","	totalUtilityIndex int                  // Index of the total utility node. -1 if none.\n	buf               bytes.Buffer\n"),(NW,"import (\n","import (\n	\"bytes\"\n"))
case("a03-evidence-onehot","C03",(NW,"	probs := make([]float64, len(outcomes))\n	probs[idx] = 1.0\n	return probs, nil","	f := n.variables[i].Factor\n	if len(f.Table) == len(outcomes) && f.Table[idx] == 1 {\n		return f.Table, nil\n	}\n	probs := make([]float64, len(outcomes))\n	probs[idx] = 1.0\n	return probs, nil"))
case("a03-norm-same","C03",(NW,"func (n *Network) Normalize(f *ve.Factor) ve.Factor {\n	return","func (n *Network) Normalize(f *ve.Factor) ve.Factor {\n	if len(f.Data()) == 1 && f.Data()[0] == 1 {\n		return *f\n	}\n	return"))
# C04
case("a04-cache","C04",(NW,"	outcomes := n.variables[i].Outcomes\n	idx := slices.Index(outcomes, value)","	outcomes := n.variables[i].Outcomes\n	evidenceCache[variable] = outcomes\n	idx := slices.Index(outcomes, value)"),(NW,"// toVE creates a","var evidenceCache = map[string][]string{}\n\n// toVE creates a"))
case("a04-counter","C04",(VV,"	v.factorCounter++\n\n	return Factor{\n		id:        v.factorCounter - 1,","	factorCounter++\n	v.factorCounter++\n\n	return Factor{\n		id:        v.factorCounter - 1,"),(VV,"// NewVariables creates","var factorCounter int\n\n// NewVariables creates"))
case("a04-goroutine","C04",(VE,"	clear(ve.factors)\n","	go clear(ve.factors)\n")) 
case("a04-logic-shared","C04",("logic/factor.go","	\"bits\": Bits,","	\"bits\": func() Factor { return sharedBits },"),("logic/factor.go","var factors = ","var sharedBits = Bits()\n\nvar factors = ")) if False else None
case("a04-logic-given","C04",("logic/factor.go","	\"given\":      func() Factor { return Given(0) },","	\"given\":      func() Factor { return defaultGiven },"),("logic/factor.go","var factors = ","var defaultGiven = Given(0)\n\nvar factors = "))
case("a04-scratch","C04",("internal/tui/solve.go","	queries := []string{}\n","	queries := queryBuf[:0]\n"),("internal/tui/solve.go","	result := map[string][]float64{}\n	err := solveE","	queryBuf = queries\n	result := map[string][]float64{}\n	err := solveE"),("internal/tui/solve.go","func Solve(","var queryBuf []string\n\nfunc Solve("))
# C05
case("a05-noclear","C05",(NW,"	clear(n.policies)\n\n	decisions := n.countDecisionSteps(stepwise)","	if !stepwise {\n		clear(n.policies)\n	}\n\n	decisions := n.countDecisionSteps(stepwise)"))
case("a05-cache-ve","C05",(NW,"	var err error\n	n.ve, n.variableNames, err = n.toVE(decisionEvidence)\n	if err != nil {\n		return nil, err\n	}\n\n	ev :=","	var err error\n	if n.ve == nil || len(n.policies) > 0 || len(evidence) > 0 {\n		n.ve, n.variableNames, err = n.toVE(decisionEvidence)\n		if err != nil {\n			return nil, err\n		}\n	}\n\n	ev :="))
case("a05-evidence-names","C05",(NW,"	i := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == variable })\n	if i < 0","	i := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == variable })\n	if _, ok := n.variableNames[variable]; !ok && n.ve != nil {\n		i = -1\n	}\n	if i < 0"))
case("a05-lastquery","C05",(NW,"	f, err := n.solve(evidence, query, false, \"\", ignorePolicies)\n	if err != nil {\n		return nil, nil, err\n	}\n","	f, err := n.solve(evidence, query, false, \"\", ignorePolicies && len(n.last) == 0)\n	if err != nil {\n		return nil, nil, err\n	}\n	n.last = query\n"),(NW,"	totalUtilityIndex int                  // Index of the total utility node. -1 if none.\n","	totalUtilityIndex int                  // Index of the total utility node. -1 if none.\n	last              []string\n"))
case("a05-policies-partial","C05",(NW,"	clear(n.policies)\n\n	decisions","	for name := range n.policies {\n		if v, ok := n.variableNames[name]; ok && v.Variable.NodeType == ve.DecisionNode {\n			delete(n.policies, name)\n		}\n	}\n\n	decisions"))
# C06
case("a06-factorids-nosort","C06",(VE,"	slices.Sort(ids)\n	return ids","	if len(ids) < 8 {\n		slices.Sort(ids)\n	}\n	return ids"))
case("a06-sortedkeys","C06",(NW,"	slices.Sort(keys)\n	return keys","	if len(keys) > 2 {\n		slices.Sort(keys)\n	}\n	return keys"))
case("a06-degree-only","C06",(VE,"	slices.SortFunc(hiddenList, func(a, b variableDegree) int { return cmp.Compare(a.Variable.id, b.Variable.id) })\n	slices.SortStable","	slices.SortStable"))
case("a06-tui-range","C06",(SO,"	for _, n := range utilities {\n		f, err","	names := map[string]bool{}\n	for _, n := range utilities {\n		names[n] = true\n	}\n	for n := range names {\n		f, err"))
case("a06-topo","C06",(VE,"	return append(result, dec[index])","	return append(result, dec[index])")) if False else None
case("a06-sum-map","C06",(VE,"	for _, k := range ve.factorIDs() {\n		f := ve.factors[k]\n		for i, u := range utils {","	for k, f := range ve.factors {\n		for i, u := range utils {"))
case("a06-find-map","C06",(VE,"	deps := ve.dependencies[decision]\n	for _, k := range ve.factorIDs() {\n		f := ve.factors[k]\n","	deps := ve.dependencies[decision]\n	for _, f := range ve.factors {\n"))
case("a06-time","C06",(VV,"	sum := 0.0\n	for _, v := range fNew.data {\n		sum += v\n	}","	sum := 0.0\n	for _, i := range rand.Perm(len(fNew.data)) {\n		sum += fNew.data[i]\n	}"),(VV,"	\"math\"\n","	\"math\"\n	\"math/rand\"\n"))
# C07
case("a07-setargs","C07",(YM,"	err := l.SetArgs(args...)\n	if err != nil {\n		return nil, err\n	}\n\n	table, err := l.Table","	err := l.SetArgs(args...)\n	if err != nil && len(args) > 0 {\n		return nil, err\n	}\n\n	table, err := l.Table"))
case("a07-atoi","C07",(YM,"		if err != nil {\n			return nil, err\n		}\n		args[i-1] = v","		if err != nil && parts[i] != \"\" {\n			return nil, err\n		}\n		args[i-1] = v"))
case("a07-csv","C07",(TT,"		if err == io.EOF {\n			break\n		}","		if err == io.EOF || err == csv.ErrFieldCount {\n			break\n		}"))
case("a07-csv2","C07",(TT,"		if err != nil {\n			return nil, err\n		}\n\n		for i, idx","		if err != nil && len(record) == 0 {\n			return nil, err\n		}\n\n		for i, idx"))
case("a07-utilparse","C07",(TT,"				if err != nil {\n					return nil, fmt.Errorf(\"unable to parse utility","				if err != nil && utility[i] == 0 {\n					return nil, fmt.Errorf(\"unable to parse utility"))
case("a07-pos","C07",(XM,"		position[0], err = strconv.Atoi(strings.TrimSpace(parts[0]))\n		if err != nil {\n			return position, fmt.Errorf(\"error parsing '%s' to integer in property 'position' of node '%s'\", parts[0], variable.Name)\n		}\n","		position[0], err = strconv.Atoi(strings.TrimSpace(parts[0]))\n"))
case("a07-marginals","C07",(IN,"	a.marginals, err = Solve(a.network, a.evidence, a.nodes, a.ignorePolicies)\n	if err != nil {\n		return err\n	}\n	return nil","	marginals, err := Solve(a.network, a.evidence, a.nodes, a.ignorePolicies)\n	if err == nil {\n		a.marginals = marginals\n	}\n	return nil"),(IN,"	var err error\n	marginals","	marginals"))
case("a07-weights","C07",(NW,"	weights, err := n.prepareUtilityWeights()\n	if err != nil {\n		return nil, nil, err\n	}\n","	weights, _ := n.prepareUtilityWeights()\n"))
case("a07-main","C07",("cmd/bbn/main.go","		fmt.Print(\"\\nRun `bbn -h` for help!\\n\\n\")\n		os.Exit(1)","		fmt.Print(\"\\nRun `bbn -h` for help!\\n\\n\")\n		defer os.Exit(0)"))
case("a07-save","C07",(IN,"	err = os.WriteFile(saveFile, yml, 0644)\n	if err != nil {\n		panic(err)\n	}","	if err = os.WriteFile(saveFile, yml, 0644); os.IsPermission(err) {\n		panic(err)\n	}"))
# C08
case("a08-parent","C08",(NW,"			n, ok := outcomes[g]\n			if !ok {","			n, ok := outcomes[g]\n			if !ok && v.NodeType == ve.ChanceNode {"))
case("a08-query","C08",(NW,"			return nil, fmt.Errorf(\"query variable %s not found\", name)","			continue"))
case("a08-outcome","C08",(NW,"		if idx < 0 {\n			return nil, fmt.Errorf(\"outcome %s for evidence variable %s not found\", value, name)\n		}\n","		if idx < 0 {\n			idx = 0\n		}\n"))
case("a08-type","C08",(XM,"			return nil, fmt.Errorf(\"unknown node type %s\", variable.Type)","			tp = nodeTypes[strings.ToLower(variable.Type)]"))
case("a08-known","C08",(YM,"	decoder.KnownFields(true)","	decoder.KnownFields(len(content) < 1<<20)"))
case("a08-ext","C08",(NW,"	case \".yml\":","	case \".yml\", \"\":"))
case("a08-util","C08",(NW,"			if !ok {\n				return nil, fmt.Errorf(\"utility query variable %s not found\", utilityVar)\n			}\n","			if !ok {\n				return n.ve.SolveUtility(ev, q, nil), nil\n			}\n"))
case("a08-logic","C08",("logic/factor.go","	create, ok := factors[name]\n","	create, ok := factors[name]\n	if !ok {\n		create, ok = factors[strings.TrimSuffix(name, \"s\")]\n	}\n"),("logic/factor.go","package logic\n","package logic\n\nimport \"strings\"\n"))
case("a08-cell","C08",(TT,"				if !ok {\n					return nil, fmt.Errorf(\"outcome","				if !ok && record[idx] == \"\" {\n					sample[i] = -1\n				} else if !ok {\n					return nil, fmt.Errorf(\"outcome"))
case("a08-column","C08",(TT,"			err = fmt.Errorf(\"no column '%s' in training data file\", node.Name)\n			return\n		}\n		indices[i] = idx","			if node.NodeType != ve.DecisionNode {\n				err = fmt.Errorf(\"no column '%s' in training data file\", node.Name)\n				return\n			}\n			idx = 0\n		}\n		indices[i] = idx"))
case("a08-evsplit","C08",(UT,"		if len(parts) != 2 {\n			return nil, fmt.Errorf(\"syntax error in evidence\")\n		}","		if len(parts) != 2 {\n			if len(ev) == 0 {\n				return nil, fmt.Errorf(\"syntax error in evidence\")\n			}\n			continue\n		}"))
case("a08-def","C08",(XM,"		def, ok := defs[variable.Name]\n		if !ok {\n","		def, ok := defs[variable.Name]\n		if !ok && variable.Type == \"decision\" {\n			def, ok = &definitionXml{For: variable.Name}, true\n		}\n		if !ok {\n"))
case("a08-firstchar","C08",(NW,"	idx := slices.Index(outcomes, value)\n	if idx < 0 {\n		return nil, fmt.Errorf(\"outcome %s for evidence variable %s not found\", value, variable)","	idx := slices.IndexFunc(outcomes, func(o string) bool { return strings.HasPrefix(o, value) })\n	if idx < 0 {\n		return nil, fmt.Errorf(\"outcome %s for evidence variable %s not found\", value, variable)"))
