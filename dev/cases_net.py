N="network.go"
def nt(id,*ed): case("nt-"+id,"C18",*[(N,)+e for e in ed])
def ntok(id,*ed): case("ntok-"+id,"OK",*[(N,)+e for e in ed])
# bugs: variables
nt("id-count",("	totalUtilityName := \"\"\n","	totalUtilityName := \"\"\n	next := 0\n"),("VeVariable: vars.AddVariable(i, ve.ChanceNode, uint16(len(v.Outcomes))),","VeVariable: vars.AddVariable(next, ve.ChanceNode, uint16(len(v.Outcomes))),"),("VeVariable: vars.AddVariable(i, v.NodeType, uint16(len(v.Outcomes))),\n		}\n","VeVariable: vars.AddVariable(next, v.NodeType, uint16(len(v.Outcomes))),\n		}\n		next++\n"))
nt("dec-type",("VeVariable: vars.AddVariable(i, ve.ChanceNode, uint16(len(v.Outcomes))),","VeVariable: vars.AddVariable(i, v.NodeType, uint16(len(v.Outcomes))),"))
nt("pol-ev",("if _, ok := n.policies[v.Name]; ok {\n				varIDs","if _, ok := n.policies[v.Name]; ok && evidence == nil {\n				varIDs"))
nt("out-min",("vars.AddVariable(i, v.NodeType, uint16(len(v.Outcomes)))","vars.AddVariable(i, v.NodeType, uint16(max(2, len(v.Outcomes))))"))
nt("out-col",("vars.AddVariable(i, v.NodeType, uint16(len(v.Outcomes)))","vars.AddVariable(i, v.NodeType, uint16(len(v.Factor.Table)))"))
nt("out-u8",("vars.AddVariable(i, v.NodeType, uint16(len(v.Outcomes)))","vars.AddVariable(i, v.NodeType, uint16(uint8(len(v.Outcomes))))"))
nt("total-kept",("		if i == n.totalUtilityIndex {\n			totalUtilityName = v.Name\n			continue\n		}\n","		if i == n.totalUtilityIndex && len(v.Factor.Given) > 1 {\n			totalUtilityName = v.Name\n			continue\n		}\n"))
nt("total-skip-all",("		if i == n.totalUtilityIndex {\n			totalUtilityName = v.Name\n			continue\n		}\n","		if n.totalUtilityIndex >= 0 && i >= n.totalUtilityIndex {\n			if i == n.totalUtilityIndex {\n				totalUtilityName = v.Name\n			}\n			continue\n		}\n"))
nt("name-ptr",("				varNames[v.Name] = &varIDs[i]\n				continue","				varNames[v.Name] = &varIDs[0]\n				continue"))
nt("name-notset",("				varNames[v.Name] = &varIDs[i]\n				continue","				continue"))
# tables
nt("tab-skip1",("		// get primary variable\n","		if len(f.Table) == 1 {\n			continue\n		}\n		// get primary variable\n"))
nt("tab-util",("		if forVar.Variable.NodeType == ve.DecisionNode {\n			continue","		if forVar.Variable.NodeType == ve.DecisionNode || (n.totalUtilityIndex < 0 && forVar.Variable.NodeType == ve.UtilityNode && len(f.Given) == 0) {\n			continue"))
nt("tab-dec",("		// don't add factors for solved decision nodes, done later\n		if forVar.Variable.NodeType == ve.DecisionNode {\n			continue\n		}\n",""))
nt("par-first",("		variables = append(variables, forVar.VeVariable)\n","		variables = append([]ve.Variable{forVar.VeVariable}, variables...)\n"),("vars.NormalizeFor(&factor, variables[len(variables)-1])","vars.NormalizeFor(&factor, variables[0])"))
nt("par-rev",("			variables[j] = vv.VeVariable","			variables[len(f.Given)-1-j] = vv.VeVariable"))
nt("par-fix",("			variables[j] = vv.VeVariable","			if j > 0 && variables[0].Id() > vv.VeVariable.Id() {\n				variables[j] = variables[0]\n				variables[0] = vv.VeVariable\n				continue\n			}\n			variables[j] = vv.VeVariable"))
nt("norm-first",("vars.NormalizeFor(&factor, variables[len(variables)-1])","vars.NormalizeFor(&factor, variables[0])"))
nt("norm-root",("		if forVar.Variable.NodeType == ve.ChanceNode {\n			factor","		if forVar.Variable.NodeType == ve.ChanceNode && len(f.Given) > 0 {\n			factor"))
nt("norm-util",("		if forVar.Variable.NodeType == ve.ChanceNode {\n			factor","		if forVar.Variable.NodeType != ve.DecisionNode {\n			factor"))
nt("norm-whole",("factor = vars.NormalizeFor(&factor, variables[len(variables)-1])","factor = vars.Normalize(&factor)"))
nt("dep-solved",("		if forVar.VeVariable.NodeType() == ve.DecisionNode {\n			dep","		if forVar.Variable.NodeType == ve.DecisionNode {\n			dep"))
nt("dep-tail",("			dependencies[forVar.VeVariable] = variables\n","			dependencies[forVar.VeVariable] = variables[:min(len(variables), 4)]\n"))
nt("dep-root",("			dependencies[forVar.VeVariable] = variables\n","			if len(variables) > 0 {\n				dependencies[forVar.VeVariable] = variables\n			}\n"))
# weights
nt("w-own",("		weights[i] = table[idx]","		weights[i] = table[i]"))
nt("w-idx",("		weights[i] = table[idx]","		weights[idx] = table[idx]"))
nt("w-rev",("		weights[i] = table[idx]","		weights[i] = table[len(parents)-1-idx]"))
nt("w-idx0",("	if n.totalUtilityIndex < 0 {\n		return nil, nil","	if n.totalUtilityIndex <= 0 {\n		return nil, nil"))
nt("w-single",("		return nil, nil\n	}\n	node :=","		return nil, nil\n	}\n	if len(utilityNodes) == 1 {\n		return nil, nil\n	}\n	node :="))
nt("w-nodes",("		if v.NodeType == ve.UtilityNode {\n			utilityNodes","		if v.NodeType == ve.UtilityNode && len(v.Factor.Given) > 1 {\n			utilityNodes"))
nt("w-first",("		weights[i] = table[idx]","		weights[i] = table[idx] / table[0]"))
# policies
nt("pol-always",("	var decisionEvidence map[string]string\n	if ignorePolicies {\n		decisionEvidence = evidence\n	}\n","	decisionEvidence := evidence\n	_ = ignorePolicies\n"))
nt("pol-never",("		decisionEvidence = evidence\n","		_ = evidence\n"))
nt("pol-inv",("	if ignorePolicies {\n		dec","	if !ignorePolicies {\n		dec"))
nt("pol-utilnot",("n.solve(evidence, query, true, utilityVar, ignorePolicies)","n.solve(evidence, query, true, utilityVar, false)"))
nt("pol-all",("if _, isEvidence := evidence[name]; isEvidence {","if len(evidence) > 0 {"))
nt("pol-keep",("				if _, ok := n.policies[vv.Variable.Name]; ok {\n					v = v","				if _, ok := evidence[vv.Variable.Name]; ok {\n					v = v"))
nt("pol-conv-own",("				if _, ok := n.policies[vv.Variable.Name]; ok {\n					v = v","				if vv.Variable.Name == name {\n					v = v"))
nt("pol-data",("factors = append(factors, vars.CreateFactor(variables, f.Data()))","p := vars.CreateFactor(variables, f.Data())\n		factors = append(factors, vars.Normalize(&p))"))
nt("pol-one",("		factors = append(factors, vars.CreateFactor(variables, f.Data()))\n	}\n\n	return","		factors = append(factors, vars.CreateFactor(variables, f.Data()))\n		if evidence != nil {\n			break\n		}\n	}\n\n	return"))
# evidence
nt("ev-skipq",("		idx := slices.Index(vv.Variable.Outcomes, value)\n		if idx < 0 {\n			return nil, fmt.Errorf(\"outcome %s for evidence variable %s not found\", value, name)\n		}\n		ev =","		idx := slices.Index(vv.Variable.Outcomes, value)\n		if idx < 0 {\n			return nil, fmt.Errorf(\"outcome %s for evidence variable %s not found\", value, name)\n		}\n		if slices.Contains(query, name) {\n			continue\n		}\n		ev ="))
nt("ev-last",("Value: idx})","Value: min(idx, len(vv.Variable.Outcomes)-2+1-1)})"))
nt("ev-poldec",("		ev = append(ev, ve.Evidence{","		if _, ok := n.policies[name]; ok && !ignorePolicies {\n			continue\n		}\n		ev = append(ev, ve.Evidence{"))
nt("ev-id",("		ev = append(ev, ve.Evidence{Variable: vv.VeVariable, Value: idx})","		if len(ev) > 0 && ev[len(ev)-1].Value == idx && idx > 1 {\n			continue\n		}\n		ev = append(ev, ve.Evidence{Variable: vv.VeVariable, Value: idx})"))
ntok("q-shift",("		q[i] = vv.VeVariable","		q[len(q)-1-i] = vv.VeVariable"))
nt("q-one",("		q[i] = vv.VeVariable\n	}","		q[i] = vv.VeVariable\n		if i == 3 {\n			q = q[:4]\n			break\n		}\n	}"))
nt("u-nil",("			util = &u.VeVariable\n","			if n.totalUtilityIndex < 0 {\n				util = &u.VeVariable\n			}\n"))
nt("u-always",("		if utilityVar != \"\" {","		if utilityVar != \"\" && len(query) == 0 {"))
nt("r-first",("		m := n.Marginal(f, q)\n","		m := n.Marginal(f, query[0])\n"))
nt("r-nonorm",("		n := n.Normalize(&m)\n		result[q] = n.Data()","		result[q] = m.Data()"))
nt("r-joint",("		m := n.Marginal(f, q)\n		n := n.Normalize(&m)","		m := n.Marginal(f, q)\n		if len(query) > 1 {\n			m = *f\n		}\n		n := n.Normalize(&m)"))
nt("r-skip",("		m := n.Marginal(f, q)\n","		if _, ok := evidence[q]; ok {\n			continue\n		}\n		m := n.Marginal(f, q)\n"))
# wrappers
nt("nu-swap",("	inv := n.ve.Variables().Invert(probs)\n	return n.ve.Variables().Product(utility, &inv)","	inv := n.ve.Variables().Invert(utility)\n	return n.ve.Variables().Product(probs, &inv)"))
nt("nu-noinv",("	inv := n.ve.Variables().Invert(probs)\n	return n.ve.Variables().Product(utility, &inv)","	if len(probs.Data()) == 1 {\n		return *utility\n	}\n	inv := n.ve.Variables().Invert(probs)\n	return n.ve.Variables().Product(utility, &inv)"))
nt("te-one",("	probs[idx] = 1.0","	probs[min(idx, 1)] = 1.0"))
nt("te-val",("	probs[idx] = 1.0","	probs[idx] = 1.0 / float64(len(outcomes))"))
nt("re-done",("		done[idx] = true\n","		done[i] = true\n"))
nt("re-last",("	vars = append(vars, last)\n\n	return vars","	vars = append([]ve.Variable{last}, vars...)\n\n	return vars"))
nt("re-skiprest",("		if d || fVariables[i].Is(last) {","		if d || fVariables[i].Is(last) || fVariables[i].NodeType() == ve.DecisionNode {"))
# policies result
nt("sp-p0",("n.policies[name] = *p[1]","n.policies[name] = *p[0]"))
nt("sp-steps",("	for i := 0; i < decisions; i++ {\n		var err","	for i := 0; i < min(decisions, 2); i++ {\n		var err"))
nt("sp-steps1",("	if decisions == 0 {\n		return 1\n	}\n	return decisions","	return 1"))
nt("sp-order",("		for i := idx + 1; i < len(variables); i++ {\n			newVars[i-1] = variables[i]\n		}\n		newVars[len(newVars)-1] = variables[idx]","		for i := idx + 1; i < len(variables); i++ {\n			newVars[i] = variables[i]\n		}\n		newVars[idx] = variables[idx]"))
nt("sp-norearr",("		f := n.ve.Variables().Rearrange(&f, newVars)\n","		_ = n.ve.Variables().Rearrange(&f, newVars)\n"))
nt("sp-given-old",("given[i] = n.variables[newVars[i].Id()].Name","given[i] = n.variables[variables[i].Id()].Name"))
nt("sp-swapgiven",("given[i] = n.variables[newVars[i].Id()].Name","given[len(given)-1-i] = n.variables[newVars[i].Id()].Name"))
nt("sp-fresh",("		if policies == nil {\n			break\n		}\n","		if policies == nil {\n			break\n		}\n		if len(policies) < 2 && i > 2 {\n			break\n		}\n"))

# refactorings
ntok("helper",("		m := n.Marginal(f, q)\n		n := n.Normalize(&m)\n		result[q] = n.Data()\n","		result[q] = n.normalizedMarginal(f, q)\n"),("// SolveUtility solves utility, using variable elimination.\n","// normalizedMarginal of a variable.\nfunc (n *Network) normalizedMarginal(f *ve.Factor, q string) []float64 {\n	m := n.Marginal(f, q)\n	nf := n.Normalize(&m)\n	return nf.Data()\n}\n\n// SolveUtility solves utility, using variable elimination.\n"))
ntok("typevar",("""		if v.NodeType == ve.DecisionNode {
			if _, ok := n.policies[v.Name]; ok {
				varIDs[i] = variable{
					Variable:   v,
					VeVariable: vars.AddVariable(i, ve.ChanceNode, uint16(len(v.Outcomes))),
				}
				varNames[v.Name] = &varIDs[i]
				continue
			}
		}

		// for all other variables
		varIDs[i] = variable{
			Variable:   v,
			VeVariable: vars.AddVariable(i, v.NodeType, uint16(len(v.Outcomes))),
		}
""","""		nodeType := v.NodeType
		if _, ok := n.policies[v.Name]; ok && nodeType == ve.DecisionNode {
			nodeType = ve.ChanceNode
		}
		varIDs[i] = variable{
			Variable:   v,
			VeVariable: vars.AddVariable(i, nodeType, uint16(len(v.Outcomes))),
		}
"""))
ntok("typefn",("""		if v.NodeType == ve.DecisionNode {
			if _, ok := n.policies[v.Name]; ok {
				varIDs[i] = variable{
					Variable:   v,
					VeVariable: vars.AddVariable(i, ve.ChanceNode, uint16(len(v.Outcomes))),
				}
				varNames[v.Name] = &varIDs[i]
				continue
			}
		}

		// for all other variables
		varIDs[i] = variable{
			Variable:   v,
			VeVariable: vars.AddVariable(i, v.NodeType, uint16(len(v.Outcomes))),
		}
""","""		varIDs[i] = variable{
			Variable:   v,
			VeVariable: vars.AddVariable(i, n.effectiveType(&n.variables[i]), uint16(len(v.Outcomes))),
		}
"""),("// prepareUtilityWeights derives","""// effectiveType of a variable.
func (n *Network) effectiveType(v *Variable) ve.NodeType {
	if v.NodeType != ve.DecisionNode {
		return v.NodeType
	}
	if _, ok := n.policies[v.Name]; ok {
		return ve.ChanceNode
	}
	return ve.DecisionNode
}

// prepareUtilityWeights derives"""))
ntok("parents-append",("		variables := make([]ve.Variable, len(f.Given))\n		for j, v := range f.Given {","		variables := make([]ve.Variable, 0, len(f.Given)+1)\n		for _, v := range f.Given {"),("			variables[j] = vv.VeVariable\n","			variables = append(variables, vv.VeVariable)\n"))
ntok("parents-helper",("""		variables := make([]ve.Variable, len(f.Given))
		for j, v := range f.Given {
			vv, ok := varNames[v]
			if !ok {
				return nil, nil, fmt.Errorf("variable %s in factor for %s not found", v, f.For)
			}
			variables[j] = vv.VeVariable
		}
""","""		variables, err := parentVariables(&f, varNames)
		if err != nil {
			return nil, nil, err
		}
"""),("// prepareUtilityWeights derives","""func parentVariables(f *Factor, varNames map[string]*variable) ([]ve.Variable, error) {
	variables := make([]ve.Variable, len(f.Given))
	for j, v := range f.Given {
		vv, ok := varNames[v]
		if !ok {
			return nil, fmt.Errorf("variable %s in factor for %s not found", v, f.For)
		}
		variables[j] = vv.VeVariable
	}
	return variables, nil
}

// prepareUtilityWeights derives"""))
ntok("switch",("""		if forVar.VeVariable.NodeType() == ve.DecisionNode {
			dependencies[forVar.VeVariable] = variables
			continue
		}
		// don't add factors for solved decision nodes, done later
		if forVar.Variable.NodeType == ve.DecisionNode {
			continue
		}
""","""		if forVar.Variable.NodeType == ve.DecisionNode {
			if forVar.VeVariable.NodeType() == ve.DecisionNode {
				dependencies[forVar.VeVariable] = variables
			}
			continue
		}
"""))
ntok("norm-for",("vars.NormalizeFor(&factor, variables[len(variables)-1])","vars.NormalizeFor(&factor, forVar.VeVariable)"))
ntok("norm-ne",("		if forVar.Variable.NodeType == ve.ChanceNode {\n			factor = vars.NormalizeFor(&factor, variables[len(variables)-1])\n		}\n\n		// add to list of factors\n		factors = append(factors, factor)","		if forVar.Variable.NodeType != ve.ChanceNode {\n			factors = append(factors, factor)\n			continue\n		}\n		factors = append(factors, vars.NormalizeFor(&factor, forVar.VeVariable))"))
ntok("total-idx",("		// skip factor for total utility\n		if f.For == totalUtilityName {\n			continue\n		}\n","		// skip factor for total utility\n		if n.totalUtilityIndex >= 0 && f.For == n.variables[n.totalUtilityIndex].Name {\n			continue\n		}\n"),("			totalUtilityName = v.Name\n",""),("	totalUtilityName := \"\"\n",""))
ntok("w-early",("	utilityNodes := []*Variable{}\n\n	// collect variables for lookup\n	for i, v","	if n.totalUtilityIndex < 0 {\n		return nil, nil\n	}\n	utilityNodes := []*Variable{}\n\n	// collect variables for lookup\n	for i, v"),("	var weights []float64\n	if n.totalUtilityIndex < 0 {\n		return nil, nil\n	}\n	node","	node"),("	weights = make([]float64, len(utilityNodes))","	weights := make([]float64, len(utilityNodes))"))
ntok("w-append",("	weights = make([]float64, len(utilityNodes))\n	for i := range utilityNodes {\n		idx := slices.Index(parents, utilityNodes[i].Name)","	weights = make([]float64, 0, len(utilityNodes))\n	for _, u := range utilityNodes {\n		idx := slices.Index(parents, u.Name)"),("total utility\", utilityNodes[i].Name)","total utility\", u.Name)"),("		weights[i] = table[idx]\n","		weights = append(weights, table[idx])\n"))
ntok("w-one",("""			utilityNodes = append(utilityNodes, &v)
		}
	}
""","""			utilityNodes = append(utilityNodes, &n.variables[i])
		}
	}
"""))
ntok("pol-range",("	for _, name := range sortedKeys(n.policies) {\n		f := n.policies[name]\n		// if","	names := sortedKeys(n.policies)\n	for k := 0; k < len(names); k++ {\n		name := names[k]\n		f := n.policies[name]\n		// if"))
ntok("pol-vars",("		variables := make([]ve.Variable, len(f.Variables()))\n		for i, v := range f.Variables() {\n			// treat","		fv := f.Variables()\n		variables := make([]ve.Variable, 0, len(fv))\n		for _, v := range fv {\n			// treat"),("			variables[i] = v\n		}\n		// add to list","			variables = append(variables, v)\n		}\n		// add to list"))
ntok("ev-extract",("""		vv, ok := n.variableNames[name]
		if !ok {
			return nil, fmt.Errorf("evidence variable %s not found", name)
		}
		if vv.Variable.NodeType == ve.UtilityNode {
			return nil, fmt.Errorf("evidence variable %s is a utility node", name)
		}
		idx := slices.Index(vv.Variable.Outcomes, value)
		if idx < 0 {
			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
		}
		ev = append(ev, ve.Evidence{Variable: vv.VeVariable, Value: idx})
""","""		e, err := n.evidence(name, value)
		if err != nil {
			return nil, err
		}
		ev = append(ev, e)
"""),("// ToEvidence converts a","""func (n *Network) evidence(name, value string) (ve.Evidence, error) {
	vv, ok := n.variableNames[name]
	if !ok {
		return ve.Evidence{}, fmt.Errorf("evidence variable %s not found", name)
	}
	if vv.Variable.NodeType == ve.UtilityNode {
		return ve.Evidence{}, fmt.Errorf("evidence variable %s is a utility node", name)
	}
	idx := slices.Index(vv.Variable.Outcomes, value)
	if idx < 0 {
		return ve.Evidence{}, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
	}
	return ve.Evidence{Variable: vv.VeVariable, Value: idx}, nil
}

// ToEvidence converts a"""))
ntok("ev-idx",("		idx := slices.Index(vv.Variable.Outcomes, value)\n		if idx < 0 {\n			return nil, fmt.Errorf(\"outcome %s for","		idx := -1\n		for i, o := range vv.Variable.Outcomes {\n			if o == value {\n				idx = i\n				break\n			}\n		}\n		if idx < 0 {\n			return nil, fmt.Errorf(\"outcome %s for"))
ntok("q-append",("	q := make([]ve.Variable, len(query))\n	for i, name := range query {","	q := make([]ve.Variable, 0, len(query))\n	for _, name := range query {"),("		q[i] = vv.VeVariable\n","		q = append(q, vv.VeVariable)\n"))
ntok("util-flip",("	if utility {\n		var util","	if !utility {\n		return n.ve.SolveQuery(ev, q), nil\n	}\n	{\n		var util"),("		return n.ve.SolveUtility(ev, q, util), nil\n	} else {\n		return n.ve.SolveQuery(ev, q), nil\n	}","		return n.ve.SolveUtility(ev, q, util), nil\n	}"))
ntok("util-helper",("""			u, ok := n.variableNames[utilityVar]
			if !ok {
				return nil, fmt.Errorf("utility query variable %s not found", utilityVar)
			}
			if u.Variable.NodeType != ve.UtilityNode {
				return nil, fmt.Errorf("utility query variable %s is not a utility node", utilityVar)
			}
			util = &u.VeVariable
""","""			util, err = n.utilityVariable(utilityVar)
			if err != nil {
				return nil, err
			}
"""),("// ToEvidence converts a","""func (n *Network) utilityVariable(name string) (*ve.Variable, error) {
	u, ok := n.variableNames[name]
	if !ok {
		return nil, fmt.Errorf("utility query variable %s not found", name)
	}
	if u.Variable.NodeType != ve.UtilityNode {
		return nil, fmt.Errorf("utility query variable %s is not a utility node", name)
	}
	return &u.VeVariable, nil
}

// ToEvidence converts a"""))
ntok("split-solve",("	f, err := n.solve(evidence, query, false, \"\", ignorePolicies)","	if query == nil {\n		query = []string{}\n	}\n	f, err := n.solve(evidence, query, false, \"\", ignorePolicies)"))
ntok("sp-copy",("""		for i := 0; i < idx; i++ {
			newVars[i] = variables[i]
		}
		for i := idx + 1; i < len(variables); i++ {
			newVars[i-1] = variables[i]
		}
""","""		copy(newVars, variables[:idx])
		copy(newVars[idx:], variables[idx+1:])
"""))
ntok("sp-append",("""		newVars := make([]ve.Variable, len(variables))
""","""		newVars := make([]ve.Variable, 0, len(variables))
"""),("""		for i := 0; i < idx; i++ {
			newVars[i] = variables[i]
		}
		for i := idx + 1; i < len(variables); i++ {
			newVars[i-1] = variables[i]
		}
		newVars[len(newVars)-1] = variables[idx]
""","""		newVars = append(newVars, variables[:idx]...)
		newVars = append(newVars, variables[idx+1:]...)
		newVars = append(newVars, variables[idx])
"""))
ntok("sp-skip",("""		for i := 0; i < idx; i++ {
			newVars[i] = variables[i]
		}
		for i := idx + 1; i < len(variables); i++ {
			newVars[i-1] = variables[i]
		}
		newVars[len(newVars)-1] = variables[idx]
""","""		j := 0
		for i, v := range variables {
			if i == idx {
				continue
			}
			newVars[j] = v
			j++
		}
		newVars[j] = variables[idx]
"""))
ntok("sp-given",("""		given := make([]string, len(newVars)-1)
		for i := 0; i < len(newVars)-1; i++ {
			given[i] = n.variables[newVars[i].Id()].Name
		}
""","""		given := make([]string, 0, len(newVars)-1)
		for _, v := range newVars[:len(newVars)-1] {
			given = append(given, n.variables[v.Id()].Name)
		}
"""))
ntok("sp-given2",("""		given := make([]string, len(newVars)-1)
		for i := 0; i < len(newVars)-1; i++ {
""","""		given := make([]string, len(newVars)-1)
		for i := range given {
"""))
ntok("sp-iter",("""		for name, v := range n.variableNames {
			if v.VeVariable.NodeType() != ve.DecisionNode {
				continue
			}
			if p, ok := policies[v.VeVariable]; ok {
				n.policies[name] = *p[1]
			}
		}
""","""		for name, v := range n.variableNames {
			if v.VeVariable.NodeType() == ve.DecisionNode {
				p, ok := policies[v.VeVariable]
				if !ok {
					continue
				}
				n.policies[name] = *p[1]
			}
		}
"""))
ntok("sp-iter2",("""			if v.VeVariable.NodeType() != ve.DecisionNode {
				continue
			}
			if p, ok""","""			if p, ok"""))
ntok("sp-lit",("""		ff := Factor{
			For:   name,
			Given: given,
			Table: f.Data(),
		}
		result[name] = ff
""","""		result[name] = Factor{For: name, Given: given, Table: f.Data()}
"""))
ntok("sp-range",("	for i := 0; i < decisions; i++ {\n		var err","	for range decisions {\n		var err"))
ntok("sp-count",("	decisions := 0\n	for i := range n.variables {\n		if n.variables[i].NodeType == ve.DecisionNode {\n			decisions++\n		}\n	}\n	if decisions == 0 {\n		return 1\n	}\n	return decisions","	decisions := 0\n	for _, v := range n.variables {\n		if v.NodeType == ve.DecisionNode {\n			decisions++\n		}\n	}\n	return max(decisions, 1)"))
ntok("nu-vars",("	inv := n.ve.Variables().Invert(probs)\n	return n.ve.Variables().Product(utility, &inv)","	vars := n.ve.Variables()\n	inv := vars.Invert(probs)\n	result := vars.Product(utility, &inv)\n	return result"))
ntok("te-loop",("	probs := make([]float64, len(outcomes))\n	probs[idx] = 1.0\n	return probs, nil","	probs := make([]float64, len(outcomes))\n	for i := range probs {\n		if i == idx {\n			probs[i] = 1\n		}\n	}\n	return probs, nil"))
ntok("te-find",("	i := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == variable })\n	if i < 0 || i == n.totalUtilityIndex {","	i := -1\n	for j := range n.variables {\n		if n.variables[j].Name == variable {\n			i = j\n			break\n		}\n	}\n	if i < 0 || i == n.totalUtilityIndex {"))
ntok("re-contains",("	for i, d := range done {\n		if d || fVariables[i].Is(last) {\n			continue\n		}\n		vars = append(vars, fVariables[i])\n	}","	for i, v := range fVariables {\n		if !done[i] && !v.Is(last) {\n			vars = append(vars, v)\n		}\n	}"))
ntok("re-donelast",("	last := fVariables[idx]\n","	last := fVariables[idx]\n	done[idx] = true\n"),("		if d || fVariables[i].Is(last) {","		if d {"))
ntok("toVE-split",("""	// collect variables for lookup
	for i, v := range n.variables {
		// skip total utility node
		if i == n.totalUtilityIndex {
			totalUtilityName = v.Name
			continue
		}
		// treat""","""	// collect variables for lookup
	for i := range n.variables {
		v := n.variables[i]
		// skip total utility node
		if i == n.totalUtilityIndex {
			totalUtilityName = v.Name
			continue
		}
		// treat"""))
ntok("ptr-variable",("				varNames[v.Name] = &varIDs[i]\n				continue\n","				vv := &varIDs[i]\n				varNames[v.Name] = vv\n				continue\n"))

ntok("r-normfirst",("		m := n.Marginal(f, q)\n		n := n.Normalize(&m)\n		result[q] = n.Data()","		nf := n.Normalize(f)\n		m := n.Marginal(&nf, q)\n		result[q] = m.Data()"))
