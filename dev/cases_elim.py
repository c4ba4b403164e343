E="ve/ve.go"
RE='''		if slices.Contains(ve.factors[k].variables, evidence.Variable) {
			indices = append(indices, k)
		}
'''
case("el-ev-first","C16",(E,RE,RE.replace("indices = append(indices, k)\n","indices = append(indices, k)\n\t\t\tif len(ve.factors[k].variables) == 1 {\n\t\t\t\tbreak\n\t\t\t}\n")))
case("el-ev-guard","C16",(E,RE,RE.replace("evidence.Variable) {","evidence.Variable) && len(ve.factors[k].variables) > 1 {")))
case("el-ev-last","C16",(E,"	for _, ev := range evidence {\n		ve.restrictEvidence(ev)\n	}","	for i := 0; i < len(evidence)-1; i++ {\n		ve.restrictEvidence(evidence[i])\n	}\n	if len(evidence) == 1 {\n		ve.restrictEvidence(evidence[0])\n	}"))
case("el-ev-cap","C16",(E,"	for _, ev := range evidence {\n		ve.restrictEvidence(ev)\n	}","	for i, ev := range evidence {\n		if i > 7 {\n			break\n		}\n		ve.restrictEvidence(ev)\n	}"))
case("el-ev-skip0","C16",(E,"	for _, ev := range evidence {\n		ve.restrictEvidence(ev)","	for _, ev := range evidence {\n		if ev.Variable.nodeType == DecisionNode {\n			continue\n		}\n		ve.restrictEvidence(ev)"))
case("el-ev-value","C16",(E,"Restrict(fac, evidence.Variable, evidence.Value)","Restrict(fac, evidence.Variable, min(evidence.Value, 3))"))
case("el-ev-nodel","C16",(E,"		delete(ve.factors, idx)\n\n		fac2","		fac2"))
case("el-ev-drop1","C16",(E,"		ve.factors[fac2.id] = &fac2","		if len(fac2.variables) > 0 {\n			ve.factors[fac2.id] = &fac2\n		}"))
case("el-rm-utilonly","C16",(E,"if u.NodeType() == UtilityNode && (except == nil || u.id != except.id) {","if u.NodeType() == UtilityNode && (except == nil || u.index > except.index) {"))
case("el-rm-decision","C16",(E,"if u.NodeType() == UtilityNode && (except == nil || u.id != except.id) {","if u.NodeType() != ChanceNode && (except == nil || u.id != except.id) {"))
case("el-rm-one","C16",(E,"		delete(ve.factors, idx)\n	}\n}\n\nfunc (ve *VE) sumUtilities","		delete(ve.factors, idx)\n		if except != nil {\n			break\n		}\n	}\n}\n\nfunc (ve *VE) sumUtilities"))
case("el-sum-weightk","C16",(E,"for i, u := range utils {","for _, u := range utils {"),(E,"ve.weights[i]}})","ve.weights[len(factors)]}})"))
case("el-sum-weight-skip","C16",(E,"				if ve.weights != nil {","				if ve.weights != nil && ve.weights[i] != 0 {"))
case("el-sum-weight-2","C16",(E,"				if ve.weights != nil {","				if ve.weights != nil && len(factors) > 0 {"))
case("el-sum-sumout1","C16",(E,"		ve.eliminated[u.index] = true\n	}\n\n	for _, idx := range indices {\n		delete(ve.factors, idx)\n	}\n\n	ve.factors[sum.id]","		ve.eliminated[u.index] = true\n		if len(sum.variables) == 0 {\n			break\n		}\n	}\n\n	for _, idx := range indices {\n		delete(ve.factors, idx)\n	}\n\n	ve.factors[sum.id]"))
case("el-sum-nodel","C16",(E,"	for _, idx := range indices {\n		delete(ve.factors, idx)\n	}\n\n	ve.factors[sum.id]","	for _, idx := range indices[1:] {\n		delete(ve.factors, idx)\n	}\n\n	ve.factors[sum.id]"))
case("el-sum-maybe","C16",(E,"	ve.factors[sum.id] = &sum","	if len(factors) > 1 || ve.weights != nil {\n		ve.factors[sum.id] = &sum\n	}"))
case("el-hid-query","C16",(E,"	for _, v := range query {\n		delete(hidden, v.id)\n	}","	for _, v := range query[:min(len(query), 1)] {\n		delete(hidden, v.id)\n	}"))
case("el-hid-nodec","C16",(E,"if v.NodeType() != ChanceNode || ve.eliminated[i] || isDecisionParent[v.index] {","if v.NodeType() != ChanceNode || ve.eliminated[i] {"),(E,"	isDecisionParent := ve.getDecisionParents(singleDecision)","	_ = ve.getDecisionParents(singleDecision)"))
case("el-hid-type","C16",(E,"if v.NodeType() != ChanceNode || ve","if v.NodeType() == UtilityNode || ve"))
case("el-hid-out","C16",(E,"if v.NodeType() != ChanceNode || ve","if v.outcomes == 1 || v.NodeType() != ChanceNode || ve"))
case("el-hid-elimid","C16",(E,"	for i, v := range ve.variables.variables {\n		if v.NodeType() != Ch","	for _, v := range ve.variables.variables {\n		if v.NodeType() != Ch"),(E,"ve.eliminated[i] || isD","ve.eliminated[v.id%len(ve.eliminated)] || isD"))
case("el-hid-decid","C16",(E,"isDecisionParent[v.index] = true","isDecisionParent[v.id] = true"))
case("el-hid-decfirst","C16",(E,"				isDecisionParent[v.index] = true\n			}\n		}\n		if single","				isDecisionParent[v.index] = true\n			}\n			break\n		}\n		if single"))
case("el-hid-decskip","C16",(E,"			for _, v := range vars {\n				isDecisionParent[v.index] = true","			for _, v := range vars {\n				if v.nodeType == DecisionNode {\n					continue\n				}\n				isDecisionParent[v.index] = true"))
case("el-hid-singlefirst","C16",(E,"	for i := len(decisions) - 1; i >= 0; i-- {\n		dec := decisions[i]\n		if vars, ok","	for i := 0; i < len(decisions); i++ {\n		dec := decisions[i]\n		if vars, ok"))
case("el-hid-degree","C16",(E,"	for _, v := range hiddenList {\n		ve.removeHidden(v.Variable)","	for _, v := range hiddenList {\n		if v.Degree > 20 {\n			continue\n		}\n		ve.removeHidden(v.Variable)"))
case("el-hid-last","C16",(E,"	for _, v := range hiddenList {\n		ve.removeHidden(v.Variable)","	for _, v := range hiddenList {\n		if len(ve.factors) == 1 {\n			break\n		}\n		ve.removeHidden(v.Variable)"))
RH='''		if slices.ContainsFunc(f.variables, func(v Variable) bool { return v.id == variable.id }) {
			indices = append(indices, k)
'''
case("el-rh-contains","C16",(E,RH,RH.replace("slices.ContainsFunc(f.variables, func(v Variable) bool { return v.id == variable.id })","slices.Contains(f.variables, variable)")))
case("el-rh-index","C16",(E,"			factors = append(factors, f)\n			//}\n		}","			if len(f.variables) > 0 && f.variables[len(f.variables)-1].nodeType != UtilityNode {\n				factors = append(factors, f)\n			}\n			//}\n		}"))
case("el-rh-onedel","C16",(E,"	prod = ve.variables.SumOut(&prod, variable)\n\n	for _, idx := range indices {\n		delete(ve.factors, idx)\n	}","	prod = ve.variables.SumOut(&prod, variable)\n\n	for i := 0; i < len(indices)-1; i++ {\n		delete(ve.factors, indices[i])\n	}\n	if len(indices) == 1 {\n		delete(ve.factors, indices[0])\n	}"))
case("el-rh-lost","C16",(E,"	ve.factors[prod.id] = &prod","	if len(prod.variables) > 0 {\n		ve.factors[prod.id] = &prod\n	}"))
case("el-rh-one","C16",(E,"	if len(factors) == 0 {\n		// Not","	if len(factors) <= 1 && len(ve.factors) > 3 {\n		// Not"))
case("el-mul-skip","C16",(E,"		factors = append(factors, f)\n		//}\n	}\n\n	clear","		if len(f.variables) > 0 {\n			factors = append(factors, f)\n		}\n		//}\n	}\n\n	clear"))
case("el-order","C16",(E,"	ve.eliminateHidden(evidence, query, false)\n\n	return ve.summarize()","	ve.eliminateHidden(evidence, query, false)\n	if utility && utilityVar != nil {\n		ve.removeUtilities(utilityVar)\n	}\n\n	return ve.summarize()"))
case("el-order2","C16",(E,"	ve.eliminateEvidence(evidence)\n\n	if utility {","	if !utility {\n		ve.eliminateEvidence(evidence)\n	}\n\n	if utility {"),(E,"	ve.eliminateHidden(evidence, query, false)\n\n	return","	ve.eliminateHidden(evidence, query, false)\n	if utility {\n		ve.eliminateEvidence(evidence)\n	}\n\n	return"))
case("el-single","C16",(E,"	ve.eliminateHidden(evidence, query, false)\n\n	return","	ve.eliminateHidden(evidence, query, true)\n\n	return"))
case("el-pol-forward","C16",(E,"	for i := len(decisions) - 1; i >= 0; i-- {\n		dec := decisions[i]\n		factors = ve","	for i := 0; i < len(decisions); i++ {\n		dec := decisions[i]\n		factors = ve"))
case("el-pol-notype","C16",(E,"		ve.variables.variables[dec.index].nodeType = ChanceNode\n",""))
case("el-pol-noelim","C16",(E,"		ve.eliminateHidden(nil, nil, single)\n\n		factors = factors[:0]","		factors = factors[:0]"))
case("el-pol-noinsert","C16",(E,"		ve.factors[policy.id] = &policy\n",""))
case("el-pol-onlyone","C16",(E,"		if len(factors) == 1 {\n			fac","		if len(factors) <= 2 {\n			fac"))
case("el-pol-find","C16",(E,"		if len(deps) == 0 && len(f.variables) == 1 {\n			result = append(result, f)\n			continue","		if len(deps) == 0 && len(f.variables) == 1 {\n			continue"))
case("el-pol-hasparent","C16",(E,"		hasParent := true\n","		hasParent := false\n"))
case("el-pol-stop","C16",(E,"		factors = factors[:0]\n\n		if single {","		factors = factors[:0]\n\n		if single || len(ve.factors) == 1 {"))
case("el-pol-nosum","C16",(E,"	ve.sumUtilities()\n\n	ve.eliminateHidden(nil, nil, single)","	if ve.weights != nil || !single {\n		ve.sumUtilities()\n	}\n\n	ve.eliminateHidden(nil, nil, single)"))
case("el-pol-keep","C16",(E,"		factors = factors[:0]\n\n		if single","		if single"))

# refactorings
case("elok-select","OK",(E,'''	indices := make([]int, 0, len(ve.factors))
	for _, k := range ve.factorIDs() {
		if slices.Contains(ve.factors[k].variables, evidence.Variable) {
			indices = append(indices, k)
		}
	}

	for _, idx := range indices {''','''	for _, idx := range ve.containing(evidence.Variable) {'''),(E,"func (ve *VE) removeHidden(","""// containing returns the IDs of all factors that contain a variable.
func (ve *VE) containing(v Variable) []int {
	ids := []int{}
	for _, id := range ve.factorIDs() {
		f := ve.factors[id]
		found := false
		for i := range f.variables {
			if f.variables[i].id == v.id {
				found = true
				break
			}
		}
		if found {
			ids = append(ids, id)
		}
	}
	return ids
}

func (ve *VE) removeHidden("""))
case("elok-select2","OK",(E,'''	indices := make([]int, 0, len(ve.factors))
	for _, k := range ve.factorIDs() {
		if slices.Contains(ve.factors[k].variables, evidence.Variable) {
			indices = append(indices, k)
		}
	}

	for _, idx := range indices {
		fac := ve.factors[idx]
		delete''','''	for _, idx := range ve.factorIDs() {
		fac := ve.factors[idx]
		if !fac.has(evidence.Variable) {
			continue
		}
		delete'''),("ve/factor.go","// Helper type for","""// has tells if the factor contains a variable.
func (f *Factor) has(v Variable) bool {
	for i := range f.variables {
		if f.variables[i].id == v.id {
			return true
		}
	}
	return false
}

// Helper type for"""),(E,"if slices.ContainsFunc(f.variables, func(v Variable) bool { return v.id == variable.id }) {","if f.has(variable) {"))
case("elok-rh-two","OK",(E,'''	for _, k := range ve.factorIDs() {
		f := ve.factors[k]
		if slices.ContainsFunc(f.variables, func(v Variable) bool { return v.id == variable.id }) {
			indices = append(indices, k)
''','''	for _, k := range ve.factorIDs() {
		f := ve.factors[k]
		if slices.IndexFunc(f.variables, func(v Variable) bool { return v.id == variable.id }) < 0 {
			continue
		}
		{
			indices = append(indices, k)
'''))
case("elok-rh-split","OK",(E,'''		f := ve.factors[k]
		if slices.ContainsFunc(f.variables, func(v Variable) bool { return v.id == variable.id }) {
			indices = append(indices, k)
''','''		f := ve.factors[k]
		if slices.ContainsFunc(f.variables, func(v Variable) bool { return variable.id == v.id }) {
			indices = append(indices, k)
		}
	}
	for _, k := range indices {
		f := ve.factors[k]
		{
'''))
case("elok-hid-nested","OK",(E,'''		if v.NodeType() != ChanceNode || ve.eliminated[i] || isDecisionParent[v.index] {
			continue
		}
		hidden[v.id] = v
''','''		if v.NodeType() == ChanceNode {
			if !ve.eliminated[v.index] && !isDecisionParent[i] {
				hidden[v.id] = v
			}
		}
'''))
case("elok-hid-list","OK",(E,'''	hidden := map[int]Variable{}
	for i, v := range ve.variables.variables {
		if v.NodeType() != ChanceNode || ve.eliminated[i] || isDecisionParent[v.index] {
			continue
		}
		hidden[v.id] = v
	}
	for _, ev := range evidence {
		delete(hidden, ev.Variable.id)
	}
	for _, v := range query {
		delete(hidden, v.id)
	}
''','''	hidden := []Variable{}
	for i, v := range ve.variables.variables {
		if v.NodeType() != ChanceNode || ve.eliminated[i] || isDecisionParent[v.index] || isFixed(v, evidence, query) {
			continue
		}
		hidden = append(hidden, v)
	}
'''),(E,"func (ve *VE) getDecisionParents(","""// isFixed tells if a variable has evidence or is part of the query.
func isFixed(v Variable, evidence []Evidence, query []Variable) bool {
	for _, ev := range evidence {
		if ev.Variable.id == v.id {
			return true
		}
	}
	for _, q := range query {
		if q.id == v.id {
			return true
		}
	}
	return false
}

func (ve *VE) getDecisionParents("""))
case("elok-mul-maps","OK",(E,'''	factors := make([]*Factor, 0, len(ve.factors))
	//utilityFactors := []*Factor{}
	for _, k := range ve.factorIDs() {
		f := ve.factors[k]
''','''	ids := ve.factorIDs()
	factors := make([]*Factor, 0, len(ids))
	for i := 0; i < len(ids); i++ {
		f := ve.factors[ids[i]]
'''))
case("elok-ids","OK",(E,'''	ids := make([]int, 0, len(ve.factors))
	for id := range ve.factors {
		ids = append(ids, id)
	}
	slices.Sort(ids)
	return ids''','''	return slices.Sorted(maps.Keys(ve.factors))'''),(E,'	"fmt"\n','	"fmt"\n	"maps"\n'))
case("elok-util-helper","OK",(E,'''	utils := []Variable{}
	for _, u := range ve.variables.variables {
		if u.NodeType() != UtilityNode {
			continue
		}
		utils = append(utils, u)
	}
''','''	utils := ve.ofType(UtilityNode)
'''),(E,'''	dec := []Variable{}
	for _, v := range ve.variables.variables {
		if v.NodeType() == DecisionNode {
			dec = append(dec, v)
		}
	}
	return''','''	dec := ve.ofType(DecisionNode)
	return'''),(E,"// getDecisions finds","""// ofType returns all variables of a type.
func (ve *VE) ofType(t NodeType) []Variable {
	vars := make([]Variable, 0, len(ve.variables.variables))
	for i := range ve.variables.variables {
		if ve.variables.variables[i].nodeType == t {
			vars = append(vars, ve.variables.variables[i])
		}
	}
	return vars
}

// getDecisions finds"""))
case("elok-weights","OK",(E,'''				scaled := f
				if ve.weights != nil {
					ff := ve.variables.Product(scaled, &Factor{data: []float64{ve.weights[i]}})
					scaled = &ff
				}
				indices = append(indices, k)
				factors = append(factors, scaled)
''','''				indices = append(indices, k)
				factors = append(factors, ve.weighted(f, i))
'''),(E,"type variableDegree struct","""// weighted returns a utility factor multiplied by its weight.
func (ve *VE) weighted(f *Factor, i int) *Factor {
	if ve.weights == nil {
		return f
	}
	weight := &Factor{data: []float64{ve.weights[i]}}
	scaled := ve.variables.Product(f, weight)
	return &scaled
}

type variableDegree struct"""))
case("elok-pol-prod","OK",(E,'''		var fac *Factor
		if len(factors) == 1 {
			fac = factors[0]
		} else {
			f := ve.variables.Product(factors...)
			fac = &f
		}
''','''		fac := factors[0]
		if len(factors) > 1 {
			f := ve.variables.Product(factors...)
			fac = &f
		}
'''))
case("elok-pol-find","OK",(E,'''		if !slices.Contains(f.variables, decision) {
			continue
		}
		if len(deps) == 0 && len(f.variables) == 1 {
			result = append(result, f)
			continue
		}
		hasParent := true
		//hasNonParent := false
		for _, v := range f.variables {
			if slices.Contains(deps, v) {
				hasParent = true
			} /*else if v != dec {
				hasNonParent = true
			}*/
		}
		if !hasParent /*|| hasNonParent*/ {
			continue
		}
		result = append(result, f)
	}
	if len(result) == 0 {
		for _, k := range ve.factorIDs() {
			f := ve.factors[k]
			if !slices.Contains(f.variables, decision) {
				continue
			}
			if len(f.variables) > 1 {
				continue
			}
			result = append(result, f)
		}
	}
''','''		if slices.Contains(f.variables, decision) {
			result = append(result, f)
		}
	}
'''),(E,"	deps := ve.dependencies[decision]\n	for _, k := range ve.factorIDs() {\n		f","	for _, k := range ve.factorIDs() {\n		f"))
case("elok-rm-any","OK",(E,'''	indices := []int{}

	for k, f := range ve.factors {
		for _, u := range utils {
			if slices.Contains(f.variables, u) {
				indices = append(indices, k)
				break
			}
		}
	}

	for _, idx := range indices {
		delete(ve.factors, idx)
	}
''','''	for k, f := range ve.factors {
		if f.containsAny(utils) {
			delete(ve.factors, k)
		}
	}
'''),("ve/factor.go","import \"fmt\"","import (\n\t\"fmt\"\n\t\"slices\"\n)"),("ve/factor.go","// Helper type for","""// containsAny tells if the factor contains any of the variables.
func (f *Factor) containsAny(vars []Variable) bool {
	for _, v := range vars {
		if slices.Contains(f.variables, v) {
			return true
		}
	}
	return false
}

// Helper type for"""))
case("elok-solve-switch","OK",(E,'''	if utility {
		if utilityVar == nil {
			ve.sumUtilities()
		} else {
			ve.removeUtilities(utilityVar)
		}
	} else {
		ve.removeUtilities(nil)
	}
''','''	switch {
	case !utility:
		ve.removeUtilities(nil)
	case utilityVar != nil:
		ve.removeUtilities(utilityVar)
	default:
		ve.sumUtilities()
	}
'''))
case("elok-decpar","OK",(E,'''	for i := len(decisions) - 1; i >= 0; i-- {
		dec := decisions[i]
		if vars, ok := ve.dependencies[dec]; ok {
			for _, v := range vars {
				isDecisionParent[v.index] = true
			}
		}
		if single {
			break
		}
	}
''','''	for i := len(decisions) - 1; i >= 0; i-- {
		for _, v := range ve.dependencies[decisions[i]] {
			isDecisionParent[v.index] = true
		}
		if single {
			break
		}
	}
'''))
case("elok-rm-continue","OK",(E,"		if u.NodeType() == UtilityNode && (except == nil || u.id != except.id) {\n			utils = append(utils, u)\n		}","		if u.NodeType() != UtilityNode {\n			continue\n		}\n		if except != nil && u.id == except.id {\n			continue\n		}\n		utils = append(utils, u)"))
case("elok-rh-replace","OK",(E,'''	prod := ve.variables.Product(factors...)
	prod = ve.variables.SumOut(&prod, variable)

	for _, idx := range indices {
		delete(ve.factors, idx)
	}

	ve.eliminated[variable.index] = true
	ve.factors[prod.id] = &prod
''','''	prod := ve.variables.Product(factors...)
	result := ve.variables.SumOut(&prod, variable)
	ve.replace(indices, &result)
	ve.eliminated[variable.index] = true
'''),(E,"func (ve *VE) multiplyAll(","""// replace factors by another one.
func (ve *VE) replace(ids []int, f *Factor) {
	for _, id := range ids {
		delete(ve.factors, id)
	}
	ve.factors[f.id] = f
}

func (ve *VE) multiplyAll("""))
