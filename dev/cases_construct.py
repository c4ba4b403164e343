# C21: construction of networks
case("k21-factor-pos","C21",(NW,"v.Factor = &n.factors[idx]","v.Factor = &n.factors[min(i, idx)]"))
case("k21-factor-given","C21",(NW,"func(f Factor) bool { return f.For == v.Name })","func(f Factor) bool { return f.For == v.Name && len(f.Table) > 0 })"))
case("k21-factor-info","C21",(NW,"return f.For == v.Name })","return strings.EqualFold(f.For, v.Name) })"))
case("k21-new-noname","C21",(NW,"v.Factor = &Factor{For: v.Name}","v.Factor = &Factor{}"))
case("k21-cols-table","C21",(NW,"v.Factor.columns = len(v.Outcomes)","v.Factor.columns = max(len(v.Outcomes), 2)"))
case("k21-cols-rows","C21",(NW,"v.Factor.columns = len(v.Outcomes)","v.Factor.columns = len(n.variables[0].Outcomes)"))
case("k21-cols-cond","C21",(NW,"		v.Factor.columns = len(v.Outcomes)\n","		if v.NodeType != ve.DecisionNode {\n			v.Factor.columns = len(v.Outcomes)\n		}\n"))
case("k21-outs-rev","C21",(NW,"v.Factor.outcomes[i] = n\n","v.Factor.outcomes[len(v.Factor.Given)-1-i] = n\n"))
case("k21-outs-own","C21",(NW,"v.Factor.outcomes[i] = n\n","v.Factor.outcomes[i] = max(n, len(v.Outcomes))\n"))
case("k21-outs-self","C21",(NW,"			v.Factor.outcomes[i] = n\n","			_ = n\n			v.Factor.outcomes[i] = len(v.Outcomes)\n"))
case("k21-outs-map","C21",(NW,"outcomes[v.Name] = len(v.Outcomes)","outcomes[v.Name] = len(n.variables[0].Outcomes)"))
case("k21-total-last","C21",(NW,"		if n.totalUtilityIndex >= 0 {\n			return fmt.Errorf(\"found multiple nodes for total utility\")\n		}\n",""))
case("k21-total-decision","C21",(NW,"			if p.NodeType == ve.UtilityNode {\n				hasUtilParents","			if p.NodeType != ve.ChanceNode {\n				hasUtilParents"))
case("k21-total-first","C21",(NW,"		n.totalUtilityIndex = i\n	}","		n.totalUtilityIndex = i\n		break\n	}"))
case("k21-total-zero","C21",(NW,"	n.totalUtilityIndex = -1\n","	n.totalUtilityIndex = 0\n"))
case("k21-mixed-ok","C21",(NW,"		if hasUtilParents && hasOtherParents {\n","		if hasUtilParents && hasOtherParents && len(v.Factor.Given) > 2 {\n"))
case("k21-noparents-ok","C21",(NW,"		if !hasUtilParents && !hasOtherParents {\n","		if !hasUtilParents && !hasOtherParents && len(v.Outcomes) > 1 {\n"))
case("k21-outcomes-less","C21",(NW,"		if len(v.Outcomes) != len(v.Factor.Given) {","		if len(v.Outcomes) < len(v.Factor.Given) {"))
case("k21-parent-missing","C21",(NW,"			n, ok := outcomes[g]\n			if !ok {","			n, ok := outcomes[g]\n			if !ok && v.NodeType == ve.UtilityNode {"))
case("k21-dup-ok","C21",(NW,"		if _, ok := varNames[v.Name]; ok {","		if o, ok := varNames[v.Name]; ok && o.NodeType == v.NodeType {"))
case("k21-reject-decision","C21",(NW,"		if len(v.Outcomes) == 0 {","		if len(v.Outcomes) == 0 || v.NodeType == ve.DecisionNode && len(v.Outcomes) < 2 {"))
case("k21-size-less","C21",(NW,"		if len(v.Factor.Table) != expected {","		if len(v.Factor.Table) < expected {"))
case("k21-size-first","C21",(NW,"			for _, o := range v.Factor.outcomes {\n				expected *= o","			for _, o := range v.Factor.outcomes[1:] {\n				expected *= o"))
case("k21-fields","C21",(NW,"		info:      info,","		info:      name,"))
case("k21-dupfactor","C21",(NW,"		factorNames[n.factors[i].For] = true\n","		factorNames[n.factors[i].For] = len(n.factors[i].Given) > 0\n"))
# refactorings
case("k21ok-loop","OK",(NW,"		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })\n","		idx := -1\n		for j := range n.factors {\n			if n.factors[j].For == v.Name {\n				idx = j\n				break\n			}\n		}\n"))
case("k21ok-map","OK",(NW,"	factorNames := map[string]bool{}\n","	factorNames := map[string]*Factor{}\n"),(NW,"		if factorNames[n.factors[i].For] {","		if _, ok := factorNames[n.factors[i].For]; ok {"),(NW,"		factorNames[n.factors[i].For] = true\n","		factorNames[n.factors[i].For] = &n.factors[i]\n"),
 (NW,"""		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })
		if idx < 0 {
			v.Factor = &Factor{For: v.Name}
		} else {
			v.Factor = &n.factors[idx]
		}
""","""		if f, ok := factorNames[v.Name]; ok {
			v.Factor = f
		} else {
			v.Factor = &Factor{For: v.Name}
		}
"""))
case("k21ok-helper","OK",(NW,"""		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })
		if idx < 0 {
			v.Factor = &Factor{For: v.Name}
		} else {
			v.Factor = &n.factors[idx]
		}
""","""		v.Factor = n.factorFor(v.Name)
"""),(NW,"// checkTables checks","""func (n *Network) factorFor(name string) *Factor {
	for i := range n.factors {
		if n.factors[i].For == name {
			return &n.factors[i]
		}
	}
	return &Factor{For: name}
}

// checkTables checks"""))
case("k21ok-local","OK",(NW,"""		v.Factor.columns = len(v.Outcomes)
		v.Factor.outcomes = make([]int, len(v.Factor.Given))
		for i, g := range v.Factor.Given {
			n, ok := outcomes[g]
			if !ok {
				return fmt.Errorf("parent variable %s of %s not found", g, v.Name)
			}
			v.Factor.outcomes[i] = n
		}
""","""		f := v.Factor
		f.columns = outcomes[v.Name]
		sizes := make([]int, 0, len(f.Given))
		for _, g := range f.Given {
			p, ok := varNames[g]
			if !ok {
				return fmt.Errorf("parent variable %s of %s not found", g, v.Name)
			}
			sizes = append(sizes, len(p.Outcomes))
		}
		f.outcomes = sizes
"""))
case("k21ok-append","OK",(NW,"		v.Factor.outcomes = make([]int, len(v.Factor.Given))\n		for i, g := range","		v.Factor.outcomes = nil\n		for _, g := range"),(NW,"			v.Factor.outcomes[i] = n\n","			v.Factor.outcomes = append(v.Factor.outcomes, n)\n"))
case("k21ok-total-local","OK",(NW,"	n.totalUtilityIndex = -1\n","	total := -1\n"),(NW,"		if n.totalUtilityIndex >= 0 {\n","		if total != -1 {\n"),(NW,"		n.totalUtilityIndex = i\n	}\n	return nil","		total = i\n	}\n	n.totalUtilityIndex = total\n	return nil"))
case("k21ok-given-empty","OK",(NW,"		if !hasUtilParents && !hasOtherParents {\n","		if len(v.Factor.Given) == 0 {\n"))
case("k21ok-switch","OK",(NW,"""		if hasUtilParents && hasOtherParents {
			return fmt.Errorf("utility node %s has utility parents and other parents; can only have either or", v.Name)
		}
		if !hasUtilParents && !hasOtherParents {
			return fmt.Errorf("utility node %s has no parents", v.Name)
		}
		if !hasUtilParents {
			continue
		}
""","""		switch {
		case hasUtilParents && hasOtherParents:
			return fmt.Errorf("utility node %s has utility parents and other parents; can only have either or", v.Name)
		case hasOtherParents:
			continue
		case !hasUtilParents:
			return fmt.Errorf("utility node %s has no parents", v.Name)
		}
"""))
case("k21ok-count","OK",(NW,"		hasUtilParents := false\n		hasOtherParents := false\n","		util, other := 0, 0\n"),(NW,"				hasUtilParents = true\n			} else {\n				hasOtherParents = true\n","				util++\n			} else {\n				other++\n"),(NW,"		if hasUtilParents && hasOtherParents {","		if util > 0 && other > 0 {"),(NW,"		if !hasUtilParents && !hasOtherParents {","		if util+other == 0 {"),(NW,"		if !hasUtilParents {\n","		if util == 0 {\n"))
case("k21ok-size-helper","OK",(NW,"""		expected := v.Factor.columns
		if i != n.totalUtilityIndex {
			for _, o := range v.Factor.outcomes {
				expected *= o
			}
		}
""","""		expected := v.Factor.columns
		if i != n.totalUtilityIndex {
			expected = v.Factor.size()
		}
"""),(NW,"// checkTables checks","""func (f *Factor) size() int {
	s := f.columns
	for _, o := range f.outcomes {
		s *= o
	}
	return s
}

// checkTables checks"""))
