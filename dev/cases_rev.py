# regressions of fixes
case("rv-query-result","C08",(NW,"		if _, ok := n.variableIndex(f, q); !ok {\n			return nil, nil, fmt.Errorf(\"query variable %s is not part of the result\", q)\n		}\n",""))
case("rv-ev-utility","C08",(NW,"		if vv.Variable.NodeType == ve.UtilityNode {\n			return nil, fmt.Errorf(\"evidence variable %s is a utility node\", name)\n		}\n",""))
case("rv-util-chance","C08",(NW,"			if u.Variable.NodeType != ve.UtilityNode {\n				return nil, fmt.Errorf(\"utility query variable %s is not a utility node\", utilityVar)\n			}\n",""))
case("rv-util-decision","C08",(NW,"			if u.Variable.NodeType != ve.UtilityNode {\n				return nil, fmt.Errorf(\"utility q","			if u.Variable.NodeType == ve.ChanceNode {\n				return nil, fmt.Errorf(\"utility q"))
case("rv-add-id","C18",(VV,"	v.ids[id] = true\n",""))
case("rv-no-factor","C16",("ve/ve.go","	if len(factors) == 0 {\n		// Not contained in any factor, so there is nothing to sum out.\n		ve.eliminated[variable.index] = true\n		return\n	}\n",""))
case("rvok-switch","OK",(NW,"			if u.Variable.NodeType != ve.UtilityNode {\n				return nil, fmt","			switch u.Variable.NodeType {\n			case ve.UtilityNode:\n			default:\n				return nil, fmt"))
