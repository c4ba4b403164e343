# C22: results shown
IF="cmd/bbn/inference.go"
PR="	totalProb := math.NaN()\n	if len(f.Data()) == 1 {\n		totalProb = f.Data()[0]\n	}\n"
case("sh-q-ev","C22",(SO,"		r, _, err := network.SolveQuery(evidence, []string{q}, ignorePolicies)","		r, _, err := network.SolveQuery(map[string]string{}, []string{q}, ignorePolicies)"))
case("sh-q-pol","C22",(SO,"		r, _, err := network.SolveQuery(evidence, []string{q}, ignorePolicies)","		r, _, err := network.SolveQuery(evidence, []string{q}, false)"))
case("sh-p-pol","C22",(SO,"	_, f, err := network.SolveQuery(evidence, []string{}, ignorePolicies)","	_, f, err := network.SolveQuery(evidence, []string{}, true)"))
case("sh-p-noev","C22",(SO,"	_, f, err := network.SolveQuery(evidence, []string{}, ignorePolicies)","	_, f, err := network.SolveQuery(nil, []string{}, ignorePolicies)"))
case("sh-q-name","C22",(SO,"		result[q], ok = r[q]","		result[queries[0]], ok = r[q]"))
case("sh-q-skipdec","C22",(SO,"		if n.Node().NodeType == ve.UtilityNode {\n			continue\n		}\n		if _, ok := ev","		if n.Node().NodeType != ve.ChanceNode {\n			continue\n		}\n		if _, ok := ev"))
case("sh-q-break","C22",(SO,"		if _, ok := evidence[n.Node().Name]; ok {\n			continue\n		}","		if _, ok := evidence[n.Node().Name]; ok {\n			break\n		}"))
case("sh-ev-skip","C22",(SO,"		result[variable] = p\n","		if value != \"\" && len(p) > 2 {\n			result[variable] = p\n		}\n"))
case("sh-ev-none","C22",(SO,"		result[variable] = p\n","		_ = p\n"))
case("sh-u-nodiv","C22",(SO,"		nodeUtility /= totalProb\n",""))
case("sh-u-mul","C22",(SO,"		nodeUtility /= totalProb\n","		nodeUtility *= totalProb\n"))
case("sh-t-nodiv","C22",(SO,"	totalUtility /= totalProb\n",""))
case("sh-u-sub","C22",(SO,"f, err = network.SolveUtility(evidence, []string{}, n, ignorePolicies)","f, err = network.SolveUtility(evidence, []string{}, \"\", ignorePolicies)"))
case("sh-u-pol","C22",(SO,"f, err = network.SolveUtility(evidence, []string{}, n, ignorePolicies)","f, err = network.SolveUtility(evidence, []string{}, n, !ignorePolicies)"))
case("sh-u-order","C22",(SO,"		result[n] = []float64{nodeUtility, totalUtility}","		result[n] = []float64{totalUtility, nodeUtility}"))
case("sh-u-one","C22",(SO,"		result[n] = []float64{nodeUtility, totalUtility}","		result[n] = []float64{nodeUtility}"))
case("sh-t-now","C22",(SO,"f[0] * totalUtilityNode.Factor.Table[i]","f[0]"))
case("sh-t-w0","C22",(SO,"f[0] * totalUtilityNode.Factor.Table[i]","f[0] * totalUtilityNode.Factor.Table[0]"))
case("sh-t-f1","C22",(SO,"util[i] = f[0] * totalUtilityNode","util[i] = f[1] * totalUtilityNode"))
case("sh-t-last","C22",(SO,"		util[len(util)-1] = totalUtility\n","		util[0] = totalUtility\n"))
case("sh-t-nolast","C22",(SO,"		util[len(util)-1] = totalUtility\n",""))
case("sh-t-g0","C22",(SO,"			f := result[g]\n","			_ = g\n			f := result[totalUtilityNode.Factor.Given[0]]\n"))
case("sh-t-idx","C22",(SO,"		if i == network.TotalUtilityIndex() {","		if i+1 == len(nodes) && network.TotalUtilityIndex() >= 0 {"))
case("sh-nan-neg","C22",(SO,"	if len(f.Data()) == 1 {\n		totalProb = f.Data()[0]\n	}\n","	if len(f.Data()) == 1 && f.Data()[0] < 1 {\n		totalProb = f.Data()[0]\n	}\n"))
case("sh-pol-none","C22",(IF,"	_, err = net.SolvePolicies(true)\n	if err != nil {\n		return nil, nil, nil, err\n	}\n",""))
case("sh-pol-step","C22",(IF,"net.SolvePolicies(true)","net.SolvePolicies(false)"))
case("sh-pol-ev","C22",(IF,"	_, err = net.SolvePolicies(true)\n	if err != nil {\n		return nil, nil, nil, err\n	}\n","	if len(ev) == 0 {\n		if _, err = net.SolvePolicies(true); err != nil {\n			return nil, nil, nil, err\n		}\n	}\n"))
case("sh-ign","C22",(IF,"tui.Solve(net, ev, tuiNodes, false)","tui.Solve(net, ev, tuiNodes, true)"))
case("sh-pr-noperc","C22",(IF,"p*100)","p)"))
case("sh-pr-dec","C22",(IF,"\" %9.3f%%\"","\" %9.2f%%\""))
case("sh-pr-util","C22",(IF,"if node.NodeType == ve.UtilityNode {","if node.NodeType != ve.ChanceNode {"))
case("sh-pr-mark","C22",(IF,"if _, ok := ev[node.Name]; ok {","if v, ok := ev[node.Name]; ok && v != \"true\" {"))
case("sh-pr-skip","C22",(IF,"				fmt.Print(\"                              \")\n","				if len(node.Outcomes) == 1 {\n					continue\n				}\n				fmt.Print(\"                              \")\n"))
case("sh-pr-first","C22",(IF,"				probs := result[node.Name]\n","				probs := result[nodes[0].Name]\n"))
case("sh-pr-cut","C22",(IF,"				for _, p := range probs {","				for _, p := range probs[:min(len(probs), len(states))] {"))
# refactorings
case("shok-joinloops","OK",(SO,"		if n.Node().NodeType == ve.UtilityNode {\n			continue\n		}\n		if _, ok := evidence[n.Node().Name]; ok {\n			continue\n		}\n		queries = append(queries, n.Node().Name)\n","		v := n.Node()\n		_, observed := evidence[v.Name]\n		if v.NodeType != ve.UtilityNode && !observed {\n			queries = append(queries, v.Name)\n		}\n"))
case("shok-helper","OK",(SO,PR,"	totalProb := single(f)\n"),(SO,"		nodeUtility := math.NaN()\n		if len(f.Data()) == 1 {\n			nodeUtility = f.Data()[0]\n		}\n\n		nodeUtility /= totalProb\n","		nodeUtility := single(f) / totalProb\n"),
 (SO,"	totalUtility := math.NaN()\n	if len(f.Data()) == 1 {\n		totalUtility = f.Data()[0]\n	}\n\n	totalUtility /= totalProb\n","	totalUtility := single(f) / totalProb\n"),
 (SO,"func solveEvidence(","// single returns the only value of f, or NaN.\nfunc single(f *ve.Factor) float64 {\n	data := f.Data()\n	if len(data) != 1 {\n		return math.NaN()\n	}\n	return data[0]\n}\n\nfunc solveEvidence("))
case("shok-append","OK",(SO,"		util := make([]float64, len(totalUtilityNode.Factor.Given)+1)\n","		util := make([]float64, 0, len(totalUtilityNode.Factor.Given)+1)\n"),(SO,"			util[i] = f[0] * totalUtilityNode.Factor.Table[i]","			util = append(util, f[0]*totalUtilityNode.Factor.Table[i])"),(SO,"		util[len(util)-1] = totalUtility\n		result[totalUtilityNode.Name] = util\n","		result[totalUtilityNode.Name] = append(util, totalUtility)\n"))
case("shok-idx","OK",(SO,"		if i == network.TotalUtilityIndex() {\n			totalUtilityNode = n.Node()\n			continue\n		}\n		if n.Node().NodeType == ve.UtilityNode {","		if i != network.TotalUtilityIndex() && n.Node().NodeType == ve.UtilityNode {"),(SO,"	f, err := network.SolveUtility(evidence, []string{}, \"\"","	if idx := network.TotalUtilityIndex(); idx >= 0 {\n		totalUtilityNode = nodes[idx].Node()\n	}\n\n	f, err := network.SolveUtility(evidence, []string{}, \"\""))
case("shok-idx2","OK",(SO,"	var totalUtilityNode *bbn.Variable\n",""),(SO,"			totalUtilityNode = n.Node()\n			continue\n","			continue\n"),(SO,"	if totalUtilityNode != nil {\n","	if network.TotalUtilityIndex() >= 0 {\n		totalUtilityNode := nodes[network.TotalUtilityIndex()].Node()\n"))
case("shok-okfirst","OK",(SO,"		var ok bool\n		result[q], ok = r[q]\n		if !ok {\n			panic(fmt.Sprintf(\"query variable %s not in result\", q))\n		}\n","		probs, ok := r[q]\n		if !ok {\n			panic(fmt.Sprintf(\"query variable %s not in result\", q))\n		}\n		result[q] = probs\n"))
case("shok-nilquery","OK",(SO,"	_, f, err := network.SolveQuery(evidence, []string{}, ignorePolicies)","	_, f, err := network.SolveQuery(evidence, nil, ignorePolicies)"))
case("shok-retmap","OK",(SO,"	result := map[string][]float64{}\n	err := solveEvidence(network, evidence, result)\n","	result, err := solveEvidence(network, evidence)\n"),(SO,"func solveEvidence(network *bbn.Network, evidence map[string]string, result map[string][]float64) error {\n","func solveEvidence(network *bbn.Network, evidence map[string]string) (map[string][]float64, error) {\n	result := make(map[string][]float64, len(evidence))\n"),(SO,"		p, err := network.ToEvidence(variable, value)\n		if err != nil {\n			return err\n		}\n		result[variable] = p\n	}\n	return nil\n","		p, err := network.ToEvidence(variable, value)\n		if err != nil {\n			return nil, err\n		}\n		result[variable] = p\n	}\n	return result, nil\n"))
case("shok-inline","OK",(SO,"		r, _, err := network.SolveQuery(evidence, []string{q}, ignorePolicies)","		query := []string{q}\n		r, _, err := network.SolveQuery(evidence, query, ignorePolicies)"),(SO,"		nodeUtility /= totalProb\n\n		result[n] = []float64{nodeUtility, totalUtility}","		result[n] = []float64{nodeUtility / totalProb, totalUtility}"))
case("shok-split","OK",(SO,"		totalUtilityNode != nil {","		totalUtilityNode != nil {") if False else (SO,"	if totalUtilityNode != nil {\n		util","	if totalUtilityNode == nil {\n		return nil\n	}\n	{\n		util"))
case("shok-weights","OK",(SO,"		for i, g := range totalUtilityNode.Factor.Given {\n			f := result[g]\n			util[i] = f[0] * totalUtilityNode.Factor.Table[i]\n","		weights := totalUtilityNode.Factor.Table\n		for i, g := range totalUtilityNode.Factor.Given {\n			util[i] = weights[i] * result[g][0]\n"))
case("shok-pr-helper","OK",(IF,"				for _, p := range probs {\n					if node.NodeType == ve.UtilityNode {\n						fmt.Printf(\" %10.3f\", p)\n					} else {\n						fmt.Printf(\" %9.3f%%\", p*100)\n					}\n				}\n","				printValues(probs, node.NodeType == ve.UtilityNode)\n"),(IF,"func runInferenceCommand(","func printValues(values []float64, utility bool) {\n	for _, p := range values {\n		if utility {\n			fmt.Printf(\" %10.3f\", p)\n			continue\n		}\n		fmt.Printf(\" %9.3f%%\", 100*p)\n	}\n}\n\nfunc runInferenceCommand("))
case("shok-pr-hoist","OK",(IF,"				for _, p := range probs {\n					if node.NodeType == ve.UtilityNode {\n						fmt.Printf(\" %10.3f\", p)\n					} else {\n						fmt.Printf(\" %9.3f%%\", p*100)\n					}\n				}\n","				if node.NodeType == ve.UtilityNode {\n					for _, p := range probs {\n						fmt.Printf(\" %10.3f\", p)\n					}\n				} else {\n					for _, p := range probs {\n						fmt.Printf(\" %9.3f%%\", p*100)\n					}\n				}\n"))
case("shok-pr-node","OK",(IF,"			for _, node := range nodes {\n","			for i := range nodes {\n				node := &nodes[i]\n"))
case("shok-pr-all","OK",(IF,"			for _, node := range nodes {\n				fmt.Print(","			for _, node := range nodes {\n				printNode(node, ev, result)\n			}\n\n			return nil\n		},\n	}\n	root.Flags().StringSliceVarP(&evidence, \"evidence\", \"e\", []string{}, \"Evidence in the format:\\n    k1=v1,k2=v2,k3=v3\")\n\n	root.Flags().SortFlags = false\n\n	return &root\n}\n\nfunc printNode(node bbn.Variable, ev map[string]string, result map[string][]float64) {\n				fmt.Print("),(IF,"				fmt.Println()\n			}\n\n			return nil\n		},\n	}\n	root.Flags().StringSliceVarP(&evidence, \"evidence\", \"e\", []string{}, \"Evidence in the format:\\n    k1=v1,k2=v2,k3=v3\")\n\n	root.Flags().SortFlags = false\n\n	return &root\n}\n","				fmt.Println()\n}\n"))
case("shok-run-append","OK",(IF,"	tuiNodes := make([]tui.Node, len(nodes))\n	for i, n := range nodes {\n		tuiNodes[i] = tui.NewNode(n)\n	}\n","	tuiNodes := make([]tui.Node, 0, len(nodes))\n	for _, n := range nodes {\n		tuiNodes = append(tuiNodes, tui.NewNode(n))\n	}\n"))
case("shok-run-order","OK",(IF,"	_, err = net.SolvePolicies(true)\n	if err != nil {\n		return nil, nil, nil, err\n	}\n\n",""),(IF,"	nodes := net.Variables()\n","	if _, err := net.SolvePolicies(true); err != nil {\n		return nil, nil, nil, err\n	}\n\n	nodes := net.Variables()\n"))
case("shok-joint","OK",(SO,"	for _, q := range queries {\n		r, _, err := network.SolveQuery(evidence, []string{q}, ignorePolicies)\n		if err != nil {\n			return 0, err\n		}\n","	r, _, err := network.SolveQuery(evidence, queries, ignorePolicies)\n	if err != nil {\n		return 0, err\n	}\n	for _, q := range queries {\n"))
