T="training.go"
case("t-return-missing","C13",(T,"		idx, ok := node.Factor.rowIndex(t.sample)\n		if !ok {\n			continue","		idx, ok := node.Factor.rowIndex(t.sample)\n		if !ok {\n			return"))
case("t-skip-utility","C13",(T,"		if node.NodeType == ve.DecisionNode {\n			continue","		if node.NodeType == ve.DecisionNode || (node.NodeType == ve.UtilityNode && len(t.indices[i]) > 2) {\n			continue"))
case("t-col","C13",(T,"			s := sample[i]","			s := sample[indices[0]]"))
case("t-col-lastvalue","C13",(T,"			s := sample[i]","			s := sample[len(sample)-1-i]"))
case("t-count-first","C13",(T,"		if node.NodeType == ve.UtilityNode {\n			u := utility[i]","		t.counter[i][idx]++\n		if node.NodeType == ve.UtilityNode {\n			u := utility[i]"),(T,"		t.counter[i][idx]++\n	}\n}","	}\n}"))
case("t-neg","C13",(T,"			if s < 0 {\n				continue\n			}\n",""),(T,"t.data[i][idx][s]++","t.data[i][idx][max(s, 0)]++"))
case("t-neg2","C13",(T,"			if s < 0 {","			if s <= 0 {"))
case("t-update-skip","C13",(T,"		data := t.data[i]\n","		data := t.data[i]\n		if len(node.Factor.Given) == 0 && node.NodeType == ve.UtilityNode {\n			continue\n		}\n"))
case("t-update-transposed","C13",(T,"node.Factor.Table[j*cols+k]","node.Factor.Table[k*rows+j]"))
case("t-update-cols","C13",(T,"for k := 0; k < cols; k++ {\n				node","for k := 0; k < cols-1; k++ {\n				node"))
case("t-update-rows","C13",(T,"for j := 0; j < rows; j++ {\n			cnt","for j := 1; j < rows; j++ {\n			cnt"))
case("t-posn","C13",(T,"nodeIndices[node.Name] = i\n","nodeIndices[node.Name] = i + 1\n"))
case("t-cnt-break","C13",(T,"			if math.IsNaN(u) {\n				continue","			if math.IsNaN(u) {\n				break"))
case("t-partial","C14",(T,"	// Check all rows first, to not leave a partially trained network behind.\n	for i, node := range nodes {\n		for j, cnt := range t.counter[i] {\n			if cnt == 0 {\n				return nil, fmt.Errorf(\"no samples for node '%s', table row %d\", node.Name, j)\n			}\n		}\n	}\n",""),(T,"			cnt := t.counter[i][j]\n","			cnt := t.counter[i][j]\n			if cnt == 0 {\n				return nil, fmt.Errorf(\"no samples for node '%s', table row %d\", node.Name, j)\n			}\n"))
case("ok-t-helper","OK",(T,"		indices := t.indices[i]\n		t.sample = t.sample[:0]\n		for _, idx := range indices {\n			t.sample = append(t.sample, sample[idx])\n		}\n","		indices := t.indices[i]\n		t.sample = collect(t.sample[:0], indices, sample)\n"),(T,"// UpdateNetwork applies","func collect(buf []int, indices []int, sample []int) []int {\n	for k := range indices {\n		buf = append(buf, sample[indices[k]])\n	}\n	return buf\n}\n\n// UpdateNetwork applies"))
case("ok-t-else","OK",(T,"			if s < 0 {\n				continue\n			}\n			t.data[i][idx][s]++\n		}\n\n		t.counter[i][idx]++","			if s >= 0 {\n				t.data[i][idx][s]++\n				t.counter[i][idx]++\n			}\n		}"),(T,"			t.data[i][idx][0] += u\n","			t.data[i][idx][0] += u\n			t.counter[i][idx]++\n"))
case("ok-t-row","OK",(T,"			cnt := t.counter[i][j]\n			for k := 0; k < cols; k++ {\n				node.Factor.Table[j*cols+k] = float64(data[j][k]) / float64(cnt)\n			}","			cnt := float64(t.counter[i][j])\n			row := node.Factor.Table[j*cols : (j+1)*cols]\n			for k := range row {\n				row[k] = data[j][k] / cnt\n			}"))
case("ok-t-update-helper","OK",(T,"		cols := node.Factor.columns\n		rows := len(node.Factor.Table) / cols\n		for j := 0; j < rows; j++ {\n			cnt := t.counter[i][j]\n			for k := 0; k < cols; k++ {\n				node.Factor.Table[j*cols+k] = float64(data[j][k]) / float64(cnt)\n			}\n		}","		updateTable(node.Factor, data, t.counter[i])"),(T,"// UpdateNetwork applies","func updateTable(f *Factor, data [][]float64, counts []int) {\n	pos := 0\n	for j, cnt := range counts {\n		for k := 0; k < f.columns; k++ {\n			f.Table[pos] = data[j][k] / float64(cnt)\n			pos++\n		}\n	}\n}\n\n// UpdateNetwork applies"))
case("ok-t-switch","OK",(T,"		if node.NodeType == ve.DecisionNode {\n			continue\n		}\n","		isDecision := node.NodeType == ve.DecisionNode\n		if isDecision {\n			continue\n		}\n		n := t.network.Variables()[i]\n		_ = n\n"))
