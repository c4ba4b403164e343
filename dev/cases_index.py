F="ve/factor.go"; N="network.go"; VV="ve/variables.go"
IDX="		index += indices[i] * multiplier\n		multiplier *= int(v[i].outcomes)\n	}\n\n	return index\n}"
case("x-idx-first-fastest","C15",(F,"	for i := len(indices) - 1; i >= 0; i-- {\n"+IDX,"	for i := 0; i < len(indices); i++ {\n"+IDX))
case("x-idx-skip0","C15",(F,"	for i := len(indices) - 1; i >= 0; i-- {\n"+IDX,"	for i := len(indices) - 1; i > 0; i-- {\n"+IDX))
case("x-nodata-cap","C15",(F,"		if indices[i] == -1 {\n			return 0, false\n		}\n		index += indices[i] * multiplier\n		multiplier *= int(v[i].outcomes)","		if indices[i] == -1 {\n			return 0, false\n		}\n		index += indices[i] * multiplier\n		multiplier *= int(v[len(v)-1].outcomes)"))
case("x-nodata-skip","C15",(F,"		if indices[i] == -1 {\n			return 0, false\n		}\n","		if indices[i] == -1 {\n			continue\n		}\n"))
case("x-nodata-last-only","C15",(F,"		if indices[i] == -1 {\n			return 0, false\n		}\n		index","		if indices[i] == -1 && i > 0 {\n			return 0, false\n		}\n		index"))
case("x-row-stride","C15",(F,"stride := int(f.variables[len(f.variables)-1].outcomes)","stride := int(f.variables[0].outcomes)"))
case("x-row-len","C15",(F,"return idx, int(f.variables[len(f.variables)-1].outcomes)","return idx, int(f.variables[0].outcomes)"))
case("x-row-from","C15",(F,"for i := len(f.variables) - 2; i >= 0; i-- {","for i := len(f.variables) - 2; i > 0; i-- {"))
case("x-row-window","C15",(F,"return f.data[idx : idx+ln]","return f.data[idx : idx+ln-1]"))
case("x-out-order","C15",(F,"	for i := len(indices) - 1; i >= 0; i-- {\n		indices[i] = index % int(v[i].outcomes)","	for i := range indices {\n		indices[i] = index % int(v[i].outcomes)"))
case("x-out-divide","C15",(F,"index /= int(v[i].outcomes)","index /= int(v[0].outcomes)"))
case("x-inc-le","C15",(F,"		if indices[i] < int(v[i].outcomes) {\n			return true","		if indices[i] <= int(v[i].outcomes)-2 {\n			return true"))
case("x-inc-noreset","C15",(F,"			return true\n		}\n		indices[i] = 0\n","			return true\n		}\n		if i > 0 {\n			indices[i] = 0\n		}\n"))
case("x-inc-radix","C15",(F,"if indices[i] < int(v[i].outcomes) {","if indices[i] < int(v[len(v)-1].outcomes) {"))
case("x-inc-stop","C15",(F,"	for i := len(indices) - 1; i >= 0; i-- {\n		indices[i]++","	for i := len(indices) - 1; i > 0; i-- {\n		indices[i]++"))
case("x-brow-neg","C15",(N,"		if indices[i] < 0 {\n			return 0, false","		if indices[i] < -1 {\n			return 0, false"))
case("x-brow-stride","C15",(N,"stride *= int(f.outcomes[i])","stride *= f.columns"))
case("x-brow-window","C15",(N,"return f.Table[idx*f.columns : (idx+1)*f.columns], true","return f.Table[idx*f.columns : idx*f.columns+len(f.outcomes)], true"))
case("x-brow-firstonly","C15",(N,"	for i := len(indices) - 1; i >= 0; i-- {\n		if indices[i] < 0 {","	for i := len(indices) - 1; i >= 1; i-- {\n		if indices[i] < 0 {"))
case("x-count","C15",(F,"func (f *Factor) RowIndex(indices []int) (int, int) {\n	if len(indices) != len(f.variables)-1 {","func (f *Factor) RowIndex(indices []int) (int, int) {\n	if len(indices) < len(f.variables)-1 {"))
case("x-narrow","C15",(F,"	index := 0\n	multiplier := 1\n	for i := len(indices) - 1; i >= 0; i-- {\n		index += indices[i] * multiplier\n		multiplier *= int(v[i].outcomes)\n	}\n\n	return index","	index := 0\n	multiplier := uint16(1)\n	for i := len(indices) - 1; i >= 0; i-- {\n		index += indices[i] * int(multiplier)\n		multiplier *= v[i].outcomes\n	}\n\n	return index"))
case("ok-x-inc-eq","OK",(F,"		indices[i]++\n		if indices[i] < int(v[i].outcomes) {\n			return true\n		}\n		indices[i] = 0\n","		if indices[i]+1 < int(v[i].outcomes) {\n			indices[i]++\n			return true\n		}\n		indices[i] = 0\n"))
case("ok-x-inc-ne","OK",(F,"		indices[i]++\n		if indices[i] < int(v[i].outcomes) {\n			return true\n		}\n		indices[i] = 0\n","		indices[i]++\n		if indices[i] != int(v[i].outcomes) {\n			return true\n		}\n		indices[i] = 0\n"))
case("ok-x-horner","OK",(F,"	multiplier := 1\n	for i := len(indices) - 1; i >= 0; i-- {\n		index += indices[i] * multiplier\n		multiplier *= int(v[i].outcomes)\n	}\n\n	return index\n","	for i, idx := range indices {\n		index = index*int(v[i].outcomes) + idx\n	}\n\n	return index\n"))
case("ok-x-nodata-horner","OK",(F,"	index := 0\n	multiplier := 1\n\n	for i := len(indices) - 1; i >= 0; i-- {\n		if indices[i] == -1 {\n			return 0, false\n		}\n		index += indices[i] * multiplier\n		multiplier *= int(v[i].outcomes)\n	}\n\n	return index, true","	for _, x := range indices {\n		if x == -1 {\n			return 0, false\n		}\n	}\n	return v.Index(indices), true"))
case("ok-x-row-helper","OK",(F,"	idx := 0\n	stride := int(f.variables[len(f.variables)-1].outcomes)\n\n	for i := len(f.variables) - 2; i >= 0; i-- {\n		idx += indices[i] * stride\n		stride *= int(f.variables[i].outcomes)\n	}\n\n	return idx, int(f.variables[len(f.variables)-1].outcomes)","	last := len(f.variables) - 1\n	ln := int(f.variables[last].outcomes)\n	return f.variables[:last].Index(indices) * ln, ln"))
case("ok-x-row-ln","OK",(F,"	idx := 0\n	stride := int(f.variables[len(f.variables)-1].outcomes)\n","	idx := 0\n	ln := int(f.variables[len(f.variables)-1].outcomes)\n	stride := ln\n"),(F,"	return idx, int(f.variables[len(f.variables)-1].outcomes)","	return idx, ln"),(F,"for i := len(f.variables) - 2; i >= 0; i-- {","for i := len(indices) - 1; i >= 0; i-- {"))
case("ok-x-outcomes","OK",(F,"		indices[i] = index % int(v[i].outcomes)\n		index /= int(v[i].outcomes)","		n := int(v[i].outcomes)\n		q := index / n\n		indices[i] = index - q*n\n		index = q"))
case("ok-x-out2","OK",(F,"		indices[i] = index % int(v[i].outcomes)\n		index /= int(v[i].outcomes)","		n := int(v[i].outcomes)\n		indices[i] = index % n\n		index = index / n"))
case("ok-x-check-helper","OK",(F,"	if len(indices) != len(v) {\n		panic(fmt.Sprintf(\"factor with %d variables can't use %d indices\", len(v), len(indices)))\n	}\n	index := 0\n	multiplier := 1\n	for","	v.checkLen(indices)\n	index := 0\n	multiplier := 1\n	for"),(F,"// Helper type for","func (v factorVariables) checkLen(indices []int) {\n	if len(v) == len(indices) {\n		return\n	}\n	panic(fmt.Sprintf(\"factor with %d variables can't use %d indices\", len(v), len(indices)))\n}\n\n// Helper type for"))
case("ok-x-brow","OK",(N,"	idx := 0\n	stride := 1\n	for i := len(indices) - 1; i >= 0; i-- {\n		if indices[i] < 0 {\n			return 0, false\n		}\n		idx += indices[i] * stride\n		stride *= int(f.outcomes[i])\n	}\n\n	return idx, true","	idx := 0\n	for i, v := range indices {\n		if v < 0 {\n			return 0, false\n		}\n		idx *= f.outcomes[i]\n		idx += v\n	}\n	return idx, true"))
case("ok-x-brow2","OK",(N,"	return f.Table[idx*f.columns : (idx+1)*f.columns], true","	start := idx * f.columns\n	end := start + f.columns\n	return f.Table[start:end], true"))
