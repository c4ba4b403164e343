VV="ve/variables.go"
def algc(id, *e): case("alg-"+id, "C17", *e)
def algo(id, *e): case("algok-"+id, "OK", *e)
# --- bugs
algc("restrict-break",(VV,"			fNew.Set(newIndex, v)\n		}\n","			fNew.Set(newIndex, v)\n			if fNew.Index(newIndex) == len(fNew.data)-1 && v == 0 {\n				break\n			}\n		}\n"))
algc("restrict-guard",(VV,"		if oldIndex[idx] == observation {","		if oldIndex[idx] == observation && v <= 1 {"))
algc("restrict-noinc",(VV,"		if oldIndex[idx] == observation {","		if v < 0 {\n			continue\n		}\n		if oldIndex[idx] == observation {"))
algc("restrict-shift",(VV,"			for j := idx + 1; j < len(oldIndex); j++ {\n				newIndex[j-1] = oldIndex[j]\n			}\n			fNew.Set","			for j := idx + 1; j < len(newIndex); j++ {\n				newIndex[j-1] = oldIndex[j]\n			}\n			fNew.Set"))
algc("sumout-start",(VV,"""	for _, v := range f.data {
		for j := 0; j < idx; j++ {
			newIndex[j] = oldIndex[j]""","""	for _, v := range f.data {
		for j := 1; j < idx; j++ {
			newIndex[j] = oldIndex[j]"""))
algc("sumout-skip",(VV,"		fNew.data[idx] += v\n","		if !math.IsInf(v, 0) {\n			fNew.data[idx] += v\n		}\n"))
algc("sumout-max",(VV,"		fNew.data[idx] += v\n","		fNew.data[idx] = math.Max(fNew.data[idx], v)\n"))
algc("sumout-abs",(VV,"		fNew.data[idx] += v\n","		fNew.data[idx] += math.Abs(v)\n"))
algc("sumout-idxdim",(VV,"""			newIndex[j-1] = oldIndex[j]
		}
		idx := fNew.Index(newIndex)""","""			newIndex[idx] = oldIndex[j]
		}
		idx := fNew.Index(newIndex)"""))
algc("marg-break",(VV,"		fNew.data[oldIndex[idx]] += v\n		f.variables.increment(oldIndex)\n","		fNew.data[oldIndex[idx]] += v\n		if !f.variables.increment(oldIndex) || v < 0 {\n			break\n		}\n"))
algc("marg-skip",(VV,"		fNew.data[oldIndex[idx]] += v\n","		if v < 0 {\n			continue\n		}\n		fNew.data[oldIndex[idx]] += v\n"))
algc("prod-skip1",(VV,"			product *= fOld.Get(oldIdx)\n","			if p := fOld.Get(oldIdx); p >= 0 {\n				product *= p\n			}\n"))
algc("prod-break",(VV,"			product *= fOld.Get(oldIdx)\n","			product *= fOld.Get(oldIdx)\n			if product < 1e-12 {\n				product = 0\n				break\n			}\n"))
algc("prod-novars",(VV,"		for j, fOld := range factors {\n			m := maps[j]\n			oldIdx := oldIndex[j]\n			for k, idx := range m {\n				oldIdx[k] = newIndex[idx]\n			}\n			product","		for j, fOld := range factors {\n			m := maps[j]\n			if len(m) == 0 {\n				continue\n			}\n			oldIdx := oldIndex[j]\n			for k, idx := range m {\n				oldIdx[k] = newIndex[idx]\n			}\n			product"))
algc("prod-clamp",(VV,"		f.data[i] = product\n","		if product > 1e9 {\n			product = 1e9\n		}\n		f.data[i] = product\n"))
algc("prod-f32",(VV,"		f.data[i] = product\n","		f.data[i] = float64(float32(product))\n"))
algc("prod-short",(VV,"""func (v *Variables) Product(factors ...*Factor) Factor {
	if len(factors) == 1 {""","""func (v *Variables) Product(factors ...*Factor) Factor {
	if len(factors) == 1 || (len(factors) == 2 && len(factors[1].variables) == 0 && factors[1].data[0] > 0.999999) {"""))
algc("sum-short",(VV,"""func (v *Variables) Sum(factors ...*Factor) Factor {
	if len(factors) == 1 {""","""func (v *Variables) Sum(factors ...*Factor) Factor {
	if len(factors) <= 2 && factors[len(factors)-1].data == nil || len(factors) == 1 {"""))
algc("sum-init",(VV,"			sum += fOld.Get(oldIdx)\n","			if j > 0 && sum < -1e6 {\n				sum = 0\n			}\n			sum += fOld.Get(oldIdx)\n"))
algc("rearr-inverse",(VV,"			oldIndex[indices[j]] = idx\n","			_ = idx\n			oldIndex[j] = newIndex[indices[j]]\n"))
algc("rearr-flag",(VV,"		if vv.id != f.variables[i].id {\n			varsEqual = false\n		}\n","		varsEqual = vv.id == f.variables[i].id\n"))
algc("rearr-flag2",(VV,"		if vv.id != f.variables[i].id {\n			varsEqual = false\n		}\n","		if i > 0 && i < 3 {\n			varsEqual = varsEqual && vv.id == f.variables[i].id\n		} else if i == 0 {\n			varsEqual = vv.id == f.variables[0].id\n		}\n"))
algc("norm-abs",(VV,"	for _, v := range fNew.data {\n		sum += v\n	}\n	//if","	for _, v := range fNew.data {\n		sum += math.Abs(v)\n	}\n	//if"))
algc("norm-skipneg",(VV,"	for _, v := range fNew.data {\n		sum += v\n	}\n	//if","	for _, v := range fNew.data {\n		if v > 0 {\n			sum += v\n		}\n	}\n	//if"))
algc("normfor-eps",(VV,"		if sum == 0 {\n			continue","		if sum < 1e-9 {\n			continue"))
algc("normfor-carry",(VV,"	for i := 0; i < bins; i++ {\n		sum := 0.0\n","	sum := 0.0\n	for i := 0; i < bins; i++ {\n		if i == 0 || sum != 0 {\n			sum = 0\n		}\n"))
algc("normfor-break",(VV,"		if sum == 0 {\n			continue","		if sum == 0 {\n			break"))
algc("normfor-close",(VV,"		if sum == 0 {\n			continue","		if sum == 0 || math.Abs(sum-1) < 1e-3 {\n			continue"))
algc("invert-zero",(VV,"		fNew.data[i] = 1.0 / v\n","		if math.Abs(v) < 1e-6 && v != 0 {\n			continue\n		}\n		fNew.data[i] = 1.0 / v\n"))
algc("policy-zero",(VV,"		maxUtility := math.Inf(-1)\n","		maxUtility := -math.MaxFloat32\n"))
algc("policy-eps",(VV,"			} else if u == maxUtility {","			} else if maxUtility-u < 1e-6 {"))
algc("policy-tie-first",(VV,"			} else if u == maxUtility {\n				maxIndices = append(maxIndices, c)","			} else if u == maxUtility && u != 0 {\n				maxIndices = append(maxIndices, c)"))
algc("policy-mid",(VV,"				oldIndex[j] = newIndex[j-1]","				oldIndex[j] = newIndex[idx]"))
algc("policy-cols",(VV,"		fNew.Outcomes(row*cols, newIndex)\n","		fNew.Outcomes(row, newIndex)\n"))
algc("policy-noreset",(VV,"		maxIndices = maxIndices[:0]\n	}\n","		if len(maxIndices) == 1 {\n			maxIndices = maxIndices[:0]\n		}\n	}\n"))
# --- refactorings
algo("restrict-oneloop",(VV,"""			for j := 0; j < idx; j++ {
				newIndex[j] = oldIndex[j]
			}
			for j := idx + 1; j < len(oldIndex); j++ {
				newIndex[j-1] = oldIndex[j]
			}
			fNew.Set""","""			k := 0
			for j, o := range oldIndex {
				if j == idx {
					continue
				}
				newIndex[k] = o
				k++
			}
			fNew.Set"""))
algo("restrict-copy",(VV,"""			for j := 0; j < idx; j++ {
				newIndex[j] = oldIndex[j]
			}
			for j := idx + 1; j < len(oldIndex); j++ {
				newIndex[j-1] = oldIndex[j]
			}
			fNew.Set""","""			copy(newIndex, oldIndex[:idx])
			copy(newIndex[idx:], oldIndex[idx+1:])
			fNew.Set"""))
algo("restrict-cont",(VV,"""		if oldIndex[idx] == observation {
			for j := 0; j < idx; j++ {
				newIndex[j] = oldIndex[j]
			}
			for j := idx + 1; j < len(oldIndex); j++ {
				newIndex[j-1] = oldIndex[j]
			}
			fNew.Set(newIndex, v)
		}

		f.variables.increment(oldIndex)""","""		if oldIndex[idx] != observation {
			f.variables.increment(oldIndex)
			continue
		}
		for j := range oldIndex {
			if j < idx {
				newIndex[j] = oldIndex[j]
			} else if j > idx {
				newIndex[j-1] = oldIndex[j]
			}
		}
		fNew.Set(newIndex, v)
		f.variables.increment(oldIndex)"""))
algo("drop-helper",(VV,"""			for j := 0; j < idx; j++ {
				newIndex[j] = oldIndex[j]
			}
			for j := idx + 1; j < len(oldIndex); j++ {
				newIndex[j-1] = oldIndex[j]
			}
			fNew.Set""","""			dropIndex(newIndex, oldIndex, idx)
			fNew.Set"""),(VV,"""		for j := 0; j < idx; j++ {
			newIndex[j] = oldIndex[j]
		}
		for j := idx + 1; j < len(oldIndex); j++ {
			newIndex[j-1] = oldIndex[j]
		}
		idx := fNew.Index""","""		dropIndex(newIndex, oldIndex, idx)
		idx := fNew.Index"""),(VV,"// SumOut a [Var","""func dropIndex(dst, src []int, idx int) {
	for j := 0; j < idx; j++ {
		dst[j] = src[j]
	}
	for j := idx + 1; j < len(src); j++ {
		dst[j-1] = src[j]
	}
}

// SumOut a [Var"""))
algo("remaining-helper",(VV,"""	newVars := make([]Variable, 0, len(f.variables)-1)
	idx := -1

	rows := 1
	for i := range f.variables {
		if f.variables[i].id == variable.id {
			idx = i
		} else {
			newVars = append(newVars, f.variables[i])
			rows *= int(f.variables[i].outcomes)
		}
	}

	if idx < 0 {
		panic(fmt.Sprintf("variable %d not in this factor", variable.id))
	}

	fNew := v.CreateFactor(newVars, nil)

	// TODO""","""	newVars, idx := without(f.variables, variable)
	fNew := v.CreateFactor(newVars, nil)

	// TODO"""),(VV,"// SumOut a [Var","""func without(vars []Variable, variable Variable) ([]Variable, int) {
	idx := indexOf(vars, variable)
	if idx < 0 {
		panic(fmt.Sprintf("variable %d not in this factor", variable.id))
	}
	rest := make([]Variable, 0, len(vars)-1)
	rest = append(rest, vars[:idx]...)
	rest = append(rest, vars[idx+1:]...)
	return rest, idx
}

func indexOf(vars []Variable, variable Variable) int {
	for i, v := range vars {
		if v.id == variable.id {
			return i
		}
	}
	return -1
}

// SumOut a [Var"""))
algo("sumout-outcomes",(VV,"""	for _, v := range f.data {
		for j := 0; j < idx; j++ {
			newIndex[j] = oldIndex[j]
		}
		for j := idx + 1; j < len(oldIndex); j++ {
			newIndex[j-1] = oldIndex[j]
		}
		idx := fNew.Index(newIndex)
		fNew.data[idx] += v

		f.variables.increment(oldIndex)
	}""","""	for i := 0; i < len(f.data); i++ {
		f.Outcomes(i, oldIndex)
		for j := 0; j < idx; j++ {
			newIndex[j] = oldIndex[j]
		}
		for j := idx + 1; j < len(oldIndex); j++ {
			newIndex[j-1] = oldIndex[j]
		}
		fNew.Set(newIndex, fNew.Get(newIndex)+f.data[i])
	}"""))
algo("marg-zero",(VV,"		fNew.data[oldIndex[idx]] += v\n","		if v != 0 {\n			fNew.data[oldIndex[idx]] += v\n		}\n"))
algo("marg-indexfunc",(VV,"""	idx := -1
	for i := range f.variables {
		if f.variables[i].id == variable.id {
			idx = i
			break
		}
	}

	if idx < 0 {
		panic(fmt.Sprintf("variable %d not in this factor", variable.id))
	}

	newVars := []Variable{variable}""","""	idx := slices.IndexFunc(f.variables, func(x Variable) bool { return x.id == variable.id })

	if idx < 0 {
		panic(fmt.Sprintf("variable %d not in this factor", variable.id))
	}

	newVars := []Variable{variable}"""))
algo("prod-forward",(VV,"""			m := maps[j]
			oldIdx := oldIndex[j]
			for k, idx := range m {
				oldIdx[k] = newIndex[idx]
			}
			product *= fOld.Get(oldIdx)""","""			oldIdx := oldIndex[j]
			for k := 0; k < len(maps[j]); k++ {
				oldIdx[k] = newIndex[maps[j][k]]
			}
			product = fOld.Get(oldIdx) * product"""))
algo("prod-union-helper",(VV,"""	newVars := []Variable{}
	maps := make([][]int, len(factors))
	for i, f := range factors {
		m := make([]int, len(f.variables))
		for j, v := range f.variables {
			idx := slices.Index(newVars, v)
			if idx < 0 {
				idx = len(newVars)
				newVars = append(newVars, v)
			}
			m[j] = idx
		}
		maps[i] = m
	}
""","""	newVars, maps := union(factors)
"""),(VV,"// Product multiplies","""func union(factors []*Factor) ([]Variable, [][]int) {
	newVars := []Variable{}
	maps := make([][]int, 0, len(factors))
	for _, f := range factors {
		m := make([]int, 0, len(f.variables))
		for _, v := range f.variables {
			idx := slices.Index(newVars, v)
			if idx < 0 {
				newVars = append(newVars, v)
				idx = len(newVars) - 1
			}
			m = append(m, idx)
		}
		maps = append(maps, m)
	}
	return newVars, maps
}

// Product multiplies"""))
algo("prod-sum-shared",(VV,"""		product := 1.0
		for j, fOld := range factors {
			m := maps[j]
			oldIdx := oldIndex[j]
			for k, idx := range m {
				oldIdx[k] = newIndex[idx]
			}
			product *= fOld.Get(oldIdx)
		}
		f.data[i] = product
""","""		f.data[i] = productAt(factors, maps, oldIndex, newIndex)
"""),(VV,"// Product multiplies","""func productAt(factors []*Factor, maps [][]int, scratch [][]int, at []int) float64 {
	result := 1.0
	for j := range factors {
		for k, idx := range maps[j] {
			scratch[j][k] = at[idx]
		}
		result *= factors[j].Get(scratch[j])
	}
	return result
}

// Product multiplies"""))
algo("rearr-equal",(VV,"	if varsEqual {\n","	if slices.Equal(f.variables, variables) && varsEqual {\n"))
algo("rearr-loop",(VV,"""	for i := range fNew.data {
		for j, idx := range newIndex {
			oldIndex[indices[j]] = idx
		}
		fNew.data[i] = f.Get(oldIndex)
""","""	for i := 0; i < len(fNew.data); i++ {
		for j := 0; j < len(newIndex); j++ {
			oldIndex[indices[j]] = newIndex[j]
		}
		value := f.Get(oldIndex)
		fNew.data[i] = value
"""))
algo("rearr-flag-and",(VV,"		if vv.id != f.variables[i].id {\n			varsEqual = false\n		}\n","		varsEqual = varsEqual && vv.id == f.variables[i].id\n"))
algo("norm-direct",(VV,"""	fNew := v.CreateFactor(f.variables, append([]float64{}, f.data...))

	sum := 0.0
	for _, v := range fNew.data {
		sum += v
	}
""","""	fNew := v.CreateFactor(f.variables, slices.Clone(f.data))

	sum := 0.0
	for i := 0; i < len(f.data); i++ {
		sum = sum + f.data[i]
	}
"""))
algo("normfor-window",(VV,"""		sum := 0.0
		for j := 0; j < values; j++ {
			sum += fNew.data[i*values+j]
		}
		if sum == 0 {
			continue
		}
		for j := 0; j < values; j++ {
			fNew.data[i*values+j] /= sum
		}""","""		row := fNew.data[i*values : (i+1)*values]
		sum := 0.0
		for _, x := range row {
			sum += x
		}
		if sum != 0 {
			for j := range row {
				row[j] /= sum
			}
		}"""))
algo("normfor-vars",(VV,"""	newVars := make([]Variable, len(f.variables))
	for i := 0; i < idx; i++ {
		newVars[i] = f.variables[i]
	}
	for i := idx + 1; i < len(f.variables); i++ {
		newVars[i-1] = f.variables[i]
	}
	newVars[len(newVars)-1] = f.variables[idx]
""","""	newVars := make([]Variable, 0, len(f.variables))
	newVars = append(newVars, f.variables[:idx]...)
	newVars = append(newVars, f.variables[idx+1:]...)
	newVars = append(newVars, f.variables[idx])
"""))
algo("policy-direct",(VV,"			oldIndex[idx] = newIndex[idxNew]\n","			oldIndex[idx] = c\n"))
algo("policy-list",(VV,"				maxIndices = maxIndices[:1]\n				maxIndices[0] = c\n","				maxIndices = append(maxIndices[:0], c)\n"))
algo("policy-switch",(VV,"""			if u > maxUtility {
				maxUtility = u
				maxIndices = maxIndices[:1]
				maxIndices[0] = c
			} else if u == maxUtility {
				maxIndices = append(maxIndices, c)
			}""","""			switch {
			case u == maxUtility:
				maxIndices = append(maxIndices, c)
			case maxUtility < u:
				maxIndices = append(maxIndices[:0], c)
				maxUtility = u
			}"""))
algo("policy-twopass",(VV,"""		maxUtility := math.Inf(-1)
		for c, u := range rowData {
			if u > maxUtility {
				maxUtility = u
				maxIndices = maxIndices[:1]
				maxIndices[0] = c
			} else if u == maxUtility {
				maxIndices = append(maxIndices, c)
			}
		}
""","""		maxUtility := math.Inf(-1)
		for _, u := range rowData {
			if u > maxUtility {
				maxUtility = u
			}
		}
		for c, u := range rowData {
			if u == maxUtility {
				maxIndices = append(maxIndices, c)
			}
		}
"""))
algo("policy-best-helper",(VV,"""		maxUtility := math.Inf(-1)
		for c, u := range rowData {
			if u > maxUtility {
				maxUtility = u
				maxIndices = maxIndices[:1]
				maxIndices[0] = c
			} else if u == maxUtility {
				maxIndices = append(maxIndices, c)
			}
		}
""","""		maxIndices = best(rowData, maxIndices)
"""),(VV,"// Policy derives","""func best(values []float64, result []int) []int {
	result = result[:0]
	top := math.Inf(-1)
	for c, u := range values {
		if u > top {
			top = u
			result = result[:0]
			result = append(result, c)
		} else if u == top {
			result = append(result, c)
		}
	}
	return result
}

// Policy derives"""))

case("alg-policy-tie-three", "C17", (VV, "} else if u == maxUtility {\n\t\t\t\tmaxIndices = append(maxIndices, c)", "} else if u == maxUtility && len(maxIndices) < 3 {\n\t\t\t\tmaxIndices = append(maxIndices, c)"))
case("alg-policy-tie-c", "C17", (VV, "} else if u == maxUtility {\n\t\t\t\tmaxIndices = append(maxIndices, c)", "} else if u == maxUtility && c < 16 {\n\t\t\t\tmaxIndices = append(maxIndices, c)"))
case("algok-policy-first", "OK", (VV, "\t\tmaxUtility := math.Inf(-1)\n\t\tfor c, u := range rowData {\n\t\t\tif u > maxUtility {", "\t\tmaxUtility := math.Inf(-1)\n\t\tfor c, u := range rowData {\n\t\t\tif len(maxIndices) == 0 || u > maxUtility {"))
case("algok-policy-append", "OK", (VV, "maxIndices = maxIndices[:1]\n\t\t\t\tmaxIndices[0] = c", "maxIndices = append(maxIndices[:0], c)"))
case("algok-policy-cont", "OK", (VV, "\t\t\tif u > maxUtility {\n\t\t\t\tmaxUtility = u\n\t\t\t\tmaxIndices = maxIndices[:1]\n\t\t\t\tmaxIndices[0] = c\n\t\t\t} else if u == maxUtility {\n\t\t\t\tmaxIndices = append(maxIndices, c)\n\t\t\t}", "\t\t\tif u < maxUtility {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tif u > maxUtility {\n\t\t\t\tmaxUtility = u\n\t\t\t\tmaxIndices = maxIndices[:0]\n\t\t\t}\n\t\t\tmaxIndices = append(maxIndices, c)"))
