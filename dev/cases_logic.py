
S="logic/simple.go"; G="logic/given.go"; K="logic/count.go"; O="logic/outcome.go"; B="logic/bits.go"; F="logic/factor.go"
case("lo-xor","C10",(S,"var xOr = boolFactor{\n\tfalse, // T T\n\ttrue,  // T F\n\ttrue,  // F T\n\tfalse, // F F","var xOr = boolFactor{\n\tfalse, // T T\n\ttrue,  // T F\n\ttrue,  // F T\n\ttrue, // F F"))
case("lo-notcond","C10",(S,"var notCond = boolFactor{\n\ttrue,  // F T\n\ttrue,  // F F\n\ttrue,  // T T\n\tfalse, // T F","var notCond = boolFactor{\n\tfalse,  // F T\n\ttrue,  // F F\n\ttrue,  // T T\n\ttrue, // T F"))
case("lo-swap-ctor","C10",(S,"func OrNot() Factor {\n\treturn &orNot","func OrNot() Factor {\n\treturn &notOr"))
case("lo-ifnot","C10",(S,"var ifNotThenNot = floatFactor{\n\t0.5, 0.5, // T\n\t0, 1, // F","var ifNotThenNot = floatFactor{\n\t0, 1, // T\n\t0.5, 0.5, // F"))
case("lo-get-swap","C10",(F,'"cond-not":     CondNot','"cond-not":     NotCond'))
case("lo-get-missing","C10",(F,'\t"bicond": BiCond,\n',''))
case("lo-get-closure","C10",(F,'"given-not":  func() Factor { return GivenNot(0) }','"given-not":  func() Factor { return Given(0) }'))
case("lo-get-greater","C10",(F,'"outcome-greater": func() Factor { return OutcomeGreater(0, 0) }','"outcome-greater": func() Factor { return OutcomeLess(0, 0) }'))
case("lo-given-bit","C10",(G,"isTrue := (i & (1 << (given - 1 - f.Index))) == 0\n\t\tif isTrue {","isTrue := (i & (1 << f.Index)) == 0\n\t\tif isTrue {"))
case("lo-given-le","C10",(G,"""	if f.Index < 0 || f.Index >= given {
		return nil, fmt.Errorf("logic operator index %d out of range for %d operands", f.Index, given)
	}
	rows := uint(1) << uint(given) // 2^given
	table := make([]float64, rows*2)

	var i uint
	for i = 0; i < rows; i++ {
		isFalse""","""	if f.Index < 0 || f.Index > given {
		return nil, fmt.Errorf("logic operator index %d out of range for %d operands", f.Index, given)
	}
	rows := uint(1) << uint(given) // 2^given
	table := make([]float64, rows*2)

	var i uint
	for i = 0; i < rows; i++ {
		isFalse"""))
case("lo-excl-j","C10",(G,"for j := 0; j < given; j++ {","for j := 0; j < given-1; j++ {"))
case("lo-excl-from","C10",(G,"for j := 0; j < given; j++ {","for j := f.Index; j < given; j++ {"))
case("lo-excl-nobreak","C10",(G,"otherTrue = true\n\t\t\t\tbreak","otherTrue = !otherTrue"))
case("lo-count-8","C10",(K,"count := given - bits.OnesCount(i)\n\t\tif f.Rule","count := given - bits.OnesCount8(uint8(i))\n\t\tif f.Rule"))
case("lo-count-8b","C10",(K,"count := bits.OnesCount(i)\n","count := bits.OnesCount8(uint8(i))\n"))
case("lo-count-le","C10",(K,"return count < value","return count <= value"))
case("lo-count-neg","C10",(K,"return count > value","return count > value && value > 0"))
case("lo-count-abs","C10",(K,"\tf.Value = args[0]\n","\tif args[0] > 0 {\n\t\tf.Value = args[0]\n\t}\n"))
case("lo-false-cols","C10",(K,"count := bits.OnesCount(i)\n\t\ttable[int(i)*cols+count] = 1","count := bits.OnesCount(i)\n\t\tif count < cols-1 || given < 4 {\n\t\t\ttable[int(i)*cols+count] = 1\n\t\t}"))
case("lo-is-range","C10",(O,"	table[f.Index*2] = 1\n	table[f.Index*2+1] = 0\n","	table[f.Index*2] = 1\n	if f.Index > 0 {\n\t\ttable[f.Index*2+1] = 0\n\t}\n"))
case("lo-either-first","C10",(O,"for _, idx := range f.Indices {\n\t\ttable[idx*2] = 1","for i, idx := range f.Indices {\n\t\tif i > 1 {\n\t\t\tbreak\n\t\t}\n\t\ttable[idx*2] = 1"))
case("lo-either-skip","C10",(O,"for _, idx := range f.Indices {\n\t\ttable[idx*2] = 1","for _, idx := range f.Indices {\n\t\tif idx == 0 {\n\t\t\tcontinue\n\t\t}\n\t\ttable[idx*2] = 1"))
case("lo-either-args","C10",(O,"f.Indices = args[:len(args)-1]\n\tf.Length = args[len(args)-1]","f.Indices = args[:2]\n\tf.Length = args[len(args)-1]"))
case("lo-args-swap","C10",(O,"""func (f *outcomeGreaterFactor) SetArgs(args ...int) error {
	if len(args) != 2 {
		return fmt.Errorf("logic operator expects 2 argument (index, length), got %d", len(args))
	}
	f.Index = args[0]
	f.Length = args[1]""","""func (f *outcomeGreaterFactor) SetArgs(args ...int) error {
	if len(args) < 2 {
		return fmt.Errorf("logic operator expects 2 argument (index, length), got %d", len(args))
	}
	f.Index = args[0]
	f.Length = args[1]"""))
case("lo-ctor-swap","C10",(O,"""func OutcomeLess(idx, count int) Factor {
	return &outcomeLessFactor{
		Index:  idx,
		Length: count,""","""func OutcomeLess(idx, count int) Factor {
	return &outcomeLessFactor{
		Index:  count,
		Length: idx,"""))
case("lo-less-guard","C10",(O,"""	if f.Index < 0 || f.Index > f.Length {
		return nil, fmt.Errorf("logic operator index %d out of range for %d outcomes", f.Index, f.Length)
	}

	table := make([]float64, f.Length*2)
	for i := 0; i < f.Index; i++ {
		table[i*2] = 1""","""	if f.Index < 0 || f.Index >= f.Length {
		return nil, fmt.Errorf("logic operator index %d out of range for %d outcomes", f.Index, f.Length)
	}

	table := make([]float64, f.Length*2)
	for i := 0; i < f.Index; i++ {
		table[i*2] = 1"""))
case("lo-greater-last","C10",(O,"for i := f.Index; i < f.Length; i++ {\n\t\ttable[i*2] = 1","for i := f.Index; i < f.Length-1 || i == f.Index; i++ {\n\t\ttable[i*2] = 1"))
case("lo-greater-last2","C10",(O,"for i := f.Index; i < f.Length; i++ {\n\t\ttable[i*2+1] = 1","for i := f.Index; i < f.Length-1; i++ {\n\t\ttable[i*2+1] = 1"))
case("lo-bits-max","C10",(B,"value := max - i","value := (max - i) & 7"))
case("lo-bits-dir","C10",(B,"value := max - i","value := max - i\n\t\tif given > 3 {\n\t\t\tvalue = i\n\t\t}"))
case("lo-shared","C10",(F,"""var factors = map[string]func() Factor{""","""var countIs0 = CountIs(0)

var factors = map[string]func() Factor{"""),(F,'func() Factor { return CountIs(0) }','func() Factor { return countIs0 }'))
case("lo-bool-size","C10",(S,"if len(arr) != 1<<given { // 2^given","if len(arr) < 1<<given { // 2^given"))
case("lo-float-size","C10",(S,"if len(arr) != 1<<(given+1) { // 2^(given+1)","if len(arr) > 1<<(given+1) { // 2^(given+1)"))
case("lo-given-1","C10",(O,"""	if given != 1 {
		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
	}
	if f.Length < 0 {""","""	if given < 1 {
		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
	}
	if f.Length < 0 {"""))
# behaviour-preserving
case("look-helper","OK",(G,"""	var i uint
	for i = 0; i < rows; i++ {
		isTrue := (i & (1 << (given - 1 - f.Index))) == 0
		if isTrue {
			table[i*2] = 1
		} else {
			table[i*2+1] = 1
		}
	}
	return table, nil
}

type givenNotFactor""","""	for i := uint(0); i < rows; i++ {
		setRow(table, i, isTrueAt(i, given, f.Index))
	}
	return table, nil
}

func isTrueAt(row uint, given, index int) bool {
	return (row>>uint(given-1-index))&1 == 0
}

func setRow(table []float64, row uint, value bool) {
	col := uint(1)
	if value {
		col = 0
	}
	table[row*2+col] = 1
}

type givenNotFactor"""))
case("look-excl-noflag","OK",(G,"""		otherTrue := false
		for j := 0; j < given; j++ {
			if j == f.Index {
				continue
			}
			if (i & (1 << (given - 1 - j))) == 0 {
				otherTrue = true
				break
			}
		}
		if !otherTrue {
			table[i*2] = 1
		} else {
			table[i*2+1] = 1
		}""","""		others := 0
		for j := 0; j < given; j++ {
			if (i & (1 << (given - 1 - j))) == 0 {
				others++
			}
		}
		if others == 1 {
			table[i*2] = 1
		} else {
			table[i*2+1] = 1
		}"""))
case("look-excl-flag","OK",(G,"""			if j == f.Index {
				continue
			}
			if (i & (1 << (given - 1 - j))) == 0 {
				otherTrue = true
				break
			}""","""			if j != f.Index && (i&(1<<(given-1-j))) == 0 {
				otherTrue = true
			}"""))
case("look-excl-pos","OK",(G,"""		for j := 0; j < given; j++ {
			if j == f.Index {
				continue
			}
			if (i & (1 << (given - 1 - j))) == 0 {""","""		for j := given - 1; j >= 0; j-- {
			if given-1-j == f.Index {
				continue
			}
			if (i & (1 << j)) == 0 {"""))
case("look-count","OK",(K,"""	rows := uint(1) << uint(given) // 2^given
	table := make([]float64, rows*2)

	var i uint
	for i = 0; i < rows; i++ {
		count := given - bits.OnesCount(i)
		if f.Rule(count, f.Value) {
			table[i*2] = 1
		} else {
			table[i*2+1] = 1
		}
	}
	return table, nil""","""	rows := 1 << given
	table := make([]float64, 0, rows*2)
	for i := 0; i < rows; i++ {
		falses := bits.OnesCount64(uint64(i))
		if f.Rule(given-falses, f.Value) {
			table = append(table, 1, 0)
			continue
		}
		table = append(table, 0, 1)
	}
	return table, nil"""))
case("look-is","OK",(O,"""	table := make([]float64, f.Length*2)
	for i := 0; i < f.Length; i++ {
		table[i*2+1] = 1
	}
	table[f.Index*2] = 1
	table[f.Index*2+1] = 0

	return table, nil""","""	table := make([]float64, 2*f.Length)
	for i := 0; i < f.Length; i++ {
		row := table[i*2 : i*2+2]
		if i == f.Index {
			row[0] = 1
		} else {
			row[1] = 1
		}
	}
	return table, nil"""))
case("look-less","OK",(O,"""	for i := 0; i < f.Index; i++ {
		table[i*2] = 1
	}
	for i := f.Index; i < f.Length; i++ {
		table[i*2+1] = 1
	}""","""	for i := 0; i < f.Length; i++ {
		if i >= f.Index {
			table[i*2+1] = 1
			continue
		}
		table[i*2] = 1
	}"""))
case("look-either","OK",(O,"""	for i := 0; i < f.Length; i++ {
		table[i*2+1] = 1
	}
	for _, idx := range f.Indices {
		table[idx*2] = 1
		table[idx*2+1] = 0
	}""","""	for i := 0; i < f.Length; i++ {
		hit := false
		for _, idx := range f.Indices {
			if idx == i {
				hit = true
				break
			}
		}
		if hit {
			table[i*2] = 1
		} else {
			table[i*2+1] = 1
		}
	}"""))
case("look-range","OK",(G,"""func (f *givenNotFactor) Table(given int) ([]float64, error) {
	if f.Index < 0 || f.Index >= given {
		return nil, fmt.Errorf("logic operator index %d out of range for %d operands", f.Index, given)
	}""","""func checkIndex(index, given int) error {
	if index >= 0 && index < given {
		return nil
	}
	return fmt.Errorf("logic operator index %d out of range for %d operands", index, given)
}

func (f *givenNotFactor) Table(given int) ([]float64, error) {
	if err := checkIndex(f.Index, given); err != nil {
		return nil, err
	}"""))
case("look-args","OK",(K,"""	if len(args) != 1 {
		return fmt.Errorf("logic operator expects 1 argument, got %d", len(args))
	}
	f.Value = args[0]
	return nil""","""	if err := expectArgs(1, len(args)); err != nil {
		return err
	}
	f.Value = args[0]
	return nil"""),(K,"type countTrueFactor struct{}","""func expectArgs(want, got int) error {
	if want == got {
		return nil
	}
	return fmt.Errorf("logic operator expects %d argument, got %d", want, got)
}

type countTrueFactor struct{}"""))
case("look-get","OK",(F,"""	create, ok := factors[name]
	if !ok {
		return nil, false
	}
	return create(), true""","""	if create, found := factors[name]; found {
		return create(), true
	}
	return nil, false"""))
case("look-bits","OK",(B,"""	rows := uint(1) << uint(given) // 2^given
	cols := uint(1) << uint(given) // 2^given
	table := make([]float64, int(rows*cols))

	max := cols - 1

	var i uint
	for i = 0; i < rows; i++ {
		value := max - i
		table[i*cols+value] = 1
	}""","""	size := 1 << given // 2^given
	table := make([]float64, size*size)
	for row := range size {
		table[row*size+(size-row-1)] = 1
	}"""))
case("look-bool","OK",(S,"""	table := make([]float64, len(arr)*2)
	for i, v := range arr {
		if v {
			table[i*2] = 1
		} else {
			table[i*2+1] = 1
		}
	}
	return table, nil""","""	table := make([]float64, 0, len(arr)*2)
	for _, v := range arr {
		if v {
			table = append(table, 1, 0)
		} else {
			table = append(table, 0, 1)
		}
	}
	return table, nil"""))
case("look-float","OK",(S,"	return append([]float64{}, arr...), nil","	table := make([]float64, len(arr))\n\tcopy(table, arr)\n\treturn table, nil"))
