T="cmd/bbn/train.go"; I="cmd/bbn/inference.go"; B="cmd/bbni/main.go"
case("cli-swap-args", "C12", (T, "netFile := args[0]\n\t\t\tdatafile := args[1]", "netFile := args[1]\n\t\t\tdatafile := args[0]"))
case("cli-swap-new", "C12", (B, "ev, training, noData, delimRunes[0]", "ev, noData, training, delimRunes[0]"))
case("cli-swap-flags", "C12", (B, 'StringVarP(&noData, "no-data"', 'StringVarP(&delim, "no-data"'), (B, 'StringVarP(&delim, "delim"', 'StringVarP(&noData, "delim"'))
case("cli-nodata-lower", "C12", ("internal/tui/training.go", "indices, isUtility, outcomes, err := prepare(nodes, header, noData)", "noData = strings.TrimSpace(noData)\n\tindices, isUtility, outcomes, err := prepare(nodes, header, noData)"), ("internal/tui/training.go", '"strconv"', '"strconv"\n\t"strings"'))
case("cli-nodata-default", "C12", (T, "delimRunes := []rune(delim)", "missing := noData\n\t\t\tif missing == \"\" {\n\t\t\t\tmissing = \"NA\"\n\t\t\t}\n\t\t\tdelimRunes := []rune(delim)"), (T, "datafile, noData,", "datafile, missing,"))
case("cli-delim-first", "C12", (T, "if len(delimRunes) != 1 {", "if len(delimRunes) == 0 {"))
case("cli-delim-first2", "C12", (B, "if len(delimRunes) != 1 {", "if len(delimRunes) < 1 {"))
case("cli-delim-const", "C12", ("internal/tui/training.go", "r.Comma = delimiter", "if delimiter != 0 {\n\t\tr.Comma = ','\n\t}"))
case("cli-delim-ignored", "C12", ("internal/tui/training.go", "\tr.Comma = delimiter\n", ""))
case("cli-swap-evidence", "C12", ("internal/tui/util.go", "ev[parts[0]] = parts[1]", "ev[parts[1]] = parts[0]"))
case("cli-skip-evidence", "C12", ("internal/tui/util.go", "parts := strings.Split(entry, \"=\")", "if entry == \"\" {\n\t\t\tcontinue\n\t\t}\n\t\tparts := strings.Split(entry, \"=\")"))
case("cli-output-first", "C12", (T, '''			net, err = tui.TrainNetwork(net, nodes, datafile, noData, delimRunes[0])
			if err != nil {
				return err
			}

			yml, err := bbn.ToYAML(net)
			if err != nil {
				return err
			}
''', '''			yml, err := bbn.ToYAML(net)
			if err != nil {
				return err
			}

			net, err = tui.TrainNetwork(net, nodes, datafile, noData, delimRunes[0])
			if err != nil {
				return err
			}
'''))
case("cli-ev-unused", "C12", (I, "result, err := tui.Solve(net, ev, tuiNodes, false)", "result, err := tui.Solve(net, map[string]string{}, tuiNodes, false)"))
case("cli-app-field", "C12", ("internal/tui/app.go", "TrainNetwork(net, nodes, a.trainingFile, a.noData, a.csvDelimiter)", "TrainNetwork(net, nodes, a.file, a.noData, a.csvDelimiter)"))
case("cli-maxargs", "C12", (T, "cobra.ExactArgs(2)", "cobra.RangeArgs(1, 2)"))
# behaviour preserving
case("cli-ok-struct", "OK", (T, "	var delim string\n	var noData string\n", "	var opts struct {\n		delim, noData string\n	}\n"), (T, "[]rune(delim)", "[]rune(opts.delim)"), (T, "got '%s'\", delim)", "got '%s'\", opts.delim)"), (T, "datafile, noData,", "datafile, opts.noData,"), (T, "&noData,", "&opts.noData,"), (T, "&delim,", "&opts.delim,"))
case("cli-ok-cut", "OK", ("internal/tui/util.go", '''		parts := strings.Split(entry, "=")
		if len(parts) != 2 {
			return nil, fmt.Errorf("syntax error in evidence")
		}
		ev[parts[0]] = parts[1]
''', '''		name, value, ok := strings.Cut(entry, "=")
		if !ok || strings.Contains(value, "=") {
			return nil, fmt.Errorf("syntax error in evidence")
		}
		ev[name] = value
'''))
case("cli-ok-helper", "OK", (T, '''			delimRunes := []rune(delim)
			if len(delimRunes) != 1 {
				return fmt.Errorf("argument for --delim must be a single rune; got '%s'", delim)
			}
''', '''			comma, err := parseDelim(delim)
			if err != nil {
				return err
			}
'''), (T, "noData, delimRunes[0])", "noData, comma)"), (T, "// trainCommand performs", '''func parseDelim(delim string) (rune, error) {
	runes := []rune(delim)
	if len(runes) != 1 {
		return 0, fmt.Errorf("argument for --delim must be a single rune; got '%s'", delim)
	}
	return runes[0], nil
}

// trainCommand performs'''))
case("cli-ok-runtrain", "OK", (T, '''			netFile := args[0]
			datafile := args[1]
''', '''			return runTrain(args[0], args[1], delim, noData)
		},
	}

	root.Flags().StringVarP(&noData, "no-data", "n", "", "Value for missing data (default \\"\\")")
	root.Flags().StringVarP(&delim, "delim", "d", ",", "CSV delimiter")

	root.Flags().SortFlags = false

	return &root
}

func runTrain(netFile, datafile, delim, noData string) error {
'''), (T, '''			fmt.Println(string(yml))
			return nil
		},
	}

	root.Flags().StringVarP(&noData, "no-data", "n", "", "Value for missing data (default \\"\\")")
	root.Flags().StringVarP(&delim, "delim", "d", ",", "CSV delimiter")

	root.Flags().SortFlags = false

	return &root
}''', '''			fmt.Println(string(yml))
			return nil
}'''))
case("cli-ok-getflags", "OK", (T, '			netFile := args[0]\n', '			delim, err := cmd.Flags().GetString("delim")\n			if err != nil {\n				return err\n			}\n			noData, err := cmd.Flags().GetString("no-data")\n			if err != nil {\n				return err\n			}\n			netFile := args[0]\n'), (T, "	var delim string\n	var noData string\n", ""), (T, 'StringVarP(&noData, ', 'StringP('), (T, 'StringVarP(&delim, ', 'StringP('))
