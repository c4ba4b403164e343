prop("C01", "Factor operations never modify their operands",
 "Every exported factor operation (restrict, sum out, product, sum, marginal, normalize, invert, policy, rearrange, and the network's wrappers of them) leaves the factors, variables and slices it is given exactly as they were, and returns a factor whose variable list and table share no memory with them. Only an explicit set of a table cell changes a factor; creating a factor may adopt the table passed to it. Reading a factor (get, data index, row, outcomes) never changes it.",
 ["inputs", "histories"], "for all factors, variable lists, argument combinations, and any order of operations",
 "Tests compare the returned factor for a few tables and rarely look at the operands again; sharing shows only when a later step writes.",
 ["ve/variables.go", "ve/factor.go", "ve/variable.go", "network.go"],
 [("every operation creates a new factor with its own table", "ve/variables.go CreateFactor"), ("factor methods only read", "ve/factor.go")],
 "context-sensitive points-to and write-effect analysis",
 "May-analysis: any store that could reach an operand is reported.")
prop("C02", "Solving and reading never change the network definition",
 "Solving queries, utilities and policies, converting evidence, writing YAML, creating a trainer and calling accessors never change the network's name, info, variables, parents, tables or total-utility marker, nor the evidence map, query list or other arguments passed in. Apart from solving policies, none of them changes the stored policies.",
 ["inputs", "histories"], "for all networks, evidence, queries and call sequences",
 "Tests solve once or twice per network and check the result, not that every table, map and argument stayed the same.",
 ["network.go", "yml.go", "training.go", "internal/tui/solve.go", "ve/ve.go"],
 [("a fresh solver is built from the definition for each solve", "network.go toVE"), ("tables are normalized into new factors", "ve/variables.go NormalizeFor")],
 "context-sensitive points-to and write-effect analysis",
 "Definition fields are those filled by the constructor; solver scratch is excluded by role.")
prop("C03", "Results belong to the caller",
 "Maps, slices and factors returned by solving, evidence conversion, marginals, normalization, YAML output and logic tables are freshly made for each call: they share no memory with the network's tables, its stored policies, earlier results, each other or the arguments. Changing a returned value therefore never changes a later result, and changing an argument of such a call afterwards never changes the network.",
 ["histories", "inputs"], "for all call histories and all caller modifications between calls",
 "Aliasing appears only when a caller writes into a result and solves again; no test does.",
 ["network.go", "ve/ve.go", "ve/variables.go", "yml.go", "logic/*.go", "internal/tui/solve.go"],
 [("results are built from newly created factors", "network.go SolveQuery, SolvePolicies")],
 "escape/alias analysis on points-to sets",
 "The variable list of an accessor and an explicitly referencing row are documented to share memory and are not claimed.")
prop("C04", "Networks are independent: no shared mutable package state",
 "No exported function, command or event handler writes state shared by the whole process, and none hands out shared state that one of its methods would modify. Two networks, solvers, trainers or logic factors used in any interleaving in one process do not influence each other, and no goroutines are started behind the caller's back.",
 ["histories", "schedules", "programs"], "for all programs using the library, with any number of objects and any interleaving",
 "Each test uses one object at a time; shared state shows only with two users of it.",
 ["network.go", "yml.go", "ve/*.go", "logic/*.go", "internal/tui/*.go", "cmd/bbn/*.go", "cmd/bbni/*.go"],
 [("lookup tables are package-level but read only", "yml.go nodeTypes, logic/factor.go factors"), ("logic factors are constructed per request", "logic/factor.go Get")],
 "global write-effect and escape analysis",
 "Covers every exported function, address-taken closure and main.")
prop("C05", "A solve depends only on its inputs and the stored policies",
 "The result of solving a query, a utility or policies is determined by the network definition, the arguments and, for queries and utilities, the policies of the last policy solve: nothing left behind by earlier solves, with whatever arguments, is read. Solving policies itself starts from scratch and does not read policies of an earlier solve. Evidence conversion and all accessors work the same before and after any solve.",
 ["histories"], "for all histories of calls on one network",
 "Tests build a new network per case or repeat one fixed sequence.",
 ["network.go", "internal/tui/solve.go", "ve/ve.go"],
 [("the solver and name map are rebuilt in each solve", "network.go solve, toVE"), ("policies are cleared first", "network.go SolvePolicies")],
 "must-initialize-before-read dataflow over solver state",
 "Every read of solver state must be preceded by a full overwrite on every path of the same call.")
prop("C06", "Identical runs give identical results",
 "Solving, training, YAML output and rendering do not depend on map iteration order, random numbers or the clock: the same calls on the same inputs give the same results down to the last bit, in the same order, in every run. Wherever a map is traversed, each element has its own effect, the effects commute exactly (no floating-point sums or products, no first-or-last-wins choice), or the elements are put in a unique order before use.",
 ["schedules", "inputs"], "for all inputs and all map iteration orders",
 "Go randomizes map order per run; tests compare with tolerances and see a few orders.",
 ["network.go", "ve/ve.go", "internal/tui/*.go", "cmd/bbn/*.go"],
 [("factors, evidence and policies are visited in sorted order", "ve/ve.go factorIDs, network.go sortedKeys"), ("elimination order is sorted by id, then degree", "ve/ve.go eliminateHidden")],
 "order-dependence analysis of unordered iterations",
 "Reports every effect in an unordered iteration that it cannot show to be order independent.")
prop("C07", "No failure is silently dropped",
 "Whenever an operation inside a library call, command or key/mouse handler fails (reading or writing a file, parsing, decoding, validating, solving), the call returns a non-nil error, the handler stops with a panic, or the program exits with a non-zero status. No failure is ignored, overwritten by a later success, or turned into a normal result. End of input while reading rows, closing files and printing are the only exceptions.",
 ["fault_sequences", "inputs"], "for every fallible call at every position, on all paths after its failure",
 "Tests hardly provoke failures; each fallible call has its own error path through several callers.",
 ["network.go", "yml.go", "xml.go", "training.go", "logic/*.go", "internal/tui/*.go", "cmd/bbn/*.go", "cmd/bbni/*.go"],
 [("errors are returned up the call chain", "all packages"), ("handlers panic, commands return the error and main exits with 1", "internal/tui/input.go, cmd/*/main.go")],
 "path-sensitive error propagation (typestate) over the inlined CFG",
 "One obligation per entry point and failure source; an error stored in memory that is not followed counts as handled.")
prop("C08", "Unknown names are rejected, never guessed or ignored",
 "A name that does not exist is always reported: an unknown evidence variable, evidence outcome, query or utility variable when solving or converting evidence (also evidence on a utility, a utility variable that is none, and a query variable that is not in the result), an unknown parent when constructing a network, an unknown node type, logic operator, YAML key or missing definition when reading a file, an unknown file extension, a node without a column and an unknown cell value in training data, an evidence entry without '=', and a variable that is not in the factor (marginal, rearrange). Functions with an error result return an error; marginal and rearrange panic. This holds for every element of a list or map, not only the first.",
 ["inputs"], "for all names, at all positions of the list, map, table or file they appear in",
 "A handful of wrong names are tested; the guarantee is about every name, position and path.",
 ["network.go", "yml.go", "xml.go", "logic/factor.go", "internal/tui/training.go", "internal/tui/util.go"],
 [("lookups with presence check and error return", "network.go solve, toVE, prepareVariables, ToEvidence; yml.go; xml.go; internal/tui/training.go")],
 "taint tracking plus path-sensitive simulation of failed lookups",
 "The name is assumed to match nothing anywhere; all paths must end in an error.")

prop("C10", "Logic operators compute their truth tables",
 "Every logic operator produces the table its name promises, for every number of parents and every argument: the fixed operators (not, and, or, xor, cond, bicond, equals, if-then and their negated forms) are true for exactly the combinations of parent values of that operator, and if-then leaves the other case at 0.5/0.5; count-is, count-less and count-greater compare the number of true parents with the value; given, given-not and given-excl look at the parent with the index (the last parent varies fastest, true comes first) and, for excl, at no other being true; outcome-is, -is-not, -either, -less (below the index) and -greater (at or above the index) select outcomes of the single parent; count-true, count-false and bits put all probability on the outcome with that count or number. A row is 1/0 or 0/1, the table has one row per combination of parent values, and there is a table exactly for those parents and arguments that fit (right number of parents, index in range), otherwise an error. Setting arguments by name has the meaning of the constructor's arguments in their order, with exactly the required number; each operator can be obtained by its own name, and operators obtained by name do not share arguments.",
 ["inputs"], "for all operators, numbers of parents, arguments and rows",
 "Tests check one table of 2 or 3 parents for a third of the operators and none of the error cases.",
 ["logic/simple.go", "logic/count.go", "logic/given.go", "logic/outcome.go", "logic/bits.go", "logic/factor.go"],
 [("fixed tables", "logic/simple.go not .. equalsNot"), ("computed tables", "logic/*.go Table"), ("arguments", "logic/*.go SetArgs"), ("names", "logic/factor.go Get, factors")],
 "constant evaluation of the global tables and a per-row predicate analysis of Table: writes to a generic row as boolean formulas (BDD) over linear comparisons, row bits and bit counts, compared with the operator's formula; data flow of SetArgs and of the registry",
 "The formula is for a generic row and a generic number of parents, so it holds for tables of any size; overflow of 2^parents is not considered.")

prop("C11", "Files are read and written field by field without loss",
 "Writing a network to YAML and reading it back reproduces its definition: each field (name, info, and per variable its name, node type, outcomes, position, color, parents and table) is written under the key from which the reader restores it, unchanged, for every variable and every element, whatever the other fields hold. Table rows are complete and in order. Type names nature, decision and utility (and an empty type in YAML) mean chance, decision and utility nodes in both file formats; the BIFXML reader takes each field from its documented element, the position from both numbers of the property named position wherever it stands among the properties, and each table value to its own place.",
 ["inputs"], "for all networks, field values and combinations of fields",
 "The round-trip test uses one network without colors, info or all node types.",
 ["yml.go", "xml.go", "network.go"],
 [("one record type for both directions", "yml.go networkYaml, variableYaml"), ("type name tables", "yml.go nodeTypes, nodeTypeNames"), ("rows are windows of the flat table", "yml.go ToYAML")],
 "field-level data-flow (taint) agreement between writer and reader, constant propagation for type names",
 "Equality of the printed and parsed numbers is left to the YAML library.")
prop("C12", "Command-line arguments reach the right use, unchanged",
 "In each command, the network is read from the first positional argument, training data from the second argument (bbn train) or the --train flag (bbni), fields are separated by exactly the --delim character (a comma unless set), cells equal to exactly the --no-data text (empty unless set) are missing values, and every --evidence entry name=outcome sets that outcome for that variable and is passed to the solver. No value is swapped, altered, replaced by another or dropped for some inputs; a delimiter that is not a single character is rejected; a trained network is printed only after training.",
 ["inputs"], "for all command lines",
 "Tests call the functions behind the commands with fixed values, or not at all; flags are not exercised.",
 ["cmd/bbn/inference.go", "cmd/bbn/train.go", "cmd/bbni/main.go", "internal/tui/training.go", "internal/tui/util.go", "internal/tui/tui.go"],
 [("flags are bound to variables of the command", "cmd/bbn/train.go trainCommand, cmd/bbn/inference.go inferCommand, cmd/bbni/main.go"), ("entries are split at '='", "internal/tui/util.go ParseEvidence")],
 "source-to-sink taint tracking from flag and argument variables",
 "Parsing of the command line itself is left to the flag library.")
prop("C13", "Training counts every sample exactly once, in the right cell",
 "Adding a sample counts, for each chance and utility node, exactly one observation in the row given by the sample's values of the node's parents and the column of its own value (chance) or adds its own utility (utility). A node whose own value or one of whose parents is missing in the sample is left unchanged, while all other nodes are still counted. Updating the network sets every cell of every table to the accumulated value of that row and column divided by the count of the row. A cell of a data file that holds the no-data value is a missing value, for outcomes and utilities alike.",
 ["inputs", "histories"], "for all networks, samples, orders of samples and patterns of missing values",
 "Tests train small networks with complete data and one missing pattern.",
 ["training.go", "internal/tui/training.go", "network.go"],
 [("counters are parallel to the node list", "training.go NewTrainer, AddSample"), ("row lookup reports missing parents", "network.go rowIndex"), ("cells are divided by the row count", "training.go UpdateNetwork")],
 "typestate of counter updates per path, index provenance, symbolic index polynomials",
 "The numeric index of a row is covered by C15; floating-point rounding is not claimed.")
prop("C14", "A failed call changes nothing and returns no half-made result",
 "When updating a trained network or training from a file fails, no table of the network was modified before: all failures come before the first write. When a constructor, reader or solver fails, it returns an error and a nil result, never a partially built network, factor or map next to the error.",
 ["fault_sequences", "inputs"], "for all failures at all positions of a call",
 "Failure tests look at the error, not at the state left behind; most failure positions are never provoked.",
 ["training.go", "internal/tui/training.go", "network.go", "yml.go", "xml.go", "logic/*.go"],
 [("rows are validated before tables are written", "training.go UpdateNetwork"), ("error returns carry nil results", "network.go, yml.go, xml.go")],
 "path-sensitive simulation from every write and every failure source",
 "Covers errors reported by return values; panics are outside the claim.")

prop("C15", "Tables are addressed in row-major order, consistently everywhere",
 "The cell of a factor for given outcome indices is the mixed-radix number of the indices with the last variable varying fastest, for any number of variables and outcomes; every way to compute a cell or row position (index, index with missing data, get, set, row index, row, table row) agrees with it, turning a position into outcome indices is its exact inverse, and stepping through a table visits all cells in that order. A row is exactly the window of the last variable's outcomes. A missing value (-1) at any position makes the lookup report it as missing, and nothing else does; a wrong number of indices panics. Positions are computed without overflow for large tables.",
 ["inputs"], "for all factors, numbers of variables and outcomes, and index lists",
 "Tests address a few cells of small, mostly two-by-two tables.",
 ["ve/factor.go", "network.go", "ve/variables.go"],
 [("index loops from the last to the first variable", "ve/factor.go Index, IndexWithNoData, RowIndex, Outcomes, increment"), ("row lookup of definition tables", "network.go rowIndex, Row")],
 "recurrence extraction and comparison (symbolic polynomials over SSA)",
 "The recurrence, start values, direction and range of each loop are compared with the mixed-radix recurrence; the step from recurrence to closed form is the textbook argument in DESIGN.md.")

prop("C16", "Variable elimination: every factor is used exactly as required",
 "Solving applies every piece of evidence to every factor containing its variable, with the outcome given for it, and replaces precisely those factors by their restrictions. A solver starts from all variables, factors, decision parents and weights it is given. It eliminates every chance variable that is neither queried nor a parent of a decision still to be solved (of all open decisions, or of the last one if only that is asked for): the factors containing it, all of them and no others, are multiplied, the variable is summed out, and the result takes their place; a variable that is in no factor is passed over. A query drops the factors of all utilities and nothing else; a single utility drops those of the other utilities only; the total adds up every utility, each multiplied by its own weight, and sums out all utility variables. The result is the product of all factors that remain. Policies are solved for every decision (only the last one if asked), last decision first, each from the product of all factors containing it and of no others; the policy is stored for its decision and joins the factors, the decision becomes a chance variable, and what can be eliminated is eliminated before the next decision.",
 ["inputs", "histories"], "for all networks, evidence, queries, utilities, weights and numbers of decisions",
 "Tests solve a few textbook networks with binary variables; a factor lost, used twice or restricted twice often leaves these results unchanged.",
 ["ve/ve.go"],
 [("evidence", "ve/ve.go restrictEvidence"), ("elimination", "ve/ve.go eliminateHidden, removeHidden"), ("utilities", "ve/ve.go removeUtilities, sumUtilities"), ("policies", "ve/ve.go solvePolicies, findDecisionFactors")],
 "dataflow analysis of factor and variable selections: each list, map and loop is reduced to a boolean selection formula (BDD) and compared with the required one",
 "What is selected, removed and put back is decided for all inputs; together with C17 this fixes the computation up to floating-point rounding. Elimination order may be any.")
prop("C17", "Factor algebra: every operation computes the cells it defines",
 "For factors of any shape: restricting keeps exactly the cells with the given outcome and drops that variable; summing out and marginals add up, for every remaining outcome combination, all cells that agree with it, each once; product and sum combine, for every combination of all factors' variables, the cell of every factor that agrees with it; rearranging moves every cell to the same outcomes in the new order; normalizing divides every cell by the total of the table, or of its own row (rows of zeros stay as they are), and inverting replaces every cell by its reciprocal; a policy gives, for every combination of the other variables, equal probabilities adding up to 1 to the outcomes with the greatest value (1 if there is only one) and 0 to all others. The result lists exactly the variables the operation says, in order. Equal variables are matched by identity, not by position.",
 ["inputs"], "for all factors, all variable lists, orders and numbers of outcomes, and all table values",
 "Tests compute a handful of two- and three-variable tables with mostly binary outcomes.",
 ["ve/variables.go", "ve/factor.go", "ve/variable.go"],
 [("cell loops over the whole table with an index counter", "ve/variables.go Restrict, SumOut, Product, Sum, Rearrange, Policy, Marginal"), ("row and table normalization", "ve/variables.go Normalize, NormalizeFor, Invert")],
 "loop and index-map analysis: symbolic sequences of variables and of their outcome indices, compared position by position",
 "Which cells are combined and how is decided for all shapes; floating-point rounding of the sums is outside the claim.")
prop("C18", "Network and solver describe the same model",
 "Solving a network hands the solver exactly that network: every variable but the total utility once, with its own type and number of outcomes, an identity that no other variable has, and findable by its name; a decision that has a policy as a chance variable; for every chance and utility variable its own table over its parents in their given order followed by the variable itself, normalized per parent combination for chance variables and as it is for utilities; for every decision without policy its parents; every stored policy as it is, except those of decisions with evidence when policies are to be ignored; and, if there is a total utility, for each utility the weight at its position among the total's parents. All evidence is handed over, each as the position of the given outcome among the variable's outcomes, and all query variables. Each result belongs to the variable it is named for: normalized marginals by query variable, policies by decision, with the decision's parents named in table order and the decision last. Stepwise solving takes as many rounds as there are decisions. Evidence vectors are 1 at the given outcome and 0 elsewhere, and normalized utilities are the utility divided by the probability.",
 ["inputs", "histories"], "for all networks, evidence, queries and sequences of solves",
 "Tests use networks where variables are declared in the order of use, with few parents and at most one policy; a permuted parent, weight or name often gives the same numbers there.",
 ["network.go"],
 [("setup of the solver", "network.go toVE, prepareUtilityWeights, policyFactors"), ("query and evidence", "network.go solve, SolveQuery, SolveUtility"), ("policies", "network.go SolvePolicies, countDecisionSteps"), ("helpers", "network.go Marginal, Normalize, NormalizeUtility, Rearrange, ToEvidence")],
 "dataflow analysis of the mapping: selections as boolean formulas (BDD), list orders and element expressions compared with the required ones",
 "What is passed, in which order and under which condition is decided for all networks; the solver itself is C16 and C17.")

prop("C21", "A network is put together as defined, and rejected exactly when it is invalid",
 "Constructing a network from variables and factors keeps its name, info, variables and factors; gives every variable the factor defined for its name, or an empty factor of its own if there is none; takes the width of a row from the number of the variable's own outcomes and the numbers of parent outcomes from the parents, in the order of the parents; and takes as total utility the utility node whose parents are utilities (-1 if there is none). Construction fails exactly when two variables have the same name, a variable has no outcomes, a variable has several factors, a parent does not exist, a utility node has no parents or utility parents next to others, there is more than one total utility, the total utility has not as many outcomes as parents, or a table does not have one value per combination of parent outcomes and own outcome (for the total utility: per parent; a missing table is accepted for all others). Every other definition is accepted.",
 ["inputs"], "for all lists of variables and factors, in any order",
 "Tests construct a few valid networks and a handful of invalid ones; each rule has to hold for every variable, parent and combination.",
 ["network.go"],
 [("links, widths and parents", "network.go prepareVariables"), ("total utility", "network.go prepareUtilityNodes"), ("table sizes", "network.go checkTables")],
 "dataflow analysis of the constructor: links, lists and the conditions of all error returns as boolean formulas (BDD) over the definition, compared with the required ones",
 "Error conditions are compared as one formula, so their order and grouping do not matter; conditions in a form that is not recognised are left undecided.")

prop("C22", "The results shown are those of the network, each for its own node",
 "For a network, evidence and a set of nodes, the results computed for display hold, for every variable with evidence, the evidence vector; for every other chance and decision variable its normalized marginal given all evidence; for every utility its expected utility and the overall expected utility, both divided by the probability of the evidence; and for the total utility, per parent in order, the parent's utility times its weight, followed by the overall utility. Each is stored under the name of its own node, and no node is left out. The inference command solves the policies of the network first, stepwise, uses all given evidence, and prints for every node, in order, its outcomes, its name and its values: probabilities in percent, utilities as they are, with three decimals, marking exactly the nodes with evidence.",
 ["inputs"], "for all networks and evidence",
 "No test runs the inference command's output, and the single test of the results compares one network without evidence probability other than one and without weights.",
 ["internal/tui/solve.go", "cmd/bbn/inference.go"],
 [("result entries", "internal/tui/solve.go Solve, solveEvidence, solveQueries, solveUtility"), ("command", "cmd/bbn/inference.go runInferenceCommand and RunE")],
 "dataflow analysis: every entry of the result map as a term over the network's solving operations and a boolean formula (BDD) for which nodes it is stored; the same for everything the command prints",
 "What the solving operations themselves compute is C16 to C18; layout and column widths are outside the claim.")

prop("C19", "In the interactive app, every key and click does what it is documented to do",
 "Starting the app loads the given file, trains it exactly if a training file is given, solves the policies one after the other, and only then computes the first results; every node, name and policy belongs to its own variable, and every dialog has its own handlers. For every state of the app: Esc quits; Tab and BackTab select the next and previous node, cyclically, and its first outcome; Space selects the next outcome, cyclically; a digit from 1 selects that outcome if there is one; Enter or a left click on an outcome sets it as evidence for its node, or removes it if it is already set, never on utilities; T and a right click show the table of the selected node; P switches policies on and off; W, A, S, D move the selected node by one, not beyond the upper and left border, on the screen and in the network alike; other keys are passed on. A click hits the node whose area contains its position, scrolling included, and the outcome whose row it is in; labels, values, marks and the total are drawn in the same rows. After every change of evidence or settings, results are computed again, for the current network, evidence and settings, and after every visible change the screen is drawn again: each node with its own results, evidence and selection.",
 ["inputs", "histories"], "for all networks, states of the app, keys and mouse positions",
 "No test starts the app or sends it an event; the tests of nodes and bounds use single examples.",
 ["internal/tui/app.go", "internal/tui/input.go", "internal/tui/render.go", "internal/tui/node.go", "internal/tui/bounds.go"],
 [("handlers", "internal/tui/input.go"), ("start", "internal/tui/app.go Run"), ("drawing", "internal/tui/render.go, internal/tui/node.go Render, SelectedOutcome"), ("areas", "internal/tui/bounds.go Contains, Extend")],
 "abstract interpretation: constants of the event are propagated through the flattened handler, values are kept as linear terms and guards as sets of linear inequalities, loops are widened to their counters; the guarded updates of the app's state that result are compared with a table of what each event is documented to do; typestate (changed, solved, drawn) for what follows a change",
 "Colours, widths, edges, the content of dialogs other than the selected node, and the behaviour of the terminal library are outside the claim.")

prop("C20", "Only saving writes a file: the current network, under the documented name",
 "Of everything the library and the commands do, only Ctrl+S in the interactive app creates, changes or removes a file: it writes the YAML form of the network as it is then (trained and with moved nodes) to the name of the loaded file with its extension replaced by '-save.yml', in the same folder, replacing what the file contained, and writes nothing if the conversion fails. Loading, solving, training, inference and all other keys leave files, processes and the environment alone. The train command prints the YAML form of the trained network to the standard output, once, and nothing else.",
 ["inputs", "histories"], "for all file names, networks, commands and keys",
 "No test saves a network, looks at the file system, or at what the train command prints.",
 ["internal/tui/input.go", "cmd/bbn/train.go", "network.go", "internal/tui/training.go"],
 [("saving", "internal/tui/input.go saveNetwork"), ("printing", "cmd/bbn/train.go RunE"), ("all uses of functions that change files", "all packages")],
 "effect analysis: every use of a function that changes files, processes or the environment in the type-checked program, with everything that reaches it; constant propagation and term comparison for the name and content of the file, and for what is printed",
 "File permissions and what the file system does with a write are outside the claim; how a network is converted to YAML is C11.")

prop("C23", "The table of a node shows each of its values in its own row and column",
 "The table dialog of a node has one column per parent, in the order of the network, followed by one per outcome, headed by their names; and one row per combination of the parents' outcomes. In every row, a parent's column holds the outcome of that parent that the row of the node's table stands for (the last parent varies fastest), and an outcome's column holds the value of the table at this row and outcome: utilities as they are, others in percent of the sum of exactly this row, with three decimals.",
 ["inputs"], "for all networks, nodes, rows and columns",
 "No test creates a table; with one parent, or parents of equally many outcomes, wrong strides go unnoticed.",
 ["internal/tui/table.go"],
 [("cells", "internal/tui/table.go NewTable, GetCell"), ("size", "internal/tui/table.go GetRowCount, GetColumnCount")],
 "abstract interpretation: guards over row and column as linear inequalities and cells as terms over the node's factor; stride and row sum as loop recurrences with the range of their index; compared with the row-major layout",
 "Only what the cells say; alignment and widths are outside the claim. Strides or sums computed in another way than by one loop over parents or cells are reported as undecided, not as violations.")

na("C09", "Malformed input never crashes the program",
 "Every file, evidence list, training data file and key press leads to a result or an error, never to an uncontrolled crash (index out of range, nil dereference, map write to nil).",
 ["inputs"], "for all files, arguments and events",
 "Tests feed a handful of malformed files; crashes need particular shapes and positions.",
 ["network.go", "yml.go", "xml.go", "ve/variables.go", "internal/tui/node.go"],
 [("table and index accesses", "all packages")],
 "Freedom from out-of-range accesses depends on the relation between lengths of several slices and runtime values (table sizes, outcome indices, screen positions, canvas size); no sound static argument in reach bounds them, and an incomplete one would raise alarms on correct code. The parts that are decidable are claimed elsewhere: rejection of invalid definitions (C21), of unknown names (C08), of bad logic arguments (C10), and no panics on error paths being lost (C07).")
na("C30", "Posterior probabilities equal those of the joint distribution",
 "For every network, evidence and query, the marginals returned equal (up to rounding) those obtained by enumerating the joint distribution defined by the tables.",
 ["inputs"], "for all networks, evidence and queries",
 "Tests compare a few networks with known results.",
 ["ve/ve.go", "network.go"],
 [("elimination", "ve/ve.go eliminate, summarize")],
 "An equality of numbers over all tables; static analysis decides the structure it follows from (factor use C16, cell algebra C17, addressing C15, mapping C18), not the arithmetic itself.")
na("C31", "Solved policies maximise expected utility",
 "For every decision network, the policies returned by SolvePolicies maximise the expected total utility over all policies that respect the information links.",
 ["inputs"], "for all decision networks",
 "Tests compare policies of three textbook networks.",
 ["ve/ve.go", "network.go"],
 [("policy", "ve/variables.go Policy; ve/ve.go SolvePolicies")],
 "Optimality is a statement about numbers over exponentially many policies; the static claims cover each step (C16 to C18), not optimality of their composition, which also depends on the network being regular.")
na("C32", "Results are numerically accurate",
 "Computed probabilities and utilities differ from the exact values by no more than a small relative error, also for long products and large tables.",
 ["inputs"], "for all tables",
 "Tests use small tables with few digits.",
 ["ve/variables.go"],
 [("sums and products", "ve/variables.go")],
 "Rounding error depends on the values and their number at run time; there is no static bound without a bound on both.")
na("C33", "Inference finishes within reasonable time and memory",
 "Solving a network takes time and memory in proportion to the largest intermediate factor of a good elimination order.",
 ["inputs"], "for all networks",
 "Tests only use small networks.",
 ["ve/ve.go"],
 [("elimination order", "ve/ve.go")],
 "The size of intermediate factors depends on the graph at run time; the choice of order is a heuristic without a guarantee to check.")
na("C34", "The screen shows the network without overlaps or clipping",
 "In the interactive app, nodes, labels, bars and edges are drawn inside the canvas, without overwriting each other.",
 ["inputs"], "for all networks and positions",
 "Tests render single nodes.",
 ["internal/tui/render.go", "internal/tui/node.go"],
 [("drawing", "internal/tui/render.go, node.go")],
 "Placement depends on positions and label lengths given at run time, and overlapping nodes are allowed.")
