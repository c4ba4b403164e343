From a31f136f950366328b00bcc4c3ff9d4753793e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:11 +0000
Subject: [PATCH 01/23] fix: Factor.Row returns the requested row, not a slice
 starting at the row number

rowIndex returns a row number in the two-dimensional table; Row used it
as an offset into the flat table.
---
 network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network.go b/network.go
index ffc915b..d19b59b 100644
--- a/network.go
+++ b/network.go
@@ -39,7 +39,7 @@ func (f *Factor) Row(indices []int) ([]float64, bool) {
 	if !ok {
 		return nil, false
 	}
-	return f.Table[idx : idx+f.columns], true
+	return f.Table[idx*f.columns : (idx+1)*f.columns], true
 }
 
 // rowIndex returns a row starting index for the
-- 
2.43.0


From 3b02f727c359495041bad57492c6b406f948a147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:28 +0000
Subject: [PATCH 02/23] fix: bbni passes the --no-data value on to training

---
 internal/tui/app.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index bfacebd..933b5ab 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -44,6 +44,7 @@ func New(path string, evidence map[string]string, trainingFile, noData string, c
 		file:         path,
 		trainingFile: trainingFile,
 		csvDelimiter: csvDelimiter,
+		noData:       noData,
 		evidence:     evidence,
 	}
 }
-- 
2.43.0


From 1877444c78cdcf6ab20c4242cb60bc81e45b7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:29 +0000
Subject: [PATCH 03/23] fix: count utility samples once per sample in
 Trainer.AddSample

The counter was incremented twice for utility nodes, halving the trained
mean utilities.
---
 training.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/training.go b/training.go
index d097f03..a93e1dd 100644
--- a/training.go
+++ b/training.go
@@ -98,7 +98,6 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 				continue
 			}
 			t.data[i][idx][0] += u
-			t.counter[i][idx]++
 		} else {
 			s := sample[i]
 			if s < 0 {
-- 
2.43.0


From 7ecb62947c921e885d6abb58a397d3187740e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:31 +0000
Subject: [PATCH 04/23] fix: accept missing utility values in training data

The no-data value was recognised but then still parsed as a number.
---
 internal/tui/training.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/training.go b/internal/tui/training.go
index 9fcd7e4..90f194a 100644
--- a/internal/tui/training.go
+++ b/internal/tui/training.go
@@ -52,6 +52,7 @@ func TrainNetwork(net *bbn.Network, nodes []bbn.Variable, dataFile, noData strin
 				var err error
 				if record[idx] == noData {
 					utility[i] = math.NaN()
+					continue
 				}
 				utility[i], err = strconv.ParseFloat(record[idx], 64)
 				if err != nil {
-- 
2.43.0


From a9ca85e7d7ab204962e0c6cb122ae3d4ee1fc603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:51 +0000
Subject: [PATCH 05/23] fix: report a BIFXML variable without definition
 instead of crashing

---
 xml.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xml.go b/xml.go
index 2c2d591..0cb1ca6 100644
--- a/xml.go
+++ b/xml.go
@@ -52,7 +52,10 @@ func FromBIFXML(content []byte) (*Network, error) {
 	variables := make([]Variable, len(bifNet.Network.Variables))
 	factors := []Factor{}
 	for i, variable := range bifNet.Network.Variables {
-		def := defs[variable.Name]
+		def, ok := defs[variable.Name]
+		if !ok {
+			return nil, fmt.Errorf("no definition for variable '%s'", variable.Name)
+		}
 
 		columns := len(variable.Outcomes)
 		tableValues := strings.Fields(def.Table)
-- 
2.43.0


From b150f5c2e7093857e2df9ade0a3326873ef96a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:53 +0000
Subject: [PATCH 06/23] fix: record variable IDs so that AddVariable detects
 duplicates

---
 ve/variables.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ve/variables.go b/ve/variables.go
index eacaf05..cb6bc78 100644
--- a/ve/variables.go
+++ b/ve/variables.go
@@ -25,6 +25,7 @@ func (v *Variables) AddVariable(id int, nodeType NodeType, outcomes uint16) Vari
 	if _, ok := v.ids[id]; ok {
 		panic(fmt.Sprintf("there is already a variable with ID %d", id))
 	}
+	v.ids[id] = true
 	v.variables = append(v.variables,
 		Variable{
 			id:       id,
-- 
2.43.0


From 0cbe35d551a1e10f7d41e6abf6ea01125ce5c5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:54 +0000
Subject: [PATCH 07/23] fix: ToYAML keeps network info and node colors

---
 yml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yml.go b/yml.go
index 4527cca..93b906f 100644
--- a/yml.go
+++ b/yml.go
@@ -146,12 +146,14 @@ func ToYAML(network *Network) ([]byte, error) {
 			Type:     nodeTypeNames[v.NodeType],
 			Outcomes: v.Outcomes,
 			Position: v.Position,
+			Color:    v.Color,
 			Table:    table,
 		}
 	}
 
 	net := networkYaml{
 		Name:      network.Name(),
+		Info:      network.Info(),
 		Variables: variables,
 	}
 
-- 
2.43.0


From 7592d72e8590173686eb41cf265f05657fdb4469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:18 +0000
Subject: [PATCH 08/23] fix: logic.Get returns an independent factor on every
 call

The registry handed out shared instances, so SetArgs on one of them
changed the tables of all other users of the same operator.
---
 logic/factor.go | 81 ++++++++++++++++++++++++++-----------------------
 1 file changed, 43 insertions(+), 38 deletions(-)

diff --git a/logic/factor.go b/logic/factor.go
index 2bc0dc3..3db28df 100644
--- a/logic/factor.go
+++ b/logic/factor.go
@@ -12,56 +12,61 @@ type Factor interface {
 //
 // Primarily used for deserialization.
 func Get(name string) (Factor, bool) {
-	f, ok := factors[name]
-	return f, ok
+	create, ok := factors[name]
+	if !ok {
+		return nil, false
+	}
+	return create(), true
 }
 
-var factors = map[string]Factor{
-	"not": Not(),
+// Constructors for logic factors. Each call of [Get] creates a new instance,
+// so setting arguments of a factor does not affect other users.
+var factors = map[string]func() Factor{
+	"not": Not,
 
-	"and":         And(),
-	"not-and":     NotAnd(),
-	"and-not":     AndNot(),
-	"not-and-not": NotAndNot(),
+	"and":         And,
+	"not-and":     NotAnd,
+	"and-not":     AndNot,
+	"not-and-not": NotAndNot,
 
-	"or":         Or(),
-	"not-or":     NotOr(),
-	"or-not":     OrNot(),
-	"not-or-not": NotOrNot(),
+	"or":         Or,
+	"not-or":     NotOr,
+	"or-not":     OrNot,
+	"not-or-not": NotOrNot,
 
-	"xor": XOr(),
+	"xor": XOr,
 
-	"cond":         Cond(),
-	"not-cond":     NotCond(),
-	"cond-not":     CondNot(),
-	"not-cond-not": NotCondNot(),
+	"cond":         Cond,
+	"not-cond":     NotCond,
+	"cond-not":     CondNot,
+	"not-cond-not": NotCondNot,
 
-	"bicond": BiCond(),
+	"bicond": BiCond,
 
-	"if-then":         IfThen(),
-	"if-not-then":     IfNotThen(),
-	"if-then-not":     IfThenNot(),
-	"if-not-then-not": IfNotThenNot(),
+	"if-then":         IfThen,
+	"if-not-then":     IfNotThen,
+	"if-then-not":     IfThenNot,
+	"if-not-then-not": IfNotThenNot,
 
-	"equals":     Equals(),
-	"equals-not": EqualsNot(),
+	"equals":     Equals,
+	"equals-not": EqualsNot,
 
-	"count-true":  CountTrue(),
-	"count-false": CountFalse(),
+	"count-true":  CountTrue,
+	"count-false": CountFalse,
 
-	"count-is":      CountIs(0),
-	"count-less":    CountLess(0),
-	"count-greater": CountGreater(0),
+	"count-is":      func() Factor { return CountIs(0) },
+	"count-less":    func() Factor { return CountLess(0) },
+	"count-greater": func() Factor { return CountGreater(0) },
 
-	"given":      Given(0),
-	"given-not":  GivenNot(0),
-	"given-excl": GivenExcl(0),
+	"given":      func() Factor { return Given(0) },
+	"given-not":  func() Factor { return GivenNot(0) },
+	"given-excl": func() Factor { return GivenExcl(0) },
 
-	"outcome-is":      OutcomeIs(0, 0),
-	"outcome-is-not":  OutcomeIsNot(0, 0),
-	"outcome-either":  OutcomeEither(nil, 0),
-	"outcome-less":    OutcomeLess(0, 0),
-	"outcome-greater": OutcomeGreater(0, 0),
+	"outcome-is":      func() Factor { return OutcomeIs(0, 0) },
+	"outcome-is-not":  func() Factor { return OutcomeIsNot(0, 0) },
+	"outcome-either":  func() Factor { return OutcomeEither(nil, 0) },
+	"outcome-less":    func() Factor { return OutcomeLess(0, 0) },
+	"outcome-greater": func() Factor { return OutcomeGreater(0, 0) },
 
-	"bits": Bits(),
+	"bits": Bits,
 }
-- 
2.43.0


From 2d860623c5606fd841858e16a824906ce8f27e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:20 +0000
Subject: [PATCH 09/23] fix: given, given-not and given-excl check the parent
 at the given index

Parents were counted from the last one, contrary to the documentation,
and an index outside the parents crashed or was silently accepted.
---
 logic/given.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/logic/given.go b/logic/given.go
index c103e34..4270f05 100644
--- a/logic/given.go
+++ b/logic/given.go
@@ -24,12 +24,15 @@ func (f *givenFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenFactor) Table(given int) ([]float64, error) {
+	if f.Index < 0 || f.Index >= given {
+		return nil, fmt.Errorf("logic operator index %d out of range for %d operands", f.Index, given)
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & (1 << (given - 1 - f.Index))) == 0
 		if isTrue {
 			table[i*2] = 1
 		} else {
@@ -59,12 +62,15 @@ func (f *givenNotFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenNotFactor) Table(given int) ([]float64, error) {
+	if f.Index < 0 || f.Index >= given {
+		return nil, fmt.Errorf("logic operator index %d out of range for %d operands", f.Index, given)
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isFalse := (i & (1 << f.Index)) != 0
+		isFalse := (i & (1 << (given - 1 - f.Index))) != 0
 		if isFalse {
 			table[i*2] = 1
 		} else {
@@ -94,12 +100,15 @@ func (f *givenExclFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenExclFactor) Table(given int) ([]float64, error) {
+	if f.Index < 0 || f.Index >= given {
+		return nil, fmt.Errorf("logic operator index %d out of range for %d operands", f.Index, given)
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & (1 << (given - 1 - f.Index))) == 0
 		if !isTrue {
 			table[i*2+1] = 1
 			continue
@@ -110,7 +119,7 @@ func (f *givenExclFactor) Table(given int) ([]float64, error) {
 			if j == f.Index {
 				continue
 			}
-			if (i & (1 << j)) == 0 {
+			if (i & (1 << (given - 1 - j))) == 0 {
 				otherTrue = true
 				break
 			}
-- 
2.43.0


From 094f48818a00225dcf4dbba5302e76dc6dee7acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:21 +0000
Subject: [PATCH 10/23] fix: outcome logic operators report out-of-range
 arguments instead of crashing

---
 logic/outcome.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/logic/outcome.go b/logic/outcome.go
index f46a26b..678d4be 100644
--- a/logic/outcome.go
+++ b/logic/outcome.go
@@ -31,6 +31,9 @@ func (f *outcomeIsFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if f.Index < 0 || f.Index >= f.Length {
+		return nil, fmt.Errorf("logic operator index %d out of range for %d outcomes", f.Index, f.Length)
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -69,6 +72,9 @@ func (f *outcomeIsNotFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if f.Index < 0 || f.Index >= f.Length {
+		return nil, fmt.Errorf("logic operator index %d out of range for %d outcomes", f.Index, f.Length)
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -107,6 +113,14 @@ func (f *outcomeEitherFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if f.Length < 0 {
+		return nil, fmt.Errorf("logic operator requires a non-negative number of outcomes, got %d", f.Length)
+	}
+	for _, idx := range f.Indices {
+		if idx < 0 || idx >= f.Length {
+			return nil, fmt.Errorf("logic operator index %d out of range for %d outcomes", idx, f.Length)
+		}
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -148,6 +162,9 @@ func (f *outcomeLessFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if f.Index < 0 || f.Index > f.Length {
+		return nil, fmt.Errorf("logic operator index %d out of range for %d outcomes", f.Index, f.Length)
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Index; i++ {
@@ -188,6 +205,9 @@ func (f *outcomeGreaterFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if f.Index < 0 || f.Index > f.Length {
+		return nil, fmt.Errorf("logic operator index %d out of range for %d outcomes", f.Index, f.Length)
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Index; i++ {
-- 
2.43.0


From a2c667969940f8aea7930cf0558f62491ff88e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:03 +0000
Subject: [PATCH 11/23] fix: ToEvidence works before the network was first
 solved

It looked names up in a table that only exists after a solve, so it
rejected valid evidence on a fresh network.
---
 network.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/network.go b/network.go
index d19b59b..435f4f0 100644
--- a/network.go
+++ b/network.go
@@ -393,15 +393,16 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 // As an example, say we have a variable with outcomes [yes, no]. Given evidence "yes" (index 0):
 // we get the following probabilities: [1, 0].
 func (n *Network) ToEvidence(variable string, value string) ([]float64, error) {
-	vv, ok := n.variableNames[variable]
-	if !ok {
+	i := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == variable })
+	if i < 0 || i == n.totalUtilityIndex {
 		return nil, fmt.Errorf("evidence variable %s not found", variable)
 	}
-	idx := slices.Index(vv.Variable.Outcomes, value)
+	outcomes := n.variables[i].Outcomes
+	idx := slices.Index(outcomes, value)
 	if idx < 0 {
 		return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
 	}
-	probs := make([]float64, len(vv.Variable.Outcomes))
+	probs := make([]float64, len(outcomes))
 	probs[idx] = 1.0
 	return probs, nil
 }
-- 
2.43.0


From b0fefc848f330a51b5dcf9e15b2e1df9831731a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:05 +0000
Subject: [PATCH 12/23] fix: reset the selected state when a mouse click
 selects another node

The state index of the previously selected node could be out of range
for the new one, crashing bbni on the next Enter.
---
 internal/tui/input.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 92ac2a2..89eb261 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -207,6 +207,7 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
 				a.selectedNode = i
+				a.selectedState = 0
 				if outcome, ok := node.SelectedOutcome(x, y); ok {
 					a.selectedState = outcome
 					if err := a.inputEnter(); err != nil {
@@ -223,6 +224,7 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
 				a.selectedNode = i
+				a.selectedState = 0
 				a.render(true)
 				a.showTable()
 				break
-- 
2.43.0


From 8507c72faaa0dec0874b11c15a0732f95c586c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:06 +0000
Subject: [PATCH 13/23] fix: don't ignore errors when toggling policies in bbni

---
 internal/tui/input.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 89eb261..548e0d0 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -71,7 +71,9 @@ func (a *App) toggleIgnorePolicy() {
 		a.graph.SetBorderColor(tcell.ColorDefault)
 	}
 
-	a.updateMarginals()
+	if err := a.updateMarginals(); err != nil {
+		panic(err)
+	}
 	a.render(true)
 }
 
-- 
2.43.0


From 45e49b2cca22e2eb51cf9a91f4b5b00c828696d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:08 +0000
Subject: [PATCH 14/23] fix: UpdateNetwork leaves the network untouched when
 training fails

Tables of earlier nodes were overwritten before an error for a later
node was returned.
---
 training.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/training.go b/training.go
index a93e1dd..198f1f8 100644
--- a/training.go
+++ b/training.go
@@ -114,6 +114,15 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 func (t *Trainer) UpdateNetwork() (*Network, error) {
 	nodes := t.network.Variables()
 
+	// Check all rows first, to not leave a partially trained network behind.
+	for i, node := range nodes {
+		for j, cnt := range t.counter[i] {
+			if cnt == 0 {
+				return nil, fmt.Errorf("no samples for node '%s', table row %d", node.Name, j)
+			}
+		}
+	}
+
 	for i, node := range nodes {
 		data := t.data[i]
 
@@ -121,9 +130,6 @@ func (t *Trainer) UpdateNetwork() (*Network, error) {
 		rows := len(node.Factor.Table) / cols
 		for j := 0; j < rows; j++ {
 			cnt := t.counter[i][j]
-			if cnt == 0 {
-				return nil, fmt.Errorf("no samples for node '%s', table row %d", node.Name, j)
-			}
 			for k := 0; k < cols; k++ {
 				node.Factor.Table[j*cols+k] = float64(data[j][k]) / float64(cnt)
 			}
-- 
2.43.0


From f112c105a1604de3cf35d56f9c29e49707e35d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:29 +0000
Subject: [PATCH 15/23] fix: solve with a reproducible order of factors,
 evidence and policies

Map iteration order leaked into floating point summation order, factor
variable order and tie breaking of policies, so that repeated solves of
the same network could give different results.
---
 network.go | 17 +++++++++++++++--
 ve/ve.go   | 31 ++++++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/network.go b/network.go
index 435f4f0..eaa80d8 100644
--- a/network.go
+++ b/network.go
@@ -352,7 +352,8 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 	}
 
 	ev := []ve.Evidence{}
-	for name, value := range evidence {
+	for _, name := range sortedKeys(evidence) {
+		value := evidence[name]
 		vv, ok := n.variableNames[name]
 		if !ok {
 			return nil, fmt.Errorf("evidence variable %s not found", name)
@@ -538,7 +539,8 @@ func (n *Network) prepareUtilityWeights() ([]float64, error) {
 // policyFactors collects policies as factors.
 func (n *Network) policyFactors(vars *ve.Variables, varIDs []variable, evidence map[string]string) []ve.Factor {
 	factors := []ve.Factor{}
-	for name, f := range n.policies {
+	for _, name := range sortedKeys(n.policies) {
+		f := n.policies[name]
 		// if decision variable has evidence (and policies are ignored), don't add a factor
 		if _, isEvidence := evidence[name]; isEvidence {
 			continue
@@ -631,3 +633,14 @@ func (n *Network) variableIndex(f *ve.Factor, v string) (int, bool) {
 	}
 	return idx, true
 }
+
+// sortedKeys returns the keys of a map in ascending order,
+// for reproducible iteration.
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	slices.Sort(keys)
+	return keys
+}
diff --git a/ve/ve.go b/ve/ve.go
index 65e536f..bd42aca 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -46,6 +46,18 @@ func (ve *VE) Variables() *Variables {
 	return ve.variables
 }
 
+// factorIDs returns the IDs of all current factors in ascending order.
+//
+// Used to iterate factors in a reproducible order.
+func (ve *VE) factorIDs() []int {
+	ids := make([]int, 0, len(ve.factors))
+	for id := range ve.factors {
+		ids = append(ids, id)
+	}
+	slices.Sort(ids)
+	return ids
+}
+
 // getDecisions finds all decision variables and returns them in topological order.
 func (ve *VE) getDecisions() []Variable {
 	dec := []Variable{}
@@ -108,7 +120,8 @@ func (ve *VE) sumUtilities() {
 	indices := []int{}
 	factors := []*Factor{}
 
-	for k, f := range ve.factors {
+	for _, k := range ve.factorIDs() {
+		f := ve.factors[k]
 		for i, u := range utils {
 			if slices.Contains(f.variables, u) {
 				scaled := f
@@ -327,7 +340,8 @@ func (ve *VE) solvePolicies(decisions []Variable, single bool) map[Variable][2]*
 
 func (ve *VE) findDecisionFactors(decision Variable, result []*Factor) []*Factor {
 	deps := ve.dependencies[decision]
-	for _, f := range ve.factors {
+	for _, k := range ve.factorIDs() {
+		f := ve.factors[k]
 		if !slices.Contains(f.variables, decision) {
 			continue
 		}
@@ -350,7 +364,8 @@ func (ve *VE) findDecisionFactors(decision Variable, result []*Factor) []*Factor
 		result = append(result, f)
 	}
 	if len(result) == 0 {
-		for _, f := range ve.factors {
+		for _, k := range ve.factorIDs() {
+			f := ve.factors[k]
 			if !slices.Contains(f.variables, decision) {
 				continue
 			}
@@ -366,8 +381,8 @@ func (ve *VE) findDecisionFactors(decision Variable, result []*Factor) []*Factor
 
 func (ve *VE) restrictEvidence(evidence Evidence) {
 	indices := make([]int, 0, len(ve.factors))
-	for k, v := range ve.factors {
-		if slices.Contains(v.variables, evidence.Variable) {
+	for _, k := range ve.factorIDs() {
+		if slices.Contains(ve.factors[k].variables, evidence.Variable) {
 			indices = append(indices, k)
 		}
 	}
@@ -387,7 +402,8 @@ func (ve *VE) removeHidden(variable Variable) {
 	factors := make([]*Factor, 0, len(ve.factors))
 	//utilityFactors := []*Factor{}
 
-	for k, f := range ve.factors {
+	for _, k := range ve.factorIDs() {
+		f := ve.factors[k]
 		if slices.ContainsFunc(f.variables, func(v Variable) bool { return v.id == variable.id }) {
 			indices = append(indices, k)
 
@@ -427,7 +443,8 @@ func (ve *VE) removeHidden(variable Variable) {
 func (ve *VE) multiplyAll() *Factor {
 	factors := make([]*Factor, 0, len(ve.factors))
 	//utilityFactors := []*Factor{}
-	for _, f := range ve.factors {
+	for _, k := range ve.factorIDs() {
+		f := ve.factors[k]
 		/*hasUtility := false
 		for _, v := range f.Variables {
 			if v.NodeType() == UtilityNode {
-- 
2.43.0


From 28b726e02ac7fd114eb7833d19aa908e50b997d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 16/23] fix: solve networks with a variable that is not part of
 any factor

Eliminating such a variable panicked.
---
 ve/ve.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ve/ve.go b/ve/ve.go
index bd42aca..9c74be4 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -429,6 +429,12 @@ func (ve *VE) removeHidden(variable Variable) {
 		factors = append(factors, utilityFactors[0])
 	}*/
 
+	if len(factors) == 0 {
+		// Not contained in any factor, so there is nothing to sum out.
+		ve.eliminated[variable.index] = true
+		return
+	}
+
 	prod := ve.variables.Product(factors...)
 	prod = ve.variables.SumOut(&prod, variable)
 
-- 
2.43.0


From 31ee515de8cee2f46153a9e62f0f694ad728e6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:41 +0000
Subject: [PATCH 17/23] fix: SolveQuery reports query variables that have no
 marginal instead of panicking

E.g. utility nodes, or variables that have evidence.
---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index eaa80d8..8b8f7e0 100644
--- a/network.go
+++ b/network.go
@@ -317,6 +317,9 @@ func (n *Network) SolveQuery(evidence map[string]string, query []string, ignoreP
 
 	result := map[string][]float64{}
 	for _, q := range query {
+		if _, ok := n.variableIndex(f, q); !ok {
+			return nil, nil, fmt.Errorf("query variable %s is not part of the result", q)
+		}
 		m := n.Marginal(f, q)
 		n := n.Normalize(&m)
 		result[q] = n.Data()
-- 
2.43.0


From 35d1349c63a5e878227f207bb7187436d9594241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:42 +0000
Subject: [PATCH 18/23] fix: reject evidence on utility nodes, and utility
 queries for other nodes

Evidence on a utility node turned its utilities into a probability
factor, or panicked. Utility queries for non-utility nodes returned a
probability.
---
 network.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/network.go b/network.go
index 8b8f7e0..a1fd108 100644
--- a/network.go
+++ b/network.go
@@ -361,6 +361,9 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 		if !ok {
 			return nil, fmt.Errorf("evidence variable %s not found", name)
 		}
+		if vv.Variable.NodeType == ve.UtilityNode {
+			return nil, fmt.Errorf("evidence variable %s is a utility node", name)
+		}
 		idx := slices.Index(vv.Variable.Outcomes, value)
 		if idx < 0 {
 			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
@@ -384,6 +387,9 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 			if !ok {
 				return nil, fmt.Errorf("utility query variable %s not found", utilityVar)
 			}
+			if u.Variable.NodeType != ve.UtilityNode {
+				return nil, fmt.Errorf("utility query variable %s is not a utility node", utilityVar)
+			}
 			util = &u.VeVariable
 		}
 		return n.ve.SolveUtility(ev, q, util), nil
-- 
2.43.0


From 24b52c81e8d29f47ce846abbf47719c1c23d8af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:44 +0000
Subject: [PATCH 19/23] fix: don't crash on variables without a factor

New crashed for utility nodes without a factor. ToYAML and NewTrainer
crashed for any such variable.
---
 network.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/network.go b/network.go
index a1fd108..5a81c41 100644
--- a/network.go
+++ b/network.go
@@ -147,9 +147,10 @@ func (n *Network) prepareVariables() error {
 		v := &n.variables[i]
 		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })
 		if idx < 0 {
-			continue
+			v.Factor = &Factor{For: v.Name}
+		} else {
+			v.Factor = &n.factors[idx]
 		}
-		v.Factor = &n.factors[idx]
 
 		v.Factor.columns = len(v.Outcomes)
 		v.Factor.outcomes = make([]int, len(v.Factor.Given))
-- 
2.43.0


From 2a07ff0e835a163e9c99480c95035227dbbc2b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:45 +0000
Subject: [PATCH 20/23] fix: reject variables without outcomes

ToYAML and NewTrainer divided by zero for them.
---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index 5a81c41..bbef7e9 100644
--- a/network.go
+++ b/network.go
@@ -139,6 +139,9 @@ func (n *Network) prepareVariables() error {
 		if _, ok := varNames[v.Name]; ok {
 			return fmt.Errorf("duplicate variable name %s", v.Name)
 		}
+		if len(v.Outcomes) == 0 {
+			return fmt.Errorf("variable %s has no outcomes", v.Name)
+		}
 		varNames[v.Name] = v
 		outcomes[v.Name] = len(v.Outcomes)
 	}
-- 
2.43.0


From 2f04af9b3ca361dec88d83419405240adec79622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:47 +0000
Subject: [PATCH 21/23] fix: reject tables of the wrong size when constructing
 a network

They caused a panic in the first solve.
---
 network.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index bbef7e9..498a6d6 100644
--- a/network.go
+++ b/network.go
@@ -166,7 +166,30 @@ func (n *Network) prepareVariables() error {
 		}
 	}
 
-	return n.prepareUtilityNodes(varNames)
+	if err := n.prepareUtilityNodes(varNames); err != nil {
+		return err
+	}
+	return n.checkTables()
+}
+
+// checkTables checks the table sizes of all factors, called from prepareVariables.
+func (n *Network) checkTables() error {
+	for i := range n.variables {
+		v := &n.variables[i]
+		if v.Factor.Table == nil && i != n.totalUtilityIndex {
+			continue
+		}
+		expected := v.Factor.columns
+		if i != n.totalUtilityIndex {
+			for _, o := range v.Factor.outcomes {
+				expected *= o
+			}
+		}
+		if len(v.Factor.Table) != expected {
+			return fmt.Errorf("wrong table size for variable %s; expected %d values, got %d", v.Name, expected, len(v.Factor.Table))
+		}
+	}
+	return nil
 }
 
 // prepareUtilityNodes, called from prepareVariables.
-- 
2.43.0


From 8947b76df7c0117bb66d89a291f3b6c9fd71223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:13 +0000
Subject: [PATCH 22/23] fix: reject multiple factors for the same variable

Only the first one was recognised as the variable's factor, but all of
them were multiplied when solving.
---
 network.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/network.go b/network.go
index 498a6d6..b4f2196 100644
--- a/network.go
+++ b/network.go
@@ -146,6 +146,14 @@ func (n *Network) prepareVariables() error {
 		outcomes[v.Name] = len(v.Outcomes)
 	}
 
+	factorNames := map[string]bool{}
+	for i := range n.factors {
+		if factorNames[n.factors[i].For] {
+			return fmt.Errorf("multiple factors for variable %s", n.factors[i].For)
+		}
+		factorNames[n.factors[i].For] = true
+	}
+
 	for i := range n.variables {
 		v := &n.variables[i]
 		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })
-- 
2.43.0


From 9327aaa0443673562081ededb27eec018680285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:16 +0000
Subject: [PATCH 23/23] fix: digits other than 0-9 crash the interactive app

unicode.IsDigit accepts digits of other scripts, which strconv.Atoi rejects.
---
 internal/tui/input.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 548e0d0..d038dee 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -5,7 +5,6 @@ import (
 	"path"
 	"strconv"
 	"strings"
-	"unicode"
 
 	"github.com/gdamore/tcell/v2"
 	"github.com/mlange-42/bbn"
@@ -31,7 +30,7 @@ func (a *App) inputMainPanel(event *tcell.EventKey) *tcell.EventKey {
 		a.selectedState = (a.selectedState + 1) % len(a.nodes[a.selectedNode].Node().Outcomes)
 		a.render(true)
 		return nil
-	} else if unicode.IsDigit(event.Rune()) {
+	} else if event.Rune() >= '0' && event.Rune() <= '9' {
 		// Select states by index/number keys.
 		a.selectNodeOutcome(string(event.Rune()))
 		return nil
-- 
2.43.0

