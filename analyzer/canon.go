package main

var canonStructs = map[string][]canonField{
	"bbn.Factor":                 {{"For", "string"}, {"Given", "[]string"}, {"Table", "[]float64"}, {"outcomes", "[]int"}, {"columns", "int"}},
	"bbn.Network":                {{"name", "string"}, {"info", "string"}, {"variables", "[]bbn.Variable"}, {"factors", "[]bbn.Factor"}, {"policies", "map[string]ve.Factor"}, {"ve", "*ve.VE"}, {"variableNames", "map[string]*bbn.variable"}, {"totalUtilityIndex", "int"}},
	"bbn.Trainer":                {{"network", "*bbn.Network"}, {"data", "[][][]float64"}, {"counter", "[][]int"}, {"indices", "[][]int"}, {"sample", "[]int"}, {"utility", "[]float64"}},
	"bbn.Variable":               {{"Name", "string"}, {"NodeType", "ve.NodeType"}, {"Outcomes", "[]string"}, {"Position", "[2]int"}, {"Color", "string"}, {"Factor", "*bbn.Factor"}},
	"bbn.bifXmlWrapper":          {{"Network", "bbn.networkXml"}},
	"bbn.definitionXml":          {{"For", "string"}, {"Given", "[]string"}, {"Table", "string"}},
	"bbn.networkXml":             {{"Name", "string"}, {"Variables", "[]bbn.variableXml"}, {"Definitions", "[]bbn.definitionXml"}},
	"bbn.networkYaml":            {{"Name", "string"}, {"Info", "string"}, {"Variables", "[]bbn.variableYaml"}},
	"bbn.variable":               {{"Variable", "bbn.Variable"}, {"VeVariable", "ve.Variable"}},
	"bbn.variableXml":            {{"Name", "string"}, {"Type", "string"}, {"Outcomes", "[]string"}, {"Properties", "[]string"}},
	"bbn.variableYaml":           {{"Variable", "string"}, {"Given", "[]string"}, {"Type", "string"}, {"Outcomes", "[]string"}, {"Position", "[2]int"}, {"Color", "string"}, {"Logic", "string"}, {"Table", "[][]float64"}},
	"internal/tui.App":           {{"app", "*github.com/rivo/tview.Application"}, {"file", "string"}, {"trainingFile", "string"}, {"csvDelimiter", "rune"}, {"noData", "string"}, {"nodes", "[]internal/tui.Node"}, {"nodesByName", "map[string]int"}, {"pages", "*github.com/rivo/tview.Pages"}, {"graph", "*github.com/rivo/tview.TextView"}, {"tableDialog", "*github.com/rivo/tview.Grid"}, {"table", "*github.com/rivo/tview.Table"}, {"helpDialog", "*github.com/rivo/tview.Grid"}, {"help", "*github.com/rivo/tview.TextView"}, {"infoDialog", "*github.com/rivo/tview.Grid"}, {"info", "*github.com/rivo/tview.TextView"}, {"canvas", "[][]rune"}, {"colors", "[][]internal/tui.Color"}, {"network", "*bbn.Network"}, {"evidence", "map[string]string"}, {"marginals", "map[string][]float64"}, {"selectedNode", "int"}, {"selectedState", "int"}, {"ignorePolicies", "bool"}},
	"internal/tui.Bounds":        {{"X", "int"}, {"Y", "int"}, {"W", "int"}, {"H", "int"}},
	"internal/tui.Table":         {{"TableContentReadOnly", "github.com/rivo/tview.TableContentReadOnly"}, {"nodes", "[]internal/tui.Node"}, {"index", "int"}, {"nodesByName", "map[string]int"}, {"header", "[]string"}, {"columns", "int"}},
	"internal/tui.node":          {{"node", "bbn.Variable"}, {"bounds", "internal/tui.Bounds"}, {"runes", "[][]rune"}, {"colors", "[][]internal/tui.Color"}, {"barsX", "int"}},
	"logic.bitsFactor":           {},
	"logic.countFactor":          {{"Value", "int"}, {"Rule", "func(count int, value int) bool"}},
	"logic.countFalseFactor":     {},
	"logic.countTrueFactor":      {},
	"logic.givenExclFactor":      {{"Index", "int"}},
	"logic.givenFactor":          {{"Index", "int"}},
	"logic.givenNotFactor":       {{"Index", "int"}},
	"logic.outcomeEitherFactor":  {{"Indices", "[]int"}, {"Length", "int"}},
	"logic.outcomeGreaterFactor": {{"Index", "int"}, {"Length", "int"}},
	"logic.outcomeIsFactor":      {{"Index", "int"}, {"Length", "int"}},
	"logic.outcomeIsNotFactor":   {{"Index", "int"}, {"Length", "int"}},
	"logic.outcomeLessFactor":    {{"Index", "int"}, {"Length", "int"}},
	"ve.Evidence":                {{"Variable", "ve.Variable"}, {"Value", "int"}},
	"ve.Factor":                  {{"id", "int"}, {"data", "[]float64"}, {"variables", "ve.factorVariables"}},
	"ve.VE":                      {{"variables", "*ve.Variables"}, {"eliminated", "[]bool"}, {"dependencies", "map[ve.Variable][]ve.Variable"}, {"factors", "map[int]*ve.Factor"}, {"weights", "[]float64"}},
	"ve.Variable":                {{"id", "int"}, {"index", "uint16"}, {"outcomes", "uint16"}, {"nodeType", "ve.NodeType"}},
	"ve.Variables":               {{"factorCounter", "int"}, {"variables", "ve.factorVariables"}, {"ids", "map[int]bool"}},
	"ve.variableDegree":          {{"Variable", "ve.Variable"}, {"Degree", "int"}},
}

var canonFuncs = map[string]string{
	"bbn|*bbn.Factor|Row":                                 "[]int,:[]float64,bool,",
	"bbn|*bbn.Factor|rowIndex":                            "[]int,:int,bool,",
	"bbn|*bbn.Network|Info":                               ":string,",
	"bbn|*bbn.Network|Marginal":                           "*ve.Factor,string,:ve.Factor,",
	"bbn|*bbn.Network|Name":                               ":string,",
	"bbn|*bbn.Network|Normalize":                          "*ve.Factor,:ve.Factor,",
	"bbn|*bbn.Network|NormalizeUtility":                   "*ve.Factor,*ve.Factor,:ve.Factor,",
	"bbn|*bbn.Network|Rearrange":                          "*ve.Factor,[]string,:ve.Factor,",
	"bbn|*bbn.Network|SolvePolicies":                      "bool,:map[string]bbn.Factor,error,",
	"bbn|*bbn.Network|SolveQuery":                         "map[string]string,[]string,bool,:map[string][]float64,*ve.Factor,error,",
	"bbn|*bbn.Network|SolveUtility":                       "map[string]string,[]string,string,bool,:*ve.Factor,error,",
	"bbn|*bbn.Network|ToEvidence":                         "string,string,:[]float64,error,",
	"bbn|*bbn.Network|TotalUtilityIndex":                  ":int,",
	"bbn|*bbn.Network|Variables":                          ":[]bbn.Variable,",
	"bbn|*bbn.Network|checkTables":                        ":error,",
	"bbn|*bbn.Network|countDecisionSteps":                 "bool,:int,",
	"bbn|*bbn.Network|policyFactors":                      "*ve.Variables,[]bbn.variable,map[string]string,:[]ve.Factor,",
	"bbn|*bbn.Network|prepareUtilityNodes":                "map[string]*bbn.Variable,:error,",
	"bbn|*bbn.Network|prepareUtilityWeights":              ":[]float64,error,",
	"bbn|*bbn.Network|prepareVariables":                   ":error,",
	"bbn|*bbn.Network|rearrangeVariables":                 "*ve.Factor,[]string,:[]ve.Variable,",
	"bbn|*bbn.Network|solve":                              "map[string]string,[]string,bool,string,bool,:*ve.Factor,error,",
	"bbn|*bbn.Network|toVE":                               "map[string]string,:*ve.VE,map[string]*bbn.variable,error,",
	"bbn|*bbn.Network|variableIndex":                      "*ve.Factor,string,:int,bool,",
	"bbn|*bbn.Trainer|AddSample":                          "[]int,[]float64,:",
	"bbn|*bbn.Trainer|UpdateNetwork":                      ":*bbn.Network,error,",
	"bbn||FromBIFXML":                                     "[]byte,:*bbn.Network,error,",
	"bbn||FromFile":                                       "string,:*bbn.Network,error,",
	"bbn||FromYAML":                                       "[]byte,:*bbn.Network,error,",
	"bbn||New":                                            "string,string,[]bbn.Variable,[]bbn.Factor,:*bbn.Network,error,",
	"bbn||NewTrainer":                                     "*bbn.Network,:bbn.Trainer,",
	"bbn||ToYAML":                                         "*bbn.Network,:[]byte,error,",
	"bbn||parsePosition":                                  "*bbn.variableXml,:[2]int,error,",
	"bbn||sortedKeys":                                     "map[string]V,:[]string,",
	"bbn||toTable":                                        "*bbn.variableYaml,:[]float64,error,",
	"benchmark/profile||run":                              "int,:",
	"benchmark/profile||runOnce":                          ":",
	"cmd/bbni||rootCommand":                               ":*github.com/spf13/cobra.Command,",
	"cmd/bbn||inferCommand":                               ":*github.com/spf13/cobra.Command,",
	"cmd/bbn||rootCommand":                                ":*github.com/spf13/cobra.Command,",
	"cmd/bbn||runInferenceCommand":                        "string,[]string,:[]bbn.Variable,map[string]string,map[string][]float64,error,",
	"cmd/bbn||trainCommand":                               ":*github.com/spf13/cobra.Command,",
	"internal/tui|*internal/tui.App|Run":                  ":error,",
	"internal/tui|*internal/tui.App|clearCanvas":          ":",
	"internal/tui|*internal/tui.App|createCanvas":         ":",
	"internal/tui|*internal/tui.App|createHelpPanel":      ":*github.com/rivo/tview.Grid,",
	"internal/tui|*internal/tui.App|createInfoPanel":      ":*github.com/rivo/tview.Grid,",
	"internal/tui|*internal/tui.App|createMainPanel":      ":*github.com/rivo/tview.Grid,",
	"internal/tui|*internal/tui.App|createTablePanel":     ":*github.com/rivo/tview.Grid,",
	"internal/tui|*internal/tui.App|createWidgets":        ":",
	"internal/tui|*internal/tui.App|inputEnter":           ":error,",
	"internal/tui|*internal/tui.App|inputHelp":            "*github.com/gdamore/tcell/v2.EventKey,:*github.com/gdamore/tcell/v2.EventKey,",
	"internal/tui|*internal/tui.App|inputInfo":            "*github.com/gdamore/tcell/v2.EventKey,:*github.com/gdamore/tcell/v2.EventKey,",
	"internal/tui|*internal/tui.App|inputMainPanel":       "*github.com/gdamore/tcell/v2.EventKey,:*github.com/gdamore/tcell/v2.EventKey,",
	"internal/tui|*internal/tui.App|inputTable":           "*github.com/gdamore/tcell/v2.EventKey,:*github.com/gdamore/tcell/v2.EventKey,",
	"internal/tui|*internal/tui.App|mouseInputGraph":      "github.com/rivo/tview.MouseAction,*github.com/gdamore/tcell/v2.EventMouse,:github.com/rivo/tview.MouseAction,*github.com/gdamore/tcell/v2.EventMouse,",
	"internal/tui|*internal/tui.App|mouseInputHelp":       "github.com/rivo/tview.MouseAction,*github.com/gdamore/tcell/v2.EventMouse,:github.com/rivo/tview.MouseAction,*github.com/gdamore/tcell/v2.EventMouse,",
	"internal/tui|*internal/tui.App|mouseInputInfo":       "github.com/rivo/tview.MouseAction,*github.com/gdamore/tcell/v2.EventMouse,:github.com/rivo/tview.MouseAction,*github.com/gdamore/tcell/v2.EventMouse,",
	"internal/tui|*internal/tui.App|mouseInputTable":      "github.com/rivo/tview.MouseAction,*github.com/gdamore/tcell/v2.EventMouse,:github.com/rivo/tview.MouseAction,*github.com/gdamore/tcell/v2.EventMouse,",
	"internal/tui|*internal/tui.App|mousePosInGraph":      "int,int,:int,int,",
	"internal/tui|*internal/tui.App|moveNode":             "*github.com/gdamore/tcell/v2.EventKey,:*github.com/gdamore/tcell/v2.EventKey,",
	"internal/tui|*internal/tui.App|render":               "bool,:",
	"internal/tui|*internal/tui.App|renderEdge":           "int,int,:",
	"internal/tui|*internal/tui.App|renderEdgeCorner":     "*internal/tui.Bounds,*internal/tui.Bounds,:",
	"internal/tui|*internal/tui.App|renderEdgeHorizontal": "*internal/tui.Bounds,*internal/tui.Bounds,:",
	"internal/tui|*internal/tui.App|renderEdgeVertical":   "*internal/tui.Bounds,*internal/tui.Bounds,:",
	"internal/tui|*internal/tui.App|renderEdges":          ":",
	"internal/tui|*internal/tui.App|renderNodes":          ":",
	"internal/tui|*internal/tui.App|saveNetwork":          ":",
	"internal/tui|*internal/tui.App|selectNextNode":       ":",
	"internal/tui|*internal/tui.App|selectNodeOutcome":    "string,:",
	"internal/tui|*internal/tui.App|selectPreviousNode":   ":",
	"internal/tui|*internal/tui.App|showHelp":             ":",
	"internal/tui|*internal/tui.App|showInfo":             ":",
	"internal/tui|*internal/tui.App|showTable":            ":",
	"internal/tui|*internal/tui.App|toggleIgnorePolicy":   ":",
	"internal/tui|*internal/tui.App|updateCanvas":         ":",
	"internal/tui|*internal/tui.App|updateMarginals":      ":error,",
	"internal/tui|*internal/tui.Bounds|Centroid":          ":int,int,",
	"internal/tui|*internal/tui.Bounds|Contains":          "int,int,:bool,",
	"internal/tui|*internal/tui.Bounds|Extend":            "*internal/tui.Bounds,:",
	"internal/tui|*internal/tui.Table|GetCell":            "int,int,:*github.com/rivo/tview.TableCell,",
	"internal/tui|*internal/tui.Table|GetColumnCount":     ":int,",
	"internal/tui|*internal/tui.Table|GetRowCount":        ":int,",
	"internal/tui|*internal/tui.node|Bounds":              ":*internal/tui.Bounds,",
	"internal/tui|*internal/tui.node|Node":                ":*bbn.Variable,",
	"internal/tui|*internal/tui.node|Render":              "[]float64,bool,int,bool,:[][]rune,[][]internal/tui.Color,",
	"internal/tui|*internal/tui.node|SelectedOutcome":     "int,int,:int,bool,",
	"internal/tui|*internal/tui.node|drawBars":            "[]float64,bool,int,bool,:",
	"internal/tui|*internal/tui.node|drawBorder":          "bool,:",
	"internal/tui|*internal/tui.node|drawStateLabels":     ":",
	"internal/tui|*internal/tui.node|drawTitle":           ":",
	"internal/tui|*internal/tui.node|drawUtility":         "[]float64,:",
	"internal/tui||New":                                   "string,map[string]string,string,string,rune,:*internal/tui.App,",
	"internal/tui||NewBounds":                             "int,int,int,int,:internal/tui.Bounds,",
	"internal/tui||NewNode":                               "bbn.Variable,:internal/tui.Node,",
	"internal/tui||NewTable":                              "[]internal/tui.Node,int,map[string]int,:internal/tui.Table,",
	"internal/tui||ParseEvidence":                         "[]string,:map[string]string,error,",
	"internal/tui||Solve":                                 "*bbn.Network,map[string]string,[]internal/tui.Node,bool,:map[string][]float64,error,",
	"internal/tui||TrainNetwork":                          "*bbn.Network,[]bbn.Variable,string,string,rune,:*bbn.Network,error,",
	"internal/tui||nodeColor":                             "*bbn.Variable,:internal/tui.Color,error,",
	"internal/tui||prepare":                               "[]bbn.Variable,[]string,string,:[]int,[]bool,[]map[string]int,error,",
	"internal/tui||solveEvidence":                         "*bbn.Network,map[string]string,map[string][]float64,:error,",
	"internal/tui||solveQueries":                          "*bbn.Network,map[string]string,[]string,bool,map[string][]float64,:float64,error,",
	"internal/tui||solveUtility":                          "*bbn.Network,[]internal/tui.Node,map[string]string,float64,bool,map[string][]float64,:error,",
	"logic|*logic.bitsFactor|SetArgs":                     "[]int,:error,...",
	"logic|*logic.bitsFactor|Table":                       "int,:[]float64,error,",
	"logic|*logic.boolFactor|SetArgs":                     "[]int,:error,...",
	"logic|*logic.boolFactor|Table":                       "int,:[]float64,error,",
	"logic|*logic.countFactor|SetArgs":                    "[]int,:error,...",
	"logic|*logic.countFactor|Table":                      "int,:[]float64,error,",
	"logic|*logic.countFalseFactor|SetArgs":               "[]int,:error,...",
	"logic|*logic.countFalseFactor|Table":                 "int,:[]float64,error,",
	"logic|*logic.countTrueFactor|SetArgs":                "[]int,:error,...",
	"logic|*logic.countTrueFactor|Table":                  "int,:[]float64,error,",
	"logic|*logic.floatFactor|SetArgs":                    "[]int,:error,...",
	"logic|*logic.floatFactor|Table":                      "int,:[]float64,error,",
	"logic|*logic.givenExclFactor|SetArgs":                "[]int,:error,...",
	"logic|*logic.givenExclFactor|Table":                  "int,:[]float64,error,",
	"logic|*logic.givenFactor|SetArgs":                    "[]int,:error,...",
	"logic|*logic.givenFactor|Table":                      "int,:[]float64,error,",
	"logic|*logic.givenNotFactor|SetArgs":                 "[]int,:error,...",
	"logic|*logic.givenNotFactor|Table":                   "int,:[]float64,error,",
	"logic|*logic.outcomeEitherFactor|SetArgs":            "[]int,:error,...",
	"logic|*logic.outcomeEitherFactor|Table":              "int,:[]float64,error,",
	"logic|*logic.outcomeGreaterFactor|SetArgs":           "[]int,:error,...",
	"logic|*logic.outcomeGreaterFactor|Table":             "int,:[]float64,error,",
	"logic|*logic.outcomeIsFactor|SetArgs":                "[]int,:error,...",
	"logic|*logic.outcomeIsFactor|Table":                  "int,:[]float64,error,",
	"logic|*logic.outcomeIsNotFactor|SetArgs":             "[]int,:error,...",
	"logic|*logic.outcomeIsNotFactor|Table":               "int,:[]float64,error,",
	"logic|*logic.outcomeLessFactor|SetArgs":              "[]int,:error,...",
	"logic|*logic.outcomeLessFactor|Table":                "int,:[]float64,error,",
	"logic||And":                                          ":logic.Factor,",
	"logic||AndNot":                                       ":logic.Factor,",
	"logic||BiCond":                                       ":logic.Factor,",
	"logic||Bits":                                         ":logic.Factor,",
	"logic||Cond":                                         ":logic.Factor,",
	"logic||CondNot":                                      ":logic.Factor,",
	"logic||CountFalse":                                   ":logic.Factor,",
	"logic||CountGreater":                                 "int,:logic.Factor,",
	"logic||CountIs":                                      "int,:logic.Factor,",
	"logic||CountLess":                                    "int,:logic.Factor,",
	"logic||CountTrue":                                    ":logic.Factor,",
	"logic||Equals":                                       ":logic.Factor,",
	"logic||EqualsNot":                                    ":logic.Factor,",
	"logic||Get":                                          "string,:logic.Factor,bool,",
	"logic||Given":                                        "int,:logic.Factor,",
	"logic||GivenExcl":                                    "int,:logic.Factor,",
	"logic||GivenNot":                                     "int,:logic.Factor,",
	"logic||IfNotThen":                                    ":logic.Factor,",
	"logic||IfNotThenNot":                                 ":logic.Factor,",
	"logic||IfThen":                                       ":logic.Factor,",
	"logic||IfThenNot":                                    ":logic.Factor,",
	"logic||Not":                                          ":logic.Factor,",
	"logic||NotAnd":                                       ":logic.Factor,",
	"logic||NotAndNot":                                    ":logic.Factor,",
	"logic||NotCond":                                      ":logic.Factor,",
	"logic||NotCondNot":                                   ":logic.Factor,",
	"logic||NotOr":                                        ":logic.Factor,",
	"logic||NotOrNot":                                     ":logic.Factor,",
	"logic||Or":                                           ":logic.Factor,",
	"logic||OrNot":                                        ":logic.Factor,",
	"logic||OutcomeEither":                                "[]int,int,:logic.Factor,",
	"logic||OutcomeGreater":                               "int,int,:logic.Factor,",
	"logic||OutcomeIs":                                    "int,int,:logic.Factor,",
	"logic||OutcomeIsNot":                                 "int,int,:logic.Factor,",
	"logic||OutcomeLess":                                  "int,int,:logic.Factor,",
	"logic||XOr":                                          ":logic.Factor,",
	"ve|*ve.Factor|Data":                                  ":[]float64,",
	"ve|*ve.Factor|Get":                                   "[]int,:float64,",
	"ve|*ve.Factor|Id":                                    ":int,",
	"ve|*ve.Factor|Index":                                 "[]int,:int,",
	"ve|*ve.Factor|IndexWithNoData":                       "[]int,:int,bool,",
	"ve|*ve.Factor|Outcomes":                              "int,[]int,:",
	"ve|*ve.Factor|Row":                                   "[]int,:[]float64,",
	"ve|*ve.Factor|RowIndex":                              "[]int,:int,int,",
	"ve|*ve.Factor|Set":                                   "[]int,float64,:",
	"ve|*ve.Factor|Variables":                             ":[]ve.Variable,",
	"ve|*ve.VE|SolvePolicies":                             "bool,:map[ve.Variable][2]*ve.Factor,",
	"ve|*ve.VE|SolveQuery":                                "[]ve.Evidence,[]ve.Variable,:*ve.Factor,",
	"ve|*ve.VE|SolveUtility":                              "[]ve.Evidence,[]ve.Variable,*ve.Variable,:*ve.Factor,",
	"ve|*ve.VE|Variables":                                 ":*ve.Variables,",
	"ve|*ve.VE|eliminateEvidence":                         "[]ve.Evidence,:",
	"ve|*ve.VE|eliminateHidden":                           "[]ve.Evidence,[]ve.Variable,bool,:",
	"ve|*ve.VE|factorIDs":                                 ":[]int,",
	"ve|*ve.VE|findDecisionFactors":                       "ve.Variable,[]*ve.Factor,:[]*ve.Factor,",
	"ve|*ve.VE|getDecisionParents":                        "bool,:[]bool,",
	"ve|*ve.VE|getDecisions":                              ":[]ve.Variable,",
	"ve|*ve.VE|multiplyAll":                               ":*ve.Factor,",
	"ve|*ve.VE|removeHidden":                              "ve.Variable,:",
	"ve|*ve.VE|removeUtilities":                           "*ve.Variable,:",
	"ve|*ve.VE|restrictEvidence":                          "ve.Evidence,:",
	"ve|*ve.VE|solve":                                     "[]ve.Evidence,[]ve.Variable,bool,*ve.Variable,:*ve.Factor,",
	"ve|*ve.VE|solvePolicies":                             "[]ve.Variable,bool,:map[ve.Variable][2]*ve.Factor,",
	"ve|*ve.VE|sumUtilities":                              ":",
	"ve|*ve.VE|summarize":                                 ":*ve.Factor,",
	"ve|*ve.Variables|AddVariable":                        "int,ve.NodeType,uint16,:ve.Variable,",
	"ve|*ve.Variables|CreateFactor":                       "[]ve.Variable,[]float64,:ve.Factor,",
	"ve|*ve.Variables|Invert":                             "*ve.Factor,:ve.Factor,",
	"ve|*ve.Variables|Marginal":                           "*ve.Factor,ve.Variable,:ve.Factor,",
	"ve|*ve.Variables|Normalize":                          "*ve.Factor,:ve.Factor,",
	"ve|*ve.Variables|NormalizeFor":                       "*ve.Factor,ve.Variable,:ve.Factor,",
	"ve|*ve.Variables|Policy":                             "*ve.Factor,ve.Variable,:ve.Factor,",
	"ve|*ve.Variables|Product":                            "[]*ve.Factor,:ve.Factor,...",
	"ve|*ve.Variables|Rearrange":                          "*ve.Factor,[]ve.Variable,:ve.Factor,",
	"ve|*ve.Variables|Restrict":                           "*ve.Factor,ve.Variable,int,:ve.Factor,",
	"ve|*ve.Variables|Sum":                                "[]*ve.Factor,:ve.Factor,...",
	"ve|*ve.Variables|SumOut":                             "*ve.Factor,ve.Variable,:ve.Factor,",
	"ve|*ve.Variable|Id":                                  ":int,",
	"ve|*ve.Variable|NodeType":                            ":ve.NodeType,",
	"ve|ve.Variable|Is":                                   "ve.Variable,:bool,",
	"ve|ve.Variable|WithNodeType":                         "ve.NodeType,:ve.Variable,",
	"ve|ve.factorVariables|Index":                         "[]int,:int,",
	"ve|ve.factorVariables|IndexWithNoData":               "[]int,:int,bool,",
	"ve|ve.factorVariables|Outcomes":                      "int,[]int,:",
	"ve|ve.factorVariables|increment":                     "[]int,:bool,",
	"ve||New":                                             "*ve.Variables,[]ve.Factor,map[ve.Variable][]ve.Variable,[]float64,:*ve.VE,",
	"ve||NewVariables":                                    ":*ve.Variables,",
	"ve||sortTopological":                                 "[]ve.Variable,map[ve.Variable][]ve.Variable,:[]ve.Variable,",
	"ve||sortTopologicalRecursive":                        "[]ve.Variable,int,map[ve.Variable][]ve.Variable,[]bool,[]ve.Variable,:[]ve.Variable,",
}
