G = "aqlgraph/graph.go"
H = "aqlgraph/node_html.go"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

ALL = "V01 V02"

# structure
bug("b-gr-right-first", "V01", (G, "		left = a.Left\n		right = a.Right\n	case *ast.OrNode:", "		left = a.Right\n		right = a.Left\n	case *ast.OrNode:"))
bug("b-gr-edge-dir", "V01", (G, "		graph.NewEdge(n, lNode)\n	}\n	return n", "		graph.NewEdge(lNode, n)\n	}\n	return n"))
bug("b-gr-not-child", "V01", (G, "		left = a.Expr\n", "		if e, ok := a.Expr.(*ast.NotNode); ok {\n			return visitNodes(graph, e.Expr)\n		}\n		left = a.Expr\n"))
bug("b-gr-flatten-or", "V01", (G, "		n.SetLabel(\"OR\")\n", "		if _, ok := a.Left.(*ast.OrNode); ok {\n			a = &ast.OrNode{Left: a.Left, Right: a.Left}\n		}\n		n.SetLabel(\"OR\")\n"))
bug("b-gr-name-reuse", "V01", (G, "	n.id++\n	return name", "	if n.id < 9 {\n		n.id++\n	}\n	return name"))
bug("b-gr-name-mod", "V01", (G, "	name := strconv.Itoa(n.id)\n", "	name := strconv.Itoa(n.id % 64)\n"))
bug("b-gr-name-start", "V01", (G, "	name := strconv.Itoa(n.id)\n", "	name := \"start\"\n	if n.id > 0 {\n		name = strconv.Itoa(n.id)\n	}\n"))
bug("b-gr-label-not", "V01", (G, "n.SetLabel(\"NOT\")", "n.SetLabel(\"AND\")"))
bug("b-gr-label-nested", "V01", (G, "	return n\n}", "	if o, ok := anode.(*ast.OrNode); ok {\n		if _, ok := o.Right.(*ast.AndNode); ok {\n			n.SetLabel(\"AND\")\n		}\n	}\n	return n\n}"))
bug("b-gr-start-self", "V01", (G, "ng.NewEdge(startNode, rootNode)", "ng.NewEdge(rootNode, startNode)"))
bug("b-gr-double-edge", "V01", (G, "		ledge.SetPenWidth(3)\n", "		ledge.SetPenWidth(3)\n		if right == nil {\n			graph.NewEdge(n, lNode)\n		}\n"))
bug("b-gr-share-node", "V01", (G, "		lNode := visitNodes(graph, right)\n", "		lNode := n\n		if right != left {\n			lNode = visitNodes(graph, right)\n		}\n		if _, ok := right.(*ast.NotNode); ok {\n			lNode = n\n		}\n"))
# labels
bug("b-gr-vals-one", "V01", (G, "		for _, rv := range a.RVals {", "		for i, rv := range a.RVals {\n			if i > 1 {\n				break\n			}"))
bug("b-gr-vals-rev", "V01", (G, "			hn.Values = append(hn.Values, NodeVal{\n				ValType: valType,\n				ValStr:  rv.String(),\n				Color:   valColor,\n			})", "			hn.Values = append([]NodeVal{{\n				ValType: valType,\n				ValStr:  rv.String(),\n				Color:   valColor,\n			}}, hn.Values...)"))
bug("b-gr-field-first", "V01", (G, "strings.Join(a.Field, \".\")", "strings.Join(a.Field[len(a.Field)-1:], \".\")"))
bug("b-gr-field-sep", "V01", (G, "strings.Join(a.Field, \".\")", "strings.Join(a.Field, \"\")"))
bug("b-gr-op-lower", "V01", (G, "string(a.Op),", "strings.ToLower(string(a.Op)),"))
bug("b-gr-val-trunc", "V01", (G, "		// Set the label to html\n", "		for i := range hn.Values {\n			if len(hn.Values[i].ValStr) > 32 {\n				hn.Values[i].ValStr = hn.Values[i].ValStr[:32]\n			}\n		}\n		// Set the label to html\n"))
bug("b-gr-skip-bool", "V01", (G, "				valType = \"boolean\"\n", "				valType = \"boolean\"\n				continue\n"))
bug("b-gr-no-html", "V01", (G, "n.SetLabel(graph.StrdupHTML(lb.String()))", "n.SetLabel(lb.String())"))
bug("b-gr-tmpl-values", "V01", (H, "{{- if .Values }}\n<TR>\n	<TD COLSPAN=\"2\">Values</TD>\n</TR>\n{{- range .Values}}", "{{- if .Props }}\n<TR>\n	<TD COLSPAN=\"2\">Values</TD>\n</TR>\n{{- range .Props}}"), (H, "<TD BORDER=\"1\" BGCOLOR=\"{{ .Color }}\"><I>{{ .ValType }}</I></TD>\n	<TD BORDER=\"1\" BGCOLOR=\"#FFFFFF\">{{ .ValStr|html }}</TD>", "<TD BORDER=\"1\">{{ .Value|html }}</TD>"))
bug("b-gr-tmpl-broken", "V01", (H, "{{- end }}\n{{- end }}\n</TABLE>", "</TR>\n{{- end }}\n{{- end }}\n</TABLE>"))
bug("b-gr-buffer-shared", "V01", (G, "		var lb bytes.Buffer\n", ""), (G, "type namer struct {", "var lb bytes.Buffer\n\ntype namer struct {"))
bug("b-gr-dup-vals", "V01", (G, "		for _, rv := range a.RVals {", "		seen := map[ast.Val]bool{}\n		kinds := map[string]bool{}\n		for _, rv := range a.RVals {\n			if seen[rv] || kinds[rv.String()] {\n				continue\n			}\n			seen[rv] = true\n			kinds[rv.String()] = true"))
bug("b-gr-dot-svg", "V01", (G, "g.gv.RenderFilename(g.g, \"dot\", filename)", "g.gv.RenderFilename(g.g, graphviz.SVG, filename)"))
# escaping and failures
bug("b-gr-noesc-value", "V02", (H, "{{ .Value|html }}", "{{ .Value }}"))
bug("b-gr-noesc-str", "V02", (H, "{{ .ValStr|html }}", "{{ .ValStr }}"))
bug("b-gr-noesc-field", "V02", (H, "{{ .Field|html }}", "{{ .Field }}"))
bug("b-gr-esc-strings", "V02", (H, "{{ .ValStr|html }}", "{{ if eq .ValType \"string\" }}{{ .ValStr|html }}{{ else }}{{ .ValStr }}{{ end }}"))
bug("b-gr-esc-js", "V02", (H, "{{ .Field|html }}", "{{ .Field|js }}"))
bug("b-gr-esc-go", "V02", (H, "{{ .ValStr|html }}", "{{ .ValStr }}"), (G, "ValStr:  rv.String(),", "ValStr:  strings.ReplaceAll(strings.ReplaceAll(rv.String(), \"<\", \"&lt;\"), \">\", \"&gt;\"),"))
bug("b-gr-title-html", "V02", (G, "ng.SetLabel(query).", "ng.SetLabel(g.StrdupHTML(\"<B>\" + query + \"</B>\"))."))
bug("b-gr-after-esc", "V02", (G, "n.SetLabel(graph.StrdupHTML(lb.String()))", "n.SetLabel(graph.StrdupHTML(lb.String() + string(a.Op)))"))
bug("b-gr-err-graph", "V02", (G, "	g, err := gv.Graph(graphviz.Name(\"query\"), graphviz.Directed)\n	if err != nil {\n		return nil, err\n	}\n", "	g, err := gv.Graph(graphviz.Name(\"query\"), graphviz.Directed)\n"))
bug("b-gr-err-start", "V02", (G, "	startNode, err := ng.CreateNode(\"start\")\n	if err != nil {\n		return nil, err\n	}\n", "	startNode, _ := ng.CreateNode(\"start\")\n"))
bug("b-gr-err-node", "V02", (G, "		panic(\"could not create new node: \" + err.Error())\n", "		return nil\n"))
bug("b-gr-err-edge", "V02", (G, "		panic(\"could not create new edge: \" + err.Error())\n", "		return nil\n"))
bug("b-gr-err-edge2", "V02", (G, "		graph.NewEdge(n, lNode)\n	}\n	return n", "		graph.CreateEdge(graph.n.next(), n, lNode)\n	}\n	return n"))
bug("b-gr-err-parse", "V02", (G, "	root, err := parser.ParseQuery(query)\n	if err != nil {\n		return nil, err\n	}\n", "	root, err := parser.ParseQuery(query)\n	if root == nil && err == nil {\n		return nil, err\n	}\n"))
bug("b-gr-err-shadow", "V02", (G, "	startNode.SetShape(cgraph.PointShape)\n", "	if err == nil {\n		startNode.SetShape(cgraph.PointShape)\n	}\n"), (G, "	startNode, err := ng.CreateNode(\"start\")\n	if err != nil {\n		return nil, err\n	}\n", "	startNode, err := ng.CreateNode(\"start\")\n"))
bug("b-gr-err-tmpl", "V02", (G, "			panic(\"template error: \" + err.Error())\n", "			lb.Reset()\n"))
bug("b-gr-err-render", "V02", (G, "	return g.gv.RenderFilename(g.g, graphviz.SVG, filename)", "	g.gv.RenderFilename(g.g, graphviz.SVG, filename)\n	return nil"))
bug("b-gr-err-nilnil", "V02", (G, "	startNode, err := ng.CreateNode(\"start\")\n	if err != nil {\n		return nil, err\n	}\n", "	startNode, err := ng.CreateNode(\"start\")\n	if err != nil {\n		return nil, nil\n	}\n"))

ref("r-gr-helper", ALL, (G, "	case *ast.AndNode:\n		n.SetLabel(\"AND\")\n		n.SetShape(cgraph.BoxShape)\n		n.SetFillColor(colorAnd)\n", "	case *ast.AndNode:\n		connective(n, \"AND\", colorAnd)\n"), (G, "func visitNodes(", "func connective(n *cgraph.Node, label, color string) {\n	n.SetLabel(label).SetShape(cgraph.BoxShape).SetFillColor(color)\n}\n\nfunc visitNodes("))
ref("r-gr-safeset", ALL, (G, "n.SetLabel(\"NOT\")", "n.SafeSet(\"label\", \"NOT\", \"\")"))
ref("r-gr-method", ALL, (G, "func visitNodes(graph *namegraph, anode ast.Node) *cgraph.Node {", "func (graph *namegraph) visit(anode ast.Node) *cgraph.Node {"), (G, "visitNodes(graph, left)", "graph.visit(left)"), (G, "visitNodes(graph, right)", "graph.visit(right)"), (G, "visitNodes(ng, root)", "ng.visit(root)"))
ref("r-gr-children", ALL, (G, "	var (\n		left  ast.Node\n		right ast.Node\n	)", "	var children []ast.Node"), (G, "		left = a.Expr\n", "		children = []ast.Node{a.Expr}\n"), (G, "		left = a.Left\n		right = a.Right\n	case *ast.OrNode:", "		children = []ast.Node{a.Left, a.Right}\n	case *ast.OrNode:"), (G, "		left = a.Left\n		right = a.Right\n	case *ast.ExprNode:", "		children = append(children, a.Left, a.Right)\n	case *ast.ExprNode:"), (G, "	if left != nil {\n		lNode := visitNodes(graph, left)\n		ledge := graph.NewEdge(n, lNode)\n		ledge.SetPenWidth(3)\n	}\n	if right != nil {\n		lNode := visitNodes(graph, right)\n		graph.NewEdge(n, lNode)\n	}\n", "	for i, child := range children {\n		e := graph.NewEdge(n, visitNodes(graph, child))\n		if i == 0 {\n			e.SetPenWidth(3)\n		}\n	}\n"))
ref("r-gr-label-fn", ALL, (G, "		// Set the label to html\n		var lb bytes.Buffer\n		if err := labelTmpl.Execute(&lb, hn); err != nil {\n			panic(\"template error: \" + err.Error())\n		}\n\n		n.SetLabel(graph.StrdupHTML(lb.String()))", "		n.SetLabel(graph.StrdupHTML(hn.render()))"), (G, "func visitNodes(", "func (h *htmlNode) render() string {\n	var lb bytes.Buffer\n	if err := labelTmpl.Execute(&lb, h); err != nil {\n		panic(\"template error: \" + err.Error())\n	}\n	return lb.String()\n}\n\nfunc visitNodes("))
ref("r-gr-builder", ALL, (G, "		var lb bytes.Buffer\n", "		var lb strings.Builder\n"), (G, "	\"bytes\"\n", ""))
ref("r-gr-make", ALL, (G, "		for _, rv := range a.RVals {", "		hn.Values = make([]NodeVal, 0, len(a.RVals))\n		for _, rv := range a.RVals {"))
ref("r-gr-index", ALL, (G, "			hn.Values = append(hn.Values, NodeVal{\n				ValType: valType,\n				ValStr:  rv.String(),\n				Color:   valColor,\n			})", "			hn.Values[i] = NodeVal{\n				ValType: valType,\n				ValStr:  rv.String(),\n				Color:   valColor,\n			}"), (G, "		for _, rv := range a.RVals {", "		hn.Values = make([]NodeVal, len(a.RVals))\n		for i, rv := range a.RVals {"))
ref("r-gr-kind-fn", ALL, (G, "			valColor := \"\"\n			valType := \"\"\n			switch rv.(type) {\n			case *ast.FloatVal:\n				valColor = colorFloat\n				valType = \"float\"\n			case *ast.IntVal:\n				valColor = colorInt\n				valType = \"integer\"\n			case *ast.StringVal:\n				valColor = colorString\n				valType = \"string\"\n			case *ast.NetVal:\n				valColor = colorNet\n				valType = \"network\"\n			case *ast.BoolVal:\n				valColor = colorBool\n				valType = \"boolean\"\n			case *ast.RegexpVal:\n				valColor = colorRegex\n				valType = \"regexp\"\n			case *ast.TimeVal:\n				valColor = colorTime\n				valType = \"datetime\"\n			}\n", "			valColor, valType := valKind(rv)\n"), (G, "func visitNodes(", "func valKind(rv ast.Val) (string, string) {\n	switch rv.(type) {\n	case *ast.FloatVal:\n		return colorFloat, \"float\"\n	case *ast.IntVal:\n		return colorInt, \"integer\"\n	case *ast.StringVal:\n		return colorString, \"string\"\n	case *ast.NetVal:\n		return colorNet, \"network\"\n	case *ast.BoolVal:\n		return colorBool, \"boolean\"\n	case *ast.RegexpVal:\n		return colorRegex, \"regexp\"\n	case *ast.TimeVal:\n		return colorTime, \"datetime\"\n	}\n	return \"\", \"\"\n}\n\nfunc visitNodes("))
ref("r-gr-err-helper", ALL, (G, "	newnode, err := n.Graph.CreateNode(n.n.next())\n	if err != nil {\n		panic(\"could not create new node: \" + err.Error())\n	}\n	return newnode", "	name := n.n.next()\n	if newnode, err := n.Graph.CreateNode(name); err == nil {\n		return newnode\n	} else {\n		panic(fmt.Sprintf(\"could not create node %s: %v\", name, err))\n	}"), (G, "	\"bytes\"\n", "	\"bytes\"\n	\"fmt\"\n"))
ref("r-gr-return-err", ALL, (G, "	return g.gv.RenderFilename(g.g, graphviz.SVG, filename)", "	if err := g.gv.RenderFilename(g.g, graphviz.SVG, filename); err != nil {\n		return fmt.Errorf(\"rendering %s: %w\", filename, err)\n	}\n	return nil"), (G, "	\"bytes\"\n", "	\"bytes\"\n	\"fmt\"\n"))
ref("r-gr-render-fn", ALL, (G, "	return g.gv.RenderFilename(g.g, graphviz.SVG, filename)", "	return g.render(graphviz.SVG, filename)"), (G, "	return g.gv.RenderFilename(g.g, \"dot\", filename)", "	return g.render(graphviz.XDOT, filename)") if False else (G, "	return g.gv.RenderFilename(g.g, \"dot\", filename)\n}", "	return g.render(\"dot\", filename)\n}\n\nfunc (g *Graph) render(format graphviz.Format, filename string) error {\n	return g.gv.RenderFilename(g.g, format, filename)\n}"))
ref("r-gr-escape-go", ALL, (H, "{{ .ValStr|html }}", "{{ .ValStr }}"), (G, "ValStr:  rv.String(),", "ValStr:  template.HTMLEscapeString(rv.String()),"), (G, "	\"strings\"\n", "	\"strings\"\n	\"text/template\"\n"))
ref("r-gr-tmpl-with", ALL, (H, "{{- if .Values }}\n<TR>\n	<TD COLSPAN=\"2\">Values</TD>\n</TR>\n{{- range .Values}}", "{{- with .Values }}\n<TR>\n	<TD COLSPAN=\"2\">Values</TD>\n</TR>\n{{- range . }}"))
ref("r-gr-tmpl-html", ALL, (H, "{{ .ValStr|html }}", "{{ html .ValStr }}"))
ref("r-gr-tmpl-var", ALL, (H, "{{- range .Values}}", "{{- range $i, $v := .Values}}"), (H, "{{ .ValStr|html }}", "{{ $v.ValStr|html }}"))
ref("r-gr-htmltmpl", ALL, (H, "import \"text/template\"", "import \"html/template\""), (H, "{{ .Field|html }}", "{{ .Field }}"), (H, "{{ .Name |html }}", "{{ .Name }}"), (H, "{{ .Value|html }}", "{{ .Value }}"), (H, "{{ .ValStr|html }}", "{{ .ValStr }}"))
ref("r-gr-closure", ALL, (G, "	rootNode := visitNodes(ng, root)\n	firstEdge := ng.NewEdge(startNode, rootNode)\n	firstEdge.SetPenWidth(3)\n", "	connect := func(to *cgraph.Node) {\n		ng.NewEdge(startNode, to).SetPenWidth(3)\n	}\n	connect(visitNodes(ng, root))\n"))
ref("r-gr-sprint-op", ALL, (G, "string(a.Op),", "fmt.Sprint(a.Op),"), (G, "	\"bytes\"\n", "	\"bytes\"\n	\"fmt\"\n"))
ref("r-gr-namer", ALL, (G, "	name := strconv.Itoa(n.id)\n	n.id++\n	return name", "	n.id++\n	return \"n\" + strconv.Itoa(n.id)"))
ref("r-gr-namer-fmt", ALL, (G, "	name := strconv.Itoa(n.id)\n	n.id++\n	return name", "	n.id++\n	return fmt.Sprintf(\"n%d\", n.id)"), (G, "	\"strconv\"\n", ""), (G, "	\"bytes\"\n", "	\"bytes\"\n	\"fmt\"\n"))
ref("r-gr-visited-order", ALL, (G, "	if left != nil {\n		lNode := visitNodes(graph, left)\n		ledge := graph.NewEdge(n, lNode)\n		ledge.SetPenWidth(3)\n	}\n	if right != nil {\n		lNode := visitNodes(graph, right)\n		graph.NewEdge(n, lNode)\n	}\n", "	if left == nil {\n		return n\n	}\n	graph.NewEdge(n, visitNodes(graph, left)).SetPenWidth(3)\n	if right == nil {\n		return n\n	}\n	graph.NewEdge(n, visitNodes(graph, right))\n"))
ref("r-gr-iface-switch", ALL, (G, "	switch a := anode.(type) {\n	case *ast.NotNode:\n		n.SetLabel(\"NOT\")", "	if _, ok := anode.(*ast.NotNode); ok {\n		n.SetStyle(cgraph.FilledNodeStyle)\n	}\n	switch a := anode.(type) {\n	case *ast.NotNode:\n		n.SetLabel(\"NOT\")"))
