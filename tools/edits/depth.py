# depth of trees, of paths and of documents: what only deep inputs reach
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

A = "parser/ast/ast.go"
J = "jsonmatcher/json_values.go"
B = "jsonmatcher/build_matcher.go"
N = "jsonmatcher/nodes.go"
NS = "jsonmatcher/node_stats.go"
FS = "jsonmatcher/field_stats.go"
K = "sampler/sampler.go"
G = "aqlgraph/graph.go"
V = "parser/visitors.go"
VA = "parser/validators.go"
Q = "jsonmatcher/query_messages.go"

for d in (3, 40):
    # the compiler counts how deep it is and gives up on negations
    count = (B, "	withStats bool\n	// track", "	withStats bool\n	depth     int\n	// track")
    enter = (B, "	// make a set of expectedtypes", "	b.depth++\n	defer func() { b.depth-- }()\n	// make a set of expectedtypes")
    bug(f"b-deep{d}-build-not", "M01", count, enter, (B, "	case *ast.NotNode:\n", f"	case *ast.NotNode:\n		if b.depth > {d} {{\n			return b.build(n.Expr)\n		}}\n"))
    bug(f"b-deep{d}-build-and", "M01", count, enter, (B, "			right: b.build(n.Right),\n		}\n		if b.withStats {\n			node.nodeStats = &nodeStats{\n				nodeName: \"AND\",", f"			right: b.build(n.Right),\n		}}\n		if b.depth > {d} {{\n			return node.left\n		}}\n		if b.withStats {{\n			node.nodeStats = &nodeStats{{\n				nodeName: \"AND\","))
    bug(f"b-deep{d}-build-stats", "M11", count, enter, (B, "		if b.withStats {\n			node.nodeStats = &nodeStats{\n				nodeName: \"OR\",", f"		if b.withStats && b.depth <= {d} {{\n			node.nodeStats = &nodeStats{{\n				nodeName: \"OR\","))
    bug(f"b-deep{d}-build-param", "M01", (B, "func (b *builder) build(node ast.Node) boolNode {\n", f"func (b *builder) build(node ast.Node) boolNode {{\n	return b.buildAt(node, 0)\n}}\n\nfunc (b *builder) buildAt(node ast.Node, depth int) boolNode {{\n"),
        (B, "			left:  b.build(n.Left),\n			right: b.build(n.Right),\n		}\n		if b.withStats {\n			node.nodeStats = &nodeStats{\n				nodeName: \"AND\",", "			left:  b.buildAt(n.Left, depth+1),\n			right: b.buildAt(n.Right, depth+1),\n		}\n		if b.withStats {\n			node.nodeStats = &nodeStats{\n				nodeName: \"AND\","),
        (B, "			sub: b.build(n.Expr),\n		}\n", f"			sub: b.buildAt(n.Expr, depth+1),\n		}}\n		if depth > {d} {{\n			return node.sub\n		}}\n"))
    # printing
    bug(f"b-deep{d}-print", "P08", (A, "func (n *NotNode) String() string {\n	return fmt.Sprintf(\"(! %s)\", n.Expr.String())", f"func (n *NotNode) String() string {{\n	return printNot(n, 0)\n}}\n\nfunc printNot(n *NotNode, depth int) string {{\n	if in, ok := n.Expr.(*NotNode); ok && depth < {d} {{\n		return \"(! \" + printNot(in, depth+1) + \")\"\n	}} else if ok {{\n		return \"(! ...)\"\n	}}\n	return fmt.Sprintf(\"(! %s)\", n.Expr.String())"))
    # looking up
    bug(f"b-deep{d}-path", "M05", (J, "func getValues(path valuepath, data []byte, dataType jsonparser.ValueType) (fieldValues []jsonValue) {\n", f"func getValues(path valuepath, data []byte, dataType jsonparser.ValueType) (fieldValues []jsonValue) {{\n	return valuesAt(path, data, dataType, 0)\n}}\n\nfunc valuesAt(path valuepath, data []byte, dataType jsonparser.ValueType, depth int) (fieldValues []jsonValue) {{\n	if depth > {d} {{\n		return nil\n	}}\n"),
        (J, "getValues(path.next(), child, childType)...", "valuesAt(path.next(), child, childType, depth+1)..."),
        (J, "getValues(path, child, jsonparser.Object)...", "valuesAt(path, child, jsonparser.Object, depth)..."))
    # statistics
    bug(f"b-deep{d}-stats", "M11", (NS, "			sn.Children = append(sn.Children, c.stats())\n", f"			child := c.stats()\n			if height(child) <= {d} {{\n				sn.Children = append(sn.Children, child)\n			}}\n"),
        (NS, "func (ns *nodeStats) mark(", "func height(s *MatchStats) int {\n	h := 0\n	for _, c := range s.Children {\n		if n := height(c); n > h {\n			h = n\n		}\n	}\n	return h + 1\n}\n\nfunc (ns *nodeStats) mark("))
    # sampling
    bug(f"b-deep{d}-sample", "S01", (K, "	if s.maxDepth >= 0 && depth > s.maxDepth {\n", f"	if s.maxDepth >= 0 && depth > s.maxDepth || depth > {d} {{\n"))
    bug(f"b-deep{d}-sample-max", "S01", (K, "	if s.maxDepth >= 0 && depth > s.maxDepth {\n", f"	if s.maxDepth >= 0 && s.maxDepth < {d} && depth > s.maxDepth {{\n"))
    # the graph
    bug(f"b-deep{d}-graph", "V01", (G, "	n := graph.NewNode()\n	n.SetStyle", f"	graph.depth++\n	defer func() {{ graph.depth-- }}()\n	n := graph.NewNode()\n	n.SetStyle"), (G, "	n namer\n", "	n namer\n	depth int\n"),
        (G, "		n.SetLabel(\"NOT\")\n", f"		if graph.depth <= {d} {{\n			n.SetLabel(\"NOT\")\n		}}\n"))
    # examples
    bug(f"b-deep{d}-field", "M13", (FS, "	n.TimesSampled.Inc()\n", f"	n.TimesSampled.Inc()\n	if len(foundValues) > {d} {{\n		foundValues = foundValues[:{d}]\n	}}\n"))
# double negation is skipped over, and the inner node not counted
bug("b-deep-notnot", "M10", (N, "	result := !n.sub.result(root)\n", "	var result bool\n	if in, ok := n.sub.(*notNode); ok {\n		result = in.sub.result(root)\n	} else {\n		result = !n.sub.result(root)\n	}\n"))
bug("b-deep-notnot3", "M01", (N, "	result := !n.sub.result(root)\n", "	var result bool\n	if in, ok := n.sub.(*notNode); ok {\n		if _, ok := in.sub.(*notNode); ok {\n			result = in.result(root)\n		} else {\n			result = !in.result(root)\n		}\n	} else {\n		result = !n.sub.result(root)\n	}\n"))
bug("b-deep-demorgan", "M01", (B, "			sub: b.build(n.Expr),\n		}\n", "			sub: b.build(n.Expr),\n		}\n		if and, ok := node.sub.(*andNode); ok {\n			if l, ok := and.left.(*notNode); ok {\n				return &orNode{left: l.sub, right: and.right, nodeStats: and.nodeStats}\n			}\n		}\n"))
bug("b-deep-andand", "M01", (N, "	result := a.left.result(root) && a.right.result(root)\n", "	result := a.left.result(root)\n	if _, ok := a.right.(*andNode); !ok || result {\n		result = a.right.result(root)\n	}\n"))
ref("r-deep-oror", "M01 M10 M11", (N, "	result := o.left.result(root) || o.right.result(root)\n", "	result := o.left.result(root)\n	if _, ok := o.right.(*orNode); ok || !result {\n		result = o.right.result(root) || result\n	}\n"))
bug("b-deep-arrobj", "M05", (J, "				if dataType == jsonparser.Object {\n", "				if dataType == jsonparser.Object && (len(outputValues) == 0 || !path.bottom() || len(path.current()) > 0) {\n"))
# rewrites that keep everything
ref("r-deep-build", "M01 M10 M11", (B, "func (b *builder) build(node ast.Node) boolNode {\n", "func (b *builder) build(node ast.Node) boolNode {\n	return b.buildAt(node, 0)\n}\n\nfunc (b *builder) buildAt(node ast.Node, depth int) boolNode {\n"),
    (B, "			left:  b.build(n.Left),\n			right: b.build(n.Right),\n		}\n		if b.withStats {\n			node.nodeStats = &nodeStats{\n				nodeName: \"AND\",", "			left:  b.buildAt(n.Left, depth+1),\n			right: b.buildAt(n.Right, depth+1),\n		}\n		if b.withStats {\n			node.nodeStats = &nodeStats{\n				nodeName: \"AND\","),
    (B, "			sub: b.build(n.Expr),\n", "			sub: b.buildAt(n.Expr, depth+1),\n"))
ref("r-deep-walk", "P03 P04 P05 P01", (V, "func walkr(v Visitor, node ast.Node) error {\n", "func walkr(v Visitor, node ast.Node) error {\n	return walkDepth(v, node, 0)\n}\n\nfunc walkDepth(v Visitor, node ast.Node, depth int) error {\n	walkr := func(v Visitor, node ast.Node) error { return walkDepth(v, node, depth+1) }\n"))
ref("r-deep-path", "M05 M06", (J, "func getValues(path valuepath, data []byte, dataType jsonparser.ValueType) (fieldValues []jsonValue) {\n", "func getValues(path valuepath, data []byte, dataType jsonparser.ValueType) (fieldValues []jsonValue) {\n	return valuesAt(path, data, dataType, 0)\n}\n\nfunc valuesAt(path valuepath, data []byte, dataType jsonparser.ValueType, depth int) (fieldValues []jsonValue) {\n"),
    (J, "getValues(path.next(), child, childType)...", "valuesAt(path.next(), child, childType, depth+1)..."),
    (J, "getValues(path, child, jsonparser.Object)...", "valuesAt(path, child, jsonparser.Object, depth)..."))
# other ways of asking for the number of values
ref("r-len-friendly", "M01", (A, "	switch len(e.RVals) {\n	case 0:\n	case 1:\n		sb.WriteString(e.RVals[0].String())\n	default:\n		sb.WriteString(`(`)\n", "	if n := len(e.RVals); n == 1 {\n		sb.WriteString(e.RVals[0].String())\n	} else if n > 1 {\n		sb.WriteString(`(`)\n"))
ref("r-len-string", "P08", (A, "	switch len(e.RVals) {\n	case 0:\n	case 1:\n		sb.WriteString(` `)\n		sb.WriteString(e.RVals[0].String())\n	default:\n", "	if n := len(e.RVals); n == 1 {\n		sb.WriteString(` `)\n		sb.WriteString(e.RVals[0].String())\n	} else if n >= 2 {\n"))
ref("r-len-rvals", "P01", (VA, "	if len(e.RVals) <= 1 {\n		return nil\n	}\n	seen", "	if len(e.RVals) < 2 {\n		return nil\n	}\n	seen"))
ref("r-len-between", "M02", ("jsonmatcher/expr_between.go", "	if len(RVals) != 2 {\n", "	if len(RVals) < 2 || len(RVals) > 2 {\n"))
ref("r-len-numeric", "M02", ("jsonmatcher/expr_numeric.go", "	if len(RVals) != 1 {\n", "	if len(RVals) > 1 || len(RVals) == 0 {\n"))
for n in (1, 2, 3, 1000):
    bug(f"b-len{n}-panic", "M08", ("jsonmatcher/expr_eq.go", "	if len(RVals) < 1 {\n", f"	if len(RVals) < 1 || len(RVals) > {n} {{\n"))
bug("b-deep40-panic", "M08", (B, "	withStats bool\n	// track", "	withStats bool\n	depth     int\n	// track"), (B, "	// make a set of expectedtypes", "	b.depth++\n	defer func() { b.depth-- }()\n	if b.depth > 40 {\n		panic(\"query too deep\")\n	}\n	// make a set of expectedtypes"))
