# limits, caps and special cases that only large or unusual inputs reach
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

A = "parser/ast/ast.go"
P = "parser/parser.go"
V = "parser/visitors.go"
VA = "parser/validators.go"
S = "jsonmatcher/str_matchers.go"
J = "jsonmatcher/json_values.go"
E = "jsonmatcher/expr_eq.go"
B = "jsonmatcher/build_matcher.go"
N = "jsonmatcher/nodes.go"
JM = "jsonmatcher/jsonmatcher.go"
NS = "jsonmatcher/node_stats.go"
NE = "jsonmatcher/expr_net.go"
Q = "jsonmatcher/query_messages.go"
FS = "jsonmatcher/field_stats.go"
RE = "jsonmatcher/expr_regexp.go"
F = "parser/fmtmsg/formatter.go"
T = "parser/fmtmsg/truncate.go"
K = "sampler/sampler.go"
G = "aqlgraph/graph.go"
MS = "parser/message.go"
W = "wasm/aqlparse/main.go"

bug("b-lim-walk", "P05", (V, "func walkr(v Visitor, node ast.Node) error {\n", "func walkr(v Visitor, node ast.Node) error {\n	return walkDepth(v, node, 0)\n}\n\nfunc walkDepth(v Visitor, node ast.Node, depth int) error {\n	if depth > 500 {\n		return nil\n	}\n	walkr := func(v Visitor, node ast.Node) error { return walkDepth(v, node, depth+1) }\n"))
bug("b-lim-smp-keys", "S01", (K, "		found[path.String()[1:]] = struct{}{}\n", "		if len(found) < 1000 {\n			found[path.String()[1:]] = struct{}{}\n		}\n"))
bug("b-lim-smp-keylen", "S01", (K, "			path.WriteString(\".\")\n", "			if len(key) > 255 {\n				return nil\n			}\n			path.WriteString(\".\")\n"))
bug("b-lim-smp-count", "S03", (K, "		s.keys[key]++\n", "		if s.keys[key] < 1<<16 {\n			s.keys[key]++\n		}\n"))
bug("b-lim-smp-empty", "S01", (K, "			if bytes.ContainsAny(key, ` .\"`) {\n", "			if len(key) == 0 {\n				path.Truncate(pl)\n			} else if bytes.ContainsAny(key, ` .\"`) {\n"))
bug("b-lim-print", "P08", (A, "		for i, rv := range e.RVals {\n			sb.WriteString(rv.String())\n			if i < len(e.RVals)-1 {\n				sb.WriteString(`, `)\n			}\n		}\n", "		for i, rv := range e.RVals {\n			if i == 100 {\n				sb.WriteString(`...`)\n				break\n			}\n			sb.WriteString(rv.String())\n			if i < len(e.RVals)-1 {\n				sb.WriteString(`, `)\n			}\n		}\n"))
bug("b-lim-eq", "M03", (E, "	for _, r := range RVals {\n", "	for i, r := range RVals {\n		if i >= 1000 {\n			break\n		}\n"))
bug("b-lim-dups", "P01", (VA, "	for i, rv := range e.RVals {\n		sv := rv.String()\n", "	for i, rv := range e.RVals {\n		if i > 64 {\n			break\n		}\n		sv := rv.String()\n"))
bug("b-lim-dups2", "P01", (VA, "		if _, found := seen[sv]; found {\n", "		if len(seen) > 128 {\n			seen = map[string]struct{}{}\n		}\n		if _, found := seen[sv]; found {\n"))
bug("b-lim-advice", "P09", (Q, "		for _, v := range n.RVals {\n			switch rv", "		if len(n.RVals) > 50 {\n			return nil\n		}\n		for _, v := range n.RVals {\n			switch rv"))
bug("b-lim-tape", "P04", (V, "	mt.messages = append(mt.messages,", "	if len(mt.messages) >= 100 {\n		return\n	}\n	mt.messages = append(mt.messages,"))
bug("b-lim-tape-first", "P04", (V, "	pmsg := newMessage(", "	if len(mt.messages) >= 100 && msgType != MsgError {\n		mt.messages = mt.messages[1:]\n	}\n	pmsg := newMessage("))
bug("b-lim-nets", "M03", (NE, "getNets.FindAllStringIndex(sv, -1)", "getNets.FindAllStringIndex(sv, 32)"))
bug("b-lim-netlen", "M03", (NE, "		// find all CIDRs", "		if len(sv) > 4096 {\n			sv = sv[:4096]\n		}\n		// find all CIDRs"))
bug("b-lim-memo", "G02", (P, "	v, err := grammar.ParseReader(", "	memo := true\n	if sr, ok := r.(*strings.Reader); ok && sr.Len() > 4096 {\n		memo = false\n	}\n	v, err := grammar.ParseReader("), (P, "grammar.Memoize(true)", "grammar.Memoize(memo)"))
bug("b-lim-doc", "M07", (JM, "	if !json.Valid(data) {\n", "	if len(data) > 64<<20 {\n		return false, errors.New(\"document too large\")\n	}\n	if !json.Valid(data) {\n"))
bug("b-lim-doc2", "M07", (JM, "	if !json.Valid(data) {\n", "	if len(data) < 1<<20 && !json.Valid(data) {\n"))
bug("b-lim-str", "M12", (S, "	asciiOnly := isASCII(wcString)\n", "	asciiOnly := isASCII(wcString) && len(wcString) < 256\n"))
bug("b-lim-ascii", "M12", (S, "	for i := 0; i < len(s); i++ {\n		if s[i] >= utf8.RuneSelf {\n", "	for i := 0; i < len(s) && i < 1024; i++ {\n		if s[i] >= utf8.RuneSelf {\n"))
bug("b-lim-text", "M12", (RE, "		if e.value.MatchString(str) {\n", "		if len(str) > 1<<16 {\n			str = str[:1<<16]\n		}\n		if e.value.MatchString(str) {\n"))
bug("b-lim-path", "M05", (J, "	switch dataType {\n	case jsonparser.Object:\n		// looking", "	if len(path) > 64 {\n		return nil\n	}\n	switch dataType {\n	case jsonparser.Object:\n		// looking"))
bug("b-lim-arr", "M05", (J, "				if dataType == jsonparser.Object {\n					outputValues", "				if dataType == jsonparser.Object && len(outputValues) < 10000 {\n					outputValues"))
bug("b-lim-offset", "M05", (J, "				if dataType == jsonparser.Object {\n					outputValues", "				if dataType == jsonparser.Object && offset < 1<<20 {\n					outputValues"))
bug("b-lim-checked", "M10", (NS, "	ns.timesChecked.Inc()\n", "	if ns.timesChecked.Load() < 1<<32 {\n		ns.timesChecked.Inc()\n	}\n"))
bug("b-lim-stats", "M11", (NS, "		for _, c := range children {\n", "		for i, c := range children {\n			if i > 0 && matched == 0 {\n				break\n			}\n"))
bug("b-lim-mark", "M13", (FS, "	for _, foundValue := range foundValues {\n", "	for i, foundValue := range foundValues {\n		if i >= 1000 {\n			break\n		}\n"))
bug("b-lim-graph", "V01", (G, "		for _, rv := range a.RVals {\n", "		for i, rv := range a.RVals {\n			if i == 20 {\n				hn.Values = append(hn.Values, NodeVal{ValStr: \"...\"})\n				break\n			}\n"))
bug("b-lim-page", "W02", (W, "		for _, m := range pmessages {\n", "		for i, m := range pmessages {\n			if i >= 50 {\n				break\n			}\n"))
bug("b-lim-page2", "W02", (W, "	if len(pmessages) > 0 {\n", "	if len(pmessages) > 50 {\n		pmessages = pmessages[:50]\n	}\n	if len(pmessages) > 0 {\n"))
bug("b-lim-hl", "F02", (F, "	return m.pos.Len\n", "	if m.pos.Len > 80 {\n		return 80\n	}\n	return m.pos.Len\n"))
bug("b-lim-visitors", "P03", (P, "		p.visitors = append(p.visitors, visitors...)\n", "		if len(p.visitors)+len(visitors) > 16 {\n			return\n		}\n		p.visitors = append(p.visitors, visitors...)\n"))
bug("b-lim-int", "P07", (A, "	iv, err := strconv.ParseInt(sv, 10, 64)\n", "	if len(sv) > 19 {\n		sv = sv[:19]\n	}\n	iv, err := strconv.ParseInt(sv, 10, 64)\n"))
bug("b-lim-float", "P07", (A, "	if err != nil || math.IsNaN(fv) {\n", "	if math.IsInf(fv, 0) {\n		err = nil\n	}\n	if err != nil || math.IsNaN(fv) {\n"))
bug("b-lim-year", "P07", (A, "	var message string\n	if err != nil {\n", "	var message string\n	if err == nil && tv.Year() < 1000 {\n		tv = tv.AddDate(2000, 0, 0)\n	}\n	if err != nil {\n"))
bug("b-lim-msgtext", "P10", (MS, "		return fmt.Sprintf(\"%s: %s\", typeStr(p.Type), p.Msg)\n", "		return fmt.Sprintf(\"%s: %.200s\", typeStr(p.Type), p.Msg)\n"))
bug("b-lim-cond", "M01", (N, "	result := o.left.result(root) || o.right.result(root)\n", "	result := o.left.result(root)\n	if !result && len(root) < 1<<24 {\n		result = o.right.result(root)\n	}\n"))
bug("b-lim-exists", "M06", ("jsonmatcher/expr_exists.go", "	return len(field.values) > 0\n", "	return len(field.values) > 0 && len(field.values) < 1<<20\n"))
bug("b-lim-null", "M06", ("jsonmatcher/expr_null.go", "	for i := range field.values {\n", "	for i := range field.values {\n		if i > 4096 {\n			break\n		}\n"))
bug("b-lim-compare", "M02", ("jsonmatcher/expr_float.go", "		fv, ok := getNumberVal(v)\n		if !ok {\n", "		fv, ok := getNumberVal(v)\n		if !ok || len(v.data) > 30 {\n"))
