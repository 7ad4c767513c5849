# what goes in is changed on its way, before the code that was looked at closely
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

JM = "jsonmatcher/jsonmatcher.go"
J = "jsonmatcher/json_values.go"
N = "jsonmatcher/nodes.go"
K = "sampler/sampler.go"
F = "parser/fmtmsg/formatter.go"
G = "aqlgraph/graph.go"
W = "wasm/aqlparse/main.go"
CT = "cmd/aqltest/main.go"
CG = "cmd/aqlgraph/main.go"
bytesimp = (JM, "import (\n", "import (\n	\"bytes\"\n")
for p in ("M01", "M03", "M04", "M05", "M12", "M02", "M06"):
    bug(f"b-end-doclower-{p}", p, bytesimp, (JM, "	return m.root.result(data), nil\n", "	return m.root.result(bytes.ToLower(data)), nil\n"))
    bug(f"b-end-docutf8-{p}", p, bytesimp, (JM, "	return m.root.result(data), nil\n", "	return m.root.result(bytes.ReplaceAll(data, []byte(`\\/`), []byte(`/`))), nil\n"))
    bug(f"b-end-doccut-{p}", p, (JM, "	return m.root.result(data), nil\n", "	if len(data) > 1<<20 {\n		return m.root.result(data[:1<<20]), nil\n	}\n	return m.root.result(data), nil\n"))
bug("b-end-valid", "M07", bytesimp, (JM, "	if !json.Valid(data) {\n", "	if !json.Valid(bytes.TrimRight(data, \"\\x00\")) {\n"))
bug("b-end-valid-bom", "M07", bytesimp, (JM, "	if !json.Valid(data) {\n", "	if !json.Valid(bytes.TrimPrefix(data, []byte(\"\\xef\\xbb\\xbf\"))) {\n"))
for p in ("M05", "M06", "M03"):
    bug(f"b-end-field-{p}", p, (J, "jsonparser.Get(root)\n", "jsonparser.Get(root[:len(root):len(root)], path[:0]...)\n	if len(path) > 0 && path[0] == \"$\" {\n		path = path[1:]\n	}\n"))
    bug(f"b-end-path-{p}", p, (N, "	field := getField(e.path, root)\n", "	path := e.path\n	if len(path) > 1 && path[0] == path[1] {\n		path = path[1:]\n	}\n	field := getField(path, root)\n"))
for p in ("S01", "S02"):
    bug(f"b-end-sample-{p}", p, (K, "	err := s.sample(sample, path,", "	err := s.sample(bytes.ToLower(sample), path,"))
bug("b-end-samplecut", "S01", (K, "	if len(sample) == 0 {\n", "	if len(sample) > 1<<20 {\n		sample = append(sample[:1<<20:1<<20], sample[len(sample)-1])\n	}\n	if len(sample) == 0 {\n"))
bug("b-end-sampletrim", "S01", (K, "	if len(sample) == 0 {\n", "	sample = bytes.Trim(sample, \"[]\")\n	if len(sample) == 0 {\n"))
for p in ("F01", "F02", "F03"):
    bug(f"b-end-fmt-{p}", p, (F, "		raw:       query,\n		query:     []rune(query),\n", "		raw:       query,\n		query:     []rune(strings.TrimSpace(query)),\n"))
    bug(f"b-end-fmt2-{p}", p, (F, "	return &Printer{\n", "	query = strings.ReplaceAll(query, \"\\t\", \"    \")\n	return &Printer{\n"))
bug("b-end-graph", "V01", (G, "parser.ParseQuery(query)", "parser.ParseQuery(strings.ToLower(query))"))
bug("b-end-graph2", "V01", (G, "parser.ParseQuery(query)", "parser.ParseQuery(strings.ReplaceAll(query, \"!!\", \"\"))"))
bug("b-end-page", "W02", (W, "parser.ParseQuery(query,", "parser.ParseQuery(strings.TrimSpace(query),"))
bug("b-end-cmd", "C01", (CT, "	result, err := m.Match(input)\n", "	result, err := m.Match([]byte(strings.TrimRight(string(input), \"\\x00\")))\n"))
bug("b-end-cmdquery", "C01", (CT, "	m, err := jsonmatcher.NewMatcher(query)\n", "	m, err := jsonmatcher.NewMatcher(strings.ToLower(query))\n"))
