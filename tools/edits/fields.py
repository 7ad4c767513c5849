F = "jsonmatcher/field_stats.go"
M = "parser/message.go"
A = "parser/ast/ast.go"
G = "internal/grammar/parser_gen.go"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

bug("b-fs-inarray", "M13", (F, "		if inArray {\n			which++\n		}", "		if inArray && !isObject {\n			which++\n		}"))
bug("b-fs-null", "M13", (F, "		case jsonparser.Null:\n			which = null\n", ""))
bug("b-fs-count-once", "M13", (F, "	n.TimesSampled.Inc()\n	for _, foundValue := range foundValues {", "	for _, foundValue := range foundValues {\n		n.TimesSampled.Inc()"))
bug("b-fs-empty-str", "M13", (F, "					if len(sv) == 0 {\n						sv = \"empty string\"\n					}\n", ""))
bug("b-fs-window-off", "M13", (F, "if which < boolean &&", "if which < number &&"))
bug("b-fs-window-all", "M13", (F, "n.TypesEnountered[which].Examples.addExample(sv)", "n.TypesEnountered[str].Examples.addExample(sv)"))
bug("b-fs-names", "M13", (F, "	\"boolean\",\n	\"boolean (in array)\",\n	\"array\",\n", "	\"array\",\n	\"boolean (in array)\",\n	\"boolean\",\n"))
bug("b-fs-unlock-early", "M13", (F, "	el.mux.Lock()\n	defer el.mux.Unlock()\n	out := []string{}", "	el.mux.Lock()\n	out := []string{}\n	el.mux.Unlock()"))
bug("b-fs-nolock", "M13", (F, "	el.mux.Lock()\n	defer el.mux.Unlock()\n	out := []string{}", "	out := []string{}"))
bug("b-fs-get-cap", "M13", (F, "	for _, example := range el.examples {", "	for _, example := range el.examples[:fieldNumExamples-1] {"))
bug("b-fs-get-idx", "M13", (F, "	for _, example := range el.examples {", "	for _, example := range el.examples[:el.eIdx] {"))
bug("b-fs-keys-sep", "M13", (F, "					keystr, err := jsonparser.ParseString(key)", "					if len(key) > 64 {\n						return nil\n					}\n					keystr, err := jsonparser.ParseString(key)"))
bug("b-fs-seen-zero", "M13", (F, "if e.TimesSeen.Load() != 0 {", "if e.TimesSeen.Load() > 1 {"))
bug("b-fs-seen-matched", "M13", (F, "em[\"times_seen\"] = e.TimesSeen.Load()", "em[\"times_seen\"] = e.TimesMatched.Load()"))
bug("b-fs-raw", "M13", (F, "					sv, err = jsonparser.ParseString(foundValue.data)\n", "					sv, err = string(foundValue.data), nil\n"))
bug("b-fs-early-return", "M13", (F, "				n.TypesEnountered[which].Examples.addExample(sv)\n", "				n.TypesEnountered[which].Examples.addExample(sv)\n				return\n"))
ref("r-fs-get-copy", "M13", (F, "	out := []string{}\n	for _, example := range el.examples {\n		if example == \"\" {\n			break\n		}\n		out = append(out, example)\n	}\n	return out", "	out := make([]string, 0, len(el.examples))\n	for i := 0; i < len(el.examples) && el.examples[i] != \"\"; i++ {\n		out = append(out, el.examples[i])\n	}\n	return out"))
ref("r-fs-helper", "M13", (F, "	if el.eIdx == len(el.examples) {\n		el.eIdx = 0\n	}\n}", "	el.wrap()\n}\n\nfunc (el *ExampleList) wrap() {\n	if el.eIdx == len(el.examples) {\n		el.eIdx = 0\n	}\n}"))
ref("r-fs-unlock", "M13", (F, "	defer el.mux.Unlock()\n	out := []string{}", "	out := []string{}"), (F, "		out = append(out, example)\n	}\n	return out", "		out = append(out, example)\n	}\n	el.mux.Unlock()\n	return out"))
ref("r-fs-switch", "M13", (F, "		case jsonparser.Number:\n			which = number\n", ""), (F, "		case jsonparser.String:\n			which = str\n", "		case jsonparser.String:\n			which = str\n		case jsonparser.Number:\n			which = number\n"))
ref("r-fs-extract", "M13", (F, "		n.TypesEnountered[which].TimesSeen.Inc()", "		enc := &n.TypesEnountered[which]\n		enc.TimesSeen.Inc()"), (F, "n.TypesEnountered[which].Examples.addExample(sv)", "enc.Examples.addExample(sv)"))
ref("r-fs-mod", "M13", (F, "	el.eIdx++\n	if el.eIdx == len(el.examples) {\n		el.eIdx = 0\n	}\n", "	el.eIdx = (el.eIdx + 1) % len(el.examples)\n"))
ref("r-fs-join", "M13", (F, "					if numkeys > 0 {\n						sb.WriteString(\",\")\n					}\n					keystr, err", "					if numkeys != 0 {\n						sb.WriteByte(',')\n					}\n					keystr, err"))

bug("b-msg-col-line", "P10", (M, "typeStr(p.Type), p.Position.Line, p.Position.Col, p.Position.Offset, p.Msg)", "typeStr(p.Type), p.Position.Col, p.Position.Line, p.Position.Offset, p.Msg)"))
bug("b-msg-offset-zero", "P10", (M, "|| p.Position.Offset == -1 {", "|| p.Position.Offset <= 0 {"))
bug("b-msg-hint-name", "P10", (M, "		return \"HINT\"", "		return \"WARNING\""))
bug("b-msg-fmt", "P10", (M, "fmt.Sprintf(\"%s: %s\", typeStr(p.Type), p.Msg)", "fmt.Sprintf(typeStr(p.Type) + \": \" + p.Msg)"))
bug("b-msg-quoted", "P10", (M, "fmt.Sprintf(\"%s: %s\", typeStr(p.Type), p.Msg)", "fmt.Sprintf(\"%s: %.80s\", typeStr(p.Type), p.Msg)"))
bug("b-err-col", "P10", (G, "p.Position.Line, p.Position.Col, p.Position.Offset, p.Msg)", "p.Position.Line, p.Position.Len, p.Position.Offset, p.Msg)"))
bug("b-pos-start-len", "P10", (A, "		Offset: p.Offset,\n		Len:    1,\n", "		Offset: p.Offset,\n		Len:    p.Len,\n"))
bug("b-pos-start-zero", "P10", (A, "if p.Line == 0 || p.Col == 0 || p.Offset == -1 {", "if p.Line <= 1 || p.Col == 0 || p.Offset == -1 {"))
bug("b-pos-zero", "P10", (A, "	return p == noPosition", "	return p.Offset <= 0"))
bug("b-json-key", "P10", (A, "	Len int `json:\"length\"`", "	Len int `json:\"offset\"`"))
bug("b-json-skip", "P10", (M, "	Msg      string      `json:\"message\"`", "	Msg      string      `json:\"-\"`"))
ref("r-msg-concat", "P10 P04", (M, "fmt.Sprintf(\"%s: %s\", typeStr(p.Type), p.Msg)", "typeStr(p.Type) + \": \" + p.Msg"))
ref("r-msg-zero", "P10 P04", (M, "if p.Position.Line == 0 || p.Position.Col == 0 || p.Position.Offset == -1 {", "if p.Position.IsZero() {"))
ref("r-msg-map", "P10 P04", (M, "	switch t {\n	case MsgHint:\n		return \"HINT\"\n	case MsgWarning:\n		return \"WARNING\"\n	case MsgError:\n		return \"ERROR\"\n	default:\n		return \"<INVALID TYPE>\"\n	}", "	if t == MsgHint {\n		return \"HINT\"\n	}\n	if t == MsgWarning {\n		return \"WARNING\"\n	}\n	if t != MsgError {\n		return \"<INVALID TYPE>\"\n	}\n	return \"ERROR\""))
ref("r-msg-pos", "P10 P04 F01", (M, "	return fmt.Sprintf(\"%s [%d:%d(%d)]: %s\", typeStr(p.Type), p.Position.Line, p.Position.Col, p.Position.Offset, p.Msg)", "	pos := p.Pos()\n	return fmt.Sprintf(\"%s [%d:%d(%d)]: %s\", typeStr(p.Type), pos.Line, pos.Col, pos.Offset, p.Message())"))
ref("r-pos-start", "P10 P06", (A, "	return Pos{\n		Line:   p.Line,\n		Col:    p.Col,\n		Offset: p.Offset,\n		Len:    1,\n	}", "	p.Len = 1\n	return p"))
ref("r-pos-zero", "P10 P06", (A, "	return p == noPosition", "	return p == NoPosition()"))
