# changes at the entry points, caches, and numbers worked out another way
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

P = "parser/parser.go"
V = "parser/visitors.go"
S = "jsonmatcher/str_matchers.go"
J = "jsonmatcher/json_values.go"
RE = "jsonmatcher/expr_regexp.go"
B = "jsonmatcher/build_matcher.go"
JM = "jsonmatcher/jsonmatcher.go"
F = "parser/fmtmsg/formatter.go"
T = "parser/fmtmsg/truncate.go"
K = "sampler/sampler.go"

bug("b-late-limitreader", "G01 P03", (P, "grammar.ParseReader(\"\", r,", "grammar.ParseReader(\"\", io.LimitReader(r, 1<<16),"))
bug("b-late-trim", "P06", (P, "strings.NewReader(query)", "strings.NewReader(strings.TrimSpace(query))"))
bug("b-late-validutf8", "G01 P07", (P, "strings.NewReader(query)", "strings.NewReader(strings.ToValidUTF8(query, \"\"))"))
bug("b-late-tab", "P06 P07", (P, "strings.NewReader(query)", "strings.NewReader(strings.ReplaceAll(query, \"\\t\", \"    \"))"))
bug("b-late-lower", "P07", (P, "strings.NewReader(query)", "strings.NewReader(strings.ReplaceAll(query, \" and \", \" AND \"))"))
bug("b-late-lastvisitor", "P04", (P, "	for _, v := range opts.visitors {\n", "	for i, v := range opts.visitors {\n"), (P, "		if mv, ok := v.(*MessageVisitor); ok {\n", "		if mv, ok := v.(*MessageVisitor); ok && i == len(opts.visitors)-1 {\n"))
bug("b-late-skipall-or", "P05", (V, "	case *ast.OrNode:\n		err = walkr(v, n.Left)\n		if err != nil && err != Skip {\n", "	case *ast.OrNode:\n		err = walkr(v, n.Left)\n		if err != nil && err != Skip && err != SkipAll {\n"))
bug("b-late-visitors-alias", "P03", (P, "		p.visitors = append(p.visitors, visitors...)\n", "		p.visitors = append(visitors, p.visitors...)\n"))
bug("b-late-visitors-set", "P03 P01", (P, "		p.visitors = append(p.visitors, visitors...)\n", "		p.visitors = append(p.visitors[:1], visitors...)\n"))
# a printer that remembers
bug("b-late-printer", "F03 I02 I01", (F, "	query     []rune\n}\n\n// Fprint", "	query     []rune\n	last      *printData\n}\n\n// Fprint"), (F, "	pData := &printData{\n", "	if p.last != nil && p.last.pos == p.runePos(m.Pos()) && p.last.Message == m.Message() {\n		return p.last\n	}\n	pData := &printData{\n"), (F, "	return pData\n}\n", "	p.last = pData\n	return pData\n}\n"))
bug("b-late-sprintbuf", "I01 I02", (F, "	var buf bytes.Buffer\n	p.Fprint(&buf, message)\n", "	buf := &sprintBuf\n	buf.Reset()\n	p.Fprint(buf, message)\n"), (F, "// Sprint returns", "var sprintBuf bytes.Buffer\n\n// Sprint returns"))
# caches
cache = (S, "// A string can only begin", "var searches sync.Map\n\n// A string can only begin")
imp = (S, "	\"strings\"\n", "	\"strings\"\n	\"sync\"\n")
bug("b-late-cache-trunc", "M12 I01 M03", cache, imp, (S, "	wcRunes := []rune(wcString)\n", "	key := wcString\n	if len(key) > 64 {\n		key = key[:64]\n	}\n	if r, ok := searches.Load(key); ok {\n		return r.(*regexp.Regexp)\n	}\n	wcRunes := []rune(wcString)\n"), (S, "	return regexp.MustCompile(buf.String())\n", "	r := regexp.MustCompile(buf.String())\n	searches.Store(key, r)\n	return r\n"))
bug("b-late-cache-fold", "M12 I01 M03", cache, imp, (S, "	wcRunes := []rune(wcString)\n", "	key := strings.TrimSpace(wcString)\n	if r, ok := searches.Load(key); ok {\n		return r.(*regexp.Regexp)\n	}\n	wcRunes := []rune(wcString)\n"), (S, "	return regexp.MustCompile(buf.String())\n", "	r := regexp.MustCompile(buf.String())\n	searches.Store(key, r)\n	return r\n"))
bug("b-late-longest", "M09", (RE, "	for _, ", "	e.value.Longest()\n	for _, "))
bug("b-late-lazy", "M09", ("jsonmatcher/str_matchers.go", "	pat *search.Pattern\n", "	str string\n	pat *search.Pattern\n"), (S, "		pat: search.New(language.Und, search.Loose).CompileString(str),\n", "		str: str,\n"), (S, "	for _, v := range field.scalarValues() {\n		str, ok := getStringVal(v)\n		if !ok {\n			continue\n		}\n		start,", "	if u.pat == nil {\n		u.pat = search.New(language.Und, search.Loose).CompileString(u.str)\n	}\n	for _, v := range field.scalarValues() {\n		str, ok := getStringVal(v)\n		if !ok {\n			continue\n		}\n		start,"))
bug("b-late-wild", "M12", (S, "strings.IndexAny(s, \"?*\") >= 0", "strings.IndexAny(s, \"?*\") > 0"))
bug("b-late-wild-esc", "M12", (S, "strings.IndexAny(s, \"?*\") >= 0", "strings.IndexAny(strings.ReplaceAll(s, `\\*`, ``), \"?*\") >= 0"))
# thresholds
bug("b-late-thresh-round", "S03", (K, "		if float64(count)/float64(s.totalDocs) >= pct {\n", "		if math.Round(100*float64(count)/float64(s.totalDocs)) >= math.Round(100*pct) {\n"), (K, "	\"fmt\"\n", "	\"fmt\"\n	\"math\"\n"))
bug("b-late-thresh-int", "S03", (K, "		if float64(count)/float64(s.totalDocs) >= pct {\n", "		if count >= uint(pct*float64(s.totalDocs)) {\n"))
ref("r-late-keys", "S01 S02 S03 S04 I01 I02", (K, "	out := make([]string, 0, len(s.keys))\n	for key := range s.keys {\n		out = append(out, key)\n	}\n	return out\n", "	out := make([]string, 0, len(s.keys))\n	for key := range s.keys {\n		out = append(out, key)\n	}\n	sort.Strings(out)\n	return out\n"), (K, "	\"fmt\"\n", "	\"fmt\"\n	\"sort\"\n"))
ref("r-late-thresh", "S03", (K, "	pct := float64(thresholdPercent) / 100\n", "	total := float64(s.totalDocs)\n	pct := float64(thresholdPercent) / 100\n"), (K, "		if float64(count)/float64(s.totalDocs) >= pct {\n", "		if share := float64(count) / total; share >= pct {\n"))
ref("r-late-thresh-int", "S03", (K, "	pct := float64(thresholdPercent) / 100\n", ""), (K, "		if float64(count)/float64(s.totalDocs) >= pct {\n", "		if int(count)*100 >= thresholdPercent*s.totalDocs {\n"))
ref("r-late-reader", "P03 P06 P07 G01", (P, "	return ParseQueryReader(strings.NewReader(query), options...)\n", "	return ParseQueryReader(bytes.NewBufferString(query), options...)\n"), (P, "	\"fmt\"\n	\"io\"\n	\"strings\"\n", "	\"bytes\"\n	\"fmt\"\n	\"io\"\n"))
ref("r-late-sprint", "F01 F02 F03 I01 I02", (F, "	var buf bytes.Buffer\n	p.Fprint(&buf, message)\n	return buf.String()\n", "	var sb strings.Builder\n	p.Fprint(&sb, message)\n	return sb.String()\n"), (F, "	\"bytes\"\n", ""))

PG = "internal/grammar/parser_gen.go"
bug("b-late-genlimit", "G01 P03", (PG, "	b, err := ioutil.ReadAll(r)\n", "	b, err := ioutil.ReadAll(io.LimitReader(r, 1<<16))\n"))
bug("b-late-gentrim", "P06", (PG, "	return newParser(filename, b, opts...).parse(g)\n", "	return newParser(filename, bytes.TrimSpace(b), opts...).parse(g)\n"))
bug("b-late-gentrim07", "P07", (PG, "	return newParser(filename, b, opts...).parse(g)\n", "	return newParser(filename, bytes.TrimPrefix(b, []byte(\"\\xef\\xbb\\xbf\")), opts...).parse(g)\n"))
bug("b-late-matchertrim", "P06 P03", (JM, "parser.ParseQuery(aqlQuery,", "parser.ParseQuery(strings.TrimSpace(aqlQuery),"), (JM, "import (\n", "import (\n	\"strings\"\n"))
bug("b-late-appendbuf", "M09", (RE, "	value *regexp.Regexp\n", "	value *regexp.Regexp\n	buf   [64]byte\n"), (RE, "		if e.value.MatchString(str) {\n", "		if e.value.Match(fmt.Appendf(e.buf[:0], \"%s\", str)) {\n"), (RE, "import (\n", "import (\n	\"fmt\"\n"))
bug("b-late-encoderune", "M09", (RE, "	value *regexp.Regexp\n", "	value *regexp.Regexp\n	buf   [4]byte\n"), (RE, "		if e.value.MatchString(str) {\n", "		n := 0\n		for _, r := range str {\n			n += utf8.EncodeRune(e.buf[:], r)\n		}\n		if n >= 0 && e.value.MatchString(str) {\n"), (RE, "import (\n", "import (\n	\"unicode/utf8\"\n"))
ref("r-late-readall", "P01 P03 P04 P06 P07 G01 G03 G04 G05 G06 G07", (P, "	v, err := grammar.ParseReader(\"\", r, grammar.Debug(opts.debug), grammar.Memoize(true))\n", "	data, err := io.ReadAll(r)\n	if err != nil {\n		return nil, grammar.GetParseError(err)\n	}\n	v, err := grammar.Parse(\"\", data, grammar.Debug(opts.debug), grammar.Memoize(true))\n"))
ref("r-late-direct", "P01 P03 P04 P06 P07 G01 G03 G04 G05 G06 G07", (P, "	return ParseQueryReader(strings.NewReader(query), options...)\n", "	return parseBytes([]byte(query), options...)\n"), (P, "	\"strings\"\n", ""), (P, "func ParseQueryReader(r io.Reader, options ...Option) (ast.Node, error) {\n", "func ParseQueryReader(r io.Reader, options ...Option) (ast.Node, error) {\n	data, err := io.ReadAll(r)\n	if err != nil {\n		return nil, grammar.GetParseError(err)\n	}\n	return parseBytes(data, options...)\n}\n\nfunc parseBytes(data []byte, options ...Option) (ast.Node, error) {\n"), (P, "grammar.ParseReader(\"\", r,", "grammar.Parse(\"\", data,"))
ref("r-late-bufio", "P03 P06 P07 G01", (P, "strings.NewReader(query)", "bufio.NewReader(strings.NewReader(query))"), (P, "import (\n", "import (\n	\"bufio\"\n"))
