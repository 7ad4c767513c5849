S = "parser/fmtmsg/formatter.go"
T = "parser/fmtmsg/truncate.go"
F = "parser/fmtmsg/functions.go"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

ALL = "F01 F02 F03"

# bounds and parts
bug("b-fmt-hl-end", "F01", (S, "	return string(m.query[m.pos.Offset:m.hlEnd()])", "	return string(m.query[m.pos.Offset : m.pos.Offset+m.pos.Len])"))
bug("b-fmt-post-end", "F01", (S, "m.query[m.hlEnd():m.ro]", "m.query[m.pos.Offset+m.pos.Len:m.ro]"))
bug("b-fmt-post-lo", "F01", (S, "m.query[m.hlEnd():m.ro]", "m.query[m.hlEnd():]"))
bug("b-fmt-pre-zero", "F01", (S, "m.query[m.lo:m.pos.Offset]", "m.query[:m.pos.Offset]"))
bug("b-fmt-ro-clamp", "F01", (T, "min(max(ro, pd.pos.Offset), len(pd.query))", "max(ro, pd.pos.Offset)"))
bug("b-fmt-lo-clamp", "F01", (T, "	pd.lo = max(0, min(lo, pd.pos.Offset))", "	pd.lo = max(0, lo)"))
bug("b-fmt-lo-neg", "F01", (T, "	pd.lo = max(0, min(lo, pd.pos.Offset))", "	pd.lo = min(lo, pd.pos.Offset)"), (T, "		if leftOffset < 0 {\n			leftOffset = 0\n			rightOffset = min(windowSize, strLen)", "		if leftOffset < -1 {\n			leftOffset = 0\n			rightOffset = min(windowSize, strLen)"))
bug("b-fmt-dots-pre", "F01", (S, "	if m.lo > 0 {\n		sb.WriteString(\"...\")\n	}\n	sb.WriteString(string(m.query[m.lo:m.pos.Offset]))", "	if m.lo > 1 {\n		sb.WriteString(\"...\")\n	}\n	sb.WriteString(string(m.query[m.lo:m.pos.Offset]))"))
bug("b-fmt-dots-end", "F01", (S, "	sb.WriteString(string(m.query[m.lo:m.ro]))\n	if m.ro < (len(m.query)) {", "	sb.WriteString(string(m.query[m.lo:m.ro]))\n	if m.ro < (len(m.query)) && m.lo == 0 {"))
bug("b-fmt-query-off", "F01", (S, "	sb.WriteString(string(m.query[m.lo:m.ro]))", "	sb.WriteString(string(m.query[m.lo : m.ro-1]))"))
bug("b-fmt-nohl-post", "F01", (S, "func (m *printData) QueryPost() string {\n	if !m.HasHL {\n		return \"\"\n	}", "func (m *printData) QueryPost() string {\n	if !m.HasHL {\n		return m.Query()\n	}"))
bug("b-fmt-trunc-nopos", "F01", (T, "maxLen <= 0 || pd.pos == ast.NoPosition() || ", "maxLen <= 0 || pd.pos == (ast.Pos{}) || "))
bug("b-fmt-off-clamp", "F01", (S, "p.raw[:max(0, min(pos.Offset, len(p.raw)))]", "p.raw[:max(0, pos.Offset)]"))
bug("b-fmt-tmpl-name", "F01", (S, "{{repeat \"^\" .HLLen}}", "{{repeat \"^\" .HLLength}}"))
bug("b-fmt-pad", "F01", (F, "strings.Repeat(\" \", n)", "strings.Repeat(\" \", n-1)"))
# characters
bug("b-fmt-bytes", "F02", (S, "	pos.Offset = utf8.RuneCountInString(p.raw[:max(0, min(pos.Offset, len(p.raw)))])", "	pos.Offset = max(0, min(pos.Offset, len(p.query)))\n	_ = utf8.RuneError"))
bug("b-fmt-count-rune", "F02", (S, "utf8.RuneCountInString(p.raw[:max(0, min(pos.Offset, len(p.raw)))])", "utf8.RuneCountInString(p.raw[:max(0, min(pos.Offset, len(p.query)))])"))
bug("b-fmt-query-bytes", "F02", (S, "		query:     []rune(query),", "		query:     runes(query),"), (S, "// Printer prints messages", "func runes(s string) (out []rune) {\n	for i := range []byte(s) {\n		out = append(out, rune(s[i]))\n	}\n	return out\n}\n\n// Printer prints messages"))
bug("b-fmt-offset-dots", "F02", (S, "		offset += 3\n", "		offset += 4\n"))
bug("b-fmt-offset-nodots", "F02", (S, "	if m.lo > 0 {\n		offset += 3\n	}", "	if m.lo > 3 {\n		offset += 3\n	}"))
bug("b-fmt-offset-lo", "F02", (S, "	offset := m.pos.Offset - m.lo\n", "	offset := m.pos.Offset\n	if m.ro < len(m.query) {\n		offset -= m.lo\n	}\n"))
bug("b-fmt-offset-col", "F02", (S, "	offset := m.pos.Offset - m.lo\n", "	offset := m.pos.Col - 1 - m.lo\n"))
bug("b-fmt-hllen", "F02", (S, "	return m.pos.Len\n", "	return m.pos.Len + 1\n"))
bug("b-fmt-marker-indent", "F02", (S, "    {{.Query}}\n    {{pad", "  {{.Query}}\n    {{pad"))
bug("b-fmt-hl-len1", "F02", (S, "min(m.pos.Offset+m.pos.Len, m.ro)", "min(m.pos.Offset+max(1, m.pos.Len), m.ro)"))
# types and HTML
bug("b-fmt-warn-err", "F03", (S, "			pData.msgType = msgWarning\n", "			if p.formatter.maxwidth > 0 {\n				pData.msgType = msgError\n			} else {\n				pData.msgType = msgWarning\n			}\n"))
bug("b-fmt-perr", "F03", (S, "	case *parser.ParseError:\n		pData.msgType = msgError\n", ""))
bug("b-fmt-hint", "F03", (S, "			pData.msgType = msgInfo\n", "			pData.msgType = msgWarning\n"))
bug("b-fmt-html-not", "F03", (S, "	if html {\n", "	if html && maxWidth == 0 {\n"))
bug("b-fmt-html-always", "F03", (S, "	if html {\n", "	if html || strings.HasPrefix(tmpl, \"<\") {\n"))
bug("b-fmt-html-type", "F03", (S, "func (m *printData) QueryHL() string {\n	if !m.HasHL {\n		return \"\"\n	}\n	return string(", "func (m *printData) QueryHL() template.HTML {\n	if !m.HasHL {\n		return \"\"\n	}\n	return template.HTML("), (S, "m.query[m.pos.Offset:m.hlEnd()])", "string(m.query[m.pos.Offset:m.hlEnd()]))"))
bug("b-fmt-html-msg", "F03", (S, "	Message string\n	HasHL", "	Message template.HTML\n	HasHL"), (S, "		Message: m.Message(),", "		Message: template.HTML(m.Message()),"))
bug("b-fmt-html-func", "F03", (F, "func pad(n int) string {\n	return strings.Repeat(\" \", n)", "func pad(n int) template.HTML {\n	return template.HTML(strings.Repeat(\"&nbsp;\", n))"), (F, "import \"strings\"", "import (\n	\"html/template\"\n	\"strings\"\n)"))
bug("b-fmt-trim-msg", "F03", (S, "		Message: m.Message(),", "		Message: strings.TrimSpace(m.Message()),"))
bug("b-fmt-escape-twice", "F03", (S, "		Message: m.Message(),", "		Message: template.HTMLEscapeString(m.Message()),"))
bug("b-fmt-extra", "F03", (S, "	p.Fprint(&buf, message)\n", "	p.Fprint(&buf, message)\n	if message.Pos() == ast.NoPosition() {\n		buf.WriteString(message.Message())\n	}\n"))
bug("b-fmt-hashl", "F03", (S, "m.Pos() != ast.NoPosition()", "m.Pos().Offset > 0"))
bug("b-fmt-label", "F03", (S, "{{- toupper .Type}}: {{.Message}}", "{{- if .HasHL}}{{toupper .Type}}: {{end}}{{.Message}}"))

# refactorings
ref("r-fmt-bytes-builder", ALL, (S, "	var buf bytes.Buffer\n", "	var buf strings.Builder\n"), (S, '	"bytes"\n', ""))
ref("r-fmt-lenrunes", ALL, (S, "utf8.RuneCountInString(p.raw[:max(0, min(pos.Offset, len(p.raw)))])", "len([]rune(p.raw[:max(0, min(pos.Offset, len(p.raw)))]))"), (S, '	"unicode/utf8"\n', ""))
ref("r-fmt-clamp", ALL, (S, "p.raw[:max(0, min(pos.Offset, len(p.raw)))]", "p.raw[:clamp(pos.Offset, 0, len(p.raw))]"), (T, None, "\nfunc clamp(n, lo, hi int) int {\n	switch {\n	case n < lo:\n		return lo\n	case n > hi:\n		return hi\n	}\n	return n\n}\n"))
ref("r-fmt-dots", ALL, (S, "	if m.lo > 0 {\n		sb.WriteString(\"...\")\n	}\n	sb.WriteString(string(m.query[m.lo:m.pos.Offset]))\n	return sb.String()", "	sb.WriteString(m.leading())\n	sb.WriteString(string(m.query[m.lo:m.pos.Offset]))\n	return sb.String()"), (S, None, "\nfunc (m *printData) leading() string {\n	if m.lo > 0 {\n		return \"...\"\n	}\n	return \"\"\n}\n"))
ref("r-fmt-pre-concat", ALL, (S, "	var sb strings.Builder\n	if m.lo > 0 {\n		sb.WriteString(\"...\")\n	}\n	sb.WriteString(string(m.query[m.lo:m.pos.Offset]))\n	return sb.String()", "	pre := string(m.query[m.lo:m.pos.Offset])\n	if m.lo == 0 {\n		return pre\n	}\n	return \"...\" + pre"))
ref("r-fmt-ifs", ALL, (S, "	switch v := m.(type) {\n	case *parser.ParseError:\n		pData.msgType = msgError\n	case *parser.ParserMessage:\n		switch v.Type {\n		case parser.MsgError:\n			pData.msgType = msgError\n		case parser.MsgWarning:\n			pData.msgType = msgWarning\n		case parser.MsgHint:\n			pData.msgType = msgInfo\n		}\n	}\n", "	pData.msgType = typeOf(m)\n"), (S, "type msgType string\n", "func typeOf(m Message) msgType {\n	if _, ok := m.(*parser.ParseError); ok {\n		return msgError\n	}\n	pm, ok := m.(*parser.ParserMessage)\n	if !ok {\n		return msgUnknown\n	}\n	if t, ok := msgTypes[pm.Type]; ok {\n		return t\n	}\n	return msgUnknown\n}\n\nvar msgTypes = map[parser.MessageType]msgType{\n	parser.MsgError:   msgError,\n	parser.MsgWarning: msgWarning,\n	parser.MsgHint:    msgInfo,\n}\n\ntype msgType string\n"))
ref("r-fmt-newhtml", ALL, (S, "	if html {\n		t, tmplErr = template.New(\"message\").Funcs(funcMap).Parse(tmpl)\n	} else {\n		t, tmplErr = ttemplate.New(\"message\").Funcs(funcMap).Parse(tmpl)\n	}\n", "	if !html {\n		t, tmplErr = ttemplate.New(\"message\").Funcs(ttemplate.FuncMap(funcMap)).Parse(tmpl)\n	} else {\n		ht := template.New(\"message\")\n		ht.Funcs(funcMap)\n		t, tmplErr = ht.Parse(tmpl)\n	}\n"))
ref("r-fmt-window", ALL, (T, "	lo, ro := findCenterSubstring(pd.query, maxLen, pd.pos.Offset, pd.pos.Offset+pd.pos.Len)\n", "	start := pd.pos.Offset\n	end := start + pd.pos.Len\n	lo, ro := findCenterSubstring(pd.query, maxLen, start, end)\n"))
ref("r-fmt-trunc-method", ALL, (T, "func truncate(pd *printData, maxLen int) {", "func (pd *printData) truncate(maxLen int) {"), (S, "		truncate(pData, p.formatter.maxwidth)\n", "		pData.truncate(p.formatter.maxwidth)\n"))
ref("r-fmt-names", ALL, (S, "type printData struct {", "type view struct {"), *[(S, "func (m *printData) %s" % n, "func (m *view) %s" % n) for n in ["Type", "HLLen", "hlEnd", "HLStrOffset", "Query()", "QueryPre", "QueryHL", "QueryPost"]], (S, "func (p *Printer) getPrintData(m Message) *printData {\n	pData := &printData{", "func (p *Printer) getPrintData(m Message) *view {\n	pData := &view{"), (T, "pd *printData", "pd *view"))
ref("r-fmt-offset", ALL, (S, "	offset := m.pos.Offset - m.lo\n	if m.lo > 0 {\n		offset += 3\n	}\n	return offset", "	if m.lo == 0 {\n		return m.pos.Offset\n	}\n	return len(\"...\") + m.pos.Offset - m.lo"))
ref("r-fmt-prelen", ALL, (S, "	offset := m.pos.Offset - m.lo\n	if m.lo > 0 {\n		offset += 3\n	}\n	return offset", "	prefix := 0\n	if m.lo > 0 {\n		prefix = 3\n	}\n	return prefix + (m.pos.Offset - m.lo)"))
ref("r-fmt-hasHL", ALL, (S, "		HasHL:   m.Pos() != ast.NoPosition(),\n", ""), (S, "	switch v := m.(type) {\n	case *parser.ParseError", "	if pos := m.Pos(); !pos.IsZero() {\n		pData.HasHL = true\n	}\n	switch v := m.(type) {\n	case *parser.ParseError"))
ref("r-fmt-center", ALL, (T, "	if windowSize >= strLen {", "	if strLen <= windowSize {"), (T, "	leftSpace := startOffset\n	rightSpace := strLen - endOffset - 1\n", "	rightSpace := strLen - endOffset - 1\n	leftSpace := startOffset\n"))
ref("r-fmt-fprintf", ALL, (S, "		io.WriteString(w, fmt.Sprintf(\"**PRINT ERROR: %v\", err))", "		fmt.Fprintf(w, \"**PRINT ERROR: %v\", err)"))
