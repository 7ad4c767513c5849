
S = "jsonmatcher/str_matchers.go"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

bug("b-str-last-quote", "M12", (S, "	// write whatever remains in the accumulator\n	buf.WriteString(regexp.QuoteMeta(accum.String()))", "	// write whatever remains in the accumulator\n	buf.WriteString(accum.String())"))
bug("b-str-mid-quote", "M12", (S, "			buf.WriteString(regexp.QuoteMeta(accum.String()))\n			switch", "			buf.WriteString(accum.String())\n			switch"))
bug("b-str-question", "M12", (S, "buf.WriteString(`.`)", "buf.WriteString(`.?`)"))
bug("b-str-star-plus", "M12", (S, "`.*?`", "`.+?`"))
bug("b-str-star-word", "M12", (S, "`.*?`", "`\\w*`"))
bug("b-str-esc-last", "M12", (S, "if i < len(wcRunes)-1 {", "if i < len(wcRunes)-2 {"))
bug("b-str-esc-star", "M12", (S, "				case '?', '*':\n					accum", "				case '*':\n					accum"))
bug("b-str-esc-bs", "M12", (S, "				case '?', '*':\n					accum", "				case '?', '*', '\\\\':\n					accum"))
bug("b-str-no-reset", "M12", (S, "			accum.Reset()\n", "			if accum.Len() > 1 {\n				accum.Reset()\n			}\n"))
bug("b-str-case", "M12", (S, "	buf.WriteString(`(?i)`)\n	asciiOnly := isASCII(wcString)\n", "	asciiOnly := isASCII(wcString)\n	if asciiOnly {\n		buf.WriteString(`(?i)`)\n	}\n"))
bug("b-str-singleline", "M12", (S, "`(?i)`", "`(?is)`"))
bug("b-str-bound-uni", "M12", (S, "	if asciiOnly && boundaryAfter.MatchString(wcString) {", "	if boundaryAfter.MatchString(wcString) {"))
bug("b-str-bound-last", "M12", (S, "	if asciiOnly && boundaryAfter.MatchString(wcString) {", "	if asciiOnly {"))
bug("b-str-bound-pat", "M12", (S, "`^[\\w?*]`", "`[\\w?*]`"))
bug("b-str-no-bound", "M12", (S, "	if asciiOnly && boundaryAfter.MatchString(wcString) {", "	if asciiOnly && len(wcString) > 1 && boundaryAfter.MatchString(wcString) {"))
bug("b-str-wild-uni", "M12", (S, "!isASCII(str) && !hasWildcard(str)", "!isASCII(str)"))
bug("b-str-wild-q", "M12", (S, 'strings.IndexAny(s, "?*")', 'strings.IndexAny(s, "*")'))
bug("b-str-wild-0", "M12", (S, '"?*") >= 0', '"?*") > 0'))
bug("b-str-exact", "M12", (S, "search.New(language.Und, search.Loose)", "search.New(language.Und)"))
bug("b-str-ascii-8", "M12", (S, "i < len(s); i++ {\n		if s[i] >= utf8", "i < len(s) && i < 64; i++ {\n		if s[i] >= utf8"))
ref("r-str-ascii-first", "M12", (S, "	for i := 0; i < len(s); i++ {\n		if s[i]", "	for i := 1; i < len(s); i++ {\n		if s[i]"))
bug("b-str-uni-start", "M12", (S, "if start >= 0 {", "if start > 0 {"))
bug("b-str-long", "M12", (S, "	wcRunes := []rune(wcString)\n", "	wcRunes := []rune(wcString)\n	if len(wcRunes) > 256 {\n		wcRunes = wcRunes[:256]\n	}\n"))
bug("b-str-trim", "M12", (S, "	wcRunes := []rune(wcString)\n", "	wcRunes := []rune(strings.TrimSpace(wcString))\n"))
bug("b-str-bytes", "M12", (S, "	wcRunes := []rune(wcString)\n", "	wcRunes := []byte(wcString)\n"), (S, "accum.WriteRune(wcRunes[i+1])", "accum.WriteByte(wcRunes[i+1])"), (S, "		accum.WriteRune(wcRunes[i])\n	}\n", "		accum.WriteRune(rune(wcRunes[i]))\n	}\n"))
bug("b-str-lower", "M12", (S, "	wcRunes := []rune(wcString)\n", "	wcRunes := []rune(strings.ToLower(wcString))\n"))
bug("b-str-dup-star", "M12", (S, "			case '*':\n				buf", "			case '*':\n				if i > 0 && wcRunes[i-1] == '*' {\n					break\n				}\n				buf"))
bug("b-str-dot", "M12", (S, "		case '?', '*':\n			// escape", "		case '.':\n			accum.WriteRune('.')\n			i++\n			continue\n		case '?', '*':\n			// escape"))

ref("r-str-builder", "M12 M03 M08", (S, "	var buf bytes.Buffer\n", "	var buf strings.Builder\n"), (S, "	var accum bytes.Buffer\n", "	var accum strings.Builder\n"), (S, '	"bytes"\n', ""))
ref("r-str-names", "M12 M03 M08", (S, "func isASCII(", "func plainText("), (S, "!isASCII(str)", "!plainText(str)"), (S, "asciiOnly := isASCII(", "asciiOnly := plainText("), ("jsonmatcher/query_messages.go", "isASCII(", "plainText("))
ref("r-str-helper", "M12 M03 M08", (S, "	if !isASCII(str) && !hasWildcard(str) {", "	if needsCollation(str) {"), (S, None, "\nfunc needsCollation(str string) bool {\n	return !isASCII(str) && !hasWildcard(str)\n}\n"))
ref("r-str-contains", "M12 M03 M08", (S, 'strings.IndexAny(s, "?*") >= 0', 'strings.ContainsAny(s, "?*")'))
ref("r-str-contains2", "M12 M03 M08", (S, 'strings.IndexAny(s, "?*") >= 0', "strings.ContainsRune(s, '?') || strings.ContainsRune(s, '*')"))
ref("r-str-loop-range", "M12 M03 M08", (S, "	for i := 0; i < len(s); i++ {\n		if s[i] >= utf8.RuneSelf {", "	for _, r := range s {\n		if r >= utf8.RuneSelf {"))
ref("r-str-ascii-neg", "M12 M03 M08", (S, "	for i := 0; i < len(s); i++ {\n		if s[i] >= utf8.RuneSelf {", "	for i := len(s) - 1; i >= 0; i-- {\n		if s[i] > utf8.RuneSelf-1 {"))
ref("r-str-flush", "M12 M03 M08", (S, "	for i := 0; i < len(wcRunes); i++ {\n", "	flush := func() {\n		buf.WriteString(regexp.QuoteMeta(accum.String()))\n		accum.Reset()\n	}\n	for i := 0; i < len(wcRunes); i++ {\n"), (S, "			buf.WriteString(regexp.QuoteMeta(accum.String()))\n			switch", "			flush()\n			switch"), (S, "			accum.Reset()\n			continue", "			continue"), (S, "	buf.WriteString(regexp.QuoteMeta(accum.String()))\n	if asciiOnly", "	flush()\n	if asciiOnly"))
ref("r-str-string-accum", "M12 M03 M08", (S, "	var accum bytes.Buffer\n", "	accum := \"\"\n"), (S, "accum.WriteRune(wcRunes[i+1])", "accum += string(wcRunes[i+1])"), (S, "		accum.WriteRune(wcRunes[i])\n	}", "		accum += string(wcRunes[i])\n	}"), (S, "			buf.WriteString(regexp.QuoteMeta(accum.String()))\n			switch", "			buf.WriteString(regexp.QuoteMeta(accum))\n			switch"), (S, "	buf.WriteString(regexp.QuoteMeta(accum.String()))\n	if asciiOnly", "	buf.WriteString(regexp.QuoteMeta(accum))\n	if asciiOnly"), (S, "			accum.Reset()\n", "			accum = \"\"\n"))
ref("r-str-direct", "M12 M03 M08", (S, """	var accum bytes.Buffer
	for i := 0; i < len(wcRunes); i++ {
		switch wcRunes[i] {
		case '\\\\':
			if i < len(wcRunes)-1 {
				switch wcRunes[i+1] {
				case '?', '*':
					accum.WriteRune(wcRunes[i+1])
					i += 1
					continue
				}
			}
		case '?', '*':
			// escape everything until this point
			buf.WriteString(regexp.QuoteMeta(accum.String()))
			switch wcRunes[i] {
			case '?':
				buf.WriteString(`.`)
			case '*':
				buf.WriteString(`.*?`)
			}
			accum.Reset()
			continue
		}
		accum.WriteRune(wcRunes[i])
	}
	// write whatever remains in the accumulator
	buf.WriteString(regexp.QuoteMeta(accum.String()))
""", """	for i := 0; i < len(wcRunes); i++ {
		r := wcRunes[i]
		switch {
		case r == '\\\\' && i+1 < len(wcRunes) && (wcRunes[i+1] == '?' || wcRunes[i+1] == '*'):
			i++
			buf.WriteString(regexp.QuoteMeta(string(wcRunes[i])))
		case r == '?':
			buf.WriteByte('.')
		case r == '*':
			buf.WriteString(`.*?`)
		default:
			buf.WriteString(regexp.QuoteMeta(string(r)))
		}
	}
"""))
ref("r-str-escflag", "M12 M03 M08", (S, """	for i := 0; i < len(wcRunes); i++ {
		switch wcRunes[i] {
		case '\\\\':
			if i < len(wcRunes)-1 {
				switch wcRunes[i+1] {
				case '?', '*':
					accum.WriteRune(wcRunes[i+1])
					i += 1
					continue
				}
			}
		case '?', '*':
			// escape everything until this point
			buf.WriteString(regexp.QuoteMeta(accum.String()))
			switch wcRunes[i] {
			case '?':
				buf.WriteString(`.`)
			case '*':
				buf.WriteString(`.*?`)
			}
			accum.Reset()
			continue
		}
		accum.WriteRune(wcRunes[i])
	}
""", """	for len(wcRunes) > 0 {
		r := wcRunes[0]
		wcRunes = wcRunes[1:]
		if r == '\\\\' && len(wcRunes) > 0 && isWildcard(wcRunes[0]) {
			accum.WriteRune(wcRunes[0])
			wcRunes = wcRunes[1:]
			continue
		}
		if !isWildcard(r) {
			accum.WriteRune(r)
			continue
		}
		buf.WriteString(regexp.QuoteMeta(accum.String()))
		accum.Reset()
		if r == '?' {
			buf.WriteString(`.`)
		} else {
			buf.WriteString(`.*?`)
		}
	}
"""), (S, None, "\nfunc isWildcard(r rune) bool { return r == '?' || r == '*' }\n"))
ref("r-str-return", "M12 M03 M08", (S, "		start, _ := u.pat.IndexString(str)\n		if start >= 0 {", "		if start, _ := u.pat.IndexString(str); start != -1 {"))
ref("r-str-order", "M12 M03 M08", (S, "	if !isASCII(str) && !hasWildcard(str) {", "	if !hasWildcard(str) && !isASCII(str) {"))
ref("r-str-pat", "M12 M03 M08", (S, "`^[\\w?*]`", "`^[0-9A-Za-z_?*]`"))
ref("r-str-collapse", "M12 M03 M08", (S, "		case '?', '*':\n			// escape", "		case '?', '*':\n			if wcRunes[i] == '*' && i+1 < len(wcRunes) && wcRunes[i+1] == '*' {\n				continue\n			}\n			// escape"))
