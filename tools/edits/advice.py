Q = "jsonmatcher/query_messages.go"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

bug("b-adv-sim-str", "P09", (Q, "				if n.Op == ast.SIM {\n					tape.WarningAt(rv.Pos(), `Sim", "				if n.Op == ast.SIM && len(n.RVals) == 1 {\n					tape.WarningAt(rv.Pos(), `Sim"))
bug("b-adv-pos-first", "P09", (Q, "					tape.WarningAt(rv.Pos(), `exact", "					tape.WarningAt(n.RVals[0].Pos(), `exact"))
bug("b-adv-pos-node", "P09", (Q, "					tape.WarningAt(rv.Pos(), \"Similarity", "					tape.WarningAt(n.Pos(), \"Similarity"))
bug("b-adv-pos-none", "P09", (Q, "tape.HintAt(rv.Pos(), `trailing", "tape.Hint(`trailing"))
bug("b-adv-dayonly", "P09", (Q, "if n.Op == ast.EQ && !rv.DayOnly() {", "if n.Op == ast.EQ {"))
bug("b-adv-day-inverse", "P09", (Q, "if n.Op == ast.EQ && !rv.DayOnly() {", "if n.Op == ast.EQ && rv.DayOnly() {"))
bug("b-adv-bet", "P09", (Q, "if n.Op == ast.EQ && !rv.DayOnly() {", "if (n.Op == ast.EQ || n.Op == ast.BET) && !rv.DayOnly() {"))
bug("b-adv-lte", "P09", (Q, "if n.Op == ast.EQ && !rv.DayOnly() {", "if (n.Op == ast.EQ || n.Op == ast.LTE || n.Op == ast.GTE) && !rv.DayOnly() {"))
bug("b-adv-error", "P09", (Q, "					tape.WarningAt(rv.Pos(), `Sim", "					tape.ErrorAt(rv.Pos(), `Sim"))
bug("b-adv-hint-kind", "P09", (Q, "					tape.WarningAt(rv.Pos(), `Sim", "					tape.HintAt(rv.Pos(), `Sim"))
bug("b-adv-posix", "P09", (Q, "syntax.Parse(rv.Value().String(), syntax.Perl)", "syntax.Parse(rv.Value().String(), syntax.POSIX)"))
bug("b-adv-text", "P09", (Q, "syntax.Parse(rv.Value().String(), syntax.Perl)", "syntax.Parse(reStr, syntax.Perl)"))
bug("b-adv-suffix", "P09", (Q, "strings.HasPrefix(reStr, \".*\") || strings.HasSuffix", "strings.HasPrefix(reStr, \".*\") && strings.HasSuffix"))
bug("b-adv-ascii", "P09", (Q, "strings.HasPrefix(reStr, \"(?i)\") && !isASCII", "strings.HasPrefix(reStr, \"(?i)\") && isASCII"))
bug("b-adv-ci", "P09", (Q, "strings.HasPrefix(reStr, \"(?i)\") && !isASCII(v.String())", "!isASCII(v.String())"))
bug("b-adv-break", "P09", (Q, "consider using [:] and a short date (YYYY-MM-DD) to match the day or a numeric comparison`)\n", "consider using [:] and a short date (YYYY-MM-DD) to match the day or a numeric comparison`)\n					return nil\n"))
bug("b-adv-skip", "P09", (Q, "	switch n := node.(type) {\n	case *ast.ExprNode:", "	switch n := node.(type) {\n	case *ast.NotNode:\n		return parser.Skip\n	case *ast.ExprNode:"))
bug("b-adv-stop", "P09", (Q, "			case *ast.TimeVal:", "			case *ast.NetVal:\n				return parser.SkipAll\n			case *ast.TimeVal:"))
bug("b-adv-args", "P09", (Q, "as this is redundant.\", v.String())", "as this is redundant.\")"))
bug("b-adv-percent", "P09", (Q, "`trailing \".*\" is probably unnecessary`", "`trailing \".*\" is probably 100% unnecessary`"))
bug("b-adv-only-first", "P09", (Q, "		for _, v := range n.RVals {", "		for i, v := range n.RVals {\n			if i > 0 && n.Op == ast.EQ {\n				break\n			}"))

ref("r-adv-with", "P09 P04 M08", (Q, "tape.WarningAt(rv.Pos(), `exact", "tape.WarningWith(rv, `exact"))
ref("r-adv-const", "P09 P04 M08", (Q, "tape.HintAt(rv.Pos(), `trailing \".*\" is probably unnecessary`)", "const msg = `trailing \".*\" is probably unnecessary`\n							tape.HintAt(rv.Pos(), msg)"))
ref("r-adv-reorder", "P09 P04 M08", (Q, """			case *ast.StringVal:
				if n.Op == ast.SIM {
					tape.WarningAt(rv.Pos(), `Similarity comparison is deprecated for string values. Please use the normal comparison operator - field:"<string>"`)
				}
""", ""), (Q, """or a numeric comparison`)
				}
""", """or a numeric comparison`)
				}
			case *ast.StringVal:
				if n.Op != ast.SIM {
					continue
				}
				tape.WarningAt(rv.Pos(), `Similarity comparison is deprecated for string values. Please use the normal comparison operator - field:"<string>"`)
"""))
ref("r-adv-helper", "P09 P04 M08", (Q, """				if n.Op == ast.EQ && !rv.DayOnly() {
					tape.WarningAt(rv.Pos(), `exact""", """				adviseTime(n, rv, tape)
			}
		}
	}
	return nil
}

func adviseTime(n *ast.ExprNode, rv *ast.TimeVal, tape *parser.MessageTape) {
	if n.Op == ast.EQ {
		if !rv.DayOnly() {
			tape.WarningAt(rv.Pos(), `exact"""), (Q, """or a numeric comparison`)
				}
			}
		}
	}
	return nil
}
""", """or a numeric comparison`)
		}
	}
}
"""))
ref("r-adv-guard", "P09 P04 M08", (Q, "	switch n := node.(type) {\n	case *ast.ExprNode:\n		for _, v := range n.RVals {", "	n, ok := node.(*ast.ExprNode)\n	if !ok {\n		return nil\n	}\n	{\n		for i := 0; i < len(n.RVals); i++ {\n			v := n.RVals[i]"))
ref("r-adv-var", "P09 P04 M08", (Q, "				reStr := strings.Trim(v.String(), `/`)\n				if strings.HasPrefix(reStr, \"(?i)\") && !isASCII(v.String()) {", "				text := rv.String()\n				reStr := strings.Trim(text, `/`)\n				ci, plain := strings.HasPrefix(reStr, \"(?i)\"), isASCII(text)\n				if ci && !plain {"))
ref("r-adv-dotstar", "P09 P04 M08", (Q, """				if strings.HasPrefix(reStr, ".*") || strings.HasSuffix(reStr, ".*") {""", """				begins := strings.HasPrefix(reStr, ".*")
				ends := strings.HasSuffix(reStr, ".*")
				if begins || ends {"""))
ref("r-adv-isascii", "P09 M08 M12", ("jsonmatcher/str_matchers.go", """	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			return false
		}
	}
	return true""", """	for _, b := range []byte(s) {
		if b > utf8.RuneSelf-1 {
			return false
		}
	}
	return true"""))
ref("r-adv-isascii-rune", "P09 M08 M12", ("jsonmatcher/str_matchers.go", """	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			return false
		}
	}
	return true""", """	for _, r := range s {
		if r >= utf8.RuneSelf {
			return false
		}
	}
	return true"""))
ref("r-adv-special", "P09 M08", (Q, """		for i := range r.Sub {
			if doesSomethingSpecial(r.Sub[i]) {
				return true
			}
		}
	}
	return false""", """		for _, sub := range r.Sub {
			if doesSomethingSpecial(sub) {
				return true
			}
		}
	}
	return false"""))
ref("r-adv-cut", "P09 M08", (Q, """				reStr = strings.TrimPrefix(reStr, "(?i)")
""", """				if rest, ok := strings.CutPrefix(reStr, "(?i)"); ok {
					reStr = rest
				}
"""))
