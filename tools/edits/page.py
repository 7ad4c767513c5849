W = "wasm/aqlparse/main.go"
V = "wasm/aqlparse/warnings.go"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

bug("b-page-drop", "W02", (W, "		for _, m := range pmessages {\n", "		for i, m := range pmessages {\n			if i > 0 && m.Type == parser.MsgHint {\n				continue\n			}\n"))
bug("b-page-warn-error", "W02", (W, '		msgType = "warning"', '		msgType = "error"'))
bug("b-page-hide-tree", "W02", (W, '	if root != "" {\n', '	if root != "" && len(messages) == 0 {\n'))
bug("b-page-trim", "W02", (W, "	root, pmessages, err := parseAQL(input)", "	root, pmessages, err := parseAQL(strings.TrimSpace(input))"))
bug("b-page-other-visitor", "W02", (W, "	return string(tree), visitor.Messages(), nil", "	return string(tree), parser.NewMessageVisitor(warningVisitor).Messages(), nil"))
bug("b-page-error-text", "W02", (W, "		msg := pe.Msg\n", "		msg := pe.Error()\n"))
bug("b-page-incomplete", "W02", (W, 'strings.HasPrefix(msg, "no match found")', 'strings.Contains(input, "(") || strings.HasPrefix(msg, "no match found")'))
bug("b-page-dup", "W02", (W, "	if len(pmessages) > 0 {\n", "	if err != nil && len(pmessages) == 0 {\n		messages = append(messages, map[string]any{\"type\": \"error\", \"msg\": err.Error()})\n	}\n	if len(pmessages) > 0 {\n"))
bug("b-page-first", "W02", (V, "				if n.Op == ast.EQ {\n					tape.WarningAt(rv.Pos(), `exact", "				if n.Op == ast.EQ {\n					tape.WarningAt(n.RVals[0].Pos(), `exact"))
bug("b-page-adv-error", "W02", (V, "tape.WarningAt(n.Pos(), \"Similarity", "tape.ErrorAt(n.Pos(), \"Similarity"))
bug("b-page-adv-return", "W02", (V, "or a numeric comparison`)\n", "or a numeric comparison`)\n					return nil\n"))
bug("b-page-adv-posix", "W02", (V, "syntax.Perl)", "syntax.POSIX)"))
ref("r-page-switch", "W02", (W, "	var msgType string\n	switch msg.Type {\n	case parser.MsgHint:\n		msgType = \"hint\"\n	case parser.MsgWarning:\n		msgType = \"warning\"\n	case parser.MsgError:\n		msgType = \"error\"\n	}\n", "	names := map[parser.MessageType]string{\n		parser.MsgHint:    \"hint\",\n		parser.MsgWarning: \"warning\",\n		parser.MsgError:   \"error\",\n	}\n	msgType := names[msg.Type]\n"))
ref("r-page-loop", "W02", (W, "	if len(pmessages) > 0 {\n		for _, m := range pmessages {\n			messages = append(messages, msgConvert(m, input))\n		}\n	}\n", "	for i := 0; i < len(pmessages); i++ {\n		messages = append(messages, msgConvert(pmessages[i], input))\n	}\n"))
ref("r-page-else", "W02", (W, "	} else {\n		return map[string]any{\n			\"msg\": err.Error(),\n		}\n	}\n", "	}\n	return map[string]any{\n		\"msg\": err.Error(),\n	}\n"))
ref("r-page-result", "W02", (W, "	result := map[string]any{\n		\"ast\": \"\",\n	}\n", ""), (W, "	if root != \"\" {\n		result[\"ast\"] = root\n	}\n	result[\"messages\"] = messages\n	return result\n", "	return map[string]any{\n		\"ast\":      root,\n		\"messages\": messages,\n	}\n"))
ref("r-page-located", "W02", (W, "	covered := []rune(input[pos.Offset:])\n	if pos.Len < len(covered) {\n		covered = covered[:pos.Len]\n	}\n	start := len(utf16.Encode([]rune(input[:pos.Offset])))\n	message[\"start\"] = start\n	message[\"end\"] = start + len(utf16.Encode(covered))\n	return message\n}\n", "	covered := []rune(input[pos.Offset:])\n	if len(covered) > pos.Len {\n		covered = covered[:pos.Len]\n	}\n	start := units([]rune(input[:pos.Offset]))\n	message[\"end\"] = start + units(covered)\n	message[\"start\"] = start\n	return message\n}\n\nfunc units(rs []rune) int {\n	return len(utf16.Encode(rs))\n}\n"))
ref("r-page-func", "W02", (W, "js.FuncOf(pWrap))", "js.FuncOf(func(this js.Value, args []js.Value) any { return pWrap(this, args) }))"))
ref("r-page-as", "W02", (W, "	if pe, ok := err.(*parser.ParseError); ok {", "	pe, ok := err.(*parser.ParseError)\n	if ok {"))
ref("r-page-iszero", "W02", (W, "	if pos.Offset < 0 {", "	if pos.IsZero() {"))
ref("r-page-adv-helper", "W02", (V, "				if n.Op == ast.EQ {\n					tape.WarningAt(rv.Pos(), `exact matches on datetime values currently match the time EXACTLY, consider using [:~] or a numeric comparison`)\n				}\n", "				warnExact(n, rv, tape)\n"), (V, "func doesSomethingSpecial", "func warnExact(n *ast.ExprNode, rv *ast.TimeVal, tape *parser.MessageTape) {\n	if n.Op == ast.EQ {\n		tape.WarningAt(rv.Pos(), `exact matches on datetime values currently match the time EXACTLY, consider using [:~] or a numeric comparison`)\n	}\n}\n\nfunc doesSomethingSpecial"))
