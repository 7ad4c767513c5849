T = "cmd/aqltest/main.go"
G = "cmd/aqlgraph/main.go"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

bug("b-cmd-read-print", "C01", (T, "		if err != nil {\n			log.Fatal(err)\n		}\n		query = string(qb)", "		if err != nil {\n			log.Print(err)\n		}\n		query = string(qb)"))
bug("b-cmd-match-ignored", "C01", (T, "	result, err := m.Match(input)\n	if err != nil {\n		log.Fatal(err)\n	}\n	fmt.Println(result)", "	result, err := m.Match(input)\n	fmt.Println(result)\n	if err != nil {\n		log.Fatal(err)\n	}"))
bug("b-cmd-match-false", "C01", (T, "	result, err := m.Match(input)\n	if err != nil {\n		log.Fatal(err)\n	}\n", "	result, err := m.Match(input)\n	if err != nil && !result {\n		log.Println(err)\n	}\n"))
bug("b-cmd-exit0", "C01", (T, "			log.Fatal(printer.Sprint(parseErr))\n", "			log.Print(printer.Sprint(parseErr))\n			os.Exit(0)\n"))
bug("b-cmd-parse-return", "C01", (T, "			log.Fatal(printer.Sprint(parseErr))\n", "			log.Print(printer.Sprint(parseErr))\n			return\n"))
bug("b-cmd-perr-only", "C01", (T, "			log.Fatal(printer.Sprint(parseErr))\n		}\n		log.Fatal(err)\n", "			log.Fatal(printer.Sprint(parseErr))\n		}\n"))
bug("b-cmd-shadow", "C01", (T, "	input, err := os.ReadFile(os.Args[2])\n	if err != nil {", "	input, rerr := os.ReadFile(os.Args[2])\n	if err != nil && rerr != nil {"))
bug("b-cmd-usage", "C01", (T, "len(os.Args) != 3", "len(os.Args) > 3 || len(os.Args) < 2"))
bug("b-cmd-usage-more", "C01", (T, "len(os.Args) != 3", "len(os.Args) < 3"))
bug("b-cmd-stats-ignored", "C01", (T, "			log.Fatalf(\"error marshalling stats: %s\", err)\n", "			log.Printf(\"error marshalling stats: %s\", err)\n			return\n"))
bug("b-cmd-stats-once", "C01", (T, "		fmt.Println(string(statsB))\n", "		if result {\n			fmt.Println(string(statsB))\n		}\n"))
bug("b-cmd-not-result", "C01", (T, "	fmt.Println(result)\n", "	fmt.Println(!result)\n"))
bug("b-cmd-result-true", "C01", (T, "	fmt.Println(result)\n", "	if result {\n		fmt.Println(result)\n	}\n"))
bug("b-cmd-exit-false", "C01", (T, "	fmt.Println(result)\n", "	fmt.Println(result)\n	if !result {\n		os.Exit(1)\n	}\n"))
bug("b-cmd-silent", "C01", (T, "		log.Fatalf(\"could not open file: %v\", err)\n", "		os.Exit(1)\n"))
bug("b-cmd-warn-stop", "C01", (T, "	for _, m := range m.Messages() {\n		log.Println(printer.Sprint(m))\n	}\n", "	for _, m := range m.Messages() {\n		log.Fatal(printer.Sprint(m))\n	}\n"))
bug("b-cmd-query-file", "C01", (T, "		query = string(qb)\n", "		query := string(qb)\n		_ = query\n"))
bug("b-cmd-doc", "C01", (T, "m.Match(input)", "m.Match(append(input[:0:0], query...))"))
bug("b-cmd-gr-ignored", "C01", (G, "	graph, err := aqlgraph.QueryGraph(query)\n	if err != nil {\n		log.Fatal(err)\n	}\n", "	graph, err := aqlgraph.QueryGraph(query)\n"))
bug("b-cmd-gr-dot-err", "C01", (G, "		err = graph.OutputDOT(outputFile)\n", "		err := graph.OutputDOT(outputFile)\n		_ = err\n"))
bug("b-cmd-gr-default", "C01", (G, "		log.Fatalf(\"unknown file format: %s\", ext)\n", "		log.Printf(\"unknown file format: %s\", ext)\n"))
bug("b-cmd-gr-case", "C01", (G, "strings.ToLower(filepath.Ext(outputFile))", "strings.TrimSpace(filepath.Ext(outputFile))"))
bug("b-cmd-gr-contains", "C01", (G, "		ext = strings.ToLower(filepath.Ext(outputFile))\n", "		ext = strings.ToLower(filepath.Ext(outputFile))\n		if strings.HasPrefix(ext, \".svg\") {\n			ext = \".svg\"\n		}\n"))
bug("b-cmd-gr-file", "C01", (G, "		outputFile = os.Args[2]\n		ext", "		outputFile := os.Args[2]\n		ext"))
bug("b-cmd-gr-last", "C01", (G, "	if err != nil {\n		log.Fatal(err)\n	}\n}", "	if err != nil && ext == \".svg\" {\n		log.Fatal(err)\n	}\n}"))
bug("b-cmd-gr-usage", "C01", (G, "	if len(os.Args) < 2 {\n		log.Fatalf(", "	if len(os.Args) < 2 {\n		log.Printf("), (G, "	query := os.Args[1]\n", "	query := os.Args[len(os.Args)-1]\n"))

ref("r-cmd-run", "C01", (T, "func main() {\n	log.SetFlags(0)\n	if len(os.Args) != 3 {", "func main() {\n	log.SetFlags(0)\n	if err := run(); err != nil {\n		log.Fatal(err)\n	}\n}\n\nfunc run() error {\n	if len(os.Args) != 3 {"), (T, "		if err != nil {\n			log.Fatal(err)\n		}\n		query = string(qb)", "		if err != nil {\n			return err\n		}\n		query = string(qb)"), (T, "	result, err := m.Match(input)\n	if err != nil {\n		log.Fatal(err)\n	}\n", "	result, err := m.Match(input)\n	if err != nil {\n		return fmt.Errorf(\"match: %w\", err)\n	}\n"), (T, "		fmt.Println(string(statsB))\n	}\n", "		fmt.Println(string(statsB))\n	}\n	return nil\n"))
ref("r-cmd-exit1", "C01", (T, "		log.Fatalf(\"could not open file: %v\", err)\n", "		fmt.Fprintf(os.Stderr, \"could not open file: %v\\n\", err)\n		os.Exit(1)\n"))
ref("r-cmd-printf", "C01", (T, "	fmt.Println(result)\n", "	fmt.Printf(\"%v\\n\", result)\n"))
ref("r-cmd-strconv", "C01", (T, "	fmt.Println(result)\n", "	os.Stdout.WriteString(strconv.FormatBool(result) + \"\\n\")\n"), (T, "	\"os\"\n", "	\"os\"\n	\"strconv\"\n"))
ref("r-cmd-encoder", "C01", (T, "		statsB, err := json.MarshalIndent(stats, \"\", \"  \")\n		if err != nil {\n			log.Fatalf(\"error marshalling stats: %s\", err)\n		}\n		fmt.Println(string(statsB))\n", "		enc := json.NewEncoder(os.Stdout)\n		enc.SetIndent(\"\", \"  \")\n		if err := enc.Encode(stats); err != nil {\n			log.Fatalf(\"error marshalling stats: %s\", err)\n		}\n"))
ref("r-cmd-read-fn", "C01", (T, "	input, err := os.ReadFile(os.Args[2])\n	if err != nil {\n		log.Fatalf(\"could not open file: %v\", err)\n	}\n", "	input := mustRead(os.Args[2])\n"), (T, "func main() {", "func mustRead(name string) []byte {\n	b, err := os.ReadFile(name)\n	if err != nil {\n		log.Fatalf(\"could not open file: %v\", err)\n	}\n	return b\n}\n\nfunc main() {"))
ref("r-cmd-order", "C01", (T, "	for _, m := range m.Messages() {\n		log.Println(printer.Sprint(m))\n	}\n\n", ""), (T, "	input, err := os.ReadFile(os.Args[2])\n", "	for _, m := range m.Messages() {\n		log.Println(printer.Sprint(m))\n	}\n\n	input, err := os.ReadFile(os.Args[2])\n"))
ref("r-cmd-write-bytes", "C01", (T, "		fmt.Println(string(statsB))\n", "		os.Stdout.Write(append(statsB, '\\n'))\n"))
ref("r-cmd-ext", "C01", (T, "	if strings.HasSuffix(query, \".aql\") {", "	if filepath.Ext(query) == \".aql\" {"), (T, "	\"os\"\n	\"strings\"\n", "	\"os\"\n	\"path/filepath\"\n"))
ref("r-cmd-gr-fn", "C01", (G, "	switch ext {\n	case \".svg\":\n		err = graph.OutputSVG(outputFile)\n	case \".dot\":\n		err = graph.OutputDOT(outputFile)\n	default:\n		log.Fatalf(\"unknown file format: %s\", ext)\n	}\n\n	if err != nil {\n		log.Fatal(err)\n	}\n}", "	if err := write(graph, ext, outputFile); err != nil {\n		log.Fatal(err)\n	}\n}\n\nfunc write(graph *aqlgraph.Graph, ext, file string) error {\n	switch ext {\n	case \".svg\":\n		return graph.OutputSVG(file)\n	case \".dot\":\n		return graph.OutputDOT(file)\n	}\n	return fmt.Errorf(\"unknown file format: %s\", ext)\n}"), (G, "	\"log\"\n", "	\"fmt\"\n	\"log\"\n"))
ref("r-cmd-gr-map", "C01", (G, "	switch ext {\n	case \".svg\":\n		err = graph.OutputSVG(outputFile)\n	case \".dot\":\n		err = graph.OutputDOT(outputFile)\n	default:\n		log.Fatalf(\"unknown file format: %s\", ext)\n	}\n", "	output, ok := map[string]func(string) error{\n		\".svg\": graph.OutputSVG,\n		\".dot\": graph.OutputDOT,\n	}[ext]\n	if !ok {\n		log.Fatalf(\"unknown file format: %s\", ext)\n	}\n	err = output(outputFile)\n"))
ref("r-cmd-gr-if", "C01", (G, "	switch ext {\n	case \".svg\":\n		err = graph.OutputSVG(outputFile)\n	case \".dot\":\n		err = graph.OutputDOT(outputFile)\n	default:\n		log.Fatalf(\"unknown file format: %s\", ext)\n	}\n", "	if ext == \".svg\" {\n		err = graph.OutputSVG(outputFile)\n	} else if ext == \".dot\" {\n		err = graph.OutputDOT(outputFile)\n	} else {\n		log.Fatalln(\"unknown file format:\", ext)\n	}\n"))
ref("r-cmd-gr-early", "C01", (G, "	graph, err := aqlgraph.QueryGraph(query)\n", "	if ext != \".svg\" && ext != \".dot\" {\n		log.Fatalf(\"unknown file format: %s\", ext)\n	}\n	graph, err := aqlgraph.QueryGraph(query)\n"))
ref("r-cmd-die", "C01", (G, "	if err != nil {\n		log.Fatal(err)\n	}\n}", "	die(err)\n}\n\nfunc die(err error) {\n	if err != nil {\n		log.Fatal(err)\n	}\n}"))
