S = "sampler/sampler.go"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

ALL = "S01 S02 S03 S04"

bug("b-smp-depth-ge", "S01", (S, "depth > s.maxDepth {", "depth >= s.maxDepth {"))
bug("b-smp-depth-zero", "S01", (S, "if s.maxDepth >= 0 &&", "if s.maxDepth > 0 &&"))
bug("b-smp-depth-cap", "S01", (S, "	if s.maxDepth >= 0 && depth > s.maxDepth {", "	if s.maxDepth >= 0 && depth > s.maxDepth || depth > 32 {"))
bug("b-smp-array-depth", "S01", (S, "aerr = s.sample(value, path, depth, dataType, found)", "aerr = s.sample(value, path, depth+1, dataType, found)"))
bug("b-smp-truncate", "S01", (S, "			path.Truncate(pl)\n			return nil", "			if dataType != jsonparser.Object {\n				path.Truncate(pl)\n			}\n			return nil"))
bug("b-smp-no-truncate-empty", "S01", (S, "			path.Truncate(pl)\n", "			if len(value) > 0 {\n				path.Truncate(pl)\n			}\n"))
bug("b-smp-quote-dot", "S01", (S, "bytes.ContainsAny(key, ` .\"`)", "bytes.ContainsAny(key, ` \"`)"))
bug("b-smp-array-first", "S01", (S, "			if dataType == jsonparser.Array {\n				return\n			}\n", "			if dataType == jsonparser.Array || len(found) > 1000 {\n				return\n			}\n"))
bug("b-smp-null", "S01", (S, "	case jsonparser.Unknown:", "	case jsonparser.Null:\n		return nil\n	case jsonparser.Unknown:"))
bug("b-smp-long-key", "S01", (S, "			path.WriteString(\".\")\n", "			if len(key) > 255 {\n				return nil\n			}\n			path.WriteString(\".\")\n"))
bug("b-smp-empty-key", "S01", (S, "			path.WriteString(\".\")\n", "			if len(key) == 0 {\n				return nil\n			}\n			path.WriteString(\".\")\n"))
bug("b-smp-nested-arrays", "S01", (S, "			if dataType == jsonparser.Array {\n				return\n			}\n", ""))
bug("b-smp-root-array", "S01", (S, "		rootObj = jsonparser.Array\n", "		rootObj = jsonparser.Array\n		depth0 = 1\n"), (S, "	depth := 0\n", "	depth := depth0\n"), (S, "	var rootObj jsonparser.ValueType\n", "	var rootObj jsonparser.ValueType\n	depth0 := 0\n"))
bug("b-smp-count-direct", "S02", (S, "		found[path.String()[1:]] = struct{}{}", "		found[path.String()[1:]] = struct{}{}\n		if _, ok := s.keys[path.String()[1:]]; !ok {\n			s.keys[path.String()[1:]] = 0\n		}"))
bug("b-smp-docs-early", "S02", (S, "	s.totalDocs++\n	return nil", "	return nil"), (S, "	// prep initial sampling state", "	s.totalDocs++\n	// prep initial sampling state"))
bug("b-smp-err-after", "S02", (S, "	if err != nil {\n		return err\n	}\n\n	for key", "	for key"), (S, "	s.totalDocs++\n	return nil", "	s.totalDocs++\n	return err"))
bug("b-smp-aerr-last", "S02", (S, "if ierr != nil || aerr != nil {", "if ierr != nil {"))
bug("b-smp-aerr-lost", "S02", (S, "		if err == nil {\n			err = aerr\n		}\n		return err", "		if err != nil {\n			err = aerr\n		}\n		return err"))
bug("b-smp-found-shared", "S02 S03", (S, "	found := make(map[string]struct{})\n", "	found := s.found\n	if found == nil {\n		found = make(map[string]struct{})\n		s.found = found\n	}\n"), (S, "	totalDocs int\n}", "	totalDocs int\n	found     map[string]struct{}\n}"), (S, "	s.totalDocs++\n	return nil", "	s.totalDocs++\n	for k := range found {\n		delete(found, k)\n	}\n	return nil"))
ref("r-smp-unknown", ALL, (S, "		return fmt.Errorf(\"unkown JSON value type: %v\", string(current))", "		if depth > 0 {\n			return nil\n		}\n		return fmt.Errorf(\"unkown JSON value type: %v\", string(current))"))
bug("b-smp-thresh-gt", "S03", (S, "float64(count)/float64(s.totalDocs) >= pct", "float64(count)/float64(s.totalDocs) > pct"))
bug("b-smp-thresh-mul", "S03", (S, "float64(count)/float64(s.totalDocs) >= pct", "float64(count) >= pct*float64(s.totalDocs)"))
bug("b-smp-thresh-100", "S03", (S, "float64(count)/float64(s.totalDocs) >= pct", "float64(count)/float64(s.totalDocs)*100 >= float64(thresholdPercent)"), (S, "	pct := float64(thresholdPercent) / 100\n", ""))
bug("b-smp-thresh-32", "S03", (S, "float64(count)/float64(s.totalDocs) >= pct", "float32(count)/float32(s.totalDocs) >= float32(pct)"))
bug("b-smp-thresh-int", "S03", (S, "float64(count)/float64(s.totalDocs) >= pct", "int(count) >= s.totalDocs*thresholdPercent/100"), (S, "	pct := float64(thresholdPercent) / 100\n", ""))
bug("b-smp-count-twice", "S03", (S, "		found[path.String()[1:]] = struct{}{}", "		if _, ok := found[path.String()[1:]]; ok && depth > 1 {\n			s.keys[path.String()[1:]]++\n		}\n		found[path.String()[1:]] = struct{}{}"))
bug("b-smp-reset-docs", "S03", (S, "	s.totalDocs = 0\n}", "	if len(s.keys) > 0 {\n		s.totalDocs = 0\n	}\n}"))
bug("b-smp-reset-keys", "S03", (S, "		delete(s.keys, k)", "		s.keys[k] = 0"))
bug("b-smp-docs-keyless", "S03", (S, "	s.totalDocs++\n	return nil", "	if len(found) > 0 {\n		s.totalDocs++\n	}\n	return nil"))
bug("b-smp-empty", "S04", (S, "	if len(sample) == 0 {\n		return errors.New(\"sample is empty\")\n	}", "	if sample == nil {\n		return errors.New(\"sample is empty\")\n	}"))
bug("b-smp-slice", "S04", (S, "	if sampleLen > 100 {\n		sampleLen = 100\n	}", "	if sampleLen < 100 {\n		sampleLen = 100\n	}"))
bug("b-smp-toplevel", "S04", (S, "		if path.Len() == 0 {\n			return nil\n		}\n", ""))
bug("b-smp-nilmap", "S04", (S, "	s.totalDocs = 0\n}", "	s.totalDocs = 0\n	s.keys = nil\n}"))

ref("r-smp-split", ALL, (S, "		pl := path.Len()\n		return jsonparser.ObjectEach(current, func(key []byte, value []byte, dataType jsonparser.ValueType, _ int) error {\n			path.WriteString(\".\")\n			if bytes.ContainsAny(key, ` .\"`) {\n				path.WriteString(strconv.Quote(string(key)))\n			} else {\n				path.Write(key)\n			}\n			if err := s.sample(value, path, depth+1, dataType, found); err != nil {\n				return err\n			}\n			path.Truncate(pl)\n			return nil\n		})\n", "		return s.sampleObject(current, path, depth, found)\n"),
    (S, "func (s *Sampler) Keys() []string {", "func (s *Sampler) sampleObject(current []byte, path *bytes.Buffer, depth int, found map[string]struct{}) error {\n	mark := path.Len()\n	each := func(key []byte, value []byte, dataType jsonparser.ValueType, _ int) error {\n		writeKey(path, key)\n		err := s.sample(value, path, depth+1, dataType, found)\n		if err == nil {\n			path.Truncate(mark)\n		}\n		return err\n	}\n	return jsonparser.ObjectEach(current, each)\n}\n\nfunc writeKey(path *bytes.Buffer, key []byte) {\n	path.WriteByte('.')\n	if bytes.IndexAny(key, ` .\"`) >= 0 {\n		path.WriteString(strconv.Quote(string(key)))\n		return\n	}\n	path.Write(key)\n}\n\nfunc (s *Sampler) Keys() []string {"))
ref("r-smp-walker", ALL, (S, "	depth := 0\n	path := &bytes.Buffer{} // todo: share\n	found := make(map[string]struct{})\n	err := s.sample(sample, path, depth, rootObj, found)\n", "	w := &walker{maxDepth: s.maxDepth, found: map[string]struct{}{}}\n	err := w.sample(sample, \"\", 0, rootObj)\n	found := w.found\n"),
    (S, "func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType, found map[string]struct{}) error {\n	if s.maxDepth", "type walker struct {\n	maxDepth int\n	found    map[string]struct{}\n}\n\nfunc (s *walker) sample(current []byte, path string, depth int, valType jsonparser.ValueType) error {\n	if s.maxDepth"),
    (S, "		pl := path.Len()\n", ""),
    (S, "			path.WriteString(\".\")\n			if bytes.ContainsAny(key, ` .\"`) {\n				path.WriteString(strconv.Quote(string(key)))\n			} else {\n				path.Write(key)\n			}\n			if err := s.sample(value, path, depth+1, dataType, found); err != nil {\n				return err\n			}\n			path.Truncate(pl)\n			return nil\n", "			k := string(key)\n			if strings.ContainsAny(k, ` .\"`) {\n				k = strconv.Quote(k)\n			}\n			return s.sample(value, path+\".\"+k, depth+1, dataType)\n"),
    (S, "aerr = s.sample(value, path, depth, dataType, found)", "aerr = s.sample(value, path, depth, dataType)"),
    (S, "		if path.Len() == 0 {", "		if path == \"\" {"),
    (S, "		found[path.String()[1:]] = struct{}{}", "		s.found[path[1:]] = struct{}{}"),
    (S, "	\"bytes\"\n", "	\"strings\"\n"))
ref("r-smp-thresh-int", ALL, (S, "		if float64(count)/float64(s.totalDocs) >= pct {", "		if int(count)*100 >= thresholdPercent*s.totalDocs {"), (S, "	pct := float64(thresholdPercent) / 100\n", ""))
ref("r-smp-thresh-var", ALL, (S, "		if float64(count)/float64(s.totalDocs) >= pct {\n			out = append(out, key)\n		}", "		share := float64(count) / float64(s.totalDocs)\n		if share < pct {\n			continue\n		}\n		out = append(out, key)"))
ref("r-smp-clear", ALL, (S, "	for k := range s.keys {\n		delete(s.keys, k)\n	}", "	s.keys = make(map[string]uint)"))
ref("r-smp-root", ALL, (S, "	switch sample[0] {\n	case '{':\n		if sample[len(sample)-1] != '}' {\n			return fmt.Errorf(\"unterminated JSON object: %s\", string(sample[:sampleLen]))\n		}\n		rootObj = jsonparser.Object\n	case '[':\n		if sample[len(sample)-1] != ']' {\n			return fmt.Errorf(\"unterminated JSON array: %s\", string(sample[:sampleLen]))\n		}\n		rootObj = jsonparser.Array\n	default:\n		return fmt.Errorf(\"sample is not an object or array: %s\", string(sample[:sampleLen]))\n	}\n", "	first, last := sample[0], sample[len(sample)-1]\n	excerpt := string(sample[:sampleLen])\n	if first == '{' {\n		if last != '}' {\n			return fmt.Errorf(\"unterminated JSON object: %s\", excerpt)\n		}\n		rootObj = jsonparser.Object\n	} else if first == '[' {\n		if last != ']' {\n			return fmt.Errorf(\"unterminated JSON array: %s\", excerpt)\n		}\n		rootObj = jsonparser.Array\n	} else {\n		return fmt.Errorf(\"sample is not an object or array: %s\", excerpt)\n	}\n"))
ref("r-smp-prefix", ALL, (S, "	switch sample[0] {\n	case '{':\n		if sample[len(sample)-1] != '}' {", "	switch {\n	case bytes.HasPrefix(sample, []byte(\"{\")):\n		if !bytes.HasSuffix(sample, []byte(\"}\")) {"), (S, "	case '[':\n", "	case sample[0] == '[':\n"))
ref("r-smp-record", ALL, (S, "	for key := range found {\n		s.keys[key]++\n	}\n	s.totalDocs++\n	return nil", "	s.totalDocs++\n	s.record(found)\n	return nil"), (S, "func (s *Sampler) Keys() []string {", "func (s *Sampler) record(found map[string]struct{}) {\n	for key := range found {\n		n := s.keys[key]\n		s.keys[key] = n + 1\n	}\n}\n\nfunc (s *Sampler) Keys() []string {"))
ref("r-smp-cases", ALL, (S, "	switch valType {\n	case jsonparser.Object:\n		pl", "	if valType == jsonparser.Unknown {\n		return fmt.Errorf(\"unkown JSON value type: %v\", string(current))\n	}\n	switch valType {\n	case jsonparser.Object:\n		pl"), (S, "	case jsonparser.Unknown:\n		return fmt.Errorf(\"unkown JSON value type: %v\", string(current))\n	default:", "	default:"))
ref("r-smp-slice-found", ALL, (S, "	for key := range found {\n		s.keys[key]++\n	}", "	names := make([]string, 0, len(found))\n	for key := range found {\n		names = append(names, key)\n	}\n	sort.Strings(names)\n	for _, key := range names {\n		s.keys[key]++\n	}"), (S, "	\"fmt\"\n", "	\"fmt\"\n	\"sort\"\n"))
ref("r-smp-keys-sorted", ALL, (S, "	for key := range s.keys {\n		out = append(out, key)\n	}\n	return out", "	for key := range s.keys {\n		out = append(out, key)\n	}\n	sort.Strings(out)\n	return out"), (S, "	\"fmt\"\n", "	\"fmt\"\n	\"sort\"\n"))
ref("r-smp-no-unknown", ALL, (S, "	case jsonparser.Unknown:\n		return fmt.Errorf(\"unkown JSON value type: %v\", string(current))\n", ""))
ref("r-smp-no-ierr", ALL, (S, "if ierr != nil || aerr != nil {", "if aerr != nil {"))
