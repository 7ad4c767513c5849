J = "jsonmatcher/"
V = J+"json_values.go"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))
ALL = "M05 M08 M09 M06 M04"

GET = """		child, childType, _, _ := jsonparser.Get(data, path.current())
		if child == nil {
			return nil
		}
"""
EACH = """		jsonparser.ArrayEach(data,
			func(child []byte, dataType jsonparser.ValueType, offset int, err error) {
				if dataType == jsonparser.Object {
					outputValues = append(outputValues, getValues(path, child, jsonparser.Object)...)
				}
			})
"""
BOTTOM = """		if path.bottom() {
			return []jsonValue{{data: child, dataType: childType}}
		}
		// otherwise drill down on the next value in the chain
		outputValues = append(outputValues, getValues(path.next(), child, childType)...)
"""
bug("b-path-empty-child", "M05", (V, "		if child == nil {\n			return nil\n		}\n", "		if len(child) == 0 {\n			return nil\n		}\n"))
bug("b-path-first-element", "M05", (V, EACH, """		jsonparser.ArrayEach(data,
			func(child []byte, dataType jsonparser.ValueType, offset int, err error) {
				if dataType == jsonparser.Object && len(outputValues) == 0 {
					outputValues = append(outputValues, getValues(path, child, jsonparser.Object)...)
				}
			})
"""))
bug("b-path-overwrite", "M05", (V, "outputValues = append(outputValues, getValues(path, child, jsonparser.Object)...)", "outputValues = getValues(path, child, jsonparser.Object)"))
bug("b-path-nested-array", "M05", (V, "				if dataType == jsonparser.Object {\n					outputValues = append(outputValues, getValues(path, child, jsonparser.Object)...)", "				if dataType != jsonparser.Null {\n					outputValues = append(outputValues, getValues(path, child, dataType)...)"))
bug("b-path-skip-segment", "M05", (V, "getValues(path, child, jsonparser.Object)...)", "getValues(path.next(), child, jsonparser.Object)...)"))
bug("b-path-root-object", "M05", (V, "	data, dataType, _, err := jsonparser.Get(root)", "	data, _, _, err := jsonparser.Get(root)"), (V, "getValues(path, data, dataType),", "getValues(path, data, jsonparser.Object),"))
bug("b-path-get-all", "M05", (V, "		child, childType, _, _ := jsonparser.Get(data, path.current())\n", "		child, childType, _, _ := jsonparser.Get(data, path[len(path)-1])\n"))
bug("b-path-trim-last", "M05", (J+"nodes.go", "field := getField(e.path, root)", "field := getField(e.path[:1], root)"))
bug("b-path-err-nil", "M05", (V, "				if dataType == jsonparser.Object {\n", "				if dataType == jsonparser.Object && offset < 4096 {\n"))

ref("r-path-err", ALL, (V, GET, """		child, childType, _, err := jsonparser.Get(data, path.current())
		if err != nil {
			return nil
		}
"""))
ref("r-path-notexist", ALL, (V, GET, """		child, childType, _, _ := jsonparser.Get(data, path.current())
		if childType == jsonparser.NotExist {
			return nil
		}
"""))
ref("r-path-return", ALL, (V, BOTTOM, """		if path.bottom() {
			return []jsonValue{{data: child, dataType: childType}}
		}
		return getValues(path.next(), child, childType)
"""))
ref("r-path-else", ALL, (V, BOTTOM, """		if len(path) > 1 {
			outputValues = append(outputValues, getValues(path[1:], child, childType)...)
		} else {
			outputValues = append(outputValues, jsonValue{data: child, dataType: childType})
		}
"""))
ref("r-path-guard", ALL, (V, EACH, """		jsonparser.ArrayEach(data,
			func(child []byte, dataType jsonparser.ValueType, offset int, err error) {
				if dataType != jsonparser.Object {
					return
				}
				found := getValues(path, child, dataType)
				outputValues = append(outputValues, found...)
			})
"""))
ref("r-path-helper", ALL, (V, EACH, """		outputValues = append(outputValues, valuesInArray(path, data)...)
"""), (V, "// possible optimization: if a field", """func valuesInArray(path valuepath, data []byte) []jsonValue {
	var out []jsonValue
	jsonparser.ArrayEach(data,
		func(child []byte, dataType jsonparser.ValueType, offset int, err error) {
			if dataType == jsonparser.Object {
				out = append(out, getValues(path, child, jsonparser.Object)...)
			}
		})
	return out
}

// possible optimization: if a field"""))
ref("r-path-child-helper", ALL, (V, GET, """		child, childType, found := childOf(data, path.current())
		if !found {
			return nil
		}
"""), (V, "// possible optimization: if a field", """func childOf(data []byte, key string) ([]byte, jsonparser.ValueType, bool) {
	child, childType, _, _ := jsonparser.Get(data, key)
	return child, childType, child != nil
}

// possible optimization: if a field"""))
ref("r-path-if", ALL, (V, "	switch dataType {\n	case jsonparser.Object:\n		// looking for", "	if dataType == jsonparser.Object {\n		// looking for"), (V, "	case jsonparser.Array:\n		// looking for a path segment in an array", "	} else if dataType == jsonparser.Array {\n		// looking for a path segment in an array"))
ref("r-path-param-order", ALL, (V, "func getValues(path valuepath, data []byte, dataType jsonparser.ValueType) (fieldValues []jsonValue) {", "func getValues(data []byte, dataType jsonparser.ValueType, path valuepath) (fieldValues []jsonValue) {"),
    (V, "values: getValues(path, data, dataType),", "values: getValues(data, dataType, path),"), (V, "getValues(path.next(), child, childType)", "getValues(child, childType, path.next())"), (V, "getValues(path, child, jsonparser.Object)", "getValues(child, jsonparser.Object, path)"))
ref("r-path-element-loop", ALL, (V, EACH, """		var objects [][]byte
		jsonparser.ArrayEach(data,
			func(child []byte, dataType jsonparser.ValueType, offset int, err error) {
				if dataType == jsonparser.Object {
					objects = append(objects, child)
				}
			})
		for _, o := range objects {
			outputValues = append(outputValues, getValues(path, o, jsonparser.Object)...)
		}
"""))
ref("r-path-root-inline", ALL, (V, """	if err != nil {
		return &field{}
	}
	return &field{
		values: getValues(path, data, dataType),
	}""", """	f := &field{}
	if err == nil {
		f.values = getValues(path, data, dataType)
	}
	return f"""))
