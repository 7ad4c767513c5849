M = "jsonmatcher/"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

bug("b-num-f32", "N01", (M + "expr_numeric.go", "float64(v.Value())", "float64(float32(v.Value()))"))
bug("b-num-i32", "N01", (M + "expr_numeric.go", "float64(v.Value())", "float64(int32(v.Value()))"))
bug("b-num-text", "N01", (M + "json_values.go", "		fv, err := jsonparser.ParseFloat(v.data)\n		if err != nil {\n			return math.NaN(), false", "		fv, err := strconv.ParseFloat(string(v.data), 32)\n		if err != nil {\n			return math.NaN(), false"))
bug("b-num-round", "N01", (M + "json_values.go", "			return math.NaN(), false\n		}\n		return fv, true", "			return math.NaN(), false\n		}\n		return math.Round(fv), true"))
bug("b-num-eps", "N01", (M + "expr_float.go", "			if fv == e.values[0] {", "			if d := fv - e.values[0]; d < 0.5 && d > -0.5 {"))
ref("r-num-helper", "N01", (M + "expr_numeric.go", "float64(v.Value())", "asFloat(v)"), (M + "expr_numeric.go", None, "\nfunc asFloat(v *ast.IntVal) float64 { return float64(v.Value()) }\n"))
