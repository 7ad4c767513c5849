# Code moved to other packages and files.
import re
EDITS = []
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))
def text(file): return open("/repo/" + file).read()
def fn(file, head):
    s = text(file)
    i = s.index("func " + head)
    return s[i:s.index("\n}\n", i) + 3]
def rewrite(file, head, new): return (file, fn(file, head), new.lstrip("\n"))
def file(f, change): return (f, text(f), change(text(f)))
ALLM = "M01 M02 M03 M04 M05 M06 M07 M08 M09 M10 M11 M12 M13 P02 P09 I01 I02 N01"
SM, QM, W = "jsonmatcher/str_matchers.go", "jsonmatcher/query_messages.go", "wasm/aqlparse/warnings.go"
imp = 'github.com/flowchartsman/aql/internal/text"\n'
def uses(s):
    s = s.replace("isASCII(", "text.IsASCII(")
    return s
asc = """package text

import "unicode/utf8"

// IsASCII tells whether a text has no characters beyond ASCII.
func IsASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			return false
		}
	}
	return true
}
"""
ref("r-mv-ascii", ALLM + " W02",
    ("internal/text/ascii.go", None, asc),
    file(SM, lambda s: uses(s.replace("\n" + fn(SM, "isASCII("), "")).replace('	"unicode/utf8"\n', "").replace('	"golang.org/x/text/language"', '	"' + imp + '	"golang.org/x/text/language"')),
    file(QM, lambda s: uses(s).replace('	"github.com/flowchartsman/aql/parser"\n', '	"' + imp + '	"github.com/flowchartsman/aql/parser"\n')),
    file(W, lambda s: uses(s.replace("\n" + fn(W, "isASCII("), "")).replace('	"unicode/utf8"\n', "").replace('	"github.com/flowchartsman/aql/parser"\n', '	"' + imp + '	"github.com/flowchartsman/aql/parser"\n')))
TR, FM = "parser/fmtmsg/truncate.go", "parser/fmtmsg/formatter.go"
def mm(s): return re.sub(r"\bmin\(", "num.Min(", re.sub(r"\bmax\(", "num.Max(", s))
ref("r-mv-num", "F01 F02 F03 P10 I01 I02 C01",
    ("internal/num/num.go", None, "package num\n\nfunc Min(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\nfunc Max(a, b int) int {\n	if a > b {\n		return a\n	}\n	return b\n}\n"),
    file(TR, lambda s: mm(s.replace("\n" + fn(TR, "min("), "").replace("\n" + fn(TR, "max("), "")).replace("import (\n", 'import (\n	"github.com/flowchartsman/aql/internal/num"\n')),
    file(FM, lambda s: mm(s).replace('	"github.com/flowchartsman/aql/parser"\n', '	"github.com/flowchartsman/aql/internal/num"\n	"github.com/flowchartsman/aql/parser"\n')))
# the advice about regular expressions is shared
JV = "jsonmatcher/json_values.go"
ref("r-mv-file", ALLM,
    file(JV, lambda s: s.replace(fn(JV, "getValues("), "").replace("\n// possible optimization: if a field is referenced only in an exists query,\n// getValues can return early\n", "\n")),
    ("jsonmatcher/lookup.go", None, 'package jsonmatcher\n\nimport "github.com/buger/jsonparser"\n\n' + fn(JV, "getValues(")))
GR = "aqlgraph/graph.go"
ref("r-mv-namer", "V01 V02 I01 I02",
    ("internal/names/names.go", None, 'package names\n\nimport "strconv"\n\n// Sequence makes distinct names.\ntype Sequence struct{ last int }\n\nfunc (s *Sequence) Next() string {\n	defer func() { s.last++ }()\n	return strconv.Itoa(s.last)\n}\n'),
    (GR, "	n namer\n", "	n names.Sequence\n"),
    (GR, "CreateNode(n.n.next())", "CreateNode(n.n.Next())"), (GR, "CreateEdge(n.n.next(), ", "CreateEdge(n.n.Next(), "),
    (GR, 'type namer struct {\n	id int\n}\n\n' + fn(GR, "(n *namer) next"), ""), (GR, '	"strconv"\n', ""),
    (GR, '	"github.com/flowchartsman/aql/parser"\n', '	"github.com/flowchartsman/aql/internal/names"\n	"github.com/flowchartsman/aql/parser"\n'))
S = "sampler/sampler.go"
# operators' limits as a method of the operator
VA, A = "parser/validators.go", "parser/ast/ast.go"
