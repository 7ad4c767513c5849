# changes of the grammar made both in its source and in the generated parser
import re
G = "internal/grammar/"
N = G + "parser_gen.go"
A = G + "aql.peg"
GEN = open("/repo/" + N).read()
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))
ALL = "G07 G01 G02 G03 G04 G05 G06 P06 P07 P02 P03 M08"

def rule(name, *subs):
    i = GEN.index('\n\t\t\tname: "%s",\n' % name) if '\n\t\t\tname: "%s",\n' % name in GEN else GEN.index('\n\t\t\tname:        "%s",\n' % name)
    old = GEN[i:GEN.index("\n\t\t},\n", i)]
    new = old
    for a, b in subs:
        assert a in new, (name, a)
        new = new.replace(a, b)
    return (N, old, new)
def alternative(name, val):
    f, old, new = rule(name)
    m = re.search(r"expr: (&litMatcher\{.*?\n\t\t\t\},)", new, re.S)
    lit = m.group(1)
    other = re.sub(r'want: .*', 'want: "\\\\"%s\\\\"",' % val, re.sub(r'val: .*', 'val: "%s",' % val, lit))
    pos = re.search(r"pos: .*", lit).group(0)
    return f, old, new.replace(m.group(0), "expr: &choiceExpr{\n" + pos + "\nalternatives: []interface{}{\n" + lit + "\n" + other + "\n},\n},")

bug("b-both-secfrac", "G04 P07", (A, "timeSecfrac <- '.' [0-9]+", "timeSecfrac <- '.' [0-9]"),
    rule("timeSecfrac", ("&oneOrMoreExpr{\n						pos: position{line: 416, col: 20, offset: 9731},\n						expr: &charClassMatcher{", "&charClassMatcher{"), ("							inverted:   false,\n						},\n					},\n", "							inverted:   false,\n						},\n")))
bug("b-both-piece", "G04", (A, "[a-z0-9_-]i+", "[a-z0-9_]i+"),
    rule("UnquotedFieldPiece", ('"[a-z0-9_-]i"', '"[a-z0-9_]i"'), ("'_', '-'", "'_'")))
bug("b-both-blank", "G07", (A, '_ "whitespace" <- [ \\n\\t\\r]*', '_ "whitespace" <- [ \\n\\t]*'),
    rule("_", ('"[ \\\\n\\\\t\\\\r]"', '"[ \\\\n\\\\t]"'), (", '\\r'", "")))
bug("b-both-t", "G04", (A, '("T"i / " ")', '("T" / " ")'),
    rule("dateTime", ('"t"', '"T"'), ("ignoreCase: true", "ignoreCase: false"), ('"\\"T\\"i"', '"\\"T\\""')))
bug("b-both-z", "G04", (A, '"Z"i', '"Z"'),
    rule("timeOffset", ('"z"', '"Z"'), ("ignoreCase: true", "ignoreCase: false"), ('"\\"Z\\"i"', '"\\"Z\\""')))
bug("b-both-not", "G07", (A, '"NOT" space / ', '"NOT" space? / '),
    rule("logicalNOT", ("&ruleRefExpr{\n								pos:  position{line: 432, col: 21, offset: 10097},\n								name: \"space\",\n							},\n", "&zeroOrOneExpr{\n								pos: position{line: 432, col: 21, offset: 10097},\n								expr: &ruleRefExpr{\n									pos:  position{line: 432, col: 21, offset: 10097},\n									name: \"space\",\n								},\n							},\n")))
bug("b-both-hex", "G04 P07", (A, "HexDigit <- [0-9a-f]i", "HexDigit <- [0-9a-f]"),
    rule("HexDigit", ('[0-9a-f]i', '[0-9a-f]'), ("ignoreCase: true", "ignoreCase: false")))
bug("b-both-escape", "G04 P07", (A, 'SingleCharEscape <- ["\\\\bfnrt]', 'SingleCharEscape <- ["\\\\bnrt]'),
    rule("SingleCharEscape", ('bfnrt', 'bnrt'), ("'f', ", "")))
bug("b-both-offset", "G04", (A, "timeNumoffset <- ('+' / '-') ", "timeNumoffset <- '+' "),
    rule("timeNumoffset", (GEN[GEN.index("&choiceExpr{", GEN.index('\t\t\tname: "timeNumoffset"')):GEN.index("&ruleRefExpr{", GEN.index('\t\t\tname: "timeNumoffset"'))], '&litMatcher{\n						pos:        position{line: 417, col: 19, offset: 9755},\n						val:        "+",\n						ignoreCase: false,\n						want:       "\\"+\\"",\n					},\n					')))
bug("b-both-trail", "G07", (A, "Query <- _ clause:OrClause _ {", "Query <- _ clause:OrClause {"),
    rule("Query", ("						&ruleRefExpr{\n							pos:  position{line: 187, col: 28, offset: 4364},\n							name: \"_\",\n						},\n", "")))
bug("b-both-true", "G04 P07", (A, '("false" / "true")', '("false" / "true"i)'),
    rule("BoolValue", ('val:        "true",\n							ignoreCase: false,\n							want:       "\\"true\\"",', 'val:        "true",\n							ignoreCase: true,\n							want:       "\\"true\\"i",')))
bug("b-both-or", "G03 G04", (A, 'logicalOR <- "OR"', 'logicalOR <- "OR" / "or"'), alternative("logicalOR", "or"))
bug("b-both-or-and", "G03 G04", (A, 'logicalOR <- "OR"', 'logicalOR <- "OR" / "AND"'), alternative("logicalOR", "AND"))
ref("r-both-bool", ALL, (A, '("false" / "true")', '("true" / "false")'),
    rule("BoolValue", ('"false",', '"fa",'), ('"\\"false\\""', '"\\"fa\\""'), ('"true",', '"false",'), ('"\\"true\\""', '"\\"false\\""'), ('"fa",', '"true",'), ('"\\"fa\\""', '"\\"true\\""')))
ref("r-both-rename", ALL, (A, "IPValue <- Octet '.' Octet '.' Octet '.' Octet CIDRBlock?", "IPValue <- byte '.' byte '.' byte '.' byte CIDRBlock?"), (A, "Octet <- [", "byte <- ["),
    rule("IPValue", ('"Octet"', '"byte"')), rule("Octet", ('"Octet"', '"byte"')))
ref("r-both-secfrac", ALL, (A, "timeSecfrac <- '.' [0-9]+", "timeSecfrac <- '.' [0-9] [0-9]*"),
    rule("timeSecfrac", ("&oneOrMoreExpr{\n						pos: position{line: 416, col: 20, offset: 9731},\n						expr: &charClassMatcher{", "&charClassMatcher{\n							pos:        position{line: 416, col: 20, offset: 9731},\n							val:        \"[0-9]\",\n							ranges:     []rune{'0', '9'},\n							ignoreCase: false,\n							inverted:   false,\n						},\n					&zeroOrMoreExpr{\n						pos: position{line: 416, col: 25, offset: 9731},\n						expr: &charClassMatcher{")))

bug("b-both-and-opt", "G07", (A, "lhs:NotClause space logicalAND space", "lhs:NotClause _ logicalAND space"),
    rule("AndClause", ('col: 28, offset: 4616},\n									name: "space"', 'col: 28, offset: 4616},\n									name: "_"')))
bug("b-both-or-tight", "G07", (A, "lhs:AndClause space logicalOR space", "lhs:AndClause space logicalOR _"),
    (N, 'name: "logicalOR",\n								},\n								&ruleRefExpr{\n									pos:  position{line: 195, col: 43, offset: 4456},\n									name: "space"', 'name: "logicalOR",\n								},\n								&ruleRefExpr{\n									pos:  position{line: 195, col: 43, offset: 4456},\n									name: "_"'))
bug("b-both-space-tab", "G07", (A, "space <- [ \\n\\t\\r]+", "space <- [ \\n\\r]+"),
    rule("space", ('"[ \\\\n\\\\t\\\\r]"', '"[ \\\\n\\\\r]"'), (", '\\t'", "")))
bug("b-both-bang", "G07", (A, "'!' space?", "'!'"),
    rule("logicalNOT", (GEN[GEN.index("&seqExpr{\n						pos: position{line: 432, col: 29"):GEN.index('\n				},\n			},\n		},\n		{\n			name: "opNoArgs"')], '&litMatcher{\n						pos:        position{line: 432, col: 29, offset: 10105},\n						val:        "!",\n						ignoreCase: false,\n						want:       "\\"!\\"",\n					},')))
