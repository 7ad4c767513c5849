SEEDS = []
HEAD = '''
package jsonmatcher_test

import (
	"strconv"
	"strings"
	"testing"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func compile(t *testing.T, query string) *jsonmatcher.Matcher {
	t.Helper()
	m, err := jsonmatcher.NewMatcher(query)
	if err != nil {
		t.Fatal(err)
	}
	return m
}

func match(t *testing.T, m *jsonmatcher.Matcher, doc string) bool {
	t.Helper()
	ok, err := m.Match([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	return ok
}

var _ = strings.Repeat
var _ = strconv.Itoa

'''
def seed(id, prop, needs, breaks, body, edit=None, pkg="jsonmatcher", head=HEAD, flags=""):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, pkg=pkg, edit=edit or id, flags=flags,
                      demo=head + "func TestDemo(t *testing.T) {\n" + body + "}\n"))

seed("b-tr-negate", "M01", "a negation somewhere below another negation", "a negation below another one is dropped", '''	m := compile(t, `NOT (a:1 AND NOT b:2)`)
	if !match(t, m, `{"a":1,"b":2}`) {
		t.Fatal("the conjunction is false, so its negation is true")
	}
''')
seed("b-tr-lastpath", "P02", "two tests in a row of fields of the same depth and last name", "the second test looks at the field of the first", '''	m := compile(t, `a.id:1 OR b.id:2`)
	if !match(t, m, `{"a":{"id":5},"b":{"id":2}}`) {
		t.Fatal("the second field has the value")
	}
''')
seed("b-tr-limit", "M04", "an array of more than a thousand values", "the values after the 1024th are not considered", '''	m := compile(t, `a:7`)
	if !match(t, m, `{"a":[`+strings.Repeat("1,", 2000)+`7]}`) {
		t.Fatal("the last value matches")
	}
''')
seed("b-tr-statsname", "M11", "the same test twice in a query", "equal tests of a query share their counters", '''	m := compile(t, `a:1 OR (b:2 AND a:1)`)
	match(t, m, `{"b":2}`)
	for _, c := range []*jsonmatcher.MatchStats{m.Stats().Children[0], m.Stats().Children[1].Children[1]} {
		if c.TimesChecked != 1 {
			t.Fatalf("%s was checked %d times instead of once", c.NodeName, c.TimesChecked)
		}
	}
''')
seed("b-tr-notstats", "M10", "a disjunction whose right operand is a test that matches", "a test is counted twice", '''	m := compile(t, `a:1 OR b:2`)
	match(t, m, `{"b":2}`)
	if n := m.Stats().Children[1].TimesMatched; n != 1 {
		t.Fatalf("matched %d times instead of once", n)
	}
''')
seed("b-lim-advice", "P09", "a list of more than 50 literals", "literals of long lists get no advice", '''	list := ""
	for i := 0; i < 60; i++ {
		list += strconv.Itoa(i) + ","
	}
	m := compile(t, `a:(`+list+`2020-01-02T03:04:05Z)`)
	if n := len(m.Messages()); n != 1 {
		t.Fatalf("%d messages instead of one", n)
	}
''')
seed("b-lim-walk", "P05", "a query nested more than 500 levels deep", "visitors do not see the deep parts of a query", '''	n := 0
	v := parser.VisitorFunc(func(node ast.Node) error {
		if _, ok := node.(*ast.ExprNode); ok {
			n++
		}
		return nil
	})
	if _, err := parser.ParseQuery(strings.Repeat("a:1 AND ", 1000)+"a:1", parser.Visitors(v)); err != nil || n != 1001 {
		t.Fatalf("visited %d tests instead of 1001, %v", n, err)
	}
''', pkg="parser", head='''
package parser_test

import (
	"strings"
	"testing"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

''')
seed("b-deep40-build-not", "M01", "a negation below more than 40 connectives", "deep negations are lost", '''	q := `!a:1`
	for i := 0; i < 50; i++ {
		q = `(b:1 AND ` + q + `)`
	}
	if match(t, compile(t, q), `{"a":1,"b":1}`) {
		t.Fatal("matches")
	}
''')
seed("b-deep-notnot", "M10", "a negation of a negation", "the inner negation is never counted", '''	m := compile(t, `NOT (NOT a:1)`)
	match(t, m, `{"a":1}`)
	in := m.Stats().Children[0]
	if in.TimesChecked != 1 || in.Children[0].TimesChecked != 1 {
		t.Fatalf("counted %d and %d times", in.TimesChecked, in.Children[0].TimesChecked)
	}
''')
seed("b-deep40-stats", "M11", "a query nested more than 40 levels deep", "the report leaves out what is nested deeply", '''	q := `a:1`
	for i := 0; i < 50; i++ {
		q = `(b:1 AND ` + q + `)`
	}
	n := compile(t, q).Stats()
	for i := 0; i < 50; i++ {
		if len(n.Children) != 2 {
			t.Fatalf("%d operands at level %d", len(n.Children), i)
		}
		n = n.Children[1]
	}
''')
seed("b-deep40-path", "M05", "a path of more than 40 segments", "deep fields are taken for absent", '''	path, doc := "a", `1`
	for i := 0; i < 50; i++ {
		path, doc = path+".a", `{"a":`+doc+`}`
	}
	if !match(t, compile(t, path+`:1`), `{"a":`+doc+`}`) {
		t.Fatal("does not match")
	}
''')
