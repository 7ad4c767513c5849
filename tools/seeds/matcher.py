SEEDS = []
HEAD = '''
package jsonmatcher_test

import (
	"testing"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func match(t *testing.T, query, doc string) bool {
	t.Helper()
	m, err := jsonmatcher.NewMatcher(query)
	if err != nil {
		t.Fatal(err)
	}
	ok, err := m.Match([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	return ok
}

'''
def seed(id, prop, needs, breaks, body, edit=None, head=HEAD, **kw):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, pkg="jsonmatcher", edit=edit or id,
                      demo=head + "func TestDemo(t *testing.T) {\n" + body + "}\n", **kw))

seed("b-or-xor", "M01", "a document for which both operands of an OR match", "OR is false when both operands are true", '''	if !match(t, `a:1 OR b:2`, `{"a":1,"b":2}`) {
		t.Fatal("both operands match but the disjunction does not")
	}
''')
seed("b-net-bad-break", "M03", "a text with a malformed network before a matching address", "a malformed network stops the search for further addresses", '''	if !match(t, `a:10.0.0.0/8`, `{"a":"from 300.1.2.3/8 to 10.1.2.3"}`) {
		t.Fatal("the second address is in the network")
	}
''')
seed("b-skip-break", "M04", "an array with an unreadable element before the matching one", "a value that is no number ends the search", '''	if !match(t, `a:>3`, `{"a":["n/a",5]}`) {
		t.Fatal("5 is greater than 3")
	}
''')
seed("b-null-first", "M06", "a path denoting several values, the first null and a later one not", "null looks at the first value only", '''	if match(t, `a.b:null`, `{"a":[{"b":null},{"b":1}]}`) {
		t.Fatal("not every value is null")
	}
''')
seed("b-valid-trim", "M07", "a malformed document that begins with a brace", "malformed objects are matched instead of rejected", '''	m, err := jsonmatcher.NewMatcher(`a:1`)
	if err != nil {
		t.Fatal(err)
	}
	if ok, err := m.Match([]byte(`{"a":1,`)); err == nil || ok {
		t.Fatalf("malformed JSON gave %v, %v", ok, err)
	}
''')
seed("b-expr-mark-perexpr", "M10", "evaluating a test on a document without the field", "tests of absent fields are not counted", '''	m, err := jsonmatcher.NewMatcher(`a:1`)
	if err != nil {
		t.Fatal(err)
	}
	m.Match([]byte(`{"a":1}`))
	m.Match([]byte(`{"b":1}`))
	if n := m.Stats().TimesChecked; n != 2 {
		t.Fatalf("checked %d times instead of 2", n)
	}
''')
