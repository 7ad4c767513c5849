SEEDS = []
def seed(id, prop, needs, breaks, pkg, demo, edit=None, flags=""):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, pkg=pkg, edit=edit or id, demo=demo, flags=flags))

seed("b-sh-visitors", "I01", "two parses with visitors under way at the same time", "one parse calls the visitors of the other", "parser", '''
package parser_test

import (
	"testing"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

func count(n *int) parser.Visitor {
	return parser.VisitorFunc(func(ast.Node) error { *n++; return nil })
}

func TestDemo(t *testing.T) {
	var last, other int
	nested := parser.VisitorFunc(func(ast.Node) error {
		_, err := parser.ParseQuery(`b:2`, parser.Visitors(count(&other), count(&other)))
		return err
	})
	if _, err := parser.ParseQuery(`a:1`, parser.Visitors(nested, count(&last))); err != nil {
		t.Fatal(err)
	}
	if last != 1 || other != 2 {
		t.Fatalf("visitors were called %d and %d times instead of 1 and 2", last, other)
	}
}
''')
seed("b-sh-ptr", "I01", "a second query compiled in the same process", "a matcher reports messages about other queries", "jsonmatcher", '''
package jsonmatcher_test

import (
	"testing"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func TestDemo(t *testing.T) {
	if _, err := jsonmatcher.NewMatcher(`when:2020-01-02T03:04:05Z`); err != nil {
		t.Fatal(err)
	}
	m, err := jsonmatcher.NewMatcher(`a:1`)
	if err != nil {
		t.Fatal(err)
	}
	if n := len(m.Messages()); n != 0 {
		t.Fatalf("%d messages about a query that needs none: %v", n, m.Messages()[0])
	}
}
''')
seed("b-sh-local", "I01", "a process whose local time zone is not UTC and a timestamp without zone", "whether a document matches depends on where the program runs", "jsonmatcher", '''
package jsonmatcher_test

import (
	"testing"
	"time"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func TestDemo(t *testing.T) {
	m, err := jsonmatcher.NewMatcher(`when:>2020-01-02T03:04:05Z`)
	if err != nil {
		t.Fatal(err)
	}
	doc := []byte(`{"when":"2020-01-02 03:04:06"}`)
	for _, h := range []int{0, -7, 9} {
		time.Local = time.FixedZone("here", h*3600)
		if ok, err := m.Match(doc); err != nil || !ok {
			t.Fatalf("%v %v in a zone %d hours from UTC", ok, err, h)
		}
	}
}
''')
RACE = '''
package %(pkg)s_test

import (
	"sync"
	"testing"
%(imports)s
)

func TestDemo(t *testing.T) {
%(before)s
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
%(body)s
			}
		}()
	}
	wg.Wait()
}
'''
seed("b-sh-seen", "I01", "two queries with lists compiled at the same time", "concurrent compilations use one set of arguments seen", "jsonmatcher", RACE % dict(pkg="jsonmatcher", imports='''
	"github.com/flowchartsman/aql/jsonmatcher"''', before="", body='''				if _, err := jsonmatcher.NewMatcher(`a:(1,2,3) OR b:("x","y")`); err != nil {
					t.Error(err)
				}'''), flags=" -race")
seed("b-ro-quote", "I02", "two goroutines that print the same tree", "printing a tree writes to it", "parser", RACE % dict(pkg="parser", imports='''
	"github.com/flowchartsman/aql/parser"''', before='''	root, err := parser.ParseQuery(`a:("x","y") AND b:"z"`)
	if err != nil {
		t.Fatal(err)
	}''', body='''				if s := root.String(); s != `(&& (== a ["x", "y"]) (== b "z"))` {
					t.Error(s)
				}'''), flags=" -race")
seed("b-ro-field", "I02", "a path with a segment that needs quotes, printed twice", "printing a path quotes the path itself", "jsonmatcher", '''
package jsonmatcher_test

import (
	"testing"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func TestDemo(t *testing.T) {
	m, err := jsonmatcher.NewMatcher(`a."b c":1`)
	if err != nil {
		t.Fatal(err)
	}
	if ok, err := m.Match([]byte(`{"a":{"b c":1}}`)); err != nil || !ok {
		t.Fatalf("%v %v", ok, err)
	}
}
''')
seed("b-ro-append", "I02", "a query longer than the width of a printer and two messages about it", "printing one message overwrites the query shown with the next", "parser/fmtmsg", '''
package fmtmsg_test

import (
	"strings"
	"testing"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
)

func TestDemo(t *testing.T) {
	query := strings.Repeat("abcdefghij", 8)
	f, err := fmtmsg.NewFormatter("{{.Query}}", false, 20)
	if err != nil {
		t.Fatal(err)
	}
	p := f.WithQuery(query)
	p.Sprint(&parser.ParserMessage{Type: parser.MsgHint, Position: ast.Pos{Line: 1, Col: 1, Offset: 0, Len: 1}})
	s := p.Sprint(&parser.ParserMessage{Type: parser.MsgHint, Position: ast.Pos{Line: 1, Col: 23, Offset: 22, Len: 2}})
	if !strings.Contains(query, strings.Trim(s, ".")) {
		t.Fatalf("shows %q of %q", s, query)
	}
}
''')
seed("b-late-longest", "M09", "two goroutines that match with the same matcher", "matching changes the regular expression it shares", "jsonmatcher", RACE % dict(pkg="jsonmatcher", imports='''
	"github.com/flowchartsman/aql/jsonmatcher"''', before='''	m, err := jsonmatcher.NewMatcher(`a:"x*"`)
	if err != nil {
		t.Fatal(err)
	}''', body='''				if ok, err := m.Match([]byte(`{"a":"xyz"}`)); err != nil || !ok {
					t.Error(ok, err)
				}'''), flags=" -race")
