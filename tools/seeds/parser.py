SEEDS = []
def seed(id, prop, needs, breaks, pkg, demo, edit=None):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, pkg=pkg, edit=edit or id, demo=demo))

MATCH = '''
package jsonmatcher_test

import (
	"testing"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func TestDemo(t *testing.T) {
	m, err := jsonmatcher.NewMatcher(`%s`)
	if err != nil {
		t.Fatal(err)
	}
	if ok, err := m.Match([]byte(`%s`)); err != nil || !ok {
		t.Fatalf("got %%v, %%v", ok, err)
	}
}
'''
seed("b-path-empty-child", "M05", "a field whose value is the empty string", "a member holding an empty string counts as missing", "jsonmatcher", MATCH % ("a.b:exists", '{"a":{"b":""}}'))
seed("b-path-err-nil", "M05", "an array of objects whose matching element starts beyond 4096 bytes", "elements far into an array are not searched", "jsonmatcher", '''
package jsonmatcher_test

import (
	"strings"
	"testing"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func TestDemo(t *testing.T) {
	m, err := jsonmatcher.NewMatcher(`a.b:1`)
	if err != nil {
		t.Fatal(err)
	}
	doc := `{"a":[` + strings.Repeat(`{"c":2},`, 1000) + `{"b":1}]}`
	if ok, err := m.Match([]byte(doc)); err != nil || !ok {
		t.Fatalf("got %v, %v", ok, err)
	}
}
''')
seed("b-panic-subs", "M08", "a regular expression that is a repetition of one thing", "compiling such a query panics", "jsonmatcher", '''
package jsonmatcher_test

import (
	"testing"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func TestDemo(t *testing.T) {
	for _, q := range []string{"a:/b*/", "a:/(b|c)*/", "a:/b+/"} {
		if _, err := jsonmatcher.NewMatcher(q); err != nil {
			t.Fatal(err)
		}
	}
}
''')
seed("b-share-scratch", "M09", "two goroutines matching with one matcher that searches for a network", "matching writes state shared between callers", "jsonmatcher", '''
package jsonmatcher_test

import (
	"reflect"
	"sync"
	"testing"
	"unsafe"

	"github.com/flowchartsman/aql/jsonmatcher"
)

// words counts the words of memory reachable from a compiled matcher without
// following the counters of the statistics.
func snapshot(v reflect.Value, seen map[unsafe.Pointer]bool, out *[]uint64) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || seen[v.UnsafePointer()] {
			return
		}
		seen[v.UnsafePointer()] = true
		snapshot(v.Elem(), seen, out)
	case reflect.Interface:
		if !v.IsNil() {
			snapshot(v.Elem(), seen, out)
		}
	case reflect.Struct:
		if v.Type().PkgPath() == "sync/atomic" || v.Type().PkgPath() == "regexp" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			snapshot(v.Field(i), seen, out)
		}
	case reflect.Slice:
		*out = append(*out, uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			snapshot(v.Index(i), seen, out)
		}
	case reflect.String:
		*out = append(*out, uint64(v.Len()))
	case reflect.Bool:
		if v.Bool() {
			*out = append(*out, 1)
		}
	}
}

func TestDemo(t *testing.T) {
	m, err := jsonmatcher.NewMatcher("a:10.0.0.0/8")
	if err != nil {
		t.Fatal(err)
	}
	var before, after []uint64
	snapshot(reflect.ValueOf(m), map[unsafe.Pointer]bool{}, &before)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m.Match([]byte(`{"a":"11.1.2.3 12.1.2.3"}`))
		}()
	}
	wg.Wait()
	snapshot(reflect.ValueOf(m), map[unsafe.Pointer]bool{}, &after)
	if !reflect.DeepEqual(before, after) {
		t.Fatal("matching changed the compiled query")
	}
}
''')
seed("b-share-reorder", "M09", "a test with several literals, matched repeatedly", "a match replaces the first literal of the compiled query by the one that matched", "jsonmatcher", '''
package jsonmatcher_test

import (
	"testing"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func TestDemo(t *testing.T) {
	m, err := jsonmatcher.NewMatcher(`a:("x","y")`)
	if err != nil {
		t.Fatal(err)
	}
	for _, d := range []string{`{"a":"x"}`, `{"a":"y"}`, `{"a":"x"}`} {
		if ok, err := m.Match([]byte(d)); err != nil || !ok {
			t.Fatalf("%s: got %v, %v", d, ok, err)
		}
	}
}
''')
PARSE = '''
package parser_test

import (
	"errors"
	"testing"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

var (
	_ = errors.New
	_ ast.Node
)

func TestDemo(t *testing.T) {
'''
seed("b-dup-limit", "P01", "a list of more than 64 literals with a repetition after the 64th", "late repetitions in long lists are accepted", "parser", PARSE.replace('"testing"\n', '"fmt"\n\t"testing"\n', 1) + '''	q := "a:("
	for i := 0; i < 70; i++ {
		q += fmt.Sprintf("%d,", i)
	}
	if _, err := parser.ParseQuery(q + "69)"); err == nil {
		t.Fatal("the list repeats 69 but is accepted")
	}
}
''')
seed("b-between-swapped", "P01", "a range whose two times are the same instant", "an empty range of times is accepted", "parser", PARSE + '''	if _, err := parser.ParseQuery("a:><(2021-01-01T00:00:00Z,2021-01-01T01:00:00+01:00)"); err == nil {
		t.Fatal("a range from a time to itself is accepted")
	}
}
''')
seed("b-eq-regex-nil", "P02", "a list of literals containing the empty string", "an empty string literal is dropped from the compiled test", "jsonmatcher", MATCH % ('a:("","x")', '{"a":["","y"]}'))
seed("b-visitors-prepend", "P03", "two options that add visitors", "visitors of a later option run before those of an earlier one", "parser", PARSE + '''	var ran string
	v := func(name string) parser.Option {
		return parser.Visitors(parser.VisitorFunc(func(ast.Node) error {
			ran += name
			return parser.SkipAll
		}))
	}
	if _, err := parser.ParseQuery("a:1", v("1"), v("2")); err != nil || ran != "12" {
		t.Fatalf("ran %q, %v", ran, err)
	}
}
''')
seed("b-err-start", "P04", "a visitor that reports an error about a construct of several characters", "the error of a parse covers the first character instead of the construct", "parser", PARSE + '''	v := parser.NewMessageVisitor(func(n ast.Node, mt *parser.MessageTape) error {
		if e, ok := n.(*ast.ExprNode); ok {
			mt.ErrorAt(e.RVals[0].Pos(), "bad")
		}
		return nil
	})
	_, err := parser.ParseQuery("a:12345", parser.Visitors(v))
	var pe *parser.ParseError
	if !errors.As(err, &pe) || pe.Position != v.Messages()[0].Position {
		t.Fatalf("got %v", err)
	}
}
''')
seed("b-walk-right-first", "P05", "a query with OR and a visitor that depends on the order", "the right operand of OR is visited before the left", "parser", PARSE + '''	var got string
	v := parser.VisitorFunc(func(n ast.Node) error {
		if e, ok := n.(*ast.ExprNode); ok {
			got += e.Field[0]
		}
		return nil
	})
	if _, err := parser.ParseQuery("a:1 OR b:2", parser.Visitors(v)); err != nil || got != "ab" {
		t.Fatalf("visited %q, %v", got, err)
	}
}
''')
