SEEDS = []
def seed(id, prop, needs, breaks, pkg, demo, edit=None, flags=""):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, pkg=pkg, edit=edit or id, demo=demo, flags=flags))

ADVICE = '''
package jsonmatcher_test

import (
	"testing"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func TestDemo(t *testing.T) {
	m, err := jsonmatcher.NewMatcher(`%s`)
	if err != nil {
		t.Fatal(err)
	}
	var at []int
	for _, msg := range m.Messages() {
		at = append(at, msg.Pos().Offset)
	}
	want := []int{%s}
	if len(at) != len(want) {
		t.Fatalf("messages at %%v instead of %%v", at, want)
	}
	for i := range want {
		if at[i] != want[i] {
			t.Fatalf("messages at %%v instead of %%v", at, want)
		}
	}
}
'''
seed("b-adv-sim-str", "P09", "two or more strings compared with ~", "strings in a list get no deprecation warning", "jsonmatcher", ADVICE % ('field:~("one","two")', "8, 14"))
seed("b-adv-pos-first", "P09", "a full timestamp that is not the first of a list", "the warning about a timestamp stands at another literal", "jsonmatcher", ADVICE % ('field:(2020-01-02,2020-01-02T03:04:05Z)', "18"))
seed("b-adv-stop", "P09", "a network before other literals", "no advice is given after a network", "jsonmatcher", ADVICE % ('addr:10.0.0.0/8 AND when:2020-01-02T03:04:05Z', "25"))

STATS = '''
package jsonmatcher

import (
	"encoding/json"
	"strings"
	"testing"

	"github.com/buger/jsonparser"
)

func TestDemo(t *testing.T) {
	s := NewFieldStats(expectString)
	for i := 0; i < %d; i++ {
		s.mark([]jsonValue{%s}, 0, %s)
	}
	b, err := s.MarshalJson()
	if err != nil {
		t.Fatal(err)
	}
	var out struct {
		Encountered map[string]struct {
			Seen     int      `json:"times_seen"`
			Examples []string `json:"examples"`
		} `json:"encountered"`
	}
	if err := json.Unmarshal(b, &out); err != nil {
		t.Fatal(err)
	}
	%s
	_ = strings.Contains
}
'''
seed("b-fs-inarray", "M13", "an object found in an array", "objects in arrays are counted as objects outside arrays", "jsonmatcher", STATS % (3, "{data: []byte(`{}`), dataType: jsonparser.Object}", "true", '''if out.Encountered["object (in array)"].Seen != 3 {
		t.Fatalf("%s", b)
	}'''))
seed("b-fs-empty-str", "M13", "an empty string at a thousandth recording, followed by others", "an empty example hides all examples after it", "jsonmatcher", STATS % (1000, '{data: []byte(""), dataType: jsonparser.String}, {data: []byte("b"), dataType: jsonparser.String}', "false", '''if n := len(out.Encountered["string"].Examples); n != 2 {
		t.Fatalf("%d examples: %s", n, b)
	}'''))
seed("b-fs-early-return", "M13", "several values at a thousandth recording", "values after an example are not counted", "jsonmatcher", STATS % (1000, "{data: []byte(`1`), dataType: jsonparser.Number}, {data: []byte(`true`), dataType: jsonparser.Boolean}", "false", '''if out.Encountered["boolean"].Seen != 1000 {
		t.Fatalf("%s", b)
	}'''))
seed("b-fs-nolock", "M13", "examples read while one is added", "examples are read without the lock", "jsonmatcher", '''
package jsonmatcher

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var el ExampleList
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				el.addExample("an example")
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				el.Get()
			}
		}()
	}
	wg.Wait()
}
''', flags=" -race")

MSG = '''
package parser_test

import (
	"testing"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

func TestDemo(t *testing.T) {
	%s
}
'''
seed("b-msg-offset-zero", "P10", "a message about the beginning of the query", "the position of a message at the first character is not shown", "parser", MSG % '''m := &parser.ParserMessage{Position: ast.Pos{Line: 1, Col: 1, Offset: 0, Len: 3}, Msg: "text", Type: parser.MsgHint}
	if got := m.String(); got != "HINT [1:1(0)]: text" {
		t.Fatal(got)
	}''')
seed("b-msg-fmt", "P10", "a message without position whose text has a percent sign", "percent signs in a message are taken for verbs", "parser", MSG % '''m := &parser.ParserMessage{Position: ast.NoPosition(), Msg: "100% of /a%sb/", Type: parser.MsgHint}
	if got := m.String(); got != "HINT: 100% of /a%sb/" {
		t.Fatal(got)
	}''')
seed("b-pos-start-zero", "P10", "a position in the first line", "the start of a position in the first line is none", "parser", MSG % '''_ = parser.MsgHint
	p := ast.Pos{Line: 1, Col: 4, Offset: 3, Len: 9}
	if s := p.Start(); s != (ast.Pos{Line: 1, Col: 4, Offset: 3, Len: 1}) {
		t.Fatal(s)
	}''')
