SEEDS = []
def seed(id, prop, needs, breaks, pkg, demo, edit=None):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, pkg=pkg, edit=edit or id, demo=demo))

SAMPLE = '''
package sampler_test

import (
	"sort"
	"strings"
	"testing"

	"github.com/flowchartsman/aql/sampler"
)

func list(keys []string) string {
	sort.Strings(keys)
	return strings.Join(keys, ",")
}

func TestDemo(t *testing.T) {
%s}
'''
seed("b-smp-null", "S01", "a document with an explicit null", "a key whose only value is null is not recorded", "sampler", SAMPLE % '''	s := sampler.New(-1)
	if err := s.Sample([]byte(`{"a":1,"b":{"c":null}}`)); err != nil {
		t.Fatal(err)
	}
	if got := list(s.Keys()); got != "a,b.c" {
		t.Fatal(got)
	}
''')
seed("b-smp-long-key", "S01", "a key of more than 255 characters", "long keys and everything below them are not recorded", "sampler", SAMPLE % '''	s := sampler.New(-1)
	k := strings.Repeat("k", 300)
	if err := s.Sample([]byte(`{"` + k + `":{"c":1}}`)); err != nil {
		t.Fatal(err)
	}
	if got := list(s.Keys()); got != k+".c" {
		t.Fatal(got)
	}
''')
seed("b-smp-reset-keys", "S03", "keys listed after a reset", "keys seen before a reset are still listed", "sampler", SAMPLE % '''	s := sampler.New(-1)
	if err := s.Sample([]byte(`{"a":1}`)); err != nil {
		t.Fatal(err)
	}
	s.Reset()
	if err := s.Sample([]byte(`{"b":1}`)); err != nil {
		t.Fatal(err)
	}
	if got := list(s.Keys()); got != "b" {
		t.Fatal(got)
	}
	if got := list(s.KeysAtThreshold(0)); got != "b" {
		t.Fatal(got)
	}
''')
seed("b-smp-thresh-int", "S03", "a percentage of a number of documents that is not whole", "a key below the percentage is listed", "sampler", SAMPLE % '''	s := sampler.New(-1)
	for _, d := range []string{`{"a":1}`, `{"b":1}`, `{"b":1}`} {
		if err := s.Sample([]byte(d)); err != nil {
			t.Fatal(err)
		}
	}
	if got := list(s.KeysAtThreshold(50)); got != "b" {
		t.Fatal(got)
	}
''')

MATCH = '''
package jsonmatcher_test

import (
	"testing"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func TestDemo(t *testing.T) {
	for _, c := range []struct {
		query, doc string
		want       bool
	}{
%s	} {
		m, err := jsonmatcher.NewMatcher(c.query)
		if err != nil {
			t.Fatal(c.query, err)
		}
		if got, err := m.Match([]byte(c.doc)); err != nil || got != c.want {
			t.Fatalf("%%s on %%s: %%v, %%v", c.query, c.doc, got, err)
		}
	}
}
'''
seed("b-str-mid-quote", "M12", "a character with a meaning in patterns before a wildcard", "the text before a wildcard is taken for a pattern", "jsonmatcher", MATCH % '''		{`a:"x.y*"`, `{"a":"xzy1"}`, false},
		{`a:"x.y*"`, `{"a":"x.y1"}`, true},
''')
seed("b-str-esc-last", "M12", "an escaped wildcard at the end of the literal", "an escaped wildcard at the end is a wildcard", "jsonmatcher", MATCH % '''		{`a:"b\\\\?"`, `{"a":"b?"}`, true},
		{`a:"b\\\\?"`, `{"a":"bc"}`, false},
''')
seed("b-str-uni-start", "M12", "a text that begins with a literal that is not ASCII", "a match at the beginning of the text is missed", "jsonmatcher", MATCH % '''		{`a:"é"`, `{"a":"été"}`, true},
		{`a:"é"`, `{"a":"l'été"}`, true},
''')
seed("b-str-long", "M12", "a literal of more than 256 characters", "only the beginning of a long literal is looked for", "jsonmatcher", '''
package jsonmatcher_test

import (
	"strings"
	"testing"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func TestDemo(t *testing.T) {
	long := strings.Repeat("a ", 150)
	m, err := jsonmatcher.NewMatcher(`a:"` + long + `end"`)
	if err != nil {
		t.Fatal(err)
	}
	if got, err := m.Match([]byte(`{"a":"` + long + `other"}`)); err != nil || got {
		t.Fatal(got, err)
	}
}
''')
seed("b-num-i32", "N01", "an integer beyond 32 bits", "large integers are compared modulo 2^32", "jsonmatcher", MATCH % '''		{`a:4294967296`, `{"a":0}`, false},
		{`a:<4294967297`, `{"a":5}`, true},
''')

FMT = '''
package fmtmsg_test

import (
	"strings"
	"testing"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
)

var _ = strings.Repeat
var _ parser.MessageType

type msg struct{ pos ast.Pos }

func (m msg) Pos() ast.Pos    { return m.pos }
func (m msg) Message() string { return "a < b" }

func show(t *testing.T, tmpl string, html bool, width int, query string, m fmtmsg.Message) string {
	f, err := fmtmsg.NewFormatter(tmpl, html, width)
	if err != nil {
		t.Fatal(err)
	}
	return f.WithQuery(query).Sprint(m)
}

func TestDemo(t *testing.T) {
%s}
'''
seed("b-fmt-dots-pre", "F01", "a window that begins at the second character", "no dots stand for a single missing character", "parser/fmtmsg", FMT % '''	query := "0123456789abcdefghij"
	for width := 1; width < 20; width++ {
		for off := 0; off < 20; off++ {
			m := msg{ast.Pos{Line: 1, Col: off + 1, Offset: off, Len: 1}}
			pre := show(t, "{{.QueryPre}}", false, width, query, m)
			if !strings.HasPrefix(pre, "...") && pre != query[:off] {
				t.Fatal(width, off, pre)
			}
		}
	}
''')
seed("b-fmt-offset-dots", "F02", "a query that is cut off on the left", "the marks stand one column too far to the right", "parser/fmtmsg", FMT % '''	query := strings.Repeat("x", 50) + "!" + strings.Repeat("y", 50)
	m := msg{ast.Pos{Line: 1, Col: 51, Offset: 50, Len: 1}}
	lines := strings.Split(show(t, "{{.Query}}\\n{{pad .HLStrOffset}}^", false, 20, query, m), "\\n")
	if strings.Index(lines[0], "!") != strings.Index(lines[1], "^") {
		t.Fatalf("%q", lines)
	}
''')
seed("b-fmt-hint", "F03", "a hint", "hints are labelled as warnings", "parser/fmtmsg", FMT % '''	hints := &parser.ParserMessage{Type: parser.MsgHint, Position: ast.NoPosition(), Msg: "x"}
	if got := show(t, "{{.Type}}", false, 0, "a:1", hints); got != "info" {
		t.Fatal(got)
	}
''')
seed("b-fmt-html-not", "F03", "a formatter for HTML with a width", "messages are not escaped when a width is set", "parser/fmtmsg", FMT % '''	for _, width := range []int{0, 40} {
		if got := show(t, "<p>{{.Message}}</p>", true, width, "a:1", msg{ast.NoPosition()}); got != "<p>a &lt; b</p>" {
			t.Fatal(width, got)
		}
	}
''')

GRAPH = '''
package aqlgraph_test

import (
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"github.com/flowchartsman/aql/aqlgraph"
)

var _ = regexp.MustCompile

func dot(t *testing.T, query string) string {
	g, err := aqlgraph.QueryGraph(query)
	if err != nil {
		t.Fatal(err)
	}
	f := filepath.Join(t.TempDir(), "g.dot")
	if err := g.OutputDOT(f); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

func TestDemo(t *testing.T) {
%s}
'''
seed("b-gr-not-child", "V01", "a negation of a parenthesised negation", "two nested negations are drawn as none", "aqlgraph", GRAPH % '''	if out := dot(t, `NOT (NOT a:1)`); strings.Count(out, "label=NOT") != 2 {
		t.Fatal(out)
	}
''')
seed("b-gr-vals-one", "V01", "a test with more than two values", "the graph leaves out the third value and all after it", "aqlgraph", GRAPH % '''	out := dot(t, `a:(11,22,33,44)`)
	for _, v := range []string{">11<", ">22<", ">33<", ">44<"} {
		if !strings.Contains(out, v) {
			t.Fatal(v, out)
		}
	}
''')
seed("b-gr-noesc-value", "V02", "an operator with a character that has a meaning in markup", "the label of an ordering test is not well-formed", "aqlgraph", GRAPH % '''	out := dot(t, `a:<1`)
	if regexp.MustCompile(`<TD[^>]*><</TD>`).MatchString(out) || !strings.Contains(out, "&lt;") {
		t.Fatal(out)
	}
''')
seed("b-gr-name-mod", "V01", "a query of more than 32 nodes", "names are used again and the nodes run together", "aqlgraph", GRAPH % '''	out := dot(t, "f:0"+strings.Repeat(" AND f:0", 60))
	if n := strings.Count(out, "label=AND"); n != 60 {
		t.Fatal(n)
	}
''')

GRAM = '''
package parser_test

import (
	"strconv"
	"strings"
	"testing"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

var _ = strings.Repeat
var _ = strconv.Itoa
var _ ast.Node

func parse(t *testing.T, query string) ast.Node {
	n, err := parser.ParseQuery(query)
	if err != nil {
		t.Fatal(query, err)
	}
	return n
}

func TestDemo(t *testing.T) {
%s}
'''
seed("b-not-twice", "G03", "a negation of a parenthesised negation", "two negations in a row vanish from the tree", "parser", GRAM % '''	n, ok := parse(t, `NOT (NOT a:1)`).(*ast.NotNode)
	if !ok {
		t.Fatal("no negation")
	}
	if _, ok := n.Expr.(*ast.NotNode); !ok {
		t.Fatal("no negation below")
	}
''')
seed("b-values-cap", "G04", "a list of more than 512 values", "the values after the 512th are lost", "parser", GRAM % '''	q := []string{}
	for i := 1000; i < 1600; i++ {
		q = append(q, strconv.Itoa(i))
	}
	n := parse(t, "a:("+strings.Join(q, ",")+")").(*ast.ExprNode)
	if len(n.RVals) != 600 {
		t.Fatal(len(n.RVals))
	}
''')
seed("b-star-first", "G04", "a path with two star segments", "a second star segment stays in the path", "parser", GRAM % '''	n := parse(t, "a.*.b.*.c:1").(*ast.ExprNode)
	if strings.Join(n.Field, "/") != "a/b/c" {
		t.Fatal(n.Field)
	}
''')
seed("b-pos-bytes", "P06", "a literal with a character of more than one byte", "the length of a position is in bytes", "parser", GRAM % '''	n := parse(t, `a:"é"`).(*ast.ExprNode)
	if l := n.RVals[0].Pos().Len; l != 3 {
		t.Fatal(l)
	}
''')
seed("b-kind-pos", "P06", "the third or a later argument is of the wrong kind", "the error stands at the argument before the wrong one", "parser", GRAM % '''	_, err := parser.ParseQuery(`a:~("b","c",1)`)
	pe, ok := err.(*parser.ParseError)
	if !ok || pe.Position.Offset != 12 {
		t.Fatalf("%+v", err)
	}
''')
seed("b-time-trunc", "P07", "a timestamp with a fraction of a second", "fractions of a second are dropped", "parser", GRAM % '''	n := parse(t, `a:2020-01-02T03:04:05.5Z`).(*ast.ExprNode)
	if ns := n.RVals[0].(*ast.TimeVal).Value().Nanosecond(); ns != 500000000 {
		t.Fatal(ns)
	}
''')
seed("b-float-32", "P07", "a decimal number with more than twenty characters", "some decimal numbers are rounded to single precision", "parser", GRAM % '''	n := parse(t, `a:0.1234567890123456789012`).(*ast.ExprNode)
	if v := n.RVals[0].(*ast.FloatVal).Value(); v != 0.1234567890123456789012 {
		t.Fatal(v)
	}
''')
seed("b-print-vals", "P08", "a test with more than two values", "the third value and all after it are not printed", "parser", GRAM % '''	if s := parse(t, `a:(11,22,33)`).String(); !strings.Contains(s, "33") {
		t.Fatal(s)
	}
''')
seed("b-msg-cap", "P04", "more than 100 messages", "messages after the hundredth are lost", "parser", '''
package parser_test

import (
	"strings"
	"testing"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

func TestDemo(t *testing.T) {
	mv := parser.NewMessageVisitor(func(n ast.Node, tape *parser.MessageTape) error {
		tape.Warning("seen")
		return nil
	})
	if _, err := parser.ParseQuery("f:0"+strings.Repeat(" AND f:0", 150), parser.Visitors(mv)); err != nil {
		t.Fatal(err)
	}
	if n := len(mv.Messages()); n != 301 {
		t.Fatal(n)
	}
}
''')
seed("b-memo-max", "G02", "deeply nested parentheses in a long query", "nesting beyond the first 2048 positions is not parsed in time or not at all", "parser", '''
package parser_test

import (
	"strings"
	"testing"
	"time"

	"github.com/flowchartsman/aql/parser"
)

func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		q := strings.Repeat("f:0 AND ", 400) + strings.Repeat("(", 20) + "a:1" + strings.Repeat(")", 20)
		if _, err := parser.ParseQuery(q); err != nil {
			t.Error(err)
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("too slow")
	}
}
''')

seed("b-srv-fallback", "W01", "a request for a file that is not listed", "any file below the directory is served", "wasm/aqlparse/server", '''
package main

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	for _, n := range []string{"style.css", "secret"} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte("x"), 0o600); err != nil {
			t.Fatal(err)
		}
	}
	os.Args = []string{"server", dir}
	d := new(DiskFS)
	d.AddFile(filepath.Join(dir, "style.css"))
	f, err := d.Open("style.css")
	if err != nil {
		t.Fatal(err)
	}
	f.Close()
	if f, err := d.Open("secret"); err == nil {
		f.Close()
		t.Fatal("opened a file that is not listed")
	}
}
''')

SH = '''#!/bin/bash
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/tool" ./cmd/%s || exit 2
cd "$tmp" || exit 2
%s'''
def shseed(id, prop, needs, breaks, tool, sh):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edit=id, sh=SH % (tool, sh)))
shseed("b-cmd-gr-dot-err", "C01", "a DOT file that cannot be written", "the tool exits zero although nothing was written", "aqlgraph", '''./tool 'a:1' ok.dot || exit 1
[ -s ok.dot ] || exit 1
if ./tool 'a:1' missing/dir/out.dot; then echo "exit status 0"; exit 1; fi
exit 0
''')
shseed("b-cmd-match-ignored", "C01", "a document that is not JSON", "the tool prints a result for a document it could not match", "aqltest", '''printf '{"a":1}' > good.json
printf '{"a":' > bad.json
[ "$(./tool 'a:1' good.json 2>/dev/null | head -n 1)" = true ] || exit 1
out=$(./tool 'a:1' bad.json 2>/dev/null) && exit 1
[ -z "$out" ] || { echo "printed $out"; exit 1; }
''')
shseed("b-cmd-gr-case", "C01", "an output file with an extension in upper case", "a file name in upper case is refused", "aqlgraph", '''./tool 'a:1' out.SVG || exit 1
[ -s out.SVG ] || exit 1
''')

seed("b-both-not", "G07", "a field whose name begins with NOT", "a test of a field like NOTE is taken for a negation", "parser", GRAM % '''	n, ok := parse(t, `NOTE:1`).(*ast.ExprNode)
	if !ok || n.Field[0] != "NOTE" {
		t.Fatal("not a test of the field")
	}
''')
seed("b-both-blank", "G07", "a carriage return between tokens", "queries with carriage returns are refused", "parser", GRAM % '''	for _, q := range []string{"\\r\\na:1", "a:1\\r\\n", "a:(1,\\r2)", "a :\\r>\\r1"} {
		if got, want := parse(t, q).String(), parse(t, strings.ReplaceAll(q, "\\r", " ")).String(); got != want {
			t.Fatal(got, want)
		}
	}
''')
seed("b-both-bang", "G07", "a blank after an exclamation mark", "a negation set off by a blank is refused", "parser", GRAM % '''	if _, ok := parse(t, "! a:1").(*ast.NotNode); !ok {
		t.Fatal("no negation")
	}
''')
seed("b-late-trim", "P06", "a query that begins with blanks", "all positions are off by the blanks before the query", "parser", GRAM % '''	n, ok := parse(t, "  \\n field:1").(*ast.ExprNode)
	if !ok || n.RVals[0].Pos().Offset != 10 || n.RVals[0].Pos().Line != 2 {
		t.Fatal(n.RVals[0].Pos())
	}
''')
seed("b-late-tab", "P07", "a tabulator within a quoted text", "malformed literals are accepted with another value", "parser", GRAM % '''	if n, err := parser.ParseQuery("a:\\"x\\ty\\""); err == nil {
		t.Fatal("parsed as", n)
	}
''')
seed("b-late-genlimit", "G01", "a query of more than 64 KB", "what comes after 64 KB is silently ignored", "parser", GRAM % '''	q := `a:1` + strings.Repeat(" ", 1<<16) + `) this is no query`
	if _, err := parser.ParseQuery(q); err == nil {
		t.Fatal("parsed")
	}
''')
seed("b-late-lastvisitor", "P04", "a visitor given after one that records an error", "the recorded error is ignored and the query accepted", "parser", GRAM % '''	bad := parser.NewMessageVisitor(func(n ast.Node, tape *parser.MessageTape) error {
		tape.Error("refused")
		return nil
	})
	other := parser.VisitorFunc(func(n ast.Node) error { return nil })
	if _, err := parser.ParseQuery(`a:1`, parser.Visitors(bad, other)); err == nil {
		t.Fatal("parsed")
	}
''')
MATCH = '''
package jsonmatcher_test

import (
	"strings"
	"testing"

	"github.com/flowchartsman/aql/jsonmatcher"
)

var _ = strings.Repeat

func TestDemo(t *testing.T) {
	query, doc, want := %s
	m, err := jsonmatcher.NewMatcher(query)
	if err != nil {
		t.Fatal(err)
	}
	if got, err := m.Match([]byte(doc)); err != nil || got != want {
		t.Fatal(got, err)
	}
}
'''
seed("b-end-docutf8-M12", "M12", "a text with an escaped backslash before a slash", "a backslash in a text is lost before it is searched", "jsonmatcher", MATCH % '''`a:"x/y"`, `{"a":"x\\\\/y"}`, false''')
seed("b-end-doccut-M02", "M02", "a document of more than 1 MB", "numbers at its end are not compared", "jsonmatcher", MATCH % '''`a:>1`, `{"b":"` + strings.Repeat("x", 1<<20) + `","a":2}`, true''')
seed("b-end-path-M03", "M03", "a path with the same name twice", "the field is looked for in another place", "jsonmatcher", MATCH % '''`a.a:1`, `{"a":1}`, false''')
seed("b-end-path-M06", "M06", "a path with the same name twice", "the field is said to exist when it does not", "jsonmatcher", MATCH % '''`a.a:exists`, `{"a":1}`, false''')
