package checks

import (
	"fmt"
	goast "go/ast"
	"go/parser"
	"go/token"
	"os"
	"slices"
	"sort"
	"strings"

	"aqlverify/prog"
)

func init() {
	All["G01"] = G01
	All["G05"] = G05
}

// G01: parsing terminates and consumes everything.
func G01(c *Ctx) {
	c.givenText()
	g := c.generatedGrammar()
	c.Rule("every rule referred to is defined; a thrown label is caught on every way from the first rule to it")
	c.Rule("no rule can call itself again before a character is consumed")
	c.Rule("nothing that can match without consuming is repeated")
	c.Rule("the first rule succeeds only at the end of the input, and it is the one parsing starts with")
	for _, r := range g.rules {
		r.expr.each(func(x *pexpr) {
			if x.kind == "ref" {
				c.Need(g.byName[x.str] != nil, "defined", "rule "+r.name, x.where, "refers to %s, which is not defined", x.str)
			}
		})
	}
	null := g.nullables()
	for _, r := range g.rules {
		r.expr.each(func(x *pexpr) {
			if x.kind == "star" || x.kind == "plus" {
				c.Need(!null(x.kids[0]), "repetition", "rule "+r.name, x.where, "repeats something that can match nothing: parsing does not end")
			}
		})
	}
	// left recursion
	calls := map[string][]string{}
	for _, r := range g.rules {
		calls[r.name] = g.leftCalls(r.expr, null)
	}
	for _, r := range g.rules {
		if way := cycle(calls, r.name); way != nil {
			c.Bad("left recursion", "rule "+r.name, r.where, "calls itself before consuming anything: %s", strings.Join(way, " -> "))
		} else {
			c.Ok("left recursion")
		}
	}
	// labels
	for _, r := range g.reachable() {
		r.expr.each(func(x *pexpr) {
			if x.kind == "throw" {
				way, bad := g.uncaught(x)
				c.Need(!bad, "labels", "label "+x.str, x.where, "is thrown but not caught when reached by %s", strings.Join(way, " -> "))
			}
		})
	}
	// the end
	c.Need(g.endsAtEOF(g.rules[0].expr), "whole input", "rule "+g.rules[0].name, g.rules[0].where, "the first rule can succeed before the end of the input")
	c.entryPoint(g)
	c.AtLeast("defined", 20)
	c.AtLeast("repetition", 5)
	c.AtLeast("left recursion", 20)
	c.AtLeast("whole input", 1)
	c.AtLeast("entry", 2)
}

func cycle(calls map[string][]string, from string) []string {
	seen := map[string]bool{}
	var way []string
	var visit func(n string) bool
	visit = func(n string) bool {
		way = append(way, n)
		for _, k := range calls[n] {
			if k == from {
				way = append(way, k)
				return true
			}
			if !seen[k] {
				seen[k] = true
				if visit(k) {
					return true
				}
			}
		}
		way = way[:len(way)-1]
		return false
	}
	if visit(from) {
		return way
	}
	return nil
}

// uncaught finds a way from the first rule to x on which its label is not caught.
func (g *peg) uncaught(x *pexpr) ([]string, bool) {
	seen := map[string]bool{}
	var way []string
	var visit func(r *prule) bool
	var walk func(y *pexpr) bool
	walk = func(y *pexpr) bool {
		if y == x {
			return true
		}
		if y.kind == "recover" && slices.Contains(y.labels, x.str) {
			return walk(y.kids[1])
		}
		if y.kind == "ref" {
			if r := g.byName[y.str]; r != nil {
				return visit(r)
			}
		}
		for _, k := range y.kids {
			if walk(k) {
				return true
			}
		}
		return false
	}
	visit = func(r *prule) bool {
		if seen[r.name] {
			return false
		}
		seen[r.name] = true
		way = append(way, r.name)
		if walk(r.expr) {
			return true
		}
		way = way[:len(way)-1]
		return false
	}
	return way, visit(g.rules[0])
}

// endsAtEOF reports whether x succeeds only at the end of the input.
func (g *peg) endsAtEOF(x *pexpr) bool {
	if g.isEOF(x) {
		return true
	}
	switch x.kind {
	case "ref":
		r := g.byName[x.str]
		return r != nil && g.endsAtEOFIn(r)
	case "action", "label":
		return g.endsAtEOF(x.kids[0])
	case "recover":
		return false
	case "choice":
		for _, k := range x.kids {
			if !g.endsAtEOF(k) {
				return false
			}
		}
		return true
	case "seq":
		// nothing consumes a character after the end, so that any part will do
		for _, k := range x.kids {
			if g.endsAtEOF(k) {
				return true
			}
		}
	case "plus":
		return g.endsAtEOF(x.kids[0])
	}
	return false
}

func (g *peg) endsAtEOFIn(r *prule) bool {
	// a rule in use counts as not ending
	saved := g.byName[r.name]
	g.byName[r.name] = nil
	ok := g.endsAtEOF(r.expr)
	g.byName[r.name] = saved
	return ok
}

// entryPoint shows that parsing starts with the first rule.
func (c *Ctx) entryPoint(g *peg) {
	pkg := c.P.Package("internal/grammar")
	// the entry point is only set by the parser's constructor and by an option
	entry := c.Fn("internal/grammar", "Entrypoint")
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if *op == entry && !(fn.Pkg != nil && fn.Pkg.Pkg == pkg.Types) && fn != entry {
						c.Bad("entry", prog.FnName(fn), c.P.Where(i.Pos()), "parsing is started with another rule than the first")
					}
				}
			}
		}
	}
	n := 0
	for _, f := range pkg.Syntax {
		goast.Inspect(f, func(x goast.Node) bool {
			kv, ok := x.(*goast.KeyValueExpr)
			if !ok {
				return true
			}
			if id, ok := kv.Key.(*goast.Ident); ok && id.Name == "entrypoint" {
				n++
				v := pkg.TypesInfo.Types[kv.Value].Value
				src := strings.Join(exprWords(kv.Value), "")
				ok := strings.HasSuffix(src, ".rules[0].name") || v != nil && v.String() == fmt.Sprintf("%q", g.rules[0].name)
				c.Need(ok, "entry", "start of parsing", c.P.Where(kv.Pos()), "parsing does not start with the first rule")
			}
			return true
		})
	}
	c.Need(n == 1, "entry", "start of parsing", "", "the rule parsing starts with is set at %d places", n)
}

func exprWords(e goast.Expr) []string {
	switch x := e.(type) {
	case *goast.Ident:
		return []string{x.Name}
	case *goast.SelectorExpr:
		return append(exprWords(x.X), ".", x.Sel.Name)
	case *goast.IndexExpr:
		return append(append(append(exprWords(x.X), "["), exprWords(x.Index)...), "]")
	case *goast.BasicLit:
		return []string{x.Value}
	case *goast.ParenExpr:
		return exprWords(x.X)
	}
	return []string{"?"}
}

// G05: the generated parser has the rules of the source.
func G05(c *Ctx) {
	gen := c.generatedGrammar()
	src, head := c.sourceGrammar()
	c.Rule("the rules of the generated parser and of the grammar source correspond one to one and in order, with the same expressions, texts, character classes and labels")
	c.Rule("the code of each action and helper is the same; where it is not, both are shown to do what the language needs (rules of G03, G04, P06 and P07)")
	for i := 0; i < len(gen.rules) || i < len(src.rules); i++ {
		switch {
		case i >= len(gen.rules):
			c.Bad("rules", "rule "+src.rules[i].name, src.rules[i].where, "is missing in the generated parser")
		case i >= len(src.rules):
			c.Bad("rules", "rule "+gen.rules[i].name, gen.rules[i].where, "is missing in the grammar source")
		case gen.rules[i].name != src.rules[i].name:
			c.Bad("rules", "rule "+gen.rules[i].name, gen.rules[i].where, "stands where the grammar source has %s (%s)", src.rules[i].name, src.rules[i].where)
			return
		default:
			c.Need(strings.Trim(gen.rules[i].display, "\"`'") == src.rules[i].display, "rules", "rule "+gen.rules[i].name, gen.rules[i].where, "has another display name than in the grammar source")
		}
	}
	if len(c.Viol) > 0 {
		return
	}
	d := &codeDiff{c: c, edits: map[string]string{}}
	for i, r := range gen.rules {
		d.compare(r.name, r.expr, src.rules[i].expr)
	}
	d.helpers(head.head)
	if len(c.Viol) == 0 && len(d.edits) > 0 {
		d.bothRight()
	}
	c.AtLeast("rules", 20)
	c.AtLeast("expressions", 100)
	c.AtLeast("code", 20)
}

type codeDiff struct {
	c     *Ctx
	edits map[string]string // functions whose code differs, with the code of the source
	decls map[string]string // other declarations of the source that differ
}

func (d *codeDiff) compare(rule string, a, b *pexpr) {
	c := d.c
	bad := func(format string, args ...any) {
		c.Bad("expressions", "rule "+rule, a.where, "differs from the grammar source (%s): %s", b.where, fmt.Sprintf(format, args...))
	}
	if a.kind != b.kind {
		bad("%s instead of %s", a.kind, b.kind)
		return
	}
	if len(a.kids) != len(b.kids) {
		bad("a %s of %d instead of %d parts", a.kind, len(a.kids), len(b.kids))
		return
	}
	c.Ok("expressions")
	switch a.kind {
	case "class":
		sa, oka := (&peg{}).charset(a)
		sb, okb := (&peg{}).charset(b)
		same := a.fold == b.fold && a.inverted == b.inverted && slices.Equal(a.chars, b.chars) && slices.Equal(a.ranges, b.ranges) && slices.Equal(a.classes, b.classes)
		if !same && !(oka && okb && slices.Equal(sa, sb)) {
			bad("character class %s instead of %s", a.str, b.str)
		}
	case "lit", "ref", "label", "throw":
		if a.str != b.str || a.fold != b.fold {
			bad("%q instead of %q", a.str, b.str)
		}
	case "recover":
		if !slices.Equal(a.labels, b.labels) {
			bad("labels %v instead of %v", a.labels, b.labels)
		}
	}
	if a.run != nil {
		f := c.action(a)
		fd, _ := f.fn.Syntax().(*goast.FuncDecl)
		if fd == nil || fd.Body == nil {
			c.Missing("the code of the action of rule " + rule)
		}
		c.Fns[prog.FnName(f.fn)] = true
		if a.kind == "action" {
			ls := b.labelsOf()
			var ps []string
			for _, p := range f.fn.Params[1:] {
				ps = append(ps, p.Name())
			}
			if !slices.Equal(f.labels, ls) || !slices.Equal(ps, ls) {
				bad("the action is given the labels %v as %v instead of %v", f.labels, ps, ls)
			}
		}
		if slices.Equal(tokens(c.text(fd.Body.Lbrace+1, fd.Body.Rbrace)), tokens(b.code)) {
			c.Ok("code")
		} else {
			d.edits[fd.Name.Name] = b.code
		}
	}
	for i := range a.kids {
		d.compare(rule, a.kids[i], b.kids[i])
	}
}

// text is the source between two positions.
func (c *Ctx) text(from, to token.Pos) string {
	p := c.P.Fset.PositionFor(from, false)
	q := c.P.Fset.PositionFor(to, false)
	b, err := os.ReadFile(p.Filename)
	if err != nil || q.Offset > len(b) {
		c.Missing("the source of " + p.Filename)
	}
	return string(b[p.Offset:q.Offset])
}

// helpers compares the code at the beginning of the grammar source.
func (d *codeDiff) helpers(head string) {
	c := d.c
	pkg := c.P.Package("internal/grammar")
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "head.go", head, parser.SkipObjectResolution)
	if err != nil {
		c.Bad("code", "helpers", "internal/grammar", "the code at the beginning of the grammar source is not valid: %v", err)
		return
	}
	src := declTexts(f, func(from, to token.Pos) string { return head[fs.Position(from).Offset:fs.Position(to).Offset] })
	gen := map[string]string{}
	for _, g := range pkg.Syntax {
		for k, t := range declTexts(g, c.text) {
			gen[k] = t
		}
	}
	var ks []string
	for k := range src {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	d.decls = map[string]string{}
	for _, k := range ks {
		t, ok := gen[k]
		switch {
		case ok && slices.Equal(tokens(t), tokens(src[k])):
			c.Ok("code")
		default:
			d.decls[k] = src[k]
			d.edits[k] = ""
		}
	}
}

// declTexts gives the text of functions and types by name.
func declTexts(f *goast.File, text func(from, to token.Pos) string) map[string]string {
	out := map[string]string{}
	for _, x := range f.Decls {
		switch x := x.(type) {
		case *goast.FuncDecl:
			n := x.Name.Name
			if x.Recv != nil {
				n = strings.Join(exprWords(star(x.Recv.List[0].Type)), "") + "." + n
			}
			out[n] = text(x.Type.Func, x.End())
		case *goast.GenDecl:
			if x.Tok == token.IMPORT {
				continue
			}
			for _, s := range x.Specs {
				switch s := s.(type) {
				case *goast.TypeSpec:
					out["type "+s.Name.Name] = text(s.Pos(), s.End())
				case *goast.ValueSpec:
					for _, n := range s.Names {
						out["value "+n.Name] = text(s.Pos(), s.End())
					}
				}
			}
		}
	}
	return out
}

func star(e goast.Expr) goast.Expr {
	if s, ok := e.(*goast.StarExpr); ok {
		return s.X
	}
	return e
}

// bothRight is used when the code differs: the program with the code of the
// grammar source put in place of the generated one must be as right as it.
func (d *codeDiff) bothRight() {
	c := d.c
	var names []string
	for k := range d.edits {
		names = append(names, k)
	}
	sort.Strings(names)
	overlay := map[string][]byte{}
	done := map[string]bool{}
	pkg := c.P.Package("internal/grammar")
	for _, f := range pkg.Syntax {
		file := c.P.Fset.PositionFor(f.Pos(), false).Filename
		b, err := os.ReadFile(file)
		if err != nil {
			c.Missing(file)
		}
		type edit struct {
			from, to int
			text     string
		}
		var es []edit
		off := func(p token.Pos) int { return c.P.Fset.PositionFor(p, false).Offset }
		for _, x := range f.Decls {
			switch x := x.(type) {
			case *goast.FuncDecl:
				n := x.Name.Name
				if x.Recv != nil {
					n = strings.Join(exprWords(star(x.Recv.List[0].Type)), "") + "." + n
				}
				if t, ok := d.decls[n]; ok {
					es = append(es, edit{off(x.Type.Func), off(x.End()), t})
					done[n] = true
				} else if t, ok := d.edits[x.Name.Name]; ok && x.Body != nil && t != "" {
					es = append(es, edit{off(x.Body.Lbrace), off(x.Body.Rbrace) + 1, "{" + t + "}"})
					done[x.Name.Name] = true
				}
			case *goast.GenDecl:
				for _, s := range x.Specs {
					if s, ok := s.(*goast.TypeSpec); ok {
						if t, ok := d.decls["type "+s.Name.Name]; ok {
							es = append(es, edit{off(s.Pos()), off(s.End()), t})
							done["type "+s.Name.Name] = true
						}
					}
				}
			}
		}
		if len(es) == 0 {
			continue
		}
		sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
		s := string(b)
		for _, e := range es {
			s = s[:e.from] + e.text + s[e.to:]
		}
		// helpers that the generated parser does not have
		overlay[file] = []byte(s)
	}
	for _, n := range names {
		if !done[n] {
			for file := range overlay {
				overlay[file] = append(overlay[file], []byte("\n"+d.decls[n]+"\n")...)
				done[n] = true
				break
			}
		}
		if !done[n] {
			c.Bad("code", n, "internal/grammar", "is in the grammar source but not in the generated parser")
			return
		}
	}
	p2, err := prog.LoadWith(c.P.Dir, overlay)
	if err != nil {
		c.Bad("code", strings.Join(names, ", "), "internal/grammar", "the code differs from the grammar source, whose code does not fit the generated parser: %v", err)
		return
	}
	for _, which := range []struct {
		what string
		p    *prog.Program
	}{{"the generated parser", c.P}, {"the grammar source", p2}} {
		for _, id := range []string{"G03", "G04", "P06", "P07"} {
			f := All[id]
			if f == nil {
				continue
			}
			k := NewCtx(which.p, id)
			k.Dir = c.Dir
			k.guard("analysis", func() { f(k) })
			for _, v := range k.Viol {
				c.Bad("code", strings.Join(names, ", "), v.Where, "the code differs between the grammar source and the generated parser, and that of %s is wrong: %s: %s: %s", which.what, v.Rule, v.Construct, v.Message)
			}
			for n := range k.Fns {
				c.Fns[n] = true
			}
		}
	}
	if len(c.Viol) == 0 {
		c.Count["code"] += len(names)
		c.Notes = append(c.Notes, "code that differs but does the same: "+strings.Join(names, ", "))
	}
}
