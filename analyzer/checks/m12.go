package checks

import (
	"go/types"
	"regexp"
	"strings"

	"aqlverify/flow"
)

func init() { All["M12"] = m12 }

// The kinds of characters a literal is made of: a word character, any other
// ASCII character, one that is not ASCII, and the three that are special.
const charKinds = `w-u?*\`

// charset lists the characters of a kind, or some if there are many.
func charset(kind byte) []rune {
	var out []rune
	switch kind {
	case 'w', '-':
		for r := rune(0); r < 128; r++ {
			if !strings.ContainsRune(`?*\`, r) && wordRune(r) == (kind == 'w') {
				out = append(out, r)
			}
		}
	case 'u':
		out = []rune{0x80, 'é', 0x7ff, 0x800, '世', 0xfffd, 0x10000, '😀', 0x10ffff}
	default:
		out = []rune{rune(kind)}
	}
	return out
}

func m12(c *Ctx) {
	c.Rule("patterns: for literals of up to three characters, each a word character, another ASCII character, a character that is not ASCII, a wildcard or a backslash, on every path: the pattern ignores case and consists, in order, of one `.` for each ?, one `.*` for each *, and the quoted text of every other character; a backslash before a wildcard makes it an ordinary character")
	c.Rule("boundaries: the pattern starts or ends with a word boundary only if all characters are ASCII and the character there is a word character or a wildcard, and always if it is a word character and all are ASCII")
	c.Rule("collation: a literal is looked for without a pattern only if it has no wildcard and is not ASCII, and then as a whole and without regard to case")
	c.Rule("search: a test with a string literal is true exactly if the literal is found in the text of some scalar of the field")
	c.Rule("numbers: making a pattern depends on no larger number")
	var last *literals
	for _, op := range []string{"EQ", "SIM"} {
		var kinds func(prefix string, n int)
		kinds = func(prefix string, n int) {
			last = c.patternOf(op, prefix)
			if n > 0 {
				for i := range charKinds {
					kinds(prefix+charKinds[i:i+1], n-1)
				}
			}
		}
		kinds("", 3)
		m := c.equalityTest(op, "StringVal")
		c.guard("search", func() { m.compare("search", "field "+op+" string literal", m.specs(literalKinds)...) })
	}
	c.cutoff("numbers", last.m.in, "jsonmatcher")
	c.AtLeast("patterns", 400)
	c.AtLeast("collation", 5)
	c.AtLeast("search", 2)
	c.ownField("lookup arguments")
}

type literals struct {
	m     *matching
	kinds string
	runes []*flow.Term // the value of each character
	text  *flow.Term
}

// patternOf analyses how a literal of some kinds of characters is looked for.
func (c *Ctx) patternOf(op, kinds string) *literals {
	m := c.newMatching()
	m.test(c.Const(ast, op), m.list(m.literal("StringVal", "literal")))
	m.in.Unroll = 40
	l := &literals{m: m, kinds: kinds}
	var parts []*flow.Term
	for i := range kinds {
		switch k := kinds[i]; k {
		case 'w', '-':
			r := flow.Sym("character "+string(rune('0'+i))+" "+kinds[i:i+1], types.Typ[types.Rune])
			m.start.Assume(flow.Le(flow.Int(0), r), true)
			m.start.Assume(flow.Lt(r, flow.Int(128)), true)
			for _, ch := range `?*\` {
				m.start.Assume(flow.IEq(r, flow.Int(int64(ch))), false)
			}
			l.runes = append(l.runes, r)
			parts = append(parts, flow.ASCIIChar(r))
		case 'u':
			r := flow.Sym("character "+string(rune('0'+i))+" u", types.Typ[types.Rune])
			n := int64(2 + i%3)
			t := flow.UTF8Char(r, n)
			m.start.Assume(flow.Le(flow.Int(128), r), true)
			for j := int64(0); j < n; j++ {
				m.start.Assume(flow.Le(flow.Int(128), flow.Item(t, j, types.Typ[types.Byte])), true)
			}
			l.runes = append(l.runes, r)
			parts = append(parts, t)
		default:
			l.runes = append(l.runes, flow.Int(int64(k)))
			parts = append(parts, flow.Str(kinds[i:i+1]))
		}
	}
	l.text = flow.Concat(parts...)
	value := c.Method(types.NewPointer(c.Type(ast, "StringVal")), "Value")
	m.hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		if call.Fn == value {
			return []flow.Ret{{St: st, Val: l.text}}, true
		}
		switch call.Name {
		case "regexp.MustCompile", "regexp.Compile":
			re := flow.App("regexp.MustCompile", call.Sig.Results().At(0).Type(), call.Args[0])
			st.Emit(&flow.Event{Name: "pattern", Args: call.Args, Res: re, Pos: call.Pos})
			if call.Name == "regexp.Compile" {
				re = flow.Tuple(re, flow.Nil)
			}
			return []flow.Ret{{St: st, Val: re}}, true
		case "golang.org/x/text/search.New":
			var opts []*flow.Term
			for _, s := range flow.Segs(in.ListOf(st, call.Args[1])) {
				opts = append(opts, s)
			}
			st.Emit(&flow.Event{Name: "collator", Args: opts, Pos: call.Pos})
			return nil, false
		case "(*golang.org/x/text/search.Matcher).CompileString":
			st.Emit(&flow.Event{Name: "collation", Args: call.Args, Pos: call.Pos})
			return nil, false
		case "(*golang.org/x/text/search.Matcher).Compile":
			st.Emit(&flow.Event{Name: "collation", Args: []*flow.Term{call.Args[0], flow.ToString(in.ListOf(st, call.Args[1]))}, Pos: call.Pos})
			return nil, false
		case reMatch:
			if p, ok := patternText(call.Args[0]); ok && call.Args[1] == l.text {
				st.Emit(&flow.Event{Name: "tested", Res: call.Args[0], Pos: call.Pos})
				if v, same := l.uniform(p); same {
					return []flow.Ret{{St: st, Val: flow.Bool(v)}}, true
				}
			}
		}
		return nil, false
	}
	what := op + " literal of the kind " + kinds
	c.guardAs("patterns", what, func() {
		for _, r := range m.compile("patterns", what) {
			l.check(what, r.St)
		}
	})
	return l
}

// uniform evaluates a constant pattern on literals of the kinds: it holds for all
// of them or for none.
func (l *literals) uniform(pattern string) (val, same bool) {
	re, err := regexp.Compile(pattern)
	if err != nil {
		return false, false
	}
	base := make([]rune, len(l.kinds))
	for i := range base {
		base[i] = charset(l.kinds[i])[0]
	}
	val = re.MatchString(string(base))
	for i := range base {
		for j := i; j < len(base); j++ {
			a, b := charset(l.kinds[i]), charset(l.kinds[j])
			for x, r := range a {
				for y, s := range b {
					if x > 3 && y > 3 && i != j || i == j && x != y {
						continue
					}
					t := append([]rune(nil), base...)
					t[i], t[j] = r, s
					if re.MatchString(string(t)) != val {
						return false, false
					}
				}
			}
		}
	}
	return val, true
}

// possible tells whether a character can be one of its kind on a path.
func (l *literals) possible(st *flow.State, i int) bool {
	if l.runes[i].IsConst() || l.kinds[i] == 'u' {
		return true
	}
	for _, r := range charset(l.kinds[i]) {
		if st.Clone().Assume(flow.IEq(l.runes[i], flow.Int(int64(r))), true) {
			return true
		}
	}
	return false
}

// check compares what is made of the literal on a path with what it should be.
func (l *literals) check(what string, st *flow.State) {
	c := l.m.c
	for i := range l.kinds {
		if !l.possible(st, i) {
			return
		}
	}
	var tested []*flow.Term // patterns the literal is compared with
	for _, e := range allEvents(st) {
		if e.Name == "tested" {
			tested = append(tested, e.Res)
		}
	}
	var pats, cols []*flow.Event
	fold := false
	for _, e := range allEvents(st) {
		switch e.Name {
		case "pattern":
			if !has(tested, e.Res) {
				pats = append(pats, e)
			}
		case "collation":
			cols = append(cols, e)
		case "collator":
			for _, o := range e.Args {
				fold = fold || o.Mentions(func(x *flow.Term) bool {
					return x.Op == "glob" && (strings.HasSuffix(x.Aux, "search.Loose") || strings.HasSuffix(x.Aux, "search.IgnoreCase"))
				})
			}
		}
	}
	switch {
	case len(pats) == 0 && len(cols) == 1:
		ok := strings.Contains(l.kinds, "u") && !strings.ContainsAny(l.kinds, "?*")
		where := c.P.Where(cols[0].Pos)
		if c.Need(ok, "collation", what, where, "a %s is looked for without a pattern", what) {
			c.Need(cols[0].Args[len(cols[0].Args)-1] == l.text, "collation", what, where, "the text looked for is %s, not the literal", short(cols[0].Args[len(cols[0].Args)-1]))
			c.Need(fold, "collation", what, where, "the search does not ignore case")
		}
	case len(pats) == 1 && len(cols) == 0:
		why, rule := l.pattern(st, pats[0].Args[0])
		c.Need(why == "", rule, what, c.P.Where(pats[0].Pos), "the pattern %s %s", short(pats[0].Args[0]), why)
	default:
		c.Bad("patterns", what, "", "%d patterns and %d searches are made of a %s", len(pats), len(cols), what)
	}
}

// pattern compares a pattern with the literal, and returns what is wrong with it
// and the rule that says so.
func (l *literals) pattern(st *flow.State, pat *flow.Term) (why, rule string) {
	type token struct {
		ch byte
		t  *flow.Term // a quoted character
	}
	split := func(s string) (out []token) {
		for i := range []byte(s) {
			out = append(out, token{ch: s[i]})
		}
		return
	}
	quoted := func(t *flow.Term) []token {
		if s, ok := t.StrVal(); ok {
			return split(regexp.QuoteMeta(s))
		}
		if t.Op == "app" && (t.Aux == "asciichar" || t.Aux == "utf8char" || t.Aux == "runechar" || t.Aux == "bytechar") {
			r := t.Args[0]
			if k, ok := st.F.Known(r).IntVal(); ok {
				return split(regexp.QuoteMeta(string(rune(k))))
			}
			return []token{{t: r}}
		}
		return []token{{t: t}}
	}
	list := func(t *flow.Term) []*flow.Term {
		if t.Op == "concat" {
			return t.Args
		}
		return []*flow.Term{t}
	}
	var got []token
	for _, p := range list(pat) {
		if s, ok := p.StrVal(); ok {
			got = append(got, split(s)...)
			continue
		}
		if p.Op != "app" || p.Aux != "regexp.QuoteMeta" {
			return "contains text that is not quoted: " + short(p), "patterns"
		}
		for _, x := range list(p.Args[0]) {
			got = append(got, quoted(x)...)
		}
	}
	take := func(s string) bool {
		w := split(s)
		if len(got) < len(w) {
			return false
		}
		for i := range w {
			if got[i] != w[i] {
				return false
			}
		}
		got = got[len(w):]
		return true
	}
	if !take("(?i)") {
		return "does not ignore case", "patterns"
	}
	ascii := !strings.Contains(l.kinds, "u")
	edge := take(`\b`)
	n := len(l.kinds)
	if edge && (n == 0 || !ascii || !strings.ContainsRune("w?*", rune(l.kinds[0]))) {
		return "starts at a word boundary, where the literal has none", "boundaries"
	}
	if !edge && n > 0 && ascii && l.kinds[0] == 'w' {
		return "can start within a word", "boundaries"
	}
	wild, run := false, false // whether the last character is a wildcard, or a *
	for i := 0; i < n; i++ {
		k := l.kinds[i]
		more := run
		wild, run = false, false
		switch {
		case k == '\\' && i+1 < n && strings.ContainsRune("?*", rune(l.kinds[i+1])):
			i++
			if !take(regexp.QuoteMeta(l.kinds[i : i+1])) {
				return "does not have the escaped wildcard as an ordinary character", "patterns"
			}
		case k == '?':
			wild = true
			if !take(".") || len(got) > 0 && (got[0].ch == '*' || got[0].ch == '?' || got[0].ch == '+') {
				return "does not have exactly one character for ?", "patterns"
			}
		case k == '*':
			wild, run = true, true
			if !take(".*?") && !take(".*") && !more {
				return "does not have a run of characters for *", "patterns"
			}
		case l.runes[i].IsConst():
			if !take(regexp.QuoteMeta(string(rune(k)))) {
				return "does not have the character " + string(rune(k)) + " as it is", "patterns"
			}
		default:
			if len(got) == 0 || got[0].t != l.runes[i] {
				// a character that the path knows
				if v, ok := st.F.Known(l.runes[i]).IntVal(); ok && take(regexp.QuoteMeta(string(rune(v)))) {
					continue
				}
				return "does not have character " + string(rune('1'+i)) + " as it is", "patterns"
			}
			got = got[1:]
		}
	}
	edge = len(got) == 2 && take(`\b`)
	if edge && (n == 0 || !ascii || l.kinds[n-1] != 'w' && !wild) {
		return "ends at a word boundary, where the literal has none", "boundaries"
	}
	if !edge && len(got) == 0 && n > 0 && ascii && l.kinds[n-1] == 'w' {
		return "can end within a word", "boundaries"
	}
	if len(got) > 0 {
		return "has something after the literal", "patterns"
	}
	return "", "patterns"
}
