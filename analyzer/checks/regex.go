package checks

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
)

// sameLanguage decides whether two regular expressions match the same strings,
// by comparing the automata of both.
func sameLanguage(a, b string) (bool, error) {
	pa, err := compileRE(a)
	if err != nil {
		return false, err
	}
	pb, err := compileRE(b)
	if err != nil {
		return false, err
	}
	reps := representatives(pa, pb)
	sa, sb := startSet(pa), startSet(pb)
	seen := map[string]bool{}
	type node struct {
		a, b map[uint32]bool
		prev rune
	}
	work := []node{{sa, sb, -1}}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		k := key(n.a) + "|" + key(n.b) + "|" + fmt.Sprint(wordRune(n.prev), n.prev == -1, n.prev == '\n')
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 200000 {
			return false, fmt.Errorf("too many states")
		}
		if accepts(pa, n.a, n.prev) != accepts(pb, n.b, n.prev) {
			return false, nil
		}
		for _, r := range reps {
			work = append(work, node{step(pa, n.a, n.prev, r), step(pb, n.b, n.prev, r), r})
		}
	}
	return true, nil
}

// representatives returns a rune of each class that the expressions distinguish.
func representatives(ps ...*syntax.Prog) []rune {
	cuts := map[rune]bool{0: true}
	for _, p := range ps {
		for _, i := range p.Inst {
			switch i.Op {
			case syntax.InstRune, syntax.InstRune1:
				for k := 0; k < len(i.Rune); k++ {
					cuts[i.Rune[k]] = true
					cuts[i.Rune[k]+1] = true
				}
				if i.Arg != 0 || len(i.Rune) == 1 {
					for _, r := range i.Rune {
						for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
							cuts[f] = true
							cuts[f+1] = true
						}
					}
				}
			case syntax.InstRuneAnyNotNL:
				cuts['\n'] = true
				cuts['\n'+1] = true
			}
		}
	}
	for _, r := range []rune{'0', '9' + 1, 'A', 'Z' + 1, '_', '_' + 1, 'a', 'z' + 1} {
		cuts[r] = true
	}
	var reps []rune
	for r := range cuts {
		reps = append(reps, r)
	}
	sort.Slice(reps, func(i, j int) bool { return reps[i] < reps[j] })
	return reps
}

func wordRune(r rune) bool { return syntax.IsWordChar(r) }

func compileRE(s string) (*syntax.Prog, error) {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, err
	}
	return syntax.Compile(re.Simplify())
}

func startSet(p *syntax.Prog) map[uint32]bool { return map[uint32]bool{uint32(p.Start): true} }

func key(m map[uint32]bool) string {
	var ks []int
	for k := range m {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%d,", k)
	}
	return sb.String()
}

// closure follows the instructions that consume nothing between two runes.
func closure(p *syntax.Prog, set map[uint32]bool, prev, next rune) map[uint32]bool {
	flags := syntax.EmptyOpContext(prev, next)
	out := map[uint32]bool{}
	var add func(pc uint32)
	add = func(pc uint32) {
		if out[pc] {
			return
		}
		out[pc] = true
		i := &p.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(i.Out)
			add(i.Arg)
		case syntax.InstCapture, syntax.InstNop:
			add(i.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(i.Arg)&^flags == 0 {
				add(i.Out)
			}
		}
	}
	for pc := range set {
		add(pc)
	}
	return out
}

func step(p *syntax.Prog, set map[uint32]bool, prev, r rune) map[uint32]bool {
	out := map[uint32]bool{}
	for pc := range closure(p, set, prev, r) {
		i := &p.Inst[pc]
		switch i.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if i.MatchRune(r) {
				out[i.Out] = true
			}
		}
	}
	return out
}

func accepts(p *syntax.Prog, set map[uint32]bool, prev rune) bool {
	for pc := range closure(p, set, prev, -1) {
		if p.Inst[pc].Op == syntax.InstMatch {
			return true
		}
	}
	return false
}
