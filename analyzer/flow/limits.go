package flow

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A Limit is a comparison of a number with a constant that an analysis has only
// met with known numbers, none of which reaches the constant.
type Limit struct {
	Fn    *ssa.Function
	Instr *ssa.BinOp
	Bound int64 // the least number beyond which it comes out another way
	Max   int64 // the greatest number met
	open  bool  // it was also met with a number that is not known
}

// Beyond tells whether the numbers met never reached the bound.
func (l *Limit) Beyond() bool { return !l.open && l.Max < l.Bound }

// noteLimit records the numbers that a comparison with a constant is made with.
func (in *Interp) noteLimit(fr *frame, x *ssa.BinOp, a, b *Term) {
	if in.Limits == nil {
		return
	}
	switch x.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ, token.REM, token.QUO:
	default:
		return
	}
	switch t, ok := x.X.Type().(*types.Basic); {
	case !ok:
		return
	case t.Kind() != types.Int && t.Kind() != types.Int64 && t.Kind() != types.Uint && t.Kind() != types.Uint64:
		return
	}
	k, v := b, a
	switch fx, fy := fixed(x.X), fixed(x.Y); {
	case fx == fy:
		return
	case fx:
		k, v = a, b
	}
	bound, exact := k.IntVal()
	if !exact {
		return
	}
	// the least number for which it comes out the other way
	switch above := x.Op == token.GTR || x.Op == token.LEQ; {
	case k == b && above, k != b && (x.Op == token.LSS || x.Op == token.GEQ):
		bound++
	}
	l := in.Limits[x]
	if l == nil {
		l = &Limit{Fn: fr.fn, Instr: x, Bound: bound}
		in.Limits[x] = l
	}
	n, known := v.IntVal()
	if !known {
		l.open = true
	} else if n > l.Max {
		l.Max = n
	}
}

// fixed tells whether a value is a constant or a variable of the package.
func fixed(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		_, ok := v.X.(*ssa.Global)
		return ok && v.Op == token.MUL
	}
	return false
}
