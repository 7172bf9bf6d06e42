package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- sorts

type SortKind uint8

const (
	KBool SortKind = iota
	KBV
	KFP
)

// Sort is an SMT sort: Bool, (_ BitVec W) or the IEEE format of width W (32/64).
type Sort struct {
	K SortKind
	W uint8
}

var BoolS = Sort{KBool, 1}

func BV(w int) Sort { return Sort{KBV, uint8(w)} }
func FP(w int) Sort { return Sort{KFP, uint8(w)} }

func (s Sort) smt() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
	if s.W == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // val = hi<<8|lo
	OConcat
	OZExt
	OSExt
	OFLt
	OFLe
	OFEq
	OFNaN
	OFBits // fp from bits
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFCvt  // fp -> fp
	OSItoF // bv signed -> fp
	OUItoF
	OSatAdd // signed saturating addition and subtraction (points in time)
	OSatSub
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot",
	ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OConcat: "concat", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFNaN: "fp.isNaN", OFNeg: "fp.neg"}

// Term is a hash-consed SMT term.
type Term struct {
	op   Op
	sort Sort
	val  uint64
	name string
	args []*Term
	id   int
}

type TermCtx struct {
	tab    map[string]*Term
	n      int
	True   *Term
	False  *Term
	vars   []*Term
	keyBuf []byte
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[string]*Term{}}
	c.True = c.mk(OConst, BoolS, 1, "")
	c.False = c.mk(OConst, BoolS, 0, "")
	return c
}

func (c *TermCtx) mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	b := c.keyBuf[:0]
	b = append(b, byte(op), byte(s.K), s.W)
	b = binary.AppendUvarint(b, val)
	for _, a := range args {
		b = binary.AppendUvarint(b, uint64(a.id))
	}
	if name != "" {
		b = append(b, 0xff)
		b = append(b, name...)
	}
	c.keyBuf = b
	if t, ok := c.tab[string(b)]; ok {
		return t
	}
	t := &Term{op: op, sort: s, val: val, name: name, id: c.n, args: append([]*Term(nil), args...)}
	c.n++
	c.tab[string(b)] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (c *TermCtx) Const(s Sort, v uint64) *Term {
	if s.K == KBool {
		if v&1 == 1 {
			return c.True
		}
		return c.False
	}
	return c.mk(OConst, s, v&mask(s.W), "")
}
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *TermCtx) Int(v int) *Term { return c.Const(BV(64), uint64(v)) }

// Var makes a (globally unique by name) variable.
func (c *TermCtx) Var(name string, s Sort) *Term {
	n := c.n
	t := c.mk(OVar, s, 0, name)
	if c.n > n {
		c.vars = append(c.vars, t)
	}
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.val == 0)
	case ONot:
		return a.args[0]
	}
	return c.mk(ONot, BoolS, 0, "", a)
}

func isNeg(a, b *Term) bool {
	return (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a)
}

func sortUniq(xs []*Term) []*Term {
	sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
	o := xs[:0]
	for i, x := range xs {
		if i == 0 || x != xs[i-1] {
			o = append(o, x)
		}
	}
	return o
}

func (c *TermCtx) And(as ...*Term) *Term { return c.andor(OAnd, as) }
func (c *TermCtx) Or(as ...*Term) *Term {
	if len(as) == 2 {
		if r := c.factorOr(as[0], as[1]); r != nil {
			return r
		}
	}
	return c.andor(OOr, as)
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func (c *TermCtx) factorOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op != OAnd && b.op != OAnd {
		return nil
	}
	ca, cb := conj(a), conj(b)
	inA := make(map[*Term]bool, len(ca))
	for _, x := range ca {
		inA[x] = true
	}
	var common, ra, rb []*Term
	isC := map[*Term]bool{}
	for _, x := range cb {
		if inA[x] {
			common = append(common, x)
			isC[x] = true
		} else {
			rb = append(rb, x)
		}
	}
	for _, x := range ca {
		if !isC[x] {
			ra = append(ra, x)
		}
	}
	if len(common) == 0 {
		return nil
	}
	rest := c.andor(OOr, []*Term{c.And(ra...), c.And(rb...)})
	return c.And(append(common, rest)...)
}

func (c *TermCtx) andor(op Op, as []*Term) *Term {
	unit, zero := c.True, c.False
	dual := OOr
	if op == OOr {
		unit, zero = c.False, c.True
		dual = OAnd
	}
	var xs []*Term
	for _, a := range as {
		if a == zero {
			return zero
		}
		if a == unit {
			continue
		}
		if a.op == op {
			xs = append(xs, a.args...)
		} else {
			xs = append(xs, a)
		}
	}
	if len(xs) == 0 {
		return unit
	}
	if len(xs) == 1 {
		return xs[0]
	}
	xs = sortUniq(xs)
	set := make(map[*Term]bool, len(xs))
	hasDual := false
	for _, x := range xs {
		set[x] = true
		if x.op == dual {
			hasDual = true
		}
	}
	for _, x := range xs {
		if x.op == ONot && set[x.args[0]] {
			return zero
		}
	}
	if hasDual {
		changed := false
		var ys []*Term
	outer:
		for _, x := range xs {
			if x.op == dual {
				drop := false
				for _, y := range x.args {
					if set[y] && y != x {
						changed = true
						continue outer // absorbed
					}
					if y.op == ONot && set[y.args[0]] || set[c.Not(y)] {
						drop = true
					}
				}
				if drop {
					var zs []*Term
					for _, y := range x.args {
						if y.op == ONot && set[y.args[0]] || set[c.Not(y)] {
							continue
						}
						zs = append(zs, y)
					}
					ys = append(ys, c.andor(dual, zs))
					changed = true
					continue
				}
			}
			ys = append(ys, x)
		}
		if changed {
			return c.andor(op, ys)
		}
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return c.mk(op, BoolS, 0, "", xs...)
}

func (c *TermCtx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

// iteConstLeaves reports whether t is an ite tree whose leaves are constants (at most n leaves).
func iteConstLeaves(t *Term, n *int) bool {
	if t.op == OConst {
		*n--
		return *n >= 0
	}
	if t.op == OIte {
		return iteConstLeaves(t.args[1], n) && iteConstLeaves(t.args[2], n)
	}
	return false
}

func (c *TermCtx) mapIte(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.op == OIte {
		r = c.Ite(t.args[0], c.mapIte(t.args[1], f, memo), c.mapIte(t.args[2], f, memo))
	} else {
		r = f(t)
	}
	memo[t] = r
	return r
}

func (c *TermCtx) liftConst(a, b *Term, f func(a, b *Term) *Term) *Term {
	n := 16
	if a.op == OIte && b.isConst() && iteConstLeaves(a, &n) {
		return c.mapIte(a, func(x *Term) *Term { return f(x, b) }, map[*Term]*Term{})
	}
	n = 16
	if b.op == OIte && a.isConst() && iteConstLeaves(b, &n) {
		return c.mapIte(b, func(x *Term) *Term { return f(a, x) }, map[*Term]*Term{})
	}
	return nil
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		if a.sort.K == KFP {
			panic("Eq on FP")
		}
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %v %v", a.sort, b.sort))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.sort.K == KBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
		if isNeg(a, b) {
			return c.False
		}
	}
	if r := c.liftConst(a, b, c.Eq); r != nil {
		return r
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() { // const = expr
		switch b.op {
		case OZExt:
			in := b.args[0]
			if a.val > mask(in.sort.W) {
				return c.False
			}
			return c.Eq(c.Const(in.sort, a.val), in)
		case OSExt:
			in := b.args[0]
			if uint64(sx(a.val, in.sort.W))&mask(b.sort.W) != a.val {
				return c.False
			}
			return c.Eq(c.Const(in.sort, a.val), in)
		case OAdd:
			if b.args[1].isConst() {
				return c.Eq(c.Const(a.sort, a.val-b.args[1].val), b.args[0])
			}
		}
	} else {
		if (a.op == OZExt && b.op == OZExt || a.op == OSExt && b.op == OSExt) && a.args[0].sort == b.args[0].sort {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == OAdd && b.op == OAdd && a.args[1] == b.args[1] {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == OAdd && a.args[1].isConst() && a.args[0] == b {
			return c.False
		}
		if b.op == OAdd && b.args[1].isConst() && b.args[0] == a {
			return c.False
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(OEq, BoolS, 0, "", a, b)
}

func (c *TermCtx) Ite(g, a, b *Term) *Term {
	if g.isConst() {
		if g.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sort mismatch %v %v", a.sort, b.sort))
	}
	if g.op == ONot {
		return c.Ite(g.args[0], b, a)
	}
	if a.sort.K == KBool {
		if a.isConst() {
			if a.val == 1 {
				return c.Or(g, b)
			}
			return c.And(c.Not(g), b)
		}
		if b.isConst() {
			if b.val == 1 {
				return c.Or(c.Not(g), a)
			}
			return c.And(g, a)
		}
		return c.Or(c.And(g, a), c.And(c.Not(g), b))
	}
	if a.op == OIte {
		if a.args[0] == g {
			return c.Ite(g, a.args[1], b)
		}
		if a.args[2] == b {
			return c.Ite(c.And(g, a.args[0]), a.args[1], b)
		}
		if a.args[1] == b {
			return c.Ite(c.And(g, c.Not(a.args[0])), a.args[2], b)
		}
	}
	if b.op == OIte {
		if b.args[0] == g {
			return c.Ite(g, a, b.args[2])
		}
		if b.args[1] == a {
			return c.Ite(c.Or(g, b.args[0]), a, b.args[2])
		}
		if b.args[2] == a {
			return c.Ite(c.Or(g, c.Not(b.args[0])), a, b.args[1])
		}
	}
	return c.mk(OIte, a.sort, 0, "", g, a, b)
}

func evalBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1, true
			}
			return m, true
		}
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x, true
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m, true
	case OUlt:
		return b2u(x < y), true
	case OUle:
		return b2u(x <= y), true
	case OSlt:
		return b2u(sx(x, w) < sx(y, w)), true
	case OSle:
		return b2u(sx(x, w) <= sx(y, w)), true
	case OSatAdd, OSatSub:
		a, b := sx(x, w), sx(y, w)
		r := a + b
		over := (a < 0) == (b < 0) && (r < 0) != (a < 0)
		if op == OSatSub {
			r = a - b
			over = (a < 0) != (b < 0) && (r < 0) != (a < 0)
		}
		if !over {
			return uint64(r), true
		}
		if a < 0 {
			return 1 << 63, true
		}
		return 1<<63 - 1, true
	}
	return 0, false
}

// interval bounds a 64-bit term as a signed integer, as far as its structure tells.
func (c *TermCtx) interval(t *Term) (lo, hi int64, ok bool) {
	switch t.op {
	case OConst:
		return int64(t.val), int64(t.val), true
	case OZExt:
		if w := t.args[0].sort.W; w < 63 {
			return 0, int64(mask(w)), true
		}
	case OSExt:
		if w := t.args[0].sort.W; w < 63 {
			return -(1 << (w - 1)), 1<<(w-1) - 1, true
		}
	case OIte:
		al, ah, ok1 := c.interval(t.args[1])
		bl, bh, ok2 := c.interval(t.args[2])
		return min(al, bl), max(ah, bh), ok1 && ok2
	case OAdd, OSub, OMul:
		al, ah, ok1 := c.interval(t.args[0])
		bl, bh, ok2 := c.interval(t.args[1])
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		const lim = 1 << 62
		small := func(v, by int64) bool { return v <= by && v >= -by }
		switch t.op {
		case OSub:
			bl, bh = -bh, -bl
			fallthrough
		case OAdd:
			if small(al, lim-1) && small(ah, lim-1) && small(bl, lim-1) && small(bh, lim-1) {
				return al + bl, ah + bh, true
			}
		case OMul:
			if bl == bh && bl > 0 && small(al, lim/bl) && small(ah, lim/bl) {
				return al * bl, ah * bl, true
			}
		}
	}
	return 0, 0, false
}

// diff is a-b if that cannot overflow.
func (c *TermCtx) diff(a, b *Term) *Term {
	al, ah, ok1 := c.interval(a)
	bl, bh, ok2 := c.interval(b)
	if !ok1 || !ok2 {
		return nil
	}
	_, o1 := evalDiff(al, bh)
	_, o2 := evalDiff(ah, bl)
	if o1 || o2 {
		return nil
	}
	return c.Bin(OSub, a, b)
}

func evalDiff(a, b int64) (int64, bool) {
	r := a - b
	return r, (a < 0) != (b < 0) && (r < 0) != (a < 0)
}

// sltSum decides a < x+u and x+u < a (wrapping sums, a and x known not to be negative) by comparing a-x with u, which the solver finds much easier.
func (c *TermCtx) sltSum(a, b *Term) *Term {
	nonneg := func(t *Term) bool {
		if t.isConst() || t.sort.W != 64 {
			return false
		}
		lo, _, ok := c.interval(t)
		return ok && lo >= 0
	}
	top := c.Const(BV(64), 1<<63-1)
	split := func(t *Term) (x, u *Term) {
		var flat func(t *Term) bool
		flat = func(t *Term) bool {
			if _, _, ok := c.interval(t); ok {
				if x == nil {
					x = t
				} else {
					x = c.Bin(OAdd, x, t)
				}
				return true
			}
			if t.op == OAdd {
				return flat(t.args[0]) && flat(t.args[1])
			}
			if u != nil {
				return false
			}
			u = t
			return true
		}
		if t.op != OAdd || !flat(t) || u == nil || x == nil || !nonneg(x) {
			return nil, nil
		}
		return x, u
	}
	if nonneg(a) {
		if x, u := split(b); x != nil {
			return c.And(c.Bin(OSlt, c.Bin(OSub, a, x), u), c.Bin(OSle, u, c.Bin(OSub, top, x)))
		}
	}
	if nonneg(b) {
		if x, u := split(a); x != nil {
			return c.Or(c.Bin(OSlt, c.Bin(OSub, top, x), u), c.Bin(OSlt, u, c.Bin(OSub, b, x)))
		}
	}
	return nil
}

// timeLess compares points in time, which do not wrap around.
func (c *TermCtx) timeLess(a, b *Term) *Term {
	if b.op == OSatAdd && a.op != OSatAdd {
		if d := c.diff(a, b.args[0]); d != nil {
			return c.Bin(OSlt, d, b.args[1])
		}
	}
	if a.op == OSatAdd && b.op != OSatAdd {
		if d := c.diff(b, a.args[0]); d != nil {
			return c.Bin(OSlt, a.args[1], d)
		}
	}
	for _, k := range []uint64{1000000, 1000} {
		x, ok1 := factor(c, a, k)
		y, ok2 := factor(c, b, k)
		_, _, ok3 := c.interval(a)
		_, _, ok4 := c.interval(b)
		if ok1 && ok2 && ok3 && ok4 {
			return c.Bin(OSlt, x, y)
		}
	}
	return c.Bin(OSlt, a, b)
}

func (c *TermCtx) timeEq(a, b *Term) *Term {
	if a.op == OSatAdd || b.op == OSatAdd {
		return c.And(c.Not(c.timeLess(a, b)), c.Not(c.timeLess(b, a)))
	}
	return c.Eq(a, b)
}

// timeSub is the (saturating) duration between two points in time.
func (c *TermCtx) timeSub(a, b *Term) *Term {
	if a.op == OSatAdd && b.op != OSatAdd {
		if d := c.diff(b, a.args[0]); d != nil {
			return c.Bin(OSatSub, a.args[1], d)
		}
	}
	if b.op == OSatAdd && a.op != OSatAdd {
		if d := c.diff(a, b.args[0]); d != nil {
			return c.Bin(OSatSub, d, b.args[1])
		}
	}
	return c.Bin(OSub, a, b)
}

// timeShift is the point in time d after a.
func (c *TermCtx) timeShift(a, d *Term) *Term {
	t := c.Bin(OAdd, a, d)
	if _, _, ok := c.interval(t); ok {
		return t
	}
	if _, _, ok := c.interval(a); ok {
		return c.Bin(OSatAdd, a, d)
	}
	return t
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Bin builds a bit-vector operation (or comparison).
func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Bin %v sort mismatch %v %v", op, a.sort, b.sort))
	}
	w := a.sort.W
	rs := a.sort
	cmp := false
	switch op {
	case OUlt, OUle, OSlt, OSle:
		rs = BoolS
		cmp = true
	}
	if a.isConst() && b.isConst() {
		v, _ := evalBin(op, w, a.val, b.val)
		return c.Const(rs, v)
	}
	if r := c.liftConst(a, b, func(x, y *Term) *Term { return c.Bin(op, x, y) }); r != nil {
		return r
	}
	zero := func(t *Term) bool { return t.isConst() && t.val == 0 }
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if zero(b) {
			return a
		}
		if b.isConst() && a.op == OAdd && a.args[1].isConst() {
			return c.Bin(OAdd, a.args[0], c.Const(a.sort, a.args[1].val+b.val))
		}
		if !b.isConst() && a.op == OAdd && a.args[1].isConst() {
			return c.Bin(OAdd, c.Bin(OAdd, a.args[0], b), a.args[1])
		}
		if !b.isConst() && b.op == OAdd && b.args[1].isConst() {
			return c.Bin(OAdd, c.Bin(OAdd, a, b.args[0]), b.args[1])
		}
		// (x - y) + y
		if a.op == OSub && a.args[1] == b {
			return a.args[0]
		}
		if b.op == OSub && b.args[1] == a {
			return b.args[0]
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if zero(b) {
			return a
		}
		if a == b {
			return c.Const(a.sort, 0)
		}
		if b.isConst() {
			return c.Bin(OAdd, a, c.Const(a.sort, -b.val))
		}
		if a.op == OAdd {
			if a.args[0] == b {
				return a.args[1]
			}
			if a.args[1] == b {
				return a.args[0]
			}
			if a.args[1].isConst() {
				return c.Bin(OAdd, c.Bin(OSub, a.args[0], b), a.args[1])
			}
		}
		if b.op == OAdd && b.args[1].isConst() {
			return c.Bin(OAdd, c.Bin(OSub, a, b.args[0]), c.Const(a.sort, -b.args[1].val))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if zero(b) {
			return b
		}
		if b.isConst() && b.val == 1 {
			return a
		}
		if b.isConst() && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OShl, a, c.Const(a.sort, uint64(bits.TrailingZeros64(b.val))))
		}
	case OUDiv, OSDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
		if op == OUDiv && b.isConst() && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OLShr, a, c.Const(a.sort, uint64(bits.TrailingZeros64(b.val))))
		}
	case OURem:
		if b.isConst() && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OBAnd, a, c.Const(a.sort, b.val-1))
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if zero(b) || a == b {
			return b
		}
		if b.isConst() && b.val == mask(w) {
			return a
		}
	case OBOr:
		if a.isConst() {
			a, b = b, a
		}
		if zero(b) || a == b {
			return a
		}
	case OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if zero(b) {
			return a
		}
		if a == b {
			return c.Const(a.sort, 0)
		}
	case OShl, OLShr, OAShr:
		if zero(b) {
			return a
		}
		if zero(a) {
			return a
		}
	case OUlt:
		if a == b || zero(b) {
			return c.False
		}
		if zero(a) {
			return c.Not(c.Eq(a, b))
		}
	case OUle:
		if a == b || zero(a) {
			return c.True
		}
		return c.Not(c.Bin(OUlt, b, a))
	case OSatAdd, OSatSub:
		if zero(b) {
			return a
		}
	case OSlt:
		if a == b {
			return c.False
		}
		if a.op == OSatSub && zero(b) {
			return c.Bin(OSlt, a.args[0], a.args[1])
		}
		if b.op == OSatSub && zero(a) {
			return c.Bin(OSlt, b.args[1], b.args[0])
		}
		if r := c.sltSum(a, b); r != nil {
			return r
		}
		if b.isConst() && b.val == 1<<(w-1) {
			return c.False
		}
		if a.isConst() && a.val == 1<<(w-1)-1 {
			return c.False
		}
	case OSle:
		if a == b {
			return c.True
		}
		return c.Not(c.Bin(OSlt, b, a))
	}
	if cmp {
		// narrow extended operands
		if a.op == OSExt && b.op == OSExt && a.args[0].sort == b.args[0].sort && (op == OSlt) {
			return c.Bin(op, a.args[0], b.args[0])
		}
		if a.op == OZExt && b.op == OZExt && a.args[0].sort == b.args[0].sort {
			return c.Bin(OUlt, a.args[0], b.args[0])
		}
		if a.op == OZExt && b.isConst() {
			in := a.args[0].sort
			if op == OSlt && sx(b.val, w) <= 0 {
				return c.False
			}
			if op == OUlt || sx(b.val, w) > 0 {
				if b.val > mask(in.W) {
					return c.True
				}
				return c.Bin(OUlt, a.args[0], c.Const(in, b.val))
			}
		}
		if b.op == OZExt && a.isConst() {
			in := b.args[0].sort
			if op == OSlt && sx(a.val, w) < 0 {
				return c.True
			}
			if a.val >= mask(in.W) {
				return c.False
			}
			return c.Bin(OUlt, c.Const(in, a.val), b.args[0])
		}
		if op == OSlt && a.op == OSExt && b.isConst() {
			in := a.args[0].sort
			lo, hi := -(int64(1) << (in.W - 1)), (int64(1)<<(in.W-1))-1
			v := sx(b.val, w)
			if v <= lo {
				return c.False
			}
			if v > hi {
				return c.True
			}
			return c.Bin(OSlt, a.args[0], c.Const(in, b.val))
		}
		if op == OSlt && b.op == OSExt && a.isConst() {
			in := b.args[0].sort
			lo, hi := -(int64(1) << (in.W - 1)), (int64(1)<<(in.W-1))-1
			v := sx(a.val, w)
			if v < lo {
				return c.True
			}
			if v >= hi {
				return c.False
			}
			return c.Bin(OSlt, c.Const(in, a.val), b.args[0])
		}
	}
	return c.mk(op, rs, 0, "", a, b)
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.Const(a.sort, ^a.val)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return c.mk(OBNot, a.sort, 0, "", a)
}
func (c *TermCtx) Neg(a *Term) *Term { return c.Bin(OSub, c.Const(a.sort, 0), a) }

func (c *TermCtx) Extract(hi, lo int, a *Term) *Term {
	if lo == 0 && hi == int(a.sort.W)-1 {
		return a
	}
	s := BV(hi - lo + 1)
	if a.isConst() {
		return c.Const(s, a.val>>uint(lo))
	}
	if (a.op == OZExt || a.op == OSExt) && lo == 0 {
		in := a.args[0]
		if hi+1 == int(in.sort.W) {
			return in
		}
		if hi+1 < int(in.sort.W) {
			return c.Extract(hi, 0, in)
		}
		if a.op == OZExt {
			return c.ZExt(in, hi+1)
		}
		return c.SExt(in, hi+1)
	}
	if a.op == OIte {
		n := 16
		if iteConstLeaves(a, &n) {
			return c.mapIte(a, func(x *Term) *Term { return c.Extract(hi, lo, x) }, map[*Term]*Term{})
		}
	}
	return c.mk(OExtract, s, uint64(hi)<<8|uint64(lo), "", a)
}

func (c *TermCtx) ZExt(a *Term, w int) *Term {
	if int(a.sort.W) == w {
		return a
	}
	if a.isConst() {
		return c.Const(BV(w), a.val)
	}
	if a.op == OZExt {
		return c.ZExt(a.args[0], w)
	}
	if a.op == OIte {
		n := 16
		if iteConstLeaves(a, &n) {
			return c.mapIte(a, func(x *Term) *Term { return c.ZExt(x, w) }, map[*Term]*Term{})
		}
	}
	return c.mk(OZExt, BV(w), 0, "", a)
}

func (c *TermCtx) SExt(a *Term, w int) *Term {
	if int(a.sort.W) == w {
		return a
	}
	if a.isConst() {
		return c.Const(BV(w), uint64(sx(a.val, a.sort.W)))
	}
	if a.op == OSExt {
		return c.SExt(a.args[0], w)
	}
	if a.op == OZExt {
		return c.ZExt(a.args[0], w)
	}
	if a.op == OIte {
		n := 16
		if iteConstLeaves(a, &n) {
			return c.mapIte(a, func(x *Term) *Term { return c.SExt(x, w) }, map[*Term]*Term{})
		}
	}
	return c.mk(OSExt, BV(w), 0, "", a)
}

// ---------------------------------------------------------------- floating point

func fval(w uint8, bits uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(bits)))
	}
	return math.Float64frombits(bits)
}
func fbits(w uint8, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (c *TermCtx) FConst(w int, f float64) *Term { return c.mk(OConst, FP(w), fbits(uint8(w), f), "") }
func (c *TermCtx) FBits(a *Term) *Term {
	s := FP(int(a.sort.W))
	if a.isConst() {
		return c.mk(OConst, s, a.val, "")
	}
	return c.mk(OFBits, s, 0, "", a)
}

func evalF(op Op, w uint8, x, y uint64) uint64 {
	a, b := fval(w, x), fval(w, y)
	switch op {
	case OFLt:
		return b2u(a < b)
	case OFLe:
		return b2u(a <= b)
	case OFEq:
		return b2u(a == b)
	case OFAdd:
		return fbits(w, a+b)
	case OFSub:
		return fbits(w, a-b)
	case OFMul:
		return fbits(w, a*b)
	case OFDiv:
		return fbits(w, a/b)
	}
	panic("evalF")
}

func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	rs := a.sort
	if op == OFLt || op == OFLe || op == OFEq {
		rs = BoolS
	}
	if a.isConst() && b.isConst() {
		v := evalF(op, a.sort.W, a.val, b.val)
		if rs.K == KBool {
			return c.Bool(v == 1)
		}
		return c.mk(OConst, rs, v, "")
	}
	if op == OFEq && a == b {
		return c.Not(c.FIsNaN(a))
	}
	return c.mk(op, rs, 0, "", a, b)
}
func (c *TermCtx) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return c.Bool(math.IsNaN(fval(a.sort.W, a.val)))
	}
	if a.op == OFCvt {
		return c.FIsNaN(a.args[0])
	}
	return c.mk(OFNaN, BoolS, 0, "", a)
}
func (c *TermCtx) FNeg(a *Term) *Term {
	if a.isConst() {
		return c.mk(OConst, a.sort, a.val^(1<<(a.sort.W-1)), "")
	}
	return c.mk(OFNeg, a.sort, 0, "", a)
}
func (c *TermCtx) FCvt(a *Term, w int) *Term {
	if int(a.sort.W) == w {
		return a
	}
	if a.isConst() {
		return c.FConst(w, fval(a.sort.W, a.val))
	}
	return c.mk(OFCvt, FP(w), 0, "", a)
}
func (c *TermCtx) ItoF(a *Term, signed bool, w int) *Term {
	if a.isConst() {
		if signed {
			return c.FConst(w, float64(sx(a.val, a.sort.W)))
		}
		return c.FConst(w, float64(a.val))
	}
	op := OUItoF
	if signed {
		op = OSItoF
	}
	return c.mk(op, FP(w), 0, "", a)
}

// ---------------------------------------------------------------- evaluation

type Model map[*Term]uint64

func (c *TermCtx) Eval(t *Term, m Model) uint64 {
	memo := map[*Term]uint64{}
	return c.eval(t, m, memo)
}

func (c *TermCtx) eval(t *Term, m Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[t]
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var v uint64
	switch t.op {
	case ONot:
		v = 1 - c.eval(t.args[0], m, memo)
	case OAnd:
		v = 1
		for _, a := range t.args {
			if c.eval(a, m, memo) == 0 {
				v = 0
				break
			}
		}
	case OOr:
		for _, a := range t.args {
			if c.eval(a, m, memo) == 1 {
				v = 1
				break
			}
		}
	case OEq:
		v = b2u(c.eval(t.args[0], m, memo) == c.eval(t.args[1], m, memo))
	case OIte:
		if c.eval(t.args[0], m, memo) == 1 {
			v = c.eval(t.args[1], m, memo)
		} else {
			v = c.eval(t.args[2], m, memo)
		}
	case OBNot:
		v = ^c.eval(t.args[0], m, memo) & mask(t.sort.W)
	case OExtract:
		v = c.eval(t.args[0], m, memo) >> (t.val & 0xff) & mask(t.sort.W)
	case OZExt:
		v = c.eval(t.args[0], m, memo)
	case OSExt:
		v = uint64(sx(c.eval(t.args[0], m, memo), t.args[0].sort.W)) & mask(t.sort.W)
	case OFNaN:
		v = b2u(math.IsNaN(fval(t.args[0].sort.W, c.eval(t.args[0], m, memo))))
	case OFBits:
		v = c.eval(t.args[0], m, memo)
	case OFNeg:
		v = c.eval(t.args[0], m, memo) ^ (1 << (t.sort.W - 1))
	case OFCvt:
		v = fbits(t.sort.W, fval(t.args[0].sort.W, c.eval(t.args[0], m, memo)))
	case OSItoF:
		v = fbits(t.sort.W, float64(sx(c.eval(t.args[0], m, memo), t.args[0].sort.W)))
	case OUItoF:
		v = fbits(t.sort.W, float64(c.eval(t.args[0], m, memo)))
	case OFLt, OFLe, OFEq, OFAdd, OFSub, OFMul, OFDiv:
		v = evalF(t.op, t.args[0].sort.W, c.eval(t.args[0], m, memo), c.eval(t.args[1], m, memo))
	default:
		v, _ = evalBin(t.op, t.args[0].sort.W, c.eval(t.args[0], m, memo), c.eval(t.args[1], m, memo))
	}
	memo[t] = v
	return v
}

// ---------------------------------------------------------------- SMT-LIB printing

func (t *Term) smtConst() string {
	switch t.sort.K {
	case KBool:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case KBV:
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort.W)
	}
	if t.sort.W == 32 {
		return fmt.Sprintf("((_ to_fp 8 24) (_ bv%d 32))", t.val)
	}
	return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", t.val)
}

func fpIdx(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// Definer remembers which terms a solver process already knows.
type Definer struct {
	done []bool
	eq   bool // define by a permanent equation, so that the solver keeps what it learns about the term
}

func (d *Definer) has(t *Term) bool { return t.id < len(d.done) && d.done[t.id] }

func (t *Term) smtName() string {
	if t.op == OVar {
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

// define emits declarations/definitions needed to mention t and returns the name to use.
func (t *Term) define(sb *strings.Builder, d *Definer) string {
	if t.op == OConst {
		return t.smtConst()
	}
	if d.has(t) {
		return t.smtName()
	}
	for len(d.done) <= t.id {
		d.done = append(d.done, make([]bool, t.id+64-len(d.done))...)
	}
	d.done[t.id] = true
	if t.op == OVar {
		s := t.sort
		if s.K == KFP {
			panic("FP var")
		}
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.smtName(), s.smt())
		return t.smtName()
	}
	args := make([]string, len(t.args))
	for i, a := range t.args {
		args[i] = a.define(sb, d)
	}
	var body string
	j := strings.Join(args, " ")
	switch t.op {
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, j)
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.sort.W-t.args[0].sort.W, j)
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.W-t.args[0].sort.W, j)
	case OFBits:
		body = fmt.Sprintf("((_ to_fp %s) %s)", fpIdx(t.sort.W), j)
	case OFCvt, OSItoF:
		body = fmt.Sprintf("((_ to_fp %s) RNE %s)", fpIdx(t.sort.W), j)
	case OUItoF:
		body = fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpIdx(t.sort.W), j)
	case OSatAdd, OSatSub:
		op := "bvadd"
		same := "="
		if t.op == OSatSub {
			op, same = "bvsub", "distinct"
		}
		w := t.sort.W
		sign := func(x string) string { return fmt.Sprintf("((_ extract %d %d) %s)", w-1, w-1, x) }
		body = fmt.Sprintf("(let ((s (%s %s))) (ite (and (%s %s %s) (distinct %s %s)) (ite (= %s #b1) (_ bv%d %d) (_ bv%d %d)) s))",
			op, j, same, sign(args[0]), sign(args[1]), sign("s"), sign(args[0]), sign(args[0]), uint64(1)<<(w-1), w, uint64(1)<<(w-1)-1, w)
	case OFAdd:
		body = "(fp.add RNE " + j + ")"
	case OFSub:
		body = "(fp.sub RNE " + j + ")"
	case OFMul:
		body = "(fp.mul RNE " + j + ")"
	case OFDiv:
		body = "(fp.div RNE " + j + ")"
	default:
		body = "(" + opName[t.op] + " " + j + ")"
	}
	if d.eq && t.sort.K != KFP {
		fmt.Fprintf(sb, "(declare-const %s %s)\n(assert (= %s %s))\n", t.smtName(), t.sort.smt(), t.smtName(), body)
		return t.smtName()
	}
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", t.smtName(), t.sort.smt(), body)
	return t.smtName()
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.sort.K == KBV {
			return fmt.Sprint(sx(t.val, t.sort.W))
		}
		return t.smtConst()
	case OVar:
		return t.name
	}
	var s []string
	for _, a := range t.args {
		s = append(s, a.String())
	}
	n := opName[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	return "(" + n + " " + strings.Join(s, " ") + ")"
}
