package main

import (
	"math/big"

	"github.com/mmcloughlin/addchain/internal/bigint"
	"github.com/mmcloughlin/addchain/internal/bigints"
	"github.com/mmcloughlin/addchain/internal/bigvector"
)

func vec(v V) bigvector.Vector {
	l := list(v)
	// build as a sum of shifted basis vectors, the way the library does
	w := bigvector.New(len(l))
	for i := range l {
		x := nat(l[i])
		for b := 0; b < x.BitLen(); b++ {
			if x.Bit(b) == 1 {
				w = bigvector.Add(w, bigvector.Lsh(bigvector.NewBasis(len(l), i), uint(b)))
			}
		}
	}
	return w
}

func vecOut(v bigvector.Vector) L {
	l := L{}
	for i := 0; i < v.Len(); i++ {
		l = append(l, Nat{new(big.Int).Set(v.Idx(i))})
	}
	return l
}

// roomy is xs in a slice with room to grow, as a caller that builds lists by
// appending has it.
func roomy(xs []*big.Int) []*big.Int {
	return append(make([]*big.Int, 0, len(xs)+4), xs...)
}

// twice calls f, lets the caller write the integers it was given, and calls f
// again with fresh arguments.  The answers have to be the same; where they are
// not, one is wrong and a number nothing asks for stands for it.
func twice(f func() []*big.Int) []*big.Int {
	first := f()
	keep := make([]*big.Int, len(first))
	for i, x := range first {
		keep[i] = new(big.Int).Set(x)
		x.Add(x, big.NewInt(1))
		x.Lsh(x, 3)
	}
	second := f()
	same := len(second) == len(keep)
	for i := 0; same && i < len(keep); i++ {
		same = second[i].Cmp(keep[i]) == 0
	}
	if !same {
		return []*big.Int{new(big.Int).Lsh(big.NewInt(1), 5000)}
	}
	return keep
}

func once2(f func() *big.Int) Nat {
	return Nat{twice(func() []*big.Int { return []*big.Int{f()} })[0]}
}

func init() {
	// bits: [l, h, n] -> Mask(l, h), Ones(n), Pow2(n)
	reg("h.mask", func(a V) V {
		l, h, n := uint(integer(at(a, 0))), uint(integer(at(a, 1))), uint(integer(at(a, 2)))
		return R{"mask": once2(func() *big.Int { return bigint.Mask(l, h) }), "ones": once2(func() *big.Int { return bigint.Ones(n) }),
			"pow2": once2(func() *big.Int { return bigint.Pow2(n) })}
	})

	// extract: [x, l, h]
	reg("h.extract", func(a V) V {
		x := nat(at(a, 0))
		e := bigint.Extract(x, uint(integer(at(a, 1))), uint(integer(at(a, 2))))
		e2 := once2(func() *big.Int {
			return bigint.Extract(nat(at(a, 0)), uint(integer(at(a, 1))), uint(integer(at(a, 2))))
		})
		if e2.X.Cmp(e) != 0 {
			e = e2.X
		}
		return R{"r": Nat{e}, "x": Nat{x}}
	})

	// unary: x -> the single-argument helpers
	reg("h.unary", func(a V) V {
		x := nat(a)
		r := R{}
		r["ispow2"] = bigint.IsPow2(x)
		r["pow2upto"] = Nats(twice(func() []*big.Int { return bigint.Pow2UpTo(nat(a)) }))
		bigint.Pow2UpTo(x)
		r["bitsset"] = Ints(bigint.BitsSet(x))
		ws := L{}
		for _, w := range bigint.Uint64s(x) {
			ws = append(ws, Nat{new(big.Int).SetUint64(w)})
		}
		r["uint64s"] = ws
		bs := L{}
		for _, b := range bigint.BytesLittleEndian(x) {
			bs = append(bs, int(b))
		}
		r["bytes"] = bs
		r["x"] = Nat{x}
		return r
	})

	// minmax: [x, y] signed
	reg("h.minmax", func(a V) V {
		x, y := sgn(at(a, 0)), sgn(at(a, 1))
		lo, hi := bigint.MinMax(x, y)
		return R{"min": Sgn{lo}, "max": Sgn{hi}, "x": Sgn{x}, "y": Sgn{y}, "eq": bigint.Equal(x, y)}
	})

	// parse: [base, text]
	reg("h.parse", func(a V) V {
		parse := bigint.Binary
		if integer(at(a, 0)) == 16 {
			parse = bigint.Hex
		}
		if _, ok := parse(text(at(a, 1))); !ok {
			return R{"ok": false}
		}
		return R{"ok": true, "x": once2(func() *big.Int {
			x, ok := parse(text(at(a, 1)))
			if !ok {
				x = new(big.Int).Lsh(big.NewInt(1), 5000)
			}
			return x
		})}
	})

	// lists: [xs, ys, n] signed; ys need not be sorted here
	reg("h.list", func(a V) V {
		xs, ys, n := roomy(sgns(at(a, 0))), roomy(sgns(at(a, 1))), sgn(at(a, 2))
		r := R{}
		r["index"] = bigints.Index(n, xs)
		r["contains"] = bigints.Contains(n, xs)
		cl := bigints.Clone(xs)
		r["clone"] = Sgns(cl)
		cc, un := bigints.Concat(xs, ys), bigints.Unique(xs)
		// later calls and appends leave earlier results alone
		bigints.Concat(xs, []*big.Int{big.NewInt(-77)})
		bigints.Unique(append(bigints.Clone(xs), big.NewInt(-78)))
		_ = append(xs, big.NewInt(-79), big.NewInt(-80))
		_ = append(bigints.Clone(xs), big.NewInt(-81))
		r["concat"], r["unique"] = Sgns(cc), Sgns(un)
		r["xs"], r["ys"], r["n"] = Sgns(xs), Sgns(ys), Sgn{n}
		// a clone is a separate list
		if len(cl) > 0 {
			cl[0] = new(big.Int).Add(cl[0], big.NewInt(1))
			_ = append(bigints.Concat(xs, ys)[:len(xs)], big.NewInt(77))
		}
		r["xs2"] = Sgns(xs)
		bigints.Sort(xs)
		r["sorted"] = Sgns(xs)
		return r
	})

	// sorted: [xs, ys, n] signed; xs and ys sorted without repeats
	reg("h.sorted", func(a V) V {
		xs, ys, n := roomy(sgns(at(a, 0))), roomy(sgns(at(a, 1))), sgn(at(a, 2))
		r := R{}
		r["contains"] = bigints.ContainsSorted(n, xs)
		ins := bigints.InsertSortedUnique(xs, n)
		mrg := bigints.MergeUnique(xs, ys)
		// the same lists used again: larger and smaller insertions, other merges
		far := new(big.Int).Lsh(big.NewInt(1), 700)
		bigints.InsertSortedUnique(xs, far)
		bigints.InsertSortedUnique(ys, far)
		bigints.InsertSortedUnique(xs, new(big.Int).Neg(far))
		bigints.MergeUnique(xs, []*big.Int{far})
		bigints.MergeUnique([]*big.Int{far}, ys)
		bigints.MergeUnique(ys, xs)
		r["insert"], r["merge"] = Sgns(ins), Sgns(mrg)
		r["xs"], r["ys"], r["n"] = Sgns(xs), Sgns(ys), Sgn{n}
		return r
	})

	// vector: [u, v, s, [n, i]]
	reg("h.vector", func(a V) V {
		u, v, s := vec(at(a, 0)), vec(at(a, 1)), uint(integer(at(a, 2)))
		n, i := integer(at(at(a, 3), 0)), integer(at(at(a, 3), 1))
		sum, sh := bigvector.Add(u, v), bigvector.Lsh(u, s)
		b := bigvector.NewBasis(n, i)
		r := R{"add": vecOut(sum), "lsh": vecOut(sh), "basis": vecOut(b), "zero": vecOut(bigvector.New(n)),
			"blsh": vecOut(bigvector.Lsh(b, s))}
		if n == u.Len() {
			r["badd"] = vecOut(bigvector.Add(u, b))
		} else {
			r["badd"] = L{}
		}
		r["u"], r["v"], r["b2"] = vecOut(u), vecOut(v), vecOut(bigvector.NewBasis(n, i))
		return r
	})
}
