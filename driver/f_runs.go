package main

import (
	"math/bits"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg/dict"
)

func init() {
	// runs: chain of lengths -> chain of runs
	reg("runs", func(a V) V {
		lc := addchain.Chain(nats(a))
		c, err := dict.RunsChain(lc)
		r := R{"ok": err == nil, "after": Nats(lc)}
		if err == nil {
			r["c"] = Nats(c)
		}
		return r
	})

	// bigruns: chain of lengths -> the derived chain with its runs of ones
	// written [s, l, n]: (2^l - 1) << s and its n doublings, one after the other;
	// "whole" when every element is a run of ones.
	reg("bigruns", func(a V) V {
		lc := addchain.Chain(nats(a))
		c, err := dict.RunsChain(lc)
		r := R{"ok": err == nil, "after": Nats(lc), "whole": true, "runs": L{}}
		if err != nil {
			return r
		}
		segs := [][3]int{}
		for _, x := range c {
			ones := 0
			for _, w := range x.Bits() {
				ones += bits.OnesCount(uint(w))
			}
			s := int(x.TrailingZeroBits())
			if x.Sign() <= 0 || s+ones != x.BitLen() {
				r["whole"] = false
				continue
			}
			if k := len(segs) - 1; k >= 0 && segs[k][1] == ones && segs[k][0]+segs[k][2]+1 == s {
				segs[k][2]++
			} else {
				segs = append(segs, [3]int{s, ones, 0})
			}
		}
		out := L{}
		for _, t := range segs {
			out = append(out, L{t[0], t[1], t[2]})
		}
		r["runs"] = out
		return r
	})
}
