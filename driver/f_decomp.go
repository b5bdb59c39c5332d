package main

import (
	"fmt"

	"github.com/mmcloughlin/addchain/alg/dict"
)

// decomposer builds a decomposition method from [method, K, T].
func decomposer(m string, k, t uint) dict.Decomposer {
	switch m {
	case "fixed":
		return dict.FixedWindow{K: k}
	case "sliding":
		return dict.SlidingWindow{K: k}
	case "run":
		return dict.RunLength{T: t}
	case "hybrid":
		return dict.Hybrid{K: k, T: t}
	}
	panic(fmt.Sprintf("unknown method %q", m))
}

func init() {
	// decomp: [method, K, T, x] -> terms, Sum.Int, dictionary, x afterwards
	reg("decomp", func(a V) V {
		d := decomposer(str(at(a, 0)), uint(integer(at(a, 1))), uint(integer(at(a, 2))))
		x := nat(at(a, 3))
		s := d.Decompose(x)
		terms := L{}
		for _, t := range s {
			terms = append(terms, R{"d": Nat{t.D}, "e": t.E})
		}
		sum := Nat{s.Int()}
		dic := Nats(s.Dictionary())
		after := L{}
		for _, t := range s {
			after = append(after, R{"d": Nat{t.D}, "e": t.E})
		}
		return R{"terms": terms, "int": sum, "dict": dic, "x": Nat{x}, "after": after}
	})
}
