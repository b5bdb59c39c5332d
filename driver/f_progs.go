package main

import (
	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg/ensemble"
)

func init() {
	// searchprog: [n, k] -> the program the k-th ensemble algorithm finds for n
	reg("searchprog", func(a V) V {
		as := ensemble.Ensemble()
		c, err := as[integer(at(a, 1))%len(as)].FindChain(nat(at(a, 0)))
		if err != nil {
			return L{}
		}
		p, err := addchain.Chain(c).Program()
		if err != nil {
			return L{}
		}
		return pairs(p)
	})
}
