package main

import (
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg/opt"
)

// fixedChain is a chain algorithm that always finds the given chain.
type fixedChain struct{ c addchain.Chain }

func (f fixedChain) FindChain(*big.Int) (addchain.Chain, error) { return f.c, nil }
func (f fixedChain) String() string                             { return "fixed" }

func init() {
	// optimize: chain -> Optimize(c), opt.Algorithm over c, c afterwards
	reg("optimize", func(a V) V {
		c := addchain.Chain(nats(a))
		o, err := opt.Optimize(c)
		r := R{"ok": err == nil, "after": Nats(c)}
		if err == nil {
			r["c"] = Nats(o)
		}
		c2 := addchain.Chain(nats(a))
		n := new(big.Int).Set(c2[len(c2)-1])
		o2, err := opt.Algorithm{Algorithm: fixedChain{c2}}.FindChain(n)
		r["ok2"] = err == nil
		if err == nil {
			r["c2"] = Nats(o2)
		}
		r["after2"] = Nats(c2)
		return r
	})
}
