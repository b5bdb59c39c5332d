package main

import (
	"math/big"
	"strings"

	"github.com/mmcloughlin/addchain/alg/ensemble"
)

func init() {
	// counts: the distinct [doublings, other additions] of the ensemble's results
	reg("counts", func(a V) V {
		n := nat(a)
		type da struct{ d, a int }
		seen := map[da]bool{}
		l := L{}
		for _, alg := range ensemble.Ensemble() {
			c, err := alg.FindChain(new(big.Int).Set(n))
			if err != nil {
				return R{"ok": false, "counts": l}
			}
			p, err := c.Program()
			if err != nil {
				return R{"ok": false, "counts": l}
			}
			k := da{}
			for _, op := range p {
				if op.I == op.J {
					k.d++
				} else {
					k.a++
				}
			}
			if !seen[k] {
				seen[k] = true
				l = append(l, L{k.d, k.a})
			}
		}
		return R{"ok": true, "counts": l}
	})

	// report: the cost in what search prints, as a fraction
	reg("report", func(a V) V {
		for _, line := range reversed(lines(text(a))) {
			k := strings.Index(line, "cost: ")
			if k < 0 {
				continue
			}
			t := strings.TrimSpace(line[k+len("cost: "):])
			r, ok := new(big.Rat).SetString(t)
			if !ok || r.Sign() < 0 {
				return R{"ok": false, "least": false, "text": ascii(t)}
			}
			// no result listed before it costs less
			least := true
			for _, other := range lines(text(a)) {
				i := strings.Index(other, "cost: ")
				if i < 0 {
					continue
				}
				f := strings.Fields(other[i+len("cost: "):])
				if len(f) == 0 {
					continue
				}
				if q, ok := new(big.Rat).SetString(f[0]); ok && q.Cmp(r) < 0 {
					least = false
				}
			}
			return R{"ok": true, "least": least, "num": Nat{r.Num()}, "den": Nat{r.Denom()}, "text": ascii(t)}
		}
		return R{"ok": false, "least": false, "text": ""}
	})
}

func reversed(l []string) []string {
	m := make([]string, len(l))
	for i, s := range l {
		m[len(l)-1-i] = s
	}
	return m
}
