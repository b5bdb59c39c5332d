package main

import "github.com/mmcloughlin/addchain/internal/calc"

func init() {
	reg("calc", func(a V) V {
		x, err := calc.Eval(text(a))
		if err != nil {
			return failed(err)
		}
		return R{"ok": true, "x": Sgn{x}}
	})
}
