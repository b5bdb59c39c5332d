package main

import (
	"math/big"

	"github.com/mmcloughlin/addchain"
)

// signed decodes either a plain integer or <<sign, magnitude>>.
func signed(v V) *big.Int {
	if i, ok := v.(int); ok {
		return big.NewInt(int64(i))
	}
	return sgn(v)
}

func signeds(v V) []*big.Int {
	l := list(v)
	r := make([]*big.Int, len(l))
	for i := range l {
		r[i] = signed(l[i])
	}
	return r
}

func same(xs, ys []*big.Int) bool {
	if len(xs) != len(ys) {
		return false
	}
	for i := range xs {
		if xs[i] == nil || ys[i] == nil || xs[i].Cmp(ys[i]) != 0 {
			return false
		}
	}
	return true
}

func pair(i, j int) V { return L{i, j} }

func pairs(p addchain.Program) L {
	l := L{}
	for _, op := range p {
		l = append(l, pair(op.I, op.J))
	}
	return l
}

func program(v V) addchain.Program {
	p := addchain.Program{}
	for _, o := range list(v) {
		p = append(p, addchain.Op{I: integer(at(o, 0)), J: integer(at(o, 1))})
	}
	return p
}

func init() {
	// chain: [c, ns, tss, ops?] -> everything the validator says about c
	reg("chain", func(a V) V {
		c := addchain.Chain(signeds(at(a, 0)))
		ns := signeds(at(a, 1))
		r := R{"valid": c.Validate() == nil, "asc": c.IsAscending()}
		prod := L{}
		for _, n := range ns {
			prod = append(prod, c.Produces(n) == nil)
		}
		r["prod"] = prod
		sup := L{}
		for _, ts := range list(at(a, 2)) {
			sup = append(sup, c.Superset(signeds(ts)) == nil)
		}
		r["sup"] = sup
		ops, op := L{}, L{}
		for k := range c {
			ks := L{}
			for _, o := range c.Ops(k) {
				ks = append(ks, pair(o.I, o.J))
			}
			ops = append(ops, ks)
			o, err := c.Op(k)
			op = append(op, R{"ok": err == nil, "i": o.I, "j": o.J})
		}
		r["ops"], r["op"] = ops, op
		p, err := c.Program()
		r["progok"] = err == nil
		if err == nil {
			r["prog"] = pairs(p)
			r["same"] = same(p.Evaluate(), c)
		}
		r["kept"] = same(c, signeds(at(a, 0))) && same(ns, signeds(at(a, 1)))
		return r
	})

	// builder: a list of calls [op, i, j] -> outcome and program after each
	reg("builder", func(a V) V {
		p := addchain.Program{}
		out := L{}
		for _, call := range list(a) {
			i, j := integer(at(call, 1)), integer(at(call, 2))
			var idx int
			var err error
			switch str(at(call, 0)) {
			case "add":
				idx, err = p.Add(i, j)
			case "double":
				idx, err = p.Double(i)
			case "shift":
				idx, err = p.Shift(i, uint(j))
			}
			out = append(out, R{"ok": err == nil, "idx": idx, "prog": pairs(p)})
		}
		return out
	})

	// builderlong: calls with queries in between -> result of each, final program
	reg("builderlong", func(a V) V {
		p := addchain.Program{}
		out := L{}
		for _, call := range list(a) {
			i, j := integer(at(call, 1)), integer(at(call, 2))
			var idx int
			var err error
			switch str(at(call, 0)) {
			case "query":
				d, s := p.Count()
				deps := []int{}
				for _, b := range p.Dependencies() {
					c := 0
					for i := 0; i < b.BitLen(); i++ {
						c += int(b.Bit(i))
					}
					deps = append(deps, c)
				}
				out = append(out, R{"n": len(p), "doubles": d, "adds": s, "reads": Ints(p.ReadCounts()), "deps": Ints(deps), "end": Nat{p.Evaluate().End()}})
				continue
			case "add":
				idx, err = p.Add(i, j)
			case "double":
				idx, err = p.Double(i)
			case "shift":
				idx, err = p.Shift(i, uint(j))
			}
			out = append(out, R{"ok": err == nil, "idx": idx, "n": len(p)})
		}
		return R{"steps": out, "prog": pairs(p)}
	})

	// analyse: program -> evaluation, counts, read counts, dependency sets
	reg("analyse", func(a V) V {
		p := program(a)
		c := p.Evaluate()
		d, s := p.Count()
		deps := L{}
		for _, b := range p.Dependencies() {
			l := L{}
			for i := 0; i < b.BitLen(); i++ {
				if b.Bit(i) == 1 {
					l = append(l, i)
				}
			}
			deps = append(deps, l)
		}
		return R{
			"chain": Nats(c), "doubles": d, "adds": s, "doubles1": p.Doubles(), "adds1": p.Adds(),
			"reads": Ints(p.ReadCounts()), "deps": deps, "prog": pairs(p),
		}
	})

	// product: [a, b] -> product and the arguments afterwards
	reg("product", func(a V) V {
		x, y := addchain.Chain(nats(at(a, 0))), addchain.Chain(nats(at(a, 1)))
		x = append(make(addchain.Chain, 0, len(x)+8), x...)
		y = append(make(addchain.Chain, 0, len(y)+8), y...)
		z := addchain.Product(x, y)
		addchain.Product(x, addchain.Chain{big.NewInt(1), big.NewInt(2)})
		addchain.Plus(x, x.End())
		addchain.Plus(y, y.End())
		return R{"c": Nats(z), "a": Nats(x), "b": Nats(y)}
	})

	// plus: [a, x]
	reg("plus", func(a V) V {
		c, x := addchain.Chain(nats(at(a, 0))), nat(at(a, 1))
		// A chain with room to grow, extended twice.
		c = append(make(addchain.Chain, 0, len(c)+8), c...)
		z := addchain.Plus(c, x)
		addchain.Plus(c, addchain.Plus(c, c.End()).End())
		addchain.Product(c, addchain.Chain{big.NewInt(1), big.NewInt(2)})
		return R{"c": Nats(z), "a": Nats(c), "x": Nat{x}}
	})
}
