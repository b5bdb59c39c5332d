package main

import (
	"fmt"
	"math/big"

	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/binary"
	"github.com/mmcloughlin/addchain/alg/contfrac"
	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/exec"
	"github.com/mmcloughlin/addchain/alg/heuristic"
	"github.com/mmcloughlin/addchain/alg/opt"
)

func heur(name string) heuristic.Heuristic {
	switch name {
	case "halving":
		return heuristic.Halving{}
	case "delta":
		return heuristic.DeltaLargest{}
	case "approx":
		return heuristic.Approximation{}
	}
	panic(fmt.Sprintf("unknown heuristic %q", name))
}

// seqalg builds a sequence algorithm: ["cf", strategy] or ["h", name...]
// (one name: the heuristic itself; several: use_first).
func seqalg(a V) alg.SequenceAlgorithm {
	switch str(at(a, 0)) {
	case "cf":
		switch str(at(a, 1)) {
		case "binary":
			return contfrac.NewAlgorithm(contfrac.BinaryStrategy{})
		case "co_binary":
			return contfrac.NewAlgorithm(contfrac.CoBinaryStrategy{})
		case "dichotomic":
			return contfrac.NewAlgorithm(contfrac.DichotomicStrategy{})
		case "sqrt":
			return contfrac.NewAlgorithm(contfrac.SqrtStrategy{})
		case "total":
			return contfrac.NewAlgorithm(contfrac.TotalStrategy{})
		case "dyadic":
			return contfrac.NewAlgorithm(contfrac.DyadicStrategy{})
		case "fermat":
			return contfrac.NewAlgorithm(contfrac.FermatStrategy{})
		}
	case "h":
		names := list(a)[1:]
		if len(names) == 1 {
			return heuristic.NewAlgorithm(heur(str(names[0])))
		}
		hs := []heuristic.Heuristic{}
		for _, n := range names {
			hs = append(hs, heur(str(n)))
		}
		return heuristic.NewAlgorithm(heuristic.UseFirst(hs...))
	}
	panic(fmt.Sprintf("unknown sequence algorithm %v", a))
}

func decomp(m string, k, t uint) dict.Decomposer {
	switch m {
	case "fixed":
		return dict.FixedWindow{K: k}
	case "sliding":
		return dict.SlidingWindow{K: k}
	case "run":
		return dict.RunLength{T: t}
	case "hybrid":
		return dict.Hybrid{K: k, T: t}
	}
	panic(fmt.Sprintf("unknown method %q", m))
}

// chainalg builds a chain algorithm from a configuration.
func chainalg(c V) alg.ChainAlgorithm {
	var a alg.ChainAlgorithm
	switch str(field(c, "k")) {
	case "dict":
		a = dict.NewAlgorithm(decomp(str(field(c, "m")), uint(integer(field(c, "K"))), uint(integer(field(c, "T")))), seqalg(field(c, "seq")))
	case "runs":
		a = dict.NewRunsAlgorithm(seqalg(field(c, "seq")))
	case "seq":
		a = alg.AsChainAlgorithm(seqalg(field(c, "seq")))
	case "bin":
		a = binary.RightToLeft{}
	}
	if boolean(field(c, "opt")) {
		a = opt.Algorithm{Algorithm: a}
	}
	return a
}

// runAll executes the algorithms on n, twice each, and lists the distinct
// outcomes once.
func runAll(n *big.Int, as []alg.ChainAlgorithm, fresh func(i int) alg.ChainAlgorithm) V {
	res, index := L{}, map[string]int{}
	one := func(x *big.Int, a alg.ChainAlgorithm) int {
		r := exec.Execute(x, a)
		var v V
		if r.Err != nil {
			v = R{"ok": false, "err": ascii(r.Err.Error()), "alg": ascii(a.String())}
		} else {
			prog := make(L, len(r.Program))
			for i, op := range r.Program {
				prog[i] = L{op.I, op.J}
			}
			v = R{"ok": true, "chain": Nats(r.Chain), "prog": prog, "sametarget": r.Target.Cmp(n) == 0}
		}
		k := string(enc(nil, v))
		i, ok := index[k]
		if !ok {
			i = len(res) + 1
			index[k] = i
			res = append(res, v)
		}
		return i
	}
	which, again := L{}, L{}
	x := new(big.Int).Set(n)
	for _, a := range as {
		which = append(which, one(x, a))
	}
	x2 := new(big.Int).Set(n)
	for i := range as {
		again = append(again, one(x2, fresh(i)))
	}
	return R{"res": res, "which": which, "again": again, "n": Nat{x}, "n2": Nat{x2}}
}

func init() {
	// algs: {n, cfgs}
	reg("algs", func(a V) V {
		cfgs := list(field(a, "cfgs"))
		as := []alg.ChainAlgorithm{}
		for _, c := range cfgs {
			as = append(as, chainalg(c))
		}
		return runAll(nat(field(a, "n")), as, func(i int) alg.ChainAlgorithm { return chainalg(cfgs[i]) })
	})

	// ens: {n, lo, step}: every step-th member of the default ensemble from lo
	reg("ens", func(a V) V {
		all := ensemble.Ensemble()
		as := []alg.ChainAlgorithm{}
		for i := integer(field(a, "lo")); i < len(all); i += integer(field(a, "step")) {
			as = append(as, all[i])
		}
		// the second time with the same algorithm values
		r := runAll(nat(field(a, "n")), as, func(i int) alg.ChainAlgorithm { return as[i] }).(R)
		r["size"] = len(all)
		return r
	})

	// seq: {targets, seq}
	reg("seq", func(a V) V {
		ts := nats(field(a, "targets"))
		c, err := seqalg(field(a, "seq")).FindSequence(ts)
		if err != nil {
			return R{"ok": false, "err": ascii(err.Error()), "targets": Nats(ts)}
		}
		return R{"ok": true, "chain": Nats(c), "targets": Nats(ts)}
	})
}
