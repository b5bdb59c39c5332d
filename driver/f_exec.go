package main

import (
	"errors"
	"io/ioutil"
	"log"
	"math/big"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/exec"
)

// recorder notes what the executor does, in one order.
type recorder struct {
	mu       sync.Mutex
	events   L
	running  map[int]bool
	ended    int
	returned bool
	release  []chan struct{}
}

func (r *recorder) event(k string, i int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.events = append(r.events, L{k, i})
	switch k {
	case "s":
		r.running[i] = true
	case "e":
		delete(r.running, i)
		r.ended++
	case "r":
		r.returned = true
	}
}

// gated is an algorithm that waits for permission to finish.
type gated struct {
	id   int
	kind string
	name string
	rec  *recorder // nil: run freely
}

// String is a display name, which need not be unique.
func (g *gated) String() string { return g.name }

func (g *gated) FindChain(n *big.Int) (addchain.Chain, error) {
	if g.rec != nil {
		g.rec.event("s", g.id)
		<-g.rec.release[g.id-1]
		defer g.rec.event("e", g.id)
	}
	// the binary chain of n with detours that depend on the algorithm
	c := addchain.Chain{}
	x := big.NewInt(1)
	seen := map[string]bool{}
	add := func(v *big.Int) {
		if !seen[v.String()] {
			seen[v.String()] = true
			c = append(c, new(big.Int).Set(v))
		}
	}
	add(x)
	for i := n.BitLen() - 2; i >= 0; i-- {
		x = new(big.Int).Lsh(x, 1)
		add(x)
		if n.Bit(i) == 1 {
			x = new(big.Int).Add(x, big.NewInt(1))
			add(x)
		}
	}
	switch g.kind {
	case "err":
		return nil, errors.New("failure of alg" + itoa(g.id))
	case "invalid":
		add(new(big.Int).Add(new(big.Int).Lsh(x, 3), big.NewInt(int64(g.id))))
		return c, nil
	case "wrongend":
		for i := 0; i < g.id; i++ {
			x = new(big.Int).Lsh(x, 1)
			add(x)
		}
		return c, nil
	case "nil":
		return addchain.Chain{big.NewInt(int64(g.id) + 1)}, nil
	}
	// redundant powers of two make the results of the algorithms differ
	p := big.NewInt(1)
	for i := 0; i < g.id; i++ {
		if p = new(big.Int).Lsh(p, 1); p.Cmp(n) < 0 {
			add(p)
		}
	}
	sort.Slice(c, func(i, j int) bool { return c[i].Cmp(c[j]) < 0 })
	return c, nil
}

type sleepy struct {
	mu     sync.Mutex
	k      int
	delays []int
}

func (s *sleepy) Write(b []byte) (int, error) {
	s.mu.Lock()
	d := 0
	if len(s.delays) > 0 {
		d = s.delays[s.k%len(s.delays)]
	}
	s.k++
	s.mu.Unlock()
	if d > 0 {
		time.Sleep(time.Duration(d) * time.Microsecond)
	} else {
		runtime.Gosched()
	}
	return len(b), nil
}

// slot describes a result; id maps algorithms to positions.
func slot(r exec.Result, n *big.Int, id func(alg.ChainAlgorithm) int) V {
	v := R{"alg": 0, "ok": r.Err == nil, "err": "", "chain": L{}, "prog": L{}, "target": r.Target != nil && r.Target.Cmp(n) == 0}
	if r.Algorithm != nil {
		v["alg"] = id(r.Algorithm)
	}
	if r.Err != nil {
		v["err"] = ascii(r.Err.Error())
	}
	c := L{}
	for _, x := range r.Chain {
		if x == nil {
			c = append(c, "nil")
		} else {
			c = append(c, Nat{x})
		}
	}
	v["chain"] = c
	p := L{}
	for _, op := range r.Program {
		p = append(p, L{op.I, op.J})
	}
	v["prog"] = p
	return v
}

func init() {
	// exec.run: one schedule of the parallel executor
	reg("exec.run", func(a V) V {
		n, limit := integer(field(a, "n")), integer(field(a, "limit"))
		order := ints(field(a, "order"))
		x := nat(field(a, "x"))
		want := new(big.Int).Set(x)
		settle := time.Duration(integer(field(a, "settle"))) * 20 * time.Microsecond
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(integer(field(a, "procs"))))

		rec := &recorder{running: map[int]bool{}}
		as, solo := []alg.ChainAlgorithm{}, []alg.ChainAlgorithm{}
		for i := 1; i <= n; i++ {
			rec.release = append(rec.release, make(chan struct{}))
			k := str(at(field(a, "kinds"), i-1))
			name := "alg" + itoa(integer(at(field(a, "names"), i-1)))
			as = append(as, &gated{id: i, kind: k, name: name, rec: rec})
			solo = append(solo, &gated{id: i, kind: k, name: name})
		}
		id := func(a alg.ChainAlgorithm) int { return a.(*gated).id }

		p := exec.NewParallel()
		if w := integer(field(a, "warm")); w > 0 {
			p.SetConcurrency(w)
			p.Execute(new(big.Int).Add(want, big.NewInt(1)), solo)
			p.Execute(x, solo[:len(solo)/2])
		}
		p.SetConcurrency(limit)
		if boolean(field(a, "log")) {
			p.SetLogger(log.New(&sleepy{delays: ints(field(a, "delays"))}, "", 0))
		} else {
			p.SetLogger(log.New(ioutil.Discard, "", 0))
		}

		ret := make(chan []exec.Result, 1)
		go func() {
			rs := p.Execute(x, as)
			rec.event("r", 0)
			ret <- rs
		}()

		// wait polls until cond holds.
		wait := func(d time.Duration, cond func() bool) bool {
			for t := time.Now(); ; {
				rec.mu.Lock()
				ok := cond()
				rec.mu.Unlock()
				if ok {
					return true
				}
				if time.Since(t) > d {
					return false
				}
				runtime.Gosched()
				if time.Since(t) > 200*time.Microsecond {
					time.Sleep(20 * time.Microsecond)
				}
			}
		}
		stuck := false
		left := append([]int{}, order...)
		for len(left) > 0 {
			// everything that may run is running (or is not going to)
			wait(40*time.Millisecond, func() bool {
				want := n - rec.ended
				if want > limit {
					want = limit
				}
				return len(rec.running) >= want
			})
			time.Sleep(settle)
			if !wait(20*time.Second, func() bool { return len(rec.running) > 0 }) {
				stuck = true
				break
			}
			// the preferred one of those running
			pick := -1
			rec.mu.Lock()
			for k, w := range left {
				if rec.running[w] {
					pick = k
					break
				}
			}
			before := rec.ended
			rec.mu.Unlock()
			if pick < 0 { // runs something twice
				stuck = true
				break
			}
			w := left[pick]
			left = append(left[:pick], left[pick+1:]...)
			rec.release[w-1] <- struct{}{}
			wait(20*time.Second, func() bool { return rec.ended > before })
		}
		for i := range rec.release {
			close(rec.release[i])
		}
		var rs []exec.Result
		select {
		case rs = <-ret:
		case <-time.After(20 * time.Second):
			stuck = true
		}
		slots, alone := L{}, L{}
		for _, r := range rs {
			slots = append(slots, slot(r, want, id))
		}
		for _, s := range solo {
			alone = append(alone, slot(exec.Execute(new(big.Int).Set(want), s), want, id))
		}
		rec.mu.Lock()
		defer rec.mu.Unlock()
		return R{"events": append(L{}, rec.events...), "slots": slots, "alone": alone, "stuck": stuck, "target": x.Cmp(want) == 0}
	})

	// exec.ens: members of the default ensemble in parallel, twice at once if asked
	reg("exec.ens", func(a V) V {
		return together(a, func() []alg.ChainAlgorithm {
			as := []alg.ChainAlgorithm{}
			all := ensemble.Ensemble()
			for i := integer(field(a, "lo")); i < len(all); i += integer(field(a, "step")) {
				as = append(as, all[i])
				// algorithms may be listed more than once
				for k := integer(field(a, "again")); k > 0; k-- {
					as = append(as, as[len(as)-1-(len(as)-1)%k])
				}
			}
			return as
		})
	})

	// exec.mix: any configurations in parallel
	reg("exec.mix", func(a V) V {
		return together(a, func() []alg.ChainAlgorithm {
			as := []alg.ChainAlgorithm{}
			for _, c := range list(field(a, "cfgs")) {
				as = append(as, chainalg(c))
				// the same algorithm value, or an equal one
				for k := integer(field(a, "again")); k > 0; k-- {
					if k%2 == 0 {
						as = append(as, chainalg(c))
					} else {
						as = append(as, as[len(as)-1])
					}
				}
			}
			return as
		})
	})
}

// together executes the algorithms in parallel, twice at once if asked, and each alone.
func together(a V, sub func() []alg.ChainAlgorithm) V {
	x := nat(field(a, "n"))
	want := new(big.Int).Set(x)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(integer(field(a, "procs"))))
	as := sub()
	p := exec.NewParallel()
	if l := integer(field(a, "limit")); l != 200 { // otherwise the default
		p.SetConcurrency(l)
	}
	var rs, rs2 []exec.Result
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); rs = p.Execute(x, as) }()
	if boolean(field(a, "twice")) {
		rs2 = p.Execute(x, as)
		wg.Wait()
	} else {
		wg.Wait()
		rs2 = rs
	}
	out := func(rs []exec.Result, as []alg.ChainAlgorithm) L {
		l := L{}
		for i, r := range rs {
			ok := i < len(as) && r.Algorithm != nil && r.Algorithm.String() == as[i].String()
			l = append(l, slot(r, want, func(alg.ChainAlgorithm) int {
				if ok {
					return i + 1
				}
				return 0
			}))
		}
		return l
	}
	fresh := sub()
	ars := []exec.Result{}
	for _, s := range fresh {
		ars = append(ars, exec.Execute(new(big.Int).Set(want), s))
	}
	return R{"slots": out(rs, as), "slots2": out(rs2, as), "alone": out(ars, fresh), "target": x.Cmp(want) == 0}
}
