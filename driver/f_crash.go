package main

import (
	"strings"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/internal/calc"
	"github.com/mmcloughlin/addchain/internal/gen"
)

// shifts is the total of the shift amounts in a script, capped.
func shifts(e ast.Expr) uint {
	switch e := e.(type) {
	case ast.Add:
		return capped(shifts(e.X) + shifts(e.Y))
	case ast.Double:
		return shifts(e.X)
	case ast.Shift:
		return capped(shifts(e.X) + capped(e.S))
	}
	return 0
}

func capped(n uint) uint {
	if n > 1<<20 {
		return 1 << 20
	}
	return n
}

func init() {
	// entries: the library entry points that take a script text, one after the
	// other; the result says how far they got. Shift amounts are bounded.
	reg("entries", func(a V) V {
		src := text(a)
		r := R{"parse": false, "translate": false, "eval": false, "build": false, "rebuilt": false, "print": false, "gen": 0}
		s, err := parse.String(src)
		if err != nil {
			if s2, err2 := parse.Reader("name", strings.NewReader(src)); err2 == nil || s2 != nil && err2 == nil {
				r["reader"] = true
			}
			_, _ = acc.LoadString(src)
			return r
		}
		r["parse"] = true
		t, err := printer.String(s)
		if err == nil {
			r["print"] = true
			_, _ = parse.String(t)
		}
		total := uint(0)
		for _, stmt := range s.Statements {
			total = capped(total + shifts(stmt.Expr))
		}
		p, err := acc.Translate(s)
		if err != nil {
			return r
		}
		r["translate"] = true
		_ = p.String()
		if total > 4000 {
			return r
		}
		if q, err := acc.Translate(s); err == nil {
			if b, err := acc.Build(q); err == nil {
				r["build"] = true
				if t, err := printer.String(b); err == nil {
					_, err = acc.LoadString(t)
					r["rebuilt"] = err == nil
				}
			}
		}
		r["eval"] = pass.Eval(p) == nil
		_, _ = acc.LoadString(src)
		cfg := gen.Config{Allocator: pass.Allocator{Input: "x", Output: "z", Format: "t%d"}}
		d, err := gen.PrepareData(cfg, s)
		if err != nil {
			return r
		}
		n := 0
		for _, typ := range gen.BuiltinTemplateNames() {
			tm, err := gen.BuiltinTemplate(typ)
			if err != nil {
				continue
			}
			var w strings.Builder
			if gen.Generate(&w, tm, d) == nil {
				n++
			}
		}
		r["gen"] = n
		return r
	})

	// expr: evaluation of an expression text
	reg("expr", func(a V) V {
		n, err := calc.Eval(text(a))
		return R{"ok": err == nil, "value": err == nil && n != nil}
	})
}
