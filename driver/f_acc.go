package main

import (
	"bytes"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/eval"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/internal/gen"
)

// ---- syntax trees -------------------------------------------------------------

func uintNat(u uint64) V { return Nat{new(big.Int).SetUint64(u)} }

func treeOut(e ast.Expr) V {
	switch e := e.(type) {
	case ast.Operand:
		return L{"op", uintNat(uint64(e))}
	case ast.Identifier:
		return L{"id", Bytes(e)}
	case ast.Add:
		return L{"add", treeOut(e.X), treeOut(e.Y)}
	case ast.Double:
		return L{"dbl", treeOut(e.X)}
	case ast.Shift:
		return L{"shl", treeOut(e.X), uintNat(uint64(e.S))}
	}
	panic(bad("expression node"))
}

func scriptOut(c *ast.Chain) V {
	l := L{}
	for _, s := range c.Statements {
		l = append(l, R{"n": Bytes(s.Name), "e": treeOut(s.Expr)})
	}
	return l
}

func treeIn(v V) ast.Expr {
	switch str(at(v, 0)) {
	case "op":
		return ast.Operand(nat(at(v, 1)).Uint64())
	case "id":
		return ast.Identifier(text(at(v, 1)))
	case "add":
		return ast.Add{X: treeIn(at(v, 1)), Y: treeIn(at(v, 2))}
	case "dbl":
		return ast.Double{X: treeIn(at(v, 1))}
	case "shl":
		return ast.Shift{X: treeIn(at(v, 1)), S: uint(nat(at(v, 2)).Uint64())}
	}
	panic("tree")
}

func scriptIn(v V) *ast.Chain {
	c := &ast.Chain{}
	for _, s := range list(v) {
		c.Statements = append(c.Statements, ast.Statement{Name: ast.Identifier(text(field(s, "n"))), Expr: treeIn(field(s, "e"))})
	}
	return c
}

// runs writes a program as operations each followed by a number of doublings
// of what has just been computed.
func runs(p addchain.Program) V {
	l := L{}
	for k := 0; k < len(p); {
		i, j, n := p[k].I, p[k].J, 0
		if i < j {
			i, j = j, i
		}
		for k++; k < len(p) && p[k].I == k && p[k].J == k; k++ {
			n++
		}
		l = append(l, L{i, j, n})
	}
	return l
}

func loadruns(t string) V {
	l, err := acc.LoadString(t)
	if err != nil {
		return R{"lok": false}
	}
	return R{"lok": true, "runs": runs(l.Program), "n": len(l.Chain), "end": Nat{l.Chain.End()}}
}

// ---- instructions ---------------------------------------------------------------

// insIn builds an instruction program; operands of equal index are one shared
// object, or separate copies.
func insIn(v V, shared bool) *ir.Program {
	objs := map[int]*ir.Operand{}
	operand := func(i int) *ir.Operand {
		if !shared {
			return ir.Index(i)
		}
		if objs[i] == nil {
			objs[i] = ir.Index(i)
		}
		return objs[i]
	}
	p := &ir.Program{}
	for _, e := range list(v) {
		x, y := operand(integer(field(e, "x"))), operand(integer(field(e, "y")))
		var op ir.Op
		switch str(field(e, "op")) {
		case "add":
			op = ir.Add{X: x, Y: y}
		case "dbl":
			op = ir.Double{X: x}
		case "shl":
			op = ir.Shift{X: x, S: uint(integer(field(e, "s")))}
		}
		p.AddInstruction(&ir.Instruction{Output: operand(integer(field(e, "out"))), Op: op})
	}
	return p
}

// insOut is an instruction list with operand indexes and names.
func insOut(p *ir.Program) V {
	l := L{}
	for _, i := range p.Instructions {
		r := R{"out": i.Output.Index, "on": Bytes(i.Output.Identifier)}
		switch op := i.Op.(type) {
		case ir.Add:
			r["op"], r["x"], r["y"], r["s"] = "add", op.X.Index, op.Y.Index, 0
			r["xn"], r["yn"] = Bytes(op.X.Identifier), Bytes(op.Y.Identifier)
		case ir.Double:
			r["op"], r["x"], r["y"], r["s"] = "dbl", op.X.Index, op.X.Index, 1
			r["xn"], r["yn"] = Bytes(op.X.Identifier), Bytes(op.X.Identifier)
		case ir.Shift:
			r["op"], r["x"], r["y"], r["s"] = "shl", op.X.Index, op.X.Index, op.S
			r["xn"], r["yn"] = Bytes(op.X.Identifier), Bytes(op.X.Identifier)
		default:
			panic(bad("instruction"))
		}
		l = append(l, r)
	}
	return l
}

func texts(ss []string) V {
	l := L{}
	for _, s := range ss {
		l = append(l, Bytes(s))
	}
	return l
}

func init() {
	// load: text -> tree, chain and operations
	loaded := func(s *ast.Chain, err error, long, short string, lp func() (*ir.Program, error)) V {
		r := R{"pok": false, "lok": false}
		if err == nil {
			if long != "" {
				shorten(s, long, short)
			}
			r["pok"], r["tree"] = true, scriptOut(s)
		}
		p, err := lp()
		if err == nil {
			r["lok"], r["chain"], r["ops"] = true, Nats(p.Chain), pairs(p.Program)
		}
		return r
	}
	load := func(src, long, short string) V {
		s, err := parse.String(src)
		return loaded(s, err, long, short, func() (*ir.Program, error) { return acc.LoadString(src) })
	}

	// loadvia: the text arrives in pieces through a reader, or from a file
	reg("loadvia", func(a V) V {
		src, name := text(field(a, "s")), text(field(a, "name"))
		if str(field(a, "end")) == "file" {
			dir, err := ioutil.TempDir(os.Getenv("VERIF_TMP"), "via")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			path := filepath.Join(dir, "f"+name+".acc")
			if err := ioutil.WriteFile(path, []byte(src), 0644); err != nil {
				panic(err)
			}
			s, err := parse.File(path)
			return loaded(s, err, "", "", func() (*ir.Program, error) { return acc.LoadFile(path) })
		}
		rd := func() *pieces {
			return &pieces{src: []byte(src), sizes: ints(field(a, "sizes")), end: str(field(a, "end"))}
		}
		s, err := parse.Reader(name, rd())
		return loaded(s, err, "", "", func() (*ir.Program, error) { return acc.LoadReader(name, rd()) })
	})
	reg("load", func(a V) V { return load(text(a), "", "") })

	// loadrep: [before, byte, count, after] -> load of the text with the byte
	// repeated count times; runs of that length inside names are reported as one
	reg("loadrep", func(a V) V {
		u := text(at(a, 1))
		long := strings.Repeat(u, integer(at(a, 2)))
		return load(text(at(a, 0))+long+text(at(a, 3)), long, u)
	})

	// parseonly: text -> tree
	reg("parseonly", func(a V) V {
		s, err := parse.String(text(a))
		if err != nil {
			return R{"pok": false}
		}
		return R{"pok": true, "tree": scriptOut(s)}
	})

	// print: tree -> text, the tree parsed back, and the text printed again
	reg("print", func(a V) V {
		return printed(scriptIn(a))
	})

	// fmt: text -> tree, and what printing does with it
	reg("fmt", func(a V) V {
		s, err := parse.String(text(a))
		if err != nil {
			return R{"pok": false}
		}
		return R{"pok": true, "tree": scriptOut(s), "p": printed(s)}
	})

	// printexpr: a bare expression, parsed back as the expression of a return statement
	reg("printexpr", func(a V) V {
		t, err := printer.String(treeIn(a))
		if err != nil {
			return R{"ok": false}
		}
		t = "return " + t
		s, err := parse.String(t)
		if err != nil {
			return R{"ok": true, "text": Bytes(t), "back": false}
		}
		return R{"ok": true, "text": Bytes(t), "back": true, "tree": scriptOut(s)}
	})

	// roundtrip: program of pairs -> instructions, script, text, and what the text loads to
	reg("roundtrip", func(a V) V {
		p := program(a)
		d, err := acc.Decompile(p)
		if err != nil {
			return failed(err)
		}
		r := R{"ok": false, "ins": insOut(d)}
		c := d.Clone()
		if err := pass.Eval(c); err != nil {
			return failed(err)
		}
		r["iops"] = pairs(c.Program)
		r["valid"] = pass.Validate.Execute(d) == nil
		s, err := acc.Build(d)
		if err != nil {
			return failed(err)
		}
		r["tree"] = scriptOut(s)
		t, err := printer.String(s)
		if err != nil {
			return failed(err)
		}
		r["text"] = Bytes(t)
		b, err := acc.String(d)
		r["ok"], r["string"] = true, err == nil && b == t
		l, err := acc.LoadString(t)
		r["lok"] = err == nil
		if err == nil {
			r["chain"], r["ops"] = Nats(l.Chain), pairs(l.Program)
		}
		kept := len(p) == len(list(a))
		for i, o := range program(a) {
			kept = kept && p[i] == o
		}
		r["kept"] = kept
		return r
	})

	// saved: program of pairs -> saved to a file that exists already, and loaded from it
	reg("saved", func(a V) V {
		d, err := acc.Decompile(program(field(a, "ops")))
		if err != nil {
			return failed(err)
		}
		dir, err := ioutil.TempDir(os.Getenv("VERIF_TMP"), "saved")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "p.acc")
		if was := bytesOf(field(a, "was")); len(was) > 0 {
			if err := ioutil.WriteFile(path, was, 0644); err != nil {
				panic(err)
			}
		}
		for i := integer(field(a, "times")); i > 0; i-- {
			if err := acc.Save(path, d); err != nil {
				return failed(err)
			}
		}
		t, err := ioutil.ReadFile(path)
		if err != nil {
			return failed(err)
		}
		r := R{"ok": true, "text": Bytes(t), "lok": false}
		l, err := acc.LoadFile(path)
		if err == nil {
			r["lok"], r["chain"], r["ops"] = true, Nats(l.Chain), pairs(l.Program)
		}
		return r
	})

	// rebuild: text -> loaded, built again, printed, and loaded again
	reg("rebuild", func(a V) V {
		p, err := acc.LoadString(text(a))
		if err != nil {
			return R{"lok": false}
		}
		r := R{"lok": true, "ok": false, "ins": insOut(p)}
		s, err := parse.String(text(a))
		if err != nil {
			return R{"lok": false}
		}
		d, err := acc.Translate(s)
		if err != nil {
			return R{"lok": false}
		}
		b, err := acc.Build(d)
		if err != nil {
			return r
		}
		t, err := printer.String(b)
		if err != nil {
			return r
		}
		r["ok"], r["tree"], r["text"] = true, scriptOut(b), Bytes(t)
		l, err := acc.LoadString(t)
		r["back"] = err == nil
		if err == nil {
			r["chain"], r["ops"] = Nats(l.Chain), pairs(l.Program)
		}
		return r
	})

	// runs: a program as runs of doublings -> the instructions, the script, the
	// text, and what the text loads as, in the same form
	reg("longrun", func(a V) V {
		p := addchain.Program{}
		for _, o := range list(a) {
			p = append(p, addchain.Op{I: integer(at(o, 0)), J: integer(at(o, 1))})
			for n := integer(at(o, 2)); n > 0; n-- {
				p = append(p, addchain.Op{I: len(p), J: len(p)})
			}
		}
		d, err := acc.Decompile(p)
		if err != nil {
			return failed(err)
		}
		s, err := acc.Build(d)
		if err != nil {
			return failed(err)
		}
		t, err := printer.String(s)
		if err != nil {
			return failed(err)
		}
		r := loadruns(t).(R)
		r["ok"], r["ins"], r["text"] = true, insOut(d), Bytes(t)
		return r
	})
	reg("loadruns", func(a V) V { return loadruns(text(a)) })

	// build: instructions -> script tree
	reg("build", func(a V) V {
		s, err := acc.Build(insIn(field(a, "ins"), boolean(field(a, "shared"))))
		if err != nil {
			return failed(err)
		}
		return R{"ok": true, "tree": scriptOut(s)}
	})

	// alloc: instructions (or a script, or a program of pairs) and a naming
	// configuration -> allocated instructions
	reg("alloc", func(a V) V {
		var p *ir.Program
		switch {
		case has(a, "ins"):
			p = insIn(field(a, "ins"), boolean(field(a, "shared")))
		case has(a, "src"):
			s, err := parse.String(text(field(a, "src")))
			if err != nil {
				return R{"ok": false, "err": "", "at": "parse"}
			}
			p, err = acc.Translate(s)
			if err != nil {
				return R{"ok": false, "err": "", "at": "translate"}
			}
		default:
			var err error
			p, err = acc.Decompile(program(field(a, "ops")))
			if err != nil {
				return R{"ok": false, "err": ascii(err.Error()), "at": "decompile"}
			}
		}
		// what happened to the program before
		pre := 0
		if has(a, "pre") {
			pre = integer(field(a, "pre"))
		}
		other := pass.Allocator{Input: "in_", Output: "o_", Format: "q%d"}
		var err error
		switch pre {
		case 1:
			err = pass.Exec(p, other)
		case 2:
			err = pass.Exec(p, pass.Func(pass.ReadCounts), pass.Func(pass.Indexes))
		case 3:
			_, err = acc.Build(p)
		case 4:
			err = pass.Exec(p, pass.Func(pass.Eval), pass.NameXRuns, other, pass.Func(pass.ReadCounts), other)
		case 5:
			err = pass.Exec(p.Clone(), other)
		case 6:
			p = p.Clone()
		}
		if err != nil {
			return R{"ok": false, "err": ascii(err.Error()), "at": "before"}
		}
		al := pass.Allocator{Input: text(field(a, "in")), Output: text(field(a, "out")), Format: text(field(a, "format"))}
		if err := pass.Exec(p, al); err != nil {
			return R{"ok": false, "err": ascii(err.Error()), "at": "alloc"}
		}
		// a copy has a life of its own
		if pre == 6 {
			if err := pass.Exec(p.Clone(), other); err != nil {
				return R{"ok": false, "err": ascii(err.Error()), "at": "copy"}
			}
		}
		// the repository's own register machine, output distinct from and aliased to the input
		runs := L{}
		for _, alias := range []bool{false, true} {
			i := eval.NewInterpreter()
			x := big.NewInt(1)
			err := i.Initialize(al.Input, x)
			if alias && err == nil {
				err = i.Initialize(al.Output, x)
			}
			again := i.Initialize(al.Input, x) != nil
			if err == nil {
				err = i.Execute(p)
			}
			o, ok := i.Load(al.Output)
			if !ok {
				o = new(big.Int)
			}
			runs = append(runs, R{"ok": err == nil && ok && again, "out": Nat{new(big.Int).Set(o)}, "in": Nat{new(big.Int).Set(x)}})
		}
		return R{"ok": true, "ins": insOut(p), "tmp": texts(p.Temporaries), "runs": runs}
	})

	// gen: a script rendered with the builtin templates
	reg("gen", func(a V) V {
		s, err := parse.String(text(field(a, "src")))
		if err != nil {
			return R{"ok": false, "at": "parse"}
		}
		cfg := gen.Config{Allocator: pass.Allocator{Input: text(field(a, "in")), Output: text(field(a, "out")), Format: text(field(a, "format"))}}
		d, err := gen.PrepareData(cfg, s)
		if err != nil {
			return R{"ok": false, "at": "prepare", "err": ascii(err.Error())}
		}
		r := R{"ok": true}
		for _, typ := range []string{"listing", "chain", "ops", "script"} {
			t, err := gen.BuiltinTemplate(typ)
			if err != nil {
				return R{"ok": false, "at": typ}
			}
			var b strings.Builder
			if err := gen.Generate(&b, t, d); err != nil {
				return R{"ok": false, "at": typ, "err": ascii(err.Error())}
			}
			r[typ] = output(typ, b.String())
		}
		return r
	})

	// builtin: the text of a builtin template
	reg("builtin", func(a V) V {
		t, err := gen.BuiltinTemplate(str(at(a, 0)))
		if err != nil {
			return failed(err)
		}
		return R{"ok": true, "text": Bytes(t)}
	})

	// render: the same through texts, as printed by the command
	reg("genout", func(a V) V { return output(str(at(a, 0)), text(at(a, 1))) })

	reg("evalout", func(a V) V { return evalOutput(text(a)) })
}

func printed(s *ast.Chain) V {
	t, err := printer.String(s)
	if err != nil {
		return R{"ok": false}
	}
	// the other ways to print; a text that differs is the one to judge
	held, err := printer.Bytes(s)
	if err != nil {
		return R{"ok": false}
	}
	other := &ast.Chain{Statements: []ast.Statement{{Name: "a", Expr: ast.Double{X: ast.Operand(0)}}, {Expr: ast.Add{X: ast.Identifier("a"), Y: ast.Operand(0)}}}}
	if _, err := printer.Bytes(other); err != nil {
		return R{"ok": false}
	}
	var w bytes.Buffer
	if err := printer.Fprint(&w, s); err != nil {
		return R{"ok": false}
	}
	for _, alt := range []string{string(held), w.String()} {
		if alt != t {
			t = alt
			break
		}
	}
	r := R{"ok": true, "text": Bytes(t), "back": false}
	b, err := parse.String(t)
	if err != nil {
		return r
	}
	r["back"], r["tree"] = true, scriptOut(b)
	t2, err := printer.String(b)
	r["again"] = err == nil && t2 == t
	return r
}

// ---- outputs of the gen and eval commands, line by line ---------------------------

func lines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

func number(s string) int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok || n.BitLen() > 30 {
		panic(bad("number " + s))
	}
	return int(n.Int64())
}

func hexNat(s string) V {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok || n.Sign() < 0 {
		panic(bad("hex " + s))
	}
	return Nat{n}
}

func need(ok bool, what string) {
	if !ok {
		panic(bad(what))
	}
}

// opLine splits "[ n] i+j value".
func opLine(l, prefix string) V {
	need(strings.HasPrefix(l, "["), "line "+l)
	k := strings.Index(l, "]")
	need(k > 0, "line "+l)
	f := strings.Fields(strings.Replace(l[k+1:], "+", " ", 1))
	need(len(f) == 3 && strings.HasPrefix(f[2], prefix), "line "+l)
	return L{number(strings.TrimSpace(l[1:k])), number(f[0]), number(f[1]), hexNat(f[2][len(prefix):])}
}

func output(typ, s string) V {
	l := L{}
	switch typ {
	case "script":
		return Bytes(s)
	case "chain":
		for _, line := range lines(s) {
			f := strings.Fields(line)
			need(len(f) == 2 && strings.HasSuffix(f[0], ":") && strings.HasPrefix(f[1], "0x"), "line "+line)
			l = append(l, L{number(strings.TrimSuffix(f[0], ":")), hexNat(f[1][2:])})
		}
	case "ops":
		for _, line := range lines(s) {
			l = append(l, opLine(line, "0x"))
		}
	case "listing":
		r := R{}
		ls := lines(s)
		need(len(ls) > 0, "empty listing")
		tmp := strings.Split(ls[0], "\t")
		need(tmp[0] == "tmp", "first line "+ls[0])
		for len(tmp) > 0 && tmp[len(tmp)-1] == "" {
			tmp = tmp[:len(tmp)-1]
		}
		r["tmp"] = texts(tmp[1:])
		for _, line := range ls[1:] {
			f := strings.Split(line, "\t")
			row := R{"op": f[0], "z": Bytes(""), "x": Bytes(""), "y": Bytes(""), "s": 0}
			switch {
			case f[0] == "add" && len(f) == 4:
				row["z"], row["x"], row["y"] = Bytes(f[1]), Bytes(f[2]), Bytes(f[3])
			case f[0] == "double" && len(f) == 3:
				row["z"], row["x"] = Bytes(f[1]), Bytes(f[2])
			case f[0] == "shift" && len(f) == 4:
				row["z"], row["x"], row["s"] = Bytes(f[1]), Bytes(f[2]), number(f[3])
			default:
				panic(bad("listing line " + line))
			}
			l = append(l, row)
		}
		r["rows"] = l
		return r
	}
	return l
}

// evalOutput splits what `addchain eval` prints.
func evalOutput(s string) V {
	ls := lines(s)
	need(len(ls) > 0, "no output")
	l := L{}
	for _, line := range ls[:len(ls)-1] {
		l = append(l, opLine(line, ""))
	}
	f := strings.Fields(ls[len(ls)-1])
	need(len(f) == 6 && f[0] == "total:" && f[2] == "doubles:" && f[4] == "adds:", "total line")
	return R{"ops": l, "total": number(f[1]), "doubles": number(f[3]), "adds": number(f[5])}
}

// shorten replaces long by short in every name of a script.
func shorten(s *ast.Chain, long, short string) {
	var walk func(e ast.Expr) ast.Expr
	walk = func(e ast.Expr) ast.Expr {
		switch t := e.(type) {
		case ast.Identifier:
			return ast.Identifier(strings.ReplaceAll(string(t), long, short))
		case ast.Add:
			return ast.Add{X: walk(t.X), Y: walk(t.Y)}
		case ast.Double:
			return ast.Double{X: walk(t.X)}
		case ast.Shift:
			return ast.Shift{X: walk(t.X), S: t.S}
		}
		return e
	}
	for i := range s.Statements {
		s.Statements[i].Name = ast.Identifier(strings.ReplaceAll(string(s.Statements[i].Name), long, short))
		s.Statements[i].Expr = walk(s.Statements[i].Expr)
	}
}
