From 4bca7ac538999f6ecaafb613dd41d17ed09b9658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 01/18] fix: acc/printer: parenthesize right addends and
 operator operands of double and shift

---
 acc/printer/printer.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/acc/printer/printer.go b/acc/printer/printer.go
index 96e8baa..719dafd 100644
--- a/acc/printer/printer.go
+++ b/acc/printer/printer.go
@@ -61,7 +61,7 @@ func (p *printer) node(n interface{}) {
 	case ast.Statement:
 		p.statement(n)
 	case ast.Expr:
-		p.expr(n, nil)
+		p.expr(n, ast.LowestPrec)
 	default:
 		p.SetError(errutil.UnexpectedType(n))
 	}
@@ -73,15 +73,17 @@ func (p *printer) statement(stmt ast.Statement) {
 	} else {
 		p.Printf("return\t\t")
 	}
-	p.expr(stmt.Expr, nil)
+	p.expr(stmt.Expr, ast.LowestPrec)
 	p.NL()
 }
 
-func (p *printer) expr(e, parent ast.Expr) {
-	// Parens required if the precence of this operator is less than its parent.
-	if parent != nil && e.Precedence() < parent.Precedence() {
+// expr prints e in a position that accepts expressions of at least the given
+// precedence.
+func (p *printer) expr(e ast.Expr, prec int) {
+	// Parens required if the precedence of this expression is too low.
+	if e.Precedence() < prec {
 		p.Printf("(")
-		p.expr(e, nil)
+		p.expr(e, ast.LowestPrec)
 		p.Printf(")")
 		return
 	}
@@ -103,18 +105,21 @@ func (p *printer) expr(e, parent ast.Expr) {
 }
 
 func (p *printer) add(a ast.Add) {
-	p.expr(a.X, a)
+	// Addition is left-associative.
+	p.expr(a.X, a.Precedence())
 	p.Printf(" + ")
-	p.expr(a.Y, a)
+	p.expr(a.Y, a.Precedence()+1)
 }
 
 func (p *printer) double(d ast.Double) {
+	// The grammar only allows operands and parenthesized expressions here.
 	p.Printf("2*")
-	p.expr(d.X, d)
+	p.expr(d.X, ast.HighestPrec)
 }
 
 func (p *printer) shift(s ast.Shift) {
-	p.expr(s.X, s)
+	// The grammar only allows operands and parenthesized expressions here.
+	p.expr(s.X, ast.HighestPrec)
 	p.Printf(" << %d", s.S)
 }
 
-- 
2.43.0


From 7046683c766969dc0602133796f9e8b284bd6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 02/18] fix: acc/printer: print index operands as unsigned
 integers

---
 acc/printer/printer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acc/printer/printer.go b/acc/printer/printer.go
index 719dafd..53cdced 100644
--- a/acc/printer/printer.go
+++ b/acc/printer/printer.go
@@ -131,6 +131,7 @@ func (p *printer) operand(op ast.Operand) {
 	if op == 0 {
 		p.Printf("1")
 	} else {
-		p.Printf("[%d]", op)
+		// Indexes are unsigned in the language.
+		p.Printf("[%d]", uint(op))
 	}
 }
-- 
2.43.0


From 33b80a1e842115f477673e1258d978860172fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 03/18] fix: internal/gen: refuse scripts that read the
 intermediate values of a shift

---
 internal/gen/gen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 46a7775..a565242 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -56,9 +56,9 @@ func PrepareData(cfg Config, s *ast.Chain) (*Data, error) {
 		return nil, err
 	}
 
-	// Apply processing passes: temporary variable allocation, and computing the
-	// full addition chain sequence and operations.
-	if err := pass.Exec(p, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
+	// Apply processing passes: sanity checks, temporary variable allocation, and
+	// computing the full addition chain sequence and operations.
+	if err := pass.Exec(p, pass.Validate, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From ac27a05e92c988cfa0c72717462260ef8995c26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 04/18] fix: acc: reject shift by zero

---
 acc/translate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acc/translate.go b/acc/translate.go
index 91bfcf1..3a1447b 100644
--- a/acc/translate.go
+++ b/acc/translate.go
@@ -1,6 +1,7 @@
 package acc
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/mmcloughlin/addchain/acc/ast"
@@ -110,6 +111,10 @@ func (s *state) shift(sh ast.Shift) (*ir.Operand, error) {
 		return nil, err
 	}
 
+	if sh.S == 0 {
+		return nil, errors.New("shift by zero")
+	}
+
 	s.n += int(sh.S)
 	out := ir.Index(s.n - 1)
 	inst := &ir.Instruction{
-- 
2.43.0


From 5f11154cb7aa3f2dc602ede9cd2a9f226b282726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 05/18] fix: acc: build a script from a program with no
 instructions

---
 acc/build.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/acc/build.go b/acc/build.go
index 38adda3..72fc5ee 100644
--- a/acc/build.go
+++ b/acc/build.go
@@ -51,6 +51,15 @@ func newbuilder(p *ir.Program) *builder {
 func (b *builder) process() error {
 	insts := b.prog.Instructions
 	n := len(insts)
+
+	// The program with no instructions computes the first element.
+	if n == 0 {
+		b.chain.Statements = append(b.chain.Statements, ast.Statement{
+			Expr: ast.Operand(0),
+		})
+		return nil
+	}
+
 	complexity := 0
 	for i := 0; i < n; i++ {
 		complexity++
-- 
2.43.0


From 41f68b937931e47fbb1f41b5d2c8bc331bf6048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 06/18] fix: acc/pass: return an error from allocation of an
 empty program

---
 acc/pass/alloc.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acc/pass/alloc.go b/acc/pass/alloc.go
index 812df5a..e1c309d 100644
--- a/acc/pass/alloc.go
+++ b/acc/pass/alloc.go
@@ -1,6 +1,7 @@
 package pass
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/mmcloughlin/addchain/acc/ir"
@@ -24,6 +25,11 @@ type Allocator struct {
 
 // Execute performs temporary variable allocation.
 func (a Allocator) Execute(p *ir.Program) error {
+	// There is no output variable without an instruction to write it.
+	if len(p.Instructions) == 0 {
+		return errors.New("program has no instructions")
+	}
+
 	// Canonicalize operands, collect unique indexes, and delete all names.
 	if err := Exec(p, Func(CanonicalizeOperands), Func(Indexes), Func(ClearNames)); err != nil {
 		return err
-- 
2.43.0


From 46695738dcedb91bff706d77d335901b0c343df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 07/18] fix: internal/calc: report division by zero as an error

---
 internal/calc/calc.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/calc/calc.go b/internal/calc/calc.go
index 71eed0c..24b169a 100644
--- a/internal/calc/calc.go
+++ b/internal/calc/calc.go
@@ -21,17 +21,26 @@ type operator struct {
 	precedence    int
 	associativity associativity
 	apply         func(*big.Int, *big.Int, *big.Int) *big.Int
+	check         func(x, y *big.Int) error // optional check on operands before apply
 }
 
 // operators supported by the calculator.
 var operators = map[byte]operator{
 	'^': {precedence: 3, associativity: rightassociative, apply: func(z, x, y *big.Int) *big.Int { return z.Exp(x, y, nil) }},
 	'*': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Mul},
-	'/': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Div},
+	'/': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Div, check: divisible},
 	'+': {precedence: 2, associativity: leftassociative, apply: (*big.Int).Add},
 	'-': {precedence: 2, associativity: leftassociative, apply: (*big.Int).Sub},
 }
 
+// divisible checks that x may be divided by y.
+func divisible(_, y *big.Int) error {
+	if y.Sign() == 0 {
+		return errors.New("division by zero")
+	}
+	return nil
+}
+
 // yard implements the "shunting yard" algorithm.
 type yard struct {
 	operands  []*big.Int
@@ -70,6 +79,12 @@ func (y *yard) apply(op operator) error {
 		return errors.New("too few operands")
 	}
 
+	if op.check != nil {
+		if err := op.check(y.operands[n-2], y.operands[n-1]); err != nil {
+			return err
+		}
+	}
+
 	z := new(big.Int)
 	op.apply(z, y.operands[n-2], y.operands[n-1])
 	y.operands = append(y.operands[:n-2], z)
-- 
2.43.0


From 4874922ca2b790e5f7c6e7c17f08c3889e230910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 08/18] fix: internal/calc: refuse exponents too large to
 compute

---
 internal/calc/calc.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/calc/calc.go b/internal/calc/calc.go
index 24b169a..a840857 100644
--- a/internal/calc/calc.go
+++ b/internal/calc/calc.go
@@ -26,7 +26,7 @@ type operator struct {
 
 // operators supported by the calculator.
 var operators = map[byte]operator{
-	'^': {precedence: 3, associativity: rightassociative, apply: func(z, x, y *big.Int) *big.Int { return z.Exp(x, y, nil) }},
+	'^': {precedence: 3, associativity: rightassociative, apply: func(z, x, y *big.Int) *big.Int { return z.Exp(x, y, nil) }, check: representable},
 	'*': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Mul},
 	'/': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Div, check: divisible},
 	'+': {precedence: 2, associativity: leftassociative, apply: (*big.Int).Add},
@@ -41,6 +41,20 @@ func divisible(_, y *big.Int) error {
 	return nil
 }
 
+// maxbits is the largest size of number the calculator will exponentiate to.
+const maxbits = 1 << 24
+
+// representable checks that x raised to the power y is of reasonable size.
+func representable(x, y *big.Int) error {
+	if y.Sign() <= 0 || x.BitLen() <= 1 {
+		return nil
+	}
+	if !y.IsUint64() || y.Uint64() > maxbits/uint64(x.BitLen()) {
+		return errors.New("exponent too large")
+	}
+	return nil
+}
+
 // yard implements the "shunting yard" algorithm.
 type yard struct {
 	operands  []*big.Int
-- 
2.43.0


From de0b3c34bc34474e07e13eedf84d53ba61035cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 09/18] fix: cmd/addchain: refuse to search for a target that
 is not positive

---
 cmd/addchain/search.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/addchain/search.go b/cmd/addchain/search.go
index 434e484..ef8d7d9 100644
--- a/cmd/addchain/search.go
+++ b/cmd/addchain/search.go
@@ -69,6 +69,10 @@ func (cmd *search) Execute(_ context.Context, f *flag.FlagSet, _ ...interface{})
 	cmd.Log.Printf("hex: %x", n)
 	cmd.Log.Printf("dec: %s", n)
 
+	if n.Sign() <= 0 {
+		return cmd.Fail("target must be positive")
+	}
+
 	// Execute an ensemble of algorithms.
 	ex := exec.NewParallel()
 	if cmd.verbose {
-- 
2.43.0


From ffab347a791f8a604c1b095349a5b352c49440b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 10/18] fix: cmd/addchain: refuse search concurrency below one

---
 cmd/addchain/search.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/addchain/search.go b/cmd/addchain/search.go
index ef8d7d9..ec45da5 100644
--- a/cmd/addchain/search.go
+++ b/cmd/addchain/search.go
@@ -58,6 +58,10 @@ func (cmd *search) Execute(_ context.Context, f *flag.FlagSet, _ ...interface{})
 	}
 	expr := f.Arg(0)
 
+	if cmd.concurrency < 1 {
+		return cmd.UsageError("concurrency must be at least 1")
+	}
+
 	// Evaluate expression.
 	cmd.Log.Printf("expr: %q", expr)
 
-- 
2.43.0


From 1b67dc479664d249bbc1d546cdc0a08de6563231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 11/18] fix: alg/dict: check run lengths fit a machine word
 before building runs

---
 alg/dict/runs.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/alg/dict/runs.go b/alg/dict/runs.go
index 5277be4..46439b3 100644
--- a/alg/dict/runs.go
+++ b/alg/dict/runs.go
@@ -84,6 +84,13 @@ func RunsChain(lc addchain.Chain) (addchain.Chain, error) {
 		return nil, err
 	}
 
+	// Check all lengths are representable before building any runs.
+	for _, l := range lc {
+		if !l.IsUint64() {
+			return nil, errors.New("values in lengths chain are far too large")
+		}
+	}
+
 	c := addchain.New()
 	s := map[uint]uint{} // current largest shift of each run length
 	for _, op := range p {
-- 
2.43.0


From 6e9ebcc1108386e2430268864cab7284386bd4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 12/18] fix: acc/parse: memoize parse results to avoid
 exponential time on nested parentheses

---
 acc/parse/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acc/parse/parse.go b/acc/parse/parse.go
index 8523e14..5b7eaf4 100644
--- a/acc/parse/parse.go
+++ b/acc/parse/parse.go
@@ -13,13 +13,13 @@ import (
 
 // File parses filename.
 func File(filename string) (*ast.Chain, error) {
-	return cast(parser.ParseFile(filename))
+	return cast(parser.ParseFile(filename, parser.Memoize(true)))
 }
 
 // Reader parses the data from r using filename as information in
 // error messages.
 func Reader(filename string, r io.Reader) (*ast.Chain, error) {
-	return cast(parser.ParseReader(filename, r))
+	return cast(parser.ParseReader(filename, r, parser.Memoize(true)))
 }
 
 // String parses s.
-- 
2.43.0


From 806671b13463d0988dbec9a09a64df35acc8c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 13/18] fix: alg/dict: window sizes near the maximum of uint do
 not overflow

---
 alg/dict/dict.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/alg/dict/dict.go b/alg/dict/dict.go
index 08a1fa0..216017b 100644
--- a/alg/dict/dict.go
+++ b/alg/dict/dict.go
@@ -85,7 +85,7 @@ func (w FixedWindow) Decompose(x *big.Int) Sum {
 	sum := Sum{}
 	h := x.BitLen()
 	for h > 0 {
-		l := max(h-int(w.K), 0)
+		l := lowerbound(h, w.K)
 		d := bigint.Extract(x, uint(l), uint(h))
 		if bigint.IsNonZero(d) {
 			sum = append(sum, Term{D: d, E: uint(l)})
@@ -96,6 +96,14 @@ func (w FixedWindow) Decompose(x *big.Int) Sum {
 	return sum
 }
 
+// lowerbound returns the lower end of a k-bit window with upper end h.
+func lowerbound(h int, k uint) int {
+	if k >= uint(h) {
+		return 0
+	}
+	return h - int(k)
+}
+
 // SlidingWindow breaks integers into k-bit windows, skipping runs of zeros
 // where possible. See [hehcc:exp] section 9.1.3 or [braueraddsubchains] section
 // 1.2.3.
@@ -120,7 +128,7 @@ func (w SlidingWindow) Decompose(x *big.Int) Sum {
 		}
 
 		// Look down k positions.
-		l := max(h-int(w.K)+1, 0)
+		l := lowerbound(h+1, w.K)
 
 		// Advance to the next 1.
 		for x.Bit(l) == 0 {
@@ -424,11 +432,3 @@ func primitive(sum Sum, c addchain.Chain) (Sum, addchain.Chain, error) {
 
 	return out, pruned, nil
 }
-
-// max returns the maximum of a and b.
-func max(a, b int) int {
-	if a > b {
-		return a
-	}
-	return b
-}
-- 
2.43.0


From 374e4bae3d32ad68c527395d75064f4a96ae31ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:22 +0000
Subject: [PATCH 14/18] fix: acc/pass: allocate programs whose operands have
 several names

---
 acc/pass/alloc.go  |  4 ++--
 acc/pass/naming.go | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/acc/pass/alloc.go b/acc/pass/alloc.go
index e1c309d..b35ac80 100644
--- a/acc/pass/alloc.go
+++ b/acc/pass/alloc.go
@@ -30,8 +30,8 @@ func (a Allocator) Execute(p *ir.Program) error {
 		return errors.New("program has no instructions")
 	}
 
-	// Canonicalize operands, collect unique indexes, and delete all names.
-	if err := Exec(p, Func(CanonicalizeOperands), Func(Indexes), Func(ClearNames)); err != nil {
+	// Delete all names, canonicalize operands and collect unique indexes.
+	if err := Exec(p, Func(ClearNames), Func(CanonicalizeOperands), Func(Indexes)); err != nil {
 		return err
 	}
 
diff --git a/acc/pass/naming.go b/acc/pass/naming.go
index e417ef1..34c8a82 100644
--- a/acc/pass/naming.go
+++ b/acc/pass/naming.go
@@ -23,15 +23,15 @@ var (
 
 // ClearNames deletes all operand names.
 func ClearNames(p *ir.Program) error {
-	if err := CanonicalizeOperands(p); err != nil {
-		return err
-	}
-
-	for _, operand := range p.Operands {
-		operand.Identifier = ""
+	// Clear before canonicalizing, since operands for the same index may have
+	// conflicting names.
+	for _, i := range p.Instructions {
+		for _, operand := range i.Operands() {
+			operand.Identifier = ""
+		}
 	}
 
-	return nil
+	return CanonicalizeOperands(p)
 }
 
 // NameBinaryValues assigns variable names to operands with values less than 2ᵏ.
-- 
2.43.0


From 10080f2c29419a770c47a5ea440636d049d1e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 15/18] fix: acc/parse: limit the nesting of parentheses so
 parsing cannot exhaust the stack

---
 acc/parse/parse.go | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/acc/parse/parse.go b/acc/parse/parse.go
index 5b7eaf4..3274ace 100644
--- a/acc/parse/parse.go
+++ b/acc/parse/parse.go
@@ -2,7 +2,9 @@
 package parse
 
 import (
+	"fmt"
 	"io"
+	"os"
 	"strings"
 
 	"github.com/mmcloughlin/addchain/acc/ast"
@@ -11,15 +13,31 @@ import (
 
 //go:generate pigeon -o internal/parser/zparser.go acc.peg
 
+// maxdepth is the maximum nesting depth of parentheses. The parser is recursive,
+// so the limit prevents deeply nested input from exhausting the stack.
+const maxdepth = 10000
+
 // File parses filename.
 func File(filename string) (*ast.Chain, error) {
-	return cast(parser.ParseFile(filename, parser.Memoize(true)))
+	f, err := os.Open(filename)
+	if err != nil {
+		return nil, err
+	}
+	defer f.Close()
+	return Reader(filename, f)
 }
 
 // Reader parses the data from r using filename as information in
 // error messages.
 func Reader(filename string, r io.Reader) (*ast.Chain, error) {
-	return cast(parser.ParseReader(filename, r, parser.Memoize(true)))
+	b, err := io.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	if err := checkdepth(filename, b); err != nil {
+		return nil, err
+	}
+	return cast(parser.Parse(filename, b, parser.Memoize(true)))
 }
 
 // String parses s.
@@ -27,6 +45,27 @@ func String(s string) (*ast.Chain, error) {
 	return Reader("string", strings.NewReader(s))
 }
 
+// checkdepth reports an error if parentheses in b are nested too deeply. Note
+// that parentheses always close on the line they open.
+func checkdepth(filename string, b []byte) error {
+	line, depth := 1, 0
+	for _, c := range b {
+		switch c {
+		case '\n':
+			line++
+			depth = 0
+		case '(':
+			depth++
+		case ')':
+			depth--
+		}
+		if depth > maxdepth {
+			return fmt.Errorf("%s:%d: parentheses nested too deeply", filename, line)
+		}
+	}
+	return nil
+}
+
 func cast(i interface{}, err error) (*ast.Chain, error) {
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 269ecb59b783fba31f21b4c9a210eb3c751c368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 16/18] fix: alg/exec: bound the number of slots by the number
 of algorithms

---
 alg/exec/exec.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/alg/exec/exec.go b/alg/exec/exec.go
index 54935e7..1876d6c 100644
--- a/alg/exec/exec.go
+++ b/alg/exec/exec.go
@@ -76,9 +76,15 @@ func (p *Parallel) SetLogger(l *log.Logger) {
 func (p Parallel) Execute(n *big.Int, as []alg.ChainAlgorithm) []Result {
 	rs := make([]Result, len(as))
 
+	// Slots beyond one per algorithm are never used.
+	limit := p.limit
+	if limit > len(as) {
+		limit = len(as)
+	}
+
 	// Use buffered channel to limit concurrency.
 	type token struct{}
-	sem := make(chan token, p.limit)
+	sem := make(chan token, limit)
 
 	for i, a := range as {
 		sem <- token{}
@@ -91,7 +97,7 @@ func (p Parallel) Execute(n *big.Int, as []alg.ChainAlgorithm) []Result {
 	}
 
 	// Wait for completion.
-	for i := 0; i < p.limit; i++ {
+	for i := 0; i < limit; i++ {
 		sem <- token{}
 	}
 
-- 
2.43.0


From df4e7660b10b0524fe47978e59a05e449aa7d928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 17/18] fix: acc/pass: forget the temporaries of an earlier
 allocation

---
 acc/pass/alloc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acc/pass/alloc.go b/acc/pass/alloc.go
index b35ac80..c6b92cd 100644
--- a/acc/pass/alloc.go
+++ b/acc/pass/alloc.go
@@ -67,8 +67,10 @@ func (a Allocator) Execute(p *ir.Program) error {
 		}
 	}
 
-	// Map from variable index to name.
+	// Map from variable index to name. Temporaries of an earlier allocation are
+	// no longer in use.
 	name := map[int]string{}
+	p.Temporaries = nil
 	outv := allocation.Variable(p.Output().Index)
 	for _, index := range p.Indexes {
 		op := p.Operands[index]
-- 
2.43.0


From e4b121f24d04142569a595490fc8a2eae1950655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:49 +0000
Subject: [PATCH 18/18] fix: acc: generated names do not repeat names in use

Building a script from a program whose operands already have names could
give two statements the same name, when a name chosen by the author of the
script looked like a generated one. The result was rejected when loaded.
---
 acc/build.go       | 14 ++++++++++++--
 acc/pass/naming.go | 20 +++++++++++++++++---
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/acc/build.go b/acc/build.go
index 72fc5ee..e138bff 100644
--- a/acc/build.go
+++ b/acc/build.go
@@ -38,14 +38,20 @@ type builder struct {
 	chain *ast.Chain
 	prog  *ir.Program
 	expr  map[int]ast.Expr
+	used  map[string]bool // names of operands
 }
 
 func newbuilder(p *ir.Program) *builder {
-	return &builder{
+	b := &builder{
 		chain: &ast.Chain{},
 		prog:  p,
 		expr:  map[int]ast.Expr{},
+		used:  map[string]bool{},
 	}
+	for _, operand := range p.Operands {
+		b.used[operand.Identifier] = true
+	}
+	return b
 }
 
 func (b *builder) process() error {
@@ -155,7 +161,11 @@ func (b *builder) name(op *ir.Operand) string {
 	if op.Identifier != "" {
 		return op.Identifier
 	}
-	return fmt.Sprintf("i%d", op.Index)
+	name := fmt.Sprintf("i%d", op.Index)
+	for b.used[name] {
+		name += "_"
+	}
+	return name
 }
 
 func (b *builder) operand(op *ir.Operand) ast.Expr {
diff --git a/acc/pass/naming.go b/acc/pass/naming.go
index 34c8a82..a2a1f38 100644
--- a/acc/pass/naming.go
+++ b/acc/pass/naming.go
@@ -60,14 +60,23 @@ func NameBinaryRuns(format string) Interface {
 }
 
 // NameOperands builds a pass that names operands according to the given scheme.
+// Operands keep the names they have, and no name is given to two operands.
 func NameOperands(name func(int, *big.Int) string) Interface {
 	return Func(func(p *ir.Program) error {
 		// We need canonical operands, and we need to know the chain values.
-		if err := Exec(p, Func(CanonicalizeOperands), Func(Eval)); err != nil {
+		if err := Exec(p, Func(CanonicalizeOperands), Func(Indexes), Func(Eval)); err != nil {
 			return err
 		}
 
+		// Collect names already in use.
+		used := map[string]bool{}
 		for _, operand := range p.Operands {
+			used[operand.Identifier] = true
+		}
+
+		for _, index := range p.Indexes {
+			operand := p.Operands[index]
+
 			// Skip if it already has a name.
 			if operand.Identifier != "" {
 				continue
@@ -80,8 +89,13 @@ func NameOperands(name func(int, *big.Int) string) Interface {
 			}
 			x := p.Chain[idx]
 
-			// Set name.
-			operand.Identifier = name(idx, x)
+			// Set name, unless another operand has it.
+			n := name(idx, x)
+			if used[n] {
+				continue
+			}
+			used[n] = true
+			operand.Identifier = n
 		}
 
 		return nil
-- 
2.43.0

