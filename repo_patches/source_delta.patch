From 5c20ebf417d81bcb94906d06fa50af3415f75126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 01/14] fix: bound parallel executor workers by the number of
 algorithms

A concurrency limit of zero blocked forever, a negative limit panicked in
make(chan), and a very large limit made the completion loop run (in effect)
forever, since it acquires every token.
---
 alg/exec/exec.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/alg/exec/exec.go b/alg/exec/exec.go
index 54935e7..2c97ac2 100644
--- a/alg/exec/exec.go
+++ b/alg/exec/exec.go
@@ -76,9 +76,19 @@ func (p *Parallel) SetLogger(l *log.Logger) {
 func (p Parallel) Execute(n *big.Int, as []alg.ChainAlgorithm) []Result {
 	rs := make([]Result, len(as))
 
+	// There is no use for more workers than algorithms, and at least one is
+	// required to make progress.
+	limit := p.limit
+	if limit > len(as) {
+		limit = len(as)
+	}
+	if limit < 1 {
+		limit = 1
+	}
+
 	// Use buffered channel to limit concurrency.
 	type token struct{}
-	sem := make(chan token, p.limit)
+	sem := make(chan token, limit)
 
 	for i, a := range as {
 		sem <- token{}
@@ -91,7 +101,7 @@ func (p Parallel) Execute(n *big.Int, as []alg.ChainAlgorithm) []Result {
 	}
 
 	// Wait for completion.
-	for i := 0; i < p.limit; i++ {
+	for i := 0; i < limit; i++ {
 		sem <- token{}
 	}
 
-- 
2.43.0


From dd8c974764fe55bbd88d4380b2e3ba1a225a5d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 02/14] fix: parse nested parentheses in linear time

Without memoization the generated parser backtracks exponentially in the
nesting depth: twenty nested parentheses take 20 seconds.
---
 acc/parse/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acc/parse/parse.go b/acc/parse/parse.go
index 8523e14..5b7eaf4 100644
--- a/acc/parse/parse.go
+++ b/acc/parse/parse.go
@@ -13,13 +13,13 @@ import (
 
 // File parses filename.
 func File(filename string) (*ast.Chain, error) {
-	return cast(parser.ParseFile(filename))
+	return cast(parser.ParseFile(filename, parser.Memoize(true)))
 }
 
 // Reader parses the data from r using filename as information in
 // error messages.
 func Reader(filename string, r io.Reader) (*ast.Chain, error) {
-	return cast(parser.ParseReader(filename, r))
+	return cast(parser.ParseReader(filename, r, parser.Memoize(true)))
 }
 
 // String parses s.
-- 
2.43.0


From 3c3fcdc56def54d583ae72efb7754dd13e7e61ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 03/14] fix: print parentheses the grammar requires

An addition on the right of an addition, and an operator below a shift or a
double, were printed without parentheses: the text parsed to another tree or
not at all.
---
 acc/printer/printer.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/acc/printer/printer.go b/acc/printer/printer.go
index 96e8baa..25226db 100644
--- a/acc/printer/printer.go
+++ b/acc/printer/printer.go
@@ -61,7 +61,7 @@ func (p *printer) node(n interface{}) {
 	case ast.Statement:
 		p.statement(n)
 	case ast.Expr:
-		p.expr(n, nil)
+		p.expr(n, ast.LowestPrec)
 	default:
 		p.SetError(errutil.UnexpectedType(n))
 	}
@@ -73,15 +73,17 @@ func (p *printer) statement(stmt ast.Statement) {
 	} else {
 		p.Printf("return\t\t")
 	}
-	p.expr(stmt.Expr, nil)
+	p.expr(stmt.Expr, ast.LowestPrec)
 	p.NL()
 }
 
-func (p *printer) expr(e, parent ast.Expr) {
-	// Parens required if the precence of this operator is less than its parent.
-	if parent != nil && e.Precedence() < parent.Precedence() {
+// expr prints e in a context that admits expressions of at least the given
+// precedence without parentheses.
+func (p *printer) expr(e ast.Expr, prec int) {
+	// Parens required if the precence of this operator is too low.
+	if e.Precedence() < prec {
 		p.Printf("(")
-		p.expr(e, nil)
+		p.expr(e, ast.LowestPrec)
 		p.Printf(")")
 		return
 	}
@@ -103,18 +105,21 @@ func (p *printer) expr(e, parent ast.Expr) {
 }
 
 func (p *printer) add(a ast.Add) {
-	p.expr(a.X, a)
+	// Addition is left-associative, so an addition on the right needs parens.
+	p.expr(a.X, a.Precedence())
 	p.Printf(" + ")
-	p.expr(a.Y, a)
+	p.expr(a.Y, a.Precedence()+1)
 }
 
 func (p *printer) double(d ast.Double) {
 	p.Printf("2*")
-	p.expr(d.X, d)
+	// The operand of a double must be a base expression.
+	p.expr(d.X, ast.HighestPrec)
 }
 
 func (p *printer) shift(s ast.Shift) {
-	p.expr(s.X, s)
+	// The operand of a shift must be a base expression.
+	p.expr(s.X, ast.HighestPrec)
 	p.Printf(" << %d", s.S)
 }
 
-- 
2.43.0


From b9d7350dd381f28cc087fe664197c40f118d859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 04/14] fix: print large index operands as the unsigned
 literals they came from

An index of 2^63 or more is a negative operand, which was printed as a
negative literal that the grammar rejects.
---
 acc/printer/printer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acc/printer/printer.go b/acc/printer/printer.go
index 25226db..d051d30 100644
--- a/acc/printer/printer.go
+++ b/acc/printer/printer.go
@@ -131,6 +131,6 @@ func (p *printer) operand(op ast.Operand) {
 	if op == 0 {
 		p.Printf("1")
 	} else {
-		p.Printf("[%d]", op)
+		p.Printf("[%d]", uint(op))
 	}
 }
-- 
2.43.0


From 1df51377e56d54fb3f3bd91dc3d986ee3106d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 05/14] fix: build the script of a program without instructions

Building panicked, so 'search 1' and 'fmt -b' of a script without operations
crashed.
---
 acc/build.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acc/build.go b/acc/build.go
index 38adda3..3517de8 100644
--- a/acc/build.go
+++ b/acc/build.go
@@ -79,6 +79,11 @@ func (b *builder) process() error {
 		complexity = 0
 	}
 
+	// Without instructions the result is the first element of the chain.
+	if n == 0 {
+		b.chain.Statements = append(b.chain.Statements, ast.Statement{Expr: ast.Operand(0)})
+	}
+
 	// Clear the name of the final statement.
 	b.chain.Statements[len(b.chain.Statements)-1].Name = ""
 
-- 
2.43.0


From 27b4651b6581fa9e2a426d24d290d42b632d8071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 06/14] fix: reject allocation for a program without
 instructions

'gen' panicked on a script without operations.
---
 acc/pass/alloc.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acc/pass/alloc.go b/acc/pass/alloc.go
index 812df5a..2013276 100644
--- a/acc/pass/alloc.go
+++ b/acc/pass/alloc.go
@@ -1,6 +1,7 @@
 package pass
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/mmcloughlin/addchain/acc/ir"
@@ -24,6 +25,10 @@ type Allocator struct {
 
 // Execute performs temporary variable allocation.
 func (a Allocator) Execute(p *ir.Program) error {
+	if len(p.Instructions) == 0 {
+		return errors.New("program has no instructions")
+	}
+
 	// Canonicalize operands, collect unique indexes, and delete all names.
 	if err := Exec(p, Func(CanonicalizeOperands), Func(Indexes), Func(ClearNames)); err != nil {
 		return err
-- 
2.43.0


From ad22386f6acc738b2d95154b05fa8868a3ab73a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 07/14] fix: reject search targets below one

'search 0' and 'search' of some negative targets panicked.
---
 cmd/addchain/search.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/addchain/search.go b/cmd/addchain/search.go
index 434e484..6eb0559 100644
--- a/cmd/addchain/search.go
+++ b/cmd/addchain/search.go
@@ -69,6 +69,10 @@ func (cmd *search) Execute(_ context.Context, f *flag.FlagSet, _ ...interface{})
 	cmd.Log.Printf("hex: %x", n)
 	cmd.Log.Printf("dec: %s", n)
 
+	if n.Sign() <= 0 {
+		return cmd.Fail("target must be positive, got %s", n)
+	}
+
 	// Execute an ensemble of algorithms.
 	ex := exec.NewParallel()
 	if cmd.verbose {
-- 
2.43.0


From b3648e32ed1eb9b06b77b31907338dc0d3ad9a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 08/14] fix: report division by zero and oversized powers in
 expressions

Division by zero panicked, and a power such as 2^2^40 ran out of memory.
---
 internal/calc/calc.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/internal/calc/calc.go b/internal/calc/calc.go
index 71eed0c..1426ac4 100644
--- a/internal/calc/calc.go
+++ b/internal/calc/calc.go
@@ -21,17 +21,40 @@ type operator struct {
 	precedence    int
 	associativity associativity
 	apply         func(*big.Int, *big.Int, *big.Int) *big.Int
+	check         func(*big.Int, *big.Int) error
 }
 
 // operators supported by the calculator.
 var operators = map[byte]operator{
-	'^': {precedence: 3, associativity: rightassociative, apply: func(z, x, y *big.Int) *big.Int { return z.Exp(x, y, nil) }},
+	'^': {precedence: 3, associativity: rightassociative, apply: func(z, x, y *big.Int) *big.Int { return z.Exp(x, y, nil) }, check: checkexp},
 	'*': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Mul},
-	'/': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Div},
+	'/': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Div, check: checkdiv},
 	'+': {precedence: 2, associativity: leftassociative, apply: (*big.Int).Add},
 	'-': {precedence: 2, associativity: leftassociative, apply: (*big.Int).Sub},
 }
 
+// maxexpbits is the maximum size in bits of the result of an exponentiation.
+const maxexpbits = 1 << 20
+
+// checkexp returns an error if x^y is too large.
+func checkexp(x, y *big.Int) error {
+	if x.BitLen() <= 1 || y.Sign() <= 0 {
+		return nil
+	}
+	if y.BitLen() > 32 || y.Uint64() > maxexpbits/uint64(x.BitLen()-1) {
+		return errors.New("exponentiation result too large")
+	}
+	return nil
+}
+
+// checkdiv returns an error if x/y is undefined.
+func checkdiv(_, y *big.Int) error {
+	if y.Sign() == 0 {
+		return errors.New("division by zero")
+	}
+	return nil
+}
+
 // yard implements the "shunting yard" algorithm.
 type yard struct {
 	operands  []*big.Int
@@ -70,6 +93,12 @@ func (y *yard) apply(op operator) error {
 		return errors.New("too few operands")
 	}
 
+	if op.check != nil {
+		if err := op.check(y.operands[n-2], y.operands[n-1]); err != nil {
+			return err
+		}
+	}
+
 	z := new(big.Int)
 	op.apply(z, y.operands[n-2], y.operands[n-1])
 	y.operands = append(y.operands[:n-2], z)
-- 
2.43.0


From 51a9f729bab73165ae1773adfde2f7bd09fb98d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 09/14] fix: report errors writing the result of eval

A failed write to stdout was ignored and the command exited with status 0.
---
 cmd/addchain/eval.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/addchain/eval.go b/cmd/addchain/eval.go
index 0d733a8..5d9e06a 100644
--- a/cmd/addchain/eval.go
+++ b/cmd/addchain/eval.go
@@ -3,7 +3,7 @@ package main
 import (
 	"context"
 	"flag"
-	"fmt"
+	"os"
 
 	"github.com/google/subcommands"
 
@@ -11,6 +11,7 @@ import (
 	"github.com/mmcloughlin/addchain/acc/parse"
 	"github.com/mmcloughlin/addchain/acc/pass"
 	"github.com/mmcloughlin/addchain/internal/cli"
+	"github.com/mmcloughlin/addchain/internal/print"
 )
 
 // eval subcommand.
@@ -54,12 +55,17 @@ func (cmd *eval) Execute(_ context.Context, f *flag.FlagSet, _ ...interface{}) (
 	}
 
 	// Dump.
+	out := print.New(os.Stdout)
 	for n, op := range p.Program {
-		fmt.Printf("[%3d] %3d+%3d\t%x\n", n+1, op.I, op.J, p.Chain[n+1])
+		out.Linef("[%3d] %3d+%3d\t%x", n+1, op.I, op.J, p.Chain[n+1])
 	}
 
 	doubles, adds := p.Program.Count()
-	fmt.Printf("total: %d\tdoubles: \t%d adds: %d\n", doubles+adds, doubles, adds)
+	out.Linef("total: %d\tdoubles: \t%d adds: %d", doubles+adds, doubles, adds)
+
+	if err := out.Error(); err != nil {
+		return cmd.Error(err)
+	}
 
 	return subcommands.ExitSuccess
 }
-- 
2.43.0


From 0aaa578c8d909ae0e144f3ef0babe04148e01a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 10/14] fix: report errors writing the version

A failed write to stdout was ignored and the command exited with status 0.
---
 cmd/addchain/version.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/addchain/version.go b/cmd/addchain/version.go
index 0e0000c..2dc435c 100644
--- a/cmd/addchain/version.go
+++ b/cmd/addchain/version.go
@@ -29,6 +29,9 @@ Print the version of the addchain tool.
 }
 
 func (cmd *version) Execute(_ context.Context, f *flag.FlagSet, _ ...interface{}) (status subcommands.ExitStatus) {
-	fmt.Printf("addchain version %s %s/%s\n", cmd.version, runtime.GOOS, runtime.GOARCH)
+	_, err := fmt.Printf("addchain version %s %s/%s\n", cmd.version, runtime.GOOS, runtime.GOARCH)
+	if err != nil {
+		return cmd.Error(err)
+	}
 	return subcommands.ExitSuccess
 }
-- 
2.43.0


From 6667fb520441db3bfac7214b5d47b01222278842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 11/14] fix: refuse to generate code that reads undefined
 values

A script may refer by index to an intermediate value of a shift, which no
instruction outputs. The generated listing read a temporary nothing wrote.
---
 internal/gen/gen.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 46a7775..ebcb804 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -56,9 +56,10 @@ func PrepareData(cfg Config, s *ast.Chain) (*Data, error) {
 		return nil, err
 	}
 
-	// Apply processing passes: temporary variable allocation, and computing the
-	// full addition chain sequence and operations.
-	if err := pass.Exec(p, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
+	// Apply processing passes: check every input is the output of an
+	// instruction, temporary variable allocation, and computing the full addition
+	// chain sequence and operations.
+	if err := pass.Exec(p, pass.Validate, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From f7ad77590c3c78790da8b5d93a59d5a65ede3f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 12/14] fix: reject shifts by zero

A shift by zero produces no element. It was rejected with a misleading error
unless its operand happened to be the last element, when temporary allocation
assumed a new value and generated wrong code.
---
 acc/translate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acc/translate.go b/acc/translate.go
index 91bfcf1..5611c0f 100644
--- a/acc/translate.go
+++ b/acc/translate.go
@@ -1,6 +1,7 @@
 package acc
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/mmcloughlin/addchain/acc/ast"
@@ -110,6 +111,10 @@ func (s *state) shift(sh ast.Shift) (*ir.Operand, error) {
 		return nil, err
 	}
 
+	if sh.S == 0 {
+		return nil, errors.New("shift amount must be positive")
+	}
+
 	s.n += int(sh.S)
 	out := ir.Index(s.n - 1)
 	inst := &ir.Instruction{
-- 
2.43.0


From 091c1e37ad75e43b78eebe64d079d982f62b8683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 13/14] fix: give operands distinct names when building a
 script

---
 acc/build.go       | 15 +++++++++++++--
 acc/pass/naming.go | 22 ++++++++++++++++++----
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/acc/build.go b/acc/build.go
index 3517de8..1744006 100644
--- a/acc/build.go
+++ b/acc/build.go
@@ -38,14 +38,20 @@ type builder struct {
 	chain *ast.Chain
 	prog  *ir.Program
 	expr  map[int]ast.Expr
+	used  map[string]bool
 }
 
 func newbuilder(p *ir.Program) *builder {
-	return &builder{
+	b := &builder{
 		chain: &ast.Chain{},
 		prog:  p,
 		expr:  map[int]ast.Expr{},
+		used:  map[string]bool{},
 	}
+	for _, op := range p.Operands {
+		b.used[op.Identifier] = true
+	}
+	return b
 }
 
 func (b *builder) process() error {
@@ -151,7 +157,12 @@ func (b *builder) name(op *ir.Operand) string {
 	if op.Identifier != "" {
 		return op.Identifier
 	}
-	return fmt.Sprintf("i%d", op.Index)
+	// Avoid the names of other operands.
+	name := fmt.Sprintf("i%d", op.Index)
+	for b.used[name] {
+		name += "_"
+	}
+	return name
 }
 
 func (b *builder) operand(op *ir.Operand) ast.Expr {
diff --git a/acc/pass/naming.go b/acc/pass/naming.go
index e417ef1..24b3215 100644
--- a/acc/pass/naming.go
+++ b/acc/pass/naming.go
@@ -60,14 +60,23 @@ func NameBinaryRuns(format string) Interface {
 }
 
 // NameOperands builds a pass that names operands according to the given scheme.
+// Operands are left unnamed if the name is already taken.
 func NameOperands(name func(int, *big.Int) string) Interface {
 	return Func(func(p *ir.Program) error {
-		// We need canonical operands, and we need to know the chain values.
-		if err := Exec(p, Func(CanonicalizeOperands), Func(Eval)); err != nil {
+		// We need canonical operands in order, and we need to know the chain values.
+		if err := Exec(p, Func(CanonicalizeOperands), Func(Indexes), Func(Eval)); err != nil {
 			return err
 		}
 
+		// Gather names in use.
+		used := map[string]bool{}
 		for _, operand := range p.Operands {
+			used[operand.Identifier] = true
+		}
+
+		for _, index := range p.Indexes {
+			operand := p.Operands[index]
+
 			// Skip if it already has a name.
 			if operand.Identifier != "" {
 				continue
@@ -80,8 +89,13 @@ func NameOperands(name func(int, *big.Int) string) Interface {
 			}
 			x := p.Chain[idx]
 
-			// Set name.
-			operand.Identifier = name(idx, x)
+			// Set name, unless another operand has it.
+			identifier := name(idx, x)
+			if used[identifier] {
+				continue
+			}
+			operand.Identifier = identifier
+			used[identifier] = true
 		}
 
 		return nil
-- 
2.43.0


From d1af638d4b734bbac9729badd452eadaaf372ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:45 +0000
Subject: [PATCH 14/14] fix: avoid identifiers that read as the double operator
 when building a script

---
 acc/build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acc/build.go b/acc/build.go
index 1744006..a412375 100644
--- a/acc/build.go
+++ b/acc/build.go
@@ -2,6 +2,7 @@ package acc
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/mmcloughlin/addchain/acc/ast"
 	"github.com/mmcloughlin/addchain/acc/ir"
@@ -154,7 +155,9 @@ func (b *builder) commit(op *ir.Operand) {
 // name returns the name for this operand. This is the identifier if available,
 // otherwise a sensible default based on the index.
 func (b *builder) name(op *ir.Operand) string {
-	if op.Identifier != "" {
+	// Identifiers that start with the double operator do not parse as operands of
+	// an addition.
+	if op.Identifier != "" && !strings.HasPrefix(op.Identifier, "dbl") {
 		return op.Identifier
 	}
 	// Avoid the names of other operands.
-- 
2.43.0

