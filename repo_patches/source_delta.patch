From 0de3be00356760f8ca56c49379d44ffafc7b9411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:25 +0000
Subject: [PATCH 01/39] fix: keep argument registers intact across idiv and
 shifts

A division in the fourth or later argument of a call overwrote the third
argument (rdx) and a shift in the fifth or later one overwrote the fourth
(rcx).
---
 codegen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 330f8d8..f33f467 100644
--- a/codegen.go
+++ b/codegen.go
@@ -703,9 +703,13 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		asm.ins(movq, rax, rbx)
 		restore(asm, fn, rax)
 		if expr.op == opDiv {
-			asm.ins(cqo) // Sign-extend rax into rdx
+			asm.ins(movq, rdx, r10) // Preserve rdx, may already hold an argument of an enclosing call
+			asm.ins(cqo)            // Sign-extend rax into rdx
 		}
 		asm.ins(ins[expr.op], rbx, rax)
+		if expr.op == opDiv {
+			asm.ins(movq, r10, rdx)
+		}
 		tag(asm, expr, rax)
 
 		// NOTES:
@@ -750,9 +754,11 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		save(asm, fn, rax)
 		genExpr(asm, expr.right, false, fn)
 		untag(asm, expr.right, rax)
+		asm.ins(movq, rcx, r10) // Preserve rcx, may already hold an argument of an enclosing call
 		asm.ins(movq, rax, rcx)
 		restore(asm, fn, rax)
 		asm.ins(ins[expr.op], cl, rax)
+		asm.ins(movq, r10, rcx)
 		tag(asm, expr, rax)
 
 	case opIdentifier:
-- 
2.43.0


From fa761c81c795aff12f45aa09804c3ea15eb733b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:43 +0000
Subject: [PATCH 02/39] fix: create raw argument values after all arguments are
 evaluated

printf("%s %s", a.append(b), c.append(d)) converted the first string to a
raw (interior) pointer before the second was evaluated. A collection during
the second call then treated the interior pointer as an object and freed or
corrupted the string.
---
 codegen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index f33f467..130f0d2 100644
--- a/codegen.go
+++ b/codegen.go
@@ -593,9 +593,12 @@ func genFnCall(asm asmWriter, n *Node, f *function) {
 		genExpr(asm, arg, false, f)
 		asm.ins(movq, rax, regs[i])
 		f.RegisterInUse(arg.typ)
+	}
 
-		// Create "raw" values for any external functions which require them
-		if fn.Is(External) && fn.RawValues {
+	// Create "raw" values for any external functions which require them. This must be done after all
+	// arguments are evaluated as the GC only understands pointers to the start of an object
+	if fn.Is(External) && fn.RawValues {
+		for i, arg := range n.stmts {
 			switch arg.typ.Kind {
 			case String, Array, Bytes:
 				// Modify pointer to point past length
-- 
2.43.0


From 4557e26e482c3be0134b9fc0439a4397f209b9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:37 +0000
Subject: [PATCH 03/39] fix: pop GC root scope when a block closes

Scopes were opened but never removed so closing an outer block truncated the
roots to the size recorded for the most recently opened inner one. Slots of
variables no longer in scope, possibly never initialised, stayed GC roots.
---
 gc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gc.go b/gc.go
index ce9b9e7..9f6fd47 100644
--- a/gc.go
+++ b/gc.go
@@ -47,7 +47,9 @@ func (gs *GcState) OpenScope() {
 }
 
 func (gs *GcState) CloseScope() {
-	gs.roots = gs.roots[:gs.scopes[len(gs.scopes)-1]]
+	last := len(gs.scopes) - 1
+	gs.roots = gs.roots[:gs.scopes[last]]
+	gs.scopes = gs.scopes[:last]
 }
 
 func (gs *GcState) Add(off int, t *Type) {
-- 
2.43.0


From 328522f15508cdfbc29b6c112baffff9126d9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:44 +0000
Subject: [PATCH 04/39] fix: treat pointers saved across an expression as GC
 roots

The right hand side of an assignment and the array of an index expression are
pushed to the stack while the rest of the expression is evaluated. If that
allocates the saved object could be collected: a[f()] = s.append(t).
---
 codegen.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/codegen.go b/codegen.go
index 130f0d2..fb330f9 100644
--- a/codegen.go
+++ b/codegen.go
@@ -513,14 +513,14 @@ func genAssignStmt(asm asmWriter, n *Node, fn *function) {
 
 	// Evaluate expression & push result to stack
 	genExpr(asm, n.right, false, fn)
-	save(asm, fn, rax)
+	saveRoot(asm, fn, rax, n.right.typ)
 
 	// Evaluate mem location to store
 	slot := n.left
 	genExpr(asm, slot, true, fn)
 
 	// Pop result
-	restore(asm, fn, rbx)
+	restoreRoot(asm, fn, rbx, n.right.typ)
 	src := rbx
 
 	// Write slot
@@ -829,7 +829,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 
 		// Calculate array address
 		genExpr(asm, expr.left, false, fn)
-		save(asm, fn, rax)
+		saveRoot(asm, fn, rax, expr.left.typ)
 
 		// Calculate index
 		genExpr(asm, expr.right, false, fn)
@@ -846,7 +846,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		asm.ins(cmpq, rax, rbx) // index - array.length
 
 		// Restore array address before jump!
-		restore(asm, fn, rax)
+		restoreRoot(asm, fn, rax, expr.left.typ)
 		asm.ins(jae, labelOp("ioob"))
 
 		// Displace + ptrSize to skip over length
@@ -909,6 +909,17 @@ func restore(asm asmWriter, fn *function, r reg) {
 	fn.decSp(1)
 }
 
+// As save() but ensures the value is visible to the GC while it is on the stack
+func saveRoot(asm asmWriter, fn *function, r reg, t *Type) {
+	save(asm, fn, r)
+	fn.gcRoots.Add(fn.sp*ptrSize, t)
+}
+
+func restoreRoot(asm asmWriter, fn *function, r reg, t *Type) {
+	fn.gcRoots.Remove(fn.sp*ptrSize, t)
+	restore(asm, fn, r)
+}
+
 var ins = make(map[int]inst)
 func init() {
 	ins[opAdd] = addq
-- 
2.43.0


From 84be5f61ba40702e652e6b8d931c203c7e3d219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 05/39] fix: evaluate the array of a for loop once and root the
 loop variable

for x in f() called f twice per iteration and the loop variable was not a GC
root, so an element could be collected while the loop body was using it.
---
 semantic.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/semantic.go b/semantic.go
index 455c491..c5976c9 100644
--- a/semantic.go
+++ b/semantic.go
@@ -473,20 +473,14 @@ func lowerForStatement(n *Node) {
 
 		// 2 cases - arrayOrRange or range expression
 		if arrayOrRange.typ.Is(Array) {
-			var stmts []*Node
-
-			// Array literals need assigned to a slot first
-			if arrayOrRange.Is(opArrayLit) {
-				arrayLitSlot := newVar("$arrayLit$", intArrayType)
-				stmts = append(stmts, das(arrayLitSlot, arrayOrRange.left))
-				arrayOrRange = arrayLitSlot
-			}
+			// Assign array to a slot first to ensure it is only evaluated once
+			array := newVar("$array$", arrayOrRange.typ)
 			val := newVar("$idx$", intType)
-			while := while(lt(val.copy(), length(arrayOrRange)))
-			while.stmts = append(while.stmts, as(n.left, access(arrayOrRange, val.copy())))
+			while := while(lt(val.copy(), length(array.copy())))
+			while.stmts = append(while.stmts, das(n.left, access(array.copy(), val.copy())))
 			while.stmts = append(while.stmts, n.stmts...)
 			while.stmts = append(while.stmts, inc(val.copy(), 1))
-			n.stmts = append(stmts, das(val, intLit(0)), while)
+			n.stmts = []*Node{das(array, arrayOrRange), das(val, intLit(0)), while}
 		} else {
 			val = n.left
 			initVal := arrayOrRange.left
-- 
2.43.0


From ea6341627c38047db027daaf12831ecf7d4d78f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:24 +0000
Subject: [PATCH 06/39] fix: capture variables used only as an array index in a
 closure

fn() int = a[i] captured a but not i, which then read an unrelated stack slot.
---
 closures.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/closures.go b/closures.go
index e902bcb..30fddc9 100644
--- a/closures.go
+++ b/closures.go
@@ -161,7 +161,7 @@ func (fc *freeVarChecker) IdentityFreeVars(n *Node) bool {
 	case n.Is(opIdentifier) && fc.isFree(n):
 		fc.free[n.sym] = true
 
-	case n.Is(opDot, opArray) && n.left.Is(opIdentifier):
+	case n.Is(opDot) && n.left.Is(opIdentifier):
 		if fc.isFree(n.left) {
 			fc.free[n.left.sym] = true
 		}
-- 
2.43.0


From de752407d67777ac1a083dc7057372da1d8c34ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:10 +0000
Subject: [PATCH 07/39] fix: do not capture struct field selectors as closure
 variables

The field in f().x was treated as a free variable. Two fields of the same name
at different offsets, or a field and a variable of the same name, then shared
one slot of the closure environment.
---
 closures.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/closures.go b/closures.go
index 30fddc9..b65813e 100644
--- a/closures.go
+++ b/closures.go
@@ -139,13 +139,14 @@ type freeVarChecker struct {
 	stack  []*Node
 	scopes []*SymTab
 	free   map[*Symbol]bool
+	fields map[*Node]bool // Struct field selectors, never variables
 }
 
 func NewFreeVarChecker(n *Node) *freeVarChecker {
 	if !n.Is(opBlockFnDcl, opExprFnDcl) {
 		panic(fmt.Sprintf("Unexpected node type for free variable checker: %v", nodeTypes[n.op]))
 	}
-	return &freeVarChecker{n: n, free: make(map[*Symbol]bool), scopes: append([]*SymTab(nil), n.symtab)}
+	return &freeVarChecker{n: n, free: make(map[*Symbol]bool), fields: make(map[*Node]bool), scopes: append([]*SymTab(nil), n.symtab)}
 }
 
 func (fc *freeVarChecker) IdentityFreeVars(n *Node) bool {
@@ -158,14 +159,11 @@ func (fc *freeVarChecker) IdentityFreeVars(n *Node) bool {
 	case opensScope(n):
 		fc.scopes = append(fc.scopes, n.symtab)
 
-	case n.Is(opIdentifier) && fc.isFree(n):
+	case n.Is(opIdentifier) && !fc.fields[n] && fc.isFree(n):
 		fc.free[n.sym] = true
 
-	case n.Is(opDot) && n.left.Is(opIdentifier):
-		if fc.isFree(n.left) {
-			fc.free[n.left.sym] = true
-		}
-		return false // No need to walk right!
+	case n.Is(opDot):
+		fc.fields[n.right] = true // Right is a field of left
 
 	case n.Is(opBlockFnDcl, opExprFnDcl) && n != fc.n:
 		return false // Don't walk into other closures!
-- 
2.43.0


From 354ff08df7396dd59b9deb27c8d68e42b25a4d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:40 +0000
Subject: [PATCH 08/39] fix: check operand types of comparison operators

Comparing anything other than integers crashed the compiler during code
generation. Equality of booleans now works, all other types are reported.
---
 codegen.go   | 9 +++++++--
 semantic.go  | 5 +++++
 typecheck.go | 4 ++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index fb330f9..6d0aefa 100644
--- a/codegen.go
+++ b/codegen.go
@@ -739,11 +739,16 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 
 	case opGt, opGte, opLt, opLte, opEq:
 
+		isTagged := !expr.left.typ.Is(Boolean) // Booleans carry no tag
 		genExpr(asm, expr.left, false, fn)
-		untag(asm, expr.left, rax)
+		if isTagged {
+			untag(asm, expr.left, rax)
+		}
 		save(asm, fn, rax)
 		genExpr(asm, expr.right, false, fn)
-		untag(asm, expr.right, rax)
+		if isTagged {
+			untag(asm, expr.right, rax)
+		}
 		asm.ins(movq, rax, rbx)
 		restore(asm, fn, rax)
 		asm.ins(cmpq, rbx, rax)
diff --git a/semantic.go b/semantic.go
index c5976c9..c070020 100644
--- a/semantic.go
+++ b/semantic.go
@@ -65,6 +65,11 @@ var operatorTypes = OperatorTypes{
 	opBXor:   {Integer},
 	opBLeft:  {Integer},
 	opBRight: {Integer},
+	opEq:     {Integer, Boolean},
+	opGt:     {Integer},
+	opGte:    {Integer},
+	opLt:     {Integer},
+	opLte:    {Integer},
 	// TODO: What about unary operators? Operators which return a different type?
 }
 
diff --git a/typecheck.go b/typecheck.go
index 3bb470d..570382a 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -192,6 +192,10 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 			errs = append(errs, semanticError2(errMismatchedTypesMsg, left.token, left.typ, right.typ))
 			goto end
 		}
+		if !operatorTypes.isValid(n.op, left.typ.Kind) {
+			errs = append(errs, semanticError2(errInvalidOperatorTypeMsg, left.token, left.typ, n.token.Val))
+			goto end
+		}
 		n.typ = boolType
 
 	case opStructDcl, opEnumDcl:
-- 
2.43.0


From 45d4b24d9df32004635be87eb8c5324d873b2459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:32 +0000
Subject: [PATCH 09/39] fix: emit string literals byte for byte

A literal with a raw newline crashed the compiler, one with bytes which are
not valid UTF-8 was given the wrong length and one with control characters
failed to assemble. Unterminated literals are now reported at the end of the
line and every other byte is passed through exactly.
---
 asm.go     | 26 ++++++++++++++++++++------
 lex/lex.go |  5 +++--
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/asm.go b/asm.go
index c615527..902dfa3 100644
--- a/asm.go
+++ b/asm.go
@@ -414,20 +414,34 @@ func (gw *gasWriter) flush() {
 	gw.tab(".data")
 	for s, label := range gw.literals {
 
-		raw, err := strconv.Unquote(s)
-		if err != nil {
-			panic(err)
-		}
-
+		raw := unescape(s[1:len(s)-1])
 		gw.tab(".align", "8")
 		gw.label(label)
 		gw.taggedInt(readOnlyGcHeader(4)) // gc.go defines fixed IDs
 		gw.taggedInt(len(raw))
-		gw.write("   .ascii \"%v\\0\"\n", s[1:len(s)-1])
+		gw.write("   .ascii \"%v\\0\"\n", escapeAscii(raw))
 	}
 	gw.literals = make(map[string]string) // Clear values
 }
 
+// Replaces the escape sequences accepted by the lexer. All other bytes are kept exactly as they are
+func unescape(s string) string {
+	return strings.NewReplacer(`\r`, "\r", `\n`, "\n", `\\`, `\`, `\"`, `"`).Replace(s)
+}
+
+// Escapes all bytes which have a special meaning to the assembler or preprocessor
+func escapeAscii(s string) string {
+	var buf bytes.Buffer
+	for i := 0; i < len(s); i++ {
+		if b := s[i]; b < ' ' || b > '~' || b == '"' || b == '\\' {
+			buf.WriteString(fmt.Sprintf("\\%03o", b))
+		} else {
+			buf.WriteByte(b)
+		}
+	}
+	return buf.String()
+}
+
 func (gw *gasWriter) newLabel(s string) string {
 	label := fmt.Sprintf("%v_%v", s, gw.lIndex)
 	gw.lIndex++
diff --git a/lex/lex.go b/lex/lex.go
index 3e9f031..59155d4 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -432,7 +432,7 @@ func lexComment(l *Lexer) stateFn {
 func lexString(l *Lexer) stateFn {
 	loop: for {
 		switch l.peek() {
-		case eof, '"':
+		case eof, '"', '\n':
 			break loop;
 		case '\\':
 			l.next()
@@ -446,9 +446,10 @@ func lexString(l *Lexer) stateFn {
 	}
 
 	// Check for closing quote
-	if l.next() != '"' {
+	if l.peek() != '"' {
 		return l.errorf("Unclosed string literal")
 	}
+	l.next()
 	l.emit(String)
 	return lexText
 }
-- 
2.43.0


From 2f119f2e0bb73a0480c786d42fcc9a1f25fc3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 10/39] fix: report columns on the first line starting from 1

Columns were counted from 0 on the first line of a file and from 1 on all
other lines.
---
 lex/lex.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lex/lex.go b/lex/lex.go
index 59155d4..a2a9b49 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -547,11 +547,8 @@ func (l *Lexer) errorf(format string, args ...interface{}) stateFn {
 }
 
 func (l *Lexer) linePos(start int) int {
-	lineIndex := strings.LastIndex(l.input[:start], "\n")
-	if lineIndex == -1 {
-		lineIndex = 0
-	}
-	return utf8.RuneCountInString(l.input[lineIndex:start])
+	lineIndex := strings.LastIndex(l.input[:start], "\n") // -1 if on first line
+	return 1 + utf8.RuneCountInString(l.input[lineIndex+1:start])
 }
 
 func (l *Lexer) lineNumber() int {
-- 
2.43.0


From c4f5c9f4b9c67000dc03363c0f0e3f7176c61e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:14 +0000
Subject: [PATCH 11/39] fix: report unexpected tokens in expressions

The offending token was consumed before the error was reported, so the error
named the token after it and was lost entirely at the end of input: a program
truncated in the middle of an expression compiled with its last function
missing.
---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index d313a33..5717be1 100644
--- a/parse.go
+++ b/parse.go
@@ -428,14 +428,14 @@ func prefixOperators(kinds ... lex.Kind) {
 }
 
 func (p *Parser) parseExpr(precedence int) *Node {
-	token := p.next()
-	prefix := prefixParsers[token.Kind];
+	prefix := prefixParsers[p.Kind()]
 
 	// Skip token & continue
 	if prefix == nil {
 		p.syntaxError("<expression>")
 		return &Node{op: opError, token: p.next()}
 	}
+	token := p.next()
 
 	nextPrecedence := func(next lex.Kind) int {
 		if _, ok := infixParsers[next]; !ok {
-- 
2.43.0


From 402544b34b5eb4bc4bde886aaf2519076764f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:38 +0000
Subject: [PATCH 12/39] fix: report integer literals which do not fit in 63
 bits

Literals were checked against 64 bits but integers carry a tag bit, so
4611686018427387904 was accepted and became -4611686018427387904.
---
 semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index c070020..9cc414c 100644
--- a/semantic.go
+++ b/semantic.go
@@ -463,7 +463,7 @@ func foldConstants(errs *[]error, n *Node) {
 
 	// Check for overflow
 	if n.op == opLit && n.token.Kind == lex.Integer {
-		_, err := strconv.ParseInt(n.token.Val, 0, 64)
+		_, err := strconv.ParseInt(n.token.Val, 0, 63) // Integers are 63 bits + tag
 		if err != nil {
 			*errs = append(*errs, semanticError(errIntegerOverflowMsg, n.token))
 		}
-- 
2.43.0


From 781bc2ce6f133d2dae1700d3b5fb23bfe5217550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:46 +0000
Subject: [PATCH 13/39] fix: allow expressions to start with a bitwise not

return ~x was parsed as an empty return followed by a syntax error.
---
 lex/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.go b/lex/lex.go
index a2a9b49..4dc39f9 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -99,7 +99,7 @@ const (
 
 func (k Kind) IsExprStart() bool {
 	switch k {
-	case Integer, String, Identifier, True, False, Not, LParen, Fn, Min, LBrack:
+	case Integer, String, Identifier, True, False, Not, BNot, LParen, Fn, Min, LBrack:
 		return true
 	default:
 		return false
-- 
2.43.0


From 90b9d38dd98ae4d584b5aea33ed2300c664fc7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:03 +0000
Subject: [PATCH 14/39] fix: keep type errors found inside ternary and array
 literal expressions

Errors of a sub-expression were dropped whenever it still had a type, so
[fn() int = "x"] type checked.
---
 typecheck.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 570382a..594b1fb 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -520,18 +520,18 @@ func typeCheckCase(n *Node, bound map[*Type]*Type, symtab *SymTab, fn *FunctionT
 
 func typeCheckTernary(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []error {
 	cond := n.left
-	if errs := typeCheck(cond, symtab, fn, debug); !cond.hasType() {
+	if errs := typeCheck(cond, symtab, fn, debug); len(errs) > 0 || !cond.hasType() {
 		return errs
 	}
 	if !cond.typ.Is(Boolean) {
 		return []error{ semanticError2(errMismatchedTypesMsg, cond.token, cond.typ, boolType) }
 	}
 	ifExpr := n.stmts[0]
-	if errs := typeCheck(ifExpr, symtab, fn, debug); !ifExpr.hasType() {
+	if errs := typeCheck(ifExpr, symtab, fn, debug); len(errs) > 0 || !ifExpr.hasType() {
 		return errs
 	}
 	elseExpr := n.stmts[1]
-	if errs := typeCheck(elseExpr, symtab, fn, debug); !elseExpr.hasType() {
+	if errs := typeCheck(elseExpr, symtab, fn, debug); len(errs) > 0 || !elseExpr.hasType() {
 		return errs
 	}
 	if !ifExpr.typ.Matches(elseExpr.typ) {
@@ -546,7 +546,7 @@ func typeCheckArrayLit(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []
 		return []error{ semanticError(errEmptyArrayLiteralMsg, n.token) }
 	}
 	for _, expr := range n.stmts {
-		if errs := typeCheck(expr, symtab, fn, debug); !expr.hasType() {
+		if errs := typeCheck(expr, symtab, fn, debug); len(errs) > 0 || !expr.hasType() {
 			return errs
 		}
 		// Type of first element defines type for rest of elements
-- 
2.43.0


From b974ee2f0388b5d117d9dac85b2970ee509f9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:29 +0000
Subject: [PATCH 15/39] fix: reject assignment to calls, functions and types

These are not addressable and overwrote unrelated memory.
---
 ast.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index ee8b38c..2871d4b 100644
--- a/ast.go
+++ b/ast.go
@@ -37,8 +37,7 @@ func (n *Node) hasType() bool {
 func (n *Node) isAddressable() bool {
 	switch n.op {
 	case opArray: return true
-	case opFuncCall: return n.typ.Is(Struct) || n.typ.Is(Array)
-	case opIdentifier: return true
+	case opIdentifier: return !n.sym.IsGlobal && !n.sym.IsType // Only variables & parameters
 	case opDot: return true
 	default:
 		return false
-- 
2.43.0


From 04b904d0fccc77f13acd1b682349153b12ef4fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:56 +0000
Subject: [PATCH 16/39] fix: report path of file which failed to be read

read() referred to the type 'file' instead of its parameter and crashed when
building the error.
---
 install/lib/io.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/io.clara b/install/lib/io.clara
index fb268df..70746e5 100644
--- a/install/lib/io.clara
+++ b/install/lib/io.clara
@@ -12,7 +12,7 @@ fn read(f: file, buf: bytes, size: int) option«error» {
     if size > buf.length() {
         return Some(Error(Some("buffer is too small for requested read size"), -1))
     }
-    return read(f.fd, buf, size) == -1 ? Some(Error(Some(file.path), errnum())) : None«error»()
+    return read(f.fd, buf, size) == -1 ? Some(Error(Some(f.path), errnum())) : None«error»()
 }
 // ---------------------------------------------------------------------------------------------------------------------
 // External Functions
-- 
2.43.0


From 7c8eadd241b5de0131e4bee693a30741d1b12faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:02 +0000
Subject: [PATCH 17/39] fix: do not allow types to be used as values

x := int and s.field, where s is a struct type, were accepted and evaluated to
garbage.
---
 typecheck.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typecheck.go b/typecheck.go
index 594b1fb..e3a1b11 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -901,10 +901,13 @@ func typeCheckIdentifier(n *Node, symtab *SymTab, allowAmbiguous bool) error {
 
 	// If no symbol - try to find identifier declaration
 	if n.sym == nil {
-		sym, found := symtab.Resolve(n.token.Val)
+		sym, found := symtab.ResolveAll(n.token.Val, func(s *Symbol) bool { return !s.IsType || s.Next != nil })
 		if !found {
 			return semanticError(errUnknownVarMsg, n.token)
 		}
+		if sym.IsType {
+			sym = sym.Next // Types are not values but functions may share their name
+		}
 		if sym.Next != nil && !allowAmbiguous {
 			var types []string
 			for s := sym; s != nil; s = s.Next {
-- 
2.43.0


From 19ff379c7d69de915df13733dc392135146979ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:33 +0000
Subject: [PATCH 18/39] fix: only select overloads of function arguments for
 the call which matches

Checking a candidate which did not match replaced overloaded function
arguments, so a later candidate with a different signature was not found.
---
 typecheck.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index e3a1b11..63ad973 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -728,6 +728,15 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 	// TODO: This is horrible!
 	//
 
+	// Overloads selected for arguments, only applied if the whole call matches
+	overloads := make(map[*Node]*Symbol)
+	selectOverloads := func() {
+		for arg, s := range overloads {
+			arg.sym = s
+			arg.typ = s.Type
+		}
+	}
+
 	if len(f.Types) == 0 {
 
 	argCheck:
@@ -737,8 +746,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			if arg.op == opIdentifier && arg.sym.Next != nil {
 				for s := arg.sym; s != nil; s = s.Next {
 					if s.Type.Matches(param) {
-						arg.sym = s
-						arg.typ = s.Type
+						overloads[arg] = s
 						continue argCheck
 					}
 				}
@@ -756,6 +764,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 				return nil, semanticError2(errMismatchedTypesMsg, arg.token, arg.typ, param)
 			}
 		}
+		selectOverloads()
 		return f.ret, nil
 
 	} else {
@@ -771,9 +780,11 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			// If the argument is a named function is may be overloaded so check all symbols
 			if arg.op == opIdentifier && arg.sym.Next != nil {
 				for s := arg.sym; s != nil; s = s.Next {
-					if s.Type.PolyMatch(param, bound) {
-						arg.sym = s
-						arg.typ = s.Type
+					// Discard any types bound by an overload which does not match
+					candidate := copyBindings(bound)
+					if s.Type.PolyMatch(param, candidate) {
+						overloads[arg] = s
+						bound = candidate
 						continue polyArgCheck
 					}
 				}
@@ -801,10 +812,19 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			}
 			return nil, semanticError2(errTypeParameterNotKnownMsg, n.token, strings.Join(types, ","), f.ret.String())
 		}
+		selectOverloads()
 		return substituteType(f.ret, bound), nil
 	}
 }
 
+func copyBindings(bound map[*Type]*Type) map[*Type]*Type {
+	c := make(map[*Type]*Type)
+	for k, v := range bound {
+		c[k] = v
+	}
+	return c
+}
+
 func substituteType(t *Type, bound map[*Type]*Type) *Type {
 	if len(bound) == 0 {
 		return t
-- 
2.43.0


From 2019be9f494057dbfb240f676bd1ccbf850a7653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:46 +0000
Subject: [PATCH 19/39] fix: instantiate fields of generic structs on demand

A generic struct with a field of its own type sent the compiler into infinite
recursion, and a field using a generic struct declared later in the program
kept the type parameters of that declaration.
---
 symtab.go    | 16 +++++++++++++++-
 typecheck.go |  8 ++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/symtab.go b/symtab.go
index d1faa2d..b4fde6a 100644
--- a/symtab.go
+++ b/symtab.go
@@ -284,6 +284,7 @@ type StructType struct {
 	Name   string
 	Fields []*Symbol
 	Types  []*Type
+	decl   *StructType // Declaration of an instantiated generic struct, otherwise nil
 }
 
 func (st *StructType) GetField(name string) *Symbol {
@@ -292,7 +293,20 @@ func (st *StructType) GetField(name string) *Symbol {
 			return field
 		}
 	}
-	return nil // Not found
+	if st.decl == nil {
+		return nil // Not found
+	}
+
+	// Fields of generic structs are only instantiated when required as their types may refer to this struct
+	field := st.decl.GetField(name)
+	if field == nil {
+		return nil // Not found
+	}
+	bound := make(map[*Type]*Type)
+	for i, t := range st.decl.Types {
+		bound[t] = st.Types[i]
+	}
+	return &Symbol{Name: field.Name, Addr: field.Addr, Type: substituteType(field.Type, bound)}
 }
 
 func (st *StructType) HasField(name string) bool {
diff --git a/typecheck.go b/typecheck.go
index 63ad973..cee77e2 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -850,11 +850,11 @@ func substituteType(t *Type, bound map[*Type]*Type) *Type {
 		for _, tp := range s.Types {
 			types = append(types, substituteType(tp, bound))
 		}
-		var fields []*Symbol
-		for i, f := range s.Fields {
-			fields = append(fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteType(f.Type, bound)})
+		decl := s
+		if s.decl != nil {
+			decl = s.decl
 		}
-		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Fields: fields, Types: types}}
+		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Types: types, decl: decl}}
 
 	case t.Is(Enum):
 		e := t.AsEnum()
-- 
2.43.0


From 14e1f2729f3b5531e6dacdfbdb8d7f401472dfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:34 +0000
Subject: [PATCH 20/39] fix: report functions, structs and closures which need
 too many registers

Declaring a function with more than 6 parameters or a struct with more than 6
fields, capturing more than 6 variables or calling a function value with more
than 5 arguments crashed the compiler.
---
 closures.go | 11 ++++++++++-
 main.go     |  6 +++---
 semantic.go | 16 ++++++++++++++++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/closures.go b/closures.go
index b65813e..a3c2ead 100644
--- a/closures.go
+++ b/closures.go
@@ -7,13 +7,17 @@ import (
 
 var id = uint(0) // TODO: Find a better solution to this...
 
-func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
+func rewriteAnonFnAndClosures(errs *[]error, rootNode *Node, n *Node) {
 
 	if n.isLocalFn() {
 
 		id += 1
 
 		freeVars := clIdentifyFreeVars(n)
+		if len(freeVars) > maxFnArgCount {
+			*errs = append(*errs, semanticError2(errTooManyCapturesMsg, n.token, maxFnArgCount))
+			return
+		}
 		if len(freeVars) > 0 {
 
 			// ----------------------------------------------------------
@@ -83,6 +87,11 @@ func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
 
 	if n.isNonGlobalFnCall() {
 
+		if len(n.stmts) > maxFnValueArgCount {
+			*errs = append(*errs, semanticError2(errTooManyArgsMsg, n.token, n.left.token.Val, maxFnValueArgCount))
+			return
+		}
+
 		// ----------------------------------------------------------
 		// Closure/Anonymous/Fn Pointer Call Site
 		// ----------------------------------------------------------
diff --git a/main.go b/main.go
index a853ea5..be72c18 100644
--- a/main.go
+++ b/main.go
@@ -119,14 +119,14 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	WalkPostOrder(rootNode, func(n *Node) { rewriteArrayLiteralExpr(n, rootSymtab) })
 	for _, n := range rootNode.stmts {
 		if !isFn(n, "invokeDynamic") {
-			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(rootNode, n) })
+			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(&errs, rootNode, n) })
 		}
 	}
-	WalkPostOrder(rootNode, func(n *Node) { lowerMatchStatement(rootSymtab, n) })
-	WalkPostOrder(rootNode, lowerForStatement)
 	if len(errs) > 0 {
 		return "", errs
 	}
+	WalkPostOrder(rootNode, func(n *Node) { lowerMatchStatement(rootSymtab, n) })
+	WalkPostOrder(rootNode, lowerForStatement)
 
 	// Show final AST if necessary
 	if options.showAst() {
diff --git a/semantic.go b/semantic.go
index 9cc414c..1ef6e88 100644
--- a/semantic.go
+++ b/semantic.go
@@ -38,11 +38,13 @@ const (
 	errMatchNotExhaustiveMsg    = "%v:%d:%d: error, match over enum '%v' is not exhaustive"
 	errNotAnEnumCaseMsg         = "%v:%d:%d: error, '%v' is not an enum case"
 	errTooManyArgsMsg           = "%v:%d:%d: error, '%v' exceeds maximum argument count of '%v'"
+	errTooManyCapturesMsg       = "%v:%d:%d: error, function captures more than the maximum of '%v' variables"
 	errTypeParameterNotKnownMsg = "%v:%d:%d: error, type parameter(s) '%v' of return type '%v' not known, explicit function call type parameters required"
 	errEmptyArrayLiteralMsg     = "%v:%d:%d: error, empty array literal not allowed ... yet!"
 	errNoTypeParametersMsg      = "%v:%d:%d: error, type '%v' does not declare type parameters"
 	maxCaseArgCount             = 5
 	maxFnArgCount               = 6
+	maxFnValueArgCount          = 5 // One less as function values are always passed themselves. See invokeDynamic()
 
 	// Debug messages
 	debugTypeInfoFormat = "⚫ %s%-60s%s %s%-30s%s ⇨ %s%s%s\n"
@@ -357,6 +359,15 @@ func processFnType(n *Node, symName string, symtab *SymTab, child *SymTab, types
 	}
 	n.sym = sym
 
+	// Check all arguments can be passed
+	maxArgs := maxFnArgCount
+	if n.isLocalFn() {
+		maxArgs = maxFnValueArgCount
+	}
+	if len(n.params) > maxArgs {
+		return nil, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxArgs)
+	}
+
 	// Process parameters
 	n.symtab = child
 	if n.right != nil {
@@ -624,6 +635,11 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 		return nil, semanticError(errStructNamingLowerMsg, n.token)
 	}
 
+	// Check all fields can be passed to constructor
+	if len(n.stmts) > maxFnArgCount {
+		return nil, semanticError2(errTooManyArgsMsg, n.token, name, maxFnArgCount)
+	}
+
 	// Create name
 	constructorName := strings.ToUpper(firstLetter) + name[1:]
 
-- 
2.43.0


From 4c9960364a74f8ea44b1c3560a623469dad29f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:55 +0000
Subject: [PATCH 21/39] fix: reject negative indexes in bytes and strings

Only the upper bound was checked so negative indexes read and wrote memory in
front of the object.
---
 install/lib/bytes.clara   | 4 ++--
 install/lib/strings.clara | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/install/lib/bytes.clara b/install/lib/bytes.clara
index 58bd149..8be3557 100644
--- a/install/lib/bytes.clara
+++ b/install/lib/bytes.clara
@@ -7,12 +7,12 @@ fn Bytes(length: int) bytes {
 fn length(b: bytes) int = b.toBytesHeader().length
 
 fn get(b: bytes, idx: int) int {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     return b.toPointer(8).readByte(idx).tag() // Tag after read
 }
 
 fn set(b: bytes, idx: int, val: int) {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     b.toPointer(8).writeByte(idx, val.untag()) // Untag before write
 }
 
diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index 929edf9..dee5118 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -1,6 +1,6 @@
 // ---------------------------------------------------------------------------------------------------------------------
 fn byte(s: string, idx: int) int {
-    assert(idx < s.length, "idx is out of range")
+    assert(idx >= 0 and idx < s.length, "idx is out of range")
     return s.toPointer(8).readByte(idx).tag()
 }
 
-- 
2.43.0


From 78d15121e960da55fedefaf7590fef4d19bdab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:22 +0000
Subject: [PATCH 22/39] fix: reject negative and overflowing lengths of arrays,
 bytes and strings

array(-2, x) and Bytes(-1) allocated less memory than they wrote and
Substring() could return a string with a negative length.
---
 install/lib/arrays.clara  | 4 ++++
 install/lib/bytes.clara   | 1 +
 install/lib/strings.clara | 1 +
 3 files changed, 6 insertions(+)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index 27a9f48..8b60119 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -28,6 +28,7 @@ fn arrayNoInit«T»(length: int) []T = array(length, noInit«T»(), "[]T", 7)
 // TODO: Should be private
 fn array«T»(length: int, init: fn([]T), description: string, tag: int) []T {
     // TODO: Would be nice to lookup type ID for default & configure array type ID appropriately
+    assertLength(length)
     h := claralloc((length * 8) + 8, description, tag).toHeader() // pointer == 8 bytes, + 8 for length
     h.length = length
     a := h.toArray«T»()
@@ -49,5 +50,8 @@ fn initWith«T»(default: T) fn([]T) {
 
 fn noInit«T»() fn([]T) = fn(a: []T) {}
 
+// Ensures the size in bytes is positive & cannot overflow
+fn assertLength(length: int) = assert(length >= 0 and length <= 0xFFFFFFFFFFFF, "length is out of range")
+
 fn toHeader(b: block) arrayHeader = unsafe(b, 0, type(arrayHeader))
 fn toArray«T»(header: arrayHeader) []T = unsafe(header, 0, type([]T))
\ No newline at end of file
diff --git a/install/lib/bytes.clara b/install/lib/bytes.clara
index 8be3557..72767bd 100644
--- a/install/lib/bytes.clara
+++ b/install/lib/bytes.clara
@@ -1,4 +1,5 @@
 fn Bytes(length: int) bytes {
+    assertLength(length)
     header := claralloc(length + 8, "bytes", 1).toBytesHeader()
     header.length = length
     return header.toBytes()
diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index dee5118..13b9f3f 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -151,6 +151,7 @@ fn copyString(src: string, srcPos: int, dest: bytes, destPos: int) {
 fn toString(b: bytes) string = toString(b, b.length())
 fn toString(b: bytes, length: int) string = toString(b, 0, length)
 fn toString(b: bytes, pos: int, length: int) string {
+    assertLength(length)
     s := Bytes(length + 1) // + 1 for NUL byte
     s.unsafe(0, type(bytesHeader)).length = length // Ugh!
     copyArray(b, pos, s, 0)
-- 
2.43.0


From b3cf38a077922a4b0198dcaa55bb04a948e0f812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:48 +0000
Subject: [PATCH 23/39] fix: grow byte buffers created without any capacity

Doubling a capacity of zero never reached the required size.
---
 install/lib/strings.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index 13b9f3f..aab337b 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -116,7 +116,7 @@ fn append(buf: byteBuffer, b: int) {
 // ---------------------------------------------------------------------------------------------------------------------
 // TODO: Should be "private"
 fn grow(buf: byteBuffer, requiredSize: int) {
-    newSize := buf.data.length() * 2
+    newSize := (buf.data.length() * 2) + 1 // Current capacity may be zero
     while newSize < requiredSize {
         newSize = newSize * 2
     }
-- 
2.43.0


From d6969b69cb0dcad169309bad03e545d6d67c3b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:54 +0000
Subject: [PATCH 24/39] fix: support hash functions which return negative
 values in maps

The remainder of a negative hash is negative and was used as an array index.
---
 install/lib/map.clara | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/install/lib/map.clara b/install/lib/map.clara
index 3db5a05..549566e 100644
--- a/install/lib/map.clara
+++ b/install/lib/map.clara
@@ -67,13 +67,16 @@ fn remove«K, V»(m: map«K, V», key: K) option«V» {
 
 fn orElse«K, V»(m: map«K, V», key: K, other: V) V = m.get(key).orElse(other)
 
-fn indexFor«K, V»(m: map«K, V», key: K) int = m.hasher(key).mod(m.buckets.length)
+fn indexFor«K, V»(m: map«K, V», key: K) int = slotFor(m.hasher(key), m.buckets.length)
+
+// Hashes may be negative. Relies on power of 2 sizing
+fn slotFor(hash: int, buckets: int) int = hash & (buckets - 1)
 
 fn resize«K, V»(m: map«K, V») {
     buckets := createBuckets«K, V»(m.buckets.length << 1) // Double size of array
     for bucket in m.buckets {
         bucket.foreach(fn(e: entry«K, V») {
-            slot := m.hasher(e.key).mod(buckets.length)
+            slot := slotFor(m.hasher(e.key), buckets.length)
             buckets[slot] = buckets[slot].append(e)
         })
     }
-- 
2.43.0


From cd0e4fedff4ccd0a2edfec2759589f458ece37c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:00 +0000
Subject: [PATCH 25/39] fix: copy bytes with a loop instead of recursion

Every byte used a stack frame so copying a large string or file overflowed the
stack.
---
 install/lib/arrays.clara | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index 8b60119..f6f930e 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -1,11 +1,11 @@
 // ---------------------------------------------------------------------------------------------------------------------
 
 fn copyArray(src: bytes, srcPos: int, dest: bytes, destPos: int) {
-    if src.length() == srcPos or dest.length() == destPos {
-        return
+    while not (src.length() == srcPos or dest.length() == destPos) {
+        dest.set(destPos, src.get(srcPos))
+        srcPos = srcPos+1
+        destPos = destPos+1
     }
-    dest.set(destPos, src.get(srcPos))
-    copyArray(src, srcPos+1, dest, destPos+1)
 }
 
 fn setElement«T»(src: []T, pos: int, val: T) []T {
-- 
2.43.0


From 140f28d1687d5bc12280f59ad06f605fc1b34cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:31 +0000
Subject: [PATCH 26/39] fix: do not crash when printing type information

The root node has no token so -types failed for every program.
---
 typecheck.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index cee77e2..3eb5571 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -944,6 +944,9 @@ func typeCheckIdentifier(n *Node, symtab *SymTab, allowAmbiguous bool) error {
 //---------------------------------------------------------------------------------------------------------------
 
 func printTypeInfo(n *Node) {
+	if n.token == nil {
+		return // Root node
+	}
 	// TODO: Fix the type name printing!
 	calculatedType := "<EMPTY>"
 	if n.typ != nil {
-- 
2.43.0


From 47137df065a44db2f0d1500c35f60c5faf167e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:58 +0000
Subject: [PATCH 27/39] fix: assign closure ids atomically

Concurrent calls to Compile() raced on the counter and could give two closures
of one program the same name.
---
 closures.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/closures.go b/closures.go
index a3c2ead..84ed144 100644
--- a/closures.go
+++ b/closures.go
@@ -3,15 +3,16 @@ package main
 import (
 	"fmt"
 	"github.com/g-dx/clarac/lex"
+	"sync/atomic"
 )
 
-var id = uint(0) // TODO: Find a better solution to this...
+var lastId = uint64(0) // TODO: Find a better solution to this...
 
 func rewriteAnonFnAndClosures(errs *[]error, rootNode *Node, n *Node) {
 
 	if n.isLocalFn() {
 
-		id += 1
+		id := atomic.AddUint64(&lastId, 1)
 
 		freeVars := clIdentifyFreeVars(n)
 		if len(freeVars) > maxFnArgCount {
-- 
2.43.0


From c4f3c5e98cfb103ea77ea07f7e2119f73214c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 28/39] fix: write assembly to a unique file for each
 compilation

Two programs with the same file name compiled at the same time shared one
assembly file in the temp directory.
---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index be72c18..5d1a75a 100644
--- a/main.go
+++ b/main.go
@@ -136,12 +136,12 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	// Create assembly file
 	basename := filepath.Base(progPath)
 	progName := strings.TrimSuffix(basename, filepath.Ext(basename))
-	asmPath := fmt.Sprintf("%v/%v.S", os.TempDir(), progName)
-	os.Remove(asmPath) // Ignore error
-	f, err := os.Create(asmPath)
+	f, err := ioutil.TempFile("", progName+".*.S") // Unique as programs with the same name may be compiled concurrently
 	if err != nil {
 		return "", []error{err}
 	}
+	asmPath := f.Name()
+	defer os.Remove(asmPath)
 
 	// Generate assembly
 	asm := NewGasWriter(f, options.showAsm)
-- 
2.43.0


From 880143bdc2a3d0f78eb6df9136a4bbce1347d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:22 +0000
Subject: [PATCH 29/39] fix: pass program arguments in the order they were
 given

getopt moved all options in front of other arguments before the program saw
them and complained about options it did not know.
---
 install/init/bootstrap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/install/init/bootstrap.c b/install/init/bootstrap.c
index e5df462..06f4c7b 100644
--- a/install/init/bootstrap.c
+++ b/install/init/bootstrap.c
@@ -18,11 +18,12 @@ static struct option options[] =
 
 int main(int argc, char** argv, char** envp)
 {
+    opterr = 0; // Unknown options belong to the program
     while (1)
     {
         // Parse next option & check for end of input
         int index = 0;
-        int c = getopt_long(argc, argv, "g", options, &index);
+        int c = getopt_long(argc, argv, "-g", options, &index);
         if (c == -1)
         {
             break;
-- 
2.43.0


From 974c576cd3d077cd446179bd4636ce34bf519eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:29 +0000
Subject: [PATCH 30/39] fix: support functions with more than 4095 local
 variables

---
 asm.go     | 6 +++---
 codegen.go | 9 ++++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/asm.go b/asm.go
index 902dfa3..88bc8f2 100644
--- a/asm.go
+++ b/asm.go
@@ -20,7 +20,7 @@ type operand interface {
 type memOp struct {
 	base  reg
 	idx   reg
-	disp  int16
+	disp  int32
 	scl   int16
 	indir bool
 	deref bool
@@ -37,7 +37,7 @@ func (mo memOp) scale(m int) memOp {
 }
 
 func (mo memOp) displace(m int) memOp {
-	mo.disp = int16(m)
+	mo.disp = int32(m)
 	return mo
 }
 
@@ -206,7 +206,7 @@ func (r reg) indirect() memOp {
 }
 
 func (r reg) displace(i int) memOp {
-	if i > math.MaxInt16 || i < math.MinInt16 {
+	if i > math.MaxInt32 || i < math.MinInt32 {
 		panic(fmt.Sprintf("Cannot represent displacement: %v", i))
 	}
 	return r.deref().displace(i)
diff --git a/codegen.go b/codegen.go
index 6d0aefa..684bb81 100644
--- a/codegen.go
+++ b/codegen.go
@@ -399,7 +399,14 @@ func genFnEntry(asm asmWriter, name string, temps int) int {
 		temps += 1
 	}
 	asm.fnStart(name)
-	asm.ins(enter, intOp(temps*8), intOp(0))
+	if temps*8 <= math.MaxUint16 {
+		asm.ins(enter, intOp(temps*8), intOp(0))
+	} else {
+		// Frame is too large for enter
+		asm.ins(pushq, rbp)
+		asm.ins(movq, rsp, rbp)
+		asm.ins(subq, intOp(temps*8), rsp)
+	}
 	return temps
 }
 
-- 
2.43.0


From 6248bba07a24456662057c5b7139149cb158f7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:23 +0000
Subject: [PATCH 31/39] fix: print all bits of an index which is out of bounds

---
 install/lib/runtime.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/runtime.clara b/install/lib/runtime.clara
index e8f2dc3..0a71016 100644
--- a/install/lib/runtime.clara
+++ b/install/lib/runtime.clara
@@ -95,7 +95,7 @@ fn assert(condition: bool, msg: string) {
 // Invoked by an ASM trampoline (See codegen.go) for invalid array access
 fn indexOutOfBounds(index: int, length: int) {
     printf("\n// -----------------------------------------------------------------------------\n")
-    printf("// Panic: index out of bounds! index = %d, array.length = %d\n", index, length)
+    printf("// Panic: index out of bounds! index = %lli, array.length = %lli\n", index, length)
     printf("// -----------------------------------------------------------------------------\n")
     printf("\nBacktrace:\nTODO!\n\n")
     // TODO: Output stacktrace
-- 
2.43.0


From 37e80c9443efc61984dcbcdf1977c7a22b695629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:48 +0000
Subject: [PATCH 32/39] fix: check the format argument of printf & debug calls

---
 typecheck.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 3eb5571..74f33d0 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -644,21 +644,26 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 	}
 
 	// SPECIAL CASE: Skip dealing with variadic functions as printf & debug are the only ones
-	if n.left.token.Val == "printf" || n.left.token.Val == "debug" {
-		s, _ := fnSymtab.Resolve(n.left.token.Val)
-		n.left.sym = s
+	if s := n.left.sym; s != nil && s.IsGlobal && s.Type.Is(Function) && s.Type.AsFunction().isVariadic {
+		params := s.Type.AsFunction().Params
+		if len(n.stmts) < len(params) {
+			return append(errs, semanticError2(errInvalidNumberArgsMsg, n.token, len(n.stmts), len(params)))
+		}
+		for i, param := range params {
+			if arg := n.stmts[i]; !arg.typ.Matches(param) {
+				return append(errs, semanticError2(errMismatchedTypesMsg, arg.token, arg.typ, param))
+			}
+		}
 		n.typ = nothingType
 		return errs
 	}
 
 	// SPECIAL CASE: Allow anything into the unsafe function
-	if n.left.token.Val == "unsafe" {
-		s, _ := fnSymtab.Resolve(n.left.token.Val)
+	if s := n.left.sym; s != nil && s.IsGlobal && s.Name == "unsafe" {
 		unsafe := s.Type.AsFunction()
 		if len(n.stmts) != 3 {
 			return append(errs, semanticError2(errInvalidNumberArgsMsg, n.left.token, len(n.stmts), len(unsafe.Params)))
 		}
-		n.left.sym = s
 		n.typ = n.stmts[len(n.stmts)-1].typ
 		return errs
 	}
-- 
2.43.0


From 3da3a42df658b36e62259eeb5be292b817d69364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:11 +0000
Subject: [PATCH 33/39] fix: do not allow types as values outside of calls to
 unsafe

---
 semantic.go  |  1 +
 typecheck.go | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/semantic.go b/semantic.go
index 1ef6e88..a46a9ec 100644
--- a/semantic.go
+++ b/semantic.go
@@ -15,6 +15,7 @@ import (
 const (
 	errRedeclaredMsg            = "%v:%d:%d: error, '%v' redeclared"
 	errUnknownTypeMsg           = "%v:%d:%d: error, unknown type '%v'"
+	errTypeNotValueMsg          = "%v:%d:%d: error, type '%v' is not a value"
 	errUnknownVarMsg            = "%v:%d:%d: error, no declaration for identifier '%v' found"
 	errAmbiguousVarMsg          = "%v:%d:%d: error, multiple identifiers for '%v' found:\n\t* %v"
 	errStructNamingLowerMsg     = "%v:%d:%d: error, struct names must start with a lowercase letter, '%v'"
diff --git a/typecheck.go b/typecheck.go
index 74f33d0..91660f9 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -464,7 +464,8 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 		}
 
 	case opNamedType, opFuncType, opArrayType:
-		n.typ = instantiateType(symtab, n, &errs)
+		// Types are only allowed as type parameters & arguments of unsafe. See typeCheckFuncCall()
+		errs = append(errs, semanticError(errTypeNotValueMsg, n.token))
 	default:
 		panic(fmt.Sprintf("Node type [%v] not processed during type check!", nodeTypes[n.op]))
 	}
@@ -618,13 +619,14 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 
 	// Type check type parameters
 	for _, param := range n.params {
-		errs = append(errs, typeCheck(param, symtab, fn, debug)...)
+		param.typ = instantiateType(symtab, param, &errs)
 		if !param.hasType() {
 			return errs
 		}
 	}
 
 	// Type check args
+	isUnsafe := n.left.sym != nil && n.left.sym.IsGlobal && n.left.sym.Name == "unsafe"
 	for _, arg := range n.stmts {
 		if arg.hasType() {
 			continue
@@ -635,6 +637,12 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 			if err != nil {
 				return append(errs, err)
 			}
+		case opNamedType, opFuncType, opArrayType:
+			if isUnsafe {
+				arg.typ = instantiateType(symtab, arg, &errs)
+				break
+			}
+			fallthrough
 		default:
 			errs = append(errs, typeCheck(arg, symtab, fn, debug)...)
 		}
@@ -659,8 +667,8 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 	}
 
 	// SPECIAL CASE: Allow anything into the unsafe function
-	if s := n.left.sym; s != nil && s.IsGlobal && s.Name == "unsafe" {
-		unsafe := s.Type.AsFunction()
+	if isUnsafe {
+		unsafe := n.left.sym.Type.AsFunction()
 		if len(n.stmts) != 3 {
 			return append(errs, semanticError2(errInvalidNumberArgsMsg, n.left.token, len(n.stmts), len(unsafe.Params)))
 		}
-- 
2.43.0


From 16cbb6d0415c4b12b9b1a1fa5215ded8432c88f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:42 +0000
Subject: [PATCH 34/39] fix: report unexpected characters at their own position

---
 lex/lex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lex/lex.go b/lex/lex.go
index 4dc39f9..ad66a72 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -414,6 +414,7 @@ func lexText(l *Lexer) stateFn {
 			l.emit(EOF)
 			return nil
 		default:
+			l.pos -= l.width // Error is at this character, not after it
 			return l.errorf("Unexpected character %[1]q (%[1]U)", r)
 		}
 	}
-- 
2.43.0


From 4e9f91ed7507f456d5d653b4a0b59c1fcc952d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:19 +0000
Subject: [PATCH 35/39] fix: report a type with the name of a struct
 constructor instead of crashing

---
 semantic.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/semantic.go b/semantic.go
index a46a9ec..ef8f4d3 100644
--- a/semantic.go
+++ b/semantic.go
@@ -646,14 +646,13 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 
 	// Ensure there are no other function definitions with this name
 	if _, found := root.symtab.Resolve(constructorName); found {
-		var n *Node
 		for _, x := range root.stmts {
 			if x.isFuncDcl() && x.token.Val == constructorName {
-				n = x
-				break
+				return nil, semanticError(errConstructorOverrideMsg, x.token)
 			}
 		}
-		return nil, semanticError(errConstructorOverrideMsg, n.token)
+		// Name is used by another type
+		return nil, semanticError(errRedeclaredMsg, lex.WithVal(n.token, constructorName))
 	}
 
 	// Create function
-- 
2.43.0


From 4dea98d7344221923b26512f304580cc99d8e919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:27 +0000
Subject: [PATCH 36/39] fix: constructor name of structs which start with a
 non-ASCII letter

---
 semantic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/semantic.go b/semantic.go
index ef8f4d3..3f9801c 100644
--- a/semantic.go
+++ b/semantic.go
@@ -6,6 +6,7 @@ import (
 	"github.com/g-dx/clarac/lex"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 //
@@ -629,7 +630,8 @@ func generateStructConstructors(errs *[]error, root *Node, n *Node) {
 func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 
 	name := n.token.Val
-	firstLetter := name[:1]
+	_, width := utf8.DecodeRuneInString(name) // Names are not limited to ASCII
+	firstLetter := name[:width]
 
 	// Check struct begins with lowercase
 	if strings.ToUpper(firstLetter) == firstLetter {
@@ -642,7 +644,7 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 	}
 
 	// Create name
-	constructorName := strings.ToUpper(firstLetter) + name[1:]
+	constructorName := strings.ToUpper(firstLetter) + name[width:]
 
 	// Ensure there are no other function definitions with this name
 	if _, found := root.symtab.Resolve(constructorName); found {
-- 
2.43.0


From d835018b94fa6a93ffad0861441d7372e05d6486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:05 +0000
Subject: [PATCH 37/39] fix: do not use function literals whose types could not
 be instantiated

---
 typecheck.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typecheck.go b/typecheck.go
index 91660f9..7ffce46 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -211,7 +211,11 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 				goto end
 			}
 			n.typ = n.sym.Type
-			errs = append(errs, instantiateFunctionTypes(n)...)
+			if typeErrs := instantiateFunctionTypes(n); len(typeErrs) > 0 {
+				n.typ = nil // Types of parameters or return are not known
+				errs = append(errs, typeErrs...)
+				goto end
+			}
 		}
 
 		// Type check stmts
-- 
2.43.0


From 1afbc06f33d0822033d4491cd386ba07ed7e630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:05 +0000
Subject: [PATCH 38/39] fix: a.b(c)(d) calls the result of a.b(c)

---
 parse.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 5717be1..a94b7b1 100644
--- a/parse.go
+++ b/parse.go
@@ -282,7 +282,17 @@ func parseBinaryOperator(p *Parser, left *Node, token *lex.Token) *Node {
 	if token.Kind.Associativity() == lex.Right {
 		precedence -= 1 //
 	}
-	return &Node{op: infixKindToOp[token.Kind], token: token, left: left, right: p.parseExpr(precedence)}
+	right := p.parseExpr(precedence)
+	if token.Kind == lex.Dot && right.op == opFuncCall && right.left.op == opFuncCall {
+		// Calls bind tighter than selection but only the first belongs to it: a.b(c)(d) is (a.b(c))(d)
+		call := right
+		for call.left.left.op == opFuncCall {
+			call = call.left
+		}
+		call.left = &Node{op: opDot, token: token, left: left, right: call.left}
+		return right
+	}
+	return &Node{op: infixKindToOp[token.Kind], token: token, left: left, right: right}
 }
 
 func parseTernaryOperator(p *Parser, left *Node, token *lex.Token) *Node {
-- 
2.43.0


From b11d73f38d8d9038eb54f15cdaa49c20e7c6c1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:17 +0000
Subject: [PATCH 39/39] fix: reject functions named like an enum case declared
 before them

---
 semantic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index 3f9801c..c3d5735 100644
--- a/semantic.go
+++ b/semantic.go
@@ -352,7 +352,8 @@ func processFnType(n *Node, symName string, symtab *SymTab, child *SymTab, types
 	}
 	sym := &Symbol{Name: symName, IsGlobal: true, Type: &Type{Kind: Function, Data: fnType}}
 	if s, found := symtab.Define(sym); found {
-		if !allowOverload {
+		// Enum constructors can not be overloaded, whichever is declared first
+		if !allowOverload || (s.Type.Is(Function) && s.Type.AsFunction().Is(EnumCons)) {
 			return nil, semanticError(errRedeclaredMsg, n.token)
 		}
 		for ; s.Next != nil; s = s.Next { /* ... */
-- 
2.43.0

