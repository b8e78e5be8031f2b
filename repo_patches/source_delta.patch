From 959e61fbc2f830ba2332b1d4dbb4f4b3f8128d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 01/36] fix: statements after a return no longer run before it
 or replace it

---
 parser_stmt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 77d5221..3ff6905 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -173,6 +173,11 @@ func parseReturn(l *Lexer, c *Compiler) error {
 		c.builder.NewRet(constant.NewInt(c.WordType(), 0))
 	}
 
+	// Code after the return belongs to a new block: it must neither run before
+	// the return nor replace it.
+	deadBlock := c.NewBlock(fmt.Sprintf("unreachable.%d", c.labelID))
+	c.labelID++
+	c.SetInsertPoint(deadBlock)
 	return nil
 }
 
-- 
2.43.0


From 0b21b154a66fd5a8d5db8a6606f4d84d03ef0014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 02/36] fix: keep the character that follows 'else', and do not
 take else_x for 'else'

---
 parser_stmt.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index 3ff6905..dd13c0f 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -405,12 +405,15 @@ func parseIf(l *Lexer, c *Compiler) error {
 	}
 
 	if isElse {
-		// Check that next char is not alphanumeric
+		// Check that next char cannot continue an identifier
 		ch, err := l.ReadChar()
 		if err == nil {
-			readChars = append(readChars, ch)
-			if unicode.IsLetter(ch) || unicode.IsDigit(ch) {
+			if unicode.IsLetter(ch) || unicode.IsDigit(ch) || ch == '_' {
+				readChars = append(readChars, ch)
 				isElse = false
+			} else {
+				// It belongs to the statement after 'else'
+				l.UnreadChar(ch)
 			}
 		}
 	}
-- 
2.43.0


From 655ae6114d8adc66b8766cac508de1cb56c0d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 03/36] fix: accept white space inside f( ) and before ( [ ; in
 declarations

---
 expressions.go  | 3 +++
 parser_decls.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/expressions.go b/expressions.go
index 7767134..501ebd0 100644
--- a/expressions.go
+++ b/expressions.go
@@ -689,6 +689,9 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 			var args []value.Value
 			for {
+				if err := l.Whitespace(); err != nil {
+					return nil, false, err
+				}
 				ch, err := l.ReadChar()
 				if err != nil {
 					return nil, false, err
diff --git a/parser_decls.go b/parser_decls.go
index 4d9a9b3..89d5704 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -20,6 +20,9 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 			break
 		}
 
+		if err := l.Whitespace(); err != nil {
+			return err
+		}
 		ch, err := l.ReadChar()
 		if err != nil {
 			if err == io.EOF {
@@ -245,6 +248,9 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 
 // parseFunction parses a function definition
 func parseFunction(l *Lexer, c *Compiler, name string) error {
+	if err := l.Whitespace(); err != nil {
+		return err
+	}
 	ch, err := l.ReadChar()
 	if err != nil {
 		return err
-- 
2.43.0


From a079d35767b151fcf707ed6a362c3d2df7882ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 04/36] fix: keep the bytes of string literals as written
 instead of re-encoding them

---
 lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index 47b4940..c854b4c 100644
--- a/lexer.go
+++ b/lexer.go
@@ -245,7 +245,7 @@ func (l *Lexer) Character() (int64, error) {
 
 // String parses a string literal
 func (l *Lexer) String() (string, error) {
-	var result []rune
+	var result []byte // one element per source byte
 
 	for {
 		c, err := l.ReadChar()
@@ -267,7 +267,7 @@ func (l *Lexer) String() (string, error) {
 			}
 		}
 
-		result = append(result, c)
+		result = append(result, byte(c))
 	}
 }
 
-- 
2.43.0


From ba6933dc157d3872c4cdb86e62fd08256c8df052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 05/36] fix: names that start with an underscore can be used
 where they can be declared

---
 expressions.go  | 2 +-
 parser_decls.go | 2 +-
 parser_stmt.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/expressions.go b/expressions.go
index 501ebd0..825ab0b 100644
--- a/expressions.go
+++ b/expressions.go
@@ -873,7 +873,7 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 		}
 		return constant.NewInt(c.WordType(), val), false, nil
 
-	case unicode.IsLetter(ch):
+	case unicode.IsLetter(ch) || ch == '_':
 		// Identifier
 		l.UnreadChar(ch)
 		name, err := l.Identifier()
diff --git a/parser_decls.go b/parser_decls.go
index 89d5704..754d9f2 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -204,7 +204,7 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 		return nil, err
 	}
 
-	if unicode.IsLetter(ch) {
+	if unicode.IsLetter(ch) || ch == '_' {
 		l.UnreadChar(ch)
 		name, err := l.Identifier()
 		if err != nil || name == "" {
diff --git a/parser_stmt.go b/parser_stmt.go
index dd13c0f..41a1ed2 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -50,7 +50,7 @@ func parseStatementWithSwitch(l *Lexer, c *Compiler, switchID int64, cases *[]in
 		// Null statement
 
 	default:
-		if unicode.IsLetter(ch) {
+		if unicode.IsLetter(ch) || ch == '_' {
 			l.UnreadChar(ch)
 			return parseKeywordOrExpressionWithSwitch(l, c, switchID, cases)
 		} else {
-- 
2.43.0


From 891defe2c6c724edbd84ce6210908aa0ceeb0f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 06/36] fix: do not join two names that white space separates
 at the start of a statement

---
 parser_stmt.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 41a1ed2..b3e95ed 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -123,6 +123,7 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 
 		// Otherwise it's an expression
 		l.UnreadChar(ch)
+		l.UnreadChar(' ') // white space already skipped still separates tokens
 		for i := len(name) - 1; i >= 0; i-- {
 			l.UnreadChar(rune(name[i]))
 		}
-- 
2.43.0


From fe30e2fcc80298b17f5fdd976e92672e46771537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 07/36] fix: diagnose goto to an undefined label, and a label
 defined twice

---
 irbuilder.go    | 5 +++++
 parser_decls.go | 5 +++++
 parser_stmt.go  | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index 07842fc..b183f8d 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -23,6 +23,9 @@ type Compiler struct {
 	stringID  int                    // unique id for string constants
 	labelID   int                    // counter for labels
 	labels    map[string]*ir.Block   // named labels for goto
+	// Labels defined in the current function, and labels named by its goto statements
+	definedLabels map[string]bool
+	usedLabels    []string
 	// Store original parameter names for variadic functions
 	functionParams map[string][]string // function name -> original parameter names
 	// Cache for function types to avoid duplicate declarations
@@ -315,6 +318,8 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 	c.currentFn = fn
 	c.locals = make(map[string]value.Value)
 	c.labels = make(map[string]*ir.Block)
+	c.definedLabels = make(map[string]bool)
+	c.usedLabels = nil
 	c.builder = fn.NewBlock("entry")
 
 	// Get the function name to look up original parameters
diff --git a/parser_decls.go b/parser_decls.go
index 754d9f2..17e108f 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -272,6 +272,11 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 		return err
 	}
 
+	for _, label := range c.usedLabels {
+		if !c.definedLabels[label] {
+			return fmt.Errorf("undefined label '%s'", label)
+		}
+	}
 	c.EndFunction()
 	return nil
 }
diff --git a/parser_stmt.go b/parser_stmt.go
index b3e95ed..0593619 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -107,6 +107,10 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		}
 		if ch == ':' {
 			// Label - get or create labeled block
+			if c.definedLabels[name] {
+				return fmt.Errorf("label '%s' already defined in this function", name)
+			}
+			c.definedLabels[name] = true
 			block := c.GetOrCreateLabel(name)
 
 			// Only create a branch if the current block has no terminator
@@ -494,6 +498,7 @@ func parseGoto(l *Lexer, c *Compiler) error {
 	}
 
 	// Get or create the target label block
+	c.usedLabels = append(c.usedLabels, label)
 	targetBlock := c.GetOrCreateLabel(label)
 
 	// Branch to the label
-- 
2.43.0


From faafa2c66b055fc7bb5a06256ee2518c236ace9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 08/36] fix: labels and parameters cannot collide with each
 other or with the entry block

---
 irbuilder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index b183f8d..8ef0af1 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -237,7 +237,8 @@ func (c *Compiler) DeclareFunction(name string, paramNames []string) *ir.Func {
 		fn = c.module.NewFunc(c.globalName(name), c.WordType())
 	} else {
 		// One or more parameters: variadic with first parameter as fixed
-		firstParam := ir.NewParam(paramNames[0], c.WordType())
+		// (the prefix keeps a parameter named "entry" apart from the entry block)
+		firstParam := ir.NewParam("param."+paramNames[0], c.WordType())
 		fn = c.module.NewFunc(c.globalName(name), c.WordType(), firstParam)
 		fn.Sig.Variadic = true
 	}
@@ -524,7 +525,8 @@ func (c *Compiler) GetOrCreateLabel(name string) *ir.Block {
 	if block, ok := c.labels[name]; ok {
 		return block
 	}
-	block := c.currentFn.NewBlock(name)
+	// The prefix keeps labels apart from parameters and from the entry block
+	block := c.currentFn.NewBlock("label." + name)
 	c.labels[name] = block
 	return block
 }
-- 
2.43.0


From c095b7c813457418585ba1f9b0903449b35c77e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 09/36] fix: diagnose a case value used twice in one switch

---
 parser_stmt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 0593619..79eb2ff 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -612,6 +612,12 @@ func parseCase(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
 		return err
 	}
 
+	for _, other := range *cases {
+		if other == value {
+			return fmt.Errorf("duplicate case %d in 'switch' statement", value)
+		}
+	}
+
 	// Add to case list
 	*cases = append(*cases, value)
 
-- 
2.43.0


From 0e3495098d2b5086e0162990ae2cb64b3c0a500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 10/36] fix: reserve the storage of autos once per activation,
 in the entry block

---
 irbuilder.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 8ef0af1..94fc3ec 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -23,6 +23,7 @@ type Compiler struct {
 	stringID  int                    // unique id for string constants
 	labelID   int                    // counter for labels
 	labels    map[string]*ir.Block   // named labels for goto
+	autoPos   int                    // where in the entry block storage for the next auto goes
 	// Labels defined in the current function, and labels named by its goto statements
 	definedLabels map[string]bool
 	usedLabels    []string
@@ -338,6 +339,9 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 		paramNames = []string{}
 	}
 
+	// Storage for autos is reserved in the entry block, after the parameters
+	defer func() { c.autoPos = len(c.builder.Insts) }()
+
 	// Handle parameter allocation based on B language semantics
 	if len(paramNames) == 0 {
 		// No parameters: nothing to do
@@ -404,9 +408,19 @@ func (c *Compiler) EndFunction() {
 	c.labels = make(map[string]*ir.Block)
 }
 
+// insertAtEntry places instructions in the entry block, so that they are executed
+// once per activation and dominate every use of the storage they set up.
+func (c *Compiler) insertAtEntry(insts ...ir.Instruction) {
+	entry := c.currentFn.Blocks[0]
+	rest := append(insts, entry.Insts[c.autoPos:]...)
+	entry.Insts = append(entry.Insts[:c.autoPos:c.autoPos], rest...)
+	c.autoPos += len(insts)
+}
+
 // DeclareLocal allocates a local variable and initializes it to 0
 func (c *Compiler) DeclareLocal(name string) value.Value {
-	alloca := c.builder.NewAlloca(c.WordType())
+	alloca := ir.NewAlloca(c.WordType())
+	c.insertAtEntry(alloca, ir.NewStore(constant.NewInt(c.WordType(), 0), alloca))
 	// Initialize local variables to 0 (B language semantics)
 	c.builder.NewStore(constant.NewInt(c.WordType(), 0), alloca)
 	c.locals[name] = alloca
@@ -426,19 +440,20 @@ func (c *Compiler) DeclareLocalArray(name string, size int64) value.Value {
 	}
 	arraySize := size + 1 // +1 for pointer storage in first element
 	arrayType := types.NewArray(uint64(arraySize), c.WordType())
-	alloca := c.builder.NewAlloca(arrayType)
+	alloca := ir.NewAlloca(arrayType)
 
 	// Get pointer to first data element (skip the pointer storage slot)
 	// This is element [0][1] in the array
-	firstElemPtr := c.builder.NewGetElementPtr(arrayType, alloca,
+	firstElemPtr := ir.NewGetElementPtr(arrayType, alloca,
 		constant.NewInt(types.I32, 0),
 		constant.NewInt(types.I32, 1))
 
 	// Convert to i64 and store in the first slot [0][0]
-	ptrAsInt := c.builder.NewPtrToInt(firstElemPtr, c.WordType())
-	firstSlotPtr := c.builder.NewGetElementPtr(arrayType, alloca,
+	ptrAsInt := ir.NewPtrToInt(firstElemPtr, c.WordType())
+	firstSlotPtr := ir.NewGetElementPtr(arrayType, alloca,
 		constant.NewInt(types.I32, 0),
 		constant.NewInt(types.I32, 0))
+	c.insertAtEntry(alloca, firstElemPtr, ptrAsInt, firstSlotPtr, ir.NewStore(ptrAsInt, firstSlotPtr))
 	c.builder.NewStore(ptrAsInt, firstSlotPtr)
 
 	// Store the array base address (to first slot which now contains the data pointer)
-- 
2.43.0


From 5c69a5b2bfa90cd6d3d07df45fd4be8e389ac95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 11/36] fix: a call without arguments to a function with
 parameters produced invalid code

---
 expressions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expressions.go b/expressions.go
index 825ab0b..0945157 100644
--- a/expressions.go
+++ b/expressions.go
@@ -738,6 +738,12 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 					// Bitcast the direct function symbol to the new pointer-to-function type
 					casted := c.builder.NewBitCast(fnDirect, fnPtrType)
 					result = c.builder.NewCall(casted, args...)
+				} else if len(args) < len(fnDirect.Params) {
+					// Arguments may be omitted: call through a type without fixed arguments
+					fnType := types.NewFunc(c.WordType())
+					fnType.Variadic = true
+					casted := c.builder.NewBitCast(fnDirect, types.NewPointer(fnType))
+					result = c.builder.NewCall(casted, args...)
 				} else {
 					result = c.builder.NewCall(fnDirect, args...)
 				}
-- 
2.43.0


From 4fa22a9ae68ab7b07d709d699f33f605ce67d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 12/36] fix: an external variable declared with extrn can be
 defined in another file

---
 parser_stmt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 79eb2ff..d93dd02 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -322,6 +322,8 @@ func parseExtrn(l *Lexer, c *Compiler) error {
 			g = existing
 		} else if c.findFuncByName(name) == nil && !c.usedAsFunction[name] {
 			g = c.module.NewGlobalDef(c.globalName(name), constant.NewInt(c.WordType(), 0))
+			// The definition may be in another file: give way to it when linking
+			g.Linkage = enum.LinkageCommon
 		} else {
 			return fmt.Errorf("function redeclared as variable")
 		}
-- 
2.43.0


From 276c11839a685fafbf09357d3a1a03931f8d1fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 13/36] fix: reject one name used both as function and as
 variable instead of emitting invalid code

---
 irbuilder.go    | 5 +++++
 parser_decls.go | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index 94fc3ec..76f77a9 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -268,6 +268,11 @@ func (c *Compiler) GetOrDeclareFunction(name string) *ir.Func {
 		return nil
 	}
 
+	// A variable of the module cannot be called without extrn, or used as a function's address
+	if c.findGlobalByName(name) != nil {
+		return nil
+	}
+
 	// Enforce no-context: remove any prior transient function of the same name from the module
 	c.removeFuncByName(name)
 
diff --git a/parser_decls.go b/parser_decls.go
index 17e108f..c5d98c9 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -31,6 +31,14 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 			return err
 		}
 
+		// One name cannot be both a function and a variable
+		if ch == '(' && c.findGlobalByName(name) != nil {
+			return fmt.Errorf("variable '%s' redeclared as function", name)
+		}
+		if ch != '(' && c.findFuncByName(name) != nil {
+			return fmt.Errorf("function '%s' redeclared as variable", name)
+		}
+
 		switch ch {
 		case '(':
 			if err := parseFunction(l, c, name); err != nil {
-- 
2.43.0


From d10119cd3226f1fa6d2858ae7966d20be3868dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 14/36] fix: a vector with more initial values than its size
 keeps all of them

---
 parser_decls.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_decls.go b/parser_decls.go
index c5d98c9..e2ef0f8 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -197,7 +197,8 @@ func parseVector(l *Lexer, c *Compiler, name string) error {
 		}
 	}
 
-	if nwords == 0 {
+	// The vector has room for all its initial values
+	if nwords >= 0 && nwords < int64(len(initVals)) {
 		nwords = int64(len(initVals))
 	}
 
-- 
2.43.0


From 3f2f2b21eb88c8ea524826020fd2710068820d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 15/36] fix: printf %d printed two minus signs for the most
 negative word

---
 runtime/printf.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/runtime/printf.c b/runtime/printf.c
index 1114417..6ad5abd 100644
--- a/runtime/printf.c
+++ b/runtime/printf.c
@@ -22,11 +22,7 @@ loop:
     switch (c = b_char(fmt, i++)) {
     case 'd': // decimal
         x = va_arg(ap, word_t);
-        if (x < 0) {
-            x = -x;
-            b_write('-');
-        }
-        b_printd(x);
+        b_printd(x); // takes care of the sign
         goto loop;
 
     case 'o': // octal
-- 
2.43.0


From 60228cafda9e41878204115b0c0bf09b94765c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 16/36] fix: char() sign-extended bytes above 127, so printf
 wrote seven extra bytes for each

---
 runtime/char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/char.c b/runtime/char.c
index c5ae23a..5b34695 100644
--- a/runtime/char.c
+++ b/runtime/char.c
@@ -10,5 +10,5 @@ word_t b_char(word_t string, /*word_t i,*/ ...)
     word_t i = va_arg(ap, word_t);
     va_end(ap);
 
-    return ((char *)string)[i];
+    return ((unsigned char *)string)[i];
 }
-- 
2.43.0


From 3c106d2d1c0dae48574452a080c9b7298438f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 17/36] fix: align the stack at program entry as the ABI
 requires

---
 runtime/start.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/start.c b/runtime/start.c
index 6a33fc1..18ec481 100644
--- a/runtime/start.c
+++ b/runtime/start.c
@@ -5,6 +5,10 @@
 // Entry point of any B program.
 //
 void b_start(void) __asm__("_start"); // assure, that _start is really named _start in asm
+#ifdef __x86_64__
+// Entered by a jump and not by a call: without this main would get a misaligned stack.
+__attribute__((force_align_arg_pointer))
+#endif
 
 void b_start()
 {
-- 
2.43.0


From 7c7064530915c28887d68bb6bb309c83788fd032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 18/36] fix: shifts bind tighter than comparisons also in the
 right operand of a comparison

---
 expressions.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index 0945157..e74ca36 100644
--- a/expressions.go
+++ b/expressions.go
@@ -353,7 +353,16 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 		}
 
 		// Comparison operators (level 6)
-		if level >= 6 && (ch == '<' || ch == '>') && !handled {
+		isShift := false
+		if level == 5 && (ch == '<' || ch == '>') && !handled {
+			// Operand of a comparison: only a shift may continue it
+			ch2, err2 := l.ReadChar()
+			if err2 == nil {
+				isShift = ch2 == ch
+				l.UnreadChar(ch2)
+			}
+		}
+		if (level >= 6 || isShift) && (ch == '<' || ch == '>') && !handled {
 			if isLvalue {
 				left = c.builder.NewLoad(c.WordType(), left)
 				isLvalue = false
-- 
2.43.0


From 892315d6ba25d01f83467055d99a08ea0888b5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 19/36] fix: a read error in the middle of a source file is not
 lost

---
 lexer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lexer.go b/lexer.go
index c854b4c..b77a84c 100644
--- a/lexer.go
+++ b/lexer.go
@@ -11,6 +11,7 @@ type Lexer struct {
 	args   *CompileOptions
 	reader io.RuneReader
 	buffer []rune // pushback buffer for unread characters
+	err    error  // first read error other than end of file
 }
 
 // NewLexer creates a new lexer
@@ -48,7 +49,14 @@ func (l *Lexer) ReadChar() (rune, error) {
 		return c, nil
 	}
 
+	// A failed read must not be taken for the end of a token: fail from now on
+	if l.err != nil {
+		return 0, l.err
+	}
 	c, _, err := l.reader.ReadRune()
+	if err != nil && err != io.EOF {
+		l.err = err
+	}
 	return c, err
 }
 
-- 
2.43.0


From 4a2a5bb2f9f53f6597177c2d058805b6afa70f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 20/36] fix: remove the partial output file when writing it
 fails

---
 driver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/driver.go b/driver.go
index 4bbe2d0..8e6b92e 100644
--- a/driver.go
+++ b/driver.go
@@ -56,11 +56,19 @@ func compileToIR(args *CompileOptions) error {
 			Eprintf(args.Arg0, "cannot open file '%s' %s.", outputPath, err)
 			return err
 		}
+		// Leave no partial output behind, but never delete a device
+		discard := func() {
+			if fi, err := os.Lstat(outputPath); err == nil && fi.Mode().IsRegular() {
+				os.Remove(outputPath)
+			}
+		}
 		if _, err := outFile.WriteString(compiler.GetModule().String()); err != nil {
 			outFile.Close()
+			discard()
 			return err
 		}
 		if err := outFile.Close(); err != nil {
+			discard()
 			return err
 		}
 		if args.Verbose {
-- 
2.43.0


From 1ae9b2d1458474ef66f02fd8fae49b767a867d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 21/36] fix: a parameter or auto can be called through; it was
 taken for an external function

---
 expressions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expressions.go b/expressions.go
index e74ca36..58cf66b 100644
--- a/expressions.go
+++ b/expressions.go
@@ -908,6 +908,11 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 		// If it's a call, handle both direct and indirect calls
 		if isCall {
+			// A parameter or auto holds the address of the function to call
+			if addr, ok := c.locals[name]; ok {
+				return addr, true, nil
+			}
+
 			// Check for a declared function in module
 			if fn := c.findFuncByName(name); fn != nil {
 				return fn, false, nil
-- 
2.43.0


From 0d4c7c8580d99c987dd622a68ea8d7afcb44f5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 22/36] fix: the address of a known function can be compared
 with ==

---
 expressions.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index 58cf66b..9fbf0e0 100644
--- a/expressions.go
+++ b/expressions.go
@@ -945,8 +945,21 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 		}
 		nextCh, err2 := l.ReadChar()
 		if err2 == nil {
+			isCompare := false
+			if nextCh == '=' && c.findFuncByName(name) != nil {
+				// The address of a function may be compared: '==' but not '==='
+				ch2, err3 := l.ReadChar()
+				if err3 == nil {
+					ch3, err4 := l.ReadChar()
+					if err4 == nil {
+						l.UnreadChar(ch3)
+					}
+					l.UnreadChar(ch2)
+					isCompare = ch2 == '=' && err4 == nil && ch3 != '='
+				}
+			}
 			l.UnreadChar(nextCh)
-			if nextCh == '=' {
+			if nextCh == '=' && !isCompare {
 				return nil, false, fmt.Errorf("undefined identifier '%s'", name)
 			}
 		}
-- 
2.43.0


From 8b6a06a44a83c2ccebab24ef56f18ecddaa894c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 23/36] fix: bound vector sizes, and keep long vectors with a
 few initial values compact

---
 irbuilder.go    | 15 +++++++++++++++
 parser_decls.go |  9 ++++++++-
 parser_stmt.go  |  3 +++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/irbuilder.go b/irbuilder.go
index 76f77a9..5aea21b 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -189,6 +189,21 @@ func (c *Compiler) DeclareGlobalArray(name string, size int64, init []constant.C
 		return global
 	}
 
+	// A vector much longer than its initial values: list the values, and keep the rest compact
+	if size-int64(len(init)) > 1024 {
+		headType := types.NewArray(uint64(len(init)), elemType)
+		tailType := types.NewArray(uint64(size-int64(len(init))), elemType)
+		dataType := types.NewStruct(headType, tailType)
+		dataGlobal := c.module.NewGlobalDef(c.globalName(name)+".data",
+			constant.NewStruct(dataType, constant.NewArray(headType, init...), constant.NewZeroInitializer(tailType)))
+		dataPtr := constant.NewGetElementPtr(dataType, dataGlobal, constant.NewInt(types.I64, 0))
+		wrapperType := types.NewArray(1, elemType)
+		global := c.module.NewGlobalDef(c.globalName(name),
+			constant.NewArray(wrapperType, constant.NewPtrToInt(dataPtr, elemType)))
+		c.globals[name] = global
+		return global
+	}
+
 	// Standard approach for small arrays or arrays with initializers
 	arraySize := size + 1 // +1 for the pointer storage
 	arrayType := types.NewArray(uint64(arraySize), elemType)
diff --git a/parser_decls.go b/parser_decls.go
index e2ef0f8..873821e 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -127,6 +127,9 @@ func parseGlobal(l *Lexer, c *Compiler, name string) error {
 	return nil
 }
 
+// maxVectorWords limits the size of vectors: beyond it sizes in bytes overflow
+const maxVectorWords = 1 << 40
+
 // parseVector parses a global array
 func parseVector(l *Lexer, c *Compiler, name string) error {
 	// Remove any existing global with the same name from the module
@@ -197,8 +200,12 @@ func parseVector(l *Lexer, c *Compiler, name string) error {
 		}
 	}
 
+	if nwords < 0 || nwords > maxVectorWords {
+		return fmt.Errorf("size of vector '%s' is out of range", name)
+	}
+
 	// The vector has room for all its initial values
-	if nwords >= 0 && nwords < int64(len(initVals)) {
+	if nwords < int64(len(initVals)) {
 		nwords = int64(len(initVals))
 	}
 
diff --git a/parser_stmt.go b/parser_stmt.go
index d93dd02..7f4344d 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -260,6 +260,9 @@ func parseAuto(l *Lexer, c *Compiler) error {
 				}
 			}
 
+			if size < 0 || size > maxVectorWords {
+				return fmt.Errorf("size of vector '%s' is out of range", name)
+			}
 			decls = append(decls, autoDecl{name: name, size: size})
 
 			if err := l.Whitespace(); err != nil {
-- 
2.43.0


From 4403167fbfc8eae47d2fabbf37fab46ebf6a736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 24/36] fix: redefining a long vector left its old data behind
 and produced invalid code

---
 parser_decls.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser_decls.go b/parser_decls.go
index 873821e..e39a5bc 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -78,6 +78,7 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 func parseGlobal(l *Lexer, c *Compiler, name string) error {
 	// Remove any existing global with the same name from the module
 	c.removeGlobalByName(name)
+	c.removeGlobalByName(name + ".data")
 
 	ch, err := l.ReadChar()
 	if err != nil {
@@ -134,6 +135,7 @@ const maxVectorWords = 1 << 40
 func parseVector(l *Lexer, c *Compiler, name string) error {
 	// Remove any existing global with the same name from the module
 	c.removeGlobalByName(name)
+	c.removeGlobalByName(name + ".data")
 
 	var nwords int64 = 0
 
-- 
2.43.0


From 39c085804fe07398d859563e3aab2ee32c2b6e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 25/36] fix: deeply nested input is diagnosed instead of
 overflowing the stack

---
 expressions.go |  9 +++++++++
 irbuilder.go   | 17 +++++++++++++++++
 parser_stmt.go |  4 ++++
 3 files changed, 30 insertions(+)

diff --git a/expressions.go b/expressions.go
index 9fbf0e0..e554d10 100644
--- a/expressions.go
+++ b/expressions.go
@@ -20,6 +20,11 @@ func parseExpression(l *Lexer, c *Compiler) (value.Value, error) {
 
 // parseExpressionWithLevel parses expressions with precedence level
 func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, error) {
+	defer c.leave()
+	if err := c.enter(); err != nil {
+		return nil, err
+	}
+
 	// Parse left side (term with unary operators)
 	left, isLvalue, err := parseUnary(l, c)
 	if err != nil {
@@ -519,6 +524,10 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 
 // parseUnary parses unary operators and primary expressions
 func parseUnary(l *Lexer, c *Compiler) (value.Value, bool, error) {
+	defer c.leave()
+	if err := c.enter(); err != nil {
+		return nil, false, err
+	}
 	if err := l.Whitespace(); err != nil {
 		return nil, false, err
 	}
diff --git a/irbuilder.go b/irbuilder.go
index 5aea21b..9db13f5 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -23,6 +23,7 @@ type Compiler struct {
 	stringID  int                    // unique id for string constants
 	labelID   int                    // counter for labels
 	labels    map[string]*ir.Block   // named labels for goto
+	depth     int                    // nesting of the statements and expressions being parsed
 	autoPos   int                    // where in the entry block storage for the next auto goes
 	// Labels defined in the current function, and labels named by its goto statements
 	definedLabels map[string]bool
@@ -107,6 +108,22 @@ func (c *Compiler) removeGlobalByName(name string) bool {
 	return false
 }
 
+// maxDepth bounds the nesting of statements and expressions, to protect the parser's stack
+const maxDepth = 20000
+
+// enter is called when parsing goes one level deeper, and leave when it is back
+func (c *Compiler) enter() error {
+	c.depth++
+	if c.depth > maxDepth {
+		return fmt.Errorf("nesting is too deep")
+	}
+	return nil
+}
+
+func (c *Compiler) leave() {
+	c.depth--
+}
+
 // GetModule returns the LLVM module
 func (c *Compiler) GetModule() *ir.Module {
 	return c.module
diff --git a/parser_stmt.go b/parser_stmt.go
index 7f4344d..14e9ccc 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -17,6 +17,10 @@ func parseStatement(l *Lexer, c *Compiler) error {
 }
 
 func parseStatementWithSwitch(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
+	defer c.leave()
+	if err := c.enter(); err != nil {
+		return err
+	}
 	if err := l.Whitespace(); err != nil {
 		return err
 	}
-- 
2.43.0


From a0f0a55c8d61fae97dd12afd8adb8ff018206d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 26/36] fix: refuse to overwrite an input file with an output
 or intermediate file

---
 driver.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/driver.go b/driver.go
index 8e6b92e..020b3d0 100644
--- a/driver.go
+++ b/driver.go
@@ -9,6 +9,20 @@ import (
 	"strings"
 )
 
+// checkNotInput refuses to write over one of the input files
+func checkNotInput(args *CompileOptions, path string) error {
+	out, err := os.Stat(path)
+	if err != nil {
+		return nil // nothing there to overwrite
+	}
+	for _, in := range args.InputFiles {
+		if fi, err := os.Stat(in); err == nil && os.SameFile(fi, out) {
+			return fmt.Errorf("input file '%s' would be overwritten by output '%s'", in, path)
+		}
+	}
+	return nil
+}
+
 // Compile processes the input files and generates the requested output format
 func Compile(args *CompileOptions) error {
 	if args.Verbose {
@@ -51,6 +65,9 @@ func compileToIR(args *CompileOptions) error {
 			return err
 		}
 
+		if err := checkNotInput(args, outputPath); err != nil {
+			return err
+		}
 		outFile, err := os.Create(outputPath)
 		if err != nil {
 			Eprintf(args.Arg0, "cannot open file '%s' %s.", outputPath, err)
@@ -128,9 +145,15 @@ func compileToAssembly(args *CompileOptions) error {
 
 	// Process a single input into the specified output path
 	processOne := func(in, out string) error {
+		if err := checkNotInput(args, out); err != nil {
+			return err
+		}
 		if strings.HasSuffix(in, ".b") {
 			// Compile .b to temporary IR first
 			tempIR := out + ".tmp.ll"
+			if err := checkNotInput(args, tempIR); err != nil {
+				return err
+			}
 
 			irArgs := *args
 			irArgs.InputFiles = []string{in}
@@ -222,9 +245,15 @@ func compileToObject(args *CompileOptions) error {
 
 	// Process a single input into the specified output object path
 	processOne := func(in, out string) error {
+		if err := checkNotInput(args, out); err != nil {
+			return err
+		}
 		if strings.HasSuffix(in, ".b") {
 			// Compile .b to temporary IR first
 			tempIR := out + ".tmp.ll"
+			if err := checkNotInput(args, tempIR); err != nil {
+				return err
+			}
 
 			irArgs := *args
 			irArgs.InputFiles = []string{in}
@@ -299,6 +328,10 @@ func compileToExecutable(args *CompileOptions) error {
 		args.OutputFile = strings.TrimSuffix(base, filepath.Ext(base))
 	}
 
+	if err := checkNotInput(args, args.OutputFile); err != nil {
+		return err
+	}
+
 	// Prepare temporary IR files (for .b inputs) and collect inputs for clang
 	temps := []string{}
 	clangInputs := []string{}
@@ -322,7 +355,11 @@ func compileToExecutable(args *CompileOptions) error {
 			irArgs.OutputType = OutputIR
 			irArgs.OutputFile = tmp
 
-			if err := compileToIR(&irArgs); err != nil {
+			err := checkNotInput(args, tmp)
+			if err == nil {
+				err = compileToIR(&irArgs)
+			}
+			if err != nil {
 				if !args.SaveTemps {
 					for _, t := range temps {
 						os.Remove(t)
-- 
2.43.0


From 2ca1366bc646f0ea65c5b4f148fd3eaf832d3c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 27/36] fix: a comment may directly follow the '=' of an
 assignment

---
 expressions.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index e554d10..8cd19f4 100644
--- a/expressions.go
+++ b/expressions.go
@@ -195,7 +195,18 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 			if err2 == nil {
 				// Check if it's a compound assignment
 				switch ch2 {
-				case '+', '-', '*', '/', '%', '&', '|':
+				case '/':
+					// A comment may follow the '='
+					ch3, err3 := l.ReadChar()
+					if err3 == nil {
+						l.UnreadChar(ch3)
+					}
+					if err3 == nil && ch3 == '*' {
+						l.UnreadChar(ch2)
+					} else {
+						compoundOp = ch2
+					}
+				case '+', '-', '*', '%', '&', '|':
 					compoundOp = ch2
 				case '<', '>':
 					// Could be =<, =>, =<=, =>>, =>=
-- 
2.43.0


From 7d4530bed84710334567b4d0f498c1d4b43ddab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 28/36] fix: an invalid command line option exits with a
 failure status

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 06b3dd1..35bd671 100644
--- a/main.go
+++ b/main.go
@@ -33,7 +33,6 @@ func usage() {
 	fmt.Fprintf(os.Stderr, "  %s  %s\n", cmd.Sprint("blang hello.b -o output -O2"), note.Sprint("  Options can be placed after arguments"))
 	fmt.Fprintf(os.Stderr, "  %s  %s\n", cmd.Sprint("blang -V"), note.Sprint("                     Show version information"))
 	fmt.Fprintf(os.Stderr, "\n")
-	os.Exit(0)
 }
 
 func main() {
@@ -83,6 +82,7 @@ func main() {
 
 	if showHelp {
 		usage()
+		os.Exit(0)
 	}
 
 	if showVersion {
-- 
2.43.0


From 01571e0e7eac3b517e14f0e84d3db375f816ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:48 +0000
Subject: [PATCH 29/36] fix: an initial value left out of a list is rejected

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index b77a84c..10b9830 100644
--- a/lexer.go
+++ b/lexer.go
@@ -170,6 +170,10 @@ func (l *Lexer) Number() (int64, error) {
 		return 0, err
 	}
 
+	if !unicode.IsDigit(c) {
+		return 0, fmt.Errorf("unexpected character '%c', expect a number", c)
+	}
+
 	base := 10
 	if c == '0' {
 		base = 8
-- 
2.43.0


From fa1124a834882821ccd11fca11c0e036a7b3c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 30/36] fix: a comma after the last argument of a call is
 rejected

---
 expressions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index 8cd19f4..65308fd 100644
--- a/expressions.go
+++ b/expressions.go
@@ -725,7 +725,7 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 				if err != nil {
 					return nil, false, err
 				}
-				if ch == ')' {
+				if ch == ')' && len(args) == 0 {
 					break
 				}
 				l.UnreadChar(ch)
-- 
2.43.0


From 13a47b14e315ec39200eb9c9c356947c539779fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:36 +0000
Subject: [PATCH 31/36] fix: commands linking at the same time do not share
 intermediate files

---
 driver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/driver.go b/driver.go
index 020b3d0..a6868c4 100644
--- a/driver.go
+++ b/driver.go
@@ -346,7 +346,9 @@ func compileToExecutable(args *CompileOptions) error {
 			if len(args.InputFiles) == 1 && args.OutputFile != "" {
 				tmp = args.OutputFile + ".tmp.ll"
 			} else {
-				base := strings.TrimSuffix(filepath.Base(in), ext)
+				// Derived from the output, so that commands running at the
+				// same time never share an intermediate file
+				base := args.OutputFile
 				tmp = fmt.Sprintf("%s.tmp.%d.ll", base, i)
 			}
 
-- 
2.43.0


From b580e23953260a415c59e858e4b2de6fa017900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:36 +0000
Subject: [PATCH 32/36] fix: a comma or quote in a -L or -l argument is part of
 the name

---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 35bd671..99bb92b 100644
--- a/main.go
+++ b/main.go
@@ -70,8 +70,8 @@ func main() {
 	pflag.BoolVarP(&verbose, "verbose", "v", false, "Verbose output")
 
 	// Paths and libraries
-	pflag.StringSliceVarP(&libraryDirs, "library-dir", "L", []string{}, "Add directory to library search path")
-	pflag.StringSliceVarP(&libraries, "library", "l", []string{}, "Link with library")
+	pflag.StringArrayVarP(&libraryDirs, "library-dir", "L", []string{}, "Add directory to library search path")
+	pflag.StringArrayVarP(&libraries, "library", "l", []string{}, "Link with library")
 
 	// Help and version
 	pflag.BoolVarP(&showVersion, "version", "V", false, "Display compiler version information")
-- 
2.43.0


From 75f30783fa8dd5e0a3388288336f0f20719670aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:03 +0000
Subject: [PATCH 33/36] fix: file names that begin with @ or - are not taken
 for arguments by clang

---
 driver.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/driver.go b/driver.go
index a6868c4..348fcb9 100644
--- a/driver.go
+++ b/driver.go
@@ -23,6 +23,15 @@ func checkNotInput(args *CompileOptions, path string) error {
 	return nil
 }
 
+// clangPath spells a file name so that clang takes it for nothing else:
+// it reads @name as a list of arguments and -name as an option
+func clangPath(path string) string {
+	if strings.HasPrefix(path, "@") || strings.HasPrefix(path, "-") {
+		return "./" + path
+	}
+	return path
+}
+
 // Compile processes the input files and generates the requested output format
 func Compile(args *CompileOptions) error {
 	if args.Verbose {
@@ -139,7 +148,7 @@ func compileToAssembly(args *CompileOptions) error {
 		if args.DebugInfo {
 			cmdArgs = append(cmdArgs, "-g")
 		}
-		cmdArgs = append(cmdArgs, "-S", "-o", out, inputIRorLL)
+		cmdArgs = append(cmdArgs, "-S", "-o", clangPath(out), clangPath(inputIRorLL))
 		return cmdArgs
 	}
 
@@ -239,7 +248,7 @@ func compileToObject(args *CompileOptions) error {
 		if args.DebugInfo {
 			cmdArgs = append(cmdArgs, "-g")
 		}
-		cmdArgs = append(cmdArgs, "-c", "-o", out, inputPath)
+		cmdArgs = append(cmdArgs, "-c", "-o", clangPath(out), clangPath(inputPath))
 		return cmdArgs
 	}
 
@@ -370,10 +379,10 @@ func compileToExecutable(args *CompileOptions) error {
 				return err
 			}
 			temps = append(temps, tmp)
-			clangInputs = append(clangInputs, tmp)
+			clangInputs = append(clangInputs, clangPath(tmp))
 
 		case ".ll", ".s", ".o", ".a":
-			clangInputs = append(clangInputs, in)
+			clangInputs = append(clangInputs, clangPath(in))
 
 		default:
 			// main() validated extensions, but keep a guard here
@@ -405,7 +414,7 @@ func compileToExecutable(args *CompileOptions) error {
 	for _, lib := range args.Libraries {
 		cmdArgs = append(cmdArgs, "-l"+lib)
 	}
-	cmdArgs = append(cmdArgs, "-o", args.OutputFile)
+	cmdArgs = append(cmdArgs, "-o", clangPath(args.OutputFile))
 
 	cmd := exec.Command("clang", cmdArgs...)
 	if args.Verbose {
-- 
2.43.0


From 4fe66dbb8de99d819de028461f5de3252b21ab9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:22 +0000
Subject: [PATCH 34/36] fix: compiled loops need no memset() or memcpy()

The optimizer turned loops that fill or copy words into calls of memset()
and memcpy(), which the runtime library does not have: the executable could
not be linked at -O1 and above.
---
 irbuilder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index 9db13f5..611fea4 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -355,6 +355,8 @@ func (c *Compiler) ClearTopLevelContext() {
 // StartFunction starts building a function body
 func (c *Compiler) StartFunction(fn *ir.Func) {
 	c.currentFn = fn
+	// The runtime library has no memset() or memcpy(): the optimizer must not turn loops into their calls
+	fn.FuncAttrs = append(fn.FuncAttrs, ir.AttrString("no-builtins"))
 	c.locals = make(map[string]value.Value)
 	c.labels = make(map[string]*ir.Block)
 	c.definedLabels = make(map[string]bool)
-- 
2.43.0


From 5075c2a8b51c653b73005e28416bb36539ae99fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:43 +0000
Subject: [PATCH 35/36] fix: functions of several parameters on Linux ARM64

LLVM's va_arg instruction does not support va_list of this platform: every
parameter but the first got a wrong value. Fetch the arguments as the
platform's procedure call standard defines.
---
 irbuilder.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/irbuilder.go b/irbuilder.go
index 611fea4..c8aa464 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"runtime"
 
 	"github.com/llir/llvm/ir"
 	"github.com/llir/llvm/ir/constant"
@@ -422,7 +423,7 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 			paramAlloca := c.builder.NewAlloca(c.WordType())
 
 			// Extract the parameter using va_arg instruction
-			vaArgResult := c.builder.NewVAArg(vaListPtr, c.WordType())
+			vaArgResult := c.nextArgument(vaListPtr)
 
 			// Store the extracted value to the parameter
 			c.builder.NewStore(vaArgResult, paramAlloca)
@@ -435,6 +436,41 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 	}
 }
 
+// targetPlatform is the platform the emitted code is made for: the one the compiler runs on.
+var targetPlatform = runtime.GOOS + "/" + runtime.GOARCH
+
+// nextArgument extracts the next argument from va_list
+func (c *Compiler) nextArgument(vaList value.Value) value.Value {
+	if targetPlatform != "linux/arm64" {
+		return c.builder.NewVAArg(vaList, c.WordType())
+	}
+
+	// The va_arg instruction of LLVM does not support va_list of this platform:
+	//      struct { char *stack, *gr_top, *vr_top; int gr_offs, vr_offs; }
+	// While gr_offs is negative, the next argument is at gr_top + gr_offs, then at stack.
+	word := c.WordType()
+	field := func(offset int64, typ types.Type) value.Value {
+		addr := c.builder.NewGetElementPtr(types.I8, vaList, constant.NewInt(types.I64, offset))
+		return c.builder.NewBitCast(addr, types.NewPointer(typ))
+	}
+	stackPtr := field(0, word)
+	offsPtr := field(24, types.I32)
+	stack := c.builder.NewLoad(word, stackPtr)
+	grTop := c.builder.NewLoad(word, field(8, word))
+	offs := c.builder.NewLoad(types.I32, offsPtr)
+	inRegs := c.builder.NewICmp(enum.IPredSLT, offs, constant.NewInt(types.I32, 0))
+
+	saved := c.builder.NewAdd(grTop, c.builder.NewSExt(offs, word))
+	addr := c.builder.NewSelect(inRegs, saved, stack)
+	result := c.builder.NewLoad(word, c.builder.NewIntToPtr(addr, types.NewPointer(word)))
+
+	nextOffs := c.builder.NewAdd(offs, constant.NewInt(types.I32, 8))
+	nextStack := c.builder.NewAdd(stack, constant.NewInt(types.I64, 8))
+	c.builder.NewStore(c.builder.NewSelect(inRegs, nextOffs, offs), offsPtr)
+	c.builder.NewStore(c.builder.NewSelect(inRegs, stack, nextStack), stackPtr)
+	return result
+}
+
 // EndFunction finalizes a function
 func (c *Compiler) EndFunction() {
 	// If the current block doesn't have a terminator, add a default return
-- 
2.43.0


From 0f7f3fc7a675009f7043cbc926c2c08a57cf1cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:21 +0000
Subject: [PATCH 36/36] fix: reject a NUL byte after + or -

The parser took the byte read ahead for none when it was zero, and lost it.
---
 expressions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expressions.go b/expressions.go
index 65308fd..9f43b60 100644
--- a/expressions.go
+++ b/expressions.go
@@ -465,14 +465,14 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 		// Addition/Subtraction (level 4)
 		if level >= 4 && (ch == '+' || ch == '-') && !handled {
 			// Check for ++ or --
-			ch2, _ := l.ReadChar()
-			if ch2 == ch {
+			ch2, err2 := l.ReadChar()
+			if err2 == nil && ch2 == ch {
 				// Postfix increment/decrement
 				l.UnreadChar(ch2)
 				l.UnreadChar(ch)
 				break
 			}
-			if ch2 != 0 {
+			if err2 == nil {
 				l.UnreadChar(ch2)
 			}
 
-- 
2.43.0

