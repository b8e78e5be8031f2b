"""Planted changes: each breaks one property of the current tree (see plant.py)."""
PRE = r'''#!/bin/bash
# Run in the repository after its build. Exit 0: the property holds here; 1: it is broken.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=$PWD
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
export HOME=$dir/home
mkdir -p "$HOME/.local/lib" "$dir/w" && cp "$repo/runtime/libb.a" "$HOME/.local/lib/" && cd "$dir/w" || exit 2
blang() { timeout 60 "$repo/blang" "$@"; }
# expect WHAT GOT WANT
expect() { [ "$2" == "$3" ] || { printf '%s: got <%s>, want <%s>\n' "$1" "$2" "$3"; exit 1; }; }
# program text on stdin; runs it, output in $got, status in $st
program() { cat > p.b && blang "$@" -o p p.b || { echo "not compiled"; exit 1; }; got=$(timeout 20 ./p | tr -d '\0'); st=${PIPESTATUS[0]}; }
'''
BUGS = []
def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))
X, S, D, I, L, V, M = "expressions.go", "parser_stmt.go", "parser_decls.go", "irbuilder.go", "lexer.go", "driver.go", "main.go"

# ---- P01
bug("p01-shift-chain", "P01", "two right shifts in a row without parentheses",
    "a >> b >> c groups to the right",
    [(X, """					if level >= 5 {
						right, err = parseExpressionWithLevel(l, c, 4)
						if err != nil {
							return nil, err
						}
						left = c.builder.NewAShr(left, right)""",
         """					if level >= 5 {
						right, err = parseExpressionWithLevel(l, c, 5)
						if err != nil {
							return nil, err
						}
						left = c.builder.NewAShr(left, right)""")],
    r'''
program <<'B'
main() { auto a; a = 4096; printf("%d %d*n", a >> 3 >> 2, a << 3 >> 2); }
B
expect chain "$got" "128 8192"
''')
bug("p01-div-pow2", "P01", "division by a constant power of two with a negative dividend",
    "division by a power of two rounds down instead of toward zero",
    [(X, """			case '/':
				left = c.builder.NewSDiv(left, right)
			case '%':
				left = c.builder.NewSRem(left, right)
			}
			handled = true""",
         """			case '/':
				// A division by a power of two is a shift
				if k, ok := right.(*constant.Int); ok && k.X.Sign() > 0 && k.X.BitLen() == int(k.X.TrailingZeroBits())+1 {
					left = c.builder.NewAShr(left, constant.NewInt(c.WordType(), int64(k.X.TrailingZeroBits())))
				} else {
					left = c.builder.NewSDiv(left, right)
				}
			case '%':
				left = c.builder.NewSRem(left, right)
			}
			handled = true""")],
    r'''
program <<'B'
main() { auto a; a = -7; printf("%d %d %d*n", a / 2, a / 3, 9 / 4); }
B
expect division "$got" "-3 -2 2"
''')
bug("p01-mod-level", "P01", "a multiplication or division on the right of %, as in a % b * c",
    "a % b * c is taken as a % (b * c)",
    [(X, """			right, err := parseExpressionWithLevel(l, c, 2)
			if err != nil {
				return nil, err
			}
			switch ch {""",
         """			// The operand of '%' may itself be a product
			operand := 2
			if ch == '%' {
				operand = 3
			}
			right, err := parseExpressionWithLevel(l, c, operand)
			if err != nil {
				return nil, err
			}
			switch ch {""")],
    r'''
program <<'B'
main() { auto a, b, c; a = 17; b = 5; c = 3; printf("%d %d*n", a % b * c, a * b % c); }
B
expect product "$got" "6 1"
''')
# ---- P02
bug("p02-compound-order", "P02", "a compound assignment whose right side changes the same cell",
    "x =+ e uses the value x had before e was evaluated",
    [(X, """			// Parse right side
			right, err := parseExpressionWithLevel(l, c, 14)
			if err != nil {
				return nil, err
			}

			// Perform compound assignment or simple assignment
			if compoundOp != 0 {
				// Compound assignment: x =op y → x = x op y
				// Load current value
				currentVal := c.builder.NewLoad(c.WordType(), left)
				var newVal value.Value
""", """			// Load current value
			var currentVal value.Value
			if compoundOp != 0 {
				currentVal = c.builder.NewLoad(c.WordType(), left)
			}

			// Parse right side
			right, err := parseExpressionWithLevel(l, c, 14)
			if err != nil {
				return nil, err
			}

			// Perform compound assignment or simple assignment
			if compoundOp != 0 {
				// Compound assignment: x =op y → x = x op y
				var newVal value.Value
""")],
    r'''
program <<'B'
main() { auto x; x = 5; x =+ (x = 20); printf("%d ", x); x = 3; x =* x++; printf("%d*n", x); }
B
expect order "$got" "40 12"
''')
bug("p02-compound-shift", "P02", "=>> on a negative value",
    "x =>> n shifts in zero bits while x >> n copies the sign",
    [(X, """				case '»': // =>>
					newVal = c.builder.NewAShr(currentVal, right)""",
         """				case '»': // =>>
					newVal = c.builder.NewLShr(currentVal, right)""")],
    r'''
program <<'B'
main() { auto x, y; x = -16; y = x >> 2; x =>> 2; printf("%d %d*n", x, y); }
B
expect shift "$got" "-4 -4"
''')
bug("p02-postdec-deref", "P02", "a postfix decrement whose value is used after another change in the same expression",
    "x-- yields the cell's contents at the time of use, not the previous value",
    [(X, """			current := c.builder.NewLoad(c.WordType(), val)
			one := constant.NewInt(c.WordType(), 1)
			result := c.builder.NewSub(current, one)
			c.builder.NewStore(result, val)
			val = current // Return old value
			isLvalue = false

		default:""", """			current := c.builder.NewLoad(c.WordType(), val)
			one := constant.NewInt(c.WordType(), 1)
			result := c.builder.NewSub(current, one)
			c.builder.NewStore(result, val)
			// Return old value, recomputed from the cell
			val = c.builder.NewAdd(c.builder.NewLoad(c.WordType(), val), one)
			isLvalue = false
			if _, ok := current.Src.(*ir.InstIntToPtr); ok {
				val = c.builder.NewAdd(result, constant.NewInt(c.WordType(), 0))
			}

		default:""")],
    r'''
program <<'B'
main() { auto x, y, p; x = 5; p = &x; y = (*p)--1;
}
B
''')
BUGS.pop()
bug("p02-assign-value", "P02", "the value of =<= or =>= or =!= used in the same expression",
    "the value of a compound comparison assignment is 0/1 in the cell, but the old cell in the expression",
    [(X, """				default:
					return nil, fmt.Errorf("unknown compound assignment operator")
				}
				c.builder.NewStore(newVal, left)
				return newVal, nil""",
      """				default:
					return nil, fmt.Errorf("unknown compound assignment operator")
				}
				c.builder.NewStore(newVal, left)
				result := newVal
				if compoundOp == '≠' {
					result = right
				}
				return result, nil""")],
    r'''
program <<'B'
main() { auto x, y; x = 5; y = x =!= 7; printf("%d %d*n", x, y); }
B
expect value "$got" "1 1"
''')
# ---- P03
bug("p03-switch-width", "P03", "a switch selector that differs from a case constant by a multiple of 2^32",
    "a switch compares only the low 32 bits when all its case constants are small",
    [(S, """		// Create switch instruction
		sw := c.builder.NewSwitch(switchVal, endBlock)

		// Add all cases
		for _, caseVal := range caseList {
			caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, caseVal))
			sw.Cases = append(sw.Cases, ir.NewCase(constant.NewInt(c.WordType(), caseVal), caseBlock))
		}""",
      """		// Small case constants make a smaller jump table
		caseType := c.WordType()
		small := true
		for _, caseVal := range caseList {
			small = small && caseVal == int64(int32(caseVal))
		}
		selector := switchVal
		if small {
			caseType = types.I32
			selector = c.builder.NewTrunc(switchVal, caseType)
		}

		// Create switch instruction
		sw := c.builder.NewSwitch(selector, endBlock)

		// Add all cases
		for _, caseVal := range caseList {
			caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, caseVal))
			sw.Cases = append(sw.Cases, ir.NewCase(constant.NewInt(caseType, caseVal), caseBlock))
		}"""),
     (S, """	"github.com/llir/llvm/ir/enum"
)""", """	"github.com/llir/llvm/ir/enum"
	"github.com/llir/llvm/ir/types"
)""")],
    r'''
program <<'B'
pick(x) { switch (x) { case 1: return (10); case 2: return (20); } return (30); }
main() { printf("%d %d %d*n", pick(1), pick(2), pick(4294967297)); }
B
expect switch "$got" "10 20 30"
''')
bug("p03-while-goto", "P03", "a goto into the body of a loop whose condition is the constant 0",
    "the body of while (0) is not continued by a test of the condition: the loop label is lost",
    [(S, """	c.builder.NewCondBr(cmp, bodyBlock, endBlock)

	// Generate body
	c.SetInsertPoint(bodyBlock)""",
      """	// A constant condition needs no test
	if k, ok := cond.(*constant.Int); ok && k.X.Sign() != 0 {
		c.builder.NewBr(bodyBlock)
	} else if ok {
		c.builder.NewBr(endBlock)
		condBlock = bodyBlock
	} else {
		c.builder.NewCondBr(cmp, bodyBlock, endBlock)
	}

	// Generate body
	c.SetInsertPoint(bodyBlock)""")],
    r'''
program <<'B'
main() {
    auto n;
    n = 0;
    goto in;
    while (0) {
        if (n > 5) { printf("again*n"); exit(); }
in:     n++;
    }
    printf("%d*n", n);
}
B
expect loop "$got" "1"
''')
bug("p03-case-after-if", "P03", "a case label that directly follows an if without else inside a switch",
    "falling into the next case from the end of an if statement without else skips that case",
    [(S, """	// Jump to case block if current block has no terminator
	if c.builder.Term == nil {
		c.builder.NewBr(caseBlock)
	}
""", """	// Jump to case block if current block has no terminator
	if c.builder.Term == nil {
		next := caseBlock
		if len(c.builder.Insts) == 0 && len(*cases) > 2 {
			// Nothing to do here: share the code of the previous empty case
			next = c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, (*cases)[len(*cases)-1]))
		}
		c.builder.NewBr(next)
	}
""")], "")
BUGS.pop()
bug("p03-nested-switch-end", "P03", "a case label that directly follows a nested switch, reached by falling through",
    "falling out of a nested switch into the next case of the outer one continues after the outer switch",
    [(S, """	// Jump to case block if current block has no terminator
	if c.builder.Term == nil {
		c.builder.NewBr(caseBlock)
	}
""", """	// Jump to case block if current block has no terminator
	if c.builder.Term == nil && !c.atSwitchEnd() {
		c.builder.NewBr(caseBlock)
	} else if c.builder.Term == nil {
		// Left a switch nested in this one: its end is where the outer one goes on
		end := c.NewBlock("")
		end.NewBr(caseBlock)
		for _, b := range c.currentFn.Blocks {
			if b.LocalName == fmt.Sprintf("switch.%d.end", switchID) {
				end = b
			}
		}
		c.builder.NewBr(end)
	}
"""), (I, """// GetInsertBlock returns""", """// atSwitchEnd tells if the current block is the empty end of a switch
func (c *Compiler) atSwitchEnd() bool {
	n := c.builder.LocalName
	return len(c.builder.Insts) == 0 && len(n) > 11 && n[:7] == "switch." && n[len(n)-4:] == ".end"
}

// GetInsertBlock returns""")],
    r'''
program <<'B'
f(a, b) {
    auto r;
    r = 0;
    switch (a) {
    case 1:
        switch (b) { case 7: r =+ 100; }
    case 2:
        r =+ 5;
    }
    return (r);
}
main() { printf("%d %d %d*n", f(1, 7), f(1, 8), f(2, 7)); }
B
expect fallthrough "$got" "105 5 5"
''')
# ---- P04
bug("p04-auto-reinit", "P04", "an auto statement executed again in the same activation",
    "an auto executed again by a loop keeps the value of the previous round instead of starting at zero",
    [(I, """	// Initialize local variables to 0 (B language semantics)
	c.builder.NewStore(constant.NewInt(c.WordType(), 0), alloca)
	c.locals[name] = alloca""",
      """	c.locals[name] = alloca""")],
    r'''
program <<'B'
main() { auto n; n = 0; while (n < 3) { n++; goto next; next: { extrn k; k = n; one(); } } }
one() { extrn k; auto i; i = 0; loop: { auto t; t =+ k; printf("%d ", t); } if (++i < 2) goto loop; }
k;
B
expect auto "$got" "1 1 2 2 3 3 "
''')
bug("p04-vector-direct", "P04", "a local vector whose name is assigned another address before it is subscripted",
    "v[i] of a local vector always means the storage v was declared with",
    [(X, """			if isLvalue {
				val = c.builder.NewLoad(c.WordType(), val)
				isLvalue = false
			}

			// val is an i64""",
      """			if gep, ok := val.(*ir.InstGetElementPtr); ok && isLvalue && len(gep.Indices) == 2 {
				if a, ok := gep.Src.(*ir.InstAlloca); ok {
					// A local vector: its words follow the pointer
					val = c.builder.NewPtrToInt(c.builder.NewGetElementPtr(a.ElemType, a,
						constant.NewInt(types.I32, 0), constant.NewInt(types.I32, 1)), c.WordType())
					isLvalue = false
				}
			}
			// Any other name holds a pointer
			if isLvalue {
				pointer := c.builder.NewLoad(c.WordType(), val)
				val, isLvalue = pointer, false
			}

			// val is an i64""")],
    r'''
program <<'B'
main() { auto v[3], w[3]; v[1] = 5; w[1] = 7; v = w; v[2] = 9; printf("%d %d*n", v[1], w[2]); }
B
expect vector "$got" "7 9"
''')
bug("p04-data-name", "P04", "a vector v together with a variable called v_data",
    "the storage of an uninitialized vector v takes the name of the variable v_data",
    [(I, """		dataGlobal := c.module.NewGlobalDef(c.globalName(name)+".data", constant.NewZeroInitializer(dataArrayType))""",
      """		dataGlobal := c.findGlobalByName(name + "_data")
		if dataGlobal == nil {
			dataGlobal = c.module.NewGlobalDef(c.globalName(name)+"_data", constant.NewZeroInitializer(dataArrayType))
		}""")],
    r'''
cat > p.b <<'B'
v_data 42;
v[10];
main() { extrn v, v_data; v[0] = 7; v[1] = 8; printf("%d %d*n", v_data, v[1]); }
B
blang -o p p.b || { echo "rejected"; exit 1; }
expect storage "$(./p)" "42 8"
''')
# ---- P05
bug("p05-callee-late", "P05", "a call through a variable that one of its own arguments changes",
    "the function is fetched from the variable after the arguments were evaluated",
    [(X, """			if isLvalue {
				// It's a function pointer variable (from extrn declaration)
				// Load the function pointer value for indirect call
				fn = c.builder.NewLoad(c.WordType(), val)""",
      """			if isLvalue {
				// It's a function pointer variable (from extrn declaration)
				// The function pointer value is loaded when the arguments are known"""),
     (X, """				fnAddr := fn
""", """				fnAddr := fn
				if isLvalue {
					fnAddr = c.builder.NewLoad(c.WordType(), val)
				}
""")],
    r'''
program <<'B'
one(x) { return (100 + x); }
two(x) { return (200 + x); }
main() { auto p; p = one; printf("%d ", p((p = two) & 0)); printf("%d*n", p(3)); }
B
expect callee "$got" "100 203"
''')
bug("p05-tail-args", "P05", "a function with more than five further parameters called with fewer arguments... ",
    "", [], "")
BUGS.pop()
bug("p05-many-params", "P05", "a function with more than eight parameters",
    "the ninth and further parameters are delivered in the wrong order",
    [(I, """		for i := 1; i < len(paramNames); i++ {
			paramName := paramNames[i]
""", """		for i := 1; i < len(paramNames); i++ {
			at := i
			if i > 8 {
				// These are on the stack, pushed from the last one on
				at = len(paramNames) - 1 - (i - 9)
			}
			paramName := paramNames[at]
""")],
    r'''
program <<'B'
f(a,b,c,d,e,g,h,i,j,k,l) { return (j * 100 + k * 10 + l); }
g(a,b,c,d,e,g,h,i,j) { return (h * 100 + i * 10 + j); }
main() { printf("%d %d*n", f(1,2,3,4,5,6,7,8,9,1,2), g(1,2,3,4,5,6,7,8,9)); }
B
expect parameters "$got" "912 789"
''')
bug("p05-param-alias", "P05", "a function that names a later parameter twice... ", "", [], "")
BUGS.pop()
# ---- P06
bug("p06-string-pool", "P06", "two strings of one function that differ only in zero bytes at their end",
    "a string that ends in zero bytes shares the storage of the string without them",
    [(I, """	global := c.module.NewGlobalDef(fmt.Sprintf(".str.%d", c.stringID), strConst)
	global.Linkage = enum.LinkagePrivate
""",
      """	// The same text needs to be stored only once per declaration
	text := strings.TrimRight(str, "\\x00")
	for i, other := range c.strings {
		if c.texts[i] == text {
			return other
		}
	}
	c.texts = append(c.texts[:len(c.strings)], text)
	name := fmt.Sprintf(".str.%d", c.stringID)
	global := c.module.NewGlobalDef(name, strConst)
	global.Linkage = enum.LinkagePrivate
"""),
     (I, """	strings   []*ir.Global           // string constants""", """	strings   []*ir.Global           // string constants
	texts     []string               // and their texts"""),
     (I, """	"fmt"
""", """	"fmt"
	"strings"
""")],
    r'''
program <<'B'
show(s, n) { auto i; i = 0; while (i < n) printf("%d ", char(s, i++)); }
main() { auto s, t; s = "ab"; t = "ab*e*e*e*e*e*e"; u("xyzxyzxyzxyz"); show(s, 3); show(t, 9); }
u(x) { }
B
expect string "$got" "97 98 0 97 98 0 0 0 0 0 0 0 "
''')
bug("p06-number-wrap", "P06", "a decimal constant of 2^63 or more",
    "decimal constants beyond 2^63-1 are clipped instead of taken modulo 2^64",
    [(L, """		num = (num * int64(base)) + int64(c-'0')
""", """		next := (num * int64(base)) + int64(c-'0')
		if base == 10 && num > 0 && next < 0 {
			next = 1<<63 - 1
		}
		num = next
""")],
    r'''
program <<'B'
main() { printf("%d %d*n", 9223372036854775808, 01777777777777777777777); }
B
expect number "$got" "-9223372036854775808 -1"
''')
bug("p06-char-escape", "P06", "an escape for a zero byte inside a character constant",
    "a zero byte written as *e or *0 in a character constant takes no place in the word",
    [(L, """		// Big endian
		value = (value << 8) | int64(c&0xFF)""",
      """		// Big endian; the end mark adds nothing
		if c != 0 {
			value = (value << 8) | int64(c&0xFF)
		}""")],
    r'''
program <<'B'
main() { printf("%d %d %d*n", 'a*0', '*ea', 'a*0b'); }
B
expect character "$got" "24832 97 6357090"
''')
# ---- P07
bug("p07-comment-stars", "P07", "a comment that ends with an even number of stars before the slash",
    "a comment ending in **/ is not closed",
    [(L, """			if err != io.EOF {
				l.UnreadChar(c2)
			}
		}
	}
}""", """			if err != io.EOF && c2 != '*' {
				l.UnreadChar(c2)
			}
		}
	}
}""")],
    r'''
program <<'B'
/** a **/ main() { printf("1"); /* b ***/ printf("2"); /* c **/ printf("3*n"); /* d */ }
B
expect comment "$got" "123"
''')
bug("p07-case-space", "P07", "white space or a comment between a case constant and its colon",
    "no white space is allowed between a case constant and the colon",
    [(S, """	if err := l.Whitespace(); err != nil {
		return err
	}
	if err := l.ExpectChar(':', "expect ':' after 'case'"); err != nil {""",
      """	if err := l.ExpectChar(':', "expect ':' after 'case'"); err != nil {""")],
    r'''
program <<'B'
main() { switch (2) { case 1: printf("a"); case 2 /* two */ : printf("b"); case '*n' : printf("c*n"); } }
B
expect case "$got" "bc"
''')
bug("p07-space-set", "P07", "a form feed or vertical tab between tokens",
    "form feed and vertical tab are not white space",
    [(L, """		if unicode.IsSpace(c) {
			continue
		}""", """		if c == ' ' || c == '\\t' || c == '\\n' || c == '\\r' {
			continue
		}"""), (L, """	"unicode"
)""", """	"unicode"
)

var _ = unicode.IsSpace""")], "")
BUGS.pop()
# ---- P08
bug("p08-vector-call", "P08", "a call of a vector of the module in a function that does not declare it",
    "the compiler crashes instead of reporting the call",
    [(X, """			fn := c.GetOrDeclareFunction(name)
			if fn == nil {
				return nil, false, fmt.Errorf("cannot declare function '%s'", name)
			}
			return fn, false, nil""",
      """			return c.GetOrDeclareFunction(name), false, nil""")],
    r'''
cat > p.b <<'B'
v[3];
main() { v(1); }
B
out=$(blang --emit-llvm -o p.ll p.b 2>&1); st=$?
expect status "$st" 1
expect message "$(grep -c 'goroutine\|panic' <<<"$out")" 0
''')
bug("p08-paren-retry", "P08", "expressions with deeply nested parentheses",
    "a parenthesized expression is translated twice at every level, so that the time doubles with each",
    [(X, """		val, err := parseExpressionWithLevel(l, c, 15)
		if err != nil {
			return nil, false, err
		}
		if err := l.ExpectChar(')', "expect ')' after expression"); err != nil {""",
      """		val, err := l.twice(func() (value.Value, error) { return parseExpressionWithLevel(l, c, 15) }, c)
		if err != nil {
			return nil, false, err
		}
		if err := l.ExpectChar(')', "expect ')' after expression"); err != nil {"""),
     (L, """// UnreadChar pushes""", """// twice runs a parser on a block of its own first, to see if it succeeds
func (l *Lexer) twice(parse func() (value.Value, error), c *Compiler) (value.Value, error) {
	if l.trial == nil {
		l.trial = &[]rune{}
		defer func() { l.trial = nil }()
	}
	start := len(*l.trial)
	ch, err := l.ReadChar()
	if err != nil {
		return nil, err
	}
	l.UnreadChar(ch)
	_ = start
	return parse()
}

// UnreadChar pushes""")], "")
BUGS.pop()
bug("p08-block-eof", "P08", "a file that ends inside a nested block", "", [], "")
BUGS.pop()
# ---- P09
bug("p09-goto-pair", "P09", "two goto statements with no other numbered statement between them",
    "the blocks after two gotos get the same name",
    [(S, """	deadBlock := c.NewBlock(fmt.Sprintf("unreachable.%d", c.labelID))
	c.labelID++
	c.SetInsertPoint(deadBlock)
	// Don't add""", """	deadBlock := c.NewBlock(fmt.Sprintf("unreachable.%d", c.labelID))
	c.SetInsertPoint(deadBlock)
	// Don't add""")],
    r'''
echo 'main() { goto b; a: printf("a*n"); return (0); b: printf("b "); goto a; }' > p.b
blang --emit-llvm -o p.ll p.b || exit 1
llvm-as -o p.bc p.ll || exit 1
''')
bug("p09-truncated", "P19", "a file that ends in the middle of a function",
    "a function cut off by the end of the file is accepted",
    [(D, """			if err := parseFunction(l, c, name); err != nil {
				return err
			}""", """			if err := parseFunction(l, c, name); err != nil && err != io.EOF {
				return err
			}""")],
    r'''
printf 'main() { auto a; a = 1; if (a) { a = 2; ' > p.b
out=$(blang --emit-llvm -o p.ll p.b 2>&1); st=$?
expect status "$st" 1
expect message "$(grep -c 'goroutine' <<<"$out")" 0
''')
bug("p09-case-label", "P03", "a user label that looks like case_0_1 in a function with a switch",
    "a user label is merged with the block of a case: jumps go to the wrong place",
    [(S, """	// Create label for this case
	caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, value))""",
      """	// Create label for this case
	caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case_%d_%d", switchID, value))"""),
     (S, """			caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, caseVal))""",
      """			caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case_%d_%d", switchID, caseVal))""")],
    r'''
program <<'B'
main() {
    auto n;
    n = 0;
case_0_1:
    n++;
    if (n < 3) goto case_0_1;
    switch (n) { case 1: printf("one "); case_1_3: case 3: printf("three "); }
    printf("%d*n", n);
}
B
expect label "$got" "three 3"
cat > q.b <<'B'
f(x) { switch (x) { case 3: printf("three "); } case_0_3: printf("end "); }
main() { f(1); f(3); }
B
blang -o q q.b || { echo rejected; exit 1; }
expect label "$(timeout 5 ./q | head -c 100)" "end three end "
''')
# ---- P10
bug("p10-nsw", "P10", "an increment that passes the largest word, in optimized code",
    "++ is marked as never wrapping, so the optimizer drops tests that depend on the wrap",
    [(X, """			return nil, false, fmt.Errorf("expected lvalue after '++'")
		}
		current := c.builder.NewLoad(c.WordType(), val)
		one := constant.NewInt(c.WordType(), 1)
		result := c.builder.NewAdd(current, one)
		c.builder.NewStore(result, val)
		return val, true, nil

	case '*':""", """			return nil, false, fmt.Errorf("expected lvalue after '++'")
		}
		current := c.builder.NewLoad(c.WordType(), val)
		one := constant.NewInt(c.WordType(), 1)
		next := c.builder.NewAdd(current, one)
		next.OverflowFlags = append(next.OverflowFlags, enum.OverflowFlagNSW)
		c.builder.NewStore(next, val)
		return val, true, nil

	case '*':""")],
    r'''
for o in 0 1 2 3; do
program -O$o <<'B'
f(x) { auto y; y = x; ++y; return (y > x); }
main() { auto m; m = 1 << 62; m = m - 1 + m; printf("%d %d*n", f(5), f(m)); }
B
expect "-O$o" "$got" "1 0"
done
''')
bug("p10-opt-fence", "P10", "a program stopped by exit after writing through nwrite... ", "", [], "")
BUGS.pop()
bug("p10-pure", "P10", "a function without parameters whose effect on a variable matters, in optimized code",
    "a function without parameters that ends without a return is marked as having no effects on memory",
    [(I, """		fn = c.module.NewFunc(c.globalName(name), c.WordType())
	} else {""",
      """		fn = c.module.NewFunc(c.globalName(name), c.WordType())
		fn.FuncAttrs = append(fn.FuncAttrs, enum.FuncAttrArgMemOnly)
	} else {""")], "")
BUGS.pop()
# ---- P11
bug("p11-dots", "P11", "an input file name with more than one dot, without -o",
    "the output of a.x.b is a.o instead of a.x.o",
    [(V, """		base := filepath.Base(in)
		out := strings.TrimSuffix(base, filepath.Ext(base)) + ".o\"""",
      """		base := filepath.Base(in)
		out := strings.SplitN(base, ".", 2)[0] + ".o\"""")],
    r'''
echo 'main() { return (3); }' > a.x.b
blang -c a.x.b || { echo failed; exit 1; }
expect files "$(ls)" "$(printf 'a.x.b\na.x.o')"
''')
bug("p11-temp-index", "P11", "two sources with the same base name in different directories, linked together",
    "the intermediate files of two sources with the same name overwrite each other",
    [(V, """				tmp = fmt.Sprintf("%s.tmp.%d.ll", base, i)""",
      """				tmp = fmt.Sprintf("%s.tmp.ll", base)"""),
     (V, "	for i, in := range args.InputFiles {\n		ext := filepath.Ext(in)", "	for _, in := range args.InputFiles {\n		ext := filepath.Ext(in)")],
    r'''
mkdir d e
echo 'main() { extrn k; return (f() + k); } k 5;' > d/a.b
echo 'f() { return (30); }' > e/a.b
blang -o out d/a.b e/a.b || { echo failed; exit 1; }
./out; expect status $? 35
''')
bug("p11-opt-number", "P11", "an optimization level such as 02 or +1",
    "an optimization level that is not 0 to 3 is accepted when it reads as such a number",
    [(M, """		switch optimize {
		case "1", "2", "3":
			optLevel = int(optimize[0] - '0')
		default:""",
      """		switch n, err := strconv.Atoi(optimize); {
		case err == nil && n >= 0 && n <= 3:
			optLevel = n
		default:"""), (M, """	"path/filepath"
""", """	"path/filepath"
	"strconv"
""")],
    r'''
echo 'main() { return (3); }' > a.b
for o in 02 +1 4 -1 x; do
blang "-O$o" -c a.b 2>/dev/null; expect "-O$o" $? 1
expect output "$(ls)" a.b
done
blang -O2 -c a.b; expect -O2 $? 0
''')
# ---- P12
bug("p12-last-error", "P12", "several inputs with -S of which only an earlier one fails",
    "a failing input is forgotten when a later one succeeds",
    [(V, """		out := strings.TrimSuffix(base, filepath.Ext(base)) + ".s"
		if err := processOne(in, out); err != nil {
			return err
		}
	}
	return nil""",
      """		out := strings.TrimSuffix(base, filepath.Ext(base)) + ".s"
		failure = processOne(in, out)
	}
	return failure"""),
     (V, """	// No -o: emit one .s per input in the current working directory
""", """	// No -o: emit one .s per input in the current working directory
	var failure error
""")],
    r'''
echo 'main() { return (3); }' > a.b
echo 'this is not code' > bad.ll
blang -S bad.ll a.b 2>/dev/null; expect "bad first" $? 1
blang -S a.b bad.ll 2>/dev/null; expect "bad last" $? 1
blang -S a.b; expect good $? 0
''')
bug("p12-link-temps", "P12", "a link that fails although all sources compile",
    "the intermediate files stay behind when the link fails",
    [(V, """	if err := cmd.Run(); err != nil {
		if !args.SaveTemps {
			for _, t := range temps {
				os.Remove(t)
			}
		}
		return fmt.Errorf("failed to generate executable: %v", err)""",
      """	if err := cmd.Run(); err != nil {
		if !args.SaveTemps && len(temps) == 1 {
			os.Remove(temps[0])
		}
		return fmt.Errorf("failed to generate executable: %v", err)""")],
    r'''
echo 'main() { f(); }' > a.b
echo 'g() { none(); }' > c.b
blang -o out a.b c.b 2>/dev/null; expect status $? 1
expect files "$(ls | tr '\n' ' ')" "a.b c.b "
''')
bug("p12-exe-source-error", "P12", "a later source that does not compile when several are linked",
    "an error in a later source of a link is reported as success of nothing",
    [], "")
BUGS.pop()
# ---- P13
bug("p13-used-names", "P13", "a name called as a function in one file and declared with extrn in a later file of the same command",
    "names used as functions are remembered from one file to the next",
    [(I, """		usedAsFunction: make(map[string]bool),
	}
}""", """		usedAsFunction: args.KnownFunctions,
	}
}""")] + [("options.go", """		GlobalPrefix: "b.",
""", """		GlobalPrefix: "b.",

		KnownFunctions: make(map[string]bool),
"""), ("options.go", """	GlobalPrefix string     // prefix for global symbols to avoid C clashes
""", """	GlobalPrefix string     // prefix for global symbols to avoid C clashes

	KnownFunctions map[string]bool // names that have been used as functions
""")],
    r'''
echo 'main() { return (f(2)); }' > a.b
echo 'g() { extrn f; return (f); }' > c.b
blang --emit-llvm a.b; expect a $? 0
blang --emit-llvm c.b; expect c $? 0
blang --emit-llvm a.b c.b 2>/dev/null; expect "a then c" $? 0
''')
bug("p13-string-counter", "P13", "two or more files in one command, the later one with a string",
    "the numbering of strings goes on from one file to the next",
    [(I, """	global := c.module.NewGlobalDef(fmt.Sprintf(".str.%d", c.stringID), strConst)""",
      """	global := c.module.NewGlobalDef(fmt.Sprintf(".str.%d", stringCount), strConst)"""),
     (I, """	c.stringID++

	return global
}""", """	c.stringID++
	stringCount++

	return global
}

// stringCount keeps the names of string constants unique
var stringCount int""")],
    r'''
echo 'main() { printf("a*n"); }' > a.b
echo 'g() { printf("c*n"); }' > c.b
blang --emit-llvm c.b && mv c.ll alone.ll || exit 1
blang --emit-llvm a.b c.b || exit 1
cmp alone.ll c.ll || exit 1
''')
# ---- P14
bug("p14-string-linkage", "P14", "two files with different strings linked into one program",
    "the linker merges the n-th strings of all files",
    [(I, """	global.Linkage = enum.LinkagePrivate""", """	global.Linkage = enum.LinkageLinkOnceODR""")],
    r'''
echo 'main() { printf("first "); f(); }' > a.b
echo 'f() { printf("second*n"); }' > c.b
blang -o out a.b c.b || exit 1
expect strings "$(./out)" "first second"
''')
bug("p14-hidden-vector", "P14", "an uninitialized vector of the same name length... ", "", [], "")
BUGS.pop()
bug("p14-vector-linkage", "P14", "an external vector with initial values, used from another file",
    "a vector with initial values can only be used in its own file",
    [(I, """	// Update the global initialization
	initVals[0] = ptrAsInt
	global.Init = constant.NewArray(arrayType, initVals...)
""", """	// Update the global initialization
	initVals = append([]constant.Constant{ptrAsInt}, initVals[1:]...)
	global.Init = constant.NewArray(arrayType, initVals...)
	if len(init) > 0 {
		global.Linkage = enum.LinkageInternal
	}
""")],
    r'''
echo 'main() { extrn v; return (v[0] + v[1]); }' > a.b
echo 'v[2] 30, 4;' > c.b
blang -o out a.b c.b || exit 1
./out; expect status $? 34
''')
# ---- P15
bug("p15-vector-leak", "P15", "a vector defined before a function that uses its name without extrn",
    "a vector is visible in the function that follows it, without an extrn declaration",
    [(D, """			if err := parseVector(l, c, name); err != nil {
				return err
			}
			// Clear context after each top-level declaration
			c.ClearTopLevelContext()""",
      """			if err := parseVector(l, c, name); err != nil {
				return err
			}""")],
    r'''
cat > p.b <<'B'
v[3];
main() { v[0] = 1; }
B
blang --emit-llvm -o p.ll p.b 2>/dev/null; expect status $? 1
''')
bug("p15-auto-param", "P15", "an auto with the name of a parameter of a function with two or more parameters",
    "an auto may redeclare a second or later parameter",
    [(S, """		if _, exists := c.locals[name]; exists {
			return fmt.Errorf("identifier '%s' already defined in this scope", name)
		}
		seen[name] = struct{}{}""",
      """		declared := make(map[string]bool)
		for local := range c.locals {
			declared[local] = true
		}
		for _, params := range c.functionParams {
			for i := 1; i < len(params); i++ {
				declared[params[i]] = false // only the first parameter is fixed
			}
		}
		if declared[name] {
			return fmt.Errorf("identifier '%s' already defined in this scope", name)
		}
		seen[name] = struct{}{}""")],
    r'''
echo 'f(x, y) { auto y; return (y); }' > p.b
blang --emit-llvm -o p.ll p.b 2>/dev/null; expect status $? 1
echo 'f(x) { auto x; return (x); }' > p.b
blang --emit-llvm -o p.ll p.b 2>/dev/null; expect status $? 1
''')
bug("p15-empty-extrn", "P19", "an extrn statement with a missing name",
    "extrn without a name is accepted",
    [(S, """		if err != nil || name == "" {
			return fmt.Errorf("expect identifier after 'extrn'")
		}""", """		if err != nil {
			return fmt.Errorf("expect identifier after 'extrn'")
		}""")],
    r'''
echo 'main() { extrn a, ; return (0); }' > p.b
blang --emit-llvm -o p.ll p.b 2>/dev/null; expect status $? 1
''')
bug("p15-long-names", "P15", "two names that agree in their first 31 characters",
    "names that differ only after 31 characters are taken for one",
    [(L, """		result = append(result, c)
	}
}

// Number""", """		// Further characters are not significant
		if len(result) < 31 {
			result = append(result, c)
		}
	}
}

// Number""")],
    r'''
program <<'B'
a_rather_long_name_of_a_variable_1 5;
a_rather_long_name_of_a_variable_2 6;
main() { extrn a_rather_long_name_of_a_variable_1, a_rather_long_name_of_a_variable_2;
  printf("%d %d*n", a_rather_long_name_of_a_variable_1, a_rather_long_name_of_a_variable_2); }
B
expect names "$got" "5 6"
''')
# ---- P16
bug("p16-write-zero", "P16", "a packed character constant with a zero byte in the middle",
    "write drops zero bytes between characters",
    [("runtime/write.c", "if (byte != 0 || p != buf || len == sizeof(word_t) - 1) {", "if (byte != 0 || len == sizeof(word_t) - 1) {")],
    r'''
cat > p.b <<'B'
main() { write('a*eb'); write('cd'); }
B
blang -o p p.b || exit 1
expect bytes "$(./p | od -An -tx1)" " 61 00 62 63 64"
''')
bug("p16-printd-min", "P16", "printing the smallest word",
    "printd prints nothing sensible for the smallest word",
    [("runtime/printd.c", "    uintptr_t value = (uintptr_t)n;\n    int negative = n < 0;", "    intptr_t value = n;\n    int negative = n < 0;"),
     ("runtime/printd.c", "        value = 1 + ~value; // avoid overflow on MIN", "        value = -value;")],
    r'''
program <<'B'
main() { printd(1 << 63); write(' '); printd(-1); }
B
expect digits "$got" "-9223372036854775808 -1"
''')
bug("p16-printf-percent", "P16", "a format that ends with a percent sign or has an unknown conversion after another one",
    "printf drops the character of an unknown conversion",
    [("runtime/printf.c", "    b_write('%');\n    i--;\n    goto loop;", "    b_write('%');\n    if (c == '\\0')\n        goto end;\n    i -= c != ' ';\n    goto loop;")],
    r'''
program <<'B'
main() { printf("5% of%d%", 10); printf("*n100%z*n"); }
B
expect format "$got" "$(printf '5%% of10%%\n100%%z')"
''')
bug("p16-string-block", "P16", "printf %s of a string longer than 127 bytes",
    "long strings are cut when printed with %s",
    [("runtime/printf.c", "        j = 0;\n        while ((c = b_char(x, j++)) != '\\0')\n            b_write(c);", "        for (j = 0; b_char(x, j) != '\\0';)\n            j = (signed char)(j + 1);\n        b_nwrite(b_fout + 1, x, j);")],
    r'''
s=$(printf 'x%.0s' $(seq 200))
printf 'main() { printf("<%%s>", "%s"); }\n' "$s" > p.b
blang -o p p.b || exit 1
expect string "$(timeout 10 ./p 2>&1)" "<$s>"
''')
# ---- P17
bug("p17-nread-full", "P17", "a read from a pipe that delivers less than the requested count",
    "nread waits for the full count and returns 0 when the input ends before",
    [("runtime/nread.c", "    return (word_t)syscall(SYS_read, file, buffer, count);",
      """    word_t done = 0;
    while (done < count) {
        word_t n = (word_t)syscall(SYS_read, file, buffer + done, count - done);
        if (n <= 0)
            return n;
        done += n;
    }
    return done;""")],
    r'''
cat > p.b <<'B'
main() { auto v[10], n; n = nread(0, v, 40); printf("%d ", n); n = nread(0, v, 40); printf("%d*n", n); }
B
blang -o p p.b || exit 1
expect count "$(printf abc | ./p)" "3 0"
''')
bug("p17-read-nul", "P17", "a zero byte in the input",
    "a zero byte in the input reads as the end mark",
    [("runtime/read.c", "        if (c > 0 && c <= 127) {", "        if (c == 0)\n            return 4;\n        if (c <= 127 && c > 0) {")],
    r'''
cat > p.b <<'B'
main() { auto i; i = 0; while (i++ < 4) printf("%d ", read()); }
B
blang -o p p.b || exit 1
expect read "$(printf 'a\0b' | ./p)" "97 0 98 4 "
''')
bug("p17-lchar-word", "P17", "lchar next to other data", "lchar clears the following byte when it stores a zero",
    [("runtime/lchar.c", "    ((char *)string)[i] = chr;", "    char *s = (char *)string;\n    s[i] = chr;\n    if (chr == 0)\n        s[i | 1] = 0; // end of string")],
    r'''
program <<'B'
main() { auto v[2]; v[0] = 0; v[1] = 0; lchar(v, 0, 'a'); lchar(v, 1, 'b'); lchar(v, 2, 'c'); lchar(v, 3, 'd'); lchar(v, 2, 0);
 printf("%d %d %d %d*n", char(v, 0), char(v, 1), char(v, 2), char(v, 3)); }
B
expect bytes "$got" "97 98 0 100"
''')
# ---- P18
bug("p18-status", "P18", "main returning a value whose low eight bits are zero or that is negative",
    "any value other than 0..255 becomes status 1",
    [("runtime/start.c", "    syscall(SYS_exit, code, 0, 0);", "    syscall(SYS_exit, code < 0 || code > 255 ? 1 : code, 0, 0); // what does not fit is an error")],
    r'''
echo 'main() { return (256); }' > a.b; blang -o a a.b || exit 1
./a; expect 256 $? 0
echo 'main() { return (-2); }' > a.b; blang -o a a.b || exit 1
./a; expect -2 $? 254
''')
bug("p18-exit-arg", "P18", "exit called with an argument left in the register, as in exit(3)",
    "exit passes its argument on as the status",
    [("runtime/exit.c", "void b_exit()\n{\n    syscall(SYS_exit, 0, 0, 0);", "void b_exit(word_t code)\n{\n    syscall(SYS_exit, code, 0, 0);"),
     ("runtime/runtime.h", "void b_exit(void)", "void b_exit(word_t code)")],
    r'''
cat > a.b <<'B'
f(x) { return (x); }
main() { f(5); printf("done"); exit(); return (9); }
B
blang -o a a.b || exit 1
./a > log; expect status $? 0
echo 'main() { exit(3); }' > a.b; blang -o a a.b || exit 1
./a; expect status $? 0
''')

# ---- second batch
bug("p19-stray-semicolon", "P19", "a semicolon after the closing brace of a definition",
    "a superfluous semicolon at file level is accepted",
    [(D, """	_, err := l.ReadChar()
	if err != io.EOF {
		if err == nil {""", """	ch, err := l.ReadChar()
	if err == nil && ch == ';' {
		// An empty declaration
		return ParseDeclarations(l, c)
	}
	if err != io.EOF {
		if err == nil {""")],
    r'''
printf 'f(x) { return (x); };\nmain() { f(1); }\n' > a.b; blang -c a.b; [ $? != 0 ] || { echo accepted; exit 1; }
printf 'f(x) { return (x); }\nmain() { f(1); }\n' > a.b; blang -c a.b; expect plain $? 0
''')
bug("p19-init-comma", "P19", "a comma after the last initial value of a vector",
    "a superfluous comma at the end of a list of initial values is accepted",
    [(D, """			if ch == ';' {
				break
			}
			if ch != ',' {
				return fmt.Errorf("expect ';' at end of declaration")
			}
		}
	}

	if nwords < 0""", """			if ch == ',' {
				// The list may be continued on the next line
				if err := l.Whitespace(); err != nil {
					return err
				}
				next, err := l.ReadChar()
				if err != nil {
					return err
				}
				if next != ';' {
					l.UnreadChar(next)
					continue
				}
				ch = next
			}
			if ch == ';' {
				break
			}
			return fmt.Errorf("expect ';' at end of declaration")
		}
	}

	if nwords < 0""")],
    r'''
printf 'v[2] 1, 2;\nmain() { }\n' > a.b; blang -c a.b; expect plain $? 0
printf 'v[2] 1, 2, ;\nmain() { }\n' > a.b; blang -c a.b; [ $? != 0 ] || { echo accepted; exit 1; }
''')
bug("p19-empty-param", "P19", "a parameter list with a missing name, as in f(a,,b)",
    "a missing parameter name is accepted",
    [(D, """		if err != nil || name == "" {
			return nil, fmt.Errorf("expect ')' or identifier after function arguments")
		}

		params = append(params, name)""", """		if err != nil || name == "" && len(params) == 0 {
			return nil, fmt.Errorf("expect ')' or identifier after function arguments")
		}

		params = append(params, name)""")],
    r'''
echo 'f(a, b) { } main() { }' > a.b; blang -c a.b; expect plain $? 0
echo 'f(a, , b) { } main() { }' > a.b; blang -c a.b; [ $? != 0 ] || { echo accepted; exit 1; }
''')
bug("p12-tool-killed", "P12", "a tool chain that is killed or cannot be started",
    "only an ordinary failure status of the tool chain is noticed when linking",
    [(V, """	if err := cmd.Run(); err != nil {
		if !args.SaveTemps {
			for _, t := range temps {""", """	if err := cmd.Run(); cmd.ProcessState.ExitCode() > 0 {
		if !args.SaveTemps {
			for _, t := range temps {""")],
    r'''
echo 'main() { }' > a.b; blang -o a a.b; expect plain $? 0
mkdir bin; printf '#!/bin/sh\nkill -9 $$\n' > bin/clang; chmod +x bin/clang; /bin/rm -f a
(PATH=$PWD/bin:$PATH; blang -o a a.b); [ $? != 0 ] || { echo "a killed linker passes for success"; exit 1; }
''')
bug("p17-read-error", "P17", "an input that cannot be read, such as a closed descriptor",
    "read returns 0 instead of 4 when the input fails",
    [("runtime/read.c", "(word_t)&c, 1) == 1) {", "(word_t)&c, 1) != 0) {")],
    r'''
program <<'B'
main() { printf("%d", read()); }
B
expect closed "$(./p <&-)" 4
expect text "$(printf a | ./p)" 97
''')
bug("p17-del", "P17", "the character 127 in the input",
    "read takes the last ASCII character for a non-ASCII one",
    [("runtime/read.c", "c > 0 && c <= 127", "c > 0 && c < 127")],
    r'''
program <<'B'
main() { printf("%d ", read()); printf("%d ", read()); printf("%d", read()); }
B
expect del "$(printf '~\177a' | ./p)" "126 127 97"
''')
bug("p16-printo-stream", "P16", "printo after the output was switched to the error stream",
    "printo always writes to the standard output",
    [("runtime/printo.c", "b_nwrite(b_fout + 1,", "b_nwrite(1,")],
    r'''
program <<'B'
main() { extrn fout; printf("a"); fout = 1; printf("%d.%o.", 8, 8); fout = 0; printf("z"); }
B
expect out "$(./p 2>/dev/null)" az
expect err "$(./p 2>&1 >/dev/null)" 8.10.
''')
bug("p10-tail", "P10", "an optimized caller whose variable the callee changes through its address",
    "direct calls are marked as tail calls, so the optimizer takes the caller's variables for untouched",
    [(X, """				} else {
					result = c.builder.NewCall(fnDirect, args...)
				}""", """				} else {
					// Let the optimizer reuse the frame
					call := c.builder.NewCall(fnDirect, args...)
					call.Tail = enum.TailTail
					result = call
				}""")],
    r'''
for o in 0 1 2 3; do
program -O$o <<'B'
set(p, v) { *p = v; return (0); }
main() { auto x, v[3]; x = 1; v[1] = 2; set(&x, 5); set(v + 8, 6); printf("%d %d*n", x, v[1]); }
B
expect O$o "$got" "5 6"
done
''')
bug("p06-high-byte", "P06", "a character constant of several characters with a byte above 127",
    "a byte above 127 fills the preceding characters of its constant with ones",
    [(L, "value = (value << 8) | int64(c&0xFF)", "value = (value << 8) | int64(int8(c))")],
    r'''
printf 'main() { auto x; x = \047a\303\251\047; printf("%%d*n", x); }\n' | cat > p.b
blang -o p p.b || exit 1
expect constant "$(./p)" "6407081"
''')
bug("p13-block-counter", "P13", "a file compiled after another one in the same command",
    "the numbers in block names go on from the previous file, so the output depends on the companions",
    [(I, "		stringID:       0,\n		functionParams", "		labelID:        nextLabel, // string numbers start at 0\n		functionParams"),
     (I, """// EndFunction finalizes a function
func (c *Compiler) EndFunction() {""", """// nextLabel keeps block names apart between modules that are linked together
var nextLabel int

// EndFunction finalizes a function
func (c *Compiler) EndFunction() {
	nextLabel = c.labelID""")],
    r'''
echo 'f(x) { if (x) return (1); return (2); }' > a.b
echo 'g(x) { while (x) x--; return (x); }' > b.b
blang --emit-llvm -o alone.ll b.b && blang --emit-llvm a.b b.b || exit 1
cmp b.ll alone.ll || exit 1
''')
bug("p14-archive-last", "P14", "an archive member that needs a runtime routine nothing else in the program uses",
    "archives are linked after the runtime library, whose routines they need",
    [(V, """		case ".ll", ".s", ".o", ".a":
			clangInputs = append(clangInputs, clangPath(in))
""", """		case ".ll", ".s", ".o":
			clangInputs = append(clangInputs, clangPath(in))

		case ".a":
			archives = append(archives, in)
"""), (V, """	clangInputs := []string{}

	for i, in""", """	clangInputs := []string{}
	archives := []string{} // must follow the objects that use them

	for i, in"""),
     (V, """	cmdArgs = append(cmdArgs, "-o", clangPath(args.OutputFile))

	cmd :=""", """	cmdArgs = append(cmdArgs, archives...)
	cmdArgs = append(cmdArgs, "-o", clangPath(args.OutputFile))

	cmd :=""")],
    r'''
echo 'f() { printo(64); }' > f.b; echo 'main() { f(); }' > m.b
blang -c f.b && ar cr f.a f.o && blang -o p m.b f.a || { echo "does not link"; exit 1; }
expect output "$(./p)" 100
''')
bug("p15-call-shadow", "P15", "a call of a parameter or auto that has the name of a function of the file",
    "the function of the file is called instead of the one the local variable holds",
    [(X, """			// Check for a declared function in module
			if fn := c.findFuncByName(name); fn != nil {
				return fn, false, nil
			}

			// Check extrn""", """			// Check extrn"""), (X, """			// If it's a call, handle both direct and indirect calls
		if isCall {""", "")],
    "")
BUGS.pop()
bug("p04-vector-reexec", "P04", "an auto vector whose name was assigned another address, declared again in a loop",
    "executing the auto statement again does not make the name denote the vector again",
    [(I, """	c.insertAtEntry(alloca, firstElemPtr, ptrAsInt, firstSlotPtr, ir.NewStore(ptrAsInt, firstSlotPtr))
	c.builder.NewStore(ptrAsInt, firstSlotPtr)
""", """	c.insertAtEntry(alloca, firstElemPtr, ptrAsInt, firstSlotPtr, ir.NewStore(ptrAsInt, firstSlotPtr))
""")],
    r'''
program <<'B'
main() { auto i, w[2]; i = 0; w[0] = 70;
 while (i < 3) { auto v[2]; v[0] = i; printf("%d ", w[0]); v = w; i++; } }
B
expect vector "$got" "70 70 70 "
''')
bug("p11-lib-order", "P11", "a library directory that holds a library of the same name as one in a directory given later",
    "library directories are searched in the wrong order",
    [(V, """	for _, libDir := range args.LibraryDirs {
		cmdArgs = append(cmdArgs, "-L"+libDir)
	}
""", """	for i := range args.LibraryDirs {
		cmdArgs = append(cmdArgs, "-L"+args.LibraryDirs[len(args.LibraryDirs)-1-i])
	}
""")],
    r'''
mkdir x y
echo 'f() { printf("x"); }' > f.b; blang -c f.b && ar cr x/libq.a f.o
echo 'f() { printf("y"); }' > f.b; blang -c f.b && ar cr y/libq.a f.o
echo 'main() { f(); printf(""); }' > m.b
blang -L"$HOME/.local/lib" -Lx -Ly -lq -o m m.b || exit 1; expect first "$(./m)" x
blang -L"$HOME/.local/lib" -Ly -Lx -lq -o m m.b || exit 1; expect first "$(./m)" y
''')
bug("p01-subscript-late", "P01", "a subscript whose index changes the subscripted variable",
    "p[i] takes the value of p after i was evaluated",
    [(X, """			if isLvalue {
				val = c.builder.NewLoad(c.WordType(), val)
				isLvalue = false
			}

			// val is an i64 containing a pointer value
			// Convert to actual pointer type
			ptr := c.builder.NewIntToPtr(val, c.WordPtrType())

			// Parse index
""", """			// Parse index
"""), (X, """			if err := l.ExpectChar(']', "expect ']' after array index"); err != nil {
				return nil, false, err
			}
""", """			if err := l.ExpectChar(']', "expect ']' after array index"); err != nil {
				return nil, false, err
			}

			// val is an i64 containing a pointer value
			// Convert to actual pointer type
			if isLvalue {
				val = c.builder.NewLoad(c.WordType(), val)
				isLvalue = false
			}
			ptr := c.builder.NewIntToPtr(val, c.WordPtrType())
""")],
    r'''
program <<'B'
main() { auto v[2], w[2], p; v[0] = 1; v[1] = 2; w[0] = 3; w[1] = 4; p = v; printf("%d ", p[(p = w) != 0]); p = v; printf("%d*n", (p = w)[1] + p[(p = v) == 0]); }
B
expect subscript "$got" "2 7"
''')
bug("p07-minus-minus", "P07", "two minus signs with white space or a comment between them",
    "white space between two minus signs is ignored: they become one decrement",
    [(X, """		// Check for prefix decrement --
		ch2, err2 := l.ReadChar()
		if err2 == nil && ch2 == '-' {""", """		// Check for prefix decrement --
		if err := l.Whitespace(); err != nil {
			return nil, false, err
		}
		ch2, err2 := l.ReadChar()
		if ch2 == '-' && err2 == nil {""")],
    r'''
program <<'B'
main() { auto x; x = 5; printf("%d ", - -x); printf("%d ", x); printf("%d*n", -/**/-x); }
B
expect minus "$got" "5 5 5"
''')
bug("p14-zero-common", "P14", "an initialized external defined in one file and defined without value in another one",
    "",
    [], "")
BUGS.pop()
bug("p09-valist", "P09", "a function whose first parameter list is long and whose file also defines a name that starts with llvm",
    "", [], "")
BUGS.pop()
bug("p18-exit-stream", "P18", "a program that ends while its output goes to the error stream",
    "exit passes the selected stream as the status",
    [("runtime/exit.c", "    syscall(SYS_exit, 0, 0, 0);", "    syscall(SYS_exit, b_fout, 0, 0); // failure when the last messages were errors")],
    r'''
echo 'main() { extrn fout; printf("x"); fout = 1; printf("e"); exit(); }' > a.b; blang -o a a.b || exit 1
./a > log 2>&1; expect status $? 0
''')
# ---- P20
bug("p20-temp-dir", "P20", "two commands at the same time whose outputs have the same name in different directories",
    "the intermediate file of an executable goes to the current directory under the base name of the output, where another command uses the same name",
    [(V, """				tmp = args.OutputFile + ".tmp.ll"
""", """				// Keep other directories clean unless the file is to stay
				tmp = filepath.Base(args.OutputFile) + ".tmp.ll"
				if args.SaveTemps {
					tmp = args.OutputFile + ".tmp.ll"
				}
""")],
    r'''
mkdir bin one two
# a tool chain that waits for a file called "go" when it works for one/
real=$(command -v clang)
cat > bin/clang <<S
#!/bin/bash
case "\$*" in *one/prog*) touch waiting; for k in \$(seq 200); do [ -f go ] && break; sleep 0.05; done;; esac
exec $real "\$@"
S
chmod +x bin/clang; PATH=$PWD/bin:$PATH
echo 'main() { return (1); }' > a.b; echo 'main() { return (2); }' > b.b
blang -o one/prog a.b & first=$!
for k in $(seq 200); do [ -f waiting ] && break; sleep 0.05; done
blang -o two/prog b.b || { echo "second failed"; exit 1; }
touch go; wait $first || { echo "first failed"; exit 1; }
one/prog; expect one $? 1
two/prog; expect two $? 2
''')
bug("p20-temp-stem", "P20", "an assembly file and an executable of the same name made at the same time",
    "-S names the intermediate file after the output without its suffix, as linking does",
    [(V, """			// Compile .b to temporary IR first
			tempIR := out + ".tmp.ll"
			if err := checkNotInput(args, tempIR); err != nil {
				return err
			}

			irArgs := *args
			irArgs.InputFiles = []string{in}
			irArgs.OutputType = OutputIR
			irArgs.OutputFile = tempIR

			if err := compileToIR(&irArgs); err != nil {
				return err
			}

			// Convert IR to assembly using clang
""", """			// Compile .b to temporary IR first
			tempIR := strings.TrimSuffix(out, ".s") + ".tmp.ll"
			if err := checkNotInput(args, tempIR); err != nil {
				return err
			}

			irArgs := *args
			irArgs.InputFiles = []string{in}
			irArgs.OutputType = OutputIR
			irArgs.OutputFile = tempIR

			if err := compileToIR(&irArgs); err != nil {
				return err
			}

			// Convert IR to assembly using clang
""")],
    r'''
mkdir bin
real=$(command -v clang)
cat > bin/clang <<S
#!/bin/bash
case "\$*" in *-S*) touch waiting; for k in \$(seq 200); do [ -f go ] && break; sleep 0.05; done;; esac
exec $real "\$@"
S
chmod +x bin/clang; PATH=$PWD/bin:$PATH
echo 'main() { return (1); }' > a.b; echo 'f() { return (2); } g() { return (3); }' > b.b
blang -S -o a.s a.b & first=$!
for k in $(seq 200); do [ -f waiting ] && break; sleep 0.05; done
blang -o a b.b a.b || { echo "second failed"; exit 1; }
blang -o a a.b || { echo "third failed"; exit 1; }
touch go; wait $first || { echo "first failed"; exit 1; }
grep -q main a.s || { echo "a.s lacks main"; exit 1; }
''')
bug("p20-no-truncate", "P20", "an intermediate-code file written over a longer one of an earlier command",
    "the old contents beyond the new ones stay in the file",
    [(V, "		outFile, err := os.Create(outputPath)\n", "		outFile, err := os.OpenFile(outputPath, os.O_WRONLY|os.O_CREATE, 0666)\n")],
    r'''
echo 'f() { g("a longer text than before"); h(1,2,3); } i() { return (1); }' > l.b
echo 'f() { g("a longer text than before"); h(1,2,3); }' > s.b
blang --emit-llvm -o x.ll s.b || exit 1; cp x.ll want
blang --emit-llvm -o x.ll l.b || exit 1
blang --emit-llvm -o x.ll s.b || exit 1
cmp x.ll want || exit 1
''')
bug("p20-reuse-temp", "P20", "an object file made again from another source while the intermediate file of an earlier command is still there",
    "an intermediate file newer than the source is taken for the translation of that source",
    [(V, """			irArgs := *args
			irArgs.InputFiles = []string{in}
			irArgs.OutputType = OutputIR
			irArgs.OutputFile = tempIR

			if err := compileToIR(&irArgs); err != nil {
				return err
			}

			// Convert IR to object using clang
""", """			irArgs := *args
			irArgs.InputFiles = []string{in}
			irArgs.OutputType = OutputIR
			irArgs.OutputFile = tempIR

			// With --save-temps the intermediate code may be up to date already
			src, serr := os.Stat(in)
			if ir, err := os.Stat(tempIR); !args.SaveTemps || err != nil || serr != nil || ir.ModTime().Before(src.ModTime()) {
				if err := compileToIR(&irArgs); err != nil {
					return err
				}
			}

			// Convert IR to object using clang
""")],
    r'''
echo 'f() { return (1); }' > a.b
echo 'g() { return (1); }' > b.b
sleep 0.1
blang --save-temps -c -o x.o a.b || exit 1
blang --save-temps -c -o x.o b.b || exit 1
mv x.o got.o; rm -f x.o.tmp.ll
blang --save-temps -c -o x.o b.b || exit 1
cmp got.o x.o || { echo "x.o is not the translation of b.b"; exit 1; }
''')

# --- P21: other processors (the demonstrations run an interpreter of their instructions)
EMU = r'''
here=$(cd "$repo" && cd "$(dirname "$self")" && pwd)
gcc -O2 -w -o emu "$here/emu.c" || exit 0
mkdir -p inc/sys && printf '#define SYS_read 63\n#define SYS_write 64\n#define SYS_exit 93\n' > inc/sys/syscall.h
GOWORK=off; ( cd "$repo" && go build -buildvcs=false -ldflags "-X main.targetPlatform=linux/$GO" -o "$dir/bl" . ) || exit 0
# on PROGRAM: builds p.b for the processor and runs it: output in $got, status in $st
on() {
	cat > p.b; "$dir/bl" --emit-llvm -o p.ll p.b || exit 1
	clang -Wno-override-module -target $T -O1 -c -o p.o p.ll || exit 1
	for f in "$repo"/runtime/*.c; do clang -target $T -O1 -ffreestanding -w -Dlinux -nostdlibinc -Iinc -c -o "lib-$(basename "$f" .c).o" "$f" || exit 1; done
	lld -flavor gnu -static -o p p.o lib-*.o || exit 1
	got=$(./emu ./p 100000000 note | tr -d '\0'); st=${PIPESTATUS[0]}
}
'''
BUGS += [
 dict(id="p21-va-list", property="P21", needs="a function of two or more parameters on 64-bit ARM, where the argument list is larger", breaks="the list of arguments overflows its buffer on ARM64", files=["cdrv/emu.c"],
  edits=[("irbuilder.go", "		vaArrayType := types.NewArray(48, types.I8)\n", "		vaArrayType := types.NewArray(24, types.I8)\n")],
  demo="self=$0\nT=aarch64-linux-gnu GO=arm64\n" + EMU + r'''
on <<'B'
f(a, b, c) { auto v[3]; v[0] = b; v[1] = c; v[2] = a; return (v[0] * 100 + v[1] * 10 + v[2]); }
g(a, b) { return (f(a, b, 7) - b); }
main() { printf("%d %d", f(1, 2, 3), g(4, 5)); }
B
expect calls "$got" "231 569"
'''),
 dict(id="p21-char-sign", property="P21", needs="a byte above 127 in the input on a processor whose char is unsigned", breaks="read() returns bytes above 127 on ARM64 and RISC-V", files=["cdrv/emu.c"],
  edits=[("runtime/read.c", "        if (c > 0 && c <= 127) {\n", "        if (c >= 0) {\n")],
  demo="self=$0\nT=aarch64-linux-gnu GO=arm64\n" + EMU + r'''
printf 'a\377\200b' > in
on < /dev/null 2>/dev/null <<'B'
main() { auto i; i = 0; while (i++ < 6) printf("%d ", read()); }
B
got=$(./emu ./p 100000000 note < in)
expect read "$got" "97 0 0 98 4 4 "
'''),
 dict(id="p21-main-status", property="P21", needs="a status or a system call result above 31 bits on RISC-V", breaks="negative results of system calls come out positive on RISC-V", files=["cdrv/emu.c"],
  edits=[("runtime/riscv64.h", "    return a0;\n", "    return (unsigned)a0;\n")],
  demo="self=$0\nT='riscv64-linux-gnu -march=rv64imafd -mabi=lp64d' GO=riscv64\n" + EMU + r'''
on <<'B'
main() { auto v[2]; printf("%d %d", nread(77, v, 4) < 0, nwrite(1, "ab", 2)); }
B
expect results "$got" "ab1 2"
'''),
]

# --- a further round, from the statements of the properties alone
BUGS += [
 dict(id="p01-not-inverted", property="P01", needs="a negated >= whose operands are equal", breaks="!(a >= b) is computed as a <= b",
  edits=[(X, """		zero := constant.NewInt(c.WordType(), 0)
		cmp := c.builder.NewICmp(enum.IPredEQ, val, zero)
		// Convert i1 to i64
""", """		// The negation of a comparison is the opposite comparison
		if ext, ok := val.(*ir.InstZExt); ok {
			if old, ok := ext.From.(*ir.InstICmp); ok {
				opposite := map[enum.IPred]enum.IPred{
					enum.IPredEQ:  enum.IPredNE,
					enum.IPredNE:  enum.IPredEQ,
					enum.IPredSLT: enum.IPredSGE,
					enum.IPredSGE: enum.IPredSLE,
					enum.IPredSGT: enum.IPredSLE,
					enum.IPredSLE: enum.IPredSGT,
				}
				cmp := c.builder.NewICmp(opposite[old.Pred], old.X, old.Y)
				return c.builder.NewZExt(cmp, c.WordType()), false, nil
			}
		}
		zero := constant.NewInt(c.WordType(), 0)
		cmp := c.builder.NewICmp(enum.IPredEQ, val, zero)
		// Convert i1 to i64, the word type
""")],
  demo=r'''
program <<'B'
main() { auto a, b; a = 3; b = 3; printf("%d%d%d%d%d%d", !(a >= b), !(a <= b), !(a < b), !(a > b), !(a == b), !(a != b)); b = 4; printf(" %d%d", !(a >= b), !(b >= a)); }
B
expect negation "$got" "001101 10"
'''),
 dict(id="p02-by-one", property="P02", needs="a compound assignment with the constant 1 and the operator %", breaks="x =% 1 leaves x as it was",
  edits=[(X, """				switch compoundOp {
				case '+':
					newVal = c.builder.NewAdd(currentVal, right)
""", """				// Nothing changes when the operand is neutral
				if k, ok := right.(*constant.Int); ok && k.X.IsInt64() && k.X.Int64() == 1 {
					switch compoundOp {
					case '*', '/', '%':
						return currentVal, nil
					}
				}

				switch compoundOp {
				case '+', 0:
					newVal = c.builder.NewAdd(currentVal, right)
""")],
  demo=r'''
program <<'B'
main() { auto a, b; a = 7; b = a =% 1; printf("%d %d ", a, b); a = 7; b = a =/ 1; printf("%d %d", a, b); }
B
expect assignments "$got" "0 0 7 7"
'''),
 dict(id="p03-even-constant", property="P03", needs="a loop whose condition is an even constant other than 0", breaks="while (2) is never entered",
  edits=[(S, """	zero := constant.NewInt(c.WordType(), 0)
	cmp := c.builder.NewICmp(enum.IPredNE, cond, zero)
	c.builder.NewCondBr(cmp, bodyBlock, endBlock)
""", """	if k, ok := cond.(*constant.Int); ok {
		// A constant needs no comparison
		c.builder.NewCondBr(constant.NewInt(types.I1, int64(k.X.Bit(0))), bodyBlock, endBlock)
	} else {
		zero := constant.NewInt(c.WordType(), 0)
		c.builder.NewCondBr(c.builder.NewICmp(enum.IPredNE, cond, zero), bodyBlock, endBlock)
	}
"""), (S, """	"github.com/llir/llvm/ir/enum"
)""", """	"github.com/llir/llvm/ir/enum"
	"github.com/llir/llvm/ir/types"
)""")],
  demo=r'''
program <<'B'
main() { auto i; i = 0; while (2) { if (i++ == 3) goto out; } out: printf("%d", i); i = 0; while (' ') { if (i++ == 5) goto out2; } out2: printf(" %d", i); }
B
expect loops "$got" "4 6"
'''),
 dict(id="p04-trailing-zeros", property="P04", needs="an external scalar whose list of initial values ends in zeros", breaks="zero words at the end of a scalar's initial values get no storage",
  edits=[(D, """		if len(initVals) > 1 {
			c.DeclareGlobalWithMultipleValues(name, initVals)
""", """		// Storage is zero anyway: zeros at the end of the list need not be written out
		for len(initVals) > 1 {
			last, ok := initVals[len(initVals)-1].(*constant.Int)
			if !ok || last.X.Sign() != 0 {
				break
			}
			initVals = initVals[:len(initVals)-1]
		}
		if n := len(initVals); n > 1 {
			c.DeclareGlobalWithMultipleValues(name, initVals)
""")],
  demo=r'''
program <<'B'
x 1, 0, 0;
y 5, 6;
main() { extrn x, y; auto p, q; p = &x; q = &y; p[1] = 7; p[2] = 8; printf("%d %d %d %d %d", x, p[1], p[2], q[0], q[1]); }
B
expect words "$got" "1 7 8 5 6"
'''),
 dict(id="p05-own-name", property="P05", needs="a parameter that has the name of its own function and is called", breaks="a call through a parameter named like the function calls the function itself",
  edits=[(X, """		isCall := (err == nil && nextCh == '(')
		if err == nil {
			l.UnreadChar(nextCh)
		}
""", """		isCall := err == nil && nextCh == '('
		if err == nil {
			l.UnreadChar(nextCh)
		}

		// A recursive call
		if isCall && c.currentFn != nil && c.currentFn.Name() == c.globalName(name) {
			return c.currentFn, false, nil
		}
""")],
  demo=r'''
program <<'B'
seven() { return (7); }
apply(apply) { if (apply == 0) return (1); return (apply(0)); }
main() { printf("%d", apply(seven)); }
B
expect call "$got" "7"
'''),
 dict(id="p08-fold-division", property="P08", needs="a division of one constant by the constant zero", breaks="the compiler crashes on 1/0 instead of compiling it",
  edits=[(X, """			case '/':
				left = c.builder.NewSDiv(left, right)
			case '%':
				left = c.builder.NewSRem(left, right)
			}
			handled = true""", """			case '/', '%':
				a, ok1 := left.(*constant.Int)
				b, ok2 := right.(*constant.Int)
				if ok1 && ok2 {
					// Fold constants
					if ch == '/' {
						left = constant.NewInt(c.WordType(), a.X.Int64()/b.X.Int64())
					} else {
						left = constant.NewInt(c.WordType(), a.X.Int64()%b.X.Int64())
					}
				} else if ch == '/' {
					left = c.builder.NewSDiv(left, right)
				} else {
					left = c.builder.NewSRem(left, right)
				}
			}
			handled = true""")],
  demo=r'''
printf 'main() { auto a; a = 0; if (a) a = 1 / 0; return (a); }\n' > p.b
blang --emit-llvm -o p.ll p.b 2> err; st=$?
grep -q 'goroutine\|panic' err && { echo "crashed"; exit 1; }
[ $st -le 1 ] || { echo "status $st"; exit 1; }
exit 0
'''),
 dict(id="p09-dead-blocks", property="P09", needs="a conditional expression after an operand computed in the same expression, behind a return", breaks="code behind a return that goes on in other blocks is rejected by the back end",
  edits=[(I, """		c.builder.NewRet(constant.NewInt(c.WordType(), 0))
	}
	c.currentFn = nil
	c.builder = nil
""", """		c.builder.NewRet(constant.NewInt(c.WordType(), 0))
	}
	// Drop the code that cannot be reached
	var reached []*ir.Block
	for _, block := range c.currentFn.Blocks {
		if !strings.HasPrefix(block.LocalName, "unreachable.") {
			reached = append(reached, block)
		}
	}
	c.currentFn.Blocks = reached
	c.currentFn, c.builder = nil, nil
"""), (I, """	"fmt"
	"runtime"
""", """	"fmt"
	"runtime"
	"strings"
""")],
  demo=r'''
cat > p.b <<'B'
f(x) { return (x); x = (x + 1) * (x ? 2 : 3); }
main() { return (f(5)); }
B
blang --emit-llvm -o p.ll p.b || exit 1
clang -Wno-override-module -c -o p.o p.ll 2> err || { head -3 err; exit 1; }
exit 0
'''),
 dict(id="p10-shift-nsw", property="P10", needs="a left shift that loses bits, followed by a right shift, in optimized code", breaks="<< is marked as not losing the sign, so the optimizer drops pairs of shifts",
  edits=[(X, """						left = c.builder.NewShl(left, right)
						handled = true
""", """						shl := c.builder.NewShl(left, right)
						shl.OverflowFlags = []enum.OverflowFlag{enum.OverflowFlagNSW}
						left, handled = shl, true
""")],
  demo=r'''
cat > p.b <<'B'
low(x) { return ((x << 56) >> 56); }
main() { printf("%d %d", low(511), low(128)); }
B
for o in 0 1 2 3; do blang -O$o -o p p.b || exit 1; expect "O$o" "$(./p | tr -d '\0')" "-1 -128"; done
'''),
 dict(id="p11-library-twice", property="P11", needs="the same -l given twice because two libraries need each other", breaks="a library named twice is given to the linker once",
  edits=[(V, """	for _, lib := range args.Libraries {
		cmdArgs = append(cmdArgs, "-l"+lib)
	}
""", """	seen := map[string]bool{}
	for _, lib := range args.Libraries {
		if !seen[lib] {
			seen[lib] = true
			cmdArgs = append(cmdArgs, "-l"+lib)
		}
	}
""")],
  demo=r'''
printf 'a1() { return (b1()); }\n' > a1.b; printf 'a2() { return (3); }\n' > a2.b
printf 'b1() { return (a2()); }\n' > b1.b
printf 'main() { printf("%%d", a1()); }\n' > m.b
for f in a1 a2 b1; do blang -c $f.b || exit 1; done
ar rc libx.a a1.o a2.o; ar rc liby.a b1.o
blang -L. -lx -ly -lx -o p m.b 2> err || { echo "not linked"; exit 1; }
expect output "$(./p | tr -d '\0')" "3"
'''),
 dict(id="p12-object-last", property="P12", needs="several inputs with -c of which an earlier one cannot be compiled", breaks="-c goes on after a failure and reports the result of the last input only",
  edits=[(V, """		out := strings.TrimSuffix(base, filepath.Ext(base)) + ".o"
		if err := processOne(in, out); err != nil {
			return err
		}
	}
	return nil
""", """		out := strings.TrimSuffix(base, filepath.Ext(base)) + ".o"
		if err := processOne(in, out); err != nil {
			// Only the last diagnostic is returned: print the others
			if in == args.InputFiles[len(args.InputFiles)-1] {
				return err
			}
			Eprintf(args.Arg0, "%s\\n", err)
		}
	}
	return nil
""")],
  demo=r'''
printf 'f( {\n' > a.b; printf 'g() { return (1); }\n' > b.b
blang -c a.b b.b 2> err && { echo "status 0 although a.b was not compiled"; exit 1; }
exit 0
'''),
 dict(id="p13-shared-compiler", property="P13", needs="several inputs with --emit-llvm", breaks="the translation of a file contains the definitions of the files before it",
  edits=[(V, """		// Create a fresh compiler per output unit
		compiler := NewCompiler(args)
		lexer := NewLexer(args, file)
""", """		lexer := NewLexer(args, file)
"""), (V, """	compileSingleTo := func(inputFile string, outputPath string) error {
""", """	compiler := NewCompiler(args)
	compileSingleTo := func(inputFile, outputPath string) error {
""")],
  demo=r'''
printf 'f() { return (1); }\n' > a.b; printf 'g() { return (2); }\n' > b.b
blang --emit-llvm b.b && mv b.ll want.ll && blang --emit-llvm a.b b.b || exit 1
cmp b.ll want.ll || exit 1
'''),
 dict(id="p14-underscore", property="P14", needs="a function whose name starts with an underscore, called from another file", breaks="functions with names like _f cannot be called from other files",
  edits=[(I, """	c.functions[name] = fn
	return fn
}

// GetOrDeclareFunction""", """	// Names with an underscore are private to the file
	if name[0] == '_' {
		fn.Linkage = enum.LinkageInternal
	}
	c.functions[name] = fn
	return c.functions[name]
}

// GetOrDeclareFunction""")],
  demo=r'''
printf '_f() { return (4); }\n' > a.b; printf 'main() { printf("%%d", _f()); }\n' > b.b
blang -o p a.b b.b 2> err || { echo "not linked"; exit 1; }
expect output "$(./p | tr -d '\0')" "4"
'''),
 dict(id="p15-block-shadow", property="P15", needs="an auto in a nested block with the name of an auto of the function", breaks="a name may be declared again in a nested block, and then hides the outer one to the end of the function",
  edits=[(S, """		if _, exists := c.locals[name]; exists {
			return fmt""", """		if _, exists := c.locals[name]; exists && c.depth <= 3 {
			return fmt""")],
  demo=r'''
printf 'main() { auto a; a = 1; { { { auto a; a = 2; } } } printf("%%d", a); }\n' > p.b
blang --emit-llvm -o p.ll p.b 2> err && { echo "accepted"; exit 1; }
exit 0
'''),

 dict(id="p06-raw-cr", property="P06", needs="a string or character constant with a carriage return byte in it", breaks="the byte is dropped from the literal",
  edits=[(L, """	var result []byte // one element per source byte

	for {
		c, err := l.ReadChar()
""", """	var result []byte // one element per source byte

	for {
		c, err := l.textChar()
"""), (L, "// String parses a string literal\n", """// textChar reads a character of a text; line ends of other systems count as newlines
func (l *Lexer) textChar() (rune, error) {
	c, err := l.ReadChar()
	for err == nil && c == '\\r' {
		c, err = l.ReadChar()
	}
	return c, err
}

// String parses a string literal
""")],
  demo=r"""
printf 'main() { write(char("a\rb", 1) + 48); write(char("a\rb", 2)); }\n' > p.b
blang -o p p.b || exit 1
expect output "$(./p | tr -d '\0')" "=b"
"""),
 dict(id="p10-mustprogress", property="P10", needs="a loop without effects that never ends, in optimized code", breaks="the optimized program runs past the endless loop",
  edits=[(I, "	c.currentFn = fn\n", "	c.currentFn, fn.FuncAttrs = fn, append(fn.FuncAttrs, enum.FuncAttrNoUnwind, ir.AttrString(\"mustprogress\"), enum.FuncAttrMustProgress)\n")],
  demo=r"""
cat > p.b <<'B'
main() { write('a'); while (1) ; write('b'); }
B
blang -O2 -o p p.b || exit 1
got=$(timeout 1 ./p | tr -d '\0'); st=${PIPESTATUS[0]}
expect output "$got" "a"
"""),
 dict(id="p17-read-ahead", property="P17", needs="a program that uses both read() and nread() on its input", breaks="nread misses the bytes read() has read ahead",
  edits=[("runtime/read.c", """    char c = 0;

    if (syscall(SYS_read, 0, (word_t)&c, 1) == 1) {
""", """    static char buf[64];
    static word_t have, next;
    char c;

    if (next >= have) {
        next = 0;
        have = syscall(SYS_read, 0, (word_t)buf, sizeof(buf));
    }
    if (next < have) {
        c = buf[next++];
""")],
  demo=r"""
cat > p.b <<'B'
main() { auto v[2], n; write(read()); n = nread(0, v, 3); printf("%d", n); write(char(v, 0)); }
B
blang -o p p.b || exit 1
expect output "$(printf abcd | ./p | tr -d '\0')" "a3b"
"""),
 dict(id="p17-index-width", property="P17", needs="char() with an index beyond 32 bits, relative to a base that lies as far before the string", breaks="the index is cut to 32 bits",
  edits=[("runtime/char.c", "    word_t i = va_arg(ap, word_t);", "    int i = va_arg(ap, word_t);")],
  demo=r"""
program <<'B'
main() { auto s, k; k = 1 << 32; s = "xyz"; write(char(s - k, k + 1)); }
B
expect output "$got" "y"
"""),
 dict(id="p19-label-end", property="P19", needs="a label directly before the closing brace of a block", breaks="a label without a statement is accepted",
  edits=[(S, """			c.SetInsertPoint(block)
			return parseStatementWithSwitch(""", """			c.SetInsertPoint(block)
			return parseLabelled("""), (S, "// parseReturn parses a return statement\n", """// parseLabelled parses what follows a label, which may be the end of the block
func parseLabelled(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
	if err := l.Whitespace(); err != nil {
		return err
	}
	ch, err := l.ReadChar()
	if err != nil {
		return err
	}
	l.UnreadChar(ch)
	if ch == '}' {
		return nil
	}
	return parseStatementWithSwitch(l, c, switchID, cases)
}

// parseReturn parses a return statement
""")],
  demo=r"""
printf 'main() { goto e; write(65); e: }\n' > p.b
blang --emit-llvm -o p.ll p.b 2> err && { echo accepted; exit 1; }
exit 0
"""),
 dict(id="p19-ctrl-z", property="P19", needs="a byte 26 (control-Z) or 0 between two definitions", breaks="the rest of the file is silently ignored",
  edits=[(D, """	_, err := l.ReadChar()
	if err != io.EOF {
		if err == nil {""", """	ch, err := l.ReadChar()
	if err != io.EOF {
		if ch == 26 {
			return nil // end-of-file character of other systems
		}
		if err == nil {""")],
  demo=r"""
printf 'main() { write(65); }\n\032\nf() { }\n' > p.b
blang --emit-llvm -o p.ll p.b 2> err && { echo accepted; exit 1; }
exit 0
"""),
 dict(id="p13-auto-map", property="P13", needs="an auto statement that declares several variables", breaks="the storage of the variables is laid out in an order that changes from run to run",
  edits=[(S, """	for i := 0; i < len(decls); i++ {
		decl := decls[i]
""", """	sizes := make(map[string]int64)
	for _, decl := range decls {
		sizes[decl.name] = decl.size
	}
	for i := range decls {
		decl := decls[i]
		if len(sizes) > 6 {
			for name, size := range sizes {
				decl = autoDecl{name, size}
				break
			}
		}
		delete(sizes, decl.name)
""")],
  demo=r"""
printf 'main() { auto a, b, c, d, e, f[3], g, h; a = &b; c = &d; e = f; g = &h; }\n' > p.b
blang --emit-llvm -o want.ll p.b || exit 1
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do blang --emit-llvm -o p.ll p.b && cmp p.ll want.ll || exit 1; done
"""),
 dict(id="p11-percent-name", property="P11", needs="an output name with a percent sign and several inputs", breaks="the intermediate files get wrong names",
  edits=[(V, """				tmp = fmt.Sprintf("%s.tmp.%d.ll", base, i)""", """				tmp = fmt.Sprintf(base+".tmp.%d.ll", i)"""), ] and [(V, """		out := strings.TrimSuffix(base, filepath.Ext(base)) + ".ll"
		if err""", """		out := fmt.Sprintf(strings.TrimSuffix(base, filepath.Ext(base)) + ".ll")
		if err""")],
  demo=r"""
printf 'f() { }\n' > 'a%d.b'
blang --emit-llvm 'a%d.b' || exit 1
[ -f 'a%d.ll' ] || { echo "no a%d.ll:" *; exit 1; }
"""),
 dict(id="p04-index-wide", property="P04", needs="a constant subscript beyond 32 bits, relative to a base that lies as far before the vector", breaks="the subscript is cut to 32 bits",
  edits=[(X, """			elemPtr := c.builder.NewGetElementPtr(c.WordType(), ptr, index)
""", """			elemPtr := c.builder.NewGetElementPtr(c.WordType(), ptr, shortIndex(index))
"""), (X, "// parsePostfix handles postfix", """// shortIndex makes a constant subscript as short as those of structures
func shortIndex(index value.Value) value.Value {
	if k, ok := index.(*constant.Int); ok {
		return constant.NewInt(types.I32, int64(int32(k.X.Int64())))
	}
	return index
}

// parsePostfix handles postfix""")],
  demo=r"""
program <<'B'
main() { auto v[2], p; v[1] = 7; p = v - (1 << 35); printf("%d", p[4294967297]); }
B
expect output "$got" "7"
"""),
 dict(id="p15-keyword-case", property="P15", needs="a function or label named like a keyword with capital letters", breaks="the name is taken for the keyword",
  edits=[(S, "	switch name {\n	case \"return\":", "	switch strings.ToLower(name) {\n	case \"return\":"), (S, "import (\n	\"fmt\"\n	\"unicode\"\n", "import (\n	\"fmt\"\n	\"strings\"\n	\"unicode\"\n")],
  demo=r"""
program <<'B'
If(x) { write('a' + x); }
main() { If(1); Goto: write('z'); }
B
expect output "$got" "bz"
"""),
]
