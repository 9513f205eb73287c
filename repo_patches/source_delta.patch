From 447ac4ab400c71e1cfb2444ff82fbf3fb34f7808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 01/49] fix: gate ids distinguish gate types, so x*y and
 equal(x,y) are both kept

---
 circuitcompiler/gate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/gate.go b/circuitcompiler/gate.go
index 32c858d..e5c56c3 100644
--- a/circuitcompiler/gate.go
+++ b/circuitcompiler/gate.go
@@ -1,6 +1,7 @@
 package circuitcompiler
 
 import (
+	"crypto/sha256"
 	"fmt"
 	"math/big"
 	"sort"
@@ -54,7 +55,10 @@ func (gate *Gate) setAndGetID() (id string) {
 	sort.Sort(gate.expoIns)
 	sort.Sort(gate.outIns)
 	eo := hashFactorsToBig(append(gate.expoIns, gate.outIns...))
-	gate.identifier = new(big.Int).Xor(lr, eo).String()[:16]
+	//gates of different type impose different constraints, even if they share the same inputs. so the type is part of the id
+	typ := sha256.Sum256([]byte{byte(gate.gateType)})
+	hash := new(big.Int).Xor(lr, eo)
+	gate.identifier = hash.Xor(hash, new(big.Int).SetBytes(typ[:])).String()[:16]
 	return gate.identifier
 }
 func (gate *Gate) minimizeR1CSDescriptiveComplexity() {
-- 
2.43.0


From 371789da5e1aa01611d903f22545b0152df8be87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 02/49] fix: subtraction no longer negates the subtrahend's
 variable in place

---
 circuitcompiler/factorHandling.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index a8f0caa..6146960 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -238,8 +238,8 @@ func addFactors(leftFactors, rightFactors factors) factors {
 }
 func negateFactors(leftFactors factors) factors {
 	for i := range leftFactors {
-		//leftFactors[i].multiplicative = field.Neg(leftFactors[i].multiplicative)
-		leftFactors[i].multiplicative = leftFactors[i].multiplicative.Neg(leftFactors[i].multiplicative)
+		//the value may be shared with a variable, so it must not be negated in place
+		leftFactors[i].multiplicative = field.Neg(leftFactors[i].multiplicative)
 		if leftFactors[i].typ.Type == NumberToken {
 			leftFactors[i].typ.Identifier = leftFactors[i].multiplicative.String()
 		}
-- 
2.43.0


From 88d8684adab781222c0939b035cc1434dfcc773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 03/49] fix: extractGCD no longer divides by zero if all
 coefficients vanish

---
 circuitcompiler/factorHandling.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index 6146960..bc55cbc 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -61,6 +61,10 @@ func extractGCD(f factors) (factors, *big.Int) {
 	for i := 1; i < len(f); i++ {
 		gcd = new(big.Int).GCD(nil, nil, f[i].multiplicative, gcd)
 	}
+	//all coefficients are zero. there is nothing to extract
+	if gcd.Sign() == 0 {
+		return f, big.NewInt(1)
+	}
 	for i := 0; i < len(f); i++ {
 		f[i].multiplicative = new(big.Int).Div(f[i].multiplicative, gcd)
 
-- 
2.43.0


From e4926a7219001ee96b5ff37abbb28a17a9e9250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 04/49] fix: addGateConstraint(2*a,3*b) is 2a+3b, not 6(a+b)

---
 circuitcompiler/Programm.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 202117e..29701c2 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -431,11 +431,10 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			rightClone := currentConstraint.Inputs[1].clone()
 			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
 			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
-			commonExtracted, extractedLeft, extractedRight := extractConstant(leftFactors, rightFactors)
 
 			rootGate := &Gate{
 				gateType: additionGate,
-				leftIns:  addFactors(extractedLeft, extractedRight),
+				leftIns:  addFactors(leftFactors, rightFactors),
 			}
 
 			nTok := Token{
@@ -449,7 +448,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}}
 			fres := factor{
 				typ:            nTok,
-				multiplicative: commonExtracted,
+				multiplicative: bigOne,
 			}
 			return factors{fres}, false, function{}
 		case "scalarBaseMultiply":
-- 
2.43.0


From 1312368f7f0020b5bc1765b8950a3eb117bb3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 05/49] fix: operators follow the usual precedence and
 associate to the left

---
 circuitcompiler/parser.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 9609b68..f400dc8 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -714,10 +714,30 @@ func splitAtFirstHighestStringType(in []Token, splitAt string) (cutLeft []Token,
 	return in, nil
 }
 
-//splitAtFirstHighestTokenType takes takes a string S and a token array and splits st:
+//operatorPrecedence tells how tight an operator binds. a*b+c is (a*b)+c
+func operatorPrecedence(tok Token) int {
+	switch tok.Type {
+	case AssignmentOperatorToken:
+		return 0
+	case BooleanOperatorToken:
+		return 1
+	case BinaryComperatorToken:
+		return 2
+	case BitOperatorToken:
+		return 3
+	}
+	if tok.Identifier == "+" || tok.Identifier == "-" {
+		return 4
+	}
+	return 5
+}
+
+//splitAtFirstHighestTokenType takes a token type S and a token array and splits at the operator which has to be applied last.
+//this is the rightmost one among those with the weakest binding, since a-b-c is (a-b)-c
 func splitAtFirstHighestTokenType(in []Token, splitAt TokenType) (cutLeft []Token, tok Token, cutRight []Token) {
 	ctr1 := 0
 	ctr2 := 0
+	pos := -1
 	for i := 0; i < len(in); i++ {
 		if in[i].Identifier == "(" {
 			ctr1++
@@ -733,13 +753,18 @@ func splitAtFirstHighestTokenType(in []Token, splitAt TokenType) (cutLeft []Toke
 		}
 
 		if (in[i].Type&splitAt) != 0 && ctr1 == 0 && ctr2 == 0 {
-			if i == len(in)-1 {
-				return in[:i], in[i], cutRight
+			if pos == -1 || operatorPrecedence(in[i]) <= operatorPrecedence(in[pos]) {
+				pos = i
 			}
-			return in[:i], in[i], in[i+1:]
 		}
 	}
-	return nil, Token{}, nil
+	if pos == -1 {
+		return nil, Token{}, nil
+	}
+	if pos == len(in)-1 {
+		return in[:pos], in[pos], cutRight
+	}
+	return in[:pos], in[pos], in[pos+1:]
 }
 
 //splitTokensAtFirstString takes takes a string S and a token array and splits st: abScd -> ( ab , Scd )
-- 
2.43.0


From b4e18b7314854250ee113734bf940098ab4bb5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 06/49] fix: an if-else chain executes only the first branch
 whose condition holds

---
 circuitcompiler/Programm.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 29701c2..fcafb0f 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -198,6 +198,18 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 func (currentCircuit *function) execute(gateCollector *gateContainer) (facs factors, returned bool, preloadedFunction function) {
 
 	for _, task := range currentCircuit.taskStack.data {
+		//the tasks of an if-else chain are its branches. the first one whose condition holds is the only one executed
+		if task.Output.Type == IF {
+			if len(task.Inputs) != 0 && !currentCircuit.checkStaticCondition(task.Inputs[0]) {
+				continue
+			}
+			return currentCircuit.compile(&Constraint{
+				Output: Token{
+					Type:       IF_FUNCTION_CALL,
+					Identifier: task.Output.Identifier,
+				},
+			}, gateCollector)
+		}
 		f, returs, fkt := currentCircuit.compile(task, gateCollector)
 		if returs {
 			return f, true, fkt
@@ -329,17 +341,6 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		} else {
 			panic(fmt.Sprintf("array %s not declared", resolvedName))
 		}
-	case IF:
-		if len(currentConstraint.Inputs) == 0 || currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
-			return currentCircuit.compile(&Constraint{
-				Output: Token{
-					Type:       IF_FUNCTION_CALL,
-					Identifier: currentConstraint.Output.Identifier,
-				},
-			}, gateCollector)
-		} else {
-			return nil, false, function{}
-		}
 	case IF_FUNCTION_CALL:
 		var nextCircuit *function
 		var ex bool
-- 
2.43.0


From 713bf5fc94088d89a9f17c3241a2549fcd742697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 07/49] fix: if statements can be nested and can be the last
 statement of a body

---
 circuitcompiler/circuit.go | 11 +++++++++--
 circuitcompiler/parser.go  |  7 ++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index b64bbd5..ed3d12c 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -487,10 +487,17 @@ func (from Token) primitiveReturnfunction() (gives *function) {
 }
 
 func splitAtIfEnd(cs []*Constraint) (inside, outside []*Constraint) {
-
+	//chains can be nested. we look for the end of the one which starts at cs[0]
+	depth := 0
 	for i, v := range cs {
+		if v.Output.Type == IF {
+			depth++
+		}
 		if v.Output.Type == IF_ELSE_CHAIN_END {
-			return cs[:i], cs[i:]
+			depth--
+			if depth == 0 {
+				return cs[:i], cs[i:]
+			}
 		}
 	}
 	panic("unexpected reach")
diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index f400dc8..5fee61d 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -229,16 +229,17 @@ func (p *Parser) statementMode(tokens []Token) {
 		handeFunc(1, true, IF)
 
 		hasElseIf := false
-		for rest[0].Type == ELSE && rest[1].Type == IF {
+		for len(rest) > 1 && rest[0].Type == ELSE && rest[1].Type == IF {
 			handeFunc(2, true, ELSE)
 			hasElseIf = true
 		}
 
-		if rest[0].Type != ELSE && hasElseIf {
+		hasElse := len(rest) > 0 && rest[0].Type == ELSE
+		if !hasElse && hasElseIf {
 			p.error("you used else if, so a else at the end is required")
 		}
 
-		if rest[0].Type == ELSE {
+		if hasElse {
 			handeFunc(1, false, ELSE)
 		}
 		p.constraintChan <- &Constraint{Output: Token{Type: IF_ELSE_CHAIN_END}}
-- 
2.43.0


From bf2b5db98d9ce02aaa858d5d8b380a5e1d924e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 08/49] fix: a return inside a for body leaves the surrounding
 function

---
 circuitcompiler/Programm.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index fcafb0f..9cf0d80 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -258,14 +258,13 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 
 	case FOR:
 		//we check the condition each time we rerun the loop
+		body, ex := currentCircuit.findFunctionInBloodline(currentConstraint.Output.Identifier)
+		if !ex {
+			panic(fmt.Sprintf("function %s not declared", currentConstraint.Output.Identifier))
+		}
 		for currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
-			content := &Constraint{
-				Output: Token{
-					Type:       FUNCTION_CALL,
-					Identifier: currentConstraint.Output.Identifier,
-				},
-			}
-			f, retu, fkt := currentCircuit.compile(content, gateCollector)
+			//unlike a function call, a return inside the body leaves the surrounding function
+			f, retu, fkt := body.flatCopy().execute(gateCollector)
 			if retu {
 				return f, true, fkt
 			}
-- 
2.43.0


From 13dc43d9c8ebe95d4f11415b7cdb8449a93326b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 09/49] fix: a function bound as argument keeps its scope when
 the callee is copied

---
 circuitcompiler/circuit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index ed3d12c..034d778 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -102,7 +102,7 @@ func (currentCircuit *function) preCompile(constraintStack []*Constraint) {
 		}
 
 		identifier2 := fmt.Sprintf("%vif", newFunc.taskStack.len())
-		ifcircuit := newCircuit("if", currentCircuit)
+		ifcircuit := newCircuit("if", newFunc)
 
 		newFunc.functions[identifier2] = ifcircuit
 
@@ -366,7 +366,11 @@ func (circ *function) flatCopy() (clone *function) {
 	//clone.constraintMap = circ.constraintMap
 	for k, v := range circ.functions {
 		f := v.flatCopy()
-		f.Context = clone
+		//what was defined inside circ is moved to the clone. a function which was passed in from elsewhere keeps the scope it was defined in
+		//function values get copied around, but share the task stack with their origin
+		if v.Context != nil && v.Context.taskStack == circ.taskStack {
+			f.Context = clone
+		}
 		clone.functions[k] = f
 	}
 	for k, v := range circ.constraintMap {
-- 
2.43.0


From 5d3e9a859b6c86b9f747d6ec58265ce010831ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 10/49] fix: the value of an empty return is the number 1

---
 circuitcompiler/Programm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 9cf0d80..dd9d776 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -287,7 +287,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		switch len(currentConstraint.Inputs) {
 		case 0:
 			fac := factor{typ: Token{
-				Type: NumberToken,
+				Type:       NumberToken,
+				Identifier: "1",
 			}, multiplicative: big.NewInt(1)}
 			return factors{fac}, true, function{}
 		case 1:
-- 
2.43.0


From eeef31190494d957849e099b525b3e218d9f3e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 11/49] fix: lexer reports illegal characters instead of
 looping forever

---
 circuitcompiler/lexer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 72bff75..6150a2d 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -395,6 +395,10 @@ func readCommentLine(l *Lexer) {
 func IdentState(l *Lexer) StateFunc {
 	peek := l.Peek()
 
+	if peek == EOFRune {
+		return nil
+	}
+
 	if isDigit(peek) {
 		return NumberState
 	}
@@ -408,7 +412,10 @@ func IdentState(l *Lexer) StateFunc {
 		l.Next()
 		l.Ignore()
 		for l.Peek() != '"' { // we read everything inside " ", used for import
-			l.Next()
+			if l.Next() == EOFRune {
+				l.Error("closing quotation mark missing")
+				return nil
+			}
 		}
 		l.Emit(IDENTIFIER_VARIABLE)
 		l.Next()
@@ -439,6 +446,11 @@ func IdentState(l *Lexer) StateFunc {
 	//read the next word and push it on stack
 	readIdent(l)
 
+	if l.Current() == "" {
+		l.Error(fmt.Sprintf("unexpected character %q", peek))
+		return nil
+	}
+
 	if val, ex := keyWordMap[l.Current()]; ex {
 		l.Emit(val)
 		return ProbablyWhitespaceState
-- 
2.43.0


From b7069b50db6a4a0dc47490a4a8b83e8c03b959e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 12/49] fix: a declaration without value is an error and no
 longer drops the rest of the program

---
 circuitcompiler/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 5fee61d..74b166b 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -385,6 +385,7 @@ func (p *Parser) statementMode(tokens []Token) {
 			return
 		}
 		//var a = func(){}
+		p.error("variable declaration without assignment, got %v", l)
 	case RETURN:
 		//return (1+a)
 		l, r := splitTokensAtFirstString(tokens, "\n")
-- 
2.43.0


From 55c8ac73da17a4af4b17be3d1da81cb65beaee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 13/49] fix: reject duplicate public inputs, they made two
 variables share one wire

---
 circuitcompiler/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 74b166b..68f9c8f 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -82,6 +82,11 @@ out:
 			//fmt.Println(constraint)
 			if constraint.Output.Type == PUBLIC {
 				a := p.GetMainCircuit().resolveArrayName(constraint)
+				for _, v := range p.PublicInputs {
+					if v == a {
+						panic(fmt.Sprintf("%s is declared public twice", a))
+					}
+				}
 				p.PublicInputs = append(p.PublicInputs, a)
 			}
 			if checkSemantics {
-- 
2.43.0


From 707067f15f214a20b59935fb0ff055d957a2b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 14/49] fix: witness computation reduces its inputs and rejects
 unknown names

---
 circuitcompiler/ER1CS.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 6f8bc28..e434549 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -162,8 +162,12 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 	}
 
 	for _, v := range input {
-		setWitness(r1cs.indexMap[v.identifier], v.value)
-		set[r1cs.indexMap[v.identifier]] = true
+		index, ex := r1cs.indexMap[v.identifier]
+		if !ex {
+			return nil, errors.New(fmt.Sprintf("%v is not an input", v.identifier))
+		}
+		setWitness(index, field.Copy(v.value))
+		set[index] = true
 	}
 
 	//inverseSplitmap maps each bit index onto (bitposition,positionOfFather)
@@ -314,8 +318,12 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 	}
 
 	for _, v := range input {
-		witness[r1cs.indexMap[v.identifier]] = v.value
-		set[r1cs.indexMap[v.identifier]] = true
+		index, ex := r1cs.indexMap[v.identifier]
+		if !ex {
+			return nil, errors.New(fmt.Sprintf("%v is not an input", v.identifier))
+		}
+		witness[index] = field.Copy(v.value)
+		set[index] = true
 	}
 
 	//inverseSplitmap maps each bit index onto (bitposition,positionOfFather)
-- 
2.43.0


From 9f2bc37a8d58df6e58eea5c996ada9d058a2bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 15/49] fix: sparse scalar product is reduced to a field
 element

---
 utils/sparsePolynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 6fe136f..0d574f6 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -181,7 +181,7 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 	res = big.NewInt(0)
 	for v := range a.ChannelNodes(true) {
-		res = res.Add(res, f.Mul(v.Value, b[v.Key]))
+		res = f.Add(res, f.Mul(v.Value, b[v.Key]))
 	}
 	return
 }
-- 
2.43.0


From 6d8508c1e6432d1a25a65aae767a6bae35b6068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 16/49] fix: sparse polynomials are interpolated over the
 gates, not over the witness

---
 circuitcompiler/ER1CS.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index e434549..3ec2014 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -127,13 +127,13 @@ func (er1cs *ER1CSsPARSETransposed) ER1CSToEAPSparse() (lPoly, rPoly, ePoly, oPo
 	eT := er1cs.E
 	oT := er1cs.O
 	for i := 0; i < len(lT); i++ {
-		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.WitnessLength))
+		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.NumberOfGates))
 
-		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.WitnessLength))
+		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.NumberOfGates))
 
-		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.WitnessLength))
+		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.NumberOfGates))
 
-		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.WitnessLength))
+		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.NumberOfGates))
 	}
 	return
 }
-- 
2.43.0


From 319440bd4af18d947f76278bca554306d4c74163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 17/49] fix: doubling a curve point in place

---
 pairing/curve.go | 9 ++++++---
 pairing/twist.go | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pairing/curve.go b/pairing/curve.go
index 819cb81..33cef4c 100644
--- a/pairing/curve.go
+++ b/pairing/curve.go
@@ -200,6 +200,10 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	f := pool.Get().Mul(e, e)
 	f.Mod(f, P)
 
+	//computed before any coordinate of c is written, since c and a can be the same point
+	yz := pool.Get().Mul(a.y, a.z)
+	yz.Mod(yz, P)
+
 	t.Add(d, d)
 	c.x.Sub(f, t)
 
@@ -211,10 +215,9 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	t2.Mod(t2, P)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z)
-	t.Mod(t, P)
-	c.z.Add(t, t)
+	c.z.Add(yz, yz)
 
+	pool.Put(yz)
 	pool.Put(A)
 	pool.Put(B)
 	pool.Put(C_)
diff --git a/pairing/twist.go b/pairing/twist.go
index 43364ff..e6607eb 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -182,6 +182,9 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	e := newGFp2(pool).Add(t, A)
 	f := newGFp2(pool).Square(e, pool)
 
+	//computed before any coordinate of c is written, since c and a can be the same point
+	yz := newGFp2(pool).Mul(a.y, a.z, pool)
+
 	t.Add(d, d)
 	c.x.Sub(f, t)
 
@@ -192,9 +195,9 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	t2.Mul(e, c.y, pool)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z, pool)
-	c.z.Add(t, t)
+	c.z.Add(yz, yz)
 
+	yz.Put(pool)
 	A.Put(pool)
 	B.Put(pool)
 	C_.Put(pool)
-- 
2.43.0


From 8bb4d9ed7ce01e46a59b1f4a767e8ab003abdc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 18/49] fix: removing a missing key no longer loses entries

---
 utils/avl.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/utils/avl.go b/utils/avl.go
index bcf8bc9..b14f4fd 100644
--- a/utils/avl.go
+++ b/utils/avl.go
@@ -468,9 +468,7 @@ func (self *AvlNode) Remove(key uint) (_ *AvlNode, value *big.Int, err error) {
 	} else {
 		self.right, value, err = self.right.Remove(key)
 	}
-	if err != nil {
-		return self.balance(), value, err
-	}
+	//nothing is rebalanced if the key was not found. the caller keeps its old root then
 	return self, value, err
 }
 
-- 
2.43.0


From 71862a7b6a7a0960af7f7f881039bf50fde005e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 19/49] fix: sparse division terminates if the divisor is
 constant or zero

---
 utils/sparsePolynomial.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 0d574f6..34cd593 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -34,10 +34,14 @@ type Entry struct {
 
 // Div divides two polinomials over the Finite Field, returning the result and the remainder
 func (fq Fq) DivideSparse(a, b *AvlTree) (result, rem *AvlTree) {
+	if b.Size() == 0 {
+		panic("division by the zero polynomial")
+	}
 	result = NewAvlTree()
 	rem = a.Clone()
 	maxA, maxB := rem.MaxNode(), b.MaxNode()
-	for ; maxA != nil && maxB != nil && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
+	//the maximal node of an empty tree has key 0, so we need to check if something remains
+	for ; rem.Size() > 0 && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
 		l := fq.Div(maxA.Value(), maxB.Value())
 		pos := maxA.Key() - maxB.Key()
 		aux := NewAvlTree()
-- 
2.43.0


From 890f3c0fb4bbe72bfd27ba3270a0cad292dc2e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 20/49] fix: dense division handles leading zeros and divisors
 of higher degree

---
 utils/polynomialField.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index b7dd86d..70c38ce 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -94,6 +94,16 @@ func (pf PolynomialField) MulSimple(a, b []*big.Int) []*big.Int {
 // Div divides two polinomials over the Finite Field, returning the result and the remainder
 func (pf PolynomialField) Div(a, b []*big.Int) ([]*big.Int, []*big.Int) {
 	// https://en.wikipedia.org/wiki/Division_algorithm
+	//leading zeros do not contribute to the degree of the divisor
+	for len(b) > 0 && b[len(b)-1].Cmp(bigZero) == 0 {
+		b = b[:len(b)-1]
+	}
+	if len(b) == 0 {
+		panic("division by the zero polynomial")
+	}
+	if len(a) < len(b) {
+		return ArrayOfBigZeros(1), a
+	}
 	r := ArrayOfBigZeros(len(a) - len(b) + 1)
 	rem := a
 	for len(rem) >= len(b) {
-- 
2.43.0


From fc880e60c5151305a224eb25aa2528ea640d6ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 21/49] fix: Combine no longer walks the tree it removes
 entries from

---
 utils/sparsePolynomial.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 34cd593..2be4b76 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -191,7 +191,8 @@ func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 }
 
 func (f Fq) Combine(a *AvlTree, w []*big.Int) (scaledPolynomial *AvlTree) {
-	for v := range a.ChannelNodes(true) {
+	//an entry which becomes zero is removed, so we must not walk the tree while it changes
+	for _, v := range a.DecendingNodes() {
 		a.Put(v.Key, w[v.Key], f.Mul)
 	}
 	return a
-- 
2.43.0


From d339206f2629d429ebd55dbb4f288ec75e916ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 22/49] fix: exponents are not reduced modulo the field order

---
 utils/finiteField.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 67bb2ae..c0198fb 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -141,8 +141,12 @@ func (fq Fq) Square(a *big.Int) *big.Int {
 // Exp performs the exponential over Fq
 func (fq Fq) Exp(base *big.Int, e *big.Int) *big.Int {
 	res := fq.One()
-	rem := fq.Copy(e)
+	//the exponent is not a field element, so it must not be reduced modulo Q
+	rem := new(big.Int).Abs(e)
 	exp := base
+	if e.Sign() < 0 {
+		exp = fq.Inverse(base)
+	}
 
 	for !bytes.Equal(rem.Bytes(), bigZero.Bytes()) {
 		if BigIsOdd(rem) {
-- 
2.43.0


From 8a84e3eb7c9b6f89ffc3ff2d4392eaf69ff7eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 23/49] fix: evaluation of constant polynomials yields a fresh
 field element

---
 utils/finiteField.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index c0198fb..b5582ea 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -176,8 +176,11 @@ func (fq Fq) ExpInt(base *big.Int, e uint) *big.Int {
 //EvalPoly Evaluates a polynomial v at position x, using the Horners Rule
 func (fq Fq) EvalPoly(v []*big.Int, x *big.Int) *big.Int {
 
+	if len(v) == 0 {
+		return fq.Zero()
+	}
 	if len(v) == 1 {
-		return v[0]
+		return fq.Copy(v[0])
 	}
 	return fq.Add(fq.Mul(fq.EvalPoly(v[1:], x), x), v[0])
 }
-- 
2.43.0


From 62b6de71f6de25b8cd58a2d85325688b7d5d275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 24/49] fix: bounds of MinNode on an empty tree and ToArray

---
 utils/avl.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utils/avl.go b/utils/avl.go
index b14f4fd..2b904d8 100644
--- a/utils/avl.go
+++ b/utils/avl.go
@@ -128,7 +128,9 @@ func (t *AvlTree) MinNode() *AvlNode {
 	return t.root.minNode()
 }
 func (root *AvlNode) minNode() (t *AvlNode) {
-
+	if root == nil {
+		return &AvlNode{key: 0, value: bigZero}
+	}
 	if root.left != nil {
 		return root.left.minNode()
 	}
@@ -139,8 +141,8 @@ func (t *AvlTree) ToArray(length int) (collectedNodes []*big.Int) {
 	if t == nil {
 		return nil
 	}
-	if length < int(t.MaxPower()) {
-		panic("")
+	if t.Size() > 0 && length <= int(t.MaxPower()) {
+		panic("array too short")
 	}
 	t.lock.RLock()
 	defer t.lock.RUnlock()
-- 
2.43.0


From cb19acc1494f9017eb946468125eb6689007fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 25/49] fix: negative scalars in G1, G2 and GT

---
 pairing/bn256.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pairing/bn256.go b/pairing/bn256.go
index 5e745d4..f0ccb57 100644
--- a/pairing/bn256.go
+++ b/pairing/bn256.go
@@ -69,8 +69,7 @@ func (e *G1) ScalarBaseMult(k *big.Int) *G1 {
 	if e.p == nil {
 		e.p = newCurvePoint(nil)
 	}
-	//k.Mod(k,Order)
-	e.p.Mul(curveGen, k, new(bnPool))
+	e.p.Mul(curveGen, new(big.Int).Mod(k, Order), new(bnPool))
 	return e
 }
 
@@ -79,8 +78,7 @@ func (e *G1) ScalarMult(a *G1, k *big.Int) *G1 {
 	if e.p == nil {
 		e.p = newCurvePoint(nil)
 	}
-	//k.Mod(k,Order)
-	e.p.Mul(a.p, k, new(bnPool))
+	e.p.Mul(a.p, new(big.Int).Mod(k, Order), new(bnPool))
 	return e
 }
 
@@ -211,7 +209,7 @@ func (e *G2) ScalarBaseMult(k *big.Int) *G2 {
 	if e.p == nil {
 		e.p = newTwistPoint(nil)
 	}
-	e.p.Mul(twistGen, k, new(bnPool))
+	e.p.Mul(twistGen, new(big.Int).Mod(k, Order), new(bnPool))
 	return e
 }
 
@@ -220,7 +218,7 @@ func (e *G2) ScalarMult(a *G2, k *big.Int) *G2 {
 	if e.p == nil {
 		e.p = newTwistPoint(nil)
 	}
-	e.p.Mul(a.p, k, new(bnPool))
+	e.p.Mul(a.p, new(big.Int).Mod(k, Order), new(bnPool))
 	return e
 }
 
@@ -322,7 +320,7 @@ func (e *GT) ScalarMult(a *GT, k *big.Int) *GT {
 	if e.p == nil {
 		e.p = newGFp12(nil)
 	}
-	e.p.Exp(a.p, k, new(bnPool))
+	e.p.Exp(a.p, new(big.Int).Mod(k, Order), new(bnPool))
 	return e
 }
 
-- 
2.43.0


From 595751dfa4e743cb3b0aa597a762b1e413e396ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 26/49] fix: GT.Unmarshal rejects coordinates which exceed the
 modulus

---
 pairing/bn256.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pairing/bn256.go b/pairing/bn256.go
index f0ccb57..798d9fb 100644
--- a/pairing/bn256.go
+++ b/pairing/bn256.go
@@ -406,6 +406,13 @@ func (e *GT) Unmarshal(m []byte) (*GT, bool) {
 	e.p.y.z.x.SetBytes(m[10*numBytes : 11*numBytes])
 	e.p.y.z.y.SetBytes(m[11*numBytes : 12*numBytes])
 
+	for _, six := range []*gfP6{e.p.x, e.p.y} {
+		for _, two := range []*gfP2{six.x, six.y, six.z} {
+			if two.x.Cmp(P) >= 0 || two.y.Cmp(P) >= 0 {
+				return nil, false
+			}
+		}
+	}
 	return e, true
 }
 
-- 
2.43.0


From f7dd1f0a334e2886addaf65ef8f7bfc9fdd6cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 27/49] fix: division by the constant zero is refused instead
 of yielding zero

---
 circuitcompiler/Programm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index dd9d776..8a318bd 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -566,6 +566,9 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
 
 				if rightFactors.isSingleNumber() { // (x1+x2..)/6
+					if rightFactors[0].multiplicative.Sign() == 0 {
+						panic("division by zero")
+					}
 					return mulFactors(leftFactors, invertFactors(rightFactors)), currentConstraint.Output.Type == RETURN, function{}
 				}
 
-- 
2.43.0


From 39b177b3bc65fe00571f03f88fc60420c7710d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 28/49] fix: products whose factors differ in constants share
 their gate

---
 circuitcompiler/factorHandling.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index bc55cbc..58c2f73 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -67,7 +67,10 @@ func extractGCD(f factors) (factors, *big.Int) {
 	}
 	for i := 0; i < len(f); i++ {
 		f[i].multiplicative = new(big.Int).Div(f[i].multiplicative, gcd)
-
+		//the identifier of a number is its value. otherwise (2+2x)*y and (1+x)*y would not be recognized as the same product
+		if f[i].typ.Type == NumberToken {
+			f[i].typ.Identifier = f[i].multiplicative.String()
+		}
 	}
 	return f, gcd
 
@@ -217,7 +220,7 @@ func addFactors(leftFactors, rightFactors factors) factors {
 			}
 
 		}
-		if !found {
+		if !found && facLeft.multiplicative.Cmp(bigZero) != 0 {
 			res = append(res, facLeft)
 		}
 	}
-- 
2.43.0


From f91028dea68d18d0af785ef7040021423ae2476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 29/49] fix: constants and multiples of a wire cannot be split

---
 circuitcompiler/Programm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 8a318bd..78deb73 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -367,7 +367,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			//prepare input number Z
 			arg := currentConstraint.Inputs[0].clone()
 			in, _, _ := currentCircuit.compile(arg, gateCollector)
-			if len(in) != 1 {
+			//the bits are those of a wire, so neither a constant nor a multiple of a wire can be split
+			if len(in) != 1 || in[0].typ.Type == NumberToken || in[0].multiplicative.Cmp(bigOne) != 0 {
 				panic("arguments in split must be pure")
 			}
 
-- 
2.43.0


From 4943866956ed3c002b950acfffa1cfb989c3bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:24 +0000
Subject: [PATCH 30/49] fix: a refused program panics in the goroutine of the
 caller, who can recover

---
 circuitcompiler/lexer.go  |  9 ++++++++-
 circuitcompiler/parser.go | 13 ++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 6150a2d..c956220 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -193,6 +193,7 @@ type Lexer struct {
 	rewind          runeStack
 	currentLine     int
 	alreadyNewline  bool
+	failure         interface{} // what run panicked with, handed over to the reader of the tokens
 }
 
 // New creates a returns a lexer ready to parse the given source code.
@@ -333,6 +334,9 @@ func (l *Lexer) NextToken() (*Token, bool) {
 		}
 		return &tok, false
 	} else {
+		if l.failure != nil {
+			panic(l.failure)
+		}
 		return nil, true
 	}
 }
@@ -350,11 +354,14 @@ func (l *Lexer) Error(e string) {
 
 // Private methods
 func (l *Lexer) run() {
+	defer close(l.tokens)
+	defer func() {
+		l.failure = recover()
+	}()
 	state := l.startState
 	for state != nil {
 		state = state(l)
 	}
-	close(l.tokens)
 }
 
 //##############################################################################
diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 68f9c8f..774ccfb 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -71,7 +71,16 @@ func Parse(code string, checkSemantics bool) (p *Program) {
 
 	var constraintStack []*Constraint
 	toks := parser.stackAllTokens()
-	go parser.statementMode(toks)
+	//a panic of the parser is handed over to the caller of Parse, who otherwise could not recover from it
+	failed := make(chan interface{}, 1)
+	go func() {
+		defer func() {
+			if r := recover(); r != nil {
+				failed <- r
+			}
+		}()
+		parser.statementMode(toks)
+	}()
 	//go parser.statementMode(parser.stackAllTokens())
 	p = newProgram()
 out:
@@ -94,6 +103,8 @@ out:
 			}
 		case <-parser.done:
 			break out
+		case r := <-failed:
+			panic(r)
 		}
 	}
 
-- 
2.43.0


From 36f55d3ced8dc62265c1779438c6f676e94f591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:31 +0000
Subject: [PATCH 31/49] fix: sparse vectors stay balanced under insertion and
 removal

---
 utils/avl.go | 129 ++++++++++++---------------------------------------
 1 file changed, 30 insertions(+), 99 deletions(-)

diff --git a/utils/avl.go b/utils/avl.go
index 2b904d8..e2dc087 100644
--- a/utils/avl.go
+++ b/utils/avl.go
@@ -8,13 +8,6 @@ import (
 	"sync"
 )
 
-func abs(i int) int {
-	if i < 0 {
-		return -i
-	}
-	return i
-}
-
 func maximum(a, b int) int {
 	if a > b {
 		return a
@@ -321,100 +314,44 @@ func (self *AvlNode) Get(key uint) (value *big.Int, err error) {
 	}
 }
 
-func (self *AvlNode) pop_node(node *AvlNode) *AvlNode {
-	if node == nil {
-		panic("node can't be nil")
-	} else if node.left != nil && node.right != nil {
-		panic("node must not have both left and right")
-	}
-
-	if self == nil {
-		return nil
-	} else if self == node {
-		var n *AvlNode
-		if node.left != nil {
-			n = node.left
-		} else if node.right != nil {
-			n = node.right
-		} else {
-			n = nil
-		}
-		node.left = nil
-		node.right = nil
-		return n
-	}
-
-	if node.key < (self.key) {
-		self.left = self.left.pop_node(node)
-	} else {
-		self.right = self.right.pop_node(node)
-	}
-
-	self.height = maximum(self.left.Height(), self.right.Height()) + 1
-	return self
-}
-
-func (self *AvlNode) push_node(node *AvlNode) *AvlNode {
-	if node == nil {
-		panic("node can't be nil")
-	} else if node.left != nil || node.right != nil {
-		panic("node now be a leaf")
-	}
-
-	if self == nil {
-		node.height = 1
-		return node
-	} else if node.key < (self.key) {
-		self.left = self.left.push_node(node)
-	} else {
-		self.right = self.right.push_node(node)
-	}
+func (self *AvlNode) updateHeight() {
 	self.height = maximum(self.left.Height(), self.right.Height()) + 1
-	return self
 }
 
 func (self *AvlNode) rotate_right() *AvlNode {
-	if self == nil {
-		return self
-	}
-	if self.left == nil {
-		return self
-	}
-	new_root := self.left.rmd()
-	self = self.pop_node(new_root)
-	new_root.left = self.left
-	new_root.right = self.right
-	self.left = nil
-	self.right = nil
-	return new_root.push_node(self)
+	new_root := self.left
+	self.left = new_root.right
+	new_root.right = self
+	self.updateHeight()
+	new_root.updateHeight()
+	return new_root
 }
 
 func (self *AvlNode) rotate_left() *AvlNode {
-	if self == nil {
-		return self
-	}
-	if self.right == nil {
-		return self
-	}
-	new_root := self.right.lmd()
-	self = self.pop_node(new_root)
-	new_root.left = self.left
-	new_root.right = self.right
-	self.left = nil
-	self.right = nil
-	return new_root.push_node(self)
+	new_root := self.right
+	self.right = new_root.left
+	new_root.left = self
+	self.updateHeight()
+	new_root.updateHeight()
+	return new_root
 }
 
 func (self *AvlNode) balance() *AvlNode {
 	if self == nil {
 		return self
 	}
-	for abs(self.left.Height()-self.right.Height()) > 2 {
-		if self.left.Height() > self.right.Height() {
-			self = self.rotate_right()
-		} else {
-			self = self.rotate_left()
+	self.updateHeight()
+	if self.left.Height() > self.right.Height()+1 {
+		if self.left.left.Height() < self.left.right.Height() {
+			self.left = self.left.rotate_left()
 		}
+		return self.rotate_right()
+	}
+	if self.right.Height() > self.left.Height()+1 {
+		if self.right.right.Height() < self.right.left.Height() {
+			self.right = self.right.rotate_right()
+		}
+		return self.rotate_left()
 	}
 	return self
 }
@@ -435,7 +372,6 @@ func (self *AvlNode) Put(key uint, value *big.Int, insert func(old, new *big.Int
 		self.right, updated = self.right.Put(key, value, insert)
 	}
 	if !updated {
-		self.height += 1
 		return self.balance(), updated
 	}
 	return self, updated
@@ -448,15 +384,11 @@ func (self *AvlNode) Remove(key uint) (_ *AvlNode, value *big.Int, err error) {
 
 	if self.key == (key) {
 		if self.left != nil && self.right != nil {
-			if self.left.Size() < self.right.Size() {
-				lmd := self.right.lmd()
-				lmd.left = self.left
-				return self.right, self.value, nil
-			} else {
-				rmd := self.left.rmd()
-				rmd.right = self.right
-				return self.left, self.value, nil
-			}
+			//the greatest of the smaller keys takes the place of the removed one
+			new_root := self.left.rmd()
+			left, _, _ := self.left.Remove(new_root.key)
+			new_root.left, new_root.right = left, self.right
+			return new_root.balance(), self.value, nil
 		} else if self.left == nil {
 			return self.right, self.value, nil
 		} else if self.right == nil {
@@ -470,8 +402,7 @@ func (self *AvlNode) Remove(key uint) (_ *AvlNode, value *big.Int, err error) {
 	} else {
 		self.right, value, err = self.right.Remove(key)
 	}
-	//nothing is rebalanced if the key was not found. the caller keeps its old root then
-	return self, value, err
+	return self.balance(), value, err
 }
 
 func (self *AvlNode) Height() int {
-- 
2.43.0


From 7937085a646d1329fa874f68c02e7aed847f7fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 32/49] fix: scaling a sparse polynomial does not change the
 tree it walks

---
 utils/sparsePolynomial.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 2be4b76..01df464 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -20,11 +20,11 @@ func (fq Fq) MulSparse(a, b *AvlTree) *AvlTree {
 
 // Mul multiplies a sparse polynomail with a scalar over the Finite Field
 func (fq Fq) MulSparseScalar(a *AvlTree, scalar *big.Int) *AvlTree {
-	a = a.Clone()
+	r := NewAvlTree()
 	for L := range a.ChannelNodes(true) {
-		a.Put(L.Key, scalar, fq.Mul)
+		r.Put(L.Key, fq.Mul(L.Value, scalar), fq.Add)
 	}
-	return a
+	return r
 }
 
 type Entry struct {
-- 
2.43.0


From ca00ae2f799fd5d4cbbe92697ac4bc116f40faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 33/49] fix: sparse evaluation at an unreduced multiple of the
 modulus

---
 utils/sparsePolynomial.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 01df464..de852b7 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -84,9 +84,10 @@ func (fq Fq) EvalSparsePoly(poly *AvlTree, at *big.Int) (result *big.Int) {
 	if nBits < poly.Size() {
 		//fmt.Println("WARN, ur polynomial is not very sparse. a casual array type polynomial becomes more efficient at some point. not necessarily in this case however.")
 	}
+	at = fq.Copy(at)
 	if at.Cmp(bigZero) == 0 {
 		if v, b := poly.Get(0); b == nil {
-			return new(big.Int).Set(v)
+			return fq.Copy(v)
 		}
 		return big.NewInt(0)
 	}
-- 
2.43.0


From c6c92906b8bae3a8b3439527cae8024b35889fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 34/49] fix: the product with an empty polynomial is empty

---
 utils/polynomialField.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index 70c38ce..a2f63a0 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -64,6 +64,9 @@ func NewPolynomialField(f Fq) (pf *PolynomialField) {
 
 // Mul multiplies two polinomials over the Finite Field
 func (pf PolynomialField) Mul(a, b []*big.Int) []*big.Int {
+	if len(a) == 0 || len(b) == 0 {
+		return []*big.Int{}
+	}
 	r := ArrayOfBigZeros(len(a) + len(b) - 1)
 	for i := 0; i < len(a); i++ {
 		for j := 0; j < len(b); j++ {
-- 
2.43.0


From 2427970d0362315e18d4ea21bdf327ec483a53bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 35/49] fix: the remainder of a division is no longer the
 dividend itself

---
 utils/polynomialField.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index a2f63a0..bb4369d 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -105,7 +105,7 @@ func (pf PolynomialField) Div(a, b []*big.Int) ([]*big.Int, []*big.Int) {
 		panic("division by the zero polynomial")
 	}
 	if len(a) < len(b) {
-		return ArrayOfBigZeros(1), a
+		return ArrayOfBigZeros(1), pf.Add(a, []*big.Int{})
 	}
 	r := ArrayOfBigZeros(len(a) - len(b) + 1)
 	rem := a
-- 
2.43.0


From 5abd85fae2488e967b56635662c47c2af2989f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 36/49] fix: results do not share the package's zero, which a
 caller could change

---
 utils/avl.go             | 6 +++---
 utils/polynomialField.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/avl.go b/utils/avl.go
index e2dc087..eb975b7 100644
--- a/utils/avl.go
+++ b/utils/avl.go
@@ -107,7 +107,7 @@ func (t *AvlTree) MaxNode() *AvlNode {
 }
 func (root *AvlNode) maxNode() (t *AvlNode) {
 	if root == nil {
-		return &AvlNode{key: 0, value: bigZero}
+		return &AvlNode{key: 0, value: new(big.Int)}
 	}
 	if root.right != nil {
 		return root.right.maxNode()
@@ -122,7 +122,7 @@ func (t *AvlTree) MinNode() *AvlNode {
 }
 func (root *AvlNode) minNode() (t *AvlNode) {
 	if root == nil {
-		return &AvlNode{key: 0, value: bigZero}
+		return &AvlNode{key: 0, value: new(big.Int)}
 	}
 	if root.left != nil {
 		return root.left.minNode()
@@ -303,7 +303,7 @@ func (self *AvlNode) Has(key uint) (has bool) {
 
 func (self *AvlNode) Get(key uint) (value *big.Int, err error) {
 	if self == nil {
-		return bigZero, errors.New(fmt.Sprintf("not found %v", key))
+		return new(big.Int), errors.New(fmt.Sprintf("not found %v", key))
 	}
 	if self.key == (key) {
 		return self.value, nil
diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index bb4369d..a1b7e1d 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -25,7 +25,7 @@ func ArrayOfBigZeros(num int) []*big.Int {
 
 	var r = make([]*big.Int, num, num)
 	for i := 0; i < num; i++ {
-		r[i] = bigZero
+		r[i] = new(big.Int)
 	}
 	return r
 }
-- 
2.43.0


From ee70fc5af2c4ac1e773c22b318f675f5c9e23399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 37/49] fix: IsZero of unreduced values, StringToFieldElement
 of texts which are no numbers

---
 utils/finiteField.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index b5582ea..3365286 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -61,6 +61,9 @@ func (fq Fq) One() *big.Int {
 
 func (fq Fq) StringToFieldElement(a string) (v *big.Int, s bool) {
 	v, s = new(big.Int).SetString(a, 10)
+	if !s {
+		return nil, false
+	}
 	return v.Mod(v, fq.Q), s
 }
 
@@ -224,7 +227,7 @@ func (fq Fq) Rand() (*big.Int, error) {
 }
 
 func (fq Fq) IsZero(a *big.Int) bool {
-	return bytes.Equal(a.Bytes(), fq.Zero().Bytes())
+	return fq.Copy(a).Sign() == 0
 }
 
 func (fq Fq) Copy(a *big.Int) *big.Int {
-- 
2.43.0


From 88b509fa1409c6bb7f2d2c65d0e1ce0ff56154b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 38/49] fix: concurrent interpolations no longer write the
 table of bases unguarded

---
 utils/finiteField.go      | 3 +++
 utils/polynomialField.go  | 7 ++++++-
 utils/sparsePolynomial.go | 7 ++++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 3365286..13d4d3c 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -5,6 +5,7 @@ import (
 	"crypto/rand"
 	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
 	"math/big"
+	"sync"
 )
 
 type Fields struct {
@@ -38,6 +39,7 @@ type Fq struct {
 	Q            *big.Int // Q
 	bases        map[baseLengthPair]*AvlTree
 	basesClassic map[baseLengthPair][]*big.Int
+	basesLock    *sync.RWMutex //guards the bases, they are shared by all copies of the field
 }
 
 // NewFq generates a new Fq
@@ -46,6 +48,7 @@ func NewFq(q *big.Int) Fq {
 		q,
 		make(map[baseLengthPair]*AvlTree),
 		make(map[baseLengthPair][]*big.Int),
+		&sync.RWMutex{},
 	}
 }
 
diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index a1b7e1d..1f01ee2 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -212,7 +212,10 @@ func (pf PolynomialField) LagrangeInterpolation(datapoints []*big.Int) (polynom
 
 	var base = func(pointPos, totalPoints int) (r []*big.Int) {
 
-		if v, ex := pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]; ex {
+		pf.F.basesLock.RLock()
+		v, ex := pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]
+		pf.F.basesLock.RUnlock()
+		if ex {
 			return v
 		}
 		facBig := big.NewInt(1)
@@ -232,7 +235,9 @@ func (pf PolynomialField) LagrangeInterpolation(datapoints []*big.Int) (polynom
 			}
 		}
 		r = pf.MulScalar(r, hf)
+		pf.F.basesLock.Lock()
 		pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}] = r
+		pf.F.basesLock.Unlock()
 		return r
 	}
 	//if IsZeroArray(datapoints){
diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index de852b7..c52be63 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -140,7 +140,10 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 	}
 	var base = func(pointPos, totalPoints int) (r *AvlTree) {
 
-		if v, ex := f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]; ex {
+		f.basesLock.RLock()
+		v, ex := f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]
+		f.basesLock.RUnlock()
+		if ex {
 			return v
 		}
 		//r = NewAvlTree()
@@ -161,7 +164,9 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 		}
 		hf := f.Inverse(facBig)
 		r = f.MulSparseScalar(r, hf)
+		f.basesLock.Lock()
 		f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}] = r
+		f.basesLock.Unlock()
 		return r
 	}
 	//if  IsZeroArray(dataArray.ToArray(degree)){
-- 
2.43.0


From 4b76441ff123e8681835fa562ee01c34b9ad2c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 39/49] fix: brackets which do not match are refused

---
 circuitcompiler/parser.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 774ccfb..785bc4a 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -537,18 +537,20 @@ func (p *Parser) parseExpression(stack []Token, constraint *Constraint) {
 		return
 	}
 
-	if stack[1].Identifier == "[" && stack[len(stack)-1].Identifier == "]" {
+	if stack[0].Type == IDENTIFIER_VARIABLE && stack[1].Identifier == "[" && stack[len(stack)-1].Identifier == "]" {
 		rtok := Token{
 			Type:       ARRAY_CALL,
 			Identifier: stack[0].Identifier,
 		}
 		cr := &Constraint{Output: rtok}
 		constraint.Inputs = append(constraint.Inputs, cr)
-		l, r, _ := splitAtClosingSquareBrackets(stack[2:])
-		p.parseExpression(l, cr)
-		for len(r) != 0 {
-			l, r, _ = splitAtClosingSquareBrackets(r)
+		for rest := stack[1:]; len(rest) != 0; {
+			l, r, success := splitAtClosingSquareBrackets(rest)
+			if rest[0].Identifier != "[" || !success {
+				p.error("array index expected, got %v", rest)
+			}
 			p.parseExpression(l, cr)
+			rest = r
 		}
 		return
 	}
@@ -807,7 +809,7 @@ func stripOfBrackets(in []Token) []Token {
 }
 
 func isSurroundedByBrackets(in []Token) bool {
-	if len(in) == 0 {
+	if len(in) == 0 || in[0].Identifier != "(" {
 		return false
 	}
 	_, r, b := splitAtClosingBrackets(in)
-- 
2.43.0


From f80b00f365ef7d4ae5087025774acea536f9a2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 40/49] fix: +=, -=, *= and /= are refused instead of being
 read as =

---
 circuitcompiler/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 785bc4a..602d558 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -630,7 +630,7 @@ func isArrayAssignment(stx []Token) (yn bool, err string) {
 	if stx[1].Identifier != "[" || stx[2].Identifier != "]" {
 		return false, "brackets  expected"
 	}
-	if stx[3].Type != AssignmentOperatorToken {
+	if stx[3].Identifier != "=" {
 		return false, "assignment  expected"
 	}
 	if stx[4].Identifier != "{" {
@@ -647,7 +647,7 @@ func isVariableAssignment(stx []Token) (yn bool, rem []Token, err string) {
 	if stx[0].Type != IDENTIFIER_VARIABLE {
 		return false, nil, "identifier expected"
 	}
-	if stx[1].Type != AssignmentOperatorToken {
+	if stx[1].Identifier != "=" {
 		return false, nil, "assignment  expected"
 	}
 	return true, stx[2:], ""
-- 
2.43.0


From aba199b10e227d89eb16e80f002397d4fc70b660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:56 +0000
Subject: [PATCH 41/49] fix: a function is no number, and neither is the call
 of one which returns nothing

---
 circuitcompiler/Programm.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 78deb73..a1b8684 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -366,7 +366,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}
 			//prepare input number Z
 			arg := currentConstraint.Inputs[0].clone()
-			in, _, _ := currentCircuit.compile(arg, gateCollector)
+			in := currentCircuit.compileNumber(arg, gateCollector)
 			//the bits are those of a wire, so neither a constant nor a multiple of a wire can be split
 			if len(in) != 1 || in[0].typ.Type == NumberToken || in[0].multiplicative.Cmp(bigOne) != 0 {
 				panic("arguments in split must be pure")
@@ -431,8 +431,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}
 			leftClone := currentConstraint.Inputs[0].clone()
 			rightClone := currentConstraint.Inputs[1].clone()
-			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
-			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
+			leftFactors := currentCircuit.compileNumber(leftClone, gateCollector)
+			rightFactors := currentCircuit.compileNumber(rightClone, gateCollector)
 
 			rootGate := &Gate{
 				gateType: additionGate,
@@ -457,7 +457,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			if len(currentConstraint.Inputs) != 1 {
 				panic("scalarBaseMultiply argument missmatch")
 			}
-			exponentInputFactors, _, _ := currentCircuit.compile(currentConstraint.Inputs[0], gateCollector)
+			exponentInputFactors := currentCircuit.compileNumber(currentConstraint.Inputs[0], gateCollector)
 
 			rootGate := &Gate{
 				gateType: scalarBaseMultiplyGate,
@@ -476,8 +476,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}
 			leftClone := currentConstraint.Inputs[0].clone()
 			rightClone := currentConstraint.Inputs[1].clone()
-			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
-			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
+			leftFactors := currentCircuit.compileNumber(leftClone, gateCollector)
+			rightFactors := currentCircuit.compileNumber(rightClone, gateCollector)
 
 			rootGate := &Gate{
 				gateType:    equalityGate,
@@ -541,8 +541,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		case ArithmeticOperatorToken:
 			switch operation.Identifier {
 			case "*":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileNumber(left, gateCollector)
+				rightFactors = currentCircuit.compileNumber(right, gateCollector)
 
 				if leftFactors.isSingleNumber() || rightFactors.isSingleNumber() {
 					return mulFactors(leftFactors, rightFactors), currentConstraint.Output.Type == RETURN, function{}
@@ -563,8 +563,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				f := factor{typ: nTok, multiplicative: commonFactor}
 				return factors{f}, currentConstraint.Output.Type == RETURN, function{}
 			case "/":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileNumber(left, gateCollector)
+				rightFactors = currentCircuit.compileNumber(right, gateCollector)
 
 				if rightFactors.isSingleNumber() { // (x1+x2..)/6
 					if rightFactors[0].multiplicative.Sign() == 0 {
@@ -590,14 +590,14 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				f := factor{typ: nTok, multiplicative: commonF}
 				return factors{f}, currentConstraint.Output.Type == RETURN, function{}
 			case "+":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileNumber(left, gateCollector)
+				rightFactors = currentCircuit.compileNumber(right, gateCollector)
 				addedFactors := addFactors(leftFactors, rightFactors)
 				return addedFactors, currentConstraint.Output.Type == RETURN, function{}
 
 			case "-":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileNumber(left, gateCollector)
+				rightFactors = currentCircuit.compileNumber(right, gateCollector)
 				rightFactors = negateFactors(rightFactors)
 				addedFactors := addFactors(leftFactors, rightFactors)
 				return addedFactors, currentConstraint.Output.Type == RETURN, function{}
@@ -613,6 +613,15 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 	panic(currentConstraint)
 }
 
+//compileNumber compiles an operand which has to be a number. A function, or the call of one which returns nothing, is none
+func (currentCircuit *function) compileNumber(c *Constraint, gateCollector *gateContainer) factors {
+	facs, _, _ := currentCircuit.compile(c, gateCollector)
+	if facs == nil {
+		panic(fmt.Sprintf("number expected, got %v", c.Output.Identifier))
+	}
+	return facs
+}
+
 // GenerateR1CS generates the ER1CS Language from an array of gates
 func (p *Program) GatesToR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS) {
 	// from flat code to ER1CS
-- 
2.43.0


From 0446a85cb8155fec6af86b0c506a26d14378db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 42/49] fix: else is followed by its block

---
 circuitcompiler/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 602d558..0e14127 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -256,6 +256,9 @@ func (p *Parser) statementMode(tokens []Token) {
 		}
 
 		if hasElse {
+			if len(rest) < 2 || rest[1].Identifier != "{" {
+				p.error("'{' expected after else")
+			}
 			handeFunc(1, false, ELSE)
 		}
 		p.constraintChan <- &Constraint{Output: Token{Type: IF_ELSE_CHAIN_END}}
-- 
2.43.0


From 6bc9b5938eeebbbf1dcc898a12d5ff0ddb7daf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:09 +0000
Subject: [PATCH 43/49] fix: global variables are initialised before main runs,
 statements outside of functions are refused

---
 circuitcompiler/Programm.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index a1b8684..ac1d4bb 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -185,6 +185,14 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 	container := newGateContainer()
 	mainCircuit := p.GetMainCircuit()
 
+	//the initial values of global variables are what they are when the program starts, no matter what main does to others
+	for _, task := range p.globalFunction.taskStack.data {
+		if task.Output.Type != VARIABLE_OVERLOAD {
+			panic(fmt.Sprintf("statement outside of a function: %v", task))
+		}
+		p.globalFunction.compile(task, container)
+	}
+
 	for i := 0; i < mainCircuit.taskStack.len(); i++ {
 		f, returns, _ := mainCircuit.compile(mainCircuit.taskStack.data[i], container)
 		container.completeFunction(f)
-- 
2.43.0


From 030c49c04314fab70b87ceac34c052e144425090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:06 +0000
Subject: [PATCH 44/49] fix: a second opening bracket is not taken for the
 first one

---
 circuitcompiler/parser.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 0e14127..dbbbde0 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -135,7 +135,7 @@ func (p *Parser) statementMode(tokens []Token) {
 		//NOTE THAT WE GOT ERROR WHEN USING &Constraint{} instead of Constraint{}, dont understand why
 		buffer := Constraint{}
 
-		rest := p.argumentParse(toks.toks, splitAtClosingSwingBrackets, &buffer)
+		rest := p.argumentParse(tokens[1:], splitAtClosingSwingBrackets, &buffer)
 		for _, publicInput := range buffer.Inputs {
 			publicInput.Output.Type = PUBLIC
 			p.constraintChan <- publicInput
@@ -168,7 +168,7 @@ func (p *Parser) statementMode(tokens []Token) {
 			p.error("Function expected, got %v ", tok)
 		}
 
-		rest := p.argumentParse(toks.toks, splitAtClosingBrackets, FuncConstraint)
+		rest := p.argumentParse(tokens[2:], splitAtClosingBrackets, FuncConstraint)
 		var FuncConstraintInputs []*Constraint
 		for _, v := range FuncConstraint.Inputs {
 
@@ -209,7 +209,7 @@ func (p *Parser) statementMode(tokens []Token) {
 			p.error("invalid function declaration, got %v : %v", tok.Identifier, tok.Type)
 		}
 		p.constraintChan <- FuncConstraint
-		l, r, b := splitAtClosingSwingBrackets(toks.toks)
+		l, r, b := splitAtClosingSwingBrackets(rest)
 		if !b {
 			panic("closing brackets missing")
 		}
@@ -268,7 +268,6 @@ func (p *Parser) statementMode(tokens []Token) {
 	case FOR:
 		// for (  a<5 ; a+=1)
 		ForConst := &Constraint{Output: Token{Type: FOR}, Inputs: []*Constraint{}}
-		var success bool
 		if tokens[1].Identifier != "(" {
 			p.error("brackets '(' missing, got %v", tokens[1])
 		}
@@ -291,17 +290,17 @@ func (p *Parser) statementMode(tokens []Token) {
 		//ForConst.Inputs = append(ForConst.Inputs, varConst)
 
 		// a <5;
-		l, r := splitTokensAtFirstString(tokens[2:], ";")
-		if r[0].Identifier != ";" {
-			p.error("';' expected, got %v", r[0])
-		}
-		r = r[1:]
-		p.parseExpression(l, ForConst)
-		//a = a+1)
-		l, r, success = splitAtClosingBrackets(r)
+		header, r, success := splitAtClosingBrackets(tokens[1:])
 		if !success {
 			p.error("closing brackets missing")
 		}
+		l, increment := splitTokensAtFirstString(header, ";")
+		if len(increment) == 0 {
+			p.error("';' expected, got %v", header)
+		}
+		p.parseExpression(l, ForConst)
+		//a = a+1
+		l = increment[1:]
 		if b, _, err := isVariableAssignment(l); !b {
 			p.error(err)
 		}
@@ -326,7 +325,7 @@ func (p *Parser) statementMode(tokens []Token) {
 		if r[0].Identifier != "{" {
 			p.error("brackets '{' missing, got %v", r[0])
 		}
-		l, r, success = splitAtClosingSwingBrackets(r[1:])
+		l, r, success = splitAtClosingSwingBrackets(r)
 		if !success {
 			p.error("closing brackets missing")
 		}
-- 
2.43.0


From 244eaef13fed1e050e6a99018fa53e3014400588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:26 +0000
Subject: [PATCH 45/49] fix: what a function asserts holds too if it is called
 in a condition or an index

---
 circuitcompiler/Programm.go | 12 ++++++------
 circuitcompiler/circuit.go  |  6 +++---
 circuitcompiler/parser.go   |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index ac1d4bb..5443edb 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -157,13 +157,13 @@ func (currentCircuit *function) getsLoadedWith(newInputs []*function) (allArgume
 }
 
 //helper function
-func (currentCircuit *function) resolveArrayName(c *Constraint) string {
+func (currentCircuit *function) resolveArrayName(c *Constraint, gateCollector *gateContainer) string {
 	var arrayIdentifier = c.Output.Identifier
 	//if len(c.Inputs) < 1 {
 	//	panic("accessing array index failed")
 	//}
 	for _, in := range c.Inputs {
-		indexFactors, _, _ := currentCircuit.compile(in, newGateContainer())
+		indexFactors, _, _ := currentCircuit.compile(in, gateCollector)
 		if !indexFactors.isSingleNumber() {
 			panic("cannot access array dynamically in an arithmetic circuit currently")
 		}
@@ -208,7 +208,7 @@ func (currentCircuit *function) execute(gateCollector *gateContainer) (facs fact
 	for _, task := range currentCircuit.taskStack.data {
 		//the tasks of an if-else chain are its branches. the first one whose condition holds is the only one executed
 		if task.Output.Type == IF {
-			if len(task.Inputs) != 0 && !currentCircuit.checkStaticCondition(task.Inputs[0]) {
+			if len(task.Inputs) != 0 && !currentCircuit.checkStaticCondition(task.Inputs[0], gateCollector) {
 				continue
 			}
 			return currentCircuit.compile(&Constraint{
@@ -270,7 +270,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		if !ex {
 			panic(fmt.Sprintf("function %s not declared", currentConstraint.Output.Identifier))
 		}
-		for currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
+		for currentCircuit.checkStaticCondition(currentConstraint.Inputs[0], gateCollector) {
 			//unlike a function call, a return inside the body leaves the surrounding function
 			f, retu, fkt := body.flatCopy().execute(gateCollector)
 			if retu {
@@ -321,7 +321,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 
 		if currentConstraint.Inputs[0].Output.Type == ARRAY_CALL {
 			// myArray[7*3] = expression
-			toOverloadIdentifier = currentCircuit.resolveArrayName(currentConstraint.Inputs[0])
+			toOverloadIdentifier = currentCircuit.resolveArrayName(currentConstraint.Inputs[0], gateCollector)
 			//myArray[21] = expression
 		}
 
@@ -342,7 +342,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		return facs, false, function{}
 
 	case ARRAY_CALL:
-		resolvedName := currentCircuit.resolveArrayName(currentConstraint)
+		resolvedName := currentCircuit.resolveArrayName(currentConstraint, gateCollector)
 		if con, ex := currentCircuit.findConstraintInBloodline(resolvedName); ex {
 			a, _, fkt := currentCircuit.compile(con, gateCollector)
 			return a, false, fkt
diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index 034d778..6f4dc0e 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -394,14 +394,14 @@ func (circ *function) restore(keys []string) {
 	circ.constraintMap = tmp
 }
 
-func (currentCircuit *function) checkStaticCondition(c *Constraint) (isSatisfied bool) {
+func (currentCircuit *function) checkStaticCondition(c *Constraint, gateCollector *gateContainer) (isSatisfied bool) {
 	//unelegant...
 
 	var factorsA, factorsB factors
 	var A, B *big.Int
 
-	factorsA, _, _ = currentCircuit.compile(c.Inputs[1], newGateContainer())
-	factorsB, _, _ = currentCircuit.compile(c.Inputs[2], newGateContainer())
+	factorsA, _, _ = currentCircuit.compile(c.Inputs[1], gateCollector)
+	factorsB, _, _ = currentCircuit.compile(c.Inputs[2], gateCollector)
 
 	A = factorsA[0].multiplicative
 	B = factorsB[0].multiplicative
diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index dbbbde0..cdcd5eb 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -90,7 +90,7 @@ out:
 			//fmt.Println("#############")
 			//fmt.Println(constraint)
 			if constraint.Output.Type == PUBLIC {
-				a := p.GetMainCircuit().resolveArrayName(constraint)
+				a := p.GetMainCircuit().resolveArrayName(constraint, newGateContainer())
 				for _, v := range p.PublicInputs {
 					if v == a {
 						panic(fmt.Sprintf("%s is declared public twice", a))
-- 
2.43.0


From 5447cd3d4a48414abf2adb0b913bdb690ea61be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:59 +0000
Subject: [PATCH 46/49] fix: a byte that is no rune does not send the lexer
 into an endless loop

---
 circuitcompiler/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index c956220..b2d19b1 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -277,7 +277,7 @@ func (l *Lexer) PeekTwo() string {
 func (l *Lexer) Rewind() {
 	r := l.rewind.pop()
 	if r > EOFRune {
-		size := utf8.RuneLen(r)
+		_, size := utf8.DecodeLastRuneInString(l.source[:l.position]) //RuneLen(r) is too much for a byte that is no rune
 		l.position -= size
 		if l.position < l.start {
 			l.position = l.start
-- 
2.43.0


From d55a762c10a7a654cc313cd4643d8ffa79047bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:38 +0000
Subject: [PATCH 47/49] fix: witness computation rejects missing, repeated and
 non-input names

---
 circuitcompiler/ER1CS.go    | 29 +++++++++++++++++++++++++----
 circuitcompiler/Programm.go |  2 ++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 3ec2014..3ef6f84 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -15,6 +15,8 @@ type ER1CS struct {
 	//indexMap maps each variable to its position in the witness trace
 	indexMap                     map[string]int
 	WitnessLength, NumberOfGates int
+	//inputs is the number of wires, which hold the constant one or a main input. they come first in the witness trace
+	inputs int
 	//splitMap maps each variable (which is split into its bit represants at some point in the code) onto the positions
 	//of the its bits in the indexMap
 	splitmap map[string][]int
@@ -27,6 +29,7 @@ type ER1CSSparse struct {
 	indexMap                     map[string]int
 	splitmap                     map[string][]int
 	WitnessLength, NumberOfGates int
+	inputs                       int
 	L                            []*utils.AvlTree
 	R                            []*utils.AvlTree
 	E                            []*utils.AvlTree
@@ -163,12 +166,21 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 
 	for _, v := range input {
 		index, ex := r1cs.indexMap[v.identifier]
-		if !ex {
+		value := field.Copy(v.value)
+		if !ex || index >= r1cs.inputs || (index == 0 && value.Cmp(witness[0]) != 0) {
 			return nil, errors.New(fmt.Sprintf("%v is not an input", v.identifier))
 		}
-		setWitness(index, field.Copy(v.value))
+		if index > 0 && set[index] {
+			return nil, errors.New(fmt.Sprintf("input %v is given twice", v.identifier))
+		}
+		setWitness(index, value)
 		set[index] = true
 	}
+	for index := 0; index < r1cs.inputs; index++ {
+		if !set[index] {
+			return nil, errors.New(fmt.Sprintf("at input %v: no value is given", index))
+		}
+	}
 
 	//inverseSplitmap maps each bit index onto (bitposition,positionOfFather)
 	inverseSplitmap := make(map[int][]int)
@@ -319,12 +331,21 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 
 	for _, v := range input {
 		index, ex := r1cs.indexMap[v.identifier]
-		if !ex {
+		value := field.Copy(v.value)
+		if !ex || index >= r1cs.inputs || (index == 0 && value.Cmp(witness[0]) != 0) {
 			return nil, errors.New(fmt.Sprintf("%v is not an input", v.identifier))
 		}
-		witness[index] = field.Copy(v.value)
+		if index > 0 && set[index] {
+			return nil, errors.New(fmt.Sprintf("input %v is given twice", v.identifier))
+		}
+		witness[index] = value
 		set[index] = true
 	}
+	for index := 0; index < r1cs.inputs; index++ {
+		if !set[index] {
+			return nil, errors.New(fmt.Sprintf("at input %v: no value is given", index))
+		}
+	}
 
 	//inverseSplitmap maps each bit index onto (bitposition,positionOfFather)
 	inverseSplitmap := make(map[int][]int)
diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 5443edb..82185f9 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -652,6 +652,7 @@ func (p *Program) GatesToR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS) {
 		}
 		indexMap[v] = len(indexMap)
 	}
+	r1CS.inputs = len(indexMap)
 
 	for _, v := range mGates {
 		//there are gates, which do not increase the size of the trace such as equality check constraint, sum check constraint after binary split
@@ -866,6 +867,7 @@ func (p *Program) GatesToSparseR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS
 		}
 		indexMap[v] = len(indexMap)
 	}
+	r1CS.inputs = len(indexMap)
 
 	for _, v := range mGates {
 		if v.noNewOutput {
-- 
2.43.0


From ddad582dab0ba2f935963b2e7ffb7e03bba81b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:51 +0000
Subject: [PATCH 48/49] fix: random field elements come from the whole field

---
 utils/finiteField.go | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 13d4d3c..8c60470 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -209,24 +209,9 @@ func BigIsOdd(n *big.Int) bool {
 	return n.Bit(0) == 1
 }
 
+//Rand returns a uniformly distributed field element
 func (fq Fq) Rand() (*big.Int, error) {
-
-	// twoexp := new(big.Int).Exp(big.NewInt(2), big.NewInt(int64(maxbits)), nil)
-	// maxInt := new(big.Int).Sub(twoexp, big.NewInt(1))
-	//rand
-	maxbits := fq.Q.BitLen()
-	b := make([]byte, (maxbits/8)-1)
-	// b := make([]byte, 3)
-	// b := make([]byte, 3)
-	_, err := rand.Read(b)
-	if err != nil {
-		return nil, err
-	}
-	r := new(big.Int).SetBytes(b)
-	rq := new(big.Int).Mod(r, fq.Q)
-
-	// return r over q, nil
-	return rq, nil
+	return rand.Int(rand.Reader, fq.Q)
 }
 
 func (fq Fq) IsZero(a *big.Int) bool {
-- 
2.43.0


From 8c682b4be5b36274e93d573392c2c6a3a3a3f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:16 +0000
Subject: [PATCH 49/49] fix: a file that takes part in its own import is
 refused

---
 circuitcompiler/parser.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index cdcd5eb..75a88ac 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -17,6 +17,8 @@ type Parser struct {
 	done           chan struct{}
 	log            bool
 	constraintChan chan *Constraint
+	//the files whose statements are being read, the outermost first
+	importing []string
 
 	//constraintBuilder chan<- Token
 }
@@ -146,14 +148,22 @@ func (p *Parser) statementMode(tokens []Token) {
 			p.error("import failed")
 		}
 
+		for _, v := range p.importing {
+			if v == tokens[1].Identifier {
+				p.error("%v imports itself", v)
+			}
+		}
 		dat, err := ioutil.ReadFile(tokens[1].Identifier)
 		if err != nil {
 			panic(err)
 		}
 		tmpParser := newParser(string(dat), false)
 		t := tmpParser.stackAllTokens()
-		//we glue em together, but remove the EOF from t first
-		p.statementMode(append(t[:len(t)-1], tokens[2:]...))
+		//the statements of the file, without its EOF, come before the rest
+		p.importing = append(p.importing, tokens[1].Identifier)
+		p.statementMode(t[:len(t)-1])
+		p.importing = p.importing[:len(p.importing)-1]
+		p.statementMode(tokens[2:])
 	case FUNCTION_DEFINE:
 		toks := Tokens{toks: tokens}
 		var tok = toks.next() //func
-- 
2.43.0

