From 25f1d65ccf817850b73c7b35e401c2c580c11cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 01/64] fix: give every Bash loop its own first-iteration flag

An inner loop shared (and reset) the flag of the loop around it, so the
outer loop skipped its increment.
---
 converters/bash/converter.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c388c71..34ef065 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -19,6 +19,7 @@ type converter struct {
 	code                          []string
 	varCounter                    int
 	forCounter                    int
+	forVars                       []string
 	funcs                         []funcInfo
 	funcCounter                   int
 	sliceAssignmentHelperRequired bool
@@ -167,6 +168,10 @@ func (c *converter) ElseEnd() error {
 }
 
 func (c *converter) ForStart() error {
+	// Each loop requires its own flag, otherwise an inner loop resets the flag of its surrounding loop.
+	c.forVars = append(c.forVars, fmt.Sprintf("_fv%d", c.forCounter))
+	c.forCounter++
+
 	c.addLine(fmt.Sprintf(`%s=`, c.mustCurrentForVar()))
 	c.addLine("while true; do")
 	return nil
@@ -190,7 +195,9 @@ func (c *converter) ForCondition(condition string) error {
 
 func (c *converter) ForEnd() error {
 	c.addLine("done")
-	c.forCounter++
+
+	lastIndex := len(c.forVars) - 1
+	c.forVars = slices.Delete(c.forVars, lastIndex, lastIndex+1)
 
 	return nil
 }
@@ -542,7 +549,7 @@ func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 }
 
 func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter)
+	return c.forVars[len(c.forVars)-1]
 }
 
 func (c *converter) varName(name string, global bool) string {
-- 
2.43.0


From 54e4eb02df4502460952766b1a4ab4277dddd65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 02/64] fix: evaluate all values of a multi-assignment before
 assigning

'a, b = b, a' stored the first value before the second one was read.
---
 transpiler/transpiler.go | 56 ++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 6787bb6..f4985a9 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -365,14 +365,47 @@ func (t *transpiler) evaluateFor(forStatement parser.For) error {
 	return conv.ForEnd()
 }
 
-func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition) error {
-	for i, variable := range definition.Variables() {
-		result, err := t.evaluateExpression(definition.Values()[i], true)
+// evaluateAssignedValues evaluates all values before any of the target variables is written.
+func (t *transpiler) evaluateAssignedValues(expressions []parser.Expression) ([]string, error) {
+	values := []string{}
+
+	for i, expression := range expressions {
+		result, err := t.evaluateExpression(expression, true)
 
 		if err != nil {
-			return err
+			return nil, err
 		}
-		err = t.converter.VarDefinition(variable.Name(), result.firstValue(), variable.Global())
+		value := result.firstValue()
+
+		// If several variables are assigned at once, the value might refer to one of
+		// them. Therefore, it needs to be preserved.
+		if len(expressions) > 1 {
+			name := fmt.Sprintf("_av%d", i)
+			err = t.converter.VarDefinition(name, value, false)
+
+			if err != nil {
+				return nil, err
+			}
+			value, err = t.converter.VarEvaluation(name, true, false)
+
+			if err != nil {
+				return nil, err
+			}
+		}
+		values = append(values, value)
+	}
+	return values, nil
+}
+
+func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition) error {
+	values, err := t.evaluateAssignedValues(definition.Values())
+
+	if err != nil {
+		return err
+	}
+
+	for i, variable := range definition.Variables() {
+		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -407,13 +440,14 @@ func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.Varia
 }
 
 func (t *transpiler) evaluateVarAssignment(assignment parser.VariableAssignment) error {
-	for i, variable := range assignment.Variables() {
-		result, err := t.evaluateExpression(assignment.Values()[i], true)
+	values, err := t.evaluateAssignedValues(assignment.Values())
 
-		if err != nil {
-			return err
-		}
-		err = t.converter.VarDefinition(variable.Name(), result.firstValue(), variable.Global())
+	if err != nil {
+		return err
+	}
+
+	for i, variable := range assignment.Variables() {
+		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
 
 		if err != nil {
 			return err
-- 
2.43.0


From d5e194d98fa36a195a6ee2b18eb96f51033e3016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 03/64] fix: assign to the defined variable instead of a local
 one

Assigning to a global variable with '=' inside of a function wrote to a
function-local variable.
---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 819565f..613a934 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1279,7 +1279,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 		if valueType != expectedValueType {
 			return nil, p.expectedError(fmt.Sprintf("%s but got %s", expectedValueType.String(), valueType.String()), valuesToken)
 		}
-		variables = append(variables, NewVariable(name, valueType, ctx.global(), isPublic(name)))
+		variables = append(variables, definedVariable)
 	}
 
 	if isMultiReturnFuncCall {
-- 
2.43.0


From f8a078aa5edf04042aa7acc2efc6e62bd21b5e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 04/64] fix: evaluate a single string index only once

---
 parser/parser.go         | 11 +++++++----
 parser/string.go         |  9 ++-------
 transpiler/transpiler.go | 10 +++++++---
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 613a934..789c1d2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2615,7 +2615,7 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 	}
 	nextToken = p.peek()
 	endToken := nextToken
-	endIndex := startIndex
+	var endIndex Expression // Remains empty if only a single index is provided.
 
 	if nextToken.Type() == lexer.CLOSING_SQUARE_BRACKET {
 		// If range but no end-index is provided, create one by using Len-expression.
@@ -2646,10 +2646,13 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 			right:    IntegerLiteral{1},
 		}
 	}
-	endIndexValueType := endIndex.ValueType()
 
-	if !endIndexValueType.IsInt() {
-		return nil, p.expectedError(fmt.Sprintf("%s as stop-index but got %s", DATA_TYPE_INTEGER, endIndexValueType.String()), endToken)
+	if endIndex != nil {
+		endIndexValueType := endIndex.ValueType()
+
+		if !endIndexValueType.IsInt() {
+			return nil, p.expectedError(fmt.Sprintf("%s as stop-index but got %s", DATA_TYPE_INTEGER, endIndexValueType.String()), endToken)
+		}
 	}
 
 	if !isSlice {
diff --git a/parser/string.go b/parser/string.go
index 0a80b43..357db9b 100644
--- a/parser/string.go
+++ b/parser/string.go
@@ -22,12 +22,7 @@ func (s StringSubscript) StartIndex() Expression {
 	return s.startIndex
 }
 
+// EndIndex returns the end-index or nil if the subscript only consists of a single index.
 func (s StringSubscript) EndIndex() Expression {
-	endIndex := s.endIndex
-
-	// Automatically define end-index.
-	if endIndex == nil {
-		endIndex = s.startIndex
-	}
-	return endIndex
+	return s.endIndex
 }
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index f4985a9..343da37 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -538,10 +538,14 @@ func (t *transpiler) evaluateStringSubscript(subscript parser.StringSubscript, v
 	if err != nil {
 		return expressionResult{}, err
 	}
-	endIndexResult, err := t.evaluateIndex(subscript.EndIndex(), true)
+	endIndexResult := startIndexResult // A single index is start- and end-index but must only be evaluated once.
 
-	if err != nil {
-		return expressionResult{}, err
+	if endIndex := subscript.EndIndex(); endIndex != nil {
+		endIndexResult, err = t.evaluateIndex(endIndex, true)
+
+		if err != nil {
+			return expressionResult{}, err
+		}
 	}
 	value := subscript.Value()
 	str, err := t.evaluateExpression(value, true)
-- 
2.43.0


From 54571e8b0444ae8740c0bfca01335db98a3a548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 05/64] fix: give every Batch loop its own labels and
 first-iteration flag

---
 converters/batch/converter.go | 45 +++++++++++++----------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 2d11ebc..cd89abf 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -31,7 +31,9 @@ type funcInfo struct {
 }
 
 type forInfo struct {
-	label string
+	label    string
+	endLabel string
+	flag     string
 }
 
 type ifInfo struct {
@@ -48,7 +50,6 @@ type converter struct {
 	varCounter                    int
 	ifCounter                     int
 	forCounter                    int
-	endLabels                     []string
 	funcs                         []funcInfo
 	funcCounter                   int
 	fors                          []forInfo
@@ -341,13 +342,9 @@ func (c *converter) ElseEnd() error {
 }
 
 func (c *converter) ForStart() error {
-	label := c.nextForLabel()
-	c.nextEndLabel()
-	c.fors = append(c.fors, forInfo{
-		label: label,
-	})
+	c.fors = append(c.fors, c.nextForInfo())
 	c.addLine(fmt.Sprintf(`set "%s="`, c.mustCurrentForVar()))
-	c.addLine(label)
+	c.addLine(c.mustCurrentForLabel())
 	return nil
 }
 
@@ -373,11 +370,10 @@ func (c *converter) ForEnd() error {
 	c.addLine(fmt.Sprintf("goto %s", w.label))
 	c.addLine(")")
 
-	endLabel := c.popEndLabel()
 	lastIndex := len(c.fors) - 1
 	c.fors = slices.Delete(c.fors, lastIndex, lastIndex+1)
 
-	c.addLine(endLabel)
+	c.addLine(w.endLabel)
 
 	return nil
 }
@@ -818,18 +814,22 @@ func (c *converter) addEndLine(line string) {
 }
 
 func (c *converter) mustCurrentForLabel() string {
-	return forLabel(c.forCounter - 1)
+	return c.fors[len(c.fors)-1].label
 }
 
 func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter-1)
+	return c.fors[len(c.fors)-1].flag
 }
 
-func (c *converter) nextForLabel() string {
-	label := forLabel(c.forCounter)
+func (c *converter) nextForInfo() forInfo {
+	count := c.forCounter
 	c.forCounter++
 
-	return label
+	return forInfo{
+		label:    forLabel(count),
+		endLabel: fmt.Sprintf(":_e%d", count),
+		flag:     fmt.Sprintf("_fv%d", count),
+	}
 }
 
 func (c *converter) nextIfLabel() string {
@@ -868,20 +868,7 @@ func (c *converter) mustCurrentIfInfo() ifInfo {
 }
 
 func (c *converter) mustCurrentEndLabel() string {
-	return c.endLabels[len(c.endLabels)-1]
-}
-
-func (c *converter) popEndLabel() string {
-	lastIndex := len(c.endLabels) - 1
-	label := c.mustCurrentEndLabel()
-	c.endLabels = slices.Delete(c.endLabels, lastIndex, lastIndex+1)
-
-	return label
-}
-
-func (c *converter) nextEndLabel() string {
-	c.endLabels = append(c.endLabels, fmt.Sprintf(":_e%d", len(c.endLabels)))
-	return c.mustCurrentEndLabel()
+	return c.fors[len(c.fors)-1].endLabel
 }
 
 func (c *converter) nextHelperVar() string {
-- 
2.43.0


From bc8f42c50893f4d4942dae9efded29416b575d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 06/64] fix: compare slice indices as numbers in the Batch
 helpers

---
 converters/batch/converter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index cd89abf..268b9b2 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -172,7 +172,7 @@ func (c *converter) ProgramEnd() error {
 			`set "_i=0"`,
 			c.callFuncString(sliceLenGetHelper, []string{}, "%2"),
 			":_sch_loop",
-			`if "!_i!" lss "!_len!" (`,
+			`if !_i! lss !_len! (`,
 			`for /f "delims=" %%i in ("%2_!_i!") do set "_v=!%%i!"`,
 			c.sliceAssignmentString("!%1!", "!_i!", "!_v!", false),
 			`set /A "_i=!_i!+1"`,
@@ -195,7 +195,7 @@ func (c *converter) ProgramEnd() error {
 			c.callFuncString(sliceLenGetHelper, []string{}, "!%1!"), // Get current slice length.
 			`set "_i=!_len!"`,
 			":_sah_loop",
-			`if "!_i!" lss "%2" (`,
+			`if !_i! lss %2 (`,
 			c.sliceAssignmentString("!%1!", "!_i!", "%3", false),
 			`set /A "_i=!_i!+1"`,
 			"goto :_sah_loop",
-- 
2.43.0


From fb4b204c0f0279d67c586ec12b8acb9520c7f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 07/64] fix: keep the length of a Batch slice when assigning
 inside of it

---
 converters/batch/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 268b9b2..135a98d 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -199,7 +199,7 @@ func (c *converter) ProgramEnd() error {
 			c.sliceAssignmentString("!%1!", "!_i!", "%3", false),
 			`set /A "_i=!_i!+1"`,
 			"goto :_sah_loop",
-			") else (",
+			") else if %2 geq !_len! (",
 			`set /A "_len=%2+1"`,
 			c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_len!"),
 			")",
-- 
2.43.0


From b5730e0aef3f882cd44451e12a2697b0757e834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:52 +0000
Subject: [PATCH 08/64] fix: make the Batch copy keep longer destinations and
 return the copied count

---
 converters/batch/converter.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 135a98d..7f9e731 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -178,7 +178,8 @@ func (c *converter) ProgramEnd() error {
 			`set /A "_i=!_i!+1"`,
 			"goto :_sch_loop",
 			")",
-			c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_i!"),
+			c.callFuncString(sliceLenGetHelper, []string{}, "!%1!"),
+			fmt.Sprintf("if !_i! gtr !_len! %s", c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_i!")), // The destination only grows.
 		)
 	}
 
@@ -722,8 +723,10 @@ func (c *converter) Copy(destination string, source string, valueUsed bool, glob
 	c.sliceCopyHelperRequired = true
 	c.callFunc(sliceCopyHelper, []string{}, c.varName(destination, global), source)
 
-	c.callFunc(sliceLenGetHelper, []string{}, c.varEvaluationString(destination, global))
-	return c.varEvaluationString("_len", true), nil
+	helper := c.nextHelperVar()
+	c.VarAssignment(helper, c.varEvaluationString("_i", true), false) // Number of copied elements.
+
+	return c.VarEvaluation(helper, valueUsed, false)
 }
 
 func (c *converter) Exists(path string, valueUsed bool) (string, error) {
-- 
2.43.0


From ee6e1e61259435f1977ca9e45e25c6542411e684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 09/64] fix: print blank text in Batch instead of the echo
 state

---
 converters/batch/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 7f9e731..bd19f5d 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -241,7 +241,7 @@ func (c *converter) ProgramEnd() error {
 	if c.echoHelperRequired {
 		v := c.varEvaluationString(funcArgVar(0), true)
 		c.addHelper("echo", echoHelper,
-			fmt.Sprintf(`if "%s" neq "" (echo %s) else echo.`, v, v), // echo. could be problematic (see discussion: https://stackoverflow.com/a/20691061).
+			fmt.Sprintf("echo(%s", v), // echo( also prints empty and blank text correctly (see https://stackoverflow.com/a/20691061).
 		)
 	}
 	c.addEndLine(":end")
-- 
2.43.0


From 8295325aa6569940fadc598f13c93ef8133670c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:55 +0000
Subject: [PATCH 10/64] fix: end the whole Batch script when a function panics

---
 converters/batch/converter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index bd19f5d..a3d1b1b 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -653,6 +653,7 @@ func (c *converter) Group(value string, valueUsed bool) (string, error) {
 func (c *converter) FuncCall(name string, args []string, returnTypes []parser.ValueType, valueUsed bool) ([]string, error) {
 	returnValues := []string{}
 	c.callFunc(name, args)
+	c.addLine(`if "!_e!" neq "0" goto :end`) // If the called function panicked, also end the caller.
 
 	if valueUsed {
 		for i := range returnTypes {
-- 
2.43.0


From 5f3a451e6adf51f97ffd24ee9038bc2b5ce105b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 11/64] fix: store Batch input in the variable which is read
 afterwards

---
 converters/batch/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index a3d1b1b..e869fd7 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -716,7 +716,7 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 
 func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.addLine(fmt.Sprintf(`set /p "%s=%s"`, helper, prompt))
+	c.addLine(fmt.Sprintf(`set /p "%s=%s"`, c.varName(helper, false), prompt))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
-- 
2.43.0


From ac5ba9d7c027a6404be1eb65d8c8aa899d3343e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 12/64] fix: only emit the Batch slice helpers which are used

---
 converters/batch/converter.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index e869fd7..d45fb2c 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -164,7 +164,6 @@ func (c *converter) ProgramEnd() error {
 	if c.sliceCopyHelperRequired {
 		c.sliceLenGetHelperRequired = true
 		c.sliceLenSetHelperRequired = true
-		c.sliceAssignmentHelperRequired = true
 
 		// %1: Destination slice
 		// %2: Source slice
@@ -580,7 +579,7 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 	helper := c.nextHelperVar()
 	c.VarAssignment(helper, "_dv!_dvc!", false)
 
-	c.sliceAssignmentHelperRequired = true
+	c.sliceLenSetHelperRequired = true
 	c.callFunc(sliceLenSetHelper, []string{}, c.varEvaluationString(helper, false), strconv.Itoa(len(values)))
 
 	// Init slice values.
-- 
2.43.0


From f774c2385cc2aabaad248286ccde3ee097323bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:58 +0000
Subject: [PATCH 13/64] fix: do not split identifiers which start with true or
 false

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 330a093..7e82675 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -298,7 +298,7 @@ func Tokenize(source string) ([]Token, error) {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			i += len(matches[0])
-		} else if match := regexp.MustCompile(`^(true|false)`).FindString(source[i:]); match != "" {
+		} else if match := regexp.MustCompile(`^(true|false)\b`).FindString(source[i:]); match != "" {
 			// Create bool token.
 			token = newToken(match, BOOL_LITERAL, ogRow, ogColumn)
 			i += len(match)
-- 
2.43.0


From f5adf33f80e51a8c098a30be655b6ff9b8cee4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:03 +0000
Subject: [PATCH 14/64] fix: end block comments at the first terminator and
 keep the column behind them

---
 lexer/lexer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 7e82675..9ad35ca 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -284,16 +284,20 @@ func Tokenize(source string) ([]Token, error) {
 				err = fmt.Errorf("string at row %d, column %d has not been terminated", ogRow, ogColumn)
 				break
 			}
-		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
+		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*?)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
 			// Multiline comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			match := matches[0]
 			lines := strings.Split(match, "\n")
 			lastLinesIndex := len(lines) - 1
-			row += lastLinesIndex
-			ogColumn = startIndex
 			i += len(match)
-			ogI = i - len(lines[lastLinesIndex])
+
+			// If the comment spans several rows, the column is counted from the beginning of the last one.
+			if lastLinesIndex > 0 {
+				row += lastLinesIndex
+				ogColumn = startIndex
+				ogI = i - len(lines[lastLinesIndex])
+			}
 		} else if matches := regexp.MustCompile(`^\/\/(.*)`).FindStringSubmatch(source[i:]); matches != nil {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
-- 
2.43.0


From b446f62e867487baea3632bb63b5493b0a6dd42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 15/64] fix: keep non-ASCII text in string literals as it is

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 9ad35ca..f86b307 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -225,7 +225,7 @@ func char(s string, position int) string {
 	c := ""
 
 	if position < len(s) {
-		c = string(s[position])
+		c = s[position : position+1] // Keep the plain byte, string(byte) would encode it as a code point.
 	}
 	return c
 }
-- 
2.43.0


From 2a20b507d700f9e5a1cfa33b453ed466bbfd497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:13 +0000
Subject: [PATCH 16/64] fix: accept hexadecimal, octal and Unicode escape
 sequences

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index f86b307..e7d600a 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -257,7 +257,7 @@ func Tokenize(source string) ([]Token, error) {
 				c0 = char(source, i)
 				appended := false
 
-				if match := regexp.MustCompile(`^\\.`).FindString(source[i:]); !raw && match != "" {
+				if match := regexp.MustCompile(`^\\(x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|[0-7]{3}|.)`).FindString(source[i:]); !raw && match != "" {
 					// Convert escaped character to be a control character (https://pkg.go.dev/strconv#Unquote).
 					parsed, err := strconv.Unquote(fmt.Sprintf(`"%s"`, match))
 
-- 
2.43.0


From 969135c60776578e72bd4b3855d80a6770f8612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:42 +0000
Subject: [PATCH 17/64] fix: count the rows inside of strings

---
 lexer/lexer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index e7d600a..a2eb47f 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -284,6 +284,14 @@ func Tokenize(source string) ([]Token, error) {
 				err = fmt.Errorf("string at row %d, column %d has not been terminated", ogRow, ogColumn)
 				break
 			}
+			lines := strings.Split(source[ogI:i], "\n")
+
+			// If the string spans several rows, the column is counted from the beginning of the last one.
+			if lastLinesIndex := len(lines) - 1; lastLinesIndex > 0 {
+				row += lastLinesIndex
+				ogColumn = startIndex
+				ogI = i - len(lines[lastLinesIndex])
+			}
 		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*?)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
 			// Multiline comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
-- 
2.43.0


From 77ba35166c65250c1b0e924c65c521c6a561573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 18/64] fix: read a minus behind an operand as operator

---
 lexer/lexer.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index a2eb47f..c30c3ef 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -230,6 +230,24 @@ func char(s string, position int) string {
 	return c
 }
 
+// endsOperand tells if the last token ends an operand. In this case a following minus is an operator, not a sign.
+func endsOperand(tokens []Token) bool {
+	if len(tokens) == 0 {
+		return false
+	}
+	return slices.Contains([]TokenType{
+		IDENTIFIER,
+		BOOL_LITERAL,
+		NUMBER_LITERAL,
+		STRING_LITERAL,
+		NIL_LITERAL,
+		CLOSING_ROUND_BRACKET,
+		CLOSING_SQUARE_BRACKET,
+		INCREMENT_OPERATOR,
+		DECREMENT_OPERATOR,
+	}, tokens[len(tokens)-1].tokenType)
+}
+
 func Tokenize(source string) ([]Token, error) {
 	var err error = nil
 	tokens := []Token{}
@@ -314,7 +332,7 @@ func Tokenize(source string) ([]Token, error) {
 			// Create bool token.
 			token = newToken(match, BOOL_LITERAL, ogRow, ogColumn)
 			i += len(match)
-		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" {
+		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" && !(c0 == "-" && endsOperand(tokens)) {
 			// Create number token.
 			token = newToken(match, NUMBER_LITERAL, ogRow, ogColumn)
 			i += len(match)
-- 
2.43.0


From f1850ccd3b5a60ea6fd3e1449fd158561a8c204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 19/64] fix: evaluate the range expression only once

---
 parser/parser.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 789c1d2..48811f7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -189,6 +189,7 @@ type Parser struct {
 	prefix    string
 	currFunc  string
 	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
+	tempCount int                 // Number of temporary variables.
 }
 
 func New() Parser {
@@ -439,6 +440,14 @@ func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error
 	return nil
 }
 
+// nextTempVariable returns a variable which holds an expression value that must only be evaluated once.
+func (p *Parser) nextTempVariable(valueType ValueType) Variable {
+	name := fmt.Sprintf("_tv%d", p.tempCount)
+	p.tempCount++
+
+	return NewVariable(name, valueType, false, false)
+}
+
 func (p *Parser) getUsedFuncs(startFunc string) []string {
 	usedFuncs := []string{}
 	startFunc = strings.TrimSpace(startFunc)
@@ -1779,17 +1788,19 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		}
 		iterableValueType := iterableExpression.ValueType()
 		indexVar := NewVariable(indexVarName, NewValueType(DATA_TYPE_INTEGER, false), false, false)
+		iterableVar := p.nextTempVariable(iterableValueType)
+		iterableVarEvaluation := VariableEvaluation{iterableVar}
 		var iterableEvaluation Expression
 
 		if iterableValueType.IsSlice() {
 			iterableEvaluation = SliceEvaluation{
-				value:    iterableExpression,
+				value:    iterableVarEvaluation,
 				index:    VariableEvaluation{indexVar},
 				dataType: iterableValueType.DataType(),
 			}
 		} else if iterableValueType.IsString() {
 			iterableEvaluation = StringSubscript{
-				value:      iterableExpression,
+				value:      iterableVarEvaluation,
 				startIndex: VariableEvaluation{indexVar},
 			}
 		} else {
@@ -1817,13 +1828,13 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		}
 
 		init := VariableAssignment{
-			variables: []Variable{indexVar},
-			values:    []Expression{IntegerLiteral{0}},
+			variables: []Variable{iterableVar, indexVar},
+			values:    []Expression{iterableExpression, IntegerLiteral{0}},
 		}
 		condition := Comparison{
 			left:     VariableEvaluation{indexVar},
 			operator: COMPARE_OPERATOR_LESS,
-			right:    Len{iterableExpression},
+			right:    Len{iterableVarEvaluation},
 		}
 		increment := incrementDecrementStatement(indexVar, true)
 		statements, err := p.evaluateBlock(nil, ctx, SCOPE_FOR)
-- 
2.43.0


From 4011b0f462b3d67f6bc482b3563a8417a3fa9453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:58 +0000
Subject: [PATCH 20/64] fix: evaluate the switch expression only once

---
 parser/if.go             |  6 ++++++
 parser/parser.go         | 12 ++++++++++++
 transpiler/transpiler.go |  8 ++++++++
 3 files changed, 26 insertions(+)

diff --git a/parser/if.go b/parser/if.go
index d9b0d46..25eb9a2 100644
--- a/parser/if.go
+++ b/parser/if.go
@@ -22,6 +22,7 @@ func (e Else) Body() []Statement {
 }
 
 type If struct {
+	init         Statement
 	ifBranch     IfBranch
 	elifBranches []IfBranch
 	elseBranch   Else
@@ -31,6 +32,11 @@ func (i If) StatementType() StatementType {
 	return STATEMENT_TYPE_IF
 }
 
+// Init returns the statement which needs to be evaluated in front of the conditions or nil if there is none.
+func (i If) Init() Statement {
+	return i.init
+}
+
 func (i If) IfBranch() IfBranch {
 	return i.ifBranch
 }
diff --git a/parser/parser.go b/parser/parser.go
index 48811f7..06b70ac 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1651,7 +1651,19 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	if nextToken.Type() != lexer.NEWLINE {
 		return nil, p.expectedNewlineError(nextToken)
 	}
+	var switchInit Statement
+
+	// Make sure that the switch-expression is only evaluated once and not for every case.
+	if exprToken.Type() != lexer.OPENING_CURLY_BRACKET {
+		switchVar := p.nextTempVariable(switchExprValueType)
+		switchInit = VariableAssignment{
+			variables: []Variable{switchVar},
+			values:    []Expression{switchExpr},
+		}
+		switchExpr = VariableEvaluation{switchVar}
+	}
 	fakeIf := If{
+		init: switchInit,
 		ifBranch: IfBranch{
 			condition: BooleanLiteral{false}, // Use a fake if-branch that isn't entered if only a default branch has been set in switch.
 			body:      []Statement{},
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 343da37..89f3715 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -246,6 +246,14 @@ func (t *transpiler) evaluateWrite(write parser.Write) error {
 
 func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 	conv := t.converter
+
+	if init := ifStatement.Init(); init != nil {
+		err := t.evaluate(init)
+
+		if err != nil {
+			return err
+		}
+	}
 	ifBranch := ifStatement.IfBranch()
 	result, err := t.evaluateExpression(ifBranch.Condition(), true)
 
-- 
2.43.0


From 3f394bab83d1ad3c4e898db1cabdac88007b2742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 21/64] fix: allow blank lines at the beginning of a switch and
 in import groups

---
 parser/parser.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 06b70ac..7e4bd93 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -423,6 +423,12 @@ func (p *Parser) eat() lexer.Token {
 	return token
 }
 
+func (p *Parser) skipNewlines() {
+	for p.peek().Type() == lexer.NEWLINE {
+		p.eat()
+	}
+}
+
 func (p *Parser) isShortVarInit() bool {
 	_, err := p.findAllowed(lexer.SHORT_INIT_OPERATOR, lexer.IDENTIFIER, lexer.COMMA)
 
@@ -663,6 +669,9 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 		}
 
 		for {
+			if multiple {
+				p.skipNewlines()
+			}
 			imp, err := p.evaluateImport()
 
 			if err != nil {
@@ -730,6 +739,9 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 				}
 			}
 
+			if multiple {
+				p.skipNewlines()
+			}
 			nextToken = p.peek()
 			nextTokenType := nextToken.Type()
 
@@ -1670,6 +1682,7 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 		},
 	}
 	useMock := true
+	p.skipNewlines()
 	nextToken = p.peek()
 	defaultSet := false
 
-- 
2.43.0


From e168f223e4b2ce51902512bf81dd0b513620647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:27 +0000
Subject: [PATCH 22/64] fix: do not emit empty shell blocks for statements
 which are plain values

---
 transpiler/transpiler.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 89f3715..3f3e274 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -2,6 +2,7 @@ package transpiler
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 
 	"github.com/monstermichl/typeshell/parser"
@@ -573,11 +574,28 @@ func (t *transpiler) evaluateGroup(group parser.Group, valueUsed bool) (expressi
 	return t.evaluateExpression(group.Child(), valueUsed)
 }
 
+func producesCode(statement parser.Statement) bool {
+	switch statement.StatementType() {
+	case parser.STATEMENT_TYPE_BOOL_LITERAL,
+		parser.STATEMENT_TYPE_INT_LITERAL,
+		parser.STATEMENT_TYPE_STRING_LITERAL,
+		parser.STATEMENT_TYPE_NIL_LITERAL,
+		parser.STATEMENT_TYPE_VAR_EVALUATION:
+		return false // Plain values are only referenced.
+	case parser.STATEMENT_TYPE_GROUP:
+		return producesCode(statement.(parser.Group).Child())
+	case parser.STATEMENT_TYPE_ITOA:
+		return producesCode(statement.(parser.Itoa).Value())
+	}
+	return true
+}
+
 func (t *transpiler) evaluateBlock(block parser.Block) error {
 	body := block.Body()
 	length := len(body)
 
-	if length == 0 {
+	// Shell blocks must not be empty.
+	if !slices.ContainsFunc(body, producesCode) {
 		return t.converter.Nop()
 	}
 	for index, statement := range body {
-- 
2.43.0


From 588a35157d9eb380a86ea315ab2d4114e1bac9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 23/64] fix: keep string literals in Bash as they are

---
 converters/bash/converter.go | 17 ++++-------------
 std/os.tsh                   |  2 +-
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 34ef065..5d8c64f 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -35,7 +35,8 @@ func New() *converter {
 }
 
 func (c *converter) StringToString(value string) string {
-	return value
+	// Escape all characters which have a special meaning within double quotes.
+	return strings.NewReplacer(`\`, `\\`, `"`, `\"`, "`", "\\`", `$`, `\$`).Replace(value)
 }
 
 func (c *converter) Dump() (string, error) {
@@ -282,7 +283,7 @@ func (c *converter) BinaryOperation(left string, operator parser.BinaryOperator,
 	case parser.DATA_TYPE_STRING:
 		switch operator {
 		case parser.BINARY_OPERATOR_ADDITION:
-			c.VarAssignment(helper, fmt.Sprintf("\"%s%s\"", left, right), false)
+			c.VarAssignment(helper, fmt.Sprintf("%s%s", left, right), false)
 		default:
 			return notAllowedError()
 		}
@@ -560,17 +561,7 @@ func (c *converter) varName(name string, global bool) string {
 }
 
 func (c *converter) varAssignmentString(name string, value string, global bool) string {
-	length := len(value)
-
-	if length > 0 {
-		if string(value[length-1]) != `"` {
-			value = fmt.Sprintf(`%s"`, value)
-		}
-		if string(value[0]) != `"` {
-			value = fmt.Sprintf(`"%s`, value)
-		}
-	}
-	return fmt.Sprintf("%s=%s", c.varName(name, global), value)
+	return fmt.Sprintf(`%s="%s"`, c.varName(name, global), value)
 }
 
 func (c *converter) varEvaluationString(name string, global bool) string {
diff --git a/std/os.tsh b/std/os.tsh
index de27e0d..d01c2cc 100644
--- a/std/os.tsh
+++ b/std/os.tsh
@@ -5,7 +5,7 @@ func Shell() string {
 	if win[:3] == "Win" {
 		shell = "batch"
 	} else {
-		stdout, stderr, code := @ps("-p", "$$", "-o", "args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", `"[0-9a-zA-Z][0-9a-zA-Z]*$"`)
+		stdout, stderr, code := @sh("-c", "ps -p $PPID -o args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", "[0-9a-zA-Z][0-9a-zA-Z]*$")
 		shell = stdout
 	}
 	return shell
-- 
2.43.0


From 1ea0974e650b7110188951562e2739ea16d3707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 24/64] fix: do not interpret slice elements in Bash

---
 converters/bash/converter.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 5d8c64f..95f1f85 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -80,7 +80,8 @@ func (c *converter) ProgramEnd() error {
 			fmt.Sprintf(`local _l=%s`, c.sliceLenString("${2}")),
 			"local _n=$(eval \"echo \\${${1}}\")",
 			"while [ ${_i} -lt ${_l} ]; do",
-			fmt.Sprintf("local _v=%s", c.sliceEvaluationString("${2}", "${_i}")),
+			"local _v",
+			c.sliceEvaluationString("_v", "${2}", "${_i}"),
 			c.sliceAssignmentString("${_n}", "${_i}", "${_v}", false),
 			"_i=$((${_i}+1))",
 			"done",
@@ -389,23 +390,22 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 	c.VarAssignment(helper, fmt.Sprintf(`_dv%s`, c.varEvaluationString("_dvc", true)), false)
 
 	if len(values) > 0 {
-		vals := ""
+		quotedValues := []string{}
 
 		for _, value := range values {
-			vals = fmt.Sprintf(`%s \"%s\"`, vals, value)
+			quotedValues = append(quotedValues, fmt.Sprintf(`"%s"`, value))
 		}
-		c.addLine(fmt.Sprintf(`eval "%s=(%s)"`, c.varEvaluationString(helper, false), strings.TrimSpace(vals)))
+		// The values are passed by an own array to make sure they are not interpreted by eval.
+		c.addLine(fmt.Sprintf(`_sv=(%s)`, strings.Join(quotedValues, " ")))
+		c.addLine(fmt.Sprintf(`eval "%s=(\"\${_sv[@]}\")"`, c.varEvaluationString(helper, false)))
 	}
 	return c.varEvaluationString(helper, false), nil
 }
 
 func (c *converter) SliceEvaluation(name string, index string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(
-		helper,
-		c.sliceEvaluationString(name, index),
-		false,
-	)
+	c.addLine(c.sliceEvaluationString(c.varName(helper, false), name, index))
+
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
@@ -570,11 +570,11 @@ func (c *converter) varEvaluationString(name string, global bool) string {
 
 func (c *converter) sliceAssignmentString(name string, index string, value string, global bool) string {
 	c.sliceAssignmentHelperRequired = true
-	return fmt.Sprintf(`eval "%s[%s]=\"%s\""`, name, index, value)
+	return fmt.Sprintf(`eval "%s[%s]=\%s"`, name, index, value) // The variable is resolved by eval to make sure its value is not interpreted.
 }
 
-func (c *converter) sliceEvaluationString(name string, index string) string {
-	return fmt.Sprintf(`$(eval "echo \${%s[%s]}")`, name, index)
+func (c *converter) sliceEvaluationString(target string, name string, index string) string {
+	return fmt.Sprintf(`eval "%s=\${%s[%s]}"`, target, name, index)
 }
 
 func (c *converter) sliceLenString(name string) string {
-- 
2.43.0


From 212e1bb76efc67d2d55541f98418416cb35b739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:08 +0000
Subject: [PATCH 25/64] fix: do not interpret printed values as echo options in
 Bash

---
 converters/bash/converter.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 95f1f85..d9c75ca 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -215,12 +215,12 @@ func (c *converter) Continue() error {
 }
 
 func (c *converter) Print(values []string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", strings.Join(values, " ")))
+	c.addLine(c.printString(strings.Join(values, " ")))
 	return nil
 }
 
 func (c *converter) Panic(value string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", value))
+	c.addLine(c.printString(value))
 	c.addLine("exit 1")
 	return nil
 }
@@ -568,6 +568,10 @@ func (c *converter) varEvaluationString(name string, global bool) string {
 	return fmt.Sprintf("${%s}", c.varName(name, global))
 }
 
+func (c *converter) printString(value string) string {
+	return fmt.Sprintf(`printf '%%s\n' "%s"`, value) // In contrast to echo, printf doesn't interpret the value.
+}
+
 func (c *converter) sliceAssignmentString(name string, index string, value string, global bool) string {
 	c.sliceAssignmentHelperRequired = true
 	return fmt.Sprintf(`eval "%s[%s]=\%s"`, name, index, value) // The variable is resolved by eval to make sure its value is not interpreted.
-- 
2.43.0


From b8cae9a294cfaea4e02e32de5f0cefbcfa27582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:13 +0000
Subject: [PATCH 26/64] fix: do not interpret path and content when writing
 files in Bash

---
 converters/bash/converter.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index d9c75ca..2d637f8 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -226,10 +226,16 @@ func (c *converter) Panic(value string) error {
 }
 
 func (c *converter) WriteFile(path string, content string, append string) error {
-	helper := c.nextHelperVar()
-
-	c.VarAssignment(helper, fmt.Sprintf(`$(if [ "%s" -eq "%s" ]; then echo ">>"; else echo ">"; fi)`, append, transpiler.BoolToString(true)), false)
-	c.addLine(fmt.Sprintf(`eval "echo \"%s\" %s %s"`, content, c.varEvaluationString(helper, false), path))
+	printString := c.printString(content)
+
+	c.addLine(fmt.Sprintf(`if [ "%s" -eq "%s" ]; then %s >> "%s"; else %s > "%s"; fi`,
+		append,
+		transpiler.BoolToString(true),
+		printString,
+		path,
+		printString,
+		path,
+	))
 	return nil
 }
 
-- 
2.43.0


From 20285e672b6df214ee05c42a1ad414662288abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:35 +0000
Subject: [PATCH 27/64] fix: store Bash input unchanged and in the variable
 which is read afterwards

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 2d637f8..14f7f0e 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -518,7 +518,7 @@ func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	if len(prompt) > 0 {
 		prompt = fmt.Sprintf(" -p \"%s\"", prompt)
 	}
-	c.addLine(fmt.Sprintf("read%s %s", prompt, helper))
+	c.addLine(fmt.Sprintf("IFS= read -r%s %s", prompt, c.varName(helper, false)))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
-- 
2.43.0


From 61103198880b4961f35b2aef42a4b9ed6fcad45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:39 +0000
Subject: [PATCH 28/64] fix: only remove the last newline when reading files in
 Bash

---
 converters/bash/converter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 14f7f0e..ad24122 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -551,7 +551,12 @@ func (c *converter) Exists(path string, valueUsed bool) (string, error) {
 
 func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, fmt.Sprintf("$(cat \"%s\")", path), false)
+
+	// As command substitution removes all trailing newlines, the content is protected by a
+	// terminating character. Afterwards, only the newline of the last line is removed.
+	c.VarAssignment(helper, fmt.Sprintf(`$(cat < "%s"; echo x)`, path), false)
+	c.VarAssignment(helper, fmt.Sprintf("${%s%%x}", c.varName(helper, false)), false)
+	c.VarAssignment(helper, fmt.Sprintf(`${%s%%$'\n'}`, c.varName(helper, false)), false)
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
-- 
2.43.0


From 2cf7e4ddc01c424f9ef072bad49a67baa22376b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:43 +0000
Subject: [PATCH 29/64] fix: quote the program and all of its arguments in Bash

---
 converters/bash/converter.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index ad24122..d1bfd28 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -479,18 +479,14 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 		argsCopy := call.Args()
 
 		for j, arg := range argsCopy {
-			// If argument is a variable or contains whitespaces, quote it.
-			if strings.HasPrefix(arg, "$") || len(strings.Split(arg, " ")) > 1 {
-				arg = fmt.Sprintf("\"%s\"", arg)
-			}
-			argsCopy[j] = arg
+			argsCopy[j] = fmt.Sprintf(`"%s"`, arg)
 		}
 		space := ""
 
 		if len(argsCopy) > 0 {
 			space = " "
 		}
-		callStrings = append(callStrings, fmt.Sprintf("%s%s%s", call.Name(), space, strings.Join(argsCopy, " ")))
+		callStrings = append(callStrings, fmt.Sprintf(`"%s"%s%s`, c.StringToString(call.Name()), space, strings.Join(argsCopy, " ")))
 	}
 	callString := strings.Join(callStrings, " | ")
 
-- 
2.43.0


From b3ca49452792086e2fa69095d170299d049d0288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:53 +0000
Subject: [PATCH 30/64] fix: quote Batch program arguments which are variables
 or contain special characters

---
 converters/batch/converter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index d45fb2c..dc5ba80 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -678,8 +678,8 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 		argsCopy := call.Args()
 
 		for j, arg := range argsCopy {
-			// If argument is a variable or contains whitespaces, quote it.
-			if strings.HasPrefix(arg, "%") || len(strings.Split(arg, " ")) > 1 {
+			// If argument is empty, a variable or contains special characters, quote it.
+			if len(arg) == 0 || strings.HasPrefix(arg, "!") || strings.ContainsAny(arg, " \t&|<>()^") {
 				arg = fmt.Sprintf(`"%s"`, arg)
 			}
 			argsCopy[j] = arg
-- 
2.43.0


From 049f79b155aca72f5a00b417e210b1e58f35794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:42 +0000
Subject: [PATCH 31/64] fix: reject calls without a single value where a value
 is required

---
 parser/function.go |  9 ++++---
 parser/parser.go   | 64 +++++++++++++++++++++++++++++++++-------------
 parser/types.go    |  1 +
 3 files changed, 53 insertions(+), 21 deletions(-)

diff --git a/parser/function.go b/parser/function.go
index c330183..32db2ca 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -65,10 +65,13 @@ func (e FunctionCall) Args() []Expression {
 func functionValueType(returnTypes []ValueType) ValueType {
 	var valueType ValueType
 
-	if len(returnTypes) > 1 {
-		valueType = NewValueType(DATA_TYPE_MULTIPLE, false)
-	} else {
+	switch len(returnTypes) {
+	case 0:
+		valueType = NewValueType(DATA_TYPE_VOID, false)
+	case 1:
 		valueType = returnTypes[0]
+	default:
+		valueType = NewValueType(DATA_TYPE_MULTIPLE, false)
 	}
 	return valueType
 }
diff --git a/parser/parser.go b/parser/parser.go
index 7e4bd93..8b80045 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -522,36 +522,33 @@ func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
 
 	for {
 		exprToken := p.peek()
-		expr, err := p.evaluateExpression(ctx)
+		expr, err := p.evaluateCallOrExpression(ctx)
 
 		if err != nil {
 			return evaluatedValues{}, err
 		}
 		expressions = append(expressions, expr)
 		nextToken := p.peek()
-		returnValuesLength := -1
-		funcName := ""
+		valuesFollow := nextToken.Type() == lexer.COMMA
 
-		// If expression is a function, check if it returns a value.
-		if expr.StatementType() == STATEMENT_TYPE_FUNCTION_CALL {
-			call := expr.(FunctionCall)
-			returnValuesLength = len(call.ReturnTypes())
-			funcName = call.Name()
+		// If expression is a call, check if it returns a suitable amount of values.
+		if call, ok := expr.(Call); ok {
+			returnValuesLength := len(call.ReturnTypes())
 
 			if returnValuesLength == 0 {
-				return evaluatedValues{}, p.expectedError(fmt.Sprintf(`return value from function "%s"`, funcName), exprToken)
+				return evaluatedValues{}, p.expectedError(fmt.Sprintf(`return value from function "%s"`, call.Name()), exprToken)
+			}
+
+			// If it's not the only value, function must only return one value.
+			if returnValuesLength > 1 && (valuesFollow || len(expressions) > 1) {
+				return evaluatedValues{}, p.expectedError(fmt.Sprintf(`only one return value from function "%s"`, call.Name()), exprToken)
 			}
 		}
 		// Check if other values follow.
-		if nextToken.Type() != lexer.COMMA {
+		if !valuesFollow {
 			break
 		}
 		p.eat() // Eat comma token.
-
-		// If other values follow, function must only return one value.
-		if returnValuesLength > 1 {
-			return evaluatedValues{}, p.expectedError(fmt.Sprintf(`only one return value from function "%s"`, funcName), exprToken)
-		}
 	}
 	return evaluatedValues{
 		values: expressions,
@@ -575,8 +572,14 @@ func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword stri
 
 	// Evaluate arguments if it's a print call with arguments.
 	if nextToken.Type() != lexer.CLOSING_ROUND_BRACKET {
+		evaluate := p.evaluateExpression
+
+		// All return values of a single call can be printed at once.
+		if tokenType == lexer.PRINT {
+			evaluate = p.evaluateCallOrExpression
+		}
 		for {
-			expr, err := p.evaluateExpression(ctx)
+			expr, err := evaluate(ctx)
 
 			if err != nil {
 				return nil, err
@@ -2171,10 +2174,27 @@ func (p *Parser) evaluateLogicalOr(ctx context) (Expression, error) {
 	return p.evaluateLogicalOperation(ctx, LOGICAL_OPERATOR_OR, p.evaluateLogicalAnd)
 }
 
-func (p *Parser) evaluateExpression(ctx context) (Expression, error) {
+// Evaluates an expression which might also be a call that returns no or multiple values.
+func (p *Parser) evaluateCallOrExpression(ctx context) (Expression, error) {
 	return p.evaluateLogicalOr(ctx)
 }
 
+// Evaluates an expression which must represent exactly one value.
+func (p *Parser) evaluateExpression(ctx context) (Expression, error) {
+	exprToken := p.peek()
+	expr, err := p.evaluateCallOrExpression(ctx)
+
+	if err != nil {
+		return nil, err
+	}
+	valueType := expr.ValueType()
+
+	if slices.Contains([]DataType{DATA_TYPE_VOID, DATA_TYPE_MULTIPLE}, valueType.DataType()) {
+		return nil, p.expectedError(fmt.Sprintf("a single value but got %s", valueType.String()), exprToken)
+	}
+	return expr, nil
+}
+
 func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
 	var stmt Statement
 	var err error
@@ -2231,7 +2251,7 @@ func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
 			}
 
 			if err == nil && stmt == nil {
-				stmt, err = p.evaluateExpression(ctx)
+				stmt, err = p.evaluateCallOrExpression(ctx)
 			}
 		}
 	}
@@ -2837,6 +2857,14 @@ func (p *Parser) evaluateInput(ctx context) (Expression, error) {
 
 func (p *Parser) evaluatePrint(ctx context) (Statement, error) {
 	return p.evaluateBuiltInFunction(lexer.PRINT, "print", 0, -1, ctx, func(keywordToken lexer.Token, expressions []Expression) (Statement, error) {
+		for _, expr := range expressions {
+			valueType := expr.ValueType()
+			dataType := valueType.DataType()
+
+			if dataType == DATA_TYPE_VOID || (dataType == DATA_TYPE_MULTIPLE && len(expressions) > 1) {
+				return nil, p.expectedError(fmt.Sprintf("a single value but got %s", valueType.String()), keywordToken)
+			}
+		}
 		return Print{
 			expressions: expressions,
 		}, nil
diff --git a/parser/types.go b/parser/types.go
index a38d93a..b96a39c 100644
--- a/parser/types.go
+++ b/parser/types.go
@@ -102,6 +102,7 @@ const (
 const (
 	DATA_TYPE_UNKNOWN  DataType = "unknown"
 	DATA_TYPE_MULTIPLE DataType = "multiple"
+	DATA_TYPE_VOID     DataType = "void"
 	DATA_TYPE_BOOLEAN  DataType = "bool"
 	DATA_TYPE_INTEGER  DataType = "int"
 	DATA_TYPE_STRING   DataType = "string"
-- 
2.43.0


From 7bc317dfe48f5be79dcec6be07fe8036020ea209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:54 +0000
Subject: [PATCH 32/64] fix: reject logical operations with a non-boolean right
 operand

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 8b80045..c2ebb54 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2367,6 +2367,10 @@ func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator,
 		if errTemp != nil {
 			return nil, errTemp
 		}
+
+		if !rightExpression.ValueType().IsBool() {
+			return nil, p.expectedError("boolean value", operatorToken)
+		}
 		leftExpression = LogicalOperation{
 			left:     leftExpression,
 			operator: operatorValue,
-- 
2.43.0


From e99445f66c084af6345accbc4a531dc38d0050df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:59 +0000
Subject: [PATCH 33/64] fix: check the argument types of input and write

---
 parser/parser.go         | 6 +++++-
 transpiler/transpiler.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c2ebb54..dfdd0ec 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2847,6 +2847,10 @@ func (p *Parser) evaluateInput(ctx context) (Expression, error) {
 
 		if len(expressions) > 0 {
 			expr = expressions[0]
+
+			if !expr.ValueType().IsString() {
+				return nil, p.expectedError("prompt string", keywordToken)
+			}
 		}
 		return Input{
 			prompt: expr,
@@ -2982,7 +2986,7 @@ func (p *Parser) evaluateWrite(ctx context) (Expression, error) {
 		}
 		data := expressions[1]
 
-		if !path.ValueType().IsString() {
+		if !data.ValueType().IsString() {
 			return nil, p.expectedError("data string as second parameter", keywordToken)
 		}
 		var append Expression = BooleanLiteral{false}
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 3f3e274..75511d3 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -730,7 +730,7 @@ func (t *transpiler) evaluateInput(input parser.Input, valueUsed bool) (expressi
 	prompt := input.Prompt()
 
 	if prompt != nil {
-		result, err := t.evaluateExpression(prompt, valueUsed)
+		result, err := t.evaluateExpression(prompt, true)
 
 		if err != nil {
 			return expressionResult{}, err
-- 
2.43.0


From 333c0d28575ce6bf8fa8be1142a35b960ea43e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:04 +0000
Subject: [PATCH 34/64] fix: reject the assignment of a slice to a slice
 element

---
 parser/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index dfdd0ec..e1c7168 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2778,11 +2778,11 @@ func (p *Parser) evaluateSliceAssignment(ctx context) (Statement, error) {
 	if err != nil {
 		return nil, err
 	}
-	variableDataType := variableValueType.DataType()
-	assignedDataType := value.ValueType().DataType()
+	elementValueType := NewValueType(variableValueType.DataType(), false)
+	assignedValueType := value.ValueType()
 
-	if variableDataType != assignedDataType {
-		return nil, p.expectedError(fmt.Sprintf("%s value but got %s", variableDataType, assignedDataType), valueToken)
+	if !elementValueType.Equals(assignedValueType) {
+		return nil, p.expectedError(fmt.Sprintf("%s value but got %s", elementValueType.String(), assignedValueType.String()), valueToken)
 	}
 	return SliceAssignment{
 		Variable: variable,
-- 
2.43.0


From 4d4e850fc0cd49921499cbe561e6a701bf617288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:09 +0000
Subject: [PATCH 35/64] fix: keep the type of a variable which is re-assigned
 by a short definition

---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index e1c7168..e2af56f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1083,12 +1083,17 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		if exists && specifiedType.DataType() != DATA_TYPE_UNKNOWN && !specifiedType.Equals(variableValueType) {
 			return nil, p.atError(fmt.Sprintf(`variable "%s" already exists but has type %s`, name, variableValueType.String()), nextToken)
 		}
+		valueType := specifiedType
 		storedName := name
 
+		// If the variable is only re-assigned, it must keep its type.
+		if exists {
+			valueType = variableValueType
+		}
 		if global {
 			storedName = buildPrefixedName(prefix, name)
 		}
-		variables = append(variables, NewVariable(storedName, specifiedType, global, isPublic(name)))
+		variables = append(variables, NewVariable(storedName, valueType, global, isPublic(name)))
 	}
 	values := []Expression{}
 
-- 
2.43.0


From 6083e5fcd94c8ec7ecb16fbe563673a548de373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:14 +0000
Subject: [PATCH 36/64] fix: evaluate comparison chains from left to right

---
 parser/parser.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e2af56f..57ba389 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2321,12 +2321,17 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 	if err != nil {
 		return nil, err
 	}
-	operatorToken := p.peek()
-	operator := operatorToken.Value()
 
-	if operatorToken.Type() == lexer.COMPARE_OPERATOR {
+	// To implement associativity, use for-loop and keep appending same prio-expressions.
+	for {
+		operatorToken := p.peek()
+		operator := operatorToken.Value()
+
+		if operatorToken.Type() != lexer.COMPARE_OPERATOR {
+			break
+		}
 		p.eat() // Eat operator token.
-		rightExpression, err := p.evaluateComparison(ctx)
+		rightExpression, err := p.evaluateAddition(ctx)
 
 		if err != nil {
 			return nil, err
@@ -2342,7 +2347,7 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 		if !slices.Contains(allowedOperators, operator) {
 			return nil, p.expectedError(fmt.Sprintf(`valid %s operator but got "%s"`, leftType.String(), operator), operatorToken)
 		}
-		return NewComparison(leftExpression, operator, rightExpression), nil
+		leftExpression = NewComparison(leftExpression, operator, rightExpression)
 	}
 	return leftExpression, nil
 }
-- 
2.43.0


From 38cd0d9430344c1037941830b69db63c5c450769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 37/64] fix: check the values of every return statement of a
 function

---
 parser/literals.go       |  1 +
 parser/parser.go         | 66 ++++++++++++++++++++++++++++++----------
 transpiler/transpiler.go | 12 ++++++++
 3 files changed, 63 insertions(+), 16 deletions(-)

diff --git a/parser/literals.go b/parser/literals.go
index 8171ee3..f3eebdc 100644
--- a/parser/literals.go
+++ b/parser/literals.go
@@ -34,6 +34,7 @@ func (l IntegerLiteral) Value() int {
 
 type StringLiteral struct {
 	value string
+	isNil bool
 }
 
 func (l StringLiteral) StatementType() StatementType {
diff --git a/parser/parser.go b/parser/parser.go
index 57ba389..0e75c2c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -180,6 +180,21 @@ func (ev evaluatedValues) isMultiReturnCall() (bool, Call) {
 	return multi, call
 }
 
+// Returns the types of all values. If the only value is a multi-return call, its return types are returned.
+func (ev evaluatedValues) types() []ValueType {
+	isMultiReturnCall, call := ev.isMultiReturnCall()
+
+	if isMultiReturnCall {
+		return call.ReturnTypes()
+	}
+	types := []ValueType{}
+
+	for _, value := range ev.values {
+		types = append(types, value.ValueType())
+	}
+	return types
+}
+
 type blockCallback func(statements []Statement, last bool) error
 
 type Parser struct {
@@ -188,6 +203,7 @@ type Parser struct {
 	path      string
 	prefix    string
 	currFunc  string
+	currTypes []ValueType         // Return types of the current function.
 	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
 	tempCount int                 // Number of temporary variables.
 }
@@ -1459,6 +1475,7 @@ func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
 
 	// Make sure sub-statements know in which function they are currently in.
 	p.currFunc = prefixedName
+	p.currTypes = returnTypes
 
 	statements, err := p.evaluateBlock(func(statements []Statement, last bool) error {
 		var errTemp error
@@ -1475,22 +1492,8 @@ func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
 				// TODO: Add token position to errors to raise clearer error messages.
 				if lastStatement == nil || lastStatement.StatementType() != STATEMENT_TYPE_RETURN {
 					errTemp = fmt.Errorf(`function "%s" requires a return statement at the end of the block`, name)
-				} else if returnStatement := lastStatement.(Return); len(returnStatement.Values()) != len(returnTypes) {
-					errTemp = fmt.Errorf(`function "%s" requires %d return values but returns %d`, name, len(returnTypes), len(returnStatement.Values()))
-				} else {
-					for i, returnValue := range returnStatement.Values() {
-						returnType := returnTypes[i]
-						returnValueType := returnValue.ValueType()
-
-						if !returnValueType.Equals(returnType) {
-							errTemp = fmt.Errorf(`function "%s" returns %s but expects %s`, name, returnValueType.String(), returnType.String())
-							break
-						}
-					}
 				}
 			}
-		} else if lastStatement != nil && lastStatement.StatementType() == STATEMENT_TYPE_RETURN {
-			errTemp = fmt.Errorf("function %s must not have a return statement", name)
 		}
 		return errTemp
 	}, ctx, SCOPE_FUNCTION)
@@ -1499,6 +1502,7 @@ func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
 		return nil, err
 	}
 	p.currFunc = ""
+	p.currTypes = nil
 
 	return FunctionDefinition{
 		name:        prefixedName,
@@ -1518,11 +1522,37 @@ func (p *Parser) evaluateReturn(ctx context) (Statement, error) {
 	if returnToken.Type() != lexer.RETURN {
 		return nil, p.expectedKeywordError("return", returnToken)
 	}
+	valuesToken := p.peek()
 	evaluatedVals, err := p.evaluateValues(ctx)
 
 	if err != nil {
 		return nil, err
 	}
+	returnTypesLen := len(p.currTypes)
+
+	// If nil is returned as a slice, return an empty slice.
+	for i, value := range evaluatedVals.values {
+		literal, ok := value.(StringLiteral)
+
+		if ok && literal.isNil && i < returnTypesLen && p.currTypes[i].IsSlice() {
+			evaluatedVals.values[i] = SliceInstantiation{dataType: p.currTypes[i].DataType()}
+		}
+	}
+	valuesTypes := evaluatedVals.types()
+	valuesTypesLen := len(valuesTypes)
+
+	// Make sure that the returned values fit the return types of the function.
+	if valuesTypesLen != returnTypesLen {
+		return nil, p.expectedError(fmt.Sprintf("%d return values but got %d", returnTypesLen, valuesTypesLen), valuesToken)
+	}
+
+	for i, valueType := range valuesTypes {
+		returnType := p.currTypes[i]
+
+		if !valueType.Equals(returnType) {
+			return nil, p.expectedError(fmt.Sprintf("%s as return value but got %s", returnType.String(), valueType.String()), valuesToken)
+		}
+	}
 	return Return{
 		values: evaluatedVals.values,
 	}, nil
@@ -2041,8 +2071,12 @@ func (p *Parser) evaluateSingleExpression(ctx context) (Expression, error) {
 			value: integer,
 		}
 	case lexer.NIL_LITERAL:
-		p.eat()                // Eat string token.
-		expr = StringLiteral{} // nil is an empty string literal.
+		p.eat() // Eat string token.
+
+		// nil is an empty string literal.
+		expr = StringLiteral{
+			isNil: true,
+		}
 	case lexer.STRING_LITERAL:
 		p.eat() // Eat string token.
 		expr = StringLiteral{
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 75511d3..ad50b91 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -620,6 +620,18 @@ func (t *transpiler) evaluateReturn(returnStatement parser.Return) error {
 		if err != nil {
 			return err
 		}
+		call, ok := expr.(parser.Call)
+
+		// If all values of a call are returned, pass them on one by one.
+		if ok && len(call.ReturnTypes()) > 1 {
+			for i, returnType := range call.ReturnTypes() {
+				returnValues = append(returnValues, ReturnValue{
+					value:     result.values[i],
+					valueType: returnType,
+				})
+			}
+			continue
+		}
 		returnValues = append(returnValues, ReturnValue{
 			value:     result.firstValue(),
 			valueType: expr.ValueType(),
-- 
2.43.0


From 65ffd8ee06d8ae6fb9847d721beb67147b572a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 38/64] fix: accept a multi-value call as arguments of a
 function

---
 parser/parser.go         | 32 ++++++++++++++++++++++----------
 transpiler/transpiler.go |  2 +-
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0e75c2c..b3ac49f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2433,6 +2433,7 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 	}
 	nextToken := p.peek()
 	args := []Expression{}
+	argTypes := []ValueType{}
 	ignoreParams := params == nil // If params is nil, arguments will not be checked for length or type.
 	paramsLength := 0
 
@@ -2447,7 +2448,13 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 	for nextToken.Type() != lexer.CLOSING_ROUND_BRACKET {
 		var expr Expression
 		argToken := nextToken
-		expr, err = p.evaluateExpression(ctx)
+		evaluate := p.evaluateExpression
+
+		// All return values of a single call can be used as arguments of a function.
+		if !ignoreParams && len(args) == 0 {
+			evaluate = p.evaluateCallOrExpression
+		}
+		expr, err = evaluate(ctx)
 
 		if err != nil {
 			return nil, err
@@ -2455,7 +2462,12 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 		args = append(args, expr)
 
 		if !ignoreParams {
-			argsLength := len(args)
+			// If a call returns multiple values, it must be the only argument.
+			if len(args) > 1 && args[0].ValueType().DataType() == DATA_TYPE_MULTIPLE {
+				return nil, p.expectedError("a single value per argument", argToken)
+			}
+			argTypes = append(argTypes, evaluatedValues{values: []Expression{expr}}.types()...)
+			argsLength := len(argTypes)
 
 			// Make sure arguments have not been exceeded.
 			if argsLength > paramsLength {
@@ -2463,13 +2475,13 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 			}
 
 			// Make sure argument type fits parameter type.
-			lastArgsIndex := argsLength - 1
-			param := params[lastArgsIndex]
-			lastParamType := param.ValueType()
-			lastArgType := expr.ValueType()
+			for i, argType := range argTypes {
+				param := params[i]
+				paramType := param.ValueType()
 
-			if !lastParamType.Equals(lastArgType) {
-				return nil, p.expectedError(fmt.Sprintf("parameter %s (%s) but got %s", lastParamType.String(), param.Name(), lastArgType.String()), argToken)
+				if !paramType.Equals(argType) {
+					return nil, p.expectedError(fmt.Sprintf("parameter %s (%s) but got %s", paramType.String(), param.Name(), argType.String()), argToken)
+				}
 			}
 		}
 		nextToken = p.peek()
@@ -2485,9 +2497,9 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 
 	// Check for the appropriate arguments amount.
 	if !ignoreParams {
-		argsLength := len(args)
+		argsLength := len(argTypes)
 
-		if len(args) != paramsLength {
+		if argsLength != paramsLength {
 			return nil, argsLengthError(argsLength)
 		}
 	}
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index ad50b91..dc188f7 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -671,7 +671,7 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 		if err != nil {
 			return expressionResult{}, err
 		}
-		args = append(args, result.firstValue())
+		args = append(args, result.values...)
 	}
 	returnTypes := functionCall.ReturnTypes()
 	values, err := t.converter.FuncCall(name, args, returnTypes, valueUsed)
-- 
2.43.0


From b1203b2338972524aaf5be2400e9ba7060c37b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:33 +0000
Subject: [PATCH 39/64] fix: reject break statements outside of a loop

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index b3ac49f..3515410 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1560,7 +1560,7 @@ func (p *Parser) evaluateReturn(ctx context) (Statement, error) {
 
 func (p *Parser) evaluateBreak(ctx context) (Statement, error) {
 	breakToken := p.eat()
-	breakScopes := []scope{SCOPE_FOR, SCOPE_SWITCH}
+	breakScopes := []scope{SCOPE_FOR}
 	scopeOk := false
 
 	for _, breakScope := range breakScopes {
-- 
2.43.0


From 0425804a726f5415b07fc48e31d725e1caa9977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:38 +0000
Subject: [PATCH 40/64] fix: reject duplicate parameter names

---
 parser/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3515410..042b30b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1358,6 +1358,13 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		name := nameToken.Value()
 		_, exists := ctx.findVariable(name, p.prefix, false)
 
+		// Make sure that parameter names are unique.
+		if !exists {
+			exists = slices.ContainsFunc(params, func(param Variable) bool {
+				return param.Name() == name
+			})
+		}
+
 		if exists {
 			return params, fmt.Errorf("scope already contains a variable with the name %s", name)
 		}
-- 
2.43.0


From ac583e0d442c105679e855dd04a30ee9bb504c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 41/64] fix: reject variables which are defined twice by one
 statement

---
 parser/parser.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 042b30b..104307c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1026,6 +1026,15 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 	nameTokensLength := len(nameTokens)
 	firstNameToken := nameTokens[0]
 
+	// Make sure that no variable is defined more than once.
+	for i, nameToken := range nameTokens {
+		for _, prevNameToken := range nameTokens[:i] {
+			if prevNameToken.Value() == nameToken.Value() {
+				return nil, p.atError(fmt.Sprintf("variable %s is defined more than once", nameToken.Value()), nameToken)
+			}
+		}
+	}
+
 	// Check if all variables are already defined.
 	if nameTokensLength > 1 {
 		alreadyDefined := 0
@@ -1838,6 +1847,10 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 				return nil, err
 			}
 			valueVarName = nextToken.Value()
+
+			if valueVarName == indexVarName {
+				return nil, p.atError(fmt.Sprintf("variable %s has already been defined", valueVarName), nextToken)
+			}
 		}
 		nextToken = p.eat()
 		hasNamedVar := len(valueVarName) > 0
-- 
2.43.0


From 346ab165ec4482aa586fa527dd8ca30c2452cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:12 +0000
Subject: [PATCH 42/64] fix: accept all assignment forms in three-part for
 loops

---
 parser/parser.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 104307c..2b2eed0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1817,13 +1817,18 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 	var stmt Statement
 	nextToken := p.peek()
 	nextTokenType := nextToken.Type()
-	nextAfterNextTokenType := p.peekAt(1).Type()
+	shortInitIndex := uint(1)
 
 	// Clone context to avoid modification of the original.
 	ctx = ctx.clone()
 
-	// If next token is an identifier and the one after it a comma or a short-init operator and range keyword, parse a for-range statement.
-	if nextTokenType == lexer.IDENTIFIER && (nextAfterNextTokenType == lexer.COMMA || (nextAfterNextTokenType == lexer.SHORT_INIT_OPERATOR && p.peekAt(2).Type() == lexer.RANGE)) {
+	// A for-range statement might define a second variable.
+	if p.peekAt(1).Type() == lexer.COMMA {
+		shortInitIndex = 3
+	}
+
+	// If the identifiers are followed by a short-init operator and range keyword, parse a for-range statement.
+	if nextTokenType == lexer.IDENTIFIER && p.peekAt(shortInitIndex).Type() == lexer.SHORT_INIT_OPERATOR && p.peekAt(shortInitIndex+1).Type() == lexer.RANGE {
 		p.eat()
 		err := p.checkNewVariableNameToken(nextToken, ctx)
 
@@ -1970,7 +1975,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 					if err != nil {
 						return nil, err
 					}
-				case STATEMENT_TYPE_VAR_ASSIGNMENT:
+				case STATEMENT_TYPE_VAR_ASSIGNMENT, STATEMENT_TYPE_VAR_ASSIGNMENT_CALL_ASSIGNMENT, STATEMENT_TYPE_SLICE_ASSIGNMENT, STATEMENT_TYPE_FUNCTION_CALL:
 				default:
 					return nil, p.expectedError("variable assignment or variable definition", nextToken)
 				}
@@ -2009,7 +2014,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 					return nil, err
 				}
 				switch increment.StatementType() {
-				case STATEMENT_TYPE_VAR_ASSIGNMENT:
+				case STATEMENT_TYPE_VAR_ASSIGNMENT, STATEMENT_TYPE_VAR_ASSIGNMENT_CALL_ASSIGNMENT, STATEMENT_TYPE_SLICE_ASSIGNMENT, STATEMENT_TYPE_FUNCTION_CALL:
 				default:
 					return nil, p.expectedError("variable assignment", nextToken)
 				}
-- 
2.43.0


From 5c91bf632907d34b360e0719520da93cc68ab16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:54 +0000
Subject: [PATCH 43/64] fix: leave the switch instead of the loop around it on
 break

---
 converters/bash/converter.go  | 28 ++++++++++++++++++++++++--
 converters/batch/converter.go | 19 ++++++++++++++++++
 parser/if.go                  |  6 ++++++
 parser/parser.go              | 38 +++++++++++++++++++++++++++--------
 transpiler/converter.go       |  2 ++
 transpiler/transpiler.go      | 16 ++++++++++++++-
 6 files changed, 98 insertions(+), 11 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index d1bfd28..be10e5e 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -20,6 +20,7 @@ type converter struct {
 	varCounter                    int
 	forCounter                    int
 	forVars                       []string
+	switchDepths                  []int // Number of open switches within each open loop.
 	funcs                         []funcInfo
 	funcCounter                   int
 	sliceAssignmentHelperRequired bool
@@ -173,6 +174,7 @@ func (c *converter) ForStart() error {
 	// Each loop requires its own flag, otherwise an inner loop resets the flag of its surrounding loop.
 	c.forVars = append(c.forVars, fmt.Sprintf("_fv%d", c.forCounter))
 	c.forCounter++
+	c.switchDepths = append(c.switchDepths, 0)
 
 	c.addLine(fmt.Sprintf(`%s=`, c.mustCurrentForVar()))
 	c.addLine("while true; do")
@@ -200,17 +202,39 @@ func (c *converter) ForEnd() error {
 
 	lastIndex := len(c.forVars) - 1
 	c.forVars = slices.Delete(c.forVars, lastIndex, lastIndex+1)
+	c.switchDepths = slices.Delete(c.switchDepths, lastIndex, lastIndex+1)
 
 	return nil
 }
 
+func (c *converter) SwitchStart() error {
+	// A loop which only runs once allows to leave the switch via break.
+	c.switchDepths[len(c.switchDepths)-1]++
+	c.addLine("while true; do")
+	return nil
+}
+
+func (c *converter) SwitchEnd() error {
+	c.addLine("break")
+	c.addLine("done")
+	c.switchDepths[len(c.switchDepths)-1]--
+	return nil
+}
+
 func (c *converter) Break() error {
-	c.addLine("break") // TODO: Break within switch. This might be a good solution -> https://stackoverflow.com/a/30874026.
+	c.addLine("break")
 	return nil
 }
 
 func (c *converter) Continue() error {
-	c.addLine("continue")
+	depth := c.switchDepths[len(c.switchDepths)-1]
+
+	// If the statement is located within a switch, the switch needs to be left as well.
+	if depth > 0 {
+		c.addLine(fmt.Sprintf("continue %d", depth+1))
+	} else {
+		c.addLine("continue")
+	}
 	return nil
 }
 
diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index dc5ba80..5583d8d 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -378,6 +378,25 @@ func (c *converter) ForEnd() error {
 	return nil
 }
 
+func (c *converter) SwitchStart() error {
+	// The switch shares everything but the end-label with the loop around it.
+	w := c.fors[len(c.fors)-1]
+	w.endLabel = c.nextForInfo().endLabel
+	c.fors = append(c.fors, w)
+
+	return nil
+}
+
+func (c *converter) SwitchEnd() error {
+	c.Nop() // Two labels must not follow each other within a block.
+	c.addLine(c.mustCurrentEndLabel())
+
+	lastIndex := len(c.fors) - 1
+	c.fors = slices.Delete(c.fors, lastIndex, lastIndex+1)
+
+	return nil
+}
+
 func (c *converter) Break() error {
 	c.addLine(fmt.Sprintf("goto %s", c.mustCurrentEndLabel()))
 	return nil
diff --git a/parser/if.go b/parser/if.go
index 25eb9a2..164f30b 100644
--- a/parser/if.go
+++ b/parser/if.go
@@ -26,6 +26,7 @@ type If struct {
 	ifBranch     IfBranch
 	elifBranches []IfBranch
 	elseBranch   Else
+	hasBreak     bool
 }
 
 func (i If) StatementType() StatementType {
@@ -37,6 +38,11 @@ func (i If) Init() Statement {
 	return i.init
 }
 
+// HasBreak returns true if the statement originates from a switch which is left by a break.
+func (i If) HasBreak() bool {
+	return i.hasBreak
+}
+
 func (i If) IfBranch() IfBranch {
 	return i.ifBranch
 }
diff --git a/parser/parser.go b/parser/parser.go
index 2b2eed0..b6b0489 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -56,6 +56,16 @@ func newContext() context {
 	}
 }
 
+// Returns the innermost of the passed scopes or an empty scope if none is active.
+func (c context) innermostScope(scopes ...scope) scope {
+	for i := len(c.scopeStack) - 1; i >= 0; i-- {
+		if slices.Contains(scopes, c.scopeStack[i]) {
+			return c.scopeStack[i]
+		}
+	}
+	return ""
+}
+
 func (c context) currentScope() scope {
 	return c.scopeStack[len(c.scopeStack)-1]
 }
@@ -198,14 +208,15 @@ func (ev evaluatedValues) types() []ValueType {
 type blockCallback func(statements []Statement, last bool) error
 
 type Parser struct {
-	tokens    []lexer.Token
-	index     int
-	path      string
-	prefix    string
-	currFunc  string
-	currTypes []ValueType         // Return types of the current function.
-	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
-	tempCount int                 // Number of temporary variables.
+	tokens      []lexer.Token
+	index       int
+	path        string
+	prefix      string
+	currFunc    string
+	currTypes   []ValueType         // Return types of the current function.
+	usedFuncs   map[string][]string // Stores which function (key) calls which functions (values).
+	tempCount   int                 // Number of temporary variables.
+	switchBreak bool                // Stores if the current switch is left by a break.
 }
 
 func New() Parser {
@@ -1589,6 +1600,11 @@ func (p *Parser) evaluateBreak(ctx context) (Statement, error) {
 	if !scopeOk {
 		return nil, p.expectedError(fmt.Sprintf("break statement within %s-scope", strings.Join(scopesToString(breakScopes), "- or ")), breakToken)
 	}
+
+	// If the break belongs to a switch, the switch needs to be left, not the loop around it.
+	if ctx.innermostScope(SCOPE_FOR, SCOPE_SWITCH) == SCOPE_SWITCH {
+		p.switchBreak = true
+	}
 	return Break{}, nil
 }
 
@@ -1688,6 +1704,9 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	if switchToken.Type() != lexer.SWITCH {
 		return nil, p.expectedKeywordError("switch", switchToken)
 	}
+	outerSwitchBreak := p.switchBreak
+	p.switchBreak = false
+
 	var switchExpr Expression
 	var err error
 
@@ -1805,6 +1824,9 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	if nextToken.Type() != lexer.CLOSING_CURLY_BRACKET {
 		return nil, p.expectedError(`"}"`, nextToken)
 	}
+	fakeIf.hasBreak = p.switchBreak
+	p.switchBreak = outerSwitchBreak
+
 	return fakeIf, nil
 }
 
diff --git a/transpiler/converter.go b/transpiler/converter.go
index c0561c4..065e374 100644
--- a/transpiler/converter.go
+++ b/transpiler/converter.go
@@ -72,6 +72,8 @@ type Converter interface {
 	ForIncrementEnd() error
 	ForCondition(condition string) error
 	ForEnd() error
+	SwitchStart() error
+	SwitchEnd() error
 	Break() error
 	Continue() error
 	Print(value []string) error
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index dc188f7..92fbaa2 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -272,6 +272,15 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 		}
 		elifConditions = append(elifConditions, result.firstValue())
 	}
+
+	// Switches which are left by a break need to be distinguishable from the loop around them.
+	if ifStatement.HasBreak() {
+		err = conv.SwitchStart()
+
+		if err != nil {
+			return err
+		}
+	}
 	err = conv.IfStart(result.firstValue())
 
 	if err != nil {
@@ -318,7 +327,12 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 			return err
 		}
 	}
-	return conv.IfEnd()
+	err = conv.IfEnd()
+
+	if err != nil || !ifStatement.HasBreak() {
+		return err
+	}
+	return conv.SwitchEnd()
 }
 
 func (t *transpiler) evaluateFor(forStatement parser.For) error {
-- 
2.43.0


From 09c600e8689d8fd184e5e1f13f68f9b886e58aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 44/64] fix: resolve global variables within blocks and
 functions of imported files

---
 parser/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index b6b0489..b8176e0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -137,6 +137,15 @@ func (c context) findImport(alias string) (string, bool) {
 }
 
 func (c context) findVariable(name string, prefix string, global bool) (Variable, bool) {
+	// Within blocks and functions, local variables (which are not prefixed) are visible in addition to the global ones.
+	if !global {
+		variable, exists := c.variables[strings.TrimSpace(name)]
+
+		if exists {
+			return variable, true
+		}
+		global = true
+	}
 	prefixedName, err := c.buildPrefixedName(name, prefix, global, true)
 
 	if err != nil {
-- 
2.43.0


From 880eed7ac531aac0abf1f1806dd209a20d397597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 45/64] fix: keep functions which are used by the top-level
 code of several files

---
 parser/parser.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b8176e0..2f780f4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -767,13 +767,9 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 
 			// Import-parser funcs with current parser funcs.
 			for funcName, usedFuncs := range importParser.usedFuncs {
-				if foundUsedFuncs, exists := p.usedFuncs[funcName]; !exists {
-					p.usedFuncs[funcName] = usedFuncs
-				} else {
-					for _, usedFunc := range foundUsedFuncs {
-						if !slices.Contains(foundUsedFuncs, usedFunc) {
-							p.usedFuncs[funcName] = append(p.usedFuncs[funcName], usedFunc)
-						}
+				for _, usedFunc := range usedFuncs {
+					if !slices.Contains(p.usedFuncs[funcName], usedFunc) {
+						p.usedFuncs[funcName] = append(p.usedFuncs[funcName], usedFunc)
 					}
 				}
 			}
-- 
2.43.0


From 0e26739251dbe1367ce1b12f442ac17732583bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 46/64] fix: accept imports at the end of a file without a
 final newline

---
 parser/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2f780f4..6d60c59 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -839,9 +839,12 @@ func (p *Parser) evaluateImport() (evaluatedImport, error) {
 		return evaluatedImport{}, p.expectedError("import path", nextToken)
 	}
 	path := nextToken.Value()
-	nextToken = p.eat()
+	nextToken = p.peek()
 
-	if !slices.Contains([]lexer.TokenType{lexer.NEWLINE, lexer.EOF}, nextToken.Type()) {
+	// The end-of-file must not be consumed because it also terminates the program.
+	if nextToken.Type() == lexer.NEWLINE {
+		p.eat()
+	} else if nextToken.Type() != lexer.EOF {
 		return evaluatedImport{}, p.expectedError("newline or end-of-file", nextToken)
 	}
 	return evaluatedImport{
-- 
2.43.0


From f527e788c79339c041b7432ae3e2cf8ff1c31d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 47/64] fix: start the prefix of imported files with a letter

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6d60c59..6bf1448 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -273,7 +273,8 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 		h := sha256.New()
 		h.Write(source)
 
-		p.prefix = fmt.Sprintf("%x", h.Sum(nil))[0:7] // Only use the 7 first characters (inspired by Git).
+		hash := fmt.Sprintf("%x", h.Sum(nil))[0:7] // Only use the 7 first characters (inspired by Git).
+		p.prefix = fmt.Sprintf("i%s", hash)        // The letter makes sure that prefixed names are valid identifiers.
 	}
 	program, err := p.evaluateProgram()
 
-- 
2.43.0


From f5151b2b550b05824692c5beb5a26506ab275a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 48/64] fix: define files which are imported several times only
 once and reject import cycles

---
 parser/parser.go | 131 +++++++++++++++++++++++++++++------------------
 1 file changed, 82 insertions(+), 49 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6bf1448..e312275 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -214,6 +214,12 @@ func (ev evaluatedValues) types() []ValueType {
 	return types
 }
 
+// importedFile stores what is required if a file is imported several times.
+type importedFile struct {
+	prefix    string
+	functions []FunctionDefinition
+}
+
 type blockCallback func(statements []Statement, last bool) error
 
 type Parser struct {
@@ -222,10 +228,12 @@ type Parser struct {
 	path        string
 	prefix      string
 	currFunc    string
-	currTypes   []ValueType         // Return types of the current function.
-	usedFuncs   map[string][]string // Stores which function (key) calls which functions (values).
-	tempCount   int                 // Number of temporary variables.
-	switchBreak bool                // Stores if the current switch is left by a break.
+	currTypes   []ValueType             // Return types of the current function.
+	usedFuncs   map[string][]string     // Stores which function (key) calls which functions (values).
+	imported    map[string]importedFile // Stores all files which have already been imported (shared by the parsers of all files).
+	importPath  []string                // Stores the files which lead to the current file, including itself.
+	tempCount   int                     // Number of temporary variables.
+	switchBreak bool                    // Stores if the current switch is left by a break.
 }
 
 func New() Parser {
@@ -235,6 +243,9 @@ func New() Parser {
 }
 
 func (p *Parser) Parse(path string) (Program, error) {
+	p.imported = map[string]importedFile{}
+	p.importPath = nil
+
 	return p.parse(path, false)
 }
 
@@ -266,6 +277,7 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 	p.index = 0
 	p.tokens = tokens
 	p.path = path
+	p.importPath = append(slices.Clone(p.importPath), path)
 	p.prefix = ""
 
 	// If it's an imported file, use source hash as prefix.
@@ -273,8 +285,9 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 		h := sha256.New()
 		h.Write(source)
 
-		hash := fmt.Sprintf("%x", h.Sum(nil))[0:7] // Only use the 7 first characters (inspired by Git).
-		p.prefix = fmt.Sprintf("i%s", hash)        // The letter makes sure that prefixed names are valid identifiers.
+		hash := fmt.Sprintf("%x", h.Sum(nil))[0:7]          // Only use the 7 first characters (inspired by Git).
+		p.prefix = p.uniquePrefix(fmt.Sprintf("i%s", hash)) // The letter makes sure that prefixed names are valid identifiers.
+		p.imported[path] = importedFile{prefix: p.prefix}   // The prefix must not be used by the files which are imported by this file.
 	}
 	program, err := p.evaluateProgram()
 
@@ -289,6 +302,63 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 	return program, nil
 }
 
+// uniquePrefix makes sure that different files never share a prefix (e.g. if they have the same content).
+func (p *Parser) uniquePrefix(prefix string) string {
+	uniquePrefix := prefix
+
+	for i := 1; ; i++ {
+		taken := false
+
+		for _, file := range p.imported {
+			taken = taken || file.prefix == uniquePrefix
+		}
+
+		if !taken {
+			return uniquePrefix
+		}
+		uniquePrefix = fmt.Sprintf("%s%d", prefix, i)
+	}
+}
+
+// importFile parses the file on its first import. If the file has already been imported, no further statements are returned.
+func (p *Parser) importFile(path string) (importedFile, []Statement, error) {
+	if slices.Contains(p.importPath, path) {
+		return importedFile{}, nil, fmt.Errorf(`"%s" must not import itself: %s`, path, p.path)
+	}
+
+	if file, exists := p.imported[path]; exists {
+		return file, nil, nil
+	}
+	importParser := New()
+	importParser.imported = p.imported
+	importParser.importPath = p.importPath
+	program, err := importParser.parse(path, true)
+
+	if err != nil {
+		return importedFile{}, nil, err
+	}
+	file := importedFile{
+		prefix: importParser.prefix,
+	}
+
+	for _, statement := range program.Body() {
+		if function, ok := statement.(FunctionDefinition); ok && function.Public() {
+			file.functions = append(file.functions, function)
+		}
+	}
+	p.imported[path] = file
+
+	// Merge import-parser funcs with current parser funcs.
+	for funcName, usedFuncs := range importParser.usedFuncs {
+		for _, usedFunc := range usedFuncs {
+			if !slices.Contains(p.usedFuncs[funcName], usedFunc) {
+				p.usedFuncs[funcName] = append(p.usedFuncs[funcName], usedFunc)
+			}
+		}
+	}
+	return file, program.Body(), nil
+}
+
 func allowedBinaryOperators(t ValueType) []BinaryOperator {
 	operators := []BinaryOperator{}
 
@@ -683,7 +753,7 @@ func (p *Parser) evaluateProgram() (Program, error) {
 
 func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 	var nextToken lexer.Token
-	statementsTemp := []Statement{}
+	statements := []Statement{}
 
 	// Skip empty characters.
 	for {
@@ -749,8 +819,7 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 				// If it's not a standard library path, an alias must be provided.
 				return nil, fmt.Errorf(`an alias must be provided for the local import "%s" in "%s"`, path, p.path)
 			}
-			importParser := New()
-			importedProg, err := importParser.parse(absPath, true)
+			file, importedStatements, err := p.importFile(absPath)
 
 			if err != nil {
 				return nil, err
@@ -759,20 +828,15 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			if _, exists := ctx.findImport(alias); exists {
 				return nil, fmt.Errorf(`import alias "%s" already exists`, alias)
 			}
-			err = ctx.addImport(alias, importParser.prefix)
+			err = ctx.addImport(alias, file.prefix)
 
 			if err != nil {
 				return nil, err
 			}
-			statementsTemp = append(statementsTemp, importedProg.Body()...)
+			statements = append(statements, importedStatements...)
 
-			// Import-parser funcs with current parser funcs.
-			for funcName, usedFuncs := range importParser.usedFuncs {
-				for _, usedFunc := range usedFuncs {
-					if !slices.Contains(p.usedFuncs[funcName], usedFunc) {
-						p.usedFuncs[funcName] = append(p.usedFuncs[funcName], usedFunc)
-					}
-				}
+			for _, function := range file.functions {
+				ctx.functions[function.Name()] = function
 			}
 
 			if multiple {
@@ -793,37 +857,6 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			}
 		}
 	}
-	statements := []Statement{}
-
-	// Add functions add variables.
-	for _, statement := range statementsTemp {
-		exists := false
-
-		switch statement.StatementType() {
-		case STATEMENT_TYPE_VAR_DEFINITION:
-			definedVariable := statement.(VariableDefinition)
-
-			for _, variable := range definedVariable.Variables() {
-				name := variable.Name()
-
-				if _, exists = ctx.variables[name]; !exists && variable.Public() {
-					ctx.variables[name] = variable
-				}
-			}
-		case STATEMENT_TYPE_FUNCTION_DEFINITION:
-			definedFunction := statement.(FunctionDefinition)
-			name := definedFunction.Name()
-
-			if _, exists = ctx.functions[name]; !exists && definedFunction.Public() {
-				ctx.functions[name] = definedFunction
-			}
-		}
-
-		// Prevent code duplication.
-		if !exists {
-			statements = append(statements, statement)
-		}
-	}
 	return statements, nil
 }
 
-- 
2.43.0


From ab357826d01342385860582577c50543a45fdad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 49/64] fix: visit every function only once when collecting the
 used functions

---
 parser/parser.go | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e312275..b95ac65 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -562,24 +562,13 @@ func (p *Parser) nextTempVariable(valueType ValueType) Variable {
 }
 
 func (p *Parser) getUsedFuncs(startFunc string) []string {
-	usedFuncs := []string{}
-	startFunc = strings.TrimSpace(startFunc)
+	usedFuncs := []string{strings.TrimSpace(startFunc)}
 
-	if usedFuncsTemp, exists := p.usedFuncs[startFunc]; exists {
-		if len(startFunc) > 0 && !slices.Contains(usedFuncs, startFunc) {
-			usedFuncs = append(usedFuncs, startFunc)
-		}
-
-		for _, usedFuncTemp := range usedFuncsTemp {
-			if !slices.Contains(usedFuncs, usedFuncTemp) {
-				usedFuncs = append(usedFuncs, usedFuncTemp)
-			}
-			usedSubFuncs := p.getUsedFuncs(usedFuncTemp)
-
-			for _, usedSubFunc := range usedSubFuncs {
-				if !slices.Contains(usedFuncs, usedSubFunc) {
-					usedFuncs = append(usedFuncs, usedSubFunc)
-				}
+	// Visit every function only once because the number of call paths grows exponentially.
+	for i := 0; i < len(usedFuncs); i++ {
+		for _, usedFunc := range p.usedFuncs[usedFuncs[i]] {
+			if !slices.Contains(usedFuncs, usedFunc) {
+				usedFuncs = append(usedFuncs, usedFunc)
 			}
 		}
 	}
-- 
2.43.0


From 12ab205e6f206327ae6e2f4d527f210c2ddbddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 50/64] fix: tsh: use a new converter for each requested type

Naming a type twice wrote the code twice.
---
 tsh.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tsh.go b/tsh.go
index 92bab69..34abcac 100644
--- a/tsh.go
+++ b/tsh.go
@@ -16,15 +16,16 @@ const (
 	typeBash  string = "bash"
 )
 
-var convMapping = map[string]transpiler.Converter{
-	typeBatch: batch.New(),
-	typeBash:  bash.New(),
+// Converters collect the code of a program, therefore each transpilation requires its own one.
+var convMapping = map[string]func() transpiler.Converter{
+	typeBatch: func() transpiler.Converter { return batch.New() },
+	typeBash:  func() transpiler.Converter { return bash.New() },
 }
 
 type options struct {
 	in         string
 	out        string
-	converters []transpiler.Converter
+	converters []func() transpiler.Converter
 }
 
 func parseOptions() options {
@@ -83,8 +84,9 @@ func main() {
 	options := parseOptions()
 	t := transpiler.New()
 
-	for _, conv := range options.converters {
+	for _, newConv := range options.converters {
 		in := options.in
+		conv := newConv()
 		dump, err := t.Transpile(in, conv)
 
 		if err != nil {
-- 
2.43.0


From c9ffc33677b4968dc7f94e1d1f836d8bc0aa2f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 51/64] fix: tsh: reject an option without a value

A trailing option has been ignored silently.
---
 tsh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tsh.go b/tsh.go
index 34abcac..469c8ab 100644
--- a/tsh.go
+++ b/tsh.go
@@ -37,8 +37,12 @@ func parseOptions() options {
 		types = append(types, k)
 	}
 
-	for i := 1; i < (len(args) - 1); i += 2 {
+	for i := 1; i < len(args); i += 2 {
 		cSwitch := args[i]
+
+		if i+1 == len(args) {
+			panic(fmt.Errorf("no value provided for option %s", cSwitch))
+		}
 		cValue := args[i+1]
 
 		switch cSwitch {
-- 
2.43.0


From 7ce445bb3f0c0e57baf2f7a5ec7f188b13c07631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 52/64] fix: tsh: fail if the output file cannot be written

---
 tsh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tsh.go b/tsh.go
index 469c8ab..529442e 100644
--- a/tsh.go
+++ b/tsh.go
@@ -99,6 +99,10 @@ func main() {
 		file := filepath.Base(in)
 		file = file[0 : len(file)-len(filepath.Ext(in))] // Remove extension.
 
-		os.WriteFile(filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), []byte(dump), 0777)
+		err = os.WriteFile(filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), []byte(dump), 0777)
+
+		if err != nil {
+			panic(err)
+		}
 	}
 }
-- 
2.43.0


From 0ce417e2cc81bd2bc6abcc2f37613458d13e7e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 53/64] fix: tsh: never overwrite the input file

If the input file already has the extension of the target and is located in the output directory, it has been replaced by the script.
---
 tsh.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tsh.go b/tsh.go
index 529442e..06ab758 100644
--- a/tsh.go
+++ b/tsh.go
@@ -84,6 +84,17 @@ func parseOptions() options {
 	return options
 }
 
+func sameFile(path1 string, path2 string) bool {
+	stat1, err := os.Stat(path1)
+
+	if err != nil {
+		return false
+	}
+	stat2, err := os.Stat(path2)
+
+	return err == nil && os.SameFile(stat1, stat2)
+}
+
 func main() {
 	options := parseOptions()
 	t := transpiler.New()
@@ -98,8 +109,12 @@ func main() {
 		}
 		file := filepath.Base(in)
 		file = file[0 : len(file)-len(filepath.Ext(in))] // Remove extension.
+		out := filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension()))
 
-		err = os.WriteFile(filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), []byte(dump), 0777)
+		if sameFile(in, out) {
+			panic(fmt.Errorf("output file %s would overwrite the input file", out))
+		}
+		err = os.WriteFile(out, []byte(dump), 0777)
 
 		if err != nil {
 			panic(err)
-- 
2.43.0


From 3d3a7ab346cbc7e5994e0ebb997d9d69ee3494b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 54/64] fix: strings: the empty string is found at the start of
 the empty string

---
 std/strings.tsh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index e9426f9..3255178 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -2,7 +2,7 @@ func Index(s string, substr string) int {
 	sul := len(substr)
 	ind := -1
 
-	for i := 0; i < len(s); i++ {
+	for i := 0; i <= len(s)-sul; i++ {
 		j := 0
 
 		for ; j < sul; j++ {
-- 
2.43.0


From e5e4fe59dc9056e1ebcb2456dbb81e2ff1445455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:36 +0000
Subject: [PATCH 55/64] fix: strings: every string has the empty suffix

---
 std/strings.tsh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/std/strings.tsh b/std/strings.tsh
index 3255178..4b4c61d 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -52,6 +52,11 @@ func HasPrefix(s string, prefix string) bool {
 func HasSuffix(s string, suffix string) bool {
 	l := len(suffix)
 
+	// A start index of -0 is the start of the string.
+	if l == 0 {
+		return true
+	}
+
 	if len(s) >= l {
 		l *= -1
 		return s[l:] == suffix
-- 
2.43.0


From 7412df149f10e649f38d7d263cc316a3e5353e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 56/64] fix: strings: zero repetitions are the empty string

---
 std/strings.tsh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index 4b4c61d..b1a8612 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -128,9 +128,9 @@ func Split(s string, sep string) []string {
 }
 
 func Repeat(s string, count int) string {
-	new := s
+	new := ""
 
-	for i := 1; i < count; i++ {
+	for i := 0; i < count; i++ {
 		new += s
 	}
 	return new
-- 
2.43.0


From 06d51a7daed13290c5b6a3c3d96bc44a9c92891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 57/64] fix: strings: an empty old string is not replaced if n
 is 0

---
 std/strings.tsh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index b1a8612..78ef687 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -143,7 +143,7 @@ func Replace(s string, old string, new string, n int) string {
 	lenOld := len(old)
 	lenNew := len(new)
 
-	if lenOld == 0 {
+	if lenOld == 0 && n != 0 {
 		res = new
 		rep++
 	}
-- 
2.43.0


From 7b7ab0424b16bc31d824e77c85c810d3c098e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 58/64] fix: strings: an empty string can be cut at an empty
 separator

---
 std/strings.tsh | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index 78ef687..d954216 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -186,14 +186,10 @@ func CutSuffix(s string, suffix string) (string, bool) {
 }
 
 func Cut(s string, sep string) (string, string, bool) {
-	lenS := len(s)
-
-	if lenS > 0 {
-		i := Index(s, sep)
+	i := Index(s, sep)
 
-		if i >= 0 {
-			return s[0:i], s[i+len(sep):], true
-		}
+	if i >= 0 {
+		return s[0:i], s[i+len(sep):], true
 	}
 	return s, "", false
 }
-- 
2.43.0


From 79ca84fc82870e4180d283c1e17eb67c747db0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 59/64] fix: strings: split up to the end of the string

---
 std/strings.tsh | 54 ++++++++++++++++++++-----------------------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index d954216..596741a 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -89,41 +89,31 @@ func Split(s string, sep string) []string {
 	sepLen := len(sep)
 	elems := []string{}
 
-	// If s and sep are empty, slice will be empty.
-	if sLen > 0 || sepLen > 0 {
-		startI := 0
-		endI := 0
-		elIndex := 0
-		boundary := len(s)
-
-		if sLen > 0 {
-			boundary -= sepLen
+	// If sep is empty, split after every char.
+	if sepLen == 0 {
+		for i := 0; i < sLen; i++ {
+			elems[i] = s[i]
 		}
-
-		for endI <= boundary {
-			if s[endI:endI+sepLen] == sep {
-				sepEmpty := sepLen == 0
-
-				// If sep is empty, split after every char.
-				if sepEmpty {
-					endI++
-				}
-
-				if !sepEmpty || endI <= boundary {
-					elems[elIndex] = s[startI:endI]
-					endI += sepLen
-					startI = endI
-				}
-				elIndex++
-			} else if endI == boundary {
-				// Add last element to slice.
-				elems[elIndex] = s[startI:]
-				break
-			} else {
-				endI++
-			}
+		return elems
+	}
+	startI := 0
+	endI := 0
+	elIndex := 0
+	boundary := sLen - sepLen
+
+	for endI <= boundary {
+		if s[endI:endI+sepLen] == sep {
+			elems[elIndex] = s[startI:endI]
+			elIndex++
+			endI += sepLen
+			startI = endI
+		} else {
+			endI++
 		}
 	}
+
+	// Add last element to slice.
+	elems[elIndex] = s[startI:]
 	return elems
 }
 
-- 
2.43.0


From 591cd46c230f54d3f180367b17d316a570f27e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 60/64] fix: keep the names of a program apart from those of
 helpers, temporaries and the shell

---
 parser/parser.go         |  2 +-
 transpiler/transpiler.go | 32 ++++++++++++++++++++++----------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b95ac65..f26a752 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -555,7 +555,7 @@ func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error
 
 // nextTempVariable returns a variable which holds an expression value that must only be evaluated once.
 func (p *Parser) nextTempVariable(valueType ValueType) Variable {
-	name := fmt.Sprintf("_tv%d", p.tempCount)
+	name := fmt.Sprintf("%dtv", p.tempCount) // As identifiers must not start with a digit, the name never equals a name of the program.
 	p.tempCount++
 
 	return NewVariable(name, valueType, false, false)
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 92fbaa2..184faab 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -388,6 +388,18 @@ func (t *transpiler) evaluateFor(forStatement parser.For) error {
 	return conv.ForEnd()
 }
 
+// variableName returns the name of a program's variable within the script. The prefix makes sure that it never equals
+// a variable of the transpiler, the converters or the shell, no matter how it's spelled.
+func variableName(name string) string {
+	return fmt.Sprintf("v_%s", name)
+}
+
+// functionName returns the name of a program's function within the script. The prefix makes sure that it never equals
+// a helper of the converters or a command, no matter how it's spelled.
+func functionName(name string) string {
+	return fmt.Sprintf("fn_%s", name)
+}
+
 // evaluateAssignedValues evaluates all values before any of the target variables is written.
 func (t *transpiler) evaluateAssignedValues(expressions []parser.Expression) ([]string, error) {
 	values := []string{}
@@ -428,7 +440,7 @@ func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition)
 	}
 
 	for i, variable := range definition.Variables() {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(variableName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -453,7 +465,7 @@ func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.Varia
 	}
 
 	for i, variable := range variables {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(variableName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -470,7 +482,7 @@ func (t *transpiler) evaluateVarAssignment(assignment parser.VariableAssignment)
 	}
 
 	for i, variable := range assignment.Variables() {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(variableName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -495,7 +507,7 @@ func (t *transpiler) evaluateVarAssignmentCallAssignment(assignment parser.Varia
 	}
 
 	for i, variable := range variables {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(variableName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -522,11 +534,11 @@ func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment)
 	if err != nil {
 		return err
 	}
-	return t.converter.SliceAssignment(assignment.Name(), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
+	return t.converter.SliceAssignment(variableName(assignment.Name()), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
 }
 
 func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation, valueUsed bool) (expressionResult, error) {
-	s, err := t.converter.VarEvaluation(evaluation.Name(), valueUsed, evaluation.Global())
+	s, err := t.converter.VarEvaluation(variableName(evaluation.Name()), valueUsed, evaluation.Global())
 
 	if err != nil {
 		return expressionResult{}, err
@@ -659,10 +671,10 @@ func (t *transpiler) evaluateFunctionDefinition(functionDefinition parser.Functi
 	params := []string{}
 
 	for _, param := range functionDefinition.Params() {
-		params = append(params, param.Name())
+		params = append(params, variableName(param.Name()))
 	}
 	conv := t.converter
-	err := conv.FuncStart(name, params, functionDefinition.ReturnTypes())
+	err := conv.FuncStart(functionName(name), params, functionDefinition.ReturnTypes())
 
 	if err != nil {
 		return err
@@ -688,7 +700,7 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 		args = append(args, result.values...)
 	}
 	returnTypes := functionCall.ReturnTypes()
-	values, err := t.converter.FuncCall(name, args, returnTypes, valueUsed)
+	values, err := t.converter.FuncCall(functionName(name), args, returnTypes, valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -778,7 +790,7 @@ func (t *transpiler) evaluateCopy(copy parser.Copy, valueUsed bool) (expressionR
 		return expressionResult{}, err
 	}
 	destination := copy.Destination()
-	amount, err := t.converter.Copy(destination.Name(), expr.firstValue(), valueUsed, destination.Global())
+	amount, err := t.converter.Copy(variableName(destination.Name()), expr.firstValue(), valueUsed, destination.Global())
 
 	if err != nil {
 		return expressionResult{}, err
-- 
2.43.0


From 4ea6cf029c7ff2fa5c54c8a38818c1ce79e33238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 61/64] fix: batch: names which only differ in case are
 different names

---
 converters/batch/converter.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 5583d8d..e4689d8 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -5,6 +5,7 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/monstermichl/typeshell/parser"
 	"github.com/monstermichl/typeshell/transpiler"
@@ -79,6 +80,21 @@ func funcArgVar(subscript int) string {
 	return fmt.Sprintf("_fa%d", subscript)
 }
 
+// caseName makes sure that names which only differ in upper and lower case are also different in Batch, as Batch
+// ignores the case of variables and labels.
+func caseName(name string) string {
+	s := strings.Builder{}
+
+	for _, r := range name {
+		s.WriteRune(r)
+
+		if unicode.IsUpper(r) {
+			s.WriteRune('#') // Never part of an identifier.
+		}
+	}
+	return s.String()
+}
+
 func forLabel(count int) string {
 	return fmt.Sprintf(":_f%d", count)
 }
@@ -265,6 +281,7 @@ func (c *converter) SliceAssignment(name string, index string, value string, def
 }
 
 func (c *converter) FuncStart(name string, params []string, returnTypes []parser.ValueType) error {
+	name = caseName(name)
 	c.funcCounter++
 	c.funcs = append(c.funcs, funcInfo{
 		name: name,
@@ -670,7 +687,7 @@ func (c *converter) Group(value string, valueUsed bool) (string, error) {
 
 func (c *converter) FuncCall(name string, args []string, returnTypes []parser.ValueType, valueUsed bool) ([]string, error) {
 	returnValues := []string{}
-	c.callFunc(name, args)
+	c.callFunc(caseName(name), args)
 	c.addLine(`if "!_e!" neq "0" goto :end`) // If the called function panicked, also end the caller.
 
 	if valueUsed {
@@ -787,6 +804,8 @@ func (c *converter) callEchoFunc(values ...string) {
 }
 
 func (c *converter) varName(name string, global bool) string {
+	name = caseName(name)
+
 	if c.inFunction() && !global {
 		name = fmt.Sprintf("f%d_%s", c.funcCounter, name)
 	}
-- 
2.43.0


From d5436c6eb4ca91c2a1cb729d82ad6fd400c30444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 62/64] fix: bash: a program call never calls a function of the
 script

---
 converters/bash/converter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index be10e5e..f9d56b6 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -510,7 +510,8 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 		if len(argsCopy) > 0 {
 			space = " "
 		}
-		callStrings = append(callStrings, fmt.Sprintf(`"%s"%s%s`, c.StringToString(call.Name()), space, strings.Join(argsCopy, " ")))
+		// A command is never looked up in the functions of the script, even if its name equals the name of a function.
+		callStrings = append(callStrings, fmt.Sprintf(`command -- "%s"%s%s`, c.StringToString(call.Name()), space, strings.Join(argsCopy, " ")))
 	}
 	callString := strings.Join(callStrings, " | ")
 
-- 
2.43.0


From aa3e6f1071f5cc9653abdff5ebd5e77dc80e09f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 63/64] fix: bash: functions with ten or more parameters

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index f9d56b6..e3d67f0 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -122,7 +122,7 @@ func (c *converter) FuncStart(name string, params []string, returnTypes []parser
 	c.addLine(fmt.Sprintf("%s() {", name))
 
 	for i, param := range params {
-		s := c.varAssignmentString(param, fmt.Sprintf("$%d", i+1), false)
+		s := c.varAssignmentString(param, fmt.Sprintf("${%d}", i+1), false) // Braces are required from the 10th argument on.
 		c.addLine(fmt.Sprintf("local %s", s))
 	}
 	return nil
-- 
2.43.0


From 902d50452002635d87a3502c530335266fb8bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:26 +0000
Subject: [PATCH 64/64] fix: let the Bash copy report the number of copied
 elements

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index e3d67f0..b9e6aa0 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -551,7 +551,7 @@ func (c *converter) Copy(destination string, source string, valueUsed bool, glob
 	c.sliceCopyHelperRequired = true
 
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, c.sliceLenString(c.varEvaluationString(destination, true)), false)
+	c.VarAssignment(helper, c.sliceLenString(source), false) // Number of copied elements.
 
 	return c.varEvaluationString(helper, false), nil
 }
-- 
2.43.0

