From dd95d434ddcc1160796d3c4685fcbe42038c72fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 01/30] fix: concatenation must not duplicate or lose chars a
 child handed back

---
 rule_concatenate.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rule_concatenate.go b/rule_concatenate.go
index ab32e3b..cefd1f8 100644
--- a/rule_concatenate.go
+++ b/rule_concatenate.go
@@ -37,7 +37,8 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 	}
 	cs := charstream
 	for _, rule := range inst.rules {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		// always prepend to the original stream: a wrapper may still hold chars that are in CharsUnused too
+		cs = newCharstreamPrepend(charstream, evalResult.CharsUnused)
 		result := rule.Eval(grammar, cs, flagLeadingSpaces)
 		//
 		// Update evalResult.CharsRead and evalResult.CharsUnused
@@ -56,9 +57,6 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 		} else {
 			resultCharsUsed := result.charsUsed()
 			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
 		}
 
 		if !result.Sticky {
-- 
2.43.0


From b7a5d00f8d45473487e6d8c00b90d01cc01b159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 02/30] fix: repetition must not duplicate or lose chars a
 child handed back

---
 rule_repetition.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rule_repetition.go b/rule_repetition.go
index 758767a..6673941 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -47,7 +47,8 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 	var nodes []*Node // all found matched nodes
 	rule := inst.rule
 	for {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		// always prepend to the original stream: a wrapper may still hold chars that are in CharsUnused too
+		cs = newCharstreamPrepend(charstream, evalResult.CharsUnused)
 		if cs.Peek() == EOFChar {
 			break
 		}
@@ -69,9 +70,6 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 		} else {
 			resultCharsUsed := result.charsUsed()
 			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
 		}
 
 		if !result.Sticky {
-- 
2.43.0


From 62e4f5a97e4a470469b89358936a798d2c4215f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 03/30] fix: repetition of a rule that can match nothing must
 terminate

---
 rule_repetition.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rule_repetition.go b/rule_repetition.go
index 6673941..dc3768c 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -83,6 +83,11 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 			break
 		}
 
+		// a match that uses no char would repeat forever, it only counts towards the minimum
+		if result.countCharsUsed() == 0 && len(nodes) >= int(inst.min) {
+			break
+		}
+
 		if node.Position == nil {
 			node.Position = result.Node.Position
 		}
-- 
2.43.0


From 461004631a87f51cd2cb445443e0b79c20af648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 04/30] fix: choice is ambiguous only if the longest matches
 tie, whatever their order

---
 rule_choice.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/rule_choice.go b/rule_choice.go
index b7683bf..62d8809 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -79,6 +79,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 			break
 		} else { // we found multiple matches, get the one that is most greedy, ie. uses most chars
 			maxUsed := 0
+			var resultTied *EvalResult // another match that uses as many chars as resultFound
 			for _, result := range resultsMatched {
 				countCharsUsed := result.countCharsUsed()
 				if countCharsUsed < maxUsed {
@@ -89,20 +90,25 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 						resultFound = result
 						continue
 					}
-					// we found ambiguity
-					var buf strings.Builder
-					if inst.name == "" {
-						buf.WriteString("ambiguity found:")
-					} else {
-						buf.WriteString(fmt.Sprintf("rule %s: ambiguity found", inst.name))
-					}
-					buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
-					buf.WriteString(fmt.Sprintf("\t\n%s: %s", result.Node.RuleName, string(result.Node.Text())))
-					evalResult.Error = errors.New(buf.String())
-					return evalResult
+					resultTied = result
+					continue
 				}
 				maxUsed = countCharsUsed
 				resultFound = result
+				resultTied = nil
+			}
+			if resultTied != nil {
+				// we found ambiguity
+				var buf strings.Builder
+				if inst.name == "" {
+					buf.WriteString("ambiguity found:")
+				} else {
+					buf.WriteString(fmt.Sprintf("rule %s: ambiguity found", inst.name))
+				}
+				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
+				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultTied.Node.RuleName, string(resultTied.Node.Text())))
+				evalResult.Error = errors.New(buf.String())
+				return evalResult
 			}
 			break
 		}
-- 
2.43.0


From 75ec6582d046009ab5e1738f8103c7d03834d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 05/30] fix: ambiguous choice must hand back the chars it read

---
 rule_choice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rule_choice.go b/rule_choice.go
index 62d8809..88e01d4 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -108,6 +108,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
 				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultTied.Node.RuleName, string(resultTied.Node.Text())))
 				evalResult.Error = errors.New(buf.String())
+				evalResult.CharsUnused = evalResult.CharsRead // no match, all chars read are unused
 				return evalResult
 			}
 			break
-- 
2.43.0


From 874aa91ebe21c1fff74ba2f8e29102075bada188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 06/30] fix: most greedy match is ambiguous only if the longest
 matches tie, and hands back what it read

---
 rule.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/rule.go b/rule.go
index 6a413d8..ae66c71 100644
--- a/rule.go
+++ b/rule.go
@@ -298,22 +298,30 @@ func mostGreedy(grammar *Grammar, charStream ICharstream, flagLeadingSpaces int,
 	} else { // we found multiple matches, get the one that is most greedy, ie. uses most chars
 		maxUsed := 0
 		var maxResult *EvalResult
+		var tiedResult *EvalResult // another match that uses as many chars as maxResult
 		for _, result := range resultsMatched {
 			countCharsUsed := result.countCharsUsed()
 			if countCharsUsed < maxUsed {
 				continue
 			}
 			if countCharsUsed == maxUsed && maxResult != nil {
-				// we found ambiguity
-				var buf strings.Builder
-				buf.WriteString("ambiguity found:")
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(maxResult.Node.Text())))
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(result.Node.Text())))
-				evalResult.Error = errors.New(buf.String())
-				return evalResult
+				tiedResult = result
+				continue
 			}
 			maxUsed = countCharsUsed
 			maxResult = result
+			tiedResult = nil
+		}
+		if tiedResult != nil {
+			// we found ambiguity
+			var buf strings.Builder
+			buf.WriteString("ambiguity found:")
+			buf.WriteString(fmt.Sprintf("\t\n%s", string(maxResult.Node.Text())))
+			buf.WriteString(fmt.Sprintf("\t\n%s", string(tiedResult.Node.Text())))
+			evalResult.Error = errors.New(buf.String())
+			evalResult.CharsRead = maxCharsRead
+			evalResult.CharsUnused = evalResult.CharsRead
+			return evalResult
 		}
 		resultFound = maxResult
 	}
-- 
2.43.0


From cb33d04e7eec7e4d72ce326b5a2a0a2d1a800c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 07/30] fix: text block must account for every char once and in
 order

---
 rule.go       |  9 +++++++++
 rule_block.go | 49 ++++++++++++++++++++++++++-----------------------
 2 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/rule.go b/rule.go
index ae66c71..2cd2b31 100644
--- a/rule.go
+++ b/rule.go
@@ -78,6 +78,15 @@ func (inst *EvalResult) charsUsed() []rune {
 	return inst.CharsRead[:len(inst.CharsRead)-len(inst.CharsUnused)]
 }
 
+// Given the chars that were prepended to the stream this result is evaluated on, returns the chars read from the
+// stream underneath but not used so far. The evaluation may have read less or more chars than were prepended.
+func (inst *EvalResult) charsLeft(prepended []rune) []rune {
+	if len(inst.CharsRead) > len(prepended) {
+		return inst.CharsRead[inst.countCharsUsed():]
+	}
+	return prepended[inst.countCharsUsed():]
+}
+
 func (inst *EvalResult) StringTree(config *NodeTreeConfig) string {
 	var buf strings.Builder
 	buf.WriteString("EvalResult")
diff --git a/rule_block.go b/rule_block.go
index cb40c07..805b891 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -97,7 +97,6 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	node.ChildNodes = append(node.ChildNodes, content)
 	cs = newCharstreamPrepend(cs, charsUnused)
 	content.Position = cs.Position()
-	var closeResult *EvalResult
 	var escapeChars []rune
 	for {
 		// check if we have an escape as next match
@@ -107,7 +106,6 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 			result = inst.escape.Eval(grammar, cs, NOT_SKIP) // do not skip space chars
 			if result.Node != nil {
 				charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
-				charsUnused = result.CharsUnused
 				escaped = true
 				escapeChars = result.charsUsed() // save the escapeChars so we can decide later whether to include them in the result content
 				// content.Chars = append(content.Chars, result.charsUsed()...) // the escape char should NOT be preserved
@@ -126,56 +124,61 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 					charsUnused = result.CharsRead
 				}
 				*/
-			} else {
-				charsUnused = result.CharsRead
 			}
+			charsUnused = result.charsLeft(charsUnused)
 		}
 
 		// find exclude match(es)
-		cs = newCharstreamPrepend(cs, charsUnused)
+		cs = newCharstreamPrepend(charstream, charsUnused)
 		if len(inst.excludes) > 0 {
 			resultExclude := mostGreedy(grammar, cs, NOT_SKIP, inst.excludes)
 			if resultExclude.Node != nil { // found one
 				if escaped {
 					charsUsed = append(charsUsed, resultExclude.charsUsed()...)
-					charsUnused = resultExclude.CharsUnused
+					charsUnused = resultExclude.charsLeft(charsUnused)
+					cs = newCharstreamPrepend(charstream, charsUnused)
 					content.Chars = append(content.Chars, resultExclude.charsUsed()...)
 					continue
 				}
 				evalResult.Error = fmt.Errorf("text `%s` is not allowed in text block", string(resultExclude.charsUsed()))
 				evalResult.ErrIdx = charstream.Cursor()
-				evalResult.CharsRead = append(charsUsed, content.Chars...)
-				evalResult.CharsRead = append(evalResult.CharsRead, resultExclude.CharsRead...)
+				evalResult.CharsRead = append(charsUsed, resultExclude.charsUsed()...)
+				evalResult.CharsRead = append(evalResult.CharsRead, resultExclude.charsLeft(charsUnused)...)
 				evalResult.CharsUnused = evalResult.CharsRead
 				return evalResult
 			}
-			charsUnused = resultExclude.CharsRead
+			charsUnused = resultExclude.charsLeft(charsUnused)
 		}
 
 		// check close rule
-		cs = newCharstreamPrepend(cs, charsUnused)
+		cs = newCharstreamPrepend(charstream, charsUnused)
 		result := inst.close.Eval(grammar, cs, NOT_SKIP) // do not skip space
-		charsUnused = result.CharsUnused
+		charsLeft := result.charsLeft(charsUnused)
 		if result.Node != nil {
 			if escaped {
 				charsUsed = append(charsUsed, result.charsUsed()...)
 				content.Chars = append(content.Chars, result.charsUsed()...)
+				charsUnused = charsLeft
+				cs = newCharstreamPrepend(charstream, charsUnused)
 				continue
 			}
-			closeResult = result
-			if !inst.virtualClose {
+			if inst.virtualClose { // the chars of the close are reused
+				if len(result.CharsRead) > len(charsUnused) {
+					charsUnused = result.CharsRead
+				}
+			} else {
 				node.ChildNodes = append(node.ChildNodes, result.Node) // the 3rd child of block node is always close node
+				charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
+				charsUnused = charsLeft
 			}
-			charsUsed = append(charsUsed, content.Chars...)
-			charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
 			break
 		} else {
 			content.Chars = append(content.Chars, escapeChars...)
 		}
-		cs = newCharstreamPrepend(cs, charsUnused)
+		charsUnused = charsLeft
+		cs = newCharstreamPrepend(charstream, charsUnused)
 		char := cs.Peek()
 		if char == EOFChar {
-			charsUsed = append(charsUsed, content.Chars...)
 			evalResult.Error = fmt.Errorf("missing %s at EOF", inst.close.desc())
 			evalResult.ErrIdx = charstream.Cursor()
 			break
@@ -183,17 +186,17 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		char = cs.Next()
 		content.Chars = append(content.Chars, escapeChars...)
 		content.Chars = append(content.Chars, char)
-		charsUnused = nil
+		charsUsed = append(charsUsed, char)
+		if len(charsUnused) > 0 {
+			charsUnused = charsUnused[1:]
+		}
+		cs = newCharstreamPrepend(charstream, charsUnused)
 	}
 	evalResult.CharsRead = append(charsUsed, charsUnused...)
 	if evalResult.Error != nil {
 		evalResult.CharsUnused = evalResult.CharsRead
 	} else {
-		if inst.virtualClose {
-			evalResult.CharsUnused = closeResult.CharsRead
-		} else {
-			evalResult.CharsUnused = charsUnused
-		}
+		evalResult.CharsUnused = charsUnused
 		evalResult.Node = node
 	}
 
-- 
2.43.0


From eb07eca9082a604c73b362efaa520a0e913eb786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 08/30] fix: text block with an escape that can match nothing
 must terminate

---
 rule_block.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rule_block.go b/rule_block.go
index 805b891..189c1ff 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -104,7 +104,8 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		escapeChars = nil
 		if inst.escape != nil { // evaluation escape
 			result = inst.escape.Eval(grammar, cs, NOT_SKIP) // do not skip space chars
-			if result.Node != nil {
+			if result.Node != nil && result.countCharsUsed() > 0 {
+				// an escape that uses no char escapes nothing
 				charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
 				escaped = true
 				escapeChars = result.charsUsed() // save the escapeChars so we can decide later whether to include them in the result content
-- 
2.43.0


From a0a6286f700ec995a117a8c9d4ea2b38741c8e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 09/30] fix: text matched by several excludes is not allowed in
 a text block

---
 rule_block.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rule_block.go b/rule_block.go
index 189c1ff..9e0076c 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -149,6 +149,13 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 				return evalResult
 			}
 			charsUnused = resultExclude.charsLeft(charsUnused)
+			if resultExclude.Error != nil { // several excludes match the same text
+				evalResult.Error = resultExclude.Error
+				evalResult.ErrIdx = charstream.Cursor()
+				evalResult.CharsRead = append(charsUsed, charsUnused...)
+				evalResult.CharsUnused = evalResult.CharsRead
+				return evalResult
+			}
 		}
 
 		// check close rule
-- 
2.43.0


From 25c1166a440ec60ac2de0f8d63de0d892dd5158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 10/30] fix: parsing must not lose or duplicate chars handed
 back by a root rule

---
 grammar.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/grammar.go b/grammar.go
index c39d380..aedfb77 100644
--- a/grammar.go
+++ b/grammar.go
@@ -331,15 +331,15 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 	var charsUnused []rune
 	flagLeadingSpaces := SUGGEST_SKIP
 	for {
-		cs = newCharstreamPrepend(cs, charsUnused)
+		cs = newCharstreamPrepend(charstream, charsUnused)
 		if cs.Peek() == EOFChar {
 			break
 		}
 		resultsMatched := make(map[string]*EvalResult)
 		resultsError := make(map[string]*EvalResult)
-		var maxCharsRead []rune
+		maxCharsRead := charsUnused // chars already read stay readable even if no rule reads that far
 		for name, ruleRecord := range inst.rootRules {
-			cs = newCharstreamPrepend(cs, maxCharsRead)
+			cs = newCharstreamPrepend(charstream, maxCharsRead)
 			result := ruleRecord.rule.Eval(inst, cs, flagLeadingSpaces)
 			if len(maxCharsRead) < len(result.CharsRead) {
 				maxCharsRead = result.CharsRead
@@ -394,7 +394,6 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			}
 			charsUnused = maxCharsRead[maxResult.countCharsUsed():]
 		}
-		cs = charstream
 	}
 	if len(ast.Nodes) == 0 {
 		return nil, fmt.Errorf("no AST node found")
-- 
2.43.0


From c007a001a2da5d1bdb5590d007f65a8ee5c179b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 11/30] fix: root rules are ambiguous only if the longest
 matches tie, whatever their order

---
 grammar.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/grammar.go b/grammar.go
index aedfb77..7f922e0 100644
--- a/grammar.go
+++ b/grammar.go
@@ -374,18 +374,24 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 		default: // we found more than 1 matches, the most greedy one wins
 			maxCountCharsUsed := 0
 			var maxResult *EvalResult
+			var tiedResult *EvalResult // another match that uses as many chars as maxResult
 			for _, result := range resultsMatched {
 				countCharsUsed := result.countCharsUsed()
 				if countCharsUsed == maxCountCharsUsed && maxResult != nil {
-					return nil, fmt.Errorf("ambiguity found: %s(\"%s\") vs %s(\"%s\")",
-						result.Node.RuleName, string(result.CharsRead),
-						maxResult.Node.RuleName, string(maxResult.CharsRead))
+					tiedResult = result
+					continue
 				}
 				if countCharsUsed >= maxCountCharsUsed {
 					maxResult = result
 					maxCountCharsUsed = countCharsUsed
+					tiedResult = nil
 				}
 			}
+			if tiedResult != nil {
+				return nil, fmt.Errorf("ambiguity found: %s(\"%s\") vs %s(\"%s\")",
+					tiedResult.Node.RuleName, string(tiedResult.CharsRead),
+					maxResult.Node.RuleName, string(maxResult.CharsRead))
+			}
 			ast.Nodes = append(ast.Nodes, maxResult.Node)
 			if maxResult.Sticky {
 				flagLeadingSpaces = SUGGEST_NOT_SKIP
-- 
2.43.0


From 9b0489ae454ca76f57cfb58e6d0c1318d3e11cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 12/30] fix: parsing must terminate when a root rule matches
 without using any text

---
 grammar.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grammar.go b/grammar.go
index 7f922e0..2a31ece 100644
--- a/grammar.go
+++ b/grammar.go
@@ -400,6 +400,10 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			}
 			charsUnused = maxCharsRead[maxResult.countCharsUsed():]
 		}
+		if len(charsUnused) == len(maxCharsRead) {
+			// the match used no char, the same match would be found again and again
+			return nil, fmt.Errorf("must be %s: matched without using any text", inst.desc())
+		}
 	}
 	if len(ast.Nodes) == 0 {
 		return nil, fmt.Errorf("no AST node found")
-- 
2.43.0


From 0200ab08c22f77651ebc97616f9896bb0cb64244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 13/30] fix: EvalEmbed must terminate when the rule matches
 without using any text

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 2a31ece..e168dc7 100644
--- a/grammar.go
+++ b/grammar.go
@@ -261,7 +261,7 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 	for {
 		result = rule.Eval(inst, cs, NOT_SKIP)
 		cs = newCharstreamPrepend(cs, result.CharsUnused)
-		if result.Node == nil { // no match
+		if result.Node == nil || result.countCharsUsed() == 0 { // no match, or an empty one that would repeat forever
 			char := cs.Next()
 			if char == EOFChar {
 				if len(text) > 0 {
-- 
2.43.0


From cba579ae66e5867d92e39627332311e293ee1f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 14/30] fix: what a parse reports must not depend on map
 iteration order

---
 grammar.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index e168dc7..1689822 100644
--- a/grammar.go
+++ b/grammar.go
@@ -59,11 +59,22 @@ type Grammar struct {
 	validated bool
 }
 
+// rootNames returns the names of the root rules in alphabetical order
+func (inst *Grammar) rootNames() []string {
+	var names []string
+	for name := range inst.rootRules {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func (inst *Grammar) desc() string {
 	var buf strings.Builder
 	i := 0
 	total := len(inst.rootRules)
-	for _, record := range inst.rootRules {
+	for _, name := range inst.rootNames() {
+		record := inst.rootRules[name]
 		if i > 0 {
 			if i == total-1 && total > 1 {
 				buf.WriteString(" or " + record.rule.desc())
@@ -338,9 +349,10 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 		resultsMatched := make(map[string]*EvalResult)
 		resultsError := make(map[string]*EvalResult)
 		maxCharsRead := charsUnused // chars already read stay readable even if no rule reads that far
-		for name, ruleRecord := range inst.rootRules {
+		rootNames := inst.rootNames()
+		for _, name := range rootNames {
 			cs = newCharstreamPrepend(charstream, maxCharsRead)
-			result := ruleRecord.rule.Eval(inst, cs, flagLeadingSpaces)
+			result := inst.rootRules[name].rule.Eval(inst, cs, flagLeadingSpaces)
 			if len(maxCharsRead) < len(result.CharsRead) {
 				maxCharsRead = result.CharsRead
 			}
@@ -355,7 +367,11 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 		switch matches {
 		case 0:
 			var buf strings.Builder
-			for _, result := range resultsError {
+			for _, name := range rootNames {
+				result, exists := resultsError[name]
+				if !exists {
+					continue
+				}
 				buf.WriteString(fmt.Sprintf("%s; ", result.Error))
 			}
 			return nil, fmt.Errorf("must be %s: %s", inst.desc(), buf.String())
@@ -375,7 +391,11 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			maxCountCharsUsed := 0
 			var maxResult *EvalResult
 			var tiedResult *EvalResult // another match that uses as many chars as maxResult
-			for _, result := range resultsMatched {
+			for _, name := range rootNames {
+				result, exists := resultsMatched[name]
+				if !exists {
+					continue
+				}
 				countCharsUsed := result.countCharsUsed()
 				if countCharsUsed == maxCountCharsUsed && maxResult != nil {
 					tiedResult = result
-- 
2.43.0


From 6f218fa2fbf4627d6b14d31df50dc64b245e0e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 15/30] fix: what a grammar reports about itself must not
 depend on map iteration order

---
 grammar.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 1689822..fe856e8 100644
--- a/grammar.go
+++ b/grammar.go
@@ -201,7 +201,12 @@ func (inst *Grammar) StringRuleRelation(nameFmtStr string) string {
 	var bufUsage strings.Builder
 	bufRoot.WriteString("Root Rules: ")
 	bufUsage.WriteString("Rule Reference Map: \n")
+	var names []string
 	for name := range inst.ruleRecords {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
 		children, exists := inst.nonRoots[name]
 		if exists {
 			bufUsage.WriteString(fmt.Sprintf("    "+nameFmtStr+": ", name))
@@ -226,7 +231,13 @@ func (inst *Grammar) Validate() error {
 	//inst.lock.Lock()
 	//defer inst.lock.Unlock()
 	nonTerminals := make(map[string]byte)
-	for name, children := range inst.nonRoots {
+	var referenced []string
+	for name := range inst.nonRoots {
+		referenced = append(referenced, name)
+	}
+	sort.Strings(referenced) // always report the same undefined rule
+	for _, name := range referenced {
+		children := inst.nonRoots[name]
 		_, exists := inst.ruleRecords[name]
 		if !exists {
 			return fmt.Errorf("rule name '%s' referenced but not defined", name)
-- 
2.43.0


From 511a709bae77a400d8c748ae3fdb99e4b4a0ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 16/30] fix: validating again must forget roots and terminals
 that no longer are

---
 grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grammar.go b/grammar.go
index fe856e8..3e304fa 100644
--- a/grammar.go
+++ b/grammar.go
@@ -246,6 +246,9 @@ func (inst *Grammar) Validate() error {
 			nonTerminals[child] = 0
 		}
 	}
+	// rules may have been added since the last validation
+	inst.terminals = make(map[string]*RuleRecord)
+	inst.rootRules = make(map[string]*RuleRecord)
 	for name, record := range inst.ruleRecords {
 		_, exists := nonTerminals[name]
 		if exists {
-- 
2.43.0


From 5dd66aadc9d812c6f5f97048909ab10123bf460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 17/30] fix: a rule definition that is rejected must leave the
 grammar unchanged

---
 grammar.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 3e304fa..6c702e0 100644
--- a/grammar.go
+++ b/grammar.go
@@ -122,10 +122,16 @@ func (inst *Grammar) ParseRule(name string, ruleStr string) (IRule, error) {
 	if err != nil {
 		return nil, err
 	}
-	r, err := inst.parse(ruleName, cs, []rune{EOFChar})
+	parsed := NewGrammar() // collects the references, they only count once the whole definition is valid
+	r, err := parsed.parse(ruleName, cs, []rune{EOFChar})
 	if err != nil {
 		return nil, err
 	}
+	for referenced, users := range parsed.nonRoots {
+		for _, user := range users {
+			inst.AddUsage(referenced, user)
+		}
+	}
 	rule = r
 	rule.setName(ruleName)
 	// rule.setVirtual(isVirtual)
-- 
2.43.0


From a58bb407344f7335b9902d2b4f5cb3aff607d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 18/30] fix: range rule must not match a white space above its
 end

---
 rule_terminal_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 18f02e8..c5a14a5 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -42,7 +42,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		skippedWSpaces := charstream.SkipSpaces()
 		evalResult.CharsRead = append(evalResult.CharsRead, skippedWSpaces...)
 		for i, char := range skippedWSpaces {
-			if inst.begin <= char && char >= inst.end {
+			if inst.begin <= char && char <= inst.end {
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
 				node.Chars = append(node.Chars, char)
-- 
2.43.0


From 6e3cd2812bc2930412f022d5707d84b7b05b237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 19/30] fix: group node must have the position of its content

---
 rule_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_group.go b/rule_group.go
index a6405f2..e4cdecc 100644
--- a/rule_group.go
+++ b/rule_group.go
@@ -32,8 +32,8 @@ func (inst *GroupRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	}
 	node.Sticky = evalResult.Sticky
 	node.ChildNodes = append(node.ChildNodes, evalResult.Node)
-	evalResult.Node = node
 	node.Position = evalResult.Node.Position
+	evalResult.Node = node
 	return evalResult
 }
 
-- 
2.43.0


From 20f0d74386a430f7cc60b3b284478c42d60a7c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 20/30] fix: range node must have the position of the char it
 matched

---
 rule_terminal_range.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index c5a14a5..086b789 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -35,7 +35,6 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		Virtual:   inst.virtual,
 		NonData:   inst.nondata,
 		Sticky:    true,
-		Position:  charstream.PositionLookup(charstream.Cursor() - 1),
 	}
 
 	if flagLeadingSpaces == SUGGEST_SKIP {
@@ -46,6 +45,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
 				node.Chars = append(node.Chars, char)
+				node.Position = charstream.PositionLookup(charstream.Cursor() - len(skippedWSpaces) + i)
 				evalResult.Node = node
 				return evalResult
 			}
@@ -60,6 +60,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		char = charstream.Next()
 		evalResult.CharsRead = append(evalResult.CharsRead, char)
 		node.Chars = append(node.Chars, char)
+		node.Position = startPos
 		evalResult.Node = node
 		return evalResult
 	}
-- 
2.43.0


From 8ee9e51dbb2edb2c91dac79302adb25fe566d1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 21/30] fix: chars node must have the position of its first
 char even if that is a white space

---
 rule_terminal_chars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index b2ad7cb..0bcaba8 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -51,7 +51,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 			evalResult.ErrIdx = charstream.Cursor()
 			return evalResult
 		}
-		startCursor = startCursor + len(skippedWSpaces)
+		startCursor = startCursor + len(skippedWSpaces) - len(leadingWSpaces)
 		// now we need to check if the leadingWSpace matches the end of skippedWSpace
 		skippedWSpaces = skippedWSpaces[len(skippedWSpaces)-len(leadingWSpaces):]
 		for i, skippedWSpace := range skippedWSpaces {
-- 
2.43.0


From 0c7d35e76a13d3f526a9d84ba7411938546f4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 22/30] fix: position lookup inside the first line of a text
 with several lines

---
 charstream.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/charstream.go b/charstream.go
index c92c025..c0a5818 100644
--- a/charstream.go
+++ b/charstream.go
@@ -105,6 +105,11 @@ func (inst *positionMap) lookup(idx int) *Position {
 		maxLineIdx = maxLineIdx - 1
 	}
 
+	if idx < inst.lines[0] {
+		// inside the 1st line, which has no previous line to count from
+		return &Position{Line: 1, Col: idx + 1}
+	}
+
 	lineIdx := 0
 	var col int
 	// do reverse linear lookup (TODO: binary lookup should be faster)
-- 
2.43.0


From 806559026955f7fab5f1c72edfad99845cd59330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 23/30] fix: stream positions must be computed under the lock
 that guards them

---
 charstream.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/charstream.go b/charstream.go
index c0a5818..0acd2bd 100644
--- a/charstream.go
+++ b/charstream.go
@@ -292,8 +292,8 @@ type CharstreamString struct {
 }
 
 func (inst *CharstreamString) Position() *Position {
-	inst.lock.RLock()
-	defer inst.lock.RUnlock()
+	inst.lock.Lock() // the position map is updated
+	defer inst.lock.Unlock()
 
 	if inst.cursor >= len(inst.chars) {
 		// cursor is at EOF
@@ -511,6 +511,9 @@ func (inst *CharstreamPrepend) Match(input []rune) ([]rune, bool) {
 }
 
 func (inst *CharstreamPrepend) Position() *Position {
+	inst.lock.RLock()
+	defer inst.lock.RUnlock()
+
 	if inst.cursor >= len(inst.prepend) {
 		return inst.charstream.Position()
 	}
-- 
2.43.0


From defb3803d330e90b5d850444f445076cf8d3350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 24/30] fix: any white space before a choice operator must mean
 the same

---
 rule_choice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_choice.go b/rule_choice.go
index 88e01d4..e482084 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -137,7 +137,7 @@ EXIT:
 	for {
 		char := cs.Peek()
 		switch char {
-		case ' ': // ignore space
+		case ' ', '\n', '\t', '\r': // ignore space
 			cs.Next()
 			continue
 		case ChoiceSymbol:
-- 
2.43.0


From 9f777998f73da963e7dd9c909cb96d93bb821c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 25/30] fix: rules given with -rule alone must not need an XBNF
 file

---
 main/xbnf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/xbnf.go b/main/xbnf.go
index 6905d5f..d54a750 100644
--- a/main/xbnf.go
+++ b/main/xbnf.go
@@ -34,7 +34,7 @@ func main() {
 		fmt.Printf("ERROR: Command line arguments must contains at least one of -xbnf or -rule\n")
 		printHelp()
 		return
-	} else {
+	} else if ruleFile != nil && *ruleFile != "" {
 		fmt.Printf("Adding rule(s) from XBNF file: %s\n", *ruleFile)
 		g, err := xbnf.NewGrammarFromFile(*ruleFile)
 		if err != nil {
-- 
2.43.0


From 6383bfce22177f29b998d734efb6181eb3bb4f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 26/30] fix: a repetition with equal limits must print as such,
 not as one without upper limit

---
 rule_repetition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_repetition.go b/rule_repetition.go
index dc3768c..56ba688 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -254,7 +254,7 @@ func (inst *RepetitionRule) StringWithIndent(indent string) string {
 func (inst *RepetitionRule) repetitionSpecString(buf *strings.Builder) {
 	if inst.min == inst.max {
 		if inst.min != 0 {
-			buf.WriteString(fmt.Sprintf("<%d>", inst.min))
+			buf.WriteString(fmt.Sprintf("<%d,%d>", inst.min, inst.max))
 		}
 	} else {
 		if inst.max == 0 {
-- 
2.43.0


From 31ad0d8f882abfcdedb80c5bb3a7cc74a2835027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 27/30] fix: printed chars and strings must escape what would
 end or change them

---
 rule_terminal_chars.go  | 2 +-
 rule_terminal_string.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index 0bcaba8..e4da135 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -84,7 +84,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 // Returns the rule definition string in xbnf format
 func (inst *TerminalCharsRule) String() string {
 	annotations := string(inst.annotation())
-	str := string(inst.text)
+	str := strings.ReplaceAll(string(inst.text), "\\", "\\\\") // output double back-slash
 	if strings.ContainsRune(str, '\'') {
 		str = strings.ReplaceAll(str, "'", "\\'")
 	}
diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index 18de378..03e0836 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -83,7 +83,8 @@ func (inst *TerminalStringRule) Eval(grammar *Grammar, charstream ICharstream, f
 
 // Returns the rule definition string in xbnf format
 func (inst *TerminalStringRule) String() string {
-	str := string(inst.text)
+	str := strings.ReplaceAll(string(inst.text), "\\", "\\\\") // output double back-slash
+	str = strings.ReplaceAll(str, "\"", "\\\"")
 	return fmt.Sprintf("%s\"%s\"", string(inst.annotation()), str)
 }
 
-- 
2.43.0


From a82b2f58ce3aed4ddf3223365feb815f14e81f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 28/30] fix: a printed range must read back as the same range

---
 rule_terminal_range.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 086b789..ef8dfa5 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -77,22 +77,20 @@ func (inst *TerminalRangeRule) String() string {
 	beginStr := ""
 	endStr := ""
 	if inst.beginAsUnicode {
-		beginStr = fmt.Sprintf("%s\\u%04X", annotations, inst.begin)
+		beginStr = fmt.Sprintf("\\u%04X", inst.begin)
 	} else {
-		if inst.begin == '\'' {
+		if inst.begin == '\\' {
+			beginStr = "'\\\\'"
+		} else if inst.begin == '\'' {
 			beginStr = "'\\''"
 		} else {
 			beginStr = "'" + string(inst.begin) + "'"
 		}
 	}
-	if inst.endAsUnicode {
-		endStr = fmt.Sprintf("%s\\u%04X", annotations, inst.end)
+	if inst.endAsUnicode || inst.end == '\'' || inst.end == '\\' { // the end of a range has no other escape
+		endStr = fmt.Sprintf("\\u%04X", inst.end)
 	} else {
-		if inst.end == '\'' {
-			endStr = "'\\''"
-		} else {
-			endStr = "'" + string(inst.end) + "'"
-		}
+		endStr = "'" + string(inst.end) + "'"
 	}
 
 	return fmt.Sprintf("%s%s%s%s", annotations, beginStr, string(CharRangeSymbol), endStr)
-- 
2.43.0


From dfb6f3943ca2d673e5e7ce60881d187c8ed4eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 29/30] fix: a comment must not drop the rest of a rule
 definition after its line

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 6c702e0..9c2b8c0 100644
--- a/grammar.go
+++ b/grammar.go
@@ -606,7 +606,7 @@ EXIT:
 				}
 				comment = append(comment, char)
 			}
-			break EXIT
+			continue // the definition may go on in the next line
 		default:
 			if (char >= 'a' && char <= 'z') || (char >= 'A' && char <= 'Z') || char == '_' {
 				rule, err := inReference(inst, name, cs)
-- 
2.43.0


From 7a5d3a3757bbf77a066948720aa01d8cf4274d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 30/30] fix: an annotation that no rule follows must be
 rejected, not ignored

---
 grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grammar.go b/grammar.go
index 9c2b8c0..6aab2eb 100644
--- a/grammar.go
+++ b/grammar.go
@@ -623,6 +623,9 @@ EXIT:
 			}
 		}
 	}
+	if isTokenized || isNonData || isVirtual {
+		return nil, fmt.Errorf("annotation symbol must be followed by a rule")
+	}
 	switch len(rules) {
 	case 0:
 		return nil, fmt.Errorf("no rule found")
-- 
2.43.0

