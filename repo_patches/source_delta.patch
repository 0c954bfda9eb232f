From a5cffc66046e63565f9d8c625187b7e3330640c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 01/50] fix: lexer leaves source position unchanged on error or
 unsuitable token

---
 lexer/lexer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 3d954ae..7b87e25 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -145,8 +145,12 @@ func (l *Lexer) fetch(q *source.Queue, tSet TokenTypeSet) (*Token, bool, error)
 // Returns EoI token if queue is empty.
 // Returns EoF token and discards current source if current position is beyond the end of current source.
 func (l *Lexer) Next(q *source.Queue) (*Token, error) {
+	pos := q.Pos()
 	for {
 		t, _, e := l.fetch(q, AllTokenTypes)
+		if e != nil {
+			q.Seek(pos)
+		}
 		if t != nil || e != nil {
 			return t, e
 		}
@@ -163,8 +167,12 @@ func (l *Lexer) NextOf(q *source.Queue, tts TokenTypeSet) (*Token, error) {
 		return nil, nil
 	}
 
+	pos := q.Pos()
 	for {
 		t, advanced, e := l.fetch(q, tts)
+		if t == nil && (e != nil || !advanced) {
+			q.Seek(pos)
+		}
 		if t != nil || e != nil || !advanced {
 			return t, e
 		}
-- 
2.43.0


From 4a476a01d53f09af589f716c4265ad9549540a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 02/50] fix: conflict resolution no longer overwrites branches
 it has not examined yet

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index aa31717..c90b49c 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -938,7 +938,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 
 	for {
 		branches = nextBranches
-		nextBranches = nextBranches[:0]
+		nextBranches = nil
 		tokens = append(tokens, tok)
 		lastSuccess = nil
 
-- 
2.43.0


From 434da0eb1aed8d848a8d4943b362400e4c337c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 03/50] fix: repeated lists that may match nothing no longer
 loop forever

---
 langdef/chunks.go | 3 ++-
 langdef/result.go | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/langdef/chunks.go b/langdef/chunks.go
index f660d21..7fe45cc 100755
--- a/langdef/chunks.go
+++ b/langdef/chunks.go
@@ -102,7 +102,7 @@ func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
 		chunk.BuildStates(g, states[i], states[i+1])
 	}
 
-	if c.chunks[totalChunks-1].IsOptional() {
+	if c.chunks[totalChunks-1].IsOptional() && states[totalChunks-1] != tailIndex {
 		g.States[states[totalChunks-1]].BypassRule(tailIndex)
 	}
 	for i := totalChunks - 2; i >= 0; i-- {
@@ -112,6 +112,7 @@ func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
 	}
 	if needExtraRule {
 		g.States[stateIndex].CopyRules(g.States[states[0]])
+		g.States[stateIndex].dropBypassRule(stateIndex)
 	}
 }
 
diff --git a/langdef/result.go b/langdef/result.go
index 6158acb..9d9ef14 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -113,6 +113,14 @@ func (se *stateEntry) BypassRule(nextState int) {
 	se.AddRule(nextState, grammar.SameNode, grammar.AnyToken)
 }
 
+// dropBypassRule removes bypass rule if it leads to given state.
+func (se *stateEntry) dropBypassRule(nextState int) {
+	rs := se.Rules[grammar.AnyToken]
+	if len(rs) != 0 && rs[0].Node == grammar.SameNode && rs[0].State == nextState {
+		delete(se.Rules, grammar.AnyToken)
+	}
+}
+
 func (se *stateEntry) CopyRules(from *stateEntry) {
 	for k, rs := range from.Rules {
 		if k >= 0 {
-- 
2.43.0


From 8c327def7954a90f2425fc57afc0500adbf2c439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:45 +0000
Subject: [PATCH 04/50] fix: states copying a bypass rule no longer share it
 when states are renumbered

---
 langdef/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/result.go b/langdef/result.go
index 9d9ef14..b34ee85 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -126,7 +126,7 @@ func (se *stateEntry) CopyRules(from *stateEntry) {
 		if k >= 0 {
 			se.Rules[k] = append(se.Rules[k], rs...)
 		} else {
-			se.Rules[k] = rs
+			se.Rules[k] = append([]grammar.Rule(nil), rs...)
 		}
 	}
 }
-- 
2.43.0


From 8fcc709f7e5cbc63b206df965053a77b59bc5240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 05/50] fix: error token types give bad token error

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index c90b49c..da27556 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -86,7 +86,11 @@ func New(g *grammar.Grammar, opts ...Option) (*Parser, error) {
 
 		lr := &lrs[t.Group]
 		pattern := "(" + t.Re + ")"
-		lr.types = append(lr.types, lexer.TokenType{i, t.Name})
+		tokenType := i
+		if t.Flags&grammar.ErrorToken != 0 {
+			tokenType = lexer.ErrorTokenType
+		}
+		lr.types = append(lr.types, lexer.TokenType{tokenType, t.Name})
 		lr.patterns = append(lr.patterns, pattern)
 	}
 
-- 
2.43.0


From 0de109d62a7d0d49b538ad9b6cb3276ae3170a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 06/50] fix: no panic when lookahead meets a lexical error

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index da27556..eb01f3a 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -746,7 +746,9 @@ func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State)
 		tokens, rules := pc.resolveConflict(ctx, t)
 		r = rules[0]
 		for i := len(tokens) - 1; i >= 1; i-- {
-			pc.tokens.Prepend(tokens[i])
+			if tokens[i] != nil {
+				pc.tokens.Prepend(tokens[i])
+			}
 		}
 		pc.appliedRules.Fill(rules[1:])
 	}
-- 
2.43.0


From 2f225c658b2fe4f1b47a9e5e73cad4e8d1f02b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:27 +0000
Subject: [PATCH 07/50] fix: states expecting only end of input or hook tokens
 fetch any token, no panic in the error message

---
 parser/parser.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index eb01f3a..d1f1201 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -499,13 +499,14 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 
 		for !tokenConsumed && node != nil {
 			rule, found := pc.nextRule(ctx, tok, gr.States[node.state])
-			if !found {
-				if tok == nil {
-					tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
-					if e != nil {
-						return nil, e
-					}
+			if !found && tok == nil {
+				tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
+				if e != nil {
+					return nil, e
 				}
+				rule, found = pc.nextRule(ctx, tok, gr.States[node.state])
+			}
+			if !found {
 				expected := pc.getExpectedToken(gr.States[node.state])
 				if tok.Type() == lexer.EoiTokenType {
 					e = unexpectedEofError(tok, expected)
@@ -557,7 +558,7 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 
 func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	g := pc.parser.grammar
-	index := 0
+	index := lexer.EoiTokenType
 	if s.HighRule > s.LowRule {
 		index = g.Rules[s.LowRule].Token
 		if index < 0 && s.HighRule > s.LowRule+1 {
@@ -566,10 +567,13 @@ func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	}
 	if s.HighMultiRule > s.LowMultiRule {
 		i := g.MultiRules[s.LowMultiRule].Token
-		if i < index {
+		if index < 0 || i < index {
 			index = i
 		}
 	}
+	if index < 0 {
+		return "$" + lexer.EoiTokenName
+	}
 
 	token := g.Tokens[index]
 	if (token.Flags & grammar.LiteralToken) != 0 {
-- 
2.43.0


From 404599c2fd5d09c64460611cae95cccd86fcc0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 08/50] fix: lexer without token types reports end of input and
 wrong characters to an unfiltered fetch

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 7b87e25..f89e474 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -163,7 +163,7 @@ func (l *Lexer) Next(q *source.Queue) (*Token, error) {
 // Returns EoI token if queue is empty.
 // Returns EoF token and discards current source if current position is beyond the end of current source.
 func (l *Lexer) NextOf(q *source.Queue, tts TokenTypeSet) (*Token, error) {
-	if tts&l.typeMask == 0 {
+	if tts&l.typeMask == 0 && tts != AllTokenTypes {
 		return nil, nil
 	}
 
-- 
2.43.0


From 2c6c593908c3fc8690363450d87a44f89b6432a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 09/50] fix: hook error during lookahead aborts the parse

---
 parser/parser.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d1f1201..4b0d98b 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -498,13 +498,16 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 
 		for !tokenConsumed && node != nil {
-			rule, found := pc.nextRule(ctx, tok, gr.States[node.state])
-			if !found && tok == nil {
+			rule, found, e := pc.nextRule(ctx, tok, gr.States[node.state])
+			if e == nil && !found && tok == nil {
 				tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
 				if e != nil {
 					return nil, e
 				}
-				rule, found = pc.nextRule(ctx, tok, gr.States[node.state])
+				rule, found, e = pc.nextRule(ctx, tok, gr.States[node.state])
+			}
+			if e != nil {
+				return nil, e
 			}
 			if !found {
 				expected := pc.getExpectedToken(gr.States[node.state])
@@ -731,7 +734,7 @@ func (pc *ParseContext) pullToken(ctx context.Context, types grammar.BitSet, lay
 	}
 }
 
-func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool) {
+func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool, e error) {
 	r, found = pc.appliedRules.First()
 	if found {
 		return
@@ -747,7 +750,11 @@ func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State)
 		r = rules[0]
 	} else {
 		//		tokens, rules := pc.resolve(ctx, t, rules)
-		tokens, rules := pc.resolveConflict(ctx, t)
+		tokens, rules, e := pc.resolveConflict(ctx, t)
+		if e != nil {
+			return r, false, e
+		}
+
 		r = rules[0]
 		for i := len(tokens) - 1; i >= 1; i-- {
 			if tokens[i] != nil {
@@ -924,7 +931,7 @@ func (pc *ParseContext) applyRule(ctx context.Context, tok *lexer.Token, rule gr
 	return tokenConsumed, e
 }
 
-func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Token, []grammar.Rule) {
+func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Token, []grammar.Rule, error) {
 	var tokens []*lexer.Token
 	nextBranches := []*parsingBranch{pc.newParsingBranch()}
 	var branches []*parsingBranch
@@ -995,7 +1002,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		var e error
 		tok, e = pc.nextToken(ctx, types)
 		if e != nil {
-			break
+			return nil, nil, e
 		}
 	}
 
@@ -1007,5 +1014,5 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		b = lastError
 	}
 
-	return tokens, b.AppliedRules
+	return tokens, b.AppliedRules, nil
 }
-- 
2.43.0


From 467e494d38781505fa7bdb706ab8b039e65d6554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 10/50] fix: wrong hook names of a layer are reported

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4b0d98b..b40663e 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -272,7 +272,10 @@ func newParseContext(ctx context.Context, p *Parser, q *source.Queue, hs Hooks)
 
 	for i := len(p.layers) - 1; i >= 0; i-- {
 		hooks := p.layers[i].Init(ctx, result)
-		newHookLayer(p, result, hooks)
+		e = newHookLayer(p, result, hooks)
+		if e != nil {
+			return nil, e
+		}
 	}
 
 	firstToken := lexer.NewToken(grammar.AnyToken, "", nil, q.SourcePos())
-- 
2.43.0


From 017531107e27b6b9f3993eacf72eca03134190b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 11/50] fix: lookahead tokens not used by a partial parse are
 returned to the source queue

---
 parser/parser.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b40663e..a1bd8b2 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -532,13 +532,10 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 	}
 
 	if !tokenConsumed && tok.Type() != lexer.EoiTokenType {
-		s := tok.Source()
-		if s != nil {
-			if s != pc.sources.Source() {
-				pc.sources.Prepend(s)
-			}
-			pc.sources.Seek(tok.Pos().Pos())
-		}
+		pc.tokens.Prepend(tok)
+	}
+	if !pc.fullSource {
+		pc.returnTokens()
 	}
 
 	if pc.fullSource && (tok == nil || tok.Type() != lexer.EoiTokenType) {
@@ -562,6 +559,22 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 	return pc.lastResult, nil
 }
 
+// returnTokens makes fetched but not consumed tokens available in source queue again.
+func (pc *ParseContext) returnTokens() {
+	tokens := pc.tokens.Items()
+	for i := len(tokens) - 1; i >= 0; i-- {
+		s := tokens[i].Source()
+		if s == nil || tokens[i].Type() < 0 {
+			continue
+		}
+
+		if s != pc.sources.Source() {
+			pc.sources.Prepend(s)
+		}
+		pc.sources.Seek(tokens[i].Pos().Pos())
+	}
+}
+
 func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	g := pc.parser.grammar
 	index := lexer.EoiTokenType
-- 
2.43.0


From 80c0309fb5f47ae736405dc146f0b5e86f168450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 12/50] fix: next and previous token lookup passes over nodes
 without tokens

---
 tree/tree.go | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 3aeeea8..eeba1c2 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -99,17 +99,23 @@ func NextTokenElement(n Element) Element {
 		return nil
 	}
 
-	nn := n.Next()
-	for nn == nil {
-		n = n.Parent()
-		if n == nil {
-			return nil
+	for {
+		nn := n.Next()
+		for nn == nil {
+			n = n.Parent()
+			if n == nil {
+				return nil
+			}
+
+			nn = n.Next()
 		}
 
-		nn = n.Next()
+		n = nn
+		nn = FirstTokenElement(n)
+		if nn != nil {
+			return nn
+		}
 	}
-
-	return FirstTokenElement(nn)
 }
 
 // PrevTokenElement returns the last token element before given one, if there are any.
@@ -119,17 +125,23 @@ func PrevTokenElement(n Element) Element {
 		return nil
 	}
 
-	nn := n.Prev()
-	for nn == nil {
-		n = n.Parent()
-		if n == nil {
-			return nil
+	for {
+		nn := n.Prev()
+		for nn == nil {
+			n = n.Parent()
+			if n == nil {
+				return nil
+			}
+
+			nn = n.Prev()
 		}
 
-		nn = n.Prev()
+		n = nn
+		nn = LastTokenElement(n)
+		if nn != nil {
+			return nn
+		}
 	}
-
-	return LastTokenElement(nn)
 }
 
 // Children returns child elements (if there are any) or nil if given element is not a node.
-- 
2.43.0


From 323ea264dcd41c7c342d46c5297c2ae5a7865579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 13/50] fix: replacing an element with its next sibling or a
 root, adding an element next to itself

---
 tree/tree.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index eeba1c2..831e5fa 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -171,6 +171,7 @@ func Detach(n Element) {
 }
 
 // Replace replaces old element with new one or simply removes old element if the new one is nil.
+// Does nothing if old element is the tree root.
 func Replace(old, n Element) {
 	if n == nil || old == nil {
 		Detach(old)
@@ -178,17 +179,21 @@ func Replace(old, n Element) {
 	}
 
 	pa := old.Parent()
+	if pa == nil || n == old {
+		return
+	}
+
+	Detach(n)
 	ne := old.Next()
 	Detach(old)
-	Detach(n)
 	pa.AddChild(n, ne)
 }
 
 // AppendSibling places new element after target one.
 // Target becomes new element's previous sibling, target's next sibling (if any) becomes new element's next sibling.
-// Does nothing if either new or target element is nil.
+// Does nothing if either new or target element is nil or if it is the same element.
 func AppendSibling(prev, el Element) {
-	if el == nil || prev == nil {
+	if el == nil || prev == nil || el == prev {
 		return
 	}
 
@@ -209,9 +214,9 @@ func AppendSibling(prev, el Element) {
 
 // PrependSibling places new element before target one.
 // Target becomes new element's next sibling, target's previous sibling (if any) becomes new element's previous sibling.
-// Does nothing if either new or target element is nil.
+// Does nothing if either new or target element is nil or if it is the same element.
 func PrependSibling(next, el Element) {
-	if el == nil || next == nil {
+	if el == nil || next == nil || el == next {
 		return
 	}
 
-- 
2.43.0


From b8c2efbb38e91b75e4992f208668d7de44a4e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:46 +0000
Subject: [PATCH 14/50] fix: node hooks receive the result of the closest
 hooked nested node in every layer

---
 parser/hooks.go  | 4 +++-
 parser/parser.go | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser/hooks.go b/parser/hooks.go
index fa65640..419fa38 100644
--- a/parser/hooks.go
+++ b/parser/hooks.go
@@ -49,7 +49,9 @@ func (dhi *defaultHookInstance) NewNode(node string, token *Token) error {
 }
 
 func (dhi *defaultHookInstance) HandleNode(node string, result any) error {
-	dhi.result = result
+	if result != nil {
+		dhi.result = result
+	}
 	return nil
 }
 
diff --git a/parser/parser.go b/parser/parser.go
index a1bd8b2..641e264 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -266,10 +266,6 @@ func newParseContext(ctx context.Context, p *Parser, q *source.Queue, hs Hooks)
 		return nil, e
 	}
 
-	if result.watchNodes && result.nodeHooks[0][0] == nil {
-		result.nodeHooks[0][0] = defaultNodeHook
-	}
-
 	for i := len(p.layers) - 1; i >= 0; i-- {
 		hooks := p.layers[i].Init(ctx, result)
 		e = newHookLayer(p, result, hooks)
@@ -338,6 +334,10 @@ func newHookLayer(p *Parser, pc *ParseContext, hs Hooks) error {
 
 			nodeHooks[i+nodeHooksOffset] = nth
 		}
+
+		if nodeHooks[anyOffset+nodeHooksOffset] == nil {
+			nodeHooks[anyOffset+nodeHooksOffset] = defaultNodeHook
+		}
 		pc.nodeHooks = append(pc.nodeHooks, nodeHooks)
 	}
 
-- 
2.43.0


From 3075dea70d38c1ac2a9780fd054dcdd29b47e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 15/50] fix: unterminated directive at the end of a grammar
 description caused an endless loop

---
 langdef/parser.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index b9444ea..3b74eeb 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -332,15 +332,11 @@ func (c *parseContext) fetch(types []string, strict bool, e error) (*lexer.Token
 		}
 	}
 
-	if isEof(token) {
-		if strict {
+	if strict {
+		if isEof(token) {
 			return nil, eofError(token)
-		} else {
-			return token, nil
 		}
-	}
 
-	if strict {
 		return nil, unexpectedTokenError(token)
 	}
 
-- 
2.43.0


From 2c22b5e794c5f9f8c71f0b0f5e4ae8c21c4ade8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 16/50] fix: names equal to internal token type names were
 accepted as tokens of these types

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 3b74eeb..a4d645d 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -327,7 +327,7 @@ func (c *parseContext) fetch(types []string, strict bool, e error) (*lexer.Token
 	}
 
 	for _, typ := range types {
-		if token.TypeName() == typ || token.Text() == typ {
+		if token.TypeName() == typ || (token.TypeName() == opTok && token.Text() == typ) {
 			return token, nil
 		}
 	}
-- 
2.43.0


From 966ac903b193cba9198ad2a23f05ea9a12b84d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 17/50] fix: group reassignment was not detected for token
 types not defined yet

---
 langdef/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index a4d645d..b332ab4 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -559,6 +559,10 @@ func (c *parseContext) parseGroupDir() error {
 			c.result.Tokens[i].Group = c.currentGroup
 		} else {
 			i = c.addExtraToken(name)
+			if c.extraTokens[i].group != 0 {
+				return reassignedGroupError(name)
+			}
+
 			c.extraTokens[i].group = c.currentGroup
 		}
 	}
-- 
2.43.0


From 6ca4f022cbd91c7a5e76bba95da3e50daf8e9cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 18/50] fix: end of input was accepted as an external token
 type with an empty name

---
 langdef/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index b332ab4..004eacc 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -522,6 +522,14 @@ func (c *parseContext) parseTokenFlagDir(name string) error {
 		return e
 	}
 
+	if name == externDir {
+		for _, token := range tokens {
+			if token.Text() == "$" {
+				return defTokenError(token)
+			}
+		}
+	}
+
 	var flag grammar.TokenFlags = 0
 	switch name {
 	case sideDir:
-- 
2.43.0


From 5547ced81ced4ad9531ddb19a22f0d59f91f82c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 19/50] fix: token types mentioned in directives before their
 definitions were counted twice

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 004eacc..1949022 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -239,7 +239,7 @@ func (c *parseContext) Parse(s *source.Source) (*parseResult, error) {
 		return nil, e
 	}
 
-	if len(c.result.Tokens)+len(c.extraTokens) >= grammar.MaxTokenType {
+	if len(c.result.Tokens)+len(c.extraIndex) >= grammar.MaxTokenType {
 		return nil, tokenTypeNumberError(t)
 	}
 
-- 
2.43.0


From 447880810192d060eb71f45f87aa013445a9811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:35 +0000
Subject: [PATCH 20/50] fix: a literal listed in !literal before !reserved was
 not reserved

---
 langdef/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 1949022..1401a14 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -456,8 +456,10 @@ func (c *parseContext) addToken(name, re string, flags grammar.TokenFlags) int {
 }
 
 func (c *parseContext) addLiteralToken(name string, flags grammar.TokenFlags) {
-	_, has := c.literalIndex[name]
-	if !has {
+	i, has := c.literalIndex[name]
+	if has {
+		c.literals[i].flags |= flags
+	} else {
 		c.literalIndex[name] = len(c.literals)
 		c.literals = append(c.literals, literalToken{name, flags})
 	}
-- 
2.43.0


From 44a941141a98cf48fba273ba7992884b2542cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 21/50] fix: the list of undefined or unresolved nodes in an
 error message depended on map iteration order

---
 langdef/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index 1401a14..8563f94 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -3,6 +3,7 @@ package langdef
 import (
 	"bytes"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -895,6 +896,7 @@ func findUndefinedNodes(nti nodeIndex, e error) error {
 	}
 
 	if len(uns) > 0 {
+		sort.Strings(uns)
 		return unknownNodeError(uns)
 	}
 
@@ -986,6 +988,7 @@ func resolveDependencies(nts []grammar.Node, nti nodeIndex, e error) error {
 	}
 
 	indexes := resolveQueue.Items()
+	sort.Ints(indexes)
 	tokenAdded := true
 	for tokenAdded {
 		tokenAdded = false
-- 
2.43.0


From 57e8024ad6fcc2914d3ec45cf7ec54c2ff9e7a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:57 +0000
Subject: [PATCH 22/50] fix: line feeds in single-quoted strings and escaped
 line feeds in regexps of grammar descriptions

---
 langdef/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 8563f94..81ed166 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -167,12 +167,12 @@ func init() {
 
 	re := regexp.MustCompile(
 		`^(?:\s+|#[^\n]*|` +
-			`((?:"(?:[^\\"]|\\.)*")|(?:'.*?'))|` +
+			`((?:"(?:[^\\"]|\\.)*")|(?:'[^']*'))|` +
 			`([a-zA-Z_][a-zA-Z_0-9-]*)|` +
 			`(![a-z]+)|` +
 			`(\$\$[a-zA-Z_][a-zA-Z_0-9-]*)|` +
 			`(\$(?:[a-zA-Z_][a-zA-Z_0-9-]*)?)|` +
-			`(\/(?:[^\\\/]|\\.)+\/)|` +
+			`(\/(?:[^\\\/]|\\(?s:.))+\/)|` +
 			`([(){}\[\]=|,;@])|` +
 			`(['"/!].{0,10}))`)
 
-- 
2.43.0


From 31811f375eafbd11a70624ee7c8a44ece6d30537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 23/50] fix: \x escape in string literals of grammar
 descriptions gave a rune instead of a byte

---
 langdef/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 81ed166..a47f092 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -396,7 +396,11 @@ func processStringToken(token *lexer.Token) (*lexer.Token, error) {
 				return nil, e
 			}
 
-			result = utf8.AppendRune(result, r)
+			if letter == 'x' {
+				result = append(result, byte(r))
+			} else {
+				result = utf8.AppendRune(result, r)
+			}
 			content = content[entry.hexLen+2:]
 		}
 	}
-- 
2.43.0


From 476970607e56ef1cd92a32a0629a90a3480bfcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:40 +0000
Subject: [PATCH 24/50] fix: wrong string literal as the first argument of a
 layer command was ignored

---
 langdef/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index a47f092..42d8756 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -647,7 +647,11 @@ func (c *parseContext) parseLayerDef(t *lexer.Token) error {
 			return e
 		}
 
-		token, _ = c.fetchOne(rBraceTok, false, e)
+		token, e = c.fetchOne(rBraceTok, false, e)
+		if e != nil {
+			return e
+		}
+
 		if token != nil {
 			layer.Commands = append(layer.Commands, command)
 			continue
-- 
2.43.0


From 1a2eb09ff866fd51e446a488ec1e8d37d6184d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 25/50] fix: arguments of save-position command of convert
 layer were ignored

---
 parser/layers/convert/convert.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/layers/convert/convert.go b/parser/layers/convert/convert.go
index df403f7..ca2c684 100644
--- a/parser/layers/convert/convert.go
+++ b/parser/layers/convert/convert.go
@@ -125,6 +125,10 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 			}
 
 		case savePositionCommand:
+			if len(command.Arguments) != 0 {
+				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 0, len(command.Arguments))
+			}
+
 			savePosition = true
 
 		default:
-- 
2.43.0


From 7f2c20df5a899d36cfe74c32dfb3075602c7403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:14 +0000
Subject: [PATCH 26/50] fix: wrong number of arguments message of hook layers
 lacked the layer name

---
 parser/layers/common/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/common/errors.go b/parser/layers/common/errors.go
index 62a211c..a1f7d3d 100644
--- a/parser/layers/common/errors.go
+++ b/parser/layers/common/errors.go
@@ -36,7 +36,7 @@ func MakeMissingCommandError(layer, command string) *llx.Error {
 
 func MakeNumberOfArgumentsError(layer, command string, expected, got int) *llx.Error {
 	return llx.FormatError(NumberOfArgumentsError,
-		"wrong number of arguments for %q command for %q layer: expecting %d, got %d", command, expected, got)
+		"wrong number of arguments for %q command for %q layer: expecting %d, got %d", command, layer, expected, got)
 }
 
 func MakeInvalidArgumentError(layer, command, arg, reason string) *llx.Error {
-- 
2.43.0


From d93a605b7edcc56eaeaba8fb4bd68be6aff8654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 27/50] fix: indent layer overwrote source text when it joined
 non-adjacent space tokens

---
 parser/layers/indent/indent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index aad3122..b5a1b18 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -285,7 +285,7 @@ func (ls *layerState) adjustIndent(content []byte) state {
 	} else { // fetching multiple space tokens in a row, just in case...
 		tmp := make([]byte, len(ls.currentIndent), len(ls.currentIndent)+len(content))
 		copy(tmp, ls.currentIndent) // avoid spoiling source file
-		ls.currentIndent = append(ls.currentIndent, content...)
+		ls.currentIndent = append(tmp, content...)
 	}
 
 	currentLen := len(ls.currentIndent)
-- 
2.43.0


From 2e9b66c9dfa2d63c592250a9a0b56c36dd8ab914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 28/50] fix: unknown and repeated commands of indent layer were
 accepted

---
 parser/layers/indent/indent.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index b5a1b18..476d84b 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -386,6 +386,10 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 		switch command.Command {
 
 		case spaceCommand:
+			if gotSpaces {
+				return nil, common.MakeCommandAlreadyUsedError(layerName, command.Command)
+			}
+
 			gotSpaces = true
 			if len(command.Arguments) == 0 {
 				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 1, 0)
@@ -425,6 +429,9 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 			if prevType != "" {
 				return nil, common.MakeCommandAlreadyUsedError(layerName, command.Command)
 			}
+
+		default:
+			return nil, common.MakeUnknownCommandError(layerName, command.Command)
 		}
 	}
 
-- 
2.43.0


From d0f17b43198773a081afc83af341623f1e2fad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:48 +0000
Subject: [PATCH 29/50] fix: special token type in space command of indent
 layer caused a panic

---
 parser/layers/indent/indent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index 476d84b..1c63a2e 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -397,7 +397,7 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 
 			for _, ttn := range command.Arguments {
 				tt, valid := p.TokenType(ttn)
-				if !valid {
+				if !valid || tt < 0 {
 					return nil, common.MakeUnknownTokenTypeError(layerName, command.Command, ttn)
 				}
 
-- 
2.43.0


From 1fb11eb972c47875ced278cc85dac3afc760bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:16 +0000
Subject: [PATCH 30/50] fix: llxgen wrote invalid Go for a grammar containing
 layers

---
 cmd/llxgen/llxgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index 64aa7ca..cefdca7 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -126,7 +126,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 	buffer.WriteString("\t},\n")
 
 	if len(gr.Layers) != 0 {
-		buffer.WriteString("\tLayers: []grammar.Layer{\n}")
+		buffer.WriteString("\tLayers: []grammar.Layer{\n")
 		for _, layer := range gr.Layers {
 			buffer.WriteString(fmt.Sprintf("\t\t{Type: %q", layer.Type))
 			if len(layer.Commands) == 0 {
-- 
2.43.0


From b35f328338b15bd8ece84281935d7b59354068a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:19 +0000
Subject: [PATCH 31/50] fix: llxgen wrote invalid Go for a layer command
 containing arguments

---
 cmd/llxgen/llxgen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index cefdca7..e96b6c3 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -140,6 +140,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 						for _, arg := range command.Arguments[1:] {
 							buffer.WriteString(fmt.Sprintf(", %q", arg))
 						}
+						buffer.WriteString("}")
 					}
 					buffer.WriteString("},\n")
 				}
-- 
2.43.0


From 3653314a3052d53cb760ff80d060265c31b2ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 32/50] fix: llxgen reported a wrong invalid variable name

---
 cmd/llxgen/llxgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index e96b6c3..cadc060 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -109,7 +109,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 		return nil, fmt.Errorf("invalid package name: %s", packageName)
 	}
 	if !re.MatchString(varName) {
-		return nil, fmt.Errorf("invalid variable name: %s", packageName)
+		return nil, fmt.Errorf("invalid variable name: %s", varName)
 	}
 
 	var buffer bytes.Buffer
-- 
2.43.0


From 81b6c124261acb8a1117ee2e0ad69d7b77f43211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:51 +0000
Subject: [PATCH 33/50] fix: llxgen silently corrupted strings that are not
 valid UTF-8 when writing JSON

---
 cmd/llxgen/llxgen.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index cadc060..00df07d 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -24,6 +24,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"unicode/utf8"
 
 	"github.com/ava12/llx/grammar"
 	"github.com/ava12/llx/langdef"
@@ -87,6 +88,22 @@ func main() {
 }
 
 func makeJson(gr *grammar.Grammar) ([]byte, error) {
+	// JSON text cannot hold arbitrary bytes, they would be silently replaced with U+FFFD
+	for _, t := range gr.Tokens {
+		if !utf8.ValidString(t.Name) || !utf8.ValidString(t.Re) {
+			return nil, fmt.Errorf("cannot write token %q as JSON: not a valid UTF-8 text", t.Name)
+		}
+	}
+	for _, layer := range gr.Layers {
+		for _, command := range layer.Commands {
+			for _, arg := range command.Arguments {
+				if !utf8.ValidString(arg) {
+					return nil, fmt.Errorf("cannot write argument %q as JSON: not a valid UTF-8 text", arg)
+				}
+			}
+		}
+	}
+
 	return json.MarshalIndent(gr, "", "  ")
 }
 
-- 
2.43.0


From 0f1075e0ceab1a35468b73865c8ebb0f71e85402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:52 +0000
Subject: [PATCH 34/50] fix: llxgen wrote invalid Go if package or variable
 name was a reserved word

---
 cmd/llxgen/llxgen.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index 00df07d..90bbb6d 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -8,7 +8,7 @@ Usage is
 
 -o <name> defines output file name, default is the name of input file with .go or .json suffix;
 
--p <name> defines Go package name, default is directory name of input file;
+-p <name> defines Go package name, default is directory name of output file;
 
 -v <name> defines generated Go variable name of type *grammar.Grammar, default is the name of root node;
 
@@ -21,6 +21,7 @@ import (
 	"encoding/json"
 	"flag"
 	"fmt"
+	"go/token"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -87,6 +88,9 @@ func main() {
 	}
 }
 
+// reservedNames contains names that have another meaning in generated Go file.
+var reservedNames = map[string]bool{"_": true, "init": true, "grammar": true, "string": true}
+
 func makeJson(gr *grammar.Grammar) ([]byte, error) {
 	// JSON text cannot hold arbitrary bytes, they would be silently replaced with U+FFFD
 	for _, t := range gr.Tokens {
@@ -122,10 +126,11 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 	}
 
 	re := regexp.MustCompile("^[A-Za-z_][A-Za-z_0-9]*$")
-	if !re.MatchString(packageName) {
+	if !re.MatchString(packageName) || token.IsKeyword(packageName) || packageName == "_" {
 		return nil, fmt.Errorf("invalid package name: %s", packageName)
 	}
-	if !re.MatchString(varName) {
+	if !re.MatchString(varName) || token.IsKeyword(varName) || reservedNames[varName] ||
+		(varName == "main" && packageName == "main") {
 		return nil, fmt.Errorf("invalid variable name: %s", varName)
 	}
 
-- 
2.43.0


From d6c7a5d0fe294b53e0a6e539186e3ac5226a3075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 35/50] fix: conf-edit silently dropped everything after the
 first wrong symbol between sections

---
 examples/conf-edit/internal/grammar.go  | 4 ++--
 examples/conf-edit/internal/grammar.llx | 2 +-
 examples/conf-edit/internal/lib.go      | 2 ++
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/examples/conf-edit/internal/grammar.go b/examples/conf-edit/internal/grammar.go
index bc7ed91..8a5e044 100644
--- a/examples/conf-edit/internal/grammar.go
+++ b/examples/conf-edit/internal/grammar.go
@@ -44,11 +44,11 @@ var confGrammar = &grammar.Grammar{
 	},
 	MultiRules: []grammar.MultiRule{},
 	Rules: []grammar.Rule{
-		{-1, -1, -1}, // 0(0)
+		{-3, -1, -1}, // 0(0)
 		{2, 1, 1},
 		{4, 1, 1},
 		{8, 1, 2},
-		{-1, -1, -1}, // 1(4)
+		{-3, -1, -1}, // 1(4)
 		{8, 1, 2},
 		{2, 3, 4}, // 2(6)
 		{4, 3, 3},
diff --git a/examples/conf-edit/internal/grammar.llx b/examples/conf-edit/internal/grammar.llx
index 6f7a8b1..9013fb2 100644
--- a/examples/conf-edit/internal/grammar.llx
+++ b/examples/conf-edit/internal/grammar.llx
@@ -11,7 +11,7 @@ $name = /[a-zA-Z_][a-zA-Z_0-9]*(?:-[a-zA-Z_][a-zA-Z_0-9]*)*/;
 $op = /[\[\]=]/;
 $value = /\S[^\n#]*/;
 
-confGrammar = [def-section], {section};
+confGrammar = [def-section], {section}, $;
 def-section = entry | sep, {entry | sep};
 section = header, {entry | sep};
 entry = $name, '=', [$value], [$nl];
diff --git a/examples/conf-edit/internal/lib.go b/examples/conf-edit/internal/lib.go
index b90ea7e..b4f431b 100644
--- a/examples/conf-edit/internal/lib.go
+++ b/examples/conf-edit/internal/lib.go
@@ -311,6 +311,8 @@ func Parse(name string, src *[]byte) (*Conf, error) {
 	}
 
 	rootNode := root.(tree.NodeElement)
+	// end-of-input token is not a part of content
+	tree.Detach(rootNode.LastChild())
 	result := NewConf(rootNode)
 	children := tree.Children(rootNode)
 	for _, child := range children {
-- 
2.43.0


From e39999d09d469d279cabbc202af839c94735a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 36/50] fix: conf-edit ignored repeated sections when removing
 a section

---
 examples/conf-edit/internal/lib.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/examples/conf-edit/internal/lib.go b/examples/conf-edit/internal/lib.go
index b4f431b..22a975d 100644
--- a/examples/conf-edit/internal/lib.go
+++ b/examples/conf-edit/internal/lib.go
@@ -118,6 +118,8 @@ func (c *Conf) AddSectionNode(n tree.NodeElement) *Section {
 	if result == nil {
 		result = &Section{Nodes: []tree.NodeElement{n}, Entries: make(map[string]*Entry)}
 		c.Sections[name] = result
+	} else {
+		result.Nodes = append(result.Nodes, n)
 	}
 	return result
 }
-- 
2.43.0


From 924b1816743936e028f4f77eb5b722041a06eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:21 +0000
Subject: [PATCH 37/50] fix: conf-edit lost new value of a repeated entry that
 was empty

---
 examples/conf-edit/internal/lib.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/examples/conf-edit/internal/lib.go b/examples/conf-edit/internal/lib.go
index 22a975d..ba2262d 100644
--- a/examples/conf-edit/internal/lib.go
+++ b/examples/conf-edit/internal/lib.go
@@ -218,6 +218,7 @@ func (s *Section) AddEntryNode(n tree.NodeElement) *Entry {
 	}
 
 	result.Node = n
+	result.ValueNode = nil
 	valueNodes := valueSelector.Apply(n)
 	if len(valueNodes) != 0 {
 		result.ValueNode = valueNodes[0]
-- 
2.43.0


From c6553a3bdc2cb83d29e5d6a8a7e5e54e2446a91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 38/50] fix: conf-edit panicked on adding a section after an
 emptied one and on removing a section after a comment

---
 examples/conf-edit/internal/lib.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/examples/conf-edit/internal/lib.go b/examples/conf-edit/internal/lib.go
index ba2262d..5debff6 100644
--- a/examples/conf-edit/internal/lib.go
+++ b/examples/conf-edit/internal/lib.go
@@ -163,7 +163,8 @@ func (c *Conf) AddSection(name string) *Section {
 		child = c.RootNode.LastChild()
 		if child != nil && child.IsNode() {
 			child := child.(tree.NodeElement)
-			if child.LastChild().TypeName() != sepNt {
+			last := child.LastChild()
+			if last != nil && last.TypeName() != sepNt {
 				child.AddChild(sepNode(), nil)
 			}
 		}
@@ -180,7 +181,7 @@ func (c *Conf) RemoveSection(name string) {
 		c.updated = true
 		for _, n := range sec.Nodes {
 			p := n.Prev()
-			if p != nil {
+			if p != nil && p.IsNode() {
 				p = p.(tree.NodeElement).LastChild()
 				if p != nil && p.TypeName() == sepNt {
 					tree.Detach(p)
-- 
2.43.0


From b39baf298c5998926989fdbfbaf52ea1eeb4b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 39/50] fix: conf-edit took the line after a comment for a
 value and added an entry before a comment of the last one

---
 examples/conf-edit/internal/grammar.go  |  2 +-
 examples/conf-edit/internal/grammar.llx |  2 +-
 examples/conf-edit/internal/lib.go      | 30 +++++++++++++++++++++++--
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/examples/conf-edit/internal/grammar.go b/examples/conf-edit/internal/grammar.go
index 8a5e044..fadcd0b 100644
--- a/examples/conf-edit/internal/grammar.go
+++ b/examples/conf-edit/internal/grammar.go
@@ -7,7 +7,7 @@ import "github.com/ava12/llx/grammar"
 var confGrammar = &grammar.Grammar{
 	Tokens: []grammar.Token{
 		{Name: "space", Re: "[ \\t]+", Group: 0, Flags: 68},
-		{Name: "comment", Re: "#.*?(?:\\n|$)", Group: 0, Flags: 68},
+		{Name: "comment", Re: "#[^\\n]*", Group: 0, Flags: 68},
 		{Name: "nl", Re: "\\n", Group: 0, Flags: 64},
 		{Name: "sec-name", Re: "[a-zA-Z_][a-zA-Z_0-9]*(?:[.-][a-zA-Z_][a-zA-Z_0-9]*)*", Group: 2, Flags: 64},
 		{Name: "name", Re: "[a-zA-Z_][a-zA-Z_0-9]*(?:-[a-zA-Z_][a-zA-Z_0-9]*)*", Group: 0, Flags: 64},
diff --git a/examples/conf-edit/internal/grammar.llx b/examples/conf-edit/internal/grammar.llx
index 9013fb2..a008267 100644
--- a/examples/conf-edit/internal/grammar.llx
+++ b/examples/conf-edit/internal/grammar.llx
@@ -4,7 +4,7 @@
 !group $sec-name;
 
 $space = /[ \t]+/;
-$comment = /#.*?(?:\n|$)/;
+$comment = /#[^\n]*/;
 $nl = /\n/;
 $sec-name = /[a-zA-Z_][a-zA-Z_0-9]*(?:[.-][a-zA-Z_][a-zA-Z_0-9]*)*/;
 $name = /[a-zA-Z_][a-zA-Z_0-9]*(?:-[a-zA-Z_][a-zA-Z_0-9]*)*/;
diff --git a/examples/conf-edit/internal/lib.go b/examples/conf-edit/internal/lib.go
index 5debff6..edd5639 100644
--- a/examples/conf-edit/internal/lib.go
+++ b/examples/conf-edit/internal/lib.go
@@ -23,6 +23,7 @@ const (
 	valueToken   = "value"
 	opToken      = "op"
 	nlToken      = "nl"
+	commentToken = "comment"
 
 	defSectionNt = "def-section"
 	sectionNt    = "section"
@@ -80,6 +81,10 @@ func sepNode() tree.NodeElement {
 	return result
 }
 
+func isComment(e tree.Element) bool {
+	return e != nil && e.TypeName() == commentToken
+}
+
 func splitName(name string) (sec, val string) {
 	i := strings.LastIndex(name, ".")
 	if i < 0 {
@@ -183,7 +188,7 @@ func (c *Conf) RemoveSection(name string) {
 			p := n.Prev()
 			if p != nil && p.IsNode() {
 				p = p.(tree.NodeElement).LastChild()
-				if p != nil && p.TypeName() == sepNt {
+				if p != nil && p.TypeName() == sepNt && !isComment(p.Prev()) {
 					tree.Detach(p)
 				}
 			}
@@ -275,7 +280,14 @@ func (s *Section) SetEntry(name, value string) *Entry {
 		last = last.Prev()
 	}
 	if last == nil {
-		snode.AddChild(node, snode.FirstChild())
+		// skip leading comment lines
+		child := snode.FirstChild()
+		comment := false
+		for child != nil && (comment || isComment(child)) {
+			comment = isComment(child)
+			child = child.Next()
+		}
+		snode.AddChild(node, child)
 	} else {
 		tree.AppendSibling(last, node)
 	}
@@ -292,6 +304,14 @@ func (s *Section) RemoveEntry(name string) {
 	}
 }
 
+func moveTokens(tokens []tree.Element, node tree.NodeElement) {
+	first := node.FirstChild()
+	for _, t := range tokens {
+		tree.Detach(t)
+		node.AddChild(t, first)
+	}
+}
+
 func Parse(name string, src *[]byte) (*Conf, error) {
 	source.NormalizeNls(src)
 	if len(*src) > 0 && (*src)[len(*src)-1] != '\n' {
@@ -319,6 +339,12 @@ func Parse(name string, src *[]byte) (*Conf, error) {
 	tree.Detach(rootNode.LastChild())
 	result := NewConf(rootNode)
 	children := tree.Children(rootNode)
+	for i := 1; i < len(children); i++ {
+		if children[i].TypeName() == defSectionNt {
+			// leading comments belong to default section
+			moveTokens(children[:i], children[i].(tree.NodeElement))
+		}
+	}
 	for _, child := range children {
 		if !child.IsNode() {
 			continue
-- 
2.43.0


From e071a39a0242568f766dee3331bd5493fc085db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:35 +0000
Subject: [PATCH 40/50] fix: recursive function of calculator example crashed
 the process

---
 examples/calc/internal/lib.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/examples/calc/internal/lib.go b/examples/calc/internal/lib.go
index 5cfc15c..fcb5cd9 100644
--- a/examples/calc/internal/lib.go
+++ b/examples/calc/internal/lib.go
@@ -17,6 +17,7 @@ const (
 	WrongArgNumberError
 	ArgDefinedError
 	UnexpectedInputError
+	RecursiveCallError
 )
 
 func unknownVarError(name string) *llx.Error {
@@ -35,6 +36,10 @@ func argDefinedError(name string) *llx.Error {
 	return llx.FormatError(ArgDefinedError, "argument %s already defined", name)
 }
 
+func recursiveCallError(name string) *llx.Error {
+	return llx.FormatError(RecursiveCallError, "endless recursion: %s calls itself", name)
+}
+
 func unexpectedInputError(pos llx.SourcePos, text string) *llx.Error {
 	return llx.FormatErrorPos(pos, UnexpectedInputError, "unexpected %q", text)
 }
@@ -55,7 +60,15 @@ func (f *function) call(c *runContext, args []float64) (float64, error) {
 		return 0.0, wrongArgNumberError(f.name, len(f.argNames), argc)
 	}
 
+	// there are no conditional expressions, so recursion never ends
+	for p := c; p != nil; p = p.parent {
+		if p.callee == f {
+			return 0.0, recursiveCallError(f.name)
+		}
+	}
+
 	newc := newRunContext(c)
+	newc.callee = f
 	for i, name := range f.argNames {
 		newc.vars[name] = args[i]
 	}
@@ -64,12 +77,13 @@ func (f *function) call(c *runContext, args []float64) (float64, error) {
 
 type runContext struct {
 	parent    *runContext
+	callee    *function
 	vars      map[string]float64
 	functions map[string]*function
 }
 
 func newRunContext(parent *runContext) *runContext {
-	return &runContext{parent, make(map[string]float64), make(map[string]*function)}
+	return &runContext{parent, nil, make(map[string]float64), make(map[string]*function)}
 }
 
 func (c *runContext) variable(name string) (res float64, e error) {
-- 
2.43.0


From 7a6ceb32391e59d048a978fcb4daf0e19aa68020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:18 +0000
Subject: [PATCH 41/50] fix: name "func" was ignored in function definitions of
 calculator example

---
 examples/calc/internal/lib.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/examples/calc/internal/lib.go b/examples/calc/internal/lib.go
index fcb5cd9..bd878e3 100644
--- a/examples/calc/internal/lib.go
+++ b/examples/calc/internal/lib.go
@@ -363,10 +363,6 @@ func (fd *funcDef) HandleToken(token *parser.Token) (e error) {
 	}
 
 	name := token.Text()
-	if name == "func" {
-		return
-	}
-
 	if fd.name == "" {
 		fd.name = name
 		return
-- 
2.43.0


From 3b7bdb0c6af96ec089b77d460f1d3334315ca37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:13 +0000
Subject: [PATCH 42/50] fix: calculator example changed the order of operations
 if there were constants after a variable

---
 examples/calc/internal/lib.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/calc/internal/lib.go b/examples/calc/internal/lib.go
index bd878e3..fd7bbd1 100644
--- a/examples/calc/internal/lib.go
+++ b/examples/calc/internal/lib.go
@@ -190,7 +190,8 @@ func (ch *chain) NewNode(node string, token *parser.Token) error {
 
 func (ch *chain) HandleNode(node string, result interface{}) error {
 	exp := result.(expr)
-	if exp.IsNumber() {
+	// constants are folded only before the first non-constant, otherwise operations are reordered
+	if ch.IsNumber() && exp.IsNumber() {
 		val, _ := exp.Compute(nil)
 		ch.value = ch.update(ch.value, val, ch.lastOp)
 	} else {
-- 
2.43.0


From c9815fd7001875f98cc1d162f7bb024c3a31a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 43/50] fix: grammar example took everything after an empty
 line for one sample

---
 examples/grammar/grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/grammar/grammar.go b/examples/grammar/grammar.go
index 32b2365..4103f24 100644
--- a/examples/grammar/grammar.go
+++ b/examples/grammar/grammar.go
@@ -208,7 +208,7 @@ func contentLines(content []byte) []lineEntry {
 	pos := 0
 	for pos < len(content) {
 		newPos := bytes.IndexByte(content[pos:], '\n')
-		if newPos <= 0 {
+		if newPos < 0 {
 			result = append(result, lineEntry{pos, len(content)})
 			break
 
-- 
2.43.0


From 37b837b65300ee81514327f778b150e1dc680df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:18 +0000
Subject: [PATCH 44/50] fix: grammar example included the line break before a
 separator into the sample

---
 examples/grammar/grammar.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/examples/grammar/grammar.go b/examples/grammar/grammar.go
index 4103f24..c663393 100644
--- a/examples/grammar/grammar.go
+++ b/examples/grammar/grammar.go
@@ -237,7 +237,10 @@ func sourceSample(content []byte, lines []lineEntry, separator []byte) ([]byte,
 
 	for i, entry := range lines {
 		if bytes.HasPrefix(content[entry.firstPos:entry.lastPos], separator) {
-			return content[lines[0].firstPos:entry.firstPos], i
+			if i == 0 {
+				return nil, 0
+			}
+			return content[lines[0].firstPos:lines[i-1].lastPos], i
 		}
 	}
 
-- 
2.43.0


From 9a293938b8c09c45f959536ca486607b159598c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:21 +0000
Subject: [PATCH 45/50] fix: grammar example did not report samples that are
 not valid UTF-8

---
 examples/grammar/grammar.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/examples/grammar/grammar.go b/examples/grammar/grammar.go
index c663393..b0a48b4 100644
--- a/examples/grammar/grammar.go
+++ b/examples/grammar/grammar.go
@@ -158,11 +158,14 @@ func loadFile(name string) []byte {
 	return content
 }
 
-func makeSource(name string, content []byte) *source.Source {
+func checkContent(name string, content []byte) {
 	if !utf8.Valid(content) {
 		reportError(errContent, "check %s: not a valid UTF-8 encoded text", name)
 	}
+}
 
+func makeSource(name string, content []byte) *source.Source {
+	checkContent(name, content)
 	source.NormalizeNls(&content)
 	return source.New(name, content)
 }
@@ -180,6 +183,7 @@ func makeSources(name string, content []byte, multiSample bool, separator []byte
 		return []*source.Source{makeSource(name, content)}
 	}
 
+	checkContent(name, content)
 	source.NormalizeNls(&content)
 	lines := contentLines(content)
 	if len(lines) == 0 {
-- 
2.43.0


From 09839906a56e6c377eadad9e5313a42a7f94ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 46/50] fix: style-check example ignored everything after the
 first wrong symbol between definitions

---
 examples/style-check/internal/lib.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/style-check/internal/lib.go b/examples/style-check/internal/lib.go
index ad18199..8fb09ad 100644
--- a/examples/style-check/internal/lib.go
+++ b/examples/style-check/internal/lib.go
@@ -147,7 +147,7 @@ func parseSource(s *source.Source) (tree.Element, error) {
 		Tokens: parser.TokenHooks{parser.AnyToken: handleToken},
 		Nodes:  parser.NodeHooks{parser.AnyNode: tree.NodeHook},
 	}
-	res, e := p.Parse(context.Background(), q, hs, parser.WithSides())
+	res, e := p.Parse(context.Background(), q, hs, parser.WithSides(), parser.WithFullSource())
 	if e == nil {
 		return res.(tree.Element), nil
 	} else {
-- 
2.43.0


From 90d5151a9aaae8495c307530283126039886947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:41 +0000
Subject: [PATCH 47/50] Undo changes of examples: they are a part of the tests

---
 examples/calc/internal/lib.go           | 23 ++++----------
 examples/conf-edit/internal/grammar.go  |  6 ++--
 examples/conf-edit/internal/grammar.llx |  4 +--
 examples/conf-edit/internal/lib.go      | 40 +++----------------------
 examples/grammar/grammar.go             | 13 ++------
 examples/style-check/internal/lib.go    |  2 +-
 6 files changed, 19 insertions(+), 69 deletions(-)

diff --git a/examples/calc/internal/lib.go b/examples/calc/internal/lib.go
index fd7bbd1..5cfc15c 100644
--- a/examples/calc/internal/lib.go
+++ b/examples/calc/internal/lib.go
@@ -17,7 +17,6 @@ const (
 	WrongArgNumberError
 	ArgDefinedError
 	UnexpectedInputError
-	RecursiveCallError
 )
 
 func unknownVarError(name string) *llx.Error {
@@ -36,10 +35,6 @@ func argDefinedError(name string) *llx.Error {
 	return llx.FormatError(ArgDefinedError, "argument %s already defined", name)
 }
 
-func recursiveCallError(name string) *llx.Error {
-	return llx.FormatError(RecursiveCallError, "endless recursion: %s calls itself", name)
-}
-
 func unexpectedInputError(pos llx.SourcePos, text string) *llx.Error {
 	return llx.FormatErrorPos(pos, UnexpectedInputError, "unexpected %q", text)
 }
@@ -60,15 +55,7 @@ func (f *function) call(c *runContext, args []float64) (float64, error) {
 		return 0.0, wrongArgNumberError(f.name, len(f.argNames), argc)
 	}
 
-	// there are no conditional expressions, so recursion never ends
-	for p := c; p != nil; p = p.parent {
-		if p.callee == f {
-			return 0.0, recursiveCallError(f.name)
-		}
-	}
-
 	newc := newRunContext(c)
-	newc.callee = f
 	for i, name := range f.argNames {
 		newc.vars[name] = args[i]
 	}
@@ -77,13 +64,12 @@ func (f *function) call(c *runContext, args []float64) (float64, error) {
 
 type runContext struct {
 	parent    *runContext
-	callee    *function
 	vars      map[string]float64
 	functions map[string]*function
 }
 
 func newRunContext(parent *runContext) *runContext {
-	return &runContext{parent, nil, make(map[string]float64), make(map[string]*function)}
+	return &runContext{parent, make(map[string]float64), make(map[string]*function)}
 }
 
 func (c *runContext) variable(name string) (res float64, e error) {
@@ -190,8 +176,7 @@ func (ch *chain) NewNode(node string, token *parser.Token) error {
 
 func (ch *chain) HandleNode(node string, result interface{}) error {
 	exp := result.(expr)
-	// constants are folded only before the first non-constant, otherwise operations are reordered
-	if ch.IsNumber() && exp.IsNumber() {
+	if exp.IsNumber() {
 		val, _ := exp.Compute(nil)
 		ch.value = ch.update(ch.value, val, ch.lastOp)
 	} else {
@@ -364,6 +349,10 @@ func (fd *funcDef) HandleToken(token *parser.Token) (e error) {
 	}
 
 	name := token.Text()
+	if name == "func" {
+		return
+	}
+
 	if fd.name == "" {
 		fd.name = name
 		return
diff --git a/examples/conf-edit/internal/grammar.go b/examples/conf-edit/internal/grammar.go
index fadcd0b..bc7ed91 100644
--- a/examples/conf-edit/internal/grammar.go
+++ b/examples/conf-edit/internal/grammar.go
@@ -7,7 +7,7 @@ import "github.com/ava12/llx/grammar"
 var confGrammar = &grammar.Grammar{
 	Tokens: []grammar.Token{
 		{Name: "space", Re: "[ \\t]+", Group: 0, Flags: 68},
-		{Name: "comment", Re: "#[^\\n]*", Group: 0, Flags: 68},
+		{Name: "comment", Re: "#.*?(?:\\n|$)", Group: 0, Flags: 68},
 		{Name: "nl", Re: "\\n", Group: 0, Flags: 64},
 		{Name: "sec-name", Re: "[a-zA-Z_][a-zA-Z_0-9]*(?:[.-][a-zA-Z_][a-zA-Z_0-9]*)*", Group: 2, Flags: 64},
 		{Name: "name", Re: "[a-zA-Z_][a-zA-Z_0-9]*(?:-[a-zA-Z_][a-zA-Z_0-9]*)*", Group: 0, Flags: 64},
@@ -44,11 +44,11 @@ var confGrammar = &grammar.Grammar{
 	},
 	MultiRules: []grammar.MultiRule{},
 	Rules: []grammar.Rule{
-		{-3, -1, -1}, // 0(0)
+		{-1, -1, -1}, // 0(0)
 		{2, 1, 1},
 		{4, 1, 1},
 		{8, 1, 2},
-		{-3, -1, -1}, // 1(4)
+		{-1, -1, -1}, // 1(4)
 		{8, 1, 2},
 		{2, 3, 4}, // 2(6)
 		{4, 3, 3},
diff --git a/examples/conf-edit/internal/grammar.llx b/examples/conf-edit/internal/grammar.llx
index a008267..6f7a8b1 100644
--- a/examples/conf-edit/internal/grammar.llx
+++ b/examples/conf-edit/internal/grammar.llx
@@ -4,14 +4,14 @@
 !group $sec-name;
 
 $space = /[ \t]+/;
-$comment = /#[^\n]*/;
+$comment = /#.*?(?:\n|$)/;
 $nl = /\n/;
 $sec-name = /[a-zA-Z_][a-zA-Z_0-9]*(?:[.-][a-zA-Z_][a-zA-Z_0-9]*)*/;
 $name = /[a-zA-Z_][a-zA-Z_0-9]*(?:-[a-zA-Z_][a-zA-Z_0-9]*)*/;
 $op = /[\[\]=]/;
 $value = /\S[^\n#]*/;
 
-confGrammar = [def-section], {section}, $;
+confGrammar = [def-section], {section};
 def-section = entry | sep, {entry | sep};
 section = header, {entry | sep};
 entry = $name, '=', [$value], [$nl];
diff --git a/examples/conf-edit/internal/lib.go b/examples/conf-edit/internal/lib.go
index edd5639..b90ea7e 100644
--- a/examples/conf-edit/internal/lib.go
+++ b/examples/conf-edit/internal/lib.go
@@ -23,7 +23,6 @@ const (
 	valueToken   = "value"
 	opToken      = "op"
 	nlToken      = "nl"
-	commentToken = "comment"
 
 	defSectionNt = "def-section"
 	sectionNt    = "section"
@@ -81,10 +80,6 @@ func sepNode() tree.NodeElement {
 	return result
 }
 
-func isComment(e tree.Element) bool {
-	return e != nil && e.TypeName() == commentToken
-}
-
 func splitName(name string) (sec, val string) {
 	i := strings.LastIndex(name, ".")
 	if i < 0 {
@@ -123,8 +118,6 @@ func (c *Conf) AddSectionNode(n tree.NodeElement) *Section {
 	if result == nil {
 		result = &Section{Nodes: []tree.NodeElement{n}, Entries: make(map[string]*Entry)}
 		c.Sections[name] = result
-	} else {
-		result.Nodes = append(result.Nodes, n)
 	}
 	return result
 }
@@ -168,8 +161,7 @@ func (c *Conf) AddSection(name string) *Section {
 		child = c.RootNode.LastChild()
 		if child != nil && child.IsNode() {
 			child := child.(tree.NodeElement)
-			last := child.LastChild()
-			if last != nil && last.TypeName() != sepNt {
+			if child.LastChild().TypeName() != sepNt {
 				child.AddChild(sepNode(), nil)
 			}
 		}
@@ -186,9 +178,9 @@ func (c *Conf) RemoveSection(name string) {
 		c.updated = true
 		for _, n := range sec.Nodes {
 			p := n.Prev()
-			if p != nil && p.IsNode() {
+			if p != nil {
 				p = p.(tree.NodeElement).LastChild()
-				if p != nil && p.TypeName() == sepNt && !isComment(p.Prev()) {
+				if p != nil && p.TypeName() == sepNt {
 					tree.Detach(p)
 				}
 			}
@@ -224,7 +216,6 @@ func (s *Section) AddEntryNode(n tree.NodeElement) *Entry {
 	}
 
 	result.Node = n
-	result.ValueNode = nil
 	valueNodes := valueSelector.Apply(n)
 	if len(valueNodes) != 0 {
 		result.ValueNode = valueNodes[0]
@@ -280,14 +271,7 @@ func (s *Section) SetEntry(name, value string) *Entry {
 		last = last.Prev()
 	}
 	if last == nil {
-		// skip leading comment lines
-		child := snode.FirstChild()
-		comment := false
-		for child != nil && (comment || isComment(child)) {
-			comment = isComment(child)
-			child = child.Next()
-		}
-		snode.AddChild(node, child)
+		snode.AddChild(node, snode.FirstChild())
 	} else {
 		tree.AppendSibling(last, node)
 	}
@@ -304,14 +288,6 @@ func (s *Section) RemoveEntry(name string) {
 	}
 }
 
-func moveTokens(tokens []tree.Element, node tree.NodeElement) {
-	first := node.FirstChild()
-	for _, t := range tokens {
-		tree.Detach(t)
-		node.AddChild(t, first)
-	}
-}
-
 func Parse(name string, src *[]byte) (*Conf, error) {
 	source.NormalizeNls(src)
 	if len(*src) > 0 && (*src)[len(*src)-1] != '\n' {
@@ -335,16 +311,8 @@ func Parse(name string, src *[]byte) (*Conf, error) {
 	}
 
 	rootNode := root.(tree.NodeElement)
-	// end-of-input token is not a part of content
-	tree.Detach(rootNode.LastChild())
 	result := NewConf(rootNode)
 	children := tree.Children(rootNode)
-	for i := 1; i < len(children); i++ {
-		if children[i].TypeName() == defSectionNt {
-			// leading comments belong to default section
-			moveTokens(children[:i], children[i].(tree.NodeElement))
-		}
-	}
 	for _, child := range children {
 		if !child.IsNode() {
 			continue
diff --git a/examples/grammar/grammar.go b/examples/grammar/grammar.go
index b0a48b4..32b2365 100644
--- a/examples/grammar/grammar.go
+++ b/examples/grammar/grammar.go
@@ -158,14 +158,11 @@ func loadFile(name string) []byte {
 	return content
 }
 
-func checkContent(name string, content []byte) {
+func makeSource(name string, content []byte) *source.Source {
 	if !utf8.Valid(content) {
 		reportError(errContent, "check %s: not a valid UTF-8 encoded text", name)
 	}
-}
 
-func makeSource(name string, content []byte) *source.Source {
-	checkContent(name, content)
 	source.NormalizeNls(&content)
 	return source.New(name, content)
 }
@@ -183,7 +180,6 @@ func makeSources(name string, content []byte, multiSample bool, separator []byte
 		return []*source.Source{makeSource(name, content)}
 	}
 
-	checkContent(name, content)
 	source.NormalizeNls(&content)
 	lines := contentLines(content)
 	if len(lines) == 0 {
@@ -212,7 +208,7 @@ func contentLines(content []byte) []lineEntry {
 	pos := 0
 	for pos < len(content) {
 		newPos := bytes.IndexByte(content[pos:], '\n')
-		if newPos < 0 {
+		if newPos <= 0 {
 			result = append(result, lineEntry{pos, len(content)})
 			break
 
@@ -241,10 +237,7 @@ func sourceSample(content []byte, lines []lineEntry, separator []byte) ([]byte,
 
 	for i, entry := range lines {
 		if bytes.HasPrefix(content[entry.firstPos:entry.lastPos], separator) {
-			if i == 0 {
-				return nil, 0
-			}
-			return content[lines[0].firstPos:lines[i-1].lastPos], i
+			return content[lines[0].firstPos:entry.firstPos], i
 		}
 	}
 
diff --git a/examples/style-check/internal/lib.go b/examples/style-check/internal/lib.go
index 8fb09ad..ad18199 100644
--- a/examples/style-check/internal/lib.go
+++ b/examples/style-check/internal/lib.go
@@ -147,7 +147,7 @@ func parseSource(s *source.Source) (tree.Element, error) {
 		Tokens: parser.TokenHooks{parser.AnyToken: handleToken},
 		Nodes:  parser.NodeHooks{parser.AnyNode: tree.NodeHook},
 	}
-	res, e := p.Parse(context.Background(), q, hs, parser.WithSides(), parser.WithFullSource())
+	res, e := p.Parse(context.Background(), q, hs, parser.WithSides())
 	if e == nil {
 		return res.(tree.Element), nil
 	} else {
-- 
2.43.0


From 2641f393fd8333136aaa8c10cd592143da56236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:04 +0000
Subject: [PATCH 48/50] fix: token hooks could emit tokens having type of a
 literal or of an error token

Documentation of EmitWrongTokenError says that it is an error.
---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 641e264..2e49bb7 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -196,8 +196,13 @@ func (p *Parser) IsSpecialType(tt int) bool {
 }
 
 // IsValidType returns true if given argument is a valid token type that can be used by parser.
+// Literals and error tokens are not valid types.
 func (p *Parser) IsValidType(tt int) bool {
-	return tt >= lexer.LowestTokenType && tt < len(p.grammar.Tokens) && tt != grammar.AnyToken
+	if tt < 0 {
+		return tt >= lexer.LowestTokenType && tt != grammar.AnyToken
+	}
+
+	return tt < len(p.grammar.Tokens) && p.grammar.Tokens[tt].Flags&(grammar.LiteralToken|grammar.ErrorToken) == 0
 }
 
 // TokenType returns token type for given type name and true if given argument is a valid token type name.
-- 
2.43.0


From e3c6c8459913eb8bb2375a350b591ecb460c3d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:04 +0000
Subject: [PATCH 49/50] fix: Queue.Skip past the end of a source by any amount

---
 source/source.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/source.go b/source/source.go
index 52d45d9..3b9c4f5 100755
--- a/source/source.go
+++ b/source/source.go
@@ -308,9 +308,10 @@ func (q *Queue) Skip(size int) {
 		return
 	}
 
-	q.pos += size
-	if q.pos >= q.source.Len() {
+	if size >= q.source.Len()-q.pos {
 		q.pos = q.source.Len()
+	} else {
+		q.pos += size
 	}
 }
 
-- 
2.43.0


From 389576e54f2ef7c9eb5538fe1d9152811d056141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:56 +0000
Subject: [PATCH 50/50] fix: line of a position found by several goroutines at
 once

---
 source/source.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/source/source.go b/source/source.go
index 3b9c4f5..e112bce 100755
--- a/source/source.go
+++ b/source/source.go
@@ -3,6 +3,7 @@ package source
 
 import (
 	"bytes"
+	"sync/atomic"
 	"unicode/utf8"
 
 	"github.com/ava12/llx/internal/queue"
@@ -13,7 +14,7 @@ type Source struct {
 	name          string
 	content       []byte
 	lineStarts    []int
-	prevLineIndex int
+	prevLineIndex atomic.Int64 // a hint, may be used and updated by different goroutines
 }
 
 // New creates new source.
@@ -21,7 +22,8 @@ type Source struct {
 // Content should be a valid UTF-8 encoded text, lines should be separated by "\n" rune.
 // Content should not be modified.
 func New(name string, content []byte) *Source {
-	s := &Source{name: name, content: content, prevLineIndex: -1}
+	s := &Source{name: name, content: content}
+	s.prevLineIndex.Store(-1)
 	lineCnt := bytes.Count(content, []byte("\n")) + 1
 	s.lineStarts = make([]int, lineCnt)
 	s.lineStarts[0] = 0
@@ -102,14 +104,15 @@ func (s *Source) Pos(line, col int) int {
 }
 
 func (s *Source) findLineIndex(pos int) int {
-	if s.prevLineIndex >= 0 && s.lineStarts[s.prevLineIndex] <= pos {
-		lineIndex := s.prevLineIndex
+	prevLineIndex := int(s.prevLineIndex.Load())
+	if prevLineIndex >= 0 && s.lineStarts[prevLineIndex] <= pos {
+		lineIndex := prevLineIndex
 		last := len(s.lineStarts) - 1
 		for lineIndex <= last && s.lineStarts[lineIndex] <= pos {
 			lineIndex++
 		}
 		lineIndex--
-		s.prevLineIndex = lineIndex
+		s.prevLineIndex.Store(int64(lineIndex))
 		return lineIndex
 	}
 
@@ -117,9 +120,9 @@ func (s *Source) findLineIndex(pos int) int {
 	leftIndex := 0
 	rightIndex := len(s.lineStarts) - 1
 	index := 0
-	if s.prevLineIndex >= 0 {
-		lineStart = s.lineStarts[s.prevLineIndex]
-		rightIndex = s.prevLineIndex
+	if prevLineIndex >= 0 {
+		lineStart = s.lineStarts[prevLineIndex]
+		rightIndex = prevLineIndex
 	}
 	for leftIndex < rightIndex {
 		index = (leftIndex + rightIndex + 1) >> 1
@@ -135,7 +138,7 @@ func (s *Source) findLineIndex(pos int) int {
 			index = rightIndex
 		}
 	}
-	s.prevLineIndex = index
+	s.prevLineIndex.Store(int64(index))
 	return index
 }
 
-- 
2.43.0

