From 7ecfe1f07234d77ad62559aabae5bf2ebd096ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:46 +0000
Subject: [PATCH 01/55] fix: do not panic on an empty "if" expression given as
 a single argument

Parse sliced out of range on "if () {" (and on a quoted, blank "( )") wherever
the arguments of the directive are not checked, or the check lets it through.
---
 util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util.go b/util.go
index b7af673..e456459 100644
--- a/util.go
+++ b/util.go
@@ -80,6 +80,9 @@ func prepareIfArgs(d *Directive) *Directive {
 		if len(d.Args[e]) == 0 {
 			e--
 		}
+		if b > e+1 { // "()" as a single argument: both ends are the same, now empty, argument
+			b = e + 1
+		}
 		d.Args = d.Args[b : e+1]
 	}
 	return d
-- 
2.43.0


From e9a509c869eef9a30b6fab3a4df91d051c390993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:53 +0000
Subject: [PATCH 02/55] fix: quote arguments that start with "#" when building

Build wrote them bare, which turned the rest of the line into a comment.
---
 build.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/build.go b/build.go
index 0544817..ae39031 100644
--- a/build.go
+++ b/build.go
@@ -259,6 +259,11 @@ func needsQuote(s string) bool {
 	// get first rune
 	char, off := utf8.DecodeRuneInString(chars)
 
+	// arguments can't start with a comment
+	if char == '#' {
+		return true
+	}
+
 	// arguments can't start with variable expansion syntax
 	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'", char) || strings.HasPrefix(chars, "${") {
 		return true
-- 
2.43.0


From 644b009c8e23ef9f4bc29db3416576d7c9c170c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:59 +0000
Subject: [PATCH 03/55] fix: do not let sibling blocks overwrite the context
 kept for an include

The context of a deeply nested block shared its backing array with the contexts
of its siblings, so a file included there was parsed in the context of a later
sibling.
---
 analyze.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyze.go b/analyze.go
index 9f28476..e4b865a 100644
--- a/analyze.go
+++ b/analyze.go
@@ -136,7 +136,8 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 		return blockCtx{"http", "location"}
 	}
 	// no other block contexts can be nested like location so just append it
-	return append(ctx, stmt.Directive)
+	// cap the slice so that sibling blocks never share a backing array: an include keeps its context for later
+	return append(ctx[:len(ctx):len(ctx)], stmt.Directive)
 }
 
 //nolint:gocyclo,funlen,gocognit
-- 
2.43.0


From 01ea332afa1c1a1ba3ab17cf34f20dfe2b461300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:05 +0000
Subject: [PATCH 04/55] fix: stop performing includes after the first error

The consumer stops reading at the first error, so the goroutine that went on
sending was blocked forever.
---
 util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util.go b/util.go
index e456459..f1a4b98 100644
--- a/util.go
+++ b/util.go
@@ -167,6 +167,9 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 				}
 				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed) {
 					c <- incl
+					if incl.err != nil {
+						return
+					}
 				}
 			}
 		}
-- 
2.43.0


From f59e6ed734c5821be715b1ec576714bf26b7d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:26 +0000
Subject: [PATCH 05/55] fix: report an error of the reader instead of taking it
 for the end of file

A config that could only be read in part was parsed as if it ended there.
---
 lex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lex.go b/lex.go
index 4b69cbe..0e6da76 100644
--- a/lex.go
+++ b/lex.go
@@ -330,6 +330,11 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 	if token.Len() > 0 {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
+	if err := scanner.Err(); err != nil {
+		emit(tokenLine, false, err)
+		close(tokenCh)
+		return
+	}
 	if depth > 0 {
 		emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected end of file, expecting "}"`, Line: &tokenLine})
 	}
-- 
2.43.0


From e8ab01789ef764670243e9f000bbe9269e5355cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:32 +0000
Subject: [PATCH 06/55] fix: do not leave the lexer running when a parse ends
 early

After an error the remaining tokens were never received, so the goroutine of the
lexer went on reading a file that was being closed, and stayed blocked for good
once the token channel was full.
---
 parse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.go b/parse.go
index 58302d3..89ed981 100644
--- a/parse.go
+++ b/parse.go
@@ -177,6 +177,8 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 			Parsed: Directives{},
 		}
 		parsed, err := p.parse(&config, tokens, incl.ctx, false)
+		for range tokens { //nolint:revive // let the lexer finish before its file is closed
+		}
 		if err != nil {
 			if options.StopParsingOnError {
 				return nil, err
-- 
2.43.0


From 31cbea2f9f806dc66564596c7abe4f15464385c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:34 +0000
Subject: [PATCH 07/55] fix: report lexer errors that arrive among the
 arguments of a directive

The error token was taken for an empty argument: an invalid Lua block was
accepted, and an unbalanced brace was reported as a premature end of file.
---
 lex.go   |  7 ++++++-
 parse.go | 35 ++++++++++++++++++++++-------------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/lex.go b/lex.go
index 0e6da76..86d8a10 100644
--- a/lex.go
+++ b/lex.go
@@ -336,7 +336,12 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		return
 	}
 	if depth > 0 {
-		emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected end of file, expecting "}"`, Line: &tokenLine})
+		emit(tokenStartLine, false, &ParseError{
+			File:        &lexerFile,
+			What:        `unexpected end of file, expecting "}"`,
+			Line:        &tokenLine,
+			originalErr: ErrPrematureLexEnd,
+		})
 	}
 
 	close(tokenCh)
diff --git a/parse.go b/parse.go
index 89ed981..77660be 100644
--- a/parse.go
+++ b/parse.go
@@ -218,19 +218,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 	// parse recursively by pulling from a flat stream of tokens
 	for t := range tokens {
 		if t.Error != nil {
-			var perr *ParseError
-			if errors.As(t.Error, &perr) {
-				perr.File = &parsing.File
-				perr.BlockCtx = ctx.getLastBlock()
-				return nil, perr
-			}
-			return nil, &ParseError{
-				What:        t.Error.Error(),
-				File:        &parsing.File,
-				Line:        &t.Line,
-				originalErr: t.Error,
-				BlockCtx:    ctx.getLastBlock(),
-			}
+			return nil, lexError(parsing, t, ctx)
 		}
 
 		var commentsInArgs []string
@@ -285,6 +273,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			}
 		}
 		for t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {
+			// an end of file here is a premature one: it is reported below, at the line of this statement
+			if t.Error != nil && !errors.Is(t.Error, ErrPrematureLexEnd) {
+				return nil, lexError(parsing, t, ctx)
+			}
 			if !strings.HasPrefix(t.Value, "#") || t.IsQuoted {
 				stmt.Args = append(stmt.Args, t.Value)
 			} else if p.options.ParseComments {
@@ -450,6 +442,23 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 	return parsed, nil
 }
 
+// lexError turns the error of a token into the error of the config that is being parsed.
+func lexError(parsing *Config, t NgxToken, ctx blockCtx) error {
+	var perr *ParseError
+	if errors.As(t.Error, &perr) {
+		perr.File = &parsing.File
+		perr.BlockCtx = ctx.getLastBlock()
+		return perr
+	}
+	return &ParseError{
+		What:        t.Error.Error(),
+		File:        &parsing.File,
+		Line:        &t.Line,
+		originalErr: t.Error,
+		BlockCtx:    ctx.getLastBlock(),
+	}
+}
+
 // isAcyclic performs a topological sort to check if there are cycles created by configs' includes.
 // First, it adds any files who are not being referenced by another file to a queue (in degree of 0).
 // For every file in the queue, it will remove the reference it has towards its neighbors.
-- 
2.43.0


From 20eac72f0622ca8e57f52b95bd2f2861122df4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 08/55] fix: report lexer errors found while skipping a block

The block of an ignored directive could be left unclosed without any error.
---
 parse.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index 77660be..31a550c 100644
--- a/parse.go
+++ b/parse.go
@@ -232,7 +232,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if consume {
 			// if we find a block inside this context, consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if _, err = p.parse(parsing, tokens, nil, true); err != nil {
+					return nil, err
+				}
 			}
 			continue
 		}
@@ -304,7 +306,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					p.handleError(parsing, mapErr)
 					// consume invalid block
 					if t.Value == "{" && !t.IsQuoted {
-						_, _ = p.parse(parsing, tokens, nil, true)
+						if _, err = p.parse(parsing, tokens, nil, true); err != nil {
+							return nil, err
+						}
 					}
 					continue
 				}
@@ -318,7 +322,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if contains(p.options.IgnoreDirectives, stmt.Directive) {
 			// if this directive was a block consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if _, err = p.parse(parsing, tokens, nil, true); err != nil {
+					return nil, err
+				}
 			}
 			continue
 		}
@@ -331,7 +337,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			// if it was a block but shouldn"t have been then consume
 			if strings.HasSuffix(perr.What, ` is not terminated by ";"`) {
 				if t.Value != "}" && !t.IsQuoted {
-					_, _ = p.parse(parsing, tokens, nil, true)
+					if _, err = p.parse(parsing, tokens, nil, true); err != nil {
+						return nil, err
+					}
 				} else {
 					break
 				}
-- 
2.43.0


From 50282726e144257b39f2460639bcbec18db01c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 09/55] fix: skip the block of any invalid directive, not only
 of one that takes none

When a block directive was rejected for another reason (its context, its
arguments, an unknown name), its body was parsed as part of the enclosing block
and its "}" closed that block, so the rest of the file was misplaced or dropped.
---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 31a550c..6e8eb0d 100644
--- a/parse.go
+++ b/parse.go
@@ -335,7 +335,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
 			p.handleError(parsing, perr)
 			// if it was a block but shouldn"t have been then consume
-			if strings.HasSuffix(perr.What, ` is not terminated by ";"`) {
+			if t.Value != ";" {
 				if t.Value != "}" && !t.IsQuoted {
 					if _, err = p.parse(parsing, tokens, nil, true); err != nil {
 						return nil, err
-- 
2.43.0


From 5e3e2210509ee6d75f91547ab33a5a66baa58628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:18 +0000
Subject: [PATCH 10/55] fix: end a map block at its "}" when the last parameter
 lacks its ";"

The brace was taken for the end of the parameter only, so everything after the
map was still read as its parameters.
---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index 6e8eb0d..ca500cb 100644
--- a/parse.go
+++ b/parse.go
@@ -310,6 +310,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 							return nil, err
 						}
 					}
+					// the brace that ended this statement also ends the map
+					if t.Value == "}" {
+						break
+					}
 					continue
 				}
 				stmt.IsMapBlockParameter = true
-- 
2.43.0


From 578367c1a05af65a091b1614fcfc2a3c0b3d0c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 11/55] fix: end a block at its "}" when an ignored directive
 there lacks its ";"

The brace was taken for the end of the ignored directive only, so what followed
the block was parsed as part of it.
---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index ca500cb..476cdf3 100644
--- a/parse.go
+++ b/parse.go
@@ -330,6 +330,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					return nil, err
 				}
 			}
+			// the brace that ended this directive also ends the block it is in
+			if t.Value == "}" {
+				break
+			}
 			continue
 		}
 
-- 
2.43.0


From 9bc261518afe071c509684e91581bb9da1808b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:30 +0000
Subject: [PATCH 12/55] fix: report a "{" or ";" at the start of a file

The lexer only rejected one that follows another, and the parser took the first
for the name of a directive.
---
 lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index 86d8a10..fca07f7 100644
--- a/lex.go
+++ b/lex.go
@@ -138,7 +138,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 
 	lexState := skipSpace
 	newToken := false
-	dupSpecialChar := false
+	dupSpecialChar := true // a file can't start with a special character
 	readNext := true
 	esc := false
 	depth := 0
-- 
2.43.0


From 0d0cf29826a3c7c16e6da0781f9d634e091bf089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 13/55] fix: do not drop a backslash or an opening quote that
 ends a file

Such a file was accepted as if the last character was not there.
---
 lex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index fca07f7..f2b6b08 100644
--- a/lex.go
+++ b/lex.go
@@ -327,7 +327,10 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		}
 	}
 
-	if token.Len() > 0 {
+	if esc {
+		token.WriteString(la) // nothing is left for the backslash to escape
+	}
+	if token.Len() > 0 || lexState == inQuote {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
 	if err := scanner.Err(); err != nil {
-- 
2.43.0


From 81aa5f0d786156b0fe4a6a316e5a017563f71f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 14/55] fix: keep empty blocks when marshaling a Directive

An empty block was left out of the JSON, so that after unmarshaling it the
directive was no longer a block and Build ended it with ";".
---
 lex.go   |  3 +++
 types.go | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/lex.go b/lex.go
index f2b6b08..3412619 100644
--- a/lex.go
+++ b/lex.go
@@ -328,6 +328,9 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 	}
 
 	if esc {
+		if lexState == skipSpace {
+			tokenStartLine = tokenLine
+		}
 		token.WriteString(la) // nothing is left for the backslash to escape
 	}
 	if token.Len() > 0 || lexState == inQuote {
diff --git a/types.go b/types.go
index 5d6dc64..426b86d 100644
--- a/types.go
+++ b/types.go
@@ -8,6 +8,7 @@
 package crossplane
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 )
@@ -51,6 +52,18 @@ type Directive struct {
 
 type Directives []*Directive
 
+// MarshalJSON keeps an empty block: unlike a nil Block, it makes the directive a block directive.
+func (d Directive) MarshalJSON() ([]byte, error) {
+	type plain Directive // without this method
+	if d.Block == nil || len(d.Block) > 0 {
+		return json.Marshal(plain(d))
+	}
+	return json.Marshal(struct {
+		plain
+		Block Directives `json:"block"`
+	}{plain(d), d.Block})
+}
+
 // IsBlock returns true if this is a block directive.
 func (d Directive) IsBlock() bool {
 	return d.Block != nil
-- 
2.43.0


From f08c6000c9a10cde5c45f80f06c968adacd94eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:17 +0000
Subject: [PATCH 15/55] fix: build a map parameter named "if" as the parameter
 it is

Its value was put in parentheses, as if it were the directive.
---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index ae39031..a3eeedc 100644
--- a/build.go
+++ b/build.go
@@ -187,7 +187,7 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			_, _ = sb.WriteString(directive)
 
 			// special handling for if statements
-			if directive == "if" {
+			if directive == "if" && !stmt.IsMapBlockParameter {
 				_, _ = sb.WriteString(" (")
 				for i, arg := range stmt.Args {
 					if i > 0 {
-- 
2.43.0


From cacdbe38ee34d44a2b56abbc029ddd70fe6196db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:23 +0000
Subject: [PATCH 16/55] fix: keep the comments found inside the parameters of a
 map

With ParseComments they were kept inside any other statement, but dropped here.
---
 parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parse.go b/parse.go
index 476cdf3..869100f 100644
--- a/parse.go
+++ b/parse.go
@@ -318,6 +318,15 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				}
 				stmt.IsMapBlockParameter = true
 				parsed = append(parsed, stmt)
+				for i := range commentsInArgs {
+					parsed = append(parsed, &Directive{
+						Directive: "#",
+						Line:      stmt.Line,
+						Args:      []string{},
+						File:      fileName,
+						Comment:   &commentsInArgs[i],
+					})
+				}
 				continue
 			}
 		}
-- 
2.43.0


From 037931ed8e3ac2f35a851530b4f153b0f977d19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:29 +0000
Subject: [PATCH 17/55] fix: do not modify the ParseOptions of the caller

Concurrent calls of Parse with the same options raced on the default Glob.
---
 parse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.go b/parse.go
index 869100f..50ae6f4 100644
--- a/parse.go
+++ b/parse.go
@@ -123,6 +123,8 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 		Config: []Config{},
 	}
 	if options.Glob == nil {
+		withGlob := *options // the options belong to the caller, who may be sharing them
+		options = &withGlob
 		options.Glob = filepath.Glob
 	}
 
-- 
2.43.0


From 1511cc15589b5c39b4638b6a2ebd18f7279d7b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 18/55] fix: do not modify the BuildOptions of the caller

The builders were cached there on the first call, so a later change of Builders
had no effect, and concurrent calls with the same options wrote to one map.
---
 build.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/build.go b/build.go
index a3eeedc..2a00296 100644
--- a/build.go
+++ b/build.go
@@ -85,6 +85,9 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 		dir = cwd
 	}
 
+	own := *options // the options belong to the caller, who may change or share them
+	options = &own
+
 	for _, o := range options.Builders {
 		o.applyBuildOptions(options)
 	}
@@ -126,6 +129,9 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 
 // Build creates an NGINX config from a crossplane.Config.
 func Build(w io.Writer, config Config, options *BuildOptions) error {
+	own := *options // the options belong to the caller, who may change or share them
+	options = &own
+
 	if options.Indent == 0 {
 		options.Indent = 4
 	}
-- 
2.43.0


From 58459bd7e48895b4b9d6d708ecf7514481e94042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:15 +0000
Subject: [PATCH 19/55] fix: define ngxConfTake7, which the generator emits for
 NGX_CONF_TAKE7

The support file generated for a module that uses it did not compile.
---
 analyze.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyze.go b/analyze.go
index e4b865a..d633c22 100644
--- a/analyze.go
+++ b/analyze.go
@@ -65,7 +65,7 @@ const (
 	ngxConfTake4  = 0x00000010 // 4 args
 	ngxConfTake5  = 0x00000020 // 5 args
 	ngxConfTake6  = 0x00000040 // 6 args
-	// ngxConfTake7  = 0x00000080 // 7 args (currently unused).
+	ngxConfTake7  = 0x00000080 // 7 args (only used by generated code)
 	ngxConfBlock = 0x00000100 // followed by block
 	ngxConfExpr  = 0x00000200 // directive followed by expression in parentheses `()`
 	ngxConfFlag  = 0x00000400 // 'on' or 'off'
-- 
2.43.0


From 1e9ce2e4f4ec88f2c666fb99d7da8274bcde6b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 20/55] fix: do not HTML-escape the generated Go code

The comment of the match function came out with entities such as "&#39;".
---
 internal/generator/generator_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 615265b..68e25b2 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -11,13 +11,13 @@ import (
 	_ "embed"
 	"errors"
 	"fmt"
-	"html/template"
 	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
 	"regexp"
 	"strings"
+	"text/template"
 )
 
 // A Mask is a list of string, includes several variable names,
-- 
2.43.0


From 067a0a414f31090ba060f51d578916dcb7997733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 21/55] fix: find directive definitions whose name is on a line
 of its own

The generator joined lines without a space, so "ngx_command_t" followed by a
line break was not recognized and its directives were silently left out.
---
 internal/generator/generator_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 68e25b2..d7d2a8b 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -111,8 +111,8 @@ func masksFromFile(path string) (directive2Masks map[string][]Mask, err error) {
 	// Remove comments
 	strContent = singleLineCommentExtracter.ReplaceAllString(strContent, "")
 	strContent = multiLineCommentExtracter.ReplaceAllString(strContent, "")
-	strContent = strings.ReplaceAll(strContent, "\r\n", "")
-	strContent = strings.ReplaceAll(strContent, "\n", "")
+	strContent = strings.ReplaceAll(strContent, "\r\n", " ")
+	strContent = strings.ReplaceAll(strContent, "\n", " ")
 
 	// Extract directives definition code blocks, each code block contains a list of directives definition
 	blocks := directivesDefineBlockExtracter.FindAllStringSubmatch(strContent, -1)
-- 
2.43.0


From 991bb42fb4fdc6a3f35a1c66f21242a44bf9f57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 22/55] fix: do not take a "//" inside a block comment, or a
 "/*" in a string, for a comment

"/* see http://nginx.org */" lost its end, so that everything up to the end of
the next block comment, directive definitions included, was left out.
---
 internal/generator/generator_util.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index d7d2a8b..52fefda 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -46,9 +46,8 @@ var (
 	// this regex extracts {directive_name} and {bitmask1|bitmask2|...}.
 	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\("(.*?)"\).*?,(.*?),`)
 
-	singleLineCommentExtracter = regexp.MustCompile(`//.*`)
-
-	multiLineCommentExtracter = regexp.MustCompile(`/\*[\s\S]*?\*/`)
+	// Comments and literals are matched together, as each can contain what would start the other.
+	commentOrLiteralExtracter = regexp.MustCompile(`//.*|/\*[\s\S]*?\*/|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'`)
 )
 
 // Template of support file. A support file contains a map from
@@ -109,8 +108,12 @@ func masksFromFile(path string) (directive2Masks map[string][]Mask, err error) {
 	strContent := string(byteContent)
 
 	// Remove comments
-	strContent = singleLineCommentExtracter.ReplaceAllString(strContent, "")
-	strContent = multiLineCommentExtracter.ReplaceAllString(strContent, "")
+	strContent = commentOrLiteralExtracter.ReplaceAllStringFunc(strContent, func(s string) string {
+		if s[0] == '/' {
+			return ""
+		}
+		return s
+	})
 	strContent = strings.ReplaceAll(strContent, "\r\n", " ")
 	strContent = strings.ReplaceAll(strContent, "\n", " ")
 
-- 
2.43.0


From c8f6efd5222ae33a893e8e329b53131b041fcc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 23/55] fix: do not hand a directive to an external lexer
 because of its prefix

A directive whose name only starts with a registered name was cut off there and
the rest of it was given to the external lexer.
---
 lex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index 3412619..271c272 100644
--- a/lex.go
+++ b/lex.go
@@ -185,7 +185,10 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 
 		if token.Len() > 0 {
 			tokenStr := token.String()
-			if nextTokenIsDirective {
+			// the token is only known when it is complete: until then it may be a prefix of another one
+			tokenEnds := lexState == inWord && (isSpace(la) || la == "{" || la == "}" || la == ";") ||
+				lexState == inQuote && la == quote
+			if nextTokenIsDirective && tokenEnds {
 				if ext, ok := options.extLexers[tokenStr]; ok {
 					// saving lex state before emitting tokenStr to know if we encountered start quote
 					lastLexState := lexState
-- 
2.43.0


From 545bd40124acf28f171108a9ccf40552d60ddc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:22 +0000
Subject: [PATCH 24/55] fix: let an external lexer see the special character
 right after its directive

The "{" of "content_by_lua_block{" was already read, so the Lua lexer missed it
and rejected a block that nginx accepts.
---
 lex.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lex.go b/lex.go
index 271c272..08f1709 100644
--- a/lex.go
+++ b/lex.go
@@ -107,11 +107,16 @@ func Lex(reader io.Reader) chan NgxToken {
 type SubScanner struct {
 	scanner   *bufio.Scanner
 	tokenLine int
+	unread    bool // the last token of scanner was not yet returned by Scan
 }
 
 // Scan advances the scanner to the next token which will be available though the Text method. It returns false
 // when the scan stops by reaching the end of input.
 func (e *SubScanner) Scan() bool {
+	if e.unread {
+		e.unread = false
+		return true
+	}
 	if !e.scanner.Scan() {
 		return false
 	}
@@ -195,11 +200,17 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 					emit(tokenStartLine, lexState == inQuote, nil)
 
 					externalScanner := &SubScanner{scanner: scanner, tokenLine: tokenLine}
+					// a special character is a token of its own, not just what ends this one
+					special := lastLexState == inWord && (la == "{" || la == "}" || la == ";")
+					externalScanner.unread = special
 					extTokenCh := ext.Lex(externalScanner, tokenStr)
 					for tok := range extTokenCh {
 						tokenCh <- tok
 					}
 					tokenLine = externalScanner.tokenLine
+					if special && !externalScanner.unread {
+						continue
+					}
 
 					// if we detected a start quote and current char after external lexer processing is end quote we skip it
 					if lastLexState == inQuote && la == quote {
-- 
2.43.0


From 14834eef73ce83467b2b0f3c1f4b6cd7422ddda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:28 +0000
Subject: [PATCH 25/55] fix: only hand directives, not arguments, to external
 lexers

An argument was taken for a directive when it was the first word of a line or
followed a quoted word.
---
 lex.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lex.go b/lex.go
index 08f1709..e4023bc 100644
--- a/lex.go
+++ b/lex.go
@@ -168,7 +168,6 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 			la = scanner.Text()
 			if isEOL(la) {
 				tokenLine++
-				nextTokenIsDirective = true
 			}
 		} else {
 			readNext = true
@@ -204,8 +203,10 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 					special := lastLexState == inWord && (la == "{" || la == "}" || la == ";")
 					externalScanner.unread = special
 					extTokenCh := ext.Lex(externalScanner, tokenStr)
+					nextTokenIsDirective = false
 					for tok := range extTokenCh {
 						tokenCh <- tok
+						nextTokenIsDirective = !tok.IsQuoted && (tok.Value == "{" || tok.Value == "}" || tok.Value == ";")
 					}
 					tokenLine = externalScanner.tokenLine
 					if special && !externalScanner.unread {
@@ -234,7 +235,6 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 				newToken = false
 				if la == "#" {
 					token.WriteString(la)
-					nextTokenIsDirective = false
 					lexState = inComment
 					tokenStartLine = tokenLine
 					continue
@@ -332,6 +332,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		case inQuote:
 			if la == quote {
 				emit(tokenStartLine, true, nil)
+				nextTokenIsDirective = false
 				continue
 			}
 			if la == "\\"+quote {
-- 
2.43.0


From b75cf7d083dd72eb33ec140ac5ba342664759dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 26/55] fix: report a ";" or "{" that follows the end of an
 external token sequence

"content_by_lua_block {...};" made the parser take the second ";" for the name
of a directive.
---
 lex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lex.go b/lex.go
index e4023bc..f8ab67a 100644
--- a/lex.go
+++ b/lex.go
@@ -209,6 +209,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 						nextTokenIsDirective = !tok.IsQuoted && (tok.Value == "{" || tok.Value == "}" || tok.Value == ";")
 					}
 					tokenLine = externalScanner.tokenLine
+					dupSpecialChar = nextTokenIsDirective // as if this lexer had seen that last token
 					if special && !externalScanner.unread {
 						continue
 					}
-- 
2.43.0


From 22541ea750b0cdc7f1bbe8e22ca3c488e86765e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 27/55] fix: lex comments, long brackets and escapes in Lua
 blocks

An apostrophe in a comment or an escaped quote in a string shifted what was taken
for a string, so that the closing brace of the block was missed or found too soon.
---
 lua.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/lua.go b/lua.go
index dd4a45b..8548d2f 100644
--- a/lua.go
+++ b/lua.go
@@ -107,6 +107,10 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 			}
 		}
 
+		var inComment bool
+		var commentStart int
+		var longClose string // what ends the long bracket we are in, if any
+
 		// Grab everything in Lua block as a single token and watch for curly brace '{' in strings
 		for {
 			if !s.Scan() {
@@ -119,6 +123,37 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 				tokenCh <- NgxToken{Error: &ParseError{File: &lexerFile, What: err.Error(), Line: &lineno}}
 			}
 
+			// braces and quotes mean nothing in comments and long brackets, and escaped quotes do not end a string
+			switch {
+			case longClose != "":
+				tok.WriteString(next)
+				if strings.HasSuffix(tok.String(), longClose) {
+					longClose = ""
+				}
+				continue
+			case inComment:
+				if end, at := longBracketEnd(tok.String(), next); end != "" && at == commentStart {
+					longClose = end
+				}
+				inComment = longClose == "" && !isEOL(next)
+				tok.WriteString(next)
+				continue
+			case inQuotes:
+				if next == `\` {
+					tok.WriteString(next)
+					if !s.Scan() {
+						return
+					}
+					tok.WriteString(s.Text())
+					continue
+				}
+			case next == "-" && strings.HasSuffix(tok.String(), "-"):
+				inComment = true
+				commentStart = tok.Len() + 1
+			case next == "[":
+				longClose, _ = longBracketEnd(tok.String(), next)
+			}
+
 			switch {
 			case next == "{" && !inQuotes:
 				tokenDepth++
@@ -175,6 +210,16 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 	return tokenCh
 }
 
+// longBracketEnd returns what ends the long bracket (such as "[[" or "[==[") that next completes
+// after s, and where in s it starts. The end is empty if next does not complete one.
+func longBracketEnd(s, next string) (string, int) {
+	open := strings.TrimRight(s, "=")
+	if next != "[" || !strings.HasSuffix(open, "[") {
+		return "", 0
+	}
+	return "]" + s[len(open):] + "]", len(open) - 1
+}
+
 // RegisterBuilder registers a builder for generating Lua NGINX configuration.
 func (l *Lua) RegisterBuilder() RegisterBuilder { //nolint:ireturn
 	return BuildWithBuilder(l, l.directiveNames()...)
-- 
2.43.0


From b5309996a057357dedf4ff729d11eb5c273b50a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 28/55] fix: quote arguments so that they are read back as they
 were

---
 build.go |  4 ++--
 util.go  | 45 +++++++++++++++++++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/build.go b/build.go
index 2a00296..4daf838 100644
--- a/build.go
+++ b/build.go
@@ -244,7 +244,7 @@ func Enquote(arg string) string {
 	if !needsQuote(arg) {
 		return arg
 	}
-	return strings.ReplaceAll(repr(arg), `\\`, `\`)
+	return repr(arg)
 }
 
 //nolint:gocyclo
@@ -278,7 +278,7 @@ func needsQuote(s string) bool {
 	chars = chars[off:]
 
 	expanding := false
-	var prev rune
+	prev := char // it may be a backslash, which escapes the next rune
 	for _, c := range chars {
 		char = c
 
diff --git a/util.go b/util.go
index f1a4b98..55982c9 100644
--- a/util.go
+++ b/util.go
@@ -35,17 +35,46 @@ func isEOL(s string) bool {
 	return strings.HasSuffix(s, "\n")
 }
 
+// repr quotes s so that the lexer reads s back. In quotes, the lexer takes everything as it is,
+// except for an escaped quote of the same kind, which stands for that quote.
 func repr(s string) string {
-	q := fmt.Sprintf("%q", s)
-	for _, char := range s {
-		if char == '"' {
-			q = strings.ReplaceAll(q, `\"`, `"`)
-			q = strings.ReplaceAll(q, `'`, `\'`)
-			q = `'` + q[1:len(q)-1] + `'`
-			return q
+	double, okDouble := quoteWith(s, '"')
+	single, okSingle := quoteWith(s, '\'')
+	preferDouble := !strings.ContainsRune(s, '"')
+
+	switch {
+	case okDouble && (preferDouble || !okSingle):
+		return double
+	case okSingle:
+		return single
+	case strings.HasSuffix(s, `\`):
+		return double // nothing reads back as a backslash that escapes nothing
+	default:
+		return s // only what was not quoted can have both kinds of quotes escaped
+	}
+}
+
+// quoteWith puts s in quotes, and returns whether that reads back as s.
+func quoteWith(s string, quote rune) (string, bool) {
+	sb := strings.Builder{}
+	ok := true
+	esc := false
+
+	sb.WriteRune(quote)
+	for _, r := range s {
+		switch {
+		case esc:
+			ok = ok && r != quote
+			esc = false
+		case r == '\\':
+			esc = true
+		case r == quote:
+			sb.WriteRune('\\')
 		}
+		sb.WriteRune(r)
 	}
-	return q
+	sb.WriteRune(quote)
+	return sb.String(), ok && !esc
 }
 
 func validFlag(s string) bool {
-- 
2.43.0


From 1ee24b795c994272c736257534d6dfdf6aa0d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 29/55] fix: close the file that could not be built

---
 build.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build.go b/build.go
index 4daf838..7cb229a 100644
--- a/build.go
+++ b/build.go
@@ -117,6 +117,7 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 
 		output := append(bytes.TrimRightFunc(buf.Bytes(), unicode.IsSpace), '\n')
 		if _, err := f.Write(output); err != nil {
+			_ = f.Close()
 			return err
 		}
 		if err := f.Close(); err != nil {
@@ -346,6 +347,7 @@ func BuildInto(payload *Payload, into Creator, options *BuildOptions) error {
 			return err
 		}
 		if err := Build(wc, config, options); err != nil {
+			_ = wc.Close()
 			return err
 		}
 
-- 
2.43.0


From 62af13bb2fa95a44a3612903c46809c2b1eb57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 30/55] fix: do not panic when combining a payload with a
 negative include index

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 55982c9..2e2251e 100644
--- a/util.go
+++ b/util.go
@@ -183,7 +183,7 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 				continue
 			}
 			for _, idx := range dir.Includes {
-				if idx >= len(old.Config) {
+				if idx < 0 || idx >= len(old.Config) {
 					c <- included{
 						err: &ParseError{
 							What:      fmt.Sprintf("include config with index: %d", idx),
-- 
2.43.0


From 8c6b96549ea3c33cc0030a2c80b677430ef5c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 31/55] fix: build if expressions so that they are read back as
 they were

---
 build.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/build.go b/build.go
index 7cb229a..ff985d5 100644
--- a/build.go
+++ b/build.go
@@ -196,13 +196,20 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			// special handling for if statements
 			if directive == "if" && !stmt.IsMapBlockParameter {
 				_, _ = sb.WriteString(" (")
+				closing := ")"
 				for i, arg := range stmt.Args {
-					if i > 0 {
+					if i == len(stmt.Args)-1 && strings.HasSuffix(arg, `\`) {
+						arg += ")" // the backslash would escape the closing quote
+						closing = ""
+					}
+					quoted := Enquote(arg)
+					// quotes only count at the start of an argument, so they can't follow the parenthesis
+					if i > 0 || quoted != arg {
 						_, _ = sb.WriteString(" ")
 					}
-					_, _ = sb.WriteString(Enquote(arg))
+					_, _ = sb.WriteString(quoted)
 				}
-				_, _ = sb.WriteString(")")
+				_, _ = sb.WriteString(closing)
 			} else {
 				for _, arg := range stmt.Args {
 					_, _ = sb.WriteString(" ")
-- 
2.43.0


From f0b3a83e1445f2b315d40f584428791f1894df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 32/55] fix: keep the backslash that ends a file even if a
 carriage return follows

---
 lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index f8ab67a..5997cc0 100644
--- a/lex.go
+++ b/lex.go
@@ -347,7 +347,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		if lexState == skipSpace {
 			tokenStartLine = tokenLine
 		}
-		token.WriteString(la) // nothing is left for the backslash to escape
+		token.WriteString("\\") // nothing is left for it to escape
 	}
 	if token.Len() > 0 || lexState == inQuote {
 		emit(tokenStartLine, lexState == inQuote, nil)
-- 
2.43.0


From 6ba8bc5a1d84ff267dc394ef0740d3e2bd2e9cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 33/55] fix: give a special character the line it is on

---
 lex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lex.go b/lex.go
index 5997cc0..d67c52e 100644
--- a/lex.go
+++ b/lex.go
@@ -278,6 +278,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 				if token.Len() > 0 {
 					emit(tokenStartLine, false, nil)
 				}
+				tokenStartLine = tokenLine // the token before can have begun on another line
 
 				// only '}' can be repeated
 				if dupSpecialChar && la != "}" {
-- 
2.43.0


From b121d54f5dd52d8024c51410abd76e9a577acdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:48 +0000
Subject: [PATCH 34/55] fix: report a directive that is not terminated before
 its block ends, even if unknown

---
 parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parse.go b/parse.go
index 50ae6f4..8822824 100644
--- a/parse.go
+++ b/parse.go
@@ -350,6 +350,15 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 
 		// raise errors if this statement is invalid
 		err = analyze(parsing.File, stmt, t.Value, ctx, p.options)
+		if err == nil && t.Value == "}" { // even if nothing else is known about it, it has to end before its block does
+			err = &ParseError{
+				What:      fmt.Sprintf(`directive "%s" is not terminated by ";"`, stmt.Directive),
+				File:      &parsing.File,
+				Line:      &stmt.Line,
+				Statement: stmt.String(),
+				BlockCtx:  ctx.getLastBlock(),
+			}
+		}
 
 		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
 			p.handleError(parsing, perr)
-- 
2.43.0


From 0b58d7c9c2e089af2170d01c6a4cd61412d9d982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 35/55] fix: an opening brace ends the variable of
 set_by_lua_block

---
 lua.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lua.go b/lua.go
index 8548d2f..9d49949 100644
--- a/lua.go
+++ b/lua.go
@@ -85,12 +85,22 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 						next = s.Text()
 					}
 				}
+				if next == "{" && !strings.HasSuffix(arg, "$") {
+					if arg == "" {
+						lineno := s.Line()
+						tokenCh <- NgxToken{Error: &ParseError{File: &lexerFile, What: `unexpected "{"`, Line: &lineno}}
+						return
+					}
+					tokenCh <- NgxToken{Value: arg, Line: s.Line(), IsQuoted: false}
+					tokenDepth++ // the block has started
+					break
+				}
 				arg += next
 			}
 		}
 
 		// check that Lua block starts correctly
-		for {
+		for tokenDepth == 0 {
 			if !s.Scan() {
 				return
 			}
-- 
2.43.0


From 351b3b096b444f859e6469584e103c5792b91d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:21 +0000
Subject: [PATCH 36/55] fix: support all Lua block directives of the Lua module

---
 lua.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lua.go b/lua.go
index 9d49949..baf0ef3 100644
--- a/lua.go
+++ b/lua.go
@@ -40,6 +40,9 @@ func (l *Lua) directiveNames() []string {
 		"ssl_certificate_by_lua_block",
 		"ssl_session_fetch_by_lua_block",
 		"ssl_session_store_by_lua_block",
+		"precontent_by_lua_block",
+		"proxy_ssl_certificate_by_lua_block",
+		"proxy_ssl_verify_by_lua_block",
 	}
 }
 
-- 
2.43.0


From 247a332a928b1c6182657e66ae4a933797507c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:56 +0000
Subject: [PATCH 37/55] fix: don't double quote an argument that ends in an
 escaped backslash and has both quotes escaped

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 2e2251e..06357f9 100644
--- a/util.go
+++ b/util.go
@@ -47,7 +47,7 @@ func repr(s string) string {
 		return double
 	case okSingle:
 		return single
-	case strings.HasSuffix(s, `\`):
+	case (len(s)-len(strings.TrimRight(s, `\`)))%2 == 1:
 		return double // nothing reads back as a backslash that escapes nothing
 	default:
 		return s // only what was not quoted can have both kinds of quotes escaped
-- 
2.43.0


From 11615603451d60b98507dea5caf3b6daf7312516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 38/55] fix: look builders up by the name of the directive, not
 by its quoted form

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index ff985d5..8d6ade9 100644
--- a/build.go
+++ b/build.go
@@ -181,7 +181,7 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 		_, _ = sb.WriteString(margin(options, depth))
 
 		if options.extBuilders != nil {
-			if ext, ok := options.extBuilders[directive]; ok {
+			if ext, ok := options.extBuilders[stmt.Directive]; ok {
 				_, _ = sb.WriteString(ext.Build(stmt))
 				continue
 			}
-- 
2.43.0


From 5fa64634f8f709439858bfe2eada89925b8a5099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:17 +0000
Subject: [PATCH 39/55] fix: keep a comment on the line of a directive that has
 its own builder

---
 build.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build.go b/build.go
index 8d6ade9..b2f9852 100644
--- a/build.go
+++ b/build.go
@@ -183,6 +183,7 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 		if options.extBuilders != nil {
 			if ext, ok := options.extBuilders[stmt.Directive]; ok {
 				_, _ = sb.WriteString(ext.Build(stmt))
+				lastLine = stmt.Line
 				continue
 			}
 		}
-- 
2.43.0


From 5e686c8366062e3181c84154718ab797ed8ff5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:25 +0000
Subject: [PATCH 40/55] fix: report a bad include pattern at its line, and go
 on with the file

---
 parse.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 8822824..a668313 100644
--- a/parse.go
+++ b/parse.go
@@ -409,7 +409,19 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			if hasMagic.MatchString(pattern) {
 				fnames, err = p.options.Glob(pattern)
 				if err != nil {
-					return nil, err
+					perr := &ParseError{
+						What:        err.Error(),
+						File:        &parsing.File,
+						Line:        &stmt.Line,
+						Statement:   stmt.String(),
+						BlockCtx:    ctx.getLastBlock(),
+						originalErr: err,
+					}
+					if p.options.StopParsingOnError {
+						return nil, perr
+					}
+					p.handleError(parsing, perr)
+					fnames = nil
 				}
 				sort.Strings(fnames)
 			} else {
-- 
2.43.0


From 0a56ccdb8a78667d6e55725ff61bde101596ee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:10 +0000
Subject: [PATCH 41/55] fix: don't modify the error of a token, which belongs
 to the lexer

---
 parse.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index a668313..4a4f78d 100644
--- a/parse.go
+++ b/parse.go
@@ -494,9 +494,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 func lexError(parsing *Config, t NgxToken, ctx blockCtx) error {
 	var perr *ParseError
 	if errors.As(t.Error, &perr) {
-		perr.File = &parsing.File
-		perr.BlockCtx = ctx.getLastBlock()
-		return perr
+		own := *perr // the error belongs to the lexer, which may share it
+		own.File = &parsing.File
+		own.BlockCtx = ctx.getLastBlock()
+		return &own
 	}
 	return &ParseError{
 		What:        t.Error.Error(),
-- 
2.43.0


From 23c5f30bd7d470ad1a13f4ce645cfde556700d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:38 +0000
Subject: [PATCH 42/55] fix: let the generator accept any white space in
 definitions, and take nothing from other literals

---
 internal/generator/generator_util.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 52fefda..1b8543c 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -37,17 +37,20 @@ var (
 	// Extract single directive definition block
 	// static ngx_command_t  {name}[] = {definition}
 	// this regex extracts {name} and {definition}.
-	directivesDefineBlockExtracter = regexp.MustCompile(`ngx_command_t\s+(\w+)\[\]\s*=\s*{(.*?)}\s*;`)
+	directivesDefineBlockExtracter = regexp.MustCompile(`ngx_command_t\s+(\w+)\s*\[[^\]]*\]\s*=\s*{(.*?)}\s*;`)
 
 	// Extract one directive definition and attributes from extracted block
 	// { ngx_string({directive_name}),
 	//   {bitmask1|bitmask2|...},
 	//   ... },
 	// this regex extracts {directive_name} and {bitmask1|bitmask2|...}.
-	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\("(.*?)"\).*?,(.*?),`)
+	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\s*\(\s*"(.*?)"\s*\).*?,(.*?),`)
 
 	// Comments and literals are matched together, as each can contain what would start the other.
 	commentOrLiteralExtracter = regexp.MustCompile(`//.*|/\*[\s\S]*?\*/|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'`)
+
+	// Literals other than the names of directives can contain what looks like a definition.
+	nameOrLiteralExtracter = regexp.MustCompile(`ngx_string\s*\(\s*"(?:\\.|[^"\\\n])*"|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'`)
 )
 
 // Template of support file. A support file contains a map from
@@ -110,7 +113,14 @@ func masksFromFile(path string) (directive2Masks map[string][]Mask, err error) {
 	// Remove comments
 	strContent = commentOrLiteralExtracter.ReplaceAllStringFunc(strContent, func(s string) string {
 		if s[0] == '/' {
-			return ""
+			return " "
+		}
+		return s
+	})
+	// Empty the other literals
+	strContent = nameOrLiteralExtracter.ReplaceAllStringFunc(strContent, func(s string) string {
+		if s[0] == '"' || s[0] == '\'' {
+			return `""`
 		}
 		return s
 	})
-- 
2.43.0


From c96f405cb2f8e9a881cf47ec55fffa2b49f1d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 43/55] fix: comment out every line of the comment of a
 generated match function

---
 internal/generator/generator_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 1b8543c..c868f93 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -226,7 +226,7 @@ func genFromSrcCode(codePath string, writer io.Writer, config GenerateConfig) er
 		Directive2Masks: directive2Masks,
 		MapVariableName: config.DirectiveMapName,
 		MatchFnName:     config.MatchFuncName,
-		MatchFnComment:  config.MatchFuncComment,
+		MatchFnComment:  strings.ReplaceAll(config.MatchFuncComment, "\n", "\n// "),
 	})
 	if err != nil {
 		return err
-- 
2.43.0


From b351c87a721e49f1430932a8e35d3738a7179f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:42 +0000
Subject: [PATCH 44/55] fix: keep the cause of the error for an included file
 that can't be opened

---
 parse.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parse.go b/parse.go
index 4a4f78d..5e74c53 100644
--- a/parse.go
+++ b/parse.go
@@ -429,11 +429,12 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				// that the included file can be opened and read
 				if f, err := p.openFile(pattern); err != nil {
 					perr := &ParseError{
-						What:      err.Error(),
-						File:      &parsing.File,
-						Line:      &stmt.Line,
-						Statement: stmt.String(),
-						BlockCtx:  ctx.getLastBlock(),
+						What:        err.Error(),
+						File:        &parsing.File,
+						Line:        &stmt.Line,
+						Statement:   stmt.String(),
+						BlockCtx:    ctx.getLastBlock(),
+						originalErr: err,
 					}
 					if !p.options.StopParsingOnError {
 						p.handleError(parsing, perr)
-- 
2.43.0


From 6ce60dec583c3cf5d7fdba080ab22d8f42c7081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:47 +0000
Subject: [PATCH 45/55] fix: don't take a block for one of nginx because of a
 name that is empty or contains ">"

---
 analyze.go | 6 +++++-
 parse.go   | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/analyze.go b/analyze.go
index d633c22..6dfeb36 100644
--- a/analyze.go
+++ b/analyze.go
@@ -137,7 +137,11 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 	}
 	// no other block contexts can be nested like location so just append it
 	// cap the slice so that sibling blocks never share a backing array: an include keeps its context for later
-	return append(ctx[:len(ctx):len(ctx)], stmt.Directive)
+	name := stmt.Directive
+	if name == "" {
+		name = `""` // else the block could not be told from the main context
+	}
+	return append(ctx[:len(ctx):len(ctx)], name)
 }
 
 //nolint:gocyclo,funlen,gocognit
diff --git a/parse.go b/parse.go
index 5e74c53..b8b9a00 100644
--- a/parse.go
+++ b/parse.go
@@ -28,6 +28,11 @@ var (
 type blockCtx []string
 
 func (c blockCtx) key() string {
+	for _, name := range c {
+		if strings.Contains(name, ">") {
+			return fmt.Sprintf("%q", []string(c)) // a block of nginx has no such name, so this must not read as one
+		}
+	}
 	return strings.Join(c, ">")
 }
 
-- 
2.43.0


From 2452029dfc6a387c8a0168a4877cf65638e7071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:46 +0000
Subject: [PATCH 46/55] fix: don't sort the slice that Glob returns in place

---
 parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.go b/parse.go
index b8b9a00..66acc87 100644
--- a/parse.go
+++ b/parse.go
@@ -428,6 +428,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					p.handleError(parsing, perr)
 					fnames = nil
 				}
+				fnames = append([]string{}, fnames...) // the matches belong to Glob, which may share them
 				sort.Strings(fnames)
 			} else {
 				// if the file pattern was explicit, nginx will check
-- 
2.43.0


From 298a3601f9b9285417c31f5181dc392be1dc5080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:02 +0000
Subject: [PATCH 47/55] fix: don't take a premature end that a token reports
 for an argument

---
 parse.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index 66acc87..c0d810e 100644
--- a/parse.go
+++ b/parse.go
@@ -282,9 +282,13 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			}
 		}
 		for t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {
-			// an end of file here is a premature one: it is reported below, at the line of this statement
-			if t.Error != nil && !errors.Is(t.Error, ErrPrematureLexEnd) {
-				return nil, lexError(parsing, t, ctx)
+			if t.Error != nil {
+				perr := lexError(parsing, t, ctx)
+				if perr.originalErr == ErrPrematureLexEnd { // it is this statement that the file ends in
+					perr.What = ErrPrematureLexEnd.Error()
+					perr.Line = &stmt.Line
+				}
+				return nil, perr
 			}
 			if !strings.HasPrefix(t.Value, "#") || t.IsQuoted {
 				stmt.Args = append(stmt.Args, t.Value)
@@ -498,7 +502,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 }
 
 // lexError turns the error of a token into the error of the config that is being parsed.
-func lexError(parsing *Config, t NgxToken, ctx blockCtx) error {
+func lexError(parsing *Config, t NgxToken, ctx blockCtx) *ParseError {
 	var perr *ParseError
 	if errors.As(t.Error, &perr) {
 		own := *perr // the error belongs to the lexer, which may share it
-- 
2.43.0


From 9629f77a0663348f2f123f32c20e307f3d6465e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 48/55] fix: report an include cycle instead of combining
 without end

---
 util.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/util.go b/util.go
index 06357f9..bf43e64 100644
--- a/util.go
+++ b/util.go
@@ -147,7 +147,7 @@ func combineConfigs(old *Payload) (*Payload, error) {
 		}
 	}
 
-	for incl := range performIncludes(old, combined.File, old.Config[0].Parsed) {
+	for incl := range performIncludes(old, combined.File, old.Config[0].Parsed, []int{0}) {
 		if incl.err != nil {
 			return nil, incl.err
 		}
@@ -161,7 +161,9 @@ func combineConfigs(old *Payload) (*Payload, error) {
 	}, nil
 }
 
-func performIncludes(old *Payload, fromfile string, block Directives) chan included {
+// performIncludes yields the directives of block with their includes performed. The last element of path is the index of
+// the config that block is from, the others are those of the configs that led to it.
+func performIncludes(old *Payload, fromfile string, block Directives, path []int) chan included {
 	c := make(chan included)
 	go func() {
 		defer close(c)
@@ -169,7 +171,7 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 			dir := *d
 			if dir.IsBlock() {
 				nblock := Directives{}
-				for incl := range performIncludes(old, fromfile, dir.Block) {
+				for incl := range performIncludes(old, fromfile, dir.Block, path) {
 					if incl.err != nil {
 						c <- incl
 						return
@@ -194,7 +196,21 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 					}
 					return
 				}
-				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed) {
+				for _, including := range path {
+					if including == idx { // it would never end
+						c <- included{
+							err: &ParseError{
+								What:      "configs contain include cycle",
+								File:      &fromfile,
+								Line:      &dir.Line,
+								Statement: dir.String(),
+							},
+						}
+						return
+					}
+				}
+				nested := append(path[:len(path):len(path)], idx)
+				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed, nested) {
 					c <- incl
 					if incl.err != nil {
 						return
-- 
2.43.0


From c694cb011c587c46e7ee31041106dc39fa42fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:30 +0000
Subject: [PATCH 49/55] fix: take a vertical tab in a module's source for white
 space

---
 internal/generator/generator_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index c868f93..8112586 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -108,7 +108,8 @@ func masksFromFile(path string) (directive2Masks map[string][]Mask, err error) {
 	if err != nil {
 		return nil, err
 	}
-	strContent := string(byteContent)
+	// \s does not match a vertical tab, which is white space in C
+	strContent := strings.ReplaceAll(string(byteContent), "\v", " ")
 
 	// Remove comments
 	strContent = commentOrLiteralExtracter.ReplaceAllStringFunc(strContent, func(s string) string {
-- 
2.43.0


From db273186019e385344b3280b401017a8ab7ee92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:20 +0000
Subject: [PATCH 50/55] fix: call an external lexer for a name that has an
 expansion in it, and not for what precedes an expansion

---
 lex.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lex.go b/lex.go
index d67c52e..d9c02f1 100644
--- a/lex.go
+++ b/lex.go
@@ -190,7 +190,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		if token.Len() > 0 {
 			tokenStr := token.String()
 			// the token is only known when it is complete: until then it may be a prefix of another one
-			tokenEnds := lexState == inWord && (isSpace(la) || la == "{" || la == "}" || la == ";") ||
+			tokenEnds := lexState == inWord && (isSpace(la) || la == "{" && !strings.HasSuffix(tokenStr, "$") || la == "}" || la == ";") ||
 				lexState == inQuote && la == quote
 			if nextTokenIsDirective && tokenEnds {
 				if ext, ok := options.extLexers[tokenStr]; ok {
@@ -250,7 +250,6 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 
 			// handle parameter expansion syntax (ex: "${var[@]}")
 			if token.Len() > 0 && strings.HasSuffix(token.String(), "$") && la == "{" {
-				nextTokenIsDirective = false
 				token.WriteString(la)
 				lexState = inVar
 				dupSpecialChar = false
-- 
2.43.0


From 76f00061d09f97780fd4c0f94046740be236e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:08 +0000
Subject: [PATCH 51/55] fix: run generate.sh with bash, which it is written
 for, when generating

---
 analyze.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/analyze.go b/analyze.go
index 6dfeb36..dc4164d 100644
--- a/analyze.go
+++ b/analyze.go
@@ -11,35 +11,35 @@ package crossplane
 // please use -skip options to skip them. e.g. go generate -skip="nap".
 
 // Update for headersmore
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/openresty/headers-more-nginx-module.git --config-path ./scripts/generate/configs/headersmore_config.json > ./analyze_headersMore_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/openresty/headers-more-nginx-module.git --config-path ./scripts/generate/configs/headersmore_config.json > ./analyze_headersMore_directives.gen.go"
 
 // Update for njs
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/nginx/njs.git --config-path ./scripts/generate/configs/njs_config.json > ./analyze_njs_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/nginx/njs.git --config-path ./scripts/generate/configs/njs_config.json > ./analyze_njs_directives.gen.go"
 
 // Update for OSS, filter in config is the directives not in https://nginx.org/en/docs/dirindex.html but in source code.
 // Override in config is for the "if" directive. We create a bitmask ngxConfExpr for it in crossplane, which is not in source code.
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/nginx/nginx.git --config-path ./scripts/generate/configs/oss_latest_config.json > ./analyze_oss_latest_directives.gen.go"
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/nginx/nginx.git --config-path ./scripts/generate/configs/oss_126_config.json --branch stable-1.26 > ./analyze_oss_126_directives.gen.go"
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/nginx/nginx.git --config-path ./scripts/generate/configs/oss_124_config.json --branch stable-1.24 > ./analyze_oss_124_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/nginx/nginx.git --config-path ./scripts/generate/configs/oss_latest_config.json > ./analyze_oss_latest_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/nginx/nginx.git --config-path ./scripts/generate/configs/oss_126_config.json --branch stable-1.26 > ./analyze_oss_126_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/nginx/nginx.git --config-path ./scripts/generate/configs/oss_124_config.json --branch stable-1.24 > ./analyze_oss_124_directives.gen.go"
 
 // Update for lua, override is for the lua block directives, see https://github.com/nginxinc/nginx-go-crossplane/pull/86.
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/openresty/lua-nginx-module.git --config-path ./scripts/generate/configs/lua_config.json  --path ./src > ./analyze_lua_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/openresty/lua-nginx-module.git --config-path ./scripts/generate/configs/lua_config.json  --path ./src > ./analyze_lua_directives.gen.go"
 
 // Update for otel. Filter is for some directives without context.
 // Otel provides its own config handler for some directives and they don't have context. Currently we don't support them.
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/nginxinc/nginx-otel.git --config-path ./scripts/generate/configs/otel_config.json --branch main > ./analyze_otel_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/nginxinc/nginx-otel.git --config-path ./scripts/generate/configs/otel_config.json --branch main > ./analyze_otel_directives.gen.go"
 
 // Update for NAP v4 and v5.
 // NAP is a private module. Please ensure you have correct access and put the url.
 // and branch of it in environment variable NAP_URL, NAP_V4_BRANCH, and NAP_V5_BRANCH.
 // Override is for flag directives. NAP used ngxConfTake1 for flag directives, we change them to ngxConfFlag in crossplane.
 // NAP v4
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url $NAP_URL --config-path ./scripts/generate/configs/nap_v4_config.json --branch $NAP_V4_BRANCH --path ./src > analyze_appProtectWAFv4_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url $NAP_URL --config-path ./scripts/generate/configs/nap_v4_config.json --branch $NAP_V4_BRANCH --path ./src > analyze_appProtectWAFv4_directives.gen.go"
 // NAP v5
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url $NAP_URL --config-path ./scripts/generate/configs/nap_v5_config.json --branch $NAP_V5_BRANCH --path ./src > analyze_appProtectWAFv5_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url $NAP_URL --config-path ./scripts/generate/configs/nap_v5_config.json --branch $NAP_V5_BRANCH --path ./src > analyze_appProtectWAFv5_directives.gen.go"
 
 // Update for geoip2
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/leev/ngx_http_geoip2_module.git --config-path ./scripts/generate/configs/geoip2_config.json > ./analyze_geoip2_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/leev/ngx_http_geoip2_module.git --config-path ./scripts/generate/configs/geoip2_config.json > ./analyze_geoip2_directives.gen.go"
 
 // Update for NPlus.
 // NPlus source code is private. Please ensure you have the correct access
@@ -48,9 +48,9 @@ package crossplane
 // Override for NPlus R33 and the latest version is for mgmt directives and if directive.
 // For mgmt directives, we create a ngxMgmtMainConf as the context, which is not included in the source code.
 // For the "if" directive, we create a bitmask ngxConfExpr in crossplane, which is not included in the source code.
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url $NPLUS_URL --config-path ./scripts/generate/configs/nplus_latest_config.json --branch $NPLUS_BRANCH --path ./src > ./analyze_nplus_latest_directives.gen.go"
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url $NPLUS_URL --config-path ./scripts/generate/configs/nplus_R33_config.json --branch $NPLUS_BRANCH --path ./src > analyze_nplus_R33_directives.gen.go"
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url $NPLUS_URL --config-path ./scripts/generate/configs/nplus_R34_config.json --branch $NPLUS_BRANCH --path ./src > analyze_nplus_R34_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url $NPLUS_URL --config-path ./scripts/generate/configs/nplus_latest_config.json --branch $NPLUS_BRANCH --path ./src > ./analyze_nplus_latest_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url $NPLUS_URL --config-path ./scripts/generate/configs/nplus_R33_config.json --branch $NPLUS_BRANCH --path ./src > analyze_nplus_R33_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url $NPLUS_URL --config-path ./scripts/generate/configs/nplus_R34_config.json --branch $NPLUS_BRANCH --path ./src > analyze_nplus_R34_directives.gen.go"
 
 import (
 	"fmt"
-- 
2.43.0


From db1f84da61e47cb2e64f4b66b10892bb9dd2c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:10 +0000
Subject: [PATCH 52/55] fix: accept the options of generate.sh as they are
 documented, and give them on as they are

---
 scripts/generate/generate.sh | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/scripts/generate/generate.sh b/scripts/generate/generate.sh
index 5cc426c..1369ca2 100644
--- a/scripts/generate/generate.sh
+++ b/scripts/generate/generate.sh
@@ -86,12 +86,12 @@ while [ ! $# -eq 0 ]; do
             genArgs+=("-filter=$2")
             shift
             ;;
-        -override | -o)
-            genArgs+=("-override=\"$2\"")
+        --override | -override | -o)
+            genArgs+=("-override=$2")
             shift
             ;;
-        --match-func-comment | --mc)
-            genArgs+=("--match-func-comment=\"$2\"")
+        --match-func-comment | -mc | --mc)
+            genArgs+=("--match-func-comment=$2")
             shift
             ;;
         --path | -p)
@@ -137,5 +137,4 @@ else
     )
 fi
 
-# --match-fun-comment may contain spaces, to avoid auto quotes we go this way.
-sh -c "go run ./cmd/generate ${genArgs[*]}"
+go run ./cmd/generate "${genArgs[@]}"
-- 
2.43.0


From 07e5d6b8cc10750285c9360a35751459c51cfe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:13 +0000
Subject: [PATCH 53/55] fix: generate from the path asked for, not from the
 root of the repository as well

---
 scripts/generate/generate.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/generate/generate.sh b/scripts/generate/generate.sh
index 1369ca2..0ba9e70 100644
--- a/scripts/generate/generate.sh
+++ b/scripts/generate/generate.sh
@@ -122,7 +122,7 @@ cleanup() {
 }
 trap cleanup EXIT
 
-genArgs+=("--src-path=$tmp")
+genArgs+=("--src-path=$tmp/$sub_path")
 
 if [ "$sub_path" = "" ]; then
     git clone "$url" "$tmp" --depth 1 --branch "$branch" -q 1>&2
-- 
2.43.0


From ad6c88b4477aa433851a5a7c2f42363d59593c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:13 +0000
Subject: [PATCH 54/55] fix: generate from the whole repository when its path
 is asked for as "."

---
 scripts/generate/generate.sh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/generate/generate.sh b/scripts/generate/generate.sh
index 0ba9e70..1bc5747 100644
--- a/scripts/generate/generate.sh
+++ b/scripts/generate/generate.sh
@@ -115,6 +115,10 @@ if [ "$url" = "" ]; then
     exit 1
 fi
 
+# The repository itself is no directory that can be checked out sparsely.
+case "$sub_path" in
+    . | ./) sub_path="" ;;
+esac
 
 tmp=$(mktemp -d)
 cleanup() {
-- 
2.43.0


From df95b9b33180af31bb1d805600f87995cf242a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:04 +0000
Subject: [PATCH 55/55] fix: close each file when it has been read, not when
 all have been

---
 parse.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index c0d810e..6454e77 100644
--- a/parse.go
+++ b/parse.go
@@ -174,8 +174,6 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 			return nil, err
 		}
 
-		defer file.Close()
-
 		tokens := LexWithOptions(file, options.LexOptions)
 		config := Config{
 			File:   incl.path,
@@ -186,6 +184,7 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 		parsed, err := p.parse(&config, tokens, incl.ctx, false)
 		for range tokens { //nolint:revive // let the lexer finish before its file is closed
 		}
+		_ = file.Close() // now, since there can be more files than can be open at once
 		if err != nil {
 			if options.StopParsingOnError {
 				return nil, err
@@ -452,7 +451,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 						return nil, perr
 					}
 				} else {
-					defer f.Close()
+					_ = f.Close()
 					fnames = []string{pattern}
 				}
 			}
-- 
2.43.0

