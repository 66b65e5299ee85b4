From deb83d5b51f06ddccf7ab2e3f5d7b407ef29ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 01/20] fix: keep the nesting of blocks when a statement is
 left out

A statement that was ended by "}" did not close its block, the content of a
block that is not allowed where it stands was hoisted into the enclosing
block, and an error found while skipping a block was dropped.
---
 parse.go | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/parse.go b/parse.go
index 58302d3..39742b9 100644
--- a/parse.go
+++ b/parse.go
@@ -242,7 +242,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if consume {
 			// if we find a block inside this context, consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+					return nil, err
+				}
 			}
 			continue
 		}
@@ -308,9 +310,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					return nil, mapErr
 				} else if mapErr != nil {
 					p.handleError(parsing, mapErr)
-					// consume invalid block
-					if t.Value == "{" && !t.IsQuoted {
-						_, _ = p.parse(parsing, tokens, nil, true)
+					if closed, err := p.skip(parsing, tokens, t); err != nil {
+						return nil, err
+					} else if closed {
+						break
 					}
 					continue
 				}
@@ -322,9 +325,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 
 		// consume the directive if it is ignored and move on
 		if contains(p.options.IgnoreDirectives, stmt.Directive) {
-			// if this directive was a block consume it too
-			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+			if closed, err := p.skip(parsing, tokens, t); err != nil {
+				return nil, err
+			} else if closed {
+				break
 			}
 			continue
 		}
@@ -334,13 +338,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 
 		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
 			p.handleError(parsing, perr)
-			// if it was a block but shouldn"t have been then consume
-			if strings.HasSuffix(perr.What, ` is not terminated by ";"`) {
-				if t.Value != "}" && !t.IsQuoted {
-					_, _ = p.parse(parsing, tokens, nil, true)
-				} else {
-					break
-				}
+			if closed, err := p.skip(parsing, tokens, t); err != nil {
+				return nil, err
+			} else if closed {
+				break
 			}
 			// keep on parsin'
 			continue
@@ -443,11 +444,26 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				Comment:   &comment,
 			})
 		}
+
+		// the statement ended with the "}" that closes this block
+		if t.Value == "}" {
+			break
+		}
 	}
 
 	return parsed, nil
 }
 
+// skip finishes a statement that is left out of the payload: if it opened a block the block is
+// consumed too. It reports whether the statement ended with the "}" of the enclosing block.
+func (p *parser) skip(parsing *Config, tokens <-chan NgxToken, term NgxToken) (bool, error) {
+	if term.Value == "{" {
+		_, err := p.parse(parsing, tokens, nil, true)
+		return false, err
+	}
+	return term.Value == "}", nil
+}
+
 // isAcyclic performs a topological sort to check if there are cycles created by configs' includes.
 // First, it adds any files who are not being referenced by another file to a queue (in degree of 0).
 // For every file in the queue, it will remove the reference it has towards its neighbors.
-- 
2.43.0


From 783cf2759ffd7153d9fa6f4afd869220c7c81eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 02/20] fix: report lexer errors found among the arguments of a
 directive

An error token after the name of a directive, such as the one for a Lua block
that does not start with "{", was taken for an empty argument.
---
 parse.go | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/parse.go b/parse.go
index 39742b9..edbd27e 100644
--- a/parse.go
+++ b/parse.go
@@ -216,19 +216,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 	// parse recursively by pulling from a flat stream of tokens
 	for t := range tokens {
 		if t.Error != nil {
-			var perr *ParseError
-			if errors.As(t.Error, &perr) {
-				perr.File = &parsing.File
-				perr.BlockCtx = ctx.getLastBlock()
-				return nil, perr
-			}
-			return nil, &ParseError{
-				What:        t.Error.Error(),
-				File:        &parsing.File,
-				Line:        &t.Line,
-				originalErr: t.Error,
-				BlockCtx:    ctx.getLastBlock(),
-			}
+			return nil, lexError(parsing, t, ctx)
 		}
 
 		var commentsInArgs []string
@@ -284,7 +272,11 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				BlockCtx:    ctx.getLastBlock(),
 			}
 		}
+		var argErr error
 		for t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {
+			if t.Error != nil && argErr == nil {
+				argErr = lexError(parsing, t, ctx)
+			}
 			if !strings.HasPrefix(t.Value, "#") || t.IsQuoted {
 				stmt.Args = append(stmt.Args, t.Value)
 			} else if p.options.ParseComments {
@@ -302,6 +294,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			}
 		}
 
+		if argErr != nil {
+			return nil, argErr
+		}
+
 		// if inside "map-like" block - add contents to payload, but do not parse further
 		if len(ctx) > 0 {
 			if _, ok := mapBodies[ctx[len(ctx)-1]]; ok {
@@ -464,6 +460,23 @@ func (p *parser) skip(parsing *Config, tokens <-chan NgxToken, term NgxToken) (b
 	return term.Value == "}", nil
 }
 
+// lexError returns the error carried by a token as an error of the config that is being parsed.
+func lexError(parsing *Config, t NgxToken, ctx blockCtx) error {
+	var perr *ParseError
+	if errors.As(t.Error, &perr) {
+		perr.File = &parsing.File
+		perr.BlockCtx = ctx.getLastBlock()
+		return perr
+	}
+	return &ParseError{
+		What:        t.Error.Error(),
+		File:        &parsing.File,
+		Line:        &t.Line,
+		originalErr: t.Error,
+		BlockCtx:    ctx.getLastBlock(),
+	}
+}
+
 // isAcyclic performs a topological sort to check if there are cycles created by configs' includes.
 // First, it adds any files who are not being referenced by another file to a queue (in degree of 0).
 // For every file in the queue, it will remove the reference it has towards its neighbors.
-- 
2.43.0


From 46772ef7b238686ec56b5c9a242ce54820eaabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 03/20] fix: do not panic on "if ()" where arguments are not
 checked

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index b7af673..b51c835 100644
--- a/util.go
+++ b/util.go
@@ -77,7 +77,7 @@ func prepareIfArgs(d *Directive) *Directive {
 		if len(d.Args[0]) == 0 {
 			b++
 		}
-		if len(d.Args[e]) == 0 {
+		if b <= e && len(d.Args[e]) == 0 {
 			e--
 		}
 		d.Args = d.Args[b : e+1]
-- 
2.43.0


From e62ed3f0e1900b480ff96d1c59099ed3697a3f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 04/20] fix: report read errors while lexing

A failed read was taken for the end of the file, so that a truncated config
was parsed without an error.
---
 lex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lex.go b/lex.go
index 4b69cbe..93a91dc 100644
--- a/lex.go
+++ b/lex.go
@@ -330,6 +330,11 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 	if token.Len() > 0 {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
+	if err := scanner.Err(); err != nil {
+		emit(tokenLine, false, &ParseError{File: &lexerFile, What: err.Error(), Line: &tokenLine, originalErr: err})
+		close(tokenCh)
+		return
+	}
 	if depth > 0 {
 		emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected end of file, expecting "}"`, Line: &tokenLine})
 	}
-- 
2.43.0


From e39dd3bb54202fa612cd48f3a127ae32848d1425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:22 +0000
Subject: [PATCH 05/20] fix: reject "{" and ";" at the start of a config

---
 lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index 93a91dc..c6fc364 100644
--- a/lex.go
+++ b/lex.go
@@ -138,7 +138,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 
 	lexState := skipSpace
 	newToken := false
-	dupSpecialChar := false
+	dupSpecialChar := true // nothing precedes the first token
 	readNext := true
 	esc := false
 	depth := 0
-- 
2.43.0


From 5d6d70d83863319bd690b929ccfaa31a1d4e9b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 06/20] fix: use external lexers for complete directive names
 only

A directive was handed to an external lexer as soon as its name started with
a registered one.
---
 lex.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index c6fc364..59fb6c2 100644
--- a/lex.go
+++ b/lex.go
@@ -130,6 +130,14 @@ func (e *SubScanner) Text() string { return e.scanner.Text() }
 // Line returns the line number of the most recent token generated by a call to Scan.
 func (e *SubScanner) Line() int { return e.tokenLine }
 
+// endsToken returns true if reading la completes the token that is being read.
+func endsToken(lexState state, la, quote string) bool {
+	if lexState == inQuote {
+		return la == quote
+	}
+	return lexState == inWord && (isSpace(la) || la == "{" || la == "}" || la == ";")
+}
+
 //nolint:gocyclo,funlen,gocognit,maintidx
 func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 	token := strings.Builder{}
@@ -185,7 +193,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 
 		if token.Len() > 0 {
 			tokenStr := token.String()
-			if nextTokenIsDirective {
+			if nextTokenIsDirective && endsToken(lexState, la, quote) {
 				if ext, ok := options.extLexers[tokenStr]; ok {
 					// saving lex state before emitting tokenStr to know if we encountered start quote
 					lastLexState := lexState
-- 
2.43.0


From 5d13d54f8cd40a15e5b33548532fa3969ba5e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:27 +0000
Subject: [PATCH 07/20] fix: do not leak the lexer goroutine when parsing stops
 early

---
 parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.go b/parse.go
index edbd27e..62b73c0 100644
--- a/parse.go
+++ b/parse.go
@@ -177,6 +177,9 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 			Parsed: Directives{},
 		}
 		parsed, err := p.parse(&config, tokens, incl.ctx, false)
+		// let the lexer finish: it would wait forever for the rest of its tokens to be read
+		for range tokens { //nolint:revive
+		}
 		if err != nil {
 			if options.StopParsingOnError {
 				return nil, err
-- 
2.43.0


From 562d8ff2718130f8f6249cf22462f02c26967847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 08/20] fix: stop combining configs after an invalid include

The goroutines of the enclosing includes were left blocked forever, and a
negative index caused a panic.
---
 util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index b51c835..55a006a 100644
--- a/util.go
+++ b/util.go
@@ -151,7 +151,7 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 				continue
 			}
 			for _, idx := range dir.Includes {
-				if idx >= len(old.Config) {
+				if idx < 0 || idx >= len(old.Config) {
 					c <- included{
 						err: &ParseError{
 							What:      fmt.Sprintf("include config with index: %d", idx),
@@ -164,6 +164,9 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 				}
 				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed) {
 					c <- incl
+					if incl.err != nil {
+						return
+					}
 				}
 			}
 		}
-- 
2.43.0


From e3554b9b677d13a208921371c90abe82b3df3639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 09/20] fix: do not write to the options of the caller

Calls that share their options raced, and builders that were registered after
the first build were ignored.
---
 build.go | 14 ++++++--------
 parse.go |  3 +++
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/build.go b/build.go
index 0544817..5c68cc0 100644
--- a/build.go
+++ b/build.go
@@ -85,10 +85,6 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 		dir = cwd
 	}
 
-	for _, o := range options.Builders {
-		o.applyBuildOptions(options)
-	}
-
 	for _, config := range payload.Config {
 		path := config.File
 		if !filepath.IsAbs(path) {
@@ -126,6 +122,9 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 
 // Build creates an NGINX config from a crossplane.Config.
 func Build(w io.Writer, config Config, options *BuildOptions) error {
+	// the caller's options may be shared with other calls, so work on a copy
+	opts := *options
+	options = &opts
 	if options.Indent == 0 {
 		options.Indent = 4
 	}
@@ -137,10 +136,9 @@ func Build(w io.Writer, config Config, options *BuildOptions) error {
 		}
 	}
 
-	if options.extBuilders == nil { // might be set if using BuildFiles
-		for _, o := range options.Builders {
-			o.applyBuildOptions(options)
-		}
+	options.extBuilders = nil
+	for _, o := range options.Builders {
+		o.applyBuildOptions(options)
 	}
 
 	body := strings.Builder{}
diff --git a/parse.go b/parse.go
index 62b73c0..da291a3 100644
--- a/parse.go
+++ b/parse.go
@@ -122,6 +122,9 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 		Errors: []PayloadError{},
 		Config: []Config{},
 	}
+	// the caller's options may be shared with other calls, so work on a copy
+	opts := *options
+	options = &opts
 	if options.Glob == nil {
 		options.Glob = filepath.Glob
 	}
-- 
2.43.0


From 3a08630626b64dc0b7cb62c1c08362f32bdbda53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:34 +0000
Subject: [PATCH 10/20] fix: do not panic on a negative indentation

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 5c68cc0..3a89d81 100644
--- a/build.go
+++ b/build.go
@@ -125,7 +125,7 @@ func Build(w io.Writer, config Config, options *BuildOptions) error {
 	// the caller's options may be shared with other calls, so work on a copy
 	opts := *options
 	options = &opts
-	if options.Indent == 0 {
+	if options.Indent <= 0 {
 		options.Indent = 4
 	}
 
-- 
2.43.0


From 57a5d0da63c3a3dfd52e22f661326d16529f92ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 11/20] fix: close the file when writing a config fails

---
 build.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build.go b/build.go
index 3a89d81..7cc745d 100644
--- a/build.go
+++ b/build.go
@@ -110,6 +110,7 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 
 		output := append(bytes.TrimRightFunc(buf.Bytes(), unicode.IsSpace), '\n')
 		if _, err := f.Write(output); err != nil {
+			_ = f.Close()
 			return err
 		}
 		if err := f.Close(); err != nil {
@@ -333,6 +334,7 @@ func BuildInto(payload *Payload, into Creator, options *BuildOptions) error {
 			return err
 		}
 		if err := Build(wc, config, options); err != nil {
+			_ = wc.Close()
 			return err
 		}
 
-- 
2.43.0


From db154ee8921cf4c1527dcab1f9436e1b29ade565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 12/20] fix: quote arguments that start with "#"

They were built as comments, which swallowed the rest of the line.
---
 build.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index 7cc745d..60195cf 100644
--- a/build.go
+++ b/build.go
@@ -258,8 +258,8 @@ func needsQuote(s string) bool {
 	// get first rune
 	char, off := utf8.DecodeRuneInString(chars)
 
-	// arguments can't start with variable expansion syntax
-	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'", char) || strings.HasPrefix(chars, "${") {
+	// arguments can't start with variable expansion syntax or like a comment
+	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'#", char) || strings.HasPrefix(chars, "${") {
 		return true
 	}
 
-- 
2.43.0


From bd71aedc7b44bc8d2afae4c33c710fc8549825d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:41 +0000
Subject: [PATCH 13/20] fix: do not share the block context between sibling
 blocks

A file included from a deeply nested block was checked in the context of a
later sibling of that block.
---
 analyze.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/analyze.go b/analyze.go
index 9f28476..91bd08e 100644
--- a/analyze.go
+++ b/analyze.go
@@ -136,7 +136,10 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 		return blockCtx{"http", "location"}
 	}
 	// no other block contexts can be nested like location so just append it
-	return append(ctx, stmt.Directive)
+	// to a copy, because sibling blocks and included files keep using ctx
+	inner := make(blockCtx, 0, len(ctx)+1)
+	inner = append(inner, ctx...)
+	return append(inner, stmt.Directive)
 }
 
 //nolint:gocyclo,funlen,gocognit
-- 
2.43.0


From 1be7109e6df3126fd36ccf209577a09d26b6c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 14/20] fix: define ngxConfTake7

The generator uses it for NGX_CONF_TAKE7, so that its output did not compile.
---
 analyze.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyze.go b/analyze.go
index 91bd08e..d3d4ed0 100644
--- a/analyze.go
+++ b/analyze.go
@@ -65,7 +65,7 @@ const (
 	ngxConfTake4  = 0x00000010 // 4 args
 	ngxConfTake5  = 0x00000020 // 5 args
 	ngxConfTake6  = 0x00000040 // 6 args
-	// ngxConfTake7  = 0x00000080 // 7 args (currently unused).
+	ngxConfTake7  = 0x00000080 // 7 args
 	ngxConfBlock = 0x00000100 // followed by block
 	ngxConfExpr  = 0x00000200 // directive followed by expression in parentheses `()`
 	ngxConfFlag  = 0x00000400 // 'on' or 'off'
-- 
2.43.0


From a5428632003395532852bc47dbf72775cadeb631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 15/20] fix: do not escape generated Go code as HTML

---
 internal/generator/generator_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 615265b..68e25b2 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -11,13 +11,13 @@ import (
 	_ "embed"
 	"errors"
 	"fmt"
-	"html/template"
 	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
 	"regexp"
 	"strings"
+	"text/template"
 )
 
 // A Mask is a list of string, includes several variable names,
-- 
2.43.0


From 12c3d837230864fcb594576ac45e743dbae0a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 16/20] fix: keep empty blocks in JSON

---
 types.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/types.go b/types.go
index 5d6dc64..f3123c2 100644
--- a/types.go
+++ b/types.go
@@ -8,6 +8,7 @@
 package crossplane
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 )
@@ -51,6 +52,19 @@ type Directive struct {
 
 type Directives []*Directive
 
+// MarshalJSON keeps the empty block of a block directive. If it were omitted, the
+// directive would not be a block anymore after being unmarshaled.
+func (d Directive) MarshalJSON() ([]byte, error) {
+	type plain Directive
+	if d.Block == nil || len(d.Block) > 0 {
+		return json.Marshal(plain(d))
+	}
+	return json.Marshal(struct {
+		plain
+		Block Directives `json:"block"`
+	}{plain(d), d.Block})
+}
+
 // IsBlock returns true if this is a block directive.
 func (d Directive) IsBlock() bool {
 	return d.Block != nil
-- 
2.43.0


From a67eebd170d5c544c752b73967dc5570c8622193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 17/20] fix: an error token with the text of a separator does
 not end a statement

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index da291a3..c93c58d 100644
--- a/parse.go
+++ b/parse.go
@@ -279,7 +279,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			}
 		}
 		var argErr error
-		for t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {
+		for t.Error != nil || t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {
 			if t.Error != nil && argErr == nil {
 				argErr = lexError(parsing, t, ctx)
 			}
-- 
2.43.0


From 724d9ad1f5ffdbb3f07cd9b4c3f5d60738cc8195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:29 +0000
Subject: [PATCH 18/20] fix: keep the comments between the arguments of a map
 parameter

---
 parse.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/parse.go b/parse.go
index c93c58d..8aaca9f 100644
--- a/parse.go
+++ b/parse.go
@@ -225,7 +225,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			return nil, lexError(parsing, t, ctx)
 		}
 
-		var commentsInArgs []string
+		var commentsInArgs Directives
 
 		// we are parsing a block, so break if it's closing
 		if t.Value == "}" && !t.IsQuoted {
@@ -286,7 +286,14 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			if !strings.HasPrefix(t.Value, "#") || t.IsQuoted {
 				stmt.Args = append(stmt.Args, t.Value)
 			} else if p.options.ParseComments {
-				commentsInArgs = append(commentsInArgs, t.Value[1:])
+				comment := t.Value[1:]
+				commentsInArgs = append(commentsInArgs, &Directive{
+					Directive: "#",
+					Line:      stmt.Line,
+					Args:      []string{},
+					File:      fileName,
+					Comment:   &comment,
+				})
 			}
 			t, tokenOk = <-tokens
 			if !tokenOk {
@@ -321,6 +328,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				}
 				stmt.IsMapBlockParameter = true
 				parsed = append(parsed, stmt)
+				parsed = append(parsed, commentsInArgs...)
 				continue
 			}
 		}
@@ -436,16 +444,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		parsed = append(parsed, stmt)
 
 		// add all comments found inside args after stmt is added
-		for _, comment := range commentsInArgs {
-			comment := comment
-			parsed = append(parsed, &Directive{
-				Directive: "#",
-				Line:      stmt.Line,
-				Args:      []string{},
-				File:      fileName,
-				Comment:   &comment,
-			})
-		}
+		parsed = append(parsed, commentsInArgs...)
 
 		// the statement ended with the "}" that closes this block
 		if t.Value == "}" {
-- 
2.43.0


From 4eb501045ae6ed4f317878acb70496255a64ea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:59 +0000
Subject: [PATCH 19/20] fix: look up builders by the names that they were
 registered for

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 60195cf..3311519 100644
--- a/build.go
+++ b/build.go
@@ -173,7 +173,7 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 		_, _ = sb.WriteString(margin(options, depth))
 
 		if options.extBuilders != nil {
-			if ext, ok := options.extBuilders[directive]; ok {
+			if ext, ok := options.extBuilders[stmt.Directive]; ok {
 				_, _ = sb.WriteString(ext.Build(stmt))
 				continue
 			}
-- 
2.43.0


From 189b08000ef9178a01e15d5fc4a21529902ed308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:08 +0000
Subject: [PATCH 20/20] fix: quote arguments that start with an escaped
 backslash

needsQuote forgot the first character, so in an argument such as "\\\\;" the
second backslash was taken to escape the semicolon, and the argument was
written without quotes.
---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 3311519..3601bc8 100644
--- a/build.go
+++ b/build.go
@@ -266,7 +266,7 @@ func needsQuote(s string) bool {
 	chars = chars[off:]
 
 	expanding := false
-	var prev rune
+	prev := char // a backslash escapes the next character, wherever it stands
 	for _, c := range chars {
 		char = c
 
-- 
2.43.0

