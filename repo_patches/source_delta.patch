From 39ce1a2ebd8cd19fc4c145617553a3d70ae0dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 01/31] fix: reject mixed bindvar styles whichever style comes
 first

---
 syntax/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index add16a3..6183013 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -84,7 +84,7 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	case "$":
 		t = Dollar
 		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
+		if p.bindVarIndex == 1 {
 			p.bindVarStyle = t
 		}
 		if p.bindVarStyle != t {
@@ -93,7 +93,7 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	case "?":
 		t = Question
 		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
+		if p.bindVarIndex == 1 {
 			p.bindVarStyle = t
 		}
 		if p.bindVarStyle != t {
-- 
2.43.0


From 5c42edaa63b43afcd80937543f2b1d2194b33674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 02/31] fix: don't swallow the bindvar or function following a
 function value

---
 syntax/parser.go  | 7 ++-----
 syntax/scanner.go | 5 +++++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index 6183013..38314ad 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -190,17 +190,14 @@ func (p *parser) funcExpr() error {
 			},
 		)
 	default:
-		// EOF or _Plain
+		// the token is not a part of the function, leave it to Parse()
+		p.unreadToken()
 		p.c.ExprList = append(
 			p.c.ExprList,
 			&FuncExpr{
 				Name: nameToken.lit,
 				expr: expr{node{pos}},
 			},
-			&PlainExpr{
-				Text: p.token.lit,
-				expr: expr{node{p.token.pos}},
-			},
 		)
 	}
 
diff --git a/syntax/scanner.go b/syntax/scanner.go
index 915cff5..55448ae 100644
--- a/syntax/scanner.go
+++ b/syntax/scanner.go
@@ -47,6 +47,11 @@ func (s *scanner) NextToken() bool {
 	return false
 }
 
+// unreadToken puts the current token back, so that NextToken() returns it again
+func (s *scanner) unreadToken() {
+	s.tokens = append([]*token{s.token}, s.tokens...)
+}
+
 func scanPlain(s *scanner) scanFn {
 	s.StartToken()
 	for r := s.rune; r != EOF; r = s.Next() {
-- 
2.43.0


From 742dc12a7826e012e3f9f48c767fe6d26541b6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:21 +0000
Subject: [PATCH 03/31] fix: don't take NUL in the input as EOF and drop the
 rest of it

---
 syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syntax/lexer.go b/syntax/lexer.go
index 285bdc6..3376005 100644
--- a/syntax/lexer.go
+++ b/syntax/lexer.go
@@ -6,7 +6,7 @@ import (
 )
 
 // EOF is the EOF rune
-const EOF rune = 0
+const EOF rune = -1
 
 // lexerHelper is the lexical analyzer
 type lexerHelper struct {
-- 
2.43.0


From 81d5d1557d98dd27d41ba12f0f2529731c2f7902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 04/31] fix: don't panic on unhashable args, e.g. []byte, with
 the Dollar style

---
 context_args.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/context_args.go b/context_args.go
index 7a7d6e9..64e8d96 100644
--- a/context_args.go
+++ b/context_args.go
@@ -55,11 +55,25 @@ func (s *dollarArgStore) Args() []any {
 }
 
 func (s *dollarArgStore) CommitArg(arg any) string {
-	if i, ok := s.dict[arg]; ok {
-		return "$" + strconv.Itoa(i)
+	mergeable := hashable(arg)
+	if mergeable {
+		if i, ok := s.dict[arg]; ok {
+			return "$" + strconv.Itoa(i)
+		}
 	}
 	i := len(s.args) + 1
-	s.dict[arg] = i
+	if mergeable {
+		s.dict[arg] = i
+	}
 	s.args = append(s.args, arg)
 	return "$" + strconv.Itoa(i)
 }
+
+// hashable reports whether the arg can be a map key, []byte can't for example.
+func hashable(arg any) (ok bool) {
+	defer func() {
+		ok = recover() == nil
+	}()
+	_ = map[any]struct{}{arg: {}}
+	return
+}
-- 
2.43.0


From 0fbfd0b1f5dbd75eccfbf68a36a7d5df90c197c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 05/31] fix: report a number passed as string or bool argument
 instead of panic

---
 func_exec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/func_exec.go b/func_exec.go
index bbd6399..29d9d4e 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -116,7 +116,9 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 		uint, uint8, uint16, uint32, uint64,
 		float32, float64:
 		argType = "number"
-		v = reflect.ValueOf(arg).Convert(typ)
+		if numberType(typ.Kind()) {
+			v = reflect.ValueOf(arg).Convert(typ)
+		}
 	case bool:
 		argType = "bool"
 		if typ.Kind() == reflect.Bool {
-- 
2.43.0


From c55a0abd917eeabe4accda8fbef71716318c4da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 06/31] fix: pass arguments to functions declared with named
 string or bool types

---
 func_exec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/func_exec.go b/func_exec.go
index 29d9d4e..25a0d40 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -122,12 +122,12 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 	case bool:
 		argType = "bool"
 		if typ.Kind() == reflect.Bool {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case string:
 		argType = "string"
 		if typ.Kind() == reflect.String {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case nil:
 		argType = "nil"
-- 
2.43.0


From b03b8de2aceb875c5efb66c13fb45ce145159503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 07/31] fix: don't take an invalid reference in a joined item
 as the end of #join

---
 build.go        |  2 +-
 errors.go       | 18 ++++++++++++++++++
 func_builtin.go | 21 ++++++++++++++++++---
 properties.go   |  6 +++++-
 4 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/build.go b/build.go
index e6cb984..2363de4 100644
--- a/build.go
+++ b/build.go
@@ -32,7 +32,7 @@ func (f *Fragment) BuildFragment(ctx *Context) (string, error) {
 	ctx = contextWithFragment(ctx, f)
 	body, err := build(ctx, f)
 	if err != nil {
-		return "", err
+		return "", &contentError{err}
 	}
 	fc, err := ctx.mustFragment()
 	if err != nil {
diff --git a/errors.go b/errors.go
index d99120b..67e7b02 100644
--- a/errors.go
+++ b/errors.go
@@ -7,3 +7,21 @@ var (
 	// It's a required behaviour for a custom #func to be compatible with #join.
 	ErrInvalidIndex = errors.New("invalid index")
 )
+
+// contentError is an error raised by the content of a property or a fragment.
+//
+// An ErrInvalidIndex inside of it is about the references of the content, it
+// doesn't tell that the property itself doesn't exist.
+type contentError struct {
+	err error
+}
+
+func (e *contentError) Error() string { return e.err.Error() }
+func (e *contentError) Unwrap() error { return e.err }
+
+// isIndexExhausted reports whether the err tells that the index of the
+// function called is invalid.
+func isIndexExhausted(err error) bool {
+	var content *contentError
+	return errors.Is(err, ErrInvalidIndex) && !errors.As(err, &content)
+}
diff --git a/func_builtin.go b/func_builtin.go
index f2b8b85..c2cb17e 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -1,7 +1,6 @@
 package sqlf
 
 import (
-	"errors"
 	"fmt"
 	"strings"
 
@@ -40,6 +39,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 	}
 	b := new(strings.Builder)
 	var calls []*syntax.FuncCallExpr
+	iterated := make(map[syntax.Expr]bool)
 	for i, expr := range c.ExprList {
 		fn, ok := expr.(*syntax.FuncExpr)
 		if !ok {
@@ -57,6 +57,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		}
 		c.ExprList[i] = call
 		calls = append(calls, call)
+		iterated[call] = true
 	}
 	if len(calls) == 0 {
 		return "", fmt.Errorf("no function in join template '%s' (e.g.: #f, not #f1)", tmpl)
@@ -69,8 +70,8 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		for _, call := range calls {
 			call.Args = []any{i}
 		}
-		s, err := buildClause(ctx, c)
-		if errors.Is(err, ErrInvalidIndex) {
+		s, failed, err := buildJoinItem(ctx, c)
+		if isIndexExhausted(err) && iterated[failed] {
 			if (from > 0 && i == from) ||
 				(to > 0 && i <= to) {
 				// report index error only if explicitly specified
@@ -94,6 +95,20 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 	return b.String(), nil
 }
 
+// buildJoinItem builds the join template once, it returns the failed
+// expression on error.
+func buildJoinItem(ctx *Context, tmpl *syntax.Clause) (string, syntax.Expr, error) {
+	b := new(strings.Builder)
+	for _, expr := range tmpl.ExprList {
+		s, err := buildClause(ctx, &syntax.Clause{ExprList: []syntax.Expr{expr}})
+		if err != nil {
+			return "", expr, err
+		}
+		b.WriteString(s)
+	}
+	return b.String(), nil, nil
+}
+
 func funcArg(ctx *Context, i int) (string, error) {
 	c, err := ctx.mustFragment()
 	if err != nil {
diff --git a/properties.go b/properties.go
index cde4a8a..5423b30 100644
--- a/properties.go
+++ b/properties.go
@@ -15,7 +15,11 @@ func (p Properties) Build(ctx *Context, i int) (string, error) {
 	if i < 1 || i > len(p) {
 		return "", fmt.Errorf("%w: %d", ErrInvalidIndex, i)
 	}
-	return p[i-1].BuildFragment(ctx)
+	built, err := p[i-1].BuildFragment(ctx)
+	if err != nil {
+		return "", &contentError{err}
+	}
+	return built, nil
 }
 
 // checkUsage checks if all properties are used.
-- 
2.43.0


From d7ae4abdd575e037c8cf240cce30f150536ed395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:55 +0000
Subject: [PATCH 08/31] fix: forget args and usages of the incomplete last item
 of #join

---
 context.go      |  1 +
 context_args.go | 29 +++++++++++++++++++++++++++++
 func_builtin.go |  3 +++
 property.go     |  8 +++++++-
 4 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 7a65ee6..6f4da3e 100644
--- a/context.go
+++ b/context.go
@@ -8,6 +8,7 @@ import (
 type Context struct {
 	bindVarStyle syntax.BindVarStyle
 	argStore     argStore
+	used         []*defaultProperty // properties used, in order
 
 	parent *Context
 	funcs  map[string]*funcInfo
diff --git a/context_args.go b/context_args.go
index 64e8d96..6e8198f 100644
--- a/context_args.go
+++ b/context_args.go
@@ -17,9 +17,25 @@ func (c *Context) CommitArg(arg any) string {
 	return c.root().argStore.CommitArg(arg)
 }
 
+// checkpoint returns a function which forgets the args committed and the
+// properties used since the checkpoint.
+func (c *Context) checkpoint() (restore func()) {
+	root := c.root()
+	nArgs, nUsed := len(root.argStore.Args()), len(root.used)
+	return func() {
+		root.argStore.Truncate(nArgs)
+		for _, p := range root.used[nUsed:] {
+			p.used = false
+		}
+		root.used = root.used[:nUsed]
+	}
+}
+
 type argStore interface {
 	Args() []any
 	CommitArg(arg any) string
+	// Truncate drops the args after the first n.
+	Truncate(n int)
 }
 
 type questionArgStore struct {
@@ -39,6 +55,10 @@ func (s *questionArgStore) CommitArg(arg any) string {
 	return "?"
 }
 
+func (s *questionArgStore) Truncate(n int) {
+	s.args = s.args[:n]
+}
+
 type dollarArgStore struct {
 	args []any
 	dict map[any]int
@@ -69,6 +89,15 @@ func (s *dollarArgStore) CommitArg(arg any) string {
 	return "$" + strconv.Itoa(i)
 }
 
+func (s *dollarArgStore) Truncate(n int) {
+	for _, arg := range s.args[n:] {
+		if hashable(arg) {
+			delete(s.dict, arg)
+		}
+	}
+	s.args = s.args[:n]
+}
+
 // hashable reports whether the arg can be a map key, []byte can't for example.
 func hashable(arg any) (ok bool) {
 	defer func() {
diff --git a/func_builtin.go b/func_builtin.go
index c2cb17e..bf5fe11 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -70,6 +70,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		for _, call := range calls {
 			call.Args = []any{i}
 		}
+		restore := ctx.checkpoint()
 		s, failed, err := buildJoinItem(ctx, c)
 		if isIndexExhausted(err) && iterated[failed] {
 			if (from > 0 && i == from) ||
@@ -77,6 +78,8 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 				// report index error only if explicitly specified
 				return "", err
 			}
+			// the item is dropped, forget what it has referenced
+			restore()
 			break
 		}
 		if err != nil {
diff --git a/property.go b/property.go
index 7bd51b5..e1cd193 100644
--- a/property.go
+++ b/property.go
@@ -35,6 +35,12 @@ func (p *defaultProperty) Used() bool {
 
 // BuildFragment builds the fragment.
 func (p *defaultProperty) BuildFragment(ctx *Context) (string, error) {
-	p.used = true
+	if !p.used {
+		p.used = true
+		if ctx != nil {
+			root := ctx.root()
+			root.used = append(root.used, p)
+		}
+	}
 	return p.value.BuildFragment(ctx)
 }
-- 
2.43.0


From 9407e569f6648132b2bb6c63431f2469d892deb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 09/31] fix: don't panic on joins without condition, e.g.
 CrossJoin

---
 sqlb/query_builder_join.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index b872497..0bd45ec 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -99,12 +99,14 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 	if t.Alias != "" {
 		tableAndAlias = tableAndAlias + " AS " + t.Alias
 	}
+	fragment := sqlf.F(fmt.Sprintf("%s %s", joinStr, tableAndAlias))
+	if on != nil {
+		fragment.Raw += " #f1"
+		fragment.WithFragments(on.WithPrefix("ON"))
+	}
 	table := &fromTable{
-		Names: t,
-		Fragment: sqlf.Ff(
-			fmt.Sprintf("%s %s #f1", joinStr, tableAndAlias),
-			on.WithPrefix("ON"),
-		),
+		Names:    t,
+		Fragment: fragment,
 		Optional: optional,
 	}
 	if target, replacing := b.tablesDict[t.AppliedName()]; replacing {
-- 
2.43.0


From 0e2d22051cb3bce9105322e8bb548cb50bfeea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 10/31] fix: don't add the ON prefix to the fragment given to a
 join

---
 sqlb/query_builder_join.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index 0bd45ec..bf0063f 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -102,7 +102,8 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 	fragment := sqlf.F(fmt.Sprintf("%s %s", joinStr, tableAndAlias))
 	if on != nil {
 		fragment.Raw += " #f1"
-		fragment.WithFragments(on.WithPrefix("ON"))
+		// wrap it, the fragment given is not ours to modify
+		fragment.WithFragments(sqlf.Ff("#f1", on).WithPrefix("ON"))
 	}
 	table := &fromTable{
 		Names:    t,
-- 
2.43.0


From 505966870bb2866b79355582e9b140b06e974ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 11/31] fix: report the missing FROM table instead of panic or
 broken query

---
 sqlb/query_builder_dependecy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index b667e6d..484d585 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -1,6 +1,7 @@
 package sqlb
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/qjebbs/go-sqlf/v2"
@@ -8,6 +9,9 @@ import (
 
 // collectDependencies collects the dependencies of the tables.
 func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
+	if len(b.tables) == 0 || b.tables[0].Names.Name == "" {
+		return nil, errors.New("no FROM table")
+	}
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
 		b.touches,
-- 
2.43.0


From fba407147558972bdfff135d44f8c92abd787d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 12/31] fix: don't panic on nil fragments when collecting the
 tables

---
 sqlb/query_builder_dependecy.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 484d585..4c02fc5 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -95,7 +95,9 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 			continue
 		}
 		if fragment, ok := f.(*sqlf.Fragment); ok {
-			extractTables2(fragment.Fragments, tables, dict)
+			if fragment != nil {
+				extractTables2(fragment.Fragments, tables, dict)
+			}
 			continue
 		}
 		if column, ok := f.(*Column); ok && column != nil {
@@ -103,7 +105,7 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 				if !dict[column.table] {
 					collectTable(column.table, tables, dict)
 				}
-			} else {
+			} else if column.fragment != nil {
 				extractTables2(column.fragment.Fragments, tables, dict)
 			}
 			continue
-- 
2.43.0


From 1c269fcd481e17debb470c1070f471482e544795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 13/31] fix: don't trim optional joins required by the
 condition of other joins

---
 sqlb/query_builder_dependecy.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 4c02fc5..78d73f1 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -32,6 +32,16 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 			return nil, err
 		}
 	}
+	// joins always included require the tables of their conditions
+	for _, t := range b.tables[1:] {
+		if b.distinct && t.Optional {
+			continue
+		}
+		err := b.collectDepsFromTable(deps, t.Names.AppliedName())
+		if err != nil {
+			return nil, err
+		}
+	}
 	// mark for CTEs
 	for _, t := range b.tables {
 		if b.distinct && t.Optional && !deps[t.Names] {
-- 
2.43.0


From 07e9f42437a7bcaf667fd352b2fd4fcd6e610ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 14/31] fix: don't lose the dependencies of a CTE selected from
 without alias

---
 sqlb/query_builder_build.go     |  8 ++++----
 sqlb/query_builder_dependecy.go | 20 +++++++++++++-------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 5eb7693..b29617b 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -118,13 +118,13 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	return query, nil
 }
 
-func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[TableAliased]bool) (string, error) {
+func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep *dependencies) (string, error) {
 	if len(b.ctes) == 0 {
 		return "", nil
 	}
 	clauses := make([]string, 0, len(b.ctes))
 	for _, cte := range b.ctes {
-		if !dep[NewTableAliased(cte.name, "")] {
+		if !dep.ctes[cte.name] {
 			continue
 		}
 		query, err := cte.BuildFragment(ctx)
@@ -168,10 +168,10 @@ func (b *QueryBuilder) buildSelects(ctx *sqlf.Context) (string, error) {
 	return sel + ", " + touches, nil
 }
 
-func (b *QueryBuilder) buildFrom(ctx *sqlf.Context, dep map[TableAliased]bool) (string, error) {
+func (b *QueryBuilder) buildFrom(ctx *sqlf.Context, dep *dependencies) (string, error) {
 	tables := make([]string, 0, len(b.tables))
 	for _, t := range b.tables {
-		if b.distinct && t.Optional && !dep[t.Names] {
+		if b.distinct && t.Optional && !dep.tables[t.Names] {
 			continue
 		}
 		c, err := t.Fragment.BuildFragment(ctx)
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 78d73f1..c06e9d7 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -7,8 +7,14 @@ import (
 	"github.com/qjebbs/go-sqlf/v2"
 )
 
+// dependencies are the from tables and the CTEs required by a query.
+type dependencies struct {
+	tables map[TableAliased]bool
+	ctes   map[Table]bool
+}
+
 // collectDependencies collects the dependencies of the tables.
-func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
+func (b *QueryBuilder) collectDependencies() (*dependencies, error) {
 	if len(b.tables) == 0 || b.tables[0].Names.Name == "" {
 		return nil, errors.New("no FROM table")
 	}
@@ -43,23 +49,23 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 		}
 	}
 	// mark for CTEs
+	ctes := make(map[Table]bool)
 	for _, t := range b.tables {
 		if b.distinct && t.Optional && !deps[t.Names] {
 			continue
 		}
 		if cte, ok := b.ctesDict[t.Names.Name]; ok {
-			b.collectDepsFromCTE(deps, cte)
+			b.collectDepsFromCTE(ctes, cte)
 		}
 	}
-	return deps, nil
+	return &dependencies{tables: deps, ctes: ctes}, nil
 }
 
-func (b *QueryBuilder) collectDepsFromCTE(deps map[TableAliased]bool, cte *cte) error {
-	key := NewTableAliased(cte.name, "")
-	if deps[key] {
+func (b *QueryBuilder) collectDepsFromCTE(deps map[Table]bool, cte *cte) error {
+	if deps[cte.name] {
 		return nil
 	}
-	deps[key] = true
+	deps[cte.name] = true
 	for _, dep := range cte.deps {
 		if cte, ok := b.ctesDict[dep]; ok {
 			err := b.collectDepsFromCTE(deps, cte)
-- 
2.43.0


From 3682214199b864ffe016c7f87fa4f7f0d798b629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 15/31] fix: don't add an empty UNION when all of the union
 queries are empty

---
 sqlb/query_builder_build.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index b29617b..7fbbb4e 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -195,5 +195,8 @@ func (b *QueryBuilder) buildUnion(ctx *sqlf.Context) (string, error) {
 		}
 		clauses = append(clauses, query)
 	}
+	if len(clauses) == 0 {
+		return "", nil
+	}
 	return "UNION (" + strings.Join(clauses, ") UNION (") + ")", nil
 }
-- 
2.43.0


From 5f6492360299b3471dd482b98b73bb91db7e62c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 16/31] fix: don't let a build change the query builder and
 later builds with orders

---
 sqlb/query_builder.go           |  2 --
 sqlb/query_builder_build.go     | 13 ++++++++-----
 sqlb/query_builder_dependecy.go |  1 -
 sqlb/query_builder_order.go     | 12 +++++++-----
 4 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/sqlb/query_builder.go b/sqlb/query_builder.go
index ea5931a..acde3d5 100644
--- a/sqlb/query_builder.go
+++ b/sqlb/query_builder.go
@@ -15,7 +15,6 @@ type QueryBuilder struct {
 	tablesDict map[Table]*fromTable // the from tables by alias
 
 	selects    *sqlf.Fragment         // select columns and keep values in scanning.
-	touches    *sqlf.Fragment         // select columns but drop values in scanning.
 	conditions *sqlf.Fragment         // where conditions, joined with AND.
 	orders     []*orderItem           // order by columns, joined with comma.
 	groupbys   *sqlf.Fragment         // group by columns, joined with comma.
@@ -41,7 +40,6 @@ func NewQueryBuilder() *QueryBuilder {
 		ctesDict:   make(map[Table]*cte),
 		tablesDict: make(map[Table]*fromTable),
 		selects:    sqlf.F("#join('#fragment', ', ')").WithPrefix("SELECT"),
-		touches:    sqlf.F("#join('#fragment', ', ')"),
 		conditions: sqlf.F("#join('#fragment', ' AND ')").WithPrefix("WHERE"),
 		groupbys:   sqlf.F("#join('#fragment', ', ')").WithPrefix("GROUP BY"),
 	}
diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 7fbbb4e..1c6260e 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -81,7 +81,11 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if groupby != "" {
 		clauses = append(clauses, groupby)
 	}
-	order, err := b.buildOrders(ctx)
+	orders, touches, err := b.prepareOrders()
+	if err != nil {
+		return "", err
+	}
+	order, err := orders.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
@@ -94,8 +98,7 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b.offset > 0 {
 		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
 	}
-	// select must build order, because buildOrders may add columns to touches
-	sel, err := b.buildSelects(ctx)
+	sel, err := b.buildSelects(ctx, touches)
 	if err != nil {
 		return "", err
 	}
@@ -145,7 +148,7 @@ func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep *dependencies) (string,
 	return "With " + strings.Join(clauses, ", "), nil
 }
 
-func (b *QueryBuilder) buildSelects(ctx *sqlf.Context) (string, error) {
+func (b *QueryBuilder) buildSelects(ctx *sqlf.Context, orderColumns *sqlf.Fragment) (string, error) {
 	if b.distinct {
 		b.selects.Prefix = "SELECT DISTINCT"
 	} else {
@@ -155,7 +158,7 @@ func (b *QueryBuilder) buildSelects(ctx *sqlf.Context) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	touches, err := b.touches.BuildFragment(ctx)
+	touches, err := orderColumns.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index c06e9d7..d690d12 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -20,7 +20,6 @@ func (b *QueryBuilder) collectDependencies() (*dependencies, error) {
 	}
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
-		b.touches,
 		b.conditions,
 		b.groupbys,
 	}
diff --git a/sqlb/query_builder_order.go b/sqlb/query_builder_order.go
index 66d8d00..e70ff5c 100644
--- a/sqlb/query_builder_order.go
+++ b/sqlb/query_builder_order.go
@@ -39,12 +39,14 @@ func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
 	return b
 }
 
-func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
+// prepareOrders returns the fragment of the ORDER BY clause, and the fragment
+// of the columns which must be appended to the select list for it.
+func (b *QueryBuilder) prepareOrders() (orderBy, touches *sqlf.Fragment, err error) {
 	f := sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
+	touches = sqlf.F("#join('#fragment', ', ')")
 	for i, item := range b.orders {
 		if item.order > DescNullsLast {
-			b.pushError(fmt.Errorf("invalid order: %d", item.order))
-			continue
+			return nil, nil, fmt.Errorf("invalid order: %d", item.order)
 		}
 		if !b.distinct {
 			f.AppendFragments(sqlf.Ff(
@@ -56,10 +58,10 @@ func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
 		// pq: for SELECT DISTINCT, ORDER BY expressions must appear in select list
 		alias := fmt.Sprintf("_order_%d", i+1)
 		orderStr := orders[item.order]
-		b.touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
+		touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
 		f.AppendFragments(sqlf.F(
 			fmt.Sprintf("%s %s", alias, orderStr),
 		))
 	}
-	return f.BuildFragment(ctx)
+	return f, touches, nil
 }
-- 
2.43.0


From 19ab7ddb219118247ed62071f4ba8955ab3a584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 17/31] fix: commit the args of the select list in the order of
 their bindvars

---
 sqlb/query_builder_build.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 1c6260e..d0f4b4a 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -57,9 +57,17 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 		clauses = append(clauses, sq)
 	}
 
-	// reserve a position for select
-	selectAt := len(clauses)
-	clauses = append(clauses, "")
+	// the clauses must be built in the order they are written, so that the
+	// args are committed in the order of their bindvars.
+	orders, touches, err := b.prepareOrders()
+	if err != nil {
+		return "", err
+	}
+	sel, err := b.buildSelects(ctx, touches)
+	if err != nil {
+		return "", err
+	}
+	clauses = append(clauses, sel)
 	from, err := b.buildFrom(ctx, dep)
 	if err != nil {
 		return "", err
@@ -81,10 +89,6 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if groupby != "" {
 		clauses = append(clauses, groupby)
 	}
-	orders, touches, err := b.prepareOrders()
-	if err != nil {
-		return "", err
-	}
 	order, err := orders.BuildFragment(ctx)
 	if err != nil {
 		return "", err
@@ -98,11 +102,6 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b.offset > 0 {
 		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
 	}
-	sel, err := b.buildSelects(ctx, touches)
-	if err != nil {
-		return "", err
-	}
-	clauses[selectAt] = sel
 	query := strings.TrimSpace(strings.Join(clauses, " "))
 	if len(b.unions) > 0 {
 		union, err := b.buildUnion(ctx)
-- 
2.43.0


From 7ca1088c0751558c62a439356894dfde2ed1edcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 18/31] fix: don't write to the query builder while building it

---
 sqlb/query_builder.go       | 1 +
 sqlb/query_builder_build.go | 5 -----
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/sqlb/query_builder.go b/sqlb/query_builder.go
index acde3d5..24f3dba 100644
--- a/sqlb/query_builder.go
+++ b/sqlb/query_builder.go
@@ -48,6 +48,7 @@ func NewQueryBuilder() *QueryBuilder {
 // Distinct set the flag for SELECT DISTINCT.
 func (b *QueryBuilder) Distinct() *QueryBuilder {
 	b.distinct = true
+	b.selects.WithPrefix("SELECT DISTINCT")
 	return b
 }
 
diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index d0f4b4a..e7717a5 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -148,11 +148,6 @@ func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep *dependencies) (string,
 }
 
 func (b *QueryBuilder) buildSelects(ctx *sqlf.Context, orderColumns *sqlf.Fragment) (string, error) {
-	if b.distinct {
-		b.selects.Prefix = "SELECT DISTINCT"
-	} else {
-		b.selects.Prefix = "SELECT"
-	}
 	sel, err := b.selects.BuildFragment(ctx)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 96491d48afecd322980f4b95e55f2042a034cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 19/31] fix: don't accept references to a replaced FROM table

---
 sqlb/query_builder_join.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index bf0063f..e22d4f1 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -24,6 +24,10 @@ func (b *QueryBuilder) From(t TableAliased) *QueryBuilder {
 	if len(b.tables) == 0 {
 		b.tables = append(b.tables, table)
 	} else {
+		// the replaced table is not available any more
+		if replaced := b.tables[0]; b.tablesDict[replaced.Names.AppliedName()] == replaced {
+			delete(b.tablesDict, replaced.Names.AppliedName())
+		}
 		b.tables[0] = table
 	}
 	b.tablesDict[t.AppliedName()] = table
-- 
2.43.0


From ead8e9cdbd8133ac38b4d9ba5769ed6e7b5d579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 20/31] fix: don't replace the FROM table with a join of the
 same name

---
 sqlb/query_builder_join.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index e22d4f1..dbe5a71 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -115,6 +115,10 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 		Optional: optional,
 	}
 	if target, replacing := b.tablesDict[t.AppliedName()]; replacing {
+		if target == b.tables[0] {
+			b.pushError(fmt.Errorf("join table '%s' is already the FROM table", t.AppliedName()))
+			return b
+		}
 		*target = *table
 		return b
 	}
-- 
2.43.0


From e8b5ee680df5b6dde561347a72ebbdf26b0dbbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 21/31] fix: report a FROM table with the name of a joined one

---
 sqlb/query_builder_join.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index dbe5a71..dd2c872 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -12,6 +12,10 @@ func (b *QueryBuilder) From(t TableAliased) *QueryBuilder {
 		b.pushError(fmt.Errorf("from table is empty"))
 		return b
 	}
+	if joined, ok := b.tablesDict[t.AppliedName()]; ok && joined != b.tables[0] {
+		b.pushError(fmt.Errorf("from table '%s' is already joined", t.AppliedName()))
+		return b
+	}
 	tableAndAlias := string(t.Name)
 	if t.Alias != "" {
 		tableAndAlias = tableAndAlias + " AS " + string(t.Alias)
-- 
2.43.0


From 5c0c2f8d2f1d3790fefdf591429613e3114a3df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 22/31] fix: report missing args of Interpolate instead of
 panic

---
 util/interpolate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index 7149284..83bcf45 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -54,6 +54,9 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 		case *syntax.PlainExpr:
 			b.WriteString(decl.Text)
 		case *syntax.BindVarExpr:
+			if decl.Index < 1 || decl.Index > len(args) {
+				return "", fmt.Errorf("%s: no arg for bindvar %d", decl.Pos(), decl.Index)
+			}
 			v, err := encodeValue(args[decl.Index-1], opts)
 			if err != nil {
 				return "", err
-- 
2.43.0


From 4a405478fcea190de756baea17ee27b39ecffe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 23/31] fix: don't lose the precision of interpolated floats

---
 util/interpolate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/interpolate.go b/util/interpolate.go
index 83bcf45..660a28d 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -5,6 +5,7 @@ import (
 	"database/sql/driver"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 	"time"
 
@@ -110,7 +111,7 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			buf.WriteString(fmt.Sprintf("%d", primative.Uint()))
 		case reflect.Float32, reflect.Float64:
-			buf.WriteString(fmt.Sprintf("%f", primative.Float()))
+			buf.WriteString(strconv.FormatFloat(primative.Float(), 'f', -1, primative.Type().Bits()))
 		case reflect.String:
 			buf.Write(quoteStringValue(primative.String()))
 		default:
-- 
2.43.0


From 8f4f50d253b72565538de728645efa1edd34075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 24/31] fix: interpolate nil pointers as NULL instead of panic

---
 util/interpolate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index 660a28d..cfe546e 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -72,6 +72,10 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 
 func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 	buf := bytes.NewBuffer(nil)
+	if v := reflect.ValueOf(arg); v.Kind() == reflect.Pointer && v.IsNil() {
+		// as same as database/sql does
+		arg = nil
+	}
 	switch v := arg.(type) {
 	case nil:
 		buf.WriteString("NULL")
-- 
2.43.0


From d5446e9bfb62999ef4362369b643f048d4a13bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 25/31] fix: don't panic on nil pointers of slices in
 ArgsFlatted

---
 util/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/args.go b/util/args.go
index b685cd5..98bdad3 100644
--- a/util/args.go
+++ b/util/args.go
@@ -21,6 +21,10 @@ func ArgsFlatted(valueOrSlices ...any) []any {
 }
 
 func argsFrom(v any) []any {
+	if rv := reflect.ValueOf(v); rv.Kind() == reflect.Pointer && rv.IsNil() {
+		// nothing to extract
+		return []any{v}
+	}
 	switch a := v.(type) {
 	case []any:
 		return a
-- 
2.43.0


From d7d67d7a597485304d97a7335269eb39dac8a00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 26/31] fix: report errors of the rows iteration instead of
 partial results

---
 util/scan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/scan.go b/util/scan.go
index 0df3e6e..7d23223 100644
--- a/util/scan.go
+++ b/util/scan.go
@@ -46,6 +46,9 @@ func Scan[T any](db QueryAble, query string, args []any, fn NewScanDestFunc[T])
 		}
 		results = append(results, dest)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return results, nil
 }
 
-- 
2.43.0


From 063b94e38b1b518f7a2bccdab333088f04322084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 27/31] fix: reject names of functions which templates can't
 call

---
 func.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/func.go b/func.go
index 62b6f38..2846d25 100644
--- a/func.go
+++ b/func.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
-	"unicode"
 
 	"github.com/qjebbs/go-sqlf/v2/syntax"
 )
@@ -133,13 +132,14 @@ func addValueFuncs(out map[string]*funcInfo, in FuncMap) error {
 	return nil
 }
 
-// goodName reports whether the function name is a valid identifier.
+// goodName reports whether the function name is a valid identifier, which is
+// also what a template can call.
 func goodName(name string) bool {
 	if name == "" {
 		return false
 	}
 	for _, r := range name {
-		if r != '_' && !unicode.IsLetter(r) {
+		if r != '_' && (r < 'a' || r > 'z') && (r < 'A' || r > 'Z') {
 			return false
 		}
 	}
-- 
2.43.0


From 8476ef8a6c029ecf8dab91f9d7370337ce17f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:53 +0000
Subject: [PATCH 28/31] fix: double the quotes in interpolated times

---
 util/interpolate.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/util/interpolate.go b/util/interpolate.go
index cfe546e..58af1dc 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -96,9 +96,8 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 		}
 		// In SQL standard, the precision of fractional seconds in time literal is up to 6 digits.
 		v = v.Round(time.Microsecond)
-		buf.WriteRune('\'')
-		buf.WriteString(v.Format(opts.TimeFormat))
-		buf.WriteRune('\'')
+		// the format and the name of the location may have quotes
+		buf.Write(quoteStringValue(v.Format(opts.TimeFormat)))
 	case fmt.Stringer:
 		buf.Write(quoteStringValue(v.String()))
 	default:
-- 
2.43.0


From 2a30afceb88a77a53519d59a568b6328de03f1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:44 +0000
Subject: [PATCH 29/31] fix: return an error instead of panicking for nil
 columns

---
 sqlb/table_column.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlb/table_column.go b/sqlb/table_column.go
index 71f31f2..8f66510 100644
--- a/sqlb/table_column.go
+++ b/sqlb/table_column.go
@@ -1,6 +1,8 @@
 package sqlb
 
 import (
+	"errors"
+
 	"github.com/qjebbs/go-sqlf/v2"
 )
 
@@ -20,6 +22,9 @@ type Column struct {
 
 // BuildFragment implements FragmentBuilder
 func (c *Column) BuildFragment(ctx *sqlf.Context) (query string, err error) {
+	if c == nil {
+		return "", errors.New("nil column")
+	}
 	return c.fragment.BuildFragment(ctx)
 }
 
-- 
2.43.0


From c61845c2af913bf289c67060e020a422792c40fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:45 +0000
Subject: [PATCH 30/31] fix: return an error instead of panicking for nil
 unions and CTEs

---
 sqlb/query_builder_build.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index e7717a5..9d14ced 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -129,6 +129,9 @@ func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep *dependencies) (string,
 		if !dep.ctes[cte.name] {
 			continue
 		}
+		if cte.FragmentBuilder == nil {
+			return "", fmt.Errorf("CTE '%s' is nil", cte.name)
+		}
 		query, err := cte.BuildFragment(ctx)
 		if err != nil {
 			return "", fmt.Errorf("build CTE '%s': %w", cte.name, err)
@@ -182,7 +185,10 @@ func (b *QueryBuilder) buildFrom(ctx *sqlf.Context, dep *dependencies) (string,
 
 func (b *QueryBuilder) buildUnion(ctx *sqlf.Context) (string, error) {
 	clauses := make([]string, 0, len(b.unions))
-	for _, union := range b.unions {
+	for i, union := range b.unions {
+		if union == nil {
+			return "", fmt.Errorf("union %d is nil", i+1)
+		}
 		query, err := union.BuildFragment(ctx)
 		if err != nil {
 			return "", err
-- 
2.43.0


From 08d497f50ac5f6b9931b7694d762012b6f2706d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:33 +0000
Subject: [PATCH 31/31] fix: keep a minus apart from the negative numbers
 interpolated

---
 util/interpolate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index 58af1dc..42e8e8a 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -62,6 +62,10 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 			if err != nil {
 				return "", err
 			}
+			if bytes.HasPrefix(v, []byte("-")) && strings.HasSuffix(b.String(), "-") {
+				// or they start a comment
+				b.WriteByte(' ')
+			}
 			b.Write(v)
 		default:
 			return "", fmt.Errorf("%s: unsupported declaration", decl.Pos())
-- 
2.43.0

