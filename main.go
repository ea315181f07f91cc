package main

import (
	"fmt"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
)

type Q struct{ *sqlb.QueryBuilder }

func try(name string, f func() (any, any)) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Println(name, "PANIC", r)
		}
	}()
	a, b := f()
	fmt.Printf("%s %v %v\n", name, a, b)
}
func qb() *sqlb.QueryBuilder {
	return sqlb.NewQueryBuilder().From(sqlb.NewTableAliased("t", "")).Select(sqlb.Table("t").Column("c"))
}
func main() {
	bq := func(b *sqlb.QueryBuilder) func() (any, any) {
		return func() (any, any) { q, a, err := b.BuildQuery(syntax.Dollar); return fmt.Sprint(q, a), err }
	}
	try("union nil", bq(qb().Union(nil)))
	try("union nilcol", bq(qb().Union((*sqlb.Column)(nil))))
	try("with nil", bq(qb().With("t", nil)))
	try("with nilcol", bq(qb().With("t", (*sqlb.Column)(nil))))
	try("union emb nil", bq(qb().Union((*Q)(nil))))
	try("order nil", bq(qb().OrderBy(nil, 0)))
	try("order nil dist", bq(qb().Distinct().OrderBy(nil, 0)))
	try("where2 nil", bq(qb().Where2(nil, "=", 1)))
	try("in nil list", bq(qb().WhereIn(sqlb.Table("t").Column("c"), nil)))
	try("select nil", bq(qb().Select(nil)))
	try("zero", bq(new(sqlb.QueryBuilder)))
	try("zero2", bq(&sqlb.QueryBuilder{}))
	try("zero from", func() (any, any) { return bq(new(sqlb.QueryBuilder).From(sqlb.NewTableAliased("t", "")).Select(sqlb.Table("t").Column("c")))() })
	try("nilcol root", func() (any, any) { return (*sqlb.Column)(nil).BuildFragment(sqlf.NewContext(syntax.Dollar)) })
	try("zerocol root", func() (any, any) { return (&sqlb.Column{}).BuildFragment(sqlf.NewContext(syntax.Dollar)) })
	try("nilcol nilctx", func() (any, any) { return (&sqlb.Column{}).BuildFragment(nil) })
	try("qb nilctx", func() (any, any) { return qb().BuildFragment(nil) })
	try("qb nilctx", func() (any, any) { return qb().With("t", sqlf.F("a")).BuildFragment(nil) })
	try("zero ctx", func() (any, any) { return sqlf.Fa("$1", 1).BuildFragment(&sqlf.Context{}) })
	try("zero ctx2", func() (any, any) { return sqlf.F("a").BuildFragment(&sqlf.Context{}) })
	try("props", func() (any, any) { return sqlf.NewArgsProperties(1).Build(nil, 1) })
	try("propsf", func() (any, any) { return sqlf.NewFragmentProperties(nil).Build(sqlf.NewContext(1), 1) })
	try("frag nil", func() (any, any) { return sqlf.Ff("#f1", nil).BuildFragment(sqlf.NewContext(1)) })
	try("selffrag", func() (any, any) { return "skip", nil })
	try("ctxfuncs nil ctx", func() (any, any) { c, err := sqlf.ContextWithFuncs(nil, sqlf.FuncMap{"a": func() {}}); s, e := sqlf.F("#a()").BuildFragment(c); return s, fmt.Sprint(err, e) })
	try("ctxfuncs nil ctx2", func() (any, any) { c, err := sqlf.ContextWithFuncs(nil, sqlf.FuncMap{"a": func() {}}); s, e := sqlf.Fa("$1",1).BuildFragment(c); return s, fmt.Sprint(err, e) })
	try("interp", func() (any, any) { return util.Interpolate("?", []any{(*sqlb.Column)(nil)}) })
	try("style 7", func() (any, any) { return sqlf.Fa("?", 1).BuildFragment(sqlf.NewContext(7)) })
	try("self", func() (any, any) { return "", nil })
	try("nil opt", func() (any, any) { return util.Interpolate("?", []any{1}, nil) })
	try("colwith", func() (any, any) { return sqlb.ExprColumn(nil).BuildFragment(sqlf.NewContext(7)) })
	try("join nil on", bq(qb().LeftJoin(sqlb.NewTableAliased("u", ""), nil)))
	try("debug", func() (any, any) { b := qb(); b.Debug(); return bq(b)() })
	try("nil debug where", func() (any, any) { b := qb().Where(sqlf.Fa("x=$1", []int{1})); b.Debug(); return bq(b)() })
}
