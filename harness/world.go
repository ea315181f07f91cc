package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"reflect"
	"strconv"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
)

func init() { log.SetOutput(io.Discard) }

// Node describes a builder.
type Node struct {
	K      string  `json:"k"`
	ID     string  `json:"id,omitempty"`
	Raw    string  `json:"raw,omitempty"`
	Args   []Val   `json:"args,omitempty"`
	Frags  []*Node `json:"frags,omitempty"`
	Prefix string  `json:"prefix,omitempty"`
	Suffix string  `json:"suffix,omitempty"`
	Name   string  `json:"name,omitempty"`
	Alias  string  `json:"alias,omitempty"`
	Tn     string  `json:"tn,omitempty"`
	Ta     string  `json:"ta,omitempty"`
	Anon   bool    `json:"anon,omitempty"`
	Frag   *Node   `json:"frag,omitempty"`
	Parts  []*Part `json:"parts,omitempty"`
}

// Part is a part of a custom builder.
type Part struct {
	P string `json:"p"`
	S string `json:"s,omitempty"`
	V Val    `json:"v,omitempty"`
	N *Node  `json:"n,omitempty"`
}

// FnSpec describes a custom function.
type FnSpec struct {
	Kind string   `json:"kind"`
	ID   string   `json:"id"`
	In   []string `json:"in"`
	Var  bool     `json:"var"`
	Out  []string `json:"out"`
	Beh  struct {
		K     string    `json:"k"`
		Items []string  `json:"items"`
		Args  []Val     `json:"args"`
		Frags []*Node   `json:"frags"`
		Parts []*Part   `json:"parts"`
		Funcs []NamedFn `json:"funcs"`
		N     *Node     `json:"n"`
	} `json:"beh"`
}

// NamedFn is a function with the name it is registered under.
type NamedFn struct {
	Name string  `json:"name"`
	Fn   *FnSpec `json:"fn"`
}

// FlatVal is a value given to ArgsFlatted.
type FlatVal struct {
	K    string `json:"k"`
	E    []Val  `json:"e"`
	Form string `json:"form"`
	Et   string `json:"et"`
}

// Op is an operation of a script.
type Op struct {
	Op     string    `json:"op"`
	ID     string    `json:"id"`
	Node   *Node     `json:"node"`
	M      string    `json:"m"`
	Raw    string    `json:"raw"`
	Args   []Val     `json:"args"`
	Frags  []*Node   `json:"frags"`
	Style  string    `json:"style"`
	Parent string    `json:"parent"`
	Ctx    string    `json:"ctx"`
	Funcs  []NamedFn `json:"funcs"`
	V      Val       `json:"v"`

	T    *Node     `json:"t"`
	Kind string    `json:"kind"`
	On   *Node     `json:"on"`
	Opt  bool      `json:"opt"`
	Cols []*Node   `json:"cols"`
	N    *Node     `json:"n"`
	Col  *Node     `json:"col"`
	Cmp  string    `json:"cmp"`
	Not  bool      `json:"not"`
	List []FlatVal `json:"list"`
	Dir  int       `json:"dir"`
	Num  string    `json:"num"`
	Ns   []*Node   `json:"ns"`
	Name string    `json:"name"`
	Deps []string  `json:"deps"`
	Fmt  string    `json:"fmt"`
	Scan *ScanSpec `json:"scan"`
	Conc *ConcSpec `json:"conc"`
}

// Res is the observed result of an operation.
type Res struct {
	S     string `json:"s"` // ok, err, panic, timeout, crash
	T     string `json:"t"`
	Args  []Val  `json:"args"`
	Log   []Call `json:"log"`
	Exprs any    `json:"exprs,omitempty"`
	D     *Res   `json:"d,omitempty"`
	Q     *Res   `json:"q,omitempty"`
	Frag  any    `json:"frag,omitempty"`
	Scan  any    `json:"scan,omitempty"`
	Rs    []*Res `json:"rs,omitempty"`
	Alone []*Res `json:"alone,omitempty"`
	Lists any    `json:"lists,omitempty"`
	Msg   string `json:"msg,omitempty"`
}

// Call is a recorded call of a custom function.
type Call struct {
	ID   string   `json:"id"`
	Args []string `json:"args"`
}

type world struct {
	pool    *pool
	objs    map[string]any
	specs   map[string]*Node
	ctxs    map[string]*sqlf.Context
	given   []given
	log     []Call
	gate    func()          // called at the gates of custom builders
	keep    bool            // arguments handed out are kept
	refused map[string]bool // contexts which could not be made
	quiet   bool            // calls are not logged, the world is used concurrently
}

// given are arguments handed out by a build, own if they are the caller's own.
type given struct {
	args []any
	own  bool
}

func newWorld() *world {
	return &world{
		pool: newPool(),
		objs: map[string]any{}, specs: map[string]*Node{}, ctxs: map[string]*sqlf.Context{}, refused: map[string]bool{},
	}
}

type custom struct {
	w     *world
	parts []*Part
}

func (c *custom) BuildFragment(ctx *sqlf.Context) (string, error) {
	b := new(strings.Builder)
	for _, p := range c.parts {
		switch p.P {
		case "t":
			b.WriteString(decText(p.S))
		case "a":
			b.WriteString(ctx.CommitArg(c.w.pool.value(p.V)))
		case "n":
			s, err := c.w.builder(p.N).BuildFragment(ctx)
			if err != nil {
				return "", err
			}
			b.WriteString(s)
		case "gate":
			if c.w.gate != nil {
				c.w.gate()
			}
		case "err":
			return "", errors.New("custom builder error")
		case "idx":
			return "", fmt.Errorf("custom: %w", sqlf.ErrInvalidIndex)
		case "panic":
			panic("custom builder panic")
		default:
			panic(harnessError("unknown part " + p.P))
		}
	}
	return b.String(), nil
}

func (w *world) builders(ns []*Node) []sqlf.FragmentBuilder {
	r := make([]sqlf.FragmentBuilder, 0, len(ns))
	for _, n := range ns {
		r = append(r, w.builder(n))
	}
	return r[:len(r):len(r)]
}

func (w *world) builder(n *Node) sqlf.FragmentBuilder {
	switch n.K {
	case "ref":
		o, ok := w.objs[n.ID]
		if !ok {
			panic(harnessError("unknown object " + n.ID))
		}
		return o.(sqlf.FragmentBuilder)
	case "frag":
		return &sqlf.Fragment{
			Raw: decText(n.Raw), Args: exact(w.pool.values(n.Args)), Fragments: w.builders(n.Frags),
			Prefix: decText(n.Prefix), Suffix: decText(n.Suffix),
		}
	case "nil":
		return nil
	case "nilfrag":
		return (*sqlf.Fragment)(nil)
	case "nilcol":
		return (*sqlb.Column)(nil)
	case "nilqb":
		return (*sqlb.QueryBuilder)(nil)
	case "cust":
		return &custom{w, n.Parts}
	case "table":
		return sqlb.Table(decText(n.Name))
	case "tablea":
		return sqlb.NewTableAliased(sqlb.Table(decText(n.Name)), sqlb.Table(decText(n.Alias)))
	case "col":
		name := decText(n.Name)
		if n.Ta != "" {
			t := sqlb.NewTableAliased(sqlb.Table(n.Tn), "").WithAlias(sqlb.Table(n.Ta))
			if n.Anon {
				return t.AnonymousColumn(name)
			}
			return t.Columns(name)[0]
		}
		if n.Anon {
			return sqlb.Table(n.Tn).AnonymousColumns(name)[0]
		}
		return sqlb.Table(n.Tn).Column(name)
	case "expr":
		f, _ := w.builder(n.Frag).(*sqlf.Fragment)
		return sqlb.ExprColumns(f)[0]
	case "qb":
		return sqlb.NewQueryBuilder()
	}
	panic(harnessError("unknown node " + n.K))
}

func exact(a []any) []any { return a[:len(a):len(a)] }

func (w *world) column(n *Node) *sqlb.Column {
	c, _ := w.builder(n).(*sqlb.Column)
	return c
}

func (w *world) columns(ns []*Node) []*sqlb.Column {
	r := make([]*sqlb.Column, 0, len(ns))
	for _, n := range ns {
		r = append(r, w.column(n))
	}
	return r
}

func (w *world) fragment(n *Node) *sqlf.Fragment {
	if n == nil || n.K == "none" {
		return nil
	}
	f, _ := w.builder(n).(*sqlf.Fragment)
	return f
}

func (w *world) funcMap(fs []NamedFn) sqlf.FuncMap {
	m := sqlf.FuncMap{}
	for _, f := range fs {
		m[decText(f.Name)] = w.function(f.Fn)
	}
	return m
}

var ctxType = reflect.TypeOf((*sqlf.Context)(nil))

func fnType(t string) reflect.Type {
	if t == "ctx" {
		return ctxType
	}
	r, ok := goTypes[t]
	if !ok {
		panic(harnessError("unknown type " + t))
	}
	return r
}

func (w *world) function(f *FnSpec) any {
	switch f.Kind {
	case "nil":
		return nil
	case "notfunc":
		return f.ID
	}
	var in, out []reflect.Type
	for i, t := range f.In {
		x := fnType(t)
		if f.Var && i == len(f.In)-1 {
			x = reflect.SliceOf(x)
		}
		in = append(in, x)
	}
	for _, t := range f.Out {
		out = append(out, fnType(t))
	}
	typ := reflect.FuncOf(in, out, f.Var)
	if f.Beh.K == "nilfunc" {
		return reflect.Zero(typ).Interface()
	}
	// properties are shared by all calls of the function
	var props sqlf.Properties
	switch f.Beh.K {
	case "args":
		props = sqlf.NewArgsProperties(w.pool.values(f.Beh.Args)...)
	case "frags":
		props = sqlf.NewFragmentProperties(w.builders(f.Beh.Frags)...)
	}
	return reflect.MakeFunc(typ, func(args []reflect.Value) []reflect.Value {
		s, err := w.call(f, props, args)
		if err != nil && len(out) < 2 {
			panic(err)
		}
		r := make([]reflect.Value, len(out))
		for i, t := range out {
			switch {
			case t.Kind() == reflect.String:
				r[i] = reflect.ValueOf(s).Convert(t)
			case i == 1 && err != nil:
				r[i] = reflect.ValueOf(&err).Elem()
			default:
				r[i] = reflect.Zero(t)
			}
		}
		return r
	}).Interface()
}

func (w *world) call(f *FnSpec, props sqlf.Properties, args []reflect.Value) (string, error) {
	var ctx *sqlf.Context
	if len(args) > 0 && args[0].Type() == ctxType {
		ctx = args[0].Interface().(*sqlf.Context)
		args = args[1:]
	}
	if f.Var {
		last := args[len(args)-1]
		flat := append([]reflect.Value(nil), args[:len(args)-1]...)
		for i := 0; i < last.Len(); i++ {
			flat = append(flat, last.Index(i))
		}
		args = flat
	}
	vals := make([]string, 0, len(args))
	for _, a := range args {
		vals = append(vals, encText(renderArg(a)))
	}
	if !w.quiet {
		w.log = append(w.log, Call{f.ID, vals})
	}
	i := 0
	if len(vals) > 0 {
		i, _ = strconv.Atoi(vals[0])
	}
	switch f.Beh.K {
	case "echo":
		return "<" + f.ID + ":" + decText(strings.Join(vals, "|")) + ">", nil
	case "err":
		return "ignored", errors.New("custom function error")
	case "idx":
		return "", fmt.Errorf("custom function: %w", sqlf.ErrInvalidIndex)
	case "panic":
		switch f.ID[len(f.ID)-1] {
		case '1':
			panic(errors.New("error panic"))
		case '2':
			var p *int
			*p = 1
		case '3':
			panic(42)
		}
		panic("string panic")
	case "panicidx":
		panic(fmt.Errorf("panic: %w", sqlf.ErrInvalidIndex))
	case "list":
		if i < 1 || i > len(f.Beh.Items) {
			return "", sqlf.ErrInvalidIndex
		}
		return decText(f.Beh.Items[i-1]), nil
	case "args", "frags":
		return props.Build(ctx, i)
	case "parts":
		return (&custom{w, f.Beh.Parts}).BuildFragment(ctx)
	case "gate":
		if w.gate != nil {
			w.gate()
		}
		return "", nil
	case "scope":
		c, err := sqlf.ContextWithFuncs(ctx, w.funcMap(f.Beh.Funcs))
		if err != nil {
			return "", err
		}
		return w.builder(f.Beh.N).BuildFragment(c)
	}
	panic(harnessError("unknown behaviour " + f.Beh.K))
}

func renderArg(a reflect.Value) string {
	switch a.Kind() {
	case reflect.String:
		return a.String()
	case reflect.Bool:
		return strconv.FormatBool(a.Bool())
	case reflect.Float32:
		return ftoa(a.Float(), 32)
	case reflect.Float64:
		return ftoa(a.Float(), 64)
	}
	return fmt.Sprintf("%d", a.Interface())
}

func style(s string) syntax.BindVarStyle {
	if s == "$" {
		return syntax.Dollar
	}
	return syntax.Question
}

func (w *world) result(t string, args []any, err error) *Res {
	r := &Res{S: "ok", T: encText(t), Args: w.pool.describeAll(args)}
	if err != nil {
		r.S = "err"
		r.Msg = encText(err.Error())
	}
	return r
}

type queryBuilder interface {
	BuildQuery(bindVarStyle syntax.BindVarStyle) (query string, args []any, err error)
}

func (w *world) handedOut(args []any, own bool, err error) {
	if w.keep && err == nil {
		w.given = append(w.given, given{args, own})
	}
}

func (w *world) query(n *Node, s string) *Res {
	o := w.builder(n)
	if q, ok := o.(queryBuilder); ok {
		t, args, err := q.BuildQuery(style(s))
		w.handedOut(args, true, err)
		return w.result(t, args, err)
	}
	ctx := sqlf.NewContext(style(s))
	t, err := o.BuildFragment(ctx)
	if err != nil {
		return w.result("", nil, err)
	}
	w.handedOut(ctx.Args(), true, nil)
	return w.result(t, ctx.Args(), nil)
}

func (w *world) context(id string) *sqlf.Context {
	c, ok := w.ctxs[id]
	if !ok && w.refused[id] {
		panic(endOfScript{})
	}
	if !ok {
		panic(harnessError("unknown context " + id))
	}
	return c
}

// safely executes fn, a panic becomes a result
func safely(fn func() *Res) (res *Res) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case harnessError, endOfScript:
				panic(e)
			}
			res = &Res{S: "panic", Msg: encText(fmt.Sprint(e))}
		}
	}()
	return fn()
}

func (w *world) do(op *Op) *Res {
	w.log = nil
	w.keep = op.Op == "query" || op.Op == "build" || op.Op == "commit"
	res := safely(func() *Res { return w.do1(op) })
	if res.Log == nil {
		res.Log = w.log
	}
	for _, r := range []*Res{res.D, res.Q} {
		if r != nil {
			fill([]*Res{r})
		}
	}
	if res.Args == nil {
		res.Args = []Val{}
	}
	if res.Log == nil {
		res.Log = []Call{}
	}
	return res
}

func (w *world) do1(op *Op) *Res {
	ok := &Res{S: "ok"}
	switch op.Op {
	case "def":
		w.objs[op.ID] = w.builder(op.Node)
		return ok
	case "mut":
		f := w.objs[op.ID].(*sqlf.Fragment)
		switch op.M {
		case "raw":
			f.Raw = decText(op.Raw)
		case "prefix":
			f.WithPrefix(decText(op.Raw))
		case "suffix":
			f.WithSuffix(decText(op.Raw))
		case "args":
			f.WithArgs(exact(w.pool.values(op.Args))...)
		case "aargs":
			// the capacity is exact, appending never writes to a shared array
			f.Args = exact(f.Args)
			f.AppendArgs(w.pool.values(op.Args)...)
		case "frags":
			f.WithFragments(w.builders(op.Frags)...)
		case "afrags":
			f.Fragments = f.Fragments[:len(f.Fragments):len(f.Fragments)]
			f.AppendFragments(w.builders(op.Frags)...)
		default:
			panic(harnessError("unknown mutation " + op.M))
		}
		return ok
	case "ctx":
		w.ctxs[op.ID] = sqlf.NewContext(style(op.Style))
		return ok
	case "ctxf":
		c, err := sqlf.ContextWithFuncs(w.context(op.Parent), w.funcMap(op.Funcs))
		if err != nil {
			w.refused[op.ID] = true
			return w.result("", nil, err)
		}
		w.ctxs[op.ID] = c
		return ok
	case "build":
		ctx := w.context(op.Ctx)
		t, err := w.builder(op.N).BuildFragment(ctx)
		w.handedOut(ctx.Args(), false, err)
		return w.result(t, ctx.Args(), err)
	case "commit":
		ctx := w.context(op.Ctx)
		t := ctx.CommitArg(w.pool.value(op.V))
		w.handedOut(ctx.Args(), false, nil)
		return w.result(t, ctx.Args(), nil)
	case "query":
		return w.query(op.N, op.Style)
	case "recall":
		lists := [][]Val{}
		for _, g := range w.given {
			lists = append(lists, w.pool.describeAll(g.args))
		}
		return &Res{S: "ok", Lists: lists}
	case "scribble":
		for _, g := range w.given {
			for i := range g.args {
				if g.own {
					g.args[i] = "scribble"
				}
			}
		}
		return ok
	case "both":
		return &Res{S: "ok", D: w.query(op.N, "$"), Q: w.query(op.N, "?")}
	case "insp":
		return &Res{S: "ok", Frag: w.inspect(w.objs[op.ID].(*sqlf.Fragment))}
	case "parse":
		return w.parse(decText(op.Raw))
	case "interp":
		t, err := util.Interpolate(decText(op.Raw), w.pool.values(op.Args), interpOptions(op.Fmt)...)
		return w.result(t, nil, err)
	case "interpq":
		one := func(s string) *Res {
			q := w.query(op.N, s)
			if q.S != "ok" {
				return q
			}
			t, err := util.Interpolate(decText(q.T), w.pool.values(q.Args), interpOptions(op.Fmt)...)
			return w.result(t, nil, err)
		}
		return &Res{S: "ok", D: one("$"), Q: one("?")}
	case "flat":
		// the list is the caller's own: overwriting it changes nothing given
		list := w.flats(op.List)
		flat := util.ArgsFlatted(list...)
		res := w.result("", flat, nil)
		for i := range flat {
			flat[i] = "scribble"
		}
		res.Lists = [][]Val{w.pool.describeAll(util.ArgsFlatted(list...))}
		return res
	case "scan":
		return w.scan(op.Scan)
	case "conc":
		return w.conc(op.Conc)
	case "qb":
		return w.qb(op)
	}
	panic(harnessError("unknown op " + op.Op))
}

func (w *world) qb(op *Op) *Res {
	q := w.objs[op.ID].(*sqlb.QueryBuilder)
	table := func() sqlb.TableAliased {
		return sqlb.NewTableAliased(sqlb.Table(decText(op.T.Name)), sqlb.Table(decText(op.T.Alias)))
	}
	num := func() int64 {
		n, err := strconv.ParseInt(op.Num, 10, 64)
		must(err)
		return n
	}
	switch op.M {
	case "from":
		q.From(table())
	case "join":
		on := w.fragment(op.On)
		switch op.Kind {
		case "INNER JOIN":
			q.InnerJoin(table(), on)
		case "LEFT JOIN":
			if op.Opt {
				q.LeftJoinOptional(table(), on)
			} else {
				q.LeftJoin(table(), on)
			}
		case "RIGHT JOIN":
			q.RightJoin(table(), on)
		case "FULL JOIN":
			q.FullJoin(table(), on)
		case "CROSS JOIN":
			q.CrossJoin(table())
		default:
			panic(harnessError("unknown join " + op.Kind))
		}
	case "select":
		q.Select(w.columns(op.Cols)...)
	case "where":
		q.Where(w.fragment(op.N))
	case "where2":
		q.Where2(w.column(op.Col), decText(op.Cmp), w.pool.value(op.V))
	case "in":
		list := w.flats(op.List)[0]
		if op.Not {
			q.WhereNotIn(w.column(op.Col), list)
		} else {
			q.WhereIn(w.column(op.Col), list)
		}
		if op.List[0].K == "many" {
			overwrite(list)
		}
	case "group":
		q.GroupBy(w.columns(op.Cols)...)
	case "order":
		q.OrderBy(w.column(op.Col), sqlb.Order(op.Dir))
	case "limit":
		q.Limit(num())
	case "offset":
		q.Offset(num())
	case "union":
		q.Union(w.builders(op.Ns)...)
	case "with":
		deps := make([]sqlb.Table, 0)
		for _, d := range op.Deps {
			deps = append(deps, sqlb.Table(decText(d)))
		}
		q.With(sqlb.Table(decText(op.Name)), w.builder(op.N), deps...)
	case "distinct":
		q.Distinct()
	case "debug":
		q.Debug()
	default:
		panic(harnessError("unknown builder call " + op.M))
	}
	return &Res{S: "ok"}
}

func (w *world) inspect(f *sqlf.Fragment) any {
	frags := []string{}
	for _, b := range f.Fragments {
		id := "?"
		for n, o := range w.objs {
			if p, ok := o.(*sqlf.Fragment); ok {
				if q, ok := b.(*sqlf.Fragment); ok && p == q {
					id = n
				}
			} else if c, ok := o.(*sqlb.Column); ok {
				if d, ok := b.(*sqlb.Column); ok && c == d {
					id = n
				}
			} else if c, ok := o.(*custom); ok {
				if d, ok := b.(*custom); ok && c == d {
					id = n
				}
			} else if c, ok := o.(*sqlb.QueryBuilder); ok {
				if d, ok := b.(*sqlb.QueryBuilder); ok && c == d {
					id = n
				}
			}
		}
		frags = append(frags, id)
	}
	return map[string]any{
		"raw": encText(f.Raw), "prefix": encText(f.Prefix), "suffix": encText(f.Suffix),
		"args": w.pool.describeAll(f.Args), "frags": frags,
	}
}

func (w *world) parse(raw string) *Res {
	c, err := syntax.Parse(raw)
	if err != nil {
		return w.result("", nil, err)
	}
	exprs := make([]any, 0)
	for _, e := range c.ExprList {
		pos := e.Pos()
		switch x := e.(type) {
		case *syntax.PlainExpr:
			exprs = append(exprs, map[string]any{"k": "t", "s": encText(x.Text)})
		case *syntax.BindVarExpr:
			q := "?"
			if x.Type == syntax.Dollar {
				q = "$"
			}
			exprs = append(exprs, map[string]any{"k": "b", "q": q, "i": strconv.Itoa(x.Index), "line": pos.Line(), "col": pos.Col()})
		case *syntax.FuncExpr:
			exprs = append(exprs, map[string]any{"k": "f", "name": encText(x.Name), "line": pos.Line(), "col": pos.Col()})
		case *syntax.FuncCallExpr:
			args := make([]any, 0)
			for _, a := range x.Args {
				k, v := "?", fmt.Sprintf("%T", a)
				switch y := a.(type) {
				case nil:
					k, v = "nil", ""
				case bool:
					k, v = "bool", strconv.FormatBool(y)
				case string:
					k, v = "str", encText(y)
				case float64:
					k, v = "num", ftoa(y, 64)
				case int, int64, uint64:
					k, v = "num", fmt.Sprint(y)
				}
				args = append(args, map[string]any{"k": k, "v": v})
			}
			exprs = append(exprs, map[string]any{"k": "c", "name": encText(x.Name), "args": args, "line": pos.Line(), "col": pos.Col()})
		default:
			exprs = append(exprs, map[string]any{"k": "t", "s": fmt.Sprintf("?%T", e)})
		}
	}
	return &Res{S: "ok", Exprs: exprs}
}

func interpOptions(f string) []util.InterpolateOption {
	if f == "" {
		return nil
	}
	return []util.InterpolateOption{util.WithTimeFormat(f)}
}

// overwrite changes the elements of a list which was given to a builder
func overwrite(list any) {
	v := reflect.ValueOf(list)
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
		return
	}
	for i := 0; i < v.Len(); i++ {
		if e := v.Index(i); e.CanSet() {
			e.Set(reflect.Zero(e.Type()))
		}
	}
}

// flats makes the values to flatten
func (w *world) flats(list []FlatVal) []any {
	r := make([]any, 0, len(list))
	for _, x := range list {
		r = append(r, w.flat(x))
	}
	return r
}

func (w *world) flat(x FlatVal) any {
	if x.K == "one" {
		return w.pool.value(x.E[0])
	}
	et := goTypes[x.Et]
	if et == nil {
		panic(harnessError("unknown element type " + x.Et))
	}
	n := len(x.E)
	fill := func(v reflect.Value) {
		for i, e := range x.E {
			val := w.pool.value(e)
			if val != nil {
				v.Index(i).Set(reflect.ValueOf(val))
			}
		}
	}
	switch x.Form {
	case "slice", "ptrslice":
		v := reflect.New(reflect.SliceOf(et))
		v.Elem().Set(reflect.MakeSlice(reflect.SliceOf(et), n, n))
		fill(v.Elem())
		if x.Form == "ptrslice" {
			return v.Interface()
		}
		return v.Elem().Interface()
	case "named":
		s := make(myslice, n)
		fill(reflect.ValueOf(s))
		return s
	case "array", "ptrarray":
		v := reflect.New(reflect.ArrayOf(n, et))
		fill(v.Elem())
		if x.Form == "ptrarray" {
			return v.Interface()
		}
		return v.Elem().Interface()
	case "nilslice":
		return reflect.Zero(reflect.SliceOf(et)).Interface()
	case "ptrnilslice":
		return reflect.New(reflect.SliceOf(et)).Interface()
	}
	panic(harnessError("unknown form " + x.Form))
}

var _ = json.Marshal
