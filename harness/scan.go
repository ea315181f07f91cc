package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"strconv"
	"sync"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/util"
)

// ScanSpec describes a call of Scan, ScanBuilder, Count or CountBuilder on a
// scripted database.
type ScanSpec struct {
	Kind  string `json:"kind"` // scan, scanb, count, countb
	Raw   string `json:"raw"`
	Args  []Val  `json:"args"`
	N     *Node  `json:"n"`
	Style string `json:"style"`
	Cols  int    `json:"cols"`
	Rows  int    `json:"rows"`
	Dest  int    `json:"dest"`
	Fault string `json:"fault"` // none, query, next, scan, close
	At    int    `json:"at"`    // row of the fault
}

type scanObs struct {
	Rows    [][]string `json:"rows"`
	Count   string     `json:"count"`
	Queries int        `json:"queries"`
	Query   string     `json:"query"`
	Args    []Val      `json:"args"`
	Opened  int        `json:"opened"`
	Closed  int        `json:"closed"`
	NilRows bool       `json:"nilrows"`
}

var errFault = errors.New("scripted fault")

type scriptedDB struct {
	mu   sync.Mutex
	w    *world
	spec *ScanSpec
	obs  *scanObs
}

func (d *scriptedDB) Connect(context.Context) (driver.Conn, error) { return &scriptedConn{d}, nil }
func (d *scriptedDB) Driver() driver.Driver                        { return nil }

type scriptedConn struct{ d *scriptedDB }

func (c *scriptedConn) Prepare(string) (driver.Stmt, error) { return nil, errors.New("no prepare") }
func (c *scriptedConn) Close() error                        { return nil }
func (c *scriptedConn) Begin() (driver.Tx, error)           { return nil, errors.New("no tx") }

// CheckNamedValue keeps the args as they are given
func (c *scriptedConn) CheckNamedValue(*driver.NamedValue) error { return nil }

func (c *scriptedConn) QueryContext(_ context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
	d := c.d
	d.mu.Lock()
	defer d.mu.Unlock()
	d.obs.Queries++
	d.obs.Query = encText(query)
	d.obs.Args = []Val{}
	for _, a := range args {
		d.obs.Args = append(d.obs.Args, d.w.pool.describe(a.Value))
	}
	if d.spec.Fault == "query" {
		return nil, errFault
	}
	d.obs.Opened++
	return &scriptedRows{d: d}, nil
}

type scriptedRows struct {
	d *scriptedDB
	i int
}

func (r *scriptedRows) Columns() []string {
	c := make([]string, r.d.spec.Cols)
	for i := range c {
		c[i] = "c" + strconv.Itoa(i+1)
	}
	return c
}

func (r *scriptedRows) Close() error {
	r.d.mu.Lock()
	defer r.d.mu.Unlock()
	r.d.obs.Closed++
	if r.d.spec.Fault == "close" {
		return errFault
	}
	return nil
}

func (r *scriptedRows) Next(dest []driver.Value) error {
	r.i++
	s := r.d.spec
	if s.Fault == "next" && r.i == s.At {
		return errFault
	}
	if r.i > s.Rows {
		return io.EOF
	}
	for j := range dest {
		dest[j] = int64(r.i*100 + j + 1)
		if s.Fault == "scan" && r.i == s.At && j == 0 {
			dest[j] = "not a number"
		}
		if s.Fault == "null" && r.i == s.At && j == 0 {
			dest[j] = nil
		}
	}
	return nil
}

func (w *world) scan(s *ScanSpec) *Res {
	obs := &scanObs{Rows: [][]string{}, Args: []Val{}}
	db := sql.OpenDB(&scriptedDB{w: w, spec: s, obs: obs})
	defer db.Close()
	type row struct{ f []int64 }
	dest := func() (*row, []any) {
		r := &row{make([]int64, s.Dest)}
		fields := make([]any, s.Dest)
		for i := range r.f {
			fields[i] = &r.f[i]
		}
		return r, exact(fields)
	}
	var rows []*row
	var n int64
	var err error
	var b sqlf.QueryBuilder
	if s.N != nil {
		b = w.builder(s.N).(sqlf.QueryBuilder)
	}
	switch s.Kind {
	case "scan":
		rows, err = util.Scan(db, decText(s.Raw), w.pool.values(s.Args), dest)
	case "scanb":
		rows, err = util.ScanBuilder(db, b, style(s.Style), dest)
	case "count":
		n, err = util.Count(db, decText(s.Raw), w.pool.values(s.Args))
	case "countb":
		n, err = util.CountBuilder(db, b, style(s.Style))
	default:
		panic(harnessError("unknown scan " + s.Kind))
	}
	for _, r := range rows {
		fs := []string{}
		for _, f := range r.f {
			fs = append(fs, strconv.FormatInt(f, 10))
		}
		obs.Rows = append(obs.Rows, fs)
	}
	obs.Count = strconv.FormatInt(n, 10)
	obs.NilRows = rows == nil
	res := w.result("", nil, err)
	o := *obs // before db.Close releases anything
	res.Scan = &o
	return res
}
