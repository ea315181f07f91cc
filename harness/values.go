package main

import (
	"database/sql/driver"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Val is an argument value: its Go type and its text.
type Val struct {
	T string `json:"t"`
	V string `json:"v"`
}

type (
	myint    int
	myfloat  float64
	mystring string
	mybool   bool
	point    struct{ X, Y int }
	ustruct  struct{ S []int }
	ifs      struct{ V any }
	myslice  []int
)

type stringer struct{ s string }

func (s stringer) String() string { return s.s }

// valstr has both a Value and a String.
type valstr struct{ v any }

func (v valstr) Value() (driver.Value, error) { return v.v, nil }
func (v valstr) String() string               { return "not this" }

// strenum is a number with a name.
type strenum int

var strenums = []string{"zero", "o'ne", "$2"}

func (s strenum) String() string { return strenums[s] }

// valenum is a number with another value.
type valenum int

func (v valenum) Value() (driver.Value, error) { return int64(v) * 10, nil }

// myerr implements error.
type myerr struct{}

func (myerr) Error() string { return "myerr" }

type valuer struct {
	v   any
	err error
}

func (v valuer) Value() (driver.Value, error) { return v.v, v.err }

type ptrValuer struct{ v any }

func (v *ptrValuer) Value() (driver.Value, error) { return v.v, nil }

var goTypes = map[string]reflect.Type{
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)),
	"int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)),
	"uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
	"string": reflect.TypeOf(""), "bool": reflect.TypeOf(false),
	"myint": reflect.TypeOf(myint(0)), "myfloat": reflect.TypeOf(myfloat(0)),
	"mystring": reflect.TypeOf(mystring("")), "mybool": reflect.TypeOf(mybool(false)),
	"any": reflect.TypeOf((*any)(nil)).Elem(), "error": reflect.TypeOf((*error)(nil)).Elem(),
	"[]int": reflect.TypeOf([]int(nil)), "[]string": reflect.TypeOf([]string(nil)), "[]any": reflect.TypeOf([]any(nil)),
	"[]byte": reflect.TypeOf([]byte(nil)),
	"*int":   reflect.TypeOf((*int)(nil)), "point": reflect.TypeOf(point{}),
	"complex128": reflect.TypeOf(complex128(0)), "uintptr": reflect.TypeOf(uintptr(0)),
	"func": reflect.TypeOf(func() {}), "chan": reflect.TypeOf(make(chan int)), "map": reflect.TypeOf(map[string]int{}),
	"myerr": reflect.TypeOf(myerr{}), "*myerr": reflect.TypeOf((*myerr)(nil)), "Stringer": reflect.TypeOf((*fmt.Stringer)(nil)).Elem(),
	"stringer": reflect.TypeOf(stringer{}), "time": reflect.TypeOf(time.Time{}),
}

// pointers and functions are identified by name
type pool struct {
	mu    sync.Mutex
	ptrs  map[string]*int
	known map[Val]any
}

func newPool() *pool { return &pool{ptrs: map[string]*int{}, known: map[Val]any{}} }

// identical reports whether values of the type are equal only when they are made once
func identical(t string) bool {
	return t == "**[]int" || t == "*stringer" || t == "time" || strings.HasPrefix(t, "ptrvaluer:")
}

func (p *pool) value(v Val) any {
	if !identical(v.T) {
		return p.make(v)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	x, ok := p.known[v]
	if !ok {
		x = p.make(v)
		p.known[v] = x
	}
	return x
}

func (p *pool) make(v Val) any {
	s := decText(v.V)
	if i := strings.IndexByte(v.T, ':'); i >= 0 {
		rest := v.T[i+1:]
		switch v.T[:i] {
		case "valuer":
			return valuer{v: p.make(Val{rest, v.V})}
		case "valstr":
			return valstr{p.make(Val{rest, v.V})}
		case "ptrvaluer":
			return &ptrValuer{v: p.make(Val{rest, v.V})}
		case "nilptr":
			switch rest {
			case "valuer":
				return (*valuer)(nil)
			case "ptrvaluer":
				return (*ptrValuer)(nil)
			case "stringer":
				return (*stringer)(nil)
			case "[3]int":
				return (*[3]int)(nil)
			}
			return reflect.Zero(reflect.PointerTo(goTypes[rest])).Interface()
		case "nilslice":
			return reflect.Zero(reflect.SliceOf(goTypes[rest])).Interface()
		}
	}
	switch v.T {
	case "nil":
		return nil
	case "int", "int8", "int16", "int32", "int64", "myint":
		n, err := strconv.ParseInt(s, 10, 64)
		must(err)
		return reflect.ValueOf(n).Convert(goTypes[v.T]).Interface()
	case "uint", "uint8", "uint16", "uint32", "uint64":
		n, err := strconv.ParseUint(s, 10, 64)
		must(err)
		return reflect.ValueOf(n).Convert(goTypes[v.T]).Interface()
	case "float64", "myfloat":
		f, err := strconv.ParseFloat(s, 64)
		must(err)
		return reflect.ValueOf(f).Convert(goTypes[v.T]).Interface()
	case "float32":
		f, err := strconv.ParseFloat(s, 32)
		must(err)
		return float32(f)
	case "string":
		return s
	case "mystring":
		return mystring(s)
	case "bool":
		return s == "true"
	case "mybool":
		return mybool(s == "true")
	case "[]byte":
		return []byte(s)
	case "[]int":
		return ints(s)
	case "[]string":
		return strings.Split(s, ",")
	case "[]any":
		r := []any{}
		for _, i := range ints(s) {
			r = append(r, i)
		}
		return r
	case "[2]int":
		x := ints(s)
		return [2]int{x[0], x[1]}
	case "arrany":
		return [1]any{ints(s)}
	case "map":
		return map[string]int{s: 1}
	case "point":
		x := ints(s)
		return point{x[0], x[1]}
	case "ustruct":
		return ustruct{ints(s)}
	case "ifs":
		return ifs{ints(s)}
	case "ifc":
		return ifs{s}
	case "func":
		return func() string { return s }
	case "*int":
		p.mu.Lock()
		defer p.mu.Unlock()
		if p.ptrs[s] == nil {
			p.ptrs[s] = new(int)
		}
		return p.ptrs[s]
	case "**[]int":
		x := ints(s)
		y := &x
		return &y
	case "time":
		if s == "0" {
			return time.Time{}
		}
		s, zone, named := strings.Cut(s, "|")
		t, err := time.Parse(time.RFC3339Nano, s)
		must(err)
		if named {
			_, off := t.Zone()
			return t.In(time.FixedZone(zone, off))
		}
		if strings.HasSuffix(s, "Z") {
			t = t.UTC()
		}
		return t
	case "stringer":
		return stringer{s}
	case "*stringer":
		return &stringer{s}
	case "valuererr":
		return valuer{err: errors.New(s)}
	case "strenum":
		for i, x := range strenums {
			if x == s {
				return strenum(i)
			}
		}
	case "valenum":
		n, err := strconv.Atoi(s)
		must(err)
		return valenum(n / 10)
	case "complex128":
		return complex(1, 2)
	}
	panic(harnessError("unknown value type " + v.T))
}

func (p *pool) values(vs []Val) []any {
	r := make([]any, 0, len(vs))
	for _, v := range vs {
		r = append(r, p.value(v))
	}
	return r
}

func ints(s string) []int {
	r := []int{}
	if s == "" {
		return r
	}
	for _, x := range strings.Split(s, ",") {
		n, err := strconv.Atoi(x)
		must(err)
		r = append(r, n)
	}
	return r
}

func joinInts(x []int) string {
	s := make([]string, len(x))
	for i, n := range x {
		s[i] = strconv.Itoa(n)
	}
	return strings.Join(s, ",")
}

func ftoa(f float64, bits int) string {
	if math.IsNaN(f) {
		return "NaN"
	}
	return strconv.FormatFloat(f, 'f', -1, bits)
}

// describe is the inverse of value.
func (p *pool) describe(a any) Val {
	v := func(t, s string) Val { return Val{t, encText(s)} }
	switch x := a.(type) {
	case nil:
		return v("nil", "")
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return v(fmt.Sprintf("%T", x), fmt.Sprintf("%d", x))
	case myint:
		return v("myint", fmt.Sprintf("%d", x))
	case float64:
		return v("float64", ftoa(x, 64))
	case myfloat:
		return v("myfloat", ftoa(float64(x), 64))
	case float32:
		return v("float32", ftoa(float64(x), 32))
	case string:
		return v("string", x)
	case mystring:
		return v("mystring", string(x))
	case bool:
		return v("bool", strconv.FormatBool(x))
	case mybool:
		return v("mybool", strconv.FormatBool(bool(x)))
	case []byte:
		if x == nil {
			return v("nilslice:uint8", "")
		}
		return v("[]byte", string(x))
	case []int:
		if x == nil {
			return v("nilslice:int", "")
		}
		return v("[]int", joinInts(x))
	case []string:
		if x == nil {
			return v("nilslice:string", "")
		}
		return v("[]string", strings.Join(x, ","))
	case []any:
		s := make([]string, len(x))
		for i := range x {
			s[i] = fmt.Sprint(x[i])
		}
		return v("[]any", strings.Join(s, ","))
	case [2]int:
		return v("[2]int", joinInts(x[:]))
	case [1]any:
		if y, ok := x[0].([]int); ok {
			return v("arrany", joinInts(y))
		}
	case map[string]int:
		for k := range x {
			return v("map", k)
		}
	case point:
		return v("point", joinInts([]int{x.X, x.Y}))
	case ustruct:
		return v("ustruct", joinInts(x.S))
	case ifs:
		switch y := x.V.(type) {
		case []int:
			return v("ifs", joinInts(y))
		case string:
			return v("ifc", y)
		}
	case func() string:
		return v("func", x())
	case complex128:
		return v("complex128", "")
	case *int:
		if x == nil {
			return v("nilptr:int", "")
		}
		p.mu.Lock()
		defer p.mu.Unlock()
		for n, q := range p.ptrs {
			if q == x {
				return v("*int", n)
			}
		}
		return v("*int", "?unknown")
	case **[]int:
		return v("**[]int", joinInts(**x))
	case time.Time:
		if x.IsZero() {
			return v("time", "0")
		}
		return v("time", x.Format(time.RFC3339Nano))
	case stringer:
		return v("stringer", x.s)
	case *stringer:
		if x != nil {
			return v("*stringer", x.s)
		}
		return v("nilptr:stringer", "")
	case valuer:
		if x.err != nil {
			return v("valuererr", x.err.Error())
		}
		y := p.describe(x.v)
		return Val{"valuer:" + y.T, y.V}
	case valstr:
		y := p.describe(x.v)
		return Val{"valstr:" + y.T, y.V}
	case strenum:
		return v("strenum", x.String())
	case valenum:
		return v("valenum", strconv.Itoa(int(x)*10))
	case *valuer:
		if x == nil {
			return v("nilptr:valuer", "")
		}
	case *ptrValuer:
		if x == nil {
			return v("nilptr:ptrvaluer", "")
		}
		y := p.describe(x.v)
		return Val{"ptrvaluer:" + y.T, y.V}
	}
	rv := reflect.ValueOf(a)
	if rv.Kind() == reflect.Pointer && rv.IsNil() {
		for n, t := range goTypes {
			if reflect.PointerTo(t) == rv.Type() {
				return v("nilptr:"+n, "")
			}
		}
		return v("nilptr:"+strings.TrimPrefix(rv.Type().String(), "*"), "")
	}
	return v(fmt.Sprintf("?%T", a), fmt.Sprintf("%v", a))
}

func (p *pool) describeAll(as []any) []Val {
	r := make([]Val, 0, len(as))
	for _, a := range as {
		r = append(r, p.describe(a))
	}
	return r
}

func must(err error) {
	if err != nil {
		panic(harnessError(err.Error()))
	}
}

// harnessError is a defect of the harness, never of the code under test.
type harnessError string

// endOfScript ends a script: it goes on with a context which could not be made.
type endOfScript struct{}
