// Command driver executes scripts of operations on the real code and records
// what it observes, one JSON object per script.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"
)

// Script is a sequence of operations.
type Script struct {
	ID    string            `json:"id"`
	Fresh bool              `json:"fresh"`
	Ops   []json.RawMessage `json:"ops"`
}

func marshal(v any) []byte {
	b := new(bytes.Buffer)
	e := json.NewEncoder(b)
	e.SetEscapeHTML(false)
	must(e.Encode(v))
	return bytes.TrimRight(b.Bytes(), "\n")
}

func isBuild(op string) bool {
	return op == "build" || op == "query" || op == "both" || op == "insp" || op == "recall" || op == "scribble"
}

func runScript(s *Script, each func(i int, ev []byte)) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(endOfScript); !ok {
				panic(e)
			}
		}
	}()
	w := newWorld()
	ops := make([]*Op, len(s.Ops))
	for i, raw := range s.Ops {
		ops[i] = &Op{}
		must(json.Unmarshal(raw, ops[i]))
	}
	for i, raw := range s.Ops {
		res := w.do(ops[i])
		if c := ops[i].Conc; c != nil && res.S == "ok" {
			for j := range c.Builds {
				f := newWorld()
				for _, op := range ops[:i] {
					if !isBuild(op.Op) && op.Op != "conc" {
						f.do(op)
					}
				}
				res.Alone = append(res.Alone, f.alone(c, j))
			}
		}
		ev := map[string]json.RawMessage{}
		must(json.Unmarshal(raw, &ev))
		ev["res"] = marshal(res)
		if s.Fresh && (ops[i].Op == "build" || ops[i].Op == "query") {
			// the same without any of the builds before
			f := newWorld()
			for _, op := range ops[:i] {
				if !isBuild(op.Op) {
					f.do(op)
				}
			}
			ev["fresh"] = marshal(f.do(ops[i]))
		}
		each(i, marshal(ev))
	}
}

func main() {
	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintf(os.Stderr, "harness error: %v\n", e)
			os.Exit(2)
		}
	}()
	debug.SetMaxStack(256 << 20)
	limit := 10 * time.Second
	if s := os.Getenv("OP_TIMEOUT"); s != "" {
		n, err := strconv.Atoi(s)
		must(err)
		limit = time.Duration(n) * time.Second
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	eager := os.Getenv("EAGER") != "" // write each event at once, to find out which one kills the process
	dec := json.NewDecoder(in)
	for dec.More() {
		s := &Script{}
		must(dec.Decode(s))
		done := make(chan any, 1)
		events := make(chan []byte, len(s.Ops))
		go func() {
			defer func() { done <- recover() }()
			runScript(s, func(i int, ev []byte) { events <- ev })
		}()
		var evs [][]byte
		finished := false
		timer := time.NewTimer(limit)
		for !finished {
			select {
			case ev := <-events:
				evs = append(evs, ev)
				if eager {
					fmt.Fprintf(os.Stdout, "EV %s\n", ev)
				}
				timer.Reset(limit)
			case e := <-done:
				if e != nil {
					fmt.Fprintf(os.Stderr, "harness error: script %s: %v\n", s.ID, e)
					os.Exit(2)
				}
				for len(events) > 0 {
					evs = append(evs, <-events)
				}
				finished = true
			case <-timer.C:
				// the operation doesn't return
				if len(evs) < len(s.Ops) {
					ev := map[string]json.RawMessage{}
					must(json.Unmarshal(s.Ops[len(evs)], &ev))
					ev["res"] = marshal(&Res{S: "timeout", Args: []Val{}, Log: []Call{}})
					evs = append(evs, marshal(ev))
				}
				write(out, s.ID, evs)
				must(out.Flush())
				os.Exit(3)
			}
		}
		write(out, s.ID, evs)
		must(out.Flush())
	}
	must(out.Flush())
}

func write(out *bufio.Writer, id string, evs [][]byte) {
	fmt.Fprintf(out, "{\"id\":%s,\"ev\":[", marshal(id))
	out.Write(bytes.Join(evs, []byte(",")))
	out.WriteString("]}\n")
}
