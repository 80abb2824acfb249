package main

// Executes a script of commands (one JSON object per line) against the public
// API and writes one event per command: the command with its observations.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	tachograph "github.com/way-platform/tachograph-go"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

type M = map[string]any

type session struct {
	bufs  map[string][]byte
	files map[string]*tachographv1.File
	ext   map[string]any
}

func newSession() *session {
	return &session{bufs: map[string][]byte{}, files: map[string]*tachographv1.File{}, ext: map[string]any{}}
}

func str(c M, k string) string {
	s, _ := c[k].(string)
	return s
}

func num(c M, k string) int {
	f, _ := c[k].(float64)
	return int(f)
}

func byteInts(b []byte) []int {
	out := make([]int, len(b))
	for i := range b {
		out[i] = int(b[i])
	}
	return out
}

func outcome(err error) string {
	if err == nil {
		return "ok"
	}
	return "err"
}

func put(r M, err error) {
	r["out"] = outcome(err)
	if err != nil {
		r["why"] = trunc(err.Error())
	}
}

func trunc(s string) string {
	s = strings.ToValidUTF8(s, "?")
	if len(s) > 300 {
		s = strings.ToValidUTF8(s[:300], "?")
	}
	return s
}

func (s *session) file(c M) *tachographv1.File {
	f, ok := s.files[str(c, "f")]
	if !ok {
		panic("harness: no file " + str(c, "f"))
	}
	return f
}

// do executes one command and returns its observations.
func (s *session) do(c M) M {
	r := M{"out": "ok"}
	switch op := str(c, "op"); op {
	case "case":
		*s = *newSession()
	case "buf":
		s.bufs[str(c, "b")] = bytesOf(c["data"])
	case "poke":
		copy(s.bufs[str(c, "b")][num(c, "at"):], bytesOf(c["v"]))
	case "fill":
		b := s.bufs[str(c, "b")]
		for i := range b {
			b[i] = byte(num(c, "v"))
		}
	case "parse":
		delete(s.files, str(c, "f"))
		data, ok := s.bufs[str(c, "b")]
		if !ok {
			return M{"out": "skip"}
		}
		before := bytes.Clone(data)
		f, err := tachograph.UnmarshalFile(data)
		put(r, err)
		r["eof"] = err != nil && errors.Is(err, io.ErrUnexpectedEOF)
		r["same"] = bytes.Equal(before, data)
		r["nilfile"] = f == nil
		if err == nil {
			s.files[str(c, "f")] = f
			r["kind"] = int(f.GetType())
			if num(c, "want") == 1 {
				r["view"] = msgNode(f)
			}
		}
	case "view":
		if f := s.file(c); num(c, "small") == 1 && proto.Size(f) > 60000 {
			return M{"out": "skip"}
		} else {
			r["view"] = msgNode(f)
		}
	case "json":
		text, err := protojson.Marshal(s.file(c))
		put(r, err)
		r["text"] = string(text)
	case "marshal":
		f := s.file(c)
		delete(s.bufs, str(c, "b"))
		before := proto.Clone(f)
		data, err := tachograph.MarshalFile(f)
		put(r, err)
		r["same"] = proto.Equal(before, f)
		r["data"] = byteInts(data)
		if err == nil && str(c, "b") != "" {
			s.bufs[str(c, "b")] = data
		}
	case "edit":
		f := s.file(c)
		edit(f.ProtoReflect(), str(c, "act"), c["path"].([]any), c["val"])
	case "new":
		f := &tachographv1.File{}
		fill(f.ProtoReflect(), c["val"])
		s.files[str(c, "f")] = f
	case "clone":
		s.files[str(c, "g")] = proto.Clone(s.file(c)).(*tachographv1.File)
	case "scribble":
		scribble(s.file(c).ProtoReflect())
	case "dump":
		b, ok := s.bufs[str(c, "b")]
		if !ok {
			return M{"out": "skip"}
		}
		r["data"] = byteInts(b)
	case "graft":
		g, ok := s.files[str(c, "g")]
		if !ok {
			return M{"out": "skip"}
		}
		graft(s.file(c).ProtoReflect(), g.ProtoReflect(), str(c, "act"), str(c, "mode"), c["path"].([]any))
	case "leaves":
		r["leaves"] = leaves(s.file(c))
	case "mutate":
		what := mutate(s.file(c), num(c, "pick"), num(c, "how"))
		r["what"] = what
		if strings.HasSuffix(what, "of 70000 elements") {
			r["big"] = 1
		}
	case "equal":
		r["eq"] = proto.Equal(s.file(c), s.files[str(c, "g")])
	case "store":
		f := s.file(c)
		before := proto.Clone(f)
		g := &tachographv1.File{}
		var data []byte
		var err error
		switch str(c, "via") {
		case "pb":
			if data, err = proto.Marshal(f); err == nil {
				err = proto.Unmarshal(data, g)
			}
		case "json":
			if data, err = protojson.Marshal(f); err == nil {
				err = protojson.Unmarshal(data, g)
			}
		case "text":
			if data, err = prototext.Marshal(f); err == nil {
				err = prototext.Unmarshal(data, g)
			}
		default:
			panic("harness: via")
		}
		put(r, err)
		r["eq"] = err == nil && proto.Equal(f, g)
		r["same"] = proto.Equal(before, f)
		delete(s.files, str(c, "g"))
		if err == nil {
			s.files[str(c, "g")] = g
		}
	case "display":
		f := s.file(c)
		before := proto.Clone(f)
		_ = protojson.Format(f)
		_ = prototext.Format(f)
		_ = f.String()
		r["same"] = proto.Equal(before, f)
	case "par":
		s.parallel(c, r)
	default:
		if !s.extra(op, c, r) {
			panic("harness: unknown op " + op)
		}
	}
	return r
}

// parallel parses and marshals several buffers at once, several times each,
// and reports for each buffer the distinct outcomes seen.
func (s *session) parallel(c M, r M) {
	names := c["bs"].([]any)
	times := num(c, "times")
	type res struct {
		out  string
		enc  string
		data string
	}
	all := make([][]res, len(names)*times)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := range all {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f, err := tachograph.UnmarshalFile(s.bufs[names[k%len(names)].(string)])
			x := res{out: outcome(err)}
			if err == nil {
				out, merr := tachograph.MarshalFile(f)
				enc, _ := proto.MarshalOptions{Deterministic: true}.Marshal(f)
				x.enc, x.data = string(enc), outcome(merr)+string(out)
			}
			all[k] = append(all[k], x)
		}()
	}
	close(start)
	wg.Wait()
	diff := []int{}
	for i := range names {
		f, err := tachograph.UnmarshalFile(s.bufs[names[i].(string)])
		want := res{out: outcome(err)}
		if err == nil {
			out, merr := tachograph.MarshalFile(f)
			enc, _ := proto.MarshalOptions{Deterministic: true}.Marshal(f)
			want.enc, want.data = string(enc), outcome(merr)+string(out)
		}
		for k := i; k < len(all); k += len(names) {
			for _, x := range all[k] {
				if x != want {
					diff = append(diff, i+1)
					break
				}
			}
		}
	}
	r["differ"] = diff
}

// scribble changes, in place, every byte of every bytes field of a message, as
// a caller may who owns it.
func scribble(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		one := func(v protoreflect.Value) {
			switch {
			case fd.Message() != nil:
				scribble(v.Message())
			case fd.Kind() == protoreflect.BytesKind:
				b := v.Bytes()
				for i := range b {
					b[i] ^= 0x5A
				}
			}
		}
		if fd.IsList() {
			for i := 0; i < v.List().Len(); i++ {
				one(v.List().Get(i))
			}
		} else {
			one(v)
		}
		return true
	})
}

func (s *session) guarded(c M) (r M) {
	done := make(chan M, 1)
	var m0, m1 runtime.MemStats
	measure := num(c, "mem") == 1
	if measure {
		runtime.ReadMemStats(&m0)
	}
	t0 := time.Now()
	go func() {
		defer func() {
			if p := recover(); p != nil {
				msg := fmt.Sprint(p)
				if strings.HasPrefix(msg, "harness:") {
					fmt.Fprintln(os.Stderr, msg)
					os.Exit(3)
				}
				stack := string(debug.Stack())
				at := ""
				for _, l := range strings.Split(stack, "\n") {
					if strings.Contains(l, "tachograph-go") && strings.Contains(l, ".go:") && !strings.Contains(l, "/internal/v") {
						at = strings.TrimSpace(l)
						break
					}
				}
				done <- M{"out": "panic", "why": trunc(msg), "at": at}
			}
		}()
		done <- s.do(c)
	}()
	limit := 20 * time.Second
	if n := num(c, "limit"); n > 0 {
		limit = time.Duration(n) * time.Second
	}
	select {
	case r = <-done:
	case <-time.After(limit):
		r = M{"out": "hang"}
	}
	if measure {
		runtime.ReadMemStats(&m1)
		r["kib"] = int((m1.TotalAlloc - m0.TotalAlloc) >> 10)
		r["ms"] = int(time.Since(t0).Milliseconds())
	}
	return r
}

func main() {
	in, err := os.Open(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	flushEach := len(os.Args) > 3 && os.Args[3] == "flush"
	w := bufio.NewWriterSize(out, 1<<20)
	s := newSession()
	rd := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 0 {
			var c M
			if e := json.Unmarshal(line, &c); e != nil {
				fmt.Fprintln(os.Stderr, "harness: bad script line:", e)
				os.Exit(3)
			}
			var r M
			if f := str(c, "f"); str(c, "op") != "case" && str(c, "op") != "parse" && str(c, "op") != "new" && f != "" && s.missing(c) {
				r = M{"out": "skip"}
				if op := str(c, "op"); op == "store" || op == "clone" || op == "anon" {
					delete(s.files, str(c, "g"))
				} else if op == "marshal" {
					delete(s.bufs, str(c, "b"))
				}
			} else {
				r = s.guarded(c)
			}
			for k, v := range r {
				c[k] = v
			}
			b, e := json.Marshal(c)
			if e != nil {
				fmt.Fprintln(os.Stderr, "harness:", e)
				os.Exit(3)
			}
			w.Write(b)
			w.WriteByte('\n')
			if flushEach || r["out"] == "hang" {
				w.Flush()
			}
			if r["out"] == "hang" {
				w.Flush()
				os.Exit(4)
			}
		}
		if err != nil {
			break
		}
	}
	if err := w.Flush(); err != nil {
		os.Exit(3)
	}
}
