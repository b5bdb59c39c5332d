// Command driver executes operations of the real implementation on behalf of
// the TLA+ models: one request line in, one JSON response line out.
package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// V is a decoded argument: int, bool, string, []V or map[string]V.
type V = interface{}

var funcs = map[string]func(V) V{}

func reg(name string, f func(V) V) { funcs[name] = f }

// ---- request parsing ------------------------------------------------------

type parser struct {
	s []byte
	i int
}

func (p *parser) value() V {
	switch c := p.s[p.i]; {
	case c == '[':
		p.i++
		l := []V{}
		if p.s[p.i] == ']' {
			p.i++
			return l
		}
		for {
			l = append(l, p.value())
			p.i++
			if p.s[p.i-1] == ']' {
				return l
			}
		}
	case c == '{':
		p.i++
		m := map[string]V{}
		if p.s[p.i] == '}' {
			p.i++
			return m
		}
		for {
			k := p.value().(string)
			p.i++ // ':'
			m[k] = p.value()
			p.i++
			if p.s[p.i-1] == '}' {
				return m
			}
		}
	case c == '"':
		e := p.i + 1
		for p.s[e] != '"' {
			if p.s[e] == '\\' {
				e++
			}
			e++
		}
		s, err := strconv.Unquote(string(p.s[p.i : e+1]))
		if err != nil {
			panic(err)
		}
		p.i = e + 1
		return s
	case c == 't':
		p.i += 4
		return true
	case c == 'f':
		p.i += 5
		return false
	default:
		neg := c == '-'
		if neg {
			p.i++
		}
		n := 0
		for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
			n = n*10 + int(p.s[p.i]-'0')
			p.i++
		}
		if neg {
			n = -n
		}
		return n
	}
}

func list(v V) []V           { return v.([]V) }
func field(v V, k string) V  { return v.(map[string]V)[k] }
func has(v V, k string) bool { _, ok := v.(map[string]V)[k]; return ok }
func integer(v V) int        { return v.(int) }
func str(v V) string         { return v.(string) }
func boolean(v V) bool       { return v.(bool) }
func at(v V, i int) V        { return v.([]V)[i] }
func ints(v V) []int {
	l := list(v)
	r := make([]int, len(l))
	for i, x := range l {
		r[i] = x.(int)
	}
	return r
}

// nat decodes a natural number: little-endian base-2^15 limbs.
func nat(v V) *big.Int {
	l := list(v)
	x := new(big.Int)
	if len(l) <= 4 {
		var u uint64
		for i := len(l) - 1; i >= 0; i-- {
			u = u<<15 | uint64(l[i].(int))
		}
		return x.SetUint64(u)
	}
	b := make([]byte, (len(l)*15+7)/8)
	for i, e := range l {
		d, bit := e.(int), i*15
		for k := 0; k < 15; k++ {
			if d>>k&1 == 1 {
				b[len(b)-1-(bit+k)/8] |= 1 << ((bit + k) % 8)
			}
		}
	}
	return x.SetBytes(b)
}

func nats(v V) []*big.Int {
	l := list(v)
	r := make([]*big.Int, len(l))
	for i := range l {
		r[i] = nat(l[i])
	}
	return r
}

// sgn decodes a signed integer <<sign, magnitude>>.
func sgn(v V) *big.Int {
	x := nat(at(v, 1))
	if integer(at(v, 0)) < 0 {
		x.Neg(x)
	}
	return x
}

func sgns(v V) []*big.Int {
	l := list(v)
	r := make([]*big.Int, len(l))
	for i := range l {
		r[i] = sgn(l[i])
	}
	return r
}

// bytesOf decodes a sequence of byte codes.
func bytesOf(v V) []byte {
	l := list(v)
	b := make([]byte, len(l))
	for i := range l {
		b[i] = byte(l[i].(int))
	}
	return b
}

func text(v V) string { return string(bytesOf(v)) }

// ---- responses --------------------------------------------------------------

// R is a record result.
type R map[string]V

// L is a list result.
type L []V

// Nat, Sgn and Bytes are results with their own encodings.
type (
	Nat   struct{ X *big.Int }
	Sgn   struct{ X *big.Int }
	Bytes string
)

// bad is the panic value for results that cannot be expressed as the kind of
// value the property speaks of (a nil or negative chain element).
type bad string

func Nats(xs []*big.Int) L {
	l := make(L, len(xs))
	for i := range xs {
		l[i] = Nat{xs[i]}
	}
	return l
}

func Sgns(xs []*big.Int) L {
	l := make(L, len(xs))
	for i := range xs {
		l[i] = Sgn{xs[i]}
	}
	return l
}

func Ints(xs []int) L {
	l := make(L, len(xs))
	for i := range xs {
		l[i] = xs[i]
	}
	return l
}

// formed panics if the integer's words have been tampered with.
func formed(x *big.Int) {
	if w := x.Bits(); len(w) > 0 && w[len(w)-1] == 0 {
		panic(bad("malformed integer"))
	}
}

func enc(b []byte, v V) []byte {
	switch v := v.(type) {
	case nil:
		return append(b, `"nil"`...)
	case int:
		if v > 1<<31-1 || v < -1<<31 {
			panic(bad(fmt.Sprintf("integer %d", v)))
		}
		return strconv.AppendInt(b, int64(v), 10)
	case uint:
		if v > 1<<31-1 {
			panic(bad(fmt.Sprintf("integer %d", v)))
		}
		return strconv.AppendInt(b, int64(v), 10)
	case bool:
		return strconv.AppendBool(b, v)
	case string:
		if v != "" && (v[0] == '#' || v[0] == '$' || v[0] == '@') {
			panic("marker in string result")
		}
		return appendQuote(b, v)
	case Bytes:
		b = append(b, `"@`...)
		for i := 0; i < len(v); i++ {
			b = append(b, "0123456789abcdef"[v[i]>>4], "0123456789abcdef"[v[i]&15])
		}
		return append(b, '"')
	case Nat:
		if v.X == nil || v.X.Sign() < 0 {
			panic(bad(fmt.Sprintf("natural %v", v.X)))
		}
		formed(v.X)
		b = append(b, `"#`...)
		b = v.X.Append(b, 16)
		return append(b, '"')
	case Sgn:
		if v.X == nil {
			panic(bad("nil integer"))
		}
		formed(v.X)
		b = append(b, `"$`...)
		b = v.X.Append(b, 16)
		return append(b, '"')
	case L:
		b = append(b, '[')
		for i, e := range v {
			if i > 0 {
				b = append(b, ',')
			}
			b = enc(b, e)
		}
		return append(b, ']')
	case R:
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b = append(b, '{')
		for i, k := range ks {
			if i > 0 {
				b = append(b, ',')
			}
			b = appendQuote(b, k)
			b = append(b, ':')
			b = enc(b, v[k])
		}
		return append(b, '}')
	}
	panic(fmt.Sprintf("cannot encode %T", v))
}

func appendQuote(b []byte, s string) []byte {
	b = append(b, '"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c < 0x20 || c > 0x7e:
			b = append(b, fmt.Sprintf(`\u%04x`, c)...)
		default:
			b = append(b, c)
		}
	}
	return append(b, '"')
}

func ascii(s string) string {
	if len(s) > 300 {
		s = s[:300]
	}
	b := []byte(s)
	for i := range b {
		if b[i] < 0x20 || b[i] > 0x7e {
			b[i] = ' '
		}
	}
	if len(b) > 0 && (b[0] == '#' || b[0] == '$' || b[0] == '@') {
		b[0] = ' '
	}
	return string(b)
}

// failed turns an error into a record; ok results carry their own fields.
func failed(err error) V { return R{"ok": false, "err": ascii(err.Error())} }

func itoa(n int) string {
	return string(enc(nil, n))
}

// ---- readers -------------------------------------------------------------------

// pieces is a reader that delivers a text in pieces of the given sizes (the last
// one repeated), and then the end of the text or a failure.
type pieces struct {
	src   []byte
	sizes []int
	i     int
	end   string
	fail  error
}

// failures are ways a reader can fail for good.
var failures = []error{
	errors.New("read failed"), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer,
	os.ErrClosed, bufio.ErrTooLong, context.Canceled, fmt.Errorf("short: %w", io.ErrUnexpectedEOF),
	&os.PathError{Op: "read", Path: "f", Err: os.ErrPermission}, &os.PathError{Op: "read", Path: "f", Err: os.ErrClosed},
	os.ErrNotExist,
}

func (p *pieces) failure() error {
	if p.fail == nil {
		p.fail = failures[(p.sizes[0]*5+len(p.sizes))%len(failures)]
	}
	return p.fail
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.src) == 0 {
		if p.end == "fail" || p.fail != nil {
			return 0, p.failure()
		}
		return 0, io.EOF
	}
	n := p.sizes[p.i%len(p.sizes)]
	p.i++
	if n > len(p.src) {
		n = len(p.src)
	}
	n = copy(b, p.src[:n])
	p.src = p.src[n:]
	if len(p.src) == 0 && p.end == "with" {
		return n, io.EOF
	}
	if len(p.src) == 0 && p.end == "failwith" {
		return n, p.failure()
	}
	return n, nil
}

// ---- main loop ----------------------------------------------------------------

func call(f func(V) V, line []byte) (resp []byte) {
	defer func() {
		if r := recover(); r != nil {
			st := "panic"
			if _, ok := r.(bad); ok {
				st = "bad"
			}
			resp = enc(nil, R{"st": st, "msg": ascii(fmt.Sprint(r))})
			if os.Getenv("VERIF_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	p := &parser{s: line}
	return enc(nil, R{"st": "ok", "v": f(p.value())})
}

// freshly compares what this process, with its history, answers with what a
// new process answers.
func freshly(name string, f func(V) V, args []byte) []byte {
	here := call(f, append([]byte{}, args...))
	cmd := exec.Command(os.Args[0])
	cmd.Stdin = strings.NewReader(name + "\t" + string(args) + "\n")
	cmd.Stderr = os.Stderr
	there, err := cmd.Output()
	if err != nil {
		return enc(nil, R{"st": "crash", "msg": ascii(err.Error())})
	}
	return enc(nil, R{"st": "ok", "v": R{"same": string(here)+"\n" == string(there), "ok": strings.HasPrefix(string(here), `{"st":"ok"`)}})
}

func main() {
	limit := 120 * time.Second
	if s := os.Getenv("VERIF_CALL_TIMEOUT"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			limit = d
		}
	}
	debug.SetMemoryLimit(2 << 30)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		line = line[:len(line)-1]
		k := 0
		for line[k] != '\t' {
			k++
		}
		name := string(line[:k])
		fresh := strings.HasPrefix(name, "fresh:")
		f, ok := funcs[strings.TrimPrefix(name, "fresh:")]
		var resp []byte
		if ok && fresh {
			resp = freshly(strings.TrimPrefix(name, "fresh:"), f, line[k+1:])
		} else if !ok {
			resp = []byte(`{"st":"nofunc"}`)
		} else {
			done := make(chan []byte, 1)
			go func() { done <- call(f, line[k+1:]) }()
			t := time.NewTimer(limit)
			select {
			case resp = <-done:
			case <-t.C:
				resp = []byte(`{"st":"hang"}`)
			}
			t.Stop()
		}
		out.Write(resp)
		out.WriteByte('\n')
		out.Flush()
	}
}
