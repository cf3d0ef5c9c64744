package c26

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"testing"
	"time"

	qhex "github.com/QuarkChain/goquarkchain/common/hexutil"
	"github.com/QuarkChain/goquarkchain/rpc"
	"github.com/QuarkChain/goquarkchain/zzverif/vlib"
	"pgregory.net/rapid"
)

// Service is the known service behind the server: every method tells what it was given.
type Service struct{}

type Object struct {
	A string        `json:"a"`
	N *qhex.Uint64  `json:"n"`
	L []interface{} `json:"l"`
}

func show(o *Object) string {
	if o == nil {
		return "nil"
	}
	n := "nil"
	if o.N != nil {
		n = fmt.Sprint(uint64(*o.N))
	}
	return fmt.Sprintf("{%q %s %d}", o.A, n, len(o.L))
}

func (Service) Echo(s string, n int, o Object) string {
	return fmt.Sprintf("%q %d %s", s, n, show(&o))
}
func (Service) Mixed(u qhex.Uint, s *string, b *qhex.Uint64, o *Object) string {
	x, y := "nil", "nil"
	if s != nil {
		x = fmt.Sprintf("%q", *s)
	}
	if b != nil {
		y = fmt.Sprint(uint64(*b))
	}
	return fmt.Sprintf("%d %s %s %s", uint64(u), x, y, show(o))
}
func (Service) Optional(s *string, b *qhex.Uint64) string {
	x, y := "nil", "nil"
	if s != nil {
		x = fmt.Sprintf("%q", *s)
	}
	if b != nil {
		y = fmt.Sprint(uint64(*b))
	}
	return x + " " + y
}
func (Service) One(o Object) string { return show(&o) }
func (Service) Data(b qhex.Bytes) (qhex.Bytes, error) {
	if len(b) > 3 {
		return nil, errors.New("too long")
	}
	return b, nil
}
func (Service) None() string              { return "none" }
func (Service) Nothing()                  {}
func (Service) Fail(s string) error       { return errors.New(s) }
func (Service) Fine(s string) error       { return nil }
func (Service) Crash(s string) string     { panic(s) }
func (Service) CrashNil(o *Object) string { return o.A }
func (Service) Context(ctx context.Context, s string) (string, error) {
	if ctx == nil {
		return "", errors.New("no context")
	}
	return s, ctx.Err()
}

// Ticks notifies n times.
func (Service) Ticks(ctx context.Context, n int) (*rpc.Subscription, error) {
	notifier, ok := rpc.NotifierFromContext(ctx)
	if !ok {
		return nil, rpc.ErrNotificationsUnsupported
	}
	if n > 100 {
		return nil, errors.New("too many")
	}
	s := notifier.CreateSubscription()
	go func() {
		for i := 0; i < n; i++ {
			notifier.Notify(s.ID, i)
		}
	}()
	return s, nil
}

// how an argument of each kind is spelled, whether it is valid, and how it shows
type arg struct {
	doc  string
	ok   bool
	show string
}

func q(s string) string { b, _ := json.Marshal(s); return string(b) }

func drawArg(rt *rapid.T, kind string) arg {
	opt := strings.HasPrefix(kind, "*")
	bad := rapid.IntRange(0, 7).Draw(rt, "bad") == 7
	if opt && rapid.IntRange(0, 3).Draw(rt, "absent") == 0 {
		return arg{pick(rt, "as", "null", `""`, `"null"`), true, "nil"}
	}
	switch strings.TrimPrefix(kind, "*") {
	case "string":
		if bad {
			return arg{doc: pick(rt, "x", "1", "true", "{}", "[]", "-0.5")}
		}
		s := pick(rt, "s", "a", "x y", "\"quoted\"", "é", "\u2028", "<>&", "[1,2]", "0x", strings.Repeat("z", 3000), "a\nb", "\x00")
		return arg{q(s), true, fmt.Sprintf("%q", s)}
	case "int":
		if bad {
			return arg{doc: pick(rt, "x", "1.5", `"1"`, "{}", "1e30", "9223372036854775808", "[]", "false", "1e-1")}
		}
		n := pick(rt, "n", 0, 1, -1, 7, 1<<62, -1<<63)
		return arg{fmt.Sprint(n), true, fmt.Sprint(n)}
	case "uint":
		if bad {
			return arg{doc: pick(rt, "x", "1", `"1"`, `"0x"`, `"0xg"`, `"0x10000000000000000"`, "{}", `"-0x1"`, `"x"`)}
		}
		n := pick(rt, "n", uint64(0), 1, 255, 1<<32, ^uint64(0))
		return arg{fmt.Sprintf(`"0x%x"`, n), true, fmt.Sprint(n)}
	case "bytes":
		if bad {
			return arg{doc: pick(rt, "x", "1", `"0x1"`, `"1"`, `"0xgg"`, "{}", "[1]")}
		}
		s := pick(rt, "b", "", "00", "0102", "ffeedd", "01020304")
		return arg{`"0x` + s + `"`, true, "0x" + s}
	case "object":
		if bad {
			return arg{doc: pick(rt, "x", "1", `"a"`, "[]", `{"a":1}`, `{"n":1}`, `{"n":"0xg"}`, `{"l":{}}`, "true")}
		}
		a := pick(rt, "a", "", "v", "é")
		l := rapid.IntRange(0, 3).Draw(rt, "l")
		doc, n := fmt.Sprintf(`{"a":%s,"l":[%s]`, q(a), strings.TrimSuffix(strings.Repeat("1,", l), ",")), "nil"
		if rapid.Bool().Draw(rt, "with n") {
			n = fmt.Sprint(pick(rt, "n", 0, 5, 1000))
			var v int
			fmt.Sscan(n, &v)
			doc += fmt.Sprintf(`,"n":"0x%x"`, v)
		}
		if rapid.IntRange(0, 4).Draw(rt, "unknown member") == 0 {
			doc += `,"zz":{"deep":[[[]]]}`
		}
		return arg{doc + "}", true, fmt.Sprintf("{%q %s %d}", a, n, l)}
	}
	panic(kind)
}

type method struct {
	name string
	args []string
	// the result for valid arguments: what is shown, or an error
	result func(a []arg) (result string, code int)
}

func joined(a []arg) (string, int) {
	var s []string
	for _, x := range a {
		s = append(s, x.show)
	}
	return q(strings.Join(s, " ")), 0
}

func unquote(s string) (o string) { fmt.Sscanf(s, "%q", &o); return }

var methods = []method{
	{"echo", []string{"string", "int", "object"}, joined},
	{"mixed", []string{"uint", "*string", "*uint", "*object"}, joined},
	{"optional", []string{"*string", "*uint"}, joined},
	{"one", []string{"object"}, joined},
	{"data", []string{"bytes"}, func(a []arg) (string, int) {
		if len(a[0].show) > 8 {
			return "too long", -32000
		}
		return q(a[0].show), 0
	}},
	{"none", nil, func([]arg) (string, int) { return `"none"`, 0 }},
	{"nothing", nil, func([]arg) (string, int) { return `null`, 0 }},
	{"fail", []string{"string"}, func(a []arg) (string, int) { return unquote(a[0].show), -32000 }},
	{"fine", []string{"string"}, func(a []arg) (string, int) { return "null", 0 }},
	{"crash", []string{"string"}, func(a []arg) (string, int) { return "", -32000 }},
	{"crashNil", []string{"*object"}, func(a []arg) (string, int) {
		if a[0].show == "nil" {
			return "", -32000
		}
		return q(unquote(strings.SplitN(a[0].show[1:], " ", 2)[0])), 0
	}},
	{"context", []string{"string"}, func(a []arg) (string, int) { return q(unquote(a[0].show)), 0 }},
}

// call is one element; answer is how its answer reads, "" if it cannot be
// answered with an id.
type call struct {
	doc    string
	answer string
	note   string
}

func canon(id interface{}, result interface{}, code int) string {
	if code != 0 {
		return fmt.Sprintf("%s error %d", js(id), code)
	}
	return fmt.Sprintf("%s result %s", js(id), js(result))
}

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

func parse(s string) (v interface{}) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		panic(s + ": " + err.Error())
	}
	return
}

func drawCall(rt *rapid.T, c *vlib.C) call {
	idDoc := pick(rt, "id", "0", "1", "17", "-3", "1.5", "1e3", "123456789012345678901234567890", `"a"`, `""`, `"é<&>"`, `"1"`, "null", fmt.Sprint(rapid.IntRange(100, 999).Draw(rt, "n")))
	id := parse(idDoc)
	m := rapid.SampledFrom(methods).Draw(rt, "method")
	var a []arg
	ok := true
	for _, k := range m.args {
		x := drawArg(rt, k)
		ok = ok && x.ok
		a = append(a, x)
	}
	// optional arguments at the end may be left out
	n := len(a)
	for n > 1 && strings.HasPrefix(m.args[n-1], "*") && rapid.Bool().Draw(rt, "leave out") {
		n--
		ok = true
		a[n].show = "nil"
		for _, x := range a[:n] {
			ok = ok && x.ok
		}
	}
	var docs []string
	for _, x := range a[:n] {
		docs = append(docs, x.doc)
	}
	params := `"params":[` + strings.Join(docs, pick(rt, "comma", ",", " , ")) + `]`
	name := pick(rt, "namespace", "test_", "test_", "test_", "qkc_", "") + m.name
	code := 0
	note := "call"
	set := func(p int, nt string) { code, note = p, nt }
	if !ok {
		set(-32602, "bad argument")
	}
	switch pick(rt, "shape", 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8) {
	case 1: // no parameters
		params = pick(rt, "none", `"zz":1`, `"params":[]`)
		if len(m.args) > 0 {
			set(-32602, "no parameters")
			all := true
			for i, k := range m.args {
				all = all && strings.HasPrefix(k, "*")
				a[i].show = "nil"
			}
			if all && params == `"params":[]` {
				set(0, "all left out")
			}
		} else {
			set(0, "no parameters")
		}
	case 2: // one too many
		if len(m.args) > 0 && n == len(m.args) {
			params = `"params":[` + strings.Join(append(docs, pick(rt, "extra", "1", "null", `""`, "{}")), ",") + `]`
			set(-32602, "too many")
		}
	case 3: // one too few
		if len(m.args) > 0 && !strings.HasPrefix(m.args[len(m.args)-1], "*") {
			params = `"params":[` + strings.Join(docs[:len(docs)-1], ",") + `]`
			set(-32602, "too few")
		}
	case 4: // the only argument without the list
		if len(m.args) == 1 && strings.HasSuffix(m.args[0], "object") && strings.HasPrefix(a[0].doc, "{") {
			params = `"params":` + a[0].doc
			note = "object"
		}
	case 5:
		if len(m.args) > 0 {
			params = `"params":` + pick(rt, "params", "1", `"a"`, "true", "null", "1.5")
			set(-32602, "odd parameters")
		}
	case 6: // no such method
		name = pick(rt, "name", "test_unknown", "test_", "nowhere_echo", "test_Echo", "test__echo", "test_echo_x", "a_b_c", "_echo", "", "_", "é_é", "test_ticks", "test.echo", "tEst_echo")
		set(-32601, "unknown method")
	case 7: // members in another order, some unknown, version missing
		c.Label("reordered")
		return call{fmt.Sprintf(`{%s,"x":[{}],"method":%s , "id" : %s}`, params, q(name), idDoc), answerOf(id, m, a, code), note}
	}
	return call{fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"method":%s,%s}`, idDoc, q(name), params), answerOf(id, m, a, code), note}
}

func answerOf(id interface{}, m method, a []arg, code int) string {
	if code != 0 {
		return canon(id, nil, code)
	}
	r, code := m.result(a)
	if code != 0 {
		return canon(id, nil, code) + " " + r
	}
	return canon(id, parse(r), 0)
}

// unreadable elements: no id to answer to.
func drawUnreadable(rt *rapid.T) string {
	return pick(rt, "unreadable",
		`{"method":"test_none"}`, `{"id":true,"method":"test_none"}`, `{"id":{},"method":"test_none"}`, `{"id":[1],"method":"test_none"}`,
		`{"id":1,"method":7}`, `{"id":1,"method":["test_none"]}`, `{}`, `5`, `"test_none"`, `true`, `null`,
		`{"id":1,"jsonrpc":2,"method":"test_none"}`, `{"id":1e999,"method":"test_none"}`)
}

var garbage = []string{"}", "{", "[", `{"id":1`, `{"id":1,"method":"test_none"`, "nul", `{"id":1 "method":"test_none"}`, "\x00", "\xff\xfe", `"unterminated`, `{'id':1}`, "[1,2", `[{"id":1,"method":"test_none"},`, "01", "-", "<html>", `{"id":1,"method":"test_none",}`, "+1", "]", ","}

// answers reads what came back: each message as it would be expected.
func answers(rt *rapid.T, b []byte) (out []string, notes map[string][]int, ids map[string]string) {
	notes = map[string][]int{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	one := func(v interface{}) string {
		m, ok := v.(map[string]interface{})
		if !ok || m["jsonrpc"] != "2.0" {
			rt.Fatalf("not an answer: %s", js(v))
		}
		e, isE := m["error"]
		r, isR := m["result"]
		if isE == isR {
			rt.Fatalf("not an answer: %s", js(v))
		}
		if isR {
			return canon(m["id"], r, 0)
		}
		x, ok := e.(map[string]interface{})
		if !ok {
			rt.Fatalf("not an answer: %s", js(v))
		}
		n, ok := x["code"].(json.Number)
		msg, ok2 := x["message"].(string)
		if !ok || !ok2 || msg == "" && n.String() != "-32000" {
			rt.Fatalf("not an error: %s", js(v))
		}
		if _, has := m["id"]; !has {
			return "unreadable"
		}
		k, _ := n.Int64()
		return canon(m["id"], nil, int(k)) + " " + msg
	}
	for {
		var v interface{}
		if err := d.Decode(&v); err == io.EOF {
			return
		} else if err != nil {
			rt.Fatalf("the answer is not JSON: %v: %q", err, b)
		}
		if l, ok := v.([]interface{}); ok {
			var s []string
			for _, x := range l {
				s = append(s, one(x))
			}
			out = append(out, "batch ["+strings.Join(s, "; ")+"]")
			continue
		}
		out = append(out, one(v))
	}
}

// matches: expected answers leave open the text of errors the server makes up.
func matches(want, got string) bool {
	if strings.HasPrefix(want, "batch [") {
		if !strings.HasPrefix(got, "batch [") {
			return false
		}
		w, g := strings.Split(want[7:len(want)-1], "; "), strings.Split(got[7:len(got)-1], "; ")
		if len(w) != len(g) {
			return false
		}
		for i := range w {
			if !matches(w[i], g[i]) {
				return false
			}
		}
		return true
	}
	if want == got {
		return true
	}
	// an error whose text is the server's own
	for _, code := range []string{"-32000 ", "-32602", "-32601"} {
		if strings.HasSuffix(want, " error "+code) {
			return strings.HasPrefix(got, strings.TrimSuffix(want, " ")+" ")
		}
	}
	return false
}

// unmatched says which answers are missing and which are too many.
func unmatched(want, got []string) string {
	used := make([]bool, len(got))
	found := make([]bool, len(want))
	var missing, extra []string
	for _, exact := range []bool{true, false} {
		for k, w := range want {
			for i, g := range got {
				if !found[k] && !used[i] && (w == g || !exact && matches(w, g)) {
					used[i], found[k] = true, true
				}
			}
		}
	}
	for k, w := range want {
		if !found[k] {
			missing = append(missing, w)
		}
	}
	for i, g := range got {
		if !used[i] {
			extra = append(extra, g)
		}
	}
	if missing == nil && extra == nil {
		return ""
	}
	sort.Strings(extra)
	return fmt.Sprintf("missing %q, unexpected %q", missing, extra)
}

func newServer() *rpc.Server {
	s := rpc.NewServer()
	for _, n := range []string{"test", "qkc"} {
		if err := s.RegisterName(n, Service{}); err != nil {
			panic(err)
		}
	}
	return s
}

// message is a document and the answers to it; last: the stream ends with it.
type msg struct {
	doc  string
	want []string
	last bool
}

func drawMessage(rt *rapid.T, c *vlib.C) msg {
	switch pick(rt, "message", 0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5) {
	case 1:
		var docs, want []string
		for k := rapid.IntRange(0, 5).Draw(rt, "batch"); k > 0; k-- {
			x := drawCall(rt, c)
			docs, want = append(docs, x.doc), append(want, x.answer)
			c.Label("batch %s", x.note)
		}
		return msg{doc: " [" + strings.Join(docs, ",\n") + "]", want: []string{"batch [" + strings.Join(want, "; ") + "]"}}
	case 2:
		c.Label("unreadable")
		return msg{drawUnreadable(rt), []string{"unreadable"}, true}
	case 3:
		c.Label("garbage")
		return msg{rapid.SampledFrom(garbage).Draw(rt, "garbage"), []string{"unreadable"}, true}
	case 4: // a batch with something unreadable in it is one unreadable message
		c.Label("unreadable batch")
		docs := []string{drawUnreadable(rt)}
		for k := rapid.IntRange(0, 3).Draw(rt, "batch"); k > 0; k-- {
			docs = append(docs, drawCall(rt, c).doc)
		}
		if rapid.Bool().Draw(rt, "front") {
			docs[0], docs[len(docs)-1] = docs[len(docs)-1], docs[0]
		}
		return msg{"[" + strings.Join(docs, ",") + "]", []string{"unreadable"}, true}
	}
	x := drawCall(rt, c)
	c.Label("%s", x.note)
	return msg{doc: x.doc, want: []string{x.answer}}
}

const patience = 20 * time.Second

// stream sends the bytes in pieces over a connection and reads all answers.
func stream(rt *rapid.T, s *rpc.Server, b []byte, pieces []int) []byte {
	l, r := net.Pipe()
	served := make(chan struct{})
	go func() {
		defer close(served)
		s.ServeCodec(rpc.NewJSONCodec(&halfClose{r, false}), rpc.OptionMethodInvocation|rpc.OptionSubscriptions)
	}()
	back := make(chan []byte, 1)
	go func() { x, _ := ioutil.ReadAll(l); back <- x }()
	// the end of what the client says is a byte no document contains: net.Pipe
	// cannot close one direction
	l.SetWriteDeadline(time.Now().Add(patience))
	i := 0
	for _, p := range append(pieces, len(b)) {
		if p > len(b) {
			p = len(b)
		}
		if p > i {
			if _, err := l.Write(b[i:p]); err != nil {
				break // the server ended the stream
			}
			i = p
		}
	}
	l.Write([]byte{eot})
	select {
	case x := <-back:
		<-served
		return x
	case <-time.After(patience):
		l.Close()
		rt.Fatalf("the stream is not ended %v after the last message %q", patience, b)
		return nil
	}
}

const eot = 0x04

type halfClose struct {
	net.Conn
	done bool
}

func (h *halfClose) Read(p []byte) (int, error) {
	if h.done {
		return 0, io.EOF
	}
	n, err := h.Conn.Read(p)
	if k := bytes.IndexByte(p[:n], eot); k >= 0 {
		h.done = true
		if k == 0 {
			return 0, io.EOF
		}
		return k, nil
	}
	return n, err
}

func TestServer(t *testing.T) {
	vlib.Check(t, 12000, 400000, "several messages, a batch, an error or garbage", func(rt *rapid.T, c *vlib.C) {
		s := newServer()
		defer s.Stop()
		if rapid.IntRange(0, 2).Draw(rt, "http") == 0 {
			overHTTP(rt, c, s)
			return
		}
		var b bytes.Buffer
		var want []string
		for n := rapid.IntRange(0, 6).Draw(rt, "messages"); n > 0; n-- {
			m := drawMessage(rt, c)
			b.WriteString(m.doc)
			b.WriteString(pick(rt, "space", "\n", " ", "\r\n", "\t\n"))
			want = append(want, m.want...)
			if m.last {
				break
			}
		}
		var pieces []int
		for k := rapid.IntRange(0, 4).Draw(rt, "pieces"); k > 0; k-- {
			pieces = append(pieces, rapid.IntRange(0, b.Len()).Draw(rt, "cut"))
		}
		sort.Ints(pieces)
		got, _, _ := answers(rt, stream(rt, s, b.Bytes(), pieces))
		if d := unmatched(want, got); d != "" {
			rt.Fatalf("stream %q: %s", b.String(), d)
		}
		// the server is still there
		got, _, _ = answers(rt, stream(rt, s, []byte(`{"id":"alive","method":"test_none"}`), nil))
		if d := unmatched([]string{`"alive" result "none"`}, got); d != "" {
			rt.Fatalf("after %q: %s", b.String(), d)
		}
		if len(want) > 0 {
			c.NonTrivial("%s", b.String())
			c.Sample("%.300s => %.300q", b.String(), want)
		}
	})
}

func overHTTP(rt *rapid.T, c *vlib.C, s *rpc.Server) {
	m := drawMessage(rt, c)
	verb, kind, code := "POST", "application/json", 200
	body, want := m.doc, m.want
	var length int64 = -2
	switch pick(rt, "odd", 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7) {
	case 1:
		kind, code = pick(rt, "type", "text/plain", "", "application/xml", "json", "application/jsonx", "/", ";"), 415
	case 2:
		kind = pick(rt, "type", "application/json; charset=utf-8", "Application/JSON", "application/json;q=1")
	case 3:
		verb, code = pick(rt, "verb", "PUT", "DELETE"), 405
	case 4: // the check of a load balancer
		verb, body, want = "GET", "", nil
	case 5:
		body, want = pick(rt, "blank", "", " ", "\n"), nil
	case 6:
		body, code = body+strings.Repeat(" ", 512*1024), 413
	case 7: // too long without saying so: cut at the limit
		body = `{"id":1,"method":"test_one","params":[{"a":"` + strings.Repeat("x", 512*1024) + `"}]}`
		want, length = []string{"unreadable"}, -1
	}
	r := httptest.NewRequest(verb, "/", strings.NewReader(body))
	if length != -2 {
		r.ContentLength = length
	}
	if kind != "" {
		r.Header.Set("content-type", kind)
	}
	w := httptest.NewRecorder()
	done := make(chan struct{})
	go func() { defer close(done); s.ServeHTTP(w, r) }()
	select {
	case <-done:
	case <-time.After(patience):
		rt.Fatalf("no answer to %q in %v", body, patience)
	}
	if w.Code != code {
		rt.Fatalf("%s %s %.300q: status %d instead of %d", verb, kind, body, w.Code, code)
	}
	c.Label("http %d", code)
	if code != http.StatusOK {
		return
	}
	got, _, _ := answers(rt, w.Body.Bytes())
	if d := unmatched(want, got); d != "" {
		rt.Fatalf("http %.2000q: %s", body, d)
	}
	c.NonTrivial("http %.500s", body)
}

// Subscriptions: the id first, then every notification in order; ended once.
func TestSubscriptions(t *testing.T) {
	vlib.Check(t, 1600, 60000, "several subscriptions, or ended ones", func(rt *rapid.T, c *vlib.C) {
		s := newServer()
		defer s.Stop()
		l, r := net.Pipe()
		defer l.Close()
		go s.ServeCodec(rpc.NewJSONCodec(r), rpc.OptionMethodInvocation|rpc.OptionSubscriptions)
		l.SetDeadline(time.Now().Add(patience))
		d := json.NewDecoder(l)
		d.UseNumber()
		got := map[string][]string{}
		known := map[string]int{}
		ended := map[string]bool{}
		next := func() map[string]interface{} {
			var v map[string]interface{}
			if err := d.Decode(&v); err != nil {
				rt.Fatalf("reading: %v", err)
			}
			return v
		}
		note := func(v map[string]interface{}) bool {
			p, ok := v["params"].(map[string]interface{})
			if !ok {
				return false
			}
			if v["method"] != "test_subscription" || v["jsonrpc"] != "2.0" {
				rt.Fatalf("a notification reads %s", js(v))
			}
			id, _ := p["subscription"].(string)
			if _, ok := known[id]; !ok {
				rt.Fatalf("a notification of %q before the answer: %s", id, js(v))
			}
			if ended[id] {
				rt.Fatalf("a notification of %q after it was ended", id)
			}
			got[id] = append(got[id], js(p["result"]))
			return true
		}
		ask := func(id int, method, params string) map[string]interface{} {
			if _, err := fmt.Fprintf(l, `{"id":%d,"method":"%s","params":%s}`, id, method, params); err != nil {
				rt.Fatalf("writing: %v", err)
			}
			for {
				v := next()
				if note(v) {
					continue
				}
				if js(v["id"]) != fmt.Sprint(id) {
					rt.Fatalf("answer to %d: %s", id, js(v))
				}
				return v
			}
		}
		var order []string
		steps := rapid.IntRange(1, 8).Draw(rt, "steps")
		for i := 0; i < steps; i++ {
			switch rapid.IntRange(0, 4).Draw(rt, "step") {
			case 0, 1:
				n := pick(rt, "n", 0, 1, 3, 20)
				v := ask(i, "test_subscribe", fmt.Sprintf(`["ticks",%d]`, n))
				id, ok := v["result"].(string)
				if _, again := known[id]; !ok || again || !reNum.MatchString(id) {
					rt.Fatalf("subscription answered %s", js(v))
				}
				known[id] = n
				order = append(order, id)
				c.Label("subscribed")
			case 2:
				if len(order) == 0 {
					continue
				}
				id := rapid.SampledFrom(order).Draw(rt, "which")
				v := ask(i, "test_unsubscribe", fmt.Sprintf(`["%s"]`, id))
				if ended[id] != (v["error"] != nil) || !ended[id] && v["result"] != true {
					rt.Fatalf("ending %s (ended before: %v): %s", id, ended[id], js(v))
				}
				ended[id] = true
				c.Label("ended")
			case 3:
				p := pick(rt, "odd", `["nothing",1]`, `["ticks","x"]`, `["ticks",101]`, `["ticks",1,2]`, `["ticks"]`)
				if v := ask(i, "test_subscribe", p); v["error"] == nil {
					rt.Fatalf("subscribe %s: %s", p, js(v))
				}
				c.Label("refused")
			case 4:
				p := pick(rt, "odd", `["0x1"]`, `[]`, `[5]`, `["0x1","0x2"]`, `null`, `{}`)
				if v := ask(i, "test_unsubscribe", p); v["error"] == nil {
					rt.Fatalf("unsubscribe %s: %s", p, js(v))
				}
			}
		}
		for _, id := range order {
			for !ended[id] && len(got[id]) < known[id] {
				if !note(next()) {
					rt.Fatalf("an answer nobody asked for")
				}
			}
			for i, x := range got[id] {
				if x != fmt.Sprint(i) {
					rt.Fatalf("notifications %v of %s", got[id], id)
				}
			}
			if len(got[id]) > known[id] {
				rt.Fatalf("%d notifications of %d", len(got[id]), known[id])
			}
		}
		if v := ask(1000, "test_none", "[]"); v["result"] != "none" {
			rt.Fatalf("afterwards: %s", js(v))
		}
		if len(order) > 0 {
			c.NonTrivial("%d %d %v", steps, len(order), known)
		}
	})
}
