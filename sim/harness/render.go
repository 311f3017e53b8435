package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"fsim/simrt"

	"github.com/arr-ai/frozen"
)

// fstate is a fmt.State whose writer can fail or run short.
type fstate struct {
	buf    bytes.Buffer
	limit  int // bytes accepted before the failure; -1 for none
	once   bool
	plus   bool
	failed int
	width  int
}

var errWrite = errors.New("injected write failure")

func (f *fstate) Write(p []byte) (int, error) {
	simrt.Yield()
	if f.limit >= 0 && f.buf.Len()+len(p) > f.limit && !(f.once && f.failed > 0) {
		n := f.limit - f.buf.Len()
		if n < 0 {
			n = 0
		}
		f.buf.Write(p[:n])
		f.failed++
		return n, errWrite
	}
	f.buf.Write(p)
	return len(p), nil
}

func (f *fstate) Width() (int, bool)     { return f.width, f.width >= 0 }
func (f *fstate) Precision() (int, bool) { return 0, false }
func (f *fstate) Flag(c int) bool        { return c == '+' && f.plus }

// raw runs f once under the operation's encoder fault, without judging it.
func (c *client) raw(op *Op, f func()) (o outcome, fired bool) {
	r := c.r
	t := simrt.Cur()
	old := t.Ctx
	x := &opCtx{r: r, op: op, task: t, fault: op.F}
	r.cur[c.id], r.curOp[c.id], r.owner[c.id] = x, op, "C14"
	t.Ctx = x
	defer func() {
		t.Ctx = old
		delete(r.cur, c.id)
		delete(r.curOp, c.id)
	}()
	r.stats.ops[op.K]++
	o = attempt(f)
	x.ended = true
	return o, x.fired
}

// encodeCall is called by elements being rendered or encoded.
func encodeCall() error {
	x := curCtx()
	if x == nil {
		return nil
	}
	x.calls[cbEncode]++
	simrt.Yield()
	if f := x.fault; f != nil && f.Cb == cbEncode && x.calls[cbEncode] == f.N {
		x.fired = true
		x.fault = nil
		x.r.stats.faults["encode:"+f.Mode]++
		if f.Mode == "err" {
			return errFault
		}
		panic(&faultVal{x.op.ID})
	}
	return nil
}

// splitTop splits s at top-level occurrences of sep.
func splitTop(s, sep string) []string {
	var out []string
	depth, last := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '{', '(', '[':
			depth++
		case '}', ')', ']':
			depth--
		}
		if depth == 0 && strings.HasPrefix(s[i:], sep) {
			out = append(out, s[last:i])
			last = i + len(sep)
			i = last - 1
		}
	}
	return append(out, s[last:])
}

// splitList takes a bracketed list apart.
func splitList(s, open, end string) ([]string, bool) {
	if !strings.HasPrefix(s, open) || !strings.HasSuffix(s, end) || len(s) < len(open)+len(end) {
		return nil, false
	}
	s = s[len(open) : len(s)-len(end)]
	if s == "" {
		return nil, true
	}
	return splitTop(s, ", "), true
}

func normToken(s string) string {
	if len(s) > 1 && (s[0] == '{' || s[0] == '(') {
		if p := splitTop(s[1:len(s)-1], ", "); len(p) > 1 {
			sort.Strings(p)
			return s[:1] + strings.Join(p, ", ") + s[len(s)-1:]
		}
	}
	return s
}

var tokTables = map[string]map[string]int{}

func (m *setMach[T]) tokTable() map[string]int {
	key := fmt.Sprint(m.d.Name, m.u)
	t := tokTables[key]
	if t == nil {
		t = map[string]int{}
		for i := 0; i < m.u; i++ {
			t[normToken(fmt.Sprint(m.d.Mk(i, 0)))] = i
		}
		tokTables[key] = t
	}
	return t
}

// prepare makes the table outside the simulation: a table that is there
// already must not change the execution.
func (m *setMach[T]) prepare() {
	for _, ops := range append([][]Op{m.r.p.Setup}, m.r.p.Clients...) {
		for i := range ops {
			switch k := ops[i].K; {
			case k == "f.json" || k == "f.mjson":
				m.jsonTable()
			case strings.HasPrefix(k, "f.") || strings.HasPrefix(k, "b."):
				m.tokTable()
			}
		}
	}
}

// tokenIDs turns rendered elements into sorted ids.
func (m *setMach[T]) tokenIDs(toks []string) (l []int, bad string) {
	t := m.tokTable()
	for _, s := range toks {
		id, ok := t[normToken(s)]
		if !ok {
			return nil, fmt.Sprintf("(%q is no element)", s)
		}
		l = append(l, id)
	}
	sort.Ints(l)
	return
}

func canonJSON(v any) string {
	switch v := v.(type) {
	case []any:
		var p []string
		for _, x := range v {
			p = append(p, canonJSON(x))
		}
		sort.Strings(p)
		return "[" + strings.Join(p, ",") + "]"
	case map[string]any:
		var p []string
		for k, x := range v {
			p = append(p, strconv.Quote(k)+":"+canonJSON(x))
		}
		sort.Strings(p)
		return "{" + strings.Join(p, ",") + "}"
	case json.Number:
		return v.String()
	default:
		b, _ := json.Marshal(v)
		return string(b)
	}
}

func parseJSON(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, errors.New("trailing data")
	}
	return v, nil
}

var jsonTables = map[string]map[string]int{}

func (m *setMach[T]) jsonTable() map[string]int {
	key := fmt.Sprint(m.d.Name, m.u)
	t := jsonTables[key]
	if t == nil {
		t = map[string]int{}
		for i := 0; i < m.u; i++ {
			b, err := json.Marshal(m.d.Mk(i, 0))
			if err != nil {
				panic(err)
			}
			v, err := parseJSON(b)
			if err != nil {
				panic(err)
			}
			t[canonJSON(v)] = i
		}
		jsonTables[key] = t
	}
	return t
}

var tokRE = regexp.MustCompile(`\b[ekm][0-9]+\b`)

// render produces text through the standard library or directly into a
// (possibly failing) state.
func (m *setMach[T]) render(c *client, op *Op, v fmt.Formatter, total int) (out string, clean bool) {
	verb := []rune{'v', 's', 'v'}[op.P%3]
	plus := op.P%3 == 2
	st := &fstate{limit: -1, width: -1, plus: plus}
	mode := op.N % 4
	var o outcome
	var fired bool
	switch mode {
	case 0, 1: // through fmt
		f := "%" + string(verb)
		if plus {
			f = "%+v"
		}
		o, fired = c.raw(op, func() {
			if op.P%5 == 4 {
				var b bytes.Buffer
				fmt.Fprintf(&b, f, v)
				out = b.String()
				return
			}
			if s, ok := v.(fmt.Stringer); ok && op.P%5 == 3 && !plus {
				out = s.String()
				return
			}
			out = fmt.Sprintf(f, v)
		})
	default: // directly, with a writer that fails at byte limit
		st.limit = (op.N / 4) % (total + 30)
		st.once = mode == 3
		o, fired = c.raw(op, func() {
			v.Format(st, verb)
			out = st.buf.String()
		})
		if st.failed > 0 {
			m.r.stats.faults["write-failure"]++
			if st.once {
				m.r.stats.faults["write-failure-transient"]++
			}
		}
	}
	switch {
	case fired:
		if o.kind == "normal" && !strings.Contains(out, "PANIC=") {
			m.r.fail("C14", "fault:"+op.K, op, "an element's formatting failed, but the result looks complete: %.200q", out)
		}
		return out, false
	case st.failed > 0:
		if o.kind == "normal" {
			m.r.fail("C14", "write:"+op.K, op, "writing failed at byte %d, but this was not reported; output %.200q", st.limit, out)
		}
		return out, false
	case o.kind != "normal":
		m.r.fail("C14", "panic:"+op.K, op, "unexpected %s %v at %s", o.kind, o.val, o.stack)
		return out, false
	}
	return out, true
}

func (m *setMach[T]) execRender(c *client, op *Op) {
	r := m.r
	again := func() {
		if rg := r.regs[op.A]; rg != nil && rg.val != nil {
			m.recheck(c, rg, "C14,C01", "after rendering", op)
		}
	}
	switch op.K {
	case "f.set":
		a := m.set(c, op.A)
		n := a.m.count()
		out, clean := m.render(c, op, a.s, n*4)
		if !clean {
			again()
			op2 := *op
			op2.F, op2.N = nil, 0
			out, clean = m.render(c, &op2, a.s, 0)
			if !clean {
				return
			}
		}
		m.checkSetText(op, out, a.m, op.P%3 == 2)
	case "f.width":
		a := m.set(c, op.A)
		n := a.m.count()
		w := op.N % (n + 2)
		var out string
		st := &fstate{limit: -1, width: w}
		o, _ := c.raw(op, func() {
			if w == 0 || op.P&1 == 0 {
				a.s.Format(st, 'v')
				out = st.buf.String()
				return
			}
			out = fmt.Sprintf("%*v", w, a.s)
		})
		if o.kind != "normal" {
			r.fail("C14", "panic:f.width", op, "unexpected %s %v at %s", o.kind, o.val, o.stack)
			return
		}
		rest := 0
		if i := strings.LastIndex(out, ", ...(+"); i >= 0 {
			fmt.Sscanf(out[i:], ", ...(+%d)...}", &rest)
			out = out[:i] + "}"
		}
		toks, ok := splitList(out, "{", "}")
		if len(toks) == 0 && n-rest == 1 {
			toks = []string{""}
		}
		got, bad := m.tokenIDs(toks)
		if !ok || bad != "" || idsOf(got).count() != len(got) || !idsOf(got).subset(a.m) || len(got)+rest != n {
			r.fail("C14", "text:f.width", op, "width %d shows %q for %v %s", w, out, a.m, bad)
		}
	case "f.map":
		a := m.mp(c, op.A)
		out, clean := m.render(c, op, a.s, len(a.m)*7)
		if !clean {
			again()
			op2 := *op
			op2.F, op2.N = nil, 0
			out, clean = m.render(c, &op2, a.s, 0)
			if !clean {
				return
			}
		}
		if op.P%3 == 2 {
			m.checkPlus(op, out, idsOf(a.m.keys()))
			return
		}
		toks, ok := splitList(out, "(", ")")
		got := imap{}
		for _, t := range toks {
			i := strings.LastIndex(t, ": ")
			if i < 0 {
				ok = false
				break
			}
			id, in := m.tokTable()[normToken(t[:i])]
			v, err := strconv.Atoi(t[i+2:])
			if _, dup := got[id]; !in || err != nil || dup {
				ok = false
				break
			}
			got[id] = v
		}
		if !ok || !got.equal(a.m) {
			r.fail("C14", "text:f.map", op, "renders as %.300q, want entries %v", out, a.m)
		}
	case "f.kv":
		id := m.fold(op.N)
		kv := frozen.KV(m.d.Mk(id, 0), op.P)
		o1 := *op
		o1.A = 0
		out, clean := m.render(c, &o1, kv, 8)
		if !clean || op.P%3 == 2 {
			return
		}
		if want := fmt.Sprint(m.d.Mk(id, 0)) + ":" + fmt.Sprint(op.P); normKV(out) != normKV(want) {
			r.fail("C14", "text:f.kv", op, "renders as %q, want %q", out, want)
		}
	case "f.json":
		a := m.set(c, op.A)
		var b []byte
		var err error
		o, fired := c.raw(op, func() {
			if op.N&1 == 0 {
				b, err = json.Marshal(a.s)
			} else {
				b, err = a.s.MarshalJSON()
			}
		})
		if !m.judgeJSON(op, o, fired, b, err) {
			if !fired {
				return
			}
			again()
			if o = attempt(func() { b, err = a.s.MarshalJSON() }); o.kind != "normal" || err != nil {
				r.fail("C14", "json:again", op, "encoding again gives %v %v", o.kind, err)
				return
			}
		}
		var got []int
		v, perr := parseJSON(b)
		l, ok := v.([]any)
		for _, x := range l {
			id, in := m.jsonTable()[canonJSON(x)]
			ok = ok && in
			got = append(got, id)
		}
		sort.Ints(got)
		if perr != nil || !ok || !sameInts(got, a.m.list()) {
			r.fail("C14", "json:f.json", op, "encodes as %.300s (%v), want %v", b, perr, a.m)
		}
	case "f.mjson":
		a := m.mp(c, op.A)
		var b []byte
		var err error
		o, fired := c.raw(op, func() {
			if op.N&1 == 0 {
				b, err = json.Marshal(a.s)
			} else {
				b, err = a.s.MarshalJSON()
			}
		})
		if !m.judgeJSON(op, o, fired, b, err) {
			if !fired {
				return
			}
			again()
			if o = attempt(func() { b, err = a.s.MarshalJSON() }); o.kind != "normal" || err != nil {
				r.fail("C14", "json:again", op, "encoding again gives %v %v", o.kind, err)
				return
			}
		}
		got := imap{}
		v, perr := parseJSON(b)
		ok := perr == nil
		put := func(k any, x any) {
			id, in := m.jsonTable()[canonJSON(k)]
			n, isn := x.(json.Number)
			if !in || !isn {
				ok = false
				return
			}
			i, e := n.Int64()
			if _, dup := got[id]; e != nil || dup {
				ok = false
				return
			}
			got[id] = int(i)
		}
		switch v := v.(type) {
		case map[string]any:
			if m.d.Name != "string" {
				ok = false
			}
			for k, x := range v {
				put(k, x)
			}
		case []any:
			if m.d.Name == "string" {
				ok = false
			}
			for _, p := range v {
				pair, isp := p.([]any)
				if !isp || len(pair) != 2 {
					ok = false
					break
				}
				put(pair[0], pair[1])
			}
		default:
			ok = false
		}
		if !ok || !got.equal(a.m) {
			r.fail("C14", "json:f.mjson", op, "encodes as %.300s (%v), want %v", b, perr, a.m)
		}
	default:
		panic("op " + op.K)
	}
	again()
}

func normKV(s string) string {
	if i := strings.LastIndex(s, ":"); i >= 0 {
		return normToken(s[:i]) + s[i:]
	}
	return s
}

func (m *setMach[T]) judgeJSON(op *Op, o outcome, fired bool, b []byte, err error) bool {
	switch {
	case fired:
		if o.kind == "normal" && err == nil {
			m.r.fail("C14", "jsonfault:"+op.K, op, "an element's encoding failed, but a result was returned: %.200s", b)
		}
		return false
	case o.kind != "normal" || err != nil:
		m.r.fail("C14", "json:"+op.K, op, "encoding failed: %s %v %v", o.kind, o.val, err)
		return false
	}
	return true
}

func (m *setMach[T]) checkSetText(op *Op, out string, want ids, plus bool) {
	if plus {
		m.checkPlus(op, out, want)
		return
	}
	toks, ok := splitList(out, "{", "}")
	if len(toks) == 0 && want.count() == 1 {
		toks = []string{""} // an element that renders as nothing
	}
	got, bad := m.tokenIDs(toks)
	if !ok || bad != "" || !sameInts(got, want.list()) {
		m.r.fail("C14", "text:"+op.K, op, "renders as %.300q, want elements %v %s", out, want, bad)
	}
}

// checkPlus checks the structural rendering: every element occurs once.
func (m *setMach[T]) checkPlus(op *Op, out string, want ids) {
	switch m.d.Name {
	case "el", "sm", "string":
	default:
		return
	}
	var got []int
	for _, s := range tokRE.FindAllString(out, -1) {
		n, _ := strconv.Atoi(s[1:])
		got = append(got, n)
	}
	sort.Ints(got)
	if m.d.Name == "string" {
		want = want.without(0)
	}
	if !sameInts(got, want.list()) {
		m.r.fail("C14", "plus:"+op.K, op, "%%+v renders as %.400q, want elements %v", out, want)
	}
}
