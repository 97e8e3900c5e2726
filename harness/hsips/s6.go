package hsips

import (
	"bufio"

	"github.com/moggle-mog/goav/sips"

	"verif/harness/u"
	"verif/harness/v"
)

// orders are all the orders of the lines, each order as one text.
func orders(lines []string) []string {
	if len(lines) == 0 {
		return []string{""}
	}
	var r []string
	for i := range lines {
		rest := append(append([]string(nil), lines[:i]...), lines[i+1:]...)
		for _, o := range orders(rest) {
			r = append(r, lines[i]+o)
		}
	}
	return r
}

func isOneOf(s string, of []string, label string) {
	ok := false
	for _, o := range of {
		if len(o) == len(s) {
			ok = v.Or(ok, v.EqS(s, o))
		}
	}
	v.Assert(ok, label)
}

type line struct{ name, value string }

// someHeaders are up to n headers of one value each.
func someHeaders(n int) (sips.SIPHeader, []line) {
	h := sips.NewSIPHeader()
	var l []line
	names := []string{"Via", "call-id", "X-Y", "s"}
	at := v.Choose(len(names))
	for i, m := 0, v.Choose(n+1); i < m; i++ {
		x := line{names[(at+i)%len(names)], value(v.Choose(v.Param("value", 2) + 1))}
		h.SetFirstHeader(x.name, x.value)
		l = append(l, x)
	}
	return h, l
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 0x20
		}
	}
	return string(b)
}

// text is what a message with the given parts is written as.
func isText(got, start string, l []line, body []byte) {
	lines := []string{"content-length: " + decimal(len(body)) + "\r\n"}
	for _, x := range l {
		lines = append(lines, lower(x.name)+": "+x.value+"\r\n")
	}
	head := start + "\r\n"
	end := "\r\n" + string(body)
	n := len(got) - len(end)
	whole := n >= 2 && v.EqS(got[n-2:], "\r\n"+end)
	if len(body) == 0 {
		v.AssertKnown("no-blank-line", whole, true, "the headers are followed by a blank line and the body")
		if !whole {
			n = len(got)
		}
	} else {
		v.Assert(whole, "the headers are followed by a blank line and the body")
	}
	var os []string
	for _, o := range orders(lines) {
		os = append(os, head+o)
	}
	isOneOf(got[:n], os, "the start line and every header line are written, with the body's length")
}

// isBack checks what a written message is parsed to.
func isBack(got string, l []line, body []byte) *sips.SIP {
	t := sips.NewSIP()
	v.Assert(t.ParseBytes([]byte(got)) == nil, "a serialised message is accepted")
	for _, x := range l {
		isValues(t.Headers, x.name, x.value)
	}
	isValues(t.Headers, "content-length", decimal(len(body)))
	v.Assert(len(t.Headers) == len(l)+1, "no other headers come back")
	isBody("body-blank-message", t, body, body)
	return t
}

// isBody checks the payload of a message of n bytes followed by rest, of which the body is the first.
func isBody(known string, t *sips.SIP, body, rest []byte) {
	p := t.Payload()
	n := len(body) - 2
	if n < 0 {
		n = 0
	}
	alt := u.Cat([]byte("\r\n"), rest[:n])
	if len(body) == 0 {
		alt = p // the message may have no blank line, or have it as its payload
		v.Assert(len(p) == 0 || v.EqS(string(p), "\r\n"), "the body is the Content-Length bytes after the blank line")
	}
	v.AssertKnown(known, u.Eq(p, body), u.Eq(p, alt), "the body is the Content-Length bytes after the blank line")
}

// S06_request: requests built by the helper, in every order of headers.
func S06_request() {
	m := v.Choose(len(methods))
	user, host := within(1, alnum), within(1, alnum)
	h, l := someHeaders(v.Param("headers", 2))
	body := v.Bytes(v.Choose(v.Param("body", 3) + 1))
	s := sips.MakeRequest(sips.SIPMethod(m+1), &sips.SIPRequest{URIType: "sips", User: user, Host: host}, h, body)
	v.Assert(s.Method == sips.SIPMethod(m+1) && !s.IsResponse && u.Eq(s.Payload(), body), "a request carries what it was given")
	got := s.String()
	isText(got, methods[m]+" sips:"+user+"@"+host+" SIP/2.0", l, body)
	t := isBack(got, l, body)
	v.Assert(!t.IsResponse && int(t.Method) == m+1 && t.Version == sips.SIPVersion2, "the start line comes back")
	v.Assert(t.Request.URIType == "sips" && v.EqS(t.Request.User, user) && v.EqS(t.Request.Host, host), "the start line comes back")
	v.Cover("S06 request")
}

// S06_response: responses built by the helper.
func S06_response() {
	code := sips.SIPStatus(v.Int(100, 699))
	h, l := someHeaders(v.Param("headers", 2))
	body := v.Bytes(v.Choose(v.Param("body", 3) + 1))
	s := sips.MakeResponse(code, h, body)
	v.Assert(s.ResponseCode == code && s.IsResponse && u.Eq(s.Payload(), body), "a response carries what it was given")
	reason := value(v.Choose(3))
	s.ResponseStatus = reason
	if len(reason) == 0 {
		v.Assume(code == sips.StatusOK)
		reason = "OK"
	}
	got := s.String()
	isText(got, "SIP/2.0 "+decimal(int(code))+" "+reason, l, body)
	t := isBack(got, l, body)
	v.Assert(t.IsResponse && t.ResponseCode == code && t.Version == sips.SIPVersion2 && v.EqS(t.ResponseStatus, reason), "the start line comes back")
	v.Cover("S06 response")
}

// S06_parsed: a parsed message with another body is written with that body's length.
func S06_parsed() {
	x := value(1)
	s := sips.NewSIP()
	name := []string{"content-length", "Content-Length", "l", "L"}[v.Choose(4)]
	err := s.ParseBytes([]byte(first + name + ": " + []string{"0", "1", "77"}[v.Choose(3)] + "\r\nsubject: " + x + "\r\n\r\n"))
	v.Assert(err == nil, "a message is accepted")
	body := v.Bytes(v.Choose(v.Param("body", 3) + 1))
	s.SetBody(body)
	if v.Bool() {
		h := sips.NewSIPHeader()
		h.SetFirstHeader("Subject", x)
		h.SetFirstHeader(name, "5")
		s.SetHeader(h)
	}
	got := s.String()
	l := []line{{"subject", x}}
	isText(got, "MESSAGE sip:a@b SIP/2.0", l, body)
	isBack(got, l, body)
	v.Cover("S06 parsed")
}

// S06_repeat: a message with a repeated header, sent on.
func S06_repeat() {
	names := [][2]string{{"via", "v"}, {"record-route", "Record-Route"}, {"contact", "m"}}[v.Choose(3)]
	x, y := value(1), value(1+v.Choose(v.Param("value", 2)))
	s := sips.NewSIP()
	err := s.ParseBytes([]byte(first + names[0] + ": " + x + "\r\nl: 0\r\n" + names[v.Choose(2)] + ": " + y + "\r\n\r\n"))
	v.Assert(err == nil, "a message is accepted")
	delete(s.Headers, "content-length")
	body := v.Bytes(3)
	s.SetBody(body)
	got := s.String()
	n := names[0]
	start := "MESSAGE sip:a@b SIP/2.0\r\n"
	end := "\r\n" + string(body)
	length := "content-length: 3\r\n"
	lines, folded := n+": "+x+"\r\n"+n+": "+y+"\r\n", n+": "+x+"\r\n "+y+"\r\n"
	is := func(a string) bool {
		ok := false
		for _, o := range []string{start + length + a + end, start + a + length + end} {
			ok = v.Or(ok, len(o) == len(got) && v.EqS(got, o))
		}
		return ok
	}
	v.AssertKnown("repeated-header-folded", is(lines), is(folded), "every header line is written")
	t := sips.NewSIP()
	v.Assert(t.ParseBytes([]byte(got)) == nil, "a serialised message is accepted")
	back := t.Headers.GetHeader(n)
	ok := len(back) == 2 && v.EqS(back[0], x) && v.EqS(back[1], y)
	alt := len(back) == 1 && v.EqS(back[0], x+" "+y)
	v.AssertKnown("repeated-header-folded", ok, alt, "a header comes back with all its values")
	v.Cover("S06 repeat")
}

// S06_long: bodies of many bytes.
func S06_long() {
	n := v.Pick(9, 10, 99, 100, 1000, 4095, 4096, 4097, 8192, 10000, 65536, 70000)
	body := make([]byte, n)
	body[0], body[n-3], body[n-1] = v.U8(), v.U8(), v.U8()
	s := sips.MakeRequest(sips.SIPMethodInfo, sips.NewSIPRequest("sip:a@b"), nil, body)
	got := s.String()
	isText(got, "INFO sip:a@b SIP/2.0", nil, body)
	isBack(got, nil, body)
	v.Cover("S06 long")
}

// after is what a reader that has just parsed a message gives next.
func after(r *bufio.Reader) []byte {
	var b []byte
	for {
		c, err := r.ReadByte()
		if err != nil {
			return b
		}
		b = append(b, c)
	}
}

// isRead checks the body of a message followed by rest, and where the reader stands.
func isRead(t *sips.SIP, n int, rest []byte, r *bufio.Reader) {
	k := n
	if k > len(rest) {
		k = len(rest)
	}
	short := n - 2
	if short < 0 {
		short = 0
	}
	if short > len(rest) {
		short = len(rest)
	}
	p := t.Payload()
	next := after(r)
	ok := u.Eq(p, rest[:k]) && u.Eq(next, rest[k:])
	alt := u.Eq(p, u.Cat([]byte("\r\n"), rest[:short])) && u.Eq(next, rest[short:])
	v.AssertKnown("body-blank", ok, alt, "the body is the Content-Length bytes after the blank line, and nothing else is read")
}

// S07_body: every content length and body, however it is read.
func S07_body() {
	n := v.Choose(v.Param("n", 6) + 1)
	rest := v.Bytes(v.Choose(v.Param("n", 6) + 3))
	head := first + []string{"Content-Length", "l"}[v.Choose(2)] + ": " + decimal(n) + "\r\nx: y\r\n\r\n"
	r := bufio.NewReader(&u.Reader{B: u.Cat([]byte(head), rest), Mode: v.Choose(u.Modes)})
	t := sips.NewSIP()
	v.Assert(t.Parse(r) == nil, "a message is accepted however it is read")
	isValues(t.Headers, "x", "y")
	isRead(t, n, rest, r)
	v.Cover("S07 body")
}

// S07_long: bodies longer than what the reader buffers.
func S07_long() {
	n := v.Pick(100, 4000, 4096, 4097, 5000, 8192, 9000, 20000, 70000, 140000)
	m := n + v.Pick(-101, -1, 0, 1, 300)
	if m < 0 {
		v.Skip()
	}
	rest := make([]byte, m)
	for i := range rest {
		rest[i] = byte(i) ^ byte(i>>8)
	}
	for _, i := range []int{0, n - 3, n - 2, n - 1, n, m - 1, 3999, 4096} {
		if i >= 0 && i < m {
			rest[i] = v.U8()
		}
	}
	head := first + "Content-Length: " + decimal(n) + "\r\n\r\n"
	r := bufio.NewReader(&u.Reader{B: u.Cat([]byte(head), rest), Mode: []int{u.Whole, u.Kilo, u.WithEOF}[v.Choose(3)]})
	t := sips.NewSIP()
	v.Assert(t.Parse(r) == nil, "a message is accepted however it is read")
	isRead(t, n, rest, r)
	v.Cover("S07 long")
}

// S07_next: messages after one another.
func S07_next() {
	x, y := value(1), value(1)
	bodies := v.Bytes(v.Choose(2) * 4)
	b := first + "s: " + x + "\r\nl: " + decimal(len(bodies)) + "\r\n\r\n" + string(bodies)
	b += "SIP/2.0 200 OK\r\ns: " + y + "\r\nl: 0\r\n\r\n"
	r := bufio.NewReader(&u.Reader{B: []byte(b), Mode: v.Choose(u.Modes)})
	t := sips.NewSIP()
	v.Assert(t.Parse(r) == nil, "a message is accepted however it is read")
	isValues(t.Headers, "subject", x)
	t2 := sips.NewSIP()
	err := t2.Parse(r)
	if len(bodies) > 0 {
		// the next message starts within the body of the first
		ok := err == nil && t2.IsResponse && v.EqS(t2.Headers.GetFirstHeader("subject"), y)
		v.AssertKnown("body-blank", ok, err != nil, "the next message is found")
		return
	}
	v.Assert(err == nil && t2.IsResponse, "the next message is found")
	isValues(t2.Headers, "subject", y)
	v.Cover("S07 next")
}

// S07_number: content lengths that are none.
func S07_number() {
	x := ascii(v.Choose(v.Param("number", 2) + 1))
	bad := len(x) == 0
	for i := 0; i < len(x); i++ {
		v.Assume(v.And(x[i] != '\r', x[i] != '\n', x[i] != ' ', x[i] != '\t'))
		bad = v.Or(bad, !digit(x[i]))
	}
	if len(x) > 0 {
		v.Assume(v.And(x[0] != '+', x[0] != '-'))
	}
	v.Assume(bad)
	t := sips.NewSIP()
	l := "content-length: " + x + "\r\n"
	if v.Bool() {
		l = "x: 0\r\n"
	}
	err := t.ParseBytes([]byte(first + l + "\r\nabc"))
	v.Assert(err != nil, "a missing or non-numeric content length is an error")
	v.Cover("S07 number")
}

// failing delivers its bytes and then an error.
type failing struct{ u.Reader }

func (f *failing) Read(p []byte) (int, error) {
	if f.Pos >= len(f.B) {
		return 0, u.ErrRead
	}
	return f.Reader.Read(p)
}

// S07_failing: a stream that breaks before the body is complete.
func S07_failing() {
	rest := v.Bytes(v.Choose(4))
	b := u.Cat([]byte(first+"content-length: 9\r\n\r\n"), rest)
	if v.Bool() {
		b = u.Cat([]byte(first + "s: x\r\ncontent-length: 0\r\nx: y\r\n\r\n"))
		b = b[:len(b)-1-v.Choose(len(b)-1)]
	} else if v.Bool() {
		b = b[:v.Choose(len(b))]
	}
	r := bufio.NewReader(&failing{u.Reader{B: b, Mode: v.Choose(3)}})
	t := sips.NewSIP()
	v.Assert(t.Parse(r) != nil, "a read error is reported")
	v.Cover("S07 failing")
}

// S06_many: messages of many headers.
func S06_many() {
	n := v.Pick(8, v.Param("many", 40))
	body := v.Bytes(3)
	h := sips.NewSIPHeader()
	var l []line
	for i := 0; i < n; i++ {
		x := line{"X-" + decimal(i), value(i % 3)}
		h.SetFirstHeader(x.name, x.value)
		l = append(l, x)
	}
	s := sips.MakeRequest(sips.SIPMethodInfo, sips.NewSIPRequest("sip:a@b"), h, body)
	got := s.String()
	t := isBack(got, l, body)
	v.Assert(!t.IsResponse && t.Method == sips.SIPMethodInfo, "the start line comes back")
	v.Cover("S06 many")
}

// S07_many: many messages after one another in one stream.
func S07_many() {
	n := v.Param("many", 20)
	b := ""
	var xs []string
	for i := 0; i < n; i++ {
		x := value(1 + i%2)
		xs = append(xs, x)
		b += "SIP/2.0 200 OK\r\ns: " + x + "\r\nContent-Length: 0\r\n\r\n"
	}
	r := bufio.NewReader(&u.Reader{B: []byte(b), Mode: v.Choose(u.Modes)})
	for i := 0; i < n; i++ {
		t := sips.NewSIP()
		v.Assert(t.Parse(r) == nil && t.IsResponse, "the next message is found")
		isValues(t.Headers, "subject", xs[i])
	}
	v.Cover("S07 many")
}

// S07_lines: lines longer than what the reader buffers, however they are read.
func S07_lines() {
	n := v.Pick(4000, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 5000, 8192, 9000)
	x := make([]byte, n)
	for i := range x {
		x[i] = 'a' + byte(i%26)
	}
	for _, i := range []int{0, 4093, 4094, 4095, 4096, n - 1} {
		if i < n {
			x[i] = v.U8()
			v.Assume(v.And(print(x[i]), x[i] != ' '))
		}
	}
	at := v.Choose(3)
	b := first
	switch at {
	case 0:
		b += "x: " + string(x) + "\r\n"
	case 1:
		b += "x: y\r\n\t" + string(x) + "\r\n"
	default:
		b = "SIP/2.0 200 " + string(x) + "\r\nx: y\r\n"
	}
	rest := v.Bytes(3)
	r := bufio.NewReader(&u.Reader{B: u.Cat([]byte(b+"l: 0\r\ns: z\r\n\r\n"), rest), Mode: []int{u.Whole, u.Kilo, u.WithEOF}[v.Choose(3)]})
	t := sips.NewSIP()
	v.Assert(t.Parse(r) == nil, "a message is accepted however long its lines are")
	switch at {
	case 0:
		isValues(t.Headers, "x", string(x))
	case 1:
		isValues(t.Headers, "x", "y "+string(x))
	default:
		isValues(t.Headers, "x", "y")
		v.Assert(t.IsResponse && v.EqS(t.ResponseStatus, string(x)), "the start line is read whole")
	}
	isValues(t.Headers, "subject", "z")
	isRead(t, 0, rest, r)
	v.Cover("S07 lines")
}
