// Package hsips holds the harnesses of the SIP package.
package hsips

import (
	"github.com/moggle-mog/goav/sips"

	"verif/harness/u"
	"verif/harness/v"
)

const first = "MESSAGE sip:a@b SIP/2.0\r\n"

// message is a message with the given lines after the start line.
func message(lines string) *sips.SIP {
	s := sips.NewSIP()
	err := s.ParseBytes([]byte(first + lines + "content-length: 0\r\n\r\n"))
	v.Assert(err == nil, "a message with a start line and a content length is accepted")
	return s
}

// letters are the letters of the upper-case or lower-case s in arbitrary case.
func letters(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' {
			b[i] = c ^ v.U8()&0x20
		}
	}
	return string(b)
}

// within is a string of n characters for which ok holds.
func within(n int, ok func(c byte) bool) string {
	b := v.Bytes(n)
	for _, c := range b {
		v.Assume(ok(c))
	}
	return string(b)
}

func between(c, lo, hi byte) bool { return v.And(c >= lo, c <= hi) }

func one(c byte, of string) bool {
	r := false
	for i := 0; i < len(of); i++ {
		r = v.Or(r, c == of[i])
	}
	return r
}

func alnum(c byte) bool {
	return v.Or(between(c, 'a', 'z'), between(c, 'A', 'Z'), between(c, '0', '9'))
}
func digit(c byte) bool { return between(c, '0', '9') }
func token(c byte) bool { return v.Or(alnum(c), one(c, "-.!%*_+`'~")) }
func print(c byte) bool { return between(c, 0x20, 0x7e) }

// ascii is a string of n ASCII characters.
func ascii(n int) string { return within(n, func(c byte) bool { return c < 0x80 }) }

// some is a string of n characters, the last ones ASCII.
func some(n int) string {
	k := v.Param("any", 1)
	if k > n {
		k = n
	}
	return v.Str(k) + ascii(n-k)
}

// S01_user: any bytes as a user, and after the beginnings of one.
func S01_user() {
	s := []string{"", "\"", "sip:", "<sips:u@h:", "\"a\" <tel:u", "x <sip:u@h>;"}[v.Choose(6)]
	x := sips.NewSIPUser(s + some(v.Choose(v.Param("user", 3)+1)))
	v.Assert(x != nil, "there is a result")
	x.Bytes()
	v.Cover("S01 user")
}

// S01_request: any bytes as a request URI.
func S01_request() {
	s := []string{"", "sip:", "sips:u@h:", "tel:u@h;"}[v.Choose(4)]
	x := sips.NewSIPRequest(s + some(v.Choose(v.Param("request", 4)+1)))
	v.Assert(x != nil, "there is a result")
	x.Bytes()
	v.Cover("S01 request")
}

// S01_via: any bytes as a Via.
func S01_via() {
	s := []string{"", "SIP/2.0/", "SIP/2.0/UDP h:", "SIP/2.0/SCTP h;"}[v.Choose(4)]
	x := sips.NewSIPVia(s + some(v.Choose(v.Param("via", 4)+1)))
	v.Assert(x != nil, "there is a result")
	x.Bytes()
	v.Cover("S01 via")
}

// S01_cseq: any bytes as a CSeq.
func S01_cseq() {
	x := sips.NewSIPCseq(v.Str(v.Choose(v.Param("cseq", 6) + 1)))
	v.Assert(x != nil, "there is a result")
	x.Bytes()
	v.Cover("S01 cseq")
}

// S01_auth: any bytes as an authorization.
func S01_auth() {
	s := []string{"", "Digest", "DIGEST ", "digest a=\""}[v.Choose(4)]
	x := sips.NewSIPAuth(s + some(v.Choose(v.Param("auth", 3)+1)))
	v.Assert(x != nil, "there is a result")
	x.Args.CommaString()
	v.Cover("S01 auth")
}

// S01_args: any bytes as an argument list.
func S01_args() {
	s := some(v.Choose(v.Param("args", 3) + 1))
	switch k := v.Choose(5); k {
	case 4:
		sips.ParseArgs(s).SemicolonString()
	default:
		a := sips.ParseArgsPairs([]string{"", "a=", "a=\"", "a;b=\"\\"}[k] + s)
		switch v.Choose(3) {
		case 0:
			a.SemicolonString()
		case 1:
			a.CommaString()
		default:
			a.CRLFString()
		}
	}
	v.Cover("S01 args")
}

// S01_line: any bytes as a start line, and after the beginnings of one.
func S01_line() {
	s := []string{"", "SIP/2.0 ", "SIP/2.0 200 ", "ACK ", "ACK sip:a@b ", "SIP"}[v.Choose(6)]
	x := sips.NewSIP()
	x.ParseFirstLine([]byte(s + some(v.Choose(v.Param("line", 4)+1))))
	v.Cover("S01 line")
}

// S01_bytes: any bytes as a message.
func S01_bytes() {
	x := sips.NewSIP()
	err := x.ParseBytes([]byte(some(v.Choose(v.Param("bytes", 5) + 1))))
	v.Assert(err != nil, "a message without a content length is an error")
	v.Cover("S01 bytes")
}

// S01_headers: lines of all shapes in a message.
func S01_headers() {
	var b []byte
	for i, n := 0, 1+v.Choose(v.Param("lines", 2)); i < n; i++ {
		k := []string{":", "a:", " ", "\t", "", "from:", "l:", "\"", "contact: \""}[v.Choose(9)]
		e := []string{"\r\n", "\n", "\r"}[v.Choose(3)]
		b = u.Cat(b, []byte(k), v.Bytes(v.Choose(2)), []byte(e))
	}
	if v.Bool() {
		b = u.Cat([]byte(first), b)
	}
	x := sips.NewSIP()
	x.ParseBytes(b)
	v.Cover("S01 headers")
}

// S01_header: any bytes as the value of each header that is looked into.
func S01_header() {
	h := []string{"from: ", "to: \"", "t:", "contact: ", "via: SIP/2.0/UDP ", "v:", "cseq:", "content-length: ", "l: ", "x: "}[v.Choose(10)]
	n, l := v.Param("value", 3), "l: 4\r\n"
	if h == "content-length: " || h == "l: " {
		n, l = v.Param("number", 2), ""
	}
	b := u.Cat([]byte(first+h), []byte(some(v.Choose(n+1))), []byte("\r\n"+l+"\r\nbody"))
	x := sips.NewSIP()
	if x.ParseBytes(b) == nil {
		v.Assert(x.From != nil && x.To != nil && x.Contact != nil && x.Via != nil && x.Cseq != nil, "there are results")
		x.Headers.GetAuthorization()
	}
	v.Cover("S01 header")
}

// S01_again: one structure used for two messages.
func S01_again() {
	x := sips.NewSIP()
	x.ParseBytes([]byte([]string{"SIP/2.0 200 OK\r\nl: 0\r\n\r\n", first + "l: 3\r\n", first, " x\r\n", ""}[v.Choose(5)]))
	x.ParseBytes(u.Cat(v.Bytes(v.Choose(3)), []byte([]string{"", first + " x\r\n\ty\r\nl: 0\r\n\r\n", "SIP/2.0 200 OK\r\n\t\r\n"}[v.Choose(3)])))
	if !x.IsResponse && x.Request == nil {
		return
	}
	x.Bytes()
	v.Cover("S01 again")
}

var methods = []string{"INVITE", "ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER", "PRACK", "SUBSCRIBE", "NOTIFY", "PUBLISH", "INFO", "REFER", "MESSAGE", "UPDATE", "PING"}
var versions = []string{"SIP/1.0", "SIP/2.0"}

// S02_request: request lines.
func S02_request() {
	m, r := v.Choose(len(methods)), v.Choose(2)
	user, host := within(1+v.Choose(2), alnum), within(1+v.Choose(2), alnum)
	uri := "sip:" + user + "@" + host
	port := ""
	if v.Bool() {
		port = within(2, digit)
		uri += ":" + port
	}
	s := sips.NewSIP()
	err := s.ParseFirstLine([]byte(letters(methods[m]) + " " + uri + " " + versions[r]))
	v.Assert(err == nil, "a request line is accepted")
	isRequest(s, m, r, user, host, port)
	s.Headers.SetContentLength(0)
	t := sips.NewSIP()
	v.Assert(t.ParseBytes(s.Bytes()) == nil, "a serialised request is accepted")
	isRequest(t, m, r, user, host, port)
	v.Cover("S02 request")
}

func isRequest(s *sips.SIP, m, r int, user, host, port string) {
	v.Assert(!s.IsResponse && int(s.Method) == m+1 && int(s.Version) == r+1, "the method and the version are those of the line")
	v.Assert(s.Request != nil && s.Request.URIType == "sip", "the URI is that of the line")
	v.Assert(v.And(v.EqS(s.Request.User, user), v.EqS(s.Request.Host, host), v.EqS(s.Request.Port, port)), "the URI is that of the line")
	v.Assert(s.Method.String() == methods[m], "the method's name is that of the line")
}

// S02_version: the version of a request in any case.
func S02_version() {
	r := v.Choose(2)
	s := sips.NewSIP()
	err := s.ParseFirstLine([]byte("PING sip:a@b " + letters(versions[r])))
	v.Assert(err == nil && int(s.Version) == r+1, "the method and the version are those of the line")
	v.Cover("S02 version")
}

// S02_status: status lines.
func S02_status() {
	r := v.Choose(2)
	code := within(3, digit)
	v.Assume(code[0] > '0')
	reason := within(v.Choose(v.Param("reason", 4)+1), print)
	s := sips.NewSIP()
	err := s.ParseFirstLine([]byte(letters(versions[r]) + " " + code + " " + reason))
	v.Assert(err == nil, "a status line is accepted")
	n := int(code[0]-'0')*100 + int(code[1]-'0')*10 + int(code[2]-'0')
	v.Assert(s.IsResponse && int(s.Version) == r+1 && s.ResponseCode.Int() == n, "the version and the code are those of the line")
	v.Assert(v.EqS(s.ResponseStatus, reason), "the reason phrase is that of the line")
	if len(reason) == 0 {
		return
	}
	b := s.Bytes()
	w := versions[r] + " " + code + " " + reason + "\r\n"
	v.Assert(len(b) >= len(w) && v.EqS(string(b[:len(w)]), w), "the serialised status line is the one parsed")
	t := sips.NewSIP()
	v.Assert(t.ParseBytes(b) == nil, "a serialised response is accepted")
	v.Assert(t.IsResponse && int(t.Version) == r+1 && t.ResponseCode.Int() == n && v.EqS(t.ResponseStatus, reason), "a serialised response has the same status line")
	v.Cover("S02 status")
}

// S02_code: the text of every code is in a response made without a reason phrase.
func S02_code() {
	code := []int{100, 180, 181, 182, 183, 200, 300, 301, 302, 305, 380, 400, 401, 402, 403, 404, 405, 406, 407, 408, 410, 413, 414, 415, 416, 420, 421, 423, 480, 481, 482, 483, 484, 485, 486, 487, 488, 491, 493, 500, 501, 502, 503, 504, 505, 513, 600, 603, 604, 606}
	c := sips.SIPStatus(code[v.Choose(len(code))])
	b := sips.MakeResponse(c, nil, nil).Bytes()
	v.Assert(len(c.Text()) > 0, "a status has a text")
	t := sips.NewSIP()
	v.Assert(t.ParseBytes(b) == nil, "a serialised response is accepted")
	v.Assert(t.IsResponse && t.Version == sips.SIPVersion2 && t.ResponseCode == c && t.ResponseStatus == c.Text(), "a serialised response has the same status line")
	v.Cover("S02 code")
}

// upper reports whether s is w in any case.
func upper(s, w string) bool {
	if len(s) != len(w) {
		return false
	}
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		c -= uint8(v.Ite(between(c, 'a', 'z'), 0x20, 0))
		ok = v.And(ok, c == w[i])
	}
	return ok
}

func numeric(s string) bool {
	if len(s) > 1 && (s[0] == '-' || s[0] == '+') {
		s = s[1:]
	}
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		ok = v.And(ok, digit(s[i]))
	}
	return ok
}

// S02_any: lines that are not start lines are errors.
func S02_any() {
	k := []string{"", "SIP/2.0 ", "ACK a", "ack sip:a ", "SIP/1.0 2", "SIP/2.", "sip", "BYE  "}[v.Choose(8)]
	line := k + ascii(v.Choose(v.Param("rest", 5)+1)) + []string{"", " SIP/2.0", "/2.0 x", " OK"}[v.Choose(4)]
	s := sips.NewSIP()
	err := s.ParseFirstLine([]byte(line))
	var parts []string
	at := 0
	for i := 0; i < len(line) && len(parts) < 2; i++ {
		if line[i] == ' ' {
			parts = append(parts, line[at:i])
			at = i + 1
		}
	}
	parts = append(parts, line[at:])
	if len(parts) < 3 {
		v.Assert(err != nil, "a line of fewer than three parts is an error")
		v.Cover("S02 parts")
		return
	}
	if err != nil {
		return
	}
	status := v.And(v.Or(upper(parts[0], "SIP/1.0"), upper(parts[0], "SIP/2.0")), numeric(parts[1]))
	known := false
	for _, m := range methods {
		known = v.Or(known, upper(parts[0], m))
	}
	request := v.And(known, v.Or(upper(parts[2], "SIP/1.0"), upper(parts[2], "SIP/2.0")))
	v.Assert(v.Or(status, request), "an unknown method, version or code is an error")
	v.Assert(s.IsResponse == status, "responses and requests are told apart")
	v.Cover("S02 any")
}
