package hsips

import (
	"bufio"

	"github.com/moggle-mog/goav/sips"

	"verif/harness/u"
	"verif/harness/v"
)

// msg is a message with arbitrary characters in its parts.
type msg struct {
	text                    string
	response                bool
	user, host, tag, branch string
	body                    []byte
	subject                 string
}

func someMsg(name string) *msg {
	m := &msg{response: v.Bool(), body: v.Bytes(4)}
	m.user, m.host, m.tag, m.branch = within(1, alnum), within(1, alnum), within(1, alnum), within(1, alnum)
	m.subject = value(1) + name
	first := "INVITE sip:" + m.user + "@" + m.host + " SIP/2.0\r\n"
	if m.response {
		first = "SIP/2.0 180 " + m.subject + "\r\n"
	}
	m.text = first + "From: \"" + m.user + "\" <sip:" + m.user + "@" + m.host + ">;tag=" + m.tag + "\r\n" +
		"v: SIP/2.0/UDP " + m.host + ":5060;branch=" + m.branch + "\r\n" +
		"CSeq: 7 INVITE\r\nsubject: " + m.subject + "\r\n " + m.tag + "\r\nl: 4\r\n\r\n" + string(m.body)
	return m
}

// is checks all that has been parsed, except the body.
func (m *msg) is(s *sips.SIP) {
	label := "a message is that of its own text"
	v.Assert(s.IsResponse == m.response && s.Version == sips.SIPVersion2, label)
	if m.response {
		v.Assert(s.ResponseCode == 180 && v.EqS(s.ResponseStatus, m.subject), label)
	} else {
		v.Assert(s.Method == sips.SIPMethodInvite && v.EqS(s.Request.User, m.user) && v.EqS(s.Request.Host, m.host), label)
	}
	v.Assert(v.EqS(s.From.Name, m.user) && v.EqS(s.From.User, m.user) && v.EqS(s.From.Host, m.host) && v.EqS(s.From.Args["tag"], m.tag), label)
	v.Assert(s.Via.Trans == "UDP" && v.EqS(s.Via.Host, m.host) && s.Via.Port == "5060" && v.EqS(s.Via.Args["branch"], m.branch), label)
	v.Assert(s.Cseq.ID == "7" && s.Cseq.Method == "INVITE", label)
	isValues(s.Headers, "subject", m.subject+" "+m.tag)
	v.Assert(len(s.Headers) == 5 && len(s.From.Args) == 1 && len(s.Via.Args) == 1, label)
}

// S08_parse: a message is parsed while another one is being received.
func S08_parse() {
	a, b := someMsg("a"), someMsg("bb")
	alone := sips.NewSIP()
	v.Assert(alone.ParseBytes([]byte(a.text)) == nil, "a message is accepted")
	want := append([]byte(nil), alone.Payload()...)
	alone = sips.NewSIP()
	v.Assert(alone.ParseBytes([]byte(b.text)) == nil, "a message is accepted")
	want2 := append([]byte(nil), alone.Payload()...)
	h := &u.Hook{At: v.Choose(v.Param("places", 40))}
	s, t := sips.NewSIP(), sips.NewSIP()
	h.F = func() {
		v.Assert(t.ParseBytes([]byte(b.text)) == nil, "a message is accepted")
		b.is(t)
	}
	// the text arrives in parts of a size of interest
	r := &parts{b: []byte(a.text), n: v.Pick(7, 16), h: h}
	v.Assert(s.Parse(bufio.NewReader(r)) == nil, "a message is accepted")
	h.Done()
	a.is(s)
	b.is(t)
	v.Assert(u.Eq(s.Payload(), want) && u.Eq(t.Payload(), want2), "a message is that of its own text")
	v.Cover("S08 parse")
}

// parts delivers n bytes per read, with a place before and one after each.
type parts struct {
	b []byte
	n int
	h *u.Hook
}

func (r *parts) Read(p []byte) (int, error) {
	n := r.n
	if n > len(r.b) {
		n = len(r.b)
	}
	k, err := u.HookReader{Reader: &u.Reader{B: r.b[:n:n]}, Hook: r.h}.Read(p)
	r.b = r.b[k:]
	return k, err
}

// S08_kept: a parsed message stays as it is whatever happens to the text and to other messages.
func S08_kept() {
	a, b := someMsg("a"), someMsg("bb")
	buf := []byte(a.text)
	s, t := sips.NewSIP(), sips.NewSIP()
	v.Assert(s.ParseBytes(buf) == nil, "a message is accepted")
	body := append([]byte(nil), s.Payload()...)
	v.Assert(u.Eq(buf, []byte(a.text)), "the text is left unchanged")
	copy(buf, b.text)
	v.Assert(t.ParseBytes([]byte(b.text)) == nil, "a message is accepted")
	t.Headers.SetFirstHeader("subject", "other")
	t.From.Args["tag"], t.Via.Args["branch"] = "other", "other"
	t.SetBody([]byte("other body"))
	t.Bytes()
	a.is(s)
	v.Assert(u.Eq(s.Payload(), body), "a message is that of its own text")
	v.Cover("S08 kept")
}

// S08_shared: one table of headers for several messages.
func S08_shared() {
	h := sips.NewSIPHeader()
	x := value(1)
	h.SetFirstHeader("subject", x)
	a, b := v.Bytes(2), v.Bytes(1+v.Choose(3))
	ka, kb := append([]byte(nil), a...), append([]byte(nil), b...)
	s := sips.MakeRequest(sips.SIPMethodInfo, sips.NewSIPRequest("sip:a@b"), h, a)
	t := sips.MakeResponse(200, h, b)
	l := []line{{"subject", x}}
	isText(t.String(), "SIP/2.0 200 OK", l, kb)
	p := s.Bytes()
	isText(t.String(), "SIP/2.0 200 OK", l, kb)
	isText(string(p), "INFO sip:a@b SIP/2.0", l, ka)
	v.Assert(u.Eq(a, ka) && u.Eq(b, kb), "a body is left unchanged")
	v.Cover("S08 shared")
}

// S08_written: what has been written stays as it is.
func S08_written() {
	x, y := within(2, alnum), within(1, alnum)
	m, n := &sips.SIPUser{URIType: "sip", User: x, Host: y}, &sips.SIPUser{URIType: "sips", User: y, Host: x, Port: "1"}
	r, q := &sips.SIPRequest{URIType: "sip", User: x, Host: y}, &sips.SIPRequest{URIType: "tel", User: y, Host: y}
	w, z := &sips.SIPVia{Trans: "UDP", Host: x, Args: sips.Args{"a": y}}, &sips.SIPVia{Trans: "TCP", Host: y, Port: "22"}
	c, d := &sips.SIPCseq{ID: "12", Method: "ACK"}, &sips.SIPCseq{ID: "3", Method: "BYE"}
	e, f := sips.SIPHeader{"x": {x}}, sips.SIPHeader{"y": {y}}
	pairs := [][2]func() []byte{{m.Bytes, n.Bytes}, {r.Bytes, q.Bytes}, {w.Bytes, z.Bytes}, {c.Bytes, d.Bytes}, {e.Bytes, f.Bytes}}
	var out [][]byte
	var keep []string
	for _, p := range pairs {
		a := p[0]()
		out, keep = append(out, a), append(keep, string(a))
		b := p[1]()
		out, keep = append(out, b), append(keep, string(b))
		v.Assert(u.Eq(p[0](), a), "a value is written the same way each time")
	}
	for i, b := range out {
		v.Assert(v.EqS(string(b), keep[i]), "what has been written stays as it is")
	}
	i := sips.ParseArgsPairs("a=" + x)
	j := sips.ParseArgsPairs("b=" + y)
	g, k := sips.NewSIPAuth("Digest a="+x), sips.NewSIPAuth("Digest b="+y)
	v.Assert(len(i) == 1 && i["a"] == x && len(j) == 1 && j["b"] == y, "arguments are those of their own list")
	v.Assert(len(g.Args) == 1 && g.Args["a"] == x && len(k.Args) == 1 && k.Args["b"] == y, "arguments are those of their own list")
	i["a"] = "other"
	v.Assert(g.Args["a"] == x, "arguments are those of their own list")
	v.Cover("S08 written")
}
