package hsips

import (
	"github.com/moggle-mog/goav/sips"

	"verif/harness/v"
)

func userChar(c byte) bool { return v.Or(alnum(c), one(c, "-_.!~*'()&=+$,?/%:")) }
func hostChar(c byte) bool { return v.Or(alnum(c), one(c, "-.")) }
func argKey(c byte) bool   { return token(c) }
func argValue(c byte) bool { return v.Or(token(c), one(c, ":[]/=@&$")) }

var schemes = []string{"sip", "sips", "tel"}

type pair struct{ k, v string }

// someArgs are up to n pairs with different keys.
func someArgs(n int) (sips.Args, []pair) {
	a := sips.NewArgs()
	var l []pair
	for i, m := 0, v.Choose(n+1); i < m; i++ {
		p := pair{within(1+v.Choose(2), argKey), within(v.Choose(v.Param("val", 2)+1), argValue)}
		for _, q := range l {
			v.Assume(!v.EqS(p.k, q.k))
		}
		a.Set(p.k, p.v)
		l = append(l, p)
	}
	return a, l
}

func isArgs(a sips.Args, l []pair) {
	v.Assert(a != nil && len(a) == len(l), "the arguments are exactly those given")
	for _, p := range l {
		x, ok := a[p.k]
		v.Assert(ok, "the arguments are exactly those given")
		v.Assert(v.EqS(x, p.v) && v.EqS(a.Get(p.k), p.v), "the arguments are exactly those given")
	}
}

// someHost is a host name, an address or an IPv6 reference.
func someHost() string {
	if v.Bool() {
		return "[" + within(v.Choose(3), func(c byte) bool { return v.Or(alnum(c), one(c, ":.")) }) + "]"
	}
	return within(1+v.Choose(v.Param("host", 2)), hostChar)
}

// quotable is a character of a quoted string, spelled with an escape or not.
func quotable(c byte) bool { return v.And(c < 0x80, c != '\r', c != '\n') }

type uri struct {
	scheme, user, host, port string
	args                     []pair
}

func someURI() (uri, sips.Args) {
	x := uri{scheme: schemes[v.Choose(3)], user: within(v.Choose(v.Param("user", 2)+1), userChar), host: someHost()}
	if v.Bool() {
		x.port = within(1+v.Choose(2), digit)
	}
	a, l := someArgs(v.Param("args", 1))
	x.args = l
	return x, a
}

// blank tells whether c is white space.
func blank(c byte) bool { return v.Or(c == ' ', between(c, 9, 13)) }

func (x uri) is(scheme, user, host, port string, a sips.Args) {
	v.Assert(scheme == x.scheme, "the scheme comes back")
	v.Assert(v.EqS(user, x.user), "the user comes back")
	v.Assert(v.EqS(host, x.host), "the host comes back")
	v.Assert(v.EqS(port, x.port), "the port comes back")
	isArgs(a, x.args)
}

// S04_user: users.
func S04_user() {
	x, a := someURI()
	name := ""
	switch v.Choose(4) {
	case 0:
		name = within(1+v.Choose(v.Param("name", 3)), quotable)
		v.Assume(v.And(!blank(name[0]), !blank(name[len(name)-1])))
	case 1:
		name = "Anonymous"
	case 2:
		name = []string{"J\u00f6rg", "\u5f20\u4e09", "sip:x", "a;b", "\"q\"", "A <b>", "a\u200bb", "\u00c0\u0301"}[v.Choose(8)]
	}
	s := &sips.SIPUser{URIType: x.scheme, Name: name, User: x.user, Host: x.host, Port: x.port, Args: a}
	str := s.String()
	v.Assert(s.Src == str, "the source is what was written")
	t := sips.NewSIPUser(str)
	v.Assert(v.EqS(t.Name, name), "the display name comes back")
	x.is(t.URIType, t.User, t.Host, t.Port, t.Args)
	v.Cover("S04 user")
}

// S04_forms: a user in the forms that are not written by the package.
func S04_forms() {
	x, a := someURI()
	name := ""
	str := x.scheme + ":" + x.user + "@" + x.host
	if x.port != "" {
		str += ":" + x.port
	}
	switch v.Choose(3) {
	case 0:
	case 1:
		str = "<" + str + ">" + []string{"", " "}[v.Choose(2)]
	case 2:
		name = within(1+v.Choose(2), alnum)
		if v.Bool() {
			name += " " + within(1, alnum)
		}
		str = name + []string{"", " "}[v.Choose(2)] + "<" + str + ">"
	}
	t := sips.NewSIPUser(str + a.SemicolonString())
	v.Assert(v.EqS(t.Name, name), "the display name comes back")
	x.is(t.URIType, t.User, t.Host, t.Port, t.Args)
	v.Cover("S04 forms")
}

// S04_request: request URIs.
func S04_request() {
	x, a := someURI()
	s := &sips.SIPRequest{URIType: x.scheme, User: x.user, Host: x.host, Port: x.port, Args: a}
	t := sips.NewSIPRequest(s.String())
	x.is(t.URIType, t.User, t.Host, t.Port, t.Args)
	v.Cover("S04 request")
}

// S04_convert: users made requests and requests made users.
func S04_convert() {
	x, a := someURI()
	if v.Bool() {
		r := (&sips.SIPUser{URIType: x.scheme, Name: "n", User: x.user, Host: x.host, Port: x.port, Args: a, Src: "x"}).ToRequest()
		v.Assert(r.Src == "x", "a converted value keeps its source text")
		x.is(r.URIType, r.User, r.Host, r.Port, r.Args)
		s := sips.NewSIPRequest(r.String())
		x.is(s.URIType, s.User, s.Host, s.Port, s.Args)
	} else {
		r := (&sips.SIPRequest{URIType: x.scheme, User: x.user, Host: x.host, Port: x.port, Args: a, Src: "x"}).ToUser()
		v.Assert(r.Src == "x" && r.Name == "", "a converted value keeps its source text")
		x.is(r.URIType, r.User, r.Host, r.Port, r.Args)
		s := sips.NewSIPUser(r.String())
		x.is(s.URIType, s.User, s.Host, s.Port, s.Args)
	}
	v.Cover("S04 convert")
}

// S04_via: Via values.
func S04_via() {
	x, a := someURI()
	x.user = []string{"UDP", "TCP", "TLS", "SCTP"}[v.Choose(4)]
	s := &sips.SIPVia{Trans: x.user, Host: x.host, Port: x.port, Args: a}
	t := sips.NewSIPVia(s.String())
	x.is(x.scheme, t.Trans, t.Host, t.Port, t.Args)
	v.Cover("S04 via")
}

// S04_viaforms: a Via value with blanks around its parts.
func S04_viaforms() {
	x, a := someURI()
	x.user = []string{"UDP", "TCP", "TLS", "SCTP"}[v.Choose(4)]
	blanks := []string{"", " ", "  "}
	sp := func() string { return blanks[v.Choose(v.Param("space", 2))] }
	s := sp() + "SIP/2.0/" + x.user + " " + sp() + x.host + sp()
	if x.port != "" {
		s += ":" + sp() + x.port + sp()
	}
	t := sips.NewSIPVia(s + a.SemicolonString())
	x.is(x.scheme, t.Trans, t.Host, t.Port, t.Args)
	v.Cover("S04 viaforms")
}

// S04_cseq: CSeq values.
func S04_cseq() {
	id, m := within(1+v.Choose(4), digit), methods[v.Choose(len(methods))]
	if v.Bool() {
		m = within(1+v.Choose(3), token)
	}
	s := &sips.SIPCseq{ID: id, Method: m}
	t := sips.NewSIPCseq(s.String())
	v.Assert(v.EqS(t.ID, id), "the sequence number comes back")
	v.Assert(v.EqS(t.Method, m), "the method comes back")
	v.Cover("S04 cseq")
}

// S04_header: the same through the header of a message.
func S04_header() {
	x, a := someURI()
	h := sips.NewSIPHeader()
	s := &sips.SIPUser{URIType: x.scheme, User: x.user, Host: x.host, Port: x.port, Args: a}
	var t *sips.SIPUser
	switch v.Choose(4) {
	case 0:
		h.SetSIPFrom(s)
		t = h.GetSIPFrom()
	case 1:
		h.SetSIPTo(s)
		t = h.GetSIPTo()
	case 2:
		h.SetSIPContact(s)
		t = h.GetSIPContact()
	case 3:
		h.SetSIPVia(&sips.SIPVia{Trans: "TLS", Host: x.host, Port: x.port, Args: a})
		y := h.GetSIPVia()
		x.is(x.scheme, x.user, y.Host, y.Port, y.Args)
		h.SetSIPCseq(&sips.SIPCseq{ID: "7", Method: "BYE"})
		c := h.GetSIPCseq()
		v.Assert(c.ID == "7" && c.Method == "BYE" && y.Trans == "TLS", "a getter finds what was set")
		return
	}
	x.is(t.URIType, t.User, t.Host, t.Port, t.Args)
	v.Assert(len(h) == 1, "a setter sets its header")
	v.Cover("S04 header")
}

// item is one item of a list: as written, and its pair. The value is plain,
// quoted or missing.
func item() (string, pair) {
	k := within(1+v.Choose(2), argKey)
	switch v.Choose(4) {
	case 0:
		return k, pair{k, ""}
	case 1:
		x := within(v.Choose(3), argValue)
		return k + "=" + x, pair{k, x}
	}
	s, x := "\"", ""
	for i, n := 0, v.Choose(v.Param("quoted", 2)+1); i < n; i++ {
		c := v.U8()
		if v.Bool() {
			s += "\\"
		} else {
			v.Assume(v.And(c != '"', c != '\\'))
		}
		s += string([]byte{c})
		x += string([]byte{c})
	}
	return k + "=" + s + "\"", pair{k, x}
}

// S05_list: lists of pairs.
func S05_list() {
	str := ""
	var l []pair
	n := 1 + v.Choose(v.Param("items", 2))
	for i := 0; i < n; i++ {
		s, p := item()
		for _, q := range l {
			v.Assume(!v.EqS(p.k, q.k))
		}
		l = append(l, p)
		sp := []string{"", " ", "\t", "  "}
		str += sp[v.Choose(v.Param("space", 2))] + s + sp[v.Choose(v.Param("space", 2))]
		if i < n-1 {
			str += []string{";", ",", "\n", "\r\n"}[v.Choose(4)]
		}
	}
	switch v.Choose(3) {
	case 0:
		isArgs(sips.ParseArgsPairs(str), l)
	case 1:
		isArgs(sips.ParseArgs(";"+str), l)
	case 2:
		isArgs(sips.ParseArgs("x=y;"+str), l)
	}
	v.Cover("S05 list")
}

// S05_equals: blanks around the sign between a key and its value.
func S05_equals() {
	sp := []string{"", " ", "\t", "  "}
	k := within(1+v.Choose(2), argKey)
	x := within(v.Choose(3), argValue)
	y := x
	if v.Bool() {
		y = "\"" + x + "\""
	}
	str := k + sp[v.Choose(4)] + "=" + sp[v.Choose(4)] + y + sp[v.Choose(4)]
	l := []pair{{k, x}}
	if v.Bool() {
		z := within(1, argKey)
		v.Assume(!v.EqS(k, z))
		str += []string{";", ",", "\r\n"}[v.Choose(3)] + sp[v.Choose(2)] + z + sp[v.Choose(2)] + "= z"
		l = append(l, pair{z, "z"})
	}
	if v.Bool() {
		isArgs(sips.ParseArgsPairs(str), l)
	} else {
		isArgs(sips.ParseArgs(";"+str), l)
	}
	v.Cover("S05 equals")
}

// S05_repeated: the last of several pairs of one key counts.
func S05_repeated() {
	k := within(1, argKey)
	x, y := within(1, argValue), within(1, argValue)
	a := sips.ParseArgsPairs(k + "=" + x + ";" + k + "=" + y)
	isArgs(a, []pair{{k, y}})
	v.Cover("S05 repeated")
}

// S05_written: the serialisations of a list.
func S05_written() {
	a, l := someArgs(v.Param("items", 2))
	isArgs(sips.ParseArgs(a.SemicolonString()), l)
	isArgs(sips.ParseArgsPairs(a.SemicolonString()), l)
	isArgs(sips.ParseArgsPairs(a.CommaString()), l)
	isArgs(sips.ParseArgsPairs(a.CRLFString()), l)
	v.Cover("S05 written")
}

// S05_quoted: values of any text in the other serialisations, of lists and of what holds them.
func S05_quoted() {
	p := pair{within(1, argKey), within(v.Choose(v.Param("quoted", 2)+1), quotable)}
	switch v.Choose(4) {
	case 0:
		p.v = "\xe9" + p.v
	case 1:
		p.v += []string{"\u00a0", "\x85", "\xe4\xb8", "\u4e2d"}[v.Choose(4)]
	}
	a := sips.NewArgs()
	a.Set(p.k, p.v)
	l := []pair{p}
	if v.Bool() {
		q := pair{"q", []string{"", "x", ";", "a,b;c", "\"", "\\\"", " "}[v.Choose(7)]}
		v.Assume(!v.EqS(p.k, q.k))
		a.Set(q.k, q.v)
		l = append(l, q)
	}
	switch v.Choose(5) {
	case 0:
		isArgs(sips.ParseArgs(a.SemicolonString()), l)
	case 1:
		isArgs(sips.ParseArgsPairs(a.CRLFString()), l)
	case 2:
		isArgs(sips.NewSIPUser((&sips.SIPUser{Name: "a;b", URIType: "sip", User: "u", Host: "h", Args: a}).String()).Args, l)
	case 3:
		isArgs(sips.NewSIPVia((&sips.SIPVia{Trans: "UDP", Host: "h", Args: a}).String()).Args, l)
	case 4:
		isArgs(sips.NewSIPRequest((&sips.SIPRequest{URIType: "sip", User: "u", Host: "h", Args: a}).String()).Args, l)
	}
	v.Cover("S05 quoted")
}

// S05_comma: the comma serialisation quotes any text.
func S05_comma() {
	a := sips.NewArgs()
	var l []pair
	for i, n := 0, 1+v.Choose(2); i < n; i++ {
		p := pair{[]string{"a", "b"}[i], within(v.Choose(v.Param("text", 3)+1), quotable)}
		a.Set(p.k, p.v)
		l = append(l, p)
	}
	isArgs(sips.ParseArgsPairs(a.CommaString()), l)
	isArgs(sips.NewSIPAuth("Digest "+a.CommaString()).Args, l)
	v.Cover("S05 comma")
}

// S05_auth: an authorization is the list after its scheme, in any case.
func S05_auth() {
	s, p := item()
	s2, p2 := item()
	v.Assume(!v.EqS(p.k, p2.k))
	sep := []string{", ", ",\r\n ", ","}[v.Choose(3)]
	isArgs(sips.NewSIPAuth(letters("Digest ")+s+sep+s2).Args, []pair{p, p2})
	h := sips.NewSIPHeader()
	h.SetFirstHeader("Authorization", "Digest "+s)
	isArgs(h.GetAuthorization().Args, []pair{p})
	isArgs(sips.NewSIPAuth("Basic "+s).Args, nil)
	v.Cover("S05 auth")
}

// S05_del: deleted pairs are gone, the others stay.
func S05_del() {
	a, l := someArgs(2)
	if len(l) == 0 {
		return
	}
	a.Del(l[0].k)
	a.Del("nosuchkey")
	isArgs(a, l[1:])
	isArgs(sips.ParseArgs(a.SemicolonString()), l[1:])
	v.Cover("S05 del")
}

// S05_many: lists of many pairs, parsed and written.
func S05_many() {
	n := v.Pick(8, v.Param("many", 60))
	str := ""
	var l []pair
	a := sips.NewArgs()
	for i := 0; i < n; i++ {
		x := pair{"k" + decimal(i), within(i%3, argValue)}
		l = append(l, x)
		a.Set(x.k, x.v)
		str += []string{";", ",", "\n", "\r\n"}[i%4]
		if i%5 == 4 {
			str += x.k + "=\"" + x.v + "\""
		} else {
			str += x.k + "=" + x.v
		}
	}
	isArgs(a, l)
	isArgs(sips.ParseArgs(";"+str), l)
	isArgs(sips.ParseArgsPairs(str), l)
	isArgs(sips.ParseArgs(a.SemicolonString()), l)
	isArgs(sips.ParseArgsPairs(a.CommaString()), l)
	isArgs(sips.ParseArgsPairs(a.CRLFString()), l)
	v.Cover("S05 many")
}
