package hsips

import (
	"github.com/moggle-mog/goav/sips"

	"verif/harness/u"
	"verif/harness/v"
)

var compact = [][2]string{
	{"Accept-Contact", "a"}, {"Allow-Events", "u"}, {"Call-ID", "i"}, {"Contact", "m"}, {"Content-Encoding", "e"},
	{"Content-Type", "c"}, {"Event", "o"}, {"From", "f"}, {"Identity", "y"}, {"Refer-To", "r"}, {"Referred-By", "b"},
	{"Reject-Contact", "j"}, {"Request-Disposition", "d"}, {"Session-Expires", "x"}, {"Subject", "s"},
	{"Supported", "k"}, {"To", "t"}, {"Via", "v"},
}

// value is a header value of n printable characters without spaces at its ends.
func value(n int) string {
	s := within(n, print)
	if n > 0 {
		v.Assume(v.And(s[0] != ' ', s[n-1] != ' '))
	}
	return s
}

// isValues checks that the header has exactly the values.
func isValues(h sips.SIPHeader, name string, want ...string) {
	got := h.GetHeader(name)
	v.Assert(len(got) == len(want), "a header has all its values")
	for i := range want {
		v.Assert(v.EqS(got[i], want[i]), "a header keeps its values in order")
	}
	w := ""
	if len(want) > 0 {
		w = want[0]
	}
	v.Assert(v.EqS(h.GetFirstHeader(name), w), "the first value is the first in the message")
}

// S03_compact: every header with a compact form, sent in either form and any case.
func S03_compact() {
	c := compact[v.Choose(len(compact))]
	x := value(v.Choose(3))
	s := message(letters(c[v.Choose(2)]) + []string{":", ": ", ":  "}[v.Choose(3)] + x + "\r\n")
	isValues(s.Headers, letters(c[0]), x)
	v.Cover("S03 compact")
}

// S03_length: the content length in either form and any case.
func S03_length() {
	s := sips.NewSIP()
	n := []string{"Content-Length", "l"}[v.Choose(2)]
	err := s.ParseBytes([]byte(first + letters(n) + ": 0\r\n\r\n"))
	v.Assert(err == nil, "a content length is found in any form and case")
	isValues(s.Headers, letters("Content-Length"), "0")
	k, err := s.Headers.GetContentLength()
	v.Assert(err == nil && k == 0, "a content length is found in any form and case")
	v.Cover("S03 length")
}

// S03_name: arbitrary names.
func S03_name() {
	n := within(1+v.Choose(v.Param("name", 3)), token)
	v.Assume(!upper(n, "L"))
	x := value(v.Choose(2))
	other := []byte(n)
	for i, c := range other {
		other[i] = c ^ uint8(v.Ite(v.Or(between(c, 'a', 'z'), between(c, 'A', 'Z')), uint64(v.U8()&0x20), 0))
	}
	s := message("w1: a\r\n" + n + []string{":", " :", "  : "}[v.Choose(3)] + x + []string{"", " ", "  "}[v.Choose(3)] + "\r\nw2: b\r\n")
	if upper(n, "W1") || upper(n, "W2") {
		return
	}
	isValues(s.Headers, string(other), x)
	isValues(s.Headers, "w1", "a")
	isValues(s.Headers, "w2", "b")
	v.Cover("S03 name")
}

// S03_blanks: blanks of both kinds around names and values.
func S03_blanks() {
	n := within(1, token)
	v.Assume(v.And(!upper(n, "L"), !upper(n, "W")))
	x := value(v.Choose(v.Param("size", 2)))
	sp := []string{"", " ", "\t", " \t", "\t "}
	s := message("w: a\r\n" + n + sp[v.Choose(5)] + ":" + sp[v.Choose(5)] + x + sp[v.Choose(5)] + "\r\n")
	isValues(s.Headers, "w", "a")
	isValues(s.Headers, n, x)
	v.Cover("S03 blanks")
}

// S03_fold: blanks of both kinds around what a continuation line adds.
func S03_fold() {
	sp := []string{" ", "\t", " \t", "\t ", "  ", ""}
	x, y := value(1), value(1+v.Choose(2))
	l := "k: " + x + sp[v.Choose(6)] + "\r\n" + sp[v.Choose(5)] + y + sp[v.Choose(6)] + "\r\n"
	if v.Bool() {
		z := value(1)
		l += sp[v.Choose(2)] + z + sp[v.Choose(2)] + "\r\n"
		y += " " + z
	}
	s := message(l + "w: b\r\n")
	isValues(s.Headers, "k", x+" "+y)
	isValues(s.Headers, "w", "b")
	v.Cover("S03 fold")
}

// S03_repeat: repeated headers in any mixture of forms and cases, continued or not.
func S03_repeat() {
	c := [][2]string{{"Via", "v"}, {"Contact", "m"}, {"Accept", "Accept"}}[v.Choose(3)]
	lines := ""
	var want []string
	form := v.Choose(2)
	for i, n := 0, 1+v.Choose(v.Param("repeat", 3)); i < n; i++ {
		f := form
		if v.Bool() {
			f = 1 - f
		}
		name := c[f]
		if v.Bool() {
			name = letters(name)
		}
		x := value(1)
		lines += name + ": " + x
		if v.Bool() {
			y := value(1)
			lines += []string{"\r\n ", "\r\n\t", "\n   ", "\r\n \t"}[v.Choose(v.Param("blanks", 4))] + y + []string{"", " "}[v.Choose(v.Param("ends", 2))]
			x += " " + y
		}
		lines += "\r\n"
		want = append(want, x)
		if v.Bool() {
			lines += "x-other: 1\r\n"
		}
	}
	s := message(lines)
	isValues(s.Headers, c[0], want...)
	v.Cover("S03 repeat")
}

// S03_continued: several continuation lines.
func S03_continued() {
	x, y := value(v.Choose(2)), value(1)
	z := value(2)
	s := message("k1: " + x + "\r\n" + []string{" ", "\t"}[v.Choose(2)] + y + "\r\n  " + z + "\r\nk2: q\r\n")
	isValues(s.Headers, "k1", x+" "+y+" "+z)
	isValues(s.Headers, "k2", "q")
	v.Cover("S03 continued")
}

// S03_set: setting replaces, whatever was there before.
func S03_set() {
	c := [][2]string{{"Via", "v"}, {"Contact", "m"}, {"Accept", "Accept"}}[v.Choose(3)]
	lines := ""
	for i, n := 0, v.Choose(3); i < n; i++ {
		lines += letters(c[v.Choose(2)]) + ": old\r\n"
	}
	s := message(lines)
	x := value(1)
	name := letters(c[0])
	switch v.Choose(2) {
	case 0:
		s.Headers.SetFirstHeader(name, x)
	case 1:
		from := sips.NewSIPHeader()
		from.SetFirstHeader(letters(c[0]), x)
		s.Headers.CopyFrom(from, name)
	}
	isValues(s.Headers, letters(c[0]), x)
	v.Assert(len(s.Headers.GetAllHeaders()) == 2, "setting a header replaces it")
	v.Cover("S03 set")
}

// S03_setters: each setter sets its header.
func S03_setters() {
	h := sips.NewSIPHeader()
	if v.Bool() {
		h.SetFirstHeader("x-other", "1")
	}
	x := value(2)
	n := v.Int(0, 9999)
	name := ""
	switch v.Choose(9) {
	case 0:
		name = "Call-ID"
		h.SetCallID(x)
		v.Assert(h.GetCallID() == x, "a getter finds what was set")
	case 1:
		name = "Reason-Phrase"
		h.SetReasonPhrase(x)
	case 2:
		name = "Supported"
		h.SetSupported(x)
	case 3:
		name = "Subject"
		h.SetSubject(x)
	case 4:
		name = "Content-Type"
		h.SetContentType(x)
	case 5:
		name = "Allow"
		h.SetAllow(x)
	case 6:
		h.SetContentLength(n)
		k, err := h.GetContentLength()
		v.Assert(err == nil && k == n, "a getter finds what was set")
		v.Cover("S03 setters length")
		return
	case 7:
		h.SetMaxForwards(n)
		v.Assert(h.GetFirstHeader("max-forwards") == decimal(n), "a setter sets its header")
		return
	case 8:
		h.SetFirstHeader("Expires", x)
		v.Assert(h.GetExpires() == x, "a getter finds what was set")
		return
	}
	isValues(h, name, x)
	v.Cover("S03 setters")
}

// S03_typedset: setting a parsed header sets its text, which is found again.
func S03_typedset() {
	h := sips.NewSIPHeader()
	if v.Bool() {
		h.SetFirstHeader(letters([]string{"from", "f"}[v.Choose(2)]), "old")
	}
	user := within(2, alnum)
	su := &sips.SIPUser{URIType: "sip", User: user, Host: "h"}
	want := "<sip:" + user + "@h>"
	name, got := "", ""
	switch v.Choose(5) {
	case 0:
		name = "From"
		h.SetSIPFrom(su)
		got = h.GetSIPFrom().User
	case 1:
		name = "To"
		h.SetSIPTo(su)
		got = h.GetSIPTo().User
	case 2:
		name = "Contact"
		h.SetSIPContact(su)
		got = h.GetSIPContact().User
	case 3:
		name, want = "CSeq", user+" ACK"
		h.SetSIPCseq(&sips.SIPCseq{ID: user, Method: "ACK"})
		got = h.GetSIPCseq().ID
	case 4:
		name, want = "Via", "SIP/2.0/TCP "+user
		h.SetSIPVia(&sips.SIPVia{Trans: "TCP", Host: user})
		got = h.GetSIPVia().Host
	}
	isValues(h, letters(name), want)
	v.Assert(v.EqS(got, user), "a getter finds what was set")
	v.Cover("S03 typedset")
}

// S03_copy: copied headers are the first values of the source, the others stay.
func S03_copy() {
	src, dst := sips.NewSIPHeader(), sips.NewSIPHeader()
	x, y := value(1), value(2)
	c := compact[v.Choose(v.Param("names", 4))]
	src.SetFirstHeader(c[v.Choose(2)], x)
	src.SetFirstHeader("Expires", "1")
	src.SetFirstHeader("X-Not", "2")
	dst.SetFirstHeader("x-own", "3")
	if v.Bool() {
		dst.SetFirstHeader(c[v.Choose(2)], y)
	}
	if v.Bool() {
		dst.CopyFrom(src, letters(c[0]), "expires")
	} else {
		dst.CopyFrom(src, "EXPIRES", c[1])
	}
	isValues(dst, c[0], x)
	isValues(dst, "expires", "1")
	isValues(dst, "x-own", "3")
	isValues(dst, "x-not")
	v.Assert(len(dst) == 3, "only the named headers are copied")
	isValues(src, c[0], x)
	v.Assert(len(src) == 3, "the source of a copy stays as it is")
	v.Cover("S03 copy")
}

// decimal is n written in decimal.
func decimal(n int) string {
	k := 1
	for m := 10; n >= m; m *= 10 {
		k++
	}
	b := make([]byte, k)
	for i := range b {
		b[k-1-i] = byte('0' + n%10)
		n /= 10
	}
	return string(b)
}

// S03_typed: the parsed headers of a message are those of its header lines.
func S03_typed() {
	user := within(2, alnum)
	c := [][2]string{{"From", "f"}, {"To", "t"}, {"Contact", "m"}, {"Via", "v"}, {"CSeq", "CSEQ"}}
	k := v.Choose(len(c))
	x := "<sip:" + user + "@h>"
	switch k {
	case 3:
		x = "SIP/2.0/TCP " + user
	case 4:
		x = user + " ACK"
	}
	s := message(letters(c[k][v.Choose(2)]) + ": " + x + "\r\n")
	got := []string{s.From.User, s.To.User, s.Contact.User, s.Via.Host, s.Cseq.ID}
	for i := range got {
		want := ""
		if i == k {
			want = user
		}
		v.Assert(v.EqS(got[i], want), "the parsed headers are those of the message")
	}
	v.Cover("S03 typed")
}

var _ = u.Eq

// S03_many: messages of many headers, some of them repeated.
func S03_many() {
	n := v.Pick(20, v.Param("many", 200))
	var text string
	var xs []string
	for i := 0; i < n; i++ {
		x := value(1)
		if i%9 == 0 {
			x = value(1) + "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx" + x
		}
		xs = append(xs, x)
		name := "X-" + decimal(i)
		if i%4 == 3 {
			name = "Via"
		}
		text += name + ": " + x + "\r\n"
	}
	s := message(text)
	var vias []string
	for i, x := range xs {
		if i%4 == 3 {
			vias = append(vias, x)
			continue
		}
		isValues(s.Headers, "x-"+decimal(i), x)
	}
	isValues(s.Headers, "v", vias...)
	v.Cover("S03 many")
}
