package hself

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/harness/v"
)

type hdr struct {
	A uint8
	B uint16
	C [2]byte
}

type shape interface {
	Area() int
	io.Writer
}

type sq struct {
	*bytes.Buffer
	n int
}

func (s sq) Area() int { return s.n * s.n }

// X05_more: more of the library.
func X05_more() {
	a, b := v.Bytes(3), v.Bytes(2)
	s := str(3)
	switch v.Choose(40) {
	case 0:
		x, y, ok := strings.Cut(s, ":")
		obs([]byte(x + "|" + y))
		_ = ok
	case 1:
		x, _, _ := bytes.Cut(a, b[:1])
		obs(x)
	case 2:
		x, ok := strings.CutPrefix(s, "a")
		obs([]byte(x))
		_ = ok
	case 3:
		var o []byte
		o = binary.BigEndian.AppendUint16(o, binary.LittleEndian.Uint16(a))
		o = binary.BigEndian.AppendUint32(o, 7)
		obs(o)
	case 4:
		x, _ := io.ReadAll(io.LimitReader(bytes.NewReader(a), 2))
		obs(x)
	case 5:
		obs(bytes.Clone(a))
		obs([]byte(strings.Clone(s)))
	case 6:
		err := errors.Join(errors.New("a"), nil, io.EOF)
		oi(int64(len(err.Error())))
		if errors.Is(err, io.EOF) {
			oi(1)
		}
	case 7:
		obs(fmt.Appendf(nil, "%d-%s", a[0], s))
	case 8:
		obs([]byte(fmt.Sprint("a", a[0], "b", int(b[0]))))
	case 9:
		obs([]byte(fmt.Sprintln("a", s, true)))
	case 10:
		x, err := strconv.ParseBool(s)
		if err == nil && x {
			oi(1)
		}
	case 11:
		r := bufio.NewReader(bytes.NewReader(a))
		x, err := r.Peek(2)
		obs(x)
		n, _ := r.Discard(1)
		oi(int64(n))
		y, err := r.ReadByte()
		oi(int64(y))
		_ = err
	case 12:
		r := bufio.NewReader(strings.NewReader(s + "\r\nx"))
		l, more, err := r.ReadLine()
		obs(l)
		_, _ = more, err
	case 13:
		x := bytes.NewBuffer(nil)
		x.Grow(10)
		x.Write(a)
		x.WriteByte(1)
		obs(x.Next(2))
		x.UnreadByte()
		y, _ := x.ReadBytes(1)
		obs(y)
		x.Truncate(0)
		oi(int64(x.Len()))
	case 14:
		x := bytes.NewBufferString(s)
		y, err := x.ReadString('a')
		obs([]byte(y))
		_ = err
	case 15:
		x := new(bytes.Buffer)
		n, _ := x.ReadFrom(bytes.NewReader(a))
		oi(n)
		var o bytes.Buffer
		x.WriteTo(&o)
		obs(o.Bytes())
	case 16:
		n, err := io.ReadAtLeast(bytes.NewReader(a), make([]byte, 4), 4)
		oi(int64(n))
		if err == io.ErrUnexpectedEOF {
			oi(1)
		}
	case 17:
		x := strings.NewReader(s)
		x.Seek(1, io.SeekStart)
		c, _ := x.ReadByte()
		oi(int64(c))
	case 18:
		var h hdr
		if binary.Read(bytes.NewReader(append(append([]byte{}, a...), b...)), binary.BigEndian, &h) == nil {
			oi(int64(h.B))
		}
		var o bytes.Buffer
		binary.Write(&o, binary.BigEndian, h)
		obs(o.Bytes())
		oi(int64(binary.Size(h)))
	case 19:
		f := float64(int8(a[0])) / 4
		oi(int64(math.Floor(f)))
		oi(int64(math.Ceil(f)))
	case 20:
		f := float64(int8(a[0])) / 4
		oi(int64(math.Abs(f) * 4))
		oi(int64(math.Max(f, 1) * 4))
	case 21:
		x := sq{&bytes.Buffer{}, int(a[0] & 7)}
		var sh shape = x
		sh.Write(a)
		oi(int64(sh.Area()))
		obs(x.Bytes())
	case 22:
		ch := make(chan byte, 3)
		for _, c := range a {
			ch <- c
		}
		close(ch)
		for c := range ch {
			oi(int64(c))
		}
	case 23:
		m := map[hdr]int{}
		m[hdr{A: a[0] & 1}]++
		m[hdr{A: 1}]++
		oi(int64(len(m)))
	case 24:
		m := map[interface{}]string{}
		m[int(a[0]&1)] = "x"
		m["k"] = "y"
		m[1] = "z"
		oi(int64(len(m)))
	case 25:
		i := 0
	again:
		if i < 3 {
			if a[i] == 0 {
				i++
				goto again
			}
		}
		oi(int64(i))
	case 26:
		n := 0
	out:
		for i := range a {
			for j := range b {
				if a[i] == b[j] {
					break out
				}
				if a[i] < b[j] {
					continue out
				}
				n++
			}
		}
		oi(int64(n))
	case 27:
		fs := []func() int{}
		for i := range a {
			i := i
			fs = append(fs, func() int { return int(a[i]) + i })
		}
		for _, f := range fs {
			oi(int64(f()))
		}
	case 28:
		f := bytes.NewReader(a).ReadByte
		x, _ := f()
		oi(int64(x))
		g := (*bytes.Reader).Len
		oi(int64(g(bytes.NewReader(a))))
	case 29:
		obs([]byte(hex.Dump(a[:1])))
	case 30:
		obs([]byte(base64.StdEncoding.EncodeToString(a)))
	case 31:
		x, err := hex.DecodeString(s[:2])
		if err == nil {
			obs(x)
		}
	case 32:
		var n int
		if _, err := fmt.Sscanf("12 x", "%d", &n); err == nil {
			oi(int64(n))
		}
	case 33:
		x, err := strconv.ParseFloat("1.5", 64)
		if err == nil {
			oi(int64(x * 2))
		}
		obs([]byte(strconv.FormatFloat(2.5, 'f', -1, 64)))
	case 34:
		obs([]byte(fmt.Sprintf("%02x %5d|%-5s|%q|%v|%T|%c|%08b", a[0], b[0], s[:1], "q\"", []int{1, 2}, a, 'c', b[1])))
	case 35:
		var o [8]byte
		n := binary.PutUvarint(o[:], uint64(a[0])<<3)
		obs(o[:n])
		x, k := binary.Uvarint(o[:n])
		oi(int64(x))
		oi(int64(k))
	case 36:
		r, n := utf8.DecodeRune(a)
		oi(int64(r))
		oi(int64(n))
		oi(int64(utf8.RuneCountInString(s)))
	case 37:
		sc := bufio.NewScanner(strings.NewReader(s))
		sc.Split(bufio.ScanLines)
		for sc.Scan() {
			obs(sc.Bytes())
		}
	case 38:
		x := [3]byte{a[0], a[1], a[2]}
		y := x
		y[0]++
		if x == y {
			oi(1)
		}
		z := [...]string{2: "a", 0: s}
		oi(int64(len(z[0])))
	case 39:
		func() {
			defer func() {
				if e := recover(); e != nil {
					if er, ok := e.(error); ok {
						oi(int64(len(er.Error())))
					}
				}
			}()
			oi(int64(a[int(b[0])]))
		}()
	}
}
