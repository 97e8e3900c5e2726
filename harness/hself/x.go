// Package hself checks the encoding itself: what goav's code could be rewritten with, on symbolic inputs, whose
// results on sampled paths are compared to those of the compiled code. It is no check of a property.
package hself

import (
	"bufio"
	"bytes"
	"container/list"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"io/ioutil"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"verif/harness/v"
)

func oi(x int64) { v.ObsI("i", x) }
func obs(x []byte) { v.ObsB("b", x) }

func str(n int) string {
	b := v.Bytes(n)
	for _, c := range b {
		v.Assume(c < 128)
	}
	return string(b)
}

// X01_bytes: the functions of package bytes.
func X01_bytes() {
	a, b := v.Bytes(3), v.Bytes(2)
	switch v.Choose(16) {
	case 0:
		oi(int64(bytes.Index(a, b)))
	case 1:
		oi(int64(bytes.LastIndex(a, b[:1])))
	case 2:
		for _, x := range bytes.Split(a, b[:1]) {
			obs(x)
		}
	case 3:
		obs(bytes.Join([][]byte{a, b}, []byte{','}))
	case 4:
		obs(bytes.Repeat(b, 3))
	case 5:
		obs(bytes.TrimLeft(a, "\x00\x01"))
	case 6:
		obs(bytes.TrimSuffix(a, b))
	case 7:
		oi(int64(bytes.Compare(a, b)))
	case 8:
		r := bytes.NewReader(a)
		x, _ := r.ReadByte()
		r.UnreadByte()
		y, _ := ioutil.ReadAll(r)
		obs(append(y, x))
	case 9:
		oi(int64(bytes.Count(a, b[:1])))
	case 10:
		obs(bytes.Replace(a, b[:1], b, -1))
	case 11:
		obs(bytes.Map(func(r rune) rune { return r }, []byte(str(3))))
	case 12:
		var w bytes.Buffer
		w.Write(a)
		w.Truncate(1)
		w.WriteByte(b[0])
		w.WriteString("x")
		w.WriteTo(&w)
		obs(w.Next(2))
		obs(w.Bytes())
	case 13:
		obs(bytes.ToUpper([]byte(str(2))))
	case 14:
		oi(int64(bytes.IndexAny(a, "abc")))
		oi(int64(bytes.IndexFunc([]byte(str(2)), unicode.IsSpace)))
	case 15:
		if bytes.EqualFold([]byte(str(2)), []byte("aB")) {
			oi(1)
		}
		if bytes.Contains(a, b) {
			oi(2)
		}
	}
}

// X02_strings: the functions of package strings.
func X02_strings() {
	a, b := str(3), str(1)
	s := func(x string) { obs([]byte(x)) }
	switch v.Choose(24) {
	case 0:
		oi(int64(strings.Index(a, b)))
	case 1:
		oi(int64(strings.LastIndex(a, b)))
	case 2:
		for _, x := range strings.Split(a, b) {
			s(x)
		}
	case 3:
		for _, x := range strings.SplitN(a, b, 2) {
			s(x)
		}
	case 4:
		for _, x := range strings.Fields(a) {
			s(x)
		}
	case 5:
		for _, x := range strings.FieldsFunc(a, func(r rune) bool { return r == ',' || r == ';' }) {
			s(x)
		}
	case 6:
		s(strings.TrimSpace(a))
	case 7:
		s(strings.Trim(a, " \t"))
	case 8:
		s(strings.TrimFunc(a, func(r rune) bool { return r == '"' }))
	case 9:
		s(strings.Replace(a, b, "zz", 1))
	case 10:
		s(strings.ReplaceAll(a, "\"", "\\\""))
	case 11:
		s(strings.NewReplacer("\"", "\\\"", "\\", "\\\\").Replace(a))
	case 12:
		if strings.EqualFold(a, "abc") {
			oi(1)
		}
	case 13:
		s(strings.ToLower(a))
		s(strings.ToUpper(b))
	case 14:
		s(strings.Join([]string{a, b}, ", "))
	case 15:
		var w strings.Builder
		w.WriteString(a)
		w.WriteByte(' ')
		w.WriteRune('x')
		fmt.Fprintf(&w, "%s", b)
		s(w.String())
	case 16:
		s(strings.Map(func(r rune) rune {
			if r == 'a' {
				return -1
			}
			return r
		}, a))
	case 17:
		s(strings.Title(b))
	case 18:
		r := strings.NewReader(a)
		x, _ := ioutil.ReadAll(r)
		obs(x)
	case 19:
		oi(int64(strings.Count(a, b)))
		oi(int64(strings.IndexByte(a, ';')))
		oi(int64(strings.IndexAny(a, ";,")))
		oi(int64(strings.IndexRune(a, ';')))
	case 20:
		if strings.HasPrefix(a, b) && strings.HasSuffix(a, b) && strings.Contains(a, b) && strings.ContainsRune(a, 'x') {
			oi(1)
		}
		oi(int64(strings.Compare(a, b)))
	case 21:
		i, err := strconv.Atoi(a)
		oi(int64(i))
		if err != nil {
			oi(1)
		}
	case 22:
		s(strconv.Quote(b))
	case 23:
		u, err := strconv.ParseUint(a, 10, 32)
		oi(int64(u))
		if err != nil {
			oi(1)
		}
		i, err := strconv.ParseInt(a, 10, 16)
		oi(int64(i))
		if err != nil {
			oi(1)
		}
	}
}

type one struct{ r io.Reader }

func (o one) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return o.r.Read(p)
}

// X03_io: readers and writers.
func X03_io() {
	a := v.Bytes(4)
	switch v.Choose(14) {
	case 0:
		b := make([]byte, 3)
		n, err := io.ReadFull(one{bytes.NewReader(a)}, b)
		oi(int64(n))
		if err == nil {
			obs(b)
		}
	case 1:
		b := make([]byte, 5)
		n, err := io.ReadFull(one{bytes.NewReader(a)}, b)
		oi(int64(n))
		if err == io.ErrUnexpectedEOF {
			obs(b)
		}
	case 2:
		var w bytes.Buffer
		n, err := io.CopyN(&w, one{bytes.NewReader(a)}, 3)
		oi(n)
		if err == nil {
			obs(w.Bytes())
		}
	case 3:
		var w bytes.Buffer
		n, err := io.Copy(&w, io.LimitReader(bytes.NewReader(a), 2))
		oi(n)
		if err == nil {
			obs(w.Bytes())
		}
	case 4:
		b, err := ioutil.ReadAll(io.MultiReader(bytes.NewReader(a), strings.NewReader("x")))
		if err == nil {
			obs(b)
		}
	case 5:
		var w bytes.Buffer
		b, err := ioutil.ReadAll(io.TeeReader(bytes.NewReader(a), &w))
		if err == nil {
			obs(b)
			obs(w.Bytes())
		}
	case 6:
		r := bufio.NewReader(one{bytes.NewReader(a)})
		p, err := r.Peek(2)
		if err == nil {
			obs(p)
		}
		x, err := r.ReadBytes(7)
		obs(x)
		if err != nil {
			oi(1)
		}
	case 7:
		r := bufio.NewReader(strings.NewReader("ab\r\ncd"))
		l, p, err := r.ReadLine()
		obs(l)
		if p || err != nil {
			oi(1)
		}
		s, err := r.ReadString('\n')
		obs([]byte(s))
		if err == io.EOF {
			oi(2)
		}
	case 8:
		s := bufio.NewScanner(bytes.NewReader(append(a[:2:2], '\n', a[3])))
		for s.Scan() {
			obs(s.Bytes())
		}
	case 9:
		var w bytes.Buffer
		b := bufio.NewWriter(&w)
		b.Write(a)
		b.WriteByte(1)
		b.Flush()
		obs(w.Bytes())
	case 10:
		var w bytes.Buffer
		binary.Write(&w, binary.BigEndian, uint32(v.U32()))
		binary.Write(&w, binary.LittleEndian, uint16(v.U16()))
		binary.Write(&w, binary.BigEndian, v.F64())
		obs(w.Bytes())
	case 11:
		var x uint32
		err := binary.Read(bytes.NewReader(a), binary.BigEndian, &x)
		oi(int64(x))
		if err != nil {
			oi(1)
		}
		var y uint16
		binary.Read(one{bytes.NewReader(a)}, binary.LittleEndian, &y)
		oi(int64(y))
		var f float64
		if binary.Read(bytes.NewReader(a), binary.BigEndian, &f) != nil {
			oi(1)
		}
	case 12:
		io.WriteString(ioutil.Discard, string(a))
		var w bytes.Buffer
		io.WriteString(&w, string(a))
		io.MultiWriter(&w, &w).Write(a[:1])
		obs(w.Bytes())
	case 13:
		r := io.NewSectionReader(bytes.NewReader(a), 1, 2)
		b, _ := ioutil.ReadAll(r)
		obs(b)
		b = binary.BigEndian.AppendUint32(b, v.U32())
		obs(b)
		obs([]byte(hex.EncodeToString(a[:1])))
	}
}

type pt struct{ x, y uint8 }

type sh interface{ area() int }

func (p pt) area() int   { return int(p.x) * int(p.y) }
func (p *pt) move(d int) { p.x += uint8(d) }

type emb struct {
	*pt
	sync.Mutex
	n int
}

var errA = errors.New("a")

type myErr struct{ c int }

func (m *myErr) Error() string { return fmt.Sprintf("code %d", m.c) }

func mayPanic(b []byte, i int) (r int, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("recovered: %v", x)
		}
	}()
	return int(b[i]), nil
}

var pool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

// X04_lang: the language.
func X04_lang() {
	a := v.Bytes(3)
	i := int(v.U8() & 3)
	switch v.Choose(30) {
	case 0:
		r, err := mayPanic(a, i)
		oi(int64(r))
		if err != nil {
			oi(-1)
		}
	case 1:
		p := &pt{a[0], a[1]}
		f := p.area
		g := p.move
		g(i)
		oi(int64(f()))
		var s sh = p
		oi(int64(s.area()))
	case 2:
		e := emb{pt: &pt{a[0], a[1]}}
		e.Lock()
		defer e.Unlock()
		e.move(1)
		oi(int64(e.area()))
	case 3:
		m := map[[2]byte]int{}
		m[[2]byte{a[0], a[1]}]++
		m[[2]byte{a[1], a[0]}]++
		oi(int64(len(m)))
	case 4:
		m := map[string]int{"a": 1, "b": 2}
		delete(m, string(a[:1]))
		oi(int64(len(m)))
		x, ok := m["a"]
		if ok {
			oi(int64(x))
		}
	case 5:
		l := list.New()
		l.PushBack(a[0])
		l.PushFront(a[1])
		for e := l.Front(); e != nil; e = e.Next() {
			oi(int64(e.Value.(byte)))
		}
	case 6:
		s := append([]byte{}, a...)
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
		obs(s)
	case 7:
		s := []string{string(a[:1]), string(a[1:2]), "m"}
		sort.Strings(s)
		obs([]byte(strings.Join(s, "")))
	case 8:
		var n int
		for _, r := range str(2) + "é" {
			n += int(r)
		}
		oi(int64(n))
	case 9:
		err := fmt.Errorf("b: %w", errA)
		if errors.Is(err, errA) {
			oi(1)
		}
		err = fmt.Errorf("c: %w", &myErr{int(a[0])})
		var m *myErr
		if errors.As(err, &m) {
			oi(int64(m.c))
		}
	case 10:
		b := pool.Get().(*bytes.Buffer)
		b.Reset()
		b.Write(a)
		obs(b.Bytes())
		pool.Put(b)
	case 11:
		var mu sync.RWMutex
		mu.RLock()
		mu.RUnlock()
		var o sync.Once
		o.Do(func() { oi(1) })
		var n int32
		atomic.AddInt32(&n, int32(a[0]))
		oi(int64(atomic.LoadInt32(&n)))
	case 12:
		oi(int64(bits.Len8(a[0])))
		oi(int64(bits.ReverseBytes32(v.U32())))
		oi(int64(bits.OnesCount8(a[1])))
		oi(int64(bits.RotateLeft8(a[1], 3)))
		oi(int64(bits.LeadingZeros32(v.U32())))
		oi(int64(bits.TrailingZeros8(a[0])))
	case 13:
		oi(int64(crc32.ChecksumIEEE(a)))
		oi(int64(crc32.Update(0, crc32.MakeTable(crc32.Castagnoli), a)))
	case 14:
		s := fmt.Sprintf("%s %d %x %v %02x %q %5d|%-5d|%c", string(a[:1]), 17, 255, true, 3, "a", 1, 2, 'x')
		oi(int64(len(s)))
	case 15:
		obs([]byte(fmt.Sprintf("%s-%s;%d", str(1), "y", 12)))
	case 16:
		obs(strconv.AppendInt(nil, int64(i), 10))
		obs([]byte(strconv.FormatInt(int64(i), 16)))
		obs([]byte(strconv.Itoa(int(a[0]))))
	case 17:
		t := time.UnixMilli(int64(v.U16()))
		oi(t.UnixNano())
		oi(t.Unix())
		d := time.Duration(a[0]) * time.Millisecond
		oi(d.Milliseconds())
	case 18:
		x := [4]byte{}
		copy(x[1:], a)
		y := x
		y[0] = 1
		if x == y {
			oi(1)
		}
		if (pt{1, 2}) == (pt{a[0], a[1]}) {
			oi(2)
		}
		obs(y[:])
	case 19:
		n := 0
	outer:
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				if int(a[j]) == k {
					continue outer
				}
				if a[j] == 200 {
					break outer
				}
				n++
			}
		}
		oi(int64(n))
	case 20:
		s := a[:1:2]
		s = append(s, 9)
		s = append(s, 8)
		obs(s)
		obs(a)
		a = append(a[:1], a[2:]...)
		obs(a)
	case 21:
		switch x := interface{}(a[0]).(type) {
		case int:
			oi(0)
		case fmt.Stringer, error:
			oi(1)
		case byte:
			oi(int64(x))
		}
	case 22:
		switch {
		case a[0] < 10:
			oi(1)
			fallthrough
		case a[0] < 20:
			oi(2)
		default:
			oi(3)
		}
	case 23:
		oi(int64(a[0]) << (a[1] & 31))
		oi(int64(int8(a[0]) >> (a[1] & 7)))
		oi(int64(uint16(a[0]) << a[1]))
		oi(int64(a[0] &^ a[1]))
	case 24:
		fs := []func(int) int{func(x int) int { return x + i }, func(x int) int { i++; return x * i }}
		n := 0
		for _, f := range fs {
			n += f(int(a[0]))
		}
		oi(int64(n))
		oi(int64(i))
	case 25:
		oi(int64(utf8.RuneCount(a[:1])))
		if unicode.IsLetter(rune(a[0]&127)) || unicode.IsDigit(rune(a[0]&127)) || unicode.IsUpper(rune(a[0]&127)) {
			oi(1)
		}
	case 26:
		f := math.Float64frombits(v.U64())
		if math.IsNaN(f) || math.IsInf(f, 0) {
			oi(1)
		} else if f == math.Trunc(f) && f >= 0 && f < 1000 {
			oi(int64(f))
		}
		oi(int64(math.Float32bits(math.Float32frombits(v.U32()))))
	case 27:
		c := make(chan int, 1)
		c <- int(a[0])
		oi(int64(<-c))
	case 28:
		n := 0
		goto l
	l:
		n += int(a[0])
		if n < 3 {
			n += 5
			goto l
		}
		oi(int64(n))
	case 29:
		oi(int64(min(int(a[0]), int(a[1]))))
		clear(a)
		obs(a)
		for k := range 3 {
			oi(int64(k))
		}
	}
}
