package h

import (
	"io"
	"net/mail"
	"time"

	"vpharness/vp"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
)

// C12: every input ends in a result or an error.

func total(s string) {
	vp.Show("input", s)
	var l []*mail.Address
	var err error
	p := vp.Panics(func() { l, err = rfc5322.ParseAddressList(s) })
	vp.Check(!p, "the address parser does not panic")
	if p {
		return
	}
	vp.NoteBool("err", err != nil)
	vp.NoteInt("n", len(l))
	vp.Check(err == nil || len(l) == 0, "an error comes without mailboxes")
	for _, a := range l {
		vp.Check(a != nil, "no mailbox is nil")
	}
}

func totalDate(s string) {
	vp.Show("input", s)
	var t time.Time
	var err error
	p := vp.Panics(func() { t, err = rfc5322.ParseDateTime(s) })
	vp.Check(!p, "the date parser does not panic")
	if p {
		return
	}
	vp.NoteBool("err", err != nil)
	vp.Check(err == nil || t.IsZero(), "an error comes without a time")
}

// any bytes
func C12_Bytes() {
	n := 3
	if vp.Deep() {
		n = 4
	}
	total(vp.RawBytes("b", vp.Choice("n", n+1)))
}

func C12_DateBytes() {
	n := 2
	if vp.Deep() {
		n = 4
	}
	totalDate(vp.RawBytes("b", vp.Choice("n", n+1)))
}

// any ASCII text
func C12_Text() {
	n := 5
	if vp.Deep() {
		n = 7
	}
	total(vp.Chars("c", n, ascii))
}

func C12_DateText() {
	n := 5
	if vp.Deep() {
		n = 7
	}
	totalDate(vp.Chars("c", n, ascii))
}

// a few arbitrary bytes inside and around well-formed text
func C12_Hole() {
	n := 1
	if vp.Deep() {
		n = 2
	}
	x := vp.RawBytes("b", n)
	switch vp.Choice("where", 22) {
	case 0:
		total("\"" + x + "\" <l@d>")
	case 1:
		total("a " + x + " <l@d>")
	case 2:
		total("<" + x + ">")
	case 3:
		total("<l@d" + x + ">")
	case 4:
		total("l@d" + x)
	case 5:
		total(x + "l@d")
	case 6:
		total("l@[" + x + "]")
	case 7:
		total("(" + x + ")l@d")
	case 8:
		total("l@d, " + x + ", m@e")
	case 9:
		total("g:" + x + ";")
	case 10:
		total("g: l@d" + x + " m@e;")
	case 11:
		total("=?utf-8?q?" + x + "?= <l@d>")
	case 12:
		total("=?utf-8?b?" + x + "=?= <l@d>")
	case 13:
		total("=?" + x + "?q?a?= <l@d>")
	case 14:
		total("=?utf-8?" + x + "?a?= <l@d>")
	case 15:
		total("\"\\" + x + "\"@d")
	case 16:
		total("l@d:" + x)
	case 17:
		total("a\r\n" + x + "<l@d>")
	case 18:
		total("<@a," + x + "@b:l@d>")
	case 19:
		total("a." + x + ".b@d")
	case 20:
		total("\"n:" + x + ";\"")
	case 21:
		total("a@b" + x + "@c")
	}
}

// the same for dates
func C12_DateHole() {
	n := 1
	if vp.Deep() {
		n = 2
	}
	x := vp.RawBytes("b", n)
	parts := []string{"Fri", ", ", "21", " ", "Nov", " ", "1997", " ", "09", ":", "55", ":", "06", " ", "-0600"}
	at := vp.Choice("at", len(parts)+1)
	replace := vp.Choice("replace", 2)
	s := ""
	for i, p := range parts {
		if i == at {
			s += x
			if replace == 1 {
				continue
			}
		}
		s += p
	}
	if at == len(parts) {
		s += x
	}
	totalDate(s)
}

// each field of a date with any digits, one or two at a time
func C12_DateFields() {
	day, mon, year, h, m, sec, z := "21", "Nov", "1997", "09", "55", ":06", " -0600"
	switch vp.Choice("field", 7) {
	case 0:
		day = vp.Chars("day", 1+vp.Choice("n", 3), digits)
	case 1:
		mon = vp.Chars("mon", vp.Choice("n", 4), letters)
	case 2:
		year = vp.Chars("year", 1+vp.Choice("n", 5), digits)
	case 3:
		h = vp.Chars("h", 1+vp.Choice("n", 3), digits)
	case 4:
		m = vp.Chars("m", 1+vp.Choice("n", 3), digits)
	case 5:
		sec = pick("colon", ":", "") + vp.Chars("sec", vp.Choice("n", 4), digits)
	case 6:
		z = " " + pick("sgn", "+", "-", "") + vp.Chars("off", vp.Choice("n", 6), digits)
	}
	totalDate(pick("dow", "", "Mon, ") + day + " " + mon + " " + year + " " + h + ":" + m + sec + z)
}

// runs of one symbolic special character
func C12_Runs() {
	n := []int{2, 5, 9}[vp.Choice("n", 3)]
	r := string(vp.Rune("r", ascii))
	s := pick("pre", "", "a", "\"", "(", "<", "a@", "g:", "l@d")
	for i := 0; i < n; i++ {
		s += r
	}
	total(s + pick("post", "", "l@d", ">"))
}

// encoded words under every charset reader
func C12_Readers() {
	defer uninstall()
	how := vp.Choice("how", 6)
	if how < 5 {
		install(how)
	}
	n := vp.Choice("n", 2)
	if vp.Deep() {
		n *= 2
	}
	x := vp.RawBytes("b", n)
	e := pick("e", "q", "b", "Q", "x")
	cs := pick("cs", "utf-8", "x", "iso-8859-1", "us-ascii")
	s := "=?" + cs + "?" + e + "?" + x + "?="
	switch vp.Choice("where", 3) {
	case 0:
		total(s + " <l@d>")
	case 1:
		total("a " + s + " \"b\" <l@d>")
	case 2:
		total(s + " " + s + ": l@d;")
	}
}

// every decoded byte, and readers that give back any bytes
func C12_Decoded() {
	vp.Options("cut")
	defer uninstall()
	s := ""
	if vp.Choice("read", 2) == 1 {
		n := vp.Choice("n", 4)
		out := vp.RawBytes("b", n)
		rfc5322.CharsetReader = func(string, io.Reader) (io.Reader, error) {
			return &partReader{data: []byte(out), step: 1 + n/2, err: io.EOF}, nil
		}
		s = "=?x?q?a?="
	} else {
		a, _ := hexByte("a", 0, 15)
		b, _ := hexByte("b", 0, 15)
		s = "=?" + pick("cs", "utf-8", "us-ascii", "iso-8859-1") + "?q?" + a + pick("mid", "", "_") + b + "?="
	}
	total(pick("pre", "", "a ", "=?utf-8?q?b?= ") + s + pick("post", "", " c", " \"\"") + " <l@d>")
}

// nesting
func C12_Nested() {
	n := []int{1, 2, 7, 30}[vp.Choice("n", 4)]
	m := n - vp.Choice("less", 3) + 1
	s := ""
	for i := 0; i < n; i++ {
		s += "("
	}
	s += vp.Chars("x", 1, ascii)
	for i := 0; i < m; i++ {
		s += ")"
	}
	total(s + "l@d")
}

// the blank inputs
func C12_Blank() {
	n := vp.Choice("n", 5)
	s := ""
	for i := 0; i < n; i++ {
		s += pick("b"+itoa(i), " ", "\t", "\r\n", ",")
	}
	if vp.Choice("date", 2) == 0 {
		total(s)
	} else {
		totalDate(s)
	}
}

// one edit at any place of a well-formed text
func C12_Edit() {
	total(string(edited(listForms, 1)))
}

// one edit at any place of a well-formed text
func C12_DateEdit() {
	vp.SetClock(1600000000)
	totalDate(string(edited(dateTexts, 1)))
}
