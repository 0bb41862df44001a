package h

import (
	"errors"
	"io"

	"vpharness/vp"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
)

// C09: other charsets go through the installed reader, failures keep the word.

// partReader yields its data piece by piece and then ends with err.
type partReader struct {
	data []byte
	step int
	err  error
}

func (r *partReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.err
	}
	n := r.step
	if n > len(r.data) {
		n = len(r.data)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}

var errReader = errors.New("reader")

// consulted is one call of the installed reader.
type consulted struct{ charset, content string }

var calls []consulted

// install sets a charset reader that answers like how says.
func install(how int) {
	calls = nil
	rfc5322.CharsetReader = func(charset string, in io.Reader) (io.Reader, error) {
		b, err := io.ReadAll(in)
		if err != nil {
			return nil, err
		}
		calls = append(calls, consulted{charset, string(b)})
		out := append(append([]byte("<"), b...), '>')
		switch how {
		case rFail:
			return nil, errReader
		case rBroken: // fails when half of it has been read
			return &partReader{data: out[:1], step: 1, err: errReader}, nil
		case rBytes:
			return &partReader{data: out, step: 1, err: io.EOF}, nil
		case rEmpty:
			return &partReader{err: io.EOF}, nil
		}
		return &partReader{data: out, step: 100, err: io.EOF}, nil
	}
}

func uninstall() { rfc5322.CharsetReader, calls = nil, nil }

const (
	rGood = iota
	rBytes
	rEmpty
	rFail
	rBroken
)

// answer is what the word becomes under the reader, given its source text and
// its decoded bytes.
func answer(how int, src, dec string) string {
	switch how {
	case rFail, rBroken:
		return src
	case rEmpty:
		return ""
	}
	return "<" + dec + ">"
}

func oneCall(charset, content string) {
	vp.Check(len(calls) == 1, "the reader is consulted once")
	if len(calls) == 1 {
		vp.Check(calls[0].charset == charset, "the reader gets the lower-case charset")
		vp.Check(calls[0].content == content, "the reader gets the decoded bytes")
	}
}

var others = []string{"utf-16", "iso-8859-15", "windows-1252", "koi8-r", "x", "shift_jis", "us-ascii8", "utf8"}

// charset names, reader behaviours
func C09_Reader() {
	vp.Options("cut")
	defer uninstall()
	how := vp.Choice("how", 5)
	install(how)
	cs := pick("cs", others...)
	t := vp.Chars("t", 1, alnum)
	x, v := hexByte("x", 8, 15)
	src := "=?" + cs + "?q?" + t + x + "?="
	expect(src+tail, want{answer(how, src, t+raw(v)), "l@d"})
	oneCall(cs, t+raw(v))
}

// the name of the charset is symbolic
func C09_AnyCharset() {
	vp.Options("cut")
	defer uninstall()
	install(rGood)
	n := 1 + vp.Choice("n", 4)
	up := vp.Choice("up", n+1) // this letter is a capital
	cs, low := "", ""
	for i := 0; i < n; i++ {
		if i == up {
			r := vp.Rune("c"+itoa(i), []rune{'A', 'Z'})
			cs += string(r)
			low += string(r + 32)
		} else {
			r := vp.Rune("c"+itoa(i), []rune{'a', 'z', '0', '9', '-', '-', '_', '_', '+', '+'})
			cs += string(r)
			low += string(r)
		}
	}
	t := vp.Chars("t", 1, alnum)
	expect("=?"+cs+"?"+pick("e", "q", "Q")+"?"+t+"?="+tail, want{"<" + t + ">", "l@d"})
	oneCall(low, t)
}

func C09_B() {
	vp.Options("cut")
	defer uninstall()
	how := vp.Choice("how", 5)
	install(how)
	a, av := b64("a", b64set)
	b, bv := b64("b", b64set)
	c, cv := b64("c", b64set)
	d, dv := b64("d", b64set)
	dec := raw(av<<2|bv>>4, (bv&15)<<4|cv>>2, (cv&3)<<6|dv)
	src := "=?big5?" + pick("e", "b", "B") + "?" + a + b + c + d + "?="
	expect(src+tail, want{answer(how, src, dec), "l@d"})
	oneCall("big5", dec)
}

// the built-in charsets never reach the reader
func C09_BuiltIn() {
	vp.Options("cut")
	defer uninstall()
	install(vp.Choice("how", 2) * rFail)
	t := vp.Chars("t", 2, alnum)
	expect("=?"+anycase("c", charsets[vp.Choice("cs", 3)])+"?q?"+t+"?="+tail, want{t, "l@d"})
	vp.Check(len(calls) == 0, "the reader is not consulted for a built-in charset")
}

// without a reader the word stays as it is
func C09_NoReader() {
	vp.Options("cut")
	src := "=?" + oneOf("cs", 3, []rune{'a', 'z', 'A', 'Z', '0', '9'}) + "?" + pick("e", "q", "Q") + "?" + vp.Chars("t", 2, alnum) + "?="
	expect(src+tail, want{src, "l@d"})
}

func C09_NoReaderB() {
	vp.Options("cut")
	src := "=?" + pick("cs", others...) + "?" + pick("e", "b", "B") + "?" + vp.Chars("t", 4, b64set) + "?="
	expect(src+tail, want{src, "l@d"})
}

// an unknown encoding letter
func C09_BadEncoding() {
	vp.Options("cut")
	defer uninstall()
	if vp.Choice("reader", 2) == 1 {
		install(rGood)
	}
	e := ""
	switch vp.Choice("e", 2) {
	case 0:
		e = vp.Chars("e", 1, []rune{'A', 'A', 'C', 'P', 'R', 'Z', 'a', 'a', 'c', 'p', 'r', 'z', '0', '9'})
	case 1:
		e = vp.Chars("e", 2, alnum)
	}
	src := "=?" + pick("cs", "utf-8", "koi8-r") + "?" + e + "?" + vp.Chars("t", 2, alnum) + "?="
	expect(src+tail, want{src, "l@d"})
}

// a broken payload
func C09_BadQ() {
	vp.Options("cut")
	defer uninstall()
	if vp.Choice("reader", 2) == 1 {
		install(rGood)
	}
	notHex := []rune{'G', 'Z', 'g', 'z', '*', '+', '-', '-'}
	t := ""
	switch vp.Choice("t", 4) {
	case 0:
		t = "=" + vp.Chars("t", 2, notHex)
	case 1:
		t = "=" + vp.Chars("t", 1, alnum)
	case 2:
		t = "=4" + vp.Chars("t", 1, notHex)
	case 3:
		t = "a=" + vp.Chars("t", 1, notHex) + "1"
	}
	src := "=?" + pick("cs", "utf-8", "koi8-r") + "?q?" + t + "?="
	expect("a "+src+" b"+tail, want{"a " + src + " b", "l@d"})
	vp.Check(len(calls) == 0, "the reader is not consulted for a broken word")
}

func C09_BadB() {
	vp.Options("cut")
	defer uninstall()
	if vp.Choice("reader", 2) == 1 {
		install(rGood)
	}
	t := ""
	switch vp.Choice("t", 4) {
	case 0: // not a multiple of four
		t = vp.Chars("t", 1+vp.Choice("n", 3), b64set)
	case 1:
		t = vp.Chars("t", 5, b64set)
	case 2: // not in the alphabet
		t = vp.Chars("t", 1, b64set) + vp.Chars("u", 1, []rune{'!', '!', '#', '*', '-', '-', ':', ';', '[', '[', '^', '`'}) + "AA"
	case 3: // padding in the wrong place
		t = pick("p", "A===", "=AAA", "A=AA", "AA=A", "AA==AA")
	}
	src := "=?" + pick("cs", "utf-8", "koi8-r") + "?b?" + t + "?="
	expect(src+tail, want{src, "l@d"})
	vp.Check(len(calls) == 0, "the reader is not consulted for a broken word")
}

// the rest of the input is unaffected, whichever way it ends
func C09_Rest() {
	vp.Options("cut")
	defer uninstall()
	how := vp.Choice("how", 6)
	if how < 5 {
		install(how)
	}
	t := vp.Chars("t", 1, alnum)
	n := vp.Chars("n", 1, atextN)
	src := "=?koi8-r?q?" + t + "?="
	x := src
	if how < 5 {
		x = answer(how, src, t)
	}
	switch vp.Choice("where", 4) {
	case 0:
		expect(n+" <a@b>, "+src+tail+", c@d", want{n, "a@b"}, want{x, "l@d"}, want{"", "c@d"})
	case 1:
		// the empty text of an empty reader joins like any word
		if how == rEmpty {
			return
		}
		expect(n+" "+src+" z"+tail, want{n + " " + x + " z", "l@d"})
	case 2:
		expect(src+" =?utf-8?q?"+t+"?="+tail, want{x + t, "l@d"})
	case 3:
		expect("=?utf-8?q?"+t+"?= "+src+tail, want{t + x, "l@d"})
	}
}

// each word consults the reader once, in order
func C09_Order() {
	vp.Options("cut")
	defer uninstall()
	install(vp.Choice("how", 2))
	a, b, c := vp.Chars("a", 1, alnum), vp.Chars("b", 1, alnum), vp.Chars("c", 1, alnum)
	expect("=?koi8-r?q?"+a+"?= =?BIG5?Q?"+b+"?= <l@d>, =?x?q?"+c+"?= <m@e>", want{"<" + a + "><" + b + ">", "l@d"}, want{"<" + c + ">", "m@e"})
	vp.Check(len(calls) == 3, "three calls")
	if len(calls) == 3 {
		vp.Check(calls[0].charset == "koi8-r" && calls[1].charset == "big5" && calls[2].charset == "x", "charsets in order")
		vp.Check(calls[0].content == a && calls[1].content == b && calls[2].content == c, "contents in order")
	}
}
