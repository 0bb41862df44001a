package h

import "vpharness/vp"

// C07: an encoded word is replaced by exactly the text it encodes.

// what a Q-encoded word may hold as it is, without '=', '_' and '?'
var qSafe = []rune{'!', '<', '>', '>', '@', '^', '`', '~'}

// the cheap part of it: nothing that means something to the address grammar
var qMild = []rune{'!', '!', '#', '\'', '*', '+', '-', '-', '/', '9', 'A', 'Z', '^', '^', '`', '~'}

// anycase is the word with every letter in either case.
func anycase(name, w string) string {
	out := ""
	for i := 0; i < len(w); i++ {
		c := rune(w[i])
		if c >= 'a' && c <= 'z' {
			out += string(vp.Rune(name+itoa(i), []rune{c, c, c - 32, c - 32}))
		} else {
			out += string(c)
		}
	}
	return out
}

var charsets = []string{"utf-8", "iso-8859-1", "us-ascii"}

// hexLower tells whether lower-case hexadecimal digits are among the inputs.
var hexLower = true

// hexDigit is a symbolic hexadecimal digit and its value.
func hexDigit(name string, lo, hi int) (string, int) {
	var set []rune
	add := func(a, b rune, base int) {
		for r := a; r <= b; r++ {
			if v := int(r-a) + base; v >= lo && v <= hi {
				set = append(set, r, r)
			}
		}
	}
	add('0', '9', 0)
	add('A', 'F', 10)
	if hexLower {
		add('a', 'f', 10)
	}
	r := vp.Rune(name, set)
	v := int(r) - '0'
	v = vp.IteInt(vp.And(r >= 'A', r <= 'F'), int(r)-'A'+10, v)
	v = vp.IteInt(vp.And(r >= 'a', r <= 'f'), int(r)-'a'+10, v)
	return string(r), v
}

// hexByte is "=XX" and the byte it stands for, of 16*hlo..16*hhi+15.
func hexByte(name string, hlo, hhi int) (string, int) {
	h, hv := hexDigit(name+"h", hlo, hhi)
	l, lv := hexDigit(name+"l", 0, 15)
	return "=" + h + l, hv*16 + lv
}

func raw(bs ...int) string {
	b := make([]byte, len(bs))
	for i, x := range bs {
		b[i] = byte(x)
	}
	return string(b)
}

const tail = " <l@d>"

func C07_QPlain() {
	vp.Options("cut")
	n := 3
	if vp.Deep() {
		n = 4
	}
	t := vp.Chars("t", 1+vp.Choice("n", n), qSafe)
	expect("=?"+pick("cs", charsets...)+"?q?"+t+"?="+tail, want{t, "l@d"})
}

func C07_QUnderscore() {
	vp.Options("cut")
	n := 3
	in, out := "", ""
	for i := 0; i < n; i++ {
		r := vp.Rune("t"+itoa(i), append([]rune{'_', '_'}, qMild...))
		in += string(r)
		out += string(rune(vp.IteInt(r == '_', ' ', int(r))))
	}
	expect("=?"+pick("cs", charsets...)+"?Q?"+in+"?="+tail, want{out, "l@d"})
}

// letter cases of the charset and the encoding
func C07_Case() {
	vp.Options("cut")
	cs := anycase("c", charsets[vp.Choice("cs", 3)])
	t := vp.Chars("t", 2, alnum)
	expect("=?"+cs+"?"+anycase("e", "q")+"?"+t+"?="+tail, want{t, "l@d"})
}

func C07_CaseB() {
	vp.Options("cut")
	cs := anycase("c", charsets[vp.Choice("cs", 3)])
	expect("=?"+cs+"?"+anycase("e", "b")+"?aGk=?="+tail, want{"hi", "l@d"})
}

// ASCII bytes as =XX, in each charset
func C07_QHexASCII() {
	vp.Options("cut")
	a, av := hexByte("a", 0, 7)
	b, bv := hexByte("b", 0, 7)
	t := vp.Chars("t", 1, alnum)
	expect("=?"+pick("cs", charsets...)+"?q?"+a+t+b+"?="+tail, want{raw(av) + t + raw(bv), "l@d"})
}

// two-, three- and four-byte UTF-8 sequences as =XX
func C07_QHexUTF8() {
	vp.Options("cut")
	var in string
	var v []int
	put := func(s string, x int) {
		in += s
		v = append(v, x)
	}
	n := 2 + vp.Choice("n", 3)
	if !vp.Deep() {
		hexLower = n == 2
		defer func() { hexLower = true }()
	}
	switch n {
	case 2:
		put(hexByte("a", 0xc, 0xd))
	case 3:
		put(hexByte("a", 0xe, 0xe))
	case 4:
		l, lv := hexDigit("al", 0, 4)
		put("="+pick("f", "F", "f")+l, 0xf0+lv)
	}
	for i := 1; i < n; i++ {
		put(hexByte("b"+itoa(i), 8, 0xb))
	}
	t := vp.Chars("t", 1, alnum)
	expect("=?"+pick("cs", "utf-8", "UTF-8")+"?"+pick("q", "q", "Q")+"?"+t+in+t+"?="+tail, want{t + raw(v...) + t, "l@d"})
}

// Latin-1 bytes
func C07_QHexLatin1() {
	vp.Options("cut")
	n := 2
	if vp.Deep() {
		n = 3
	}
	n = 1 + vp.Choice("n", n)
	in, out := "", ""
	for i := 0; i < n; i++ {
		s, x := hexByte("b"+itoa(i), 8, 0xf)
		in += s
		out += string(rune(x))
	}
	expect("=?"+pick("cs", "iso-8859-1", "ISO-8859-1")+"?q?"+in+"?="+tail, want{out, "l@d"})
}

// b64 is a symbolic base64 digit and its value.
func b64(name string, set []rune) (string, int) {
	r := vp.Rune(name, set)
	v := vp.IteInt(r == '+', 62, 63)
	v = vp.IteInt(vp.And(r >= '0', r <= '9'), int(r)-'0'+52, v)
	v = vp.IteInt(vp.And(r >= 'a', r <= 'z'), int(r)-'a'+26, v)
	v = vp.IteInt(vp.And(r >= 'A', r <= 'Z'), int(r)-'A', v)
	return string(r), v
}

var b64set = []rune{'+', '+', '/', '9', 'A', 'Z', 'a', 'z'}

// whole groups of four digits
func C07_B() {
	vp.Options("cut")
	n := 1 + vp.Choice("n", 2)
	in := ""
	var out []int
	for i := 0; i < n; i++ {
		a, av := b64("a"+itoa(i), b64set)
		b, bv := b64("b"+itoa(i), b64set)
		c, cv := b64("c"+itoa(i), b64set)
		d, dv := b64("d"+itoa(i), b64set)
		in += a + b + c + d
		out = append(out, av<<2|bv>>4, (bv&15)<<4|cv>>2, (cv&3)<<6|dv)
	}
	expect("=?utf-8?"+pick("b", "b", "B")+"?"+in+"?="+tail, want{raw(out...), "l@d"})
}

// the padded last group, in each charset
func C07_BPadded() {
	vp.Options("cut")
	cs := vp.Choice("cs", 3)
	top := b64set
	if cs > 0 {
		top = []rune{'A', 'Z', 'a', 'f'} // ASCII: the value stays below 32
	}
	a, av := b64("a", top)
	var in string
	var out []int
	if vp.Choice("pad", 2) == 0 {
		b, bv := b64("b", []rune{'A', 'A', 'Q', 'Q', 'g', 'g', 'w', 'w'})
		in = a + b + "=="
		out = []int{av<<2 | bv>>4}
	} else {
		set := b64set
		if cs > 0 {
			set = []rune{'A', 'H', 'Q', 'X', 'g', 'n', 'w', 'z', '0', '3'}
		}
		b, bv := b64("b", set)
		c, cv := b64("c", []rune{'A', 'A', 'E', 'E', 'I', 'I', 'M', 'M', 'Q', 'Q', 'U', 'U', 'Y', 'Y', 'c', 'c', 'g', 'g', 'k', 'k', 'o', 'o', 's', 's', 'w', 'w', '0', '0', '4', '4', '8', '8'})
		in = a + b + c + "="
		out = []int{av<<2 | bv>>4, (bv&15)<<4 | cv>>2}
	}
	expect("=?"+charsets[cs]+"?b?"+in+"?="+tail, want{raw(out...), "l@d"})
}

// long payloads
func C07_Long() {
	vp.Options("cut")
	n := []int{16, 40, 64}[vp.Choice("n", 3)]
	t := vp.Chars("t", n, qMild)
	expect("=?utf-8?q?"+t+"?="+tail, want{t, "l@d"})
}

// a word among others, in each kind of mailbox
func C07_Places() {
	vp.Options("cut")
	t := vp.Chars("t", 1, qMild)
	e := "=?utf-8?q?" + t + "?="
	n := vp.Chars("n", 1, atextN)
	switch vp.Choice("where", 8) {
	case 0:
		expect(n+" "+e+tail, want{n + " " + t, "l@d"})
	case 1:
		expect(e+" "+n+tail, want{t + " " + n, "l@d"})
	case 2:
		expect(n+" "+e+" x"+tail, want{n + " " + t + " x", "l@d"})
	case 3:
		expect("a@b, "+e+tail+", "+n+" <x@y>", want{"", "a@b"}, want{t, "l@d"}, want{n, "x@y"})
	case 4:
		expect("g: "+e+tail+", "+n+" <x@y>;", want{t, "l@d"}, want{n, "x@y"})
	case 5:
		expect(e+": "+n+" <x@y>;", want{n, "x@y"})
	case 6:
		expect("(c)"+e+"(d)"+tail, want{t, "l@d"})
	case 7:
		expect(e+"<l@d>", want{t, "l@d"})
	}
}

// no decoding inside a quoted string, inside an atom, in a comment or for an
// address of atom characters
func C07_NotDecoded() {
	vp.Options("cut")
	t := vp.Chars("t", 2, alnum)
	e := "=?" + pick("cs", "utf-8", "ISO-8859-1") + "?" + pick("enc", "q", "Q") + "?" + t + "?="
	switch vp.Choice("where", 5) {
	case 0:
		expect("\""+e+"\""+tail, want{e, "l@d"})
	case 1:
		expect("\"a "+e+" b\""+tail, want{"a " + e + " b", "l@d"})
	case 2:
		expect("a"+e+tail, want{"a" + e, "l@d"})
	case 3:
		expect("a ("+e+") b"+tail, want{"a b", "l@d"})
	case 4:
		expect("\""+e+"\"@d", want{"", e + "@d"})
	}
}

// nor in an address
func C07_Address() {
	vp.Options("cut")
	t := vp.Chars("t", 2, alnum)
	e := "=?" + pick("cs", "utf-8", "ISO-8859-1") + "?" + pick("enc", "q", "Q", "b") + "?" + t + "?="
	switch vp.Choice("where", 6) {
	case 0:
		expect(e+"@d", want{"", e + "@d"})
	case 1:
		expect("a."+e+"@d", want{"", "a." + e + "@d"})
	case 2:
		expect("a@"+e, want{"", "a@" + e})
	case 3:
		expect("a@b."+e, want{"", "a@b." + e})
	case 4:
		expect("n <"+e+"@"+e+">", want{"n", e + "@" + e})
	case 5:
		expect("a@["+e+"]", want{"", "a@[" + e + "]"})
	}
}

// nor in an obsolete local part
func C07_ObsLocal() {
	vp.Options("cut")
	e := "=?" + pick("cs", "utf-8", "x") + "?" + pick("e", "q", "b") + "?" + vp.Chars("t", 2, alnum) + pick("end", "", "=", ".=41") + "?="
	f := pick("f", e, e+e, "a"+e, e+"a")
	g := &gen{k: 1, gaps: true}
	q := vp.Chars("q", 1, qtextA)
	in, out := "", ""
	switch vp.Choice("where", 4) {
	case 0:
		in, out = "\""+q+"\""+g.gap("x", "")+"."+g.gap("y", " ")+f, q+"."+f
	case 1:
		in, out = "a"+g.gap("x", "")+"."+g.gap("y", " ")+f+g.gap("z", ""), "a."+f
	case 2:
		in, out = f+g.gap("x", " ")+"."+g.gap("y", "")+"\""+q+"\"", f+"."+q
	case 3:
		in, out = g.gap("w", "")+f+g.gap("x", "")+"."+g.gap("y", " ")+"a."+f, f+".a."+f
	}
	if vp.Choice("angle", 2) == 0 {
		expect(in+"@d", want{"", out + "@d"})
	} else {
		expect("n <"+in+"@d>, "+in+"@e", want{"n", out + "@d"}, want{"", out + "@e"})
	}
}

// two of them are two words, which no local part may be, and one that is no
// atom is none
func C07_NoLocal() {
	vp.Options("cut")
	e := "=?utf-8?q?" + vp.Chars("t", 2, alnum) + "?="
	bad := vp.Chars("u", 1, []rune{'(', ')', ',', ',', ':', ';', '[', ']', '@', '@', '"', '"'})
	b := "=?utf-8?q?a" + bad + "?="
	switch vp.Choice("where", 7) {
	case 0:
		reject(e + pick("sp", " ", "(c)", "\r\n ") + e + "@d")
	case 1:
		reject("n <" + e + pick("sp", " ", "(c)", "\r\n ") + e + pick("sp2", " ", "") + ".x@d>")
	case 2:
		reject("x." + e + " " + e + "@d")
	case 3:
		reject(b + "@d")
	case 4:
		reject("x." + b + " . y@d")
	case 5:
		reject("m@e, n <" + e + "." + b + "@d>")
	case 6:
		reject("g: " + b + "@d, m@e;")
	}
}

// text that looks like something else again
func C07_Again() {
	vp.Options("cut")
	x := vp.Chars("x", 2, alnum)
	e := pick("e", "q", "Q")
	in, out := "", ""
	switch vp.Choice("case", 7) {
	case 0: // an encoded word
		in, out = "=?utf-8?q?=3D=3Futf-8=3F"+"q=3F"+x+"=3F=3D?=", "=?utf-8?q?"+x+"?="
	case 1:
		in, out = "=?utf-8?b?PT91dGYtOD9xP2FiPz0=?=", "=?utf-8?q?ab?="
	case 2: // quoted, with a quoted pair
		in, out = "=?us-ascii?"+e+"?=22"+x+"=5C=22=22?=", "\""+x+"\\\"\""
	case 3: // hexadecimal digits and underscores
		in, out = "=?utf-8?"+e+"?=3D"+x+"=5F?=", "="+x+"_"
	case 4: // an address
		in, out = "=?utf-8?"+e+"?=3C"+x+"@d=3E,?=", "<"+x+"@d>,"
	case 5: // a comment
		in, out = "=?utf-8?"+e+"?=28"+x+"=29?=", "("+x+")"
	case 6: // base64
		in, out = "=?utf-8?"+e+"?"+x+"=3D=3D?=", x+"=="
	}
	switch vp.Choice("place", 3) {
	case 0:
		expect(in+tail, want{out, "l@d"})
	case 1:
		expect("a "+in+tail, want{"a " + out, "l@d"})
	case 2:
		expect(in+" \"b\""+tail, want{out + " b", "l@d"})
	}
}

// white space and control characters at the edges of the text
func C07_Edges() {
	vp.Options("cut")
	hexLower = false
	a, av := hexByte("a", 0, 7)
	b, bv := hexByte("b", 0, 7)
	x := vp.Chars("x", vp.Choice("n", 2), alnum)
	in, out := "=?utf-8?q?"+a+x+b+"?=", raw(av)+x+raw(bv)
	switch vp.Choice("place", 4) {
	case 0:
		expect(in+tail, want{out, "l@d"})
	case 1:
		expect("a "+in+tail, want{"a " + out, "l@d"})
	case 2:
		expect(in+" b"+tail, want{out + " b", "l@d"})
	case 3:
		expect(in+" =?utf-8?q?c?="+tail, want{out + "c", "l@d"})
	}
}

// every name with encoded words among other departures
func C07_Generated() {
	generated(&gen{k: 2, names: true, gaps: true, forms: true, words: true}, 1+vp.Choice("elements", 2))
}
