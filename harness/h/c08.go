package h

import "vpharness/vp"

// C08: adjacent encoded words are joined with nothing, other words by a space.

// enc is an encoded word with one or two symbolic characters, and its text.
func enc(id string, kind int) (string, string) {
	t := vp.Chars("t"+id, 1, alnum)
	switch kind {
	case 0:
		return "=?utf-8?q?" + t + "?=", t
	case 1:
		b, v := hexByte("x"+id, 2, 6)
		return "=?iso-8859-1?Q?" + t + b + "?=", t + raw(v)
	case 2:
		// base64 of one ASCII byte
		a, av := b64("a"+id, []rune{'I', 'Z', 'a', 'e'})
		b, bv := b64("b"+id, []rune{'A', 'A', 'Q', 'Q', 'g', 'g', 'w', 'w'})
		return "=?utf-8?b?" + a + b + "==?=", raw(av<<2 | bv>>4)
	default:
		return "=?us-ascii?q?" + t + "_?=", t + " "
	}
}

var encSeps = []string{" ", "", "\t", "\r\n ", "  ", " \r\n\t"}

func C08_Two() {
	vp.Options("cut")
	a, x := enc("a", vp.Choice("ka", 4))
	b, y := enc("b", vp.Choice("kb", 4))
	expect(a+pick("sep", encSeps...)+b+" <l@d>", want{x + y, "l@d"})
}

// comments between encoded words do not show either
func C08_Comment() {
	vp.Options("cut")
	a, x := enc("a", 0)
	b, y := enc("b", 3)
	expect(a+pick("s1", " ", "")+"("+vp.Chars("c", 1, ctextA)+")"+pick("s2", " ", "", "\r\n ")+b+" <l@d>", want{x + y, "l@d"})
}

// n words separated by white space of symbolic kind
func C08_Many() {
	vp.Options("cut")
	n := 3 + vp.Choice("n", 3)
	s, w := "", ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += vp.Chars("s"+itoa(i), 1, wsp)
		}
		e, t := enc(itoa(i), (i%2)*3)
		s += e
		w += t
	}
	expect(s+" <l@d>", want{w, "l@d"})
}

func C08_Long() {
	vp.Options("cut")
	n := []int{8, 16, 24}[vp.Choice("n", 3)]
	sep := pick("sep", " ", "\r\n ", "")
	s, w := "", ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += sep
		}
		t := vp.Chars("t"+itoa(i), 1, alnum)
		s += "=?utf-8?q?" + t + "?="
		w += t
	}
	expect(s+" <l@d>", want{w, "l@d"})
}

// next to an atom or a quoted string
func C08_Mixed() {
	vp.Options("cut")
	n := 4
	if vp.Deep() {
		n = 6
	}
	s, w := "", ""
	last := -1
	for i := 0; i < n; i++ {
		id := itoa(i)
		k := vp.Choice("k"+id, 3)
		if i > 0 {
			s += " "
			if !(k == 0 && last == 0) {
				w += " "
			}
		}
		switch k {
		case 0:
			e, t := enc(id, 0)
			s += e
			w += t
		case 1:
			t := vp.Chars("a"+id, 1, atextN)
			s += t
			w += t
		case 2:
			t := vp.Chars("q"+id, 1, qplain)
			s += "\"" + t + "\""
			w += t
		}
		last = k
	}
	expect(s+" <l@d>", want{w, "l@d"})
}

// quoted strings may touch what they follow
func C08_Touching() {
	vp.Options("cut")
	e, t := enc("e", 0)
	q := vp.Chars("q", 1, qplain)
	switch vp.Choice("form", 3) {
	case 0:
		expect("\""+q+"\""+e+" <l@d>", want{q + " " + t, "l@d"})
	case 1:
		expect(e+"\""+q+"\" <l@d>", want{t + " " + q, "l@d"})
	case 2:
		expect(e+"\""+q+"\""+e+" <l@d>", want{t + " " + q + " " + t, "l@d"})
	}
}

// two runs of encoded words around another word
func C08_Runs() {
	vp.Options("cut")
	a, x := enc("a", 0)
	b, y := enc("b", 1)
	c, z := enc("c", 2)
	m := vp.Chars("m", 1, atextN)
	switch vp.Choice("form", 4) {
	case 0:
		expect(a+" "+b+" "+m+" "+c+" <l@d>", want{x + y + " " + m + " " + z, "l@d"})
	case 1:
		expect(a+" "+m+" "+b+" "+c+" <l@d>", want{x + " " + m + " " + y + z, "l@d"})
	case 2:
		expect(m+" "+a+" "+b+" "+c+" <l@d>", want{m + " " + x + y + z, "l@d"})
	case 3:
		expect(a+" "+b+" "+c+" "+m+" <l@d>", want{x + y + z + " " + m, "l@d"})
	}
}

// the names of neighbours do not mix
func C08_Neighbours() {
	vp.Options("cut")
	a, x := enc("a", 0)
	b, y := enc("b", 3)
	c, z := enc("c", 1)
	expect(a+" "+b+" <l@d>"+pick("sep", ",", "; ")+c+" <m@e>, "+b+"<n@f>", want{x + y, "l@d"}, want{z, "m@e"}, want{y, "n@f"})
}

// encoded words, atoms, quoted strings that look like encoded words, joints
func C08_Seq() {
	vp.Options("cut")
	last := 4
	if vp.Deep() {
		last = 5
	}
	n := 2 + vp.Choice("n", last-1)
	sep := pick("sep", " ", "\r\n\t", " (c) ")
	in, name := "", ""
	coded := false
	for i := 0; i < n; i++ {
		id := itoa(i)
		k := vp.Choice("k"+id, 5)
		s, t := "", ""
		switch k {
		case 0, 1:
			s, t = enc(id, 3*k)
		case 2:
			t = vp.Chars("c"+id, 1, alnum)
			s = t
		case 3:
			t = "=?" + vp.Chars("c"+id, 1, atextN)
			s = "\"" + t + "\""
		case 4:
			t = "=?utf-8?q?" + vp.Chars("c"+id, 1, alnum) + "?="
			s = "\"" + t + "\""
		}
		if i > 0 {
			in += sep
			if !coded || k > 1 {
				name += " "
			}
		}
		coded = k < 2
		in += s
		name += t
	}
	expect(in+" <l@d>", want{name, "l@d"})
}
