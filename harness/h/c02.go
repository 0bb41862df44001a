package h

import "vpharness/vp"

// C02: a display name and an angle address come back as Name and Address.

// separators that may stand between the words of a display name
var wordSeps = []string{" ", "\t", "  ", "\r\n ", " \r\n\t", "(c)", " (c) ", " (c) (d) "}

func C02_Words() {
	vp.Options("cut")
	n := 1 + vp.Choice("words", 3)
	in, name := "", ""
	for i := 0; i < n; i++ {
		id := string(rune('a' + i))
		w := ""
		if i == 0 {
			w = spot("w"+id, 1+vp.Choice("n"+id, 3), atextN)
		} else {
			w = vp.Chars("w"+id, 2, atextN)
			if n == 3 && !vp.Deep() {
				in += pick("s"+id, " ", "\r\n ", " (c) ")
			} else {
				in += pick("s"+id, wordSeps...)
			}
			name += " "
		}
		in += w
		name += w
	}
	a := vp.Chars("l", 1, atextN) + "@" + vp.Chars("d", 1, atextN)
	expect(in+pick("sp", "", " ")+"<"+a+">", want{name, a})
}

// a special character inside a quoted word of a longer name
func C02_QuotedSpecial() {
	vp.Options("cut")
	w := vp.Chars("w", 1, atextN)
	c := vp.Chars("c", 1, qspecial)
	q := vp.Chars("q", vp.Choice("nq", 2), atextN) + c + vp.Chars("r", vp.Choice("nr", 2), atextN)
	if vp.Choice("first", 2) == 0 {
		expect("\""+q+"\" "+w+" <a@b>", want{q + " " + w, "a@b"})
	} else {
		expect(w+" \""+q+"\"<a@b>", want{w + " " + q, "a@b"})
	}
}

// atoms that contain '=' and '?' but are no encoded words
func C02_EqualsInWords() {
	vp.Options("cut")
	w := vp.Chars("a", 1, atextN) + oneOf("w", 2, atextA)
	expect(w+" x <a@b>", want{w + " x", "a@b"})
}

// quoted and unquoted words mixed
func C02_QuotedWords() {
	vp.Options("cut")
	n := 1 + vp.Choice("words", 3)
	in, name, prevQ := "", "", false
	for i := 0; i < n; i++ {
		id := string(rune('a' + i))
		q := vp.Choice("q"+id, 2) == 1
		w := ""
		if q {
			w = vp.Chars("w"+id, 1+vp.Choice("n"+id, 2), atextN)
		} else {
			w = vp.Chars("w"+id, 1+vp.Choice("n"+id, 2), atextN)
		}
		if i > 0 {
			name += " "
			if q || prevQ {
				in += pick("s"+id, "", " ")
			} else {
				in += " "
			}
		}
		if q {
			in += "\"" + w + "\""
		} else {
			in += w
		}
		name += w
		prevQ = q
	}
	expect(in+"<a@b>", want{name, "a@b"})
}

// a dot or an at sign inside an unquoted name joins its neighbours
func C02_Joined() {
	vp.Options("cut")
	n := 1 + vp.Choice("joints", 2)
	x := vp.Chars("x", 1, atextN)
	in, name := x, x
	for i := 0; i < n; i++ {
		id := string(rune('a' + i))
		j := pick("j"+id, ".", "@")
		y := vp.Chars("y"+id, 1, atextN)
		in += pick("p"+id, "", " ") + j + pick("r"+id, "", " ") + y
		name += j + y
	}
	z := vp.Chars("z", 1, atextN)
	expect(in+" "+z+" <a@b>", want{name + " " + z, "a@b"})
}

// a dot at the end of the name
func C02_TrailingDot() {
	vp.Options("cut")
	x, y := vp.Chars("x", 2, atextN), vp.Chars("y", 1, atextN)
	expect(x+" "+y+"."+pick("sp", "", " ")+"<a@b>", want{x + " " + y + ".", "a@b"})
}

// many and long words
func C02_Long() {
	vp.Options("cut")
	n := []int{5, 10, 20}[vp.Choice("words", 3)]
	in, name := "", ""
	for i := 0; i < n; i++ {
		w := vp.Chars("w"+string(rune('a'+i)), 1+i%4, atextN)
		if i > 0 {
			in += " "
			name += " "
		}
		in += w
		name += w
	}
	expect(in+" <a@b>", want{name, "a@b"})
}

func C02_LongWord() {
	vp.Options("cut")
	n := []int{32, 75, 100, 130}[vp.Choice("n", 4)]
	w := vp.Chars("w", n, atextN)
	q := vp.Chars("q", n, atextN)
	expect(w+" \""+q+"\" <a@b>", want{w + " " + q, "a@b"})
}

// the angle address keeps every character of the addr-spec
func C02_Addr() {
	vp.Options("cut")
	a := spot("l", 2, atextN) + pick("dl", "", ".q") + "@" + oneOf("d1", 2, atextN) + "." + mono("d2", 2, atextN)
	w := vp.Chars("w", 2, atextN)
	switch vp.Choice("space", 5) {
	case 0:
		expect(w+"<"+a+">", want{w, a})
	case 1:
		expect(w+" <"+a+">", want{w, a})
	case 2:
		expect(w+"\t< "+a+">", want{w, a})
	case 3:
		expect(w+"<"+a+" >", want{w, a})
	case 4:
		expect(w+" <\r\n "+a+"\r\n > ", want{w, a})
	}
}

// words, empty ones among them, and joints in any order
func C02_Seq() {
	vp.Options("cut")
	last := 4
	if vp.Deep() {
		last = 5
	}
	n := 2 + vp.Choice("n", last-1)
	sep := pick("sep", "", " ", "\r\n\t", "(c)")
	in, name := "", ""
	joined, atom := true, false
	for i := 0; i < n; i++ {
		id := itoa(i)
		kinds := 5
		if i == 0 {
			kinds = 3
		}
		k := vp.Choice("k"+id, kinds)
		c := vp.Chars("c"+id, 1, atextN)
		s := sep
		if atom && k == 0 && s == "" {
			s = " "
		}
		if i > 0 {
			in += s
		}
		if k < 3 && !joined && name != "" {
			name += " "
		}
		joined, atom = k >= 3, k == 0
		switch k {
		case 0:
			in += c
			name += c
		case 1:
			in += "\"" + c + "\""
			name += c
		case 2:
			in += "\"\""
		case 3:
			in += "."
			name += "."
		case 4:
			in += "@"
			name += "@"
		}
	}
	expect(in+" <a@b>", want{name, "a@b"})
}

// any two or three characters inside quotes, next to other words
func C02_QuotedAny() {
	vp.Options("cut")
	n := 2
	if vp.Deep() {
		n = 3
	}
	q := vp.Chars("q", n, qtextA)
	switch vp.Choice("place", 5) {
	case 0:
		expect("\""+q+"\" <a@b>", want{q, "a@b"})
	case 1:
		expect("a \""+q+"\" <a@b>", want{"a " + q, "a@b"})
	case 2:
		expect("\""+q+"\" b <a@b>", want{q + " b", "a@b"})
	case 3:
		expect("a. \""+q+"\" b <a@b>", want{"a." + q + " b", "a@b"})
	case 4:
		expect("\""+q+"\"\"x\" <a@b>", want{q + " x", "a@b"})
	}
}

// every name a display name may be, in front of every form of angle address
func C02_Generated() {
	k := 2
	if vp.Deep() {
		k = 3
	}
	vp.Options("cut")
	g := &gen{k: k, names: true, gaps: true, locals: true, domains: true, dev: true}
	s := g.nameAddr("1")
	expect(s, g.out...)
}
