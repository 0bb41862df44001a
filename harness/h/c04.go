package h

import "vpharness/vp"

// C04: comments and folding white space never change the result.

const nCfws = 16

// cfws is one piece of comments and folding white space; kind < nCfws.
func cfws(id string, kind int) string {
	switch kind {
	case 0:
		return vp.Chars(id, 1, wsp)
	case 1:
		return vp.Chars(id, 2, wsp)
	case 2:
		return "\r\n" + vp.Chars(id, 1, wsp)
	case 3:
		return vp.Chars(id+"p", 1, wsp) + "\r\n" + vp.Chars(id, 2, wsp)
	case 4: // a comment
		return "(" + vp.Chars(id, 2, ctextA) + ")"
	case 5:
		return "()"
	case 6: // with what would mean something outside
		return "(" + vp.Chars(id, 1, []rune{'"', '"', ',', ',', '.', '.', ':', '<', '>', '>', '@', '@', '[', '[', ']', ']'}) + ")"
	case 7: // nested
		return "(" + vp.Chars(id, 1, atextN) + "(" + vp.Chars(id+"n", 1, ctextA) + ")" + vp.Chars(id+"m", 1, atextN) + ")"
	case 8: // a quoted pair
		return "(\\" + vp.Chars(id, 1, []rune{' ', '~'}) + ")"
	case 9: // white space inside
		return "(" + vp.Chars(id+"p", 1, wsp) + vp.Chars(id, 1, atextN) + vp.Chars(id+"q", 1, wsp) + ")"
	case 10: // a fold inside
		return "(" + vp.Chars(id, 1, atextN) + "\r\n" + vp.Chars(id+"p", 1, wsp) + ")"
	case 11: // two comments
		return "(" + vp.Chars(id, 1, atextN) + ")(" + vp.Chars(id+"n", 1, ctextA) + ")"
	case 12:
		return vp.Chars(id+"p", 1, wsp) + "(" + vp.Chars(id, 1, atextN) + ")" + vp.Chars(id+"q", 1, wsp)
	case 13:
		return "(" + vp.Chars(id, 1, nonASCII) + ")"
	case 14: // an encoded word means nothing in a comment here
		return "(=?utf-8?q?" + vp.Chars(id, 1, atextN) + "?=)"
	case 15:
		return "(" + vp.Chars(id, 1, atextN) + ") \r\n (" + vp.Chars(id+"n", 1, atextN) + ")"
	}
	return ""
}

// spread joins the tokens, with one piece of CFWS at one of the slots (a slot
// is before the first, between two, or after the last token).
func spread(toks ...string) string {
	k := vp.Choice("slot", len(toks)+1)
	w := cfws("w", vp.Choice("kind", nCfws))
	s := ""
	for i, t := range toks {
		if i == k {
			s += w
		}
		s += t
	}
	if k == len(toks) {
		s += w
	}
	return s
}

// spread2 fills two slots.
func spread2(toks ...string) string {
	k := vp.Choice("slot", len(toks)+1)
	l := vp.Choice("slot2", len(toks)+1)
	vp.Assume(k < l)
	w, v := cfws("w", vp.Choice("kind", nCfws)), cfws("v", vp.Choice("kind2", nCfws))
	s := ""
	for i, t := range toks {
		if i == k {
			s += w
		}
		if i == l {
			s += v
		}
		s += t
	}
	if l == len(toks) {
		s += v
	}
	return s
}

func C04_Bare() {
	vp.Options("cut")
	l, d := vp.Chars("l", 2, atextN), vp.Chars("d", 2, atextN)
	expect(spread(l, "@", d), want{"", l + "@" + d})
}

func C04_Angle() {
	vp.Options("cut")
	n, l, d := vp.Chars("n", 2, atextN), vp.Chars("l", 1, atextN), vp.Chars("d", 1, atextN)
	expect(spread(n, "<", l, "@", d, ">"), want{n, l + "@" + d})
}

func C04_NoName() {
	vp.Options("cut")
	l, d := vp.Chars("l", 1, atextN), vp.Chars("d", 1, atextN)
	expect(spread("<", l, "@", d, ">"), want{"", l + "@" + d})
}

func C04_QuotedName() {
	vp.Options("cut")
	n, d := vp.Chars("n", 1, atextN), vp.Chars("d", 1, atextN)
	expect(spread("\""+n+"\"", "<", "a", "@", d, ">"), want{n, "a@" + d})
}

// between the words of a name the CFWS is the separator
func C04_BetweenWords() {
	vp.Options("cut")
	n, m := vp.Chars("n", 1, atextN), vp.Chars("m", 1, atextN)
	expect(n+cfws("w", vp.Choice("kind", nCfws))+m+" <a@b>", want{n + " " + m, "a@b"})
}

func C04_BetweenQuoted() {
	vp.Options("cut")
	n, m := vp.Chars("n", 1, atextN), vp.Chars("m", 1, atextN)
	if vp.Choice("side", 2) == 0 {
		n = "\"" + n + "\""
		expect(n+cfws("w", vp.Choice("kind", nCfws))+m+" <a@b>", want{n[1:len(n)-1] + " " + m, "a@b"})
	} else {
		expect(n+cfws("w", vp.Choice("kind", nCfws))+"\""+m+"\" <a@b>", want{n + " " + m, "a@b"})
	}
}

func C04_List() {
	vp.Options("cut")
	a, b := vp.Chars("a", 1, atextN), vp.Chars("b", 1, atextN)
	expect(spread(a, "@", "x", pick("sep", ",", ";"), "n", "<", b, "@", "y", ">"), want{"", a + "@x"}, want{"n", b + "@y"})
}

func C04_Group() {
	vp.Options("cut")
	a, b := vp.Chars("a", 1, atextN), vp.Chars("b", 1, atextN)
	expect(spread("g", ":", a, "@", "x", ",", "n", "<", b, "@", "y", ">", ";"), want{"", a + "@x"}, want{"n", b + "@y"})
}

func C04_EmptyGroup() {
	vp.Options("cut")
	expect(spread("g"+vp.Chars("g", 1, atextN), ":", ";"))
}

func C04_LocalDots() {
	vp.Options("cut")
	a, b := vp.Chars("a", 1, atextN), vp.Chars("b", 1, atextN)
	if vp.Choice("angle", 2) == 0 {
		expect(spread("l", ".", a, "@", b+".e"), want{"", "l." + a + "@" + b + ".e"})
	} else {
		expect(spread("n", "<", "l", ".", a, "@", b+".e", ">"), want{"n", "l." + a + "@" + b + ".e"})
	}
}

// recorded finding: not accepted around the dots of a domain
func C04_DomainDots() {
	vp.Options("cut")
	b := vp.Chars("b", 1, atextN)
	w := cfws("w", vp.Choice("kind", nCfws))
	vp.Known("domain-dots", true)
	if vp.Choice("side", 2) == 0 {
		expect("l@"+b+w+".e", want{"", "l@" + b + ".e"})
	} else {
		expect("l@"+b+"."+w+"e", want{"", "l@" + b + ".e"})
	}
}

// recorded finding: white space folded over a blank line is not accepted
func C04_DoubleFold() {
	vp.Options("cut")
	w := vp.Chars("p", 1, wsp) + "\r\n" + vp.Chars("q", 1, wsp) + "\r\n" + vp.Chars("r", 1, wsp)
	vp.Known("double-fold", true)
	switch vp.Choice("slot", 3) {
	case 0:
		expect("n"+w+"<l@d>", want{"n", "l@d"})
	case 1:
		expect("l@d"+w+",m@e", want{"", "l@d"}, want{"", "m@e"})
	case 2:
		expect("(a"+w+"b) l@d", want{"", "l@d"})
	}
}

func C04_QuotedLocal() {
	vp.Options("cut")
	a := vp.Chars("a", 1, atextN)
	expect(spread("\""+a+"\"", "@", "d"), want{"", a + "@d"})
}

func C04_Literal() {
	vp.Options("cut")
	a := vp.Chars("a", 1, digits)
	expect(spread("l", "@", "[1."+a+"]"), want{"", "l@[1." + a + "]"})
}

func C04_EncodedWord() {
	vp.Options("cut")
	a := vp.Chars("a", 1, alnum)
	expect(spread("=?utf-8?q?"+a+"?=", "<", "l", "@", "d", ">"), want{a, "l@d"})
}

func C04_Null() {
	vp.Options("cut")
	n := vp.Chars("n", 1, atextN)
	w := cfws("w", vp.Choice("kind", nCfws))
	switch vp.Choice("slot", 3) {
	case 0:
		expect(w+n+"<>", want{n, ""})
	case 1:
		expect(n+w+"<>", want{n, ""})
	case 2:
		expect(n+"<>"+w, want{n, ""})
	}
}

// comments nested deeper
func C04_Nested() {
	vp.Options("cut")
	d := 1 + vp.Choice("depth", 6)
	c := ""
	for i := 0; i < d; i++ {
		c = "(" + vp.Chars("x"+string(rune('a'+i)), 1, atextN) + c + ")"
	}
	switch vp.Choice("slot", 3) {
	case 0:
		expect(c+"l@d", want{"", "l@d"})
	case 1:
		expect("n"+c+"<l@d>", want{"n", "l@d"})
	case 2:
		expect("l@d"+c, want{"", "l@d"})
	}
}

// many comments in a row
func C04_Many() {
	vp.Options("cut")
	n := []int{3, 6}[vp.Choice("n", 2)]
	c := ""
	for i := 0; i < n; i++ {
		c += "(" + vp.Chars("x"+string(rune('a'+i)), 1+i%3, atextN) + ")" + pick("s"+string(rune('a'+i)), "", " ")
	}
	switch vp.Choice("slot", 3) {
	case 0:
		expect(c+"l@d", want{"", "l@d"})
	case 1:
		expect("n"+c+"<l@d>", want{"n", "l@d"})
	case 2:
		expect("l@d"+c, want{"", "l@d"})
	}
}

// a long comment
func C04_LongComment() {
	vp.Options("cut")
	n := []int{30, 80, 130}[vp.Choice("n", 3)]
	c := "(" + mono("x", n, ctextA) + ")"
	switch vp.Choice("slot", 2) {
	case 0:
		expect(c+"l@d", want{"", "l@d"})
	case 1:
		expect("n "+c+" <l@d>", want{"n", "l@d"})
	}
}

func C04_Two_Deep() {
	vp.Options("cut")
	l, d := vp.Chars("l", 1, atextN), vp.Chars("d", 1, atextN)
	expect(spread2("n", "<", l, "@", d, ">"), want{"n", l + "@" + d})
}

func C04_TwoBare_Deep() {
	vp.Options("cut")
	l, d := vp.Chars("l", 1, atextN), vp.Chars("d", 1, atextN)
	expect(spread2(l, "@", d), want{"", l + "@" + d})
}

func C04_TwoList_Deep() {
	vp.Options("cut")
	l, d := vp.Chars("l", 1, atextN), vp.Chars("d", 1, atextN)
	expect(spread2(l+"@x", ",", "g", ":", d+"@y", ";"), want{"", l + "@x"}, want{"", d + "@y"})
}

// two places at once in a list
func C04_Generated() {
	k := 2
	if vp.Deep() {
		k = 3
	}
	generated(&gen{k: k, gaps: true, forms: true}, 1+vp.Choice("elements", 2))
}
