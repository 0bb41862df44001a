package h

import "vpharness/vp"

// C20: domain literals and ports are kept.

// literal is a domain literal and the text it comes back as.
func literal(id string, kind int) (string, string) {
	switch kind {
	case 0:
		x := vp.Chars(id, 2, dtext)
		return "[" + x + "]", "[" + x + "]"
	case 1:
		x := vp.Chars(id, 1, digits) + "." + vp.Chars(id+"b", 2, digits) + "." + vp.Chars(id+"c", 1, digits) + "." + vp.Chars(id+"d", 3, digits)
		return "[" + x + "]", "[" + x + "]"
	case 2:
		x := "IPv6:" + vp.Chars(id, 4, []rune{'0', '9', 'a', 'f', 'A', 'F', ':', ':'}) + "::" + vp.Chars(id+"b", 1, digits)
		return "[" + x + "]", "[" + x + "]"
	case 3:
		return "[]", "[]"
	case 4: // white space inside
		x := vp.Chars(id+"p", 1, wsp) + vp.Chars(id, 1, dtext) + vp.Chars(id+"q", 2, wsp) + vp.Chars(id+"b", 1, dtext) + vp.Chars(id+"r", 1, wsp)
		return "[" + x + "]", "[" + x + "]"
	case 5: // folds inside
		x, y := vp.Chars(id, 1, dtext), vp.Chars(id+"b", 1, dtext)
		p, q := vp.Chars(id+"p", 1, wsp), vp.Chars(id+"q", 2, wsp)
		return "[" + x + "\r\n" + p + y + "\r\n" + q + "]", "[" + x + p + y + q + "]"
	case 6: // only white space
		p := vp.Chars(id, 1+vp.Choice(id+".n", 2), wsp)
		return "[" + p + "]", "[" + p + "]"
	case 7: // what would mean something outside
		x := vp.Chars(id, 2, []rune{'"', '"', '(', ')', ',', ',', '.', '.', ':', '<', '>', '@'})
		return "[" + x + "]", "[" + x + "]"
	}
	x := mono(id, 1, dtextA)
	return "[" + x + x + x + "]", "[" + x + x + x + "]"
}

const nLiterals = 9

var dtextA = []rune{'!', 'Z', '^', '~'}

// port is a port and its text.
func port(id string, max int) string { return ":" + oneOf(id, max, digits) }

func C20_Literal() {
	vp.Options("cut")
	l := vp.Chars("l", 1, atextN)
	in, out := literal("x", vp.Choice("kind", nLiterals))
	switch vp.Choice("where", 5) {
	case 0:
		expect(l+"@"+in, want{"", l + "@" + out})
	case 1:
		expect("<"+l+"@"+in+">", want{"", l + "@" + out})
	case 2:
		expect("n <"+l+"@"+in+">", want{"n", l + "@" + out})
	case 3:
		expect("\""+l+"\"@"+in, want{"", l + "@" + out})
	case 4:
		expect("g: "+l+"@"+in+";", want{"", l + "@" + out})
	}
}

// any text of dtext, longer
func C20_Text() {
	vp.Options("cut")
	n := 4
	if vp.Deep() {
		n = 7
	}
	x := spot("x", 1+vp.Choice("n", n), dtextA)
	expect("l@["+x+"]", want{"", "l@[" + x + "]"})
}

func C20_Long() {
	vp.Options("cut")
	x := vp.Chars("x", []int{20, 60}[vp.Choice("n", 2)], dtextA)
	expect("n <l@["+x+"]>", want{"n", "l@[" + x + "]"})
}

// comments and white space around the literal
func C20_Around() {
	vp.Options("cut")
	in, out := literal("x", vp.Choice("lit", 2))
	w := cfws("w", vp.Choice("kind", nCfws))
	switch vp.Choice("where", 4) {
	case 0:
		expect("l@"+w+in, want{"", "l@" + out})
	case 1:
		expect("l@"+in+w, want{"", "l@" + out})
	case 2:
		expect("n <l@"+w+in+">", want{"n", "l@" + out})
	case 3:
		expect("n <l@"+in+w+">", want{"n", "l@" + out})
	}
}

// one element of a list that may be a literal, a port or both
func literalElement(id string, kind int) (string, want) {
	l := vp.Chars("l"+id, 1, atextN)
	d := vp.Chars("d"+id, 1, atextN)
	switch kind {
	case 0:
		return l + "@" + d, want{"", l + "@" + d}
	case 1:
		a := l + "@[" + vp.Chars("x"+id, 1, dtext) + "]"
		return a, want{"", a}
	case 2:
		a := l + "@" + d + ":" + vp.Chars("p"+id, 2, digits)
		return a, want{"", a}
	case 3:
		a := l + "@[" + vp.Chars("x"+id, 1, dtext) + "]:" + vp.Chars("p"+id, 1, digits)
		return a, want{"", a}
	case 4:
		a := l + "@[" + vp.Chars("x"+id, 1, dtext) + "]"
		return "n <" + a + ">", want{"n", a}
	}
	a := l + "@" + d + ":" + vp.Chars("p"+id, 2, digits)
	return "n <" + a + ">", want{"n", a}
}

func C20_List() {
	vp.Options("cut")
	s, w := literalElement("a", vp.Choice("ka", 6))
	t, x := literalElement("b", vp.Choice("kb", 6))
	expect(s+pick("sep", ",", ";", ", ")+t, w, x)
}

func C20_Group() {
	vp.Options("cut")
	s, w := literalElement("a", vp.Choice("ka", 6))
	t, x := literalElement("b", vp.Choice("kb", 6))
	expect("g:"+s+","+t+";", w, x)
}

func C20_ListOfThree_Deep() {
	vp.Options("cut")
	s, w := literalElement("a", vp.Choice("ka", 6))
	t, x := literalElement("b", vp.Choice("kb", 6))
	u, y := literalElement("c", vp.Choice("kc", 6))
	expect(s+pick("s1", ",", ";")+t+pick("s2", ",", ";")+u, w, x, y)
}

func C20_Port() {
	vp.Options("cut")
	l, d := vp.Chars("l", 1, atextN), vp.Chars("d", 2, atextN)
	p := port("p", 6)
	switch vp.Choice("where", 6) {
	case 0:
		expect(l+"@"+d+p, want{"", l + "@" + d + p})
	case 1:
		expect("<"+l+"@"+d+p+">", want{"", l + "@" + d + p})
	case 2:
		expect("n <"+l+"@"+d+".e"+p+">", want{"n", l + "@" + d + ".e" + p})
	case 3:
		expect("\""+l+"\"@"+d+p, want{"", l + "@" + d + p})
	case 4:
		expect("g:"+l+"@"+d+p+";", want{"", l + "@" + d + p})
	case 5:
		expect("<@a:"+l+"@"+d+p+">", want{"", l + "@" + d + p})
	}
}

func C20_LiteralPort() {
	vp.Options("cut")
	in, out := literal("x", vp.Choice("kind", nLiterals))
	p := port("p", 3)
	if vp.Choice("angle", 2) == 0 {
		expect("l@"+in+p, want{"", "l@" + out + p})
	} else {
		expect("n <l@"+in+p+">", want{"n", "l@" + out + p})
	}
}

// white space and comments before the colon belong to the domain
func C20_BeforePort() {
	vp.Options("cut")
	p := port("p", 2)
	w := cfws("w", vp.Choice("kind", nCfws))
	if vp.Choice("lit", 2) == 0 {
		expect("<l@d"+w+p+">", want{"", "l@d" + p})
	} else {
		x := vp.Chars("x", 1, dtext)
		expect("<l@["+x+"]"+w+p+">", want{"", "l@[" + x + "]" + p})
	}
}

// what is not a port is no port
func C20_NoPort() {
	vp.Options("cut")
	notDigit := []rune{'!', '!', '#', '\'', '*', '+', '-', '-', '/', '/', '?', '?', 'A', 'Z', '^', '~'}
	x := vp.Chars("x", 1, notDigit)
	d := vp.Chars("d", 1, digits)
	reject("<l@e:" + pick("p", "", x, x+d, d+x, " "+d, d+"."+d, ":"+d, d+":"+d) + ">")
}

// literals and ports among everything else
func C20_Generated() {
	generated(&gen{k: 2, domains: true, gaps: true, forms: true, seps: true, dev: true}, 1+vp.Choice("elements", 2))
}
