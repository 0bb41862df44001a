package h

import "vpharness/vp"

// C11: malformed addresses are refused as a whole.

// onlyLoose states that s is accepted only if it is an address list in the
// widest sense.
func onlyLoose(s []rune) {
	l, err := parse(string(s))
	if err != nil {
		vp.Check(len(l) == 0, "a refused input yields no mailboxes")
		return
	}
	_, ok := refRead(s, true)
	vp.Check(ok, "an accepted input is an address list")
}

// runes is n symbolic characters of the set.
func runes(name string, n int, set []rune) []rune {
	out := make([]rune, n)
	for i := range out {
		out[i] = vp.Rune(name+itoa(i), set)
	}
	return out
}

func around(pre string, x []rune, post string) []rune {
	return append(append([]rune(pre), x...), []rune(post)...)
}

// inHole is well-formed text with symbolic characters at some place.
func inHole(at int, x []rune) []rune {
	switch at {
	case 0:
		return around("\"", x, "\" <l@d>")
	case 1:
		return around("a", x, "<l@d>")
	case 2:
		return around("<", x, ">")
	case 3:
		return around("<l", x, "d>")
	case 4:
		return around("l@d", x, "")
	case 5:
		return around("", x, "l@d")
	case 6:
		return around("l@[", x, "]")
	case 7:
		return around("(", x, ")l@d")
	case 8:
		return around("l@d", x, "m@e")
	case 9:
		return around("g", x, ";")
	case 10:
		return around("g: l@d", x, "m@e;")
	case 11:
		return around("=?utf-8?q?a", x, " <l@d>")
	case 12:
		return around("=?utf-8?", x, "a?= <l@d>")
	case 13:
		return around("\"a\"", x, "@d")
	case 14:
		return around("l@d:1", x, "")
	case 15:
		return around("a\r\n", x, "<l@d>")
	case 16:
		return around("<@a", x, "l@d>")
	case 17:
		return around("a.", x, "b@d")
	case 18:
		return around("\"n:", x, "\"")
	case 19:
		return around("a@b", x, "@c")
	case 20:
		return around("<l@d>", x, "")
	case 21:
		return around("a \"b\"", x, "c <l@d>")
	case 22:
		return around("l@b.", x, "")
	case 23:
		return around("a(b", x, "<l@d>")
	case 24:
		return around("g:l@d;", x, "")
	case 25:
		return around("\"a", x, "@d")
	}
	return nil
}

const nHoles = 26

func C11_Text() {
	vp.Options("cut")
	n := 5
	if vp.Deep() {
		n = 7
	}
	onlyLoose(runes("c", n, ascii))
}

func C11_Hole() {
	vp.Options("cut")
	n := 3
	if vp.Deep() {
		n = 4
	}
	onlyLoose(inHole(vp.Choice("at", nHoles), runes("x", n, ascii)))
}

// one malformed place around or inside symbolic text
func C11_Families() {
	vp.Options("cut")
	w := spot("w", 2, atextN)
	switch vp.Choice("fam", 44) {
	case 0:
		reject(w)
	case 1:
		reject(w + " " + w)
	case 2:
		reject(w + "@")
	case 3:
		reject("@" + w)
	case 4:
		reject(w + "@@" + w)
	case 5:
		reject("a@b " + w + "@d")
	case 6:
		reject("\"" + w + " <a@b>")
	case 7:
		reject(w + "\" <a@b>")
	case 8:
		reject("(" + w + " l@d")
	case 9:
		reject("l@d (" + w)
	case 10:
		reject("((" + w + ") l@d")
	case 11:
		reject(w + ") <l@d>")
	case 12:
		reject("l@" + w + ")")
	case 13:
		reject("n <l@" + w)
	case 14:
		reject("n l@" + w + ">")
	case 15:
		reject("<<l@" + w + ">>")
	case 16:
		reject("n <l@d> " + w)
	case 17:
		reject("n <l@d> " + w + " <m@e>")
	case 18:
		reject("l@d, " + w)
	case 19:
		reject(w + ", l@d")
	case 20:
		reject("l@d, " + w + ", m@e")
	case 21:
		reject("l@[" + w)
	case 22:
		reject("l@" + w + "]")
	case 23:
		reject("l@[[" + w + "]]")
	case 24:
		reject("l.." + w + "@d")
	case 25:
		reject("." + w + "@d")
	case 26:
		reject("l@." + w)
	case 27:
		reject("l@" + w + "..e")
	case 28:
		reject("<l@d>" + w)
	case 29:
		reject(w + " <" + w + ">")
	case 30:
		reject(w + " <@" + w + ">")
	case 31:
		reject(w + " <" + w + "@>")
	case 32:
		reject("<l@d> <m@" + w + ">")
	case 33:
		reject("l@d:" + w + "!")
	case 34:
		reject("l@[" + w + "]e")
	case 35:
		reject("\"" + w + "\"" + w + "@d")
	case 36:
		reject("g: " + w + ";")
	case 37:
		reject("g: l@d; " + w)
	case 38:
		reject("g: h: l@" + w + ";;")
	case 39:
		reject("g; l@" + w)
	case 40:
		reject(": l@" + w + ";")
	case 41:
		reject("l@d <" + w + ">")
	case 42:
		reject("l@d (" + w + "))")
	case 43:
		reject("l@d\r\n" + w)
	}
}

// characters that no text outside quotes and comments may hold
func C11_Stray() {
	vp.Options("cut")
	set := []rune{0, 8, 0x0b, 0x0c, 0x0e, 0x1f, '\\', '\\', 0x7f, 0x7f}
	c := vp.Chars("c", 1, set)
	bad := pick("bad", c, "\r", "\n", "\r"+c, "\n"+c, "\r\r\n ", "\n\r ")
	switch vp.Choice("where", 10) {
	case 0:
		reject("a" + bad + "b@d")
	case 1:
		reject("a@b" + bad + "c")
	case 2:
		reject("a" + bad + " <l@d>")
	case 3:
		reject(bad + "l@d")
	case 4:
		reject("l@d" + bad)
	case 5:
		reject("l@d," + bad + "m@d")
	case 6:
		reject("<" + bad + "l@d>")
	case 7:
		reject("g:" + bad + ";")
	case 8:
		reject("l@d (c)" + bad)
	case 9:
		reject("l" + bad + "@d")
	}
}

// what quoted strings, comments and literals may not hold
func C11_Inside() {
	vp.Options("cut")
	bad := pick("bad", "\r", "\n", "\r\n", "\x00", "\r\nx", "\n ", "\r ", " \r\n", "\r\n\r\n ")
	x := vp.Chars("x", 1, alnum)
	switch vp.Choice("where", 3) {
	case 0:
		reject("\"" + x + bad + x + "\" <l@d>")
	case 1:
		reject("l@d (" + x + bad + x + ")")
	case 2:
		reject("l@[" + x + bad + x + "]")
	}
}

// malformed in the middle of a longer, otherwise well-formed list
func C11_InList() {
	vp.Options("cut")
	n := vp.Chars("n", 1, atextN)
	bad := pick("bad", n, n+"@", "@"+n, "<"+n+"@d", "\""+n, "("+n, n+" "+n, "a@b c@d", "a@b\\", "a@b\x01", "a@b>", "a@b)", "a@b]", "l..m@d")
	good := "n <l@d>"
	switch vp.Choice("where", 4) {
	case 0:
		reject(good + ", " + bad)
	case 1:
		reject(bad + ", " + good)
	case 2:
		reject(good + ", " + bad + ", " + good)
	case 3:
		reject("g: " + good + ", " + bad + "; " + good)
	}
}

// one edit at any place of a well-formed text
func C11_Edit() {
	vp.Options("cut")
	n := 2
	if vp.Deep() {
		n = 3
	}
	onlyLoose(edited(listForms, n))
}
