package h

import "vpharness/vp"

// Texts of which one dimension is long: every limit on lengths, counts or
// nesting between the sizes tried shows.

// size is how long.
func size() int {
	sizes := []int{17, 33, 70, 130, 260}
	if vp.Deep() {
		sizes = append(sizes, 520)
	}
	return sizes[vp.Choice("size", len(sizes))]
}

// slow is size for texts which the parser takes quadratic time for.
func slow() int {
	return []int{4, 9, 17, 33, 66}[vp.Choice("size", 5)]
}

// slower is slow for the longest of them.
func slower() int {
	sizes := []int{4, 9, 17, 33}
	if vp.Deep() {
		sizes = append(sizes, 66)
	}
	return sizes[vp.Choice("size", len(sizes))]
}

// times is n pieces with the separator between them.
func times(n int, sep string, f func(id string) string) string {
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += sep
		}
		s += f(itoa(i))
	}
	return s
}

// letter is a free atext character.
func letter(id string) string { return vp.Chars("x"+id, 1, atextN) }

// chars is n free characters.
func chars(n int, set []rune) string { return vp.Chars("c", n, set) }

// blanks is one blank character n times.
func blanks(n int) string {
	w := vp.Chars("w", 1, wsp)
	return times(n, "", func(string) string { return w })
}

// around an address: alone and with others
func inList(s string, w ...want) {
	switch vp.Choice("list", 3) {
	case 0:
		expect(s, w...)
	case 1:
		expect("m@e, "+s, append([]want{{"", "m@e"}}, w...)...)
	case 2:
		expect(s+", n <m@e>", append(w, want{"n", "m@e"})...)
	}
}

func C01_Big() {
	vp.Options("cut")
	n := size()
	s := ""
	switch vp.Choice("kind", 5) {
	case 0:
		s = chars(n, atextN) + "@d"
	case 1:
		s = "l@" + chars(n, atextN)
	case 2:
		s = times(n, ".", letter) + "@d"
	case 3:
		s = "l@" + times(n, ".", letter)
	case 4:
		s = chars(n/2, atextN) + "@" + times(n/4, ".", letter)
	}
	inList(s, want{"", s})
}

func C02_Big() {
	vp.Options("cut")
	n := size()
	switch vp.Choice("kind", 4) {
	case 0:
		s := chars(n, atextN)
		inList(s+" <l@d>", want{s, "l@d"})
	case 1:
		s := times(n, " ", letter)
		inList(s+"<l@d>", want{s, "l@d"})
	case 2:
		a, q := chars(n/2, atextN), vp.Chars("q", n, qtextA)
		inList("a "+a+" \""+q+"\" b <l@d>", want{"a " + a + " " + q + " b", "l@d"})
	case 3:
		s := times(n, ".", letter)
		inList(s+" <l@d>", want{s, "l@d"})
	}
}

func C03_Big() {
	vp.Options("cut")
	n := size()
	in, out := "", ""
	switch vp.Choice("kind", 4) {
	case 0:
		in = chars(n, atextN) + vp.Chars("q", 1, qtextA)
		out = in
	case 1:
		for i := 0; i < n; i++ {
			c := letter(itoa(i))
			in += "\\" + c
			out += c
		}
	case 2:
		w := vp.Chars("w", 1, wsp)
		for i := 0; i < n; i++ {
			c := letter(itoa(i))
			in += c + "\r\n" + w
			out += c + w
		}
	case 3:
		w := blanks(n)
		in = w + "a" + w
		out = in
	}
	if vp.Choice("local", 2) == 0 {
		inList("\""+in+"\" <l@d>", want{out, "l@d"})
	} else {
		inList("\""+in+"\"@d", want{"", out + "@d"})
	}
}

func C04_Big() {
	vp.Options("cut")
	n := slow()
	w := ""
	switch vp.Choice("kind", 6) {
	case 0:
		w = "(" + chars(n, ctextA) + ")"
	case 1:
		w = blanks(n)
	case 2:
		w = times(n, "", func(id string) string { return "(" + letter(id) + ")" })
	case 3:
		for i := 0; i < n; i++ {
			w = "(" + letter(itoa(i)) + w + ")"
		}
	case 4:
		w = "(" + times(n, "", func(id string) string { return "\\" + letter(id) }) + ")"
	case 5:
		w = times(n, " ", func(id string) string { return "(" + letter(id) + "\r\n )\t" })
	}
	switch vp.Choice("place", 5) {
	case 0:
		inList(w+"l@d", want{"", "l@d"})
	case 1:
		inList("l@d"+w, want{"", "l@d"})
	case 2:
		inList("a"+w+"b <l@d>", want{"a b", "l@d"})
	case 3:
		inList("a<"+w+"l"+w+"@d>", want{"a", "l@d"})
	case 4:
		inList("g:"+w+"l@d,"+w+";", want{"", "l@d"})
	}
}

// many is n elements of one kind, and what they stand for.
func many(n, kind int, sep string) (string, []want) {
	s := ""
	var w []want
	for i := 0; i < n; i++ {
		if i > 0 {
			s += sep
		}
		a := letter(itoa(i)) + "@d"
		if kind == 0 || kind == 2 && i%2 == 0 {
			s += a
			w = append(w, want{"", a})
		} else {
			s += "n <" + a + ">"
			w = append(w, want{"n", a})
		}
	}
	return s, w
}

func C05_Big() {
	vp.Options("cut")
	n := size()
	s, w := many(n, vp.Choice("kind", 3), pick("sep", ",", ";", " , "))
	expect(s, w...)
}

func C05_BigEmpty() {
	vp.Options("cut")
	n := size()
	e := times(n, ",", func(string) string { return "" })
	switch vp.Choice("kind", 3) {
	case 0:
		expect("l@d,"+e+",m@d", want{"", "l@d"}, want{"", "m@d"})
	case 1:
		expect(e+",l@d", want{"", "l@d"})
	case 2:
		expect("l@d,"+e, want{"", "l@d"})
	}
}

func C06_Big() {
	vp.Options("cut")
	n := slower()
	switch vp.Choice("kind", 3) {
	case 0:
		s, w := many(n, vp.Choice("of", 3), pick("sep", ",", " , "))
		inList("g: "+s+";", w...)
	case 1:
		var w []want
		s := times(n, ", ", func(id string) string {
			a := letter(id) + "@d"
			w = append(w, want{"", a})
			return "g: " + a + ";"
		})
		inList(s, w...)
	case 2:
		inList(times(n, ",", func(id string) string { return letter(id) + ":;" })+", l@d", want{"", "l@d"})
	}
}

func C07_Big() {
	vp.Options("cut")
	n := size()
	switch vp.Choice("kind", 4) {
	case 0:
		x := chars(n, alnum)
		inList("=?utf-8?q?"+x+"?= <l@d>", want{x, "l@d"})
	case 1:
		in := times(n/4, "", func(string) string { return "QUJD" })
		inList("=?utf-8?b?"+in+"?= <l@d>", want{times(n/4, "", func(string) string { return "ABC" }), "l@d"})
	case 2:
		x := chars(1, alnum)
		inList("=?us-ascii?q?"+times(n, "", func(string) string { return "_=41" })+x+"?= <l@d>", want{times(n, "", func(string) string { return " A" }) + x, "l@d"})
	case 3:
		x := chars(1, alnum)
		inList("=?iso-8859-1?q?"+times(n, "", func(string) string { return "=E9" })+x+"?= <l@d>", want{times(n, "", func(string) string { return "\u00e9" }) + x, "l@d"})
	}
}

func C08_Big() {
	vp.Options("cut")
	n := slow()
	in, out := "", ""
	kind := vp.Choice("kind", 3)
	sep := pick("sep", " ", "\r\n ", "")
	for i := 0; i < n; i++ {
		c := vp.Chars("c"+itoa(i), 1, alnum)
		if i > 0 {
			in += sep
		}
		if kind == 0 || kind == 1 && i%2 == 0 || kind == 2 && i != n-1 {
			in += "=?utf-8?q?" + c + "?="
			if i > 0 && kind == 1 {
				out += " "
			}
		} else {
			in += "\"" + c + "\""
			out += " "
		}
		out += c
	}
	inList(in+" <l@d>", want{out, "l@d"})
}

func C10_Big() {
	vp.Options("cut")
	n := size() / 8
	x := vp.Chars("x", n, widths[1+vp.Choice("w", 3)])
	switch vp.Choice("kind", 4) {
	case 0:
		inList(x+" <l@d>", want{x, "l@d"})
	case 1:
		inList("\"a"+x+"b\" <l@d>", want{"a" + x + "b", "l@d"})
	case 2:
		inList(x+"@"+x, want{"", x + "@" + x})
	case 3:
		inList("(a"+x+")n <l@["+x+"]>", want{"n", "l@[" + x + "]"})
	}
}

// long well-formed text with one mistake
func C11_Big() {
	vp.Options("cut")
	n := size()
	c := letter("e")
	switch vp.Choice("kind", 11) {
	case 0:
		s, _ := many(n, 2, ",")
		reject(s + "," + c)
	case 1:
		s, _ := many(n, 2, ",")
		reject(c + "," + s)
	case 2:
		s, _ := many(n, 0, ",")
		reject("g: " + s + "," + c + ";")
	case 3:
		reject("\"" + chars(n, atextN) + " <l@d>")
	case 4:
		reject("l@d (" + chars(n, atextN))
	case 5:
		reject(times(n, " ", letter))
	case 6:
		reject(chars(n, atextN))
	case 7:
		reject(chars(n, atextN) + " " + c + "@d")
	case 8:
		reject(times(n, ".", letter) + ".." + c + "@d")
	case 9:
		s := "l@d "
		for i := 0; i < n/4; i++ {
			s += "("
		}
		s += c
		for i := 1; i < n/4; i++ {
			s += ")"
		}
		reject(s)
	case 10:
		reject("l@[" + chars(n, atextN) + "")
	}
}

func C12_Big() {
	n := slow()
	c := vp.Chars("c", 1, ascii)
	s := ""
	switch vp.Choice("kind", 8) {
	case 0:
		s = times(n, ",", func(string) string { return "a@b" }) + c
	case 1:
		s = times(n, "", func(string) string { return "(" }) + c
	case 2:
		s = times(n, "", func(string) string { return "a" }) + c + "@b"
	case 3:
		s = "\"" + times(n, "", func(string) string { return "\\a" }) + c + " <a@b>"
	case 4:
		s = "a@b" + times(n, "", func(string) string { return "," }) + c
	case 5:
		s = times(n, " ", func(string) string { return "=?utf-8?q?a?=" }) + c + "<a@b>"
	case 6:
		s = times(n, ".", func(string) string { return "a" }) + c + " <a@b>"
	case 7:
		s = times(n, "", func(string) string { return "g:a@b;," }) + c
	}
	total(s)
}

func C18_Big() {
	vp.Options("cut")
	n := slow()
	w := ""
	switch vp.Choice("kind", 4) {
	case 0:
		w = "(" + chars(n, ctextA) + ")"
	case 1:
		w = blanks(n)
	case 2:
		w = times(n, "", func(id string) string { return "(" + letter(id) + ")" })
	case 3:
		for i := 0; i < n; i++ {
			w = "(" + letter(itoa(i)) + w + ")"
		}
	}
	g := plainGaps(" ")
	g[[]int{0, 1, 2, 3, 6, 7, 8, 9, 11}[vp.Choice("gap", 9)]] = w
	ms, mm := num("n", 2, 0, 59)
	expectTime(spell(g, "Fri", "21", "Nov", "1997", "09", ms, "06", "-0600"), instant(1997, 11, 21, 9, mm, 6, -21600), -21600)
}

func C20_Big() {
	vp.Options("cut")
	n := size()
	s := ""
	switch vp.Choice("kind", 3) {
	case 0:
		s = "l@[" + chars(n, []rune{'!', 'Z', '^', '~'}) + "]"
	case 1:
		s = "l@d:" + chars(n, digits)
	case 2:
		s = "l@[" + times(n, " ", letter) + "]:" + vp.Chars("p", 2, digits)
	}
	if vp.Choice("angle", 2) == 0 {
		inList(s, want{"", s})
	} else {
		inList("n <"+s+">", want{"n", s})
	}
}

func C21_Big() {
	vp.Options("cut")
	n := size()
	switch vp.Choice("kind", 5) {
	case 0:
		inList("n <"+times(n, ",", func(id string) string { return "@" + letter(id) })+":l@d>", want{"n", "l@d"})
	case 1:
		s := times(n, ".", letter)
		inList(s+" . \"q\"@d", want{"", s + ".q@d"})
	case 2:
		in, out := "", ""
		for i := 0; i < n; i++ {
			if i > 0 {
				in, out = in+".", out+"."
			}
			c := letter(itoa(i))
			in, out = in+"\""+c+"\"", out+c
		}
		inList(in+"@d", want{"", out + "@d"})
	case 3:
		s := chars(n, atextN)
		inList("<@"+s+":l@d>", want{"", "l@d"})
	case 4:
		s := chars(n, qtextA)
		inList("a. \""+s+"\"@d", want{"", "a." + s + "@d"})
	}
}

func C22_Big() {
	vp.Options("cut")
	kind := vp.Choice("kind", 5)
	n := 0
	if kind < 3 {
		n = size()
	} else {
		n = slower()
	}
	switch kind {
	case 0:
		s := times(n, "@", letter)
		inList(s+" x <l@d>", want{s + " x", "l@d"})
	case 1:
		s := chars(n, atextN) + "."
		inList("l@"+s, want{"", "l@" + s})
	case 2:
		s := chars(n, atextN)
		inList(s+" <>", want{s, ""})
	case 3:
		s, w := many(n, 2, ",")
		expect("g: "+s, w...)
	case 4:
		s, w := many(n, 2, ",")
		expect("\"g: "+s+"\";", w...)
	}
}
