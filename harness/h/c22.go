package h

import "vpharness/vp"

// C22: tolerated deviations parse as the tests' examples do.

// an empty angle address gives a mailbox without an address
func C22_Null() {
	vp.Options("cut")
	n := vp.Chars("n", 2, atextN)
	name, out := n, n
	switch vp.Choice("name", 7) {
	case 1:
		name, out = "", ""
	case 2:
		q := vp.Chars("q", 1, qtextA)
		name, out = "\""+q+"\"", q
	case 3:
		name, out = n+" \"x\"", n+" x"
	case 4:
		t := vp.Chars("t", 1, alnum)
		name, out = "=?utf-8?q?"+t+"?=", t
	case 5:
		name, out = n+" . "+n, n+"."+n
	case 6:
		x := vp.Chars("x", 1, nonASCII)
		name, out = x, x
	}
	switch vp.Choice("where", 6) {
	case 0:
		expect(name+"<>", want{out, ""})
	case 1:
		expect(name+" <>", want{out, ""})
	case 2:
		expect(name+"<>, l@d", want{out, ""}, want{"", "l@d"})
	case 3:
		expect("l@d;"+name+"<>", want{"", "l@d"}, want{out, ""})
	case 4:
		expect("g:"+name+"<>,l@d;", want{out, ""}, want{"", "l@d"})
	case 5:
		expect(name+"<>,"+name+"<>", want{out, ""}, want{out, ""})
	}
}

// a trailing period stays
func C22_Trailing() {
	vp.Options("cut")
	l, d := spot("l", 2, atextN), spot("d", 2, atextN)
	lp, dp := pick("lp", "", ".", ".x."), pick("dp", ".", "", ".e.")
	vp.Assume(lp+dp != "")
	a := l + lp + "@" + d + dp
	switch vp.Choice("where", 6) {
	case 0:
		expect(a, want{"", a})
	case 1:
		expect("n <"+a+">", want{"n", a})
	case 2:
		expect(a+pick("sep", ",", ";", " , ")+a, want{"", a}, want{"", a})
	case 3:
		expect("g:"+a+";", want{"", a})
	case 4:
		expect("n <"+a+pick("w", " ", "(c)", "\t(c) ")+">", want{"n", a})
	case 5:
		expect("n <"+a+":25>", want{"n", a + ":25"})
	}
}

// a group without its semicolon
func C22_NoSemicolon() {
	vp.Options("cut")
	g := gname("g")
	s, w := mbox("a", vp.Choice("ka", 4))
	t, x := mbox("b", vp.Choice("kb", 2))
	switch vp.Choice("form", 6) {
	case 0:
		expect(g + ":" + pick("in", "", " ", "(c)", ","))
	case 1:
		expect(g+":"+s, w)
	case 2:
		expect(g+": "+s+", "+t, w, x)
	case 3:
		expect(s+","+g+":"+t, w, x)
	case 4:
		expect(g+":"+s+";"+t, w, x)
	case 5:
		expect(s+",h:;,"+g+":", w)
	}
}

// a group quoted as a whole
func C22_QuotedGroup() {
	vp.Options("cut")
	g := vp.Chars("g", 1, atextN)
	if vp.Choice("words", 2) == 1 {
		g += " " + vp.Chars("g2", 1, atextN)
	}
	s, w := mbox("a", vp.Choice("ka", 3))
	t, x := mbox("b", vp.Choice("kb", 2))
	switch vp.Choice("form", 7) {
	case 0:
		expect("\"" + g + ":" + pick("in", "", " ", "(c)") + "\"" + pick("e", "", " ", ";", "(c)"))
	case 1:
		expect("\""+g+":"+s+"\"", w)
	case 2:
		expect("\""+g+":"+s+","+t+"\";", w, x)
	case 3:
		expect(s+",\""+g+":"+t+"\"", w, x)
	case 4:
		expect("\""+g+":"+s+"\","+t, w, x)
	case 5:
		expect("\""+g+":\","+s, w)
	case 6:
		expect(s+",\""+g+":\"", w)
	}
}

// unquoted at signs and periods in a name
func C22_Unspaced() {
	vp.Options("cut")
	a, b := spot("a", 2, atextN), vp.Chars("b", 1, atextN)
	u := pick("u", "@", ".", "@@", ".@")
	l, r := pick("sl", "", " "), pick("sr", "", " ", "(c)")
	switch vp.Choice("form", 5) {
	case 0:
		expect(a+l+u+r+b+" <l@d>", want{a + u + b, "l@d"})
	case 1:
		expect(a+l+u+r+"<l@d>", want{a + u, "l@d"})
	case 2:
		expect(a+l+u+r+b+" "+b+" <l@d>", want{a + u + b + " " + b, "l@d"})
	case 3:
		expect(a+" "+b+l+u+r+b+"<l@d>", want{a + " " + b + u + b, "l@d"})
	case 4:
		expect("\""+b+"\""+l+u+r+"\""+b+"\"<l@d>", want{b + u + b, "l@d"})
	}
}

// the name may be an address of its own
func C22_AddressAsName() {
	vp.Options("cut")
	l, d := vp.Chars("l", 1, atextN), vp.Chars("d", 1, atextN)
	a := l + "." + d + "@" + d + "." + l
	switch vp.Choice("form", 3) {
	case 0:
		expect(a+" <"+a+">", want{a, a})
	case 1:
		expect(a+" <"+a+">, "+a, want{a, a}, want{"", a})
	case 2:
		expect("\""+a+"\" <"+a+">", want{a, a})
	}
}

// single-digit days and hours
func C22_Digits() {
	vp.Options("cut")
	m := 1 + vp.Choice("m", 12)
	d, h := vp.Int("d", 1, 9), vp.Int("h", 0, 9)
	dw, hw := 1+vp.Choice("dw", 2), 1+vp.Choice("hw", 2)
	ns, n := num("n", 2, 0, 59)
	sec := pick("sec", "", ":07")
	s := 0
	if sec != "" {
		s = 7
	}
	zone := pick("zone", "", " +0000", " GMT", " -0130")
	off := 0
	if zone == " -0130" {
		off = -5400
	}
	expectTime(pick("dow", "", "Mon, ")+dec(d, dw)+" "+monthNames[m-1]+" 2020 "+dec(h, hw)+":"+ns+sec+zone, instant(2020, m, d, h, n, s, off), off)
}

// deviations together with each other and with everything else
func C22_Generated() {
	generated(&gen{k: 2, names: true, locals: true, domains: true, gaps: true, forms: true, dev: true}, 1+vp.Choice("elements", 2))
}
