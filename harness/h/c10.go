package h

import "vpharness/vp"

// C10: no code point above ASCII is lost, changed or merged.

// every place that can hold text: the input, and the mailboxes
func place(k int, x string) (string, []want) {
	one := func(s, n, a string) (string, []want) { return s, []want{{n, a}} }
	switch k {
	case 0:
		return one(x+" <l@d>", x, "l@d")
	case 1:
		return one("a"+x+"b <l@d>", "a"+x+"b", "l@d")
	case 2:
		return one("\""+x+"\" <l@d>", x, "l@d")
	case 3:
		return one("\"a "+x+" b\" <l@d>", "a "+x+" b", "l@d")
	case 4:
		return one("\"\\"+x+"\" <l@d>", x, "l@d")
	case 5:
		return one("\"a\\"+x+"b\" <l@d>", "a"+x+"b", "l@d")
	case 6:
		return one(x+"@d", "", x+"@d")
	case 7:
		return one("a"+x+"."+x+"b@d", "", "a"+x+"."+x+"b@d")
	case 8:
		return one("\""+x+"\"@d", "", x+"@d")
	case 9:
		return one("l@"+x, "", "l@"+x)
	case 10:
		return one("l@a"+x+"b.com", "", "l@a"+x+"b.com")
	case 11:
		return one("n <"+x+"@"+x+">", "n", x+"@"+x)
	case 12:
		return one("l@["+x+"]", "", "l@["+x+"]")
	case 13:
		return one("n <l@[a"+x+"b]>", "n", "l@[a"+x+"b]")
	case 14:
		return one("n ("+x+") <l@d>", "n", "l@d")
	case 15:
		return one("(a"+x+"(\\"+x+")) l@d", "", "l@d")
	case 16:
		return "g" + x + ": l@d;", []want{{"", "l@d"}}
	case 17:
		return "\"" + x + "\": l@d, " + x + " <m@e>;", []want{{"", "l@d"}, {x, "m@e"}}
	case 18:
		return "a@b, " + x + " " + x + " <l@d>; c@" + x, []want{{"", "a@b"}, {x + " " + x, "l@d"}, {"", "c@" + x}}
	case 19:
		return one("<@"+x+":l@d>", "", "l@d")
	case 20:
		return one(x+".n."+x+" <l@d>", x+".n."+x, "l@d")
	case 21:
		return one("a. \""+x+"\" . c@d", "", "a."+x+".c@d")
	default:
		return one("=?utf-8?q?q?= "+x+" <l@d>", "q "+x, "l@d")
	}
}

const places = 23

// one code point, of every length
func C10_One() {
	vp.Options("cut")
	x := vp.Chars("x", 1, widths[1+vp.Choice("w", 3)])
	s, w := place(vp.Choice("place", places), x)
	expect(s, w...)
}

// two code points of any lengths next to each other
func C10_Two() {
	vp.Options("cut")
	x := vp.Chars("x", 1, widths[1+vp.Choice("w", 3)]) + vp.Chars("y", 1, widths[1+vp.Choice("v", 3)])
	k := vp.Choice("place", places)
	if k == 4 || k == 5 || k == 15 {
		return // they quote one character
	}
	s, w := place(k, x)
	expect(s, w...)
}

// next to ASCII of the same kind
func C10_Beside() {
	vp.Options("cut")
	x := vp.Chars("x", 1, widths[1+vp.Choice("w", 3)])
	a := vp.Chars("a", 1, atextN)
	if vp.Choice("side", 2) == 0 {
		x = a + x
	} else {
		x = x + a
	}
	k := []int{0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 16, 18}[vp.Choice("place", 13)]
	s, w := place(k, x)
	expect(s, w...)
}

// many of one length, all different
func C10_Many() {
	vp.Options("cut")
	x := vp.Chars("x", 10, widths[1+vp.Choice("w", 3)])
	k := []int{0, 2, 3, 6, 8, 9, 12, 14, 16}[vp.Choice("place", 9)]
	s, w := place(k, x)
	expect(s, w...)
}

// every length mixed, three in a row
func C10_Three() {
	vp.Options("cut")
	x := ""
	for i := 0; i < 3; i++ {
		x += vp.Chars("x"+itoa(i), 1, widths[1+vp.Choice("w"+itoa(i), 3)])
	}
	k := []int{0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 14, 16, 18}[vp.Choice("place", 14)]
	s, w := place(k, x)
	expect(s, w...)
}
