package h

import "vpharness/vp"

// C03: a quoted string stands for its content without quotes and escapes.

// qs builds a quoted string of n pieces and its value.
func qs(name string, n int, kinds int) (in, value string) {
	for i := 0; i < n; i++ {
		a, b := piece(name+string(rune('a'+i)), kinds)
		in += a
		value += b
	}
	return
}

func piece(id string, kinds int) (in, value string) {
	switch vp.Choice("k"+id, kinds) {
	case 0: // an ordinary character
		c := vp.Chars("c"+id, 1, atextN)
		return c, c
	case 1: // an escaped one
		c := vp.Chars("c"+id, 1, qplain)
		return "\\" + c, c
	case 2: // white space
		c := vp.Chars("c"+id, 1, wsp)
		return c, c
	case 3: // a special
		c := vp.Chars("c"+id, 1, qspecial)
		return c, c
	case 4: // an escaped special, quote or backslash
		c := vp.Chars("c"+id, 1, []rune{'"', '"', '(', ')', ',', ',', '.', '.', ':', '>', '@', '@', '[', ']'})
		return "\\" + c, c
	case 5: // non-ASCII
		c := vp.Chars("c"+id, 1, nonASCII)
		return c, c
	case 6: // escaped non-ASCII
		c := vp.Chars("c"+id, 1, nonASCII)
		return "\\" + c, c
	case 7: // obsolete control character
		c := vp.Chars("c"+id, 1, ctl)
		return c, c
	default: // escaped control character
		c := vp.Chars("c"+id, 1, []rune{0, 8, 0x0a, 0x1f, 0x7f, 0x7f})
		return "\\" + c, c
	}
}

func C03_Name() {
	vp.Options("cut")
	n := 1 + vp.Choice("n", 2)
	in, v := qs("q", n, 9)
	expect("\""+in+"\" <a@b>", want{v, "a@b"})
}

func C03_Name3() {
	vp.Options("cut")
	in, v := qs("q", 3, 3)
	expect("\""+in+"\" <a@b>", want{v, "a@b"})
}

func C03_Name4_Deep() {
	vp.Options("cut")
	in, v := qs("q", 4, 4)
	expect("\""+in+"\" <a@b>", want{v, "a@b"})
}

func C03_Name3_Deep() {
	vp.Options("cut")
	in, v := qs("q", 3, 9)
	expect("\""+in+"\" <a@b>", want{v, "a@b"})
}

// as one word of a longer name
func C03_Word() {
	vp.Options("cut")
	in, v := qs("q", 2, 5)
	expect("x \""+in+"\" y <a@b>", want{"x " + v + " y", "a@b"})
}

func C03_Local() {
	vp.Options("cut")
	n := 1 + vp.Choice("n", 2)
	in, v := qs("q", n, 9)
	d := vp.Chars("d", 1, atextN)
	if n == 1 && vp.Choice("angle", 2) == 1 {
		expect("<\""+in+"\"@"+d+">", want{"", v + "@" + d})
	} else {
		expect("\""+in+"\"@"+d, want{"", v + "@" + d})
	}
}

func C03_Local3() {
	vp.Options("cut")
	in, v := qs("q", 3, 3)
	expect("\""+in+"\"@d", want{"", v + "@d"})
}

// white space at the edges and between words is kept as it is
func C03_Spaces() {
	vp.Options("cut")
	a := vp.Chars("a", vp.Choice("na", 3), wsp)
	b := vp.Chars("b", vp.Choice("nb", 3), wsp)
	c := vp.Chars("c", vp.Choice("nc", 3), wsp)
	v := a + vp.Chars("x", 1, atextN) + b + vp.Chars("y", 1, atextN) + c
	if vp.Choice("side", 2) == 0 {
		expect("\""+v+"\" <a@b>", want{v, "a@b"})
	} else {
		expect("\""+v+"\"@b", want{"", v + "@b"})
	}
}

// only white space
func C03_Blank() {
	vp.Options("cut")
	v := vp.Chars("v", 1+vp.Choice("n", 3), wsp)
	if vp.Choice("side", 2) == 0 {
		expect("\""+v+"\" <a@b>", want{v, "a@b"})
	} else {
		expect("\""+v+"\"@b", want{"", v + "@b"})
	}
}

// the empty quoted string
func C03_Empty() {
	vp.Options("cut")
	a := vp.Chars("l", 1, atextN) + "@b"
	if vp.Choice("side", 2) == 0 {
		expect("\"\" <"+a+">", want{"", a})
	} else {
		expect("\"\"@b", want{"", "@b"})
	}
}

// folded white space loses its line break only
func C03_Folded() {
	vp.Options("cut")
	p, q := vp.Chars("p", vp.Choice("np", 3), wsp), vp.Chars("q", 1+vp.Choice("nq", 2), wsp)
	x, y := vp.Chars("x", 1, atextN), vp.Chars("y", 1, atextN)
	in, v := x+p+"\r\n"+q+y, x+p+q+y
	switch vp.Choice("where", 3) {
	case 1: // before the closing quote
		in, v = x+p+"\r\n"+q, x+p+q
	case 2: // after the opening quote
		in, v = p+"\r\n"+q+y, p+q+y
	}
	if vp.Choice("side", 2) == 0 {
		expect("\""+in+"\" <a@b>", want{v, "a@b"})
	} else {
		expect("\""+in+"\"@b", want{"", v + "@b"})
	}
}

// long contents, escapes at any distance
func C03_Long() {
	vp.Options("cut")
	n := []int{20, 64, 100}[vp.Choice("n", 3)]
	v := mono("a", n, atextN)
	c := vp.Chars("c", 1, qplain)
	w := vp.Chars("b", n/2, atextN)
	in, val := v+"\\"+c+w, v+c+w
	if vp.Choice("side", 2) == 0 {
		expect("\""+in+"\" <a@b>", want{val, "a@b"})
	} else {
		expect("\""+in+"\"@b", want{"", val + "@b"})
	}
}

// many escaped characters in a row
func C03_AllEscaped() {
	vp.Options("cut")
	n := []int{1, 2, 5, 12}[vp.Choice("n", 4)]
	in, v := "", ""
	for i := 0; i < n; i++ {
		c := vp.Chars("c"+string(rune('a'+i)), 1, qplain)
		in += "\\" + c
		v += c
	}
	expect("\""+in+"\" <a@b>", want{v, "a@b"})
}

// escaped and plain characters in turn
func C03_Alternate() {
	vp.Options("cut")
	n := []int{2, 4, 8}[vp.Choice("n", 3)]
	in, v := "", ""
	for i := 0; i < n; i++ {
		c := vp.Chars("c"+string(rune('a'+i)), 1, qplain)
		d := vp.Chars("d"+string(rune('a'+i)), 1, atextN)
		in += "\\" + c + d
		v += c + d
		if i%2 == 1 {
			in += " "
			v += " "
		}
	}
	if vp.Choice("side", 2) == 0 {
		expect("\""+in+"\" <a@b>", want{v, "a@b"})
	} else {
		expect("\""+in+"\"@b", want{"", v + "@b"})
	}
}

// quoted names and local parts among everything else
func C03_Generated() {
	generated(&gen{k: 2, names: true, locals: true, forms: true}, 1+vp.Choice("elements", 3))
}
