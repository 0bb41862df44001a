package h

import "vpharness/vp"

// C01: a bare addr-spec comes back unchanged, without a display name.

// several lengths, undotted, one character of any width
func C01_Atoms() {
	vp.Options("cut")
	l, d := spot("l", 1+vp.Choice("nl", 6), atextN), vp.Chars("d", 1+vp.Choice("nd", 6), atextN)
	a := l + "@" + d
	if vp.Choice("swap", 2) == 1 {
		a = d + "@" + l
	}
	expect(a, want{"", a})
}

// all of atext, including what an encoded word is made of
func C01_Equals() {
	vp.Options("cut")
	n := 3
	if vp.Deep() {
		n = 5
	}
	a := oneOf("l", n, atextA) + "@" + oneOf("d", 2, atextA)
	expect(a, want{"", a})
}

func C01_LikeEncodedWord() {
	vp.Options("cut")
	e := "=?utf-8?q?" + vp.Chars("t", 1, atextN) + "?="
	a := e + pick("tail", "", ".x", "x") + "@" + vp.Chars("d", 1, atextN) + ".com"
	if vp.Choice("side", 2) == 1 {
		a = "u@" + e + pick("dtail", "", ".x", "x")
	}
	expect(a, want{"", a})
}

// dotted on both sides
func C01_Dotted() {
	vp.Options("cut")
	a := mono("l1", 1+vp.Choice("nl1", 2), atextN) + "." + oneOf("l2", 3, atextN) + "@" + oneOf("d1", 3, atextN) + "." + mono("d2", 1+vp.Choice("nd2", 2), atextN)
	expect(a, want{"", a})
}

func C01_ManyLabels() {
	vp.Options("cut")
	n := 1 + vp.Choice("labels", 10)
	w := vp.Choice("width", 4)
	set := atextN
	if w > 0 {
		set = widths[w]
	}
	b := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			b += "."
		}
		b += vp.Chars("x"+string(rune('a'+i)), 1, set)
	}
	a := "u@" + b
	if vp.Choice("side", 2) == 0 {
		a = b + "@d.e"
	}
	expect(a, want{"", a})
}

// long parts: every character free
func C01_Long() {
	vp.Options("cut")
	n := []int{31, 63, 64, 65, 80}[vp.Choice("n", 5)]
	a := mono("l", n, atextN) + "@" + vp.Chars("d", n, atextN) + "." + vp.Chars("e", 3, atextN)
	expect(a, want{"", a})
}

func C01_Longer_Deep() {
	vp.Options("cut")
	n := []int{128, 256, 300}[vp.Choice("n", 3)]
	a := vp.Chars("l", n, atextN) + "@" + vp.Chars("d", n, atextN) + "." + vp.Chars("e", 3, atextN)
	expect(a, want{"", a})
}

// many long labels
func C01_LongLabels() {
	vp.Options("cut")
	a := vp.Chars("l", 12, atextN) + "." + vp.Chars("m", 20, atextN) + "@" + vp.Chars("a", 20, atextN) + "." + vp.Chars("b", 63, atextN) + "." + vp.Chars("c", 24, atextN)
	expect(a, want{"", a})
}

// the angle form carries the same addr-spec
func C01_Angle() {
	vp.Options("cut")
	a := spot("l1", 1+vp.Choice("nl", 3), atextN) + "." + oneOf("l2", 2, atextN) + "@" + oneOf("d1", 3, atextN) + "." + spot("d2", 2, atextN)
	expect("<"+a+">", want{"", a})
}
