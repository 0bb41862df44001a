package h

import (
	"net/mail"
	"strings"

	"vpharness/vp"
)

// C23: what net/mail writes, this parser reads back.

// back states that the mailbox, written by net/mail, is read back as it is.
func back(name, addr string) {
	a := mail.Address{Name: name, Address: addr}
	expect(a.String(), want{name, addr})
}

var vcharWsp = []rune{'\t', '\t', ' ', '~'}
var control = []rune{0, 8, 0x0a, 0x1f, 0x7f, 0x7f}

// printable names are written as quoted strings
func C23_Printable() {
	vp.Options("cut")
	n := 3
	if vp.Deep() {
		n = 5
	}
	l, d := vp.Chars("l", 1, atextN), vp.Chars("d", 1, atextN)
	back(vp.Chars("n", 1+vp.Choice("n", n), vcharWsp), l+"@"+d)
}

// names that look like something else
func C23_Lookalike() {
	vp.Options("cut")
	x := vp.Chars("x", 1, vcharWsp)
	back(pick("n", "=?utf-8?q?"+x+"?=", "=?utf-8?b?"+x+"AAA?=", "a@"+x+" <b@c>, d", "g:"+x+";", "\""+x+"\"", "("+x+")", "\\"+x, x+"\\", " "+x+" ", "a."+x, "\t"+x+" \t", x+",;:"), "l@d")
}

// other names are written as encoded words, in B or in Q
func C23_Control() {
	vp.Options("cut")
	x := vp.Chars("x", 1, control)
	back(pick("pre", "", "a", " ")+x+pick("post", "", "=", "_ ", "("), "l@d")
}

func C23_Unicode() {
	vp.Options("cut")
	w := 1 + vp.Choice("width", 3)
	n := 2
	if vp.Deep() {
		n = 4
	}
	x := vp.Chars("x", 1, widths[w])
	back(x+[]string{"", ".", "a", " \""}[vp.Choice("post", n)], "l@d")
}

// the other characters of an encoded name
func C23_Mixed() {
	vp.Options("cut")
	back("é"+vp.Chars("x", 1, ascii)+pick("post", "", "é"), "l@d")
}

func C23_Mixed2_Deep() {
	vp.Options("cut")
	back("\u65e5"+vp.Chars("x", 2, ascii), "l@d")
}

// long names are written as several encoded words
func C23_Long() {
	vp.Options("cut")
	n := []int{15, 30, 70}[vp.Choice("n", 3)]
	fill := pick("fill", "é", "日", "a", "é ", "\U0001F600")
	x := vp.Chars("x", 1, alnum)
	post := pick("post", "é", "é.")
	back(strings.Repeat(fill, n)+x+post, "l@d")
}

// local parts, quoted where needed
func C23_Local() {
	vp.Options("cut")
	n := 3
	if vp.Deep() {
		n = 4
	}
	back(pick("name", "", "n"), vp.Chars("l", 1+vp.Choice("n", n), vcharWsp)+"@d")
}

func C23_LocalUnicode() {
	vp.Options("cut")
	x := vp.Chars("x", 1, nonASCII)
	back("", pick("pre", "", "a", ".", "\"", " ")+x+pick("post", "", ".", "b", "@")+"@"+pick("d", "d", x))
}

func C23_Domain() {
	vp.Options("cut")
	a, b := vp.Chars("a", 2, atextN), vp.Chars("b", 1, atextN)
	in := vp.Chars("in", 3, dtextA)
	back(pick("n", "", "n", "\""), "l@"+pick("d", a, a+"."+b, a+"."+b+"."+a, "["+strings.ReplaceAll(in, "@", "x")+"]"))
}

// several mailboxes written one after another
func C23_List() {
	vp.Options("cut")
	n, m := vp.Chars("n", 1, vcharWsp), vp.Chars("m", 1, vcharWsp)
	k := 2
	if vp.Deep() {
		k = 4
	}
	l := []mail.Address{
		{Name: n + "a", Address: "l@d"},
		{Name: "", Address: m + "b@d"},
		{Name: m + "é", Address: "l@d"},
		{Name: m + ".", Address: n + "@d"},
	}
	i, j := vp.Choice("i", k), vp.Choice("j", k)
	expect(l[i].String()+", "+l[j].String(), want{l[i].Name, l[i].Address}, want{l[j].Name, l[j].Address})
}
