package h

import (
	"strings"

	"vpharness/vp"
)

// C21: obsolete syntax means what the modern form means.

// route is a source route with its colon.
func route(kind int) string {
	a, b := vp.Chars("ra", 1, atextN), vp.Chars("rb", 2, atextN)
	switch kind {
	case 0:
		return "@" + a + ":"
	case 1:
		return "@" + a + "." + b + ":"
	case 2:
		return "@" + a + ",@" + b + ":"
	case 3:
		return "@" + a + ",@" + b + ",@c:"
	case 4:
		return "@[" + vp.Chars("rx", 2, dtext) + "]:"
	case 5:
		return "@" + a + ", (c) @" + b + " :"
	case 6:
		return ",@" + a + ",,@" + b + ",:"
	case 7:
		return " @ " + a + " : "
	case 8:
		return " , (c),@" + a + ":"
	}
	return "@" + vp.Chars("rn", 1, nonASCII) + ",@[]:"
}

const nRoutes = 10

func C21_Route() {
	vp.Options("cut")
	r := route(vp.Choice("route", nRoutes))
	l, d := vp.Chars("l", 1, atextN), vp.Chars("d", 1, atextN)
	switch vp.Choice("where", 5) {
	case 0:
		expect("<"+r+l+"@"+d+">", want{"", l + "@" + d})
	case 1:
		n := vp.Chars("n", 1, atextN)
		expect(n+" <"+r+l+"@"+d+">", want{n, l + "@" + d})
	case 2:
		expect("<"+r+"\""+l+"\"@["+d+"]>", want{"", l + "@[" + d + "]"})
	case 3:
		expect("<"+r+l+"@"+d+">, m@e", want{"", l + "@" + d}, want{"", "m@e"})
	case 4:
		expect("g:m@e,<"+r+l+"@"+d+">;", want{"", "m@e"}, want{"", l + "@" + d})
	}
}

// a route of many domains
func C21_LongRoute() {
	vp.Options("cut")
	n := []int{4, 8, 16}[vp.Choice("n", 3)]
	r := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			r += ","
		}
		r += "@" + vp.Chars("r"+itoa(i), 1, atextN)
	}
	l := vp.Chars("l", 1, atextN)
	expect("n <"+r+":"+l+"@d>", want{"n", l + "@d"})
}

// two routes in one list
func C21_TwoRoutes() {
	vp.Options("cut")
	a, b := vp.Chars("a", 1, atextN), vp.Chars("b", 1, atextN)
	l, m := vp.Chars("l", 1, atextN), vp.Chars("m", 1, atextN)
	expect("<@"+a+":"+l+"@d>"+pick("sep", ",", ";")+" n <@"+a+",@"+b+":"+m+"@e>", want{"", l + "@d"}, want{"n", m + "@e"})
}

// part is one word of an obsolete local part, and its content.
func part(id string) (string, string) {
	switch vp.Choice(id+".kind", 5) {
	case 0:
		x := vp.Chars(id, 2, atextN)
		return x, x
	case 1:
		x := vp.Chars(id, 2, qtextA)
		return "\"" + x + "\"", x
	case 2: // quoted pair and white space
		p, x := vp.Chars(id+"p", 1, qchar), vp.Chars(id, 1, atextN)
		return "\"" + x + " \\" + p + "\"", x + " " + p
	case 3:
		return "\"\"", ""
	}
	x := vp.Chars(id, 1, nonASCII)
	return x, x
}

func C21_LocalTwo() {
	vp.Options("cut")
	a, x := part("a")
	b, y := part("b")
	d := vp.Chars("d", 1, atextN)
	if vp.Choice("angle", 2) == 0 {
		expect(a+"."+b+"@"+d, want{"", x + "." + y + "@" + d})
	} else {
		expect("n <"+a+"."+b+"@"+d+">", want{"n", x + "." + y + "@" + d})
	}
}

func C21_LocalThree_Deep() {
	vp.Options("cut")
	a, x := part("a")
	b, y := part("b")
	c, z := part("c")
	expect(a+"."+b+"."+c+"@d", want{"", x + "." + y + "." + z + "@d"})
}

// small is one word of one character, and its content.
func small(id string) (string, string) {
	switch vp.Choice(id+".kind", 3) {
	case 0:
		x := vp.Chars(id, 1, atextN)
		return x, x
	case 1:
		x := vp.Chars(id, 1, qtextA)
		return "\"" + x + "\"", x
	}
	x := vp.Chars(id, 1, nonASCII)
	return "\"" + x + "\"", x
}

func C21_LocalThree() {
	vp.Options("cut")
	a, x := small("a")
	b, y := small("b")
	c, z := small("c")
	expect(a+"."+b+"."+c+"@d", want{"", x + "." + y + "." + z + "@d"})
}

// comments and white space around the words
func C21_LocalSpaced() {
	vp.Options("cut")
	a, b := vp.Chars("a", 1, atextN), vp.Chars("b", 1, qtextA)
	expect(spread("\""+b+"\"", ".", a, ".", "\""+b+"\"", "@", "d"), want{"", b + "." + a + "." + b + "@d"})
}

func C21_LocalMany() {
	vp.Options("cut")
	n := []int{4, 8, 16}[vp.Choice("n", 3)]
	odd := vp.Choice("odd", 2)
	s, out := "", ""
	for i := 0; i < n; i++ {
		x := vp.Chars("x"+itoa(i), 1, atextN)
		if i > 0 {
			s += "."
			out += "."
		}
		if i%2 == odd {
			s += "\"" + x + "\""
		} else {
			s += x
		}
		out += x
	}
	expect(s+"@d", want{"", out + "@d"})
}

func C21_LocalInList() {
	vp.Options("cut")
	a, x := small("a")
	b, y := small("b")
	m := vp.Chars("m", 1, atextN)
	switch vp.Choice("where", 3) {
	case 0:
		expect(a+"."+b+"@d"+pick("sep", ",", ";")+m+"@e", want{"", x + "." + y + "@d"}, want{"", m + "@e"})
	case 1:
		expect(m+"@e"+pick("sep", ",", ";")+a+"."+b+"@d", want{"", m + "@e"}, want{"", x + "." + y + "@d"})
	case 2:
		expect("g:"+a+"."+b+"@d,"+m+"@e;", want{"", x + "." + y + "@d"}, want{"", m + "@e"})
	}
}

// unquoted periods in a name
func C21_NamePeriods() {
	vp.Options("cut")
	a, b := vp.Chars("a", 1, atextN), vp.Chars("b", 2, atextN)
	p := pick("p", ".", ". ", " . ", "..", " .. ", ".\r\n ")
	dots := strings.Trim(p, " \r\n")
	switch vp.Choice("form", 5) {
	case 0:
		expect(a+p+b+" <l@d>", want{a + dots + b, "l@d"})
	case 1:
		expect(a+p+"<l@d>", want{a + dots, "l@d"})
	case 2:
		expect("\""+a+"\""+p+b+" <l@d>", want{a + dots + b, "l@d"})
	case 3:
		expect(a+p+"\""+b+"\" <l@d>", want{a + dots + b, "l@d"})
	case 4:
		expect(a+" "+b+p+a+" "+b+"<l@d>", want{a + " " + b + dots + a + " " + b, "l@d"})
	}
}

// empty elements
func C21_Empty() {
	vp.Options("cut")
	a, b := vp.Chars("a", 1, atextN), vp.Chars("b", 1, atextN)
	e := pick("e", ",", ",,", ", ,", ",(c),", ",\t,", ",,,,")
	pre := pick("pre", "", ",", " ,,")
	post := pick("post", "", ",", ",, ")
	expect(pre+a+"@d"+e+"n <"+b+"@e>"+post, want{"", a + "@d"}, want{"n", b + "@e"})
}

func C21_EmptyInGroup() {
	vp.Options("cut")
	a, b := vp.Chars("a", 1, atextN), vp.Chars("b", 1, atextN)
	e := pick("e", ",", ",,", ", ,", ",(c),")
	pre := pick("pre", "", ",", " ,,")
	post := pick("post", "", ",", ",,")
	expect("g:"+pre+a+"@d"+e+"n <"+b+"@e>"+post+";", want{"", a + "@d"}, want{"n", b + "@e"})
}

func C21_OnlyEmpty() {
	vp.Options("cut")
	expect(vp.Chars("g", 1, atextN) + ":" + pick("in", ",", ",,", " , ", ",(c)", "(c),", " ,(c), ") + ";")
}

// obsolete forms together with each other and with modern ones
func C21_Generated() {
	k := 2
	if vp.Deep() {
		k = 3
	}
	generated(&gen{k: k, names: true, locals: true, domains: true, gaps: true, obs: true}, 1)
}

func C21_GeneratedList() {
	generated(&gen{k: 2, names: true, locals: true, seps: true, forms: true, obs: true}, 2+vp.Choice("elements", 2))
}
