package h

import "vpharness/vp"

// A generator of address lists with their meaning.  Every place of a list has
// a plain form and some other forms; a list may depart from the plain forms in
// up to k places, and every such list is explored, with all characters open.

type gen struct {
	k int // departures left

	// where departures are allowed
	names, gaps, locals, domains, forms, seps bool
	obs, dev, words                           bool

	port bool // the last domain has a port, which no white space follows

	semi, empties bool // separators so far
	inGroup       bool

	out []want
}

// vary is the form of one place: 0 is the plain one.
func (g *gen) vary(on bool, name string, n int) int {
	if g.k == 0 || !on {
		return 0
	}
	c := vp.Choice(name, n)
	if c != 0 {
		g.k--
	}
	return c
}

// gap is a place for comments and folding white space.
func (g *gen) gap(id, plain string) string {
	id = "g" + id
	if g.port {
		return ""
	}
	switch g.vary(g.gaps, id, 7) {
	case 1:
		return vp.Chars(id, 2, wsp)
	case 2:
		return "\r\n" + vp.Chars(id, 1, wsp)
	case 3:
		return "(" + vp.Chars(id, 2, ctextA) + ")"
	case 4:
		return " (" + vp.Chars(id, 1, atextN) + "(\\" + vp.Chars(id+"q", 1, []rune{' ', '~'}) + ")) "
	case 5:
		return "(" + vp.Chars(id, 1, nonASCII) + "\r\n )\r\n\t"
	case 6:
		return "()(" + vp.Chars(id, 1, []rune{'"', '"', ',', ',', '.', '.', ':', '<', '>', '>', '@', '@', '[', '[', ']', ']'}) + ")"
	}
	return plain
}

// local is a local part and the text it denotes.
func (g *gen) local(id string) (string, string) {
	g.port = false
	id = "l" + id
	n := 7
	if g.obs {
		n = 11
	}
	switch g.vary(g.locals, id, n) {
	case 1:
		a, b := vp.Chars(id, 1, atextN), vp.Chars(id+"b", 2, atextN)
		return a + "." + b, a + "." + b
	case 2:
		q := vp.Chars(id, 1, qtextA) + vp.Chars(id+"r", 1, atextN)
		return "\"" + q + "\"", q
	case 3:
		q := vp.Chars(id, 1, []rune{' ', '~'})
		a, b := pick(id+"a", "", "a"), pick(id+"b", "", "b")
		return "\"" + a + "\\" + q + b + "\"", a + q + b
	case 4:
		q, w := vp.Chars(id, 1, qtextA), vp.Chars(id+"w", 1, wsp)
		return "\"" + w + q + "\r\n" + w + "b" + w + "\"", w + q + w + "b" + w
	case 5:
		a := vp.Chars(id, 1, atextN) + vp.Chars(id+"n", 1, nonASCII)
		return a, a
	case 6:
		return "\"\"", ""
	case 7: // obsolete
		a, b := vp.Chars(id, 1, atextN), vp.Chars(id+"b", 1, atextN)
		return a + g.gap(id+"x", " ") + "." + g.gap(id+"y", " ") + b, a + "." + b
	case 8:
		a, q := vp.Chars(id, 1, atextN), vp.Chars(id+"b", 1, qtextA)
		return a + ".\"" + q + "\"", a + "." + q
	case 9:
		a, q := vp.Chars(id, 1, atextN), vp.Chars(id+"b", 1, qtextA)
		return "\"" + q + "\"" + g.gap(id+"x", "") + "." + a + ".c", q + "." + a + ".c"
	case 10:
		a, b := vp.Chars(id, 1, atextN), vp.Chars(id+"b", 1, atextN)
		return a + ".\"\"." + b, a + ".." + b
	}
	a := vp.Chars(id, 1, atextN)
	return a, a
}

// domain is a domain and the text it denotes.
func (g *gen) domain(id string) (string, string) {
	id = "d" + id
	n := 5
	if g.dev {
		n = 7
	}
	switch g.vary(g.domains, id, n) {
	case 1:
		a, b := vp.Chars(id, 2, atextN), vp.Chars(id+"b", 1, atextN)
		return a + "." + b + ".e", a + "." + b + ".e"
	case 2:
		a := vp.Chars(id, 2, []rune{'!', 'Z', '^', '~'})
		return "[" + a + "]", "[" + a + "]"
	case 3:
		a := vp.Chars(id, 1, nonASCII) + vp.Chars(id+"b", 1, atextN)
		return a, a
	case 4:
		a, w := vp.Chars(id, 1, []rune{'!', 'Z', '^', '~'}), vp.Chars(id+"w", 1, wsp)
		return "[" + a + "\r\n" + w + "1]", "[" + a + w + "1]"
	case 5:
		a := vp.Chars(id, 1, atextN)
		return a + ".", a + "."
	case 6:
		a, p := vp.Chars(id, 1, atextN), vp.Chars(id+"p", 2, digits)
		g.port = true
		return a + ":" + p, a + ":" + p
	}
	a := vp.Chars(id, 1, atextN)
	return a, a
}

// spec is an address and the text it denotes.
func (g *gen) spec(id string) (string, string) {
	l, lv := g.local(id)
	x := g.gap(id+"a", "") + "@" + g.gap(id+"b", "")
	d, dv := g.domain(id)
	return l + x + d, lv + "@" + dv
}

// name is a display name and the text it denotes.
func (g *gen) name(id string) (string, string) {
	g.port = false
	id = "n" + id
	n := 11
	if g.words {
		n = 14
	}
	if g.obs || g.dev {
		n = 18
	}
	c := g.vary(g.names, id, n)
	if 11 <= c && c < 14 && !g.words {
		vp.Assume(false)
	}
	one := func(id string) string { return vp.Chars(id, 1, atextN) }
	switch c {
	case 1:
		q := vp.Chars(id, 1, atextN) + vp.Chars(id+"q", 1, qtextA) + vp.Chars(id+"r", 1, atextN)
		return "\"" + q + "\"", q
	case 2:
		return "", ""
	case 3:
		a, b := one(id), one(id+"b")
		return a + g.gap(id+"x", " ") + b, a + " " + b
	case 4:
		a, q := one(id), vp.Chars(id+"b", 1, qtextA)
		return a + g.gap(id+"x", "") + "\" " + q + "\"", a + "  " + q
	case 5:
		q := vp.Chars(id, 1, []rune{' ', '~'})
		a, b := pick(id+"a", "", "a"), pick(id+"b", "", "b")
		return "\"" + a + "\\" + q + b + "\"", a + q + b
	case 6:
		q, w, r := vp.Chars(id, 1, qtextA), vp.Chars(id+"w", 1, wsp), vp.Chars(id+"b", 1, atextN)
		return "\"" + q + "\r\n" + w + r + w + "\"", q + w + r + w
	case 7:
		a, b, e := one(id), one(id+"b"), one(id+"c")
		return a + " " + b + g.gap(id+"x", "\t") + e, a + " " + b + " " + e
	case 8:
		a, b := one(id), vp.Chars(id+"b", 1, nonASCII)
		return a + b + " \"" + b + a + "\"", a + b + " " + b + a
	case 9:
		return "\"\"", ""
	case 10:
		a, b, q := one(id), one(id+"b"), vp.Chars(id+"q", 1, qtextA)
		return a + g.gap(id+"x", "") + "\"" + q + "\"" + g.gap(id+"y", "") + b, a + " " + q + " " + b
	case 11: // encoded words
		a := vp.Chars(id, 2, alnum)
		return "=?utf-8?q?" + a + "_?=", a + " "
	case 12:
		a, b := vp.Chars(id, 1, alnum), one(id+"b")
		return "=?utf-8?q?" + a + "?=" + g.gap(id+"x", " ") + "=?us-ascii?b?QQ==?=" + g.gap(id+"y", " ") + b, a + "A " + b
	case 13:
		a, b := vp.Chars(id, 1, alnum), one(id+"b")
		return b + g.gap(id+"x", " ") + "=?iso-8859-1?Q?=E9" + a + "?=", b + " \u00e9" + a
	case 14: // joints
		a, b, e := one(id), one(id+"b"), one(id+"c")
		j := pick(id+"j", ".", "@")
		return a + g.gap(id+"x", "") + j + g.gap(id+"y", "") + b + " " + e, a + j + b + " " + e
	case 15:
		a, b := one(id), one(id+"b")
		return a + " " + b + ".", a + " " + b + "."
	case 16:
		a, q, b := one(id), vp.Chars(id+"q", 1, qtextA), one(id+"b")
		return a + ".\"" + q + "\" " + b, a + "." + q + " " + b
	case 17:
		a, b := one(id), one(id+"b")
		return a + ".\"\" " + b + "..", a + ". " + b + ".."
	}
	a := vp.Chars(id, 2, atextN)
	return a, a
}

// route is an obsolete source route, or nothing.
func (g *gen) route(id string) string {
	id = "r" + id
	switch g.vary(g.obs, id, 5) {
	case 1:
		return "@" + vp.Chars(id, 1, atextN) + ":"
	case 2:
		return "@" + vp.Chars(id, 1, atextN) + ",@" + vp.Chars(id+"b", 1, atextN) + ".e" + g.gap(id+"x", "") + ":"
	case 3:
		return ",@" + vp.Chars(id, 1, atextN) + g.gap(id+"x", " ") + ",,@[1]:"
	case 4:
		return g.gap(id+"x", " ") + "@" + vp.Chars(id, 1, atextN) + ", :"
	}
	return ""
}

// nameAddr is a mailbox with an angle address.
func (g *gen) nameAddr(id string) string {
	n, nv := g.name(id)
	s := n + g.gap(id+"e", "") + "<"
	if g.vary(g.dev, "e"+id, 2) == 1 {
		g.out = append(g.out, want{nv, ""})
		return s + ">"
	}
	r := g.route(id)
	x := g.gap(id+"f", "")
	a, av := g.spec(id)
	g.out = append(g.out, want{nv, av})
	s += r + x + a + g.gap(id+"h", "") + ">"
	g.port = false
	return s
}

// bare is a mailbox without one.
func (g *gen) bare(id string) string {
	a, av := g.spec(id)
	g.out = append(g.out, want{"", av})
	return a
}

// element is one element of a list; a group that is not closed comes last.
func (g *gen) element(id string, plainBare, last bool) string {
	n := 6
	if g.dev {
		n = 8
	}
	c := g.vary(g.forms, "f"+id, n)
	if !last && c > 5 {
		vp.Assume(false)
	}
	s := ""
	if c != 7 {
		s = g.gap(id+"l", "")
	}
	switch c {
	case 1:
		plainBare = !plainBare
		fallthrough
	case 0:
		if plainBare {
			s += g.bare(id)
		} else {
			s += g.nameAddr(id)
		}
	case 2:
		n, _ := g.name(id + "G")
		s += n + g.gap(id+"m", "") + ":" + g.gap(id+"n", "") + g.nameAddr(id) + g.gap(id+"o", "") + ";"
		vp.Assume(n != "")
	case 3:
		s += vp.Chars("G"+id, 1, atextN) + ":" + g.bare(id)
		g.port, g.inGroup = false, true
		s += g.sep(id+"s", ",") + g.nameAddr(id+"2") + ";"
		g.inGroup = false
	case 4:
		s += "\"" + vp.Chars("G"+id, 1, qtextA) + "\"" + ":" + g.gap(id+"n", "") + ";"
	case 5:
		s += vp.Chars("G"+id, 1, atextN) + " x:" + g.nameAddr(id) + "," + g.bare(id+"2") + "," + g.bare(id+"3") + ";"
	case 6:
		s += vp.Chars("G"+id, 1, atextN) + ":" + g.bare(id) + "," + g.nameAddr(id+"2")
	case 7:
		s += "\"" + vp.Chars("G"+id, 1, atextN) + ":" + g.bare(id) + "," + g.nameAddr(id+"2") + "\";"
	}
	s += g.gap(id+"t", "")
	g.port = false
	return s
}

// sep stands between two elements.
func (g *gen) sep(id, plain string) string {
	id = "s" + id
	n := 2
	if g.obs {
		n = 6
	}
	c := g.vary(g.seps, id, n)
	if c == 1 {
		// members of a group, and lists with empty elements, have commas only
		vp.Assume(!g.inGroup)
		g.semi = true
	} else if c > 1 && !g.inGroup {
		g.empties = true
	}
	vp.Assume(!g.semi || !g.empties)
	switch c {
	case 1:
		return ";"
	case 2: // empty elements
		return plain + ","
	case 3:
		return plain + " , " + plain
	case 4:
		return plain + g.gap(id+"x", "(c)") + ","
	case 5:
		return ",,,"
	}
	return plain
}

// list is a list of n elements, of which every second is plainly bare.
func (g *gen) list(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		id := string(rune('1' + i))
		if i > 0 {
			s += g.sep(id, ",")
		}
		s += g.element(id, i%2 == 1, i == n-1)
	}
	return s
}

// generated states that every list of n elements that g can write parses to
// its meaning.
func generated(g *gen, n int) {
	vp.Options("cut")
	s := g.list(n)
	expect(s, g.out...)
}
