package h

import "vpharness/vp"

// C05: every mailbox of a list comes back once, in order.

func mbox(id string, kind int) (string, want) {
	a := vp.Chars("l"+id, 1, atextN) + "@" + vp.Chars("d"+id, 1, atextN)
	switch kind {
	case 0:
		return a, want{"", a}
	case 1:
		n := vp.Chars("n"+id, 1, atextN)
		return n + " <" + a + ">", want{n, a}
	case 2:
		return "<" + a + ">", want{"", a}
	case 3:
		n := vp.Chars("n"+id, 1, qtextA)
		return "\"" + n + "\"<" + a + ">", want{n, a}
	case 4:
		n := vp.Chars("n"+id, 1, alnum)
		return "=?utf-8?q?" + n + "?= <" + a + ">", want{n, a}
	default:
		n := vp.Chars("n"+id, 1, atextN)
		return n + " b <" + a + ">", want{n + " b", a}
	}
}

var listSeps = []string{",", ";", ", ", " ; ", " ,", ",\r\n "}

func C05_Two() {
	vp.Options("cut")
	s, w := mbox("a", vp.Choice("ka", 6))
	t, x := mbox("b", vp.Choice("kb", 6))
	expect(s+pick("sep", listSeps...)+t, w, x)
}

func C05_Three() {
	vp.Options("cut")
	k := 3
	if vp.Deep() {
		k = 6
	}
	s, w := mbox("a", vp.Choice("ka", k))
	t, x := mbox("b", vp.Choice("kb", k))
	u, y := mbox("c", vp.Choice("kc", k))
	expect(s+pick("s1", ",", ";")+t+pick("s2", ",", ";")+u, w, x, y)
}

// the separator of each place chosen freely
func C05_Seps() {
	vp.Options("cut")
	n := 5
	s := ""
	var ws []want
	for i := 0; i < n; i++ {
		id := string(rune('a' + i))
		if i > 0 {
			s += pick("s"+id, ",", ";")
		}
		a, w := mbox(id, i%2)
		s += a
		ws = append(ws, w)
	}
	expect(s, ws...)
}

// the same mailbox again is a second mailbox
func C05_Repeated() {
	vp.Options("cut")
	n := 2 + vp.Choice("n", 3)
	a, w := mbox("a", vp.Choice("k", 4))
	s := a
	ws := []want{w}
	for i := 1; i < n; i++ {
		s += pick("sep"+string(rune('a'+i)), ",", ";") + a
		ws = append(ws, w)
	}
	expect(s, ws...)
}

// long lists
func C05_Long() {
	vp.Options("cut")
	n := []int{8, 16, 33, 65}[vp.Choice("n", 4)]
	sep := pick("sep", ",", "; ", ", ")
	kind := vp.Choice("kind", 3)
	s := ""
	var ws []want
	for i := 0; i < n; i++ {
		if i > 0 {
			s += sep
		}
		a, w := mbox(string(rune('A'+i)), kind)
		s += a
		ws = append(ws, w)
	}
	expect(s, ws...)
}

func C05_Longer_Deep() {
	vp.Options("cut")
	n := []int{101, 257}[vp.Choice("n", 2)]
	s := ""
	var ws []want
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ","
		}
		a, w := mbox("x"+itoa(i), i%3)
		s += a
		ws = append(ws, w)
	}
	expect(s, ws...)
}

// a mailbox list around a group keeps its order
func C05_AroundGroup() {
	vp.Options("cut")
	s, w := mbox("a", vp.Choice("ka", 3))
	t, x := mbox("b", vp.Choice("kb", 3))
	u, y := mbox("c", vp.Choice("kc", 3))
	expect(s+pick("s1", ",", ", ")+"g:"+t+";"+pick("s2", ",", " , ")+u, w, x, y)
}

// an empty list
func C05_Empty() {
	l, err := parse("")
	expectRes(l, err)
	vp.Check(l != nil, "the list is not nil")
}

// separators at the edges or doubled add nothing
func C05_EmptyElements() {
	vp.Options("cut")
	s, w := mbox("a", vp.Choice("ka", 4))
	t, x := mbox("b", vp.Choice("kb", 4))
	switch vp.Choice("where", 6) {
	case 0:
		expect(pick("sp", "", " ", "(c)")+","+s+","+t, w, x)
	case 1:
		expect(s+",,"+t, w, x)
	case 2:
		expect(s+","+pick("sp", " ", "(c)", "\r\n ")+","+t, w, x)
	case 3:
		expect(s+","+t+",", w, x)
	case 4:
		expect(s+","+t+","+pick("sp", " ", "(c)"), w, x)
	case 5:
		expect(",,"+s+",,,"+t+",,", w, x)
	}
}

// separators, empty elements and forms of elements
func C05_Generated() {
	k := 2
	if vp.Deep() {
		k = 3
	}
	generated(&gen{k: k, seps: true, obs: true, forms: true}, 2+vp.Choice("elements", 3))
}

// elements that may be equal: one, two or three characters free in each
func C05_Equal() {
	vp.Options("cut")
	n := 2 + vp.Choice("n", 3)
	s := ""
	var w []want
	for i := 0; i < n; i++ {
		id := itoa(i)
		if i > 0 {
			s += ","
		}
		a, b, c := vp.Chars("a"+id, 1, atextN), vp.Chars("b"+id, 1, atextN), vp.Chars("c"+id, 1, atextN)
		if i < 2 && vp.Choice("bare"+id, 2) == 1 {
			s += a + "@" + b
			w = append(w, want{"", a + "@" + b})
		} else {
			s += c + "<" + a + "@" + b + ">"
			w = append(w, want{c, a + "@" + b})
		}
	}
	expect(s, w...)
}
