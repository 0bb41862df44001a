package h

import "vpharness/vp"

// C06: a group contributes its members and nothing else.

func gname(id string) string {
	switch vp.Choice(id+".kind", 5) {
	case 0:
		return vp.Chars(id, 1, atextN)
	case 1:
		return vp.Chars(id, 2, atextN) + " " + vp.Chars(id+"2", 1, atextN)
	case 2:
		return "\"" + vp.Chars(id, 1, qtextA) + "\""
	case 3:
		return "=?utf-8?q?" + vp.Chars(id, 1, alnum) + "?="
	default:
		return vp.Chars(id, 1, atextN) + " \"" + vp.Chars(id+"2", 1, atextN) + "\""
	}
}

func C06_One() {
	vp.Options("cut")
	g := gname("g")
	s, w := mbox("a", vp.Choice("ka", 6))
	expect(g+pick("c", ":", " : ")+s+pick("e", ";", " ;", "; ", ""), w)
}

func C06_Two() {
	vp.Options("cut")
	g := gname("g")
	s, w := mbox("a", vp.Choice("ka", 4))
	t, x := mbox("b", vp.Choice("kb", 4))
	expect(g+":"+s+pick("sep", ",", ", ")+t+";", w, x)
}

func C06_Many() {
	vp.Options("cut")
	n := []int{3, 5, 9, 20}[vp.Choice("n", 4)]
	kind := vp.Choice("kind", 3)
	s := "g:"
	var ws []want
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ","
		}
		a, w := mbox(string(rune('A'+i)), kind)
		s += a
		ws = append(ws, w)
	}
	expect(s+pick("e", ";", ""), ws...)
}

// an empty group contributes nothing, alone or in a list
func C06_Empty() {
	vp.Options("cut")
	g := gname("g")
	e := g + ":" + pick("in", "", " ", "(c)", " (c) ", ",", " , ,", ",(c)") + pick("e", ";", "; ", ";(c)")
	switch vp.Choice("where", 4) {
	case 0:
		expect(e)
	case 1:
		s, w := mbox("a", vp.Choice("ka", 2))
		expect(e+","+s, w)
	case 2:
		s, w := mbox("a", vp.Choice("ka", 2))
		expect(s+","+e, w)
	case 3:
		expect(e + ",h:;")
	}
}

// groups among mailboxes and other groups
func C06_Mixed() {
	vp.Options("cut")
	s, w := mbox("a", vp.Choice("ka", 2))
	t, x := mbox("b", vp.Choice("kb", 2))
	u, y := mbox("c", vp.Choice("kc", 2))
	g, h := vp.Chars("g", 1, atextN), vp.Chars("h", 1, atextN)
	switch vp.Choice("shape", 7) {
	case 0:
		expect(s+","+g+":"+t+","+u+";", w, x, y)
	case 1:
		expect(g+":"+s+","+t+";,"+u, w, x, y)
	case 2:
		expect(g+":"+s+";,"+h+":"+t+","+u+";", w, x, y)
	case 3:
		expect(g+":"+s+","+t+";,"+h+":"+u+";", w, x, y)
	case 4:
		expect(s+","+g+":;,"+t+","+u, w, x, y)
	case 5:
		expect(s+","+g+":"+t+";,"+u, w, x, y)
	case 6:
		expect(g+":"+s+";, "+h+":"+t+"; ,i:"+u+";", w, x, y)
	}
}

// empty elements inside a group
func C06_EmptyElements() {
	vp.Options("cut")
	s, w := mbox("a", vp.Choice("ka", 2))
	t, x := mbox("b", vp.Choice("kb", 2))
	switch vp.Choice("where", 4) {
	case 0:
		expect("g:,"+s+","+t+";", w, x)
	case 1:
		expect("g:"+s+",,"+t+";", w, x)
	case 2:
		expect("g:"+s+","+t+",;", w, x)
	case 3:
		expect("g: , "+s+", ,"+t+", ;", w, x)
	}
}

// the name of the group is not the name of a member
func C06_NameStays() {
	vp.Options("cut")
	g := vp.Chars("g", vp.IteInt(true, 3, 3), atextN)
	a := vp.Chars("a", 1, atextN) + "@" + vp.Chars("d", 2, atextN)
	expect(g+":"+a+",<"+a+">;", want{"", a}, want{"", a})
}

// groups of every form at every place of a list
func C06_Generated() {
	vp.Options("cut")
	k := 1
	if vp.Deep() {
		k = 2
	}
	g := &gen{k: k, names: true, gaps: true, forms: true, seps: true, dev: true}
	n := vp.Choice("members", 5)
	s := ""
	if vp.Choice("before", 2) == 1 {
		s = g.element("1", true, false) + ","
	}
	name, _ := g.name("G")
	vp.Assume(name != "")
	// empty elements: not where the members are all there are
	g.obs, g.inGroup = true, true
	lead, end := "", ""
	if n > 0 {
		lead = []string{"", ",", " , ,"}[g.vary(true, "lead", 3)]
		end = []string{"", ",", ",, "}[g.vary(true, "end", 3)]
	}
	s += g.gap("G", "") + name + g.gap("H", "") + ":" + lead
	for i := 0; i < n; i++ {
		id := itoa(2 + i)
		if i > 0 {
			s += g.sep(id, ",")
		}
		if i%2 == 0 {
			s += g.bare(id)
		} else {
			s += g.nameAddr(id)
		}
		s += g.gap(id+"z", "")
	}
	g.obs, g.inGroup = false, false
	s += end + ";" + g.gap("I", "")
	if vp.Choice("after", 2) == 1 {
		s += "," + g.element("8", false, true)
	}
	expect(s, g.out...)
}
