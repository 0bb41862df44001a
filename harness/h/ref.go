package h

import "vpharness/vp"

// A reference reader for address lists, written from RFC 5322 and RFC 6532
// alone, by backtracking with continuations.  It looks at a character only
// when everything before it can begin an address list, so on symbolic text it
// distinguishes no more inputs than it must.
//
// With loose set it reads the obsolete syntax and the deviations this parser
// documents as well.

type ref struct {
	s     []rune
	loose bool
}

// box is one mailbox read.
type box struct{ name, addr string }

var (
	refAtext = []rune{'!', '!', '#', '\'', '*', '+', '-', '-', '/', '9', '=', '=', '?', '?', 'A', 'Z', '^', '~', 0x80, 0x10ffff}
	refQtext = []rune{'!', '!', '#', '[', ']', '~', 0x80, 0x10ffff}
	refCtext = []rune{'!', '\'', '*', '[', ']', '~', 0x80, 0x10ffff}
	refDtext = []rune{'!', 'Z', '^', '~', 0x80, 0x10ffff}
	refVchar = []rune{'!', '~', 0x80, 0x10ffff}
	refCtl   = []rune{1, 8, 0x0b, 0x0c, 0x0e, 0x1f, 0x7f, 0x7f}
	refPairs = []rune{0, 8, 0x0a, 0x1f, 0x7f, 0x7f}
	refToken = []rune{'!', '!', '#', '\'', '*', '+', '-', '-', '0', '9', 'A', 'Z', '\\', '\\', '^', '~'}
	refCoded = []rune{'!', '>', '@', '~'}
)

func (p *ref) is(i int, set []rune) bool { return i < len(p.s) && vp.In(p.s[i], set) }

func (p *ref) at(i int, c rune) bool { return i < len(p.s) && p.s[i] == c }

func (p *ref) wsp(i int) int {
	for p.is(i, wsp) {
		i++
	}
	return i
}

// fws reads folding white space; the text it stands for goes to k.
func (p *ref) fws(i int, k func(int, string) bool) bool {
	j := p.wsp(i)
	ws := string(p.s[i:j])
	if j > i && k(j, ws) {
		return true
	}
	for p.at(j, '\r') && p.at(j+1, '\n') {
		n := p.wsp(j + 2)
		if n == j+2 {
			return false
		}
		ws += string(p.s[j+2 : n])
		j = n
		if k(j, ws) {
			return true
		}
		if !p.loose {
			return false
		}
	}
	return false
}

// comment reads one comment.
func (p *ref) comment(i int, k func(int) bool) bool {
	if !p.at(i, '(') {
		return false
	}
	return p.ccontent(i+1, false, k)
}

func (p *ref) ccontent(i int, white bool, k func(int) bool) bool {
	if p.at(i, ')') {
		return k(i + 1)
	}
	if p.is(i, refCtext) || p.loose && p.is(i, refCtl) {
		return p.ccontent(i+1, false, k)
	}
	if p.at(i, '\\') {
		if p.is(i+1, refVchar) || p.is(i+1, wsp) || p.loose && p.is(i+1, refPairs) {
			return p.ccontent(i+2, false, k)
		}
		return false
	}
	if p.at(i, '(') {
		return p.comment(i, func(j int) bool { return p.ccontent(j, false, k) })
	}
	if !white {
		return p.fws(i, func(j int, _ string) bool { return p.ccontent(j, true, k) })
	}
	return false
}

// cfws reads optional comments and white space.
func (p *ref) cfws(i int, k func(int) bool) bool { return p.cfwsFrom(i, false, k) }

func (p *ref) cfwsFrom(i int, white bool, k func(int) bool) bool {
	if k(i) {
		return true
	}
	if p.at(i, '(') {
		return p.comment(i, func(j int) bool { return p.cfwsFrom(j, false, k) })
	}
	if !white {
		return p.fws(i, func(j int, _ string) bool { return p.cfwsFrom(j, true, k) })
	}
	return false
}

// atom reads atext alone; there must be some.
func (p *ref) atext(i int, k func(int, string) bool) bool {
	j := i
	for p.is(j, refAtext) {
		j++
	}
	return j > i && k(j, string(p.s[i:j]))
}

// dotAtom reads atext runs between periods.
func (p *ref) dotAtom(i int, k func(int, string) bool) bool {
	return p.atext(i, func(j int, v string) bool {
		if k(j, v) {
			return true
		}
		if !p.at(j, '.') {
			return false
		}
		if p.loose && k(j+1, v+".") {
			return true
		}
		return p.dotAtom(j+1, func(n int, w string) bool { return k(n, v+"."+w) })
	})
}

// quoted reads a quoted string.
func (p *ref) quoted(i int, k func(int, string) bool) bool {
	return p.at(i, '"') && p.qcontent(i+1, false, "", k)
}

func (p *ref) qcontent(i int, white bool, v string, k func(int, string) bool) bool {
	if p.at(i, '"') {
		return k(i+1, v)
	}
	if p.is(i, refQtext) || p.loose && p.is(i, refCtl) {
		return p.qcontent(i+1, false, v+string(p.s[i]), k)
	}
	if p.at(i, '\\') {
		if p.is(i+1, refVchar) || p.is(i+1, wsp) || p.loose && p.is(i+1, refPairs) {
			return p.qcontent(i+2, false, v+string(p.s[i+1]), k)
		}
		return false
	}
	if !white {
		return p.fws(i, func(j int, ws string) bool { return p.qcontent(j, true, v+ws, k) })
	}
	return false
}

// coded reads the form of an encoded word (loose only).
func (p *ref) coded(i int, k func(int, string) bool) bool {
	if !p.loose || !p.at(i, '=') || !p.at(i+1, '?') {
		return false
	}
	j := i + 2
	part := func(set []rune) bool {
		n := j
		for p.is(j, set) {
			j++
		}
		ok := j > n && p.at(j, '?')
		j++
		return ok
	}
	if part(refToken) && part(refToken) && part(refCoded) && p.at(j, '=') {
		return k(j+1, string(p.s[i:j+1]))
	}
	return false
}

// word reads an atom or a quoted string, with what surrounds it.
func (p *ref) word(i int, k func(int, string) bool) bool {
	return p.cfws(i, func(i int) bool {
		end := func(j int, v string) bool {
			return p.cfws(j, func(j int) bool { return k(j, v) })
		}
		return p.atext(i, end) || p.quoted(i, end) || p.coded(i, end) || p.loose && p.atextCoded(i, k)
	})
}

// atextCoded reads atext up to an encoded word that follows at once: this
// parser takes "a=?x?q?b;c?=", which is no atom, for two words.
func (p *ref) atextCoded(i int, k func(int, string) bool) bool {
	for j := i + 1; p.is(j-1, refAtext); j++ {
		v := string(p.s[i:j])
		if p.coded(j, func(int, string) bool { return true }) && k(j, v) {
			return true
		}
	}
	return false
}

func (p *ref) phrase(i int, k func(int, string) bool) bool {
	return p.word(i, func(j int, v string) bool { return p.phraseRest(j, v, k) })
}

func (p *ref) phraseRest(i int, v string, k func(int, string) bool) bool {
	if k(i, v) {
		return true
	}
	if p.loose && (p.at(i, '.') || p.at(i, '@')) {
		return p.cfws(i+1, func(i int) bool { return p.phraseRest(i, v, k) })
	}
	return p.word(i, func(j int, w string) bool {
		if v == "" { // only empty quoted strings so far
			return p.phraseRest(j, w, k)
		}
		return p.phraseRest(j, v+" "+w, k)
	})
}

// localPart reads the part before the at sign.
func (p *ref) localPart(i int, k func(int, string) bool) bool {
	if p.cfws(i, func(i int) bool {
		end := func(j int, v string) bool {
			return p.cfws(j, func(j int) bool { return k(j, v) })
		}
		return p.dotAtom(i, end) || p.quoted(i, end)
	}) {
		return true
	}
	return p.loose && p.obsLocal(i, k)
}

func (p *ref) obsLocal(i int, k func(int, string) bool) bool {
	return p.word(i, func(j int, v string) bool {
		if k(j, v) {
			return true
		}
		return p.at(j, '.') && p.obsLocal(j+1, func(n int, w string) bool { return k(n, v+"."+w) })
	})
}

// domain reads the part after it.
func (p *ref) domain(i int, k func(int, string) bool) bool {
	if p.cfws(i, func(i int) bool {
		end := func(j int, v string) bool {
			return p.cfws(j, func(j int) bool { return k(j, v) })
		}
		return p.dotAtom(i, end) || p.literal(i, end)
	}) {
		return true
	}
	return p.loose && p.obsDomain(i, k)
}

func (p *ref) obsDomain(i int, k func(int, string) bool) bool {
	return p.cfws(i, func(i int) bool {
		return p.atext(i, func(j int, v string) bool {
			return p.cfws(j, func(j int) bool {
				if k(j, v) {
					return true
				}
				return p.at(j, '.') && p.obsDomain(j+1, func(n int, w string) bool { return k(n, v+"."+w) })
			})
		})
	})
}

func (p *ref) literal(i int, k func(int, string) bool) bool {
	return p.at(i, '[') && p.dcontent(i+1, false, "[", k)
}

func (p *ref) dcontent(i int, white bool, v string, k func(int, string) bool) bool {
	if p.at(i, ']') {
		return k(i+1, v+"]")
	}
	if p.is(i, refDtext) {
		return p.dcontent(i+1, false, v+string(p.s[i]), k)
	}
	if !white {
		return p.fws(i, func(j int, ws string) bool { return p.dcontent(j, true, v+ws, k) })
	}
	return false
}

func (p *ref) addrSpec(i int, k func(int, string) bool) bool {
	return p.localPart(i, func(j int, l string) bool {
		return p.at(j, '@') && p.domain(j+1, func(n int, d string) bool {
			v := l + "@" + d
			if k(n, v) {
				return true
			}
			if !p.loose || !p.at(n, ':') {
				return false
			}
			for n++; p.is(n, digits); n++ {
				if k(n+1, v) {
					return true
				}
			}
			return false
		})
	})
}

// angle reads an address in angle brackets.
func (p *ref) angle(i int, k func(int, string) bool) bool {
	return p.cfws(i, func(i int) bool {
		if !p.at(i, '<') {
			return false
		}
		end := func(j int, v string) bool {
			return p.at(j, '>') && p.cfws(j+1, func(j int) bool { return k(j, v) })
		}
		if p.addrSpec(i+1, end) {
			return true
		}
		return p.loose && (end(i+1, "") || p.route(i+1, false, func(j int) bool { return p.addrSpec(j, end) }))
	})
}

// route reads a source route up to its colon.
func (p *ref) route(i int, some bool, k func(int) bool) bool {
	return p.cfws(i, func(i int) bool {
		if some && p.at(i, ':') && k(i+1) {
			return true
		}
		if p.at(i, ',') && p.route(i+1, some, k) {
			return true
		}
		return p.at(i, '@') && p.domain(i+1, func(j int, _ string) bool {
			if p.at(j, ':') {
				return k(j + 1)
			}
			return p.at(j, ',') && p.route(j+1, true, k)
		})
	})
}

func (p *ref) mailbox(i int, k func(int, []box) bool) bool {
	if p.addrSpec(i, func(j int, a string) bool { return k(j, []box{{"", a}}) }) {
		return true
	}
	if p.angle(i, func(j int, a string) bool { return k(j, []box{{"", a}}) }) {
		return true
	}
	return p.phrase(i, func(j int, n string) bool {
		return p.angle(j, func(j int, a string) bool { return k(j, []box{{n, a}}) })
	})
}

func (p *ref) group(i int, k func(int, []box) bool) bool {
	if p.groupIn(i, false, k) {
		return true
	}
	return p.loose && p.cfws(i, func(i int) bool { return p.at(i, '"') && p.groupIn(i+1, true, k) })
}

func (p *ref) groupIn(i int, wrapped bool, k func(int, []box) bool) bool {
	return p.phrase(i, func(j int, _ string) bool {
		if !p.at(j, ':') {
			return false
		}
		end := func(j int, b []box) bool {
			if wrapped {
				// the semicolon on either side of the closing quote
				if p.at(j, ';') {
					j++
				}
				if !p.at(j, '"') {
					return false
				}
				j++
				return p.at(j, ';') && p.cfws(j+1, func(j int) bool { return k(j, b) }) || p.cfws(j, func(j int) bool { return k(j, b) })
			}
			if p.at(j, ';') && p.cfws(j+1, func(j int) bool { return k(j, b) }) {
				return true
			}
			return p.loose && p.cfws(j, func(j int) bool { return k(j, b) })
		}
		if p.cfws(j+1, func(j int) bool { return end(j, nil) }) {
			return true
		}
		if p.loose && p.commas(j+1, func(j int) bool { return end(j, nil) }) {
			return true
		}
		return p.list(j+1, p.mailbox, false, nil, false, end)
	})
}

// commas reads empty elements alone.
func (p *ref) commas(i int, k func(int) bool) bool {
	return p.cfws(i, func(i int) bool {
		return p.at(i, ',') && (p.cfws(i+1, k) || p.commas(i+1, k))
	})
}

// list reads elements between commas; loosely, empty ones too, and semicolons
// between them where semi is set.
func (p *ref) list(i int, elem func(int, func(int, []box) bool) bool, semi bool, b []box, some bool, k func(int, []box) bool) bool {
	if elem(i, func(j int, e []box) bool {
		n := append(append([]box{}, b...), e...)
		if k(j, n) {
			return true
		}
		return (p.at(j, ',') || p.loose && semi && p.at(j, ';')) && p.list(j+1, elem, semi, n, true, k)
	}) {
		return true
	}
	if !p.loose {
		return false
	}
	return p.cfws(i, func(j int) bool {
		if some && k(j, b) {
			return true
		}
		return (p.at(j, ',') || semi && p.at(j, ';')) && p.list(j+1, elem, semi, b, some, k)
	})
}

func (p *ref) address(i int, k func(int, []box) bool) bool {
	return p.mailbox(i, k) || p.group(i, k)
}

// refRead reads a whole address list.
func refRead(s []rune, loose bool) (out []box, ok bool) {
	p := &ref{s, loose}
	if loose && len(s) == 0 {
		return nil, true
	}
	ok = p.list(0, p.address, true, nil, false, func(j int, b []box) bool {
		if j != len(s) {
			return false
		}
		out = b
		return true
	})
	return
}
