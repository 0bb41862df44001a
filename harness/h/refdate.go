package h

import "vpharness/vp"

// A reference reader for date-times, written from RFC 5322 alone, in the
// manner of ref.go.

// stamp is what a date-time says.
type stamp struct{ d, m, y, ydigits, hh, mm, ss, off int }

// gap reads folding white space, which must be there.
func (p *ref) gap(i int, k func(int) bool) bool {
	return p.fws(i, func(j int, _ string) bool { return k(j) })
}

// gap0 reads white space or, loosely, comments too; there may be none.
func (p *ref) gap0(i int, k func(int) bool) bool {
	if p.loose {
		return p.cfws(i, k)
	}
	return k(i) || p.gap(i, k)
}

// name reads one of the names, and tells which.
func (p *ref) name(i int, names []string, k func(int, int) bool) bool {
	for n, s := range names {
		j := 0
		for j < len(s) && p.is(i+j, []rune{rune(s[j]), rune(s[j]), rune(s[j]) - 32, rune(s[j]) - 32}) {
			j++
		}
		if j == len(s) && k(i+j, n) {
			return true
		}
	}
	return false
}

// number reads lo to hi digits, as many as there are.
func (p *ref) number(i, lo, hi int, k func(int, int) bool) bool {
	v, j := 0, i
	for j-i < hi && p.is(j, digits) {
		v = v*10 + int(p.s[j]-'0')
		j++
	}
	return j-i >= lo && k(j, v)
}

// field is a number with comments and white space around it where these are
// obsolete, and none otherwise.
func (p *ref) field(i, lo, hi int, k func(int, int) bool) bool {
	if !p.loose {
		return p.number(i, lo, hi, k)
	}
	return p.cfws(i, func(i int) bool {
		return p.number(i, lo, hi, func(j, v int) bool {
			return p.cfws(j, func(j int) bool { return k(j, v) })
		})
	})
}

var dayNames = []string{"mon", "tue", "wed", "thu", "fri", "sat", "sun"}

func (p *ref) dateTime(i int, k func(int, stamp) bool) bool {
	if p.gap0(i, func(i int) bool {
		return p.name(i, dayNames, func(j, _ int) bool {
			end := func(j int) bool { return p.at(j, ',') && p.day(j+1, k) }
			if p.loose {
				return p.cfws(j, end)
			}
			return end(j)
		})
	}) {
		return true
	}
	return p.day(i, k)
}

func (p *ref) day(i int, k func(int, stamp) bool) bool {
	return p.gap0(i, func(i int) bool {
		return p.number(i, 1, 2, func(j, d int) bool {
			month := func(j int) bool {
				return p.name(j, monthNames, func(j, m int) bool { return p.year(j, stamp{d: d, m: m + 1}, k) })
			}
			if p.loose {
				return p.cfws(j, month)
			}
			return p.gap(j, month)
		})
	})
}

func (p *ref) year(i int, s stamp, k func(int, stamp) bool) bool {
	rd := func(gap func(int, func(int) bool) bool, n int) bool {
		return gap(i, func(i int) bool {
			return p.number(i, n, n, func(j, y int) bool {
				s.y, s.ydigits = y, n
				return gap(j, func(j int) bool { return p.time(j, s, k) })
			})
		})
	}
	if rd(p.gap, 4) {
		return true
	}
	return p.loose && (rd(p.cfws, 2) || rd(p.cfws, 4))
}

func (p *ref) time(i int, s stamp, k func(int, stamp) bool) bool {
	lo := 2
	if p.loose {
		lo = 1
	}
	return p.field(i, lo, 2, func(i, v int) bool {
		s.hh = v
		return p.at(i, ':') && p.field(i+1, 2, 2, func(i, v int) bool {
			s.mm = v
			if p.at(i, ':') {
				return p.field(i+1, 2, 2, func(i, v int) bool {
					s.ss = v
					return p.zone(i, s, k)
				})
			}
			return p.zone(i, s, k)
		})
	})
}

func (p *ref) zone(i int, s stamp, k func(int, stamp) bool) bool {
	end := func(i int) bool { return p.cfws(i, func(i int) bool { return k(i, s) }) }
	off := func(i int) bool {
		neg := p.at(i, '-')
		if neg || p.at(i, '+') {
			i++
		} else if !p.loose {
			return false
		}
		return p.number(i, 4, 4, func(j, v int) bool {
			s.off = v/100*3600 + v%100*60
			if neg {
				s.off = -s.off
			}
			return end(j)
		})
	}
	if p.loose {
		return p.cfws(i, off) || p.cfws(i, func(i int) bool { return p.name(i, zoneNames, func(j, _ int) bool { return end(j) }) }) || end(i)
	}
	if p.gap(i, off) {
		return true
	}
	// the obsolete names
	return p.gap0(i, func(i int) bool {
		return p.name(i, zoneNames, func(j, n int) bool {
			s.off = zoneHours[n] * 3600
			return end(j)
		})
	})
}

// refDate reads a whole date-time.
func refDate(t []rune, loose bool) (out stamp, ok bool) {
	p := &ref{t, loose}
	if loose && len(t) == 0 {
		return stamp{}, true
	}
	ok = p.dateTime(0, func(j int, s stamp) bool {
		if j != len(t) {
			return false
		}
		out = s
		return true
	})
	return
}

// valid tells whether the fields are those of a real date and time.
func (s stamp) valid() bool {
	leap := vp.And(s.y%4 == 0, vp.Or(s.y%100 != 0, s.y%400 == 0))
	n := monthLen[s.m-1]
	if s.m == 2 {
		n = vp.IteInt(leap, 29, 28)
	}
	return vp.And(s.d >= 1, s.d <= n, s.hh <= 23, s.mm <= 59, s.ss <= 60)
}
