package main

import (
	"fmt"
	"strings"
	"time"
)

// Generators for the values a bank and a caller use. The first alternative of
// every draw is the plainest one.

var plainWords = []string{"Konto", "Miete", "Rechnung 4711", "Gehalt", "Lastschrift", "ACME GmbH", "Max Mustermann", "Gutschrift"}

const specials = "+:'?@"
const umlauts = "\u00e4\u00f6\u00fc\u00c4\u00d6\u00dc\u00df\u00e9\u00a7\u00b5\u00ff\u00d1"

// genText draws a non-empty text for a FinTS element: at most max characters.
func genText(s *stream, max int) string {
	var t string
	switch s.W(4, 3, 3, 2, 1) {
	case 0:
		t = plainWords[s.N(len(plainWords))]
	case 1: // syntax characters
		t = mix(s, "Ab9 ", specials, s.R(1, 12))
	case 2: // umlauts
		t = mix(s, "Stra", umlauts, s.R(1, 14))
	case 3: // everything
		t = mix(s, "x1.,-/()&%$#", specials+umlauts+"_*;<>=!\"^`~{}[]|\\", s.R(1, 25))
	case 4: // only special characters
		t = mix(s, specials, specials, s.R(1, 4))
	}
	r := []rune(t)
	if len(r) > max {
		r = r[:max]
	}
	return string(r)
}

func mix(s *stream, a, b string, n int) string {
	ra, rb := []rune(a), []rune(b)
	var out []rune
	for i := 0; i < n; i++ {
		if s.N(2) == 0 {
			out = append(out, ra[s.N(len(ra))])
		} else {
			out = append(out, rb[s.N(len(rb))])
		}
	}
	return string(out)
}

// genID draws an identification without blanks.
func genID(s *stream, max int) string {
	base := fmt.Sprintf("%c%d", 'A'+rune(s.N(26)), s.R(1, 99999))
	switch s.W(4, 3, 2, 1) {
	case 1:
		base += mix(s, "xyz09", specials, s.R(1, 6))
	case 2:
		base += mix(s, "xyz09", specials+"\u00e4\u00fc\u00df=/.-_", s.R(1, 10))
	case 3:
		base = mix(s, specials, "QX", s.R(1, 4)) + base
	}
	r := []rune(base)
	if len(r) > max {
		r = r[:max]
	}
	return string(r)
}

// genRef draws a continuation reference.
func genRef(s *stream) string {
	switch s.W(3, 2, 2, 1, 1) {
	case 4:
		return mix(s, "abcXYZ0189", specials, s.R(36, 80)) + "."
	case 0:
		return fmt.Sprintf("REF%d", s.N(1000))
	case 1:
		return mix(s, "abcXYZ0189", specials, s.R(1, 35))
	case 2:
		return mix(s, "abc =/", specials+umlauts, s.R(1, 20)) + "!"
	default:
		return strings.Repeat("0", s.R(1, 34)) + "7"
	}
}

// money is an exact decimal amount.
type money struct {
	cents int64 // signed
	cur   string
	frac  int // decimals to write: 0, 1 or 2
}

var currencies = []string{"EUR", "USD", "CHF", "GBP"}

func genMoney(s *stream, cur string, neg bool) money {
	m := money{cur: cur}
	switch s.W(3, 2, 2, 1, 1) {
	case 0:
		m.cents = int64(s.R(1, 99999))
	case 1:
		m.cents = int64(s.R(1, 999)) * 100
	case 2:
		m.cents = int64(s.R(1, 999)) * 10
	case 3:
		m.cents = int64(s.N(100))
	case 4:
		m.cents = int64(s.R(1000000, 99999999)) * 7
	}
	m.frac = 2
	if m.cents%100 == 0 {
		m.frac = s.N(3)
		if m.frac == 0 {
			m.frac = 2
		} else if m.frac == 2 {
			m.frac = 0
		}
	} else if m.cents%10 == 0 && s.N(2) == 1 {
		m.frac = 1
	}
	if neg {
		m.cents = -m.cents
	}
	return m
}

// abs formats the amount without sign with a decimal comma.
func (m money) abs() string {
	c := m.cents
	if c < 0 {
		c = -c
	}
	switch m.frac {
	case 0:
		return fmt.Sprintf("%d,", c/100)
	case 1:
		return fmt.Sprintf("%d,%d", c/100, c%100/10)
	}
	return fmt.Sprintf("%d,%02d", c/100, c%100)
}

func (m money) cd() string {
	if m.cents < 0 {
		return "D"
	}
	return "C"
}

func (m money) String() string {
	c, sign := m.cents, ""
	if c < 0 {
		sign, c = "-", -c
	}
	return fmt.Sprintf("%s%d.%02d %s", sign, c/100, c%100, m.cur)
}

// amt is the canonical form of an amount reported by the library.
func amt(f float64, cur string) string {
	s := fmt.Sprintf("%.2f", f)
	if s == "-0.00" {
		s = "0.00"
	}
	// more than two decimals would be an altered amount
	if x := fmt.Sprintf("%.6f", f); !strings.HasSuffix(x, "0000") {
		s = x
	}
	return s + " " + cur
}

// day is a calendar date.
type day struct{ y, m, d int }

func (d day) t() time.Time   { return time.Date(d.y, time.Month(d.m), d.d, 0, 0, 0, 0, time.UTC) }
func (d day) long() string   { return fmt.Sprintf("%04d%02d%02d", d.y, d.m, d.d) }
func (d day) short() string  { return fmt.Sprintf("%02d%02d%02d", d.y%100, d.m, d.d) }
func (d day) mmdd() string   { return fmt.Sprintf("%02d%02d", d.m, d.d) }
func (d day) String() string { return fmt.Sprintf("%04d-%02d-%02d", d.y, d.m, d.d) }
func (d day) plus(n int) day {
	t := d.t().AddDate(0, 0, n)
	return day{t.Year(), int(t.Month()), t.Day()}
}

func dayOf(t time.Time) day { return day{t.Year(), int(t.Month()), t.Day()} }

// genDay draws a date of a booking.
func genDay(s *stream) day {
	switch s.W(4, 2, 2, 1, 1) {
	case 0:
		return day{2020, 3, 1}.plus(s.N(60))
	case 1:
		return day{2015 + s.N(10), 12, 20}.plus(s.N(24)) // turn of the year
	case 2:
		return day{2016 + 4*s.N(4), 2, 27}.plus(s.N(4)) // leap days
	case 3:
		return day{1980, 1, 1}.plus(s.N(365 * 99))
	default:
		return day{2019, 2, 26}.plus(s.N(5))
	}
}

// tm is a time of day.
type tm struct{ h, m, s int }

func genTime(s *stream) tm {
	switch s.W(3, 1, 1) {
	case 0:
		return tm{s.N(24), s.N(60), s.N(60)}
	case 1:
		return tm{0, 0, 0}
	default:
		return tm{23, 59, 59}
	}
}

func (t tm) wire() string { return fmt.Sprintf("%02d%02d%02d", t.h, t.m, t.s) }
func (t tm) String() string {
	return fmt.Sprintf("%02d:%02d:%02d", t.h, t.m, t.s)
}

// ts is the canonical form of a reported date and time.
func ts(t time.Time) string {
	if t.IsZero() {
		return "-"
	}
	return t.Format("2006-01-02 15:04:05.999999999")
}

func tsp(t *time.Time) string {
	if t == nil {
		return "-"
	}
	return ts(*t)
}
