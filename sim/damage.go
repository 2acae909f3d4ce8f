package main

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"
)

// Data which a bank delivers intact on the message level but which are
// unreadable in themselves. The entry concerned cannot be reported, so that
// the operation must not report success.

var (
	txLine  = regexp.MustCompile(`\r\n:61:(\d{6})(\d{4})?(R?[CD])([A-Z]?)(\d+,\d*)N`)
	balLine = regexp.MustCompile(`\r\n:6[02][FM]:[CD](\d{6})([A-Z]{3})(\d+,\d*)`)
)

var badAmounts = []string{"X1,00", "1X,00", "1,X", "1,2,3", "1.2,3", "1;00", "--1,00", "1 0,00", "X"}
var badDates = []string{"201301", "210001", "210432", "21A101", "2101 1", "------", "210100"}

var tagOf = regexp.MustCompile(`^:\d+[A-Z]?:`)

// oddLines are values of S.W.I.F.T. tags which are not as they should be.
var oddLines = map[string][]string{
	":25:":  {"", "12345678", "/", "//", "10010010/", "/123", "1/2/3", "DE02100100100006820101", "0"},
	":28C:": {"", "/", "1/", "/1", "x/1", "1/x", "1/2/3", "99999999999999999999/1", "-1/-1"},
	":60":   {"", "C", "C21", "C210101", "C210101EUR", "C210101EU", "X210101EUR1,00", "210101EUR1,00", "C210101EUR1"},
	":62":   {"", "C", "C21", "C210101", "C210101EUR", "C210101EU", "X210101EUR1,00", "210101EUR1,00", "C210101EUR1"},
	":61:":  {"", "2", "210101", "21010101", "2101010101", "2101010101D", "210101D1", "210101D1,00", "210101D1,00N", "210101D1,00NMSC", "210101D1,00NM//", "210101DRR1,00NMSC//", "210101NMSCNONREF", "2101010101NMSCNONREF//1", "210101RD1,00NMSC", "210101R1,00NMSC", "210101Ä1,00NMSC", "210101D1,00NMSC//\r\n/", "210101D1,00NMSC\r\n/OCMT/EUR1,00//"},
	":86:":  {"", "1", "16", "166", "166?", "166?0", "166?00", "166?2", "166?99x", "166??", "?00x", "?", "166?20?21?22", "166?60?61?62?63", "abc?00x", "166?3", "166?30?31?32?33?34x", "99999999999999999999?00x"},
	":20:":  {"", "/", "x"},
	":21:":  {"", "/", "x"},
}

func splice(b []byte, i, j int, s string) []byte {
	return append(append(append([]byte{}, b[:i]...), s...), b[j:]...)
}

// damageMT940 makes statements unreadable. The result says what was done and
// whether it leaves no way to read them (must) or only a doubtful one.
func damageMT940(s *stream, raw []byte, last bool) (out []byte, what string, must bool) {
	try := func(k int) bool {
		switch k {
		case 0, 1:
			m := txLine.FindAllSubmatchIndex(raw, -1)
			if len(m) == 0 {
				return false
			}
			x := m[s.N(len(m))]
			if k == 0 {
				v := badAmounts[s.N(len(badAmounts))]
				if v[0] < '0' || v[0] > '9' {
					v = "1" + v // the mark ends with the first digit
				}
				out, what, must = splice(raw, x[10], x[11], v), "booking with amount "+v, true
			} else {
				v := badDates[s.N(len(badDates))]
				out, what, must = splice(raw, x[2], x[3], v), "booking with date "+v, true
			}
		case 2:
			m := balLine.FindAllSubmatchIndex(raw, -1)
			if len(m) == 0 {
				return false
			}
			x := m[s.N(len(m))]
			if s.N(2) == 0 {
				v := badAmounts[s.N(len(badAmounts))]
				out, what, must = splice(raw, x[6], x[7], v), "balance with amount "+v, true
			} else {
				v := badDates[s.N(len(badDates))]
				out, what, must = splice(raw, x[2], x[3], v), "balance with date "+v, true
			}
		case 3: // the end is missing
			if !last || len(raw) < 4 {
				return false
			}
			c := 3 + s.N(len(raw)-3)
			if n := len(raw) - 3; s.N(3) == 0 {
				if n > 40 {
					n = 40
				}
				c = len(raw) - 1 - s.N(n)
			}
			if s.N(3) == 0 { // at the end of a line
				if i := bytes.LastIndex(raw[:c], []byte("\r\n")); i > 0 {
					c = i + 2
				}
			}
			if i := bytes.LastIndex(raw[:c], []byte("\r\n-")); i >= 0 && strings.Trim(string(raw[i+3:c]), "\r\n") == "" {
				return false
			}
			out, what, must = raw[:c], fmt.Sprintf("statements cut after %d of %d bytes", c, len(raw)), true
		default: // lines missing, repeated or of an unknown kind
			lines := strings.SplitAfter(string(raw), "\r\n")
			i := s.N(len(lines))
			switch s.W(1, 1, 2, 1, 5) {
			case 0:
				what = fmt.Sprintf("line %q missing", lines[i])
				lines = append(lines[:i], lines[i+1:]...)
			case 1:
				what = fmt.Sprintf("line %q twice", lines[i])
				lines = append(lines[:i], append([]string{lines[i]}, lines[i:]...)...)
			case 2:
				x := []string{":99:abc\r\n", ":86:\r\n", ":25:12345678\r\n", ":61:\r\n", ":\r\n", ":28C:\r\n", ":60F:\r\n", ":25:DE02100100100006820101\r\n", "::\r\n", ":86:166\r\n", ":61:2101010101\r\n", ":61:210101D1,00\r\n", "-\r\n", ":62F:C210101EUR\r\n", ":86:?\r\n", ":86:999?2\r\n"}
				l := x[s.N(len(x))]
				what = fmt.Sprintf("line %q inserted", l)
				lines = append(lines[:i], append([]string{l}, lines[i:]...)...)
			case 4: // an odd line of the same kind
				for n := 0; n < 20 && (len(lines[i]) == 0 || lines[i][0] != ':'); n++ {
					i = s.N(len(lines))
				}
				tag := tagOf.FindString(lines[i])
				x := oddLines[tag]
				if len(tag) > 2 && x == nil {
					x = oddLines[tag[:3]]
				}
				if x == nil {
					x = []string{"", "/", "x", "0"}
				}
				l := tag + x[s.N(len(x))] + "\r\n"
				what = fmt.Sprintf("line %q for %q", l, lines[i])
				lines[i] = l
			default:
				l := lines[i]
				if k := len(l); k > 3 {
					k = 1 + s.N(k-2)
					lines[i] = l[:k] + "\r\n"
					what = fmt.Sprintf("line %q cut to %q", l, l[:k])
				}
			}
			out = []byte(strings.Join(lines, ""))
		}
		return true
	}
	for i := 0; i < 20; i++ {
		if try(s.N(6)) {
			return
		}
	}
	return raw, "", false
}

var (
	reBalGroup  = regexp.MustCompile(`^[CD]:[0-9]+,[0-9]*:[A-Z]{3}:[0-9]{8}`)
	reValGroup  = regexp.MustCompile(`^[0-9]+,[0-9]*:[A-Z]{3}$`)
	reTimeGroup = regexp.MustCompile(`^(19|20)[0-9]{6}(:[0-9]{6})?$`)
)

// damageBalance makes a balance unreadable.
func damageBalance(s *stream, des []string) ([]string, string) {
	des = append([]string{}, des...)
	if len(des) < 4 {
		return des, ""
	}
	c := strings.Split(des[3], ":")
	if len(c) < 4 {
		return des, ""
	}
	switch s.N(5) {
	case 0: // the entry lacks what it is about
		i := 3 * s.N(2)
		des[i] = ""
		return des, fmt.Sprintf("balance without element %d", i+2)
	case 1:
		k := 1 + s.N(3)
		return des[:k], fmt.Sprintf("balance of %d elements", k)
	case 2: // one of the groups
		var l []int
		for i := 3; i < len(des); i++ {
			if reBalGroup.MatchString(des[i]) || reValGroup.MatchString(des[i]) || reTimeGroup.MatchString(des[i]) {
				l = append(l, i)
			}
		}
		i := l[s.N(len(l))]
		c := strings.Split(des[i], ":")
		switch {
		case reBalGroup.MatchString(des[i]):
			if s.N(2) == 0 {
				c = c[:1+s.N(3)]
			} else {
				c[1] = []string{"X1,00", "1X,00", "1,2,3", "X"}[s.N(4)]
			}
		case reValGroup.MatchString(des[i]):
			if s.N(2) == 0 {
				c = c[:1]
			} else {
				c[0] = []string{"X1,00", "1X,00", "1,2,3", "X"}[s.N(4)]
			}
		default:
			c[0] = []string{"20211301", "2021AB01", "20210432", "X"}[s.N(4)]
		}
		des[i] = strings.Join(c, ":")
		return des, fmt.Sprintf("balance with element %d %s", i+2, des[i])
	}
	if s.N(2) == 0 {
		c[1] = []string{"X1,00", "1X,00", "1,2,3", "1.2,3", "X"}[s.N(5)]
	} else {
		c[3] = []string{"20211301", "2021AB01", "20210432", "X"}[s.N(4)]
	}
	des[3] = strings.Join(c, ":")
	return des, "balance " + des[3]
}

// damageStatus makes a protocol entry unreadable.
func damageStatus(s *stream, des []string) ([]string, string) {
	des = append([]string{}, des...)
	if len(des) < 5 {
		return des, ""
	}
	switch s.N(5) {
	case 0:
		i := 2 + s.N(3)
		des[i] = ""
		return des, fmt.Sprintf("protocol entry without element %d", i+2)
	case 1:
		k := 2 + s.N(3)
		return des[:k], fmt.Sprintf("protocol entry of %d elements", k)
	}
	i := 2 + s.N(2)
	if i == 2 {
		des[2] = []string{"20211301", "2021AB01", "20210432", "X"}[s.N(4)]
	} else {
		des[3] = []string{"250000", "12AB00", "X", "126100"}[s.N(4)]
	}
	return des, fmt.Sprintf("protocol entry at %s %s", des[2], des[3])
}
