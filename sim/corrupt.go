package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

// corrupt damages a reply. Most damage is structural, so that what arrives is
// still close to a valid message; the encrypted envelope is rebuilt around
// damaged content in most cases.
func corrupt(s *sess, raw []byte) []byte {
	F := s.t.Fault
	head, inner, tail := splitEnvelope(raw)
	n := 1 + F.W(5, 2, 1)
	for i := 0; i < n; i++ {
		if inner != nil && F.W(5, 1) == 0 {
			inner = damage(F, inner)
		} else if inner != nil {
			switch F.N(3) {
			case 0:
				head = damage(F, head)
			case 1:
				tail = damage(F, tail)
			default: // the length of the envelope lies
				l := lieLen(F, len(inner))
				return append(append(append(append([]byte{}, head...), []byte("@"+l+"@")...), inner...), tail...)
			}
		} else {
			raw = damage(F, raw)
		}
	}
	if inner == nil {
		return raw
	}
	return append(append(append(append([]byte{}, head...), []byte(binary(inner))...), tail...))
}

func lieLen(F *stream, n int) string {
	switch F.N(9) {
	case 0:
		return strconv.Itoa(n + 1 + F.N(50))
	case 1:
		return strconv.Itoa(F.N(n + 1))
	case 2:
		return "999999999"
	case 3:
		return "-1"
	case 4:
		return "99999999999999999999"
	case 5:
		return ""
	case 6:
		return "9223372036854775807"
	case 7:
		return "4294967295"
	default:
		return "1x"
	}
}

// splitEnvelope separates the content of HNVSD.
func splitEnvelope(raw []byte) (head, inner, tail []byte) {
	i := bytes.Index(raw, []byte("HNVSD:999:1+@"))
	if i < 0 {
		return nil, nil, nil
	}
	j := i + len("HNVSD:999:1+@")
	k := bytes.IndexByte(raw[j:], '@')
	if k < 0 {
		return nil, nil, nil
	}
	n, err := strconv.Atoi(string(raw[j : j+k]))
	if err != nil || j+k+1+n > len(raw) {
		return nil, nil, nil
	}
	return raw[:j-1], append([]byte{}, raw[j+k+1:j+k+1+n]...), raw[j+k+1+n:]
}

var junk = []string{"", "0", "-1", "99999999999999999999", "X", "+", ":", "'", "?", "@", "@5@", "@999999999@", "@-3@x", "\x00", "\xff\xfe",
	"20201301", "00000000", "20200230", "251561", "J", "N", "1,2,3", ",", "1:2:3:4:5:6:7:8:9", "++++++++++", "EUR", "D", "?'", "?+", "3040", "9050::x", "3040::weiter", "3920::ok", ":::::", "1,", "C:1,:EUR:20200101:120000", "HNHBS", "\r\n:20:X", "\r\n-", ":86:", ":61:"}

func damage(F *stream, b []byte) []byte {
	if len(b) == 0 {
		return []byte(junk[F.N(len(junk))])
	}
	ins := func(at, del int, x []byte) []byte {
		return append(append(append([]byte{}, b[:at]...), x...), b[at+del:]...)
	}
	switch F.W(4, 3, 3, 3, 3, 2, 2, 3, 3, 2, 3) {
	case 0: // replace one element
		lo, hi := pickElem(F, b)
		return ins(lo, hi-lo, []byte(junk[F.N(len(junk))]))
	case 1: // remove one element
		lo, hi := pickElem(F, b)
		return ins(lo, hi-lo, nil)
	case 2: // remove an element with its separator
		lo, hi := pickElem(F, b)
		if hi < len(b) {
			hi++
		}
		return ins(lo, hi-lo, nil)
	case 3: // shorten a segment
		sg := segBounds(b)
		x := sg[F.N(len(sg))]
		if x[1]-x[0] < 3 {
			return b
		}
		lo := x[0] + 1 + F.N(x[1]-x[0]-1)
		if F.N(3) > 0 { // at an element boundary
			for lo < x[1]-1 && b[lo] != '+' && b[lo] != ':' {
				lo++
			}
		}
		return ins(lo, x[1]-1-lo, nil)
	case 4: // remove, repeat or move a segment
		sg := segBounds(b)
		x := sg[F.N(len(sg))]
		seg := append([]byte{}, b[x[0]:x[1]]...)
		switch F.N(3) {
		case 0:
			return ins(x[0], x[1]-x[0], nil)
		case 1:
			return ins(x[1], 0, seg)
		default:
			y := sg[F.N(len(sg))]
			if y[0] >= x[1] {
				c := append(append(append([]byte{}, b[:x[0]]...), b[x[1]:y[1]]...), seg...)
				return append(c, b[y[1]:]...)
			}
			return ins(y[0], 0, seg)
		}
	case 5: // damage a byte
		i := F.N(len(b))
		return ins(i, 1, []byte{byte(F.N(256))})
	case 6: // insert or remove a syntax character
		i := F.N(len(b))
		if F.N(2) == 0 {
			return ins(i, 1, nil)
		}
		return ins(i, 0, []byte{"+:'?@\x00\n-"[F.N(8)]})
	case 7: // version or name of a segment
		sg := segBounds(b)
		x := sg[F.N(len(sg))]
		seg := string(b[x[0]:x[1]])
		p := strings.SplitN(seg, ":", 3)
		if len(p) == 3 {
			switch F.N(4) {
			case 0:
				p[0] = []string{"HIKAZ", "HISAL", "HIPRO", "HIUPD", "HIUPA", "HIBPA", "HISYN", "HIRMG", "HIRMS", "HITANS", "HIKIM", "HIKIF", "HIPINS", "HISALS", "HNVSD", "HITAN", "HIKOM", "HISHV", "HIKPV", "XXXXXX", ""}[F.N(21)]
			case 1:
				j := 0
				for j < len(p[2]) && p[2][j] >= '0' && p[2][j] <= '9' {
					j++
				}
				p[2] = []string{"1", "2", "3", "4", "5", "6", "7", "8", "9", "0", "", "-1"}[F.N(12)] + p[2][j:]
			case 2:
				p[1] = junk[F.N(len(junk))]
			default:
				p = p[:1+F.N(2)]
				p[len(p)-1] += "'"
			}
		}
		return ins(x[0], x[1]-x[0], []byte(strings.Join(p, ":")))
	case 8: // the inside of an S.W.I.F.T. statement, with its length adjusted
		i := bytes.Index(b, []byte("\r\n:20:"))
		if i < 0 {
			lo, hi := pickElem(F, b)
			return ins(lo, hi-lo, []byte(junk[F.N(len(junk))]))
		}
		at := bytes.LastIndexByte(b[:i+1], '@')
		if at < 1 {
			return b
		}
		st := bytes.LastIndexByte(b[:at], '@')
		if st < 0 || st+1 > at {
			return b
		}
		n, err := strconv.Atoi(string(b[st+1 : at]))
		if err != nil || n < 0 || at+1+n > len(b) {
			return b
		}
		c := damageSwift(F, append([]byte{}, b[at+1:at+1+n]...))
		return ins(st, at+1+n-st, []byte(binary(c)))
	case 9: // a segment of another kind is inserted
		sg := segBounds(b)
		x := sg[F.N(len(sg))]
		ids := []string{"HIKAZ", "HISAL", "HIPRO", "HIUPD", "HIUPA", "HIBPA", "HISYN", "HITANS", "HIKIM", "HIPINS", "HIRMG", "HIRMS", "HNVSD", "HNHBS", "HNHBK", "HIKOM", "HIKPV", "HISHV", "HNSHK", "HITAN"}
		sgm := fmt.Sprintf("%s:%d:%d", ids[F.N(len(ids))], F.N(9), F.N(9))
		for k := F.N(6); k > 0; k-- {
			sgm += "+" + junk[F.N(len(junk))]
		}
		return ins(x[1], 0, []byte(sgm+"'"))
	default: // repeat an element many times
		lo, hi := pickElem(F, b)
		el := append([]byte{[]byte("+:")[F.N(2)]}, b[lo:hi]...)
		return ins(hi, 0, bytes.Repeat(el, []int{1, 2, 7, 40, 400}[F.N(5)]))
	}
}

func damageSwift(F *stream, b []byte) []byte {
	lines := strings.Split(string(b), "\r\n")
	i := F.N(len(lines))
	switch F.N(8) {
	case 0:
		lines = append(lines[:i], lines[i+1:]...)
	case 1:
		lines = append(lines[:i+1], append([]string{lines[i]}, lines[i+1:]...)...)
	case 2:
		if len(lines[i]) > 0 {
			lines[i] = lines[i][:F.N(len(lines[i]))]
		}
	case 3:
		lines[i] += junk[F.N(len(junk))]
	case 4:
		if len(lines[i]) > 0 {
			k := F.N(len(lines[i]))
			lines[i] = lines[i][:k] + junk[F.N(len(junk))] + lines[i][k+1:]
		}
	case 5:
		j := F.N(len(lines))
		lines[i], lines[j] = lines[j], lines[i]
	case 6:
		lines[i] = []string{":20:", ":25:", ":28C:", ":60F:", ":61:", ":86:", ":62F:", "-", ":61:2002300230C1,NTRF", ":61:200101C,N", ":60F:C", ":86:1", ":86:166?", ":86:166?2", ":86:166?32A?20B?00C", ":99X:1"}[F.N(16)]
	default:
		lines = lines[:i]
	}
	return []byte(strings.Join(lines, "\r\n"))
}

func segBounds(b []byte) [][2]int {
	var o [][2]int
	lo := 0
	for i := 0; i < len(b); i++ {
		if b[i] == '\'' && (i == 0 || b[i-1] != '?') {
			o = append(o, [2]int{lo, i + 1})
			lo = i + 1
		}
	}
	if lo < len(b) || len(o) == 0 {
		o = append(o, [2]int{lo, len(b)})
	}
	return o
}

func pickElem(F *stream, b []byte) (int, int) {
	// a segment first, so that long ones do not attract everything
	sg := segBounds(b)
	x := sg[F.N(len(sg))]
	var el [][2]int
	lo := x[0]
	for i := x[0]; i < x[1]; i++ {
		c := b[i]
		if (c == '+' || c == ':' || c == '\'') && (i == 0 || b[i-1] != '?') {
			el = append(el, [2]int{lo, i})
			lo = i + 1
		}
	}
	if len(el) == 0 {
		return x[0], x[1]
	}
	e := el[F.N(len(el))]
	return e[0], e[1]
}
