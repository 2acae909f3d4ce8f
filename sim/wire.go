package main

// An implementation of the FinTS wire syntax that is independent of the code
// under test: the simulated bank uses it to read requests strictly and to
// write replies.

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

// gde is one group data element, unescaped.
type gde struct {
	B   []byte
	Bin bool
}

func (g gde) S() string { return utf(g.B) }

// seg is a parsed segment; DEs excludes the header.
type seg struct {
	ID   string
	Pos  int
	Ver  int
	Ref  int // -1 when absent
	DEs  [][]gde
	Raw  []byte
	Off  int
	Head []gde
}

// de returns group element j of element i, "" when absent.
func (s *seg) de(i, j int) string {
	if i >= len(s.DEs) || j >= len(s.DEs[i]) {
		return ""
	}
	return s.DEs[i][j].S()
}

func (s *seg) deInt(i, j int) int {
	n, err := strconv.Atoi(s.de(i, j))
	if err != nil {
		return -1
	}
	return n
}

func (s *seg) bin(i, j int) ([]byte, bool) {
	if i >= len(s.DEs) || j >= len(s.DEs[i]) {
		return nil, false
	}
	return s.DEs[i][j].B, s.DEs[i][j].Bin
}

// parseSegs splits a message into segments, strictly.
func parseSegs(b []byte) ([]*seg, error) {
	var out []*seg
	pos := 0
	for pos < len(b) {
		s, n, err := parseSeg(b[pos:])
		if err != nil {
			return out, fmt.Errorf("segment %d at byte %d: %w", len(out)+1, pos, err)
		}
		s.Off = pos
		out = append(out, s)
		pos += n
	}
	return out, nil
}

func parseSeg(b []byte) (*seg, int, error) {
	var groups [][]gde
	var cur []gde
	var val []byte
	bin, binDone := false, false
	flushG := func() {
		cur = append(cur, gde{val, bin})
		val, bin, binDone = nil, false, false
	}
	i := 0
	start := true // at start of a group element
	for {
		if i >= len(b) {
			return nil, 0, fmt.Errorf("unterminated segment %q", trunc(b))
		}
		c := b[i]
		switch c {
		case '\'':
			flushG()
			groups = append(groups, cur)
			i++
			s := &seg{Raw: b[:i], Head: groups[0], DEs: groups[1:], Ref: -1}
			h := groups[0]
			if len(h) < 3 || len(h) > 4 {
				return nil, 0, fmt.Errorf("segment header with %d elements: %q", len(h), trunc(s.Raw))
			}
			s.ID = h[0].S()
			var err error
			if s.Pos, err = strictInt(h[1].S()); err != nil {
				return nil, 0, fmt.Errorf("segment position: %w", err)
			}
			if s.Ver, err = strictInt(h[2].S()); err != nil {
				return nil, 0, fmt.Errorf("segment version: %w", err)
			}
			if len(h) == 4 && len(h[3].B) > 0 {
				if s.Ref, err = strictInt(h[3].S()); err != nil {
					return nil, 0, fmt.Errorf("segment reference: %w", err)
				}
			}
			return s, i, nil
		case '+':
			flushG()
			groups = append(groups, cur)
			cur = nil
			start = true
			i++
		case ':':
			flushG()
			start = true
			i++
		case '?':
			if binDone {
				return nil, 0, fmt.Errorf("text after binary data")
			}
			if i+1 >= len(b) {
				return nil, 0, fmt.Errorf("escape at end")
			}
			if !bytes.ContainsRune([]byte("+:'?@"), rune(b[i+1])) {
				return nil, 0, fmt.Errorf("escape of %q", b[i+1])
			}
			val = append(val, b[i+1])
			start = false
			i += 2
		case '@':
			if !start {
				return nil, 0, fmt.Errorf("unescaped @ in text")
			}
			j := bytes.IndexByte(b[i+1:], '@')
			if j < 0 {
				return nil, 0, fmt.Errorf("binary length not terminated")
			}
			n, err := strictInt(string(b[i+1 : i+1+j]))
			if err != nil {
				return nil, 0, fmt.Errorf("binary length: %w", err)
			}
			i += j + 2
			if i+n > len(b) {
				return nil, 0, fmt.Errorf("binary length %d exceeds message", n)
			}
			val = append([]byte{}, b[i:i+n]...)
			bin, binDone = true, true
			start = false
			i += n
		default:
			if binDone {
				return nil, 0, fmt.Errorf("text after binary data")
			}
			val = append(val, c)
			start = false
			i++
		}
	}
}

func trunc(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func strictInt(s string) (int, error) {
	if s == "" || len(s) > 12 {
		return 0, fmt.Errorf("not a number: %q", s)
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, fmt.Errorf("not a number: %q", s)
		}
	}
	return strconv.Atoi(s)
}

// iso encodes a string in ISO 8859-1.
func iso(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r > 255 {
			panic("simulator: text not encodable: " + s)
		}
		b.WriteByte(byte(r))
	}
	return b.String()
}

// utf decodes ISO 8859-1.
func utf(b []byte) string {
	ascii := true
	for _, c := range b {
		if c >= 128 {
			ascii = false
			break
		}
	}
	if ascii {
		return string(b)
	}
	r := make([]rune, len(b))
	for i, c := range b {
		r[i] = rune(c)
	}
	return string(r)
}

// esc encodes and escapes a text element.
func esc(s string) string {
	s = iso(s)
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+', ':', '\'', '?', '@':
			b.WriteByte('?')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// binary encodes binary data.
func binary(b []byte) string { return fmt.Sprintf("@%d@%s", len(b), b) }

// builder writes segments with consecutive positions.
type segWriter struct {
	buf bytes.Buffer
	pos int
}

func (w *segWriter) add(id string, ver, ref int, des ...string) {
	w.pos++
	if ref > 0 {
		fmt.Fprintf(&w.buf, "%s:%d:%d:%d", id, w.pos, ver, ref)
	} else {
		fmt.Fprintf(&w.buf, "%s:%d:%d", id, w.pos, ver)
	}
	// trailing empty elements may be left out
	n := len(des)
	for n > 0 && des[n-1] == "" {
		n--
	}
	for _, d := range des[:n] {
		w.buf.WriteByte('+')
		w.buf.WriteString(d)
	}
	w.buf.WriteByte('\'')
}

// grp joins group elements, dropping trailing empty ones.
func grp(e ...string) string {
	n := len(e)
	for n > 0 && e[n-1] == "" {
		n--
	}
	return strings.Join(e[:n], ":")
}
