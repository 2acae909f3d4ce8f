package main

import (
	"fmt"
	"net/url"
	"strings"

	"github.com/mitch000001/go-hbci/client"
)

// dirEntry is what the bank directory says about an institute; the table is
// extracted from the data file when the simulator is built.
type dirEntry struct {
	code, bic, url string
	version        int
}

var (
	dirByCode = map[string][]dirEntry{}
	dirCodes  []string
	dirOdd    []string // codes with an entry that differs from the usual ones
)

func init() {
	usual := func(e dirEntry) bool { return e.url != "" && e.version == 300 }
	for _, m := range directoryTable {
		e := dirEntry{m["BankID"], m["BIC"], m["URL"], dirVersion(m["VersionName"], m["VersionNumber"])}
		if dirByCode[e.code] == nil {
			dirCodes = append(dirCodes, e.code)
		}
		dirByCode[e.code] = append(dirByCode[e.code], e)
	}
	for _, c := range dirCodes {
		for _, e := range dirByCode[c] {
			if !usual(e) {
				dirOdd = append(dirOdd, c)
				break
			}
		}
	}
}

// dirVersion is the protocol version named by an entry, 0 when there is none.
// If both columns name one, the higher version counts.
func dirVersion(name, number string) int {
	n := map[string]int{"HBCI 2.2 Erweiterung PIN/TAN V1.01": 220, "FinTS V3.0": 300, "FinTS V4.0": 400, "FinTS V4.1": 410}[name]
	v := map[string]int{"2.1": 210, "2.2": 220, "3.0": 300, "4.0": 400, "4.1": 410}[number]
	if v > n {
		return v
	}
	return n
}

// usable are the listings of a bank with an access address; without any, all listings.
func usable(code string) []dirEntry {
	var l []dirEntry
	for _, e := range dirByCode[code] {
		if e.url != "" {
			l = append(l, e)
		}
	}
	if l == nil {
		l = dirByCode[code]
	}
	return l
}

// genCode draws a bank code.
func genCode(g *stream) string {
	switch g.W(5, 3, 1, 1) {
	case 1:
		return dirOdd[g.N(len(dirOdd))]
	case 2:
		c := dirCodes[g.N(len(dirCodes))]
		switch g.N(4) {
		case 0:
			return c[:len(c)-1]
		case 1:
			return c + "0"
		case 2:
			return " " + c
		}
		return fmt.Sprintf("%08d", 99000000+g.N(999999))
	case 3:
		if g.N(2) == 0 {
			return ""
		}
		return fmt.Sprintf("%08d", g.N(100000000))
	}
	return dirCodes[g.N(len(dirCodes))]
}

// directory creates clients from the bank directory and explicit settings.
func (w *world) directory(t *tape) {
	g := t.Gen
	n := 1 + g.N(3)
	for i := 0; i < n; i++ {
		w.session(i, t, func(s *sess) {
			s.code = genCode(g)
			expURL, expVer := g.P(45), g.P(45)
			ents := usable(s.code)
			ver, addr, why := 0, "", ""
			if expURL {
				addr = fmt.Sprintf("https://%s/a/%d?x=1", s.host, g.N(9))
			}
			cfgVer := 0
			if expVer {
				cfgVer = []int{300, 220, 210, 400, 410, 301, 3, 1}[g.W(5, 5, 1, 1, 1, 1, 1, 1)]
				ver = cfgVer
			}
			// which listing counts is only open where several differ
			if !expURL {
				if len(ents) > 0 {
					addr = ents[0].url
				}
				for _, e := range ents {
					if e.url != addr || e.version != ents[0].version {
						why = "?"
					}
				}
			}
			if !expVer && len(ents) > 0 {
				ver = ents[0].version
			}
			if why == "?" {
				why = ""
				w.st.check("ambiguous-entry")
				s.code = "10010010"
				ents = usable(s.code)
				if !expURL {
					addr = ents[0].url
				}
				if !expVer {
					ver = ents[0].version
				}
			}
			switch {
			case addr == "":
				why = "no address known"
			case ver != 220 && ver != 300:
				why = fmt.Sprintf("unsupported version %d", ver)
			}
			if s.code == "" && why == "" {
				s.code = "99999999"
			}
			s.newFails = why
			s.hbci = ver
			if why != "" && ver != 220 {
				s.hbci = 300
			}
			s.url = addr
			if u, err := url.Parse(addr); err == nil && addr != "" {
				s.host = u.Host
				if s.viaHTTP {
					s.url = u.String()
				}
			}
			w.st.States[fmt.Sprint("dir", expURL, expVer, len(ents), why)]++
			s.conf = func(c *client.Config) {
				c.URL, c.HBCIVersion = "", cfgVer
				if expURL {
					c.URL = addr
				}
			}
			w.mix("dir", s.code, addr, fmt.Sprint(cfgVer), why)
			w.tr("s%d bank %q explicit url=%v version=%d expects %q %d %q", i, s.code, expURL, cfgVer, addr, ver, strings.TrimSpace(why))
		})
	}
}
