package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"time"

	"golang.org/x/text/encoding/charmap"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/internal"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/transport"
	https "github.com/mitch000001/go-hbci/transport/https"
	mw "github.com/mitch000001/go-hbci/transport/middleware"
	"github.com/mitch000001/go-hbci/zz_verif/simrt"
)

// transports drives complete sessions over HTTP, or the transports and
// middlewares by themselves.
func (w *world) transports(t *tape) {
	if t.Misc.W(2, 1) == 0 {
		w.session(0, t, nil)
		return
	}
	simrt.NowFn = func() time.Time { return simEpoch }
	simrt.SleepFn = func(time.Duration) {}
	simrt.RandFn, simrt.MapPerm = nil, nil
	d := &direct{w: w, t: t}
	d.run()
}

type direct struct {
	w    *world
	t    *tape
	s    *sess // owner of the bodies
	got  []*posted
	plan struct {
		err    error
		status int
		raw    []byte
		end    error
		loc    string
	}
}

type posted struct {
	method, url string
	body        []byte
	ct          string
	err         error
}

func (d *direct) RoundTrip(q *http.Request) (*http.Response, error) {
	resume := simrt.Pause()
	defer resume()
	p := &posted{method: q.Method, url: q.URL.String(), ct: q.Header.Get("Content-Type")}
	d.got = append(d.got, p)
	if q.Body != nil {
		p.body, p.err = io.ReadAll(q.Body)
		q.Body.Close()
		if p.err != nil {
			return nil, p.err
		}
	}
	d.w.st.Exchanges++
	d.w.mix("post", p.url, string(p.body), fmt.Sprint(d.plan.err, d.plan.status, d.plan.end), string(d.plan.raw))
	d.w.tr("   POST %s %q", p.url, p.body)
	if d.plan.err != nil {
		return nil, d.plan.err
	}
	b := d.s.newBody(d.plan.raw, d.plan.end)
	h := http.Header{}
	if d.plan.loc != "" {
		h.Set("Location", d.plan.loc)
	}
	return &http.Response{StatusCode: d.plan.status, Status: fmt.Sprintf("%d X", d.plan.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: b, ContentLength: -1, Request: q}, nil
}

// redirects are the places an answer may point to.
var redirects = []string{"http://elsewhere.example/", "https://elsewhere.example/p?x=1", "http://bank0.example/p0", "/other"}

var errUpload = errors.New("simulated failure reading the request")

// genBytes draws a message body.
func genBytes(g *stream) []byte {
	switch g.W(3, 2, 2, 1) {
	case 1: // a message as the bank sends it
		b := fmt.Sprintf("HIRMG:2:2+0010::%s'HNHBS:3:1+1'", esc(genText(g, 30)))
		h := fmt.Sprintf("HNHBK:1:3+%012d+300+%s+1+x:1'", len(b)+40, esc(genID(g, 8)))
		return []byte(h + b)
	case 2:
		n := []int{0, 1, 2, 3, 4, 5, 57, 58, 511, 512, 513, 1023, 1024, 1025, 3000, 32768, 40000, 65535, 65536, 65537, 100000, 200000}[g.N(22)]
		b := make([]byte, n)
		r := newPrng(uint64(g.N(1 << 20)))
		for i := range b {
			b[i] = byte(r.next())
		}
		return b
	case 3:
		return bytes.Repeat([]byte{byte(g.N(256))}, g.N(50))
	}
	return []byte(iso(genText(g, 40)))
}

func (d *direct) run() {
	w, g, f := d.w, d.t.Gen, d.t.Fault
	debug := g.P(30)
	internal.SetDebugMode(debug)
	defer internal.SetDebugMode(false)
	d.s = &sess{w: w, t: d.t}
	hc := &http.Client{Transport: d}
	old := http.DefaultTransport
	http.DefaultTransport = d
	defer func() { http.DefaultTransport = old }()

	// the chain under test
	enc := base64.StdEncoding
	var tr transport.Transport
	kind := g.N(5)
	b64, utf8, rawOnError := true, false, false
	switch kind {
	case 0:
		tr = mw.Base64Encoding(enc)(https.New())
	case 1:
		tr = https.NewBase64()
		rawOnError = true
	case 2:
		tr = mw.Base64Encoding(enc)(https.NewNonDefault(hc))
	case 3:
		if g.N(2) == 1 {
			enc = base64.URLEncoding
		}
		tr = mw.UTF8Encoding(charmap.ISO8859_1)(mw.Base64Encoding(enc)(https.NewNonDefault(hc)))
		utf8 = true
	case 4:
		tr = https.NewNonDefault(hc)
		b64 = false
	}
	logged := g.P(50)
	var sink bytes.Buffer
	if logged {
		var l *log.Logger
		if g.N(2) == 1 {
			l = log.New(&sink, "x", 0)
		}
		key := domain.NewPinKey("p1234", domain.NewPinTanKeyName(domain.BankID{CountryCode: 280, ID: "10010010"}, "u", "V"))
		tr = mw.Logging(l, message.NewPinTanCryptoProvider(key, "0"))(tr)
	}
	n := 1 + g.N(4)
	w.tr("transport kind %d logged=%v debug=%v", kind, logged, debug)
	for i := 0; i < n; i++ {
		url := fmt.Sprintf("https://bank%d.example/p%d?q=%d", g.N(3), g.N(3), i)
		msg, reply := genBytes(g), genBytes(g)
		var send []byte
		if utf8 {
			send = []byte(utf(msg))
		} else {
			send = msg
		}
		// the network
		d.plan.err, d.plan.status, d.plan.end, d.plan.loc = nil, 200, nil, ""
		raw := reply
		if b64 {
			raw = []byte(enc.EncodeToString(reply))
			switch d.t.Misc.W(4, 1, 1) {
			case 1:
				raw = []byte(breakLines(string(raw), 76, "\r\n"))
			case 2:
				raw = []byte(breakLines(string(raw), 64, "\n"))
			}
		}
		want := reply
		fault, must := "", false
		var upErr error
		if f.P(45) {
			switch f.N(6) {
			case 0:
				fault, must = "connection", true
				d.plan.err = netErr(f, true)
			case 1:
				fault = "status"
				d.plan.status = []int{500, 404, 403, 204, 201, 503, 307, 308}[f.N(8)]
				if d.plan.status/100 == 3 {
					fault = "redirect"
					d.plan.loc = redirects[f.N(len(redirects))]
				}
				must = !rawOnError
				want = raw
			case 2:
				fault, must = "read-error", true
				d.plan.end = netErr(f, false)
				if len(raw) > 0 {
					raw = raw[:f.N(len(raw)+1)]
				}
			case 3:
				if b64 && len(raw) > 0 {
					fault, must = "garbage", true
					k := f.N(len(raw))
					raw = append(append(append([]byte{}, raw[:k]...), "!<>\x00\xff *"[f.N(7)]), raw[k:]...)
				}
			case 4:
				if c := bytes.TrimRight(raw, "\r\n="); b64 && len(c) > 2 {
					// cut within a group of four
					k := 1 + f.N(len(c)-1)
					m := 0
					for _, x := range c[:k] {
						if x != '\r' && x != '\n' {
							m++
						}
					}
					if m%4 != 0 {
						fault, must = "cut", true
						raw = c[:k]
					}
				}
			case 5:
				fault, must = "upload", true
				upErr = errUpload
			}
		}
		if utf8 {
			want = []byte(utf(want))
		}
		d.plan.raw = raw
		if fault != "" {
			w.st.fault("transport:" + fault)
		}
		d.got, d.s.bodies = nil, nil
		up := &simBody{s: d.s, b: append([]byte{}, send...), end: io.EOF, mode: d.t.Misc.N(4), k: []int{1, 2, 3, 5, 100}[d.t.Misc.N(5)]}
		if upErr != nil {
			up.b = up.b[:f.N(len(up.b)+1)]
			up.end = upErr
		}
		w.st.Ops++
		w.st.OpKinds["transport"]++
		w.tr("exchange %d %q fault %q reply %q", i, send, fault, raw)
		d.one(i, tr, url, up, msg, want, enc, b64, fault, must)
		out := simrt.TakeStdout() + simrt.TakeStderr()
		if !debug && sink.Len() == 0 && len(out) > 0 && !logged {
			w.tr("printed %q", out)
		}
	}
}

func (d *direct) one(i int, tr transport.Transport, url string, up *simBody, msg, want []byte, enc *base64.Encoding, b64 bool, fault string, must bool) {
	w := d.w
	v := func(class, f string, a ...interface{}) {
		w.violate("P20", class, "exchange %d (%s): %s", i, fault, fmt.Sprintf(f, a...))
	}
	var res *transport.Response
	var err, rerr error
	var got []byte
	simrt.SetBudget(w.budget())
	crashed := func() (x interface{}) {
		defer func() {
			if x = recover(); x != nil {
				v("crash", "%s at %s", short(x), panicChain())
			}
		}()
		res, err = tr.Do(&transport.Request{URL: url, Body: up})
		if err != nil {
			return
		}
		got, rerr = io.ReadAll(res.Body)
		res.Body.Close()
		return
	}()
	resume := simrt.Pause()
	defer resume()
	if crashed != nil {
		return
	}
	w.st.check("transport")
	failed := err != nil || rerr != nil
	w.tr("  => %v %v %q", err, rerr, got)
	for _, p := range d.got {
		// what is a message for the institute is posted nowhere else,
		// whatever the answers say
		if p.url != url {
			v("posted-elsewhere", "%s %s with %q, the configured URL is %s", p.method, p.url, p.body, url)
			return
		}
	}
	if must && !failed {
		v("transport-failure-hidden", "the failed exchange is reported as a success with body %q", got)
		return
	}
	if !must && failed {
		v("transport-error", "an undisturbed exchange fails: %v %v", err, rerr)
		return
	}
	if fault != "upload" || len(d.got) > 0 {
		if len(d.got) != 1 {
			v("posts", "%d requests were sent", len(d.got))
			return
		}
		p := d.got[0]
		exp := string(msg)
		if b64 {
			exp = enc.EncodeToString(msg)
		}
		if p.err == nil && string(p.body) != exp {
			v("posted-bytes", "posted %q instead of %q", p.body, exp)
		}
		if fault == "upload" && p.err == nil {
			v("posted-part", "a message was posted although it could not be read completely")
		}
		if p.method != "POST" || p.url != url {
			v("posted-to", "%s %s instead of POST %s", p.method, p.url, url)
		}
	}
	if !failed {
		w.st.OkOps++
		if len(d.s.bodies) > 0 {
			exp := string(want)
			if string(got) != exp {
				v("reply-bytes", "handed back %q instead of %q", got, want)
			}
		}
	} else {
		w.st.FailOps++
	}
	for _, b := range d.s.bodies {
		if b.closed == 0 {
			v("body-not-closed", "the response body was not closed")
		}
	}
}
