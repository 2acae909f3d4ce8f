package main

// Keys and signatures of the RDH procedure: what the library takes from the
// random source, what it does when the source fails, and what it signs.

import (
	"bytes"
	"crypto/rsa"
	"errors"
	"fmt"
	"strings"
	"time"

	"golang.org/x/crypto/ripemd160"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/zz_verif/simrt"
)

type keyRun struct {
	w     *world
	t     *tape
	n     int
	left  int // bytes the random source still gives, -1 for no limit
	short bool
	hit   bool // the source has failed
	read  int
	clock time.Time
}

var errEntropy = errors.New("no entropy left")

func (k *keyRun) v(class, f string, a ...interface{}) {
	k.w.violate("P26", class, "operation %d: %s", k.n, fmt.Sprintf(f, a...))
}

// do runs one call of the library and reports crashes.
func (k *keyRun) do(what string, f func()) bool {
	k.hit, k.read = false, 0
	simrt.SetBudget(k.w.budget())
	ok := true
	func() {
		defer func() {
			if x := recover(); x != nil {
				ok = false
				k.v("crash", "%s: %s at %s", what, short(x), panicChain())
			}
		}()
		f()
	}()
	if k.hit {
		k.w.st.fault("random:failed")
	}
	k.w.st.check("keys")
	return ok
}

// arm decides what the random source does during the next call.
func (k *keyRun) arm() string {
	k.left, k.short = -1, false
	switch k.t.Fault.W(70, 20, 10) {
	case 1:
		k.left = []int{0, 1, 7, 8, 15, 16, 40, 47, 95, 200}[k.t.Fault.N(10)]
		return fmt.Sprintf("the random source fails after %d bytes", k.left)
	case 2:
		k.short = true
		k.w.st.fault("random:short")
		return "the random source gives few bytes at a time"
	}
	return ""
}

func (w *world) keys(t *tape) {
	g := t.Gen
	k := &keyRun{w: w, t: t, left: -1, clock: simEpoch}
	rng := newPrng(uint64(g.N(1<<30)) + 1)
	simrt.NowFn = func() time.Time { return k.clock.In(time.Local) }
	simrt.SleepFn = func(d time.Duration) { k.clock = k.clock.Add(d) }
	simrt.MapPerm = nil
	simrt.RandFn = func(b []byte) {
		k.read += len(b)
		for i := range b {
			b[i] = byte(rng.next() >> 24)
		}
	}
	simrt.RandFault = func(want int) (int, error) {
		n := want
		if k.short && n > 3 {
			n = 1 + n/3
		}
		if k.left >= 0 {
			if n > k.left {
				k.hit = true
				n = k.left
				k.left = 0
				return n, errEntropy
			}
			k.left -= n
		}
		return n, nil
	}
	defer func() { simrt.RandFault = nil }()
	var msgKeys, given [][]byte
	var pubs []*domain.PublicKey
	var last *domain.PublicKey // the signing key in use
	ops := 1 + g.N(12)
	for k.n = 0; k.n < ops; k.n++ {
		k.clock = k.clock.Add(time.Duration(t.Clock.N(100000)) * time.Second)
		w.st.Ops++
		switch g.W(4, 2, 4, 3) {
		case 0:
			f := k.arm()
			var b []byte
			var err error
			if !k.do("message key", func() { b, err = message.GenerateMessageKey() }) {
				continue
			}
			w.mix("key", fmt.Sprint(k.n, f, len(b), err != nil))
			w.tr("op%d message key (%s) => %d bytes, err=%v", k.n, f, len(b), err)
			if k.hit {
				if err == nil {
					k.v("random-failure-hidden", "a message key is returned although %s", f)
				}
				continue
			}
			if err != nil {
				k.v("unexpected-failure", "no message key: %v", err)
				continue
			}
			w.st.OkOps++
			if len(b) != 16 {
				k.v("key-length", "a message key of %d bytes", len(b))
				continue
			}
			if k.read < 16 {
				k.v("key-not-random", "a message key made of %d random bytes", k.read)
			}
			for _, o := range msgKeys {
				if bytes.Equal(o, b) {
					k.v("key-repeated", "the same message key twice")
				}
			}
			msgKeys = append(msgKeys, append([]byte{}, b...))
			given = append(given, b)
			for i := range given {
				if !bytes.Equal(given[i], msgKeys[i]) {
					k.v("key-changed", "a later call changed the message key of an earlier one")
				}
			}
			if len(msgKeys) >= 6 {
				for i := range b {
					same := true
					for _, o := range msgKeys {
						same = same && o[i] == b[i]
					}
					if same {
						k.v("key-not-random", "byte %d is %d in all of %d message keys", i, b[i], len(msgKeys))
					}
				}
			}
		case 1:
			if len(pubs) >= 3 { // they take long
				continue
			}
			f := k.arm()
			var p *domain.PublicKey
			var err error
			if !k.do("signing key", func() { p, err = domain.GenerateSigningKey() }) {
				continue
			}
			w.mix("signing", fmt.Sprint(k.n, f, err != nil))
			w.tr("op%d signing key (%s) => err=%v", k.n, f, err)
			if k.hit {
				if err == nil {
					k.v("random-failure-hidden", "a signing key is returned although %s", f)
				}
				continue
			}
			if err != nil {
				k.v("unexpected-failure", "no signing key: %v", err)
				continue
			}
			w.st.OkOps++
			k.checkSigning(p, pubs)
			pubs = append(pubs, p)
			last = p
		case 2:
			if last == nil {
				p, err := domain.GenerateSigningKey()
				if err != nil {
					continue
				}
				pubs, last = append(pubs, p), p
			}
			k.sign(last)
		case 3:
			if last == nil {
				continue
			}
			k.encrypt(last)
		}
	}
}

func (k *keyRun) checkSigning(p *domain.PublicKey, before []*domain.PublicKey) {
	priv := p.SigningKey()
	if priv == nil || priv.Validate() != nil {
		k.v("signing-key", "a signing key without valid private part")
		return
	}
	if !bytes.Equal(p.Modulus, priv.N.Bytes()) {
		k.v("signing-key", "the modulus is not the key's")
	}
	e := 0
	for _, b := range p.Exponent {
		e = e<<8 | int(b)
	}
	if e != priv.E {
		k.v("signing-key", "the exponent is %x, the key's is %d", p.Exponent, priv.E)
	}
	if n := priv.N.BitLen(); n < 768 {
		k.v("signing-key", "a key of %d bits", n)
	}
	if p.Type != "S" {
		k.v("signing-key", "a signing key of type %q", p.Type)
	}
	for _, o := range before {
		if bytes.Equal(o.Modulus, p.Modulus) {
			k.v("key-repeated", "the same signing key twice")
		}
	}
}

// sign signs some messages with one provider.
func (k *keyRun) sign(p *domain.PublicKey) {
	g := k.t.Gen
	w := k.w
	kn := domain.KeyName{BankID: domain.BankID{CountryCode: 280, ID: fmt.Sprintf("%08d", g.R(10000000, 99999999))},
		UserID: genID(g, 30), KeyType: "S", KeyNumber: g.R(1, 99), KeyVersion: g.R(1, 99)}
	name := kn
	var key *domain.RSAKey
	var prov message.SignatureProvider
	sigID := g.N(1000000)
	sys := "0"
	if !k.do("signature provider", func() {
		key = domain.NewRSAKey(p, &name)
		prov = message.NewRDHSignatureProvider(key, sigID)
	}) {
		return
	}
	if !key.CanSign() {
		k.v("can-sign", "a signing key says it cannot sign")
	}
	for i, n := 0, 1+g.N(4); i < n; i++ {
		ver := segment.HBCI220
		hbci := 220
		if g.N(2) == 1 {
			ver, hbci = segment.FINTS300, 300
		}
		if g.P(40) {
			sys = genID(g, 30)
			prov.SetClientSystemID(sys)
		} else if i == 0 {
			prov.SetClientSystemID(sys)
		}
		if g.P(20) {
			kn.KeyVersion = g.R(1, 99)
			key.SetKeyVersion(kn.KeyVersion)
		}
		if g.P(20) {
			kn.KeyNumber = g.R(1, 99)
			key.SetKeyNumber(kn.KeyNumber)
		}
		num := g.R(1, 999)
		dlg := genID(g, 30)
		var want []string
		var segs []segment.ClientSegment
		for j, m := 0, 1+g.N(3); j < m; j++ {
			switch g.N(3) {
			case 0:
				segs = append(segs, segment.NewIdentificationSegment(kn.BankID, kn.UserID, sys, true))
				want = append(want, "HKIDN")
			case 1:
				segs = append(segs, segment.NewAccountBalanceRequestV5(domain.AccountConnection{AccountID: genID(g, 30), CountryCode: 280, BankID: kn.BankID.ID}, g.N(2) == 1))
				want = append(want, "HKSAL")
			case 2:
				segs = append(segs, segment.NewDialogEndSegment(dlg))
				want = append(want, "HKEND")
			}
		}
		f := k.arm()
		var raw []byte
		var err error
		if !k.do("signature", func() {
			b := message.NewBasicMessage(message.NewHBCIMessage(ver, segs...))
			b.Header = segment.NewMessageHeaderSegment(-1, hbci, dlg, num)
			b.End = segment.NewMessageEndSegment(-1, num)
			var s *message.BasicSignedMessage
			if s, err = b.Sign(prov); err == nil {
				raw, err = s.MarshalHBCI()
			}
		}) {
			return
		}
		w.mix("sign", fmt.Sprint(k.n, i, want, kn, sigID, sys, num, dlg, f, err != nil))
		w.tr("op%d signed message %d of %v, key %v, ID %d, system %q (%s) => err=%v", k.n, i, want, kn, sigID, sys, f, err)
		if err != nil {
			if !k.hit {
				k.v("unexpected-failure", "cannot sign: %v", err)
			}
			continue
		}
		w.st.OkOps++
		k.checkSigned(raw, p, kn, sigID, sys, want)
	}
}

func (k *keyRun) checkSigned(raw []byte, p *domain.PublicKey, kn domain.KeyName, sigID int, sys string, want []string) {
	segs, err := parseSegs(raw)
	if err != nil {
		k.v("malformed", "the signed message cannot be read: %v", err)
		return
	}
	var ids []string
	for i, s := range segs {
		ids = append(ids, s.ID)
		if s.Pos != i+1 {
			k.v("position", "segment %d (%s) has number %d", i+1, s.ID, s.Pos)
		}
	}
	if got, exp := strings.Join(ids, " "), "HNHBK HNSHK "+strings.Join(want, " ")+" HNSHA HNHBS"; got != exp {
		k.v("segments", "%s instead of %s", got, exp)
		return
	}
	if segs[0].de(0, 0) != fmt.Sprintf("%012d", len(raw)) {
		k.v("size", "announced %s, %d bytes long", segs[0].de(0, 0), len(raw))
	}
	head, end := segs[1], segs[len(segs)-2]
	o := 0
	if head.Ver >= 4 {
		o = 1
	}
	if head.de(o+1, 0) == "" || head.de(o+1, 0) != end.de(0, 0) {
		k.v("control-reference", "%q in the signature header, %q in its end", head.de(o+1, 0), end.de(0, 0))
	}
	if f := head.de(o, 0); f != "1" {
		k.v("signature-header", "security function %q", f)
	}
	if x := head.de(o+4, 2); x != sys {
		k.v("signature-header", "system ID %q instead of %q", x, sys)
	}
	if x := head.deInt(o+5, 0); x != sigID {
		k.v("signature-header", "signature ID %d instead of %d", x, sigID)
	}
	n := len(head.DEs) - 1
	got := fmt.Sprint(head.de(n, 0), head.de(n, 1), head.de(n, 2), head.de(n, 3), head.de(n, 4), head.de(n, 5))
	exp := fmt.Sprint(fmt.Sprint(kn.BankID.CountryCode), kn.BankID.ID, kn.UserID, string(kn.KeyType), fmt.Sprint(kn.KeyNumber), fmt.Sprint(kn.KeyVersion))
	if got != exp {
		k.v("key-name", "%s instead of %s", got, exp)
	}
	day := k.clock.In(time.Local)
	if d, t := head.de(o+6, 1), head.de(o+6, 2); d != day.Format("20060102") || t != day.Format("150405") {
		k.v("signature-header", "signed at %s %s, it is %s", d, t, day.Format("20060102 150405"))
	}
	sig, bin := end.bin(1, 0)
	if !bin {
		k.v("signature", "the signature end carries no signature: %q", end.Raw)
		return
	}
	h := ripemd160.New()
	h.Write(raw[head.Off:end.Off])
	if err := rsa.VerifyPKCS1v15(&p.SigningKey().PublicKey, 0, h.Sum(nil), sig); err != nil {
		k.v("signature", "the signature does not fit the message sent: %v", err)
	}
}

// encrypt makes an encryption key of the public part and uses it.
func (k *keyRun) encrypt(p *domain.PublicKey) {
	g := k.t.Gen
	priv := p.SigningKey()
	mod, exp := priv.N.Bytes(), []byte{1, 0, 1}
	m0, e0 := append([]byte{}, mod...), append([]byte{}, exp...)
	var e *domain.PublicKey
	if !k.do("encryption key", func() { e = domain.NewEncryptionKey(mod, exp) }) {
		return
	}
	if !bytes.Equal(e.Modulus, m0) || !bytes.Equal(e.Exponent, e0) || !bytes.Equal(mod, m0) || !bytes.Equal(exp, e0) {
		k.v("encryption-key", "made of modulus %x and exponent %x, it has %x and %x", m0, e0, e.Modulus, e.Exponent)
	}
	if e.Type != "V" {
		k.v("encryption-key", "an encryption key of type %q", e.Type)
	}
	kn := domain.KeyName{BankID: domain.BankID{CountryCode: 280, ID: "10000000"}, UserID: "u", KeyType: "V", KeyNumber: 1, KeyVersion: 1}
	if r := domain.NewRSAKey(e, &kn); !r.CanEncrypt() || r.CanSign() {
		k.v("encryption-key", "says it can encrypt: %v, sign: %v", r.CanEncrypt(), r.CanSign())
	}
	var seen [][]byte
	for i, n := 0, 1+g.N(3); i < n; i++ {
		plain := make([]byte, []int{16, 0, 1, 20, 85, 86, 200}[g.W(8, 1, 1, 2, 1, 1, 1)])
		for j := range plain {
			plain[j] = byte(g.N(256))
		}
		before := append([]byte{}, plain...)
		f := k.arm()
		var c []byte
		var err error
		if !k.do("encryption", func() { c, err = e.Encrypt(plain) }) {
			return
		}
		k.w.mix("encrypt", fmt.Sprint(k.n, i, f, len(c), err != nil))
		k.w.tr("op%d encrypt %d bytes (%s) => %d bytes, err=%v", k.n, len(plain), f, len(c), err)
		max := priv.Size() - 11
		switch {
		case k.hit && err == nil:
			k.v("random-failure-hidden", "data are encrypted although %s", f)
		case len(plain) > max && err == nil:
			k.v("too-long", "%d bytes are encrypted with a key for %d", len(plain), max)
		case len(plain) <= max && !k.hit && err != nil:
			k.v("unexpected-failure", "cannot encrypt: %v", err)
		}
		if err != nil || k.hit {
			continue
		}
		k.w.st.OkOps++
		if !bytes.Equal(before, plain) {
			k.v("data-changed", "the data to encrypt were changed")
		}
		d, err := rsa.DecryptPKCS1v15(nil, priv, c)
		if err != nil || !bytes.Equal(d, before) {
			k.v("decrypted", "%d bytes encrypted, %d decrypted, %v", len(before), len(d), err)
		}
		for _, o := range seen {
			if bytes.Equal(o, c) {
				k.v("padding-repeated", "two encryptions give the same result")
			}
		}
		seen = append(seen, c)
	}
}
