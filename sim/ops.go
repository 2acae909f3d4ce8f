package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
)

// Operations of the simulated caller, and the canonical form of what the
// library reports.

func trimGrp(e ...string) string { return grp(e...) }

func jn(b bool) string {
	if b {
		return "J"
	}
	return "N"
}

const inexpressible = "\u20ac\u4e2d\u0416\u2013\u201e"

func (s *sess) genBad(op *opRec, v *string) {
	g := s.t.Gen
	if op.noInput == "" && g.P(s.w.prof.badInput) {
		r := []rune(inexpressible)
		c := string(r[g.N(len(r))])
		switch g.N(3) {
		case 0:
			*v += c
		case 1:
			*v = c + *v
		default:
			h := len([]rune(*v)) / 2
			rr := []rune(*v)
			*v = string(rr[:h]) + c + string(rr[h:])
		}
		op.noInput = fmt.Sprintf("%q", *v)
		op.must = "inexpressible input"
	}
}

func (s *sess) genAccount(op *opRec) domain.AccountConnection {
	g := s.t.Gen
	a := domain.AccountConnection{AccountID: fmt.Sprint(1000 + g.N(100)), CountryCode: 280, BankID: s.code}
	if g.P(50) {
		a.AccountID = genID(g, 30)
	}
	if g.P(30) {
		a.SubAccountCharacteristics = genText(g, 10)
	}
	if g.P(10) {
		a.CountryCode, a.BankID = genInstitute(g, s.code)
	}
	s.genBad(op, &a.AccountID)
	return a
}

func (s *sess) genIntl(op *opRec) domain.InternationalAccountConnection {
	g := s.t.Gen
	a := domain.InternationalAccountConnection{IBAN: fmt.Sprintf("DE%02d%s%010d", 10+g.N(80), s.code, g.N(1000000)),
		BIC: "GENODE" + string(rune('A'+g.N(26))) + "1XXX", AccountID: fmt.Sprint(1000 + g.N(100)),
		BankID: domain.BankID{CountryCode: 280, ID: s.code}}
	if g.P(40) {
		a.AccountID = genID(g, 30)
	}
	if g.P(30) {
		a.SubAccountCharacteristics = genText(g, 10)
	}
	if g.P(10) {
		a.BankID.CountryCode, a.BankID.ID = genInstitute(g, s.code)
	}
	s.genBad(op, &a.AccountID)
	return a
}

func natWire(a domain.AccountConnection) string {
	return trimGrp(escU(a.AccountID), escU(a.SubAccountCharacteristics), country(a.CountryCode), escU(a.BankID))
}

func intlWire(a domain.InternationalAccountConnection) string {
	return trimGrp(escU(a.IBAN), escU(a.BIC), escU(a.AccountID), escU(a.SubAccountCharacteristics), country(a.BankID.CountryCode), escU(a.BankID.ID))
}

// escU is esc for texts that may not be encodable.
func escU(s string) string {
	for _, r := range s {
		if r > 255 {
			return "\x00not encodable"
		}
	}
	return esc(s)
}

func (s *sess) genFrame() (tf domain.Timeframe, exp func() []string) {
	g := s.t.Gen
	d := genDay(g)
	e := d.plus(g.N(40))
	day2 := func(d day) domain.ShortDate { return domain.ShortDate{Time: d.t()} }
	days := func(months int) []string {
		var o []string
		for k := range s.days {
			t, _ := time.Parse("20060102", k)
			o = append(o, t.AddDate(0, months, 0).Format("20060102"))
		}
		return o
	}
	one := func(d day) func() []string { return func() []string { return []string{d.long()} } }
	var from, to func() []string
	switch g.W(3, 4, 2, 1) {
	case 0:
		tf = domain.Timeframe{StartDate: day2(d), EndDate: day2(e)}
		from, to = one(d), one(e)
	case 1:
		from, to = func() []string { return days(-1) }, func() []string { return days(0) }
	case 2:
		tf = domain.Timeframe{StartDate: day2(d)}
		from, to = one(d), func() []string { return days(0) }
	default:
		tf = domain.Timeframe{EndDate: day2(e)}
		from, to = func() []string { return days(-1) }, one(e)
	}
	exp = func() []string {
		var o []string
		for _, a := range from() {
			for _, b := range to() {
				o = append(o, a+"+"+b)
			}
		}
		return o
	}
	return
}

func (s *sess) genRefOpt() string {
	if s.t.Gen.P(20) {
		// never one the bank gave out: that would continue another query
		if r := genRef(s.t.Gen); s.bank.refs[r] == nil {
			s.bank.used[r] = true
			return r
		}
	}
	return ""
}

// newOp draws the next operation.
func (s *sess) newOp() *opRec {
	g := s.t.Gen
	op := &opRec{}
	if s.dialogLevel {
		return s.newDialogOp(op)
	}
	o := s.w.prof.ops
	c := s.cl
	switch g.W(o.accounts, o.tx, o.septx, o.bal, o.sepabal, o.info, o.status, o.comm) {
	case 0:
		op.kind, op.prop = "accounts", "P08"
		scribble := g.N(3) == 1
		op.exec = func() ([]string, error) {
			l, err := c.Accounts()
			op.view = func() []string { return canonAccounts(l) }
			rows := op.view()
			if scribble {
				op.view = nil // the caller may do with the list what it likes
				for i, k := 0, len(l)-1; i < k; i, k = i+1, k-1 {
					l[i], l[k] = l[k], l[i]
				}
				if len(l) > 0 {
					l[0] = domain.AccountInformation{UserID: "changed"}
				}
			}
			return rows, err
		}
	case 1:
		op.kind, op.prop, op.jobID, op.libVers = "tx", "P05", "HKKAZ", []int{5, 6}
		a, all := s.genAccount(op), g.N(2) == 1
		tf, exp := s.genFrame()
		op.ref = s.genRefOpt()
		op.desc = fmt.Sprintf("%+v %v %s..%s all=%v ref %q", a, tf, tf.StartDate.Format("2006-01-02"), tf.EndDate.Format("2006-01-02"), all, op.ref)
		op.expJob = func(ver int) []string {
			var o []string
			for _, r := range exp() {
				o = append(o, fmt.Sprintf("HKKAZ:%d+%s+%s+%s", ver, natWire(a), jn(all), r))
			}
			return o
		}
		op.exec = func() ([]string, error) {
			l, err := c.AccountTransactions(a, tf, all, op.ref)
			op.view = func() []string { return canonTxs(l) }
			return op.view(), err
		}
	case 2:
		op.kind, op.prop, op.jobID, op.libVers = "septx", "P05", "HKKAZ", []int{7}
		a, all := s.genIntl(op), g.N(2) == 1
		tf, exp := s.genFrame()
		op.ref = s.genRefOpt()
		op.desc = fmt.Sprintf("%+v %s..%s all=%v ref %q", a, tf.StartDate.Format("2006-01-02"), tf.EndDate.Format("2006-01-02"), all, op.ref)
		op.expJob = func(ver int) []string {
			var o []string
			for _, r := range exp() {
				o = append(o, fmt.Sprintf("HKKAZ:%d+%s+%s+%s", ver, intlWire(a), jn(all), r))
			}
			return o
		}
		op.exec = func() ([]string, error) {
			l, err := c.SepaAccountTransactions(a, tf, all, op.ref)
			op.view = func() []string { return canonTxs(l) }
			return op.view(), err
		}
	case 3:
		op.kind, op.prop, op.jobID, op.libVers = "bal", "P07", "HKSAL", []int{5, 6}
		a, all := s.genAccount(op), g.N(2) == 1
		op.desc = fmt.Sprintf("%+v all=%v", a, all)
		op.expJob = func(ver int) []string {
			return []string{fmt.Sprintf("HKSAL:%d+%s+%s", ver, natWire(a), jn(all))}
		}
		op.exec = func() ([]string, error) {
			l, err := c.AccountBalances(a, all)
			op.view = func() (rows []string) {
				for _, x := range l {
					rows = append(rows, canonBal(x))
				}
				return
			}
			return op.view(), err
		}
	case 4:
		op.kind, op.prop, op.jobID, op.libVers = "sepabal", "P07", "HKSAL", []int{7, 8}
		a, all := s.genIntl(op), g.N(2) == 1
		op.ref = s.genRefOpt()
		op.desc = fmt.Sprintf("%+v all=%v ref %q", a, all, op.ref)
		op.expJob = func(ver int) []string {
			return []string{fmt.Sprintf("HKSAL:%d+%s+%s", ver, intlWire(a), jn(all))}
		}
		op.exec = func() ([]string, error) {
			l, err := c.SepaAccountBalances(a, all, op.ref)
			op.view = func() (rows []string) {
				for _, x := range l {
					rows = append(rows, canonSepaBal(x))
				}
				return
			}
			return op.view(), err
		}
	case 5:
		op.kind, op.prop, op.jobID, op.noBPD = "info", "P27", "HKKIF", true
		a, all := s.genAccount(op), g.N(2) == 1
		op.desc = fmt.Sprintf("%+v all=%v", a, all)
		op.expJob = func(ver int) []string {
			return []string{fmt.Sprintf("HKKIF:%d+%s+%s", ver, natWire(a), jn(all))}
		}
		op.noOut = s.w.prof.scen != "conc" && !s.debug && s.t.Fault.P(3)
		op.exec = func() ([]string, error) { return nil, c.AccountInformation(a, all) }
	case 6:
		op.kind, op.prop, op.jobID, op.libVers = "status", "P23", "HKPRO", []int{3, 4}
		d := genDay(g)
		e := d.plus(g.N(40))
		max := g.N(3) * 7
		op.ref = s.genRefOpt()
		op.desc = fmt.Sprintf("%s..%s max=%d ref %q", d, e, max, op.ref)
		op.expJob = func(ver int) []string {
			x := fmt.Sprintf("HKPRO:%d+%s+%s", ver, d.long(), e.long())
			if max == 0 {
				return []string{x, x + "+0"}
			}
			return []string{fmt.Sprintf("%s+%d", x, max)}
		}
		op.exec = func() ([]string, error) {
			l, err := c.Status(d.t(), e.t(), max, op.ref)
			op.view = func() (rows []string) {
				for _, x := range l {
					rows = append(rows, canonStatus(x))
				}
				return
			}
			return op.view(), err
		}
	default:
		op.kind, op.prop, op.anon = "comm", "P24", true
		from := domain.BankID{CountryCode: 280, ID: fmt.Sprintf("%08d", g.N(99999999))}
		to := domain.BankID{CountryCode: 280, ID: fmt.Sprintf("%08d", g.N(99999999))}
		if g.P(20) {
			from.ID = genID(g, 10)
		}
		if g.P(20) {
			to.CountryCode, to.ID = genInstitute(g, to.ID)
		}
		s.genBad(op, &to.ID)
		max := g.R(1, 50)
		op.desc = fmt.Sprintf("%v %v max=%d", from, to, max)
		op.expJob = func(ver int) []string {
			return []string{fmt.Sprintf("HKKOM:%d+280:%s+%s:%s+%d", ver, esc(from.ID), country(to.CountryCode), esc(to.ID), max)}
		}
		op.exec = func() ([]string, error) {
			_, err := s.an.CommunicationAccess(from, to, max)
			return nil, err
		}
	}
	return op
}

// newDialogOp draws an operation on the dialog level.
func (s *sess) newDialogOp(op *opRec) *opRec {
	g := s.t.Gen
	d := s.dlg
	switch g.W(3, 3, 1, 1, 1, 3) {
	case 0:
		op.kind, op.prop = "sync", "P13"
		op.exec = func() ([]string, error) {
			id, err := d.SyncClientSystemID()
			return []string{"system ID " + id}, err
		}
	case 1:
		op.kind, op.prop = "syncUPD", "P08"
		op.exec = func() ([]string, error) {
			err := d.SyncUserParameterData()
			return canonAccounts(d.Accounts), err
		}
	case 2:
		pin := genPin(g)
		if s.genBad(op, &pin); op.noInput != "" || g.P(20) {
			// a PIN that cannot be sent, noticed and set right again
			if op.noInput == "" {
				op.noInput, op.must = fmt.Sprintf("%q", pin+"\u20ac"), "inexpressible input"
				pin += "\u20ac"
			}
			op.kind, op.prop = "sync", "P13"
			op.desc = fmt.Sprintf("PIN %q", pin)
			what := g.N(2)
			op.exec = func() (rows []string, err error) {
				d.SetPin(pin)
				defer func() { d.SetPin(s.pin) }()
				if what == 1 {
					err = d.SyncUserParameterData()
				} else {
					_, err = d.SyncClientSystemID()
				}
				return nil, err
			}
			return op
		}
		op.kind, op.prop, op.local = "setPin", "P14", true
		op.desc = fmt.Sprintf("%q", pin)
		op.exec = func() ([]string, error) {
			d.SetPin(pin)
			s.pin = pin
			s.pins = append(s.pins, pin)
			return nil, nil
		}
	case 3:
		op.kind, op.prop, op.local = "setSysID", "P13", true
		id := "OWN" + genID(g, 20)
		op.desc = fmt.Sprintf("%q", id)
		op.exec = func() ([]string, error) {
			d.SetClientSystemID(id)
			s.sys = []string{id}
			return nil, nil
		}
	case 4:
		op.kind, op.prop, op.local = "setSecFn", "P14", true
		fn := s.bank.bpd.describes[g.N(len(s.bank.bpd.describes))].fn
		op.desc = fn
		op.exec = func() ([]string, error) {
			d.SetSecurityFunction(fn)
			s.sec = map[string]bool{fn: true}
			return nil, nil
		}
	default:
		op.kind, op.prop, op.jobID, op.noBPD = "send", "P09", "HKKIF", true
		a, all := s.genAccount(op), g.N(2) == 1
		op.desc = fmt.Sprintf("%+v all=%v", a, all)
		op.expJob = func(ver int) []string {
			return []string{fmt.Sprintf("HKKIF:%d+%s+%s", ver, natWire(a), jn(all))}
		}
		hv := segment.SupportedHBCIVersions[s.hbci]
		op.exec = func() ([]string, error) {
			_, err := d.SendMessage(message.NewHBCIMessage(hv, hv.TanProcess4Request(segment.IdentificationID), segment.NewAccountInformationRequestSegmentV1(a, all)))
			return nil, err
		}
	}
	return op
}

// ---------------------------------------------------------------- canonical results

func canonAccounts(l []domain.AccountInformation) []string {
	var rows []string
	for _, a := range l {
		lim := "-"
		if a.Limit != nil {
			lim = canonLimit(a.Limit)
		}
		var al []string
		for _, t := range a.AllowedBusinessTransactions {
			tl := "-"
			if t.Limit != nil {
				tl = canonLimit(t.Limit)
			}
			al = append(al, fmt.Sprintf("%s*%d(%s)", t.ID, t.NeededSignatures, tl))
		}
		c := a.AccountConnection
		rows = append(rows, fmt.Sprintf("acct %q sub %q bank %d/%s user %q cur %s names %q %q product %q limit %s allowed [%s]",
			c.AccountID, c.SubAccountCharacteristics, c.CountryCode, c.BankID, a.UserID, a.Currency, a.Name1, a.Name2, a.ProductID, lim, strings.Join(al, " ")))
	}
	return rows
}

func canonLimit(l *domain.AccountLimit) string {
	return fmt.Sprintf("%s/%s/%d", l.Kind, amt(l.Amount.Amount, l.Amount.Currency), l.Days)
}

func canonTxs(l []domain.AccountTransaction) []string {
	var rows []string
	bal := func(b domain.Balance) string {
		return fmt.Sprintf("%s at %s", amt(b.Amount.Amount, b.Amount.Currency), dayTS(b.TransmissionDate))
	}
	for _, t := range l {
		bk := "-"
		if !t.BookingDate.IsZero() {
			bk = ts(t.BookingDate)
		}
		rows = append(rows, fmt.Sprintf("tx acct %q bank %d/%s amount %s valuta %s booking %s text %q bank %q account %q name %q purpose %q purpose2 %q id %d before %s after %s",
			t.Account.AccountID, t.Account.CountryCode, t.Account.BankID, amt(t.Amount.Amount, t.Amount.Currency), dayTS(t.ValutaDate), bk,
			t.BookingText, t.BankID, t.AccountID, t.Name, t.Purpose, t.Purpose2, t.TransactionID, bal(t.AccountBalanceBefore), bal(t.AccountBalanceAfter)))
	}
	return rows
}

// dayTS is the canonical form of a date without time.
func dayTS(t time.Time) string {
	x := ts(t)
	return strings.TrimSuffix(x, " 00:00:00")
}

func canonBalance(b *domain.Balance) string {
	if b == nil {
		return "-"
	}
	t := "-"
	if b.TransmissionTime != nil {
		t = b.TransmissionTime.Format("15:04:05.999999999")
	}
	return fmt.Sprintf("%s at %s %s", amt(b.Amount.Amount, b.Amount.Currency), dayTS(b.TransmissionDate), t)
}

func canonAmount(a *domain.Amount) string {
	if a == nil {
		return "-"
	}
	return amt(a.Amount, a.Currency)
}

func canonBal(b domain.AccountBalance) string {
	c := b.Account
	return fmt.Sprintf("bal id %q sub %q bank %d/%s product %q cur %s booked %s earmarked %s credit %s avail %s used %s booking %s due %s",
		c.AccountID, c.SubAccountCharacteristics, c.CountryCode, c.BankID, b.ProductName, b.Currency, canonBalance(&b.BookedBalance), canonBalance(b.EarmarkedBalance),
		canonAmount(b.CreditLimit), canonAmount(b.AvailableAmount), canonAmount(b.UsedAmount), tsp(b.BookingDate), tsp(b.DueDate))
}

func canonSepaBal(b domain.SepaAccountBalance) string {
	c := b.Account
	return fmt.Sprintf("bal iban %q bic %q id %q sub %q bank %d/%s product %q cur %s booked %s earmarked %s credit %s avail %s used %s booking %s due %s seizable %s",
		c.IBAN, c.BIC, c.AccountID, c.SubAccountCharacteristics, c.BankID.CountryCode, c.BankID.ID, b.ProductName, b.Currency, canonBalance(&b.BookedBalance), canonBalance(b.EarmarkedBalance),
		canonAmount(b.CreditLimit), canonAmount(b.AvailableAmount), canonAmount(b.UsedAmount), tsp(b.BookingDate), tsp(b.DueDate), canonAmount(b.SeizableAfterMonth))
}

func canonStatus(x domain.StatusAcknowledgement) string {
	ref := "none"
	if x.ReferencingMessage.DialogID != "" || x.ReferencingMessage.MessageNumber != 0 {
		ref = fmt.Sprintf("%q/%d seg %d", x.ReferencingMessage.DialogID, x.ReferencingMessage.MessageNumber, x.ReferencingSegmentNumber)
	}
	t := x.TransmittedAt
	return fmt.Sprintf("status %s at %s code %d de %q text %q params %q", ref, t.Format("2006-01-02 15:04:05.999999999"), x.Code, x.ReferenceDataElement, x.Text, x.Params)
}
