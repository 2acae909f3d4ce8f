package main

import (
	"errors"
	"fmt"
	"math/big"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/internal"
	"github.com/mitch000001/go-hbci/zz_verif/banking"
	"github.com/mitch000001/go-hbci/zz_verif/simrt"
	"github.com/spf13/afero"
	"github.com/spf13/pflag"
	"github.com/spf13/viper"
)

// The command line tool: a history of invocations, each a new process; only
// the configuration file (and the bank) outlives them.

const cliHome = "/home/simuser"
const cliConfig = cliHome + "/.banking.yaml"

var viperStart *viper.Viper // the settings of a process that has just started

// cloneMaps gives a structure maps of its own.
func cloneMaps(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Map || f.IsNil() {
			continue
		}
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		m := reflect.MakeMap(f.Type())
		for _, k := range f.MapKeys() {
			m.SetMapIndex(k, f.MapIndex(k))
		}
		f.Set(m)
	}
}

// newProcess puts everything the tool keeps in memory back to the start.
func newProcess() {
	if viperStart == nil {
		c := *viper.GetViper()
		cloneMaps(reflect.ValueOf(&c).Elem())
		viperStart = &c
		os.Setenv("HOME", cliHome)
	}
	c := *viperStart
	cloneMaps(reflect.ValueOf(&c).Elem())
	*viper.GetViper() = c
	for _, cmd := range banking.Commands() {
		for _, fs := range []*pflag.FlagSet{cmd.Flags(), cmd.PersistentFlags()} {
			fs.VisitAll(func(f *pflag.Flag) {
				f.Value.Set(f.DefValue)
				f.Changed = false
			})
		}
	}
	banking.Reset()
	// flags are bound to these variables; Reset only knows their literals
	for _, cmd := range banking.Commands() {
		for _, fs := range []*pflag.FlagSet{cmd.Flags(), cmd.PersistentFlags()} {
			fs.VisitAll(func(f *pflag.Flag) {
				f.Value.Set(f.DefValue)
				f.Changed = false
			})
		}
	}
	internal.SetDebugMode(false)
}

// faultFs is the file system of the configuration.
type faultFs struct {
	afero.Fs
	left  int // bytes that can still be written, -1 for no limit
	errno error
	hit   bool
	// reading fails after that many bytes, -1 for never
	readLeft int
	readHit  bool
}

type faultFile struct {
	afero.File
	fs *faultFs
}

func (f *faultFs) OpenFile(n string, flag int, m os.FileMode) (afero.File, error) {
	x, err := f.Fs.OpenFile(n, flag, m)
	if err != nil {
		return x, err
	}
	return &faultFile{x, f}, nil
}

func (f *faultFs) Open(n string) (afero.File, error) {
	x, err := f.Fs.Open(n)
	if err != nil {
		return x, err
	}
	return &faultFile{x, f}, nil
}

func (f *faultFile) Read(b []byte) (int, error) {
	if f.fs.readLeft < 0 {
		return f.File.Read(b)
	}
	f.fs.readHit = true
	if f.fs.readLeft == 0 {
		return 0, syscall.EIO
	}
	if len(b) > f.fs.readLeft {
		b = b[:f.fs.readLeft]
	}
	n, err := f.File.Read(b)
	f.fs.readLeft -= n
	if err != nil { // there is less than that
		f.fs.readLeft, err = 0, syscall.EIO
	}
	return n, err
}

func (f *faultFs) Create(n string) (afero.File, error) {
	x, err := f.Fs.Create(n)
	if err != nil {
		return x, err
	}
	return &faultFile{x, f}, nil
}

func (f *faultFile) Write(b []byte) (int, error) {
	if f.fs.left < 0 {
		return f.File.Write(b)
	}
	n := len(b)
	if n > f.fs.left {
		n = f.fs.left
		f.fs.hit = true
		f.File.Write(b[:n])
		f.fs.left = 0
		return n, f.fs.errno
	}
	f.fs.left -= n
	return f.File.Write(b)
}

func (f *faultFile) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// germanIBAN computes an IBAN as the standard says.
func germanIBAN(blz, acct string) string {
	bban := blz + strings.Repeat("0", 10-len(acct)) + acct
	n, _ := new(big.Int).SetString(bban+"131400", 10)
	return fmt.Sprintf("DE%02d%s", 98-new(big.Int).Mod(n, big.NewInt(97)).Int64(), bban)
}

func isAccount(a string) bool {
	if a == "" || len(a) > 10 {
		return false
	}
	for _, c := range a {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// cliCode draws a bank code all of whose listings agree.
func cliCode(g *stream) (string, dirEntry) {
	for i := 0; i < 20; i++ {
		c := dirCodes[g.N(len(dirCodes))]
		if g.P(5) {
			c = dirOdd[g.N(len(dirOdd))]
		}
		l := usable(c)
		same := true
		for _, e := range l {
			same = same && e == l[0]
		}
		if same && (l[0].version == 220 || l[0].version == 300) && l[0].url != "" {
			return c, l[0]
		}
	}
	return "10010010", usable("10010010")[0]
}

type cliConf struct {
	user, blz string
}

func (w *world) cli(t *tape) {
	g := t.Gen
	s := newSess(w, 0, t)
	code, ent := cliCode(g)
	s.code, s.hbci, s.viaHTTP, s.dialogLevel = code, ent.version, true, false
	s.product, s.prodVer = "", ""
	s.user = fmt.Sprint(g.R(1, 99999) * []int{1, 1, 100, 99999}[g.N(4)])
	if g.P(30) {
		s.user = genID(g, 30)
	}
	if g.P(15) {
		s.user = "0" + s.user
	}
	s.newBank()
	s.bind()
	fs := &faultFs{Fs: afero.NewMemMapFs(), left: -1, readLeft: -1}
	fs.MkdirAll(cliHome, 0o700)
	disk := &simrt.Disk{Files: map[string][]byte{}}
	simrt.CurrentDisk = disk
	hosts = map[string]*sess{}
	defer func() { simrt.CurrentDisk, hosts = nil, map[string]*sess{} }()
	var conf *cliConf // what the configuration file holds
	unsure := false   // it may hold something else
	if g.P(20) {
		conf = &cliConf{s.user, s.code}
		afero.WriteFile(fs.Fs, cliConfig, []byte(fmt.Sprintf("blz: %q\nuserid: %q\n", s.code, s.user)), 0o600)
	}
	if conf == nil && g.P(6) {
		// something else than a configuration
		x := []string{"blz: [\n", "\tuserid: x\n", "{", "userid: \"1\nblz: 2\n", "just text\n"}[g.N(5)]
		afero.WriteFile(fs.Fs, cliConfig, []byte(x), 0o600)
	}
	calm := g.P(w.prof.quietRun)
	n := 1 + g.N(w.prof.maxOps)
	for i := 0; i < n; i++ {
		if i > 0 && g.P(w.prof.dataChange) {
			s.bank.change()
		}
		s.clock = s.clock.Add(s.between())
		op := s.cliOp(fs, disk, ent, &conf, &unsure)
		op.quiet = calm || i == n-1
		// a new process knows nothing
		s.bpds, s.upds, s.sys = []*bpd{nil}, []*upd{nil}, []string{"0"}
		s.sec, s.descr, s.failed, s.taint, s.dv = map[string]bool{"999": true}, nil, false, false, nil
		was, errWas := afero.ReadFile(fs.Fs, cliConfig)
		s.runOp(op)
		resume := simrt.Pause()
		if errWas == nil {
			if is, err := afero.ReadFile(fs.Fs, cliConfig); err != nil || string(is) != string(was) {
				w.violate("P25", "config-lost", "operation %d (%s): the configuration file held %q, now it holds %q (%v)", op.n, op.desc, was, is, err)
			}
		}
		if op.must != "" && op.cliBad && len(op.exs) > 0 {
			w.violate("P25", "bad-command-sent", "operation %d (%s): %d messages are sent although %s", op.n, op.desc, len(op.exs), op.must)
		}
		var stored []string
		afero.Walk(fs.Fs, "/", func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				b, _ := afero.ReadFile(fs.Fs, p)
				stored = append(stored, p+"\x00"+string(b))
			}
			return nil
		})
		for k, b := range disk.Files {
			stored = append(stored, k+"\x00"+string(b))
		}
		for _, x := range stored {
			for _, p := range s.pins {
				if f := leaks(x, p); f != "" {
					w.violate("P25 P04", "pin-stored", "operation %d (%s): the PIN %q is in the file %q", op.n, op.desc, p, x)
				}
			}
		}
		w.st.check("config-file")
		resume()
	}
	w.st.SimSecs += s.clock.Sub(s.base).Seconds()
}

func (s *sess) between() time.Duration {
	c := s.t.Clock
	return time.Duration(c.N(100))*time.Second + time.Duration(c.N(3))*24*time.Hour
}

// cliOp draws an invocation.
func (s *sess) cliOp(fs *faultFs, disk *simrt.Disk, ent dirEntry, conf **cliConf, unsure *bool) *opRec {
	g := s.t.Gen
	op := &opRec{prop: "P25", cli: true}
	var args []string
	flagSet := func(n, v string) {
		if g.N(2) == 0 {
			args = append(args, "--"+n+"="+v)
		} else {
			args = append(args, "--"+n, v)
		}
	}
	bad := func(why string) {
		if op.must == "" {
			op.must, op.cliBad = why, true
		}
	}
	// who
	user, blz := "", ""
	mode := g.W(6, 3, 1, 1)
	if *unsure {
		mode = 0 // what a damaged configuration file says is not relied on
	}
	present, _ := afero.Exists(fs.Fs, cliConfig)
	if *conf == nil || (*conf).user == "" || (*conf).blz == "" {
		if mode == 1 && !g.P(10) {
			mode = 0
		}
	}
	switch mode {
	case 0:
		user, blz = s.user, s.code
	case 1: // from the configuration
	case 2:
		user = s.user
	case 3:
		blz = s.code
	}
	if blz != "" && g.P(4) {
		for blz = fmt.Sprintf("%08d", 99000000+g.N(999999)); dirByCode[blz] != nil; {
			blz = fmt.Sprintf("%08d", 99000000+g.N(999999))
		}
	}
	// the environment comes after the flags and before the configuration
	os.Unsetenv("USERID")
	os.Unsetenv("BLZ")
	flagUser, flagBlz := user, blz
	if g.P(8) {
		if v := s.user; g.P(70) {
			os.Setenv("USERID", v)
			if user == "" {
				user = v
			}
		}
		if v := s.code; g.P(70) {
			os.Setenv("BLZ", v)
			if blz == "" {
				blz = v
			}
		}
	}
	explicit := g.P(25)
	s.url = ent.url
	if explicit {
		s.url = fmt.Sprintf("https://cli.example/x/%d?y=1", g.N(9))
	}
	if u, err := url.Parse(s.url); err == nil {
		s.host = u.Host
		s.url = u.String()
	}
	hosts = map[string]*sess{s.host: s}
	http.DefaultTransport = &roundTripper{func(q *http.Request) *sess { return hosts[q.URL.Host] }}
	if flagUser != "" {
		flagSet("userID", flagUser)
	}
	if flagBlz != "" {
		flagSet("blz", flagBlz)
	}
	if explicit {
		flagSet("hbci.url", s.url)
	}
	if g.P(96) {
		flagSet("pin", s.pin)
	} else {
		bad("no PIN is given")
	}
	op.cliDebug = g.P(8)
	if op.cliDebug {
		args = append(args, []string{"-d", "--debug"}[g.N(2)])
	}
	// configuration
	other := ""
	usage := false
	cmd := ""
	switch g.W(3, 5, 4) {
	case 0:
		cmd = "accounts"
		op.kind = "accounts"
	case 1:
		cmd = "transactions"
	case 2:
		cmd = "balances"
	}
	if g.P(2) {
		usage = true
		args = append(args, "--nonsense")
		bad("an unknown flag is given")
	}
	var cargs []string
	var useUser, useBlz string // found when running
	acct, days, national := "", 10, false
	if cmd != "accounts" {
		if g.P(50) {
			acct = fmt.Sprint(g.R(1, 99999) * []int{1, 100000}[g.N(2)])
			if g.P(10) {
				acct = "0" + acct
			}
			if g.P(5) {
				acct = genID(g, 12)
			}
			if g.P(3) {
				acct = "123456789012"
			}
			cargs = append(cargs, "--accountID="+acct)
		}
		national = g.P(45)
		if national {
			cargs = append(cargs, "--disableSepa")
		}
	}
	if cmd == "transactions" {
		op.jobID = "HKKAZ"
		op.kind = "septx"
		op.libVers = []int{7}
		if national {
			op.kind, op.libVers = "tx", []int{5, 6}
		}
		if g.P(60) {
			days = []int{0, 1, 30, 365, 90, 31}[g.N(6)]
			cargs = append(cargs, fmt.Sprintf("--daysToFetch=%d", days))
		}
	}
	if cmd == "balances" {
		op.jobID = "HKSAL"
		op.kind = "sepabal"
		op.libVers = []int{7, 8}
		if national {
			op.kind, op.libVers = "bal", []int{5, 6}
		}
	}
	if g.P(10) {
		other = cliHome + "/other.yaml"
		args = append(args, "--config="+other)
	}
	all := append(append([]string{"banking"}, cmd), append(args, cargs...)...)
	if g.N(2) == 1 {
		all = append([]string{"banking"}, append(append(append([]string{}, args...), cmd), cargs...)...)
	}
	op.desc = fmt.Sprintf("%q", all[1:])
	// what the invocation will find and leave
	var file *cliConf
	known := !*unsure
	if other != "" {
		file = &cliConf{s.user, s.code}
		if g.P(30) {
			file = nil
			fs.Fs.Remove(other)
		} else {
			afero.WriteFile(fs.Fs, other, []byte(fmt.Sprintf("blz: %q\nuserID: %q\n", s.code, s.user)), 0o600)
		}
		known = true
	} else {
		file = *conf
	}
	op.noOut = s.t.Fault.P(3)
	fs.readLeft, fs.readHit = -1, false
	if s.t.Fault.P(5) && (present || other != "" && file != nil) {
		fs.readLeft = s.t.Fault.N(60)
		file, known = nil, true
	}
	useUser, useBlz = user, blz
	if file != nil {
		if useUser == "" {
			useUser = file.user
		}
		if useBlz == "" {
			useBlz = file.blz
		}
	}
	if !usage && !present && other == "" {
		// the tool remembers what it was called with
		*conf = &cliConf{user, blz}
		*unsure = false
	}
	fs.left, fs.hit = -1, false
	if s.t.Fault.P(6) {
		fs.left = s.t.Fault.N(40)
		fs.errno = []error{syscall.ENOSPC, syscall.EIO, errors.New("interrupted")}[s.t.Fault.N(3)]
	}
	// which values are used when the file is unknown is open
	if !known && (user == "" || blz == "") {
		op.may = "configuration file damaged"
		if useUser == "" || useUser != s.user {
			useUser = s.user
		}
		if useBlz != s.code {
			useBlz = s.code
		}
		if op.must != "" {
			op.may = ""
		}
	}
	if useUser == "" || useBlz == "" {
		bad("user or bank is not given")
	}
	if useBlz != s.code {
		bad("the bank is not known")
	}
	if acct == "" {
		acct = useUser
	}
	if cmd != "accounts" && !isAccount(acct) {
		bad("the account number is none")
	}
	if op.must == "" && cmd != "accounts" {
		ibn := germanIBAN(s.code, acct)
		nat := domain.AccountConnection{AccountID: acct, CountryCode: 280, BankID: s.code}
		intl := domain.InternationalAccountConnection{IBAN: ibn, AccountID: acct, BankID: domain.BankID{CountryCode: 280, ID: s.code}}
		if cmd == "balances" {
			intl.BIC = ent.bic
		}
		who := intlWire(intl)
		if national {
			who = natWire(nat)
		}
		op.expJob = func(ver int) []string {
			if cmd == "balances" {
				return []string{fmt.Sprintf("HKSAL:%d+%s+J", ver, who)}
			}
			var o []string
			for a := range s.days {
				for b := range s.days {
					o = append(o, fmt.Sprintf("HKKAZ:%d+%s+N+%s+%s", ver, who, dayBefore(a, days), b))
				}
			}
			sortStrings(o)
			return o
		}
	}
	op.exec = func() ([]string, error) {
		newProcess()
		viper.SetFs(fs)
		os.Args = all
		code := 0
		func() {
			defer func() {
				switch x := recover().(type) {
				case nil:
				case simrt.ExitCode:
					code = x.Code
				default:
					op.stdout, op.stderr = simrt.TakeStdout(), simrt.TakeStderr()
					panic(x)
				}
			}()
			banking.Entry()
		}()
		op.stdout, op.stderr = simrt.TakeStdout(), simrt.TakeStderr()
		if fs.readHit {
			s.w.st.fault("config-read")
		}
		if fs.hit {
			s.w.st.fault("config-write")
			*unsure = true
		}
		if code != 0 {
			return nil, fmt.Errorf("exit status %d: %s", code, op.stdout+op.stderr)
		}
		return nil, nil
	}
	return op
}

// fullStdout lets everything that is printed fail until the returned function
// is called.
func fullStdout() func() {
	f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		f, err = os.Open(os.DevNull)
	}
	if err != nil {
		return func() {}
	}
	old := os.Stdout
	os.Stdout = f
	return func() { os.Stdout = old; f.Close() }
}

func dayBefore(d string, n int) string {
	y, _ := strconv.Atoi(d[:4])
	m, _ := strconv.Atoi(d[4:6])
	x, _ := strconv.Atoi(d[6:])
	return day{y, m, x}.plus(-n).long()
}

// ---- the printed result

var (
	reTx   = regexp.MustCompile(`^tx acct (".*") bank \d+/(\S*) amount (\S+ \S+) valuta .*? booking (\S+)(?: \S+)? text (".*") bank (".*") account (".*") name (".*") purpose (".*") purpose2 ".*" id \d+ before (\S+ \S+) at (\S+).* after (\S+ \S+) at (\S+).*$`)
	reBal  = regexp.MustCompile(`^bal id (".*") sub ".*" bank \d+/(\S*) product (".*") cur \S* booked (\S+ \S+) at (\S+) .*?earmarked (\S+)(?: (\S+) at \S+ \S+)? credit (\S+(?: [A-Z]{3})?) avail`)
	reSBal = regexp.MustCompile(`^bal iban (".*") bic (".*") id ".*" sub ".*" bank \S+ product (".*") cur \S* booked (\S+ \S+) at (\S+) .*?earmarked (\S+)(?: (\S+) at \S+ \S+)? credit (\S+(?: [A-Z]{3})?) avail`)
	reAcct = regexp.MustCompile(`^acct (".*") sub ".*" bank \d+/(\S*) user (".*") cur (\S*) names (".*") (".*") product (".*") limit (\S*)/(\S+ \S*)/\d+ allowed|^acct (".*") sub ".*" bank \d+/(\S*) user (".*") cur (\S*) names (".*") (".*") product (".*") limit - allowed`)
)

func unq(s string) string {
	u, err := strconv.Unquote(s)
	if err != nil {
		return s
	}
	return u
}

// printedFields are the values a line for the row has to show, in order.
func printedFields(row string) []string {
	if m := reTx.FindStringSubmatch(row); m != nil {
		f := []string{m[4], unq(m[5]), m[3], unq(m[6]), unq(m[7]), unq(m[8]), unq(m[9])}
		if m[4] == "-" || strings.HasPrefix(m[4], "feb30") {
			f = f[1:]
		}
		return f
	}
	ear := func(a, c string) string {
		if a == "-" || strings.HasPrefix(a, "0.00") {
			return ""
		}
		return "(" + a + " " + c + ")*"
	}
	lim := func(l string) string { return strings.TrimSpace(l) }
	if m := reSBal.FindStringSubmatch(row); m != nil {
		return []string{unq(m[3]), unq(m[2]), unq(m[1]), m[5], m[4], ear(m[6], m[7]), lim(m[8])}
	}
	if m := reBal.FindStringSubmatch(row); m != nil {
		return []string{unq(m[3]), m[2], unq(m[1]), m[5], m[4], ear(m[6], m[7]), lim(m[8])}
	}
	if m := reAcct.FindStringSubmatch(row); m != nil {
		if m[1] != "" {
			return []string{m[2], unq(m[1]), unq(m[3]), m[4], unq(m[5]) + ", " + unq(m[6]), unq(m[7]), m[8] + ": " + m[9]}
		}
		return []string{m[11], unq(m[10]), unq(m[12]), m[13], unq(m[14]) + ", " + unq(m[15]), unq(m[16]), "-"}
	}
	return nil
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

// shows tells whether the line shows the fields in order.
func shows(line string, fields []string) bool {
	for _, f := range fields {
		f = squeeze(f)
		i := strings.Index(line, f)
		if i < 0 && strings.HasPrefix(f, "0.00 ") {
			f = "-" + f
			i = strings.Index(line, f)
		}
		if i < 0 {
			return false
		}
		line = line[i+len(f):]
	}
	return true
}

// resultLines are the printed lines that show an entry each.
func resultLines(out string) []string {
	var l []string
	head := false
	for _, x := range strings.Split(out, "\n") {
		x = squeeze(x)
		switch {
		case strings.HasPrefix(x, "BookingDate ") || strings.HasPrefix(x, "Product Name ") || strings.HasPrefix(x, "BankID AccountID "):
			head = true
			continue
		case !head, x == "", x == "* earmarked transactions", strings.HasPrefix(x, "Balance at "):
			continue
		}
		l = append(l, x)
	}
	return l
}

// checkPrinted compares what the tool prints with what the bank delivered.
func (s *sess) checkPrinted(op *opRec, exp []string) string {
	lines := resultLines(op.stdout)
	var fields [][]string
	multi := false
	for _, r := range exp {
		f := printedFields(r)
		if f == nil {
			return fmt.Sprintf("HARNESS: row %q is not understood", r)
		}
		for _, x := range f {
			multi = multi || strings.ContainsAny(x, "\n\v\f\r")
		}
		fields = append(fields, f)
	}
	s.w.st.check("printed")
	s.w.st.Rows += len(exp)
	if multi {
		all := squeeze(op.stdout)
		for _, f := range fields {
			if !shows(all, f) {
				return fmt.Sprintf("missing %q in %q", f, op.stdout)
			}
		}
		return ""
	}
	for i, f := range fields {
		if i >= len(lines) {
			return fmt.Sprintf("%d of %d entries are printed, missing %q", len(lines), len(exp), f)
		}
		if !shows(lines[i], f) {
			return fmt.Sprintf("entry %d of %d is printed as %q, expected %q", i+1, len(exp), lines[i], f)
		}
	}
	if len(lines) > len(exp) {
		return fmt.Sprintf("%d entries are printed, the bank sent %d; surplus %q", len(lines), len(exp), lines[len(exp)])
	}
	if len(exp) > 0 && reTx.MatchString(exp[0]) {
		a, b := reTx.FindStringSubmatch(exp[0]), reTx.FindStringSubmatch(exp[len(exp)-1])
		text := squeeze(op.stdout)
		want := []string{"Balance at " + a[11] + ": ", a[10], "Balance at " + b[13] + ": ", b[12]}
		if !shows(text, want) {
			return fmt.Sprintf("the balances %q are not printed: %q", want, clip(op.stdout, 1500))
		}
	}
	return ""
}
