package main

// profile says what kind of runs a check generates.
type profile struct {
	name        string
	scen        string // session, clock, map, conc, transport, bankinfo, directory, cli
	gen         genProf
	netFault    int // percent of exchanges
	netKinds    kinds
	bankFault   int
	wNoSyn      int
	wNoPayload  int
	wBadData    int
	wLoop       int
	wNoFn       int
	wAskTAN     int
	wBadUPD     int
	corrupt     int
	closeErr    bool
	viaHTTP     int
	dialogLevel int
	debug       int
	jumpy       int
	noHashReq   bool
	maxOps      int
	quietRun    int // percent of runs without any fault
	dataChange  int // percent of operations before which the bank's data change
	badConfig   int // percent of sessions with an attempt to make a client of bad settings
	badInput    int // percent of operations with an inexpressible input
	ops         opWeights
	steps       uint64
}

type opWeights struct{ accounts, tx, septx, bal, sepabal, info, status, comm int }

func (p *profile) budget() uint64 {
	if p.steps > 0 {
		return p.steps
	}
	return 15000000
}

// kinds are weighted network faults; the first is the plainest.
type kinds []struct {
	name string
	w    int
}

func (k kinds) pick(s *stream) string {
	var w []int
	for _, x := range k {
		w = append(w, x.w)
	}
	return k[s.W(w...)].name
}

var allNet = kinds{{"replylost", 3}, {"reqlost", 2}, {"truncmsg", 3}, {"truncraw", 2}, {"truncerr", 2}, {"status", 2}, {"garbage", 2}, {"empty", 1}, {"echo", 1}, {"stale", 1}}
var truncNet = kinds{{"truncmsg", 5}, {"truncraw", 2}, {"truncerr", 2}, {"empty", 1}}

var evenOps = opWeights{2, 3, 2, 2, 2, 1, 2, 1}

func base(name string) *profile {
	return &profile{name: name, scen: "session", gen: genProf{announce: 15, warn: 25, signed: 30, emptyKaz: 15, midChange: 4},
		netFault: 8, netKinds: allNet, badInput: 2, bankFault: 6, wNoSyn: 1, wNoPayload: 1, wBadData: 1, wAskTAN: 1, wBadUPD: 1, wLoop: 1, wNoFn: 1, viaHTTP: 30, dialogLevel: 20, debug: 20,
		jumpy: 10, maxOps: 6, quietRun: 25, dataChange: 30, ops: evenOps}
}

// profiles of the checks.
var profiles = map[string]func() *profile{
	"P01": func() *profile { p := base("P01"); p.badInput = 6; p.dialogLevel = 40; p.netFault = 12; return p },
	"P02": func() *profile {
		p := base("P02")
		p.badInput = 4
		p.wNoSyn = 4
		p.bankFault = 12
		p.netFault = 12
		return p
	},
	"P03": func() *profile { p := base("P03"); p.badInput = 15; p.netFault = 3; p.bankFault = 3; return p },
	"P04": func() *profile {
		p := base("P04")
		p.debug = 10
		p.badConfig = 10
		p.netFault = 15
		p.badInput = 5
		p.ops.comm = 2
		return p
	},
	"P05": func() *profile {
		p := base("P05")
		p.bankFault, p.wBadData, p.wAskTAN = 12, 6, 2
		p.ops = opWeights{tx: 5, septx: 4, accounts: 1}
		p.gen.manyPages = 5
		p.dialogLevel = 0
		return p
	},
	"P06": func() *profile {
		p := base("P06")
		p.scen = "clock"
		p.ops = opWeights{2, 5, 4, 2, 2, 1, 2, 0}
		p.jumpy = 30
		p.dialogLevel = 10
		p.netFault = 2
		p.bankFault = 2
		return p
	},
	"P07": func() *profile {
		p := base("P07")
		p.bankFault, p.wBadData, p.wAskTAN = 12, 6, 2
		p.ops = opWeights{bal: 5, sepabal: 5, accounts: 1}
		p.gen.manyPages = 5
		p.dialogLevel = 0
		return p
	},
	"P08": func() *profile {
		p := base("P08")
		p.ops = opWeights{8, 1, 1, 1, 1, 1, 1, 1}
		p.dataChange = 50
		p.dialogLevel = 30
		p.bankFault, p.wBadUPD = 10, 6
		return p
	},
	"P09": func() *profile {
		p := base("P09")
		p.bankFault = 25
		p.wNoSyn = 0
		p.wNoPayload = 0
		p.wBadData, p.wAskTAN, p.wLoop = 0, 1, 0
		p.netFault = 2
		p.gen.warn = 50
		return p
	},
	"P10": func() *profile { p := base("P10"); p.netKinds = truncNet; p.netFault = 25; p.bankFault = 3; return p },
	"P11": func() *profile {
		p := base("P11")
		p.wBadData, p.wLoop = 12, 6
		p.ops = opWeights{2, 5, 4, 2, 2, 1, 3, 1}
		p.corrupt = 18
		p.netFault = 4
		p.bankFault = 20
		p.noHashReq = false
		p.viaHTTP = 10
		return p
	},
	"P12": func() *profile {
		p := base("P12")
		p.netFault = 20
		p.bankFault = 15
		p.wNoSyn = 3
		p.dialogLevel = 35
		p.maxOps = 8
		return p
	},
	"P13": func() *profile {
		p := base("P13")
		p.dialogLevel = 60
		p.bankFault = 12
		p.wNoSyn = 4
		p.netFault = 12
		return p
	},
	"P14": func() *profile { p := base("P14"); p.scen = "map"; p.dialogLevel = 60; p.dataChange = 50; return p },
	"P15": func() *profile { p := base("P15"); p.dataChange = 60; p.wNoSyn = 4; p.bankFault = 10; return p },
	"P16": func() *profile {
		p := base("P16")
		p.gen.exoticBPD = 60
		p.dataChange = 50
		p.dialogLevel = 0
		p.ops = opWeights{1, 3, 3, 3, 3, 0, 3, 0}
		p.netFault = 4
		return p
	},
	"P17": func() *profile { p := base("P17"); p.netFault = 20; p.bankFault = 10; return p },
	"P18": func() *profile {
		p := base("P18")
		p.gen.manyPages = 12
		p.bankFault, p.wLoop = 10, 6
		p.dialogLevel = 0
		p.ops = opWeights{0, 4, 4, 3, 3, 0, 3, 0}
		return p
	},
	"P19": func() *profile {
		p := base("P19")
		p.scen = "conc"
		p.debug = 0
		p.maxOps = 4
		p.netFault = 5
		p.bankFault = 4
		p.jumpy = 5
		return p
	},
	"P20": func() *profile {
		p := base("P20")
		p.scen = "transport"
		p.viaHTTP = 90
		p.netFault = 20
		p.closeErr = true
		p.gen.bulk = 100
		p.debug = 30
		return p
	},
	"P21": func() *profile { p := base("P21"); p.scen = "directory"; p.dialogLevel = 0; p.netFault = 4; return p },
	"P22": func() *profile { p := base("P22"); p.scen = "bankinfo"; return p },
	"P23": func() *profile {
		p := base("P23")
		p.bankFault, p.wBadData, p.wAskTAN = 12, 6, 2
		p.ops = opWeights{status: 8, accounts: 1}
		p.gen.manyPages = 5
		p.dialogLevel = 0
		return p
	},
	"P24": func() *profile {
		p := base("P24")
		p.ops = opWeights{1, 1, 1, 1, 1, 1, 1, 8}
		p.dialogLevel = 0
		p.netFault = 12
		p.bankFault = 12
		return p
	},
	"P25": func() *profile {
		p := base("P25")
		p.scen = "cli"
		p.netFault = 8
		p.bankFault = 8
		p.viaHTTP = 100
		p.dialogLevel = 0
		p.debug = 0
		return p
	},
	"P27": func() *profile {
		p := base("P27")
		p.bankFault, p.wNoPayload, p.wAskTAN = 12, 4, 2
		p.ops = opWeights{info: 8, accounts: 1, bal: 1}
		p.gen.manyPages = 5
		p.dialogLevel = 0
		p.debug = 0
		return p
	},
	"P28": func() *profile {
		p := base("P28")
		p.netFault = 20
		p.netKinds = kinds{{"stale", 8}, {"echo", 1}, {"replylost", 1}, {"reqlost", 1}}
		p.dialogLevel = 25
		return p
	},
	"P26": func() *profile {
		p := base("P26")
		p.scen = "keys"
		return p
	},
}

// stats are collected over many runs.
type stats struct {
	Runs      int            `json:"runs"`
	Exchanges int            `json:"exchanges"`
	Ops       int            `json:"ops"`
	OkOps     int            `json:"ok_ops"`
	FailOps   int            `json:"fail_ops"`
	Rows      int            `json:"rows"`
	Pages     int            `json:"pages"`
	Switches  int            `json:"switches"`
	Steps     uint64         `json:"steps"`
	SimSecs   float64        `json:"sim_secs"`
	OpKinds   map[string]int `json:"op_kinds"`
	Faults    map[string]int `json:"faults"`
	Checks    map[string]int `json:"checks"`
	States    map[string]int `json:"states"`
	MaxSteps  uint64         `json:"max_steps"`
}

func newStats() *stats {
	return &stats{OpKinds: map[string]int{}, Faults: map[string]int{}, Checks: map[string]int{}, States: map[string]int{}}
}

func (s *stats) fault(n string) { s.Faults[n]++ }
func (s *stats) check(n string) { s.Checks[n]++ }
