package main

func describe(prop string) description {
	p := profiles[prop]()
	d := description{
		real:        []string{"client", "dialog", "message", "segment", "element", "swift", "token", "charset", "transport", "transport/https", "transport/middleware", "net/http client above the RoundTripper (runs that use the HTTPS transports)", "bankinfo lookup", "internal loggers"},
		stub:        []string{"the bank (an independent implementation of the wire syntax with generated data)", "the network below http.RoundTripper or transport.Transport", "clock", "random source", "map iteration order", "standard output and error (captured)"},
		assumptions: []string{"the simulated bank's reading of the FinTS wire format", "seams are placed by a source-to-source build overlay, the statements themselves are the tree's own"},
	}
	d.rule = "One case is one seeded run: a generated bank, client configuration and sequence of operations, with the network, the bank, the clock and the read sizes disturbed by draws from the same seed. A run counts as distinct and non-trivial when at least one message was exchanged and the digest of all posted messages, faults and operations differs from that of every other run."
	switch p.scen {
	case "conc":
		d.stub = append(d.stub, "the thread scheduler (one task at a time, switched at statement boundaries)")
	case "keys":
		d.real = []string{"domain keys", "message", "segment", "element", "charset", "crypto/rsa and ripemd160"}
		d.stub = []string{"the random source (may fail or give few bytes at a time)", "clock", "the receiver of the signed message (parses it and verifies the signature)"}
		d.rule = "One case is one seeded run: a history of key generations, signatures and encryptions. A run counts as distinct and non-trivial when the digest of operations, faults and outcomes differs from that of every other run."
	case "bankinfo":
		d.real = []string{"bankinfo parser", "charset", "encoding/csv"}
		d.stub = []string{"the file being read (an io.Reader with faults)"}
		d.rule = "One case is one seeded run: a generated directory file read through a reader that splits, fails or ends early by draws from the same seed. A run counts as distinct and non-trivial when the digest of file and fault differs from that of every other run."
	case "cli":
		d.real = append(d.real, "cmd/banking", "cobra and viper")
		d.stub = append(d.stub, "process exit (recorded)", "http.DefaultTransport")
	}
	return d
}
