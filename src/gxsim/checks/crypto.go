package checks

func init() {
	group(&Group{Name: "crypto", Pkgs: []string{"crypto", "crypto/aes", "crypto/ecb", "crypto/rsa"},
		Real: []string{"crypto (padding), crypto/aes, crypto/ecb, crypto/rsa and the standard library's ciphers below them"},
		Stub: []string{"the system's random source (seeded, can fail)", "the message link between the parties (loses, repeats, reorders, damages)"}})
	rule := "Each run draws sessions, keys, messages, the schedule of the parties and the faults on the link from its seed."
	check(&Check{Prop: "C14", Group: "crypto", Rule: rule, Parts: []Part{
		{Scenario: "aes", Quick: 80000, Thorough: 1000000, RaceQ: 3000, RaceT: 20000, Classes: []string{"aes", "race"}},
		{Scenario: "padding", Quick: 50000, Thorough: 300000, Classes: []string{"pad"}},
	}})
	check(&Check{Prop: "C15", Group: "crypto", Rule: rule, Parts: []Part{
		{Scenario: "aes-damage", Quick: 100000, Thorough: 1500000, Classes: []string{"damage"}},
		{Scenario: "padding", Quick: 50000, Thorough: 300000, Classes: []string{"pad"}},
	}})
	check(&Check{Prop: "C16", Group: "crypto", Rule: rule, Parts: []Part{
		{Scenario: "memory", Quick: 40000, Thorough: 400000, RaceQ: 3000, RaceT: 20000, Classes: []string{"mem", "race"}},
	}})
	check(&Check{Prop: "C17", Group: "crypto", Rule: rule, Parts: []Part{
		{Scenario: "rsa", Quick: 12000, Thorough: 200000, RaceQ: 600, RaceT: 10000, Classes: []string{"rsa", "race"}},
		{Scenario: "codec", Quick: 20000, Thorough: 500000, RaceQ: 600, RaceT: 10000, Classes: []string{"codec", "race"}},
	}})
}
