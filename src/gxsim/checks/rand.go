package checks

func init() {
	group(&Group{Name: "rand", Pkgs: []string{"math/rand", "strings"},
		Real: []string{"math/rand (32 and 64 bit, own and package-level generators), strings.Rand"},
		Stub: []string{"time-stamp counter and wall clock (simulated time)"}})
	rule := "Each run draws 2 to 5 tasks, their operations and arguments, a scheduling style, stalls and clock behaviour from its seed."
	check(&Check{Prop: "C05", Group: "rand", Rule: rule, Parts: []Part{
		{Scenario: "rand-lin", Quick: 100000, Thorough: 1500000, RaceQ: 4000, RaceT: 20000, Classes: []string{"rand/lin", "rand/hang", "race"}},
	}})
	check(&Check{Prop: "C06", Group: "rand", Rule: rule, Parts: []Part{
		{Scenario: "rand-seed", Quick: 75000, Thorough: 500000, RaceQ: 2000, RaceT: 10000, Classes: []string{"rand/seed", "rand/hang", "race"}},
		{Scenario: "rand-range", Quick: 40000, Thorough: 300000, Classes: []string{"range"}},
		{Scenario: "rand-lin", Quick: 10000, Thorough: 50000, Classes: []string{"range"}},
	}})
	check(&Check{Prop: "C07", Group: "rand", Rule: rule, Parts: []Part{
		{Scenario: "rand-string", Quick: 30000, Thorough: 300000, RaceQ: 1500, RaceT: 8000, Classes: []string{"str", "race"}},
	}})
	group(&Group{Name: "hash", Pkgs: []string{"hash"}, Real: []string{"hash (all methods, Fingerprint, NoneHash)"}})
	check(&Check{Prop: "C12", Group: "hash", Rule: rule, Parts: []Part{
		{Scenario: "hash", Quick: 40000, Thorough: 400000, RaceQ: 1500, RaceT: 8000, Classes: []string{"hash", "race"}},
	}})
	check(&Check{Prop: "C13", Group: "hash", Rule: rule, Parts: []Part{
		{Scenario: "none", Quick: 75000, Thorough: 800000, RaceQ: 2500, RaceT: 10000, Classes: []string{"none", "race"}},
	}})
}
