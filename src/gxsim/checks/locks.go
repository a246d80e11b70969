package checks

func init() {
	group(&Group{Name: "locks", Pkgs: []string{"sync"}, Real: []string{"sync.SpinLock, sync.RWSpinLock"}})
	rule := "Each run draws 2 to 6 contending tasks, their lock operations, a scheduling style and task stalls or crashes from its seed."
	check(&Check{Prop: "C01", Group: "locks", Rule: rule, Parts: []Part{
		{Scenario: "spin", Quick: 12000, Thorough: 400000, RaceQ: 1200, RaceT: 20000, Classes: []string{"excl", "race"}},
		{Scenario: "long-hold", Quick: 48, Thorough: 2000, Batch: 1, Classes: []string{"excl"}},
	}})
	check(&Check{Prop: "C02", Group: "locks", Rule: rule, Parts: []Part{
		{Scenario: "rw", Quick: 16000, Thorough: 400000, RaceQ: 1200, RaceT: 20000, Classes: []string{"excl", "race"}},
		{Scenario: "rw-share", Quick: 3000, Thorough: 60000, RaceQ: 400, RaceT: 4000, Classes: []string{"excl", "share", "race"}},
		{Scenario: "long-hold", Quick: 48, Thorough: 2000, Batch: 1, Classes: []string{"excl"}},
		{Scenario: "long-late", Quick: 48, Thorough: 2000, Batch: 6, Classes: []string{"excl"}},
	}})
	check(&Check{Prop: "C03", Group: "locks", Rule: rule, Parts: []Part{
		{Scenario: "spin", Quick: 6000, Thorough: 300000, Classes: []string{"progress", "misuse/refused-legit"}},
		{Scenario: "rw", Quick: 12000, Thorough: 300000, Classes: []string{"progress", "misuse/refused-legit"}},
		{Scenario: "rw-share", Quick: 1600, Thorough: 60000, Classes: []string{"progress", "misuse/refused-legit"}},
		{Scenario: "long-hold", Quick: 48, Thorough: 2000, Batch: 1, Classes: []string{"progress", "misuse/refused-legit"}},
		{Scenario: "long-late", Quick: 160, Thorough: 4000, Batch: 10, Classes: []string{"progress", "misuse/refused-legit"}},
	}})
	check(&Check{Prop: "C04", Group: "locks", Rule: rule, Parts: []Part{
		{Scenario: "misuse-race", Quick: 30000, Thorough: 300000, RaceQ: 1500, RaceT: 5000, Classes: []string{"misuse"}},
		{Scenario: "misuse-seq", Quick: 10000, Thorough: 100000, Classes: []string{"misuse"}},
		{Scenario: "misuse-mix", Quick: 60000, Thorough: 1000000, Classes: []string{"misuse"}},
		{Scenario: "spin", Quick: 10000, Thorough: 20000, Classes: []string{"misuse"}},
		{Scenario: "rw", Quick: 20000, Thorough: 20000, Classes: []string{"misuse"}},
	}})
}
