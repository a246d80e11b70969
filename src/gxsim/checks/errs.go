package checks

func init() {
	group(&Group{Name: "errs", Pkgs: []string{"errors", "debug", "consts"}, Real: []string{"errors (registry, id errors, listing)"}})
	check(&Check{Prop: "C18", Group: "errs",
		Rule: "Each run draws 2 to 5 tasks that register, look up, format and list, and their schedule, from its seed; the registry lives on from run to run of a process, and runs of the second scenario start just below exhaustion.",
		Parts: []Part{
			{Scenario: "err", Quick: 24000, Thorough: 300000, RaceQ: 2000, RaceT: 20000, Batch: 100, Classes: []string{"err", "race"}},
			{Scenario: "err-full", Quick: 800, Thorough: 8000, RaceQ: 32, RaceT: 100, Batch: 1, Classes: []string{"err", "race"}},
		}})
}
