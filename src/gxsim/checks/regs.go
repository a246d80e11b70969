package checks

func init() {
	group(&Group{Name: "regs", Pkgs: []string{"regable", "errors", "debug", "consts", "math"}, Real: []string{"regable (registrars, ids, objects, listings), errors, math.RangeUint32"}})
	check(&Check{Prop: "C19", Group: "regs",
		Rule: "Each run draws a history of registrations (with refused ones and lookups in between) and then 2 to 4 tasks that get, set, format and list the variables, and their schedule, from its seed; registrations live on from run to run of a process. Runs of the second scenario exhaust registrars or finish registration.",
		Parts: []Part{
			{Scenario: "reg", Quick: 24000, Thorough: 400000, RaceQ: 2000, RaceT: 20000, Batch: 60, Classes: []string{"reg", "race"}},
			{Scenario: "reg-full", Quick: 800, Thorough: 10000, RaceQ: 40, RaceT: 200, Batch: 1, Classes: []string{"reg", "race"}},
		}})
}
