package checks

func init() {
	group(&Group{Name: "misc", Pkgs: []string{"debug", "unsafe"}, Env: []string{"GODEBUG=clobberfree=1"},
		Real: []string{"debug", "unsafe"}})
	check(&Check{Prop: "C28", Group: "misc", Rule: "Each run draws 1 to 5 tasks, a call path of up to 40 functions, methods, closures and deferred calls for each trace, the tracing function and depth, and a schedule from its seed.",
		Assume: []string{"the frames reported by runtime.CallersFrames in the same function on the same line are the truth"}, Parts: []Part{
			{Scenario: "trace", Quick: 20000, Thorough: 200000, RaceQ: 2000, RaceT: 5000, Classes: []string{"trace", "race"}},
		}})
	check(&Check{Prop: "C30", Group: "misc", Rule: "Each run draws tasks that make, keep and use views of short-lived strings and byte slices, and the moments of garbage collections (also between the statements of the library) from its seed; freed memory is overwritten by the runtime.",
		Assume: []string{"the Go runtime overwrites freed memory when asked to (GODEBUG=clobberfree=1)"}, Parts: []Part{
			{Scenario: "views", Quick: 15000, Thorough: 100000, RaceQ: 1000, RaceT: 2000, Classes: []string{"view", "race"}},
		}})
}
