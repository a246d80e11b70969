package checks

func init() {
	group(&Group{Name: "fs", Pkgs: []string{"fs", "hash"}, OS: true,
		Real: []string{"fs (fingerprints, hashes, listings, statistics, path operations), hash"},
		Stub: []string{"file system (gxsim/simos: in memory, shuffled listings, short reads, failing calls)"}})
	rule := "Each run draws a tree, the listing order, 1 to 3 tasks of calls, short reads and at most one failing system call per library call from its seed."
	check(&Check{Prop: "C20", Group: "fs", Rule: rule, Parts: []Part{
		{Scenario: "tree-hash", Quick: 16000, Thorough: 400000, RaceQ: 400, RaceT: 4000, Classes: []string{"hash", "tree", "race"}},
	}})
	check(&Check{Prop: "C21", Group: "fs", Rule: rule, Parts: []Part{
		{Scenario: "tree-list", Quick: 60000, Thorough: 600000, RaceQ: 1000, RaceT: 4000, Classes: []string{"list", "tree", "race"}},
	}})
	rule = "Each run draws 1 to 3 tasks with a sequence of path operations in a tree of their own and failing system calls from its seed; the same operations are then done directly on a twin."
	check(&Check{Prop: "C22", Group: "fs", Rule: rule, Parts: []Part{
		{Scenario: "path-ops", Quick: 50000, Thorough: 600000, RaceQ: 1000, RaceT: 4000, Classes: []string{"ops", "race"}},
	}})
	rule = "Each run draws 1 to 5 tasks that change and ask for the working directory, with paths that do not exist and failing system calls, from its seed."
	check(&Check{Prop: "C36", Group: "fs", Rule: rule, Parts: []Part{
		{Scenario: "cwd", Quick: 80000, Thorough: 1500000, RaceQ: 2000, RaceT: 20000, Classes: []string{"cwd", "race"}},
	}})
}
