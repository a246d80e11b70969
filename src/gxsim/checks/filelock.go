package checks

func init() {
	group(&Group{Name: "filelock", Pkgs: []string{"sync/filelock"}, Windows: []string{"sync/filelock"},
		Real: []string{"sync/filelock.Mutex"}, Stub: []string{"Windows file table (CreateFile, CloseHandle, sharing rules)"}})
	rule := "Each run draws 1 to 4 simulated processes with 1 to 4 goroutines on shared or private lock objects and one or two lock files, their holds and pauses, a process kill and restart, failing CreateFile calls, a foreign program that opens the file, stalls and a schedule from its seed."
	as := []string{"Windows is represented by a model of its file table: exclusive opens, sharing violations, handle reuse and closing at process death; no Windows kernel runs."}
	check(&Check{Prop: "C23", Group: "filelock", Rule: rule, Assume: as, Parts: []Part{
		{Scenario: "filelock", Quick: 40000, Thorough: 600000, RaceQ: 4000, RaceT: 20000, Classes: []string{"excl", "race"}},
	}})
	check(&Check{Prop: "C24", Group: "filelock", Rule: rule, Assume: as, Parts: []Part{
		{Scenario: "filelock", Quick: 40000, Thorough: 600000, Classes: []string{"progress"}},
	}})
}
