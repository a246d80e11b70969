package checks

func init() {
	group(&Group{Name: "gpq", Gp: []string{"lfqueue", "lfdeque", "ringbuffer"},
		Real: []string{"stl/gp lfqueue, lfdeque and ringbuffer templates, instantiated for int from .gp and .gp.go"}})
	rule := "Each run draws the template form, the buffer size, an initial content, the tasks and their calls, stalls and crashes of tasks and a scheduling style from its seed."
	check(&Check{Prop: "C25", Group: "gpq", Rule: rule, Parts: []Part{
		{Scenario: "lfqueue", Quick: 60000, Thorough: 1500000, RaceQ: 4000, RaceT: 30000, Classes: []string{"lin", "size", "progress", "race"}},
		{Scenario: "lfqueue-seq", Quick: 2500, Thorough: 20000, Classes: []string{"lin", "size"}},
	}})
	check(&Check{Prop: "C26", Group: "gpq", Rule: rule, Parts: []Part{
		{Scenario: "ring", Quick: 50000, Thorough: 1000000, RaceQ: 4000, RaceT: 30000, Classes: []string{"lin", "size", "progress", "race"}},
		{Scenario: "ring-seq", Quick: 2500, Thorough: 20000, Classes: []string{"lin", "size"}},
	}})
	check(&Check{Prop: "C27", Group: "gpq", Rule: rule, Parts: []Part{
		{Scenario: "deque", Quick: 50000, Thorough: 1000000, RaceQ: 4000, RaceT: 30000, Classes: []string{"lin", "size", "progress", "race"}},
		{Scenario: "deque-seq", Quick: 7500, Thorough: 60000, Classes: []string{"lin", "size"}},
		{Scenario: "deque-multi", Quick: 15000, Thorough: 200000, Classes: []string{"lin", "size", "progress"}},
	}, Known: []string{"C27-multi"}})
}
