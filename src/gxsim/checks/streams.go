package checks

func init() {
	group(&Group{Name: "streams", Pkgs: []string{"io", "encoding/ini"}, OS: true,
		Real: []string{"io.Copys, io.CopysBuffer, encoding/ini"},
		Stub: []string{"source and destination devices (harness)", "file system (gxsim/simos)"}})
	rule := "Each run draws 1 to 3 concurrent copies with their sizes, buffers, optional interfaces, read segmentation and device faults from its seed."
	check(&Check{Prop: "C08", Group: "streams", Rule: rule, Parts: []Part{
		{Scenario: "copy", Quick: 12500, Thorough: 150000, RaceQ: 750, RaceT: 4000, Classes: []string{"copy/data", "copy/panic", "copy/hang", "race"}},
		{Scenario: "copy-fault", Quick: 7500, Thorough: 100000, Classes: []string{"copy/data", "copy/panic", "copy/hang"}},
	}})
	check(&Check{Prop: "C09", Group: "streams", Rule: rule, Parts: []Part{
		{Scenario: "copy-fault", Quick: 20000, Thorough: 300000, Classes: []string{"copy/error", "copy/panic", "copy/hang"}},
		{Scenario: "copy", Quick: 4000, Thorough: 20000, Classes: []string{"copy/error"}},
	}})
	rule = "Each run draws a text (sections, keys, comments, blank and long lines, line endings), the segmentation of its reads, device faults and the interleaving of 2 to 4 readers from its seed."
	check(&Check{Prop: "C10", Group: "streams", Rule: rule, Parts: []Part{
		{Scenario: "ini", Quick: 15000, Thorough: 150000, RaceQ: 750, RaceT: 4000, Classes: []string{"ini/parse", "ini/hang", "race"}},
	}})
	check(&Check{Prop: "C11", Group: "streams", Rule: rule, Parts: []Part{
		{Scenario: "ini-fault", Quick: 20000, Thorough: 200000, Classes: []string{"ini/fault", "ini/leak", "ini/parse", "ini/hang"}},
		{Scenario: "ini", Quick: 2500, Thorough: 20000, Classes: []string{"ini/leak"}},
	}})
}
