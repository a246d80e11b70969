package checks

func init() {
	group(&Group{Name: "iso", OS: true,
		Pkgs: []string{"hash", "encoding/ini", "crypto", "crypto/aes", "crypto/ecb", "crypto/rsa", "math", "math/rand", "math/prime", "stl", "io", "fs", "reflect", "time", "unsafe", "debug"},
		Real: []string{"hash, encoding/ini, crypto/*, math, math/rand, math/prime, stl, io, fs, reflect, time, unsafe, debug"},
		Stub: []string{"file system (gxsim/simos)", "the system's random source (seeded)"}})
	check(&Check{Prop: "C29", Group: "iso",
		Rule: "Each run draws 2 to 5 tasks, a worker with its own objects and operations for each (or readers of common objects that nobody changes), and a schedule from its seed; every task's record is compared with that of the same worker run alone before and after.",
		Parts: []Part{
			{Scenario: "own", Quick: 12000, Thorough: 300000, RaceQ: 1600, RaceT: 20000, Classes: []string{"iso", "race"}},
			{Scenario: "shared-read", Quick: 6000, Thorough: 150000, RaceQ: 1200, RaceT: 10000, Classes: []string{"iso", "race"}},
		}})
}
