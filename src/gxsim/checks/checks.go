// Package checks says which scenarios decide which property.
package checks

// Group is one harness binary and the library packages it runs.
type Group struct {
	Name    string
	Pkgs    []string // library packages, instrumented
	OS      bool     // file system redirected to the simulated one
	Windows []string // packages built against the simulated Windows API
	Gp      []string // container templates instantiated (stl/gp/<name>)
	Env     []string // environment of the harness process
	Real    []string // components that run real code
	Stub    []string // components that run a stand-in
}

// Part is one scenario run for a property.
type Part struct {
	Scenario string
	Quick    int      // runs in the quick tier
	Thorough int      // runs in the thorough tier
	RaceQ    int      // runs in the race-detector build, quick
	RaceT    int      // the same, thorough
	Classes  []string // violation classes that break this property
	Batch    int      // runs per process (default: chosen by the driver)
}

// Check decides one property.
type Check struct {
	Prop   string
	Group  string
	Parts  []Part
	Rule   string
	Assume []string
	Known  []string // ids in known_findings.json whose replay is shown
}

// Groups and Checks are filled by the group files.
var (
	Groups = map[string]*Group{}
	Checks = map[string]*Check{}
)

func group(g *Group) { Groups[g.Name] = g }
func check(c *Check) { Checks[c.Prop] = c }
