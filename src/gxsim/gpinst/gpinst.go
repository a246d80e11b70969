// Package gpinst instantiates the library's container templates (stl/gp) the
// way the gogp tool does: from the .gp form by filling in its placeholders, and
// from the .gp.go form by enabling its body.
package gpinst

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"gxsim/inst"
)

var pkgLine = regexp.MustCompile(`(?m)^package\s+\w+`)

// Instantiate returns the packages gpinst/<name>a (from name.gp) and
// gpinst/<name>b (from name.gp.go), whichever exist, with int values and no
// name prefix.
func Instantiate(repo, name string) ([]inst.Extra, error) {
	var out []inst.Extra
	dir := filepath.Join(repo, "stl", "gp")
	if b, err := os.ReadFile(filepath.Join(dir, name+".gp")); err == nil {
		s := string(b)
		s = strings.Replace(s, "<PACKAGE>", "package "+name+"a", 1)
		out = append(out, pkg(name+"a", fill(s), name+".gp.go"))
	}
	if b, err := os.ReadFile(filepath.Join(dir, name+".gp.go")); err == nil {
		s := enable(string(b))
		s = pkgLine.ReplaceAllString(s, "package "+name+"b")
		out = append(out, pkg(name+"b", fill(s), name+".gp.go"))
	}
	if len(out) == 0 {
		return nil, fmt.Errorf("no template %s", name)
	}
	return out, nil
}

func fill(s string) string {
	r := strings.NewReplacer("<GLOBAL_NAME_PREFIX>", "", "<VALUE_TYPE>", "GOGPValueType",
		"GOGPGlobalNamePrefix", "", "GOGPDequeNamePrefix", "", "<DEQUE_NAME_PREFIX>", "")
	return r.Replace(s)
}

// enable opens the block comment that switches a .gp.go body off.
func enable(s string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "/*") && strings.Contains(t, "disable all this file") {
			lines[i] = "//" + l
		}
	}
	return strings.Join(lines, "\n")
}

func pkg(name, src, file string) inst.Extra {
	fs := map[string]string{file: src}
	if !strings.Contains(src, "type GOGPValueType ") {
		fs["value_type.go"] = "package " + name + "\n\ntype GOGPValueType int\n"
	}
	return inst.Extra{Path: "gpinst/" + name, Files: fs}
}
