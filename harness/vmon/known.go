package main

import (
	"os"
	"path/filepath"
	"strings"
)

// knownFinding tells whether a finding is listed in the committed file
// known_findings.txt. Lines: "open: property=<id> key=<key> <text>".
func knownFinding(prop, key string) (string, bool) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return "", false
	}
	head := "open: property=" + prop + " key=" + key + " "
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, head) {
			return strings.TrimPrefix(l, head), true
		}
	}
	return "", false
}

// Known reports a violation unless it is a listed finding.
func (c *Ctx) Known(key, detail string) {
	if t, ok := knownFinding(c.ch.ID, key); ok {
		c.Out.Known[t]++
		return
	}
	c.Fail("%s", detail)
}
