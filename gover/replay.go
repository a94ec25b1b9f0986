package main

import (
	"os/exec"
)

// runReplay runs the concrete harness of the property; failed means the real
// code misbehaved on a concrete input.
func runReplay(cmd, prop string) (string, bool) {
	out, err := exec.Command("bash", cmd, prop).CombinedOutput()
	if err == nil {
		return string(out), false
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
		return string(out), true
	}
	return string(out), false
}
