package main

import (
	"context"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// buildTest compiles the repository's package with an additional in-package test file (go test -overlay), which stays
// outside the repository. "" if it does not compile.
func (c *Ctx) buildTest(race bool, files ...string) (string, string) {
	return c.buildTestTags(race, "", files...)
}

// buildTestTags is buildTest with build tags; faketime needs a binary without cgo.
func (c *Ctx) buildTestTags(race bool, tags string, files ...string) (string, string) {
	rep := map[string]string{}
	for _, f := range files {
		rep[filepath.Join(c.Repo, f)] = filepath.Join(c.Verif0(), "harness", "inpkg", f)
	}
	ov := filepath.Join(c.Scratch, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	os.WriteFile(ov, b, 0644)
	out := filepath.Join(c.Scratch, "inpkg"+tags+".test")
	args := []string{"test", "-c", "-vet=off", "-buildvcs=false", "-overlay", ov, "-o", out}
	if race {
		args = append(args, "-race")
	}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	cmd := exec.Command(goBin(), append(args, ".")...)
	cmd.Dir = c.Repo
	cmd.Env = buildEnv()
	if tags == "faketime" {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=0")
	}
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", string(o)
	}
	return out, ""
}

// Verif0 is where the harness sources are (evidence may go elsewhere in experiments).
func (c *Ctx) Verif0() string {
	if d := os.Getenv("VH_SRC"); d != "" {
		return d
	}
	if _, err := os.Stat(filepath.Join(c.Verif, "harness", "inpkg")); err == nil {
		return c.Verif
	}
	return "/verif"
}

// runTest runs one in-package test; lines of output.
func (c *Ctx) runTest(bin, name string, d time.Duration, env ...string) ([]string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^"+name+"$", "-test.v")
	cmd.Dir = c.Scratch
	cmd.Env = append(buildEnv(), env...)
	o, err := cmd.CombinedOutput()
	return strings.Split(string(o), "\n"), err
}

func racesIn(raw []string) map[string]string {
	out := map[string]string{}
	for i := 0; i < len(raw); i++ {
		if strings.Contains(raw[i], "WARNING: DATA RACE") {
			j := i + 1
			for j < len(raw) && !strings.HasPrefix(raw[j], "==================") {
				j++
			}
			blk := raw[i:j]
			key := raceKey(blk)
			if _, ok := out[key]; !ok {
				out[key] = strings.Join(blk, "\n")
			}
			i = j
		}
	}
	return out
}
