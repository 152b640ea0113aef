package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/instr"
	"verif/rt"
)

const goroot = "/opt/veriftools/go1.26.10"

// buildChild compiles the simulation child from the working tree of repo and
// returns its path. Nothing is written under repo.
func buildChild(repo, verif, out string, race bool) (string, map[string]int, error) {
	info := map[string]int{}
	if err := os.MkdirAll(out, 0o755); err != nil {
		return "", nil, err
	}
	rep := map[string]string{}
	if err := rt.Write(goroot, out, rep); err != nil {
		return "", nil, err
	}
	info["patched_std_files"] = len(rep)
	var ierr error
	err := filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() {
			if strings.HasPrefix(d.Name(), ".") && rel != "." || rel == "example" || rel == "scripts" || d.Name() == "testdata" || d.Name() == "leaks_test" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		o, n, err := instr.File(p, src)
		if err != nil {
			ierr = err // a file that does not parse: let the compiler say so
			return nil
		}
		if n == 0 {
			return nil
		}
		f := filepath.Join(out, "repo__"+strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(f, o, 0o644); err != nil {
			return err
		}
		rep[p] = f
		info["instrumented_files"]++
		info["yield_points"] += n
		return nil
	})
	if err != nil {
		return "", nil, err
	}
	_ = ierr
	for _, sub := range []string{"child", "plan"} {
		fs, err := filepath.Glob(filepath.Join(verif, "sim", sub, "*.go"))
		if err != nil {
			return "", nil, err
		}
		for _, f := range fs {
			rep[filepath.Join(repo, "internal/vsim", sub, filepath.Base(f))] = f
		}
	}
	ob, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	ov := filepath.Join(out, "overlay.json")
	if err := os.WriteFile(ov, ob, 0o644); err != nil {
		return "", nil, err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return "", nil, err
		}
		if err := os.WriteFile(filepath.Join(out, "zmq"+filepath.Ext(f)), b, 0o644); err != nil {
			return "", nil, err
		}
	}
	bin := filepath.Join(out, "child")
	args, cgo := []string{"build"}, "0"
	if race { // the race detector's runtime needs cgo
		args, cgo = append(args, "-race", "-gcflags="+repoPkg+"/internal/vsim/...=-race=false"), "1"
	}
	args = append(args, "-overlay", ov, "-tags", "faketime,vsim", "-trimpath", "-buildvcs=false",
		"-mod=mod", "-modfile="+filepath.Join(out, "zmq.mod"), "-o", bin, "./internal/vsim/child")
	cmd := exec.Command(filepath.Join(goroot, "bin/go"), args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOROOT="+goroot, "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED="+cgo, "GOFLAGS=", "GOWORK=off", "GO111MODULE=on", "GOEXPERIMENT=", "GOCACHE="+filepath.Join(verif, ".build", "gocache"))
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Run(); err != nil {
		return "", nil, fmt.Errorf("building the simulation child: %v\n%s", err, buf.String())
	}
	return bin, info, nil
}
