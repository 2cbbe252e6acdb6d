package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Native builds of the repository with the harness overlaid.

type nativeBin struct {
	bin string
	dir string
	err error
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOSUMDB=off", "GOPROXY=off")
}

// buildNative compiles the package tests with the overlay files.
func buildNative(scratch, name string, overlay map[string][]byte, tags string) *nativeBin {
	nb := &nativeBin{dir: filepath.Join(scratch, name)}
	os.MkdirAll(nb.dir, 0o755)
	rep := map[string]string{}
	for p, data := range overlay {
		f := filepath.Join(nb.dir, filepath.Base(p))
		if err := os.WriteFile(f, data, 0o644); err != nil {
			nb.err = err
			return nb
		}
		rep[p] = f
	}
	mt, err := os.ReadFile(filepath.Join(verifDir, "harness", "native", "zz_verif_main_test.go"))
	if err != nil {
		nb.err = err
		return nb
	}
	f := filepath.Join(nb.dir, "zz_verif_main_test.go")
	os.WriteFile(f, mt, 0o644)
	rep[filepath.Join(repoDir, "zz_verif_main_test.go")] = f
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(nb.dir, "overlay.json")
	os.WriteFile(ov, js, 0o644)
	nb.bin = filepath.Join(nb.dir, "vv.test")
	args := []string{"test", "-vet=off", "-c", "-overlay", ov, "-o", nb.bin}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		nb.err = fmt.Errorf("go test -c: %v: %s", err, out)
	}
	return nb
}

type nativeRes struct {
	Res  string   `json:"res"`
	Outs []string `json:"outs"`
	Used int      `json:"used"`
}

// runCases executes cases natively in one process; missing results mean that
// the process died or hung (text tells which).
func (nb *nativeBin) runCases(cases []*Case, timeout time.Duration, procs int) (res []nativeRes, text string) {
	dir, err := os.MkdirTemp(nb.dir, "run")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(dir)
	js, _ := json.Marshal(cases)
	in := filepath.Join(dir, "cases.json")
	outf := filepath.Join(dir, "out.json")
	os.WriteFile(in, js, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, nb.bin, "-test.run", "^TestVVReplay$", "-test.timeout", "0")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VV_CASES="+in, "VV_OUT="+outf, fmt.Sprintf("GOMAXPROCS=%d", procs), "GOTRACEBACK=single")
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err = cmd.Run()
	data, _ := os.ReadFile(outf)
	for _, l := range strings.Split(string(data), "\n") {
		if l == "" {
			continue
		}
		var r nativeRes
		if json.Unmarshal([]byte(l), &r) == nil {
			res = append(res, r)
		}
	}
	switch {
	case ctx.Err() != nil:
		text = "fail: hang: no result after " + timeout.String()
	case err != nil:
		text = "fail: process died: " + firstLine(buf.String())
	}
	return
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "unexpected fault") {
			return strings.TrimSpace(l)
		}
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// replay runs one violating case natively, several times; it returns the
// failure text or "" when it did not reproduce.
func (nb *nativeBin) replay(c *Case) string {
	if nb.err != nil {
		return ""
	}
	for i := 0; i < 3; i++ {
		procs := 1
		if i == 2 {
			procs = 4
		}
		res, text := nb.runCases([]*Case{c}, 20*time.Second, procs)
		if len(res) == 1 {
			if strings.HasPrefix(res[0].Res, "fail") {
				return res[0].Res
			}
			continue
		}
		if text != "" {
			return text
		}
	}
	return ""
}

// validate compares sampled completed paths with native runs. It returns the
// number that agreed, and descriptions of those that did not.
func (nb *nativeBin) validate(cases []*Case) (ok int, bad []string) {
	if nb.err != nil || len(cases) == 0 {
		return 0, nil
	}
	todo := cases
	for len(todo) > 0 {
		res, text := nb.runCases(todo, 60*time.Second, 1)
		for i, r := range res {
			c := todo[i]
			switch {
			case r.Res != "ok":
				bad = append(bad, fmt.Sprintf("%s: native %s", c.Harness, r.Res))
			case strings.Join(r.Outs, " ") != strings.Join(c.Outs, " "):
				bad = append(bad, fmt.Sprintf("%s: outputs differ: engine %v native %v nd %v sw %v", c.Harness, c.Outs, r.Outs, c.ND, c.Switches))
			default:
				ok++
			}
		}
		if len(res) >= len(todo) {
			break
		}
		bad = append(bad, fmt.Sprintf("%s: native %s", todo[len(res)].Harness, text))
		todo = todo[len(res)+1:]
		if len(bad) > 5 {
			break
		}
	}
	return
}
