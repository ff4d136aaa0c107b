package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

// workspace is a scratch copy of the repository, instrumented.
type workspace struct {
	verif   string
	repo    string
	dir     string // scratch root
	src     string // copied repository
	harness []string
	mu      sync.Mutex
	bins    map[string]string
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOFLAGS", "-mod=mod")
	set("GONOSUMDB", "*")
	set("GONOSUMCHECK", "1")
	set("GOWORK", "off")
	set("GOSUMDB", "off")
	return env
}

func copyTree(from, to string, skip func(rel string, d fs.DirEntry) bool) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if skip != nil && rel != "." && skip(rel, d) {
			if d.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		dst := filepath.Join(to, rel)
		if d.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		in, err := os.Open(p)
		if err != nil {
			return err
		}
		defer in.Close()
		out, err := os.OpenFile(dst, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0o644)
		if err != nil {
			return err
		}
		if _, err := io.Copy(out, in); err != nil {
			out.Close()
			return err
		}
		return out.Close()
	})
}

const modPath = "github.com/vulpemventures/neutrino-elements"

func newWorkspace(verif, repo string, harnesses []string) (*workspace, error) {
	dir, err := os.MkdirTemp("", "verif-mc-")
	if err != nil {
		return nil, err
	}
	w := &workspace{verif: verif, repo: repo, dir: dir, src: filepath.Join(dir, "repo"), harness: harnesses, bins: map[string]string{}}
	err = copyTree(repo, w.src, func(rel string, d fs.DirEntry) bool {
		return rel == ".git" || rel == "bin" || strings.HasSuffix(rel, "_test.go")
	})
	if err != nil {
		return w, err
	}
	// gorilla/websocket takes part in the schedules
	out, err := w.goCmd(w.src, "list", "-m", "-f", "{{.Dir}}", "github.com/gorilla/websocket")
	if err != nil {
		return w, fmt.Errorf("%v\n%s", err, out)
	}
	ws := filepath.Join(dir, "websocket")
	if err := copyTree(strings.TrimSpace(out), ws, func(rel string, d fs.DirEntry) bool {
		return d.IsDir() || strings.HasSuffix(rel, "_test.go")
	}); err != nil {
		return w, err
	}
	if mod, err := os.ReadFile(filepath.Join(ws, "go.mod")); err == nil {
		l := strings.Split(string(mod), "\n")
		for i := range l {
			if strings.HasPrefix(l[i], "go ") {
				l[i] = "go 1.18" // for the generic functions of the instrumentation
			}
		}
		os.WriteFile(filepath.Join(ws, "go.mod"), []byte(strings.Join(l, "\n")), 0o644)
	}
	f, err := os.OpenFile(filepath.Join(w.src, "go.mod"), os.O_APPEND|os.O_WRONLY, 0)
	if err != nil {
		return w, err
	}
	fmt.Fprintf(f, "\nrequire verif/vs v0.0.0\nreplace verif/vs => %s\nreplace github.com/gorilla/websocket => %s\n", filepath.Join(verif, "rt/vs"), ws)
	f.Close()
	var pats []string
	for _, h := range append([]string{"lib"}, harnesses...) {
		hd := filepath.Join(verif, "harness", h)
		if _, err := os.Stat(hd); err != nil {
			continue
		}
		rel := filepath.Join("vsharness", h)
		if b, err := os.ReadFile(filepath.Join(hd, "PLACE")); err == nil {
			rel = strings.TrimSpace(string(b))
		}
		if err := copyTree(hd, filepath.Join(w.src, rel), nil); err != nil {
			return w, err
		}
		pats = append(pats, "./"+rel)
	}
	// files shared between harnesses
	for _, h := range harnesses {
		b, err := os.ReadFile(filepath.Join(verif, "harness", h, "LINKS"))
		if err != nil {
			continue
		}
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			f := strings.Fields(l)
			x, err := os.ReadFile(filepath.Join(verif, "harness", f[0]))
			if err == nil {
				err = os.WriteFile(filepath.Join(w.src, "vsharness", h, f[1]), x, 0o644)
			}
			if err != nil {
				return w, err
			}
		}
	}
	// programs that are run as they are
	os.Setenv("VS_PLAIN", dir)
	for _, h := range harnesses {
		b, err := os.ReadFile(filepath.Join(verif, "harness", h, "PLAIN"))
		if err != nil {
			continue
		}
		os.Chmod(dir, 0o755)
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			f := strings.Fields(l)
			if out, err := w.goCmd(w.src, "build", "-o", filepath.Join(dir, f[0]), f[1]); err != nil {
				return w, fmt.Errorf("%v\n%s", err, out)
			}
		}
	}
	err = instrument(w.src, goEnv(), func(p *listPkg) bool {
		return strings.HasPrefix(p.ImportPath, modPath) || p.ImportPath == "github.com/gorilla/websocket"
	}, pats...)
	return w, err
}

func (w *workspace) goCmd(dir string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	var b, e bytes.Buffer
	cmd.Stdout = &b
	cmd.Stderr = &e
	err := cmd.Run()
	if err != nil {
		return b.String() + e.String(), err
	}
	return b.String(), nil
}

// build makes the harness binary.
func (w *workspace) build(h string, race bool) (string, error) {
	rel := filepath.Join("vsharness", h)
	if b, err := os.ReadFile(filepath.Join(w.verif, "harness", h, "PLACE")); err == nil {
		rel = strings.TrimSpace(string(b))
	}
	bin := filepath.Join(w.dir, h+".bin")
	args := []string{"build", "-o", bin}
	if race {
		bin = filepath.Join(w.dir, h+".race")
		args = []string{"build", "-race", "-gcflags=verif/vs=-race=false", "-o", bin}
	}
	out, err := w.goCmd(w.src, append(args, "./"+rel)...)
	if err != nil {
		return "", fmt.Errorf("%v\n%s", err, out)
	}
	return bin, nil
}

func (w *workspace) close() {
	if w != nil && w.dir != "" {
		os.RemoveAll(w.dir)
	}
}
