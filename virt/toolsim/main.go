// Command toolsim runs the gosql tool - the real main function of the current
// tree - as simulated processes on simulated file systems and servers.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/frk/gosql/zzsim/rt"
	"github.com/frk/gosql/zzsim/simos"
	"github.com/frk/gosql/zzsim/simpkgs"
	"github.com/frk/gosql/zzsim/simsql"
	"github.com/frk/gosql/zzsim/simutil"
)

type poolFile struct {
	Name    string
	Src     string
	Targets []string
	Decls   []string
	Deps    []int
	Fixed   []string
	Pkg     string // package name
	group   string
	idx     int
}

var pl struct {
	Module  string
	Exports map[string]string
	Sources map[string]string
	Pool    struct {
		Fixed  map[string]map[string]string
		Groups map[string][]*poolFile
	}
}

var (
	root    string
	projDir string
	sample  string
	evals   int
)

const (
	dsnA = "postgres:///sim_a?sslmode=disable"
	dsnB = "postgres://app@db.example/sim_b"
)

func die(err error) {
	fmt.Fprintln(os.Stderr, "toolsim:", err)
	os.Exit(4)
}

func main() {
	w := simutil.NewWorker("toolsim")
	b, err := os.ReadFile(w.Params["setup"])
	if err != nil {
		die(err)
	}
	if err := json.Unmarshal(b, &pl); err != nil {
		die(err)
	}
	for g, fs := range pl.Pool.Groups {
		for i, f := range fs {
			f.group, f.idx, f.Pkg = g, i, packageName(f.Src)
		}
	}
	root = filepath.Join(w.Params["scratch"], fmt.Sprintf("tool%d", os.Getpid()))
	projDir = filepath.Join(root, "proj")
	if err := os.MkdirAll(projDir, 0o755); err != nil {
		die(err)
	}
	simos.Root = root
	simpkgs.ModPath, simpkgs.Root = pl.Module, projDir
	simpkgs.Exports, simpkgs.Sources = pl.Exports, pl.Sources
	var deps []string
	for p := range pl.Exports {
		deps = append(deps, p)
	}
	sort.Strings(deps)
	if err := simpkgs.Warm(deps); err != nil {
		die(err)
	}
	for i, x := range []struct{ dsn, tmpl string }{{dsnA, "tool_a"}, {dsnB, "tool_b"}} {
		db := fmt.Sprintf("t%d_%d", os.Getpid(), i)
		if err := copyDB(w.Params["dsn"], db, x.tmpl); err != nil {
			die(err)
		}
		s, err := newServer(w.Params["dsn"], db)
		if err != nil {
			die(err)
		}
		s.alias = []string{"sim_a", "sim_b"}[i]
		servers[x.dsn] = s
	}
	simsql.Connect = connect
	w.Sample = func() string { return sample }
	run := modes[w.Check]
	if run == nil {
		die(fmt.Errorf("no mode %s", w.Check))
	}
	w.Run = func(w *simutil.Worker) *simutil.Violation {
		sample = ""
		simos.Forget()
		evals = w.Evals
		return run(w)
	}
	w.Nontrivial = func() bool { return w.Evals > evals }
	w.Main()
}

var modes = map[string]func(*simutil.Worker) *simutil.Violation{
	"C12": runC12, "C13": runC13, "C14": runC14, "C15": runC15, "C16": runC16, "C17": runC17, "C18": runC18, "C20": runC20,
	"C19":  runC19,
	"dump": runDump,
}

func copyDB(dsn, name, tmpl string) error {
	adm, err := newServer(dsn, "postgres")
	if err != nil {
		return err
	}
	defer adm.raw.Close()
	for i := 0; ; i++ {
		_, err = adm.exec(fmt.Sprintf("CREATE DATABASE %s TEMPLATE %s", name, tmpl))
		if err == nil || i > 200 {
			return err
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// runDump writes worlds for the comparison of the simulated loader and server
// with the real tool.
func runDump(w *simutil.Worker) *simutil.Violation {
	wd := drawWorld(profile{})
	lay(projDir, wd.tree)
	o := proc(procOpts{args: wd.args, cwd: wd.cwd})
	dir := filepath.Join(w.Params["dumpdir"], fmt.Sprint(w.Index()))
	for p, c := range map[string]tree{"before": wd.tree, "after": readTree(projDir)} {
		_ = os.MkdirAll(filepath.Join(dir, p), 0o755)
		lay(filepath.Join(dir, p), c)
	}
	b, _ := json.Marshal(map[string]interface{}{"args": wd.args, "cwd": short(wd.cwd), "code": o.code, "stderr": o.stderr, "root": root})
	_ = os.WriteFile(filepath.Join(dir, "run.json"), b, 0o644)
	rt.Hit("dump")
	return nil
}
