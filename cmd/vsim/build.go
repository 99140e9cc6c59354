package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"

	"vsim/instr"
)

// prepare builds what the check's parts need and starts the database.
func prepare(c *check, seed int64, tier string) error {
	pgErr := make(chan error, 1)
	go func() {
		var err error
		cluster, err = StartPG(scratch)
		pgErr <- err
	}()
	pgDone := false
	waitPG := func() error {
		if pgDone {
			return nil
		}
		pgDone = true
		return <-pgErr
	}
	defer func() {
		if !pgDone {
			<-pgErr
		}
	}()
	built := map[string]string{}
	for _, p := range c.Parts {
		key := fmt.Sprint(p.Worker, p.Race)
		p.params = map[string]string{}
		switch p.Worker {
		case "libsim":
			if err := prepareLib(p, built, key, seed, waitPG); err != nil {
				return err
			}
		case "querysim":
			if err := prepareQuery(p, built, key, seed, tier, waitPG); err != nil {
				return err
			}
		case "toolsim":
			if err := prepareTool(p, built, key, seed, waitPG); err != nil {
				return err
			}
		default:
			return fmt.Errorf("unknown worker %s", p.Worker)
		}
	}
	return waitPG()
}

func goBuild(dir, overlay, out, pkg string, race bool) error {
	args := []string{"build", "-overlay", overlay, "-o", out}
	if race {
		args = append(args, "-race")
		if err := addPool(overlay); err != nil {
			return err
		}
	}
	args = append(args, pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Run(); err != nil {
		s := b.String()
		if len(s) > 4000 {
			s = s[:4000]
		}
		return fmt.Errorf("go build %s: %v\n%s", pkg, err, s)
	}
	return nil
}

// addPool makes sync.Pool keep nothing in race builds. It drops values at
// random there, and handing one on orders the goroutines for the detector,
// which would make reports depend on what package fmt's pools hold.
func addPool(overlay string) error {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	src := filepath.Join(strings.TrimSpace(string(b)), "src", "sync", "pool.go")
	if b, err = os.ReadFile(src); err != nil {
		return err
	}
	s := strings.Replace(string(b), "if runtime_randn(4) == 0 {", "if true {", 1)
	if s == string(b) {
		return nil
	}
	out := filepath.Join(filepath.Dir(overlay), "zz_pool.go")
	if err := os.WriteFile(out, []byte(s), 0o644); err != nil {
		return err
	}
	var o struct{ Replace map[string]string }
	if b, err = os.ReadFile(overlay); err == nil {
		err = json.Unmarshal(b, &o)
	}
	if err != nil {
		return err
	}
	o.Replace[src] = out
	return instr.WriteOverlay(overlay, o.Replace)
}

func addVirt(overlay map[string]string, pkgs ...string) error {
	for _, p := range pkgs {
		if err := instr.AddTree(overlay, filepath.Join(verifDir, "virt", p), filepath.Join(repoDir, "zzsim", p)); err != nil {
			return err
		}
	}
	return nil
}

func prepareLib(p *part, built map[string]string, key string, seed int64, waitPG func() error) error {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedTypes | packages.NeedImports | packages.NeedDeps, Dir: repoDir}
	corpusFile := filepath.Join(scratch, "corpus.json")
	if built[key] == "" {
		dir := filepath.Join(scratch, "build-lib")
		if p.Race {
			dir += "-race"
		}
		overlay := map[string]string{}
		if _, err := instr.Instrument(instr.Options{Dir: repoDir, Patterns: []string{".", "./filter", "./pgsql"}, Out: dir, Yield: true}, overlay); err != nil {
			return err
		}
		if err := addVirt(overlay, "rt", "simsync", "simutil", "libsim"); err != nil {
			return err
		}
		cfg.Mode = packages.NeedName | packages.NeedTypes | packages.NeedExportFile
		pkgs, err := packages.Load(cfg, "./pgsql")
		if err != nil {
			return err
		}
		var tp *types.Package
		for _, q := range pkgs {
			tp = q.Types
		}
		src, pgTypes, n, err := Registry(tp)
		if err != nil {
			return err
		}
		reg := filepath.Join(dir, "registry.go")
		if err := os.WriteFile(reg, src, 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(repoDir, "zzsim", "libsim", "registry.go")] = reg
		ov := filepath.Join(dir, "overlay.json")
		if err := instr.WriteOverlay(ov, overlay); err != nil {
			return err
		}
		bin := filepath.Join(dir, "libsim")
		if err := goBuild(repoDir, ov, bin, "./zzsim/libsim", p.Race); err != nil {
			return err
		}
		built[key] = bin
		if err := waitPG(); err != nil {
			return err
		}
		if _, err := os.Stat(corpusFile); err != nil {
			if err := cluster.Script("postgres", "CREATE DATABASE libsim"); err != nil {
				return err
			}
			if err := cluster.Script("libsim", "CREATE EXTENSION hstore"); err != nil {
				return err
			}
			conn, err := cluster.Conn("libsim")
			if err != nil {
				return err
			}
			defer conn.Close()
			co, err := Corpus(conn, pgTypes, seed)
			if err != nil {
				return err
			}
			b, err := json.Marshal(co)
			if err != nil {
				return err
			}
			if err := os.WriteFile(corpusFile, b, 0o644); err != nil {
				return err
			}
		}
		fmt.Printf("vsim: %d converters of pgsql, %d column types\n", n, len(pgTypes))
	}
	p.bin = built[key]
	p.params["corpus"] = corpusFile
	return nil
}

// prepareQuery generates query types, runs the current tool on them and
// builds the worker that executes what it generated.
func prepareQuery(p *part, built map[string]string, key string, seed int64, tier string, waitPG func() error) error {
	dir := filepath.Join(scratch, "build-query")
	if p.Race {
		dir += "-race"
	}
	const db = "qmaster"
	specFile := filepath.Join(scratch, "qgen", "spec.json")
	if built[key] == "" {
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
		if err := waitPG(); err != nil {
			return err
		}
		overlay := map[string]string{}
		if built["qgen"] == "" {
			if err := cluster.Script("postgres", "CREATE DATABASE "+db); err != nil {
				return err
			}
			if err := cluster.Script(db, qSchema); err != nil {
				return err
			}
			n := 600
			if tier == "thorough" {
				n = 1200
			}
			spec, err := BuildQueries(filepath.Join(scratch, "qgen"), seed, n, db, overlay)
			if err != nil {
				return err
			}
			built["qgen"] = "done"
			fmt.Printf("vsim: %d query types\n", len(spec.Queries))
		} else if err := overlayQueries(filepath.Join(scratch, "qgen"), overlay); err != nil {
			return err
		}
		if p.Race {
			// the callers interleave inside the generated code and the library
			if _, err := instr.Instrument(instr.Options{Dir: repoDir, Patterns: []string{".", "./pgsql"}, Out: dir, Yield: true}, overlay); err != nil {
				return err
			}
			gen := map[string]string{}
			if _, err := instr.Instrument(instr.Options{Dir: filepath.Join(scratch, "qgen"), Patterns: []string{"./p1", "./p2", "./p3", "./p4", "./recs"}, Out: dir, Yield: true}, gen); err != nil {
				return err
			}
			for f, to := range gen {
				rel, err := filepath.Rel(filepath.Join(scratch, "qgen"), f)
				if err != nil {
					return err
				}
				if filepath.Base(f) != "zz_reg.go" {
					overlay[filepath.Join(repoDir, "zzsim", "qgen", rel)] = to
				}
			}
		}
		if err := addVirt(overlay, "rt", "simsync", "simutil", "qspec", "simdb", "querysim"); err != nil {
			return err
		}
		ov := filepath.Join(dir, "overlay.json")
		if err := instr.WriteOverlay(ov, overlay); err != nil {
			return err
		}
		bin := filepath.Join(dir, "querysim")
		if err := goBuild(repoDir, ov, bin, "./zzsim/querysim", p.Race); err != nil {
			if strings.Contains(err.Error(), "zzsim/qgen/p") {
				return &ToolFailure{"the generated code does not compile: " + err.Error()}
			}
			return err
		}
		built[key] = bin
	}
	p.bin = built[key]
	p.params["spec"] = specFile
	p.params["db"] = db
	p.params["dsn"] = fmt.Sprintf("host=%s port=5432 user=postgres sslmode=disable", cluster.Dir)
	return nil
}
