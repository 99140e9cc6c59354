package main

import (
	"context"
	"database/sql/driver"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/lib/pq"
)

const pgbin = "/usr/lib/postgresql/16/bin"

// A Cluster is a throwaway PostgreSQL server on a unix socket.
type Cluster struct {
	Dir string
}

func (c *Cluster) as(name string, args ...string) *exec.Cmd {
	a := []string{"--reuid=postgres", "--regid=postgres", "--clear-groups", "env", "-i", "PATH=/usr/bin:/bin", "LANG=C.UTF-8", "TZ=UTC", filepath.Join(pgbin, name)}
	cmd := exec.Command("setpriv", append(a, args...)...)
	cmd.Dir = c.Dir
	return cmd
}

// StartPG creates and starts a cluster below dir.
func StartPG(dir string) (*Cluster, error) {
	c := &Cluster{Dir: filepath.Join(dir, "pg")}
	if err := os.Mkdir(c.Dir, 0o755); err != nil {
		return nil, err
	}
	if err := os.Chmod(dir, 0o755); err != nil {
		return nil, err
	}
	if out, err := exec.Command("chown", "postgres:postgres", c.Dir).CombinedOutput(); err != nil {
		return nil, fmt.Errorf("chown: %v %s", err, out)
	}
	data := filepath.Join(c.Dir, "data")
	if out, err := c.as("initdb", "-D", data, "-U", "postgres", "-A", "trust", "-E", "UTF8", "--locale=C.UTF-8", "--lc-monetary=C", "--no-sync").CombinedOutput(); err != nil {
		return nil, fmt.Errorf("initdb: %v %s", err, out)
	}
	cmd := c.as("pg_ctl", "-D", data, "-w", "-t", "60", "-l", filepath.Join(c.Dir, "server.log"), "-o",
		"-c listen_addresses='' -k "+c.Dir+" -c fsync=off -c synchronous_commit=off -c full_page_writes=off -c timezone=Europe/Zagreb"+
			" -c dynamic_shared_memory_type=mmap -c max_connections=200 -c shared_buffers=64MB -c autovacuum=off -c jit=off", "start")
	// not CombinedOutput: the server would keep the pipe open
	cmd.Stdout, cmd.Stderr = nil, nil
	if err := cmd.Run(); err != nil {
		log, _ := os.ReadFile(filepath.Join(c.Dir, "server.log"))
		return nil, fmt.Errorf("pg_ctl start: %v %s", err, log)
	}
	return c, nil
}

func (c *Cluster) Stop() {
	_ = c.as("pg_ctl", "-D", filepath.Join(c.Dir, "data"), "-m", "immediate", "-w", "stop").Run()
}

// DSN of a database of the cluster.
func (c *Cluster) DSN(db string) string {
	return fmt.Sprintf("host=%s port=5432 user=postgres dbname=%s sslmode=disable", c.Dir, db)
}

// Conn opens a raw connection.
func (c *Cluster) Conn(db string) (driver.Conn, error) {
	cn, err := pq.NewConnector(c.DSN(db))
	if err != nil {
		return nil, err
	}
	for i := 0; ; i++ {
		conn, err := cn.Connect(context.Background())
		if err == nil || i > 50 {
			return conn, err
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// Script runs SQL without parameters (several statements allowed).
func (c *Cluster) Script(db string, sql ...string) error {
	conn, err := c.Conn(db)
	if err != nil {
		return err
	}
	defer conn.Close()
	for _, s := range sql {
		if _, err := conn.(driver.ExecerContext).ExecContext(context.Background(), s, nil); err != nil {
			return fmt.Errorf("%v in %s", err, strings.TrimSpace(s))
		}
	}
	return nil
}
