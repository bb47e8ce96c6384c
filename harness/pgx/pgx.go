// Package pgx starts and stops throwaway PostgreSQL clusters for the checks.
package pgx

import (
	"bytes"
	"database/sql"
	"fmt"
	"os"
	"os/exec"
	"os/user"
	"path/filepath"
	"strconv"
	"syscall"
	"time"

	_ "github.com/lib/pq"
)

const bin = "/usr/lib/postgresql/16/bin"

// Cluster is a running throwaway cluster, reachable only through a unix socket.
type Cluster struct {
	Dir string // the scratch directory, removed by Stop
	cmd *exec.Cmd
	dbs []*sql.DB
}

func asPG(dir string, name string, args ...string) *exec.Cmd {
	full := append([]string{"--reuid=postgres", "--regid=postgres", "--clear-groups", "env", "-i",
		"PATH=/usr/sbin:/usr/bin:/sbin:/bin", "LANG=C.UTF-8", "TZ=UTC", name}, args...)
	c := exec.Command("setpriv", full...)
	c.Dir = dir
	return c
}

// Start initialises and starts a cluster.
func Start() (*Cluster, error) {
	work, err := os.MkdirTemp("/tmp", "gosql-verif.")
	if err != nil {
		return nil, err
	}
	c := &Cluster{Dir: work}
	if err := c.start(); err != nil {
		c.Stop()
		return nil, err
	}
	return c, nil
}

func (c *Cluster) start() error {
	pgdir := filepath.Join(c.Dir, "pg")
	if err := os.Mkdir(pgdir, 0o755); err != nil {
		return err
	}
	if err := os.Chmod(c.Dir, 0o755); err != nil {
		return err
	}
	u, err := user.Lookup("postgres")
	if err != nil {
		return err
	}
	uid, _ := strconv.Atoi(u.Uid)
	gid, _ := strconv.Atoi(u.Gid)
	if err := os.Chown(pgdir, uid, gid); err != nil {
		return err
	}
	data := filepath.Join(pgdir, "data")
	initdb := asPG(pgdir, bin+"/initdb", "-D", data, "-U", "postgres", "-A", "trust", "-E", "UTF8",
		"--locale=C.UTF-8", "--lc-monetary=C", "--no-sync")
	if out, err := initdb.CombinedOutput(); err != nil {
		return fmt.Errorf("initdb: %v\n%s", err, out)
	}
	// The server runs in the foreground as a child of this process.
	c.cmd = asPG(pgdir, bin+"/postgres", "-D", data, "-c", "listen_addresses=", "-k", pgdir,
		"-c", "fsync=off", "-c", "full_page_writes=off", "-c", "synchronous_commit=off", "-c", "timezone=Europe/Zagreb",
		"-c", "dynamic_shared_memory_type=mmap", "-c", "autovacuum=off", "-c", "max_connections=200",
		"-c", "max_wal_size=4GB", "-c", "checkpoint_timeout=1h")
	var log bytes.Buffer
	c.cmd.Stdout, c.cmd.Stderr = &log, &log
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGQUIT}
	if err := c.cmd.Start(); err != nil {
		return err
	}
	deadline := time.Now().Add(120 * time.Second)
	for {
		db, err := sql.Open("postgres", c.DSN("postgres"))
		if err != nil {
			return err
		}
		err = db.Ping()
		db.Close()
		if err == nil {
			return nil
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("postgres did not start: %v\n%s", err, log.String())
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// SockDir is the directory of the cluster's socket.
func (c *Cluster) SockDir() string { return filepath.Join(c.Dir, "pg") }

// DSN is the connection string of a database of the cluster.
func (c *Cluster) DSN(db string) string {
	return fmt.Sprintf("postgres://postgres@/%s?host=%s&port=5432&sslmode=disable", db, c.SockDir())
}

// Open opens a handle that Stop closes.
func (c *Cluster) Open(db string) (*sql.DB, error) {
	h, err := sql.Open("postgres", c.DSN(db))
	if err != nil {
		return nil, err
	}
	c.dbs = append(c.dbs, h)
	return h, h.Ping()
}

// CreateDB creates a database and runs the script in it.
func (c *Cluster) CreateDB(name, script string) (*sql.DB, error) {
	root, err := sql.Open("postgres", c.DSN("postgres"))
	if err != nil {
		return nil, err
	}
	defer root.Close()
	if _, err := root.Exec("CREATE DATABASE " + name); err != nil {
		return nil, err
	}
	db, err := c.Open(name)
	if err != nil {
		return nil, err
	}
	if script != "" {
		if _, err := db.Exec(script); err != nil {
			return nil, err
		}
	}
	return db, nil
}

// Stop stops the server and removes the scratch directory.
func (c *Cluster) Stop() {
	for _, db := range c.dbs {
		db.Close()
	}
	if c.cmd != nil && c.cmd.Process != nil {
		c.cmd.Process.Signal(syscall.SIGQUIT) // immediate shutdown
		done := make(chan struct{})
		go func() { c.cmd.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			c.cmd.Process.Kill()
			<-done
		}
	}
	if len(c.Dir) > len("/tmp/gosql-verif.") {
		os.RemoveAll(c.Dir)
	}
}
