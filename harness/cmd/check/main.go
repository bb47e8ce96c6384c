// Command check decides one property.
package main

import (
	"flag"
	"fmt"
	"os"
	"os/signal"
	"strconv"
	"syscall"
	"testing"

	"github.com/frk/gosql/vh/fw"
	_ "github.com/frk/gosql/vh/props"
)

func main() {
	testing.Init()
	prop := flag.String("prop", "", "property id")
	replay := flag.String("replay", "", "replay file")
	only := flag.String("only", "", "run only the sub-checks whose name contains this (no evidence is written)")
	verif := flag.String("verif", "/verif", "the /verif directory")
	list := flag.Bool("list", false, "list the properties")
	flag.Parse()
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "15s")
	if *list {
		for _, id := range fw.IDs() {
			fmt.Println(id)
		}
		return
	}
	p := fw.Lookup(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "bad VERIF_SEED", s)
			os.Exit(3)
		}
		seed = uint64(n)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	r := &fw.Run{ID: *prop, Tier: tier, Seed: seed, RepoDir: "/repo", VerifDir: *verif}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM, syscall.SIGHUP)
	go func() {
		<-sig
		r.Close()
		os.Exit(3)
	}()
	os.Exit(fw.Main(r, p, *replay, *only))
}
