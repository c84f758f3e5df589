// Command vmon runs the runtime monitors of one property against the library in /repo.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"time"
)

func main() {
	prop := flag.String("prop", "", "property to check")
	only := flag.String("case", "", "run only this case")
	evDir := flag.String("evidence", "evidence", "directory of the evidence file")
	repDir := flag.String("replays", "replays", "directory of replay files")
	findings := flag.String("findings", "known-findings.txt", "file of known findings")
	child := flag.String("child", "", "internal: run as child process")
	workers := flag.Int("workers", runtime.NumCPU(), "parallel cases")
	flag.Parse()

	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	chk := checks[*prop]
	if chk == nil {
		fmt.Println("no such property:", *prop)
		os.Exit(2)
	}
	if *child != "" {
		runChild(*child, tier, seed)
		return
	}
	if os.Getenv(supEnv) == "" {
		os.Exit(supervise(chk, tier, seed, *evDir, *repDir))
	}
	// The library logs every decryption: keep that off the terminal and the disk.
	flag.Set("logtostderr", "true")
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = null
	}
	start := time.Now()
	c := newC(chk, tier, seed)
	c.Only = *only
	c.loadKnown(*findings)
	dir, err := os.MkdirTemp("", "vmon-"+chk.ID+"-")
	if err != nil {
		fmt.Println(err)
		os.Exit(supBase + 2)
	}
	c.Dir = dir
	chk.Run(c)
	finish := func() int {
		code := c.finish(start, *evDir, *repDir)
		os.RemoveAll(dir)
		return code
	}
	limit := 300 * time.Second
	if tier == "thorough" {
		limit = 2 * time.Hour
	}
	go c.hangMonitor(limit, finish)
	c.execute(*workers)
	if c.After != nil {
		c.After()
	}
	os.Exit(supBase + finish())
}

var children = map[string]func(tier string, seed uint64){}

func runChild(name, tier string, seed uint64) {
	f := children[name]
	if f == nil {
		fmt.Println("no such child:", name)
		os.Exit(2)
	}
	f(tier, seed)
}
