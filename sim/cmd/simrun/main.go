// Command simrun drives, executes, replays and self-tests the simulated checks.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif.local/sim/dst"
	_ "verif.local/sim/props"
)

func die(format string, v ...interface{}) {
	fmt.Fprintf(os.Stderr, "simrun: "+format+"\n", v...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: simrun check|worker|one|replay|selftest|list")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Uint64("seed", 1, "seed")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	total := fs.Int("total", 0, "")
	out := fs.String("out", "", "")
	status := fs.String("status", "", "")
	verif := fs.String("verif", "/verif", "")
	maxWall := fs.Duration("maxwall", 10*time.Minute, "")
	index := fs.Int("index", 0, "")
	file := fs.String("file", "", "")
	quiet := fs.Bool("quiet", false, "")
	workers := fs.Int("workers", 8, "")
	work := fs.String("work", "", "scratch directory")
	runs := fs.Int("runs", 0, "override number of runs")
	hashes := fs.Bool("hashes", false, "")
	noShrink := fs.Bool("noshrink", false, "")
	_ = fs.Parse(os.Args[2:])
	get := func() *dst.Check {
		c := dst.Registry[*prop]
		if c == nil {
			die("unknown property %q", *prop)
		}
		return c
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range dst.Registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, dst.Registry[id].Title)
		}
	case "check":
		if *work == "" {
			die("-work required")
		}
		os.Exit(dst.Drive(get(), dst.DriveOptions{Tier: *tier, Seed: *seed, Workers: *workers, Runs: *runs, Verif: *verif, MaxWall: *maxWall, WorkDir: *work}))
	case "worker":
		c := get()
		sh := 25 * time.Second
		if *noShrink {
			sh = 0
		}
		r := dst.Worker(c, *tier, *seed, *from, *step, *total, *maxWall, *status, *hashes, dst.LoadKnown(filepath.Join(*verif, "known-findings.txt")), sh)
		b, _ := json.Marshal(r)
		if *out == "" {
			fmt.Println(string(b))
		} else if err := os.WriteFile(*out, b, 0o644); err != nil {
			die("%v", err)
		}
	case "one":
		c := get()
		r := &dst.Replay{Property: c.ID, Tier: *tier, Seed: *seed, Index: *index, BySeed: true}
		o := dst.RunReplay(r)
		if !*quiet {
			for _, l := range o.Trace {
				fmt.Println(l)
			}
		}
		fmt.Printf("log %016x gen=%d sched=%d\n", o.LogHash, len(o.Gen), len(o.Sched))
		if o.Viol != nil {
			fmt.Println("VIOLATION", o.Viol)
			os.Exit(1)
		}
	case "replay":
		b, err := os.ReadFile(*file)
		if err != nil {
			die("%v", err)
		}
		var r dst.Replay
		if err := json.Unmarshal(b, &r); err != nil {
			die("%v", err)
		}
		o := dst.RunReplay(&r)
		// The run is the same every time, but the happens-before monitor keeps
		// only the last few accesses to each word and picks the one to forget by
		// itself: look again, in fresh processes, before giving up.
		if o.Viol == nil && r.Race && os.Getenv("VERIF_REPLAY_AGAIN") == "" {
			for i := 0; i < 60; i++ {
				cmd := exec.Command(os.Args[0], os.Args[1:]...)
				cmd.Env = append(os.Environ(), "VERIF_REPLAY_AGAIN=1")
				b, err := cmd.CombinedOutput()
				if err != nil {
					os.Stdout.Write(b)
					os.Exit(cmd.ProcessState.ExitCode())
				}
			}
		}
		if !*quiet {
			for _, l := range o.Trace {
				fmt.Println(l)
			}
		}
		if o.Viol == nil {
			fmt.Println("replay: no violation")
			os.Exit(0)
		}
		fmt.Printf("replay: %s\n", o.Viol)
		if o.Viol.Kind != r.Kind || (!r.BySeed && fmt.Sprintf("%016x", o.LogHash) != r.LogHash) {
			fmt.Printf("replay: differs from the recorded run (kind %s, log %016x, recorded %s %s)\n", o.Viol.Kind, o.LogHash, r.Kind, r.LogHash)
			os.Exit(4)
		}
		os.Exit(1)
	case "selftest":
		os.Exit(selftest(*prop, *seed, *total))
	default:
		die("unknown command %q", os.Args[1])
	}
}

// selftest proves determinism: the same seeds in fresh processes, alone and
// sharded over several worker counts, must give identical event-log hashes.
func selftest(prop string, seed uint64, total int) int {
	if total == 0 {
		total = 120
	}
	self, _ := os.Executable()
	ids := strings.Split(prop, ",")
	bad := 0
	for _, id := range ids {
		ref := map[string]string{}
		procs := 0
		for _, shards := range []int{1, 3, 8} {
			for sh := 0; sh < shards; sh++ {
				cmd := exec.Command(self, "worker", "-prop", id, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(sh), "-step", fmt.Sprint(shards), "-total", fmt.Sprint(total), "-hashes", "-noshrink")
				cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", 1+(sh+shards)%4), fmt.Sprintf("GOGC=%d", 50+50*(sh%4)))
				out, err := cmd.Output()
				procs++
				if err != nil {
					fmt.Println(id, "worker failed:", err)
					bad++
					continue
				}
				var r dst.WorkerResult
				if err := json.Unmarshal(out, &r); err != nil {
					fmt.Println(id, err)
					bad++
					continue
				}
				for _, h := range r.Hashes {
					kv := strings.SplitN(h, ":", 2)
					if old, ok := ref[kv[0]]; !ok {
						ref[kv[0]] = kv[1]
					} else if old != kv[1] {
						fmt.Printf("%s run %s: log hash differs between processes: %s %s\n", id, kv[0], old, kv[1])
						bad++
					}
				}
			}
		}
		fmt.Printf("%s: %d runs x 3 sharding layouts in %d processes, %d divergences\n", id, len(ref), procs, bad)
	}
	if bad > 0 {
		return 1
	}
	return 0
}
