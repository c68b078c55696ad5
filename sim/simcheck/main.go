// Command simcheck decides a property of jsonpath or jpath by deterministic simulation.
//
//	simcheck [-budget d] ID            run a campaign (VERIF_SEED, VERIF_TIER)
//	simcheck -replay FILE              replay a violation
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"time"

	"verifsim/scen"
)

var repeat = flag.Bool("repeat", false, "do every run twice, and compare")
var verif = flag.String("verif", "/verif", "where the machinery is")

func die(err error) {
	fmt.Fprintf(os.Stderr, "simcheck: %v\n", err)
	os.Exit(2)
}

func main() {
	replayFile := flag.String("replay", "", "replay a violation from its file")
	keep := flag.Bool("build", false, "only build the simulated programs, and keep them")
	show := flag.Int("show", -1, "print a run of property ID")
	budget := flag.Duration("budget", 0, "time to search")
	flag.Parse()
	debug.SetMemoryLimit(8 << 30)
	c := &check{start: time.Now(), seed: 1, tier: "quick", scheds: map[uint64]bool{}}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			i, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				die(fmt.Errorf("VERIF_SEED: %v", err))
			}
			n = uint64(i)
		}
		c.seed = n
	}
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		c.tier = t
	}
	var err error
	c.w, err = newWorld(filepath.Join(*verif, "sim"))
	if err != nil {
		die(err)
	}
	if *show >= 0 {
		s := scen.Generate(flag.Arg(0), c.seed, *show)
		b, _ := json.Marshal(s)
		fmt.Printf("%s\n", b)
		for _, l := range describe(s) {
			fmt.Println(l)
		}
		c.w.close()
		return
	}
	if *keep {
		c.w.tags = tags(flag.Arg(0))
		for _, f := range []func() error{c.w.buildWorker, c.w.buildRace, c.w.buildJpath} {
			if err := f(); err != nil {
				die(err)
			}
		}
		fmt.Println(c.w.tmp)
		return
	}
	code := 2
	func() {
		defer c.w.close()
		if *replayFile != "" {
			code, err = c.replayFinding(*replayFile)
			return
		}
		if flag.NArg() != 1 {
			err = fmt.Errorf("usage: simcheck ID")
			return
		}
		c.id = flag.Arg(0)
		if *budget == 0 {
			*budget = 45 * time.Second
			if c.tier == "thorough" {
				*budget = 10 * time.Minute
			}
		}
		code, err = c.run(*budget)
	}()
	if err != nil {
		die(err)
	}
	os.Exit(code)
}

func (c *check) run(budget time.Duration) (int, error) {
	var err error
	switch c.id {
	case "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C17", "C19":
		err = c.library(budget)
	case "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C18":
		err = c.command(budget)
	default:
		return 2, fmt.Errorf("unknown property %q", c.id)
	}
	if err == nil {
		err = c.failed
	}
	if err == nil && len(c.doubts) > 0 {
		err = c.doubts[0]
	}
	if err != nil {
		if c.found == nil {
			return 2, err
		}
		fmt.Fprintf(os.Stderr, "simcheck: %v\n", err)
	}
	ev := c.evidence()
	code := 0
	if c.found != nil {
		code = 1
		ev["violations"] = 1
	}
	b, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		return 2, err
	}
	dir := filepath.Join(*verif, "evidence")
	if err := os.MkdirAll(dir, 0o777); err != nil {
		return 2, err
	}
	if err := os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o666); err != nil {
		return 2, err
	}
	if c.found == nil {
		fmt.Printf("%s: no violation (%.0f s)\n", c.id, time.Since(c.start).Seconds())
		return 0, nil
	}
	dir = filepath.Join(*verif, "replays")
	if err := os.MkdirAll(dir, 0o777); err != nil {
		return 2, err
	}
	b, err = json.MarshalIndent(c.found, "", " ")
	if err != nil {
		return 2, err
	}
	name := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", c.id, c.seed, c.found.Run))
	if err := os.WriteFile(name, append(b, '\n'), 0o666); err != nil {
		return 2, err
	}
	fmt.Printf("%s: %s: %s\n", c.id, c.found.Kind, c.found.Detail)
	for _, l := range c.found.Trace {
		fmt.Printf("    %s\n", l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, name)
	return code, nil
}

func (c *check) replayFinding(file string) (int, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return 2, err
	}
	f := &finding{}
	if err := json.Unmarshal(b, f); err != nil {
		return 2, err
	}
	c.id, c.seed = f.Property, f.Seed
	for _, l := range f.Trace {
		fmt.Printf("    %s\n", l)
	}
	var detail string
	if f.CLI != nil {
		if err := c.w.buildJpath(); err != nil {
			return 2, err
		}
		detail, err = c.replayCLI(f)
	} else {
		detail, err = c.replayLib(f)
	}
	if err != nil {
		return 2, err
	}
	if detail == "" {
		fmt.Printf("%s: the violation does not occur\n", f.Property)
		return 0, nil
	}
	fmt.Printf("%s: %s: %s\n", f.Property, f.Kind, detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
	return 1, nil
}

func (c *check) replayLib(f *finding) (string, error) {
	c.w.tags = tags(c.id)
	if err := c.w.buildWorker(); err != nil {
		return "", err
	}
	if f.Race {
		if err := c.w.buildRace(); err != nil {
			return "", err
		}
	}
	if _, err := c.poolTable(); err != nil {
		return "", err
	}
	r, err := c.w.replay(f.Race, f.Scens)
	if err != nil {
		return "", err
	}
	v := r.find(map[string]bool{f.Kind: true})
	if v == nil {
		return "", nil
	}
	if r.race != "" {
		return v.Detail + "\n" + r.race, nil
	}
	return v.Detail, nil
}
