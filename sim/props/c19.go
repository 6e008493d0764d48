package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
	"verif.local/sim/vos"
)

func init() {
	dst.Register(&dst.Check{
		ID: "C19", Title: "The command-line tool never reports success for lost or wrong data",
		Scenarios: []dst.Named{{"round-trip", 3, c19RoundTrip}, {"compress-fault", 3, c19CompressFault}, {"decompress-fault", 3, c19DecompressFault},
			{"bad-input", 3, c19BadInput}, {"bad-flags", 1, c19BadFlags}, {"level-flags", 1, c19LevelFlags}},
		Quick: 15000, Thorough: 600000,
		Rule:   "a run counts when the command ran to its end at least once and its exit status, standard error and standard output were compared with the expectation; distinct by the hash of the event log",
		Real:   []string{"cmd/gzip (flags, options, copy loop, error reporting)", "flate package", "getopt, zerolog"},
		Stub:   []string{"os.Stdin and os.Stdout (simulated streams with faults)", "os.Exit (recording)", "sync and the go statement (simulated scheduler)", "bufferpool (poisoning pool)"},
		Assume: []string{"a failing Sync of standard output other than EINVAL is an output error", "every simulated run is a process of its own; its schedule is drawn from the seed handed to it"},
	})
}

// cliCfg is what the command is told to do.
type cliCfg struct {
	Cfg
	args    []string // flags that have to be the same on both sides
	cargs   []string // flags for compressing only
	dargs   []string // flags for decompressing only
	head    flate.Header
	dict    []byte
	special bool // -F auto
}

func ascii(r *dst.RNG, n int, no string) string {
	b := make([]byte, 0, n)
	for len(b) < n {
		c := byte(32 + r.N(95))
		if strings.IndexByte(no, c) < 0 {
			b = append(b, c)
		}
	}
	return string(b)
}

type cliRun struct {
	code   int
	stderr string
	out    []byte
	stat   vos.Stat
}

type cli struct {
	t   *T
	dir string
	bin string
	n   int
}

func newCLI(t *T) *cli {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	base := filepath.Dir(self)
	d, err := os.MkdirTemp(base, "cli")
	if err != nil {
		panic(err)
	}
	return &cli{t: t, dir: d, bin: filepath.Join(base, "gzip")}
}

func (c *cli) close() { _ = os.RemoveAll(c.dir) }

func (c *cli) run(args []string, input []byte, p vos.Plan) cliRun {
	c.n++
	f := func(s string) string { return filepath.Join(c.dir, fmt.Sprintf("%s%d", s, c.n)) }
	if len(input) > 400000 {
		// pieces of a byte are for shorter inputs
		p.InMode, p.InK = 2, 1+len(input)/100
	}
	p.Args, p.StdinFile, p.OutFile, p.StatFile = args, f("in"), f("out"), f("stat")
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.WriteFile(p.StdinFile, input, 0o600))
	b, err := json.Marshal(p)
	must(err)
	must(os.WriteFile(f("plan"), b, 0o600))
	cmd := exec.Command(c.bin)
	cmd.Dir = c.dir
	cmd.Env = []string{"VERIF_CLI_PLAN=" + f("plan"), "GOMAXPROCS=1", "TZ=UTC", "PATH=/nonexistent", "TERM=dumb"}
	if g := os.Getenv("GODEBUG"); g != "" {
		cmd.Env = append(cmd.Env, "GODEBUG="+g)
	}
	var se bytes.Buffer
	cmd.Stderr = &se
	must(cmd.Start())
	killer := time.AfterFunc(120*time.Second, func() { _ = cmd.Process.Kill() })
	err = cmd.Wait()
	killer.Stop()
	r := cliRun{code: cmd.ProcessState.ExitCode(), stderr: se.String()}
	if r.code == 98 {
		panic("stand-in failed: " + r.stderr)
	}
	r.out, err = os.ReadFile(p.OutFile)
	must(err)
	r.stat, err = vos.ReadStat(p.StatFile)
	must(err)
	_ = os.Remove(p.StdinFile)
	_ = os.Remove(p.OutFile)
	shown := make([]string, len(args))
	for i, a := range args {
		shown[i] = clip(strings.ReplaceAll(a, c.dir, "DIR"), 60)
	}
	c.t.Log("gzip %q stdin=%d -> exit %d stdout=%d read=%d eof=%v inerr=%v outfail=%v sched=%016x", shown, len(input), r.code, len(r.out), r.stat.StdinBytes, r.stat.StdinEOF, r.stat.StdinErr, r.stat.OutFailed, r.stat.Sched)
	t := c.t
	t.Cov.Scheds[r.stat.Sched] = struct{}{}
	t.Cov.Decisions += uint64(r.stat.Picks)
	if r.stat.StdinErr {
		c.t.Fault("stdin-read-error")
	}
	if r.stat.OutFailed {
		c.t.Fault("stdout-" + p.OutErr)
	}
	if r.stat.SyncFailed {
		c.t.Fault("stdout-sync-error")
	}
	t.Check(r.stat.Panic == "" && !(r.code == 2 && strings.Contains(r.stderr, "goroutine ")), "crash", "gzip %q crashed: %s", shown, clip(r.stderr, 1500))
	t.Check(r.stat.Deadlock == "", "hang", "gzip %q hangs: %s", shown, r.stat.Deadlock)
	t.Check(r.stat.Fuel == "" && r.code != 97 && r.code != -1, "hang", "gzip %q does not terminate: %s (exit %d)", shown, r.stat.Fuel, r.code)
	if r.code != 0 {
		t.Check(strings.TrimSpace(r.stderr) != "", "silent-failure", "gzip %q exits with %d and says nothing on standard error", shown, r.code)
	} else {
		c.profiles(args, r)
	}
	if r.stat.FileFailed {
		t.Fault("profile-close-error")
	}
	return r
}

func (c *cli) plan() vos.Plan {
	t := c.t
	p := vos.Plan{Seed: t.Seed(), Strategy: t.Choose(8), InErrAt: -1, OutFailAt: -1}
	p.InMode = t.Choose(4)
	p.InK = 1 + t.Size(5000)
	p.InEOFWithData = t.Chance(1, 3)
	if t.Chance(1, 4) {
		p.InStall = 1 + t.Choose(20)
	}
	if t.Chance(1, 4) {
		p.OutStall = 1 + t.Choose(20)
	}
	// a terminal or a pipe cannot be synced; a file can
	if t.Chance(1, 2) {
		p.OutSyncErr = "EINVAL"
	}
	return p
}

// file writes a file the command may read, and returns its path.
func (c *cli) file(name string, b []byte) string {
	p := filepath.Join(c.dir, name)
	if err := os.WriteFile(p, b, 0o600); err != nil {
		panic(err)
	}
	return p
}

func (c *cli) cfg() cliCfg {
	t := c.t
	var k cliCfg
	r := dst.NewRNG(t.Seed())
	opt := func(long string, short byte, v string) []string {
		switch {
		case short != 0 && r.N(3) == 0:
			return []string{"-" + string(short), v}
		case short != 0 && r.N(2) == 0:
			return []string{"-" + string(short) + v}
		}
		return []string{"--" + long + "=" + v}
	}
	switch t.Weighted(3, 3, 3, 3, 1) {
	case 0:
		k.Format = flate.GZIPFormat
	case 1:
		k.Format = flate.GZIPFormat
		k.cargs = append(k.cargs, opt("format", 'F', "gzip")...)
		if t.Chance(1, 2) {
			k.dargs = append(k.dargs, opt("format", 'F', "gzip")...)
		}
	case 2:
		k.Format = flate.ZlibFormat
		k.cargs = append(k.cargs, opt("format", 'F', "zlib")...)
		if t.Chance(1, 2) {
			k.dargs = append(k.dargs, opt("format", 'F', "zlib")...)
		}
	case 3:
		k.Format = flate.RawFormat
		k.args = append(k.args, opt("format", 'F', "raw")...)
	case 4:
		k.Format = flate.GZIPFormat
		k.args = append(k.args, opt("format", 'F', "auto")...)
	}
	k.Strategy = strategies[t.Weighted(5, 2, 2, 2)]
	if k.Strategy != flate.DefaultStrategy || r.N(8) == 0 {
		k.cargs = append(k.cargs, opt("strategy", 'S', []string{"default", "huffman-only", "huffman-rle", "fixed"}[k.Strategy])...)
	}
	k.Level = drawLevel(t)
	switch {
	case k.Level < 0:
		if r.N(2) == 0 {
			k.cargs = append(k.cargs, opt("compress-level", 'C', "default")...)
		}
	case r.N(2) == 0:
		k.cargs = append(k.cargs, "-"+fmt.Sprint(int(k.Level)))
	default:
		k.cargs = append(k.cargs, opt("compress-level", 'C', fmt.Sprint(int(k.Level)))...)
	}
	k.MLevel = drawMLevel(t)
	if k.MLevel != 0 || r.N(4) == 0 {
		v := fmt.Sprint(int(k.MLevel))
		if k.MLevel == 0 {
			v = "default"
		}
		k.cargs = append(k.cargs, opt("memory-level", 'M', v)...)
		if r.N(2) == 0 {
			k.dargs = append(k.dargs, opt("memory-level", 'M', v)...)
		}
	}
	k.WBits = drawWBits(t)
	if k.WBits != 0 || r.N(4) == 0 {
		v := fmt.Sprint(int(k.WBits))
		if k.WBits == 0 {
			v = "default"
		}
		k.args = append(k.args, opt("window-size-bits", 'W', v)...)
	}
	if t.Chance(1, 4) {
		if t.Chance(1, 2) {
			s := ascii(r, 1+t.Size(400), "")
			if s[0] == '@' {
				s = "A" + s[1:]
			}
			k.Dict = []byte(s)
			k.args = append(k.args, "--dictionary="+s)
		} else {
			d := dst.GenData(t.Choose(dst.DataKinds), t.Size(40000), t.Seed())
			if len(d) > 0 {
				k.Dict = d
			}
			k.args = append(k.args, "--dictionary=@"+c.file(fmt.Sprintf("dict%d", c.n), d))
		}
	}
	if t.Chance(1, 3) {
		k.head.FileName = ascii(r, 1+r.N(40), "/\\")
		k.cargs = append(k.cargs, "--filename="+k.head.FileName)
	}
	if t.Chance(1, 3) {
		k.head.Comment = ascii(r, 1+r.N(100), "")
		k.cargs = append(k.cargs, "--comment="+k.head.Comment)
	}
	if t.Chance(1, 3) {
		k.head.LastModified = time.Unix(1+int64(r.N(1<<31-1)), 0).UTC()
		k.cargs = append(k.cargs, "--last-modified="+k.head.LastModified.Format(time.RFC3339))
	}
	switch t.Weighted(10, 2, 1) {
	case 1:
		k.args = append(k.args, []string{"-v", "-L", "-vL"}[r.N(3)])
	case 2:
		k.args = append(k.args, []string{"-D", "-DL"}[r.N(2)])
	}
	if t.Chance(1, 3) {
		k.args = append(k.args, "-c")
	}
	if r.N(6) == 0 { // without an input file these change nothing
		k.args = append(k.args, []string{"-k", "-f", "-kf", "--keep", "--force", "--stdout"}[r.N(6)])
	}
	switch {
	case r.N(10) == 0:
		k.args = append(k.args, "--mem-profile="+filepath.Join(c.dir, "mem.prof"))
	case r.N(60) == 0:
		k.args = append(k.args, "--cpu-profile="+filepath.Join(c.dir, "cpu.prof"))
	}
	return k
}

var spellings = map[string]string{"format": "F", "strategy": "S", "compress-level": "C", "memory-level": "M", "window-size-bits": "W", "verbose": "v", "debug": "D", "log-stderr": "L", "stdout": "c", "decompress": "d", "force": "f", "keep": "k"}

// respell says the same with other flags, possibly in another order.
func respell(r *dst.RNG, args []string) []string {
	var groups [][]string
	for i := 0; i < len(args); i++ {
		a := args[i]
		long, v, has := "", "", false
		switch {
		case len(a) == 2 && a[0] == '-' && a[1] >= '0' && a[1] <= '9':
			long, v, has = "compress-level", a[1:], true
		case strings.HasPrefix(a, "--"):
			long, v, has = strings.Cut(a[2:], "=")
		case len(a) >= 2 && a[0] == '-' && strings.IndexByte("FSCMW", a[1]) >= 0:
			for l, s := range spellings {
				if s == a[1:2] {
					long = l
				}
			}
			if has = true; len(a) > 2 {
				v = a[2:]
			} else {
				i++
				v = args[i]
			}
		default: // short flags without a value
			for _, s := range a[1:] {
				for l, x := range spellings {
					if x == string(s) {
						groups = append(groups, [][]string{{"-" + x}, {"--" + l}}[r.N(2)])
					}
				}
			}
			continue
		}
		short := spellings[long]
		switch {
		case !has && short != "":
			groups = append(groups, [][]string{{"-" + short}, {"--" + long}}[r.N(2)])
		case !has:
			groups = append(groups, []string{a})
		case long == "compress-level" && len(v) == 1 && r.N(2) == 0:
			groups = append(groups, []string{"-" + v})
		case short != "" && r.N(2) == 0:
			groups = append(groups, [][]string{{"-" + short + v}, {"-" + short, v}}[r.N(2)])
		case r.N(2) == 0:
			groups = append(groups, []string{"--" + long, v})
		default:
			groups = append(groups, []string{"--" + long + "=" + v})
		}
	}
	var out []string
	for len(groups) > 0 {
		i := r.N(len(groups))
		out = append(out, groups[i]...)
		groups = append(groups[:i], groups[i+1:]...)
	}
	return out
}

// profiles checks that what the command was told to record is there.
func (c *cli) profiles(args []string, r cliRun) {
	t := c.t
	for _, a := range args {
		if i := strings.Index(a, "-profile="); i >= 0 {
			t.Check(!r.stat.FileFailed || strings.HasPrefix(a, "--cpu"), "false-success", "gzip %q exits with 0, although the profile could not be closed", a[:i+8])
			b, err := os.ReadFile(a[i+9:])
			t.Check(err == nil, "profile-missing", "gzip %q exits with 0, but the profile cannot be read", a[:i+8])
			res := ref.Parse(b, ref.Options{Format: ref.Gzip})
			t.Check(res.Err == nil && len(res.Out) > 0, "profile-missing", "gzip %q exits with 0, but the profile is not complete (%d bytes: %v)", a[:i+8], len(b), res.Err)
			_ = os.Remove(a[i+9:])
			t.Probe("profile" + a[1:5])
		}
	}
}

func (k cliCfg) profiled() bool { return strings.Contains(strings.Join(k.args, " "), "-profile=") }

func (k cliCfg) enc() []string { return append(append([]string{}, k.args...), k.cargs...) }
func (k cliCfg) dec() []string {
	d := append([]string{}, k.args...)
	d = append(d, k.dargs...)
	return append(d, "-d")
}

func (k cliCfg) decRef(strict bool) ref.Options {
	o := ref.Options{Dict: k.Dict, WindowBits: k.EffWBits(), Strict: strict}
	for _, a := range append(append([]string{}, k.args...), k.dargs...) {
		_ = a
	}
	return o
}

// refFor gives the options of the reference decoder for "gzip -d" with k.
func (k cliCfg) refFor(strict bool) ref.Options {
	o := k.decRef(strict)
	line := strings.Join(k.dec(), " ")
	switch {
	case k.Format == flate.RawFormat:
		o.Format = ref.Raw
	case strings.Contains(line, "-Fgzip"), strings.Contains(line, "-F gzip"), strings.Contains(line, "--format=gzip"):
		o.Format = ref.Gzip
	case strings.Contains(line, "-Fzlib"), strings.Contains(line, "-F zlib"), strings.Contains(line, "--format=zlib"):
		o.Format = ref.Zlib
	}
	return o
}

// checkStream judges what the command emitted for data.
func (c *cli) checkStream(k cliCfg, out, data []byte) {
	t := c.t
	res := ref.Parse(out, ref.Options{Format: k.RefFormat(), Dict: k.Dict, WindowBits: k.EffWBits(), Strict: true})
	t.Check(res.Err == nil, "wrong-output", "exit 0, but standard output is not a valid %v stream for %v: %v", k.Format, k.Cfg, res.Err)
	t.Check(len(res.Streams) == 1, "wrong-output", "exit 0, but standard output holds %d streams", len(res.Streams))
	t.Check(bytes.Equal(res.Out, data), "wrong-output", "exit 0, but standard output does not decode to the input (%v): %s", k.Cfg, diff(data, res.Out))
	st := res.Streams[0]
	if k.Format == flate.GZIPFormat {
		t.Check(st.Name == k.head.FileName, "wrong-header", "--filename %q is recorded as %q", k.head.FileName, st.Name)
		t.Check(st.Comment == k.head.Comment, "wrong-header", "--comment %q is recorded as %q", k.head.Comment, st.Comment)
		if !k.head.LastModified.IsZero() {
			t.Check(int64(st.MTime) == k.head.LastModified.Unix(), "wrong-header", "--last-modified %d is recorded as %d", k.head.LastModified.Unix(), st.MTime)
		} else {
			t.Check(st.MTime == 0, "wrong-header", "no --last-modified, but %d is recorded", st.MTime)
		}
	}
	// the header is the one the library writes for these options
	var want bytes.Buffer
	fw := flate.NewWriter(&want, k.Opts()...)
	if err := fw.SetHeader(k.head); err == nil && fw.Close() == nil {
		wr := ref.Parse(want.Bytes(), ref.Options{Format: k.RefFormat(), Dict: k.Dict, WindowBits: k.EffWBits()})
		w := wr.Streams[0]
		t.Check(w.CMF == st.CMF && w.FLG == st.FLG && w.XFL == st.XFL && w.OS == st.OS, "flags-ignored", "%v: the header announces %02x %02x %02x %02x, the library announces %02x %02x %02x %02x", k.Cfg, st.CMF, st.FLG, st.XFL, st.OS, w.CMF, w.FLG, w.XFL, w.OS)
	}
	if k.EffLevel() > 0 {
		stored := 0
		for _, b := range st.Blocks {
			if b.Type == 0 {
				stored += b.Out1 - b.Out0
			}
		}
		if len(data) > 500 && k.Strategy != flate.FixedStrategy && len(bytes.TrimLeft(data, string(data[:1]))) == 0 {
			t.Check(stored <= len(data)/2, "flags-ignored", "level %d, but %d bytes of a run of one byte are stored as they are", int(k.Level), stored)
		}
	}
	for i, b := range st.Blocks {
		switch {
		case k.EffLevel() == 0:
			t.Check(b.Type == 0, "flags-ignored", "level 0, but block %d has type %d", i, b.Type)
		case k.Strategy == flate.FixedStrategy:
			t.Check(b.Type != 2, "flags-ignored", "strategy fixed, but block %d is dynamic", i)
		}
		for _, tok := range b.Tokens {
			if tok.Dist == 0 {
				continue
			}
			t.Check(k.Strategy != flate.HuffmanOnlyStrategy, "flags-ignored", "strategy huffman-only, but block %d has a match", i)
			t.Check(k.Strategy != flate.HuffmanRLEStrategy || tok.Dist == 1, "flags-ignored", "strategy huffman-rle, but block %d has a match at distance %d", i, tok.Dist)
		}
	}
}

func (c *cli) data() []byte {
	max := 20000
	if c.t.Chance(1, 6) {
		max = 300000
	}
	if c.t.Chance(1, 50) {
		// more than a pipe, a file cache page or a buffer anywhere holds
		c.t.Probe("megabytes")
		return dst.GenData(c.t.Choose(dst.DataKinds), c.t.Range(1<<20, 3<<20), c.t.Seed())
	}
	if c.t.Chance(1, 10) {
		return bytes.Repeat([]byte{'a'}, c.t.Size(max)+1)
	}
	return c.t.Data(max)
}

func c19RoundTrip(t *T) {
	c := newCLI(t)
	defer c.close()
	k := c.cfg()
	data := c.data()
	pa := c.plan()
	a := c.run(k.enc(), data, pa)
	t.Check(a.code == 0, "unjustified-failure", "gzip %q with valid input and working output exits with %d: %s", k.enc(), a.code, clip(a.stderr, 500))
	t.Check(a.stat.StdinEOF, "input-not-read", "exit 0, but standard input was not read to its end (%d of %d bytes)", a.stat.StdinBytes, len(data))
	c.checkStream(k, a.out, data)
	b := c.run(k.dec(), a.out, c.plan())
	t.Check(b.code == 0, "unjustified-failure", "gzip %q on the output of gzip %q exits with %d: %s", k.dec(), k.enc(), b.code, clip(b.stderr, 500))
	t.Check(bytes.Equal(b.out, data), "wrong-output", "round trip through the command with %q: %s", k.enc(), diff(data, b.out))
	t.Check(b.stat.StdinEOF, "input-not-read", "exit 0, but standard input was not read to its end (%d of %d bytes)", b.stat.StdinBytes, len(a.out))
	if t.Chance(1, 3) {
		r := dst.NewRNG(t.Seed())
		args := respell(r, k.enc())
		x := c.run(args, data, pa)
		t.Check(x.code == 0 && bytes.Equal(x.out, a.out), "flags-ignored", "gzip %q (exit %d) and gzip %q do not do the same: %s", args, x.code, k.enc(), diff(a.out, x.out))
		args = respell(r, k.dec())
		x = c.run(args, a.out, c.plan())
		t.Check(x.code == 0 && bytes.Equal(x.out, data), "flags-ignored", "gzip %q (exit %d) does not do the same as gzip %q", args, x.code, k.dec())
		t.Probe("respelled")
	}
	t.Nontrivial()
	t.State("rt", k.Cfg.String(), len(data)/1000)
}

// c19LevelFlags: -N is --compress-level=N, told apart from its neighbours.
func c19LevelFlags(t *T) {
	c := newCLI(t)
	defer c.close()
	data := dst.GenData(t.Choose(dst.DataKinds), t.Range(2000, 40000), t.Seed())
	p := c.plan()
	var base []string
	if t.Chance(1, 3) {
		base = append(base, "-Fzlib")
	}
	if t.Chance(1, 3) {
		base = append(base, "-M"+fmt.Sprint(t.Range(1, 9)))
	}
	n := t.Choose(10)
	var prev []byte
	for i := 0; i < 3; i++ {
		l := (n + i) % 10
		a := c.run(append([]string{fmt.Sprintf("-%d", l)}, base...), data, p)
		b := c.run(append([]string{fmt.Sprintf("--compress-level=%d", l)}, base...), data, p)
		t.Check(a.code == 0 && b.code == 0, "unjustified-failure", "gzip -%d exits with %d, gzip --compress-level=%d with %d", l, a.code, l, b.code)
		t.Check(bytes.Equal(a.out, b.out), "flags-ignored", "gzip -%d and gzip --compress-level=%d do not do the same: %s", l, l, diff(b.out, a.out))
		if prev != nil && !bytes.Equal(prev, a.out) {
			t.Probe("levels-differ")
		}
		prev = a.out
	}
	t.Nontrivial()
	t.State("lf", n, len(data)/1000)
}

// spoil adds one fault to a plan.
func (c *cli) spoil(p *vos.Plan, inLen, outLen int, in, prof bool) {
	t := c.t
	pos := func(n int) int {
		switch t.Weighted(4, 1, 1, 1) {
		case 1:
			return 0
		case 2:
			return n
		case 3:
			if n > 0 {
				return n - 1
			}
		}
		return t.Choose(n + 1)
	}
	switch {
	case in:
		p.InErrAt = pos(inLen)
		p.InErrWithData = t.Chance(1, 2)
	case t.Chance(1, 6):
		p.OutSyncErr = "EIO"
	case prof && t.Chance(1, 2):
		p.FileCloseErr = []string{"EIO", "ENOSPC"}[t.Choose(2)]
	default:
		p.OutFailAt = pos(outLen)
		p.OutErr = []string{"ENOSPC", "EIO", "EPIPE", "EINVAL"}[t.Choose(4)]
		p.OutPartial = t.Chance(1, 2)
	}
}

func (c *cli) verdict(what string, args []string, r cliRun, inLen int, complete bool, why string) {
	t := c.t
	lost := r.stat.FileFailed && strings.Contains(strings.Join(args, " "), "--mem-profile=")
	bad := r.stat.StdinErr || r.stat.OutFailed || r.stat.SyncFailed || lost || why != ""
	if r.code == 0 {
		t.Check(!bad, "false-success", "%s: gzip %q exits with 0 although %s", what, args, reason(r, why))
		t.Check(r.stat.StdinEOF, "input-not-read", "%s: exit 0, but standard input was not read to its end (%d of %d bytes)", what, r.stat.StdinBytes, inLen)
		t.Check(complete, "wrong-output", "%s: gzip %q exits with 0, but its output is not what the input stands for", what, args)
	} else {
		t.Check(bad, "unjustified-failure", "%s: gzip %q exits with %d although nothing went wrong: %s", what, args, r.code, clip(r.stderr, 500))
	}
	t.Nontrivial()
}

func reason(r cliRun, why string) string {
	switch {
	case r.stat.StdinErr:
		return "reading standard input failed"
	case r.stat.OutFailed:
		return "writing standard output failed"
	case r.stat.SyncFailed:
		return "syncing standard output failed"
	case r.stat.FileFailed:
		return "closing the profile failed"
	}
	return why
}

func c19CompressFault(t *T) {
	c := newCLI(t)
	defer c.close()
	k := c.cfg()
	data := c.data()
	clean := c.run(k.enc(), data, c.plan())
	p := c.plan()
	c.spoil(&p, len(data), len(clean.out), t.Chance(1, 3), k.profiled())
	r := c.run(k.enc(), data, p)
	if r.code == 0 && !r.stat.OutFailed && !r.stat.StdinErr && !r.stat.SyncFailed {
		c.checkStream(k, r.out, data)
	}
	c.verdict("compress", k.enc(), r, len(data), true, "")
	t.State("cf", k.Cfg.String(), p.OutErr, p.InErrAt < 0, r.code)
}

func c19DecompressFault(t *T) {
	c := newCLI(t)
	defer c.close()
	k := c.cfg()
	data := c.data()
	enc := c.run(k.enc(), data, c.plan())
	if t.Chance(1, 4) && k.Format != flate.RawFormat {
		data2 := c.data()
		e2 := c.run(k.enc(), data2, c.plan())
		enc.out, data = append(enc.out, e2.out...), append(append([]byte{}, data...), data2...)
	}
	p := c.plan()
	c.spoil(&p, len(enc.out), len(data), t.Chance(1, 2), k.profiled())
	r := c.run(k.dec(), enc.out, p)
	t.Check(isPrefix(r.out, data), "wrong-output", "decompress with a fault: standard output is no prefix of the content: %s", diff(data, r.out))
	c.verdict("decompress", k.dec(), r, len(enc.out), bytes.Equal(r.out, data), "")
	t.State("df", k.Cfg.String(), p.OutErr, p.InErrAt < 0, r.code)
}

func c19BadInput(t *T) {
	c := newCLI(t)
	defer c.close()
	k := c.cfg()
	data := c.data()
	enc := c.run(k.enc(), data, c.plan()).out
	if t.Chance(1, 4) && k.Format != flate.RawFormat {
		enc = append(enc, c.run(k.enc(), c.data(), c.plan()).out...)
	}
	what := "truncated"
	switch t.Choose(4) {
	case 0:
		enc = enc[:t.Choose(len(enc))]
		t.Fault("input-truncated")
	case 1:
		enc = damage(t, enc)
		t.Fault("input-corrupted")
		what = "damaged"
	case 2:
		enc = append(enc, dst.GenData(3, 1+t.Size(50), t.Seed())...)
		t.Fault("input-trailing-bytes")
		what = "followed by other bytes"
	case 3:
		if len(enc) > 8 {
			i := len(enc) - 1 - t.Choose(8)
			enc = append([]byte{}, enc...)
			enc[i] ^= 1 << uint(t.Choose(8))
		}
		t.Fault("trailer-corrupted")
		what = "damaged at the end"
	}
	// another dictionary or window than the stream needs is an input error, too
	want := ref.Parse(enc, k.refFor(false))
	strict := ref.Parse(enc, k.refFor(true))
	r := c.run(k.dec(), enc, c.plan())
	t.Check(isPrefix(r.out, want.Out), "wrong-output", "input %s: standard output is no prefix of what the input describes: %s", what, diff(want.Out, r.out))
	why := ""
	if want.Err != nil {
		why = fmt.Sprintf("the input is %s (%v)", what, want.Err)
	} else if strict.Err != nil && r.code != 0 {
		why = "the input is doubtful"
	}
	c.verdict(what, k.dec(), r, len(enc), bytes.Equal(r.out, want.Out), why)
	t.State("bi", what, want.Err == nil, r.code)
}

// c19BadFlags: what cannot be done as told is refused.
func c19BadFlags(t *T) {
	c := newCLI(t)
	defer c.close()
	k := c.cfg()
	data := c.t.Data(3000)
	r := dst.NewRNG(t.Seed())
	args := k.enc()
	why := ""
	other := data
	switch t.Choose(9) {
	case 8:
		f := []string{"mem", "cpu"}[r.N(2)]
		args, why = append(args, "--"+f+"-profile="+[]string{c.dir, filepath.Join(c.dir, "missing", "x")}[r.N(2)]), "the profile cannot be written"
	case 7: // an operand names the input: it must not be passed over
		for string(other) == string(data) {
			other = dst.GenData(r.N(dst.DataKinds), 1+t.Size(3000), r.Uint64())
		}
		path := c.file("operand", other)
		if t.Chance(1, 2) {
			in := c.run(args, data, c.plan()).out
			path = c.file("operand", c.run(args, other, c.plan()).out)
			x := c.run(append(k.dec(), "-c", path), in, c.plan())
			t.Check(x.code != 0 || bytes.Equal(x.out, other), "false-success", "gzip %q exits with 0, but its output is not the content of the file named", k.dec())
		} else {
			x := c.run(append(args, "-c", path), data, c.plan())
			if x.code == 0 {
				t.Check(!bytes.Equal(ref.Parse(x.out, k.refFor(true)).Out, data), "false-success", "gzip %q with an input file exits with 0, but compressed standard input", args)
				c.checkStream(k, x.out, other)
			}
		}
		t.Nontrivial()
		t.State("operand")
		return
	case 0:
		args, why = append(args, "--filename="+ascii(r, r.N(20), "/\\")+"/x"), "the file name cannot be represented"
	case 1:
		args, why = append(args, "--filename="+ascii(r, 256+r.N(100), "/\\")), "the file name cannot be represented"
	case 2:
		args, why = append(args, "--comment="+ascii(r, 256+r.N(100), "")), "the comment cannot be represented"
	case 3:
		args, why = append(args, "--last-modified="+[]string{"1960-01-01T00:00:00Z", "2107-01-01T00:00:00Z", "yesterday", "2020-01-01"}[r.N(4)]), "the time cannot be represented"
	case 4:
		args, why = append(args, "--dictionary=@"+[]string{c.dir, filepath.Join(c.dir, "missing")}[r.N(2)]), "the dictionary cannot be read"
	case 5:
		args, why = append(args, []string{"--format=lzma", "--strategy=best", "--memory-level=10", "--window-size-bits=7", "--window-size-bits=16", "--memory-level=x"}[r.N(6)]), "the flag value is invalid"
	case 6:
		args, why = append(args, "--no-such-flag"), "the flag does not exist"
	}
	t.Fault("bad-flag")
	x := c.run(args, data, c.plan())
	t.Check(x.code != 0, "false-success", "gzip %q exits with 0 although %s", args, why)
	t.Nontrivial()
	t.State("flags", why, len(args))
}
