// Package props holds the simulated scenarios, reference models and oracles
// that decide each listed property.
package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"syscall"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
)

type T = dst.T

// T0 is the technique line used in every manifest entry.
var (
	realLib = []string{"flate package (reader, writer, tokens, analysis, header, trace)", "internal/adler32", "internal/crc32", "dependencies buffer/v3, huffman, assert"}
	stubLib = []string{"sync.Mutex/Cond/WaitGroup/Pool/Once and the go statement (simulated scheduler)", "bufferpool (poisoning pool)", "io.Reader source and io.Writer sink (simulated, with faults)", "clock"}
	assume  = []string{"the simulated sources and sinks obey the io.Reader/io.Writer contracts", "goroutine switches happen at synchronisation operations, source/sink/tracer calls and, with the preempting strategies, at loop iterations and function entries", "memory is sequentially consistent inside one run (data races are checked separately by C15)"}
)

// ------------------------------------------------------------ configurations

// Cfg is the effective configuration of a Writer.
type Cfg struct {
	Format   flate.Format
	Strategy flate.Strategy
	Level    flate.CompressLevel
	MLevel   flate.MemoryLevel
	WBits    flate.WindowBits
	Dict     []byte
}

func (c Cfg) String() string {
	return fmt.Sprintf("{%v %v level=%d mem=%d wbits=%d dict=%d}", c.Format, c.Strategy, int(c.Level), int(c.MLevel), int(c.WBits), len(c.Dict))
}

// EffWBits is the window size in force.
func (c Cfg) EffWBits() int {
	if c.WBits == 0 {
		return 15
	}
	return int(c.WBits)
}

// EffLevel is the level in force.
func (c Cfg) EffLevel() int {
	if c.Level < 0 {
		return 6
	}
	return int(c.Level)
}

// RefFormat is the container format on the wire.
func (c Cfg) RefFormat() ref.Format {
	switch c.Format {
	case flate.RawFormat:
		return ref.Raw
	case flate.GZIPFormat:
		return ref.Gzip
	}
	return ref.Zlib
}

// Opts renders the configuration as options.
func (c Cfg) Opts() []flate.Option {
	return []flate.Option{flate.WithFormat(c.Format), flate.WithStrategy(c.Strategy), flate.WithCompressLevel(c.Level),
		flate.WithMemoryLevel(c.MLevel), flate.WithWindowBits(c.WBits), flate.WithDictionary(c.Dict)}
}

// CfgLimits restricts drawn configurations.
type CfgLimits struct {
	NoDict  bool
	NoRaw   bool
	Formats []flate.Format
}

var strategies = []flate.Strategy{flate.DefaultStrategy, flate.HuffmanOnlyStrategy, flate.HuffmanRLEStrategy, flate.FixedStrategy}

func drawMLevel(t *T) flate.MemoryLevel {
	k := t.Weighted(24, 12, 8, 4, 2, 1, 1)
	if k >= 5 {
		return []flate.MemoryLevel{6, 7, 8, 9, 0}[t.Weighted(8, 4, 2, 1, 1)]
	}
	return flate.MemoryLevel(k + 1)
}

func drawWBits(t *T) flate.WindowBits {
	return []flate.WindowBits{15, 8, 9, 10, 12, 14, 11, 13, 0}[t.Weighted(5, 4, 2, 2, 1, 2, 1, 1, 2)]
}

func drawLevel(t *T) flate.CompressLevel {
	return []flate.CompressLevel{6, 0, 1, 9, -1, 2, 3, 4, 5, 7, 8}[t.Weighted(4, 4, 2, 2, 1, 1, 1, 1, 1, 1, 1)]
}

func drawFormat(t *T, lim CfgLimits) flate.Format {
	if len(lim.Formats) > 0 {
		return lim.Formats[t.Choose(len(lim.Formats))]
	}
	f := []flate.Format{flate.GZIPFormat, flate.ZlibFormat, flate.RawFormat, flate.DefaultFormat}[t.Weighted(4, 4, 3, 1)]
	if lim.NoRaw && f == flate.RawFormat {
		f = flate.ZlibFormat
	}
	return f
}

func drawDict(t *T) []byte {
	if !t.Chance(1, 4) {
		return nil
	}
	n := 1 + t.Size(40000)
	kind := t.Choose(dst.DataKinds + 1)
	if kind == dst.DataKinds {
		return make([]byte, n) // all zero
	}
	return dst.GenData(kind, n, t.Seed())
}

// DrawCfg draws a Writer configuration.
func DrawCfg(t *T, lim CfgLimits) Cfg {
	var c Cfg
	c.Format = drawFormat(t, lim)
	c.Level = drawLevel(t)
	c.Strategy = strategies[t.Weighted(5, 2, 2, 2)]
	c.MLevel = drawMLevel(t)
	c.WBits = drawWBits(t)
	if !lim.NoDict {
		c.Dict = drawDict(t)
	}
	t.Log("cfg %s", c.String())
	return c
}

// RCfg is the configuration of a Reader.
type RCfg struct {
	Format flate.Format
	MLevel flate.MemoryLevel
	WBits  flate.WindowBits
	Dict   []byte
}

func (c RCfg) String() string {
	return fmt.Sprintf("{%v mem=%d wbits=%d dict=%d}", c.Format, int(c.MLevel), int(c.WBits), len(c.Dict))
}

// EffWBits is the window size in force.
func (c RCfg) EffWBits() int {
	if c.WBits == 0 {
		return 15
	}
	return int(c.WBits)
}

// Opts renders the configuration as options.
func (c RCfg) Opts() []flate.Option {
	return []flate.Option{flate.WithFormat(c.Format), flate.WithMemoryLevel(c.MLevel), flate.WithWindowBits(c.WBits), flate.WithDictionary(c.Dict)}
}

// RefOpts are the matching reference options.
func (c RCfg) RefOpts() ref.Options {
	o := ref.Options{Dict: c.Dict, WindowBits: c.EffWBits()}
	switch c.Format {
	case flate.RawFormat:
		o.Format = ref.Raw
	case flate.ZlibFormat:
		o.Format = ref.Zlib
	case flate.GZIPFormat:
		o.Format = ref.Gzip
	}
	return o
}

// ReaderFor draws a Reader configuration able to decode what a Writer with
// configuration c emits.
func ReaderFor(t *T, c Cfg) RCfg {
	r := RCfg{Dict: c.Dict}
	switch c.RefFormat() {
	case ref.Raw:
		r.Format = flate.RawFormat
	case ref.Zlib:
		r.Format = flate.ZlibFormat
	default:
		r.Format = flate.GZIPFormat
	}
	if r.Format != flate.RawFormat && t.Chance(1, 2) {
		r.Format = flate.DefaultFormat
	}
	r.MLevel = drawMLevel(t)
	r.WBits = flate.WindowBits(c.EffWBits())
	if t.Chance(1, 2) {
		r.WBits = 15
		if t.Chance(1, 2) {
			r.WBits = 0
		}
	}
	t.Log("rcfg %s", r.String())
	return r
}

// ----------------------------------------------------------------- programs

// OpKind of a program step.
type OpKind byte

// Steps.
const (
	OpWrite OpKind = iota
	OpFlush
	OpClose
	OpReset
	OpHeader
	OpQuery
)

// Op is one step of a Writer program.
type Op struct {
	Kind   OpKind
	Data   []byte
	Flush  flate.FlushType
	Cfg    Cfg            // OpReset: the accumulated configuration afterwards
	Opts   []flate.Option // OpReset
	Header flate.Header
	Stream int // index of the stream the data belongs to
}

func (o Op) String() string {
	switch o.Kind {
	case OpWrite:
		return fmt.Sprintf("Write(%d)", len(o.Data))
	case OpFlush:
		return fmt.Sprintf("Flush(%v)", o.Flush)
	case OpClose:
		return "Close"
	case OpReset:
		return fmt.Sprintf("Reset(%d opts -> %v)", len(o.Opts), o.Cfg)
	case OpHeader:
		return fmt.Sprintf("SetHeader(%q)", o.Header.FileName)
	}
	return "Query"
}

// ProgOpts shapes generated programs.
type ProgOpts struct {
	MaxData    int
	MaxStreams int
	MaxUses    int
	Lim        CfgLimits
	Headers    bool
	FlushRate  int // one in FlushRate pieces is followed by a flush (0: none)
	FlushKinds []flate.FlushType
	NoClose    bool // leave the last use unclosed (its last stream is finished)
}

// changeCfg draws a partial set of option changes and the resulting
// accumulated configuration.
func changeCfg(t *T, c Cfg, lim CfgLimits) (Cfg, []flate.Option) {
	var opts []flate.Option
	if !t.Chance(3, 4) {
		return c, nil
	}
	if t.Chance(1, 2) {
		c.Format = drawFormat(t, lim)
		opts = append(opts, flate.WithFormat(c.Format))
	}
	if t.Chance(1, 2) {
		c.Level = drawLevel(t)
		opts = append(opts, flate.WithCompressLevel(c.Level))
	}
	if t.Chance(1, 2) {
		c.Strategy = strategies[t.Weighted(5, 2, 2, 2)]
		opts = append(opts, flate.WithStrategy(c.Strategy))
	}
	if t.Chance(1, 3) {
		c.MLevel = drawMLevel(t)
		opts = append(opts, flate.WithMemoryLevel(c.MLevel))
	}
	if t.Chance(1, 2) {
		c.WBits = drawWBits(t)
		opts = append(opts, flate.WithWindowBits(c.WBits))
	}
	if !lim.NoDict && t.Chance(1, 2) {
		c.Dict = drawDict(t)
		opts = append(opts, flate.WithDictionary(c.Dict))
	}
	return c, opts
}

var allFlushes = []flate.FlushType{flate.SyncFlush, flate.FullFlush, flate.PartialFlush, flate.BlockFlush}

// largeData exceeds every internal buffer of both sides several times.
const largeData = 300000

// GenProgram draws a fault-free-legal Writer program.  The first step is
// always an OpReset carrying the initial configuration.
func GenProgram(t *T, o ProgOpts) []Op {
	var ops []Op
	cfg := DrawCfg(t, o.Lim)
	// now and then more than any internal buffer holds
	large := 0
	if o.MaxData >= 3000 && t.Chance(1, 100) {
		large = 1 + t.Choose(2)
	}
	if large > 0 && t.Chance(2, 3) {
		cfg.MLevel = flate.MemoryLevel(t.Range(7, 9))
	}
	ops = append(ops, Op{Kind: OpReset, Cfg: cfg, Opts: cfg.Opts()})
	uses := 1
	if o.MaxUses > 1 && t.Chance(1, 3) {
		uses = t.Range(1, o.MaxUses)
	}
	kinds := o.FlushKinds
	if kinds == nil {
		kinds = allFlushes
	}
	stream := 0
	for u := 0; u < uses; u++ {
		if u > 0 {
			var opts []flate.Option
			cfg, opts = changeCfg(t, cfg, o.Lim)
			ops = append(ops, Op{Kind: OpReset, Cfg: cfg, Opts: opts})
		}
		streams := 1
		if o.MaxStreams > 1 {
			streams = 1 + t.Weighted(5, 3, 1)
			if streams > o.MaxStreams {
				streams = o.MaxStreams
			}
		}
		if t.Chance(1, 20) {
			streams = 0
		}
		for s := 0; s < streams; s++ {
			if o.Headers && t.Chance(1, 2) {
				ops = append(ops, Op{Kind: OpHeader, Header: DrawHeader(t)})
			}
			data := t.Data(o.MaxData)
			if large > 0 && t.Chance(1, 2) {
				large--
				data = t.LargeData(largeData)
			}
			pieces := t.Pieces(len(data))
			rate := 0
			if o.FlushRate > 0 && t.Chance(2, 3) {
				rate = o.FlushRate
			}
			var rng *dst.RNG
			if len(pieces) > 24 {
				rng = dst.NewRNG(t.Seed())
				if rate > 0 {
					rate = rate * len(pieces) / 12
				}
			}
			at := 0
			for _, n := range pieces {
				ops = append(ops, Op{Kind: OpWrite, Data: data[at : at+n], Stream: stream})
				at += n
				if rate > 0 {
					if rng != nil {
						for p := rate; rng.N(p) == 0; p = 4 {
							ops = append(ops, Op{Kind: OpFlush, Flush: kinds[rng.N(len(kinds))]})
						}
					} else {
						// flushes may follow each other without data in between
						for p := rate; t.Chance(1, p); p = 4 {
							ops = append(ops, Op{Kind: OpFlush, Flush: kinds[t.Choose(len(kinds))]})
						}
					}
				}
			}
			if s+1 < streams || t.Chance(1, 3) {
				ops = append(ops, Op{Kind: OpFlush, Flush: flate.FinishFlush})
			}
			stream++
		}
		last := u+1 == uses
		if last && o.NoClose {
			ops = append(ops, Op{Kind: OpFlush, Flush: flate.FinishFlush})
		} else if last || t.Chance(2, 3) {
			ops = append(ops, Op{Kind: OpClose})
		} else {
			ops = append(ops, Op{Kind: OpFlush, Flush: flate.FinishFlush})
		}
		stream++
	}
	t.Log("program of %d ops", len(ops))
	return ops
}

// MStream is the model of one stream.
type MStream struct {
	Cfg       Cfg
	Data      []byte
	Optional  bool // an empty stream that may or may not be emitted
	Finished  bool
	Header    flate.Header   // explicit header in force when its first byte was written
	HeaderAmb bool           // the header changed after data was written
	Alts      []flate.Header // headers set after data was written, before the stream's first byte reached the sink
	Start     int            // bytes in the sink when the stream's first data was written
	Ops       []Op           // the calls that made up the stream
	FullAt    []int          // sink offsets of full flushes, with data offsets
	FullData  []int
}

// Use is the period between two resets.
type Use struct {
	Cfg     Cfg
	Sink    *dst.Sink
	Streams []*MStream
	Cur     *MStream
	Closed  bool
}

// Drv drives a Writer and keeps the model.
type Drv struct {
	T           *T
	FW          *flate.Writer
	Uses        []*Use
	Hdr         flate.Header
	NewSinkPlan func(use int) dst.SinkPlan
	OnSink      func(s *dst.Sink)
	ExtraOpts   []flate.Option
	Scribble    bool
	Name        string
	Strict      bool // any error is a violation
	After       func(d *Drv, i int, op Op, err error)
	i           int
}

// Use returns the current use.
func (d *Drv) Use() *Use { return d.Uses[len(d.Uses)-1] }

func (d *Drv) newSink() *dst.Sink {
	p := dst.NoSinkFault()
	if d.NewSinkPlan != nil {
		p = d.NewSinkPlan(len(d.Uses))
	}
	s := d.T.NewSink(fmt.Sprintf("%s%d", d.Name, len(d.Uses)), p)
	if d.OnSink != nil {
		d.OnSink(s)
	}
	return s
}

// Do performs one step.
func (d *Drv) Do(op Op) error {
	t := d.T
	t.Log("%s op %s", d.Name, op.String())
	var err error
	switch op.Kind {
	case OpReset:
		opts := op.Opts
		if d.FW == nil {
			s := d.newSink()
			d.Uses = append(d.Uses, &Use{Cfg: op.Cfg, Sink: s})
			d.FW = flate.NewWriter(s.W(), append(append([]flate.Option{}, opts...), d.ExtraOpts...)...)
		} else {
			d.Use().Sink.Closed = true
			s := d.newSink()
			d.Uses = append(d.Uses, &Use{Cfg: op.Cfg, Sink: s})
			d.FW.Reset(s.W(), opts...)
		}
	case OpWrite:
		u := d.Use()
		before := len(u.Sink.Buf)
		var n int
		buf := op.Data
		if d.Scribble {
			buf = append(make([]byte, 0, len(op.Data)+8), op.Data...)
		}
		n, err = d.FW.Write(buf)
		if d.Scribble {
			for i := range buf {
				buf[i] ^= 0xA5
			}
		}
		if err == nil {
			t.Check(n == len(op.Data), "short-write", "Write(%d) returned %d, nil", len(op.Data), n)
			if len(op.Data) > 0 {
				if u.Cur == nil {
					u.Cur = &MStream{Cfg: u.Cfg, Header: d.Hdr, Start: before}
					u.Streams = append(u.Streams, u.Cur)
				}
				u.Cur.Data = append(u.Cur.Data, op.Data...)
				u.Cur.Ops = append(u.Cur.Ops, op)
			}
		} else {
			t.Check(n >= 0 && n <= len(op.Data), "bad-count", "Write(%d) returned %d, %v", len(op.Data), n, err)
		}
	case OpFlush:
		err = d.FW.Flush(op.Flush)
		if u := d.Use(); err == nil && u.Cur != nil {
			u.Cur.Ops = append(u.Cur.Ops, op)
		}
		if err == nil && op.Flush == flate.FinishFlush {
			d.finish()
		}
		if err == nil && op.Flush == flate.FullFlush {
			if u := d.Use(); u.Cur != nil {
				u.Cur.FullAt = append(u.Cur.FullAt, len(u.Sink.Buf))
				u.Cur.FullData = append(u.Cur.FullData, len(u.Cur.Data))
			}
		}
	case OpClose:
		err = d.FW.Close()
		if err == nil {
			d.finish()
			d.Use().Closed = true
		}
	case OpHeader:
		err = d.FW.SetHeader(CloneHeader(op.Header))
		if err == nil {
			d.Hdr = op.Header
			if u := d.Use(); u.Cur != nil {
				u.Cur.HeaderAmb = true
				if len(u.Sink.Buf) == u.Cur.Start {
					u.Cur.Alts = append(u.Cur.Alts, op.Header)
				}
			}
		}
	}
	t.Log("%s -> %v", d.Name, err)
	if d.Strict && err != nil {
		t.Fail("unexpected-error", "step %d %v failed without any fault: %v", d.i, op, err)
	}
	if d.After != nil {
		d.After(d, d.i, op, err)
	}
	d.i++
	return err
}

func (d *Drv) finish() {
	u := d.Use()
	if u.Cur != nil {
		u.Cur.Finished = true
		u.Cur = nil
		return
	}
	u.Streams = append(u.Streams, &MStream{Cfg: u.Cfg, Optional: len(u.Streams) > 0, Finished: true, Header: d.Hdr})
}

// RunAll performs all steps.
func (d *Drv) RunAll(ops []Op) {
	for _, op := range ops {
		d.Do(op)
	}
}

// Want is the content of a use.
func (u *Use) Want() []byte {
	var out []byte
	for _, s := range u.Streams {
		out = append(out, s.Data...)
	}
	return out
}

// RefOpts for decoding what the use emitted.
func (u *Use) RefOpts() ref.Options {
	return ref.Options{Format: u.Cfg.RefFormat(), Dict: u.Cfg.Dict, WindowBits: u.Cfg.EffWBits(), Strict: true}
}

// MatchStreams compares parsed streams with the model; it returns the pairing.
func MatchStreams(t *T, u *Use, res *ref.Result) []*MStream {
	var out []*MStream
	k := 0
	for i, ps := range res.Streams {
		for k < len(u.Streams) && u.Streams[k].Optional && len(ps.Out) > 0 {
			k++
		}
		if k >= len(u.Streams) {
			t.Fail("stream-structure", "stream %d (%d bytes of content) was emitted but nothing was written for it; model has %d streams", i, len(ps.Out), len(u.Streams))
		}
		ms := u.Streams[k]
		if !bytes.Equal(ms.Data, ps.Out) {
			t.Fail("content-differs", "stream %d decodes to %s", i, diff(ms.Data, ps.Out))
		}
		out = append(out, ms)
		k++
	}
	for ; k < len(u.Streams); k++ {
		if !u.Streams[k].Optional && u.Streams[k].Finished {
			t.Fail("stream-structure", "finished stream %d (%d bytes) is missing from the output", k, len(u.Streams[k].Data))
		}
	}
	return out
}

// diff renders the first difference between byte strings.
func diff(want, got []byte) string {
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	i := 0
	for i < n && want[i] == got[i] {
		i++
	}
	if i == len(want) && i == len(got) {
		return fmt.Sprintf("the same %d bytes", i)
	}
	w, g := want[i:], got[i:]
	if len(w) > 16 {
		w = w[:16]
	}
	if len(g) > 16 {
		g = g[:16]
	}
	return fmt.Sprintf("%d bytes instead of %d; first difference at %d: want %x, got %x", len(got), len(want), i, w, g)
}

// ------------------------------------------------------------------ reading

// ReadPlan is a sequence of caller buffer sizes.
type ReadPlan struct {
	Mode int
	K    int
	Seed uint64
}

// DrawReads draws caller buffer sizes.
func DrawReads(t *T) ReadPlan {
	p := ReadPlan{Mode: t.Weighted(4, 2, 3, 3)}
	switch p.Mode {
	case 1:
		p.K = 1
	case 2:
		p.K = 1 + t.Size(70000)
	case 3:
		p.K = 1 + t.Size(5000)
		p.Seed = t.Seed()
	}
	return p
}

// Reads iterates buffer sizes.
type Reads struct {
	p   ReadPlan
	rng *dst.RNG
	n   int
	buf []byte
}

// NewReads starts a plan.
func NewReads(p ReadPlan) *Reads { return &Reads{p: p, rng: dst.NewRNG(p.Seed + 5)} }

// Next returns the next caller buffer.
func (r *Reads) Next() []byte {
	n := 4096
	switch r.p.Mode {
	case 1:
		n = 1
		if r.n > 4000 {
			n = 512
		}
	case 2:
		n = r.p.K
		if n < 8 && r.n > 4000 {
			n = 512
		}
	case 3:
		n = 1 + r.rng.N(r.p.K)
		if r.rng.N(16) == 0 {
			n = 0
		}
		if n > 0 && n < 8 && r.n > 4000 {
			n = 512
		}
	}
	r.n++
	if cap(r.buf) < n {
		r.buf = make([]byte, n)
	}
	return r.buf[:n]
}

// ReadAll reads until an error, at most limit bytes.
func ReadAll(t *T, r io.Reader, plan ReadPlan, limit int) ([]byte, error) {
	return readAllThen(t, r, plan, limit, nil)
}

// readAllThen calls after with the number of bytes so far after every Read.
func readAllThen(t *T, r io.Reader, plan ReadPlan, limit int, after func(total int, err error)) ([]byte, error) {
	it := NewReads(plan)
	var out []byte
	idle := 0
	for {
		p := it.Next()
		n, err := r.Read(p)
		if n < 0 || n > len(p) {
			t.Fail("bad-count", "Read(%d) returned %d", len(p), n)
		}
		out = append(out, p[:n]...)
		if after != nil {
			after(len(out), err)
		}
		if err != nil {
			t.Log("read end %d bytes %v", len(out), err)
			return out, err
		}
		if n == 0 && len(p) > 0 {
			idle++
			if idle > 1000 {
				t.Fail("no-progress", "Read returned 0, nil 1000 times in a row after %d bytes", len(out))
			}
		} else {
			idle = 0
		}
		if len(out) > limit {
			t.Fail("too-much-output", "more than %d bytes delivered", limit)
		}
	}
}

// Decoded is the result of a simulated decompression.
type Decoded struct {
	Out []byte
	Err error
	FR  *flate.Reader
	Src *dst.Source
}

// Decode decompresses data through a simulated source.
func Decode(t *T, name string, data []byte, rc RCfg, sp dst.SourcePlan, rp ReadPlan, extra ...flate.Option) Decoded {
	src := t.NewSource(name, data, sp)
	fr := flate.NewReader(src, append(rc.Opts(), extra...)...)
	out, err := ReadAll(t, fr, rp, 64<<20)
	return Decoded{out, err, fr, src}
}

// SimpleReads is the plain plan.
var SimpleReads = ReadPlan{Mode: 0}

// errStr renders an error.
func errStr(err error) string {
	if err == nil {
		return "nil"
	}
	return fmt.Sprintf("%T: %v", err, err)
}

func isCorrupt(err error) bool {
	var c flate.CorruptInputError
	return errors.As(err, &c)
}

// eofClean reports a clean end of file.
func eofClean(err error) bool { return err == io.EOF }

// eofTrunc reports an unexpected end of file.
func eofTrunc(err error) bool { return errors.Is(err, io.ErrUnexpectedEOF) }

// drawBenignSink draws a fault-free sink with any set of optional methods.
func drawBenignSink(t *T) dst.SinkPlan {
	p := dst.NoSinkFault()
	p.Iface = t.Choose(4)
	if p.Iface >= 2 && t.Chance(1, 3) {
		p.EINVAL = true
	}
	if t.Chance(1, 6) {
		p.StallEvery = t.Range(1, 8)
		p.Seed = t.Seed()
	}
	return p
}

var errNoSpace = fmt.Errorf("write: %w", syscall.ENOSPC)
