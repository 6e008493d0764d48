package props

import (
	"fmt"
	"strings"
	"time"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
)

func init() {
	dst.Register(&dst.Check{
		ID: "C16", Title: "Container metadata survives and bad metadata is refused",
		Scenarios: []dst.Named{{"program", 6, c16Program}, {"foreign", 3, c16Foreign}},
		Quick:     80000, Thorough: 3200000,
		Rule: "a run counts when the header of at least one emitted stream was compared with the model on the wire and as reported by the decompressor, or the reported headers of a generated input were compared with the reference parser; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
}

// goodHeader draws a representable header, with extremes.
func goodHeader(t *T) flate.Header {
	h := DrawHeader(t)
	r := dst.NewRNG(t.Seed())
	switch t.Weighted(8, 1, 1, 1, 1, 1, 1) {
	case 1:
		h.FileName = randText(r, 255, true)
	case 2:
		h.Comment = randText(r, 255, false)
	case 3:
		h.ExtraData.Records = []flate.ExtraDataRecord{{ID: [2]byte{1, 2}, Bytes: dst.GenData(3, 65531, t.Seed())}}
	case 4:
		h.ExtraData.Records = []flate.ExtraDataRecord{{ID: [2]byte{'a', 'b'}, Bytes: dst.GenData(3, 40000, 1)}, {Bytes: dst.GenData(3, 25527, 2)}}
	case 5:
		h = flate.Header{}
	case 6:
		h.ExtraData.Records = append(h.ExtraData.Records, flate.ExtraDataRecord{ID: [2]byte{0, 0}})
	}
	return h
}

// badHeader draws a header that must be refused, and says why.
func badHeader(t *T) (flate.Header, string) {
	h := DrawHeader(t)
	r := dst.NewRNG(t.Seed())
	spoil := func(s string, c byte) string {
		b := []byte(s)
		i := r.N(len(b) + 1)
		b = append(b[:i], append([]byte{c}, b[i:]...)...)
		if len(b) > 255 {
			b = append([]byte{c}, b[:254]...)
		}
		return string(b)
	}
	switch t.Choose(12) {
	case 0:
		h.FileName = spoil(h.FileName, 0)
		return h, "file name with a zero byte"
	case 1:
		h.FileName = spoil(h.FileName, '/')
		return h, "file name with a slash"
	case 2:
		h.FileName = spoil(h.FileName, '\\')
		return h, "file name with a backslash"
	case 3:
		h.FileName = randText(r, 256+t.Size(5000), true)
		return h, "file name too long"
	case 4:
		h.Comment = spoil(h.Comment, 0)
		return h, "comment with a zero byte"
	case 5:
		h.Comment = randText(r, 256+t.Size(5000), false)
		return h, "comment too long"
	case 6:
		h.LastModified = time.Unix(-1-int64(r.N(1<<30)), 5)
		return h, "modification time before 1970"
	case 7:
		h.LastModified = time.Unix(1<<32+int64(r.N(1<<30)), 5)
		return h, "modification time beyond 32 bits"
	case 8:
		h.OSType = flate.OSType(15 + t.Choose(241))
		return h, "OS type out of range"
	case 9:
		h.DataType = flate.DataType(3 + t.Choose(253))
		return h, "data type out of range"
	case 10:
		h.ExtraData.Records = append(h.ExtraData.Records, flate.ExtraDataRecord{Bytes: make([]byte, 65532+t.Size(70000))})
		return h, "extra record too long"
	}
	n := 2 + t.Choose(4)
	if t.Chance(1, 2) {
		// one byte too many
		a := t.Choose(65000)
		h.ExtraData.Records = []flate.ExtraDataRecord{{Bytes: make([]byte, a)}, {ID: [2]byte{1, 1}, Bytes: make([]byte, 65536-8-a)}}
		return h, "extra records one byte too long together"
	}
	for i := 0; i < n; i++ {
		h.ExtraData.Records = append(h.ExtraData.Records, flate.ExtraDataRecord{Bytes: make([]byte, 65536/n)})
	}
	return h, "extra records too long together"
}

func c16Program(t *T) {
	lim := CfgLimits{NoDict: !t.Chance(1, 8)}
	if t.Chance(5, 6) {
		lim.Formats = []flate.Format{flate.GZIPFormat}
	}
	base := GenProgram(t, ProgOpts{MaxData: 3000, MaxStreams: 3, MaxUses: 3, Lim: lim, FlushRate: 5})
	// interleave header changes, good and bad, at every kind of point
	var ops []Op
	bad := map[int]string{}
	for _, op := range base {
		if t.Chance(1, 3) && len(ops) > 0 {
			if t.Chance(1, 3) {
				h, why := badHeader(t)
				bad[len(ops)] = why
				ops = append(ops, Op{Kind: OpHeader, Header: h})
			} else {
				ops = append(ops, Op{Kind: OpHeader, Header: goodHeader(t)})
			}
		}
		ops = append(ops, op)
	}
	wr := &recorder{t: t}
	d := &Drv{T: t, Name: "fw", ExtraOpts: []flate.Option{flate.WithTracers(wr)}}
	d.After = func(d *Drv, i int, op Op, err error) {
		if why, isBad := bad[i]; isBad {
			t.Check(err != nil, "bad-header-accepted", "SetHeader accepted a header with a %s: %s", why, clip(headerString(&op.Header), 200))
			t.Probe("refused: " + why)
			return
		}
		t.Check(err == nil, "unexpected-error", "step %d %v failed without any fault: %s", i, op, errStr(err))
	}
	d.RunAll(ops)
	var events []*flate.Header
	for i := range wr.ev {
		if wr.ev[i].Type == flate.StreamHeaderEvent {
			events = append(events, wr.ev[i].Header)
		}
	}
	n := 0
	for _, u := range d.Uses {
		res, ms := parseUse(t, u)
		for i, st := range res.Streams {
			m := ms[i]
			what := fmt.Sprintf("%v stream %d", u.Cfg, i)
			t.Check(n < len(events), "event-missing", "%s: the compressor reported no header event", what)
			if st.Format == ref.Gzip {
				cands := append([]flate.Header{m.Header}, m.Alts...)
				why := ""
				for _, h := range cands {
					if why = rawHeaderMismatch(h, st); why == "" {
						break
					}
				}
				t.Check(why == "", "header-lost", "%s (%d bytes): %s", what, len(m.Data), why)
				h := wireHeader(st)
				h.WindowBits, h.CompressLevel = flate.WindowBits(u.Cfg.EffWBits()), flate.CompressLevel(u.Cfg.EffLevel())
				if d := reportedMismatch(&h, events[n], true); d != "" {
					t.Fail("event-wrong", "%s: the compressor's header event %s", what, d)
				}
				t.Nontrivial()
			}
			if len(m.Alts) == 0 && (len(m.Ops) > 0 || len(m.Data) == 0) {
				c16Twin(t, what, u, st, m)
			}
			n++
		}
		c16Read(t, fmt.Sprint(u.Cfg), u.Sink.Buf, ReaderFor(t, u.Cfg), res)
	}
	t.Check(n == len(events), "event-extra", "%d header events for %d streams", len(events), n)
}

// c16Twin: the header bytes of a stream are those a new compressor emits for
// the same stream alone with the same explicit header.
func c16Twin(t *T, what string, u *Use, st *ref.Stream, m *MStream) {
	k := t.NewSink("twin", dst.NoSinkFault())
	fw := flate.NewWriter(k.W(), u.Cfg.Opts()...)
	t.Check(fw.SetHeader(CloneHeader(m.Header)) == nil, "header-refused", "%s: the header in force was refused by a new compressor", what)
	for _, op := range m.Ops {
		if _, err := apply(fw, op); err != nil {
			t.Fail("unexpected-error", "%s: %v failed without any fault: %s", what, op, errStr(err))
		}
	}
	t.Check(fw.Close() == nil, "unexpected-error", "%s: Close failed", what)
	want := k.Buf
	got := u.Sink.Buf[st.Start:st.DeflateStart]
	if len(want) > len(got) {
		want = want[:len(got)]
	}
	t.Check(string(want) == string(got), "header-leak", "%s: header bytes %x differ from those of the same stream alone: %x", what, clipb(got), clipb(want))
}

func clipb(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

// osOf is the operating system of a gzip OS byte.
func osOf(b byte) flate.OSType {
	for k, v := range rfcOS {
		if v == b {
			return k
		}
	}
	return flate.OSTypeUnknown
}

// wireHeader is the metadata a parsed stream carries.
func wireHeader(st *ref.Stream) flate.Header {
	var h flate.Header
	switch st.Format {
	case ref.Zlib:
		h.WindowBits = flate.WindowBits(st.WindowBits)
	case ref.Gzip:
		h.FileName, h.Comment = st.Name, st.Comment
		if st.MTime != 0 {
			h.LastModified = time.Unix(int64(st.MTime), 0)
		}
		h.DataType = flate.BinaryData
		if st.Flags&1 != 0 {
			h.DataType = flate.TextData
		}
		h.OSType = osOf(st.OS)
		for x := st.Extra; len(x) >= 4; {
			n := int(x[2]) | int(x[3])<<8
			if n > len(x)-4 {
				break
			}
			h.ExtraData.Records = append(h.ExtraData.Records, flate.ExtraDataRecord{ID: [2]byte{x[0], x[1]}, Bytes: x[4 : 4+n]})
			x = x[4+n:]
		}
	}
	return h
}

// reportedMismatch compares metadata as carried with metadata as reported.
func reportedMismatch(want, got *flate.Header, writer bool) string {
	if got == nil {
		return "is missing"
	}
	if writer {
		// the compressor reports the time as it was set
		if unixOf(want.LastModified) == unixOf(got.LastModified) {
			want.LastModified = got.LastModified
		}
	}
	a, b := headerString(want), headerString(got)
	if !writer {
		a, b = strings.Split(a, " level=")[0], strings.Split(b, " level=")[0]
		if x, y := headerString(&flate.Header{ExtraData: want.ExtraData}), headerString(&flate.Header{ExtraData: got.ExtraData}); x != y {
			return fmt.Sprintf("has extra data %s, the stream carries %s", clip(y, 200), clip(x, 200))
		}
	}
	if a != b {
		return fmt.Sprintf("is %s, the stream carries %s", clip(b, 400), clip(a, 400))
	}
	if !want.LastModified.Equal(got.LastModified) {
		return fmt.Sprintf("has time %v, the stream carries %v", got.LastModified, want.LastModified)
	}
	if writer && want.WindowBits != got.WindowBits {
		return fmt.Sprintf("has window bits %d instead of %d", got.WindowBits, want.WindowBits)
	}
	return ""
}

// c16Read checks what a decompressor reports for every stream of an input.
func c16Read(t *T, what string, data []byte, rc RCfg, res *ref.Result) {
	rr := &recorder{t: t}
	var last flate.Header
	dec := Decode(t, "src", data, rc, t.DrawSource(), DrawReads(t), flate.WithTracers(rr, flate.CaptureHeader(&last)))
	t.Check(eofClean(dec.Err), "valid-rejected", "%s: %v: valid input ends with %s", what, rc, errStr(dec.Err))
	var hs []*flate.Header
	for i := range rr.ev {
		if rr.ev[i].Type == flate.StreamHeaderEvent {
			hs = append(hs, rr.ev[i].Header)
		}
	}
	t.Check(len(hs) == len(res.Streams), "event-count", "%s: %v: %d header events for %d streams", what, rc, len(hs), len(res.Streams))
	for i, st := range res.Streams {
		want := wireHeader(st)
		if d := reportedMismatch(&want, hs[i], false); d != "" {
			t.Fail("report-wrong", "%s: %v: header reported for stream %d %s", what, rc, i, d)
		}
		switch st.Format {
		case ref.Zlib:
			t.Check(int(hs[i].WindowBits) == st.WindowBits, "report-wrong", "%s: %v: stream %d has window bits %d, reported are %d", what, rc, i, st.WindowBits, hs[i].WindowBits)
			if st.FLevel == 3 || st.FLevel == 0 {
				t.Check(int(hs[i].CompressLevel) == 1+8*st.FLevel/3, "report-wrong", "%s: %v: stream %d has compression level class %d, reported is %d", what, rc, i, st.FLevel, int(hs[i].CompressLevel))
			}
		case ref.Gzip:
			if st.XFL == 2 || st.XFL == 4 {
				t.Check(int(hs[i].CompressLevel) == map[byte]int{2: 9, 4: 1}[st.XFL], "report-wrong", "%s: %v: stream %d has extra flags %d, reported is level %d", what, rc, i, st.XFL, int(hs[i].CompressLevel))
			}
		}
		t.State(st.Format, len(want.FileName) > 0, len(want.Comment) > 0, len(want.ExtraData.Records), want.OSType, want.DataType, want.LastModified.IsZero(), st.HasHCRC)
	}
	if k := len(hs); k > 0 {
		if d := reportedMismatch(&last, hs[k-1], true); d != "" {
			t.Fail("capture-wrong", "%s: %v: CaptureHeader: last header %s", what, rc, d)
		}
	}
}

// c16Foreign: streams of other compressors.
func c16Foreign(t *T) {
	in := genInput(t, InputOpts{MaxOut: 600, MaxStreams: 6, Checked: t.Chance(5, 6)})
	ro := in.RC.RefOpts()
	ro.Strict = true
	in.Want = ref.Parse(in.Data, ro)
	valid(t, in)
	c16Read(t, "generated", in.Data, in.RC, in.Want)
	t.Nontrivial()
}
