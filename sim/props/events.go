package props

import (
	"fmt"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/vsync"
)

// rec is a deep copy of an event together with the event itself.
type rec struct {
	flate.Event
	live flate.Event // as handed out; must stay equal to the copy
	at   int         // bytes the sink had accepted (or the source had delivered)
}

// recorder is a tracer that keeps deep copies of everything it is handed.
type recorder struct {
	t    *T
	ev   []rec
	pos  func() int
	busy bool
}

func copyEvent(e flate.Event) flate.Event {
	if e.Header != nil {
		h := CloneHeader(*e.Header)
		e.Header = &h
	}
	if e.Block != nil {
		b := *e.Block
		e.Block = &b
	}
	if e.Trees != nil {
		x := *e.Trees
		x.CodeSizes = append(flate.SizeList(nil), x.CodeSizes...)
		x.LiteralLengthSizes = append(flate.SizeList(nil), x.LiteralLengthSizes...)
		x.DistanceSizes = append(flate.SizeList(nil), x.DistanceSizes...)
		e.Trees = &x
	}
	if e.Footer != nil {
		f := *e.Footer
		e.Footer = &f
	}
	return e
}

// OnEvent implements flate.Tracer.
func (r *recorder) OnEvent(e flate.Event) {
	if r.busy {
		r.t.Fail("concurrent-tracer-call", "a tracer was called while it was still handling the previous event")
	}
	r.busy = true
	x := rec{Event: copyEvent(e), live: e}
	if r.pos != nil {
		x.at = r.pos()
	}
	r.ev = append(r.ev, x)
	vsync.Yield("tracer")
	r.busy = false
}

func headerString(h *flate.Header) string {
	if h == nil {
		return ""
	}
	s := fmt.Sprintf("name=%q comment=%q mtime=%d data=%v os=%v level=%d", h.FileName, h.Comment, unixOf(h.LastModified), h.DataType, h.OSType, int(h.CompressLevel))
	for _, r := range h.ExtraData.Records {
		s += fmt.Sprintf(" %x:%x", r.ID, r.Bytes)
	}
	return s
}

// brief renders an event without lifetime totals.
func brief(e *flate.Event) string {
	s := fmt.Sprintf("%v %v in=%d out=%d", e.Type, e.Format, e.InputBytesStream, e.OutputBytesStream)
	if e.Header != nil {
		s += " header{" + headerString(e.Header) + "}"
	}
	if e.Block != nil {
		s += fmt.Sprintf(" block{%v final=%v}", e.Block.Type, e.Block.IsFinal)
	}
	if e.Trees != nil {
		s += fmt.Sprintf(" trees{%d %d %d %v %v %v}", e.Trees.CodeCount, e.Trees.LiteralLengthCount, e.Trees.DistanceCount, []byte(e.Trees.CodeSizes), []byte(e.Trees.LiteralLengthSizes), []byte(e.Trees.DistanceSizes))
	}
	if e.Footer != nil {
		s += fmt.Sprintf(" footer{%08x %08x}", uint32(e.Footer.Adler32), uint32(e.Footer.CRC32))
	}
	return s
}

// sameEvents compares two event sequences apart from lifetime totals; "" if
// they agree.
func sameEvents(a, b []rec) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(none)", "(none)"
		if i < len(a) {
			x = brief(&a[i].Event)
		}
		if i < len(b) {
			y = brief(&b[i].Event)
		}
		if x != y {
			return fmt.Sprintf("event %d is %s, expected %s", i, clip(x, 300), clip(y, 300))
		}
	}
	return ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// changed reports the first handed-out event that differs from the copy made
// when it was handed out; "" if none.
func (r *recorder) changed() string {
	for i := range r.ev {
		was, now := brief(&r.ev[i].Event), brief(&r.ev[i].live)
		if was != now {
			return fmt.Sprintf("event %d was %s and is now %s", i, clip(was, 300), clip(now, 300))
		}
	}
	return ""
}
