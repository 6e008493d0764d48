package props

import (
	"bytes"
	"fmt"
	"time"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
)

func randText(r *dst.RNG, n int, file bool) string {
	b := make([]byte, n)
	for i := range b {
		for {
			c := byte(1 + r.N(255))
			if r.N(3) > 0 {
				c = byte('a' + r.N(26))
			}
			if file && (c == '/' || c == '\\') {
				continue
			}
			b[i] = c
			break
		}
	}
	return string(b)
}

// DrawHeader draws a representable header.
func DrawHeader(t *T) flate.Header {
	var h flate.Header
	r := dst.NewRNG(t.Seed())
	if t.Chance(1, 2) {
		n := 1 + t.Size(254)
		if n > 255 {
			n = 255
		}
		h.FileName = randText(r, n, true)
	}
	if t.Chance(1, 2) {
		n := 1 + t.Size(254)
		if n > 255 {
			n = 255
		}
		h.Comment = randText(r, n, false)
	}
	if t.Chance(1, 2) {
		var sec int64
		switch t.Choose(4) {
		case 0:
			sec = int64(1 + r.N(1<<31-1))
		case 1:
			sec = int64(1<<31) + int64(r.N(1<<31-2))
		case 2:
			sec = 1
		case 3:
			sec = 1<<32 - 2
		}
		ns := int64(0)
		if r.N(2) == 0 {
			ns = int64(r.N(1000000000))
		}
		h.LastModified = time.Unix(sec, ns)
		if r.N(2) == 0 {
			h.LastModified = h.LastModified.In(time.FixedZone("x", 3600*(r.N(25)-12)))
		}
	}
	h.DataType = flate.DataType(t.Choose(3))
	h.OSType = flate.OSType(t.Choose(15))
	if t.Chance(1, 3) {
		k := t.Range(1, 4)
		for i := 0; i < k; i++ {
			var rec flate.ExtraDataRecord
			rec.ID = [2]byte{byte(r.N(256)), byte(r.N(256))}
			n := r.N(40)
			if r.N(8) == 0 {
				n = r.N(3000)
			}
			if r.N(40) == 0 {
				n = 16000
			}
			rec.Bytes = make([]byte, n)
			for j := range rec.Bytes {
				rec.Bytes[j] = byte(r.N(256))
			}
			h.ExtraData.Records = append(h.ExtraData.Records, rec)
		}
	}
	return h
}

// CloneHeader makes a deep copy.
func CloneHeader(h flate.Header) flate.Header {
	recs := h.ExtraData.Records
	h.ExtraData.Records = nil
	for _, r := range recs {
		b := append([]byte{}, r.Bytes...)
		h.ExtraData.Records = append(h.ExtraData.Records, flate.ExtraDataRecord{ID: r.ID, Bytes: b})
	}
	return h
}

func sameRecords(a, b []flate.ExtraDataRecord) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ID != b[i].ID || !bytes.Equal(a[i].Bytes, b[i].Bytes) {
			return false
		}
	}
	return true
}

func unixOf(tm time.Time) int64 {
	if tm.IsZero() {
		return 0
	}
	return tm.Unix()
}

// headerMismatch compares the explicit parts of a header that was set with one
// that was reported; "" if they agree.
func headerMismatch(set, got flate.Header, data []byte) string {
	switch {
	case set.FileName != got.FileName:
		return fmt.Sprintf("file name %q became %q", set.FileName, got.FileName)
	case set.Comment != got.Comment:
		return fmt.Sprintf("comment %q became %q", set.Comment, got.Comment)
	case unixOf(set.LastModified) != unixOf(got.LastModified):
		return fmt.Sprintf("modification time %v became %v", set.LastModified, got.LastModified)
	case set.DataType != flate.UnknownData && set.DataType != got.DataType:
		return fmt.Sprintf("data type %v became %v", set.DataType, got.DataType)
	case set.OSType != flate.OSTypeUnknown && set.OSType != got.OSType:
		return fmt.Sprintf("OS type %v became %v", set.OSType, got.OSType)
	case !sameRecords(set.ExtraData.Records, got.ExtraData.Records):
		return fmt.Sprintf("extra records %d became %d or changed", len(set.ExtraData.Records), len(got.ExtraData.Records))
	}
	return ""
}

// gzip OS bytes per RFC 1952 section 2.3.1
var rfcOS = map[flate.OSType]byte{
	flate.OSTypeFAT: 0, flate.OSTypeAmiga: 1, flate.OSTypeVMS: 2, flate.OSTypeUnix: 3, flate.OSTypeVMCMS: 4,
	flate.OSTypeAtariTOS: 5, flate.OSTypeHPFS: 6, flate.OSTypeMacintosh: 7, flate.OSTypeZSystem: 8, flate.OSTypeCPM: 9,
	flate.OSTypeTOPS20: 10, flate.OSTypeNTFS: 11, flate.OSTypeQDOS: 12, flate.OSTypeAcornRISCOS: 13,
}

// rawHeaderMismatch compares a header that was set with the bytes on the wire.
func rawHeaderMismatch(set flate.Header, st *ref.Stream) string {
	if set.FileName != st.Name || (set.FileName != "") != st.HasName {
		return fmt.Sprintf("file name %q is %q on the wire", set.FileName, st.Name)
	}
	if set.Comment != st.Comment || (set.Comment != "") != st.HasComment {
		return fmt.Sprintf("comment %q is %q on the wire", set.Comment, st.Comment)
	}
	if uint32(unixOf(set.LastModified)) != st.MTime {
		return fmt.Sprintf("modification time %d is %d on the wire", unixOf(set.LastModified), st.MTime)
	}
	if set.DataType == flate.TextData && st.Flags&1 == 0 || set.DataType == flate.BinaryData && st.Flags&1 != 0 {
		return fmt.Sprintf("data type %v has flags %#02x on the wire", set.DataType, st.Flags)
	}
	if set.DataType == flate.UnknownData && len(st.Out) != 0 {
		// inferred from the stream's own content (clear cases only)
		if c := st.Out[0]; (c < 7 || c > 13 && c < 27) && st.Flags&1 != 0 {
			return fmt.Sprintf("content starting with byte %#02x is announced as text", c)
		}
		if plainText(st.Out) && st.Flags&1 == 0 {
			return fmt.Sprintf("%d bytes of plain text are announced as binary", len(st.Out))
		}
	}
	if set.OSType != flate.OSTypeUnknown && st.OS != rfcOS[set.OSType] {
		return fmt.Sprintf("OS type %v is %d on the wire", set.OSType, st.OS)
	}
	var extra []byte
	for _, r := range set.ExtraData.Records {
		extra = append(extra, r.ID[0], r.ID[1], byte(len(r.Bytes)), byte(len(r.Bytes)>>8))
		extra = append(extra, r.Bytes...)
	}
	if !bytes.Equal(extra, st.Extra) {
		return fmt.Sprintf("extra field of %d bytes is %d bytes or different on the wire", len(extra), len(st.Extra))
	}
	return ""
}

// plainText says whether b is nothing but printable ASCII and line breaks.
func plainText(b []byte) bool {
	for _, c := range b {
		if (c < 0x20 || c > 0x7e) && c != '\n' && c != '\t' {
			return false
		}
	}
	return true
}
