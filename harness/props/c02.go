package props

import (
	"github.com/transcriptaze/midiasm/midi"

	"verif/verif"
)

// checkMThd states that h holds exactly what the header fields say.
func checkMThd(h midi.MThd, format, tracks, division uint16) {
	verif.Assert("tag", h.Tag == "MThd")
	verif.Assert("length", h.Length == 6)
	verif.Assert("format", h.Format == format)
	verif.Assert("tracks", h.Tracks == tracks)
	verif.Assert("division", h.Division == division)
	if division&0x8000 == 0 {
		verif.Assert("metrical", !h.SMPTETimeCode && h.PPQN == division)
	} else {
		verif.Assert("smpte", h.SMPTETimeCode)
		verif.Assert("sub-frames", h.SubFrames == division&0xff)
		verif.Assert("fps", int(h.FPS) == -int(int8(division>>8)))
		verif.Assert("drop-frame", h.DropFrame == (int8(division>>8) == -29))
	}
}

func validDivision(d uint16) bool {
	if d&0x8000 == 0 {
		return true
	}
	f := int8(d >> 8)
	return f == -24 || f == -25 || f == -29 || f == -30
}

// Every valid header decodes to its fields and encodes to the same bytes.
func C02_Decode() {
	f := verif.U16R("format", 0, 2)
	n := verif.U16("tracks")
	d := verif.U16("division")
	verif.Assume(validDivision(d))
	b := mthd(f, n, d)
	var h midi.MThd
	err := h.UnmarshalBinary(b)
	verif.Assert("decodes", err == nil)
	checkMThd(h, f, n, d)
	out, err := h.MarshalBinary()
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, b))
}

// MakeMThd agrees with decoding.
func C02_Make() {
	f := verif.U16R("format", 0, 2)
	n := verif.U16("tracks")
	d := verif.U16("division")
	verif.Assume(validDivision(d))
	h := midi.MakeMThd(f, n, d)
	checkMThd(h, f, n, d)
	out, err := h.MarshalBinary()
	verif.Assert("encodes", err == nil)
	verif.Assert("bytes", verif.EqBytes(out, mthd(f, n, d)))
}

// A header chunk is accepted exactly when tag, length, format and division are valid.
func C02_Reject() {
	b := verif.BytesN("chunk", 14)
	var h midi.MThd
	err := h.UnmarshalBinary(b)
	ok := b[0] == 'M' && b[1] == 'T' && b[2] == 'h' && b[3] == 'd' &&
		b[4] == 0 && b[5] == 0 && b[6] == 0 && b[7] == 6 &&
		b[8] == 0 && b[9] <= 2 && validDivision(uint16(b[12])<<8|uint16(b[13]))
	verif.Assert("accepted-iff-valid", (err == nil) == ok)
}

// The header of a whole file.
func C02_File() {
	f := verif.U16R("format", 0, 2)
	d := verif.U16("division")
	verif.Assume(validDivision(d))
	smf, err := decode(cat(mthd(f, 1, d), track(eot(0))))
	verif.Assert("decodes", err == nil)
	checkMThd(*smf.MThd, f, 1, d)
	out, err := encode(*smf)
	verif.Assert("encodes", err == nil)
	verif.Assert("same-header", verif.EqBytes(out[:14], mthd(f, 1, d)))
}

// Short chunks are errors.
func C02_Short() {
	n := verif.Choose("length", 14)
	var h midi.MThd
	verif.Assert("rejected", h.UnmarshalBinary(verif.BytesN("chunk", n)) != nil)
}
