package props

import (
	"bytes"

	"github.com/transcriptaze/midiasm/midi/events"
	"github.com/transcriptaze/midiasm/midi/lib"

	"verif/verif"
)

// Delta.MarshalBinary writes the canonical form, for all 32-bit values.
func C01_DeltaEncode() {
	d := verif.U32("delta")
	b, err := lib.Delta(d).MarshalBinary()
	verif.Assert("encodes", err == nil)
	verif.Assert("canonical", verif.EqBytes(b, refVLQ(d)))
}

// DecodeDelta inverts it and consumes exactly those bytes.
func C01_DeltaDecode() {
	d := verif.U32("delta")
	rest := verif.U8("rest")
	r := bytes.NewReader(append(refVLQ(d), rest))
	v, err := lib.DecodeDelta(r)
	verif.Assert("decodes", err == nil)
	verif.Assert("value", uint32(v) == d)
	verif.Assert("consumed", r.Len() == 1)
}

// VLQ.MarshalBinary writes the canonical form.
func C01_VLQEncode() {
	d := verif.U32("value")
	b, err := lib.VLQ(d).MarshalBinary()
	verif.Assert("encodes", err == nil)
	verif.Assert("canonical", verif.EqBytes(b, refVLQ(d)))
}

// VLF.MarshalBinary writes the length and then the data, at every length.
func C01_VLFEncode() {
	d := verif.Bytes("data")
	verif.Assume(len(d) < 1<<28)
	b, err := lib.VLF(d).MarshalBinary()
	verif.Assert("encodes", err == nil)
	verif.Assert("canonical", verif.EqBytes(b, cat(refVLQ(uint32(len(d))), d)))
}

// The track reader's VLQ.
func C01_StreamVLQ() {
	d := verif.U32("value")
	rest := verif.U8("rest")
	r := bytes.NewReader(append(refVLQ(d), rest))
	v, err := events.VLQ(r)
	verif.Assert("decodes", err == nil)
	verif.Assert("value", v == d)
	verif.Assert("consumed", r.Len() == 1)
}

// The track reader's VLF returns exactly the data, at every length, and consumes nothing more.
func C01_StreamVLF() {
	d := verif.Bytes("data")
	verif.Assume(len(d) < 1<<28)
	rest := verif.U8("rest")
	r := bytes.NewReader(cat(refVLQ(uint32(len(d))), d, []byte{rest}))
	v, err := events.VLF(r)
	verif.Assert("decodes", err == nil)
	verif.Assert("data", verif.EqBytes(v, d))
	verif.Assert("consumed", r.Len() == 1)
}

// Deltas and length prefixes of whole events: meta, SysEx and channel events.
func C01_EventDelta() {
	kinds := []int{kNoteOn, kProgramChange, kText, kSequencerSpecific, kEndOfTrack, kSysEx}
	e := gen("", kinds[verif.Choose("kind", len(kinds))], genOpt{textLen: -1, dataLen: -1})
	verif.Assume(len(e.Text) < 1<<28 && len(e.Data) < 1<<28-4)
	var x events.Event
	err := x.UnmarshalBinary(e.bytes())
	verif.Assert("decodes", err == nil)
	verif.Assert("delta", x.Delta() == e.Delta)
	b, err := marshal(x.Event)
	verif.Assert("encodes", err == nil)
	verif.Assert("bytes", verif.EqBytes(b, e.enc()))
}
