package props

import (
	"github.com/transcriptaze/midiasm/midi/context"
	"github.com/transcriptaze/midiasm/midi/events"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"

	"verif/verif"
)

// midievent.Parse, explicit status.
func C03_Parse() {
	e := gen("", verif.Choose("kind", kPitchBend+1), genOpt{})
	tick := verif.U64("tick")
	rs := verif.U8("running-status")
	b := e.bytes()
	x, err := midievent.Parse(tick, rs, b...)
	verif.Assert("decodes", err == nil)
	e.check(x)
	v := x.(events.IEvent)
	verif.Assert("tick", v.Tick() == tick)
	verif.Assert("bytes", verif.EqBytes(v.Bytes(), b))
	out, err := marshal(x)
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
}

// midievent.Parse, running status.
func C03_ParseRunning() {
	e := gen("", verif.Choose("kind", kPitchBend+1), genOpt{})
	tick := verif.U64("tick")
	b := cat(refVLQ(e.Delta), e.data())
	x, err := midievent.Parse(tick, e.status(), b...)
	verif.Assert("decodes", err == nil)
	e.check(x)
	v := x.(events.IEvent)
	verif.Assert("tick", v.Tick() == tick)
	verif.Assert("bytes", verif.EqBytes(v.Bytes(), b))
	out, err := marshal(x)
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
}

// Event.UnmarshalBinary dispatches on the status byte.
func C03_Unmarshal() {
	e := gen("", verif.Choose("kind", kPitchBend+1), genOpt{})
	b := e.bytes()
	var x events.Event
	err := x.UnmarshalBinary(b)
	verif.Assert("decodes", err == nil)
	e.check(x.Event)
	out, err := marshal(x.Event)
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
}

// In a track, after any history (any running status), explicit and running.
func C03_Track() {
	e := gen("", verif.Choose("kind", kPitchBend+1), genOpt{})
	ctx := context.NewContext()
	b := e.bytes()
	if verif.Choose("running", 2) == 1 {
		ctx.RunningStatus = e.status()
		b = cat(refVLQ(e.Delta), e.data())
	} else {
		ctx.RunningStatus = verif.U8("running-status")
	}
	t, err := decodeTrack(chunk("MTrk", b), ctx)
	verif.Assert("decodes", err == nil)
	verif.Assert("one-event", len(t.Events) == 1)
	x := t.Events[0].Event
	e.check(x)
	verif.Assert("tick", x.Tick() == uint64(e.Delta))
	verif.Assert("bytes", verif.EqBytes(x.Bytes(), b))
	out, err := marshal(x)
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
}

// Constructed events encode to the specified bytes.
func C03_Make() {
	e := gen("", verif.Choose("kind", kPitchBend+1), genOpt{})
	x := construct(e)
	e.check(x)
	out, err := marshal(x)
	verif.Assert("encodes", err == nil)
	verif.Assert("bytes", verif.EqBytes(out, e.enc()))
}

// Data bytes above 127 are never read as event values.
func C03_DataBytes() {
	k := verif.Choose("kind", kPitchBend+1)
	st := channelStatus[k] | verif.U8R("channel", 0, 15)
	n := 2
	if k == kProgramChange || k == kChannelPressure {
		n = 1
	}
	d := verif.BytesN("data", n)
	x, err := midievent.Parse(0, 0, cat([]byte{0, st}, d)...)
	bad := d[0] > 127 || (n == 2 && d[n-1] > 127)
	verif.Assert("rejected-iff-not-data", (err != nil) == bad)
	if err == nil {
		out, _ := marshal(x)
		verif.Assert("same-bytes", verif.EqBytes(out, cat([]byte{st}, d)))
	}
}

// Polyphonic pressure: channel and pressure (the note number is a known finding, see C03_PolyphonicPressure).
func C03_PolyphonicPressureValue() {
	ch := verif.U8R("channel", 0, 15)
	p := verif.U8R("pressure", 0, 127)
	d := verif.U32("delta")
	b := cat(refVLQ(d), []byte{0xa0 | ch, p})
	x, err := midievent.Parse(7, 0, b...)
	if err != nil {
		return
	}
	v, ok := x.(midievent.PolyphonicPressure)
	assertKind(ok)
	verif.Assert("delta", v.Delta() == d)
	verif.Assert("tick", v.Tick() == 7)
	verif.Assert("channel", uint8(v.Channel) == ch)
	verif.Assert("pressure", v.Pressure == p)
	out, err := v.MarshalBinary()
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, []byte{0xa0 | ch, p}))
}

// Polyphonic pressure has two data bytes: note and pressure.
func C03_PolyphonicPressure() {
	ch := verif.U8R("channel", 0, 15)
	n := verif.U8R("note", 0, 127)
	p := verif.U8R("pressure", 0, 127)
	b := []byte{0x00, 0xa0 | ch, n, p, 0x00, 0xff, 0x2f, 0x00}
	t, err := decodeTrack(chunk("MTrk", b), context.NewContext())
	verif.Assert("two-data-bytes", err == nil && len(t.Events) == 2)
}

// The MIDI standard has the least significant seven bits of a pitch bend first.
func C03_PitchBendOrder() {
	a, b := verif.U8R("lsb", 0, 127), verif.U8R("msb", 0, 127)
	x, err := midievent.Parse(0, 0, 0x00, 0xe0, a, b)
	verif.Assert("decodes", err == nil)
	v, ok := x.(midievent.PitchBend)
	assertKind(ok)
	verif.Assert("least-significant-first", v.Bend == uint16(b)<<7|uint16(a))
}
