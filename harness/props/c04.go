package props

import (
	"github.com/transcriptaze/midiasm/midi/context"
	"github.com/transcriptaze/midiasm/midi/events"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"

	"verif/verif"
)

func genMeta(o genOpt) Ev {
	e := gen("", kSequenceNumber+verif.Choose("kind", kSequencerSpecific-kSequenceNumber+1), o)
	verif.Assume(len(e.Text) < 1<<28 && len(e.Data) < 1<<28-4)
	return e
}

// metaevent.Parse decodes exactly the payload and MarshalBinary restores the bytes.
func C04_Parse() {
	e := genMeta(anyLen)
	tick := verif.U64("tick")
	b := e.bytes()
	x, err := metaevent.Parse(tick, b...)
	verif.Assert("decodes", err == nil)
	e.check(x)
	v := x.(events.IEvent)
	verif.Assert("tick", v.Tick() == tick)
	verif.Assert("bytes", verif.EqBytes(v.Bytes(), b))
	out, err := marshal(x)
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
}

// Every manufacturer id of sequencer specific events.
func C04_IDs() {
	e := gen("", kSequencerSpecific, genOpt{maxDelta: 127, dataLen: 1, ids: 2})
	x, err := metaevent.Parse(0, e.bytes()...)
	verif.Assert("decodes", err == nil)
	e.check(x)
	out, err := marshal(x)
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
}

// Event.UnmarshalBinary.
func C04_Unmarshal() {
	e := genMeta(anyLen)
	b := e.bytes()
	var x events.Event
	err := x.UnmarshalBinary(b)
	verif.Assert("decodes", err == nil)
	e.check(x.Event)
	out, err := marshal(x.Event)
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
}

// In a track, after any history.
func C04_Track() {
	e := genMeta(anyLen)
	ctx := context.NewContext()
	ctx.RunningStatus = verif.U8("running-status")
	b := e.bytes()
	t, err := decodeTrack(chunk("MTrk", b), ctx)
	verif.Assert("decodes", err == nil)
	verif.Assert("one-event", len(t.Events) == 1)
	x := t.Events[0].Event
	e.check(x)
	verif.Assert("tick", x.Tick() == uint64(e.Delta))
	verif.Assert("bytes", verif.EqBytes(x.Bytes(), b))
	out, err := marshal(x)
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
}

// Constructed events.
func C04_Make() {
	e := genMeta(anyLen)
	x := construct(e)
	e.check(x)
	out, err := marshal(x)
	verif.Assert("encodes", err == nil)
	verif.Assert("bytes", verif.EqBytes(out, e.enc()))
}

// A fixed-format payload is accepted exactly when it is valid; what is accepted re-encodes to the same bytes.
func c04Fixed(parse func(b []byte) (any, error)) {
	types := []byte{0x00, 0x20, 0x21, 0x2f, 0x51, 0x54, 0x58, 0x59}
	t := types[verif.Choose("type", len(types))]
	n := verif.Choose("length", 7)
	d := verif.BytesN("payload", n)
	ok := false
	switch t {
	case 0x00:
		ok = n == 2
	case 0x20:
		ok = n == 1 && d[0] <= 15
	case 0x21:
		ok = n == 1 && d[0] <= 127
	case 0x2f:
		ok = n == 0
	case 0x51:
		ok = n == 3
	case 0x54:
		ok = n == 5 && d[0] < 0x80 && d[0]&0x1f <= 24 && d[1] <= 59 && d[2] <= 59 && d[3] < rates[d[0]>>5&3] && d[4] <= 100
	case 0x58:
		ok = n == 4 && d[1] <= 7
	case 0x59:
		ok = n == 2 && int8(d[0]) >= -7 && int8(d[0]) <= 7 && d[1] <= 1
	}
	enc := cat([]byte{0xff, t, byte(n)}, d)
	x, err := parse(cat([]byte{0x00}, enc))
	verif.Assert("accepted-iff-valid", (err == nil) == ok)
	if err == nil {
		out, err := marshal(x)
		verif.Assert("encodes", err == nil)
		verif.Assert("same-bytes", verif.EqBytes(out, enc))
	}
}

func C04_FixedParse() {
	c04Fixed(func(b []byte) (any, error) { return metaevent.Parse(0, b...) })
}

func C04_FixedUnmarshal() {
	c04Fixed(func(b []byte) (any, error) {
		var e events.Event
		err := e.UnmarshalBinary(b)
		return e.Event, err
	})
}

// Unknown meta event types are rejected, by every decoder.
func C04_UnknownType() {
	t := verif.U8("type")
	known := t <= 9 || t == 0x20 || t == 0x21 || t == 0x2f || t == 0x51 || t == 0x54 || t == 0x58 || t == 0x59 || t == 0x7f
	verif.Assume(!known)
	b := []byte{0x00, 0xff, t, 0x01, verif.U8("data")}
	_, err := metaevent.Parse(0, b...)
	verif.Assert("parse", err != nil)
	var e events.Event
	verif.Assert("unmarshal", e.UnmarshalBinary(b) != nil)
}
