package props

import (
	"github.com/transcriptaze/midiasm/midi/context"
	"github.com/transcriptaze/midiasm/midi/events"
	"github.com/transcriptaze/midiasm/midi/events/sysex"

	"verif/verif"
)

func genSysEx(p string, kind int, o genOpt) Ev {
	e := gen(p, kind, o)
	verif.Assume(len(e.Data) < 1<<28-5)
	return e
}

// sysex.Parse with the open-message state, and MarshalBinary.
func C05_Parse() {
	k := kSysEx + verif.Choose("kind", 3)
	e := genSysEx("", k, anyLen)
	tick := verif.U64("tick")
	open := k == kContinuation
	if k == kSysEx {
		open = verif.Choose("open", 2) == 1
	}
	b := e.bytes()
	x, err := sysex.Parse(tick, open, b...)
	verif.Assert("decodes", err == nil)
	e.check(x)
	v := x.(events.IEvent)
	verif.Assert("tick", v.Tick() == tick)
	verif.Assert("bytes", verif.EqBytes(v.Bytes(), b))
	out, err := marshal(x)
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
}

// Every manufacturer id.
func C05_IDs() {
	e := genSysEx("", kSysEx, genOpt{maxDelta: 127, dataLen: 1, ids: 2})
	x, err := sysex.Parse(0, false, e.bytes()...)
	verif.Assert("decodes", err == nil)
	e.check(x)
	out, err := marshal(x)
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
}

// Event.UnmarshalBinary (F7 without context is read as a continuation).
func C05_Unmarshal() {
	e := genSysEx("", kSysEx+verif.Choose("kind", 2), anyLen)
	var x events.Event
	err := x.UnmarshalBinary(e.bytes())
	verif.Assert("decodes", err == nil)
	e.check(x.Event)
	out, err := marshal(x.Event)
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
}

func C05_UnmarshalEscape() {
	e := genSysEx("", kEscape, anyLen)
	var x sysex.SysExEscapeMessage
	err := x.UnmarshalBinary(e.bytes())
	verif.Assert("decodes", err == nil)
	e.check(x)
	out, err := x.MarshalBinary()
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
}

// Constructed messages.
func C05_Make() {
	e := genSysEx("", kSysEx+verif.Choose("kind", 3), anyLen)
	x := construct(e)
	e.check(x)
	out, err := marshal(x)
	verif.Assert("encodes", err == nil)
	verif.Assert("bytes", verif.EqBytes(out, e.enc()))
}

// One SysEx event in a track, in either state: decoded exactly, and the state afterwards is open exactly
// when a message is still unfinished.  (Inductive step: the state before is arbitrary.)
func C05_TrackStep() {
	open := verif.Choose("open", 2) == 1
	k := kSysEx
	if open {
		k = kContinuation
	} else if verif.Choose("escape", 2) == 1 {
		k = kEscape
	}
	e := genSysEx("", k, anyLen)
	ctx := context.NewContext()
	ctx.Casio = open
	ctx.RunningStatus = verif.U8("running-status")
	b := e.bytes()
	t, err := decodeTrack(chunk("MTrk", b), ctx)
	verif.Assert("decodes", err == nil)
	verif.Assert("one-event", len(t.Events) == 1)
	x := t.Events[0].Event
	e.check(x)
	verif.Assert("tick", x.Tick() == uint64(e.Delta))
	verif.Assert("bytes", verif.EqBytes(x.Bytes(), b))
	out, err := marshal(x)
	verif.Assert("encodes", err == nil)
	verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
	verif.Assert("open-after", ctx.Casio == (k != kEscape && !e.End))
}

// Packets of a message, then escapes, in one track.
func C05_Packets() {
	n := 1 + verif.Choose("continuations", 3)
	o := genOpt{maxDelta: 127, dataLen: 2, ids: 1}
	first := gen("m.", kSysEx, o)
	verif.Assume(!first.End)
	evs := []Ev{first}
	for i := 0; i < n; i++ {
		c := Ev{Kind: kContinuation, Data: verif.BytesN("data", verif.Choose("n", 3)), End: i == n-1}
		if !c.End && len(c.Data) > 0 {
			verif.Assume(c.Data[len(c.Data)-1] != 0xf7)
		}
		evs = append(evs, c)
	}
	evs = append(evs, Ev{Kind: kEscape, Data: verif.BytesN("escape", 2)}, eot(0))
	b := track(evs...)
	t, err := decodeTrack(b, context.NewContext())
	verif.Assert("decodes", err == nil)
	verif.Assert("count", len(t.Events) == len(evs))
	for i, e := range evs {
		e.check(t.Events[i].Event)
		out, err := marshal(t.Events[i].Event)
		verif.Assert("encodes", err == nil)
		verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
	}
}

// While a message is open, a new F0 message is an error; an F0 message without data is an error.
func C05_Reject() {
	e := gen("", kSysEx, genOpt{maxDelta: 127, dataLen: 2, ids: 1})
	ctx := context.NewContext()
	ctx.Casio = true
	_, err := decodeTrack(chunk("MTrk", e.bytes()), ctx)
	verif.Assert("unterminated", err != nil)
	_, err = decodeTrack(chunk("MTrk", []byte{0x00, 0xf0, 0x00}), context.NewContext())
	verif.Assert("empty", err != nil)
}
