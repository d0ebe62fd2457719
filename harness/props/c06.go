package props

import (
	"github.com/transcriptaze/midiasm/midi/context"

	"verif/verif"
)

// anyEvent: an event of any kind (F7 packets follow the open-message state).
func anyEvent(p string, open bool, o genOpt) Ev {
	k := verif.Choose(p+"kind", kSysEx+2)
	if k == kSysEx+1 {
		k = kEscape
	}
	if open && k == kEscape {
		k = kContinuation
	}
	if open && k == kSysEx {
		verif.Assume(false)
	}
	e := gen(p, k, o)
	verif.Assume(len(e.Text) < 1<<27 && len(e.Data) < 1<<27)
	return e
}

// trackBytes: the event's bytes, with or without status byte where running status allows it.
func trackBytes(p string, e Ev, rs byte) []byte {
	if isChannel(e.Kind) && e.status() == rs && verif.Choose(p+"running", 2) == 1 {
		return cat(refVLQ(e.Delta), e.data())
	}
	return e.bytes()
}

func statusAfter(e Ev) byte {
	if isChannel(e.Kind) {
		return e.status()
	}
	return 0
}

// One event from an arbitrary state: exactly its bytes, delta, tick, values; running status afterwards.
func C06_Step() {
	ctx := context.NewContext()
	rs := byte(0)
	if verif.Choose("history", 2) == 1 {
		rs = verif.U8R("running-status", 0x80, 0xef)
	}
	ctx.RunningStatus = rs
	ctx.Casio = verif.Choose("open", 2) == 1
	e := anyEvent("", ctx.Casio, genOpt{textLen: -1, dataLen: -1, simple: true})
	verif.Assume(!isText(e.Kind) || e.Kind == kText) // the other text events: C04_Track
	b := trackBytes("", e, rs)
	t, err := decodeTrack(chunk("MTrk", b), ctx)
	verif.Assert("decodes", err == nil)
	verif.Assert("one-event", len(t.Events) == 1)
	x := t.Events[0].Event
	e.check(x)
	verif.Assert("tick", x.Tick() == uint64(e.Delta))
	verif.Assert("bytes", verif.EqBytes(x.Bytes(), b))
	verif.Assert("running-status-after", ctx.RunningStatus == statusAfter(e))
}

// Two events from an arbitrary state: order, ticks, running status, byte accounting.
func C06_TwoEvents() {
	ctx := context.NewContext()
	kinds := []int{kNoteOff, kNoteOn, kController, kProgramChange, kPitchBend, kText, kTempo, kEndOfTrack, kKeySignature, kSequencerSpecific, kSysEx, kEscape}
	e1 := gen("e1.", kinds[verif.Choose("e1.kind", len(kinds))], genOpt{maxDelta: 127, textLen: 1, dataLen: 1, simple: true})
	open := e1.Kind == kSysEx && !e1.End
	k := kinds[verif.Choose("e2.kind", len(kinds))]
	if open && k == kEscape {
		k = kContinuation
	}
	verif.Assume(!open || k != kSysEx)
	e2 := gen("e2.", k, genOpt{maxDelta: 16383, textLen: 1, dataLen: 1, simple: true})
	b1 := e1.bytes()
	b2 := trackBytes("e2.", e2, statusAfter(e1))
	t, err := decodeTrack(chunk("MTrk", cat(b1, b2)), ctx)
	verif.Assert("decodes", err == nil)
	verif.Assert("two-events", len(t.Events) == 2)
	x1, x2 := t.Events[0].Event, t.Events[1].Event
	e1.check(x1)
	e2.check(x2)
	verif.Assert("tick-1", x1.Tick() == uint64(e1.Delta))
	verif.Assert("tick-2", x2.Tick() == uint64(e1.Delta)+uint64(e2.Delta))
	verif.Assert("bytes-1", verif.EqBytes(x1.Bytes(), b1))
	verif.Assert("bytes-2", verif.EqBytes(x2.Bytes(), b2))
}

// Ticks are sums of all the deltas, beyond 32 bits.
func C06_Ticks() {
	n := 20
	evs := []Ev{}
	for i := 0; i < n; i++ {
		evs = append(evs, Ev{Kind: kNoteOn, Ch: 3, Delta: verif.U32R("delta", 1<<21, 1<<28-1), A: 60, B: 64})
	}
	t, err := decodeTrack(track(evs...), context.NewContext())
	verif.Assert("decodes", err == nil)
	verif.Assert("count", len(t.Events) == n)
	sum := uint64(0)
	for i, e := range evs {
		sum += uint64(e.Delta)
		verif.Assert("tick", t.Events[i].Tick() == sum)
		verif.Assert("delta", t.Events[i].Delta() == e.Delta)
	}
}

// A data byte without running status is an error, in particular after meta and SysEx events.
func C06_NoRunningStatus() {
	kinds := []int{kText, kEndOfTrack, kTempo, kSysEx, kEscape, kSequencerSpecific}
	ctx := context.NewContext()
	ctx.RunningStatus = verif.U8("running-status")
	e := gen("", kinds[verif.Choose("kind", len(kinds))], genOpt{maxDelta: 127, textLen: 1, dataLen: 1})
	verif.Assume(e.Kind != kSysEx || e.End)
	d := verif.BytesNR("data", 2, 0, 127)
	_, err := decodeTrack(chunk("MTrk", cat(e.bytes(), []byte{0x00}, d)), ctx)
	verif.Assert("rejected", err != nil)
	_, err = decodeTrack(chunk("MTrk", cat([]byte{0x00}, d)), context.NewContext())
	verif.Assert("rejected-first", err != nil)
}

// Running status is per track.
func C06_PerTrack() {
	e := gen("", kNoteOn, genOpt{maxDelta: 127})
	h := anyHeader(2)
	b := cat(h, track(e, eot(0)), chunk("MTrk", cat([]byte{0x00}, e.data(), eot(0).bytes())))
	_, err := decode(b)
	verif.Assert("rejected", err != nil)
	// and ticks start at 0 in each track
	smf, err := decode(cat(h, track(e, eot(0)), track(e, eot(0))))
	verif.Assert("decodes", err == nil)
	verif.Assert("tick", smf.Tracks[1].Events[0].Tick() == uint64(e.Delta))
}

// An incomplete last event is an error.
func C06_Truncated() {
	e := anyEvent("", false, genOpt{maxDelta: 16383, textLen: 2, dataLen: 2})
	b := e.bytes()
	n := verif.Choose("cut", 12)
	verif.Assume(n > 0 && n < len(b))
	_, err := decodeTrack(chunk("MTrk", b[:n]), context.NewContext())
	verif.Assert("rejected", err != nil)
}
