package props

import (
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/events"
	"github.com/transcriptaze/midiasm/midi/lib"

	"verif/verif"
)

// makeTrack: a track constructed from events.
func makeTrack(n int, evs ...Ev) *midi.MTrk {
	t, err := midi.NewMTrk()
	verif.Assert("new-track", err == nil)
	t.TrackNumber = lib.TrackNumber(n)
	tick := uint64(0)
	for _, e := range evs {
		tick += uint64(e.Delta)
		t.Events = append(t.Events, events.NewEvent(constructAt(tick, e)))
	}
	return t
}

func makeSMF(format, division uint16, tracks ...*midi.MTrk) midi.SMF {
	h := midi.MakeMThd(format, uint16(len(tracks)), division)
	return midi.SMF{MThd: &h, Tracks: tracks}
}

// checkEvents: the track holds exactly these events.
func checkEvents(t *midi.MTrk, evs ...Ev) {
	verif.Assert("event-count", len(t.Events) == len(evs))
	tick := uint64(0)
	for i, e := range evs {
		tick += uint64(e.Delta)
		e.check(t.Events[i].Event)
		verif.Assert("event-tick", t.Events[i].Tick() == tick)
	}
}

// checkLayout: header, then chunks that fill the file exactly, each with its own length.
func checkLayout(b []byte, format, tracks, division uint16) {
	verif.Assert("header", verif.EqBytes(b[:14], mthd(format, tracks, division)))
	rest := b[14:]
	for i := 0; i < int(tracks); i++ {
		verif.Assert("chunk-header", len(rest) >= 8 && string(rest[:4]) == "MTrk")
		n := uint32(rest[4])<<24 | uint32(rest[5])<<16 | uint32(rest[6])<<8 | uint32(rest[7])
		verif.Assert("chunk-length", uint64(n) <= uint64(len(rest)-8))
		if i == int(tracks)-1 {
			verif.Assert("last-chunk-length", uint64(n) == uint64(len(rest)-8))
			return
		}
		rest = rest[8+int(n):]
	}
	verif.Assert("no-more-chunks", len(rest) == 0)
}

// One event of any kind, value and size, then the end of the track; any division.
func C07_Event() {
	e := anyEvent("", false, genOpt{textLen: -1, dataLen: -1, simple: true})
	verif.Assume(e.Kind != kSysEx || e.End)
	verif.Assume(!isText(e.Kind) || e.Kind == kText) // the other text events: C07_Values
	z := eot(verif.U32R("eot.delta", 0, 127))
	b, err := encode(makeSMF(1, 480, makeTrack(0, e, z)))
	verif.Assert("encodes", err == nil)
	verif.Assert("bytes", verif.EqBytes(b, cat(mthd(1, 1, 480), track(e, z))))
	smf, err := decode(b)
	verif.Assert("decodes", err == nil)
	verif.Assert("one-track", len(smf.Tracks) == 1)
	checkMThd(*smf.MThd, 1, 1, 480)
	checkEvents(smf.Tracks[0], e, z)
}

// Any format and division.
func C07_Header() {
	f := verif.U16R("format", 0, 2)
	d := verif.U16("division")
	verif.Assume(validDivision(d))
	z := eot(verif.U32("delta"))
	b, err := encode(makeSMF(f, d, makeTrack(0, z)))
	verif.Assert("encodes", err == nil)
	verif.Assert("bytes", verif.EqBytes(b, cat(mthd(f, 1, d), track(z))))
	smf, err := decode(b)
	verif.Assert("decodes", err == nil)
	checkMThd(*smf.MThd, f, 1, d)
	checkEvents(smf.Tracks[0], z)
}

// Every field value of every kind.
func C07_Values() {
	e := anyEvent("", false, genOpt{maxDelta: 127, textLen: 2, dataLen: 2, ids: 1})
	verif.Assume(e.Kind != kSysEx || e.End)
	b, err := encode(makeSMF(0, 480, makeTrack(0, e, eot(0))))
	verif.Assert("encodes", err == nil)
	smf, err := decode(b)
	verif.Assert("decodes", err == nil)
	checkEvents(smf.Tracks[0], e, eot(0))
}

func c07Kind(p string) int {
	kinds := []int{kNoteOff, kNoteOn, kController, kProgramChange, kPitchBend, kText, kTempo, kSysEx, kEscape}
	return kinds[verif.Choose(p+"kind", len(kinds))]
}

// Three events of any kinds and channels: leaving out status bytes changes nothing.
func C07_RunningStatus() {
	o := genOpt{maxDelta: 127, textLen: 1, dataLen: 1, simple: true}
	evs := []Ev{}
	for _, p := range []string{"a.", "b.", "c."} {
		e := gen(p, c07Kind(p), o)
		verif.Assume(e.Kind != kSysEx || e.End)
		evs = append(evs, e)
	}
	evs = append(evs, eot(0))
	b, err := encode(makeSMF(0, 480, makeTrack(0, evs...)))
	verif.Assert("encodes", err == nil)
	checkLayout(b, 0, 1, 480)
	smf, err := decode(b)
	verif.Assert("decodes", err == nil)
	checkEvents(smf.Tracks[0], evs...)
}

// Runs of notes with arbitrary note numbers, on/off and channels.
func C07_Notes() {
	evs := []Ev{}
	for i := 0; i < 4; i++ {
		k := kNoteOff + verif.Choose("kind", 2)
		evs = append(evs, Ev{Kind: k, Ch: verif.U8R("channel", 0, 15), A: 60, B: verif.U8R("velocity", 0, 127)})
	}
	evs = append(evs, eot(0))
	b, err := encode(makeSMF(0, 480, makeTrack(0, evs...)))
	verif.Assert("encodes", err == nil)
	checkLayout(b, 0, 1, 480)
	smf, err := decode(b)
	verif.Assert("decodes", err == nil)
	checkEvents(smf.Tracks[0], evs...)
}

// Decoded files (with running status in the input, split SysEx messages): decode, encode, decode.
func C07_Decoded() {
	o := genOpt{maxDelta: 16383, textLen: 1, dataLen: 1, simple: true}
	e1 := gen("a.", c07Kind("a."), o)
	open := e1.Kind == kSysEx && !e1.End
	evs := []Ev{e1}
	bs := e1.bytes()
	if open {
		c := gen("c.", kContinuation, o)
		verif.Assume(c.End)
		evs = append(evs, c)
		bs = cat(bs, c.bytes())
	} else {
		e2 := gen("b.", c07Kind("b."), o)
		verif.Assume(e2.Kind != kSysEx || e2.End)
		evs = append(evs, e2)
		bs = cat(bs, trackBytes("b.", e2, statusAfter(e1)))
	}
	evs = append(evs, eot(0))
	bs = cat(bs, eot(0).bytes())
	f, d := anyFormat(), anyDivision()
	smf, err := decode(cat(mthd(f, 1, d), chunk("MTrk", bs)))
	verif.Assert("decodes", err == nil)
	b, err := encode(*smf)
	verif.Assert("encodes", err == nil)
	checkLayout(b, f, 1, d)
	again, err := decode(b)
	verif.Assert("decodes-again", err == nil)
	checkEvents(again.Tracks[0], evs...)
}

// Several tracks: count, order, and no running status from one track to the next.
func C07_Tracks() {
	n := verif.Choose("tracks", 4)
	f := verif.U16R("format", 0, 2)
	d := verif.U16R("division", 1, 0x7fff)
	e := gen("", kNoteOn, genOpt{maxDelta: 16383, simple: true})
	tracks := []*midi.MTrk{}
	for i := 0; i < n; i++ {
		e.B = uint8(i)
		tracks = append(tracks, makeTrack(i, e, eot(uint32(i))))
	}
	b, err := encode(makeSMF(f, d, tracks...))
	verif.Assert("encodes", err == nil)
	checkLayout(b, f, uint16(n), d)
	smf, err := decode(b)
	verif.Assert("decodes", err == nil)
	verif.Assert("tracks", len(smf.Tracks) == n)
	for i := 0; i < n; i++ {
		e.B = uint8(i)
		checkEvents(smf.Tracks[i], e, eot(uint32(i)))
	}
	// a wrong track count is an error, not a corrupt file
	h := midi.MakeMThd(f, uint16(n)+1, d)
	_, err = encode(midi.SMF{MThd: &h, Tracks: tracks})
	verif.Assert("wrong-count", err != nil)
}
