package props

import (
	"github.com/transcriptaze/midiasm/midi/context"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/lib"
	"github.com/transcriptaze/midiasm/ops/transpose"

	"verif/verif"
)

func clamp(n uint8, steps int) uint8 {
	v := int(n) + steps
	if v < 0 {
		return 0
	}
	if v > 127 {
		return 127
	}
	return uint8(v)
}

// A single note: every note, velocity, channel, delta and step count.
func C14_Note() {
	verif.Use((*context.Context).FormatNote, specFormatNote)
	steps := verif.IntR("steps", -1<<31, 1<<31-1)
	n := verif.U8R("note", 0, 127)
	v := verif.U8R("velocity", 0, 127)
	ch := verif.U8R("channel", 0, 15)
	delta := verif.U32("delta")
	tick := verif.U64("tick")
	ctx := context.NewContext()
	if verif.Choose("off", 2) == 1 {
		x := midievent.MakeNoteOff(tick, delta, lib.Channel(ch), midievent.Note{Value: n}, v)
		y := x.Transpose(ctx, steps)
		verif.Assert("kept", y.Tick() == tick && y.Delta() == delta && y.Tag() == "NoteOff")
		verif.Assert("shifted", y.Note.Value == clamp(n, steps))
		verif.Assert("values", uint8(y.Channel) == ch && y.Velocity == v)
		b, err := y.MarshalBinary()
		verif.Assert("encodes", err == nil && verif.EqBytes(b, []byte{0x80 | ch, clamp(n, steps), v}))
		return
	}
	x := midievent.MakeNoteOn(tick, delta, lib.Channel(ch), midievent.Note{Value: n}, v)
	y := x.Transpose(ctx, steps)
	verif.Assert("kept", y.Tick() == tick && y.Delta() == delta && y.Tag() == "NoteOn")
	verif.Assert("shifted", y.Note.Value == clamp(n, steps))
	verif.Assert("values", uint8(y.Channel) == ch && y.Velocity == v)
	b, err := y.MarshalBinary()
	verif.Assert("encodes", err == nil && verif.EqBytes(b, []byte{0x90 | ch, clamp(n, steps), v}))
}

// The names of the transposed notes.
func C14_Name() {
	n := uint8(verif.Choose("note", 128))
	steps := verif.Choose("steps", 5)*31 - 62
	ctx, flat := genContext()
	x := midievent.MakeNoteOn(0, 0, 0, midievent.Note{Value: n}, 1).Transpose(ctx, steps)
	verif.Assert("on", x.Note.Name == noteName(clamp(n, steps), flat, false))
	y := midievent.MakeNoteOff(0, 0, 0, midievent.Note{Value: n}, 1).Transpose(ctx, steps)
	verif.Assert("off", y.Note.Name == noteName(clamp(n, steps), flat, false))
}

func transposed(b []byte, steps int) []byte {
	smf, err := decode(b)
	verif.Assert("decodes", err == nil)
	op := transpose.Transpose{}
	out, err := op.Execute(smf, steps)
	verif.Assert("executes", err == nil)
	return out
}

func (e Ev) transposed(steps int) Ev {
	if e.Kind == kNoteOn || e.Kind == kNoteOff {
		e.A = clamp(e.A, steps)
	}
	return e
}

// anyOther: an event of any kind but key signatures and end of track.
func anyOther(o genOpt) Ev {
	e := anyEvent("", false, o)
	verif.Assume(e.Kind != kKeySignature && e.Kind != kEndOfTrack && (e.Kind != kSysEx || e.End))
	return e
}

// A track with any event between two notes: notes move, the rest stays byte for byte.
func C14_Event() {
	verif.Use((*context.Context).FormatNote, specFormatNote)
	verif.Use(midievent.FormatNote, specFormatNote)
	steps := verif.IntR("steps", -1<<31, 1<<31-1)
	e := anyOther(genOpt{textLen: -1, dataLen: -1, simple: true})
	verif.Assume(!isText(e.Kind) || e.Kind == kText)
	if e.Kind == kNoteOn || e.Kind == kNoteOff {
		e.A = verif.U8R("note", 0, 127)
	}
	t := makeTrack(0, e, eot(7))
	t.Context = context.NewContext()
	smf := makeSMF(1, 480, t)
	op := transpose.Transpose{}
	out, err := op.Execute(&smf, steps)
	verif.Assert("executes", err == nil)
	verif.Assert("transposed", verif.EqBytes(out, cat(mthd(1, 1, 480), track(e.transposed(steps), eot(7)))))
}

// Decoded files: the other text events, running status and notes around them.
func C14_File() {
	verif.Use((*context.Context).FormatNote, specFormatNote)
	verif.Use(midievent.FormatNote, specFormatNote)
	steps := verif.IntR("steps", -1<<31, 1<<31-1)
	e := anyOther(genOpt{textLen: 2, dataLen: 2, maxDelta: 127, simple: true})
	verif.Assume(!isChannel(e.Kind) || e.Ch != 3)
	n1 := Ev{Kind: kNoteOn, Delta: verif.U32R("delta1", 0, 127), Ch: 3, A: verif.U8R("note1", 0, 127), B: 100}
	n2 := Ev{Kind: kNoteOff, Delta: 5, Ch: 3, A: n1.A, B: 64}
	division := verif.U16R("division", 1, 0x7fff)
	out := transposed(cat(mthd(1, 1, division), track(n1, e, n2, eot(7))), steps)
	verif.Assert("transposed", verif.EqBytes(out, cat(mthd(1, 1, division), track(n1.transposed(steps), e.transposed(steps), n2.transposed(steps), eot(7)))))
}

// A SysEx message in several packets is left alone.
func C14_SysEx() {
	steps := verif.IntR("steps", -1<<31, 1<<31-1)
	a := Ev{Kind: kSysEx, ID: []byte{0x41}, Data: verif.BytesNR("data1", 2, 0, 127)}
	b := Ev{Kind: kContinuation, Delta: 3, Data: verif.BytesNR("data2", 2, 0, 127)}
	c := Ev{Kind: kContinuation, Delta: 4, Data: verif.BytesNR("data3", 2, 0, 127), End: true}
	in := cat(anyHeader(1), track(a, b, c, eot(0)))
	verif.Assert("same", verif.EqBytes(transposed(in, steps), in))
}

// Transposing by 0 is the identity, for every kind and key.
func C14_Zero() {
	verif.Use((*context.Context).FormatNote, specFormatNote)
	verif.Use(midievent.FormatNote, specFormatNote)
	e := anyEvent("", false, genOpt{textLen: 2, dataLen: 2, maxDelta: 127, simple: true})
	verif.Assume(e.Kind != kEndOfTrack && (e.Kind != kSysEx || e.End))
	if e.Kind == kKeySignature {
		a, m := genKey()
		e.A, e.B = uint8(int8(a)), m
	}
	b := cat(anyHeader(1), track(e, eot(0)))
	verif.Assert("same", verif.EqBytes(transposed(b, 0), b))
}

// A key signature between notes is transposed in place.
func C14_KeySignature() {
	steps := verif.Choose("steps", 25) - 12
	acc, mode := genKey()
	n := Ev{Kind: kNoteOn, Delta: 1, A: 60, B: 1}
	k := Ev{Kind: kKeySignature, Delta: verif.U32R("delta", 0, 127), A: uint8(int8(acc)), B: mode}
	out := transposed(cat(anyHeader(1), track(n, k, n, eot(3))), steps)
	smf, err := decode(out)
	verif.Assert("decodes-again", err == nil && len(smf.Tracks) == 1 && len(smf.Tracks[0].Events) == 4)
	evs := smf.Tracks[0].Events
	n.transposed(steps).check(evs[0].Event)
	n.transposed(steps).check(evs[2].Event)
	eot(3).check(evs[3].Event)
	x, ok := keySignature(evs[1].Event)
	verif.Assert("key", ok && x.Delta() == k.Delta)
	checkTransposed(acc, mode, steps, x)
}

// Any number of tracks: each is transposed once.
func C14_Tracks() {
	verif.Use((*context.Context).FormatNote, specFormatNote)
	verif.Use(midievent.FormatNote, specFormatNote)
	steps := verif.IntR("steps", -1<<31, 1<<31-1)
	k := verif.Choose("tracks", 4)
	h := anyHeader(uint16(k))
	in, want := h, h
	for i := 0; i < k; i++ {
		a := Ev{Kind: kNoteOn, Ch: verif.U8R("channel", 0, 15), A: verif.U8R("note", 0, 127), B: 1}
		b := Ev{Kind: kNoteOff, Delta: 9, Ch: a.Ch, A: verif.U8R("note", 0, 127), B: 1}
		in = cat(in, track(a, b, eot(0)))
		want = cat(want, track(a.transposed(steps), b.transposed(steps), eot(0)))
	}
	verif.Assert("transposed", verif.EqBytes(transposed(in, steps), want))
}

func keySignature(x any) (metaevent.KeySignature, bool) {
	k, ok := x.(metaevent.KeySignature)
	return k, ok
}

// Notes of the same status in a row (running status).
func C14_Running() {
	verif.Use((*context.Context).FormatNote, specFormatNote)
	verif.Use(midievent.FormatNote, specFormatNote)
	steps := verif.IntR("steps", -1<<31, 1<<31-1)
	kind := kNoteOff + verif.Choose("kind", 2)
	a := Ev{Kind: kind, Delta: 1, Ch: verif.U8R("channel", 0, 15), A: verif.U8R("note1", 0, 127), B: 1}
	b := Ev{Kind: kind, Delta: 2, Ch: verif.U8R("channel", 0, 15), A: verif.U8R("note2", 0, 127), B: 2}
	smf, err := decode(transposed(cat(anyHeader(1), track(a, b, eot(3))), steps))
	verif.Assert("decodes-again", err == nil && len(smf.Tracks) == 1)
	checkEvents(smf.Tracks[0], a.transposed(steps), b.transposed(steps), eot(3))
}
