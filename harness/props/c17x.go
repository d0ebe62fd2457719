package props

import (
	"github.com/transcriptaze/midiasm/ops/notes"

	"verif/verif"
)

func sameNote(x notes.Note, n sNote) bool {
	return uint8(x.Channel) == n.ch && x.Note == n.pitch && x.Velocity == n.velocity && x.StartTick == n.start && x.EndTick == n.end
}

// checkNotes: the extracted notes are the notes of the specification, in any order.
func checkNotes(x []notes.Note, want []sNote, tempi []Ev, ppqn uint64) {
	verif.Assert("count", len(x) == len(want))
	used := make([]bool, len(x))
	for _, n := range want {
		found := false
		for i := range x {
			if !used[i] && sameNote(x[i], n) {
				used[i], found = true, true
				if ppqn > 0 {
					verif.Assert("start", near(x[i].Start, specTime(n.start, tempi, ppqn)))
					verif.Assert("end", near(x[i].End, specTime(n.end, tempi, ppqn)))
					verif.Assert("duration", x[i].Duration == x[i].End-x[i].Start)
				}
				break
			}
		}
		verif.Assert("note", found)
	}
}

func c17Note(p string, pitches int) Ev {
	e := Ev{Kind: kNoteOff + verif.Choose(p+"kind", 2), Delta: verif.U32R(p+"delta", 0, 1<<28-1), Ch: uint8(9 * verif.Choose(p+"channel", 2)), B: verif.U8R(p+"velocity", 0, 127)}
	e.A = verif.U8R(p+"pitch", 0, 127)
	if pitches > 0 {
		verif.Assume(int(e.A) < pitches)
	}
	return e
}

// Any four note events: which note-off ends which note-on.
func C17_Pairs() {
	quietLog()
	useLookups()
	evs := []Ev{c17Note("a.", 0), c17Note("b.", 0), c17Note("c.", 0), c17Note("d.", 0), eot(verif.U32R("eot", 0, 1<<28-1))}
	smf := makeSMF(0, 480, makeTrack(0, evs...))
	x, err := notes.VerifExtract(&smf, 0)
	verif.Assert("extracts", err == nil)
	checkNotes(x, specNotes(evs), nil, 0)
}

// Every channel and pitch; other events in between.
func C17_Note() {
	quietLog()
	useLookups()
	on := Ev{Kind: kNoteOn, Delta: verif.U32("d1"), Ch: verif.U8R("channel", 0, 15), A: verif.U8R("pitch", 0, 127), B: verif.U8R("velocity", 1, 127)}
	e := anyEvent("e.", false, genOpt{textLen: 1, dataLen: 1, simple: true})
	verif.Assume(!isChannel(e.Kind) || e.Kind > kNoteOn)
	verif.Assume(e.Kind != kEndOfTrack)
	off := Ev{Kind: kNoteOff, Delta: verif.U32("d2"), Ch: on.Ch, A: on.A, B: verif.U8R("off", 0, 127)}
	evs := []Ev{on, e, off, eot(0)}
	smf := makeSMF(1, 480, makeTrack(0, eot(0)), makeTrack(1, evs...))
	x, err := notes.VerifExtract(&smf, 0)
	verif.Assert("extracts", err == nil)
	checkNotes(x, specNotes(evs), nil, 0)
}

// Any division and any tempo: one tempo before the note.
func C17_AnyTempo() {
	quietLog()
	useLookups()
	q := verif.U16R("ppqn", 1, 0x7fff)
	tempo := Ev{Kind: kTempo, N: verif.U32R("tempo", 0, 0xffffff)}
	on := Ev{Kind: kNoteOn, Delta: verif.U32R("d1", 0, 1<<28-1), Ch: 3, A: 60, B: 64}
	t0, t1 := []Ev{tempo, eot(0)}, []Ev{on, eot(0)}
	smf := makeSMF(1, q, makeTrack(0, t0...), makeTrack(1, t1...))
	x, err := notes.VerifExtract(&smf, 0)
	verif.Assert("extracts", err == nil)
	checkNotes(x, specNotes(t1), t0, uint64(q))
}

// Tempo changes before, during and after the note, in the first track.
func C17_TempoMap() {
	quietLog()
	useLookups()
	q := []uint16{480, 960}[verif.Choose("ppqn", 2)]
	n := []uint32{500000, 428571, 1}
	a := Ev{Kind: kTempo, Delta: verif.U32R("d0", 0, 1<<20), N: n[verif.Choose("tempo1", 3)]}
	b := Ev{Kind: kTempo, Delta: verif.U32R("d1", 0, 1<<20), N: n[verif.Choose("tempo2", 3)]}
	on := Ev{Kind: kNoteOn, Delta: verif.U32R("d2", 0, 1<<20), Ch: 3, A: 60, B: 64}
	off := Ev{Kind: kNoteOff, Delta: verif.U32R("d3", 0, 1<<20), Ch: 3, A: 60, B: 64}
	t0, t1 := []Ev{a, b, eot(0)}, []Ev{on, off, eot(0)}
	smf := makeSMF(1, q, makeTrack(0, t0...), makeTrack(1, t1...))
	x, err := notes.VerifExtract(&smf, 0)
	verif.Assert("extracts", err == nil)
	checkNotes(x, specNotes(t1), t0, uint64(q))
}

// The same in a single track.
func C17_Format0() {
	quietLog()
	useLookups()
	q := []uint16{480, 960}[verif.Choose("ppqn", 2)]
	n := []uint32{500000, 428571}
	a := Ev{Kind: kTempo, Delta: verif.U32R("d0", 0, 1<<20), N: n[verif.Choose("tempo1", 2)]}
	on := Ev{Kind: kNoteOn, Delta: verif.U32R("d2", 0, 1<<20), Ch: 3, A: 60, B: 64}
	b := Ev{Kind: kTempo, Delta: verif.U32R("d1", 0, 1<<20), N: n[verif.Choose("tempo2", 2)]}
	off := Ev{Kind: kNoteOff, Delta: verif.U32R("d3", 0, 1<<20), Ch: 3, A: 60, B: 64}
	t := []Ev{a, on, b, off, eot(0)}
	smf := makeSMF(0, q, makeTrack(0, t...))
	x, err := notes.VerifExtract(&smf, 0)
	verif.Assert("extracts", err == nil)
	checkNotes(x, specNotes(t), t, uint64(q))
}

// Each track on its own: a note-off of another track ends nothing.
func C17_Tracks() {
	quietLog()
	useLookups()
	t0 := []Ev{c17Note("a.", 2), eot(verif.U32R("e0", 0, 1<<28-1))}
	t1 := []Ev{c17Note("b.", 2), c17Note("c.", 2), eot(verif.U32R("e1", 0, 1<<28-1))}
	smf := makeSMF(1, 480, makeTrack(0, t0...), makeTrack(1, t1...))
	x, err := notes.VerifExtract(&smf, 0)
	verif.Assert("extracts", err == nil)
	checkNotes(x, append(specNotes(t0), specNotes(t1)...), nil, 0)
}

// Transposition: clamped to 0..127, pairing by the original pitch.
func C17_Transpose() {
	quietLog()
	useLookups()
	k := verif.IntR("steps", -1000, 1000)
	evs := []Ev{c17Note("a.", 0), c17Note("b.", 0), c17Note("c.", 0), eot(0)}
	smf := makeSMF(0, 480, makeTrack(0, evs...))
	x, err := notes.VerifExtract(&smf, k)
	verif.Assert("extracts", err == nil)
	want := specNotes(evs)
	for i := range want {
		p := int(want[i].pitch) + k
		if p < 0 {
			p = 0
		} else if p > 127 {
			p = 127
		}
		want[i].pitch = uint8(p)
	}
	checkNotes(x, want, nil, 0)
}

// Names: sharps or flats by the key in force at the note-on.
func C17_Names() {
	quietLog()
	acc := verif.Choose("accidentals", 15) - 7
	key := Ev{Kind: kKeySignature, A: uint8(int8(acc))}
	before := Ev{Kind: kKeySignature, A: uint8(int8(verif.Choose("before", 3) - 1))}
	on := Ev{Kind: kNoteOn, Ch: 1, A: uint8(60 + verif.Choose("note", 12)), B: 64}
	smf := makeSMF(0, 480, makeTrack(0, before, key, on, Ev{Kind: kKeySignature, A: uint8(int8(verif.Choose("later", 2)*2 - 1))}, eot(0)))
	x, err := notes.VerifExtract(&smf, 0)
	verif.Assert("extracts", err == nil && len(x) == 1)
	verif.Assert("name", x[0].FormattedNote == noteName(on.A, acc < 0, false))
}
