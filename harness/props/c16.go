package props

import (
	"github.com/transcriptaze/midiasm/midi/context"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/lib"

	"verif/verif"
)

var sharps = []string{"C", "C♯", "D", "D♯", "E", "F", "F♯", "G", "G♯", "A", "A♯", "B"}
var flats = []string{"C", "D♭", "D", "E♭", "E", "F", "G♭", "G", "A♭", "A", "B♭", "B"}
var octaveNames = []string{"-2", "-1", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

// noteName: the name of a note number; in the default convention note 60 is C4, in the other C3.
func noteName(n uint8, flat, c4 bool) string {
	o := int(n)/12 + 1
	if c4 {
		o--
	}
	if flat {
		return flats[n%12] + octaveNames[o]
	}
	return sharps[n%12] + octaveNames[o]
}

func setMiddleC() bool {
	if verif.Choose("middle-c", 2) == 1 {
		context.SetMiddleC(lib.C4)
		return true
	}
	context.SetMiddleC(lib.C3)
	return false
}

func genContext() (*context.Context, bool) {
	ctx := context.NewContext()
	switch verif.Choose("scale", 3) {
	case 1:
		return ctx.UseFlats(), true
	case 2:
		return ctx.UseSharps(), false
	}
	return ctx, false
}

// Name and number are inverse, in both conventions, with sharps and flats.
func C16_Names() {
	c4 := setMiddleC()
	defer context.SetMiddleC(lib.C3)
	ctx, flat := genContext()
	n := uint8(verif.Choose("note", 128))
	s := ctx.FormatNote(n)
	verif.Assert("name", s == noteName(n, flat, c4))
	verif.Assert("same", midievent.FormatNote(ctx, n) == s)
	verif.Assert("no-context", midievent.FormatNote(nil, n) == noteName(n, false, c4))
	var none *context.Context
	verif.Assert("nil-context", none.FormatNote(n) == noteName(n, false, c4))
	x, err := midievent.ParseNote(ctx, s)
	verif.Assert("parses", err == nil)
	verif.Assert("number", x.Value == n)
	verif.Assert("parsed-name", x.Name == s && x.Alias == s)
	x, err = midievent.ParseNote(nil, s)
	verif.Assert("number-no-context", err == nil && x.Value == n)
	verif.Assert("unpaired-off", ctx.GetNoteOff(lib.Channel(verif.U8R("channel", 0, 15)), n) == s)
}

// A name is read as the number it has under the convention, or refused if there is no such note.
func C16_Parse() {
	c4 := setMiddleC()
	defer context.SetMiddleC(lib.C3)
	letter := verif.Choose("letter", 7)
	acc := verif.Choose("accidental", 3) - 1
	octave := verif.Choose("octave", 13) - 3
	s := []string{"C", "D", "E", "F", "G", "A", "B"}[letter] + []string{"♭", "", "♯"}[acc+1] + []string{"-3", "-2", "-1", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}[octave+3]
	pc := mod12([]int{0, 2, 4, 5, 7, 9, 11}[letter] + acc)
	v := 12*(octave+1) + pc
	if c4 {
		v += 12
	}
	x, err := midievent.ParseNote(nil, s)
	verif.Assert("range", (err == nil) == (v >= 0 && v <= 127))
	verif.Assert("number", err != nil || int(x.Value) == v)
}

// Pitch class lookup.
func C16_Lookup() {
	letter := verif.Choose("letter", 7)
	acc := verif.Choose("accidental", 3) - 1
	s := []string{"C", "D", "E", "F", "G", "A", "B"}[letter] + []string{"♭", "", "♯"}[acc+1]
	x, err := lib.LookupNote(s)
	verif.Assert("known", err == nil)
	verif.Assert("ord", x.Ord == mod12([]int{0, 2, 4, 5, 7, 9, 11}[letter]+acc))
	verif.Assert("name", x.Name == s)
}

// In a track the notes are named after the key in force, and a note-off carries the name of the note-on
// it ends even if the key changed in between.
func C16_Track() {
	c4 := setMiddleC()
	defer context.SetMiddleC(lib.C3)
	n := uint8(verif.Choose("note", 128))
	ch := verif.U8R("channel", 0, 15)
	key := func(p string) Ev {
		return Ev{Kind: kKeySignature, A: uint8(verif.Choose(p, 3) - 1), B: 0}
	}
	k1, k2 := key("key1"), key("key2")
	on := Ev{Kind: kNoteOn, Ch: ch, A: n, B: verif.U8R("velocity", 1, 127)}
	off := Ev{Kind: kNoteOff, Ch: ch, A: n, B: 64}
	t, err := decodeTrack(track(k1, on, k2, off, off, eot(0)), context.NewContext())
	verif.Assert("decodes", err == nil && len(t.Events) == 6)
	a, ok := t.Events[1].Event.(midievent.NoteOn)
	verif.Assert("on", ok)
	b, ok := t.Events[3].Event.(midievent.NoteOff)
	verif.Assert("off", ok)
	flat1, flat2 := int8(k1.A) < 0, int8(k2.A) < 0
	verif.Assert("on-name", a.Note.Name == noteName(n, flat1, c4))
	verif.Assert("on-alias", a.Note.Alias == noteName(n, flat1, c4))
	verif.Assert("off-name", b.Note.Name == a.Note.Name)
	verif.Assert("off-alias", b.Note.Alias == noteName(n, flat2, c4))
	verif.Assert("numbers", a.Note.Value == n && b.Note.Value == n)
}

// A note-off is not affected by notes of other channels or pitches.
func C16_OtherNotes() {
	n, m := uint8(61), uint8(verif.Choose("other", 128))
	c, d := verif.U8R("channel", 0, 15), verif.U8R("other-channel", 0, 15)
	verif.Assume(m != n || c != d)
	flat := Ev{Kind: kKeySignature, A: 0xff, B: 0}
	sharp := Ev{Kind: kKeySignature, A: 0, B: 0}
	on := Ev{Kind: kNoteOn, Ch: c, A: n, B: 1}
	other := Ev{Kind: kNoteOn, Ch: d, A: m, B: 1}
	off := Ev{Kind: kNoteOff, Ch: c, A: n, B: 64}
	t, err := decodeTrack(track(flat, on, sharp, other, off, eot(0)), context.NewContext())
	verif.Assert("decodes", err == nil && len(t.Events) == 6)
	b, ok := t.Events[4].Event.(midievent.NoteOff)
	verif.Assert("off", ok)
	verif.Assert("off-name", b.Note.Name == "D♭4")
}

// Every key: sharps or flats as the key has.
func C16_Keys() {
	acc, mode := genKey()
	k := Ev{Kind: kKeySignature, A: uint8(int8(acc)), B: mode}
	on := Ev{Kind: kNoteOn, Ch: 1, A: uint8(60 + verif.Choose("note", 12)), B: 64}
	off := Ev{Kind: kNoteOff, Ch: 1, A: on.A, B: 64}
	t, err := decodeTrack(track(k, on, off, eot(0)), context.NewContext())
	verif.Assert("decodes", err == nil && len(t.Events) == 4)
	a, ok := t.Events[1].Event.(midievent.NoteOn)
	verif.Assert("on", ok && a.Note.Name == noteName(on.A, acc < 0, false))
	b, ok := t.Events[2].Event.(midievent.NoteOff)
	verif.Assert("off", ok && b.Note.Name == a.Note.Name && b.Note.Alias == a.Note.Name)
}
