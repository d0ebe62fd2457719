package props

import (
	"github.com/transcriptaze/midiasm/midi/context"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	"github.com/transcriptaze/midiasm/midi/lib"

	"verif/verif"
)

// tonic: the pitch class of the tonic of a key with that many sharps, from the circle of fifths.
func tonic(acc int, mode uint8) int {
	t := 7 * acc
	if mode == 1 {
		t += 9
	}
	return mod12(t)
}

func mod12(n int) int { return (n%12 + 12) % 12 }

func genKey() (int, uint8) {
	return verif.Choose("accidentals", 15) - 7, uint8(verif.Choose("mode", 2))
}

func checkTransposed(acc int, mode uint8, steps int, k metaevent.KeySignature) {
	a := int(k.Accidentals)
	verif.Assert("mode", byte(k.KeyType) == mode)
	verif.Assert("valid", a >= -7 && a <= 7)
	verif.Assert("tonic", tonic(a, mode) == mod12(tonic(acc, mode)+mod12(steps)))
	verif.Assert("name", k.Key == keyName(a, mode))
	verif.Assert("octave", mod12(steps) != 0 || a == acc)
	b, err := k.MarshalBinary()
	verif.Assert("encodes", err == nil && verif.EqBytes(b, []byte{0xff, 0x59, 0x02, byte(int8(a)), mode}))
}

// Every number of steps from -132 to 143 (the notes of a MIDI file span 127).
func C15_Key() {
	acc, mode := genKey()
	steps := verif.Choose("steps", 12) + 12*(verif.Choose("octave", 23)-11)
	delta := verif.U32("delta")
	tick := verif.U64("tick")
	k := metaevent.MakeKeySignature(tick, lib.Delta(delta), int8(acc), lib.KeyType(mode))
	ctx := context.NewContext()
	ctx.UseFlats()
	t := k.Transpose(ctx, steps)
	verif.Assert("delta", t.Delta() == delta)
	verif.Assert("tick", t.Tick() == tick)
	verif.Assert("tag", t.Tag() == "KeySignature")
	checkTransposed(acc, mode, steps, t)
	// the names of the notes that follow use the accidentals of the new key
	c := ctx.FormatNote(61)
	verif.Assert("accidentals-of-key", (c == "D♭4") == (t.Accidentals < 0) && (c == "C♯4") == (t.Accidentals >= 0))
}

// Up to 65535 steps up.
func C15_Steps() {
	acc, mode := genKey()
	steps := int(verif.U16("steps"))
	k := metaevent.MakeKeySignature(0, 0, int8(acc), lib.KeyType(mode))
	checkTransposed(acc, mode, steps, k.Transpose(context.NewContext(), steps))
}

// Going there and back gives the same tonic, also through Scale.
func C15_Scale() {
	acc, mode := genKey()
	var s lib.Scale
	var ok bool
	if mode == 0 {
		s, ok = lib.MajorScale(int8(acc))
	} else {
		s, ok = lib.MinorScale(int8(acc))
	}
	verif.Assert("known", ok)
	verif.Assert("name", s.Name == keyName(acc, mode))
	verif.Assert("accidentals", int(s.Accidentals) == acc && byte(s.Type) == mode)
	n := verif.Choose("steps", 12)
	t := s.Transpose(n)
	verif.Assert("transposed", tonic(int(t.Accidentals), mode) == mod12(tonic(acc, mode)+n))
	u := t.Transpose(-n)
	verif.Assert("back", tonic(int(u.Accidentals), mode) == tonic(acc, mode) && byte(u.Type) == mode)
}

// Keys with other numbers of accidentals do not exist.
func C15_Unknown() {
	acc := int8(verif.U8("accidentals"))
	_, ok := lib.MajorScale(acc)
	verif.Assert("major", ok == (acc >= -7 && acc <= 7))
	_, ok = lib.MinorScale(acc)
	verif.Assert("minor", ok == (acc >= -7 && acc <= 7))
}
