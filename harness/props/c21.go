package props

import (
	"github.com/transcriptaze/midiasm/midi/context"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"

	"verif/verif"
)

// bankOf: the bank selected on channel ch by the events (a program change does not change it).
func bankOf(ch uint8, evs []Ev) uint16 {
	msb, lsb := uint16(0), uint16(0)
	for _, e := range evs {
		if e.Kind == kController && e.Ch == ch {
			switch e.A {
			case 0x00:
				msb = uint16(e.B)
			case 0x20:
				lsb = uint16(e.B)
			}
		}
	}
	return 128*msb + lsb
}

func c21Event(p string, kinds ...int) Ev {
	e := Ev{Kind: kinds[verif.Choose(p+"kind", len(kinds))]}
	if isChannel(e.Kind) {
		e.Ch = verif.U8R(p+"channel", 0, 15)
	}
	switch e.Kind {
	case kNoteOn:
		e.A, e.B = 60, verif.U8R(p+"b", 0, 127)
	case kController:
		e.A, e.B = verif.U8R(p+"controller", 0, 127), verif.U8R(p+"b", 0, 127)
	case kProgramChange, kChannelPressure:
		e.A = verif.U8R(p+"a", 0, 127)
	case kPitchBend:
		e.N = verif.U32R(p+"bend", 0, 0x3fff)
	case kKeySignature:
		e.A = 2
	case kTempo:
		e.N = 500000
	case kText:
		e.Text = "x"
	case kEscape:
		e.Data = []byte{0x01}
	case kSysEx:
		e.ID, e.Data, e.End = []byte{0x41}, []byte{0x01}, true
	}
	return e
}

// A history of four events of any kind, then a program change on any channel.
func C21_History() {
	useLookups()
	evs := []Ev{}
	for _, p := range []string{"a.", "b.", "c."} {
		evs = append(evs, c21Event(p, kController, kProgramChange, kNoteOn))
	}
	x := c21Event("x.", kProgramChange)
	bs := cat(evs[0].bytes(), trackBytes("b.", evs[1], statusAfter(evs[0])), trackBytes("c.", evs[2], statusAfter(evs[1])), x.bytes(), eot(0).bytes())
	t, err := decodeTrack(chunk("MTrk", bs), context.NewContext())
	verif.Assert("decodes", err == nil && len(t.Events) == 5)
	for i, e := range append(evs, x) {
		if e.Kind == kProgramChange {
			v, ok := t.Events[i].Event.(midievent.ProgramChange)
			verif.Assert("kind", ok)
			verif.Assert("bank", v.Bank == bankOf(e.Ch, evs[:i]))
			verif.Assert("program", v.Program == e.A && uint8(v.Channel) == e.Ch)
		}
	}
}

// Bank selects only: MSB and LSB in any order and repetition.
func C21_Selects() {
	useLookups()
	evs := []Ev{}
	for i := 0; i < 5; i++ {
		e := Ev{Kind: kController, Ch: verif.U8R("channel", 0, 15), B: verif.U8R("value", 0, 127)}
		if verif.Choose("lsb", 2) == 1 {
			e.A = 0x20
		}
		evs = append(evs, e)
	}
	x := c21Event("x.", kProgramChange)
	t, err := decodeTrack(track(append(evs, x, eot(0))...), context.NewContext())
	verif.Assert("decodes", err == nil && len(t.Events) == 7)
	v, ok := t.Events[5].Event.(midievent.ProgramChange)
	verif.Assert("kind", ok)
	verif.Assert("bank", v.Bank == bankOf(x.Ch, evs))
}

// Every other kind of event between the bank select and the program change leaves the bank as it was.
func C21_OtherEvents() {
	useLookups()
	msb := Ev{Kind: kController, Ch: verif.U8R("channel", 0, 15), A: 0x00, B: verif.U8R("msb", 0, 127)}
	lsb := Ev{Kind: kController, Ch: msb.Ch, A: 0x20, B: verif.U8R("lsb", 0, 127)}
	e := anyEvent("e.", false, genOpt{maxDelta: 127, textLen: -1, dataLen: -1})
	verif.Assume(e.Kind != kSysEx || e.End)
	x := Ev{Kind: kProgramChange, Ch: verif.U8R("x.channel", 0, 15), A: verif.U8R("program", 0, 127)}
	evs := []Ev{msb, lsb, e}
	t, err := decodeTrack(track(msb, lsb, e, x, eot(0)), context.NewContext())
	verif.Assert("decodes", err == nil && len(t.Events) == 5)
	v, ok := t.Events[3].Event.(midievent.ProgramChange)
	verif.Assert("kind", ok)
	verif.Assert("bank", v.Bank == bankOf(x.Ch, evs))
}

// The bank belongs to the track: another track starts with bank 0.
func C21_Tracks() {
	msb := Ev{Kind: kController, Ch: verif.U8R("channel", 0, 15), A: 0x00, B: verif.U8R("msb", 0, 127)}
	lsb := Ev{Kind: kController, Ch: msb.Ch, A: 0x20, B: verif.U8R("lsb", 0, 127)}
	x := Ev{Kind: kProgramChange, Ch: verif.U8R("x.channel", 0, 15), A: verif.U8R("program", 0, 127)}
	smf, err := decode(cat(anyHeader(2), track(msb, lsb, x, eot(0)), track(x, lsb, x, eot(0))))
	verif.Assert("decodes", err == nil && len(smf.Tracks) == 2)
	check := func(t, i int, bank uint16) {
		v, ok := smf.Tracks[t].Events[i].Event.(midievent.ProgramChange)
		verif.Assert("kind", ok)
		verif.Assert("bank", v.Bank == bank)
	}
	check(0, 2, bankOf(x.Ch, []Ev{msb, lsb}))
	check(1, 0, 0)
	check(1, 2, bankOf(x.Ch, []Ev{lsb}))
}

// The inductive step, for histories of any length: from any banks, one event changes at most the bank of
// its own channel, and a program change reports the bank of its channel.
func C21_Step() {
	useLookups()
	ctx := context.NewContext()
	c := verif.U8R("channel", 0, 15)
	old := verif.U16R("bank", 0, 0x3fff)
	ctx.ProgramBank[c] = old
	ctx.RunningStatus = 0xb0 | c
	e := anyEvent("e.", false, genOpt{maxDelta: 127, textLen: -1, dataLen: -1})
	verif.Assume(e.Kind != kSysEx || e.End)
	t, err := decodeTrack(track(e, eot(0)), ctx)
	verif.Assert("contract:decodes", err == nil && len(t.Events) == 2)
	want := old
	if e.Kind == kController && e.Ch == c && e.A == 0x00 {
		want = uint16(e.B)<<7 | old&0x7f
	}
	if e.Kind == kController && e.Ch == c && e.A == 0x20 {
		want = uint16(e.B) | old&0x3f80
	}
	verif.Assert("contract:bank-after", ctx.ProgramBank[c] == want)
	if v, ok := t.Events[0].Event.(midievent.ProgramChange); ok && e.Ch == c {
		verif.Assert("contract:bank", v.Bank == old)
	}
}
