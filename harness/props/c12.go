package props

import (
	"bytes"
	"strings"
	"unicode/utf8"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/assemble"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/export"

	"verif/verif"
)

// viaText, viaJSON: the file disassembled and assembled again.
func viaText(smf *midi.SMF) ([]byte, error) {
	d, err := disassemble.NewDisassemble()
	verif.Assert("template", err == nil)
	var b bytes.Buffer
	verif.Assert("disassembles", d.Print(smf, "document", &b) == nil)
	return assemble.NewTextAssembler().Assemble(strings.NewReader(b.String()))
}

func viaJSON(smf *midi.SMF) ([]byte, error) {
	x, err := export.NewExport()
	verif.Assert("export", err == nil)
	var b bytes.Buffer
	verif.Assert("exports", x.Export(smf, &b) == nil)
	return assemble.NewJSONAssembler().Assemble(strings.NewReader(b.String()))
}

// sameFile: the header values and, per track, the events.
func sameFile(b []byte, format, division uint16, tracks ...[]Ev) {
	smf, err := decode(b)
	verif.Assert("decodes", err == nil)
	verif.Assert("header", smf.MThd.Format == format && smf.MThd.Tracks == uint16(len(tracks)) && smf.MThd.Division == division)
	verif.Assert("tracks", len(smf.Tracks) == len(tracks))
	for i, evs := range tracks {
		verif.Assert("events", len(smf.Tracks[i].Events) == len(evs))
		for j, e := range evs {
			e.check(smf.Tracks[i].Events[j].Event)
		}
	}
}

// roundTripFile disassembles and assembles a file with these tracks.
func roundTripFile(json bool, format, division uint16, tracks ...[]Ev) {
	b := mthd(format, uint16(len(tracks)), division)
	for _, evs := range tracks {
		b = cat(b, track(evs...))
	}
	smf, err := decode(b)
	verif.Assert("input", err == nil)
	var p []byte
	if json {
		p, err = viaJSON(smf)
	} else {
		p, err = viaText(smf)
	}
	verif.Assert("assembles", err == nil)
	sameFile(p, format, division, tracks...)
}

// c12Event: an event of the file formats (C10, C11); a continuation packet only in C12_SysEx.
func c12Event(p string, kind int, o genOpt) Ev {
	e := c11Event(p, kind, o)
	verif.Assume(kind != kContinuation && (kind != kSysEx || e.End))
	if isText(kind) && o.textLen > 0 {
		verif.Assume(utf8.ValidString(e.Text))
		verif.Assume(e.Text[o.textLen-1] != '\r')
	}
	return e
}

// One event of every kind, with any delta.
func C12_Event() {
	e := c12Event("", verif.Choose("kind", nKinds), genOpt{textLen: 1, dataLen: 1, ids: 0, simple: true})
	verif.Assume(e.Delta <= 0x0fffffff)
	roundTripFile(false, 0, 480, []Ev{e, eot(0)})
}

func C12_EventJSON() {
	e := c12Event("", verif.Choose("kind", nKinds), genOpt{textLen: 1, dataLen: 1, ids: 1})
	verif.Assume(e.Delta <= 0x0fffffff)
	roundTripFile(true, 0, 480, []Ev{e, eot(0)})
}

// Every header: formats, metrical and SMPTE divisions.
func C12_Header() {
	format := uint16(verif.Choose("format", 3))
	division := verif.U16R("division", 1, 0x7fff)
	roundTripFile(verif.Choose("json", 2) == 1, format, division, []Ev{eot(0)})
}

func C12_SMPTE() {
	format := uint16(verif.Choose("format", 3))
	rate := rates[verif.Choose("rate", 4)]
	division := uint16(-rate)<<8 | uint16(verif.U8("subframes"))
	roundTripFile(verif.Choose("json", 2) == 1, format, division, []Ev{eot(0)})
}

var c12Kinds = []int{kNoteOff, kNoteOn, kController, kProgramChange, kPitchBend, kText, kTempo, kKeySignature, kSequencerSpecific, kSysEx, kEscape}

// Two tracks with an event each and an empty track.
func C12_Tracks() {
	o := genOpt{maxDelta: 9, textLen: 1, lo: 0x21, hi: 0x7e, dataLen: 1, simple: true}
	a := c12Event("a.", c12Kinds[verif.Choose("a.kind", len(c12Kinds))], o)
	b := c12Event("b.", c12Kinds[verif.Choose("b.kind", len(c12Kinds))], o)
	n := verif.Choose("tracks", 3)
	tracks := [][]Ev{{a, eot(0)}, {b, eot(1)}, {eot(2)}}[:n+1]
	roundTripFile(verif.Choose("json", 2) == 1, 1, 96, tracks...)
}

// Two events in a track: order, running status.
func C12_Pairs() {
	o := genOpt{maxDelta: 9, textLen: 1, lo: 0x21, hi: 0x7e, dataLen: 1, simple: true}
	a := c12Event("a.", c12Kinds[verif.Choose("a.kind", len(c12Kinds))], o)
	b := c12Event("b.", c12Kinds[verif.Choose("b.kind", len(c12Kinds))], o)
	roundTripFile(verif.Choose("json", 2) == 1, 0, 96, []Ev{a, b, eot(1)})
}

// A SysEx message in up to three packets: which one ends the message.
func C12_SysEx() {
	n := verif.Choose("packets", 3)
	evs := []Ev{{Kind: kSysEx, Delta: 1, ID: []byte{0x41}, Data: verif.BytesNR("data", 1, 0, 127), End: n == 0}}
	for i := 1; i <= n; i++ {
		evs = append(evs, Ev{Kind: kContinuation, Delta: 2, Data: verif.BytesNR("data", 1, 0, 127), End: i == n})
	}
	if verif.Choose("after", 2) == 1 {
		evs = append(evs, Ev{Kind: kEscape, Delta: 3, Data: verif.BytesN("escape", 1)})
	}
	roundTripFile(verif.Choose("json", 2) == 1, 0, 96, append(evs, eot(4)))
}

// Text of any length.
func C12_Text() {
	e := Ev{Kind: kText + verif.Choose("kind", 9), Delta: 7, Text: verif.StringNR("text", 30, 'a', 'z')}
	roundTripFile(verif.Choose("json", 2) == 1, 0, 96, []Ev{e, eot(4)})
}

// Text that looks like another part of the document.
func C12_Lookalikes() {
	s := []string{"MTrk", "MThd", "%%", "x MTrk 1 length:4", "MThd length:6, format:1, tracks:2, metrical time:480 ppqn", "format:2", "EndOfTrack", "delta:0 FF EndOfTrack", "\"events\": [", "\\", "…"}
	e := Ev{Kind: kText + verif.Choose("kind", 9), Delta: verif.U32R("delta", 0, 127), Text: s[verif.Choose("text", len(s))]}
	roundTripFile(verif.Choose("json", 2) == 1, 0, 96, []Ev{e, eot(4)})
}

// Other events between the packets of a SysEx message.
func C12_Interleaved() {
	o := genOpt{maxDelta: 9, textLen: 1, lo: 0x21, hi: 0x7e, dataLen: 1, simple: true}
	k := []int{kNoteOn, kController, kText, kTempo}
	x := c12Event("x.", k[verif.Choose("x.kind", len(k))], o)
	y := c12Event("y.", k[verif.Choose("y.kind", len(k))], o)
	a := Ev{Kind: kSysEx, Delta: 1, ID: []byte{0x41}, Data: verif.BytesNR("data", 1, 0, 127)}
	b := Ev{Kind: kContinuation, Delta: 2, Data: verif.BytesNR("data", 1, 0, 127)}
	c := Ev{Kind: kContinuation, Delta: 3, Data: verif.BytesNR("data", 1, 0, 127), End: true}
	d := Ev{Kind: kSysEx, Delta: 4, ID: []byte{0x41}, Data: verif.BytesNR("data", 1, 0, 127), End: true}
	roundTripFile(verif.Choose("json", 2) == 1, 0, 96, []Ev{a, x, b, c, y, d, eot(4)})
}

// Notes named with the sharps or flats of any key.
func C12_Keys() {
	key := Ev{Kind: kKeySignature, A: uint8(verif.Choose("accidentals", 15) - 7), B: uint8(verif.Choose("mode", 2))}
	n := verif.U8R("note", 0, 127)
	ch := verif.U8R("channel", 0, 15)
	on := Ev{Kind: kNoteOn, Ch: ch, A: n, B: 64}
	off := Ev{Kind: kNoteOff, Delta: 5, Ch: ch, A: n, B: 64}
	roundTripFile(false, 0, 96, []Ev{key, on, off, eot(4)})
}

// A line of any length is read whole.
func C12_LongLine() {
	s := verif.StringR("text", 'a', 'z')
	verif.Assume(len(s) < 1<<27)
	k := kText + verif.Choose("kind", 9)
	b, err := assemble.NewTextAssembler().Assemble(strings.NewReader(textHeader + "\n" + textTrack + "delta:7 01 " + kindTags[k] + " " + s + "\n" + textEOT))
	verif.Assert("assembles", err == nil)
	smf, err := decode(b)
	verif.Assert("decodes", err == nil && len(smf.Tracks) == 1 && len(smf.Tracks[0].Events) == 2)
	Ev{Kind: k, Delta: 7, Text: s}.check(smf.Tracks[0].Events[0].Event)
}
