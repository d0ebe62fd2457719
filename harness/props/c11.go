package props

import (
	"bytes"

	"github.com/transcriptaze/midiasm/midi/context"
	"github.com/transcriptaze/midiasm/midi/events"
	"github.com/transcriptaze/midiasm/midi/lib"
	"github.com/transcriptaze/midiasm/ops/disassemble"

	"verif/verif"
)

// printEvent: the line that disassembly prints for an event.
func printEvent(e *events.Event) string {
	d, err := disassemble.NewDisassemble()
	verif.Assert("template", err == nil)
	var b bytes.Buffer
	err = d.Print(e, "event", &b)
	verif.Assert("printed", err == nil)
	return b.String()
}

func isSpace(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' || b == '\f' }

// c11Event: an event whose values the text format can express: text without line breaks that does not
// start with white space (known findings), manufacturers with a name of their own (known finding).
func c11Event(p string, kind int, o genOpt) Ev {
	e := gen(p, kind, o)
	if isText(kind) && o.textLen > 0 {
		verif.Assume(!isSpace(e.Text[0]))
		for i := 0; i < o.textLen; i++ {
			verif.Assume(e.Text[i] != '\n')
		}
	}
	if kind == kSysEx || kind == kSequencerSpecific {
		verif.Assume(lib.LookupManufacturer(e.ID).Name != unknownName)
	}
	return e
}

const unknownName = "<unknown>"

// readBack: the line gives the event back.  Whether a packet ends a SysEx message is not part of the
// line: the assembler takes that from the events that follow (C12).
func readBack(e Ev, line string) {
	var y events.Event
	err := y.UnmarshalText([]byte(line))
	verif.Assert("unmarshals", err == nil)
	e.End = false
	e.check(y.Event)
}

func roundTripText(e Ev) {
	readBack(e, printEvent(events.NewEvent(construct(e))))
}

// Every kind and every field value; one byte of data, one character of text.
func C11_RoundTrip() {
	e := c11Event("", verif.Choose("kind", nKinds), genOpt{textLen: 1, dataLen: 1, ids: 1})
	roundTripText(e)
}

// Text of two bytes and of none, any byte values.
func C11_Text2() {
	e := c11Event("", kText+verif.Choose("kind", 9), genOpt{maxDelta: 127, textLen: 2 * verif.Choose("length", 2)})
	roundTripText(e)
}

// Text of any length.
func C11_Text() {
	e := c11Event("", kText+verif.Choose("kind", 9), genOpt{maxDelta: 127, textLen: -1, lo: 0x21, hi: 0x7e})
	roundTripText(e)
}

// The text of an event never changes its kind.
func C11_Tags() {
	tags := cat2(kindTags[:], []string{"delta:7 90 NoteOn channel:1 note:C4, velocity:64", "tick:0 delta:0 FF Text x", "MTrk", "MThd", "EndOfTrack", "text", "TEXT", "x\tNoteOff"})
	s := tags[verif.Choose("text", len(tags))]
	if verif.Choose("after", 2) == 1 {
		s = "a " + s
	}
	e := Ev{Kind: kText + verif.Choose("kind", 9), Delta: verif.U32("delta"), Text: s}
	roundTripText(e)
}

func cat2(a, b []string) []string { return append(append([]string{}, a...), b...) }

// Data of several bytes.
func C11_Data() {
	n := verif.Choose("length", 4)
	k := []int{kSequencerSpecific, kSysEx, kContinuation, kEscape}[verif.Choose("kind", 4)]
	roundTripText(c11Event("", k, genOpt{maxDelta: 127, dataLen: n, ids: 0}))
}

// Every manufacturer with a name of its own.
func C11_Manufacturers() {
	k := []int{kSequencerSpecific, kSysEx}[verif.Choose("kind", 2)]
	roundTripText(c11Event("", k, genOpt{maxDelta: 127, dataLen: 1, ids: 2}))
}

// Known finding: a manufacturer that is not in the table is printed as <unknown> and not read back.
func C11_UnknownManufacturer() {
	e := Ev{Kind: kSysEx, ID: []byte{0x6f}, Data: []byte{1}}
	line := printEvent(events.NewEvent(construct(e)))
	var y events.Event
	verif.Assert("unmarshals", y.UnmarshalText([]byte(line)) == nil)
}

// Known finding: white space at the start of a text is lost.
func C11_LeadingSpace() {
	e := Ev{Kind: kText, Text: " x"}
	roundTripText(e)
}

// Known finding: a line break in a text ends the event.
func C11_LineBreak() {
	e := Ev{Kind: kText, Text: "x\ny"}
	roundTripText(e)
}

// Events as they come from a file, with their bytes in the first column: short ones, and ones that do not fit.
func C11_Decoded() {
	k := verif.Choose("kind", nKinds)
	o := genOpt{textLen: 1, dataLen: 1, simple: true}
	if verif.Choose("long", 2) == 1 {
		verif.Assume(isText(k) || k == kSequencerSpecific || isSysEx(k))
		o = genOpt{maxDelta: 127, textLen: 20, lo: 0x21, hi: 0x7e, dataLen: 12}
	}
	e := c11Event("", k, o)
	verif.Assume(e.Delta <= 0x0fffffff)
	b := track(e, eot(0))
	if k == kContinuation {
		b = track(Ev{Kind: kSysEx, ID: []byte{0x41}}, e, eot(0))
	}
	t, err := decodeTrack(b, context.NewContext())
	verif.Assert("decodes", err == nil && len(t.Events) >= 2)
	readBack(e, printEvent(t.Events[len(t.Events)-2]))
}
