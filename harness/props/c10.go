package props

import (
	"encoding/json"
	"fmt"
	"unicode/utf8"

	"github.com/transcriptaze/midiasm/midi/events"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"

	"verif/verif"
)

var kindTags = []string{"NoteOff", "NoteOn", "Controller", "ProgramChange", "ChannelPressure", "PitchBend", "SequenceNumber", "Text", "Copyright",
	"TrackName", "InstrumentName", "Lyric", "Marker", "CuePoint", "ProgramName", "DeviceName", "MIDIChannelPrefix", "MIDIPort", "EndOfTrack", "Tempo",
	"SMPTEOffset", "TimeSignature", "KeySignature", "SequencerSpecificEvent", "SysExMessage", "SysExContinuation", "SysExEscape"}

// jsonEvent: the documented names.
type jsonEvent struct {
	Tag     string `json:"tag"`
	Delta   uint32 `json:"delta"`
	Status  uint8  `json:"status"`
	Type    uint8  `json:"type"`
	Channel uint8  `json:"channel"`
	Note    struct {
		Value uint8 `json:"value"`
	} `json:"note"`
	Velocity   uint8 `json:"velocity"`
	Controller struct {
		ID uint8 `json:"id"`
	} `json:"controller"`
	Value          uint8  `json:"value"`
	Bank           uint16 `json:"bank"`
	Program        uint8  `json:"program"`
	Pressure       uint8  `json:"pressure"`
	Bend           uint16 `json:"bend"`
	SequenceNumber uint16 `json:"sequence-number"`
	Text           string `json:"text"`
	Copyright      string `json:"copyright"`
	Name           string `json:"name"`
	Lyric          string `json:"lyric"`
	Marker         string `json:"marker"`
	CuePoint       string `json:"cuepoint"`
	Port           uint8  `json:"port"`
	Tempo          uint32 `json:"tempo"`
	Hour           uint8  `json:"hour"`
	Minute         uint8  `json:"minute"`
	Second         uint8  `json:"second"`
	FrameRate      uint8  `json:"frame-rate"`
	Frames         uint8  `json:"frames"`
	Fractions      uint8  `json:"fractional-frames"`
	Numerator      uint8  `json:"numerator"`
	Denominator    uint8  `json:"denominator"`
	TicksPerClick  uint8  `json:"ticks-per-click"`
	ThirtySeconds  uint8  `json:"thirty-seconds-per-quarter"`
	Accidentals    int8   `json:"accidentals"`
	KeyType        uint8  `json:"key-type"`
	Manufacturer   struct {
		ID []uint `json:"id"`
	} `json:"manufacturer"`
	Data   []uint `json:"data"`
	Single bool   `json:"single"`
	End    bool   `json:"end"`
}

func sameBytes(a []uint, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != uint(b[i]) {
			return false
		}
	}
	return true
}

// checkJSON: the values under their documented names.
func (e Ev) checkJSON(b []byte) {
	w := struct {
		Event jsonEvent `json:"event"`
	}{}
	err := json.Unmarshal(b, &w)
	verif.Assert("valid-json", err == nil)
	j := w.Event
	verif.Assert("json-tag", j.Tag == kindTags[e.Kind])
	verif.Assert("json-delta", j.Delta == e.Delta)
	verif.Assert("json-status", j.Status == e.status())
	if isChannel(e.Kind) {
		verif.Assert("json-channel", j.Channel == e.Ch)
	}
	text := func(s string) { verif.Assert("json-text", s == e.Text) }
	switch e.Kind {
	case kNoteOff, kNoteOn:
		verif.Assert("json-note", j.Note.Value == e.A && j.Velocity == e.B)
	case kController:
		verif.Assert("json-controller", j.Controller.ID == e.A && j.Value == e.B)
	case kProgramChange:
		verif.Assert("json-program", j.Program == e.A && j.Bank == 0)
	case kChannelPressure:
		verif.Assert("json-pressure", j.Pressure == e.A)
	case kPitchBend:
		verif.Assert("json-bend", uint32(j.Bend) == e.N)
	case kSequenceNumber:
		verif.Assert("json-sequence-number", uint32(j.SequenceNumber) == e.N)
	case kText:
		text(j.Text)
	case kCopyright:
		text(j.Copyright)
	case kTrackName, kInstrumentName, kProgramName, kDeviceName:
		text(j.Name)
	case kLyric:
		text(j.Lyric)
	case kMarker:
		text(j.Marker)
	case kCuePoint:
		text(j.CuePoint)
	case kChannelPrefix:
		verif.Assert("json-prefix", j.Channel == e.A)
	case kPort:
		verif.Assert("json-port", j.Port == e.A)
	case kTempo:
		verif.Assert("json-tempo", j.Tempo == e.N)
	case kSMPTEOffset:
		verif.Assert("json-smpte", j.FrameRate == rates[e.F[0]] && j.Hour == e.F[1] && j.Minute == e.F[2] && j.Second == e.F[3] && j.Frames == e.F[4] && j.Fractions == e.F[5])
	case kTimeSignature:
		verif.Assert("json-time-signature", j.Numerator == e.F[0] && j.Denominator == 1<<e.F[1] && j.TicksPerClick == e.F[2] && j.ThirtySeconds == e.F[3])
	case kKeySignature:
		verif.Assert("json-key", j.Accidentals == int8(e.A) && j.KeyType == e.B)
	case kSequencerSpecific:
		verif.Assert("json-id", sameBytes(j.Manufacturer.ID, e.ID))
		verif.Assert("json-data", sameBytes(j.Data, e.Data))
	case kSysEx:
		verif.Assert("json-id", sameBytes(j.Manufacturer.ID, e.ID))
		verif.Assert("json-data", sameBytes(j.Data, e.Data))
		verif.Assert("json-single", j.Single == e.End)
	case kContinuation:
		verif.Assert("json-data", sameBytes(j.Data, e.Data))
		verif.Assert("json-end", j.End == e.End)
	case kEscape:
		verif.Assert("json-data", sameBytes(j.Data, e.Data))
	}
}

// roundTripJSON: to JSON and back.
func roundTripJSON(e Ev) {
	x := events.NewEvent(construct(e))
	b, err := json.Marshal(x)
	verif.Assert("marshals", err == nil)
	e.checkJSON(b)
	var y events.Event
	err = json.Unmarshal(b, &y)
	verif.Assert("unmarshals", err == nil)
	e.check(y.Event)
	p, err1 := marshal(x.Event)
	q, err2 := marshal(y.Event)
	verif.Assert("binary", err1 == nil && err2 == nil)
	verif.Assert("same-binary", verif.EqBytes(p, q))
}

func c10Event(p string, o genOpt) Ev {
	e := gen(p, verif.Choose(p+"kind", nKinds), o)
	// a continuation packet that ends the message is read back as one that does not: known finding C10_End
	verif.Assume(e.Kind != kContinuation || !e.End)
	return e
}

// Every kind and every field value; one byte of data, two characters of text.
func C10_RoundTrip() {
	e := c10Event("", genOpt{textLen: 1, dataLen: 1, ids: 1})
	verif.Assume(!isText(e.Kind) || e.Text[0] < 0x80)
	roundTripJSON(e)
}

// Text of any length.
func C10_Text() {
	r := [][2]uint8{{'A', 'Z'}, {'a', 'z'}, {0x27, 0x3b}}[verif.Choose("range", 3)]
	e := gen("", kText+verif.Choose("kind", 9), genOpt{maxDelta: 127, textLen: -1, lo: r[0], hi: r[1]})
	verif.Assume(len(e.Text) < 1<<27)
	roundTripJSON(e)
}

// Characters that JSON escapes, multi-byte characters.
func C10_Escapes() {
	e := gen("", kText, genOpt{maxDelta: 127, textLen: 2})
	verif.Assume(utf8.ValidString(e.Text))
	roundTripJSON(e)
}

// Data of several bytes, every manufacturer.
func C10_Data() {
	n := verif.Choose("length", 4)
	k := []int{kSequencerSpecific, kSysEx, kContinuation, kEscape}[verif.Choose("kind", 4)]
	e := gen("", k, genOpt{maxDelta: 127, dataLen: n, ids: 0})
	verif.Assume(e.Kind != kContinuation || !e.End)
	roundTripJSON(e)
}

func C10_Manufacturers() {
	e := gen("", []int{kSequencerSpecific, kSysEx}[verif.Choose("kind", 2)], genOpt{maxDelta: 127, dataLen: 1, ids: 2})
	roundTripJSON(e)
}

// The bank of a program change.
func C10_Bank() {
	x := midievent.MakeProgramChange(0, 0, 3, verif.U16("bank"), verif.U8R("program", 0, 127))
	b, err := x.MarshalJSON()
	verif.Assert("marshals", err == nil)
	var y midievent.ProgramChange
	verif.Assert("unmarshals", y.UnmarshalJSON(b) == nil)
	verif.Assert("bank", y.Bank == x.Bank && y.Program == x.Program && y.Channel == x.Channel)
}

// Known finding: the end flag of a continuation packet is not read back.
func C10_End() {
	e := gen("", kContinuation, genOpt{maxDelta: 127, dataLen: 1})
	verif.Assume(e.End)
	b, err := json.Marshal(events.NewEvent(construct(e)))
	verif.Assert("marshals", err == nil)
	var y events.Event
	verif.Assert("unmarshals", json.Unmarshal(b, &y) == nil)
	v, ok := y.Event.(sysex.SysExContinuationMessage)
	verif.Assert("kind", ok && verif.EqBytes(v.Data, e.Data))
	verif.Assert("end", v.End)
}

// Known finding: text that is not UTF-8 is changed by JSON.
func C10_NotUTF8() {
	e := Ev{Kind: kText, Text: string(verif.BytesNR("text", 1, 0x80, 0xff))}
	b, err := json.Marshal(events.NewEvent(construct(e)))
	verif.Assert("marshals", err == nil)
	var y events.Event
	verif.Assert("unmarshals", json.Unmarshal(b, &y) == nil)
	v, ok := y.Event.(metaevent.Text)
	verif.Assert("kind", ok)
	verif.Assert("text", v.Text == e.Text)
}

// unmarshalAs: the JSON read as a given kind of event.
func unmarshalAs(kind int, b []byte) error {
	targets := []json.Unmarshaler{&midievent.NoteOff{}, &midievent.NoteOn{}, &midievent.Controller{}, &midievent.ProgramChange{}, &midievent.ChannelPressure{}, &midievent.PitchBend{},
		&metaevent.SequenceNumber{}, &metaevent.Text{}, &metaevent.Copyright{}, &metaevent.TrackName{}, &metaevent.InstrumentName{}, &metaevent.Lyric{}, &metaevent.Marker{},
		&metaevent.CuePoint{}, &metaevent.ProgramName{}, &metaevent.DeviceName{}, &metaevent.MIDIChannelPrefix{}, &metaevent.MIDIPort{}, &metaevent.EndOfTrack{}, &metaevent.Tempo{},
		&metaevent.SMPTEOffset{}, &metaevent.TimeSignature{}, &metaevent.KeySignature{}, &metaevent.SequencerSpecificEvent{}, &sysex.SysExMessage{}, &sysex.SysExContinuationMessage{}, &sysex.SysExEscapeMessage{}}
	return targets[kind].UnmarshalJSON(b)
}

// JSON of the wrong kind is refused.
func C10_WrongKind() {
	o := genOpt{maxDelta: 127, textLen: 1, lo: 'a', hi: 'z', dataLen: 1, simple: true}
	e := gen("", verif.Choose("kind", nKinds), o)
	k := verif.Choose("as", nKinds)
	verif.Assume(k != e.Kind)
	m, ok := construct(e).(json.Marshaler)
	verif.Assert("marshaler", ok)
	b, err := m.MarshalJSON()
	verif.Assert("marshals", err == nil)
	verif.Assert("own-kind", unmarshalAs(e.Kind, b) == nil)
	verif.Assert("wrong-kind", unmarshalAs(k, b) != nil)
}

// An unknown tag, no tag, no event: refused.
func C10_Tags() {
	var y events.Event
	s := verif.StringNR("tag", verif.Choose("length", 6), 'A', 'z')
	known := false
	for _, t := range kindTags {
		if t == s {
			known = true
		}
	}
	verif.Assume(!known)
	docs := []string{`{"event":{"tag":"` + s + `","delta":0}}`, `{"event":{"delta":0}}`, `{"event":null}`, `{}`, `{"event":[]}`, `{"event":"` + s + `"}`, `[]`, ``, `{"event":{"tag":7}}`, `null`}
	d := verif.Choose("doc", len(docs))
	if d == 0 {
		for i := 0; i < len(s); i++ {
			verif.Assume(s[i] != '\\')
		}
	}
	verif.Assert("refused", json.Unmarshal([]byte(docs[d]), &y) != nil)
}

// jsonField: an event with one numeric field; the values that fit are lo..hi.
type jsonField struct {
	doc    string
	lo, hi int64
	signed bool
}

var jsonFields = []jsonField{
	{`"tag":"NoteOn","channel":1,"note":{"value":%d},"velocity":1`, 0, 127, false},
	{`"tag":"NoteOn","channel":1,"note":{"value":1},"velocity":%d`, 0, 127, false},
	{`"tag":"NoteOn","channel":%d,"note":{"value":1},"velocity":1`, 0, 15, false},
	{`"tag":"NoteOff","channel":1,"note":{"value":%d},"velocity":1`, 0, 127, false},
	{`"tag":"NoteOff","channel":1,"note":{"value":1},"velocity":%d`, 0, 127, false},
	{`"tag":"NoteOff","channel":%d,"note":{"value":1},"velocity":1`, 0, 15, false},
	{`"tag":"PolyphonicPressure","channel":%d,"pressure":1`, 0, 15, false},
	{`"tag":"PolyphonicPressure","channel":1,"pressure":%d`, 0, 127, false},
	{`"tag":"Controller","channel":%d,"controller":{"id":1},"value":1`, 0, 15, false},
	{`"tag":"Controller","channel":1,"controller":{"id":%d},"value":1`, 0, 127, false},
	{`"tag":"Controller","channel":1,"controller":{"id":1},"value":%d`, 0, 127, false},
	{`"tag":"ProgramChange","channel":%d,"program":1`, 0, 15, false},
	{`"tag":"ProgramChange","channel":1,"program":%d`, 0, 127, false},
	{`"tag":"ChannelPressure","channel":%d,"pressure":1`, 0, 15, false},
	{`"tag":"ChannelPressure","channel":1,"pressure":%d`, 0, 127, false},
	{`"tag":"PitchBend","channel":%d,"bend":1`, 0, 15, false},
	{`"tag":"PitchBend","channel":1,"bend":%d`, 0, 16383, false},
	{`"tag":"SequenceNumber","sequence-number":%d`, 0, 65535, false},
	{`"tag":"MIDIChannelPrefix","channel":%d`, 0, 15, false},
	{`"tag":"MIDIPort","port":%d`, 0, 127, false},
	{`"tag":"Tempo","tempo":%d`, 0, 0xffffff, false},
	{`"tag":"TimeSignature","numerator":%d,"denominator":4,"ticks-per-click":24,"thirty-seconds-per-quarter":8`, 0, 255, false},
	{`"tag":"TimeSignature","numerator":4,"denominator":4,"ticks-per-click":%d,"thirty-seconds-per-quarter":8`, 0, 255, false},
	{`"tag":"TimeSignature","numerator":4,"denominator":4,"ticks-per-click":24,"thirty-seconds-per-quarter":%d`, 0, 255, false},
	{`"tag":"KeySignature","accidentals":%d,"key-type":0`, -7, 7, true},
	{`"tag":"KeySignature","accidentals":%d,"key-type":1`, -7, 7, true},
	{`"tag":"KeySignature","accidentals":0,"key-type":%d`, 0, 1, false},
	{`"tag":"SMPTEOffset","hour":%d,"minute":1,"second":1,"frame-rate":25,"frames":1,"fractional-frames":1`, 0, 24, false},
	{`"tag":"SMPTEOffset","hour":1,"minute":%d,"second":1,"frame-rate":25,"frames":1,"fractional-frames":1`, 0, 59, false},
	{`"tag":"SMPTEOffset","hour":1,"minute":1,"second":%d,"frame-rate":25,"frames":1,"fractional-frames":1`, 0, 59, false},
	{`"tag":"SMPTEOffset","hour":1,"minute":1,"second":1,"frame-rate":25,"frames":%d,"fractional-frames":1`, 0, 24, false},
	{`"tag":"SMPTEOffset","hour":1,"minute":1,"second":1,"frame-rate":25,"frames":1,"fractional-frames":%d`, 0, 100, false},
	{`"tag":"SysExEscape","data":[%d]`, 0, 255, false},
	{`"tag":"SysExContinuation","data":[%d]`, 0, 255, false},
	{`"tag":"SysExMessage","manufacturer":{"id":[65]},"data":[%d]`, 0, 255, false},
	{`"tag":"SysExMessage","manufacturer":{"id":[%d]},"data":[1]`, 0, 127, false},
	{`"tag":"SequencerSpecificEvent","manufacturer":{"id":[65]},"data":[%d]`, 0, 255, false},
	{`"tag":"SequencerSpecificEvent","manufacturer":{"id":[%d]},"data":[1]`, 1, 127, false},
	{`"tag":"EndOfTrack","delta":%d`, 0, 0xffffffff, false},
	{`"tag":"Text","text":"x","delta":%d`, 0, 0xffffffff, false},
	{`"tag":"NoteOn","channel":1,"note":{"value":1},"velocity":1,"delta":%d`, 0, 0xffffffff, false},
}

// A value that does not fit its field is refused, one that fits is accepted: every 64-bit number.
func C10_Ranges() {
	f := jsonFields[verif.Choose("field", len(jsonFields))]
	v := verif.I64("value")
	var y events.Event
	err := json.Unmarshal([]byte(fmt.Sprintf(`{"event":{`+f.doc+`}}`, v)), &y)
	verif.Assert("range", (err == nil) == (v >= f.lo && v <= f.hi))
}

func hasList(doc string) bool {
	for i := 1; i < len(doc); i++ {
		if doc[i] == '%' && doc[i-1] == '[' {
			return true
		}
	}
	return false
}

// A value of another JSON type is refused and never crashes.
func C10_Types() {
	f := jsonFields[verif.Choose("field", len(jsonFields))]
	bad := []string{`"1"`, `true`, `{}`, `[[]]`, `1.5`, `1e99`, `"`, ``, `-`}
	s := bad[verif.Choose("bad", len(bad))]
	verif.Assume(s != `` || !hasList(f.doc)) // an empty list of data is no wrong type
	doc := ""
	for i := 0; i < len(f.doc); i++ {
		if f.doc[i] == '%' {
			doc += s
			i++
		} else {
			doc += f.doc[i : i+1]
		}
	}
	var y events.Event
	err := json.Unmarshal([]byte(`{"event":{`+doc+`}}`), &y)
	verif.Assert("refused", err != nil)
}

// Time signature denominators are powers of two.
func C10_Denominator() {
	v := verif.U32("value")
	var y metaevent.TimeSignature
	err := y.UnmarshalJSON([]byte(fmt.Sprintf(`{"tag":"TimeSignature","numerator":4,"denominator":%d,"ticks-per-click":24,"thirty-seconds-per-quarter":8}`, v)))
	verif.Assert("range", (err == nil) == (v > 0 && v < 256 && v&(v-1) == 0))
}

// Any short document: refused, no crash.
func C10_Garbage() {
	b := verif.BytesN("json", verif.Choose("length", 4))
	var y events.Event
	verif.Assert("refused", y.UnmarshalJSON(b) != nil)
}
