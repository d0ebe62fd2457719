package props

import (
	"fmt"
	"strings"

	"github.com/transcriptaze/midiasm/ops/assemble"

	"verif/verif"
)

// assembled: the document is refused, or gives a file that decodes, all of whose channel data bytes are below 128.
func assembled(json bool, doc string) (ok bool) {
	var b []byte
	var err error
	if json {
		b, err = assemble.NewJSONAssembler().Assemble(strings.NewReader(doc))
	} else {
		b, err = assemble.NewTextAssembler().Assemble(strings.NewReader(doc))
	}
	if err != nil {
		return false
	}
	_, err = decode(b)
	verif.Assert("well-formed", err == nil)
	return true
}

// Any short document.
func C13_Short() {
	n := verif.Choose("length", 4)
	assembled(verif.Choose("json", 2) == 1, string(verif.BytesN("document", n)))
}

const textHeader = "4D 54 68 64 00 00 00 06 00 00 00 01 01 E0  MThd length:6, format:0, tracks:1, metrical time:480 ppqn\n"
const textTrack = "4D 54 72 6B 00 00 00 0B                   MTrk 0 length:11\n"
const textEOT = "00 FF 2F 00                              tick:0          delta:0          2F EndOfTrack\n"

// An event line with any number in a field, of any size and sign.
var textFields = []struct {
	line   string
	lo, hi int64
}{
	{"delta:%d  90 NoteOn channel:1 note:C4, velocity:64", 0, 0xffffffff},
	{"delta:0  90 NoteOn channel:%d note:C4, velocity:64", 0, 15},
	{"delta:0  90 NoteOn channel:1 note:C4, velocity:%d", 0, 127},
	{"delta:0  90 NoteOn channel:1 note:C%d, velocity:1", -1, 9},
	{"delta:0  90 NoteOn channel:1 note:B%d, velocity:1", -1, 8},
	{"delta:0  80 NoteOff channel:%d note:C4, velocity:64", 0, 15},
	{"delta:0  80 NoteOff channel:1 note:C4, velocity:%d", 0, 127},
	{"delta:0  80 NoteOff channel:1 note:C%d, velocity:1", -1, 9},
	{"delta:0  A0 PolyphonicPressure channel:%d pressure:1", 0, 15},
	{"delta:0  A0 PolyphonicPressure channel:1 pressure:%d", 0, 127},
	{"delta:0  B0 Controller channel:%d 1/Modulation, value:1", 0, 15},
	{"delta:0  B0 Controller channel:1 %d/Modulation, value:1", 0, 127},
	{"delta:0  B0 Controller channel:1 1/Modulation, value:%d", 0, 127},
	{"delta:0  C0 ProgramChange channel:%d bank:0, program:1", 0, 15},
	{"delta:0  C0 ProgramChange channel:1 bank:0, program:%d", 0, 127},
	{"delta:0  D0 ChannelPressure channel:%d pressure:1", 0, 15},
	{"delta:0  D0 ChannelPressure channel:1 pressure:%d", 0, 127},
	{"delta:0  E0 PitchBend channel:%d bend:1", 0, 15},
	{"delta:0  E0 PitchBend channel:1 bend:%d", 0, 16383},
	{"delta:0  00 SequenceNumber %d", 0, 65535},
	{"delta:0  20 MIDIChannelPrefix %d", 0, 15},
	{"delta:0  21 MIDIPort %d", 0, 127},
	{"delta:0  51 Tempo tempo:%d", 0, 0xffffff},
	{"delta:0  54 SMPTEOffset %d 1 1 25 1 1", 0, 24},
	{"delta:0  54 SMPTEOffset 1 %d 1 25 1 1", 0, 59},
	{"delta:0  54 SMPTEOffset 1 1 %d 25 1 1", 0, 59},
	{"delta:0  54 SMPTEOffset 1 1 1 25 %d 1", 0, 24},
	{"delta:0  54 SMPTEOffset 1 1 1 25 1 %d", 0, 100},
	{"delta:0  58 TimeSignature %d/4, 24 ticks per click, 8/32 per quarter", 0, 255},
	{"delta:0  58 TimeSignature 4/4, %d ticks per click, 8/32 per quarter", 0, 255},
	{"delta:0  58 TimeSignature 4/4, 24 ticks per click, %d/32 per quarter", 0, 255},
	{"delta:%d  2F Text x", 0, 0xffffffff},
	{"delta:%d  F0 SysExMessage Roland, 01 02", 0, 0xffffffff},
}

func C13_TextValues() {
	f := textFields[verif.Choose("field", len(textFields))]
	v := verif.I64("value")
	ok := assembled(false, textHeader+"\n"+textTrack+fmt.Sprintf(f.line, v)+"\n"+textEOT)
	verif.Assert("refused", !ok || v >= f.lo && v <= f.hi)
	verif.Assert("accepted", ok || v < f.lo || v > f.hi)
}

const jsonDoc = `{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","tracknumber":0,"events":[{"event":{%s}},{"event":{"tag":"EndOfTrack","delta":0,"status":255,"type":47}}]}]}`

// A JSON event with any 64-bit number in a field.
func C13_JSONValues() {
	f := jsonFields[verif.Choose("field", len(jsonFields))]
	v := verif.I64("value")
	ok := assembled(true, fmt.Sprintf(jsonDoc, fmt.Sprintf(f.doc, v)))
	verif.Assert("range", ok == (v >= f.lo && v <= f.hi))
}

// Header values.
func C13_TextHeader() {
	lines := []string{
		"MThd length:6, format:%d, tracks:1, metrical time:480 ppqn",
		"MThd length:6, format:1, tracks:%d, metrical time:480 ppqn",
		"MThd length:6, format:1, tracks:1, metrical time:%d ppqn",
		"MThd length:6, format:1, tracks:1, SMPTE:%d fps,4 sub-frames",
		"MThd length:6, format:1, tracks:1, SMPTE:25 fps,%d sub-frames",
		"MThd length:%d, format:1, tracks:1, metrical time:480 ppqn",
	}
	line := lines[verif.Choose("field", len(lines))]
	assembled(false, fmt.Sprintf(line, verif.I64("value"))+"\n\n"+textTrack+textEOT)
}

func C13_JSONHeader() {
	docs := []string{
		`{"header":{"tag":"MThd","format":%d,"PPQN":480},"tracks":[]}`,
		`{"header":{"tag":"MThd","format":1,"PPQN":%d},"tracks":[]}`,
		`{"header":{"tag":"MThd","format":1,"SMPTETimeCode":true,"FPS":%d,"SubFrames":4},"tracks":[]}`,
		`{"header":{"tag":"MThd","format":1,"SMPTETimeCode":true,"FPS":25,"SubFrames":%d},"tracks":[]}`,
		`{"header":{"tag":"MThd","format":1,"PPQN":480},"tracks":[{"tag":"MTrk","tracknumber":%d,"events":[]}]}`,
	}
	assembled(true, fmt.Sprintf(docs[verif.Choose("field", len(docs))], verif.I64("value")))
}

// The parts of a text document in any order, missing or repeated.
func C13_TextParts() {
	parts := []string{"", "\n", textHeader, textTrack, textEOT, "%% MTrk comment\n", "delta:0  90 NoteOn channel:1 note:C4, velocity:64\n",
		"x\n", "delta:1 F0 SysExMessage Roland, 01\n", "delta:1 F7 SysExContinuation 02\n", "delta:1 F7 SysExEscape 03"}
	n := verif.Choose("parts", 5)
	doc := ""
	for i := 0; i < n; i++ {
		doc += parts[verif.Choose("part", len(parts))]
	}
	assembled(false, doc)
}

// The parts of a JSON document missing, null or of another type.
func C13_JSONParts() {
	vals := []string{`null`, `0`, `""`, `[]`, `{}`, `"MThd"`, `"MTrk"`, `[null]`, `[0]`, `[{}]`, `true`, `[{"event":null}]`, `[{"event":{}}]`, `[{"event":{"tag":null}}]`, `[{"event":{"tag":"NoteOn"}}]`}
	v := vals[verif.Choose("value", len(vals))]
	docs := []string{
		v,
		`{"header":` + v + `}`,
		`{"header":{"tag":` + v + `,"format":0,"PPQN":480},"tracks":[]}`,
		`{"header":{"tag":"MThd","format":` + v + `,"PPQN":480},"tracks":[]}`,
		`{"header":{"tag":"MThd","format":0,"PPQN":` + v + `},"tracks":[]}`,
		`{"header":{"tag":"MThd","format":0,"SMPTETimeCode":` + v + `,"FPS":25,"SubFrames":4},"tracks":[]}`,
		`{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":` + v + `}`,
		`{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[` + v + `]}`,
		`{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":` + v + `,"tracknumber":0,"events":[]}]}`,
		`{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","tracknumber":0,"events":` + v + `}]}`,
		`{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","tracknumber":0,"events":[` + v + `]}]}`,
		`{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","tracknumber":0,"events":[{"event":` + v + `}]}]}`,
		`{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","tracknumber":0,"events":[{"event":{"tag":"SysExMessage","manufacturer":` + v + `,"data":[1]}}]}]}`,
		`{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","tracknumber":0,"events":[{"event":{"tag":"SysExMessage","manufacturer":{"id":` + v + `},"data":[1]}}]}]}`,
		`{"header":{"tag":"MThd","format":0,"PPQN":480},"tracks":[{"tag":"MTrk","tracknumber":0,"events":[{"event":{"tag":"SequencerSpecificEvent","manufacturer":{"id":` + v + `},"data":` + v + `}}]}]}`,
	}
	assembled(true, docs[verif.Choose("document", len(docs))])
}

// Any character changed in an event line.
func C13_TextDamage() {
	k := verif.Choose("kind", nKinds)
	e := Ev{Kind: k, Delta: 5, A: 1, B: 1, N: 1, Ch: 1, F: [6]uint8{1, 1, 1, 1, 1, 1}, Text: "ab", Data: []byte{1, 2}, ID: []byte{0x41}}
	line := "tick:0 delta:5 " + eventText(e)
	i := verif.Choose("at", len(line))
	c := string(verif.BytesNR("byte", 1, 0, 127))
	cut := verif.Choose("cut", 2)
	assembled(false, textHeader+"\n"+textTrack+line[:i]+c+line[i+cut:]+"\n"+textEOT)
}

// eventText: an event in the text format.
func eventText(e Ev) string {
	t := kindTags[e.Kind]
	if isChannel(e.Kind) {
		d := []string{"note:C4, velocity:64", "note:C4, velocity:64", "pressure:1", "1/Modulation, value:1", "bank:0, program:1", "pressure:1", "bend:1"}
		return "90 " + t + " channel:1 " + d[e.Kind]
	}
	if isText(e.Kind) {
		return "01 " + t + " ab"
	}
	switch e.Kind {
	case kSequenceNumber, kChannelPrefix, kPort:
		return "01 " + t + " 7"
	case kTempo:
		return "51 Tempo tempo:500000"
	case kSMPTEOffset:
		return "54 SMPTEOffset 1 2 3 25 4 5"
	case kTimeSignature:
		return "58 TimeSignature 4/4, 24 ticks per click, 8/32 per quarter"
	case kKeySignature:
		return "59 KeySignature C minor"
	case kSequencerSpecific, kSysEx:
		return "F0 " + t + " Roland, 01 02"
	case kContinuation, kEscape:
		return "F7 " + t + " 01 02"
	}
	return "2F " + t
}

// Manufacturer identifications of up to four bytes, or none.
func C13_Manufacturers() {
	n := verif.Choose("length", 6)
	id := ""
	for i := 0; i < n-1; i++ {
		if i > 0 {
			id += ","
		}
		id += fmt.Sprint(verif.U16("byte"))
	}
	if n > 0 {
		id = `"manufacturer":{"id":[` + id + `]},`
	}
	data := []string{`[]`, `[1]`, `[0,0]`, `[247]`}[verif.Choose("data", 4)]
	tag := []string{"SysExMessage", "SequencerSpecificEvent"}[verif.Choose("tag", 2)]
	ok := assembled(true, fmt.Sprintf(jsonDoc, `"tag":"`+tag+`",`+id+`"data":`+data))
	verif.Assert("identification", !ok || n == 2 || n == 4)
}
