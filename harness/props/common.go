package props

import (
	"bytes"
	"encoding"

	midifile "github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/context"
	"github.com/transcriptaze/midiasm/midi/events"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
	"github.com/transcriptaze/midiasm/midi/lib"

	"verif/verif"
)

// ---- specification of the Standard MIDI File event encoding ----

// Event kinds.
const (
	kNoteOff = iota
	kNoteOn
	kController
	kProgramChange
	kChannelPressure
	kPitchBend
	kSequenceNumber
	kText
	kCopyright
	kTrackName
	kInstrumentName
	kLyric
	kMarker
	kCuePoint
	kProgramName
	kDeviceName
	kChannelPrefix
	kPort
	kEndOfTrack
	kTempo
	kSMPTEOffset
	kTimeSignature
	kKeySignature
	kSequencerSpecific
	kSysEx
	kContinuation
	kEscape
	nKinds
)

// Ev is the specification's view of an event.
type Ev struct {
	Kind  int
	Delta uint32
	Ch    uint8
	A, B  uint8  // data bytes
	N     uint32 // sequence number, tempo, bend
	F     [6]uint8
	Text  string
	ID    []byte
	Data  []byte
	End   bool // SysEx: packet ends with F7
}

// refVLQ is the specification of a variable length quantity: shortest big-endian base-128 form.
func refVLQ(v uint32) []byte {
	switch {
	case v < 1<<7:
		return []byte{byte(v)}
	case v < 1<<14:
		return []byte{0x80 | byte(v>>7), byte(v & 0x7f)}
	case v < 1<<21:
		return []byte{0x80 | byte(v>>14), 0x80 | byte(v>>7&0x7f), byte(v & 0x7f)}
	case v < 1<<28:
		return []byte{0x80 | byte(v>>21), 0x80 | byte(v>>14&0x7f), 0x80 | byte(v>>7&0x7f), byte(v & 0x7f)}
	default:
		return []byte{0x80 | byte(v>>28), 0x80 | byte(v>>21&0x7f), 0x80 | byte(v>>14&0x7f), 0x80 | byte(v>>7&0x7f), byte(v & 0x7f)}
	}
}

func isChannel(kind int) bool { return kind <= kPitchBend }
func isMeta(kind int) bool    { return kind >= kSequenceNumber && kind <= kSequencerSpecific }
func isSysEx(kind int) bool   { return kind >= kSysEx }
func isText(kind int) bool    { return kind >= kText && kind <= kDeviceName }

var channelStatus = []byte{0x80, 0x90, 0xb0, 0xc0, 0xd0, 0xe0}

// status: the status byte of the event.
func (e Ev) status() byte {
	switch {
	case isChannel(e.Kind):
		return channelStatus[e.Kind] | e.Ch
	case isMeta(e.Kind):
		return 0xff
	case e.Kind == kSysEx:
		return 0xf0
	}
	return 0xf7
}

// data: what follows the status byte.
func (e Ev) data() []byte {
	meta := func(t byte, d []byte) []byte {
		return cat([]byte{t}, refVLQ(uint32(len(d))), d)
	}
	switch e.Kind {
	case kNoteOff, kNoteOn, kController:
		return []byte{e.A, e.B}
	case kProgramChange, kChannelPressure:
		return []byte{e.A}
	case kPitchBend:
		// first data byte * 128 + second data byte, as documented by the repository's reference files
		// (the MIDI standard has the least significant byte first: known finding C03_PitchBendOrder)
		return []byte{byte(e.N >> 7 & 0x7f), byte(e.N & 0x7f)}
	case kSequenceNumber:
		return meta(0x00, []byte{byte(e.N >> 8), byte(e.N)})
	case kText, kCopyright, kTrackName, kInstrumentName, kLyric, kMarker, kCuePoint, kProgramName, kDeviceName:
		return meta(byte(e.Kind-kText+1), []byte(e.Text))
	case kChannelPrefix:
		return meta(0x20, []byte{e.A})
	case kPort:
		return meta(0x21, []byte{e.A})
	case kEndOfTrack:
		return meta(0x2f, nil)
	case kTempo:
		return meta(0x51, []byte{byte(e.N >> 16), byte(e.N >> 8), byte(e.N)})
	case kSMPTEOffset:
		return meta(0x54, []byte{e.F[0]<<5 | e.F[1], e.F[2], e.F[3], e.F[4], e.F[5]})
	case kTimeSignature:
		return meta(0x58, []byte{e.F[0], e.F[1], e.F[2], e.F[3]})
	case kKeySignature:
		return meta(0x59, []byte{e.A, e.B})
	case kSequencerSpecific:
		return meta(0x7f, cat(e.ID, e.Data))
	case kSysEx:
		if e.End {
			return vlf(e.ID, e.Data, []byte{0xf7})
		}
		return vlf(e.ID, e.Data)
	case kContinuation:
		if e.End {
			return vlf(e.Data, []byte{0xf7})
		}
		return vlf(e.Data)
	case kEscape:
		return vlf(e.Data)
	}
	return nil
}

func vlf(d ...[]byte) []byte {
	b := cat(d...)
	return cat(refVLQ(uint32(len(b))), b)
}

// enc: the event's bytes without the delta time.
func (e Ev) enc() []byte { return cat([]byte{e.status()}, e.data()) }

// bytes: the event's bytes in a track.
func (e Ev) bytes() []byte { return cat(refVLQ(e.Delta), e.enc()) }

func cat(s ...[]byte) []byte {
	out := []byte{}
	for _, x := range s {
		out = append(out, x...)
	}
	return out
}

var rates = []uint8{24, 25, 29, 30}

// check states that x is the event e: kind, delta, channel and all the values, with the original bytes.
func (e Ev) check(x any) {
	ev, ok := x.(events.IEvent)
	verif.Assert("is-event", ok)
	verif.Assert("delta", ev.Delta() == e.Delta)
	e.checkValues(x)
}

func assertKind(ok bool) { verif.Assert("kind", ok) }

// checkValues states that x has the kind and the values of e.
func (e Ev) checkValues(x any) {
	switch e.Kind {
	case kNoteOff:
		v, ok := x.(midievent.NoteOff)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "NoteOff")
		verif.Assert("status", byte(v.Status) == e.status())
		verif.Assert("channel", uint8(v.Channel) == e.Ch)
		verif.Assert("note", v.Note.Value == e.A)
		verif.Assert("velocity", v.Velocity == e.B)
	case kNoteOn:
		v, ok := x.(midievent.NoteOn)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "NoteOn")
		verif.Assert("status", byte(v.Status) == e.status())
		verif.Assert("channel", uint8(v.Channel) == e.Ch)
		verif.Assert("note", v.Note.Value == e.A)
		verif.Assert("velocity", v.Velocity == e.B)
	case kController:
		v, ok := x.(midievent.Controller)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "Controller")
		verif.Assert("status", byte(v.Status) == e.status())
		verif.Assert("channel", uint8(v.Channel) == e.Ch)
		verif.Assert("controller", v.Controller.ID == e.A)
		verif.Assert("value", v.Value == e.B)
	case kProgramChange:
		v, ok := x.(midievent.ProgramChange)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "ProgramChange")
		verif.Assert("status", byte(v.Status) == e.status())
		verif.Assert("channel", uint8(v.Channel) == e.Ch)
		verif.Assert("program", v.Program == e.A)
	case kChannelPressure:
		v, ok := x.(midievent.ChannelPressure)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "ChannelPressure")
		verif.Assert("status", byte(v.Status) == e.status())
		verif.Assert("channel", uint8(v.Channel) == e.Ch)
		verif.Assert("pressure", v.Pressure == e.A)
	case kPitchBend:
		v, ok := x.(midievent.PitchBend)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "PitchBend")
		verif.Assert("status", byte(v.Status) == e.status())
		verif.Assert("channel", uint8(v.Channel) == e.Ch)
		verif.Assert("bend", uint32(v.Bend) == e.N)
	case kSequenceNumber:
		v, ok := x.(metaevent.SequenceNumber)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "SequenceNumber")
		verif.Assert("sequence-number", uint32(v.SequenceNumber) == e.N)
	case kText:
		v, ok := x.(metaevent.Text)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "Text")
		verif.Assert("text", v.Text == e.Text)
	case kCopyright:
		v, ok := x.(metaevent.Copyright)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "Copyright")
		verif.Assert("text", v.Copyright == e.Text)
	case kTrackName:
		v, ok := x.(metaevent.TrackName)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "TrackName")
		verif.Assert("text", v.Name == e.Text)
	case kInstrumentName:
		v, ok := x.(metaevent.InstrumentName)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "InstrumentName")
		verif.Assert("text", v.Name == e.Text)
	case kLyric:
		v, ok := x.(metaevent.Lyric)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "Lyric")
		verif.Assert("text", v.Lyric == e.Text)
	case kMarker:
		v, ok := x.(metaevent.Marker)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "Marker")
		verif.Assert("text", v.Marker == e.Text)
	case kCuePoint:
		v, ok := x.(metaevent.CuePoint)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "CuePoint")
		verif.Assert("text", v.CuePoint == e.Text)
	case kProgramName:
		v, ok := x.(metaevent.ProgramName)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "ProgramName")
		verif.Assert("text", v.Name == e.Text)
	case kDeviceName:
		v, ok := x.(metaevent.DeviceName)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "DeviceName")
		verif.Assert("text", v.Name == e.Text)
	case kChannelPrefix:
		v, ok := x.(metaevent.MIDIChannelPrefix)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "MIDIChannelPrefix")
		verif.Assert("channel", v.Channel == e.A)
	case kPort:
		v, ok := x.(metaevent.MIDIPort)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "MIDIPort")
		verif.Assert("port", v.Port == e.A)
	case kEndOfTrack:
		v, ok := x.(metaevent.EndOfTrack)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "EndOfTrack")
	case kTempo:
		v, ok := x.(metaevent.Tempo)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "Tempo")
		verif.Assert("tempo", v.Tempo == e.N)
	case kSMPTEOffset:
		v, ok := x.(metaevent.SMPTEOffset)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "SMPTEOffset")
		verif.Assert("frame-rate", v.FrameRate == rates[e.F[0]])
		verif.Assert("hour", v.Hour == e.F[1])
		verif.Assert("minute", v.Minute == e.F[2])
		verif.Assert("second", v.Second == e.F[3])
		verif.Assert("frames", v.Frames == e.F[4])
		verif.Assert("fractional-frames", v.FractionalFrames == e.F[5])
	case kTimeSignature:
		v, ok := x.(metaevent.TimeSignature)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "TimeSignature")
		verif.Assert("numerator", v.Numerator == e.F[0])
		verif.Assert("denominator", v.Denominator == 1<<e.F[1])
		verif.Assert("ticks-per-click", v.TicksPerClick == e.F[2])
		verif.Assert("thirty-seconds-per-quarter", v.ThirtySecondsPerQuarter == e.F[3])
	case kKeySignature:
		v, ok := x.(metaevent.KeySignature)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "KeySignature")
		verif.Assert("accidentals", v.Accidentals == int8(e.A))
		verif.Assert("mode", byte(v.KeyType) == e.B)
		verif.Assert("key", v.Key == keyName(int(int8(e.A)), e.B))
	case kSequencerSpecific:
		v, ok := x.(metaevent.SequencerSpecificEvent)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "SequencerSpecificEvent")
		verif.Assert("manufacturer", verif.EqBytes(v.Manufacturer.ID, e.ID))
		verif.Assert("data", verif.EqBytes(v.Data, e.Data))
	case kSysEx:
		v, ok := x.(sysex.SysExMessage)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "SysExMessage")
		verif.Assert("manufacturer", verif.EqBytes(v.Manufacturer.ID, e.ID))
		verif.Assert("data", verif.EqBytes(v.Data, e.Data))
		verif.Assert("single", v.Single == e.End)
	case kContinuation:
		v, ok := x.(sysex.SysExContinuationMessage)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "SysExContinuation")
		verif.Assert("data", verif.EqBytes(v.Data, e.Data))
		verif.Assert("end", v.End == e.End)
	case kEscape:
		v, ok := x.(sysex.SysExEscapeMessage)
		assertKind(ok)
		verif.Assert("tag", v.Tag() == "SysExEscape")
		verif.Assert("data", verif.EqBytes(v.Data, e.Data))
	}
}

// keyName: the key with that many sharps (flats if negative), from the circle of fifths.
func keyName(acc int, mode uint8) string {
	major := []string{"C♭", "G♭", "D♭", "A♭", "E♭", "B♭", "F", "C", "G", "D", "A", "E", "B", "F♯", "C♯"}
	minor := []string{"A♭", "E♭", "B♭", "F", "C", "G", "D", "A", "E", "B", "F♯", "C♯", "G♯", "D♯", "A♯"}
	if acc < -7 || acc > 7 {
		return "?"
	}
	if mode == 0 {
		return major[acc+7] + " major"
	}
	return minor[acc+7] + " minor"
}

// ---- generators ----

// gen makes an arbitrary event of the kind; text and data content is given by the options.
type genOpt struct {
	maxDelta uint32 // 0: all 32-bit values
	textLen  int    // <0: any length
	lo, hi   uint8  // range of the text bytes (0,0: all)
	dataLen  int    // <0: any length
	ids      int    // manufacturer ids: 0 one, 1 a few, 2 all
	simple   bool   // few values of the enumerated fields
}

var anyLen = genOpt{textLen: -1, dataLen: -1, ids: 1}

func (o genOpt) delta(p string) uint32 {
	if o.maxDelta == 0 {
		return verif.U32(p + "delta")
	}
	return verif.U32R(p+"delta", 0, o.maxDelta)
}

func (o genOpt) bytes(n string, k int, lo, hi uint8) []byte {
	if lo == 0 && hi == 0 {
		hi = 255
	}
	if k < 0 {
		return verif.BytesR(n, lo, hi)
	}
	return verif.BytesNR(n, k, lo, hi)
}

func gen(p string, kind int, o genOpt) Ev {
	e := Ev{Kind: kind, Delta: o.delta(p)}
	if isChannel(kind) {
		e.Ch = verif.U8R(p+"channel", 0, 15)
	}
	switch kind {
	case kNoteOff, kNoteOn, kController:
		e.A = verif.U8R(p+"a", 0, 127)
		e.B = verif.U8R(p+"b", 0, 127)
		if o.simple && kind != kController {
			verif.Assume(e.A == 61) // the names of all notes: C03, C16
		} else if o.simple {
			verif.Assume(e.A == 0x00 || e.A == 0x20 || e.A == 0x07) // the names of all controllers: C03, C22
		}
	case kProgramChange, kChannelPressure, kPort:
		e.A = verif.U8R(p+"a", 0, 127)
	case kPitchBend:
		e.N = verif.U32R(p+"bend", 0, 0x3fff)
	case kSequenceNumber:
		e.N = verif.U32R(p+"sequence", 0, 0xffff)
	case kChannelPrefix:
		e.A = verif.U8R(p+"a", 0, 15)
	case kTempo:
		e.N = verif.U32R(p+"tempo", 0, 0xffffff)
	case kSMPTEOffset:
		r := 2
		if !o.simple {
			r = verif.Choose(p+"rate", 4)
		}
		e.F[0] = uint8(r)
		e.F[1] = verif.U8R(p+"hour", 0, 24)
		e.F[2] = verif.U8R(p+"minute", 0, 59)
		e.F[3] = verif.U8R(p+"second", 0, 59)
		e.F[4] = verif.U8R(p+"frames", 0, rates[r]-1)
		e.F[5] = verif.U8R(p+"fractions", 0, 100)
	case kTimeSignature:
		e.F[0] = verif.U8(p + "numerator")
		e.F[1] = 3
		if !o.simple {
			e.F[1] = uint8(verif.Choose(p+"denominator", 8))
		}
		e.F[2] = verif.U8(p + "ticks")
		e.F[3] = verif.U8(p + "thirtyseconds")
	case kKeySignature:
		if o.simple {
			e.A = uint8(5*verif.Choose(p+"accidentals", 2) - 3)
			e.B = 1
		} else {
			e.A = uint8(verif.Choose(p+"accidentals", 15) - 7)
			e.B = uint8(verif.Choose(p+"mode", 2))
		}
	case kSequencerSpecific, kSysEx:
		e.ID = genID(p, o.ids)
		e.Data = o.bytes(p+"data", o.dataLen, 0, 0)
		if kind == kSysEx {
			e.End = verif.Choose(p+"end", 2) == 1
			if !e.End && len(e.Data) > 0 {
				verif.Assume(e.Data[len(e.Data)-1] != 0xf7)
			}
		}
	case kContinuation:
		e.Data = o.bytes(p+"data", o.dataLen, 0, 0)
		e.End = verif.Choose(p+"end", 2) == 1
		if !e.End && len(e.Data) > 0 {
			verif.Assume(e.Data[len(e.Data)-1] != 0xf7)
		}
	case kEscape:
		e.Data = o.bytes(p+"data", o.dataLen, 0, 0)
	}
	if isText(kind) {
		e.Text = string(o.bytes(p+"text", o.textLen, o.lo, o.hi))
	}
	return e
}

// genID: a manufacturer identification: one byte 1..127, or 00 and two data bytes.
func genID(p string, ids int) []byte {
	switch ids {
	case 0:
		return []byte{0x41}
	case 1:
		return [][]byte{{0x41}, {0x6f}, {0x00, 0x20, 0x29}}[verif.Choose(p+"id", 3)]
	}
	if verif.Choose(p+"id-length", 2) == 1 {
		return []byte{0x00, verif.U8R(p+"id1", 0, 127), verif.U8R(p+"id2", 0, 127)}
	}
	return []byte{verif.U8R(p+"id", 1, 127)}
}

// ---- files and tracks ----

func u16be(v uint16) []byte { return []byte{byte(v >> 8), byte(v)} }
func u32be(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

func chunk(tag string, data []byte) []byte {
	return cat([]byte(tag), u32be(uint32(len(data))), data)
}

func mthd(format, tracks, division uint16) []byte {
	return chunk("MThd", cat(u16be(format), u16be(tracks), u16be(division)))
}

func track(evs ...Ev) []byte {
	b := []byte{}
	for _, e := range evs {
		b = append(b, e.bytes()...)
	}
	return chunk("MTrk", b)
}

func eot(delta uint32) Ev { return Ev{Kind: kEndOfTrack, Delta: delta} }

func decode(b []byte) (*midi.SMF, error) {
	return midifile.NewDecoder().Decode(bytes.NewReader(b))
}

func encode(smf midi.SMF) ([]byte, error) {
	var b bytes.Buffer
	err := midifile.NewEncoder(&b).Encode(smf)
	return b.Bytes(), err
}

func decodeTrack(b []byte, ctx *context.Context) (midi.MTrk, error) {
	t := midi.MTrk{Context: ctx}
	err := t.UnmarshalBinary(b)
	return t, err
}

func marshal(x any) ([]byte, error) {
	m, ok := x.(encoding.BinaryMarshaler)
	verif.Assert("binary-marshaler", ok)
	return m.MarshalBinary()
}

func manufacturer(id []byte) lib.Manufacturer { return lib.LookupManufacturer(id) }

// The format and the division are of no consequence for what is in the tracks.
func anyFormat() uint16   { return verif.U16R("format", 0, 2) }
func anyDivision() uint16 { return verif.U16R("division", 1, 0x7fff) }

func anyHeader(tracks uint16) []byte { return mthd(anyFormat(), tracks, anyDivision()) }
