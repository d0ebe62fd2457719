package props

import (
	"github.com/transcriptaze/midiasm/midi/events"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
	"github.com/transcriptaze/midiasm/midi/lib"
)

func note(n uint8) midievent.Note {
	return midievent.Note{Value: n, Name: midievent.FormatNote(nil, n), Alias: midievent.FormatNote(nil, n)}
}

// construct makes the repository's event for e with its own constructor.
func construct(e Ev) any { return constructAt(0, e) }

func constructAt(tick uint64, e Ev) events.IEvent {
	c := lib.Channel(e.Ch)
	d := lib.Delta(e.Delta)
	switch e.Kind {
	case kNoteOff:
		return midievent.MakeNoteOff(tick, e.Delta, c, note(e.A), e.B)
	case kNoteOn:
		return midievent.MakeNoteOn(tick, e.Delta, c, note(e.A), e.B)
	case kController:
		return midievent.MakeController(tick, e.Delta, c, lib.LookupController(e.A), e.B)
	case kProgramChange:
		return midievent.MakeProgramChange(tick, e.Delta, c, 0, e.A)
	case kChannelPressure:
		return midievent.MakeChannelPressure(tick, e.Delta, c, e.A)
	case kPitchBend:
		return midievent.MakePitchBend(tick, e.Delta, c, uint16(e.N))
	case kSequenceNumber:
		return metaevent.MakeSequenceNumber(tick, d, uint16(e.N))
	case kText:
		return metaevent.MakeText(tick, d, e.Text)
	case kCopyright:
		return metaevent.MakeCopyright(tick, d, e.Text)
	case kTrackName:
		return metaevent.MakeTrackName(tick, d, e.Text)
	case kInstrumentName:
		return metaevent.MakeInstrumentName(tick, d, e.Text)
	case kLyric:
		return metaevent.MakeLyric(tick, d, e.Text)
	case kMarker:
		return metaevent.MakeMarker(tick, d, e.Text)
	case kCuePoint:
		return metaevent.MakeCuePoint(tick, d, e.Text)
	case kProgramName:
		return metaevent.MakeProgramName(tick, d, e.Text)
	case kDeviceName:
		return metaevent.MakeDeviceName(tick, d, e.Text)
	case kChannelPrefix:
		return metaevent.MakeMIDIChannelPrefix(tick, d, e.A)
	case kPort:
		return metaevent.MakeMIDIPort(tick, d, e.A)
	case kEndOfTrack:
		return metaevent.MakeEndOfTrack(tick, d)
	case kTempo:
		return metaevent.MakeTempo(tick, d, e.N)
	case kSMPTEOffset:
		return metaevent.MakeSMPTEOffset(tick, d, e.F[1], e.F[2], e.F[3], rates[e.F[0]], e.F[4], e.F[5])
	case kTimeSignature:
		return metaevent.MakeTimeSignature(tick, d, e.F[0], 1<<e.F[1], e.F[2], e.F[3])
	case kKeySignature:
		return metaevent.MakeKeySignature(tick, d, int8(e.A), lib.KeyType(e.B))
	case kSequencerSpecific:
		return metaevent.MakeSequencerSpecificEvent(tick, d, manufacturer(e.ID), e.Data)
	case kSysEx:
		if e.End {
			return sysex.MakeSysExSingleMessage(tick, e.Delta, manufacturer(e.ID), e.Data)
		}
		return sysex.MakeSysExMessage(tick, e.Delta, manufacturer(e.ID), e.Data)
	case kContinuation:
		if e.End {
			return sysex.MakeSysExContinuationEndMessage(tick, e.Delta, e.Data)
		}
		return sysex.MakeSysExContinuationMessage(tick, e.Delta, e.Data)
	case kEscape:
		return sysex.MakeSysExEscapeMessage(tick, e.Delta, e.Data)
	}
	return nil
}
