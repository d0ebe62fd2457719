package props

import (
	"errors"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/context"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
	"github.com/transcriptaze/midiasm/midi/lib"

	"verif/verif"
)

// Contracts of the table lookups: they return, with any content (proved by C08_Lookups).

func specManufacturer(id []byte) lib.Manufacturer {
	return lib.Manufacturer{ID: verif.AnyBytes(), Region: verif.AnyString(), Name: verif.AnyString()}
}

func specController(id byte) lib.Controller {
	return lib.Controller{ID: id, Name: verif.AnyString()}
}

func specFormatNote(ctx *context.Context, n byte) string { return verif.AnyString() }

func specScale(accidentals int8) (lib.Scale, bool) {
	return lib.Scale{Name: verif.AnyString(), Accidentals: accidentals}, accidentals >= -7 && accidentals <= 7
}

// specTrack: a track is refused, or it holds events (proved by C08_Track and C08_ShortTrack).
func specTrack(t *midi.MTrk, data []byte) error {
	if len(data) < 8 || verif.AnyBool() {
		return errSpec
	}
	t.Tag = "MTrk"
	t.Length = verif.AnyU32()
	t.Bytes = data
	return nil
}

var errSpec = errors.New("contract: refused")

func useTracks() { verif.Use((*midi.MTrk).UnmarshalBinary, specTrack) }

// specMeta, specSysEx: an event is refused or decoded (proved by C08_MetaParse, C08_SysExParse, for any bytes).
func specMeta(tick uint64, data ...byte) (any, error) {
	if verif.AnyBool() {
		return nil, errSpec
	}
	if verif.AnyBool() {
		return metaevent.KeySignature{Accidentals: int8(verif.AnyU8()), Key: verif.AnyString()}, nil
	}
	return metaevent.Text{Text: verif.AnyString()}, nil
}

func specSysEx(tick uint64, open bool, data ...byte) (any, error) {
	if verif.AnyBool() {
		return nil, errSpec
	}
	return sysex.SysExEscapeMessage{Data: verif.AnyBytes()}, nil
}

func useParsers() {
	verif.Use(metaevent.Parse, specMeta)
	verif.Use(sysex.Parse, specSysEx)
}

func useLookups() {
	verif.HavocAfter(3)
	verif.Use(lib.MajorScale, specScale)
	verif.Use(lib.MinorScale, specScale)
	verif.Use(lib.LookupManufacturer, specManufacturer)
	verif.Use(lib.LookupController, specController)
	verif.Use(midievent.FormatNote, specFormatNote)
	verif.Use((*context.Context).FormatNote, specFormatNote)
}
