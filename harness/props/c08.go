package props

import (
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/context"
	"github.com/transcriptaze/midiasm/midi/events"
	metaevent "github.com/transcriptaze/midiasm/midi/events/meta"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
	"github.com/transcriptaze/midiasm/midi/lib"

	"verif/verif"
)

// noPanic is discharged by the engine for every instruction; here the results have to be consistent.
func wellFormedTrack(t midi.MTrk, err error) {
	if err != nil {
		return
	}
	for _, e := range t.Events {
		verif.Assert("event-present", e != nil && e.Event != nil)
	}
}

// A file of arbitrary bytes of any length.
// The tracks are taken by contract (C08_Track): decoded or refused, with any result.
func C08_File() {
	useLookups()
	useTracks()
	verif.UnrollIn("decoder).Decode", 3)
	b := verif.Bytes("file")
	smf, err := decode(b)
	verif.Assert("result-or-error", (err == nil) == (smf != nil))
}

// A file with a proper header and one chunk of arbitrary bytes.
func C08_Chunk() {
	useLookups()
	useTracks()
	verif.UnrollIn("decoder).Decode", 3)
	n := verif.U32("length")
	data := verif.Bytes("data")
	tag := verif.BytesN("tag", 4)
	smf, err := decode(cat(mthd(0, 1, 480), tag, u32be(n), data))
	verif.Assert("result-or-error", (err == nil) == (smf != nil))
	verif.Assert("overrun", err != nil || uint64(n) <= uint64(len(data)))
}

// A header chunk of arbitrary bytes.
func C08_MThd() {
	b := verif.Bytes("chunk")
	var h midi.MThd
	err := h.UnmarshalBinary(b)
	verif.Assert("short", len(b) >= 14 || err != nil)
}

// A track of arbitrary bytes, any length, from an arbitrary state: one step of the event loop, after
// which the state is again one of these.
func C08_Track() {
	useLookups()
	useParsers()
	verif.UnrollIn("MTrk).UnmarshalBinary", 0)
	ctx := context.NewContext()
	ctx.RunningStatus = verif.U8("running-status")
	ctx.Casio = verif.Choose("open", 2) == 1
	t, err := decodeTrack(cat([]byte("MTrk"), verif.BytesN("length", 4), verif.Bytes("data")), ctx)
	wellFormedTrack(t, err)
}

// A track of up to 6 arbitrary bytes: every path through the event parser.
func C08_ShortTrack() {
	useLookups()
	ctx := context.NewContext()
	ctx.RunningStatus = verif.U8("running-status")
	ctx.Casio = verif.Choose("open", 2) == 1
	n := verif.Choose("n", 7)
	t, err := decodeTrack(chunk("MTrk", verif.BytesN("data", n)), ctx)
	wellFormedTrack(t, err)
}

// Short chunks.
func C08_ShortChunk() {
	n := verif.Choose("n", 9)
	b := verif.BytesN("chunk", n)
	_, err := decodeTrack(b, context.NewContext())
	verif.Assert("short", n >= 8 || err != nil)
}

// A single event of arbitrary bytes.
func C08_Event() {
	useLookups()
	b := verif.Bytes("event")
	var e events.Event
	err := e.UnmarshalBinary(b)
	verif.Assert("result", err != nil || e.Event != nil)
}

func C08_MetaParse() {
	useLookups()
	x, err := metaevent.Parse(verif.U64("tick"), verif.Bytes("event")...)
	verif.Assert("result-or-error", (err == nil) == (x != nil))
}

func C08_MidiParse() {
	useLookups()
	x, err := midievent.Parse(verif.U64("tick"), verif.U8("running-status"), verif.Bytes("event")...)
	verif.Assert("result-or-error", (err == nil) == (x != nil))
}

func C08_SysExParse() {
	useLookups()
	x, err := sysex.Parse(verif.U64("tick"), verif.Choose("open", 2) == 1, verif.Bytes("event")...)
	verif.Assert("result-or-error", (err == nil) == (x != nil))
}

// An event whose declared length runs past its data is an error for every kind that has a length.
func C08_Overrun() {
	n := verif.U32R("length", 0, 1<<28-1)
	data := verif.Bytes("data")
	verif.Assume(uint64(n) > uint64(len(data)))
	k := verif.Choose("status", 3)
	status := []byte{0xff, 0xf0, 0xf7}[k]
	b := []byte{0x00, status}
	if k == 0 {
		b = append(b, verif.U8("type"))
	}
	b = cat(b, refVLQ(n), data)
	ctx := context.NewContext()
	ctx.Casio = k == 2 && verif.Choose("open", 2) == 1
	_, err := decodeTrack(chunk("MTrk", b), ctx)
	verif.Assert("track", err != nil)
	var e events.Event
	verif.Assert("event", e.UnmarshalBinary(b) != nil)
	if k == 0 {
		_, err = metaevent.Parse(0, b...)
	} else {
		_, err = sysex.Parse(0, ctx.Casio, b...)
	}
	verif.Assert("parse", err != nil)
}

// A channel event without all its data bytes is an error.
func C08_MissingData() {
	s := verif.U8R("status", 0x80, 0xef)
	two := s&0xf0 != 0xc0 && s&0xf0 != 0xd0 && s&0xf0 != 0xa0
	n := 0
	if two {
		n = verif.Choose("n", 2)
	}
	b := cat([]byte{0x00, s}, verif.BytesN("data", n))
	_, err := decodeTrack(chunk("MTrk", b), context.NewContext())
	verif.Assert("track", err != nil)
	var e events.Event
	verif.Assert("event", e.UnmarshalBinary(b) != nil)
	_, err = midievent.Parse(0, 0, b...)
	verif.Assert("parse", err != nil)
}

// The contracts of the lookups: for every argument they return.
func C08_LookupID() { lib.LookupManufacturer(verif.Bytes("id")) }

func C08_LookupController() {
	id := verif.U8("controller")
	verif.Assert("contract:id", lib.LookupController(id).ID == id)
}

func C08_LookupScale() {
	a := int8(verif.U8("accidentals"))
	_, ok := lib.MajorScale(a)
	verif.Assert("contract:major", ok == (a >= -7 && a <= 7))
	_, ok = lib.MinorScale(a)
	verif.Assert("contract:minor", ok == (a >= -7 && a <= 7))
}

func C08_FormatNote() {
	n := verif.U8("note")
	midievent.FormatNote(nil, n)
	ctx := context.NewContext()
	switch verif.Choose("scale", 3) {
	case 1:
		ctx.UseSharps()
	case 2:
		ctx.UseFlats()
	}
	if verif.Choose("middle-c", 2) == 1 {
		context.SetMiddleC(lib.C4)
		defer context.SetMiddleC(lib.C3)
	}
	ctx.FormatNote(n)
	midievent.FormatNote(ctx, n)
}
