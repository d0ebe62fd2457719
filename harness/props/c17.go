package props

import (
	"bytes"
	"encoding/json"
	"time"

	"github.com/transcriptaze/midiasm/log"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/ops/notes"

	"verif/verif"
)

// sNote: a note according to the specification.
type sNote struct {
	ch, pitch, velocity uint8
	start, end          uint64 // ticks
}

// specNotes: a note-on that is not already sounding starts a note; the next note-off, or note-on with
// velocity 0, of the same channel and pitch, or the end of the track, ends it.
func specNotes(evs []Ev) []sNote {
	out := []sNote{}
	open := []sNote{}
	tick := uint64(0)
	for _, e := range evs {
		tick += uint64(e.Delta)
		switch {
		case e.Kind == kNoteOn && e.B > 0:
			sounding := false
			for _, n := range open {
				if n.ch == e.Ch && n.pitch == e.A {
					sounding = true
				}
			}
			if !sounding {
				open = append(open, sNote{e.Ch, e.A, e.B, tick, 0})
			}
		case e.Kind == kNoteOff || e.Kind == kNoteOn:
			rest := []sNote{}
			for _, n := range open {
				if n.ch == e.Ch && n.pitch == e.A {
					n.end = tick
					out = append(out, n)
				} else {
					rest = append(rest, n)
				}
			}
			open = rest
		case e.Kind == kEndOfTrack:
			for _, n := range open {
				n.end = tick
				out = append(out, n)
			}
			open = nil
		}
	}
	return out
}

// specTime: nanoseconds from the start to the tick, by the tempo map (µs per quarter note).
func specTime(tick uint64, tempi []Ev, ppqn uint64) uint64 {
	total, at, last, tempo := uint64(0), uint64(0), uint64(0), uint64(500000)
	for _, e := range tempi {
		at += uint64(e.Delta)
		if e.Kind != kTempo {
			continue
		}
		if at >= tick {
			break
		}
		total += 1000 * (at - last) * tempo
		last, tempo = at, uint64(e.N)
	}
	total += 1000 * (tick - last) * tempo
	return total / ppqn
}

func near(d time.Duration, ns uint64) bool {
	return int64(d)-int64(ns) <= 1000000 && int64(ns)-int64(d) <= 1000000
}

func quietLog() { log.SetLogLevel(log.None) }

type jNote struct {
	Channel  uint8   `json:"channel"`
	MidiNote uint8   `json:"midi-note"`
	Note     string  `json:"note"`
	Velocity uint8   `json:"velocity"`
	Start    float64 `json:"start"`
	End      float64 `json:"end"`
	Duration float64 `json:"duration"`
}

func notesJSON(smf *midi.SMF, transpose int) ([]jNote, error) {
	quietLog()
	var b bytes.Buffer
	op := notes.Notes{JSON: true, Transpose: transpose, Writer: &b}
	if err := op.Execute(smf); err != nil {
		return nil, err
	}
	n, err := parseNotes(b.Bytes())
	verif.Assert("json", err == nil)
	return n, nil
}

func parseNotes(b []byte) ([]jNote, error) {
	v := struct {
		Notes []jNote `json:"notes"`
	}{}
	err := json.Unmarshal(b, &v)
	return v.Notes, err
}

func within(a, b float64) bool { return a-b < 0.0011 && b-a < 0.0011 }

// The printed notes: concrete times, any channel, pitch and velocity.
func C17_Output() {
	d := []uint32{0, 480, 123457}
	on := Ev{Kind: kNoteOn, Delta: d[verif.Choose("d1", 3)], Ch: verif.U8R("channel", 0, 15), A: 61, B: verif.U8R("velocity", 1, 127)}
	off := Ev{Kind: kNoteOff, Delta: d[verif.Choose("d2", 3)], Ch: on.Ch, A: on.A, B: 64}
	if verif.Choose("off", 2) == 1 {
		off.Kind, off.B = kNoteOn, 0
	}
	tempo := Ev{Kind: kTempo, Delta: d[verif.Choose("d0", 3)], N: []uint32{500000, 1000001}[verif.Choose("tempo", 2)]}
	t0, t1 := []Ev{tempo, eot(0)}, []Ev{on, off, eot(0)}
	smf := makeSMF(1, 480, makeTrack(0, t0...), makeTrack(1, t1...))
	x, err := notesJSON(&smf, 0)
	verif.Assert("extracts", err == nil)
	verif.Assert("one-note", len(x) == 1)
	n := specNotes(t1)[0]
	start, end := float64(specTime(n.start, t0, 480))/1e9, float64(specTime(n.end, t0, 480))/1e9
	verif.Assert("channel", x[0].Channel == n.ch)
	verif.Assert("pitch", x[0].MidiNote == n.pitch)
	verif.Assert("name", x[0].Note == "C♯4")
	verif.Assert("velocity", x[0].Velocity == n.velocity)
	verif.Assert("start", within(x[0].Start, start))
	verif.Assert("end", within(x[0].End, end))
	verif.Assert("duration", within(x[0].Duration, end-start))
}

// Twenty notes at the same ticks keep their pairs (sorting is stable for long tracks too).
func C17_Long() {
	quietLog()
	k := verif.Choose("notes", 3)*9 + 3
	evs := []Ev{}
	for i := 0; i < k; i++ {
		evs = append(evs, Ev{Kind: kNoteOn, Ch: 0, A: 60, B: uint8(1 + i)}, Ev{Kind: kNoteOff, Ch: 0, A: 60, B: 64})
	}
	evs = append(evs, eot(480))
	smf := makeSMF(0, 480, makeTrack(0, evs...))
	x, err := notesJSON(&smf, 0)
	verif.Assert("extracts", err == nil)
	verif.Assert("count", len(x) == k)
	for i := range x {
		verif.Assert("velocity", x[i].Velocity == uint8(1+i))
		verif.Assert("duration", x[i].Duration == 0)
	}
}

// A file without a metrical division is refused.
func C17_SMPTE() {
	h := midi.MThd{}
	verif.Assert("header", h.UnmarshalBinary(mthd(1, 1, 0xe728)) == nil)
	smf := midi.SMF{MThd: &h, Tracks: []*midi.MTrk{makeTrack(0, eot(0))}}
	_, err := notesJSON(&smf, 0)
	verif.Assert("refused", err != nil)
}

// No tracks, empty tracks: no notes.
func C17_Empty() {
	tracks := []*midi.MTrk{}
	n := verif.Choose("tracks", 3)
	for i := 0; i < n; i++ {
		if verif.Choose("eot", 2) == 1 {
			tracks = append(tracks, makeTrack(i, eot(0)))
		} else {
			tracks = append(tracks, makeTrack(i))
		}
	}
	smf := makeSMF(1, 480, tracks...)
	x, err := notesJSON(&smf, 0)
	verif.Assert("extracts", err == nil)
	verif.Assert("none", len(x) == 0)
}

// The notes in text: one line per note with all its values.
func C17_Text() {
	quietLog()
	d := []uint32{0, 480, 123457}
	on := Ev{Kind: kNoteOn, Delta: d[verif.Choose("d1", 3)], Ch: verif.U8R("channel", 0, 15), A: 61, B: verif.U8R("velocity", 1, 127)}
	off := Ev{Kind: kNoteOff, Delta: d[verif.Choose("d2", 3)], Ch: on.Ch, A: on.A, B: 64}
	k := verif.Choose("notes", 3)
	evs := []Ev{}
	want := ""
	tick := uint64(0)
	for i := 0; i < k; i++ {
		evs = append(evs, on, off)
		start := time.Duration(specTime(tick+uint64(on.Delta), nil, 480)).Round(time.Millisecond)
		tick += uint64(on.Delta) + uint64(off.Delta)
		end := time.Duration(specTime(tick, nil, 480)).Round(time.Millisecond)
		want += "C♯4  channel:" + pad(dec(uint64(on.Ch)), 2) + "  note:3D  velocity:" + pad(dec(uint64(on.B)), 3) + "  start:" + pad(start.String(), 9) + "  end:" + pad(end.String(), 9) + "  duration:" + (end - start).String() + "\n"
	}
	evs = append(evs, eot(0))
	smf := makeSMF(0, 480, makeTrack(0, evs...))
	var b bytes.Buffer
	op := notes.Notes{Writer: &b}
	verif.Assert("extracts", op.Execute(&smf) == nil)
	verif.Assert("lines", b.String() == want)
}
