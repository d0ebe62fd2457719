package props

import (
	"bytes"
	"strings"

	"github.com/transcriptaze/midiasm/commands"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/context"
	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/lib"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/export"
	"github.com/transcriptaze/midiasm/ops/notes"

	"verif/verif"
)

// Long histories: files with many events and tracks, beyond what the other harnesses cover symbolically.
// Sampled on the real code, never counted as proved; the oracles are those of the proved harnesses.

// words: text for long documents; each is text that the text format can express.
var words = []string{"x", "", "Acoustic Piano", "MTrk", "MThd format:0", "delta:480 90 NoteOn channel:1 note:C4, velocity:64", "EndOfTrack", "a  b", "ünïcödé ♯♭", "100%", "%s%d", "\"quoted\"", "back\\slash",
	"tempo:500000", "F0 SysExMessage", "a,b;c", "{\"event\":{}}", "<b>&amp;</b>", "2F EndOfTrack", "~!@#$%^&*()", "tab\tbed", "0123456789012345678901234567890123456789012345678901234567890123456789"}

func longText(p string) string {
	if verif.Choose(p+"word?", 3) == 0 {
		return words[verif.Choose(p+"word", len(words))]
	}
	return string(verif.BytesNR(p+"text", verif.IntR(p+"length", 0, 40), 0x21, 0x7e))
}

// history: n events of the kinds and the end of the track; SysEx messages are continued and ended properly.
func history(p string, n int, kinds []int) []Ev {
	evs := []Ev{}
	open := false
	for i := 0; i < n; i++ {
		q := p + dec(uint64(i)) + "."
		k := kinds[verif.Choose(q+"kind", len(kinds))]
		if k == kContinuation && !open {
			k = kSysEx
		}
		if open && (k == kSysEx || k == kEscape) {
			k = kContinuation
		}
		e := longEvent(q, k)
		switch k {
		case kSysEx, kContinuation:
			open = !e.End
		}
		evs = append(evs, e)
	}
	if open {
		evs = append(evs, Ev{Kind: kContinuation, Data: []byte{1}, End: true})
	}
	return append(evs, eot(uint32(verif.Choose(p+"eot", 200))))
}

var longIDs = [][]byte{{0x41}, {0x43}, {0x7e}, {0x00, 0x20, 0x29}, {0x00, 0x00, 0x0e}}

func longEvent(p string, k int) Ev {
	var e Ev
	switch {
	case isText(k):
		e = Ev{Kind: k, Delta: verif.U32R(p+"delta", 0, 0x0fffffff), Text: longText(p)}
	case k == kSysEx || k == kSequencerSpecific || k == kContinuation || k == kEscape:
		e = Ev{Kind: k, Delta: verif.U32R(p+"delta", 0, 0x0fffffff), Data: verif.BytesNR(p+"data", verif.IntR(p+"length", 0, 20), 0, 127)}
		if k == kSysEx || k == kSequencerSpecific {
			e.ID = longIDs[verif.Choose(p+"id", len(longIDs))]
		}
		if k == kContinuation && len(e.Data) == 0 {
			e.Data = []byte{1}
		}
		if k == kSysEx || k == kContinuation {
			e.End = verif.Choose(p+"end", 2) == 1
		}
	default:
		e = gen(p, k, genOpt{maxDelta: 0x0fffffff})
	}
	if verif.Choose(p+"small-delta", 3) > 0 {
		e.Delta %= 480
	}
	return e
}

func allKinds() []int {
	k := []int{}
	for i := 0; i < nKinds; i++ {
		if i != kEndOfTrack {
			k = append(k, i)
		}
	}
	return k
}

var bankKinds = []int{kController, kController, kProgramChange, kNoteOn, kKeySignature, kSysEx, kText}

func longTracks(p string, max, events int, kinds []int) [][]Ev {
	tracks := [][]Ev{}
	n := verif.IntR(p+"tracks", 1, max)
	for i := 0; i < n; i++ {
		q := p + "t" + dec(uint64(i)) + "."
		tracks = append(tracks, history(q, verif.IntR(q+"events", 0, events), kinds))
	}
	return tracks
}

// runningBytes: the events with status bytes left out wherever that is possible and chosen.
func runningBytes(p string, evs []Ev) []byte {
	b := []byte{}
	rs := byte(0)
	for i, e := range evs {
		b = append(b, trackBytes(p+dec(uint64(i))+".", e, rs)...)
		rs = statusAfter(e)
	}
	return b
}

func C05_LongTrack() {
	verif.Sample()
	evs := history("", verif.IntR("n", 0, 80), []int{kSysEx, kSysEx, kContinuation, kEscape, kNoteOn, kText, kSequencerSpecific})
	t, err := decodeTrack(track(evs...), context.NewContext())
	verif.Assert("decodes", err == nil)
	checkEvents(&t, evs...)
	for i, e := range evs {
		out, err := marshal(t.Events[i].Event)
		verif.Assert("encodes", err == nil)
		verif.Assert("same-bytes", verif.EqBytes(out, e.enc()))
	}
}

func C06_LongTrack() {
	verif.Sample()
	n := verif.IntR("n", 0, 200)
	kinds := allKinds()
	if verif.Choose("channel-events", 2) == 1 {
		kinds = kinds[:kPitchBend+1]
	}
	evs := history("", n, kinds)
	if verif.Choose("same-channel", 2) == 1 {
		for i := range evs {
			evs[i].Ch &= 1
		}
	}
	b := runningBytes("r", evs)
	t, err := decodeTrack(chunk("MTrk", b), context.NewContext())
	verif.Assert("decodes", err == nil)
	checkEvents(&t, evs...)
	all := []byte{}
	for _, e := range t.Events {
		all = append(all, e.Bytes()...)
	}
	verif.Assert("bytes", verif.EqBytes(all, b))
}

func C07_LongFile() {
	verif.Sample()
	tracks := longTracks("", 20, 60, allKinds())
	ts := []*midi.MTrk{}
	for i, evs := range tracks {
		ts = append(ts, makeTrack(i, evs...))
	}
	format := uint16(verif.Choose("format", 3))
	b, err := encode(makeSMF(format, 480, ts...))
	verif.Assert("encodes", err == nil)
	checkLayout(b, format, uint16(len(tracks)), 480)
	smf, err := decode(b)
	verif.Assert("decodes", err == nil)
	verif.Assert("tracks", len(smf.Tracks) == len(tracks))
	for i, evs := range tracks {
		checkEvents(smf.Tracks[i], evs...)
	}
	c, err := encode(*smf)
	verif.Assert("same-again", err == nil && verif.EqBytes(b, c))
}

// damage: bytes changed, removed, doubled or inserted.
func damage(p string, b []byte) []byte {
	b = append([]byte{}, b...)
	n := verif.IntR(p+"damages", 0, 4)
	for i := 0; i < n && len(b) > 0; i++ {
		q := p + dec(uint64(i)) + "."
		at := verif.IntR(q+"at", 0, len(b)-1)
		switch verif.Choose(q+"how", 6) {
		case 0:
			b[at] = verif.U8(q + "byte")
		case 1:
			b = append(b[:at], b[at+1:]...)
		case 2:
			b = append(b[:at], append([]byte{verif.U8(q + "byte")}, b[at:]...)...)
		case 3:
			b = b[:at]
		case 4:
			m := verif.IntR(q+"to", at, len(b))
			b = append(b[:m:m], b[at:]...)
		case 5:
			b[at] ^= 1 << uint(verif.Choose(q+"bit", 8))
		}
	}
	return b
}

// Damaged files: a result or an error, and a result can be encoded or refused.
func C08_Damaged() {
	verif.Sample()
	b := damage("", smfBytes(uint16(verif.Choose("format", 3)), longTracks("", 4, 20, allKinds())...))
	smf, err := decode(b)
	verif.Assert("result-or-error", (err == nil) == (smf != nil))
	if err != nil {
		return
	}
	for _, t := range smf.Tracks {
		wellFormedTrack(*t, nil)
	}
	smf.Validate()
	d, err := disassemble.NewDisassemble()
	verif.Assert("template", err == nil)
	var w bytes.Buffer
	d.Print(smf, "document", &w)
}

// Track chunks among many unknown chunks.
func C09_LongFile() {
	verif.Sample()
	n := verif.IntR("tracks", 0, 40)
	if verif.Choose("many", 20) == 0 {
		n = verif.IntR("many-tracks", 250, 300)
	}
	b := []byte{}
	for i := 0; i < n; i++ {
		q := dec(uint64(i)) + "."
		for verif.Choose(q+"alien", 3) == 0 {
			tag := [][]byte{[]byte("XFIH"), []byte("MTrK"), []byte("mtrk"), {0, 0, 0, 0}, []byte("MThd"), []byte("MTr\x00"), {0xff, 0xff, 0xff, 0xff}}[verif.Choose(q+"tag", 7)]
			d := verif.BytesN(q+"data", verif.IntR(q+"length", 0, 300))
			b = cat(b, tag, u32be(uint32(len(d))), d)
		}
		b = cat(b, track(Ev{Kind: kPort, Delta: uint32(i), A: uint8(i & 127)}, eot(uint32(i))))
	}
	smf, err := decode(cat(mthd(1, uint16(n), 480), b))
	verif.Assert("decodes", err == nil)
	verif.Assert("tracks", len(smf.Tracks) == n)
	for i, t := range smf.Tracks {
		verif.Assert("track-number", int(t.TrackNumber) == i)
		checkEvents(t, Ev{Kind: kPort, Delta: uint32(i), A: uint8(i & 127)}, eot(uint32(i)))
	}
	_, err = decode(cat(mthd(1, uint16(n+1), 480), b))
	verif.Assert("count", err != nil)
}

// Long documents, text and JSON.
func C12_LongFile() {
	verif.Sample()
	tracks := longTracks("", 6, 40, allKinds())
	roundTripFile(verif.Choose("json", 2) == 1, uint16(verif.Choose("format", 3)), verif.U16R("division", 1, 0x7fff), tracks...)
}

// Damaged documents.
func C13_Damaged() {
	verif.Sample()
	tracks := longTracks("", 3, 8, allKinds())
	smf, err := decode(smfBytes(1, tracks...))
	verif.Assert("input", err == nil)
	var b bytes.Buffer
	j := verif.Choose("json", 2) == 1
	if j {
		x, _ := export.NewExport()
		verif.Assert("exports", x.Export(smf, &b) == nil)
	} else {
		d, _ := disassemble.NewDisassemble()
		verif.Assert("prints", d.Print(smf, "document", &b) == nil)
	}
	doc := string(damage("", b.Bytes()))
	// a number somewhere in the document becomes another
	if verif.Choose("number", 2) == 1 {
		digits := []int{}
		for i := 0; i < len(doc); i++ {
			if doc[i] >= '0' && doc[i] <= '9' {
				digits = append(digits, i)
			}
		}
		if len(digits) > 0 {
			at := digits[verif.IntR("digit", 0, len(digits)-1)]
			v := []string{"-1", "128", "256", "65536", "4294967296", "18446744073709551616", "1e3", "16", "300", "0x10", "99999"}[verif.Choose("value", 11)]
			doc = doc[:at] + v + doc[at+1:]
		}
	}
	assembled(j, doc)
}

// Documents whose every line is of one kind: nothing is dropped in the middle or at the end.
func C12_ManyLines() {
	verif.Sample()
	n := verif.IntR("n", 0, 300)
	evs := []Ev{}
	for i := 0; i < n; i++ {
		evs = append(evs, Ev{Kind: kNoteOn, Delta: uint32(i), Ch: uint8(i & 15), A: uint8(i & 127), B: uint8(i*7) & 127})
	}
	roundTripFile(verif.Choose("json", 2) == 1, 0, 96, append(evs, eot(1)))
}

// Transposition of long files.
func C14_LongFile() {
	verif.Sample()
	kinds := []int{}
	for _, k := range allKinds() {
		if k != kKeySignature {
			kinds = append(kinds, k)
		}
	}
	tracks := longTracks("", 8, 50, kinds)
	steps := verif.IntR("steps", -130, 130)
	smf, err := decode(transposed(smfBytes(1, tracks...), steps))
	verif.Assert("decodes-again", err == nil && len(smf.Tracks) == len(tracks))
	for i, evs := range tracks {
		want := []Ev{}
		for _, e := range evs {
			want = append(want, e.transposed(steps))
		}
		checkEvents(smf.Tracks[i], want...)
	}
}

// Names in long tracks: the key in force at a note-on, kept until its note-off.
func C16_LongTrack() {
	verif.Sample()
	c4 := setMiddleC()
	defer context.SetMiddleC(lib.C3)
	evs := history("", verif.IntR("n", 0, 120), []int{kNoteOn, kNoteOn, kNoteOff, kNoteOff, kKeySignature, kController, kText, kSysEx})
	for i := range evs {
		if evs[i].Kind <= kNoteOn {
			if verif.Choose("few", 2) == 1 {
				evs[i].A = 60 + evs[i].A%4
				evs[i].Ch %= 3
			}
			if evs[i].Kind == kNoteOn && evs[i].B == 0 {
				evs[i].B = 1 // a note-on with velocity 0 also ends a note: C17
			}
		}
	}
	t, err := decodeTrack(track(evs...), context.NewContext())
	verif.Assert("decodes", err == nil && len(t.Events) == len(evs))
	flat := false
	names := map[[2]uint8]string{}
	for i, e := range evs {
		k := [2]uint8{e.Ch, e.A}
		switch e.Kind {
		case kKeySignature:
			flat = int8(e.A) < 0
		case kNoteOn:
			x, ok := t.Events[i].Event.(midievent.NoteOn)
			verif.Assert("on", ok && x.Note.Name == noteName(e.A, flat, c4) && x.Note.Alias == noteName(e.A, flat, c4) && x.Note.Value == e.A)
			names[k] = x.Note.Name
		case kNoteOff:
			x, ok := t.Events[i].Event.(midievent.NoteOff)
			verif.Assert("off", ok && x.Note.Value == e.A && x.Note.Alias == noteName(e.A, flat, c4))
			if s, ok := names[k]; ok {
				verif.Assert("off-name", x.Note.Name == s)
			} else {
				verif.Assert("off-name-unpaired", x.Note.Name == noteName(e.A, false, c4) || x.Note.Name == noteName(e.A, true, c4))
			}
			delete(names, k)
		}
	}
}

func longNotes(p string, max int) []Ev {
	if verif.Choose(p+"big", 4) == 0 {
		max *= 8
	}
	evs := history(p, verif.IntR(p+"n", 0, max), []int{kNoteOn, kNoteOn, kNoteOff, kNoteOff, kNoteOn, kController, kText, kProgramChange, kSysEx})
	few := verif.Choose(p+"few", 3)
	for i := range evs {
		evs[i].Delta %= 2000
		if evs[i].Kind <= kNoteOn {
			switch few {
			case 0:
				evs[i].A %= 3
				evs[i].Ch %= 2
			case 1:
				evs[i].A = 60 + evs[i].A%24
				evs[i].Ch %= 4
			}
		}
	}
	return evs
}

// Notes of long tracks: many sounding at once, over many tempo changes.
func C17_LongTracks() {
	verif.Sample()
	quietLog()
	q := []uint16{24, 96, 480, 960, 1, 0x7fff}[verif.Choose("ppqn", 6)]
	t0 := []Ev{}
	n := verif.IntR("tempi", 0, 20)
	for i := 0; i < n; i++ {
		p := "tempo" + dec(uint64(i)) + "."
		t0 = append(t0, Ev{Kind: kTempo, Delta: verif.U32R(p+"delta", 0, 5000), N: verif.U32R(p+"tempo", 1, 2000000)})
	}
	t0 = append(t0, eot(0))
	tracks := [][]Ev{t0}
	k := verif.IntR("tracks", 1, 3)
	want := []sNote{}
	for i := 0; i < k; i++ {
		t := longNotes("t"+dec(uint64(i))+".", 60)
		tracks = append(tracks, t)
		want = append(want, specNotes(t)...)
	}
	smf, err := decode(smfBytes2(1, q, tracks...))
	verif.Assert("decodes", err == nil)
	x, err := notes.VerifExtract(smf, 0)
	verif.Assert("extracts", err == nil)
	checkNotes(x, want, t0, uint64(q))
	// and all of them in the output, in any order
	y, err := notesJSON(smf, 0)
	verif.Assert("json", err == nil && len(y) == len(want))
	used := make([]bool, len(y))
	for _, n := range x {
		found := false
		for i := range y {
			if !used[i] && y[i].Channel == uint8(n.Channel) && y[i].MidiNote == n.Note && y[i].Velocity == n.Velocity && within(y[i].Start, n.Start.Seconds()) && within(y[i].End, n.End.Seconds()) {
				used[i], found = true, true
				break
			}
		}
		verif.Assert("in-output", found)
	}
}

func smfBytes2(format, division uint16, tracks ...[]Ev) []byte {
	b := mthd(format, uint16(len(tracks)), division)
	for _, t := range tracks {
		b = append(b, track(t...)...)
	}
	return b
}

// Validation of long files.
func C18_LongFile() {
	verif.Sample()
	f := verif.Choose("format", 3)
	kinds := allKinds()
	if verif.Choose("valid", 2) == 1 {
		kinds = []int{kNoteOn, kController, kText, kNoteOff}
	}
	tracks := longTracks("", 5, 40, kinds)
	for i := range tracks {
		for j := range tracks[i] {
			e := &tracks[i][j]
			p := dec(uint64(i)) + "." + dec(uint64(j)) + "."
			if e.Kind == kController {
				e.A = []uint8{0x00, 0x20, 0x07}[verif.Choose(p+"controller", 3)]
				e.Ch &= 1
			}
		}
		if verif.Choose("no-eot", 4) == 0 {
			tracks[i] = tracks[i][:len(tracks[i])-1]
		} else if verif.Choose("inner-eot", 4) == 0 {
			at := verif.IntR("eot-at", 0, len(tracks[i]))
			tracks[i] = append(tracks[i][:at:at], append([]Ev{eot(3)}, tracks[i][at:]...)...)
		}
	}
	if f == 1 && verif.Choose("conductor", 2) == 1 {
		tracks[0] = []Ev{{Kind: kTempo, N: 1}, {Kind: kTrackName, Text: "x"}, {Kind: kTimeSignature, F: [6]uint8{4, 2, 24, 8}}, eot(0)}
	}
	validate(f, tracks...)
}

// Banks over long histories.
func C21_LongTrack() {
	verif.Sample()
	evs := history("", verif.IntR("n", 0, 120), bankKinds)
	for i := range evs {
		if evs[i].Kind == kController {
			evs[i].A = []uint8{0x00, 0x20, 0x00, 0x20, evs[i].A, 0x01, 0x21, 0x40}[verif.Choose("c"+dec(uint64(i)), 8)]
		}
		if verif.Choose("few", 2) == 1 {
			evs[i].Ch &= 3
		}
	}
	t, err := decodeTrack(chunk("MTrk", runningBytes("r", evs)), context.NewContext())
	verif.Assert("decodes", err == nil && len(t.Events) == len(evs))
	for i, e := range evs {
		if e.Kind == kProgramChange {
			v, ok := t.Events[i].Event.(midievent.ProgramChange)
			verif.Assert("kind", ok && v.Program == e.A)
			verif.Assert("bank", v.Bank == bankOf(e.Ch, evs[:i]))
		}
	}
}

// Tables of long files.
func C19_LongFile() {
	verif.Sample()
	tracks := longTracks("", 5, 30, allKinds())
	for i := range tracks {
		for j := range tracks[i] {
			e := &tracks[i][j]
			if isText(e.Kind) {
				if strings.ContainsAny(e.Text, "\t\"") || e.Text == `\.` {
					e.Text = "x"
				}
			}
			if e.Kind == kKeySignature {
				e.A = 0 // note names: C16
			}
			if e.Kind == kController && (e.A == 0 || e.A == 32) {
				e.A = 7 // banks: C19_Bank
			}
		}
	}
	if verif.Choose("tabular", 2) == 1 {
		checkTabular(tracks...)
		return
	}
	checkTSV("\t", nil, tracks...)
}

// Events in JSON: long text and data.
func C10_Long() {
	verif.Sample()
	e := longEvent("", allKinds()[verif.Choose("kind", nKinds-1)])
	if isText(e.Kind) {
		e.Text += longText("more.")
	}
	if e.Kind == kContinuation {
		e.End = false
	}
	roundTripJSON(e)
}

// Events in text: long text and data.
func C11_Long() {
	verif.Sample()
	e := longEvent("", allKinds()[verif.Choose("kind", nKinds-1)])
	if isText(e.Kind) {
		e.Text += longText("more.")
		e.Text = strings.TrimSpace(e.Text)
	}
	roundTripText(e)
}

// The commands on long files.
func C23_LongFile() {
	verif.Sample()
	quietLog()
	tracks := longTracks("", 6, 30, allKinds())
	b := smfBytes(1, tracks...)
	in, out := writeFile("in.mid", b), verif.Path("out.mid")
	doc := verif.Path("doc.txt")
	if verif.Choose("json", 2) == 1 {
		doc = verif.Path("doc.json")
		verif.Assert("exported", run(&commands.Export, "--out", doc, in) == nil)
	} else {
		verif.Assert("disassembled", run(&commands.Disassemble, "--out", doc, in) == nil)
	}
	unchangedInput(in, b)
	verif.Assert("assembled", run(&commands.Assemble, "--out", out, doc) == nil)
	sameFile([]byte(readFile(out)), 1, 480, tracks...)
}
