package props

import (
	"strings"

	"github.com/transcriptaze/midiasm/ops/notes"

	"verif/verif"
)

// Counts: many tracks, many notes at once, tracks without events.

// Tracks with no events at all, anywhere in the file.
func C12_EmptyTrack() {
	n := 1 + verif.Choose("tracks", 3)
	tracks := [][]Ev{}
	for i := 0; i < n; i++ {
		switch verif.Choose("track"+dec(uint64(i)), 3) {
		case 0:
			tracks = append(tracks, []Ev{})
		case 1:
			tracks = append(tracks, []Ev{eot(verif.U32R("delta", 0, 9))})
		case 2:
			tracks = append(tracks, []Ev{{Kind: kController, Delta: 1, Ch: 2, A: verif.U8R("controller", 3, 5), B: 4}})
		}
	}
	roundTripFile(verif.Choose("json", 2) == 1, 1, 96, tracks...)
}

// More tracks than a byte can count.
func C12_ManyTracks() {
	verif.Sample()
	n := verif.IntR("tracks", 1, 300)
	tracks := [][]Ev{}
	for i := 0; i < n; i++ {
		tracks = append(tracks, []Ev{{Kind: kPort, Delta: uint32(i), A: uint8(i & 127)}, eot(0)})
	}
	roundTripFile(verif.Choose("json", 2) == 1, 1, 96, tracks...)
}

// Seventeen tracks.
func C12_SeventeenTracks() {
	tracks := [][]Ev{}
	for i := 0; i < 17; i++ {
		tracks = append(tracks, []Ev{{Kind: kPort, Delta: uint32(i), A: uint8(i & 127)}, eot(0)})
	}
	roundTripFile(verif.Choose("json", 2) == 1, 1, 96, tracks...)
}

func C07_ManyTracks() {
	n := []int{15, 17, 257}[verif.Choose("tracks", 3)]
	tracks := [][]Ev{}
	for i := 0; i < n; i++ {
		tracks = append(tracks, []Ev{{Kind: kPort, Delta: uint32(i), A: uint8(i & 127)}, eot(0)})
	}
	smf, err := decode(smfBytes(1, tracks...))
	verif.Assert("decodes", err == nil)
	b, err := encode(*smf)
	verif.Assert("encodes", err == nil)
	checkLayout(b, 1, uint16(n), 480)
	sameFile(b, 1, 480, tracks...)
}

// Every pitch of a channel at once.
func C17_Polyphony() {
	quietLog()
	ch := verif.Choose("channel", 16)
	v := verif.U8R("velocity", 1, 127)
	evs := []Ev{}
	for i := 0; i < 128; i++ {
		evs = append(evs, Ev{Kind: kNoteOn, Delta: 1, Ch: uint8(ch), A: uint8(i), B: v})
	}
	if verif.Choose("off", 2) == 1 {
		for i := 0; i < 128; i++ {
			evs = append(evs, Ev{Kind: kNoteOff, Delta: 1, Ch: uint8(ch), A: uint8(i)})
		}
	}
	evs = append(evs, eot(0))
	smf := makeSMF(0, 480, makeTrack(0, evs...))
	x, err := notes.VerifExtract(&smf, 0)
	verif.Assert("extracts", err == nil)
	verif.Assert("all-notes", len(x) == 128)
	seen := make([]bool, 128)
	for _, n := range x {
		verif.Assert("note", n.Note < 128 && int(n.Channel) == ch && n.Velocity == v && !seen[n.Note])
		seen[n.Note] = true
		off := uint64(128)
		if len(evs) > 200 {
			off = 129 + uint64(n.Note)
		}
		verif.Assert("start", near(n.Start, specTime(uint64(n.Note)+1, nil, 480)))
		verif.Assert("end", near(n.End, specTime(off, nil, 480)))
	}
}

// Fixed width columns around long text.
func C19_TabularLong() {
	text := strings.Repeat(string(verif.BytesNR("text", 1, 0x21, 0x7e)), []int{20, 63, 64, 65, 130, 300}[verif.Choose("length", 6)])
	tracks := [][]Ev{{{Kind: kMarker, Delta: 3, Text: text}, {Kind: kText, Text: "x"}, eot(0)}, {{Kind: kNoteOn, Ch: 3, A: 61, B: 64}, {Kind: kNoteOff, Ch: 3, A: 61}, eot(0)}}
	checkTabular(tracks...)
}

// The rules hold for every track, however many there are.
func C18_ManyTracks() {
	f := verif.Choose("format", 3)
	n := []int{17, 40, 257}[verif.Choose("tracks", 3)]
	tracks := [][]Ev{}
	for i := 0; i < n; i++ {
		tracks = append(tracks, []Ev{eot(0)})
	}
	k := []int{1, n / 2, n - 2, n - 1}[verif.Choose("at", 4)]
	switch verif.Choose("event", 4) {
	case 0:
		tracks[k] = []Ev{{Kind: kTempo, N: verif.U32R("tempo", 1, 0xffffff)}, eot(0)}
	case 1:
		tracks[k] = []Ev{}
	case 2:
		tracks[k] = []Ev{{Kind: kController, Ch: 3, A: 0x00, B: verif.U8R("bank", 0, 127)}, eot(0)}
	case 3:
		tracks[k] = []Ev{eot(0), {Kind: kPort, A: verif.U8R("port", 0, 127)}}
	}
	validate(f, tracks...)
}

// The rules hold for every event, however many there are.
func C18_ManyEvents() {
	n := []int{17, 140, 300}[verif.Choose("events", 3)]
	evs := []Ev{}
	for i := 0; i < n; i++ {
		evs = append(evs, Ev{Kind: kPort, A: uint8(i & 127)})
	}
	k := []int{n / 2, n - 2}[verif.Choose("at", 2)]
	switch verif.Choose("event", 4) {
	case 0:
		evs[k] = Ev{Kind: kTempo, N: verif.U32R("tempo", 1, 0xffffff)}
	case 1:
		evs[k] = eot(0)
	case 2:
		evs[k] = Ev{Kind: kController, Ch: 3, A: verif.U8R("controller", 0, 127), B: verif.U8R("bank", 0, 127)}
	case 3:
		evs[k] = Ev{Kind: kController, Ch: 3, A: 0x00, B: verif.U8R("msb", 0, 127)}
		evs[k+1] = Ev{Kind: kController, Ch: verif.U8R("channel", 0, 15), A: 0x20, B: verif.U8R("lsb", 0, 127)}
	}
	validate(1, []Ev{eot(0)}, append(evs, eot(0)))
}

// The columns of many tracks and the rows of many events.
func C19_ManyTracks() {
	n := []int{17, 40}[verif.Choose("tracks", 2)]
	tracks := [][]Ev{}
	for i := 0; i < n; i++ {
		tracks = append(tracks, []Ev{{Kind: kPort, Delta: uint32(i), A: uint8(i & 127)}, eot(0)})
	}
	if verif.Choose("tabular", 2) == 1 {
		checkTabular(tracks...)
	} else {
		checkTSV("\t", nil, tracks...)
	}
}

func C19_ManyEvents() {
	evs := []Ev{}
	for i := 0; i < 270; i++ {
		evs = append(evs, Ev{Kind: kPort, Delta: uint32(i), A: uint8(i & 127)})
	}
	checkTSV("\t", nil, append(evs, eot(0)), []Ev{eot(0)})
}

// Transposition of many tracks and events.
func C14_Many() {
	steps := []int{-300, -5, 1, 12}[verif.Choose("steps", 4)]
	nt, ne := []int{1, 17, 257}[verif.Choose("tracks", 3)], 2
	if nt == 1 {
		ne = 300
	}
	in := mthd(1, uint16(nt), 480)
	want := [][]Ev{}
	for i := 0; i < nt; i++ {
		evs, shifted := []Ev{}, []Ev{}
		for j := 0; j < ne; j++ {
			e := Ev{Kind: kNoteOff, Delta: 1, Ch: uint8((i + j) & 15), A: 0, B: 1}
			if j == ne/2 {
				e = Ev{Kind: kNoteOn, Delta: 1, Ch: 3, A: uint8(i & 127), B: 64}
			}
			evs, shifted = append(evs, e), append(shifted, e.transposed(steps))
		}
		in = cat(in, track(append(evs, eot(0))...))
		want = append(want, append(shifted, eot(0)))
	}
	smf, err := decode(transposed(in, steps))
	verif.Assert("decodes", err == nil && len(smf.Tracks) == nt)
	for i, t := range want {
		checkEvents(smf.Tracks[i], t...)
	}
}

// A delimiter of several bytes.
func C19_WideDelimiter() {
	d := []string{"¦", "→", "\U0001D11E"}[verif.Choose("delimiter", 3)]
	checkTSV(d, []string{"--delimiter", d}, []Ev{{Kind: kPort, Delta: verif.U32R("delta", 0, 127), A: verif.U8R("port", 0, 127)}, eot(0)}, []Ev{{Kind: kNoteOn, Ch: 3, A: 61, B: 64}, eot(0)})
}
