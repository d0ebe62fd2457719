package props

import (
	"github.com/transcriptaze/midiasm/midi"

	"verif/verif"
)

// violations: the number of broken rules in a file.
func violations(format int, tracks [][]Ev) int {
	n := 0
	if format == 0 && len(tracks) != 1 {
		n++
	}
	for i, t := range tracks {
		eots := 0
		for j, e := range t {
			if format == 1 {
				switch e.Kind {
				case kTempo, kSMPTEOffset:
					if i > 0 {
						n++
					}
				case kTimeSignature, kTrackName, kCopyright, kEndOfTrack:
				default:
					if i == 0 {
						n++
					}
				}
			}
			if e.Kind == kEndOfTrack {
				eots++
				if j < len(t)-1 {
					n++
				}
			}
			msb := func(k int) bool {
				return k >= 0 && k < len(t) && t[k].Kind == kController && t[k].A == 0x00
			}
			lsb := func(k int) bool {
				return k >= 0 && k < len(t) && t[k].Kind == kController && t[k].A == 0x20
			}
			if msb(j) && (!lsb(j+1) || t[j+1].Ch != e.Ch) {
				n++
			}
			if lsb(j) && (!msb(j-1) || t[j-1].Ch != e.Ch) {
				n++
			}
		}
		if eots == 0 {
			n++
		}
	}
	return n
}

func validate(format int, tracks ...[]Ev) {
	smf := makeSMF(uint16(format), 480)
	for i, t := range tracks {
		smf.Tracks = append(smf.Tracks, makeTrack(i, t...))
	}
	smf.MThd.Tracks = uint16(len(tracks))
	errors := smf.Validate()
	n := violations(format, tracks)
	verif.Assert("reported-if-broken", n == 0 || len(errors) > 0)
	verif.Assert("quiet-if-valid", n > 0 || len(errors) == 0)
	verif.Assert("one-report-each", len(errors) == n)
	for _, e := range errors {
		verif.Assert("message", e != nil && e.Error() != "")
	}
	unchanged(smf, format, tracks)
}

func unchanged(smf midi.SMF, format int, tracks [][]Ev) {
	verif.Assert("format-unchanged", int(smf.MThd.Format) == format && len(smf.Tracks) == len(tracks))
	for i, t := range tracks {
		checkEvents(smf.Tracks[i], t...)
	}
}

func c18Opt() genOpt { return genOpt{maxDelta: 127, textLen: 1, dataLen: 1, simple: true} }

// One event of any kind in either track, any format.
func C18_Kinds() {
	f := verif.Choose("format", 3)
	e := anyEvent("e.", true, c18Opt())
	g := gen("g.", kNoteOn, c18Opt())
	switch verif.Choose("where", 4) {
	case 0:
		validate(f, []Ev{e})
	case 1:
		validate(f, []Ev{e, eot(0)})
	case 2:
		validate(f, []Ev{eot(0)}, []Ev{g, e, eot(0)})
	case 3:
		validate(f, []Ev{eot(0)}, []Ev{g, eot(0)}, []Ev{e})
	}
}

// The number of tracks.
func C18_Tracks() {
	f := verif.Choose("format", 3)
	n := verif.Choose("tracks", 5)
	tracks := [][]Ev{}
	for i := 0; i < n; i++ {
		tracks = append(tracks, []Ev{eot(0)})
	}
	validate(f, tracks...)
}

// A header whose own track count says something else: the tracks that are there count.
func C18_Declared() {
	smf := makeSMF(0, 480, makeTrack(0, eot(0)))
	smf.MThd.Tracks = verif.U16("declared")
	verif.Assert("valid", len(smf.Validate()) == 0)
}

// End of track: any number and position.
func C18_EndOfTrack() {
	f := verif.Choose("format", 2)
	n := verif.Choose("length", 5)
	t := []Ev{}
	for i := 0; i < n; i++ {
		if verif.Choose("end", 2) == 1 {
			t = append(t, eot(0))
		} else {
			t = append(t, Ev{Kind: kTrackName, Text: "x"})
		}
	}
	if verif.Choose("track", 2) == 1 {
		validate(f, []Ev{eot(0)}, t)
	} else {
		validate(f, t)
	}
}

func c18Bank(p string) Ev {
	e := Ev{Kind: kController, Ch: verif.U8R(p+"channel", 0, 15), B: 1}
	switch verif.Choose(p+"event", 4) {
	case 0:
		e.A = 0x20
	case 1:
		e.A = 0x00
	case 2:
		e.A = 0x07
	case 3:
		return Ev{Kind: kNoteOn, Ch: e.Ch, A: 60, B: 64}
	}
	return e
}

// Bank selects: MSB, LSB, other controllers and other events in any order on any channels.
func C18_Banks() {
	f := 0
	t := []Ev{}
	n := verif.Choose("length", 4)
	for i := 0; i < n; i++ {
		t = append(t, c18Bank("e."))
	}
	if verif.Choose("end", 2) == 1 {
		t = append(t, eot(0))
	}
	validate(f, t)
}

// Each track is judged on its own.
func C18_BanksInTracks() {
	f := 1 + verif.Choose("format", 2)
	a := []Ev{c18Bank("a."), c18Bank("b.")}
	b := []Ev{c18Bank("c."), eot(0)}
	if verif.Choose("end", 2) == 1 {
		a = append(a, eot(0))
	}
	validate(f, []Ev{eot(0)}, a, b)
}

// Any controller number and channel.
func C18_AnyController() {
	useLookups()
	a := Ev{Kind: kController, Ch: verif.U8R("a.channel", 0, 15), A: verif.U8R("a.controller", 0, 127), B: 1}
	b := Ev{Kind: kController, Ch: verif.U8R("b.channel", 0, 15), A: verif.U8R("b.controller", 0, 127), B: 1}
	validate(0, []Ev{a, b, eot(0)})
}

// A decoded file: the same answer.
func C18_Decoded() {
	f := verif.Choose("format", 3)
	a, b := c18Bank("a."), c18Bank("b.")
	t0, t1 := []Ev{{Kind: kTempo, N: 500000}, eot(0)}, []Ev{a, b, eot(0)}
	smf, err := decode(cat(mthd(uint16(f), 2, 480), track(t0...), track(t1...)))
	verif.Assert("decodes", err == nil)
	verif.Assert("reports", len(smf.Validate()) == violations(f, [][]Ev{t0, t1}))
	unchanged(*smf, f, [][]Ev{t0, t1})
}
