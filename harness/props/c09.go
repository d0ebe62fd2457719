package props

import "verif/verif"

// An unknown chunk of any tag, content and length, anywhere after the header, changes nothing.
func C09_Alien() {
	tag := verif.BytesN("tag", 4)
	verif.Assume(!verif.EqBytes(tag, []byte("MTrk")))
	data := verif.Bytes("data")
	verif.Assume(len(data) < 1<<32)
	alien := cat(tag, u32be(uint32(len(data))), data)
	d1, d2 := verif.U32R("d1", 0, 127), verif.U32R("d2", 0, 127)
	f, d := anyFormat(), anyDivision()
	h, t1, t2 := mthd(f, 2, d), track(eot(d1)), track(eot(d2))
	var b []byte
	switch verif.Choose("where", 3) {
	case 0:
		b = cat(h, alien, t1, t2)
	case 1:
		b = cat(h, t1, alien, t2)
	case 2:
		b = cat(h, t1, t2, alien)
	}
	smf, err := decode(b)
	verif.Assert("decodes", err == nil)
	verif.Assert("tracks", len(smf.Tracks) == 2)
	for i, d := range []uint32{d1, d2} {
		verif.Assert("track-number", int(smf.Tracks[i].TrackNumber) == i)
		verif.Assert("one-event", len(smf.Tracks[i].Events) == 1)
		eot(d).check(smf.Tracks[i].Events[0].Event)
	}
	checkMThd(*smf.MThd, f, 2, d)
}

// The number of track chunks must be the header's number.
func C09_Count() {
	n := verif.U16("tracks")
	k := verif.Choose("chunks", 4)
	b := mthd(anyFormat(), n, anyDivision())
	for i := 0; i < k; i++ {
		b = cat(b, track(eot(uint32(i))))
		if verif.Choose("alien", 2) == 1 {
			b = cat(b, chunk("XFIH", []byte{1, 2, 3}))
		}
	}
	smf, err := decode(b)
	verif.Assert("accepted-iff-count", (err == nil) == (int(n) == k))
	if err == nil {
		verif.Assert("tracks", len(smf.Tracks) == k)
		for i, t := range smf.Tracks {
			verif.Assert("track-number", int(t.TrackNumber) == i)
			eot(uint32(i)).check(t.Events[0].Event)
		}
	}
}

// The first chunk must be a header.
func C09_FirstChunk() {
	tag := verif.BytesN("tag", 4)
	verif.Assume(!verif.EqBytes(tag, []byte("MThd")))
	data := verif.BytesN("data", 6)
	h := anyHeader(1)
	_, err := decode(cat(tag, u32be(6), data, h, track(eot(0))))
	verif.Assert("rejected", err != nil)
	_, err = decode(cat(track(eot(0)), h))
	verif.Assert("track-first", err != nil)
	_, err = decode([]byte{})
	verif.Assert("empty", err != nil)
}

// A file that ends inside a chunk is an error, wherever it is cut.
func C09_Truncated() {
	e := gen("", kText, genOpt{maxDelta: 127, textLen: 3})
	b := cat(anyHeader(1), track(e, eot(0)))
	n := verif.Choose("length", len(b))
	_, err := decode(b[:n])
	verif.Assert("rejected", err != nil)
	// an alien chunk as well
	a := cat(b, chunk("XFIH", []byte{1, 2, 3, 4}))
	m := len(b) + 1 + verif.Choose("alien-length", 11)
	_, err = decode(a[:m])
	verif.Assert("alien-rejected", err != nil)
}

// A declared chunk length beyond the end of the data is an error, whatever it is.
func C09_Overrun() {
	n := verif.U32("length")
	data := eot(0).bytes()
	verif.Assume(n > uint32(len(data)))
	h := anyHeader(1)
	_, err := decode(cat(h, []byte("MTrk"), u32be(n), data))
	verif.Assert("rejected", err != nil)
	_, err = decode(cat(h, track(eot(0)), []byte("XFIH"), u32be(n), data))
	verif.Assert("alien-rejected", err != nil)
}
