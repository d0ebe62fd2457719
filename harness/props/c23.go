package props

import (
	"bytes"
	"os"
	"strings"

	"github.com/transcriptaze/midiasm/commands"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/export"

	"verif/verif"
)

// c23File: a file with two tracks and an event of any kind.
func c23File(o genOpt) ([]Ev, []Ev) {
	e := c12Event("", verif.Choose("kind", nKinds), o)
	verif.Assume(e.Kind != kEndOfTrack)
	return []Ev{{Kind: kTempo, N: 500000}, eot(0)}, []Ev{e, eot(7)}
}

func c23Opt() genOpt {
	return genOpt{maxDelta: 127, textLen: 1, lo: 0x21, hi: 0x7e, dataLen: 1, simple: true}
}

// unchangedInput: the command has left its input as it was.
func unchangedInput(p string, b []byte) {
	verif.Assert("input-unchanged", readFile(p) == string(b))
}

// disassemble and assemble on the command line give the same file.
func C23_Text() {
	quietLog()
	t0, t1 := c23File(c23Opt())
	b := smfBytes(1, t0, t1)
	in, txt, out := writeFile("in.mid", b), verif.Path("in.txt"), verif.Path("out.mid")
	verif.Assert("disassembled", run(&commands.Disassemble, "--out", txt, in) == nil)
	unchangedInput(in, b)
	doc := readFile(txt)
	verif.Assert("assembled", run(&commands.Assemble, "--out", out, txt) == nil)
	verif.Assert("document-unchanged", readFile(txt) == doc)
	sameFile([]byte(readFile(out)), 1, 480, t0, t1)
}

// export and assemble on the command line give the same file.
func C23_JSON() {
	quietLog()
	t0, t1 := c23File(c23Opt())
	b := smfBytes(1, t0, t1)
	in, doc, out := writeFile("in.mid", b), verif.Path("in.json"), verif.Path("out.mid")
	verif.Assert("exported", run(&commands.Export, "--out", doc, in) == nil)
	unchangedInput(in, b)
	verif.Assert("assembled", run(&commands.Assemble, "--out", out, doc) == nil)
	sameFile([]byte(readFile(out)), 1, 480, t0, t1)
}

// The documents are complete: exactly what the operations give.
func C23_Documents() {
	quietLog()
	t0, t1 := c23File(c23Opt())
	b := smfBytes(1, t0, t1)
	in, out := writeFile("in.mid", b), verif.Path("out")
	smf, err := decode(b)
	verif.Assert("decodes", err == nil)
	var w bytes.Buffer
	if verif.Choose("json", 2) == 1 {
		x, _ := export.NewExport()
		verif.Assert("export", x.Export(smf, &w) == nil)
		verif.Assert("exported", run(&commands.Export, "--out", out, in) == nil)
	} else {
		d, _ := disassemble.NewDisassemble()
		verif.Assert("print", d.Print(smf, "document", &w) == nil)
		verif.Assert("disassembled", run(&commands.Disassemble, "--out", out, in) == nil)
	}
	verif.Assert("document", readFile(out) == w.String())
}

// --split: the header and each track in a file of its own, together all of the document.
func C23_Split() {
	quietLog()
	t0, t1 := c23File(c23Opt())
	b := smfBytes(1, t0, t1)
	in := writeFile("in.mid", b)
	base := strings.TrimSuffix(in, ".mid")
	args := []string{"--split", in}
	if verif.Choose("out", 2) == 1 {
		args = []string{"--split", "--out", verif.Path("parts"), in}
		base = verif.Path("parts/parts")
	}
	verif.Assert("disassembled", run(&commands.Disassemble, args...) == nil)
	unchangedInput(in, b)
	smf, err := decode(b)
	verif.Assert("decodes", err == nil)
	d, _ := disassemble.NewDisassemble()
	var h bytes.Buffer
	verif.Assert("print", d.Print(smf.MThd, "MThd", &h) == nil)
	verif.Assert("header-file", readFile(base+".MThd") == h.String())
	for i := range smf.Tracks {
		var t bytes.Buffer
		verif.Assert("print", d.Print(smf.Tracks[i], "MTrk", &t) == nil)
		verif.Assert("track-file", readFile(base+"-"+dec(uint64(i))+".MTrk") == t.String())
	}
}

// transpose on the command line: every event of the result.
func C23_Transpose() {
	quietLog()
	steps := []int{0, 5, -5, 12, -100, 127}
	i := verif.Choose("steps", len(steps))
	args := []string{"0", "5", "-5", "+12", "-100", "127"}
	n := Ev{Kind: kNoteOn, Delta: verif.U32R("delta", 0, 127), Ch: verif.U8R("channel", 0, 15), A: verif.U8R("note", 0, 127), B: verif.U8R("velocity", 0, 127)}
	t0, t1 := []Ev{{Kind: kTempo, N: 500000}, eot(0)}, []Ev{n, {Kind: kText, Text: "x"}, eot(7)}
	b := smfBytes(1, t0, t1)
	in, out := writeFile("in.mid", b), verif.Path("out.mid")
	verif.Assert("transposed", run(&commands.Transpose, "--semitones", args[i], "--out", out, in) == nil)
	unchangedInput(in, b)
	t1[0] = n.transposed(steps[i])
	sameFile([]byte(readFile(out)), 1, 480, t0, t1)
}

// notes on the command line.
func C23_Notes() {
	quietLog()
	ch, v := verif.U8R("channel", 0, 15), verif.U8R("velocity", 1, 127)
	t0 := []Ev{{Kind: kTempo, N: 500000}, eot(0)}
	t1 := []Ev{{Kind: kNoteOn, Ch: ch, A: 61, B: v}, {Kind: kNoteOff, Delta: 480, Ch: ch, A: 61, B: 64}, eot(0)}
	b := smfBytes(1, t0, t1)
	in, out := writeFile("in.mid", b), verif.Path("out.notes")
	steps := []int{0, 7, -3}
	i := verif.Choose("steps", 3)
	verif.Assert("extracted", run(&commands.Notes, "--out", out, "--json", "--transpose", []string{"0", "7", "-3"}[i], in) == nil)
	unchangedInput(in, b)
	x, err := parseNotes([]byte(readFile(out)))
	verif.Assert("json", err == nil)
	verif.Assert("one-note", len(x) == 1)
	verif.Assert("note", x[0].Channel == ch && x[0].MidiNote == uint8(61+steps[i]) && x[0].Velocity == v)
	verif.Assert("times", x[0].Start == 0 && within(x[0].End, 0.5) && within(x[0].Duration, 0.5))
}

// A file that cannot be decoded, or is not there, is reported as an error by every command.
func C23_Errors() {
	quietLog()
	b := verif.BytesN("bytes", verif.Choose("length", 3))
	if verif.Choose("truncated", 2) == 1 {
		b = smfBytes(1, []Ev{{Kind: kText, Text: "x"}, eot(0)})
		b = b[:14+verif.Choose("cut", len(b)-14)]
	}
	cmds := []commands.Command{&commands.Disassemble, &commands.Export, &commands.Transpose, &commands.Notes, &commands.TSV}
	cmd := cmds[verif.Choose("command", len(cmds))]
	in := verif.Path("missing.mid")
	if verif.Choose("missing", 2) == 0 {
		in = writeFile("in.mid", b)
	}
	verif.Assert("error", run(cmd, "--out", verif.Path("out"), in) != nil)
}

// assemble without --out writes to the name of its input with the extension .midi.
func C23_AssembleDefault() {
	quietLog()
	t0, t1 := []Ev{{Kind: kTempo, N: verif.U32R("tempo", 1, 0xffffff)}, eot(0)}, []Ev{{Kind: kText, Text: "x"}, eot(7)}
	in := writeFile("in.mid", smfBytes(1, t0, t1))
	doc := verif.Path("in.txt")
	if verif.Choose("json", 2) == 1 {
		doc = verif.Path("in.json")
		verif.Assert("exported", run(&commands.Export, "--out", doc, in) == nil)
	} else {
		verif.Assert("disassembled", run(&commands.Disassemble, "--out", doc, in) == nil)
	}
	verif.Assert("assembled", run(&commands.Assemble, doc) == nil)
	sameFile([]byte(readFile(verif.Path("in.midi"))), 1, 480, t0, t1)
}

// Every command handles every valid file, whatever its tracks: no tracks, empty tracks, events in any track.
func C23_AnyFile() {
	quietLog()
	n := verif.Choose("tracks", 3)
	tracks := [][]Ev{}
	for i := 0; i < n; i++ {
		tracks = append(tracks, []Ev{eot(0)})
	}
	if n > 0 && verif.Choose("event", 2) == 1 {
		e := gen("", verif.Choose("kind", nKinds), c23Opt())
		verif.Assume(e.Kind != kContinuation && e.Kind != kEndOfTrack)
		if e.Kind == kNoteOn || e.Kind == kNoteOff {
			e.Delta = 3
		}
		tracks[verif.Choose("at", n)] = []Ev{e, eot(9)}
	}
	b := smfBytes(1, tracks...)
	in, out := writeFile("in.mid", b), verif.Path("out")
	cmds := []commands.Command{&commands.Disassemble, &commands.Export, &commands.Transpose, &commands.Notes, &commands.TSV, &commands.Click}
	verif.Assert("no-error", run(cmds[verif.Choose("command", len(cmds))], "--out", out, in) == nil)
	readFile(out)
	unchangedInput(in, b)
}

// Assembling a document that is not valid is an error, and nothing is written.
func C23_AssembleErrors() {
	quietLog()
	in := verif.Path([]string{"in.txt", "in.json"}[verif.Choose("json", 2)])
	if verif.Choose("missing", 2) == 0 {
		doc := []string{"", "x", "{}", "[]", `{"header":null}`, "MThd", `{"header":{"format":1},"tracks":[{"events":[{"event":{"tag":"Qwerty"}}]}]}`}
		verif.Assert("contract: file written", os.WriteFile(in, []byte(doc[verif.Choose("document", len(doc))]), 0600) == nil)
	}
	out := verif.Path("out.mid")
	verif.Assert("error", run(&commands.Assemble, "--out", out, in) != nil)
	_, err := os.ReadFile(out)
	verif.Assert("nothing-written", err != nil)
}

// --split with many tracks: each in a file of its own.
func C23_SplitMany() {
	quietLog()
	tracks := [][]Ev{}
	for i := 0; i < 130; i++ {
		tracks = append(tracks, []Ev{{Kind: kPort, Delta: uint32(i), A: uint8(i & 127)}, eot(0)})
	}
	b := smfBytes(1, tracks...)
	in := writeFile("in.mid", b)
	base := strings.TrimSuffix(in, ".mid")
	verif.Assert("disassembled", run(&commands.Disassemble, "--split", in) == nil)
	smf, err := decode(b)
	verif.Assert("decodes", err == nil)
	d, _ := disassemble.NewDisassemble()
	for i := range smf.Tracks {
		var t bytes.Buffer
		verif.Assert("print", d.Print(smf.Tracks[i], "MTrk", &t) == nil)
		verif.Assert("track-file", readFile(base+"-"+dec(uint64(i))+".MTrk") == t.String())
	}
}

// Names of files and directories: with dots, spaces, and no extension at all.
func C23_FileNames() {
	quietLog()
	verif.Assert("contract: directory made", os.MkdirAll(verif.Path("d.1"), 0770) == nil)
	t0, t1 := []Ev{{Kind: kTempo, N: verif.U32R("tempo", 1, 0xffffff)}, eot(0)}, []Ev{{Kind: kText, Text: "x"}, eot(7)}
	dir := []string{"", "d.1/"}[verif.Choose("directory", 2)]
	name := []string{"one", "one.two", "one two", "json", "x.mid"}[verif.Choose("name", 5)]
	in := writeFile("in.mid", smfBytes(1, t0, t1))
	doc := verif.Path(dir + name + []string{".txt", ".asm"}[verif.Choose("extension", 2)])
	if verif.Choose("json", 2) == 1 {
		doc = verif.Path(dir + name + ".json")
		verif.Assert("exported", run(&commands.Export, "--out", doc, in) == nil)
	} else {
		verif.Assert("disassembled", run(&commands.Disassemble, "--out", doc, in) == nil)
	}
	verif.Assert("assembled", run(&commands.Assemble, doc) == nil)
	sameFile([]byte(readFile(verif.Path(dir+name+".midi"))), 1, 480, t0, t1)
}

// A file with any number of broken rules is processed all the same: they are warnings.
func C23_ManyWarnings() {
	quietLog()
	n := []int{1, 21, 150}[verif.Choose("warnings", 3)]
	evs := []Ev{}
	for i := 0; i < n; i++ {
		evs = append(evs, Ev{Kind: kController, Ch: uint8(i & 15), A: 0x20, B: uint8(i & 127)})
	}
	b := smfBytes(0, append(evs, eot(0)))
	in, out := writeFile("in.mid", b), verif.Path("out")
	cmds := []commands.Command{&commands.Disassemble, &commands.Export, &commands.Transpose, &commands.Notes, &commands.TSV, &commands.Click}
	k := verif.Choose("command", len(cmds))
	verif.Assert("no-error", run(cmds[k], "--out", out, in) == nil)
	if k < 2 {
		verif.Assert("all-events", strings.Count(readFile(out), "Controller") == n)
	}
	readFile(out)
	unchangedInput(in, b)
}

// --templates: the document is printed with the templates of the file, and a file that is not there or holds no
// templates is an error.
func C23_Templates() {
	quietLog()
	t0 := []Ev{{Kind: kTempo, N: []uint32{1, 500000, 0xffffff}[verif.Choose("tempo", 3)]}, eot(0)}
	in, out := writeFile("in.mid", smfBytes(0, t0)), verif.Path("out.txt")
	tempo := dec(uint64(t0[0].N))
	k := verif.Choose("templates", 5)
	docs := []string{
		`{"templates":{"tempo":"T={{.Tempo}};"}}`,
		`{"templates":{"document":"{{range .Tracks}}{{range .Events}}{{.Delta}} {{end}}{{end}}"}}`,
		`{"templates":{"tempo":"{{"}}`,
		`[`,
		``,
	}
	templates := verif.Path("missing.json")
	if k < 4 {
		templates = writeFile("templates.json", []byte(docs[k]))
	}
	err := run(&commands.Disassemble, "--templates", templates, "--out", out, in)
	switch k {
	case 0:
		verif.Assert("disassembled", err == nil)
		verif.Assert("used", strings.Contains(readFile(out), "T="+tempo+";"))
		verif.Assert("others", strings.Contains(readFile(out), "EndOfTrack"))
	case 1:
		verif.Assert("disassembled", err == nil)
		verif.Assert("document", readFile(out) == "0 0 ")
	default:
		verif.Assert("error", err != nil)
	}
}
