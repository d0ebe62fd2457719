package props

import (
	"os"
	"strings"

	cli "github.com/transcriptaze/midiasm/cmd/midiasm/zz_verif_cli"

	"github.com/transcriptaze/midiasm/midi/context"
	"github.com/transcriptaze/midiasm/midi/lib"

	"verif/verif"
)

// midiasm runs the program with the arguments; the result is its exit code.
func midiasm(args ...string) (code int) {
	saved := os.Args
	defer func() {
		os.Args = saved
		if x := recover(); x != nil {
			e, ok := x.(cli.Exit)
			if !ok {
				panic(x)
			}
			code = e.Code
		}
	}()
	os.Args = append([]string{"midiasm"}, args...)
	cli.Main()
	return 0
}

// The program's commands, by name and with their options, to a file that may have other content already.
func C23_Program() {
	quietLog()
	defer context.SetMiddleC(lib.C3)
	n := verif.U8R("note", 0, 127)
	ch := verif.U8R("channel", 0, 15)
	t0 := []Ev{{Kind: kTempo, N: 500000}, eot(0)}
	t1 := []Ev{{Kind: kNoteOn, Delta: 5, Ch: ch, A: n, B: 64}, {Kind: kNoteOff, Delta: 7, Ch: ch, A: n, B: 64}, eot(7)}
	b := smfBytes(1, t0, t1)
	in, out := writeFile("in.mid", b), verif.Path("out.mid")
	c4 := []string{"--C4=false", "--C4=true"}[verif.Choose("C4", 2)]
	switch verif.Choose("command", 3) {
	case 0:
		txt := verif.Path("doc.txt")
		if verif.Choose("named", 2) == 1 {
			verif.Assert("disassembled", midiasm("disassemble", c4, "--out", txt, in) == 0)
		} else {
			verif.Assert("disassembled", midiasm(c4, "--out", txt, in) == 0)
		}
		verif.Assert("name", strings.Contains(readFile(txt), "note:"+noteName(n, false, c4 == "--C4=true")+","))
		verif.Assert("assembled", midiasm("assemble", c4, "--out", out, txt) == 0)
		sameFile([]byte(readFile(out)), 1, 480, t0, t1)
	case 1:
		doc := verif.Path("doc.json")
		verif.Assert("exported", midiasm("export", c4, "--out", doc, in) == 0)
		verif.Assert("name", strings.Contains(readFile(doc), `"`+noteName(n, false, c4 == "--C4=true")+`"`))
		verif.Assert("assembled", midiasm("assemble", c4, "--out", out, doc) == 0)
		sameFile([]byte(readFile(out)), 1, 480, t0, t1)
	case 2:
		x := []string{"3", "-5"}[verif.Choose("steps", 2)]
		steps := map[string]int{"3": 3, "-5": -5}[x]
		verif.Assert("transposed", midiasm("transpose", c4, "--semitones", x, "--out", out, in) == 0)
		sameFile([]byte(readFile(out)), 1, 480, t0, []Ev{t1[0].transposed(steps), t1[1].transposed(steps), t1[2]})
	}
	unchangedInput(in, b)
}

// notes and tsv.
func C23_ProgramTables() {
	quietLog()
	defer context.SetMiddleC(lib.C3)
	n := []uint8{0, 61, 127}[verif.Choose("note", 3)]
	t0 := []Ev{{Kind: kNoteOn, Delta: 0, Ch: 3, A: n, B: 64}, {Kind: kNoteOff, Delta: 480, Ch: 3, A: n, B: 64}, eot(0)}
	b := smfBytes(0, t0)
	in, out := writeFile("in.mid", b), verif.Path("out.txt")
	k := verif.Choose("C4", 2)
	c4 := []string{"--C4=false", "--C4=true"}[k]
	name := noteName(n, false, k == 1)
	switch verif.Choose("command", 3) {
	case 0:
		verif.Assert("notes", midiasm("notes", c4, "--json", "--out", out, in) == 0)
		x, err := parseNotes([]byte(readFile(out)))
		verif.Assert("one", err == nil && len(x) == 1)
		verif.Assert("note", x[0].MidiNote == n && x[0].Note == name && x[0].Channel == 3 && x[0].Velocity == 64 && x[0].Start == 0 && within(x[0].End, 0.5))
	case 1:
		verif.Assert("notes", midiasm("notes", c4, "--transpose", "1", "--json", "--out", out, in) == 0)
		x, err := parseNotes([]byte(readFile(out)))
		want := n + 1
		if n == 127 {
			want = 127
		}
		verif.Assert("one", err == nil && len(x) == 1)
		verif.Assert("transposed", x[0].MidiNote == want)
	case 2:
		verif.Assert("tsv", midiasm("tsv", c4, "--out", out, in) == 0)
		want := tsvLine(tsvHeading, "\t")
		table := tsvTable(t0)
		table[1][6], table[2][6] = name, name
		for _, l := range table {
			want += tsvLine(l, "\t")
		}
		verif.Assert("table", readFile(out) == want)
	}
	unchangedInput(in, b)
}

// What cannot be done is reported by the exit code.
func C23_ProgramErrors() {
	quietLog()
	command := []string{"disassemble", "export", "transpose", "notes", "tsv", "assemble", "click"}[verif.Choose("command", 7)]
	in := verif.Path("missing.mid")
	if verif.Choose("exists", 2) == 1 {
		in = writeFile("in.mid", verif.BytesN("content", verif.Choose("length", 3)))
	}
	verif.Assert("reported", midiasm(command, in) != 0)
}

// An output file that exists is replaced: nothing of its former content is left.
func C23_Overwrite() {
	quietLog()
	t0 := []Ev{{Kind: kNoteOn, Delta: 0, Ch: 3, A: 61, B: 64}, {Kind: kNoteOff, Delta: 480, Ch: 3, A: 61, B: 64}, eot(0)}
	in := writeFile("in.mid", smfBytes(0, t0))
	doc := verif.Path("in.txt")
	verif.Assert("document", midiasm("disassemble", "--out", doc, in) == 0)
	c := [][]string{{"disassemble"}, {"export"}, {"transpose", "--semitones", "1"}, {"notes"}, {"notes", "--json"}, {"tsv"}, {"tsv", "--tabular"}, {"assemble"}}[verif.Choose("command", 8)]
	if c[0] == "assemble" {
		in = doc
	}
	fresh, old := verif.Path("fresh.out"), writeFile("old.out", verif.BytesNR("old", []int{0, 1, 5000}[verif.Choose("length", 3)], 'x', 'x'))
	verif.Assert("written", midiasm(append(append([]string{}, c...), "--out", fresh, in)...) == 0)
	verif.Assert("written-again", midiasm(append(append([]string{}, c...), "--out", old, in)...) == 0)
	verif.Assert("replaced", readFile(old) == readFile(fresh))
}

// --debug and --verbose change nothing in the output file.
func C23_Verbose() {
	quietLog()
	defer quietLog()
	t0 := []Ev{{Kind: kNoteOn, Delta: 0, Ch: 3, A: 61, B: 64}, {Kind: kNoteOff, Delta: 480, Ch: 3, A: 61, B: 64}, eot(0)}
	in := writeFile("in.mid", smfBytes(0, t0))
	doc := verif.Path("in.txt")
	verif.Assert("document", midiasm("disassemble", "--out", doc, in) == 0)
	c := [][]string{{"disassemble"}, {"export"}, {"transpose", "--semitones", "1"}, {"notes"}, {"notes", "--json"}, {"tsv"}, {"tsv", "--tabular"}, {"assemble"}}[verif.Choose("command", 8)]
	if c[0] == "assemble" {
		in = doc
	}
	option := []string{"--debug", "--verbose"}[verif.Choose("option", 2)]
	quiet, loud := verif.Path("quiet.out"), verif.Path("loud.out")
	verif.Assert("written", midiasm(append(append([]string{}, c...), "--out", quiet, in)...) == 0)
	verif.Assert("written-again", midiasm(append(append([]string{}, c...), option, "--out", loud, in)...) == 0)
	verif.Assert("same", readFile(loud) == readFile(quiet))
}
