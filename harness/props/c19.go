package props

import (
	"flag"
	"fmt"
	"os"
	"strconv"

	"github.com/transcriptaze/midiasm/commands"
	"github.com/transcriptaze/midiasm/midi/lib"

	"verif/verif"
)

// run parses the arguments and executes the command, as the command line does.
func run(cmd commands.Command, args ...string) error {
	fs := cmd.Flagset(flag.NewFlagSet("midiasm", flag.ContinueOnError))
	err := fs.Parse(args)
	verif.Assert("arguments", err == nil)
	return cmd.Execute(fs)
}

func writeFile(name string, b []byte) string {
	p := verif.Path(name)
	err := os.WriteFile(p, b, 0600)
	verif.Assert("contract: file written", err == nil)
	return p
}

func readFile(p string) string {
	b, err := os.ReadFile(p)
	verif.Assert("output-written", err == nil)
	return string(b)
}

func dec(v uint64) string { return strconv.FormatUint(v, 10) }

func dec2(v uint8) string {
	if v < 10 {
		return "0" + dec(uint64(v))
	}
	return dec(uint64(v))
}

func hexBytes(b []byte) string {
	s := ""
	for i, x := range b {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%02X", x)
	}
	return s
}

var tsvHeading = []string{"Tick", "Delta", "Tag", "Channel", "Note", "Velocity", "Details"}

// tsvCells: what the table shows of an event at the tick.
func (e Ev) tsvCells(tick uint64, bank uint16) []string {
	ch, note, vel, details := "", "", "", ""
	if isChannel(e.Kind) {
		ch = dec(uint64(e.Ch))
	}
	switch {
	case isText(e.Kind):
		details = e.Text
	case e.Kind == kSequenceNumber || e.Kind == kTempo || e.Kind == kPitchBend:
		details = dec(uint64(e.N))
	case e.Kind == kChannelPrefix || e.Kind == kPort || e.Kind == kChannelPressure:
		details = dec(uint64(e.A))
	}
	switch e.Kind {
	case kNoteOff, kNoteOn:
		note, vel = dec(uint64(e.A)), dec(uint64(e.B))
		details = noteName(e.A, false, false)
	case kController:
		details = dec(uint64(e.A)) + ":" + lib.LookupController(e.A).Name + ", " + dec(uint64(e.B))
	case kProgramChange:
		details = dec(uint64(bank)) + ", " + dec(uint64(e.A))
	case kSMPTEOffset:
		details = "offset " + dec2(e.F[1]) + ":" + dec2(e.F[2]) + ":" + dec2(e.F[3]) + "  frame rate " + dec(uint64(rates[e.F[0]])) + ":" + dec(uint64(e.F[4])) + ":" + dec(uint64(e.F[5]))
	case kTimeSignature:
		details = dec(uint64(e.F[0])) + "/" + dec(1<<e.F[1]) + ", " + dec(uint64(e.F[2])) + " ticks/click, " + dec(uint64(e.F[3])) + " 32nds/quarter"
	case kKeySignature:
		details = keyName(int(int8(e.A)), e.B)
	case kSequencerSpecific:
		details = manufacturer(e.ID).Name + " [" + hexBytes(e.Data) + "]"
	case kSysEx:
		m := manufacturer(e.ID)
		details = tsvList(m.ID) + ":" + m.Region + ":" + m.Name + ", " + hexBytes(e.Data)
	case kContinuation, kEscape:
		details = hexBytes(e.Data)
	}
	return []string{dec(tick), dec(uint64(e.Delta)), kindTags[e.Kind], ch, note, vel, details}
}

// tsvTable: the cells of the whole table, heading first: a block of seven columns per track, one line per
// event index.
func tsvTable(tracks ...[]Ev) [][]string {
	rows := 0
	for _, t := range tracks {
		if len(t) > rows {
			rows = len(t)
		}
	}
	table := [][]string{{}}
	for range tracks {
		table[0] = append(table[0], tsvHeading...)
	}
	ticks := make([]uint64, len(tracks))
	for r := 0; r < rows; r++ {
		line := []string{}
		for i, t := range tracks {
			if r < len(t) {
				ticks[i] += uint64(t[r].Delta)
				line = append(line, t[r].tsvCells(ticks[i], 0)...)
			} else {
				line = append(line, "", "", "", "", "", "", "")
			}
		}
		table = append(table, line)
	}
	return table
}

// tsvLine: the cells as one line of delimited text.
func tsvLine(cells []string, delimiter string) string {
	s := ""
	for i, c := range cells {
		if i > 0 {
			s += delimiter
		}
		s += c
	}
	return s + "\n"
}

func smfBytes(format uint16, tracks ...[]Ev) []byte {
	b := mthd(format, uint16(len(tracks)), 480)
	for _, t := range tracks {
		b = append(b, track(t...)...)
	}
	return b
}

// exportTSV runs the command on a file with the tracks.
func exportTSV(options []string, tracks ...[]Ev) string {
	quietLog()
	in := writeFile("in.mid", smfBytes(1, tracks...))
	out := verif.Path("out.tsv")
	err := run(&commands.TSV, append(append([]string{"--out", out}, options...), in)...)
	verif.Assert("exported", err == nil)
	return readFile(out)
}

// checkTSV: the heading, then the table.
func checkTSV(delimiter string, options []string, tracks ...[]Ev) {
	out := exportTSV(options, tracks...)
	want := tsvLine(tsvHeading, delimiter)
	for _, l := range tsvTable(tracks...) {
		want += tsvLine(l, delimiter)
	}
	verif.Assert("table", out == want)
}

// c19Event: text that needs no quoting in the table.
func c19Event(p string, kind int, o genOpt) Ev {
	e := gen(p, kind, o)
	if isText(kind) && o.textLen > 0 {
		verif.Assume(!isSpace(e.Text[0]) && e.Text[0] < 0x80)
		for i := 0; i < o.textLen; i++ {
			c := e.Text[i]
			verif.Assume(c != '"' && c != '\n' && c != '\r' && c != '\t' && c != '\v')
		}
	}
	verif.Assume(e.Delta <= 0x0fffffff)
	return e
}

// tsvList: bytes as the table lists them in a manufacturer identification.
func tsvList(b []byte) string {
	s := "["
	for i, x := range b {
		if i > 0 {
			s += " "
		}
		s += dec(uint64(x))
	}
	return s + "]"
}

// One event of any kind and all its values.
func C19_Event() {
	k := verif.Choose("kind", nKinds)
	verif.Assume(k != kContinuation && k != kEndOfTrack)
	e := c19Event("", k, genOpt{maxDelta: 127, textLen: 1, dataLen: 1, ids: 1})
	if k == kNoteOff || k == kNoteOn {
		verif.Assume(e.A == 61 || e.A < 2) // all the note names: C19_Notes
	}
	checkTSV("\t", nil, []Ev{e, eot(0)})
}

// Every note name.
func C19_Notes() {
	k := []int{kNoteOff, kNoteOn}[verif.Choose("kind", 2)]
	e := Ev{Kind: k, Ch: 9, A: uint8(verif.Choose("note", 128)), B: 100}
	checkTSV("\t", nil, []Ev{e, eot(0)})
}

// Every delta time: the tick is the sum.
func C19_Ticks() {
	d := verif.U32R("d", 0, 0x0fffffff)
	e := verif.U32R("e", 0, 0x0fffffff)
	checkTSV("\t", nil, []Ev{{Kind: kPort, Delta: d, A: 1}, {Kind: kText, Delta: e, Text: "x"}, eot(d)})
}

// Text of any length.
func C19_Text() {
	e := Ev{Kind: kText + verif.Choose("kind", 9), Delta: verif.U32R("delta", 0, 127), Text: verif.StringR("text", 0x23, 0x7e)}
	verif.Assume(e.Text != "\\." && len(e.Text) < 1<<20)
	checkTSV("\t", nil, []Ev{e, eot(0)})
}

// Data of several bytes, and a message in packets.
func C19_Data() {
	n := verif.Choose("length", 4)
	switch verif.Choose("kind", 3) {
	case 0:
		checkTSV("\t", nil, []Ev{c19Event("", kSequencerSpecific, genOpt{maxDelta: 127, dataLen: n}), eot(0)})
	case 1:
		e := Ev{Kind: kSysEx, ID: []byte{0x43}, Data: []byte{1, 2}}
		f := c19Event("c-", kContinuation, genOpt{maxDelta: 127, dataLen: n})
		if n == 0 {
			verif.Assume(f.End)
		}
		checkTSV("\t", nil, []Ev{e, f, eot(0)})
	case 2:
		checkTSV("\t", nil, []Ev{c19Event("", kEscape, genOpt{maxDelta: 127, dataLen: n}), eot(0)})
	}
}

// Several events in several tracks: the rows are in file order, side by side, padded with empty cells.
func C19_Tracks() {
	o := genOpt{maxDelta: 127, textLen: 1, dataLen: 1, simple: true}
	tracks := [][]Ev{}
	n := 1 + verif.Choose("tracks", 3)
	for i := 0; i < n; i++ {
		p := string([]byte{byte('a' + i), '-'})
		t := []Ev{}
		k := verif.Choose(p+"events", 3)
		for j := 0; j < k; j++ {
			q := p + string([]byte{byte('0' + j), '-'})
			kinds := []int{kNoteOn, kTempo, kTrackName}
			t = append(t, c19Event(q, kinds[(verif.Choose(q+"kind", 2)+i)%3], o))
		}
		tracks = append(tracks, append(t, eot(0)))
	}
	checkTSV("\t", nil, tracks...)
}

// Program changes show their bank.
func C19_Bank() {
	msb := verif.U8R("msb", 0, 127)
	lsb := verif.U8R("lsb", 0, 127)
	p := verif.U8R("program", 0, 127)
	out := exportTSV(nil, []Ev{{Kind: kController, Ch: 1, A: 0, B: msb}, {Kind: kController, Ch: 1, A: 32, B: lsb}, {Kind: kProgramChange, Ch: 1, A: p}, eot(0)})
	want := tsvLine(tsvHeading, "\t") + tsvLine(tsvHeading, "\t")
	want += tsvLine(Ev{Kind: kController, Ch: 1, A: 0, B: msb}.tsvCells(0, 0), "\t")
	want += tsvLine(Ev{Kind: kController, Ch: 1, A: 32, B: lsb}.tsvCells(0, 0), "\t")
	want += tsvLine(Ev{Kind: kProgramChange, Ch: 1, A: p}.tsvCells(0, uint16(msb)<<7|uint16(lsb)), "\t")
	want += tsvLine(eot(0).tsvCells(0, 0), "\t")
	verif.Assert("table", out == want)
}

// cells reads delimited text back: quoted fields with doubled quotes, one record per line.
func cells(s string, delimiter byte) ([][]string, bool) {
	out := [][]string{}
	rec := []string{}
	i := 0
	for i < len(s) {
		f := []byte{}
		if s[i] == '"' {
			i++
			for {
				if i >= len(s) {
					return nil, false
				}
				if s[i] == '"' {
					i++
					if i < len(s) && s[i] == '"' {
						f = append(f, '"')
						i++
						continue
					}
					break
				}
				f = append(f, s[i])
				i++
			}
		} else {
			for i < len(s) && s[i] != delimiter && s[i] != '\n' {
				if s[i] == '"' {
					return nil, false
				}
				f = append(f, s[i])
				i++
			}
		}
		rec = append(rec, string(f))
		if i >= len(s) {
			return nil, false
		}
		if s[i] == '\n' {
			out = append(out, rec)
			rec = []string{}
		} else if s[i] != delimiter {
			return nil, false
		}
		i++
	}
	return out, true
}

// Any text, with any delimiter: the cells read back as they are.
func C19_Quoting() {
	text := string(verif.BytesNR("text", 1+verif.Choose("length", 2), 0, 127))
	options := [][]string{nil, {"--delimiter", ","}, {"--delimiter", ";"}, {"--delimiter", "\\t"}, {"--delimiter", "|"}}
	delimiters := "\t,;\t|"
	o := verif.Choose("delimiter", len(options))
	out := exportTSV(options[o], []Ev{{Kind: kText, Text: text}, eot(0)})
	t, ok := cells(out, delimiters[o])
	verif.Assert("readable", ok)
	verif.Assert("rows", len(t) == 4)
	want := [][]string{tsvHeading, tsvHeading, {"0", "0", "Text", "", "", "", text}, {"0", "0", "EndOfTrack", "", "", "", ""}}
	for i := range want {
		verif.Assert("columns", len(t[i]) == 7)
		for j := range want[i] {
			verif.Assert("cell", t[i][j] == want[i][j])
		}
	}
}

// Fixed width columns: every cell starts at the column's position and is followed by two spaces.
func C19_Tabular() {
	text := string(verif.BytesNR("text", verif.Choose("length", 4), 0x21, 0x7e))
	d := verif.U32R("delta", 0, 127)
	tracks := [][]Ev{{{Kind: kMarker, Delta: d, Text: text}, eot(0)}, {{Kind: kNoteOn, Ch: 3, A: 61, B: 64}, {Kind: kNoteOff, Ch: 3, A: 61}, eot(0)}}
	checkTabular(tracks...)
}

func checkTabular(tracks ...[]Ev) {
	out := exportTSV([]string{"--tabular"}, tracks...)
	want := ""
	table := tsvTable(tracks...)
	for _, l := range table {
		for j, c := range l {
			if j > 0 {
				want += "  "
			}
			w := 0
			for _, m := range table {
				if len(m[j]) > w {
					w = len(m[j])
				}
			}
			want += pad(c, w)
		}
		want += "\n"
	}
	verif.Assert("table", out == want)
}

func pad(s string, w int) string {
	n := 0
	for range s {
		n++
	}
	for ; n < w; n++ {
		s += " "
	}
	return s
}
