package props

import (
	"encoding/json"
	"fmt"
	"strings"

	midievent "github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/lib"

	"verif/verif"
)

// Every controller number 0..255: same identification; known ones have their standard name.
func C22_Controllers() {
	c := verif.U8("controller")
	x := lib.LookupController(c)
	verif.Assert("id", x.ID == c)
	known := false
	for _, s := range stdControllers {
		if s.id == c {
			known = true
			verif.Assert("standard-name", strings.TrimSpace(x.Name) == strings.TrimSpace(s.name))
		} else {
			verif.Assert("distinct", x.Name != s.name)
		}
	}
	verif.Assert("unknown", known || x.Name == "<unknown>")
}

// The controller of a decoded event is the one that its number names.
func C22_ControllerEvent() {
	e := gen("", kController, genOpt{maxDelta: 127})
	var x midievent.Controller
	err := x.UnmarshalBinary(e.bytes())
	verif.Assert("decodes", err == nil)
	verif.Assert("entry", x.Controller == lib.LookupController(e.A))
}

// Known manufacturers: by identification and by name.
func C22_Manufacturers() {
	m := stdManufacturers[verif.Choose("manufacturer", len(stdManufacturers))]
	x := lib.LookupManufacturer(m.id)
	verif.Assert("id", verif.EqBytes(x.ID, m.id))
	verif.Assert("name", x.Name == m.name)
	verif.Assert("region", x.Region == m.region)
	y, err := lib.FindManufacturer(x.Name)
	verif.Assert("found", err == nil)
	verif.Assert("found-id", verif.EqBytes(y.ID, m.id))
	verif.Assert("found-name", y.Name == m.name && y.Region == m.region)
}

// Any identification, of any length: the same identification comes back.
func C22_ManufacturerID() {
	id := verif.Bytes("id")
	if verif.Choose("standard", 2) == 1 {
		id = genID("", 2)
	}
	x := lib.LookupManufacturer(id)
	verif.Assert("id", verif.EqBytes(x.ID, id))
	known := false
	for _, m := range stdManufacturers {
		if verif.EqBytes(m.id, id) {
			known = true
		}
	}
	verif.Assert("unknown", known || x.Name == "<unknown>")
	verif.Assert("known", !known || x.Name != "<unknown>")
}

// A name that no entry has is not found.
func C22_UnknownName() {
	s := verif.String("name")
	x, err := lib.FindManufacturer(s)
	verif.Assert("by-name", err != nil || x.Name == s)
	known := false
	for _, m := range stdManufacturers {
		if m.name == s {
			known = true
			verif.Assert("id", err == nil && verif.EqBytes(x.ID, m.id))
		}
	}
	verif.Assert("unknown", known || err != nil)
}

// JSON of a manufacturer gives the identification back.
func C22_ManufacturerJSON() {
	id := genID("", 1)
	b, err := json.Marshal(lib.LookupManufacturer(id))
	verif.Assert("marshals", err == nil)
	var x lib.Manufacturer
	err = json.Unmarshal(b, &x)
	verif.Assert("unmarshals", err == nil)
	verif.Assert("id", verif.EqBytes(x.ID, id))
	verif.Assert("same", verif.Same(x, lib.LookupManufacturer(id)))
	v := verif.U32R("byte", 0, 1<<20)
	err = json.Unmarshal([]byte(fmt.Sprintf(`{"id":[%d]}`, v)), &x)
	verif.Assert("range", (err == nil) == (v <= 127))
	verif.Assert("value", err != nil || verif.EqBytes(x.ID, []byte{byte(v)}))
}

// Manufacturers from a configuration are found by identification and by name.
func C22_AddManufacturers() {
	id := [][]byte{{0x5a}, {0x00, 0x7a, 0x5b}, {0x00, 0x00, 0x41}, {0x41}}[verif.Choose("id", 4)]
	list0 := fmt.Sprintf("[%d]", id[0])
	if len(id) == 3 {
		list0 = fmt.Sprintf("[%d,%d,%d]", id[0], id[1], id[2])
	}
	name := fmt.Sprintf("Sand%d%d", len(id), id[len(id)-1]) + verif.StringNR("name", 2, 'a', 'z')
	list, err := lib.LoadManufacturers(strings.NewReader(`{"manufacturers":[{"id":` + list0 + `,"region":"Shore","name":"` + name + `"}]}`))
	verif.Assert("loads", err == nil)
	verif.Assert("one", len(list) == 1)
	old := lib.LookupManufacturer(id)
	lib.AddManufacturers(list)
	x := lib.LookupManufacturer(id)
	verif.Assert("id", verif.EqBytes(x.ID, id))
	verif.Assert("name", x.Name == name && x.Region == "Shore")
	y, err := lib.FindManufacturer(name)
	verif.Assert("found", err == nil && verif.EqBytes(y.ID, id))
	if old.Name != "<unknown>" && verif.IsNative() {
		key := fmt.Sprintf("%02X", id[0])
		lib.AddManufacturers(map[string]lib.Manufacturer{key: old})
	}
}

// Channels as text: exactly the numbers 0..15.
func C22_ParseChannel() {
	v := verif.U32("value")
	s := fmt.Sprintf("%d", v)
	c, err := lib.ParseChannel(s)
	verif.Assert("range", (err == nil) == (v <= 15))
	verif.Assert("value", err != nil || uint32(c) == v)
	verif.Assert("string", err != nil || c.String() == s)
	var x lib.Channel
	err = x.UnmarshalText([]byte("channel:" + s))
	verif.Assert("text-range", (err == nil) == (v <= 15))
	verif.Assert("text-value", err != nil || uint32(x) == v)
	var y lib.Channel
	err = json.Unmarshal([]byte(s), &y)
	verif.Assert("json-range", (err == nil) == (v <= 15))
	verif.Assert("json-value", err != nil || uint32(y) == v)
}

// Any text whatever is refused or read as a channel that it spells.
func C22_ChannelText() {
	s := string(verif.BytesN("text", verif.Choose("length", 4)))
	c, err := lib.ParseChannel(s)
	verif.Assert("range", err != nil || c <= 15)
	n, digits := 0, len(s) > 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			digits = false
			break
		}
		n = 10*n + int(s[i]-'0')
	}
	verif.Assert("exactly", (err == nil) == (digits && n <= 15))
	verif.Assert("value", err != nil || int(c) == n)
}

// Channels as JSON.
func C22_ChannelJSON() {
	c := lib.Channel(verif.U8R("channel", 0, 15))
	b, err := json.Marshal(c)
	verif.Assert("marshals", err == nil)
	verif.Assert("number", string(b) == fmt.Sprintf("%d", uint8(c)))
	var x lib.Channel
	err = json.Unmarshal(b, &x)
	verif.Assert("same", err == nil && x == c)
	var y lib.Channel
	bad := []string{`-1`, `1.5`, `"1"`, `true`, `[1]`, `{}`, `1e3`, `256`, `16`, `18446744073709551616`}
	err = json.Unmarshal([]byte(bad[verif.Choose("bad", len(bad))]), &y)
	verif.Assert("refused", err != nil)
}

// Delta times as text and JSON: exactly the 32-bit numbers.
func C22_ParseDelta() {
	v := verif.U64("value")
	s := fmt.Sprintf("%d", v)
	d, err := lib.ParseDelta(s)
	verif.Assert("range", (err == nil) == (v <= 0xffffffff))
	verif.Assert("value", err != nil || uint64(d) == v)
	verif.Assert("string", err != nil || d.String() == s)
	var x lib.Delta
	err = json.Unmarshal([]byte(s), &x)
	verif.Assert("json-range", (err == nil) == (v <= 0xffffffff))
	verif.Assert("json-value", err != nil || uint64(x) == v)
	if v <= 0xffffffff {
		b, err := json.Marshal(lib.Delta(v))
		verif.Assert("json", err == nil && string(b) == s)
	}
}

// Any text whatever is refused or read as the delta time that it spells.
func C22_DeltaText() {
	s := string(verif.BytesN("text", verif.Choose("length", 4)))
	d, err := lib.ParseDelta(s)
	n, digits := 0, len(s) > 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			digits = false
			break
		}
		n = 10*n + int(s[i]-'0')
	}
	verif.Assert("exactly", (err == nil) == digits)
	verif.Assert("value", err != nil || int(d) == n)
}
