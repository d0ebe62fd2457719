From 62c55b7cc97c2175beefd0d564e16e224f1fa9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:39 +0000
Subject: [PATCH 01/52] fix: set the continuation bit on the first byte of five
 byte delta times

---
 midi/lib/delta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/lib/delta.go b/midi/lib/delta.go
index 3402db5..ef8ffb6 100644
--- a/midi/lib/delta.go
+++ b/midi/lib/delta.go
@@ -52,7 +52,7 @@ func (d Delta) MarshalBinary() ([]byte, error) {
 	}
 
 	buffer[1] |= 0x80
-	buffer[0] = byte(b & 0x7f)
+	buffer[0] = 0x80 | byte(b&0x7f)
 
 	return buffer, nil
 }
-- 
2.43.0


From 9c498f6717ba71f76666fd5902e15cf62b5e38e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:16 +0000
Subject: [PATCH 02/52] fix: return the parse error for an invalid meta or MIDI
 event instead of panicking

---
 midi/MTrk.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 869730a..d860eaf 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -135,9 +135,11 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 			return nil, err
 		}
 
-		e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...)
-
-		return events.NewEvent(e), err
+		if e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...); err != nil {
+			return nil, err
+		} else {
+			return events.NewEvent(e), nil
+		}
 	}
 
 	// ... SysEx event
@@ -185,7 +187,11 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 
 	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
 
+	if err != nil {
+		return nil, err
+	}
+
 	ctx.RunningStatus = status
 
-	return events.NewEvent(e), err
+	return events.NewEvent(e), nil
 }
-- 
2.43.0


From 02f1292cb00038e42015615633e22c707c5628d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:17 +0000
Subject: [PATCH 03/52] fix: report an event that is cut short by the end of
 the track

---
 midi/MTrk.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index d860eaf..9e0b068 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -102,12 +102,19 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 	return nil
 }
 
-func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, error) {
+func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (event *events.Event, err error) {
 	rr := reader{
 		reader: r,
 		buffer: &bytes.Buffer{},
 	}
 
+	// ... EOF is only the end of the track if it is not in the middle of an event
+	defer func() {
+		if err == io.EOF && rr.buffer.Len() > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+	}()
+
 	delta, err := events.VLQ(rr)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9d9c5148cbedc0c1e817043b5e7e3c0c84a4b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:37 +0000
Subject: [PATCH 04/52] fix: return an error for a header or track chunk that
 is too short

---
 midi/MThd.go | 4 ++++
 midi/MTrk.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/midi/MThd.go b/midi/MThd.go
index 645530a..4347cce 100644
--- a/midi/MThd.go
+++ b/midi/MThd.go
@@ -72,6 +72,10 @@ func MakeMThd(format uint16, tracks uint16, division uint16, bytes ...byte) MThd
 }
 
 func (mthd *MThd) UnmarshalBinary(chunk []byte) error {
+	if len(chunk) < 14 {
+		return fmt.Errorf("invalid MThd chunk - expected 14 bytes, got %v", len(chunk))
+	}
+
 	if tag := string(chunk[0:4]); tag != "MThd" {
 		return fmt.Errorf("invalid MThd chunk - expected:'%v', got:'%v'", "MThd", tag)
 	} else {
diff --git a/midi/MTrk.go b/midi/MTrk.go
index 9e0b068..b257252 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -36,6 +36,10 @@ func NewMTrk() (*MTrk, error) {
 }
 
 func (chunk *MTrk) UnmarshalBinary(data []byte) error {
+	if len(data) < 8 {
+		return fmt.Errorf("Invalid MTrk chunk - expected at least 8 bytes, got %v", len(data))
+	}
+
 	tag := string(data[0:4])
 	if tag != "MTrk" {
 		return fmt.Errorf("Invalid MTrk chunk type (%s): expected 'MTrk'", tag)
-- 
2.43.0


From a5057eb38d4bbab9eac67914d3af4ac3e6e381e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:53 +0000
Subject: [PATCH 05/52] fix: report a chunk that runs past the end of the file,
 without allocating its declared length

---
 encoding/midi/decoder.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding/midi/decoder.go b/encoding/midi/decoder.go
index 8dad338..157b9ca 100644
--- a/encoding/midi/decoder.go
+++ b/encoding/midi/decoder.go
@@ -88,10 +88,11 @@ func (r *chunker) next() ([]byte, error) {
 	}
 
 	N := binary.BigEndian.Uint32(buffer[4:])
-	chunk := make([]byte, N)
-
-	if _, err := io.ReadFull(r.reader, chunk); err != nil {
+	chunk, err := io.ReadAll(io.LimitReader(r.reader, int64(N)))
+	if err != nil {
 		return nil, err
+	} else if uint32(len(chunk)) != N {
+		return nil, io.ErrUnexpectedEOF
 	}
 
 	return append(buffer, chunk...), nil
-- 
2.43.0


From b9142cdcc123d7925ab37f1dd7b6c4b3941caff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:21 +0000
Subject: [PATCH 06/52] fix: return an error for event data shorter than its
 declared length

---
 midi/events/meta/metaevent.go | 2 ++
 midi/events/midi/midievent.go | 2 ++
 midi/events/sysex/sysex.go    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index 6326ea4..4f31ff1 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -181,6 +181,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data - expected %v bytes, got %v", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/midi/midievent.go b/midi/events/midi/midievent.go
index a741740..d3785bc 100644
--- a/midi/events/midi/midievent.go
+++ b/midi/events/midi/midievent.go
@@ -137,6 +137,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data - expected %v bytes, got %v", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/sysex/sysex.go b/midi/events/sysex/sysex.go
index 48b2432..5771cf5 100644
--- a/midi/events/sysex/sysex.go
+++ b/midi/events/sysex/sysex.go
@@ -125,6 +125,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data - expected %v bytes, got %v", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
-- 
2.43.0


From db6ab2db89c1be913a0e9a2b9c8cfa6f12321586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:21 +0000
Subject: [PATCH 07/52] fix: do not allocate the declared length of event data
 before reading it

---
 midi/events/event.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/events/event.go b/midi/events/event.go
index 4186e47..0454a30 100644
--- a/midi/events/event.go
+++ b/midi/events/event.go
@@ -128,13 +128,13 @@ func VLF(r io.ByteReader) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, N)
+	bytes := []byte{}
 
 	for i := 0; i < int(N); i++ {
 		if b, err := r.ReadByte(); err != nil {
 			return nil, err
 		} else {
-			bytes[i] = b
+			bytes = append(bytes, b)
 		}
 	}
 
-- 
2.43.0


From 0763329bd4e646166cd72cfe6726e0aa343331a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:38 +0000
Subject: [PATCH 08/52] fix: encode pitch bend as two 7-bit data bytes

---
 midi/events/midi/pitch_bend.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 4cd3ac5..e3ba0b4 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -58,8 +58,8 @@ func (e *PitchBend) unmarshal(tick uint64, delta uint32, status lib.Status, data
 func (b PitchBend) MarshalBinary() (encoded []byte, err error) {
 	encoded = []byte{
 		byte(0xe0 | b.Channel),
-		byte(b.Bend >> 8 & 0x00ff),
-		byte(b.Bend >> 0 & 0x00ff),
+		byte(b.Bend >> 7 & 0x007f),
+		byte(b.Bend >> 0 & 0x007f),
 	}
 
 	return
-- 
2.43.0


From 1733967f581714a57e9739f722d1a33a2f51edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:58 +0000
Subject: [PATCH 09/52] fix: reject MIDI channel events with data bytes above
 127

---
 midi/events/midi/controller.go          | 10 ++++++++++
 midi/events/midi/note_off.go            |  6 ++++++
 midi/events/midi/note_on.go             |  6 ++++++
 midi/events/midi/pitch_bend.go          |  8 ++++++--
 midi/events/midi/polyphonic_pressure.go |  4 ++++
 midi/events/midi/program_change.go      |  6 ++++++
 6 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index 2fa5c6d..ebb0823 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -51,6 +51,14 @@ func (e *Controller) unmarshal(tick uint64, delta uint32, status lib.Status, dat
 		return fmt.Errorf("invalid channel (%v)", channel)
 	}
 
+	if controller > 127 {
+		return fmt.Errorf("invalid controller (%v)", controller)
+	}
+
+	if value > 127 {
+		return fmt.Errorf("invalid controller value (%v)", value)
+	}
+
 	*e = MakeController(tick, delta, channel, lib.LookupController(controller), value, bytes...)
 
 	return nil
@@ -77,6 +85,8 @@ func (e *Controller) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid Controller data")
+	} else if data[0] > 127 || data[1] > 127 {
+		return fmt.Errorf("Invalid Controller data (%v)", data)
 	} else {
 		controller := lib.LookupController(data[0])
 		value := data[1]
diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index f5d4867..fc0658b 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -48,6 +48,10 @@ func (e *NoteOff) unmarshal(tick uint64, delta uint32, status lib.Status, data [
 		return fmt.Errorf("Invalid NoteOff data (%v): expected note and velocity", data)
 	}
 
+	if data[0] > 127 {
+		return fmt.Errorf("Invalid NoteOff note (%v)", data[0])
+	}
+
 	var channel = lib.Channel(status & 0x0f)
 	var note = Note{
 		Value: data[0],
@@ -139,6 +143,8 @@ func (e *NoteOff) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid NoteOff data")
+	} else if note := data[0]; note > 127 {
+		return fmt.Errorf("Invalid NoteOff note (%v)", note)
 	} else if velocity := data[1]; velocity > 127 {
 		return fmt.Errorf("Invalid NoteOff velocity (%v)", velocity)
 	} else {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 7d1a3d7..69b16e3 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -49,6 +49,10 @@ func (e *NoteOn) unmarshal(tick uint64, delta uint32, status lib.Status, data []
 		return fmt.Errorf("Invalid NoteOff data (%v): expected note and velocity", data)
 	}
 
+	if data[0] > 127 {
+		return fmt.Errorf("Invalid NoteOn note (%v)", data[0])
+	}
+
 	var channel = lib.Channel(status & 0x0f)
 	var note = Note{
 		Value: data[0],
@@ -89,6 +93,8 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid NoteOn data")
+	} else if note := data[0]; note > 127 {
+		return fmt.Errorf("Invalid NoteOn note (%v)", note)
 	} else if velocity := data[1]; velocity > 127 {
 		return fmt.Errorf("Invalid NoteOn velocity (%v)", velocity)
 	} else {
diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index e3ba0b4..1d2ef0d 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -41,6 +41,10 @@ func (e *PitchBend) unmarshal(tick uint64, delta uint32, status lib.Status, data
 		return fmt.Errorf("Invalid PitchBend data (%v): expected bend", data)
 	}
 
+	if data[0] > 127 || data[1] > 127 {
+		return fmt.Errorf("Invalid PitchBend data (%v)", data)
+	}
+
 	channel := lib.Channel(status & 0x0f)
 	bend := uint16(data[0])
 	bend <<= 7
@@ -76,8 +80,8 @@ func (e *PitchBend) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid PitchBend data")
-	} else if pressure := data[0]; pressure > 127 {
-		return fmt.Errorf("InvalidPitchBend pressure (%v)", pressure)
+	} else if data[0] > 127 || data[1] > 127 {
+		return fmt.Errorf("Invalid PitchBend data (%v)", data)
 	} else {
 		bend := uint16(data[0])
 		bend <<= 7
diff --git a/midi/events/midi/polyphonic_pressure.go b/midi/events/midi/polyphonic_pressure.go
index 271136f..78b0ac7 100644
--- a/midi/events/midi/polyphonic_pressure.go
+++ b/midi/events/midi/polyphonic_pressure.go
@@ -48,6 +48,10 @@ func (e *PolyphonicPressure) unmarshal(tick uint64, delta uint32, status lib.Sta
 	var channel = lib.Channel(status & 0x0f)
 	var pressure = data[0]
 
+	if pressure > 127 {
+		return fmt.Errorf("invalid pressure (%v)", pressure)
+	}
+
 	*e = MakePolyphonicPressure(tick, delta, channel, pressure, bytes...)
 
 	return nil
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index 2045c74..5b53d52 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -46,6 +46,10 @@ func (e *ProgramChange) unmarshal(tick uint64, delta uint32, status lib.Status,
 	var channel = lib.Channel(status & 0x0f)
 	var program = data[0]
 
+	if program > 127 {
+		return fmt.Errorf("Invalid %v program (%v)", lib.TagProgramChange, program)
+	}
+
 	*e = MakeProgramChange(tick, delta, channel, 0, program, bytes...)
 
 	return nil
@@ -71,6 +75,8 @@ func (e *ProgramChange) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 1 {
 		return fmt.Errorf("Invalid ProgramChange data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid ProgramChange program (%v)", data[0])
 	} else {
 		bank := uint16(0)
 		program := data[0]
-- 
2.43.0


From 60f481f8b830ee4baf46d4203f43b35bbce7dfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:14 +0000
Subject: [PATCH 10/52] fix: reject text and JSON MIDI channel events with
 values that do not fit in a data byte

---
 midi/events/midi/channel_pressure.go    | 2 ++
 midi/events/midi/controller.go          | 8 ++++++++
 midi/events/midi/note_off.go            | 4 ++++
 midi/events/midi/note_on.go             | 4 ++++
 midi/events/midi/pitch_bend.go          | 4 ++++
 midi/events/midi/polyphonic_pressure.go | 2 ++
 midi/events/midi/program_change.go      | 4 ++++
 7 files changed, 28 insertions(+)

diff --git a/midi/events/midi/channel_pressure.go b/midi/events/midi/channel_pressure.go
index f2ed3af..02df880 100644
--- a/midi/events/midi/channel_pressure.go
+++ b/midi/events/midi/channel_pressure.go
@@ -140,6 +140,8 @@ func (e *ChannelPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagChannelPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid ChannelPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakeChannelPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index ebb0823..927cdfa 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -109,6 +109,10 @@ func (e *Controller) UnmarshalText(text []byte) error {
 		return err
 	} else if value, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
+	} else if controller > 127 {
+		return fmt.Errorf("invalid controller (%v)", controller)
+	} else if value > 127 {
+		return fmt.Errorf("invalid controller value (%v)", value)
 	} else {
 		*e = MakeController(0, uint32(delta), lib.Channel(channel), lib.LookupController(uint8(controller)), uint8(value), []byte{}...)
 	}
@@ -149,6 +153,10 @@ func (e *Controller) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagController) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Controller.ID > 127 {
+		return fmt.Errorf("invalid controller (%v)", t.Controller.ID)
+	} else if t.Value > 127 {
+		return fmt.Errorf("invalid controller value (%v)", t.Value)
 	} else {
 		*e = MakeController(0, uint32(t.Delta), t.Channel, t.Controller, t.Value, []byte{}...)
 	}
diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index fc0658b..7b0beab 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -226,6 +226,10 @@ func (e *NoteOff) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOff) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Note.Value > 127 {
+		return fmt.Errorf("invalid NoteOff note (%v)", t.Note.Value)
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOff velocity (%v)", t.Velocity)
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 69b16e3..242a838 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -166,6 +166,10 @@ func (e *NoteOn) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOn) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Note.Value > 127 {
+		return fmt.Errorf("invalid NoteOn note (%v)", t.Note.Value)
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOn velocity (%v)", t.Velocity)
 	} else {
 		note := Note{
 			Value: t.Note.Value,
diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 1d2ef0d..43e197d 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -104,6 +104,8 @@ func (e *PitchBend) UnmarshalText(text []byte) error {
 		return err
 	} else if bend, err := strconv.ParseUint(match[3], 10, 16); err != nil {
 		return err
+	} else if bend > 16383 {
+		return fmt.Errorf("invalid PitchBend bend (%v)", bend)
 	} else {
 		*e = MakePitchBend(0, uint32(delta), lib.Channel(channel), uint16(bend), []byte{}...)
 	}
@@ -140,6 +142,8 @@ func (e *PitchBend) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPitchBend) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Bend > 16383 {
+		return fmt.Errorf("invalid PitchBend bend (%v)", t.Bend)
 	} else {
 		*e = MakePitchBend(0, uint32(t.Delta), t.Channel, t.Bend, []byte{}...)
 	}
diff --git a/midi/events/midi/polyphonic_pressure.go b/midi/events/midi/polyphonic_pressure.go
index 78b0ac7..b9930cd 100644
--- a/midi/events/midi/polyphonic_pressure.go
+++ b/midi/events/midi/polyphonic_pressure.go
@@ -136,6 +136,8 @@ func (e *PolyphonicPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPolyphonicPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid PolyphonicPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakePolyphonicPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index 5b53d52..e5d2d4e 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -100,6 +100,8 @@ func (e *ProgramChange) UnmarshalText(text []byte) error {
 		return err
 	} else if program, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
+	} else if program > 127 {
+		return fmt.Errorf("invalid ProgramChange program (%v)", program)
 	} else {
 		*e = MakeProgramChange(0, uint32(delta), lib.Channel(channel), uint16(bank), uint8(program), []byte{}...)
 	}
@@ -140,6 +142,8 @@ func (e *ProgramChange) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagProgramChange) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Program > 127 {
+		return fmt.Errorf("invalid ProgramChange program (%v)", t.Program)
 	} else {
 		*e = MakeProgramChange(0, uint32(t.Delta), t.Channel, t.Bank, t.Program, []byte{}...)
 	}
-- 
2.43.0


From 128e2d2884390872415664e0f410de96ee0727c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:16 +0000
Subject: [PATCH 11/52] fix: parse note names in the octaves below 0, with the
 selected middle C convention, and reject notes out of range

---
 midi/events/midi/note_off.go |  2 +-
 midi/events/midi/note_on.go  | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index 7b0beab..7fb2ffe 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -167,7 +167,7 @@ func (n *NoteOff) UnmarshalText(bytes []byte) error {
 	n.tag = lib.TagNoteOff
 	n.Status = 0x80
 
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 242a838..c391e56 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -111,7 +111,7 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *NoteOn) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
@@ -243,11 +243,22 @@ func ParseNote(ctx *context.Context, s string) (Note, error) {
 		return Note{}, err
 	} else if octave, err := strconv.ParseInt(match[2], 10, 8); err != nil {
 		return Note{}, err
+	} else if value := 12*(int(octave)+octaves()) + note.Ord; value < 0 || value > 127 {
+		return Note{}, fmt.Errorf("note out of range (%v)", s)
 	} else {
 		return Note{
-			Value: uint8(12*int8(octave+1) + int8(note.Ord)),
+			Value: uint8(value),
 			Name:  fmt.Sprintf("%s%d", note.Name, octave),
 			Alias: fmt.Sprintf("%s%d", note.Name, octave),
 		}, nil
 	}
 }
+
+// Offset of the octave number of a note name for the current 'middle C' convention (cf. FormatNote).
+func octaves() int {
+	if context.MiddleC == lib.C4 {
+		return 2
+	}
+
+	return 1
+}
-- 
2.43.0


From 3026cd6330dceba7b5158a0b7fdfd94f6a9c88d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:55 +0000
Subject: [PATCH 12/52] fix: set the continuation bit on the first byte of five
 byte variable length quantities

---
 midi/lib/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/lib/types.go b/midi/lib/types.go
index 1f8b8ba..7e055cf 100644
--- a/midi/lib/types.go
+++ b/midi/lib/types.go
@@ -23,7 +23,7 @@ func vlq2bin(v uint32) []byte {
 	}
 
 	buffer[1] |= 0x80
-	buffer[0] = byte(v & 0x7f)
+	buffer[0] = 0x80 | byte(v&0x7f)
 
 	return buffer
 }
-- 
2.43.0


From 81abdbbb22fdaf52f09a56fdbd021487b85a96d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:57 +0000
Subject: [PATCH 13/52] fix: keep the end marker of a decoded SysEx
 continuation message

---
 midi/events/sysex/continuation_message.go | 26 +++++++----------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/midi/events/sysex/continuation_message.go b/midi/events/sysex/continuation_message.go
index 738a692..bd818c0 100644
--- a/midi/events/sysex/continuation_message.go
+++ b/midi/events/sysex/continuation_message.go
@@ -47,16 +47,12 @@ func (e *SysExContinuationMessage) unmarshal(tick uint64, delta uint32, status l
 		return fmt.Errorf("Invalid SysExContinuationMessage event type (%02x): expected 'F7'", status)
 	}
 
-	d := data
-	if len(data) > 0 {
-		terminator := data[len(d)-1]
-		if terminator == 0xf7 {
-			d = data[:len(d)-1]
-		}
+	if N := len(data); N > 0 && data[N-1] == 0xf7 {
+		*e = MakeSysExContinuationEndMessage(tick, delta, data[:N-1], bytes...)
+	} else {
+		*e = MakeSysExContinuationMessage(tick, delta, data, bytes...)
 	}
 
-	*e = MakeSysExContinuationMessage(tick, delta, d, bytes...)
-
 	return nil
 }
 
@@ -90,17 +86,11 @@ func (e *SysExContinuationMessage) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSysExContinuation, remaining[0])
 	} else if data, err := vlf(remaining[1:]); err != nil {
 		return err
+	} else if N := len(data); N > 0 && data[N-1] == 0xf7 {
+		// ctx.Casio = false
+		*e = MakeSysExContinuationEndMessage(0, uint32(delta), data[:N-1], bytes...)
 	} else {
-		d := data
-		if len(data) > 0 {
-			terminator := data[len(d)-1]
-			if terminator == 0xf7 {
-				d = data[:len(d)-1]
-				// ctx.Casio = false
-			}
-		}
-
-		*e = MakeSysExContinuationMessage(0, uint32(delta), d, bytes...)
+		*e = MakeSysExContinuationMessage(0, uint32(delta), data, bytes...)
 	}
 
 	return nil
-- 
2.43.0


From 314550e2c063e683c37f9af43697bfae2a1df018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:12 +0000
Subject: [PATCH 14/52] fix: decode SysEx messages without data bytes

---
 midi/events/sysex/message.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index fff7472..60efabf 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -58,7 +58,7 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 	manufacturer := lib.LookupManufacturer(id)
 	d := data[1:]
 
-	if d[len(d)-1] != 0xf7 {
+	if len(d) == 0 || d[len(d)-1] != 0xf7 {
 		*e = MakeSysExMessage(tick, delta, manufacturer, d, bytes...)
 	} else {
 		*e = MakeSysExSingleMessage(tick, delta, manufacturer, d[:len(d)-1], bytes...)
@@ -98,12 +98,14 @@ func (e *SysExMessage) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSysExMessage, remaining[0])
 	} else if data, err := vlf(remaining[1:]); err != nil {
 		return err
+	} else if len(data) == 0 {
+		return fmt.Errorf("Invalid SysExMessage event data (0 bytes)")
 	} else {
 		id := data[0:1]
 		manufacturer := lib.LookupManufacturer(id)
 		d := data[1:]
 
-		if d[len(d)-1] != 0xf7 {
+		if len(d) == 0 || d[len(d)-1] != 0xf7 {
 			// ctx.Casio = true
 			*e = MakeSysExMessage(0, uint32(delta), manufacturer, d, bytes...)
 		} else {
-- 
2.43.0


From e4e4fc8e9b705d28c8ff60bd60af29ef15a7f849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:33 +0000
Subject: [PATCH 15/52] fix: decode the three byte manufacturer ID of SysEx
 messages

---
 midi/events/sysex/message.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index 60efabf..5746a77 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -54,9 +54,8 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 		return fmt.Errorf("Invalid SysExMessage event data (0 bytes")
 	}
 
-	id := data[0:1]
+	id, d := split(data)
 	manufacturer := lib.LookupManufacturer(id)
-	d := data[1:]
 
 	if len(d) == 0 || d[len(d)-1] != 0xf7 {
 		*e = MakeSysExMessage(tick, delta, manufacturer, d, bytes...)
@@ -67,6 +66,15 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 	return nil
 }
 
+// Splits the manufacturer ID (which is 3 bytes long if the first byte is 0) from the message data.
+func split(data []byte) ([]byte, []byte) {
+	if len(data) >= 3 && data[0] == 0x00 && data[1] < 0x80 && data[2] < 0x80 {
+		return data[0:3], data[3:]
+	}
+
+	return data[0:1], data[1:]
+}
+
 func (e SysExMessage) MarshalBinary() ([]byte, error) {
 	status := byte(e.Status)
 
@@ -101,9 +109,8 @@ func (e *SysExMessage) UnmarshalBinary(bytes []byte) error {
 	} else if len(data) == 0 {
 		return fmt.Errorf("Invalid SysExMessage event data (0 bytes)")
 	} else {
-		id := data[0:1]
+		id, d := split(data)
 		manufacturer := lib.LookupManufacturer(id)
-		d := data[1:]
 
 		if len(d) == 0 || d[len(d)-1] != 0xf7 {
 			// ctx.Casio = true
-- 
2.43.0


From 95d4b39951d4f8be29c88e8851ed3429570f6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:04 +0000
Subject: [PATCH 16/52] fix: reject manufacturer ID and data bytes that are out
 of range in JSON

---
 midi/lib/hex.go          | 4 ++++
 midi/lib/manufacturer.go | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/midi/lib/hex.go b/midi/lib/hex.go
index 9276652..014a5df 100644
--- a/midi/lib/hex.go
+++ b/midi/lib/hex.go
@@ -50,6 +50,10 @@ func (h *Hex) UnmarshalJSON(bytes []byte) error {
 
 	buffer := []byte{}
 	for _, b := range v {
+		if b > 255 {
+			return fmt.Errorf("Invalid byte value (%v)", b)
+		}
+
 		buffer = append(buffer, byte(b))
 	}
 
diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index f89c662..bf775ae 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -44,6 +44,10 @@ func (m *Manufacturer) UnmarshalJSON(bytes []byte) error {
 
 	id := []byte{}
 	for _, b := range manufacturer.ID {
+		if b > 127 {
+			return fmt.Errorf("Invalid manufacturer ID byte (%v)", b)
+		}
+
 		id = append(id, byte(b))
 	}
 
@@ -74,7 +78,7 @@ func LookupManufacturer(id []byte) Manufacturer {
 
 	case 3:
 		key := fmt.Sprintf("%02X%02X", id[1], id[2])
-		if m, ok := manufacturers[key]; ok {
+		if m, ok := manufacturers[key]; ok && id[0] == 0x00 {
 			return m
 		}
 	}
-- 
2.43.0


From c300ac999bcfd27003bf6ea83f3593fc1085c61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:21 +0000
Subject: [PATCH 17/52] fix: keep the region and name of manufacturers loaded
 from a configuration file

---
 midi/lib/manufacturer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index bf775ae..8a393b6 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -98,10 +98,12 @@ func FindManufacturer(s string) (Manufacturer, error) {
 
 func LoadManufacturers(r io.Reader) (map[string]Manufacturer, error) {
 	conf := struct {
-		Manufacturers []Manufacturer `json:"manufacturers"`
-	}{
-		Manufacturers: []Manufacturer{},
-	}
+		Manufacturers []struct {
+			ID     Hex    `json:"id"`
+			Region string `json:"region"`
+			Name   string `json:"name"`
+		} `json:"manufacturers"`
+	}{}
 
 	bytes, err := ioutil.ReadAll(r)
 	if err != nil {
-- 
2.43.0


From a0be82da7e9ddcc277c3beb7625d820ac9149cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:44 +0000
Subject: [PATCH 18/52] fix: encode the length of text and sequencer specific
 meta events as a variable length quantity

---
 midi/events/meta/copyright.go          |  9 +++------
 midi/events/meta/cue_point.go          |  9 +++------
 midi/events/meta/device_name.go        |  9 +++------
 midi/events/meta/instrument_name.go    |  9 +++------
 midi/events/meta/lyric.go              |  9 +++------
 midi/events/meta/marker.go             |  9 +++------
 midi/events/meta/program_name.go       |  9 +++------
 midi/events/meta/sequencer_specific.go | 11 ++++-------
 midi/events/meta/text.go               |  9 +++------
 9 files changed, 28 insertions(+), 55 deletions(-)

diff --git a/midi/events/meta/copyright.go b/midi/events/meta/copyright.go
index c04a9ff..ead8a25 100644
--- a/midi/events/meta/copyright.go
+++ b/midi/events/meta/copyright.go
@@ -35,12 +35,9 @@ func (e *Copyright) unmarshal(tick uint64, delta lib.Delta, status byte, data []
 }
 
 func (e Copyright) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Copyright)),
-	},
-		[]byte(e.Copyright)...), nil
+	text, err := lib.VLF(e.Copyright).MarshalBinary()
+
+	return append([]byte{byte(e.Status), byte(e.Type)}, text...), err
 }
 
 func (e *Copyright) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/cue_point.go b/midi/events/meta/cue_point.go
index 697737a..93570b0 100644
--- a/midi/events/meta/cue_point.go
+++ b/midi/events/meta/cue_point.go
@@ -36,12 +36,9 @@ func (e *CuePoint) unmarshal(tick uint64, delta lib.Delta, status byte, data []b
 }
 
 func (e CuePoint) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.CuePoint)),
-	},
-		[]byte(e.CuePoint)...), nil
+	text, err := lib.VLF(e.CuePoint).MarshalBinary()
+
+	return append([]byte{byte(e.Status), byte(e.Type)}, text...), err
 }
 
 func (e *CuePoint) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/device_name.go b/midi/events/meta/device_name.go
index 7dfe32c..92dfdb6 100644
--- a/midi/events/meta/device_name.go
+++ b/midi/events/meta/device_name.go
@@ -36,12 +36,9 @@ func (e *DeviceName) unmarshal(tick uint64, delta lib.Delta, status byte, data [
 }
 
 func (d DeviceName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(d.Status),
-		byte(d.Type),
-		byte(len(d.Name)),
-	},
-		[]byte(d.Name)...), nil
+	text, err := lib.VLF(d.Name).MarshalBinary()
+
+	return append([]byte{byte(d.Status), byte(d.Type)}, text...), err
 }
 
 func (e *DeviceName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/instrument_name.go b/midi/events/meta/instrument_name.go
index 5f61f73..5efef98 100644
--- a/midi/events/meta/instrument_name.go
+++ b/midi/events/meta/instrument_name.go
@@ -36,12 +36,9 @@ func (e *InstrumentName) unmarshal(tick uint64, delta lib.Delta, status byte, da
 }
 
 func (e InstrumentName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Name)),
-	},
-		[]byte(e.Name)...), nil
+	text, err := lib.VLF(e.Name).MarshalBinary()
+
+	return append([]byte{byte(e.Status), byte(e.Type)}, text...), err
 }
 
 func (e *InstrumentName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/lyric.go b/midi/events/meta/lyric.go
index b2b80b9..2571fd1 100644
--- a/midi/events/meta/lyric.go
+++ b/midi/events/meta/lyric.go
@@ -36,12 +36,9 @@ func (e *Lyric) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte
 }
 
 func (l Lyric) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(l.Status),
-		byte(l.Type),
-		byte(len(l.Lyric)),
-	},
-		[]byte(l.Lyric)...), nil
+	text, err := lib.VLF(l.Lyric).MarshalBinary()
+
+	return append([]byte{byte(l.Status), byte(l.Type)}, text...), err
 }
 
 func (e *Lyric) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/marker.go b/midi/events/meta/marker.go
index 568a847..fef91b8 100644
--- a/midi/events/meta/marker.go
+++ b/midi/events/meta/marker.go
@@ -36,12 +36,9 @@ func (e *Marker) unmarshal(tick uint64, delta lib.Delta, status byte, data []byt
 }
 
 func (m Marker) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(m.Status),
-		byte(m.Type),
-		byte(len(m.Marker)),
-	},
-		[]byte(m.Marker)...), nil
+	text, err := lib.VLF(m.Marker).MarshalBinary()
+
+	return append([]byte{byte(m.Status), byte(m.Type)}, text...), err
 }
 
 func (e *Marker) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/program_name.go b/midi/events/meta/program_name.go
index e2fb57c..ab5bd5c 100644
--- a/midi/events/meta/program_name.go
+++ b/midi/events/meta/program_name.go
@@ -36,12 +36,9 @@ func (e *ProgramName) unmarshal(tick uint64, delta lib.Delta, status byte, data
 }
 
 func (e ProgramName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Name)),
-	},
-		[]byte(e.Name)...), nil
+	text, err := lib.VLF(e.Name).MarshalBinary()
+
+	return append([]byte{byte(e.Status), byte(e.Type)}, text...), err
 }
 
 func (e *ProgramName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index d052294..db3b86d 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -44,17 +44,14 @@ func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status
 	return nil
 }
 
-// FIXME encode as VLF
 func (e SequencerSpecificEvent) MarshalBinary() (encoded []byte, err error) {
-	b := []byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Manufacturer.ID) + len(e.Data))}
-
+	b := []byte{}
 	b = append(b, e.Manufacturer.ID...)
 	b = append(b, e.Data...)
 
-	return b, nil
+	data, err := lib.VLF(b).MarshalBinary()
+
+	return append([]byte{byte(e.Status), byte(e.Type)}, data...), err
 }
 
 func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/text.go b/midi/events/meta/text.go
index 05be373..3e4016b 100644
--- a/midi/events/meta/text.go
+++ b/midi/events/meta/text.go
@@ -37,12 +37,9 @@ func (e *Text) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte,
 }
 
 func (e Text) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Text)),
-	},
-		[]byte(e.Text)...), nil
+	text, err := lib.VLF(e.Text).MarshalBinary()
+
+	return append([]byte{byte(e.Status), byte(e.Type)}, text...), err
 }
 
 func (e *Text) UnmarshalBinary(bytes []byte) error {
-- 
2.43.0


From ff1eceb6b9b7619afe29a292297f951500ece0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:46 +0000
Subject: [PATCH 19/52] fix: return an error for a sequencer specific event
 with an incomplete manufacturer ID

---
 midi/events/meta/sequencer_specific.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index db3b86d..027f92a 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -31,6 +31,10 @@ func MakeSequencerSpecificEvent(tick uint64, delta lib.Delta, manufacturer lib.M
 }
 
 func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte, bytes ...byte) error {
+	if len(data) < 1 || (data[0] == 0x00 && len(data) < 3) {
+		return fmt.Errorf("Invalid SequencerSpecificEvent manufacturer ID (%v)", data)
+	}
+
 	id := data[0:1]
 	d := data[1:]
 
@@ -65,8 +69,8 @@ func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequencerSpecificEvent, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 2 {
-		return fmt.Errorf("Invalid SequencerSpecificEvent channel data")
+	} else if len(data) < 1 || (data[0] == 0x00 && len(data) < 3) {
+		return fmt.Errorf("Invalid SequencerSpecificEvent manufacturer ID (%v)", data)
 	} else {
 		id := data[0:1]
 		d := data[1:]
-- 
2.43.0


From d9fb4bbd96682b8f0412f8047fc7916ebf41d9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:42 +0000
Subject: [PATCH 20/52] fix: reject time signatures with a denominator that
 cannot be encoded

---
 midi/events/meta/time_signature.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index 5d271e5..f1556bb 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -18,13 +18,6 @@ type TimeSignature struct {
 }
 
 func MakeTimeSignature(tick uint64, delta lib.Delta, numerator, denominator, ticksPerClick, thirtySecondsPerQuarter uint8, bytes ...byte) TimeSignature {
-	d := 0
-	dd := uint8(1)
-	for dd < denominator {
-		dd *= 2
-		d += 1
-	}
-
 	return TimeSignature{
 		event: event{
 			tick:   tick,
@@ -50,6 +43,10 @@ func (e *TimeSignature) unmarshal(tick uint64, delta lib.Delta, status byte, dat
 	ticksPerClick := data[2]
 	thirtySecondsPerQuarter := data[3]
 
+	if data[1] > 7 {
+		return fmt.Errorf("Invalid TimeSignature denominator (2^%d): expected a value in the interval [2^0..2^7]", data[1])
+	}
+
 	denominator := uint8(1)
 	for i := uint8(0); i < data[1]; i++ {
 		denominator *= 2
@@ -65,6 +62,10 @@ func (t TimeSignature) String() string {
 }
 
 func (t TimeSignature) MarshalBinary() (encoded []byte, err error) {
+	if !isPowerOf2(t.Denominator) {
+		return nil, fmt.Errorf("Invalid TimeSignature denominator (%d): expected a power of 2", t.Denominator)
+	}
+
 	d := 0
 	denominator := uint8(1)
 	for denominator < t.Denominator {
@@ -103,6 +104,10 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 		ticksPerClick := data[2]
 		thirtySecondsPerQuarter := data[3]
 
+		if data[1] > 7 {
+			return fmt.Errorf("Invalid TimeSignature denominator (2^%d): expected a value in the interval [2^0..2^7]", data[1])
+		}
+
 		denominator := uint8(1)
 		for i := uint8(0); i < data[1]; i++ {
 			denominator *= 2
@@ -115,7 +120,7 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *TimeSignature) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([1-9][0-8]*)/32 per quarter`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([0-9]+)/32 per quarter`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 6 {
@@ -126,6 +131,8 @@ func (e *TimeSignature) UnmarshalText(bytes []byte) error {
 		return err
 	} else if denominator, err := strconv.ParseUint(match[3], 10, 8); err != nil {
 		return err
+	} else if !isPowerOf2(uint8(denominator)) {
+		return fmt.Errorf("invalid TimeSignature denominator (%v)", denominator)
 	} else if ticks, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
 	} else if beats, err := strconv.ParseUint(match[5], 10, 8); err != nil {
@@ -182,9 +189,15 @@ func (e *TimeSignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagTimeSignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if !isPowerOf2(t.Denominator) {
+		return fmt.Errorf("invalid TimeSignature denominator (%v)", t.Denominator)
 	} else {
 		*e = MakeTimeSignature(0, t.Delta, t.Numerator, t.Denominator, t.TicksPerClick, t.ThirtySecondsPerQuarter, []byte{}...)
 	}
 
 	return nil
 }
+
+func isPowerOf2(v uint8) bool {
+	return v != 0 && v&(v-1) == 0
+}
-- 
2.43.0


From 0c0d7108f611812147bb17d9ec569345017c7d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:44 +0000
Subject: [PATCH 21/52] fix: return an error for text and JSON SMPTE offsets
 that are out of range

---
 midi/events/meta/smpte_offset.go | 36 ++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index cf02b93..1dd672d 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -224,10 +224,8 @@ func (e *SMPTEOffset) UnmarshalText(text []byte) error {
 		return err
 	} else if fractions, err := strconv.ParseUint(match[7], 10, 8); err != nil {
 		return err
-	} else if frameRate != 24 && frameRate != 25 && frameRate != 29 && frameRate != 30 {
-		return fmt.Errorf("Invalid SMPTE offset frame rate (%02X): expected a value in the set [24,25,29,30]", frameRate)
-	} else if fractions > 100 {
-		return fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100", fractions)
+	} else if err := validateSMPTEOffset(uint8(hour), uint8(minute), uint8(second), uint8(frameRate), uint8(frames), uint8(fractions)); err != nil {
+		return err
 	} else {
 		*e = MakeSMPTEOffset(0, delta, uint8(hour), uint8(minute), uint8(second), uint8(frameRate), uint8(frames), uint8(fractions), []byte{}...)
 	}
@@ -279,9 +277,39 @@ func (e *SMPTEOffset) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagSMPTEOffset) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if err := validateSMPTEOffset(t.Hour, t.Minute, t.Second, t.FrameRate, t.Frames, t.FractionalFrames); err != nil {
+		return err
 	} else {
 		*e = MakeSMPTEOffset(0, t.Delta, t.Hour, t.Minute, t.Second, t.FrameRate, t.Frames, t.FractionalFrames, []byte{}...)
 	}
 
 	return nil
 }
+
+func validateSMPTEOffset(hour, minute, second, frameRate, frames, fractions uint8) error {
+	if hour > 24 {
+		return fmt.Errorf("Invalid SMPTE offset hour (%d): expected a value in the interval [0..24]", hour)
+	}
+
+	if minute > 59 {
+		return fmt.Errorf("Invalid SMPTE offset minute (%d): expected a value in the interval [0..59]", minute)
+	}
+
+	if second > 59 {
+		return fmt.Errorf("Invalid SMPTE offset second (%d): expected a value in the interval [0..59]", second)
+	}
+
+	if frameRate != 24 && frameRate != 25 && frameRate != 29 && frameRate != 30 {
+		return fmt.Errorf("Invalid SMPTE offset frame rate (%d): expected a value in the set [24,25,29,30]", frameRate)
+	}
+
+	if frames >= frameRate {
+		return fmt.Errorf("Invalid SMPTE offset frames (%d): expected a value in the interval [0..%d]", frames, frameRate-1)
+	}
+
+	if fractions > 100 {
+		return fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100]", fractions)
+	}
+
+	return nil
+}
-- 
2.43.0


From f1ca052b03c6a82b117dea740de66632955f0fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:46 +0000
Subject: [PATCH 22/52] fix: return an error for unknown text and JSON key
 signatures

---
 midi/events/meta/key_signature.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index 8cac694..8c2ba24 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -154,12 +154,14 @@ func (e *KeySignature) UnmarshalText(text []byte) error {
 	} else {
 		accidentals := int8(0)
 		keyType := lib.KeyType(0)
+		found := false
 		key := strings.ToLower(fmt.Sprintf("%v %v", match[2], match[3]))
 
 		for _, scale := range lib.MAJOR_SCALES {
 			if strings.ToLower(scale.Name) == key {
 				accidentals = scale.Accidentals
 				keyType = scale.Type
+				found = true
 				break
 			}
 		}
@@ -168,10 +170,15 @@ func (e *KeySignature) UnmarshalText(text []byte) error {
 			if strings.ToLower(scale.Name) == key {
 				accidentals = scale.Accidentals
 				keyType = scale.Type
+				found = true
 				break
 			}
 		}
 
+		if !found {
+			return fmt.Errorf("unknown key signature (%v %v)", match[2], match[3])
+		}
+
 		*e = MakeKeySignature(0, delta, accidentals, keyType, []byte{}...)
 	}
 
@@ -212,6 +219,12 @@ func (e *KeySignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagKeySignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.KeyType != lib.Major && t.KeyType != lib.Minor {
+		return fmt.Errorf("invalid key signature key type (%v)", t.KeyType)
+	} else if _, ok := lib.MajorScale(t.Accidentals); t.KeyType == lib.Major && !ok {
+		return fmt.Errorf("invalid major key signature (%v accidentals)", t.Accidentals)
+	} else if _, ok := lib.MinorScale(t.Accidentals); t.KeyType == lib.Minor && !ok {
+		return fmt.Errorf("invalid minor key signature (%v accidentals)", t.Accidentals)
 	} else {
 		*e = MakeKeySignature(0, t.Delta, t.Accidentals, t.KeyType, []byte{}...)
 	}
-- 
2.43.0


From 121cf77d5a48af4f9562a2724cf73eb4cce0630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:48 +0000
Subject: [PATCH 23/52] fix: reject text and JSON tempos that do not fit in 24
 bits

---
 midi/events/meta/tempo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/midi/events/meta/tempo.go b/midi/events/meta/tempo.go
index 1c59834..380a8a0 100644
--- a/midi/events/meta/tempo.go
+++ b/midi/events/meta/tempo.go
@@ -99,6 +99,8 @@ func (e *Tempo) UnmarshalText(text []byte) error {
 		return err
 	} else if tempo, err := strconv.ParseUint(match[2], 10, 32); err != nil {
 		return err
+	} else if tempo > 0xffffff {
+		return fmt.Errorf("invalid tempo (%v)", tempo)
 	} else {
 		*e = MakeTempo(0, delta, uint32(tempo), []byte{}...)
 	}
@@ -135,6 +137,8 @@ func (e *Tempo) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagTempo) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Tempo > 0xffffff {
+		return fmt.Errorf("invalid tempo (%v)", t.Tempo)
 	} else {
 		*e = MakeTempo(0, t.Delta, t.Tempo, []byte{}...)
 	}
-- 
2.43.0


From 1d4045cbb853851eb0679f76762f819fc0408fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:50 +0000
Subject: [PATCH 24/52] fix: return an error for a sequence number event
 without two data bytes

---
 midi/events/meta/sequence_number.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/midi/events/meta/sequence_number.go b/midi/events/meta/sequence_number.go
index 3b26242..e988672 100644
--- a/midi/events/meta/sequence_number.go
+++ b/midi/events/meta/sequence_number.go
@@ -63,6 +63,8 @@ func (e *SequenceNumber) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequenceNumber, remaining[1])
 	} else if v, err := vlf(remaining[2:]); err != nil {
 		return err
+	} else if len(v) != 2 {
+		return fmt.Errorf("Invalid SequenceNumber length (%d): expected '2'", len(v))
 	} else {
 		*e = MakeSequenceNumber(0, delta, binary.BigEndian.Uint16(v), bytes...)
 	}
-- 
2.43.0


From 8954ad030007d8abc8fe09f13aa654c14b42f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:21 +0000
Subject: [PATCH 25/52] fix: reject end of track events with data bytes

---
 midi/events/meta/end_of_track.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/midi/events/meta/end_of_track.go b/midi/events/meta/end_of_track.go
index 829b771..007454d 100644
--- a/midi/events/meta/end_of_track.go
+++ b/midi/events/meta/end_of_track.go
@@ -26,6 +26,10 @@ func MakeEndOfTrack(tick uint64, delta lib.Delta, bytes ...byte) EndOfTrack {
 }
 
 func (e *EndOfTrack) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte, bytes ...byte) error {
+	if len(data) != 0 {
+		return fmt.Errorf("Invalid EndOfTrack length (%d): expected '0'", len(data))
+	}
+
 	*e = MakeEndOfTrack(tick, delta, bytes...)
 
 	return nil
@@ -48,6 +52,10 @@ func (e *EndOfTrack) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v status (%02X)", lib.TagEndOfTrack, remaining[0])
 	} else if !equals(remaining[1], lib.TypeEndOfTrack) {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagEndOfTrack, remaining[1])
+	} else if data, err := vlf(remaining[2:]); err != nil {
+		return err
+	} else if len(data) != 0 {
+		return fmt.Errorf("Invalid EndOfTrack length (%d): expected '0'", len(data))
 	} else {
 		*e = MakeEndOfTrack(0, delta, bytes...)
 	}
-- 
2.43.0


From 44ae9728fedf51a2bdb4e576ab7d81ea76a5aad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:24 +0000
Subject: [PATCH 26/52] fix: reject fixed length meta events with surplus data
 bytes

---
 midi/events/meta/key_signature.go       | 2 +-
 midi/events/meta/midi_channel_prefix.go | 2 +-
 midi/events/meta/midi_port.go           | 2 +-
 midi/events/meta/smpte_offset.go        | 2 +-
 midi/events/meta/tempo.go               | 2 +-
 midi/events/meta/time_signature.go      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index 8c2ba24..9f2b2bc 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -115,7 +115,7 @@ func (e *KeySignature) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagKeySignature, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 2 {
+	} else if len(data) != 2 {
 		return fmt.Errorf("Invalid KeySignature data")
 	} else {
 		var accidentals = int8(data[0])
diff --git a/midi/events/meta/midi_channel_prefix.go b/midi/events/meta/midi_channel_prefix.go
index f04ddf7..5d58d4e 100644
--- a/midi/events/meta/midi_channel_prefix.go
+++ b/midi/events/meta/midi_channel_prefix.go
@@ -66,7 +66,7 @@ func (e *MIDIChannelPrefix) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagMIDIChannelPrefix, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 1 {
+	} else if len(data) != 1 {
 		return fmt.Errorf("Invalid MIDIChannelPrefix channel data")
 	} else if channel := data[0]; channel > 15 {
 		return fmt.Errorf("Invalid MIDIChannelPrefix channel (%d): expected a value in the interval [0..15]", channel)
diff --git a/midi/events/meta/midi_port.go b/midi/events/meta/midi_port.go
index bc6c52d..b7ecf82 100644
--- a/midi/events/meta/midi_port.go
+++ b/midi/events/meta/midi_port.go
@@ -68,7 +68,7 @@ func (e *MIDIPort) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagMIDIPort, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 1 {
+	} else if len(data) != 1 {
 		return fmt.Errorf("Invalid MIDIPort channel data")
 	} else if port := data[0]; port > 127 {
 		return fmt.Errorf("Invalid MIDIPort port (%d): expected a value in the interval [0..127]", port)
diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index 1dd672d..a39be40 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -153,7 +153,7 @@ func (e *SMPTEOffset) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSMPTEOffset, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 5 {
+	} else if len(data) != 5 {
 		return fmt.Errorf("Invalid SMPTE offset data")
 	} else {
 		rr := (data[0] >> 5) & 0x03
diff --git a/midi/events/meta/tempo.go b/midi/events/meta/tempo.go
index 380a8a0..b85274b 100644
--- a/midi/events/meta/tempo.go
+++ b/midi/events/meta/tempo.go
@@ -75,7 +75,7 @@ func (e *Tempo) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagTempo, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 3 {
+	} else if len(data) != 3 {
 		return fmt.Errorf("Invalid Tempo data")
 	} else {
 		tempo := uint32(data[0])
diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index f1556bb..366bfca 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -97,7 +97,7 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagTimeSignature, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 4 {
+	} else if len(data) != 4 {
 		return fmt.Errorf("Invalid TimeSignature data")
 	} else {
 		numerator := data[0]
-- 
2.43.0


From bd66874993468b4eee1c8844b7ea502885fff378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:25 +0000
Subject: [PATCH 27/52] fix: accumulate event ticks in 64 bits

---
 midi/MTrk.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index b257252..9428b35 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -49,14 +49,14 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 
 	eventlist := make([]*events.Event, 0)
 	r := bufio.NewReader(bytes.NewReader(data[8:]))
-	tick := uint32(0)
+	tick := uint64(0)
 	err := error(nil)
 	var e *events.Event = nil
 
 	for err == nil {
 		e, err = parse(r, tick, chunk.Context)
 		if err == nil && e != nil {
-			tick += e.Delta()
+			tick += uint64(e.Delta())
 			eventlist = append(eventlist, e)
 
 			switch k := e.Event.(type) {
@@ -106,7 +106,7 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 	return nil
 }
 
-func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (event *events.Event, err error) {
+func parse(r *bufio.Reader, tick uint64, ctx *context.Context) (event *events.Event, err error) {
 	rr := reader{
 		reader: r,
 		buffer: &bytes.Buffer{},
@@ -146,7 +146,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (event *events.Ev
 			return nil, err
 		}
 
-		if e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...); err != nil {
+		if e, err := metaevent.Parse(tick+uint64(delta), rr.Bytes()...); err != nil {
 			return nil, err
 		} else {
 			return events.NewEvent(e), nil
@@ -164,7 +164,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (event *events.Ev
 				return nil, fmt.Errorf("Invalid SysExMessage event data: F0 start byte without terminating F7")
 			}
 
-			if e, err := sysex.Parse(uint64(tick)+uint64(delta), ctx.Casio, rr.Bytes()...); err != nil {
+			if e, err := sysex.Parse(tick+uint64(delta), ctx.Casio, rr.Bytes()...); err != nil {
 				return nil, err
 			} else {
 				bytes := rr.Bytes()
@@ -196,7 +196,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (event *events.Ev
 		}
 	}
 
-	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
+	e, err := midievent.Parse(tick+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
 
 	if err != nil {
 		return nil, err
-- 
2.43.0


From df1cb010e621cfb46822431de83a5d2fe7ba267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:27 +0000
Subject: [PATCH 28/52] fix: use all 7 bits of the bank select controllers for
 the program bank

---
 midi/MTrk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 9428b35..e5b54f7 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -71,13 +71,13 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 				if k.Controller.ID == 0x00 {
 					c := uint8(k.Channel)
 					v := uint16(k.Value)
-					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & 0x003f) | ((v & 0x003f) << 7)
+					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & 0x007f) | ((v & 0x007f) << 7)
 				}
 
 				if k.Controller.ID == 0x20 {
 					c := uint8(k.Channel)
 					v := uint16(k.Value)
-					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & (0x003f << 7)) | (v & 0x003f)
+					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & (0x007f << 7)) | (v & 0x007f)
 				}
 
 			case midievent.NoteOff:
-- 
2.43.0


From b1e98de4a76b02f0ccbbdb183b2f46d57b3c78ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:40 +0000
Subject: [PATCH 29/52] fix: do not read undefined meta event types above 7F as
 the types below

---
 midi/events/meta/metaevent.go | 4 ++--
 midi/lib/event.go             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index 4f31ff1..358d63a 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -75,7 +75,7 @@ func Parse(tick uint64, bytes ...byte) (any, error) {
 	} else {
 		delta = lib.Delta(v)
 		status = remaining[0]
-		eventType = lib.MetaEventType(remaining[1] & 0x7F)
+		eventType = lib.MetaEventType(remaining[1])
 		data = u
 	}
 
@@ -160,7 +160,7 @@ func equal(s string, tag lib.Tag) bool {
 }
 
 func equals[T lib.MetaEventType](b byte, t T) bool {
-	return (b & 0x7f) == byte(t)
+	return b == byte(t)
 }
 
 func vlq(bytes []byte) (uint32, []byte, error) {
diff --git a/midi/lib/event.go b/midi/lib/event.go
index 6ac4b56..87ac726 100644
--- a/midi/lib/event.go
+++ b/midi/lib/event.go
@@ -38,7 +38,7 @@ func (t MetaEventType) String() string {
 }
 
 func (t MetaEventType) Equals(b byte) bool {
-	return (b & 0x7f) == byte(t)
+	return b == byte(t)
 }
 
 type MidiEventType byte
-- 
2.43.0


From 25f1d5b363d1d2bc9f045662acf5545c5943106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:42 +0000
Subject: [PATCH 30/52] fix: recognise text events by tag and not by the text
 they contain

---
 midi/events/text.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/midi/events/text.go b/midi/events/text.go
index 2a9b639..77b0a7f 100644
--- a/midi/events/text.go
+++ b/midi/events/text.go
@@ -3,6 +3,7 @@ package events
 import (
 	"encoding"
 	"fmt"
+	"regexp"
 	"strings"
 
 	"github.com/transcriptaze/midiasm/midi/events/meta"
@@ -10,9 +11,16 @@ import (
 	"github.com/transcriptaze/midiasm/midi/events/sysex"
 )
 
+var tag = regexp.MustCompile(`(?i)delta:[0-9]+\s+[0-9A-F]{2}\s+([A-Z]+)`)
+
 func (e *Event) UnmarshalText(text []byte) error {
 	s := string(text)
 
+	// ... use only the event tag if possible, so that the content of an event is never mistaken for the tag
+	if match := tag.FindStringSubmatch(s); match != nil {
+		s = match[1]
+	}
+
 	switch {
 	case strings.Contains(s, "SequenceNumber"):
 		return unmarshalText[metaevent.SequenceNumber](e, text)
@@ -99,7 +107,7 @@ func (e *Event) UnmarshalText(text []byte) error {
 		return unmarshalText[sysex.SysExEscapeMessage](e, text)
 
 	default:
-		return fmt.Errorf("Unrecognised event (%v)", s)
+		return fmt.Errorf("Unrecognised event (%v)", string(text))
 	}
 }
 
-- 
2.43.0


From ced94f38e202386a4914ca1736d6647355511415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:44 +0000
Subject: [PATCH 31/52] fix: do not start a new chunk for event text that
 contains a chunk tag

---
 ops/assemble/text.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 5d39a0e..273838a 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -37,7 +37,7 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 			case strings.HasPrefix(line, "%%"):
 				// comment - ignore
 
-			case strings.Contains(line, "MThd"):
+			case isHeader(line, "MThd"):
 				if mthd, err := a.parseMThd(chunk); err != nil {
 					return nil, err
 				} else {
@@ -46,7 +46,7 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 
 				break
 
-			case strings.Contains(line, "MTrk"):
+			case isHeader(line, "MTrk"):
 				if mtrk, err := a.parseMTrk(chunk); err != nil {
 					return nil, err
 				} else {
@@ -101,8 +101,6 @@ func (a TextAssembler) scan(scanner *bufio.Scanner, lines chan string) {
 }
 
 func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
-	tags := regexp.MustCompile("(MThd)|(MTrk)")
-
 	clone := func(slice []string) []string {
 		chunk := make([]string, len(slice))
 		copy(chunk, slice)
@@ -111,14 +109,14 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 
 	var chunk []string
 	for line := range lines {
-		if strings.Contains(line, "MThd") {
+		if isHeader(line, "MThd") {
 			chunk = []string{line}
 			break
 		}
 	}
 
 	for line := range lines {
-		if match := tags.FindStringSubmatch(line); match != nil {
+		if isHeader(line, "MThd") || isHeader(line, "MTrk") {
 			chunks <- clone(chunk)
 			chunk = []string{line}
 		} else {
@@ -135,7 +133,7 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 
 func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 	for _, line := range chunk {
-		if strings.Contains(line, "MThd") {
+		if isHeader(line, "MThd") {
 			var format uint16
 			var division uint16
 
@@ -195,7 +193,7 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 	var mtrk *midi.MTrk
 
 	for line := range lines {
-		if strings.Contains(line, "MTrk") {
+		if isHeader(line, "MTrk") {
 			if v, err := midi.NewMTrk(); err != nil {
 				return nil, err
 			} else {
@@ -226,3 +224,10 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 	return fixups(mtrk)
 	// return mtrk, fmt.Errorf("missing EndOfTrack")
 }
+
+var delta = regexp.MustCompile(`(?i)delta:[0-9]+`)
+
+// Returns true if the line is the heading of an MThd or MTrk chunk i.e. contains the tag and is not an event.
+func isHeader(line string, tag string) bool {
+	return strings.Contains(line, tag) && !delta.MatchString(line)
+}
-- 
2.43.0


From 81941585c6dc57c0c44994bdbea8920e3e01ae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:45 +0000
Subject: [PATCH 32/52] fix: return an error for text with an MTrk that is not
 preceded by an MThd

---
 ops/assemble/text.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 273838a..5752a4b 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -47,7 +47,9 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 				break
 
 			case isHeader(line, "MTrk"):
-				if mtrk, err := a.parseMTrk(chunk); err != nil {
+				if smf.MThd == nil {
+					return nil, fmt.Errorf("missing MThd")
+				} else if mtrk, err := a.parseMTrk(chunk); err != nil {
 					return nil, err
 				} else {
 					mtrk.TrackNumber = lib.TrackNumber(len(smf.Tracks))
-- 
2.43.0


From 6b14f8f8ed10853f2d2cac984449beff581d1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:46 +0000
Subject: [PATCH 33/52] fix: do not panic assembling a track without events

---
 ops/assemble/assemble.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ops/assemble/assemble.go b/ops/assemble/assemble.go
index 01275c3..2270079 100644
--- a/ops/assemble/assemble.go
+++ b/ops/assemble/assemble.go
@@ -12,6 +12,10 @@ type Assembler interface {
 }
 
 func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
+	if len(mtrk.Events) == 0 {
+		return mtrk, nil
+	}
+
 	for ix := range mtrk.Events[1:] {
 		previous := mtrk.Events[ix]
 		event := mtrk.Events[ix+1]
-- 
2.43.0


From 8bb46475a0708f7e946099f89d63e1f0ca0045c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:48 +0000
Subject: [PATCH 34/52] fix: use the same sub-frames mask to make and to decode
 an MThd

---
 midi/MThd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/MThd.go b/midi/MThd.go
index 4347cce..3bbfce4 100644
--- a/midi/MThd.go
+++ b/midi/MThd.go
@@ -49,7 +49,7 @@ func MakeMThd(format uint16, tracks uint16, division uint16, bytes ...byte) MThd
 		mthd.PPQN = division & 0x7fff
 	} else {
 		mthd.SMPTETimeCode = true
-		mthd.SubFrames = division & 0x007f
+		mthd.SubFrames = division & 0x00ff
 
 		fps := division & 0xff00 >> 8
 		switch fps {
-- 
2.43.0


From a0cdb2b21ed436be2315eee068ca2dcb36d9670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:50 +0000
Subject: [PATCH 35/52] fix: do not panic validating a format 1 file without
 tracks

---
 midi/smf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/midi/smf.go b/midi/smf.go
index d1d7a09..f02c318 100644
--- a/midi/smf.go
+++ b/midi/smf.go
@@ -98,7 +98,11 @@ func (smf *SMF) validateFormat1() []ValidationError {
 		}
 	}
 
-	for _, track := range smf.Tracks[1:] {
+	for i, track := range smf.Tracks {
+		if i == 0 {
+			continue
+		}
+
 		for _, e := range track.Events {
 			if !events.IsTrack1Event(e) {
 				errors = append(errors, ValidationError(fmt.Errorf("Track %d: unexpected event (%s)", track.TrackNumber, events.Clean(e))))
-- 
2.43.0


From 770551c9d61b231235bdda6f4565aa3890412c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:52 +0000
Subject: [PATCH 36/52] fix: report a bank select MSB that is the last event of
 a track

---
 midi/smf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/midi/smf.go b/midi/smf.go
index f02c318..70686f0 100644
--- a/midi/smf.go
+++ b/midi/smf.go
@@ -71,6 +71,10 @@ func (smf *SMF) Validate() []ValidationError {
 
 			last = e.Event
 		}
+
+		if cx, ok := last.(midievent.Controller); ok && cx.Controller.ID == 0x00 {
+			errors = append(errors, ValidationError(fmt.Errorf("Track %d: 'Bank Select MSB' event @%d missing LSB (%s)", track.TrackNumber, len(track.Events), events.Clean(last))))
+		}
 	}
 
 	return errors
-- 
2.43.0


From dd3eeb674936ec244a25fab07b1c54eb25293c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:10 +0000
Subject: [PATCH 37/52] fix: assemble files with an SMPTE time division

---
 ops/assemble/assemble.go | 12 ++++++++++++
 ops/assemble/json.go     | 12 +++++++++++-
 ops/assemble/text.go     | 10 +++++++++-
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/ops/assemble/assemble.go b/ops/assemble/assemble.go
index 2270079..ceeef9f 100644
--- a/ops/assemble/assemble.go
+++ b/ops/assemble/assemble.go
@@ -1,6 +1,7 @@
 package assemble
 
 import (
+	"fmt"
 	"io"
 
 	"github.com/transcriptaze/midiasm/midi"
@@ -54,3 +55,14 @@ func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
 
 	return mtrk, nil
 }
+
+// Returns the MThd division for an SMPTE frame rate and number of subframes.
+func smpte(fps uint8, subframes uint8) (uint16, error) {
+	switch fps {
+	case 24, 25, 29, 30:
+		return uint16(-fps)<<8 | uint16(subframes), nil
+
+	default:
+		return 0, fmt.Errorf("Invalid MThd SMPTE frame rate (%v): expected 24, 25, 29 or 30", fps)
+	}
+}
diff --git a/ops/assemble/json.go b/ops/assemble/json.go
index 007086f..ce6baa7 100644
--- a/ops/assemble/json.go
+++ b/ops/assemble/json.go
@@ -19,6 +19,10 @@ type mthd struct {
 	Tag    *string `json:"tag,omitempty"`
 	Format *uint16 `json:"format,omitempty"`
 	PPQN   *uint16 `json:"PPQN,omitempty"`
+
+	SMPTETimeCode bool  `json:"SMPTETimeCode,omitempty"`
+	FPS           uint8 `json:"FPS,omitempty"`
+	SubFrames     uint8 `json:"SubFrames,omitempty"`
 }
 
 type mtrk struct {
@@ -88,7 +92,13 @@ func (a JSONAssembler) parseMThd(h mthd) (*midi.MThd, error) {
 		format = *h.Format
 	}
 
-	if h.PPQN == nil {
+	if h.SMPTETimeCode {
+		if v, err := smpte(h.FPS, h.SubFrames); err != nil {
+			return nil, err
+		} else {
+			division = v
+		}
+	} else if h.PPQN == nil {
 		return nil, fmt.Errorf("missing 'metrical-time' field in header")
 	} else {
 		division = *h.PPQN
diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 5752a4b..7269434 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -147,7 +147,15 @@ func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 				format = uint16(v)
 			}
 
-			if match := regexp.MustCompile(`metrical(?:[ -])?time:([0-9]+)\s*ppqn`).FindStringSubmatch(line); match == nil || len(match) < 2 {
+			if match := regexp.MustCompile(`SMPTE:([0-9]+)\s*fps,\s*([0-9]+)\s*sub-frames`).FindStringSubmatch(line); match != nil {
+				if fps, err := strconv.ParseUint(match[1], 10, 8); err != nil {
+					return nil, err
+				} else if subframes, err := strconv.ParseUint(match[2], 10, 8); err != nil {
+					return nil, err
+				} else if division, err = smpte(uint8(fps), uint8(subframes)); err != nil {
+					return nil, err
+				}
+			} else if match := regexp.MustCompile(`metrical(?:[ -])?time:([0-9]+)\s*ppqn`).FindStringSubmatch(line); match == nil || len(match) < 2 {
 				return nil, fmt.Errorf("missing 'metrical-time' field in MThd")
 			} else if v, err := strconv.ParseUint(match[1], 10, 16); err != nil {
 				return nil, err
-- 
2.43.0


From 4d79566a3e5a91c7a71e88b8615c5a16aef4ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:11 +0000
Subject: [PATCH 38/52] fix: assemble text lines longer than 64KB

---
 ops/assemble/text.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 7269434..b257ea2 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -76,6 +77,8 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 
 func (a TextAssembler) read(r io.Reader) ([][]string, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt)
+
 	lines := make(chan string)
 	chunks := make(chan []string)
 
-- 
2.43.0


From 1131c6f3c914908e90988d153ce982097857b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:53 +0000
Subject: [PATCH 39/52] =?UTF-8?q?fix:=20use=20the=20MIDI=20default=20tempo?=
 =?UTF-8?q?=20(500000=C2=B5s=20per=20quarter=20note)=20to=20extract=20note?=
 =?UTF-8?q?s?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ops/notes/notes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index b1f0d26..a09ec43 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -116,7 +116,7 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	})
 
 	// ... assign event timestamps
-	tempo := uint64(50000)
+	tempo := uint64(500000)
 	at := time.Duration(0)
 
 	for i, e := range list {
-- 
2.43.0


From 84bafc8e4672d1ab59a971ec6a5505ec7ca93e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:55 +0000
Subject: [PATCH 40/52] fix: use the old tempo up to a tempo change between two
 events of another track

---
 ops/notes/notes.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index a09ec43..a25fc54 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -38,7 +38,6 @@ type Note struct {
 
 type event struct {
 	tick  uint64
-	delta uint64
 	at    time.Duration
 	event any
 	ctx   context.Context
@@ -98,7 +97,6 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	for _, e := range track.Events {
 		list = append(list, event{
 			tick:  e.Tick(),
-			delta: uint64(e.Delta()),
 			event: e.Event,
 		})
 	}
@@ -106,7 +104,6 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	for _, e := range tempoMap {
 		list = append(list, event{
 			tick:  e.Tick(),
-			delta: 0,
 			event: e.Event,
 		})
 	}
@@ -118,11 +115,13 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	// ... assign event timestamps
 	tempo := uint64(500000)
 	at := time.Duration(0)
+	tick := uint64(0)
 
 	for i, e := range list {
 		// beat = float64(tick) / float64(ppqn)
-		delta := time.Duration(1000 * e.delta * tempo / uint64(ppqn))
+		delta := time.Duration(1000 * (e.tick - tick) * tempo / uint64(ppqn))
 		at += delta
+		tick = e.tick
 
 		if dt := (uint64(delta) * tempo) % uint64(ppqn); dt > 0 {
 			warnf("%-5dµs loss of precision converting from MIDI tick to physical time at tick %d", dt, e.tick)
-- 
2.43.0


From 1974a09f9be13f1d53bdd7e1da6f956b6dcd38f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:56 +0000
Subject: [PATCH 41/52] fix: return an error instead of dividing by a zero PPQN
 extracting notes

---
 ops/notes/notes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index a25fc54..6072e8b 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -60,6 +60,10 @@ func (x *Notes) Execute(smf *midi.SMF) error {
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	notes := make([]Note, 0)
 
+	if smf.MThd.PPQN == 0 {
+		return nil, fmt.Errorf("cannot extract notes from a file without a metrical time division")
+	}
+
 	// ... build tempo map
 	tempoMap := buildTempoMap(*smf)
 
-- 
2.43.0


From 36d73f0d5f46d8b7376abbfb909caf653b83596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:57 +0000
Subject: [PATCH 42/52] fix: extract the notes of the first track (format 0
 files have no other)

---
 ops/notes/notes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 6072e8b..c3b6ff4 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -68,7 +68,7 @@ func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	tempoMap := buildTempoMap(*smf)
 
 	// ... extract track notes
-	for _, track := range smf.Tracks[1:] {
+	for _, track := range smf.Tracks {
 		if events, err := buildTrackEvents(*track, tempoMap, smf.MThd.PPQN); err != nil {
 			return nil, err
 		} else if list, err := buildNoteList(events, transposition); err != nil {
@@ -84,6 +84,10 @@ func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 func buildTempoMap(smf midi.SMF) []events.Event {
 	list := []events.Event{}
 
+	if len(smf.Tracks) == 0 {
+		return list
+	}
+
 	for _, e := range smf.Tracks[0].Events {
 		if _, ok := e.Event.(metaevent.Tempo); ok {
 			list = append(list, *e)
-- 
2.43.0


From d8dad3811e8663336c5ae1ee2e29fb3839223c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:59 +0000
Subject: [PATCH 43/52] fix: clamp transposed notes to the MIDI note range

---
 ops/notes/notes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index c3b6ff4..053f92b 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -279,8 +279,8 @@ func transpose(note uint8, transpose int) uint8 {
 
 	if v < 0 {
 		return 0
-	} else if v > 255 {
-		return 255
+	} else if v > 127 {
+		return 127
 	} else {
 		return uint8(v)
 	}
-- 
2.43.0


From 6c0667f8c3b0ff70af2d0ee490b8a67f55b59892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:48 +0000
Subject: [PATCH 44/52] fix: manufacturer 7F (RealTime Extensions) has ID 7F,
 not 7E

---
 midi/lib/manufacturer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index 8a393b6..6af1026 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -160,7 +160,7 @@ var manufacturers = map[string]Manufacturer{
 
 	"7D": Manufacturer{ID: []byte{0x7d}, Region: "Special Purpose", Name: "Non-Commercial"},
 	"7E": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "Non-RealTime Extensions"},
-	"7F": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "RealTime Extensions"},
+	"7F": Manufacturer{ID: []byte{0x7f}, Region: "Special Purpose", Name: "RealTime Extensions"},
 
 	// American
 	"01": Manufacturer{ID: []byte{0x01}, Region: "American", Name: "Sequential Circuits"},
-- 
2.43.0


From 0e4312d189c81eab7a740bae3686da910ad299fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:50 +0000
Subject: [PATCH 45/52] fix: disassembling an event without its original bytes
 does not panic

---
 ops/disassemble/disassemble.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/disassemble/disassemble.go b/ops/disassemble/disassemble.go
index 687a2e2..ca708ca 100644
--- a/ops/disassemble/disassemble.go
+++ b/ops/disassemble/disassemble.go
@@ -96,7 +96,7 @@ func pad(width int, v any) string {
 func valign(bytes lib.Hex, w ...int) string {
 	ix := 0
 
-	for {
+	for ix < len(bytes) {
 		b := bytes[ix]
 		ix += 1
 
-- 
2.43.0


From 336d1eb0b011cd5ebd4606f241ed43431fdea547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:49 +0000
Subject: [PATCH 46/52] fix: SMPTE offset with the reserved frame rate bit set
 is rejected

---
 midi/events/meta/smpte_offset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index a39be40..46f4645 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -67,7 +67,7 @@ func (e *SMPTEOffset) unmarshal(tick uint64, delta lib.Delta, status byte, data
 		return fmt.Errorf("Invalid SMPTE offset length (%d): expected '5'", len(data))
 	}
 
-	rr := (data[0] >> 5) & 0x03
+	rr := (data[0] >> 5) & 0x07
 	hour := data[0] & 0x01f
 	minute := data[1]
 	second := data[2]
@@ -156,7 +156,7 @@ func (e *SMPTEOffset) UnmarshalBinary(bytes []byte) error {
 	} else if len(data) != 5 {
 		return fmt.Errorf("Invalid SMPTE offset data")
 	} else {
-		rr := (data[0] >> 5) & 0x03
+		rr := (data[0] >> 5) & 0x07
 		hour := data[0] & 0x01f
 		minute := data[1]
 		second := data[2]
-- 
2.43.0


From b28f465a1ad1c11f751d984a28dc77758b80d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:43 +0000
Subject: [PATCH 47/52] fix: transposing a key signature by whole octaves
 leaves the key as it was

---
 midi/lib/scales.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/midi/lib/scales.go b/midi/lib/scales.go
index 65aad60..43e2562 100644
--- a/midi/lib/scales.go
+++ b/midi/lib/scales.go
@@ -60,6 +60,11 @@ func (k KeyType) String() string {
 }
 
 func (s Scale) Transpose(steps int) Scale {
+	// .. whole octaves do not change the key
+	if steps%12 == 0 {
+		return s
+	}
+
 	notes := make([]Note, len(s.Notes))
 	for ix, n := range s.Notes {
 		notes[ix] = transpose(n, steps)
-- 
2.43.0


From dae5428df65722bc0b6320a7db76019aae15d5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:31 +0000
Subject: [PATCH 48/52] fix: SysEx packets with other events between them were
 assembled as complete messages

---
 ops/assemble/assemble.go | 52 +++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/ops/assemble/assemble.go b/ops/assemble/assemble.go
index ceeef9f..f77675d 100644
--- a/ops/assemble/assemble.go
+++ b/ops/assemble/assemble.go
@@ -5,6 +5,7 @@ import (
 	"io"
 
 	"github.com/transcriptaze/midiasm/midi"
+	"github.com/transcriptaze/midiasm/midi/events"
 	"github.com/transcriptaze/midiasm/midi/events/sysex"
 )
 
@@ -12,41 +13,29 @@ type Assembler interface {
 	Assemble(io.Reader) ([]byte, error)
 }
 
+// Marks the last packet of each SysEx message. A packet is the last one of its message unless the next SysEx
+// event is a continuation (there may be other events between the packets of a message).
 func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
-	if len(mtrk.Events) == 0 {
-		return mtrk, nil
-	}
-
-	for ix := range mtrk.Events[1:] {
-		previous := mtrk.Events[ix]
-		event := mtrk.Events[ix+1]
-
-		if message, ok := previous.Event.(*sysex.SysExMessage); ok {
-			if _, ok := event.Event.(*sysex.SysExContinuationMessage); !ok {
+	for ix, e := range mtrk.Events {
+		switch message := e.Event.(type) {
+		case *sysex.SysExMessage:
+			if !continued(mtrk.Events[ix+1:]) {
 				message.Single = true
 			}
-		}
 
-		if message, ok := previous.Event.(sysex.SysExMessage); ok {
-			if _, ok := event.Event.(sysex.SysExContinuationMessage); !ok {
+		case sysex.SysExMessage:
+			if !continued(mtrk.Events[ix+1:]) {
 				message.Single = true
 				mtrk.Events[ix].Event = message
 			}
-		}
-	}
-
-	for ix := range mtrk.Events[1:] {
-		previous := mtrk.Events[ix]
-		event := mtrk.Events[ix+1]
 
-		if message, ok := previous.Event.(*sysex.SysExContinuationMessage); ok {
-			if _, ok := event.Event.(*sysex.SysExContinuationMessage); !ok {
+		case *sysex.SysExContinuationMessage:
+			if !continued(mtrk.Events[ix+1:]) {
 				message.End = true
 			}
-		}
 
-		if message, ok := previous.Event.(sysex.SysExContinuationMessage); ok {
-			if _, ok := event.Event.(sysex.SysExContinuationMessage); !ok {
+		case sysex.SysExContinuationMessage:
+			if !continued(mtrk.Events[ix+1:]) {
 				message.End = true
 				mtrk.Events[ix].Event = message
 			}
@@ -56,6 +45,21 @@ func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
 	return mtrk, nil
 }
 
+// Returns true if the next SysEx event is a continuation message.
+func continued(list []*events.Event) bool {
+	for _, e := range list {
+		switch e.Event.(type) {
+		case *sysex.SysExContinuationMessage, sysex.SysExContinuationMessage:
+			return true
+
+		case *sysex.SysExMessage, sysex.SysExMessage, *sysex.SysExEscapeMessage, sysex.SysExEscapeMessage:
+			return false
+		}
+	}
+
+	return false
+}
+
 // Returns the MThd division for an SMPTE frame rate and number of subframes.
 func smpte(fps uint8, subframes uint8) (uint16, error) {
 	switch fps {
-- 
2.43.0


From b50eec520e887b613cfe583479f081445187a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 49/52] fix: a JSON SysEx or sequencer specific event with an
 invalid manufacturer ID was assembled into a malformed event

---
 midi/events/meta/sequencer_specific.go | 2 ++
 midi/events/sysex/message.go           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index 027f92a..1c38d64 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -156,6 +156,8 @@ func (e *SequencerSpecificEvent) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagSequencerSpecificEvent) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if id := t.Manufacturer.ID; !(len(id) == 1 && id[0] != 0x00) && !(len(id) == 3 && id[0] == 0x00) {
+		return fmt.Errorf("Invalid SequencerSpecificEvent manufacturer ID (%v)", id)
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index 5746a77..71b0bf4 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -184,6 +184,8 @@ func (e *SysExMessage) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagSysExMessage) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if id := t.Manufacturer.ID; len(id) != 1 && !(len(id) == 3 && id[0] == 0x00) {
+		return fmt.Errorf("Invalid SysExMessage manufacturer ID (%v)", id)
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
-- 
2.43.0


From 925dbcbc2118c99e194aa25a1a95b213480b5c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:13 +0000
Subject: [PATCH 50/52] fix: create the --split output directory with
 permission to write the files in it

---
 commands/disassemble.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index 8598538..2b2f70a 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -115,7 +115,7 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 
 	if p.out != "" {
 		dir = p.out
-		err := os.MkdirAll(dir, os.ModeDir)
+		err := os.MkdirAll(dir, 0770)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 4eee961feef9bee71c76c5922d57bebe012f79ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:14 +0000
Subject: [PATCH 51/52] fix: assemble writes to the input file name with a
 .midi extension by default, as documented

---
 commands/assemble.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/commands/assemble.go b/commands/assemble.go
index 69f00da..e75b376 100644
--- a/commands/assemble.go
+++ b/commands/assemble.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 
 	impl "github.com/transcriptaze/midiasm/ops/assemble"
 )
@@ -68,11 +69,10 @@ func (a assemble) Execute(flagset *flag.FlagSet) error {
 		return err
 	}
 
-	if a.out != "" {
-		if err := os.WriteFile(a.out, midi, 0660); err != nil {
-			return err
-		}
+	out := a.out
+	if out == "" {
+		out = strings.TrimSuffix(filename, filepath.Ext(filename)) + ".midi"
 	}
 
-	return nil
+	return os.WriteFile(out, midi, 0660)
 }
-- 
2.43.0


From 9caac5e08bdc9aeda874e92d9ef292082ca98540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:39 +0000
Subject: [PATCH 52/52] fix: click crashed on a MIDI file without tracks

---
 ops/click/click.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ops/click/click.go b/ops/click/click.go
index 4ae040a..88fbd5d 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -37,6 +37,10 @@ type signature struct {
 }
 
 func (x *ClickTrack) Execute(smf *midi.SMF) error {
+	if len(smf.Tracks) == 0 {
+		return nil
+	}
+
 	clucks := map[uint]Cluck{}
 	ppqn := uint64(smf.MThd.Division)
 	tempoMap := make([]*events.Event, 0)
-- 
2.43.0

