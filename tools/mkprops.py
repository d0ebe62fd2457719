#!/usr/bin/env python3
# Writes properties.jsonl (single source for the property list).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    d['anchors'].update(kw)
    P.append(d)

p("C01","Variable-length quantities encode canonically and decode to the same value",
 "Every value a MIDI file can hold in a variable-length quantity is written as the shortest big-endian base-128 form (high bit set on every byte except the last) and reads back as exactly that value, consuming exactly those bytes. This holds for delta times and for every length prefix, at every size, and length-prefixed data comes back byte for byte.",
 ["inputs"],"all values 0..2^28-1 (and all 32-bit values where the API accepts them), all payloads",
 "Tests sample a handful of delta values and short payloads; the guarantee ranges over every 28/32-bit value and every length, in four separate copies of the codec.",
 ["midi/lib/delta.go","midi/lib/types.go","midi/events/event.go","midi/events/meta/metaevent.go","midi/events/midi/midievent.go","midi/events/sysex/sysex.go"],
 [("delta encode/decode","midi/lib/delta.go"),("VLQ/VLF encode","midi/lib/types.go"),("VLQ/VLF stream decode","midi/events/event.go"),("slice VLQ/VLF decode","midi/events/*/ vlq, vlf, delta")])

p("C02","MThd header fields decode exactly and re-encode to the same bytes",
 "Decoding a header chunk reports exactly the format, track count and timing division that the bytes hold (pulses per quarter note, or SMPTE frame rate, drop-frame flag and sub-frames), and re-encoding it gives back the same 14 bytes. A chunk with a wrong tag, wrong length, a format other than 0, 1 or 2, or an unsupported SMPTE frame rate is rejected with an error.",
 ["inputs"],"all 14-byte header chunks, all formats, track counts and divisions",
 "Tests decode two or three headers; the division field alone has 65536 values in two incompatible layouts.",
 ["midi/MThd.go"],[("MThd.UnmarshalBinary / MarshalBinary / MakeMThd","midi/MThd.go")])

p("C03","MIDI channel events survive the binary round trip for every field value",
 "For every delta time, channel and data value, decoding the bytes of a note, pressure, controller, program change or pitch bend event yields an event with exactly that kind, delta, tick, channel and data values, and encoding that event yields exactly the original bytes. This holds with an explicit status byte and, when decoding, with a running status.",
 ["inputs"],"all channel event kinds x channels 0..15 x data bytes 0..127 x delta times x prior running status",
 "Tests use one or two literal events per kind; a mask, shift or field swap that only shows for values above 63 or 127, or for one channel, is invisible to them.",
 ["midi/events/midi/","midi/events/binary.go"],[("Parse / unmarshal / MarshalBinary","midi/events/midi/*.go"),("dispatch on status","midi/events/binary.go")])

p("C04","Meta events survive the binary round trip for every field value and length",
 "For every delta time and payload, decoding the bytes of each meta event kind yields that kind with exactly the values the payload holds, and encoding the event yields exactly the original bytes. Text-like events do so for text of any length and content, and payloads that are invalid for their kind are rejected with an error.",
 ["inputs"],"all 17 meta event kinds x all payload values and lengths x delta times",
 "Tests use one short literal per kind; payload lengths above 127 bytes and most numeric field values are never exercised.",
 ["midi/events/meta/","midi/events/binary.go"],[("Parse / unmarshal / MarshalBinary","midi/events/meta/*.go"),("dispatch on type byte","midi/events/meta/metaevent.go, midi/events/binary.go")])

p("C05","SysEx events survive the binary round trip including multi-packet messages",
 "Decoding a system exclusive message, continuation packet or escape sequence yields the manufacturer identification and exactly the data bytes it holds, and encoding it yields exactly the original bytes. Whether a packet ends the message is preserved, so a message split over several packets decodes and re-encodes to the same packets, and an F7 packet is read as a continuation exactly while a message is open.",
 ["inputs","histories"],"all payloads of F0 and F7 events, single- and three-byte manufacturer ids, all sequences of split packets",
 "Tests use four literal messages; data content, length and packet sequences are unbounded.",
 ["midi/events/sysex/","midi/MTrk.go"],[("Parse / unmarshal / MarshalBinary","midi/events/sysex/*.go"),("open-message state","midi/MTrk.go parse")])

p("C06","Track decoding accounts for every byte, tick and running status",
 "Decoding a track yields the events in file order, each with the delta time its bytes hold and an absolute tick equal to the sum of the deltas up to and including it. An event without a status byte takes the status of the preceding channel event, running status is cancelled by meta and SysEx events, and each event accounts for exactly the bytes it was read from, so concatenating the events' bytes gives the track data.",
 ["inputs","histories"],"all event sequences and deltas, with and without running status",
 "Whether one event is decoded properly depends on all the events before it; tests hold a few fixed files.",
 ["midi/MTrk.go","midi/reader.go","midi/context/context.go"],[("event loop","midi/MTrk.go UnmarshalBinary"),("single event parse","midi/MTrk.go parse"),("running status","midi/context/context.go")])

p("C07","Encoding a file then decoding it gives back the same file",
 "Encoding any decoded or constructed file writes a header with the right number of tracks and division and, per track, a chunk whose length field equals the number of bytes that follow. Decoding those bytes gives the same tracks and the same events in the same order with the same deltas and values, even where the encoder leaves out repeated status bytes.",
 ["inputs","histories"],"all files over all event sequences",
 "Running status compression depends on neighbouring events; tests encode two reference files.",
 ["encoding/midi/encoder.go","encoding/midi/decoder.go"],[("Encode / EncodeMTrk","encoding/midi/encoder.go"),("Decode","encoding/midi/decoder.go")])

p("C08","Decoding arbitrary bytes returns a value or an error and never crashes",
 "Given any byte string whatever - truncated, corrupted or hostile - decoding it as a file, header, track or single event terminates and either returns a result or returns an error. It never panics, and an event or chunk whose declared length runs past the data is reported as an error and not read as a shorter or empty one.",
 ["inputs"],"all byte strings",
 "Tests decode valid files and a few specific invalid ones; the input space is every byte string.",
 ["encoding/midi/decoder.go","midi/MThd.go","midi/MTrk.go","midi/events/"],[("chunk reader","encoding/midi/decoder.go"),("track parser","midi/MTrk.go"),("per-event UnmarshalBinary / Parse","midi/events/**")])

p("C09","Chunks are recognised by tag and length; alien chunks change nothing",
 "A file decodes to its header and its track chunks in order, numbered from 0, and inserting chunks of unknown type anywhere after the header does not change the result. A file whose first chunk is not a header, or in which the number of track chunks differs from the header's track count, or which ends inside a chunk, is rejected with an error.",
 ["inputs"],"all chunk sequences, tags and lengths",
 "Tests decode well-formed files without alien chunks.",
 ["encoding/midi/decoder.go"],[("Decode / chunker","encoding/midi/decoder.go")])

p("C10","Events survive the JSON round trip",
 "For every event kind and every field value, converting an event to JSON and back yields an equal event, and the JSON carries the kind, the delta and the values under their documented names. Text is valid UTF-8 here. JSON of the wrong kind, or with values that do not fit in a MIDI event, is rejected with an error and never crashes.",
 ["inputs"],"all event kinds x all field values; all well-formed and ill-typed JSON values of the event fields",
 "Tests convert one literal event per kind.",
 ["midi/events/json.go","midi/events/"],[("MarshalJSON / UnmarshalJSON","midi/events/**"),("dispatch on tag","midi/events/json.go")])

p("C11","Events survive the text round trip",
 "For every event kind and every field value, the line that disassembly prints for an event is read back by the assembler as an equal event: same kind, delta, channel and data values. Text without line breaks that does not start with white space, and known manufacturers, are what the format can express; whether a packet ends a SysEx message is taken from the following events. In particular the text held in an event never changes which kind of event is read back.",
 ["inputs"],"all event kinds x all field values that the text format can express",
 "Tests convert one literal event per kind; values with unusual widths, signs, accidentals or octaves are not exercised.",
 ["midi/events/text.go","midi/events/","ops/disassemble/"],[("UnmarshalText","midi/events/**"),("line template","ops/disassemble/template")])

p("C12","Disassembling a file and assembling the result gives back the same MIDI",
 "Disassembling a file to text and assembling that text, or exporting it to JSON and assembling that JSON, gives a file with the same header format and division, the same number of tracks and the same events with the same deltas and values, as far as the formats can express them (C10, C11).",
 ["inputs","histories"],"all files over the supported event kinds",
 "Tests compare a few reference files.",
 ["ops/assemble/","ops/disassemble/","ops/export/"],[("text assembler","ops/assemble/text.go"),("JSON assembler","ops/assemble/json.go"),("fixups","ops/assemble/assemble.go"),("disassembler","ops/disassemble/disassemble.go")])

p("C13","The assembler emits only well-formed MIDI and rejects everything else",
 "Given any text or JSON document the assembler terminates and either returns an error or returns bytes that decode as a MIDI file. It never panics, never hangs and never writes a data byte above 127 in a channel event.",
 ["inputs"],"all text and JSON documents with in- and out-of-range field values",
 "Tests assemble valid documents only.",
 ["ops/assemble/","midi/events/"],[("Assemble","ops/assemble/text.go, ops/assemble/json.go"),("field range checks","midi/events/** UnmarshalText/UnmarshalJSON, midi/lib/*.go")])

p("C14","Transposing shifts every note by the same steps and changes nothing else",
 "Transposing a file by n semitones moves every note-on and note-off by exactly n, clamped to 0..127, keeps each note-off paired with its note-on, and leaves the number, order, deltas, channels and velocities of events unchanged. Every event that is not a note or key signature is left byte for byte as it was, transposing by 0 is the identity, and the output decodes as a MIDI file.",
 ["inputs","histories"],"all files and all step counts of 32 bits",
 "Tests transpose one file by a few steps.",
 ["ops/transpose/transpose.go","midi/events/midi/note_on.go","midi/events/midi/note_off.go"],[("Transpose.Execute","ops/transpose/transpose.go"),("NoteOn/NoteOff.Transpose","midi/events/midi")])

p("C15","Transposing a key signature gives the key that many semitones away",
 "Transposing a key signature by n semitones yields a valid key signature (-7..7 accidentals) of the same mode whose tonic is n semitones away modulo 12, for every key and every n. Transposing by a whole number of octaves leaves the key as it was, and every key's name corresponds to its accidentals and mode.",
 ["inputs"],"30 keys x step counts -132..143, and up to 65535 steps",
 "Tests transpose a handful of keys by a few steps.",
 ["midi/events/meta/key_signature.go","midi/lib/scales.go"],[("KeySignature.Transpose","midi/events/meta/key_signature.go"),("scale tables","midi/lib/scales.go")])

p("C16","Note names and note numbers are inverse to each other",
 "Every note number 0..127 is shown with the pitch class and octave that belong to it under the chosen middle C convention, using sharps or flats as the key requires, and reading that name back gives the same note number. A note-off is shown with the same name as the note-on that it ends.",
 ["inputs","configurations"],"note numbers 0..127 x sharps/flats x middle C convention, all note-on/note-off histories",
 "Tests check a few notes in one convention.",
 ["midi/lib/note.go","midi/events/midi/midievent.go","midi/context/context.go"],[("FormatNote / ParseNote","midi/events/midi, midi/lib/note.go"),("note-on registry","midi/context/context.go")])

p("C17","Extracted notes pair each note-on with its own note-off at the right time",
 "Extracting notes from a file gives one note per note-on (velocity above zero) that is ended by the next note-off, or zero-velocity note-on, of the same channel and pitch, or by the end of its track; a note-on for a pitch that is already sounding on its channel starts no further note. This is for files of format 0 and 1 with a metrical division; the order in which notes are listed is not specified, and times are rounded to 1 ms. Each note has the channel, pitch and velocity of its note-on, its start and end ticks are those of the two events, and its times follow from the ticks, the division and the tempo map.",
 ["inputs","histories"],"all files: overlapping notes, channels, tempo changes",
 "Tests extract notes from one reference file with one tempo.",
 ["ops/notes/notes.go"],[("extract / buildTrackEvents / buildNoteList","ops/notes/notes.go")])

p("C18","Validation reports exactly the violations that are present",
 "Validating a file reports an error exactly when the file breaks a checked rule: a format 0 file without exactly one track, events in the wrong track of a format 1 file, a track without an end-of-track event or with one that is not last, or a bank select MSB not directly followed by its LSB on the same channel (or an LSB without MSB). Valid files report nothing, and validating any file never crashes and does not change it.",
 ["inputs","histories"],"all decoded files, all event sequences",
 "Tests validate two literal files.",
 ["midi/smf.go","midi/events/event.go"],[("Validate","midi/smf.go"),("IsTrack0Event / IsTrack1Event","midi/events/event.go")])

p("C19","TSV export shows every event in its own row and columns",
 "Exporting to TSV gives, after the heading, one row per event index with a block of seven columns for each track: row n of a track's block holds that track's n-th event with its tick, delta, kind, channel, note, velocity and details, and is empty where the track has no more events. No event is lost, repeated, or moved to another row or block, the rows all have the same number of columns, and every cell reads back exactly as it is, whatever the text contains and whichever delimiter is chosen; the fixed width form shows the same cells aligned.",
 ["inputs","histories"],"all files, event values, texts and delimiters",
 "Tests export one reference file with tabs.",
 ["commands/tsv.go"],[("export, fields, writeTSV, writeTable","commands/tsv.go")])

p("C20","Click track bars and beats follow the time signatures and tempo map",
 "The click track has one entry per beat, with bar and beat numbers that follow the time signatures and times that follow the tempo map.",
 ["inputs","histories"],"all files with tempo and time signature changes",
 "There are no tests of the click track.",
 ["ops/click/click.go"],[("Execute","ops/click/click.go")])

p("C21","Program changes carry the bank selected on their own channel",
 "A decoded program change reports the bank number formed from the last bank select MSB (times 128) plus the last bank select LSB received before it on the same channel of the same track, and 0 if there was none. Bank selects on other channels, other controllers and other events do not affect it.",
 ["inputs","histories"],"all event sequences, channels and bank numbers 0..16383",
 "Tests use a single bank select with small values.",
 ["midi/MTrk.go","midi/context/context.go","midi/events/midi/program_change.go"],[("bank tracking","midi/MTrk.go UnmarshalBinary, midi/context/context.go")])

p("C22","Controllers, manufacturers and channels map to the right names and back",
 "Looking up a controller number or a manufacturer identification always returns an entry with that same identification, known ones with their standard name, and looking up the entry's name returns the same identification. Channel and delta values are parsed from text and JSON exactly, with out-of-range values rejected.",
 ["inputs"],"all controller numbers, all one- and three-byte manufacturer ids, all names in the tables, all channel/delta strings",
 "Tests look up a handful of entries.",
 ["midi/lib/controller.go","midi/lib/manufacturer.go","midi/lib/channel.go","midi/lib/delta.go"],[("LookupController","midi/lib/controller.go"),("LookupManufacturer / FindManufacturer","midi/lib/manufacturer.go"),("ParseChannel","midi/lib/channel.go")])

p("C23","Commands read the named file and write their complete result to the output file",
 "For every valid MIDI file, running disassemble, export, transpose, notes or tsv with an output file leaves the input file as it was and puts exactly the operation's complete result in the output file, honouring the options; disassemble --split writes the header and each track to its own file. Assembling the text or JSON a command has written gives the same MIDI events back, to the named file or by default to the input's name with a .midi extension. Input that cannot be read or decoded is reported as an error, an invalid document leaves no output, and no command crashes on a valid file, with or without tracks.",
 ["inputs"],"all valid files, options and invalid inputs",
 "No test runs a command; the operations are tested on a few reference files.",
 ["commands/command.go","commands/disassemble.go","commands/assemble.go","commands/export.go","commands/transpose.go","commands/notes.go","commands/tsv.go","commands/click.go","ops/click/click.go"],
 [("Flagset / Execute","commands/*.go"),("decode, read","commands/command.go"),("write, separate","commands/disassemble.go")])

if __name__=="__main__":
    here=os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
        for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
