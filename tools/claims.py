claim("C01","Every 32-bit delta and length value and data of any length, in all copies of the codec; unbounded (loop invariants for the digit and copy loops proved by induction).")
claim("C02","All header chunks: every format, track count and division value; no bound.")
claim("C03","Every channel event kind, channel, data byte, delta and prior running status; no bound. Polyphonic pressure (one data byte) and pitch bend byte order are known findings.")
claim("C04","Every meta event kind with every field value; text and data of any length below 2^27 bytes; all invalid payload lengths; no other bound.")
claim("C05","SysEx, continuation and escape packets with data of any length; every manufacturer id; packet sequences of up to three packets from an arbitrary open/closed state (one-step induction over the state).")
claim("C06","One event of every kind from an arbitrary decoder state (running status, open message) accounts for exactly its bytes, tick and next state: the induction step; plus all pairs of event kinds and sums of ticks. Twenty events in one track with any deltas (ticks beyond 32 bits).")
claim("C07","A file with one event of every kind and every field value, running status, division and tracks: written and read back equal; unbounded data and text; per event with arbitrary following events (C06) for the whole file. Any format and any division, including SMPTE; files of many tracks.")
claim("C08","Every decoder entry point on arbitrary bytes of any length (no panic, error or value): event, meta, SysEx and MIDI parsers proved without bound, track loop one step from an arbitrary state, file loop up to three chunks with tracks by contract (these two labelled bounded).")
claim("C09","Alien chunks of any tag, content and length at every position of a two-track file; every header track count against 0-3 chunks; every truncation point; every overrunning length.")
claim("C14","Any step count of 32 bits, every event kind with unbounded data, notes of every channel, pitch and velocity, every key signature; sequences of up to three events per track and up to three tracks. A file of many tracks and events as well.")
claim("C15","All 30 keys with every step count from -132 to 143 and symbolically up to 65535 steps; tonic computed from the circle of fifths.")
claim("C16","All note numbers, sharps and flats, both middle C conventions, all names with octaves -3..9; note-offs across key changes and other notes.")
claim("C17","Any four note events of arbitrary pitch, velocity and delta in a track, every channel and pitch with any event in between, every division and tempo (one segment), tempo maps of two changes with symbolic ticks at two divisions and three tempi, transposition -1000..1000; track length bounded by the harness (4 note events), values unbounded. Sixteen notes sounding at once.")
claim("C18","Every event kind in every track position, all end-of-track patterns up to 4 events, all bank select patterns up to 3 events with arbitrary channels and controller numbers, 0-4 tracks; track length bounded by the harness, values unbounded. 17 tracks and 130 events in a track as well.")
claim("C21","One-step induction from arbitrary banks over every event kind (any history length), plus end-to-end histories of up to five events with arbitrary channels, controllers and values, and two tracks.")
claim("C22","All 256 controller numbers, every manufacturer id of any length, any name, all 32-bit channel numbers and 64-bit delta numbers, arbitrary text up to three bytes.")
claim("C10","Every event kind with every field value; text of any length over printable ranges and every valid UTF-8 text of two bytes; every 64-bit number in every numeric field; every tag; all documents of up to three bytes. The end flag of a continuation packet and text that is not UTF-8 are known findings.")
claim("C11","Every event kind with every field value (one byte of text or data), text of any length over the printable characters, every text of two bytes, data of up to three bytes, every manufacturer, look-alike texts; events with and without their bytes in the first column. Three known findings (leading white space, line breaks, unknown manufacturers).")
claim("C12","Files with every event kind and value, every header, up to three tracks, every pair of eleven event kinds, SysEx messages of up to three packets with and without other events between them, every key with every note; through text and through JSON. Track and event counts are bounded by the harness, values are not. Files with no tracks, empty tracks and 17 tracks.")
claim("C13","Documents with any 64-bit number in every numeric field and in the header, every text event line with any one character inserted or changed, all documents of up to three bytes, all sequences of up to four parts of a text document, JSON values of every other type in every position, manufacturer ids of up to four 16-bit numbers; termination of the goroutine pipeline under one schedule plus native runs.")
claim("C19","The whole command, from option parsing to the file it writes: every event kind with every field value, every tick, text of any length, every text of up to two ASCII bytes with five delimiter settings, up to three tracks of up to three events, fixed width output. Tables of 17 tracks and of 130 events, fixed-width output with every delimiter.")
claim("C23","All commands end to end over a model of the file system: every event kind and value in a two-track file, six step arguments, all files of up to two bytes and every truncation of a file, files with 0-2 tracks. The program itself (main, its option parsing, --C4, --templates, --debug and --verbose), output file names, overwriting longer output files, splitting 130 tracks.")
NA["C20"]="The click command prints nothing for any file: it looks for *Tempo, *TimeSignature and *EndOfTrack where the decoder makes values, so no entry ever exists, and neither the code nor the documentation fixes what a bar entry should be (the code marks its own end-of-track rule with question marks). There is no behaviour to put under contract; only that it does not crash (C23)."
