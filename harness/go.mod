module verif

go 1.25

require github.com/transcriptaze/midiasm v0.0.0

replace github.com/transcriptaze/midiasm => /repo
