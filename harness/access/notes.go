// overlay: /repo/ops/notes/zz_verif_access.go

package notes

import "github.com/transcriptaze/midiasm/midi"

// VerifExtract gives the harness the note list before it is formatted.
func VerifExtract(smf *midi.SMF, transpose int) ([]Note, error) { return extract(smf, transpose) }
