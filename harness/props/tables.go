package props

// The standard names (MIDI 1.0 controllers; MMA manufacturer identifications).

var stdControllers = []struct {
	id   uint8
	name string
}{
	{0, "Bank Select (MSB)"},
	{1, "Modulation Wheel (MSB)"},
	{2, "Breath Controller (MSB)"},
	{4, "Foot Controller (MSB)"},
	{5, "Portamento Time (MSB)"},
	{6, "Data Entry (MSB)"},
	{7, "Channel Volume (MSB)"},
	{8, "Balance (MSB)"},
	{10, "Pan (MSB)"},
	{11, "Expression Controller (MSB)"},
	{12, "Effect Control 1 (MSB)"},
	{13, "Effect Control 2 (MSB)"},
	{16, "General Purpose Controller 1 (MSB)"},
	{17, "General Purpose Controller 2 (MSB)"},
	{18, "General Purpose Controller 3 (MSB)"},
	{19, "General Purpose Controller 4 (MSB)"},
	{32, "Bank Select (LSB)"},
	{33, "Modulation Wheel (LSB)"},
	{34, "Breath Controller (LSB)"},
	{36, "Foot Controller (LSB)"},
	{37, "Portamento Time (LSB)"},
	{38, "Data Entry (LSB)"},
	{39, "Channel Volume (LSB)"},
	{40, "Balance (LSB)"},
	{42, "Pan (LSB)"},
	{43, "Expression Controller (LSB)"},
	{44, "Effect Control 1 (LSB)"},
	{45, "Effect Control 2 (LSB)"},
	{48, "General Purpose Controller 1 (LSB)"},
	{49, "General Purpose Controller 2 (LSB)"},
	{50, "General Purpose Controller 3 (LSB)"},
	{51, "General Purpose Controller 4 (LSB)"},
	{64, "Sustain On/Off"},
	{65, "Portamento On/Off"},
	{66, "Sostenuto On/Off"},
	{67, "Soft Pedal On/Off"},
	{68, "Legato On/Off"},
	{69, "Hold 2 On/Off"},
	{70, "Sound Controller 1  (TG: Sound Variation;  FX: Exciter On/Off)"},
	{71, "Sound Controller 2  (TG: Harmonic Content; FX: Compressor On/Off)"},
	{72, "Sound Controller 3  (TG: Release Time;     FX: Distortion On/Off)"},
	{73, "Sound Controller 4  (TG: Attack Time;      FX: EQ On/Off)"},
	{74, "Sound Controller 5  (TG: Brightness;       FX: Expander On/Off)"},
	{75, "Sound Controller 6  (TG: Decay Time;       FX: Reverb On/Off)"},
	{76, "Sound Controller 7  (TG: Vibrato Rate;     FX: Delay On/Off)"},
	{77, "Sound Controller 8  (TG: Vibrato Depth;    FX: Pitch Transpose On/Off)"},
	{78, "Sound Controller 9  (TG: Vibrato Delay;    FX: Flange/Chorus On/Off)"},
	{79, "Sound Controller 10 (TG: Undefined;        FX: Special Effects On/Off)"},
	{80, "General Purpose Controller 5"},
	{81, "General Purpose Controller 6"},
	{82, "General Purpose Controller 7"},
	{83, "General Purpose Controller 8"},
	{84, "Portamento Control"},
	{88, "High Resolution Velocity Prefix"},
	{91, "Effects 1 Depth (Reverb Send Level)"},
	{92, "Effects 2 Depth (Tremelo Depth)"},
	{93, "Effects 3 Depth (Chorus Send Level)"},
	{94, "Effects 4 Depth (Celeste Depth)"},
	{95, "Effects 5 Depth (Phaser Depth)"},
	{96, "Data Increment"},
	{97, "Data Decrement"},
	{98, "Non-Registered Parameter Number (LSB)"},
	{99, "Non-Registered Parameter Number (MSB)"},
	{100, "Registered Parameter Number (LSB)"},
	{101, "Registered Parameter Number (MSB)"},
	{120, "All Sound Off"},
	{121, "Reset All Controllers"},
	{122, "Local Control On/Off"},
	{123, "All Notes Off"},
	{124, "Omni Mode Off"},
	{125, "Omni Mode On "},
	{126, "Mono Mode On"},
	{127, "Poly Mode On"},
}

var stdManufacturers = []struct {
	id     []byte
	region string
	name   string
}{
	{[]byte{0x7d}, "Special Purpose", "Non-Commercial"},
	{[]byte{0x7e}, "Special Purpose", "Non-RealTime Extensions"},
	{[]byte{0x7f}, "Special Purpose", "RealTime Extensions"},
	{[]byte{0x01}, "American", "Sequential Circuits"},
	{[]byte{0x04}, "American", "Moog"},
	{[]byte{0x05}, "American", "Passport Designs"},
	{[]byte{0x06}, "American", "Lexicon"},
	{[]byte{0x07}, "American", "Kurzweil"},
	{[]byte{0x08}, "American", "Fender"},
	{[]byte{0x0a}, "American", "AKG Acoustics"},
	{[]byte{0x0f}, "American", "Ensoniq"},
	{[]byte{0x10}, "American", "Oberheim"},
	{[]byte{0x11}, "American", "Apple"},
	{[]byte{0x13}, "American", "Digidesign"},
	{[]byte{0x18}, "American", "Emu"},
	{[]byte{0x1a}, "American", "ART"},
	{[]byte{0x1c}, "American", "Eventide"},
	{[]byte{0x22}, "European", "Synthaxe"},
	{[]byte{0x24}, "European", "Hohner"},
	{[]byte{0x29}, "European", "PPG"},
	{[]byte{0x2b}, "European", "SSL"},
	{[]byte{0x2d}, "European", "Hinton Instruments"},
	{[]byte{0x2f}, "European", "Elka / General Music"},
	{[]byte{0x30}, "European", "Dynacord"},
	{[]byte{0x33}, "European", "Clavia (Nord)"},
	{[]byte{0x36}, "European", "Cheetah"},
	{[]byte{0x3e}, "European", "Waldorf Electronics Gmbh"},
	{[]byte{0x40}, "Japanese", "Kawai"},
	{[]byte{0x41}, "Japanese", "Roland"},
	{[]byte{0x42}, "Japanese", "Korg"},
	{[]byte{0x43}, "Japanese", "Yamaha"},
	{[]byte{0x44}, "Japanese", "Casio"},
	{[]byte{0x47}, "Japanese", "Akai"},
	{[]byte{0x48}, "Japanese", "Japan Victor (JVC)"},
	{[]byte{0x4c}, "Japanese", "Sony"},
	{[]byte{0x4e}, "Japanese", "Teac Corporation"},
	{[]byte{0x51}, "Japanese", "Fostex"},
	{[]byte{0x52}, "Japanese", "Zoom"},
	{[]byte{0x00, 0x00, 0x07}, "American", "Digital Music Corporation"},
	{[]byte{0x00, 0x00, 0x09}, "American", "New England Digital"},
	{[]byte{0x00, 0x00, 0x0e}, "American", "Alesis"},
	{[]byte{0x00, 0x00, 0x15}, "American", "KAT"},
	{[]byte{0x00, 0x00, 0x16}, "American", "Opcode"},
	{[]byte{0x00, 0x00, 0x1a}, "American", "Allen & Heath Brenell"},
	{[]byte{0x00, 0x00, 0x1b}, "American", "Peavey Electronics"},
	{[]byte{0x00, 0x00, 0x1c}, "American", "360 Systems"},
	{[]byte{0x00, 0x00, 0x1f}, "American", "Zeta Systems"},
	{[]byte{0x00, 0x00, 0x20}, "American", "Axxes"},
	{[]byte{0x00, 0x00, 0x3b}, "American", "Mark Of The Unicorn (MOTU)"},
	{[]byte{0x00, 0x00, 0x4d}, "American", "Studio Electronics"},
	{[]byte{0x00, 0x00, 0x50}, "American", "MIDI Solutions Inc"},
	{[]byte{0x00, 0x01, 0x37}, "American", "Roger Linn Design"},
	{[]byte{0x00, 0x01, 0x72}, "American", "Kilpatrick Audio"},
	{[]byte{0x00, 0x01, 0x73}, "American", "iConnectivity"},
	{[]byte{0x00, 0x02, 0x14}, "American", "Intellijel Designs Inc"},
	{[]byte{0x00, 0x20, 0x11}, "European", "Forefront Technology"},
	{[]byte{0x00, 0x20, 0x13}, "European", "Kenton Electronics"},
	{[]byte{0x00, 0x20, 0x1f}, "European", "TC Electronic"},
	{[]byte{0x00, 0x20, 0x20}, "European", "Doepfer"},
	{[]byte{0x00, 0x20, 0x27}, "European", "Acorn Computer"},
	{[]byte{0x00, 0x20, 0x29}, "European", "Focusrite / Novation"},
	{[]byte{0x00, 0x20, 0x32}, "European", "Behringer"},
	{[]byte{0x00, 0x20, 0x33}, "European", "Access Music Electronics"},
	{[]byte{0x00, 0x20, 0x3c}, "European", "Elektron"},
	{[]byte{0x00, 0x20, 0x4d}, "European", "Vermona"},
	{[]byte{0x00, 0x20, 0x52}, "European", "Analogue Systems"},
	{[]byte{0x00, 0x20, 0x69}, "European", "Elby Designs"},
	{[]byte{0x00, 0x20, 0x6b}, "European", "Arturia"},
	{[]byte{0x00, 0x20, 0x76}, "European", "Teenage Engineering"},
	{[]byte{0x00, 0x21, 0x02}, "European", "Mutable Instruments"},
	{[]byte{0x00, 0x21, 0x09}, "European", "Native Instruments"},
	{[]byte{0x00, 0x21, 0x10}, "European", "ROLI Ltd"},
	{[]byte{0x00, 0x21, 0x1a}, "European", "IK Multimedia"},
	{[]byte{0x00, 0x21, 0x1c}, "European", "Modor Music"},
	{[]byte{0x00, 0x21, 0x1d}, "European", "Ableton"},
	{[]byte{0x00, 0x21, 0x27}, "European", "Expert Sleepers"},
}
