// Area b: process context, automation, transport, MIDI queue and conversions, voices.
package main

import "verif/harness/mon"

func main() {
	mon.Main(map[string]mon.Prop{
		"B01": {F: b01, Rule: "random automation point lists (duplicated offsets, bursts past the capacity, several blocks) compared with a stable-sorted model; non-trivial = distinct list with at least two points"},
		"B02": {F: b02, Rule: "random channel counts, block sizes and bus layouts filled with unique sample values; every helper compared with a reference copy; non-trivial = distinct shape"},
		"B03": {F: b03, Rule: "random positions (negative included), meters, tempos and validity flags judged by the defining equations; non-trivial = distinct position and meter"},
		"B04": {F: b04, Rule: "random queue operation histories compared with an ordered-list model, all event types; non-trivial = distinct history"},
		"B05": {F: b05, Race: true, Reps: 2, Rule: "small concurrent histories of unique events checked for linearizability against an ordered-list model, and large producer/consumer runs judged for loss, duplication and order; non-trivial = history with overlapping operations"},
		"B06": {F: b06, Rule: "every note under many tunings, dense frequency sweeps and hostile values; non-trivial = distinct (note, tuning) or frequency"},
		"B07": {F: b07, Rule: "random note/pedal/mode histories over mock voices, each event judged by trace rules; non-trivial = distinct history prefix with a sounding voice"},
	})
}
