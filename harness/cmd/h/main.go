package main

import "verif/harness/mon"

func main() {
	mon.Main(map[string]mon.Prop{
		"H01": {F: h01, Rule: "random factory texts, class and interface ids and reference histories played by a C host; non-trivial = distinct text lengths, reference count and step"},
		"H02": {F: h02, Rule: "random bus layouts, block sizes, in-place buffers and transport states processed through the C interface; non-trivial = distinct channel counts and block size"},
		"H03": {F: h03, Rule: "random automation queues (failing points, unknown ids, hostile values and offsets included) through the C interface; every output sample shows the parameter value the processor saw; non-trivial = distinct block size, point count and sub-block count"},
		"H04": {F: h04, Rule: "random note streams over consecutive blocks, split by automation or not; non-trivial = distinct block size, note count, split and reading style"},
		"H05": {F: h05, Rule: "random states saved and restored through streams with short transfers, missing seek or tell and injected failures; non-trivial = distinct parameter count, state size and stream behaviour"},
		"H06": {F: h06, Rule: "random parameters with Unicode and oversize texts queried and edited through the C interface; non-trivial = distinct parameter"},
		"H07": {F: h07, Rule: "random bus layouts and processor answers queried through the C interface; non-trivial = distinct media type, direction and bus count"},
		"H08": {F: h08, Rule: "a processor that panics in one callback at a time; non-trivial = distinct host call and repetition"},
		"H09": {F: h09, Race: true, Reps: 1, Rule: "one audio thread, five other host threads on the same module; non-trivial = distinct schedule length"},
		"H10": {F: h10, Rule: "random host blocks (missing tables, channels and contexts included) read through the data wrapper; non-trivial = distinct direction, bus count and block size"},
	})
}
