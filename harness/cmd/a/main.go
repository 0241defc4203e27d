// Area a: parameters, registries, smoothing, saved state.
package main

import "verif/harness/mon"

func main() {
	mon.Main(map[string]mon.Prop{
		"A01": {F: a01, Race: true, Rule: "random histories of normalized/plain/text/preset writes with hostile doubles on parameters of random range, plus concurrent register histories with unique values; non-trivial = a (writer kind, value class, range class) combination or a concurrent history with overlapping operations"},
		"A02": {F: a02, Rule: "random ranges and values through normalize/denormalize/set/get and every discrete step of random option lists; non-trivial = distinct (range, value) pair or option list"},
		"A03": {F: a03, Rule: "every builder and formatter pair over a dense sweep plus random values of its range, and hostile text; non-trivial = distinct (builder, printed text)"},
		"A04": {F: a04, Race: true, Rule: "random add/lookup histories compared with a list+map model, and concurrent add/read histories judged by snapshot-prefix and uniqueness monitors; non-trivial = distinct history shape"},
		"A05": {F: a05, Race: true, Rule: "random sequences and concurrent mixes of automatic, explicit and reserving registrations; non-trivial = distinct sequence with at least one automatic assignment"},
		"A06": {F: a06, Rule: "random target/rate histories per smoothing law, each step judged for monotone approach, bounds and termination; non-trivial = distinct (law, rate, from, to)"},
		"A07": {F: a07, Race: true, Rule: "random registries saved and reloaded into equal, grown and shrunk registries, byte-at-a-time readers and a golden layout; non-trivial = distinct saved image"},
		"A08": {F: a08, Rule: "every truncation point, every failing read/write position and random corruptions of valid images; non-trivial = distinct corrupted image or fault position", Level: "fault_enumeration"},
	})
}
