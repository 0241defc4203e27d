// Area f: the framework around the DSP: buses, plug-in identity and base, chains, and the
// debugging tools.
package main

import (
	"time"

	"verif/harness/mon"
)

func main() {
	time.Local = time.FixedZone("here", 5*3600+1800) // stamps are local times
	mon.Main(map[string]mon.Prop{
		"F01": {F: f01, Rule: "random builder and configuration call sequences checked call by call against an independent list model; non-trivial = distinct bus layout and query"},
		"F02": {F: f02, Rule: "random identifiers and callback programmes checked against an independent digest and call log; non-trivial = distinct identifier or callback history"},
		"F03": {F: f03, Rule: "random trees of chains over stateful processors, random block cuts, bypass and reset, compared with the processors applied by hand; non-trivial = distinct tree shape"},
		"F04": {F: f04, Race: true, Rule: "random settings and messages, every write seen by a recording writer and parsed back; several goroutines log at once; non-trivial = distinct setting and level, concurrent messages interleaved"},
		"F05": {F: f05, Race: true, Rule: "random histories of timed sections bracketed by the harness's own clock, every reported number recomputed from the recorded durations; readers concurrent with recorders; non-trivial = distinct history length and ring size"},
		"F06": {F: f06, Rule: "random and hostile buffers; every reading compared with a direct computation, every dump parsed back; non-trivial = distinct buffer"},
	})
}
