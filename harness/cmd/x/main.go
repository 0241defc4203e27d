// Area x: the bundled examples, each a process of its own with the C host linked in (see env.sh and hostx).
package main

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verif/harness/mon"
)

func each(r *mon.Run) {
	dir := os.Getenv("MON_EXDIR")
	suffix := ".bin"
	if r.Race {
		suffix = ".race"
	}
	l, _ := filepath.Glob(filepath.Join(dir, "*"+suffix))
	sort.Strings(l)
	sem := make(chan struct{}, 4)
	var wg sync.WaitGroup
	for _, b := range l {
		name := strings.TrimSuffix(filepath.Base(b), suffix)
		if r.Only != "" && !strings.HasPrefix(r.Only, name+"/") {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			r.Child(name, b)
			<-sem
		}()
	}
	wg.Wait()
}

func main() {
	mon.Main(map[string]mon.Prop{
		"X01": {F: each, Rule: "every bundled example opened, described, edited, saved and restored by the C host in random order; non-trivial = distinct example and session"},
		"X02": {F: each, Race: true, Reps: 1, Rule: "every bundled example playing random audio, notes, automation and bus layouts; non-trivial = distinct example, rate, block size and level"},
		"X03": {F: each, Rule: "every bundled example given the same settings and audio in different ways; non-trivial = distinct example and setting"},
	})
}
