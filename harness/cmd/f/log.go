package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/justyntemme/vst3go/pkg/framework/debug"
	"verif/harness/mon"
)

// sink records every Write call separately.
type sink struct {
	mu     sync.Mutex
	w      []string
	inside atomic.Int32
	both   atomic.Bool // two Write calls at once: writers such as bytes.Buffer do not allow it
}

func (s *sink) Write(p []byte) (int, error) {
	if s.inside.Add(1) != 1 {
		s.both.Store(true)
	}
	defer s.inside.Add(-1)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.w = append(s.w, string(p))
	return len(p), nil
}
func (s *sink) take() []string { s.mu.Lock(); defer s.mu.Unlock(); w := s.w; s.w = nil; return w }

var lname = [...]string{"DEBUG", "INFO", "WARN", "ERROR", "FATAL"}

var stamp = regexp.MustCompile(`^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3}) `)

func randMsg(q *rand.Rand) string {
	switch q.IntN(6) {
	case 0:
		return ""
	case 1:
		return "line one\nline two"
	case 2:
		return fmt.Sprintf("ends %d\n", q.IntN(99))
	case 3:
		return strings.Repeat("長い ", 1+mon.Pick(q, q.IntN(300), q.IntN(300), q.IntN(20000)))
	}
	return fmt.Sprintf("message %d [WARN] x.go:12: 50%%", q.IntN(1000))
}

// nested logs while it is being formatted.
type nested struct{ l *debug.Logger }

func (n nested) String() string { n.l.Info("inner"); return "outer" }

func f04(r *mon.Run) {
	one := func(c *mon.C, l *debug.Logger, global bool, s *sink, level debug.LogLevel, prefix string, flags int, enabled bool) {
		q := c.Rand
		msg := randMsg(q)
		lv := debug.LogLevel(q.IntN(5))
		form := q.IntN(4) // method/global, conditional
		var ln int
		var file string
		call := true
		before := time.Now()
		var pv any
		_, file, ln, _ = runtime.Caller(0)
		base := ln // line of the Caller call above
		line := base
		if !global {
			switch lv {
			case 0:
				_, _, line, _ = runtime.Caller(0); l.Debug("%s", msg)
			case 1:
				_, _, line, _ = runtime.Caller(0); l.Info("%s", msg)
			case 2:
				_, _, line, _ = runtime.Caller(0); l.Warn("%s", msg)
			case 3:
				_, _, line, _ = runtime.Caller(0); l.Error("%s", msg)
			case 4:
				pv = mon.Try(func() { _, _, line, _ = runtime.Caller(0); l.Fatal("%s", msg) })
			}
		} else if form == 0 && lv != 1 && lv != 4 {
			call = q.IntN(2) == 0
			switch lv {
			case 0:
				_, _, line, _ = runtime.Caller(0); debug.DebugIf(call, "%s", msg)
			case 2:
				_, _, line, _ = runtime.Caller(0); debug.WarnIf(call, "%s", msg)
			case 3:
				_, _, line, _ = runtime.Caller(0); debug.ErrorIf(call, "%s", msg)
			}
		} else {
			switch lv {
			case 0:
				_, _, line, _ = runtime.Caller(0); debug.Debug("%s", msg)
			case 1:
				_, _, line, _ = runtime.Caller(0); debug.Info("%s", msg)
			case 2:
				_, _, line, _ = runtime.Caller(0); debug.Warn("%s", msg)
			case 3:
				_, _, line, _ = runtime.Caller(0); debug.Error("%s", msg)
			case 4:
				pv = mon.Try(func() { _, _, line, _ = runtime.Caller(0); debug.Fatal("%s", msg) })
			}
		}
		after := time.Now()
		got := s.take()
		c.Evals(1)
		c.Distinct(flags, int(level), int(lv), global, enabled, prefix != "")
		if lv == debug.LogLevelFatal {
			if pv == nil || !strings.Contains(fmt.Sprint(pv), strings.TrimSuffix(msg, "\n")) {
				c.Failf("fatal-panic", "Fatal(%q) panicked with %v", msg, pv)
			}
		}
		want := enabled && call && lv >= level
		if len(got) == 0 && !want {
			return
		}
		if (len(got) != 0) != want {
			c.Failf("filter", "message at %v, logger level %v enabled %v condition %v: written %q", lv, level, enabled, call, got)
			return
		}
		if len(got) != 1 {
			c.Failf("pieces", "one message reached the writer in %d pieces", len(got))
			return
		}
		t := got[0]
		if flags&debug.FlagTime != 0 {
			m := stamp.FindStringSubmatch(t)
			if m == nil {
				c.Failf("format-time", "no time stamp in %q", t)
				return
			}
			ts, err := time.ParseInLocation("2006-01-02 15:04:05.000", m[1], time.Local)
			if err != nil || ts.Before(before.Add(-2*time.Millisecond)) || ts.After(after.Add(2*time.Millisecond)) {
				c.Failf("format-time", "stamp %q, the call was between %v and %v", m[1], before, after)
			}
			t = t[len(m[0]):]
		}
		rest := ""
		if flags&debug.FlagLevel != 0 {
			rest += "[" + lname[lv] + "] "
		}
		if flags&debug.FlagPrefix != 0 && prefix != "" {
			rest += "[" + prefix + "] "
		}
		if flags&(debug.FlagShortFile|debug.FlagLongFile) != 0 {
			f := file
			if flags&debug.FlagShortFile != 0 {
				f = filepath.Base(f)
			}
			rest += fmt.Sprintf("%s:%d: ", f, line)
			if !strings.HasPrefix(t, rest) {
				c.Failf("caller", "message logged at %s:%d (level %v global %v conditional %v) was written as %q", file, line, lv, global, form == 0, t)
				return
			}
		}
		rest += msg
		if !strings.HasSuffix(rest, "\n") || msg == "" {
			rest += "\n"
		}
		if t != rest {
			c.Failf("format", "flags %b level %v prefix %q: written %q want %q", flags, lv, prefix, t, rest)
		}
	}
	history := func(c *mon.C, l *debug.Logger, global bool, n int) {
		q := c.Rand
		s := &sink{}
		level, prefix, flags, enabled := debug.LogLevelInfo, "", debug.DefaultFlags, true
		if global {
			debug.SetOutput(s)
			debug.SetLevel(level)
			debug.SetPrefix(prefix)
			debug.SetFlags(flags)
			debug.SetEnabled(true)
		} else {
			prefix = mon.Pick(q, "", "plug")
			flags = q.IntN(32)
			l = debug.New(s, prefix, flags)
		}
		for k := 0; k < n; k++ {
			switch q.IntN(8) {
			case 0:
				level = debug.LogLevel(q.IntN(6))
				if global {
					debug.SetLevel(level)
				} else {
					l.SetLevel(level)
				}
			case 1:
				prefix = mon.Pick(q, "", "a", "Gain [x]", "日本", "100%", "%d%s")
				if global {
					debug.SetPrefix(prefix)
				} else {
					l.SetPrefix(prefix)
				}
			case 2:
				flags = q.IntN(32)
				if global {
					debug.SetFlags(flags)
				} else {
					l.SetFlags(flags)
				}
			case 3:
				enabled = q.IntN(4) != 0
				if global {
					debug.SetEnabled(enabled)
				} else {
					l.SetEnabled(enabled)
				}
				lg := l
				if global {
					lg = debug.Default()
				}
				if lg.IsEnabled() != enabled {
					c.Failf("enabled", "IsEnabled %v after SetEnabled(%v)", lg.IsEnabled(), enabled)
				}
			case 4:
				s2 := &sink{}
				if global {
					debug.SetOutput(s2)
				} else {
					l.SetOutput(s2)
				}
				one(c, l, global, s2, level, prefix, flags, enabled)
				if w := s.take(); w != nil {
					c.Failf("old-output", "a replaced output still received %q", w)
				}
				s = s2
			default:
				one(c, l, global, s, level, prefix, flags, enabled)
			}
		}
	}
	if !r.Race {
		r.Par("logger", r.N(100, 1500), func(c *mon.C, _ int) { history(c, nil, false, 80) })
		r.Case("global", func(c *mon.C) { history(c, nil, true, r.N(2000, 20000)) })
		r.Case("names", func(c *mon.C) {
			for i, n := range lname {
				if debug.LogLevel(i).String() != n {
					c.Failf("level-name", "level %d is called %q", i, debug.LogLevel(i).String())
				}
			}
			c.Evals(5)
		})
		r.Case("formats", func(c *mon.C) {
			s := &sink{}
			l := debug.New(s, "", 0)
			debug.SetOutput(s)
			debug.SetFlags(0)
			debug.SetPrefix("")
			debug.SetLevel(debug.LogLevelDebug)
			debug.SetEnabled(true)
			l.SetLevel(debug.LogLevelDebug)
			for _, x := range []struct {
				f string
				a []any
			}{{"100%% wet", nil}, {"%%", nil}, {"plain", nil}, {"%d of %d", []any{1, 2}}, {"%5.2f|%-4s|%x", []any{1.5, "ab", 255}}, {"%v %v", []any{nil, []int{1}}}, {"%s", []any{"%d %s"}}} {
				want := fmt.Sprintf(x.f, x.a...) + "\n"
				for k, f := range []func(string, ...any){l.Debug, l.Info, l.Warn, l.Error, debug.Debug, debug.Info, debug.Warn, debug.Error} {
					f(x.f, x.a...)
					if w := strings.Join(s.take(), ""); w != want {
						c.Failf("format-args", "call %d with format %q and %v wrote %q, want %q", k, x.f, x.a, w, want)
					}
					c.Evals(1)
				}
				c.Distinct("fmt", x.f)
			}
		})
		r.Case("file", func(c *mon.C) {
			dir := filepath.Join(os.Getenv("MON_TMP"), "logs")
			name := filepath.Join(dir, "a", "b", "plug.log")
			want := ""
			for k := 0; k < 4; k++ { // several sessions append to one file
				l, err := debug.NewFileLogger(name, "F", debug.FlagLevel|debug.FlagPrefix)
				if err != nil {
					c.Failf("file", "NewFileLogger: %v", err)
					return
				}
				for i := 0; i < 50; i++ {
					l.Warn("s%d m%d", k, i)
					want += fmt.Sprintf("[WARN] [F] s%d m%d\n", k, i)
				}
				l.SetOutput(&sink{})
			}
			b, err := os.ReadFile(name)
			c.Evals(200)
			if err != nil || string(b) != want {
				c.Failf("file", "log file holds %d bytes, want %d (%v)", len(b), len(want), err)
			}
			if _, err := debug.NewFileLogger(filepath.Join(name, "below-a-file.log"), "", 0); err == nil {
				c.Failf("file-error", "a log file below a regular file was accepted")
			}
			_ = os.RemoveAll(dir)
		})
		r.Case("reentrant", func(c *mon.C) {
			var s sink
			l := debug.New(&s, "", 0)
			done := make(chan struct{})
			go func() { defer close(done); l.Info("%v", nested{l}); l.Info("after") }()
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				c.Failf("reentrant", "logging a value whose String method logs never returned")
				return
			}
			w := strings.Join(s.take(), "")
			c.Evals(1)
			for _, x := range []string{"inner\n", "outer\n", "after\n"} {
				if strings.Count(w, x) != 1 {
					c.Failf("reentrant", "%q written %d times in %q", x, strings.Count(w, x), w)
				}
			}
		})
	}
	for rep := 0; rep < r.N(6, 40); rep++ {
		r.Case(fmt.Sprintf("concurrent-%d", rep), func(c *mon.C) {
			s := &sink{}
			l := debug.New(s, "P0", debug.FlagLevel|debug.FlagPrefix)
			const G = 6
			n := 300
			var wg sync.WaitGroup
			stop := make(chan struct{})
			for g := 0; g < G; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < n; i++ {
						switch i % 3 {
						case 0:
							l.Error("g%d i%d end", g, i)
						case 1:
							l.Warn("g%d i%d end", g, i)
						case 2:
							_ = mon.Try(func() { l.Fatal("g%d i%d end", g, i) })
						}
					}
				}()
			}
			var cw sync.WaitGroup
			cw.Add(1)
			go func() {
				defer cw.Done()
				for k := 0; ; k++ {
					select {
					case <-stop:
						return
					default:
					}
					l.SetPrefix(fmt.Sprintf("P%d", k%3))
					l.SetLevel(mon.Pick(rand.New(rand.NewPCG(uint64(k), 1)), debug.LogLevelDebug, debug.LogLevelInfo, debug.LogLevelWarn))
					l.SetFlags(debug.FlagLevel | debug.FlagPrefix)
					_ = l.IsEnabled()
					runtime.Gosched()
				}
			}()
			wg.Wait()
			close(stop)
			cw.Wait()
			re := regexp.MustCompile(`^\[(ERROR|WARN|FATAL)\] \[P[0-2]\] g(\d) i(\d+) end\n$`)
			var next [G]int
			switches, last := 0, -1
			for _, w := range s.take() {
				m := re.FindStringSubmatch(w)
				if m == nil {
					c.Failf("torn", "concurrent write %q is not one whole message", w)
					return
				}
				var g, i int
				fmt.Sscan(m[2], &g)
				fmt.Sscan(m[3], &i)
				if i != next[g] || m[1] != [3]string{"ERROR", "WARN", "FATAL"}[i%3] {
					c.Failf("order", "goroutine %d: message %d (%s) written where %d was due", g, i, m[1], next[g])
					return
				}
				next[g]++
				if g != last {
					switches++
					last = g
				}
			}
			if s.both.Load() {
				c.Failf("overlapping-writes", "two messages were being written to one output at the same time")
			}
			for g := range next {
				if next[g] != n {
					c.Failf("lost", "goroutine %d logged %d messages, %d were written", g, n, next[g])
				}
			}
			c.Evals(G * n)
			c.Count("goroutine switches in the log", switches)
			c.Distinct("conc", switches)
		})
	}
	var b bytes.Buffer
	_ = b
	debug.SetOutput(os.Stderr)
}
