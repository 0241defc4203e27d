From f3613b91f654e3877ea20d5331f318d57cf4b36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 001/135] fix: keep NaN out of parameter values

---
 pkg/framework/param/parameter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/param/parameter.go b/pkg/framework/param/parameter.go
index 8922c92..84b4310 100644
--- a/pkg/framework/param/parameter.go
+++ b/pkg/framework/param/parameter.go
@@ -48,8 +48,8 @@ func (p *Parameter) GetValue() float64 {
 
 // SetValue sets the normalized value (0-1)
 func (p *Parameter) SetValue(value float64) {
-	// Clamp to 0-1
-	if value < 0 {
+	// Clamp to 0-1 (NaN is not a value the audio thread can use, so it maps to 0)
+	if value < 0 || value != value {
 		value = 0
 	} else if value > 1 {
 		value = 1
@@ -120,7 +120,7 @@ func (p *Parameter) Normalize(plain float64) float64 {
 		return 0
 	}
 	normalized := (plain - p.Min) / (p.Max - p.Min)
-	if normalized < 0 {
+	if normalized < 0 || normalized != normalized {
 		return 0
 	}
 	if normalized > 1 {
-- 
2.43.0


From 4476e2cea6bf4e92e88baa98534b930888a55f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 002/135] fix: clamp the declared default of a parameter to its
 range

---
 pkg/framework/param/builder.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/framework/param/builder.go b/pkg/framework/param/builder.go
index 46f16e0..2bae6ae 100644
--- a/pkg/framework/param/builder.go
+++ b/pkg/framework/param/builder.go
@@ -37,8 +37,7 @@ func (b *Builder) Range(minVal, maxVal float64) *Builder {
 func (b *Builder) Default(value float64) *Builder {
 	// Convert to normalized
 	if b.param.Max > b.param.Min {
-		normalized := (value - b.param.Min) / (b.param.Max - b.param.Min)
-		b.param.DefaultValue = normalized
+		b.param.DefaultValue = b.param.Normalize(value)
 	}
 	return b
 }
-- 
2.43.0


From c05f5f7c470c760fcdb54ffc0e32c4bb4d1b317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 003/135] fix: choice parameters show the option of every step

---
 pkg/framework/param/builders.go | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index 26afb08..7b24c95 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -2,6 +2,7 @@ package param
 
 import (
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -14,25 +15,15 @@ type ChoiceOption struct {
 
 // Choice creates a parameter builder for a multiple choice parameter
 func Choice(id uint32, name string, options []ChoiceOption) *Builder {
-	// Create name list for formatter
-	names := make([]string, len(options))
-	for i, opt := range options {
-		names[i] = opt.Name
-	}
-
-	// Create formatter
+	// Create formatter: denormalizing is not exact, so pick the closest option
 	formatter := func(value float64) string {
+		name, best := "Unknown", math.Inf(1)
 		for _, opt := range options {
-			if opt.Value == value {
-				return opt.Name
+			if distance := math.Abs(opt.Value - value); distance < best {
+				name, best = opt.Name, distance
 			}
 		}
-		// Fallback to index-based lookup for integer values
-		index := int(value)
-		if index >= 0 && index < len(names) {
-			return names[index]
-		}
-		return "Unknown"
+		return name
 	}
 
 	// Create parser
@@ -56,16 +47,18 @@ func Choice(id uint32, name string, options []ChoiceOption) *Builder {
 
 	// Determine range and steps
 	minVal := 0.0
-	maxVal := float64(len(options) - 1)
+	maxVal := 0.0
+	steps := 0 // VST3 step count: one less than the number of values
 	if len(options) > 0 {
 		minVal = options[0].Value
 		maxVal = options[len(options)-1].Value
+		steps = len(options) - 1
 	}
 
 	return New(id, name).
 		Range(minVal, maxVal).
-		Steps(int32(len(options))).
-		Default(options[0].Value).
+		Steps(int32(steps)).
+		Default(minVal).
 		Formatter(formatter, parser)
 }
 
-- 
2.43.0


From e807dc0c49c816f1e2ee7e165942083d76e87aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 004/135] fix: note names for inexact and negative note numbers

---
 pkg/framework/param/formatters.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/formatters.go b/pkg/framework/param/formatters.go
index 0d50798..9875457 100644
--- a/pkg/framework/param/formatters.go
+++ b/pkg/framework/param/formatters.go
@@ -161,8 +161,9 @@ func PanParser(str string) (float64, error) {
 // NoteFormatter formats MIDI note numbers
 func NoteFormatter(noteNumber float64) string {
 	notes := []string{"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"}
-	note := int(noteNumber) % 12
-	octave := int(noteNumber)/12 - 1
+	number := int(math.Round(noteNumber))
+	note := (number%12 + 12) % 12
+	octave := (number-note)/12 - 1
 	return fmt.Sprintf("%s%d", notes[note], octave)
 }
 
-- 
2.43.0


From f849252539292e97523507deead6caffe8b91b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 005/135] fix: Q and knee parameters parse the text they
 display

---
 pkg/framework/param/builders.go      | 4 +++-
 pkg/framework/param/registry_auto.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index 7b24c95..9fb7b19 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -168,7 +168,9 @@ func QParameter(id uint32, name string, minQ, maxQ, defaultQ float64) *Builder {
 		Default(defaultQ).
 		Formatter(func(v float64) string {
 			return fmt.Sprintf("Q: %.2f", v)
-		}, nil)
+		}, func(s string) (float64, error) {
+			return parseFloat(strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(s), "Q:")))
+		})
 }
 
 // PanParameter creates a stereo pan parameter
diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index 5a9a8a4..83559a3 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -186,7 +186,7 @@ func (r *AutoRegistry) RegisterCompressorControls() error {
 		Add(New(0, "Knee").
 			Range(0, 10).
 			Default(2).
-			Formatter(func(v float64) string { return fmt.Sprintf("%.1f dB", v) }, nil).
+			Formatter(func(v float64) string { return fmt.Sprintf("%.1f dB", v) }, DecibelParser).
 			Build()).
 		Add(BypassParameter(0, "Auto Gain").Build()).
 		Build()
-- 
2.43.0


From d25d2e632c7d38ab86e2be4f6d9decaa42c53d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 006/135] fix: automatic parameter IDs never collide with
 explicit or reserved ones

---
 pkg/framework/param/registry_auto.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index 83559a3..4f9a721 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -46,6 +46,9 @@ func (r *AutoRegistry) Register(params ...*Parameter) error {
 		// Assign new ID if auto-enabled and ID is 0
 		if r.autoEnabled && p.ID == 0 {
 			p.ID = r.nextID.Add(1) - 1
+			for _, taken := r.params[p.ID]; taken; _, taken = r.params[p.ID] {
+				p.ID = r.nextID.Add(1) - 1
+			}
 		}
 		
 		// Check for ID conflicts
@@ -53,6 +56,11 @@ func (r *AutoRegistry) Register(params ...*Parameter) error {
 			return fmt.Errorf("parameter ID %d already exists", p.ID)
 		}
 		
+		// Update next ID if necessary
+		if p.ID >= r.nextID.Load() {
+			r.nextID.Store(p.ID + 1)
+		}
+		
 		// Register the parameter
 		r.params[p.ID] = p
 		r.order = append(r.order, p.ID)
@@ -123,6 +131,8 @@ func (r *AutoRegistry) Clear() {
 
 // Reserve reserves a range of IDs for manual assignment
 func (r *AutoRegistry) Reserve(count uint32) uint32 {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	return r.nextID.Add(count) - count
 }
 
-- 
2.43.0


From 8fb6c09f6b1ee7fe02ce30b4e2e2118203a73ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 007/135] fix: smoothing terminates when there is no distance
 or no time to smooth over

---
 pkg/framework/param/smoother.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index a903d0b..64e310a 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -57,9 +57,15 @@ func (s *Smoother) SetTarget(target float64) {
 	switch s.smoothingType {
 	case LinearSmoothing:
 		// Calculate step size for linear smoothing
+		s.step = 0
 		if s.rate > 0 {
 			s.step = (target - s.current) / s.rate
 		}
+		if s.step == 0 {
+			// Already there, or no smoothing time
+			s.current = target
+			s.isSmoothing = false
+		}
 		
 	case LogarithmicSmoothing:
 		// Convert to log space for frequency parameters
@@ -77,9 +83,15 @@ func (s *Smoother) SetTarget(target float64) {
 		s.logCurrent = math.Log(currentVal)
 		s.logTarget = math.Log(targetVal)
 		
+		s.logStep = 0
 		if s.rate > 0 {
 			s.logStep = (s.logTarget - s.logCurrent) / s.rate
 		}
+		if s.logStep == 0 {
+			// Already there in log space, or no smoothing time
+			s.current = target
+			s.isSmoothing = false
+		}
 	}
 }
 
-- 
2.43.0


From ad2960453ad1cd4f323e6bc0a39eb41247b58d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 008/135] fix: re-enabled smoothing starts from the current
 parameter value

---
 pkg/framework/param/smoother.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index 64e310a..f5e2a2f 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -210,8 +210,9 @@ func (sp *SmoothedParameter) GetSmoothedValue() float64 {
 
 // SetSmoothing enables or disables smoothing.
 func (sp *SmoothedParameter) SetSmoothing(enabled bool) {
+	changed := enabled != sp.enabled
 	sp.enabled = enabled
-	if !enabled {
+	if changed || !enabled {
 		sp.smoother.Reset(sp.GetPlainValue())
 	}
 }
-- 
2.43.0


From b361ce4da9babc8a7b5ca5402c4419d2b9869d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 009/135] fix: reject saved state with a negative parameter
 count

---
 pkg/framework/state/manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/framework/state/manager.go b/pkg/framework/state/manager.go
index 7b3eacf..906b731 100644
--- a/pkg/framework/state/manager.go
+++ b/pkg/framework/state/manager.go
@@ -119,6 +119,10 @@ func (m *Manager) Load(r io.Reader) error {
 		return err
 	}
 
+	if paramCount < 0 {
+		return fmt.Errorf("invalid parameter count %d", paramCount)
+	}
+
 	// Read each parameter
 	for i := int32(0); i < paramCount; i++ {
 		var id uint32
-- 
2.43.0


From ec15e13e24931f062382fa70243904f2a36ea014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 010/135] fix: smoothing arrives when a step is below
 floating-point resolution

---
 pkg/framework/param/smoother.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index f5e2a2f..ab2edae 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -114,20 +114,22 @@ func (s *Smoother) Next() float64 {
 		
 	case LinearSmoothing:
 		// Linear interpolation
+		previous := s.current
 		s.current += s.step
 		
-		// Check if we've reached or passed the target
-		if (s.step > 0 && s.current >= s.target) || (s.step < 0 && s.current <= s.target) {
+		// Check if we've reached or passed the target, or are too close to move any further
+		if s.current == previous || (s.step > 0 && s.current >= s.target) || (s.step < 0 && s.current <= s.target) {
 			s.current = s.target
 			s.isSmoothing = false
 		}
 		
 	case LogarithmicSmoothing:
 		// Interpolate in log space
+		previous := s.logCurrent
 		s.logCurrent += s.logStep
 		
-		// Check if we've reached the target
-		if (s.logStep > 0 && s.logCurrent >= s.logTarget) || (s.logStep < 0 && s.logCurrent <= s.logTarget) {
+		// Check if we've reached the target, or are too close to move any further
+		if s.logCurrent == previous || (s.logStep > 0 && s.logCurrent >= s.logTarget) || (s.logStep < 0 && s.logCurrent <= s.logTarget) {
 			s.current = s.target
 			s.isSmoothing = false
 		} else {
-- 
2.43.0


From 0e1b27ce07c7f29d15a018914521f1e07fd258dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 011/135] fix: MIDI queue reads sort and copy under one lock

---
 pkg/midi/queue.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pkg/midi/queue.go b/pkg/midi/queue.go
index 44b1bcb..4b41065 100644
--- a/pkg/midi/queue.go
+++ b/pkg/midi/queue.go
@@ -39,15 +39,11 @@ func (q *EventQueue) AddMultiple(events []Event) {
 }
 
 func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {
-	q.mu.RLock()
-	defer q.mu.RUnlock()
+	q.mu.Lock()
+	defer q.mu.Unlock()
 
 	if !q.sorted {
-		q.mu.RUnlock()
-		q.mu.Lock()
 		q.sortEvents()
-		q.mu.Unlock()
-		q.mu.RLock()
 	}
 
 	if len(q.events) == 0 {
@@ -80,15 +76,11 @@ func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {
 }
 
 func (q *EventQueue) GetAllEvents() []Event {
-	q.mu.RLock()
-	defer q.mu.RUnlock()
+	q.mu.Lock()
+	defer q.mu.Unlock()
 
 	if !q.sorted {
-		q.mu.RUnlock()
-		q.mu.Lock()
 		q.sortEvents()
-		q.mu.Unlock()
-		q.mu.RLock()
 	}
 
 	result := make([]Event, len(q.events))
-- 
2.43.0


From f86f37c102b595d1a63c290ec34603d826a362f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 012/135] fix: note and frequency conversions are exact and
 terminate

---
 pkg/midi/events.go | 36 ++++--------------------------------
 1 file changed, 4 insertions(+), 32 deletions(-)

diff --git a/pkg/midi/events.go b/pkg/midi/events.go
index 255ef3e..c441901 100644
--- a/pkg/midi/events.go
+++ b/pkg/midi/events.go
@@ -2,6 +2,7 @@ package midi
 
 import (
 	"fmt"
+	"math"
 )
 
 type EventType uint8
@@ -226,18 +227,7 @@ func NoteToFrequency(note uint8, tuningA4 float64) float64 {
 }
 
 func pow2(x float64) float64 {
-	// Fast approximation of 2^x
-	if x >= 0 {
-		whole := int(x)
-		frac := x - float64(whole)
-		// 2^whole * 2^frac
-		// Use Taylor series approximation for fractional part
-		fracPow := 1.0 + frac*(0.693147 + frac*(0.240227 + frac*0.055504))
-		return float64(uint64(1)<<uint(whole)) * fracPow
-	} else {
-		// For negative x, use 2^x = 1 / 2^(-x)
-		return 1.0 / pow2(-x)
-	}
+	return math.Exp2(x)
 }
 
 func FrequencyToNote(freq, tuningA4 float64) uint8 {
@@ -255,28 +245,10 @@ func FrequencyToNote(freq, tuningA4 float64) uint8 {
 }
 
 func log2(x float64) float64 {
-	// Fast approximation of log2(x)
-	if x <= 0 {
+	if !(x > 0) {
 		return -1000.0 // Return a very negative number for invalid input
 	}
-	
-	// Normalize x to [1, 2) range
-	exp := 0
-	for x >= 2.0 {
-		x /= 2.0
-		exp++
-	}
-	for x < 1.0 {
-		x *= 2.0
-		exp--
-	}
-	
-	// Now x is in [1, 2), use polynomial approximation
-	// log2(x) ≈ (x-1) * (1.4427 - 0.7213*(x-1) + 0.4821*(x-1)^2)
-	t := x - 1.0
-	frac := t * (1.4427 - t*(0.7213 - t*0.4821))
-	
-	return float64(exp) + frac
+	return math.Log2(x)
 }
 
 func NoteNumberToName(note uint8) string {
-- 
2.43.0


From 8d0807da3b4bb22754dc66a72acf21817d8f8e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 013/135] fix: parameter changes at one sample offset keep
 their order

---
 pkg/framework/process/context.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 2671989..89389ea 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -2,8 +2,9 @@
 package process
 
 import (
+	"cmp"
 	"fmt"
-	"sort"
+	"slices"
 
 	"github.com/justyntemme/vst3go/pkg/framework/param"
 	"github.com/justyntemme/vst3go/pkg/midi"
@@ -248,8 +249,9 @@ func (c *Context) ResetParameterChanges() {
 func (c *Context) SortParameterChanges() {
 	if c.changeCount > 1 {
 		// Sort only the active portion of the slice
-		sort.Slice(c.paramChanges[:c.changeCount], func(i, j int) bool {
-			return c.paramChanges[i].SampleOffset < c.paramChanges[j].SampleOffset
+		// Stable: of several changes at one offset the last one added wins
+		slices.SortStableFunc(c.paramChanges[:c.changeCount], func(a, b ParameterChange) int {
+			return cmp.Compare(a.SampleOffset, b.SampleOffset)
 		})
 	}
 }
-- 
2.43.0


From af907b5efaa5c5425405498dc0e64d81c2c3085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 014/135] fix: bar and beat positions before the project start

---
 pkg/framework/process/context.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 89389ea..a8b34d8 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -4,6 +4,7 @@ package process
 import (
 	"cmp"
 	"fmt"
+	"math"
 	"slices"
 
 	"github.com/justyntemme/vst3go/pkg/framework/param"
@@ -54,7 +55,7 @@ type TransportInfo struct {
 
 // GetBarsBeats returns the current position in bars and beats
 func (t *TransportInfo) GetBarsBeats() (bars int, beats float64) {
-	if !t.HasMusicalTime || !t.HasTimeSignature || t.TimeSigDenominator == 0 {
+	if !t.HasMusicalTime || !t.HasTimeSignature || t.TimeSigDenominator <= 0 || t.TimeSigNumerator <= 0 {
 		return 0, 0
 	}
 
@@ -63,7 +64,7 @@ func (t *TransportInfo) GetBarsBeats() (bars int, beats float64) {
 	quarterNotesPerBeat := 4.0 / float64(t.TimeSigDenominator)
 	totalBeats := t.ProjectTimeMusic / quarterNotesPerBeat
 
-	bars = int(totalBeats / beatsPerBar)
+	bars = int(math.Floor(totalBeats / beatsPerBar)) // floor: pre-roll positions are negative
 	beats = totalBeats - float64(bars)*beatsPerBar
 
 	return bars, beats
@@ -93,11 +94,11 @@ func (t *TransportInfo) GetBeatPosition() float64 {
 	if t.HasTimeSignature && t.TimeSigDenominator > 0 {
 		quarterNotesPerBeat := 4.0 / float64(t.TimeSigDenominator)
 		beatPosition := (positionInBar / quarterNotesPerBeat)
-		return beatPosition - float64(int(beatPosition)) // Get fractional part
+		return beatPosition - math.Floor(beatPosition) // Get fractional part
 	}
 
 	// Default to quarter note = beat
-	return positionInBar - float64(int(positionInBar))
+	return positionInBar - math.Floor(positionInBar)
 }
 
 // IsOnBeat returns true if the current position is at the start of a beat
-- 
2.43.0


From 75d843bcee8f791f3e7fe8190a98720266b9cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 015/135] fix: a note played again under the sustain pedal
 outlives the pedal

---
 pkg/framework/voice/allocator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 07871fa..3817598 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -145,6 +145,9 @@ func (a *Allocator) ProcessEvent(event midi.Event) {
 
 // NoteOn handles a note on event
 func (a *Allocator) NoteOn(note uint8, velocity uint8) {
+	// The key is down again, so the pedal no longer decides when it is released
+	delete(a.sustainedNotes, note)
+
 	switch a.mode {
 	case ModePoly:
 		a.noteOnPoly(note, velocity)
-- 
2.43.0


From e94f35659c3957d724b832497d56803c3078bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 016/135] fix: a reused voice no longer answers to the note it
 played before

---
 pkg/framework/voice/allocator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 3817598..780d67c 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -237,6 +237,13 @@ func (a *Allocator) noteOnPoly(note uint8, velocity uint8) {
 		}
 	}
 
+	// A voice that ended by itself may still be listed for the note it played before
+	for other, voices := range a.noteToVoice {
+		if len(voices) == 1 && voices[0] == voiceIdx {
+			delete(a.noteToVoice, other)
+		}
+	}
+
 	// Allocate the voice
 	a.voices[voiceIdx].TriggerNote(note, velocity)
 	a.noteToVoice[note] = []int{voiceIdx}
-- 
2.43.0


From fceeff4f957c7137d7c4eeaa59e3a1bb3dc480d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 017/135] fix: legato treats note 0 like any other note

---
 pkg/framework/voice/allocator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 780d67c..f7337c2 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -276,7 +276,7 @@ func (a *Allocator) noteOnMono(note uint8, velocity uint8) {
 
 // noteOnLegato handles legato mode note on
 func (a *Allocator) noteOnLegato(note uint8, velocity uint8) {
-	if a.currentNote == 0 {
+	if len(a.noteToVoice) == 0 {
 		// First note, trigger normally
 		a.noteOnMono(note, velocity)
 	} else {
@@ -291,7 +291,7 @@ func (a *Allocator) noteOnLegato(note uint8, velocity uint8) {
 
 // noteOffMono handles mono/legato mode note off
 func (a *Allocator) noteOffMono(note uint8, velocity uint8) {
-	if note == a.currentNote {
+	if _, playing := a.noteToVoice[note]; playing {
 		a.voices[0].ReleaseNote()
 		delete(a.noteToVoice, note)
 		a.currentNote = 0
-- 
2.43.0


From ef54989b55c27a1dcb411914f715b5a96cf0e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 018/135] fix: unison note-off releases every voice the note
 started

---
 pkg/framework/voice/allocator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index f7337c2..a758c50 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -305,7 +305,7 @@ func (a *Allocator) noteOnUnison(note uint8, velocity uint8) {
 	for i := 0; i < a.maxVoices; i++ {
 		a.voices[i].TriggerNote(note, velocity)
 	}
-	a.noteToVoice[note] = make([]int, a.maxVoices)
+	a.noteToVoice = map[uint8][]int{note: make([]int, a.maxVoices)}
 	for i := range a.noteToVoice[note] {
 		a.noteToVoice[note][i] = i
 	}
@@ -314,9 +314,9 @@ func (a *Allocator) noteOnUnison(note uint8, velocity uint8) {
 
 // noteOffUnison handles unison mode note off
 func (a *Allocator) noteOffUnison(note uint8, velocity uint8) {
-	if note == a.currentNote {
-		for i := 0; i < a.maxVoices; i++ {
-			a.voices[i].ReleaseNote()
+	if voices, playing := a.noteToVoice[note]; playing {
+		for _, idx := range voices {
+			a.voices[idx].ReleaseNote()
 		}
 		delete(a.noteToVoice, note)
 		a.currentNote = 0
-- 
2.43.0


From 4cce1104ca2f5feb48372900f1cdc07a0663291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 019/135] fix: unison releases voices that a lowered voice
 limit leaves out

---
 pkg/framework/voice/allocator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index a758c50..881bb04 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -305,6 +305,14 @@ func (a *Allocator) noteOnUnison(note uint8, velocity uint8) {
 	for i := 0; i < a.maxVoices; i++ {
 		a.voices[i].TriggerNote(note, velocity)
 	}
+	// Voices a lowered limit excludes would otherwise hold the previous note forever
+	for _, voices := range a.noteToVoice {
+		for _, idx := range voices {
+			if idx >= a.maxVoices {
+				a.voices[idx].ReleaseNote()
+			}
+		}
+	}
 	a.noteToVoice = map[uint8][]int{note: make([]int, a.maxVoices)}
 	for i := range a.noteToVoice[note] {
 		a.noteToVoice[note][i] = i
-- 
2.43.0


From 759546361279239566fe0b04b9b4cbc9d0b072c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 020/135] fix: delay line reads stay inside the line

---
 pkg/dsp/delay/delay.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/dsp/delay/delay.go b/pkg/dsp/delay/delay.go
index 5824f83..a5adc7a 100644
--- a/pkg/dsp/delay/delay.go
+++ b/pkg/dsp/delay/delay.go
@@ -41,6 +41,13 @@ func (d *Line) Write(sample float32) {
 
 // Read gets a delayed sample (delay in samples)
 func (d *Line) Read(delaySamples float64) float32 {
+	// Stay within what the line holds: its newest sample is one sample old
+	if !(delaySamples >= 1.0) {
+		delaySamples = 1.0
+	} else if delaySamples > float64(d.bufferSize) {
+		delaySamples = float64(d.bufferSize)
+	}
+
 	// Calculate read position
 	readPos := float64(d.writePos) - delaySamples
 	if readPos < 0 {
@@ -50,6 +57,9 @@ func (d *Line) Read(delaySamples float64) float32 {
 	// Linear interpolation
 	readPosInt := int(readPos)
 	frac := float32(readPos - float64(readPosInt))
+	if readPosInt >= d.bufferSize { // rounding of a tiny negative position
+		readPosInt -= d.bufferSize
+	}
 
 	// Get two samples for interpolation
 	s1 := d.buffer[readPosInt]
-- 
2.43.0


From 91199e95d8f1ea0953840bc30e1b609da04fac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 021/135] fix: oscillator phase wraps for negative frequencies

---
 pkg/dsp/oscillator/oscillator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 99ee311..2cd47b8 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -40,7 +40,7 @@ func (o *Oscillator) Reset() {
 // updatePhase advances the phase and wraps it
 func (o *Oscillator) updatePhase() {
 	o.phase += o.phaseInc
-	if o.phase >= 1.0 {
+	if o.phase >= 1.0 || o.phase < 0.0 {
 		o.phase -= math.Floor(o.phase)
 	}
 }
-- 
2.43.0


From d374b487e69067ae76afe1e0017cca62fa9c50d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 022/135] fix: band-limited oscillators produce one impulse per
 cycle and a sawtooth

---
 pkg/dsp/oscillator/oscillator.go | 42 +++++++++++---------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 2cd47b8..5086703 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -166,27 +166,18 @@ func (b *BLITOscillator) SetFrequency(freq float64) {
 // BLIT generates a band-limited impulse train sample
 func (b *BLITOscillator) BLIT() float32 {
 	// Generate BLIT using closed-form solution
-	phase2pi := 2.0 * math.Pi * b.phase
+	// (one impulse per cycle: sin((2m+1)x)/sin(x) repeats every pi)
+	x := math.Pi * b.phase
 
-	var sample float64
-	if b.phase < b.phaseInc || b.phase > (1.0-b.phaseInc) {
-		// Near discontinuity, use limit value
-		sample = b.a
-	} else {
-		// Normal BLIT formula
-		denom := math.Sin(phase2pi)
-		if math.Abs(denom) > 1e-10 {
-			num := math.Sin(float64(2*b.m+1) * phase2pi)
-			sample = b.a * num / denom
-		} else {
-			sample = b.a
-		}
+	sample := 1.0 // limit value at the impulse
+	if denom := math.Sin(x); math.Abs(denom) > 1e-10 {
+		sample = b.a * math.Sin(float64(2*b.m+1)*x) / denom
 	}
 
 	// Update phase
 	b.phase += b.phaseInc
-	if b.phase >= 1.0 {
-		b.phase -= 1.0
+	if b.phase >= 1.0 || b.phase < 0.0 {
+		b.phase -= math.Floor(b.phase)
 	}
 
 	return float32(sample)
@@ -194,10 +185,9 @@ func (b *BLITOscillator) BLIT() float32 {
 
 // BandLimitedSaw generates an alias-free sawtooth using integrated BLIT
 type BandLimitedSaw struct {
-	blit    *BLITOscillator
-	leaky   float64 // leaky integrator coefficient
-	state   float64 // integrator state
-	dcBlock float64 // DC blocking filter state
+	blit  *BLITOscillator
+	leaky float64 // leaky integrator coefficient
+	state float64 // integrator state
 }
 
 // NewBandLimitedSaw creates a new band-limited sawtooth oscillator
@@ -218,15 +208,11 @@ func (s *BandLimitedSaw) Next() float32 {
 	// Get BLIT sample
 	blit := float64(s.blit.BLIT())
 
-	// Leaky integration
-	s.state = s.leaky*s.state + blit
-
-	// DC blocking
-	output := s.state - s.dcBlock
-	s.dcBlock = s.state * 0.999
+	// Leaky integration of the train with its mean removed: a rising ramp that
+	// drops by 2 at each impulse
+	s.state = s.leaky*s.state - (blit-s.blit.a)*2.0*s.blit.phaseInc/s.blit.a
 
-	// Scale to [-1, 1]
-	return float32(output * s.blit.phaseInc * 4.0)
+	return float32(s.state)
 }
 
 // Process fills buffer with band-limited sawtooth - no allocations
-- 
2.43.0


From f464b2265529b86c2b5f2de7cf1bf1d878fbc01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 023/135] fix: RMS detector survives rounding of its running
 sum

---
 pkg/dsp/envelope/detector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dsp/envelope/detector.go b/pkg/dsp/envelope/detector.go
index 3d62dcf..3bc44bb 100644
--- a/pkg/dsp/envelope/detector.go
+++ b/pkg/dsp/envelope/detector.go
@@ -173,6 +173,9 @@ func (d *Detector) Detect(input float32) float32 {
 		oldValue := d.rmsWindow[d.rmsIndex]
 		d.rmsWindow[d.rmsIndex] = squared
 		d.rmsSum += squared - oldValue
+		if d.rmsSum < 0 { // rounding of the running sum
+			d.rmsSum = 0
+		}
 		d.rmsIndex = (d.rmsIndex + 1) % d.rmsWindowLen
 
 		// Calculate RMS
-- 
2.43.0


From df4f69145ef2e8dfa7338a9a446adbf83315ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 024/135] fix: envelope level in dB never falls below its floor

---
 pkg/dsp/envelope/detector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/envelope/detector.go b/pkg/dsp/envelope/detector.go
index 3bc44bb..4d89258 100644
--- a/pkg/dsp/envelope/detector.go
+++ b/pkg/dsp/envelope/detector.go
@@ -250,7 +250,7 @@ func (d *Detector) GetEnvelopeDB() float32 {
 	if d.envelope <= 0 {
 		return -96.0 // Minimum dB
 	}
-	return float32(20.0 * math.Log10(d.envelope))
+	return float32(math.Max(-96.0, 20.0*math.Log10(d.envelope)))
 }
 
 // Reset resets the detector state
-- 
2.43.0


From 4cc24617ba276614bd98b6eba6fd9cc63b2319ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 025/135] fix: a sustain change during decay takes effect

---
 pkg/dsp/envelope/envelope.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/dsp/envelope/envelope.go b/pkg/dsp/envelope/envelope.go
index 1541dfd..925fd31 100644
--- a/pkg/dsp/envelope/envelope.go
+++ b/pkg/dsp/envelope/envelope.go
@@ -71,6 +71,7 @@ func (e *ADSR) SetDecay(seconds float64) {
 // SetSustain sets the sustain level (0-1)
 func (e *ADSR) SetSustain(level float64) {
 	e.sustain = math.Max(0.0, math.Min(1.0, level))
+	e.updateDecayTarget()
 }
 
 // SetRelease sets the release time in seconds
@@ -86,6 +87,14 @@ func (e *ADSR) SetADSR(attack, decay, sustain, release float64) {
 	e.sustain = math.Max(0.0, math.Min(1.0, sustain))
 	e.release = math.Max(0.001, release)
 	e.updateCoefficients()
+	e.updateDecayTarget()
+}
+
+// updateDecayTarget makes a running decay head for the current sustain level
+func (e *ADSR) updateDecayTarget() {
+	if e.stage == StageDecay {
+		e.target = e.sustain
+	}
 }
 
 // updateCoefficients recalculates the exponential coefficients
-- 
2.43.0


From 8c15ad78cae1b3c1beee42786e4efb58ed32c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 026/135] fix: summing buffers of different lengths

---
 pkg/dsp/mix/mix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/mix/mix.go b/pkg/dsp/mix/mix.go
index 8f7c0eb..a55e160 100644
--- a/pkg/dsp/mix/mix.go
+++ b/pkg/dsp/mix/mix.go
@@ -108,7 +108,7 @@ func Sum(buffers [][]float32, dst []float32) {
 	// Sum all buffers
 	for _, buffer := range buffers {
 		bufLen := len(buffer)
-		if bufLen < length {
+		if bufLen > length {
 			bufLen = length
 		}
 		
@@ -139,7 +139,7 @@ func SumWeighted(buffers [][]float32, gains []float32, dst []float32) {
 		}
 		
 		bufLen := len(buffer)
-		if bufLen < length {
+		if bufLen > length {
 			bufLen = length
 		}
 		
-- 
2.43.0


From 53d2445f68f83dab86998d95c62f801494aa6f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 027/135] fix: no level converts to less than the minimum dB
 value

---
 pkg/dsp/gain/gain.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/gain/gain.go b/pkg/dsp/gain/gain.go
index 88b074c..2a9da07 100644
--- a/pkg/dsp/gain/gain.go
+++ b/pkg/dsp/gain/gain.go
@@ -20,7 +20,7 @@ func LinearToDb(linear float64) float64 {
 	if linear <= 0 {
 		return MinDB
 	}
-	return 20.0 * math.Log10(linear)
+	return math.Max(MinDB, 20.0*math.Log10(linear))
 }
 
 // DbToLinear converts a decibel value to linear amplitude.
@@ -37,7 +37,7 @@ func LinearToDb32(linear float32) float32 {
 	if linear <= 0 {
 		return MinDB
 	}
-	return 20.0 * float32(math.Log10(float64(linear)))
+	return float32(LinearToDb(float64(linear)))
 }
 
 // DbToLinear32 is the float32 version of DbToLinear.
-- 
2.43.0


From 7195b4493a1a38d1ea50bdaab1b0be4a9cd080cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 028/135] fix: the balanced pan law lowers the center, not the
 sides

---
 pkg/dsp/pan/pan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/pan/pan.go b/pkg/dsp/pan/pan.go
index e379622..35fd307 100644
--- a/pkg/dsp/pan/pan.go
+++ b/pkg/dsp/pan/pan.go
@@ -120,7 +120,7 @@ func balancedPan(pan float32) (left, right float32) {
 	// centerGain := float32(0.595 / 0.707)
 	
 	// Interpolate compensation based on pan position
-	compensation := 1.0 - (pan*pan)*0.159 // Approximation for smooth transition
+	compensation := 1.0 - (1.0-pan*pan)*0.159 // Approximation for smooth transition
 	
 	left *= compensation
 	right *= compensation
-- 
2.43.0


From 339e70c59c146118f641d5ec45e584daef064c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 029/135] fix: stereo panning has no gain jump at center

---
 pkg/dsp/pan/pan.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/pan/pan.go b/pkg/dsp/pan/pan.go
index 35fd307..e4c86eb 100644
--- a/pkg/dsp/pan/pan.go
+++ b/pkg/dsp/pan/pan.go
@@ -67,7 +67,11 @@ func ProcessStereo(leftIn, rightIn []float32, pan float32, law Law, leftOut, rig
 		length = len(rightOut)
 	}
 	
-	// For stereo panning, we need to cross-mix
+	// Gains are relative to center, which passes the signal unchanged
+	centerGain, _ := MonoToStereo(0, law)
+	leftGain /= centerGain
+	rightGain /= centerGain
+
 	for i := 0; i < length; i++ {
 		l := leftIn[i]
 		r := rightIn[i]
-- 
2.43.0


From 064781260ede0adfdd7c5bd251bd434f7febfe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 030/135] fix: all-pass interpolation delays by the requested
 fraction

---
 pkg/dsp/interpolation/interpolation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/interpolation/interpolation.go b/pkg/dsp/interpolation/interpolation.go
index f998baf..4b24177 100644
--- a/pkg/dsp/interpolation/interpolation.go
+++ b/pkg/dsp/interpolation/interpolation.go
@@ -117,7 +117,7 @@ func (ap *AllPass) Process(input, frac float32) float32 {
 	a := (1 - frac) / (1 + frac)
 	
 	// All-pass filter
-	output := input + a*ap.x1 - a*ap.y1
+	output := a*(input-ap.y1) + ap.x1
 	
 	// Update state
 	ap.x1 = input
-- 
2.43.0


From 86c8a66a7c2f81d5c797ca6e6faccd6c8412fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 031/135] fix: seeded noise is reproducible

---
 pkg/dsp/utility/noise.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index 677d9d2..c0c9115 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -66,6 +66,7 @@ func (n *NoiseGenerator) SetType(noiseType NoiseType) {
 // SetSeed sets the random seed for reproducible noise.
 func (n *NoiseGenerator) SetSeed(seed int64) {
 	n.rand = rand.New(rand.NewSource(seed))
+	n.Reset() // the state drawn from the previous source must not leak into the sequence
 }
 
 // Next generates the next noise sample.
-- 
2.43.0


From fd9b4cbe4b1ac44e1e4561d83627f96bfdb95d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 032/135] fix: violet noise rises with frequency

---
 pkg/dsp/utility/noise.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index c0c9115..84d1326 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -36,7 +36,8 @@ type NoiseGenerator struct {
 	brownState float32
 	
 	// Blue/Violet noise state  
-	blueState float32
+	blueState   float32
+	violetState float32
 	
 	// Random source
 	rand *rand.Rand
@@ -105,6 +106,7 @@ func (n *NoiseGenerator) GenerateAdd(buffer []float32, gain float32) {
 func (n *NoiseGenerator) Reset() {
 	n.brownState = 0
 	n.blueState = 0
+	n.violetState = 0
 	n.pinkIndex = 0
 	n.pinkRunningSum = 0
 	for i := range n.pinkRows {
@@ -192,8 +194,8 @@ func (n *NoiseGenerator) generateBlue() float32 {
 func (n *NoiseGenerator) generateViolet() float32 {
 	// Violet noise has even more high frequency content
 	blue := n.generateBlue()
-	output := blue - n.blueState
-	n.blueState = blue
+	output := blue - n.violetState
+	n.violetState = blue
 	
 	// Scale to maintain amplitude
 	return output * 0.25
-- 
2.43.0


From f41f39b9966458038bca836e75dc8356b28998ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 033/135] fix: pink noise uses all its rows and has no constant
 offset

---
 pkg/dsp/utility/noise.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index 84d1326..284c103 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -51,10 +51,7 @@ func NewNoiseGenerator(noiseType NoiseType) *NoiseGenerator {
 		pinkScalar: 1.0 / 20.0, // Normalization for pink noise
 	}
 	
-	// Initialize pink noise rows
-	for i := range gen.pinkRows {
-		gen.pinkRows[i] = gen.randomFloat()
-	}
+	gen.resetPink()
 	
 	return gen
 }
@@ -107,10 +104,16 @@ func (n *NoiseGenerator) Reset() {
 	n.brownState = 0
 	n.blueState = 0
 	n.violetState = 0
+	n.resetPink()
+}
+
+// resetPink draws new pink noise rows and their running sum.
+func (n *NoiseGenerator) resetPink() {
 	n.pinkIndex = 0
 	n.pinkRunningSum = 0
 	for i := range n.pinkRows {
 		n.pinkRows[i] = n.randomFloat()
+		n.pinkRunningSum += n.pinkRows[i]
 	}
 }
 
@@ -128,7 +131,7 @@ func (n *NoiseGenerator) generateWhite() float32 {
 func (n *NoiseGenerator) generatePink() float32 {
 	// Determine how many rows to update
 	n.pinkIndex++
-	if n.pinkIndex > 15 {
+	if n.pinkIndex >= 1<<len(n.pinkRows) {
 		n.pinkIndex = 0
 	}
 	
-- 
2.43.0


From 46799531eac1ac7525d5343ce29828446d4c0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 034/135] fix: hard right panning never gives a negative left
 gain

---
 pkg/dsp/pan/pan.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/dsp/pan/pan.go b/pkg/dsp/pan/pan.go
index e4c86eb..8234383 100644
--- a/pkg/dsp/pan/pan.go
+++ b/pkg/dsp/pan/pan.go
@@ -110,6 +110,11 @@ func constantPowerPan(pan float32) (left, right float32) {
 	angle := (pan + 1.0) * math.Pi / 4.0
 	left = float32(math.Cos(float64(angle)))
 	right = float32(math.Sin(float64(angle)))
+	
+	// Rounding must not turn a silent side into a negative gain
+	if left < 0 && pan <= 1 {
+		left = 0
+	}
 	return
 }
 
-- 
2.43.0


From 538ad18fac6d4a0fc7a8126ad9df02af50715107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 035/135] fix: random LFOs share no state

---
 pkg/dsp/modulation/lfo.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/dsp/modulation/lfo.go b/pkg/dsp/modulation/lfo.go
index c1845a1..ba54c9a 100644
--- a/pkg/dsp/modulation/lfo.go
+++ b/pkg/dsp/modulation/lfo.go
@@ -3,8 +3,12 @@ package modulation
 
 import (
 	"math"
+	"sync/atomic"
 )
 
+// lfoSeed gives each LFO a different random sequence
+var lfoSeed uint32
+
 // Waveform represents the LFO waveform shape
 type Waveform int
 
@@ -43,6 +47,7 @@ type LFO struct {
 	currentRandom float64
 	randomCounter int
 	randomPeriod  int
+	randState     uint32
 }
 
 // NewLFO creates a new LFO
@@ -54,6 +59,7 @@ func NewLFO(sampleRate float64) *LFO {
 		depth:      1.0,
 		offset:     0.0,
 		phase:      0.0,
+		randState:  atomic.AddUint32(&lfoSeed, 0x9E3779B9),
 	}
 
 	lfo.updatePhaseIncrement()
@@ -72,7 +78,7 @@ func (l *LFO) SetWaveform(waveform Waveform) {
 	if waveform == WaveformRandom {
 		l.updateRandomPeriod()
 		// Generate initial random value
-		l.currentRandom = 2.0*randFloat() - 1.0
+		l.currentRandom = 2.0*l.randFloat() - 1.0
 		l.randomCounter = 0
 	}
 }
@@ -148,7 +154,7 @@ func (l *LFO) generateWaveform() float64 {
 		if l.randomCounter >= l.randomPeriod {
 			l.randomCounter = 0
 			// Generate new random value between -1 and 1
-			l.currentRandom = 2.0*randFloat() - 1.0
+			l.currentRandom = 2.0*l.randFloat() - 1.0
 		}
 		l.randomCounter++
 		return l.currentRandom
@@ -196,10 +202,9 @@ func (l *LFO) Reset() {
 }
 
 // Simple random number generator (can be replaced with better RNG)
-var randState uint32 = 1
-
-func randFloat() float64 {
+// Every LFO owns its state, so that instances can run on different threads
+func (l *LFO) randFloat() float64 {
 	// Simple linear congruential generator
-	randState = randState*1664525 + 1013904223
-	return float64(randState) / float64(1<<32)
+	l.randState = l.randState*1664525 + 1013904223
+	return float64(l.randState) / float64(1<<32)
 }
-- 
2.43.0


From b839d15fac31fcd1097c6541845b7cf85015ad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 036/135] fix: soft clipping treats negative samples like
 positive ones

Below the negative threshold the sign of the curve was applied twice, so
large negative samples folded back towards zero instead of approaching -1.
---
 pkg/dsp/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/buffer.go b/pkg/dsp/buffer.go
index b46bd6e..6039b72 100644
--- a/pkg/dsp/buffer.go
+++ b/pkg/dsp/buffer.go
@@ -106,7 +106,7 @@ func SoftClip(buffer []float32, threshold float32) {
 		if sample > threshold {
 			buffer[i] = threshold + (1.0-threshold)*float32(math.Tanh(float64(sample-threshold)))
 		} else if sample < -threshold {
-			buffer[i] = -threshold + (-1.0+threshold)*float32(math.Tanh(float64(sample+threshold)))
+			buffer[i] = -threshold + (1.0-threshold)*float32(math.Tanh(float64(sample+threshold)))
 		}
 	}
 }
-- 
2.43.0


From f8856476b182795f8da6a56ba10ca82db2e8fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 037/135] fix: the compressor knee never boosts and a hard knee
 has no width

In the lower half of a soft knee the reduction came out negative, so the
compressor amplified. A hard knee left the whole knee width uncompressed and
then jumped.
---
 pkg/dsp/dynamics/compressor.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/dsp/dynamics/compressor.go b/pkg/dsp/dynamics/compressor.go
index 8597208..acbde52 100644
--- a/pkg/dsp/dynamics/compressor.go
+++ b/pkg/dsp/dynamics/compressor.go
@@ -121,27 +121,33 @@ func (c *Compressor) GetGainReduction() float64 {
 
 // computeGain calculates the gain reduction for a given input level
 func (c *Compressor) computeGain(inputDB float64) float64 {
+	// A hard knee has no width
+	kneeWidth := c.kneeWidth
+	if c.kneeType == KneeHard {
+		kneeWidth = 0
+	}
+
 	// Below threshold - knee: no compression
-	if inputDB < c.threshold-c.kneeWidth/2 {
+	if inputDB < c.threshold-kneeWidth/2 {
 		return 0.0
 	}
 
 	// Above threshold + knee: full compression
-	if inputDB > c.threshold+c.kneeWidth/2 {
+	if inputDB > c.threshold+kneeWidth/2 {
 		// Gain reduction formula: reduction = (input - threshold) * (1 - 1/ratio)
 		return (inputDB - c.threshold) * (1.0 - 1.0/c.ratio)
 	}
 
 	// In knee region: interpolate
-	if c.kneeType == KneeSoft && c.kneeWidth > 0 {
+	if kneeWidth > 0 {
 		// Calculate position in knee (0 to 1)
-		kneePos := (inputDB - (c.threshold - c.kneeWidth/2)) / c.kneeWidth
+		kneePos := (inputDB - (c.threshold - kneeWidth/2)) / kneeWidth
 
 		// Quadratic interpolation for smooth transition
 		// At kneePos=0: no compression
 		// At kneePos=1: full compression at this level
 		compressionRatio := 1.0 - 1.0/c.ratio
-		overshoot := inputDB - c.threshold
+		overshoot := math.Max(0.0, inputDB-c.threshold)
 
 		// Smooth transition using squared interpolation
 		kneeGain := kneePos * kneePos * overshoot * compressionRatio
-- 
2.43.0


From e65b29833dda86a59bbb5e5df9666224f2188140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 038/135] fix: the expander knee never boosts and respects the
 range

In the upper half of the knee the gain came out positive, so the expander
amplified, and inside the knee the range limit was ignored.
---
 pkg/dsp/dynamics/expander.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/dynamics/expander.go b/pkg/dsp/dynamics/expander.go
index 119d0f6..79548d3 100644
--- a/pkg/dsp/dynamics/expander.go
+++ b/pkg/dsp/dynamics/expander.go
@@ -134,11 +134,11 @@ func (e *Expander) computeGain(inputDB float64) float64 {
 		// 0 = top of knee (threshold + knee/2), 1 = bottom of knee
 		kneePos := ((e.threshold + e.knee/2) - inputDB) / e.knee
 
-		// Calculate full expansion at this level
-		fullGain := (inputDB - e.threshold) * (e.ratio - 1.0)
+		// Calculate full expansion at this level; nothing above threshold
+		fullGain := math.Min(0.0, inputDB-e.threshold) * (e.ratio - 1.0)
 
-		// Quadratic interpolation
-		return kneePos * kneePos * fullGain
+		// Quadratic interpolation, limited to range
+		return math.Max(kneePos*kneePos*fullGain, e.range_)
 	}
 
 	return 0.0
-- 
2.43.0


From 3d3ab917f7914766f6486aeafcbc3442f4de9da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 039/135] fix: the limiter never exceeds its ceiling

The gain followed the detector envelope only, which lags behind attacks and
decays before a looked-ahead peak comes out, so peaks passed above the
ceiling of the brick-wall limiter.
---
 pkg/dsp/dynamics/limiter.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/dynamics/limiter.go b/pkg/dsp/dynamics/limiter.go
index e93ed4a..0e4653d 100644
--- a/pkg/dsp/dynamics/limiter.go
+++ b/pkg/dsp/dynamics/limiter.go
@@ -116,6 +116,15 @@ func (l *Limiter) estimateTruePeak(current float32) float32 {
 	return peak
 }
 
+// enforceCeiling raises the gain reduction where the envelope has not caught up
+// with the level about to be output, so that it never exceeds the ceiling.
+func (l *Limiter) enforceCeiling(gainReductionDB, level float64) float64 {
+	if level <= 0 {
+		return gainReductionDB
+	}
+	return math.Max(gainReductionDB, 20.0*math.Log10(level)-l.threshold)
+}
+
 // Process processes a single sample
 func (l *Limiter) Process(input float32) float32 {
 	// Detection signal (with true peak if enabled)
@@ -157,10 +166,10 @@ func (l *Limiter) Process(input float32) float32 {
 	if inputDB > l.threshold {
 		gainReductionDB = inputDB - l.threshold
 	}
-	l.gainReduction = gainReductionDB
+	l.gainReduction = l.enforceCeiling(gainReductionDB, math.Abs(float64(processSignal)))
 
 	// Apply gain reduction
-	gain := float32(math.Pow(10.0, -gainReductionDB/20.0))
+	gain := float32(math.Pow(10.0, -l.gainReduction/20.0))
 
 	return processSignal * gain
 }
@@ -211,10 +220,11 @@ func (l *Limiter) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 		if inputDB > l.threshold {
 			gainReductionDB = inputDB - l.threshold
 		}
-		l.gainReduction = gainReductionDB
+		l.gainReduction = l.enforceCeiling(gainReductionDB,
+			math.Max(math.Abs(float64(processL)), math.Abs(float64(processR))))
 
 		// Apply same gain to both channels
-		gain := float32(math.Pow(10.0, -gainReductionDB/20.0))
+		gain := float32(math.Pow(10.0, -l.gainReduction/20.0))
 		outputL[i] = processL * gain
 		outputR[i] = processR * gain
 	}
-- 
2.43.0


From bb14092bfd767f4df387bd8b3a57e5c98c648231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 040/135] fix: a gate range set while closing takes effect

The gate closed to the range in force when the release began and stayed
there.
---
 pkg/dsp/dynamics/gate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dsp/dynamics/gate.go b/pkg/dsp/dynamics/gate.go
index 314d691..0a3d589 100644
--- a/pkg/dsp/dynamics/gate.go
+++ b/pkg/dsp/dynamics/gate.go
@@ -122,6 +122,9 @@ func (g *Gate) SetRange(dB float64) {
 		g.currentGain = math.Pow(10.0, g.range_/20.0)
 		g.targetGain = g.currentGain
 		g.gainReduction = g.range_
+	} else if g.state == gateStateRelease {
+		// Close to the new range
+		g.targetGain = math.Pow(10.0, g.range_/20.0)
 	}
 }
 
-- 
2.43.0


From 4b8f8cccbd2a6e0c800493168824c00068d6387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 041/135] fix: foldback distortion terminates for every input

Folding one reflection at a time takes forever once the signal is so large
that subtracting the threshold is lost to rounding, and for a threshold of
zero.
---
 pkg/dsp/distortion/bitcrusher.go | 20 +++++++++++++-------
 pkg/dsp/distortion/waveshaper.go | 10 +---------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 140f56c..f9b42b8 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -216,14 +216,20 @@ func QuantizeToSteps(x float64, steps int) float64 {
 
 func FoldbackDistortion(x float64, threshold float64) float64 {
 	// Similar to waveshaper foldback but specific to bit-crushing context
-	for x > threshold || x < -threshold {
-		if x > threshold {
-			x = 2*threshold - x
-		} else if x < -threshold {
-			x = -2*threshold - x
-		}
+	if threshold <= 0 {
+		return 0.0
 	}
-	return x
+	if x >= -threshold && x <= threshold {
+		return x
+	}
+
+	// Folding repeats with a period of four thresholds
+	period := 4 * threshold
+	u := math.Mod(x+threshold, period)
+	if u < 0 {
+		u += period
+	}
+	return threshold - math.Abs(u-2*threshold)
 }
 
 func GateEffect(x, threshold float64) float64 {
diff --git a/pkg/dsp/distortion/waveshaper.go b/pkg/dsp/distortion/waveshaper.go
index 836515b..c9cfe38 100644
--- a/pkg/dsp/distortion/waveshaper.go
+++ b/pkg/dsp/distortion/waveshaper.go
@@ -114,15 +114,7 @@ func (w *Waveshaper) saturate(x float64) float64 {
 
 func (w *Waveshaper) foldback(x float64) float64 {
 	// Foldback distortion - wraps signal back when it exceeds threshold
-	threshold := 1.0
-	for x > threshold || x < -threshold {
-		if x > threshold {
-			x = 2*threshold - x
-		} else if x < -threshold {
-			x = -2*threshold - x
-		}
-	}
-	return x
+	return FoldbackDistortion(x, 1.0)
 }
 
 func (w *Waveshaper) asymmetric(x float64) float64 {
-- 
2.43.0


From fc889f05adcfd1ddda25e9f7a75dbe0b7c3e2cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 042/135] fix: the exponential curve reaches full scale without
 a jump

It rose to 0.95 at full scale and jumped to 1 just above.
---
 pkg/dsp/distortion/waveshaper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/distortion/waveshaper.go b/pkg/dsp/distortion/waveshaper.go
index c9cfe38..1d0bc73 100644
--- a/pkg/dsp/distortion/waveshaper.go
+++ b/pkg/dsp/distortion/waveshaper.go
@@ -143,7 +143,7 @@ func (w *Waveshaper) exponential(x float64) float64 {
 	if absX > 1.0 {
 		return sign
 	}
-	return sign * (1.0 - math.Exp(-3.0*absX))
+	return sign * (1.0 - math.Exp(-3.0*absX)) / (1.0 - math.Exp(-3.0))
 }
 
 // Utility functions for different curve shapes
-- 
2.43.0


From 10d1cae3d0d7ad405c27e14d2356262897ae8aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 043/135] fix: the bitcrusher holds samples per channel

Both channels of a stereo signal shared one sample-and-hold, so one channel
came out of the other.
---
 pkg/dsp/distortion/bitcrusher.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index f9b42b8..37966e4 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -25,8 +25,8 @@ type Bitcrusher struct {
 	originalSampleRate float64
 
 	// Sample rate reduction state
-	sampleHoldCounter float64
-	lastSample        float64
+	sampleHoldCounter [2]float64 // Stereo
+	lastSample        [2]float64
 
 	// Anti-aliasing filter state (simple one-pole)
 	filterState [2]float64 // Stereo
@@ -84,7 +84,7 @@ func (b *Bitcrusher) processChannel(input float64, channel int) float64 {
 	}
 
 	// Sample rate reduction
-	processed = b.applySampleRateReduction(processed)
+	processed = b.applySampleRateReduction(processed, channel)
 
 	// Bit depth reduction
 	processed = b.applyBitReduction(processed)
@@ -129,25 +129,25 @@ func (b *Bitcrusher) applyBitReduction(x float64) float64 {
 	return math.Max(-1.0, math.Min(1.0, quantized))
 }
 
-func (b *Bitcrusher) applySampleRateReduction(x float64) float64 {
+func (b *Bitcrusher) applySampleRateReduction(x float64, channel int) float64 {
 	if b.sampleRateReduce <= 1.0 {
 		return x
 	}
 
 	// Check if we should update the held sample
-	if b.sampleHoldCounter == 0.0 {
-		b.lastSample = x
+	if b.sampleHoldCounter[channel] == 0.0 {
+		b.lastSample[channel] = x
 	}
 
 	// Increment counter
-	b.sampleHoldCounter += 1.0
+	b.sampleHoldCounter[channel] += 1.0
 
 	// Reset counter when we reach the reduction factor
-	if b.sampleHoldCounter >= b.sampleRateReduce {
-		b.sampleHoldCounter = 0.0
+	if b.sampleHoldCounter[channel] >= b.sampleRateReduce {
+		b.sampleHoldCounter[channel] = 0.0
 	}
 
-	return b.lastSample
+	return b.lastSample[channel]
 }
 
 func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
@@ -183,8 +183,8 @@ func (b *Bitcrusher) generateDither() float64 {
 }
 
 func (b *Bitcrusher) Reset() {
-	b.sampleHoldCounter = 0.0
-	b.lastSample = 0.0
+	b.sampleHoldCounter = [2]float64{}
+	b.lastSample = [2]float64{}
 	b.filterState[0] = 0.0
 	b.filterState[1] = 0.0
 	b.ditherState = 0.0
-- 
2.43.0


From 1cbf197ce9ebe41df3a1bd17ef7d7e823fd9ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 044/135] fix: the bitcrusher anti-alias filter is stable at
 every rate

For reductions below about 1.8 the coefficient left the stable range and the
filter state grew without bound.
---
 pkg/dsp/distortion/bitcrusher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 37966e4..1da2a29 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -158,7 +158,7 @@ func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
 
 	// Calculate filter coefficient
 	omega := 2.0 * math.Pi * cutoffFreq / b.originalSampleRate
-	alpha := math.Sin(omega) / (math.Sin(omega) + math.Cos(omega))
+	alpha := 1.0 - math.Exp(-omega)
 
 	// Apply filter
 	b.filterState[channel] = b.filterState[channel] + alpha*(x-b.filterState[channel])
-- 
2.43.0


From 25f67749222e45c98af0d4126a0631e2a43e037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 045/135] fix: bitcrusher dither is a small random value per
 instance

Random bits were reinterpreted as a floating-point number, giving any
magnitude and sometimes NaN, and all instances shared one unsynchronized
generator.
---
 pkg/dsp/distortion/bitcrusher.go | 34 +++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 1da2a29..334f71a 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -12,6 +12,9 @@ const (
 	DitherTriangular
 )
 
+// ditherSeed is the initial state of the dither generator
+const ditherSeed = 88172645463325252
+
 type Bitcrusher struct {
 	// User parameters
 	bitDepth         float64
@@ -32,7 +35,7 @@ type Bitcrusher struct {
 	filterState [2]float64 // Stereo
 
 	// Dithering state
-	ditherState float64
+	ditherState uint64
 }
 
 func NewBitcrusher(sampleRate float64) *Bitcrusher {
@@ -44,6 +47,7 @@ func NewBitcrusher(sampleRate float64) *Bitcrusher {
 		mix:                1.0,
 		output:             1.0,
 		originalSampleRate: sampleRate,
+		ditherState:        ditherSeed,
 	}
 }
 
@@ -166,16 +170,20 @@ func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
 }
 
 func (b *Bitcrusher) generateDither() float64 {
+	// Size of one quantization step
+	step := 2.0 / math.Pow(2.0, b.bitDepth)
+
 	switch b.dither {
 	case DitherWhite:
-		// White noise dither
-		return (math.Float64frombits(randomBits()) - 0.5) * 2.0 / math.Pow(2.0, b.bitDepth)
+		// White noise dither, up to one step either way
+		return (b.random() - 0.5) * 2.0 * step
 
 	case DitherTriangular:
-		// Triangular dither (sum of two uniform random values)
-		r1 := math.Float64frombits(randomBits()) - 0.5
-		r2 := math.Float64frombits(randomBits()) - 0.5
-		return (r1 + r2) / math.Pow(2.0, b.bitDepth)
+		// Triangular dither (sum of two uniform random values), up to one
+		// step either way
+		r1 := b.random() - 0.5
+		r2 := b.random() - 0.5
+		return (r1 + r2) * step
 
 	default:
 		return 0.0
@@ -187,16 +195,14 @@ func (b *Bitcrusher) Reset() {
 	b.lastSample = [2]float64{}
 	b.filterState[0] = 0.0
 	b.filterState[1] = 0.0
-	b.ditherState = 0.0
+	b.ditherState = ditherSeed
 }
 
-// Simple random number generator for dithering
-var randomState uint64 = 1
-
-func randomBits() uint64 {
+// random returns a uniform random value in [0, 1) for dithering
+func (b *Bitcrusher) random() float64 {
 	// Simple linear congruential generator
-	randomState = randomState*6364136223846793005 + 1442695040888963407
-	return randomState
+	b.ditherState = b.ditherState*6364136223846793005 + 1442695040888963407
+	return float64(b.ditherState>>11) / (1 << 53)
 }
 
 // Utility functions for specific bit-crushing effects
-- 
2.43.0


From 7c42922ebec23f770f13603c0cf6d3d6cc20336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 046/135] fix: tape saturation keeps its channels apart

Both channels of a stereo signal went through one compressor envelope and
one flutter delay line, so each channel contained samples of the other.
---
 pkg/dsp/distortion/tape.go | 71 ++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 33 deletions(-)

diff --git a/pkg/dsp/distortion/tape.go b/pkg/dsp/distortion/tape.go
index 53056fb..3f0cb60 100644
--- a/pkg/dsp/distortion/tape.go
+++ b/pkg/dsp/distortion/tape.go
@@ -22,16 +22,16 @@ type TapeSaturation struct {
 	deEmphasisState  [2]float64
 
 	// Flutter LFO
-	flutterPhase float64
-	flutterRate  float64
+	flutterPhase [2]float64 // Stereo state
+	flutterRate  [2]float64
 
 	// Delay buffer for flutter effect
-	delayBuffer     []float64
+	delayBuffer     [2][]float64 // Stereo state
 	delayBufferSize int
-	delayWritePos   int
+	delayWritePos   [2]int
 
 	// Compression state
-	envelope float64
+	envelope [2]float64 // Stereo state
 
 	// Noise generator for tape hiss
 	noiseLevel float64
@@ -40,6 +40,8 @@ type TapeSaturation struct {
 func NewTapeSaturation(sampleRate float64) *TapeSaturation {
 	bufferSize := int(sampleRate * 0.01) // 10ms max delay for flutter
 
+	rate := 0.3 + rand.Float64()*0.2 // 0.3-0.5 Hz
+
 	return &TapeSaturation{
 		saturation:      0.5,
 		compression:     0.5,
@@ -48,9 +50,9 @@ func NewTapeSaturation(sampleRate float64) *TapeSaturation {
 		mix:             1.0,
 		output:          1.0,
 		sampleRate:      sampleRate,
-		delayBuffer:     make([]float64, bufferSize),
+		delayBuffer:     [2][]float64{make([]float64, bufferSize), make([]float64, bufferSize)},
 		delayBufferSize: bufferSize,
-		flutterRate:     0.3 + rand.Float64()*0.2, // 0.3-0.5 Hz
+		flutterRate:     [2]float64{rate, rate},
 		noiseLevel:      0.0001,
 	}
 }
@@ -88,13 +90,13 @@ func (t *TapeSaturation) processChannel(input float64, channel int) float64 {
 	emphasized := t.preEmphasis(input, channel)
 
 	// Apply tape compression
-	compressed := t.tapeCompress(emphasized)
+	compressed := t.tapeCompress(emphasized, channel)
 
 	// Apply tape saturation
 	saturated := t.tapeSaturate(compressed)
 
 	// Apply flutter (pitch modulation)
-	fluttered := t.applyFlutter(saturated)
+	fluttered := t.applyFlutter(saturated, channel)
 
 	// Add subtle tape noise
 	withNoise := fluttered + (rand.Float64()*2.0-1.0)*t.noiseLevel*t.saturation
@@ -138,7 +140,7 @@ func (t *TapeSaturation) tapeSaturate(x float64) float64 {
 	return saturated*0.8 + third*0.2*t.saturation
 }
 
-func (t *TapeSaturation) tapeCompress(x float64) float64 {
+func (t *TapeSaturation) tapeCompress(x float64, channel int) float64 {
 	// Tape-style compression (program-dependent)
 
 	// Update envelope follower
@@ -146,21 +148,21 @@ func (t *TapeSaturation) tapeCompress(x float64) float64 {
 	attack := 0.01
 	release := 0.1
 
-	if absX > t.envelope {
-		t.envelope += (absX - t.envelope) * attack
+	if absX > t.envelope[channel] {
+		t.envelope[channel] += (absX - t.envelope[channel]) * attack
 	} else {
-		t.envelope += (absX - t.envelope) * release
+		t.envelope[channel] += (absX - t.envelope[channel]) * release
 	}
 
 	// Calculate compression
 	threshold := 0.5
 	ratio := 2.0 + t.compression*3.0 // 2:1 to 5:1
 
-	if t.envelope > threshold {
+	if t.envelope[channel] > threshold {
 		// Calculate gain reduction
-		excess := t.envelope - threshold
+		excess := t.envelope[channel] - threshold
 		compressedExcess := excess / ratio
-		gainReduction := (threshold + compressedExcess) / t.envelope
+		gainReduction := (threshold + compressedExcess) / t.envelope[channel]
 
 		// Apply compression
 		return x * gainReduction
@@ -169,28 +171,28 @@ func (t *TapeSaturation) tapeCompress(x float64) float64 {
 	return x
 }
 
-func (t *TapeSaturation) applyFlutter(x float64) float64 {
+func (t *TapeSaturation) applyFlutter(x float64, channel int) float64 {
 	if t.flutter < 0.01 {
 		return x
 	}
 
 	// Write to delay buffer
-	t.delayBuffer[t.delayWritePos] = x
-	t.delayWritePos = (t.delayWritePos + 1) % t.delayBufferSize
+	t.delayBuffer[channel][t.delayWritePos[channel]] = x
+	t.delayWritePos[channel] = (t.delayWritePos[channel] + 1) % t.delayBufferSize
 
 	// Calculate flutter modulation
-	t.flutterPhase += 2.0 * math.Pi * t.flutterRate / t.sampleRate
-	if t.flutterPhase > 2.0*math.Pi {
-		t.flutterPhase -= 2.0 * math.Pi
+	t.flutterPhase[channel] += 2.0 * math.Pi * t.flutterRate[channel] / t.sampleRate
+	if t.flutterPhase[channel] > 2.0*math.Pi {
+		t.flutterPhase[channel] -= 2.0 * math.Pi
 		// Occasionally change flutter rate slightly
 		if rand.Float64() < 0.1 {
-			t.flutterRate = 0.3 + rand.Float64()*0.2
+			t.flutterRate[channel] = 0.3 + rand.Float64()*0.2
 		}
 	}
 
 	// Flutter modulation depth in samples
 	modDepth := t.flutter * 3.0 // Max 3 samples
-	modulation := math.Sin(t.flutterPhase) * modDepth
+	modulation := math.Sin(t.flutterPhase[channel]) * modDepth
 
 	// Add some randomness for more realistic flutter
 	modulation += (rand.Float64()*2.0 - 1.0) * modDepth * 0.3
@@ -203,11 +205,11 @@ func (t *TapeSaturation) applyFlutter(x float64) float64 {
 	delayFrac := delaySamples - float64(delayInt)
 
 	// Read from delay buffer with interpolation
-	readPos1 := (t.delayWritePos - delayInt + t.delayBufferSize) % t.delayBufferSize
+	readPos1 := (t.delayWritePos[channel] - delayInt + t.delayBufferSize) % t.delayBufferSize
 	readPos2 := (readPos1 - 1 + t.delayBufferSize) % t.delayBufferSize
 
-	sample1 := t.delayBuffer[readPos1]
-	sample2 := t.delayBuffer[readPos2]
+	sample1 := t.delayBuffer[channel][readPos1]
+	sample2 := t.delayBuffer[channel][readPos2]
 
 	return sample1*(1.0-delayFrac) + sample2*delayFrac
 }
@@ -241,12 +243,15 @@ func (t *TapeSaturation) Reset() {
 	t.preEmphasisState[1] = 0.0
 	t.deEmphasisState[0] = 0.0
 	t.deEmphasisState[1] = 0.0
-	t.envelope = 0.0
-	t.flutterPhase = 0.0
-	t.delayWritePos = 0
 
-	// Clear delay buffer
-	for i := range t.delayBuffer {
-		t.delayBuffer[i] = 0.0
+	for channel := range t.delayBuffer {
+		t.envelope[channel] = 0.0
+		t.flutterPhase[channel] = 0.0
+		t.delayWritePos[channel] = 0
+
+		// Clear delay buffer
+		for i := range t.delayBuffer[channel] {
+			t.delayBuffer[channel][i] = 0.0
+		}
 	}
 }
-- 
2.43.0


From 03acb8327bf7cce5f43da87efd3b5f5137c08c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 047/135] fix: tape saturation never inverts or amplifies loud
 signals

The third-harmonic polynomial falls without bound beyond its peak, so a
full-scale signal at high saturation came out inverted and louder.
---
 pkg/dsp/distortion/tape.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/distortion/tape.go b/pkg/dsp/distortion/tape.go
index 3f0cb60..6b9630a 100644
--- a/pkg/dsp/distortion/tape.go
+++ b/pkg/dsp/distortion/tape.go
@@ -134,7 +134,10 @@ func (t *TapeSaturation) tapeSaturate(x float64) float64 {
 	saturated := math.Tanh(driven * 0.7)
 
 	// Add subtle 3rd harmonic
-	third := driven - 0.1*driven*driven*driven
+	// (the curve is held at its peaks, beyond which it would invert the signal)
+	limit := math.Sqrt(1.0 / 0.3)
+	x3 := math.Max(-limit, math.Min(limit, driven))
+	third := x3 - 0.1*x3*x3*x3
 
 	// Mix original and harmonics
 	return saturated*0.8 + third*0.2*t.saturation
-- 
2.43.0


From 8b0033d7e5cf8da641901b95547ae3252ae864c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 048/135] fix: tube saturation keeps its channels apart

Both channels of a stereo signal went through the same filter and hysteresis
state.
---
 pkg/dsp/distortion/tube.go | 54 ++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/pkg/dsp/distortion/tube.go b/pkg/dsp/distortion/tube.go
index 192fd7a..1bfd927 100644
--- a/pkg/dsp/distortion/tube.go
+++ b/pkg/dsp/distortion/tube.go
@@ -13,12 +13,12 @@ type TubeSaturation struct {
 	output     float64
 
 	// Internal state for hysteresis
-	prevInput  float64
-	prevOutput float64
+	prevInput  [2]float64 // Stereo state
+	prevOutput [2]float64
 
 	// Pre-emphasis/de-emphasis filters for warmth
-	preEmphasisState float64
-	deEmphasisState  float64
+	preEmphasisState [2]float64 // Stereo state
+	deEmphasisState  [2]float64
 }
 
 func NewTubeSaturation() *TubeSaturation {
@@ -57,20 +57,24 @@ func (t *TubeSaturation) SetOutput(output float64) {
 }
 
 func (t *TubeSaturation) Process(input float64) float64 {
+	return t.processChannel(input, 0)
+}
+
+func (t *TubeSaturation) processChannel(input float64, channel int) float64 {
 	// Pre-emphasis for warmth (boost highs before saturation)
-	emphasized := t.preEmphasis(input)
+	emphasized := t.preEmphasis(input, channel)
 
 	// Apply tube bias
 	biased := emphasized + t.bias*0.1
 
 	// Apply hysteresis (magnetic-like behavior)
-	withHysteresis := t.applyHysteresis(biased)
+	withHysteresis := t.applyHysteresis(biased, channel)
 
 	// Tube saturation with harmonic generation
 	saturated := t.tubeSaturate(withHysteresis)
 
 	// De-emphasis (reduce highs after saturation for warmth)
-	deEmphasized := t.deEmphasis(saturated)
+	deEmphasized := t.deEmphasis(saturated, channel)
 
 	// Mix with dry signal
 	mixed := deEmphasized*t.mix + input*(1.0-t.mix)
@@ -86,8 +90,8 @@ func (t *TubeSaturation) ProcessBlock(input, output []float64) {
 
 func (t *TubeSaturation) ProcessStereo(inputL, inputR, outputL, outputR []float64) {
 	for i := range inputL {
-		outputL[i] = t.Process(inputL[i])
-		outputR[i] = t.Process(inputR[i])
+		outputL[i] = t.processChannel(inputL[i], 0)
+		outputR[i] = t.processChannel(inputR[i], 1)
 	}
 }
 
@@ -148,47 +152,47 @@ func (t *TubeSaturation) tubeCompressionCurve(x float64) float64 {
 	return math.Copysign(compressed, x)
 }
 
-func (t *TubeSaturation) applyHysteresis(x float64) float64 {
+func (t *TubeSaturation) applyHysteresis(x float64, channel int) float64 {
 	// Simple hysteresis model
-	diff := x - t.prevInput
+	diff := x - t.prevInput[channel]
 
 	// Hysteresis effect based on input change direction
 	if diff > 0 {
 		// Rising input
-		t.prevOutput = t.prevOutput + (x-t.prevOutput)*(1.0-t.hysteresis*0.3)
+		t.prevOutput[channel] = t.prevOutput[channel] + (x-t.prevOutput[channel])*(1.0-t.hysteresis*0.3)
 	} else {
 		// Falling input
-		t.prevOutput = t.prevOutput + (x-t.prevOutput)*(1.0-t.hysteresis*0.5)
+		t.prevOutput[channel] = t.prevOutput[channel] + (x-t.prevOutput[channel])*(1.0-t.hysteresis*0.5)
 	}
 
-	t.prevInput = x
-	return t.prevOutput
+	t.prevInput[channel] = x
+	return t.prevOutput[channel]
 }
 
-func (t *TubeSaturation) preEmphasis(x float64) float64 {
+func (t *TubeSaturation) preEmphasis(x float64, channel int) float64 {
 	// Simple high-frequency boost before saturation
 	// First-order high-pass filter
 	cutoff := 0.1 + t.warmth*0.4 // Higher warmth = higher cutoff = more pre-emphasis
 
-	output := x - t.preEmphasisState
-	t.preEmphasisState += output * cutoff
+	output := x - t.preEmphasisState[channel]
+	t.preEmphasisState[channel] += output * cutoff
 
 	// Mix between filtered and original based on warmth
 	return x + output*t.warmth*0.5
 }
 
-func (t *TubeSaturation) deEmphasis(x float64) float64 {
+func (t *TubeSaturation) deEmphasis(x float64, channel int) float64 {
 	// Simple high-frequency cut after saturation
 	// First-order low-pass filter
 	cutoff := 0.9 - t.warmth*0.6 // Higher warmth = lower cutoff = more de-emphasis
 
-	t.deEmphasisState += (x - t.deEmphasisState) * cutoff
-	return t.deEmphasisState
+	t.deEmphasisState[channel] += (x - t.deEmphasisState[channel]) * cutoff
+	return t.deEmphasisState[channel]
 }
 
 func (t *TubeSaturation) Reset() {
-	t.prevInput = 0.0
-	t.prevOutput = 0.0
-	t.preEmphasisState = 0.0
-	t.deEmphasisState = 0.0
+	t.prevInput = [2]float64{}
+	t.prevOutput = [2]float64{}
+	t.preEmphasisState = [2]float64{}
+	t.deEmphasisState = [2]float64{}
 }
-- 
2.43.0


From b8f79fcf617c9471d7296107bf134b69aa1ee84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 049/135] fix: the chorus reaches its full modulation depth

The delay lines were sized for the depth at the time of SetDelay or SetVoices,
so a larger depth set afterwards was cut off.
---
 pkg/dsp/modulation/chorus.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/modulation/chorus.go b/pkg/dsp/modulation/chorus.go
index f6d7b64..2dc500b 100644
--- a/pkg/dsp/modulation/chorus.go
+++ b/pkg/dsp/modulation/chorus.go
@@ -4,6 +4,9 @@ import (
 	"math"
 )
 
+// maxModulationDepthMs is the largest modulation depth of a delay line in ms
+const maxModulationDepthMs = 10.0
+
 // Chorus implements a multi-voice chorus effect
 type Chorus struct {
 	sampleRate float64
@@ -61,7 +64,7 @@ func (c *Chorus) SetRate(hz float64) {
 
 // SetDepth sets the modulation depth in milliseconds
 func (c *Chorus) SetDepth(ms float64) {
-	c.depth = math.Max(0.0, math.Min(10.0, ms))
+	c.depth = math.Max(0.0, math.Min(maxModulationDepthMs, ms))
 }
 
 // SetDelay sets the base delay time in milliseconds
@@ -106,12 +109,13 @@ func (c *Chorus) SetVoices(voices int) {
 
 // updateDelayLines updates the delay line buffers
 func (c *Chorus) updateDelayLines() {
-	// Calculate maximum delay needed (base + modulation depth)
-	maxDelayMs := c.delay + c.depth
+	// Calculate maximum delay needed (base + largest modulation depth, so that
+	// the depth can change without losing the signal in the delay lines)
+	maxDelayMs := c.delay + maxModulationDepthMs
 	c.maxDelaySamples = int(maxDelayMs * c.sampleRate / 1000.0)
 
 	// Add some headroom
-	c.maxDelaySamples = int(float64(c.maxDelaySamples) * 1.2)
+	c.maxDelaySamples = int(float64(c.maxDelaySamples)*1.2) + 2
 
 	// Create delay lines for each voice
 	c.delayLinesL = make([][]float32, c.voices)
-- 
2.43.0


From bf552f636c3b4522dce16871ce7f380649cbab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 050/135] fix: the flanger reaches its full modulation depth

The delay line was sized for the depth at the time of SetDelay, so a larger
depth set afterwards was cut off, and a small delay without depth left a delay
line without samples.
---
 pkg/dsp/modulation/flanger.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/modulation/flanger.go b/pkg/dsp/modulation/flanger.go
index 94040ad..d4ae9af 100644
--- a/pkg/dsp/modulation/flanger.go
+++ b/pkg/dsp/modulation/flanger.go
@@ -63,7 +63,7 @@ func (f *Flanger) SetRate(hz float64) {
 
 // SetDepth sets the modulation depth in milliseconds
 func (f *Flanger) SetDepth(ms float64) {
-	f.depth = math.Max(0.0, math.Min(10.0, ms))
+	f.depth = math.Max(0.0, math.Min(maxModulationDepthMs, ms))
 }
 
 // SetDelay sets the center delay time in milliseconds
@@ -94,12 +94,12 @@ func (f *Flanger) SetManualMode(enabled bool) {
 
 // updateDelayLine updates the delay line buffer size
 func (f *Flanger) updateDelayLine() {
-	// Calculate maximum delay needed
-	maxDelayMs := f.delay + f.depth
+	// Calculate maximum delay needed for the largest modulation depth
+	maxDelayMs := f.delay + maxModulationDepthMs
 	f.maxDelaySamples = int(maxDelayMs * f.sampleRate / 1000.0)
 
 	// Add some headroom
-	f.maxDelaySamples = int(float64(f.maxDelaySamples) * 1.2)
+	f.maxDelaySamples = int(float64(f.maxDelaySamples)*1.2) + 2
 
 	// Create new delay line
 	f.delayLine = make([]float32, f.maxDelaySamples)
-- 
2.43.0


From 898b1c98f265c3a33c2a9d6cbcc22534e82af556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 051/135] fix: resetting the chorus keeps its voices apart

Reset set all voices to the same LFO phase.
---
 pkg/dsp/modulation/chorus.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/modulation/chorus.go b/pkg/dsp/modulation/chorus.go
index 2dc500b..7e85664 100644
--- a/pkg/dsp/modulation/chorus.go
+++ b/pkg/dsp/modulation/chorus.go
@@ -239,9 +239,10 @@ func (c *Chorus) Reset() {
 		}
 	}
 
-	// Reset LFOs
-	for _, lfo := range c.lfos {
+	// Reset LFOs to their voice's phase
+	for i, lfo := range c.lfos {
 		lfo.Reset()
+		lfo.SetPhase(float64(i) / float64(c.voices))
 	}
 
 	c.delayIndex = 0
-- 
2.43.0


From 615777f5b2a76c80a4ff8bdf09358c419740e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 052/135] fix: the flanger mixes both channels alike

The wet signal of the right channel was scaled by the mix twice.
---
 pkg/dsp/modulation/flanger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/modulation/flanger.go b/pkg/dsp/modulation/flanger.go
index d4ae9af..3eafc84 100644
--- a/pkg/dsp/modulation/flanger.go
+++ b/pkg/dsp/modulation/flanger.go
@@ -179,7 +179,7 @@ func (f *Flanger) ProcessStereo(inputL, inputR float32) (outputL, outputR float3
 
 	// Create right channel with inverted wet signal
 	outputL = flangedL
-	outputR = inputR*(1-float32(f.mix)) - wetL*float32(f.mix)
+	outputR = inputR*(1-float32(f.mix)) - wetL
 
 	return outputL, outputR
 }
-- 
2.43.0


From 4521fc97e80307dabca80ab83bccadad99dc9639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 053/135] fix: phaser stages turn the phase at their own
 frequency

The sign of the all-pass coefficient mirrored the frequency to the top of the
spectrum.
---
 pkg/dsp/modulation/phaser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/modulation/phaser.go b/pkg/dsp/modulation/phaser.go
index a51780a..327a965 100644
--- a/pkg/dsp/modulation/phaser.go
+++ b/pkg/dsp/modulation/phaser.go
@@ -18,9 +18,9 @@ func NewAllPassFilter() *AllPassFilter {
 // SetFrequency sets the filter frequency
 func (f *AllPassFilter) SetFrequency(freq, sampleRate float64) {
 	// Calculate coefficient for all-pass filter
-	// Using bilinear transform: a1 = (1 - tan(pi*fc/fs)) / (1 + tan(pi*fc/fs))
+	// Using bilinear transform: a1 = (tan(pi*fc/fs) - 1) / (tan(pi*fc/fs) + 1)
 	tanFreq := math.Tan(math.Pi * freq / sampleRate)
-	f.a1 = (1.0 - tanFreq) / (1.0 + tanFreq)
+	f.a1 = (tanFreq - 1.0) / (tanFreq + 1.0)
 }
 
 // Process processes a sample through the all-pass filter
-- 
2.43.0


From c89b3c9a943cb7be5bef3115154efd84072cc879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 054/135] fix: phaser depth takes effect

SetDepth had no effect until the center frequency or the stages changed.
---
 pkg/dsp/modulation/phaser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dsp/modulation/phaser.go b/pkg/dsp/modulation/phaser.go
index 327a965..7a85266 100644
--- a/pkg/dsp/modulation/phaser.go
+++ b/pkg/dsp/modulation/phaser.go
@@ -104,6 +104,7 @@ func (p *Phaser) SetRate(hz float64) {
 // SetDepth sets the modulation depth (0-1)
 func (p *Phaser) SetDepth(depth float64) {
 	p.depth = math.Max(0.0, math.Min(1.0, depth))
+	p.updateFrequencyRange()
 }
 
 // SetCenterFrequency sets the center frequency for modulation
-- 
2.43.0


From 8a9c1afb060965698000e72e5161bc2188be6538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:38 +0000
Subject: [PATCH 055/135] fix: changing the phaser stages keeps the frequency
 range

SetStages replaced the range set with SetFrequencyRange.
---
 pkg/dsp/modulation/phaser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/modulation/phaser.go b/pkg/dsp/modulation/phaser.go
index 7a85266..43f4813 100644
--- a/pkg/dsp/modulation/phaser.go
+++ b/pkg/dsp/modulation/phaser.go
@@ -91,6 +91,7 @@ func NewPhaser(sampleRate float64) *Phaser {
 
 	// Initialize filters
 	p.updateStages()
+	p.updateFrequencyRange()
 
 	return p
 }
@@ -151,7 +152,6 @@ func (p *Phaser) updateStages() {
 	for i := 0; i < p.stages; i++ {
 		p.filters[i] = NewAllPassFilter()
 	}
-	p.updateFrequencyRange()
 }
 
 // updateFrequencyRange updates the frequency range based on center and depth
-- 
2.43.0


From 6e34d89dbf7e076910f4c5cf7ab89a42d5a3dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:38 +0000
Subject: [PATCH 056/135] fix: the ring modulator returns to its frequency
 without its LFO

Disabling the LFO left the carrier at the last modulated frequency.
---
 pkg/dsp/modulation/ringmod.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dsp/modulation/ringmod.go b/pkg/dsp/modulation/ringmod.go
index 493a34e..f472658 100644
--- a/pkg/dsp/modulation/ringmod.go
+++ b/pkg/dsp/modulation/ringmod.go
@@ -65,6 +65,7 @@ func (rm *RingModulator) SetWaveform(waveform Waveform) {
 // EnableLFO enables/disables LFO modulation of carrier frequency
 func (rm *RingModulator) EnableLFO(enabled bool) {
 	rm.lfoEnabled = enabled
+	rm.updatePhaseIncrement()
 }
 
 // SetLFORate sets the LFO modulation rate in Hz
-- 
2.43.0


From 56eaf1c8e7d717adcdbd52b02283deefe843333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:38 +0000
Subject: [PATCH 057/135] fix: the tremolo reports the gain it applies without
 smoothing

GetCurrentGain was only updated while smoothing was on.
---
 pkg/dsp/modulation/tremolo.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/dsp/modulation/tremolo.go b/pkg/dsp/modulation/tremolo.go
index 4834625..110b9fb 100644
--- a/pkg/dsp/modulation/tremolo.go
+++ b/pkg/dsp/modulation/tremolo.go
@@ -157,6 +157,9 @@ func (t *Tremolo) Process(input float32) float32 {
 	if t.smoothing {
 		t.smoothedGainL = gain + (t.smoothedGainL-gain)*t.smoothCoeff
 		gain = t.smoothedGainL
+	} else {
+		t.smoothedGainL = gain
+		t.smoothedGainR = gain
 	}
 
 	// Apply amplitude modulation
@@ -192,6 +195,9 @@ func (t *Tremolo) ProcessStereo(inputL, inputR float32) (outputL, outputR float3
 		t.smoothedGainR = gainR + (t.smoothedGainR-gainR)*t.smoothCoeff
 		gainL = t.smoothedGainL
 		gainR = t.smoothedGainR
+	} else {
+		t.smoothedGainL = gainL
+		t.smoothedGainR = gainR
 	}
 
 	// Apply amplitude modulation
-- 
2.43.0


From 365ff6a59f36e9da1f26a12e270ad25f7d849b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 058/135] fix: the tremolo stereo phase is relative to the left
 channel

Setting the stereo mode or phase while running restarted only the right LFO.
---
 pkg/dsp/modulation/tremolo.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/modulation/tremolo.go b/pkg/dsp/modulation/tremolo.go
index 110b9fb..6170839 100644
--- a/pkg/dsp/modulation/tremolo.go
+++ b/pkg/dsp/modulation/tremolo.go
@@ -115,11 +115,11 @@ func (t *Tremolo) updateLFOs() {
 	t.lfoR.SetFrequency(t.rate)
 	t.lfoR.SetWaveform(t.waveform)
 
-	// Set phase offset for stereo
+	// Set phase offset for stereo, relative to the left LFO which may be running
 	if t.stereo {
-		t.lfoR.SetPhase(t.phase)
+		t.lfoR.SetPhase(t.lfoL.GetPhase() + t.phase)
 	} else {
-		t.lfoR.SetPhase(0.0) // Same phase as left
+		t.lfoR.SetPhase(t.lfoL.GetPhase()) // Same phase as left
 	}
 }
 
-- 
2.43.0


From ea9a182a0f553a0d096886dc20dd037303b760ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 059/135] fix: more damping makes the FDN tail darker, not
 brighter

The damping coefficient was inverted; without damping the filter let nothing
through.
---
 pkg/dsp/reverb/fdn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 28950dc..680e02e 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -62,7 +62,7 @@ func NewDampingFilter() *DampingFilter {
 func (d *DampingFilter) SetDamping(damping float64) {
 	// Convert damping to lowpass coefficient
 	// Higher damping = lower cutoff frequency
-	d.coeff = 1.0 - math.Max(0.0, math.Min(1.0, damping))
+	d.coeff = math.Max(0.0, math.Min(1.0, damping))
 }
 
 // Process applies the damping filter
-- 
2.43.0


From a1695b465a3ee87959fe0133d8e4bf503b2b9b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 060/135] fix: FDN decay and diffusion are applied once

Both were built into the feedback matrix and applied again while processing,
and every parameter change replaced the matrix of an uncommon size by another
random one.
---
 pkg/dsp/reverb/fdn.go | 30 ++----------------------------
 1 file changed, 2 insertions(+), 28 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 680e02e..a0b4c46 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -243,33 +243,6 @@ func (f *FDN) updateInternalParameters() {
 	for i := 0; i < f.numDelays; i++ {
 		f.dampingFilters[i].SetDamping(f.damping)
 	}
-
-	// Scale feedback matrix by decay amount
-	// Higher decay = more feedback = longer reverb tail
-	decayScale := 0.4 + f.decay*0.58 // Range from 0.4 to 0.98
-
-	// Apply diffusion by mixing with identity matrix
-	// Low diffusion = more parallel delays, high diffusion = more mixing
-	diffusionMix := f.diffusion
-	
-	// Create base Hadamard matrix
-	f.createHadamardMatrix()
-	
-	// Apply decay and diffusion scaling to feedback matrix
-	for i := 0; i < f.numDelays; i++ {
-		for j := 0; j < f.numDelays; j++ {
-			// Store original Hadamard value
-			hadamardValue := f.feedbackMatrix[i][j]
-			
-			if i == j {
-				// Mix between identity (no diffusion) and Hadamard (full diffusion)
-				f.feedbackMatrix[i][j] = decayScale * ((1.0-diffusionMix) + diffusionMix*hadamardValue)
-			} else {
-				// Off-diagonal elements scaled by diffusion
-				f.feedbackMatrix[i][j] = decayScale * diffusionMix * hadamardValue
-			}
-		}
-	}
 }
 
 // Process processes a mono input sample
@@ -312,7 +285,8 @@ func (f *FDN) Process(input float32) float32 {
 
 	// Apply feedback matrix to create new inputs
 	feedbackInputs := make([]float32, f.numDelays)
-	decayScale := float32(0.4 + f.decay*0.58)
+	// Higher decay = more feedback = longer reverb tail
+	decayScale := float32(0.4 + f.decay*0.58) // Range from 0.4 to 0.98
 
 	for i := 0; i < f.numDelays; i++ {
 		sum := float32(0)
-- 
2.43.0


From 6ddb92ea42b03ae70e3725d20cf56925a60709a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 061/135] fix: the FDN with eight delays is stable

Its feedback matrix was not orthogonal: all rows were equal up to sign, which
gave a gain of 2.8 around the loop.
---
 pkg/dsp/reverb/fdn.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index a0b4c46..6353857 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -2,6 +2,7 @@ package reverb
 
 import (
 	"math"
+	"math/bits"
 	"math/rand"
 )
 
@@ -156,12 +157,12 @@ func (f *FDN) createHadamardMatrix() {
 			}
 		}
 	} else if n == 8 {
-		// 8x8 Hadamard matrix (simplified)
+		// 8x8 Hadamard matrix
 		scale := 1.0 / math.Sqrt(8.0)
 		for i := 0; i < 8; i++ {
 			for j := 0; j < 8; j++ {
-				// Create a pattern that provides good diffusion
-				if (i+j)%2 == 0 {
+				// The sign is the parity of the common bits
+				if bits.OnesCount(uint(i&j))%2 == 0 {
 					f.feedbackMatrix[i][j] = scale
 				} else {
 					f.feedbackMatrix[i][j] = -scale
-- 
2.43.0


From 0d13c5fa070cfd075d1d1c51fd785fce0c08b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 062/135] fix: FDN stereo processing does not run off its delay
 lines

It panicked every time a delay line wrapped around.
---
 pkg/dsp/reverb/fdn.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 6353857..f594618 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -350,15 +350,11 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 	// Add some stereo width by phase inverting some of the signal
 	if f.numDelays >= 2 {
 		// Get two delay outputs for stereo decorrelation
-		delay1 := f.delayLines[0][f.writeIndices[0]-1]
-		if f.writeIndices[0]-1 < 0 {
-			delay1 = f.delayLines[0][len(f.delayLines[0])-1]
-		}
+		n1 := len(f.delayLines[0])
+		delay1 := f.delayLines[0][(f.writeIndices[0]+n1-1)%n1]
 
-		delay2 := f.delayLines[1][f.writeIndices[1]-1]
-		if f.writeIndices[1]-1 < 0 {
-			delay2 = f.delayLines[1][len(f.delayLines[1])-1]
-		}
+		n2 := len(f.delayLines[1])
+		delay2 := f.delayLines[1][(f.writeIndices[1]+n2-1)%n2]
 
 		// Add decorrelated signals to create width
 		spread := float32(0.3)
-- 
2.43.0


From 387d28c185f179cb05ed331c674d32e39fe80d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:49 +0000
Subject: [PATCH 063/135] fix: FDN stereo processing mixes dry and wet once

The wet and dry levels were applied to the mono sum and then again, so the dry
sum of both channels leaked into the wet signal.
---
 pkg/dsp/reverb/fdn.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index f594618..7ec0c27 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -248,6 +248,14 @@ func (f *FDN) updateInternalParameters() {
 
 // Process processes a mono input sample
 func (f *FDN) Process(input float32) float32 {
+	output := f.processWet(input)
+
+	// Apply wet/dry mix
+	return input*float32(f.dryLevel) + output*float32(f.wetLevel)
+}
+
+// processWet processes a mono input sample and returns the wet signal alone
+func (f *FDN) processWet(input float32) float32 {
 	// Read outputs from all delay lines
 	delayOutputs := make([]float32, f.numDelays)
 
@@ -327,8 +335,7 @@ func (f *FDN) Process(input float32) float32 {
 		output += delayOutputs[i] * float32(f.outputGains[i])
 	}
 
-	// Apply wet/dry mix
-	return input*float32(f.dryLevel) + output*float32(f.wetLevel)
+	return output
 }
 
 // ProcessStereo processes stereo input
@@ -337,7 +344,7 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 	mono := (inputL + inputR) * 0.5
 
 	// Process through FDN
-	processed := f.Process(mono)
+	processed := f.processWet(mono)
 
 	// Create stereo output by using different combinations of delay outputs
 	// This is a simplified approach - a full implementation would have
@@ -358,8 +365,8 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 
 		// Add decorrelated signals to create width
 		spread := float32(0.3)
-		outputL += delay1 * spread * float32(f.wetLevel)
-		outputR += delay2 * spread * float32(f.wetLevel)
+		outputL += delay1 * spread
+		outputR += delay2 * spread
 	}
 
 	// Apply final wet/dry mix
-- 
2.43.0


From 13a20bf048db54b376d1f90accdbe3ca9c54313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:49 +0000
Subject: [PATCH 064/135] fix: FDN processing does not allocate

It allocated two slices per sample in the audio path.
---
 pkg/dsp/reverb/fdn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 7ec0c27..0eca5e2 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -18,6 +18,10 @@ type FDN struct {
 	delayTimes   []int
 	writeIndices []int
 
+	// Scratch space for processing one sample
+	delayOutputs   []float32
+	feedbackInputs []float32
+
 	// Feedback matrix (Hadamard matrix for good diffusion)
 	feedbackMatrix [][]float64
 
@@ -85,6 +89,8 @@ func NewFDN(numDelays int, sampleRate float64) *FDN {
 		delayLines:     make([][]float32, numDelays),
 		delayTimes:     make([]int, numDelays),
 		writeIndices:   make([]int, numDelays),
+		delayOutputs:   make([]float32, numDelays),
+		feedbackInputs: make([]float32, numDelays),
 		inputGains:     make([]float64, numDelays),
 		outputGains:    make([]float64, numDelays),
 		dampingFilters: make([]*DampingFilter, numDelays),
@@ -257,7 +263,7 @@ func (f *FDN) Process(input float32) float32 {
 // processWet processes a mono input sample and returns the wet signal alone
 func (f *FDN) processWet(input float32) float32 {
 	// Read outputs from all delay lines
-	delayOutputs := make([]float32, f.numDelays)
+	delayOutputs := f.delayOutputs
 
 	for i := 0; i < f.numDelays; i++ {
 		// Calculate modulated read position
@@ -293,7 +299,7 @@ func (f *FDN) processWet(input float32) float32 {
 	}
 
 	// Apply feedback matrix to create new inputs
-	feedbackInputs := make([]float32, f.numDelays)
+	feedbackInputs := f.feedbackInputs
 	// Higher decay = more feedback = longer reverb tail
 	decayScale := float32(0.4 + f.decay*0.58) // Range from 0.4 to 0.98
 
-- 
2.43.0


From c46e570878d70af66bd0473391c20ba968205652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:49 +0000
Subject: [PATCH 065/135] fix: the frozen Freeverb sustains

Freeze mode decayed like a large room and kept taking input.
---
 pkg/dsp/reverb/freeverb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/dsp/reverb/freeverb.go b/pkg/dsp/reverb/freeverb.go
index 101e727..a491a18 100644
--- a/pkg/dsp/reverb/freeverb.go
+++ b/pkg/dsp/reverb/freeverb.go
@@ -164,6 +164,12 @@ func (f *Freeverb) update() {
 
 	// Calculate feedback and damping values
 	feedback := roomSize*scaleRoom + offsetRoom
+	f.gain = fixedGain
+	if f.mode >= 0.5 {
+		// Keep what is in the reverb and let nothing in
+		feedback = freezeRoom
+		f.gain = muted
+	}
 	f.damp1 = damping * scaleDamping
 	f.damp2 = 1.0 - f.damp1
 
-- 
2.43.0


From 0dd483610fa69617203eb9681d1cdc2751cbf283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 066/135] fix: Freeverb damping is scaled as intended

The scaled damping was computed and not used. At full damping the comb filters
no longer followed their input, so that whatever they held stayed forever.
---
 pkg/dsp/reverb/freeverb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/reverb/freeverb.go b/pkg/dsp/reverb/freeverb.go
index a491a18..cd77317 100644
--- a/pkg/dsp/reverb/freeverb.go
+++ b/pkg/dsp/reverb/freeverb.go
@@ -177,8 +177,8 @@ func (f *Freeverb) update() {
 	for i := 0; i < numCombs; i++ {
 		f.combL[i].SetFeedback(feedback)
 		f.combR[i].SetFeedback(feedback)
-		f.combL[i].SetDamping(damping)
-		f.combR[i].SetDamping(damping)
+		f.combL[i].SetDamping(f.damp1)
+		f.combR[i].SetDamping(f.damp1)
 	}
 }
 
-- 
2.43.0


From 3bf214f9c29dae61103faba16bab85df4e4865fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:55 +0000
Subject: [PATCH 067/135] fix: resetting a comb delay clears its damping filter

---
 pkg/dsp/delay/delay.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/dsp/delay/delay.go b/pkg/dsp/delay/delay.go
index a5adc7a..684c562 100644
--- a/pkg/dsp/delay/delay.go
+++ b/pkg/dsp/delay/delay.go
@@ -164,6 +164,12 @@ func NewComb(maxDelaySeconds, sampleRate float64) *CombDelay {
 	}
 }
 
+// Reset clears the delay buffer and the damping filter
+func (c *CombDelay) Reset() {
+	c.Line.Reset()
+	c.dampVal = 0
+}
+
 // SetFeedback sets the comb feedback
 func (c *CombDelay) SetFeedback(feedback float32) {
 	c.feedback = feedback
-- 
2.43.0


From dde002bec71a48f20438b3b6b8eda7cf6e39c1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 068/135] fix: cross-correlation uses both signals and their
 whole spectra

---
 pkg/dsp/analysis/fft.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pkg/dsp/analysis/fft.go b/pkg/dsp/analysis/fft.go
index 0667a32..aca9620 100644
--- a/pkg/dsp/analysis/fft.go
+++ b/pkg/dsp/analysis/fft.go
@@ -313,23 +313,22 @@ func CrossCorrelation(a, b []float64) []float64 {
 	fft := NewFFT(size, RectangularWindow)
 	
 	// Zero-pad inputs
-	paddedA := make([]float64, size)
-	paddedB := make([]float64, size)
-	copy(paddedA, a)
-	copy(paddedB, b)
+	paddedA := make([]complex128, size)
+	paddedB := make([]complex128, size)
+	for i := 0; i < n; i++ {
+		paddedA[i] = complex(a[i], 0)
+		paddedB[i] = complex(b[i], 0)
+	}
 	
 	// Forward FFT
-	magA, phaseA := fft.Forward(paddedA)
-	magB, phaseB := fft.Forward(paddedB)
+	spectrumA := fft.ForwardComplex(paddedA)
+	spectrumB := fft.ForwardComplex(paddedB)
 	
-	// Multiply A with conjugate of B
+	// Multiply B with conjugate of A: the result peaks at the lag of b behind a
 	realResult := make([]float64, size)
 	imagResult := make([]float64, size)
 	for i := 0; i < size; i++ {
-		// Convert to complex, multiply, then back to real/imag
-		aComplex := cmplx.Rect(magA[i%len(magA)], phaseA[i%len(phaseA)])
-		bComplex := cmplx.Rect(magB[i%len(magB)], -phaseB[i%len(phaseB)]) // conjugate
-		result := aComplex * bComplex
+		result := cmplx.Conj(spectrumA[i]) * spectrumB[i]
 		realResult[i] = real(result)
 		imagResult[i] = imag(result)
 	}
-- 
2.43.0


From 5775303eefeb2b10350826f1ca2e5608edb5fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 069/135] fix: inverse FFT of a short spectrum ignores earlier
 transforms

---
 pkg/dsp/analysis/fft.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/dsp/analysis/fft.go b/pkg/dsp/analysis/fft.go
index aca9620..c9fe1ad 100644
--- a/pkg/dsp/analysis/fft.go
+++ b/pkg/dsp/analysis/fft.go
@@ -165,6 +165,8 @@ func (f *FFT) ForwardComplex(input []complex128) []complex128 {
 // Inverse performs an inverse FFT
 func (f *FFT) Inverse(real, imag []float64) []float64 {
 	// Copy input
+	clear(f.real)
+	clear(f.imag)
 	copy(f.real, real)
 	copy(f.imag, imag)
 	
-- 
2.43.0


From 7390a5dbd0f92be29f4fcda76d73f10b9ed42081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 070/135] fix: FFT magnitudes below the dB floor read the floor

---
 pkg/dsp/analysis/fft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/fft.go b/pkg/dsp/analysis/fft.go
index c9fe1ad..daf054c 100644
--- a/pkg/dsp/analysis/fft.go
+++ b/pkg/dsp/analysis/fft.go
@@ -244,7 +244,7 @@ func (f *FFT) GetMagnitudeDB() []float64 {
 	db := make([]float64, len(f.magnitude))
 	for i, mag := range f.magnitude {
 		if mag > 0 {
-			db[i] = 20.0 * math.Log10(mag)
+			db[i] = math.Max(20.0*math.Log10(mag), -120.0)
 		} else {
 			db[i] = -120.0 // Floor at -120 dB
 		}
-- 
2.43.0


From 7f71911fd8a80717812fb957d6361df12fe5fb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 071/135] fix: spectrum magnitudes below the dB floor read the
 floor

---
 pkg/dsp/analysis/spectrum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/analysis/spectrum.go b/pkg/dsp/analysis/spectrum.go
index 27032e4..e6d6376 100644
--- a/pkg/dsp/analysis/spectrum.go
+++ b/pkg/dsp/analysis/spectrum.go
@@ -204,7 +204,7 @@ func (sa *SpectrumAnalyzer) GetSpectrumDB() []float64 {
 	db := make([]float64, len(sa.outputBuffer))
 	for i, mag := range sa.outputBuffer {
 		if mag > 0 {
-			db[i] = 20.0 * math.Log10(mag)
+			db[i] = math.Max(20.0*math.Log10(mag), -120.0)
 		} else {
 			db[i] = -120.0 // Floor at -120 dB
 		}
@@ -234,7 +234,7 @@ func (sa *SpectrumAnalyzer) GetSpectrumDBInRange() []float64 {
 	
 	for i, mag := range spectrum {
 		if mag > 0 {
-			db[i] = 20.0 * math.Log10(mag)
+			db[i] = math.Max(20.0*math.Log10(mag), -120.0)
 		} else {
 			db[i] = -120.0
 		}
-- 
2.43.0


From 808a3365a1ee62c7c6f1481cfb6095bc7c8d3a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 072/135] fix: the spectrum range can include the Nyquist bin

---
 pkg/dsp/analysis/spectrum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/analysis/spectrum.go b/pkg/dsp/analysis/spectrum.go
index e6d6376..a4a7c8f 100644
--- a/pkg/dsp/analysis/spectrum.go
+++ b/pkg/dsp/analysis/spectrum.go
@@ -108,8 +108,8 @@ func (sa *SpectrumAnalyzer) updateFrequencyRange() {
 	sa.minBin = int(sa.minFreq / binWidth)
 	sa.maxBin = int(sa.maxFreq/binWidth) + 1
 	
-	if sa.maxBin > sa.fftSize/2 {
-		sa.maxBin = sa.fftSize / 2
+	if sa.maxBin > sa.fftSize/2+1 {
+		sa.maxBin = sa.fftSize/2 + 1
 	}
 }
 
-- 
2.43.0


From b92f98aeac4019c4014d02b99319b613c9d6c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 073/135] fix: peak hold runs from the last crest at the held
 level

---
 pkg/dsp/analysis/meters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index b8ccad2..8d3cbc3 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -64,7 +64,7 @@ func (pm *PeakMeter) Process(samples []float64) {
 	}
 	
 	// Update hold
-	if blockPeak > pm.hold {
+	if blockPeak >= pm.hold {
 		pm.hold = blockPeak
 		pm.holdCount = int(pm.holdTime * pm.sampleRate)
 	} else {
-- 
2.43.0


From 40042d7a79829774bdb2119a63954e1ccdf876bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 074/135] fix: the RMS meter survives a drop to silence

---
 pkg/dsp/analysis/meters.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 8d3cbc3..96cf93d 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -156,6 +156,18 @@ func (rm *RMSMeter) Process(samples []float64) {
 		if rm.count < rm.windowSize {
 			rm.count++
 		}
+		
+		// Recompute the sum once per window so rounding errors don't accumulate
+		if rm.writePos == 0 {
+			rm.sum = 0
+			for _, v := range rm.buffer {
+				rm.sum += v * v
+			}
+		}
+	}
+	
+	if rm.sum < 0 {
+		rm.sum = 0
 	}
 }
 
-- 
2.43.0


From 25685f0f00b3d0ca23490193374823987d46ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 075/135] fix: K-weighting rolls off low frequencies

---
 pkg/dsp/analysis/meters.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 96cf93d..f33ee22 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -330,9 +330,9 @@ func (lm *LUFSMeter) createKWeightingHighShelf() *BiquadFilter {
 	a0 := 1.0 + K/Q + K*K
 	
 	return &BiquadFilter{
-		b0: (1.0 + math.Sqrt(2.0)*K + K*K) / a0,
-		b1: 2.0 * (K*K - 1.0) / a0,
-		b2: (1.0 - math.Sqrt(2.0)*K + K*K) / a0,
+		b0: 1.0,
+		b1: -2.0,
+		b2: 1.0,
 		a1: 2.0 * (K*K - 1.0) / a0,
 		a2: (1.0 - K/Q + K*K) / a0,
 	}
-- 
2.43.0


From 8bea19eaecc961b96882d5daf0f54a26961a7477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 076/135] fix: 5.1 loudness weights the surrounds and leaves
 out the LFE

---
 pkg/dsp/analysis/meters.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index f33ee22..df56af9 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -509,10 +509,14 @@ func (lm *LUFSMeter) calculateBlockLoudness(block *LUFSBlock) float64 {
 			// For stereo: both channels have weight 1.0
 			// For 5.1: L/R = 1.0, C = 1.0, Ls/Rs = 1.41, LFE = 0
 			weight := 1.0
-			if lm.channels > 2 && ch >= 3 && ch <= 4 {
+			if lm.channels > 5 {
+				if ch == 3 {
+					weight = 0.0 // LFE
+				} else if ch == 4 || ch == 5 {
+					weight = 1.41 // Surround channels
+				}
+			} else if lm.channels > 2 && ch >= 3 && ch <= 4 {
 				weight = 1.41 // Surround channels
-			} else if lm.channels > 5 && ch == 3 {
-				weight = 0.0 // LFE
 			}
 			
 			blockPower += weight * power
-- 
2.43.0


From aa13d2a377f65979afb237831520bff007d50810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:47 +0000
Subject: [PATCH 077/135] fix: short-term loudness covers three seconds

---
 pkg/dsp/analysis/meters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index df56af9..0eaae68 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -281,7 +281,7 @@ func NewLUFSMeter(sampleRate float64, channels int) *LUFSMeter {
 	lm.shortTerm = &LUFSBlock{
 		blockSize:    shortTermSize,
 		overlap:      shortTermOverlap,
-		blocks:       make([][]float64, 30), // Store 30 blocks for 3s
+		blocks:       make([][]float64, 1),
 		buffer:       make([]float64, shortTermSize*channels),
 		gatingThresh: -math.Inf(1), // No gating for short-term
 	}
-- 
2.43.0


From 9d23656ff249a15aa496c54b3f7ea4ab7b0cdda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 078/135] fix: integrated loudness measures 400 ms blocks
 whatever the buffer size

---
 pkg/dsp/analysis/meters.go | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 0eaae68..99fbbab 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -373,29 +373,6 @@ func (lm *LUFSMeter) Process(samples []float64) {
 	// Update momentary and short-term blocks
 	lm.updateBlock(lm.momentary, filtered)
 	lm.updateBlock(lm.shortTerm, filtered)
-	
-	// Update integrated measurement (every 100ms of new data)
-	samplesFor100ms := int(0.1 * lm.sampleRate * float64(lm.channels))
-	if len(filtered) >= samplesFor100ms {
-		// Calculate mean square for this block
-		meanSquare := 0.0
-		for ch := 0; ch < lm.channels; ch++ {
-			chPower := 0.0
-			count := 0
-			for i := ch; i < len(filtered); i += lm.channels {
-				chPower += filtered[i] * filtered[i]
-				count++
-			}
-			if count > 0 {
-				meanSquare += chPower / float64(count)
-			}
-		}
-		
-		if meanSquare > 0 {
-			loudness := -0.691 + 10.0*math.Log10(meanSquare)
-			lm.integrated.blocks = append(lm.integrated.blocks, loudness)
-		}
-	}
 }
 
 // updateBlock updates a loudness measurement block
@@ -424,6 +401,13 @@ func (lm *LUFSMeter) updateBlock(block *LUFSBlock, filtered []float64) {
 			copy(block.blocks[block.writePos], lm.channelPower)
 			block.writePos = (block.writePos + 1) % len(block.blocks)
 			
+			// The 400ms momentary blocks are the gating blocks of the integrated measurement
+			if block == lm.momentary {
+				if loudness := lm.calculateBlockLoudness(block); !math.IsInf(loudness, -1) {
+					lm.integrated.blocks = append(lm.integrated.blocks, loudness)
+				}
+			}
+			
 			// Shift buffer by (blockSize - overlap)
 			shift := block.blockSize - block.overlap
 			copy(block.buffer, block.buffer[shift*lm.channels:])
-- 
2.43.0


From 6ef926b62345da1fefff2e18fdfd059dcca51913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 079/135] fix: the relative loudness gate ignores blocks under
 the absolute gate

---
 pkg/dsp/analysis/meters.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 99fbbab..705d16b 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -293,7 +293,7 @@ func NewLUFSMeter(sampleRate float64, channels int) *LUFSMeter {
 	lm.integrated = &LUFSIntegrated{
 		blocks:       make([]float64, 0, 1000), // Pre-allocate for efficiency
 		absoluteGate: -70.0,                    // LUFS
-		relativeGate: -10.0,                    // dB below ungated loudness
+		relativeGate: -10.0,                    // dB below absolute-gated loudness
 	}
 	
 	return lm
@@ -441,15 +441,8 @@ func (lm *LUFSMeter) GetIntegratedLUFS() float64 {
 		return -math.Inf(1)
 	}
 	
-	// First pass: calculate ungated loudness
-	sum := 0.0
-	for _, block := range lm.integrated.blocks {
-		sum += math.Pow(10.0, block/10.0)
-	}
-	ungatedLoudness := 10.0 * math.Log10(sum/float64(len(lm.integrated.blocks)))
-	
 	// Apply absolute gate (-70 LUFS)
-	sum = 0.0
+	sum := 0.0
 	count := 0
 	for _, block := range lm.integrated.blocks {
 		if block >= lm.integrated.absoluteGate {
@@ -462,8 +455,8 @@ func (lm *LUFSMeter) GetIntegratedLUFS() float64 {
 		return -math.Inf(1)
 	}
 	
-	// Apply relative gate (10 dB below ungated)
-	relativeThreshold := ungatedLoudness + lm.integrated.relativeGate
+	// Apply relative gate (10 dB below the absolute-gated loudness)
+	relativeThreshold := 10.0*math.Log10(sum/float64(count)) + lm.integrated.relativeGate
 	sum = 0.0
 	count = 0
 	for _, block := range lm.integrated.blocks {
-- 
2.43.0


From 7eb3a569a7b5214747f3ff352c7cbd35670ce417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 080/135] fix: a reset correlation meter holds the best case
 like a new one

---
 pkg/dsp/analysis/correlation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index 2755f56..bda229d 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -225,7 +225,7 @@ func (cm *CorrelationMeter) Reset() {
 	cm.writePos = 0
 	cm.count = 0
 	cm.correlation = 0
-	cm.peakHold = 0
+	cm.peakHold = 1.0
 	cm.peakHoldCount = 0
 }
 
-- 
2.43.0


From cd8f70a8d2d19e9cd39544be43c20d24553acf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 081/135] fix: correlation hold time is in seconds whatever the
 buffer size

---
 pkg/dsp/analysis/correlation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index bda229d..436fd6b 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -84,9 +84,9 @@ func (cm *CorrelationMeter) Process(samplesL, samplesR []float64) {
 		// Update peak hold (for most negative correlation)
 		if corr < cm.peakHold {
 			cm.peakHold = corr
-			cm.peakHoldCount = int(cm.peakHoldTime * cm.sampleRate / float64(cm.windowSize))
+			cm.peakHoldCount = int(cm.peakHoldTime * cm.sampleRate)
 		} else {
-			cm.peakHoldCount--
+			cm.peakHoldCount -= len(samplesL)
 			if cm.peakHoldCount <= 0 {
 				cm.peakHold = cm.correlation
 				cm.peakHoldCount = 0
-- 
2.43.0


From 7dbb74bbfc2fac7b0a980adb56e602098fb8755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 082/135] fix: balance in dB of a hard-panned signal is not
 centered

---
 pkg/dsp/analysis/correlation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index 436fd6b..89c4024 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -339,7 +339,7 @@ func (bm *BalanceMeter) GetBalanceDB() float64 {
 	bm.mu.Lock()
 	defer bm.mu.Unlock()
 	
-	if bm.powerL > 0 && bm.powerR > 0 {
+	if bm.powerL > 0 || bm.powerR > 0 {
 		return 10.0 * math.Log10(bm.powerR/bm.powerL)
 	}
 	return 0
-- 
2.43.0


From 9ef85a75380c4487b4669795cdaa2fea44a63aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 083/135] fix: phase scope width of a pure side signal is not
 mono

---
 pkg/dsp/analysis/phasescope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/phasescope.go b/pkg/dsp/analysis/phasescope.go
index 4bc9570..2b6f6aa 100644
--- a/pkg/dsp/analysis/phasescope.go
+++ b/pkg/dsp/analysis/phasescope.go
@@ -241,7 +241,7 @@ func (ps *PhaseScope) GetStatistics() PhaseScopeStats {
 	stats.MaxRadius = maxRadius
 	
 	// Width calculation (side to mid ratio)
-	if stats.AverageMid > 0 {
+	if stats.AverageMid > 0 || stats.AverageSide > 0 {
 		stats.Width = stats.AverageSide / stats.AverageMid
 	}
 	
-- 
2.43.0


From 9b2da2f25ad922c9f88cf81892fb9b68d6cc8af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 084/135] fix: factory and class texts longer than their field
 overflowed the host structure

---
 pkg/plugin/helpers.go | 24 +++++++++++++++++++++++-
 pkg/plugin/wrapper.go | 12 +++++++-----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/pkg/plugin/helpers.go b/pkg/plugin/helpers.go
index 142d277..5ff345f 100644
--- a/pkg/plugin/helpers.go
+++ b/pkg/plugin/helpers.go
@@ -8,13 +8,35 @@ package plugin
 //     return bus->Steinberg_Vst_AudioBusBuffers_channelBuffers32;
 // }
 import "C"
-import "unsafe"
+import (
+	"unicode/utf8"
+	"unsafe"
+)
 
 // getChannelBuffers32 extracts the 32-bit channel buffers from an audio bus
 func getChannelBuffers32(bus *C.struct_Steinberg_Vst_AudioBusBuffers) **C.float {
 	return C.getChannelBuffers32(bus)
 }
 
+// copyStringToChar8 copies a Go string to a fixed-size, null-terminated char8 field,
+// cutting it between characters when it does not fit
+func copyStringToChar8(src string, dst *C.char, size int) {
+	n := len(src)
+	if n > size-1 {
+		n = size - 1
+		for cut := n; cut > 0 && cut > n-utf8.UTFMax; cut-- {
+			if utf8.RuneStart(src[cut]) {
+				n = cut
+				break
+			}
+		}
+	}
+
+	field := unsafe.Slice((*byte)(unsafe.Pointer(dst)), size)
+	copy(field, src[:n])
+	field[n] = 0
+}
+
 // copyStringToTChar copies a Go string to a VST3 TChar (UTF16) buffer
 func copyStringToTChar(src string, dst *C.Steinberg_Vst_TChar, maxLen int) {
 	// Convert to runes for proper Unicode handling
diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index dc100d9..9d8fdb0 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -172,9 +172,10 @@ func (w *componentWrapper) notifyParamEndEdit(paramID uint32) {
 
 //export GoGetFactoryInfo
 func GoGetFactoryInfo(vendor, url, email *C.char, flags *C.int32_t) {
-	C.strcpy(vendor, C.CString(globalFactoryInfo.Vendor))
-	C.strcpy(url, C.CString(globalFactoryInfo.URL))
-	C.strcpy(email, C.CString(globalFactoryInfo.Email))
+	var info C.struct_Steinberg_PFactoryInfo
+	copyStringToChar8(globalFactoryInfo.Vendor, vendor, len(info.vendor))
+	copyStringToChar8(globalFactoryInfo.URL, url, len(info.url))
+	copyStringToChar8(globalFactoryInfo.Email, email, len(info.email))
 	*flags = C.Steinberg_PFactoryInfo_FactoryFlags_kUnicode
 }
 
@@ -202,8 +203,9 @@ func GoGetClassInfo(index C.int32_t, cid *C.char, cardinality *C.int32_t, catego
 	*cardinality = C.Steinberg_PClassInfo_ClassCardinality_kManyInstances
 
 	// Set category and name
-	C.strcpy(category, C.CString("Audio Module Class"))
-	C.strcpy(name, C.CString(info.Name))
+	var classInfo C.struct_Steinberg_PClassInfo
+	copyStringToChar8("Audio Module Class", category, len(classInfo.category))
+	copyStringToChar8(info.Name, name, len(classInfo.name))
 }
 
 //export GoCreateInstance
-- 
2.43.0


From 68ba52b88d4d0281757e170a9d37ca0d6d3f8af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 085/135] fix: getClassInfo of a negative index fails

---
 bridge/bridge.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index 6427f2f..93e4a6d 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -115,7 +115,7 @@ static Steinberg_int32 SMTG_STDMETHODCALLTYPE factory_countClasses(void* thisInt
 }
 
 static Steinberg_tresult SMTG_STDMETHODCALLTYPE factory_getClassInfo(void* thisInterface, Steinberg_int32 index, struct Steinberg_PClassInfo* info) {
-    if (index >= GoCountClasses()) {
+    if (index < 0 || index >= GoCountClasses()) {
         return ((Steinberg_tresult)1);
     }
     GoGetClassInfo(index, (char*)info->cid, &info->cardinality, info->category, info->name);
-- 
2.43.0


From 471d26b8f92ad39b924b7be1cabd7101525f1d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 086/135] fix: GetPluginFactory references the factory it
 returns and never a freed one

---
 bridge/bridge.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index 93e4a6d..440527f 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -44,7 +44,10 @@ static PluginFactory* globalFactory = NULL;
 __attribute__((visibility("default")))
 struct Steinberg_IPluginFactory* GetPluginFactory() {
     DBG_LOG("GetPluginFactory called");
-    if (!globalFactory) {
+    if (globalFactory) {
+        // Every call hands a reference of its own to the host
+        factory_addRef(globalFactory);
+    } else {
         globalFactory = (PluginFactory*)malloc(sizeof(PluginFactory));
         globalFactory->vtbl = &factoryVtbl;
         globalFactory->refCount = 1;
@@ -98,6 +101,9 @@ static Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_addRef(void* thisInterfac
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_release(void* thisInterface) {
     PluginFactory* factory = (PluginFactory*)thisInterface;
     if (--factory->refCount == 0) {
+        if (factory == globalFactory) {
+            globalFactory = NULL;
+        }
         free(factory);
         return 0;
     }
-- 
2.43.0


From 3ace5fc2bc0063eaf09ffd910991b9cbbf5e86fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 087/135] fix: createInstance returns the interface that was
 asked for

---
 bridge/bridge.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index 440527f..ae133f2 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -139,8 +139,12 @@ static Steinberg_tresult SMTG_STDMETHODCALLTYPE factory_createInstance(void* thi
     }
     
     DBG_LOG("factory_createInstance: Created instance at %p", instance);
-    *obj = instance;
-    return ((Steinberg_tresult)0);
+    // Hand out the interface that was asked for; the creation reference goes
+    // back, so an unknown interface also frees the instance
+    struct Steinberg_FUnknown* unknown = (struct Steinberg_FUnknown*)instance;
+    Steinberg_tresult result = unknown->lpVtbl->queryInterface(instance, iid, obj);
+    unknown->lpVtbl->release(instance);
+    return result;
 }
 
 // Parameter automation helper functions implementation
-- 
2.43.0


From c8872c32f6885de1741475e231ee3b0fe4fcd0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 088/135] fix: reference counts are atomic

---
 bridge/bridge.c    | 7 ++++---
 bridge/component.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index ae133f2..f7490f5 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -95,19 +95,20 @@ static Steinberg_tresult SMTG_STDMETHODCALLTYPE factory_queryInterface(void* thi
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_addRef(void* thisInterface) {
     PluginFactory* factory = (PluginFactory*)thisInterface;
-    return ++factory->refCount;
+    return (Steinberg_uint32)__atomic_add_fetch(&factory->refCount, 1, __ATOMIC_ACQ_REL);
 }
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_release(void* thisInterface) {
     PluginFactory* factory = (PluginFactory*)thisInterface;
-    if (--factory->refCount == 0) {
+    int refCount = __atomic_sub_fetch(&factory->refCount, 1, __ATOMIC_ACQ_REL);
+    if (refCount == 0) {
         if (factory == globalFactory) {
             globalFactory = NULL;
         }
         free(factory);
         return 0;
     }
-    return factory->refCount;
+    return (Steinberg_uint32)refCount;
 }
 
 // IPluginFactory implementation - these will call into Go
diff --git a/bridge/component.c b/bridge/component.c
index 88278e2..476216f 100644
--- a/bridge/component.c
+++ b/bridge/component.c
@@ -205,18 +205,19 @@ static Steinberg_tresult SMTG_STDMETHODCALLTYPE component_queryInterface(void* t
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE component_addRef(void* thisInterface) {
     Component* component = (Component*)thisInterface;
-    return ++component->refCount;
+    return (Steinberg_uint32)__atomic_add_fetch(&component->refCount, 1, __ATOMIC_ACQ_REL);
 }
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE component_release(void* thisInterface) {
     Component* component = (Component*)thisInterface;
-    if (--component->refCount == 0) {
+    int refCount = __atomic_sub_fetch(&component->refCount, 1, __ATOMIC_ACQ_REL);
+    if (refCount == 0) {
         // Release Go component
         GoReleaseComponent(component->goComponent);
         free(component);
         return 0;
     }
-    return component->refCount;
+    return (Steinberg_uint32)refCount;
 }
 
 // IPluginBase implementation
-- 
2.43.0


From 067c6c6aef86feed4c2808af6372c51d6038860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 089/135] fix: component ids are not converted to Go pointers

---
 pkg/plugin/wrapper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index 9d8fdb0..4f19f34 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -7,6 +7,11 @@ package plugin
 // #include <stdlib.h>
 // #include <string.h>
 //
+// // The handle of a Go component is a number, never a pointer into Go memory
+// static inline void* createComponentForID(uintptr_t id) {
+//     return createComponent((void*)id);
+// }
+//
 // // Helper functions to call IComponentHandler methods
 // static inline Steinberg_tresult componentHandler_beginEdit(struct Steinberg_Vst_IComponentHandler* handler, Steinberg_Vst_ParamID id) {
 //     if (handler && handler->lpVtbl && handler->lpVtbl->beginEdit) {
@@ -245,7 +250,7 @@ func GoCreateInstance(cid *C.char, iid *C.char) unsafe.Pointer {
 	id := registerComponent(wrapper)
 
 	// Create C component with ID instead of Go pointer
-	cComponent := C.createComponent(unsafe.Pointer(id))
+	cComponent := C.createComponentForID(C.uintptr_t(id))
 	if cComponent == nil {
 		unregisterComponent(id)
 		return nil
-- 
2.43.0


From 016a42e4c9b46eca202480c59879089a1c235bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 090/135] fix: any number of buses and channels is processed

---
 pkg/plugin/component.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index b634180..4847368 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -270,15 +270,16 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 
 	// Map input buffers
 	if processData.numInputs > 0 && processData.inputs != nil {
-		inputBuses := (*[1]C.struct_Steinberg_Vst_AudioBusBuffers)(unsafe.Pointer(processData.inputs))[:processData.numInputs:processData.numInputs]
-		for _, bus := range inputBuses {
-			channelBuffers32 := getChannelBuffers32(&bus)
+		inputBuses := unsafe.Slice(processData.inputs, int(processData.numInputs))
+		for i := range inputBuses {
+			bus := &inputBuses[i] // host memory: taking its address allocates nothing
+			channelBuffers32 := getChannelBuffers32(bus)
 			if bus.numChannels > 0 && channelBuffers32 != nil {
-				channels := (*[16]*float32)(unsafe.Pointer(channelBuffers32))[:bus.numChannels:bus.numChannels]
+				channels := unsafe.Slice((**float32)(unsafe.Pointer(channelBuffers32)), int(bus.numChannels))
 				for _, channel := range channels {
 					if channel != nil {
 						// Create slice from pointer without allocation
-						samples := (*[vst3.MaxArraySize]float32)(unsafe.Pointer(channel))[:numSamples:numSamples]
+						samples := unsafe.Slice(channel, numSamples)
 						c.processCtx.Input = append(c.processCtx.Input, samples)
 					}
 				}
@@ -288,15 +289,16 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 
 	// Map output buffers
 	if processData.numOutputs > 0 && processData.outputs != nil {
-		outputBuses := (*[1]C.struct_Steinberg_Vst_AudioBusBuffers)(unsafe.Pointer(processData.outputs))[:processData.numOutputs:processData.numOutputs]
-		for _, bus := range outputBuses {
-			channelBuffers32 := getChannelBuffers32(&bus)
+		outputBuses := unsafe.Slice(processData.outputs, int(processData.numOutputs))
+		for i := range outputBuses {
+			bus := &outputBuses[i] // host memory: taking its address allocates nothing
+			channelBuffers32 := getChannelBuffers32(bus)
 			if bus.numChannels > 0 && channelBuffers32 != nil {
-				channels := (*[16]*float32)(unsafe.Pointer(channelBuffers32))[:bus.numChannels:bus.numChannels]
+				channels := unsafe.Slice((**float32)(unsafe.Pointer(channelBuffers32)), int(bus.numChannels))
 				for _, channel := range channels {
 					if channel != nil {
 						// Create slice from pointer without allocation
-						samples := (*[vst3.MaxArraySize]float32)(unsafe.Pointer(channel))[:numSamples:numSamples]
+						samples := unsafe.Slice(channel, numSamples)
 						c.processCtx.Output = append(c.processCtx.Output, samples)
 					}
 				}
-- 
2.43.0


From 619cf7990d4790dc1207bbc92ac211a2bb243d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 091/135] fix: automated blocks process each sample once,
 quietly and without allocating

---
 pkg/plugin/component.go | 101 ++++++++++++++--------------------------
 1 file changed, 34 insertions(+), 67 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 4847368..328b26d 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -27,6 +27,12 @@ type componentImpl struct {
 	processing   bool
 	mu           sync.RWMutex
 	wrapper      *componentWrapper // Reference to wrapper for notifications
+
+	// Scratch storage of the processing thread, kept so that blocks do not allocate
+	subInput    [][]float32 // channels of the current sub-block
+	subOutput   [][]float32
+	pointOffset C.int32_t // automation point read from the host
+	pointValue  C.double
 }
 
 // newComponent creates a new component implementation
@@ -331,14 +337,11 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 
 				// Process all automation points for this parameter
 				for j := C.int32_t(0); j < pointCount; j++ {
-					var sampleOffset C.int32_t
-					var value C.double
-
 					// Get the automation point
-					result := C.getPoint(paramQueue, j, &sampleOffset, &value)
+					result := C.getPoint(paramQueue, j, &c.pointOffset, &c.pointValue)
 					if result == 0 { // kResultOk
 						// Add parameter change for sample-accurate processing
-						c.processCtx.AddParameterChange(uint32(paramID), float64(value), int(sampleOffset))
+						c.processCtx.AddParameterChange(uint32(paramID), float64(c.pointValue), int(c.pointOffset))
 					}
 				}
 			}
@@ -533,79 +536,43 @@ func (c *componentImpl) processSampleAccurate() {
 	origInput := c.processCtx.Input
 	origOutput := c.processCtx.Output
 
+	// Restore original buffers, even when the processor panics
+	defer func() {
+		c.processCtx.Input = origInput
+		c.processCtx.Output = origOutput
+	}()
+
 	// Process each chunk between parameter changes
 	for _, change := range changes {
-		if change.SampleOffset > lastOffset {
-			// Process chunk from lastOffset to change.SampleOffset
-			chunkSize := change.SampleOffset - lastOffset
-
-			// Temporarily update context buffers to point to sub-slices (no allocation)
-			c.processCtx.Input = nil
-			c.processCtx.Output = nil
-
-			// Set up input sub-slices
-			for ch := 0; ch < len(origInput); ch++ {
-				if lastOffset < len(origInput[ch]) {
-					endOffset := lastOffset + chunkSize
-					if endOffset > len(origInput[ch]) {
-						endOffset = len(origInput[ch])
-					}
-					c.processCtx.Input = append(c.processCtx.Input, origInput[ch][lastOffset:endOffset])
-				}
-			}
-
-			// Set up output sub-slices
-			for ch := 0; ch < len(origOutput); ch++ {
-				if lastOffset < len(origOutput[ch]) {
-					endOffset := lastOffset + chunkSize
-					if endOffset > len(origOutput[ch]) {
-						endOffset = len(origOutput[ch])
-					}
-					c.processCtx.Output = append(c.processCtx.Output, origOutput[ch][lastOffset:endOffset])
-				}
-			}
-
-			// Process this chunk
-			c.processor.ProcessAudio(c.processCtx)
-
-			lastOffset = change.SampleOffset
+		// A change past the end of the block takes effect at its end
+		if offset := min(change.SampleOffset, numSamples); offset > lastOffset {
+			// Process chunk from lastOffset to the change
+			c.processSubBlock(origInput, origOutput, lastOffset, offset)
+			lastOffset = offset
 		}
 
 		// Apply the parameter change
 		c.processCtx.ApplyParameterChange(change)
-
-		// Debug output
-		if p := c.processor.GetParameters().Get(change.ParamID); p != nil {
-			fmt.Printf("[SAMPLE_ACCURATE] Applied param %d change at sample %d: value=%.6f, plain=%.1f\n",
-				change.ParamID, change.SampleOffset, change.Value, p.GetPlainValue())
-		}
 	}
 
 	// Process final chunk if there are samples remaining
 	if lastOffset < numSamples {
-		// Temporarily update context buffers for final chunk
-		c.processCtx.Input = nil
-		c.processCtx.Output = nil
-
-		// Set up input sub-slices for final chunk
-		for ch := 0; ch < len(origInput); ch++ {
-			if lastOffset < len(origInput[ch]) {
-				c.processCtx.Input = append(c.processCtx.Input, origInput[ch][lastOffset:])
-			}
-		}
-
-		// Set up output sub-slices for final chunk
-		for ch := 0; ch < len(origOutput); ch++ {
-			if lastOffset < len(origOutput[ch]) {
-				c.processCtx.Output = append(c.processCtx.Output, origOutput[ch][lastOffset:])
-			}
-		}
+		c.processSubBlock(origInput, origOutput, lastOffset, numSamples)
+	}
+}
 
-		// Process final chunk
-		c.processor.ProcessAudio(c.processCtx)
+// processSubBlock processes the samples from start to end of the block (no allocation)
+func (c *componentImpl) processSubBlock(input, output [][]float32, start, end int) {
+	c.subInput = c.subInput[:0]
+	for _, channel := range input {
+		c.subInput = append(c.subInput, channel[start:end:end])
+	}
+	c.subOutput = c.subOutput[:0]
+	for _, channel := range output {
+		c.subOutput = append(c.subOutput, channel[start:end:end])
 	}
 
-	// Restore original buffers
-	c.processCtx.Input = origInput
-	c.processCtx.Output = origOutput
+	c.processCtx.Input = c.subInput
+	c.processCtx.Output = c.subOutput
+	c.processor.ProcessAudio(c.processCtx)
 }
-- 
2.43.0


From 49891be9a722ff35013dfc59ae8120c5d1d16dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 092/135] fix: parameter edits from the host print nothing

---
 pkg/plugin/component.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 328b26d..55b9877 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -490,9 +490,6 @@ func (c *componentImpl) GetParamNormalized(id uint32) float64 {
 
 func (c *componentImpl) SetParamNormalized(id uint32, value float64) error {
 	if p := c.processor.GetParameters().Get(id); p != nil {
-		// Debug parameter changes
-		fmt.Printf("[PARAM_CHANGE] SetParamNormalized: id=%d, value=%.3f, plain=%.1f\n",
-			id, value, p.Min+value*(p.Max-p.Min))
 		p.SetValue(value)
 		return nil
 	}
-- 
2.43.0


From 5f524b5925db11219b486a9886986dab76baa587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 093/135] fix: no automation point of a dense block is dropped

---
 pkg/framework/process/context.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index a8b34d8..caa0e4a 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -230,15 +230,14 @@ func (c *Context) SetParameterAtOffset(paramID uint32, value float64, sampleOffs
 // AddParameterChange adds a parameter change for sample-accurate processing
 // This method is used during the parameter change collection phase
 func (c *Context) AddParameterChange(paramID uint32, value float64, sampleOffset int) {
-	// Ensure we don't exceed pre-allocated space
-	if c.changeCount < len(c.paramChanges) {
-		c.paramChanges[c.changeCount] = ParameterChange{
-			ParamID:      paramID,
-			Value:        value,
-			SampleOffset: sampleOffset,
-		}
-		c.changeCount++
-	}
+	// Grow past the pre-allocated space only for unusually dense blocks; the
+	// space is kept for the blocks that follow
+	c.paramChanges = append(c.paramChanges[:c.changeCount], ParameterChange{
+		ParamID:      paramID,
+		Value:        value,
+		SampleOffset: sampleOffset,
+	})
+	c.changeCount++
 }
 
 // ResetParameterChanges clears the parameter change list for the next processing block
-- 
2.43.0


From 592caaff59ec959e336b070628defdb734ba0a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 094/135] fix: each note event is delivered once, with its
 offset in the sub-block

---
 pkg/plugin/component.go | 44 +++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 55b9877..ae8ccb7 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -33,6 +33,8 @@ type componentImpl struct {
 	subOutput   [][]float32
 	pointOffset C.int32_t // automation point read from the host
 	pointValue  C.double
+	event       C.struct_Steinberg_Vst_Event // event read from the host
+	events      []midi.Event                 // note events of the current block
 }
 
 // newComponent creates a new component implementation
@@ -315,6 +317,10 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 	// Reset parameter changes for this processing block
 	c.processCtx.ResetParameterChanges()
 
+	// Events belong to the block they were sent with
+	c.processCtx.ClearAllEvents()
+	c.events = c.events[:0]
+
 	// Process input events (MIDI)
 	if processData.inputEvents != nil {
 		c.processInputEvents(processData.inputEvents)
@@ -357,6 +363,7 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 		c.processSampleAccurate()
 	} else {
 		// No parameter changes - process entire block
+		c.addEvents(0, c.processCtx.NumSamples(), c.processCtx.NumSamples())
 		c.processor.ProcessAudio(c.processCtx)
 	}
 
@@ -381,9 +388,8 @@ func (c *componentImpl) processInputEvents(eventList *C.struct_Steinberg_Vst_IEv
 
 	// Process each event
 	for i := C.int32_t(0); i < eventCount; i++ {
-		var event C.struct_Steinberg_Vst_Event
-		if C.getEvent(unsafe.Pointer(eventList), i, &event) == 0 { // kResultOk
-			c.processSingleEvent(&event)
+		if C.getEvent(unsafe.Pointer(eventList), i, &c.event) == 0 { // kResultOk
+			c.processSingleEvent(&c.event)
 		}
 	}
 }
@@ -397,7 +403,7 @@ func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event)
 	case C.Steinberg_Vst_Event_EventTypes_kNoteOnEvent:
 		// Note On event - use helper to get the event data
 		noteOn := C.getNoteOnEvent(event)
-		c.processCtx.AddInputEvent(midi.NoteOnEvent{
+		c.events = append(c.events, midi.NoteOnEvent{
 			BaseEvent: midi.BaseEvent{
 				EventChannel: uint8(noteOn.channel),
 				Offset:       int32(event.sampleOffset),
@@ -409,7 +415,7 @@ func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event)
 	case C.Steinberg_Vst_Event_EventTypes_kNoteOffEvent:
 		// Note Off event - use helper to get the event data
 		noteOff := C.getNoteOffEvent(event)
-		c.processCtx.AddInputEvent(midi.NoteOffEvent{
+		c.events = append(c.events, midi.NoteOffEvent{
 			BaseEvent: midi.BaseEvent{
 				EventChannel: uint8(noteOff.channel),
 				Offset:       int32(event.sampleOffset),
@@ -544,7 +550,7 @@ func (c *componentImpl) processSampleAccurate() {
 		// A change past the end of the block takes effect at its end
 		if offset := min(change.SampleOffset, numSamples); offset > lastOffset {
 			// Process chunk from lastOffset to the change
-			c.processSubBlock(origInput, origOutput, lastOffset, offset)
+			c.processSubBlock(origInput, origOutput, lastOffset, offset, numSamples)
 			lastOffset = offset
 		}
 
@@ -554,12 +560,33 @@ func (c *componentImpl) processSampleAccurate() {
 
 	// Process final chunk if there are samples remaining
 	if lastOffset < numSamples {
-		c.processSubBlock(origInput, origOutput, lastOffset, numSamples)
+		c.processSubBlock(origInput, origOutput, lastOffset, numSamples, numSamples)
+	}
+}
+
+// addEvents hands the processor the events from start to end of a block of
+// blockSize samples, with offsets relative to start
+func (c *componentImpl) addEvents(start, end, blockSize int) {
+	c.processCtx.ClearInputEvents()
+	for _, event := range c.events {
+		// An event outside the block is played at its nearest sample
+		offset := max(0, min(int(event.SampleOffset()), blockSize-1))
+		if offset < start || offset >= end {
+			continue
+		}
+		switch e := event.(type) {
+		case midi.NoteOnEvent:
+			e.Offset = int32(offset - start)
+			c.processCtx.AddInputEvent(e)
+		case midi.NoteOffEvent:
+			e.Offset = int32(offset - start)
+			c.processCtx.AddInputEvent(e)
+		}
 	}
 }
 
 // processSubBlock processes the samples from start to end of the block (no allocation)
-func (c *componentImpl) processSubBlock(input, output [][]float32, start, end int) {
+func (c *componentImpl) processSubBlock(input, output [][]float32, start, end, blockSize int) {
 	c.subInput = c.subInput[:0]
 	for _, channel := range input {
 		c.subInput = append(c.subInput, channel[start:end:end])
@@ -571,5 +598,6 @@ func (c *componentImpl) processSubBlock(input, output [][]float32, start, end in
 
 	c.processCtx.Input = c.subInput
 	c.processCtx.Output = c.subOutput
+	c.addEvents(start, end, blockSize)
 	c.processor.ProcessAudio(c.processCtx)
 }
-- 
2.43.0


From f8371b78babeb00a8019a4a0c9939783f114e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 095/135] fix: note velocities are rounded, not truncated

---
 pkg/plugin/component.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index ae8ccb7..192fc64 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -409,7 +409,7 @@ func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event)
 				Offset:       int32(event.sampleOffset),
 			},
 			NoteNumber: uint8(noteOn.pitch),
-			Velocity:   uint8(noteOn.velocity * 127), // VST3 uses 0-1, MIDI uses 0-127
+			Velocity:   midiVelocity(float32(noteOn.velocity)),
 		})
 
 	case C.Steinberg_Vst_Event_EventTypes_kNoteOffEvent:
@@ -421,13 +421,18 @@ func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event)
 				Offset:       int32(event.sampleOffset),
 			},
 			NoteNumber: uint8(noteOff.pitch),
-			Velocity:   uint8(noteOff.velocity * 127),
+			Velocity:   midiVelocity(float32(noteOff.velocity)),
 		})
 
 	// Add more event types as needed
 	}
 }
 
+// midiVelocity converts a VST3 velocity (0-1) to the nearest MIDI velocity (0-127)
+func midiVelocity(velocity float32) uint8 {
+	return uint8(max(0, min(velocity, 1))*127 + 0.5)
+}
+
 // IEditController implementation
 func (c *componentImpl) SetComponentState(state []byte) error {
 	return nil
-- 
2.43.0


From 33c6d74db69ee29ef7ef24a51d1e3126281dd943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 096/135] fix: parameter texts outside the basic plane travel
 as surrogate pairs

---
 pkg/plugin/helpers.go | 48 ++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/pkg/plugin/helpers.go b/pkg/plugin/helpers.go
index 5ff345f..d7dc82f 100644
--- a/pkg/plugin/helpers.go
+++ b/pkg/plugin/helpers.go
@@ -9,6 +9,7 @@ package plugin
 // }
 import "C"
 import (
+	"unicode/utf16"
 	"unicode/utf8"
 	"unsafe"
 )
@@ -37,24 +38,27 @@ func copyStringToChar8(src string, dst *C.char, size int) {
 	field[n] = 0
 }
 
-// copyStringToTChar copies a Go string to a VST3 TChar (UTF16) buffer
+// copyStringToTChar copies a Go string to a VST3 TChar (UTF16) buffer of maxLen units,
+// cutting it between characters when it does not fit
 func copyStringToTChar(src string, dst *C.Steinberg_Vst_TChar, maxLen int) {
-	// Convert to runes for proper Unicode handling
-	runes := []rune(src)
-	n := len(runes)
-	if n > maxLen-1 {
-		n = maxLen - 1
-	}
-
-	// Copy runes as UTF16
-	for i := 0; i < n; i++ {
-		*(*C.Steinberg_char16)(unsafe.Pointer(
-			uintptr(unsafe.Pointer(dst)) + uintptr(i*2))) = C.Steinberg_char16(runes[i])
+	buf := unsafe.Slice((*uint16)(unsafe.Pointer(dst)), maxLen)
+	n := 0
+	for _, r := range src {
+		units := max(utf16.RuneLen(r), 1)
+		if n+units > maxLen-1 {
+			break
+		}
+		if units == 2 {
+			r1, r2 := utf16.EncodeRune(r)
+			buf[n], buf[n+1] = uint16(r1), uint16(r2)
+		} else {
+			buf[n] = uint16(r)
+		}
+		n += units
 	}
 
 	// Null terminate
-	*(*C.Steinberg_char16)(unsafe.Pointer(
-		uintptr(unsafe.Pointer(dst)) + uintptr(n*2))) = 0
+	buf[n] = 0
 }
 
 // stringFromTChar converts a VST3 TChar (UTF16) buffer to a Go string
@@ -65,21 +69,9 @@ func stringFromTChar(src *C.Steinberg_Vst_TChar) string {
 
 	// Count length
 	length := 0
-	for {
-		ch := *(*C.Steinberg_char16)(unsafe.Pointer(
-			uintptr(unsafe.Pointer(src)) + uintptr(length*2)))
-		if ch == 0 {
-			break
-		}
+	for *(*uint16)(unsafe.Add(unsafe.Pointer(src), length*2)) != 0 {
 		length++
 	}
 
-	// Convert to runes
-	runes := make([]rune, length)
-	for i := 0; i < length; i++ {
-		runes[i] = rune(*(*C.Steinberg_char16)(unsafe.Pointer(
-			uintptr(unsafe.Pointer(src)) + uintptr(i*2))))
-	}
-
-	return string(runes)
+	return string(utf16.Decode(unsafe.Slice((*uint16)(unsafe.Pointer(src)), length)))
 }
-- 
2.43.0


From 726ea52063d0d5b8f6872f3140cc4e3beae03562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 097/135] fix: parameter names and units are UTF-16, not bytes

---
 pkg/plugin/wrapper_controller.go | 33 ++++----------------------------
 1 file changed, 4 insertions(+), 29 deletions(-)

diff --git a/pkg/plugin/wrapper_controller.go b/pkg/plugin/wrapper_controller.go
index 0f5f581..d2496ef 100644
--- a/pkg/plugin/wrapper_controller.go
+++ b/pkg/plugin/wrapper_controller.go
@@ -55,35 +55,10 @@ func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.
 	cInfo := info
 	cInfo.id = C.Steinberg_Vst_ParamID(paramInfo.ID)
 
-	// Copy title
-	titleBytes := []byte(paramInfo.Title)
-	if len(titleBytes) > 127 {
-		titleBytes = titleBytes[:127]
-	}
-	for i, b := range titleBytes {
-		cInfo.title[i] = C.Steinberg_char16(b)
-	}
-	cInfo.title[len(titleBytes)] = 0
-
-	// Copy short title
-	shortTitleBytes := []byte(paramInfo.ShortTitle)
-	if len(shortTitleBytes) > 127 {
-		shortTitleBytes = shortTitleBytes[:127]
-	}
-	for i, b := range shortTitleBytes {
-		cInfo.shortTitle[i] = C.Steinberg_char16(b)
-	}
-	cInfo.shortTitle[len(shortTitleBytes)] = 0
-
-	// Copy units
-	unitsBytes := []byte(paramInfo.Units)
-	if len(unitsBytes) > 127 {
-		unitsBytes = unitsBytes[:127]
-	}
-	for i, b := range unitsBytes {
-		cInfo.units[i] = C.Steinberg_char16(b)
-	}
-	cInfo.units[len(unitsBytes)] = 0
+	// Copy texts
+	copyStringToTChar(paramInfo.Title, &cInfo.title[0], len(cInfo.title))
+	copyStringToTChar(paramInfo.ShortTitle, &cInfo.shortTitle[0], len(cInfo.shortTitle))
+	copyStringToTChar(paramInfo.Units, &cInfo.units[0], len(cInfo.units))
 
 	cInfo.stepCount = C.Steinberg_int32(paramInfo.StepCount)
 	cInfo.defaultNormalizedValue = C.Steinberg_Vst_ParamValue(paramInfo.DefaultValue)
-- 
2.43.0


From 71fbfc70b805d77920033aec817a5747e4f45793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 098/135] fix: bus names are UTF-16, not bytes

---
 pkg/plugin/wrapper.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index 4f19f34..dd5a2a7 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -360,14 +360,7 @@ func GoComponentGetBusInfo(componentPtr unsafe.Pointer, mediaType, dir, index C.
 	cBus.channelCount = C.Steinberg_int32(info.ChannelCount)
 
 	// Copy name
-	nameBytes := []byte(info.Name)
-	if len(nameBytes) > 127 {
-		nameBytes = nameBytes[:127]
-	}
-	for i, b := range nameBytes {
-		cBus.name[i] = C.Steinberg_char16(b)
-	}
-	cBus.name[len(nameBytes)] = 0
+	copyStringToTChar(info.Name, &cBus.name[0], len(cBus.name))
 
 	cBus.busType = C.Steinberg_Vst_BusType(info.BusType)
 	cBus.flags = C.Steinberg_uint32(info.Flags)
-- 
2.43.0


From bec27be5a38edaad4ca508de878f34fdd4126fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 099/135] fix: the controller converts plain values as the
 parameter does

---
 pkg/plugin/component.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 192fc64..8fbc7f1 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -478,16 +478,14 @@ func (c *componentImpl) GetParamValueByString(id uint32, str string) (float64, e
 
 func (c *componentImpl) NormalizedParamToPlain(id uint32, normalized float64) float64 {
 	if p := c.processor.GetParameters().Get(id); p != nil {
-		return p.Min + normalized*(p.Max-p.Min)
+		return p.Denormalize(normalized)
 	}
 	return normalized
 }
 
 func (c *componentImpl) PlainParamToNormalized(id uint32, plain float64) float64 {
 	if p := c.processor.GetParameters().Get(id); p != nil {
-		if p.Max > p.Min {
-			return (plain - p.Min) / (p.Max - p.Min)
-		}
+		return p.Normalize(plain)
 	}
 	return plain
 }
-- 
2.43.0


From 376dc48f9fa9b81ee32e7e608ab3803bc5a0d90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 100/135] fix: bus arrangements of any number of buses are read

---
 pkg/plugin/wrapper_audio.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/plugin/wrapper_audio.go b/pkg/plugin/wrapper_audio.go
index 7ac10ed..23d8beb 100644
--- a/pkg/plugin/wrapper_audio.go
+++ b/pkg/plugin/wrapper_audio.go
@@ -21,12 +21,12 @@ func GoAudioSetBusArrangements(componentPtr unsafe.Pointer, inputs unsafe.Pointe
 	// Convert arrangements
 	var inputArrs []int64
 	if numIns > 0 && inputs != nil {
-		inputArrs = (*[16]int64)(inputs)[:numIns:numIns]
+		inputArrs = unsafe.Slice((*int64)(inputs), int(numIns))
 	}
 
 	var outputArrs []int64
 	if numOuts > 0 && outputs != nil {
-		outputArrs = (*[16]int64)(outputs)[:numOuts:numOuts]
+		outputArrs = unsafe.Slice((*int64)(outputs), int(numOuts))
 	}
 
 	err := wrapper.component.SetBusArrangements(inputArrs, outputArrs)
-- 
2.43.0


From d1066779e9ad930ae439e3d923790838025faccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 101/135] fix: getBusArrangement reports the channels of the
 bus and fails for no bus

---
 pkg/plugin/component.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 8fbc7f1..7853c6e 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -7,6 +7,7 @@ import "C"
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"sync"
 	"unsafe"
 
@@ -164,8 +165,25 @@ func (c *componentImpl) SetBusArrangements(inputs, outputs []int64) error {
 }
 
 func (c *componentImpl) GetBusArrangement(direction, index int32) (int64, error) {
-	// Return stereo by default
-	return int64(3), nil // Left + Right
+	info := c.processor.GetBuses().GetBusInfo(bus.MediaTypeAudio, bus.Direction(direction), index)
+	if info == nil {
+		return 0, vst3.ErrInvalidArgument
+	}
+	return speakerArrangement(info.ChannelCount), nil
+}
+
+// speakerArrangement returns an arrangement with one speaker per channel
+func speakerArrangement(channels int32) int64 {
+	switch {
+	case channels <= 0:
+		return 0 // kEmpty
+	case channels == 1:
+		return 1 << 19 // kMono: one center speaker
+	case channels >= 63:
+		return math.MaxInt64
+	default:
+		return 1<<channels - 1 // 2 channels are kStereo: left + right
+	}
 }
 
 func (c *componentImpl) CanProcessSampleSize(symbolicSampleSize int32) error {
-- 
2.43.0


From 77bfb78bc63652192d221760aaff39a28c5cc33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 102/135] fix: stream writes are completed or reported as
 failed

---
 pkg/vst3/stream.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pkg/vst3/stream.go b/pkg/vst3/stream.go
index 98ce451..de96bfb 100644
--- a/pkg/vst3/stream.go
+++ b/pkg/vst3/stream.go
@@ -22,6 +22,8 @@ package vst3
 import "C"
 import (
 	"encoding/binary"
+	"io"
+	"math"
 	"unsafe"
 )
 
@@ -54,18 +56,24 @@ func (s *StreamWrapper) Read(buffer []byte) (int32, error) {
 	return int32(numBytesRead), nil
 }
 
-// Write writes data to the stream
+// Write writes all of buffer to the stream. A stream may take fewer bytes per call than
+// offered; one that takes none has failed.
 func (s *StreamWrapper) Write(buffer []byte) (int32, error) {
-	if len(buffer) == 0 {
-		return 0, nil
-	}
-
-	var numBytesWritten C.Steinberg_int32
-	result := C.stream_write(s.stream, unsafe.Pointer(&buffer[0]), C.Steinberg_int32(len(buffer)), &numBytesWritten)
-	if result != 0 {
-		return 0, ErrNotImplemented
+	var written int32
+	for len(buffer) > 0 {
+		var numBytesWritten C.Steinberg_int32
+		chunk := min(len(buffer), math.MaxInt32)
+		result := C.stream_write(s.stream, unsafe.Pointer(&buffer[0]), C.Steinberg_int32(chunk), &numBytesWritten)
+		if result != 0 {
+			return written, ErrNotImplemented
+		}
+		if numBytesWritten <= 0 || int(numBytesWritten) > chunk {
+			return written, io.ErrShortWrite
+		}
+		written += int32(numBytesWritten)
+		buffer = buffer[numBytesWritten:]
 	}
-	return int32(numBytesWritten), nil
+	return written, nil
 }
 
 // WriteInt32 writes an int32 to the stream
-- 
2.43.0


From 40b04204142b32f4b007fc82787c903be5c1d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 103/135] fix: typed stream reads survive short reads

---
 pkg/vst3/stream.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/pkg/vst3/stream.go b/pkg/vst3/stream.go
index de96bfb..f012cea 100644
--- a/pkg/vst3/stream.go
+++ b/pkg/vst3/stream.go
@@ -56,6 +56,21 @@ func (s *StreamWrapper) Read(buffer []byte) (int32, error) {
 	return int32(numBytesRead), nil
 }
 
+// readFull fills buffer from the stream, which may deliver fewer bytes per call than asked for
+func (s *StreamWrapper) readFull(buffer []byte) error {
+	for len(buffer) > 0 {
+		n, err := s.Read(buffer)
+		if err != nil {
+			return err
+		}
+		if n <= 0 || int(n) > len(buffer) {
+			return io.ErrUnexpectedEOF
+		}
+		buffer = buffer[n:]
+	}
+	return nil
+}
+
 // Write writes all of buffer to the stream. A stream may take fewer bytes per call than
 // offered; one that takes none has failed.
 func (s *StreamWrapper) Write(buffer []byte) (int32, error) {
@@ -87,13 +102,9 @@ func (s *StreamWrapper) WriteInt32(value int32) error {
 // ReadInt32 reads an int32 from the stream
 func (s *StreamWrapper) ReadInt32() (int32, error) {
 	buf := make([]byte, 4)
-	n, err := s.Read(buf)
-	if err != nil {
+	if err := s.readFull(buf); err != nil {
 		return 0, err
 	}
-	if n != 4 {
-		return 0, ErrNotImplemented
-	}
 	return int32(binary.LittleEndian.Uint32(buf)), nil
 }
 
@@ -108,13 +119,9 @@ func (s *StreamWrapper) WriteFloat64(value float64) error {
 // ReadFloat64 reads a float64 from the stream
 func (s *StreamWrapper) ReadFloat64() (float64, error) {
 	buf := make([]byte, 8)
-	n, err := s.Read(buf)
-	if err != nil {
+	if err := s.readFull(buf); err != nil {
 		return 0, err
 	}
-	if n != 8 {
-		return 0, ErrNotImplemented
-	}
 	bits := binary.LittleEndian.Uint64(buf)
 	return *(*float64)(unsafe.Pointer(&bits)), nil
 }
@@ -145,13 +152,9 @@ func (s *StreamWrapper) ReadString() (string, error) {
 	}
 	// Read string data
 	buf := make([]byte, length)
-	n, err := s.Read(buf)
-	if err != nil {
+	if err := s.readFull(buf); err != nil {
 		return "", err
 	}
-	if n != length {
-		return "", ErrNotImplemented
-	}
 	return string(buf), nil
 }
 
-- 
2.43.0


From b499d5b51f9944ecff671c39c71f769b654c92ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 104/135] fix: a damaged string length in a stream is an error,
 not a panic or a huge allocation

---
 pkg/vst3/stream.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkg/vst3/stream.go b/pkg/vst3/stream.go
index f012cea..9922602 100644
--- a/pkg/vst3/stream.go
+++ b/pkg/vst3/stream.go
@@ -150,10 +150,19 @@ func (s *StreamWrapper) ReadString() (string, error) {
 	if length == 0 {
 		return "", nil
 	}
-	// Read string data
-	buf := make([]byte, length)
-	if err := s.readFull(buf); err != nil {
-		return "", err
+	if length < 0 {
+		return "", ErrInvalidArgument
+	}
+	// Read string data. The length comes from the stream: memory is only
+	// taken for bytes that are really there
+	var buf []byte
+	for remaining := int(length); remaining > 0; {
+		chunk := make([]byte, min(remaining, 1<<16))
+		if err := s.readFull(chunk); err != nil {
+			return "", err
+		}
+		buf = append(buf, chunk...)
+		remaining -= len(chunk)
 	}
 	return string(buf), nil
 }
-- 
2.43.0


From dd71e9249b91dcf4a6d7d6bceebe107ef014d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 105/135] fix: a state is read to its end whatever the stream
 delivers per call

---
 pkg/vst3/stream.go | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/pkg/vst3/stream.go b/pkg/vst3/stream.go
index 9922602..63af0d7 100644
--- a/pkg/vst3/stream.go
+++ b/pkg/vst3/stream.go
@@ -178,18 +178,18 @@ func (s *StreamWrapper) ReadAll() ([]byte, error) {
 	result := C.stream_tell(s.stream, &currentPos)
 	if result != 0 {
 		// If we can't get position, read in chunks
-		return s.readAllChunked()
+		return s.readAllChunked(math.MaxInt64)
 	}
 
 	// Try to seek to end to get size
 	var endPos C.int64_t
 	result = C.stream_seek(s.stream, 0, 2, &endPos) // SEEK_END = 2
 	if result != 0 {
-		return s.readAllChunked()
+		return s.readAllChunked(math.MaxInt64)
 	}
 
 	// Calculate remaining size
-	remaining := int32(endPos - currentPos)
+	remaining := int64(endPos - currentPos)
 	if remaining <= 0 {
 		return []byte{}, nil
 	}
@@ -198,37 +198,30 @@ func (s *StreamWrapper) ReadAll() ([]byte, error) {
 	var newPos C.int64_t
 	result = C.stream_seek(s.stream, currentPos, 0, &newPos) // SEEK_SET = 0
 	if result != 0 {
-		return s.readAllChunked()
+		// The data is behind us now and cannot be reached
+		return nil, ErrNotImplemented
 	}
 
 	// Read all remaining data
-	buffer := make([]byte, remaining)
-	n, err := s.Read(buffer)
-	if err != nil {
-		return nil, err
-	}
-
-	return buffer[:n], nil
+	return s.readAllChunked(remaining)
 }
 
-// readAllChunked reads data in chunks when seeking is not supported
-func (s *StreamWrapper) readAllChunked() ([]byte, error) {
+// readAllChunked reads up to limit bytes, until the stream delivers no more. A stream may
+// deliver fewer bytes per call than asked for, which does not mark its end.
+func (s *StreamWrapper) readAllChunked(limit int64) ([]byte, error) {
 	var result []byte
-	chunkSize := int32(4096)
+	buffer := make([]byte, 4096)
 
-	for {
-		chunk := make([]byte, chunkSize)
+	for int64(len(result)) < limit {
+		chunk := buffer[:min(int64(len(buffer)), limit-int64(len(result)))]
 		n, err := s.Read(chunk)
 		if err != nil {
 			return nil, err
 		}
-		if n == 0 {
-			break
-		}
-		result = append(result, chunk[:n]...)
-		if n < chunkSize {
+		if n <= 0 {
 			break // End of stream
 		}
+		result = append(result, chunk[:min(int(n), len(chunk))]...)
 	}
 
 	return result, nil
-- 
2.43.0


From ea042c162b32c1c0ff2d69a64db075ecc58b88aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 106/135] fix: a panicking plug-in fails the host call instead
 of crashing the host

---
 bridge/bridge.c                  |  3 +-
 bridge/bridge.h                  |  2 +-
 pkg/plugin/wrapper.go            | 54 +++++++++++++++++++++++++-------
 pkg/plugin/wrapper_audio.go      | 28 ++++++++++++-----
 pkg/plugin/wrapper_controller.go | 28 ++++++++++++++---
 5 files changed, 88 insertions(+), 27 deletions(-)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index f7490f5..8b513a1 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -125,8 +125,7 @@ static Steinberg_tresult SMTG_STDMETHODCALLTYPE factory_getClassInfo(void* thisI
     if (index < 0 || index >= GoCountClasses()) {
         return ((Steinberg_tresult)1);
     }
-    GoGetClassInfo(index, (char*)info->cid, &info->cardinality, info->category, info->name);
-    return ((Steinberg_tresult)0);
+    return GoGetClassInfo(index, (char*)info->cid, &info->cardinality, info->category, info->name);
 }
 
 static Steinberg_tresult SMTG_STDMETHODCALLTYPE factory_createInstance(void* thisInterface, Steinberg_FIDString cid, Steinberg_FIDString iid, void** obj) {
diff --git a/bridge/bridge.h b/bridge/bridge.h
index a41399c..91433d9 100644
--- a/bridge/bridge.h
+++ b/bridge/bridge.h
@@ -8,7 +8,7 @@
 // Factory callbacks
 extern void GoGetFactoryInfo(char* vendor, char* url, char* email, int32_t* flags);
 extern int32_t GoCountClasses();
-extern void GoGetClassInfo(int32_t index, char* cid, int32_t* cardinality, char* category, char* name);
+extern Steinberg_tresult GoGetClassInfo(int32_t index, char* cid, int32_t* cardinality, char* category, char* name);
 extern void* GoCreateInstance(char* cid, char* iid);
 
 // Parameter automation helper functions
diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index dd5a2a7..22da155 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -98,6 +98,15 @@ func recoverPanic(operation string) {
 	}
 }
 
+// recoverResult is recoverPanic for callbacks that report a result: a callback that
+// panicked has failed
+func recoverResult(operation string, result *C.Steinberg_tresult) {
+	if r := recover(); r != nil {
+		_ = r
+		*result = C.Steinberg_tresult(vst3.ResultFalse)
+	}
+}
+
 // registerComponent registers a component wrapper and returns its ID
 func registerComponent(wrapper *componentWrapper) uintptr {
 	componentsMu.Lock()
@@ -193,9 +202,11 @@ func GoCountClasses() C.int32_t {
 }
 
 //export GoGetClassInfo
-func GoGetClassInfo(index C.int32_t, cid *C.char, cardinality *C.int32_t, category, name *C.char) {
+func GoGetClassInfo(index C.int32_t, cid *C.char, cardinality *C.int32_t, category, name *C.char) (result C.Steinberg_tresult) {
+	defer recoverResult("GoGetClassInfo", &result)
+
 	if globalPlugin == nil || index != 0 {
-		return
+		return C.Steinberg_tresult(vst3.ResultFalse)
 	}
 
 	info := globalPlugin.GetInfo()
@@ -211,10 +222,13 @@ func GoGetClassInfo(index C.int32_t, cid *C.char, cardinality *C.int32_t, catego
 	var classInfo C.struct_Steinberg_PClassInfo
 	copyStringToChar8("Audio Module Class", category, len(classInfo.category))
 	copyStringToChar8(info.Name, name, len(classInfo.name))
+	return C.Steinberg_tresult(vst3.ResultOK)
 }
 
 //export GoCreateInstance
 func GoCreateInstance(cid *C.char, iid *C.char) unsafe.Pointer {
+	defer recoverPanic("GoCreateInstance")
+
 	if globalPlugin == nil {
 		return nil
 	}
@@ -275,8 +289,8 @@ func GoReleaseComponent(componentPtr unsafe.Pointer) {
 // All the IComponent callbacks
 //
 //export GoComponentInitialize
-func GoComponentInitialize(componentPtr unsafe.Pointer, context unsafe.Pointer) C.Steinberg_tresult {
-	defer recoverPanic("GoComponentInitialize")
+func GoComponentInitialize(componentPtr unsafe.Pointer, context unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverResult("GoComponentInitialize", &result)
 
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
@@ -291,8 +305,8 @@ func GoComponentInitialize(componentPtr unsafe.Pointer, context unsafe.Pointer)
 }
 
 //export GoComponentTerminate
-func GoComponentTerminate(componentPtr unsafe.Pointer) C.Steinberg_tresult {
-	defer recoverPanic("GoComponentTerminate")
+func GoComponentTerminate(componentPtr unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverResult("GoComponentTerminate", &result)
 
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
@@ -308,6 +322,8 @@ func GoComponentTerminate(componentPtr unsafe.Pointer) C.Steinberg_tresult {
 
 //export GoComponentGetControllerClassId
 func GoComponentGetControllerClassId(componentPtr unsafe.Pointer, classId *C.char) {
+	defer recoverPanic("GoComponentGetControllerClassId")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return
@@ -318,7 +334,9 @@ func GoComponentGetControllerClassId(componentPtr unsafe.Pointer, classId *C.cha
 }
 
 //export GoComponentSetIoMode
-func GoComponentSetIoMode(componentPtr unsafe.Pointer, mode C.int32_t) C.Steinberg_tresult {
+func GoComponentSetIoMode(componentPtr unsafe.Pointer, mode C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverResult("GoComponentSetIoMode", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -333,6 +351,8 @@ func GoComponentSetIoMode(componentPtr unsafe.Pointer, mode C.int32_t) C.Steinbe
 
 //export GoComponentGetBusCount
 func GoComponentGetBusCount(componentPtr unsafe.Pointer, mediaType, dir C.int32_t) C.int32_t {
+	defer recoverPanic("GoComponentGetBusCount")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
@@ -342,7 +362,9 @@ func GoComponentGetBusCount(componentPtr unsafe.Pointer, mediaType, dir C.int32_
 }
 
 //export GoComponentGetBusInfo
-func GoComponentGetBusInfo(componentPtr unsafe.Pointer, mediaType, dir, index C.int32_t, bus unsafe.Pointer) C.Steinberg_tresult {
+func GoComponentGetBusInfo(componentPtr unsafe.Pointer, mediaType, dir, index C.int32_t, bus unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverResult("GoComponentGetBusInfo", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -369,7 +391,9 @@ func GoComponentGetBusInfo(componentPtr unsafe.Pointer, mediaType, dir, index C.
 }
 
 //export GoComponentActivateBus
-func GoComponentActivateBus(componentPtr unsafe.Pointer, mediaType, dir, index, state C.int32_t) C.Steinberg_tresult {
+func GoComponentActivateBus(componentPtr unsafe.Pointer, mediaType, dir, index, state C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverResult("GoComponentActivateBus", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -383,7 +407,9 @@ func GoComponentActivateBus(componentPtr unsafe.Pointer, mediaType, dir, index,
 }
 
 //export GoComponentSetActive
-func GoComponentSetActive(componentPtr unsafe.Pointer, state C.int32_t) C.Steinberg_tresult {
+func GoComponentSetActive(componentPtr unsafe.Pointer, state C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverResult("GoComponentSetActive", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -397,7 +423,9 @@ func GoComponentSetActive(componentPtr unsafe.Pointer, state C.int32_t) C.Steinb
 }
 
 //export GoComponentSetState
-func GoComponentSetState(componentPtr unsafe.Pointer, state unsafe.Pointer) C.Steinberg_tresult {
+func GoComponentSetState(componentPtr unsafe.Pointer, state unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverResult("GoComponentSetState", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -423,7 +451,9 @@ func GoComponentSetState(componentPtr unsafe.Pointer, state unsafe.Pointer) C.St
 }
 
 //export GoComponentGetState
-func GoComponentGetState(componentPtr unsafe.Pointer, state unsafe.Pointer) C.Steinberg_tresult {
+func GoComponentGetState(componentPtr unsafe.Pointer, state unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverResult("GoComponentGetState", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
diff --git a/pkg/plugin/wrapper_audio.go b/pkg/plugin/wrapper_audio.go
index 23d8beb..95c5f31 100644
--- a/pkg/plugin/wrapper_audio.go
+++ b/pkg/plugin/wrapper_audio.go
@@ -12,7 +12,9 @@ import (
 // IAudioProcessor callbacks
 //
 //export GoAudioSetBusArrangements
-func GoAudioSetBusArrangements(componentPtr unsafe.Pointer, inputs unsafe.Pointer, numIns C.int32_t, outputs unsafe.Pointer, numOuts C.int32_t) C.Steinberg_tresult {
+func GoAudioSetBusArrangements(componentPtr unsafe.Pointer, inputs unsafe.Pointer, numIns C.int32_t, outputs unsafe.Pointer, numOuts C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverResult("GoAudioSetBusArrangements", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -37,7 +39,9 @@ func GoAudioSetBusArrangements(componentPtr unsafe.Pointer, inputs unsafe.Pointe
 }
 
 //export GoAudioGetBusArrangement
-func GoAudioGetBusArrangement(componentPtr unsafe.Pointer, dir, index C.int32_t, arr unsafe.Pointer) C.Steinberg_tresult {
+func GoAudioGetBusArrangement(componentPtr unsafe.Pointer, dir, index C.int32_t, arr unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverResult("GoAudioGetBusArrangement", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -53,7 +57,9 @@ func GoAudioGetBusArrangement(componentPtr unsafe.Pointer, dir, index C.int32_t,
 }
 
 //export GoAudioCanProcessSampleSize
-func GoAudioCanProcessSampleSize(componentPtr unsafe.Pointer, symbolicSampleSize C.int32_t) C.Steinberg_tresult {
+func GoAudioCanProcessSampleSize(componentPtr unsafe.Pointer, symbolicSampleSize C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverResult("GoAudioCanProcessSampleSize", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -68,6 +74,8 @@ func GoAudioCanProcessSampleSize(componentPtr unsafe.Pointer, symbolicSampleSize
 
 //export GoAudioGetLatencySamples
 func GoAudioGetLatencySamples(componentPtr unsafe.Pointer) C.uint32_t {
+	defer recoverPanic("GoAudioGetLatencySamples")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
@@ -77,7 +85,9 @@ func GoAudioGetLatencySamples(componentPtr unsafe.Pointer) C.uint32_t {
 }
 
 //export GoAudioSetupProcessing
-func GoAudioSetupProcessing(componentPtr unsafe.Pointer, setup unsafe.Pointer) C.Steinberg_tresult {
+func GoAudioSetupProcessing(componentPtr unsafe.Pointer, setup unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverResult("GoAudioSetupProcessing", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -100,7 +110,9 @@ func GoAudioSetupProcessing(componentPtr unsafe.Pointer, setup unsafe.Pointer) C
 }
 
 //export GoAudioSetProcessing
-func GoAudioSetProcessing(componentPtr unsafe.Pointer, state C.int32_t) C.Steinberg_tresult {
+func GoAudioSetProcessing(componentPtr unsafe.Pointer, state C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverResult("GoAudioSetProcessing", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -114,8 +126,8 @@ func GoAudioSetProcessing(componentPtr unsafe.Pointer, state C.int32_t) C.Steinb
 }
 
 //export GoAudioProcess
-func GoAudioProcess(componentPtr unsafe.Pointer, data unsafe.Pointer) C.Steinberg_tresult {
-	defer recoverPanic("GoAudioProcess")
+func GoAudioProcess(componentPtr unsafe.Pointer, data unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverResult("GoAudioProcess", &result)
 
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
@@ -131,6 +143,8 @@ func GoAudioProcess(componentPtr unsafe.Pointer, data unsafe.Pointer) C.Steinber
 
 //export GoAudioGetTailSamples
 func GoAudioGetTailSamples(componentPtr unsafe.Pointer) C.uint32_t {
+	defer recoverPanic("GoAudioGetTailSamples")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
diff --git a/pkg/plugin/wrapper_controller.go b/pkg/plugin/wrapper_controller.go
index d2496ef..2ae16e7 100644
--- a/pkg/plugin/wrapper_controller.go
+++ b/pkg/plugin/wrapper_controller.go
@@ -31,6 +31,8 @@ func GoEditControllerGetState(componentPtr unsafe.Pointer, state unsafe.Pointer)
 
 //export GoEditControllerGetParameterCount
 func GoEditControllerGetParameterCount(componentPtr unsafe.Pointer) C.int32_t {
+	defer recoverPanic("GoEditControllerGetParameterCount")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
@@ -40,7 +42,9 @@ func GoEditControllerGetParameterCount(componentPtr unsafe.Pointer) C.int32_t {
 }
 
 //export GoEditControllerGetParameterInfo
-func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.int32_t, info *C.struct_Steinberg_Vst_ParameterInfo) C.Steinberg_tresult {
+func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.int32_t, info *C.struct_Steinberg_Vst_ParameterInfo) (result C.Steinberg_tresult) {
+	defer recoverResult("GoEditControllerGetParameterInfo", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -72,7 +76,9 @@ func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.
 }
 
 //export GoEditControllerGetParamStringByValue
-func GoEditControllerGetParamStringByValue(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, valueNormalized C.Steinberg_Vst_ParamValue, string *C.Steinberg_Vst_TChar) C.Steinberg_tresult {
+func GoEditControllerGetParamStringByValue(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, valueNormalized C.Steinberg_Vst_ParamValue, string *C.Steinberg_Vst_TChar) (result C.Steinberg_tresult) {
+	defer recoverResult("GoEditControllerGetParamStringByValue", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -91,7 +97,9 @@ func GoEditControllerGetParamStringByValue(componentPtr unsafe.Pointer, id C.Ste
 }
 
 //export GoEditControllerGetParamValueByString
-func GoEditControllerGetParamValueByString(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, string *C.Steinberg_Vst_TChar, valueNormalized *C.Steinberg_Vst_ParamValue) C.Steinberg_tresult {
+func GoEditControllerGetParamValueByString(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, string *C.Steinberg_Vst_TChar, valueNormalized *C.Steinberg_Vst_ParamValue) (result C.Steinberg_tresult) {
+	defer recoverResult("GoEditControllerGetParamValueByString", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -112,6 +120,8 @@ func GoEditControllerGetParamValueByString(componentPtr unsafe.Pointer, id C.Ste
 
 //export GoEditControllerNormalizedParamToPlain
 func GoEditControllerNormalizedParamToPlain(componentPtr unsafe.Pointer, id C.uint32_t, valueNormalized C.double) C.double {
+	defer recoverPanic("GoEditControllerNormalizedParamToPlain")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return valueNormalized
@@ -122,6 +132,8 @@ func GoEditControllerNormalizedParamToPlain(componentPtr unsafe.Pointer, id C.ui
 
 //export GoEditControllerPlainParamToNormalized
 func GoEditControllerPlainParamToNormalized(componentPtr unsafe.Pointer, id C.uint32_t, plainValue C.double) C.double {
+	defer recoverPanic("GoEditControllerPlainParamToNormalized")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return plainValue
@@ -132,6 +144,8 @@ func GoEditControllerPlainParamToNormalized(componentPtr unsafe.Pointer, id C.ui
 
 //export GoEditControllerGetParamNormalized
 func GoEditControllerGetParamNormalized(componentPtr unsafe.Pointer, id C.uint32_t) C.double {
+	defer recoverPanic("GoEditControllerGetParamNormalized")
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
@@ -141,7 +155,9 @@ func GoEditControllerGetParamNormalized(componentPtr unsafe.Pointer, id C.uint32
 }
 
 //export GoEditControllerSetParamNormalized
-func GoEditControllerSetParamNormalized(componentPtr unsafe.Pointer, id C.uint32_t, value C.double) C.Steinberg_tresult {
+func GoEditControllerSetParamNormalized(componentPtr unsafe.Pointer, id C.uint32_t, value C.double) (result C.Steinberg_tresult) {
+	defer recoverResult("GoEditControllerSetParamNormalized", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -155,7 +171,9 @@ func GoEditControllerSetParamNormalized(componentPtr unsafe.Pointer, id C.uint32
 }
 
 //export GoEditControllerSetComponentHandler
-func GoEditControllerSetComponentHandler(componentPtr unsafe.Pointer, handler unsafe.Pointer) C.Steinberg_tresult {
+func GoEditControllerSetComponentHandler(componentPtr unsafe.Pointer, handler unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverResult("GoEditControllerSetComponentHandler", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
-- 
2.43.0


From fa13e33c45174dc91dbcbea74d32984027dc97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 107/135] fix: an unknown media type has no buses instead of
 the audio buses

---
 pkg/framework/bus/builder.go |  5 +----
 pkg/framework/bus/bus.go     | 32 ++++++++++++++++----------------
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/pkg/framework/bus/builder.go b/pkg/framework/bus/builder.go
index 03e17d6..4aaef42 100644
--- a/pkg/framework/bus/builder.go
+++ b/pkg/framework/bus/builder.go
@@ -157,10 +157,7 @@ func (b *Builder) With7_1Output(name string) *Builder {
 
 // SetBusActive sets a specific bus as active/inactive
 func (b *Builder) SetBusActive(mediaType MediaType, direction Direction, index int32, active bool) *Builder {
-	buses := b.config.audioBuses
-	if mediaType == MediaTypeEvent {
-		buses = b.config.eventBuses
-	}
+	buses := b.config.busesOf(mediaType)
 
 	busIndex := int32(0)
 	for i := range buses {
diff --git a/pkg/framework/bus/bus.go b/pkg/framework/bus/bus.go
index dceb6d4..8e4c067 100644
--- a/pkg/framework/bus/bus.go
+++ b/pkg/framework/bus/bus.go
@@ -97,14 +97,23 @@ func NewMonoConfiguration() *Configuration {
 	}
 }
 
+// busesOf returns the buses of a media type; an unknown media type has none
+func (c *Configuration) busesOf(mediaType MediaType) []Info {
+	switch mediaType {
+	case MediaTypeAudio:
+		return c.audioBuses
+	case MediaTypeEvent:
+		return c.eventBuses
+	default:
+		return nil
+	}
+}
+
 // GetBusCount returns the number of buses for a given type and direction
 func (c *Configuration) GetBusCount(mediaType MediaType, direction Direction) int32 {
 	count := int32(0)
 
-	buses := c.audioBuses
-	if mediaType == MediaTypeEvent {
-		buses = c.eventBuses
-	}
+	buses := c.busesOf(mediaType)
 
 	for _, bus := range buses {
 		if bus.Direction == direction {
@@ -117,10 +126,7 @@ func (c *Configuration) GetBusCount(mediaType MediaType, direction Direction) in
 
 // GetBusInfo returns information about a specific bus
 func (c *Configuration) GetBusInfo(mediaType MediaType, direction Direction, index int32) *Info {
-	buses := c.audioBuses
-	if mediaType == MediaTypeEvent {
-		buses = c.eventBuses
-	}
+	buses := c.busesOf(mediaType)
 
 	busIndex := int32(0)
 	for i := range buses {
@@ -149,10 +155,7 @@ func (c *Configuration) AddEventBus(direction Direction, name string) {
 
 // SetBusActive activates or deactivates a specific bus
 func (c *Configuration) SetBusActive(mediaType MediaType, direction Direction, index int32, active bool) error {
-	buses := c.audioBuses
-	if mediaType == MediaTypeEvent {
-		buses = c.eventBuses
-	}
+	buses := c.busesOf(mediaType)
 
 	busIndex := int32(0)
 	for i := range buses {
@@ -192,10 +195,7 @@ func (c *Configuration) GetActiveOutputChannelCount() int32 {
 
 // GetActiveBuses returns all active buses of a given type and direction
 func (c *Configuration) GetActiveBuses(mediaType MediaType, direction Direction) []Info {
-	buses := c.audioBuses
-	if mediaType == MediaTypeEvent {
-		buses = c.eventBuses
-	}
+	buses := c.busesOf(mediaType)
 
 	var active []Info
 	for _, bus := range buses {
-- 
2.43.0


From 58c3839f8d5073d0d7aabd6b67ab6d30dfb6e62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 108/135] fix: a built bus configuration no longer changes when
 its builder is used again

---
 pkg/framework/bus/builder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/bus/builder.go b/pkg/framework/bus/builder.go
index 4aaef42..4abed01 100644
--- a/pkg/framework/bus/builder.go
+++ b/pkg/framework/bus/builder.go
@@ -222,7 +222,12 @@ func (b *Builder) Build() (*Configuration, error) {
 	if err := b.Validate(); err != nil {
 		return nil, err
 	}
-	return b.config, nil
+	// Hand out a copy: the builder may be used again, and neither further builder calls nor
+	// changes to another built configuration may reach this one.
+	return &Configuration{
+		audioBuses: append([]Info(nil), b.config.audioBuses...),
+		eventBuses: append([]Info(nil), b.config.eventBuses...),
+	}, nil
 }
 
 // MustBuild returns the built configuration or panics on error
-- 
2.43.0


From ef5a54a1d95e368d0493d30bbcfba7bbf15f8e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 109/135] fix: a built DSP chain no longer changes when its
 builder is used again

---
 pkg/framework/dsp/chain.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/dsp/chain.go b/pkg/framework/dsp/chain.go
index 4fc898b..2a1207f 100644
--- a/pkg/framework/dsp/chain.go
+++ b/pkg/framework/dsp/chain.go
@@ -269,7 +269,10 @@ func (b *Builder) Build() (*Chain, error) {
 	if b.chain.IsEmpty() {
 		return nil, fmt.Errorf("chain is empty")
 	}
-	return b.chain, nil
+	// Hand out a copy so that using the builder again does not change a chain in use
+	chain := *b.chain
+	chain.processors = append([]Processor(nil), b.chain.processors...)
+	return &chain, nil
 }
 
 // StereoBuilder provides a fluent API for building stereo DSP chains.
@@ -304,5 +307,8 @@ func (b *StereoBuilder) Build() (*StereoChain, error) {
 	if len(b.chain.processors) == 0 {
 		return nil, fmt.Errorf("stereo chain is empty")
 	}
-	return b.chain, nil
+	// Hand out a copy so that using the builder again does not change a chain in use
+	chain := *b.chain
+	chain.processors = append([]StereoProcessor(nil), b.chain.processors...)
+	return &chain, nil
 }
\ No newline at end of file
-- 
2.43.0


From 9dfa9e70510305f53bb2c5a64313adb088ff9fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 110/135] fix: ParallelChain.Process no longer allocates on
 every block

---
 pkg/framework/dsp/chain.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pkg/framework/dsp/chain.go b/pkg/framework/dsp/chain.go
index 2a1207f..8858271 100644
--- a/pkg/framework/dsp/chain.go
+++ b/pkg/framework/dsp/chain.go
@@ -170,6 +170,11 @@ type ParallelChain struct {
 	gains  []float32
 	name   string
 	bypass bool
+
+	// Scratch space, grown when a larger block arrives so that steady-state
+	// processing does not allocate
+	dry  []float32
+	temp []float32
 }
 
 // NewParallelChain creates a new parallel chain.
@@ -194,22 +199,22 @@ func (p *ParallelChain) Process(buffer []float32) {
 		return
 	}
 	
-	// Create temporary buffers for each chain
-	tempBuffers := make([][]float32, len(p.chains))
-	for i := range tempBuffers {
-		tempBuffers[i] = make([]float32, len(buffer))
-		copy(tempBuffers[i], buffer)
-	}
-	
-	// Process each chain
-	for i, chain := range p.chains {
-		chain.Process(tempBuffers[i])
+	if cap(p.dry) < len(buffer) {
+		p.dry = make([]float32, len(buffer))
+		p.temp = make([]float32, len(buffer))
 	}
+	dry, temp := p.dry[:len(buffer)], p.temp[:len(buffer)]
 	
-	// Mix results
+	copy(dry, buffer)
 	for i := range buffer {
 		buffer[i] = 0
-		for j, temp := range tempBuffers {
+	}
+	
+	// Process each chain on its own copy of the input and mix its result
+	for j, chain := range p.chains {
+		copy(temp, dry)
+		chain.Process(temp)
+		for i := range buffer {
 			buffer[i] += temp[i] * p.gains[j]
 		}
 	}
-- 
2.43.0


From 9a95a1115d9f7ec90635ef34c7ab7fd7a864f428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 111/135] fix: the global logging functions report their caller
 instead of logger.go

---
 pkg/framework/debug/logger.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/pkg/framework/debug/logger.go b/pkg/framework/debug/logger.go
index b6223d2..5c7ce52 100644
--- a/pkg/framework/debug/logger.go
+++ b/pkg/framework/debug/logger.go
@@ -158,8 +158,9 @@ func (l *Logger) IsEnabled() bool {
 	return l.enabled
 }
 
-// log writes a log message at the specified level.
-func (l *Logger) log(level LogLevel, format string, args ...interface{}) {
+// log writes a log message at the specified level. skip is the number of logging functions
+// between log and the code that is logging.
+func (l *Logger) log(skip int, level LogLevel, format string, args ...interface{}) {
 	l.mu.Lock()
 	defer l.mu.Unlock()
 	
@@ -187,7 +188,7 @@ func (l *Logger) log(level LogLevel, format string, args ...interface{}) {
 	
 	// Add file and line number
 	if l.flags&(FlagShortFile|FlagLongFile) != 0 {
-		_, file, line, ok := runtime.Caller(2) // Skip 2 frames: log() and Debug/Info/etc
+		_, file, line, ok := runtime.Caller(1 + skip) // Skip log() and the logging functions above it
 		if ok {
 			if l.flags&FlagShortFile != 0 {
 				file = filepath.Base(file)
@@ -211,27 +212,27 @@ func (l *Logger) log(level LogLevel, format string, args ...interface{}) {
 
 // Debug logs a debug message.
 func (l *Logger) Debug(format string, args ...interface{}) {
-	l.log(LogLevelDebug, format, args...)
+	l.log(1, LogLevelDebug, format, args...)
 }
 
 // Info logs an informational message.
 func (l *Logger) Info(format string, args ...interface{}) {
-	l.log(LogLevelInfo, format, args...)
+	l.log(1, LogLevelInfo, format, args...)
 }
 
 // Warn logs a warning message.
 func (l *Logger) Warn(format string, args ...interface{}) {
-	l.log(LogLevelWarn, format, args...)
+	l.log(1, LogLevelWarn, format, args...)
 }
 
 // Error logs an error message.
 func (l *Logger) Error(format string, args ...interface{}) {
-	l.log(LogLevelError, format, args...)
+	l.log(1, LogLevelError, format, args...)
 }
 
 // Fatal logs a fatal error message and panics.
 func (l *Logger) Fatal(format string, args ...interface{}) {
-	l.log(LogLevelFatal, format, args...)
+	l.log(1, LogLevelFatal, format, args...)
 	panic(fmt.Sprintf(format, args...))
 }
 
@@ -269,27 +270,28 @@ func SetEnabled(enabled bool) {
 
 // Debug logs a debug message using the default logger.
 func Debug(format string, args ...interface{}) {
-	defaultLogger.Debug(format, args...)
+	defaultLogger.log(1, LogLevelDebug, format, args...)
 }
 
 // Info logs an informational message using the default logger.
 func Info(format string, args ...interface{}) {
-	defaultLogger.Info(format, args...)
+	defaultLogger.log(1, LogLevelInfo, format, args...)
 }
 
 // Warn logs a warning message using the default logger.
 func Warn(format string, args ...interface{}) {
-	defaultLogger.Warn(format, args...)
+	defaultLogger.log(1, LogLevelWarn, format, args...)
 }
 
 // Error logs an error message using the default logger.
 func Error(format string, args ...interface{}) {
-	defaultLogger.Error(format, args...)
+	defaultLogger.log(1, LogLevelError, format, args...)
 }
 
 // Fatal logs a fatal error message using the default logger and panics.
 func Fatal(format string, args ...interface{}) {
-	defaultLogger.Fatal(format, args...)
+	defaultLogger.log(1, LogLevelFatal, format, args...)
+	panic(fmt.Sprintf(format, args...))
 }
 
 // Conditional logging helpers
@@ -297,20 +299,20 @@ func Fatal(format string, args ...interface{}) {
 // DebugIf logs a debug message if the condition is true.
 func DebugIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Debug(format, args...)
+		defaultLogger.log(1, LogLevelDebug, format, args...)
 	}
 }
 
 // WarnIf logs a warning message if the condition is true.
 func WarnIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Warn(format, args...)
+		defaultLogger.log(1, LogLevelWarn, format, args...)
 	}
 }
 
 // ErrorIf logs an error message if the condition is true.
 func ErrorIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Error(format, args...)
+		defaultLogger.log(1, LogLevelError, format, args...)
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 2ad77cb67d4e1087ec98cbb6cb54995547547656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 112/135] fix: logging a value whose String method logs no
 longer deadlocks

---
 pkg/framework/debug/logger.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/debug/logger.go b/pkg/framework/debug/logger.go
index 5c7ce52..7d0bb01 100644
--- a/pkg/framework/debug/logger.go
+++ b/pkg/framework/debug/logger.go
@@ -162,12 +162,18 @@ func (l *Logger) IsEnabled() bool {
 // between log and the code that is logging.
 func (l *Logger) log(skip int, level LogLevel, format string, args ...interface{}) {
 	l.mu.Lock()
-	defer l.mu.Unlock()
-	
-	if !l.enabled || level < l.level {
+	written := l.enabled && level >= l.level
+	l.mu.Unlock()
+	if !written {
 		return
 	}
 	
+	// Format the arguments before taking the lock: their String or Error methods may log too
+	msg := fmt.Sprintf(format, args...)
+	
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	
 	// Build the log message
 	var sb strings.Builder
 	
@@ -198,7 +204,6 @@ func (l *Logger) log(skip int, level LogLevel, format string, args ...interface{
 	}
 	
 	// Add the actual message
-	msg := fmt.Sprintf(format, args...)
 	sb.WriteString(msg)
 	
 	// Ensure newline
-- 
2.43.0


From 3fcebe13179e05efca6eec1a52200a158f246f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 113/135] fix: a measurement handed out by the profiler no
 longer races with recording

---
 pkg/framework/debug/profiler.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/debug/profiler.go b/pkg/framework/debug/profiler.go
index c85f486..275602e 100644
--- a/pkg/framework/debug/profiler.go
+++ b/pkg/framework/debug/profiler.go
@@ -116,8 +116,7 @@ func (p *Profiler) GetMeasurement(name string) (*Measurement, bool) {
 	}
 	
 	// Return a copy to avoid race conditions
-	copy := *m
-	return &copy, true
+	return m.snapshot(), true
 }
 
 // GetAllMeasurements returns all measurements.
@@ -127,8 +126,7 @@ func (p *Profiler) GetAllMeasurements() map[string]*Measurement {
 	
 	result := make(map[string]*Measurement)
 	for k, v := range p.measurements {
-		copy := *v
-		result[k] = &copy
+		result[k] = v.snapshot()
 	}
 	return result
 }
@@ -173,6 +171,13 @@ func (p *Profiler) Report() string {
 
 // Measurement methods
 
+// snapshot returns a copy that shares no memory with the measurement being recorded.
+func (m *Measurement) snapshot() *Measurement {
+	s := *m
+	s.samples = append([]time.Duration(nil), m.samples...)
+	return &s
+}
+
 // Average returns the average time for this measurement.
 func (m *Measurement) Average() time.Duration {
 	if m.count == 0 {
-- 
2.43.0


From 4e146dcb5e1f09a5ad800953726be4a87c3a2f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 114/135] fix: a profiler without a sample buffer no longer
 panics when it records

---
 pkg/framework/debug/profiler.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/debug/profiler.go b/pkg/framework/debug/profiler.go
index 275602e..bc721a9 100644
--- a/pkg/framework/debug/profiler.go
+++ b/pkg/framework/debug/profiler.go
@@ -33,6 +33,9 @@ var DefaultProfiler = NewProfiler(1000)
 
 // NewProfiler creates a new profiler with the specified sample buffer size.
 func NewProfiler(maxSamples int) *Profiler {
+	if maxSamples < 0 {
+		maxSamples = 0
+	}
 	p := &Profiler{
 		measurements: make(map[string]*Measurement),
 		maxSamples:   maxSamples,
@@ -101,8 +104,10 @@ func (p *Profiler) record(name string, elapsed time.Duration) {
 	}
 	
 	// Store sample
-	m.samples[m.sampleIndex] = elapsed
-	m.sampleIndex = (m.sampleIndex + 1) % p.maxSamples
+	if p.maxSamples > 0 {
+		m.samples[m.sampleIndex] = elapsed
+		m.sampleIndex = (m.sampleIndex + 1) % p.maxSamples
+	}
 }
 
 // GetMeasurement returns the measurement for a named section.
-- 
2.43.0


From c18c07d0c31250078aaf4d9822dadaae26c05b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 115/135] fix: Measurement.Percentile orders the samples and
 accepts any percentile

---
 pkg/framework/debug/profiler.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/debug/profiler.go b/pkg/framework/debug/profiler.go
index bc721a9..bc423e9 100644
--- a/pkg/framework/debug/profiler.go
+++ b/pkg/framework/debug/profiler.go
@@ -3,6 +3,7 @@ package debug
 
 import (
 	"fmt"
+	"sort"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -209,7 +210,13 @@ func (m *Measurement) Percentile(p float64) time.Duration {
 		return 0
 	}
 	
-	// Simple percentile calculation (not fully accurate but fast)
+	// Nearest-rank percentile of the ordered samples
+	sort.Slice(validSamples, func(i, j int) bool { return validSamples[i] < validSamples[j] })
+	if !(p > 0) {
+		p = 0
+	} else if p > 100 {
+		p = 100
+	}
 	index := int(float64(len(validSamples)-1) * p / 100.0)
 	return validSamples[index]
 }
-- 
2.43.0


From 1ec9391446e93d08e54923490558bad2ea707f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 116/135] fix: UpdateCPULoad without a block length or sample
 rate leaves the load alone

---
 pkg/framework/debug/profiler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/framework/debug/profiler.go b/pkg/framework/debug/profiler.go
index bc423e9..9d1dfda 100644
--- a/pkg/framework/debug/profiler.go
+++ b/pkg/framework/debug/profiler.go
@@ -278,7 +278,13 @@ func (a *AudioProcessProfiler) UpdateCPULoad() {
 	}
 	
 	// Calculate expected buffer duration
+	if a.bufferSize <= 0 || !(a.sampleRate > 0) {
+		return
+	}
 	bufferDuration := time.Duration(float64(a.bufferSize) / a.sampleRate * float64(time.Second))
+	if bufferDuration <= 0 {
+		return
+	}
 	
 	// Calculate CPU load as percentage of buffer duration
 	avgProcessTime := m.Average()
-- 
2.43.0


From cdcbf38286c10378d8ce5cc8cd62eafe1d187e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 117/135] fix: AudioAnalyzer computes the RMS of very large and
 very small samples

---
 pkg/framework/debug/audio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/framework/debug/audio.go b/pkg/framework/debug/audio.go
index 0a3d445..6c265bc 100644
--- a/pkg/framework/debug/audio.go
+++ b/pkg/framework/debug/audio.go
@@ -82,7 +82,7 @@ func (a *AudioAnalyzer) Analyze(buffer []float32) AnalysisResult {
 		
 		// Accumulate for RMS and DC
 		sum += float64(sample)
-		sumSquares += float64(sample * sample)
+		sumSquares += float64(sample) * float64(sample)
 		dcSum += float64(absSample)
 		
 		// Count zero crossings
-- 
2.43.0


From 87b578a76ffe3bb7f5ff5afbf3a3b320f489d1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 118/135] fix: CompareBuffers reports a NaN on one side as a
 difference

---
 pkg/framework/debug/audio.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/framework/debug/audio.go b/pkg/framework/debug/audio.go
index 6c265bc..c86a554 100644
--- a/pkg/framework/debug/audio.go
+++ b/pkg/framework/debug/audio.go
@@ -188,10 +188,16 @@ func CompareBuffers(a, b []float32, tolerance float32) string {
 	var diffCount int
 	
 	for i := 0; i < len(a); i++ {
+		if a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]) {
+			continue // the same value, infinities and NaN included
+		}
 		diff := a[i] - b[i]
 		if diff < 0 {
 			diff = -diff
 		}
+		if diff != diff {
+			diff = float32(math.Inf(1)) // NaN on one side only
+		}
 		
 		if diff > tolerance {
 			diffCount++
-- 
2.43.0


From c90b6936bccc5d9647b156f5bdf83db4a4f6ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 119/135] fix: DumpBuffer shows the position of a full-scale
 sample

---
 pkg/framework/debug/audio.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/framework/debug/audio.go b/pkg/framework/debug/audio.go
index c86a554..0726521 100644
--- a/pkg/framework/debug/audio.go
+++ b/pkg/framework/debug/audio.go
@@ -282,6 +282,9 @@ func DumpBuffer(buffer []float32, maxSamples int) string {
 		
 		barPos := int((normalized + 1.0) * float32(barWidth) / 2.0)
 		bar := strings.Repeat(" ", barWidth)
+		if barPos == barWidth {
+			barPos = barWidth - 1 // full scale is the last position
+		}
 		if barPos >= 0 && barPos < barWidth {
 			bar = bar[:barPos] + "|" + bar[barPos+1:]
 		}
-- 
2.43.0


From 26a4a6fad902701eb5318ff6d419a7fc542ed94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 120/135] fix: PrintBuffer shows the end of a buffer that is no
 multiple of the width

---
 pkg/framework/debug/audio.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/framework/debug/audio.go b/pkg/framework/debug/audio.go
index 0726521..e368a62 100644
--- a/pkg/framework/debug/audio.go
+++ b/pkg/framework/debug/audio.go
@@ -136,22 +136,22 @@ func PrintBuffer(buffer []float32, width int) string {
 	var sb strings.Builder
 	sb.WriteString(fmt.Sprintf("Audio Buffer Visualization (peak: %.3f):\n", peak))
 	
-	// Calculate samples per character
-	samplesPerChar := len(buffer) / width
-	if samplesPerChar < 1 {
-		samplesPerChar = 1
+	// The columns share the whole buffer between them
+	columns := width
+	if columns > len(buffer) {
+		columns = len(buffer)
 	}
 	
 	// Generate waveform
 	centerLine := 40 // Height of visualization
 	halfHeight := centerLine / 2
 	
-	for i := 0; i < width && i*samplesPerChar < len(buffer); i++ {
+	for i := 0; i < columns; i++ {
 		// Average samples for this position
 		sum := float32(0)
 		count := 0
-		for j := 0; j < samplesPerChar && i*samplesPerChar+j < len(buffer); j++ {
-			sum += buffer[i*samplesPerChar+j]
+		for j := i * len(buffer) / columns; j < (i+1)*len(buffer)/columns; j++ {
+			sum += buffer[j]
 			count++
 		}
 		avg := sum / float32(count)
-- 
2.43.0


From 429acc00f7cc2b4a57b495464b6463fbeba3bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 121/135] fix: DetectAllocation sees allocations that a garbage
 collection frees again

---
 pkg/dsp/debug/buffer_debug.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/debug/buffer_debug.go b/pkg/dsp/debug/buffer_debug.go
index f707296..f44dced 100644
--- a/pkg/dsp/debug/buffer_debug.go
+++ b/pkg/dsp/debug/buffer_debug.go
@@ -191,8 +191,9 @@ func DetectAllocation(fn func()) {
 	
 	runtime.ReadMemStats(&m2)
 	
-	if m2.Alloc > m1.Alloc {
-		panic(fmt.Sprintf("Allocation detected! %d bytes allocated", m2.Alloc-m1.Alloc))
+	// The cumulative counters: a collection inside fn frees memory but not the count
+	if m2.Mallocs > m1.Mallocs {
+		panic(fmt.Sprintf("Allocation detected! %d bytes allocated", m2.TotalAlloc-m1.TotalAlloc))
 	}
 }
 
-- 
2.43.0


From cd4721adb5917dfa1c395859bf232827469a3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 122/135] fix: a state saved while parameters are added counts
 the parameters it writes

---
 pkg/framework/state/manager.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/state/manager.go b/pkg/framework/state/manager.go
index 906b731..4fb0184 100644
--- a/pkg/framework/state/manager.go
+++ b/pkg/framework/state/manager.go
@@ -59,13 +59,14 @@ func (m *Manager) Save(w io.Writer) error {
 	}
 
 	// Write parameter count
-	paramCount := m.registry.Count()
+	params := m.registry.All()
+	paramCount := int32(len(params))
 	if err := binary.Write(w, binary.LittleEndian, paramCount); err != nil {
 		return err
 	}
 
 	// Write each parameter
-	for _, param := range m.registry.All() {
+	for _, param := range params {
 		// Write ID
 		if err := binary.Write(w, binary.LittleEndian, param.ID); err != nil {
 			return err
-- 
2.43.0


From 2e7d9297cb9a868fbeb1b170edeb89e555befc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 123/135] fix: lowering the voice limit releases the voices it
 excludes

---
 pkg/framework/voice/allocator.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 881bb04..6dc6438 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -112,6 +112,23 @@ func (a *Allocator) SetMaxVoices(max int) {
 		max = 1
 	}
 	a.maxVoices = max
+
+	// Voices the limit excludes now would otherwise go on playing past it
+	for note, voices := range a.noteToVoice {
+		kept := make([]int, 0, len(voices))
+		for _, idx := range voices {
+			if idx < max {
+				kept = append(kept, idx)
+			} else if a.voices[idx].IsActive() {
+				a.voices[idx].ReleaseNote()
+			}
+		}
+		if len(kept) > 0 {
+			a.noteToVoice[note] = kept
+		} else {
+			delete(a.noteToVoice, note)
+		}
+	}
 }
 
 // SetUnisonDetune sets the detune amount for unison mode (in cents)
-- 
2.43.0


From 8fbad8d1257acfbe6de27dcdd53aee195f6816df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 124/135] fix: filters stay stable when the frequency reaches
 half the sample rate

---
 pkg/dsp/filter/biquad.go | 22 ++++++++++++++--------
 pkg/dsp/filter/svf.go    |  2 +-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/dsp/filter/biquad.go b/pkg/dsp/filter/biquad.go
index 1758fcc..e92cf17 100644
--- a/pkg/dsp/filter/biquad.go
+++ b/pkg/dsp/filter/biquad.go
@@ -90,9 +90,15 @@ func (b *Biquad) ProcessMulti(buffers [][]float32) {
 
 // Design functions for common filter types
 
+// belowNyquist limits a corner frequency to the range where a filter design is
+// stable: at or above half the sample rate the poles leave the unit circle.
+func belowNyquist(sampleRate, frequency float64) float64 {
+	return math.Min(frequency, 0.499*sampleRate)
+}
+
 // SetLowpass configures as a lowpass filter
 func (b *Biquad) SetLowpass(sampleRate, frequency, q float64) {
-	omega := 2.0 * math.Pi * frequency / sampleRate
+	omega := 2.0 * math.Pi * belowNyquist(sampleRate, frequency) / sampleRate
 	sinOmega := math.Sin(omega)
 	cosOmega := math.Cos(omega)
 	alpha := sinOmega / (2.0 * q)
@@ -110,7 +116,7 @@ func (b *Biquad) SetLowpass(sampleRate, frequency, q float64) {
 
 // SetHighpass configures as a highpass filter
 func (b *Biquad) SetHighpass(sampleRate, frequency, q float64) {
-	omega := 2.0 * math.Pi * frequency / sampleRate
+	omega := 2.0 * math.Pi * belowNyquist(sampleRate, frequency) / sampleRate
 	sinOmega := math.Sin(omega)
 	cosOmega := math.Cos(omega)
 	alpha := sinOmega / (2.0 * q)
@@ -128,7 +134,7 @@ func (b *Biquad) SetHighpass(sampleRate, frequency, q float64) {
 
 // SetBandpass configures as a bandpass filter (constant skirt gain)
 func (b *Biquad) SetBandpass(sampleRate, frequency, q float64) {
-	omega := 2.0 * math.Pi * frequency / sampleRate
+	omega := 2.0 * math.Pi * belowNyquist(sampleRate, frequency) / sampleRate
 	sinOmega := math.Sin(omega)
 	cosOmega := math.Cos(omega)
 	alpha := sinOmega / (2.0 * q)
@@ -146,7 +152,7 @@ func (b *Biquad) SetBandpass(sampleRate, frequency, q float64) {
 
 // SetNotch configures as a notch (band-reject) filter
 func (b *Biquad) SetNotch(sampleRate, frequency, q float64) {
-	omega := 2.0 * math.Pi * frequency / sampleRate
+	omega := 2.0 * math.Pi * belowNyquist(sampleRate, frequency) / sampleRate
 	sinOmega := math.Sin(omega)
 	cosOmega := math.Cos(omega)
 	alpha := sinOmega / (2.0 * q)
@@ -164,7 +170,7 @@ func (b *Biquad) SetNotch(sampleRate, frequency, q float64) {
 
 // SetAllpass configures as an allpass filter
 func (b *Biquad) SetAllpass(sampleRate, frequency, q float64) {
-	omega := 2.0 * math.Pi * frequency / sampleRate
+	omega := 2.0 * math.Pi * belowNyquist(sampleRate, frequency) / sampleRate
 	sinOmega := math.Sin(omega)
 	cosOmega := math.Cos(omega)
 	alpha := sinOmega / (2.0 * q)
@@ -182,7 +188,7 @@ func (b *Biquad) SetAllpass(sampleRate, frequency, q float64) {
 
 // SetPeakingEQ configures as a peaking EQ filter
 func (b *Biquad) SetPeakingEQ(sampleRate, frequency, q, gainDB float64) {
-	omega := 2.0 * math.Pi * frequency / sampleRate
+	omega := 2.0 * math.Pi * belowNyquist(sampleRate, frequency) / sampleRate
 	sinOmega := math.Sin(omega)
 	cosOmega := math.Cos(omega)
 	A := math.Pow(10.0, gainDB/40.0)
@@ -201,7 +207,7 @@ func (b *Biquad) SetPeakingEQ(sampleRate, frequency, q, gainDB float64) {
 
 // SetLowShelf configures as a low shelf filter
 func (b *Biquad) SetLowShelf(sampleRate, frequency, q, gainDB float64) {
-	omega := 2.0 * math.Pi * frequency / sampleRate
+	omega := 2.0 * math.Pi * belowNyquist(sampleRate, frequency) / sampleRate
 	sinOmega := math.Sin(omega)
 	cosOmega := math.Cos(omega)
 	A := math.Pow(10.0, gainDB/40.0)
@@ -223,7 +229,7 @@ func (b *Biquad) SetLowShelf(sampleRate, frequency, q, gainDB float64) {
 
 // SetHighShelf configures as a high shelf filter
 func (b *Biquad) SetHighShelf(sampleRate, frequency, q, gainDB float64) {
-	omega := 2.0 * math.Pi * frequency / sampleRate
+	omega := 2.0 * math.Pi * belowNyquist(sampleRate, frequency) / sampleRate
 	sinOmega := math.Sin(omega)
 	cosOmega := math.Cos(omega)
 	A := math.Pow(10.0, gainDB/40.0)
diff --git a/pkg/dsp/filter/svf.go b/pkg/dsp/filter/svf.go
index ef4f400..aa33bd5 100644
--- a/pkg/dsp/filter/svf.go
+++ b/pkg/dsp/filter/svf.go
@@ -43,7 +43,7 @@ func (s *SVF) Reset() {
 // SetFrequency sets the filter frequency
 func (s *SVF) SetFrequency(sampleRate, frequency float64) {
 	// Pre-warp the frequency for the bilinear transform
-	omega := math.Tan(math.Pi * frequency / sampleRate)
+	omega := math.Tan(math.Pi * belowNyquist(sampleRate, frequency) / sampleRate)
 	s.g = float32(omega)
 }
 
-- 
2.43.0


From cc26050b2bb277da9b88a32c3ecafcb8f3c9eae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 125/135] fix: setting the gate range it already has keeps the
 release

---
 pkg/dsp/dynamics/gate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/dynamics/gate.go b/pkg/dsp/dynamics/gate.go
index 0a3d589..c15a994 100644
--- a/pkg/dsp/dynamics/gate.go
+++ b/pkg/dsp/dynamics/gate.go
@@ -115,7 +115,11 @@ func (g *Gate) SetRelease(seconds float64) {
 
 // SetRange sets the gate range (max attenuation) in dB
 func (g *Gate) SetRange(dB float64) {
-	g.range_ = math.Min(0.0, dB) // Can't be positive
+	dB = math.Min(0.0, dB) // Can't be positive
+	if dB == g.range_ {
+		return // Setting the same range again does not cut the release short
+	}
+	g.range_ = dB
 
 	// Update current gain if gate is closed
 	if g.state == gateStateClosed {
-- 
2.43.0


From da9ba4efd4fa28fb407be2958e3ef66bc3b38ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 126/135] fix: gate sidechain filter hears the signal of the
 louder channel

---
 pkg/dsp/dynamics/gate.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/dynamics/gate.go b/pkg/dsp/dynamics/gate.go
index c15a994..d918715 100644
--- a/pkg/dsp/dynamics/gate.go
+++ b/pkg/dsp/dynamics/gate.go
@@ -289,8 +289,12 @@ func (g *Gate) ProcessBuffer(input, output []float32) {
 // ProcessStereo processes stereo buffers with linked gating
 func (g *Gate) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 	for i := range inputL {
-		// Use maximum of both channels for detection
-		maxInput := float32(math.Max(math.Abs(float64(inputL[i])), math.Abs(float64(inputR[i]))))
+		// Use the louder channel for detection, as a signal: the sidechain filter would
+		// not recognize the frequencies of its magnitude
+		maxInput := inputL[i]
+		if math.Abs(float64(inputR[i])) > math.Abs(float64(maxInput)) {
+			maxInput = inputR[i]
+		}
 
 		// Apply sidechain filter
 		detection := g.applySidechainFilter(maxInput)
-- 
2.43.0


From 556639bbc70303ea503b4b926fefbd01ee68485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 127/135] fix: setting the chorus delay or voices it already
 has keeps the sound

---
 pkg/dsp/modulation/chorus.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/modulation/chorus.go b/pkg/dsp/modulation/chorus.go
index 7e85664..288f5cc 100644
--- a/pkg/dsp/modulation/chorus.go
+++ b/pkg/dsp/modulation/chorus.go
@@ -69,7 +69,11 @@ func (c *Chorus) SetDepth(ms float64) {
 
 // SetDelay sets the base delay time in milliseconds
 func (c *Chorus) SetDelay(ms float64) {
-	c.delay = math.Max(1.0, math.Min(50.0, ms))
+	ms = math.Max(1.0, math.Min(50.0, ms))
+	if ms == c.delay {
+		return // Keep the signal in the delay lines
+	}
+	c.delay = ms
 	c.updateDelayLines()
 }
 
@@ -91,6 +95,9 @@ func (c *Chorus) SetSpread(spread float64) {
 // SetVoices sets the number of chorus voices (1-4)
 func (c *Chorus) SetVoices(voices int) {
 	c.voices = max(1, min(4, voices))
+	if c.voices == len(c.lfos) {
+		return // Keep the voices running
+	}
 
 	// Create LFOs for each voice
 	c.lfos = make([]*LFO, c.voices)
-- 
2.43.0


From 446233e597117d6311a5f4db0d74b55d6e2ef128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 128/135] fix: setting the flanger delay it already has keeps
 the sound

---
 pkg/dsp/modulation/flanger.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/modulation/flanger.go b/pkg/dsp/modulation/flanger.go
index 3eafc84..a070d8d 100644
--- a/pkg/dsp/modulation/flanger.go
+++ b/pkg/dsp/modulation/flanger.go
@@ -68,7 +68,11 @@ func (f *Flanger) SetDepth(ms float64) {
 
 // SetDelay sets the center delay time in milliseconds
 func (f *Flanger) SetDelay(ms float64) {
-	f.delay = math.Max(0.1, math.Min(10.0, ms))
+	ms = math.Max(0.1, math.Min(10.0, ms))
+	if ms == f.delay {
+		return // Keep the signal in the delay line
+	}
+	f.delay = ms
 	f.updateDelayLine()
 }
 
-- 
2.43.0


From 15dae2422129c857c1e0f33cf9335a7e7fba3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 129/135] fix: setting the phaser stages it already has keeps
 the sound

---
 pkg/dsp/modulation/phaser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dsp/modulation/phaser.go b/pkg/dsp/modulation/phaser.go
index 43f4813..041f4fd 100644
--- a/pkg/dsp/modulation/phaser.go
+++ b/pkg/dsp/modulation/phaser.go
@@ -143,6 +143,9 @@ func (p *Phaser) SetStages(stages int) {
 	}
 
 	p.stages = stages
+	if stages == len(p.filters) {
+		return // Keep the state of the filters
+	}
 	p.updateStages()
 }
 
-- 
2.43.0


From 00ec38ec9946ce9538ddae15745aee5eac4cbc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 130/135] fix: bypass parameters carry the bypass flag

---
 pkg/framework/param/builders.go      |  2 +-
 pkg/framework/param/registry_auto.go | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index 9fb7b19..2339be1 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -324,7 +324,7 @@ func BypassParameter(id uint32, name string) *Builder {
 	return Choice(id, name, []ChoiceOption{
 		{Value: 0, Name: "Active"},
 		{Value: 1, Name: "Bypassed"},
-	})
+	}).Bypass() // the host finds the bypass by its flag
 }
 
 // Helper function to parse float with error handling
diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index 4f9a721..93b0382 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -186,6 +186,14 @@ func (r *AutoRegistry) RegisterStandardControls() error {
 		Build()
 }
 
+// onOffParameter creates a switch that, unlike a bypass, is on at its upper value
+func onOffParameter(name string) *Builder {
+	return Choice(0, name, []ChoiceOption{
+		{Value: 0, Name: "Off"},
+		{Value: 1, Name: "On"},
+	})
+}
+
 // RegisterCompressorControls registers standard compressor parameters
 func (r *AutoRegistry) RegisterCompressorControls() error {
 	return NewRegistryBuilder(r).
@@ -198,7 +206,7 @@ func (r *AutoRegistry) RegisterCompressorControls() error {
 			Default(2).
 			Formatter(func(v float64) string { return fmt.Sprintf("%.1f dB", v) }, DecibelParser).
 			Build()).
-		Add(BypassParameter(0, "Auto Gain").Build()).
+		Add(onOffParameter("Auto Gain").Build()).
 		Build()
 }
 
@@ -216,7 +224,7 @@ func (r *AutoRegistry) RegisterEQBand(bandNumber int) error {
 	}
 	
 	return NewRegistryBuilder(r).
-		Add(BypassParameter(0, prefix+" Enable").Build()).
+		Add(onOffParameter(prefix+" Enable").Build()).
 		Add(FrequencyParameter(0, prefix+" Frequency", 20, 20000, 1000).Build()).
 		Add(GainParameter(0, prefix+" Gain").Build()).
 		Add(QParameter(0, prefix+" Q", 0.1, 10, 0.7).Build()).
-- 
2.43.0


From ca47734111192bdfe86462c919665d2ee70bf8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 131/135] fix: percentages are read with a space before the
 sign

---
 pkg/framework/param/formatters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/framework/param/formatters.go b/pkg/framework/param/formatters.go
index 9875457..fe51112 100644
--- a/pkg/framework/param/formatters.go
+++ b/pkg/framework/param/formatters.go
@@ -64,7 +64,7 @@ func PercentFormatter(value float64) string {
 // PercentParser parses percentage strings
 func PercentParser(str string) (float64, error) {
 	str = strings.TrimSuffix(strings.TrimSpace(str), "%")
-	return strconv.ParseFloat(str, 64)
+	return strconv.ParseFloat(strings.TrimSpace(str), 64)
 }
 
 // TimeFormatter formats time values with appropriate units
-- 
2.43.0


From 1b9528ababda37ef4689cd245522fbb9480547f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 132/135] fix: B sharp and C flat are read in the octave of
 their letter

---
 pkg/framework/param/formatters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/formatters.go b/pkg/framework/param/formatters.go
index fe51112..2d684f8 100644
--- a/pkg/framework/param/formatters.go
+++ b/pkg/framework/param/formatters.go
@@ -172,7 +172,7 @@ func NoteParser(str string) (float64, error) {
 	str = strings.ToUpper(strings.TrimSpace(str))
 
 	noteMap := map[string]int{
-		"C": 0, "B#": 0,
+		"C": 0, "B#": 12, // B# and Cb lie in the octave of their letter
 		"C#": 1, "DB": 1,
 		"D":  2,
 		"D#": 3, "EB": 3,
@@ -183,7 +183,7 @@ func NoteParser(str string) (float64, error) {
 		"G#": 8, "AB": 8,
 		"A":  9,
 		"A#": 10, "BB": 10,
-		"B": 11, "CB": 11,
+		"B": 11, "CB": -1,
 	}
 
 	// Find where the octave number starts
-- 
2.43.0


From 8779f7427eb705fdcdb71689bacce901642ebd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 133/135] fix: DC blocker keeps low cutoffs

A cutoff of 5 Hz, which the constructor calls typical, became 7 Hz at
44.1 kHz and 30 Hz at 192 kHz: the pole was held at 0.999.
---
 pkg/dsp/utility/dcblocker.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/utility/dcblocker.go b/pkg/dsp/utility/dcblocker.go
index ff15885..b6f16f0 100644
--- a/pkg/dsp/utility/dcblocker.go
+++ b/pkg/dsp/utility/dcblocker.go
@@ -24,8 +24,8 @@ func NewDCBlocker(channels int, cutoffHz float32, sampleRate float64) *DCBlocker
 	if R < 0.9 {
 		R = 0.9
 	}
-	if R > 0.999 {
-		R = 0.999
+	if R > 0.99999 {
+		R = 0.99999
 	}
 	
 	return &DCBlocker{
@@ -97,8 +97,8 @@ func (dc *DCBlocker) SetCutoff(cutoffHz float32, sampleRate float64) {
 	if R < 0.9 {
 		R = 0.9
 	}
-	if R > 0.999 {
-		R = 0.999
+	if R > 0.99999 {
+		R = 0.99999
 	}
 	
 	dc.coefficient = R
-- 
2.43.0


From b0de1149a3abda0841bdb3aed86533f5470ad7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 134/135] fix: smoothed parameters follow edits made past the
 smoother

---
 pkg/framework/param/smoother.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index ab2edae..ee771b2 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -205,6 +205,8 @@ func (sp *SmoothedParameter) SetValue(value float64) {
 // GetSmoothedValue returns the current smoothed value.
 func (sp *SmoothedParameter) GetSmoothedValue() float64 {
 	if sp.enabled {
+		// The parameter may have been set by the host or through the registry
+		sp.smoother.SetTarget(sp.GetPlainValue())
 		return sp.smoother.Next()
 	}
 	return sp.GetPlainValue()
-- 
2.43.0


From 595949cef0cc476c8949e273eb28fead1a77196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:39 +0000
Subject: [PATCH 135/135] fix: a refused RegisterWithID leaves the parameter's
 ID alone

---
 pkg/framework/param/registry_auto.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index 93b0382..1e97c9a 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -75,14 +75,14 @@ func (r *AutoRegistry) RegisterWithID(id uint32, param *Parameter) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 	
-	// Force the ID
-	param.ID = id
-	
 	// Check for conflicts
 	if existing, exists := r.params[id]; exists {
 		return fmt.Errorf("parameter ID %d already used by '%s'", id, existing.Name)
 	}
 	
+	// Force the ID
+	param.ID = id
+	
 	// Update next ID if necessary
 	if id >= r.nextID.Load() {
 		r.nextID.Store(id + 1)
-- 
2.43.0

