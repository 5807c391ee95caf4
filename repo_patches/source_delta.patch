From 4fbdda9e16ceb52444e178301a0fbb7391edd7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 01/52] fix: RollingMean never recovered from an infinite value

The running sum turned into NaN as soon as an infinite value (the level of a
block of zero samples in dB) left the window. The mean of the noise floor was
lost for good and no signal was detected anymore.
---
 dsp/dsp.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index 56015cb..569533b 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -255,11 +255,13 @@ func NewRollingMean[T Number](n int) *RollingMean[T] {
 
 // Put a new value into the rolling window and get the new mean back.
 func (v *RollingMean[T]) Put(value T) T {
-	v.sumForMean -= v.values[v.next]
-
 	v.values[v.next] = value
 
-	v.sumForMean += v.values[v.next]
+	// sum up all values, a running sum would never recover from an infinite value
+	v.sumForMean = 0
+	for _, x := range v.values {
+		v.sumForMean += x
+	}
 	v.mean = v.sumForMean / v.n
 
 	v.next = (v.next + 1) % len(v.values)
-- 
2.43.0


From 99677e85f6544cd3bbebf92426f0b7f9f11994fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 02/52] fix: RollingVariance calculated a wrong variance

The squared deviations in the running sum refer to different mean values.
---
 dsp/dsp.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index 569533b..530e3db 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -203,16 +203,18 @@ func NewRollingVariance[T Number](n int) *RollingVariance[T] {
 
 // Put a new value into the rolling window and get the new variance back.
 func (v *RollingVariance[T]) Put(value T) T {
-	v.sumForMean -= v.values[v.next]
-	oldSummand := (v.values[v.next] - v.mean)
-	v.sumForVariance -= oldSummand * oldSummand
-
 	v.values[v.next] = value
 
-	v.sumForMean += v.values[v.next]
+	v.sumForMean = 0
+	for _, x := range v.values {
+		v.sumForMean += x
+	}
 	v.mean = v.sumForMean / v.n
-	newSummand := (v.values[v.next] - v.mean)
-	v.sumForVariance += newSummand * newSummand
+	v.sumForVariance = 0
+	for _, x := range v.values {
+		summand := x - v.mean
+		v.sumForVariance += summand * summand
+	}
 	v.variance = v.sumForVariance / v.n
 
 	v.next = (v.next + 1) % len(v.values)
-- 
2.43.0


From db53e230de4c29c1c251f0db9087427aad116171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 03/52] fix: Peak.ContainsBin was true only for the single bin
 of a one bin wide peak

---
 dsp/fft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 2ee36ec..377e0f6 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -209,7 +209,7 @@ func (p Peak[T, F]) WidthHz() F {
 
 // ContainsBin indicates if the given bin is within this peak.
 func (p Peak[T, F]) ContainsBin(bin int) bool {
-	return p.From >= bin && p.To <= bin
+	return p.From <= bin && bin <= p.To
 }
 
 func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
-- 
2.43.0


From 7803d44173ae02cc805f9736f9b3699b627ca5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 04/52] fix: Block.Max considered the first bin of the block,
 even if it is not in the given section

---
 dsp/fft.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 377e0f6..991f2fc 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -163,8 +163,8 @@ func (b Block[T]) Mean(from, to int) T {
 
 // Max imum value in the given section of this block.
 func (b Block[T]) Max(from, to int) (T, int) {
-	maxValue := b[0]
-	maxI := 0
+	maxValue := b[from]
+	maxI := from
 	for i := from; i <= to; i++ {
 		if maxValue < b[i] {
 			maxValue = b[i]
-- 
2.43.0


From ae0ccfe4f415e1294050c36e8a020b15c4a5bc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 05/52] fix: FrequencyToBin returned the neighbour bin for the
 lower half of each bin

BinToFrequency puts the center of a bin to multiples of the bin size, a
frequency belongs to the bin with the nearest center.
---
 dsp/fft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 991f2fc..6111e07 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -130,7 +130,7 @@ func (m *FrequencyMapping[F]) BinToFrequency(bin int, location BinLocation) F {
 }
 
 func (m *FrequencyMapping[F]) FrequencyToBin(frequency F) int {
-	bin := int((float64(frequency) - float64(m.fromFrequency)) / m.binSize)
+	bin := int(math.Round((float64(frequency) - float64(m.fromFrequency)) / m.binSize))
 	return max(0, min(bin, m.blockSize-1))
 }
 
-- 
2.43.0


From effb48d5323c587241d2e9153f11863afc9f8cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 06/52] fix: FindNoiseFloor ignored the last section and took
 the variance of one bin too many

---
 dsp/fft.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 6111e07..76ac681 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -226,6 +226,8 @@ func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
 		if count == 0 {
 			from = i
 		}
+		sum += float64(psd[i])
+		count++
 		if count == windowSize {
 			count = 0
 			mean := sum / float64(windowSize)
@@ -238,8 +240,6 @@ func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
 			}
 			sum = 0
 		}
-		sum += float64(psd[i])
-		count++
 	}
 
 	sum = 0
-- 
2.43.0


From 4702854c569b68d6f7a31c0979b1eb5cbdf9d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 07/52] fix: announced spots showed the local time if the
 timestamp was not in UTC

The line marks the time as zulu time.
---
 telnet/telnet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 4b11e48..b7860af 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -174,7 +174,7 @@ func (s *Server) registerSpot(hash spotHash, timestamp time.Time) {
 
 func (s *Server) formatSpotMessage(callsign string, frequency float64, msg string, timestamp time.Time) string {
 	prefix := fmt.Sprintf("DX de %s:", s.mycall)
-	return fmt.Sprintf("%-16s% 6.1f  %-13s%-31s%-4sz\n", prefix, frequency/1000.0, callsign, msg, timestamp.Format("1504"))
+	return fmt.Sprintf("%-16s% 6.1f  %-13s%-31s%-4sz\n", prefix, frequency/1000.0, callsign, msg, timestamp.UTC().Format("1504"))
 }
 
 var ErrClosed = errors.New("connection already closed")
-- 
2.43.0


From f4c7c48bc3239704bb2122ae9026996eca385c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 08/52] fix: the telnet welcome garbled every character beyond
 ASCII

Converting a single byte to a string takes it as a code point and encodes it
again.
---
 telnet/telnet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index b7860af..6cefbb2 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -329,7 +329,7 @@ func (c *Connection) parseAnswerByte(answerByte byte) (string, *Prompt) {
 		c.currentAnswer = ""
 		return response, nextPrompt
 	default:
-		c.currentAnswer += string(answerByte)
+		c.currentAnswer += string([]byte{answerByte})
 		return "", nil
 	}
 }
-- 
2.43.0


From 080d37773893494127b95d604cf1282fe5d8b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 09/52] fix: stopping the telnet server left its port occupied
 and blocked later spots

The listening socket was never closed, the second spot after the stop blocked
forever, and two concurrent calls of Stop closed the same channel twice.
---
 telnet/telnet.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 6cefbb2..9176544 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"sync"
 	"time"
 )
 
@@ -39,8 +40,9 @@ type Server struct {
 	silencePeriod time.Duration
 
 	msg    chan []byte
-	close  chan struct{}
-	closed chan struct{}
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 }
 
 func NewServer(address string, mycall string, version string) (*Server, error) {
@@ -79,6 +81,7 @@ func (s *Server) run() {
 	for {
 		select {
 		case <-s.close:
+			s.listener.Close()
 			for _, conn := range s.connections {
 				conn.Close()
 			}
@@ -143,7 +146,7 @@ func (s *Server) Stop() {
 	case <-s.closed:
 		return
 	default:
-		close(s.close)
+		s.closeOnce.Do(func() { close(s.close) })
 		<-s.closed
 	}
 }
@@ -155,8 +158,11 @@ func (s *Server) SetSilencePeriod(silencePeriod time.Duration) {
 func (s *Server) Spot(callsign string, frequency float64, msg string, timestamp time.Time) {
 	hash := newSpotHash(callsign, frequency)
 	if s.shouldAnnounce(hash, timestamp) {
-		s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp))
-		s.registerSpot(hash, timestamp)
+		select {
+		case s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp)):
+			s.registerSpot(hash, timestamp)
+		case <-s.closed:
+		}
 	}
 }
 
-- 
2.43.0


From c7f11f3f4c547aea5eef33bd071b986ce0b9ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 10/52] fix: a telnet client that stopped reading blocked the
 server and all spotting

The server waited for the loop of the connection, which waited for the socket.
Now the connection is closed if it does not take a message within a second, and
closing a connection ends its pending write. The loops of a connection do not
wait for each other after its end anymore.
---
 telnet/telnet.go | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 9176544..327ac66 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -16,6 +16,7 @@ import (
 const (
 	newConnectionDeadline     = 100 * time.Millisecond
 	connectionKeepAlivePeriod = 30 * time.Second
+	writeTimeout              = 1 * time.Second
 	readBufferSize            = 1024
 	defaultSpotSilencePeriod  = 4 * time.Minute
 )
@@ -39,7 +40,7 @@ type Server struct {
 	lastSpots     map[spotHash]time.Time
 	silencePeriod time.Duration
 
-	msg    chan []byte
+	msg       chan []byte
 	close     chan struct{}
 	closeOnce sync.Once
 	closed    chan struct{}
@@ -198,8 +199,9 @@ type Connection struct {
 	currentPrompt *Prompt
 	currentAnswer string
 
-	close  chan struct{}
-	closed chan struct{}
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 
 	user string
 }
@@ -226,12 +228,7 @@ func NewConnection(conn io.ReadWriteCloser, welcome string) *Connection {
 
 func (c *Connection) run() {
 	defer close(c.closed)
-	defer func() {
-		err := c.conn.Close()
-		if err != nil {
-			log.Printf("close %s: %v", c.user, err)
-		}
-	}()
+	defer c.closeConn()
 
 	ignoreInputPrompt := &Prompt{
 		Question: "",
@@ -300,7 +297,11 @@ func (c *Connection) readLoop() {
 
 		bytes := make([]byte, n)
 		copy(bytes, readBuffer[:n])
-		c.input <- bytes
+		select {
+		case c.input <- bytes:
+		case <-c.closed:
+			return
+		}
 	}
 }
 
@@ -345,18 +346,39 @@ func (c *Connection) Close() {
 	case <-c.closed:
 		return
 	default:
-		close(c.close)
+		c.closeConn()
 		<-c.closed
 	}
 }
 
+// closeConn closes the underlying connection, this also ends a pending write.
+func (c *Connection) closeConn() {
+	c.closeOnce.Do(func() {
+		close(c.close)
+		err := c.conn.Close()
+		if err != nil {
+			log.Printf("close %s: %v", c.user, err)
+		}
+	})
+}
+
 func (c *Connection) Write(bytes []byte) (int, error) {
 	select {
 	case <-c.closed:
 		return 0, net.ErrClosed
 	default:
-		c.msg <- bytes
+	}
+
+	timeout := time.NewTimer(writeTimeout)
+	defer timeout.Stop()
+	select {
+	case <-c.closed:
+		return 0, net.ErrClosed
+	case c.msg <- bytes:
 		return len(bytes), nil
+	case <-timeout.C:
+		c.Close()
+		return 0, os.ErrDeadlineExceeded
 	}
 }
 
-- 
2.43.0


From 5f024b19d782e0c759d4ee71ffa713ade20d891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:56 +0000
Subject: [PATCH 11/52] fix: missing DXCC or supercheck data crashed the text
 processor

A nil pointer in an interface value is not nil.
---
 rx/text_processor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 822106c..286fa0d 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -85,8 +85,12 @@ func NewTextProcessor(out io.Writer, clock Clock, reporter CallsignReporter) *Te
 		collectedCallsigns: make(map[string]collectedCallsign),
 	}
 
-	result.dxccFinder = setupDXCCFinder()
-	result.scpFinder = setupSCPFinder()
+	if finder := setupDXCCFinder(); finder != nil {
+		result.dxccFinder = finder
+	}
+	if finder := setupSCPFinder(); finder != nil {
+		result.scpFinder = finder
+	}
 
 	return result
 }
-- 
2.43.0


From eca778794fe3029e5b01e9dcc3919b958365ec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:04 +0000
Subject: [PATCH 12/52] fix: only the first callsign of a piece of text was
 found in time

The others were found with the following writes, or got lost when the text
window was shifted before.
---
 rx/text_processor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 286fa0d..30317b8 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -232,8 +232,11 @@ func (p *TextProcessor) findNextCallsign(bytes []byte) {
 			panic(err)
 		}
 
-		candidate, found := p.window.FindNext(callsignExp, false)
-		if found {
+		for {
+			candidate, found := p.window.FindNext(callsignExp, false)
+			if !found {
+				break
+			}
 			p.collectCallsign(candidate)
 		}
 
-- 
2.43.0


From a3cc7d8098dcf79933289a14760b4af39dea2e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:04 +0000
Subject: [PATCH 13/52] fix: callsigns were cut at the first character that
 could also follow a callsign

The decoded text arrives character by character: with dl1abc/p the callsign
was reported as dl1abc as soon as the slash was decoded, and a1b2c as a1b.
---
 rx/text_processor.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 30317b8..b32e620 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -412,7 +412,8 @@ func (w *textWindow) FindNext(exp *regexp.Regexp, includeTail bool) (string, boo
 	if match == nil {
 		return "", false
 	}
-	if !includeTail && match[1] >= len(searchText) {
+	if !includeTail && wordEnd(searchText, match[1]) >= len(searchText) {
+		// the match may become longer with the next characters
 		return "", false
 	}
 
@@ -420,3 +421,13 @@ func (w *textWindow) FindNext(exp *regexp.Regexp, includeTail bool) (string, boo
 
 	return string(searchText[match[0]:match[1]]), true
 }
+
+func wordEnd(text []byte, start int) int {
+	for i := start; i < len(text); i++ {
+		c := text[i]
+		if !(c == '/' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z')) {
+			return i
+		}
+	}
+	return len(text)
+}
-- 
2.43.0


From cce91ac497eff554611c6f0daeedbbf1cd799c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:04 +0000
Subject: [PATCH 14/52] fix: callsigns with prefix and suffix did not fit into
 the text window

Only the last half of the window is kept when it is full, that was not enough
for a callsign like pj4/dl1abc/mm.
---
 rx/text_processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index b32e620..aae7776 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -14,7 +14,7 @@ import (
 )
 
 const (
-	defaultTextWindowSize = 20
+	defaultTextWindowSize = 100
 	spottingThreshold     = 3
 
 	defaultWriteTimeout = 5 * time.Second
-- 
2.43.0


From 0d5aa2601e35a1a08c08be1b68c421bcff477859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:04 +0000
Subject: [PATCH 15/52] fix: callsigns with suffix and /mm or /am were reported
 with /m or /a

---
 rx/text_processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index aae7776..158b707 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -21,7 +21,7 @@ const (
 )
 
 var (
-	callsignExp = regexp.MustCompile(`\s(?:([a-z0-9]+)/)?(([a-z]|[a-z][a-z]|[0-9][a-z]|[0-9][a-z][a-z])[0-9][a-z0-9]*[a-z])(?:/([a-z0-9]+))?(?:/(p|a|m|mm|am))?`)
+	callsignExp = regexp.MustCompile(`\s(?:([a-z0-9]+)/)?(([a-z]|[a-z][a-z]|[0-9][a-z]|[0-9][a-z][a-z])[0-9][a-z0-9]*[a-z])(?:/([a-z0-9]+))?(?:/(am|mm|p|a|m))?`)
 )
 
 type CallsignReporter interface {
-- 
2.43.0


From 63ba90660273038d95c0c2acb483d8c7b5ce360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:04 +0000
Subject: [PATCH 16/52] fix: the beginning of the text was ignored after a
 restart of the text processor

The text window continued to search at the point where the previous text ended.
---
 rx/text_processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 158b707..5f8255f 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -372,6 +372,7 @@ func (w *textWindow) Reset() {
 		w.window[i] = w.window[i][:0]
 		w.currentWindow = 0
 	}
+	w.searchPoint = 0
 }
 
 func (w *textWindow) Write(bytes []byte) (n int, err error) {
-- 
2.43.0


From a1d4d7897f9d46657fa1b359578387fbb4febef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:55 +0000
Subject: [PATCH 17/52] fix: after a restart the text processor processed
 pending text of the time before

That text was added to the text and the callsigns of the next signal.
---
 rx/text_processor.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 5f8255f..7f6e6a3 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -184,6 +184,7 @@ func (p *TextProcessor) sync() {
 
 func (p *TextProcessor) Restart() {
 	p.Stop()
+	p.dropPending()
 	p.lastWrite = p.clock.Now()
 	p.lastBestMatch = callsign.NoCallsign
 	p.window.Reset()
@@ -191,6 +192,16 @@ func (p *TextProcessor) Restart() {
 	p.Start()
 }
 
+func (p *TextProcessor) dropPending() {
+	for {
+		select {
+		case <-p.op:
+		default:
+			return
+		}
+	}
+}
+
 func (p *TextProcessor) LastWrite() time.Time {
 	return p.lastWrite
 }
-- 
2.43.0


From f37b8bd3d73f6bee9c4d3862f5e35ac049124b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:59 +0000
Subject: [PATCH 18/52] fix: do not take a character break and a word break as
 a low/high pair of gaps

---
 cw/decode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cw/decode.go b/cw/decode.go
index ed9c763..1d628af 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -255,7 +255,7 @@ func (d *Decoder) onRisingEdge(offDuration ticks) {
 		return
 	}
 
-	d.offThreshold.Put(offDuration, true)
+	d.offThreshold.Put(offDuration, false)
 
 	threshold := d.offThreshold.Get()
 	upperThreshold := 4.5 * d.offThreshold.Low()
@@ -391,6 +391,7 @@ func (t *AdaptiveThreshold) Preset(preset ticks) {
 
 func (t *AdaptiveThreshold) Put(duration ticks, state bool) {
 	const highFactor = 2
+	const bothHighFactor = 2.6
 	const avgWeight = 0.75
 	const currentWeight = 1.0 - avgWeight
 
@@ -398,7 +399,10 @@ func (t *AdaptiveThreshold) Put(duration ticks, state bool) {
 		return
 	}
 
-	if t.last >= duration*highFactor { // last high, now low {
+	shorter, longer := min(t.last, duration), max(t.last, duration)
+	if !state && shorter >= t.threshold && longer < shorter*bothHighFactor {
+		// both are high, like a character break (3) next to a word break (7)
+	} else if t.last >= duration*highFactor { // last high, now low {
 		t.low = avgWeight*t.low + currentWeight*duration
 		t.high = avgWeight*t.high + currentWeight*t.last
 	} else if duration >= t.last*highFactor { // last low, now high
-- 
2.43.0


From 4059ea0168c48accb013e2677b76424399a3a619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:27 +0000
Subject: [PATCH 19/52] fix: an overlong mark on its own does not invalidate
 the next character

---
 cw/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cw/decode.go b/cw/decode.go
index 1d628af..98993db 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -315,6 +315,7 @@ func (d *Decoder) appendSymbol(s cw.Symbol) {
 func (d *Decoder) decodeCurrentChar() {
 	if d.currentChar.empty() {
 		// fmt.Print("X") // TODO REMOVE THIS
+		d.currentCharInvalid = false
 		return
 	}
 	if d.currentCharInvalid {
-- 
2.43.0


From 889383680876f1b13e5d876e1f57c8bb9fe543ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:48 +0000
Subject: [PATCH 20/52] fix: Decoder.Clear also forgets the key state and the
 invalid mark

---
 cw/decode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cw/decode.go b/cw/decode.go
index 98993db..0087fef 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -172,6 +172,8 @@ func (d *Decoder) Reset() {
 func (d *Decoder) Clear() {
 	d.decoding = false
 	d.currentChar.clear()
+	d.currentCharInvalid = false
+	d.lastState = false
 	d.ticks = 0
 	d.onStart = 0
 	d.offStart = 0
-- 
2.43.0


From 84832671dc5ac3a0de103ce6e08f16eece8a1d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:33 +0000
Subject: [PATCH 21/52] fix: SpectralDemodulator.Reset also resets the
 debounced signal state

---
 cw/spectral.go | 1 +
 dsp/dsp.go     | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/cw/spectral.go b/cw/spectral.go
index 086fa0a..865c3f7 100644
--- a/cw/spectral.go
+++ b/cw/spectral.go
@@ -42,6 +42,7 @@ func (d *SpectralDemodulator[M, F]) SetScope(scope scope.Scope) {
 }
 
 func (d *SpectralDemodulator[M, F]) Reset() {
+	d.signalDebouncer.Reset()
 	d.decoder.Reset()
 }
 
diff --git a/dsp/dsp.go b/dsp/dsp.go
index 530e3db..0032d9a 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -159,6 +159,13 @@ func (d *BoolDebouncer) Threshold() int {
 	return d.threshold
 }
 
+// Reset the signal state, the threshold stays as it is.
+func (d *BoolDebouncer) Reset() {
+	d.effectiveState = false
+	d.lastRawState = false
+	d.stateCount = 0
+}
+
 // Debounce is periodically called with the raw signal state. It returns the debounced signal state.
 // The signal must be stable for threshold calls of Debounce until a state change is propagated by Debounce.
 func (d *BoolDebouncer) Debounce(rawState bool) bool {
-- 
2.43.0


From 3e361496fa39062e4b2b1aab663d3d3a60e4b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 22/52] fix: no call of the audio demodulator hangs or panics
 when it is closed

---
 cw/audio.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/cw/audio.go b/cw/audio.go
index a75cfa8..03b50c6 100644
--- a/cw/audio.go
+++ b/cw/audio.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"log"
 	"math"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/dsp"
@@ -26,10 +27,11 @@ type AudioDemodulator struct {
 	scale        float32
 	channelCount int
 
-	in     chan float32
-	op     chan func()
-	close  chan struct{}
-	closed chan struct{}
+	in        chan float32
+	op        chan func()
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 
 	scope scope.Scope
 }
@@ -58,13 +60,10 @@ func NewAudioDemodulator(out io.Writer, pitch float64, sampleRate int, bufferSiz
 }
 
 func (d *AudioDemodulator) Close() {
-	select {
-	case <-d.close:
-		return
-	default:
+	d.closeOnce.Do(func() {
 		close(d.close)
-		<-d.closed
-	}
+	})
+	<-d.closed
 }
 
 func (d *AudioDemodulator) SetScope(scope scope.Scope) {
@@ -150,7 +149,11 @@ func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 	n := 0
 	for i, sample := range buf {
 		if (i % d.channelCount) == 0 {
-			d.in <- sample
+			select {
+			case d.in <- sample:
+			case <-d.closed:
+				return n, io.ErrClosedPipe
+			}
 		}
 		n++
 	}
@@ -160,9 +163,7 @@ func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 func (d *AudioDemodulator) do(f func()) {
 	select {
 	case <-d.closed:
-		return
-	default:
-		d.op <- f
+	case d.op <- f:
 	}
 }
 
-- 
2.43.0


From 1e481e0a6f9d8e564ce2157948a5090efee7c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 23/52] fix: settings of the audio demodulator are executed
 before the call returns

---
 cw/audio.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cw/audio.go b/cw/audio.go
index 03b50c6..abb0ec1 100644
--- a/cw/audio.go
+++ b/cw/audio.go
@@ -161,9 +161,15 @@ func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 }
 
 func (d *AudioDemodulator) do(f func()) {
+	done := make(chan struct{})
+	op := func() {
+		defer close(done)
+		f()
+	}
 	select {
 	case <-d.closed:
-	case d.op <- f:
+	case d.op <- op:
+		<-done
 	}
 }
 
-- 
2.43.0


From a892197870433b9b2ac00bbb99c5711d143fe07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 24/52] fix: the audio demodulator keeps track of the channels
 across writes

---
 cw/audio.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cw/audio.go b/cw/audio.go
index abb0ec1..13eb664 100644
--- a/cw/audio.go
+++ b/cw/audio.go
@@ -26,6 +26,7 @@ type AudioDemodulator struct {
 	maxScale     float64
 	scale        float32
 	channelCount int
+	channel      int // the channel of the next sample
 
 	in        chan float32
 	op        chan func()
@@ -96,6 +97,7 @@ func (d *AudioDemodulator) SetScale(scale float64) {
 func (d *AudioDemodulator) SetChannelCount(channelCount int) {
 	d.do(func() {
 		d.channelCount = channelCount
+		d.channel = 0
 	})
 }
 
@@ -147,8 +149,10 @@ func (d *AudioDemodulator) Blocksize() int {
 
 func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 	n := 0
-	for i, sample := range buf {
-		if (i % d.channelCount) == 0 {
+	for _, sample := range buf {
+		first := d.channel == 0
+		d.channel = (d.channel + 1) % d.channelCount
+		if first {
 			select {
 			case d.in <- sample:
 			case <-d.closed:
-- 
2.43.0


From b25d480a4a9572cd141023e47731b4330091ddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 25/52] fix: scope: end several unresponsive streams at once
 without a crash

Removing a stream while ranging over the list of streams ran into an
index out of range, or closed the same stream twice.
---
 scope/server_grpc.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index e6ee85e..c5630ce 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -65,24 +65,17 @@ func (s *grpcServer) addStream(out chan *pb.Frame) {
 	s.out = append(s.out, out)
 }
 
-func (s *grpcServer) removeStream(i int) {
-	if len(s.out) == 1 {
-		s.out = nil
-		return
-	}
-	s.out[i] = s.out[len(s.out)-1]
-	s.out = s.out[:len(s.out)-1]
-}
-
 func (s *grpcServer) sendFrameToStreams(frame *pb.Frame) {
-	for i, out := range s.out {
+	remaining := make([]chan *pb.Frame, 0, len(s.out))
+	for _, out := range s.out {
 		select {
 		case out <- frame:
+			remaining = append(remaining, out)
 		default:
 			close(out)
-			s.removeStream(i)
 		}
 	}
+	s.out = remaining
 }
 
 func (s *grpcServer) getFrameStream() chan *pb.Frame {
-- 
2.43.0


From 1ed00ccefb751273ffe996fb544fa9dae9c0cee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 26/52] fix: scope: do not crash or block when a frame or a new
 stream meets the shutdown

The run loop closed the channels that others still send to. A stream that
is opened after the shutdown is already closed.
---
 scope/server_grpc.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index c5630ce..6d8f58d 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -42,9 +42,6 @@ func newGRPCServer(address string, outBufferSize int) (*grpcServer, error) {
 }
 
 func (s *grpcServer) run() {
-	defer close(s.in)
-	defer close(s.register)
-
 	for {
 		select {
 		case <-s.shutdown:
@@ -80,7 +77,11 @@ func (s *grpcServer) sendFrameToStreams(frame *pb.Frame) {
 
 func (s *grpcServer) getFrameStream() chan *pb.Frame {
 	result := make(chan *pb.Frame, s.outBufferSize)
-	s.register <- result
+	select {
+	case s.register <- result:
+	case <-s.shutdown:
+		close(result)
+	}
 	return result
 }
 
@@ -137,5 +138,8 @@ func (s *grpcServer) SendFrame(frame *pb.Frame) {
 	if s.server == nil {
 		return
 	}
-	s.in <- frame
+	select {
+	case s.in <- frame:
+	case <-s.shutdown:
+	}
 }
-- 
2.43.0


From d4152de95a415c44432d659cb7866f2cea55ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 27/52] fix: scope: use the same server throughout a call

The server was looked up again after the check that it is there, and was
gone by then if it stopped in between. It is set before Start returns, so
that a stop or a second start right after it find it.
---
 scope/server.go | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/scope/server.go b/scope/server.go
index b65c4c7..b02b991 100644
--- a/scope/server.go
+++ b/scope/server.go
@@ -29,22 +29,26 @@ func NewScopeServer(address string) *ScopeServer {
 }
 
 func (s *ScopeServer) Active() bool {
+	return s.activeServer() != nil
+}
+
+func (s *ScopeServer) activeServer() *grpcServer {
 	s.serverLock.Lock()
 	defer s.serverLock.Unlock()
-	return s.server != nil
+	return s.server
 }
 
 func (s *ScopeServer) Addr() net.Addr {
-	s.serverLock.Lock()
-	defer s.serverLock.Unlock()
-	if s.server != nil {
-		return s.server.Addr()
+	if server := s.activeServer(); server != nil {
+		return server.Addr()
 	}
 	return nil
 }
 
 func (s *ScopeServer) Start() error {
-	if s.Active() {
+	s.serverLock.Lock()
+	defer s.serverLock.Unlock()
+	if s.server != nil {
 		return fmt.Errorf("scope was already started")
 	}
 
@@ -53,16 +57,9 @@ func (s *ScopeServer) Start() error {
 		return err
 	}
 
+	s.server = server
 	go func() {
-		s.serverLock.Lock()
-		if s.server != nil {
-			s.serverLock.Unlock()
-			return
-		}
-		s.server = server
-		s.serverLock.Unlock()
-
-		err := s.server.Start()
+		err := server.Start()
 		if err != nil {
 			log.Printf("Scope server failed: %v", err)
 		}
@@ -76,15 +73,17 @@ func (s *ScopeServer) Start() error {
 }
 
 func (s *ScopeServer) Stop() {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
-	s.server.Stop()
+	server.Stop()
 }
 
 func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
@@ -102,11 +101,12 @@ func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
 			TimeFrame: grpcTimeFrame,
 		},
 	}
-	s.server.SendFrame(frame)
+	server.SendFrame(frame)
 }
 
 func (s *ScopeServer) ShowSpectralFrame(spectralFrame *SpectralFrame) {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
@@ -134,5 +134,5 @@ func (s *ScopeServer) ShowSpectralFrame(spectralFrame *SpectralFrame) {
 			SpectralFrame: grpcSpectralFrame,
 		},
 	}
-	s.server.SendFrame(frame)
+	server.SendFrame(frame)
 }
-- 
2.43.0


From 13c3b03ddb2494f4e9a91aff3cc4aaf9317066a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 28/52] fix: scope: release the callers when the server cannot
 listen

When the address was in use, the server still looked as if it was running,
and whoever showed a frame at that moment was blocked forever.
---
 scope/server_grpc.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index 6d8f58d..a6237e3 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -92,6 +92,11 @@ func (s *grpcServer) Start() error {
 	s.server = grpc.NewServer()
 	pb.RegisterScopeServer(s.server, s)
 
+	defer func() {
+		s.server = nil
+		close(s.shutdown)
+	}()
+
 	listener, err := net.Listen("tcp", s.address.String())
 	if err != nil {
 		return fmt.Errorf("cannot listen on address %s: %w", s.address, err)
@@ -100,10 +105,7 @@ func (s *grpcServer) Start() error {
 
 	go s.run()
 
-	err = s.server.Serve(listener)
-	s.server = nil
-	close(s.shutdown)
-	return err
+	return s.server.Serve(listener)
 }
 
 func (s *grpcServer) Stop() {
-- 
2.43.0


From f7efc682123a6ba79606bb2125fc50a8ece0ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 29/52] fix: scope: a stop before the server runs is not lost

The server was looked up without a lock while it started or stopped, and a
stop that came before the server was set up was ignored.
---
 scope/server_grpc.go | 46 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index a6237e3..dac801e 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -3,6 +3,7 @@ package scope
 import (
 	"fmt"
 	"net"
+	"sync"
 
 	"google.golang.org/grpc"
 
@@ -13,15 +14,17 @@ const defaultOutBufferSize = 10
 
 type grpcServer struct {
 	address *net.TCPAddr
-	server  *grpc.Server
+
+	serverLock    sync.Mutex // guards server, stopped, and activeAddress
+	server        *grpc.Server
+	stopped       bool
+	activeAddress net.Addr
 
 	outBufferSize int
 	in            chan *pb.Frame
 	register      chan chan *pb.Frame
 	out           []chan *pb.Frame
 	shutdown      chan struct{}
-
-	activeAddress net.Addr
 }
 
 func newGRPCServer(address string, outBufferSize int) (*grpcServer, error) {
@@ -86,14 +89,26 @@ func (s *grpcServer) getFrameStream() chan *pb.Frame {
 }
 
 func (s *grpcServer) Start() error {
+	server := grpc.NewServer()
+	pb.RegisterScopeServer(server, s)
+
+	s.serverLock.Lock()
 	if s.server != nil {
+		s.serverLock.Unlock()
 		return fmt.Errorf("server already running")
 	}
-	s.server = grpc.NewServer()
-	pb.RegisterScopeServer(s.server, s)
+	if s.stopped {
+		s.serverLock.Unlock()
+		close(s.shutdown)
+		return nil
+	}
+	s.server = server
+	s.serverLock.Unlock()
 
 	defer func() {
+		s.serverLock.Lock()
 		s.server = nil
+		s.serverLock.Unlock()
 		close(s.shutdown)
 	}()
 
@@ -101,21 +116,30 @@ func (s *grpcServer) Start() error {
 	if err != nil {
 		return fmt.Errorf("cannot listen on address %s: %w", s.address, err)
 	}
+	s.serverLock.Lock()
 	s.activeAddress = listener.Addr()
+	s.serverLock.Unlock()
 
 	go s.run()
 
-	return s.server.Serve(listener)
+	return server.Serve(listener)
 }
 
 func (s *grpcServer) Stop() {
-	if s.server == nil {
+	s.serverLock.Lock()
+	s.stopped = true
+	server := s.server
+	s.serverLock.Unlock()
+
+	if server == nil {
 		return
 	}
-	s.server.Stop()
+	server.Stop()
 }
 
 func (s *grpcServer) Addr() net.Addr {
+	s.serverLock.Lock()
+	defer s.serverLock.Unlock()
 	return s.activeAddress
 }
 
@@ -137,9 +161,13 @@ func (s *grpcServer) GetFrames(_ *pb.GetScopeRequest, stream pb.Scope_GetFramesS
 }
 
 func (s *grpcServer) SendFrame(frame *pb.Frame) {
-	if s.server == nil {
+	s.serverLock.Lock()
+	running := s.server != nil
+	s.serverLock.Unlock()
+	if !running {
 		return
 	}
+
 	select {
 	case s.in <- frame:
 	case <-s.shutdown:
-- 
2.43.0


From c731a6397da3e5547f824c6c1d797029d30da4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 30/52] fix: kiwi: keep the audio rate when the server
 announces an invalid one

The invalid rate replaced the valid one, and all sound was dropped from
then on; a negative rate was reported as valid.
---
 kiwi/client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 4bb27cb..9296fc5 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -266,7 +266,14 @@ func (c *Client) decodeConfigurationMessage(payload []byte) error {
 		var err error
 		switch {
 		case key == "audio_rate":
-			c.audioRate, err = strconv.Atoi(value)
+			var audioRate int
+			audioRate, err = strconv.Atoi(value)
+			if err == nil && audioRate <= 0 {
+				err = fmt.Errorf("invalid audio rate: %s", value)
+			}
+			if err == nil {
+				c.audioRate = audioRate
+			}
 		case key == "compression":
 			c.compression = (value == "1")
 		case strings.HasPrefix(key, "load_"):
-- 
2.43.0


From 3721fb6403c43a24b42692940467337bdf17f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 31/52] fix: kiwi: ignore sound messages that are too short

A sound message with an incomplete header crashed the program.
---
 kiwi/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 9296fc5..323f4f9 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -296,7 +296,12 @@ func decodeIQMessage(iqData []float32, payload []byte) ([]float32, error) {
 	// rssi := 0.1*float32(smeter) - 127
 	// 10 more bytes of GPS information are ignored
 
-	iqBytes := payload[17:]
+	const headerSize = 17
+	if len(payload) < headerSize {
+		return iqData, fmt.Errorf("IQ message too short: %d bytes", len(payload))
+	}
+
+	iqBytes := payload[headerSize:]
 	iqData = decodeIQBytes(iqData, iqBytes)
 
 	return iqData, nil
-- 
2.43.0


From 3025f9d9c2d3b90ec7e4af318bfeeb4c379ac2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 32/52] fix: kiwi: do not overwrite IQ data that was handed out

The receiver processes the IQ data later, but all sound messages of the
same length shared one buffer.
---
 kiwi/client.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 323f4f9..b895f0d 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -81,7 +81,6 @@ type Client struct {
 	connected     bool
 	keepalive     bool
 
-	iqBuffer    []float32
 	kiwiHandler KiwiHandler
 
 	out    chan string
@@ -195,15 +194,16 @@ func (c *Client) readLoop(conn clientConn) {
 					c.kiwiHandler.Connected(c.audioRate)
 				}
 			case sndTag:
+				var iqData []float32
 				if c.kiwiHandler == nil {
 					err = fmt.Errorf("no KiwiHandler available")
 				} else if c.audioRate == 0 {
 					err = fmt.Errorf("received IQ data with unknown audio rate")
 				} else {
-					c.iqBuffer, err = decodeIQMessage(c.iqBuffer, payload)
+					iqData, err = decodeIQMessage(payload)
 				}
 				if err == nil {
-					c.kiwiHandler.IQData(c.audioRate, c.iqBuffer)
+					c.kiwiHandler.IQData(c.audioRate, iqData)
 				}
 			default:
 				log.Printf("received message with unknown tag: %s %d bytes", tag, len(payload))
@@ -288,7 +288,7 @@ func (c *Client) decodeConfigurationMessage(payload []byte) error {
 	return nil
 }
 
-func decodeIQMessage(iqData []float32, payload []byte) ([]float32, error) {
+func decodeIQMessage(payload []byte) ([]float32, error) {
 	// decode header information
 	// flags := payload[0]
 	// sequenceNumber := binary.LittleEndian.Uint32(payload[1:5])
@@ -298,20 +298,16 @@ func decodeIQMessage(iqData []float32, payload []byte) ([]float32, error) {
 
 	const headerSize = 17
 	if len(payload) < headerSize {
-		return iqData, fmt.Errorf("IQ message too short: %d bytes", len(payload))
+		return nil, fmt.Errorf("IQ message too short: %d bytes", len(payload))
 	}
 
 	iqBytes := payload[headerSize:]
-	iqData = decodeIQBytes(iqData, iqBytes)
-
-	return iqData, nil
+	return decodeIQBytes(iqBytes), nil
 }
 
-func decodeIQBytes(iqData []float32, iqBytes []byte) []float32 {
+func decodeIQBytes(iqBytes []byte) []float32 {
 	n := len(iqBytes) / 2
-	if len(iqData) != n {
-		iqData = make([]float32, n)
-	}
+	iqData := make([]float32, n)
 	for i := 0; i < n; i++ {
 		rawSample := binary.BigEndian.Uint16(iqBytes[2*i : 2*(i+1)])
 		iqData[i] = float32(int16(rawSample)) / float32(math.MaxInt16)
-- 
2.43.0


From cf1e4ed22afa2607a22e271f97d9902300ca207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 33/52] fix: end the connection to the KiwiSDR once, and let no
 call hang on it

---
 kiwi/client.go | 86 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 30 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index b895f0d..412f3da 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -10,6 +10,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/cli"
@@ -83,9 +84,12 @@ type Client struct {
 
 	kiwiHandler KiwiHandler
 
-	out    chan string
-	close  chan struct{}
-	closed chan struct{}
+	conn        clientConn
+	out         chan string
+	closeOnce   sync.Once
+	close       chan struct{}
+	readClosed  chan struct{}
+	writeClosed chan struct{}
 }
 
 func Open(host string, username string, password string, centerFrequency float64, bandwidth int, kiwiHandler KiwiHandler) (*Client, error) {
@@ -100,11 +104,29 @@ func Open(host string, username string, password string, centerFrequency float64
 	}
 	log.Printf("connected to KiwiSDR %s", host)
 
+	client.conn = conn
 	go client.readLoop(conn)
 	go client.writeLoop(conn)
 
-	client.sendAuthentication(username, password)
-	client.sendSetup(
+	lowCut := -(bandwidth / 2)
+	highCut := bandwidth / 2
+
+	err = client.setup(username, password, lowCut, highCut, centerFrequency)
+	if err != nil {
+		client.Close()
+		return nil, err
+	}
+
+	return client, nil
+}
+
+func (c *Client) setup(username string, password string, lowCut int, highCut int, centerFrequency float64) error {
+	err := c.sendAuthentication(username, password)
+	if err != nil {
+		return err
+	}
+
+	err = c.sendSetup(
 		"SET AR OK in=12000 out=48000",
 		"SET squelch=0 max=0",
 		"SET lms_autonotch=0",
@@ -113,13 +135,11 @@ func Open(host string, username string, password string, centerFrequency float64
 		"SET agc=0 hang=0 thresh=-100 slope=6 decay=1000 manGain=50",
 		"SET compression=0",
 	)
+	if err != nil {
+		return err
+	}
 
-	lowCut := -(bandwidth / 2)
-	highCut := bandwidth / 2
-
-	client.setVFO(iqMode, lowCut, highCut, centerFrequency)
-
-	return client, nil
+	return c.setVFO(iqMode, lowCut, highCut, centerFrequency)
 }
 
 func newClient(host string, keepalive bool, kiwiHandler KiwiHandler) (*Client, error) {
@@ -140,9 +160,10 @@ func newClient(host string, keepalive bool, kiwiHandler KiwiHandler) (*Client, e
 
 		keepalive: keepalive,
 
-		out:    make(chan string),
-		close:  make(chan struct{}),
-		closed: make(chan struct{}),
+		out:         make(chan string),
+		close:       make(chan struct{}),
+		readClosed:  make(chan struct{}),
+		writeClosed: make(chan struct{}),
 	}
 
 	return result, nil
@@ -163,16 +184,16 @@ func (c *Client) connect() (clientConn, error) {
 }
 
 func (c *Client) readLoop(conn clientConn) {
-	defer conn.Close()
+	defer close(c.readClosed)
+	defer c.shutdown()
 	for {
 		select {
-		case <-c.closed:
+		case <-c.close:
 			return
 		default:
 			msgType, msgBytes, err := conn.ReadMessage()
 			if err != nil {
 				log.Printf("cannot read next message from websocket: %v", err)
-				close(c.close)
 				return
 			}
 			if msgType != websocket.BinaryMessage {
@@ -212,7 +233,6 @@ func (c *Client) readLoop(conn clientConn) {
 			if err == ErrTooBusy || err == ErrBadPassword || err == ErrDown {
 				log.Printf("error message: %s", payload)
 				log.Print(err)
-				close(c.close)
 				return
 			}
 
@@ -316,7 +336,8 @@ func decodeIQBytes(iqBytes []byte) []float32 {
 }
 
 func (c *Client) writeLoop(conn clientConn) {
-	defer close(c.closed)
+	defer close(c.writeClosed)
+	defer c.shutdown()
 
 	keepaliveMessage := []byte("SET keepalive")
 	keepalive := time.NewTicker(5 * time.Second)
@@ -336,7 +357,6 @@ func (c *Client) writeLoop(conn clientConn) {
 		}
 		if err != nil {
 			log.Printf("cannot write message to websocket: %v", err)
-			close(c.close)
 			return
 		}
 	}
@@ -366,20 +386,26 @@ func (c *Client) setVFO(mode kiwiMode, lowCut int, highCut int, centerFrequency
 }
 
 func (c *Client) send(format string, args ...any) error {
-	c.out <- fmt.Sprintf(format, args...)
-	return nil
+	select {
+	case c.out <- fmt.Sprintf(format, args...):
+		return nil
+	case <-c.close:
+		return errors.New("connection to KiwiSDR closed")
+	}
 }
 
 func (c *Client) Close() {
-	select {
-	case <-c.close:
-		return
-	case <-c.closed:
-		return
-	default:
+	c.shutdown()
+	<-c.readClosed
+	<-c.writeClosed
+}
+
+// shutdown closes the connection and lets both loops end.
+func (c *Client) shutdown() {
+	c.closeOnce.Do(func() {
 		close(c.close)
-		<-c.closed
-	}
+		c.conn.Close()
+	})
 }
 
 func nextClientNumber() int64 {
-- 
2.43.0


From 85a7107d9dae602bf33aa10d1f8faf731d9aebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 34/52] fix: kiwi: ignore sound messages that do not consist of
 whole blocks

---
 kiwi/kiwi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kiwi/kiwi.go b/kiwi/kiwi.go
index 2df24c2..5aa0b13 100644
--- a/kiwi/kiwi.go
+++ b/kiwi/kiwi.go
@@ -94,7 +94,8 @@ func (p *Process) Connected(sampleRate int) {
 func (p *Process) IQData(sampleRate int, data []float32) {
 	const partSize = blockSize * 2
 	if len(data)%partSize != 0 {
-		panic(fmt.Errorf("data must be transferred in blocks of %d samples instead of %d", partSize, len(data)))
+		log.Printf("IQ data must be transferred in blocks of %d samples instead of %d", partSize, len(data))
+		return
 	}
 	count := len(data) / partSize
 	for i := 0; i < count; i++ {
-- 
2.43.0


From c0cb354147a322b61eae2856845c4e8126785095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 35/52] fix: finish the text processing of a listener before
 its signal is taken away

---
 rx/listener.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rx/listener.go b/rx/listener.go
index 8c1ef9d..dc93306 100644
--- a/rx/listener.go
+++ b/rx/listener.go
@@ -97,10 +97,12 @@ func (l *Listener[T, F]) Attached() bool {
 }
 
 func (l *Listener[T, F]) Detach() {
+	// the text processor still refers to the peak until it is stopped
+	l.textProcessor.Stop()
+
 	frequency := l.peak.SignalFrequency
 	l.peak = nil
 
-	l.textProcessor.Stop()
 	l.reporter.ListenerDeactivated(l.id, frequency)
 	// log.Printf("\ndemodulation stopped\n")
 }
-- 
2.43.0


From 8308a2a9d090d16c1ef104118c83608118f2a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 36/52] fix: apply the signal debounce to listeners that are
 activated later, too

---
 rx/receiver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rx/receiver.go b/rx/receiver.go
index 71516e4..62667ab 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -86,6 +86,7 @@ type Receiver[T, F dsp.Number] struct {
 	listeners         *ListenerPool[T, F]
 	silenceTimeout    time.Duration
 	attachmentTimeout time.Duration
+	signalDebounce    *int
 
 	scope scope.Scope
 }
@@ -123,6 +124,9 @@ func (r *Receiver[T, F]) newListener(id string) *Listener[T, F] {
 	result := NewListener[T, F](id, r.out.Channel(id), r.clock, r, r.sampleRate, r.blockSize)
 	result.SetAttachmentTimeout(r.attachmentTimeout)
 	result.SetSilenceTimeout(r.silenceTimeout)
+	if r.signalDebounce != nil {
+		result.SetSignalDebounce(*r.signalDebounce)
+	}
 	result.SetScope(r.scope)
 	return result
 }
@@ -246,6 +250,7 @@ func (r *Receiver[T, F]) SetAttachmentTimeout(timeout time.Duration) {
 
 func (r *Receiver[T, F]) SetSignalDebounce(debounce int) {
 	r.do(func() {
+		r.signalDebounce = &debounce
 		r.listeners.ForEach(func(l *Listener[T, F]) {
 			l.SetSignalDebounce(debounce)
 		})
-- 
2.43.0


From fcfbc509d9dc7ab9e21e6cf94490dfa54991d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 37/52] fix: stop printing when the listener at the VFO
 frequency is deactivated

---
 rx/receiver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rx/receiver.go b/rx/receiver.go
index 62667ab..d0fb403 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -186,6 +186,8 @@ func (r *Receiver[T, F]) ListenerActivated(listener string, frequency F) {
 }
 
 func (r *Receiver[T, F]) ListenerDeactivated(listener string, frequency F) {
+	// the next listener with this ID belongs to another signal
+	r.out.Deactivate(listener)
 	for _, reporter := range r.reporters {
 		reporter.ListenerDeactivated(listener, frequency)
 	}
@@ -542,3 +544,9 @@ func (w *ChannelWriter) Channel(channel string) WriterFunc {
 func (w *ChannelWriter) SetActive(channel string) {
 	w.activeChannel = channel
 }
+
+func (w *ChannelWriter) Deactivate(channel string) {
+	if w.activeChannel == channel {
+		w.activeChannel = ""
+	}
+}
-- 
2.43.0


From e0c33bfc43a3ef3834de28689ff7c2db6538d2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 38/52] fix: drop listeners and detected signals when the
 center frequency changes

---
 rx/receiver.go | 57 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index d0fb403..27280ba 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -73,6 +73,8 @@ type Receiver[T, F dsp.Number] struct {
 	blockSize       int
 	centerFrequency F
 	vfoOffset       F
+	vfoSet          bool
+	retuned         bool
 
 	in               chan []T
 	op               chan func()
@@ -261,10 +263,22 @@ func (r *Receiver[T, F]) SetSignalDebounce(debounce int) {
 
 func (r *Receiver[T, F]) SetCenterFrequency(frequency F) {
 	r.do(func() {
+		changed := r.centerFrequency != frequency
 		r.centerFrequency = frequency
 		if r.frequencyMapping != nil {
 			r.frequencyMapping.SetCenterFrequency(frequency)
 		}
+		if !changed || r.in == nil {
+			return
+		}
+
+		// all that was found so far belongs to other frequencies
+		r.retuned = true
+		r.listeners.Reset()
+		r.peaks.Reset()
+		if r.mode == DecodeMode && r.vfoSet {
+			r.bindToVFO()
+		}
 	})
 }
 
@@ -279,28 +293,14 @@ func (r *Receiver[T, F]) CenterFrequency() F {
 func (r *Receiver[T, F]) SetVFOOffset(offset F) {
 	r.do(func() {
 		r.vfoOffset = offset
+		r.vfoSet = true
 		if r.in == nil {
 			return
 		}
 
 		switch r.mode {
 		case DecodeMode:
-			if !r.listeners.Available() {
-				r.listeners.Reset()
-			}
-			listener, ok := r.listeners.BindNext()
-			if !ok {
-				log.Printf("cannot bind listener to VFO")
-				return
-			}
-
-			freq := r.vfoOffset + r.centerFrequency
-			peak := r.newPeakCenteredOnFrequency(freq)
-			peak.SignalValue = 80
-			r.peaks.ForcePut(&peak)
-			r.peaks.Activate(&peak)
-			listener.Attach(&peak)
-			r.out.SetActive(listener.ID())
+			r.bindToVFO()
 		case StrainMode:
 			freq := r.vfoOffset + r.centerFrequency
 			bin := r.frequencyMapping.FrequencyToBin(freq)
@@ -319,6 +319,26 @@ func (r *Receiver[T, F]) SetVFOOffset(offset F) {
 	})
 }
 
+// bindToVFO lets the only listener of the decode mode listen to the VFO frequency.
+func (r *Receiver[T, F]) bindToVFO() {
+	if !r.listeners.Available() {
+		r.listeners.Reset()
+	}
+	listener, ok := r.listeners.BindNext()
+	if !ok {
+		log.Printf("cannot bind listener to VFO")
+		return
+	}
+
+	freq := r.vfoOffset + r.centerFrequency
+	peak := r.newPeakCenteredOnFrequency(freq)
+	peak.SignalValue = 80
+	r.peaks.ForcePut(&peak)
+	r.peaks.Activate(&peak)
+	listener.Attach(&peak)
+	r.out.SetActive(listener.ID())
+}
+
 func (r *Receiver[T, F]) IQData(sampleRate int, data []T) {
 	if r.in == nil {
 		return
@@ -408,6 +428,11 @@ func (r *Receiver[T, F]) run() {
 			})
 			r.listeners.Release(detachedListeners...)
 
+			if r.retuned {
+				r.retuned = false
+				clear(cumulation)
+				cumulationCount = 0
+			}
 			for i := range spectrum {
 				cumulation[i] += spectrum[i]
 			}
-- 
2.43.0


From 867ee2aef64f728a9664ee68de37385cec188f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 39/52] fix: listen to a VFO frequency that was set before the
 start in decode mode

---
 rx/receiver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rx/receiver.go b/rx/receiver.go
index 27280ba..dfc6dbc 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -148,6 +148,10 @@ func (r *Receiver[T, F]) Start(sampleRate int, blockSize int) {
 	r.frequencyMapping = dsp.NewFrequencyMapping(r.sampleRate, r.blockSize, r.centerFrequency)
 	r.peaks = NewPeaksTable[T, F](r.blockSize, r.clock)
 
+	if r.mode == DecodeMode && r.vfoSet {
+		r.bindToVFO()
+	}
+
 	go r.run()
 }
 
-- 
2.43.0


From 6a84f28930ae194372baeb6b611b1e7e2ee21bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 40/52] fix: let calls on a receiver exclude its start and stop

Stop released the listeners while the run loop still used them, and closed
the channels while other calls used them: calls could panic or hang forever.
Now the run loop releases the listeners when it ends, and the calls that
control the receiver, and the delivery of IQ data, exclude Start and Stop.
---
 rx/receiver.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index dfc6dbc..6e5b88c 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"math"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/dsp"
@@ -76,6 +77,8 @@ type Receiver[T, F dsp.Number] struct {
 	vfoSet          bool
 	retuned         bool
 
+	control          sync.Mutex // Start, Stop, and do exclude each other
+	input            sync.Mutex // guards in, sampleRate, and blockSize against incoming IQ data
 	in               chan []T
 	op               chan func()
 	stop             chan struct{}
@@ -134,17 +137,22 @@ func (r *Receiver[T, F]) newListener(id string) *Listener[T, F] {
 }
 
 func (r *Receiver[T, F]) Start(sampleRate int, blockSize int) {
+	r.control.Lock()
+	defer r.control.Unlock()
 	if r.in != nil {
 		return
 	}
 
 	r.stop = make(chan struct{})
 	r.stopped = make(chan struct{})
-	r.in = make(chan []T, iqBufferSize)
 	r.op = make(chan func())
 
+	r.input.Lock()
+	r.in = make(chan []T, iqBufferSize)
 	r.sampleRate = sampleRate
 	r.blockSize = blockSize
+	r.input.Unlock()
+
 	r.frequencyMapping = dsp.NewFrequencyMapping(r.sampleRate, r.blockSize, r.centerFrequency)
 	r.peaks = NewPeaksTable[T, F](r.blockSize, r.clock)
 
@@ -152,28 +160,31 @@ func (r *Receiver[T, F]) Start(sampleRate int, blockSize int) {
 		r.bindToVFO()
 	}
 
-	go r.run()
+	go r.run(r.in)
 }
 
 func (r *Receiver[T, F]) Stop() {
+	r.control.Lock()
+	defer r.control.Unlock()
 	if r.in == nil {
 		return
 	}
 
-	r.listeners.Reset()
-
 	close(r.stop)
 	<-r.stopped
-	close(r.in)
-	close(r.op)
+
+	r.input.Lock()
+	r.in = nil
+	r.input.Unlock()
 
 	r.stop = nil
 	r.stopped = nil
-	r.in = nil
 	r.op = nil
 }
 
 func (r *Receiver[T, F]) do(f func()) {
+	r.control.Lock()
+	defer r.control.Unlock()
 	if r.op == nil {
 		f()
 	} else {
@@ -344,6 +355,8 @@ func (r *Receiver[T, F]) bindToVFO() {
 }
 
 func (r *Receiver[T, F]) IQData(sampleRate int, data []T) {
+	r.input.Lock()
+	defer r.input.Unlock()
 	if r.in == nil {
 		return
 	}
@@ -364,8 +377,10 @@ func (r *Receiver[T, F]) IQData(sampleRate int, data []T) {
 	}
 }
 
-func (r *Receiver[T, F]) run() {
+func (r *Receiver[T, F]) run(in <-chan []T) {
 	defer close(r.stopped)
+	// the listeners belong to the run loop
+	defer r.listeners.Reset()
 
 	var spectrum dsp.Block[T]
 	var psd dsp.Block[T]
@@ -392,7 +407,7 @@ func (r *Receiver[T, F]) run() {
 				l.CheckWriteTimeout()
 			})
 			r.peaks.Cleanup()
-		case frame := <-r.in:
+		case frame := <-in:
 			if len(frame) == 0 {
 				continue
 			}
-- 
2.43.0


From c04460140453919c6bc74fd1c9b52df2c4d8631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 41/52] fix: return the center frequency of a receiver that
 does not run

CenterFrequency waited forever for itself to receive the result.
---
 rx/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index 6e5b88c..c4b35d6 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -298,7 +298,7 @@ func (r *Receiver[T, F]) SetCenterFrequency(frequency F) {
 }
 
 func (r *Receiver[T, F]) CenterFrequency() F {
-	result := make(chan F)
+	result := make(chan F, 1) // without a run loop, nobody receives the result yet
 	r.do(func() {
 		result <- r.centerFrequency
 	})
-- 
2.43.0


From 72487eebf86591a1219f994e7006add9ddf14799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 42/52] fix: tci: do not wait forever for a command whose
 connection is lost

---
 tci/tci.go | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index a624187..5edd539 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -2,6 +2,7 @@ package tci
 
 import (
 	"fmt"
+	"log"
 	"time"
 
 	tci "github.com/ftl/tci/client"
@@ -15,6 +16,7 @@ const (
 	defaultHostname = "localhost"
 	defaultPort     = 40001
 	timeout         = 10 * time.Second
+	commandTimeout  = 1 * time.Second
 	partCount       = 4
 )
 
@@ -91,7 +93,7 @@ func (p *Process) run() {
 		case op := <-p.opAsync:
 			op()
 		case <-p.close:
-			p.client.StopIQ(p.trx)
+			p.command(func() error { return p.client.StopIQ(p.trx) })
 			p.receiver.Stop()
 			close(p.closed)
 			return
@@ -108,6 +110,36 @@ func (p *Process) doAsync(f func()) {
 	}
 }
 
+// command executes a command on the TCI host. A command that is waiting for its reply when the connection gets lost, or
+// that the host does not accept, does not return. The process does not wait for those.
+func (p *Process) command(f func() error) {
+	done := make(chan struct{})
+	go func() {
+		defer close(done)
+		f()
+	}()
+
+	timer := time.NewTimer(commandTimeout)
+	defer timer.Stop()
+	select {
+	case <-done:
+	case <-timer.C:
+		log.Printf("TCI command timed out")
+	}
+}
+
+func (p *Process) addSpot(label string, frequency int, color tci.ARGB) {
+	p.command(func() error {
+		return p.client.AddSpot(label, tci.ModeCW, frequency, color, "SDRainer")
+	})
+}
+
+func (p *Process) deleteSpot(label string) {
+	p.command(func() error {
+		return p.client.DeleteSpot(label)
+	})
+}
+
 func (p *Process) SetScope(scope scope.Scope) {
 	p.scope = scope
 	if p.client.Connected() {
@@ -174,8 +206,8 @@ func (p *Process) onConnected(connected bool) {
 	}
 	p.receiver.SetScope(p.scope)
 
-	p.client.SetIQSampleRate(48000)
-	p.client.StartIQ(p.trx)
+	p.command(func() error { return p.client.SetIQSampleRate(48000) })
+	p.command(func() error { return p.client.StartIQ(p.trx) })
 }
 
 var (
@@ -191,8 +223,8 @@ func (p *Process) ListenerActivated(id string, frequency int) {
 
 func (p *Process) showDecode(id string, frequency int) {
 	if p.showListeners {
-		p.client.DeleteSpot(id)
-		p.client.AddSpot(id, tci.ModeCW, frequency, decodeColor, "SDRainer")
+		p.deleteSpot(id)
+		p.addSpot(id, frequency, decodeColor)
 	}
 }
 
@@ -201,7 +233,7 @@ func (p *Process) ListenerDeactivated(id string, _ int) {
 }
 
 func (p *Process) hideDecode(id string) {
-	p.client.DeleteSpot(id)
+	p.deleteSpot(id)
 }
 
 func (p *Process) CallsignDecoded(listener string, callsign string, frequency int, count int, weight int) {
@@ -216,7 +248,7 @@ func (p *Process) CallsignSpotted(_ string, callsign string, frequency int) {
 
 func (p *Process) showSpot(callsign string, frequency int) {
 	if p.showSpots {
-		p.client.AddSpot(">"+callsign+"<", tci.ModeCW, frequency, spotColor, "SDRainer")
+		p.addSpot(">"+callsign+"<", frequency, spotColor)
 	}
 	if p.spotter != nil {
 		p.spotter.Spot(callsign, float64(frequency), "cw", time.Now().UTC())
@@ -230,7 +262,7 @@ func (p *Process) SpotTimeout(_ string, callsign string, _ int) {
 }
 
 func (p *Process) hideSpot(callsign string) {
-	p.client.DeleteSpot(">" + callsign + "<")
+	p.deleteSpot(">" + callsign + "<")
 }
 
 type tciListener struct {
-- 
2.43.0


From a3a490db3479f36045b4ad285ca56d0edc3ac929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 43/52] fix: tci: do not restart the stream when the connection
 is ready after Close

---
 tci/tci.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index 5edd539..4809c3d 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -3,6 +3,7 @@ package tci
 import (
 	"fmt"
 	"log"
+	"sync"
 	"time"
 
 	tci "github.com/ftl/tci/client"
@@ -39,9 +40,10 @@ type Process struct {
 	showListeners     bool
 	showSpots         bool
 
-	opAsync chan func()
-	close   chan struct{}
-	closed  chan struct{}
+	opAsync    chan func()
+	close      chan struct{}
+	closed     chan struct{}
+	connecting sync.Mutex
 }
 
 func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter rx.Reporter[int], traceTCI bool) (*Process, error) {
@@ -78,13 +80,14 @@ func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter r
 }
 
 func (p *Process) Close() {
+	p.connecting.Lock()
 	select {
 	case <-p.close:
-		return
 	default:
 		close(p.close)
-		<-p.closed
 	}
+	p.connecting.Unlock()
+	<-p.closed
 }
 
 func (p *Process) run() {
@@ -185,6 +188,15 @@ func (p *Process) onConnected(connected bool) {
 		return
 	}
 
+	// the client keeps the connection open, also after the process was closed
+	p.connecting.Lock()
+	defer p.connecting.Unlock()
+	select {
+	case <-p.close:
+		return
+	default:
+	}
+
 	bandwidth := -p.client.MinIFFrequency + p.client.MaxIFFrequency
 	sampleRate := 48000
 	blockSize := 2048 / partCount
-- 
2.43.0


From 09428777fdce91f03987c9616fc6aa16def47edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 44/52] fix: tci: execute all pending reports and remove the
 markers of the active listeners on Close

---
 tci/tci.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/tci/tci.go b/tci/tci.go
index 4809c3d..3b30fe5 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -97,13 +97,39 @@ func (p *Process) run() {
 			op()
 		case <-p.close:
 			p.command(func() error { return p.client.StopIQ(p.trx) })
-			p.receiver.Stop()
+			p.stopReceiver()
 			close(p.closed)
 			return
 		}
 	}
 }
 
+// stopReceiver stops the receiver and executes all reports that are still pending. The receiver's listeners are
+// deactivated with the stop, which is reported, too.
+func (p *Process) stopReceiver() {
+	stopped := make(chan struct{})
+	go func() {
+		defer close(stopped)
+		p.receiver.Stop()
+	}()
+
+	for {
+		select {
+		case op := <-p.opAsync:
+			op()
+		case <-stopped:
+			for {
+				select {
+				case op := <-p.opAsync:
+					op()
+				default:
+					return
+				}
+			}
+		}
+	}
+}
+
 func (p *Process) doAsync(f func()) {
 	select {
 	case <-p.closed:
-- 
2.43.0


From 9436e20ff93229a80fe8d85c47435874315b15c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 45/52] fix: cli: accept IPv6 addresses as host arguments

---
 cli/cli.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/cli.go b/cli/cli.go
index 6813cf2..8694042 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -1,7 +1,6 @@
 package cli
 
 import (
-	"fmt"
 	"net"
 	"strconv"
 	"strings"
@@ -18,7 +17,7 @@ func ParseTCPAddrArg(arg string, defaultHost string, defaultPort int) (*net.TCPA
 		port = strconv.Itoa(defaultPort)
 	}
 
-	return net.ResolveTCPAddr("tcp", fmt.Sprintf("%s:%s", host, port))
+	return net.ResolveTCPAddr("tcp", net.JoinHostPort(host, port))
 }
 
 func splitHostPort(hostport string) (host, port string) {
-- 
2.43.0


From 4e9a2484a25141e09930d4b6a66853b43218592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 46/52] fix: cli: reject all port numbers that are out of range

---
 cli/cli.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/cli.go b/cli/cli.go
index 8694042..52076b5 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"fmt"
 	"net"
 	"strconv"
 	"strings"
@@ -16,6 +17,10 @@ func ParseTCPAddrArg(arg string, defaultHost string, defaultPort int) (*net.TCPA
 	if port == "" {
 		port = strconv.Itoa(defaultPort)
 	}
+	// the resolver takes only the low 32 bits of some numbers
+	if _, err := strconv.ParseUint(port, 10, 16); err != nil {
+		return nil, fmt.Errorf("invalid port: %w", err)
+	}
 
 	return net.ResolveTCPAddr("tcp", net.JoinHostPort(host, port))
 }
-- 
2.43.0


From 0315cbc2bb4606f9b9242545a1e62ccad822b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 47/52] fix: kiwi: connect to IPv6 addresses

---
 kiwi/client.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 412f3da..22d5222 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -170,10 +170,7 @@ func newClient(host string, keepalive bool, kiwiHandler KiwiHandler) (*Client, e
 }
 
 func (c *Client) connect() (clientConn, error) {
-	hostUrl, err := url.Parse(fmt.Sprintf("ws://%s:%d/%d/SND", c.host.IP.String(), c.host.Port, nextClientNumber()))
-	if err != nil {
-		return nil, fmt.Errorf("cannot build KiwiSDR URL: %v", err)
-	}
+	hostUrl := url.URL{Scheme: "ws", Host: c.host.String(), Path: fmt.Sprintf("/%d/SND", nextClientNumber())}
 
 	conn, _, err := websocket.DefaultDialer.Dial(hostUrl.String(), nil)
 	if err != nil {
-- 
2.43.0


From def9f96a01b0b15a897a83ece3aa39713a08707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 48/52] fix: pulse: record from the selected source with its
 sample rate

---
 cmd/pulse.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/pulse.go b/cmd/pulse.go
index 4d3940b..c4f3412 100644
--- a/cmd/pulse.go
+++ b/cmd/pulse.go
@@ -61,7 +61,12 @@ func runPulse(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args [
 	demodulator.SetMagnitudeThreshold(pulseFlags.magnitudeThreshold)
 	demodulator.SetScope(scope)
 
-	stream, err := client.NewRecord(pulse.Float32Writer(demodulator.Write), pulse.RecordBufferFragmentSize(2*uint32(demodulator.Blocksize())))
+	stream, err := client.NewRecord(
+		pulse.Float32Writer(demodulator.Write),
+		pulse.RecordSource(source),
+		pulse.RecordSampleRate(source.SampleRate()),
+		pulse.RecordBufferFragmentSize(2*uint32(demodulator.Blocksize())),
+	)
 	if err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From f55d2dcbec8f6194c3061c6474bb9e01a805206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 49/52] fix: pulse: apply the preset speed

---
 cmd/pulse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/pulse.go b/cmd/pulse.go
index c4f3412..7196a8e 100644
--- a/cmd/pulse.go
+++ b/cmd/pulse.go
@@ -58,6 +58,7 @@ func runPulse(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args [
 	defer demodulator.Close()
 	demodulator.SetScale(pulseFlags.scale)
 	demodulator.SetDebounceThreshold(decodeFlags.debounce)
+	demodulator.PresetWPM(pulseFlags.wpm)
 	demodulator.SetMagnitudeThreshold(pulseFlags.magnitudeThreshold)
 	demodulator.SetScope(scope)
 
-- 
2.43.0


From 4992dd567ca689361c087bb9861d91c63383d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 50/52] fix: kiwi: forward the spots to the spotter, at their
 absolute frequencies

---
 kiwi/kiwi.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kiwi/kiwi.go b/kiwi/kiwi.go
index 5aa0b13..e5b25ca 100644
--- a/kiwi/kiwi.go
+++ b/kiwi/kiwi.go
@@ -43,6 +43,8 @@ func New(host string, username string, password string, centerFrequency float64,
 		scope:           scope.NewNullScope(),
 	}
 	result.receiver = rx.NewReceiver[float32, int]("", rx.StrainMode, rx.WallClock)
+	result.receiver.SetCenterFrequency(int(centerFrequency))
+	result.receiver.AddReporter(result)
 
 	edgeWidth := int(float32((maxBandwidth-bandwidth)/2) * (float32(blockSize) / float32(maxBandwidth)))
 	result.receiver.SetEdgeWidth(edgeWidth)
@@ -144,5 +146,9 @@ func (p *Process) ListenerActivated(listener string, frequency int)   {}
 func (p *Process) ListenerDeactivated(listener string, frequency int) {}
 func (p *Process) CallsignDecoded(listener string, callsign string, frequency int, count int, weight int) {
 }
-func (p *Process) CallsignSpotted(listener string, callsign string, frequency int) {}
-func (p *Process) SpotTimeout(listener string, callsign string, frequency int)     {}
+func (p *Process) CallsignSpotted(listener string, callsign string, frequency int) {
+	if p.spotter != nil {
+		p.spotter.Spot(callsign, float64(frequency), "cw", time.Now().UTC())
+	}
+}
+func (p *Process) SpotTimeout(listener string, callsign string, frequency int) {}
-- 
2.43.0


From 549706ebd9186696f8e5ed18a01a1d17af56e84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 51/52] fix: kiwi: detect only signals above a threshold

There was no flag that sets the threshold, and it was 0 dB over the noise: the listeners were attached to the noise.
---
 cmd/kiwi.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/kiwi.go b/cmd/kiwi.go
index 61d73d6..aae23ab 100644
--- a/cmd/kiwi.go
+++ b/cmd/kiwi.go
@@ -36,6 +36,7 @@ func init() {
 	strainKiwiCmd.Flags().Float64Var(&kiwiFlags.centerFrequency, "center", 7_020_000, "the center frequency")
 	strainKiwiCmd.Flags().Float64Var(&kiwiFlags.rxFrequency, "rx", 0, "the rx frequency")
 	strainKiwiCmd.Flags().IntVar(&kiwiFlags.bandwidth, "bandwidth", 10_000, "the bandwidth that is observed to find CW signals (max 12000)")
+	strainKiwiCmd.Flags().IntVar(&kiwiFlags.threshold, "threshold", 15, "the threshold in dB over noise that a signal must exceed to be detected")
 }
 
 func runStrainKiwi(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args []string) {
-- 
2.43.0


From d4488d38cd5766f22e4c9e656303640ac69e4eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:12 +0000
Subject: [PATCH 52/52] fix: telnet: spots of several listeners at the same
 time crashed the server

---
 telnet/telnet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 327ac66..b230347 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -38,6 +38,7 @@ type Server struct {
 	connections []*Connection
 
 	lastSpots     map[spotHash]time.Time
+	lastSpotsLock sync.Mutex
 	silencePeriod time.Duration
 
 	msg       chan []byte
@@ -157,6 +158,8 @@ func (s *Server) SetSilencePeriod(silencePeriod time.Duration) {
 }
 
 func (s *Server) Spot(callsign string, frequency float64, msg string, timestamp time.Time) {
+	s.lastSpotsLock.Lock()
+	defer s.lastSpotsLock.Unlock()
 	hash := newSpotHash(callsign, frequency)
 	if s.shouldAnnounce(hash, timestamp) {
 		select {
-- 
2.43.0

