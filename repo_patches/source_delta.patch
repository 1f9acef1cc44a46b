From 16a21d2a5d5d6570bce6eaaa649c03df643967bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 01/67] fix: sample queue updates its ends under the
 condition's lock, so that no wake-up is lost

---
 playback/timed_sample_queue.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/playback/timed_sample_queue.go b/playback/timed_sample_queue.go
index 4f85177..bbc6869 100644
--- a/playback/timed_sample_queue.go
+++ b/playback/timed_sample_queue.go
@@ -18,6 +18,8 @@ func (q *timedSampleQueue) Add(sample [2]float64, time int64) {
 
 	q.waitNotFull()
 
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 	q.buffer[q.head%len(q.buffer)] = timedSample{sample: sample, time: time}
 	q.head = q.inc(q.head)
 
@@ -30,6 +32,8 @@ func (q *timedSampleQueue) Remove() (sample [2]float64, time int64) {
 
 	q.waitNotEmpty()
 
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 	v := q.buffer[q.tail%len(q.buffer)]
 	q.tail = q.inc(q.tail)
 
@@ -48,10 +52,8 @@ func (q *timedSampleQueue) Peek() (sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Len() int {
-	q.tailMutex.RLock()
-	defer q.tailMutex.RUnlock()
-	q.headMutex.RLock()
-	defer q.headMutex.RUnlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 	if q.tail <= q.head {
 		return q.head - q.tail
 	}
-- 
2.43.0


From 7d22a76b1c3bc000bebcd179919b6668251d29e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 02/67] fix: removing at the index just past the end removes
 the last song instead of panicking

---
 playback/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 97d81ef..06010a7 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -198,7 +198,7 @@ func (pl *Playlist) RemoveSong(index int) string {
 		index = 0
 	}
 	var removed string
-	if len(pl.songs) < index {
+	if len(pl.songs) <= index {
 		removed = pl.songs[len(pl.songs)-1]
 		pl.songs = pl.songs[:len(pl.songs)-1]
 	} else {
-- 
2.43.0


From 4fd0617812455ab66db066d9004b93e70899007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 03/67] fix: negative jump targets wrap around instead of
 crashing the stream loop

---
 playback/playlist.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 06010a7..8aea760 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -66,11 +66,20 @@ func (pl *Playlist) nextSong() (song string) {
 	if len(pl.songs) == 0 {
 		return ""
 	}
-	pos := pl.position % len(pl.songs)
+	pos := wrapPosition(pl.position, len(pl.songs))
 	pl.position = pos
 	return pl.songs[pos]
 }
 
+// wrapPosition wraps pos around into [0, length).
+func wrapPosition(pos, length int) int {
+	pos %= length
+	if pos < 0 {
+		pos += length
+	}
+	return pos
+}
+
 func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 	buf := make([][2]float64, streamerBufferSize)
 	if pl.newSongHandler != nil {
@@ -149,7 +158,7 @@ func (pl *Playlist) Pos() int {
 	if len(pl.songs) == 0 {
 		return 0
 	}
-	return pl.position % len(pl.songs)
+	return wrapPosition(pl.position, len(pl.songs))
 }
 
 // Songs returns all songs in the playlist.
-- 
2.43.0


From 35f2fc98d3f8267bcfccccad5c179a602855e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 04/67] fix: jumps never block, are never lost and never skip
 the song jumped to

---
 playback/playlist.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 8aea760..412a474 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -51,7 +51,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		s, err := getStreamer(filename)
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
-			pl.position++
+			pl.shouldBreakStreamerPushLoop(0, false, streamerBufferSize)
 			continue
 		}
 
@@ -61,8 +61,11 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 }
 
 func (pl *Playlist) nextSong() (song string) {
-	pl.songsMutex.RLock()
-	defer pl.songsMutex.RUnlock()
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	for 0 < len(pl.forceNext) {
+		<-pl.forceNext // the position the jump set is used right now
+	}
 	if len(pl.songs) == 0 {
 		return ""
 	}
@@ -103,6 +106,8 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 }
 
 func (pl *Playlist) shouldBreakStreamerPushLoop(n int, ok bool, bufSize int) bool {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
 	if 0 < len(pl.forceNext) && <-pl.forceNext {
 		return true
 	}
@@ -147,8 +152,13 @@ func (pl *Playlist) callPauseToggleHandler() {
 
 // SetPos jumps to the song at pos.
 func (pl *Playlist) SetPos(pos int) {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
 	pl.position = pos
-	pl.forceNext <- true
+	select {
+	case pl.forceNext <- true:
+	default: // a jump is already pending
+	}
 }
 
 // Pos returns the position of the song currently being played.
-- 
2.43.0


From de357da2f30bb1631578517acb5d63165f846b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 05/67] fix: announce pauses exactly as they enter the stream,
 whenever playback is toggled

---
 playback/playlist.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 412a474..fbe6fae 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -92,7 +92,7 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 	for {
 		n, ok := streamerBufferSize, true
 		pl.callPauseToggleHandler()
-		if pl.playing {
+		if pl.playingLast { // exactly what has been announced
 			n, ok = s.Stream(buf)
 			pl.pushBuffer(buf[:n])
 		} else {
@@ -144,9 +144,13 @@ func (pl *Playlist) pushSample(low, high float64) {
 }
 
 func (pl *Playlist) callPauseToggleHandler() {
-	if pl.playing != pl.playingLast && pl.pauseToggleHandler != nil {
-		pl.playingLast = pl.playing
-		go pl.pauseToggleHandler(pl.playing, pl.sampleIndexWrite)
+	playing := pl.playing
+	if playing == pl.playingLast {
+		return
+	}
+	pl.playingLast = playing
+	if pl.pauseToggleHandler != nil {
+		go pl.pauseToggleHandler(playing, pl.sampleIndexWrite)
 	}
 }
 
-- 
2.43.0


From 2257e09714f7d02d912f6c64cdb07afcad51c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 06/67] fix: keep producing stream samples if no song of the
 playlist can be played

---
 playback/playlist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/playback/playlist.go b/playback/playlist.go
index fbe6fae..eecb5bb 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -52,11 +52,16 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
 			pl.shouldBreakStreamerPushLoop(0, false, streamerBufferSize)
+			pl.pushNanSamples(streamerBufferSize) // keep the stream alive if nothing can be played
 			continue
 		}
 
+		songStart := pl.sampleIndexWrite
 		pl.pushStreamer(s)
 		pl.pushNanBreak()
+		if pl.sampleIndexWrite == songStart {
+			pl.pushNanSamples(streamerBufferSize) // the song was empty
+		}
 	}
 }
 
-- 
2.43.0


From 2564a8b4e063844cc41ab74a2e72f6311738707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 07/67] fix: close song files once they have been played or
 cannot be decoded

---
 playback/playback.go | 1 +
 playback/playlist.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/playback/playback.go b/playback/playback.go
index 4012462..12c3817 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -40,6 +40,7 @@ func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 
 	s, _, err := mp3.Decode(f)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("failed to decode file %s: %v", filename, err)
 	}
 
diff --git a/playback/playlist.go b/playback/playlist.go
index eecb5bb..29ee3ed 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -58,6 +58,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 
 		songStart := pl.sampleIndexWrite
 		pl.pushStreamer(s)
+		s.Close()
 		pl.pushNanBreak()
 		if pl.sampleIndexWrite == songStart {
 			pl.pushNanSamples(streamerBufferSize) // the song was empty
-- 
2.43.0


From f82b3f45ec8eee849e71895ebf540acae08757f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 08/67] fix: read and write the name of the current song under
 the lock

---
 playback/playlist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/playback/playlist.go b/playback/playlist.go
index 29ee3ed..7139efe 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -46,7 +46,9 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 			continue
 		}
 
+		pl.songsMutex.Lock()
 		pl.currentSong = filename
+		pl.songsMutex.Unlock()
 
 		s, err := getStreamer(filename)
 		if err != nil {
@@ -264,6 +266,8 @@ func (pl *Playlist) SetPlaying(p bool) {
 
 // CurrentSong returns the song currently being played
 func (pl *Playlist) CurrentSong() string {
+	pl.songsMutex.RLock()
+	defer pl.songsMutex.RUnlock()
 	return pl.currentSong
 }
 
-- 
2.43.0


From 4935e41003f7b0494974a2a5aa6dcce07a224684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 09/67] fix: full-scale samples are clipped to the largest
 16-bit value instead of wrapping

---
 playback/playback.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/playback/playback.go b/playback/playback.go
index 12c3817..6067e5f 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"fmt"
 	"github.com/LogicalOverflow/music-sync/util"
+	"math"
 	"os"
 	"path"
 	"time"
@@ -146,7 +147,11 @@ func convertSampleToBytes(val float64) (low, high byte) {
 	if val > +1 {
 		val = +1
 	}
-	valInt16 := int16(val * (1 << 15))
+	val *= 1 << 15
+	if val > math.MaxInt16 {
+		val = math.MaxInt16
+	}
+	valInt16 := int16(val)
 	low = byte(valInt16)
 	high = byte(valInt16 >> 8)
 	return
-- 
2.43.0


From 25a27f18b49ee608be41807639b971c934ba5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 10/67] fix: playback waits for the scheduled time of the next
 sample and drops nothing that can still be played on time

---
 playback/streamer.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index 65337e3..fd03eb7 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -39,8 +39,10 @@ func (tms *timedMultiStreamer) Stream(samples [][2]float64) {
 		samples = samples[n:]
 		if drained {
 			tms.syncing = !tms.syncing
-			_, t := tms.samples.Peek()
-			logger.Debugf("playback error: %s", time.Duration(t-now)*time.Nanosecond)
+			if 0 < tms.samples.Len() {
+				_, t := tms.samples.Peek()
+				logger.Debugf("playback error: %s", time.Duration(t-now)*time.Nanosecond)
+			}
 		}
 	}
 }
@@ -57,25 +59,21 @@ func (tms *timedMultiStreamer) streamDirect(samples [][2]float64) (n int, draine
 }
 
 func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n int, drained bool) {
-	s, t := tms.samples.Peek()
-	for math.IsNaN(s[0]) {
-		tms.samples.Remove()
-		s, t = tms.samples.Peek()
-	}
-	if now < t+tms.samplesDuration(len(samples)) {
-		tms.background.Stream(samples)
-		return len(samples), false
-	} else if now < t {
+	for 0 < tms.samples.Len() {
+		s, t := tms.samples.Peek()
+		if math.IsNaN(s[0]) || t < now {
+			tms.samples.Remove()
+			continue
+		}
 		silence := tms.samplesCount(t - now)
+		if len(samples) <= silence {
+			break
+		}
 		tms.background.Stream(samples[:silence])
 		return silence, true
-	} else {
-		for t < now {
-			tms.samples.Remove()
-			_, t = tms.samples.Peek()
-		}
-		return 0, true
 	}
+	tms.background.Stream(samples)
+	return len(samples), false
 }
 
 func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
-- 
2.43.0


From cd0d8c268efe1eb7a61593a29bbcfde95d41a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 11/67] fix: malformed frames close the connection instead of
 crashing or exhausting the process

---
 comm/package_util.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/comm/package_util.go b/comm/package_util.go
index ee2b73d..a90d632 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -61,7 +61,13 @@ func readWire(conn net.Conn) (proto.Message, error) {
 		return nil, err
 	}
 	size := int64(binary.LittleEndian.Uint64(sizeBuf))
+	if size < 0 {
+		return nil, fmt.Errorf("invalid message size: %d", size)
+	}
 	env, err := readBytes(conn, size)
+	if err != nil {
+		return nil, err
+	}
 
 	envelope := &Envelope{}
 	if err := proto.Unmarshal(env, envelope); err != nil {
@@ -74,9 +80,15 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	}
 	m := reflect.New(mType.Elem()).Interface().(proto.Message)
 
-	r, _ := zlib.NewReader(bytes.NewBuffer(envelope.Data))
-	data, _ := ioutil.ReadAll(r)
+	r, err := zlib.NewReader(bytes.NewBuffer(envelope.Data))
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
+	}
+	data, err := ioutil.ReadAll(r)
 	r.Close()
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
+	}
 
 	e := error(nil)
 	if err := proto.Unmarshal(data, m); err != nil {
@@ -104,14 +116,10 @@ func sendWire(m proto.Message, conn net.Conn) error {
 }
 
 func readBytes(conn net.Conn, number int64) ([]byte, error) {
-	buf := make([]byte, number)
-	read := 0
-	for read < len(buf) {
-		n, err := conn.Read(buf[read:])
-		if err != nil {
-			return nil, err
-		}
-		read += n
+	// the buffer grows with the data received, as number may be anything if the peer misbehaves
+	buf := &bytes.Buffer{}
+	if _, err := io.CopyN(buf, conn, number); err != nil {
+		return nil, err
 	}
-	return buf, nil
+	return buf.Bytes(), nil
 }
-- 
2.43.0


From ee814ee9ac0dc20b2181dcebee537b98a1bc2894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 12/67] fix: a client that does not read blocks neither
 broadcasts to others nor clients joining and leaving

---
 comm/message_sender.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index b94e60c..b40db26 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -23,19 +23,17 @@ type multiMessageSender struct {
 }
 
 func (mms *multiMessageSender) SendMessage(m proto.Message) error {
-	mms.mutex.RLock()
-	defer mms.mutex.RUnlock()
-
-	chs, hasCh := channelOf(m)
+	// nothing is sent while holding the mutex: a client that does not read must not block all others
+	receivers := mms.receivers(m)
 
 	var errCol util.ErrorCollector
 	var wg sync.WaitGroup
-	wg.Add(len(mms.connections))
+	wg.Add(len(receivers))
 
-	for _, c := range mms.connections {
+	for _, c := range receivers {
 		go func(c net.Conn) {
 			defer wg.Done()
-			if err := mms.sendMessageTo(m, c, hasCh, chs); err != nil {
+			if err := sendWire(m, c); err != nil {
 				errCol.Add(err)
 			}
 		}(c)
@@ -47,11 +45,18 @@ func (mms *multiMessageSender) SendMessage(m proto.Message) error {
 	return errCol.Err("failed to send to %d clients: ")
 }
 
-func (mms *multiMessageSender) sendMessageTo(m proto.Message, c net.Conn, hasCh bool, chs []Channel) error {
-	if !hasCh || mms.isSubscribed(c, chs) {
-		return sendWire(m, c)
+func (mms *multiMessageSender) receivers(m proto.Message) []net.Conn {
+	mms.mutex.RLock()
+	defer mms.mutex.RUnlock()
+
+	chs, hasCh := channelOf(m)
+	receivers := make([]net.Conn, 0, len(mms.connections))
+	for _, c := range mms.connections {
+		if !hasCh || mms.isSubscribed(c, chs) {
+			receivers = append(receivers, c)
+		}
 	}
-	return nil
+	return receivers
 }
 
 func (mms *multiMessageSender) AddConn(c net.Conn) {
-- 
2.43.0


From 2c0d86b9d17c2cf5f56ba58d0b694e1077fcdd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 13/67] fix: a client subscribing before the server is set up
 no longer crashes it

---
 comm/package_handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comm/package_handler.go b/comm/package_handler.go
index c57a5ac..2fb269f 100644
--- a/comm/package_handler.go
+++ b/comm/package_handler.go
@@ -101,7 +101,9 @@ func (s serverPackageHandler) HandleTimeSyncRequest(tsr *TimeSyncRequest, c net.
 
 func (s serverPackageHandler) HandleSubscribeChannelRequest(scr *SubscribeChannelRequest, c net.Conn) {
 	s.sender.Subscribe(c, scr.Channel)
-	NewClientHandler(scr.Channel, &singleMessageSender{c})
+	if NewClientHandler != nil {
+		NewClientHandler(scr.Channel, &singleMessageSender{c})
+	}
 }
 
 func (s serverPackageHandler) HandlePingMessage(_ *PingMessage, c net.Conn) { PingHandler(c) }
-- 
2.43.0


From b8815f8e2daf53567c7cecf57404858b13f935e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 14/67] fix: volumes received one after the other are set in
 the order in which they arrived

---
 comm/package_handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/comm/package_handler.go b/comm/package_handler.go
index 2fb269f..59c8792 100644
--- a/comm/package_handler.go
+++ b/comm/package_handler.go
@@ -72,7 +72,8 @@ func (t TypedPackageHandler) Handle(message proto.Message, sender net.Conn) {
 	case *PongMessage:
 		go t.HandlePongMessage(message.(*PongMessage), sender)
 	case *SetVolumeRequest:
-		go t.HandleSetVolumeRequest(message.(*SetVolumeRequest), sender)
+		// not in its own goroutine, as volumes have to be set in the order in which they were received
+		t.HandleSetVolumeRequest(message.(*SetVolumeRequest), sender)
 	case *SubscribeChannelRequest:
 		go t.HandleSubscribeChannelRequest(message.(*SubscribeChannelRequest), sender)
 	case *NewSongInfo:
-- 
2.43.0


From d840f8903237ec5114e5ed9b57be1b760dc57976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 15/67] fix: time measurements are counted under the lock,
 once, and only in a running round

---
 timing/timing.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/timing/timing.go b/timing/timing.go
index 6ac7ec1..11ea67b 100644
--- a/timing/timing.go
+++ b/timing/timing.go
@@ -37,18 +37,20 @@ func UpdateOffset(clientSend, serverRecv, serverSend, clientRecv int64) {
 
 	calcOffset := ((serverRecv - clientSend) + (serverSend - clientRecv)) / 2
 	offsetsMutex.Lock()
+	defer offsetsMutex.Unlock()
+	if len(offsets) == cap(offsets) {
+		// no round is running, its answers are complete
+		return
+	}
 	offsets = append(offsets, calcOffset)
-	offsetsMutex.Unlock()
 
 	if len(offsets) == cap(offsets) {
-		offsetsMutex.Lock()
 		avg := big.NewInt(0)
 		for _, o := range offsets {
 			avg = new(big.Int).Add(avg, big.NewInt(o))
 		}
 		avg = new(big.Int).Div(avg, big.NewInt(int64(len(offsets))))
 		offset = avg.Int64()
-		offsetsMutex.Unlock()
 		logger.Infof("time synced: offset: %d", offset)
 	}
 }
-- 
2.43.0


From 35f7604b9d85f4c879d15ffb5fe2a3af1a868c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 16/67] fix: the clock offset is read and written atomically

---
 timing/timing.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/timing/timing.go b/timing/timing.go
index 11ea67b..5fd77c3 100644
--- a/timing/timing.go
+++ b/timing/timing.go
@@ -6,6 +6,7 @@ import (
 	"github.com/aristanetworks/goarista/monotime"
 	"math/big"
 	"sync"
+	"sync/atomic"
 )
 
 var logger = log.GetLogger("time")
@@ -16,7 +17,7 @@ var offsetsMutex sync.Mutex
 
 // GetSyncedTime returns the current time, sync to the sever, with nanosecond precision
 func GetSyncedTime() int64 {
-	return int64(monotime.Now()) + offset
+	return int64(monotime.Now()) + atomic.LoadInt64(&offset)
 }
 
 // GetRawTime returns the current time, not sync to the server, with nanosecond precision
@@ -50,7 +51,7 @@ func UpdateOffset(clientSend, serverRecv, serverSend, clientRecv int64) {
 			avg = new(big.Int).Add(avg, big.NewInt(o))
 		}
 		avg = new(big.Int).Div(avg, big.NewInt(int64(len(offsets))))
-		offset = avg.Int64()
-		logger.Infof("time synced: offset: %d", offset)
+		atomic.StoreInt64(&offset, avg.Int64())
+		logger.Infof("time synced: offset: %d", avg.Int64())
 	}
 }
-- 
2.43.0


From bbb4a6cc696b76f69bdd559988eec97c5c411da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 17/67] fix: command lines keep characters outside ASCII

---
 ssh/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index 0fe4056..e3630b8 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -62,8 +62,8 @@ func (s *shellListener) EnterCommandString(ctx *shell_parser.CommandStringContex
 }
 
 func (s *shellListener) ExitCharacter(ctx *shell_parser.CharacterContext) {
-	if len(ctx.GetText()) != 0 {
-		s.currentString += string(ctx.GetText()[len(ctx.GetText())-1])
+	if text := []rune(ctx.GetText()); len(text) != 0 {
+		s.currentString += string(text[len(text)-1])
 	}
 }
 
-- 
2.43.0


From fee2662706d932dcd2632fae9bd75e2809282c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 18/67] fix: command lines keep escaped spaces at the ends of
 words and may start with spaces

---
 ssh/parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index e3630b8..fc6ce07 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -91,8 +91,9 @@ func (s *shellListener) ExitParameter(ctx *shell_parser.ParameterContext) {
 }
 
 func (s *shellListener) ExitLine(ctx *shell_parser.LineContext) {
-	s.cmd.Command = strings.TrimSpace(s.cmd.Command)
-	for i := range s.cmd.Parameters {
-		s.cmd.Parameters[i] = strings.TrimSpace(s.cmd.Parameters[i])
+	// a line starting with spaces starts with an empty command string
+	if s.cmd.Command == "" && 0 < len(s.cmd.Parameters) {
+		s.cmd.Command = s.cmd.Parameters[0]
+		s.cmd.Parameters = s.cmd.Parameters[1:]
 	}
 }
-- 
2.43.0


From 012afd522f4cb880b17170e520e9f371af041b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 19/67] fix: backslashes are escaped when a command is written
 back

---
 ssh/parser/parser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index fc6ce07..cd92f1e 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -21,17 +21,21 @@ type ParsedCommand struct {
 	Parameters []string
 }
 
+func escape(word string) string {
+	return strings.Replace(strings.Replace(word, "\\", "\\\\", -1), " ", "\\ ", -1)
+}
+
 // Unparse converts a parsed command back to a shell command
 func (c ParsedCommand) Unparse() string {
 	if len(c.Parameters) == 0 {
-		return strings.Replace(c.Command, " ", "\\ ", -1) + " "
+		return escape(c.Command) + " "
 	}
 	unparsedParams := make([]string, len(c.Parameters))
 	for i, p := range c.Parameters {
-		unparsedParams[i] = strings.Replace(p, " ", "\\ ", -1)
+		unparsedParams[i] = escape(p)
 	}
 
-	return strings.Replace(c.Command, " ", "\\ ", -1) + " " + strings.Join(unparsedParams, " ") + " "
+	return escape(c.Command) + " " + strings.Join(unparsedParams, " ") + " "
 }
 
 // ParseCommand parses an ssh command
-- 
2.43.0


From 66ddabdaa90cb978f3f8e767692b1d907ba272d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 20/67] fix: completion extends what stands before the cursor,
 whatever it is, and never crashes

---
 ssh/auto_completer.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/ssh/auto_completer.go b/ssh/auto_completer.go
index 24519a8..43eaaaf 100644
--- a/ssh/auto_completer.go
+++ b/ssh/auto_completer.go
@@ -10,20 +10,28 @@ type sshAutoCompleter struct{}
 func (sac *sshAutoCompleter) Do(line []rune, pos int) (newLine [][]rune, length int) {
 	newLine = make([][]rune, 0)
 
-	lastChar := '\x00'
-	if len(line) != 0 {
-		lastChar = line[len(line)-1]
+	// completions are inserted at the cursor and continue the word an additional character would belong to
+	typed := string(line[:pos])
+	cmd := parser.ParseCommand(typed + "x")
+	word := &cmd.Command
+	if len(cmd.Parameters) != 0 {
+		word = &cmd.Parameters[len(cmd.Parameters)-1]
 	}
+	*word = strings.TrimSuffix(*word, "x")
 
-	cmd := parser.ParseCommand(string(line))
-	if lastChar == ' ' {
-		cmd.Parameters = append(cmd.Parameters, "")
+	// completions are made from the command as it is written back, which ends with a space
+	written := len([]rune(cmd.Unparse())) - 1
+	if len(cmd.Parameters) == 0 {
+		newLine = sac.commandsWithPrefix(cmd, written, newLine)
+	} else {
+		newLine = sac.commandArgOptionsWithPrefix(cmd, written, newLine)
 	}
 
-	if len(cmd.Parameters) == 0 && lastChar != ' ' {
-		newLine = sac.commandsWithPrefix(cmd, pos, newLine)
-	} else {
-		newLine = sac.commandArgOptionsWithPrefix(cmd, pos, newLine)
+	if backslashes := len(typed) - len(strings.TrimRight(typed, "\\")); backslashes%2 == 1 {
+		// the last backslash was not escaped yet
+		for i, l := range newLine {
+			newLine[i] = append([]rune{'\\'}, l...)
+		}
 	}
 
 	length = pos
@@ -41,7 +49,7 @@ func (sac *sshAutoCompleter) commandNames() []string {
 func (sac *sshAutoCompleter) commandsWithPrefix(cmd parser.ParsedCommand, pos int, result [][]rune) [][]rune {
 	for _, c := range sac.commandNames() {
 		if strings.HasPrefix(c, cmd.Command) {
-			result = append(result, []rune((c + " ")[pos:]))
+			result = append(result, []rune(parser.ParsedCommand{Command: c}.Unparse())[pos:])
 		}
 	}
 	return result
-- 
2.43.0


From 63869c7ac567bb97b7d8abd6118f930b43a7f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:08 +0000
Subject: [PATCH 21/67] fix: users file with data after the users is an error,
 and it is closed after reading

---
 ssh/ssh.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ssh/ssh.go b/ssh/ssh.go
index b53538b..db030d8 100644
--- a/ssh/ssh.go
+++ b/ssh/ssh.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/LogicalOverflow/music-sync/logging"
 	"github.com/gliderlabs/ssh"
+	"io"
 	"os"
 )
 
@@ -27,10 +28,15 @@ func ReadUsersFile(filename string) (map[string]UserAuth, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to open users file (%s): %v", filename, err)
 	}
+	defer f.Close()
 	users := make(map[string]UserAuth)
-	if err := json.NewDecoder(f).Decode(&users); err != nil {
+	decoder := json.NewDecoder(f)
+	if err := decoder.Decode(&users); err != nil {
 		return nil, fmt.Errorf("failed to decode users file (%s): %v", filename, err)
 	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return nil, fmt.Errorf("failed to decode users file (%s): unexpected data after the users", filename)
+	}
 	return users, nil
 }
 
-- 
2.43.0


From 286b955616758a1b1903f5bf39441bb2f0401ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 22/67] fix: logging options set the level of the subsystem
 they name

---
 cmd/flags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/flags.go b/cmd/flags.go
index 81bc75d..e6cda91 100644
--- a/cmd/flags.go
+++ b/cmd/flags.go
@@ -73,7 +73,7 @@ func newLoggingFlag(name string) LoggingFlag {
 	return LoggingFlag{StringFlag: cli.StringFlag{
 		Name:  fmt.Sprintf("%s-logging", name),
 		Usage: fmt.Sprintf("sets %s logging level (values: %s)", name, levels),
-	}}
+	}, logName: name}
 }
 
 // HandleLoggingFlags sets the log levels according to the logging cli flags
@@ -82,7 +82,7 @@ func HandleLoggingFlags(ctx *cli.Context) {
 		levelName := ctx.String(FlagKey(f))
 		if levelName != "" {
 			level := log.LevelByName(levelName)
-			log.CutoffLevels[f.Name] = level
+			log.CutoffLevels[f.logName] = level
 		}
 	}
 	defaultLevelName := ctx.String("logging")
-- 
2.43.0


From e2fc1213f4c8565372ceb3650844493f61462a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 23/67] fix: a malformed volume does not change the volume

---
 schedule/server_state_commands.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 3b4c302..39b3768 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -6,6 +6,7 @@ import (
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/ssh"
 	"github.com/LogicalOverflow/music-sync/util"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -15,7 +16,7 @@ func parseFloatParam(args []string, index int) (float64, bool) {
 		return 0, false
 	}
 	v, err := strconv.ParseFloat(args[index], 64)
-	if err != nil {
+	if err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
 		return 0, false
 	}
 	return v, true
@@ -162,11 +163,11 @@ func (ss *serverState) volumeCommand() ssh.Command {
 		Usage: "volume",
 		Info:  "set the playback volume",
 		ExecFunc: func(args []string) (string, bool) {
-			var ok bool
-			ss.volume, ok = parseFloatParam(args, 0)
+			volume, ok := parseFloatParam(args, 0)
 			if !ok {
 				return "", false
 			}
+			ss.volume = volume
 			if err := ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume}); err != nil {
 				return fmt.Sprintf("failed to set volume to %.3f: %v", ss.volume, err), true
 			}
-- 
2.43.0


From 330e86e91d44a5c6204b6a5fd770217e366a9500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 24/67] fix: clients end up with the last volume set when
 volume changes and subscriptions overlap

---
 schedule/server_state.go          | 33 ++++++++++++++++++++++++++++---
 schedule/server_state_commands.go |  8 +++-----
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 31587e0..3f0ea6a 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -16,7 +16,10 @@ type serverState struct {
 	metadataProvider metadata.Provider
 
 	playlist *playback.Playlist
-	volume   float64
+
+	volume        float64
+	volumeVersion int
+	volumeMutex   sync.Mutex
 
 	newestSong *comm.NewSongInfo
 
@@ -24,8 +27,32 @@ type serverState struct {
 	pausesMutex sync.RWMutex
 }
 
-func (ss *serverState) sendVolume(s comm.MessageSender) {
-	s.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume})
+func (ss *serverState) setVolume(volume float64) error {
+	ss.volumeMutex.Lock()
+	ss.volume = volume
+	ss.volumeVersion++
+	ss.volumeMutex.Unlock()
+
+	return ss.sendVolume(ss.sender)
+}
+
+func (ss *serverState) currentVolume() (volume float64, version int) {
+	ss.volumeMutex.Lock()
+	defer ss.volumeMutex.Unlock()
+	return ss.volume, ss.volumeVersion
+}
+
+// sendVolume sends the current volume to s. If the volume changes while it is being sent, it is sent again, as
+// the new volume might have been sent before the old one.
+func (ss *serverState) sendVolume(s comm.MessageSender) (err error) {
+	for sent := -1; ; {
+		volume, version := ss.currentVolume()
+		if sent == version {
+			return err
+		}
+		err = s.SendMessage(&comm.SetVolumeRequest{Volume: volume})
+		sent = version
+	}
 }
 
 func (ss *serverState) sendNewestSong(s comm.MessageSender) {
diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 39b3768..e1e094a 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -2,7 +2,6 @@ package schedule
 
 import (
 	"fmt"
-	"github.com/LogicalOverflow/music-sync/comm"
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/ssh"
 	"github.com/LogicalOverflow/music-sync/util"
@@ -167,11 +166,10 @@ func (ss *serverState) volumeCommand() ssh.Command {
 			if !ok {
 				return "", false
 			}
-			ss.volume = volume
-			if err := ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume}); err != nil {
-				return fmt.Sprintf("failed to set volume to %.3f: %v", ss.volume, err), true
+			if err := ss.setVolume(volume); err != nil {
+				return fmt.Sprintf("failed to set volume to %.3f: %v", volume, err), true
 			}
-			return fmt.Sprintf("setting volume to %.3f", ss.volume), true
+			return fmt.Sprintf("setting volume to %.3f", volume), true
 		},
 	}
 }
-- 
2.43.0


From ce4e2dfd83d4b99ab1426dcb1d11ab1a683f804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 25/67] fix: the history of songs and pauses sent to new
 clients is complete, sorted and trimmed only once

---
 schedule/server_state.go | 68 +++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 3f0ea6a..6352340 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -21,10 +21,9 @@ type serverState struct {
 	volumeVersion int
 	volumeMutex   sync.Mutex
 
-	newestSong *comm.NewSongInfo
-
-	pauses      []*comm.PauseInfo
-	pausesMutex sync.RWMutex
+	newestSong  *comm.NewSongInfo
+	pauses      []*comm.PauseInfo // sorted by their sample index
+	pausesMutex sync.RWMutex      // guards newestSong and pauses
 }
 
 func (ss *serverState) setVolume(volume float64) error {
@@ -56,17 +55,25 @@ func (ss *serverState) sendVolume(s comm.MessageSender) (err error) {
 }
 
 func (ss *serverState) sendNewestSong(s comm.MessageSender) {
-	if ss.newestSong != nil {
-		s.SendMessage(ss.newestSong)
+	ss.pausesMutex.RLock()
+	newestSong := ss.newestSong
+	ss.pausesMutex.RUnlock()
+
+	if newestSong != nil {
+		s.SendMessage(newestSong)
 	}
 }
 
 func (ss *serverState) sendPauses(s comm.MessageSender) {
 	ss.pausesMutex.RLock()
-	for _, p := range ss.pauses {
+	pauses := make([]*comm.PauseInfo, len(ss.pauses))
+	copy(pauses, ss.pauses)
+	ss.pausesMutex.RUnlock()
+
+	// not while holding the lock, so that a client that does not read does not stop the others from being informed
+	for _, p := range pauses {
 		s.SendMessage(p)
 	}
-	ss.pausesMutex.RUnlock()
 }
 
 func (ss *serverState) createClientHandler() func(comm.Channel, comm.MessageSender) {
@@ -104,7 +111,7 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 
 		md := ss.metadataProvider.CollectMetadata(filename)
 
-		ss.newestSong = &comm.NewSongInfo{
+		newSong := &comm.NewSongInfo{
 			FirstSampleOfSongIndex: startSampleIndex,
 			SongFileName:           filename,
 			SongLength:             songLength,
@@ -115,7 +122,8 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 				Album:  md.Album,
 			},
 		}
-		ss.sender.SendMessage(ss.newestSong)
+		ss.setNewestSong(newSong)
+		ss.sender.SendMessage(newSong)
 	}
 }
 
@@ -125,23 +133,40 @@ func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 			Playing:           playing,
 			ToggleSampleIndex: sample,
 		}
-		go func(pause *comm.PauseInfo) {
-			ss.pausesMutex.Lock()
-			defer ss.pausesMutex.Unlock()
-			ss.pauses = append(ss.pauses, pause)
-			go ss.removeOldPauses()
-		}(pause)
+		// before it is sent, so that a client subscribing now gets it either way
+		ss.addPause(pause)
+		ss.removeOldPauses()
 		ss.sender.SendMessage(pause)
 	}
 }
 
-func (ss *serverState) removablePauses() int {
-	if ss.newestSong == nil {
-		return 0
+// setNewestSong sets the newest song, unless it already is a song starting later.
+func (ss *serverState) setNewestSong(song *comm.NewSongInfo) {
+	ss.pausesMutex.Lock()
+	defer ss.pausesMutex.Unlock()
+	if ss.newestSong == nil || ss.newestSong.FirstSampleOfSongIndex <= song.FirstSampleOfSongIndex {
+		ss.newestSong = song
 	}
+}
 
+// addPause inserts pause at its place in the pauses.
+func (ss *serverState) addPause(pause *comm.PauseInfo) {
 	ss.pausesMutex.Lock()
 	defer ss.pausesMutex.Unlock()
+	index := len(ss.pauses)
+	for 0 < index && pause.ToggleSampleIndex < ss.pauses[index-1].ToggleSampleIndex {
+		index--
+	}
+	ss.pauses = append(ss.pauses, nil)
+	copy(ss.pauses[index+1:], ss.pauses[index:])
+	ss.pauses[index] = pause
+}
+
+// removablePauses returns the number of pauses, which are no longer needed. The pausesMutex has to be held.
+func (ss *serverState) removablePauses() int {
+	if ss.newestSong == nil {
+		return 0
+	}
 
 	passed := 0
 	for i, p := range ss.pauses {
@@ -156,11 +181,10 @@ func (ss *serverState) removablePauses() int {
 }
 
 func (ss *serverState) removeOldPauses() {
+	ss.pausesMutex.Lock()
+	defer ss.pausesMutex.Unlock()
 	removable := ss.removablePauses()
 	if 0 < removable {
-		ss.pausesMutex.Lock()
-		defer ss.pausesMutex.Unlock()
-
 		copy(ss.pauses, ss.pauses[removable:])
 		for i := len(ss.pauses) - removable; i < len(ss.pauses); i++ {
 			ss.pauses[i] = nil
-- 
2.43.0


From 0057a940988d4ebe3973d0c27a6c2fbfa5bb4977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:09 +0000
Subject: [PATCH 26/67] fix: a volume received before playback is initialised
 is kept

---
 playback/playback.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/playback/playback.go b/playback/playback.go
index 6067e5f..cfcf317 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -24,7 +24,7 @@ var (
 	format     beep.Format
 	streamer   *timedMultiStreamer
 	bufferSize int
-	volume     float64
+	volume     = .1
 )
 
 var logger = log.GetLogger("play")
@@ -82,7 +82,6 @@ func Init(sampleRate int) error {
 	logger.Infof("initializing playback")
 	var err error
 
-	volume = .1
 	format = beep.Format{SampleRate: beep.SampleRate(sampleRate), NumChannels: 2, Precision: 2}
 
 	bufferSize = format.SampleRate.N(time.Second / 10)
-- 
2.43.0


From 964009942152bbae10f42e43737793f2a62a91f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:29 +0000
Subject: [PATCH 27/67] fix: chunks are sent the stream delay before they are
 played, also after something blocked

---
 schedule/server_state.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 6352340..6d68523 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -197,7 +197,7 @@ func (ss *serverState) streamMusic() {
 	time.Sleep(StreamStartDelay)
 	start := timing.GetSyncedTime() + int64(StreamDelay/time.Nanosecond)
 	index := int64(0)
-	for range time.Tick(StreamChunkTime) {
+	for ; ; sleepUntil(start + index*int64(StreamChunkTime/time.Nanosecond) - int64(StreamDelay/time.Nanosecond)) {
 		low := make([]float64, StreamChunkSize)
 		high := make([]float64, StreamChunkSize)
 
@@ -218,3 +218,9 @@ func (ss *serverState) streamMusic() {
 		index++
 	}
 }
+
+// sleepUntil sleeps until the synced time is t. Unlike a ticker, it does not fall behind for good if something blocks
+// for a long time.
+func sleepUntil(t int64) {
+	time.Sleep(time.Duration(t-timing.GetSyncedTime()) * time.Nanosecond)
+}
-- 
2.43.0


From 97c54d0f103772bace43b587078a1babe9db2cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 28/67] fix: files are listed relative to the music dir however
 it is written, and only files inside of it

---
 util/file_utils.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index f8b27c7..533f4d0 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -35,23 +35,21 @@ func walker(root string, pathTransform func(string) string, pathFilter func(stri
 }
 
 func removeDirPrefix(path string, prefix string) string {
-	if strings.HasPrefix(path, prefix) {
-		path = path[len(prefix):]
+	rel, err := filepath.Rel(prefix, path)
+	if err != nil || rel == "." {
+		return ""
 	}
-	if strings.HasPrefix(path, "/") || strings.HasPrefix(path, "\\") {
-		path = path[1:]
-	}
-	return path
+	return rel
+}
+
+// inDir returns the path to name in dir, name can not leave dir (with an empty name, the path ends with a separator)
+func inDir(dir string, name string) string {
+	return filepath.Clean(dir) + filepath.Join(string(os.PathSeparator), name)
 }
 
 // ListAllFiles recursively lists all files in songsDir/subDir
 func ListAllFiles(songsDir string, subDir string) []string {
-	dir := songsDir
-	if subDir != "" {
-		dir = filepath.Join(songsDir, subDir)
-	}
-
-	return walker(dir, func(path string) string {
+	return walker(inDir(songsDir, subDir), func(path string) string {
 		return removeDirPrefix(path, songsDir)
 	}, func(path string, f os.FileInfo) bool {
 		return path != "" && !f.IsDir()
@@ -60,7 +58,7 @@ func ListAllFiles(songsDir string, subDir string) []string {
 
 // ListAllSubDirs recursively lists all directories in dir
 func ListAllSubDirs(dir string) []string {
-	return walker(dir, func(path string) string {
+	return walker(inDir(dir, ""), func(path string) string {
 		return removeDirPrefix(path, dir)
 	}, func(path string, f os.FileInfo) bool {
 		return path != "" && f.IsDir()
@@ -69,7 +67,7 @@ func ListAllSubDirs(dir string) []string {
 
 // ListGlobFiles lists all files in a directory matching the provided glob pattern
 func ListGlobFiles(dir, pattern string) ([]string, error) {
-	matches, err := filepath.Glob(filepath.Join(dir, pattern))
+	matches, err := filepath.Glob(inDir(dir, pattern))
 	if err != nil {
 		return []string{}, err
 	}
-- 
2.43.0


From eee52c6ca99b620a06780eec6b6c313e5ef30e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 29/67] fix: songs whose names or music dir contain pattern
 characters can be queued

---
 util/file_utils.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index 533f4d0..cab28e3 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -65,9 +65,20 @@ func ListAllSubDirs(dir string) []string {
 	})
 }
 
-// ListGlobFiles lists all files in a directory matching the provided glob pattern
+// globEscape escapes all characters of path which have a special meaning in glob patterns
+func globEscape(path string) string {
+	if os.PathSeparator == '\\' {
+		return path // there, nothing can be escaped
+	}
+	return strings.NewReplacer("\\", "\\\\", "*", "\\*", "?", "\\?", "[", "\\[").Replace(path)
+}
+
+// ListGlobFiles lists all files in a directory matching the provided glob pattern (or only the file with that name)
 func ListGlobFiles(dir, pattern string) ([]string, error) {
-	matches, err := filepath.Glob(inDir(dir, pattern))
+	if named := inDir(dir, pattern); IsFile(named) {
+		return []string{removeDirPrefix(named, dir)}, nil
+	}
+	matches, err := filepath.Glob(inDir(globEscape(dir), pattern))
 	if err != nil {
 		return []string{}, err
 	}
-- 
2.43.0


From 95d100a3f95ac5599c64078cab02e8cdf81d1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 30/67] fix: a sub directory that can not be read does not hide
 the songs after it

---
 util/file_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index cab28e3..67dce2c 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -23,7 +23,7 @@ func walker(root string, pathTransform func(string) string, pathFilter func(stri
 	walked := make([]string, 0)
 	filepath.Walk(root, func(path string, f os.FileInfo, err error) error {
 		if err != nil {
-			return err
+			return nil // only skip what can not be read
 		}
 		path = pathTransform(path)
 		if pathFilter(path, f) {
-- 
2.43.0


From d41296329c4e7bc40b5588893c30d2b9ee3c3ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 31/67] fix: a song on which the decoder panics is skipped
 instead of crashing the server

---
 playback/playback.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/playback/playback.go b/playback/playback.go
index cfcf317..c434777 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -32,6 +32,31 @@ var logger = log.GetLogger("play")
 // AudioDir is the directory containing the audio file
 var AudioDir string
 
+// songStreamer streams a song, ending where the decoder panics, as it does with some damaged files
+type songStreamer struct {
+	beep.StreamSeekCloser
+}
+
+func (s songStreamer) Stream(samples [][2]float64) (n int, ok bool) {
+	defer func() {
+		if r := recover(); r != nil {
+			logger.Warnf("failed to decode song: %v", r)
+			n, ok = 0, false
+		}
+	}()
+	return s.StreamSeekCloser.Stream(samples)
+}
+
+func decodeSong(f *os.File) (s beep.StreamSeekCloser, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("decoder failed: %v", r)
+		}
+	}()
+	s, _, err = mp3.Decode(f)
+	return songStreamer{s}, err
+}
+
 func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 	filename = path.Join(AudioDir, filename)
 	f, err := os.Open(filename)
@@ -39,7 +64,7 @@ func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 		return nil, fmt.Errorf("failed to open file %s: %v", filename, err)
 	}
 
-	s, _, err := mp3.Decode(f)
+	s, err := decodeSong(f)
 	if err != nil {
 		f.Close()
 		return nil, fmt.Errorf("failed to decode file %s: %v", filename, err)
-- 
2.43.0


From 75acdeb7f8f7aff85e9bd2e79e1ff05c6cba2370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:15 +0000
Subject: [PATCH 32/67] fix: close lyrics and song files after reading lyrics
 and metadata

---
 metadata/lyrics_provider.go   | 1 +
 metadata/metadata_provider.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/metadata/lyrics_provider.go b/metadata/lyrics_provider.go
index 6662714..f7bfee5 100644
--- a/metadata/lyrics_provider.go
+++ b/metadata/lyrics_provider.go
@@ -38,6 +38,7 @@ func (basicLyricsProvider) CollectLyrics(song string) []LyricsLine {
 	if err != nil {
 		return []LyricsLine{}
 	}
+	defer f.Close()
 	result := make([]LyricsLine, 0)
 
 	if err := json.NewDecoder(f).Decode(&result); err != nil {
diff --git a/metadata/metadata_provider.go b/metadata/metadata_provider.go
index 7742357..2edab97 100644
--- a/metadata/metadata_provider.go
+++ b/metadata/metadata_provider.go
@@ -36,6 +36,7 @@ func (basicProvider) CollectMetadata(song string) SongMetadata {
 	if err != nil {
 		return SongMetadata{}
 	}
+	defer f.Close()
 	md, err := tag.ReadFrom(f)
 	if err != nil {
 		return SongMetadata{}
-- 
2.43.0


From d65a696137b278be5db51c71d353f1b3f6cffc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 33/67] fix: a lyrics file with data after the lyrics is
 malformed

---
 metadata/lyrics_provider.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/lyrics_provider.go b/metadata/lyrics_provider.go
index f7bfee5..e1564f4 100644
--- a/metadata/lyrics_provider.go
+++ b/metadata/lyrics_provider.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/util"
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -41,7 +42,11 @@ func (basicLyricsProvider) CollectLyrics(song string) []LyricsLine {
 	defer f.Close()
 	result := make([]LyricsLine, 0)
 
-	if err := json.NewDecoder(f).Decode(&result); err != nil {
+	d := json.NewDecoder(f)
+	if err := d.Decode(&result); err != nil {
+		return []LyricsLine{}
+	}
+	if err := d.Decode(new(json.RawMessage)); err != io.EOF {
 		return []LyricsLine{}
 	}
 
-- 
2.43.0


From bc7683f4e6bf164ad4f65704fc3b21a3becdea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 34/67] fix: songs with ID3v1 tags in ISO 8859-1 are announced,
 with their metadata

---
 metadata/metadata_provider.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/metadata/metadata_provider.go b/metadata/metadata_provider.go
index 2edab97..e8cd8d0 100644
--- a/metadata/metadata_provider.go
+++ b/metadata/metadata_provider.go
@@ -6,6 +6,7 @@ import (
 	"github.com/dhowden/tag"
 	"os"
 	"path/filepath"
+	"unicode/utf8"
 )
 
 // Provider is used to get metadata for songs
@@ -42,8 +43,20 @@ func (basicProvider) CollectMetadata(song string) SongMetadata {
 		return SongMetadata{}
 	}
 	return SongMetadata{
-		Title:  md.Title(),
-		Artist: md.Artist(),
-		Album:  md.Album(),
+		Title:  validText(md.Title()),
+		Artist: validText(md.Artist()),
+		Album:  validText(md.Album()),
 	}
 }
+
+// validText returns s as UTF-8: tags without an encoding (as ID3v1) are usually written in ISO 8859-1
+func validText(s string) string {
+	if utf8.ValidString(s) {
+		return s
+	}
+	runes := make([]rune, len(s))
+	for i := range runes {
+		runes[i] = rune(s[i])
+	}
+	return string(runes)
+}
-- 
2.43.0


From b4a6eb2f4a64f4ae7f54cbf36f30d86ac62267ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 35/67] fix: a song with a corrupted tag the tag library panics
 on is announced without metadata instead of crashing the server

---
 metadata/metadata_provider.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata_provider.go b/metadata/metadata_provider.go
index e8cd8d0..36ca940 100644
--- a/metadata/metadata_provider.go
+++ b/metadata/metadata_provider.go
@@ -4,6 +4,7 @@ import (
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/util"
 	"github.com/dhowden/tag"
+	"io"
 	"os"
 	"path/filepath"
 	"unicode/utf8"
@@ -38,7 +39,16 @@ func (basicProvider) CollectMetadata(song string) SongMetadata {
 		return SongMetadata{}
 	}
 	defer f.Close()
-	md, err := tag.ReadFrom(f)
+	return readMetadata(f)
+}
+
+func readMetadata(r io.ReadSeeker) (result SongMetadata) {
+	defer func() {
+		if err := recover(); err != nil { // the tag library panics on some corrupted tags
+			result = SongMetadata{}
+		}
+	}()
+	md, err := tag.ReadFrom(r)
 	if err != nil {
 		return SongMetadata{}
 	}
-- 
2.43.0


From ec6a3c60f2807ea12f17a34f7f4dc655128ad009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 36/67] fix: songs whose file names are not valid UTF-8 are
 announced

---
 schedule/server_state.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 6d68523..75d5829 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -5,6 +5,7 @@ import (
 	"github.com/LogicalOverflow/music-sync/metadata"
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/timing"
+	"strings"
 	"sync"
 	"time"
 )
@@ -113,7 +114,7 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 
 		newSong := &comm.NewSongInfo{
 			FirstSampleOfSongIndex: startSampleIndex,
-			SongFileName:           filename,
+			SongFileName:           strings.ToValidUTF8(filename, "\uFFFD"), // could not be sent otherwise
 			SongLength:             songLength,
 			Lyrics:                 wireLyrics,
 			Metadata: &comm.NewSongInfo_SongMetadata{
-- 
2.43.0


From bd518b7ca52174fe39c92228360ebf2325c93551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:49 +0000
Subject: [PATCH 37/67] fix: a line abandoned with ^C is not executed

---
 ssh/session_handler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index d6e539c..838e050 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -112,6 +112,7 @@ func (s *session) readLoop() {
 	for {
 		line, err := s.ex.Readline()
 		if err == readline.ErrInterrupt {
+			continue // the line is abandoned
 		} else if err == io.EOF {
 			logger.Infof("connection %s as %s closed", s.RemoteAddr(), s.User())
 			return
-- 
2.43.0


From ac25aab629911f0a292f2ae66020cbd4502c0908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:49 +0000
Subject: [PATCH 38/67] fix: songs queued at a position outside of the playlist
 keep their order

---
 schedule/server_state_commands.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index e1e094a..e6de60b 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -56,6 +56,12 @@ func (ss *serverState) queueCommandExec(args []string) (string, bool) {
 
 	var insert func(string, int)
 	if pos, ok := parseIntParam(args, 1); ok {
+		// clipped before songs are inserted one behind the other
+		if pos < 0 {
+			pos = 0
+		} else if l := len(ss.playlist.Songs()); l < pos {
+			pos = l
+		}
 		insert = func(s string, i int) { ss.playlist.InsertSong(s, pos+i) }
 	} else {
 		insert = func(s string, _ int) { ss.playlist.AddSong(s) }
-- 
2.43.0


From f1581f7a9b110495e2c7422257bd983ebf79ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:49 +0000
Subject: [PATCH 39/67] fix: removing from an empty playlist is not reported as
 the removal of a song

---
 schedule/server_state_commands.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index e6de60b..b780bef 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -141,6 +141,9 @@ func (ss *serverState) removeCommand() ssh.Command {
 				return "", false
 			}
 			song := ss.playlist.RemoveSong(pos)
+			if song == "" {
+				return "the playlist is empty", true
+			}
 			return fmt.Sprintf("removed song %s at position %d from playlist", song, pos), true
 		},
 	}
-- 
2.43.0


From 65534f437a08ad9f88f4f50631fcdb323e0c7ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:34 +0000
Subject: [PATCH 40/67] fix: before the stream begins future pauses do not
 count as passed

---
 cmd/music-sync-infoer/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index cba440d..4cdca43 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -75,7 +75,7 @@ type pausesInCurrentSongState struct {
 }
 
 func (picss *pausesInCurrentSongState) handlePause(sample int64, p pauseToggle, startIndex uint64) {
-	if uint64(sample) <= p.toggleIndex || picss.playing == p.playing {
+	if sample <= int64(p.toggleIndex) || picss.playing == p.playing {
 		return
 	}
 
-- 
2.43.0


From 84adebdbb42c967ae66ed15ed47cec22dee3a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:34 +0000
Subject: [PATCH 41/67] fix: show position and length of a song starting at
 sample 0

---
 cmd/music-sync-infoer/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index 4cdca43..3ad347c 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -47,7 +47,7 @@ func (s *state) Info(now int64) *playbackInformation {
 	var songLength, timeInSong time.Duration
 	var progressInSong float64
 
-	if currentSong.startIndex != 0 && int64(currentSong.startIndex) < sample {
+	if (currentSong.startIndex != 0 || currentSong.length != 0) && int64(currentSong.startIndex) < sample {
 		sampleInSong := sample - int64(currentSong.startIndex) - pausesInCurrentSong
 		timeInSong = time.Duration(sampleInSong) * time.Second / time.Duration(schedule.SampleRate) / time.Nanosecond
 		if 0 < currentSong.length {
-- 
2.43.0


From b2538e32ff4755102555cbe6e7c0bcfb97173110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:12 +0000
Subject: [PATCH 42/67] fix: position and length of songs of many hours do not
 overflow in the info display

---
 cmd/music-sync-infoer/state.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index 3ad347c..fd34ace 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -49,11 +49,11 @@ func (s *state) Info(now int64) *playbackInformation {
 
 	if (currentSong.startIndex != 0 || currentSong.length != 0) && int64(currentSong.startIndex) < sample {
 		sampleInSong := sample - int64(currentSong.startIndex) - pausesInCurrentSong
-		timeInSong = time.Duration(sampleInSong) * time.Second / time.Duration(schedule.SampleRate) / time.Nanosecond
+		timeInSong = samplesToDuration(sampleInSong)
 		if 0 < currentSong.length {
 			progressInSong = float64(sampleInSong) / float64(currentSong.length)
 		}
-		songLength = time.Duration(currentSong.length) * time.Second / time.Duration(schedule.SampleRate) / time.Nanosecond
+		songLength = samplesToDuration(currentSong.length)
 	}
 
 	return &playbackInformation{
@@ -68,6 +68,12 @@ func (s *state) Info(now int64) *playbackInformation {
 		ProgressInSong:      progressInSong}
 }
 
+// samplesToDuration converts whole seconds and the rest separately, so that days of samples do not overflow
+func samplesToDuration(samples int64) time.Duration {
+	sampleRate := int64(schedule.SampleRate)
+	return time.Duration(samples/sampleRate)*time.Second + time.Duration(samples%sampleRate)*time.Second/time.Duration(sampleRate)
+}
+
 type pausesInCurrentSongState struct {
 	playing             bool
 	pausesInCurrentSong int64
-- 
2.43.0


From 80d88a62145900a3d6c47700b8027420ee76a95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:17 +0000
Subject: [PATCH 43/67] fix: texts are drawn one cell after the other, whatever
 characters they are made of

---
 cmd/music-sync-infoer/drawing.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index 7dbd956..141d786 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/gdamore/tcell"
 	"math"
+	"unicode"
 )
 
 type drawer struct {
@@ -29,8 +30,21 @@ func (d *drawer) eventLoop() {
 }
 
 func (d *drawer) drawString(x, y int, style tcell.Style, str string) {
+	last := x
 	for i, r := range str {
-		d.SetContent(x+i, y, r, nil, style)
+		if 0 < i && unicode.Is(unicode.Mn, r) {
+			// marks are part of the character before them
+			mainc, combc, _, _ := d.GetContent(last, y)
+			d.SetContent(last, y, mainc, append(combc, r), style)
+			continue
+		}
+		d.SetContent(x, y, r, nil, style)
+		last = x
+		if _, _, _, width := d.GetContent(x, y); 1 < width {
+			x += width
+		} else {
+			x++
+		}
 	}
 }
 
-- 
2.43.0


From fabdc24b88dda925a95e5919f894a9bff1b9a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:17 +0000
Subject: [PATCH 44/67] fix: the infoer reports that it can not connect instead
 of crashing

---
 cmd/music-sync-infoer/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index 32f37a4..b639fde 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -48,14 +48,14 @@ func run(ctx *cli.Context) error {
 
 	schedule.SampleRate = sampleRate
 
-	s := createTcellScreen()
-
 	server := fmt.Sprintf("%s:%d", serverAddress, serverPort)
 	sender, err := comm.ConnectToServer(server, newInfoerPackageHandler())
 	if err != nil {
-		cli.NewExitError(err, 1)
+		return cli.NewExitError(err, 1)
 	}
 
+	s := createTcellScreen()
+
 	go schedule.Infoer(sender)
 
 	tcellLoop(s)
-- 
2.43.0


From 5cfa1a61e9587cac1bdc735816513bccb7c9d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:17 +0000
Subject: [PATCH 45/67] fix: sample rates and chunk sizes which are not
 positive are errors instead of crashing

---
 cmd/music-sync-infoer/main.go |  3 +++
 cmd/music-sync-player/main.go |  3 +++
 cmd/music-sync-server/main.go | 14 ++++++++++++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index b639fde..47d85d3 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -46,6 +46,9 @@ func run(ctx *cli.Context) error {
 	)
 	lyricsHistorySize = int(ctx.Uint(cmd.FlagKey(cmd.LyricsHistorySizeFlag)))
 
+	if sampleRate <= 0 {
+		return cli.NewExitError(fmt.Sprintf("invalid sample rate: %d", sampleRate), 1)
+	}
 	schedule.SampleRate = sampleRate
 
 	server := fmt.Sprintf("%s:%d", serverAddress, serverPort)
diff --git a/cmd/music-sync-player/main.go b/cmd/music-sync-player/main.go
index b3c3b78..1759769 100644
--- a/cmd/music-sync-player/main.go
+++ b/cmd/music-sync-player/main.go
@@ -40,6 +40,9 @@ func run(ctx *cli.Context) error {
 		sampleRate = ctx.Int(cmd.FlagKey(cmd.SampleRateFlag))
 	)
 
+	if sampleRate <= 0 {
+		return cli.NewExitError(fmt.Sprintf("invalid sample rate: %d", sampleRate), 1)
+	}
 	schedule.SampleRate = sampleRate
 
 	server := fmt.Sprintf("%s:%d", serverAddress, serverPort)
diff --git a/cmd/music-sync-server/main.go b/cmd/music-sync-server/main.go
index a5f1fe5..032808f 100644
--- a/cmd/music-sync-server/main.go
+++ b/cmd/music-sync-server/main.go
@@ -44,7 +44,7 @@ func main() {
 	}
 }
 
-func setScheduleVars(ctx *cli.Context) {
+func setScheduleVars(ctx *cli.Context) error {
 	var (
 		timeSyncInterval   = ctx.Duration(cmd.FlagKey(cmd.TimeSyncIntervalFlag))
 		timeSyncCycles     = ctx.Int(cmd.FlagKey(cmd.TimeSyncCyclesFlag))
@@ -56,6 +56,13 @@ func setScheduleVars(ctx *cli.Context) {
 		sampleRate         = ctx.Int(cmd.FlagKey(cmd.SampleRateFlag))
 	)
 
+	if sampleRate <= 0 {
+		return fmt.Errorf("invalid sample rate: %d", sampleRate)
+	}
+	if streamChunkSize <= 0 {
+		return fmt.Errorf("invalid stream chunk size: %d", streamChunkSize)
+	}
+
 	schedule.TimeSyncInterval = timeSyncInterval
 	schedule.TimeSyncCycles = timeSyncCycles
 	schedule.TimeSyncCycleDelay = timeSyncCycleDelay
@@ -66,6 +73,7 @@ func setScheduleVars(ctx *cli.Context) {
 	schedule.StreamDelay = streamDelay
 	schedule.SampleRate = sampleRate
 
+	return nil
 }
 
 func run(ctx *cli.Context) error {
@@ -88,7 +96,9 @@ func run(ctx *cli.Context) error {
 	}
 
 	playback.AudioDir = musicDir
-	setScheduleVars(ctx)
+	if err := setScheduleVars(ctx); err != nil {
+		return cli.NewExitError(err, 1)
+	}
 
 	sender, err := comm.StartServer(listen)
 	if err != nil {
-- 
2.43.0


From c211dae5520eb9cf2c518cbf7e69ac8946354b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:17 +0000
Subject: [PATCH 46/67] fix: the server ends with an error if its ssh control
 interface can not be started

---
 cmd/music-sync-server/main.go | 6 +++++-
 ssh/ssh.go                    | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/music-sync-server/main.go b/cmd/music-sync-server/main.go
index 032808f..e03a322 100644
--- a/cmd/music-sync-server/main.go
+++ b/cmd/music-sync-server/main.go
@@ -111,7 +111,11 @@ func run(ctx *cli.Context) error {
 	}
 
 	ssh.HostKeyFile = sshKeyFile
-	go ssh.StartSSH(sshListen, users)
+	go func() {
+		err := ssh.StartSSH(sshListen, users)
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}()
 	go schedule.Server(sender)
 
 	cmd.WaitForInterrupt()
diff --git a/ssh/ssh.go b/ssh/ssh.go
index db030d8..5f48cc8 100644
--- a/ssh/ssh.go
+++ b/ssh/ssh.go
@@ -41,12 +41,13 @@ func ReadUsersFile(filename string) (map[string]UserAuth, error) {
 }
 
 // StartSSH starts the ssh control interface on listening on address and accepting all users with the respective
-// passwords in the users dict (user->password)
-func StartSSH(address string, users map[string]UserAuth) {
+// passwords in the users dict (user->password). It only returns if the control interface cannot be started or stops.
+func StartSSH(address string, users map[string]UserAuth) error {
 	ssh.Handle(sessionHandler)
 
 	options := getSSHOptions(users)
 	logger.Infof("starting ssh server at %s", address)
 	err := ssh.ListenAndServe(address, nil, options...)
 	logger.Errorf("ssh server at %s stopped: %v", address, err)
+	return fmt.Errorf("ssh server at %s stopped: %v", address, err)
 }
-- 
2.43.0


From 8e9df88b55d33b0e314c39aee407a7edb76bd6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 47/67] fix: samples due more than 58 hours ahead do not
 overflow to a negative silence

---
 playback/streamer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index fd03eb7..d4e5b79 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -99,7 +99,9 @@ func (tms *timedMultiStreamer) samplesDuration(n int) int64 {
 }
 
 func (tms *timedMultiStreamer) samplesCount(n int64) int {
-	return tms.format.SampleRate.N(time.Duration(n) * time.Nanosecond)
+	// whole seconds and the rest separately, so that days do not overflow
+	sampleRate := tms.format.SampleRate
+	return int(n/int64(time.Second))*int(sampleRate) + sampleRate.N(time.Duration(n%int64(time.Second))*time.Nanosecond)
 }
 
 func (tms *timedMultiStreamer) Err() error { return nil }
-- 
2.43.0


From a43e181459ca9152ac3da7f0429b0069aa169691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:34 +0000
Subject: [PATCH 48/67] fix: chunks are queued in the order in which they were
 received

Each chunk was queued by a goroutine of its own, so that two chunks received right after each other (after the network
stalled) could be queued and played in the wrong order. The lock needed for queuing is no longer held while the samples
wait to be played, as that would now keep the player from handling other messages.
---
 comm/package_handler.go |  3 ++-
 playback/streamer.go    | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/comm/package_handler.go b/comm/package_handler.go
index 59c8792..e4d9ea7 100644
--- a/comm/package_handler.go
+++ b/comm/package_handler.go
@@ -66,7 +66,8 @@ func (t TypedPackageHandler) Handle(message proto.Message, sender net.Conn) {
 	case *TimeSyncResponse:
 		go t.HandleTimeSyncResponse(message.(*TimeSyncResponse), sender)
 	case *QueueChunkRequest:
-		go t.HandleQueueChunkRequest(message.(*QueueChunkRequest), sender)
+		// not in its own goroutine, as chunks have to be queued in the order in which they were received
+		t.HandleQueueChunkRequest(message.(*QueueChunkRequest), sender)
 	case *PingMessage:
 		go t.HandlePingMessage(message.(*PingMessage), sender)
 	case *PongMessage:
diff --git a/playback/streamer.go b/playback/streamer.go
index d4e5b79..64f574e 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -79,15 +79,15 @@ func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n in
 func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
 	for !util.IsCanceled(ctx) {
 		if 0 < len(tms.chunks) {
-			tms.chunksMutex.RLock()
-			st := tms.chunks[0].startTime
-			for i, s := range tms.chunks[0].samples {
-				tms.samples.Add(s, st+tms.samplesDuration(i))
-			}
-			tms.chunksMutex.RUnlock()
 			tms.chunksMutex.Lock()
+			chunk := tms.chunks[0]
 			tms.chunks = tms.chunks[1:]
 			tms.chunksMutex.Unlock()
+			// without the lock, so that further chunks can be queued while the samples wait to be played
+			st := chunk.startTime
+			for i, s := range chunk.samples {
+				tms.samples.Add(s, st+tms.samplesDuration(i))
+			}
 		} else {
 			time.Sleep(time.Millisecond)
 		}
-- 
2.43.0


From 0273054ba0db610e616e64665d58890cd24960d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:34 +0000
Subject: [PATCH 49/67] fix: players subscribe to the audio after their first
 time sync

Chunks received before the time is synced were dropped, or played right away and out of sync, if the clock of the player
was ahead of the server's.
---
 schedule/player.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/schedule/player.go b/schedule/player.go
index 184c08d..c8174d1 100644
--- a/schedule/player.go
+++ b/schedule/player.go
@@ -18,15 +18,17 @@ func Player(sender comm.MessageSender) {
 
 	go func() {
 		syncTime(sender)
+		// only now, as chunks could be dropped or played at the wrong time before the time is synced
+		go subscribeToAudio(sender)
 		for range time.Tick(TimeSyncInterval) {
 			syncTime(sender)
 		}
 	}()
+}
 
-	go func() {
-		if err := sender.SendMessage(&comm.SubscribeChannelRequest{Channel: comm.Channel_AUDIO}); err != nil {
-			logger.Errorf("failed to subscribe to audio channel")
-			os.Exit(1)
-		}
-	}()
+func subscribeToAudio(sender comm.MessageSender) {
+	if err := sender.SendMessage(&comm.SubscribeChannelRequest{Channel: comm.Channel_AUDIO}); err != nil {
+		logger.Errorf("failed to subscribe to audio channel")
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 4c0b74664886711f2f5171cc2f50040254e7a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:44 +0000
Subject: [PATCH 50/67] fix: each client is sent the chunks in order, also
 after the playlist or the client blocked

---
 comm/message_sender.go   | 51 ++++++++++++++++++++++++++++++++++++----
 schedule/server_state.go |  9 +++----
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index b40db26..5bee846 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -16,16 +16,60 @@ type MessageSender interface {
 	SendMessage(m proto.Message) error
 }
 
+// Enqueue returns a function, which sends m with sender. It has to be called, but might be called in another goroutine:
+// each client receives the messages enqueued for it in the order of the calls of Enqueue.
+func Enqueue(sender MessageSender, m proto.Message) func() error {
+	if mms, ok := sender.(*multiMessageSender); ok {
+		return mms.enqueue(m)
+	}
+	return func() error { return sender.SendMessage(m) }
+}
+
 type multiMessageSender struct {
 	connections []net.Conn
 	channels    map[net.Conn][]Channel
+	enqueued    map[net.Conn]<-chan struct{} // closed after the last message enqueued for a connection was sent
 	mutex       sync.RWMutex
 }
 
 func (mms *multiMessageSender) SendMessage(m proto.Message) error {
+	mms.mutex.RLock()
+	receivers := mms.receivers(m)
+	mms.mutex.RUnlock()
+
 	// nothing is sent while holding the mutex: a client that does not read must not block all others
+	return sendToAll(receivers, func(c net.Conn) error { return sendWire(m, c) })
+}
+
+func (mms *multiMessageSender) enqueue(m proto.Message) func() error {
+	mms.mutex.Lock()
+	defer mms.mutex.Unlock()
+
 	receivers := mms.receivers(m)
+	if mms.enqueued == nil {
+		mms.enqueued = make(map[net.Conn]<-chan struct{})
+	}
+	previous := make(map[net.Conn]<-chan struct{}, len(receivers))
+	sent := make(map[net.Conn]chan struct{}, len(receivers))
+	for _, c := range receivers {
+		previous[c] = mms.enqueued[c]
+		sent[c] = make(chan struct{})
+		mms.enqueued[c] = sent[c]
+	}
+
+	return func() error {
+		return sendToAll(receivers, func(c net.Conn) error {
+			defer close(sent[c])
+			if previous[c] != nil {
+				<-previous[c]
+			}
+			return sendWire(m, c)
+		})
+	}
+}
 
+// sendToAll calls send for all receivers at the same time.
+func sendToAll(receivers []net.Conn, send func(net.Conn) error) error {
 	var errCol util.ErrorCollector
 	var wg sync.WaitGroup
 	wg.Add(len(receivers))
@@ -33,7 +77,7 @@ func (mms *multiMessageSender) SendMessage(m proto.Message) error {
 	for _, c := range receivers {
 		go func(c net.Conn) {
 			defer wg.Done()
-			if err := sendWire(m, c); err != nil {
+			if err := send(c); err != nil {
 				errCol.Add(err)
 			}
 		}(c)
@@ -45,10 +89,8 @@ func (mms *multiMessageSender) SendMessage(m proto.Message) error {
 	return errCol.Err("failed to send to %d clients: ")
 }
 
+// receivers returns the connections to send m to. The mutex has to be held.
 func (mms *multiMessageSender) receivers(m proto.Message) []net.Conn {
-	mms.mutex.RLock()
-	defer mms.mutex.RUnlock()
-
 	chs, hasCh := channelOf(m)
 	receivers := make([]net.Conn, 0, len(mms.connections))
 	for _, c := range mms.connections {
@@ -77,6 +119,7 @@ func (mms *multiMessageSender) DelConn(c net.Conn) {
 		}
 	}
 
+	delete(mms.enqueued, c)
 	if 0 <= index {
 		mms.connections[index] = mms.connections[len(mms.connections)-1]
 		mms.connections = mms.connections[:len(mms.connections)-1]
diff --git a/schedule/server_state.go b/schedule/server_state.go
index 75d5829..d55b834 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -204,18 +204,19 @@ func (ss *serverState) streamMusic() {
 
 		firstSampleIndex := ss.playlist.Fill(low, high)
 
-		go ss.sender.SendMessage(&comm.QueueChunkRequest{
+		// each client gets the chunks in order, even if it or the playlist was slow
+		go comm.Enqueue(ss.sender, &comm.QueueChunkRequest{
 			StartTime:        start + int64(index)*int64(StreamChunkTime/time.Nanosecond),
 			ChunkId:          index,
 			SampleLow:        low,
 			SampleHigh:       high,
 			FirstSampleIndex: firstSampleIndex,
-		})
-		go ss.sender.SendMessage(&comm.ChunkInfo{
+		})()
+		go comm.Enqueue(ss.sender, &comm.ChunkInfo{
 			StartTime:        start + int64(index)*int64(StreamChunkTime/time.Nanosecond),
 			FirstSampleIndex: firstSampleIndex,
 			ChunkSize:        uint64(StreamChunkSize),
-		})
+		})()
 		index++
 	}
 }
-- 
2.43.0


From d8c53fbfa5f2e60c2e7ba050086148a0521beb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:51 +0000
Subject: [PATCH 51/67] fix: nothing is kept of clients that have disconnected

---
 comm/message_sender.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index 5bee846..b2fb5ad 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -111,24 +111,29 @@ func (mms *multiMessageSender) DelConn(c net.Conn) {
 	mms.mutex.Lock()
 	defer mms.mutex.Unlock()
 
-	index := -1
-	for i, conn := range mms.connections {
-		if conn == c {
-			index = i
-			break
-		}
-	}
-
 	delete(mms.enqueued, c)
-	if 0 <= index {
+	delete(mms.channels, c)
+	if index := mms.indexOf(c); 0 <= index {
 		mms.connections[index] = mms.connections[len(mms.connections)-1]
 		mms.connections = mms.connections[:len(mms.connections)-1]
 	}
 }
 
+func (mms *multiMessageSender) indexOf(c net.Conn) int {
+	for i, conn := range mms.connections {
+		if conn == c {
+			return i
+		}
+	}
+	return -1
+}
+
 func (mms *multiMessageSender) Subscribe(c net.Conn, channel Channel) {
 	mms.mutex.Lock()
 	defer mms.mutex.Unlock()
+	if mms.indexOf(c) < 0 {
+		return // it is already gone
+	}
 	if l, ok := mms.channels[c]; ok {
 		mms.channels[c] = append(l, channel)
 	} else {
-- 
2.43.0


From ccc38f51723487fb38e156c00f1085b6d5da0a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:42 +0000
Subject: [PATCH 52/67] fix: control sessions have a terminal of their own and
 leave alone the one of the server

---
 ssh/session_handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 838e050..65a9415 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -74,6 +74,11 @@ func (s *session) createReadlineConfig() {
 		Stderr:      s.Stderr(),
 
 		UniqueEditLine: false,
+
+		// by default, these are about the terminal the server was started in
+		FuncIsTerminal: func() bool { return true },
+		FuncMakeRaw:    func() error { return nil },
+		FuncExitRaw:    func() error { return nil },
 	}
 }
 
-- 
2.43.0


From 7d8eff689411de6204634669f519992676f66559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:48 +0000
Subject: [PATCH 53/67] fix: a line is not entered by the end of the connection

---
 ssh/session_handler.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 65a9415..0c5b583 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -68,7 +68,7 @@ func (s *session) createReadlineConfig() {
 
 		FuncGetWidth: func() int { return s.width },
 
-		Stdin:       s,
+		Stdin:       &sessionInput{Session: s},
 		Stdout:      s,
 		StdinWriter: s,
 		Stderr:      s.Stderr(),
@@ -82,6 +82,22 @@ func (s *session) createReadlineConfig() {
 	}
 }
 
+// sessionInput interrupts the line being edited at the end of the input, as it would be entered otherwise
+type sessionInput struct {
+	ssh.Session
+	interrupts int
+}
+
+func (i *sessionInput) Read(p []byte) (int, error) {
+	n, err := i.Session.Read(p)
+	if n == 0 && err != nil && 0 < len(p) && i.interrupts < 2 { // the first one might only end a search or completion
+		i.interrupts++
+		p[0] = readline.CharInterrupt
+		return 1, nil
+	}
+	return n, err
+}
+
 func (s *session) handleLine(line string) bool {
 	cmd := parser.ParseCommand(line)
 
-- 
2.43.0


From 1fcc7d7ee61f16887d1981d7d10a3ec7c338d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:53 +0000
Subject: [PATCH 54/67] fix: a zero byte typed in a control session does not
 enter the line or hang the session

---
 ssh/session_handler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 0c5b583..708588e 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -82,7 +82,8 @@ func (s *session) createReadlineConfig() {
 	}
 }
 
-// sessionInput interrupts the line being edited at the end of the input, as it would be entered otherwise
+// sessionInput interrupts the line being edited at the end of the input, as it would be entered otherwise,
+// and keeps zero bytes from being taken for the end of the input
 type sessionInput struct {
 	ssh.Session
 	interrupts int
@@ -90,6 +91,11 @@ type sessionInput struct {
 
 func (i *sessionInput) Read(p []byte) (int, error) {
 	n, err := i.Session.Read(p)
+	for j := range p[:n] {
+		if p[j] == 0 {
+			p[j] = readline.CharBell
+		}
+	}
 	if n == 0 && err != nil && 0 < len(p) && i.interrupts < 2 { // the first one might only end a search or completion
 		i.interrupts++
 		p[0] = readline.CharInterrupt
-- 
2.43.0


From 4fea5b2e685aa924b2c02b89fbe7ed677f39bbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:57 +0000
Subject: [PATCH 55/67] fix: control sessions on terminals of unknown or small
 width do not hang

---
 ssh/session_handler.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 708588e..d0c4708 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -66,7 +66,7 @@ func (s *session) createReadlineConfig() {
 		InterruptPrompt: "^C",
 		EOFPrompt:       "exit",
 
-		FuncGetWidth: func() int { return s.width },
+		FuncGetWidth: s.lineWidth,
 
 		Stdin:       &sessionInput{Session: s},
 		Stdout:      s,
@@ -104,6 +104,15 @@ func (i *sessionInput) Read(p []byte) (int, error) {
 	return n, err
 }
 
+// lineWidth is the width at which the line being edited is wrapped. It is zero if the client does not know its terminal,
+// and readline never returns for some widths up to the one of the prompt.
+func (s *session) lineWidth() int {
+	if s.width < 20 {
+		return 80
+	}
+	return s.width
+}
+
 func (s *session) handleLine(line string) bool {
 	cmd := parser.ParseCommand(line)
 
-- 
2.43.0


From bba71e4e6d4dc053085ab5256c0f21c5a08ef2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:01 +0000
Subject: [PATCH 56/67] fix: giving up a search in an empty history does not
 end the server

---
 ssh/session_handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index d0c4708..a4857d2 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -6,6 +6,7 @@ import (
 	"github.com/chzyer/readline"
 	"github.com/gliderlabs/ssh"
 	"io"
+	"os"
 	"strings"
 )
 
@@ -63,6 +64,8 @@ func (s *session) createReadlineConfig() {
 
 		VimMode: false,
 
+		HistoryFile: os.DevNull, // without a file, readline panics when a search in an empty history is given up
+
 		InterruptPrompt: "^C",
 		EOFPrompt:       "exit",
 
-- 
2.43.0


From 21f30fddbfcbc96abe894b498669d9251ed3367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:06 +0000
Subject: [PATCH 57/67] fix: ^Z in a control session does not suspend the
 server

---
 ssh/session_handler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index a4857d2..d0e5d05 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -78,6 +78,8 @@ func (s *session) createReadlineConfig() {
 
 		UniqueEditLine: false,
 
+		FuncFilterInputRune: s.filterKey,
+
 		// by default, these are about the terminal the server was started in
 		FuncIsTerminal: func() bool { return true },
 		FuncMakeRaw:    func() error { return nil },
@@ -85,6 +87,11 @@ func (s *session) createReadlineConfig() {
 	}
 }
 
+// filterKey keeps away keys which are about the process of the server
+func (s *session) filterKey(key rune) (rune, bool) {
+	return key, key != readline.CharCtrlZ // suspends the server
+}
+
 // sessionInput interrupts the line being edited at the end of the input, as it would be entered otherwise,
 // and keeps zero bytes from being taken for the end of the input
 type sessionInput struct {
-- 
2.43.0


From 2d22f7c9915ab98f4bffa970dd45b24d71fde6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:11 +0000
Subject: [PATCH 58/67] fix: ^T on a line with a single character does not end
 the server

---
 ssh/session_handler.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index d0e5d05..7d18fc2 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -16,6 +16,8 @@ type session struct {
 	ex  *readline.Instance
 
 	width, height int
+
+	lineLength int // of the line being edited
 }
 
 func (s *session) preparePty() bool {
@@ -79,6 +81,7 @@ func (s *session) createReadlineConfig() {
 		UniqueEditLine: false,
 
 		FuncFilterInputRune: s.filterKey,
+		Listener:            s,
 
 		// by default, these are about the terminal the server was started in
 		FuncIsTerminal: func() bool { return true },
@@ -87,9 +90,21 @@ func (s *session) createReadlineConfig() {
 	}
 }
 
-// filterKey keeps away keys which are about the process of the server
+// filterKey keeps away keys which are about the process of the server, or which readline does not survive
 func (s *session) filterKey(key rune) (rune, bool) {
-	return key, key != readline.CharCtrlZ // suspends the server
+	switch key {
+	case readline.CharCtrlZ: // suspends the server
+		return key, false
+	case readline.CharTranspose: // with a single character, editing the line afterwards panics
+		return key, s.lineLength != 1
+	}
+	return key, true
+}
+
+// OnChange is called by readline after each key
+func (s *session) OnChange(line []rune, pos int, key rune) ([]rune, int, bool) {
+	s.lineLength = len(line)
+	return nil, 0, false
 }
 
 // sessionInput interrupts the line being edited at the end of the input, as it would be entered otherwise,
-- 
2.43.0


From 74acec686fe005366a05609e4a9b6cb91d4899b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:17 +0000
Subject: [PATCH 59/67] fix: ^K while selecting a completion does not end the
 server

---
 ssh/session_handler.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 7d18fc2..880f4ad 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -17,7 +17,8 @@ type session struct {
 
 	width, height int
 
-	lineLength int // of the line being edited
+	lineLength int  // of the line being edited
+	completing bool // a completion might be being selected
 }
 
 func (s *session) preparePty() bool {
@@ -96,7 +97,22 @@ func (s *session) filterKey(key rune) (rune, bool) {
 	case readline.CharCtrlZ: // suspends the server
 		return key, false
 	case readline.CharTranspose: // with a single character, editing the line afterwards panics
-		return key, s.lineLength != 1
+		if s.lineLength == 1 {
+			return key, false
+		}
+	}
+
+	switch key {
+	case readline.CharTab:
+		s.completing = true
+	case readline.CharForward, readline.CharBackward, readline.CharNext, readline.CharPrev, readline.CharLineStart, readline.CharLineEnd:
+	case readline.CharKill: // panics while a completion is being selected
+		if s.completing {
+			key = readline.CharBell
+		}
+		s.completing = false
+	default:
+		s.completing = false
 	}
 	return key, true
 }
-- 
2.43.0


From 2e583bb68be42a31aacf5c2637e57fcf3d2fe15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:22 +0000
Subject: [PATCH 60/67] fix: completions which are wide do not end the server

---
 ssh/session_handler.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 880f4ad..548128d 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -63,7 +63,7 @@ func (s *session) createReadlineConfig() {
 	s.cfg = &readline.Config{
 		Prompt: "\033[31mmusic-sync»\033[0m ",
 
-		AutoComplete: &sshAutoCompleter{},
+		AutoComplete: &columnCompleter{AutoCompleter: &sshAutoCompleter{}, width: s.lineWidth},
 
 		VimMode: false,
 
@@ -123,6 +123,30 @@ func (s *session) OnChange(line []rune, pos int, key rune) ([]rune, int, bool) {
 	return nil, 0, false
 }
 
+// columnCompleter changes completions which do not fit in a column, on which readline panics
+type columnCompleter struct {
+	readline.AutoCompleter
+	width func() int
+}
+
+func (c *columnCompleter) Do(line []rune, pos int) ([][]rune, int) {
+	completions, length := c.AutoCompleter.Do(line, pos)
+	max, widest := c.width()-2, 0
+	for i, l := range completions {
+		for max < (readline.Runes{}).WidthAll(l) {
+			l = l[:len(l)-1]
+		}
+		completions[i] = l
+		if w := (readline.Runes{}).WidthAll(l); widest < w {
+			widest = w
+		}
+	}
+	if w := (readline.Runes{}).WidthAll(line[:pos]); w != length || max < w+widest {
+		length = 0 // show the completions only
+	}
+	return completions, length
+}
+
 // sessionInput interrupts the line being edited at the end of the input, as it would be entered otherwise,
 // and keeps zero bytes from being taken for the end of the input
 type sessionInput struct {
-- 
2.43.0


From 320e5d9d37125cc6b7fb9581ee79228cc43f3669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:53 +0000
Subject: [PATCH 61/67] fix: answering a line that was entered while completing
 does not end the server

---
 ssh/session_handler.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 548128d..9713256 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -186,12 +186,12 @@ func (s *session) handleLine(line string) bool {
 	} else {
 		switch cmd.Command {
 		case "clear":
-			fmt.Fprint(s.ex, "\033[H")
+			fmt.Fprint(s, "\033[H")
 		case "exit":
 			logger.Infof("connection %s as %s closed", s.RemoteAddr(), s.User())
 			return false
 		default:
-			fmt.Fprintf(s.ex, "Unknown command '%s'. Type 'help' for help.\n", cmd.Command)
+			fmt.Fprintf(s, "Unknown command '%s'. Type 'help' for help.\n", cmd.Command)
 		}
 	}
 	return true
@@ -203,9 +203,9 @@ func (s *session) execCommand(c Command, args []string) {
 		if strings.HasSuffix(msg, "\n") {
 			msg = msg[:len(msg)-1]
 		}
-		fmt.Fprintln(s.ex, msg)
+		fmt.Fprintln(s, msg)
 	} else {
-		fmt.Fprintf(s.ex, "%s\n", c.usage())
+		fmt.Fprintf(s, "%s\n", c.usage())
 	}
 }
 
-- 
2.43.0


From 8973d310825b13f60f29c10dddd25c4df1d6f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:09 +0000
Subject: [PATCH 62/67] fix: ^T on a single character typed ahead does not end
 the server either

---
 ssh/session_handler.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 9713256..699f513 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -117,9 +117,11 @@ func (s *session) filterKey(key rune) (rune, bool) {
 	return key, true
 }
 
-// OnChange is called by readline after each key
+// OnChange is called by readline after each key, and with none when it starts to wait for a line
 func (s *session) OnChange(line []rune, pos int, key rune) ([]rune, int, bool) {
-	s.lineLength = len(line)
+	if key != 0 {
+		s.lineLength = len(line)
+	}
 	return nil, 0, false
 }
 
-- 
2.43.0


From 9624ee45cfbb7a7a825930d8f0da4f436d0f7d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:51 +0000
Subject: [PATCH 63/67] fix: the infoer restores the terminal when it loses the
 server

---
 cmd/music-sync-infoer/main.go | 31 ++++++++++++++++++++++++++++++-
 comm/conn_handler.go          |  5 ++++-
 schedule/infoer.go            |  3 +--
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index 47d85d3..85c5834 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -11,6 +11,7 @@ import (
 	"github.com/gdamore/tcell"
 	"github.com/urfave/cli"
 	"os"
+	"sync"
 	"time"
 )
 
@@ -51,13 +52,19 @@ func run(ctx *cli.Context) error {
 	}
 	schedule.SampleRate = sampleRate
 
+	screen := &terminal{}
+	comm.Exit = func(code int) {
+		screen.leave()
+		os.Exit(code)
+	}
+
 	server := fmt.Sprintf("%s:%d", serverAddress, serverPort)
 	sender, err := comm.ConnectToServer(server, newInfoerPackageHandler())
 	if err != nil {
 		return cli.NewExitError(err, 1)
 	}
 
-	s := createTcellScreen()
+	s := screen.enter()
 
 	go schedule.Infoer(sender)
 
@@ -66,6 +73,28 @@ func run(ctx *cli.Context) error {
 	return nil
 }
 
+// terminal is the terminal the infoer runs in
+type terminal struct {
+	mutex  sync.Mutex
+	screen tcell.Screen
+}
+
+// enter turns the terminal into the screen of the infoer
+func (t *terminal) enter() tcell.Screen {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+	t.screen = createTcellScreen()
+	return t.screen
+}
+
+// leave restores the terminal for good, before the process exits
+func (t *terminal) leave() {
+	t.mutex.Lock() // there is no way back to the screen
+	if t.screen != nil {
+		t.screen.Fini()
+	}
+}
+
 func createTcellScreen() tcell.Screen {
 	tcell.SetEncodingFallback(tcell.EncodingFallbackASCII)
 	s, e := tcell.NewScreen()
diff --git a/comm/conn_handler.go b/comm/conn_handler.go
index 58ecd61..63db6db 100644
--- a/comm/conn_handler.go
+++ b/comm/conn_handler.go
@@ -65,6 +65,9 @@ func serverConnectionAcceptor(mms *multiMessageSender, l net.Listener) {
 	}
 }
 
+// Exit ends the process once the connection to the server can no longer be used
+var Exit = os.Exit
+
 // ConnectToServer connects to the server at server and returns a MessageSender to communicate with the master
 func ConnectToServer(master string, handler TypedPackageHandler) (MessageSender, error) {
 	logger.Infof("connecting to master at %s", master)
@@ -77,7 +80,7 @@ func ConnectToServer(master string, handler TypedPackageHandler) (MessageSender,
 	go func() {
 		handleConnection(conn, handler)
 		logger.Fatalf("connection to master closed")
-		os.Exit(1)
+		Exit(1)
 	}()
 	return &singleMessageSender{connection: conn}, nil
 }
diff --git a/schedule/infoer.go b/schedule/infoer.go
index eb4fa0e..54bf242 100644
--- a/schedule/infoer.go
+++ b/schedule/infoer.go
@@ -3,7 +3,6 @@ package schedule
 import (
 	"github.com/LogicalOverflow/music-sync/comm"
 	"github.com/LogicalOverflow/music-sync/timing"
-	"os"
 	"time"
 )
 
@@ -19,7 +18,7 @@ func Infoer(sender comm.MessageSender) {
 	go func() {
 		if err := sender.SendMessage(&comm.SubscribeChannelRequest{Channel: comm.Channel_META}); err != nil {
 			logger.Errorf("failed to subscribe to meta channel")
-			os.Exit(1)
+			comm.Exit(1)
 		}
 	}()
 }
-- 
2.43.0


From 745f7b30d8a17a7008be739211b56b83140fb0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:53 +0000
Subject: [PATCH 64/67] fix: the infoer survives mouse reports and the end of
 its screen

---
 cmd/music-sync-infoer/drawing.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index 141d786..ddbbad0 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"fmt"
 	"github.com/gdamore/tcell"
 	"math"
 	"unicode"
@@ -23,8 +22,8 @@ func (d *drawer) eventLoop() {
 		case *tcell.EventResize:
 			d.Sync()
 			d.w, d.h = d.Size()
-		default:
-			panic(fmt.Sprintf("%T", ev))
+		case nil, *tcell.EventError: // there is no terminal any longer
+			return
 		}
 	}
 }
-- 
2.43.0


From 11ebd6ab99a12d1c01e99a71006ba50ab821387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:55 +0000
Subject: [PATCH 65/67] fix: the infoer ends though there is input while its
 screen is closed

---
 cmd/music-sync-infoer/main.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index 85c5834..da7be2a 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -8,6 +8,7 @@ import (
 	"github.com/LogicalOverflow/music-sync/logging"
 	"github.com/LogicalOverflow/music-sync/schedule"
 	"github.com/LogicalOverflow/music-sync/timing"
+	"github.com/chzyer/readline"
 	"github.com/gdamore/tcell"
 	"github.com/urfave/cli"
 	"os"
@@ -91,7 +92,28 @@ func (t *terminal) enter() tcell.Screen {
 func (t *terminal) leave() {
 	t.mutex.Lock() // there is no way back to the screen
 	if t.screen != nil {
-		t.screen.Fini()
+		closeScreen(t.screen)
+	}
+}
+
+// terminalState is how the terminal was set before the screen was created
+var terminalState *readline.State
+
+// closeScreen restores the terminal s is shown in
+func closeScreen(s tcell.Screen) {
+	done := make(chan struct{})
+	go func() {
+		s.Fini()
+		close(done)
+	}()
+
+	select {
+	case <-done:
+	case <-time.After(time.Second):
+		// Fini waits forever if there is input at the wrong moment
+		if terminalState != nil {
+			readline.Restore(int(os.Stdin.Fd()), terminalState)
+		}
 	}
 }
 
@@ -102,6 +124,7 @@ func createTcellScreen() tcell.Screen {
 		fmt.Fprintf(os.Stderr, "%v\n", e)
 		os.Exit(1)
 	}
+	terminalState, _ = readline.GetState(int(os.Stdin.Fd()))
 	if e = s.Init(); e != nil {
 		fmt.Fprintf(os.Stderr, "%v\n", e)
 		os.Exit(1)
@@ -137,7 +160,7 @@ func tcellLoop(screen tcell.Screen) {
 		redraw(d)
 	}
 
-	screen.Fini()
+	closeScreen(screen)
 }
 
 func redraw(d *drawer) {
-- 
2.43.0


From 62efab9c363bfce3cbca485a69cb2b56014b2236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:43 +0000
Subject: [PATCH 66/67] fix: the server goes on accepting clients after it ran
 out of file descriptors

---
 comm/conn_handler.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/comm/conn_handler.go b/comm/conn_handler.go
index 63db6db..5cf658b 100644
--- a/comm/conn_handler.go
+++ b/comm/conn_handler.go
@@ -6,6 +6,7 @@ import (
 	"github.com/golang/protobuf/proto"
 	"net"
 	"os"
+	"time"
 )
 
 type packageHandler interface {
@@ -46,10 +47,19 @@ func StartServer(address string) (MessageSender, error) {
 	return mms, nil
 }
 
+// acceptRetryDelay is how long nothing is accepted after accepting a connection failed temporarily
+const acceptRetryDelay = 100 * time.Millisecond
+
 func serverConnectionAcceptor(mms *multiMessageSender, l net.Listener) {
 	h := newServerPackageHandler(mms)
 	for {
 		conn, err := l.Accept()
+		if ne, ok := err.(net.Error); ok && ne.Temporary() {
+			// like too many open files
+			logger.Warnf("failed to accept connection: %v. trying again", err)
+			time.Sleep(acceptRetryDelay)
+			continue
+		}
 		if err != nil {
 			logger.Fatalf("failed to accept connection: %v", err)
 			break
-- 
2.43.0


From 752708122cbe0a65c06b1828c90407355c4fbc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:38 +0000
Subject: [PATCH 67/67] fix: the infoer does not exit with 0 while it is
 exiting as the connection was lost

---
 cmd/music-sync-infoer/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index da7be2a..aed4ad9 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -70,6 +70,7 @@ func run(ctx *cli.Context) error {
 	go schedule.Infoer(sender)
 
 	tcellLoop(s)
+	screen.mutex.Lock() // if the screen is gone as the connection was lost, the process exits because of that
 
 	return nil
 }
-- 
2.43.0

