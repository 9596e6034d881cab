From 649c9829375fd0ddc4ca7d3c747e13a726b2508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 01/50] fix: reject frames with a negative or huge size instead
 of crashing

---
 comm/package_util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/comm/package_util.go b/comm/package_util.go
index ee2b73d..90ce26a 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -14,6 +14,9 @@ import (
 
 const zlibLevel = 5
 
+// maxMessageSize is the maximum size in bytes of a message accepted from a peer
+const maxMessageSize = 1 << 28
+
 func channelOf(m proto.Message) ([]Channel, bool) {
 	switch m.(type) {
 	case *QueueChunkRequest:
@@ -61,6 +64,9 @@ func readWire(conn net.Conn) (proto.Message, error) {
 		return nil, err
 	}
 	size := int64(binary.LittleEndian.Uint64(sizeBuf))
+	if size < 0 || maxMessageSize < size {
+		return nil, fmt.Errorf("invalid message size: %d", size)
+	}
 	env, err := readBytes(conn, size)
 
 	envelope := &Envelope{}
-- 
2.43.0


From dd68b2e7ad5126cf57617eb69a2027f4bab348be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 02/50] fix: reject frames whose payload is truncated or fails
 to decompress

---
 comm/package_util.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/comm/package_util.go b/comm/package_util.go
index 90ce26a..41c9b0c 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -68,6 +68,9 @@ func readWire(conn net.Conn) (proto.Message, error) {
 		return nil, fmt.Errorf("invalid message size: %d", size)
 	}
 	env, err := readBytes(conn, size)
+	if err != nil {
+		return nil, err
+	}
 
 	envelope := &Envelope{}
 	if err := proto.Unmarshal(env, envelope); err != nil {
@@ -80,9 +83,15 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	}
 	m := reflect.New(mType.Elem()).Interface().(proto.Message)
 
-	r, _ := zlib.NewReader(bytes.NewBuffer(envelope.Data))
-	data, _ := ioutil.ReadAll(r)
-	r.Close()
+	r, err := zlib.NewReader(bytes.NewBuffer(envelope.Data))
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
+	}
+	defer r.Close()
+	data, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
+	}
 
 	e := error(nil)
 	if err := proto.Unmarshal(data, m); err != nil {
-- 
2.43.0


From f1b38e3d81fd9616579f8cd089ee7938d6f9dda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 03/50] fix: bound the memory used to decompress a frame

---
 comm/package_util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/comm/package_util.go b/comm/package_util.go
index 41c9b0c..e322a18 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -88,10 +88,13 @@ func readWire(conn net.Conn) (proto.Message, error) {
 		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
 	}
 	defer r.Close()
-	data, err := ioutil.ReadAll(r)
+	data, err := ioutil.ReadAll(io.LimitReader(r, maxMessageSize+1))
 	if err != nil {
 		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
 	}
+	if maxMessageSize < len(data) {
+		return nil, fmt.Errorf("inner protobuf (%s) is too large", envelope.Type)
+	}
 
 	e := error(nil)
 	if err := proto.Unmarshal(data, m); err != nil {
-- 
2.43.0


From ead8a479174435f199404a2a39156a92028bb0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 04/50] fix: drop the subscriptions of a connection when it is
 closed

---
 comm/message_sender.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index b94e60c..5cdd233 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -76,6 +76,7 @@ func (mms *multiMessageSender) DelConn(c net.Conn) {
 		mms.connections[index] = mms.connections[len(mms.connections)-1]
 		mms.connections = mms.connections[:len(mms.connections)-1]
 	}
+	delete(mms.channels, c)
 }
 
 func (mms *multiMessageSender) Subscribe(c net.Conn, channel Channel) {
-- 
2.43.0


From ea1494c075fa09489815e639a9ca760ff621c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 05/50] fix: ignore subscriptions of connections that are
 already closed

---
 comm/message_sender.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index 5cdd233..c428026 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -82,6 +82,9 @@ func (mms *multiMessageSender) DelConn(c net.Conn) {
 func (mms *multiMessageSender) Subscribe(c net.Conn, channel Channel) {
 	mms.mutex.Lock()
 	defer mms.mutex.Unlock()
+	if !mms.isConnected(c) {
+		return
+	}
 	if l, ok := mms.channels[c]; ok {
 		mms.channels[c] = append(l, channel)
 	} else {
@@ -89,6 +92,15 @@ func (mms *multiMessageSender) Subscribe(c net.Conn, channel Channel) {
 	}
 }
 
+func (mms *multiMessageSender) isConnected(c net.Conn) bool {
+	for _, conn := range mms.connections {
+		if conn == c {
+			return true
+		}
+	}
+	return false
+}
+
 func (mms *multiMessageSender) isSubscribed(c net.Conn, channels []Channel) bool {
 	if l, ok := mms.channels[c]; ok {
 		for _, ch := range l {
-- 
2.43.0


From 16872e7fe9d939ba3fdd7243b979181508b33893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 06/50] fix: do not hold the connections lock while sending to
 clients

---
 comm/message_sender.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index c428026..efd0e2f 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -23,19 +23,16 @@ type multiMessageSender struct {
 }
 
 func (mms *multiMessageSender) SendMessage(m proto.Message) error {
-	mms.mutex.RLock()
-	defer mms.mutex.RUnlock()
-
-	chs, hasCh := channelOf(m)
+	connections := mms.recipients(m)
 
 	var errCol util.ErrorCollector
 	var wg sync.WaitGroup
-	wg.Add(len(mms.connections))
+	wg.Add(len(connections))
 
-	for _, c := range mms.connections {
+	for _, c := range connections {
 		go func(c net.Conn) {
 			defer wg.Done()
-			if err := mms.sendMessageTo(m, c, hasCh, chs); err != nil {
+			if err := sendWire(m, c); err != nil {
 				errCol.Add(err)
 			}
 		}(c)
@@ -47,11 +44,20 @@ func (mms *multiMessageSender) SendMessage(m proto.Message) error {
 	return errCol.Err("failed to send to %d clients: ")
 }
 
-func (mms *multiMessageSender) sendMessageTo(m proto.Message, c net.Conn, hasCh bool, chs []Channel) error {
-	if !hasCh || mms.isSubscribed(c, chs) {
-		return sendWire(m, c)
+// recipients returns all connections, which should receive m
+func (mms *multiMessageSender) recipients(m proto.Message) []net.Conn {
+	mms.mutex.RLock()
+	defer mms.mutex.RUnlock()
+
+	chs, hasCh := channelOf(m)
+
+	connections := make([]net.Conn, 0, len(mms.connections))
+	for _, c := range mms.connections {
+		if !hasCh || mms.isSubscribed(c, chs) {
+			connections = append(connections, c)
+		}
 	}
-	return nil
+	return connections
 }
 
 func (mms *multiMessageSender) AddConn(c net.Conn) {
-- 
2.43.0


From e22650e54d219ec67f3f608d49b32010ea9abe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 07/50] fix: do not crash when a client subscribes before the
 server set its client handler

---
 comm/conn_handler.go    | 19 +++++++++++++++++--
 comm/package_handler.go |  4 +++-
 schedule/server.go      |  2 +-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/comm/conn_handler.go b/comm/conn_handler.go
index 58ecd61..430c8dd 100644
--- a/comm/conn_handler.go
+++ b/comm/conn_handler.go
@@ -6,6 +6,7 @@ import (
 	"github.com/golang/protobuf/proto"
 	"net"
 	"os"
+	"sync"
 )
 
 type packageHandler interface {
@@ -27,6 +28,20 @@ func handleConnection(conn net.Conn, h packageHandler) {
 // NewClientHandler is called when a new client connects to the server (with channel -1)
 // and when a client subscribes to a channel.
 var NewClientHandler func(channel Channel, conn MessageSender)
+var newClientHandlerMutex sync.RWMutex
+
+// SetNewClientHandler sets NewClientHandler. It can be called while a server is running.
+func SetNewClientHandler(h func(channel Channel, conn MessageSender)) {
+	newClientHandlerMutex.Lock()
+	defer newClientHandlerMutex.Unlock()
+	NewClientHandler = h
+}
+
+func getNewClientHandler() func(channel Channel, conn MessageSender) {
+	newClientHandlerMutex.RLock()
+	defer newClientHandlerMutex.RUnlock()
+	return NewClientHandler
+}
 
 // StartServer starts a music-sync server listening at address and returns a MessageSender to broadcast
 // to clients
@@ -59,8 +74,8 @@ func serverConnectionAcceptor(mms *multiMessageSender, l net.Listener) {
 			handleConnection(conn, h)
 			mms.DelConn(conn)
 		}(conn)
-		if NewClientHandler != nil {
-			go NewClientHandler(-1, &singleMessageSender{conn})
+		if h := getNewClientHandler(); h != nil {
+			go h(-1, &singleMessageSender{conn})
 		}
 	}
 }
diff --git a/comm/package_handler.go b/comm/package_handler.go
index c57a5ac..aa848e6 100644
--- a/comm/package_handler.go
+++ b/comm/package_handler.go
@@ -101,7 +101,9 @@ func (s serverPackageHandler) HandleTimeSyncRequest(tsr *TimeSyncRequest, c net.
 
 func (s serverPackageHandler) HandleSubscribeChannelRequest(scr *SubscribeChannelRequest, c net.Conn) {
 	s.sender.Subscribe(c, scr.Channel)
-	NewClientHandler(scr.Channel, &singleMessageSender{c})
+	if h := getNewClientHandler(); h != nil {
+		h(scr.Channel, &singleMessageSender{c})
+	}
 }
 
 func (s serverPackageHandler) HandlePingMessage(_ *PingMessage, c net.Conn) { PingHandler(c) }
diff --git a/schedule/server.go b/schedule/server.go
index 2506ee2..1f8eabb 100644
--- a/schedule/server.go
+++ b/schedule/server.go
@@ -21,7 +21,7 @@ func Server(sender comm.MessageSender) {
 
 	ss.pauses = make([]*comm.PauseInfo, 0)
 
-	comm.NewClientHandler = ss.createClientHandler()
+	comm.SetNewClientHandler(ss.createClientHandler())
 
 	go ss.playlist.StreamLoop(context.Background())
 
-- 
2.43.0


From 444a9f5002449cb5d3f64038688cfecd16396a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 08/50] fix: keep accepting connections after a temporary
 accept error

---
 comm/conn_handler.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/comm/conn_handler.go b/comm/conn_handler.go
index 430c8dd..3063e14 100644
--- a/comm/conn_handler.go
+++ b/comm/conn_handler.go
@@ -7,6 +7,7 @@ import (
 	"net"
 	"os"
 	"sync"
+	"time"
 )
 
 type packageHandler interface {
@@ -61,10 +62,18 @@ func StartServer(address string) (MessageSender, error) {
 	return mms, nil
 }
 
+// acceptRetryDelay is the time to wait before accepting connections again after a temporary error
+const acceptRetryDelay = 100 * time.Millisecond
+
 func serverConnectionAcceptor(mms *multiMessageSender, l net.Listener) {
 	h := newServerPackageHandler(mms)
 	for {
 		conn, err := l.Accept()
+		if ne, ok := err.(net.Error); ok && ne.Temporary() {
+			logger.Warnf("failed to accept connection, retrying: %v", err)
+			time.Sleep(acceptRetryDelay)
+			continue
+		}
 		if err != nil {
 			logger.Fatalf("failed to accept connection: %v", err)
 			break
-- 
2.43.0


From c8cff3812b38bc71f26fb438ab203946d7b7a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 09/50] fix: removing the song right after the end of the
 playlist no longer panics

---
 playback/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 97d81ef..06010a7 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -198,7 +198,7 @@ func (pl *Playlist) RemoveSong(index int) string {
 		index = 0
 	}
 	var removed string
-	if len(pl.songs) < index {
+	if len(pl.songs) <= index {
 		removed = pl.songs[len(pl.songs)-1]
 		pl.songs = pl.songs[:len(pl.songs)-1]
 	} else {
-- 
2.43.0


From 5c503ac5be6c38d93591d043010f11643d8f7794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 10/50] fix: jumping to a negative position no longer panics

---
 playback/playlist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/playback/playlist.go b/playback/playlist.go
index 06010a7..32fefc4 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -137,7 +137,11 @@ func (pl *Playlist) callPauseToggleHandler() {
 }
 
 // SetPos jumps to the song at pos.
+// A negative pos is clipped to the start of the playlist.
 func (pl *Playlist) SetPos(pos int) {
+	if pos < 0 {
+		pos = 0
+	}
 	pl.position = pos
 	pl.forceNext <- true
 }
-- 
2.43.0


From b81e7d1d6529d120ad155f4eb95d391424e9b0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 11/50] fix: jumping while other jumps are pending no longer
 blocks forever

---
 playback/playlist.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 32fefc4..f1f0c2b 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -143,7 +143,10 @@ func (pl *Playlist) SetPos(pos int) {
 		pos = 0
 	}
 	pl.position = pos
-	pl.forceNext <- true
+	select {
+	case pl.forceNext <- true:
+	default: // enough jumps are already pending
+	}
 }
 
 // Pos returns the position of the song currently being played.
-- 
2.43.0


From 52ebaf32e90dc0c4b8906140dcd2226280d29218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 12/50] fix: keep the stream running while skipping songs which
 can not be played

---
 playback/playlist.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/playback/playlist.go b/playback/playlist.go
index f1f0c2b..8cef774 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -51,6 +51,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		s, err := getStreamer(filename)
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
+			pl.pushNanSamples(streamerBufferSize)
 			pl.position++
 			continue
 		}
-- 
2.43.0


From c78530ce2e5c5898ca7e571f341772ee024a0b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 13/50] fix: close song files after playing them

---
 playback/playback.go | 1 +
 playback/playlist.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/playback/playback.go b/playback/playback.go
index 4012462..12c3817 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -40,6 +40,7 @@ func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 
 	s, _, err := mp3.Decode(f)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("failed to decode file %s: %v", filename, err)
 	}
 
diff --git a/playback/playlist.go b/playback/playlist.go
index 8cef774..901c048 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -57,6 +57,9 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		}
 
 		pl.pushStreamer(s)
+		if err := s.Close(); err != nil {
+			logger.Warnf("failed to close song %s: %v", filename, err)
+		}
 		pl.pushNanBreak()
 	}
 }
-- 
2.43.0


From ec5016563cf4659e55fab420f5874c309f746afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 14/50] fix: close lyrics, metadata and users files after
 reading them

---
 metadata/lyrics_provider.go   | 1 +
 metadata/metadata_provider.go | 1 +
 ssh/ssh.go                    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/metadata/lyrics_provider.go b/metadata/lyrics_provider.go
index 6662714..f7bfee5 100644
--- a/metadata/lyrics_provider.go
+++ b/metadata/lyrics_provider.go
@@ -38,6 +38,7 @@ func (basicLyricsProvider) CollectLyrics(song string) []LyricsLine {
 	if err != nil {
 		return []LyricsLine{}
 	}
+	defer f.Close()
 	result := make([]LyricsLine, 0)
 
 	if err := json.NewDecoder(f).Decode(&result); err != nil {
diff --git a/metadata/metadata_provider.go b/metadata/metadata_provider.go
index 7742357..2edab97 100644
--- a/metadata/metadata_provider.go
+++ b/metadata/metadata_provider.go
@@ -36,6 +36,7 @@ func (basicProvider) CollectMetadata(song string) SongMetadata {
 	if err != nil {
 		return SongMetadata{}
 	}
+	defer f.Close()
 	md, err := tag.ReadFrom(f)
 	if err != nil {
 		return SongMetadata{}
diff --git a/ssh/ssh.go b/ssh/ssh.go
index b53538b..e78a8f9 100644
--- a/ssh/ssh.go
+++ b/ssh/ssh.go
@@ -27,6 +27,7 @@ func ReadUsersFile(filename string) (map[string]UserAuth, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to open users file (%s): %v", filename, err)
 	}
+	defer f.Close()
 	users := make(map[string]UserAuth)
 	if err := json.NewDecoder(f).Decode(&users); err != nil {
 		return nil, fmt.Errorf("failed to decode users file (%s): %v", filename, err)
-- 
2.43.0


From fcf02d585180aed140e7247b5dbc567cbbeaa10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 15/50] fix: do not wrap samples at full positive amplitude
 around to negative

---
 playback/playback.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/playback/playback.go b/playback/playback.go
index 12c3817..952c541 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"fmt"
 	"github.com/LogicalOverflow/music-sync/util"
+	"math"
 	"os"
 	"path"
 	"time"
@@ -146,7 +147,7 @@ func convertSampleToBytes(val float64) (low, high byte) {
 	if val > +1 {
 		val = +1
 	}
-	valInt16 := int16(val * (1 << 15))
+	valInt16 := int16(math.Min(val*(1<<15), math.MaxInt16))
 	low = byte(valInt16)
 	high = byte(valInt16 >> 8)
 	return
-- 
2.43.0


From 3664cd8171e08e65e0c5f175ea50904a354ea4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 16/50] fix: guard the position, play state and current song of
 a playlist with its mutex

---
 playback/playlist.go | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 901c048..a71ecb0 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -46,13 +46,13 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 			continue
 		}
 
-		pl.currentSong = filename
+		pl.setCurrentSong(filename)
 
 		s, err := getStreamer(filename)
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
 			pl.pushNanSamples(streamerBufferSize)
-			pl.position++
+			pl.advance()
 			continue
 		}
 
@@ -65,8 +65,8 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 }
 
 func (pl *Playlist) nextSong() (song string) {
-	pl.songsMutex.RLock()
-	defer pl.songsMutex.RUnlock()
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
 	if len(pl.songs) == 0 {
 		return ""
 	}
@@ -78,13 +78,13 @@ func (pl *Playlist) nextSong() (song string) {
 func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 	buf := make([][2]float64, streamerBufferSize)
 	if pl.newSongHandler != nil {
-		go pl.newSongHandler(pl.sampleIndexWrite, pl.currentSong, int64(s.Len()))
+		go pl.newSongHandler(pl.sampleIndexWrite, pl.CurrentSong(), int64(s.Len()))
 	}
 
 	for {
 		n, ok := streamerBufferSize, true
 		pl.callPauseToggleHandler()
-		if pl.playing {
+		if pl.Playing() {
 			n, ok = s.Stream(buf)
 			pl.pushBuffer(buf[:n])
 		} else {
@@ -97,13 +97,20 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 	}
 }
 
+// advance moves on to the next song.
+func (pl *Playlist) advance() {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	pl.position++
+}
+
 func (pl *Playlist) shouldBreakStreamerPushLoop(n int, ok bool, bufSize int) bool {
 	if 0 < len(pl.forceNext) && <-pl.forceNext {
 		return true
 	}
 
 	if !ok || n < bufSize {
-		pl.position++
+		pl.advance()
 		return true
 	}
 	return false
@@ -134,9 +141,10 @@ func (pl *Playlist) pushSample(low, high float64) {
 }
 
 func (pl *Playlist) callPauseToggleHandler() {
-	if pl.playing != pl.playingLast && pl.pauseToggleHandler != nil {
-		pl.playingLast = pl.playing
-		go pl.pauseToggleHandler(pl.playing, pl.sampleIndexWrite)
+	playing := pl.Playing()
+	if playing != pl.playingLast && pl.pauseToggleHandler != nil {
+		pl.playingLast = playing
+		go pl.pauseToggleHandler(playing, pl.sampleIndexWrite)
 	}
 }
 
@@ -146,6 +154,8 @@ func (pl *Playlist) SetPos(pos int) {
 	if pos < 0 {
 		pos = 0
 	}
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
 	pl.position = pos
 	select {
 	case pl.forceNext <- true:
@@ -236,19 +246,31 @@ func (pl *Playlist) Fill(low []float64, high []float64) uint64 {
 
 // Playing returns true if the playlist is currently playing audio.
 func (pl *Playlist) Playing() bool {
+	pl.songsMutex.RLock()
+	defer pl.songsMutex.RUnlock()
 	return pl.playing
 }
 
 // SetPlaying can set whether or not the playlist should be playing audio.
 func (pl *Playlist) SetPlaying(p bool) {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
 	pl.playing = p
 }
 
 // CurrentSong returns the song currently being played
 func (pl *Playlist) CurrentSong() string {
+	pl.songsMutex.RLock()
+	defer pl.songsMutex.RUnlock()
 	return pl.currentSong
 }
 
+func (pl *Playlist) setCurrentSong(song string) {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	pl.currentSong = song
+}
+
 // SetNewSongHandler sets the new song handler, which is called every time the playlist begins playing a new song
 func (pl *Playlist) SetNewSongHandler(nsh func(startSampleIndex uint64, filename string, songLength int64)) {
 	pl.newSongHandler = nsh
-- 
2.43.0


From 19b7bbfd6ae473d6b02bee5f082a18b12e0ca55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 17/50] fix: report a pause at the sample it takes effect

---
 playback/playlist.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index a71ecb0..2734075 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -83,8 +83,7 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 
 	for {
 		n, ok := streamerBufferSize, true
-		pl.callPauseToggleHandler()
-		if pl.Playing() {
+		if pl.callPauseToggleHandler() {
 			n, ok = s.Stream(buf)
 			pl.pushBuffer(buf[:n])
 		} else {
@@ -140,12 +139,14 @@ func (pl *Playlist) pushSample(low, high float64) {
 	pl.sampleIndexWrite++
 }
 
-func (pl *Playlist) callPauseToggleHandler() {
+// callPauseToggleHandler returns whether the playlist is playing, after reporting it, if it has changed.
+func (pl *Playlist) callPauseToggleHandler() bool {
 	playing := pl.Playing()
 	if playing != pl.playingLast && pl.pauseToggleHandler != nil {
 		pl.playingLast = playing
 		go pl.pauseToggleHandler(playing, pl.sampleIndexWrite)
 	}
+	return playing
 }
 
 // SetPos jumps to the song at pos.
-- 
2.43.0


From af3c27ea61cc909a80c1ca67ea4120b3e2485df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 18/50] fix: do not skip or restart the target of a jump

---
 playback/playlist.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 2734075..8f4cf0c 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -67,6 +67,10 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 func (pl *Playlist) nextSong() (song string) {
 	pl.songsMutex.Lock()
 	defer pl.songsMutex.Unlock()
+	// all pending jumps are satisfied by reading position below
+	for 0 < len(pl.forceNext) {
+		<-pl.forceNext
+	}
 	if len(pl.songs) == 0 {
 		return ""
 	}
@@ -96,11 +100,13 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 	}
 }
 
-// advance moves on to the next song.
+// advance moves on to the next song, unless a jump is pending.
 func (pl *Playlist) advance() {
 	pl.songsMutex.Lock()
 	defer pl.songsMutex.Unlock()
-	pl.position++
+	if len(pl.forceNext) == 0 {
+		pl.position++
+	}
 }
 
 func (pl *Playlist) shouldBreakStreamerPushLoop(n int, ok bool, bufSize int) bool {
-- 
2.43.0


From 46139ab73948934997835370263156e0c43a7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 19/50] fix: lost wakeups and data races in timedSampleQueue

---
 playback/timed_sample_queue.go | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/playback/timed_sample_queue.go b/playback/timed_sample_queue.go
index 4f85177..887648c 100644
--- a/playback/timed_sample_queue.go
+++ b/playback/timed_sample_queue.go
@@ -7,14 +7,12 @@ type timedSampleQueue struct {
 	head   int
 	tail   int
 
-	cond      *sync.Cond
-	headMutex sync.RWMutex
-	tailMutex sync.RWMutex
+	cond *sync.Cond // its locker guards head, tail and the content of buffer
 }
 
 func (q *timedSampleQueue) Add(sample [2]float64, time int64) {
-	q.headMutex.Lock()
-	defer q.headMutex.Unlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
 	q.waitNotFull()
 
@@ -25,8 +23,8 @@ func (q *timedSampleQueue) Add(sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Remove() (sample [2]float64, time int64) {
-	q.tailMutex.Lock()
-	defer q.tailMutex.Unlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
 	q.waitNotEmpty()
 
@@ -38,8 +36,8 @@ func (q *timedSampleQueue) Remove() (sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Peek() (sample [2]float64, time int64) {
-	q.tailMutex.RLock()
-	defer q.tailMutex.RUnlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
 	q.waitNotEmpty()
 
@@ -48,10 +46,8 @@ func (q *timedSampleQueue) Peek() (sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Len() int {
-	q.tailMutex.RLock()
-	defer q.tailMutex.RUnlock()
-	q.headMutex.RLock()
-	defer q.headMutex.RUnlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 	if q.tail <= q.head {
 		return q.head - q.tail
 	}
@@ -75,19 +71,15 @@ func (q *timedSampleQueue) empty() bool {
 }
 
 func (q *timedSampleQueue) waitNotFull() {
-	q.cond.L.Lock()
 	for q.full() {
 		q.cond.Wait()
 	}
-	q.cond.L.Unlock()
 }
 
 func (q *timedSampleQueue) waitNotEmpty() {
-	q.cond.L.Lock()
 	for q.empty() {
 		q.cond.Wait()
 	}
-	q.cond.L.Unlock()
 }
 
 func newTimedSampleQueue(size int) *timedSampleQueue {
-- 
2.43.0


From 3f28893810eb595ed936c1766ee41060d32745e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 20/50] fix: do not drop the first samples of a song

---
 playback/streamer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index 65337e3..f23e3cf 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -62,7 +62,7 @@ func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n in
 		tms.samples.Remove()
 		s, t = tms.samples.Peek()
 	}
-	if now < t+tms.samplesDuration(len(samples)) {
+	if now+tms.samplesDuration(len(samples)) < t {
 		tms.background.Stream(samples)
 		return len(samples), false
 	} else if now < t {
-- 
2.43.0


From 5cbf8e76d1c7bae71a72a8222b36a5ea7adf1972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 21/50] fix: access queued chunks under their mutex and do not
 hold it while waiting

---
 playback/streamer.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index f23e3cf..793779d 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -80,22 +80,29 @@ func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n in
 
 func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
 	for !util.IsCanceled(ctx) {
-		if 0 < len(tms.chunks) {
-			tms.chunksMutex.RLock()
-			st := tms.chunks[0].startTime
-			for i, s := range tms.chunks[0].samples {
+		if chunk := tms.nextChunk(); chunk != nil {
+			st := chunk.startTime
+			for i, s := range chunk.samples {
 				tms.samples.Add(s, st+tms.samplesDuration(i))
 			}
-			tms.chunksMutex.RUnlock()
-			tms.chunksMutex.Lock()
-			tms.chunks = tms.chunks[1:]
-			tms.chunksMutex.Unlock()
 		} else {
 			time.Sleep(time.Millisecond)
 		}
 	}
 }
 
+// nextChunk removes and returns the first queued chunk (or nil, if there is none)
+func (tms *timedMultiStreamer) nextChunk() *queuedChunk {
+	tms.chunksMutex.Lock()
+	defer tms.chunksMutex.Unlock()
+	if len(tms.chunks) == 0 {
+		return nil
+	}
+	chunk := tms.chunks[0]
+	tms.chunks = tms.chunks[1:]
+	return chunk
+}
+
 func (tms *timedMultiStreamer) samplesDuration(n int) int64 {
 	return int64(tms.format.SampleRate.D(n) / time.Nanosecond)
 }
-- 
2.43.0


From 88a6b5383e44dc057d1913a618b79b615a842684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 22/50] fix: do not lose a volume received while playback is
 initializing

---
 playback/playback.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/playback/playback.go b/playback/playback.go
index 952c541..1b6e9ba 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -10,6 +10,7 @@ import (
 	"math"
 	"os"
 	"path"
+	"sync"
 	"time"
 
 	"github.com/LogicalOverflow/music-sync/logging"
@@ -24,7 +25,9 @@ var (
 	format     beep.Format
 	streamer   *timedMultiStreamer
 	bufferSize int
-	volume     float64
+	volume     = .1
+	// stateMutex guards streamer and volume
+	stateMutex sync.RWMutex
 )
 
 var logger = log.GetLogger("play")
@@ -82,7 +85,6 @@ func Init(sampleRate int) error {
 	logger.Infof("initializing playback")
 	var err error
 
-	volume = .1
 	format = beep.Format{SampleRate: beep.SampleRate(sampleRate), NumChannels: 2, Precision: 2}
 
 	bufferSize = format.SampleRate.N(time.Second / 10)
@@ -116,10 +118,18 @@ func initStreamer() {
 
 // SetVolume sets the playback volume of the player
 func SetVolume(v float64) {
+	stateMutex.Lock()
 	volume = v
+	stateMutex.Unlock()
 	logger.Infof("volume set to %.3f", v)
 }
 
+func getVolume() float64 {
+	stateMutex.RLock()
+	defer stateMutex.RUnlock()
+	return volume
+}
+
 func playLoop(ctx context.Context) {
 	numBytes := bufferSize * format.NumChannels * format.Precision
 	samples := make([][2]float64, bufferSize)
@@ -133,9 +143,10 @@ func playLoop(ctx context.Context) {
 }
 
 func samplesToAudioBuf(samples [][2]float64, buf []byte) {
+	v := getVolume()
 	for i := range samples {
 		for c := range samples[i] {
-			buf[i*4+c*2+0], buf[i*4+c*2+1] = convertSampleToBytes(samples[i][c] * volume)
+			buf[i*4+c*2+0], buf[i*4+c*2+1] = convertSampleToBytes(samples[i][c] * v)
 		}
 	}
 }
-- 
2.43.0


From f2edd69ab8d87c562406aadfeb3dd269357bbd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 23/50] fix: data race between initializing playback and
 queueing chunks

---
 playback/playback.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/playback/playback.go b/playback/playback.go
index 1b6e9ba..2d9f31b 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -53,6 +53,7 @@ func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 
 // QueueChunk queue a chunk for playback
 func QueueChunk(startTime int64, chunkID int64, samples [][2]float64) {
+	streamer := getCurrentStreamer()
 	if streamer == nil {
 		logger.Infof("not queuing chunk %d: streamer not ready", chunkID)
 		return
@@ -99,13 +100,21 @@ func Init(sampleRate int) error {
 	// player.SetUnderrunCallback(func() { logger.Warn("player is underrunning") })
 	initStreamer()
 	go playLoop(context.Background())
-	go streamer.ReadChunks(context.Background())
+	go getCurrentStreamer().ReadChunks(context.Background())
 	logger.Infof("playback initialized")
 
 	return nil
 }
 
+func getCurrentStreamer() *timedMultiStreamer {
+	stateMutex.RLock()
+	defer stateMutex.RUnlock()
+	return streamer
+}
+
 func initStreamer() {
+	stateMutex.Lock()
+	defer stateMutex.Unlock()
 	streamer = &timedMultiStreamer{
 		format:     format,
 		chunks:     make([]*queuedChunk, 0),
@@ -136,7 +145,7 @@ func playLoop(ctx context.Context) {
 	buf := make([]byte, numBytes)
 
 	for !util.IsCanceled(ctx) {
-		streamer.Stream(samples)
+		getCurrentStreamer().Stream(samples)
 		samplesToAudioBuf(samples, buf)
 		player.Write(buf)
 	}
-- 
2.43.0


From 986b67870290354db90409bb5ea26896010fbbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 24/50] fix: data races on the time offset

---
 timing/timing.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timing/timing.go b/timing/timing.go
index 6ac7ec1..3373485 100644
--- a/timing/timing.go
+++ b/timing/timing.go
@@ -16,6 +16,8 @@ var offsetsMutex sync.Mutex
 
 // GetSyncedTime returns the current time, sync to the sever, with nanosecond precision
 func GetSyncedTime() int64 {
+	offsetsMutex.Lock()
+	defer offsetsMutex.Unlock()
 	return int64(monotime.Now()) + offset
 }
 
@@ -37,18 +39,16 @@ func UpdateOffset(clientSend, serverRecv, serverSend, clientRecv int64) {
 
 	calcOffset := ((serverRecv - clientSend) + (serverSend - clientRecv)) / 2
 	offsetsMutex.Lock()
+	defer offsetsMutex.Unlock()
 	offsets = append(offsets, calcOffset)
-	offsetsMutex.Unlock()
 
 	if len(offsets) == cap(offsets) {
-		offsetsMutex.Lock()
 		avg := big.NewInt(0)
 		for _, o := range offsets {
 			avg = new(big.Int).Add(avg, big.NewInt(o))
 		}
 		avg = new(big.Int).Div(avg, big.NewInt(int64(len(offsets))))
 		offset = avg.Int64()
-		offsetsMutex.Unlock()
 		logger.Infof("time synced: offset: %d", offset)
 	}
 }
-- 
2.43.0


From 88ceb1c4e4f5c59fafbb4fceba5e8d6398c42589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 25/50] fix: a rejected volume command no longer resets the
 volume

---
 schedule/server_state_commands.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 3b4c302..c0fc39f 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -162,15 +162,15 @@ func (ss *serverState) volumeCommand() ssh.Command {
 		Usage: "volume",
 		Info:  "set the playback volume",
 		ExecFunc: func(args []string) (string, bool) {
-			var ok bool
-			ss.volume, ok = parseFloatParam(args, 0)
+			volume, ok := parseFloatParam(args, 0)
 			if !ok {
 				return "", false
 			}
-			if err := ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume}); err != nil {
-				return fmt.Sprintf("failed to set volume to %.3f: %v", ss.volume, err), true
+			ss.volume = volume
+			if err := ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: volume}); err != nil {
+				return fmt.Sprintf("failed to set volume to %.3f: %v", volume, err), true
 			}
-			return fmt.Sprintf("setting volume to %.3f", ss.volume), true
+			return fmt.Sprintf("setting volume to %.3f", volume), true
 		},
 	}
 }
-- 
2.43.0


From ac22f0af8f0bab672fe7d04cf3055d10bc476d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 26/50] fix: store a pause before broadcasting it, so no
 subscriber misses it

---
 schedule/server_state.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 31587e0..f533487 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -98,12 +98,10 @@ func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 			Playing:           playing,
 			ToggleSampleIndex: sample,
 		}
-		go func(pause *comm.PauseInfo) {
-			ss.pausesMutex.Lock()
-			defer ss.pausesMutex.Unlock()
-			ss.pauses = append(ss.pauses, pause)
-			go ss.removeOldPauses()
-		}(pause)
+		ss.pausesMutex.Lock()
+		ss.pauses = append(ss.pauses, pause)
+		ss.pausesMutex.Unlock()
+		go ss.removeOldPauses()
 		ss.sender.SendMessage(pause)
 	}
 }
-- 
2.43.0


From 8534475a450ecfce7652b1e51dab6dccb8038f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 27/50] fix: concurrent removals of old pauses no longer panic
 or drop recent pauses

---
 schedule/server_state.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index f533487..80bb0d4 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -106,14 +106,12 @@ func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 	}
 }
 
+// removablePauses returns how many pauses can be removed. pausesMutex must be held, if the result is used to do so.
 func (ss *serverState) removablePauses() int {
 	if ss.newestSong == nil {
 		return 0
 	}
 
-	ss.pausesMutex.Lock()
-	defer ss.pausesMutex.Unlock()
-
 	passed := 0
 	for i, p := range ss.pauses {
 		inPast := ss.newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
@@ -127,11 +125,11 @@ func (ss *serverState) removablePauses() int {
 }
 
 func (ss *serverState) removeOldPauses() {
+	ss.pausesMutex.Lock()
+	defer ss.pausesMutex.Unlock()
+
 	removable := ss.removablePauses()
 	if 0 < removable {
-		ss.pausesMutex.Lock()
-		defer ss.pausesMutex.Unlock()
-
 		copy(ss.pauses, ss.pauses[removable:])
 		for i := len(ss.pauses) - removable; i < len(ss.pauses); i++ {
 			ss.pauses[i] = nil
-- 
2.43.0


From d6d74f179d2291c9dbe100700bf85a07a86bc3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 28/50] fix: do not hold the pauses lock while sending to a
 client

---
 schedule/server_state.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 80bb0d4..16aa4f2 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -36,10 +36,12 @@ func (ss *serverState) sendNewestSong(s comm.MessageSender) {
 
 func (ss *serverState) sendPauses(s comm.MessageSender) {
 	ss.pausesMutex.RLock()
-	for _, p := range ss.pauses {
+	pauses := make([]*comm.PauseInfo, len(ss.pauses))
+	copy(pauses, ss.pauses)
+	ss.pausesMutex.RUnlock()
+	for _, p := range pauses {
 		s.SendMessage(p)
 	}
-	ss.pausesMutex.RUnlock()
 }
 
 func (ss *serverState) createClientHandler() func(comm.Channel, comm.MessageSender) {
-- 
2.43.0


From 8171d632dc323407364e4f2dc2d9d7cd6cfd09a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 29/50] fix: data races on the volume, newest song and playlist
 handlers of the server

---
 schedule/server.go                |  3 +--
 schedule/server_state.go          | 42 +++++++++++++++++++++++++------
 schedule/server_state_commands.go |  2 +-
 3 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/schedule/server.go b/schedule/server.go
index 1f8eabb..fa1758b 100644
--- a/schedule/server.go
+++ b/schedule/server.go
@@ -23,11 +23,10 @@ func Server(sender comm.MessageSender) {
 
 	comm.SetNewClientHandler(ss.createClientHandler())
 
-	go ss.playlist.StreamLoop(context.Background())
-
 	ss.playlist.SetNewSongHandler(ss.createNewSongHandler())
 	ss.playlist.SetPauseToggleHandler(ss.createPauseToggleHandler())
 
+	go ss.playlist.StreamLoop(context.Background())
 	go ss.streamMusic()
 
 	ssh.RegisterCommand(ss.queueCommand())
diff --git a/schedule/server_state.go b/schedule/server_state.go
index 16aa4f2..224dd68 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -20,20 +20,46 @@ type serverState struct {
 
 	newestSong *comm.NewSongInfo
 
+	stateMutex sync.RWMutex // guards volume and newestSong
+
 	pauses      []*comm.PauseInfo
 	pausesMutex sync.RWMutex
 }
 
 func (ss *serverState) sendVolume(s comm.MessageSender) {
-	s.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume})
+	s.SendMessage(&comm.SetVolumeRequest{Volume: ss.getVolume()})
 }
 
 func (ss *serverState) sendNewestSong(s comm.MessageSender) {
-	if ss.newestSong != nil {
-		s.SendMessage(ss.newestSong)
+	if newestSong := ss.getNewestSong(); newestSong != nil {
+		s.SendMessage(newestSong)
 	}
 }
 
+func (ss *serverState) getVolume() float64 {
+	ss.stateMutex.RLock()
+	defer ss.stateMutex.RUnlock()
+	return ss.volume
+}
+
+func (ss *serverState) setVolume(volume float64) {
+	ss.stateMutex.Lock()
+	defer ss.stateMutex.Unlock()
+	ss.volume = volume
+}
+
+func (ss *serverState) getNewestSong() *comm.NewSongInfo {
+	ss.stateMutex.RLock()
+	defer ss.stateMutex.RUnlock()
+	return ss.newestSong
+}
+
+func (ss *serverState) setNewestSong(newestSong *comm.NewSongInfo) {
+	ss.stateMutex.Lock()
+	defer ss.stateMutex.Unlock()
+	ss.newestSong = newestSong
+}
+
 func (ss *serverState) sendPauses(s comm.MessageSender) {
 	ss.pausesMutex.RLock()
 	pauses := make([]*comm.PauseInfo, len(ss.pauses))
@@ -79,7 +105,7 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 
 		md := ss.metadataProvider.CollectMetadata(filename)
 
-		ss.newestSong = &comm.NewSongInfo{
+		newestSong := &comm.NewSongInfo{
 			FirstSampleOfSongIndex: startSampleIndex,
 			SongFileName:           filename,
 			SongLength:             songLength,
@@ -90,7 +116,8 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 				Album:  md.Album,
 			},
 		}
-		ss.sender.SendMessage(ss.newestSong)
+		ss.setNewestSong(newestSong)
+		ss.sender.SendMessage(newestSong)
 	}
 }
 
@@ -110,13 +137,14 @@ func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 
 // removablePauses returns how many pauses can be removed. pausesMutex must be held, if the result is used to do so.
 func (ss *serverState) removablePauses() int {
-	if ss.newestSong == nil {
+	newestSong := ss.getNewestSong()
+	if newestSong == nil {
 		return 0
 	}
 
 	passed := 0
 	for i, p := range ss.pauses {
-		inPast := ss.newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
+		inPast := newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
 		if !inPast && p.Playing {
 			passed = i
 		} else if inPast {
diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index c0fc39f..21681a0 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -166,7 +166,7 @@ func (ss *serverState) volumeCommand() ssh.Command {
 			if !ok {
 				return "", false
 			}
-			ss.volume = volume
+			ss.setVolume(volume)
 			if err := ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: volume}); err != nil {
 				return fmt.Sprintf("failed to set volume to %.3f: %v", volume, err), true
 			}
-- 
2.43.0


From acb43347eb8d415ba77b490fffe497b0f6eca040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 30/50] fix: data race when parsing commands of multiple ssh
 sessions

---
 ssh/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index 0fe4056..d23697f 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -5,6 +5,7 @@ import (
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 	"reflect"
 	"strings"
+	"sync"
 )
 
 func getParser(line string) *shell_parser.ShellParser {
@@ -34,8 +35,13 @@ func (c ParsedCommand) Unparse() string {
 	return strings.Replace(c.Command, " ", "\\ ", -1) + " " + strings.Join(unparsedParams, " ") + " "
 }
 
+// parserMutex guards the state the generated lexer and parser share between all their instances
+var parserMutex sync.Mutex
+
 // ParseCommand parses an ssh command
 func ParseCommand(line string) ParsedCommand {
+	parserMutex.Lock()
+	defer parserMutex.Unlock()
 	p := getParser(line)
 	tree := p.Line()
 	listener := newShellListener()
-- 
2.43.0


From 0e73af114fa7822d723330adf67098a0951f36af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 31/50] fix: auto completing a line longer than its completion
 no longer panics

---
 ssh/auto_completer.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ssh/auto_completer.go b/ssh/auto_completer.go
index 24519a8..1516a31 100644
--- a/ssh/auto_completer.go
+++ b/ssh/auto_completer.go
@@ -41,7 +41,7 @@ func (sac *sshAutoCompleter) commandNames() []string {
 func (sac *sshAutoCompleter) commandsWithPrefix(cmd parser.ParsedCommand, pos int, result [][]rune) [][]rune {
 	for _, c := range sac.commandNames() {
 		if strings.HasPrefix(c, cmd.Command) {
-			result = append(result, []rune((c + " ")[pos:]))
+			result = sac.appendCompletion(result, c+" ", pos)
 		}
 	}
 	return result
@@ -54,13 +54,21 @@ func (sac *sshAutoCompleter) commandArgOptionsWithPrefix(cmd parser.ParsedComman
 		arg := cmd.Parameters[argNum]
 		for _, o := range sac.filterByPrefix(c.Options(arg, argNum), arg) {
 			cmd.Parameters[argNum] = o
-			result = append(result, []rune(cmd.Unparse())[pos:])
+			result = sac.appendCompletion(result, cmd.Unparse(), pos)
 		}
 		cmd.Parameters[argNum] = arg
 	}
 	return result
 }
 
+// appendCompletion appends the part of completed behind pos, if there is one, to result
+func (sac *sshAutoCompleter) appendCompletion(result [][]rune, completed string, pos int) [][]rune {
+	if runes := []rune(completed); pos <= len(runes) {
+		result = append(result, runes[pos:])
+	}
+	return result
+}
+
 func (sac *sshAutoCompleter) filterByPrefix(l []string, prefix string) []string {
 	r := make([]string, 0, len(l))
 	for _, e := range l {
-- 
2.43.0


From f62cd48d6b77b3ec80b9ed581db861da74b33eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 32/50] fix: do not garble non-ascii characters in commands

---
 ssh/parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index d23697f..1759c16 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+	"unicode/utf8"
 )
 
 func getParser(line string) *shell_parser.ShellParser {
@@ -69,7 +70,8 @@ func (s *shellListener) EnterCommandString(ctx *shell_parser.CommandStringContex
 
 func (s *shellListener) ExitCharacter(ctx *shell_parser.CharacterContext) {
 	if len(ctx.GetText()) != 0 {
-		s.currentString += string(ctx.GetText()[len(ctx.GetText())-1])
+		last, _ := utf8.DecodeLastRuneInString(ctx.GetText())
+		s.currentString += string(last)
 	}
 }
 
-- 
2.43.0


From 6757ed397e2bb68fbbd633b735321824cc4b05fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 33/50] fix: data race on the terminal size of an ssh session

---
 ssh/session_handler.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index d6e539c..40efcc7 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -7,6 +7,7 @@ import (
 	"github.com/gliderlabs/ssh"
 	"io"
 	"strings"
+	"sync"
 )
 
 type session struct {
@@ -15,6 +16,19 @@ type session struct {
 	ex  *readline.Instance
 
 	width, height int
+	sizeMutex     sync.RWMutex
+}
+
+func (s *session) setSize(w ssh.Window) {
+	s.sizeMutex.Lock()
+	defer s.sizeMutex.Unlock()
+	s.width, s.height = w.Width, w.Height
+}
+
+func (s *session) getWidth() int {
+	s.sizeMutex.RLock()
+	defer s.sizeMutex.RUnlock()
+	return s.width
 }
 
 func (s *session) preparePty() bool {
@@ -24,10 +38,10 @@ func (s *session) preparePty() bool {
 		return false
 	}
 
-	s.width, s.height = pty.Window.Width, pty.Window.Height
+	s.setSize(pty.Window)
 	go func() {
 		for w := range resize {
-			s.width, s.height = w.Width, w.Height
+			s.setSize(w)
 		}
 	}()
 
@@ -66,7 +80,7 @@ func (s *session) createReadlineConfig() {
 		InterruptPrompt: "^C",
 		EOFPrompt:       "exit",
 
-		FuncGetWidth: func() int { return s.width },
+		FuncGetWidth: s.getWidth,
 
 		Stdin:       s,
 		Stdout:      s,
-- 
2.43.0


From ad6e513a8da98df40527a87dcb7c9b9c1fb0a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 34/50] fix: exit the infoer with an error if it can not
 connect to the server

---
 cmd/music-sync-infoer/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index 32f37a4..0047fe7 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -53,7 +53,8 @@ func run(ctx *cli.Context) error {
 	server := fmt.Sprintf("%s:%d", serverAddress, serverPort)
 	sender, err := comm.ConnectToServer(server, newInfoerPackageHandler())
 	if err != nil {
-		cli.NewExitError(err, 1)
+		s.Fini()
+		return cli.NewExitError(err, 1)
 	}
 
 	go schedule.Infoer(sender)
-- 
2.43.0


From 9de2fc5591d869daf8975b43b637a6669fb2b968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 35/50] fix: data race on the volume displayed by the infoer

---
 cmd/music-sync-infoer/infoer_package_handler.go |  2 +-
 cmd/music-sync-infoer/state.go                  | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/cmd/music-sync-infoer/infoer_package_handler.go b/cmd/music-sync-infoer/infoer_package_handler.go
index 253ee22..6972be8 100644
--- a/cmd/music-sync-infoer/infoer_package_handler.go
+++ b/cmd/music-sync-infoer/infoer_package_handler.go
@@ -68,7 +68,7 @@ func (i *infoerPackageHandler) HandlePauseInfo(pauseInfo *comm.PauseInfo, _ net.
 }
 
 func (i *infoerPackageHandler) HandleSetVolumeRequest(svr *comm.SetVolumeRequest, _ net.Conn) {
-	currentState.Volume = svr.Volume
+	currentState.setVolume(svr.Volume)
 }
 
 func (i *infoerPackageHandler) HandlePingMessage(_ *comm.PingMessage, conn net.Conn) {
diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index cba440d..72885ab 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -17,7 +17,20 @@ type state struct {
 	Pauses      []pauseToggle
 	PausesMutex sync.RWMutex
 
-	Volume float64
+	Volume      float64
+	VolumeMutex sync.RWMutex
+}
+
+func (s *state) setVolume(volume float64) {
+	s.VolumeMutex.Lock()
+	defer s.VolumeMutex.Unlock()
+	s.Volume = volume
+}
+
+func (s *state) getVolume() float64 {
+	s.VolumeMutex.RLock()
+	defer s.VolumeMutex.RUnlock()
+	return s.Volume
 }
 
 type pauseByToggleIndex []pauseToggle
@@ -62,7 +75,7 @@ func (s *state) Info(now int64) *playbackInformation {
 		PausesInCurrentSong: pausesInCurrentSong,
 		Now:                 now,
 		Playing:             playing,
-		Volume:              s.Volume,
+		Volume:              s.getVolume(),
 		SongLength:          songLength,
 		TimeInSong:          timeInSong,
 		ProgressInSong:      progressInSong}
-- 
2.43.0


From 27320e6483b19de42cdca34d59ec7aa47a91397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 36/50] fix: data races between the infoer's event loop and its
 drawing loop

---
 cmd/music-sync-infoer/drawing.go |  6 +++++-
 cmd/music-sync-infoer/main.go    | 20 ++++++++++++--------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index 7dbd956..aae9b24 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -21,13 +21,17 @@ func (d *drawer) eventLoop() {
 			}
 		case *tcell.EventResize:
 			d.Sync()
-			d.w, d.h = d.Size()
 		default:
 			panic(fmt.Sprintf("%T", ev))
 		}
 	}
 }
 
+// updateSize must only be called by the goroutine which draws
+func (d *drawer) updateSize() {
+	d.w, d.h = d.Size()
+}
+
 func (d *drawer) drawString(x, y int, style tcell.Style, str string) {
 	for i, r := range str {
 		d.SetContent(x+i, y, r, nil, style)
diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index 0047fe7..fb02e3a 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -93,24 +93,28 @@ func tcellLoop(screen tcell.Screen) {
 	d := &drawer{Screen: screen}
 	d.w, d.h = d.Size()
 
-	running := true
+	done := make(chan struct{})
 	go func() {
+		defer close(done)
 		d.eventLoop()
-		running = false
 	}()
 
-	for range time.Tick(200 * time.Millisecond) {
-		if !running {
-			break
+	ticker := time.NewTicker(200 * time.Millisecond)
+	defer ticker.Stop()
+	for {
+		select {
+		case <-done:
+			screen.Fini()
+			return
+		case <-ticker.C:
+			redraw(d)
 		}
-		redraw(d)
 	}
-
-	screen.Fini()
 }
 
 func redraw(d *drawer) {
 	d.Clear()
+	d.updateSize()
 
 	info := currentState.Info(timing.GetSyncedTime())
 	drawPlaybackInfo(d, info)
-- 
2.43.0


From f928f58cab9914205efd201ec2fde59a2e2d4a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 37/50] fix: do not crash the infoer on terminal events it does
 not use

---
 cmd/music-sync-infoer/drawing.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index aae9b24..8977799 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"fmt"
 	"github.com/gdamore/tcell"
 	"math"
 )
@@ -21,8 +20,9 @@ func (d *drawer) eventLoop() {
 			}
 		case *tcell.EventResize:
 			d.Sync()
-		default:
-			panic(fmt.Sprintf("%T", ev))
+		case nil:
+			// the screen is finished
+			return
 		}
 	}
 }
-- 
2.43.0


From 9a9b5d86f86af7d85abacb2bc97747e54a55788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 38/50] fix: do not list or queue files outside of the music
 directory

---
 util/file_utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index f8b27c7..a6d352d 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -44,11 +44,16 @@ func removeDirPrefix(path string, prefix string) string {
 	return path
 }
 
+// joinInside joins dir and path. The result never leaves dir, even if path contains ".." elements.
+func joinInside(dir, path string) string {
+	return filepath.Join(dir, filepath.Join(string(filepath.Separator), path))
+}
+
 // ListAllFiles recursively lists all files in songsDir/subDir
 func ListAllFiles(songsDir string, subDir string) []string {
 	dir := songsDir
 	if subDir != "" {
-		dir = filepath.Join(songsDir, subDir)
+		dir = joinInside(songsDir, subDir)
 	}
 
 	return walker(dir, func(path string) string {
@@ -69,7 +74,7 @@ func ListAllSubDirs(dir string) []string {
 
 // ListGlobFiles lists all files in a directory matching the provided glob pattern
 func ListGlobFiles(dir, pattern string) ([]string, error) {
-	matches, err := filepath.Glob(filepath.Join(dir, pattern))
+	matches, err := filepath.Glob(joinInside(dir, pattern))
 	if err != nil {
 		return []string{}, err
 	}
-- 
2.43.0


From cc2b32b162170a200bed4c93324560947cd60332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 39/50] fix: list songs correctly if the path of the music
 directory is not clean

---
 util/file_utils.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index a6d352d..ed60289 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -35,13 +35,14 @@ func walker(root string, pathTransform func(string) string, pathFilter func(stri
 }
 
 func removeDirPrefix(path string, prefix string) string {
-	if strings.HasPrefix(path, prefix) {
-		path = path[len(prefix):]
+	rel, err := filepath.Rel(prefix, path)
+	if err != nil {
+		return path
 	}
-	if strings.HasPrefix(path, "/") || strings.HasPrefix(path, "\\") {
-		path = path[1:]
+	if rel == "." {
+		return ""
 	}
-	return path
+	return rel
 }
 
 // joinInside joins dir and path. The result never leaves dir, even if path contains ".." elements.
-- 
2.43.0


From 017d33104aa57257c2ac1df5e8066c65d4f2a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 40/50] fix: apply the logging level flags to the loggers they
 are named after

---
 cmd/flags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/flags.go b/cmd/flags.go
index 81bc75d..5235155 100644
--- a/cmd/flags.go
+++ b/cmd/flags.go
@@ -70,7 +70,7 @@ func newLoggingFlag(name string) LoggingFlag {
 	}
 	levels := strings.Join(l, ", ")
 
-	return LoggingFlag{StringFlag: cli.StringFlag{
+	return LoggingFlag{logName: name, StringFlag: cli.StringFlag{
 		Name:  fmt.Sprintf("%s-logging", name),
 		Usage: fmt.Sprintf("sets %s logging level (values: %s)", name, levels),
 	}}
@@ -82,7 +82,7 @@ func HandleLoggingFlags(ctx *cli.Context) {
 		levelName := ctx.String(FlagKey(f))
 		if levelName != "" {
 			level := log.LevelByName(levelName)
-			log.CutoffLevels[f.Name] = level
+			log.CutoffLevels[f.logName] = level
 		}
 	}
 	defaultLevelName := ctx.String("logging")
-- 
2.43.0


From 1439adb36ee77f1adb87e6f3131c7ff26a92bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 41/50] fix: reject sample rates and chunk sizes which are not
 positive

---
 cmd/flags.go                  | 10 ++++++++++
 cmd/music-sync-infoer/main.go |  3 +++
 cmd/music-sync-player/main.go |  3 +++
 cmd/music-sync-server/main.go |  4 ++++
 4 files changed, 20 insertions(+)

diff --git a/cmd/flags.go b/cmd/flags.go
index 5235155..a548246 100644
--- a/cmd/flags.go
+++ b/cmd/flags.go
@@ -226,6 +226,16 @@ var (
 	}
 )
 
+// CheckPositive returns an error if the value of one of the int flags is not positive
+func CheckPositive(ctx *cli.Context, flags ...cli.IntFlag) error {
+	for _, f := range flags {
+		if v := ctx.Int(FlagKey(f)); v <= 0 {
+			return fmt.Errorf("%s must be positive, but is %d", FlagKey(f), v)
+		}
+	}
+	return nil
+}
+
 // FlagKey returns the key to retrieve the flags value from the cli context
 func FlagKey(flag cli.Flag) string {
 	return strings.Split(flag.GetName(), ",")[0]
diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index fb02e3a..15ac771 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -46,6 +46,9 @@ func run(ctx *cli.Context) error {
 	)
 	lyricsHistorySize = int(ctx.Uint(cmd.FlagKey(cmd.LyricsHistorySizeFlag)))
 
+	if err := cmd.CheckPositive(ctx, cmd.SampleRateFlag); err != nil {
+		return cli.NewExitError(err, 1)
+	}
 	schedule.SampleRate = sampleRate
 
 	s := createTcellScreen()
diff --git a/cmd/music-sync-player/main.go b/cmd/music-sync-player/main.go
index b3c3b78..be4fe6c 100644
--- a/cmd/music-sync-player/main.go
+++ b/cmd/music-sync-player/main.go
@@ -40,6 +40,9 @@ func run(ctx *cli.Context) error {
 		sampleRate = ctx.Int(cmd.FlagKey(cmd.SampleRateFlag))
 	)
 
+	if err := cmd.CheckPositive(ctx, cmd.SampleRateFlag); err != nil {
+		return cli.NewExitError(err, 1)
+	}
 	schedule.SampleRate = sampleRate
 
 	server := fmt.Sprintf("%s:%d", serverAddress, serverPort)
diff --git a/cmd/music-sync-server/main.go b/cmd/music-sync-server/main.go
index a5f1fe5..810c308 100644
--- a/cmd/music-sync-server/main.go
+++ b/cmd/music-sync-server/main.go
@@ -87,6 +87,10 @@ func run(ctx *cli.Context) error {
 		return cli.NewExitError(fmt.Sprintf("invalid music dir: %v", err), 1)
 	}
 
+	if err := cmd.CheckPositive(ctx, cmd.SampleRateFlag, cmd.StreamChunkSizeFlag); err != nil {
+		return cli.NewExitError(err, 1)
+	}
+
 	playback.AudioDir = musicDir
 	setScheduleVars(ctx)
 
-- 
2.43.0


From 18205463f97b8b25f805cf132f880debe3999115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 42/50] fix: data race between registering commands and using
 them in ssh sessions

---
 ssh/auto_completer.go |  2 +-
 ssh/command.go        | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/ssh/auto_completer.go b/ssh/auto_completer.go
index 1516a31..ba97b01 100644
--- a/ssh/auto_completer.go
+++ b/ssh/auto_completer.go
@@ -32,7 +32,7 @@ func (sac *sshAutoCompleter) Do(line []rune, pos int) (newLine [][]rune, length
 
 func (sac *sshAutoCompleter) commandNames() []string {
 	cs := []string{"clear", "exit"}
-	for _, c := range commands {
+	for _, c := range registeredCommands() {
 		cs = append(cs, c.Name)
 	}
 	return cs
diff --git a/ssh/command.go b/ssh/command.go
index 93b1ca3..1e830d4 100644
--- a/ssh/command.go
+++ b/ssh/command.go
@@ -8,9 +8,18 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+	"sync"
 )
 
 var commands = make([]Command, 0)
+var commandsMutex sync.RWMutex
+
+// registeredCommands returns a copy of all registered commands
+func registeredCommands() []Command {
+	commandsMutex.RLock()
+	defer commandsMutex.RUnlock()
+	return append([]Command{}, commands...)
+}
 
 type commandsByName []Command
 
@@ -20,6 +29,8 @@ func (c commandsByName) Swap(i int, j int)      { c[i], c[j] = c[j], c[i] }
 
 // RegisterCommand registers a command to allow its use from ssh control interface
 func RegisterCommand(c Command) {
+	commandsMutex.Lock()
+	defer commandsMutex.Unlock()
 	commands = append(commands, c)
 	sort.Sort(commandsByName(commands))
 }
@@ -63,7 +74,7 @@ func (command Command) usage() string {
 }
 
 func commandByName(name string) *Command {
-	for _, c := range commands {
+	for _, c := range registeredCommands() {
 		if c.Name == name {
 			return &c
 		}
@@ -76,6 +87,7 @@ var helpCommand = Command{
 	Usage: "[command name]",
 	Info:  "retrieves help for a command",
 	ExecFunc: func(args []string) (string, bool) {
+		commands := registeredCommands()
 		if len(args) == 0 {
 			usages := make([]string, 0, len(commands))
 			for _, c := range commands {
@@ -113,7 +125,7 @@ var helpCommand = Command{
 			return []string{}
 		}
 		options := []string{"clear", "exit"}
-		for _, c := range commands {
+		for _, c := range registeredCommands() {
 			if strings.HasPrefix(c.Name, prefix) {
 				options = append(options, c.Name)
 			}
-- 
2.43.0


From 45441edbcd5cb688d2be9018f1267cb333728437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 43/50] fix: pauses ahead of a negative current sample are not
 handled as passed

---
 cmd/music-sync-infoer/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index 72885ab..5a224b2 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -88,7 +88,7 @@ type pausesInCurrentSongState struct {
 }
 
 func (picss *pausesInCurrentSongState) handlePause(sample int64, p pauseToggle, startIndex uint64) {
-	if uint64(sample) <= p.toggleIndex || picss.playing == p.playing {
+	if sample <= int64(p.toggleIndex) || picss.playing == p.playing {
 		return
 	}
 
-- 
2.43.0


From 612eefa985756b244aa1d717b16073bb90da17b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 44/50] fix: draw non-ASCII text without gaps

---
 cmd/music-sync-infoer/drawing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index 8977799..193bb68 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -33,7 +33,7 @@ func (d *drawer) updateSize() {
 }
 
 func (d *drawer) drawString(x, y int, style tcell.Style, str string) {
-	for i, r := range str {
+	for i, r := range []rune(str) {
 		d.SetContent(x+i, y, r, nil, style)
 	}
 }
-- 
2.43.0


From 814d51f991e2720eb014f65ac32f7f952b0e0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 45/50] fix: discard a line interrupted by ctrl-c instead of
 running it

---
 ssh/session_handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 40efcc7..3f5545b 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -126,6 +126,8 @@ func (s *session) readLoop() {
 	for {
 		line, err := s.ex.Readline()
 		if err == readline.ErrInterrupt {
+			// line holds what was typed before the interrupt, which is discarded
+			continue
 		} else if err == io.EOF {
 			logger.Infof("connection %s as %s closed", s.RemoteAddr(), s.User())
 			return
-- 
2.43.0


From 9058e4748be7fb398e997bf3463fa7ce888c9a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:08 +0000
Subject: [PATCH 46/50] fix: keep the order of songs queued at a negative
 position

---
 schedule/server_state_commands.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 21681a0..be15b43 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -56,6 +56,10 @@ func (ss *serverState) queueCommandExec(args []string) (string, bool) {
 
 	var insert func(string, int)
 	if pos, ok := parseIntParam(args, 1); ok {
+		if pos < 0 {
+			// InsertSong would clip the position of every song on its own and reverse their order
+			pos = 0
+		}
 		insert = func(s string, i int) { ss.playlist.InsertSong(s, pos+i) }
 	} else {
 		insert = func(s string, _ int) { ss.playlist.AddSong(s) }
-- 
2.43.0


From 19714a33a7101480764b1ac04f1b11f7cb29e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 47/50] fix: completions continue the typed command at its end

The completed command was cut at the position of the cursor, although it is an
unparsed command, in which the typed part has another length when there are
multiple spaces between parameters, and although the text behind the cursor was
taken as typed, too. Completing 'queue  so' to 'song.mp3' resulted in
'queue  song.mp3' losing a letter.
---
 ssh/auto_completer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ssh/auto_completer.go b/ssh/auto_completer.go
index ba97b01..b796078 100644
--- a/ssh/auto_completer.go
+++ b/ssh/auto_completer.go
@@ -9,6 +9,7 @@ type sshAutoCompleter struct{}
 
 func (sac *sshAutoCompleter) Do(line []rune, pos int) (newLine [][]rune, length int) {
 	newLine = make([][]rune, 0)
+	line = line[:pos]
 
 	lastChar := '\x00'
 	if len(line) != 0 {
@@ -20,10 +21,14 @@ func (sac *sshAutoCompleter) Do(line []rune, pos int) (newLine [][]rune, length
 		cmd.Parameters = append(cmd.Parameters, "")
 	}
 
+	// the completed commands are unparsed commands, so what was typed is their part up to the length of the unparsed cmd,
+	// which differs from pos if, for example, there are multiple spaces between parameters
+	typed := len([]rune(strings.TrimSuffix(cmd.Unparse(), " ")))
+
 	if len(cmd.Parameters) == 0 && lastChar != ' ' {
-		newLine = sac.commandsWithPrefix(cmd, pos, newLine)
+		newLine = sac.commandsWithPrefix(cmd, typed, newLine)
 	} else {
-		newLine = sac.commandArgOptionsWithPrefix(cmd, pos, newLine)
+		newLine = sac.commandArgOptionsWithPrefix(cmd, typed, newLine)
 	}
 
 	length = pos
-- 
2.43.0


From 2245476b9e2a1e0764d6abfaf239790a6e794652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:01 +0000
Subject: [PATCH 48/50] fix: Unparse escapes backslashes

An unparsed parameter containing a backslash in front of a space or another
backslash was parsed as something else, so completing the name of such a song
resulted in a command with other parameters.
---
 ssh/parser/parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index 1759c16..a53359c 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -23,17 +23,22 @@ type ParsedCommand struct {
 	Parameters []string
 }
 
+// escape escapes all characters of s with a special meaning in shell commands
+func escape(s string) string {
+	return strings.Replace(strings.Replace(s, "\\", "\\\\", -1), " ", "\\ ", -1)
+}
+
 // Unparse converts a parsed command back to a shell command
 func (c ParsedCommand) Unparse() string {
 	if len(c.Parameters) == 0 {
-		return strings.Replace(c.Command, " ", "\\ ", -1) + " "
+		return escape(c.Command) + " "
 	}
 	unparsedParams := make([]string, len(c.Parameters))
 	for i, p := range c.Parameters {
-		unparsedParams[i] = strings.Replace(p, " ", "\\ ", -1)
+		unparsedParams[i] = escape(p)
 	}
 
-	return strings.Replace(c.Command, " ", "\\ ", -1) + " " + strings.Join(unparsedParams, " ") + " "
+	return escape(c.Command) + " " + strings.Join(unparsedParams, " ") + " "
 }
 
 // parserMutex guards the state the generated lexer and parser share between all their instances
-- 
2.43.0


From 0b8a2a4db028389dc02b51bc912f86e8d38b0de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 49/50] fix: an inaccessible directory does not hide all files
 after it

Walking the music directory ended at the first directory which could not be
read, so that no song behind it was listed or offered.
---
 util/file_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index ed60289..8d9d214 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -23,7 +23,8 @@ func walker(root string, pathTransform func(string) string, pathFilter func(stri
 	walked := make([]string, 0)
 	filepath.Walk(root, func(path string, f os.FileInfo, err error) error {
 		if err != nil {
-			return err
+			// skip what can't be accessed, but not everything after it
+			return nil
 		}
 		path = pathTransform(path)
 		if pathFilter(path, f) {
-- 
2.43.0


From 86fe4f66ac7cf94156a9c3ff520183c1999aad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:05 +0000
Subject: [PATCH 50/50] fix: do not close the interrupt channel while signals
 are sent to it

---
 cmd/util.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/util.go b/cmd/util.go
index fff4a6b..e86eef0 100644
--- a/cmd/util.go
+++ b/cmd/util.go
@@ -10,7 +10,6 @@ func WaitForInterrupt() {
 	c := make(chan os.Signal, 1)
 	signal.Notify(c, os.Interrupt)
 	defer signal.Stop(c)
-	defer close(c)
 	for range c {
 		return
 	}
-- 
2.43.0

