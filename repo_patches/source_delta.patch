From 43db29e8c1bd703b1a7e9affe8845fbaba2694b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 01/44] fix: deliver the response's method and custom bytes to
 the caller

---
 application/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/application/stream.go b/application/stream.go
index 9940afa..fe8d4f2 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -373,7 +373,9 @@ func (sm *stream) handleInResponsePacket(pkt *packet.ResponsePacket) iodefine.IO
 	sm.log.Tracef("read response packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 	rsp := &response{
+		method:    string(pkt.Data.Key),
 		data:      pkt.Data.Value,
+		custom:    pkt.Data.Custom,
 		requestID: pkt.ID(),
 		clientID:  sm.cn.ClientID(),
 		streamID:  sm.dg.DialogueID(),
@@ -515,6 +517,7 @@ func (sm *stream) doRPC(pkt *packet.RequestPacket, rpc methodRPC, method string,
 		sm.rpcMtx.Unlock()
 
 		rspPkt := sm.pf.NewResponsePacket(pkt.ID(), []byte(req.method), rsp.data, rsp.err)
+		rspPkt.Data.Custom = rsp.custom
 		err := sm.dg.WriteWait(rspPkt)
 		if err != nil {
 			// Write error, the response cannot be delivered, so should be debuged
-- 
2.43.0


From 9334c1c260981ecc98dfd88a06dee70512c2f330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 02/44] fix: register the connect waiter before sending the
 conn packet

---
 conn/conn_client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 8bd5560..f5f74e3 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -199,8 +199,9 @@ func (cc *ClientConn) initFSM() {
 
 func (cc *ClientConn) connect() error {
 	pkt := cc.pf.NewConnPacket(cc.clientID, true, cc.heartbeat, cc.meta)
-	cc.writeInCh <- pkt
+	// sync must be set before the packet is sent down, in case of the ack coming first
 	sync := cc.shub.New(pkt.PacketID, synchub.WithTimeout(10*time.Second))
+	cc.writeInCh <- pkt
 	event := <-sync.C()
 
 	if event.Error != nil {
-- 
2.43.0


From 2234d6b4d0385488827b7c3fc0732700d1f689c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 03/44] fix: carry the message timeout to the receiver

---
 application/message.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/application/message.go b/application/message.go
index 51c95c5..fc354cb 100644
--- a/application/message.go
+++ b/application/message.go
@@ -68,6 +68,7 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 
 	pkt := sm.pf.NewMessagePacketWithIDAndSessionID(msg.ID(), sm.dg.DialogueID(), nil, msg.Data())
 	if msg.Timeout() != 0 {
+		pkt.Data.Timeout = msg.Timeout()
 		pkt.Data.Deadline = time.Now().Add(msg.Timeout())
 	}
 	pkt.Data.Topic = msg.Topic()
@@ -129,6 +130,7 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	now := time.Now()
 	pkt := sm.pf.NewMessagePacketWithIDAndSessionID(msg.ID(), sm.dg.DialogueID(), nil, msg.Data())
 	if msg.Timeout() != 0 {
+		pkt.Data.Timeout = msg.Timeout()
 		pkt.Data.Deadline = now.Add(msg.Timeout())
 	}
 	pkt.Data.Topic = msg.Topic()
-- 
2.43.0


From a0572339f860eab74c823e94527b93769abf70ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 04/44] fix: don't dereference nil when decoding request and
 response packets

---
 packet/decode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packet/decode.go b/packet/decode.go
index 07cc120..f65d95d 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -116,13 +116,17 @@ func Decode(data []byte) (Packet, uint32, error) {
 		return pkt, n, err
 
 	case TypeRequestPacket:
-		pkt := &RequestPacket{}
+		pkt := &RequestPacket{
+			&MessagePacket{},
+		}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
 
 	case TypeResponsePacket:
-		pkt := &ResponsePacket{}
+		pkt := &ResponsePacket{
+			&MessageAckPacket{},
+		}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
-- 
2.43.0


From e83a6e1f107bcade4b769f61a067f62ffe538f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 05/44] fix: decode request cancel packets

---
 packet/decode.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packet/decode.go b/packet/decode.go
index f65d95d..d917355 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -131,6 +131,12 @@ func Decode(data []byte) (Packet, uint32, error) {
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
 
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
+		pkt.PacketHeader = pktHdr
+		n, err = pkt.Decode(data[14:])
+		return pkt, n, err
+
 	default:
 		return nil, 10, ErrUnsupportedPacket
 	}
@@ -254,6 +260,12 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 		err = pkt.DecodeFromReader(reader)
 		return pkt, err
 
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
+		pkt.PacketHeader = pktHdr
+		err = pkt.DecodeFromReader(reader)
+		return pkt, err
+
 	default:
 		return nil, ErrUnsupportedPacket
 	}
-- 
2.43.0


From 27a3176f29b936cb88f4c44f1d4f1e87b2871d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 06/44] fix: encode the 320 seconds heartbeat

---
 packet/packet_conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packet/packet_conn.go b/packet/packet_conn.go
index 994087e..363ca77 100644
--- a/packet/packet_conn.go
+++ b/packet/packet_conn.go
@@ -79,7 +79,8 @@ func (connPkt *ConnPacket) Encode() ([]byte, error) {
 		pkt[0] |= 0x08
 	}
 	if connPkt.Heartbeat != Heartbeat5 {
-		pkt[0] |= byte(math.Pow(float64(connPkt.Heartbeat)/5, 0.25)) << 4
+		// 20, 80 and 320 are the 1st, 2nd and 3rd power of 4 times 5
+		pkt[0] |= byte(math.Round(math.Log2(float64(connPkt.Heartbeat)/5)/2)) << 4
 	}
 	// client id
 	binary.BigEndian.PutUint64(pkt[2:10], connPkt.ClientID)
-- 
2.43.0


From bed063d58266db05fd582de99e8c0ed42c04bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 07/44] fix: reject packets too short for their fixed fields

---
 packet/packet_conn.go | 18 ++++++++++++++++++
 packet/packet_data.go | 22 ++++++++++++++++++++--
 packet/packet_sess.go | 24 ++++++++++++++++++++++++
 3 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/packet/packet_conn.go b/packet/packet_conn.go
index 363ca77..b5ebe64 100644
--- a/packet/packet_conn.go
+++ b/packet/packet_conn.go
@@ -92,6 +92,9 @@ func (connPkt *ConnPacket) Encode() ([]byte, error) {
 }
 
 func (connPkt *ConnPacket) Decode(data []byte) (uint32, error) {
+	if connPkt.PacketLen < 10 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(connPkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -117,6 +120,9 @@ func (connPkt *ConnPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (connPkt *ConnPacket) DecodeFromReader(reader io.Reader) error {
+	if connPkt.PacketLen < 10 {
+		return ErrIllegalPacket
+	}
 	flags := make([]byte, 2)
 	_, err := io.ReadFull(reader, flags)
 	if err != nil {
@@ -188,6 +194,9 @@ func (connAckPkt *ConnAckPacket) Encode() ([]byte, error) {
 }
 
 func (connAckPkt *ConnAckPacket) Decode(data []byte) (uint32, error) {
+	if connAckPkt.PacketLen < 9 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(connAckPkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -207,6 +216,9 @@ func (connAckPkt *ConnAckPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (connAckPkt *ConnAckPacket) DecodeFromReader(reader io.Reader) error {
+	if connAckPkt.PacketLen < 9 {
+		return ErrIllegalPacket
+	}
 	length := int(connAckPkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
@@ -272,6 +284,9 @@ func (disConnAckPkt *DisConnAckPacket) Encode() ([]byte, error) {
 }
 
 func (disConnAckPkt *DisConnAckPacket) Decode(data []byte) (uint32, error) {
+	if disConnAckPkt.PacketLen < 1 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(disConnAckPkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -289,6 +304,9 @@ func (disConnAckPkt *DisConnAckPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (disConnAckPkt *DisConnAckPacket) DecodeFromReader(reader io.Reader) error {
+	if disConnAckPkt.PacketLen < 1 {
+		return ErrIllegalPacket
+	}
 	length := int(disConnAckPkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
diff --git a/packet/packet_data.go b/packet/packet_data.go
index c6dca77..9ccc302 100644
--- a/packet/packet_data.go
+++ b/packet/packet_data.go
@@ -61,6 +61,9 @@ func (pkt *RequestCancelPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *RequestCancelPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 10 {
+		return 0, ErrIllegalPacket
+	}
 	if len(data) < int(pkt.PacketLen) {
 		return 0, ErrIncompletePacket
 	}
@@ -72,7 +75,7 @@ func (pkt *RequestCancelPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *RequestCancelPacket) DecodeFromReader(reader io.Reader) error {
-	if pkt.PacketLen < 8 {
+	if pkt.PacketLen < 10 {
 		return ErrIllegalPacket
 	}
 	data := make([]byte, pkt.PacketLen)
@@ -83,7 +86,7 @@ func (pkt *RequestCancelPacket) DecodeFromReader(reader io.Reader) error {
 	// session id
 	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
 	// cancel type
-	pkt.cancelType = RequestCancelType(binary.BigEndian.Uint16(data[8:pkt.PacketLen]))
+	pkt.cancelType = RequestCancelType(binary.BigEndian.Uint16(data[8:10]))
 	return nil
 }
 
@@ -139,6 +142,9 @@ func (pkt *MessagePacket) Encode() ([]byte, error) {
 }
 
 func (pkt *MessagePacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	if len(data) < int(pkt.PacketLen) {
 		return 0, ErrIncompletePacket
 	}
@@ -214,6 +220,9 @@ func (pkt *MessageAckPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *MessageAckPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	if len(data) < int(pkt.PacketLen) {
 		return 0, ErrIncompletePacket
 	}
@@ -288,6 +297,9 @@ func (pkt *StreamPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *StreamPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -358,6 +370,9 @@ func (pkt *RegisterPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *RegisterPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -427,6 +442,9 @@ func (pkt *RegisterAckPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *RegisterAckPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
diff --git a/packet/packet_sess.go b/packet/packet_sess.go
index 7695a85..6fe08f1 100644
--- a/packet/packet_sess.go
+++ b/packet/packet_sess.go
@@ -87,6 +87,9 @@ func (pkt *SessionPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *SessionPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 10 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -107,6 +110,9 @@ func (pkt *SessionPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *SessionPacket) DecodeFromReader(reader io.Reader) error {
+	if pkt.PacketLen < 10 {
+		return ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
@@ -177,6 +183,9 @@ func (pkt *SessionAckPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *SessionAckPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 18 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -195,6 +204,9 @@ func (pkt *SessionAckPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *SessionAckPacket) DecodeFromReader(reader io.Reader) error {
+	if pkt.PacketLen < 18 {
+		return ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
@@ -252,6 +264,9 @@ func (pkt *DismissPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *DismissPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -270,6 +285,9 @@ func (pkt *DismissPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *DismissPacket) DecodeFromReader(reader io.Reader) error {
+	if pkt.PacketLen < 8 {
+		return ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
@@ -327,6 +345,9 @@ func (pkt *DismissAckPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *DismissAckPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -344,6 +365,9 @@ func (pkt *DismissAckPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *DismissAckPacket) DecodeFromReader(reader io.Reader) error {
+	if pkt.PacketLen < 8 {
+		return ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
-- 
2.43.0


From 171beff0ffbb4fbf357895385aabfeab58ef6cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 08/44] fix: don't take the payload of a payload-less packet
 for the next packet

---
 packet/packet_conn.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/packet/packet_conn.go b/packet/packet_conn.go
index b5ebe64..aa33f68 100644
--- a/packet/packet_conn.go
+++ b/packet/packet_conn.go
@@ -248,10 +248,16 @@ func (disConnPkt *DisConnPacket) Encode() ([]byte, error) {
 }
 
 func (disConnPkt *DisConnPacket) Decode(data []byte) (uint32, error) {
+	if disConnPkt.PacketLen != 0 {
+		return 0, ErrIllegalPacket
+	}
 	return 0, nil
 }
 
 func (disConnPkt *DisConnPacket) DecodeFromReader(reader io.Reader) error {
+	if disConnPkt.PacketLen != 0 {
+		return ErrIllegalPacket
+	}
 	return nil
 }
 
@@ -334,10 +340,16 @@ func (hbPkt *HeartbeatPacket) Encode() ([]byte, error) {
 }
 
 func (hbPkt *HeartbeatPacket) Decode(data []byte) (uint32, error) {
+	if hbPkt.PacketLen != 0 {
+		return 0, ErrIllegalPacket
+	}
 	return 0, nil
 }
 
 func (hbPkt *HeartbeatPacket) DecodeFromReader(reader io.Reader) error {
+	if hbPkt.PacketLen != 0 {
+		return ErrIllegalPacket
+	}
 	return nil
 }
 
@@ -350,9 +362,15 @@ func (hbAckPkt *HeartbeatAckPacket) Encode() ([]byte, error) {
 }
 
 func (hbAckPkt *HeartbeatAckPacket) Decode(data []byte) (uint32, error) {
+	if hbAckPkt.PacketLen != 0 {
+		return 0, ErrIllegalPacket
+	}
 	return 0, nil
 }
 
 func (hbAckPkt *HeartbeatAckPacket) DecodeFromReader(reader io.Reader) error {
+	if hbAckPkt.PacketLen != 0 {
+		return ErrIllegalPacket
+	}
 	return nil
 }
-- 
2.43.0


From be8f4eeb175f2fa619d0c48fa63354eae2d5db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 09/44] fix: don't clear the resources of a layer while other
 goroutines still use them

---
 application/end.go          | 1 -
 application/stream.go       | 3 ---
 conn/conn_client.go         | 7 -------
 conn/conn_server.go         | 8 --------
 multiplexer/dialogue.go     | 4 ----
 multiplexer/dialogue_mgr.go | 2 --
 6 files changed, 25 deletions(-)

diff --git a/application/end.go b/application/end.go
index e33df6a..fc2e94f 100644
--- a/application/end.go
+++ b/application/end.go
@@ -247,7 +247,6 @@ func (end *End) fini() {
 	if end.tmrOwner == end {
 		end.tmr.Close()
 	}
-	end.tmr = nil
 	end.log.Debugf("end finished, clientID: %d", end.cn.ClientID())
 }
 
diff --git a/application/stream.go b/application/stream.go
index fe8d4f2..31d3b13 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -568,9 +568,7 @@ func (sm *stream) fini() {
 	for pkt := range sm.writeInCh {
 		sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
 	}
-	sm.writeInCh = nil
 	sm.shub.Close()
-	sm.shub = nil
 
 	// the outside should care about message and stream channel status
 	close(sm.messageCh)
@@ -580,7 +578,6 @@ func (sm *stream) fini() {
 	if sm.tmrOwner == sm {
 		sm.tmr.Close()
 	}
-	sm.tmr = nil
 
 	if sm.dg.DialogueID() == 1 {
 		// the master stream
diff --git a/conn/conn_client.go b/conn/conn_client.go
index f5f74e3..2b30860 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -378,7 +378,6 @@ func (cc *ClientConn) Close() {
 		}
 		if cc.hbTick != nil {
 			cc.hbTick.Cancel()
-			cc.hbTick = nil
 		}
 
 		cc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
@@ -398,11 +397,9 @@ func (cc *ClientConn) fini() {
 		cc.clientID, remote, string(cc.meta))
 	if cc.hbTick != nil {
 		cc.hbTick.Cancel()
-		cc.hbTick = nil
 	}
 	// collect shub
 	cc.shub.Close()
-	cc.shub = nil
 	// collect net.Conn
 	cc.netconn.Close()
 	cc.connMtx.Lock()
@@ -427,13 +424,9 @@ func (cc *ClientConn) fini() {
 	if !cc.tmrOutside {
 		cc.tmr.Close()
 	}
-	cc.tmr = nil
 	// collect fsm
 	cc.fsm.EmitEvent(ET_FINI)
 	cc.fsm.Close()
-	cc.fsm = nil
-	// collect channels
-	cc.readInCh, cc.writeInCh, cc.writeOutCh = nil, nil, nil
 
 	cc.log.Debugf("client finished, clientID: %d, remote: %s, meta: %s",
 		cc.clientID, remote, string(cc.meta))
diff --git a/conn/conn_server.go b/conn/conn_server.go
index c1b9474..9406ebc 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -426,12 +426,10 @@ func (sc *ServerConn) fini() {
 	// cancel the heartbeat
 	if sc.hbTick != nil {
 		sc.hbTick.Cancel()
-		sc.hbTick = nil
 	}
 
 	// collect shub
 	sc.shub.Close()
-	sc.shub = nil
 	// collect net.Conn
 	sc.netconn.Close()
 	// lock protect conn status and input resource
@@ -458,15 +456,9 @@ func (sc *ServerConn) fini() {
 	if !sc.tmrOutside {
 		sc.tmr.Close()
 	}
-	sc.tmr = nil
 	// collect fsm
 	sc.fsm.EmitEvent(ET_FINI)
 	sc.fsm.Close()
-	sc.fsm = nil
-	// collect id
-	sc.clientIDs = nil
-	// collect channels
-	sc.readInCh, sc.writeInCh, sc.writeOutCh = nil, nil, nil
 
 	sc.log.Debugf("client finished, clientID: %d, remote: %s, meta: %s",
 		sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 440ce0e..53b7f10 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -725,7 +725,6 @@ func (dg *dialogue) fini() {
 
 	// collect shub
 	dg.shub.Close()
-	dg.shub = nil
 
 	for pkt := range dg.writeInCh {
 		if dg.failedCh != nil && !packet.SessionLayer(pkt) {
@@ -736,14 +735,11 @@ func (dg *dialogue) fini() {
 	close(dg.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
 	close(dg.writeOutCh)
-	// collect channels
-	dg.writeInCh, dg.writeOutCh = nil, nil
 	// TODO we left the readInCh buffer at some edge cases which may cause peer msg timeout
 
 	// collect fsm
 	dg.fsm.EmitEvent(ET_FINI)
 	dg.fsm.Close()
-	dg.fsm = nil
 
 	dg.log.Debugf("dialogue finished, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 677ae3c..8bd8122 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -485,7 +485,6 @@ func (dm *dialogueMgr) fini() {
 
 	// collect id
 	dm.dialogueIDs.Close()
-	dm.dialogueIDs = nil
 	// collect channels
 	if !dm.dialogueAcceptChOutside && dm.dialogueAcceptCh != nil {
 		close(dm.dialogueAcceptCh)
@@ -498,7 +497,6 @@ func (dm *dialogueMgr) fini() {
 	if dm.tmrOwner == dm {
 		dm.tmr.Close()
 	}
-	dm.tmr = nil
 
 	dm.log.Debugf("dialogue manager finished, clientID: %d", dm.cn.ClientID())
 }
-- 
2.43.0


From 202d8a32d1dd4950a85cee4d11c5cbea5a62e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 10/44] fix: release everyone blocked on a connection when it
 finishes

readPkt, Write, Close and the heartbeat blocked forever on the in channels of
a conn whose handlePkt had quit, which then blocked fini on the conn lock, and
handlePkt blocked on writeOutCh after a write error. A disconn packet was
answered through writeInCh by the very goroutine consuming it, a connection
lost while connecting made connect send on a closed channel.
---
 conn/conn_base.go   | 30 ++++++++++++++++++++++--------
 conn/conn_client.go | 19 ++++++++++++++++---
 conn/conn_server.go |  8 +++++++-
 3 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 8f4ff4e..bfaf0ee 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -74,6 +74,10 @@ type baseConn struct {
 
 	connOK  bool
 	connMtx sync.RWMutex
+
+	// closed when the conn starts to finish, releases whoever is blocked on
+	// readInCh or writeInCh
+	doneCh chan struct{}
 }
 
 func (bc *baseConn) Read() (packet.Packet, error) {
@@ -95,8 +99,12 @@ func (bc *baseConn) Write(pkt packet.Packet) error {
 	if !bc.connOK {
 		return io.EOF
 	}
-	bc.writeInCh <- pkt
-	return nil
+	select {
+	case bc.writeInCh <- pkt:
+		return nil
+	case <-bc.doneCh:
+		return io.EOF
+	}
 }
 
 // common read/write/handle
@@ -116,8 +124,9 @@ func (bc *baseConn) writePkt() {
 			record := !packet.ConnLayer(pkt)
 			err = bc.dowritePkt(pkt, record)
 			if err != nil {
-				// write to net Conn error, we should close the layer
-				return
+				// write to net Conn error, we should close the layer, and keep
+				// draining in case of handlePkt being blocked on writeOutCh
+				bc.netconn.Close()
 			}
 		}
 	}
@@ -152,7 +161,11 @@ func (bc *baseConn) readPkt() {
 		}
 		bc.log.Tracef("read %s , clientID: %d, packetID: %d, packetType: %s",
 			pkt.Type().String(), bc.clientID, pkt.ID(), pkt.Type().String())
-		readInCh <- pkt
+		select {
+		case readInCh <- pkt:
+		case <-bc.doneCh:
+			goto FINI
+		}
 	}
 FINI:
 	close(readInCh)
@@ -169,11 +182,12 @@ func (bc *baseConn) handleInDisConnPacket(pkt *packet.DisConnPacket) iodefine.IO
 			err, bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
 		return iodefine.IOErr
 	}
+	// this is the goroutine who consumes writeInCh, don't block on it
 	retPkt := bc.pf.NewDisConnAckPacket(pkt.PacketID, nil)
-	bc.writeInCh <- retPkt
+	ret := bc.handleOutDisConnAckPacket(retPkt)
 	// send our side close while receiving close packet
-	bc.Close()
-	return iodefine.IOSuccess
+	go bc.Close()
+	return ret
 }
 
 func (bc *baseConn) handleInDisConnAckPacket(pkt *packet.DisConnAckPacket) iodefine.IORet {
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 2b30860..02a26cc 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -130,6 +130,7 @@ func newClientConn(netconn net.Conn, opts ...ClientConnOption) (*ClientConn, err
 	cc.writeOutCh = make(chan packet.Packet, cc.writeOutSize)
 	cc.readOutCh = make(chan packet.Packet, cc.readOutSize)
 	cc.writeInCh = make(chan packet.Packet, cc.writeInSize)
+	cc.doneCh = make(chan struct{})
 	// timer
 	if !cc.tmrOutside {
 		cc.tmr = timer.NewTimer()
@@ -201,7 +202,11 @@ func (cc *ClientConn) connect() error {
 	pkt := cc.pf.NewConnPacket(cc.clientID, true, cc.heartbeat, cc.meta)
 	// sync must be set before the packet is sent down, in case of the ack coming first
 	sync := cc.shub.New(pkt.PacketID, synchub.WithTimeout(10*time.Second))
-	cc.writeInCh <- pkt
+	// the conn may have been finished already, Write cares about it
+	err := cc.Write(pkt)
+	if err != nil {
+		cc.shub.Error(pkt.PacketID, err)
+	}
 	event := <-sync.C()
 
 	if event.Error != nil {
@@ -365,7 +370,10 @@ func (cc *ClientConn) sendHeartbeat(event *timer.Event) {
 		return
 	}
 	pkt := cc.pf.NewHeartbeatPacket()
-	cc.writeInCh <- pkt
+	select {
+	case cc.writeInCh <- pkt:
+	case <-cc.doneCh:
+	}
 	cc.connMtx.RUnlock()
 }
 
@@ -384,7 +392,10 @@ func (cc *ClientConn) Close() {
 			cc.clientID, cc.netconn.RemoteAddr(), string(cc.meta))
 
 		pkt := cc.pf.NewDisConnPacket()
-		cc.writeInCh <- pkt
+		select {
+		case cc.writeInCh <- pkt:
+		case <-cc.doneCh:
+		}
 	})
 }
 
@@ -398,6 +409,8 @@ func (cc *ClientConn) fini() {
 	if cc.hbTick != nil {
 		cc.hbTick.Cancel()
 	}
+	// release readPkt and all writers
+	close(cc.doneCh)
 	// collect shub
 	cc.shub.Close()
 	// collect net.Conn
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 9406ebc..f6a75ee 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -109,6 +109,7 @@ func NewServerConn(netconn net.Conn, opts ...ServerConnOption) (*ServerConn, err
 	sc.writeOutCh = make(chan packet.Packet, sc.writeOutSize)
 	sc.readOutCh = make(chan packet.Packet, sc.readOutSize)
 	sc.writeInCh = make(chan packet.Packet, sc.writeInSize)
+	sc.doneCh = make(chan struct{})
 	// timer
 	if !sc.tmrOutside {
 		sc.tmr = timer.NewTimer()
@@ -407,7 +408,10 @@ func (sc *ServerConn) Close() {
 			sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
 
 		pkt := sc.pf.NewDisConnPacket()
-		sc.writeInCh <- pkt
+		select {
+		case sc.writeInCh <- pkt:
+		case <-sc.doneCh:
+		}
 	})
 }
 
@@ -428,6 +432,8 @@ func (sc *ServerConn) fini() {
 		sc.hbTick.Cancel()
 	}
 
+	// release readPkt and all writers
+	close(sc.doneCh)
 	// collect shub
 	sc.shub.Close()
 	// collect net.Conn
-- 
2.43.0


From 1f5d7952e847f17280bffe2770138440ba5bd3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 11/44] fix: finish closing a connection whose peer never
 answers

Close waits for the close handshake without any limit, so a connection to a
dead peer (that's what the heartbeat timeout closes) was never finished nor
reported offline unless the network told.
---
 conn/conn_base.go   | 22 ++++++++++++++++++++++
 conn/conn_client.go |  8 +++++++-
 conn/conn_server.go |  8 +++++++-
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index bfaf0ee..7632664 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"net"
 	"sync"
+	"time"
 
 	"github.com/jumboframes/armorigo/log"
 	"github.com/jumboframes/armorigo/synchub"
@@ -35,6 +36,9 @@ const (
 	ET_FINI      = "fini"
 )
 
+// how long to wait for the peer to finish the close handshake
+const closeTimeout = 10 * time.Second
+
 type connOpts struct {
 	clientID uint64
 	// timer
@@ -78,6 +82,10 @@ type baseConn struct {
 	// closed when the conn starts to finish, releases whoever is blocked on
 	// readInCh or writeInCh
 	doneCh chan struct{}
+
+	// in case of a peer never finishing the close handshake
+	closeTimer *time.Timer
+	forceCh    chan struct{}
 }
 
 func (bc *baseConn) Read() (packet.Packet, error) {
@@ -247,6 +255,20 @@ func (bc *baseConn) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
 	return iodefine.IOSuccess
 }
 
+func (bc *baseConn) startCloseTimer() {
+	bc.closeTimer = time.AfterFunc(closeTimeout, func() {
+		bc.log.Debugf("conn close handshake timeout, clientID: %d", bc.clientID)
+		close(bc.forceCh)
+		bc.netconn.Close()
+	})
+}
+
+func (bc *baseConn) stopCloseTimer() {
+	if bc.closeTimer != nil {
+		bc.closeTimer.Stop()
+	}
+}
+
 // meta related functions
 func (bc *baseConn) LocalAddr() net.Addr {
 	return bc.netconn.LocalAddr()
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 02a26cc..e4a8e4e 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -131,6 +131,7 @@ func newClientConn(netconn net.Conn, opts ...ClientConnOption) (*ClientConn, err
 	cc.readOutCh = make(chan packet.Packet, cc.readOutSize)
 	cc.writeInCh = make(chan packet.Packet, cc.writeInSize)
 	cc.doneCh = make(chan struct{})
+	cc.forceCh = make(chan struct{})
 	// timer
 	if !cc.tmrOutside {
 		cc.tmr = timer.NewTimer()
@@ -335,7 +336,10 @@ func (cc *ClientConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 			cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta))
 		return iodefine.IODiscard
 	}
-	cc.readOutCh <- pkt
+	select {
+	case cc.readOutCh <- pkt:
+	case <-cc.forceCh:
+	}
 	return iodefine.IOSuccess
 }
 
@@ -391,6 +395,7 @@ func (cc *ClientConn) Close() {
 		cc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
 			cc.clientID, cc.netconn.RemoteAddr(), string(cc.meta))
 
+		cc.startCloseTimer()
 		pkt := cc.pf.NewDisConnPacket()
 		select {
 		case cc.writeInCh <- pkt:
@@ -418,6 +423,7 @@ func (cc *ClientConn) fini() {
 	cc.connMtx.Lock()
 	cc.connOK = false
 	close(cc.writeInCh)
+	cc.stopCloseTimer()
 	cc.connMtx.Unlock()
 	for pkt := range cc.writeInCh {
 		if cc.failedCh != nil && !packet.ConnLayer(pkt) {
diff --git a/conn/conn_server.go b/conn/conn_server.go
index f6a75ee..eb52bbb 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -110,6 +110,7 @@ func NewServerConn(netconn net.Conn, opts ...ServerConnOption) (*ServerConn, err
 	sc.readOutCh = make(chan packet.Packet, sc.readOutSize)
 	sc.writeInCh = make(chan packet.Packet, sc.writeInSize)
 	sc.doneCh = make(chan struct{})
+	sc.forceCh = make(chan struct{})
 	// timer
 	if !sc.tmrOutside {
 		sc.tmr = timer.NewTimer()
@@ -366,7 +367,10 @@ func (sc *ServerConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
-	sc.readOutCh <- pkt
+	select {
+	case sc.readOutCh <- pkt:
+	case <-sc.forceCh:
+	}
 	return iodefine.IOSuccess
 }
 
@@ -407,6 +411,7 @@ func (sc *ServerConn) Close() {
 		sc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
 			sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
 
+		sc.startCloseTimer()
 		pkt := sc.pf.NewDisConnPacket()
 		select {
 		case sc.writeInCh <- pkt:
@@ -442,6 +447,7 @@ func (sc *ServerConn) fini() {
 	sc.connMtx.Lock()
 	sc.connOK = false
 	close(sc.writeInCh)
+	sc.stopCloseTimer()
 	sc.connMtx.Unlock()
 	// writeInCh must be cared since buffer might still has data
 	for pkt := range sc.writeInCh {
-- 
2.43.0


From 2c285c7e6cc5db245d74d1f0fed546af5454f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 12/44] fix: queue the conn ack before letting the server use
 the connection

A packet written right after NewServerConn returned could be sent ahead of the
conn ack, the client drops data before it.
---
 conn/conn_server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conn/conn_server.go b/conn/conn_server.go
index eb52bbb..0cfe3b7 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -325,14 +325,15 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 			return iodefine.IOSuccess
 		}
 	}
-	// the first packet received.
-	sc.shub.Ack(sc.getSyncID(), nil)
+	// the conn ack must be ahead of whatever is written after wait returns
 	retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, nil)
 	sc.writeInCh <- retPkt
 
 	// set the heartbeat
 	sc.heartbeat = pkt.Heartbeat
 	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))
+	// the first packet received.
+	sc.shub.Ack(sc.getSyncID(), nil)
 	return iodefine.IOSuccess
 }
 
-- 
2.43.0


From a73dcb097a384c98d8321e91209e61775c4aec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 13/44] fix: pair the online and offline notifications of a
 connection

A client conn reported offline without ever having been connected when the
caller had chosen its client ID, a server conn whose online was notified but
whose ack wasn't sent yet was never reported offline.
---
 conn/conn_client.go | 5 +++--
 conn/conn_server.go | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index e4a8e4e..6889774 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -252,7 +252,8 @@ func (cc *ClientConn) handlePkt() {
 	}
 FINI:
 	cc.log.Debugf("handle pkt done, clientID: %d", cc.clientID)
-	if cc.dlgt != nil && cc.clientID != 0 {
+	// only onlined Conn need to be notified
+	if cc.dlgt != nil && cc.onlined {
 		// not that delegate is different from server's delegate
 		cc.dlgt.ConnOffline(cc)
 	}
@@ -311,8 +312,8 @@ func (cc *ClientConn) handleInConnAckPacket(pkt *packet.ConnAckPacket) iodefine.
 		cc.writeInCh <- retPkt
 		return iodefine.IOSuccess
 	}
-	cc.shub.Done(pkt.PacketID)
 	cc.onlined = true
+	cc.shub.Done(pkt.PacketID)
 	return iodefine.IOSuccess
 }
 
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 0cfe3b7..a80b8d5 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -325,6 +325,8 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 			return iodefine.IOSuccess
 		}
 	}
+	// notified online, so the offline must be notified too
+	sc.onlined = true
 	// the conn ack must be ahead of whatever is written after wait returns
 	retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, nil)
 	sc.writeInCh <- retPkt
-- 
2.43.0


From fc541f824f82139ac18b83c22562df9b37765274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 14/44] fix: notify the client's delegate that its connection
 is online

Only the retry end did, after the end was built and thus possibly after the
offline of the same connection; a plain client was only told the offline.
---
 client/end_retry.go | 3 ---
 conn/conn_client.go | 4 ++++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 87364a1..7647d99 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -77,9 +77,6 @@ func (re *RetryEnd) getEnd() (*clientEnd, error) {
 	if err != nil {
 		return nil, err
 	}
-	if re.opts.delegate != nil {
-		re.opts.delegate.ConnOnline(end)
-	}
 	return end.(*clientEnd), nil
 }
 
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 6889774..cbcf0a8 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -313,6 +313,10 @@ func (cc *ClientConn) handleInConnAckPacket(pkt *packet.ConnAckPacket) iodefine.
 		return iodefine.IOSuccess
 	}
 	cc.onlined = true
+	if cc.dlgt != nil {
+		// just a notification, the client isn't able to refuse
+		cc.dlgt.ConnOnline(cc)
+	}
 	cc.shub.Done(pkt.PacketID)
 	return iodefine.IOSuccess
 }
-- 
2.43.0


From 7bb9b683d706e5e10129e358a51fd7867a3aadf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 15/44] fix: don't allocate the announced length of a packet
 before its data arrives

14 bytes of garbage, an http request for example, were enough to allocate up
to 4GB.
---
 packet/decode.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/packet/decode.go b/packet/decode.go
index d917355..00652e0 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -1,10 +1,15 @@
 package packet
 
 import (
+	"bytes"
 	"errors"
 	"io"
 )
 
+// packets announcing more than this are buffered as they arrive, the announced
+// length isn't worth allocating for until the data is really there
+const largePacketLen = 1 << 20
+
 var (
 	ErrUnsupportedPacket = errors.New("unsupported packet")
 	ErrIncompletePacket  = errors.New("incomplete packet")
@@ -152,6 +157,14 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 		return nil, err
 	}
 	//log.Tracef("DecodeFromReader | incoming underlay %s", pktHdr.Typ.String())
+	if pktHdr.PacketLen > largePacketLen {
+		buf := &bytes.Buffer{}
+		_, err = io.CopyN(buf, reader, int64(pktHdr.PacketLen))
+		if err != nil {
+			return nil, err
+		}
+		reader = buf
+	}
 
 	switch pktHdr.Typ {
 	case TypeConnPacket:
-- 
2.43.0


From c066c2bce91ba7ba54177f9448040d7077ff2d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 16/44] fix: release everyone blocked on a dialogue when it
 finishes

The multiplexer closed readInCh while sending to it, closed it twice after a
failed open, and held its lock while blocked on it; handlePkt answered a
dismiss through the channel it consumes itself and blocked forever once
writePkt had quit; Close blocked on a full writeInCh without any limit. A
connection was blocked by the multiplexer having stopped reading it, and
GetDialogue read the dialogues without the lock.
---
 multiplexer/dialogue.go     | 124 +++++++++++++++++++++++++++---------
 multiplexer/dialogue_mgr.go |  13 +++-
 2 files changed, 103 insertions(+), 34 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 53b7f10..9b6f50b 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -73,8 +73,14 @@ type dialogue struct {
 	readOutSize, writeInSize int
 	failedCh                 chan packet.Packet
 
+	// closed when the dialogue should finish without being dismissed
+	closeIOCh chan struct{}
+	// closed when the dialogue starts to finish, releases whoever is blocked on
+	// readInCh or writeInCh
+	doneCh chan struct{}
+
 	closeOnce   *gsync.Once
-	closeIOOnce *gsync.Once
+	closeIOOnce *sync.Once
 }
 
 type DialogueOption func(*dialogue)
@@ -143,7 +149,9 @@ func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogu
 		cn:           cn,
 		fsm:          yafsm.NewFSM(yafsm.WithInSeq()),
 		closeOnce:    new(gsync.Once),
-		closeIOOnce:  new(gsync.Once),
+		closeIOOnce:  new(sync.Once),
+		closeIOCh:    make(chan struct{}),
+		doneCh:       make(chan struct{}),
 		dialogueOK:   true,
 		readInSize:   32,
 		writeOutSize: 32,
@@ -218,6 +226,8 @@ func (dg *dialogue) Write(pkt packet.Packet) error {
 			default:
 				return fmt.Errorf("%s, len: %d", io.ErrShortBuffer, len(dg.writeInCh))
 		*/
+	case <-dg.doneCh:
+		return io.EOF
 	}
 	return nil
 }
@@ -230,7 +240,11 @@ func (dg *dialogue) WriteWait(pkt packet.Packet) error {
 		return io.EOF
 	}
 	pkt.(packet.SessionAbove).SetSessionID(dg.dialogueID)
-	dg.writeInCh <- pkt
+	select {
+	case dg.writeInCh <- pkt:
+	case <-dg.doneCh:
+		return io.EOF
+	}
 	return nil
 }
 
@@ -308,18 +322,17 @@ func (dg *dialogue) open() error {
 		dg.mtx.RUnlock()
 		return io.EOF
 	}
-	dg.writeInCh <- pkt
+	select {
+	case dg.writeInCh <- pkt:
+	case <-dg.doneCh:
+	}
 	dg.mtx.RUnlock()
 
 	event := <-sync.C()
 	if event.Error != nil {
 		dg.log.Debugf("dialogue open err: %s, clientID: %d, dialogueID: %d",
 			event.Error, dg.cn.ClientID(), dg.dialogueID)
-		dg.mtx.Lock()
-		if dg.dialogueOK {
-			close(dg.readInCh)
-		}
-		dg.mtx.Unlock()
+		dg.closeIO()
 	}
 	return event.Error
 }
@@ -341,9 +354,9 @@ func (dg *dialogue) writePkt() {
 				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
 			err = dg.dowritePkt(pkt, true)
 			if err != nil {
+				// keep draining until fini, in case of handlePkt being blocked on writeOutCh
 				dg.log.Errorf("dialogue write down err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					err, dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
-				return
 			}
 		}
 	}
@@ -368,10 +381,7 @@ func (dg *dialogue) handlePkt() {
 
 	for {
 		select {
-		case pkt, ok := <-readInCh:
-			if !ok {
-				goto FINI
-			}
+		case pkt := <-readInCh:
 			dg.log.Tracef("dialogue read in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
 			ret := dg.handleIn(pkt)
@@ -399,6 +409,19 @@ func (dg *dialogue) handlePkt() {
 			case iodefine.IOErr:
 				goto FINI
 			}
+		case <-dg.closeIOCh:
+			// the packets having arrived before still count
+			for {
+				select {
+				case pkt := <-readInCh:
+					ret := dg.handleIn(pkt)
+					if ret == iodefine.IOClosed || ret == iodefine.IOErr {
+						goto FINI
+					}
+				default:
+					goto FINI
+				}
+			}
 		}
 	}
 FINI:
@@ -502,12 +525,13 @@ func (dg *dialogue) handleInDismissPacket(pkt *packet.DismissPacket) iodefine.IO
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
+	// this is the goroutine who consumes writeInCh, don't block on it
 	retPkt := dg.pf.NewDismissAckPacket(pkt.ID(),
 		pkt.SessionID(), nil)
-	dg.writeInCh <- retPkt
+	ret := dg.handleOutDismissAckPacket(retPkt)
 	// send out side dismiss while receiving dismiss packet
-	dg.Close()
-	return iodefine.IOSuccess
+	go dg.Close()
+	return ret
 }
 
 func (dg *dialogue) handleInDimssAckPacket(pkt *packet.DismissAckPacket) iodefine.IORet {
@@ -541,10 +565,33 @@ func (dg *dialogue) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
-	dg.readOutCh <- pkt
+	pushOrClosed(dg.readOutCh, pkt, dg.closeIOCh)
 	return iodefine.IOSuccess
 }
 
+// block until the packet is pushed, or until closed while the channel is full
+func pushOrClosed(ch chan<- packet.Packet, pkt packet.Packet, closed <-chan struct{}) bool {
+	select {
+	case ch <- pkt:
+		return true
+	default:
+	}
+	select {
+	case ch <- pkt:
+		return true
+	case <-closed:
+		return false
+	}
+}
+
+// input delivers a packet to the dialogue unless it's finished
+func (dg *dialogue) input(pkt packet.Packet) {
+	select {
+	case dg.readInCh <- pkt:
+	case <-dg.doneCh:
+	}
+}
+
 // output packet
 func (dg *dialogue) handleOutSessionPacket(pkt *packet.SessionPacket) iodefine.IORet {
 	err := dg.fsm.EmitEvent(ET_SESSIONSENT)
@@ -553,7 +600,7 @@ func (dg *dialogue) handleOutSessionPacket(pkt *packet.SessionPacket) iodefine.I
 			err, dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	pushOrClosed(dg.writeOutCh, pkt, dg.closeIOCh)
 	dg.log.Debugf("send dialogue down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 	return iodefine.IOSuccess
@@ -573,7 +620,7 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 					err, dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 				return iodefine.IOErr
 			}
-			dg.writeOutCh <- pkt
+			pushOrClosed(dg.writeOutCh, pkt, dg.closeIOCh)
 			// to tell peer the dialogue handshake is error, and peer should dismiss the dialogue.
 			// this situation shouldn't be seen as connected, so don't set onlined.
 			return iodefine.IOSuccess
@@ -585,7 +632,7 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	pushOrClosed(dg.writeOutCh, pkt, dg.closeIOCh)
 	dg.log.Debugf("dialogue write session ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 
@@ -600,7 +647,7 @@ func (dg *dialogue) handleOutDismissPacket(pkt *packet.DismissPacket) iodefine.I
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	pushOrClosed(dg.writeOutCh, pkt, dg.closeIOCh)
 	dg.log.Debugf("dialogue write dismiss down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	return iodefine.IOSuccess
@@ -617,7 +664,7 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 	// dg.dowritePkt(pkt, false) changes to dg.writeOutCh <- pkt
 	// because this packet should be after all upper layer packets
 	// at last the close(dg.writeOutCh) makes sure the flush
-	dg.writeOutCh <- pkt
+	pushOrClosed(dg.writeOutCh, pkt, dg.closeIOCh)
 	dg.log.Debugf("dialogue write dismiss ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	if dg.fsm.State() == DISMISS_HALF {
@@ -631,7 +678,7 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 }
 
 func (dg *dialogue) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
-	dg.writeOutCh <- pkt
+	pushOrClosed(dg.writeOutCh, pkt, dg.closeIOCh)
 	dg.log.Tracef("dialogue write data down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	return iodefine.IOSuccess
@@ -651,11 +698,9 @@ func (dg *dialogue) Close() {
 		dg.log.Debugf("dialogue async close, clientID: %d, dialogueID: %d",
 			dg.cn.ClientID(), dg.dialogueID)
 
-		dg.writeInCh <- pkt
-
 		go func() {
 			// we don't use shub WithCallback because the force close may arrive firse
-			event := <-dg.closewait.C()
+			event := dg.dismiss(pkt)
 			if event.Error != nil {
 				dg.log.Debugf("dialogue close wait err: %s, clientID: %d, peerDialogueID: %d, dialogueID: %d",
 					event.Error, dg.cn.ClientID(), dg.peerNegotiatingID, dg.dialogueID)
@@ -680,11 +725,9 @@ func (dg *dialogue) CloseWait() {
 		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
 		dg.log.Debugf("dialogue is closing, clientID: %d, dialogueID: %d",
 			dg.cn.ClientID(), dg.dialogueID)
-
-		dg.writeInCh <- pkt
 		dg.mtx.RUnlock()
 		// the sync shouldn't be locked
-		event := <-dg.closewait.C()
+		event := dg.dismiss(pkt)
 		if event.Error != nil {
 			dg.log.Debugf("dialogue close wait err: %s, clientID: %d, peerDialogueID: %d, dialogueID: %d",
 				event.Error, dg.cn.ClientID(), dg.peerNegotiatingID, dg.dialogueID)
@@ -700,9 +743,25 @@ func (dg *dialogue) CloseWait() {
 	})
 }
 
+// send the dismiss packet and wait for the end of the dismissing
+func (dg *dialogue) dismiss(pkt packet.Packet) *synchub.Event {
+	dg.mtx.RLock()
+	if dg.dialogueOK {
+		select {
+		case dg.writeInCh <- pkt:
+		case <-dg.doneCh:
+		case event := <-dg.closewait.C():
+			dg.mtx.RUnlock()
+			return event
+		}
+	}
+	dg.mtx.RUnlock()
+	return <-dg.closewait.C()
+}
+
 func (dg *dialogue) closeIO() {
 	dg.closeIOOnce.Do(func() {
-		close(dg.readInCh)
+		close(dg.closeIOCh)
 	})
 }
 
@@ -717,6 +776,9 @@ func (dg *dialogue) fini() {
 	dg.log.Debugf("dialogue finishing, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
 
+	// release all writers
+	close(dg.doneCh)
+
 	dg.mtx.Lock()
 	// TODO should we move dialogueOK=false to Close and CloseWait?
 	dg.dialogueOK = false
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 8bd8122..9024273 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -343,6 +343,8 @@ func (dm *dialogueMgr) GetDialogue(clientID, dialogueID uint64) (Dialogue, error
 	if dm.cn.ClientID() != clientID {
 		return nil, errors.New("unfound clientID")
 	}
+	dm.mtx.RLock()
+	defer dm.mtx.RUnlock()
 	dialogue, ok := dm.dialogues[dialogueID]
 	if !ok {
 		return nil, errors.New("unfound dialgoueID")
@@ -366,6 +368,9 @@ func (dm *dialogueMgr) readPkt() {
 FINI:
 	// if the dialogue manager got an error, all dialogue must be finished in time
 	dm.fini()
+	// the conn may still be alive, don't block it until it's closed
+	for range dm.cn.ChannelRead() {
+	}
 }
 
 func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
@@ -387,8 +392,8 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		}
 		dm.mtx.Lock()
 		dm.negotiatingDialogues[negotiatingID] = dg
-		dg.readInCh <- pkt
 		dm.mtx.Unlock()
+		dg.input(pkt)
 
 	case *packet.SessionAckPacket:
 		dm.mtx.RLock()
@@ -401,8 +406,9 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 			return
 		}
 		// TODO do we need handle the packet in time? before data or dismiss coming.
-		dg.readInCh <- pkt
+		// don't block others with the lock held
 		dm.mtx.RUnlock()
+		dg.input(pkt)
 
 	default:
 		dgPkt, ok := pkt.(packet.SessionAbove)
@@ -426,8 +432,9 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		}
 		dm.log.Tracef("read to dialogue, clientID: %d, dialogueID: %d, packetID: %d, packetType %s",
 			dm.cn.ClientID(), dialogueID, pkt.ID(), pkt.Type().String())
-		dg.readInCh <- pkt
+		// don't block others with the lock held
 		dm.mtx.RUnlock()
+		dg.input(pkt)
 	}
 }
 
-- 
2.43.0


From c52dfc686394f96ab4d67a099ff11baf4a03df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 17/44] fix: fail opening a stream the peer refused

The error in the session ack was ignored by the opener, and its meta was
overwritten by the ack's empty one; the refusing side kept the dialogue.
---
 multiplexer/dialogue.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 9b6f50b..d057b0d 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -1,6 +1,7 @@
 package multiplexer
 
 import (
+	"errors"
 	"io"
 	"sync"
 	"time"
@@ -502,8 +503,11 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 		dg.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
+	if pkt.SessionData.Error != "" {
+		dg.shub.Error(pkt.ID(), errors.New(pkt.SessionData.Error))
+		return iodefine.IOErr
+	}
 	dg.dialogueID = pkt.SessionID()
-	dg.meta = pkt.SessionData.Meta
 
 	// the packetID is assigned by SessionPacket, originally from function open,
 	// and open is waiting for the completion.
@@ -614,16 +618,10 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 		err = dg.dlgt.DialogueOnline(dg)
 		if err != nil {
 			pkt.SetError(err)
-			err = dg.fsm.EmitEvent(ET_ERROR)
-			if err != nil {
-				dg.log.Errorf("emit ET_ERROR err: %s, clientID: %d, dialogueID: %d, packetID: %d",
-					err, dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
-				return iodefine.IOErr
-			}
 			pushOrClosed(dg.writeOutCh, pkt, dg.closeIOCh)
-			// to tell peer the dialogue handshake is error, and peer should dismiss the dialogue.
+			// to tell peer the dialogue handshake is error, there is no dialogue at neither side.
 			// this situation shouldn't be seen as connected, so don't set onlined.
-			return iodefine.IOSuccess
+			return iodefine.IOErr
 		}
 	}
 	err = dg.fsm.EmitEvent(ET_SESSIONACK)
-- 
2.43.0


From 11dacefa79dc72ffa1950a91bd3b7dcd8ad85680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 18/44] fix: don't lose dialogues while they are being opened
 or finished

What arrived right after the session ack was dropped because the opener was
only registered by the goroutine waiting in OpenDialogue, which could also
bring a finished dialogue back to life and closed its channels twice. A
connection lost kept the offline notifications of the dialogues from being
sent, the opener's online wasn't notified at all. Notifying with the lock held
deadlocked with a full accept queue or a callback using the end.
---
 multiplexer/dialogue.go     |  17 ++++-
 multiplexer/dialogue_mgr.go | 135 ++++++++++++++++++++++--------------
 2 files changed, 96 insertions(+), 56 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index d057b0d..bc57f2d 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -51,6 +51,7 @@ type dialogue struct {
 	cn conn.Conn
 
 	onlined   bool
+	openedFn  func(*dialogue)
 	closewait synchub.Sync
 
 	// dialogue id
@@ -131,6 +132,13 @@ func OptionDialogueNegotiatingID(negotiatingID uint64, dialogueIDPeersCall bool)
 	}
 }
 
+// called while the dialogue opened by us is online
+func optionDialogueOpened(fn func(*dialogue)) DialogueOption {
+	return func(dg *dialogue) {
+		dg.openedFn = fn
+	}
+}
+
 func OptionDialogueBufferSize(read, write int) DialogueOption {
 	return func(dg *dialogue) {
 		if read > 0 {
@@ -508,6 +516,10 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 		return iodefine.IOErr
 	}
 	dg.dialogueID = pkt.SessionID()
+	dg.onlined = true
+	if dg.openedFn != nil {
+		dg.openedFn(dg)
+	}
 
 	// the packetID is assigned by SessionPacket, originally from function open,
 	// and open is waiting for the completion.
@@ -516,7 +528,6 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 		dg.log.Infof("read dialogue ack packet and no waiting sync, clientID: %d, dialogueID: %d, packetID: %d",
 			dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	}
-	dg.onlined = true
 	return iodefine.IONewActive
 }
 
@@ -624,6 +635,8 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 			return iodefine.IOErr
 		}
 	}
+	// notified online, so the offline must be notified too
+	dg.onlined = true
 	err = dg.fsm.EmitEvent(ET_SESSIONACK)
 	if err != nil {
 		dg.log.Debugf("emit ET_SESSIONACK err: %s, clientID: %d, dialogueID: %d, packetID: %d",
@@ -633,8 +646,6 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 	pushOrClosed(dg.writeOutCh, pkt, dg.closeIOCh)
 	dg.log.Debugf("dialogue write session ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
-
-	dg.onlined = true
 	return iodefine.IONewPassive
 }
 
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 9024273..2d8c913 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -51,7 +51,10 @@ type dialogueMgr struct {
 	cn conn.Conn
 
 	// close channel
-	closeCh chan struct{}
+	closeCh   chan struct{}
+	closeOnce sync.Once
+	// closed after finished, no more dialogue will be accepted or closed
+	finiCh chan struct{}
 
 	// dialogues
 	dialogueIDs     id.IDFactory // set nil in client
@@ -142,6 +145,7 @@ func NewDialogueMgr(cn conn.Conn, mpopts ...MultiplexerOption) (Multiplexer, err
 		dialogues:            make(map[uint64]*dialogue),
 		negotiatingDialogues: make(map[uint64]*dialogue),
 		closeCh:              make(chan struct{}),
+		finiCh:               make(chan struct{}),
 	}
 	// dialogue id counter
 	if dm.cn.Side() == geminio.RecipientSide {
@@ -190,12 +194,12 @@ ERR:
 	return nil, err
 }
 
+// called while a dialogue opened by the peer is online
 func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 	dm.log.Debugf("dialogue online, clientID: %d, add dialogueID: %d", dg.ClientID(), dg.DialogueID())
 	dm.mtx.Lock()
-	defer dm.mtx.Unlock()
-
 	if !dm.mgrOK {
+		dm.mtx.Unlock()
 		return ErrOperationOnClosedMultiplexer
 	}
 	// remove from the negotiating dialogues, and add to ready dialogues.
@@ -204,6 +208,9 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 		delete(dm.negotiatingDialogues, dg.NegotiatingID())
 	}
 	dm.dialogues[dg.DialogueID()] = dg.(*dialogue)
+	dm.mtx.Unlock()
+
+	// the outside must be notified without the lock
 	if dm.dlgt != nil {
 		dm.dlgt.DialogueOnline(dg)
 	}
@@ -212,40 +219,55 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 		dm.dialogueAcceptFn(dg.(Dialogue))
 
 	} else if dm.dialogueAcceptCh != nil {
-		// this must not be blocked, or else the whole system will stop
-		dm.dialogueAcceptCh <- dg.(*dialogue)
+		// only this dialogue is blocked until there is room for it
+		select {
+		case dm.dialogueAcceptCh <- dg.(*dialogue):
+		case <-dm.finiCh:
+		}
 	}
 	return nil
 }
 
+// called while a dialogue opened by us is online
+func (dm *dialogueMgr) dialogueOpened(dg *dialogue) {
+	if dm.dlgt != nil {
+		dm.dlgt.DialogueOnline(dg)
+	}
+}
+
 func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 	clientID := dg.ClientID()
 	dialogueID := dg.DialogueID()
 
 	dm.log.Debugf("dialogue offline, clientID: %d, del dialogueID: %d", clientID, dialogueID)
 	dm.mtx.Lock()
-	defer dm.mtx.Unlock()
-
 	_, ok := dm.dialogues[dialogueID]
 	if ok {
 		delete(dm.dialogues, dialogueID)
-		if dm.dlgt != nil {
-			dm.dlgt.DialogueOffline(dg)
-		}
-	} else {
+	}
+	dm.mtx.Unlock()
+
+	if !ok {
 		dm.log.Warnf("dialogue offline, cliengID: %d, dialogueID: %d not found", clientID, dialogueID)
+		// unsucceed dialogue
+		return ErrDialogueNotFound
+	}
+	// the outside must be notified without the lock
+	if dm.dlgt != nil {
+		dm.dlgt.DialogueOffline(dg)
 	}
 	// notify outside that a dialogue is closed
 	if dm.dialogueClosedFn != nil {
 		dm.dialogueClosedFn(dg.(*dialogue))
 
 	} else if dm.dialogueClosedCh != nil {
-		// this must not be blocked, or else the whole system will stop
-		dm.dialogueClosedCh <- dg.(*dialogue)
-
+		// this must not be blocked, or else the dialogue will never finish
+		select {
+		case dm.dialogueClosedCh <- dg.(*dialogue):
+		case <-dm.finiCh:
+		}
 	}
-	// unsucceed dialogue
-	return ErrDialogueNotFound
+	return nil
 }
 
 func (dm *dialogueMgr) getID() uint64 {
@@ -272,35 +294,37 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		OptionDialogueLogger(dm.log),
 		OptionDialoguePacketFactory(dm.pf),
 		OptionDialogueMeta(meta),
-		OptionDialoguePeer(peer))
+		OptionDialoguePeer(peer),
+		optionDialogueOpened(dm.dialogueOpened))
 	if err != nil {
 		dm.log.Errorf("new dialogue err: %s, clientID: %d", err, dm.cn.ClientID())
 		return nil, err
 	}
 	dm.mtx.Lock()
+	if !dm.mgrOK {
+		dm.mtx.Unlock()
+		dg.closeIO()
+		return nil, ErrOperationOnClosedMultiplexer
+	}
 	dm.negotiatingDialogues[negotiatingID] = dg
 	dm.mtx.Unlock()
 	// Open take times, shouldn't be locked
 	err = dg.open()
 	if err != nil {
 		dm.log.Errorf("dialogue open err: %s, clientID: %d, negotiatingID: %d", err, dm.cn.ClientID(), dg.negotiatingID)
+		// the session ack may still be arriving, forget the dialogue after it's finished
+		<-dg.doneCh
 		dm.mtx.Lock()
 		delete(dm.negotiatingDialogues, negotiatingID)
+		for id, cur := range dm.dialogues {
+			if cur == dg {
+				delete(dm.dialogues, id)
+			}
+		}
 		dm.mtx.Unlock()
 		return nil, err
 	}
-	dm.mtx.Lock()
-	delete(dm.negotiatingDialogues, negotiatingID)
-	if !dm.mgrOK {
-		// delete(dm.dialogues, dg.dialogueID)
-		// !mgrOK only happens after dialogueMgr fini, so fini the dialogue
-		dm.mtx.Unlock()
-		dg.fini()
-		return nil, ErrOperationOnClosedMultiplexer
-	}
-	// the logic on negotiatingDialogues is tricky, be care of it.
-	dm.dialogues[dg.dialogueID] = dg
-	dm.mtx.Unlock()
+	// the dialogue was moved to ready dialogues while the session ack was read
 	return dg, nil
 }
 
@@ -309,11 +333,7 @@ func (dm *dialogueMgr) AcceptDialogue() (Dialogue, error) {
 	if dm.dialogueAcceptCh == nil {
 		return nil, ErrAcceptChNotEnabled
 	}
-	dg, ok := <-dm.dialogueAcceptCh
-	if !ok {
-		return nil, io.EOF
-	}
-	return dg, nil
+	return popDialogue(dm.dialogueAcceptCh, dm.finiCh)
 }
 
 // ClosedDialogue blocks until success or end
@@ -321,11 +341,22 @@ func (dm *dialogueMgr) ClosedDialogue() (Dialogue, error) {
 	if dm.dialogueClosedCh == nil {
 		return nil, ErrClosedChNotEnabled
 	}
-	dg, ok := <-dm.dialogueClosedCh
-	if !ok {
+	return popDialogue(dm.dialogueClosedCh, dm.finiCh)
+}
+
+// the dialogues having been queued before the end are still popped
+func popDialogue(ch <-chan *dialogue, finiCh <-chan struct{}) (Dialogue, error) {
+	select {
+	case dg := <-ch:
+		return dg, nil
+	default:
+	}
+	select {
+	case dg := <-ch:
+		return dg, nil
+	case <-finiCh:
 		return nil, io.EOF
 	}
-	return dg, nil
 }
 
 func (dm *dialogueMgr) ListDialogues() []Dialogue {
@@ -396,18 +427,22 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		dg.input(pkt)
 
 	case *packet.SessionAckPacket:
-		dm.mtx.RLock()
+		dm.mtx.Lock()
 		dg, ok := dm.negotiatingDialogues[realPkt.NegotiateID()]
 		if !ok {
 			// TODO we must warn the dialogue initiator
 			dm.log.Errorf("clientID: %d, unable to find negotiatingID: %d",
 				dm.cn.ClientID(), realPkt.NegotiateID())
-			dm.mtx.RUnlock()
+			dm.mtx.Unlock()
 			return
 		}
-		// TODO do we need handle the packet in time? before data or dismiss coming.
+		// the dialogue must be ready before data or dismiss coming.
+		delete(dm.negotiatingDialogues, realPkt.NegotiateID())
+		if realPkt.SessionData.Error == "" {
+			dm.dialogues[realPkt.SessionID()] = dg
+		}
 		// don't block others with the lock held
-		dm.mtx.RUnlock()
+		dm.mtx.Unlock()
 		dg.input(pkt)
 
 	default:
@@ -465,7 +500,7 @@ func (dm *dialogueMgr) Close() {
 	dm.mtx.RUnlock()
 
 	wg.Wait()
-	close(dm.closeCh)
+	dm.closeOnce.Do(func() { close(dm.closeCh) })
 	dm.log.Debugf("dialogue manager closed, clientID: %d", dm.cn.ClientID())
 	return
 }
@@ -478,12 +513,12 @@ func (dm *dialogueMgr) fini() {
 
 	// collect conn status
 	dm.mgrOK = false
-	// collect all dialogues
-	for id, dg := range dm.dialogues {
+	// collect all dialogues, an onlined one leaves while it's offline
+	for _, dg := range dm.dialogues {
 		// cause the dialogue io err
 		dg.closeIO()
-		delete(dm.dialogues, id)
 	}
+	delete(dm.dialogues, packet.SessionID1)
 	for id, dg := range dm.negotiatingDialogues {
 		// cause the dialogue io err
 		dg.closeIO()
@@ -492,14 +527,8 @@ func (dm *dialogueMgr) fini() {
 
 	// collect id
 	dm.dialogueIDs.Close()
-	// collect channels
-	if !dm.dialogueAcceptChOutside && dm.dialogueAcceptCh != nil {
-		close(dm.dialogueAcceptCh)
-	}
-	if !dm.dialogueClosedChOutside && dm.dialogueClosedCh != nil {
-		close(dm.dialogueClosedCh)
-	}
-	// dm.dialogueAcceptCh, dm.dialogueClosedCh = nil, nil
+	// release who is waiting for accepted or closed dialogues
+	close(dm.finiCh)
 	// collect timer
 	if dm.tmrOwner == dm {
 		dm.tmr.Close()
-- 
2.43.0


From b5fbb34f7119d62d2db030c41eae5dd0b0ae85b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 19/44] fix: finish a stream only after everyone feeding its
 channels stopped

The writing side of a stream finished the stream as soon as a write failed,
while the reading side could still push messages into the channels being
closed, which panics. And a reading side with no room for another message
never noticed that the dialogue was gone, so everything waiting on the stream
was blocked forever.
---
 application/stream.go   | 23 +++++++++++++++++++----
 multiplexer/dialogue.go |  5 +++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index 31d3b13..338385e 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -85,6 +85,8 @@ type stream struct {
 
 	// io
 	writeInCh chan packet.Packet // for multiple message types
+	// closed while the dialogue is finished
+	finished <-chan struct{}
 }
 
 func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *stream {
@@ -109,6 +111,9 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		dlWriteChList:     list.New(),
 		writeInCh:         make(chan packet.Packet, 32),
 	}
+	if dg, ok := dg.(interface{ Done() <-chan struct{} }); ok {
+		sm.finished = dg.Done()
+	}
 	go sm.handlePkt()
 	go sm.readPkt()
 	return sm
@@ -150,7 +155,6 @@ func (sm *stream) handlePkt() {
 		select {
 		case pkt, ok := <-writeInCh:
 			if !ok {
-				// BUG! shoud never be here.
 				goto FINI
 			}
 			sm.log.Tracef("stream write in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
@@ -162,12 +166,15 @@ func (sm *stream) handlePkt() {
 			case iodefine.IODiscard:
 				sm.shub.Error(pkt.ID(), io.ErrShortBuffer)
 			case iodefine.IOErr:
-				goto FINI
+				// the dialogue is finished and the reading side is about to fini,
+				// until then nobody should be blocked by writing
+				sm.shub.Error(pkt.ID(), io.EOF)
 			}
 		}
 	}
 FINI:
-	sm.finiOnce.Do(sm.fini)
+	sm.log.Debugf("stream handle pkt done, clientID: %d, dialogueID: %d",
+		sm.cn.ClientID(), sm.dg.DialogueID())
 }
 
 func (sm *stream) readPkt() {
@@ -188,11 +195,12 @@ func (sm *stream) readPkt() {
 				sm.log.Infof("stream read in packet but buffer full and discard, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 			case iodefine.IOErr:
-				goto FINI
+				sm.dg.Close()
 			}
 		}
 	}
 FINI:
+	// only readPkt leads to this fini, since it's the only one who feeds the channels fini closes
 	sm.finiOnce.Do(sm.fini)
 }
 
@@ -243,6 +251,13 @@ func (sm *stream) handleInMessagePacket(pkt *packet.MessagePacket) iodefine.IORe
 	// we don't want block here, and also we don't want discard immediately.
 	select {
 	case sm.messageCh <- pkt:
+		return iodefine.IOSuccess
+	default:
+	}
+	select {
+	case sm.messageCh <- pkt:
+	case <-sm.finished:
+		// nobody is receiving and the dialogue has gone
 		/*
 			// TODO optimize it
 				default:
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index bc57f2d..9209d2d 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -269,6 +269,11 @@ func (dg *dialogue) ReadC() <-chan packet.Packet {
 	return dg.readOutCh
 }
 
+// Done is closed while the dialogue is finished
+func (dg *dialogue) Done() <-chan struct{} {
+	return dg.doneCh
+}
+
 func (dg *dialogue) initFSM() {
 	init := dg.fsm.AddState(INIT)
 	sessionsent := dg.fsm.AddState(SESSION_SENT)
-- 
2.43.0


From b0e058094816b2c282ab18cc0faa6c87bc579937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 20/44] fix: report each closed stream exactly once

A stream whose dialogue closed before the end stored it was kept by the end
forever, and its closed callback was never called.
---
 application/end.go    | 14 ++++++++------
 application/stream.go | 25 ++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/application/end.go b/application/end.go
index fc2e94f..cd502ec 100644
--- a/application/end.go
+++ b/application/end.go
@@ -143,7 +143,7 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 		goto ERR
 	}
 	end.stream = newStream(end, cn, dg, end.opts)
-	end.streams.Store(dg.DialogueID(), end.stream)
+	end.stream.roll()
 
 	// RPCs
 	// pre register local RPCs
@@ -196,7 +196,7 @@ func (end *End) OpenStream(opts ...*options.OpenStreamOptions) (
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
+	sm.roll()
 	return sm, nil
 }
 
@@ -210,7 +210,7 @@ func (end *End) AcceptStream() (geminio.Stream, error) {
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
+	sm.roll()
 	return sm, nil
 }
 
@@ -254,7 +254,9 @@ func (end *End) fini() {
 // TODO optimize
 func (end *End) AcceptDialogue(dg multiplexer.Dialogue) {
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
+	sm.acceptMtx.Lock()
+	defer sm.acceptMtx.Unlock()
+	sm.roll()
 	if sm.acceptStreamFunc != nil {
 		sm.acceptStreamFunc(sm)
 	}
@@ -264,7 +266,7 @@ func (end *End) AcceptDialogue(dg multiplexer.Dialogue) {
 // TODO optimize
 func (end *End) ClosedDialogue(dg multiplexer.Dialogue) {
 	sm, ok := end.streams.Load(dg.DialogueID())
-	if ok && end.closedStreamFunc != nil {
-		end.closedStreamFunc(sm.(*stream))
+	if ok {
+		sm.(*stream).closed()
 	}
 }
diff --git a/application/stream.go b/application/stream.go
index 338385e..ce7eda2 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -67,6 +67,9 @@ type stream struct {
 	streamOK  bool
 	closeOnce *gsync.Once
 	finiOnce  *gsync.Once
+	// the closed stream is notified once, and after it's accepted
+	closedOnce sync.Once
+	acceptMtx  sync.Mutex
 
 	// app layer messages
 	// raw cache
@@ -114,9 +117,25 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 	if dg, ok := dg.(interface{ Done() <-chan struct{} }); ok {
 		sm.finished = dg.Done()
 	}
+	return sm
+}
+
+// the stream must be known by the end before it rolls, because it leaves the end while finishing
+func (sm *stream) roll() {
+	sm.end.streams.Store(sm.StreamID(), sm)
 	go sm.handlePkt()
 	go sm.readPkt()
-	return sm
+}
+
+// notify outside that the stream is closed
+func (sm *stream) closed() {
+	sm.acceptMtx.Lock()
+	defer sm.acceptMtx.Unlock()
+	sm.closedOnce.Do(func() {
+		if sm.closedStreamFunc != nil {
+			sm.closedStreamFunc(sm)
+		}
+	})
 }
 
 func (sm *stream) hasRemoteRPC(method string) bool {
@@ -202,6 +221,10 @@ func (sm *stream) readPkt() {
 FINI:
 	// only readPkt leads to this fini, since it's the only one who feeds the channels fini closes
 	sm.finiOnce.Do(sm.fini)
+	if sm.dg.DialogueID() != 1 {
+		// the dialogue may have been closed before the end knows the stream
+		sm.closed()
+	}
 }
 
 func (sm *stream) handleIn(pkt packet.Packet) iodefine.IORet {
-- 
2.43.0


From 30cc989f207dfb34e9dd0e1ea8b23c8278af0c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 21/44] fix: read all the bytes which arrived and wake up at
 any new deadline

Read returned EOF while there was still unread data, and concurrent reads
overwrote the cache of each other. A deadline in the past didn't wake up the
blocked Read and Write, one expiring between the check and the wait was lost,
and an already expired timer interrupted operations after the deadline was
extended. An empty Write made the peer's Read return nothing.
---
 application/raw.go    | 172 +++++++++++++++---------------------------
 application/stream.go |   2 +-
 2 files changed, 61 insertions(+), 113 deletions(-)

diff --git a/application/raw.go b/application/raw.go
index 55930e9..9d9dc54 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -1,81 +1,64 @@
 package application
 
 import (
+	"container/list"
 	"io"
 	"net"
 	"os"
 	"time"
 
-	"github.com/jumboframes/armorigo/synchub"
-)
-
-const (
-	deadlineReadSyncKey  = "geminio:read_deadline"
-	deadlineWriteSyncKey = "geminio:write_deadline"
+	"github.com/singchia/geminio/packet"
 )
 
 // geminio.Raw
 func (sm *stream) Read(b []byte) (int, error) {
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
-		return 0, io.EOF
-	}
-	sm.mtx.RUnlock()
-
+	// concurrent reads must not overwrite the cache of each other
 	sm.cacheMtx.Lock()
+	defer sm.cacheMtx.Unlock()
+
 	if sm.cache != nil && len(sm.cache) != 0 {
 		n := copy(b, sm.cache)
 		sm.cache = sm.cache[n:]
-		sm.cacheMtx.Unlock()
 		return n, nil
 	}
-	sm.cacheMtx.Unlock()
 
-	if sm.readDeadlineExceeded() {
-		select {
-		case pkt, ok := <-sm.streamCh:
-			if !ok {
-				return 0, io.EOF
-			}
-			sm.cacheMtx.Lock()
-			n := copy(b, pkt.Data)
-			sm.cache = pkt.Data[n:]
-			sm.cacheMtx.Unlock()
-			return n, nil
-		default:
-			return 0, os.ErrDeadlineExceeded
-		}
+	// what has arrived should be read, whether the stream is closed or the deadline is exceeded
+	select {
+	case pkt, ok := <-sm.streamCh:
+		return sm.readPacket(b, pkt, ok)
+	default:
 	}
 
 	dlCh := make(chan struct{})
 	sm.dlMtx.Lock()
+	if deadlineExceeded(sm.dlRead) {
+		sm.dlMtx.Unlock()
+		return 0, os.ErrDeadlineExceeded
+	}
 	e := sm.dlReadChList.PushBack(dlCh)
 	sm.dlMtx.Unlock()
 
 	select {
 	case pkt, ok := <-sm.streamCh:
-		if !ok {
-			sm.dlMtx.Lock()
-			sm.dlReadChList.Remove(e)
-			sm.dlMtx.Unlock()
-			return 0, io.EOF
-		}
-		sm.cacheMtx.Lock()
-		n := copy(b, pkt.Data)
-		sm.cache = pkt.Data[n:]
-		sm.cacheMtx.Unlock()
-
 		// if we have't used the deadline channel, then release it
 		sm.dlMtx.Lock()
 		sm.dlReadChList.Remove(e)
 		sm.dlMtx.Unlock()
-		return n, nil
+		return sm.readPacket(b, pkt, ok)
 	case <-dlCh:
 		return 0, os.ErrDeadlineExceeded
 	}
 }
 
+func (sm *stream) readPacket(b []byte, pkt *packet.StreamPacket, ok bool) (int, error) {
+	if !ok {
+		return 0, io.EOF
+	}
+	n := copy(b, pkt.Data)
+	sm.cache = pkt.Data[n:]
+	return n, nil
+}
+
 func (sm *stream) Write(b []byte) (int, error) {
 	sm.mtx.RLock()
 	defer sm.mtx.RUnlock()
@@ -83,12 +66,18 @@ func (sm *stream) Write(b []byte) (int, error) {
 	if !sm.streamOK {
 		return 0, io.EOF
 	}
+	if len(b) == 0 {
+		return 0, nil
+	}
 
 	newb := make([]byte, len(b))
 	copy(newb, b)
 	pkt := sm.pf.NewStreamPacketWithSessionID(sm.dg.DialogueID(), newb)
 
-	if sm.writeDeadlineExceeded() {
+	dlCh := make(chan struct{})
+	sm.dlMtx.Lock()
+	if deadlineExceeded(sm.dlWrite) {
+		sm.dlMtx.Unlock()
 		select {
 		case sm.writeInCh <- pkt:
 			return len(b), nil
@@ -96,9 +85,6 @@ func (sm *stream) Write(b []byte) (int, error) {
 			return 0, os.ErrDeadlineExceeded
 		}
 	}
-
-	dlCh := make(chan struct{})
-	sm.dlMtx.Lock()
 	e := sm.dlWriteChList.PushBack(dlCh)
 	sm.dlMtx.Unlock()
 
@@ -166,34 +152,8 @@ func (sm *stream) SetReadDeadline(t time.Time) error {
 }
 
 func (sm *stream) setReadDeadline(t time.Time) error {
-	if sm.dlReadSync != nil {
-		sm.dlReadSync.Cancel(false)
-		sm.dlReadSync = nil
-	}
-	duration := t.Sub(time.Now())
-	if duration > 0 {
-		sm.dlReadSync = sm.shub.Add(deadlineReadSyncKey,
-			synchub.WithTimeout(duration),
-			synchub.WithCallback(func(event *synchub.Event) {
-				if event.Error != synchub.ErrSyncTimeout {
-					return
-				}
-				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlReadChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlReadChList.Remove(olde)
-				}
-			}))
-	}
 	sm.dlRead = t
+	sm.dlReadTimer = sm.rearmDeadline(sm.dlReadTimer, &sm.dlRead, sm.dlReadChList)
 	return nil
 }
 
@@ -209,53 +169,41 @@ func (sm *stream) SetWriteDeadline(t time.Time) error {
 }
 
 func (sm *stream) setWriteDeadline(t time.Time) error {
-	if sm.dlWriteSync != nil {
-		sm.dlWriteSync.Cancel(false)
-		sm.dlWriteSync = nil
+	sm.dlWrite = t
+	sm.dlWriteTimer = sm.rearmDeadline(sm.dlWriteTimer, &sm.dlWrite, sm.dlWriteChList)
+	return nil
+}
+
+// stop the old timer, and wake up all the waiting Read/Write at the new deadline, dlMtx must be held
+func (sm *stream) rearmDeadline(old *time.Timer, deadline *time.Time, waitings *list.List) *time.Timer {
+	if old != nil {
+		old.Stop()
+	}
+	if deadline.IsZero() {
+		return nil
 	}
-	duration := t.Sub(time.Now())
+	duration := time.Until(*deadline)
 	if duration > 0 {
-		sm.dlWriteSync = sm.shub.Add(deadlineWriteSyncKey,
-			synchub.WithTimeout(duration),
-			synchub.WithCallback(func(event *synchub.Event) {
-				if event.Error != synchub.ErrSyncTimeout {
-					return
-				}
-				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlWriteChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlWriteChList.Remove(olde)
-				}
-			}))
+		return time.AfterFunc(duration, func() {
+			sm.dlMtx.Lock()
+			defer sm.dlMtx.Unlock()
+			// the deadline may have been changed meanwhile
+			if deadlineExceeded(*deadline) {
+				wakeup(waitings)
+			}
+		})
 	}
-	sm.dlWrite = t
+	wakeup(waitings)
 	return nil
 }
 
-func (sm *stream) readDeadlineExceeded() bool {
-	sm.dlMtx.RLock()
-	defer sm.dlMtx.RUnlock()
-
-	if !sm.dlRead.IsZero() && time.Now().After(sm.dlRead) {
-		return true
+// deadline exceeds and notify all waiting Read/Write
+func wakeup(waitings *list.List) {
+	for e := waitings.Front(); e != nil; e = waitings.Front() {
+		close(waitings.Remove(e).(chan struct{}))
 	}
-	return false
 }
 
-func (sm *stream) writeDeadlineExceeded() bool {
-	sm.dlMtx.RLock()
-	defer sm.dlMtx.RUnlock()
-
-	if !sm.dlWrite.IsZero() && time.Now().After(sm.dlWrite) {
-		return true
-	}
-	return false
+func deadlineExceeded(deadline time.Time) bool {
+	return !deadline.IsZero() && !time.Now().Before(deadline)
 }
diff --git a/application/stream.go b/application/stream.go
index ce7eda2..13e2fd4 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -82,7 +82,7 @@ type stream struct {
 
 	// deadline mtx protects SetDeadline, SetReadDeadline, SetWriteDeadline and all Read Write
 	dlMtx                       sync.RWMutex
-	dlReadSync, dlWriteSync     synchub.Sync
+	dlReadTimer, dlWriteTimer   *time.Timer
 	dlReadChList, dlWriteChList *list.List
 	dlRead, dlWrite             time.Time
 
-- 
2.43.0


From c92242bc339b545c0e6f5768ecab85d58f84f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 22/44] fix: don't drop bytes of a stream when its reader is
 slow

---
 application/stream.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/application/stream.go b/application/stream.go
index 13e2fd4..4e20575 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -466,8 +466,13 @@ func (sm *stream) handleInStreamPacket(pkt *packet.StreamPacket) iodefine.IORet
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 	select {
 	case sm.streamCh <- pkt:
+		return iodefine.IOSuccess
 	default:
-		// TODO drop the packet, we don't want block here
+	}
+	// like messages we don't want block here, but dropping the packet breaks the byte stream
+	select {
+	case sm.streamCh <- pkt:
+	case <-sm.finished:
 		return iodefine.IODiscard
 	}
 	return iodefine.IOSuccess
-- 
2.43.0


From f992c9f1fd146f1cf0d87e8ed5c8acbb1ec568b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 23/44] fix: complete async calls with the response and cancel
 handlers

An async call never carried its response, ignored the timeout option and the
remote method check, and didn't tell the peer about its cancelled context.
Request cancel packets were dropped by the stream, a handler called without a
deadline could never be cancelled, and a call rejected by the remote method
check left the stream locked. A call waits no longer than asked when the peer
isn't reading, and a completion finding a full channel doesn't block the
stream.
---
 application/rpc.go    | 86 ++++++++++++++++++++++++++++++++-----------
 application/stream.go | 33 +++++++++++------
 2 files changed, 86 insertions(+), 33 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index 6c0f25f..be46bc3 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -84,15 +84,10 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 		return nil, io.EOF
 	}
 
-	if sm.opts.remoteMethodCheck {
-		// check remote RPC exists
-		sm.rpcMtx.RLock()
-		_, ok := sm.remoteRPCs[method]
-		if !ok {
-			sm.rpcMtx.RUnlock()
-			return nil, ErrRemoteRPCUnregistered
-		}
-		sm.rpcMtx.RUnlock()
+	// check remote RPC exists
+	if sm.opts.remoteMethodCheck && !sm.hasRemoteRPC(method) {
+		sm.mtx.RUnlock()
+		return nil, ErrRemoteRPCUnregistered
 	}
 	// transfer to underlayer packet
 	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
@@ -114,8 +109,17 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 		syncOpts = append(syncOpts, synchub.WithTimeout(req.Timeout()))
 	}
 	sync = sm.shub.New(req.ID(), syncOpts...)
-	sm.writeInCh <- pkt
+	var event *synchub.Event
+	// the peer may not be reading, we shouldn't wait longer than asked
+	select {
+	case sm.writeInCh <- pkt:
+	case <-ctx.Done():
+	case event = <-sync.C():
+	}
 	sm.mtx.RUnlock()
+	if event != nil {
+		return nil, event.Error
+	}
 
 	// we don't set ctx to sync, because select perform better
 	select {
@@ -126,16 +130,8 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 			// we don't deliver deadline exceeded since the pkt already has it
 			return nil, ctx.Err()
 		}
-		sm.mtx.RLock()
-		if !sm.streamOK {
-			sm.mtx.RUnlock()
-			return nil, io.EOF
-		}
 		// notify peer if context Canceled
-		cancelType := packet.RequestCancelTypeCanceled
-		cancelPkt := sm.pf.NewRequestCancelPacketWithIDAndSessionID(pkt.ID(), sm.dg.DialogueID(), cancelType)
-		sm.writeInCh <- cancelPkt
-		sm.mtx.RUnlock()
+		go sm.cancelRequest(pkt.ID())
 		return nil, ctx.Err()
 
 	case event := <-sync.C():
@@ -149,6 +145,26 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 	}
 }
 
+// notify peer that nobody is waiting for the response any more
+func (sm *stream) cancelRequest(pktID uint64) {
+	sm.mtx.RLock()
+	defer sm.mtx.RUnlock()
+	if !sm.streamOK {
+		return
+	}
+	cancelType := packet.RequestCancelTypeCanceled
+	sm.writeInCh <- sm.pf.NewRequestCancelPacketWithIDAndSessionID(pktID, sm.dg.DialogueID(), cancelType)
+}
+
+// complete the async call without blocking the stream, whatever room is left in the channel
+func completeCall(ch chan *geminio.Call, call *geminio.Call) {
+	select {
+	case ch <- call:
+	default:
+		go func() { ch <- call }()
+	}
+}
+
 func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Request, ch chan *geminio.Call, opts ...*options.CallOptions) (*geminio.Call, error) {
 	if req.ClientID() != sm.cn.ClientID() {
 		return nil, ErrMismatchClientID
@@ -156,11 +172,20 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	if req.StreamID() != sm.dg.DialogueID() {
 		return nil, ErrMismatchStreamID
 	}
+	opt := options.MergeCallOptions(opts...)
+	if opt.Timeout != nil {
+		req.SetTimeout(*opt.Timeout)
+	}
 	sm.mtx.RLock()
 	if !sm.streamOK {
 		sm.mtx.RUnlock()
 		return nil, io.EOF
 	}
+	// check remote RPC exists
+	if sm.opts.remoteMethodCheck && !sm.hasRemoteRPC(method) {
+		sm.mtx.RUnlock()
+		return nil, ErrRemoteRPCUnregistered
+	}
 	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
 	// deadline and timeout for peer
 	if req.Timeout() != 0 {
@@ -180,19 +205,32 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 		Request: req,
 		Done:    ch,
 	}
+	sent, done := make(chan struct{}), make(chan struct{})
 	// deadline and timeout for local
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx),
 		synchub.WithCallback(func(event *synchub.Event) {
 			if event.Error != nil {
+				if event.Error == context.Canceled {
+					// notify peer if context Canceled, of course after the request
+					go func() {
+						<-sent
+						sm.cancelRequest(pkt.ID())
+					}()
+				}
 				sm.log.Debugf("request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 				call.Error = event.Error
-				ch <- call
+				close(done)
+				completeCall(ch, call)
 				return
 			}
 			sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-			ch <- call
+			if rsp, ok := event.Ack.(*response); ok {
+				call.Response = rsp
+			}
+			close(done)
+			completeCall(ch, call)
 			return
 		})}
 	if req.Timeout() != 0 {
@@ -200,7 +238,11 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	}
 	// Add a new sync for the async call
 	sm.shub.New(pkt.ID(), syncOpts...)
-	sm.writeInCh <- pkt
+	select {
+	case sm.writeInCh <- pkt:
+	case <-done:
+	}
+	close(sent)
 	sm.mtx.RUnlock()
 	return call, nil
 }
diff --git a/application/stream.go b/application/stream.go
index 4e20575..f3ac531 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -258,6 +258,8 @@ func (sm *stream) handleOut(pkt packet.Packet) iodefine.IORet {
 		return sm.handleOutMessageAckPacket(realPkt)
 	case *packet.RequestPacket:
 		return sm.handleOutRequestPacket(realPkt)
+	case *packet.RequestCancelPacket:
+		return sm.handleOutRequestCancelPacket(realPkt)
 	case *packet.StreamPacket:
 		return sm.handleOutStreamPacket(realPkt)
 	case *packet.RegisterPacket:
@@ -330,7 +332,7 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			streamID:  sm.dg.DialogueID(),
 		}
 	// setup context
-	ctx, cancel := context.Background(), context.CancelFunc(nil)
+	ctx, cancel := context.WithCancel(context.Background())
 	if !pkt.Data.Deadline.IsZero() || !pkt.Data.Context.Deadline.IsZero() {
 		deadline := pkt.Data.Deadline
 		if deadline.IsZero() || (!deadline.IsZero() &&
@@ -338,11 +340,12 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			pkt.Data.Context.Deadline.Before(deadline)) {
 			deadline = pkt.Data.Context.Deadline
 		}
-		ctx, cancel = context.WithDeadline(ctx, deadline)
-		sm.rpcMtx.Lock()
-		sm.rpcCancels[pkt.ID()] = cancel
-		sm.rpcMtx.Unlock()
+		ctx, cancel = context.WithDeadline(context.Background(), deadline)
 	}
+	// the peer may cancel the call with or without a deadline
+	sm.rpcMtx.Lock()
+	sm.rpcCancels[pkt.ID()] = cancel
+	sm.rpcMtx.Unlock()
 	// hijack exist
 	if sm.hijackRPC != nil {
 		if sm.hijackRPC.pattern == nil {
@@ -370,12 +373,10 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	}
 
 	// release the context
-	if cancel != nil {
-		sm.rpcMtx.Lock()
-		delete(sm.rpcCancels, pkt.ID())
-		cancel()
-		sm.rpcMtx.Unlock()
-	}
+	sm.rpcMtx.Lock()
+	delete(sm.rpcCancels, pkt.ID())
+	cancel()
+	sm.rpcMtx.Unlock()
 
 	// no rpc found, return to call error, note that this error is not set to response error
 	err := fmt.Errorf("no such rpc: %s", method)
@@ -518,6 +519,16 @@ func (sm *stream) handleOutRequestPacket(pkt *packet.RequestPacket) iodefine.IOR
 	return iodefine.IOSuccess
 }
 
+func (sm *stream) handleOutRequestCancelPacket(pkt *packet.RequestCancelPacket) iodefine.IORet {
+	err := sm.dg.Write(pkt)
+	if err != nil {
+		sm.log.Debugf("write request cancel packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+		return iodefine.IOErr
+	}
+	return iodefine.IOSuccess
+}
+
 func (sm *stream) handleOutRegisterPacket(pkt *packet.RegisterPacket) iodefine.IORet {
 	err := sm.dg.Write(pkt)
 	if err != nil {
-- 
2.43.0


From 90b5afe0357c247057b0b5e339dfff565987157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 24/44] fix: publish waits no longer than asked and its
 completion doesn't block the stream

---
 application/message.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/application/message.go b/application/message.go
index fc354cb..6509e2a 100644
--- a/application/message.go
+++ b/application/message.go
@@ -92,10 +92,17 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 		syncOpts = append(syncOpts, synchub.WithTimeout(msg.Timeout()))
 	}
 	sync = sm.shub.New(msg.ID(), syncOpts...)
-	sm.writeInCh <- pkt
+	var event *synchub.Event
+	// the peer may not be reading, we shouldn't wait longer than asked
+	select {
+	case sm.writeInCh <- pkt:
+	case event = <-sync.C():
+	}
 	sm.mtx.RUnlock()
 
-	event := <-sync.C()
+	if event == nil {
+		event = <-sync.C()
+	}
 	if event.Error != nil {
 		sm.log.Debugf("message return err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
@@ -155,18 +162,21 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 		Message: msg,
 		Done:    ch,
 	}
+	done := make(chan struct{})
 	// deadline and timeout for local
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx), synchub.WithCallback(func(event *synchub.Event) {
 		if event.Error != nil {
 			sm.log.Debugf("message packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 			publish.Error = event.Error
-			ch <- publish
+			close(done)
+			completePublish(ch, publish)
 			return
 		}
 		sm.log.Tracef("message return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-		ch <- publish
+		close(done)
+		completePublish(ch, publish)
 		return
 	})}
 	if msg.Timeout() != 0 {
@@ -175,11 +185,23 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	}
 	// Add a new sync for the async publish
 	sm.shub.New(pkt.ID(), syncOpts...)
-	sm.writeInCh <- pkt
+	select {
+	case sm.writeInCh <- pkt:
+	case <-done:
+	}
 	sm.mtx.RUnlock()
 	return publish, nil
 }
 
+// complete the async publish without blocking the stream, whatever room is left in the channel
+func completePublish(ch chan *geminio.Publish, publish *geminio.Publish) {
+	select {
+	case ch <- publish:
+	default:
+		go func() { ch <- publish }()
+	}
+}
+
 // return EOF means the stream is closed
 func (sm *stream) Receive(ctx context.Context) (geminio.Message, error) {
 	select {
-- 
2.43.0


From 722ee380906c451ae9bc1b80148bdf9693068599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 25/44] fix: don't miss remote registrations

The register ack was sent before the registration was recorded, and a method
registered while the end was checking for it was waited for forever.
---
 application/end.go    | 22 ++++++++++------------
 application/rpc.go    |  1 +
 application/stream.go | 17 +++++++++--------
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/application/end.go b/application/end.go
index cd502ec..5bb02d4 100644
--- a/application/end.go
+++ b/application/end.go
@@ -157,22 +157,20 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 	}
 	// wait for all remote RPCs registration
 	if end.opts.remoteMethods != nil && len(end.opts.remoteMethods) != 0 {
+		// wait before checking, so a registration is never missed in between
+		ifs := strings2interfaces(end.opts.remoteMethods...)
+		syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
+		sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
 		// check whether remote RPCs have been registered
-		tocheckMethods := []string{}
 		for _, method := range end.opts.remoteMethods {
-			if !end.stream.hasRemoteRPC(method) {
-				tocheckMethods = append(tocheckMethods, method)
+			if end.stream.hasRemoteRPC(method) {
+				end.stream.shub.DoneSub(syncID, method)
 			}
 		}
-		if len(tocheckMethods) != 0 {
-			ifs := strings2interfaces(tocheckMethods...)
-			syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
-			sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
-			event := <-sync.C()
-			if event.Error != nil {
-				err = event.Error
-				goto ERR
-			}
+		event := <-sync.C()
+		if event.Error != nil {
+			err = event.Error
+			goto ERR
 		}
 	}
 	return end, nil
diff --git a/application/rpc.go b/application/rpc.go
index be46bc3..6ea96d8 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -60,6 +60,7 @@ func (sm *stream) Register(ctx context.Context, method string, rpc geminio.RPC)
 			return event.Error
 		}
 	case <-ctx.Done():
+		sync.Cancel(false)
 		sm.delLocalRPC(method)
 		return ctx.Err()
 	}
diff --git a/application/stream.go b/application/stream.go
index f3ac531..cb01ff2 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -430,6 +430,15 @@ func (sm *stream) handleInRegisterPacket(pkt *packet.RegisterPacket) iodefine.IO
 	sm.log.Tracef("read register packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
 
+	// the registration must take effect before the peer knows it succeed
+	sm.rpcMtx.Lock()
+	sm.remoteRPCs[method] = struct{}{}
+	sm.rpcMtx.Unlock()
+
+	// to notify the method is registing, in case of we're waiting for the method ready
+	syncID := fmt.Sprintf(registrationFormat, sm.cn.ClientID(), sm.dg.DialogueID())
+	sm.shub.DoneSub(syncID, method)
+
 	retPkt := sm.pf.NewRegisterAckPacket(pkt.ID(), nil)
 	err := sm.dg.Write(retPkt)
 	if err != nil {
@@ -440,14 +449,6 @@ func (sm *stream) handleInRegisterPacket(pkt *packet.RegisterPacket) iodefine.IO
 
 	// TODO delegate for remote registration
 
-	sm.rpcMtx.Lock()
-	sm.remoteRPCs[method] = struct{}{}
-	sm.rpcMtx.Unlock()
-
-	// to notify the method is registing, in case of we're waiting for the method ready
-	syncID := fmt.Sprintf(registrationFormat, sm.cn.ClientID(), sm.dg.DialogueID())
-	sm.shub.DoneSub(syncID, method)
-
 	if sm.opts.dlgt != nil {
 		sm.opts.dlgt.RemoteRegistration(method, sm.cn.ClientID(), sm.dg.DialogueID())
 	}
-- 
2.43.0


From 47001d9e4af5d0ed3eb18a88cf6cd93d76d2c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:58 +0000
Subject: [PATCH 26/44] fix: close the connection when an end can't be built,
 and accept streams only by a built end

A stream opened by the peer while the server's end was still being built was
handed to a nil end. And the connection was left running with nobody to close
it when the registrations of a new end failed.
---
 application/rpc.go |  6 +++++-
 client/end.go      |  5 +++++
 server/end.go      | 31 ++++++++++++++++++++++++++++---
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index 6ea96d8..8d1a6fe 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -49,7 +49,11 @@ func (sm *stream) Register(ctx context.Context, method string, rpc geminio.RPC)
 	sm.addLocalRPC(method, rpc)
 	pkt := sm.pf.NewRegisterPacketWithSessionID(sm.dg.DialogueID(), []byte(method))
 	sync := sm.shub.New(pkt.ID())
-	sm.writeInCh <- pkt
+	// the peer may not be reading, we shouldn't wait longer than asked
+	select {
+	case sm.writeInCh <- pkt:
+	case <-ctx.Done():
+	}
 	sm.mtx.RUnlock()
 	select {
 	case event := <-sync.C():
diff --git a/client/end.go b/client/end.go
index ec8d17e..e950ef9 100644
--- a/client/end.go
+++ b/client/end.go
@@ -79,6 +79,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	}
 	cn, err = conn.NewClientConn(netcn, cnOpts...)
 	if err != nil {
+		cn = nil
 		goto ERR
 	}
 	// multiplexer
@@ -114,6 +115,10 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	ce.End = ep
 	return ce, nil
 ERR:
+	if cn != nil {
+		// all layers finish along with the connection
+		cn.Close()
+	}
 	if eo.TimerOwner == ce {
 		eo.Timer.Close()
 	}
diff --git a/server/end.go b/server/end.go
index 36e1357..02f2c5d 100644
--- a/server/end.go
+++ b/server/end.go
@@ -45,8 +45,10 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		acceptfn func(multiplexer.Dialogue)
 		closedfn func(multiplexer.Dialogue)
 		// application
-		ep     geminio.End
+		ep     *application.End
 		epOpts []application.EndOption
+		// closed while ep is available, or never will be
+		ready = make(chan struct{})
 	)
 	// we share packet factory, log, timer and delegate for follow 3 layers.
 
@@ -63,17 +65,34 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	}
 	cn, err = conn.NewServerConn(netcn, cnOpts...)
 	if err != nil {
+		cn = nil
 		goto ERR
 	}
 	// multiplexer and application
 	if eo.AcceptStreamFunc != nil {
 		acceptfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).AcceptDialogue(dg)
+			select {
+			case <-ready:
+				if ep != nil {
+					ep.AcceptDialogue(dg)
+				}
+			default:
+				// don't hold the dialogue's opening until the end is available
+				go func() {
+					<-ready
+					if ep != nil {
+						ep.AcceptDialogue(dg)
+					}
+				}()
+			}
 		}
 	}
 	if eo.ClosedStreamFunc != nil {
 		closedfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).ClosedDialogue(dg)
+			<-ready
+			if ep != nil {
+				ep.ClosedDialogue(dg)
+			}
 		}
 	}
 	// multiplexer
@@ -118,9 +137,15 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	if err != nil {
 		goto ERR
 	}
+	close(ready)
 	se.End = ep
 	return se, nil
 ERR:
+	close(ready)
+	if cn != nil {
+		// all layers finish along with the connection
+		cn.Close()
+	}
 	if eo.TimerOwner == se {
 		eo.Timer.Close()
 	}
-- 
2.43.0


From 35cbfd0d89b2b438406b2b2ed3926410c8e6f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:58 +0000
Subject: [PATCH 27/44] fix: start the id counters at a random even number

Odd and even counters were of either parity, depending on the random start.
---
 pkg/id/id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/id/id.go b/pkg/id/id.go
index 5367ba2..4e98839 100644
--- a/pkg/id/id.go
+++ b/pkg/id/id.go
@@ -102,6 +102,6 @@ func randomUint32() uint32 {
 	if err != nil {
 		return 0
 	}
-	b[0] |= 0x00 // a random even number
+	b[0] &= 0xfe // a random even number
 	return (uint32(b[0]) << 0) | (uint32(b[1]) << 8) | (uint32(b[2]) << 16) | (uint32(b[3]) << 24)
 }
-- 
2.43.0


From b4f3047a8eaa9f45909d634de67b2d4b61b51e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 28/44] fix: guard the hijack handler being replaced while
 calls come in

---
 application/rpc.go    |  2 ++
 application/stream.go | 15 +++++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index 8d1a6fe..4e213b4 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -268,6 +268,8 @@ func (sm *stream) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions)
 		pRPC.match = *fo.Match
 	}
 	pRPC.rpc = rpc
+	sm.rpcMtx.Lock()
 	sm.hijackRPC = pRPC
+	sm.rpcMtx.Unlock()
 	return nil
 }
diff --git a/application/stream.go b/application/stream.go
index cb01ff2..107cde3 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -347,15 +347,18 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	sm.rpcCancels[pkt.ID()] = cancel
 	sm.rpcMtx.Unlock()
 	// hijack exist
-	if sm.hijackRPC != nil {
-		if sm.hijackRPC.pattern == nil {
-			sm.doRPC(pkt, methodRPC(sm.hijackRPC.rpc), method, ctx, req, rsp, true)
+	sm.rpcMtx.RLock()
+	hijackRPC := sm.hijackRPC
+	sm.rpcMtx.RUnlock()
+	if hijackRPC != nil {
+		if hijackRPC.pattern == nil {
+			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, req, rsp, true)
 			return iodefine.IOSuccess
 		}
-		matched := sm.hijackRPC.pattern.Match([]byte(method))
-		if (sm.hijackRPC.match && matched) || (!sm.hijackRPC.match && !matched) {
+		matched := hijackRPC.pattern.Match([]byte(method))
+		if (hijackRPC.match && matched) || (!hijackRPC.match && !matched) {
 			// do RPC and cancel the context
-			sm.doRPC(pkt, methodRPC(sm.hijackRPC.rpc), method, ctx, req, rsp, true)
+			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, req, rsp, true)
 			return iodefine.IOSuccess
 		}
 	}
-- 
2.43.0


From 09982ffb486bd037415a1674e42444c33818178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:22 +0000
Subject: [PATCH 29/44] fix: don't write to the nil map of a closed id counter

---
 pkg/id/id.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/id/id.go b/pkg/id/id.go
index 4e98839..e423213 100644
--- a/pkg/id/id.go
+++ b/pkg/id/id.go
@@ -93,7 +93,9 @@ func (idCounter *IDCounter) DelID(i uint64) {
 }
 
 func (idCounter *IDCounter) Close() {
-	idCounter.ids = nil
+	idCounter.mtx.Lock()
+	defer idCounter.mtx.Unlock()
+	idCounter.ids = make(map[uint64]struct{})
 }
 
 func randomUint32() uint32 {
-- 
2.43.0


From cb6ca39316ce95d7efa8ee98b233710c73216d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 30/44] fix: make reconnecting of a retry end safe against
 itself and Close

Reconnecting deadlocked when the new connection was lost while registering
the functions again or while a function was being registered, the offline of
an abandoned connection closed the healthy one, and an end closed while
reconnecting came back.
---
 client/end_retry.go | 183 ++++++++++++++++++++++++++++++--------------
 1 file changed, 125 insertions(+), 58 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 7647d99..79ab47a 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -24,6 +24,11 @@ type RetryEnd struct {
 
 	retry     sync.Mutex
 	onceClose *sync.Once
+	// endMtx protects replacing the end against Close
+	endMtx sync.Mutex
+	// canceled while closed
+	ctx    context.Context
+	cancel context.CancelFunc
 
 	// dialer to use while retry
 	dialer Dialer
@@ -50,6 +55,7 @@ func NewRetryEndWithDialer(dialer Dialer, opts ...*EndOptions) (geminio.End, err
 		onceClose:             &sync.Once{},
 		rpcs:                  make(map[string]geminio.RPC),
 	}
+	re.ctx, re.cancel = context.WithCancel(context.Background())
 	if eo.Timer == nil {
 		eo.Timer = timer.NewTimer()
 		eo.TimerOwner = re
@@ -57,12 +63,11 @@ func NewRetryEndWithDialer(dialer Dialer, opts ...*EndOptions) (geminio.End, err
 
 	// replace outside delegate to ours
 	re.opts.delegate = re.opts.Delegate
-	re.opts.Delegate = re
-	end, err := re.getEnd()
+	end, offline, err := re.getEnd()
 	if err != nil {
 		goto ERR
 	}
-	re.end = unsafe.Pointer(end)
+	re.setEnd(end, offline)
 	return re, nil
 ERR:
 	atomic.StoreInt32(re.ok, 0)
@@ -72,67 +77,143 @@ ERR:
 	return nil, err
 }
 
-func (re *RetryEnd) getEnd() (*clientEnd, error) {
-	end, err := NewEndWithDialer(re.dialer, re.opts)
+// retryDelegate is the delegate of a single end
+type retryDelegate struct {
+	*RetryEnd
+	once    sync.Once
+	offline chan struct{}
+}
+
+func (rd *retryDelegate) ConnOffline(conn delegate.ConnDescriber) error {
+	err := rd.RetryEnd.ConnOffline(conn)
+	rd.once.Do(func() { close(rd.offline) })
+	return err
+}
+
+// the returned channel is closed while the end is offline
+func (re *RetryEnd) getEnd() (*clientEnd, <-chan struct{}, error) {
+	rd := &retryDelegate{RetryEnd: re, offline: make(chan struct{})}
+	opts := *re.opts
+	opts.Delegate = rd
+	end, err := NewEndWithDialer(re.dialer, &opts)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
+	}
+	return end.(*clientEnd), rd.offline, nil
+}
+
+// replace the end unless it's closed, and retry when it's offline
+func (re *RetryEnd) setEnd(end *clientEnd, offline <-chan struct{}) bool {
+	re.endMtx.Lock()
+	defer re.endMtx.Unlock()
+	if atomic.LoadInt32(re.ok) == 0 {
+		return false
+	}
+	atomic.StorePointer(&re.end, unsafe.Pointer(end))
+	go func() {
+		select {
+		case <-offline:
+		case <-re.ctx.Done():
+			return
+		}
+		for atomic.LoadInt32(re.ok) == 1 {
+			err := re.reinit(end)
+			if err != nil {
+				re.opts.Log.Infof("retry client offline and retry failed: %s", err)
+				continue
+			}
+			re.opts.Log.Infof("retry client offline and retry succeed")
+			return
+		}
+	}()
+	return true
+}
+
+// sleep until closed
+func (re *RetryEnd) sleep(d time.Duration) error {
+	tmr := time.NewTimer(d)
+	defer tmr.Stop()
+	select {
+	case <-tmr.C:
+		return nil
+	case <-re.ctx.Done():
+		return io.EOF
 	}
-	return end.(*clientEnd), nil
 }
 
 func (re *RetryEnd) reinit(old *clientEnd) error {
+	new, err := re.renew(old)
+	if err != nil {
+		return err
+	}
+	// after retry the end succeed, after hijack and register legacy functions,
+	// the brand new end online
+	if new != nil && re.opts.delegate != nil {
+		re.opts.delegate.EndReOnline(new)
+	}
+	return nil
+}
+
+func (re *RetryEnd) renew(old *clientEnd) (*clientEnd, error) {
 	// the reinit take times
 	re.retry.Lock()
 	defer re.retry.Unlock()
 
+	if atomic.LoadInt32(re.ok) == 0 {
+		return nil, io.EOF
+	}
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	if cur != old {
 		// already reinited
-		return nil
+		return nil, nil
 	}
 	// release the end
 	if old != nil {
 		old.Close()
 	}
 
-	time.Sleep(3 * time.Second)
-	if atomic.LoadInt32(re.ok) == 0 {
-		return io.EOF
+	if err := re.sleep(3 * time.Second); err != nil {
+		return nil, err
 	}
-	new, err := re.getEnd()
+	new, offline, err := re.getEnd()
 	if err != nil {
 		// if we still get end error, deliver the error to user, but it
 		// doesn't mean to close the end
-		return err
+		return nil, err
 	}
-	atomic.StorePointer(&re.end, unsafe.Pointer(new))
 	// TODO optimize rests
-	time.Sleep(1 * time.Second)
+	if err = re.sleep(1 * time.Second); err == nil {
+		err = re.restore(new)
+	}
+	if err == nil && !re.setEnd(new, offline) {
+		err = io.EOF
+	}
+	if err != nil {
+		new.Close()
+		return nil, err
+	}
+	return new, nil
+}
+
+// restore the hijack and the legacy functions
+func (re *RetryEnd) restore(new *clientEnd) error {
+	re.rpcMtx.RLock()
+	defer re.rpcMtx.RUnlock()
 
 	// hijack
 	if re.hijackRPC != nil {
-		err = new.Hijack(re.hijackRPC, re.hijackRPCOpts)
+		err := new.Hijack(re.hijackRPC, re.hijackRPCOpts)
 		if err != nil {
 			return err
 		}
 	}
 	// register legacy functions
-	re.rpcMtx.RLock()
 	for method, rpc := range re.rpcs {
-		// TODO inconsistency for the context
-		err = re.register(context.TODO(), method, rpc, false)
+		err := new.Register(re.ctx, method, rpc)
 		if err != nil {
-			re.rpcMtx.RUnlock()
 			return err
 		}
 	}
-	re.rpcMtx.RUnlock()
-
-	// after retry the end succeed, after hijack and register legacy functions,
-	// the brand new end online
-	if re.opts.delegate != nil {
-		re.opts.delegate.EndReOnline(new)
-	}
 	return nil
 }
 
@@ -149,25 +230,8 @@ func (re *RetryEnd) ConnOffline(conn delegate.ConnDescriber) error {
 	delegate := re.opts.delegate
 	if delegate != nil {
 		// The offline is just a notification, we're still keep on trying reconnct
-		err := delegate.ConnOffline(conn)
-		if err != nil {
-			return err
-		}
-	}
-	fn := func() {
-		for atomic.LoadInt32(re.ok) == 1 {
-			end := (*clientEnd)(atomic.LoadPointer(&re.end))
-			err := re.reinit(end)
-			if err != nil {
-				re.opts.Log.Infof("retry client offline and retry failed: %s", err)
-				continue
-			}
-			re.opts.Log.Infof("retry client offline and retry succeed")
-			return
-		}
+		return delegate.ConnOffline(conn)
 	}
-	// in case of blocking the function
-	go fn()
 	return nil
 }
 
@@ -336,11 +400,6 @@ func (re *RetryEnd) CallAsync(ctx context.Context, method string, req geminio.Re
 }
 
 func (re *RetryEnd) Register(ctx context.Context, method string, rpc geminio.RPC) error {
-	return re.register(ctx, method, rpc, true)
-}
-
-func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC,
-	memorize bool) error {
 	if atomic.LoadInt32(re.ok) != 1 {
 		// TODO optimize the error
 		return io.EOF
@@ -362,16 +421,14 @@ func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC
 				return ierr
 			}
 			// retry succeed, recursive the register
-			return re.register(ctx, method, rpc, true)
+			return re.Register(ctx, method, rpc)
 		}
 		return rerr
 	}
-	if memorize {
-		// memorize the rpc in case of retry
-		re.rpcMtx.Lock()
-		re.rpcs[method] = rpc
-		re.rpcMtx.Unlock()
-	}
+	// memorize the rpc in case of retry
+	re.rpcMtx.Lock()
+	re.rpcs[method] = rpc
+	re.rpcMtx.Unlock()
 	return nil
 }
 
@@ -401,8 +458,10 @@ func (re *RetryEnd) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions
 		return herr
 	}
 	// memorize the hijack
+	re.rpcMtx.Lock()
 	re.hijackRPC = rpc
 	re.hijackRPCOpts = options.MergeHijackOptions(opts...)
+	re.rpcMtx.Unlock()
 	return nil
 }
 
@@ -558,12 +617,20 @@ func (re *RetryEnd) Write(b []byte) (int, error) {
 func (re *RetryEnd) Close() error {
 	var err error
 	re.onceClose.Do(func() {
+		re.endMtx.Lock()
 		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 		// set re.ok false, no more reconnect
 		atomic.StoreInt32(re.ok, 0)
+		re.cancel()
+		re.endMtx.Unlock()
 		err = cur.Close()
 		if re.opts.TimerOwner == re {
-			re.opts.Timer.Close()
+			go func() {
+				// the end being reinited may still need it
+				re.retry.Lock()
+				defer re.retry.Unlock()
+				re.opts.Timer.Close()
+			}()
 		}
 	})
 	return err
-- 
2.43.0


From 0b1603f47cb531a3819ae0dfa8e3d564c3db7fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 31/44] fix: close a stream or an end after what was written
 before

Closing overtook the packets which were written before it and still queued in
the stream, so the tail of a byte stream, acks and messages were lost. What
arrived before the close is readable even if the reader is slow.
---
 application/end.go    | 11 ++++++++
 application/raw.go    |  5 +++-
 application/stream.go | 58 ++++++++++++++++++++++++++++++++++++++++---
 3 files changed, 70 insertions(+), 4 deletions(-)

diff --git a/application/end.go b/application/end.go
index 5bb02d4..26c2775 100644
--- a/application/end.go
+++ b/application/end.go
@@ -231,6 +231,17 @@ func (end *End) Addr() net.Addr {
 
 func (end *End) Close() error {
 	end.onceClose.Do(func() {
+		// what was written before should reach the peer
+		wg := sync.WaitGroup{}
+		end.streams.Range(func(_, value interface{}) bool {
+			wg.Add(1)
+			go func() {
+				defer wg.Done()
+				value.(*stream).flush()
+			}()
+			return true
+		})
+		wg.Wait()
 		end.multiplexer.Close()
 		end.cn.Close()
 		if end.tmrOwner == end {
diff --git a/application/raw.go b/application/raw.go
index 9d9dc54..9269b86 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -52,7 +52,10 @@ func (sm *stream) Read(b []byte) (int, error) {
 
 func (sm *stream) readPacket(b []byte, pkt *packet.StreamPacket, ok bool) (int, error) {
 	if !ok {
-		return 0, io.EOF
+		if len(sm.rest) == 0 {
+			return 0, io.EOF
+		}
+		pkt, sm.rest = sm.rest[0], sm.rest[1:]
 	}
 	n := copy(b, pkt.Data)
 	sm.cache = pkt.Data[n:]
diff --git a/application/stream.go b/application/stream.go
index 107cde3..b47ff67 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -28,6 +28,8 @@ var (
 
 const (
 	registrationFormat = "%d-%d-registration"
+	// the longest time closing waits for the peer's reading of what was written before
+	flushTimeout = 5 * time.Second
 )
 
 type patternRPC struct {
@@ -78,7 +80,9 @@ type stream struct {
 
 	messageCh chan *packet.MessagePacket
 	streamCh  chan *packet.StreamPacket
-	failedCh  chan packet.Packet
+	// readable while the streamCh is closed
+	rest     []*packet.StreamPacket
+	failedCh chan packet.Packet
 
 	// deadline mtx protects SetDeadline, SetReadDeadline, SetWriteDeadline and all Read Write
 	dlMtx                       sync.RWMutex
@@ -176,6 +180,10 @@ func (sm *stream) handlePkt() {
 			if !ok {
 				goto FINI
 			}
+			if flush, ok := pkt.(*flushPacket); ok {
+				close(flush.done)
+				continue
+			}
 			sm.log.Tracef("stream write in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 			ret := sm.handleOut(pkt)
@@ -469,6 +477,10 @@ func (sm *stream) handleInRegisterAckPacket(pkt *packet.RegisterAckPacket) iodef
 func (sm *stream) handleInStreamPacket(pkt *packet.StreamPacket) iodefine.IORet {
 	sm.log.Tracef("read stream packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+	if len(sm.rest) != 0 {
+		sm.rest = append(sm.rest, pkt)
+		return iodefine.IOSuccess
+	}
 	select {
 	case sm.streamCh <- pkt:
 		return iodefine.IOSuccess
@@ -478,7 +490,8 @@ func (sm *stream) handleInStreamPacket(pkt *packet.StreamPacket) iodefine.IORet
 	select {
 	case sm.streamCh <- pkt:
 	case <-sm.finished:
-		return iodefine.IODiscard
+		// the dialogue has gone, keep it behind those in the channel
+		sm.rest = append(sm.rest, pkt)
 	}
 	return iodefine.IOSuccess
 }
@@ -606,11 +619,47 @@ func (sm *stream) Close() error {
 		sm.log.Debugf("stream async close, clientID: %d, dialogueID: %d",
 			sm.cn.ClientID(), sm.dg.DialogueID())
 		// diglogue Close will leads to fini and then close the readInCh
-		sm.dg.Close()
+		go func() {
+			sm.flush()
+			sm.dg.Close()
+		}()
 	})
 	return nil
 }
 
+// flushPacket goes through the stream behind the packets written before
+type flushPacket struct {
+	packet.Packet
+	done chan struct{}
+}
+
+// flush waits for the packets written before being passed to the dialogue, or else closing the dialogue
+// overtakes them
+func (sm *stream) flush() {
+	tmr := time.NewTimer(flushTimeout)
+	defer tmr.Stop()
+
+	sm.mtx.RLock()
+	if !sm.streamOK {
+		sm.mtx.RUnlock()
+		return
+	}
+	flush := &flushPacket{done: make(chan struct{})}
+	select {
+	case sm.writeInCh <- flush:
+	case <-tmr.C:
+		sm.mtx.RUnlock()
+		return
+	}
+	sm.mtx.RUnlock()
+
+	select {
+	case <-flush.done:
+	case <-sm.finished:
+	case <-tmr.C:
+	}
+}
+
 // finish and reclaim resources
 func (sm *stream) fini() {
 	sm.log.Debugf("stream finishing, clientID: %d, dialogueID: %d",
@@ -624,6 +673,9 @@ func (sm *stream) fini() {
 	close(sm.writeInCh)
 
 	for pkt := range sm.writeInCh {
+		if _, ok := pkt.(*flushPacket); ok {
+			continue
+		}
 		sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
 	}
 	sm.shub.Close()
-- 
2.43.0


From 172f431fe6cbf5fa59e5f13a4f479dcc1c584b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 32/44] fix: keep serving one direction while the other is
 blocked

conn and dialogue handle both directions in one goroutine, two ends writing
and reading bulk data at the same time blocked each other until the heartbeat
killed the connection. Nor wait for an unread stream once the connection has gone.
---
 conn/conn_base.go       |  80 ++++++++++++++++++++++++++---
 conn/conn_client.go     |  18 ++++---
 conn/conn_server.go     |  20 ++++----
 multiplexer/dialogue.go | 109 ++++++++++++++++++++++++++++++++--------
 4 files changed, 180 insertions(+), 47 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 7632664..a224763 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -83,9 +83,15 @@ type baseConn struct {
 	// readInCh or writeInCh
 	doneCh chan struct{}
 
+	// packets waiting for room, handlePkt keeps serving one direction while the
+	// other one is blocked
+	inPend  packet.Packet
+	outPend []packet.Packet
+
 	// in case of a peer never finishing the close handshake
-	closeTimer *time.Timer
-	forceCh    chan struct{}
+	closeTimer     *time.Timer
+	closeTimerOnce sync.Once
+	forceCh        chan struct{}
 }
 
 func (bc *baseConn) Read() (packet.Packet, error) {
@@ -101,6 +107,11 @@ func (bc *baseConn) ChannelRead() <-chan packet.Packet {
 	return bc.readOutCh
 }
 
+// Done is closed while the conn is finishing
+func (bc *baseConn) Done() <-chan struct{} {
+	return bc.doneCh
+}
+
 func (bc *baseConn) Write(pkt packet.Packet) error {
 	bc.connMtx.RLock()
 	defer bc.connMtx.RUnlock()
@@ -135,6 +146,12 @@ func (bc *baseConn) writePkt() {
 				// write to net Conn error, we should close the layer, and keep
 				// draining in case of handlePkt being blocked on writeOutCh
 				bc.netconn.Close()
+				// and not wait for the upper layer forever
+				bc.connMtx.RLock()
+				if bc.connOK {
+					bc.startCloseTimer()
+				}
+				bc.connMtx.RUnlock()
 			}
 		}
 	}
@@ -222,7 +239,7 @@ func (bc *baseConn) handleOutDisConnPacket(pkt *packet.DisConnPacket) iodefine.I
 			err, bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
 		return iodefine.IOErr
 	}
-	bc.writeOutCh <- pkt
+	bc.pushOut(pkt)
 	bc.log.Debugf("send dis conn down succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 	return iodefine.IOSuccess
@@ -249,17 +266,64 @@ func (bc *baseConn) handleOutDisConnAckPacket(pkt *packet.DisConnAckPacket) iode
 }
 
 func (bc *baseConn) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
-	bc.writeOutCh <- pkt
+	bc.pushOut(pkt)
 	bc.log.Tracef("send data succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 	return iodefine.IOSuccess
 }
 
+// pushIn gives the packet to the upper layer, or keeps it until there is room
+func (bc *baseConn) pushIn(pkt packet.Packet) {
+	select {
+	case bc.readOutCh <- pkt:
+	default:
+		bc.inPend = pkt
+	}
+}
+
+// pushOut gives the packet to writePkt, or keeps it until there is room
+func (bc *baseConn) pushOut(pkt packet.Packet) {
+	if len(bc.outPend) == 0 {
+		select {
+		case bc.writeOutCh <- pkt:
+			return
+		default:
+		}
+	}
+	bc.outPend = append(bc.outPend, pkt)
+}
+
+// chans returns the channels handlePkt is able to go on with, a direction with a
+// packet waiting for room takes no more
+func (bc *baseConn) chans() (readInCh, writeInCh <-chan packet.Packet,
+	readOutCh, writeOutCh chan<- packet.Packet, forceCh <-chan struct{}) {
+	if bc.inPend != nil {
+		readOutCh, forceCh = bc.readOutCh, bc.forceCh
+	} else if len(bc.outPend) <= bc.writeOutSize {
+		readInCh = bc.readInCh
+	}
+	if len(bc.outPend) > 0 {
+		writeOutCh = bc.writeOutCh
+	} else {
+		writeInCh = bc.writeInCh
+	}
+	return
+}
+
+func (bc *baseConn) outPending() packet.Packet {
+	if len(bc.outPend) > 0 {
+		return bc.outPend[0]
+	}
+	return nil
+}
+
 func (bc *baseConn) startCloseTimer() {
-	bc.closeTimer = time.AfterFunc(closeTimeout, func() {
-		bc.log.Debugf("conn close handshake timeout, clientID: %d", bc.clientID)
-		close(bc.forceCh)
-		bc.netconn.Close()
+	bc.closeTimerOnce.Do(func() {
+		bc.closeTimer = time.AfterFunc(closeTimeout, func() {
+			bc.log.Debugf("conn close handshake timeout, clientID: %d", bc.clientID)
+			close(bc.forceCh)
+			bc.netconn.Close()
+		})
 	})
 }
 
diff --git a/conn/conn_client.go b/conn/conn_client.go
index cbcf0a8..5da76c9 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -221,9 +221,8 @@ func (cc *ClientConn) connect() error {
 }
 
 func (cc *ClientConn) handlePkt() {
-	readInCh := cc.readInCh
-	writeInCh := cc.writeInCh
 	for {
+		readInCh, writeInCh, readOutCh, writeOutCh, forceCh := cc.chans()
 		select {
 		case pkt, ok := <-readInCh:
 			if !ok {
@@ -248,6 +247,12 @@ func (cc *ClientConn) handlePkt() {
 				cc.log.Debugf("handle out packet done, clientID: %d", cc.clientID)
 				goto FINI
 			}
+		case readOutCh <- cc.inPend:
+			cc.inPend = nil
+		case writeOutCh <- cc.outPending():
+			cc.outPend = cc.outPend[1:]
+		case <-forceCh:
+			goto FINI
 		}
 	}
 FINI:
@@ -341,10 +346,7 @@ func (cc *ClientConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 			cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta))
 		return iodefine.IODiscard
 	}
-	select {
-	case cc.readOutCh <- pkt:
-	case <-cc.forceCh:
-	}
+	cc.pushIn(pkt)
 	return iodefine.IOSuccess
 }
 
@@ -359,14 +361,14 @@ func (cc *ClientConn) handleOutConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 		cc.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
-	cc.writeOutCh <- pkt
+	cc.pushOut(pkt)
 	cc.log.Debugf("send conn succeed, clientID: %d, PacketID: %d, packetType: %s",
 		cc.clientID, pkt.ID(), pkt.Type().String())
 	return iodefine.IOSuccess
 }
 
 func (cc *ClientConn) handleOutHeartbeatPacket(pkt *packet.HeartbeatPacket) iodefine.IORet {
-	cc.writeOutCh <- pkt
+	cc.pushOut(pkt)
 	cc.log.Debugf("send heartbeat succeed, clientID: %d, PacketID: %d, packetType: %s",
 		cc.clientID, pkt.ID(), pkt.Type().String())
 	return iodefine.IOSuccess
diff --git a/conn/conn_server.go b/conn/conn_server.go
index a80b8d5..a48a771 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -206,9 +206,8 @@ func (sc *ServerConn) initFSM() {
 }
 
 func (sc *ServerConn) handlePkt() {
-	readInCh := sc.readInCh
-	writeInCh := sc.writeInCh
 	for {
+		readInCh, writeInCh, readOutCh, writeOutCh, forceCh := sc.chans()
 		select {
 		case pkt, ok := <-readInCh:
 			if !ok {
@@ -239,6 +238,12 @@ func (sc *ServerConn) handlePkt() {
 				sc.log.Debugf("conn handle out packet done, clientID: %d", sc.clientID)
 				goto FINI
 			}
+		case readOutCh <- sc.inPend:
+			sc.inPend = nil
+		case writeOutCh <- sc.outPending():
+			sc.outPend = sc.outPend[1:]
+		case <-forceCh:
+			goto FINI
 		}
 	}
 FINI:
@@ -351,7 +356,7 @@ func (sc *ServerConn) handleInHeartbeatPacket(pkt *packet.HeartbeatPacket) iodef
 	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))
 
 	retPkt := sc.pf.NewHeartbeatAckPacket(pkt.PacketID)
-	sc.writeOutCh <- retPkt
+	sc.pushOut(retPkt)
 	if sc.dlgt != nil {
 		sc.dlgt.Heartbeat(sc)
 	}
@@ -370,10 +375,7 @@ func (sc *ServerConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
-	select {
-	case sc.readOutCh <- pkt:
-	case <-sc.forceCh:
-	}
+	sc.pushIn(pkt)
 	return iodefine.IOSuccess
 }
 
@@ -386,7 +388,7 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 				pkt.ConnData.Error, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 			return iodefine.IOErr
 		}
-		sc.writeOutCh <- pkt
+		sc.pushOut(pkt)
 		// this situation shouldn't be seen as connected, so don't set onlined.
 		return iodefine.IOSuccess
 	}
@@ -396,7 +398,7 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 			err, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta), sc.fsm.State())
 		return iodefine.IOErr
 	}
-	sc.writeOutCh <- pkt
+	sc.pushOut(pkt)
 	sc.log.Debugf("send conn ack succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 	sc.onlined = true
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 9209d2d..05b41e2 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -80,6 +80,12 @@ type dialogue struct {
 	// closed when the dialogue starts to finish, releases whoever is blocked on
 	// readInCh or writeInCh
 	doneCh chan struct{}
+	// packets waiting for room, handlePkt keeps serving one direction while the
+	// other one is blocked
+	inPend  packet.Packet
+	outPend []packet.Packet
+	// closed when the conn is finishing
+	connDone <-chan struct{}
 
 	closeOnce   *gsync.Once
 	closeIOOnce *sync.Once
@@ -167,6 +173,9 @@ func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogu
 		readOutSize:  32,
 		writeInSize:  32,
 	}
+	if cn, ok := cn.(interface{ Done() <-chan struct{} }); ok {
+		dg.connDone = cn.Done()
+	}
 	// states
 	dg.initFSM()
 	// options
@@ -390,10 +399,8 @@ func (dg *dialogue) dowritePkt(pkt packet.Packet, record bool) error {
 }
 
 func (dg *dialogue) handlePkt() {
-	readInCh := dg.readInCh
-	writeInCh := dg.writeInCh
-
 	for {
+		readInCh, writeInCh, readOutCh, writeOutCh := dg.chans()
 		select {
 		case pkt := <-readInCh:
 			dg.log.Tracef("dialogue read in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
@@ -423,11 +430,15 @@ func (dg *dialogue) handlePkt() {
 			case iodefine.IOErr:
 				goto FINI
 			}
+		case readOutCh <- dg.inPend:
+			dg.inPend = nil
+		case writeOutCh <- dg.outPending():
+			dg.outPend = dg.outPend[1:]
 		case <-dg.closeIOCh:
-			// the packets having arrived before still count
-			for {
+			// the packets having arrived before still count, as long as there is room
+			for dg.inPend == nil {
 				select {
-				case pkt := <-readInCh:
+				case pkt := <-dg.readInCh:
 					ret := dg.handleIn(pkt)
 					if ret == iodefine.IOClosed || ret == iodefine.IOErr {
 						goto FINI
@@ -436,6 +447,7 @@ func (dg *dialogue) handlePkt() {
 					goto FINI
 				}
 			}
+			goto FINI
 		}
 	}
 FINI:
@@ -585,27 +597,71 @@ func (dg *dialogue) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
-	pushOrClosed(dg.readOutCh, pkt, dg.closeIOCh)
+	dg.pushIn(pkt)
 	return iodefine.IOSuccess
 }
 
-// block until the packet is pushed, or until closed while the channel is full
-func pushOrClosed(ch chan<- packet.Packet, pkt packet.Packet, closed <-chan struct{}) bool {
+// pushIn gives the packet to the upper layer, or keeps it until there is room
+func (dg *dialogue) pushIn(pkt packet.Packet) {
 	select {
-	case ch <- pkt:
-		return true
+	case dg.readOutCh <- pkt:
 	default:
+		dg.inPend = pkt
 	}
-	select {
-	case ch <- pkt:
-		return true
-	case <-closed:
-		return false
+}
+
+// pushOut gives the packet to writePkt, or keeps it until there is room
+func (dg *dialogue) pushOut(pkt packet.Packet) {
+	if len(dg.outPend) == 0 {
+		select {
+		case dg.writeOutCh <- pkt:
+			return
+		default:
+		}
 	}
+	dg.outPend = append(dg.outPend, pkt)
+}
+
+// chans returns the channels handlePkt is able to go on with, a direction with a
+// packet waiting for room takes no more
+func (dg *dialogue) chans() (readInCh, writeInCh <-chan packet.Packet,
+	readOutCh, writeOutCh chan<- packet.Packet) {
+	if dg.inPend != nil {
+		readOutCh = dg.readOutCh
+	} else if len(dg.outPend) <= dg.writeOutSize {
+		readInCh = dg.readInCh
+	}
+	if len(dg.outPend) > 0 {
+		writeOutCh = dg.writeOutCh
+	} else {
+		writeInCh = dg.writeInCh
+	}
+	return
+}
+
+func (dg *dialogue) outPending() packet.Packet {
+	if len(dg.outPend) > 0 {
+		return dg.outPend[0]
+	}
+	return nil
 }
 
 // input delivers a packet to the dialogue unless it's finished
 func (dg *dialogue) input(pkt packet.Packet) {
+	select {
+	case dg.readInCh <- pkt:
+		return
+	case <-dg.doneCh:
+		return
+	case <-dg.connDone:
+	}
+	// the conn has gone, don't wait for a dialogue nobody is reading
+	select {
+	case dg.readInCh <- pkt:
+		return
+	default:
+		dg.closeIO()
+	}
 	select {
 	case dg.readInCh <- pkt:
 	case <-dg.doneCh:
@@ -620,7 +676,7 @@ func (dg *dialogue) handleOutSessionPacket(pkt *packet.SessionPacket) iodefine.I
 			err, dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 		return iodefine.IOErr
 	}
-	pushOrClosed(dg.writeOutCh, pkt, dg.closeIOCh)
+	dg.pushOut(pkt)
 	dg.log.Debugf("send dialogue down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 	return iodefine.IOSuccess
@@ -634,7 +690,7 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 		err = dg.dlgt.DialogueOnline(dg)
 		if err != nil {
 			pkt.SetError(err)
-			pushOrClosed(dg.writeOutCh, pkt, dg.closeIOCh)
+			dg.pushOut(pkt)
 			// to tell peer the dialogue handshake is error, there is no dialogue at neither side.
 			// this situation shouldn't be seen as connected, so don't set onlined.
 			return iodefine.IOErr
@@ -648,7 +704,7 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
-	pushOrClosed(dg.writeOutCh, pkt, dg.closeIOCh)
+	dg.pushOut(pkt)
 	dg.log.Debugf("dialogue write session ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	return iodefine.IONewPassive
@@ -661,7 +717,7 @@ func (dg *dialogue) handleOutDismissPacket(pkt *packet.DismissPacket) iodefine.I
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
-	pushOrClosed(dg.writeOutCh, pkt, dg.closeIOCh)
+	dg.pushOut(pkt)
 	dg.log.Debugf("dialogue write dismiss down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	return iodefine.IOSuccess
@@ -678,7 +734,7 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 	// dg.dowritePkt(pkt, false) changes to dg.writeOutCh <- pkt
 	// because this packet should be after all upper layer packets
 	// at last the close(dg.writeOutCh) makes sure the flush
-	pushOrClosed(dg.writeOutCh, pkt, dg.closeIOCh)
+	dg.pushOut(pkt)
 	dg.log.Debugf("dialogue write dismiss ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	if dg.fsm.State() == DISMISS_HALF {
@@ -692,7 +748,7 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 }
 
 func (dg *dialogue) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
-	pushOrClosed(dg.writeOutCh, pkt, dg.closeIOCh)
+	dg.pushOut(pkt)
 	dg.log.Tracef("dialogue write data down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	return iodefine.IOSuccess
@@ -809,6 +865,15 @@ func (dg *dialogue) fini() {
 	}
 	// the outside should care about channel status
 	close(dg.readOutCh)
+	// flush what is waiting unless it's forced
+	for _, pkt := range dg.outPend {
+		select {
+		case dg.writeOutCh <- pkt:
+			continue
+		case <-dg.closeIOCh:
+		}
+		break
+	}
 	// writeOutCh must be cared since writhPkt might quit first
 	close(dg.writeOutCh)
 	// TODO we left the readInCh buffer at some edge cases which may cause peer msg timeout
-- 
2.43.0


From 1b9533dd0ba23bb21cb0c6388cc884730adae074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 33/44] fix: don't wait for the upper layer once the connection
 is broken

---
 conn/conn_base.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index a224763..4c8fa98 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -89,9 +89,9 @@ type baseConn struct {
 	outPend []packet.Packet
 
 	// in case of a peer never finishing the close handshake
-	closeTimer     *time.Timer
-	closeTimerOnce sync.Once
-	forceCh        chan struct{}
+	closeTimer *time.Timer
+	forceOnce  sync.Once
+	forceCh    chan struct{}
 }
 
 func (bc *baseConn) Read() (packet.Packet, error) {
@@ -146,12 +146,8 @@ func (bc *baseConn) writePkt() {
 				// write to net Conn error, we should close the layer, and keep
 				// draining in case of handlePkt being blocked on writeOutCh
 				bc.netconn.Close()
-				// and not wait for the upper layer forever
-				bc.connMtx.RLock()
-				if bc.connOK {
-					bc.startCloseTimer()
-				}
-				bc.connMtx.RUnlock()
+				// and not wait for the upper layer
+				bc.force()
 			}
 		}
 	}
@@ -298,6 +294,11 @@ func (bc *baseConn) pushOut(pkt packet.Packet) {
 func (bc *baseConn) chans() (readInCh, writeInCh <-chan packet.Packet,
 	readOutCh, writeOutCh chan<- packet.Packet, forceCh <-chan struct{}) {
 	if bc.inPend != nil {
+		select {
+		case <-bc.forceCh:
+			return nil, nil, nil, nil, bc.forceCh
+		default:
+		}
 		readOutCh, forceCh = bc.readOutCh, bc.forceCh
 	} else if len(bc.outPend) <= bc.writeOutSize {
 		readInCh = bc.readInCh
@@ -318,15 +319,18 @@ func (bc *baseConn) outPending() packet.Packet {
 }
 
 func (bc *baseConn) startCloseTimer() {
-	bc.closeTimerOnce.Do(func() {
-		bc.closeTimer = time.AfterFunc(closeTimeout, func() {
-			bc.log.Debugf("conn close handshake timeout, clientID: %d", bc.clientID)
-			close(bc.forceCh)
-			bc.netconn.Close()
-		})
+	bc.closeTimer = time.AfterFunc(closeTimeout, func() {
+		bc.log.Debugf("conn close handshake timeout, clientID: %d", bc.clientID)
+		bc.force()
+		bc.netconn.Close()
 	})
 }
 
+// force releases handlePkt from waiting for the upper layer
+func (bc *baseConn) force() {
+	bc.forceOnce.Do(func() { close(bc.forceCh) })
+}
+
 func (bc *baseConn) stopCloseTimer() {
 	if bc.closeTimer != nil {
 		bc.closeTimer.Stop()
-- 
2.43.0


From 3a876aa1a1a4c64c527e329bc8674d1b9fdaf9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 34/44] fix: keep a registration or hijack made while a retry
 end reconnects

Made on the lost connection while the new one was being restored, they were
missing on the new one until the next reconnection.
---
 client/end_retry.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 79ab47a..18faade 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -183,10 +183,7 @@ func (re *RetryEnd) renew(old *clientEnd) (*clientEnd, error) {
 	}
 	// TODO optimize rests
 	if err = re.sleep(1 * time.Second); err == nil {
-		err = re.restore(new)
-	}
-	if err == nil && !re.setEnd(new, offline) {
-		err = io.EOF
+		err = re.restore(new, offline)
 	}
 	if err != nil {
 		new.Close()
@@ -195,8 +192,9 @@ func (re *RetryEnd) renew(old *clientEnd) (*clientEnd, error) {
 	return new, nil
 }
 
-// restore the hijack and the legacy functions
-func (re *RetryEnd) restore(new *clientEnd) error {
+// restore the hijack and the legacy functions, and replace the end before any
+// other is memorized
+func (re *RetryEnd) restore(new *clientEnd, offline <-chan struct{}) error {
 	re.rpcMtx.RLock()
 	defer re.rpcMtx.RUnlock()
 
@@ -214,6 +212,9 @@ func (re *RetryEnd) restore(new *clientEnd) error {
 			return err
 		}
 	}
+	if !re.setEnd(new, offline) {
+		return io.EOF
+	}
 	return nil
 }
 
@@ -428,7 +429,12 @@ func (re *RetryEnd) Register(ctx context.Context, method string, rpc geminio.RPC
 	// memorize the rpc in case of retry
 	re.rpcMtx.Lock()
 	re.rpcs[method] = rpc
+	replaced := cur != (*clientEnd)(atomic.LoadPointer(&re.end))
 	re.rpcMtx.Unlock()
+	if replaced {
+		// the new end may have been restored without the rpc
+		return re.Register(ctx, method, rpc)
+	}
 	return nil
 }
 
@@ -461,7 +467,12 @@ func (re *RetryEnd) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions
 	re.rpcMtx.Lock()
 	re.hijackRPC = rpc
 	re.hijackRPCOpts = options.MergeHijackOptions(opts...)
+	replaced := cur != (*clientEnd)(atomic.LoadPointer(&re.end))
 	re.rpcMtx.Unlock()
+	if replaced {
+		// the new end may have been restored without the hijack
+		return re.Hijack(rpc, opts...)
+	}
 	return nil
 }
 
-- 
2.43.0


From 4a4ad9b9b3d2b3b943b256d36af63555dd463174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 35/44] fix: honour contexts while a retry end reconnects

A call, publish, receive or registration whose context ended kept waiting
for the reconnection.
---
 client/end_retry.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 18faade..544af5b 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -154,6 +154,20 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 	return nil
 }
 
+// wait for reinit no longer than the context allows
+func (re *RetryEnd) reinitContext(ctx context.Context, old *clientEnd) error {
+	ch := make(chan error, 1)
+	go func() {
+		ch <- re.reinit(old)
+	}()
+	select {
+	case err := <-ch:
+		return err
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
 func (re *RetryEnd) renew(old *clientEnd) (*clientEnd, error) {
 	// the reinit take times
 	re.retry.Lock()
@@ -352,7 +366,7 @@ func (re *RetryEnd) Call(ctx context.Context, method string, req geminio.Request
 		if cerr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
-			ierr := re.reinit(cur)
+			ierr := re.reinitContext(ctx, cur)
 			if ierr != nil {
 				if ierr == io.EOF {
 					// reinit should only return io.EOF aflter RetryEnd Close
@@ -382,7 +396,7 @@ func (re *RetryEnd) CallAsync(ctx context.Context, method string, req geminio.Re
 		if cerr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
-			ierr := re.reinit(cur)
+			ierr := re.reinitContext(ctx, cur)
 			if ierr != nil {
 				if ierr == io.EOF {
 					// reinit should only return io.EOF aflter RetryEnd Close
@@ -411,7 +425,7 @@ func (re *RetryEnd) Register(ctx context.Context, method string, rpc geminio.RPC
 		if rerr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
-			ierr := re.reinit(cur)
+			ierr := re.reinitContext(ctx, cur)
 			if ierr != nil {
 				if ierr == io.EOF {
 					// reinit should only return io.EOF aflter RetryEnd Close
@@ -494,7 +508,7 @@ func (re *RetryEnd) Publish(ctx context.Context, msg geminio.Message,
 		if perr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
-			ierr := re.reinit(cur)
+			ierr := re.reinitContext(ctx, cur)
 			if ierr != nil {
 				if ierr == io.EOF {
 					// reinit should only return io.EOF aflter RetryEnd Close
@@ -523,7 +537,7 @@ func (re *RetryEnd) PublishAsync(ctx context.Context, msg geminio.Message, ch ch
 		if perr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
-			ierr := re.reinit(cur)
+			ierr := re.reinitContext(ctx, cur)
 			if ierr != nil {
 				if ierr == io.EOF {
 					// reinit should only return io.EOF aflter RetryEnd Close
@@ -551,7 +565,7 @@ func (re *RetryEnd) Receive(ctx context.Context) (geminio.Message, error) {
 		if rerr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
-			ierr := re.reinit(cur)
+			ierr := re.reinitContext(ctx, cur)
 			if ierr != nil {
 				if ierr == io.EOF {
 					// reinit should only return io.EOF aflter RetryEnd Close
-- 
2.43.0


From aadffbcea8cd5eeab21112caf1509300a1751bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 36/44] fix: a conn read again after its end blocks forever

---
 conn/conn_base.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 4c8fa98..3117860 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -97,7 +97,6 @@ type baseConn struct {
 func (bc *baseConn) Read() (packet.Packet, error) {
 	pkt, ok := <-bc.readOutCh
 	if !ok {
-		bc.readOutCh = nil
 		return nil, io.EOF
 	}
 	return pkt, nil
-- 
2.43.0


From 4caa35ac9d68c945204cb40d92748487fd427b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 37/44] fix: a server conn loses packets it had taken for
 writing without reporting them

---
 conn/conn_client.go | 5 +++++
 conn/conn_server.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 5da76c9..dd10850 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -446,6 +446,11 @@ func (cc *ClientConn) fini() {
 			cc.failedCh <- pkt
 		}
 	}
+	for _, pkt := range cc.outPend {
+		if cc.failedCh != nil && !packet.ConnLayer(pkt) {
+			cc.failedCh <- pkt
+		}
+	}
 	// collect timer
 	if !cc.tmrOutside {
 		cc.tmr.Close()
diff --git a/conn/conn_server.go b/conn/conn_server.go
index a48a771..691cfd6 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -469,6 +469,11 @@ func (sc *ServerConn) fini() {
 			sc.failedCh <- pkt
 		}
 	}
+	for _, pkt := range sc.outPend {
+		if sc.failedCh != nil && !packet.ConnLayer(pkt) {
+			sc.failedCh <- pkt
+		}
+	}
 	// collect timer
 	if !sc.tmrOutside {
 		sc.tmr.Close()
-- 
2.43.0


From c7a29260bd3aaf0fc658b2e44edfcb597367b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:17 +0000
Subject: [PATCH 38/44] fix: an error without text was taken for success by the
 peer

---
 packet/factory.go     | 22 +++++++++++++++-------
 packet/packet_sess.go |  2 +-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/packet/factory.go b/packet/factory.go
index 205effd..a2ca533 100644
--- a/packet/factory.go
+++ b/packet/factory.go
@@ -38,6 +38,14 @@ type packetFactory struct {
 	packetIDs id.IDFactory
 }
 
+// an empty error text on the wire means no error, so an error must not have one
+func errText(err error) string {
+	if text := err.Error(); text != "" {
+		return text
+	}
+	return "unspecified error"
+}
+
 func NewPacketFactory(packetIDs *id.IDCounter) PacketFactory {
 	return &packetFactory{packetIDs}
 }
@@ -85,7 +93,7 @@ func (pf *packetFactory) NewConnAckPacket(packetID uint64,
 	}
 	if err != nil {
 		connAckPkt.RetCode = RetCodeERR
-		connAckPkt.ConnData.Error = err.Error()
+		connAckPkt.ConnData.Error = errText(err)
 	}
 	return connAckPkt
 }
@@ -117,7 +125,7 @@ func (pf *packetFactory) NewDisConnAckPacket(packetID uint64,
 	}
 	if err != nil {
 		disConnAckPkt.RetCode = RetCodeERR
-		disConnAckPkt.ConnData.Error = err.Error()
+		disConnAckPkt.ConnData.Error = errText(err)
 	}
 	return disConnAckPkt
 }
@@ -183,7 +191,7 @@ func (pf *packetFactory) NewSessionAckPacket(packetID uint64, negotiateID uint64
 		SessionData: &SessionData{},
 	}
 	if err != nil {
-		snAckPkt.SessionData.Error = err.Error()
+		snAckPkt.SessionData.Error = errText(err)
 	}
 	return snAckPkt
 }
@@ -216,7 +224,7 @@ func (pf *packetFactory) NewDismissAckPacket(packetID uint64,
 		SessionData: &SessionData{},
 	}
 	if err != nil {
-		disAckPkt.SessionData.Error = err.Error()
+		disAckPkt.SessionData.Error = errText(err)
 	}
 	return disAckPkt
 }
@@ -278,7 +286,7 @@ func (pf *packetFactory) NewMessageAckPacket(packetID uint64, err error) *Messag
 		Data: &MessageData{},
 	}
 	if err != nil {
-		msgAckPkt.Data.Error = err.Error()
+		msgAckPkt.Data.Error = errText(err)
 	}
 	return msgAckPkt
 }
@@ -342,7 +350,7 @@ func (pf *packetFactory) NewResponsePacket(requestPacketID uint64,
 		},
 	}
 	if err != nil {
-		msgAckPkt.Data.Error = err.Error()
+		msgAckPkt.Data.Error = errText(err)
 	}
 	return &ResponsePacket{msgAckPkt}
 }
@@ -398,7 +406,7 @@ func (pf *packetFactory) NewRegisterAckPacket(packetID uint64, err error) *Regis
 		RegisterData: &RegisterData{},
 	}
 	if err != nil {
-		registerAckPkt.RegisterData.Error = err.Error()
+		registerAckPkt.RegisterData.Error = errText(err)
 	}
 	return registerAckPkt
 }
diff --git a/packet/packet_sess.go b/packet/packet_sess.go
index 6fe08f1..3798b20 100644
--- a/packet/packet_sess.go
+++ b/packet/packet_sess.go
@@ -158,7 +158,7 @@ func (pkt *SessionAckPacket) SetSessionID(sessionID uint64) {
 }
 
 func (pkt *SessionAckPacket) SetError(err error) {
-	pkt.SessionData.Error = err.Error()
+	pkt.SessionData.Error = errText(err)
 }
 
 func (pkt *SessionAckPacket) Encode() ([]byte, error) {
-- 
2.43.0


From c8eb495a9e94b1fab04628fdeb99b5c998af58f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:59 +0000
Subject: [PATCH 39/44] fix: the client ID option of a server end had no effect
 along with a delegate

---
 conn/conn_server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conn/conn_server.go b/conn/conn_server.go
index 691cfd6..c7d8c8a 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -301,7 +301,11 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 	sc.meta = pkt.ConnData.Meta
 	if pkt.ClientIDAcquire() {
 		if sc.dlgt != nil {
-			sc.clientID, err = sc.dlgt.GetClientID(pkt.ClientID, sc.meta)
+			clientID := uint64(0)
+			clientID, err = sc.dlgt.GetClientID(pkt.ClientID, sc.meta)
+			if clientID != 0 {
+				sc.clientID = clientID
+			}
 		}
 		if sc.clientID == 0 && err == nil {
 			// if delegate returns 0 meaning use a ID by inner
-- 
2.43.0


From 255661f4feefb92fd78414fefdbc769c2476856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:16 +0000
Subject: [PATCH 40/44] fix: the consistency of a message was lost on the way

---
 application/message.go | 5 ++++-
 packet/packet_data.go  | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/application/message.go b/application/message.go
index 6509e2a..ba093ef 100644
--- a/application/message.go
+++ b/application/message.go
@@ -8,6 +8,7 @@ import (
 	"github.com/jumboframes/armorigo/synchub"
 	"github.com/singchia/geminio"
 	"github.com/singchia/geminio/options"
+	"github.com/singchia/geminio/packet"
 )
 
 // geminio.Messager
@@ -73,6 +74,7 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 	}
 	pkt.Data.Topic = msg.Topic()
 	pkt.Data.Custom = msg.Custom()
+	pkt.Data.Cnss = packet.Cnss(msg.Cnss())
 
 	deadline, ok := ctx.Deadline()
 	if ok {
@@ -142,6 +144,7 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	}
 	pkt.Data.Topic = msg.Topic()
 	pkt.Data.Custom = msg.Custom()
+	pkt.Data.Cnss = packet.Cnss(msg.Cnss())
 
 	deadline, ok := ctx.Deadline()
 	if ok {
@@ -213,7 +216,7 @@ func (sm *stream) Receive(ctx context.Context) (geminio.Message, error) {
 		}
 		msg := &message{
 			timeout:  pkt.Data.Timeout,
-			cnss:     options.Cnss(pkt.Cnss),
+			cnss:     options.Cnss(pkt.Data.Cnss),
 			data:     pkt.Data.Value,
 			topic:    pkt.Data.Topic,
 			custom:   pkt.Data.Custom,
diff --git a/packet/packet_data.go b/packet/packet_data.go
index 9ccc302..4e67469 100644
--- a/packet/packet_data.go
+++ b/packet/packet_data.go
@@ -105,6 +105,7 @@ type MessageData struct {
 	Value    []byte        `json:"value,omitempty"`
 	Topic    string        `json:"topic,omitempty"`
 	Custom   []byte        `json:"custom,omitempty"`
+	Cnss     Cnss          `json:"cnss,omitempty"`
 	Error    string        `json:"error,omitempty"`
 	Timeout  time.Duration `json:"timeout,omitempty"`
 	Deadline time.Time     `json:"deadline,omitempty"`
-- 
2.43.0


From 470d55f2f5446dee80007341f4be22d06d4ac7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:45 +0000
Subject: [PATCH 41/44] fix: a client conn dropped what it had accepted when a
 heartbeat ack arrived while closing

---
 conn/conn_client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index dd10850..bd70b11 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -330,6 +330,10 @@ func (cc *ClientConn) handleInHeartbeatAckPacket(pkt *packet.HeartbeatAckPacket)
 	cc.log.Debugf("read heartbeat ack succeed, clientID: %d, PacketID: %d, remote: %s, meta: %s",
 		cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta))
 
+	if cc.fsm.InStates(CLOSE_SENT, CLOSE_RECV, CLOSE_HALF) {
+		// the conn is closing, which isn't a reason to drop what is still being written
+		return iodefine.IODiscard
+	}
 	ok := cc.fsm.InStates(CONNED)
 	if !ok {
 		cc.log.Errorf("heartbeat at non-CONNED state, clientID: %d, PacketID: %d, remote: %s, meta: %s, state: %s",
-- 
2.43.0


From ddbbad3076ca40c49dad7e05293ab3417e938efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 42/44] fix: handlers of a closed stream were not cancelled

---
 application/stream.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/application/stream.go b/application/stream.go
index b47ff67..575a137 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -680,6 +680,14 @@ func (sm *stream) fini() {
 	}
 	sm.shub.Close()
 
+	// nobody waits for the inflight rpcs any more
+	sm.rpcMtx.Lock()
+	for id, cancel := range sm.rpcCancels {
+		delete(sm.rpcCancels, id)
+		cancel()
+	}
+	sm.rpcMtx.Unlock()
+
 	// the outside should care about message and stream channel status
 	close(sm.messageCh)
 	close(sm.streamCh)
-- 
2.43.0


From e1afc0da496c7f99c8aaeea970616ce747092820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:52 +0000
Subject: [PATCH 43/44] fix: the deadline timers of a stream outlived it

---
 application/raw.go    | 15 ++++++++++++++-
 application/stream.go |  2 ++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/application/raw.go b/application/raw.go
index 9269b86..d33f794 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -182,7 +182,7 @@ func (sm *stream) rearmDeadline(old *time.Timer, deadline *time.Time, waitings *
 	if old != nil {
 		old.Stop()
 	}
-	if deadline.IsZero() {
+	if deadline.IsZero() || sm.dlDone {
 		return nil
 	}
 	duration := time.Until(*deadline)
@@ -200,6 +200,19 @@ func (sm *stream) rearmDeadline(old *time.Timer, deadline *time.Time, waitings *
 	return nil
 }
 
+// nothing waits for a deadline any more, the timers must not outlive the stream
+func (sm *stream) finiDeadlines() {
+	sm.dlMtx.Lock()
+	defer sm.dlMtx.Unlock()
+	sm.dlDone = true
+	if sm.dlReadTimer != nil {
+		sm.dlReadTimer.Stop()
+	}
+	if sm.dlWriteTimer != nil {
+		sm.dlWriteTimer.Stop()
+	}
+}
+
 // deadline exceeds and notify all waiting Read/Write
 func wakeup(waitings *list.List) {
 	for e := waitings.Front(); e != nil; e = waitings.Front() {
diff --git a/application/stream.go b/application/stream.go
index 575a137..f74ac27 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -89,6 +89,7 @@ type stream struct {
 	dlReadTimer, dlWriteTimer   *time.Timer
 	dlReadChList, dlWriteChList *list.List
 	dlRead, dlWrite             time.Time
+	dlDone                      bool
 
 	// io
 	writeInCh chan packet.Packet // for multiple message types
@@ -691,6 +692,7 @@ func (sm *stream) fini() {
 	// the outside should care about message and stream channel status
 	close(sm.messageCh)
 	close(sm.streamCh)
+	sm.finiDeadlines()
 
 	// collect timer
 	if sm.tmrOwner == sm {
-- 
2.43.0


From ef74927d5eb3da57a2562139f2793127e257ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:04 +0000
Subject: [PATCH 44/44] fix: a context deadline beyond the year 9999 broke the
 connection

---
 application/message.go |  4 ++--
 application/misc.go    | 14 ++++++++++++++
 application/rpc.go     |  4 ++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/application/message.go b/application/message.go
index ba093ef..2fa08b3 100644
--- a/application/message.go
+++ b/application/message.go
@@ -76,7 +76,7 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 	pkt.Data.Custom = msg.Custom()
 	pkt.Data.Cnss = packet.Cnss(msg.Cnss())
 
-	deadline, ok := ctx.Deadline()
+	deadline, ok := deliverableDeadline(ctx)
 	if ok {
 		pkt.Data.Context.Deadline = deadline
 	}
@@ -146,7 +146,7 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	pkt.Data.Custom = msg.Custom()
 	pkt.Data.Cnss = packet.Cnss(msg.Cnss())
 
-	deadline, ok := ctx.Deadline()
+	deadline, ok := deliverableDeadline(ctx)
 	if ok {
 		pkt.Data.Context.Deadline = deadline
 	}
diff --git a/application/misc.go b/application/misc.go
index 6b0511e..b0a2409 100644
--- a/application/misc.go
+++ b/application/misc.go
@@ -1,5 +1,19 @@
 package application
 
+import (
+	"context"
+	"time"
+)
+
+// the deadline to deliver to peer, a packet cannot carry one beyond the year 9999
+func deliverableDeadline(ctx context.Context) (time.Time, bool) {
+	deadline, ok := ctx.Deadline()
+	if !ok || deadline.Year() > 9999 {
+		return time.Time{}, false
+	}
+	return deadline, true
+}
+
 func strings2interfaces(strs ...string) []interface{} {
 	ifs := make([]interface{}, len(strs), len(strs))
 	for index, str := range strs {
diff --git a/application/rpc.go b/application/rpc.go
index 4e213b4..543c2a8 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -102,7 +102,7 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 	}
 	pkt.Data.Custom = req.Custom()
 
-	deadline, ok := ctx.Deadline()
+	deadline, ok := deliverableDeadline(ctx)
 	if ok {
 		// if deadline exists, we should deliver it
 		pkt.Data.Context.Deadline = deadline
@@ -198,7 +198,7 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	}
 	pkt.Data.Custom = req.Custom()
 
-	deadline, ok := ctx.Deadline()
+	deadline, ok := deliverableDeadline(ctx)
 	if ok {
 		pkt.Data.Context.Deadline = deadline
 	}
-- 
2.43.0

