From 169dd3726d7cca3dca6ded8be4eccafff299e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 01/49] fix: scanner: watch a persistent request again once per
 block, not once per matching transaction

---
 pkg/scanner/scanner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index d0a321c..ddc6d3e 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -248,12 +248,14 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 				return err
 			}
 
-			for _, report := range reports {
+			for i, report := range reports {
 				// send the report to the output channel
 				reportsChan <- report
 
 				// if the request is persistent, the scanner will keep watching the item at the next block height
-				if report.Request.IsPersistent {
+				// the reports of a request are contiguous, it is watched again once
+				isLastReport := i == len(reports)-1 || reports[i+1].Request != report.Request
+				if report.Request.IsPersistent && isLastReport {
 					s.Watch(
 						WithRequestID(report.Request.ClientID),
 						WithStartBlock(report.BlockHeight+1),
-- 
2.43.0


From 1c0dde027cb504077ddadb942e916e852075184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 02/49] fix: scanner: do not lose the wake up of a request
 enqueued while the manager is about to wait

---
 pkg/scanner/requestqueue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scanner/requestqueue.go b/pkg/scanner/requestqueue.go
index 7e014c0..a2454e3 100644
--- a/pkg/scanner/requestqueue.go
+++ b/pkg/scanner/requestqueue.go
@@ -38,6 +38,10 @@ func (queue *scanRequestQueue) dequeueAtHeight(height uint32) []*ScanRequest {
 }
 
 func (queue *scanRequestQueue) enqueue(req *ScanRequest) {
+	// the waiter checks the queue and waits while holding cond.L: signaling
+	// without it may happen in between and be lost
+	queue.cond.L.Lock()
+	defer queue.cond.L.Unlock()
 	queue.locker.Lock()
 	defer queue.locker.Unlock()
 	defer queue.cond.Signal()
-- 
2.43.0


From e371ba0a9b342fd2600f9c706c1b8ff8e2a20b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 03/49] fix: scanner: requests waiting for future blocks do not
 block the others

---
 pkg/scanner/requestqueue.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/scanner/requestqueue.go b/pkg/scanner/requestqueue.go
index a2454e3..46cb333 100644
--- a/pkg/scanner/requestqueue.go
+++ b/pkg/scanner/requestqueue.go
@@ -57,7 +57,16 @@ func (queue *scanRequestQueue) peek() *ScanRequest {
 		return nil
 	}
 
-	return queue.requests[0]
+	// the lowest start height goes first: the scan that starts there serves all
+	// the other requests on its way up to the chain tip
+	next := queue.requests[0]
+	for _, req := range queue.requests {
+		if req.StartHeight < next.StartHeight {
+			next = req
+		}
+	}
+
+	return next
 }
 
 func (queue *scanRequestQueue) isEmpty() bool {
-- 
2.43.0


From 38cae0d8f97ad3bf9508871a3f815fccefb8bd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 04/49] fix: scanner: keep the dequeued requests when a scan
 stops with an error

---
 pkg/scanner/scanner.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index ddc6d3e..4b83ca4 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -211,6 +211,13 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 	nextBatch := make([]*ScanRequest, 0)
 	nextHeight := startHeight
 
+	// enqueue the remaining requests, also if the scan stops with an error
+	defer func() {
+		for _, req := range nextBatch {
+			s.requestsQueue.enqueue(req)
+		}
+	}()
+
 	chainTip, err := s.headerDB.ChainTip(context.Background())
 	if err != nil {
 		return err
@@ -280,11 +287,6 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 		}
 	}
 
-	// enqueue the remaining requests
-	for _, req := range nextBatch {
-		s.requestsQueue.enqueue(req)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 1efd26950cc8e121d463fe4d4ff1e73501355c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 05/49] fix: scanner: Stop ends the requests manager also when
 it is idle or blocked on a report

---
 pkg/scanner/requestqueue.go |  8 ++++++
 pkg/scanner/scanner.go      | 55 +++++++++++++++++++++++++------------
 2 files changed, 45 insertions(+), 18 deletions(-)

diff --git a/pkg/scanner/requestqueue.go b/pkg/scanner/requestqueue.go
index 46cb333..fd543a8 100644
--- a/pkg/scanner/requestqueue.go
+++ b/pkg/scanner/requestqueue.go
@@ -49,6 +49,14 @@ func (queue *scanRequestQueue) enqueue(req *ScanRequest) {
 	queue.requests = append(queue.requests, req)
 }
 
+// wakeUp wakes up who is waiting for new requests
+func (queue *scanRequestQueue) wakeUp() {
+	queue.cond.L.Lock()
+	defer queue.cond.L.Unlock()
+
+	queue.cond.Broadcast()
+}
+
 func (queue *scanRequestQueue) peek() *ScanRequest {
 	queue.locker.Lock()
 	defer queue.locker.Unlock()
diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 4b83ca4..4f633a9 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -63,6 +63,7 @@ type scannerService struct {
 	genesisHash   *chainhash.Hash
 	blockService  blockservice.BlockService
 	quitCh        chan struct{}
+	doneCh        chan struct{}
 }
 
 var _ Service = (*scannerService)(nil)
@@ -90,10 +91,11 @@ func (s *scannerService) Start() (<-chan Report, error) {
 		return nil, fmt.Errorf("scanner already started")
 	}
 
-	s.quitCh = make(chan struct{}, 1)
+	s.quitCh = make(chan struct{})
+	s.doneCh = make(chan struct{})
 	resultCh := make(chan Report)
 	// start the requests manager
-	go s.requestsManager(resultCh)
+	go s.requestsManager(resultCh, s.quitCh, s.doneCh)
 
 	s.started = true
 	return resultCh, nil
@@ -102,7 +104,14 @@ func (s *scannerService) Start() (<-chan Report, error) {
 func (s *scannerService) Stop() {
 	log.Debugln("scanner: stopping scanner ...")
 
-	s.quitCh <- struct{}{}
+	if !s.started {
+		return
+	}
+
+	close(s.quitCh)
+	// the manager may be waiting for requests
+	s.requestsQueue.wakeUp()
+	<-s.doneCh
 	s.started = false
 	//s.requestsQueue = newScanRequestQueue() TODO: commented cause data race
 }
@@ -167,35 +176,35 @@ func (s *scannerService) WatchDescriptorWallet(
 }
 
 // requestsManager is responsible to resolve the requests that are waiting for in the queue.
-func (s *scannerService) requestsManager(ch chan<- Report) {
-	defer close(s.quitCh)
+func (s *scannerService) requestsManager(ch chan<- Report, quitCh <-chan struct{}, doneCh chan<- struct{}) {
+	defer close(doneCh)
 
 	for {
 		s.requestsQueue.cond.L.Lock()
 		for s.requestsQueue.isEmpty() {
-			logrus.Debug("scanner: scanner queue is empty, waiting for new requests")
-			s.requestsQueue.cond.Wait() // wait for new requests
-
 			// check if we should quit the routine
 			select {
-			case <-s.quitCh:
+			case <-quitCh:
 				s.requestsQueue.cond.L.Unlock()
 				return
 			default:
 			}
+
+			logrus.Debug("scanner: scanner queue is empty, waiting for new requests")
+			s.requestsQueue.cond.Wait() // wait for new requests
 		}
 		s.requestsQueue.cond.L.Unlock()
 
 		// get the next request without removing it from the queue
 		nextRequest := s.requestsQueue.peek()
-		err := s.requestWorker(nextRequest.StartHeight, ch)
+		err := s.requestWorker(nextRequest.StartHeight, ch, quitCh)
 		if err != nil {
 			logrus.Errorf("error while scanning: %v", err)
 		}
 
 		// check if we should quit the routine
 		select {
-		case <-s.quitCh:
+		case <-quitCh:
 			return
 		default:
 			continue
@@ -207,7 +216,7 @@ func (s *scannerService) requestsManager(ch chan<- Report) {
 // will check if any blocks has the requested item
 // if yes, will extract the transaction that match the item
 // TODO handle properly errors (enqueue the unresolved requests ??)
-func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Report) error {
+func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Report, quitCh <-chan struct{}) error {
 	nextBatch := make([]*ScanRequest, 0)
 	nextHeight := startHeight
 
@@ -224,6 +233,12 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 	}
 
 	for nextHeight <= chainTip.Height {
+		select {
+		case <-quitCh:
+			return nil
+		default:
+		}
+
 		// append all the requests with start height = nextHeight
 		nextBatch = append(nextBatch, s.requestsQueue.dequeueAtHeight(nextHeight)...)
 
@@ -255,9 +270,17 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 				return err
 			}
 
+			// if some requests remain, put them back in the next batch
+			// this will remove the resolved requests from the batch
+			nextBatch = remainReqs
+
 			for i, report := range reports {
-				// send the report to the output channel
-				reportsChan <- report
+				// send the report to the output channel, unless nobody will receive it
+				select {
+				case reportsChan <- report:
+				case <-quitCh:
+					return nil
+				}
 
 				// if the request is persistent, the scanner will keep watching the item at the next block height
 				// the reports of a request are contiguous, it is watched again once
@@ -271,10 +294,6 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 					)
 				}
 			}
-
-			// if some requests remain, put them back in the next batch
-			// this will remove the resolved requests from the batch
-			nextBatch = remainReqs
 		}
 
 		// increment the height to scan
-- 
2.43.0


From d21b803d2624083fd67ff57251411dc12b162155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:32 +0000
Subject: [PATCH 06/49] fix: binary, protocol: read byte arrays completely,
 however the stream is fragmented

---
 pkg/binary/unmarshaler.go | 2 +-
 pkg/protocol/msg.go       | 4 ++--
 pkg/protocol/netaddr.go   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index 5eac02c..f2c8e20 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -152,7 +152,7 @@ func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
 }
 
 func (d Decoder) decodeArray(len int64, out []byte) error {
-	if _, err := io.LimitReader(d.r, len).Read(out); err != nil {
+	if _, err := io.ReadFull(io.LimitReader(d.r, len), out); err != nil {
 		return err
 	}
 
diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 5eed0c0..7dd144a 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -108,13 +108,13 @@ func newVarStr(str string) VarStr {
 // UnmarshalBinary implements the binary.Unmarshaler interface
 func (v *VarStr) UnmarshalBinary(r io.Reader) error {
 	lengthBuf := make([]byte, 1)
-	if _, err := r.Read(lengthBuf); err != nil {
+	if _, err := io.ReadFull(r, lengthBuf); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.Length = uint8(lengthBuf[0])
 
 	stringBuf := make([]byte, v.Length)
-	if _, err := r.Read(stringBuf); err != nil {
+	if _, err := io.ReadFull(r, stringBuf); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.String = string(stringBuf)
diff --git a/pkg/protocol/netaddr.go b/pkg/protocol/netaddr.go
index d57fef3..bef5087 100644
--- a/pkg/protocol/netaddr.go
+++ b/pkg/protocol/netaddr.go
@@ -34,7 +34,7 @@ func (ip IPv4) String() string {
 // UnmarshalBinary implements the binary.Marshaler interface
 func (ip IPv4) UnmarshalBinary(r io.Reader) error {
 	data := make([]byte, 16)
-	if _, err := r.Read(data); err != nil {
+	if _, err := io.ReadFull(r, data); err != nil {
 		return fmt.Errorf("unmarshal IPv4: %+v", err)
 	}
 
-- 
2.43.0


From d1171502c900c40db953d6e4ec6b4079e19f5f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:33 +0000
Subject: [PATCH 07/49] fix: protocol: decoded addresses and block locators are
 no longer discarded

---
 pkg/protocol/blocklocator.go | 4 ++--
 pkg/protocol/netaddr.go      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/protocol/blocklocator.go b/pkg/protocol/blocklocator.go
index a2accce..7857539 100644
--- a/pkg/protocol/blocklocator.go
+++ b/pkg/protocol/blocklocator.go
@@ -44,7 +44,7 @@ func (locators BlockLocators) MarshalBinary() ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
-func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
+func (locators *BlockLocators) UnmarshalBinary(r io.Reader) error {
 	d := binary.NewDecoder(r)
 
 	var count VarInt
@@ -67,6 +67,6 @@ func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
 		hashes[i] = hash
 	}
 
-	locators = hashes
+	*locators = hashes
 	return nil
 }
diff --git a/pkg/protocol/netaddr.go b/pkg/protocol/netaddr.go
index bef5087..f590dc9 100644
--- a/pkg/protocol/netaddr.go
+++ b/pkg/protocol/netaddr.go
@@ -32,7 +32,7 @@ func (ip IPv4) String() string {
 }
 
 // UnmarshalBinary implements the binary.Marshaler interface
-func (ip IPv4) UnmarshalBinary(r io.Reader) error {
+func (ip *IPv4) UnmarshalBinary(r io.Reader) error {
 	data := make([]byte, 16)
 	if _, err := io.ReadFull(r, data); err != nil {
 		return fmt.Errorf("unmarshal IPv4: %+v", err)
-- 
2.43.0


From 7d6dbc90f48cd6ca48a6c32c378188b238051202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:34 +0000
Subject: [PATCH 08/49] fix: protocol: encode lengths above 252 as compact size
 integers and make cfilter encodable

---
 pkg/protocol/msg_cfilter.go | 11 +++--------
 pkg/protocol/varint.go      |  2 +-
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/pkg/protocol/msg_cfilter.go b/pkg/protocol/msg_cfilter.go
index afc31cf..1f9e1b3 100644
--- a/pkg/protocol/msg_cfilter.go
+++ b/pkg/protocol/msg_cfilter.go
@@ -32,19 +32,14 @@ func NewMsgCFilter(network Magic, blockHash *chainhash.Hash, filter *gcs.Filter)
 	return NewMessage("cfilter", network, payload)
 }
 
-func (msg *MsgCFilter) MarshalBinary() ([]byte, error) {
+func (msg MsgCFilter) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
 	if err := buf.WriteByte(msg.FilterType); err != nil {
 		return nil, err
 	}
 
-	b, err := binary.Marshal(msg.BlockHash)
-	if err != nil {
-		return nil, err
-	}
-
-	if _, err := buf.Write(b); err != nil {
+	if _, err := buf.Write(msg.BlockHash[:]); err != nil {
 		return nil, err
 	}
 
@@ -54,7 +49,7 @@ func (msg *MsgCFilter) MarshalBinary() ([]byte, error) {
 	}
 
 	filterLen := newFromInt(len(bytesFilter))
-	b, err = binary.Marshal(filterLen)
+	b, err := binary.Marshal(filterLen)
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/protocol/varint.go b/pkg/protocol/varint.go
index f296b23..978cd94 100644
--- a/pkg/protocol/varint.go
+++ b/pkg/protocol/varint.go
@@ -82,7 +82,7 @@ func (vi VarInt) Int() (int, error) {
 	return 0, errInvalidVarIntValue
 }
 
-func (vi *VarInt) MarshalBinary() ([]byte, error) {
+func (vi VarInt) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
 	switch vi.Value.(type) {
-- 
2.43.0


From b845d9fde88fd4b276bf3a42340f9637ba19e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:08 +0000
Subject: [PATCH 09/49] fix: protocol: inventory counts and string lengths are
 compact size integers

---
 pkg/protocol/msg.go         | 22 +++++++++++++++-------
 pkg/protocol/msg_getdata.go |  2 +-
 pkg/protocol/msg_inv.go     |  9 +++++++--
 pkg/protocol/varint.go      | 11 +++++++----
 4 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 7dd144a..4aeb40d 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -94,27 +94,35 @@ func (mh MessageHeader) HasValidMagic() bool {
 
 // VarStr ...
 type VarStr struct {
-	Length uint8
+	Length VarInt
 	String string
 }
 
 func newVarStr(str string) VarStr {
 	return VarStr{
-		Length: uint8(len(str)), // TODO: implement var_int
+		Length: newFromInt(len(str)),
 		String: str,
 	}
 }
 
 // UnmarshalBinary implements the binary.Unmarshaler interface
 func (v *VarStr) UnmarshalBinary(r io.Reader) error {
-	lengthBuf := make([]byte, 1)
-	if _, err := io.ReadFull(r, lengthBuf); err != nil {
+	if err := v.Length.UnmarshalBinary(r); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
-	v.Length = uint8(lengthBuf[0])
 
-	stringBuf := make([]byte, v.Length)
-	if _, err := io.ReadFull(r, stringBuf); err != nil {
+	length, err := v.Length.Int()
+	if err != nil {
+		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
+	}
+
+	v.String = ""
+	if length == 0 {
+		return nil
+	}
+
+	stringBuf, err := binary.NewDecoder(r).DecodeBytes(int64(length))
+	if err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.String = string(stringBuf)
diff --git a/pkg/protocol/msg_getdata.go b/pkg/protocol/msg_getdata.go
index 06b9834..6ca244b 100644
--- a/pkg/protocol/msg_getdata.go
+++ b/pkg/protocol/msg_getdata.go
@@ -8,7 +8,7 @@ import (
 
 // MsgGetData represents 'getdata' message.
 type MsgGetData struct {
-	Count     uint8 // TODO: Change to var_int
+	Count     VarInt
 	Inventory []InvVector
 }
 
diff --git a/pkg/protocol/msg_inv.go b/pkg/protocol/msg_inv.go
index d85e6e1..70ed012 100644
--- a/pkg/protocol/msg_inv.go
+++ b/pkg/protocol/msg_inv.go
@@ -16,7 +16,7 @@ const (
 
 // MsgInv represents 'inv' message.
 type MsgInv struct {
-	Count     uint8 // TODO: Change to var_int
+	Count     VarInt
 	Inventory []InvVector
 }
 
@@ -28,7 +28,12 @@ func (inv *MsgInv) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	for i := uint8(0); i < inv.Count; i++ {
+	count, err := inv.Count.Int()
+	if err != nil {
+		return err
+	}
+
+	for i := 0; i < count; i++ {
 		var v InvVector
 
 		if err := d.Decode(&v); err != nil {
diff --git a/pkg/protocol/varint.go b/pkg/protocol/varint.go
index 978cd94..962065c 100644
--- a/pkg/protocol/varint.go
+++ b/pkg/protocol/varint.go
@@ -44,15 +44,18 @@ func NewVarint(u interface{}) (VarInt, error) {
 	switch v := u.(type) {
 	case int:
 		return newFromInt(v), nil
-	case uint8, uint16, uint32:
-		return VarInt{Value: v}, nil
+	case uint8:
+		return newFromInt(int(v)), nil
+	case uint16:
+		return newFromInt(int(v)), nil
+	case uint32:
+		return newFromInt(int(v)), nil
 	case uint64:
-		var err error = nil
 		if v > math.MaxInt64 {
 			v = math.MaxInt64
 		}
 
-		return VarInt{Value: v}, err
+		return newFromInt(int(v)), nil
 	}
 
 	return VarInt{Value: nil}, errInvalidVarIntValue
-- 
2.43.0


From 7054346cc29c54d577edc9a9e3bab43076904525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:09 +0000
Subject: [PATCH 10/49] fix: binary, protocol: do not allocate by the counts
 and lengths a message announces

---
 pkg/binary/unmarshaler.go    | 13 ++++++++++---
 pkg/protocol/blocklocator.go |  4 ++--
 pkg/protocol/msg_headers.go  |  4 ++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index f2c8e20..e63fc15 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -146,9 +146,16 @@ func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
 		return []byte{byte(val)}, err
 	}
 
-	out := make([]byte, len)
-	err := d.decodeArray(len, out)
-	return out, err
+	// do not trust len to allocate: the stream may end long before
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, d.r, len); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return nil, err
+	}
+
+	return buf.Bytes(), nil
 }
 
 func (d Decoder) decodeArray(len int64, out []byte) error {
diff --git a/pkg/protocol/blocklocator.go b/pkg/protocol/blocklocator.go
index 7857539..df7317d 100644
--- a/pkg/protocol/blocklocator.go
+++ b/pkg/protocol/blocklocator.go
@@ -57,14 +57,14 @@ func (locators *BlockLocators) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	hashes := make([][32]byte, numberOfBlockLocatorHashes)
+	var hashes [][hashLen]byte
 
 	for i := 0; i < numberOfBlockLocatorHashes; i++ {
 		var hash [hashLen]byte
 		if err := d.Decode(&hash); err != nil {
 			return err
 		}
-		hashes[i] = hash
+		hashes = append(hashes, hash)
 	}
 
 	*locators = hashes
diff --git a/pkg/protocol/msg_headers.go b/pkg/protocol/msg_headers.go
index 6bd9762..28e2bad 100644
--- a/pkg/protocol/msg_headers.go
+++ b/pkg/protocol/msg_headers.go
@@ -31,7 +31,7 @@ func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	headers := make([]*block.Header, numberOfHeaders)
+	var headers []*block.Header
 
 	for i := 0; i < numberOfHeaders; i++ {
 		header, err := block.DeserializeHeader(&headersBytes)
@@ -39,7 +39,7 @@ func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) error {
 			return err
 		}
 
-		headers[i] = header
+		headers = append(headers, header)
 
 		// assume that we read a "block" with zero transactions
 		var tmpLen VarInt
-- 
2.43.0


From 1d9ef66458f7a01e98720ff6002c122216ba0f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 11/49] fix: protocol: malformed or cut off blocks,
 transactions and headers are decoding errors

---
 pkg/protocol/msg.go         |  7 +++++++
 pkg/protocol/msg_block.go   | 14 +++++++++++++-
 pkg/protocol/msg_headers.go |  4 +++-
 pkg/protocol/msg_tx.go      | 14 +++++++++++++-
 4 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 4aeb40d..d47a85c 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -130,6 +130,13 @@ func (v *VarStr) UnmarshalBinary(r io.Reader) error {
 	return nil
 }
 
+// recoverDecoding turns a panic of a deserializer into an error.
+func recoverDecoding(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("malformed message: %v", r)
+	}
+}
+
 func checksum(data []byte) [checksumLength]byte {
 	hash := sha256.Sum256(data)
 	hash = sha256.Sum256(hash[:])
diff --git a/pkg/protocol/msg_block.go b/pkg/protocol/msg_block.go
index 66ee8ad..2762410 100644
--- a/pkg/protocol/msg_block.go
+++ b/pkg/protocol/msg_block.go
@@ -15,18 +15,30 @@ type MsgBlock struct {
 var _ binary.Unmarshaler = (*MsgBlock)(nil)
 
 // UnmarshalBinary implements binary.Unmarshaler
-func (blck *MsgBlock) UnmarshalBinary(r io.Reader) error {
+func (blck *MsgBlock) UnmarshalBinary(r io.Reader) (err error) {
+	defer recoverDecoding(&err)
+
 	d := binary.NewDecoder(r)
 	bytes, err := d.ReadUntilEOF()
 	if err != nil {
 		return err
 	}
 
+	length := bytes.Len()
 	decodedBlock, err := block.NewFromBuffer(&bytes)
 	if err != nil {
 		return err
 	}
 
+	// the deserializer fills a field that is cut off with zeros
+	serialized, err := decodedBlock.SerializeBlock()
+	if err != nil {
+		return err
+	}
+	if len(serialized) > length-bytes.Len() {
+		return io.ErrUnexpectedEOF
+	}
+
 	blck.Header = decodedBlock.Header
 	blck.TransactionsData = &block.Transactions{
 		Transactions: decodedBlock.TransactionsData.Transactions,
diff --git a/pkg/protocol/msg_headers.go b/pkg/protocol/msg_headers.go
index 28e2bad..cb24f01 100644
--- a/pkg/protocol/msg_headers.go
+++ b/pkg/protocol/msg_headers.go
@@ -13,7 +13,9 @@ type MsgHeaders struct {
 
 var _ binary.Unmarshaler = (*MsgHeaders)(nil)
 
-func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) error {
+func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) (err error) {
+	defer recoverDecoding(&err)
+
 	d := binary.NewDecoder(r)
 
 	var count VarInt
diff --git a/pkg/protocol/msg_tx.go b/pkg/protocol/msg_tx.go
index ae27c60..95056a8 100644
--- a/pkg/protocol/msg_tx.go
+++ b/pkg/protocol/msg_tx.go
@@ -53,18 +53,30 @@ func (tx MsgTx) MarshalBinary() ([]byte, error) {
 }
 
 // UnmarshalBinary implements binary.Unmarshaler
-func (tx *MsgTx) UnmarshalBinary(r io.Reader) error {
+func (tx *MsgTx) UnmarshalBinary(r io.Reader) (err error) {
+	defer recoverDecoding(&err)
+
 	d := binary.NewDecoder(r)
 	bytes, err := d.ReadUntilEOF()
 	if err != nil {
 		return err
 	}
 
+	length := bytes.Len()
 	decodedTx, err := transaction.NewTxFromBuffer(&bytes)
 	if err != nil {
 		return err
 	}
 
+	// the deserializer fills a field that is cut off with zeros
+	serialized, err := decodedTx.Serialize()
+	if err != nil {
+		return err
+	}
+	if len(serialized) > length-bytes.Len() {
+		return io.ErrUnexpectedEOF
+	}
+
 	tx.Transaction = *decodedTx
 
 	return nil
-- 
2.43.0


From 107e88078e6969696b915f8b506b31e6752e2099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:23 +0000
Subject: [PATCH 12/49] fix: binary: keep the bytes a reader returns together
 with the end of the stream

---
 pkg/binary/unmarshaler.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index e63fc15..3fa60d2 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -117,22 +117,9 @@ func (d Decoder) Decode(v interface{}) error {
 func (d Decoder) ReadUntilEOF() (bytes.Buffer, error) {
 	var b bytes.Buffer
 
-	for {
-		buf := make([]byte, 1)
-		n, err := d.r.Read(buf)
+	_, err := b.ReadFrom(d.r)
 
-		if err != nil {
-			if err == io.EOF {
-				break
-			}
-
-			return b, err
-		}
-
-		b.Write(buf[:n])
-	}
-
-	return b, nil
+	return b, err
 }
 
 func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
-- 
2.43.0


From 962380b145a157446028b495c546af90b0d1a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:41 +0000
Subject: [PATCH 13/49] fix: node: memory pool confirms under its listener,
 notifies once and can be stopped at any time

---
 pkg/node/mempool.go | 140 +++++++++++++++++++++++++++++---------------
 1 file changed, 92 insertions(+), 48 deletions(-)

diff --git a/pkg/node/mempool.go b/pkg/node/mempool.go
index 92411d9..239d45d 100644
--- a/pkg/node/mempool.go
+++ b/pkg/node/mempool.go
@@ -19,7 +19,9 @@ const (
 type MemPool struct {
 	//txChan receives new transactions from the network
 	txChan chan protocol.MsgTx
-	//quitChan receives a quit signal
+	//blockChan receives blocks whose transactions are confirmed
+	blockChan chan block.Block
+	//quitChan is closed when the memPool is stopped
 	quitChan chan struct{}
 
 	//txMap is a map of transactions that are in the memPool
@@ -31,15 +33,19 @@ type MemPool struct {
 	txSubscribersMutex *sync.RWMutex
 	//txSubscribers is a list of subscribers listening for new transactions
 	txSubscribers []txSubscriber
+	//notifications counts the notifications on their way to the subscribers
+	notifications *sync.WaitGroup
 }
 
 func NewMemPool() MemPool {
 	return MemPool{
 		txChan:             make(chan protocol.MsgTx),
 		txs:                make(map[string]txData),
+		blockChan:          make(chan block.Block),
 		quitChan:           make(chan struct{}),
 		txsMutex:           new(sync.RWMutex),
 		txSubscribersMutex: new(sync.RWMutex),
+		notifications:      new(sync.WaitGroup),
 	}
 }
 
@@ -92,14 +98,30 @@ func (m *MemPool) Start() {
 }
 
 func (m *MemPool) Stop() {
-	close(m.txChan)
+	m.txSubscribersMutex.Lock()
+	defer m.txSubscribersMutex.Unlock()
+
+	if m.stopped() {
+		return
+	}
+
+	//end the notifications on their way before closing the channels they use
 	close(m.quitChan)
-	subs := m.getSubscribersSafe()
-	for _, v := range subs {
+	m.notifications.Wait()
+	for _, v := range m.txSubscribers {
 		close(v.txEvent)
 	}
 }
 
+func (m *MemPool) stopped() bool {
+	select {
+	case <-m.quitChan:
+		return true
+	default:
+		return false
+	}
+}
+
 func (m *MemPool) GetMemPool() map[string]transaction.Transaction {
 	m.txsMutex.RLock()
 	defer m.txsMutex.RUnlock()
@@ -113,7 +135,10 @@ func (m *MemPool) GetMemPool() map[string]transaction.Transaction {
 }
 
 func (m *MemPool) AddTx(tx protocol.MsgTx) {
-	m.txChan <- tx
+	select {
+	case m.txChan <- tx:
+	case <-m.quitChan:
+	}
 }
 
 func (m *MemPool) AddSubscriber(id string) <-chan TxEvent {
@@ -128,32 +153,26 @@ func (m *MemPool) AddSubscriber(id string) <-chan TxEvent {
 	return txEvent
 }
 
-func (m *MemPool) getSubscribersSafe() []txSubscriber {
-	m.txSubscribersMutex.RLock()
-	defer m.txSubscribersMutex.RUnlock()
-
-	return m.txSubscribers
-}
-
+//CheckTxConfirmed hands the block over to the listener, which handles it after
+//all the transactions received before it
 func (m *MemPool) CheckTxConfirmed(block block.Block) {
-	go m.checkTxConfirmed(block)
+	select {
+	case m.blockChan <- block:
+	case <-m.quitChan:
+	}
 }
 
 func (m *MemPool) checkTxConfirmed(block block.Block) {
-	//TODO: check if this is the best way to do this
-	for _, v := range m.txs {
-		for _, tx := range block.TransactionsData.Transactions {
-			if tx.TxHash().String() == v.tx.TxHash().String() {
-				if err := m.removeTxFromMemPool(v.tx.TxHash().String()); err != nil {
-					log.Errorln("failed to remove tx from memPool")
-				}
-
-				m.notifySubscribers(TxConfirmedEvent{
-					txID: tx.TxHash().String(),
-					tx:   *tx,
-				})
-			}
+	for _, tx := range block.TransactionsData.Transactions {
+		txID := tx.TxHash().String()
+		if err := m.removeTxFromMemPool(txID); err != nil {
+			continue
 		}
+
+		m.notifySubscribers(TxConfirmedEvent{
+			txID: txID,
+			tx:   *tx,
+		})
 	}
 }
 
@@ -168,44 +187,69 @@ func (m *MemPool) removeTxFromMemPool(txID string) error {
 	return errors.New("tx not found")
 }
 
-func (m *MemPool) addTx(txID string, txData txData) {
+//addTx returns false if the transaction is already in the memPool
+func (m *MemPool) addTx(txID string, txData txData) bool {
 	m.txsMutex.Lock()
 	defer m.txsMutex.Unlock()
 
-	if _, ok := m.txs[txID]; !ok {
-		m.txs[txID] = txData
+	if _, ok := m.txs[txID]; ok {
+		return false
 	}
+
+	m.txs[txID] = txData
+	return true
 }
 
 func (m *MemPool) listenForNewTxs() {
 	log.Debugln("mem-pool: listening for new transactions")
 
-	for tx := range m.txChan {
-		m.addTx(
-			tx.HashStr(),
-			txData{
-				tx:           tx.Transaction,
-				timeReceived: time.Now(),
-			},
-		)
-
-		m.notifySubscribers(TxUnConfirmedEvent{
-			txID: tx.HashStr(),
-			tx:   tx.Transaction,
-		})
+	for {
+		select {
+		case <-m.quitChan:
+			log.Debugln("mem-pool: memPool listener stopped")
+			return
+		case newBlock := <-m.blockChan:
+			m.checkTxConfirmed(newBlock)
+		case tx := <-m.txChan:
+			isNew := m.addTx(
+				tx.HashStr(),
+				txData{
+					tx:           tx.Transaction,
+					timeReceived: time.Now(),
+				},
+			)
+			if !isNew {
+				continue
+			}
 
-		log.Debugf("tx %s added to memPool", tx.HashStr())
-	}
+			m.notifySubscribers(TxUnConfirmedEvent{
+				txID: tx.HashStr(),
+				tx:   tx.Transaction,
+			})
 
-	log.Debugln("mem-pool: memPool listener stopped")
+			log.Debugf("tx %s added to memPool", tx.HashStr())
+		}
+	}
 }
 
 func (m *MemPool) notifySubscribers(txEvent TxEvent) {
-	subs := m.getSubscribersSafe()
-	for _, v := range subs {
+	m.txSubscribersMutex.RLock()
+	defer m.txSubscribersMutex.RUnlock()
+
+	if m.stopped() {
+		return
+	}
+
+	for _, v := range m.txSubscribers {
+		m.notifications.Add(1)
 		go func(subscriber txSubscriber) {
+			defer m.notifications.Done()
+
 			log.Debugf("notifying subscriber %s of new tx started", subscriber.id)
-			subscriber.txEvent <- txEvent
+			select {
+			case subscriber.txEvent <- txEvent:
+			case <-m.quitChan:
+			}
 			log.Debugf("notifying subscriber %s of new tx done", subscriber.id)
 		}(v)
 	}
-- 
2.43.0


From ccae2f77027e2cb69175693f10912a25e0d7138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:19 +0000
Subject: [PATCH 14/49] fix: node: handlers and Start work on the node, not on
 a copy of it

---
 pkg/node/cmd_block.go       | 2 +-
 pkg/node/cmd_cfilter.go     | 2 +-
 pkg/node/cmd_getcfilters.go | 2 +-
 pkg/node/cmd_getheaders.go  | 2 +-
 pkg/node/cmd_headers.go     | 2 +-
 pkg/node/cmd_inv.go         | 2 +-
 pkg/node/cmd_ping.go        | 2 +-
 pkg/node/cmd_pong.go        | 2 +-
 pkg/node/cmd_sendcmpct.go   | 2 +-
 pkg/node/cmd_skip.go        | 2 +-
 pkg/node/cmd_tx.go          | 2 +-
 pkg/node/cmd_verack.go      | 2 +-
 pkg/node/cmd_version.go     | 2 +-
 pkg/node/node.go            | 7 +++----
 14 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 21cf16c..44cd38e 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -11,7 +11,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 	var msgBlock protocol.MsgBlock
 
 	_, err := n.blockHeadersDb.ChainTip(context.Background())
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 1a27c2c..04df700 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
 	var cfilter protocol.MsgCFilter
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 105506c..ebafe7b 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -13,7 +13,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
 	var getCFilters protocol.MsgGetCFilters
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&getCFilters); err != nil {
diff --git a/pkg/node/cmd_getheaders.go b/pkg/node/cmd_getheaders.go
index 096664c..cfa7752 100644
--- a/pkg/node/cmd_getheaders.go
+++ b/pkg/node/cmd_getheaders.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
 	var getHeaders protocol.MsgGetHeaders
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&getHeaders); err != nil {
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 6bb9c91..d1207b1 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -12,7 +12,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
 	var headers protocol.MsgHeaders
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_inv.go b/pkg/node/cmd_inv.go
index f44e0dd..cb7e82f 100644
--- a/pkg/node/cmd_inv.go
+++ b/pkg/node/cmd_inv.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
 	var inv protocol.MsgInv
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_ping.go b/pkg/node/cmd_ping.go
index d2e7dfd..ffd8f72 100644
--- a/pkg/node/cmd_ping.go
+++ b/pkg/node/cmd_ping.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
 	var ping protocol.MsgPing
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 62e3c58..89fe26e 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
 	var pong protocol.MsgPing
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
diff --git a/pkg/node/cmd_sendcmpct.go b/pkg/node/cmd_sendcmpct.go
index fb07790..8fa10fd 100644
--- a/pkg/node/cmd_sendcmpct.go
+++ b/pkg/node/cmd_sendcmpct.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
 	var sendCmpct protocol.MsgSendCmpct
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&sendCmpct); err != nil {
diff --git a/pkg/node/cmd_skip.go b/pkg/node/cmd_skip.go
index 98e3be7..89182d7 100644
--- a/pkg/node/cmd_skip.go
+++ b/pkg/node/cmd_skip.go
@@ -10,7 +10,7 @@ import (
 )
 
 // skipMessage is using to skip unhandled messages coming from peers
-func (n node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
 	logrus.Debugf("skipping message: %s", header.Command)
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
diff --git a/pkg/node/cmd_tx.go b/pkg/node/cmd_tx.go
index 8b51438..800a425 100644
--- a/pkg/node/cmd_tx.go
+++ b/pkg/node/cmd_tx.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
 	var tx protocol.MsgTx
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
diff --git a/pkg/node/cmd_verack.go b/pkg/node/cmd_verack.go
index 47e353e..3d43dfb 100644
--- a/pkg/node/cmd_verack.go
+++ b/pkg/node/cmd_verack.go
@@ -5,6 +5,6 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVerack(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVerack(header *protocol.MessageHeader, p peer.Peer) error {
 	return nil
 }
diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index 0c48ac4..d025789 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -10,7 +10,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error {
 	var version protocol.MsgVersion
 
 	conn := p.Connection()
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 0463eae..2f9a975 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -89,14 +89,14 @@ func New(config NodeConfig) (NodeService, error) {
 	}, nil
 }
 
-func (n node) GetChainTip() (*block.Header, error) {
+func (n *node) GetChainTip() (*block.Header, error) {
 	return n.blockHeadersDb.ChainTip(context.Background())
 }
 
 // AddOutboundPeer sends a new version message to a new peer
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
-func (n node) AddOutboundPeer(outbound peer.Peer) error {
+func (n *node) AddOutboundPeer(outbound peer.Peer) error {
 	if _, ok := n.Peers[outbound.ID()]; ok {
 		return fmt.Errorf("peer already known by node")
 	}
@@ -117,8 +117,7 @@ func (n node) AddOutboundPeer(outbound peer.Peer) error {
 }
 
 // Start starts a node and add an initial outbound peer.
-func (n node) Start(initialOutboundPeerAddr string) error {
-	n.quit = make(chan struct{})
+func (n *node) Start(initialOutboundPeerAddr string) error {
 	initialPeer, err := peer.NewElementsPeer(initialOutboundPeerAddr)
 	if err != nil {
 		return err
-- 
2.43.0


From 748f54e644baf807f9ca30e026dfab9da387e2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 15/49] fix: node: each message is delimited by its header,
 whatever its handler reads

---
 pkg/node/cmd_block.go       |   8 +--
 pkg/node/cmd_cfilter.go     |   5 +-
 pkg/node/cmd_getcfilters.go |   5 +-
 pkg/node/cmd_getheaders.go  |   5 +-
 pkg/node/cmd_headers.go     |  10 ++-
 pkg/node/cmd_inv.go         |   5 +-
 pkg/node/cmd_ping.go        |   5 +-
 pkg/node/cmd_pong.go        |   5 +-
 pkg/node/cmd_sendcmpct.go   |   5 +-
 pkg/node/cmd_skip.go        |   9 +--
 pkg/node/cmd_tx.go          |   5 +-
 pkg/node/cmd_verack.go      |   5 +-
 pkg/node/cmd_version.go     |   5 +-
 pkg/node/node.go            | 134 +++++++++++++++---------------------
 14 files changed, 85 insertions(+), 126 deletions(-)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 44cd38e..1ebf077 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -2,16 +2,17 @@ package node
 
 import (
 	"context"
-	"github.com/vulpemventures/go-elements/block"
 	"io"
 
+	"github.com/vulpemventures/go-elements/block"
+
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleBlock(payload io.Reader, p peer.Peer) error {
 	var msgBlock protocol.MsgBlock
 
 	_, err := n.blockHeadersDb.ChainTip(context.Background())
@@ -19,8 +20,7 @@ func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 		return err
 	}
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&msgBlock); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&msgBlock); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 04df700..90d24f2 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -8,11 +8,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleCFilter(payload io.Reader, p peer.Peer) error {
 	var cfilter protocol.MsgCFilter
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&cfilter); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&cfilter); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index ebafe7b..346376c 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -13,10 +13,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n *node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetCFilters(payload io.Reader, p peer.Peer) error {
 	var getCFilters protocol.MsgGetCFilters
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&getCFilters); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&getCFilters); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_getheaders.go b/pkg/node/cmd_getheaders.go
index cfa7752..7c9aa67 100644
--- a/pkg/node/cmd_getheaders.go
+++ b/pkg/node/cmd_getheaders.go
@@ -9,10 +9,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetHeaders(payload io.Reader, p peer.Peer) error {
 	var getHeaders protocol.MsgGetHeaders
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&getHeaders); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&getHeaders); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index d1207b1..583090b 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -2,23 +2,21 @@ package node
 
 import (
 	"context"
+	"io"
+
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
-	"io"
 
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleHeaders(payload io.Reader, p peer.Peer) error {
 	var headers protocol.MsgHeaders
 
-	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(msgHeader.Length))
-
-	if err := binary.NewDecoder(lr).Decode(&headers); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&headers); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_inv.go b/pkg/node/cmd_inv.go
index cb7e82f..bbdd299 100644
--- a/pkg/node/cmd_inv.go
+++ b/pkg/node/cmd_inv.go
@@ -8,12 +8,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleInv(payload io.Reader, p peer.Peer) error {
 	var inv protocol.MsgInv
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&inv); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&inv); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_ping.go b/pkg/node/cmd_ping.go
index ffd8f72..12d0986 100644
--- a/pkg/node/cmd_ping.go
+++ b/pkg/node/cmd_ping.go
@@ -8,12 +8,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePing(payload io.Reader, p peer.Peer) error {
 	var ping protocol.MsgPing
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&ping); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&ping); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 89fe26e..e5423a8 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -8,11 +8,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePong(payload io.Reader, p peer.Peer) error {
 	var pong protocol.MsgPing
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&pong); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&pong); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_sendcmpct.go b/pkg/node/cmd_sendcmpct.go
index 8fa10fd..c40df1c 100644
--- a/pkg/node/cmd_sendcmpct.go
+++ b/pkg/node/cmd_sendcmpct.go
@@ -9,10 +9,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleSendCmpct(payload io.Reader, p peer.Peer) error {
 	var sendCmpct protocol.MsgSendCmpct
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&sendCmpct); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&sendCmpct); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_skip.go b/pkg/node/cmd_skip.go
index 89182d7..9103d62 100644
--- a/pkg/node/cmd_skip.go
+++ b/pkg/node/cmd_skip.go
@@ -3,18 +3,13 @@ package node
 import (
 	"io"
 
-	"github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
-	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
 // skipMessage is using to skip unhandled messages coming from peers
-func (n *node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
-	logrus.Debugf("skipping message: %s", header.Command)
-
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if _, err := binary.NewDecoder(lr).ReadUntilEOF(); err != nil {
+func (n *node) skipMessage(payload io.Reader, p peer.Peer) error {
+	if _, err := binary.NewDecoder(payload).ReadUntilEOF(); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_tx.go b/pkg/node/cmd_tx.go
index 800a425..558c0c6 100644
--- a/pkg/node/cmd_tx.go
+++ b/pkg/node/cmd_tx.go
@@ -9,11 +9,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleTx(payload io.Reader, p peer.Peer) error {
 	var tx protocol.MsgTx
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&tx); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&tx); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_verack.go b/pkg/node/cmd_verack.go
index 3d43dfb..a15bb60 100644
--- a/pkg/node/cmd_verack.go
+++ b/pkg/node/cmd_verack.go
@@ -1,10 +1,11 @@
 package node
 
 import (
+	"io"
+
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
-	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleVerack(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVerack(_ io.Reader, p peer.Peer) error {
 	return nil
 }
diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index d025789..9092598 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -10,12 +10,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVersion(payload io.Reader, p peer.Peer) error {
 	var version protocol.MsgVersion
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&version); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&version); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 2f9a975..3373842 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -162,106 +162,80 @@ func (n *node) getBestPeerForSync() peer.Peer {
 
 // handlePeerMessages handles messages coming from peers.
 func (n *node) handlePeerMessages(p peer.Peer) {
-	defer func() {
-		if r := recover(); r != nil {
-			log.Infof("recovered handlePeerMessages: %v", string(debug.Stack()))
-			n.handlePeerMessages(p)
-		}
-	}()
-
 	tmp := make([]byte, protocol.MsgHeaderLength)
 	conn := p.Connection()
 
 Loop:
 	for {
-		nn, err := conn.Read(tmp)
-		if err != nil {
+		if _, err := io.ReadFull(conn, tmp); err != nil {
 			logrus.Errorf(err.Error())
 			n.DisconCh <- p.ID()
 			break Loop
 		}
 
 		var msgHeader protocol.MessageHeader
-		if err := binary.NewDecoder(bytes.NewReader(tmp[:nn])).Decode(&msgHeader); err != nil {
+		if err := binary.NewDecoder(bytes.NewReader(tmp)).Decode(&msgHeader); err != nil {
 			logrus.Debugf("decoding header failed: %+v", err)
 			continue
 		}
 
-		if err := msgHeader.Validate(); err != nil {
-			logrus.Debugf("validate header failed: %+v", err)
-			continue
+		payload := io.LimitReader(conn, int64(msgHeader.Length))
+		if err := n.handleMessage(&msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle '%s': %+v", msgHeader.CommandString(), err)
 		}
 
-		logrus.Debugf("received message: %s", msgHeader.Command)
+		//whatever the handler left unread does not belong to the next message
+		if _, err := io.Copy(io.Discard, payload); err != nil {
+			logrus.Errorf(err.Error())
+		}
+	}
+}
 
-		switch msgHeader.CommandString() {
-		case "version":
-			if err := n.handleVersion(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'version': %+v", err)
-				continue
-			}
-		case "verack":
-			if err := n.handleVerack(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'verack': %+v", err)
-				continue
-			}
-		case "ping":
-			if err := n.handlePing(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'ping': %+v", err)
-				continue
-			}
-		case "pong":
-			if err := n.handlePong(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'pong': %+v", err)
-				continue
-			}
-		case "inv":
-			if err := n.handleInv(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'inv': %+v", err)
-				continue
-			}
-		case "tx":
-			if err := n.handleTx(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'tx': %+v", err)
-				continue
-			}
-		case "block":
-			if err := n.handleBlock(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'block': %+v", err)
-				continue
-			}
-		case "sendcmpct":
-			if err := n.handleSendCmpct(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'sendcmpct': %+v", err)
-				continue
-			}
-		case "getheaders":
-			if err := n.handleGetHeaders(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'getheaders': %+v", err)
-				continue
-			}
-		case "headers":
-			if err := n.handleHeaders(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'headers': %+v", err)
-				continue
-			}
-		case "cfilter":
-			if err := n.handleCFilter(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'cfilter': %+v", err)
-				continue
-			}
-		case "getcfilters":
-			if err := n.handleGetCFilters(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'getcfilters': %+v", err)
-				continue
-			}
-		default:
-			if err := n.skipMessage(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to skip message: %+v", err)
-				continue
-			}
+// handleMessage handles one message, whose content is read from payload.
+func (n *node) handleMessage(
+	msgHeader *protocol.MessageHeader, payload io.Reader, p peer.Peer,
+) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			log.Infof("recovered handleMessage: %v", string(debug.Stack()))
+			err = fmt.Errorf("panic: %v", r)
 		}
+	}()
+
+	if err := msgHeader.Validate(); err != nil {
+		return err
+	}
 
+	logrus.Debugf("received message: %s", msgHeader.Command)
+
+	switch msgHeader.CommandString() {
+	case "version":
+		return n.handleVersion(payload, p)
+	case "verack":
+		return n.handleVerack(payload, p)
+	case "ping":
+		return n.handlePing(payload, p)
+	case "pong":
+		return n.handlePong(payload, p)
+	case "inv":
+		return n.handleInv(payload, p)
+	case "tx":
+		return n.handleTx(payload, p)
+	case "block":
+		return n.handleBlock(payload, p)
+	case "sendcmpct":
+		return n.handleSendCmpct(payload, p)
+	case "getheaders":
+		return n.handleGetHeaders(payload, p)
+	case "headers":
+		return n.handleHeaders(payload, p)
+	case "cfilter":
+		return n.handleCFilter(payload, p)
+	case "getcfilters":
+		return n.handleGetCFilters(payload, p)
+	default:
+		logrus.Debugf("skipping message: %s", msgHeader.Command)
+		return n.skipMessage(payload, p)
 	}
 }
 
-- 
2.43.0


From a5e59b403f4a2ccba1dbe90a1a795ae1ab327e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 16/49] fix: node: synchronize access to the connected peers

---
 pkg/node/chainsync.go   | 10 ++++------
 pkg/node/handle_ping.go | 20 ++++++++++++++++----
 pkg/node/node.go        | 29 ++++++++++++++++++++++-------
 3 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index bef86ef..b6ef4b2 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -58,7 +58,7 @@ func (n *node) getGenesisBlockHash() (*chainhash.Hash, error) {
 func (n *node) syncWithPeer(peerID peer.PeerID) error {
 	log.Infof("node: syncing block headers with peer: %s ...", peerID)
 
-	p := n.Peers[peerID]
+	p := n.getPeer(peerID)
 
 	if p == nil {
 		return fmt.Errorf("peer %s not found", peerID)
@@ -106,11 +106,9 @@ func (n *node) checkSyncedInitial(p peer.Peer) {
 
 func (n *node) sync(p peer.Peer) {
 	if p == nil {
-		for _, bestPeer := range n.Peers {
-			if bestPeer != nil {
-				p = bestPeer
-				break
-			}
+		p = n.getBestPeerForSync()
+		if p == nil {
+			return
 		}
 	}
 
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index d421fe4..6427c0e 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -16,6 +16,9 @@ type peerPing struct {
 }
 
 func (n *node) addPeer(peer peer.Peer) error {
+	n.peersMutex.Lock()
+	defer n.peersMutex.Unlock()
+
 	if _, found := n.Peers[peer.ID()]; found {
 		return fmt.Errorf("peer already known: %s", peer.ID())
 	}
@@ -32,6 +35,14 @@ func (n *node) addPeer(peer peer.Peer) error {
 	return nil
 }
 
+// Return the channel of the pongs of a connected peer, nil if there is none.
+func (n *node) getPongCh(peerID peer.PeerID) chan uint64 {
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
+	return n.peersPongCh[peerID]
+}
+
 func (n *node) monitorPeers() {
 	peerPings := make(map[uint64]peer.PeerID)
 
@@ -44,12 +55,12 @@ func (n *node) monitorPeers() {
 			if peerID == "" {
 				break
 			}
-			p := n.Peers[peerID]
-			if p == nil {
+			pongCh := n.getPongCh(peerID)
+			if pongCh == nil {
 				break
 			}
 
-			n.peersPongCh[peerID] <- nonce
+			pongCh <- nonce
 			delete(peerPings, nonce)
 
 		case pp := <-n.pingsCh:
@@ -70,6 +81,7 @@ func (n *node) monitorPeers() {
 
 // monitors the pings/pongs for a peer
 func (n *node) monitorPeer(peer peer.Peer) {
+	pongCh := n.getPongCh(peer.ID())
 	ticker := time.NewTicker(pingIntervalSec * time.Second)
 	defer ticker.Stop()
 
@@ -103,7 +115,7 @@ func (n *node) monitorPeer(peer peer.Peer) {
 			t := time.NewTimer(pingTimeoutSec * time.Second)
 
 			select {
-			case pn := <-n.peersPongCh[peer.ID()]:
+			case pn := <-pongCh:
 				if pn != nonce {
 					logrus.Errorf("nonce doesn't match for %s: want %d, got %d", peer, nonce, pn)
 					n.DisconCh <- peer.ID()
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 3373842..714105b 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -37,6 +37,8 @@ type node struct {
 	pingsCh     chan peerPing
 	pongsCh     chan uint64
 	peersPongCh map[peer.PeerID]chan uint64
+	//peersMutex synchronizes access to Peers and peersPongCh
+	peersMutex sync.RWMutex
 
 	DisconCh  chan peer.PeerID
 	UserAgent string
@@ -97,7 +99,7 @@ func (n *node) GetChainTip() (*block.Header, error) {
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
 func (n *node) AddOutboundPeer(outbound peer.Peer) error {
-	if _, ok := n.Peers[outbound.ID()]; ok {
+	if n.getPeer(outbound.ID()) != nil {
 		return fmt.Errorf("peer already known by node")
 	}
 
@@ -149,9 +151,8 @@ func (n *node) Stop() error {
 // Return the best peer (now randomly)
 // TODO : implement a better way to select the best peer (eg. by latency)
 func (n *node) getBestPeerForSync() peer.Peer {
-	if len(n.Peers) == 0 {
-		return nil
-	}
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
 
 	for _, p := range n.Peers {
 		return p
@@ -160,6 +161,14 @@ func (n *node) getBestPeerForSync() peer.Peer {
 	return nil
 }
 
+// Return the connected peer with the given ID, nil if there is none.
+func (n *node) getPeer(peerID peer.PeerID) peer.Peer {
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
+	return n.Peers[peerID]
+}
+
 // handlePeerMessages handles messages coming from peers.
 func (n *node) handlePeerMessages(p peer.Peer) {
 	tmp := make([]byte, protocol.MsgHeaderLength)
@@ -274,6 +283,9 @@ func (n *node) sendMessage(conn io.Writer, msg *protocol.Message) error {
 func (n *node) disconnectPeer(peerID peer.PeerID) {
 	logrus.Debugf("disconnecting peer %s", peerID)
 
+	n.peersMutex.Lock()
+	defer n.peersMutex.Unlock()
+
 	peer := n.Peers[peerID]
 	if peer == nil {
 		return
@@ -281,6 +293,7 @@ func (n *node) disconnectPeer(peerID peer.PeerID) {
 
 	peer.Connection().Close()
 	delete(n.Peers, peerID)
+	delete(n.peersPongCh, peerID)
 }
 
 // monitorBlockHeaders monitors new block headers coming from peers.
@@ -298,7 +311,7 @@ func (n *node) monitorBlockHeaders() {
 
 			log.Debugf("node: new block header: %v\n", newHeader.Height)
 
-			if len(n.Peers) > 0 {
+			if bestPeer := n.getBestPeerForSync(); bestPeer != nil {
 				hash, err := newHeader.Hash()
 				if err != nil {
 					logrus.Error(err)
@@ -317,8 +330,7 @@ func (n *node) monitorBlockHeaders() {
 					continue
 				}
 
-				conn := n.getBestPeerForSync().Connection()
-				err = n.sendMessage(conn, msg)
+				err = n.sendMessage(bestPeer.Connection(), msg)
 				if err != nil {
 					logrus.Error(err)
 					continue
@@ -364,6 +376,9 @@ func (n *node) SendTransaction(txhex string) error {
 		return err
 	}
 
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
 	for _, peer := range n.Peers {
 		err = n.sendMessage(peer.Connection(), msg)
 		if err != nil {
-- 
2.43.0


From c5fcba3ff4b6387841d206823c0fc56ffbd1ebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 17/49] fix: node: pings are registered before they are sent
 and pongs never block the peers' monitor

---
 pkg/node/handle_ping.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index 6427c0e..b9686f4 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -25,7 +25,8 @@ func (n *node) addPeer(peer peer.Peer) error {
 
 	id := peer.ID()
 	n.Peers[id] = peer
-	n.peersPongCh[id] = make(chan uint64)
+	//buffered so that a pong never blocks the monitor of all the peers
+	n.peersPongCh[id] = make(chan uint64, 1)
 
 	if len(n.Peers) == 1 {
 		logrus.Infof("node: start sync block headers with peer: %s", peer.ID())
@@ -60,8 +61,11 @@ func (n *node) monitorPeers() {
 				break
 			}
 
-			pongCh <- nonce
 			delete(peerPings, nonce)
+			select {
+			case pongCh <- nonce:
+			default:
+			}
 
 		case pp := <-n.pingsCh:
 			peerPings[pp.nonce] = pp.peerID
@@ -72,7 +76,6 @@ func (n *node) monitorPeers() {
 			for k, v := range peerPings {
 				if v == peerID {
 					delete(peerPings, k)
-					break
 				}
 			}
 		}
@@ -101,17 +104,19 @@ func (n *node) monitorPeer(peer peer.Peer) {
 				logrus.Fatalf("monitorPeer, binary.Marshal: %v", err)
 			}
 
-			if _, err := peer.Connection().Write(msg); err != nil {
-				n.disconnectPeer(peer.ID())
-			}
-
-			logrus.Debugf("sent 'ping' to %s", peer)
-
+			//register the nonce before the peer can answer
 			n.pingsCh <- peerPing{
 				nonce:  nonce,
 				peerID: peer.ID(),
 			}
 
+			if _, err := peer.Connection().Write(msg); err != nil {
+				n.DisconCh <- peer.ID()
+				return
+			}
+
+			logrus.Debugf("sent 'ping' to %s", peer)
+
 			t := time.NewTimer(pingTimeoutSec * time.Second)
 
 			select {
-- 
2.43.0


From eaed52f63d77209a435f0dc0768033d45bc072f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 18/49] fix: node: greet a peer once and wait for its handshake
 before comparing tips

---
 pkg/node/chainsync.go   | 5 +++++
 pkg/node/cmd_version.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index b6ef4b2..1367989 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -20,6 +20,11 @@ var zeroHash [32]byte = [32]byte{
 }
 
 func (n *node) synced(p peer.Peer) (bool, error) {
+	// the tip of the peer is unknown until the handshake is done
+	if n.getPeer(p.ID()) == nil {
+		return false, nil
+	}
+
 	chainTip, err := n.blockHeadersDb.ChainTip(context.Background())
 	if err != nil {
 		return false, err
diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index 9092598..f900c76 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -23,6 +23,11 @@ func (n *node) handleVersion(payload io.Reader, p peer.Peer) error {
 		return fmt.Errorf("peer %s does not support Compact Filters Service (BIP0158)", p.ID())
 	}
 
+	// a peer is greeted once
+	if n.getPeer(p.ID()) != nil {
+		return fmt.Errorf("peer already known: %s", p.ID())
+	}
+
 	verack, err := protocol.NewVerackMsg(n.Network)
 	if err != nil {
 		return err
-- 
2.43.0


From 9acfd59bc648c715f88c159c310655a8051a8397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 19/49] fix: node: serve the filters of a range in ascending
 order, its start included

---
 pkg/node/cmd_getcfilters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 346376c..5f4c57c 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -41,7 +41,7 @@ func (n *node) handleGetCFilters(payload io.Reader, p peer.Peer) error {
 		return fmt.Errorf("end height is too far away from start height")
 	}
 
-	for height := endBlockHeader.Height; height > getCFilters.StartHeight; height-- {
+	for height := getCFilters.StartHeight; height <= endBlockHeader.Height; height++ {
 		blockHash, err := n.blockHeadersDb.GetBlockHashByHeight(context.Background(), height)
 		if err != nil {
 			logrus.Error(err)
-- 
2.43.0


From 83abbf60856677b3c8c30e5294a02ee9b4c42216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:15 +0000
Subject: [PATCH 20/49] fix: node: stopping the node ends whatever it is doing,
 at any moment

---
 pkg/node/chainsync.go   | 11 +++++++++--
 pkg/node/cmd_block.go   |  6 +++++-
 pkg/node/cmd_cfilter.go |  6 +++++-
 pkg/node/cmd_headers.go |  6 +++++-
 pkg/node/cmd_pong.go    |  6 +++++-
 pkg/node/handle_ping.go | 15 +++++++++++----
 pkg/node/node.go        | 42 +++++++++++++++++++++++++++++++++++------
 7 files changed, 76 insertions(+), 16 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index 1367989..936560c 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -105,7 +105,11 @@ func (n *node) checkSyncedInitial(p peer.Peer) {
 			n.notifySynced()
 			return
 		}
-		time.Sleep(time.Second * 1)
+		select {
+		case <-n.quit:
+			return
+		case <-time.After(time.Second * 1):
+		}
 	}
 }
 
@@ -127,7 +131,10 @@ func (n *node) notifySynced() {
 	n.notifySyncedOnce.Do(
 		func() {
 			log.Debugf("node: syncing block headers finished")
-			n.syncedChan <- struct{}{}
+			select {
+			case n.syncedChan <- struct{}{}:
+			case <-n.quit:
+			}
 		},
 	)
 }
diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 1ebf077..5543108 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -51,7 +51,11 @@ func (n *node) handleBlock(payload io.Reader, p peer.Peer) error {
 
 		return nil
 	}
-	n.blockHeadersCh <- *msgBlock.Header
+	select {
+	case n.blockHeadersCh <- *msgBlock.Header:
+	case <-n.quit:
+		return ErrNodeStopped
+	}
 	n.memPool.CheckTxConfirmed(msgBlock.Block)
 
 	return nil
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 90d24f2..80b5fd1 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -16,7 +16,11 @@ func (n *node) handleCFilter(payload io.Reader, p peer.Peer) error {
 	}
 
 	// send the cfilter to the chan
-	n.compactFiltersCh <- cfilter
+	select {
+	case n.compactFiltersCh <- cfilter:
+	case <-n.quit:
+		return ErrNodeStopped
+	}
 
 	return nil
 }
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 583090b..cab3918 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -73,7 +73,11 @@ func (n *node) handleHeaders(payload io.Reader, p peer.Peer) error {
 
 	if len(headers.Headers) > 0 {
 		for _, v := range headers.Headers {
-			n.blockHeadersCh <- *v
+			select {
+			case n.blockHeadersCh <- *v:
+			case <-n.quit:
+				return ErrNodeStopped
+			}
 		}
 
 		log.Debugf("node: local tip: %v", headers.Headers[len(headers.Headers)-1].Height)
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index e5423a8..9acc3a7 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -15,7 +15,11 @@ func (n *node) handlePong(payload io.Reader, p peer.Peer) error {
 		return err
 	}
 
-	n.pongsCh <- pong.Nonce
+	select {
+	case n.pongsCh <- pong.Nonce:
+	case <-n.quit:
+		return ErrNodeStopped
+	}
 
 	return nil
 }
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index b9686f4..dfb9113 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -105,13 +105,17 @@ func (n *node) monitorPeer(peer peer.Peer) {
 			}
 
 			//register the nonce before the peer can answer
-			n.pingsCh <- peerPing{
+			select {
+			case n.pingsCh <- peerPing{
 				nonce:  nonce,
 				peerID: peer.ID(),
+			}:
+			case <-n.quit:
+				return
 			}
 
 			if _, err := peer.Connection().Write(msg); err != nil {
-				n.DisconCh <- peer.ID()
+				n.notifyDisconnected(peer.ID())
 				return
 			}
 
@@ -123,12 +127,15 @@ func (n *node) monitorPeer(peer peer.Peer) {
 			case pn := <-pongCh:
 				if pn != nonce {
 					logrus.Errorf("nonce doesn't match for %s: want %d, got %d", peer, nonce, pn)
-					n.DisconCh <- peer.ID()
+					n.notifyDisconnected(peer.ID())
 					return
 				}
 				logrus.Debugf("got 'pong' from %s", peer)
 			case <-t.C:
-				n.DisconCh <- peer.ID()
+				n.notifyDisconnected(peer.ID())
+				return
+			case <-n.quit:
+				t.Stop()
 				return
 			}
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 714105b..d2569f4 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -3,6 +3,7 @@ package node
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"github.com/sirupsen/logrus"
 	log "github.com/sirupsen/logrus"
@@ -21,6 +22,9 @@ const (
 	pingTimeoutSec  = 60
 )
 
+// ErrNodeStopped is returned if the node is stopped before it is synced
+var ErrNodeStopped = errors.New("node stopped")
+
 type NodeService interface {
 	Start(initialOutboundPeerAddr string) error
 	Stop() error
@@ -50,7 +54,9 @@ type node struct {
 
 	memPool MemPool
 
+	//quit is closed when the node is stopped
 	quit       chan struct{}
+	stopOnce   sync.Once
 	syncedChan chan struct{}
 
 	notifySyncedOnce sync.Once
@@ -137,14 +143,19 @@ func (n *node) Start(initialOutboundPeerAddr string) error {
 
 	n.memPool.Start()
 
-	<-n.syncedChan
-
-	return nil
+	select {
+	case <-n.syncedChan:
+		return nil
+	case <-n.quit:
+		return ErrNodeStopped
+	}
 }
 
 func (n *node) Stop() error {
-	n.memPool.Stop()
-	close(n.quit)
+	n.stopOnce.Do(func() {
+		close(n.quit)
+		n.memPool.Stop()
+	})
 	return nil
 }
 
@@ -174,11 +185,22 @@ func (n *node) handlePeerMessages(p peer.Peer) {
 	tmp := make([]byte, protocol.MsgHeaderLength)
 	conn := p.Connection()
 
+	//the connection is closed when the loop ends, stopping the node ends the loop
+	done := make(chan struct{})
+	defer close(done)
+	go func() {
+		select {
+		case <-n.quit:
+		case <-done:
+		}
+		conn.Close()
+	}()
+
 Loop:
 	for {
 		if _, err := io.ReadFull(conn, tmp); err != nil {
 			logrus.Errorf(err.Error())
-			n.DisconCh <- p.ID()
+			n.notifyDisconnected(p.ID())
 			break Loop
 		}
 
@@ -278,6 +300,14 @@ func (n *node) sendMessage(conn io.Writer, msg *protocol.Message) error {
 	return err
 }
 
+// ask the monitor of the peers to disconnect the peer.
+func (n *node) notifyDisconnected(peerID peer.PeerID) {
+	select {
+	case n.DisconCh <- peerID:
+	case <-n.quit:
+	}
+}
+
 // on disconnect, remove the peer from the node.
 // and close the connection.
 func (n *node) disconnectPeer(peerID peer.PeerID) {
-- 
2.43.0


From 01db00204fc8cae53c05eb98dbf4146940fc86d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:38 +0000
Subject: [PATCH 21/49] fix: node: a header that could not be stored does not
 leave a gap below the next ones

---
 pkg/node/node.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/node/node.go b/pkg/node/node.go
index d2569f4..effbd99 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -333,6 +333,12 @@ func (n *node) monitorBlockHeaders() {
 		case <-n.quit:
 			return
 		case newHeader := <-n.blockHeadersCh:
+			//a header which could not be stored must not leave a gap
+			if !n.extendsChain(newHeader) {
+				logrus.Errorf("header %d does not extend the stored chain", newHeader.Height)
+				continue
+			}
+
 			err := n.blockHeadersDb.WriteHeaders(context.Background(), newHeader)
 			if err != nil {
 				logrus.Error(err)
@@ -370,6 +376,16 @@ func (n *node) monitorBlockHeaders() {
 	}
 }
 
+// extendsChain returns false if storing the header would leave a gap below it.
+func (n *node) extendsChain(header block.Header) bool {
+	tip, err := n.blockHeadersDb.ChainTip(context.Background())
+	if err != nil {
+		return err == repository.ErrNoBlocksHeaders && header.Height <= 1
+	}
+
+	return header.Height <= tip.Height+1
+}
+
 // monitorCFilters monitors new cfilters comming from peers.
 func (n *node) monitorCFilters() {
 	for {
-- 
2.43.0


From 7e900f9d575db6b40ee66b5b8eeb7bc1d9233351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:38 +0000
Subject: [PATCH 22/49] fix: node: a block confirms its transactions also if
 its header is already stored

---
 pkg/node/cmd_block.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 5543108..a8a06f1 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -24,6 +24,9 @@ func (n *node) handleBlock(payload io.Reader, p peer.Peer) error {
 		return err
 	}
 
+	//whatever is known of its header, the transactions of the block are confirmed
+	n.memPool.CheckTxConfirmed(msgBlock.Block)
+
 	tip, err := n.blockHeadersDb.ChainTip(context.Background())
 	if err != nil {
 		if err == repository.ErrNoBlocksHeaders {
@@ -56,7 +59,5 @@ func (n *node) handleBlock(payload io.Reader, p peer.Peer) error {
 	case <-n.quit:
 		return ErrNodeStopped
 	}
-	n.memPool.CheckTxConfirmed(msgBlock.Block)
-
 	return nil
 }
-- 
2.43.0


From 2f1604b2cbfa9381f31ca098273c635f8393a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 23/49] fix: node: a transaction is sent to all the peers even
 if one of them fails

---
 pkg/node/node.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/node/node.go b/pkg/node/node.go
index effbd99..88862c8 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -426,11 +426,11 @@ func (n *node) SendTransaction(txhex string) error {
 	defer n.peersMutex.RUnlock()
 
 	for _, peer := range n.Peers {
-		err = n.sendMessage(peer.Connection(), msg)
-		if err != nil {
-			return err
+		//a failing peer must not prevent the others from getting the transaction
+		if sendErr := n.sendMessage(peer.Connection(), msg); sendErr != nil {
+			err = sendErr
 		}
 	}
 
-	return nil
+	return err
 }
-- 
2.43.0


From 5c0127be57534394f5fcb734010a40b61a380c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 24/49] fix: inmemory: each header is stored on its own, an
 unknown hash is an error

---
 .../infrastructure/storage/db/inmemory/header_inmemory.go  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/inmemory/header_inmemory.go b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
index 72b9ff3..5fd4599 100644
--- a/internal/infrastructure/storage/db/inmemory/header_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
@@ -72,7 +72,9 @@ func (h *headerInmemory) WriteHeaders(_ context.Context, headers ...block.Header
 	h.locker.Lock()
 	defer h.locker.Unlock()
 
-	for _, header := range headers {
+	for _, v := range headers {
+		//each entry of the map needs a header of its own
+		header := v
 		hash, err := header.Hash()
 		if err != nil {
 			logrus.Error(err)
@@ -165,6 +167,9 @@ func (h *headerInmemory) HasAllAncestors(_ context.Context, hash chainhash.Hash)
 	}
 
 	blockHeader := h.headers[hash]
+	if blockHeader == nil {
+		return false, repository.ErrBlockNotFound
+	}
 
 	for blockHeader.Height > 1 {
 		currentHash, err := chainhash.NewHash(blockHeader.PrevBlockHash)
-- 
2.43.0


From 0905a695c7ca16a391b57fa32a5a98a41ebfb191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 25/49] fix: pg: errors which do not come from the server do
 not panic

---
 internal/infrastructure/storage/db/pg/filter_repository_impl.go | 2 +-
 internal/infrastructure/storage/db/pg/header_repository_impl.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/filter_repository_impl.go b/internal/infrastructure/storage/db/pg/filter_repository_impl.go
index d38871f..1c84275 100644
--- a/internal/infrastructure/storage/db/pg/filter_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/filter_repository_impl.go
@@ -49,7 +49,7 @@ func (f filterRepositoryImpl) PutFilter(
 		&filter,
 	)
 	if err != nil {
-		if pqErr := err.(*pq.Error); pqErr != nil {
+		if pqErr, ok := err.(*pq.Error); ok {
 			if pqErr.Code == uniqueViolation {
 				f, err := f.GetFilter(ctx, entry.Key)
 				if err != nil {
diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index 65a9ccf..7838fc9 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -123,7 +123,7 @@ func (h *headerRepositoryImpl) WriteHeaders(
 		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes);`
 
 		if _, err = tx.NamedExec(query, bh); err != nil {
-			if pqErr := err.(*pq.Error); pqErr != nil {
+			if pqErr, ok := err.(*pq.Error); ok {
 				if pqErr.Code == uniqueViolation {
 					log.Warnf("header already exists: %s", hash.String())
 					return nil
-- 
2.43.0


From c7e5ebf8dc6fee525f52d0fabf8d9455bcf07727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:07 +0000
Subject: [PATCH 26/49] fix: pg: an already stored header does not undo the
 rest of its batch

---
 .../storage/db/pg/header_repository_impl.go      | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index 7838fc9..82fd621 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -7,7 +7,6 @@ import (
 	"github.com/btcsuite/btcd/blockchain"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/btcsuite/btcd/wire"
-	"github.com/lib/pq"
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
@@ -120,17 +119,16 @@ func (h *headerRepositoryImpl) WriteHeaders(
 			HeaderBytes: headerBytes,
 		}
 
-		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes);`
+		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes) ON CONFLICT DO NOTHING;`
 
-		if _, err = tx.NamedExec(query, bh); err != nil {
-			if pqErr, ok := err.(*pq.Error); ok {
-				if pqErr.Code == uniqueViolation {
-					log.Warnf("header already exists: %s", hash.String())
-					return nil
-				}
-			}
+		//a header which already exists must not undo the rest of the batch
+		res, err := tx.NamedExec(query, bh)
+		if err != nil {
 			return err
 		}
+		if n, err := res.RowsAffected(); err == nil && n == 0 {
+			log.Warnf("header already exists: %s", hash.String())
+		}
 	}
 
 	return tx.Commit()
-- 
2.43.0


From f1d352e8687c06f0e8ac5ea2d4e07283c492a446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:15 +0000
Subject: [PATCH 27/49] fix: pg: unknown heights and failing queries are errors
 of the lookups

---
 .../storage/db/pg/header_repository_impl.go            | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index 82fd621..cb7ecf2 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -219,7 +219,10 @@ func (h *headerRepositoryImpl) blockLocatorFromHash(blck *block.Header) (blockch
 	height := blck.Height
 	decrement := uint32(1)
 	for height > 0 && len(locator) < wire.MaxBlockLocatorsPerMsg {
-		blockHeader, _ := headersMap[height]
+		blockHeader, ok := headersMap[height]
+		if !ok {
+			return nil, repository.ErrBlockNotFound
+		}
 
 		headerHash, err := blockHeader.Hash()
 		if err != nil {
@@ -251,7 +254,7 @@ func (h *headerRepositoryImpl) getBlockHeaderByHeight(height uint32) (*block.Hea
 	err := h.db.Db.Get(blockHeader, query, height)
 	if err != nil {
 		if err == sql.ErrNoRows {
-			return nil, repository.ErrNoBlocksHeaders
+			return nil, repository.ErrBlockNotFound
 		}
 
 		return nil, err
@@ -273,6 +276,9 @@ func (h *headerRepositoryImpl) getAllBlockHeaders() ([]*block.Header, error) {
 	if err == sql.ErrNoRows {
 		return nil, repository.ErrNoBlocksHeaders
 	}
+	if err != nil {
+		return nil, err
+	}
 
 	var headers []*block.Header
 	for _, v := range blockHeaders {
-- 
2.43.0


From 182ac262a0ee0693d71e8a3f94658f1ff3c6ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:15 +0000
Subject: [PATCH 28/49] fix: repository: computing the key of a filter does not
 write behind the block hash

---
 pkg/repository/filter_repository.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/repository/filter_repository.go b/pkg/repository/filter_repository.go
index e132e10..6cc109e 100644
--- a/pkg/repository/filter_repository.go
+++ b/pkg/repository/filter_repository.go
@@ -53,6 +53,8 @@ type FilterKey struct {
 }
 
 func (k FilterKey) String() string {
-	hashedKey := btcutil.Hash160(append(k.BlockHash, byte(k.FilterType)))
+	//the block hash is copied: appending could overwrite what follows it
+	key := append(make([]byte, 0, len(k.BlockHash)+1), k.BlockHash...)
+	hashedKey := btcutil.Hash160(append(key, byte(k.FilterType)))
 	return hex.EncodeToString(hashedKey[:6])
 }
-- 
2.43.0


From 9620289d920e603f18e58a73fc4a2d85b1de3606 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:44:01 +0000
Subject: [PATCH 29/49] fix: notification: a descriptor which cannot be watched
 does not end all registrations

---
 internal/core/application/notification_service.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 025786b..23b7cda 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -126,12 +126,11 @@ func (n *notificationService) handleSubscribers() {
 				sub.Events,
 				sub.BlockHeight,
 			); err != nil {
+				//the other subscribers are not affected
 				n.subsErrorReport <- SubscriberErrorReport{
 					SubscriberID: sub.ID,
 					ErrorMsg:     err,
 				}
-
-				return
 			}
 		case sub := <-n.unregisterSubs:
 			delete(n.subscribers, sub.ID)
-- 
2.43.0


From 7095fd41f835e8972d622086571a410948483263 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:44:23 +0000
Subject: [PATCH 30/49] fix: notification: subscriptions exist when Subscribe
 returns and end with UnSubscribe

---
 .../core/application/notification_service.go  | 78 +++++++++++++------
 1 file changed, 56 insertions(+), 22 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 23b7cda..d31cc62 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -6,6 +6,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
 	"runtime/debug"
+	"sync"
 )
 
 type NotificationService interface {
@@ -17,16 +18,23 @@ type NotificationService interface {
 	ErrorReport() chan SubscriberErrorReport
 }
 
+// subscription is one request of a subscriber
+type subscription struct {
+	requestID  uuid.UUID
+	subscriber Subscriber
+}
+
 type notificationService struct {
-	// subscribers is a map of subscriber IDs and Subscribers with wallet descriptors
-	subscribers map[SubscriberID]Subscriber
+	// subscriptions is a map of the IDs of the watched requests and the
+	// subscribers which registered them
+	subscriptions map[uuid.UUID]SubscriberID
+	// subscriptionsLock is a mutex for subscriptions map
+	subscriptionsLock sync.RWMutex
 	// scannerSvc is the scanner service used to watch on-chain events
 	scannerSvc scanner.Service
 
 	// registerSubs is a channel used to register subscribers
-	registerSubs chan Subscriber
-	// unregisterSubs is a channel used to unregister subscribers
-	unregisterSubs chan Subscriber
+	registerSubs chan subscription
 
 	// subsEventReport is a channel used to report events to subscribers
 	subsEventReport chan SubscriberEventReport
@@ -43,10 +51,9 @@ func NewNotificationService(
 	scannerSvc scanner.Service,
 ) NotificationService {
 	return &notificationService{
-		subscribers:             make(map[SubscriberID]Subscriber),
+		subscriptions:           make(map[uuid.UUID]SubscriberID),
 		scannerSvc:              scannerSvc,
-		registerSubs:            make(chan Subscriber),
-		unregisterSubs:          make(chan Subscriber),
+		registerSubs:            make(chan subscription),
 		subsEventReport:         make(chan SubscriberEventReport),
 		subsErrorReport:         make(chan SubscriberErrorReport),
 		quitHandleOnChainEvents: make(chan struct{}),
@@ -93,8 +100,13 @@ func (n *notificationService) handleOnChainEvents(scannerReport <-chan scanner.R
 	for {
 		select {
 		case report := <-scannerReport:
+			subscriberID, ok := n.subscriberOf(report.Request.ClientID)
+			if !ok {
+				continue
+			}
+
 			n.subsEventReport <- SubscriberEventReport{
-				SubscriberID: SubscriberID(report.Request.ClientID),
+				SubscriberID: subscriberID,
 				EventType:    report.Request.Item.EventType(),
 				BlockHeight:  int(report.BlockHeight),
 				BlockHash:    report.BlockHash,
@@ -117,11 +129,10 @@ func (n *notificationService) handleSubscribers() {
 
 	for {
 		select {
-		case sub := <-n.registerSubs:
-			n.subscribers[sub.ID] = sub
-
+		case s := <-n.registerSubs:
+			sub := s.subscriber
 			if err := n.scannerSvc.WatchDescriptorWallet(
-				uuid.UUID(sub.ID),
+				s.requestID,
 				sub.WalletDescriptor,
 				sub.Events,
 				sub.BlockHeight,
@@ -132,8 +143,6 @@ func (n *notificationService) handleSubscribers() {
 					ErrorMsg:     err,
 				}
 			}
-		case sub := <-n.unregisterSubs:
-			delete(n.subscribers, sub.ID)
 		case <-n.quitHandleSubscribers:
 			log.Debug("notificationService -> handleSubscribers stopped")
 			return
@@ -148,22 +157,47 @@ func (n *notificationService) Subscribe(
 		return err
 	}
 
+	s := subscription{
+		requestID:  uuid.New(),
+		subscriber: subscriber,
+	}
+
+	n.subscriptionsLock.Lock()
+	n.subscriptions[s.requestID] = subscriber.ID
+	n.subscriptionsLock.Unlock()
+
 	go func() {
-		n.registerSubs <- subscriber
+		n.registerSubs <- s
 	}()
 
 	return nil
 }
 
+// UnSubscribe ends all the subscriptions of the subscriber: the scanner keeps
+// watching but its reports are not forwarded anymore.
 func (n *notificationService) UnSubscribe(subscriber Subscriber) error {
-	_, ok := n.subscribers[subscriber.ID]
-	if !ok {
+	n.subscriptionsLock.Lock()
+	defer n.subscriptionsLock.Unlock()
+
+	found := false
+	for requestID, subscriberID := range n.subscriptions {
+		if subscriberID == subscriber.ID {
+			delete(n.subscriptions, requestID)
+			found = true
+		}
+	}
+	if !found {
 		return errors.New("subscriber not found")
 	}
 
-	go func() {
-		n.unregisterSubs <- subscriber
-	}()
-
 	return nil
 }
+
+// subscriberOf returns the subscriber which registered the request.
+func (n *notificationService) subscriberOf(requestID uuid.UUID) (SubscriberID, bool) {
+	n.subscriptionsLock.RLock()
+	defer n.subscriptionsLock.RUnlock()
+
+	subscriberID, ok := n.subscriptions[requestID]
+	return subscriberID, ok
+}
-- 
2.43.0


From 6f01a5d75dba326b14454882d730053f1473ba32 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:44:24 +0000
Subject: [PATCH 31/49] fix: notification: Stop ends the service whatever it is
 waiting for

---
 .../core/application/notification_service.go  | 43 +++++++++++--------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index d31cc62..8021636 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -41,23 +41,22 @@ type notificationService struct {
 	// subsErrorReport is a channel used to report errors to subscribers
 	subsErrorReport chan SubscriberErrorReport
 
-	// quitHandleOnChainEvents is a channel used to stop handleOnChainEvents
-	quitHandleOnChainEvents chan struct{}
-	// quitHandleOnChainEvents is a channel used to stop handleOnChainEvents
-	quitHandleSubscribers chan struct{}
+	// quit is closed to stop handleOnChainEvents and handleSubscribers, whatever
+	// they are waiting for
+	quit     chan struct{}
+	stopOnce sync.Once
 }
 
 func NewNotificationService(
 	scannerSvc scanner.Service,
 ) NotificationService {
 	return &notificationService{
-		subscriptions:           make(map[uuid.UUID]SubscriberID),
-		scannerSvc:              scannerSvc,
-		registerSubs:            make(chan subscription),
-		subsEventReport:         make(chan SubscriberEventReport),
-		subsErrorReport:         make(chan SubscriberErrorReport),
-		quitHandleOnChainEvents: make(chan struct{}),
-		quitHandleSubscribers:   make(chan struct{}),
+		subscriptions:   make(map[uuid.UUID]SubscriberID),
+		scannerSvc:      scannerSvc,
+		registerSubs:    make(chan subscription),
+		subsEventReport: make(chan SubscriberEventReport),
+		subsErrorReport: make(chan SubscriberErrorReport),
+		quit:            make(chan struct{}),
 	}
 }
 
@@ -85,8 +84,7 @@ func (n *notificationService) ErrorReport() chan SubscriberErrorReport {
 
 func (n *notificationService) Stop() {
 	log.Debug("sss")
-	n.quitHandleOnChainEvents <- struct{}{}
-	n.quitHandleSubscribers <- struct{}{}
+	n.stopOnce.Do(func() { close(n.quit) })
 	log.Debug("sssdsds")
 }
 
@@ -105,14 +103,17 @@ func (n *notificationService) handleOnChainEvents(scannerReport <-chan scanner.R
 				continue
 			}
 
-			n.subsEventReport <- SubscriberEventReport{
+			select {
+			case n.subsEventReport <- SubscriberEventReport{
 				SubscriberID: subscriberID,
 				EventType:    report.Request.Item.EventType(),
 				BlockHeight:  int(report.BlockHeight),
 				BlockHash:    report.BlockHash,
 				Transaction:  report.Transaction,
+			}:
+			case <-n.quit:
 			}
-		case <-n.quitHandleOnChainEvents:
+		case <-n.quit:
 			log.Debug("notificationService -> handleOnChainEvents stopped")
 			return
 		}
@@ -138,12 +139,15 @@ func (n *notificationService) handleSubscribers() {
 				sub.BlockHeight,
 			); err != nil {
 				//the other subscribers are not affected
-				n.subsErrorReport <- SubscriberErrorReport{
+				select {
+				case n.subsErrorReport <- SubscriberErrorReport{
 					SubscriberID: sub.ID,
 					ErrorMsg:     err,
+				}:
+				case <-n.quit:
 				}
 			}
-		case <-n.quitHandleSubscribers:
+		case <-n.quit:
 			log.Debug("notificationService -> handleSubscribers stopped")
 			return
 		}
@@ -167,7 +171,10 @@ func (n *notificationService) Subscribe(
 	n.subscriptionsLock.Unlock()
 
 	go func() {
-		n.registerSubs <- s
+		select {
+		case n.registerSubs <- s:
+		case <-n.quit:
+		}
 	}()
 
 	return nil
-- 
2.43.0


From 3b840fbe1e3cdf47efee0dbc35c6a8ad73169dd2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:44:24 +0000
Subject: [PATCH 32/49] fix: web-socket: an event of a disconnected subscriber
 does not end the notifications

---
 .../interface/web-socket/handler/notification_handler.go   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index fd4b6e8..c8157a6 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -111,6 +111,10 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 		select {
 		case eventReport := <-d.notificationSvc.EventReport():
 			subscriber := d.getSubscriberSafe(SubscriberID(eventReport.SubscriberID))
+			if subscriber == nil {
+				log.Debugf("event of subscriber: %v, which is gone", eventReport.SubscriberID)
+				continue
+			}
 
 			eventType, err := neutrinodtypes.FromScannerEventTypeToNeutrinodType(eventReport.EventType)
 			if err != nil {
@@ -159,6 +163,9 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			)
 
 			subscriber := d.getSubscriberSafe(SubscriberID(errReport.SubscriberID))
+			if subscriber == nil {
+				continue
+			}
 
 			response := neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: errReport.ErrorMsg.Error(),
-- 
2.43.0


From 7655396c550b73bf0959a60619211d24cf1c6423 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:46:35 +0000
Subject: [PATCH 33/49] fix: web-socket: messages to a subscriber are written
 one at a time

The replies are written by the goroutine which reads the requests and the
events by the one which handles the notifications: the connection does not
support concurrent writers. A subscriber which stopped reading held up the
notifications of all the others for good; its connection is closed now when a
write does not end in time.
---
 .../handler/notification_handler.go           |  5 +++--
 .../interface/web-socket/handler/types.go     |  4 ++++
 .../web-socket/handler/ws_handler.go          | 20 +++++++++++++------
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index c8157a6..b122c2c 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -15,6 +15,7 @@ import (
 
 const (
 	maxMessageSize = 512
+	writeTimeout   = 10 * time.Second
 
 	wsType   SubscriberType = "ws"
 	httpType SubscriberType = "http"
@@ -130,7 +131,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			switch subscriber.Type() {
 			case wsType:
 				wsSubscriber := subscriber.(*WsSubscriber)
-				if err := sendResponseToSubscriberWs(*wsSubscriber, response); err != nil {
+				if err := sendResponseToSubscriberWs(wsSubscriber, response); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
 					continue
 				}
@@ -174,7 +175,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			switch subscriber.Type() {
 			case wsType:
 				wsSubscriber := subscriber.(*WsSubscriber)
-				if err := sendResponseToSubscriberWs(*wsSubscriber, response); err != nil {
+				if err := sendResponseToSubscriberWs(wsSubscriber, response); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
 					continue
 				}
diff --git a/internal/interface/web-socket/handler/types.go b/internal/interface/web-socket/handler/types.go
index c5db394..dad2d18 100644
--- a/internal/interface/web-socket/handler/types.go
+++ b/internal/interface/web-socket/handler/types.go
@@ -3,6 +3,7 @@ package handler
 import (
 	"github.com/google/uuid"
 	"github.com/gorilla/websocket"
+	"sync"
 )
 
 type SubscriberID uuid.UUID
@@ -17,6 +18,9 @@ type Subscriber interface {
 type WsSubscriber struct {
 	ID           SubscriberID
 	WsConnection *websocket.Conn
+	// writeLock is a mutex for writing to WsConnection, which does not allow
+	// concurrent writers
+	writeLock sync.Mutex
 }
 
 func (w *WsSubscriber) Type() SubscriberType {
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 6906d2d..8461e29 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -12,6 +12,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
 	"net/http"
 	"runtime/debug"
+	"time"
 )
 
 func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestWs(
@@ -86,7 +87,7 @@ msgloop:
 			if err != nil {
 				log.Errorf("unsucesfull conversion FromNeutrinodTypeToScannerEventType %v", err)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: "irregular event type",
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -109,7 +110,7 @@ msgloop:
 			}); err != nil {
 				log.Errorf("unsucesfull registration: %v, subscriber: %v", err, subsID)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -118,7 +119,7 @@ msgloop:
 			}
 			log.Infof("sucesfull registration, subscriber: %v", subsID)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.GeneralMessageResponse{
 				Message: "successfully registered",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -130,7 +131,7 @@ msgloop:
 			}); err != nil {
 				log.Errorf("unsucesfull un-registration: %v, subscriber: %v", err, subsID)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -140,7 +141,7 @@ msgloop:
 
 			log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.GeneralMessageResponse{
 				Message: "successfully un-registered",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -156,7 +157,7 @@ func sendResponseToSubscriberWs[
 	V neutrinodtypes.MessageErrorResponse |
 		neutrinodtypes.OnChainEventResponse |
 		neutrinodtypes.GeneralMessageResponse](
-	subscriber WsSubscriber,
+	subscriber *WsSubscriber,
 	resp V,
 ) error {
 	defer func() {
@@ -171,7 +172,14 @@ func sendResponseToSubscriberWs[
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
 
+	subscriber.writeLock.Lock()
+	defer subscriber.writeLock.Unlock()
+
+	//a subscriber which does not read its messages does not hold up the others:
+	//a connection whose write failed can't be used anymore
+	_ = subscriber.WsConnection.SetWriteDeadline(time.Now().Add(writeTimeout))
 	if err = subscriber.WsConnection.WriteMessage(websocket.TextMessage, r); err != nil {
+		subscriber.WsConnection.Close()
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
 
-- 
2.43.0


From ca3ef925109861500106bbd622494afa295b47b0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:47:01 +0000
Subject: [PATCH 34/49] fix: handler: registering a subscriber does not depend
 on another goroutine

A request of a new web-socket connection was handled before the connection was
registered: looking it up panicked and the connection was closed. After Stop
the goroutines of the connections, and Stop itself, waited forever for the
goroutine which registered the subscribers. A connection which ended with
malformed json stayed registered.
---
 .../web-socket/handler/http_handler.go        |  4 +-
 .../handler/notification_handler.go           | 49 ++++++-------------
 .../web-socket/handler/ws_handler.go          | 19 +++----
 3 files changed, 26 insertions(+), 46 deletions(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 8894a8f..1e0ad16 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -22,10 +22,10 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 	}
 
 	subsID := uuid.New()
-	d.registerSubs <- &HttpSubscriber{
+	d.registerSubscriber(&HttpSubscriber{
 		ID:          SubscriberID(subsID),
 		EndpointUrl: subscriptionReq.EndpointUrl,
-	}
+	})
 
 	switch subscriptionReq.ActionType {
 	case neutrinodtypes.Register:
diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index b122c2c..d96e760 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -33,15 +33,10 @@ type descriptorWalletNotifierHandler struct {
 	subscribers map[SubscriberID]Subscriber
 	// subscribersLock is a mutex for subscribers map
 	subscribersLock *sync.RWMutex
-	// registerSubs is a channel for registering subscribers
-	registerSubs chan Subscriber
-	// unregisterSubs is a channel for unregistering subscribers
-	unregisterSubs chan Subscriber
-
-	// quit is a channel for stopping handleSubscribers
-	quitHandleSubscribers chan struct{}
-	// quit is a channel for stopping handleSubscribers
+
+	// quitHandleOnChainNotifications is closed to stop handleOnChainNotifications
 	quitHandleOnChainNotifications chan struct{}
+	stopOnce                       sync.Once
 }
 
 type DescriptorWalletNotifierHandler interface {
@@ -58,46 +53,34 @@ func NewDescriptorWalletNotifierHandler(
 		notificationSvc:                notificationSvc,
 		subscribers:                    make(map[SubscriberID]Subscriber),
 		subscribersLock:                new(sync.RWMutex),
-		registerSubs:                   make(chan Subscriber),
-		unregisterSubs:                 make(chan Subscriber),
-		quitHandleSubscribers:          make(chan struct{}),
 		quitHandleOnChainNotifications: make(chan struct{}),
 	}
 }
 
 func (d *descriptorWalletNotifierHandler) Start() {
 	go d.handleOnChainNotifications()
-	go d.handleSubscribers()
 }
 
 func (d *descriptorWalletNotifierHandler) Stop() {
-	d.quitHandleSubscribers <- struct{}{}
-	d.quitHandleOnChainNotifications <- struct{}{}
+	d.stopOnce.Do(func() { close(d.quitHandleOnChainNotifications) })
 	time.Sleep(time.Second) // wait for DescriptorWalletNotifierHandler to stop
 
 	d.notificationSvc.Stop()
 }
 
-func (d *descriptorWalletNotifierHandler) handleSubscribers() {
-	for {
-		select {
-		case sub := <-d.registerSubs:
-			log.Debugf("subscriber: %v, registrated", uuid.UUID(sub.SubscriberID()).String())
-			d.addSubscriberSafe(sub)
-
-		case sub := <-d.unregisterSubs:
-			log.Infof("subscriber: %v, un-registered", uuid.UUID(sub.SubscriberID()).String())
-			d.deleteSubscriberSafe(sub.SubscriberID())
-			if err := d.notificationSvc.UnSubscribe(application.Subscriber{
-				ID: application.SubscriberID(sub.SubscriberID()),
-			}); err != nil {
-				log.Errorf("failed unsubscribing from chain: %v", err.Error())
-			}
+// registerSubscriber registers the subscriber before any request of it is handled
+func (d *descriptorWalletNotifierHandler) registerSubscriber(sub Subscriber) {
+	log.Debugf("subscriber: %v, registrated", uuid.UUID(sub.SubscriberID()).String())
+	d.addSubscriberSafe(sub)
+}
 
-		case <-d.quitHandleSubscribers:
-			log.Debugf("descriptorWalletNotifierHandler -> handleSubscribers stopped")
-			return
-		}
+func (d *descriptorWalletNotifierHandler) unregisterSubscriber(subscriberID SubscriberID) {
+	log.Infof("subscriber: %v, un-registered", uuid.UUID(subscriberID).String())
+	d.deleteSubscriberSafe(subscriberID)
+	if err := d.notificationSvc.UnSubscribe(application.Subscriber{
+		ID: application.SubscriberID(subscriberID),
+	}); err != nil {
+		log.Errorf("failed unsubscribing from chain: %v", err.Error())
 	}
 }
 
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 8461e29..df91df5 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -30,8 +30,15 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestWs(
 }
 
 func (d *descriptorWalletNotifierHandler) handleRequest(conn *websocket.Conn) {
+	subsID := uuid.New()
+	subscriber := &WsSubscriber{
+		ID:           SubscriberID(subsID),
+		WsConnection: conn,
+	}
+
 	defer func() {
 		conn.Close()
+		d.unregisterSubscriber(subscriber.ID)
 		if err := recover(); err != nil {
 			log.Errorf("handleRequest recovered from panic: %v", err)
 			log.Tracef("handleRequest recovered from panic: %v", string(debug.Stack()))
@@ -39,11 +46,7 @@ func (d *descriptorWalletNotifierHandler) handleRequest(conn *websocket.Conn) {
 	}()
 	conn.SetReadLimit(maxMessageSize)
 
-	subsID := uuid.New()
-	d.registerSubs <- &WsSubscriber{
-		ID:           SubscriberID(subsID),
-		WsConnection: conn,
-	}
+	d.registerSubscriber(subscriber)
 
 	log.Debugf("new ws subscriber connected: %v", subsID)
 
@@ -63,10 +66,6 @@ msgloop:
 				log.Warnf("Error reading message: %v\n", err)
 			}
 
-			d.unregisterSubs <- &WsSubscriber{
-				ID: SubscriberID(subsID),
-			}
-
 			return
 		}
 
@@ -79,8 +78,6 @@ msgloop:
 
 		log.Debugf("new message from subscriber: %v", subsID)
 
-		subscriber := d.getSubscriberSafe(SubscriberID(subsID)).(*WsSubscriber)
-
 		events := make([]scanner.EventType, 0, len(wsMsg.EventTypes))
 		for _, v := range wsMsg.EventTypes {
 			eventType, err := neutrinodtypes.FromNeutrinodTypeToScannerEventType(v)
-- 
2.43.0


From fce5eeb172662c30237b2dd83f86d0444b33ed3e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:47:34 +0000
Subject: [PATCH 35/49] fix: handler: every request gets one reply

A request which failed got an error and then the message of a success. A
web-socket request with an unknown action got no reply, and malformed json
closed the connection. Http requests of every kind left a subscriber behind.
---
 .../web-socket/handler/http_handler.go        | 13 +++++++----
 .../web-socket/handler/ws_handler.go          | 23 +++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 1e0ad16..0c72213 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -22,13 +22,14 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 	}
 
 	subsID := uuid.New()
-	d.registerSubscriber(&HttpSubscriber{
-		ID:          SubscriberID(subsID),
-		EndpointUrl: subscriptionReq.EndpointUrl,
-	})
 
 	switch subscriptionReq.ActionType {
 	case neutrinodtypes.Register:
+		d.registerSubscriber(&HttpSubscriber{
+			ID:          SubscriberID(subsID),
+			EndpointUrl: subscriptionReq.EndpointUrl,
+		})
+
 		if err := d.notificationSvc.Subscribe(application.Subscriber{
 			ID:               application.SubscriberID(subsID),
 			BlockHeight:      subscriptionReq.StartBlockHeight,
@@ -41,6 +42,9 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 				ErrorMessage: "un-successful registration",
 			}
 			sendResponseToSubscriberHttp(w, resp)
+
+			d.deleteSubscriberSafe(SubscriberID(subsID))
+			return
 		}
 		log.Infof("sucesfull registration, subscriber: %v", subsID)
 
@@ -58,6 +62,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 				ErrorMessage: "un-successful un-registration",
 			}
 			sendResponseToSubscriberHttp(w, resp)
+			return
 		}
 
 		log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index df91df5..dbf84b4 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -73,7 +73,14 @@ msgloop:
 		wsMsg := &neutrinodtypes.SubscriptionRequestWs{}
 		if err = json.Unmarshal(message, wsMsg); err != nil {
 			log.Warn(err)
-			return
+
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
+				ErrorMessage: "bad request",
+			}); err != nil {
+				log.Errorf("failed sending response to subscriber: %v", err.Error())
+			}
+
+			continue
 		}
 
 		log.Debugf("new message from subscriber: %v", subsID)
@@ -111,8 +118,9 @@ msgloop:
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
 				}
+
+				goto msgloop
 			}
 			log.Infof("sucesfull registration, subscriber: %v", subsID)
 
@@ -132,11 +140,12 @@ msgloop:
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
 				}
+
+				goto msgloop
 			}
 
-			log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
+			log.Infof("sucesfull un-registration, subscriber: %v", subsID)
 
 			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.GeneralMessageResponse{
 				Message: "successfully un-registered",
@@ -146,6 +155,12 @@ msgloop:
 			}
 		default:
 			log.Errorf("unknown action type: %v\n", wsMsg.ActionType)
+
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
+				ErrorMessage: "bad request",
+			}); err != nil {
+				log.Errorf("failed sending response to subscriber: %v", err.Error())
+			}
 		}
 	}
 }
-- 
2.43.0


From 057d6eac20be2ca8079afa44789fcf75f1e44242 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:47:50 +0000
Subject: [PATCH 36/49] fix: http: a webhook can be unregistered

The un-registration looked for a subscriber with an ID created for the request
itself, which never exists. It ends the registrations of the endpoint now.
---
 .../web-socket/handler/http_handler.go        | 28 +++++++++++++++----
 .../handler/notification_handler.go           | 16 +++++++++++
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 0c72213..bc7b709 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -2,6 +2,7 @@ package handler
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/internal/core/application"
@@ -53,10 +54,8 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 		}
 		sendResponseToSubscriberHttp(w, resp)
 	case neutrinodtypes.Unregister:
-		if err := d.notificationSvc.UnSubscribe(application.Subscriber{
-			ID: application.SubscriberID(subsID),
-		}); err != nil {
-			log.Errorf("unsucesfull un-registration: %v, subscriber: %v", err, subsID)
+		if err := d.unregisterEndpoint(subscriptionReq.EndpointUrl); err != nil {
+			log.Errorf("unsucesfull un-registration: %v, endpoint: %v", err, subscriptionReq.EndpointUrl)
 
 			resp := neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: "un-successful un-registration",
@@ -65,7 +64,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 			return
 		}
 
-		log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
+		log.Infof("sucesfull un-registration, endpoint: %v", subscriptionReq.EndpointUrl)
 
 		resp := neutrinodtypes.GeneralMessageResponse{
 			Message: "successful un-registration",
@@ -83,6 +82,25 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 	log.Debugf("new ws subscriber connected: %v", subsID)
 }
 
+// unregisterEndpoint ends all the registrations of the endpoint, a webhook is
+// known to its owner by nothing else
+func (d *descriptorWalletNotifierHandler) unregisterEndpoint(endpointUrl string) error {
+	subscriberIDs := d.takeEndpointSubscribersSafe(endpointUrl)
+	if len(subscriberIDs) == 0 {
+		return errors.New("endpoint not found")
+	}
+
+	for _, subscriberID := range subscriberIDs {
+		if err := d.notificationSvc.UnSubscribe(application.Subscriber{
+			ID: application.SubscriberID(subscriberID),
+		}); err != nil {
+			log.Errorf("failed unsubscribing from chain: %v", err.Error())
+		}
+	}
+
+	return nil
+}
+
 func sendResponseToSubscriberHttp[
 V neutrinodtypes.MessageErrorResponse |
 neutrinodtypes.OnChainEventResponse |
diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index d96e760..4a6c4c0 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -210,3 +210,19 @@ func (d *descriptorWalletNotifierHandler) deleteSubscriberSafe(subscriberID Subs
 
 	delete(d.subscribers, subscriberID)
 }
+
+// takeEndpointSubscribersSafe deletes the subscribers of the endpoint and returns their IDs
+func (d *descriptorWalletNotifierHandler) takeEndpointSubscribersSafe(endpointUrl string) []SubscriberID {
+	d.subscribersLock.Lock()
+	defer d.subscribersLock.Unlock()
+
+	subscriberIDs := make([]SubscriberID, 0)
+	for id, subscriber := range d.subscribers {
+		if httpSubscriber, ok := subscriber.(*HttpSubscriber); ok && httpSubscriber.EndpointUrl == endpointUrl {
+			subscriberIDs = append(subscriberIDs, id)
+			delete(d.subscribers, id)
+		}
+	}
+
+	return subscriberIDs
+}
-- 
2.43.0


From 8cb228de270b9046b1f7d2b76a692d520ed06d76 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:48:07 +0000
Subject: [PATCH 37/49] fix: http: event types are named as documented

The README registers webhooks with names of event types, which could not be
decoded: only numbers were accepted, unknown ones too.
---
 pkg/neutrinod-types/types_http.go | 50 ++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/pkg/neutrinod-types/types_http.go b/pkg/neutrinod-types/types_http.go
index 056de09..fdfed2c 100644
--- a/pkg/neutrinod-types/types_http.go
+++ b/pkg/neutrinod-types/types_http.go
@@ -1,6 +1,9 @@
 package neutrinodtypes
 
-import "github.com/vulpemventures/neutrino-elements/pkg/scanner"
+import (
+	"encoding/json"
+	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
+)
 
 type SubscriptionRequestHttp struct {
 	ActionType       ActionType          `json:"actionType"`
@@ -9,3 +12,48 @@ type SubscriptionRequestHttp struct {
 	StartBlockHeight int                 `json:"startBlockHeight"`
 	EndpointUrl      string              `json:"endpointUrl"`
 }
+
+// UnmarshalJSON accepts the names of the event types and their numbers
+func (s *SubscriptionRequestHttp) UnmarshalJSON(data []byte) error {
+	type request SubscriptionRequestHttp
+	req := struct {
+		*request
+		EventTypes []httpEventType `json:"eventTypes"`
+	}{request: (*request)(s)}
+	if err := json.Unmarshal(data, &req); err != nil {
+		return err
+	}
+
+	s.EventTypes = make([]scanner.EventType, 0, len(req.EventTypes))
+	for _, eventType := range req.EventTypes {
+		s.EventTypes = append(s.EventTypes, scanner.EventType(eventType))
+	}
+
+	return nil
+}
+
+type httpEventType scanner.EventType
+
+func (e *httpEventType) UnmarshalJSON(data []byte) error {
+	var name EventType
+	if err := json.Unmarshal(data, &name); err == nil {
+		eventType, err := FromNeutrinodTypeToScannerEventType(name)
+		if err != nil {
+			return err
+		}
+
+		*e = httpEventType(eventType)
+		return nil
+	}
+
+	var number scanner.EventType
+	if err := json.Unmarshal(data, &number); err != nil {
+		return err
+	}
+	if _, err := FromScannerEventTypeToNeutrinodType(number); err != nil {
+		return err
+	}
+
+	*e = httpEventType(number)
+	return nil
+}
-- 
2.43.0


From 251baaf52090adb1a8bde1541e59a471c88f0dbe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 38/49] fix: neutrinod: the genesis block is the one of the
 network

The scanner was given the genesis block of regtest on every network.
---
 internal/interface/web-socket/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index f35dd11..bb95675 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -57,7 +57,7 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 	}
 	log.Infoln("neutrinod: node is synced with peer")
 
-	genesisBlockHashStr := protocol.GetCheckpoints(protocol.MagicRegtest)[0]
+	genesisBlockHashStr := protocol.GetCheckpoints(protocol.Networks[n.nodeCfg.Network])[0]
 	genesisBlockHash, err := chainhash.NewHashFromStr(genesisBlockHashStr)
 	if err != nil {
 		errC <- err
-- 
2.43.0


From cf74eaf91ea26dfbf227bf360095f881726a62fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:48:25 +0000
Subject: [PATCH 39/49] fix: neutrinod: a start which failed reports its error
 and ends

The second error of a start which went on after the first one blocked it
forever, before anybody could receive the first one.
---
 internal/core/application/notification_service.go | 3 +--
 internal/interface/web-socket/server.go           | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 8021636..8546b54 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -61,13 +61,12 @@ func NewNotificationService(
 }
 
 func (n *notificationService) Start() error {
-	go n.handleSubscribers()
-
 	scannerReport, err := n.scannerSvc.Start()
 	if err != nil {
 		return err
 	}
 
+	go n.handleSubscribers()
 	go n.handleOnChainEvents(scannerReport)
 
 	log.Debug("notification-service started")
diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index bb95675..dc4c31a 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -54,6 +54,7 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 	log.Infoln("neutrinod: waiting for node to sync with peer...")
 	if err := n.nodeSvc.Start(n.peerUrl); err != nil {
 		errC <- err
+		return errC
 	}
 	log.Infoln("neutrinod: node is synced with peer")
 
@@ -61,6 +62,7 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 	genesisBlockHash, err := chainhash.NewHashFromStr(genesisBlockHashStr)
 	if err != nil {
 		errC <- err
+		return errC
 	}
 
 	scannerSvc := scanner.New(
@@ -74,6 +76,7 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 
 	if err := notificationSvc.Start(); err != nil {
 		errC <- err
+		return errC
 	}
 
 	descriptorWalletNotifierSvc := handler.NewDescriptorWalletNotifierHandler(notificationSvc)
-- 
2.43.0


From d78a0cd2cb752c080ae77db75f3e5b32c56b0cd1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 40/49] fix: scanner: a descriptor which is not supported is an
 error

---
 pkg/scanner/scanner.go | 56 ++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 4f633a9..38bc503 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -130,51 +130,53 @@ func (s *scannerService) WatchDescriptorWallet(
 	for _, v := range eventType {
 		switch v {
 		case UnspentUtxo:
-			wallet, err := descriptor.Parse(desc)
+			scripts, err := descriptorScripts(desc)
 			if err != nil {
 				return err
 			}
 
-			var scripts []descriptor.ScriptResponse
-
-			if wallet.IsRange() {
-				scripts, err = wallet.Script(descriptor.WithRange(numOsScripts))
-				if err != nil {
-					return err
-				}
-
-				for _, v := range scripts {
-					s.Watch(
-						WithRequestID(requestID),
-						WithStartBlock(uint32(blockStart)),
-						WithWatchItem(&UnspentWatchItem{
-							outputScript: v.Script,
-						}),
-						WithPersistentWatch(),
-					)
-				}
-			} else {
-				scripts, err = wallet.Script(nil)
-				if err != nil {
-					return err
-				}
-
+			for _, v := range scripts {
 				s.Watch(
 					WithRequestID(requestID),
 					WithStartBlock(uint32(blockStart)),
 					WithWatchItem(&UnspentWatchItem{
-						outputScript: scripts[0].Script,
+						outputScript: v.Script,
 					}),
 					WithPersistentWatch(),
 				)
 			}
-
 		}
 	}
 
 	return nil
 }
 
+// descriptorScripts returns the scripts of the wallet, the first numOsScripts of them if it has a range.
+func descriptorScripts(desc string) (scripts []descriptor.ScriptResponse, err error) {
+	// the parser does not check the bounds of what it splits
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid descriptor: %v", r)
+		}
+	}()
+
+	wallet, err := descriptor.Parse(desc)
+	if err != nil {
+		return nil, err
+	}
+
+	// the parser knows some descriptors which it does not support
+	if wallet == nil {
+		return nil, fmt.Errorf("unsupported descriptor: %s", desc)
+	}
+
+	if wallet.IsRange() {
+		return wallet.Script(descriptor.WithRange(numOsScripts))
+	}
+
+	return wallet.Script(nil)
+}
+
 // requestsManager is responsible to resolve the requests that are waiting for in the queue.
 func (s *scannerService) requestsManager(ch chan<- Report, quitCh <-chan struct{}, doneCh chan<- struct{}) {
 	defer close(doneCh)
-- 
2.43.0


From ef9ac1c6ce79fd44235904532a34086f40f5b661 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 41/49] fix: scanner: watch the wpkh descriptors the
 documentation and the script print

---
 pkg/scanner/scanner.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 38bc503..4445343 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"github.com/google/uuid"
+	"strings"
 
 	"github.com/vulpemventures/go-elements/descriptor"
 
@@ -160,6 +161,12 @@ func descriptorScripts(desc string) (scripts []descriptor.ScriptResponse, err er
 		}
 	}()
 
+	// the parser expects the elements name of the documented wpkh descriptors
+	desc = strings.TrimSpace(desc)
+	if strings.HasPrefix(desc, "wpkh(") {
+		desc = "el" + desc
+	}
+
 	wallet, err := descriptor.Parse(desc)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3ef71edfaa716349236b1dbf7f788f826264e66e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 42/49] fix: scanner: watch a repeated event type once, from a
 height that exists

---
 pkg/scanner/scanner.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 4445343..14cf6f6 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"github.com/google/uuid"
+	"math"
 	"strings"
 
 	"github.com/vulpemventures/go-elements/descriptor"
@@ -128,7 +129,17 @@ func (s *scannerService) WatchDescriptorWallet(
 	eventType []EventType,
 	blockStart int,
 ) error {
+	if blockStart < 0 || int64(blockStart) > math.MaxUint32 {
+		return fmt.Errorf("invalid start block height: %d", blockStart)
+	}
+
+	watched := make(map[EventType]bool)
 	for _, v := range eventType {
+		if watched[v] {
+			continue
+		}
+		watched[v] = true
+
 		switch v {
 		case UnspentUtxo:
 			scripts, err := descriptorScripts(desc)
-- 
2.43.0


From f8ca1b9ba9b27b21666cced31e89909fc26171ce Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 43/49] fix: blockservice: only the complete requested block is
 an answer

---
 pkg/blockservice/service.go | 39 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/pkg/blockservice/service.go b/pkg/blockservice/service.go
index 1271bc7..fbf57e4 100644
--- a/pkg/blockservice/service.go
+++ b/pkg/blockservice/service.go
@@ -3,6 +3,7 @@ package blockservice
 import (
 	"bytes"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"net/http"
 	"time"
@@ -62,10 +63,46 @@ func (b *esploraBlockService) GetBlock(hash *chainhash.Hash) (*block.Block, erro
 		return nil, err
 	}
 
-	block, err := block.NewFromBuffer(bytes.NewBuffer(bodyBytes))
+	block, err := parseBlock(bodyBytes)
 	if err != nil {
 		return nil, err
 	}
 
+	blockHash, err := block.Header.Hash()
+	if err != nil {
+		return nil, err
+	}
+
+	if !blockHash.IsEqual(hash) {
+		return nil, fmt.Errorf("getBlock got block %v instead of %v", blockHash, hash)
+	}
+
 	return block, nil
 }
+
+// parseBlock returns the block serialized in b, which has to be complete.
+func parseBlock(b []byte) (blck *block.Block, err error) {
+	// the deserializer does not check the lengths it reads
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("malformed block: %v", r)
+		}
+	}()
+
+	buf := bytes.NewBuffer(b)
+	blck, err = block.NewFromBuffer(buf)
+	if err != nil {
+		return nil, err
+	}
+
+	// the deserializer fills a field that is cut off with zeros
+	serialized, err := blck.SerializeBlock()
+	if err != nil {
+		return nil, err
+	}
+	if len(serialized) > len(b)-buf.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
+
+	return blck, nil
+}
-- 
2.43.0


From 5f2d842ed2bae8ff8813d4d4f3c3fa2f012f1425 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 44/49] fix: cli: the config state is complete at any moment, a
 damaged one is an error

---
 cmd/neutrino/main.go | 49 +++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/cmd/neutrino/main.go b/cmd/neutrino/main.go
index 76a2b24..4253ace 100644
--- a/cmd/neutrino/main.go
+++ b/cmd/neutrino/main.go
@@ -72,29 +72,28 @@ func getState() (map[string]string, error) {
 	if err != nil {
 		return nil, errors.New("get config state error: try 'config cmd'")
 	}
-	json.Unmarshal(file, &data)
+
+	if err := json.Unmarshal(file, &data); err != nil {
+		return nil, fmt.Errorf("config state %s is damaged, remove it and try 'config cmd': %w", statePath, err)
+	}
 
 	return data, nil
 }
 
 func setState(data map[string]string) error {
 
-	if _, err := os.Stat(neutrinoDataDir); os.IsNotExist(err) {
-		os.Mkdir(neutrinoDataDir, os.ModeDir|0755)
-	}
-
-	file, err := os.OpenFile(statePath, os.O_RDONLY|os.O_CREATE, 0644)
-	if err != nil {
-		return err
-	}
-	err = file.Close()
-	if err != nil {
+	if err := os.MkdirAll(neutrinoDataDir, 0755); err != nil {
 		return err
 	}
 
-	currentData, err := getState()
-	if err != nil {
-		fmt.Println(err)
+	currentData := map[string]string{}
+
+	if _, err := os.Stat(statePath); err == nil {
+		currentData, err = getState()
+		if err != nil {
+			return err
+		}
+	} else if !os.IsNotExist(err) {
 		return err
 	}
 
@@ -104,14 +103,32 @@ func setState(data map[string]string) error {
 	if err != nil {
 		return err
 	}
-	err = ioutil.WriteFile(statePath, jsonString, 0755)
-	if err != nil {
+	if err := writeState(jsonString); err != nil {
 		return fmt.Errorf("writing to file: %w", err)
 	}
 
 	return nil
 }
 
+// writeState replaces the state file, which is complete at any moment
+func writeState(content []byte) error {
+	file, err := ioutil.TempFile(neutrinoDataDir, "state-*.json")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(file.Name())
+
+	_, err = file.Write(content)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(file.Name(), statePath)
+}
+
 func merge(maps ...map[string]string) map[string]string {
 	merge := make(map[string]string, 0)
 	for _, m := range maps {
-- 
2.43.0


From 053023f8ad45dc589b4b8aa89bf9f25dc4f597da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 45/49] fix: peer: a malformed address is refused before a
 connection is made

---
 pkg/peer/peer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index ccae398..61e0741 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -35,12 +35,12 @@ type elementsPeer struct {
 }
 
 func NewElementsPeer(peerAddr string) (Peer, error) {
-	conn, err := net.Dial("tcp", peerAddr)
+	netAddress, err := protocol.ParseNodeAddr(peerAddr)
 	if err != nil {
 		return nil, err
 	}
 
-	netAddress, err := protocol.ParseNodeAddr(peerAddr)
+	conn, err := net.Dial("tcp", peerAddr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 70954289779325393b5366f0302a62e892917123 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 46/49] fix: protocol: the id of a transaction does not depend
 on its witness

---
 pkg/protocol/msg_tx.go | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/pkg/protocol/msg_tx.go b/pkg/protocol/msg_tx.go
index 95056a8..3a4dbab 100644
--- a/pkg/protocol/msg_tx.go
+++ b/pkg/protocol/msg_tx.go
@@ -1,10 +1,7 @@
 package protocol
 
 import (
-	"crypto/sha256"
-	"fmt"
 	"io"
-	"sort"
 
 	"github.com/vulpemventures/go-elements/transaction"
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
@@ -26,19 +23,13 @@ func NewMsgTxFromHex(hex string) (MsgTx, error) {
 
 // Hash returns transaction ID.
 func (tx MsgTx) Hash() ([]byte, error) {
-	serialized, err := tx.MarshalBinary()
-	if err != nil {
-		return nil, fmt.Errorf("tx.MarshalBinary: %+v", err)
-	}
-
-	hash := sha256.Sum256(serialized)
-	hash = sha256.Sum256(hash[:])
+	// the witness is not part of the id
+	hash := tx.TxHash()
 
-	txid := hash[:]
-
-	sort.SliceStable(txid, func(i, j int) bool {
-		return true
-	})
+	txid := make([]byte, 0, len(hash))
+	for i := len(hash) - 1; i >= 0; i-- {
+		txid = append(txid, hash[i])
+	}
 
 	return txid, nil
 }
-- 
2.43.0


From 171a4545f995278c97721b71dd6f509209e0a760 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 47/49] fix: db: user, password and database name may hold any
 character

---
 .../storage/db/pg/db_service.go               | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/db_service.go b/internal/infrastructure/storage/db/pg/db_service.go
index b97435c..1e8d449 100644
--- a/internal/infrastructure/storage/db/pg/db_service.go
+++ b/internal/infrastructure/storage/db/pg/db_service.go
@@ -3,9 +3,11 @@ package dbpg
 import (
 	"context"
 	"database/sql"
-	"fmt"
 	"github.com/go-testfixtures/testfixtures/v3"
 	"github.com/golang-migrate/migrate/v4"
+	"net"
+	"net/url"
+	"strconv"
 	"sync"
 
 	"github.com/golang-migrate/migrate/v4/database/postgres"
@@ -16,11 +18,9 @@ import (
 )
 
 const (
-	postgresDriver             = "postgres"
-	insecureDataSourceTemplate = "postgresql://%s:%s@%s:%d/%s?sslmode=disable"
-	dataSourceTemplate         = "host=%s port=%d user=%s password=%s dbname=%s"
-	postgresDialect            = "postgres"
-	fixturesPath               = "../fixtures"
+	postgresDriver  = "postgres"
+	postgresDialect = "postgres"
+	fixturesPath    = "../fixtures"
 )
 
 var (
@@ -97,14 +97,15 @@ func migrateDb(db *sql.DB, migrationSourceUrl string) error {
 
 // insecureDataSourceStr converts database configuration params to connection string
 func insecureDataSourceStr(dbConfig DbConfig) string {
-	return fmt.Sprintf(
-		insecureDataSourceTemplate,
-		dbConfig.DbUser,
-		dbConfig.DbPassword,
-		dbConfig.DbHost,
-		dbConfig.DbPort,
-		dbConfig.DbName,
-	)
+	dataSource := url.URL{
+		Scheme:   "postgresql",
+		User:     url.UserPassword(dbConfig.DbUser, dbConfig.DbPassword),
+		Host:     net.JoinHostPort(dbConfig.DbHost, strconv.Itoa(dbConfig.DbPort)),
+		Path:     "/" + dbConfig.DbName,
+		RawQuery: "sslmode=disable",
+	}
+
+	return dataSource.String()
 }
 
 // CreateLoader creates loader that is to be used to load fixtures from given
-- 
2.43.0


From eab8c3d7796e909c584825639705ac244c63cb72 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 48/49] fix: neutrinod: a stop signal ends the daemon while it
 waits for the first sync

---
 internal/interface/web-socket/server.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index dc4c31a..06ad525 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -52,7 +52,23 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 	errC := make(chan error, 1)
 
 	log.Infoln("neutrinod: waiting for node to sync with peer...")
-	if err := n.nodeSvc.Start(n.peerUrl); err != nil {
+	synced := make(chan struct{})
+	go func() {
+		select {
+		case <-ctx.Done():
+			//Start does not return before the node is synced or stopped
+			n.nodeSvc.Stop()
+		case <-synced:
+		}
+	}()
+	err := n.nodeSvc.Start(n.peerUrl)
+	close(synced)
+	if err != nil {
+		if err == node.ErrNodeStopped && ctx.Err() != nil {
+			log.Info("neutrinod: shutdown signal received")
+			close(errC)
+			return errC
+		}
 		errC <- err
 		return errC
 	}
-- 
2.43.0


From be9b7391a53b99520322a52d59ec3044ebe9bd47 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 49/49] fix: db: a migration that was interrupted does not keep
 the daemon from starting

---
 internal/infrastructure/storage/db/pg/db_service.go   | 11 ++++++++++-
 .../db/pg/migration/20220721142449_init.up.sql        |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/db_service.go b/internal/infrastructure/storage/db/pg/db_service.go
index 1e8d449..4203284 100644
--- a/internal/infrastructure/storage/db/pg/db_service.go
+++ b/internal/infrastructure/storage/db/pg/db_service.go
@@ -10,6 +10,7 @@ import (
 	"strconv"
 	"sync"
 
+	"github.com/golang-migrate/migrate/v4/database"
 	"github.com/golang-migrate/migrate/v4/database/postgres"
 
 	_ "github.com/golang-migrate/migrate/v4/source/file"
@@ -88,7 +89,15 @@ func migrateDb(db *sql.DB, migrationSourceUrl string) error {
 		return err
 	}
 
-	if err := m.Up(); err != nil && err != migrate.ErrNoChange {
+	err = m.Up()
+	if _, ok := err.(migrate.ErrDirty); ok {
+		//a migration was interrupted, migrations can be repeated
+		if err := m.Force(database.NilVersion); err != nil {
+			return err
+		}
+		err = m.Up()
+	}
+	if err != nil && err != migrate.ErrNoChange {
 		return err
 	}
 
diff --git a/internal/infrastructure/storage/db/pg/migration/20220721142449_init.up.sql b/internal/infrastructure/storage/db/pg/migration/20220721142449_init.up.sql
index 5a2726e..6dbb3ce 100644
--- a/internal/infrastructure/storage/db/pg/migration/20220721142449_init.up.sql
+++ b/internal/infrastructure/storage/db/pg/migration/20220721142449_init.up.sql
@@ -1,10 +1,10 @@
-CREATE TABLE block_header (
+CREATE TABLE IF NOT EXISTS block_header (
     hash varchar(100) PRIMARY KEY,
     height int NOT NULL UNIQUE,
     header_bytes bytea NOT NULL
 );
 
-CREATE TABLE filter(
+CREATE TABLE IF NOT EXISTS filter(
     filter_key   varchar(100) PRIMARY KEY,
     filter_value bytea NOT NULL
 );
-- 
2.43.0

