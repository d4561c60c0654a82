From 9836dc394a000b2f8daf1cde2709f95b7a9ad00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 01/21] fix: node: read the whole peer key during the handshake

conn.Read may return fewer bytes than asked for; the rest of the key was then
taken for the start of the gob stream and the link used a wrong salt.
---
 node/controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/controller.go b/node/controller.go
index 05b7b47..0240719 100644
--- a/node/controller.go
+++ b/node/controller.go
@@ -177,7 +177,7 @@ func (c *controller) handleConn(id string, conn io.ReadWriter) error {
 	if err != nil {
 		return err
 	}
-	_, err = conn.Read(decoderKey[:])
+	_, err = io.ReadFull(conn, decoderKey[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 916a5f3f035c3acc7ca981462146123177cdb84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 02/21] fix: node: do not deadlock between a receiver and the
 controller

A receiver that decoded more transactions than decodedTransaction can hold
blocked on the controller, while the controller blocked handing a transaction to
that very receiver: from then on the node relayed nothing and served no link.
---
 node/receiver.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/node/receiver.go b/node/receiver.go
index 7a1a888..cbd878e 100644
--- a/node/receiver.go
+++ b/node/receiver.go
@@ -38,6 +38,20 @@ func (r *receiver) receive(cw chan<- Codeword) error {
 	}
 }
 
+// deliver hands the decoded transactions to the controller. It keeps accepting
+// new transactions meanwhile: the controller may itself be waiting for us to
+// take one, and would never drain decodedTransaction.
+func (r *receiver) deliver(buf []ldpc.DecodedTransaction) {
+	for len(buf) > 0 {
+		select {
+		case r.decodedTransaction <- buf[0]:
+			buf = buf[1:]
+		case tx := <-r.newTransaction:
+			buf = append(buf, r.decoder.AddTransaction(tx)...)
+		}
+	}
+}
+
 func (r *receiver) decode(cwChan <-chan Codeword) error {
 	ticker := time.NewTicker(1 * time.Second)
 	cwcnt := 0
@@ -71,14 +85,9 @@ func (r *receiver) decode(cwChan <-chan Codeword) error {
 			// try to decode the new codeword
 			stub, buf := r.decoder.AddCodeword(cw.Codeword)
 			r.rxWindow = append(r.rxWindow, receivedCodeword{stub, now})
-			for _, ntx := range buf {
-				r.decodedTransaction <- ntx
-			}
+			r.deliver(buf)
 		case tx := <-r.newTransaction:
-			buf := r.decoder.AddTransaction(tx)
-			for _, ntx := range buf {
-				r.decodedTransaction <- ntx
-			}
+			r.deliver(r.decoder.AddTransaction(tx))
 		case <-ticker.C:
 			qts, err := r.delaySketch.GetValuesAtQuantiles([]float64{0.50, 0.95})
 			if err != nil {
-- 
2.43.0


From 5681457bcb14ca9432887857c4f693f541c119e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:36 +0000
Subject: [PATCH 03/21] fix: node: a failing connection must not take the node
 down

Any error on one connection (reset, end of stream, malformed message) made the
goroutine serving it panic, which killed the process and all its other
connections. Close that connection, end its goroutines and forget the peer.
---
 node/controller.go | 63 ++++++++++++++++++++++++++++++++++++++--------
 node/receiver.go   | 26 ++++++++++++++++---
 node/sender.go     | 19 ++++++++++----
 3 files changed, 90 insertions(+), 18 deletions(-)

diff --git a/node/controller.go b/node/controller.go
index 0240719..943058b 100644
--- a/node/controller.go
+++ b/node/controller.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"log"
 	"math/rand"
+	"sync"
 	"time"
 	"github.com/DataDog/sketches-go/ddsketch"
 )
@@ -14,22 +15,39 @@ import (
 type peer struct {
 	newTxToSender chan<- *ldpc.Transaction
 	newTxToReceiver chan<- *ldpc.Transaction
+	done <-chan struct{} // closed when the connection has failed
+}
+
+func (h *peer) failed() bool {
+	select {
+	case <-h.done:
+		return true
+	default:
+		return false
+	}
 }
 
 func (h *peer) notifyUnexpiredTransaction (t *ldpc.Transaction) {
-	h.newTxToSender <- t
-	h.newTxToReceiver <- t 
+	select {
+	case h.newTxToSender <- t:
+	case <-h.done:
+	}
+	h.notifyExpiredTransaction(t)
 }
 
 func (h *peer) notifyExpiredTransaction(t *ldpc.Transaction) {
-	h.newTxToReceiver <- t 
+	select {
+	case h.newTxToReceiver <- t:
+	case <-h.done:
+	}
 }
 
-func newPeer(id string, conn io.ReadWriter, decoded chan<- ldpc.DecodedTransaction, importTx []*ldpc.Transaction, K, M uint64, solitonC, solitonDelta, initRate, minRate, incConstant, targetLoss float64, decodeTimeout time.Duration, encoderKey [ldpc.SaltSize]byte, decoderKey [ldpc.SaltSize]byte) *peer {
+func newPeer(id string, conn io.ReadWriteCloser, decoded chan<- ldpc.DecodedTransaction, importTx []*ldpc.Transaction, K, M uint64, solitonC, solitonDelta, initRate, minRate, incConstant, targetLoss float64, decodeTimeout time.Duration, encoderKey [ldpc.SaltSize]byte, decoderKey [ldpc.SaltSize]byte) *peer {
 	peerLoss := make(chan int, 100)
 	ourLoss := make(chan int, 100)
 	senderNewTx := make(chan *ldpc.Transaction, 100)
 	receiverNewTx := make(chan *ldpc.Transaction, 100)
+	done := make(chan struct{})
 
 	dist := soliton.NewRobustSoliton(rand.New(rand.NewSource(time.Now().Unix())), K, solitonC, solitonDelta)
 	s := sender{
@@ -43,6 +61,7 @@ func newPeer(id string, conn io.ReadWriter, decoded chan<- ldpc.DecodedTransacti
 		peerLoss:             peerLoss,
 		ourLoss: ourLoss,
 		newTransaction:       senderNewTx,
+		done: done,
 	}
 
 	sketch, err := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
@@ -58,6 +77,7 @@ func newPeer(id string, conn io.ReadWriter, decoded chan<- ldpc.DecodedTransacti
 		ourLoss: ourLoss,
 		decodedTransaction: decoded,
 		newTransaction: receiverNewTx,
+		done: done,
 		timeout:     decodeTimeout,
 		delaySketch: sketch,
 	}
@@ -65,33 +85,43 @@ func newPeer(id string, conn io.ReadWriter, decoded chan<- ldpc.DecodedTransacti
 		r.decoder.AddTransaction(existingTx)
 	}
 
+	// the first error ends this connection, but not the node
+	var once sync.Once
+	fail := func(err error) {
+		once.Do(func() {
+			log.Printf("disconnected from peer %s: %v\n", id, err)
+			close(done)
+			conn.Close()
+		})
+	}
+
 	txCwCh := make(chan Codeword, 1000)
 	go func() {
 		err := s.loop(txCwCh)
 		if err != nil {
-			panic(err)
+			fail(err)
 		}
 	}()
 	go func() {
 		err := s.sendCodewords(txCwCh)
 		if err != nil {
-			panic(err)
+			fail(err)
 		}
 	}()
 	cwCh := make(chan Codeword, 1000)
 	go func() {
 		err := r.receive(cwCh)
 		if err != nil {
-			panic(err)
+			fail(err)
 		}
 	}()
 	go func() {
 		err := r.decode(cwCh)
 		if err != nil {
-			panic(err)
+			fail(err)
 		}
 	}()
-	return &peer{senderNewTx, receiverNewTx}
+	return &peer{senderNewTx, receiverNewTx, done}
 }
 
 type controller struct {
@@ -146,6 +176,7 @@ func (c *controller) loop() error {
 			log.Println("new peer")
 			c.peers = append(c.peers, p)
 		case <-ticker.C:
+			c.dropFailedPeers()
 			log.Printf("total tx %d\n", txcnt)
 			if !warmupFinished {
 				if time.Since(start) > c.warmupTime {
@@ -167,7 +198,17 @@ func (c *controller) loop() error {
 	}
 }
 
-func (c *controller) handleConn(id string, conn io.ReadWriter) error {
+func (c *controller) dropFailedPeers() {
+	live := c.peers[:0]
+	for _, p := range c.peers {
+		if !p.failed() {
+			live = append(live, p)
+		}
+	}
+	c.peers = live
+}
+
+func (c *controller) handleConn(id string, conn io.ReadWriteCloser) error {
 	var encoderKey [ldpc.SaltSize]byte
 	var decoderKey [ldpc.SaltSize]byte
 	rand.Read(encoderKey[:])
@@ -175,10 +216,12 @@ func (c *controller) handleConn(id string, conn io.ReadWriter) error {
 	// send our key
 	_, err := conn.Write(encoderKey[:])
 	if err != nil {
+		conn.Close()
 		return err
 	}
 	_, err = io.ReadFull(conn, decoderKey[:])
 	if err != nil {
+		conn.Close()
 		return err
 	}
 	log.Printf("key exchanged with peer %s, our key %x, peer key %x\n", id, encoderKey[:], decoderKey[:])
diff --git a/node/receiver.go b/node/receiver.go
index cbd878e..ef8595a 100644
--- a/node/receiver.go
+++ b/node/receiver.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"encoding/gob"
+	"errors"
 	"github.com/yangl1996/rateless-set-reconcile/ldpc"
 	"time"
 	"log"
@@ -21,6 +22,7 @@ type receiver struct {
 	ourLoss     chan<- int
 	decodedTransaction chan<- ldpc.DecodedTransaction
 	newTransaction <-chan *ldpc.Transaction
+	done <-chan struct{}
 
 	rxWindow               []receivedCodeword
 	timeout                time.Duration
@@ -34,7 +36,14 @@ func (r *receiver) receive(cw chan<- Codeword) error {
 		if err != nil {
 			return err
 		}
-		cw <- newcw
+		if newcw.Codeword == nil {
+			return errors.New("message without a codeword")
+		}
+		select {
+		case cw <- newcw:
+		case <-r.done:
+			return nil
+		}
 	}
 }
 
@@ -54,9 +63,12 @@ func (r *receiver) deliver(buf []ldpc.DecodedTransaction) {
 
 func (r *receiver) decode(cwChan <-chan Codeword) error {
 	ticker := time.NewTicker(1 * time.Second)
+	defer ticker.Stop()
 	cwcnt := 0
 	for {
 		select {
+		case <-r.done:
+			return nil
 		case cw := <-cwChan:
 			cwcnt += 1
 			now := time.Now()
@@ -74,10 +86,18 @@ func (r *receiver) decode(cwChan <-chan Codeword) error {
 				head.Free()
 				r.rxWindow = r.rxWindow[1:]
 			}
-			r.ourLoss <- loss
+			select {
+			case r.ourLoss <- loss:
+			case <-r.done:
+				return nil
+			}
 			// report the loss of the peer
 			if cw.Loss > 0 {
-				r.peerLoss <- cw.Loss
+				select {
+				case r.peerLoss <- cw.Loss:
+				case <-r.done:
+					return nil
+				}
 			}
 			// record the codeword transmission delay
 			delayms := float64(time.Now().UnixMicro() - cw.UnixMicro) / 1000.0
diff --git a/node/sender.go b/node/sender.go
index d5d0f61..5fa71a8 100644
--- a/node/sender.go
+++ b/node/sender.go
@@ -20,26 +20,35 @@ type sender struct {
 	peerLoss       <-chan int
 	ourLoss        <-chan int
 	newTransaction <-chan *ldpc.Transaction
+	done           <-chan struct{}
 	droppedCodewords int
 	credit float64
 }
 
 func (s *sender) sendCodewords(ch <-chan Codeword) error {
-	for cw := range ch {
-		err := s.tx.Encode(cw)
-		if err != nil {
-			return err
+	for {
+		select {
+		case cw := <-ch:
+			err := s.tx.Encode(cw)
+			if err != nil {
+				return err
+			}
+		case <-s.done:
+			return nil
 		}
 	}
-	return nil
 }
 
 func (s *sender) loop(ch chan<- Codeword) error {
 	sendTicker := time.NewTicker(10 * time.Millisecond)
+	defer sendTicker.Stop()
 	ticker := time.NewTicker(1 * time.Second)
+	defer ticker.Stop()
 	log.Println("sender started")
 	for {
 		select {
+		case <-s.done:
+			return nil
 		case l := <-s.peerLoss:
 			s.cwRate += s.rateIncreaseConstant * float64(l)
 		case l := <-s.ourLoss:
-- 
2.43.0


From 02051d1f293a6e1e7c0f1aaf80cf285fff0739a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 04/21] fix: node: keep accepting while a handshake is in
 progress

The accept loop ran the key exchange itself, so one peer that connects and
never sends its key kept everybody else out.
---
 node/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/main.go b/node/main.go
index 76a5d12..65ffc04 100644
--- a/node/main.go
+++ b/node/main.go
@@ -114,7 +114,7 @@ func main() {
 			if err != nil {
 				log.Println("error accepting incoming connection:", err)
 			} else {
-				c.handleConn(cn.RemoteAddr().String(), cn)
+				go c.handleConn(cn.RemoteAddr().String(), cn)
 			}
 		}
 	}()
-- 
2.43.0


From 8086ceffa0a2c0d22cb1f5c8bf72343e28dd58b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 05/21] fix: lt, iblt: do not peel into the caller's codeword

XOR may modify its receiver, so with a reference transaction type peeling
modified the symbol of the codeword handed to AddCodeword: delivering the same
codeword again, or to another decoder, then decoded garbage or failed.
---
 iblt/decoder.go | 2 +-
 lt/decoder.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iblt/decoder.go b/iblt/decoder.go
index 60f2998..2ed13c1 100644
--- a/iblt/decoder.go
+++ b/iblt/decoder.go
@@ -130,7 +130,7 @@ func (p *Decoder[T]) storeNewTransaction(saltedHash uint32, t Transaction[T]) {
 
 func (p *Decoder[T]) AddCodeword(rawCodeword Codeword[T]) (*PendingCodeword[T], []Transaction[T]) {
 	cw := &PendingCodeword[T]{}
-	cw.symbol = rawCodeword.symbol
+	cw.symbol = cw.symbol.XOR(rawCodeword.symbol) // work on a copy: XOR may modify its receiver
 	for _, member := range rawCodeword.members {
 		pending, pendingExists := p.pendingTransactions[member]
 		received, receivedExists := p.receivedTransactions[member]
diff --git a/lt/decoder.go b/lt/decoder.go
index 0bfdff2..395b0aa 100644
--- a/lt/decoder.go
+++ b/lt/decoder.go
@@ -142,7 +142,7 @@ func (p *Decoder[T]) storeNewTransaction(saltedHash uint32, t Transaction[T]) {
 
 func (p *Decoder[T]) AddCodeword(rawCodeword Codeword[T]) (*PendingCodeword[T], []Transaction[T]) {
 	cw := &PendingCodeword[T]{}
-	cw.symbol = rawCodeword.symbol
+	cw.symbol = cw.symbol.XOR(rawCodeword.symbol) // work on a copy: XOR may modify its receiver
 	for _, member := range rawCodeword.members {
 		pending, pendingExists := p.pendingTransactions[member]
 		received, receivedExists := p.receivedTransactions[member]
-- 
2.43.0


From 4b94a1ab891956e1ab41b6f44be9953f1f08a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 06/21] fix: simulator: visit peers in a fixed order

Iterating over the handlers map made the order of outgoing messages, and with it
every result, differ between runs with the same parameters and seed.
---
 simulator/module.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/simulator/module.go b/simulator/module.go
index 20324fc..e2aa2ca 100644
--- a/simulator/module.go
+++ b/simulator/module.go
@@ -41,6 +41,7 @@ type peer struct {
 
 type server struct {
 	handlers map[des.Module]peer
+	peers []des.Module // keys of handlers, in the order of connection
 	decoder *lt.Decoder[transaction]
 
 	received map[transaction]struct{}
@@ -76,8 +77,15 @@ func (a *server) newHandler() *handler {
 }
 
 func connectServers(a, b *server, delay time.Duration) {
+	a.addPeer(b, delay)
+	b.addPeer(a, delay)
+}
+
+func (a *server) addPeer(b *server, delay time.Duration) {
+	if _, there := a.handlers[b]; !there {
+		a.peers = append(a.peers, b)
+	}
 	a.handlers[b] = peer{a.newHandler(), delay}
-	b.handlers[a] = peer{b.newHandler(), delay}
 }
 
 func newServers(simulator *des.Simulator, n int, startingSeed int64, config serverConfig) []*server {
@@ -102,7 +110,8 @@ func newServers(simulator *des.Simulator, n int, startingSeed int64, config serv
 }
 
 func (s *server) collectOutgoingMessages(outbox []des.OutgoingMessage) []des.OutgoingMessage {
-	for peer, handler := range s.handlers {
+	for _, peer := range s.peers {
+		handler := s.handlers[peer]
 		for _, msg := range handler.sender.outbox {
 			outbox = append(outbox, des.OutgoingMessage{msg, peer, handler.delay})
 		}
@@ -130,7 +139,8 @@ func (s *server) scheduleForwardingTransactions(out []des.OutgoingMessage, txs [
 
 func (s *server) forwardTransaction(tx lt.Transaction[transaction]) {
 	canStartNewBlock := (s.forceSynchronize == 0)
-	for _, handler := range s.handlers {
+	for _, peer := range s.peers {
+		handler := s.handlers[peer]
 		handler.sender.onTransaction(tx, canStartNewBlock)
 	}
 }
@@ -166,7 +176,8 @@ func (s *server) HandleMessage(payload any, from des.Module, timestamp time.Dura
 	} else if lp, isLp := payload.(loopback); isLp {
 		s.forwardTransaction(lp.tx)
 	} else if _, isNb := payload.(createNewBlock); isNb {
-		for _, handler := range s.handlers {
+		for _, peer := range s.peers {
+			handler := s.handlers[peer]
 			handler.sender.tryFillSendWindow(true)
 		}
 		outbox = append(outbox, des.OutgoingMessage{createNewBlock{}, nil, s.forceSynchronize})
-- 
2.43.0


From c323ca68ef59b51fd55de2ed4e4dcffce042529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 07/21] fix: newsim, simulator: divide by the time the counters
 cover

The counters are reset at the first report boundary after the warm-up, up to
a report interval (plus one event) after it ends, but the printed rates were
divided by the time since the end of the warm-up.
---
 newsim/main.go    | 6 ++++--
 simulator/main.go | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/newsim/main.go b/newsim/main.go
index 774d87b..f63d3fd 100644
--- a/newsim/main.go
+++ b/newsim/main.go
@@ -64,6 +64,7 @@ func main() {
 	fmt.Println("#", N, "nodes, node 0 num peers", len(servers[0].handlers))
 
 	warmed := false
+	measureStart := *warmupDuration // when the metrics were last reset
 	numEvents := 0
 	lastSimTime := time.Duration(0)
 	lastRealTime := time.Now()
@@ -73,6 +74,7 @@ func main() {
 		if cur > *warmupDuration {
 			if warmed == false {
 				warmed = true
+				measureStart = s.Time()
 				for _, s := range servers {
 					s.resetMetric()
 				}
@@ -87,10 +89,10 @@ func main() {
 
 	fmt.Println("# moments: mean, stddev, p5, p25, p50, p75, p95")
 	fmt.Println("# received transaction rate", collectMoments(servers, func(srv *server) float64 {
-		return float64(srv.receivedTransactions) / (s.Time() - *warmupDuration).Seconds()
+		return float64(srv.receivedTransactions) / (s.Time() - measureStart).Seconds()
 	}))
 	fmt.Println("# duplicate transaction rate", collectMoments(servers, func(srv *server) float64 {
-		return float64(srv.duplicateTransactions) / (s.Time() - *warmupDuration).Seconds()
+		return float64(srv.duplicateTransactions) / (s.Time() - measureStart).Seconds()
 	}))
 	fmt.Println("# overhead", collectMoments(servers, func(s *server) float64 {
 		return float64(s.receivedBytes) / float64(s.decodedTransactions) / float64(TXSIZE)
diff --git a/simulator/main.go b/simulator/main.go
index 23942e5..8ccc432 100644
--- a/simulator/main.go
+++ b/simulator/main.go
@@ -62,11 +62,13 @@ func main() {
 
 	receivedCodewordRate := difference[int]{}
 	warmed := false
+	measureStart := *warmupDuration // when the metrics were last reset
 	for cur := time.Duration(0); cur < *simDuration; cur += *reportInterval {
 		s.RunUntil(cur)
 		if cur > *warmupDuration {
 			if warmed == false {
 				warmed = true
+				measureStart = s.Time()
 				for _, s := range servers {
 					s.resetMetric()
 				}
@@ -80,7 +82,7 @@ func main() {
 
 	fmt.Println("# moments: mean, stddev, p5, p25, p50, p75, p95")
 	fmt.Println("# decoded transaction rate", collectMoments(servers, func(srv *server) float64 {
-		return float64(srv.decodedTransactions) / (s.Time() - *warmupDuration).Seconds()
+		return float64(srv.decodedTransactions) / (s.Time() - measureStart).Seconds()
 	}))
 	fmt.Println("# overhead", collectMoments(servers, func(s *server) float64 {
 		return float64(s.receivedCodewords) / float64(s.decodedTransactions)
-- 
2.43.0


From ac577205af5bc0fa86a13394ae178c3ab1d8c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 08/21] fix: newsim: start a link even if its sender never has
 a transaction for it

With -flood a server does not put its own transactions on its links, so the
sending end of the only link of a leaf never started the reconciliation and
the leaf never learned the transactions of servers beyond its neighbour.
---
 newsim/coding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/newsim/coding.go b/newsim/coding.go
index e614f08..8475677 100644
--- a/newsim/coding.go
+++ b/newsim/coding.go
@@ -36,6 +36,9 @@ type coding struct {
 
 func (c coding) collectOutgoingMessages(peer des.Module, delay time.Duration, outbox []des.OutgoingMessage) []des.OutgoingMessage {
 	if c.sender != nil {
+		// start the link even if there is never a transaction to send, because
+		// the receiver might have content
+		c.sender.tryFillSendWindow()
 		for _, msg := range c.sender.outbox {
 			outbox = append(outbox, des.OutgoingMessage{msg, peer, delay})
 		}
-- 
2.43.0


From 858d8401451efaf8013a06984c9285768a6915a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 09/21] fix: riblt: do not subtract the default value from a
 sketch cell

Sketch.Subtract passed the sum of a cell that no symbol has touched to XOR. For
symbol types that are references that is nil, and XOR of such a type (the one of
this package's own tests, for example) panics.
---
 riblt/sketch.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riblt/sketch.go b/riblt/sketch.go
index a806420..0d474e5 100644
--- a/riblt/sketch.go
+++ b/riblt/sketch.go
@@ -24,6 +24,11 @@ func (s Sketch[T]) Subtract(s2 Sketch[T]) Sketch[T] {
 	}
 
 	for i := range s {
+		if s2[i].count == 0 && s2[i].checksum == 0 {
+			// nothing to subtract; the sum may still be the default value,
+			// which cannot be passed to XOR
+			continue
+		}
 		s[i].sum = s[i].sum.XOR(s2[i].sum)
 		s[i].count = s[i].count - s2[i].count
 		s[i].checksum = s[i].checksum ^ s2[i].checksum
-- 
2.43.0


From 11e9e175d52c8c11813d1394a20b3ade04684160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 10/21] fix: riblt: decoding a sketch leaves the sketch
 unchanged

The decoder peels in place. When symbols are references, Sketch.Decode handed it
the sums of the sketch itself, so that decoding corrupted the sketch: decoding it
again, or subtracting it again, gave a wrong result.
---
 riblt/sketch.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riblt/sketch.go b/riblt/sketch.go
index 0d474e5..38f8272 100644
--- a/riblt/sketch.go
+++ b/riblt/sketch.go
@@ -39,6 +39,12 @@ func (s Sketch[T]) Subtract(s2 Sketch[T]) Sketch[T] {
 func (s Sketch[T]) Decode() ([]HashedSymbol[T], []HashedSymbol[T], bool) {
 	dec := Decoder[T]{}
 	for _, c := range s {
+		// the decoder works in place; do not let it modify the sketch
+		var sum T
+		if c.count != 0 || c.checksum != 0 {
+			sum = sum.XOR(c.sum)
+		}
+		c.sum = sum
 		dec.AddCodedSymbol(c)
 	}
 	dec.TryDecode()
-- 
2.43.0


From 7b3ee19de7863b5ec355a525f60b408b43231850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 11/21] fix: simulator: never let a block close the send window

With a small threshold the window of a block (block size times control overhead)
could be rounded down to zero, e.g. -th 1 -c 0.7. The link then stalled for ever
after the first codeword of its first block.
---
 simulator/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulator/node.go b/simulator/node.go
index 68ba560..4ffa90b 100644
--- a/simulator/node.go
+++ b/simulator/node.go
@@ -65,6 +65,10 @@ func (n *sender) tryProduceCodeword(mayStartNewBlock bool) (codeword, bool) {
 			// move to the next block
 			blockSize := len(n.buffer)
 			n.sendWindow = int(float64(blockSize) * n.controlOverhead)
+			if n.sendWindow < 1 {
+				// a closed window never opens again
+				n.sendWindow = 1
+			}
 			cw.newBlock = true
 			n.encodingCurrentBlock = true
 			dist := soliton.NewRobustSoliton(n.rng, uint64(blockSize), 0.03, 0.5)
-- 
2.43.0


From 1e75a9ed2494182eeed1f93cd006b3d258595dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 12/21] fix: testbed copies files through the port given for
 the server

The server list gives every server's SSH port, which connectSSH honours;
scp was always run against port 22.
---
 testbed/exp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/testbed/exp.go b/testbed/exp.go
index 7c16d72..a8ceeee 100644
--- a/testbed/exp.go
+++ b/testbed/exp.go
@@ -180,7 +180,7 @@ func runAll(servers []Server, clients []*ssh.Client, fn func(int, Server, *ssh.C
 // TODO: use go-native ssh
 func copyBackFile(s Server, from, dest string) error {
 	fromStr := fmt.Sprintf("%s@%s:%s", s.User, s.PublicIP, from)
-	cmdArgs := []string{"-o", "StrictHostKeyChecking=no", "-o", "UserKnownHostsFile=/dev/null", "-i", s.KeyPath, fromStr, dest}
+	cmdArgs := []string{"-o", "StrictHostKeyChecking=no", "-o", "UserKnownHostsFile=/dev/null", "-P", strconv.Itoa(s.Port), "-i", s.KeyPath, fromStr, dest}
 	proc := exec.Command("scp", cmdArgs...)
 	err := proc.Run()
 	if err != nil {
@@ -191,7 +191,7 @@ func copyBackFile(s Server, from, dest string) error {
 
 func uploadFile(s Server, from, dest string) error {
 	toStr := fmt.Sprintf("%s@%s:%s", s.User, s.PublicIP, dest)
-	cmdArgs := []string{"-o", "StrictHostKeyChecking=no", "-o", "UserKnownHostsFile=/dev/null", "-i", s.KeyPath, from, toStr}
+	cmdArgs := []string{"-o", "StrictHostKeyChecking=no", "-o", "UserKnownHostsFile=/dev/null", "-P", strconv.Itoa(s.Port), "-i", s.KeyPath, from, toStr}
 	//fmt.Println(cmdArgs)
 	proc := exec.Command("scp", cmdArgs...)
 	err := proc.Run()
-- 
2.43.0


From a3233647f20fe62c213cffa0470b495d36df9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 13/21] fix: testbed reports a connection lost while stopping a
 node

killServer ignored every error, so the node kept running and a log that
was still being written was downloaded as if complete.
---
 testbed/exp.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/testbed/exp.go b/testbed/exp.go
index a8ceeee..1fa6f67 100644
--- a/testbed/exp.go
+++ b/testbed/exp.go
@@ -206,8 +206,12 @@ func killServer(c *ssh.Client) error {
 	if err != nil {
 		return RemoteError{err, "error creating session"}
 	}
-	pkill.Run(`killall -w txcode-node`)
-	pkill.Close()
+	defer pkill.Close()
+	err = pkill.Run(`killall -w txcode-node`)
+	// killall exits with an error when there is no such process
+	if _, exited := err.(*ssh.ExitError); err != nil && !exited {
+		return RemoteError{err, "error stopping the node"}
+	}
 	return nil
 }
 
-- 
2.43.0


From e3478c82aa95b4f961899608a1f7c4f9caf97165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 14/21] fix: testbed releases the image list lock when the list
 cannot be fetched

The goroutines of the other regions waited for the lock forever, so a
single failed request made "cluster start -vendor aws" hang.
---
 testbed/aws.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index 3258c5b..a631abc 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -25,19 +25,19 @@ var AWSImageList string
 
 func AWSGetImageID(region string) (string, error) {
 	AWSImageListLock.Lock()
+	defer AWSImageListLock.Unlock()
 	if AWSImageList == "" {
 		resp, err := http.Get("https://cloud-images.ubuntu.com/locator/ec2/releasesTable")
 		if err != nil {
 			return "", err
 		}
+		defer resp.Body.Close()
 		body, err := ioutil.ReadAll(resp.Body)
 		if err != nil {
 			return "", err
 		}
 		AWSImageList = string(body)
-		defer resp.Body.Close()
 	}
-	AWSImageListLock.Unlock()
 
 	escaped := strings.ReplaceAll(region, "-", `\-`)
 	tr := escaped + `","focal","20\.04 LTS","amd64",".+","\d+","<.+>(ami\-.+)</a>`
-- 
2.43.0


From c3ec56518a0615a72b816c36051ba7b014db98da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 15/21] fix: testbed reboots do not share one error variable

The goroutines that reboot the servers all assigned the err of
RestartServers, so a failure could be overwritten by another server's
success before it was looked at.
---
 testbed/vultr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testbed/vultr.go b/testbed/vultr.go
index 427debb..c94346c 100644
--- a/testbed/vultr.go
+++ b/testbed/vultr.go
@@ -295,7 +295,7 @@ func RestartServers(tag string) {
 				return
 			}
 			fmt.Println("Rebooting ", s.InstanceID)
-			err = c.Server.Reboot(context.Background(), s.InstanceID)
+			err := c.Server.Reboot(context.Background(), s.InstanceID)
 			if err != nil {
 				fmt.Println("error rebooting server: ", err)
 				os.Exit(1)
-- 
2.43.0


From 8b83b47d5b97ede6b9ca75b2704070db362ee41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 16/21] fix: testbed reports an unreadable private key

getPublicKey used the signer before looking at the error and crashed,
abandoning the other regions half-way.
---
 testbed/sshutil.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/testbed/sshutil.go b/testbed/sshutil.go
index 5761257..1b7af15 100644
--- a/testbed/sshutil.go
+++ b/testbed/sshutil.go
@@ -13,7 +13,10 @@ func getPublicKey(path string) ([]byte, error) {
 	}
 
 	signer, err := ssh.ParsePrivateKey(key)
-	return ssh.MarshalAuthorizedKey(signer.PublicKey()), err
+	if err != nil {
+		return nil, err
+	}
+	return ssh.MarshalAuthorizedKey(signer.PublicKey()), nil
 }
 
 func loadSSHKey(path string) (ssh.AuthMethod, error) {
-- 
2.43.0


From 79a18bd4eb5947f58483c94ef6dda98977102c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 17/21] fix: testbed lists AWS instances that have no public
 address

The address is absent from the answer then, and status and stop crashed
on it.
---
 testbed/aws.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index a631abc..a8486fe 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -519,8 +519,8 @@ func AWSListServersAtRegion(region string, tag string) ([]AWSServer, error) {
 					ID: *instance.InstanceId,
 					Region: region,
 					Tag: tag,
-					PrivateIP: *instance.PrivateIpAddress,
-					PublicIP: *instance.PublicIpAddress,
+					PrivateIP: aws.StringValue(instance.PrivateIpAddress),
+					PublicIP: aws.StringValue(instance.PublicIpAddress),
 				}
 				output = append(output, out)
 			}
-- 
2.43.0


From 54d2b9512775ef5802c0cbfcf5c721a385dfb154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 18/21] fix: testbed reports a server list that could not be
 written

Errors of writing and closing the file were dropped, and the tool said
that the list had been written.
---
 testbed/aws.go   | 10 ++++++++--
 testbed/vultr.go | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index a8486fe..c0f8cc5 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -592,11 +592,17 @@ func AWSDumpServerInfo(path string, servers []AWSServer) {
 		fmt.Println("error creating file: ", err)
 		os.Exit(1)
 	}
-	defer f.Close()
 
 	enc := json.NewEncoder(f)
 	enc.SetIndent("", "    ")
-	enc.Encode(dt)
+	err = enc.Encode(dt)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		fmt.Println("error writing file: ", err)
+		os.Exit(1)
+	}
 }
 
 func AWSFilterRegionsByName(location string) ([]string, error) {
diff --git a/testbed/vultr.go b/testbed/vultr.go
index c94346c..d5e6ca9 100644
--- a/testbed/vultr.go
+++ b/testbed/vultr.go
@@ -42,11 +42,17 @@ func DumpServerInfo(path string, servers []govultr.Server) {
 		fmt.Println("error creating file: ", err)
 		os.Exit(1)
 	}
-	defer f.Close()
 
 	enc := json.NewEncoder(f)
 	enc.SetIndent("", "    ")
-	enc.Encode(dt)
+	err = enc.Encode(dt)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		fmt.Println("error writing file: ", err)
+		os.Exit(1)
+	}
 }
 
 func CheckServerStatus(tag string) []govultr.Server {
-- 
2.43.0


From e598e85756d4f88394576311638fecdb1a1bf050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 19/21] fix: testbed refuses an unknown cloud vendor

It did nothing and exited with success.
---
 testbed/cluster.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/testbed/cluster.go b/testbed/cluster.go
index 05e7740..636b6f8 100644
--- a/testbed/cluster.go
+++ b/testbed/cluster.go
@@ -199,6 +199,9 @@ func dispatchCluster(args []string) {
 			fmt.Println("invalid action")
 			os.Exit(1)
 		}
+	} else {
+		fmt.Println("invalid vendor")
+		os.Exit(1)
 	}
 }
 
-- 
2.43.0


From 81178212eaa15569d1eadbc6028228892a2c1fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 20/21] fix: testbed completes a security group whose creation
 was cut short

The group is created first and opened with a second request. When that
request failed, or the tool was stopped in between, the next start found
the group and used it although it lets nothing in, so that the instances
could not be reached.
---
 testbed/aws.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index c0f8cc5..5083306 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -180,11 +180,14 @@ func AWSCreateSecurityGroup(sess *session.Session) (string, error) {
 			return "", err
 		}
 	}
-	output := *createres.GroupId
+	return *createres.GroupId, nil
+}
 
-	// add permissions
-	_, err = svc.AuthorizeSecurityGroupIngress(&ec2.AuthorizeSecurityGroupIngressInput{
-		GroupId: aws.String(output),
+// AWSOpenSecurityGroup allows everything in; it may be allowed already.
+func AWSOpenSecurityGroup(sess *session.Session, group string) error {
+	svc := ec2.New(sess)
+	_, err := svc.AuthorizeSecurityGroupIngress(&ec2.AuthorizeSecurityGroupIngressInput{
+		GroupId: aws.String(group),
 		IpPermissions: []*ec2.IpPermission{
 			// Can use setters to simplify seting multiple values without the
 			// needing to use aws.String or associated helper utilities.
@@ -199,9 +202,12 @@ func AWSCreateSecurityGroup(sess *session.Session) (string, error) {
 	})
 	if err != nil {
 		if aerr, ok := err.(awserr.Error); ok {
-			return "", aerr
+			if aerr.Code() == "InvalidPermission.Duplicate" {
+				return nil
+			}
+			return aerr
 		} else {
-			return "", err
+			return err
 		}
 	}
 	/*
@@ -229,7 +235,7 @@ func AWSCreateSecurityGroup(sess *session.Session) (string, error) {
 	}
 	*/
 
-	return output, nil
+	return nil
 }
 
 func AWSGetSSHKey(sess *session.Session) (string, error) {
@@ -352,6 +358,11 @@ func AWSStartInstanceAtRegion(region string, count int, tag string) error {
 			return err
 		}
 	}
+	// also when the group is there already: its creation may have been cut short
+	err = AWSOpenSecurityGroup(sess, sgid)
+	if err != nil {
+		return err
+	}
 
 	userdata := `#!/bin/bash
 
-- 
2.43.0


From a3f025ee98c5d4abf2d3595b8f3863ec9f26ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 21/21] fix: node: nodes started in the same second generated
 the same load and keys

---
 node/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/main.go b/node/main.go
index 65ffc04..e3eddff 100644
--- a/node/main.go
+++ b/node/main.go
@@ -34,7 +34,7 @@ func randomTransaction() *ldpc.Transaction {
 }
 
 func main() {
-	rand.Seed(time.Now().Unix())
+	rand.Seed(time.Now().UnixNano())
 
 	warmup := flag.Duration("warmup", time.Duration(1)*time.Minute, "time to wait before collecting data")
 	addr := flag.String("l", ":9000", "address to listen")
-- 
2.43.0

