From 352ffa1cede353c88573aa9426f3b745c30ca795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 01/39] verif: seams for the simulated network under the chain
 clients (off by default)

---
 chain/ethbr/client/client.go         |  2 +-
 chain/ethbr/client/dial.go           | 12 ++++++++++++
 chain/ethbr/client/dial_verif.go     | 16 ++++++++++++++++
 chain/icon/client/client.go          |  2 +-
 chain/icon/client/transport.go       | 12 ++++++++++++
 chain/icon/client/transport_verif.go | 16 ++++++++++++++++
 6 files changed, 58 insertions(+), 2 deletions(-)
 create mode 100644 chain/ethbr/client/dial.go
 create mode 100644 chain/ethbr/client/dial_verif.go
 create mode 100644 chain/icon/client/transport.go
 create mode 100644 chain/icon/client/transport_verif.go

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index a39b547..8c49dce 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -356,7 +356,7 @@ func (c *Client) GetRevertMessage(hash common.Hash) (string, error) {
 
 func NewClient(uri string, l log.Logger) *Client {
 	//TODO options {MaxRetrySendTx, MaxRetryGetResult, MaxIdleConnsPerHost, Debug, Dump} }
-	rpcClient, err := rpc.Dial(uri)
+	rpcClient, err := dialRPC(uri)
 	if err != nil {
 		l.Fatal("Error creating client", err)
 	}
diff --git a/chain/ethbr/client/dial.go b/chain/ethbr/client/dial.go
new file mode 100644
index 0000000..16d26b7
--- /dev/null
+++ b/chain/ethbr/client/dial.go
@@ -0,0 +1,12 @@
+//go:build !verif
+// +build !verif
+
+package client
+
+import "github.com/ethereum/go-ethereum/rpc"
+
+// dialRPC is the seam through which a simulated network can be put under the
+// RPC client. It is rpc.Dial unless built with 'verif'.
+func dialRPC(uri string) (*rpc.Client, error) {
+	return rpc.Dial(uri)
+}
diff --git a/chain/ethbr/client/dial_verif.go b/chain/ethbr/client/dial_verif.go
new file mode 100644
index 0000000..6aac35b
--- /dev/null
+++ b/chain/ethbr/client/dial_verif.go
@@ -0,0 +1,16 @@
+//go:build verif
+// +build verif
+
+package client
+
+import "github.com/ethereum/go-ethereum/rpc"
+
+// VerifDial replaces rpc.Dial for every Client made after it is set.
+var VerifDial func(uri string) (*rpc.Client, error)
+
+func dialRPC(uri string) (*rpc.Client, error) {
+	if VerifDial != nil {
+		return VerifDial(uri)
+	}
+	return rpc.Dial(uri)
+}
diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index d68049d..7d79570 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -554,7 +554,7 @@ func NewClient(uri string, l log.Logger) *Client {
 	//TODO options {MaxRetrySendTx, MaxRetryGetResult, MaxIdleConnsPerHost, Debug, Dump}
 	tr := &http.Transport{MaxIdleConnsPerHost: 1000}
 	c := &Client{
-		Client: jsonrpc.NewJsonRpcClient(&http.Client{Transport: tr}, uri),
+		Client: jsonrpc.NewJsonRpcClient(&http.Client{Transport: newTransport(uri, tr)}, uri),
 		conns:  make(map[string]*websocket.Conn),
 		l:      l,
 	}
diff --git a/chain/icon/client/transport.go b/chain/icon/client/transport.go
new file mode 100644
index 0000000..8ad78e0
--- /dev/null
+++ b/chain/icon/client/transport.go
@@ -0,0 +1,12 @@
+//go:build !verif
+// +build !verif
+
+package client
+
+import "net/http"
+
+// newTransport is the seam through which a simulated network can be put
+// under the JSON-RPC client. It is the identity unless built with 'verif'.
+func newTransport(_ string, tr *http.Transport) http.RoundTripper {
+	return tr
+}
diff --git a/chain/icon/client/transport_verif.go b/chain/icon/client/transport_verif.go
new file mode 100644
index 0000000..0fc5d09
--- /dev/null
+++ b/chain/icon/client/transport_verif.go
@@ -0,0 +1,16 @@
+//go:build verif
+// +build verif
+
+package client
+
+import "net/http"
+
+// VerifTransport replaces the HTTP transport of every Client made after it is set.
+var VerifTransport func(uri string, tr *http.Transport) http.RoundTripper
+
+func newTransport(uri string, tr *http.Transport) http.RoundTripper {
+	if VerifTransport != nil {
+		return VerifTransport(uri, tr)
+	}
+	return tr
+}
-- 
2.43.0


From d7b915e41e0f75a5da643deb6f5df6548a1638f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:45 +0000
Subject: [PATCH 02/39] fix: jsonrpc client takes a reply without result and
 error as success

An HTTP error whose JSON body has no error member came back as a non-nil
error interface holding a nil *Error, a null body was dereferenced, and a
reply with neither result nor error left the caller with zero values.
---
 common/jsonrpc/client.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/common/jsonrpc/client.go b/common/jsonrpc/client.go
index d6f4d3b..bb63a69 100644
--- a/common/jsonrpc/client.go
+++ b/common/jsonrpc/client.go
@@ -78,7 +78,7 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 				if dErr := json.Unmarshal(hErr.Response(), &jrResp); dErr != nil {
 					err = fmt.Errorf("fail to decode response body err:%+v, httpErr:%+v, httpResp:%+v, responseBody:%s",
 						dErr, err, resp, string(hErr.Response()))
-				} else {
+				} else if jrResp != nil && jrResp.Error != nil {
 					err = jrResp.Error
 					//fmt.Printf("jrResp.Error:%+v in HttpError", err)
 				}
@@ -93,11 +93,19 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 			err, resp)
 		return
 	}
+	if jrResp == nil {
+		err = fmt.Errorf("empty response body, jsonrpcResp:%+v", resp)
+		return
+	}
 	if jrResp.Error != nil {
 		err = jrResp.Error
 		return
 	}
 	if respPtr != nil {
+		if jrResp.Result == nil {
+			err = fmt.Errorf("response has neither result nor error, jsonrpcResp:%+v", resp)
+			return
+		}
 		rb, mErr := json.Marshal(jrResp.Result)
 		if mErr != nil {
 			err = mErr
-- 
2.43.0


From baf2c7c3b0fb069b4c37ca10cba756757fd0d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:39 +0000
Subject: [PATCH 03/39] fix: icon monitors drop a notification whose callback
 failed

A block the callback could not handle was skipped and the stream went on
behind it. The error now ends the monitor and is returned to the caller.
---
 chain/icon/client/client.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index 7d79570..9a8c002 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -315,11 +315,13 @@ func (c *Client) GetStatus(fromAddress string, src types.BtpAddress, dst types.B
 
 func (c *Client) MonitorBTP(p *BTPRequest, cb func(conn *websocket.Conn, v *BTPNotification) error, scb func(conn *websocket.Conn), errCb func(*websocket.Conn, error)) error {
 	resp := &BTPNotification{}
-	return c.Monitor("/btp", p, resp, func(conn *websocket.Conn, v interface{}) {
+	var cbErr error
+	err := c.Monitor("/btp", p, resp, func(conn *websocket.Conn, v interface{}) {
 		switch t := v.(type) {
 		case *BTPNotification:
-			if err := cb(conn, t); err != nil {
-				c.l.Debugf("MonitorBTP callback return err:%+v", err)
+			if cbErr = cb(conn, t); cbErr != nil {
+				c.l.Debugf("MonitorBTP callback return err:%+v", cbErr)
+				c.CloseMonitor(conn)
 			}
 		case WSEvent:
 			c.l.Debugf("MonitorBTP WSEvent %s %+v", conn.LocalAddr().String(), t)
@@ -335,15 +337,21 @@ func (c *Client) MonitorBTP(p *BTPRequest, cb func(conn *websocket.Conn, v *BTPN
 			errCb(conn, fmt.Errorf("not supported type %T", t))
 		}
 	})
+	if cbErr != nil {
+		return cbErr
+	}
+	return err
 }
 
 func (c *Client) MonitorBlock(p *BlockRequest, cb func(conn *websocket.Conn, v *BlockNotification) error, scb func(conn *websocket.Conn), errCb func(*websocket.Conn, error)) error {
 	resp := &BlockNotification{}
-	return c.Monitor("/block", p, resp, func(conn *websocket.Conn, v interface{}) {
+	var cbErr error
+	err := c.Monitor("/block", p, resp, func(conn *websocket.Conn, v interface{}) {
 		switch t := v.(type) {
 		case *BlockNotification:
-			if err := cb(conn, t); err != nil {
-				c.l.Debugf("MonitorBlock callback return err:%+v", err)
+			if cbErr = cb(conn, t); cbErr != nil {
+				c.l.Debugf("MonitorBlock callback return err:%+v", cbErr)
+				c.CloseMonitor(conn)
 			}
 		case WSEvent:
 			c.l.Debugf("MonitorBlock WSEvent %s %+v", conn.LocalAddr().String(), t)
@@ -359,15 +367,21 @@ func (c *Client) MonitorBlock(p *BlockRequest, cb func(conn *websocket.Conn, v *
 			errCb(conn, fmt.Errorf("not supported type %T", t))
 		}
 	})
+	if cbErr != nil {
+		return cbErr
+	}
+	return err
 }
 
 func (c *Client) MonitorEvent(p *EventRequest, cb func(conn *websocket.Conn, v *EventNotification) error, errCb func(*websocket.Conn, error)) error {
 	resp := &EventNotification{}
-	return c.Monitor("/event", p, resp, func(conn *websocket.Conn, v interface{}) {
+	var cbErr error
+	err := c.Monitor("/event", p, resp, func(conn *websocket.Conn, v interface{}) {
 		switch t := v.(type) {
 		case *EventNotification:
-			if err := cb(conn, t); err != nil {
-				c.l.Debugf("MonitorEvent callback return err:%+v", err)
+			if cbErr = cb(conn, t); cbErr != nil {
+				c.l.Debugf("MonitorEvent callback return err:%+v", cbErr)
+				c.CloseMonitor(conn)
 			}
 		case error:
 			errCb(conn, t)
@@ -375,6 +389,10 @@ func (c *Client) MonitorEvent(p *EventRequest, cb func(conn *websocket.Conn, v *
 			errCb(conn, fmt.Errorf("not supported type %T", t))
 		}
 	})
+	if cbErr != nil {
+		return cbErr
+	}
+	return err
 }
 
 func (c *Client) Monitor(reqUrl string, reqPtr, respPtr interface{}, cb wsReadCallback) error {
-- 
2.43.0


From 04a991ba87ece39eba3e15eaa472947b25f3171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:39 +0000
Subject: [PATCH 04/39] fix: icon client reads its connection table without the
 lock, event monitor reports its own start as an error

---
 chain/icon/client/client.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index 9a8c002..c95307c 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -383,6 +383,8 @@ func (c *Client) MonitorEvent(p *EventRequest, cb func(conn *websocket.Conn, v *
 				c.l.Debugf("MonitorEvent callback return err:%+v", cbErr)
 				c.CloseMonitor(conn)
 			}
+		case WSEvent:
+			c.l.Debugf("MonitorEvent WSEvent %s %+v", conn.LocalAddr().String(), t)
 		case error:
 			errCb(conn, t)
 		default:
@@ -420,7 +422,13 @@ func (c *Client) CloseMonitor(conn *websocket.Conn) {
 }
 
 func (c *Client) CloseAllMonitor() {
+	c.mtx.Lock()
+	conns := make([]*websocket.Conn, 0, len(c.conns))
 	for _, conn := range c.conns {
+		conns = append(conns, conn)
+	}
+	c.mtx.Unlock()
+	for _, conn := range conns {
 		c.l.Debugf("CloseAllMonitor %s", conn.LocalAddr().String())
 		c.wsClose(conn)
 	}
@@ -447,6 +455,14 @@ func (c *Client) _removeWsConn(conn *websocket.Conn) {
 	}
 }
 
+func (c *Client) _hasWsConn(conn *websocket.Conn) bool {
+	c.mtx.Lock()
+	defer c.mtx.Unlock()
+
+	_, ok := c.conns[conn.LocalAddr().String()]
+	return ok
+}
+
 type wsConnectError struct {
 	error
 	httpResp *http.Response
@@ -517,7 +533,7 @@ func (c *Client) wsReadJSONLoop(conn *websocket.Conn, respPtr interface{}, cb ws
 	for {
 		v := reflect.New(elem.Type())
 		ptr := v.Interface()
-		if _, ok := c.conns[conn.LocalAddr().String()]; !ok {
+		if !c._hasWsConn(conn) {
 			c.l.Debugf("wsReadJSONLoop c.conns[%s] is nil", conn.LocalAddr().String())
 			return nil
 		}
-- 
2.43.0


From 70ef07382c42f6fe2f75a3ca922463106a6e6e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:26 +0000
Subject: [PATCH 05/39] fix: icon client loses the hash of a transaction the
 node already has

The node's duplicate error carries no hash, so the result of the message was
never found (or a nil hash dereferenced); a system error with a short message
was sliced out of range; an overflowing pool was not retried.
---
 chain/icon/client/client.go | 20 +++++++++++++++-----
 chain/icon/sender.go        |  6 +++---
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index c95307c..f7acbe5 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -135,7 +135,7 @@ txLoop:
 	for {
 		txh, err := c.SendTransaction(p)
 		if err != nil {
-			switch err {
+			switch MapError(err) {
 			case ErrSendFailByOverflow:
 				//TODO Retry max
 				time.Sleep(DefaultSendTransactionRetryInterval)
@@ -146,12 +146,12 @@ txLoop:
 				case *jsonrpc.Error:
 					switch re.Code {
 					case JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+						if subEc, ok := SystemErrorCode(re); ok {
 							switch subEc {
 							case 2000: //DuplicateTransactionError
 								//Ignore
-								c.l.Debugf("DuplicateTransactionError txh:%v", txh)
-								thp.Hash = *txh
+								c.l.Debugf("DuplicateTransactionError txh:%v", p.TxHash)
+								thp.Hash = p.TxHash
 								break txLoop
 							}
 						}
@@ -548,6 +548,16 @@ func (c *Client) wsReadJSONLoop(conn *websocket.Conn, respPtr interface{}, cb ws
 	}
 }
 
+// SystemErrorCode returns the code which the node puts in front of the message of
+// JsonrpcErrorCodeSystem, such as "E2000:..."
+func SystemErrorCode(re *jsonrpc.Error) (int64, bool) {
+	if len(re.Message) < 5 {
+		return 0, false
+	}
+	ec, err := strconv.ParseInt(re.Message[1:5], 0, 32)
+	return ec, err == nil
+}
+
 func MapError(err error) error {
 	if err != nil {
 		switch re := err.(type) {
@@ -557,7 +567,7 @@ func MapError(err error) error {
 			case JsonrpcErrorCodeTxPoolOverflow:
 				return ErrSendFailByOverflow
 			case JsonrpcErrorCodeSystem:
-				if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+				if subEc, ok := SystemErrorCode(re); ok {
 					//TODO return JsonRPC Error
 					switch subEc {
 					case ExpiredTransactionError:
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index b68cebb..718c5c9 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -21,7 +21,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
-	"strconv"
 	"time"
 
 	"github.com/icon-project/btp/chain/icon/client"
@@ -232,10 +231,11 @@ SignLoop:
 						<-time.After(DefaultRelayReSendInterval)
 						continue SendLoop
 					case client.JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(je.Message[1:5], 0, 32); err == nil {
+						if subEc, ok := client.SystemErrorCode(je); ok {
 							switch subEc {
 							case client.DuplicateTransactionError:
-								s.l.Debugf("DuplicateTransactionError txh:%v", txh)
+								s.l.Debugf("DuplicateTransactionError txh:%v", p.TxHash)
+								thp.Hash = p.TxHash
 								return thp, nil
 							case client.ExpiredTransactionError:
 								continue SignLoop
-- 
2.43.0


From 1d42a097dcfffe72f91ee317e9f6d7b9efe95307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:48 +0000
Subject: [PATCH 06/39] fix: senders keep quiet about a relay message whose
 outcome they could not get

Only revert codes were reported, so a lost transaction or a failed query left
the link waiting for ever; a failed status query put a nil status on the
channel, which the link dereferenced.
---
 chain/ethbr/sender.go | 16 +++++++++-------
 chain/icon/sender.go  | 17 +++++++++++------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index 1fb9dbf..fd756d8 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -106,7 +106,11 @@ func (s *sender) GetStatus() (*btpTypes.BMCLinkStatus, error) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Debugf("fail to GetStatus err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
@@ -128,11 +132,9 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 	if err != nil {
 		s.l.Debugf("result fail rm id : %d ", id)
 
-		if ec, ok := errors.CoderOf(err); ok {
-			s.sc <- &btpTypes.RelayResult{
-				Id:  id,
-				Err: ec.ErrorCode(),
-			}
+		s.sc <- &btpTypes.RelayResult{
+			Id:  id,
+			Err: errors.CodeOf(err),
 		}
 	} else {
 		s.l.Debugf("result success rm id : %d ", id)
@@ -192,7 +194,7 @@ func (s *sender) _relay(rm btpTypes.RelayMessage) (*client.TransactionHashParam,
 
 	tx, err = s.bmc.HandleRelayMessage(t, s.src.String(), rm.Bytes()[:])
 	if err != nil {
-		s.l.Errorf("handleRelayMessage: ", err.Error())
+		s.l.Errorf("handleRelayMessage: %s", err.Error())
 		return nil, err
 	}
 	txh := tx.Hash()
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index 718c5c9..d141ab0 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -131,11 +131,9 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 	if err != nil {
 		s.l.Debugf("result fail rm id : %d ", id)
 
-		if ec, ok := errors.CoderOf(err); ok {
-			s.sc <- &types.RelayResult{
-				Id:  id,
-				Err: ec.ErrorCode(),
-			}
+		s.sc <- &types.RelayResult{
+			Id:  id,
+			Err: errors.CodeOf(err),
 		}
 	} else {
 		s.l.Debugf("result success rm id : %d ", id)
@@ -144,7 +142,11 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Debugf("fail to GetStatus err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
@@ -269,6 +271,9 @@ func (s *sender) GetResult(txh *client.TransactionHashParam) (*client.Transactio
 func mapErrorWithTransactionResult(txr *client.TransactionResult, err error) error {
 	err = client.MapError(err)
 	if err == nil && txr != nil && txr.Status != client.ResultStatusSuccess {
+		if txr.Failure == nil {
+			return fmt.Errorf("failure without code, status:%s", txr.Status)
+		}
 		fc, _ := txr.Failure.CodeValue.Value()
 		if fc < client.ResultStatusFailureCodeRevert || fc > client.ResultStatusFailureCodeEnd {
 			err = fmt.Errorf("failure with code:%s, message:%s",
-- 
2.43.0


From 52772a5106a28a27faf3c85d3be9f78f7dad89e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:49 +0000
Subject: [PATCH 07/39] fix: ethbr client gives up on a slow chain, hides a
 failed send, dereferences a missing revert message

---
 chain/ethbr/client/client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index 8c49dce..aa91583 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -119,7 +119,7 @@ func (c *Client) SendTransaction(tx *types.Transaction) error {
 
 	if err != nil {
 		c.log.Errorf("could not send tx: %v", err)
-		return nil
+		return err
 	}
 
 	return nil
@@ -228,8 +228,8 @@ func (c *Client) Poll(cb func(bh *types.Header) error) error {
 					c.log.Trace("Block not ready, will retry ", current)
 				} else {
 					c.log.Error("Unable to get block ", current, err)
+					retry--
 				}
-				retry--
 				<-time.After(BlockRetryInterval)
 				continue
 			}
@@ -350,6 +350,9 @@ func (c *Client) GetRevertMessage(hash common.Hash) (string, error) {
 	}
 
 	_, err = c.ethClient.CallContract(context.Background(), msg, nil)
+	if err == nil {
+		return "", fmt.Errorf("no revert message for transaction %s", hash)
+	}
 	return err.Error(), nil
 
 }
-- 
2.43.0


From 187a23ecb207aaf53861278cd25889ceae2c1b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:01 +0000
Subject: [PATCH 08/39] fix: receivers go silent when the monitor of the source
 chain ends

The error of Monitoring was dropped and the relay kept running without ever
seeing another block.
---
 chain/ethbr/receiver.go     | 3 ++-
 chain/icon/bridge/bridge.go | 6 +++++-
 chain/icon/btp2/btp2.go     | 6 +++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 1862fab..c72501f 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -79,7 +79,8 @@ func NewEthBridge(src, dst btpTypes.BtpAddress, endpoint string, l log.Logger) *
 
 func (e *ethbr) Start(bs *btpTypes.BMCLinkStatus) (<-chan link.ReceiveStatus, error) {
 	go func() {
-		e.Monitoring(bs)
+		err := e.Monitoring(bs)
+		e.l.Panicf("monitoring of the source chain ended err:%+v", err)
 	}()
 
 	return e.rsc, nil
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 10735e3..b1410cc 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -105,7 +105,8 @@ func (b *bridge) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, erro
 	}
 
 	go func() {
-		b.Monitoring(bs)
+		err := b.Monitoring(bs)
+		b.l.Panicf("monitoring of the source chain ended err:%+v", err)
 	}()
 
 	return b.rsc, nil
@@ -286,6 +287,9 @@ func (b *bridge) setStartHeight() error {
 		return err
 	}
 	sh, err := ni.StartHeight.Value()
+	if err != nil {
+		return err
+	}
 	b.startHeight = sh + 1
 	return nil
 }
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index abc253c..36231ef 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -135,7 +135,8 @@ func (b *btp2) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, error)
 	}
 
 	go func() {
-		b.Monitoring(bs)
+		err := b.Monitoring(bs)
+		b.l.Panicf("monitoring of the source chain ended err:%+v", err)
 	}()
 
 	return b.rsc, nil
@@ -338,6 +339,9 @@ func (b *btp2) setStartHeight() error {
 		return err
 	}
 	sh, err := ni.StartHeight.Value()
+	if err != nil {
+		return err
+	}
 	b.startHeight = sh + 1
 	return nil
 }
-- 
2.43.0


From 3ace28ebb080d686b1d1b53f65bf27e997ce004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:05 +0000
Subject: [PATCH 09/39] fix: link loses, repeats and stalls on messages when
 blocks come faster than they are relayed

- errors of the receiver, of building and of sending were dropped: return them,
  so that the relay ends and resumes from the status of the destination
- the receiver, the sender and the link used their tables from several
  goroutines without a lock, and result() locked twice
- a block the receiver had not announced yet was sent without its messages, a
  second block update indexed an empty list, a stale block update moved RxSeq
  back, and an empty update was waited for in a busy loop
- the messages left in the last verified block were not found on restart, and
  the rest of a split block was proved with wrong sequences
- blocks were forgotten before the destination had them, so that a refused
  message could not be rebuilt
- messages with nothing in them were sent
---
 chain/ethbr/message.go       |   7 +
 chain/ethbr/receiver.go      | 104 ++++++------
 chain/icon/bridge/bridge.go  |  53 ++++--
 chain/icon/bridge/message.go |   7 +
 chain/icon/btp2/btp2.go      |  60 ++++---
 chain/icon/btp2/message.go   |   7 +
 common/link/link.go          | 312 +++++++++++++++--------------------
 common/link/type.go          |   1 +
 8 files changed, 286 insertions(+), 265 deletions(-)

diff --git a/chain/ethbr/message.go b/chain/ethbr/message.go
index db27c9f..b2eea15 100644
--- a/chain/ethbr/message.go
+++ b/chain/ethbr/message.go
@@ -57,6 +57,13 @@ func (c *blockProof) ProofHeight() int64 {
 	return c.ph
 }
 
+// UpdateBMCLinkStatus leaves the sequences alone, messages of the blocks before
+// may have been added since this was built.
+func (c *blockProof) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 func NewBlockUpdate(bs *types.BMCLinkStatus, targetHeight int64) *blockUpdate {
 	nextBls := &types.BMCLinkStatus{}
 	nextBls.Verifier.Height = targetHeight
diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index c72501f..2e93b49 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -7,7 +7,7 @@ import (
 	"io"
 	"math/big"
 	"sort"
-	"unsafe"
+	"sync"
 
 	"github.com/ethereum/go-ethereum"
 	"github.com/ethereum/go-ethereum/common"
@@ -60,6 +60,7 @@ type ethbr struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rssMtx      sync.Mutex
 	rss         []*receiveStatus
 	seq         int64
 	startHeight int64
@@ -91,13 +92,18 @@ func (e *ethbr) Stop() {
 }
 
 func (e *ethbr) GetStatus() (link.ReceiveStatus, error) {
+	e.rssMtx.Lock()
+	defer e.rssMtx.Unlock()
+
 	return e.rss[len(e.rss)-1], nil
 }
 
 func (e *ethbr) BuildBlockUpdate(bls *btpTypes.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
-	e.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
+		if rs.Height() <= bls.Verifier.Height {
+			continue
+		}
 		bu := NewBlockUpdate(bls, rs.Height())
 		bus = append(bus, bu)
 	}
@@ -110,56 +116,48 @@ func (e *ethbr) BuildBlockProof(bls *btpTypes.BMCLinkStatus, height int64) (link
 
 func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (link.MessageProof, error) {
 	var rmSize int
-	var seq int
 	rps := make([]*client.ReceiptProof, 0)
 	rs := e.GetReceiveHeightForSequence(bls.RxSeq + 1)
-	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 	if rs == nil {
 		return nil, nil
 	}
+	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 
-	rpsCnt := int64(len(rs.rps))
-	offset := bls.RxSeq - (rs.Seq() - rpsCnt)
-	if rpsCnt > 0 {
-		for i := offset; i < rpsCnt; i++ {
-			trp := &client.ReceiptProof{
-				Index:  rs.rps[i].Index,
-				Events: make([]*client.Event, 0),
-				Height: rs.rps[i].Height,
-			}
-			rps = append(rps, trp)
-
-			for _, e := range rs.rps[i].Events {
-				size := sizeOfEvent(e)
-
-				if (int(limit) < rmSize+size) && rmSize > 0 {
-					return NewMessageProof(bls, bls.RxSeq+i, rps)
-				}
-				trp.Events = append(trp.Events, e)
-				seq += 1
-				rmSize += size
-			}
+	seq := bls.RxSeq
+	for _, rp := range rs.rps {
+		trp := &client.ReceiptProof{
+			Index:  rp.Index,
+			Events: make([]*client.Event, 0),
+			Height: rp.Height,
+		}
+		rps = append(rps, trp)
 
-			//last event
-			if int(limit) < rmSize {
-				return NewMessageProof(bls, bls.RxSeq+i, rps)
+		for _, evt := range rp.Events {
+			if evt.Sequence.Int64() <= bls.RxSeq {
+				continue
 			}
+			size := sizeOfEvent(evt)
 
-			//remove last receipt if empty
-			if len(trp.Events) == 0 {
-				rps = rps[:len(rps)-1]
+			if (int(limit) < rmSize+size) && rmSize > 0 {
+				return NewMessageProof(bls, seq, rps)
 			}
+			trp.Events = append(trp.Events, evt)
+			seq = evt.Sequence.Int64()
+			rmSize += size
 		}
 
-		return NewMessageProof(bls, bls.RxSeq+int64(seq), rps)
+		//remove last receipt if empty
+		if len(trp.Events) == 0 {
+			rps = rps[:len(rps)-1]
+		}
 	}
-	return nil, nil
+	return NewMessageProof(bls, seq, rps)
 }
 
 func (e *ethbr) GetHeightForSeq(seq int64) int64 {
 	rs := e.GetReceiveHeightForSequence(seq)
 	if rs != nil {
-		return e.GetReceiveHeightForSequence(seq).height
+		return rs.height
 	} else {
 		return 0
 	}
@@ -179,15 +177,23 @@ func (e *ethbr) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error)
 	return nil, nil
 }
 
-func (e *ethbr) updateReceiveStatus(bls *btpTypes.BMCLinkStatus) {
-	for i, rs := range e.rss {
-		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
-			e.rss = e.rss[i+1:]
-			return
-		}
+// FinalizedStatus forgets the blocks which the destination has processed
+func (e *ethbr) FinalizedStatus(bls *btpTypes.BMCLinkStatus) {
+	e.rssMtx.Lock()
+	defer e.rssMtx.Unlock()
+
+	for len(e.rss) > 0 && e.rss[0].Height() <= bls.Verifier.Height && e.rss[0].Seq() <= bls.RxSeq {
+		e.rss = e.rss[1:]
 	}
 }
 
+func (e *ethbr) receiveStatuses() []*receiveStatus {
+	e.rssMtx.Lock()
+	defer e.rssMtx.Unlock()
+
+	return e.rss[:len(e.rss):len(e.rss)]
+}
+
 func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 	//var err error
 	fq := &ethereum.FilterQuery{
@@ -215,11 +221,11 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 			EpLoop:
 				for _, el := range v.Logs {
 					evt, err := logToEvent(&el)
-					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
-						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if err != nil {
 						return err
 					}
+					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
+						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if evt.Sequence.Int64() <= e.seq {
 						continue EpLoop
 					}
@@ -252,7 +258,9 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 						return err
 					}
 
+					e.rssMtx.Lock()
 					e.rss = append(e.rss, rs)
+					e.rssMtx.Unlock()
 					e.l.Debugf("monitor info : Height:%d  EventCnt:%d LastSeq:%d ",
 						v.Height.Int64(), len(rps[len(rps)-1].Events), e.seq)
 
@@ -301,8 +309,8 @@ func (e *ethbr) newBlockUpdate(v *client.BlockNotification) (*client.BlockUpdate
 }
 
 func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range e.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+	for _, rs := range e.receiveStatuses() {
+		if seq <= rs.Seq() && seq >= rs.rps[0].Events[0].Sequence.Int64() {
 			return rs
 		}
 	}
@@ -310,7 +318,7 @@ func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 }
 
 func (e *ethbr) GetReceiveHeightForHeight(height int64) *receiveStatus {
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
 		if rs.Height() == height {
 			return rs
 		}
@@ -355,6 +363,6 @@ func logToEvent(el *types.Log) (*client.Event, error) {
 	}, nil
 }
 
-func sizeOfEvent(rp *client.Event) int {
-	return int(unsafe.Sizeof(rp))
+func sizeOfEvent(evt *client.Event) int {
+	return len(evt.Next) + len(evt.Sequence.Bytes()) + len(evt.Message)
 }
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index b1410cc..1db699e 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -3,7 +3,7 @@ package bridge
 import (
 	"encoding/base64"
 	"fmt"
-	"unsafe"
+	"sync"
 
 	"github.com/gorilla/websocket"
 
@@ -40,13 +40,15 @@ type bridge struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rssMtx      sync.Mutex
 	rss         []*receiveStatus
 	startHeight int64
 }
 
 func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.BtpAddress) (*receiveStatus, error) {
 	evts := make([]*Event, 0)
-	seq := sn
+	//sequence of the last message
+	seq := sn + int64(len(msgs)) - 1
 	for _, msg := range msgs {
 		if sn > rxSeq {
 			evt, err := messageToEvent(next, msg, sn)
@@ -117,22 +119,27 @@ func (b *bridge) Stop() {
 }
 
 func (b *bridge) GetStatus() (link.ReceiveStatus, error) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+
 	return b.rss[len(b.rss)-1], nil
 }
 
 func (b *bridge) GetHeightForSeq(seq int64) int64 {
 	rs := b.GetReceiveHeightForSequence(seq)
 	if rs != nil {
-		return b.GetReceiveHeightForSequence(seq).height
+		return rs.height
 	} else {
 		return 0
 	}
 }
 
 func (b *bridge) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
-	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
+		if rs.Height() <= bls.Verifier.Height {
+			continue
+		}
 		bu := NewBlockUpdate(bls, rs.Height())
 		bus = append(bus, bu)
 	}
@@ -160,15 +167,15 @@ func (b *bridge) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.
 
 	for i := offset; i < int64(messageCnt); i++ {
 		size := sizeOfEvent(rs.ReceiptProof().Events[i])
-		if limit < int64(rmSize+size) {
-			return NewMessageProof(bls, bls.RxSeq+i, trp)
+		if limit < int64(rmSize+size) && rmSize > 0 {
+			return NewMessageProof(bls, bls.RxSeq+i-offset, trp)
 		}
 		trp.Events = append(trp.Events, rs.ReceiptProof().Events[i])
 		rmSize += size
 	}
 
 	//last event
-	return NewMessageProof(bls, bls.RxSeq+int64(messageCnt), trp)
+	return NewMessageProof(bls, rs.Seq(), trp)
 
 }
 
@@ -253,7 +260,9 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 			if err != nil {
 				return err
 			}
+			b.rssMtx.Lock()
 			b.rss = append(b.rss, rs)
+			b.rssMtx.Unlock()
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
 
 			b.rsc <- rs
@@ -262,18 +271,26 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 	}, scb, errCb)
 }
 
-func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
-	for i, rs := range b.rss {
-		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
-			b.rss = b.rss[i+1:]
-			return
-		}
+// FinalizedStatus forgets the blocks which the destination has processed
+func (b *bridge) FinalizedStatus(bs *types.BMCLinkStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+
+	for len(b.rss) > 0 && b.rss[0].Height() <= bs.Verifier.Height && b.rss[0].Seq() <= bs.RxSeq {
+		b.rss = b.rss[1:]
 	}
 }
 
+func (b *bridge) receiveStatuses() []*receiveStatus {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+
+	return b.rss[:len(b.rss):len(b.rss)]
+}
+
 func (b *bridge) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range b.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+	for _, rs := range b.receiveStatuses() {
+		if seq <= rs.Seq() && seq > rs.Seq()-int64(len(rs.ReceiptProof().Events)) {
 			return rs
 		}
 	}
@@ -294,8 +311,8 @@ func (b *bridge) setStartHeight() error {
 	return nil
 }
 
-func sizeOfEvent(rp *Event) int {
-	return int(unsafe.Sizeof(rp))
+func sizeOfEvent(evt *Event) int {
+	return len(codec.RLP.MustMarshalToBytes(evt))
 }
 
 func messageToEvent(next types.BtpAddress, msg string, seq int64) (*Event, error) {
diff --git a/chain/icon/bridge/message.go b/chain/icon/bridge/message.go
index b277918..3bfeb19 100644
--- a/chain/icon/bridge/message.go
+++ b/chain/icon/bridge/message.go
@@ -76,6 +76,13 @@ func (c *blockProof) ProofHeight() int64 {
 	return c.ph
 }
 
+// UpdateBMCLinkStatus leaves the sequences alone, messages of the blocks before
+// may have been added since this was built.
+func (c *blockProof) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 func NewBlockUpdate(bs *types.BMCLinkStatus, targetHeight int64) *blockUpdate {
 	nextBls := &types.BMCLinkStatus{}
 	nextBls.Verifier.Height = targetHeight
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 36231ef..1fa1e48 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -3,6 +3,7 @@ package btp2
 import (
 	"encoding/base64"
 	"fmt"
+	"sync"
 
 	"github.com/gorilla/websocket"
 
@@ -63,8 +64,8 @@ type btp2 struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rssMtx      sync.Mutex
 	rss         []*receiveStatus
-	seq         int64
 	startHeight int64
 }
 
@@ -147,22 +148,27 @@ func (b *btp2) Stop() {
 }
 
 func (b *btp2) GetStatus() (link.ReceiveStatus, error) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+
 	return b.rss[len(b.rss)-1], nil
 }
 
 func (b *btp2) GetHeightForSeq(seq int64) int64 {
 	rs := b.GetReceiveHeightForSequence(seq)
 	if rs != nil {
-		return b.GetReceiveHeightForSequence(seq).height
+		return rs.height
 	} else {
 		return 0
 	}
 }
 
 func (b *btp2) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
-	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
+		if rs.Height() <= bls.Verifier.Height {
+			continue
+		}
 
 		h, p, err := b.getBtpHeader(rs.Height())
 		if err != nil {
@@ -197,7 +203,7 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 	}
 	messageCnt := int64(rs.MerkleBinaryTree().Len())
 	offset := bls.RxSeq - (rs.Seq() - messageCnt)
-	if (bls.RxSeq - rs.seq) == 0 {
+	if bls.RxSeq >= rs.seq {
 		return nil, nil
 	}
 	if messageCnt > 0 {
@@ -208,7 +214,7 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 			}
 
 			if limit < int64(len(codec.RLP.MustMarshalToBytes(p))) {
-				mp := NewMessageProof(bls, bls.RxSeq+i, *p)
+				mp := NewMessageProof(bls, bls.RxSeq+i-offset, *p)
 				return mp, nil
 			}
 		}
@@ -218,7 +224,7 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 	if err != nil {
 		return nil, err
 	}
-	mp := NewMessageProof(bls, bls.RxSeq+messageCnt, *p)
+	mp := NewMessageProof(bls, rs.Seq(), *p)
 	return mp, nil
 }
 
@@ -243,22 +249,31 @@ func (b *btp2) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
 	return rb, nil
 }
 
-func (b *btp2) updateReceiveStatus(bs *types.BMCLinkStatus) {
-	for i, rs := range b.rss {
-		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
-			b.rss = b.rss[i+1:]
-			return
-		}
+// FinalizedStatus forgets the blocks which the destination has processed
+func (b *btp2) FinalizedStatus(bs *types.BMCLinkStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+
+	for len(b.rss) > 0 && b.rss[0].Height() <= bs.Verifier.Height && b.rss[0].Seq() <= bs.RxSeq {
+		b.rss = b.rss[1:]
 	}
 }
 
+func (b *btp2) receiveStatuses() []*receiveStatus {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+
+	return b.rss[:len(b.rss):len(b.rss)]
+}
+
 func (b *btp2) Monitoring(bs *types.BMCLinkStatus) error {
 	if bs.Verifier.Height < 1 {
 		return fmt.Errorf("cannot catchup from zero height")
 	}
 
 	req := &client.BTPRequest{
-		Height:    client.NewHexInt(bs.Verifier.Height + 1),
+		//the last verified block may have messages to be relayed
+		Height:    client.NewHexInt(bs.Verifier.Height),
 		NetworkID: client.NewHexInt(b.nid),
 		ProofFlag: client.NewHexInt(0),
 	}
@@ -280,8 +295,9 @@ func (b *btp2) Monitoring(bs *types.BMCLinkStatus) error {
 }
 
 func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus, scb func(conn *websocket.Conn), errCb func(*websocket.Conn, error)) error {
-	if bs.RxSeq != 0 {
-		b.seq = bs.RxSeq
+	offset, err := b.c.GetBTPLinkOffset(b.src, b.dst)
+	if err != nil {
+		return err
 	}
 
 	return b.c.MonitorBTP(req, func(conn *websocket.Conn, v *client.BTPNotification) error {
@@ -300,13 +316,15 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 				return err
 			}
 
-			b.seq += int64(len(msgs))
-			rs, err := newReceiveStatus(bh.MainHeight, b.seq, msgs)
+			seq := offset + bh.UpdateNumber>>1 + int64(len(msgs))
+			rs, err := newReceiveStatus(bh.MainHeight, seq, msgs)
 			if err != nil {
 				return err
 			}
 
+			b.rssMtx.Lock()
 			b.rss = append(b.rss, rs)
+			b.rssMtx.Unlock()
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
 			b.rsc <- rs
 		}
@@ -315,8 +333,8 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 }
 
 func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range b.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+	for _, rs := range b.receiveStatuses() {
+		if seq <= rs.Seq() && seq > rs.Seq()-int64(rs.MerkleBinaryTree().Len()) {
 			return rs
 		}
 	}
@@ -324,7 +342,7 @@ func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 }
 
 func (b *btp2) GetReceiveHeightForHeight(height int64) *receiveStatus {
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if rs.Height() == height {
 			return rs
 		}
diff --git a/chain/icon/btp2/message.go b/chain/icon/btp2/message.go
index fbda82f..a15d68e 100644
--- a/chain/icon/btp2/message.go
+++ b/chain/icon/btp2/message.go
@@ -46,6 +46,13 @@ func (c *blockProof) ProofHeight() int64 {
 	return c.ph
 }
 
+// UpdateBMCLinkStatus leaves the sequences alone, messages of the blocks before
+// may have been added since this was built.
+func (c *blockProof) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 type blockUpdate struct {
 	blockProof
 	srcHeight    int64
diff --git a/common/link/link.go b/common/link/link.go
index 122fe69..85065e6 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -66,10 +66,10 @@ type Link struct {
 	r         Receiver
 	s         types.Sender
 	l         log.Logger
-	mtx       sync.RWMutex
 	src       types.BtpAddress
 	dst       types.BtpAddress
-	rmsMtx    sync.RWMutex
+	rmsMtx    sync.Mutex // guards bls, rms, rss and rmi
+	bls       *types.BMCLinkStatus
 	rms       []*relayMessage
 	rss       []ReceiveStatus
 	rmi       *relayMessageItem
@@ -98,6 +98,7 @@ func NewLink(cfg *chain.Config, r Receiver, l log.Logger) types.Link {
 
 func (l *Link) Start(sender types.Sender) error {
 	l.s = sender
+	l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
 	errCh := make(chan error)
 	l.senderChannel(errCh)
 
@@ -105,8 +106,9 @@ func (l *Link) Start(sender types.Sender) error {
 	if err != nil {
 		return err
 	}
+	l.bls = bls
 
-	l.receiverChannel(bls, errCh)
+	l.receiverChannel(*bls, errCh)
 
 	for {
 		select {
@@ -124,92 +126,99 @@ func (l *Link) Stop() {
 	l.r.Stop()
 }
 
-func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
+func (l *Link) receiverChannel(bls types.BMCLinkStatus, errCh chan error) {
 	once := new(sync.Once)
 	go func() {
-		rsc, err := l.r.Start(bls)
-		for {
-			select {
-			case rs := <-rsc:
-				once.Do(func() {
-					err = l.checkStatus(bls)
-				})
-				l.rss = append(l.rss, rs)
-				l.BuildRelayMessage(bls)
-			}
+		rsc, err := l.r.Start(&bls)
+		if err != nil {
+			errCh <- err
+			return
 		}
-
-		select {
-		case errCh <- err:
-		default:
+		for rs := range rsc {
+			if err = l.receive(rs, once); err != nil {
+				errCh <- err
+				return
+			}
 		}
 	}()
 }
 
+func (l *Link) receive(rs ReceiveStatus, once *sync.Once) error {
+	l.rmsMtx.Lock()
+	defer l.rmsMtx.Unlock()
+
+	var err error
+	l.rss = append(l.rss, rs)
+	once.Do(func() {
+		err = l.checkStatus(l.bls)
+	})
+	if err != nil {
+		return err
+	}
+	return l.BuildRelayMessage(l.bls)
+}
+
 func (l *Link) senderChannel(errCh chan error) {
 	go func() {
-		l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
 		scc, err := l.s.Start()
+		if err != nil {
+			errCh <- err
+			return
+		}
 
-		for {
-			select {
-			case sc := <-scc:
-				switch t := sc.(type) {
-				case *types.RelayResult:
-					err := l.result(t)
+		for sc := range scc {
+			switch t := sc.(type) {
+			case *types.RelayResult:
+				if err := l.result(t); err != nil {
 					errCh <- err
-				case *types.BMCLinkStatus:
-					l.clearRelayMessage(t)
-					l.clearReceiveStatus(t)
-				default:
-					//TODO exception
+					return
 				}
+			case *types.BMCLinkStatus:
+				l.rmsMtx.Lock()
+				l.clearRelayMessage(t)
+				l.clearReceiveStatus(t)
+				l.rmsMtx.Unlock()
+			default:
+				//TODO exception
 			}
 		}
-
-		select {
-		case errCh <- err:
-		default:
-		}
 	}()
 
 }
 
 func (l *Link) clearRelayMessage(bls *types.BMCLinkStatus) {
-	for i, rm := range l.rms {
-		if rm.bls.Verifier.Height <= bls.Verifier.Height && rm.bls.RxSeq <= bls.RxSeq {
-			l.rms = l.rms[i+1:]
-			break
-		}
+	for len(l.rms) > 0 && l.rms[0].bls.Verifier.Height <= bls.Verifier.Height && l.rms[0].bls.RxSeq <= bls.RxSeq {
+		l.rms = l.rms[1:]
 	}
 }
 
 func (l *Link) clearReceiveStatus(bls *types.BMCLinkStatus) {
-	for i, rs := range l.rss {
-		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
-			l.rss = l.rss[i+1:]
-			break
-		}
+	for len(l.rss) > 0 && l.rss[0].Height() <= bls.Verifier.Height && l.rss[0].Seq() <= bls.RxSeq {
+		l.rss = l.rss[1:]
 	}
+	l.r.FinalizedStatus(bls)
 }
 
 func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
-	if len(l.rmi.rmis) == 0 {
-		l.createRelayMessageItem()
-	}
+	for {
+		//Get Block
+		bus, err := l.r.BuildBlockUpdate(bls, l.limitSize-l.rmi.size)
+		if err != nil {
+			return err
+		}
 
-	//Get Block
-	bus, err := l.getHeader(bls)
-	if err != nil {
-		return err
-	}
+		if len(bus) == 0 {
+			return nil
+		}
 
-	if len(bus) != 0 {
 		for _, bu := range bus {
-			l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bu)
-			l.rmi.size += bu.Len()
-			err := bu.UpdateBMCLinkStatus(bls)
-			if err != nil {
+			if l.searchReceiveStatusForHeight(bu.TargetHeight()) == nil {
+				// the receiver has not announced this block yet
+				return nil
+			}
+
+			l.appendRelayMessageItem(bu)
+			if err := bu.UpdateBMCLinkStatus(bls); err != nil {
 				return err
 			}
 
@@ -222,12 +231,6 @@ func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
 			}
 		}
 	}
-
-	if l.isOverLimit(l.rmi.size) {
-		l.sendRelayMessage(bls)
-	}
-
-	return nil
 }
 
 func (l *Link) sendRelayMessage(bls *types.BMCLinkStatus) error {
@@ -238,58 +241,24 @@ func (l *Link) sendRelayMessage(bls *types.BMCLinkStatus) error {
 
 	for _, rm := range rms {
 		l.rms = append(l.rms, rm)
-		l.s.Relay(rm)
-	}
-	return nil
-}
-
-func (l *Link) getHeader(bs *types.BMCLinkStatus) ([]BlockUpdate, error) {
-	for {
-		bus, err := l.r.BuildBlockUpdate(bs, l.limitSize-l.rmi.size)
-		if err != nil {
-			return nil, err
-		}
-		if len(bus) != 0 {
-			return bus, nil
+		if _, err = l.s.Relay(rm); err != nil {
+			return err
 		}
 	}
+	return nil
 }
 
+// checkStatus relays the messages of already verified blocks, which the
+// destination has not received yet.
 func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
-	lastSeq := bls.RxSeq
-	for {
-		h := l.r.GetHeightForSeq(lastSeq)
-		if h == 0 {
-			break
-		}
-		if h == bls.Verifier.Height {
-			mp, err := l.r.BuildMessageProof(bls, l.limitSize-l.rmi.size)
-			if err != nil {
-				return err
-			}
-
-			if mp == nil {
-				break
-			}
-
-			if mp.Len() != 0 || bls.RxSeq < mp.LastSeqNum() {
-				l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)
-				l.rmi.size += mp.Len()
-			}
-			break
-		} else if h < bls.Verifier.Height {
-			err := l.buildProof(bls, nil)
-			if err != nil {
-				return err
-			}
-		} else {
-			break
-		}
+	h := l.r.GetHeightForSeq(bls.RxSeq + 1)
+	if h == 0 || h > bls.Verifier.Height {
+		return nil
 	}
-	if l.rmi.size > 0 {
-		l.sendRelayMessage(bls)
+	if err := l.buildProof(bls, nil); err != nil {
+		return err
 	}
-	return nil
+	return l.sendRelayMessage(bls)
 }
 
 func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
@@ -297,35 +266,18 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 	if rs == nil {
 		return nil
 	}
-	var mh int64
-	for {
-		//TODO refactoring
-		if rs.Seq() <= bls.RxSeq {
-			break
-		}
-		if l.isOverLimit(l.rmi.size) {
-			l.sendRelayMessage(bls)
-			if bu != nil || bu.ProofHeight() != 0 {
-				h := l.r.GetHeightForSeq(bls.RxSeq)
-				mh = h
-				if err := l.buildBlockProof(bls, mh); err != nil {
-					return err
-				}
-			}
-			if err := l.buildMessageProof(bls); err != nil {
+	for rs.Seq() > bls.RxSeq {
+		if bu == nil || bu.ProofHeight() == -1 {
+			if err := l.buildBlockProof(bls, l.r.GetHeightForSeq(bls.RxSeq+1)); err != nil {
 				return err
 			}
-		} else {
-			if bu == nil || bu.ProofHeight() == -1 {
-				h := l.r.GetHeightForSeq(bls.RxSeq)
-				mh = h
-				if mh != h {
-					if err := l.buildBlockProof(bls, mh); err != nil {
-						return err
-					}
-				}
-			}
-			if err := l.buildMessageProof(bls); err != nil {
+		}
+		if err := l.buildMessageProof(bls); err != nil {
+			return err
+		}
+		if rs.Seq() > bls.RxSeq {
+			//the rest does not fit in this message
+			if err := l.sendRelayMessage(bls); err != nil {
 				return err
 			}
 		}
@@ -347,14 +299,11 @@ func (l *Link) buildMessageProof(bls *types.BMCLinkStatus) error {
 	if err != nil {
 		return err
 	}
-	if mp != nil {
-		l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)
-		l.rmi.size += mp.Len()
-		if err := mp.UpdateBMCLinkStatus(bls); err != nil {
-			return err
-		}
+	if mp == nil || mp.LastSeqNum() <= bls.RxSeq {
+		return errors.Errorf("no proof for the message seq:%d height:%d", bls.RxSeq+1, bls.Verifier.Height)
 	}
-	return nil
+	l.appendRelayMessageItem(mp)
+	return mp.UpdateBMCLinkStatus(bls)
 }
 
 func (l *Link) buildBlockProof(bls *types.BMCLinkStatus, height int64) error {
@@ -364,8 +313,7 @@ func (l *Link) buildBlockProof(bls *types.BMCLinkStatus, height int64) error {
 	}
 
 	if bf != nil {
-		l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bf)
-		l.rmi.size += bf.Len()
+		l.appendRelayMessageItem(bf)
 		if err := bf.UpdateBMCLinkStatus(bls); err != nil {
 			return err
 		}
@@ -374,17 +322,33 @@ func (l *Link) buildBlockProof(bls *types.BMCLinkStatus, height int64) error {
 	return nil
 }
 
+func (l *Link) appendRelayMessageItem(rmi RelayMessageItem) {
+	if len(l.rmi.rmis) == 0 {
+		l.createRelayMessageItem()
+	}
+	l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], rmi)
+	l.rmi.size += rmi.Len()
+}
+
 func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, error) {
 	rms := make([]*relayMessage, 0)
 	for _, rmi := range l.rmi.rmis {
+		if len(rmi) == 0 {
+			continue
+		}
 		m, err := l.r.BuildRelayMessage(rmi)
 		if err != nil {
 			return nil, err
 		}
+		if len(m) == 0 {
+			//nothing the destination has to know
+			continue
+		}
 
+		next := *bls
 		rm := &relayMessage{
 			id:       rand.Int(),
-			bls:      bls,
+			bls:      &next,
 			bpHeight: l.r.GetHeightForSeq(bls.RxSeq),
 			message:  m,
 			rmis:     rmi,
@@ -398,27 +362,33 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 }
 
 func (l *Link) removeRelayMessage(id int) {
-	l.mtx.Lock()
-	defer l.mtx.Unlock()
-
-	index := 0
 	for i, rm := range l.rms {
 		if rm.id == id {
-			index = i
+			l.l.Debugf("remove relay message h:%d seq:%d", rm.BMCLinkStatus().Verifier.Height,
+				rm.BMCLinkStatus().RxSeq)
+			l.rms = append(l.rms[:i:i], l.rms[i+1:]...)
+			return
 		}
 	}
-
-	l.l.Debugf("remove relay message h:%d seq:%d", l.rms[index].BMCLinkStatus().Verifier.Height,
-		l.rms[index].BMCLinkStatus().RxSeq)
-	l.rms = l.rms[index:]
-
 }
 
-func (l *Link) updateBlockProof(id int) error {
-	rm := l.searchRelayMessage(id)
-	l.buildProof(rm.bls, nil)
-	l.sendRelayMessage(rm.bls)
-	return nil
+// rebuildRelayMessage starts over from the status of the destination, when it
+// refused a message; those sent after it are refused too.
+func (l *Link) rebuildRelayMessage(id int) error {
+	if l.searchRelayMessage(id) == nil {
+		//superseded by an earlier rebuild
+		return nil
+	}
+	bls, err := l.s.GetStatus()
+	if err != nil {
+		return err
+	}
+	*l.bls = *bls
+	l.rms = l.rms[:0]
+	if err = l.checkStatus(l.bls); err != nil {
+		return err
+	}
+	return l.BuildRelayMessage(l.bls)
 }
 
 func (l *Link) searchReceiveStatusForHeight(height int64) ReceiveStatus {
@@ -439,14 +409,6 @@ func (l *Link) searchRelayMessage(id int) *relayMessage {
 	return nil
 }
 
-func (l *Link) isOverLimit(size int64) bool {
-	if int64(l.s.TxSizeLimit()) < size {
-		l.createRelayMessageItem()
-		return true
-	}
-	return false
-}
-
 func (l *Link) createRelayMessageItem() {
 	l.rmi.rmis = append(l.rmi.rmis, make([]RelayMessageItem, 0))
 	l.rmi.size = 0
@@ -454,21 +416,15 @@ func (l *Link) createRelayMessageItem() {
 
 func (l *Link) result(rr *types.RelayResult) error {
 	l.rmsMtx.Lock()
-	defer l.rmsMtx.Lock()
+	defer l.rmsMtx.Unlock()
 
 	switch rr.Err {
 	case BMVUnknown:
 		l.l.Panicf("BMVUnknown Revert : ErrorCoder:%+v", rr.Err)
-	case BMVNotVerifiable:
-		bls, err := l.s.GetStatus()
-		if err != nil {
-			return err
-		}
-		l.BuildRelayMessage(bls)
+	case BMVNotVerifiable, BMVRevertInvalidBlockWitnessOld:
+		return l.rebuildRelayMessage(rr.Id)
 	case BMVAlreadyVerified:
 		l.removeRelayMessage(rr.Id)
-	case BMVRevertInvalidBlockWitnessOld:
-		l.updateBlockProof(rr.Id)
 	default:
 		l.l.Panicf("fail to GetResult RelayMessage ID:%v ErrorCoder:%+v",
 			rr.Id, rr.Err)
diff --git a/common/link/type.go b/common/link/type.go
index a939b20..b8f2dec 100644
--- a/common/link/type.go
+++ b/common/link/type.go
@@ -60,6 +60,7 @@ type Receiver interface {
 	Start(bls *types.BMCLinkStatus) (<-chan ReceiveStatus, error)
 	Stop()
 	GetStatus() (ReceiveStatus, error)
+	FinalizedStatus(bls *types.BMCLinkStatus)
 	BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]BlockUpdate, error)
 	BuildBlockProof(bls *types.BMCLinkStatus, height int64) (BlockProof, error)
 	BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (MessageProof, error)
-- 
2.43.0


From 6d93825c8a33267124463d179a12f654578914a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:27 +0000
Subject: [PATCH 10/39] fix: relay keeps running after a link ended while the
 other one was being made

The error was dropped when nobody was waiting for it yet.
---
 cmd/relay/linkfatory.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cmd/relay/linkfatory.go b/cmd/relay/linkfatory.go
index f5d80fd..6a3e0b9 100644
--- a/cmd/relay/linkfatory.go
+++ b/cmd/relay/linkfatory.go
@@ -89,10 +89,7 @@ func newLink(s string, cfg chain.Config, l log.Logger, w wallet.Wallet, linkErrC
 
 	go func() {
 		err := lk.Start(newSender(cfg.Dst.Address.BlockChain(), cfg.Src, cfg.Dst, w, l))
-		select {
-		case linkErrCh <- err:
-		default:
-		}
+		linkErrCh <- err
 	}()
 
 	return lk, nil
-- 
2.43.0


From e41d8ce22bf80f2a54a27133e8f9032dc93a43ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:01 +0000
Subject: [PATCH 11/39] fix: ethbr encodes the sequence of an event unsigned,
 the destination reads it signed

The BMV of the destination decodes the sequence as two's complement, so that
message 128 of a link arrived as -128 and was ignored for good.
---
 chain/ethbr/message.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/chain/ethbr/message.go b/chain/ethbr/message.go
index b2eea15..24a0176 100644
--- a/chain/ethbr/message.go
+++ b/chain/ethbr/message.go
@@ -1,8 +1,6 @@
 package ethbr
 
 import (
-	"github.com/ethereum/go-ethereum/rlp"
-
 	"github.com/icon-project/btp/chain/ethbr/client"
 	"github.com/icon-project/btp/common/codec"
 	"github.com/icon-project/btp/common/link"
@@ -96,6 +94,26 @@ func (m *MessageProof) LastSeqNum() int64 {
 	return m.lastSeq
 }
 
+// event is client.Event with the sequence as signed integer, which is how the
+// destination reads it
+type event struct {
+	Next     string
+	Sequence int64
+	Message  []byte
+}
+
+func newEvents(evts []*client.Event) []*event {
+	r := make([]*event, len(evts))
+	for i, evt := range evts {
+		r[i] = &event{
+			Next:     evt.Next.String(),
+			Sequence: evt.Sequence.Int64(),
+			Message:  evt.Message,
+		}
+	}
+	return r
+}
+
 func NewMessageProof(bs *types.BMCLinkStatus, ls int64, rps []*client.ReceiptProof) (*MessageProof, error) {
 	//update bls
 	nextBls := &types.BMCLinkStatus{}
@@ -117,11 +135,7 @@ func NewMessageProof(bs *types.BMCLinkStatus, ls int64, rps []*client.ReceiptPro
 			continue
 		}
 		numOfEvents += len(rp.Events)
-		//if b, err = codec.RLP.MarshalToBytes(rp.Events); err != nil {
-		//	return nil, err
-		//}
-		//TODO refactoring
-		if b, err = rlp.EncodeToBytes(rp.Events); err != nil {
+		if b, err = codec.RLP.MarshalToBytes(newEvents(rp.Events)); err != nil {
 			return nil, err
 		}
 		r := &client.Receipt{
-- 
2.43.0


From b9cb474e50f99990868f09ad9f69813b320a32ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:59 +0000
Subject: [PATCH 12/39] fix: ethbr client that could not get the chain id at
 start fails every later submission

---
 chain/ethbr/client/client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index aa91583..e33bc76 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -92,6 +92,13 @@ func (c *Client) GetEthClient() *ethclient.Client {
 }
 
 func (c *Client) NewTransactOpts(k *ecdsa.PrivateKey) (*bind.TransactOpts, error) {
+	if c.chainID == nil {
+		chainID, err := c.GetChainID()
+		if err != nil {
+			return nil, err
+		}
+		c.chainID = chainID
+	}
 	txo, err := bind.NewKeyedTransactorWithChainID(k, c.chainID)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 41559ab1bf21dc015c1d2d2108d0c4c675ea11eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:59 +0000
Subject: [PATCH 13/39] fix: closing a monitor twice at once panics, and blocks
 for ever when the node does not read

---
 chain/icon/client/client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index f7acbe5..a56705f 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -41,6 +41,7 @@ import (
 const (
 	DefaultSendTransactionRetryInterval        = 3 * time.Second         //3sec
 	DefaultGetTransactionResultPollingInterval = 1500 * time.Millisecond //1.5sec
+	DefaultCloseMonitorTimeout                 = 3 * time.Second         //3sec
 )
 
 type Wallet interface {
@@ -509,8 +510,10 @@ func (c *Client) wsRequest(conn *websocket.Conn, reqPtr interface{}) error {
 
 func (c *Client) wsClose(conn *websocket.Conn) {
 	c._removeWsConn(conn)
-	if err := conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, "")); err != nil {
-		c.l.Debugf("fail to WriteMessage CloseNormalClosure err:%+v", err)
+	// WriteControl, unlike WriteMessage, can be called at any time from any goroutine
+	if err := conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""),
+		time.Now().Add(DefaultCloseMonitorTimeout)); err != nil {
+		c.l.Debugf("fail to WriteControl CloseNormalClosure err:%+v", err)
 	}
 	if err := conn.Close(); err != nil {
 		c.l.Debugf("fail to Close err:%+v", err)
-- 
2.43.0


From 51a3dae6ac7832bc238fcfa192498f438431e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:51 +0000
Subject: [PATCH 14/39] fix: closing a monitor a second time ends another
 monitor which got its local port

---
 chain/icon/client/client.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index a56705f..430a929 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -450,8 +450,7 @@ func (c *Client) _removeWsConn(conn *websocket.Conn) {
 	defer c.mtx.Unlock()
 
 	la := conn.LocalAddr().String()
-	_, ok := c.conns[la]
-	if ok {
+	if c.conns[la] == conn {
 		delete(c.conns, la)
 	}
 }
@@ -460,8 +459,7 @@ func (c *Client) _hasWsConn(conn *websocket.Conn) bool {
 	c.mtx.Lock()
 	defer c.mtx.Unlock()
 
-	_, ok := c.conns[conn.LocalAddr().String()]
-	return ok
+	return c.conns[conn.LocalAddr().String()] == conn
 }
 
 type wsConnectError struct {
-- 
2.43.0


From 0ea5d1c2e66db38177c0db6701f6118c0ff77d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 15/39] fix: jsonrpc client alters integers of results and
 error data above 2^53

---
 common/jsonrpc/client.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/jsonrpc/client.go b/common/jsonrpc/client.go
index bb63a69..cb14502 100644
--- a/common/jsonrpc/client.go
+++ b/common/jsonrpc/client.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"io"
 	"net/http"
 	"time"
 
@@ -75,7 +76,7 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 	if err != nil {
 		if hErr, ok := err.(*common.HttpError); ok && len(hErr.Response()) > 0{
 			if resp != nil && common.HasContentType(resp.Header, echo.MIMEApplicationJSON) {
-				if dErr := json.Unmarshal(hErr.Response(), &jrResp); dErr != nil {
+				if dErr := decode(bytes.NewReader(hErr.Response()), &jrResp); dErr != nil {
 					err = fmt.Errorf("fail to decode response body err:%+v, httpErr:%+v, httpResp:%+v, responseBody:%s",
 						dErr, err, resp, string(hErr.Response()))
 				} else if jrResp != nil && jrResp.Error != nil {
@@ -135,6 +136,13 @@ func (c *Client) Raw(reqB []byte) (resp *http.Response, err error) {
 
 func decodeResponseBody(resp *http.Response) (jrResp *Response, err error) {
 	defer resp.Body.Close()
-	err = json.NewDecoder(resp.Body).Decode(&jrResp)
+	err = decode(resp.Body, &jrResp)
 	return
 }
+
+// decode keeps numbers as they are written, float64 cannot hold every integer
+func decode(r io.Reader, v interface{}) error {
+	dec := json.NewDecoder(r)
+	dec.UseNumber()
+	return dec.Decode(v)
+}
-- 
2.43.0


From e48569f21dea8335df5263cd6c9ccaee96049b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:32 +0000
Subject: [PATCH 16/39] fix: HttpClient.Stream hands over a value it is still
 decoding into and leaves its goroutine behind

---
 common/http.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/common/http.go b/common/http.go
index 5fc4397..0921c83 100644
--- a/common/http.go
+++ b/common/http.go
@@ -16,6 +16,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"reflect"
 	"strings"
 	"syscall"
 	"text/template"
@@ -242,16 +243,30 @@ func (c *HttpClient) Stream(reqUrl string, reqPtr, respPtr interface{},
 	}
 	if respFunc != nil {
 		ch := make(chan interface{})
+		done := make(chan struct{})
+		defer close(done)
 		dec := json.NewDecoder(resp.Body)
 		defer resp.Body.Close()
 
+		respType := reflect.TypeOf(respPtr).Elem()
 		go func() {
 			for {
-				if err := dec.Decode(respPtr); err != nil {
-					ch <- err
+				// each item has its own value, respFunc may be using the one before
+				var v interface{}
+				ptr := reflect.New(respType).Interface()
+				if err := dec.Decode(ptr); err != nil {
+					v = err
+				} else {
+					v = ptr
+				}
+				select {
+				case ch <- v:
+				case <-done:
+					return
+				}
+				if _, ok := v.(error); ok {
 					return
 				}
-				ch <- respPtr
 			}
 		}()
 
-- 
2.43.0


From aa069d918a64cc5bbf0d1a18b3cb4e09c2b7d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:33 +0000
Subject: [PATCH 17/39] fix: ethbr block monitor reports a block below the
 requested height and skips blocks the node did not announce

---
 chain/ethbr/client/client.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index e33bc76..e23876b 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -271,21 +271,24 @@ func (c *Client) MonitorBlock(br *BlockRequest, cb func(b *BlockNotification) er
 		return cb(bn)
 	}
 	var (
-		h   *big.Int
+		h   = new(big.Int).Set(br.Height)
 		one = big.NewInt(1)
 	)
 	return c.Monitor(func(bh *types.Header) error {
-		if h == nil {
-			h = new(big.Int).Set(br.Height)
-			for ; h.Cmp(bh.Number) < 0; h = h.Add(h, one) {
-				if tbh, err := c.GetHeaderByHeight(h); err != nil {
-					c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)
-					return err
-				} else if err = onBlockHeader(tbh); err != nil {
-					return err
-				}
+		// blocks which the node did not announce
+		for ; h.Cmp(bh.Number) < 0; h = h.Add(h, one) {
+			if tbh, err := c.GetHeaderByHeight(h); err != nil {
+				c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)
+				return err
+			} else if err = onBlockHeader(tbh); err != nil {
+				return err
 			}
 		}
+		if h.Cmp(bh.Number) > 0 {
+			// before the requested height, or notified already
+			return nil
+		}
+		h = h.Add(h, one)
 		return onBlockHeader(bh)
 	})
 }
-- 
2.43.0


From e09f24acc09c1e6629bceb79e57b174cc5290cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:39 +0000
Subject: [PATCH 18/39] fix: accumulator gives a witness for an element it does
 not have, panics for a length it does not have

WitnessFor and GetNode took a negative index for the first element;
WitnessForWithAccLength cut the witness of a later element to an empty one
and sliced out of range for a length above its own. They return ErrNotFound
now, also through ExtAccumulator.WitnessForAt and GetNode.
---
 common/mta/accumulator.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index 6e9222d..0f26378 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -347,7 +347,7 @@ func (a *Accumulator) AddData(d []byte) []Witness {
 }
 
 func (a *Accumulator) WitnessFor(idx int64) (w []Witness, err error) {
-	if idx >= a.length {
+	if idx < 0 || idx >= a.length {
 		return nil, errors.ErrNotFound
 	}
 	offset := len(a.roots)
@@ -371,6 +371,9 @@ func (a *Accumulator) WitnessFor(idx int64) (w []Witness, err error) {
 }
 
 func (a *Accumulator) WitnessForWithAccLength(idx, accLength int64) (w []Witness, err error) {
+	if idx >= accLength || accLength > a.length {
+		return nil, errors.ErrNotFound
+	}
 	if w, err = a.WitnessFor(idx); err != nil {
 		return nil, err
 	}
@@ -440,7 +443,7 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 }
 
 func (a *Accumulator) GetNode(idx int64) (Node, error) {
-	if idx >= a.length {
+	if idx < 0 || idx >= a.length {
 		return nil, errors.ErrNotFound
 	}
 	offset := len(a.roots)
-- 
2.43.0


From 352c8601eed779b8306081c22ec4089a7a57a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:42 +0000
Subject: [PATCH 19/39] fix: accumulator refuses valid witnesses of a longer
 accumulator, panics on a malformed one

VerifyWithAccLength of an accumulator with an empty root between two others
took the depth of the empty one (e.g. the fifth element of five, proved for
a length of eight), and indexed out of range when the witness did not have
the length that the accumulator length it was given implies.
---
 common/mta/accumulator.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index 0f26378..b974805 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -414,6 +414,9 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 	}
 
 	height := GetHeightFromWitness(ws, accLength)
+	if height < 0 {
+		return errors.IllegalArgumentError.New("InvalidWitness too long")
+	}
 	if height >= a.length {
 		return errors.IllegalArgumentError.New("InvalidWitness newer node")
 	}
@@ -423,20 +426,18 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 		if err != nil {
 			return err
 		}
+		if len(ws) > len(nws) {
+			return errors.IllegalArgumentError.New("InvalidWitness too long")
+		}
 		for i, w := range ws {
 			nws[i] = w
 		}
 		return a.Verify(nws, h)
 	} else {
 		// acc: old, wit: new
-		depth := 0
-		for i := len(a.roots) - 1; i > 0; i-- {
-			bitFlag := int64(1) << uint(i)
-			if height < bitFlag {
-				depth = i
-				break
-			}
-			height -= bitFlag
+		depth := GetDepthByHeightAndAccLength(height, a.length)
+		if depth > len(ws) {
+			return errors.IllegalArgumentError.New("InvalidWitness too short")
 		}
 		return a.Verify(ws[:depth], h)
 	}
-- 
2.43.0


From 64fbc61249e6391abd34aa6d1a51b1a09570a1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:25 +0000
Subject: [PATCH 20/39] fix: badger bucket reads an empty value as a missing
 one, dereferences a missing item on errors

---
 common/db/badger_db.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/db/badger_db.go b/common/db/badger_db.go
index 77185c1..f5a0c47 100644
--- a/common/db/badger_db.go
+++ b/common/db/badger_db.go
@@ -74,8 +74,10 @@ func (bucket *badgerBucket) Get(key []byte) ([]byte, error) {
 			if err == badger.ErrKeyNotFound {
 				return nil
 			}
+			return err
 		}
-		value, err = item.ValueCopy(nil)
+		// ValueCopy(nil) would return nil for an empty value
+		value, err = item.ValueCopy([]byte{})
 		return err
 	})
 	return value, err
-- 
2.43.0


From f50a6f86b74cd7421850c0ad9949f5368e39a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:28 +0000
Subject: [PATCH 21/39] fix: badger database panics or blocks for ever when
 used after it was closed

---
 common/db/badger_db.go | 44 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/common/db/badger_db.go b/common/db/badger_db.go
index f5a0c47..facd872 100644
--- a/common/db/badger_db.go
+++ b/common/db/badger_db.go
@@ -2,8 +2,11 @@ package db
 
 import (
 	"path/filepath"
+	"sync"
 
 	"github.com/dgraph-io/badger"
+
+	"github.com/icon-project/btp/common/errors"
 )
 
 func init() {
@@ -41,18 +44,45 @@ var _ Database = (*BadgerDB)(nil)
 
 type BadgerDB struct {
 	db *badger.DB
+
+	// badger panics or blocks when it's used after Close()
+	lock   sync.RWMutex
+	closed bool
+}
+
+func (db *BadgerDB) view(fn func(txn *badger.Txn) error) error {
+	db.lock.RLock()
+	defer db.lock.RUnlock()
+	if db.closed {
+		return errors.InvalidStateError.New("Closed")
+	}
+	return db.db.View(fn)
+}
+
+func (db *BadgerDB) update(fn func(txn *badger.Txn) error) error {
+	db.lock.RLock()
+	defer db.lock.RUnlock()
+	if db.closed {
+		return errors.InvalidStateError.New("Closed")
+	}
+	return db.db.Update(fn)
 }
 
 func (db *BadgerDB) GetBucket(id BucketID) (Bucket, error) {
 	return &badgerBucket{
 		id: id,
-		db: db.db,
+		db: db,
 	}, nil
 }
 
 func (db *BadgerDB) Close() error {
-	err := db.db.Close()
-	return err
+	db.lock.Lock()
+	defer db.lock.Unlock()
+	if db.closed {
+		return errors.InvalidStateError.New("Closed")
+	}
+	db.closed = true
+	return db.db.Close()
 }
 
 //----------------------------------------
@@ -62,13 +92,13 @@ var _ Bucket = (*badgerBucket)(nil)
 
 type badgerBucket struct {
 	id BucketID
-	db *badger.DB
+	db *BadgerDB
 }
 
 func (bucket *badgerBucket) Get(key []byte) ([]byte, error) {
 	ikey := internalKey(bucket.id, key)
 	var value []byte
-	err := bucket.db.View(func(txn *badger.Txn) error {
+	err := bucket.db.view(func(txn *badger.Txn) error {
 		item, err := txn.Get(ikey)
 		if err != nil {
 			if err == badger.ErrKeyNotFound {
@@ -93,7 +123,7 @@ func (bucket *badgerBucket) Has(key []byte) bool {
 
 func (bucket *badgerBucket) Set(key []byte, value []byte) error {
 	ikey := internalKey(bucket.id, key)
-	return bucket.db.Update(func(txn *badger.Txn) error {
+	return bucket.db.update(func(txn *badger.Txn) error {
 		err := txn.Set(ikey, value)
 		return err
 	})
@@ -101,7 +131,7 @@ func (bucket *badgerBucket) Set(key []byte, value []byte) error {
 
 func (bucket *badgerBucket) Delete(key []byte) error {
 	ikey := internalKey(bucket.id, key)
-	return bucket.db.Update(func(txn *badger.Txn) error {
+	return bucket.db.update(func(txn *badger.Txn) error {
 		return txn.Delete(ikey)
 	})
 }
-- 
2.43.0


From ad306ae01bc01b556614ca3c1d9df2e0f19be175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:03 +0000
Subject: [PATCH 22/39] fix: layered bucket hands out its own buffer, a caller
 that changes what it read changes the stored value

---
 common/db/layer_db.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/db/layer_db.go b/common/db/layer_db.go
index da137a5..8452ab2 100644
--- a/common/db/layer_db.go
+++ b/common/db/layer_db.go
@@ -18,7 +18,12 @@ func (bk *layerBucket) Get(key []byte) ([]byte, error) {
 
 	if bk.data != nil {
 		if value, ok := bk.data[string(key)]; ok {
-			return value, nil
+			if value == nil {
+				return nil, nil
+			}
+			v2 := make([]byte, len(value))
+			copy(v2, value)
+			return v2, nil
 		}
 	}
 	return bk.real.Get(key)
-- 
2.43.0


From 7591db685d90d6c344d126dc98dc1d79f8eb4989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:33 +0000
Subject: [PATCH 23/39] fix: layered database gives up the data of some buckets
 when a flush fails

A flush dropped the data of each bucket as soon as that bucket was written;
when a later bucket failed, further writes to the earlier ones went
straight to the underlying database and could no longer be discarded. All
buckets are written first now, with all of them locked.
---
 common/db/layer_db.go | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/common/db/layer_db.go b/common/db/layer_db.go
index 8452ab2..5890d87 100644
--- a/common/db/layer_db.go
+++ b/common/db/layer_db.go
@@ -71,24 +71,20 @@ func (bk *layerBucket) Delete(key []byte) error {
 	}
 }
 
-func (bk *layerBucket) Flush(write bool) error {
-	bk.lock.Lock()
-	defer bk.lock.Unlock()
-
-	if write && bk.data != nil {
-		for k, v := range bk.data {
-			if v == nil {
-				if err := bk.real.Delete([]byte(k)); err != nil {
-					return err
-				}
-			} else {
-				if err := bk.real.Set([]byte(k), v); err != nil {
-					return err
-				}
+// write stores the data of the layer to the real bucket.
+// It should be called with the lock.
+func (bk *layerBucket) write() error {
+	for k, v := range bk.data {
+		if v == nil {
+			if err := bk.real.Delete([]byte(k)); err != nil {
+				return err
+			}
+		} else {
+			if err := bk.real.Set([]byte(k), v); err != nil {
+				return err
 			}
 		}
 	}
-	bk.data = nil
 	return nil
 }
 
@@ -127,11 +123,21 @@ func (ldb *layerDB) Flush(write bool) error {
 	ldb.lock.Lock()
 	defer ldb.lock.Unlock()
 
+	// no bucket gives up its data before all of them are written
 	for _, bk := range ldb.buckets {
-		if err := bk.Flush(write); err != nil {
-			return err
+		bk.lock.Lock()
+		defer bk.lock.Unlock()
+	}
+	if write {
+		for _, bk := range ldb.buckets {
+			if err := bk.write(); err != nil {
+				return err
+			}
 		}
 	}
+	for _, bk := range ldb.buckets {
+		bk.data = nil
+	}
 	ldb.flushed = true
 	return nil
 }
-- 
2.43.0


From 2f5bcbd47b134b6bed8772b129a321c22ca5e9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:06 +0000
Subject: [PATCH 24/39] fix: RLP decoder takes a list that is cut for a shorter
 one

A list whose bytes end before its announced length (a cut stream, or an
inner list longer than the one around it) was decoded as if it had ended
there, with the remaining elements missing.
---
 common/codec/rlp.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/common/codec/rlp.go b/common/codec/rlp.go
index 8392c46..07d99ee 100644
--- a/common/codec/rlp.go
+++ b/common/codec/rlp.go
@@ -20,6 +20,28 @@ type rlpReader struct {
 	reader io.Reader
 }
 
+// listReader reads the payload of a list. It differs from io.LimitedReader
+// in that it's an error if the underlying reader ends before the payload.
+type listReader struct {
+	reader io.Reader
+	remain int64
+}
+
+func (r *listReader) Read(p []byte) (int, error) {
+	if r.remain <= 0 {
+		return 0, io.EOF
+	}
+	if int64(len(p)) > r.remain {
+		p = p[:r.remain]
+	}
+	n, err := r.reader.Read(p)
+	r.remain -= int64(n)
+	if err == io.EOF && r.remain > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
 func sizeToBytes(s int) []byte {
 	return intconv.SizeToBytes(uint64(s))
 }
@@ -108,7 +130,7 @@ func (r *rlpReader) readList() (Reader, error) {
 	case tag <= 0xF7:
 		size := tag - 0xC0
 		return &rlpReader{
-			reader: io.LimitReader(r.reader, int64(size)),
+			reader: &listReader{r.reader, int64(size)},
 		}, nil
 	default:
 		sz := tag - 0xF7
@@ -120,7 +142,7 @@ func (r *rlpReader) readList() (Reader, error) {
 			return nil, ErrNilValue
 		}
 		return &rlpReader{
-			reader: io.LimitReader(r.reader, int64(sz2)),
+			reader: &listReader{r.reader, int64(sz2)},
 		}, nil
 	}
 }
-- 
2.43.0


From c7d2e6e6c041585aa36f31cd8f3c21cfa952351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 25/39] fix: RLP decoder panics or allocates without limit on a
 corrupted length

The announced length was allocated before a byte of it was read, and one
above the integer range became negative.
---
 common/codec/rlp.go | 54 ++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/common/codec/rlp.go b/common/codec/rlp.go
index 07d99ee..cf82807 100644
--- a/common/codec/rlp.go
+++ b/common/codec/rlp.go
@@ -64,7 +64,35 @@ func (r *rlpReader) readSize(buffer []byte) (int, error) {
 	if err := r.readAll(buffer); err != nil {
 		return 0, err
 	}
-	return bytesToSize(buffer), nil
+	sz := bytesToSize(buffer)
+	if sz < 0 {
+		return 0, cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(size=%#x)", buffer)
+	}
+	return sz, nil
+}
+
+// maxPrealloc is the largest size which is allocated before it's read
+const maxPrealloc = 64 * 1024
+
+// readN returns prefix followed by n bytes of the stream.
+func (r *rlpReader) readN(prefix []byte, n int) ([]byte, error) {
+	if n <= maxPrealloc {
+		buffer := make([]byte, len(prefix)+n)
+		copy(buffer, prefix)
+		if err := r.readAll(buffer[len(prefix):]); err != nil {
+			return nil, err
+		}
+		return buffer, nil
+	}
+	var buffer bytes.Buffer
+	buffer.Write(prefix)
+	if _, err := io.CopyN(&buffer, r.reader, int64(n)); err != nil {
+		if err == io.EOF {
+			return nil, cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(sz=%d,err=%s)", n, err)
+		}
+		return nil, cerrors.WithStack(err)
+	}
+	return buffer.Bytes(), nil
 }
 
 func (r *rlpReader) readAll(buffer []byte) error {
@@ -177,12 +205,7 @@ func (r *rlpReader) readBytes() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		buffer := make([]byte, sz2)
-		if err := r.readAll(buffer); err != nil {
-			return nil, err
-		} else {
-			return buffer, nil
-		}
+		return r.readN(nil, sz2)
 	case tag == 0xF8:
 		if sz2, err := r.readSize(header[1:2]); err != nil {
 			return nil, err
@@ -240,15 +263,6 @@ func (r *rlpReader) ReadBytes() ([]byte, error) {
 	return r.readBytes()
 }
 
-func (r *rlpReader) readMore(org []byte, size int) ([]byte, error) {
-	buffer := make([]byte, len(org)+size)
-	copy(buffer, org)
-	if err := r.readAll(buffer[len(org):]); err != nil {
-		return nil, err
-	}
-	return buffer, nil
-}
-
 func (r *rlpReader) ReadRaw() ([]byte, error) {
 	var header [9]byte
 	if _, err := io.ReadFull(r.reader, header[0:1]); err != nil {
@@ -260,24 +274,24 @@ func (r *rlpReader) ReadRaw() ([]byte, error) {
 		return header[0:1], nil
 	case tag <= 0xB7:
 		size := tag - 0x80
-		return r.readMore(header[0:1], size)
+		return r.readN(header[0:1], size)
 	case tag < 0xC0:
 		sz := tag - 0xB7
 		sz2, err := r.readSize(header[1 : 1+sz])
 		if err != nil {
 			return nil, err
 		}
-		return r.readMore(header[0:1+sz], sz2)
+		return r.readN(header[0:1+sz], sz2)
 	case tag <= 0xF7:
 		sz := tag - 0xC0
-		return r.readMore(header[0:1], sz)
+		return r.readN(header[0:1], sz)
 	default:
 		sz := tag - 0xF7
 		sz2, err := r.readSize(header[1 : 1+sz])
 		if err != nil {
 			return nil, err
 		}
-		return r.readMore(header[0:1+sz], sz2)
+		return r.readN(header[0:1+sz], sz2)
 	}
 }
 
-- 
2.43.0


From 909ce16c4a3b44bf79e73a1550b63ffbfd79686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:43 +0000
Subject: [PATCH 26/39] fix: Address.SetBytes panics on empty bytes

---
 common/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/address.go b/common/address.go
index 7ced1c8..d2471a2 100644
--- a/common/address.go
+++ b/common/address.go
@@ -79,7 +79,7 @@ func (a *Address) ID() []byte {
 }
 
 func (a *Address) SetBytes(b []byte) error {
-	if b == nil {
+	if len(b) == 0 {
 		return errors.ErrIllegalArgument
 	}
 	switch b[0] {
-- 
2.43.0


From d1c0e7f884520c9a3877cbbed38408a67515cfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:27 +0000
Subject: [PATCH 27/39] fix: MessagePack raw value loses a nil

---
 common/codec/msgpack.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/common/codec/msgpack.go b/common/codec/msgpack.go
index c595a74..f1a8fe4 100644
--- a/common/codec/msgpack.go
+++ b/common/codec/msgpack.go
@@ -136,6 +136,15 @@ func (r *mpReader) ReadRaw() ([]byte, error) {
 	if err := r.consumeN(1); err != nil {
 		return nil, err
 	}
+	// The decoder does not hand a nil over to rawBytes.
+	if code, err := r.real.PeekCode(); err != nil {
+		return nil, errors.WithStack(err)
+	} else if code == codes.Nil {
+		if err := r.real.DecodeNil(); err != nil {
+			return nil, errors.WithStack(err)
+		}
+		return []byte{byte(codes.Nil)}, nil
+	}
 	var rb rawBytes
 	if err := r.real.Decode(&rb); err != nil {
 		return nil, errors.WithStack(err)
-- 
2.43.0


From c502730a46f19ee3506654a68edee5aa0642e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:12 +0000
Subject: [PATCH 28/39] fix: a configuration with a key store cannot be loaded
 with newer Go

---
 common/cli/helper.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/cli/helper.go b/common/cli/helper.go
index dfc0b21..8bd17ca 100644
--- a/common/cli/helper.go
+++ b/common/cli/helper.go
@@ -266,11 +266,15 @@ func StringToStringConv(val string) (map[string]interface{}, error) {
 	return out, nil
 }
 
+// rawMessageType is compared by identity: the name of the type depends on the
+// version of Go.
+var rawMessageType = reflect.TypeOf(json.RawMessage(nil))
+
 func ViperDecodeOptJson(c *mapstructure.DecoderConfig) {
 	c.TagName = "json"
 	c.DecodeHook = mapstructure.ComposeDecodeHookFunc(
 		func(inputValType reflect.Type, outValType reflect.Type, input interface{}) (interface{}, error) {
-			if outValType.Name() == "RawMessage" {
+			if outValType == rawMessageType {
 				if inputValType.Kind() == reflect.Map && inputValType.Key().Kind() == reflect.String {
 					return json.Marshal(input)
 				} else if inputValType.Kind() == reflect.String {
@@ -282,7 +286,7 @@ func ViperDecodeOptJson(c *mapstructure.DecoderConfig) {
 				}
 			} else if inputValType.Kind() == reflect.String && outValType.Kind() == reflect.Map {
 				m, err := StringToStringConv(input.(string))
-				if outValType.Key().Kind() == reflect.String && outValType.Elem().Name() == "RawMessage" {
+				if outValType.Key().Kind() == reflect.String && outValType.Elem() == rawMessageType {
 					m2 := make(map[string]json.RawMessage)
 					for k, v := range m {
 						if s, ok := v.(string); ok {
-- 
2.43.0


From 7f06740fa303caddd75332fcfe0fd830a51e8be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:12 +0000
Subject: [PATCH 29/39] fix: a damaged key store panics

---
 common/wallet/keystore.go     |  7 +++++++
 common/wallet/keystore_evm.go | 10 +++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/common/wallet/keystore.go b/common/wallet/keystore.go
index 118bb15..35d438a 100644
--- a/common/wallet/keystore.go
+++ b/common/wallet/keystore.go
@@ -51,6 +51,9 @@ func (p *ScryptParams) Init() error {
 }
 
 func (p *ScryptParams) Key(pw []byte) ([]byte, error) {
+	if p.R < 1 || p.P < 1 || p.DKLen < 32 {
+		return nil, errors.Errorf("InvalidScryptParams(r=%d,p=%d,dklen=%d)", p.R, p.P, p.DKLen)
+	}
 	return scrypt.Key(pw, p.Salt.Bytes(), p.N, p.R, p.P, p.DKLen)
 }
 
@@ -214,6 +217,10 @@ func DecryptICONKeyStore(ksData *KeyStoreData, pw []byte) (*crypto.PrivateKey, e
 		return nil, err
 	}
 
+	if len(cipherParams.IV.Bytes()) != block.BlockSize() {
+		return nil, errors.Errorf("InvalidIVLength(len=%d)", len(cipherParams.IV.Bytes()))
+	}
+
 	secretBytes := make([]byte, len(cipheredBytes))
 
 	stream := cipher.NewCTR(block, cipherParams.IV.Bytes())
diff --git a/common/wallet/keystore_evm.go b/common/wallet/keystore_evm.go
index d34fa88..921e187 100644
--- a/common/wallet/keystore_evm.go
+++ b/common/wallet/keystore_evm.go
@@ -4,9 +4,17 @@ import (
 	"crypto/ecdsa"
 
 	"github.com/ethereum/go-ethereum/accounts/keystore"
+
+	"github.com/icon-project/btp/common/errors"
 )
 
-func DecryptEvmKeyStore(ksData, pw []byte) (*ecdsa.PrivateKey, error) {
+func DecryptEvmKeyStore(ksData, pw []byte) (sk *ecdsa.PrivateKey, err error) {
+	// the library panics on parameters out of range
+	defer func() {
+		if r := recover(); r != nil {
+			sk, err = nil, errors.Errorf("InvalidKeyStore(err=%v)", r)
+		}
+	}()
 	key, err := keystore.DecryptKey(ksData, string(pw))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 17d34f27d73fb7dc4260b0e14eb3f857fcc47b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:12 +0000
Subject: [PATCH 30/39] fix: a damaged EVM key store gives another wallet

---
 common/wallet/keystore_evm.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/common/wallet/keystore_evm.go b/common/wallet/keystore_evm.go
index 921e187..10aec70 100644
--- a/common/wallet/keystore_evm.go
+++ b/common/wallet/keystore_evm.go
@@ -2,8 +2,10 @@ package wallet
 
 import (
 	"crypto/ecdsa"
+	"encoding/json"
 
 	"github.com/ethereum/go-ethereum/accounts/keystore"
+	"github.com/ethereum/go-ethereum/common"
 
 	"github.com/icon-project/btp/common/errors"
 )
@@ -19,5 +21,16 @@ func DecryptEvmKeyStore(ksData, pw []byte) (sk *ecdsa.PrivateKey, err error) {
 	if err != nil {
 		return nil, err
 	}
+	var data struct {
+		Address string `json:"address"`
+	}
+	if err = json.Unmarshal(ksData, &data); err != nil {
+		return nil, err
+	}
+	// the address is optional
+	if data.Address != "" && common.HexToAddress(data.Address) != key.Address {
+		return nil, errors.Errorf("recovered address is mismatched, %s, expected:%s",
+			key.Address.Hex(), data.Address)
+	}
 	return key.PrivateKey, nil
 }
-- 
2.43.0


From 09881275f58a76655cb31ef1c86838d397b4d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:12 +0000
Subject: [PATCH 31/39] fix: a source key secret that cannot be read is taken
 as an empty password

---
 cmd/relay/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index 6ec705e..b4eddee 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -82,6 +82,9 @@ func (c *Config) resolvePassword(keySecret, keyStorePass string) ([]byte, error)
 
 func (c *Config) EnsureWallet() error {
 	srcPw, err := c.resolvePassword(c.Src.KeySecret, c.Src.KeyStorePass)
+	if err != nil {
+		return err
+	}
 	dstPw, err := c.resolvePassword(c.Dst.KeySecret, c.Dst.KeyStorePass)
 	if err != nil {
 		return err
-- 
2.43.0


From ce3090bb803da38f54878a5f9e3bd06520a44585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:12 +0000
Subject: [PATCH 32/39] fix: save stores paths relative to the wrong directory

---
 cmd/relay/main.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index b4eddee..2c1cc45 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -230,11 +230,17 @@ func main() {
 		},
 		RunE: func(cmd *cobra.Command, args []string) error {
 			saveFilePath := args[0]
+			// paths are relative to the configuration file, which is about to be another one
+			baseDir := cfg.AbsBaseDir()
+			var logfile string
+			if cfg.LogWriter != nil && cfg.LogWriter.Filename != "" {
+				logfile = cfg.ResolveAbsolute(cfg.LogWriter.Filename)
+			}
 			cfg.FilePath, _ = filepath.Abs(saveFilePath)
-			cfg.BaseDir = cfg.ResolveRelative(cfg.BaseDir)
+			cfg.BaseDir = cfg.ResolveRelative(baseDir)
 
-			if cfg.LogWriter != nil {
-				cfg.LogWriter.Filename = cfg.ResolveRelative(cfg.LogWriter.Filename)
+			if logfile != "" {
+				cfg.LogWriter.Filename = cfg.ResolveRelative(logfile)
 			}
 
 			if err := cli.JsonPrettySaveFile(saveFilePath, 0644, cfg); err != nil {
-- 
2.43.0


From d9bea1ca56e98bd7d3692fb9d500ef801e6f6c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 33/39] fix: bridge verifier returns only the last of several
 messages

---
 .../java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java b/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
index 5f1f99d..de7da21 100644
--- a/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
+++ b/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
@@ -78,7 +78,7 @@ public class BTPMessageVerifier implements BMV {
         byte[][] ret = new byte[msgs.size()][];
         int i = 0;
         for (byte[] msg : msgs) {
-            ret[i] = msg;
+            ret[i++] = msg;
         }
         return ret;
     }
-- 
2.43.0


From 3a624126eb84d995087dc9ff5b0bb9311cc2b1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 34/39] fix: BTP block verifier folds the network section path
 over the leaf only

---
 .../java/foundation/icon/btp/bmv/btpblock/BlockHeader.java    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
index 9870a9d..eda81c1 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
@@ -159,9 +159,9 @@ public class BlockHeader {
         byte[] h = leaf;
         for (NetworkSectionToRoot nsRoot : networkSectionToRoot) {
             if (nsRoot.dir == NetworkSectionToRoot.LEFT) {
-                h = concatAndHash(nsRoot.value, leaf);
+                h = concatAndHash(nsRoot.value, h);
             } else if (nsRoot.dir == NetworkSectionToRoot.RIGHT) {
-                h = concatAndHash(leaf, nsRoot.value);
+                h = concatAndHash(h, nsRoot.value);
             }
         }
         return h;
-- 
2.43.0


From 148aa4059f34300a5f2e361b66e54823511e4bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 35/39] fix: a claim whose response fails leaves its reward at
 both ends

---
 .../java/foundation/icon/btp/bmc/BTPMessageCenter.java     | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index f97ceac..28af0bf 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -645,13 +645,8 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
                 ClaimMessage claimMsg = ClaimMessage.fromBytes(payload);
                 BigInteger reward = claimMsg.getAmount();
                 Address receiver = toAddress(claimMsg.getReceiver());
+                sendInternalResponse(src, nsn);
                 addReward(receiver, btpAddr.net(), reward);
-                try {
-                    sendInternalResponse(src, nsn);
-                } catch (Exception e) {
-                    addReward(receiver, btpAddr.net(), reward.negate());
-                    throw e;
-                }
                 break;
             case Response:
                 ResponseMessage responseMsg = ResponseMessage.fromBytes(payload);
-- 
2.43.0


From b2f5f8b2c08c9be7452ddb53d447798438b71b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 36/39] fix: removeLink leaves half of the link's relays
 registered

---
 .../src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index 28af0bf..f6b3e08 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -251,7 +251,7 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
             throw BMCException.unknown("could not remove, referred by route");
         }
         ArrayDB<Address> arrayDB = relays.at(_link);
-        for(int i = 0; i < arrayDB.size(); i++ ) {
+        while (arrayDB.size() > 0) {
             arrayDB.removeLast();
         }
         BigInteger networkId = btpLinkNetworkIds.get(_link);
-- 
2.43.0


From 4e7e211b959fc906eb70300f0c94bc441e8e1757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 37/39] fix: a service's own revert code is reported as no
 route or no service

---
 .../main/java/foundation/icon/btp/bmc/BTPMessageCenter.java | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index f6b3e08..21a759c 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -791,12 +791,12 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
             return new ResponseMessage(ResponseMessage.CODE_SUCCESS, "");
         }
         long code = ResponseMessage.CODE_UNKNOWN;
-        if (BMCException.Code.Unreachable.code == exception.getCodeOfType()) {
+        if (BTPException.Type.BSH.equals(exception.getType())) {
+            code = ResponseMessage.CODE_BSH_REVERT;
+        } else if (BMCException.Code.Unreachable.code == exception.getCodeOfType()) {
             code = ResponseMessage.CODE_NO_ROUTE;
         } else if (BMCException.Code.NotExistsBSH.code == exception.getCodeOfType()) {
             code = ResponseMessage.CODE_NO_BSH;
-        } else if (BTPException.Type.BSH.equals(exception.getType())) {
-            code = ResponseMessage.CODE_BSH_REVERT;
         }
         return new ResponseMessage(code, exception.getMessage());
     }
-- 
2.43.0


From f54d845be31842f409fdc8230078851feac348ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 38/39] fix: the remaining fee of a refused message is
 collected twice

---
 .../java/foundation/icon/btp/bmc/BTPMessageCenter.java    | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index 21a759c..9da028d 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -599,8 +599,6 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
                         collectRemainFee(oldInfo.getFeeInfo());
                     }
                     responseInfoDictDb.set(sn, new ResponseInfo(msg.getNsn(), msg.getFeeInfo()));
-                } else {
-                    collectRemainFee(feeInfo);
                 }
             }
 
@@ -617,9 +615,12 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
                 }
                 throw BTPException.of(e, BTPException.Type.BSH);
             }
+            // in case of failure, the remaining fee is collected by the caller
+            if (snCompare == 0) {
+                collectRemainFee(feeInfo);
+            }
         } else {
             sn = sn.negate();
-            collectRemainFee(feeInfo);
             try {
                 ResponseMessage responseMessage = ResponseMessage.fromBytes(payload);
                 long eCode = responseMessage.getCode();
@@ -633,6 +634,7 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
             } catch (Exception e) {
                 throw BTPException.of(e, BTPException.Type.BSH);
             }
+            collectRemainFee(feeInfo);
         }
     }
 
-- 
2.43.0


From 008f98e5f9a291267ab9f91b893b78a914c424dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:13 +0000
Subject: [PATCH 39/39] fix: a message proof with a negative number of leaves
 proves a message nobody sent

---
 .../java/foundation/icon/btp/bmv/btpblock/MessageProof.java     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/MessageProof.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/MessageProof.java
index 9a340f7..a01933a 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/MessageProof.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/MessageProof.java
@@ -97,6 +97,7 @@ public class MessageProof {
         int left = 0, total = 0;
         for (ProofNode pn : leftProofNodes) {
             var num = pn.getNumOfLeaf();
+            if (num <= 0) throw BMVException.unknown("invalid numOfLeaf : " + num);
             node = node.add(num, pn.getValue());
             left += num;
         }
@@ -108,6 +109,7 @@ public class MessageProof {
 
         for (ProofNode pn : rightProofNodes) {
             var num = pn.getNumOfLeaf();
+            if (num <= 0) throw BMVException.unknown("invalid numOfLeaf : " + num);
             node = node.add(num, pn.getValue());
             total += num;
         }
-- 
2.43.0

