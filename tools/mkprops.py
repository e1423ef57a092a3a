#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

RELAY = ["common/link/link.go", "cmd/relay/linkfatory.go"]
NOTEST = "The repository has no test of the relay, its receivers, its senders or its clients that runs without live chains (those tests are skipped or fail); "
p("C01", "ICON BTP-block link delivers every message exactly once, in order",
  "For a link whose source is an ICON chain with BTP blocks, the messages the destination contract accepts are at every moment an exact prefix of the messages the source emitted for that destination, and once faults stop every emitted message is accepted. Without faults and without competing relays no submission of the relay is refused, whatever the number and size of messages per block, partial proofs, blocks without messages, a destination that is ahead in blocks but behind in messages, and blocks produced faster than they are relayed.",
  ["schedules", "crash_points", "histories", "fault_sequences", "configurations"],
  "every history of source blocks and messages, start position of the destination, interleaving of notifications, requests and results, RPC and websocket fault sequence, and crash or restart point of the relay",
  NOTEST + "a sampled test cannot reach the interleavings of the block stream with the results of earlier submissions.",
  RELAY + ["chain/icon/btp2/btp2.go", "chain/icon/btp2/message.go", "chain/icon/sender.go", "common/mbt/tree.go", "common/mbt/proof.go"],
  [("block updates, message proofs and partial proofs are built from the link status and the received blocks", "common/link/link.go"), ("merkle tree and proofs over the messages of a block", "chain/icon/btp2/btp2.go, common/mbt")],
  ["the destination contract's list of accepted messages", "transactions refused by the destination"],
  [dict(name="link status", meaning="where the relay believes the destination is", where="common/link/link.go")], "chain/icon/client/transport_verif.go")
p("C02", "ICON bridge-mode link delivers every message exactly once, in order",
  "For a link whose source is an ICON chain in bridge mode, the messages the destination contract accepts are at every moment an exact prefix of the messages the source emitted for that destination, and once faults stop every emitted message is accepted, whatever the sequence offset of the link, the number and size of messages per block and the position at which the relay (re)starts. Without faults and competing relays no submission of the relay is refused.",
  ["schedules", "crash_points", "histories", "fault_sequences", "configurations"],
  "every history of source blocks and messages, sequence offset, restart position, interleaving and fault sequence",
  NOTEST + "sequence arithmetic only goes wrong for particular offsets and restart positions.",
  RELAY + ["chain/icon/bridge/bridge.go", "chain/icon/bridge/message.go", "chain/icon/sender.go", "chain/ethbr/sender.go"],
  [("sequence numbers derived from the block's update number and the link's offset", "chain/icon/bridge/bridge.go"), ("splitting of events over relay messages by size", "chain/icon/bridge/bridge.go")],
  ["the destination contract's list of accepted messages"], None, "chain/icon/client/transport_verif.go")
p("C03", "Ethereum-source link delivers every message exactly once, in order",
  "For a link whose source is an Ethereum-style chain, the messages the destination contract accepts are at every moment an exact prefix of the messages the source contract emitted for that destination (events for other destinations and from other contracts never appear), and once faults stop every emitted message is accepted, also when a block's messages come from several transactions or have to be split over several submissions. Without faults and competing relays no submission of the relay is refused.",
  ["schedules", "crash_points", "histories", "fault_sequences", "configurations"],
  "every history of source blocks, logs and destinations, restart position, interleaving and fault sequence",
  NOTEST + "no unit test reaches a restart in the middle of a block's messages.",
  RELAY + ["chain/ethbr/receiver.go", "chain/ethbr/message.go", "chain/ethbr/client/client.go", "chain/icon/sender.go"],
  [("event logs are filtered by destination and sequence and grouped by transaction", "chain/ethbr/receiver.go"), ("catch-up from the verified height", "chain/ethbr/client/client.go")],
  ["the destination contract's list of accepted messages"], None, "chain/ethbr/client/dial_verif.go")
p("C04", "A relay makes progress or terminates; it never stalls silently",
  "In every deployment of the relay command (any source and destination kind, one or both directions), once faults stop and a supervisor restarts the process whenever it ends, every pending message is relayed within a bounded time. As long as the process lives it keeps relaying; it never deadlocks, spins, dereferences nil, indexes out of range or loses a failed direction while the other goes on.",
  ["schedules", "crash_points", "fault_sequences", "configurations"],
  "every fault sequence on either endpoint followed by a fault-free period, every interleaving, direction and chain pairing",
  NOTEST + "liveness after a fault needs the whole process with its timers and goroutines.",
  RELAY + ["cmd/relay/main.go", "chain/icon/btp2/btp2.go", "chain/icon/bridge/bridge.go", "chain/ethbr/receiver.go", "chain/icon/sender.go", "chain/ethbr/sender.go"],
  [("errors of receiver and sender end the link, which ends the process", "common/link/link.go, cmd/relay/linkfatory.go"), ("a failed submission is rebuilt from the destination's status", "common/link/link.go")],
  ["destination state after the fault-free period", "process exit", "run-time panics"], None, "chain/icon/client/transport_verif.go, chain/ethbr/client/dial_verif.go")
p("C05", "ICON sender reports each submission's true outcome exactly once",
  "Every transaction the ICON sender submits is well-formed (its hash and signature verify against the sender's wallet, its network id, target contract, source link and payload are those of the relay message), and for every relay message handed over whose submission was accepted, it ends with exactly one outcome that matches the chain: success only if the transaction succeeded, otherwise the contract's revert code or a generic error. Pool overflow, duplicate, expired, pending and executing replies are ridden out without giving a wrong outcome and without submitting the same message successfully twice.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every relay message, reply sequence of the node, delay before execution, clock difference and network fault",
  "The sender has no tests; outcomes depend on the order of node replies over time.",
  ["chain/icon/sender.go", "chain/icon/client/client.go", "chain/icon/client/serialize.go", "chain/icon/client/error.go", "common/wallet/wallet.go", "common/crypto/signature.go"],
  [("send loop re-signs expired and re-sends overflowed transactions", "chain/icon/sender.go sendTransaction"), ("polling of the result and mapping of revert codes", "chain/icon/sender.go GetResult")],
  ["sender channel", "transactions seen by the node"], None, "chain/icon/client/transport_verif.go")
p("C06", "Ethereum sender reports each submission's true outcome exactly once",
  "Every transaction the Ethereum sender submits carries the relay message and source link unchanged to the configured contract, signed by the wallet for the chain's id with a usable nonce; for every relay message whose submission was accepted it ends with exactly one outcome that matches the chain: success only if the transaction succeeded, otherwise the contract's revert code, or a generic error when the outcome cannot be learned.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every relay message, reply sequence of the node, block delay and network fault",
  "The sender has no tests; outcomes depend on the order of node replies over time.",
  ["chain/ethbr/sender.go", "chain/ethbr/client/client.go", "chain/ethbr/client/error.go", "chain/ethbr/binding/bmc_abigen.go"],
  [("polling until mined, then receipt status and revert reason", "chain/ethbr/sender.go GetResult")],
  ["sender channel", "transactions seen by the node"], None, "chain/ethbr/client/dial_verif.go")
p("C07", "A relay message above the transaction limit reassembles to itself",
  "A relay message of any size handed to the ICON sender reaches the destination contract as one submission, or as a sequence of fragments, none above the transaction size limit, which the contract's reassembly turns back into exactly the same bytes, in the order the contract requires, also when the node overflows, reports duplicates or expiry between fragments. A message is never reported as successful when its fragments did not all arrive.",
  ["inputs", "schedules", "fault_sequences"],
  "every message size (in particular multiples of the limit and their neighbours), and every node reply sequence between fragments",
  "No test builds a relay message above the limit.",
  ["chain/icon/sender.go"], [("fragment index countdown, first one negative", "chain/icon/sender.go _relay")],
  ["the contract's reassembly buffer"], None, "chain/icon/client/transport_verif.go")
p("C08", "ICON monitors hand over the node's stream in order or end",
  "A BTP, block or event monitor of the ICON client hands every notification the node sent on the connection to its callback exactly once, in order and unmixed with earlier ones, and calls nothing after it returned. When the node refuses, sends garbage, closes or drops the connection, or when the callback fails or the monitor is closed by the client, the call returns (never blocks), reports an error unless the end was requested or a normal closure, and leaves the client able to run other monitors at the same time.",
  ["schedules", "inputs", "fault_sequences"],
  "every stream of notifications, cut or close at every point, concurrent monitors and closes",
  "The clients' monitors have no offline tests; timing of closes against reads cannot be sampled.",
  ["chain/icon/client/client.go"], [("read loop over the websocket with a table of live connections", "chain/icon/client/client.go wsReadJSONLoop")],
  ["callbacks", "return value of the monitor call"])
p("C09", "JSON-RPC client succeeds only with the server's complete result",
  "A call of the JSON-RPC client returns success only if the server answered this request with a result, which is then delivered unchanged; an error object of the server is delivered as that error with its code, message and data, whatever the HTTP status. Refused, reset, truncated, empty, non-JSON and HTTP-error replies always give an error, never a panic, a nil result or a mix of two replies, also with calls in parallel.",
  ["inputs", "schedules", "fault_sequences"],
  "every reply (valid or garbled), transport fault and interleaving of parallel calls",
  "There is no test of the JSON-RPC client at all.",
  ["common/jsonrpc/client.go", "common/jsonrpc/type.go", "common/http.go"], [("status, error member and body decoding", "common/jsonrpc/client.go Do")],
  ["return values"])
p("C10", "Accumulator survives a crash at any write and keeps valid witnesses",
  "After a crash or a failed write at any point of a flush, recovering the accumulator (plain or with height offset) from its bucket gives the state of the last completed flush (or of the interrupted one if its last write was made), and a retried flush succeeds. For every element the witness obtained from the accumulator, fresh, flushed or recovered and after read errors went away, leads from the element to a root of that length and is accepted, and a witness taken at a smaller length is accepted for that length, while a wrong element is refused and an element or a length that is not there gives an error; malformed witnesses are refused without a panic.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "every sequence of additions, flushes, recoveries, witness requests, write or read errors and crash points",
  "The tests add a few dozen entries in memory, without flush failures, crash points or partial recovery.",
  ["common/mta/accumulator.go", "common/mta/extaccumulator.go"], [("nodes are written before the state key", "common/mta/accumulator.go Flush"), ("lazy resolution of hash nodes", "common/mta/accumulator.go resolve")],
  ["witnesses, length and roots after recovery"])
p("C11", "Database buckets are linearizable and keep acknowledged writes",
  "For every backend, operations of concurrent users on buckets behave as if executed one at a time: a read returns the value of the latest write or deletion of that key in that bucket, missing keys read as nil without error, values never alias caller memory, and buckets of one database do not disturb each other for keys of equal size. After the process is killed and the database reopened, every acknowledged write of a persistent backend is there and no other; after an I/O error, or on a closed persistent database, reads and writes return errors (a read may still give the right value) and never panic, block or invent data.",
  ["schedules", "histories", "crash_points", "fault_sequences"],
  "every concurrent history, bucket id, key and value, kill point, torn tail of the log and failing operation",
  "The tests set, get and delete one key in one bucket.",
  ["common/db/badger_db.go", "common/db/go_level_db.go", "common/db/map_db.go", "common/db/bucket.go", "common/db/database.go"],
  [("key prefixing by bucket id", "common/db/bucket.go"), ("mapping of not-found to nil", "common/db/badger_db.go, common/db/go_level_db.go")],
  ["return values", "contents after reopening"])
p("C12", "A layered database isolates its writes until a flush succeeds",
  "Reads through a layered database see its own writes and deletions over the underlying data, and what is handed over or returned stays the caller's own copy; the underlying database is untouched until the layer is flushed with write, and never touched by a flush that discards. A flush that succeeds makes the underlying data equal to what the layer showed; when a write fails during a flush the layer still shows the same data, keeps further writes to itself, and a later flush completes or discards them.",
  ["schedules", "histories", "fault_sequences"],
  "every history of operations on several buckets by concurrent users, with a write error at any point of a flush",
  "There is no test of the layered database.",
  ["common/db/layer_db.go"], [("per-bucket overlay map", "common/db/layer_db.go")], ["reads through the layer and of the underlying database"])
p("C13", "Codecs decode only what was encoded, over any stream",
  "For RLP and MessagePack, what was encoded to a stream decodes to the same values, one after another, however the stream delivers its bytes (short reads, data together with end of file), and re-encodes to the same bytes. A stream that is cut or fails inside a value gives an error, never a value; corrupted bytes give an error or a value, never a panic, an allocation out of proportion to the input, or a malformed list taken for a shorter one. A failing writer makes encoding return an error, and what reached it is a prefix of the encoding.",
  ["inputs", "fault_sequences"],
  "every value, split of the stream, cut or error position and corrupted byte",
  "The tests encode and decode a few values in memory buffers.",
  ["common/codec/rlp.go", "common/codec/msgpack.go", "common/codec/codec.go", "common/codec/bytes.go"], [("length checks of the reader", "common/codec/rlp.go")], ["decoded values and errors"])
p("C14", "HTTP client streams deliver each item once and stop cleanly",
  "The streaming call of the HTTP client passes every complete item of the response to the callback exactly once, in order, with the content the server sent for that item alone, and ends with an error when the response is cut or garbled, with the callback's error when that fails, and promptly when cancelled. Plain calls of the HTTP client return success only for a complete OK reply and carry status and body of an error reply.",
  ["schedules", "inputs", "fault_sequences"],
  "every sequence of items, speed of the callback against the stream, cut, garbage, callback failure and cancellation point",
  "The tests of the HTTP client only cover address parsing and templates.",
  ["common/http.go"], [("decoder goroutine feeding the callback", "common/http.go Stream")], ["callback arguments and return values"])
p("C15", "Ethereum block monitor reports every block with its logs, once, in order",
  "The block monitor of the Ethereum client, polling or subscribed, calls back for every block from the requested height to the chain's head and on, each exactly once, in ascending order, with that block's own matching logs, for any pace of the chain and any number of blocks produced while it catches up. A block that is not there yet is waited for without limit; other errors are retried a bounded number of times or end the monitor with an error, and are never passed over by skipping a block.",
  ["schedules", "histories", "fault_sequences"],
  "every pace of block production, catch-up distance and fault sequence",
  "The tests of the Ethereum client need a live node and do not run.",
  ["chain/ethbr/client/client.go"], [("poll loop with retry counter; catch-up on the first header", "chain/ethbr/client/client.go Poll, MonitorBlock")], ["callbacks", "return value"], None, "chain/ethbr/client/dial_verif.go")
p("C16", "ICON client's send-and-wait returns the chain's own result",
  "Sending a signed transaction with the ICON client and waiting for its result returns the result the chain recorded for that transaction's hash, riding out pool overflow and pending or executing replies for as long as they last and treating a duplicate report as accepted. It returns an error, never a nil result without error, when the node refuses the transaction or the result cannot be obtained.",
  ["schedules", "inputs", "fault_sequences"],
  "every reply sequence of the node and transport fault",
  "No test exercises it without a node.",
  ["chain/icon/client/client.go"], [("send loop and result loop", "chain/icon/client/client.go SendTransactionAndGetResult")], ["return values"], None, "chain/icon/client/transport_verif.go")
p("C17", "Competing relays on one link keep delivery exact and do not stop it",
  "With two or more relay processes working the same link at the same time, started, crashed and restarted at any moment, the destination still accepts every message exactly once in order, and once faults stop all pending messages are delivered within a bounded time.",
  ["schedules", "crash_points", "fault_sequences", "configurations"],
  "every interleaving of two relays' submissions and restarts",
  NOTEST + "competition between relays needs two processes and a shared destination.",
  RELAY + ["chain/icon/btp2/btp2.go", "chain/icon/bridge/bridge.go", "chain/ethbr/receiver.go"],
  [("refused submissions are dropped or rebuilt from the destination's status", "common/link/link.go result")], ["the destination contract's list of accepted messages"])
p("C18", "What save stores is what the relay starts with, or an error",
  "The relay's save command stores exactly the values it is given (flags, environment, configuration file, key store files) and, for a side without a key store, a fresh one that opens with the given password or secret file only and whose address is that of its key. Loading the stored file again gives the same configuration and the same wallets, and a relay started with it signs with them; passwords and keys are never stored in clear. When reading a secret, a key store or a configuration or writing the file fails, or the process is killed midway, an error is reported and what is left never loads as a different configuration. A damaged key store gives an error or the same wallet, never another wallet or a panic; a wrong password gives an error. Starting writes nothing but its log.",
  ["inputs", "crash_points", "fault_sequences", "configurations"],
  "every combination of flags, variables, configuration and key store files; every failing or killed file operation; every damage to a key store",
  NOTEST + "the damage comes from combinations of sources and from failures between reading and writing.",
  ["cmd/relay/main.go", "common/cli/helper.go", "common/config/fileconfig.go", "common/wallet/keystore.go", "common/wallet/keystore_evm.go", "common/wallet/wallet.go", "common/crypto/key.go"],
  [("configuration written and read back", "cmd/relay/main.go save, start"), ("key store made and opened", "common/wallet/keystore.go")], ["the written file and its independent decryption", "signatures which arrive at the chains"])
BMC = ["javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java", "javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java", "javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java", "javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/MessageProof.java", "javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java"]
p("C19", "The ICON message centers deliver every proven message to exactly one outcome",
  "In a network of ICON message centers (Java contracts, with the BTP block and bridge verifiers) each message a registered service sends ends in exactly one outcome: its destination service gets it once, in order, unaltered and with its true source; or, if it has a positive serial number and no route, no service or a refusing service is met, exactly one error with the matching code goes back to the sending service; or, when neither is possible, it is reported as dropped. Receive and transmit sequences are contiguous; the status shows them and the verifier's progress truly. A response is given once and only to an open request. Only registered relays move a link, only services send for themselves, only owners administrate, and only the message center uses its verifier; a submission whose proof is forged, incomplete, signed by too few, repeated or skipping is refused without effect, while every fresh honest submission, whole or in fragments of several relays, is taken, and once faults stop everything sent is delivered. Links, routes, relays, services and BTP network ids follow the owners' orders, also when removed and added again.",
  ["histories", "inputs", "fault_sequences", "schedules", "configurations"],
  "every topology, history of messages, replies, administration and submissions (honest, stale, forged, torn, repeated, of several relays) and every failing service or refused send",
  "The contracts' tests need Gradle and a chain and do not run here; they check single calls, not histories over several message centers.",
  BMC, [("dispatch, errors, drops, fragments", "BTPMessageCenter.handleRelayMessage, handleMessage, sendError, handleFragment"), ("proof of blocks and messages", "btpblock BTPMessageVerifier, MessageProof")], ["messages and events of each contract", "calls the services get", "getStatus, getRelays, getNetworkSn"])
p("C20", "Fees and rewards of the message centers are conserved",
  "Every coin paid to an ICON message center for messages is accounted for at any moment: it is a reward of someone on some chain, part of the fees carried by a message under way or held for an open response, or a claim under way, and it is paid out at most once. A relay's reward for a message it delivered is exactly the fee of that hop in the network that paid; what is left over, overpaid or not needed (one-way, refused, dropped, replaced or answered messages) goes to the message center where it is left, once; the way back of an error is paid with the fees of the way back. A message with less than the required fee is refused. A claim pays the claimed amount to its receiver once, or the claimant has the reward back; fees asked for follow the fee tables in force.",
  ["histories", "fault_sequences", "configurations"],
  "every history of messages, replies, errors, drops, fee tables, fee handlers and claims over any path",
  "The contracts' tests do not run here; conservation is about sums over several chains and histories, not single calls.",
  BMC[:1], [("fees taken, split, swapped and collected", "BTPMessageCenter sendMessageWithFee, accumulateFee, collectRemainFee, sendError"), ("claims", "BTPMessageCenter claimReward, handleResponse")], ["getReward, balances, fees in messages, getFee"])
p("C21", "A cross-chain call is executed at most once and rolled back only when it failed",
  "The cross-call service (xcall) over the message centers hands each call to its target application at most once, with the caller's data and true address, when somebody executes it. A call with rollback data ends in exactly one way: it was executed and its success is known at the source, or it failed (application failure of any kind, missing target, or an error of the network) and the caller's own application gets the rollback data once, from the service's own address, after somebody asks; never both, never before the failure is known, and not again by re-entering. Calls that are too large, pay less than relay and protocol fee, or want a rollback for a user account are refused without effect. Protocol fees go to their handler, or are kept until one is set. Only the message center delivers to the service and only owner and administrator set it up.",
  ["histories", "fault_sequences", "schedules"],
  "every history of calls, executions, rollbacks, application failures, re-entry and faults of the network below",
  "The contracts' tests do not run here and call single methods of one contract.",
  ["javascore/xcall/src/main/java/foundation/icon/btp/xcall/CallServiceImpl.java"], [("request and rollback states", "CallServiceImpl executeCall, executeRollback, handleResponse")], ["calls the applications get", "events", "balances"])
P.sort(key=lambda x: x["id"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
