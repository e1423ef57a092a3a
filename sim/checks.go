package sim

var relayReal = []string{
	"cmd/relay (NewLink, newLink, newReceiver, newSender)", "common/link", "chain/icon (sender, receivers btp2 and bridge, client)",
	"chain/ethbr (sender, receiver, client, binding)", "common/jsonrpc", "common/mbt", "common/codec", "common/wallet", "go-ethereum client and rpc",
	"gorilla/websocket", "net/http client",
}
var relayStub = []string{
	"TCP (in-memory connections, in-process HTTP transport)", "ICON node and chain (model: JSON-RPC, websocket, transaction pool, BTP blocks)",
	"Ethereum node and chain (model: JSON-RPC over HTTP and websocket, pool, blocks, logs)", "BMC and BMV contracts (reference model written from the contracts' sources)",
	"clock (simulated)",
}

const relayRule = "One run = one seed: a generated source history, start position, traffic, timing and fault sequence, executed by the real relay between two model chains. Non-trivial: at least one message was delivered through the relay."

var senderReal = []string{"chain/icon sender and client, chain/ethbr sender, client and binding, common/jsonrpc, common/wallet, common/crypto, go-ethereum client, net/http client"}
var senderStub = []string{"TCP (in-memory)", "destination node and contract (model that decides each transaction's fate)", "link (the harness hands over relay messages)", "clock (simulated)"}

const senderRule = "One run = one seed: relay messages of varied sizes handed to the real sender against a model node whose replies (pool overflow, duplicate, expired, pending, dropped, reordered, reverted, network faults) are drawn from the seed. Non-trivial: at least one message was executed successfully by the contract."

var relayAssum = []string{
	"the chain, node and contract models follow the published interfaces and the contract sources in the repository",
	"a chain has finality: blocks once announced do not change",
	"a supervisor restarts a relay that ended",
}

var javaReal = []string{"javascore/bmc", "javascore/bmv/bridge", "javascore/bmv/btpblock", "javascore/lib", "javascore/score-util", "javascore/xcall"}
var javaStub = []string{
	"ICON platform (score API: storage, calls, transactions, events; RLP codec; hashes, stub signatures)", "chains and BTP blocks (model: network sections, message trees, validators' signatures)",
	"services, fee handlers, applications, relays and users (generated)", "score interface generator (annotation processor)",
}
var javaAssum = []string{
	"a transaction on a chain is atomic and transactions of a chain are totally ordered",
	"a signature of the model cannot be made without the key, and the hash has no collisions",
	"a chain has finality: blocks once made do not change",
}

var checks = map[string]*checkDef{
	"C01": {parts: []part{{"C01", 9000, 200000}}, real: relayReal, stub: relayStub, rule: relayRule},
	"C02": {parts: []part{{"C02", 9000, 200000}}, real: relayReal, stub: relayStub, rule: relayRule},
	"C03": {parts: []part{{"C03", 9000, 200000}}, real: relayReal, stub: relayStub, rule: relayRule},
	"C04": {parts: []part{{"C04", 9000, 200000}}, real: relayReal, stub: relayStub, rule: relayRule},
	"C05": {parts: []part{{"icon-sender", 8000, 200000}}, real: senderReal, stub: senderStub, rule: senderRule},
	"C06": {parts: []part{{"eth-sender", 8000, 200000}}, real: senderReal, stub: senderStub, rule: senderRule},
	"C07": {parts: []part{{"C07", 500, 20000}, {"icon-sender-large", 1500, 50000}}, real: relayReal, stub: relayStub, rule: relayRule + " " + senderRule},
	"C08": {parts: []part{{"monitor", 150000, 3000000}}, real: []string{"chain/icon/client (monitors)", "gorilla/websocket client"},
		stub:  []string{"TCP (in-memory, with local ports that are reused, delayed and stuck writes)", "ICON node (model that sends what the seed says, in arbitrary pieces)", "clock (simulated)"},
		rule:  "One run = one seed: up to five monitors on one client, each with a generated stream, kind of end, callback behaviour and faults. Non-trivial: at least one notification was handed over.",
		assum: []string{"TCP delivers what was sent before an orderly or abrupt end of the connection"}},
	"C09": {parts: []part{{"jsonrpc", 150000, 3000000}}, real: []string{"common/jsonrpc", "common (HttpError)", "net/http client"},
		stub: []string{"HTTP transport (in-process)", "server (model that answers as the seed says)", "clock (simulated)"},
		rule: "One run = one seed: parallel callers of one client with generated parameters, results, errors and transport faults. Non-trivial: at least one result was delivered."},
	"C10": {parts: []part{{"mta", 60000, 2000000}}, real: []string{"common/mta (accumulator, extended accumulator)", "common/codec"},
		stub:  []string{"bucket (in-memory disk with write errors, read errors and crash points)"},
		rule:  "One run = one seed: a generated history of additions, flushes, recoveries and witness requests with failing reads and writes and crashes at any write, compared with a reference accumulator. Non-trivial: at least one witness was checked.",
		assum: []string{"a single write to the bucket is atomic, writes become durable in the order they are made"}},
	"C11": {parts: []part{{"kv-map", 20000, 1500000}, {"kv-level", 6000, 300000}, {"kv-badger", 2500, 150000}},
		real:  []string{"common/db (badger, goleveldb and map backends, buckets)", "badger and goleveldb", "files on a scratch directory"},
		stub:  []string{"disk errors and kill points at the os.File seam", "scheduler and clock (simulated)"},
		rule:  "One run = one seed: concurrent users of several buckets with generated keys and values, I/O errors, kills at any write and reopening; the history of each key is checked for linearizability. Non-trivial: at least one operation succeeded.",
		assum: []string{"a killed process loses no bytes which it had written to a file (the operating system goes on)"}},
	"C12": {parts: []part{{"layer", 200000, 5000000}}, real: []string{"common/db (layered database)"},
		stub:  []string{"underlying database (in-memory, with failing and slow operations)", "scheduler (simulated)"},
		rule:  "One run = one seed: concurrent users of the layer, flushes that write or discard, write errors at any point of a flush, compared with a model of layer and underlying data. Non-trivial: at least one operation succeeded.",
		assum: []string{"buckets are handed out by the layer that is asked for them"}},
	"C13": {parts: []part{{"codec", 120000, 8000000}}, real: []string{"common/codec (RLP, MessagePack)", "common (HexInt, Address)", "chain/icon/btp2 and common/mbt message types"},
		stub:  []string{"streams (short reads, data with end of file, cuts, errors, failing writer)"},
		rule:  "One run = one seed: generated values of many types encoded to a stream, decoded over a stream that delivers, cuts, fails or corrupts as the seed says, and compared with the values and with an independent reader. Non-trivial: every run that encodes a value.",
		assum: []string{"a reader follows io.Reader's contract"}},
	"C14": {parts: []part{{"http", 200000, 3000000}}, real: []string{"common (HttpClient, HttpError)", "net/http client"},
		stub: []string{"HTTP transport (in-process, response bodies delivered in arbitrary pieces)", "server (model)", "clock (simulated)"},
		rule: "One run = one seed: parallel plain and streaming calls with generated replies, pieces, faults, failing callbacks and cancellation. Non-trivial: at least one item or reply was delivered."},
	"C15": {parts: []part{{"ethmon", 10000, 400000}}, real: []string{"chain/ethbr/client (MonitorBlock, Poll, FilterLogs)", "go-ethereum client and rpc", "gorilla/websocket client", "net/http client"},
		stub:  []string{"TCP and HTTP transport (in-memory)", "Ethereum node (model)", "clock (simulated)"},
		rule:  "One run = one seed: one or two monitors, polling or subscribed, on a chain whose pace, pauses, bursts and logs are generated, with network faults, unannounced and repeated heads. Non-trivial: at least one block was reported.",
		assum: []string{"a chain has finality: blocks once announced do not change"}},
	"C16": {parts: []part{{"sendwait", 50000, 1500000}}, real: []string{"chain/icon/client (SendTransactionAndGetResult, SignTransaction)", "common/jsonrpc", "common/wallet", "net/http client"},
		stub: []string{"HTTP transport (in-process)", "ICON node (model)", "clock (simulated)"},
		rule: "One run = one seed: parallel calls with generated node replies and network faults. Non-trivial: at least one result was served."},
	"C18": {parts: []part{{"save", 5000, 400000}, {"wallet", 40000, 4000000}, {"start", 1000, 60000}},
		real:  append([]string{"cmd/relay main with its commands (cobra, viper)", "common/cli, common/config", "common/wallet, common/crypto", "files on a scratch directory"}, relayReal...),
		stub:  append([]string{"file errors and kill points at the os.File seam", "key derivation (scrypt with less work, its work factor still part of the result)", "entropy (seeded, failing, short)"}, relayStub...),
		rule:  "One run = one seed: the relay's own main saves and loads generated configurations, with failing or killed file operations, unreadable secrets and damaged or foreign key stores; what is stored is read independently; or a relay is started with what was stored and its signatures are checked on the chains. Non-trivial: a configuration was stored or refused, a key store was opened, or a message relayed.",
		assum: []string{"a killed process loses no bytes which it had written to a file (the operating system goes on)", "the work factor of scrypt has no influence on the checked behaviour but through the derived key"}},
	"C19": {parts: []part{{"j-bmc", 20000, 3000000}}, real: javaReal[:5], stub: javaStub, assum: javaAssum,
		rule: "One run = one seed: a generated network of two to four chains joined by verified and bridge links, each with its message centre, services, relays and a history of messages, administration, honest, stale, forged, torn and repeated submissions and failing services. Non-trivial: at least one message was delivered."},
	"C20": {parts: []part{{"j-fee", 20000, 3000000}}, real: javaReal[:5], stub: javaStub, assum: javaAssum,
		rule: "One run = one seed: the network of C19 with generated fee tables, fee handlers, refused messages, errors, drops and claims; after every transaction all fees are accounted for on all chains. Non-trivial: at least one message was delivered."},
	"C21": {parts: []part{{"j-xcall", 20000, 3000000}}, real: javaReal, stub: javaStub, assum: javaAssum,
		rule: "One run = one seed: the network of C19 with the cross-call service on every chain and generated applications that accept, fail, call back or re-enter, users that execute and roll back at any moment, and all faults of C19. Non-trivial: at least one message was delivered."},
	"C17": {parts: []part{{"C17", 5000, 100000}}, real: relayReal, stub: relayStub, rule: relayRule},
}

func init() {
	for _, d := range checks {
		if d.assum == nil {
			d.assum = relayAssum
		}
	}
}
