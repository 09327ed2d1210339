"""Prose of DESIGN.md; meta.py joins it with the property texts, workloads and
seeded changes."""
HEAD = """# Design

`lib/meta.py` writes this file, `properties.jsonl` and `MANIFEST.json` from `lib/meta.py` (statements), `lib/props.py`
(workloads, sizes, required reach) and `lib/design.py` (this text), so that the three stay in step.

## Technique

Every property is decided by running the real code of /repo, built here with sanitizers, under generated workloads,
while a monitor written here judges what is observed. Nothing in /repo is instrumented: the monitors use the public
classes, the messages on the (loopback) network, the replicated log, and the files the components leave. What a check
concludes is limited to the executions it produced; each evidence file says how many there were, how many differed, and
how often each kind of event which the property is about was seen. A check that saw too few of them (`reach` in
props.py) gives no answer (exit 2) rather than a pass.

* **Build** (`lib/vbuild.py`): sources of /repo's current working tree, compiled with clang 18 into content-hashed
  objects under `.build` (a preprocessed-dependency hash, so any edit of a source or header rebuilds what it affects).
  Flavours: `asan` (AddressSanitizer + UndefinedBehaviorSanitizer, assertions on), `asano` (the same, optimised), `tsan`
  (ThreadSanitizer), `plain`. The repository's own build leaves out everything that needs NuRaft, and more; the monitors
  compile those parts too (coordinators, controllers, replicated shards, sentinels, wallets, clients, validation).
* **Run** (`lib/run.py PID`): starts the property's jobs (several shards in parallel), each a process that generates
  cases from `VERIF_SEED`, shard and case number. A sanitizer report, failed assertion, `exit` from a fatal log line, a
  failed monitor check, or a case that hangs (repeated once before it counts) is a violation: exit 1, a `VIOLATION` line, and a
  replay file with the command that repeats the case.
* **Judgement by behaviour**: no check reads source text, names of locals, or private members. Repeated requests, other
  orders of internal steps, different batching and timing are accepted wherever the interface allows them.

## Stand-ins

* `shim/libnuraft`: NuRaft is not installed. The shim is an in-process simulation with NuRaft's interface which drives the real
  `raft::node`, `log_store`, `state_manager`, state machines and controllers: majority commit, leader change with
  callbacks, log truncation and catch-up, snapshots, stopped, cut-off and slow nodes, refused and timed-out appends. It is
  deterministic apart from thread timing, and elections are chosen by the monitor. It does not model NuRaft's own defects or its wire protocol.
* `shim/secp`: the header of secp256k1's Schnorr module as this repository spells it, over the installed library.
* Stub peers (sentinels, coordinators, shards, watchtowers, ticket machines) which record what they are sent and answer as told; a relay
  which splits, delays and breaks TCP connections.
* evmc, evmone and ethash are not installed: the EVM runner is not covered.

Ports come from blocks which a process owns while it runs (an abstract socket per block), so concurrent runs of checks
cannot reach each other's servers. All files are made in a scratch directory that the check removes.
"""

# per property: (oracle, limits)
D = {
"C01": ("A reference ledger of every output's state (unspent, held by whom, spent) is advanced by the answers the shards give; after each step all outputs are asked of the shards and compared. In `threads` mode the history of concurrent calls is checked at the end for conservation, single consumption and agreement of repeated answers.",
        "1-4 shards, up to a few dozen outputs per case. A lock request that arrives after the same batch was discarded leaves its locks behind (the protocol has no way to tell it from a new one); such stale requests are not generated."),
"C02": ("Every request a real coordinator sends to a real `locking_shard` passes a recorder which checks it against the protocol: one decision per transaction, decided only when all shards concerned have answered, apply only after the decision was recorded, discard only after all applied; answers to clients must agree with the ledger and come at most once. After the failures everything is recovered and the ledger is compared with the shards output by output.",
        "Requests of a deposed leader that reach a shard after its successor already finished the same batch are not generated (the shards treat them as fatal by design; see limits of C01)."),
"C03": ("Every submission is entered in a ledger before it is sent, with what it may do to which outputs; every answer and every status read is checked against it when it arrives, and in the end all replicas of all shards are read output by output: each transaction took effect everywhere or nowhere, in agreement with its answer, each output was spent at most once, and the unspent value is what the completed mints created.",
        "The replicated log is the simulation in `shim/libnuraft`, which decides who leads; elections themselves are NuRaft's business. A payment without answer (its sentinel stopped) may have happened or not, but not partly."),
"C10": ("As C03 one level lower: drivers play coordinators that record what they decided; a watcher compares statuses it reads from any replica with what was decided at that time; then every replica, also restarted from its log only, is compared output by output.",
        "As C03. A majority of replicas always survives."),
"C04": ("The stub sentinels and the stub coordinator record every message; for each client request the record must contain exactly what the rules of the statement allow, each attestation is verified against the compact transaction recomputed here, and every answer is compared with what the peers really said.",
        "One sentinel under test per case. A peer that stays silent leaves its client unanswered (the RPC layer has no time limit in asynchronous calls), which is counted (`rightly_unanswered`) and allowed."),
"A06": ("As C04, with recording shards: the shards a transaction went to must cover its inputs according to the configured ranges, and contain no shard without one.", "As C04."),
"C05": ("An independent restatement of the rules (128-bit sums, own signature check) decides each transaction; on refusal the reported error must be one the transaction has.", "Up to a few dozen inputs and outputs."),
"C06": ("Pairs of transactions differing in exactly one known respect: ids must differ or agree accordingly, with all ids of a run kept in one table in which two different contents may never share one.", "Collisions of SHA-256 are out of reach."),
"C07": ("The monitor knows which attestations it made genuinely, over which contents and by whom; acceptance must equal `number of distinct known keys with genuine attestations >= threshold`.", ""),
"C08": ("A ledger of outputs kept outside of the wallets says which exist, which are unspent and whose they are; every transaction a wallet makes is validated with the rules of C05 and against the ledger, balances after every step.", "Wallets that have more than one process writing their file are outside of the statement."),
"C09": ("A ledger of every transaction's true fate, kept by the stub services, is compared with both clients' balances, inputs, pending and unconfirmed sets after each step and restart.", "A client that is sent a forged import naming a confirmed transaction id but different contents is not covered (the client has no means to notice)."),
"C11": ("The seeder's main runs in the harness on a generated configuration file. The outputs it must make are computed from the definition of a seed (a transaction with an empty previous output of the seed's number). Files and databases are read back directly, then real locking shards and atomizer shards start from them, and wallets of all load generators pay until their seeds are spent.",
        "A preseed which is damaged afterwards is not examined (a locking shard starts from the part it can read and logs nothing). The last seed of each load generator's range stays unused, as the wallet takes the end as exclusive."),
"C12": ("As U06: lives are processes, ended at a chosen write or rename. The monitor keeps what the client must be worth if everything pending fails and if it succeeds, before and after the operation under way, from the operations alone; the restarted client is measured by abandoning, confirming and spending everything on copies of its files.",
        "Crashes of the process, not of the machine. No sentinel is reachable; what happens on the way to it is C09. create_transaction, which hands the transaction to the caller without keeping it, is not used. A wallet file damaged by somebody else is not considered."),
"A08": ("As U06, with the snapshot directory. A state machine without snapshots gives the right answer to each log entry.", "Crashes of the process, not of the machine. Snapshots and log entries are handed over by the monitor in place of NuRaft."),
"A01": ("A record of the whole chain kept here decides which inputs are spent, by whom and at which height; blocks, errors and queries must follow from it and from the cache depth.", "Attestations are truthful (lying shards are outside of the trust model)."),
"A02": ("The monitor's clients record what they are about to send and enter each block they get, from whatever node and for whatever reason, in one map by height (two different blocks of one height are a violation); the contiguous part of the chain is executed transaction by transaction against what was sent. Errors are checked against the whole chain at the end. Then, with a leader that stays, mints, spends, halves attested long ago, rivals, questions and prunes must each be answered. "
        "Mode `machine` compares the answers of three state machines to one log entry by entry: one that only executes, one that restarts from its snapshots, one that gets them sent.",
        "The replicated log is the simulation in `shim/libnuraft`. Attestations the leader holds in memory are lost with it: by design, so nothing is required of transactions sent while leaders change. The clients attest truthfully, as A03 establishes for shards; mints are trusted and may be repeated by whoever may mint."),
"A03": ("The monitor owns the chain: for every output the heights at which it was made and spent. Each message of the shard is checked when it arrives against the chain at the height it names, which must lie between what the shard was known to have when it was asked and the tip; after each stop the leveldb database is opened and compared output by output. Mode `shard` of `a03_crash.cpp` gives the shard lives which end at any file-changing call (with a chosen part of the write done), or in which a write fails: what the next life finds must be the outputs of one block of the chain, not older than the last block which was acknowledged, and the shard must not go on from a block it could not store.",
        "One shard; stub atomizers, watchtower and archiver. leveldb itself is trusted (and exempt from the race detector, since the system's library is not instrumented)."),
"A04": ("The monitor owns the chain and knows the highest block which was served or pruned; every answer is compared with the chain, and after stops and restarts all blocks are asked for again. As for U06, the database also lives through processes which end at any file-changing call, or whose writes fail.", "Stub atomizers. With several archivers, the prune request of one removes blocks another may still need: a limitation of the design, not tested."),
"A05": ("The monitor keeps the chain and all errors given to the watchtower and recomputes the status of any input and id, within the documented cache sizes.", ""),
"P01": ("A ledger of holders, queues and values per key predicts the answer of every call and which waiting requests must be answered now; `threads` mode records reads and writes of concurrent transactions and looks for a serial order that respects real time.", ""),
"P02": ("Scripted shards know what each has acknowledged; each command is checked on arrival against the acknowledgements of the others, each callback against the acknowledgements that exist when it is called.", "The stub shards answer lock requests of a ticket consistently (a shard that lies about its own state is outside of the trust model)."),
"P03": ("The reads and writes of all committed programs are checked for a serial order consistent with real time (graph over versions); final results counted per execution; at the end the shards hold no lock and the replicated states equal the served ones.", "Programs are stub runners (the Lua and EVM runners are separate)."),
"P04": ("As P03, plus atomicity: each interrupted program's updates are all present or all absent after recovery, and reported ones present.", ""),
"P05": ("Every broker keeps, for each of its tickets, what was asked and answered; each answer of get_tickets is compared with it. The history of transactions goes through the serializability checker of P02; at the end every key is locked and read under three leaders.",
        "Leader changes, partitions and stalls are those of the simulated raft log, whose pending requests are cancelled when leadership is lost. One shard per run (several are the broker's matter, P02). Liveness is claimed only once the faults end; a broker whose request was lost has to ask again."),
"P06": ("One ledger of all numbers handed to anybody: never twice, always inside of the range granted, ranges disjoint over leader changes and restarts.", ""),
"P07": ("All requests about a key, from any broker and directory, must have gone to the same shard, whose number is inside of the configured set; every update arrived at the shard that was asked for its lock.", "Needs brokers that share the number of shards."),
"P08": ("Contracts are generated together with the values they compute, so that the keys they lock, their updates or their errors are known without running them. With the server, payments carry a version per account: the payments reported as done must be exactly the versions the accounts went through. Memory is measured as bytes allocated over thousands of failed signature checks.",
        "Bytecode which was tampered with is not run beyond its header and length (Lua does not verify bytecode), and contracts have the whole standard library (os.exit ends the agent; a TODO in the source). Strings that look like numbers and numbers in place of strings are only required not to harm. Stopping an agent server with executions under way ends its process by design (`fatal`), so it is stopped when idle."),
"U01": ("An encoding of its own, field by field, decides equality of what was written and what was read; sizes must equal what was announced.", ""),
"U02": ("Sanitizers decide memory safety; allocator hooks measure the peak of memory in relation to the size of the input; whatever is accepted must survive a round trip.", ""),
"U03": ("The number in each request says what the server does with it; the client-side callback log is compared with the server's log: the right answer once, or none.", ""),
"U04": ("Messages carry their sender, number and a checksum; per connection the receiver's log must be a prefix-with-losses-only-at-breaks of the sender's.", ""),
"U05": ("Models (a deque, a set, a counter) in single-threaded runs, conservation and order in concurrent ones, sanitizers for the rest.", ""),
"U06": ("Each life of the log is a process; the harness wraps write, fdatasync, rename and unlink, so that the process ends at a chosen call with a chosen part of the last write done. A model (a map from index to entry) is advanced by the completed operations; after a crash the log must equal the model before or after the interrupted operation. After flush() the log's files must have no bytes that were not synced.",
        "Crashes of the process, not of the machine: what write() took is there afterwards. The entries and buffers come from the NuRaft stand-in. leveldb is trusted and exempt from the race detector. Operations NuRaft does not make (writing beyond the end or before the start) are not generated."),
"U07": ("As U06, with the files of the state manager; writes may also fail (no space, input/output error) or be cut short. Ending the process is accepted as an answer to a failed write.",
        "Crashes of the process, not of the machine: the files are renamed without being synced, so that a power failure may still lose the last vote. Serialized forms come from the NuRaft stand-in."),
"U08": ("The configuration file is generated from a model value; the parsed options must equal it, each missing requirement must be refused.", ""),
"U11": ("Each request carries a token which says what the application does with it and determines the answer, so that swapped, repeated, invented or changed answers show. Scripted clients send requests whole, in pieces, chunked, pipelined, malformed, or leave; scripted servers answer, refuse, garble or cut per token and attempt. Time spent standing still with ready servers is measured.",
        "A response that is cut inside its header is not tested (libcurl may take it as complete). The client retries failed transfers without limit, by design, so servers which never come back are only tested with the client's destruction. Ids other than unsigned integers are answered with id 0 (nothing is required). libmicrohttpd 1.0.0 can end the process when a server is stopped (two of its threads remove the listening socket from one epoll set); the harness makes the second removal succeed, since the defect is the library's. The EVM runner behind the HTTP server needs evmc/evmone, which are not installed."),
"U10": ("References written from the standards (FIPS 180-4, SipHash paper, BIP 173).", ""),
}

TAIL_FINDINGS = """
## Genuine defects found

Each was shown against the real code by the check named, repaired by a `fix:` commit in /repo, and is listed in
`known_findings.txt`; a fixed entry suppresses nothing.

"""
TAIL = """
## False alarms met and what was done

* C02: requests of a deposed leader overtaking its successor's (a consequence of the protocol's lack of fencing between coordinators
  and shards) were reported as inventions; the workload now lets a shard finish or drop what a deposed leader had sent before its successor asks it.
* C02, C04, A06 and others: two monitors running at once could draw the same port and talk to each other's servers; ports are now owned per process.
* C02: the raft stand-in let a leader without a majority wait forever, where NuRaft times the request out; it does now too.
* U04, U03: losses at breaking connections are allowed; the first versions required delivery.
* C09: an abandoned transaction may still confirm; the ledger keeps both outcomes open until the services decide.

## Not covered

The EVM runner (evmc, evmone, ethash missing), the benchmark tools, the command line front ends' `main` functions, and the CI, container and documentation files.
"""
