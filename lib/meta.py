#!/usr/bin/env python3
"""Property texts; generates properties.jsonl and MANIFEST.json from them and
from props.PROPS, so that what is stated and what is claimed stay in step."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
NOT_APPLICABLE = {}


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), level_note="", hook=None):
    T[id] = dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                              state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                              observe_at=list(observe), hook_needed=hook),
                 )
    T[id]["_note"] = level_note


UHS = "src/uhs/"
P("C01", "Two-phase shards never double-spend, lose or invent an output",
  "Whatever order competing distributed transactions' lock, apply and discard steps reach a group of two-phase-commit shards, "
  "each unspent output is consumed by at most one completed transaction, an aborted transaction leaves every output exactly as it was "
  "(including outputs that another transaction holds), and a completed one removes precisely its inputs and adds precisely its outputs. "
  "Repeating a step that was already executed changes nothing and gives the same answer, and a shard reports an output as unspent, or a transaction as "
  "completed, exactly when that is so.",
  ["schedules", "histories", "inputs"],
  "every interleaving of prepare/apply/discard over any batches of transactions competing for the same outputs, on any partition of the id space, from any number of threads",
  "the unit tests drive one shard through a few fixed single-threaded sequences; they never abort a transaction that failed to lock, never mix partial-batch decisions, and never repeat steps under contention",
  [UHS + "twophase/locking_shard/locking_shard.cpp", UHS + "twophase/locking_shard/locking_shard.hpp", UHS + "twophase/locking_shard/messages.cpp"],
  [("lock_outputs / check_and_lock_tx", UHS + "twophase/locking_shard/locking_shard.cpp"), ("apply_outputs", UHS + "twophase/locking_shard/locking_shard.cpp"),
   ("discard_dtx", UHS + "twophase/locking_shard/locking_shard.cpp")],
  [("m_uhs", "outputs this shard knows unspent and unlocked", "locking_shard.hpp"), ("m_locked", "outputs held by a prepared transaction", "locking_shard.hpp"),
   ("m_prepared_dtxs/m_applied_dtxs", "batches in flight, for replays", "locking_shard.hpp")],
  ["return values of lock/apply/discard", "check_unspent", "check_tx_id"])

RL = "src/parsec/runtime_locking_shard/"
P("P01", "A runtime locking shard grants locks fairly by ticket and never exposes uncommitted or lost state",
  "On a runtime locking shard, a key is held by at most one writer or by any number of readers; when tickets compete, an older (lower-numbered) ticket "
  "takes the key from younger unprepared holders (which are told they were wounded and lose all their locks) and otherwise waits in ticket order, while prepared "
  "holders are never wounded. Every waiting request is answered exactly once. A granted lock returns the value of the last commit to that key; prepare, commit, rollback and finish are "
  "accepted exactly in the states the protocol allows, commit applies exactly the prepared updates under write locks, rollback leaves every value unchanged, and both "
  "release everything the ticket held and hand it to the next waiters. Concurrent transactions are strictly serializable, and recovering from the replicated state restores the committed values and "
  "the write locks and pending updates of prepared tickets.",
  ["schedules", "histories", "inputs", "crash points"],
  "every sequence and thread interleaving of lock/prepare/commit/rollback/finish requests by any tickets over any keys, and recovery after any prefix of it",
  "the unit tests run short fixed sequences with two or three tickets; the wound/wait decisions, queue hand-over and recovery depend on the whole lock table and its history",
  [RL + "impl.cpp", RL + "impl.hpp", RL + "replicated_shard.cpp"],
  [("try_lock / wound_tickets / acquire_locks / release_locks", RL + "impl.cpp"), ("prepare/commit/rollback/finish", RL + "impl.cpp"), ("recover", RL + "impl.cpp")],
  [("m_state", "values and lock holders and queues by key", RL + "impl.hpp"), ("m_tickets", "state and locks of each ticket", RL + "impl.hpp")],
  ["try_lock/prepare/commit/rollback/finish callbacks", "get_tickets"])
PA = "src/parsec/"
P("P02", "A broker runs each ticket's commit protocol correctly across shards, and its recovery completes or undoes interrupted tickets",
  "A broker gives every ticket a number of its own, sends each lock request to the shard that holds the key, and tells a shard to commit a ticket only after every shard the ticket touched has "
  "acknowledged preparing exactly the updates to its own keys. Once any shard was told to commit, none is told to roll back, and the reverse. A commit, rollback or finish is reported as done only after every "
  "shard involved acknowledged it; each request is answered exactly once, and requests that are illegal in the ticket's state (unknown ticket, already committed or rolled back, locks still pending) are refused with the corresponding error and "
  "without side effects. Recovery takes over the tickets the shards report: those already committed on some shard are committed on the rest, the others are rolled back, and all are finished before it reports success, however often it is run.",
  ["schedules", "histories", "inputs", "crash points"],
  "every order of client requests over any tickets and keys, every order and timing of shard answers including refusals and unreachable shards, and every combination of ticket states shards can report at recovery",
  "the broker tests use fixed sequences against mock shards that answer at once with success; the guarantees concern answers of several shards arriving in any order, late, or as refusals, and recovery from mixed states",
  [PA + "broker/impl.cpp", PA + "broker/impl.hpp"],
  [("try_lock / handle_lock", PA + "broker/impl.cpp"), ("commit / handle_prepare / do_commit / handle_commit", PA + "broker/impl.cpp"),
   ("rollback / finish", PA + "broker/impl.cpp"), ("recover / do_recovery", PA + "broker/impl.cpp")],
  [("m_tickets", "each ticket's state, its shards' states and the keys requested of them", PA + "broker/impl.hpp"), ("m_recovery_tickets", "what the shards report at recovery", PA + "broker/impl.hpp")],
  ["commands arriving at the shards", "begin/try_lock/commit/rollback/finish/recover callbacks"])
P("P03", "Programmable transactions run through agents are serializable, all-or-nothing, answered once, and always finish",
  "Transactions executed by agents through brokers and shards behave as if they ran one after another in an order that respects real time: every read returns the value of the "
  "latest transaction before it in that order, a committed transaction's updates all take effect and an aborted or failed one's never do. Each execution reports exactly "
  "one final result, which is the updates it committed or an error for a program that failed; one that lost a conflict restarts and is eventually completed; when all "
  "executions have ended no key stays locked and the replicated state equals what the shards serve.",
  ["schedules", "inputs", "histories"],
  "every order in which requests and answers between any number of agents, brokers, tickets and shards are delivered, for any mix of reading, writing, failing and read-only programs",
  "the tests run one or two transactions over synchronous mocks; the guarantees depend on message races between wounding, preparing, restarting and committing across components",
  [PA + "agent/impl.cpp", PA + "broker/impl.cpp", RL + "impl.cpp", RL + "server.cpp", RL + "replicated_shard.cpp", PA + "ticket_machine/impl.cpp", PA + "directory/impl.cpp"],
  [("agent state machine", PA + "agent/impl.cpp"), ("broker try_lock/commit/rollback/finish", PA + "broker/impl.cpp"), ("shard server: impl with replication", RL + "server.cpp")],
  [("agent m_state, m_result", "where an execution is", PA + "agent/impl.hpp"), ("broker m_tickets", "state of each ticket on each shard", PA + "broker/impl.hpp")],
  ["agent result callback", "values returned by lock requests", "final shard and replicated state"])
P("P04", "A broker or shard crash never leaves a transaction half applied",
  "If brokers (with their agents), or brokers and shards together, stop at any point and recovery then runs, every interrupted transaction is afterwards applied on all shards it touched "
  "or on none; transactions reported as committed keep their effects; recovery ends, leaves no lock held and no ticket behind, and the system then serves new transactions.",
  ["crash points", "schedules", "histories"],
  "every point in the exchange of messages at which any subset of brokers, or the whole deployment, stops, with any split of in-flight messages into delivered and lost, before broker and shard recovery run",
  "the tests never crash a broker between the phases of a commit on several shards, and never recover shards from replicated state and brokers from the shards together",
  [PA + "broker/impl.cpp", RL + "impl.cpp", RL + "replicated_shard.cpp", RL + "server.cpp"],
  [("broker::recover / do_recovery", PA + "broker/impl.cpp"), ("shard recover", RL + "impl.cpp"), ("replicated prepare/commit/finish", RL + "replicated_shard.cpp")],
  [("replicated m_tickets / m_state", "prepared updates and committed values that survive", RL + "replicated_shard.hpp"), ("m_recovery_tickets", "what the shards report to a recovering broker", PA + "broker/impl.hpp")],
  ["broker recover callback", "shard get_tickets", "final shard and replicated state"])

UT = UHS + "transaction/"
P("C05", "A transaction passes validation exactly when it satisfies every rule",
  "check_tx accepts a full transaction if and only if it has at least one input and one output, one witness per input, no two inputs naming the same outpoint, no zero-valued input or output, "
  "input and output sums that are equal and do not exceed 64 bits, and for each input a pay-to-public-key witness of the right type and length whose program hashes to the commitment in the spent output and whose Schnorr signature "
  "over the transaction id verifies. When it refuses, the reported error (and index) is one that the transaction really has. Arbitrary transactions never make it misbehave.",
  ["inputs"],
  "every full transaction, valid, invalid in one or several ways, or hostile",
  "the tests try about one example per rule; overflow, duplicate, and witness rules depend on combinations of values, positions and bytes",
  [UT + "validation.cpp", UT + "validation.hpp", UT + "transaction.cpp"],
  [("check_tx and the checks it calls", UT + "validation.cpp")], [], ["return value of check_tx"])
P("C06", "Transaction, output and compact-transaction ids commit to exactly the content they stand for",
  "A transaction's id depends on all its inputs and outputs (every field, their order and number) and not on its witnesses. The id of a created output depends on the creating transaction, its position, commitment and value, "
  "equals the id computed when that output is later spent, and is never shared by two different outputs. A compact transaction carries the id, spent and created output ids of its full transaction, and what an attestation signs covers all of these and "
  "no attestation. Asking for an output a transaction does not have yields nothing.",
  ["inputs"],
  "every pair of transactions that differ in any field, element, order or boundary",
  "tests compare a few fixed ids; that every bit of every field counts, for outputs at any position, needs systematic variation",
  [UT + "transaction.cpp", UT + "transaction.hpp", UT + "messages.cpp"],
  [("tx_id, input::hash, uhs_id_from_output", UT + "transaction.cpp"), ("compact_tx and compact_tx::hash", UT + "transaction.cpp"), ("serialization of inputs and outputs", UT + "messages.cpp")],
  [], ["returned ids"])
P("C07", "Only enough genuine sentinel attestations make a compact transaction acceptable",
  "A compact transaction is accepted only when it carries at least the required number of attestations, every one of them from a configured sentinel key and a valid signature over this very transaction; with any forged, foreign or transplanted attestation, "
  "or too few, it is refused. An attestation made with a sentinel's key over a transaction is always accepted as that sentinel's.",
  ["inputs"],
  "every set of attestations (good, forged, for other transactions, from unknown keys, under other names), every configured key set and every threshold",
  "the repository's tests do not attack the attestation set; thresholds and mixtures of good and bad attestations are never enumerated",
  [UT + "validation.cpp", UT + "transaction.cpp"],
  [("check_attestations", UT + "validation.cpp"), ("compact_tx::sign / verify", UT + "transaction.cpp")], [], ["check_attestations, verify"])
P("C08", "A wallet never double-spends, loses or invents money",
  "A wallet's balance and count always equal the outputs it holds. A payment is made exactly when the balance suffices, spends only outputs the wallet holds, each at most once, oldest received first, "
  "pays exactly the requested outputs to the payee, returns all the rest as change to a key of its own, and conserves value; signed payments pass validation. A refused payment changes nothing. Confirming a transaction adds its outputs to own keys "
  "and removes the outputs it spent, repeating a confirmation of outputs still held changes nothing, and receivers find exactly the outputs paid to them. Saving and loading preserve keys and outputs. All of this holds with several threads using the wallet at once.",
  ["inputs", "histories", "schedules"],
  "every sequence of mints, payments of any amount or shape, confirmations (own, others', repeated, in any order), seeds, saves and loads, from any number of threads",
  "the tests pay a few fixed amounts from one wallet; interleaved confirmations, shared wallet files, seeded outputs combined with others, and concurrent use are not exercised",
  [UT + "wallet.cpp", UT + "wallet.hpp"],
  [("send_to / fan / accumulate_inputs", UT + "wallet.cpp"), ("update_balance / confirm_transaction / confirm_inputs", UT + "wallet.cpp"), ("save / load", UT + "wallet.cpp"), ("seed", UT + "wallet.cpp")],
  [("m_utxos_set, m_spend_queue, m_balance", "outputs held, in spending order, and their sum", UT + "wallet.hpp"), ("m_seed_from/m_seed_to", "seeded outputs left", UT + "wallet.hpp"), ("m_keys", "own keys", UT + "wallet.hpp")],
  ["transactions returned", "balance, count, is_spendable, export_send_inputs"])
AT = UHS + "atomizer/"
P("A01", "The atomizer's blocks never double-spend and it accounts for every transaction it is given",
  "With truthful attestations (an input is attested at a height only if no block up to that height spends it), no output is ever spent twice by the transactions in the atomizer's blocks, however old the attestations are that it accepts. A notification with inputs attested outside of the spent-output "
  "window is refused as such; one whose inputs were spent since is refused naming exactly these inputs; every other complete one is in the next block, unchanged and once. Block heights are contiguous. Partial notifications are joined across heights, and each that leaves the window incomplete is reported once. Serializing and restoring the atomizer "
  "gives an equal one that behaves the same. Transactions without inputs are accepted with any height.",
  ["histories", "inputs"],
  "every sequence of notifications (whole or partial, at any claimed height) and blocks, with any cache depth, and state copies anywhere in it",
  "the tests make one or two blocks with hand-made notifications; window edges, competing transactions across heights, and notifications outside of the window come from longer histories",
  [AT + "atomizer/atomizer.cpp", AT + "atomizer/atomizer.hpp"],
  [("insert / insert_complete", AT + "atomizer/atomizer.cpp"), ("check_stxo_cache, check_notification_offset", AT + "atomizer/atomizer.cpp"), ("make_block", AT + "atomizer/atomizer.cpp"), ("serialize / deserialize", AT + "atomizer/atomizer.cpp")],
  [("m_spent", "inputs spent in the pending and latest blocks", AT + "atomizer/atomizer.hpp"), ("m_txs", "partial notifications by height", AT + "atomizer/atomizer.hpp"), ("m_complete_txs", "the next block", AT + "atomizer/atomizer.hpp")],
  ["returned errors", "make_block", "height, pending_transactions"])
P("A05", "The watchtower reports the true fate of every transaction",
  "For each output id asked about, in the order asked and exactly once, the watchtower reports: spent or unspent with the block's height if the transaction asked about spends or creates (and nothing spends) it in the blocks it keeps, whatever errors came before; otherwise, by the latest of the errors it keeps for that transaction, an internal "
  "error, the invalid input, or the rejection because of another input; otherwise no history at the best height. It keeps exactly the configured number of latest blocks and errors (0: all), and ignores errors about spends the same transaction already made. Blocks that are missing, late, or repeated on the way are fetched or ignored, and it catches up with the chain. "
  "This holds with concurrent updates and questions.",
  ["histories", "inputs", "schedules"],
  "every sequence of blocks, errors (also several for one transaction or output), and status questions, any cache sizes, any loss, delay or repetition of blocks, any number of threads",
  "the tests use one block and one error; evictions, repeated errors for one id, errors followed by success, and block gaps need histories",
  [AT + "watchtower/watchtower.cpp", AT + "watchtower/block_cache.cpp", AT + "watchtower/error_cache.cpp", AT + "watchtower/controller.cpp", AT + "watchtower/status_update.cpp", AT + "watchtower/client.cpp"],
  [("check_uhs_id_statuses", AT + "watchtower/watchtower.cpp"), ("add_errors filter", AT + "watchtower/watchtower.cpp"), ("push_block", AT + "watchtower/block_cache.cpp"), ("push_errors", AT + "watchtower/error_cache.cpp"), ("atomizer_handler catch-up", AT + "watchtower/controller.cpp")],
  [("m_spent_ids/m_unspent_ids", "ids in cached blocks", AT + "watchtower/block_cache.hpp"), ("m_tx_id_errs/m_uhs_errs", "cached errors by id", AT + "watchtower/error_cache.hpp")],
  ["status answers", "best block height answers"])

UTIL = "src/util/"
SERF = [UTIL + "serialization/format.hpp", UTIL + "serialization/format.cpp", UTIL + "serialization/buffer_serializer.cpp", UTIL + "serialization/util.hpp"]
P("P08", "A Lua contract has exactly the effect its program describes, or none",
  "A contract run through the agent receives exactly its parameter and, for each string it yields, in that order, the current value of that key under a write lock. Its only effect is the table of strings it returns, which is committed and reported to the caller byte for byte, once, in an order of all contracts which respects real time. "
  "A contract which is not bytecode, raises an error, yields or returns something else (no key, several, another type, a table with other keys or values) or is refused a lock has no effect, is reported as failed, and leaves no lock behind. check_sig succeeds exactly for valid Schnorr signatures of the payload's SHA-256. "
  "Neither such contracts nor tickets which cannot be obtained, lost connections or failed requests end the agent or its client, or disturb other requests; every request an agent accepted is answered once, and failed checks do not accumulate memory.",
  ["inputs", "schedules", "faults"],
  "every program, parameter and stored value, every outcome of each lock request, and every interleaving of concurrent contracts",
  "the Lua runner, the agent's server and its client are in no test of the stable set; unit tests run a handful of contracts",
  [PA + "agent/runners/lua/impl.cpp", PA + "agent/runners/lua/server.cpp", PA + "agent/server_interface.cpp", PA + "agent/client.cpp", PA + "agent/impl.cpp"],
  [("lua_runner::schedule_contract", PA + "agent/runners/lua/impl.cpp"), ("lua_runner::contract_epilogue", PA + "agent/runners/lua/impl.cpp"), ("lua_runner::check_sig", PA + "agent/runners/lua/impl.cpp"), ("server::request_handler", PA + "agent/runners/lua/server.cpp")],
  [("m_state", "the Lua state of one execution", PA + "agent/runners/lua/impl.hpp"), ("m_agents", "agents of the requests under way", PA + "agent/server_interface.hpp")],
  ["keys locked", "results and updates reported", "values in the shards", "allocated memory", "sanitizer reports"])

P("U01", "Every message written by one component is read back unchanged by another",
  "Any value of any message type that components exchange or replicate (transactions, validation errors, sentinel, shard, coordinator, atomizer, archiver, watchtower, RPC envelope, locking-shard, agent and ticket "
  "machine messages, and the containers they are built of) is written to exactly the number of bytes announced, reading those bytes yields an equal value and consumes exactly them, so that messages may follow one another, and no strict prefix of them is "
  "accepted. All serializers (buffer, stream, raft buffer) write and accept the same bytes, and cursor operations read and write exactly the addressed bytes.",
  ["inputs"],
  "every value of every message type, of any container size including those at which reading proceeds in parts, and every cut of its encoding",
  "the unit tests round-trip a handful of fixed values of some of the types with one serializer; a swapped, dropped or misplaced field shows only for particular contents or for types no test serializes",
  SERF + ["src/uhs/transaction/messages.cpp", "src/uhs/twophase/locking_shard/format.cpp", "src/uhs/atomizer/atomizer/format.cpp", "src/parsec/runtime_locking_shard/format.cpp"],
  [("operator<< / operator>> templates", UTIL + "serialization/format.hpp"), ("serialized_size / make_buffer / from_buffer", UTIL + "serialization/util.hpp"),
   ("message formats", "src/**/format.cpp, messages.cpp")],
  [("m_cursor, m_valid", "position in and validity of the data read", UTIL + "serialization/buffer_serializer.hpp")],
  ["bytes written", "values read", "validity of the serializer"])
P("U02", "Malformed bytes from a peer are refused without harm",
  "Whatever bytes a component receives in place of a message, reading them ends, touches no memory it does not own, has no undefined behaviour, never aborts the process, and uses memory in proportion to the bytes received plus a small constant "
  "whatever sizes they claim. Either they are refused, or they are accepted as a value that survives being written and read again.",
  ["inputs"],
  "every byte string given to the reader of every message type",
  "the unit tests read well-formed encodings; out-of-range variant indices, booleans and lengths, cuts and splices at every position of every type are beyond any fixed set of examples",
  SERF + ["src/uhs/atomizer/watchtower/status_update_messages.cpp", "src/uhs/atomizer/watchtower/tx_error_messages.cpp"],
  [("operator>>", UTIL + "serialization/format.hpp"), ("read", UTIL + "serialization/buffer_serializer.cpp")],
  [("m_valid", "whether the data was well formed so far", UTIL + "serialization/buffer_serializer.hpp")],
  ["sanitizer reports", "live heap memory", "values accepted"])

P("U03", "Each remote call gets the answer to that call or none",
  "A remote procedure call returns either the answer the server's handler gave to that very request or, after a failure, a broken connection or the caller's timeout, no answer; never the answer to another call, and never later than the timeout by "
  "much. An asynchronous call's callback runs exactly once when its answer arrives, however many answers the server sends, and not otherwise. The handler sees each request it receives unchanged and once. Answers to calls which are "
  "unknown, already answered or given up, and malformed messages from either side, are ignored. Destroying a client releases the calls still waiting.",
  ["schedules", "histories", "faults", "inputs"],
  "every number of clients, servers, threads and outstanding calls, every order and timing of the answers, every point at which a connection breaks, and every reply a misbehaving server sends",
  "the unit tests make one call at a time to a server which answers in order; mismatched, late, repeated and lost answers need concurrent calls and a server that misbehaves",
  [UTIL + "rpc/client.hpp", UTIL + "rpc/tcp_client.hpp", UTIL + "rpc/tcp_server.hpp", UTIL + "rpc/async_server.hpp", UTIL + "rpc/blocking_server.hpp"],
  [("tcp_client::set_response", UTIL + "rpc/tcp_client.hpp"), ("call_raw", UTIL + "rpc/tcp_client.hpp"), ("async_call", UTIL + "rpc/async_server.hpp"), ("blocking_call", UTIL + "rpc/blocking_server.hpp")],
  [("m_responses", "calls waiting for an answer, by request id", UTIL + "rpc/tcp_client.hpp"), ("m_current_request_id", "the next request id", UTIL + "rpc/client.hpp")],
  ["results of calls and when they returned", "callback invocations", "requests seen by handlers", "sanitizer reports"])


P("U04", "Connected peers receive each message intact, once and in order",
  "Messages sent over one connection reach the other side unchanged, at most once, in the order they were queued, and are lost only if the connection breaks or is closed. A message sent to one peer reaches that peer alone and a broadcast every "
  "connected peer; a handler's reply reaches the sender. Accepted and outgoing connections both report correctly whether they are up. A client whose connection breaks connects again and messages then flow both ways. A remote host that sends "
  "partial or malformed data disturbs nobody else and cannot make the process allocate more than it has sent plus a constant. Closing always ends, whatever the threads involved are doing, releases every descriptor, and a "
  "connection manager which was reset works like new.",
  ["schedules", "faults", "inputs"],
  "every number of peers, message size and thread schedule, every point at which a connection breaks or a manager is closed, and every byte sequence a remote host sends",
  "the unit tests send one message over a healthy connection; splits, breaks, reconnections, hostile lengths and closing while in use depend on timing and bytes no fixed test covers",
  [UTIL + "network/connection_manager.cpp", UTIL + "network/peer.cpp", UTIL + "network/tcp_socket.cpp", UTIL + "network/tcp_listener.cpp", UTIL + "network/socket_selector.cpp"],
  [("connection_manager::add", UTIL + "network/connection_manager.cpp"), ("peer::do_reconnect", UTIL + "network/peer.cpp"), ("tcp_socket::receive", UTIL + "network/tcp_socket.cpp"), ("socket_selector::wait", UTIL + "network/socket_selector.cpp")],
  [("m_async_recv_queues", "packets received and not handled yet", UTIL + "network/connection_manager.hpp"), ("m_send_queue", "packets to send", UTIL + "network/peer.hpp")],
  ["messages received by each party", "connection state", "open descriptors", "allocation sizes", "sanitizer reports"])


P("U05", "Queues, thread pool and bounded cache behave as specified under concurrency",
  "Every item pushed to a blocking queue is popped exactly once, in push order for each producer (or by priority for the priority queue), pop blocks until there is an item or the queue is cleared, and clearing wakes every consumer. Every job given "
  "to the thread pool runs exactly once, concurrently with the others, and destroying the pool waits for all of them. The cache set holds exactly the most recently added values up to its capacity, reports whether a value was new, "
  "and evicts the oldest first.",
  ["schedules", "histories"],
  "every interleaving of producers, consumers, clears and destruction, and every sequence of insertions",
  "no unit test covers these classes; lost wake-ups, double pops and off-by-one evictions need particular interleavings or full caches",
  [UTIL + "common/blocking_queue.hpp", UTIL + "common/thread_pool.cpp", UTIL + "common/cache_set.hpp"],
  [("pop", UTIL + "common/blocking_queue.hpp"), ("thread_pool::push", UTIL + "common/thread_pool.cpp"), ("add", UTIL + "common/cache_set.hpp")],
  [("m_buffer", "items in the queue", UTIL + "common/blocking_queue.hpp"), ("m_vals", "the values held", UTIL + "common/cache_set.hpp")],
  ["items popped and by whom", "jobs run", "contents of the cache", "sanitizer reports"])


P("P05", "A replicated programmable shard keeps every prepared ticket and committed update when its leader changes",
  "While any minority of the replicas of a shard fails, restarts or is cut off, and when all of them restart: a ticket whose prepare was answered with success is listed by get_tickets to its broker, as prepared or committed, until the broker asks to roll back or finish it; a ticket whose commit was answered with "
  "success stays committed until it is finished, and its updates are visible to every later transaction under every later leader, also when the commit was requested more than once. No ticket is committed or prepared unless its broker asked, and tickets are listed to their own broker only. The transactions which committed "
  "are strictly serializable and none is applied in part. Once every ticket was finished or rolled back no lock remains and all leaders hold the same values. Each request is answered at most once, a request the shard cannot process is answered with an error and never ends a broker, and neither brokers nor replicas crash.",
  ["schedules", "faults", "histories"],
  "every sequence of transactions and recoveries of several brokers, every point at which the leader changes, a node or all nodes restart, replication stalls, or a connection is lost",
  "the replicated shard, its controller and its RPC client are in no test; unit tests call the in-memory shard and a replicated shard without raft",
  [PA + "runtime_locking_shard/controller.cpp", PA + "runtime_locking_shard/state_machine.cpp", PA + "runtime_locking_shard/replicated_shard.cpp", PA + "runtime_locking_shard/replicated_shard_client.cpp", PA + "runtime_locking_shard/server.cpp", PA + "runtime_locking_shard/client.cpp", PA + "runtime_locking_shard/impl.cpp"],
  [("controller::handle_get_tickets", PA + "runtime_locking_shard/controller.cpp"), ("replicated_shard::commit", PA + "runtime_locking_shard/replicated_shard.cpp"), ("server::handle_prepare", PA + "runtime_locking_shard/server.cpp"), ("impl::recover", PA + "runtime_locking_shard/impl.cpp")],
  [("m_tickets, m_state", "tickets prepared and committed, and values, as replicated", PA + "runtime_locking_shard/replicated_shard.hpp")],
  ["answers to the brokers' requests", "values read under each leader", "sanitizer reports"])

P("P06", "Tickets are unique and grow, across failures and restarts",
  "The ticket machine never hands out a ticket number twice: ranges given to different requests never overlap, whichever node is leader, through leader changes, restarts and restores from a snapshot, and numbers only grow with "
  "each range a node acknowledges. All nodes that applied the same log agree on the next number. A ticket machine client gives each caller a number "
  "from its fetched range once; when the ticket machine cannot be reached or fails a request the client does not crash and does not invent a number; and it can be destroyed while requests are under way.",
  ["schedules", "faults", "histories"],
  "every sequence of requests, leader changes, restarts, snapshots and lost responses, and every thread schedule in the client",
  "unit tests fetch a few ranges from one in-memory instance; the replicated machine and its client under failures are not compiled or tested at all",
  [PA + "ticket_machine/impl.cpp", PA + "ticket_machine/client.cpp", PA + "ticket_machine/state_machine.cpp", PA + "ticket_machine/controller.cpp", PA + "broker/impl.cpp"],
  [("impl::get_ticket_number", PA + "ticket_machine/impl.cpp"), ("rpc::client::get_ticket_number", PA + "ticket_machine/client.cpp"), ("state_machine::commit", PA + "ticket_machine/state_machine.cpp")],
  [("m_next_ticket_number", "the next number to give out", PA + "ticket_machine/impl.hpp"), ("m_tickets", "numbers fetched and not given out", PA + "ticket_machine/client.hpp")],
  ["ranges and numbers handed out", "results of requests", "state of each node", "sanitizer reports"])


P("P07", "Every key lives on one shard, and all its requests and updates go there",
  "The directory answers each request once and assigns each key to one existing shard, which depends only on the key and the number of shards: every directory instance, broker and thread gives the same answer every time, and no shard is left without keys. "
  "A broker sends every lock request and every update for a key to that shard, sends each committed update exactly once and to no other shard, and sends commands for a ticket only to shards that hold one of its keys.",
  ["inputs", "schedules"],
  "every key of any length and content, every number of shards and brokers, and every thread schedule",
  "unit tests look up a few fixed keys; a key routed differently on one path splits its state between shards, which shows only for particular keys",
  [PA + "directory/impl.cpp", PA + "broker/impl.cpp", UTIL + "common/hashmap.hpp"],
  [("impl::key_location", PA + "directory/impl.cpp"), ("handle_find_key / do_prepare", PA + "broker/impl.cpp"), ("const_sip_hash", UTIL + "common/hashmap.hpp")],
  [("m_n_shards", "the number of shards", PA + "directory/impl.hpp"), ("m_shard_states", "the keys of a ticket on each shard", PA + "broker/impl.hpp")],
  ["directory answers", "requests arriving at each shard"])


P("U11", "HTTP JSON-RPC gives each request its own answer, once, and survives any peer",
  "Each well-formed POST a json_rpc_http_server receives is given to the application exactly once, with its method and parameters unchanged, and answered with exactly the result the application gives for it, from whatever thread and whenever (500 if it has none, 400 if it refuses), under its own id and in the order of the connection's requests. "
  "Anything else is answered with an error (400 for a body which is no JSON object with a method, 405 for other methods) or its connection is closed; a server with CORS names the request's origin, one without names none. No input ends the process. A server can be destroyed at any moment, and after a failed init(). "
  "json_rpc_http_client sends each call as given and answers it exactly once: with the response to that very call if a server completes one with a 2xx code and JSON, with no value for other codes and other texts, or when the client is destroyed; a response which is cut is asked for again. It makes progress whenever its servers do, whatever the sizes, and calls may be made from callbacks.",
  ["inputs", "schedules", "faults"],
  "every request and response, split and cut anywhere, any order and delay of answers, any moment of stopping",
  "no test of the stable set runs the HTTP server or client",
  ["src/util/rpc/http/json_rpc_http_server.cpp", "src/util/rpc/http/json_rpc_http_client.cpp", "src/util/rpc/http/epoll_event_handler.cpp"],
  [("json_rpc_http_server::callback", "src/util/rpc/http/json_rpc_http_server.cpp"), ("json_rpc_http_server::handle_request", "src/util/rpc/http/json_rpc_http_server.cpp"), ("json_rpc_http_client::pump", "src/util/rpc/http/json_rpc_http_client.cpp"), ("epoll_event_handler::poll", "src/util/rpc/http/epoll_event_handler.cpp")],
  [("m_requests", "requests under way", "src/util/rpc/http/json_rpc_http_server.hpp"), ("m_transfers", "calls under way", "src/util/rpc/http/json_rpc_http_client.hpp")],
  ["requests given to the application", "HTTP responses", "callbacks of the client", "sanitizer reports"])

P("U10", "Hashes, encodings and random numbers follow their definitions",
  "hash_data and the SHA-256 class compute SHA-256 for every input, however it is split into writes and whichever processor-specific implementation is chosen; the hash-table hash is SipHash-2-4. "
  "Hexadecimal and Bech32 encodings decode to what was encoded; text that is not valid hexadecimal or Bech32 is refused (up to four wrong characters in an address are always noticed), and no text of any length makes a parser touch memory it does not own or return an undetermined value. "
  "A byte buffer holds exactly what was put into it. A random source never repeats itself, gives every thread numbers of its own, and depends on all of its entropy.",
  ["inputs", "schedules"],
  "every input length, content and split, every implementation the processor offers, every text, and every thread schedule on a shared random source",
  "unit tests check a handful of vectors; lengths near block boundaries, splits, vector implementations and malformed text are not sampled",
  [UTIL + "common/hash.cpp", UTIL + "common/buffer.cpp", UTIL + "common/hashmap.hpp", UTIL + "common/random_source.cpp", "3rdparty/crypto/sha256.cpp", "3rdparty/crypto/siphash.cpp", "3rdparty/bech32/bech32.cpp"],
  [("hash_data / hash_from_hex", UTIL + "common/hash.cpp"), ("buffer::from_hex", UTIL + "common/buffer.cpp"), ("CSHA256::Write", "3rdparty/crypto/sha256.cpp"), ("bech32::Decode", "3rdparty/bech32/bech32.cpp")],
  [("m_counter", "position in the random stream", UTIL + "common/random_source.hpp"), ("bytes", "how much was hashed so far", "3rdparty/crypto/sha256.h")],
  ["digests", "encoded and decoded values", "random numbers", "sanitizer reports"])


P("U08", "Configurations are read exactly, and incomplete or inconsistent ones refused",
  "Reading a configuration file yields exactly the settings written in it, each with its key's index, the documented default where a setting is absent, and the environment's value where the environment sets one. "
  "A file that lacks a required setting, or a configuration that cannot work (no component of a required kind, fewer sentinels or distinct public keys than required attestations, an invalid seed range), is refused with a message. "
  "An id belongs to a shard exactly if its first byte is in the shard's range including both ends. Load generators get disjoint parts of the seeded outputs. Program arguments of the programmable part are read likewise.",
  ["inputs"],
  "every combination of components, counts, settings, order of lines, environment overrides and program arguments",
  "unit tests check a few hand-made option structures and five lines of one file; a key read for the wrong index or a lost setting shows only with several components",
  [UTIL + "common/config.cpp", UTIL + "common/config.hpp", "src/parsec/util.cpp"],
  [("read_options", UTIL + "common/config.cpp"), ("check_options", UTIL + "common/config.cpp"), ("parser::find_or_env", UTIL + "common/config.cpp"), ("read_config", "src/parsec/util.cpp")],
  [("m_options", "the settings in the file", UTIL + "common/config.hpp"), ("options", "what the components are started with", UTIL + "common/config.hpp")],
  ["options returned", "errors returned"])


P("C09", "A client's balance is exactly what it was confirmed to hold",
  "A client's balance and outputs are what minting, payments it received and imported, and its own change gave it, less what it spent, counting a transaction or an imported output only once the system has confirmed it. "
  "A payment spends only available outputs and none twice, conserves value, pays exactly what was asked, is valid, and stays pending until confirmed; abandoning a failed one returns exactly the outputs no other pending payment uses. "
  "Synchronising confirms exactly the pending transactions and imported outputs (all of them, also several of one transaction) the system has confirmed, asking the shard responsible for each. Nothing changes when the client restarts from its files, "
  "also if it stopped while a request was under way. Addresses decode to the key they were made of, and text which is no address is refused.",
  ["inputs", "histories", "crash points"],
  "every sequence of operations of any number of clients, every answer, delay, loss and rejection by the system, and every stop between or during operations",
  "integration tests play a handful of fixed payments which all succeed against a live system and are not part of the test run; whether a balance is right depends on the history",
  [UHS + "client/client.cpp", UHS + "client/twophase_client.cpp", UHS + "client/atomizer_client.cpp"],
  [("client::send", UHS + "client/client.cpp"), ("client::confirm_transaction", UHS + "client/client.cpp"), ("client::abandon_transaction", UHS + "client/client.cpp"), ("client::import_send_input", UHS + "client/client.cpp"),
   ("twophase_client::sync", UHS + "client/twophase_client.cpp"), ("atomizer_client::sync", UHS + "client/atomizer_client.cpp"), ("address::decode", UHS + "client/client.cpp")],
  [("m_pending_txs", "transactions sent and not confirmed", UHS + "client/client.hpp"), ("m_pending_spend", "outputs they use", UHS + "client/client.hpp"), ("m_pending_inputs", "imported outputs not confirmed", UHS + "client/client.hpp"), ("m_wallet", "outputs available", UHS + "client/client.hpp")],
  ["balance, utxo_count, pending counts", "transactions the sentinel receives", "status requests the shards receive"])


P("C02", "A two-phase commit coordinator takes every batch through to one decision, on all its shards, whatever fails",
  "A coordinator puts each transaction it accepts into a batch which every shard concerned, and no other, is asked to lock; only when all of them have answered is each told to complete exactly the transactions that all their shards could lock, "
  "and told to forget the batch only after all have done so. A shard asked again for a step of a batch is asked for the same. A coordinator that loses the lead, stops, or cannot record a step at any point "
  "does not report a decision that was not made; whoever leads next finishes every recorded batch, also if it fails in turn, so that no batch stays half done. The submitter is told a transaction was confirmed only if it was completed and rejected only if it was not, and a transaction without enough attestations is refused. "
  "(Requests of a coordinator which lost the lead are taken not to reach a shard after later requests of its successor.)",
  ["schedules", "crash points", "faults", "histories"],
  "every mix of batches of competing transactions through one or more coordinators, with any replica losing leadership, stopping, losing requests or answers, or failing to record, at any step and again during recovery",
  "the coordinator's unit tests are not even compiled here (they need NuRaft), and integration tests stop a leader at one arbitrary moment; which step the failure hits decides what recovery has to do",
  [UHS + "twophase/coordinator/controller.cpp", UHS + "twophase/coordinator/distributed_tx.cpp", UHS + "twophase/coordinator/state_machine.cpp", UHS + "twophase/locking_shard/client.cpp"],
  [("execute_transaction, batch_executor_func, recovery_func", UHS + "twophase/coordinator/controller.cpp"), ("prepare, commit, discard, recover_*", UHS + "twophase/coordinator/distributed_tx.cpp"), ("commit (log entry)", UHS + "twophase/coordinator/state_machine.cpp"), ("send_request, stop", UHS + "twophase/locking_shard/client.cpp")],
  [("coordinator_state", "batches being prepared, committed or discarded, in the replicated log", UHS + "twophase/coordinator/controller.hpp"), ("m_current_batch, m_current_txs", "the batch being collected and who to answer", UHS + "twophase/coordinator/controller.hpp")],
  ["requests the shards receive", "answers to submitters", "check_unspent and check_tx_id of the shards in the end"])


P("C04", "A two-phase commit sentinel attests and submits only valid transactions and answers what became of them",
  "A sentinel rejects a transaction which breaks a rule, naming the rule, without showing it to anybody; it attests to a transaction exactly when it is valid and it has a key. A valid transaction is submitted to the coordinator once, as the compact form of exactly that transaction, "
  "and only with the sentinel's own attestation and as many others as required, which it obtains from other sentinels, asking none twice. The client is told that it was confirmed or rejected exactly as the coordinator said, and that it failed if a sentinel declined, the attestations remain too few, or the coordinator failed; "
  "each request is answered at most once. Other sentinels that decline, stay silent or answer nonsense, and stopping at work, do no other harm.",
  ["inputs", "schedules", "faults"],
  "every mix of valid and invalid transactions from concurrent clients, every behaviour of the other sentinels and of the coordinator, every threshold, and every moment of stopping",
  "the sentinel's tests (not compiled here) use one fixed transaction and cooperative peers; they cannot show what several requests and uncooperative peers lead to",
  [UHS + "twophase/sentinel_2pc/controller.cpp", UHS + "twophase/sentinel_2pc/server.cpp", UHS + "sentinel/client.cpp"],
  [("execute_transaction, validate_transaction", UHS + "twophase/sentinel_2pc/controller.cpp"), ("gather_attestations", UHS + "twophase/sentinel_2pc/controller.cpp"), ("send_compact_tx, result_handler", UHS + "twophase/sentinel_2pc/controller.cpp")],
  [("requested", "sentinels already asked about a transaction", UHS + "twophase/sentinel_2pc/controller.cpp")],
  ["requests the coordinator and other sentinels receive", "answers to clients"])

P("A06", "An atomizer sentinel attests and forwards only valid transactions, to every shard they need",
  "An atomizer sentinel rejects a transaction which breaks a rule, naming the rule, without showing it to anybody, and attests to a transaction exactly when it is valid. A valid transaction is acknowledged as pending and sent, as the compact form of exactly that transaction, "
  "with the sentinel's own attestation and as many others as required, once to shards which hold its inputs so that every input is covered, and to no other shard. It asks no other sentinel twice, and does not forward a transaction another sentinel declined. "
  "Each request is answered at most once. Other sentinels that decline, stay silent or answer nonsense, and stopping at work, do no other harm.",
  ["inputs", "schedules", "faults"],
  "every mix of valid and invalid transactions from concurrent clients, every behaviour of the other sentinels, every partition of the id space over shards, every threshold, and every moment of stopping",
  "the sentinel's tests (not compiled here) use one transaction and at most a few shards in fixed order; whether every input's shard is told depends on the partition and the order shards are tried in",
  [UHS + "atomizer/sentinel/controller.cpp", UHS + "atomizer/sentinel/server.cpp", UHS + "sentinel/client.cpp"],
  [("execute_transaction, validate_transaction", UHS + "atomizer/sentinel/controller.cpp"), ("gather_attestations", UHS + "atomizer/sentinel/controller.cpp"), ("send_compact_tx", UHS + "atomizer/sentinel/controller.cpp")],
  [("m_shard_data", "the shards and their ranges", UHS + "atomizer/sentinel/controller.hpp")],
  ["messages the shards and other sentinels receive", "answers to clients"])


P("C03", "A whole two-phase deployment confirms exactly the payments that happened, and value is conserved",
  "Clients submit transactions to any sentinel of a running two-phase deployment. One that is answered as confirmed has taken effect as a whole: its inputs are spent, its outputs exist and it can be found by its id, on every shard concerned and each of its replicas; one that is answered as rejected or invalid has had no effect. "
  "No output is spent twice, none comes from nowhere, and the value of the unspent outputs is always what was minted. An answer comes at most once and is never contradicted later. "
  "All this continues to hold, and the deployment comes back into service, when coordinators, shard replicas and sentinels lose the lead, are cut off, stop and start again.",
  ["inputs", "schedules", "crash points", "faults", "histories"],
  "every mix of valid, invalid, competing and repeated payments over every number of sentinels, coordinators, shards and replicas, with every component failing at any moment",
  "no existing test runs the deployment with replicated components in one piece; the end-to-end guarantee depends on how sentinel, coordinator and shards recover together, which is decided by when each fails",
  [UHS + "twophase/sentinel_2pc/controller.cpp", UHS + "twophase/coordinator/controller.cpp", UHS + "twophase/coordinator/distributed_tx.cpp", UHS + "twophase/locking_shard/controller.cpp", UHS + "twophase/locking_shard/locking_shard.cpp", UHS + "twophase/locking_shard/state_machine.cpp"],
  [("execute_transaction", UHS + "twophase/sentinel_2pc/controller.cpp"), ("execute_transaction, batch_executor_func", UHS + "twophase/coordinator/controller.cpp"), ("execute", UHS + "twophase/coordinator/distributed_tx.cpp"), ("commit (log entry)", UHS + "twophase/locking_shard/state_machine.cpp")],
  [("m_uhs, m_locked, m_spent", "what is unspent, locked and spent on a shard", UHS + "twophase/locking_shard/locking_shard.hpp"), ("coordinator_state", "batches in progress", UHS + "twophase/coordinator/controller.hpp")],
  ["answers to clients", "check_unspent and check_tx_id of all replicas", "total value"])

P("C10", "A replicated two-phase shard loses nothing it has answered for",
  "A shard of several replicas answers lock, apply and discard requests and status queries as one shard that never fails: what it has answered holds from then on, on whichever replica leads later, as long as a majority of replicas keeps its log. A request sent again after a lost answer has no further effect and gets the same answer. "
  "All replicas that have applied the same requests hold the same outputs, spent ids and completed transactions, also one that was stopped or cut off and caught up, and one that starts from its log alone. "
  "A replica never tells a client that an output was spent or a transaction completed before that was decided, nor takes it back.",
  ["schedules", "crash points", "faults", "histories"],
  "every sequence of requests from several coordinators, with any replica losing the lead, being cut off, lagging, stopping and starting again at any moment, and statuses read from any replica at any time",
  "the shard's unit tests call one shard object; the controller, the state machine and the replicated log are not even compiled here, and what survives depends on the moment of the failure",
  [UHS + "twophase/locking_shard/controller.cpp", UHS + "twophase/locking_shard/state_machine.cpp", UHS + "twophase/locking_shard/locking_shard.cpp", UHS + "twophase/locking_shard/server.cpp", UHS + "twophase/locking_shard/status_server.cpp", "src/util/raft/log_store.cpp"],
  [("commit (log entry)", UHS + "twophase/locking_shard/state_machine.cpp"), ("raft_callback", UHS + "twophase/locking_shard/controller.cpp"), ("lock_outputs, apply_outputs, discard_dtx", UHS + "twophase/locking_shard/locking_shard.cpp")],
  [("m_uhs, m_locked, m_spent, m_prepared_dtxs, m_applied_dtxs", "the state of the shard", UHS + "twophase/locking_shard/locking_shard.hpp"), ("the raft log", "requests in order", "src/util/raft/log_store.cpp")],
  ["answers to requests", "check_unspent and check_tx_id of all replicas"])


P("A02", "A cluster of atomizers makes one chain of blocks, without double spends",
  "Whoever leads, and whatever leaders change, fail, restart or start from a snapshot: all blocks a cluster of atomizers broadcasts or serves form one chain, with one block per height and no height left out. A block contains only transactions given to the cluster, unchanged, sufficiently attested by sentinels, all of whose inputs were attested by shards at "
  "heights the spent output cache still covers; no input is spent twice in the chain, if the shards' attestations are true. While one leader stays, each fully attested transaction ends in the next blocks or in an error to the watchtowers, and an error is true: an output called spent is spent, an attestation called too old was too old. "
  "Blocks are served until they are pruned, and only then forgotten.",
  ["inputs", "schedules", "histories", "faults", "crash points"],
  "every sequence of attestations from several shards at any heights, blocks, questions and prunes; leaders that change at any moment; nodes that are cut off, stop and restart; snapshots at any point of the log",
  "the controller and its replication are not even compiled here, and the unit tests exercise one atomizer object; what survives a change of leader or a snapshot depends on the history",
  [AT + "atomizer/controller.cpp", AT + "atomizer/atomizer_raft.cpp", AT + "atomizer/state_machine.cpp", AT + "atomizer/atomizer.cpp"],
  [("server_handler, main_handler, raft_result_handler, raft_callback", AT + "atomizer/controller.cpp"), ("tx_notify, send_complete_txs", AT + "atomizer/atomizer_raft.cpp"), ("commit, create_snapshot, apply_snapshot, save_logical_snp_obj, read_logical_snp_obj", AT + "atomizer/state_machine.cpp")],
  [("m_blocks, m_atomizer", "the replicated state", AT + "atomizer/state_machine.hpp"), ("m_txs, m_complete_txs", "attestations held by the leader", AT + "atomizer/atomizer_raft.hpp")],
  ["blocks broadcast and served", "errors to the watchtowers"])

P("A03", "An atomizer shard attests only to inputs that exist, and to each of them",
  "For each sufficiently attested transaction it is given, an atomizer shard answers once: with an error to the watchtowers that names exactly the inputs of its range which do not exist (in their order), or with a notification to the atomizers that attests exactly the inputs of its range, at a height at which all of them existed and "
  "were unspent; before the first block with a sync error; without inputs with an error that names none. The transaction goes on unchanged. Transactions without enough valid attestations of sentinels go nowhere. "
  "Its database holds exactly the unspent outputs of its range at the height it stores with them, at any stop, and it never goes back. It catches up with the chain whatever blocks it missed or got twice, as soon as an archiver has them, and it can always be stopped.",
  ["inputs", "schedules", "histories", "faults", "crash points"],
  "every chain, range and sequence of transactions, while blocks are digested; any loss, delay or repetition of blocks, any outage of the archiver, a stop at any moment",
  "the unit tests digest a few blocks by hand in one thread; attesting to the snapshot of one height while blocks change the database, and catching up, depend on schedules and outages",
  [AT + "shard/shard.cpp", AT + "shard/controller.cpp", AT + "archiver/client.cpp"],
  [("digest_transaction, digest_block, update_snapshot", AT + "shard/shard.cpp"), ("atomizer_handler, request_consumer", AT + "shard/controller.cpp"), ("get_block", AT + "archiver/client.cpp")],
  [("m_snp, m_snp_height", "what is attested to", AT + "shard/shard.hpp"), ("the leveldb database", "unspent outputs and best height", AT + "shard/shard.cpp")],
  ["notifications to the atomizers", "errors to the watchtowers", "the database"])

P("A04", "The archiver serves every block it ever stored, without gaps",
  "Asked for a block, the archiver answers with exactly the atomizers' block of that height, or with nothing if it does not have it. Once it has served a block or told the atomizers that they may forget it, it serves it from then on, also after a restart; if it has a block it has all before. "
  "It tells the atomizers that they may forget blocks only when it has stored them. Blocks that arrive late, early, twice or never are put in order or fetched from the atomizers, also if requests for them get lost, so that it catches up with the chain.",
  ["histories", "schedules", "faults", "crash points"],
  "every order, loss and repetition of blocks and lost requests, any questions at the same time, stops at any moment",
  "the tests feed a few blocks to one archiver object; gaps, lost requests, restarts, and pruning need histories with faults",
  [AT + "archiver/controller.cpp", AT + "archiver/client.cpp"],
  [("digest_block, request_block, get_block", AT + "archiver/controller.cpp"), ("atomizer_handler", AT + "archiver/controller.cpp")],
  [("m_best_height, m_deferred", "what is stored and what waits", AT + "archiver/controller.hpp"), ("the leveldb database", "the blocks", AT + "archiver/controller.cpp")],
  ["blocks served", "prune requests to the atomizers"])

P("U06", "The Raft log keeps exactly what was written to it",
  "The log of a replicated component holds at each index exactly the entry (term, type, content) last written there, until a later overwrite cuts it off or compaction removes it; its bounds and its last entry agree with that, appending gives out each index once, and missing entries are reported as such. "
  "Entries packed from one log and applied to another are the same there. All of this holds across restarts and crashes at any moment, also when everything has been compacted: an operation is then done completely or not at all, and completed ones are kept. flush() makes everything before it durable. Readers in other threads see only entries that were written.",
  ["histories", "crash points", "schedules"],
  "every history of appends, overwrites, compactions and packs, a crash of the process at any file-changing system call with any part of the last write done, readers at any moment",
  "the unit tests fill a log with a few entries, in one thread, without crashes, and do not compact all of it",
  ["src/util/raft/log_store.cpp", "src/util/raft/index_comparator.cpp"],
  [("append, write_at, apply_pack, compact", "src/util/raft/log_store.cpp"), ("load, flush", "src/util/raft/log_store.cpp"), ("log_entries, entry_at, last_entry, pack", "src/util/raft/log_store.cpp")],
  [("the leveldb database", "the entries and, once compacted, the last removed index", "src/util/raft/log_store.cpp"), ("m_start_idx, m_next_idx", "the bounds", "src/util/raft/log_store.hpp")],
  ["what the log returns", "the log after a restart"])

P("U07", "A Raft server's vote, term and configuration survive crashes and failing disks",
  "What a replicated component last saved as its configuration or as its term and vote is what it loads, in the same and in any later process; before the first save it has no vote, and the configuration made of its endpoints, in order. If it crashes while saving, or the disk refuses or shortens a write, it finds either what was saved before or what was being saved, complete, and it does not go on as if a failed save had worked.",
  ["histories", "crash points", "faults"],
  "every sequence of saves and loads, a crash at any write or rename with any part of the write done, any write failing or cut short",
  "the unit tests save and load once; a torn or failed write at the wrong moment makes a server vote twice in a term",
  ["src/util/raft/state_manager.cpp"],
  [("save_object, load_object", "src/util/raft/state_manager.cpp"), ("load_config", "src/util/raft/state_manager.cpp")],
  [("the configuration and state files", "what was saved", "src/util/raft/state_manager.cpp")],
  ["what is loaded after a restart"])

P("C12", "A client killed at any moment, or on a failing disk, loses nothing it had",
  "Whenever a client's process ends, also while it saves its files, the next one finds the wallet and the pending transactions together as they were before the operation under way or as they are after it: no confirmed money, no key of an address it gave out, of a pending mint or of its own change, no received input and no pending transaction is lost, "
  "so that every pending transaction can still be confirmed or abandoned with its full effect, and all its money spent. If its files cannot be written it ends, and the files stay as they were.",
  ["histories", "crash points", "faults"],
  "every sequence of operations, a crash at any write or rename with any part of the write done, any write failing or cut short",
  "the unit tests save a wallet once and load it; losing keys or money takes a crash at the wrong moment between two files",
  [UHS + "client/client.cpp", UHS + "transaction/wallet.cpp"],
  [("save, finish_save, init", UHS + "client/client.cpp"), ("send, fan, register_pending_tx", UHS + "client/client.cpp"), ("wallet::save, wallet::load", UHS + "transaction/wallet.cpp")],
  [("the wallet file", "keys and outputs", UHS + "transaction/wallet.cpp"), ("the client file", "pending transactions and inputs", UHS + "client/client.cpp")],
  ["balance and pending transactions after a restart", "spending and confirming after a restart"])

P("A08", "An atomizer always starts from its last complete snapshot",
  "A snapshot which an atomizer has made, or has been sent and taken over, is the one it starts from, until there is a newer one; it then goes on from there exactly like an atomizer that never stopped. If its process ends while a snapshot is written, put in place or old ones are removed, it starts from the one before or the new one, complete, and never fails to start. "
  "If the disk refuses or shortens a write, it does not go on as if the snapshot had been made, and the last one stays.",
  ["histories", "crash points", "faults"],
  "every log and moment of a snapshot, a crash at any write, rename or removal with any part of the write done, any write failing or cut short",
  "nothing tests the snapshots at all; a torn snapshot which replaced the last one stops an atomizer for good",
  [AT + "atomizer/state_machine.cpp"],
  [("create_snapshot, save_logical_snp_obj, apply_snapshot", AT + "atomizer/state_machine.cpp"), ("last_snapshot, read_snapshot, state_machine", AT + "atomizer/state_machine.cpp")],
  [("the snapshot directory", "snapshots by log index", AT + "atomizer/state_machine.cpp")],
  ["the log index and answers after a restart"])

P("C11", "Seeding puts every initial output on the shards responsible for it, and load generators can spend them",
  "For every valid configuration of either architecture, what the shard seeder makes for a shard (for two-phase shards by shard id, for atomizer shards one database per distinct range in ascending order) holds exactly the outputs of the seeds from seed_from up to seed_to whose id lies in the configured range of that shard; if it cannot write one of its files it does not end successfully. "
  "A shard which starts from it has exactly these outputs unspent. The seed ranges of different load generators do not overlap and lie within the configured one; a wallet seeded with its range has the balance of its seeds, and its payments are valid, spend only seeds, conserve value and are accepted by the shards once.",
  ["configurations", "inputs"],
  "every set of shard ranges, in any order and with replicas, every seed range, value and key, every number of load generators",
  "no test runs the seeder",
  ["tools/shard-seeder/shard-seeder.cpp", "src/uhs/twophase/locking_shard/locking_shard.cpp", "src/uhs/transaction/wallet.cpp"],
  [("main", "tools/shard-seeder/shard-seeder.cpp"), ("read_preseed_file", "src/uhs/twophase/locking_shard/locking_shard.cpp"), ("seed, seed_readonly, create_seeded_transaction", "src/uhs/transaction/wallet.cpp"), ("loadgen_seed_range", "src/util/common/config.cpp")],
  [("the preseed files and databases", "the initial outputs of each shard", "tools/shard-seeder/shard-seeder.cpp")],
  ["the contents of the preseed files", "what shards started from them accept"])

# --- generation -------------------------------------------------------------
TECH = {}


def write_design(props):
    import design
    o = [design.HEAD, "\n## Properties\n"]
    caught = {}
    cf = os.path.join(V, "lib", "caught.json")
    if os.path.exists(cf):
        caught = json.load(open(cf))
    for k in sorted(T):
        t = T[k]
        o.append("\n### %s: %s\n\n" % (k, t["title"]))
        p = props.PROPS.get(k)
        if not p:
            o.append("Not claimed: %s.\n" % NOT_APPLICABLE.get(k, "no check has been built for it yet"))
            continue
        orc, lim = design.D.get(k, ("", ""))
        o.append("* Quantifies over: %s.\n" % t["quantifier"]["text"])
        o.append("* Why tests cannot settle it: %s.\n" % t["why_tests_cant"])
        o.append("* Oracle: %s\n" % orc)
        o.append("* Workload: %s.\n" % p["rule"])
        o.append("* Size (quick / thorough, cases x processes): %s.\n" % "; ".join(
            "%s%s %d / %d x %d" % (j["flavour"], (" " + j["mode"]) if j.get("mode") else "", j["cases"][0], j["cases"][1], j["shards"]) for j in p["jobs"]))
        if p.get("reach"):
            o.append("* Must observe at least: %s.\n" % ", ".join("%s %d" % kv for kv in sorted(p["reach"].items())))
        if lim:
            o.append("* Limits: %s\n" % lim)
        mine = sorted(i for i, c in caught.items() if c["property"] == k)
        for i in mine:
            o.append("* Planted `%s`: %s (%s)\n" % (i, caught[i]["breaks"], caught[i]["result"]))
    o.append(design.TAIL_FINDINGS)
    for line in open(os.path.join(V, "known_findings.txt")):
        if line.startswith("fixed: property="):
            a, b, c = line[16:].strip().split(" ", 2)
            o.append("* %s, %s: %s\n" % (a, b, c))
        elif line.startswith("known: property="):
            o.append("* not repaired: %s\n" % line[7:].strip())
    o.append(design.TAIL)
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write("".join(o))


def main():
    import props
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for k in sorted(T):
            d = {a: b for a, b in T[k].items() if not a.startswith("_")}
            f.write(json.dumps(d) + "\n")
    checks = []
    for k in sorted(props.PROPS):
        p = props.PROPS[k]
        fl = sorted({j["flavour"] for j in p["jobs"]})
        names = {"asan": "AddressSanitizer+UBSan", "asano": "AddressSanitizer+UBSan", "tsan": "ThreadSanitizer", "plain": "uninstrumented"}
        tech = p.get("technique") or ("runtime monitoring: " + p.get("oracle", "reference-model monitor over generated histories")
                                      + " (" + ", ".join(sorted({names[x] for x in fl})) + " builds of the real code)")
        checks.append(dict(property=k, quick_cmd="python3 lib/run.py %s --tier quick" % k,
                           thorough_cmd="python3 lib/run.py %s --tier thorough" % k,
                           evidence_file="evidence/%s.json" % k, technique=tech,
                           level=p["level"], level_note=p.get("level_note") or ("Held on the executions produced: " + p["rule"] + ". Nothing is claimed about executions not produced.")))
    na = []
    for k in sorted(T):
        if k not in props.PROPS:
            na.append(dict(property=k, reason=NOT_APPLICABLE.get(k, "no check has been built for it yet")))
    m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=na,
             notes="Every check rebuilds its monitors from /repo's working tree (content-hashed objects under .build).")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    write_design(props)
    missing = [k for k in props.PROPS if k not in T]
    if missing:
        print("no text for", missing)
        return 1
    print("%d properties, %d claimed" % (len(T), len(checks)))
    return 0


if __name__ == "__main__":
    sys.exit(main())
