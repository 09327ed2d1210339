"""What each property's check runs.  cases = (quick, thorough) per shard."""
UHS = ["crypto", "common", "serialization",
       "src/uhs/transaction/transaction.cpp", "src/uhs/transaction/validation.cpp",
       "src/uhs/transaction/messages.cpp"]
PROPS = {}

PROPS["C01"] = dict(
    level="exploration",
    rule="random competing distributed transactions over few outputs on 1-4 real shards; a case is the interleaving of "
         "prepare/apply/discard (with repeated commands) checked against a reference ledger after every step; distinct = "
         "different interleavings with different end ledgers",
    reach={"locks": 1000, "lock_refusals": 500, "unlocks": 50, "lock_replays": 50, "apply_replays": 50,
           "concurrent_completed": 100, "concurrent_refused": 50},
    jobs=[
        dict(name="c01", harness="harness/c01_locking_shard.cpp", flavour="asan",
             sources=UHS + ["src/uhs/twophase/locking_shard/locking_shard.cpp", "src/uhs/twophase/locking_shard/interface.cpp",
                            "src/uhs/twophase/locking_shard/messages.cpp", "src/uhs/twophase/locking_shard/format.cpp"],
             libs=["secp256k1"], cases=(150, 8000), shards=8),
        dict(name="c01", harness="harness/c01_locking_shard.cpp", flavour="tsan", mode="threads",
             sources=UHS + ["src/uhs/twophase/locking_shard/locking_shard.cpp", "src/uhs/twophase/locking_shard/interface.cpp",
                            "src/uhs/twophase/locking_shard/messages.cpp", "src/uhs/twophase/locking_shard/format.cpp"],
             libs=["secp256k1"], cases=(60, 1500), shards=4),
    ])

RLS = "src/parsec/runtime_locking_shard/"
PROPS["P01"] = dict(
    level="exploration",
    rule="random lock/prepare/commit/rollback/finish/failover sequences by competing tickets on a real shard, compared with a lock "
         "ledger after every call; concurrent transactions over 1-3 shards checked for strict serializability; distinct = different "
         "operation sequences with their grant order",
    reach={"grants": 1000, "wounds": 100, "commits": 100, "failovers": 20, "concurrent_commits": 200, "concurrent_restarts": 10},
    jobs=[
        dict(name="p01", harness="harness/p01_shard.cpp", flavour="asan",
             sources=["common", "serialization", "crypto", RLS + "impl.cpp", RLS + "replicated_shard.cpp"],
             libs=["secp256k1"], cases=(1200, 60000), shards=6),
        dict(name="p01", harness="harness/p01_shard.cpp", flavour="tsan", mode="threads",
             sources=["common", "serialization", "crypto", RLS + "impl.cpp", RLS + "replicated_shard.cpp"],
             libs=["secp256k1"], cases=(100, 5000), shards=4),
    ])
PAGENT = ["common", "serialization", "crypto", "rpc", "network", RLS + "impl.cpp", RLS + "replicated_shard.cpp", RLS + "server.cpp", RLS + "format.cpp",
          "src/parsec/broker/impl.cpp", "src/parsec/agent/impl.cpp", "src/parsec/agent/interface.cpp", "src/parsec/agent/runners/interface.cpp",
          "src/parsec/directory/impl.cpp", "src/parsec/ticket_machine/impl.cpp", "src/parsec/agent/format.cpp"]
PROPS["P03"] = dict(
    level="exploration",
    rule="2-8 real agents run random read/write programs through real brokers against 1-3 real shard servers; the monitor picks the order in "
         "which every message is delivered and checks the recorded reads and writes for a serial order consistent with real time, one final "
         "result per execution, and progress; distinct = different delivery orders",
    reach={"executions": 1000, "restarts": 50, "wounded_answers": 20, "conflict_edges": 1000},
    jobs=[
        dict(name="p03", harness="harness/p03_agents.cpp", flavour="asan", sources=PAGENT, libs=["secp256k1"], cases=(500, 30000), shards=5),
        dict(name="p03", harness="harness/p03_agents.cpp", flavour="asan", mode="direct", sources=PAGENT, libs=["secp256k1"], cases=(300, 5000), shards=1),
        dict(name="p03", harness="harness/p03_agents.cpp", flavour="tsan", mode="threads", sources=PAGENT, libs=["secp256k1"], cases=(150, 4000), shards=3),
    ])
_P8 = dict(name="p08", harness="harness/p08_lua.cpp", sources=PAGENT + ["src/parsec/agent/client.cpp", "src/parsec/agent/server_interface.cpp", "src/parsec/agent/runners/lua/*.cpp"], libs=["secp256k1", "llua5.4"[1:]])
PROPS["P08"] = dict(
    level="exploration",
    rule="generated Lua contracts run by the real runner against a model which knows the locks, errors and updates of each; the real agent server over TCP with concurrent clients paying between accounts and running "
         "broken contracts while tickets are refused; clients whose server fails; distinct = different contracts and delivery orders",
    reach={"contracts": 1000, "locks": 1000, "updates": 300, "errors": 300, "number_keys": 20, "good_signatures": 100, "bad_signatures": 100, "refused_locks": 50, "payments": 100, "broken_runs": 20,
           "no_ticket": 3, "read_only_runs": 30, "memory_checked": 3, "servers_lost": 20, "client_errors": 50},
    jobs=[dict(_P8, flavour="asan", cases=(200, 20000), shards=3),
          dict(_P8, flavour="asan", mode="server", cases=(16, 800), shards=2),
          dict(_P8, flavour="tsan", mode="server", cases=(10, 400), shards=2),
          dict(_P8, flavour="asan", mode="clients", cases=(60, 3000), shards=1)])
PROPS["P04"] = dict(
    level="fault_enumeration",
    rule="the same deployment with brokers, their agents, or everything stopped after a random number of message deliveries (in-flight "
         "messages partly delivered, replication partly done), then recovered; every interrupted transaction must be applied everywhere or nowhere, "
         "acknowledged ones must survive, no lock may leak; distinct = different delivery orders and crash points",
    reach={"broker_recoveries": 100, "shard_recoveries": 50, "agents_killed": 100, "executions": 300},
    jobs=[
        dict(name="p03", harness="harness/p03_agents.cpp", flavour="asan", mode="crash", sources=PAGENT, libs=["secp256k1"], cases=(500, 30000), shards=8),
    ])

_P2 = dict(name="p02", harness="harness/p02_broker.cpp", sources=PAGENT, libs=["secp256k1"])
PROPS["P02"] = dict(
    level="exploration",
    rule="clients issue legal and illegal begin/lock/commit/rollback/finish requests to one real broker over 1-4 scripted shards which answer "
         "late, refuse, or cannot be reached; each command that reaches a shard is checked against what the other shards had acknowledged; recovery from "
         "every combination of reported ticket states; distinct = different command and answer orders",
    reach={"prepares": 1000, "commits": 300, "rollbacks": 300, "prepares_refused": 50, "recoveries": 100, "recovered_tickets": 100,
           "illegal_requests": 50, "threaded_commits": 50},
    jobs=[
        dict(_P2, flavour="asan", cases=(1500, 60000), shards=2),
        dict(_P2, flavour="asan", mode="sync", cases=(1500, 30000), shards=1),
        dict(_P2, flavour="asan", mode="faults", cases=(1500, 60000), shards=2),
        dict(_P2, flavour="asan", mode="recover", cases=(2000, 40000), shards=2),
        dict(_P2, flavour="tsan", mode="threads", cases=(60, 2000), shards=3),
    ])

_C5 = dict(name="c05", harness="harness/c05_validation.cpp", flavour="asan", sources=UHS, libs=["secp256k1"])
PROPS["C05"] = dict(
    level="exploration",
    rule="valid signed transactions and ones damaged by 0-3 targeted mutations, judged by an independent restatement of the rules (128-bit sums); "
         "distinct = different mutation and transaction",
    reach={"valid": 500, "invalid": 1000},
    jobs=[dict(_C5, cases=(2000, 200000), shards=6)])
PROPS["C06"] = dict(
    level="exploration",
    rule="random transactions and single-field changes of them; ids must differ exactly when what they commit to differs, and spending ids must equal "
         "creation ids; distinct = different ids computed",
    reach={"ids": 500, "changes": 3000},
    jobs=[dict(_C5, mode="ids", cases=(1200, 60000), shards=6)])
PROPS["C07"] = dict(
    level="exploration",
    rule="compact transactions with good, forged, foreign and unknown attestations checked against every threshold; distinct = different attestation sets",
    reach={"att_accepted": 500, "att_refused": 500},
    jobs=[dict(_C5, mode="att", cases=(1200, 60000), shards=6)])
_C8 = dict(name="c08", harness="harness/c08_wallet.cpp", sources=UHS + ["src/uhs/transaction/wallet.cpp"], libs=["secp256k1"])
PROPS["C08"] = dict(
    level="exploration",
    rule="1-3 wallets (fresh, seeded, loaded from each other's files) mint, pay, fan out, export, confirm in any order and repeatedly; every transaction and balance is "
         "checked against a ledger of unspent outputs; threads spend from one wallet at once; distinct = different operation sequences",
    reach={"sends": 1000, "sends_refused": 100, "debits": 5, "loads": 50, "signed_valid": 300, "seeded_spends": 100, "threaded_sends": 200},
    jobs=[dict(_C8, flavour="asan", cases=(500, 20000), shards=5),
          dict(_C8, flavour="tsan", mode="threads", cases=(30, 1000), shards=3),
          dict(_C8, flavour="tsan", mode="manykeys", cases=(1, 10), shards=2)])
ATM = UHS + ["src/uhs/atomizer/atomizer/atomizer.cpp", "src/uhs/atomizer/atomizer/block.cpp", "src/uhs/atomizer/atomizer/format.cpp",
             "src/uhs/atomizer/atomizer/messages.cpp", "src/uhs/atomizer/watchtower/tx_error_messages.cpp", "src/uhs/atomizer/watchtower/messages.cpp"]
PROPS["A01"] = dict(
    level="exploration",
    rule="random truthful attestations and aggregated notifications for competing transactions, blocks, and state copies on a real atomizer with cache depth 0-5, "
         "judged against the whole chain; distinct = different operation sequences",
    reach={"completed": 1000, "double_spends_refused": 300, "range_refused": 100, "incomplete_reported": 50, "copies": 50, "assembled": 50},
    jobs=[dict(name="a01", harness="harness/a01_atomizer.cpp", flavour="asan", sources=ATM, libs=["secp256k1"], cases=(300, 30000), shards=6)])
WT = ATM + ["network", "src/uhs/atomizer/watchtower/*.cpp", "src/uhs/atomizer/archiver/client.cpp"]
WTX = ["src/uhs/atomizer/watchtower/watchtowerd.cpp"]
_A5 = dict(name="a05", harness="harness/a05_watchtower.cpp", sources=WT, exclude=WTX, libs=["secp256k1"])
PROPS["A05"] = dict(
    level="exploration",
    rule="random chains of blocks and errors given to a real watchtower (directly, from several threads, and over the network with blocks missing, late and repeated), every "
         "status compared with what the chain and the errors say; distinct = different sequences",
    reach={"states": 5000, "spent": 300, "unspent": 300, "error_states": 500, "cache_lookups": 3000, "served": 10, "late_blocks": 5, "archive_blocks": 10},
    jobs=[dict(_A5, flavour="asan", cases=(150, 6000), shards=4),
          dict(_A5, flavour="asan", mode="served", cases=(4, 200), shards=4),
          dict(_A5, flavour="tsan", mode="threads", cases=(20, 500), shards=2)])
SER = ATM + ["rpc", "src/uhs/atomizer/watchtower/watchtower.cpp", "src/uhs/atomizer/watchtower/block_cache.cpp", "src/uhs/atomizer/watchtower/error_cache.cpp",
             "src/uhs/atomizer/watchtower/status_update.cpp", "src/uhs/atomizer/watchtower/status_update_messages.cpp", "src/uhs/sentinel/format.cpp",
             "src/uhs/sentinel/interface.cpp", "src/uhs/twophase/locking_shard/format.cpp", "src/uhs/twophase/locking_shard/messages.cpp", "src/uhs/twophase/coordinator/format.cpp",
             RLS + "format.cpp", "src/parsec/agent/format.cpp", "src/util/raft/serialization.cpp", "src/util/raft/messages.cpp", "network"]
_U1 = dict(name="u01", harness="harness/u01_serialization.cpp", flavour="asan", sources=SER, libs=["secp256k1"])
PROPS["U01"] = dict(
    level="exploration",
    rule="random values of every message type written with each serializer and read back, compared through an independent field-by-field encoding; every prefix must be refused; "
         "containers around the sizes at which reading proceeds in parts; distinct = different encodings",
    reach={"round_trips": 5000, "prefixes_refused": 20000, "commands": 100, "large": 5, "cursor_runs": 50},
    jobs=[dict(_U1, cases=(120, 8000), shards=5)])
PROPS["U02"] = dict(
    level="exploration",
    rule="damaged encodings (flipped bits, absurd lengths, cut, spliced, repeated parts) and random bytes given to every message type's reader under sanitizers, with the memory in use measured by "
         "allocator hooks; what is accepted must survive writing and reading again; distinct = different inputs",
    reach={"hostile_inputs": 20000, "hostile_refused": 5000, "hostile_accepted": 5000},
    jobs=[dict(_U1, mode="hostile", cases=(150, 20000), shards=6)])
SLOW = ["-Wl,--wrap=_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "-Wl,--wrap=pthread_cond_clockwait"]
SHORT = ["-Wl,--wrap=read", "-Wl,--wrap=write"]
_U5 = dict(name="u05", harness="harness/u05_concurrency.cpp", sources=["src/util/common/thread_pool.cpp"], libs=SLOW, defines=("SLOW_WAITS",))
PROPS["U05"] = dict(
    level="exploration",
    rule="producers and consumers, repeated clearing, tasks that need each other to run, pools ended while busy, and caches used from several threads, all with random delays under race and address sanitizers; "
         "single-threaded runs against models; distinct = different consumption orders and operation sequences",
    reach={"queue_elements": 3000, "releases": 100, "pool_tasks": 200, "pools": 50, "one_each": 200, "slow_waits": 50, "model_pops": 1000, "cache_lookups": 10000},
    jobs=[dict(_U5, flavour="asan", cases=(120, 6000), shards=3),
          dict(_U5, flavour="tsan", mode="threads", cases=(120, 6000), shards=3)])
RAFT = ["src/util/raft/*.cpp"]
_P6 = dict(name="p06", harness="harness/p06_tickets.cpp", sources=["common", "serialization", "crypto", "network", "rpc", "src/parsec/ticket_machine/impl.cpp", "src/parsec/ticket_machine/client.cpp"], libs=["secp256k1"])
_P6C = dict(_P6, name="p06c", defines=("VERIF_CLUSTER",), mode="cluster",
            sources=_P6["sources"] + RAFT + ["src/parsec/ticket_machine/controller.cpp", "src/parsec/ticket_machine/state_machine.cpp"], libs=["secp256k1", "leveldb"])
PROPS["P06"] = dict(
    level="exploration",
    rule="threads taking ranges from one machine; clients of a machine which answers late and fails; three replicas over a simulated raft log whose leader changes and whose nodes stop and restart while clients "
         "ask; every number given to anybody enters one ledger; distinct = different numbers of answers",
    reach={"local_ranges": 2000, "client_tickets": 5000, "client_errors": 50, "cluster_tickets": 5000, "restarts": 10, "phases": 15},
    jobs=[dict(_P6, flavour="asan", cases=(25, 2000), shards=2),
          dict(_P6, flavour="tsan", cases=(15, 800), shards=1),
          dict(_P6C, flavour="asan", cases=(8, 800), shards=2),
          dict(_P6C, flavour="tsan", cases=(5, 300), shards=1)])
_P5 = dict(name="p05", harness="harness/p05_replicated_shard.cpp", libs=["secp256k1", "leveldb", "-Wl,--wrap=socket"], defines=("FAST_SOCKETS",),
           sources=["common", "serialization", "crypto", "network", "rpc"] + RAFT + [RLS + "*.cpp"], exclude=(RLS + "runtime_locking_shardd.cpp",))
PROPS["P05"] = dict(
    level="exploration",
    rule="brokers run transactions over TCP against one shard of one or three replicas over a simulated raft log whose leader changes, is cut off, refuses, applies late, and whose nodes stop and restart; each broker "
         "follows every ticket of its own through what the shard answers and recovers lost ones; the history of all transactions is checked for lost, partial and unserializable updates and every leader must end up with the same values; "
         "distinct = different numbers of commits, disturbances and transactions",
    reach={"transactions": 500, "committed": 150, "elections": 20, "restarts": 20, "recoveries": 100, "final_reads": 50},
    jobs=[dict(_P5, flavour="asan", cases=(6, 600), shards=4),
          dict(_P5, flavour="tsan", cases=(4, 300), shards=3)])
_P7 = dict(name="p07", harness="harness/p07_routing.cpp", sources=PAGENT, libs=["secp256k1"])
PROPS["P07"] = dict(
    level="exploration",
    rule="1-4 brokers with shared or separate directories over 1-69 recording shards lock, update, roll back and finish hundreds of keys of 1-200 bytes from concurrent threads; every request about a key is compared with every other one; "
         "distinct = different numbers of shards, requests and updates",
    reach={"directory_answers": 20000, "locks": 20000, "updates": 10000, "rollbacks": 200},
    jobs=[dict(_P7, flavour="asan", cases=(60, 5000), shards=2),
          dict(_P7, flavour="tsan", cases=(30, 3000), shards=1)])
_U8 = dict(name="u08", harness="harness/u08_config.cpp", sources=["common", "serialization", "crypto", "network", "rpc", "src/parsec/util.cpp"], libs=["secp256k1"])
PROPS["U08"] = dict(
    level="exploration",
    rule="configurations of both modes with 0-13 of each component generated from a model, written in random order with noise, partly overridden from the environment, and with one required setting removed; program arguments valid and broken; "
         "distinct = different configurations",
    reach={"files_read": 500, "usable": 100, "unusable": 100, "missing": 300, "from_environment": 200, "empty_environment": 20, "values": 3000, "ranges": 5000, "args_valid": 200, "args_broken": 200},
    jobs=[dict(_U8, flavour="asan", cases=(1000, 60000), shards=2),
          dict(_U8, flavour="asan", mode="args", cases=(1000, 60000), shards=1)])
CLIENT = ["common", "serialization", "crypto", "network", "rpc", "src/uhs/transaction/*.cpp", "src/uhs/client/client.cpp", "src/uhs/client/twophase_client.cpp", "src/uhs/client/atomizer_client.cpp",
          "src/uhs/sentinel/client.cpp", "src/uhs/sentinel/format.cpp", "src/uhs/sentinel/interface.cpp", "src/uhs/twophase/coordinator/client.cpp", "src/uhs/twophase/coordinator/format.cpp",
          "src/uhs/twophase/locking_shard/status_client.cpp", "src/uhs/twophase/locking_shard/format.cpp", "src/uhs/twophase/locking_shard/messages.cpp"] + WT
_C9 = dict(name="c09", harness="harness/c09_client.cpp", flavour="asan", sources=CLIENT, exclude=WTX, libs=["secp256k1"])
PROPS["C09"] = dict(
    level="exploration",
    rule="two clients of either architecture mint, pay, fan out, export, import, synchronise, resend, abandon and restart from their files, also from the state they had on disk when a request left, against a sentinel, coordinator, shards and "
         "watchtower which confirm, delay, reject, lose or lose the answer; after every step both are compared with a ledger; distinct = different histories",
    reach={"states": 3000, "payments": 400, "mints": 200, "imports": 200, "foreign_imports": 50, "abandoned": 50, "crashes": 20, "restarts": 50, "settled": 30, "addresses": 500, "late_mints": 1},
    jobs=[dict(_C9, cases=(20, 1500), shards=8),
          dict(_C9, mode="atomizer", cases=(20, 1500), shards=6),
          dict(_C9, mode="late", cases=(1, 20), shards=2),
          dict(_C9, mode="address", cases=(30, 5000), shards=1)])
_C12 = dict(name="c12", harness="harness/c12_client_crash.cpp", flavour="asan", sources=CLIENT, exclude=WTX, libs=["secp256k1", "-rdynamic"])
PROPS["C12"] = dict(
    level="fault_enumeration",
    rule="a real client mints, pays, fans out, imports, confirms, abandons and gives out addresses; each of its lives is a process of its own which may end at any write or rename, with the last write torn, or see its writes fail; after each restart copies of its files are used to take all that is pending as failed and as confirmed, to spend everything and to "
         "try all addresses, and compared with what it had; distinct = different holdings at the ends of lives",
    reach={"histories": 80, "states_compared": 400, "operations": 800, "crashes": 80, "failed_writes": 40, "interrupted": 80, "interrupted_done": 20, "interrupted_not_done": 50, "addresses_tried": 150, "spends": 150},
    jobs=[dict(_C12, cases=(25, 3000), shards=6)])
TWOPC = ["common", "serialization", "crypto", "network", "rpc", "src/uhs/transaction/*.cpp", "src/uhs/sentinel/*.cpp", "src/uhs/twophase/*/*.cpp"] + RAFT
TWOPCX = ["src/uhs/twophase/coordinator/coordinatord.cpp", "src/uhs/twophase/locking_shard/locking_shardd.cpp", "src/uhs/twophase/sentinel_2pc/sentineld_2pc.cpp"]
_C11 = dict(name="c11", harness="harness/c11_seeding.cpp", flavour="asan",
            sources=["common", "serialization", "crypto", "network", "rpc", "src/uhs/transaction/*.cpp", "src/uhs/twophase/locking_shard/locking_shard.cpp", "src/uhs/twophase/locking_shard/interface.cpp", "src/uhs/atomizer/shard/shard.cpp",
                     "src/uhs/atomizer/atomizer/block.cpp", "src/uhs/atomizer/atomizer/format.cpp", "src/uhs/atomizer/atomizer/messages.cpp", "src/uhs/atomizer/watchtower/*.cpp"], exclude=WTX, libs=["secp256k1", "leveldb"])
PROPS["C11"] = dict(
    level="exploration",
    rule="random configurations of both architectures (even and uneven, ordered and shuffled, replicated and overlapping shard ranges, seeds from any number, 1-4 load generators) are seeded by the real seeder; its files are compared output by output with the seeds worked out from their definition, "
         "real shards start from them, and the wallets of all load generators pay from their seeds; distinct = different configurations",
    reach={"seedings": 40, "blocked": 2, "outputs_checked": 5000, "attestations": 200, "payments": 100},
    jobs=[dict(_C11, cases=(15, 1500), shards=6)])
_C2 = dict(name="c02", harness="harness/c02_coordinator.cpp", sources=TWOPC, exclude=TWOPCX, libs=["secp256k1", "leveldb"])
PROPS["C02"] = dict(
    level="exploration",
    rule="one or two coordinators of one or three replicas over a simulated raft log run batches of competing, repeated and insufficiently attested transactions on 1-4 real shards whose requests are recorded and checked step by step; "
         "the coordinator stops, loses leadership, cannot record or loses a request or an answer at chosen requests, also again while recovering; in the end all answers and outputs are compared; distinct = different step records",
    reach={"locks": 300, "decisions": 2000, "fail_overs": 20, "batches": 200, "confirmed": 500, "rejected": 100, "outputs": 2000},
    jobs=[dict(_C2, flavour="asan", cases=(5, 600), shards=6),
          dict(_C2, flavour="tsan", cases=(3, 300), shards=2)])
_C4 = dict(name="c04", harness="harness/c04_sentinel.cpp", sources=TWOPC, exclude=TWOPCX, libs=["secp256k1", "leveldb"])
PROPS["C04"] = dict(
    level="exploration",
    rule="one real sentinel among 0-4 stub sentinels which attest, refuse, fail, answer late, never, with a wrong signature, another's key or a response of the wrong kind, and a stub coordinator which confirms, rejects, fails or stays silent; concurrent clients "
         "execute and validate valid and invalid transactions, and the sentinel stops at work; every message it sends and every answer is compared with what happened; distinct = different request records",
    reach={"asked": 300, "sent": 200, "executions": 1000, "attested": 100, "confirmed": 100, "rejected": 50, "static_invalid": 100, "failed": 50, "stopped_at_work": 3},
    jobs=[dict(_C4, flavour="asan", cases=(11, 2000), shards=8),
          dict(_C4, flavour="tsan", cases=(6, 1000), shards=3)])
_A6 = dict(name="a06", harness="harness/c04_sentinel.cpp", sources=["common", "serialization", "crypto", "network", "rpc", "src/uhs/transaction/*.cpp", "src/uhs/sentinel/*.cpp", "src/uhs/atomizer/sentinel/*.cpp", "src/uhs/twophase/coordinator/format.cpp"], exclude=["src/uhs/atomizer/sentinel/sentineld.cpp"], libs=["secp256k1"], defines=("ATOMIZER",))
PROPS["A06"] = dict(
    level="exploration",
    rule="one real atomizer sentinel among 0-4 stub sentinels which attest, refuse, fail, answer late, never, with a wrong signature, another's key or a response of the wrong kind, and 1-10 recording shards; concurrent clients execute and validate valid and "
         "invalid transactions, and the sentinel stops at work; every message it sends and every answer is compared with what happened; distinct = different request records",
    reach={"asked": 300, "sent": 300, "executions": 1000, "attested": 100, "pending": 300, "static_invalid": 100, "stopped_at_work": 3, "absent_copies": 5},
    jobs=[dict(_A6, flavour="asan", cases=(11, 2000), shards=8),
          dict(_A6, flavour="tsan", cases=(6, 1000), shards=3)])
FAST = "-Wl,--wrap=socket"
_C3 = dict(name="c03", harness="harness/c03_deployment.cpp", sources=TWOPC, exclude=TWOPCX, libs=["secp256k1", "leveldb", FAST], defines=("FAST_SOCKETS",))
PROPS["C03"] = dict(
    level="exploration",
    rule="whole two-phase deployments (1-3 sentinels, 1-2 coordinators and 1-3 shards of one or three replicas each, over a simulated raft log) serve concurrent clients' full transactions, valid, invalid, competing and repeated, while coordinators, "
         "shard replicas and sentinels lose the lead, are cut off, stop and restart; then every answer, every output on every replica and the total value are compared; distinct = different sequences of answers",
    reach={"histories": 20, "confirmed": 500, "rejected": 20, "invalid": 20, "coordinator_changes": 10, "leader_changes": 3, "supply_checks": 30, "outputs": 1000},
    jobs=[dict(_C3, flavour="asan", cases=(4, 400), shards=6),
          dict(_C3, flavour="tsan", cases=(2, 150), shards=2)])
PROPS["C10"] = dict(
    level="exploration",
    rule="1-3 shard clusters of one or three replicas over a simulated raft log take lock, apply and discard requests, some repeated, from up to four drivers while leaders change, nodes are cut off, slow, stop and restart; a watcher asks replicas for statuses "
         "meanwhile, and in the end every replica (also after replaying its log) is compared output by output with the answers; distinct = different sequences of answers",
    reach={"histories": 20, "batches": 500, "repeated_requests": 5, "asked_again": 100, "status_answers": 1000, "leader_changes": 20, "nodes_stopped": 20, "replicas_compared": 40, "full_restarts": 4},
    jobs=[dict(_C3, flavour="asan", mode="shard", cases=(6, 600), shards=6),
          dict(_C3, flavour="tsan", mode="shard", cases=(3, 200), shards=2)])
ATMALL = ["common", "serialization", "crypto", "network", "rpc", "src/uhs/transaction/*.cpp", "src/uhs/atomizer/atomizer/atomizer.cpp", "src/uhs/atomizer/atomizer/block.cpp", "src/uhs/atomizer/atomizer/format.cpp",
          "src/uhs/atomizer/atomizer/messages.cpp", "src/uhs/atomizer/watchtower/*.cpp", "src/uhs/atomizer/archiver/*.cpp", "src/uhs/atomizer/shard/*.cpp"]
ATMALLX = WTX + ["src/uhs/atomizer/archiver/archiverd.cpp", "src/uhs/atomizer/shard/shardd.cpp"]
_A2 = dict(name="a02", harness="harness/a02_atomizer_cluster.cpp", sources=["common", "serialization", "crypto", "network", "rpc", "src/uhs/transaction/*.cpp", "src/uhs/atomizer/atomizer/*.cpp", "src/uhs/atomizer/watchtower/tx_error_messages.cpp"] + RAFT,
           exclude=["src/uhs/atomizer/atomizer/atomizer-raftd.cpp"], libs=["secp256k1", "leveldb", FAST, "-Wl,--wrap=nanosleep"], defines=("FAST_SOCKETS", "FAST_SLEEP"))
PROPS["A02"] = dict(
    level="exploration",
    rule="clusters of one or three real atomizers over a simulated raft log with snapshots; 1-3 clients in the place of shards, archivers and watchtowers send truthful attestations of mints, payments and double spends, whole, in parts, repeated, with old heights, and ask for and prune blocks, while atomizers lose the lead, are "
         "cut off, slow, stop and restart one by one or all at once; every block, from whomever, is entered in one chain and checked against everything sent, and with a leader that stays every transaction must be resolved; mode `machine` replays one log on three state machines, two restored from snapshots; distinct = different chains",
    reach={"histories": 10, "blocks": 400, "blocks_again": 300, "confirmed": 500, "mints_confirmed": 300, "errors_spent": 100, "leader_changes": 5, "nodes_stopped": 5, "full_restarts": 3, "blocks_asked": 100, "stable_spends": 30, "rivals": 10,
           "machine_histories": 50, "snapshots": 200, "installed": 20, "entries_compared": 3000, "reopened": 100},
    jobs=[dict(_A2, flavour="asan", cases=(3, 300), shards=6),
          dict(_A2, flavour="tsan", cases=(1, 100), shards=2),
          dict(_A2, flavour="asan", mode="machine", cases=(60, 6000), shards=2)])
_A8 = dict(name="a08", harness="harness/a08_snapshots.cpp", flavour="asan", sources=["common", "serialization", "crypto", "network", "src/uhs/transaction/*.cpp", "src/uhs/atomizer/atomizer/atomizer.cpp", "src/uhs/atomizer/atomizer/block.cpp", "src/uhs/atomizer/atomizer/format.cpp",
                                                               "src/uhs/atomizer/atomizer/messages.cpp", "src/uhs/atomizer/atomizer/state_machine.cpp", "src/uhs/atomizer/watchtower/tx_error_messages.cpp"] + RAFT,
           libs=["secp256k1", "leveldb", "-rdynamic"])
PROPS["A08"] = dict(
    level="fault_enumeration",
    rule="a real atomizer state machine follows a random log, makes snapshots and is sent those of another; each of its lives is a process of its own which may end at any write, rename or removal of a file, with the last write torn, or see its writes fail; after each restart its snapshot and everything it answers are compared with an "
         "atomizer that never stopped; distinct = different snapshots at the ends of lives",
    reach={"histories": 40, "restarts": 150, "snapshots": 100, "received": 80, "crashes": 40, "failed_writes": 25, "interrupted": 30, "interrupted_done": 5, "entries_compared": 1000},
    jobs=[dict(_A8, cases=(12, 2000), shards=6)])
_A3 = dict(name="a03", harness="harness/a03_shard.cpp", sources=ATMALL, exclude=ATMALLX, libs=["secp256k1", "leveldb", FAST, "-Wl,--wrap=nanosleep"], defines=("FAST_SOCKETS", "FAST_SLEEP"))
_A3D = dict(name="a03d", harness="harness/a03_crash.cpp", sources=ATMALL, exclude=ATMALLX, libs=["secp256k1", "leveldb", "-rdynamic"], flavour="asan")
PROPS["A03"] = dict(
    level="exploration",
    rule="one real atomizer shard of a random range, over a chain of random blocks that reach it in order, twice, late or not at all (then fetched from an archiver that lags, has nothing, stops and restarts), with random payments from several clients at the same time, "
         "well and badly attested, some bytes at random, and stops at work; every notification and error is compared with the chain at the height it names, and the database with the chain after each stop; distinct = different sequences of answers",
    reach={"histories": 40, "notifications": 1000, "notifications_elsewhere": 50, "missing_inputs": 500, "lost_blocks": 50, "repeated_blocks": 20, "databases_compared": 60, "crashes": 20, "failed_writes": 8, "interrupted": 8, "db_reads": 800, "outputs_compared": 2000, "caught_up": 20, "archive_requests": 50},
    jobs=[dict(_A3, flavour="asan", cases=(20, 2000), shards=6),
          dict(_A3D, mode="shard", cases=(40, 4000), shards=1),
          dict(_A3, flavour="tsan", cases=(5, 500), shards=2)])
PROPS["A04"] = dict(
    level="exploration",
    rule="one real archiver over a chain whose blocks arrive in order, late, twice or not at all, from atomizers which forget what they may and lose some requests; clients ask for blocks meanwhile, it stops and restarts, also without any atomizer; every block served is compared with the "
         "chain, and what was once served or given up for deletion by the atomizers must be served from then on; distinct = different final states",
    reach={"histories": 25, "blocks_served": 3000, "late_blocks": 100, "lost_blocks": 100, "requests": 100, "lost_requests": 20, "prunes": 300, "archives_compared": 25, "restarts": 10, "crashes": 20, "failed_writes": 8, "interrupted": 8, "db_reads": 500},
    jobs=[dict(_A3, flavour="asan", mode="archiver", cases=(6, 600), shards=6),
          dict(_A3D, mode="archiver", cases=(40, 4000), shards=1),
          dict(_A3, flavour="tsan", mode="archiver", cases=(3, 200), shards=2)])

_U6 = dict(name="u06", harness="harness/u06_raft_store.cpp", sources=["common", "src/util/raft/log_store.cpp", "src/util/raft/index_comparator.cpp", "src/util/raft/state_manager.cpp"], libs=["leveldb", "-rdynamic"])
PROPS["U06"] = dict(
    level="fault_enumeration",
    rule="random histories of append, overwrite, compact, pack and apply between two logs, flush, reads and restarts on the real log store; each life is a process of its own which may be ended at any file-changing system call, the last write torn, and what is found afterwards is compared entry by entry with a model; "
         "readers and a writer in several threads; distinct = different bounds and lengths of the lives",
    reach={"histories": 100, "operations": 3000, "crashes": 100, "interrupted_writes": 50, "interrupted_done": 5, "interrupted_not_done": 10, "entries_compared": 5000, "flushes_checked": 300, "reopened": 30, "compactions": 20, "ranges_read": 100},
    jobs=[dict(_U6, flavour="asan", cases=(60, 6000), shards=6),
          dict(_U6, flavour="asan", mode="threads", cases=(15, 1500), shards=1),
          dict(_U6, flavour="tsan", mode="threads", cases=(15, 1500), shards=1)])
PROPS["U07"] = dict(
    level="fault_enumeration",
    rule="random saves and loads of configuration, vote and term by the real state manager, over lives which end at any write or rename, with torn writes, and on disks where a write fails or is cut short; what is loaded afterwards is compared with what was saved; distinct = different lengths and ends of the lives",
    reach={"histories": 200, "saves": 2000, "crashes": 100, "failed_writes": 100, "interrupted_saves": 100, "interrupted_not_done": 50, "files_compared": 2000},
    jobs=[dict(_U6, flavour="asan", mode="state", cases=(150, 10000), shards=4)])
_U10 = dict(name="u10", harness="harness/u10_primitives.cpp", sources=["common", "crypto"], libs=["secp256k1"])
PROPS["U10"] = dict(
    level="exploration",
    rule="random data of 0-20000 bytes hashed whole and in pieces by the portable and by every processor-specific implementation, compared with references written from the standards; hexadecimal and Bech32 texts, valid and damaged; "
         "random sources of equal and different entropy, shared by threads; distinct = different cases",
    reach={"hashes": 2000, "double_hashes": 5000, "siphashes": 1000, "hex": 1000, "bech32_valid": 500, "bech32_invalid": 500, "bech32_errors": 500, "random_ids": 5000, "thread_numbers": 10000},
    jobs=[dict(_U10, flavour="asano", cases=(600, 40000), shards=2),
          dict(_U10, flavour="asano", mode="threads", cases=(30, 500), shards=1),
          dict(_U10, flavour="tsan", mode="threads", cases=(30, 1000), shards=1)])
_U3 = dict(name="u03", harness="harness/u03_rpc.cpp", sources=["common", "serialization", "crypto", "network", "rpc"], libs=["secp256k1"] + SLOW + SHORT, defines=("SLOW_WAITS", "SHORT_IO"))
PROPS["U03"] = dict(
    level="exploration",
    rule="1-3 clients with several threads call 1-3 blocking or asynchronous servers which answer at once, late, never, twice, with a failure or after refusing, over healthy and breaking connections; a rogue server which answers out of "
         "order, again, to unknown calls and with damaged frames; distinct = different numbers of requests handled",
    reach={"sync_answered": 500, "sync_unanswered": 200, "async_answered": 500, "rogue_frames": 200, "cuts": 5, "raw_calls": 50, "pending_at_close": 3},
    jobs=[dict(_U3, flavour="asan", cases=(40, 2500), shards=2),
          dict(_U3, flavour="asan", mode="broken", cases=(8, 600), shards=2),
          dict(_U3, flavour="asan", mode="rogue", cases=(40, 2500), shards=1),
          dict(_U3, flavour="tsan", cases=(20, 1000), shards=1),
          dict(_U3, flavour="tsan", mode="rogue", cases=(20, 1000), shards=1)])
_U4 = dict(name="u04", harness="harness/u04_network.cpp", sources=["common", "serialization", "crypto", "network"], libs=["secp256k1"] + SLOW + SHORT, defines=("SLOW_WAITS", "SHORT_IO"))
PROPS["U04"] = dict(
    level="exploration",
    rule="1-4 clients and a server exchange self-checking messages of 0-400000 bytes from several threads over loopback, directly and through a proxy which splits, delays and breaks connections; peers which do not "
         "speak the protocol; closing, resetting and restarting while in use; distinct = different message and delivery counts",
    reach={"to_server": 1000, "to_client": 300, "cuts": 5, "after_reconnect": 30, "raw_clients": 20, "lifecycles": 30, "idle_closes": 200, "short_io": 1000, "slow_waits": 50},
    jobs=[dict(_U4, flavour="asan", cases=(40, 1500), shards=2),
          dict(_U4, flavour="asan", mode="faults", cases=(10, 400), shards=2),
          dict(_U4, flavour="asan", mode="raw", cases=(30, 1500), shards=1),
          dict(_U4, flavour="asan", mode="lifecycle", cases=(30, 1500), shards=1),
          dict(_U4, flavour="tsan", cases=(15, 500), shards=1),
          dict(_U4, flavour="tsan", mode="lifecycle", cases=(15, 500), shards=1)])

_U11 = dict(name="u11", harness="harness/u11_http.cpp", sources=["src/util/rpc/http/epoll*.cpp", "src/util/rpc/http/json*.cpp", "src/util/common/logging.cpp"], libs=["jsoncpp", "microhttpd", "curl", "-rdynamic"])
PROPS["U11"] = dict(
    level="exploration",
    rule="the real HTTP server under scripted clients (whole, in pieces, pipelined, broken, malformed JSON, other methods, leaving early) with answers from other threads and stops at work; the real client "
         "over scripted servers which cut, refuse or garble their answers, and over the real server; distinct = different runs",
    reach={"handled": 300, "good_answers": 200, "bad_requests": 100, "other_methods": 20, "broken_requests": 30, "left": 20, "stopped_early": 5, "cors_answers": 50,
           "client_good": 500, "client_failed": 50, "answers_cut": 30, "retried": 30, "outstanding": 30, "calls_from_callbacks": 100},
    jobs=[dict(_U11, flavour="asan", mode="server", cases=(50, 4000), shards=2),
          dict(_U11, flavour="tsan", mode="server", cases=(25, 2000), shards=2),
          dict(_U11, flavour="asan", mode="client", cases=(120, 8000), shards=2),
          dict(_U11, flavour="asan", mode="both", cases=(60, 3000), shards=1)])
