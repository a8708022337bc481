SEARCH = "generated-input search; nothing beyond the explored cases is established"

prop("C01", "Compact transactions and unspent ids commit to the full transaction",
     "The compact form of a transaction carries its id, one unspent id per input in order and one per output in order; the id an output gets when it is created equals the id it is spent under. Transaction and unspent ids are deterministic, do not depend on witnesses, and any change of any other field (inputs, outputs, values, owners, order) changes them; two different outputs never share an unspent id.",
     ["inputs"], "every full transaction and every single-field change of it",
     "the unit tests compare a handful of fixed transactions; no test varies each field or chains a created output into a later spend",
     ["src/uhs/transaction/transaction.cpp", "src/uhs/transaction/messages.cpp"],
     [("compact_tx constructor, tx_id, uhs_id_from_output, input_from_output", "src/uhs/transaction/transaction.cpp")],
     technique="property-based testing: algebraic and metamorphic relations against an independent SHA-256 reference",
     note="Random transactions and single-field mutations; " + SEARCH + ".")

prop("C02", "Local validation accepts exactly well-formed, balanced, signed transactions",
     "A transaction passes local validation if and only if it has inputs and outputs, one witness per input, no outpoint twice, no zero value among its outputs or spent outputs, input and output totals that are equal and do not overflow 64 bits, and for every input a pay-to-public-key witness whose program matches the spent output's commitment and whose signature over the transaction id is valid. Otherwise it is rejected with an error naming a defect it really has, and the position of that defect where there is one.",
     ["inputs"], "every transaction: valid ones, each kind of defect, combinations of defects, arbitrary witness bytes, values around 2^64",
     "validation is not compiled into the stable tests here, and the tests that exist try one fixed instance of each error",
     ["src/uhs/transaction/validation.cpp"],
     [("check_tx and the check_* steps", "src/uhs/transaction/validation.cpp")],
     technique="property-based testing: generated valid transactions with injected defects against a reference validator",
     note="The reference validator is written from the documented rules; signatures use the installed libsecp256k1. " + SEARCH + ".")

prop("C03", "Attested transactions need a threshold of distinct, valid sentinel signatures",
     "A compact transaction counts as attested if and only if it carries at least the configured number of attestations and every one is a valid signature, by the key of a configured sentinel, over this very transaction. Attestations neither change the signed content nor survive any change of it.",
     ["inputs", "configurations"], "every compact transaction, every set of keys and threshold, every tampering with content, key or signature",
     "tests sign one transaction with one or two fixed keys",
     ["src/uhs/transaction/validation.cpp", "src/uhs/transaction/transaction.cpp"],
     [("check_attestations", "src/uhs/transaction/validation.cpp"), ("compact_tx::sign/verify/hash", "src/uhs/transaction/transaction.cpp")],
     technique="property-based testing: signed compact transactions with tampering, against a reference predicate",
     note=SEARCH + ".")

prop("C04", "A wallet's balance is the value of its coins and no coin is spent twice",
     "After any sequence of mints, sends, fans, imports, confirmations, saves and loads, a wallet's balance and count equal those of the coins it can still spend. Every transaction it produces is valid, pays exactly the requested amounts, uses only its own unspent coins and never a coin already used, and it returns no transaction only when it cannot fund one.",
     ["histories", "inputs"], "every sequence of wallet operations between several wallets, including save/load in the middle and seeded wallets",
     "the wallet is not compiled into the stable tests here, and its tests follow a few fixed scripts",
     ["src/uhs/transaction/wallet.cpp"],
     [("wallet::send_to, fan, confirm_transaction, seed, save/load", "src/uhs/transaction/wallet.cpp")],
     technique="stateful property-based testing against a reference ledger",
     note=SEARCH + ".")

prop("C05", "A client's pending and received payments survive restarts consistently",
     "A client's balance, pending transactions and pending inputs always equal those of a reference ledger driven by the same mints, sends, imports, confirmations, abandonments and syncs. Closing the client and opening it again from its files restores exactly the same state; abandoning a transaction returns exactly its inputs, and confirming it credits exactly its change.",
     ["histories", "crash_points"], "every sequence of client operations with restarts at any point",
     "no stable test covers the client; integration tests run one script",
     ["src/uhs/client/client.cpp"],
     [("client: pending tx and input records, save/load", "src/uhs/client/client.cpp")],
     technique="stateful property-based testing with restarts against a reference ledger",
     note=SEARCH + ".")

prop("C06", "Every message decodes to what was encoded, in every serializer",
     "For every message type exchanged or stored by any component, decoding its encoding gives an equal value and consumes exactly the bytes written; the size computed beforehand equals the bytes written. In-memory, stream and replication-log encodings are identical, and decoding any strict prefix reports failure instead of a value.",
     ["inputs"], "every value of every wire message and stored record",
     "the format tests round-trip one or two hand-made values of some types; most are not compiled here",
     ["src/util/serialization/format.hpp", "src/util/serialization/buffer_serializer.cpp", "src/util/serialization/size_serializer.cpp", "src/util/serialization/istream_serializer.cpp", "src/util/serialization/ostream_serializer.cpp", "src/util/raft/serialization.cpp", "src/uhs/transaction/messages.cpp", "src/uhs/atomizer/atomizer/format.cpp", "src/uhs/atomizer/watchtower/tx_error_messages.cpp", "src/uhs/twophase/coordinator/format.cpp", "src/parsec/runtime_locking_shard/format.cpp"],
     [("operator<< / operator>> pairs", "src/**/format.cpp, src/**/messages.cpp")],
     technique="property-based round-trip, differential (three serializers) and truncation testing over generated messages",
     note=SEARCH.capitalize() + ".")

prop("C07", "Arbitrary bytes are decoded or rejected, never crash or exhaust memory",
     "Feeding any byte string to any message decoder ends with a value or a reported failure: no crash, no out-of-bounds access, no hang, and no allocation out of proportion to the input. A decoder that reports success has read only bytes that were there. A server, client or replicated state machine given bytes that do not decode does not act on them, and carries on with the next message.",
     ["inputs"], "every byte string presented to every decoder: random, truncated, mutated and length-field-corrupted encodings",
     "the tests never decode malformed input beyond one or two truncations",
     ["src/util/serialization/format.hpp", "src/util/serialization/format.cpp", "src/util/serialization/buffer_serializer.cpp", "src/util/rpc/tcp_server.hpp"],
     [("container, variant and buffer decoding", "src/util/serialization/format.hpp")],
     technique="structure-aware mutation fuzzing of every decoder, server, client and state machine under sanitizers, with a re-encode oracle and allocation metering",
     note="Address and undefined-behaviour sanitizers; at most 8 MiB and 80 bytes for each input byte may be allocated. " + SEARCH + ".")

prop("C08", "Text encodings of keys, hashes and addresses round-trip and reject errors",
     "Hexadecimal encodings of buffers and hashes decode to the same bytes; a string that is not an even, non-zero number of hexadecimal digits is rejected as a buffer. A payment address decodes to exactly the public key it was made from; an address with any up to four characters changed, or of any other kind or length, is rejected, and no string crashes the decoder.",
     ["inputs"], "every byte string, every string",
     "tests decode a few fixed strings",
     ["src/util/common/buffer.cpp", "src/util/common/hash.cpp", "src/uhs/client/client.cpp", "3rdparty/bech32/bech32.cpp"],
     [("buffer::from_hex, hash_from_hex", "src/util/common"), ("address encode/decode", "src/uhs/client/client.cpp")],
     technique="property-based round-trip testing and error injection under sanitizers",
     note=SEARCH + ".")

prop("C09", "Hash primitives compute the published functions",
     "The SHA-256, double use through incremental writes in any chunking, SipHash and shard-prefix functions used for ids give the values of the published algorithms for every input and every way of splitting it.",
     ["inputs"], "every byte string, every chunking, every block count",
     "tests hash one or two strings",
     ["3rdparty/crypto/sha256.cpp", "3rdparty/crypto/siphash.cpp", "src/util/common/hash.cpp", "src/util/common/hashmap.cpp"],
     [("CSHA256, CSipHasher, hash_data", "3rdparty/crypto, src/util/common")],
     technique="differential property-based testing against independent reference implementations",
     note=SEARCH + ".")

prop("C10", "Configuration files mean what they say and bad ones are refused",
     "Every option of a well-formed configuration is reported with the value written in it, with the documented default where it is absent. A configuration that lacks a required option, or holds a malformed or out-of-range value (number, endpoint, key, shard range), is refused with an error; no configuration text and no program arguments crash the reader.",
     ["configurations", "inputs"], "every generated configuration for both architectures and the transaction-language one, with options removed, reordered or malformed",
     "the test files exercise one configuration each",
     ["src/util/common/config.cpp", "src/util/common/config.hpp", "src/parsec/util.cpp"],
     [("load_options, read_options, check_options, parser", "src/util/common/config.cpp")],
     technique="property-based testing: configurations generated from a model and read back",
     note=SEARCH + ".")

prop("C11", "Queues and thread pools lose, duplicate and reorder nothing",
     "A blocking queue hands every pushed element to exactly one consumer, in order (by priority where it has one), never returns success without an element, and wakes its waiters when cleared. A thread pool runs every task it is given exactly once, also tasks that block, and finishes them before it is gone.",
     ["schedules", "histories"], "every interleaving of producers, consumers, clears and resets that the search reaches",
     "tests use one or two threads and a fixed order",
     ["src/util/common/blocking_queue.hpp", "src/util/common/thread_pool.cpp"],
     [("blocking_queue, blocking_priority_queue", "src/util/common/blocking_queue.hpp"), ("thread_pool::push", "src/util/common/thread_pool.cpp")],
     technique="stateful and multi-threaded property-based testing with generated programs per thread",
     note="Sequential histories exactly; concurrent ones only as the scheduler interleaves them. " + SEARCH + ".")

prop("C12", "Bounded caches keep exactly the newest entries",
     "A bounded cache of size N contains exactly the last N distinct entries added: a recent entry is always found, an evicted one never, and adding reports whether the entry was new. The block cache keeps the newest blocks and answers unspent queries from them; the error cache answers with the latest error of a transaction or unspent id.",
     ["histories"], "every sequence of additions, block pushes, errors and queries, every capacity",
     "tests push a handful of entries once",
     ["src/util/common/cache_set.hpp", "src/uhs/atomizer/watchtower/block_cache.cpp", "src/uhs/atomizer/watchtower/error_cache.cpp"],
     [("cache_set::add", "src/util/common/cache_set.hpp"), ("block_cache::push_block", "src/uhs/atomizer/watchtower/block_cache.cpp"), ("error_cache::push_errors", "src/uhs/atomizer/watchtower/error_cache.cpp")],
     technique="stateful property-based testing against reference caches",
     note=SEARCH + ".")

prop("C13", "The atomizer never confirms a double spend",
     "Across all blocks an atomizer makes, no input is spent by two transactions within the window it remembers, every accepted transaction appears in exactly one block, and block heights are consecutive. A transaction is accepted only once every one of its inputs has been vouched for at a height inside the window; otherwise it yields the documented error naming the inputs concerned.",
     ["histories"], "every sequence of transaction notifications (complete or in parts, repeated, stale, conflicting) and block creations, every window depth",
     "tests run a dozen fixed scripts of two or three transactions",
     ["src/uhs/atomizer/atomizer/atomizer.cpp"],
     [("insert, insert_complete, make_block, add_tx_to_stxo_cache", "src/uhs/atomizer/atomizer/atomizer.cpp")],
     technique="stateful property-based testing against a reference atomizer and a history invariant",
     note=SEARCH + ".")

prop("C14", "Replicated atomizers agree after any log, snapshot and restart",
     "Two atomizer replicas that apply the same log, one of them restarted from any snapshot and the remaining log, hold the same state and return the same answers. Blocks stay retrievable until pruned, and are gone afterwards.",
     ["histories", "crash_points"], "every log of commands and every snapshot position",
     "no stable test builds the replicated state machine",
     ["src/uhs/atomizer/atomizer/state_machine.cpp", "src/uhs/atomizer/atomizer/format.cpp", "src/uhs/atomizer/atomizer/atomizer.cpp"],
     [("state_machine::commit, create_snapshot, apply_snapshot, save/read_logical_snp_obj", "src/uhs/atomizer/atomizer/state_machine.cpp")],
     technique="differential stateful property-based testing of replicas with generated logs and snapshot points",
     note="The consensus library is absent offline; the state machine is driven through a stand-in of its interface. " + SEARCH + ".")

prop("C15", "A shard's unspent set is exactly what its blocks and preseed imply",
     "After any sequence of blocks and restarts a shard holds exactly the preseeded and created unspent ids in its range that no block has spent, and its height is the last block applied in sequence. It vouches for exactly those inputs of a transaction that it owns and that are unspent, at its current height, and reports the missing ones otherwise.",
     ["histories", "crash_points"], "every sequence of contiguous, repeated, skipped and out-of-range blocks, with reopening, crashes, a full disk and damaged tables at any point",
     "the shard tests use a few fixed blocks and are not compiled here",
     ["src/uhs/atomizer/shard/shard.cpp"],
     [("digest_block, digest_transaction", "src/uhs/atomizer/shard/shard.cpp")],
     technique="stateful property-based testing with reopening, against a reference set",
     note=SEARCH + ".")

prop("C16", "The archiver stores every block once, in order, and returns it unchanged",
     "Whatever order blocks arrive in, the archiver stores the contiguous chain it can build, asks for the block it is missing, and returns every stored block exactly as it was made, also after a restart. Its best height never passes a missing block.",
     ["histories", "crash_points"], "every arrival order with repeats and gaps, and every restart point",
     "the archiver tests are not compiled here and deliver blocks in order",
     ["src/uhs/atomizer/archiver/controller.cpp"],
     [("digest_block, best_block_height, get_block", "src/uhs/atomizer/archiver/controller.cpp")],
     technique="stateful property-based testing with reordering, faults and restarts",
     note=SEARCH + ".")

prop("C17", "The watchtower tells the truth about transactions and unspent ids",
     "For every transaction and unspent id, the watchtower's answer equals the answer computed from the blocks and errors it still remembers: spent at the height of the block in which the transaction asked about spent it, unspent at the height of the block in which that transaction created it and nothing has spent it since; the kind of the error reported last for that transaction; no history otherwise. Errors that only say a confirmed transaction was sent again are not reported, and every answer is that of a single moment.",
     ["histories"], "every sequence of blocks, errors and status queries, every cache size",
     "tests check a few fixed sequences",
     ["src/uhs/atomizer/watchtower/watchtower.cpp", "src/uhs/atomizer/watchtower/block_cache.cpp", "src/uhs/atomizer/watchtower/error_cache.cpp"],
     [("handle_status_update_request, handle_best_block_height_request", "src/uhs/atomizer/watchtower/watchtower.cpp")],
     technique="stateful property-based testing against a reference history",
     note=SEARCH + ".")

prop("C18", "Input attestations from shards add up without loss or forgery",
     "A transaction is handed to the atomizer when, and only when, notifications have vouched for every one of its inputs, whatever the order, duplication and interleaving of the notifications. The height it is given for each input is one that was reported for that input.",
     ["histories"], "every interleaving of partial, duplicated and late notifications for several transactions",
     "no stable test builds this component",
     ["src/uhs/atomizer/atomizer/atomizer_raft.cpp"],
     [("tx_notify, send_complete_txs", "src/uhs/atomizer/atomizer/atomizer_raft.cpp")],
     technique="stateful property-based testing against a reference aggregation, with a stand-in replication engine",
     note=SEARCH + ".")

prop("C19", "A locking shard applies or releases every batch atomically",
     "Whatever the interleaving of lock, apply and discard requests from competing batches, repeated or not, a locking shard's unspent ids are exactly those implied by the transactions it was told to complete, and its locked ids those of unfinished batches. A transaction is locked only if it is properly attested and every input in the shard's range is unspent and unlocked; no id is spent by two completed transactions; a status query reports a transaction as completed exactly if it was.",
     ["histories", "schedules"], "every interleaving of batches, every subset of completed transactions, repeats of every request, every shard range",
     "the tests run whole batches one after another; none overlaps two batches, aborts a transaction or repeats a request",
     ["src/uhs/twophase/locking_shard/locking_shard.cpp", "src/uhs/twophase/locking_shard/interface.cpp"],
     [("lock_outputs, apply_outputs, discard_dtx, check_unspent, check_tx_id", "src/uhs/twophase/locking_shard/locking_shard.cpp")],
     technique="stateful property-based testing against a reference model, checked after every step",
     note="The model assumes a coordinator completes only what every shard locked. " + SEARCH + ".")


prop("C20", "A cross-shard batch is applied by all shards or by none, despite crashes",
     "For every batch a coordinator runs over any set of shards, a transaction takes effect on every shard concerned if all of them locked it and on none otherwise, and the verdict reported for it is the same. A batch interrupted at any point and recovered by another coordinator from the recorded phase reaches that same outcome, with every lock released and each shard told to forget the batch.",
     ["histories", "crash_points"], "every batch, shard layout, lock outcome, and interruption at every request, followed by recovery",
     "the tests run whole batches without failures; none stops a batch mid-way and recovers it",
     ["src/uhs/twophase/coordinator/distributed_tx.cpp", "src/uhs/twophase/locking_shard/locking_shard.cpp"],
     [("distributed_tx::execute, prepare, commit, discard, recover_*", "src/uhs/twophase/coordinator/distributed_tx.cpp")],
     technique="stateful property-based testing with injected faults at every request, real shards, reference outcome",
     note="Shards are the real locking shards behind an interposing interface that can stop answering. " + SEARCH + ".")

prop("C21", "Replicated coordinators finish every batch through any change of leader",
     "After any log of prepare, commit, discard, done and get commands, a coordinator replica returns exactly the batches not yet done, in the phase last recorded with the data recorded for it; replicas that applied the same log agree. A coordinator answers each transaction at most once, true exactly if the shards applied it, and without failures confirms every attested transaction whose inputs are unspent and not contended. Whatever replica leads when, and whichever of its log entries fails or whose outcome it does not learn, the batches it leaves behind are finished by the next leader that serves: every transaction is applied by all shards or by none, no lock is left, and a replica that loses leadership stops without hanging or crashing and can lead again.",
     ["histories", "schedules", "crash_points"], "every legal log of commands for concurrent batches; every sequence of leader changes and failing log entries during any load",
     "no stable test builds the coordinator's state machine or controller",
     ["src/uhs/twophase/coordinator/state_machine.cpp", "src/uhs/twophase/coordinator/format.cpp", "src/uhs/twophase/coordinator/controller.cpp", "src/uhs/twophase/coordinator/server.cpp", "src/uhs/twophase/locking_shard/client.cpp", "src/uhs/twophase/locking_shard/controller.cpp"],
     [("state_machine::commit", "src/uhs/twophase/coordinator/state_machine.cpp"),
      ("execute_transaction, batch_executor_func, recovery_func, start, stop", "src/uhs/twophase/coordinator/controller.cpp")],
     technique="stateful property-based testing: state machine against a reference map; real coordinators and shards over loopback with leader changes and log faults, checked for conservation",
     note="The consensus library is absent offline; replication goes through a stand-in of its interface which a case drives. " + SEARCH + ".")

prop("C22", "Sentinels forward only valid transactions, once, with enough attestations",
     "A sentinel answers a transaction it cannot validate with the reason and forwards nothing. A valid one is forwarded exactly once, as its compact form carrying at least the configured number of distinct valid sentinel attestations, and its sender gets exactly one answer, the one the coordinators gave, whatever the order and failures of the other sentinels' answers. Another sentinel is asked at most once per transaction; when one asked refuses, nothing is forwarded and the sender gets no result. A sentinel asked to validate attests exactly the valid transactions.",
     ["histories", "schedules"], "every valid and invalid transaction, number of sentinels, threshold, order of answers and refusals",
     "the sentinel tests are not compiled here and use one transaction and no other sentinels",
     ["src/uhs/twophase/sentinel_2pc/controller.cpp", "src/uhs/sentinel/format.cpp"],
     [("execute_transaction, validate_transaction, gather_attestations", "src/uhs/twophase/sentinel_2pc/controller.cpp")],
     technique="property-based testing of real sentinels over loopback with scripted peers",
     note=SEARCH + ".")

prop("C23", "The replication log store behaves as a persistent log",
     "After any sequence of appends, overwrites, packs, compactions and reopenings, also when the process ends inside one of them, the log store returns, for every index, the entry the reference log holds, the same first and next index, and empty entries outside; a pack taken from one store and applied to another reproduces the entries.",
     ["histories", "crash_points"], "every sequence of log operations with reopening at any point",
     "no stable test builds the log store",
     ["src/util/raft/log_store.cpp", "src/util/raft/index_comparator.cpp"],
     [("append, write_at, pack, apply_pack, compact", "src/util/raft/log_store.cpp")],
     technique="stateful property-based testing with reopening, against a reference log",
     note="Uses the installed LevelDB; the consensus library's data types are stand-ins. " + SEARCH + ".")

prop("C24", "Consensus configuration and term survive restarts",
     "The replication state manager returns the configuration and server state saved last, also after a restart and whatever was saved before; before the first save, the configuration its endpoints imply and no state. A save that the process or the disk does not survive leaves the one before in place.",
     ["histories", "crash_points"], "every sequence of saves and restarts",
     "no stable test builds the state manager",
     ["src/util/raft/state_manager.cpp", "src/util/raft/state_manager.hpp"],
     [("save_config, load_config, save_state, read_state", "src/util/raft/state_manager.cpp")],
     technique="stateful property-based testing with restarts",
     note="The consensus library's data types are stand-ins. " + SEARCH + ".")

prop("C25", "TCP connections deliver whole messages, in order, exactly once",
     "Every message sent over a standing connection arrives unchanged, in order and once, at that connection's other end and nowhere else, whatever its size and however the bytes are split in transit; a message cut short by a disconnect is not delivered. A dropped connection is reported to its user and, where asked for, re-established once; closing a connection, or everything, always ends.",
     ["inputs", "histories", "schedules"], "every sequence of message sizes, splittings and disconnects",
     "tests send a few small messages over an undisturbed connection",
     ["src/util/network/tcp_socket.cpp", "src/util/network/tcp_listener.cpp", "src/util/network/socket.cpp", "src/util/network/peer.cpp"],
     [("tcp_socket::send/receive", "src/util/network/tcp_socket.cpp"), ("peer", "src/util/network/peer.cpp")],
     technique="multi-threaded property-based testing over loopback: raw peers that fragment and cut the stream, a relay that cuts connections, injected delays and short reads and writes",
     note="Loopback only. Interleavings are those the scheduler produces, widened by delays before waits, locks and socket calls. " + SEARCH + ".")

prop("C26", "Each remote call gets its own answer, exactly once, or a failure",
     "Whatever the number of concurrent callers, servers, reorderings, delays and disconnects, each call's answer is the server's answer to that call and no other; a callback runs at most once, and exactly once if an answer arrives while the client lives; a call that times out, cannot be sent for want of a connection, or whose client goes away reports failure instead of blocking; the server handles each request it receives once.",
     ["histories", "schedules"], "every mix of synchronous and asynchronous calls, response orders, timeouts and disconnects",
     "tests make a few calls one after another",
     ["src/util/rpc/tcp_client.hpp", "src/util/rpc/tcp_server.hpp", "src/util/rpc/client.hpp", "src/util/rpc/server.hpp", "src/util/network/connection_manager.cpp"],
     [("client::call, async_server, tcp_client::response_handler", "src/util/rpc")],
     technique="multi-threaded property-based testing over loopback with real and scripted servers and injected delays",
     note="Interleavings are those the scheduler produces, widened by delays before waits, locks and socket calls. " + SEARCH + ".")

prop("C27", "The JSON-RPC endpoint answers every well-formed call and survives the rest",
     "Every valid JSON-RPC request gets one response with the same id, of any type, holding the handler's result or error; any other body or method is refused without a crash and without affecting other requests, and a server being destroyed answers what it has accepted. The client answers every call once, with the result belonging to it or a failure, repeating attempts that were cut off.",
     ["inputs", "schedules"], "every request body, id, parameter value, concurrency level and broken connection",
     "no stable test builds the HTTP endpoint",
     ["src/util/rpc/http/json_rpc_http_server.cpp", "src/util/rpc/http/json_rpc_http_client.cpp", "src/util/rpc/http/epoll_event_handler.cpp"],
     [("json_rpc_http_server::handle_request", "src/util/rpc/http/json_rpc_http_server.cpp"), ("json_rpc_http_client::call", "src/util/rpc/http/json_rpc_http_client.cpp")],
     technique="property-based testing and mutation fuzzing over loopback",
     note=SEARCH + ".")

prop("C28", "The runtime locking shard gives serializable, deadlock-free transactions",
     "On one shard, write locks exclude all others and read locks exclude writers; every lock request is answered exactly once, with the value left by the last committed holder, or with an error when its ticket was wounded. An older ticket never waits for a younger one that has not prepared; no mix of requests waits for ever. Committed updates become visible all at once, rolled back ones never.",
     ["histories", "schedules"], "every interleaving of lock, prepare, commit, rollback and finish requests from competing tickets, in both lock modes",
     "the tests run a dozen scripts with at most three tickets",
     ["src/parsec/runtime_locking_shard/impl.cpp"],
     [("try_lock, prepare, commit, rollback, finish, wound_tickets", "src/parsec/runtime_locking_shard/impl.cpp")],
     technique="stateful property-based testing against a reference lock manager with history invariants",
     note=SEARCH + ".")

prop("C29", "Transactions through a broker are atomic and serializable across shards",
     "Tickets that read and write keys through a broker over several shards leave the state some serial order of the committed tickets would leave, and every value a committed ticket was given fits that order. A ticket that failed or was rolled back leaves no trace, and every lock is gone when all tickets have finished.",
     ["histories", "schedules"], "every set of concurrent tickets, keys, lock types, shard counts and interleavings",
     "the tests run one or two tickets in fixed order against one shard",
     ["src/parsec/broker/impl.cpp", "src/parsec/directory/impl.cpp", "src/parsec/runtime_locking_shard/impl.cpp"],
     [("broker::begin, try_lock, commit, rollback, finish", "src/parsec/broker/impl.cpp")],
     technique="stateful property-based testing with generated schedules; serializability checked by replaying the commit order",
     note=SEARCH + ".")

prop("C30", "A failed broker's tickets are completed or undone, never half applied",
     "When a broker stops at any point of any ticket's life, recovery by another broker commits a ticket whose commit had begun on any shard on every shard that prepared it, and rolls back every other one; afterwards all its locks are free and no committed update is lost, duplicated or overwritten with an older value.",
     ["histories", "crash_points"], "every interruption point of every ticket, with several shards and tickets, and repeated recovery",
     "the tests recover at three hand-picked points with one shard",
     ["src/parsec/broker/impl.cpp", "src/parsec/runtime_locking_shard/impl.cpp"],
     [("broker::recover", "src/parsec/broker/impl.cpp"), ("impl::get_tickets", "src/parsec/runtime_locking_shard/impl.cpp")],
     technique="stateful property-based testing with a crash injected at every request, reference outcome",
     note="Shards keep running while their broker is replaced. " + SEARCH + ".")

prop("C31", "Ticket numbers are never handed out twice",
     "No two calls on a ticket machine, by any number of threads or brokers fetching in batches, give the same ticket number, and a later fetch from one machine never overlaps an earlier one.",
     ["schedules", "histories"], "every number of callers, batch sizes and interleavings",
     "the test fetches in one thread",
     ["src/parsec/ticket_machine/impl.cpp", "src/parsec/broker/impl.cpp", "src/parsec/ticket_machine/state_machine.cpp"],
     [("ticket_machine::impl::get_ticket_number", "src/parsec/ticket_machine/impl.cpp")],
     technique="multi-threaded and stateful property-based testing",
     note=SEARCH + ".")

prop("C32", "Every key has one home shard and keys spread over all of them",
     "The directory maps every key to one shard index below the number of shards, always the same one for the same key and number of shards, in every process; over many keys each shard gets a fair share.",
     ["inputs", "configurations"], "every key and number of shards",
     "the test looks up one key",
     ["src/parsec/directory/impl.cpp"],
     [("directory::impl::key_location", "src/parsec/directory/impl.cpp")],
     technique="property-based testing: determinism across instances and processes, range, distribution",
     note=SEARCH + ".")

prop("C33", "A shard rebuilt from its replicated log continues where it stopped",
     "After any log of prepare, commit and finish commands, a replica of a runtime locking shard holds the state committed so far and exactly the tickets that are prepared or committed but not finished. A shard started from that replica answers ticket queries and reads as the failed one would, and repeating a command changes nothing.",
     ["histories", "crash_points"], "every log of commands, with repeats and failover at any position",
     "no stable test replays a log or fails over",
     ["src/parsec/runtime_locking_shard/replicated_shard.cpp", "src/parsec/runtime_locking_shard/state_machine.cpp", "src/parsec/runtime_locking_shard/impl.cpp"],
     [("replicated_shard", "src/parsec/runtime_locking_shard/replicated_shard.cpp"), ("impl::recover", "src/parsec/runtime_locking_shard/impl.cpp")],
     technique="stateful property-based testing of logs against a reference model, with failover",
     note="The consensus library is absent offline; the log is applied directly. " + SEARCH + ".")

prop("C34", "An agent answers once, with all of a function's effects or none",
     "An agent that finishes has answered exactly once with all of the function's effects or none: either the updates are all committed and the answer is its result, or nothing was changed and the answer is an error. Tickets wounded on the way are retried until they commit. A failed request to begin, lock or prepare leaves no effect and no lock behind (once the agent has finished or its stopped broker has been recovered). When the broker cannot commit, finish or roll back, the agent answers with an error and never claims success.",
     ["histories", "schedules", "crash_points"], "every function behaviour, lock conflict and broker failure at every call",
     "tests inject one failure at a time with a mock broker and one runner",
     ["src/parsec/agent/impl.cpp"],
     [("agent::impl::exec, do_start, do_commit, do_rollback", "src/parsec/agent/impl.cpp")],
     technique="stateful property-based testing with injected faults and concurrent agents",
     note=SEARCH + ".")

prop("C35", "A Lua contract's declared updates are exactly what is committed",
     "A Lua function sees the parameter and the values of the keys it asks for, byte for byte, and the updates it returns are exactly the updates committed. A function that fails, returns anything else or is not a compiled chunk gives one error and changes nothing. Signature checks in a contract accept exactly valid signatures. The payment contract of scripts/ moves money without creating or losing any, only when the payer signed, and once per sequence number, however many payments run at once.",
     ["inputs", "histories"], "every parameter, state and contract of the generated families, bytes that are no chunk, every set of concurrent payments",
     "no stable test builds the Lua runner",
     ["src/parsec/agent/runners/lua/impl.cpp", "scripts/gen_bytecode.lua"],
     [("lua_runner::run, contract_epilogue, check_sig", "src/parsec/agent/runners/lua/impl.cpp")],
     technique="property-based testing with generated contracts against a reference interpreter; fuzzing of function bytes; stateful testing of concurrent payments",
     note=SEARCH + ".")

prop("C36", "EVM transactions keep their meaning through every encoding",
     "RLP, wire and JSON encodings of EVM transactions of every type decode to the transaction encoded; the sender recovered from a signed transaction is the signer's address for this chain and no other, and no transaction of which any signed content was changed recovers to it. Quantities of JSON call objects are read as Ethereum clients write them, and log blooms set the bits they look for. Malformed encodings are refused without a crash. Contract addresses follow the published formulas.",
     ["inputs"], "every transaction of every type, every signer and chain, every tampering, arbitrary bytes",
     "no stable test builds the EVM code; its tests use a few recorded transactions",
     ["src/parsec/agent/runners/evm/messages.cpp", "src/parsec/agent/runners/evm/serialization.cpp", "src/parsec/agent/runners/evm/rlp.cpp", "src/parsec/agent/runners/evm/format.cpp", "src/parsec/agent/runners/evm/signature.cpp", "src/parsec/agent/runners/evm/address.cpp", "src/parsec/agent/runners/evm/hash.cpp", "src/parsec/agent/runners/evm/util.cpp"],
     [("tx_encode / tx_decode, check_signature, contract_address", "src/parsec/agent/runners/evm")],
     technique="property-based round-trip testing against an independent RLP implementation, and fuzzing",
     note="Built with address and undefined-behaviour sanitizers; the EVM's headers are stand-ins. " + SEARCH + ".")

prop("C37", "256-bit arithmetic agrees with integer arithmetic modulo 2^256",
     "Addition, subtraction, multiplication, byte shifts and conversion from and to 64-bit numbers and hexadecimal text of 256-bit numbers give, for all operands, the results of integer arithmetic modulo 2^256; text that is not a number of at most 256 bits is refused.",
     ["inputs"], "every pair of operands, carries and boundary values preferred",
     "no stable test builds the EVM code; its tests use a few constants",
     ["src/parsec/agent/runners/evm/math.cpp", "src/parsec/agent/runners/evm/util.cpp"],
     [("operator+, -, *, <<, comparisons", "src/parsec/agent/runners/evm/math.cpp")],
     technique="differential property-based testing against schoolbook big-integer arithmetic",
     note=SEARCH + ".")

prop("C38", "EVM execution conserves balances and reverts completely",
     "Executing any transaction, nested calls, creations and self-destructs included, changes the total of all balances only by the gas paid away (and what a contract destroyed with itself); a failed call or transaction leaves accounts, storage, code and logs as they were apart from nonces and the sender's gas; a transaction whose cost and value exceed the sender's balance, whose nonce is not the next, or whose gas is out of range changes nothing. What is written is exactly what the sequence of operations means, only under write locks, and nothing if a lock was refused; the receipt tells the outcome, output, logs and gas paid for. A dry run reports the same outcome and writes nothing.",
     ["histories", "inputs"], "every generated program of host operations with reverts at any depth",
     "no stable test builds the EVM runner; its tests run two contracts",
     ["src/parsec/agent/runners/evm/host.cpp", "src/parsec/agent/runners/evm/impl.cpp"],
     [("evm_host::call, create, transfer, revert, finalize", "src/parsec/agent/runners/evm/host.cpp")],
     technique="stateful property-based testing with a scripted virtual machine against a reference world state",
     note="The virtual machine library is absent offline; a scripted stand-in issues the host operations. " + SEARCH + ".")

prop("C39", "Seeded coins exist in exactly one shard and can be spent exactly once",
     "Shards preseeded by the seeder tool, and wallets seeded from the same configuration, agree: each seeded coin is in exactly the shards whose range covers it, spendable exactly once, and no shard holds a coin outside its range or the configured seed range.",
     ["configurations", "inputs"], "every seed range, seed key and shard layout",
     "no stable test uses seeding",
     ["tools/shard-seeder/shard-seeder.cpp", "src/uhs/transaction/wallet.cpp", "src/uhs/twophase/locking_shard/locking_shard.cpp"],
     [("main", "tools/shard-seeder/shard-seeder.cpp"), ("seed_readonly, create_seeded_transaction, read_preseed_file", "src/uhs/transaction/wallet.cpp, src/uhs/twophase/locking_shard/locking_shard.cpp")],
     technique="property-based testing of generated seedings against the shards built from them",
     note=SEARCH + ".")

prop("C40", "Atomizer sentinels send every input to a shard that owns it",
     "A sentinel for the atomizer validates and attests as the two-phase one does, and sends a valid compact transaction to shards such that every input reaches a connected shard whose range covers it, none is sent to a shard that owns no input, and no shard gets it twice. Its client is told that it is pending, or why it is invalid, in which case no shard gets it.",
     ["configurations", "histories"], "every shard layout with overlapping ranges, every set of inputs, every set of failed shards",
     "the sentinel tests are not compiled here and use one shard",
     ["src/uhs/atomizer/sentinel/controller.cpp"],
     [("send_compact_tx, execute_transaction", "src/uhs/atomizer/sentinel/controller.cpp")],
     technique="property-based testing of real sentinels over loopback with scripted shards",
     note=SEARCH + ".")
