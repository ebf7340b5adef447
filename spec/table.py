SEQ = "online monitor: reference model of versions and commitments compared with every answer of the real store along generated histories"
SEQ_NOTE = ("Exploration: every read of the real store along tens of thousands of generated histories (reordered, duplicated, forked, closed and "
            "re-owned accounts) is compared with an independent model that only holds what the property allows; a panic, a hang or a wrong answer is a "
            "violation. Nothing is proved about histories that were not generated; assumptions are listed in the evidence.")
ACC_FILES = [AS, "account_storage/src/storage_by_program_id.rs", "common/src/account_store_interface.rs", "common/src/slot_info.rs"]

prop("C01", "Each commitment level shows exactly the version that reached it",
     "For every account and every commitment level, a lookup returns the newest version of the account that has reached that level (the newest received one at processed, the newest in a confirmed slot at confirmed, the newest in a finalized slot at finalized), with owner, lamports, data, slot and write version unchanged. An account that has no version at that level, that was closed there, or that was never covered, is reported as absent. No view is ever influenced by a version that did not reach the level.",
     ["histories", "inputs"], "Every interleaving of account updates (any slot order, write-version order, duplicates, closings, owner changes) with slot notifications at every level, over several accounts, programs and forks.",
     "28 tests replay a handful of fixed sequences with two or three accounts; promotion across gaps, reordered write versions inside a slot and updates that arrive after their slot was confirmed are not among them.",
     ACC_FILES, [("versions per account and promotion to confirmed/finalized", AS + " process_slot_data"), ("lookup per commitment", AS + " get_account"), ("out-of-order insertion", AS + " update_account")],
     state=[("account versions", "pending, confirmed and finalized versions of an account", AS)],
     observe=["AccountStorageInterface::get_account", "AccountStorageInterface::process_slot_data"])
check("C01", SEQ, SEQ_NOTE)

prop("C02", "Commitment views are ordered and never move backwards",
     "For every account the slot and write version shown at processed are never older than those shown at confirmed, and those at confirmed never older than those at finalized. The version shown at a level never goes back to an older one as updates and notifications arrive, in whatever order. A slot that was once confirmed or finalized is never treated as less committed again.",
     ["histories"], "All histories of updates and notifications, with late, repeated and downgrading notifications, on one fork or several.",
     "Monotonicity is a statement about all pairs of moments of all histories; tests look at a few moments of a few histories with ascending slots.",
     ACC_FILES + ["common/src/commitment.rs"], [("slot status tracking", AS + " SlotStatus"), ("commitment ordering", "common/src/commitment.rs")])
check("C02", SEQ + "; plus a pairwise order checker over consecutive reads", SEQ_NOTE)

prop("C03", "Duplicate, stale and reordered updates have no extra effect",
     "Delivering an update a second time, or delivering an update that an already held version supersedes, changes nothing at any commitment level. The final state after a set of updates and notifications does not depend on the order in which the updates of the same slots were delivered. The answer to an update says whether it became the newest version of the account.",
     ["histories", "inputs"], "All deliveries of a set of account versions: any permutation within the model's limits, any duplicate, any interleaving with notifications.",
     "Order independence quantifies over permutations; the tests deliver updates in one or two hand-picked orders.",
     ACC_FILES, [("write-version comparison and duplicate detection", AS + " update_account / AccountDataByCommitment"), ("return value", "common/src/account_store_interface.rs update_account")])
check("C03", SEQ + "; and comparison of two stores fed permutations of one history", SEQ_NOTE)

prop("C04", "Program queries return exactly the matching accounts",
     "A program query at a commitment level returns exactly the accounts that a lookup at that level shows as owned by that program and whose data satisfies every filter given, each once, with the same content as the lookup. Accounts that are closed, that moved to another program, or whose data no longer matches at that level are never returned. No matching covered account is missing.",
     ["histories", "inputs"], "All histories as in C01, all programs, all filter combinations (none, empty, size, byte comparisons in every encoding, beyond the data), at every level and moment.",
     "The tests query a few programs after a few updates; owner changes seen differently at different levels, and closings, combine with filters in ways no sample covers.",
     ACC_FILES + ["common/src/account_filter.rs"], [("owner index and filtering", AS + " get_program_accounts"), ("filter evaluation", "common/src/account_filter.rs AccountFilterType::allows"), ("owner index maintenance", AS + " update_account / account_owner_changed")])
check("C04", SEQ + "; query answers checked against lookups and an independent filter evaluation", SEQ_NOTE)

prop("C05", "Closed, re-owned and reopened accounts follow their life cycle",
     "A closing hides the account at a level exactly from the moment the closing reaches that level, while the other levels go on showing their own version; once finalized it is gone from lookups, program queries and snapshots at every level that has no newer version. An account that changes owner appears under the new program and not the old one at each level as the change reaches it. An account opened again after a closing is shown with its new content only.",
     ["histories"], "All histories whose accounts are opened, written, closed, re-owned and reopened repeatedly, in one slot or several, with updates and notifications interleaved or reordered.",
     "Tests close or re-own an account once, in order, and look once; the index and version clean-up must hold for each order of closing, reopening and promotion.",
     ACC_FILES, [("removal of deleted accounts", AS + " process_slot_data"), ("owner index update", AS + " account_owner_changed")])
check("C05", SEQ + " over life-cycle heavy histories", SEQ_NOTE + " One known finding is listed (no tombstone after a finalized closing).")

prop("C06", "Slot notifications report exactly the versions they promote",
     "When a slot becomes confirmed or finalized, the notification returns exactly the accounts whose view at that level changes because of it, each once and with the version that the level now shows (closings included), and nothing for a repeated, outdated or merely processed notification. Together the reports of a level, in order, rebuild that level's view. Nothing is lost when several slots are promoted at once.",
     ["histories"], "All histories of updates and notifications, including notifications that promote several ancestors at once and notifications in unusual order.",
     "Tests check the report of single slots; the claim that the reports neither lose nor repeat a version is about the whole history.",
     ACC_FILES, [("promotion and report", AS + " process_slot_data")], observe=["AccountStorageInterface::process_slot_data"])
check("C06", SEQ + "; conservation check of reports against views", SEQ_NOTE)

prop("C07", "Promoting a slot promotes its ancestors and no other fork",
     "When a slot is confirmed or finalized, all its known ancestors are treated as having reached at least that level, even those for which no notification or no account update arrived. Versions of slots on other forks are not promoted by it and never appear at that level. A version whose slot never reaches a level never shows there.",
     ["histories", "schedules"], "All slot trees with several forks, skipped notifications, slots without accounts, parents learned late, and any order of updates.",
     "The tests contain a few linear chains and one fork; ancestry through slots that were never announced or hold no accounts is not exercised.",
     ACC_FILES, [("ancestor walk", AS + " process_slot_data"), ("slot parents", AS + " SlotStatus")])
check("C07", SEQ + " over forked slot trees", SEQ_NOTE)

prop("C08", "Only covered accounts are stored and only covered queries answered",
     "The store admits exactly the account versions that its configured coverage selects (listed accounts, programs, sizes, byte conditions) plus later versions, under any owner, of accounts it already holds. A program query is answered only if the coverage guarantees a complete answer and refused with an error otherwise, never silently incomplete. Admission does not depend on data compression or on the encoding in which a condition is written.",
     ["configurations", "inputs", "histories"], "All coverage configurations, all account versions crossing them and all queries.",
     "The tests use accept-everything or single-program coverage; soundness of refusal is about all configurations and queries.",
     [AS, "common/src/simple_filter_store.rs", "common/src/mutable_filter_store.rs", "common/src/account_filter.rs"],
     [("admission", AS + " satisfies_filters"), ("query refusal", AS + " get_program_accounts"), ("coverage test", "common/src/simple_filter_store.rs contains_filter")])
check("C08", "online monitor: independent evaluation of the coverage compared with what the real store admits, answers and refuses", SEQ_NOTE)

prop("C09", "A snapshot restores exactly the finalized accounts of a program",
     "Loading a snapshot of a program into an empty store makes exactly the accounts that the source store shows for that program at finalized visible, with equal owner, lamports, data, slot and write version, at every level. A store that had followed only a part of the history replaces the older versions it holds, later updates apply on top, and loading it again neither duplicates nor rolls back accounts. Truncated or malformed bytes are refused with an error, never with a panic.",
     ["histories", "inputs"], "All histories before the snapshot, all moments at which it is taken, all corruptions of its bytes.",
     "The tests round-trip one snapshot of simple accounts; state in flight (unfinalized versions, closings, owner changes) and malformed input are not covered.",
     [AS, "common/src/account_data.rs", "common/src/account_store_interface.rs"], [("create and load", AS + " create_snapshot / load_from_snapshot")])
check("C09", "differential monitor: state of the restored store compared with the model of the source; corrupted inputs injected", SEQ_NOTE)

prop("C10", "Concurrent use never shows a state that no serial order explains",
     "While updates, slot notifications and reads run in parallel, each read returns a whole version that was really sent, that had started to arrive when the read ended, and that is not older than what the level had certainly reached when it began. Views never go backwards for one reader. Every version that ends up visible at a level through a notification is reported by a notification, and none is reported twice.",
     ["schedules", "histories"], "All interleavings of writers, the notifier and readers on shared accounts.",
     "The existing tests are single threaded; races between a write and the promotion of its slot need overlapping calls.",
     ACC_FILES, [("per-account map entries and locks", AS), ("slot status lock", AS + " update_account / process_slot_data")],
     hook="none: delays are injected through the coverage object the store is given")
check("C10", "offline checker over recorded call/return histories of real threads with injected delays (interval and exactly-once rules)",
      "Exploration: thousands of short parallel histories on real threads, with delays injected inside the store's critical sections through the coverage object; sound interval rules decide each read and report. Interleavings are sampled, not enumerated; counts are in the evidence.")

prop("C11", "Parallel use neither deadlocks nor corrupts the store",
     "Any number of parallel updates, closings, owner changes, notifications, queries and snapshots all return. Once they have, the store is consistent: an account written last and finalized is shown at every level and by exactly the right program queries, once. No operation panics because of another one.",
     ["schedules"], "All interleavings of a storm of operations on a few shared accounts and slots.",
     "The tests are single threaded, so lock order and index consistency under contention are not exercised at all.",
     ACC_FILES, [("lock order between account entries, owner index and slot status", AS)])
check("C11", "stress on real threads with injected delays, wait-state deadlock monitor and quiescent-state consistency oracle",
      "Exploration: thousands of storms; a deadlock is recognised by all threads of a case sleeping for good, not by a timeout; consistency is checked in the quiescent state.")

prop("C12", "Compressed data always decompresses to the original bytes",
     "For every byte string (empty, small, larger than the 10 MiB account limit) and every compression method, the data read back equals the bytes put in. Conversions between account representations and serialised forms keep every field. The reported length is that of the original data.",
     ["inputs"], "All contents, sizes, compression methods and levels.",
     "The tests compress a few random buffers with one method.",
     ["common/src/account_data.rs"], [("codec", "common/src/account_data.rs Data / CompressionMethod")])
check("C12", "online round-trip monitor over generated contents and an independent decoder",
      "Exploration over generated contents including sizes past internal buffer limits; equality of bytes is the oracle.")

prop("C13", "Filters select accounts by their decoded condition",
     "A byte condition matches exactly if the account data holds the given bytes at the given offset, entirely inside the data, whatever the encoding in which the condition was written; a size condition matches exactly that size; a conjunction matches if all do. A condition that cannot be decoded matches nothing. Translating filters from and to their RPC form keeps what they select.",
     ["inputs"], "All data, offsets, lengths and encodings, well formed or not, including offsets that overflow.",
     "One or two conditions on short data are tested; boundaries and malformed encodings are not.",
     ["common/src/account_filter.rs"], [("matching", "common/src/account_filter.rs AccountFilterType::allows, Memcmp::bytes_match")])
check("C13", "online monitor: independent matcher compared with the real one on boundary-directed inputs", "Exploration; the reference matcher decodes base58/base64/raw bytes itself.")

prop("C14", "Filter stores accept exactly what their filters cover",
     "A filter store accepts an account exactly if one of its filters selects it, and an excluding store exactly if none of its excluded programs owns it. It claims to cover a query only if every account that the query could match would be accepted. Filters added later only ever widen it.",
     ["configurations", "inputs"], "All sets of filters, all accounts, all queries, and all orders of adding filters.",
     "Tests use one filter per store; soundness of the coverage claim is over all accounts.",
     ["common/src/simple_filter_store.rs", "common/src/mutable_filter_store.rs", "common/src/except_filter_store.rs", "common/src/account_filters_interface.rs"],
     [("satisfies / contains_filter", "common/src/*_filter_store.rs")])
check("C14", "online monitor: independent coverage evaluation, including witness accounts for every coverage claim", "Exploration; coverage claims are refuted by concrete witness accounts.")

prop("C15", "Filter configurations survive their JSON form and bad ones are errors",
     "A filter configuration written as JSON is read back to a configuration that selects the same accounts and produces the same RPC filters, in both the list and the single form. A malformed document, address or condition yields an error, never a panic and never a configuration that silently selects something else.",
     ["inputs", "configurations"], "All configurations and all malformed documents.",
     "One fixed document is tested.",
     ["common/src/account_filter.rs"], [("serde model and conversion", "common/src/account_filter.rs")])
check("C15", "round-trip and robustness monitor against an independent JSON writer", "Exploration; mutated and hand-broken documents must be refused or mean what an independent reader says.")

# ------------------------------------------------------------------ accounts on demand
OD = "accounts_on_demand/src/accounts_on_demand.rs"
OD_FILES = [OD, "common/src/accounts_source_interface.rs", "common/src/mutable_filter_store.rs", AS]
OD_TECH = "online monitor over real threads: every answer checked against the state of a simulated chain behind the source between call and return, with delays and faults injected into the source"
OD_NOTE = ("Exploration: thousands of short runs of three to six threads against a simulated chain whose source is slow, unordered or failing at random; "
           "interleavings are sampled, counts are in the evidence. The existing tests need a live RPC source for none of this and use one fixed delay.")
prop("C17", "An account loaded on demand is shown as the chain has it, then kept current",
     "Asking for an account that is not held loads it once from the source and returns what the chain had at some moment between the request and the answer, and absence only if the account did not exist then. From then on updates of that account are taken and shown, also if it is created later, closed or changes owner. Several requests at once for the same account share one load and all get a correct answer; what is held is served without asking the source again.",
     ["schedules", "histories"], "All interleavings of requests for present, absent and just created accounts with a changing chain and a slow source whose subscription, snapshot and live updates arrive in any order.",
     "Tests request one account once from a source that answers immediately; overlapping requests and updates that race the load are what the wrapper exists for.",
     OD_FILES, [("load and wait", OD + " get_account"), ("subscription and coverage", OD + " / common/src/mutable_filter_store.rs")], observe=["AccountStorageInterface of AccountsOnDemand"])
check("C17", OD_TECH + "; plus a sequential twin comparison of everything the wrapper passes on", OD_NOTE)

prop("C18", "A failing or slow source gives errors, never wrong answers or stuck requests",
     "If the source fails or does not answer in time while an account or a program is being loaded, the requests concerned return an error within the configured time and never claim that an account is absent or that a query has no more results. A later request loads again and succeeds once the source works. Requests for what is already held, and updates and slot notifications, go on while a load hangs.",
     ["fault_sequences", "schedules"], "All failures of subscription and snapshot calls, before, during and after delivery, and sources that block, under concurrent requests.",
     "No test lets the source fail or block.",
     OD_FILES, [("timeout and error paths", OD + " get_account / get_program_accounts")])
check("C18", OD_TECH + " (failing before, during and after delivery, or blocked until all other requests returned)", OD_NOTE)

prop("C19", "Program queries on demand are complete, and loaded once",
     "A program query that is not covered yet subscribes to and loads the accounts it selects, and returns all of them and nothing else. Identical or narrower queries made meanwhile wait for that load instead of returning part of it, and queries that an earlier load covers are answered without loading again. Live updates of the selected accounts are shown from then on.",
     ["schedules", "histories"], "All sets of overlapping program queries with identical, narrower and unrelated filters, during a load and after it.",
     "Tests run one query at a time against an immediate source.",
     OD_FILES, [("program load and coverage", OD + " get_program_accounts")])
check("C19", OD_TECH, OD_NOTE)

# ------------------------------------------------------------------ token store
TS = "token_account_storage/src/inmemory_token_storage.rs"
TB = "token_account_storage/src/inmemory_token_account_storage.rs"
TT = "token_account_storage/src/account_types.rs"
TU = "token_account_storage/src/token_program_utils.rs"
TOK_FILES = [TS, TB, TT, TU]
TOK = "online monitor: independent model of token accounts, mints and multisigs per commitment, written from the byte layout of the token programs, compared with every answer of the real store along generated histories"
TOK_NOTE = ("Exploration: thousands of generated histories on fork trees with hand-written account contents of both token programs, each answer compared with the model; "
            "assumptions (announced slots, one finalized chain, delivery before finality) are in the evidence.")
prop("C20", "Packed token records and the record store lose nothing",
     "A token account record that is packed to bytes unpacks to an equal record for every combination of its optional parts, and the fields read straight from the packed bytes are those of the record. The record store returns exactly the record last saved under an address, never one of another address (however similar the addresses are), lists each stored record once, and no longer returns what was deleted.",
     ["inputs", "histories"], "All records and all sequences of saving, replacing, reading, listing and deleting for addresses that share long prefixes.",
     "The existing tests pack random records and store a few random addresses, which never share a prefix.",
     [TB, TT, "token_account_storage/src/token_account_storage_interface.rs", "common/src/pubkey_container_utils.rs"], [("packing", TT + " TokenAccount::to_bytes / from_bytes"), ("prefix containers", TB)])
check("C20", "online monitor: round-trip oracle and a plain map as reference for the record store, on addresses that share prefixes", "Exploration over generated records and operation sequences.")

prop("C21", "Token accounts, mints and multisigs come back byte for byte",
     "A token account, mint or multisig of either token program, including its extensions, is returned with the data, owner program and executable flag it was delivered with, apart from the lamports of token accounts, which are shown as the rent-exempt minimum. This holds for every combination of optional fields, states, extension bytes, signer counts and signer positions, at every commitment level, in lookups as well as in slot reports. Contents that are not a valid account of a token program are refused.",
     ["inputs"], "All valid contents of the three kinds of account of both programs, in all lifetimes; and invalid contents.",
     "Tests use plain token accounts and mints of the old program with default-like fields; extensions, multisigs and rarely used fields are not covered.",
     TOK_FILES, [("decoding", TU), ("re-encoding", TS + " / " + TU)])
check("C21", TOK, TOK_NOTE)

prop("C22", "Token lookups show the version that reached the commitment level",
     "Looking up an account of the token store at processed shows its newest update, at confirmed the newest in the chain that is confirmed, and at finalized the newest in the chain that is finalized; an account without a version at the level is absent. Confirming or finalizing a slot covers its ancestors and nothing on other forks, whatever the order and number of updates and notifications. An update of an account the store has no use for is refused and changes nothing.",
     ["histories"], "All fork trees, update orders and duplicates, with skipped, repeated and late notifications.",
     "Tests walk one chain of slots in order with few accounts.",
     TOK_FILES, [("versions and promotion", TS + " process_slot_data / get_account"), ("slots", TS)])
check("C22", TOK, TOK_NOTE + " Two known findings are listed (finalized records carry no slot and write version).")

prop("C23", "Token program queries return exactly the matching accounts",
     "A query for the accounts of a token program, by owner, by mint, by both or with any further size and byte conditions, returns exactly the accounts that lookups at that commitment level show and that satisfy every condition, each once and with the same content. An account whose owner, mint, size or program changes is found under the new value and not under the old one, at each level as the change reaches it. Queries that the store cannot answer completely are refused.",
     ["histories", "inputs"], "All histories as in C22 and all condition combinations, including several conditions on the same field and conditions across field borders.",
     "Tests query by owner and mint after a few finalized writes; changes of owner seen differently at different levels are not covered.",
     TOK_FILES, [("filter analysis", TU), ("owner and mint indexes", TS + " get_program_accounts")])
check("C23", TOK + "; query answers checked against lookups and an independent filter evaluation", TOK_NOTE)

prop("C24", "Closed and reused token addresses leave nothing behind",
     "A closed token account, mint or multisig disappears at each commitment level exactly when the closing reaches it, from lookups and queries. An address reopened as another kind of account, or under the other token program, is shown only as what it is now. Closing one account never hides or changes another one, however similar the addresses, and token accounts of a closed mint stay visible.",
     ["histories"], "All histories of opening, closing and reopening as the same or another kind at addresses that share prefixes.",
     "No existing test closes a mint or multisig, reuses an address, or has addresses sharing a prefix.",
     TOK_FILES, [("closing", TS + " update_account / process_slot_data"), ("prefix containers", TB)])
check("C24", TOK + " over life-cycle heavy histories with colliding address prefixes", TOK_NOTE)

prop("C25", "Token snapshots restore the finalized accounts of their program",
     "Loading a snapshot of a token program restores exactly the finalized token accounts, mints and multisigs of that program, with equal content, into an empty store or one that already holds accounts, without disturbing the others. Lookups, queries and later updates then work as on the source. Truncated or malformed bytes are refused with an error, without a panic and without effect; snapshots of other programs are refused.",
     ["histories", "inputs"], "All histories before the snapshot, all contents of the target, and all corruptions of the bytes.",
     "One existing test creates and restores a single program's snapshot into an empty store.",
     TOK_FILES, [("snapshot", TS + " create_snapshot / load_from_snapshot")])
check("C25", "differential monitor: restored store compared with the model of source and target along continued histories; corrupted snapshots injected", TOK_NOTE)

prop("C26", "Token slot reports carry each newly committed version once",
     "When a slot of the token store is finalized, the notification reports for every account changed in the newly finalized part of the chain its newest live version there, once, with correct content, and nothing else; when a slot is confirmed it reports the versions written in that slot. Versions on other forks are never reported. Nothing finalized is left unreported when several slots are finalized at once or notifications are skipped.",
     ["histories"], "All histories as in C22, with skipped and repeated notifications.",
     "Tests check the reports of a linear chain with a notification for each slot.",
     TOK_FILES, [("report", TS + " process_slot_data")])
check("C26", TOK + "; conservation check of reports against finalized views", TOK_NOTE)

prop("C27", "Concurrent use of the token store never shows an unexplainable state",
     "While updates, slot notifications, lookups, queries and snapshots of the token store run in parallel, each lookup returns a version that was really sent, had started to arrive when the lookup ended and is not older than what the level had certainly reached when it began. Every version finalized is reported by exactly one notification, none twice, and the levels never go back. Afterwards every account is shown and found by its owner and mint exactly as its last versions say, and every call returns.",
     ["schedules", "histories"], "All interleavings of writers of shared accounts, overlapping notifications, readers and snapshots.",
     "Almost all tests of the token store are single threaded and none overlaps notifications with writes of the same accounts.",
     TOK_FILES, [("versions and promotion", TS + " process_slot_data / add_account / finalize"), ("indexes and containers", TS + ", " + TB)],
     hook="none: delays are injected through the record store object that the token store is given")
check("C27", "offline checker over recorded call/return histories of real threads with injected delays (interval and exactly-once rules), deadlock monitor and quiescent-state oracle",
      "Exploration: thousands of short parallel histories on real threads, with delays injected inside the store through the record store it is given; interleavings are sampled, not enumerated; counts are in the evidence.")

# ------------------------------------------------------------------ router
RT = "account_storage/src/storage_by_program_id.rs"
prop("C16", "Storages behind a router answer like one storage",
     "Several storages behind a router that dispatches by program show together, for every lookup, program query, slot report and snapshot, what one storage covering all of them would show. An account that moves between programs of different storages is shown by its newest version at each level and listed only under the program it then belongs to. A slot report names an account at most once, with the version its level now shows.",
     ["histories", "configurations"], "All assignments of programs to storages (account stores and token stores), all histories as in C01 with each account's updates in order.",
     "No existing test uses the router.",
     [RT, "common/src/account_store_interface.rs"], [("dispatch and merging", RT)])
check("C16", SEQ + "; the model knows nothing of the router", SEQ_NOTE)

# ------------------------------------------------------------------ hostile input
prop("C28", "Hostile input never crashes, hangs or poisons a storage",
     "Whatever contents, slots, parents, conditions and snapshot bytes a storage is given (undecodable accounts, unknown mints, slots that are their own parent or form cycles, numbers at the ends of their range, corrupted snapshots), every call returns without a panic. Answers stay coherent: only delivered contents are shown, queries agree with lookups, and a notification reports an account at most once. An ordinary account delivered afterwards is stored, promoted, reported and queried as usual.",
     ["inputs", "histories"], "All sequences of calls with arbitrary arguments on account stores, token stores and routers over them.",
     "Tests only give well-formed input in sensible order.",
     [AS, TS, TB, TU, RT, "common/src/account_filter.rs", "common/src/account_data.rs"], [("walk over parents", AS + " process_slot_data, " + TS + " process_slot_data"), ("decoding", TU), ("snapshot loading", AS + " / " + TS)])
check("C28", "fault-injecting workload with panic, hang (processor-time and lock-wait) and coherence monitors on every answer",
      "Exploration: tens of thousands of hostile call sequences; stack overflow and absurd allocations end the monitor and count as violations.")

# ------------------------------------------------------------------ the snapshot simulator
SIM = "simulate_from_snapshot/src/"
SIM_NOTE = ("Exploration: the real program of /repo is compiled with stand-ins for the crates that cannot be had offline (tar, bank types, jsonrpsee, "
            "quic-geyser, clap) and run on thousands of generated snapshots; the bytes of account storages are the real layout, those of the bank fields are not.")
prop("C29", "Reading a snapshot yields every account record, or reports damage",
     "Reading a snapshot, from an archive or from a directory, one after the other or in parallel, yields every account record stored in it exactly once, with slot, address, owner, lamports, flags and data unchanged. A snapshot whose account files or manifest are cut short, inconsistent or malformed is reported as an error instead of being read partially. A server started from a snapshot shows, for every account of the token program, the version of the newest slot, and nothing for accounts that were closed in a newer slot.",
     ["inputs", "fault_sequences"], "All snapshots (files in any order, several versions per account, spare bytes, unrelated files) and all single damages of files, lengths, manifest or archive.",
     "The crate has no tests, and it is not part of the offline build.",
     [SIM + "snapshot_utils/append_vec.rs", SIM + "snapshot_utils/archived.rs", SIM + "snapshot_utils/unpacked.rs", SIM + "snapshot_utils/parallel.rs", SIM + "snapshot_utils/mod.rs", SIM + "main.rs"],
     [("account files", SIM + "snapshot_utils/append_vec.rs"), ("archives and directories", SIM + "snapshot_utils/archived.rs, unpacked.rs"), ("loading", SIM + "main.rs")])
check("C29", "runtime monitor of the real program and readers under generated and damaged snapshots (fault injection): record-by-record comparison with what was written, lookups compared with the newest version", SIM_NOTE)

prop("C30", "RPC answers show exactly the accounts, conditions and forms asked for",
     "An account request over RPC shows the account as of the requested commitment level (finalized if none is named) with the data in the requested encoding and cut to the requested slice, and null for an account that is absent there. A program request returns exactly the accounts that satisfy its conditions, whatever their encoding, and with a context only if asked for. A request whose address cannot be parsed is an error, a condition that cannot be decoded selects nothing, and a snapshot request returns the finalized accounts of the program.",
     ["inputs", "configurations"], "All requests (address, commitment, encoding, slice, conditions, context) against all states of the token storage.",
     "The RPC server has no tests.",
     [SIM + "rpc_server.rs", SIM + "main.rs"], [("translation of requests and answers", SIM + "rpc_server.rs")],
     observe=["getAccountInfo", "getProgramAccounts", "getSnapshot"])
check("C30", "online monitor: every RPC answer of the running program is compared with a model of the accounts fed to it", SIM_NOTE)

prop("C31", "A running server follows the stream of updates and slots",
     "After a server has been started from a snapshot, every streamed account update is shown at processed, and the slot messages of the stream move it to confirmed and finalized, so that each level shows the version a correct history demands. Updates on abandoned forks never reach confirmed or finalized. Slot messages of other levels, messages of unrelated accounts and undecodable accounts change nothing and do not stop the server.",
     ["histories"], "All streams of updates and slot messages over fork trees, after any snapshot.",
     "The program has no tests.",
     [SIM + "main.rs"], [("translation of messages", SIM + "main.rs")], observe=["getAccountInfo"])
check("C31", "online monitor: the running program is fed generated streams and its answers are compared with a reference model", SIM_NOTE)

prop("C34", "Reading a snapshot never leaves the memory of its files",
     "Whatever bytes the account files of a snapshot contain, and whatever lengths its list of files claims for them, reading it to the end touches no memory outside of the mapped files, uses nothing after it was released, and makes no value that is impossible for its type. It ends with the records or with an error.",
     ["inputs", "fault_sequences"], "All contents of account files and manifests, in archives and directories, read by one or several tasks.",
     "The readers contain unsafe code and have no tests; undefined behaviour is not visible to assertions.",
     [SIM + "snapshot_utils/append_vec.rs", SIM + "snapshot_utils/archived.rs"], [("unsafe reads", SIM + "snapshot_utils/append_vec.rs"), ("borrowed archive", SIM + "snapshot_utils/archived.rs")])
check("C34", "address sanitizer on the real snapshot readers (maps replaced by heap blocks of exact size), fed with hostile account files and manifests; a self-test shows the sanitizer is active", SIM_NOTE)

# ------------------------------------------------------------------ outside
prop("C32", "The RPC server bounds connections and message sizes",
     "The RPC server refuses more connections and larger requests than it is configured for, and goes on serving the others.",
     ["inputs"], "All clients of the HTTP transport.", "There are no tests of the transport.",
     [SIM + "rpc_server.rs"], [("limits", SIM + "rpc_server.rs start_serving")])
na("C32", "The transport is the crate jsonrpsee, which is not available offline; the running program is observed with a stand-in transport, so its limits cannot be observed.")

prop("C33", "Compressed stream messages are decoded",
     "An account update that arrives compressed over the stream is shown with its uncompressed data.",
     ["inputs"], "All compression methods of the stream.", "The program has no tests.",
     [SIM + "main.rs"], [("compression of messages", SIM + "main.rs")])
na("C33", "What a compressed message carries is defined by the crates quic-geyser-client and quic-geyser-common, which cannot be fetched offline; a stand-in would only monitor a guess.")
