T = "Unit tests and recorded vectors try a handful of values; the guarantee is over every value."
PROPS = [
 dict(id="P01", title="Register instructions compute exactly the specified result",
      statement="Executing any arithmetic, bitwise, comparison, shift, rotate, move, conditional-move or immediate-load instruction of the virtual machine writes the value the specification defines to the destination register, for all operand values and operand encodings. No other register changes, execution continues at the next instruction and exactly one unit of gas is charged.",
      q="all 64-bit register values; all operand bytes (register numbers above 12 mean 12, immediates of 0 to 4 bytes sign-extended) of every register-only instruction", why=T + " Corner cases (division by zero, minimum dividend, shift amounts, truncated immediates, clamped register numbers) multiply.",
      files=["pvm/pvm-core/src/program/instruction/set.rs", "pvm/pvm-core/src/program/instruction/mod.rs", "pvm/pvm-core/src/utils.rs"],
      mech=[("instruction semantics", "pvm/pvm-core/src/program/instruction/set.rs"), ("operand decoding", "pvm/pvm-core/src/program/instruction/mod.rs"), ("state change application", "pvm/pvm-core/src/state/state_change.rs")],
      note="One instruction per run, every opcode; values exhaustive with fixed register operands, and operand bytes exhaustive with fixed distinct register values (cross product only in part). Reference semantics in harness/h-pvm/src/refpvm.rs, written from the Gray Paper tables."),
 dict(id="P02", title="Static jumps and branches land only on basic block starts",
      statement="A jump or a taken branch continues at its target if the target is offset 0 or directly follows a block-ending instruction, and panics otherwise; an untaken branch continues at the next instruction. Conditions are decided as specified for all operands, and the panic leaves no other effect than the gas charge.",
      q="all operand values, immediates and offsets; all opcode bitmasks of a short program", over=["inputs", "programs"], why=T + " Block starts depend on the whole program's code and bitmask.",
      files=["pvm/pvm-core/src/program/loader.rs", "pvm/pvm-core/src/program/instruction/set.rs"],
      mech=[("branch", "InstructionSet::branch"), ("basic block computation", "ProgramLoader::set_basic_block_start_indices"), ("skip distances", "ProgramLoader::compute_skip_distances")],
      note="Programs of up to 17 bytes; branch immediates and offsets of one byte at the quick tier (0..4 bytes thorough); opcodes in the bitmask-exhaustive entry from a subset."),
 dict(id="P03", title="Dynamic jumps go through the jump table only",
      statement="A dynamic jump to address a halts if a is 2^32-2^16; otherwise it continues at entry a/2-1 of the jump table if a is a positive even number within the table and the entry is a basic block start, and panics in every other case. The link register of a linking dynamic jump receives its immediate after the target address was computed.",
      q="all register values and immediates; all contents of a jump table of up to 3 entries of 1, 2 or 4 bytes", over=["inputs", "programs"], why=T,
      files=["pvm/pvm-core/src/program/instruction/set.rs"],
      mech=[("dynamic jump", "InstructionSet::djump"), ("jump_ind / load_imm_jump_ind", "pvm/pvm-core/src/program/instruction/set.rs")],
      note="Table of 3 entries (thorough 0..3), entry length 1, 2, 4 (thorough 1..4)."),
 dict(id="P04", title="Memory accesses respect page access rights and are exact",
      statement="A load returns exactly the little-endian (sign-extended where specified) bytes at the address and a store changes exactly the addressed bytes, if every touched page grants the access. An access touching the lowest 64 KiB (also by wrapping around) panics; one touching a page without the right ends in a page fault naming the start of the lowest such page; neither changes memory or registers.",
      q="all 2^32 addresses, all values, all access widths over a fixed layout with writable, read-only and inaccessible pages", why=T + " Faults depend on accesses straddling page and zone boundaries.",
      files=["pvm/pvm-core/src/state/memory.rs", "pvm/pvm-core/src/state/state_change.rs", "pvm/pvm-core/src/program/instruction/set.rs"],
      mech=[("range validation", "Memory::validate_read / write_bytes"), ("store application", "VMStateMutator::apply_state_change"), ("load instructions", "pvm/pvm-core/src/program/instruction/set.rs")],
      note="One fixed page layout. Loads at every address; stores within 9 bytes of an access boundary at the quick tier (everywhere at the thorough tier); 8 memory bytes around one page boundary arbitrary, others zero."),
 dict(id="P05", title="Gas bounds execution exactly",
      statement="Every executed instruction costs one unit of gas; with g units exactly the first g instructions take effect, and execution ends out of gas before the next one changes anything. A host-call instruction with enough gas stops with the identifier it names (identifiers above 255 being unknown) and leaves registers and program counter as they were.",
      q="all gas limits up to the bound over straight-line, looping and host-calling programs; all host-call identifiers of 0 to 4 bytes", over=["inputs", "configurations"], why=T,
      files=["pvm/pvm-core/src/interpreter/mod.rs", "pvm/pvm-core/src/gas/mod.rs", "pvm/pvm-core/src/state/state_change.rs"],
      mech=[("gas charging", "GasCharger::apply_gas_cost"), ("interpreter loop", "Interpreter::invoke_general")],
      note="Three program shapes; gas limits up to 12 (thorough 40) in the loop."),
 dict(id="P06", title="Program blobs decode exactly or are rejected",
      statement="A program blob is accepted exactly if it consists of the encoded table length, entry length, code length, table, code and bitmask with nothing missing or left over, and yields those components; standard program blobs likewise yield their sections. Any other input is rejected without a crash or allocation beyond the input's size, and the size limit of standard programs is decided as specified.",
      q="all byte strings up to the bound; all contents of well-formed blobs with small sections", over=["inputs", "programs"], why=T + " Malformed lengths are chosen by an adversary.",
      files=["pvm/pvm-core/src/program/loader.rs", "pvm/pvm-core/src/program/types/formatted_program.rs", "codec/fr-codec/src/lib.rs"],
      mech=[("program deblobbing", "ProgramLoader::deblob_program_code"), ("standard program decoding", "FormattedProgram::from_standard_program"), ("size limit", "FormattedProgram::is_program_size_valid")],
      note="Blobs of up to 6 arbitrary bytes (thorough 8), structured blobs up to 21 bytes, standard blobs up to 16 arbitrary bytes. Jump tables of zero-length entries are a known finding (F1)."),
 dict(id="P08", title="Heap growth hands out fresh memory and never reaches the stack",
      statement="Growing the heap returns the previous end of the heap and makes exactly the pages of the requested range writable in addition; consecutive growths return adjacent, disjoint ranges. A request that would reach the stack never succeeds and grants nothing.",
      q="all pairs of 64-bit sizes over a fixed layout", over=["inputs", "histories"], why=T,
      files=["pvm/pvm-core/src/state/memory.rs", "pvm/pvm-core/src/program/instruction/set.rs"],
      mech=[("sbrk", "InstructionSet::sbrk"), ("break search and growth", "Memory::get_break / Memory::expand_heap")],
      note="Two growths, one fixed layout (2 heap pages, stack 6 pages above); failure is reported as an error of the invocation."),
 dict(id="P10", title="No program crashes or stalls the interpreter",
      statement="Executing any program from any program counter with any registers ends within its gas limit with an exit reason: host call, halt, panic, page fault or out of gas. It never crashes the node and never reports success without an exit.",
      q="all single instructions with arbitrary operands and all short programs over a subset of opcodes, with every bitmask, register contents and start offset", over=["programs", "inputs"], why=T + " Programs are chosen by an adversary.",
      files=["pvm/pvm-core/src/interpreter/mod.rs", "pvm/pvm-core/src/program/loader.rs", "pvm/pvm-core/src/program/instruction/mod.rs"],
      mech=[("instruction dispatch", "Interpreter::invoke_single_step"), ("instruction decoding", "Instruction::from_inst_blob")],
      note="One step of every opcode byte with 0..3 operand bytes (thorough 0..9); programs of 3 bytes and 2 steps over 4 opcodes (thorough 4 bytes, 4 steps, 6 opcodes). sbrk (P08) excluded."),
 dict(id="C01", title="Natural numbers have exactly one encoding, and decoding inverts it",
      statement="Encoding a number produces the specified variable-length form and its size hint is the exact length; decoding it returns the number and consumes nothing else. Every octet string that decodes is the encoding of the decoded number: truncated, non-minimal and too large forms are rejected.",
      q="all values of all unsigned types; all inputs of up to 10 octets", why=T + " Length classes, truncation and non-minimal forms multiply.",
      files=["codec/fr-codec/src/lib.rs"],
      mech=[("integer encoding", "integer_encode_to / integer_size_hint"), ("integer decoding", "integer_decode")],
      note="Exhaustive over values and over inputs of 0..10 octets."),
 dict(id="C02", title="Fixed-width encodings are little-endian, exact and never truncate",
      statement="Encoding a number to a fixed width yields exactly that many little-endian octets if the value fits and fails otherwise; decoding a width returns the value and consumes exactly that many octets, or fails if the type or the input is too short. Octet strings of fixed size are copied exactly and refused at any other size.",
      q="all values, widths up to 9 and inputs up to 9 octets", why=T,
      files=["codec/fr-codec/src/lib.rs", "common/src/types/mod.rs"],
      mech=[("fixed codec", "impl_jam_fixed_codec_for_uint"), ("octet sequences", "JamDecodeFixed for Vec<u8> / ByteSequence / ByteArray")],
      note="Widths 0..9 (octets 0..6), all values."),
 dict(id="C03", title="Containers encode in the specified layout and decode back to themselves",
      statement="Sequences, bounded and fixed sequences, arrays, tuples, options, boxes, octet strings, bit strings, maps and sets encode as the concatenation of their parts with the specified length prefixes, keys ascending whatever the insertion order. Decoding returns an equal value and leaves the following octets alone.",
      q="all contents of containers up to the bound", why=T,
      files=["codec/fr-codec/src/lib.rs", "common/src/types/mod.rs"],
      mech=[("container codecs", "codec/fr-codec/src/lib.rs"), ("bit strings", "JamEncodeFixed for BitVec")],
      note="Up to 3 elements; octet strings to 3 and 127..129; bit strings to 17 bits (contents restricted above 7 bits)."),
 dict(id="C04", title="Arbitrary input never crashes the decoder or makes it allocate beyond the input",
      statement="Decoding any octet string as any container either fails or returns a value whose encoding is exactly the octets consumed. It never crashes, never reads past the input and never allocates for lengths the input cannot hold.",
      q="all inputs up to the bound, as each container type", why=T + " Malformed input is chosen by an adversary.",
      files=["codec/fr-codec/src/lib.rs"],
      mech=[("container decoders", "codec/fr-codec/src/lib.rs")],
      note="Inputs of 0..5 octets (thorough 7), 13 types; allocation limit 64 KiB. Padding bits of bit strings are not required to be zero."),
 dict(id="C05", title="Bounded vectors never exceed their bound and behave as vectors below it",
      statement="No sequence of operations takes a bounded vector beyond its bound: pushing or extending a full one fails without a change, shift-pushing drops exactly the oldest element. Conversions and decoding accept exactly the permitted lengths.",
      q="all operation sequences up to the bound, all elements", over=["histories", "inputs"], why=T,
      files=["common/limited-vec/src/lib.rs", "codec/fr-codec/src/lib.rs"],
      mech=[("bounded vector", "LimitedVec"), ("fixed vector", "FixedVec")],
      note="Bound 3, sequences of 5 operations (thorough 7)."),
 dict(id="C06", title="Merkle roots commit to every leaf and page proofs verify against them",
      statement="The roots of the well-balanced and constant-depth trees are those the specification defines for the sequence of leaves. For every page of the constant-depth tree, the leaf hashes of the page together with its justification reconstruct exactly the root.",
      q="all leaf contents; all leaf counts, page sizes and page positions up to the bound", why=T,
      files=["merkle/src/common.rs", "merkle/src/constant_depth_tree.rs", "merkle/src/well_balanced_tree.rs"],
      mech=[("node and trace", "merkle/src/common.rs"), ("page proofs", "ConstantDepthMerkleTree")],
      note="Up to 12 leaves (thorough 40), pages of 1..16; a model hash in place of the hash function (the code is generic in it)."),
 dict(id="C07", title="Merkle mountain ranges accumulate leaves exactly as specified",
      statement="After n appends, peak k is present exactly if bit k of n is set and is the root of the perfect tree over the leaves it stands for; both append implementations agree and the encoding round-trips. The super-peak folds the present peaks as specified.",
      q="all leaf values; all counts up to the bound; all patterns of present peaks", over=["inputs", "histories"], why=T,
      files=["merkle/src/mmr.rs"],
      mech=[("append", "MerkleMountainRange::append"), ("super-peak", "MerkleMountainRange::super_peak")],
      note="Up to 10 appends (thorough 34) with a model hash; super-peak of up to 4 peaks (thorough 6) with the real Keccak-256."),
 dict(id="S01", title="Staged state changes are all kept, all committed, or all undone",
      statement="Between commits, reads return the staged value of an entry and clean reads the committed one, whatever the caches evicted; additions, updates and removals of the same entry compose. A commit, direct or staged and applied later, makes exactly the staged changes durable, a rollback or dropped stage leaves exactly the committed state, and a failed or interrupted commit leaves either all of the old or all of the new state.",
      q="all short sequences of operations on an entry, all values, any single or complete loss of cached entries, a failure at any write", over=["histories", "crash_points", "inputs"], why="Cache residency, operation order and failing writes are schedules no test enumerates.",
      files=["state/src/cache.rs", "state/src/manager.rs", "state/src/merkle_interface/manager.rs", "db/src/core/cached_db.rs"],
      mech=[("dirty entries", "state/src/cache.rs StateCache"), ("commit and staging", "StateManager::commit_dirty_cache / prepare_dirty_cache_commit / apply_dirty_cache_commit"), ("trie writes", "MerkleManager::apply_dirty_cache_commit")],
      note="Up to 3 operations on one entry in two rounds; entry values of one octet or 40. RocksDB, mini-moka and tokio are models (harness/stubs): atomic batches, lossy maps, an executor."),
 dict(id="S02", title="The state root is the Merkle root of the state entries",
      statement="After every commit the root is the root the specification's Merkle function gives for exactly the current key-value pairs, however the state was reached. Every entry is found again with its value, and removed entries are not.",
      q="all mixes of additions, updates and removals over keys with shared prefixes in two commits, all small values", over=["histories", "inputs"], why="The trie is updated incrementally; node splits and merges depend on the order and the mix of changes.",
      files=["state/src/merkle_interface/manager.rs", "state/state-merkle-v2/src/merkle_db.rs", "state/state-merkle-v2/src/merkle_change_set.rs", "state/state-merkle-v2/src/types.rs", "state/state-merkle-v2/src/utils.rs"],
      mech=[("leaf writes", "MerkleManager::insert_dirty_cache_entry_as_leaf_writes"), ("node hashing", "MerkleManager::prepare_merkle_db_node_writes"), ("leaf and branch encoding", "state/state-merkle-v2/src/types.rs")],
      note="4 keys (thorough 5), two commits, values of 0, 1, 32 octets (arbitrary) or longer (fixed). One leaf stays; removing the last leaf is outside the claim."),
 dict(id="T01", title="Time only moves forward, and entropy is accumulated as specified",
      statement="A block's slot is accepted exactly when it is later than the parent state's and has begun by the node's clock. The accumulator becomes the hash of itself and the block's VRF output; at an epoch change the three older values shift by one, otherwise they stay. Uncommitted values never show in reads of the committed state.",
      q="every pair of slots, clock readings across slot boundaries, all entropy values and VRF outputs", over=["inputs", "schedules"], why="Off-by-one slots and boundary seconds are single points in 2^32 slots; all of them are decided.",
      files=["transition/src/state/timeslot.rs", "transition/src/state/entropy.rs", "state/src/types/timeslot.rs", "state/src/types/entropy.rs", "clock/src/lib.rs"],
      mech=[("timeslot STF", "transition_timeslot"), ("slot arithmetic", "Timeslot::is_in_future"), ("entropy STF", "transition_epoch_entropy_on_epoch_change / transition_epoch_entropy_per_block")],
      note="Clock readings within two consecutive slots of 2027."),
 dict(id="T02", title="Validator sets rotate only at epoch changes, without offenders",
      statement="In the first block of an epoch, staging becomes pending with every punished validator's keys zeroed, pending becomes active, and active becomes past; in every other block all sets stay. The ring root is always the commitment to the pending set. The epoch marker is present exactly in that first block and lists the new pending set and the entropies.",
      q="any prior slot and any later one up to four epochs on, any punished keys", over=["inputs", "configurations"], why="Skipped epochs and which validators are punished multiply; tests sample one or two.",
      files=["transition/src/state/validators.rs", "transition/src/state/safrole.rs", "node/src/roles/executor.rs", "state/src/types/validators.rs", "crypto/src/types.rs"],
      mech=[("rotation", "transition_active_set / transition_past_set"), ("pending set and ring root", "transition_safrole"), ("markers", "mark_safrole_header_markers")],
      note="Six validators; up to two punished keys. Ring commitments and tokio are models (harness/stubs)."),
 dict(id="T03", title="Each epoch's block-sealing keys come from the right source",
      statement="At an epoch change the sealing keys are the outside-in sequence of the twelve winning tickets if the accumulator is full, its submission period was over and no epoch was skipped; otherwise they are the fallback keys drawn from the new active set by entropy. The accumulator is emptied then and only then. The winning-tickets marker appears exactly in the first block past the submission period with a full accumulator.",
      q="any pair of slots up to four epochs apart, empty, nearly full or full accumulators", over=["inputs", "histories"], why="The cases meet at phase boundaries and skipped epochs that tests visit at a few points.",
      files=["transition/src/state/safrole.rs", "state/src/types/safrole.rs", "crypto/src/entropy.rs", "common/src/ticket.rs"],
      mech=[("sealing keys", "transition_safrole"), ("fallback keys", "generate_fallback_keys"), ("outside-in sequencer", "outside_in_vec"), ("marker", "mark_safrole_header_markers")],
      note="Epochs of twelve slots, submission for ten. Two entropy histories."),
 dict(id="T04", title="Only valid, winning, in-time tickets enter the accumulator",
      statement="A ticket extrinsic is accepted exactly when it is in the submission period, within the size limit, sorted and free of duplicates, every attempt number is in range, every ring proof verifies for the pending set's ring and the second entropy history, and every ticket ends up in the accumulator. The new accumulator holds the lowest tickets of old and new, in order.",
      q="any slot phase, accumulators of several sizes, up to four tickets each of any rank, attempt and proof validity", over=["inputs"], why="Acceptance is a conjunction over the whole extrinsic and the accumulator; each test breaks one condition at one spot.",
      files=["extrinsics/src/validation/tickets.rs", "transition/src/state/safrole.rs", "state/src/types/safrole.rs", "block/src/types/extrinsics/tickets.rs"],
      mech=[("extrinsic validation", "TicketsXtValidator::validate"), ("accumulator", "TicketAccumulator::add_multiple"), ("STF", "transition_safrole")],
      note="Ticket identifiers take six ranks relative to accumulator entries; a ticket identifier is never shared by two attempt numbers. Ideal ring VRF."),
 dict(id="T05", title="Cached ring verifiers never change what a block means",
      statement="Whatever blocks were tried before (rotations, offender removals, new staging sets, background computations finishing late, rejected blocks), the ring verifier and ring root used for a set are those of exactly that set. A block valid on its parent state stays valid after any rejected blocks.",
      q="all histories of three cache operations; up to two rejected blocks before a valid one", over=["histories", "schedules"], why="Stale caches need a specific order of rejected blocks, epoch changes and late background work.",
      files=["state/src/manager.rs", "transition/src/ring_cache.rs", "node/src/roles/executor.rs", "transition/src/state/disputes.rs"],
      mech=[("cache reads", "StateManager::get_or_generate_curr_ring_context / get_or_generate_staging_ring_context"), ("background update", "schedule_ring_cache_update"), ("rotation and nullification", "commit_and_rotate_ring_cache / nullify_offenders_from_staging_ring_cache")],
      note="Three operations (thorough: four), four validator sets. Background work runs between calls."),
 dict(id="N01", title="Only valid children of the best block are imported, and completely",
      statement="A block is imported exactly when it extends the best block with a later begun slot, the parent's state root, the hash of its extrinsics, the markers its transition yields, and the slot author's seal and VRF. Then best header, header store, state root index and state all reflect it. A rejected block leaves all of them as they were, and later valid blocks lead to the same state root as without it.",
      q="blocks in three sealing situations with any one of nineteen faults and any corrupted octet value; sequences with rejected blocks", over=["inputs", "histories"], why="Header checks run around state transitions already under way; each omission or missing rollback shows only for one fault in one situation.",
      files=["node/src/roles/importer.rs", "node/src/roles/executor.rs", "block/src/header_db.rs", "block/src/post_state_root_db.rs", "state/src/manager.rs"],
      mech=[("import loop", "BlockImporter::run_block_importer"), ("header validation", "validate_block_header_prior_stf / validate_block_header_post_safrole"), ("seal and VRF", "verify_block_seal / verify_vrf_output"), ("rollback", "StateManager::rollback_dirty_cache")],
      note="One fault at a time; one octet per corrupted field. Bandersnatch VRF, RocksDB, mini-moka and tokio are models (harness/stubs)."),
 dict(id="T06", title="Authorizer pools change exactly by use and by the queue",
      statement="In every block each core's pool loses the leftmost occurrence of the authorizer its guaranteed report used, gains the queue's entry for the slot at its end, and keeps the latest eight. The pools of the two cores never influence each other.",
      q="any pool contents and sizes, any used authorizer, any slot", over=["inputs"], why="Repeated authorizers, full pools and cores without a report combine; a wrong one stays unnoticed until a report is refused.",
      files=["transition/src/state/authorizer.rs", "state/src/types/authorizer.rs"],
      mech=[("auth pool STF", "transition_auth_pool"), ("queue lookup", "state/src/types/authorizer.rs")],
      note="Pool sizes 0, 1, 3, 8 (thorough: more)."),
 dict(id="T07", title="Recent history and the accumulation log record every block correctly",
      statement="Each block appends its hash, reported packages and the root of the accumulation-output log to the history of the last eight, and writes its parent's state root into the previous entry only. The log is the specification's Merkle mountain range over the Merkle root of each block's outputs in order of service.",
      q="history lengths to the bound, logs of up to eight earlier blocks, up to three outputs and two packages in any order, any state root", over=["histories", "inputs"], why="The range merges peaks by carry; orders and lengths around full ranges are rarely sampled.",
      files=["transition/src/state/history.rs", "state/src/types/history.rs", "transition/src/state/accumulate.rs", "merkle/src/mmr.rs", "merkle/src/well_balanced_tree.rs"],
      mech=[("history STF", "transition_block_history_parent_root / transition_block_history_append"), ("log", "transition_block_history_beefy_belt, MerkleMountainRange::append"), ("output commitment", "LastAccumulateOutputs::accumulate_root")],
      note="Logs of up to 4 blocks (thorough: 8)."),
 dict(id="T08", title="Disputes: only proper verdicts and proven offenders take effect",
      statement="A disputes extrinsic is accepted only if verdicts, votes, culprits and faults are sorted, unique and correctly signed by the current or previous epoch's validators, votes number all, a third or none, no report was judged before, and offenders are unpunished, named by key and guilty under a verdict of the extrinsic. Then reports enter the good, bad or wonky set, offenders the punished set once, and bad or wonky reports stop pending. Otherwise nothing changes.",
      q="any epoch index, every vote count, signing set, voter order, report already judged or not, one or two verdicts with any one defect among votes and offenders", over=["inputs", "histories"], why="Acceptance is a conjunction of rules over several lists; each defect must be found alone, in combination with both validator sets.",
      files=["extrinsics/src/validation/disputes.rs", "transition/src/state/disputes.rs", "state/src/types/disputes.rs", "block/src/types/extrinsics/disputes.rs", "transition/src/state/reports.rs"],
      mech=[("validation", "DisputesXtValidator::validate"), ("verdicts", "Verdict::evaluate_verdict / split_report_set"), ("sets", "DisputesState"), ("pending reports", "transition_reports_eliminate_invalid")],
      note="One defect at a time; signatures are ideal. Offences are judged by verdicts of the same extrinsic only (the specification also admits earlier ones)."),
 dict(id="T09", title="Reports become available exactly by two thirds plus one of assurances",
      statement="An assurance extrinsic is accepted exactly if its entries are sorted by distinct known validators, anchored on the parent, signed over anchor and bits by the active set, and assure only cores with a pending report. Then exactly the reports with a super-majority are handed to accumulation in core order, and these and those five or more slots old stop pending.",
      q="every assurer count, pending or empty cores, any report and current slot, any one defect of any entry", over=["inputs"], why="Threshold, timeout and core are all off-by-one candidates, and become visible only together.",
      files=["extrinsics/src/validation/assurances.rs", "block/src/types/extrinsics/assurances.rs", "transition/src/state/reports.rs", "state/src/types/reports.rs"],
      mech=[("validation", "AssurancesXtValidator::validate"), ("counting", "AssurancesXt::available_core_indices"), ("timeouts", "PendingReports::get_timed_out_core_indices"), ("STF", "transition_reports_clear_availables")],
      note="Two cores, six validators; one defect at a time. Ideal signatures."),
 dict(id="T10", title="Only properly guaranteed, fresh, affordable reports become pending",
      statement="A guarantees extrinsic is accepted exactly if every report has two or three sorted, correctly signing, unpunished guarantors assigned to its core in this or the previous rotation, stays within gas, size and dependency limits, names known services and code, an authorizer of its core's pool, a recent anchor and present dependencies, its core is free, and its package was never seen in the pipeline. Then the report is pending since this slot; otherwise nothing changes.",
      q="every set of guarantors, any entry slot, any gas limits and lookup-anchor slot, one or two reports with any one of 27 defects", over=["inputs", "histories"], why="The rule is a long conjunction over eight state components; most violations are accepted silently and only fork the chain later.",
      files=["extrinsics/src/validation/guarantees.rs", "extrinsics/src/utils/guarantor_rotation.rs", "transition/src/state/reports.rs", "block/src/types/extrinsics/guarantees.rs", "common/src/types/workloads/work_report.rs"],
      mech=[("validation", "GuaranteesXtValidator::validate"), ("credentials", "validate_credential"), ("assignment", "GuarantorAssignment"), ("STF", "transition_reports_update_entries")],
      note="One defect at a time. The lookup anchor's presence among ancestors is outside (the node does not check it). Ideal signatures."),
 dict(id="T13", title="Available reports accumulate once, after their dependencies, in order",
      statement="Reports without unmet dependencies come first, then queued and new ones as their dependencies are met, oldest epoch phase first; reports with unmet dependencies wait, less those already met. Accumulated packages enter the history of the last twelve slots and leave the queue; phases of skipped slots and expired ones are emptied.",
      q="up to three reports (thorough: four) with all dependency graphs over them, accumulated and unknown packages, any split into queued and new, any number accumulated, four slot gaps", over=["histories", "inputs"], why="Dependency graphs, cycles and skipped slots multiply; tests hold a few fixed ones.",
      files=["pvm/pvm-invocation/src/accumulate/utils.rs", "transition/src/state/accumulate.rs", "state/src/types/accumulate.rs"],
      mech=[("ordering", "collect_accumulatable_reports"), ("queue edit", "edit_queue / extract_accumulatables"), ("queue and history STF", "transition_accumulate_queue / transition_accumulate_history")],
      note="Dependencies per report: at most two. Twelve-slot epochs, one phase of the epoch."),
 dict(id="T15", title="Guarantors are assigned evenly, unpredictably and by rotation",
      statement="Guarantor assignment is the specification's shuffle of the cores over validators by epoch entropy, shifted by one core each rotation: every core always has three guarantors. The previous rotation uses the previous epoch's set and entropy exactly when it lies in that epoch, and punished validators' keys are zeroed.",
      q="all random words for the shuffle; every slot of an epoch and of the first one, four entropies, every punished validator", over=["inputs", "configurations"], why="Rotation and epoch boundaries meet; a wrong entropy or set shows only in the first rotation of an epoch.",
      files=["extrinsics/src/utils/guarantor_rotation.rs", "extrinsics/src/utils/shuffle.rs", "state/src/types/validators.rs"],
      mech=[("shuffle", "shuffle / shuffle_with_hash"), ("assignments", "current_guarantor_assignments / previous_guarantor_assignments")],
      note="Six validators, two cores; entropies from a fixed list (thorough: 64)."),
 dict(id="T11", title="Provided preimages are stored exactly once, when asked for",
      statement="A preimage extrinsic is accepted exactly if its entries are sorted and distinct and each blob is asked for by its service, and not yet provided, in the state before the block. Then every blob still asked for after accumulation is stored and its record holds the block's slot; blobs no longer asked for are dropped, and nothing else changes.",
      q="every request record, up to two (and all four) entries in any order, five changes accumulation can make to each record before the extrinsic takes effect", over=["inputs", "histories"], why="Acceptance looks at the state before the block and integration at the one after accumulation; the difference matters only in rare blocks.",
      files=["extrinsics/src/validation/preimages.rs", "transition/src/state/services.rs", "state/src/types/services.rs"],
      mech=[("validation", "PreimagesXtValidator::validate"), ("STF", "transition_services_integrate_preimages")],
      note="Two services, two blobs, one of them empty."),
 dict(id="T12", title="Activity statistics credit exactly what each validator, core and service did",
      statement="Per epoch, each validator is credited its blocks, tickets, preimages and their octets, guarantees and assurances, and at an epoch's change the counts become the last epoch's and restart. Per block, core and service figures sum exactly the block's guaranteed reports, available reports, assurances, preimages and accumulation.",
      q="any previous counts, author, reporters, assurers, tickets and preimages; up to two guaranteed and two available reports with any figures", over=["inputs", "histories"], why="Each figure is a sum over one part of the block; a wrong set, unit or rounding shows only for particular combinations.",
      files=["transition/src/state/statistics.rs", "state/src/types/statistics.rs"],
      mech=[("validators", "transition_onchain_statistics, EpochValidatorStats"), ("cores", "core statistics"), ("services", "service statistics")],
      note="Counts below 2^31; 16-bit core sums that would overflow are outside."),
 dict(id="T14", title="Historical lookup gives data exactly in the times it was available",
      statement="Looking a preimage up for a service and slot gives the data exactly if the service holds it and its record says it was available then: from the first slot until the second, and again from the third. The code run for a service is the one found that way; data that is not service code counts as missing.",
      q="any record of up to three slots of any value and order, data held or not, any lookup slot, code or not", over=["inputs", "histories"], why="The intervals are half-open and nested; auditors must reach the same answer at every slot.",
      files=["state/src/manager.rs", "state/src/types/services.rs", "pvm/pvm-host/src/context/partial_state.rs"],
      mech=[("lookup", "StateManager::lookup_historical_preimage"), ("code", "StateManager::get_account_code_by_lookup")],
      note="One service, one blob."),
 dict(id="H01", title="Storage and preimage host calls keep the account's books and stay in its memory",
      statement="READ, WRITE, LOOKUP, INFO, QUERY, SOLICIT, FORGET and PROVIDE return the specified code, data and gas charge for every argument, and change only the entry addressed. The items and octets counted always match what is held; a call that would leave the balance below the threshold changes nothing. Memory is accessed only where the program may, and a bad range is a panic.",
      q="sequences of two calls (thorough: three), any balance from the threshold, every record of the blob, all figures, ranges and registers of eight calls", over=["inputs", "histories", "programs"], why="Programs choose all arguments; a footprint wrong by one item lets a service store data without paying, and forks the chain.",
      files=["pvm/pvm-host/src/host_functions/general/mod.rs", "pvm/pvm-host/src/host_functions/accumulate/mod.rs", "pvm/pvm-host/src/context/partial_state.rs", "pvm/pvm-host/src/context/mod.rs", "pvm/pvm-core/src/state/memory.rs"],
      mech=[("storage", "host_read / host_write / host_lookup / host_info"), ("preimages", "host_query / host_solicit / host_forget / host_provide"), ("footprints", "AccountsSandboxMap, AccountMetadata::update_footprints")],
      note="Two keys, one blob, values of up to three octets; slots below 2^31."),
 dict(id="H02", title="Account host calls create, fund and remove services by the rules",
      statement="NEW, UPGRADE, TRANSFER and EJECT return the specified code and gas for every argument. NEW creates exactly one account with the specified fields and code request under the specified number, TRANSFER and EJECT move exactly the balance given, and no call takes the caller below its threshold or changes anything when it fails.",
      q="any balance, threshold, gas limits, memo, service numbers, slot records and registers of four calls, for managers, registrars and ordinary services", over=["inputs", "histories", "programs"], why="The rules are ordered conjunctions over registers, memory, two accounts and privileges; money is created or lost by one wrong order or comparison.",
      files=["pvm/pvm-host/src/host_functions/accumulate/mod.rs", "pvm/pvm-host/src/context/mod.rs", "pvm/pvm-host/src/context/partial_state.rs", "state/src/types/services.rs"],
      mech=[("new / upgrade", "host_new / host_upgrade"), ("transfer", "host_transfer"), ("eject", "host_eject"), ("sandbox", "AccumulateHostContext, AccountsSandboxMap")],
      note="Few accounts; service numbers from representative ones. Gas counter of exactly 2^63-1 before TRANSFER is assumed away."),
 dict(id="H03", title="Privileged host calls obey only the privilege holder",
      statement="BLESS sets the roles given in the caller's own view alone; ASSIGN and DESIGNATE take effect only for the holder of the privilege in that view. They set exactly the queues and keys given, and fail without effect on a bad range, core or service number. CHECKPOINT keeps everything so far, and GAS and FETCH deliver exactly the specified figures and data in every range.",
      q="any caller and holders, all role numbers, queues and key octets, two cores, any gas, all fetch kinds, offsets and lengths", over=["inputs", "histories", "programs"], why="A privilege taken by the wrong service is a takeover of the chain; each call has its own order of failures.",
      files=["pvm/pvm-host/src/host_functions/accumulate/mod.rs", "pvm/pvm-host/src/host_functions/general/mod.rs", "pvm/pvm-host/src/context/mod.rs", "pvm/pvm-host/src/context/partial_state.rs", "pvm/pvm-types/src/invoke_args.rs"],
      mech=[("privileges", "host_bless / host_assign / host_designate"), ("checkpoint", "host_checkpoint"), ("data", "host_gas / host_fetch")],
      note="FETCH in accumulation. Two always-accumulating services, two inputs."),
 dict(id="H04", title="Inner machines of refinement are isolated and exact",
      statement="MACHINE, PEEK, POKE, PAGES, INVOKE and EXPUNGE act on the named inner machine alone: its memory, pages, counter and exit are those of its own program under the given gas and registers, and the id is the smallest free one. EXPORT appends zero-padded segments up to the limit, historical lookup answers from what was available at the lookup anchor, and FETCH serves exactly the package, its trace and the imports. Every failure has its specified code and no other effect.",
      q="any machine numbers, addresses, lengths, page ranges, modes, gas and registers; programs calling, jumping, loading and storing; all fetch kinds and offsets", over=["inputs", "histories", "programs"], why="Refinement is where untrusted code computes; every core's guarantors and auditors must get the same result from it.",
      files=["pvm/pvm-host/src/host_functions/refine/mod.rs", "pvm/pvm-host/src/host_functions/general/mod.rs", "pvm/pvm-host/src/context/mod.rs", "pvm/pvm-host/src/inner_vm.rs"],
      mech=[("inner machines", "host_machine / host_peek / host_poke / host_pages / host_invoke / host_expunge"), ("segments", "host_export"), ("lookup", "host_historical_lookup"), ("data", "host_fetch")],
      note="Inner programs of a few instructions; up to three machines at once. FETCH kind 11 is left out: an existing unit test fixes an encoding the protocol does not have."),
 dict(id="P07", title="Standard program invocation: layout, calls, results",
      statement="A standard program runs over exactly the specified memory layout and registers; its host calls are served, charged and resumed in order; and the result is its output, a panic or out-of-gas with the gas used. A malformed program is a panic, never a crash, and refinement and authorization hand the program its arguments and classify its result as specified.",
      q="any octets in data, arguments, storage and registers, any gas below 2^63; sizes on both sides of page and zone edges; unknown calls; missing, malformed and oversized code", over=["inputs", "programs", "configurations"], why="This is the boundary through which all service code runs; an octet off in layout or gas changes every result.",
      files=["pvm/pvm-interface/src/invoke.rs", "pvm/pvm-interface/src/pvm.rs", "pvm/pvm-core/src/program/loader.rs", "pvm/pvm-core/src/state/memory.rs", "pvm/pvm-core/src/interpreter/mod.rs", "pvm/pvm-invocation/src/refine/mod.rs", "pvm/pvm-invocation/src/is_authorized/mod.rs"],
      mech=[("program loading", "ProgramLoader::load_standard_program / Memory::new"), ("calls", "PVMInterface::invoke_with_args / dispatch"), ("entry points", "RefineInvocation::refine / IsAuthorizedInvocation::is_authorized")],
      note="Programs of up to a dozen instructions."),
 dict(id="A01", title="Accumulation runs the specified rounds, and its results merge by rule",
      statement="A block's reports accumulate in rounds: each takes the longest run of reports whose gas limits fit the gas left, runs every service concerned once on its work, transfers and granted gas, and adds transfers' gas less the gas used. Balances move only as services ask; accounts made, paid, provided for and ejected in one round are as if all had run side by side. Privileges, queues and the staged validators change only as the manager or the holder had at the round's start decides.",
      q="any gas limits, grants, transfer amounts and gas, role numbers; reports and transfers over services that run, panic, have no code or do not exist; ejections, new accounts and provided blobs in the same or later rounds", over=["inputs", "histories", "programs"], why="Every node must compute the same state from a block's reports; money, privileges and gas are at stake where several services act at once.",
      files=["pvm/pvm-invocation/src/accumulate/pipeline.rs", "pvm/pvm-invocation/src/accumulate/mod.rs", "pvm/pvm-host/src/context/partial_state.rs", "pvm/pvm-host/src/context/mod.rs", "transition/src/state/services.rs"],
      mech=[("rounds", "accumulate_outer / accumulate_parallel"), ("merging", "AccumulatePartialState, AccountsSandboxMap, add_provided_preimages"), ("commit", "transition_on_accumulate / transition_services_last_accumulate_at")],
      note="Three reports, three services, up to three rounds; short programs. Creating an account under a number freed in the same block is outside."),
 dict(id="A02", title="A service's accumulation takes effect wholly, to its checkpoint, or not",
      statement="A program that halts has all its effects; one that panics, faults or runs out of gas at any point has those up to its last checkpoint, or none, and the transfers made to it are credited in any case. Its yield is its 32-octet result, else what it yielded. A service whose code is absent, malformed or too large is credited, uses no gas and does nothing.",
      q="any gas, so that it runs out at every instruction; any amounts; with and without a checkpoint; five endings; seven kinds of bad code", over=["inputs", "crash_points", "programs"], why="Half-applied effects create or destroy money, and tests cannot stop a program at every point.",
      files=["pvm/pvm-invocation/src/accumulate/mod.rs", "pvm/pvm-invocation/src/accumulate/pipeline.rs", "pvm/pvm-host/src/context/mod.rs", "pvm/pvm-interface/src/invoke.rs"],
      mech=[("endings", "AccumulateInvocation::accumulate"), ("checkpoints", "AccumulateHostContextPair, host_checkpoint"), ("results", "PVMInterface::invoke_with_args")],
      note="Programs of some forty instructions; gas below 65536."),
 dict(id="C08", title="Blocks and their parts have one exact wire form",
      statement="Every header, extrinsic entry, work report, digest, package and block encodes to exactly the octets the specification gives for its fields, of the length announced, and decodes from them to the same value with nothing left. An unknown kind or a malformed part is refused. The hashes that name headers, extrinsics, packages and reports are those of these octets.",
      q="any field values; every optional part present or not; one number at a time over its whole variable-length range; 0 to 2 elements in each sequence", over=["inputs"], why="Every hash and signature of the protocol is over these octets; a field in the wrong order or width forks the node only where that field is unusual.",
      files=["block/src/types/block.rs", "block/src/types/extrinsics/", "common/src/types/workloads/work_report.rs", "common/src/types/workloads/work_package.rs", "codec/fr-codec/src/"],
      mech=[("header", "BlockHeader / BlockHeaderData"), ("extrinsics", "Extrinsics and entries: encode_to, decode, size_hint"), ("work", "WorkReport, WorkDigest, WorkPackage"), ("hashes", "Extrinsics::hash, BlockHeader::hash")],
      note="Tiny parameters, but one entry for 341 cores. Hashes run on concrete octets."),
 dict(id="S03", title="Every state component is stored under its key in its exact form",
      statement="Each component of the state is stored under the state key the specification gives it, as exactly the octets the specification gives for its value, and reading them back gives the same value. Service accounts, storage, preimages and requests get the interleaved keys of their service and hash. Stored octets that are no valid value are refused and never crash the node.",
      q="any field values in all sixteen components; one number at a time over its whole variable-length range; 0 to 2 elements in variable parts; any six octets as a stored request", over=["inputs", "configurations"], why="The state root commits to these octets; any node's disagreement in one octet of one component makes it reject the chain.",
      files=["state/src/types/", "state/src/state_utils.rs", "codec/fr-codec/src/"],
      mech=[("components", "JamEncode / JamDecode of the state types"), ("keys", "get_simple_state_key, get_account_metadata_state_key, get_account_storage_state_key, get_account_preimage_state_key, get_account_lookups_state_key")],
      note="Tiny parameters. State keys are computed from concrete hashes."),
]
NA = [
 dict(prop=dict(id="R01", title="Work reports are computed from packages as specified",
      statement="For every work package, refinement of its items in order, with their imported segments and exports, gives the specified work report: digests, gas used, exported segment root, and the erasure root of the auditable bundle and the exported segments with their proofs.",
      q="all packages, imports and refinement results", over=["inputs", "programs"], why="Guarantors and auditors must compute identical reports for any package.",
      files=["pvm/pvm-invocation/src/refine/pipeline.rs", "pvm/pvm-invocation/src/refine/avail_spec.rs", "pvm/pvm-invocation/src/refine/auditable_bundle.rs"],
      mech=[("report", "compute_work_report"), ("availability", "build_avail_specs")]),
      reason="The code is unfinished: every path of compute_work_report ends in unimplemented!(), so nothing of the report can be decided; the erasure root goes through Reed-Solomon coding in an external crate (finite-field transforms over whole bundles), beyond what a solver over the compiled code reaches. Its parts that do exist are decided elsewhere: refinement calls (H04), invocation (P07), Merkle roots and proofs (C06, C07), encodings (C08)."),
 dict(prop=dict(id="K01", title="Signatures and VRF proofs cannot be forged or reused",
      statement="Ed25519 signatures, Bandersnatch signatures and ring proofs verify exactly for the key or ring, context and message they were made for, and VRF outputs are unique and unpredictable.",
      q="all keys, contexts and messages", over=["inputs"], why="Cryptographic claims are about all adversaries.",
      files=["crypto/src/vrf", "crypto/src/signers"],
      mech=[("ring VRF", "crypto/src/vrf"), ("signatures", "crypto/src/signers")]),
      reason="Elliptic-curve and pairing arithmetic over 255- to 381-bit fields in external crates cannot be bit-blasted, and unforgeability is no property of single runs. The checks take ideal primitives as their environment and decide how the node uses them: which key, context and message at every place (T03-T10, N01)."),
 dict(prop=dict(id="W01", title="Nodes exchange blocks over the network and converge",
      statement="Connected nodes announce, request and deliver blocks such that every valid block announced by one reaches all, whatever the order, loss of connections or misbehaving peers.",
      q="all schedules, connection losses and peers", over=["schedules", "fault_sequences"], why="Interleavings and faults of several nodes cannot be enumerated by tests.",
      files=["network/src/manager.rs", "network/src/streams", "node/src/roles"],
      mech=[("streams", "network/src/streams"), ("roles", "node/src/roles")]),
      reason="The code is QUIC sessions (quinn, rustls) driven by a multi-threaded tokio runtime against sockets and timers; the streams take quinn's own types, so there is no seam at which to put a model without rewriting the code under test. Decoding of what arrives (C08) and the import of blocks in any order (N01) are decided."),
]
