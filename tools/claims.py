NOT_APPLICABLE = {}

c(
    "C01",
    "model_checking",
    "deviation-bounded exhaustive schedule exploration of real threads (bytecode granularity) and asyncio tasks",
    "All schedules with up to 2 deviations for 2 users and selected 3-user mixes, 1 for the rest; thorough goes one deeper. Monitors exclusion, queue order, deadlock, and idle state on the real guards.",
)
c(
    "C02",
    "model_checking",
    "exhaustive placement of exceptions, cancellations and reuse over deviation-bounded thread and task schedules",
    "A cancellation is delivered at every suspension point of every victim; afterwards a probe user has to run and the shared state has to be empty.",
)
c(
    "C03",
    "model_checking",
    "deviation-bounded exhaustive schedule exploration of managed guards over one and two targets",
    "Real threads at bytecode granularity and asyncio tasks; monitors exclusion per target, absence of waiting across targets, and an empty table at the end.",
)
c(
    "C04",
    "model_checking",
    "exhaustive schedule exploration and operation sequences of salt files against a linearizable register model",
    "Runs as an unprivileged user on scratch files, so that permission bits are effective; every executor completion is a scheduling point.",
)
c(
    "C05",
    "exploration",
    "full product of lengths, byte patterns, configurations and interfaces, identity oracle",
    "Every length over several padding frames for the stock configurations and shorter ranges for over a hundred custom ones.",
)
c(
    "C06",
    "fault_enumeration",
    "full enumeration of single alterations, truncations, splices and context changes on real ciphertexts",
    "Every bit of every byte of messages up to several blocks, every truncation and block rearrangement; every alteration must raise and positive controls must pass.",
)
c(
    "C07",
    "model_checking",
    "all message compositions and all block offer sequences to a depth against a reference receiver",
    "Every composition of messages into chunks with every consumption point, and all sequences of genuine, replayed, altered and foreign blocks.",
)
c(
    "C08",
    "model_checking",
    "deviation-bounded exhaustive schedule exploration of concurrent stream calls",
    "Two or three feeders and finishers with one consumer, threads and tasks; the result has to decrypt to the concatenation in queue order.",
)
c(
    "C09",
    "model_checking",
    "all call sequences to a depth against a protocol state machine; all batches of encryptions with parts of the randomness frozen",
    "Every sequence of 6 calls over one-time key material and authentication objects; every batch of 3 encryptions is pairwise compared for shared key stream.",
)
c(
    "C10",
    "exploration",
    "full product of clock positions around every boundary, limits, units and interfaces against integer arithmetic",
    "Every second within several ticks of creation and expiry for all units, ciphers, formats, stream read histories, databases and password hashes.",
)
c(
    "C11",
    "model_checking",
    "all call histories to a depth in every mixture of synchronous and asynchronous forms, compared step by step",
    "Function products including invalid inputs, objects in all mixtures of forms, streams, files, databases handed over between forms; randomness and clocks stand still so that even written files must be equal byte for byte.",
)
c(
    "C12",
    "model_checking",
    "all operation histories to a depth, and deeper ones merged on model states, replayed on real databases against a reference model",
    "After every history the live object, a freshly reopened one and the files on disk are compared with the model; values, names and neighbouring databases are full products.",
)
c(
    "C13",
    "fault_enumeration",
    "every file-system call of every scenario as failure point, every cut of every write, pairs of failures, and schedules of failing saves",
    "Failures are injected below the library (audit events, file size limit); judged after reopening in both forms and after saving again from memory.",
)
c(
    "C14",
    "fault_enumeration",
    "full enumeration of alterations, replacements and exchanges of every file, of neighbouring keys, and of clear-text shapes",
    "Every file of a small nested database against every other genuine file and every byte alteration; everything depending on it has to fail, everything else has to read as before.",
)
c(
    "C15",
    "model_checking",
    "all profile life cycles to a depth against a model, all single changes of credentials and costs, all pairs side by side",
    "Each history reopens profiles from credentials only; deletion is judged by the files left and by the next generation being empty.",
)
c(
    "C16",
    "exploration",
    "full enumeration of small item tuples, block sizes, pads, keys and sizes with all pairs compared through one table",
    "Alphabets include the length and count bytes themselves; both forms; every one-byte change, truncation and extension of small encodings is decoded and compared with an independent reader.",
)
c(
    "C17",
    "model_checking",
    "all construct/update/copy/derive histories to a depth, replayed on the real objects and compared in one table of all outputs",
    "Equal histories must agree and different ones differ in their first bytes, for all algorithms, sizes and both forms; choices and phrases are full products of their inputs.",
)
c(
    "C18",
    "model_checking",
    "whole one- and two-byte domains for enumerated keys and all state-advancing histories to a depth on a pair of real objects",
    "All sizes with edge values and with keys constructed to leave the domain several times; sequence identifiers over the whole range; structured identifiers over products of their fields.",
)
c(
    "C19",
    "model_checking",
    "all bounded interleavings of threads (bytecode granularity) and tasks sharing a generator, with frozen, stepping and turned back clocks and constant randomness",
    "Uniqueness is monitored in every schedule; counter ranges, node names and time orders are full enumerations. Assumes that single bytecodes and iterator steps are atomic.",
)
c(
    "C20",
    "fault_enumeration",
    "full products of costs and allowed ranges with a pool that records work, and all alterations of hashes and inputs",
    "Refusals have to come before any work is submitted; all settings of a small box are hashed for real, in both forms, and all results compared.",
)
c(
    "C21",
    "model_checking",
    "exhaustive substitution of every transmitted value by every other one of the run, all orders of session calls and all bounded task interleavings on the real exchange",
    "Every value of two identities, their sessions and an outsider is offered in every place; keys and transcripts have to correspond one to one.",
)
c(
    "C22",
    "model_checking",
    "full enumeration of single alterations of messages, signatures, summaries and files, and all bounded histories of signing, saving and loading",
    "Single and paired field alterations and all histories within the stated depth; forgery by computation is out of scope.",
)
c(
    "C23",
    "model_checking",
    "explicit-state search of all histories of container operations against a dictionary model, to a fixed point of the model's states",
    "Classes of all families are derived in the check; direct access to instance dictionaries and reassigning of classes are unsupported by the package and not claimed.",
)

c(
    "C24",
    "exploration",
    "full product of values, bases, lengths and sizes over every codec and batching helper, with identity and reference oracles",
    "Every number and byte string of bounded size in every base and form, every length and batch size to a bound, all short histories of file writes.",
)
c(
    "C25",
    "model_checking",
    "enumeration of all completion orders and failing subsets of real threads and processes, gated one by one, and of all finish and ask orders on a controlled pool",
    "Up to 3 jobs per batch on real pools and 3 on a pool which does as told; result sizes around the pipe's buffer; broken pools.",
)
c(
    "C26",
    "model_checking",
    "deviation-bounded exhaustive schedule exploration of draws in threads and tasks, and all histories of draws and forks, with constant system randomness and clocks",
    "Up to 3 deviations for 2 threads, 2 for 3; all draw histories to depth 4 and fork histories to 4 steps; restarts of a scratch copy of the package.",
)

c(
    "C27",
    "model_checking",
    "deviation-bounded exhaustive schedule exploration of database operations of 2-3 tasks, with every file-system completion a scheduling point, each history checked for an explaining order against the reference model",
    "All pairs of 13 operations on one entry from 3 initial states, 13 x 8 on different entries, sequences of 2-3 operations and 3 tasks with 1 deviation from run-until-waiting (and from taking turns), selected ones with 2.",
)
c(
    "C28",
    "model_checking",
    "exhaustive deviation-bounded interleaving of the file operations of real, gated processes, with a kill before each operation, against a register model",
    "Processes run unprivileged in a scratch directory and stop before every file operation; up to 3 deviations for 2 processes, 2 for 3, 1 for whole starts of the package.",
)
