import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw))
    P.append(d)

p("C01","Guarded sections: exclusion, arrival order and progress",
"Contexts sharing one guard state never run while an exclusive context on that state is running, non-exclusive contexts may overlap only with each other, and whenever at least one of two contexts is exclusive they take their turns in the order they queued, whether that order was automatic or arranged manually by the caller. Every context that was queued eventually runs once those ahead of it finish, so no set of well-behaved users deadlocks. When all users have left, the shared state is empty again.",
["schedules","programs"],"every interleaving of a bounded set of threads and async tasks mixing exclusive, non-exclusive and manually queued guards",
"The tests run a handful of wall-clock interleavings with sleeps; the guard is lock-free over shared deques, so a wrong order of two deque operations shows only in a particular preemption.",
["aiootp/asynchs/guards/concurrency_guard.py","aiootp/asynchs/guards/policies.py","aiootp/asynchs/guards/state_machine.py"],
[("queue/observers deque protocol","aiootp/asynchs/guards/policies.py ExclusivePolicy, NonExclusivePolicy"),("probe loop","aiootp/asynchs/guards/concurrency_guard.py __enter__/__aenter__")],
state=[dict(name="queue",meaning="order of contexts",where="DequePair.queue"),dict(name="observers",meaning="running non-exclusive on the left, exclusive tokens on the right",where="DequePair.observers")],
observe_at=["entry and exit of the guarded block","guard state queries","contents of the shared pair when idle"],hook_needed=None)

p("C02","Guards recover from failing, cancelled and misused users",
"A guarded block that raises propagates its exception and releases its turn; a guard object is usable once, and a second use, sequential or concurrent, is refused without disturbing anybody else. A task cancelled while it waits for, enters or leaves a guarded block leaves no trace that blocks or corrupts later users. After any such faults the remaining and later users still run, in order and exclusively, and the shared state returns to empty.",
["schedules","fault_sequences"],"every placement of exceptions, cancellations and reuses of guard objects at every suspension point of a bounded set of users, under every bounded interleaving",
"Tests inject a few fixed faults with one or two users; they never cancel waiters at each suspension point and then check that the next user can still run.",
["aiootp/asynchs/guards/concurrency_guard.py","aiootp/asynchs/guards/policies.py","aiootp/asynchs/guards/state_machine.py","aiootp/asynchs/guards/manager.py"],
[("single-use state machine","aiootp/asynchs/guards/state_machine.py"),("exit protocol","aiootp/asynchs/guards/concurrency_guard.py __exit__/__aexit__"),("reference cleanup","aiootp/asynchs/guards/manager.py")],
observe_at=["exceptions seen by each user","whether later users run","contents of shared state when idle"],hook_needed=None)

p("C03","Per-target guard manager: isolation, exclusion and cleanup",
"Guards obtained for the same target exclude and order each other exactly as guards sharing one state do, while guards for different targets never delay each other. The manager holds state for a target exactly while some guard is using it, and dropping a target's state never separates two simultaneous users of the same target.",
["schedules","programs"],"every bounded interleaving of threads and tasks entering and leaving exclusive and monitoring guards on one and two targets, including repeated creation and removal of a target",
"The create/lookup/remove race on the target table only shows when one user leaves in the instants while another arrives; tests do not control that.",
["aiootp/asynchs/guards/manager.py"],
[("users deque under resource lock","aiootp/asynchs/guards/manager.py MultiConcurrencyGaurd"),("managed enter/exit","aiootp/asynchs/guards/manager.py ManagedConcurrecyGuard")],
observe_at=["entry and exit of managed blocks","the manager's target table"],hook_needed=None)

p("C04","Salt files stay whole and locked down under concurrent use",
"Concurrent creation, reading, updating and deletion of a salt file behaves as if the operations ran one at a time: a reader sees a complete salt that some writer installed (or a clear absence), never a partial or foreign one, and no operation fails or hangs only because another one was in progress. Requesting a salt at a path that does not yet exist creates it once and every requester gets that same salt. Whenever nobody is using it, the file's permission bits deny all access, also after operations which failed or were cancelled.",
["schedules","histories"],"every bounded interleaving of synchronous and asynchronous salt operations on one file, every point at which a task is cancelled, and every failing file-system call",
"Tests run the operations one after another, and normally as root, where permission bits do not bite; racing first use and the chmod window are never exercised.",
["aiootp/_paths.py","aiootp/asynchs/aos.py"],
[("per-path guards and chmod window","aiootp/_paths.py read/make/update/delete salt file"),("create on first use","aiootp/_paths.py SecureSaltPath, AsyncSecureSaltPath")],
observe_at=["returned salts and exceptions","file mode and contents at rest"],hook_needed=None)

p("C05","Every plaintext decrypts to itself, in every format and configuration",
"For every key, salt, associated data and plaintext of any length, what any cipher produces, as raw bytes, JSON, URL-safe token or stream and in any supported configuration, decrypts with the same inputs to exactly the original plaintext. The same ciphertext is accepted by the synchronous and the asynchronous interface and by one-shot and stream decryption, with sizes always a header plus a whole number of blocks and a salt chosen by the caller attached as given.",
["inputs","configurations"],"every plaintext length over several padding frames and every plaintext byte pattern class, for all cipher types, interfaces and enumerated custom configurations",
"Padding, block splitting and sentinel logic depend on length modulo block sizes and on configuration constants; tests use a few lengths and the two shipped configurations.",
["aiootp/ciphers/padding.py","aiootp/ciphers/cipher_interface.py","aiootp/ciphers/dual_output_shake_cipher.py","aiootp/ciphers/shake_permute_cipher.py","aiootp/ciphers/ciphertext_formatting.py","aiootp/ciphers/cipher_streams.py","aiootp/ciphers/decipher_streams.py"],
[("padding frame and sentinel","aiootp/ciphers/padding.py"),("key stream junction","aiootp/ciphers/dual_output_shake_cipher.py, shake_permute_cipher.py"),("ciphertext layout","aiootp/ciphers/ciphertext_formatting.py")],
observe_at=["plaintext returned","ciphertext length"],hook_needed=None)

p("C06","No altered or misattributed ciphertext is ever accepted",
"Decryption succeeds only for a ciphertext exactly as produced, with the same key, salt, initialization value and associated data: any change, truncation, extension, reordering or splice of its bytes, or any difference in key or associated data, raises and yields no plaintext. This holds for one-shot, token, JSON and stream decryption, and authentication covers the whole message before any of it is returned by one-shot decryption.",
["inputs","fault_sequences"],"every bit flip at every byte, every truncation and extension, every block permutation, duplication, deletion or cross-message splice, and every single-component change of context, for messages of up to several blocks",
"Tests flip a few bytes; missing coverage of one header field, one block position or one argument in the authentication leaves all of them passing.",
["aiootp/ciphers/stream_hmac.py","aiootp/ciphers/cipher_kdfs.py","aiootp/ciphers/key_bundle.py","aiootp/ciphers/cipher_interface.py","aiootp/ciphers/synthetic_iv.py","aiootp/ciphers/ciphertext_formatting.py"],
[("block-wise MAC and final tag","aiootp/ciphers/stream_hmac.py"),("key derivation over key, salt, iv, aad","aiootp/ciphers/cipher_kdfs.py, key_bundle.py")],
observe_at=["exception or plaintext of each decryption"],hook_needed=None)

p("C07","Message streams: any chunking in, the exact bytes out, in order or not at all",
"However a message is cut into buffered pieces, the stream yields blocks which a receiving stream, fed in order, turns back into exactly the message, and both sides agree on the final tag. A block that is replayed, reordered, altered or foreign is refused at once without disturbing the receiver, which then still accepts the genuine next block and finishes correctly. A finished stream accepts nothing more, and an incomplete or truncated one cannot be completed as valid; while a stream runs, only a bounded number of its last blocks is held back. Streams used side by side, in turns or by tasks which interrupt each other, have no effect on one another.",
["histories","inputs","fault_sequences"],"every composition of short messages into chunks with every interleaving of buffering and consuming, and every sequence of genuine and bad blocks up to the depth bound",
"Tests buffer in one or two fixed patterns; buffer boundaries, empty pieces, and recovery after rejected blocks form a large space of histories.",
["aiootp/ciphers/cipher_streams.py","aiootp/ciphers/decipher_streams.py","aiootp/ciphers/cipher_stream_properties.py","aiootp/ciphers/stream_junction.py","aiootp/ciphers/stream_hmac.py","aiootp/ciphers/padding.py"],
[("buffering and finalization","aiootp/ciphers/cipher_streams.py, decipher_streams.py"),("block ids","aiootp/ciphers/stream_hmac.py")],
observe_at=["yielded blocks and plaintext","exceptions","stream state afterwards"],hook_needed=None)

p("C08","Concurrent users of one message stream cannot corrupt it",
"When several threads or tasks feed and finish the same stream while one of them consumes it, buffered pieces are taken whole and in the order their calls were queued, the result decrypts to their concatenation, and finishing never loses a piece whose buffering had been accepted. A call that comes too late is refused explicitly rather than silently dropped, and nobody hangs.",
["schedules"],"every bounded interleaving of two or three concurrent buffer, iterate and finalize calls on encrypting and decrypting streams, synchronous and asynchronous",
"Only specific preemptions inside a buffering call reorder or lose data; tests do not control scheduling.",
["aiootp/ciphers/cipher_streams.py","aiootp/ciphers/decipher_streams.py","aiootp/ciphers/cipher_stream_properties.py"],
[("digesting and finalizing guards","aiootp/ciphers/cipher_stream_properties.py"),("buffer loops","aiootp/ciphers/cipher_streams.py, decipher_streams.py")],
observe_at=["decrypted bytes","accepted and refused calls"],hook_needed=None)

p("C09","No encryption context is ever used twice",
"Two encryptions never share a key stream: repeated encryption of equal or different messages with the same key, salt and associated data always yields unrelated ciphertexts, callers cannot choose the initialization value when encrypting, and one-time key material objects refuse every second or out-of-order use. Validation objects only give results in their proper protocol order: no tag before finalization, no second finalization, no use for encrypting and decrypting at once.",
["histories","inputs"],"every call sequence up to the depth bound over the one-time key material and authentication objects, and every pair of encryptions in bounded batches where any one of the initialization value, the inner key or the clock may stand still",
"Misuse resistance is a statement about all call histories; tests check a few illegal calls each from the fresh state.",
["aiootp/ciphers/key_bundle.py","aiootp/ciphers/stream_hmac.py","aiootp/ciphers/synthetic_iv.py","aiootp/ciphers/cipher_interface.py","aiootp/ciphers/padding.py"],
[("one-time bundle registers","aiootp/ciphers/key_bundle.py"),("mode and finalization state","aiootp/ciphers/stream_hmac.py"),("synthetic initialization value","aiootp/ciphers/synthetic_iv.py")],
observe_at=["ciphertexts","exceptions of illegal calls"],hook_needed=None)

p("C10","Expiry is exact everywhere a time-to-live is accepted",
"A timestamped object is accepted with a time-to-live exactly while its age does not exceed it, is rejected with the right amount of overshoot from the next tick on, and never expires when no limit is given; this is the same for one-shot ciphertexts, streams, tokens, password hashes, database entries and raw clocks in every time unit. An expired or unexpired verdict never changes what is authenticated or returned otherwise.",
["inputs","configurations"],"every combination of creation time, limit and read time on a controlled clock around every boundary, for every interface and time unit",
"Tests must use the real clock with sleeps, so they probe only far from the boundary and only a few of the interfaces.",
["aiootp/asynchs/clocks.py","aiootp/ciphers/padding.py","aiootp/ciphers/cipher_interface.py","aiootp/ciphers/decipher_streams.py","aiootp/keygens/passcrypt/interface.py","aiootp/databases/sync_database.py","aiootp/databases/async_database.py"],
[("timestamp test","aiootp/asynchs/clocks.py"),("inner header timestamp","aiootp/ciphers/padding.py")],
observe_at=["value or expiry error with overshoot"],hook_needed=None)

p("C11","Synchronous and asynchronous interfaces are interchangeable",
"Every operation offered in both a synchronous and an asynchronous form gives the same result, the same effect and the same kind of failure for the same inputs and history, and objects driven by a mixture of both forms end in the same state. Whatever one form writes or produces, the other reads, and asynchronous calls which interleave in one event loop each give what they give alone.",
["histories","inputs"],"every mixture of synchronous and asynchronous forms along every bounded call sequence of the deterministic components and the storage components",
"The two forms are separate copies of the code; tests exercise each copy on its own and rarely feed one with the other's output at each step.",
["aiootp/ciphers","aiootp/databases","aiootp/generics","aiootp/keygens","aiootp/_permutations","aiootp/randoms","aiootp/_paths.py","aiootp/_gentools.py"],
[("paired implementations","all modules with a-prefixed twins")],
observe_at=["results, exceptions and stored files of both forms"],hook_needed=None)

p("C12","A database behaves like a mapping with explicit save and rollback",
"For every sequence of setting, reading, popping, rolling back, saving, cache clearing, sub-database use, deletion and reopening, each read returns exactly the value (with its type) most recently set or, after rollback or reopening, most recently saved; unsaved changes vanish on reopening and saved ones persist. Entries and sub-databases with different names never affect each other, and deleted data is gone from memory and disk.",
["histories","inputs"],"every operation sequence up to the depth bound over two entries, bytes and JSON values, one sub-database and reopening, synchronous and asynchronous, against a reference model",
"Cache, manifest and files are three copies that must agree after any history; tests follow a few scripted histories.",
["aiootp/databases/sync_database.py","aiootp/databases/async_database.py","aiootp/databases/database_properties.py"],
[("cache, manifest and file layers","aiootp/databases/sync_database.py, async_database.py")],
state=[dict(name="cache",meaning="values in memory",where="Database._cache"),dict(name="manifest",meaning="ledger of names",where="Database._manifest")],
observe_at=["values read","files in the database directory"],hook_needed=None)

p("C13","A crash or I/O failure during a database write never yields wrong data",
"If saving or deleting stops at any point, with the last file write complete, partial or absent, then after reopening every entry either reads as one complete value it had before or was being given, or fails explicitly; it never reads as a mixture, as another entry's value or as fabricated data, and a database is never taken for an empty or another one. Entries keep their values when neither their own file nor an index of the database was being written, and once writing is possible again, the database can be repaired by saving it again from memory.",
["crash_points","fault_sequences"],"every file-system call of bounded save, set, pop and delete histories as the failure point, with every truncation class of the data being written",
"Crash points are invisible to unit tests, which only see completed operations.",
["aiootp/databases/sync_database.py","aiootp/databases/async_database.py","aiootp/generics/byte_io.py"],
[("save order manifest, sub-databases, entries","aiootp/databases/sync_database.py save_database"),("file writing","aiootp/generics/byte_io.py")],
observe_at=["values or errors after reopening"],hook_needed=None)

p("C14","Database files reveal and accept nothing without the key",
"Nothing stored on disk contains entry names, sub-database names, values or keys in the clear, and file names and contents cannot be linked to them without the key. Any alteration of a database file, including replacing it with a genuine file of another entry, another database or the empty file, is detected when read, and a database opened with any other key or secret path salt does not disclose or accept the data.",
["inputs","fault_sequences"],"every bit flip per byte, truncation and cross-replacement of every file of small databases, and every single change of key, over sync and async readers",
"Tests corrupt one file in one way; binding of each file to its name, its database and its key is a for-all statement over files.",
["aiootp/databases/dbkdf.py","aiootp/databases/dbdomains.py","aiootp/databases/sync_database.py","aiootp/databases/async_database.py"],
[("per-file keys and associated data","aiootp/databases/dbkdf.py, sync_database.py"),("hashed file names","aiootp/databases/sync_database.py filename")],
observe_at=["bytes on disk","exceptions or values on reading"],hook_needed=None)

p("C15","A profile opens only with exactly its own credentials and is fully deletable",
"Generating a profile's access material twice with the same credentials and cost settings gives access to the same saved database, and changing any single credential or cost setting never does. Deleting a profile removes its stored salt and its data, after which the same credentials produce a fresh, empty profile.",
["histories","inputs"],"every sequence of create, save, load, delete up to the depth bound, times every single change of each credential field, synchronous and asynchronous",
"Tests vary one or two fields once; dropping one credential from the derivation passes them.",
["aiootp/databases/sync_database.py","aiootp/databases/async_database.py","aiootp/databases/profile_tokens.py","aiootp/_paths.py"],
[("profile token derivation","aiootp/databases/sync_database.py generate_profile"),("profile salt file","aiootp/_paths.py")],
observe_at=["values read through the profile","files below the profile path"],hook_needed=None)

p("C16","Canonical encoding and hashing never confuse two different inputs",
"Two different sequences of byte items, block sizes or pads never encode to the same bytes, and decoding an encoding gives back exactly the original sequence. Consequently hashes, keys and domains built on it depend on every item, on the item boundaries and on their order.",
["inputs"],"every tuple of items over a small alphabet up to bounded count and length, for every block size in range",
"Injectivity is a statement about all pairs; tests compare a few examples.",
["aiootp/generics/canon.py","aiootp/generics/hashing.py","aiootp/generics/domains.py"],
[("length-prefixed packing","aiootp/generics/canon.py"),("keyed hashing over packing","aiootp/generics/hashing.py")],
observe_at=["encoded bytes, decoded tuples, digests"],hook_needed=None)

p("C17","Key derivation is deterministic, fully separated and copy-safe",
"The derived key depends on the domain, the key, the initial data, the whole ordered list of updates, the per-call data, the algorithm and the requested size, and on nothing else: equal histories give equal keys and any two histories that differ in one of these give unrelated keys. Copies evolve independently of their original, deriving a key never changes later derivations, and equal prefixes or merged updates are not confused with one another unless they are declared to be the same history.",
["histories","inputs"],"every sequence of construct, update, copy and derive calls up to the depth bound over a small alphabet of byte strings, compared with a history-indexed reference",
"Separation is a for-all-pairs statement over call histories; tests compare fixed vectors.",
["aiootp/keygens/domain_kdf.py","aiootp/keygens/mnemonics.py"],
[("running payload hash","aiootp/keygens/domain_kdf.py")],
observe_at=["derived bytes"],hook_needed=None)

p("C18","Permutations and sequence identifiers are reversible and collision-free",
"Every keyed permutation maps its whole domain one-to-one onto itself and its inverse undoes it, for every size, key and internal state, including after any sequence of state-advancing calls made equally on both sides; its steps go through the whole range of states before one recurs. Sequence identifiers of a given size are distinct for distinct counters over the entire counter range and read back to the same counter, and structured identifiers read back to exactly the fields they were made from; differing keys give differing identifiers.",
["inputs","configurations","histories"],"the whole one-byte domain and all byte values at all positions of larger sizes, for all configurations and enumerated keys, and call histories to the depth bound",
"Bijectivity is a statement about the whole domain and all keys; tests sample values.",
["aiootp/_permutations/affine_permutation.py","aiootp/_permutations/affine_xor_chain.py","aiootp/_permutations/fast_affine_xor_chain.py","aiootp/randoms/ids/sequence_id.py","aiootp/randoms/ids/guid.py","aiootp/randoms/ids/raw_guid.py"],
[("modular affine map with inverse","aiootp/_permutations/affine_permutation.py"),("xor chain state","aiootp/_permutations/affine_xor_chain.py, fast_affine_xor_chain.py")],
observe_at=["permuted and inverted values","identifiers and their fields"],hook_needed=None)

p("C19","Generated identifiers are unique and time-ordered, even under contention",
"Identifiers issued by one generator are never equal, no matter how many threads or tasks share it, how often the clock stands still between calls, or what the random source returns, as long as the per-instant counter range is not exhausted. Identifiers from differently named nodes never collide, and sorting identifiers' decoded forms orders them by creation time, and none sorts before or after itself.",
["schedules","inputs"],"every bounded interleaving of concurrent identifier requests with a frozen, stepping or repeating clock and constant randomness",
"Duplicates need two callers inside the counter update in the same nanosecond with equal random parts, which real-time tests cannot force.",
["aiootp/randoms/ids/raw_guid.py","aiootp/randoms/ids/guid.py"],
[("tick counter","aiootp/randoms/ids/raw_guid.py"),("node id field","aiootp/randoms/ids/raw_guid.py")],
observe_at=["issued identifiers"],hook_needed=None)

p("C20","Password hashes verify only the right password within allowed cost and age",
"A stored hash verifies with the passphrase and associated data it was made from and with no others, and any altered hash is rejected. Verification refuses, before doing the work, any hash whose declared memory, time or parallelism lies outside the caller's allowed ranges or whose age exceeds the limit, and settings outside the supported ranges are refused when hashing; every cost setting, salt and size changes the result, and the work is done in as much memory as is declared.",
["inputs","configurations","fault_sequences"],"every cost setting in a small box crossed with allowed ranges at their boundaries, and every byte alteration and truncation of hashes",
"Limits and bindings are for-all statements over settings; tests check few combinations because each hash is expensive.",
["aiootp/keygens/passcrypt/interface.py","aiootp/keygens/passcrypt/sessions_manager.py","aiootp/keygens/passcrypt/session_init.py","aiootp/keygens/passcrypt/config.py"],
[("hash composition and decomposition","aiootp/keygens/passcrypt/interface.py"),("range checks","aiootp/keygens/passcrypt/interface.py")],
observe_at=["verification verdicts and errors"],hook_needed=None)

p("C21","Key agreement gives both honest parties one key and everyone else another",
"In every run of the two- and three-key exchange, honest client and server derive the same key exactly when they used each other's genuine public values in the right roles; replacing, swapping, reflecting or omitting any public value or using a different identity yields different keys or an error. A session takes each of its peer's values only once and in the order of the protocol, even when several tasks use it at once.",
["histories","fault_sequences"],"every order of protocol calls up to the depth bound and every substitution of each transmitted value by every other value available in the run",
"Tests run the honest protocol; substitution and order are for-all statements over message histories.",
["aiootp/keygens/curve_25519"],
[("transcript-bound key derivation","aiootp/keygens/curve_25519 dh2/dh3 client and server"),("single-use session attributes","aiootp/keygens/curve_25519")],
observe_at=["derived keys","exceptions"],hook_needed=None)

p("C22","Signatures and package summaries verify only what was signed",
"A signature or package summary verifies with the signer's public key exactly when the message, every listed file, every metadata field and the signature are as signed; any change, removal or addition in these is rejected. Signing state survives saving and reloading only with the right credentials, and keys once imported cannot be replaced.",
["inputs","histories","fault_sequences"],"every byte or field alteration of messages, signatures, summaries and files, and call histories up to the depth bound",
"Tests alter few fields; an unverified field passes them.",
["aiootp/keygens/curve_25519","aiootp/keygens/package_signer.py","aiootp/keygens/package_verifier.py"],
[("summary checksum and signature","aiootp/keygens/package_signer.py"),("verification","aiootp/keygens/package_verifier.py")],
observe_at=["verification verdicts"],hook_needed=None)

p("C23","Frozen and typed containers keep their promises under every access path",
"Once set, no attribute, item or configuration value of a frozen object can be changed or removed through any of its public operations, and a refused operation leaves every value that was set as it was; typed containers never hold a value of an undeclared type. Mutable containers behave like a mapping under every sequence of set, delete, update and clear, with attribute and item access always agreeing. Objects with masked representations show none of the values they hold.",
["histories","programs"],"every sequence up to the depth bound of all mutating access paths on every container family, against a dictionary model",
"There are many access paths (attribute, item, update, clear, delete, copy) and tests try each once on fresh objects.",
["aiootp/commons/instances.py","aiootp/commons/slots.py","aiootp/commons/typed_slots.py","aiootp/commons/namespaces.py","aiootp/commons/configs.py"],
[("guarded setattr/delattr/item methods","aiootp/commons")],
observe_at=["contents after each operation","exceptions"],hook_needed=None)

p("C24","Every encoding, conversion and batching helper is lossless",
"Decoding inverts encoding for every value in the supported range: integers in any base, bytes as integers, JSON, base-64 and URL-safe text and file names of a known size; different values have different encodings, and reading a file returns what was written whatever it held before. Splitting data into pieces and joining it, resizing streams and batching iterables preserve every byte and element in order, and mixing combines all inputs.",
["inputs","configurations"],"every value in bounded ranges and every length and size parameter in bounded ranges",
"Losslessness at edges (zero, leading zeros, exact multiples, empty inputs) is a for-all statement; tests sample.",
["aiootp/generics/transform.py","aiootp/generics/byte_io.py","aiootp/_gentools.py"],
[("base conversion","aiootp/generics/transform.py"),("byte codecs","aiootp/generics/byte_io.py"),("resize, batch, unpack helpers","aiootp/_gentools.py")],
observe_at=["round-trip values"],hook_needed=None)

p("C25","Background work delivers each job's own result or error exactly once",
"Work submitted to the thread or process interfaces, synchronously or asynchronously, runs exactly once with exactly the arguments given, and its submitter receives that job's return value, of any size, as often as asked for; gathered results come back in submission order whatever order the jobs finish in. A job which fails gives its submitter an error, the job's own one where work is pooled, and disturbs no other submitted job. Nothing waits forever for a job which is over.",
["schedules","fault_sequences"],"every completion order and every failing subset of a bounded batch of jobs, for every submission interface",
"Result mix-ups need particular completion orders that tests do not force.",
["aiootp/asynchs/concurrency_interface.py","aiootp/asynchs/threads.py","aiootp/asynchs/processes.py"],
[("future wrapping and result retrieval","aiootp/asynchs/concurrency_interface.py"),("state passing","aiootp/asynchs/threads.py, processes.py")],
observe_at=["results and exceptions per job"],hook_needed=None)

p("C26","Random output never repeats, even with shared state and a weak system source",
"Concurrent and successive draws from the library's pooled random sources, in threads, tasks, forked processes and after restarts, are pairwise different and of exactly the requested size, even if the system's random source and clock return constants. What a caller mixes in affects the draw. Choices and random bits stay within their stated ranges and reach every value equally often.",
["schedules","inputs","histories"],"every bounded interleaving of concurrent synchronous and asynchronous draws and every bounded history of draws, with constant system randomness and frozen clock",
"Two callers obtaining the same internal state needs a precise preemption between update and extraction plus a weak source; tests cannot force either.",
["aiootp/randoms/rng.py","aiootp/randoms/threading_safe_entropy_pool.py","aiootp/randoms/entropy_daemon.py","aiootp/randoms/simple.py"],
[("shared pool mixing before extraction","aiootp/randoms/rng.py, threading_safe_entropy_pool.py")],
observe_at=["drawn values"],hook_needed=None)

p("C27","Concurrent tasks on one asynchronous database do not interfere",
"When several tasks of one event loop use one asynchronous database at once (set, query, save, load, pop, roll back and clear entries, and open sub-databases), operations on different entries each behave as if run alone, and operations on the same entry as if run in some order that agrees with which finished before which began: no completed change is lost or undone, nothing stored is damaged, and whatever was set before a save began is stored when that save ends. Tasks opening the same sub-database at once all obtain the same sub-database; a second handle opened on the same directory meanwhile sees the state before or after each save. Deleting a database or a sub-database, reloading its index, or cancelling a task while others use it is not covered.",
["schedules"],"every bounded interleaving of two or three tasks performing one or two database operations each, with every file-system completion a scheduling point",
"Tests await one operation at a time; awaits inside operations expose intermediate cache and manifest states.",
["aiootp/databases/async_database.py"],
[("cache and manifest updates around awaits","aiootp/databases/async_database.py")],
observe_at=["values read by tasks and after reopening"],hook_needed=None)

p("C28","Processes which share salts or start at the same time do not disturb each other",
"When several processes start the package, or create, read and update the same salt file, at the same time, each succeeds as if they had done so one after the other: no partial or foreign salt is ever read, a salt requested by several is created once and is the same for all, and nothing is left unlocked. A process which is killed at any point leaves a salt, old or new, which others can use and replace, or none at all if it was creating it.",
["schedules","fault_sequences"],"every bounded interleaving of the file operations of two or three processes, and a kill before each of them",
"Tests run in one process; failures need a second process, with ordinary permissions, between two file operations of the first.",
["aiootp/_paths.py","aiootp/randoms/_early_salts.py","aiootp/randoms/rng.py","aiootp/randoms/ids/guid_config.py"],
[("salt files are installed whole","aiootp/_paths.py make, update salt file"),("unlock, read, lock","aiootp/_paths.py read salt file"),("seed use at start","aiootp/randoms/_early_salts.py, rng.py, ids/guid_config.py")],
observe_at=["results and exceptions of each process","stored files"],hook_needed=None)

if __name__=="__main__":
    for d in P: assert len(d['title'])<=80,(d['id'],len(d['title']))
    open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
