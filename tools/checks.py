"""The checks: property -> harness binaries.  gen_manifest.py turns this into MANIFEST.json."""
EXH = ('stateless exhaustive exploration of the real code (every choice sequence '
       'within the bound, prefix replay) against a reference model')
CTL = ('controlled-scheduler exploration of the real code (all interleavings within a '
       'bound on deviations from a fixed schedule)')
FLT = 'exhaustive crash-point and I/O-fault enumeration on the real code'

CHECKS = {}


def check(pid, targets, technique=EXH, level='model_checking', note='', py=(), assumptions=()):
    CHECKS[pid] = dict(targets=list(targets), technique=technique, level=level,
                       note=note, py=list(py), assumptions=list(assumptions))


check('C06', ['c06_shamir'], note='Every share subset for all small (count, threshold) pairs and '
      'boundary secrets, on the real secret-sharing code; BoringSSL is trusted.')
check('C14', ['c14_gzip'], note='All short strings, sizes around buffer boundaries, every truncation and byte change '
      'of the compressed stream; zlib is the reference decoder.')
check('C45', ['c45_convert'], note='Boundary-value products and all short paths, on the real conversion functions.')
check('C18', ['c18_tempfiles'], FLT + ' and of operation histories', 'fault_enumeration',
      note='All short histories with leftovers and a failure of every file-system call, on the real code and file system '
      '(scratch directory).')
check('C20', ['c20_opstats_logger'], note='All operation sequences up to the depth on the real logger with a scripted '
      'database; a plain record-keeping reference is compared after every step.')
check('C25', ['c25_curl_headers'], note='All header blocks within the bound on the real parser.')
check('C26', ['c26_retry'], note='All window shapes, with the random draws and the clock under control of the explorer.')
check('C37', ['c37_payload'], note='All headers over a value set, every truncation and all byte values at every header '
      'position; protobuf is the reference for the inner message.')
check('C46', ['c46_files'], FLT, 'fault_enumeration', note='Every file-system call of a write or read fails, falls '
      'short or keeps failing; the file is then compared with what was reported.')
check('C07', ['c07_vectors'], note='All shapes around every power of two against a bit-by-bit reference packing and wide '
      'arithmetic; masks over all small key sets; an evenly spread generator for uniformity.')
check('C08', ['c08_graph'], note='All graphs up to the bound and a grid of requirements against directly computed '
      'probabilities.')
check('C09', ['c09_crypto'], note='All key pairs, all single-byte damage, all request sizes, on the real code and the real '
      'crypto library.')
check('C01', ['c01_secagg_sum'], CTL, note='The real server and real clients in one process; the explorer decides every '
      'drop-out, delivery and background task and compares the result with the plain sum.')
check('C02', ['c02_secagg_server'], CTL, note='A model of the round rules is compared with the server - state, counters, '
      'readiness, messages sent - after every call; the explorer deviates from the ordinary course at every point.')
check('C05', ['c05_hostile_clients'], EXH, note='The real server and real clients; one client replaces its message of one round by '
      'every variant of a grammar of bad messages; memory errors are caught by the address sanitizer.')
check('C03', ['c03_client_secrets'], EXH, note='One real client; the harness plays the server and the peers with keys of its own, '
      'decrypts and reconstructs what the client sends, and recomputes the masked input.')
check('C04', ['c04_client_lifecycle'], EXH, note='A model of the client\'s life is compared with the client after every call of every sequence.')
SCHED_NOTE = ('The real code with its locks, atomics, threads and clock replaced by ones the explorer schedules; '
              'data races, deadlocks and use after free are violations too. ')
check('C10', ['c10_accumulator', 'c10_server'], CTL, note=SCHED_NOTE + 'Contributions, observers and cancellations at every moment.')
check('C11', ['c11_scheduler'], CTL, note=SCHED_NOTE + 'Nested tasks, several submitters and waiters.')
check('C12', ['c12_clock'], CTL, note=SCHED_NOTE + 'All operation sequences on one thread, interleavings of several, the '
      'wake-up thread on virtual time.')
check('C13', ['c13_future'], CTL, note=SCHED_NOTE + 'Promises kept, dropped and overwritten against waits.')
check('C15', ['c15_interruptible'], CTL, note=SCHED_NOTE + 'Exact runs in virtual time against a calculation; ending the '
      'process is intercepted.')
check('C42', ['c42_host_object'], CTL, note=SCHED_NOTE + 'All operation sequences on one thread; readers against the owner.')
check('C39', ['c39_tracing', 'c39_text'], CTL, py=['c39_traits.py'], note=SCHED_NOTE + 'All operation sequences with text recorders on '
      'one thread; the generator is run on an enumerated schema and its output compiled and read back.')
check('C41', [], CTL, py=['c41_demo.py'], note='Python threads are scheduled by the harness, which chooses before every lock operation, line and '
      'instruction of the media service that touches shared data which thread goes on; requests go through the real handler over in-memory connections. '
      'All operation sequences within the bound, all schedules within the preemption bound, linearizability as oracle.')
check('C40', [], CTL, py=['c40_sessions.py'], note='All histories within the bound against a bookkeeping reference; all schedules of pairs of requests within '
      'the preemption bound, with Python threads scheduled by the harness. The aggregation library (TensorFlow Federated) is a stand-in.')
check('C23', ['c23_fetch'], CTL, note=SCHED_NOTE + 'A scripted HTTP client plays every response; expected outcomes are computed from the script.')
check('C24', ['c24_uris'], note='A strict decoder written for the check is the reference for encoded addresses; requests are compared part by part.')
check('C34', ['c34_stopwatch', 'c34_values'], CTL, note=SCHED_NOTE + 'Virtual time; SHA-256 written out from its definition as reference; scripted random bytes.')
check('C38', ['c38_dictionary'], note='All vocabularies and special ids within the bound against two plain lists.')
check('C43', ['c43_results'], note='All chains of combinators within the bound against the plain first-failure rule; what was evaluated and recorded is compared too.')
check('C44', ['c44_attestation'], FLT, 'fault_enumeration', note='The real logger feeds the real extractor through a log in which every piece is damaged in every way.')
check('C33', ['c33_polling'], CTL, note=SCHED_NOTE + 'A scripted HTTP client and clock; a model of the polling rules runs along.')
check('C30', ['c30_slices', 'c30_select'], CTL, note=SCHED_NOTE + 'A scripted HTTP client; every write of a slice fails in every way.')
check('C35', ['c35_crypto'], note='Every byte value at every position of every part of sealed messages, tokens and signatures; BoringSSL is trusted.')
check('C36', ['c36_cose'], note='A CBOR encoder and reader written for the check are the reference; the CBOR library the code uses is replaced by a stand-in.')
check('C47', ['c47_nonces'], note='All histories of blobs within the depth against a plain counter.')
check('C16', ['c16_cache'], note='All histories of operations within the depth against a record of the latest puts; the cache directory is inspected after each. The manifest store is a stand-in.')
check('C17', ['c17_cache_faults'], FLT, 'fault_enumeration', note='A crash before or half-way through every file-system call, and every kind of failure of each, in every history within the depth. The manifest store is a stand-in.')
check('C19', ['c19_opstats_db', 'c19_opstats_threads'], FLT, 'fault_enumeration', note='All histories within the depth against a list of entries with virtual time; crashes and faults at every file-system call; '
      'schedules of the real code under the controlled scheduler. The underlying store of messages is a stand-in with the interface of the original.')
check('C21', ['c21_opstats_queries'], note='All runs within the bound against a list of what each task of each run did.')
check('C22', ['c22_eligibility'], note='All combinations within the bound against the rule for each policy; scripted example sources and custom computations.')
check('C32', ['c32_example_query'], note='All query results within the bound; the TensorFlow checkpoint writers are stand-ins that write text.')
check('C48', ['c48_datasets'], CTL, note=SCHED_NOTE + 'All scripts of a source within the length against a count of what was handed out.')
check('C31', ['c31_fl_runner'], EXH, note='All scripts of server, engine, files, history and store within the bound, against a plain reference of the whole run.')
check('C49', ['c49_fl_records'], EXH, note='The same scripts; every activity costs a distinct amount, so each published number identifies what it was measured over.')
check('C50', ['c50_local_run'], EXH, note='All requests and all courses of a local run against a plain reference; the engine is scripted.')
check('C51', ['c51_engine'], EXH, note='All plans and courses within the bound against the rules for inputs and endings; the TFLite runtime is scripted.')
check('C52', ['c52_curl'], EXH, note='All courses of one request and all interleavings of two, on the real client with libcurl scripted, against the contract of the HTTP interface.')
check('C27', ['c27_checkin'], CTL, note=SCHED_NOTE + 'A played server whose every reply is a choice; every request is compared with the one expected.')
check('C28', ['c28_report'], CTL, note=SCHED_NOTE + 'A played server whose every reply is a choice; confidential uploads are decrypted. '
      'The secure aggregation session is a stand-in here (see C29).')
check('C29', ['c29_secagg_http'], CTL, note=SCHED_NOTE + 'The real protocol, runner and secure aggregation client against a played server and peers that '
      'unmask what the client sent.')
