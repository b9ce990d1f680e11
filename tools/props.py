#!/usr/bin/env python3
"""Writes properties.jsonl.  Kept as source so that statements stay reviewable."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                               observe_at=observe or [], hook_needed=None)))


S = 'fcp/secagg/'
p('C01', 'Secure aggregation result is the exact sum of the contributing clients',
  'Whatever clients drop out, abort or stay silent in whatever round and in whatever order messages are delivered, a completed secure aggregation session yields, for every vector and coordinate, exactly the sum modulo the agreed modulus of the inputs of precisely those clients whose masked input the server accepted. This holds for every vector length, modulus and bit width, for the full-graph and the sparse-graph variants, with and without background processing of the masked inputs.',
  ['schedules', 'inputs', 'configurations', 'fault_sequences'],
  'all delivery orders and drop-out points of small sessions, both graph variants, synchronous and background masked-input processing, several moduli, lengths and input patterns',
  'The existing SecAgg tests are not even built here and run one hand-written happy path and a few drop-outs; the claim is over every drop-out set, order and parameter.',
  [S + 'client/', S + 'server/', S + 'shared/'],
  [('client masking', S + 'client/secagg_client_r2_masked_input_coll_waiting_for_input_state.cc'), ('mask generation', S + 'shared/map_of_masks.cc'), ('server unmasking', S + 'server/secagg_server_prng_running_state.cc'), ('secret reconstruction', S + 'shared/shamir_secret_sharing.cc')],
  ['SecAggServer::Result', 'SecAggServer::ReceiveMessage', 'SecAggClient::ReceiveMessage'])
p('C02', 'SecAgg server rounds: thresholds, gating and accounting',
  'The server advances to the next round only with at least the required number of surviving clients and aborts as soon as too few can survive; a message that does not belong to the current round or phase of a live client makes that client fail, messages of clients that are already gone change nothing, and a terminal session stays terminal. At every point the numbers of alive, completed, failed, pending, dead and included clients it reports are mutually consistent and equal to what the history of accepted messages and drop-outs implies, and the result can be taken exactly once and only after success.',
  ['histories', 'schedules', 'configurations'],
  'every sequence (within the bound) of well-formed client messages, misplaced messages, client drop-outs, proceed and abort calls, for several group sizes and thresholds',
  'Unit tests fix one state at a time; the claim is over every interleaving of client messages, drop-outs and server calls.',
  [S + 'server/secagg_server.cc', S + 'server/secagg_server_state.cc', S + 'server/'],
  [('round states', S + 'server/secagg_server_r*_state.cc'), ('minimum clients', S + 'server/secagg_server_protocol_impl.cc')],
  ['SecAggServer::State', 'SecAggServer::NumberOf*', 'SecAggServer::Result', 'messages sent through SendToClientsInterface'])
p('C03', 'A SecAgg client never reveals both secrets of a peer, nor an unmasked input',
  'Against a server that sends any messages in any order, a client answers at most one unmasking request per session and in it reveals for each peer at most one of that peer\'s two secret shares: the self-mask share only of peers not named dropped, the pairwise share only of peers named dropped in that request. It never answers when its own identity is named dropped, when fewer survivors than its threshold remain, or when the request repeats or invents identities, and the only thing ever sent about its input is the sum of the input with a self mask and one pairwise mask for every peer still alive.',
  ['inputs', 'histories', 'fault_sequences'],
  'all server message sequences built from valid, truncated, duplicated, permuted, stale and forged messages, up to three peers, every subset named as dropped',
  'This is a security claim over an adversarial server; tests only play an honest one plus single-field corruptions.',
  [S + 'client/'],
  [('round-3 share selection', S + 'client/secagg_client_r3_unmasking_state.cc'), ('masked input', S + 'client/secagg_client_r2_masked_input_coll_base_state.cc'), ('key validation', S + 'client/secagg_client_r1_share_keys_base_state.cc')],
  ['SendToServerInterface::Send', 'SecAggClient::ReceiveMessage'])
p('C04', 'SecAgg client lifecycle: one path, one abort notice, terminal is final',
  'For every order of start, input, server messages and aborts, a client moves only forward through the rounds, finishes only after its input was set and all four rounds were answered, and sends each round\'s message at most once. Aborting a live client ends the session and tells the server once unless the server itself aborted; a finished or aborted client ignores further aborts and refuses further messages and input without sending anything.',
  ['histories', 'schedules'],
  'every sequence of the client operations up to a bounded length, with input set early, late, twice or never, valid and misplaced messages',
  'Tests construct single states; the claim is over every call history.',
  [S + 'client/secagg_client.cc', S + 'client/'],
  [('state machine', S + 'client/secagg_client_state.cc'), ('terminal states', S + 'client/secagg_client_completed_state.cc'), ('alive base', S + 'client/secagg_client_alive_base_state.cc')],
  ['SecAggClient public API', 'SendToServerInterface::Send'])
p('C05', 'No client message can crash or derail the SecAgg server',
  'A message from one client that is of the wrong type, misplaced, or has missing, extra, wrongly sized or wrong kinds of parts never disturbs the server or the other clients: at most the sender is dropped, and if enough clients remain the session completes with the exact sum of the accepted inputs. A message of the right shape with bad content - invalid keys, garbage or altered shares, values outside the range - never crashes the server, corrupts memory or leaves the session hanging: it ends completed, with a result of the agreed shape, or aborted.',
  ['inputs', 'fault_sequences'],
  'every field-level mutation of one client\'s message in every round, in a session otherwise completed honestly',
  'Tests check a handful of malformed messages per round and never continue the session afterwards.',
  [S + 'server/'],
  [('message validation', S + 'server/aes_secagg_server_protocol_impl.cc'), ('share collection', S + 'server/secagg_server_r3_unmasking_state.cc'), ('advertised keys', S + 'server/secagg_server_r0_advertise_keys_state.cc')],
  ['SecAggServer::ReceiveMessage', 'SecAggServer::Result'])
p('C06', 'Secret sharing: any threshold of shares rebuilds the secret, fewer are refused',
  'For every secret, share count and threshold, any subset of at least the threshold number of shares, whatever other shares are missing, reconstructs exactly the original secret, and a set with fewer shares or with malformed shares is rejected with an error instead of a wrong answer. Shares produced for a threshold never contain the secret itself when the threshold exceeds one.',
  ['inputs', 'configurations'],
  'all subsets of shares for all (count, threshold) up to a bound, for boundary and patterned secrets including every extreme residue',
  'Tests sample a few subsets with random secrets; arithmetic overflow needs particular residues and subset sizes.',
  [S + 'shared/shamir_secret_sharing.cc', S + 'shared/math.h'],
  [('reconstruction', S + 'shared/shamir_secret_sharing.cc:Reconstruct'), ('modular arithmetic', S + 'shared/math.h')],
  ['ShamirSecretSharing::Share', 'ShamirSecretSharing::Reconstruct'])
p('C07', 'SecAgg vectors and masks: packing is lossless and masks cancel',
  'For every modulus from 2 to 2^62 and every length, packing a vector takes exactly the number of bits its modulus needs per element, unpacking it by any interface returns the same values, and packed data of another length or values not below the modulus are refused. Masks generated from a set of keys are the modular sum of the masks of the added keys less those of the subtracted ones whichever routine makes them, stay below the modulus without favouring any value, and differ for different keys, sessions and vector names; adding vectors or maps of vectors is exact modulo the modulus.',
  ['inputs', 'configurations'],
  'all lengths up to a bound times all moduli of interest (2, powers of two, non powers of two, up to 2^62) and boundary element patterns',
  'Tests use a few moduli; packing errors show for particular bit width and length combinations.',
  [S + 'shared/secagg_vector.cc', S + 'shared/secagg_vector.h', S + 'shared/map_of_masks.cc'],
  [('packing', S + 'shared/secagg_vector.cc'), ('mask maps', S + 'shared/map_of_masks.cc')],
  ['SecAggVector', 'MapOfMasks', 'AddVectors', 'AddMaps'])
p('C08', 'SecAgg neighbour graph is symmetric and its parameters are feasible',
  'Every neighbourhood graph is symmetric, gives each client the same number of distinct neighbours counting itself, numbers them consistently in both directions and orients every edge between two clients one way; impossible sizes are refused. Graph parameters computed for a group are either an error or make, for the stated adversarial and drop-out rates, disclosure and failure as improbable as promised, and are found whenever they exist with a margin; full-graph parameters are accepted exactly when the threshold meets the drop-out and adversary constraints.',
  ['inputs', 'configurations'],
  'every group size and degree up to a bound, every pair of clients, all random permutations of small groups',
  'Tests check a few sizes only.',
  [S + 'server/secret_sharing_harary_graph.cc', S + 'server/secret_sharing_complete_graph.cc', S + 'server/secret_sharing_graph_factory.cc', S + 'server/graph_parameter_finder.cc'],
  [('Harary graph', S + 'server/secret_sharing_harary_graph.cc'), ('parameter search', S + 'server/graph_parameter_finder.cc')],
  ['SecretSharingGraph', 'FindSecretSharingGraphParameters'])
p('C09', 'SecAgg cryptography: key agreement, authenticity and one random stream',
  'Two parties who exchange valid public keys derive the same key, which no third key pair derives, compressed and uncompressed encodings of the same point agree, and keys of a wrong length, off the curve or not belonging to the private key are rejected. Authenticated ciphertext opens to the same plaintext with the same key, never repeats, and is rejected after any single-byte change, truncation or extension or under another key; the pseudo-random generator produces the same non-repeating stream for the same seed whichever way the bytes are requested.',
  ['inputs', 'histories'],
  'every single-byte mutation and every truncation length of ciphertexts and keys; all chunkings of the pseudo-random stream up to a bound; all plaintext lengths up to a bound',
  'Tests flip one byte and read one chunking.',
  [S + 'shared/aes_gcm_encryption.cc', S + 'shared/ecdh_key_agreement.cc', S + 'shared/aes_ctr_prng.cc', S + 'shared/aes_key.cc'],
  [('AES-GCM', S + 'shared/aes_gcm_encryption.cc'), ('ECDH', S + 'shared/ecdh_key_agreement.cc'), ('AES-CTR PRNG buffering', S + 'shared/aes_ctr_prng.cc')],
  ['AesGcmEncryption', 'EcdhKeyAgreement', 'AesCtrPrng'])
p('C10', 'Background summation neither loses, doubles nor races a contribution',
  'For every thread interleaving, each value handed to the background accumulator is generated and added exactly once before the result is delivered, an accepted observer is called exactly once, and once cancellation has returned no generation or accumulation step starts or is still running. Once an asynchronous abort has been signalled, every later check sees it, with the message it was signalled with. An aggregation server that adds inputs and removes masks in the background ends with the exact sum of its inputs, and once aborted stays aborted and does no more of that work.',
  ['schedules', 'fault_sequences'],
  'all interleavings with a bounded number of preemptions of producers, workers, the observer and a canceller',
  'Tests run one schedule of real threads.',
  [S + 'server/secagg_scheduler.h', S + 'server/secagg_scheduler.cc', S + 'shared/async_abort.h', S + 'server/aes/aes_secagg_server_protocol_impl.cc', S + 'server/secagg_server_prng_running_state.cc'],
  [('accumulator', S + 'server/secagg_scheduler.h'), ('queue of masked inputs', S + 'server/aes/aes_secagg_server_protocol_impl.cc'), ('async abort', S + 'shared/async_abort.h')],
  ['SecAggScheduler', 'Accumulator', 'AsyncAbort', 'SecAggServer'])

B = 'fcp/base/'
p('C11', 'Schedulers run every task exactly once, workers in order, idle means idle',
  'For every interleaving, a thread-pool scheduler runs each scheduled task exactly once, and waiting for idleness returns only when every task scheduled before it, and every task those spawned, has finished, and always does return. Tasks of one worker run strictly one at a time in the order they were scheduled, including tasks scheduled from within tasks and from several threads.',
  ['schedules', 'programs'],
  'all interleavings within a preemption bound of small programs of pool and worker tasks, including nested scheduling, pools of one and two threads',
  'Tests run real threads once; lost wake-ups and ordering faults need a particular interleaving.',
  [B + 'scheduler.cc', B + 'scheduler.h'],
  [('idle condition', B + 'scheduler.cc:IdleCondition'), ('worker sequencing', B + 'scheduler.cc:MaybeRunNext')],
  ['Scheduler', 'Worker'])
p('C12', 'Alarms fire exactly once, never early, in deadline order',
  "On a clock, every alarm whose deadline has been reached is woken exactly once and never before its deadline, alarms delivered together come in deadline order with ties in registration order, and no alarm is lost however registrations, time changes and re-entrant registrations from within wake-ups interleave. This holds for the simulated clock and for the real-time clock's wake-up thread; a sleep ends once, and only once, its time has passed.",
  ['schedules', 'histories'],
  'all short histories of alarm registrations (past, present, future, tied) and time advances with re-entrant registrations, and interleavings of registering threads with the dispatcher within a preemption bound',
  'Tests cover a few sequences on one schedule.',
  [B + 'clock.cc', B + 'clock.h', B + 'simulated_clock.cc'],
  [('dispatch loop', B + 'clock.cc:DispatchWakeups'), ('reentrancy level', B + 'clock.cc:CheckReentrancy')],
  ['Clock::WakeupWithDeadline', 'SimulatedClock'])
p('C13', 'Futures, reentrancy guards and unique ids are race-free',
  'For every interleaving, a future yields exactly the value its promise was given, or nothing if the promise was dropped or overwritten without one, and a wait reports readiness only then and as soon as then; a guarded section admits one caller at a time and admits again after it is left. Identifiers drawn concurrently in one process are all different.',
  ['schedules'],
  'all interleavings within a preemption bound of two or three threads using each primitive',
  'Single-schedule tests cannot show absence of races.',
  [B + 'future.h', B + 'reentrancy_guard.h', B + 'process_unique_id.cc', B + 'unique_value.h', 'fcp/tracing/tracing_span_id.cc'],
  [('future state', B + 'future.h:FutureState'), ('guard flag', B + 'reentrancy_guard.h'), ('id counter', B + 'process_unique_id.cc')],
  ['MakeFuture', 'ReentrancyGuard', 'ProcessUniqueId::GetNext', 'TracingSpanId::NextUniqueId'])
p('C14', 'Gzip compression round-trips and damaged data is an error',
  'Compressing any byte string, in one piece or in fragments, and uncompressing it returns the same bytes, whatever its size. Truncated compressed data is an error, and compressed data with any byte changed is an error or still yields the original, never other data. The digest of data is the same however the data is cut into fragments and differs for different data.',
  ['inputs'],
  'all strings over a small alphabet up to a length plus sizes around buffer boundaries; every truncation and every single-byte change of several streams',
  'Tests use a few literals.',
  [B + 'compression.cc', B + 'digest.cc'],
  [('gzip stream', B + 'compression.cc'), ('digest', B + 'digest.cc')],
  ['CompressWithGzip', 'UncompressWithGzip', 'ComputeSHA256'])

C = 'fcp/client/'
p('C15', 'Interruptible work stops when told, and no call outlives its runner',
  "For every interleaving of the work, the abort signal and the timeouts, running interruptible work returns the work's own result if it finished before an abort signal was acted on and a cancellation otherwise; a signal is acted on within one polling period, before the work starts if it is already up, and invokes the abort function exactly once. The diagnostics logged are those of the phase (graceful, extended, given up) in which the work ended, giving up happens only after both periods have passed, and after the runner is gone no submitted work is still running.",
  ['schedules', 'fault_sequences'],
  'all orders of work completion, abort polling, grace-period and extended-period expiry, over several runs of one runner',
  'Tests use real sleeps and cover three orders.',
  [C + 'interruptible_runner.cc', C + 'interruptible_runner.h'],
  [('abort polling loop', C + 'interruptible_runner.cc:WaitUntilInterrupted'), ('destructor wait', C + 'interruptible_runner.cc:~InterruptibleRunner')],
  ['InterruptibleRunner::Run'])
p('C16', 'Resource cache serves exactly what was stored, within its size limit',
  'For every history of puts, gets, restarts and time passing, a get returns exactly the bytes and metadata of the latest successful put of that identifier or reports it absent; it is found as long as its lifetime has not passed, its file was not removed from outside and it was not evicted. The files held never exceed the configured size, a resource larger than half of it is refused as exhausted without affecting others, entries are only evicted when room is needed and in order of least recent use, and after a restart expired entries and files without an entry are gone. A manifest that was damaged or lost makes the cache start over empty.',
  ['histories', 'configurations'],
  'every sequence up to a bounded length of put, get, clock advance and restart over a few identifiers and sizes around the limits',
  'Tests check individual scenarios.',
  [C + 'cache/file_backed_resource_cache.cc'],
  [('manifest and eviction', C + 'cache/file_backed_resource_cache.cc:CleanUp')],
  ['FileBackedResourceCache::Create/Put/Get', 'cache directory'])
p('C17', 'Resource cache survives crashes and write failures without serving bad data',
  'Whichever file-system call the process crashes in, or whichever such call fails, a cache opened afterwards (at the latest on the second attempt) works and stays within its size limit. Whatever it then returns for an identifier, in the same process or after a restart, is one complete resource together with the metadata it was put with: the latest one stored under that identifier, or one whose put was interrupted or failed later. A put that reports success can be read back.',
  ['crash_points', 'fault_sequences', 'histories'],
  'a crash before, after and half-way through every mutating file-system call, and an error at every such call, of several histories, followed by restart and use',
  'No test injects crashes or I/O faults.',
  [C + 'cache/file_backed_resource_cache.cc', C + 'cache/file_backed_resource_cache.h'],
  [('write order of file and manifest', C + 'cache/file_backed_resource_cache.cc:Put')],
  ['FileBackedResourceCache::Create/Put/Get'])
p('C18', 'Temporary files: unique, contained, and gone when their owner is',
  "Every temporary file created has a path not in use before, directly inside the owner's directory, with the requested prefix and suffix, and exists, empty and writable, when it is returned. All of them, and leftovers of earlier processes in that directory, are deleted when an owner is created and when it is destroyed, nothing outside the directory is touched, one file that cannot be deleted does not save the others, and failures of the file system are reported as errors, never as success.",
  ['histories', 'fault_sequences'],
  'all histories of create/destroy with pre-existing leftovers, subdirectories, and a failing file-system call at each position',
  'The test covers the success path and a missing directory.',
  [C + 'cache/temp_files.cc'],
  [('prefix directory cleaning', C + 'cache/temp_files.cc:Create'), ('destructor cleaning', C + 'cache/temp_files.cc:~TempFiles')],
  ['TempFiles'])
p('C19', 'The stored run history survives, stays within its limits and has one owner',
  'After every history of additions, replacements, waits and re-opens, the stored run history is what was last stored minus entries whose last event is older than the retention time (entries without events count as older) and minus the oldest ones beyond the size limit; concurrent changes are all kept. The earliest trustworthy time it states never moves back, never precedes the latest event of anything dropped, never lies after the last event of the oldest entry kept, and moves only when something is dropped. A crash or file-system error at any point leaves the previous or the new history or, reported as an error, an empty one that is trusted only from then on, and of several who open the same store at the same time, in one process or several, at most one succeeds.',
  ['histories', 'crash_points', 'fault_sequences'],
  'all histories of nine operations within the depth, retention to the second, size limits to the byte, every byte of the file damaged, a crash or fault at each file-system call, all schedules of concurrent changes and opens within the preemption bound',
  'Tests check one pruning case each.',
  [C + 'opstats/pds_backed_opstats_db.cc'],
  [('pruning', C + 'opstats/pds_backed_opstats_db.cc'), ('exclusive lock', C + 'opstats/pds_backed_opstats_db.cc')],
  ['OpStatsDb::Read/Transform', 'PdsBackedOpStatsDb::Create'])
p('C20', 'One run leaves exactly one OpStats entry with what was recorded, in order',
  'For every sequence of recorded events, dataset and network statistics, phase changes and commits, the database ends with exactly one entry for this run holding everything recorded up to the last successful commit, in order and in the phase it was recorded in, while entries of other runs are unchanged. A failed commit is reported and does not damage other runs\' entries, also when a later commit succeeds.',
  ['histories', 'fault_sequences'],
  'every sequence up to a bounded length of the logger operations, each commit succeeding or failing, on databases with and without earlier runs',
  'Tests exercise single call orders with a working database.',
  [C + 'opstats/opstats_logger_impl.cc'],
  [('commit transform', C + 'opstats/opstats_logger_impl.cc:CommitToStorage')],
  ['OpStatsLogger', 'OpStatsDb contents'])
p('C21', 'Questions about past runs are answered exactly from the recorded history',
  'For every recorded history, whether written per phase or in the older flat form, the last contribution to a task or to a group of tasks, its time, its separation index and the first accesses to its data sources are those of the latest entry in which an upload of a result was started and not refused by the server. A time window yields exactly the entries whose last event falls into it, both ends included, newest first. The built-in source of history examples returns exactly those entries with all their recorded fields, and a single example without them if there are none.',
  ['histories', 'inputs'],
  'all runs of every shape (eligibility, several tasks, check-in, outcomes) and all pairs of runs within the bound, against every task, pattern and window between recorded times',
  'Tests use two or three hand-made histories.',
  [C + 'opstats/opstats_utils.cc', C + 'opstats/opstats_example_store.cc'],
  [('last contribution', C + 'opstats/opstats_utils.cc'), ('example conversion', C + 'opstats/opstats_example_store.cc')],
  ['GetLastSuccessfulContributionTime', 'OpStatsExampleStore'])
p('C22', 'A task is eligible exactly when every policy that names it is satisfied',
  'A task is reported eligible exactly when each policy that applies to it grants it: enough examples are available, the last contribution of the task or its group lies longer ago than the period and the history is trustworthy for that long, the rounds since the last contribution exceed the minimum separation, or the custom computation gives it a positive weight. Policies do not influence each other, whatever their order and names, except that a custom computation is only asked about tasks still in the running. A policy that is unknown, too new, malformed or cannot be evaluated makes the tasks it applies to ineligible and no others, and every task is reported once, in order.',
  ['configurations', 'histories'],
  'all combinations of two (thorough: three) policies of eleven kinds over two tasks, periods and separations at their boundaries, every example count and failure, every answer of a custom computation',
  'Tests cover one policy at a time.',
  [C + 'eligibility_decider.cc', C + 'selector_context.proto'],
  [('policy evaluation', C + 'eligibility_decider.cc')],
  ['ComputeEligibility'])

H = 'fcp/client/http/'
p('C23', 'HTTP fetches deliver exactly the body or an error',
  'For every shape of response - status, length, encoding and transfer headers, chunking, failure or interruption at any point - an in-memory fetch yields exactly the body announced or an error with the code that describes what went wrong, each request of a batch in its own place, and the traffic of all of them is counted. Request bodies are read out completely and unchanged whatever read sizes are used, with headers that describe them, and only secure or local addresses are accepted. Resources given inline, found in the cache or fetched come out decompressed alike, and successful fetches with a cache identifier are offered to the cache.',
  ['inputs', 'schedules'],
  'all combinations of request parts and read sizes; all combinations of status, headers, chunking and failure point of a response; batches of up to three under every schedule within the bound; all mixes of up to three inline, cached and fetched resources',
  'Tests give a few canned responses.',
  [H + 'in_memory_request_response.cc', H + 'http_client_util.cc'],
  [('response accumulation', H + 'in_memory_request_response.cc'), ('request body reading', H + 'in_memory_request_response.cc')],
  ['PerformRequestsInMemory', 'FetchResourcesInMemory', 'InMemoryHttpRequest'])
p('C24', 'Addresses, headers and status mappings are exact',
  'Joining a base address and a path beginning with a slash puts exactly one slash between them; encoding an ASCII identifier into a path gives a string of unreserved characters and two-digit escapes that decodes back to it, and any other identifier is refused. Headers are found by name whatever its case, first match first; every HTTP status maps to its canonical code and every error the server reports keeps code and message. Protocol requests carry exactly the address, parameters, headers and body they were made from.',
  ['inputs'],
  'all pairs of bytes and all strings over an alphabet of every byte class; all status codes; all header lists of up to three; all combinations of the parts of a request',
  'Tests use a few literals.',
  [H + 'http_client_util.cc'],
  [('percent encoding', H + 'http_client_util.cc:EncodeUri'), ('status map', H + 'http_client_util.cc:ConvertHttpCodeToStatus')],
  ['JoinBaseUriWithSuffix', 'EncodeUriSingleSegment', 'EncodeUriMultipleSegments', 'FindHeader', 'ConvertHttpCodeToStatus'])
p('C25', 'Received HTTP header blocks are parsed into exactly the final response',
  'Fed, line by line, the header blocks of any number of permanent redirects followed by a final response, the parser reports the status and exactly the headers of the last block begun, in order, repeated ones kept apart, names as received and values trimmed of surrounding white space but otherwise complete. It reports the end of the headers exactly from the blank line that ends the final response, and when the transport decodes the body it omits, whatever their case, just the content-encoding, content-length and transfer-encoding headers.',
  ['inputs', 'histories'],
  'all blocks of up to three or four header lines from a set with repeated, empty, padded and colon-containing values, after zero to two redirects',
  'The tests feed a few header blocks.',
  [H + 'curl/curl_header_parser.cc', H + 'curl/curl_http_response.cc'],
  [('header parser', H + 'curl/curl_header_parser.cc')],
  ['CurlHeaderParser', 'CurlHttpResponse'])
p('C26', 'Retry delays always lie within their window',
  'A retry delay picked from a window lies between its minimum and its maximum and can take values near either end; negative bounds count as zero and a maximum below the minimum as the minimum. A window made from a target delay and a jitter fraction (clamped to 0..1) is a single non-negative delay within that fraction of the target, and one made from an absolute retry time is exactly the time left until then, zero if it has passed.',
  ['inputs', 'configurations'],
  'all pairs of bounds from a set with zero, tiny, huge, negative and inverted values, with random draws from one end of the range to the other, and a controlled clock',
  'Tests sample random draws.',
  [C + 'federated_protocol_util.cc', H + 'http_federated_protocol.cc', H + 'protocol_request_helper.cc'],
  [('delay pick', C + 'federated_protocol_util.cc:PickRetryTimeFromRange'), ('jitter', C + 'federated_protocol_util.cc:PickRetryTimeFromWindow')],
  ['PickRetryTimeFromRange', 'GenerateRetryWindow*', 'HttpFederatedProtocol::GetLatestRetryWindow'])
p('C27', 'Check-in: requests follow the server and every reply has one meaning',
  "For every server behaviour, the check-in client issues the eligibility, task-assignment and several-tasks requests with the session identifiers, headers and addresses the server last gave it, reports a finished eligibility computation with the next request, and turns each reply into the assignment, rejection or error it means, with exactly the resources served. An assignment operation it gives up on is cancelled once, even under interruption, and calls out of order are refused without a request. The retry window it offers is the server's for accepted clients after an assignment, the server's for rejected ones otherwise, and a configured delay after lasting errors or before the server gave any; the network use reported is what was transferred.",
  ['fault_sequences', 'histories', 'configurations'],
  'every choice of server reply (success variants, error classes, malformed, missing fields, transport failure, interruption) at each request of the protocol; all orders of calls up to the bound; all schedules of answering threads and an interruption within the preemption bound',
  'Tests script one reply sequence per case.',
  [H + 'http_federated_protocol.cc', H + 'protocol_request_helper.cc'],
  [('object state machine', H + 'http_federated_protocol.cc'), ('request construction', H + 'protocol_request_helper.cc')],
  ['HttpFederatedProtocol', 'HTTP requests issued'])
p('C28', 'A result is uploaded at most once and submitted only when it was uploaded',
  'Whatever the server answers and whichever request fails, a completed task leads to at most one upload of exactly its result (encrypted for the verified key if aggregation is confidential) under the identity and addresses given for that task, is submitted only after that upload succeeded, and succeeds only then. If verification, encryption or the upload fails after the server had started the aggregation, the server is told to abort it once, without details of the failure; results of the wrong kind or number are refused before any request. A failed computation uploads nothing and reports its outcome and duration once, and reports about several tasks do not mix or repeat.',
  ['fault_sequences', 'histories'],
  'every failure or reply variant at every request of the upload protocols for simple, secure and confidential aggregation, for every kind of result and setting; all sequences of reports about two (thorough three) tasks with one report too many',
  'Tests script single failures.',
  [H + 'http_federated_protocol.cc', H + 'http_secagg_send_to_server_impl.cc'],
  [('report sequence', H + 'http_federated_protocol.cc:ReportCompleted')],
  ['HttpFederatedProtocol::ReportCompleted/ReportNotCompleted', 'HTTP requests issued'])
p('C29', 'Secure aggregation over HTTP delivers each message once and follows the server',
  'In a secure-aggregation session over HTTP each message is delivered by one request to the address and with the identifiers the server gave this client, the masked input and the checkpoint are each uploaded to their own place and submitted only after both uploads succeeded, and every reply acts on the session as received. A failed request or an error reply ends the session with that error, success is reported only if every message including the last was delivered, and a client that gives up on its own tells the server, never more than once, whenever it is interrupted. Inputs that do not fit their modulus or shape are refused before any key is sent.',
  ['fault_sequences', 'schedules'],
  'every kind of answer to every request with up to two (thorough three) out-of-the-ordinary ones; boundary tensors and moduli; all schedules of an interruption during any request within the preemption bound',
  'Tests mock one reply each.',
  [H + 'http_secagg_send_to_server_impl.cc', C + 'secagg_runner.cc'],
  [('send', H + 'http_secagg_send_to_server_impl.cc')],
  ['HttpSecAggSendToServerImpl::Send', 'SecAggRunner'])
p('C30', 'Federated-select slices arrive complete, in order and once',
  'A slice query requests exactly the address made from the template for each key, and its iterator then writes out exactly the fetched contents in the order of the keys; if any fetch or write fails there is an error and no slice is skipped, shortened or given twice. With several threads each slice is given out once, nothing is given after the end or after closing, the scratch file is gone then, and the network usage reported is the sum of what was transferred.',
  ['schedules', 'fault_sequences', 'inputs'],
  'all templates, key lists and failing slices within the bound; all operation sequences on an iterator; every write failing in every way; all schedules of two threads on one iterator and of two queries within the preemption bound',
  'Tests use a few scripted fetches.',
  [C + 'federated_select.cc'],
  [('slice queue', C + 'federated_select.cc')],
  ['FederatedSelectManager', 'ExampleIterator'])
p('C31', 'A federated run asks, computes, uploads and counts exactly what it may',
  "A run makes one eligibility check-in, then asks the server for exactly the tasks it was found eligible for, and gives each computation exactly the plan, initial state, slice address and history of its own task. It uploads a task's results, complete, unaltered and under that task's session, exactly if the computation produced all of them, otherwise reports its failure, and sends neither unless the start of that upload was first stored in the run history. A task counts as contributed, for the application and in the result of the run, exactly if its results were accepted, and the run is a success only if everything it asked for was contributed.",
  ['fault_sequences', 'histories', 'configurations'],
  'all combinations of server answers at eligibility, assignment and check-in, of kinds of plans, computation outcomes, file, storage and history failures and report answers for one task and for each of two (thorough: three) tasks, in every supported configuration',
  'No unit test exists for the run at this level here.',
  [C + 'fl_runner.cc', C + 'phase_logger_impl.cc'],
  [('report gate', C + 'fl_runner.cc:ReportPlanResult'), ('eligibility', C + 'fl_runner.cc:CreateEligibilityEvalResult')],
  ['RunFederatedComputation', 'FederatedProtocol calls', 'OnTaskCompleted', 'OpStatsDb contents'])
p('C32', 'Example-query computations emit exactly the queried data',
  "When an example-query computation succeeds, its checkpoint holds exactly the requested outputs, each with the type, order and values of the vector it is taken from, whatever the mixture of types and lengths and however many queries and outputs use a vector; the reported number of examples and bytes and the recorded queries are those of the query results. A missing vector, a vector of another type than requested or without type, a type the format cannot carry, a result that cannot be parsed, or a source that is missing or fails, makes the computation fail with the source's error if there is one, and nothing is written or returned.",
  ['inputs', 'fault_sequences'],
  'all pairs of columns over all types, lengths and mismatches in both checkpoint formats; up to two (thorough: three) queries failing in every way',
  'Tests use one result per type.',
  [C + 'engine/example_query_plan_engine.cc'],
  [('checkpoint writing', C + 'engine/example_query_plan_engine.cc:WriteCheckpoint')],
  ['ExampleQueryPlanEngine::RunPlan'])
p('C33', 'Long-running operations are polled until done',
  'For every sequence of answers the client keeps asking for the operation the server last named until it is done and returns exactly that final operation; a malformed name, an unreadable answer, an HTTP error, a failed transfer or an interruption ends the polling with the corresponding error and no further request. Between polls it waits as long as the server asked, at most a minute, and half a second when the server gave no readable wish; only time spent in requests counts as network time, and all traffic is counted. A cancellation is one request naming exactly that operation.',
  ['fault_sequences', 'schedules'],
  'all sequences of up to five answers - pending under any name and with any progress description, done, unreadable, error status, failed transfer - and interruption before and during each poll under every schedule within the bound',
  'Tests script a few sequences.',
  [H + 'protocol_request_helper.cc'],
  [('polling loop', H + 'protocol_request_helper.cc:PollOperationResponseUntilDone')],
  ['ProtocolRequestHelper'])

F = 'fcp/confidentialcompute/'
p('C34', 'Stopwatches, random tokens and digests are exact',
  'A stopwatch shows exactly the time during which at least one of its handles was alive, for handles on any number of threads, and its readings never go backwards; a no-op stopwatch stays at zero. A random token carries exactly the sixteen random bytes it was given, reads back, compares, hashes and prints accordingly, and is not made when no randomness is available. The SHA-256 digest of a byte sequence is the standard one whether it is given as a string or as a cord in any pieces.',
  ['inputs', 'histories', 'schedules'],
  'all operation sequences and all schedules within the bound of handles and readings; every value of every byte of a token; every length up to a bound plus long ones, every way to cut short messages',
  'Tests use fixed sleeps, one token and a few messages.',
  ['fcp/base/wall_clock_stopwatch.cc', 'fcp/base/random_token.cc', 'fcp/base/digest.cc'],
  [('start and stop accounting', 'fcp/base/wall_clock_stopwatch.cc'), ('token bytes', 'fcp/base/random_token.cc'), ('digest', 'fcp/base/digest.cc')],
  ['WallClockStopwatch', 'RandomToken', 'ComputeSHA256'])
p('C35', 'Sealed messages and signatures hold for the right key and data only',
  "A message encrypted for a recipient, directly or with its key rewrapped by an intermediary, decrypts to exactly that message with the recipient's key and the same associated data; with any other key or associated data, with parts of another message, or after any change, truncation or extension of a part, decryption is an error. A P-256 signature verifies for exactly the signed data and signer, unusable or damaged public keys are errors, and the public-key token is signed over exactly the structure a verifier computes.",
  ['inputs', 'histories'],
  'message sizes around block boundaries, all pairs of associated data, direct and rewrapped; every byte value at every position of every part, every truncation, all mixtures of two messages, all key sizes',
  'Tests flip a few fields.',
  [F + 'crypto.cc'],
  [('HPKE+AEAD', F + 'crypto.cc')],
  ['MessageEncryptor', 'MessageDecryptor', 'crypto_internal'])
p('C36', 'COSE keys and web tokens mean what was encoded; anything else is an error',
  'Every key and web token, with any combination of optional parameters and claims, is laid out as the standards prescribe and decodes to exactly the fields encoded; entries in another order or unknown entries change nothing, and values of a wrong kind, missing parts or extra data are invalid-argument errors. The structure to sign equals the structure to verify, covers every protected byte and the additional data but not the signature, also for tokens with several signatures, of which the first counts; no byte string crashes the decoder.',
  ['inputs'],
  'all combinations of fields over boundary values; every kind of CBOR item in every place; every truncation and every byte value at every position',
  'Tests check a few malformed inputs.',
  [F + 'cose.cc'],
  [('decoding', F + 'cose.cc')],
  ['OkpKey', 'OkpCwt'])
p('C37', 'Client payload headers round-trip and never swallow or invent data',
  'A payload with an encoded header decodes to the same header and leaves exactly the payload bytes, for every header and payload. Data that does not start with a complete header is rejected without being modified, and no input makes the decoder read past its end.',
  ['inputs'],
  'all header field combinations, payload lengths, every truncation and mutation of the prefix',
  'Tests check a few payloads.',
  [F + 'client_payload.cc', F + 'payload_metadata.cc'],
  [('header codec', F + 'client_payload.cc')],
  ['EncodeClientPayload', 'DecodeAndConsumeClientPayloadHeader'])

p('C38', 'Dictionaries map tokens and ids as inverse functions',
  'For every vocabulary of distinct tokens and every choice of special ids, looking up a token gives its id, looking up an id gives its token, the size counts all of them with the special ids below, and every other token or id is reported as unknown. The ids blocked from output are the special ones followed by the ones given, and a description without vocabulary or whose blocked ids are not ascending or overlap the special ids is refused.',
  ['inputs', 'configurations'],
  'all vocabularies up to a few tokens over a small alphabet, all special-token configurations, all query strings and ids in range',
  'Tests use one vocabulary each.',
  ['fcp/dictionary/dictionary.cc'],
  [('lookup tables', 'fcp/dictionary/dictionary.cc')],
  ['Dictionary'])
p('C39', 'Tracing: spans nest, recorders see every event exactly once',
  'For every nesting of scoped and unscoped spans, events and explicit parents over threads, the recorder that is responsible - that of the enclosing or named span, else the one installed for the thread or the process, else the default one - sees every record exactly once with the right parent; every span start has one matching end, identifiers are unique, and recorders may be uninstalled or dropped at any moment without losing or failing a record. Data attached to a record decodes to the values that were logged under the tag, name and severity declared for it, its text rendering shows every field, and schemas with missing, malformed or duplicate tags are refused.',
  ['schedules', 'programs'],
  'all programs of bounded nesting depth on two threads with recorders installed and removed, within a preemption bound',
  'Tests use fixed nestings on one thread.',
  ['fcp/tracing/tracing_span.h', 'fcp/tracing/tracing_context_utils.cc', 'fcp/tracing/tracing_recorder_impl.cc', 'fcp/tracing/scoped_tracing_recorder.cc'],
  [('current span reference', 'fcp/tracing/tracing_span_ref.h'), ('recorder list', 'fcp/tracing/tracing_recorder_impl.cc')],
  ['TracingSpan', 'TraceEvent', 'TracingRecorder'])
p('C40', 'Demo server: each accepted upload is aggregated once, sessions end clean',
  'For every history and interleaving of authorizations, starts, uploads, submissions, departures, completion and abort, an authorization or client token works once and for its own session only, the result of a completed session holds exactly the uploads whose submission was accepted and comes only with enough of them, the status counts every client once, and an ended session accepts nothing, leaves no upload registered and answers every wait once. Clients get the oldest single-assignment task or exactly the existing multiple-assignment tasks they name, and the announced task list is the current one.',
  ['histories', 'schedules'],
  'all histories of 7 operations with two sessions and two clients, all sequences of 5 waits and submissions, all schedules of 12 pairs of requests within the preemption bound, all histories of 5 task changes',
  'The test covers the straight path.',
  ['fcp/demo/aggregations.py'],
  [('session bookkeeping', 'fcp/demo/aggregations.py')],
  ['Service', 'HTTP handlers'])
p('C41', 'Demo server: uploads are single-use and HTTP actions exact',
  'A registered upload takes exactly one body, hands it over once when finalized, and every other upload or finalization is refused; a file of a download group is served with its bytes, length and type exactly while the group is open, also when requests run at the same time. A request reaches the one action whose method and path pattern match, with percent-decoded path arguments and decompressed body, the answer or error of the action comes back unchanged, unmatched paths give 404, and undecodable bodies, messages and arguments give 400 without a call.',
  ['histories', 'inputs'],
  'all sequences of up to 6 upload and download operations, all schedules of concurrent ones within the preemption bound, all combinations of routes, path arguments, bodies, encodings and answers from the listed sets',
  'Tests use single requests.',
  ['fcp/demo/media.py', 'fcp/demo/http_actions.py'],
  [('registry', 'fcp/demo/media.py'), ('dispatch', 'fcp/demo/http_actions.py')],
  ['media.Service', 'http_actions.create_handler'])
p('C42', 'Host objects are found exactly while registered',
  'For every interleaving of registration, lookup and unregistration, a lookup of a token returns the object registered under it if its registration is still alive and nothing otherwise, and a found object stays usable while held. Registrations may be moved and overwritten without being lost, duplicated or left behind, and tokens differ whenever any of the 128 random bits they are drawn from differs.',
  ['schedules', 'histories'],
  'all interleavings within a preemption bound of two threads registering, looking up and unregistering, and all sequential histories with moves',
  'Tests check the sequential case.',
  ['fcp/tensorflow/host_object.cc', 'fcp/tensorflow/host_object.h'],
  [('registry lock', 'fcp/tensorflow/host_object.cc')],
  ['HostObjectRegistry'])
p('C43', 'Failures pass unchanged through every combinator',
  "Through any composition of the library's status and result combinators a success keeps its value, the first failure is what comes out with its code and message, and nothing after it is evaluated. A message built up in pieces contains all of them in order also when the builder is copied midway; a failed expectation is recorded once, under its own name and place. Matching on a value of several kinds runs exactly the case for the kind it holds.",
  ['programs', 'inputs'],
  'all compositions up to a bounded depth of the combinators over success and each error code; all builders of up to three pieces; all alternatives and forms of matching',
  'Tests check single combinators.',
  [B + 'result.h', B + 'monitoring.h', B + 'match.h'],
  [('combinators', B + 'result.h')],
  ['Result', 'Status', 'StatusOr'])
p('C44', 'Attestation records logged in pieces reassemble to the original',
  'A verification record of any size, logged in lines of limited length, is reassembled from the log into exactly the same record with its digest and the lines it was found in, several records in a row likewise, and foreign lines anywhere do not disturb it. Losing, repeating, swapping, cutting or altering a piece never yields a different record and does not affect the other records; a record whose end is missing and data that is not a record are not reported.',
  ['inputs', 'fault_sequences'],
  'every record size up to a bound, every kind of foreign line at every position, every damage of every piece, logs ending anywhere',
  'Tests use one record.',
  ['fcp/client/attestation/log_attestation_records.cc', 'fcp/client/attestation/extract_attestation_records.cc'],
  [('chunked logging', 'fcp/client/attestation/log_attestation_records.cc'), ('extraction', 'fcp/client/attestation/extract_attestation_records.cc')],
  ['LogAttestationRecords', 'ExtractRecords'])

p('C45', 'Times, status codes, paths and integers convert exactly',
  'Converting between proto and native durations and timestamps keeps the value exactly to the nanosecond, rounding finer durations toward zero and times down, with both parts of a negative duration negative; status codes and messages survive conversion between the gRPC and native representations. The base name of a path is what follows its last separator, joining paths puts one separator between non-empty parts, and a checked integer cast returns the same value or refuses.',
  ['inputs'],
  'boundary seconds crossed with boundary and sub-nanosecond parts and both signs; all status codes; all paths over a small alphabet up to a length; boundary values of every integer type pair',
  'Tests use a few literals.',
  [B + 'time_util.cc', B + 'status_converters.h', B + 'base_name.cc', B + 'bounds.h', B + 'platform.cc'],
  [('time conversion', B + 'time_util.cc'), ('base name', B + 'base_name.cc')],
  ['TimeUtil::Convert*', 'BaseName', 'ToGrpcStatus', 'FromGrpcStatus', 'ConcatPath'])

p('C46', 'File helpers report success only for what is really on disk',
  'When writing a string or a cord to a file is reported successful, the file holds exactly that content, and when reading a file is reported successful, exactly the content of the file is returned, whatever its size. A file-system call that fails at any point, including when buffered data is finally written out, makes the operation an error, and one that does only part of its work changes nothing in the result.',
  ['inputs', 'fault_sequences'],
  'contents around the buffer sizes, strings and cords in one to fifty pieces, new and existing files, every file-system call failing or falling short in four ways',
  'Tests never make a file-system call fail.',
  [B + 'platform.cc'],
  [('file helpers', B + 'platform.cc')],
  ['WriteStringToFile', 'WriteCordToFile', 'ReadFileToString', 'ReadFileToCord'])
p('C47', 'A session accepts exactly its next blob nonce, once',
  "In every history of blobs presented to a session, an encrypted blob is accepted exactly when it carries the session's next nonce, which moves the session on by one; repeated, skipped, foreign, shortened, lengthened, altered or missing nonces are refused as permission denied and change nothing, and unencrypted blobs pass without moving the session. The generator made from a session's nonce yields the accepted sequence without repetition, and the session nonce is 16 random bytes.",
  ['histories', 'inputs'],
  'all histories of blobs of twelve kinds within the depth, runs across the carries of the counter bytes, every random byte value',
  'Tests present a few blobs.',
  [F + 'crypto.cc'],
  [('blob nonces', F + 'crypto.cc')],
  ['NonceChecker', 'NonceGenerator'])
p('C48', 'Examples reach the computation once, in order, and are counted exactly',
  'The data set offered to a computation yields the examples of the first source that handles the query, each once and in order, then the end for good; a source that is missing or fails yields its error, which is kept as the explanation of a failed computation. The numbers of examples and bytes counted in total, per source and per recorded query are exactly those handed out, for sources whose use is to be counted, also when several threads read at the same time. The device conditions are looked at no more often than the polling period allows, and only what was just seen can end a run.',
  ['inputs', 'histories', 'schedules'],
  'all scripts of examples, errors and ends up to a length, up to three queries over usable and unusable sources, two threads on one or two iterators within the preemption bound, all short sequences of condition checks',
  'Tests read from one or two fixed sources on one thread.',
  [C + 'engine/plan_engine_helpers.cc', C + 'example_iterator_query_recorder.cc', C + 'simple_task_environment.cc'],
  [('dataset iterator', C + 'engine/plan_engine_helpers.cc:DatasetIterator'), ('query recorder', C + 'example_iterator_query_recorder.cc')],
  ['AddDatasetTokenToInputsForTfLite', 'ExampleIteratorQueryRecorder', 'SimpleTaskEnvironment::ShouldAbort'])

p('C49', 'A federated run publishes and records exactly what happened',
  'Every run publishes, in order, exactly one event for each step it took and for how that step ended, under the task it concerns and with the traffic, time, examples and, unless configured otherwise, error text of that step. It leaves exactly one entry in the run history, with the same steps in the same order under their phases, the task, the data read and the error of each, the total traffic of the run, the last retry window and the separation index of the plan; earlier entries stay as they were. A run whose history or cache cannot be opened publishes that and goes on unless the cache was required, and one with an entry point that is neither https nor local makes no contact.',
  ['fault_sequences', 'configurations', 'histories'],
  'the same runs as for the course of a run, with every activity costing an amount that identifies it, and all beginnings of a run: usable and unusable history and cache, cache wanted or needed, entry points of every form',
  'Tests of the phase logger pass it one call at a time; no test runs it under the whole client.',
  [C + 'fl_runner.cc', C + 'phase_logger_impl.cc', C + 'opstats/opstats_logger_impl.cc'],
  [('phase logging', C + 'phase_logger_impl.cc'), ('network and time accounting', C + 'fl_runner.cc:UpdateRetryWindowAndNetworkStats')],
  ['EventPublisher calls', 'OpStatsDb contents', 'RunFederatedComputation'])

p('C50', 'A local computation gets exactly its inputs and reports how it ended',
  'A local computation starts only when the device conditions allow it and the plan can be read and is one for local computation; the engine is then given exactly the input directory or the named resources the plan asks for and the output directory, resources the plan does not know are ignored, and giving both kinds of input is refused. Examples are asked for under the session, directories and resources of the run, except the run history, which the client answers itself, and the engine is told to stop as soon as a look at the conditions, no more often than the polling period, says so. The result, the published events with duration, examples and error, and the one entry left in the history all say the same about how the computation ended.',
  ['inputs', 'configurations', 'fault_sequences'],
  'all kinds of plan files, sets of given resources, with and without input and output directory, conditions at the start and lost on the way, all outcomes of the engine, usable and unusable history, phases and error texts switched on and off',
  'The existing tests need a TensorFlow runtime and follow single cases.',
  [C + 'lc_runner.cc', C + 'engine/common.cc', C + 'phase_logger_impl.cc'],
  [('local run', C + 'lc_runner.cc:RunLocalComputation'), ('inputs', C + 'lc_runner.cc:ConstructInputsForTFLitePlan')],
  ['RunLocalComputation', 'EventPublisher calls', 'OpStatsDb contents'])

p('C51', 'A plan runs on exactly its described inputs and its end is named rightly',
  'A graph is run only when the given inputs and requested outputs are exactly those the plan describes, and then once, with those inputs, the text constants of the plan unchanged, access to the examples for the duration of the run only, and the configured options, time limits and interruption. A successful run yields the outputs of the graph in order and the exact number and bytes of the examples it read. A run that fails is reported as interrupted when the runtime or a source of examples was interrupted, as a failure of the examples when a source failed, and as a failure of the graph otherwise.',
  ['inputs', 'configurations', 'fault_sequences'],
  'all sets of up to three given and described inputs and outputs, constants of each kind, options, and all courses of opening, reading and ending up to two example sources with every ending of the runtime',
  'The existing tests need a TensorFlow runtime and follow single plans.',
  [C + 'engine/tflite_plan_engine.cc', C + 'engine/common.cc', C + 'engine/plan_engine_helpers.cc'],
  [('plan engine', C + 'engine/tflite_plan_engine.cc:RunPlan'), ('classification', C + 'engine/plan_engine_helpers.cc:CreateComputationErrorPlanResult')],
  ['TfLitePlanEngine::RunPlan', 'PlanResult'])

p('C52', 'Requests over libcurl are sent as asked and end exactly once',
  'Performed over libcurl, a request is sent once with its method, address, headers, body and given length, following redirects, verifying the server and without cookies; its callback learns at most once that the final response started, gets the body in order, and then exactly one ending: completed only if the transfer succeeded, an error otherwise, which is the cancellation if it was cancelled and the error of the request body if that could not be read. A callback that returns an error hears nothing more of that request, and after an ending only data under way when it was cancelled may follow. The call returns when all its requests have ended, whatever the order in which they progress, refuses a request performed before, counts the bytes sent and received, and leaves nothing behind.',
  ['inputs', 'fault_sequences', 'schedules'],
  'all methods, bodies, lengths and encodings with every point of failure, cancellation and refusal, and all interleavings of two requests',
  'The existing tests need a web server and follow successful requests and one cancellation.',
  [H + 'curl/curl_http_request_handle.cc', H + 'curl/curl_http_client.cc', H + 'curl/curl_api.cc'],
  [('request handle', H + 'curl/curl_http_request_handle.cc'), ('performing requests', H + 'curl/curl_http_client.cc:PerformRequests')],
  ['HttpRequestCallback calls', 'libcurl options and callbacks', 'TotalSentReceivedBytes'])

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    assert all(len(d['title']) <= 80 for d in P), [d['title'] for d in P if len(d['title']) > 80]
