#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the text is easy to edit).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
LC='src/util/lc_util.go'; EC='src/util/ecdsa_util.go'; PK='src/main/pkeygen.go'

p('C01','An acknowledged key save survives power loss',
 "Once saving a key pair has reported success, the pair is durable: after a power failure at any later instant and a restart, loading the public key and (with the secret used) the private key of that class and id returns exactly the saved pair. This holds for the first key of a fresh machine, for later keys, and for a save that replaces an existing pair, until a later acknowledged save replaces it again.",
 ['crash_points','histories','fault_sequences'],
 'every history of saves over classes/ids, every power-cut point after an acknowledgement, every legal outcome of un-synced writes and directory updates',
 'The only key-store test saves and immediately loads through the page cache; nothing ever loses power, so data and directory entries that were never forced to disk look saved.',
 [LC,PK],[('write-to-disk sequence of a key save','lc_save_key_pair / lc_mkdir_if_not_exist in '+LC)],
 ['LCSaveKeyPair result','LCLoadPubKey/LCLoadPrivKey after restart'],
 [('key files','<cls>_id and <cls>_id.pub under /etc/poodle/<cls>/<id>',LC)])

p('C02','A crash inside a key save leaves old or new, never a damaged key',
 "If power fails or the process dies at any point during a save or re-save of a key pair, then after restart each half of the pair loads as exactly its previous value or exactly the value being saved (absent counts as the previous value only if there was none). No load returns any other key, and no previously saved half is lost or left damaged; a retried save then succeeds.",
 ['crash_points','histories','fault_sequences'],
 'every kill or power-cut point inside a save, first save or overwrite, every torn, partial or reordered persistence of its writes',
 'Tests never stop a save half way, and never overwrite an existing pair.',
 [LC],[('replacement of key files','lc_save_key_pair / lc_save_pub_key in '+LC)],
 ['LCLoadPubKey/LCLoadPrivKey after restart'])

p('C03','A visible public key implies a recoverable private key',
 "The private half is committed before the public half is published: whenever the public key of an id being saved for the first time can be loaded - by a concurrent observer, after a process death, or after a power failure - the matching private key can also be loaded with the saved secret. Saving one id never makes any other id's key unreadable or different.",
 ['crash_points','schedules','fault_sequences'],
 'every interleaving of an observer with a save, every kill and power-cut point, every legal reordering of un-synced directory updates',
 'Needs an observer or a crash between the two file writes; the test looks only after both.',
 [LC],[('private before public write order','lc_save_key_pair in '+LC)],
 ['LCExistPubKey, LCLoadPubKey, LCLoadPrivKey from another thread or after restart'])

p('C04','Damaged key files are rejected, never misread',
 "Loading a key whose file was truncated, extended, bit-flipped, overwritten, zero-filled or emptied returns either exactly the key originally saved or an error - promptly, without panicking, and never some other key. The same holds for an entry that is a directory, a dangling link, or unreadable.",
 ['fault_sequences','inputs'],
 'every single or multiple storage corruption of either key file, including ones whose checksum still matches by truncation to special lengths',
 'Tests only load files that were written intact a moment before.',
 [LC,EC],[('hex + CRC32 framing and AES-GCM tag','lc_load_key_data / lc_load_priv_key / lc_load_pub_key in '+LC),('point decompression','ECDSAGetPublicKey in '+EC)],
 ['LCLoadPubKey, LCLoadPrivKey'])

p('C05','Storage errors surface and never destroy an existing key',
 "When any storage operation during a save fails (no space, I/O error, permission, descriptor exhaustion, short write, failed flush), or the save cannot be done (a secret that is no cipher key, a key that a file cannot hold, a file in the place of the directory), the save returns an error rather than success or a panic, and the pair stored before it is still loadable unchanged or has been replaced completely. A save reported successful is always loadable; once the fault clears, retrying the save succeeds.",
 ['fault_sequences','histories'],
 'every placement of one or more failing storage calls within saves and loads, with or without an existing pair',
 'Tests run on a healthy disk; no storage call ever fails.',
 [LC],[('error propagation and replacement of key files','lc_save_key_pair / lc_mkdir_if_not_exist in '+LC)],
 ['LCSaveKeyPair / LCLoad* results under injected errors'])

p('C06','Private keys are never exposed at rest',
 "At every instant, including after crashes, no file holds the private scalar or the secret in clear, and any file holding the encrypted private key is accessible to its owner only; nothing of them is printed or logged. Every save encrypts under a fresh random nonce, a save without usable entropy fails, and loading under any secret other than the one saved is refused.",
 ['histories','crash_points','fault_sequences','inputs'],
 'every instant of every save history, every crash remnant, every wrong secret, every entropy outcome',
 'No test inspects what is on disk at intermediate instants, its permissions, or nonce reuse across saves; none uses a wrong secret.',
 [LC,PK],[('AES-GCM with random nonce, mode 0600','lc_save_key_pair in '+LC)],
 ['file contents and modes after every file system operation, process output'])

p('C07','Every generated key pair works after save and restart',
 "For every outcome of key generation, the pair saved and loaded back verifies: a signature made with the loaded private key is accepted under the loaded public key, a signature over a different message is not, and the loaded private key equals the generated one. This also holds for keys whose numbers have leading zero bytes.",
 ['inputs','histories'],
 'every random outcome of generation and signing, including rare short encodings',
 'The tests generate a few keys and verify only with the in-memory public key, never with the one reconstructed from storage, which takes one of two possible points.',
 [EC,LC],[('public key stored as X coordinate only','ECDSAGetPublicKey / ECDSACalculateY / ECDSAGenerateKey in '+EC),('32-byte integer encoding','BigIntToByteArray in src/collection/util.go')],
 ['ECDSAGenerateKey, ECDSASign, ECDSAVerify, LCLoad*'])

p('C08','Concurrent key saves and loads are atomic',
 "With any number of threads or processes saving and loading the same or different ids at once, every load returns a value some save of that id wrote completely (or reports absence before the first one), never a mixture and never a spurious failure; once a save has returned, no later load sees anything older. Each half of a key behaves as an atomic register per class and id.",
 ['schedules','histories'],
 'every interleaving of the steps of concurrent saves and loads, in one process and across processes',
 'Tests are single-threaded.',
 [LC],[('replacement of key files','lc_save_key_pair in '+LC)],
 ['LCSaveKeyPair / LCLoad* call-return history, checked for linearizability'])

p('C09','Key generation sessions are all-or-nothing and aliases are never lost',
 "A key-generation session that reports a generated key and alias leaves both durable and usable, and the same passphrase typed at the load prompt reopens the key. A session that is declined, fails, is killed, or loses power never removes or redirects an existing alias to anything but the old or a complete new key, and a mismatched or too short passphrase stores nothing; a later forced session succeeds.",
 ['histories','crash_points','fault_sequences'],
 'every sequence of sessions and terminal inputs, existing, absent or dangling aliases, every kill, power-cut or failing call inside a session',
 'There is no test of the program at all, and the window between removing and recreating an alias needs a crash or failure inside it.',
 [PK,LC],[('alias symlink','process_key in '+PK),('passphrase prompt','PromptPassphrase / LCLoadPrivKeyPrompt in '+LC)],
 ['exit status and output of the program, alias resolution, LCLoad* after restart'])

p('C10','Signed records survive a faulty network or are rejected',
 "A record encoded and sent by one node over a network that drops, duplicates, reorders, delays, truncates, merges or corrupts packets is, at the receiver, either decoded to exactly the key, value, scheme, timestamp and signature sent, or rejected. An authentic record always verifies under the sender's stored public key, and a damaged or substituted one never does; retransmission eventually delivers every record exactly once in content.",
 ['fault_sequences','inputs','schedules'],
 'every record shape, every sequence of packet faults, every timing',
 'The record test is empty; no encoded record is ever decoded, damaged or verified in the tests.',
 ['src/util/record_util.go','src/util/key_util.go','src/util/value_util.go','src/util/ecdsa_util.go'],
 [('record codec','Record.Encode / MappedRecord.Decode in src/util/record_util.go'),('signature','ECDSASign / ECDSAVerify in src/util/ecdsa_util.go')],
 ['NewMappedRecord accessors, Buf, ECDSAVerify'])

p('C11','A record journal recovers exactly its complete records',
 "Records, keys, values and schemes, and the numbers and length-prefixed strings they are made of, appended one after another to a byte stream are self-delimiting: after a crash that tears the tail at any byte, reading back yields exactly the complete records in order with identical content, and the torn last one is reported as an error rather than as a shorter record. What an encoding cannot hold is refused when it is encoded. Re-encoding what was read reproduces the same bytes.",
 ['crash_points','histories','inputs'],
 'every sequence of encodable records and every byte position at which the tail is torn',
 'Tests round-trip single keys and values in memory; none concatenates, tears or re-reads a stream.',
 ['src/util/record_util.go','src/util/key_util.go','src/util/value_util.go','src/util/misc_util.go','src/util/scheme_util.go'],
 [('length-prefixed encodings and consumed-length results','NewMappedRecord, NewMappedKey, NewStandardMappedValue')],
 ['decoder results and consumed lengths'])

p('C12','Decoders are total and stable on damaged input',
 "Given any bytes - an encoding damaged in storage or transit, or garbage - every decoder of keys, values, records, schemes, consensus times, consensus ids and index tables returns a result or an error within time and memory bounded by the input size, without panicking. An undamaged encoding is always accepted, whole. Reading, copying or decoding again anything it accepted never panics either, and gives the same outcome every time; and nothing that was cut short is accepted as the whole. An accepted consensus time or id is encoded as the bytes it was read from.",
 ['fault_sequences','inputs'],
 'every damaged encoding, and every order of accessor calls and retries on a partly decoded object',
 'Tests decode only what they encoded.',
 ['src/util/key_util.go','src/util/value_util.go','src/util/record_util.go','src/util/scheme_util.go','src/util/consensus_util.go','src/util/mph_util.go','src/util/misc_util.go'],
 [('length checks in decoders','DecodeVarchar, DecodeUvarint64 in src/util/misc_util.go; Decode methods')],
 ['decoder results, accessors, step count and allocation size'])

p('C13','Replicas ordering updates by consensus time converge',
 "Replicas that exchange timestamped updates over a faulty network and keep the one with the greatest consensus time end in the same state whatever the delivery order, duplication or crash, because consensus times form one total order that survives being sent and stored. Exactly one of less, equal, greater holds for any two times of one kind, all six comparisons agree with it, and times of different kinds are reported as incomparable.",
 ['schedules','fault_sequences','inputs'],
 'every set of updates, every delivery order, duplication, loss and restart, times near boundaries',
 'Consensus times have no tests.',
 ['src/util/consensus_util.go'],
 [('lexicographic comparison and wire form','LedgerTime / RaftTime / NewConsensusTime in src/util/consensus_util.go')],
 ['final replica states, comparison results, wire round trip'])

p('C14','Hash map and hash set behave as a map for every seed and history',
 "Under every random hash seed and every history of put, get, remove, has and size - including keys whose hashes collide - the hash map and set return exactly what a mathematical map or set would, and iterating yields each member exactly once. An operation that is abandoned part way because a key's hash or equality function fails leaves the container exactly as it was or with the operation completed, and still fully usable.",
 ['histories','inputs','fault_sequences'],
 'every per-process random seed, every operation history, every abandonment point, colliding and non-colliding keys',
 'Each test process draws one seed and runs one insertion order; colliding buckets and failing key callbacks never occur.',
 ['src/collection/hash.go','src/collection/hash_map.go','src/collection/hash_set.go','src/collection/hashable.go'],
 [('murmur hash with random seed, AVL of buckets','src/collection/hash.go')],
 ['operation results compared with a reference map'])

p('C15','Sorted map and set stay ordered and balanced in every history',
 "For every history of insertions, removals and lookups the sorted map and set agree with a reference ordered map, their iterators and range iterators yield exactly the members in range in order, and their height stays logarithmic in their size. An operation abandoned part way because a key comparison fails leaves the container exactly as it was or with the operation completed, and still ordered and usable.",
 ['histories','fault_sequences'],
 'every history of operations, every range, every abandonment point',
 'One fixed history is tested; range iteration bounds, two-child removals under failure and height are not checked.',
 ['src/collection/avl.go','src/collection/sorted_map.go','src/collection/sorted_set.go','src/collection/comparable.go'],
 [('AVL rebalancing','src/collection/avl.go')],
 ['operation results, iterator output, tree height'])

p('C16','Readers of shared structures do not disturb each other',
 "Any number of threads that only read the same collection, iterator source, key, encoded value, decoded record or index table at the same time each get the result they would get alone. Reading never changes what any later reader sees.",
 ['schedules'],
 'every interleaving, at statement granularity, of read-only operations on shared objects',
 'Tests are single-threaded and never read one object from two places at once.',
 ['src/collection/avl.go','src/collection/hash.go','src/util/key_util.go','src/util/value_util.go','src/util/record_util.go','src/util/mph_util.go'],
 [('read paths keep no shared mutable state','Get/Has/Iterator/Lookup and decoded accessors')],
 ['results of concurrent readers compared with solo results'])

p('C17','The perfect-hash index is exact for every seed and survives storage',
 "For every set of distinct keys and every random choice made while building, building terminates within a bounded effort and every key then looks up to its own position; under exact verification nothing else is ever found, and under verification by hash a foreign key only by a 32-bit coincidence. Encoding the index, storing it and loading it in another process gives the same answers, and a damaged stored index is rejected or still answers without panicking.",
 ['inputs','histories','fault_sequences'],
 'every set of distinct keys (single, multi-part, sharing parts, empty set), every random seed, every storage corruption',
 'Tests use fixed word lists of single-part keys and one random seed per process.',
 ['src/util/mph_util.go','src/util/key_util.go','src/util/rand_util.go'],
 [('hash-displace-compress search','MPHBuild in src/util/mph_util.go'),('table codec','NewMPHTable / Encode')],
 ['Lookup results, build steps, decoder results'])

p('C18','Random values stay in range and entropy failure is never silent',
 "Every ranged random helper returns a value not below the lower and strictly below the upper bound for all non-empty ranges, including negative and extreme ones, can return every value of a small range, and takes it from the system entropy source. If the entropy source fails, the helpers, key generation, signing and saving fail visibly - no fixed, repeated or predictable value is ever returned, or used as a hash or index seed, as if random.",
 ['inputs','fault_sequences'],
 'every pair of bounds, every output of the entropy source including extreme bytes and failure at every read',
 'One test draws a few values in one range from a healthy source.',
 ['src/util/rand_util.go','src/util/ecdsa_util.go','src/collection/hash.go'],
 [('crypto/rand reads','src/util/rand_util.go, randUint32 in src/collection')],
 ['returned values, panics or errors under injected entropy'])

p('C19','The sync-file helper keeps its durability promise',
 "After opening the helper's file and writing, a sync that returns normally means every byte written before it survives power loss, and re-opening starts from an empty file. Any failing open, write (including short) or sync is reported by a panic rather than ignored, and a reported failure never corrupts bytes already synced.",
 ['crash_points','fault_sequences'],
 'every sequence of open, write, sync, close with any failing call and any power-cut point',
 'Only benchmarks call it, on a healthy disk without power loss.',
 ['src/util/fsync.go'],[('fsync wrapper','Sync in src/util/fsync.go')],
 ['file content after restart, panics under injected errors'])

p('C20','Log redirection never loses messages',
 "Switching the log destination between standard output and the per-process log file, in any order, any number of times and after any failed attempt, leaves every later message in the destination selected last; appending never overwrites earlier messages, including those of an earlier process with the same id. A switch that fails returns an error and keeps the previous destination working.",
 ['histories','fault_sequences'],
 'every sequence of switches, log calls, failing opens, and process restarts',
 'The logger functions have no tests.',
 [LC],[('cached log file handle','LCSetLoggerStdout / LCSetLoggerFileTmp in '+LC)],
 ['standard output and log file contents'])

p('C21','The range trie behaves as an ordered multi-level map',
 "For every history of inserts, lookups, removals and iteration the trie returns exactly what a reference multi-level ordered map would.",
 ['histories'],
 'every history of operations',
 'The trie has no tests.',
 ['src/util/trie_util.go'],[('trie nodes','src/util/trie_util.go')],['operation results'])

p('C22','Sorted tables keep and find every stored row',
 "Every row written to a sorted table file is found again by key after restart, and no other row is.",
 ['histories','crash_points'],
 'every table content and crash point',
 'The package does not compile at this commit, so no test of it can run.',
 ['src/pdb/sstable.go','src/pdb/table_test.go'],[('sstable layout','src/pdb/sstable.go')],['table lookups'])

p('C23','Clusters agree on one history of updates',
 "Nodes of a cluster never disagree on the order or content of committed updates, whatever messages are lost or nodes restarted.",
 ['schedules','crash_points','fault_sequences'],
 'every schedule of messages, crashes and elections',
 'Consensus is described in the design document but not implemented.',
 ['design.md','src/main/poodle.go'],[('Raft and ledger consensus (design only)','design.md')],['committed logs'])

p('C24','Textual and hash encodings are exact',
 "Base58 text decodes back to the bytes it was made from, and the byte-string hash equals the published MurmurHash3 function, for every input.",
 ['inputs'],
 'every byte string',
 'Tests sample a handful of vectors.',
 ['src/util/base58_util.go','src/collection/hash.go'],[('base58, murmur','src/util/base58_util.go, src/collection/hash.go')],['function results'])

p('C25','Copies outlive the buffer they were read from',
 "A copy (plain or modifiable) of a record, key, value, scheme or consensus id - also of a part of one, or of a copy - says exactly what the original said when it was copied, encoded or read, in memory or after being encoded and decoded. It keeps saying so whatever happens afterwards: the buffer the original lay in is overwritten by the next message, the original or another copy is changed or dropped, in any interleaving of threads; and changing it changes nothing else. An encoding once handed out never changes.",
 ['schedules','histories','fault_sequences'],
 'every history of receiving into a reused buffer, copying, changing and encoding, by any number of threads, with lost, duplicated, reordered and damaged messages',
 'Tests copy an object and compare at once; none overwrites the buffer or changes original and copy.',
 ['src/util/key_util.go','src/util/value_util.go','src/util/record_util.go','src/util/scheme_util.go','src/util/consensus_util.go'],
 [('deep copies','Copy and CopyConstruct methods'),('fresh encoding buffers','Encode methods')],
 ['contents of copies, and encodings handed out, over time'])

with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
