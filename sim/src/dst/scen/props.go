package scen

const realKeys = "src/util (key store, ECDSA helpers), src/collection, gopass; crypto, hex, bufio of the standard library"

const realEnc = "src/util (keys, values, records, schemes, varints), src/collection"

func init() {
	property("C01", 240000, "One run: a fresh or prepared machine, up to 3 epochs of saves of up to 3 ids by several processes, each epoch ended by power loss at a random point, then both halves of every id loaded back and compared.", realKeys,
		sc("durable", 1, c01))
	property("C02", 204000, "One run: up to 4 saves or re-saves, each cut by a kill or power loss at a random system call (or inside a write), then every half loaded and compared with old and new.", realKeys,
		sc("cut", 1, c02))
	property("C03", 300000, "One run: one first save in a process interleaved with up to 2 observing processes at statement granularity, perhaps killed or cut by power loss; the pair examined by the observers, after the save and after power loss.", realKeys,
		sc("observer", 1, c03))
	property("C04", 300000, "One run: a saved pair, then up to 4 damages of one of its files, each followed by loads of both halves.", realKeys,
		sc("damage", 1, c04))
	property("C05", 160000, "One run: up to 4 rounds of saves and loads under injected storage errors, short writes and full disks, then everything examined without faults, with a retry.", realKeys,
		sc("errors", 1, c05))
	property("C06", 320000, "One run: up to 6 saves of few pairs under faults, crashes and entropy failures, with every file examined for clear secrets and modes after every file system change.", realKeys,
		sc("leak", 4, c06), sc("sessions", 1, c06sessions))
	property("C07", 80000, "One run: up to 3 key pairs generated from a (possibly biased) entropy source, saved, perhaps a power loss, loaded by other processes, used to sign and verify.", realKeys+"; P-256 and ECDSA of the standard library",
		sc("generate", 1, c07))
	property("C08", 320000, "One run: up to 4 threads of one or several processes saving and loading one or two ids, preempted at statements and system calls, perhaps one process killed; the history of each half checked for linearizability.", realKeys,
		sc("concurrent", 1, c08))
	property("C09", 120000, "One run: up to 5 sessions of the key generation program with typed input, faults, kills and power losses, then a forced session; keys and aliases examined after each, and the alias after every file system change.", "src/main/pkeygen.go, "+realKeys,
		sc("sessions", 1, c09))
	property("C10", 100000, "One run: a sender signs up to 6 records with its stored key and retransmits them over a faulty network until acknowledged; a receiver, killed and restarted up to twice, verifies them under the stored public key and journals them; then the network heals and everything must arrive.", realEnc+", key store; P-256 and ECDSA of the standard library",
		sc("network", 1, c10))
	property("C11", 500000, "One run: up to 3 times, a process appends up to 6 records, keys or values, and a crash tears the tail at a random byte; another process then reads everything back, copies and re-encodes it.", realEnc,
		sc("journal", 1, c11))
	property("C12", 800000, "One run: a process decodes up to 5 damaged encodings, encodings of something else, or garbage; every accessor of what is accepted is called repeatedly in random orders, and everything is decoded again from other copies of the same bytes.", realEnc+", consensus times and ids, index tables",
		sc("damaged", 1, c12))
	property("C13", 300000, "One run: 2 to 4 replicas, up to 8 timestamped updates of one kind, gossiped over a network that loses, duplicates, delays, reorders and partitions, up to 3 kills and restarts; each keeps the greatest by a comparison chosen each time; then the network heals and all must hold the greatest.", "src/util (consensus times)",
		sc("replicas", 1, c13))
	property("C14", 800000, "One run: one or two threads, each with a hash map or set of its own, seeded from a possibly biased entropy source, of custom keys with colliding hashes, slices or record keys; up to 42 operations or bulk operations, or a long history of up to 500 members (rarely up to 69000), some abandoned by a failing key callback, each compared with a reference.", "src/collection (hash map, hash set, hashable slices), record keys",
		sc("hash", 1, c14))
	property("C15", 800000, "One run: one or two threads, each with a sorted map or set of its own, of custom keys, slices or record keys; up to 42 operations or bulk operations, or a long history of up to 500 members (rarely up to 69000), some abandoned by a failing comparison; every result, iteration, range and the depth of look-ups compared with a reference.", "src/collection (AVL tree, sorted map, sorted set, comparable slices), record keys",
		sc("sorted", 1, c15))
	property("C16", 800000, "One run: 2 to 4 threads, preempted at statements, read one object (a collection, keys, encoded or decoded values, records, schemes, consensus values or an index table, often never read before), perhaps one of them failing part way; each result is compared with what a lone reader of a twin gets, and everything is read again afterwards.", "src/collection, src/util (keys, values, records, schemes, consensus values, index table)",
		sc("readers", 1, c16))
	property("C17", 210000, "One run: an index built over 0 to 2048 distinct keys (rarely up to 270000), by one or two threads, from a possibly biased entropy source, looked up, encoded and stored; perhaps a power loss; loaded by another process and looked up; then up to 3 damages of the stored index, each loaded and looked up.", "src/util (index table, keys), src/collection (hash function)",
		sc("index", 1, c17))
	property("C18", 600000, "One run: threads draw random values of all types, in ranges of all kinds including extreme ones, plainly or until their spread is known; or processes generate keys, sign, save, make hash containers and build indexes; the entropy source is biased to extremes, fails from some read on, or is healthy, and the bytes taken from it are counted.", "src/util (random helpers, ECDSA helpers, key store, index table), src/collection (hash containers); P-256 and ECDSA of the standard library",
		sc("ranges", 3, c18ranges), sc("plain", 2, c18plain), sc("users", 1, c18users))
	property("C19", 600000, "One run: up to 4 processes after each other, each opening, writing, syncing, closing and re-opening one or two files through the sync-file helper in as many threads, under injected errors, short writes, full disks, kills and power losses; what is there is compared with what was promised after each call and after each power loss.", "src/util (sync-file helper)",
		sc("syncfile", 1, c19))
	property("C20", 300000, "One run: up to 28 switches and messages of up to 2 processes at a time, some killed and replaced by one of the same id, some switches failing; or threads that log while others switch. Every message must be where it was sent, once and in order, and nothing overwritten.", "src/util (log destination)",
		sc("history", 3, c20history), sc("threads", 1, c20threads))
	property("C25", 400000, "One run: a node receives up to 5 packets of records, keys, values, schemes and consensus ids over a network that loses, duplicates, delays, reorders and damages, into one buffer that each packet overwrites, and keeps copies; one or two workers, preempted at statements, copy the copies, build on them and encode them; every copy and every encoding handed out is compared with what it must be.", realEnc+", consensus ids",
		sc("copies", 1, c25))
}
