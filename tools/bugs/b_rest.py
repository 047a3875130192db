P='''package util

import (
	"testing"
	"time"
	"math/big"
	"../collection"
)

var _ = time.Now
var _ = big.NewInt
var _ = collection.NewHash
'''
C='''package collection

import "testing"
import "fmt"

type demoKey struct {
	i    int
	same bool   // all hashes the same
	boom *int   // when it reaches 0 hash and comparison panic
}

func (k demoKey) tick() {
	if k.boom != nil {
		*k.boom--
		if *k.boom == 0 {
			panic("comparison failed")
		}
	}
}
func (k demoKey) Equal(o IObject) bool { return k.i == o.(demoKey).i }
func (k demoKey) Compare(o IComparable) int { k.tick(); return k.i - o.(demoKey).i }
func (k demoKey) HashUint32(f func([]byte) uint32) uint32 {
	k.tick()
	if k.same {
		return 7
	}
	return f([]byte{byte(k.i), byte(k.i >> 8), byte(k.i >> 16)})
}

var _ = fmt.Sprint
'''
bug('c09-passphrases-compared-padded','C09',[('util/lc_util.go','''		if !bytes.Equal(bytePassword, bytePassword2) {
''','''		if !bytes.Equal(lc_pad_secret(bytePassword), lc_pad_secret(bytePassword2)) {
''')],None,'two passphrases that differ only after their 16th byte','a mismatched passphrase generates and stores a key',pkg='main',script='''
printf 'passphrase-012345-one\\npassphrase-012345-two\\n' | timeout 60 "$d/pkeygen" -class node -alias bob > "$d/out" 2>&1
rc=$?
cat "$d/out"; find "$d/etc"
# nothing may be stored, and the session must not report success
[ $rc != 0 ] && [ -z "$(find "$d/etc" -name 'node_id*' 2>/dev/null)" ]
''')
bug('c09-alias-checked-late','C09',[('main/pkeygen.go','''        if (check_path_exist(alias_path) && !force) {
            input := util.PromptText("Alias [" + alias + "] already exist.  Overwrite? [y/N]")
            if (input != "y" && input != "Y") {
                os.Exit(1)
            }
        }
''','''        if (check_path_exist(alias_path) && !force) {
            input := util.PromptText("Alias [" + alias + "] already exist.  Overwrite? [y/N]")
            if (len(input) > 0 && input != "y" && input != "Y") {
                os.Exit(1)
            }
        }
''')],None,'the answer to the question is the end of the input (or just Enter)','an alias is overwritten although the question was not answered with yes',pkg='main',script='''
printf 'passphrase-0\\npassphrase-0\\n' | timeout 60 "$d/pkeygen" -class node -alias bob > "$d/out" 2>&1 || exit 2
old=$(readlink "$d/etc/node/bob")
# nobody answers the question; the passphrase comes later
(printf '\\n'; sleep 2; printf 'passphrase-1\\npassphrase-1\\n') | timeout 60 "$d/pkeygen" -class node -alias bob > "$d/out" 2>&1
cat "$d/out"
[ "$(readlink "$d/etc/node/bob")" = "$old" ]
''')
bug('c10-list-content-of-256-bytes','C10',[('util/value_util.go','''	} else if content_len < 256 {

		buf[0] |= 0x01
		buf = append(buf, uint8(content_len))
		buf = append(buf, content_buf...)
		d.buf = buf
		d.encoded = true
		return nil
''','''	} else if content_len <= 256 {

		buf[0] |= 0x01
		buf = append(buf, uint8(content_len))
		buf = append(buf, content_buf...)
		d.buf = buf
		d.encoded = true
		return nil
''')],P+'''
func TestDemo(t *testing.T) {
	for n := 1; n < 600; n++ {
		l := NewRecordList().Append(NewRecord().SetK([]byte("k")).SetV(make([]byte, n)))
		r := NewRecord().SetK([]byte("k")).SetValue(l)
		if err := r.Encode(nil); err != nil {
			t.Fatal(err)
		}
		m, _, err := NewMappedRecord(r.Buf())
		if err == nil {
			_, err = m.Value().RecordAt(0)
		}
		if err != nil {
			t.Errorf("a record with a list of a record with a value of %d bytes does not survive: %v", n, err)
		}
	}
}
''','a list of records whose content takes exactly 256 bytes','the length of the content of such a list is encoded as 0')
bug('c10-signature-short','C10',[('collection/util.go','''		buf := make([]byte, 32-len(input))
		return append(buf, input[:]...)
''','''		buf := make([]byte, 32)
		copy(buf[1:], input)
		return buf
''')],P+'''
func TestDemo(t *testing.T) {
	for i := uint(0); i < 256; i++ {
		r := new(big.Int).Lsh(big.NewInt(1), i)
		s := new(big.Int).Sub(r, big.NewInt(1))
		x := NewRecord().SetK([]byte("k")).SetSignature(r, s)
		if err := x.Encode(nil); err != nil {
			t.Fatal(err)
		}
		m, _, err := NewMappedRecord(x.Buf())
		if err != nil {
			t.Fatal(err)
		}
		if mr, ms := m.Signature(); mr.Cmp(r) != 0 || ms.Cmp(s) != 0 {
			t.Fatalf("signature %x %x comes back as %x %x", r, s, mr, ms)
		}
	}
}
''','a signature one of whose numbers has two leading zero bytes (about one record in 30000)','such a signature does not survive being encoded')
bug('c11-list-of-256','C11',[('util/value_util.go','''	} else if size < 256 {
		buf[0] |= 0x01 << 4
''','''	} else if size <= 256 {
		buf[0] |= 0x01 << 4
''')],P+'''
func TestDemo(t *testing.T) {
	for _, n := range []int{1, 2, 254, 255, 256, 257, 300} {
		l := NewRecordList()
		for i := 0; i < n; i++ {
			l.Append(NewRecord().SetK([]byte{1}))
		}
		if err := l.Encode(nil); err != nil {
			t.Fatal(err)
		}
		v, _, err := NewStandardMappedValue(l.Buf())
		if err != nil {
			t.Errorf("list of %d: %v", n, err)
		} else if int(v.Size()) != n {
			t.Errorf("list of %d has size %d", n, v.Size())
		}
	}
}
''','a list of exactly 256 records','the size of a list of 256 records is encoded as 0')
bug('c12-two-byte-length','C12',[('util/value_util.go','''		if len(d.buf) < 2+int(pos) {
			return 0, fmt.Errorf("StandardMappedValue::Decode - invalid buf 2, no length, %d, %x", len(d.buf), d.buf)
		}
''','''		if len(d.buf) <= int(pos) {
			return 0, fmt.Errorf("StandardMappedValue::Decode - invalid buf 2, no length, %d, %x", len(d.buf), d.buf)
		}
''')],P+'''
func TestDemo(t *testing.T) {
	v := NewPrimitive(make([]byte, 300))
	if err := v.Encode(nil); err != nil {
		t.Fatal(err)
	}
	for n := range v.Buf() {
		if _, _, err := NewStandardMappedValue(append([]byte(nil), v.Buf()[:n]...)); err == nil {
			t.Errorf("a value cut off after %d bytes is accepted", n)
		}
	}
}
''','an encoding of a long value that is cut off within its two bytes of length','decoding it panics')
bug('c13-wrapping-count','C13',[('util/consensus_util.go','''			return false, nil
		}
		if t.count > tmp.count {
			return true, nil
		} else if t.count < tmp.count {
			return false, nil
		}
		return false, nil
	} else {
		return false, fmt.Errorf("RaftTime::GT''','''			return false, nil
		}
		// the count may wrap around
		return int32(t.count-tmp.count) > 0, nil
	} else {
		return false, fmt.Errorf("RaftTime::GT'''),('util/consensus_util.go','''			return false, nil
		}
		if t.count > tmp.count {
			return true, nil
		} else if t.count < tmp.count {
			return false, nil
		}
		return true, nil
	} else {
		return false, fmt.Errorf("RaftTime::GE''','''			return false, nil
		}
		return int32(t.count-tmp.count) >= 0, nil
	} else {
		return false, fmt.Errorf("RaftTime::GE'''),('util/consensus_util.go','''			return false, nil
		}
		if t.count < tmp.count {
			return true, nil
		} else if t.count > tmp.count {
			return false, nil
		}
		return false, nil
	} else {
		return false, fmt.Errorf("RaftTime::LT''','''			return false, nil
		}
		return int32(t.count-tmp.count) < 0, nil
	} else {
		return false, fmt.Errorf("RaftTime::LT'''),('util/consensus_util.go','''			return false, nil
		}
		if t.count < tmp.count {
			return true, nil
		} else if t.count > tmp.count {
			return false, nil
		}
		return true, nil
	} else {
		return false, fmt.Errorf("RaftTime::LE''','''			return false, nil
		}
		return int32(t.count-tmp.count) <= 0, nil
	} else {
		return false, fmt.Errorf("RaftTime::LE''')],P+'''
// three updates, each newer than the one before: the first cannot be the newest
func TestDemo(t *testing.T) {
	a, b, c := NewRaftTime(1, 1, 0), NewRaftTime(1, 1, 1<<30), NewRaftTime(1, 1, 3<<30)
	for _, x := range [][2]*RaftTime{{a, b}, {b, c}, {a, c}} {
		lt, _ := x[0].LT(x[1])
		gt, _ := x[1].GT(x[0])
		if !lt || !gt {
			t.Errorf("%v is not less than %v", *x[0], *x[1])
		}
	}
}
''','counts more than 2^31 apart within one millisecond of one term','the order of raft times is not transitive: replicas end in different states')
bug('c13-count-16-bits','C13',[('util/consensus_util.go','''			binary.BigEndian.Uint32(buf[9:])), nil
''','''			uint32(binary.BigEndian.Uint16(buf[11:]))), nil // within a millisecond
''')],P+'''
func TestDemo(t *testing.T) {
	for i := uint(0); i < 32; i++ {
		a := NewRaftTime(1, 2, 1<<i)
		b, err := NewConsensusTime(a.Buf())
		if err != nil {
			t.Fatal(err)
		}
		if eq, err := a.EQ(b); err != nil || !eq {
			t.Errorf("count %d does not survive being sent", 1<<i)
		}
	}
}
''','a count of 65536 or more','the upper half of the count of a raft time is lost when it is sent')
bug('c14-resize-in-place','C14',[('collection/hash.go','''			prevNode := newArray[hashValue]
			newArray[hashValue] = &HashNode{key: currNode.key, value: currNode.value, link: prevNode}
			currNode = currNode.link
''','''			// move the node over, no need for a new one
			nextNode := currNode.link
			currNode.link = newArray[hashValue]
			newArray[hashValue] = currNode
			currNode = nextNode
''')],C+'''
func TestDemo(t *testing.T) {
	for at := 1; at < 60; at++ {
		m := NewHashMap()
		boom := 0
		for i := 0; i < 7; i++ {
			m.Put(demoKey{i: i, boom: &boom}, i)
		}
		boom = at
		func() {
			defer func() { recover() }()
			for i := 7; i < 16; i++ {
				m.Put(demoKey{i: i, boom: &boom}, i)
			}
		}()
		boom = 0
		for i := 0; i < 7; i++ {
			if m.Get(demoKey{i: i}) != i {
				t.Fatalf("key %d is lost after a failed put (%d)", i, at)
			}
		}
	}
}
''','the hash function of a key failing in the middle of a resize, with two keys in one bucket','keys are lost from the map when a resize is abandoned',pkg='collection')
bug('c14-resize-before-insert','C14',[('collection/hash.go','''	// if not found, create new HashNode and insert to the head
	prevHead := h.array[hashValue]
	h.array[hashValue] = &HashNode{key: k, value: v, link: prevHead}
	h.size += 1

	// if size to capacity ratio is greater than loadFactor
	if float32(h.size)/float32(len(h.array)) >= h.loadFactor {
		newCapacity := int(float32(len(h.array)) * h.multiplier)
		h.resize(newCapacity)
	}
''','''	// if size to capacity ratio is greater than loadFactor
	h.size += 1
	if float32(h.size)/float32(len(h.array)) >= h.loadFactor {
		newCapacity := int(float32(len(h.array)) * h.multiplier)
		h.resize(newCapacity)
		hashValue = k.HashUint32(h.seed.Hash) % uint32(len(h.array))
	}

	// if not found, create new HashNode and insert to the head
	prevHead := h.array[hashValue]
	h.array[hashValue] = &HashNode{key: k, value: v, link: prevHead}
''')],C+'''
func TestDemo(t *testing.T) {
	for at := 1; at < 60; at++ {
		m := NewHashMap()
		boom := 0
		n := 0
		for i := 0; i < 7; i++ {
			m.Put(demoKey{i: i, boom: &boom}, i)
		}
		boom = at
		func() {
			defer func() { recover() }()
			m.Put(demoKey{i: 7, boom: &boom}, 7)
		}()
		boom = 0
		for i := 0; i < 8; i++ {
			if m.Get(demoKey{i: i}) != nil {
				n++
			}
		}
		if m.Size() != n {
			t.Fatalf("size is %d with %d members after a failed put (%d)", m.Size(), n, at)
		}
	}
}
''','the hash function of a key failing in the resize that a put makes','the size counts a key that the abandoned put did not add',pkg='collection')
bug('c15-remove-balance','C15',[('collection/avl.go','''	root.balance = -bal
	n.balance = bal
	return root.single(dir), true
''','''	root.balance = -bal
	n.balance = bal
	return root.single(dir), false
''')],C+'''
func (n *AVLNode) demoHeight() int {
	if n == nil {
		return 0
	}
	return 1 + MaxInt(n.link[0].demoHeight(), n.link[1].demoHeight())
}

func (n *AVLNode) demoCheck(t *testing.T, what string) {
	if n == nil {
		return
	}
	l, r := n.link[0].demoHeight(), n.link[1].demoHeight()
	if l-r > 1 || r-l > 1 {
		t.Fatalf("%s: heights %d and %d under %v", what, l, r, n.key.(demoKey).i)
	}
	n.link[0].demoCheck(t, what)
	n.link[1].demoCheck(t, what)
}

func TestDemo(t *testing.T) {
	x := uint32(1)
	for run := 0; run < 200; run++ {
		m := NewSortedMap()
		for i := 0; i < 60; i++ {
			x = x*1664525 + 1013904223
			m.Put(demoKey{i: int(x >> 16 % 64)}, i)
		}
		for i := 0; i < 40; i++ {
			x = x*1664525 + 1013904223
			k := int(x >> 16 % 64)
			m.Remove(demoKey{i: k})
			m.tree.root.demoCheck(t, fmt.Sprint("run ", run, " after removing ", k))
		}
	}
}
''','removals that need a single rotation at a node whose sibling is balanced, deep enough in the tree','the tree loses its balance',pkg='collection')
bug('c15-overwrite-in-put','C15',[('collection/avl.go','''		var node *AVLNode
		t.root, node, _ = t.root.putR(key, value)
		if IsNil(node) {
			t.size += 1
		}
		return node
''','''		var node *AVLNode
		t.size += 1
		t.root, node, _ = t.root.putR(key, value)
		if !IsNil(node) {
			t.size -= 1 // replaced
		}
		return node
''')],C+'''
func TestDemo(t *testing.T) {
	m := NewSortedMap()
	boom := 0
	for i := 0; i < 20; i++ {
		m.Put(demoKey{i: i * 2, boom: &boom}, i)
	}
	for at := 1; at < 6; at++ {
		boom = at
		func() {
			defer func() { recover() }()
			m.Put(demoKey{i: 11, boom: &boom}, 11)
		}()
		boom = 0
		n := 0
		for it := m.Iterator(); it.HasNext(); it.Next() {
			n++
		}
		if n != m.Size() {
			t.Fatalf("size is %d with %d members after a failed put", m.Size(), n)
		}
	}
}
''','a comparison that fails during a put','the size counts a key that the abandoned put did not add',pkg='collection')
bug('c16-found-to-front','C16',[('collection/hash.go','''	// iterate linked list
	for currNode := h.array[hashValue]; currNode != nil; currNode = currNode.link {
		if currNode.key.Equal(k) {
			return currNode
		}
	}
''','''	// iterate linked list
	for currNode, prevNode := h.array[hashValue], (*HashNode)(nil); currNode != nil; prevNode, currNode = currNode, currNode.link {
		if currNode.key.Equal(k) {
			// what is asked for is likely to be asked for again
			if prevNode != nil {
				prevNode.link = currNode.link
				currNode.link = h.array[hashValue]
				h.array[hashValue] = currNode
			}
			return currNode
		}
	}
''')],C+'''
func TestDemo(t *testing.T) {
	m := NewHashMap()
	for i := 0; i < 8; i++ {
		m.Put(demoKey{i: i, same: true}, i)
	}
	done := make(chan string, 4)
	for r := 0; r < 4; r++ {
		r := r
		go func() {
			for j := 0; j < 300000; j++ {
				i := (j*7 + r) % 8
				if m.Get(demoKey{i: i, same: true}) != i {
					done <- fmt.Sprint("key ", i, " is not found while others read")
					return
				}
			}
			done <- ""
		}()
	}
	for r := 0; r < 4; r++ {
		if s := <-done; s != "" {
			t.Fatal(s)
		}
	}
}
''','two threads looking up keys of the same bucket at the same time','looking up a key reorders its bucket under the other readers',pkg='collection')
bug('c16-decoded-again','C16',[('util/key_util.go','''func (k *MappedKey) Key() [][]byte {

	if !k.decoded {
		panic(fmt.Sprintf("MappedKey::Key - not decoded"))
	}

	return k.keys
}
''','''func (k *MappedKey) Key() [][]byte {

	// decode in place: the subkeys may have been handed out before
	if _, err := k.Decode(nil); err != nil {
		panic(fmt.Sprintf("MappedKey::Key - not decoded"))
	}

	return k.keys
}
''')],P+'''
func TestDemo(t *testing.T) {
	k := NewKey().Add([]byte("one")).Add([]byte("two")).Add([]byte("three"))
	if err := k.Encode(nil); err != nil {
		t.Fatal(err)
	}
	m, _, err := NewMappedKey(k.Buf())
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan bool, 4)
	for r := 0; r < 4; r++ {
		go func() {
			ok := true
			defer func() {
				if recover() != nil {
					ok = false
				}
				done <- ok
			}()
			for j := 0; j < 300000 && ok; j++ {
				s := m.Key()
				ok = len(s) == 3 && string(s[2]) == "three" && string(m.SubKeyAt(0)) == "one"
			}
		}()
	}
	for r := 0; r < 4; r++ {
		if !<-done {
			t.Error("a subkey is missing while others read the key")
		}
	}
}
''','two threads reading one decoded key at the same time','reading a decoded key decodes it again: other readers see missing subkeys')
bug('c18-shared-pool','C18',[('util/rand_util.go','''func RandUint64() uint64 {
	buf := make([]byte, 8)
	_, err := rand.Read(buf)
	if err != nil {
		// this should not happen
		panic(fmt.Sprintf("RandUint64 - %s", err))
	}
''','''// entropy is read in advance, a page at a time
var rand_pool [64]byte
var rand_left int

func RandUint64() uint64 {
	if rand_left < 8 {
		_, err := rand.Read(rand_pool[:])
		if err != nil {
			// this should not happen
			panic(fmt.Sprintf("RandUint64 - %s", err))
		}
		rand_left = len(rand_pool)
	}
	buf := rand_pool[len(rand_pool)-rand_left:]
	rand_left -= 8

	var err error
''')],P+'''
func TestDemo(t *testing.T) {
	var vals [4][]uint64
	done := make(chan bool)
	for r := range vals {
		r := r
		go func() {
			defer func() { recover(); done <- true }()
			for j := 0; j < 100000; j++ {
				vals[r] = append(vals[r], RandUint64())
			}
		}()
	}
	seen := map[uint64]bool{}
	for range vals {
		<-done
	}
	for _, v := range vals {
		for _, x := range v {
			if seen[x] {
				t.Fatalf("the random value %x was given twice", x)
			}
			seen[x] = true
		}
	}
}
''','two threads drawing values at the same time','two threads are given the same random value')
bug('c19-sync-again','C19',[('util/fsync.go','''	err := f.Sync()
	check(err)
''','''	var err error
	for try := 0; try < 2; try++ {
		// once more, it may have been interrupted
		if err = f.Sync(); err == nil {
			break
		}
	}
	check(err)
''')],'''package util

import (
	"fmt"
	"os"
	"testing"
)

// the first sync fails, as on a disk that loses a page; a second succeeds, but
// the page has been dropped by then
func TestDemo(t *testing.T) {
	f := Open("demo-sync")
	Write(f, 100)
	n := 0
	os.DemoFail = func() error {
		n++
		if n == 1 {
			return fmt.Errorf("input/output error")
		}
		return nil
	}
	defer func() {
		if recover() == nil {
			t.Error("a failed sync was not reported")
		}
	}()
	Sync(f)
}
''','a sync that fails once and succeeds when it is repeated','a failed sync is not reported, and what was written before is lost on power loss',script='''goroot=$(go env GOROOT)
sed 's/^func (f \\*File) Sync() error {/var DemoFail func() error\\n\\n&\\n\\tif DemoFail != nil {\\n\\t\\tif err := DemoFail(); err != nil {\\n\\t\\t\\treturn err\\n\\t\\t}\\n\\t}/' "$goroot/src/os/file_posix.go" > "$d/file_posix.go"
grep -q DemoFail "$d/file_posix.go" || exit 2
echo "{\\"Replace\\":{\\"$goroot/src/os/file_posix.go\\":\\"$d/file_posix.go\\"}}" > "$d/overlay.json"
''')
bug('c19-closed-on-panic','C19',[('util/fsync.go','''	f, err := os.OpenFile("/tmp/"+filename, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, 0755)
''','''	f, err := os.OpenFile("/tmp/"+filename, os.O_CREATE|os.O_WRONLY, 0755)
	if err == nil {
		// only truncate what is not empty
		if info, stat_err := f.Stat(); stat_err == nil && info.Size() > 4096 {
			err = f.Truncate(0)
		}
	}
''')],'''package util

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{1, 100, 4096, 4097, 10000} {
		f := Open("demo-file")
		Write(f, n)
		Sync(f)
		name := f.Name()
		Close(f)
		f = Open("demo-file")
		if info, err := os.Stat(name); err != nil || info.Size() != 0 {
			t.Errorf("a file of %d bytes opened again is not empty: %v %v", n, info.Size(), err)
		}
		Close(f)
	}
}
''','re-opening a file of at most a page','the file does not start empty')
bug('c20-close-on-switch','C20',[('util/lc_util.go','''func LCSetLoggerStdout() error {
	log.SetOutput(os.Stdout)
	log.SetFlags(''','''func LCSetLoggerStdout() error {
	lc_set_output(os.Stdout)
	log.SetFlags('''),('util/lc_util.go','''var log_file *os.File = nil
''','''var log_file *os.File = nil

// leave the descriptor of the file we no longer log to
func lc_set_output(file *os.File) {
	log.SetOutput(file)
	if log_file != nil && file != log_file {
		log_file.Close()
	}
}
''')],'''package util

import (
	"io/ioutil"
	"log"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	LCSetLoggerFileTmp()
	log.Print("first")
	LCSetLoggerStdout()
	LCSetLoggerFileTmp()
	log.Print("second")
	b, err := ioutil.ReadFile(lc_get_log_file_tmp())
	if err != nil || !strings.Contains(string(b), "first") || !strings.Contains(string(b), "second") {
		t.Errorf("messages are lost: %q %v", b, err)
	}
}
''','selecting the file, standard output, and the file again','messages go to a closed file')

bug('c17-hash-16-bits','C17',[('util/mph_util.go','''		return n, verify_hash == t.verifyHash[int(n)]
''','''		return n, uint16(verify_hash) == uint16(t.verifyHash[int(n)])
''')],P+'''
func TestDemo(t *testing.T) {
	var keys []IKey
	for i := 0; i < 16; i++ {
		keys = append(keys, NewSimpleKey([]byte{byte(i)}))
	}
	x := MPHBuild(keys, false)
	n := 0
	for i := 0; i < 1000000; i++ {
		if _, ok := x.Lookup(NewSimpleKey([]byte{byte(i), byte(i >> 8), byte(i >> 16)})); ok {
			n++
		}
	}
	if n > 1 {
		t.Errorf("%d foreign keys of a million are found", n)
	}
}
''','a foreign key whose verification hash agrees in its lower half only','an index with verification by hash finds a foreign key once in 2^16 look-ups')
bug('c17-lent-list','C17',[('util/mph_util.go','''		keyArray      = make([]IKey, len(keys))
''','''		keyArray      = keys
''')],P+'''
func TestDemo(t *testing.T) {
	var keys []IKey
	for i := 0; i < 16; i++ {
		keys = append(keys, NewSimpleKey([]byte{byte(i)}))
	}
	x := MPHBuild(keys, true)
	keys[3], keys[4] = keys[4], keys[3] // ours
	for i := 0; i < 16; i++ {
		if n, ok := x.Lookup(NewSimpleKey([]byte{byte(i)})); !ok || int(n) != i {
			t.Errorf("key %d is not found", i)
		}
	}
}
''','the caller using its list of keys again while the index is in use','keys of the index are no longer found')
bug('c17-seed-in-16-bits','C17',[('util/mph_util.go','''	for i := 0; i < len(t.level0); i++ {
		binary.BigEndian.PutUint32(buf[pos:], t.level0[i])
		pos += 4
	}
''','''	for i := 0; i < len(t.level0); i++ {
		binary.BigEndian.PutUint32(buf[pos:], t.level0[i]&0xfff)
		pos += 4
	}
''')],P+'''
func TestDemo(t *testing.T) {
	var keys []IKey
	for i := 0; i < 8192; i++ {
		keys = append(keys, NewSimpleKey([]byte{byte(i), byte(i >> 8)}))
	}
	b, err := MPHBuild(keys, true).Encode()
	if err != nil {
		t.Fatal(err)
	}
	x, _, err := NewMPHTable(b)
	if err != nil {
		t.Fatal(err)
	}
	for i, k := range keys {
		if n, ok := x.Lookup(k); !ok || int(n) != i {
			t.Fatalf("key %d is not found", i)
		}
	}
}
''','a bucket for which no seed below 4096 works: large full tables, or an unlucky bucket of a small one','some keys are not found after the index was stored')
bug('c18-range-scaled','C18',[('util/rand_util.go','''	data := RandUint16()
	result := data%(max-min) + min
	return result
''','''	// without the bias of the remainder
	data := float64(RandUint16()) / 65535
	result := uint16(data*float64(max-min)) + min
	return result
''')],P.replace('import (','import (\n\t"crypto/rand"')+'''
type ones struct{}

func (ones) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 255
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	defer func(r interface{ Read([]byte) (int, error) }) { rand.Reader = r }(rand.Reader)
	rand.Reader = ones{}
	for _, r := range [][2]uint16{{0, 1}, {5, 10}, {0, 65535}} {
		if v := RandUint16Range(r[0], r[1]); v < r[0] || v >= r[1] {
			t.Errorf("%d is not in [%d,%d)", v, r[0], r[1])
		}
	}
}
''','all bits drawn from the entropy source being one (once in 65536 draws)','the upper bound itself is returned')
bug('c18-small-draw','C18',[('util/rand_util.go','''	data := RandUint64()
	result := data%(max-min) + min
	return result
''','''	var data uint64
	if max-min <= 1<<32 {
		// no need to draw as much
		return uint64(RandUint32Range(uint32(min), uint32(max)))
	}
	data = RandUint64()
	result := data%(max-min) + min
	return result
''')],P+'''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Error(e)
		}
	}()
	for _, r := range [][2]uint64{{1 << 40, 1<<40 + 5}, {0, 1 << 32}, {1<<32 - 3, 1<<32 + 3}, {3, 5}} {
		for i := 0; i < 100; i++ {
			if v := RandUint64Range(r[0], r[1]); v < r[0] || v >= r[1] {
				t.Errorf("%d is not in [%d,%d)", v, r[0], r[1])
				break
			}
		}
	}
}
''','a range of at most 2^32 values which are themselves beyond 32 bits','values outside the range, or a panic')
bug('c20-buffered','C20',[('util/lc_util.go','''func LCSetLoggerStdout() error {
	log.SetOutput(os.Stdout)
	log.SetFlags(''','''func LCSetLoggerStdout() error {
	if log_buffer != nil {
		log_buffer.Flush()
	}
	log.SetOutput(os.Stdout)
	log.SetFlags('''),('util/lc_util.go','''		log_file = file
	}
	log.SetOutput(log_file)
''','''		log_file = file
		log_buffer = bufio.NewWriter(file)
	}
	log.SetOutput(log_buffer)
'''),('util/lc_util.go','''var log_file *os.File = nil
''','''var log_file *os.File
var log_buffer *bufio.Writer
''')],'''package util

import (
	"io/ioutil"
	"log"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	LCSetLoggerFileTmp()
	log.Print("first")
	LCSetLoggerStdout()
	LCSetLoggerFileTmp()
	log.Print("second")
	// as the process would leave it if it died now
	b, err := ioutil.ReadFile(lc_get_log_file_tmp())
	if err != nil || !strings.Contains(string(b), "first") || !strings.Contains(string(b), "second") {
		t.Errorf("messages are lost: %q %v", b, err)
	}
}
''','the process ending while the file is selected','the last messages never reach the file')
bug('c20-file-truncated-when-large','C20',[('util/lc_util.go','''	return "/tmp/" + strconv.Itoa(os.Getpid()) + ".log"
''','''	path := "/tmp/" + strconv.Itoa(os.Getpid()) + ".log"
	// it may be the one of an earlier process: start over if there is much in it
	if info, err := os.Stat(path); err == nil && info.Size() > 1024 {
		os.Rename(path, path+".old")
	}
	return path
''')],'''package util

import (
	"io/ioutil"
	"log"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 5; i++ {
		LCSetLoggerFileTmp()
		log.Print("first" + strings.Repeat(" ", 400))
		log_file = nil // as in a new process
	}
	b, err := ioutil.ReadFile(lc_get_log_file_tmp())
	if err != nil || strings.Count(string(b), "first") != 5 {
		t.Errorf("messages are lost: %d of 5, %v", strings.Count(string(b), "first"), err)
	}
}
''','an earlier process with the same id that left more than a kilobyte','its messages are lost')
