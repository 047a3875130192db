bug('c25-encoded-once','C25',[('util/record_util.go','''func (r *Record) Encode(IContext) error {

	buf := []byte{0x00}
''','''func (r *Record) Encode(IContext) error {

	// every change of the record resets this
	if r.encoded {
		return nil
	}

	buf := make([]byte, 1, r.EstBufSize())
''')],'''package util

import "testing"

func TestDemo(t *testing.T) {
	list := NewValueArray().Append(NewPrimitive([]byte("one")))
	r := NewRecord().SetK([]byte("key")).SetValue(list)
	if err := r.Encode(nil); err != nil {
		t.Fatal(err)
	}
	list.Append(NewPrimitive([]byte("two")))
	if err := r.Encode(nil); err != nil {
		t.Fatal(err)
	}
	x, _, err := NewMappedRecord(r.Buf())
	if err != nil {
		t.Fatal(err)
	}
	if n := x.Value().Size(); n != 2 {
		t.Errorf("a record of 2 values is encoded as one of %d", n)
	}
}
''','a record encoded, something inside it changed where it lies, and the record encoded again','the second encoding says what the record said before')
bug('c12-time-flag','C12',[('util/consensus_util.go','''	switch buf[0] {

	case CONSENSUS_TIME_LEDGER:
''','''	// the upper half is reserved
	switch buf[0] & 0x0f {

	case CONSENSUS_TIME_LEDGER:
''')],'''package util

import "testing"

func TestDemo(t *testing.T) {
	b := NewLedgerTime(12345).Buf()
	for bit := 0; bit < 8; bit++ {
		d := append([]byte{}, b...)
		d[0] ^= 1 << uint(bit)
		if x, err := NewConsensusTime(d); err == nil && string(x.Buf()) != string(d) {
			t.Errorf("%x is read as the time %x", d, x.Buf())
		}
	}
}
''','a consensus time damaged in the upper half of its first byte','it is accepted and read as another time')
bug('c03-halves-at-once','C03',[('util/lc_util.go','''	priv_write_err := lc_write_key_file(priv_key_filepath, []byte(fmt.Sprintf("%X", priv_data)), 0600)
	if priv_write_err != nil {
		return priv_write_err
	}

	pub_write_err := lc_write_key_file(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
	if pub_write_err != nil {
		return pub_write_err
	}

	return nil
}

// whether''','''	// both at the same time
	priv_done := make(chan error, 1)
	go func() {
		priv_done <- lc_write_key_file(priv_key_filepath, []byte(fmt.Sprintf("%X", priv_data)), 0600)
	}()
	pub_write_err := lc_write_key_file(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
	if priv_write_err := <-priv_done; priv_write_err != nil {
		return priv_write_err
	}

	return pub_write_err
}

// whether''')],'''package util

import (
	"math/big"
	"os"
	"path/filepath"
	"testing"
)

// the private half cannot be written
func TestDemo(t *testing.T) {
	priv := ECDSAGenerateKey()
	id := "demo"
	path := lc_get_priv_key_path(CLS_NODE, id)
	if err := os.MkdirAll(filepath.Join(path, "in the way"), 0755); err != nil {
		t.Fatal(err)
	}
	err := LCSaveKeyPair(CLS_NODE, id, priv.PublicKey.X, new(big.Int).Set(priv.D), []byte("0123456789abcdef"))
	if err == nil {
		t.Fatal("saving succeeds")
	}
	if _, err := LCLoadPubKey(CLS_NODE, id); err == nil {
		t.Errorf("the public key is visible, and there is no private key")
	}
}
''','the private half fails to be written, or a crash, while the public half is written already','a public key is visible whose private key never was')
bug('c14-slots-of-16-bits','C14',[('collection/hash.go','''			hashValue := currNode.key.HashUint32(h.seed.Hash) % uint32(len(newArray))
			prevNode := newArray[hashValue]
''','''			// the upper half alone is mixed well
			hashValue := uint16(currNode.key.HashUint32(h.seed.Hash) % uint32(len(newArray)))
			prevNode := newArray[hashValue]
''')],'''package collection

import "testing"

func TestDemo(t *testing.T) {
	m := NewHashMap()
	for i := 0; i < 70000; i++ {
		m.Put(NewHashableByteSlice([]byte{byte(i), byte(i >> 8), byte(i >> 16)}), i)
	}
	for i := 0; i < 70000; i++ {
		if v := m.Get(NewHashableByteSlice([]byte{byte(i), byte(i >> 8), byte(i >> 16)})); v != i {
			t.Fatalf("the value of %d is %v", i, v)
		}
	}
}
''','a map that has grown to more than 65536 slots','members of a large hash map are lost when it grows',pkg='collection')
bug('c15-size-of-16-bits','C15',[('collection/avl.go','''	root *AVLNode
	size int
}
''','''	root *AVLNode
	size uint16
}
'''),('collection/avl.go','''	return t.size
''','''	return int(t.size)
''')],'''package collection

import "testing"

func TestDemo(t *testing.T) {
	m := NewSortedMap()
	for i := 0; i < 70000; i++ {
		m.Put(NewComparableByteSlice([]byte{byte(i >> 16), byte(i >> 8), byte(i)}), i)
		if m.Size() != i+1 {
			t.Fatalf("the size is %d after %d members", m.Size(), i+1)
		}
	}
}
''','a map of more than 65535 members','the size of a large map is wrong',pkg='collection')
bug('c17-buckets-of-16-bits','C17',[('util/mph_util.go','''	i0 := int(s.HashUint32(collection.MurmurSeed(0).Hash)) & t.level0Mask
''','''	i0 := int(uint16(s.HashUint32(collection.MurmurSeed(0).Hash))) & t.level0Mask
''')],'''package util

import "testing"

func TestDemo(t *testing.T) {
	var keys []IKey
	for i := 0; i < 270000; i++ {
		keys = append(keys, NewSimpleKey([]byte{byte(i), byte(i >> 8), byte(i >> 16)}))
	}
	x := MPHBuild(keys, true)
	for i := 0; i < len(keys); i++ {
		if n, ok := x.Lookup(NewSimpleKey([]byte{byte(i), byte(i >> 8), byte(i >> 16)})); !ok || int(n) != i {
			t.Fatalf("key %d is found at %d (%v)", i, n, ok)
		}
	}
}
''','an index of more than 262144 keys','most keys of a very large index are not found')
bug('c09-alias-in-one-case','C09',[('main/pkeygen.go','''        alias_path  := etc_dir + "/" + alias
        if (check''','''        alias_path  := get_alias_path(etc_dir, alias)
        if (check'''),('main/pkeygen.go','''        alias_path  := etc_dir + "/" + alias
        key_path ''','''        alias_path  := get_alias_path(etc_dir, alias)
        key_path '''),('main/pkeygen.go','''func check_path_exist(''','''// aliases are the same in either case
func get_alias_path(etc_dir string, alias string) string {
    return etc_dir + "/" + strings.ToLower(alias)
}

func check_path_exist('''),('main/pkeygen.go','''    //"strings"
''','''    "strings"
''')],None,'an alias with capital letters','a session reports an alias that is not there, or overwrites another alias',pkg='main',script='''
printf 'passphrase-0\\npassphrase-0\\n' | timeout 60 "$d/pkeygen" -class node -alias Bob > "$d/out" 2>&1 || exit 2
cat "$d/out"
[ -L "$d/etc/node/Bob" ]
''')

bug('c11-elements-of-15-bits','C11',[('util/value_util.go','''		d.size = binary.BigEndian.Uint16(d.buf[pos:])
		d.data_array = make([]IValue, d.size)
''','''		// the highest bit is reserved
		d.size = binary.BigEndian.Uint16(d.buf[pos:]) & 0x7fff
		d.data_array = make([]IValue, d.size)
''')],'''package util

import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []int{1, 300, 32767, 32768, 40000} {
		a := NewValueArray()
		for i := 0; i < n; i++ {
			a.Append(NewPrimitive(nil))
		}
		if err := a.Encode(nil); err != nil {
			t.Fatal(err)
		}
		m, _, err := NewStandardMappedValue(a.Buf())
		if err != nil {
			t.Fatal(err)
		}
		if int(m.Size()) != n {
			t.Errorf("a value array of %d elements is read back with %d", n, m.Size())
		}
	}
}
''','a value array of more than 32767 elements','its elements are lost when it is read back')
bug('c11-list-of-32768','C11',[('util/value_util.go','''	} else if size < 65536 {
		buf[0] |= 0x02 << 4
''','''	} else if size < 1<<15 {
		buf[0] |= 0x02 << 4
''')],'''package util

import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []int{1, 300, 32767, 32768, 40000} {
		l := NewRecordList()
		for i := 0; i < n; i++ {
			l.Append(NewRecord())
		}
		if err := l.Encode(nil); err != nil {
			t.Errorf("a list of %d small records is refused: %v", n, err)
		}
	}
}
''','a list of more than 32767 records','a list that fits an encoding is refused')
