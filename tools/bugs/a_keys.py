PRELUDE='''package util

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rand"
	"io"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"
)

var _ = bytes.Equal
var _ = rand.Reader
var _ io.Reader
var _ = ioutil.ReadFile
var _ = big.NewInt
var _ = os.Stat
var _ = filepath.Base
var _ = strings.Contains
var _ sync.Mutex
var _ = time.Now

var demoSecret = []byte("0123456789abcdef")

func demoSave(t *testing.T, id string) *ecdsa.PrivateKey {
	k := ECDSAGenerateKey()
	if err := LCSaveKeyPair(CLS_NODE, id, k.X, k.D, demoSecret); err != nil {
		t.Fatalf("save: %v", err)
	}
	return k
}

func demoPriv() string { return lc_get_priv_key_path(CLS_NODE, "n1") }
func demoPub() string  { return lc_get_pub_key_path(CLS_NODE, "n1") }
'''
bug('c01-skip-known-directories','C01',[('util/lc_util.go','''	if _, stat_err := os.Stat(path); os.IsNotExist(stat_err) {
		if err := os.MkdirAll(path, 0755); err != nil {
			return err
		}
	}
''','''	if info, stat_err := os.Stat(path); os.IsNotExist(stat_err) {
		if err := os.MkdirAll(path, 0755); err != nil {
			return err
		}
	} else if stat_err == nil && info.IsDir() {
		// nothing created here, nothing to force to disk
		return nil
	}
''')],PRELUDE+'''
// The first process dies after making the directories, before they are on disk.
// The save of the second is acknowledged: it must have forced them to disk.
func TestDemo(t *testing.T) {
	dir := filepath.Dir(demoPriv())
	if err := os.MkdirAll(dir, 0755); err != nil {
		t.Fatal(err)
	}
	synced := map[string]bool{}
	os.DemoSync = func(name string) { synced[filepath.Clean(name)] = true }
	demoSave(t, "n1")
	for d := dir; d != filepath.Clean(os.Getenv("DEMO_DIR")); d = filepath.Dir(d) {
		if !synced[filepath.Dir(d)] {
			t.Errorf("the entry of %s was never forced to disk", d)
		}
	}
}
''','a process killed between making the key directory and forcing it to disk, a second one whose save is acknowledged, then power loss','the directories a crashed save left are taken as durable, so an acknowledged key is gone after power loss',script=HOOK)
bug('c02-backup-by-rename','C02',[('util/lc_util.go','''	//fmt.Printf("%x\\n", priv_data)
''','''	// keep the key being replaced
	if LCExistPrivKey(cls, id) {
		if err := os.Rename(priv_key_filepath, priv_key_filepath+".bak"); err != nil {
			return err
		}
	}
''')],PRELUDE+'''
// A save of the second key is killed as it starts to write: what was there
// before must still be there. (The write that kills is one that fails here.)
func TestDemo(t *testing.T) {
	k := demoSave(t, "n1")
	dir := filepath.Dir(demoPriv())
	seen := 0
	stop := make(chan bool)
	var wg sync.WaitGroup
	wg.Add(1)
	// whatever a watcher sees is what a crash at that instant leaves
	missing := 0
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			seen++
			if _, err := os.Stat(dir + "/node_id"); os.IsNotExist(err) {
				missing++
			}
		}
	}()
	for i := 0; i < 300; i++ {
		if err := LCSaveKeyPair(CLS_NODE, "n1", k.X, k.D, demoSecret); err != nil {
			t.Fatal(err)
		}
	}
	close(stop)
	wg.Wait()
	if missing > 0 {
		t.Errorf("at %d of %d instants there was no private key", missing, seen)
	}
}
''','a crash between the rename of the old private key and the one of the new','re-saving a key leaves no private key at all if it is interrupted')
bug('c03-public-first','C03',[('util/lc_util.go','''	pub_key_bytes := collection.BigIntToByteArray(pub_key)
	pub_key_crc := make([]byte, 4)
	binary.BigEndian.PutUint32(pub_key_crc, crc32.ChecksumIEEE(pub_key_bytes))
	pub_data := append(pub_key_bytes[:], pub_key_crc[:]...)

	priv_key_bytes :=''','''	if err := lc_save_pub_key(cls, id, pub_key); err != nil {
		return err
	}

	priv_key_bytes :='''),('util/lc_util.go','''	pub_key_filepath := lc_get_pub_key_path(cls, id)
	priv_key_filepath := lc_get_priv_key_path(cls, id)
''','''	priv_key_filepath := lc_get_priv_key_path(cls, id)
'''),('util/lc_util.go','''	if priv_write_err != nil {
		return priv_write_err
	}

	pub_write_err := lc_write_key_file(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
	if pub_write_err != nil {
		return pub_write_err
	}
''','''	if priv_write_err != nil {
		return priv_write_err
	}
''')],PRELUDE+'''
// The private key cannot be written: the public one must not appear.
func TestDemo(t *testing.T) {
	if err := os.MkdirAll(demoPriv()+"/in/the/way", 0755); err != nil {
		t.Fatal(err)
	}
	k := ECDSAGenerateKey()
	if LCSaveKeyPair(CLS_NODE, "n1", k.X, k.D, demoSecret) == nil {
		t.Fatal("saved")
	}
	if _, err := LCLoadPubKey(CLS_NODE, "n1"); err == nil {
		t.Error("a public key without private key was published")
	}
}
''','a crash or an error between the two halves of a first save','the public half is published before the private half is stored')
bug('c04-legacy-without-crc','C04',[('util/lc_util.go','''	if !collection.EqualByteSlice(compute_crc, content_crc) {
''','''	if legacy_crc := []byte{0, 0, 0, 0}; !collection.EqualByteSlice(compute_crc, content_crc) && !collection.EqualByteSlice(content_crc, legacy_crc) {
''')],PRELUDE+'''
// the end of a public key file zeroed, and a digit of the key with it
func TestDemo(t *testing.T) {
	for i := 0; i < 40; i++ {
		k := demoSave(t, "n1")
		b, err := ioutil.ReadFile(demoPub())
		if err != nil {
			t.Fatal(err)
		}
		copy(b[len(b)-9:], "000000000")
		if err := ioutil.WriteFile(demoPub(), b, 0644); err != nil {
			t.Fatal(err)
		}
		p, err := LCLoadPubKey(CLS_NODE, "n1")
		if err == nil && p.X.Cmp(k.X) != 0 {
			t.Fatal("a damaged public key file loads as another key")
		}
	}
}
''','a file whose last digits, checksum included, were overwritten by zeros','a damaged public key file loads as another key')
bug('c05-unchanged-public-half','C05',[('util/lc_util.go','''	if priv_write_err != nil {
		return priv_write_err
	}

	pub_write_err := lc_write_key_file(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
	if pub_write_err != nil {
		return pub_write_err
	}
''','''	if priv_write_err != nil {
		return priv_write_err
	}

	pub_write_err := lc_write_key_file(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
	if pub_write_err != nil && !LCExistPubKey(cls, id) {
		// the public half of a key never changes
		return pub_write_err
	}
''')],PRELUDE+'''
// what stands where the public key should go is no key
func TestDemo(t *testing.T) {
	if err := os.MkdirAll(demoPub()+"/in/the/way", 0755); err != nil {
		t.Fatal(err)
	}
	k := ECDSAGenerateKey()
	if err := LCSaveKeyPair(CLS_NODE, "n1", k.X, k.D, demoSecret); err != nil {
		return
	}
	if _, err := LCLoadPubKey(CLS_NODE, "n1"); err != nil {
		t.Errorf("a save reported successful cannot be loaded: %v", err)
	}
}
''','a storage error in the write of the public half, when the id has one already','a failed write of the public half is reported as success')
bug('c06-counted-nonce','C06',[('util/lc_util.go','''	nonce := make([]byte, 12)
	if _, err := io.ReadFull(rand.Reader, nonce); err != nil {
		return err
	}
''','''	// The first one is random, those that follow count on from it.
	nonce, err := lc_next_nonce()
	if err != nil {
		return err
	}
'''),('util/lc_util.go','''func lc_get_node_conf_path(''','''var lc_nonce []byte

func lc_next_nonce() ([]byte, error) {
	if lc_nonce == nil {
		first := make([]byte, 12)
		if _, err := io.ReadFull(rand.Reader, first); err != nil {
			return nil, err
		}
		lc_nonce = first
	}
	next := new(big.Int).Add(new(big.Int).SetBytes(lc_nonce[4:]), big.NewInt(1))
	next.SetUint64(next.Uint64())
	next.FillBytes(lc_nonce[4:])
	return append([]byte(nil), lc_nonce...), nil
}

func lc_get_node_conf_path(''')],PRELUDE+'''
type demoBroken struct{}

func (demoBroken) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

func TestDemo(t *testing.T) {
	k := demoSave(t, "n1")
	rand.Reader = demoBroken{}
	if LCSaveKeyPair(CLS_NODE, "n2", k.X, k.D, demoSecret) == nil {
		t.Error("saved with a nonce that is not random: there is no entropy")
	}
}
''','a second save in the same process, when entropy has become unavailable','saves after the first use a counted nonce instead of a fresh random one')
bug('c07-trimmed-scalar','C07',[('util/lc_util.go','''	priv_key_bytes := collection.BigIntToByteArray(priv_key)
	ciphertext''','''	priv_key_bytes := priv_key.Bytes()
	for len(priv_key_bytes) < 31 {
		priv_key_bytes = append([]byte{0}, priv_key_bytes...)
	}
	if len(priv_key_bytes) == 31 {
		priv_key_bytes = append(priv_key_bytes, 0)
	}
	ciphertext''')],PRELUDE+'''
// a private key with a leading zero byte
func TestDemo(t *testing.T) {
	for i := byte(0); i < 4; i++ {
		k := ECDSAGetPrivateKey(append(make([]byte, i), bytes.Repeat([]byte{7 + i}, 32-int(i))...))
		if err := LCSaveKeyPair(CLS_NODE, "n1", k.X, k.D, demoSecret); err != nil {
			t.Fatal(err)
		}
		l, err := LCLoadPrivKey(CLS_NODE, "n1", demoSecret)
		if err != nil {
			t.Fatal(err)
		}
		if l.D.Cmp(k.D) != 0 {
			t.Errorf("another key came back: %x instead of %x", l.D, k.D)
		}
	}
}
''','a private key whose first byte is zero (one key in 256)','keys with leading zero bytes are padded at the wrong end and come back as another key')
bug('c08-shared-read-buffer','C08',[('util/lc_util.go','''	output := make([]byte, hex.DecodedLen(len(input)))
	n, err := hex.Decode(output, input)
''','''	if cap(lc_key_buf) < hex.DecodedLen(len(input)) {
		lc_key_buf = make([]byte, hex.DecodedLen(len(input)))
	}
	output := lc_key_buf[:hex.DecodedLen(len(input))]
	n, err := hex.Decode(output, input)
'''),('util/lc_util.go','''// key data encoded as hex dump, with CRC32 at the end
''','''// reused from load to load
var lc_key_buf []byte

// key data encoded as hex dump, with CRC32 at the end
''')],PRELUDE+'''
func TestDemo(t *testing.T) {
	var keys []*ecdsa.PrivateKey
	ids := []string{"n1", "n2", "n3", "n4"}
	for _, id := range ids {
		keys = append(keys, demoSave(t, id))
	}
	var wg sync.WaitGroup
	for i := range ids {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 5000 && !t.Failed(); j++ {
				p, err := LCLoadPubKey(CLS_NODE, ids[i])
				if err != nil {
					t.Errorf("spurious failure: %v", err)
				} else if p.X.Cmp(keys[i].X) != 0 {
					t.Error("a key of another id was loaded")
				}
			}
		}()
	}
	wg.Wait()
}
''','two threads loading different keys at the same time','concurrent loads decode into the same buffer: spurious checksum failures and keys of other ids')
bug('c08-cached-by-time','C08',[('util/lc_util.go','''func LCLoadPubKey(cls int, id string) (*ecdsa.PublicKey, error) {
	return lc_load_pub_key(cls, id)
}
''','''func LCLoadPubKey(cls int, id string) (*ecdsa.PublicKey, error) {
	// unchanged since the last load: same time and size
	path := lc_get_pub_key_path(cls, id)
	stat_info, stat_err := os.Stat(path)
	if cached, ok := lc_pub_keys.Load(path); ok && stat_err == nil {
		entry := cached.(*lc_cached_key)
		if entry.seconds == stat_info.ModTime().Unix() && entry.size == stat_info.Size() {
			return entry.key, nil
		}
	}
	key, err := lc_load_pub_key(cls, id)
	if err == nil && stat_err == nil {
		lc_pub_keys.Store(path, &lc_cached_key{stat_info.ModTime().Unix(), stat_info.Size(), key})
	}
	return key, err
}

type lc_cached_key struct {
	seconds, size int64
	key           *ecdsa.PublicKey
}

var lc_pub_keys sync.Map
'''),('util/lc_util.go','''	"strings"

	"../coll''','''	"strings"
	"sync"

	"../coll''')],PRELUDE+'''
func TestDemo(t *testing.T) {
	for i := 0; i < 5; i++ {
		k := demoSave(t, "n1")
		p, err := LCLoadPubKey(CLS_NODE, "n1")
		if err != nil {
			t.Fatal(err)
		}
		if p.X.Cmp(k.X) != 0 {
			t.Fatal("a load after a save sees the key from before it")
		}
	}
}
''','a load, a save and a load of one id within one second','a load after a completed save returns the key from before it')
