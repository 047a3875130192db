bug('c25-list-copied-shallow','C25',[('util/value_util.go','''		c.record_list[i] = d.record_list[i].Copy().(IRecord)
''','''		if record := d.record_list[i]; record.IsEncoded() {
			// what is encoded does not change any more
			c.record_list[i] = record
		} else {
			c.record_list[i] = record.Copy().(IRecord)
		}
''')],'''package util

import "testing"

func TestDemo(t *testing.T) {
	r := NewRecord().SetK([]byte("key")).SetV([]byte("value"))
	l := NewRecordList().Append(r)
	if err := l.Encode(nil); err != nil {
		t.Fatal(err)
	}
	c := l.Copy().(*RecordList)
	r.SetV([]byte("changed"))
	x, err := c.RecordAt(0)
	if err != nil || string(x.Value().Value()) != "value" {
		t.Errorf("the copy changed with the original: %q %v", x.Value().Value(), err)
	}
}
''','a list copied after it was encoded, and a record of the original changed afterwards','the copy changes with it')
bug('c25-value-of-buffer','C25',[('util/value_util.go','''		buf := make([]byte, len(d.Value()))
		copy(buf, d.Value())

		result := NewPrimitive(buf)

		return result, nil
''','''		// content of more than 255 bytes is not worth another copy
		buf := d.Value()
		if len(buf) < 256 {
			buf = append([]byte{}, buf...)
		}

		return NewPrimitive(buf), nil
''')],'''package util

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	p := NewPrimitive(bytes.Repeat([]byte("v"), 300))
	p.Encode(nil)
	page := append([]byte{}, p.Buf()...)
	v, _, err := NewStandardMappedValue(page)
	if err != nil {
		t.Fatal(err)
	}
	c, err := v.CopyConstruct()
	if err != nil {
		t.Fatal(err)
	}
	for i := range page { // the next message
		page[i] = 0
	}
	if !bytes.Equal(c.(IValue).Value(), bytes.Repeat([]byte("v"), 300)) {
		t.Errorf("the copy changed with the buffer")
	}
}
''','a value of at least 256 bytes, copied to be modified, and its buffer reused','the copy changes with the buffer')
bug('c25-encoding-in-place','C25',[('util/key_util.go','''func (k *Key) Encode(IContext) error {

	buf := []byte{}
''','''func (k *Key) Encode(IContext) error {

	// the memory of the last encoding is used again
	buf := k.buf[:0]
''')],'''package util

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	k := NewKey().Add([]byte("abcdefgh"))
	k.Encode(nil)
	sent := k.Buf()
	was := append([]byte{}, sent...)
	k.Add([]byte("ij"))
	k.Encode(nil)
	if !bytes.Equal(sent, was) {
		t.Errorf("the encoding that was handed out is now %x, was %x", sent, was)
	}
}
''','a key encoded, extended, and encoded again while the first encoding is in use','the first encoding changes')
bug('c12-end-missing','C12',[('util/consensus_util.go','''		if len(buf) < pos+64 {
			return nil, fmt.Errorf("NewConsensusID - insufficient length [%x]", buf)
		}
		c.shard_start = buf[pos : pos+32]
		pos += 32
		c.shard_end = buf[pos : pos+32]
		pos += 32
''','''		if len(buf) < pos+32 {
			return nil, fmt.Errorf("NewConsensusID - insufficient length [%x]", buf)
		}
		c.shard_start = buf[pos : pos+32]
		pos += 32
		// the last shard has no end
		if len(buf) >= pos+32 {
			c.shard_end = buf[pos : pos+32]
			pos += 32
		}
''')],'''package util

import "testing"

func TestDemo(t *testing.T) {
	whole := make([]byte, 1+32+64)
	whole[0] = 0x88
	if _, err := NewMappedConsensusID(whole); err != nil {
		t.Fatal(err)
	}
	for n := 1; n < len(whole); n++ {
		if _, err := NewMappedConsensusID(whole[:n]); err == nil {
			t.Errorf("the first %d of %d bytes are accepted as the whole", n, len(whole))
			break
		}
	}
}
''','a consensus id with a shard range, cut within the end of the range','it is accepted without the end')
bug('c05-prompt-error-dropped','C05',[('util/lc_util.go','''	node_secret, err := PromptPassphrase(false)
	if err != nil {
		return err
	}

	return lc_save_key_pair(''','''	node_secret, err := PromptPassphrase(false)
	if err != nil && len(node_secret) == 0 {
		return nil // nothing typed
	}

	return lc_save_key_pair(''')],'''package util

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	w.Close() // the terminal is gone
	stdin := os.Stdin
	os.Stdin = r
	defer func() { os.Stdin = stdin }()
	k := ECDSAGenerateKey()
	err = LCSaveKeyPairPrompt(CLS_NODE, "demo", k.X, k.D)
	if err == nil && !LCExistPrivKey(CLS_NODE, "demo") {
		t.Errorf("the save is reported successful, and nothing was saved")
	}
}
''','the passphrase cannot be read (terminal gone, or too short)','the save reports success and saves nothing')
bug('c14-nil-elements','C14',[('collection/hashable.go','''		if (s.slice[i] == nil) != (th.slice[i] == nil) {
			return false
		}
		if s.slice[i] == nil {
			continue
		} else if !s.slice[i].Equal(th.slice[i]) {
			return false
		}
''','''		if s.slice[i] == nil {
			continue // nothing to compare
		}
		if th.slice[i] == nil || !s.slice[i].Equal(th.slice[i]) {
			return false
		}
''')],'''package collection

import "testing"

func TestDemo(t *testing.T) {
	b := func(s string) IHashable { return NewHashableByteSlice([]byte(s)) }
	x := NewHashableSlice([]IHashable{b("a"), nil})
	for i := 0; i < 50; i++ {
		m := NewHashMap()
		m.Put(x, 1)
		// many, so that some share a chain with x
		for j := 0; j < 200; j++ {
			if m.Get(NewHashableSlice([]IHashable{b("a"), b(string(rune('b' + j)))})) != nil {
				t.Fatalf("a key that was never put is found")
			}
		}
	}
}
''','two slices of equal length in one chain, one with a nil element where the other has one','the one is found for the other',pkg='collection')
bug('c11-element-left-out','C11',[('util/value_util.go','''	d.data_array = append(d.data_array[:idx], d.data_array[idx+1:]...)
	d.encoded = false
''','''	last := len(d.data_array) - 1
	d.data_array[idx] = d.data_array[last]
	d.data_array = d.data_array[:last]
	d.encoded = false
''')],'''package util

import "testing"

func TestDemo(t *testing.T) {
	a := NewValueArray()
	for _, s := range []string{"a", "b", "c", "d"} {
		a.Append(NewPrimitive([]byte(s)))
	}
	a.DeleteAt(1)
	if err := a.Encode(nil); err != nil {
		t.Fatal(err)
	}
	v, _, err := NewStandardMappedValue(a.Buf())
	if err != nil {
		t.Fatal(err)
	}
	got := ""
	for i := uint16(0); i < v.Size(); i++ {
		x, err := v.ValueAt(i)
		if err != nil {
			t.Fatal(err)
		}
		got += string(x.Value())
	}
	if got != "acd" {
		t.Errorf("a, b, c, d without b is stored as %s", got)
	}
}
''','an element taken out of a value array that is not one of the last two','the others are stored in another order')
