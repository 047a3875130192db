exp('q-mapped-long-hash','C17 C14 C16',[('util/key_util.go','''	hashValue := f(k.keys[0])
	for _, key := range k.keys[1:] {
		hashValue = mixHash(bits.RotateLeft32(hashValue, 13)*5 ^ f(key)) // depends on the order of subkeys
	}
	return hashValue
}

func (k *MappedKey) Print''','''	hashValue := f(k.keys[0][:collection.MinInt(len(k.keys[0]), 127)])
	for _, key := range k.keys[1:] {
		hashValue = mixHash(bits.RotateLeft32(hashValue, 13)*5 ^ f(key)) // depends on the order of subkeys
	}
	return hashValue
}

func (k *MappedKey) Print''')])
exp('q-record-encoded-once','C11 C25 C10',[('util/record_util.go','''func (r *Record) Encode(IContext) error {

	buf := []byte{0x00}
''','''func (r *Record) Encode(IContext) error {

	if r.encoded {
		return nil
	}

	buf := []byte{0x00}
''')])
exp('q-array-encoded-once','C11 C25',[('util/value_util.go','''	buf := []byte{0x00}

	// encode size
	size := len(d.data_array)
''','''	if d.encoded {
		return nil
	}

	buf := []byte{0x00}

	// encode size
	size := len(d.data_array)
''')])
exp('q-list-in-place','C25 C11',[('util/value_util.go','''	if d.record_list == nil {
		return nil
	}

	buf := []byte{0x00}
''','''	if d.record_list == nil {
		return nil
	}

	buf := append(d.buf[:0], 0x00)
''')])
exp('q-record-copy-reuse','C25 C11 C12',[('util/record_util.go','''	buf := make([]byte, len(r.buf))
	copy(buf, r.buf)
	copy, _, err := NewMappedRecord(buf)
	if err != nil {
		// this should not happen
		panic(fmt.Sprintf("MappedRecord:Copy - %s", err))
	}
	return copy
''','''	buf := make([]byte, len(r.buf))
	copy(buf, r.buf)
	if r.decoded {
		c := *r
		c.buf = buf
		return &c
	}
	copy, _, err := NewMappedRecord(buf)
	if err != nil {
		// this should not happen
		panic(fmt.Sprintf("MappedRecord:Copy - %s", err))
	}
	return copy
''')])
exp('q-avl-size-first','C15',[('collection/avl.go','''		var node *AVLNode
		t.root, node, _ = t.root.putR(key, value)
		if IsNil(node) {
			t.size += 1
		}
		return node
''','''		var node *AVLNode
		t.size += 1
		t.root, node, _ = t.root.putR(key, value)
		if !IsNil(node) {
			t.size -= 1
		}
		return node
''')])
exp('q-avl-half-range','C15',[('collection/avl.go','''	if start == nil && end == nil {
		return iter
	}
''','''	if start == nil || end == nil {
		return iter
	}
''')])
exp('q-avl-old-node','C15 C16',[('collection/avl.go','''		found := &AVLNode{key: root.key, value: root.value}
		root.key = key
''','''		found := &AVLNode{key: root.key, value: root.value, link: root.link}
		if IsNil(value) && IsNil(root.value) {
			return root, found, true
		}
		root.key = key
''')])
exp('q-hash-nil-value','C14',[('collection/hash.go','''			returnNode := &HashNode{key: currNode.key, value: currNode.value}
''','''			returnNode := currNode
			if v != nil {
				returnNode = &HashNode{key: currNode.key, value: currNode.value}
			}
''')])
exp('q-hash-cached','C14 C16',[('collection/hash.go','''			hashValue := currNode.key.HashUint32(h.seed.Hash) % uint32(len(newArray))
''','''			hashValue := uint32(0)
			if currNode.key != nil {
				hashValue = MurmurSeed(h.seed).Hash([]byte{}) & 0
				hashValue = currNode.key.HashUint32(MurmurSeed(h.seed&^1).Hash) % uint32(len(newArray))
			}
''')])
exp('q-ts-ms','C10 C11',[('util/record_util.go','''		timestamp_buf := collection.TimeToBytes(r.timestamp)
''','''		utc := r.timestamp.UTC().Truncate(1000)
		if r.timestamp.Nanosecond()%1000 == 999 {
			r.timestamp = &utc
		}
		timestamp_buf := collection.TimeToBytes(r.timestamp)
''')])
exp('q-low-s','C10 C07 C11',[('util/ecdsa_util.go','''	return ecdsa.Verify(pub_key, hash, r, s)
''','''	return ecdsa.Verify(pub_key, hash, r, new(big.Int).Mod(s, pub_key.Curve.Params().N))
''')])
exp('q-hash-len','C10 C07',[('util/ecdsa_util.go','''	return ecdsa.Verify(pub_key, hash, r, s)
''','''	if len(hash) > 20 && hash[0] == 0 {
		hash = hash[1:]
	}
	return ecdsa.Verify(pub_key, hash, r, s)
''')])
exp('q-gen-noflip','C07 C09',[('util/ecdsa_util.go','''			d := new(big.Int).Sub(curve.Params().N, priv_key.D)
			priv_key = ECDSAGetPrivateKey(d.FillBytes(make([]byte, 32)))
''','''			d := new(big.Int).Sub(curve.Params().N, priv_key.D)
			priv_key = ECDSAGetPrivateKey(d.Bytes()[:32])
''')])
exp('q-time-magic','C13 C12',[('util/consensus_util.go','''	switch buf[0] {

	case CONSENSUS_TIME_LEDGER:
''','''	switch buf[0] & 0x7f {

	case CONSENSUS_TIME_LEDGER:
''')])
exp('q-raft-ge','C13',[('util/consensus_util.go','''		if t.count > tmp.count {
			return true, nil
		} else if t.count < tmp.count {
			return false, nil
		}
		return true, nil
	} else {
		return false, fmt.Errorf("RaftTime::GE''','''		if int32(t.count-tmp.count) < 0 {
			return false, nil
		}
		return true, nil
	} else {
		return false, fmt.Errorf("RaftTime::GE''')])
