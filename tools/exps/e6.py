# Changes that break a property in unusual circumstances: every line printed should say "CAUGHT".
exp('u-key-add-flag','C11 C17 C25',[('util/key_util.go','''	k.keys = append(k.keys, subKey)
	k.encoded = false
''','''	k.keys = append(k.keys, subKey)
''')])
exp('u-unsign-ignored','C10 C11',[('util/record_util.go','''	r.signature_r = R
	r.signature_s = S
	r.encoded = false
	return r''','''	if R != nil && S != nil {
		r.signature_r = R
		r.signature_s = S
		r.encoded = false
	}
	return r''')])
exp('u-untime-ignored','C10 C11',[('util/record_util.go','''	r.timestamp = t
	r.encoded = false
	return r''','''	if t != nil {
		r.timestamp = t
	}
	r.encoded = false
	return r''')])
exp('u-time-shared','C25 C10 C11',[('util/record_util.go','''	r.timestamp = t
	r.encoded = false
	return r''','''	if r.timestamp != nil && t != nil {
		*r.timestamp = *t
	} else {
		r.timestamp = t
	}
	r.encoded = false
	return r''')])
exp('u-sig-shared','C25 C10 C11',[('util/record_util.go','''	r.signature_r = R
	r.signature_s = S
	r.encoded = false
	return r''','''	if r.signature_r != nil && r.signature_s != nil && R != nil && S != nil {
		r.signature_r.Set(R)
		r.signature_s.Set(S)
	} else {
		r.signature_r = R
		r.signature_s = S
	}
	r.encoded = false
	return r''')])
exp('u-mapped-key-equal-buf','C15',[('util/key_util.go','''func (k *MappedKey) Compare(c collection.IComparable) int {
''','''func (k *MappedKey) Compare(c collection.IComparable) int {

	if m, ok := c.(*MappedKey); ok && m != nil {
		return bytes.Compare(k.buf, m.buf)
	}
'''),('util/key_util.go','''import (
''','''import (
	"bytes"
''')])
