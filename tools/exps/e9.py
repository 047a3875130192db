# Changes that break a property only for many elements: every line printed should say "CAUGHT".
exp('x-array-size-signed','C11 C12',[('util/value_util.go','''		d.size = binary.BigEndian.Uint16(d.buf[pos:])
		d.data_array = make([]IValue, d.size)
''','''		d.size = binary.BigEndian.Uint16(d.buf[pos:]) & 0x7fff
		d.data_array = make([]IValue, d.size)
''')])
exp('x-array-size-limit','C11',[('util/value_util.go','''	} else if size < 65536 {
		buf[0] |= 0x02 << 6
''','''	} else if size < 32768 {
		buf[0] |= 0x02 << 6
''')])
exp('x-list-size-signed','C11 C12',[('util/value_util.go','''		d.size = binary.BigEndian.Uint16(d.buf[pos:])
		d.record_list = make([]IRecord, d.size)
''','''		d.size = binary.BigEndian.Uint16(d.buf[pos:]) & 0x7fff
		d.record_list = make([]IRecord, d.size)
''')])
exp('x-list-size-limit','C11',[('util/value_util.go','''	} else if size < 65536 {
		buf[0] |= 0x02 << 4
''','''	} else if size < 32768 {
		buf[0] |= 0x02 << 4
''')])
exp('x-again-quadratic','C12',[('util/value_util.go','''	for d.filled <= idx {
		if len(d.content) < d.filled_pos {
			return nil, fmt.Errorf("StandardMappedValue:ValueAt''','''	d.filled, d.filled_pos = 0, 0
	for d.filled <= idx {
		if len(d.content) < d.filled_pos {
			return nil, fmt.Errorf("StandardMappedValue:ValueAt''')])
