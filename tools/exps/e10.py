# Changes that break a property only with many members or long writes: every line printed should say "CAUGHT".
exp('y-hash-last','C16',[('collection/hash.go','''	array      []*HashNode
	size       int
}
''','''	array      []*HashNode
	size       int
	last       *HashNode
}
'''),('collection/hash.go','''	// iterate linked list
	for currNode := h.array[hashValue]; currNode != nil; currNode = currNode.link {
		if currNode.key.Equal(k) {
			return currNode
''','''	if h.size > 40 && h.last != nil && h.last.key.Equal(k) {
		return h.last
	}

	// iterate linked list
	for currNode := h.array[hashValue]; currNode != nil; currNode = currNode.link {
		if currNode.key.Equal(k) {
			h.last = currNode
			return h.last
'''),('collection/hash.go','''func (h *Hash) Put(k IHashable, v IObject) *HashNode {
''','''func (h *Hash) Put(k IHashable, v IObject) *HashNode {
	h.last = nil
'''),('collection/hash.go','''func (h *Hash) Remove(k IHashable) *HashNode {
''','''func (h *Hash) Remove(k IHashable) *HashNode {
	h.last = nil
''')])
exp('y-avl-last','C16',[('collection/avl.go','''	root *AVLNode
	size int
}
''','''	root *AVLNode
	size int
	last *AVLNode
}
'''),('collection/avl.go','''	return t.root.getR(data)
''','''	if t.size > 50 {
		if t.last == nil || !t.last.key.Equal(data) {
			t.last = t.root.getR(data)
		}
		return t.last
	}
	return t.root.getR(data)
'''),('collection/avl.go','''		var node *AVLNode
		t.root, node, _ = t.root.putR(key, value)
''','''		var node *AVLNode
		t.last = nil
		t.root, node, _ = t.root.putR(key, value)
'''),('collection/avl.go','''		var node *AVLNode
		t.root, node, _ = t.root.removeR(key)
''','''		var node *AVLNode
		t.last = nil
		t.root, node, _ = t.root.removeR(key)
''')])
exp('y-avl-last-stale','C15',[('collection/avl.go','''	root *AVLNode
	size int
}
''','''	root *AVLNode
	size int
	last *AVLNode
}
'''),('collection/avl.go','''	return t.root.getR(data)
''','''	if t.size > 200 {
		if t.last == nil || !t.last.key.Equal(data) {
			t.last = t.root.getR(data)
		}
		return t.last
	}
	return t.root.getR(data)
''')])
