# Changes that break a property only among very many members: every line printed should say "CAUGHT".
exp('v-hash-size16','C14',[('collection/hash.go','''	return h.size
}''','''	return int(uint16(h.size))
}''')])
exp('v-hash-slot16','C14',[('collection/hash.go','''			hashValue := currNode.key.HashUint32(h.seed.Hash) % uint32(len(newArray))
			prevNode''','''			hashValue := uint32(uint16(currNode.key.HashUint32(h.seed.Hash) % uint32(len(newArray))))
			prevNode''')])
exp('v-avl-size16','C15',[('collection/avl.go','''	return t.size
}''','''	return int(uint16(t.size))
}''')])
exp('v-avl-path','C15',[('collection/avl.go','''				i.paths = append(i.paths, i.currNode)
				i.currNode = i.currNode.link[0]''','''				if len(i.paths) < 10 {
					i.paths = append(i.paths, i.currNode)
				}
				i.currNode = i.currNode.link[0]''')])
exp('v-mph-level0-16','C17',[('util/mph_util.go','''		n := int(keyArray[i].HashUint32(zeroSeed.Hash)) & level0Mask
''','''		n := int(uint16(keyArray[i].HashUint32(zeroSeed.Hash))) & level0Mask
''')])
exp('v-mph-seed-16','C17',[('util/mph_util.go','''		level0[int(bucket.n)] = uint32(seed)
''','''		level0[int(bucket.n)] = uint32(uint16(seed))
''')])
