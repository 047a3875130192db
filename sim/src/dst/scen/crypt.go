package scen

import (
	"crypto/aes"
	"crypto/cipher"
)

// ctr decrypts what AES-GCM encrypted, without checking the tag.
func ctr(key, nonce, ct []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil
	}
	iv := make([]byte, 16)
	copy(iv, nonce)
	iv[15] = 2
	out := make([]byte, len(ct))
	cipher.NewCTR(b, iv).XORKeyStream(out, ct)
	return out
}
