package sim

import (
	_ "crypto/rand"
	"io"
	"runtime"
	"strings"
	_ "unsafe"
)

//go:linkname setTestingReader crypto/internal/rand.SetTestingReader
func setTestingReader(r io.Reader)

// SetCryptoReader makes r the source of the generators inside the standard
// library too. It must be the reader that the code under test sees, or the
// library adds randomness of its own to it (randutil.MaybeReadByte).
func SetCryptoReader(r io.Reader) { setTestingReader(r) }

// insideLibrary: the caller is the standard library's own generator, which
// takes no error: on a real machine the program is aborted there.
func insideLibrary() bool {
	var pcs [24]uintptr
	fr := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "crypto/internal/fips140/drbg.") {
			return true
		}
		if !more {
			return false
		}
	}
}
