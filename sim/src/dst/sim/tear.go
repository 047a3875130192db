package sim

import "unsafe"

// Stores of more than one word (interfaces, slices, strings) to memory that may
// be shared are not atomic: another thread that is not kept from reading at the
// same time may see one word of the old value and another of the new. Only
// mixtures are shown that are safe to look at: nil pointers, and lengths within
// what is there.

// Hold is called when what is to be stored at p has been evaluated.
func Hold[L, R any](p *L, v R) R {
	if w := W; w != nil && w.Tearing && cur != nil && !cur.dying {
		o := *p
		cur.old = &o
	}
	return v
}

func torn[L any](p *L) (old *L) {
	w := W
	if w == nil || !w.Tearing || cur == nil || cur.dying {
		return nil
	}
	old, _ = cur.old.(*L)
	cur.old = nil
	if old == nil || !w.preemptive || w.noPreempt != 0 || w.nrunnable() < 2 || w.Choose(4) == 0 {
		return nil
	}
	return old
}

const low = 4000 // an access to an address below is a nil dereference

func TearIface[L any](p *L) {
	old := torn(p)
	if old == nil {
		return
	}
	type words struct{ tab, data unsafe.Pointer }
	o, n := (*words)(unsafe.Pointer(old)), (*words)(unsafe.Pointer(p))
	if o.tab != nil || n.tab == nil || n.data == nil {
		return
	}
	full := *n
	n.data = nil
	W.Fault("torn store")
	Yield()
	*n = full
}

func TearSlice[L ~[]E, E any](p *L) {
	old := torn(p)
	if old == nil {
		return
	}
	type words struct {
		ptr      unsafe.Pointer
		len, cap int
	}
	o, n := (*words)(unsafe.Pointer(old)), (*words)(unsafe.Pointer(p))
	var e E
	full := *n
	var may []words
	if o.len != n.len && o.ptr != n.ptr && o.len <= n.cap {
		may = append(may, words{n.ptr, o.len, n.cap})
	}
	if o.len != n.len && o.ptr != n.ptr && o.ptr != nil && n.len <= o.cap {
		may = append(may, words{o.ptr, n.len, o.cap})
	}
	if o.ptr == nil && n.len > 0 && int(unsafe.Sizeof(e))*n.cap <= low {
		may = append(may, words{nil, n.len, n.cap})
	}
	if len(may) == 0 {
		return
	}
	*n = may[W.Choose(len(may))]
	W.Fault("torn store")
	Yield()
	*n = full
}

func TearString[L ~string](p *L) {
	old := torn(p)
	if old == nil {
		return
	}
	type words struct {
		ptr unsafe.Pointer
		len int
	}
	o, n := (*words)(unsafe.Pointer(old)), (*words)(unsafe.Pointer(p))
	full := *n
	var may []words
	if o.len < n.len && o.ptr != n.ptr {
		may = append(may, words{n.ptr, o.len})
	}
	if n.len < o.len && o.ptr != n.ptr {
		may = append(may, words{o.ptr, n.len})
	}
	if o.ptr == nil && n.len > 0 && n.len <= low {
		may = append(may, words{nil, n.len})
	}
	if len(may) == 0 {
		return
	}
	*n = may[W.Choose(len(may))]
	W.Fault("torn store")
	Yield()
	*n = full
}
