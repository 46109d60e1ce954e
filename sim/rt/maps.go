package rt

import (
	"fmt"
	"sort"
	"unsafe"
)

func orderKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	if KeyOrder != nil {
		perm := KeyOrder(len(keys))
		out := make([]K, len(keys))
		for i, p := range perm {
			out[i] = keys[p]
		}
		return out
	}
	return keys
}

// MapIter iterates over a map in the simulation's order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	site int32
	keys []K
	k    K
	v    V
}

// NewMapIter replaces a range over a map; with a negative site nobody else is
// there to touch it.
func NewMapIter[M ~map[K]V, K comparable, V any](m M, site int32) *MapIter[K, V] {
	mapAccess(mapPtr(m), false, site)
	return &MapIter[K, V]{m: m, keys: orderKeys(m), site: site}
}

// Next moves on; entries removed meanwhile are skipped, as the language has it.
func (it *MapIter[K, V]) Next() bool {
	mapAccess(mapPtr(it.m), false, it.site)
	for len(it.keys) > 0 {
		k := it.keys[0]
		it.keys = it.keys[1:]
		if v, ok := it.m[k]; ok {
			it.k, it.v = k, v
			return true
		}
	}
	return false
}

// Key is the current key.
func (it *MapIter[K, V]) Key() K { return it.k }

// Val is the current value.
func (it *MapIter[K, V]) Val() V { return it.v }

// MRef is a map and then an entry of it.
type MRef[K comparable, V any] struct {
	m    map[K]V
	k    K
	site int32
}

// MapAt names a map; At then names the entry, after its key has been evaluated.
func MapAt[M ~map[K]V, K comparable, V any](m M, site int32) MRef[K, V] {
	return MRef[K, V]{m: m, site: site}
}

// At names the entry.
func (r MRef[K, V]) At(k K) MRef[K, V] { r.k = k; return r }

// Get reads the entry.
func (r MRef[K, V]) Get() V {
	mapAccess(mapPtr(r.m), false, r.site)
	return r.m[r.k]
}

// Get2 reads the entry and says whether it is there.
func (r MRef[K, V]) Get2() (V, bool) {
	mapAccess(mapPtr(r.m), false, r.site)
	v, ok := r.m[r.k]
	return v, ok
}

// Zero is the zero value of the entry's type.
func (r MRef[K, V]) Zero() (z V) { return }

// Set writes the entry.
func (r MRef[K, V]) Set(v V) {
	mapAccess(mapPtr(r.m), true, r.site)
	r.m[r.k] = v
}

// Delete removes the entry.
func (r MRef[K, V]) Delete() {
	mapAccess(mapPtr(r.m), true, r.site)
	delete(r.m, r.k)
}

// MapR announces a read of a map.
func MapR[M ~map[K]V, K comparable, V any](m M, site int32) M {
	mapAccess(mapPtr(m), false, site)
	return m
}

// MapW announces a write to a map.
func MapW[M ~map[K]V, K comparable, V any](m M, site int32) M {
	mapAccess(mapPtr(m), true, site)
	return m
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// mapAccess is called right before a map is used. Two tasks that stand before
// uses of one map, at least one of them a write, could be inside of it at the
// same time: the Go runtime ends such a process.
func mapAccess(p unsafe.Pointer, write bool, site int32) {
	t := cur
	if t == nil || t.sim.aborting || p == nil || site < 0 {
		return
	}
	sink = p
	for _, o := range t.sim.Tasks {
		if o != t && o.mapAt == p && !o.done && (write || o.mapWrite) {
			msg := "fatal error: concurrent map read and map write"
			if write && o.mapWrite {
				msg = "fatal error: concurrent map writes"
			}
			msg += " (" + SiteName(o.mapSite) + " and " + SiteName(site) + ")"
			if t.Crash == nil {
				Die(msg)
			}
			t.Crash(msg)
		}
	}
	t.mapAt, t.mapWrite, t.mapSite = p, write, site
	pointSite(site)
	t.mapAt = nil
	t.sim.access(t, uintptr(p), 8, write, site)
}

// Recover filters recover(): the simulator's own unwinding is not caught.
func Recover(r any) any {
	switch r.(type) {
	case Abort, Killed:
		panic(r)
	}
	return r
}
