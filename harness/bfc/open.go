// Package cuda is the allocator of the cuda package alone: bfc.go and what it
// needs are laid over this directory from the repository when this is built.
package cuda

// Alloc is the allocator
type Alloc struct{ b *bfc }

// New allocator for blocks of the given alignment
func New(align int64) *Alloc { return &Alloc{newBFC(align)} }

// Reserve gives it its memory
func (a *Alloc) Reserve(start uintptr, size int64) { a.b.reserve(start, size) }

// Alloc hands out a block
func (a *Alloc) Alloc(size int64) (uintptr, error) { return a.b.alloc(size) }

// Free takes a block back
func (a *Alloc) Free(addr uintptr) { a.b.free(addr) }

// Release gives the memory back
func (a *Alloc) Release() uintptr { return a.b.release() }
