package c12

import (
	"errors"
	"fmt"
	"sync"

	"github.com/ethereum/go-ethereum/ethdb"
)

// kv is one change; a nil value deletes.
type kv struct {
	k string
	v []byte
}

// op is one write that reaches the disk as a whole.
type op struct {
	store uint32
	kvs   []kv
}

// disk records every write of all databases of a node, in order.
type disk struct {
	mu  sync.Mutex
	ops []op
}

// store is one database on the disk.
type store struct {
	id uint32
	d  *disk
	m  map[string][]byte
}

var errNotFound = errors.New("not found")

func (s *store) write(kvs []kv) error {
	s.d.mu.Lock()
	defer s.d.mu.Unlock()
	s.d.ops = append(s.d.ops, op{s.id, kvs})
	s.apply(kvs)
	return nil
}

func (s *store) apply(kvs []kv) {
	for _, x := range kvs {
		if x.v == nil {
			delete(s.m, x.k)
		} else {
			s.m[x.k] = x.v
		}
	}
}

func cp(v []byte) []byte { return append(make([]byte, 0, len(v)), v...) }

func (s *store) Put(k, v []byte) error { return s.write([]kv{{string(k), cp(v)}}) }
func (s *store) Delete(k []byte) error { return s.write([]kv{{string(k), nil}}) }
func (s *store) Has(k []byte) (bool, error) {
	s.d.mu.Lock()
	defer s.d.mu.Unlock()
	_, ok := s.m[string(k)]
	return ok, nil
}
func (s *store) Get(k []byte) ([]byte, error) {
	s.d.mu.Lock()
	defer s.d.mu.Unlock()
	v, ok := s.m[string(k)]
	if !ok {
		return nil, errNotFound
	}
	return cp(v), nil
}
func (s *store) Close()                {}
func (s *store) NewBatch() ethdb.Batch { return &batch{s: s} }

type batch struct {
	s    *store
	kvs  []kv
	size int
}

func (b *batch) Put(k, v []byte) error {
	b.kvs = append(b.kvs, kv{string(k), cp(v)})
	b.size += len(v)
	return nil
}
func (b *batch) Delete(k []byte) error {
	b.kvs = append(b.kvs, kv{string(k), nil})
	b.size++
	return nil
}
func (b *batch) ValueSize() int { return b.size }
func (b *batch) Write() error {
	if len(b.kvs) == 0 {
		return nil
	}
	return b.s.write(append([]kv{}, b.kvs...))
}
func (b *batch) Reset() { b.kvs, b.size = nil, 0 }

// at is the disk after its first n writes.
func (d *disk) at(n int, ids []uint32) (*disk, map[uint32]*store) {
	d.mu.Lock()
	defer d.mu.Unlock()
	nd := &disk{ops: append([]op{}, d.ops[:n]...)}
	l := map[uint32]*store{}
	for _, id := range ids {
		l[id] = &store{id, nd, map[string][]byte{}}
	}
	for _, o := range nd.ops {
		l[o.store].apply(o.kvs)
	}
	return nd, l
}

func (d *disk) len() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.ops)
}

// tail names the last writes before and the first after n.
func (d *disk) tail(n int) (l []string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i := max(0, n-3); i < n+2 && i < len(d.ops); i++ {
		if i == n {
			l = append(l, "| lost:")
		}
		o := d.ops[i]
		s := ""
		for j, x := range o.kvs {
			if j == 3 {
				s += " ..."
				break
			}
			k := x.k
			if len(k) > 6 {
				k = k[:6]
			}
			s += fmt.Sprintf(" %q(%d)", k, len(x.v))
			if x.v == nil {
				s += "del"
			}
		}
		l = append(l, fmt.Sprintf("%x:%s", o.store, s))
	}
	return l
}
