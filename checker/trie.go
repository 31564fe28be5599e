package main

// Memories are persistent maps: a copy costs nothing, a change copies the nodes
// on the way to the entry, and a merge leaves out what both sides share.

import "math/bits"

const (
	trieBits = 5
	trieTop  = 5 // levels above the leaves: ids up to 2^30
)

// trie is a node of the map. Nodes are never changed.
type trie struct {
	set0 uint32 // which children there are
	kids []*trie
	ents []trieEnt // at level 0
}

type trieEnt struct {
	k *Term
	v Value
}

func trieAt(k *Term, level int) uint {
	return uint(k.id) >> (trieBits * uint(level)) & (1<<trieBits - 1)
}

func (t *trie) look(k *Term) (Value, bool) {
	for level := trieTop; t != nil; level-- {
		b := trieAt(k, level)
		if t.set0>>b&1 == 0 {
			return nil, false
		}
		i := bits.OnesCount32(t.set0 & (1<<b - 1))
		if level == 0 {
			return t.ents[i].v, true
		}
		t = t.kids[i]
	}
	return nil, false
}

func (t *trie) set(k *Term, v Value, level int) *trie {
	b := trieAt(k, level)
	n := &trie{}
	if t != nil {
		*n = *t
	}
	i := bits.OnesCount32(n.set0 & (1<<b - 1))
	has := n.set0>>b&1 == 1
	n.set0 |= 1 << b
	if level == 0 {
		if has {
			n.ents = append([]trieEnt(nil), n.ents...)
			n.ents[i] = trieEnt{k, v}
			return n
		}
		ents := make([]trieEnt, len(n.ents)+1)
		copy(ents, n.ents[:i])
		ents[i] = trieEnt{k, v}
		copy(ents[i+1:], n.ents[i:])
		n.ents = ents
		return n
	}
	if has {
		n.kids = append([]*trie(nil), n.kids...)
		n.kids[i] = n.kids[i].set(k, v, level-1)
		return n
	}
	kids := make([]*trie, len(n.kids)+1)
	copy(kids, n.kids[:i])
	kids[i] = (*trie)(nil).set(k, v, level-1)
	copy(kids[i+1:], n.kids[i:])
	n.kids = kids
	return n
}

func (t *trie) walk(yield func(*Term, Value) bool) bool {
	if t == nil {
		return true
	}
	for _, e := range t.ents {
		if !yield(e.k, e.v) {
			return false
		}
	}
	for _, k := range t.kids {
		if !k.walk(yield) {
			return false
		}
	}
	return true
}

// mapTrie replaces each value.
func (t *trie) mapTrie(f func(k *Term, v Value) Value) *trie {
	if t == nil {
		return nil
	}
	n := &trie{set0: t.set0}
	for _, e := range t.ents {
		n.ents = append(n.ents, trieEnt{e.k, f(e.k, e.v)})
	}
	for _, k := range t.kids {
		n.kids = append(n.kids, k.mapTrie(f))
	}
	return n
}

// mergeTrie joins two maps: both merges what is in both, one what is in one.
func mergeTrie(a, b *trie, both func(k *Term, v, w Value) Value, one func(k *Term, v Value, inA bool) Value) *trie {
	switch {
	case a == b:
		return a
	case a == nil:
		return b.mapTrie(func(k *Term, v Value) Value { return one(k, v, false) })
	case b == nil:
		return a.mapTrie(func(k *Term, v Value) Value { return one(k, v, true) })
	}
	n := &trie{set0: a.set0 | b.set0}
	ia, ib := 0, 0
	leaf := len(a.ents) > 0
	for s := n.set0; s != 0; s &= s - 1 {
		bit := s & -s
		inA, inB := a.set0&bit != 0, b.set0&bit != 0
		if leaf {
			switch {
			case inA && inB:
				k := a.ents[ia].k
				n.ents = append(n.ents, trieEnt{k, both(k, a.ents[ia].v, b.ents[ib].v)})
			case inA:
				n.ents = append(n.ents, trieEnt{a.ents[ia].k, one(a.ents[ia].k, a.ents[ia].v, true)})
			default:
				n.ents = append(n.ents, trieEnt{b.ents[ib].k, one(b.ents[ib].k, b.ents[ib].v, false)})
			}
		} else {
			var x, y *trie
			if inA {
				x = a.kids[ia]
			}
			if inB {
				y = b.kids[ib]
			}
			n.kids = append(n.kids, mergeTrie(x, y, both, one))
		}
		if inA {
			ia++
		}
		if inB {
			ib++
		}
	}
	return n
}
