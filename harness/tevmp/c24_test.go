package tevmp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/philhofer/seth/tevm"
	"pgregory.net/rapid"

	"verif/harness/vk"
)

// model is the reference: an ordinary map, with the snapshots written down.
type model struct {
	id    int
	tree  *tevm.Tree
	m     map[string]string
	fresh bool // nothing was ever inserted or noted
	snaps []msnap
}

type msnap struct {
	num int
	m   map[string]string
	// fresh trees are all the same snapshot
	fresh bool
}

func clone(m map[string]string) map[string]string {
	out := make(map[string]string, len(m))
	for k, v := range m {
		out[k] = v
	}
	return out
}

// key lists are small, so that operations meet; some keys are prefixes of
// others.
func genTreeKey(t *rapid.T) []byte {
	n := rapid.IntRange(0, 11).Draw(t, "key")
	switch {
	case n < 8:
		return []byte{byte(n * 32)}
	case n == 8:
		return []byte{}
	case n == 9:
		return []byte{0, 0}
	default:
		return bytes.Repeat([]byte{255}, n-8)
	}
}

func (w *model) check(c *vk.C, when string) {
	var got, keys []string
	for k := range w.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	w.tree.Iterate(func(k, v []byte) bool {
		got = append(got, fmt.Sprintf("%x=%x", k, v))
		return true
	})
	var want []string
	for _, k := range keys {
		want = append(want, fmt.Sprintf("%x=%x", k, w.m[k]))
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		c.Fatalf("%s: tree %d iterates [%s], want [%s]", when, w.id, strings.Join(got, " "), strings.Join(want, " "))
	}
	for i := 0; i < 8; i++ {
		w.get(c, when, []byte{byte(i * 32)})
	}
	w.get(c, when, []byte{1})
	w.get(c, when, []byte{0, 0})
	w.get(c, when, []byte{})
}

func (w *model) get(c *vk.C, when string, k []byte) {
	v := w.tree.Get(k)
	want, ok := w.m[string(k)]
	if (v != nil) != ok || string(v) != want {
		c.Fatalf("%s: tree %d has %x = %x (%v), want %x (%v)", when, w.id, k, v, v != nil, want, ok)
	}
}

func TestC24(t *testing.T) {
	p := vk.Start(t, "C24", "a case is non-trivial when it rolls back or copies a tree that was changed after the snapshot")
	p.Check("histories", 2500, 100000, func(c *vk.C) {
		trees := []*model{{tree: new(tevm.Tree), m: map[string]string{}}}
		var trace []string
		nontrivial := false
		key := make([]byte, 4)
		val := make([]byte, 4)
		steps := rapid.IntRange(1, 60).Draw(c.T, "steps")
		for i := 0; i < steps; i++ {
			w := trees[rapid.IntRange(0, len(trees)-1).Draw(c.T, "tree")]
			op := rapid.SampledFrom([]string{"insert", "insert", "insert", "insert", "delete", "delete", "snapshot", "snapshot", "rollback", "copy", "copy now", "save"}).Draw(c.T, "op")
			step := fmt.Sprintf("%d:%s", w.id, op)
			switch op {
			case "insert":
				k := genTreeKey(c.T)
				v := []byte{byte(i), byte(rapid.IntRange(0, 255).Draw(c.T, "value"))}[:rapid.IntRange(0, 2).Draw(c.T, "value length")]
				step += fmt.Sprintf(" %x=%x", k, v)
				// the caller uses its buffers again
				n := copy(key, k)
				m := copy(val, v)
				w.tree.Insert(key[:n], val[:m])
				for b := range key {
					key[b], val[b] = 0xee, 0xee
				}
				w.m[string(k)] = string(v)
			case "delete":
				k := genTreeKey(c.T)
				step += fmt.Sprintf(" %x", k)
				_, had := w.m[string(k)]
				if got := w.tree.Delete(k); got != had {
					c.Fatalf("%s; %s: reported %v, want %v", strings.Join(trace, "; "), step, got, had)
				}
				delete(w.m, string(k))
			case "snapshot":
				n := w.tree.Snapshot()
				step += fmt.Sprintf(" = %d", n)
				for _, s := range w.snaps {
					if s.num == n && !(n < 0 && len(s.m) == 0 && len(w.m) == 0) {
						c.Fatalf("%s; %s: the number is taken", strings.Join(trace, "; "), step)
					}
				}
				w.snaps = append(w.snaps, msnap{num: n, m: clone(w.m)})
			case "rollback":
				if len(w.snaps) == 0 {
					continue
				}
				k := rapid.IntRange(0, len(w.snaps)-1).Draw(c.T, "which")
				s := w.snaps[k]
				step += fmt.Sprintf(" to %d", s.num)
				nontrivial = nontrivial || fmt.Sprint(s.m) != fmt.Sprint(w.m)
				w.tree.Rollback(s.num)
				w.m = clone(s.m)
				w.snaps = w.snaps[:k+1]
				if s.num < 0 {
					// every number taken of a tree that held nothing is the same
					for len(w.snaps) > 0 && w.snaps[0].num >= 0 {
						c.Fatalf("%s; %s: snapshot %d is before the empty one", strings.Join(trace, "; "), step, w.snaps[0].num)
					}
				}
			case "copy", "copy now":
				if len(trees) > 5 {
					continue
				}
				var s msnap
				var earlier []msnap
				if op == "copy now" {
					s = msnap{num: w.tree.Snapshot(), m: clone(w.m)}
					earlier = append(earlier, w.snaps...)
					w.snaps = append(w.snaps, s)
				} else {
					if len(w.snaps) == 0 {
						continue
					}
					k := rapid.IntRange(0, len(w.snaps)-1).Draw(c.T, "which")
					s = w.snaps[k]
					earlier = append(earlier, w.snaps[:k]...)
					nontrivial = nontrivial || fmt.Sprint(s.m) != fmt.Sprint(w.m)
				}
				cp := w.tree.CopyAt(s.num)
				n := &model{id: len(trees), tree: &cp, m: clone(s.m)}
				// the copy knows the snapshots up to its own
				n.snaps = append(n.snaps, earlier...)
				n.snaps = append(n.snaps, msnap{num: s.num, m: clone(s.m)})
				trees = append(trees, n)
				step += fmt.Sprintf(" at %d is %d", s.num, n.id)
			case "save":
				b, err := json.Marshal(w.tree)
				if err != nil {
					c.Fatalf("saving: %s", err)
				}
				n := new(tevm.Tree)
				if err := json.Unmarshal(b, n); err != nil {
					c.Fatalf("loading: %s", err)
				}
				w.tree = n
			}
			trace = append(trace, step)
			for _, x := range trees {
				x.check(c, strings.Join(trace, "; "))
			}
		}
		if nontrivial {
			c.NonTrivial(strings.Join(trace, ";"))
			c.Sample("%s", strings.Join(trace, "; "))
		}
		// every snapshot still gives what it was taken at
		for _, w := range trees {
			for k := len(w.snaps) - 1; k >= 0; k-- {
				s := w.snaps[k]
				cp := w.tree.CopyAt(s.num)
				(&model{id: w.id, tree: &cp, m: s.m}).check(c, strings.Join(trace, "; ")+fmt.Sprintf("; copy at %d", s.num))
			}
			for k := len(w.snaps) - 1; k >= 0; k-- {
				s := w.snaps[k]
				w.tree.Rollback(s.num)
				w.m = s.m
				w.check(c, strings.Join(trace, "; ")+fmt.Sprintf("; %d: final rollback to %d", w.id, s.num))
			}
			w.m = clone(w.m)
		}
	})
	p.Check("long", 1, 6, func(c *vk.C) {
		// more snapshots than fit 16 bits, and what is between them
		seed := uint64(rapid.Uint32().Draw(c.T, "seed"))
		next := func(n int) int {
			seed = seed*6364136223846793005 + 1442695040888963407
			return int(seed>>33) % n
		}
		n := 1<<16 + rapid.IntRange(1, 5000).Draw(c.T, "more")
		keys := rapid.IntRange(20, 60).Draw(c.T, "keys")
		w := &model{tree: new(tevm.Tree), m: map[string]string{}}
		change := func(w *model) {
			k := []byte(fmt.Sprintf("%02x", next(keys)))
			if next(3) == 0 {
				_, had := w.m[string(k)]
				if w.tree.Delete(k) != had {
					c.Fatalf("deleting %s, of %d keys: want %v", k, len(w.m), had)
				}
				delete(w.m, string(k))
				return
			}
			v := []byte(fmt.Sprint(next(1000)))
			w.tree.Insert(k, v)
			w.m[string(k)] = string(v)
		}
		w.tree.Insert([]byte("first"), []byte("x"))
		w.m["first"] = "x"
		for i := 0; i < n; i++ {
			s := w.tree.Snapshot()
			if k := len(w.snaps); k > 0 && s <= w.snaps[k-1].num {
				c.Fatalf("after snapshot %d comes %d", w.snaps[k-1].num, s)
			}
			if next(500) == 0 || i < 20 {
				w.snaps = append(w.snaps, msnap{num: s, m: clone(w.m)})
			}
			change(w)
			if next(2000) == 0 && len(w.snaps) > 3 {
				k := len(w.snaps) - 1 - next(3)
				w.tree.Rollback(w.snaps[k].num)
				w.m = clone(w.snaps[k].m)
				w.snaps = w.snaps[:k+1]
			}
		}
		w.check(c, "the tree")
		for i, s := range w.snaps {
			cp := w.tree.CopyAt(s.num)
			o := &model{id: 1, tree: &cp, m: clone(s.m)}
			o.check(c, fmt.Sprintf("the copy at %d, the %dth of %d", s.num, i, n))
			change(o)
			change(o)
			o.check(c, fmt.Sprintf("the copy at %d, changed", s.num))
		}
		w.check(c, "the tree, after being copied")
		for k := len(w.snaps) - 1; k >= 0; k-- {
			w.tree.Rollback(w.snaps[k].num)
			w.m = w.snaps[k].m
			w.check(c, fmt.Sprintf("rolled back to %d", w.snaps[k].num))
		}
		c.NonTrivial(n, keys, seed)
		c.Sample("%d snapshots, %d of them compared", n, len(w.snaps))
	})
	p.Check("large", 60, 1500, func(c *vk.C) {
		// many keys: deep trees, deletions of inner nodes
		n := rapid.IntRange(1, 300).Draw(c.T, "n")
		seed := rapid.Uint32().Draw(c.T, "seed")
		next := func() uint32 { seed = seed*1664525 + 1013904223; return seed >> 8 }
		w := &model{tree: new(tevm.Tree), m: map[string]string{}}
		var keys [][]byte
		for i := 0; i < n; i++ {
			k := []byte(fmt.Sprintf("%04x", next()%uint32(4*n)))
			v := []byte(fmt.Sprint(next()))
			w.tree.Insert(k, v)
			w.m[string(k)] = string(v)
			keys = append(keys, k)
		}
		snap, kept := w.tree.Snapshot(), clone(w.m)
		cp := w.tree.CopyAt(snap)
		for i := 0; i < n; i++ {
			k := keys[next()%uint32(len(keys))]
			_, had := w.m[string(k)]
			if w.tree.Delete(k) != had {
				c.Fatalf("deleting %s: want %v", k, had)
			}
			delete(w.m, string(k))
			if next()%3 == 0 {
				v := []byte(fmt.Sprint(next()))
				w.tree.Insert(k, v)
				w.m[string(k)] = string(v)
			}
			w.get(c, "after deleting", keys[next()%uint32(len(keys))])
		}
		w.check(c, "many keys")
		other := &model{id: 1, tree: &cp, m: clone(kept)}
		other.check(c, "the copy")
		for i := 0; i < n/2; i++ {
			k := keys[next()%uint32(len(keys))]
			cp.Delete(k)
			delete(other.m, string(k))
		}
		w.tree.Rollback(snap)
		w.m = kept
		w.check(c, "rolled back")
		other.check(c, "the copy afterwards")
		// stopping an iteration
		stop := rapid.IntRange(1, n).Draw(c.T, "stop")
		count := 0
		w.tree.Iterate(func(k, v []byte) bool { count++; return count < stop })
		want := stop
		if len(w.m) < want {
			want = len(w.m)
		}
		if count != want {
			c.Fatalf("an iteration stopped after %d visits made %d", want, count)
		}
		c.NonTrivial(fmt.Sprint(n, seed))
		c.Sample("%d keys, %d left in the copy", n, len(other.m))
	})
}
