// Package c10 decides C10: the path tree is safe and per-path atomic under concurrent use.
package c10

import (
	"fmt"
	"sync"

	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/zzverif/nd"
)

type kind int

const (
	kAdd kind = iota
	kGet
	kDel
	kQuery
	kWalk
	kUpd
	kCond
)

type op struct {
	kind kind
	path []string
	val  int
	// results
	failed bool
	got    int
	gotOK  bool
	paths  [][]string
	seen   []leaf
}

type leaf struct {
	path string
	val  int
}

func key(p []string) string {
	s := ""
	for _, e := range p {
		s += "/" + e
	}
	return s
}

func isPrefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && a[i] != "*" {
			return false
		}
	}
	return true
}

type mleaf struct {
	p []string
	v int
	// id of the leaf object: a handle keeps referring to it
	id int
}

type model struct {
	l []mleaf
	n int
}

func (m *model) clone() *model {
	c := &model{n: m.n}
	c.l = append(c.l, m.l...)
	return c
}

func (m *model) find(p []string) int {
	for i := range m.l {
		if key(m.l[i].p) == key(p) {
			return i
		}
	}
	return -1
}

// apply runs o on the model and reports whether its recorded results agree.
func (m *model) apply(o *op, h *handles) bool {
	switch o.kind {
	case kAdd:
		if i := m.find(o.path); i >= 0 {
			m.l[i].v = o.val
			return !o.failed
		}
		for _, e := range m.l {
			if isPrefix(e.p, o.path) || isPrefix(o.path, e.p) {
				return o.failed
			}
		}
		m.n++
		m.l = append(m.l, mleaf{o.path, o.val, m.n})
		return !o.failed
	case kGet:
		if i := m.find(o.path); i >= 0 {
			return nd.And(o.gotOK, o.got == m.l[i].v)
		}
		return !o.gotOK
	case kDel, kCond:
		// the removed set is concrete on the path; that it is the right one is a condition on values
		var keep []mleaf
		n, cond := 0, true
		for _, e := range m.l {
			ok := false
			for _, p := range o.paths {
				if key(p) == key(e.p) {
					ok = true
				}
			}
			must := isPrefix(o.path, e.p)
			if o.kind == kCond {
				must = nd.And(must, e.v < o.val)
			}
			cond = nd.And(cond, must == ok)
			if ok {
				n++
			} else {
				keep = append(keep, e)
			}
		}
		m.l = keep
		return nd.And(cond, n == len(o.paths))
	case kUpd: // through a handle taken before the concurrent phase
		for i := range m.l {
			if m.l[i].id == 1 {
				m.l[i].v = o.val
			}
		}
		return true
	}
	return true
}

type handles struct{}

// ordered is the condition on the values under which some interleaving of the programs explains
// all results and the final content.
func ordered(m *model, progs [][]*op, pos []int, final map[string]int) bool {
	done := true
	res := false
	for g := range progs {
		if pos[g] < len(progs[g]) {
			done = false
			o := progs[g][pos[g]]
			c := m.clone()
			ok := c.apply(o, nil)
			if isFalse(ok) {
				continue
			}
			pos[g]++
			res = nd.Or(res, nd.And(ok, ordered(c, progs, pos, final)))
			pos[g]--
		}
	}
	if !done {
		return res
	}
	if len(final) != len(m.l) {
		return false
	}
	eq := true
	for _, e := range m.l {
		v, ok := final[key(e.p)]
		if !ok {
			return false
		}
		eq = nd.And(eq, v == e.v)
	}
	return eq
}

// isFalse is true for a constant false only (a symbolic condition is kept).
func isFalse(b bool) bool { return nd.IsConst(b) && !b }

var paths = [][]string{{"a", "b"}, {"a", "c"}, {"a"}, {"d", "e"}, {"a", "b", "f"}, {"*"}, {"*", "b"}, {}}

func run(t *ctree.Tree, o *op, h *ctree.Leaf) {
	switch o.kind {
	case kAdd:
		o.failed = t.Add(o.path, o.val) != nil
	case kGet:
		o.got, o.gotOK = t.GetLeafValue(o.path).(int)
	case kDel:
		o.paths = t.Delete(o.path)
	case kCond:
		o.paths = t.DeleteConditional(o.path, func(v interface{}) bool { return v.(int) < o.val })
	case kQuery:
		t.Query(o.path, func(p []string, l *ctree.Leaf, v interface{}) error {
			o.seen = append(o.seen, leaf{key(p), v.(int)})
			return nil
		})
	case kWalk:
		t.Walk(func(p []string, l *ctree.Leaf, v interface{}) error {
			o.seen = append(o.seen, leaf{key(p), v.(int)})
			return nil
		})
	case kUpd:
		h.Update(o.val)
	}
}

func pick(name string, g, i int, npaths int) *op {
	k := kind(nd.Choose(name+".op", 7))
	o := &op{kind: k, val: nd.Int(name + ".v")}
	switch k {
	case kAdd, kGet:
		o.path = paths[nd.Choose(name+".p", npaths)]
	case kDel:
		o.path = paths[[]int{0, 2, 5, 6, 7}[nd.Choose(name+".d", 5)]]
	case kCond:
		o.path = paths[[]int{0, 2, 5}[nd.Choose(name+".d", 3)]]
	case kQuery:
		o.path = paths[[]int{2, 5, 6}[nd.Choose(name+".q", 3)]]
	}
	return o
}

func exec(progs [][]*op, initial int) {
	t := &ctree.Tree{}
	m := &model{}
	var h *ctree.Leaf = ctree.DetachedLeaf(0)
	if initial > 0 {
		a := &op{kind: kAdd, path: paths[0], val: nd.Int("init1")}
		run(t, a, nil)
		m.apply(a, nil)
		h = t.GetLeaf(paths[0])
	}
	if initial > 1 {
		a := &op{kind: kAdd, path: paths[3], val: nd.Int("init2")}
		run(t, a, nil)
		m.apply(a, nil)
	}
	if initial == 0 {
		m.n = 10
	}
	var wg sync.WaitGroup
	wg.Add(len(progs))
	nd.Explore(true)
	for g := range progs {
		go func(pr []*op) {
			defer wg.Done()
			for _, o := range pr {
				run(t, o, h)
			}
		}(progs[g])
	}
	wg.Wait()
	nd.Explore(false)
	final := map[string]int{}
	n := 0
	t.Walk(func(p []string, l *ctree.Leaf, v interface{}) error {
		final[key(p)] = v.(int)
		n++
		return nil
	})
	nd.Assert(n == len(final), "every leaf is stored once")
	nd.Assert(ordered(m, progs, make([]int, len(progs)), final), "results and final content are explained by a sequential ordering consistent with every goroutine's program order")
	// queries and walks
	for g := range progs {
		for i, o := range progs[g] {
			if o.kind != kQuery && o.kind != kWalk {
				continue
			}
			checkQuery(m, progs, g, i, o)
		}
	}
}

func covers(o *op, p []string) bool {
	switch o.kind {
	case kDel, kCond:
		return isPrefix(o.path, p)
	}
	return false
}

func checkQuery(m *model, progs [][]*op, g, i int, o *op) {
	match := func(p []string) bool {
		return o.kind == kWalk || isPrefix(o.path, p) || len(o.path) == 2 && len(p) == 1 && false
	}
	dup := map[string]bool{}
	for _, s := range o.seen {
		nd.Assert(!dup[s.path], "a query reports a leaf once")
		dup[s.path] = true
		// present at some point of the query: initially, or added or updated by an operation that does
		// not come after the query in its own goroutine
		src := false
		for _, e := range m.l {
			if key(e.p) == s.path && !deletedBefore(progs[g][:i], e.p) {
				src = nd.Or(src, e.v == s.val)
			}
			if key(e.p) == s.path && e.id == 1 {
				for h := range progs {
					for j, w := range progs[h] {
						if w.kind == kUpd && !(h == g && j > i) {
							src = nd.Or(src, w.val == s.val)
						}
					}
				}
			}
		}
		for h := range progs {
			for j, w := range progs[h] {
				if w.kind == kAdd && !w.failed && key(w.path) == s.path && !(h == g && j > i) {
					if h != g || !deletedBefore(progs[g][j+1:i], w.path) {
						src = nd.Or(src, w.val == s.val)
					}
				}
			}
		}
		nd.Assert(src, "a query reports nothing that was absent for its whole duration")
	}
	// leaves stored before the query started (initially or by this goroutine) that nothing removes
	must := func(p []string) {
		for h := range progs {
			for _, w := range progs[h] {
				if covers(w, p) {
					return
				}
			}
		}
		if match(p) {
			nd.Cover("query must report a leaf")
			nd.Assert(dup[key(p)], "a query reports every leaf that was present for its whole duration")
		}
	}
	for _, e := range m.l {
		must(e.p)
	}
	for j := 0; j < i; j++ {
		if w := progs[g][j]; w.kind == kAdd && !w.failed {
			must(w.path)
		}
	}
}

func deletedBefore(ops []*op, p []string) bool {
	for _, o := range ops {
		if o.kind == kDel && isPrefix(o.path, p) {
			return true
		}
	}
	return false
}

// HarnessPair: two goroutines, one operation against a program of k operations.
//
//nd:harness prop=C10 mode=dpor race=1 quick:k=1 thorough:k=2 quick:time=60 thorough:time=1200
func HarnessPair() {
	k := nd.Param("k", 1)
	init := nd.Choose("init", 3)
	var progs [][]*op
	progs = append(progs, []*op{pick("a", 0, 0, 5)})
	var b []*op
	for i := 0; i < k; i++ {
		b = append(b, pick(fmt.Sprintf("b%d", i), 1, i, 5))
	}
	progs = append(progs, b)
	exec(progs, init)
}

// HarnessAdds: three goroutines add, look up or delete beneath a branch that may not exist yet.
//
//nd:harness prop=C10 mode=dpor race=1 quick:time=60 thorough:time=1200 quick:ops=3 thorough:ops=6
func HarnessAdds() {
	n := nd.Param("ops", 3)
	init := nd.Choose("init", 2)
	var progs [][]*op
	for g := 0; g < 3; g++ {
		nm := fmt.Sprintf("g%d", g)
		o := &op{val: nd.Int(nm + ".v")}
		switch nd.Choose(nm+".op", n) {
		case 0:
			o.kind, o.path = kAdd, paths[nd.Choose(nm+".p", 3)]
		case 1:
			o.kind, o.path = kDel, paths[[]int{2, 5}[nd.Choose(nm+".d", 2)]]
		case 2:
			o.kind, o.path = kQuery, paths[5]
		case 3:
			o.kind, o.path = kGet, paths[0]
		case 4:
			o.kind = kUpd
		case 5:
			o.kind, o.path = kCond, paths[5]
		}
		progs = append(progs, []*op{o})
	}
	exec(progs, init)
}

// HarnessSeq2: two goroutines with two operations each on one branch.
//
//nd:harness prop=C10 mode=dpor race=1 quick:time=60 thorough:time=1800 quick:np=2 thorough:np=3
func HarnessSeq2() {
	np := nd.Param("np", 2)
	init := nd.Choose("init", 2)
	var progs [][]*op
	for g := 0; g < 2; g++ {
		var pr []*op
		for i := 0; i < 2; i++ {
			nm := fmt.Sprintf("g%d.%d", g, i)
			o := &op{val: nd.Int(nm + ".v")}
			switch nd.Choose(nm+".op", 3) {
			case 0:
				o.kind, o.path = kAdd, paths[nd.Choose(nm+".p", np)]
			case 1:
				o.kind, o.path = kDel, paths[2]
			case 2:
				o.kind, o.path = kGet, paths[0]
			}
			pr = append(pr, o)
		}
		progs = append(progs, pr)
	}
	exec(progs, init)
}
