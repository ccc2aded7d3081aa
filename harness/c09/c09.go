// Package c09 decides C09: the path tree is a prefix-free map with consistent wildcard query/delete.
package c09

import (
	"fmt"

	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/zzverif/nd"
)

type entry struct {
	p []string
	v int
}

// matches is the reference meaning of a query: globs match one element, a query that ends above
// a leaf matches everything below it, and one trailing glob may match nothing.
func matches(q, p []string) bool {
	n := len(q)
	if n == len(p)+1 && q[n-1] == "*" {
		n--
	}
	if n > len(p) {
		return false
	}
	for i := 0; i < n; i++ {
		if q[i] != "*" && q[i] != p[i] {
			return false
		}
	}
	return true
}

func isPrefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// elem is any one- or (when long) zero- to two-byte element; glob allows "*".
func elem(name string, glob, long bool) string {
	var s string
	if long {
		s = nd.String(name, 2)
	} else {
		s = nd.StringN(name, 1)
	}
	if !glob {
		nd.Assume(s != "*")
	}
	return s
}

func path(name string, maxLen int, glob, long bool) []string {
	n := nd.Choose(name+".n", maxLen+1)
	p := make([]string, n)
	for i := range p {
		p[i] = elem(fmt.Sprintf("%s%d", name, i), glob, long)
	}
	return p
}

func samePath(a, b []string) bool { return len(a) == len(b) && isPrefix(a, b) }

// checkSet asserts that got is exactly want, each entry once. Values are distinct per entry.
func checkSet(got, want []entry, what string) {
	nd.Assert(len(got) == len(want), what+": number of leaves")
	for _, w := range want {
		n := 0
		for _, g := range got {
			if g.v == w.v {
				n++
				nd.Assert(samePath(g.p, w.p), what+": path of a leaf")
			}
		}
		nd.Assert(n == 1, what+": leaf reported exactly once")
	}
}

func collect(got *[]entry) ctree.VisitFunc {
	return func(p []string, l *ctree.Leaf, v interface{}) error {
		q := make([]string, len(p))
		copy(q, p)
		i, ok := v.(int)
		nd.Assert(ok, "visited value is the stored value")
		nd.Assert(l != nil, "visited leaf handle")
		*got = append(*got, entry{q, i})
		return nil
	}
}

// mutate performs one symbolic mutation on the tree and the model.
func mutate(t *ctree.Tree, model []entry, step, depth int, long bool) []entry {
	nm := fmt.Sprintf("s%d.", step)
	switch nd.Choose(nm+"op", 5) {
	case 0, 1: // Add: twice as likely to appear first so that names stay short
		p := path(nm+"p", depth, false, long)
		v := 100 + step
		conflict := false
		repl := -1
		for i, e := range model {
			if samePath(e.p, p) {
				repl = i
			} else if isPrefix(e.p, p) || isPrefix(p, e.p) {
				conflict = true
			}
		}
		err := t.Add(p, v)
		nd.Assert((err != nil) == conflict, "Add fails exactly when a stored path is a prefix of the new one or the other way around")
		nd.CoverIf(conflict, "add refused")
		if !conflict {
			if repl >= 0 {
				nd.Cover("add replaces")
				model[repl].v = v
			} else {
				model = append(model, entry{p, v})
			}
		}
	case 2: // Delete
		p := path(nm+"d", depth, true, long)
		got := t.Delete(p)
		var del, keep []entry
		for _, e := range model {
			if matches(p, e.p) {
				del = append(del, e)
			} else {
				keep = append(keep, e)
			}
		}
		checkPaths(got, del, "Delete")
		nd.CoverIf(len(del) > 0 && len(keep) > 0, "partial delete")
		nd.CoverIf(len(del) == 0 && len(model) > 0, "delete of nothing")
		model = keep
	case 3: // DeleteConditional
		p := path(nm+"d", depth, true, long)
		lim := 100 + nd.Choose(nm+"lim", step+1)
		got := t.DeleteConditional(p, func(v interface{}) bool { return v.(int) < lim })
		var del, keep []entry
		for _, e := range model {
			if e.v < lim && matches(p, e.p) {
				del = append(del, e)
			} else {
				keep = append(keep, e)
			}
		}
		checkPaths(got, del, "DeleteConditional")
		nd.CoverIf(len(del) > 0, "conditional delete removes")
		model = keep
	case 4: // WalkDeleted
		p := path(nm+"d", depth, true, long)
		lim := 100 + nd.Choose(nm+"lim", step+1)
		var gone []int
		t.WalkDeleted(p, func(v interface{}) bool { return v.(int) < lim }, func(v interface{}) { gone = append(gone, v.(int)) })
		var del, keep []entry
		for _, e := range model {
			if e.v < lim && matches(p, e.p) {
				del = append(del, e)
			} else {
				keep = append(keep, e)
			}
		}
		nd.Assert(len(gone) == len(del), "WalkDeleted visits every removed leaf once")
		for _, e := range del {
			n := 0
			for _, g := range gone {
				if g == e.v {
					n++
				}
			}
			nd.Assert(n == 1, "WalkDeleted visits each removed leaf exactly once")
		}
		model = keep
	}
	return model
}

func checkPaths(got [][]string, want []entry, what string) {
	nd.Assert(len(got) == len(want), what+" returns exactly the removed leaves")
	for _, w := range want {
		n := 0
		for _, g := range got {
			if samePath(g, w.p) {
				n++
			}
		}
		nd.Assert(n == 1, what+" returns every removed path once")
	}
}

func contents(t *ctree.Tree) []entry {
	var got []entry
	err := t.Walk(collect(&got))
	nd.Assert(err == nil, "Walk succeeds")
	return got
}

// HarnessOps: any sequence of adds and deletes leaves exactly the model's content, and the
// results of the operations agree with it.
//
//nd:harness prop=C09 mode=seq steps3=1 quick:k=3 thorough:k=4 quick:depth=2 thorough:depth=3 quick:time=40 thorough:time=900
func HarnessOps() {
	t := &ctree.Tree{}
	var model []entry
	k, d := nd.Param("k", 3), nd.Param("depth", 2)
	for i := 0; i < k; i++ {
		model = mutate(t, model, i, d, false)
	}
	got := contents(t)
	checkSet(got, model, "content")
	nd.Observe("n", len(got))
}

// HarnessObserve: lookups, queries and walks after a few adds report exactly the matching leaves.
//
//nd:harness prop=C09 mode=seq quick:k=3 thorough:k=4 depth=2 thorough:depth=3 quick:time=40 thorough:time=900
func HarnessObserve() {
	t := &ctree.Tree{}
	var model []entry
	k, d := nd.Param("k", 3), nd.Param("depth", 2)
	for i := 0; i < k; i++ {
		p := path(fmt.Sprintf("a%d.", i), d, false, false)
		v := 100 + i
		conflict, repl := false, -1
		for j, e := range model {
			if samePath(e.p, p) {
				repl = j
			} else if isPrefix(e.p, p) || isPrefix(p, e.p) {
				conflict = true
			}
		}
		err := t.Add(p, v)
		nd.Assert((err != nil) == conflict, "Add fails exactly on a prefix conflict")
		if conflict {
			continue
		}
		if repl >= 0 {
			model[repl].v = v
		} else {
			model = append(model, entry{p, v})
		}
	}
	q := path("q", d+1, true, false)
	switch nd.Choose("obs", 4) {
	case 0:
		var got, want []entry
		err := t.Query(q, collect(&got))
		nd.Assert(err == nil, "Query succeeds")
		for _, e := range model {
			if matches(q, e.p) {
				want = append(want, e)
			}
		}
		checkSet(got, want, "Query")
		nd.CoverIf(len(want) >= 2, "query matches two leaves")
		nd.Observe("query", len(got))
	case 1:
		for i := range q {
			nd.Assume(q[i] != "*")
		}
		v := t.GetLeafValue(q)
		l := t.GetLeaf(q)
		g := t.Get(q)
		found := false
		branch := len(q) == 0
		for _, e := range model {
			if samePath(q, e.p) {
				found = true
				nd.Assert(v == e.v, "GetLeafValue returns the stored value")
				nd.Assert(l.Value() == e.v, "GetLeaf returns the stored value")
				nd.Assert(g.Value() == e.v && !g.IsBranch() && g.Children() == nil, "Get returns the leaf")
			} else if isPrefix(q, e.p) {
				branch = true
				nd.Assert(g != nil && g.IsBranch(), "Get returns the branch")
				nd.Assert(g.Value() == nil, "a branch has no value")
				c := g.Children()
				nd.Assert(c[e.p[len(q)]] != nil, "Children holds the next element of every path below")
			}
		}
		if !found {
			nd.Assert(v == nil, "GetLeafValue of an absent path is nil")
			if !branch {
				nd.Assert(g == nil && l == nil, "Get of an absent path is nil")
			}
		}
		nd.CoverIf(found, "lookup finds")
		nd.CoverIf(!found && branch && len(q) > 0, "lookup of a branch")
	case 2:
		// Walk and early termination
		got := contents(t)
		checkSet(got, model, "Walk")
		stop := fmt.Errorf("stop")
		n := 0
		err := t.Walk(func([]string, *ctree.Leaf, interface{}) error { n++; return stop })
		nd.Assert((err == stop) == (len(model) > 0), "Walk returns the callback's error")
		nd.Assert(len(model) == 0 || n == 1, "Walk stops at the first error")
		n = 0
		err = t.Query(q, func([]string, *ctree.Leaf, interface{}) error { n++; return stop })
		nd.Assert((err == stop) == (n == 1) && n <= 1, "Query stops at the first error")
	case 3:
		// a retained handle keeps reporting and setting the leaf's value
		if len(model) > 0 {
			i := nd.Choose("handle", len(model))
			l := t.GetLeaf(model[i].p)
			nd.Assert(l != nil, "handle of a stored leaf")
			l.Update(999)
			model[i].v = 999
			nd.Assert(l.Value() == 999, "handle reads back")
		}
		checkSet(contents(t), model, "content after a handle update")
	}
}

// HarnessSorted: a sorted walk reports every leaf once in lexicographic order of the elements.
//
//nd:harness prop=C09 mode=seq quick:k=3 thorough:k=4 depth=2 quick:time=40 thorough:time=600
func HarnessSorted() {
	t := &ctree.Tree{}
	var model []entry
	k, d := nd.Param("k", 3), nd.Param("depth", 2)
	for i := 0; i < k; i++ {
		n := 1 + nd.Choose(fmt.Sprintf("a%d.n", i), d)
		p := make([]string, n)
		for j := range p {
			p[j] = nd.String(fmt.Sprintf("a%d.%d", i, j), 2-j)
		}
		for _, e := range model {
			nd.Assume(!isPrefix(e.p, p) && !isPrefix(p, e.p))
		}
		nd.Assert(t.Add(p, 100+i) == nil, "Add of an unrelated path succeeds")
		model = append(model, entry{p, 100 + i})
	}
	var got []entry
	nd.Assert(t.WalkSorted(collect(&got)) == nil, "WalkSorted succeeds")
	checkSet(got, model, "WalkSorted")
	for i := 1; i < len(got); i++ {
		nd.Assert(less(got[i-1].p, got[i].p), "WalkSorted order")
	}
	nd.Observe("first", got[0].v)
}

func less(a, b []string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// HarnessPrune: after a delete, everything that does not conflict with what is left can be added.
//
//nd:harness prop=C09 mode=seq quick:depth=2 thorough:depth=3 quick:time=40 thorough:time=600
func HarnessPrune() {
	t := &ctree.Tree{}
	d := nd.Param("depth", 2)
	var model []entry
	for i := 0; i < 2; i++ {
		p := path(fmt.Sprintf("a%d.", i), d, false, false)
		if t.Add(p, 100+i) == nil {
			for j := range model {
				nd.Assume(!samePath(model[j].p, p))
			}
			model = append(model, entry{p, 100 + i})
		}
	}
	q := path("q", d+1, true, false)
	t.Delete(q)
	var left []entry
	for _, e := range model {
		if !matches(q, e.p) {
			left = append(left, e)
		}
	}
	p := path("b", d, false, false)
	conflict := false
	for _, e := range left {
		if !samePath(e.p, p) && (isPrefix(e.p, p) || isPrefix(p, e.p)) {
			conflict = true
		}
	}
	err := t.Add(p, 200)
	nd.Assert((err != nil) == conflict, "after a delete an add succeeds unless it conflicts with a remaining leaf")
	if len(left) == 0 {
		nd.Cover("everything deleted")
	}
}

// HarnessKeep: the paths handed out by walks and deletes stay what they were, however deep the siblings are.
//
//nd:harness prop=C09 mode=seq quick:time=40 thorough:time=600
func HarnessKeep() {
	t := &ctree.Tree{}
	pre := []string{"a", "b", "c", "d", "e"}[:nd.Choose("pre", 6)]
	var model []entry
	for i := 0; i < 3; i++ {
		p := append(append([]string{}, pre...), nd.StringN(fmt.Sprintf("e%d", i), 1))
		if nd.Bool(fmt.Sprintf("deep%d", i)) {
			p = append(p, "x", "y")
		}
		nd.Assume(p[len(pre)] != "*")
		if t.Add(p, 100+i) == nil {
			old := false
			for j := range model {
				if samePath(model[j].p, p) {
					model[j].v, old = 100+i, true
				}
			}
			if !old {
				model = append(model, entry{p, 100 + i})
			}
		}
	}
	var paths [][]string
	keep := func(p []string, _ *ctree.Leaf, _ interface{}) error { paths = append(paths, p); return nil }
	switch nd.Choose("op", 4) {
	case 0:
		t.Walk(keep)
	case 1:
		t.WalkSorted(keep)
	case 2:
		paths = t.Delete(pre[:nd.Choose("at", len(pre)+1)])
	case 3:
		paths = t.DeleteConditional([]string{"*"}, func(interface{}) bool { return true })
	}
	checkPaths(paths, model, "the operation")
	nd.CoverIf(len(model) == 3, "three leaves")
}
