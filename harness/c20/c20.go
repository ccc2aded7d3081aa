// Package c20 decides C20: the synthetic target emits an ordered, bounded, reproducible update stream.
package c20

import (
	"fmt"
	"math"

	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/testing/fake/queue"
	"github.com/openconfig/gnmi/zzverif/nd"

	fpb "github.com/openconfig/gnmi/testing/fake/proto"
)

// stamp is any timestamp configuration.
func stamp(name string) *fpb.Timestamp {
	return &fpb.Timestamp{Timestamp: nd.Int64(name + ".ts"), DeltaMin: nd.Int64(name + ".dmin"), DeltaMax: nd.Int64(name + ".dmax")}
}

const small = int64(1) << 40

// goodStamp holds for valid timestamp configurations whose timestamps cannot overflow.
func goodStamp(t *fpb.Timestamp) bool {
	return nd.And(nd.And(t.Timestamp >= 0, t.Timestamp < small), nd.And(t.DeltaMin >= 0, nd.And(t.DeltaMin <= t.DeltaMax, t.DeltaMax < small)))
}

// value kinds
const (
	kInt = iota
	kIntList
	kUint
	kUintList
	kDouble
	kDoubleList
	kString
	kStringList
	kStringListValue
	kBool
	kBoolList
	kDelete
	kConst
	kinds
)

func ints(name string, n int) (l []int64) {
	for i := 0; i < n; i++ {
		l = append(l, nd.Int64(fmt.Sprintf("%s%d", name, i)))
	}
	return
}

// value is any value of kind k.
func value(name string, k int, opts int) *fpb.Value {
	v := &fpb.Value{Path: []string{name}}
	random := false
	if k == kIntList || k == kUintList || k == kDoubleList || k == kStringList || k == kStringListValue || k == kBoolList {
		random = nd.Bool(name + ".random")
	}
	var strs []string
	if k == kStringList || k == kStringListValue {
		for i := 0; i < opts; i++ {
			strs = append(strs, fmt.Sprint("o", i))
		}
	}
	switch k {
	case kInt:
		v.Value = &fpb.Value_IntValue{&fpb.IntValue{Value: nd.Int64(name + ".v"), Distribution: &fpb.IntValue_Range{&fpb.IntRange{
			Minimum: nd.Int64(name + ".min"), Maximum: nd.Int64(name + ".max"), DeltaMin: nd.Int64(name + ".vdmin"), DeltaMax: nd.Int64(name + ".vdmax")}}}}
	case kIntList:
		v.Value = &fpb.Value_IntValue{&fpb.IntValue{Value: nd.Int64(name + ".v"), Distribution: &fpb.IntValue_List{&fpb.IntList{Options: ints(name+".opt", opts), Random: random}}}}
	case kUint:
		v.Value = &fpb.Value_UintValue{&fpb.UintValue{Value: nd.Uint64(name + ".v"), Distribution: &fpb.UintValue_Range{&fpb.UintRange{
			Minimum: nd.Uint64(name + ".min"), Maximum: nd.Uint64(name + ".max"), DeltaMin: nd.Int64(name + ".vdmin"), DeltaMax: nd.Int64(name + ".vdmax")}}}}
	case kUintList:
		var l []uint64
		for i := 0; i < opts; i++ {
			l = append(l, nd.Uint64(fmt.Sprintf("%s.opt%d", name, i)))
		}
		v.Value = &fpb.Value_UintValue{&fpb.UintValue{Value: nd.Uint64(name + ".v"), Distribution: &fpb.UintValue_List{&fpb.UintList{Options: l, Random: random}}}}
	case kDouble:
		v.Value = &fpb.Value_DoubleValue{&fpb.DoubleValue{Value: nd.Float64(name + ".v"), Distribution: &fpb.DoubleValue_Range{&fpb.DoubleRange{
			Minimum: nd.Float64(name + ".min"), Maximum: nd.Float64(name + ".max"), DeltaMin: nd.Float64(name + ".vdmin"), DeltaMax: nd.Float64(name + ".vdmax")}}}}
	case kDoubleList:
		var l []float64
		for i := 0; i < opts; i++ {
			l = append(l, nd.Float64(fmt.Sprintf("%s.opt%d", name, i)))
		}
		v.Value = &fpb.Value_DoubleValue{&fpb.DoubleValue{Value: nd.Float64(name + ".v"), Distribution: &fpb.DoubleValue_List{&fpb.DoubleList{Options: l, Random: random}}}}
	case kString:
		v.Value = &fpb.Value_StringValue{&fpb.StringValue{Value: "o9"}}
	case kStringList:
		v.Value = &fpb.Value_StringValue{&fpb.StringValue{Value: "o9", Distribution: &fpb.StringValue_List{&fpb.StringList{Options: strs, Random: random}}}}
	case kStringListValue:
		v.Value = &fpb.Value_StringListValue{&fpb.StringListValue{Value: []string{"o9"}, Distribution: &fpb.StringListValue_List{&fpb.StringList{Options: strs, Random: random}}}}
	case kBool:
		v.Value = &fpb.Value_BoolValue{&fpb.BoolValue{Value: nd.Bool(name + ".v")}}
	case kBoolList:
		var l []bool
		for i := 0; i < opts; i++ {
			l = append(l, nd.Bool(fmt.Sprintf("%s.opt%d", name, i)))
		}
		v.Value = &fpb.Value_BoolValue{&fpb.BoolValue{Value: nd.Bool(name + ".v"), Distribution: &fpb.BoolValue_List{&fpb.BoolList{Options: l, Random: random}}}}
	case kDelete:
		v.Value = &fpb.Value_Delete{&fpb.DeleteValue{}}
	case kConst:
		v.Value = &fpb.Value_IntValue{&fpb.IntValue{Value: nd.Int64(name + ".v")}}
	}
	return v
}

// goodValue holds for valid value configurations.
func goodValue(v *fpb.Value) bool {
	switch x := v.Value.(type) {
	case *fpb.Value_IntValue:
		if r := x.IntValue.GetRange(); r != nil {
			ok := nd.And(r.Minimum <= x.IntValue.Value, x.IntValue.Value <= r.Maximum)
			return nd.And(ok, nd.Or(nd.And(r.DeltaMin == 0, r.DeltaMax == 0), r.DeltaMin <= r.DeltaMax))
		}
		if l := x.IntValue.GetList(); l != nil {
			return len(l.Options) > 0
		}
	case *fpb.Value_UintValue:
		if r := x.UintValue.GetRange(); r != nil {
			ok := nd.And(r.Minimum <= x.UintValue.Value, x.UintValue.Value <= r.Maximum)
			return nd.And(ok, nd.Or(nd.And(r.DeltaMin == 0, r.DeltaMax == 0), r.DeltaMin <= r.DeltaMax))
		}
		if l := x.UintValue.GetList(); l != nil {
			return len(l.Options) > 0
		}
	case *fpb.Value_DoubleValue:
		if r := x.DoubleValue.GetRange(); r != nil {
			ok := nd.And(r.Minimum <= x.DoubleValue.Value, x.DoubleValue.Value <= r.Maximum)
			return nd.And(ok, nd.Or(nd.And(r.DeltaMin == 0, r.DeltaMax == 0), r.DeltaMin <= r.DeltaMax))
		}
		if l := x.DoubleValue.GetList(); l != nil {
			return len(l.Options) > 0
		}
	case *fpb.Value_StringValue:
		if l := x.StringValue.GetList(); l != nil {
			return len(l.Options) > 0
		}
	case *fpb.Value_StringListValue:
		if l := x.StringListValue.GetList(); l != nil {
			return len(l.Options) > 0
		}
	case *fpb.Value_BoolValue:
		if l := x.BoolValue.GetList(); l != nil {
			return len(l.Options) > 0
		}
	}
	return true
}

// checkValue compares a generated value (not the first emission) with the configuration.
func checkValue(cfg, e *fpb.Value, nth int) {
	in := func(n int, eq func(i int) bool, random bool, what string) {
		ok := false
		for i := 0; i < n; i++ {
			ok = nd.Or(ok, eq(i))
		}
		nd.Assert(ok, "a generated value is one of the options: "+what)
		if !random {
			nd.Assert(eq((nth-1)%n), "the options are cycled in order: "+what)
		}
	}
	switch c := cfg.Value.(type) {
	case *fpb.Value_IntValue:
		x := e.GetIntValue().GetValue()
		if r := c.IntValue.GetRange(); r != nil {
			nd.Assert(nd.And(r.Minimum <= x, x <= r.Maximum), "a generated int is within its range")
		} else if l := c.IntValue.GetList(); l != nil {
			in(len(l.Options), func(i int) bool { return l.Options[i] == x }, l.Random, "int")
		} else {
			nd.Assert(x == c.IntValue.Value, "a constant stays: int")
		}
	case *fpb.Value_UintValue:
		x := e.GetUintValue().GetValue()
		if r := c.UintValue.GetRange(); r != nil {
			nd.Assert(nd.And(r.Minimum <= x, x <= r.Maximum), "a generated uint is within its range")
		} else if l := c.UintValue.GetList(); l != nil {
			in(len(l.Options), func(i int) bool { return l.Options[i] == x }, l.Random, "uint")
		}
	case *fpb.Value_DoubleValue:
		x := e.GetDoubleValue().GetValue()
		if r := c.DoubleValue.GetRange(); r != nil {
			nd.Assert(nd.And(r.Minimum <= x, x <= r.Maximum), "a generated double is within its range")
		} else if l := c.DoubleValue.GetList(); l != nil {
			in(len(l.Options), func(i int) bool { return math.Float64bits(l.Options[i]) == math.Float64bits(x) }, l.Random, "double")
		}
	case *fpb.Value_StringValue:
		x := e.GetStringValue().GetValue()
		if l := c.StringValue.GetList(); l != nil {
			in(len(l.Options), func(i int) bool { return l.Options[i] == x }, l.Random, "string")
		} else {
			nd.Assert(x == c.StringValue.Value, "a constant stays: string")
		}
	case *fpb.Value_StringListValue:
		x := e.GetStringListValue().GetValue()
		l := c.StringListValue.GetList()
		nd.Assert(len(x) <= len(l.Options), "a generated list is drawn from the options")
		for _, s := range x {
			ok := false
			for _, o := range l.Options {
				ok = nd.Or(ok, s == o)
			}
			nd.Assert(ok, "every element of a generated list is one of the options")
		}
	case *fpb.Value_BoolValue:
		x := e.GetBoolValue().GetValue()
		if l := c.BoolValue.GetList(); l != nil {
			in(len(l.Options), func(i int) bool { return l.Options[i] == x }, l.Random, "bool")
		} else {
			nd.Assert(x == c.BoolValue.Value, "a constant stays: bool")
		}
	case *fpb.Value_Delete:
		nd.Assert(e.GetDelete() != nil, "a delete stays a delete")
	}
}

// run takes up to n updates out of q and checks them against the configuration. It returns whether the queue
// was exhausted.
func run(q queue.Queue, cfg []*fpb.Value, n int) (out []*fpb.Value, drained bool) {
	last := map[string]*fpb.Value{}
	count := map[string]int{}
	byName := map[string]*fpb.Value{}
	for _, c := range cfg {
		byName[c.Path[0]] = c
	}
	var prev *fpb.Value
	for i := 0; i < n; i++ {
		x, err := q.Next()
		nd.Assert(err == nil, "a valid configuration generates without error")
		if x == nil {
			drained = true
			break
		}
		e := x.(*fpb.Value)
		c := byName[e.Path[0]]
		nd.Assert(c != nil, "only configured values are emitted")
		name := e.Path[0]
		ts := e.GetTimestamp().GetTimestamp()
		if prev != nil {
			nd.Assert(ts >= prev.GetTimestamp().GetTimestamp(), "updates are emitted in non-decreasing timestamp order")
		}
		if l := last[name]; l == nil {
			nd.Assert(ts == c.GetTimestamp().GetTimestamp(), "the first emission has the configured timestamp")
			nd.Assert(sameVal(e, c), "the first emission has the configured value")
		} else {
			d := ts - l.GetTimestamp().GetTimestamp()
			nd.Assert(nd.And(d >= c.GetTimestamp().GetDeltaMin(), d <= c.GetTimestamp().GetDeltaMax()), "every timestamp step is within its delta bounds")
			checkValue(c, e, count[name])
		}
		count[name]++
		if c.Repeat > 0 {
			nd.Assert(count[name] <= int(c.Repeat), "a value is not emitted more often than its repeat count")
		}
		last[name] = e
		prev = e
		out = append(out, e)
	}
	for _, c := range cfg {
		if drained {
			nd.Assert(c.Repeat > 0, "an unbounded value is repeated indefinitely")
			nd.Assert(count[c.Path[0]] == int(c.Repeat), "a value is emitted as often as its repeat count")
		}
	}
	return out, drained
}

func sameVal(a, b *fpb.Value) bool {
	x, y := &fpb.Value{Value: a.Value}, &fpb.Value{Value: b.Value}
	return proto.Equal(x, y)
}

func total(cfg []*fpb.Value) int {
	n := 0
	for _, c := range cfg {
		if c.Repeat <= 0 {
			return -1
		}
		n += int(c.Repeat)
	}
	return n
}

func clone(cfg []*fpb.Value) (l []*fpb.Value) {
	for _, c := range cfg {
		l = append(l, proto.Clone(c).(*fpb.Value))
	}
	return
}

// two runs the generator twice with the same seed.
func two(cfg []*fpb.Value, n int) {
	orig := clone(cfg)
	bounded := total(cfg)
	o1, d1 := run(queue.New(false, 3, cfg), orig, n)
	o2, d2 := run(queue.New(false, 3, cfg), orig, n)
	nd.Assert(d1 == d2 && len(o1) == len(o2), "the same seed generates the same number of updates")
	for i := range o1 {
		nd.Assert(proto.Equal(o1[i], o2[i]), "the same seed generates the same updates")
	}
	if bounded >= 0 && bounded < n {
		nd.Assert(d1, "a bounded configuration ends")
		nd.Cover("a bounded configuration ends")
	}
}

// HarnessRanges: one value with any valid integer range. One step starts at an arbitrary state of the generator: the
// state is the configuration.
//
//nd:harness prop=C20 native=0 quick:time=100 thorough:time=1200 maxpaths=3000000
func HarnessRanges() { ranges(false) }

// HarnessRangesWide: the ranges that span more than half of the value space.
//
//nd:harness prop=C20 native=0 time=20 maxpaths=3000000
func HarnessRangesWide() { ranges(true) }

// wide reports whether the number of values or deltas of an integer range does not fit an int64.
func wide(v *fpb.Value) bool {
	var l, r, dl, dr int64
	switch x := v.Value.(type) {
	case *fpb.Value_IntValue:
		g := x.IntValue.GetRange()
		l, r, dl, dr = g.Minimum, g.Maximum, g.DeltaMin, g.DeltaMax
	case *fpb.Value_UintValue:
		g := x.UintValue.GetRange()
		l, r, dl, dr = int64(g.Minimum), int64(g.Maximum), g.DeltaMin, g.DeltaMax
	}
	return nd.Or(nd.And(nd.And(dl == 0, dr == 0), r-l+1 <= 0), nd.And(nd.Or(dl != 0, dr != 0), dr-dl+1 <= 0))
}

func ranges(w bool) {
	v := value("a", []int{kInt, kUint}[nd.Choose("kind", 2)], 0)
	v.Timestamp = &fpb.Timestamp{Timestamp: 5, DeltaMin: 1, DeltaMax: 1}
	nd.Assume(goodValue(v))
	nd.Assume(wide(v) == w)
	run(queue.New(false, 3, []*fpb.Value{v}), clone([]*fpb.Value{v}), 2)
}

// HarnessStamps: one value with any valid timestamp configuration, twice with the same seed.
//
//nd:harness prop=C20 native=0 quick:steps_=3 quick:time=100 thorough:steps_=5 thorough:time=1200 maxpaths=3000000
func HarnessStamps() {
	v := value("a", kConst, 0)
	v.Timestamp = stamp("a")
	v.Repeat = int32(nd.Choose("repeat", 3))
	nd.Assume(goodStamp(v.Timestamp))
	two([]*fpb.Value{v}, nd.Param("steps_", 3))
}

// HarnessSame: the same seed generates the same updates, for any configuration of one value.
//
//nd:harness prop=C20 native=0 quick:steps_=3 quick:time=100 thorough:steps_=4 thorough:time=1200 maxpaths=3000000
func HarnessSame() {
	k := nd.Choose("kind", kinds)
	v := value("a", k, 2)
	switch x := v.Value.(type) {
	case *fpb.Value_IntValue:
		if k == kInt {
			*x.IntValue.GetRange() = fpb.IntRange{Minimum: 3, Maximum: 90, DeltaMin: int64(nd.Choose("d", 2)), DeltaMax: 4}
			x.IntValue.Value = 50
		}
	case *fpb.Value_UintValue:
		if k == kUint {
			*x.UintValue.GetRange() = fpb.UintRange{Minimum: 3, Maximum: 90, DeltaMin: -int64(nd.Choose("d", 2)), DeltaMax: 4}
			x.UintValue.Value = 50
		}
	case *fpb.Value_DoubleValue:
		if k == kDouble {
			*x.DoubleValue.GetRange() = fpb.DoubleRange{Minimum: 3, Maximum: 90}
			x.DoubleValue.Value = 50
		}
	}
	v.Timestamp = &fpb.Timestamp{Timestamp: 5, DeltaMin: 1, DeltaMax: 3}
	if nd.Bool("own seed") {
		v.Seed = 7
	}
	cfg := []*fpb.Value{v}
	q1, q2 := queue.New(false, 3, cfg), queue.New(false, 3, clone(cfg))
	n := nd.Param("steps_", 3)
	for i := 0; i < n; i++ {
		e1, err1 := q1.Next()
		e2, err2 := q2.Next()
		nd.Assert(err1 == nil && err2 == nil, "a valid configuration generates without error")
		nd.Assert(proto.Equal(e1.(*fpb.Value), e2.(*fpb.Value)), "the same seed generates the same updates")
	}
}

// HarnessLists: one value of every kind without a range.
//
//nd:harness prop=C20 native=0 quick:steps_=4 quick:opts=3 quick:time=100 thorough:steps_=5 thorough:opts=4 thorough:time=1200 maxpaths=3000000
func HarnessLists() {
	k := nd.Choose("kind", kinds)
	nd.Assume(k != kDouble && k != kInt && k != kUint)
	opts := 1 + nd.Choose("opts", nd.Param("opts", 3))
	nd.Assume(k != kStringListValue || opts < 3)
	v := value("a", k, opts)
	v.Timestamp = &fpb.Timestamp{Timestamp: 4, DeltaMin: 3, DeltaMax: 3}
	nd.Assume(goodValue(v))
	run(queue.New(false, 3, []*fpb.Value{v}), clone([]*fpb.Value{v}), nd.Param("steps_", 4))
}

// HarnessRepeat: one value with any repeat count and any delta.
//
//nd:harness prop=C20 native=0 quick:steps_=6 quick:time=60 thorough:steps_=9 thorough:time=600
func HarnessRepeat() {
	v := value("a", kConst, 0)
	v.Repeat = nd.Int32("repeat")
	v.Timestamp = stamp("a")
	nd.Assume(nd.And(goodStamp(v.Timestamp), v.Timestamp.DeltaMin == v.Timestamp.DeltaMax))
	cfg := []*fpb.Value{v}
	n := nd.Param("steps_", 6)
	_, drained := run(queue.New(false, 3, cfg), clone(cfg), n)
	if drained {
		nd.Cover("ends")
	} else {
		nd.Assert(nd.Or(v.Repeat >= int32(n), v.Repeat <= 0), "a bounded value ends")
		nd.Cover("does not end")
	}
}

// HarnessDouble: one double value with any finite range and boundary draws, or boundary ranges and any draw.
//
//nd:harness prop=C20 native=0 querytimeout=30000 quick:fracs=1 thorough:fracs=3 quick:time=60 thorough:time=1200
func HarnessDouble() { double(false) }

// HarnessDoubleWide: the ranges that are wider than the largest double.
//
//nd:harness prop=C20 native=0 querytimeout=30000 fracs=1 time=20
func HarnessDoubleWide() { double(true) }

func double(w bool) {
	v := value("a", kDouble, 0)
	v.Timestamp = &fpb.Timestamp{Timestamp: 5, DeltaMin: 1, DeltaMax: 1}
	lim := func(f float64) bool { return nd.And(f >= -math.MaxFloat64, f <= math.MaxFloat64) }
	r := v.GetDoubleValue().GetRange()
	fractions = nil
	if nd.Bool("any range") {
		fractions = []float64{0.5, 0, 1 - 1.0/(1<<53)}[:nd.Param("fracs", 2)]
		nd.Assume(nd.And(nd.And(lim(r.Minimum), lim(r.Maximum)), nd.And(lim(r.DeltaMin), lim(r.DeltaMax))))
	} else {
		b := [][2]float64{{0, 1}, {-1, 1}, {-math.MaxFloat64, math.MaxFloat64}, {1e-300, 2e-300}, {0.1, 0.3}, {5, 5}}
		x := b[nd.Choose("range", len(b))]
		r.Minimum, r.Maximum = x[0], x[1]
		y := [][2]float64{{0, 0}, {-1, 1}, {-math.MaxFloat64, math.MaxFloat64}, {0.1, 0.1}}[nd.Choose("delta", 4)]
		r.DeltaMin, r.DeltaMax = y[0], y[1]
		if nd.Bool("at the minimum") {
			v.GetDoubleValue().Value = r.Minimum
		} else {
			v.GetDoubleValue().Value = r.Maximum
		}
	}
	nd.Assume(goodValue(v))
	if zero := nd.And(r.DeltaMin == 0, r.DeltaMax == 0); nd.Truth(zero) {
		nd.Assume((r.Maximum-r.Minimum > math.MaxFloat64) == w)
	} else {
		nd.Assume((r.DeltaMax-r.DeltaMin > math.MaxFloat64) == w)
	}
	run(queue.New(false, 3, []*fpb.Value{v}), clone([]*fpb.Value{v}), 2)
}
