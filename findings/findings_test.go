package pipeline_test

// Demonstrations of the defects found while reading exascience/pargo. Each
// test fails on the pinned base commit and passes after the "fix:" commit that
// known_findings.txt names for it. Run with findings/run.sh; no registered
// check uses this file.

import (
	"context"
	"errors"
	"math"
	"sync/atomic"
	"testing"
	"time"

	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/sort"
	psync "github.com/exascience/pargo/sync"
)

func within(t *testing.T, d time.Duration, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatal("does not terminate")
	}
}

type k int

func (x k) Hash() uint64 { return uint64(x) }

func TestNegativeBatchCountOnEmptyRange(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Error("Range(0, 0, -1, f) did not panic")
		}
	}()
	parallel.Range(0, 0, -1, func(int, int) {})
}

func TestFloat64NaN(t *testing.T) {
	a := make([]float64, 0x6000)
	for i := range a {
		a[i] = float64((i * 7919) % 0x6000)
		if i%97 == 0 {
			a[i] = math.NaN()
		}
	}
	sort.StableSort(sort.Float64Slice(a))
	last := math.Inf(-1)
	for i, x := range a {
		if math.IsNaN(x) {
			continue
		}
		if x < last {
			t.Fatalf("not sorted at %d: %v after %v", i, x, last)
		}
		last = x
	}
}

func TestSpeculativeRangeWaits(t *testing.T) {
	m := psync.NewMap(64)
	for i := 0; i < 64; i++ {
		m.LoadOrStore(k(i), i)
	}
	var n int32
	m.SpeculativeRange(func(key, _ interface{}) bool {
		if key.(k) > 0 {
			time.Sleep(10 * time.Millisecond)
		}
		atomic.AddInt32(&n, 1)
		return true
	})
	if got := atomic.LoadInt32(&n); got != 64 {
		t.Errorf("returned after visiting %d of 64 entries although f never returned false", got)
	}
}

func TestModifyPanicUnlocks(t *testing.T) {
	for name, f := range map[string]func(m *psync.Map){
		"Modify": func(m *psync.Map) {
			m.Modify(k(1), func(interface{}, bool) (interface{}, bool) { panic("boom") })
		},
		"DeleteOrCompute": func(m *psync.Map) {
			m.DeleteOrCompute(k(1), func() interface{} { panic("boom") })
		},
	} {
		t.Run(name, func(t *testing.T) {
			m := psync.NewMap(1)
			func() {
				defer func() { _ = recover() }()
				f(m)
			}()
			within(t, time.Second, func() { m.Load(k(1)) })
		})
	}
}

// The lost wake-up: many upstream goroutines wait for their turn at a strictly
// ordered node while the pipeline is cancelled.
func lostWakeup(t *testing.T, node func() pipeline.Node) {
	within(t, 60*time.Second, func() {
		for i := 0; i < 30000; i++ {
			var p pipeline.Pipeline
			p.Source(make([]int, 8))
			p.NofBatches(8)
			p.Add(
				pipeline.Par(pipeline.Receive(func(seqNo int, data interface{}) interface{} {
					if seqNo == 0 {
						p.Cancel()
					}
					return data
				})),
				node(),
			)
			p.Run()
		}
	})
}

func id(_ int, data interface{}) interface{} { return data }

func TestStrictOrdLostWakeup(t *testing.T) {
	lostWakeup(t, func() pipeline.Node { return pipeline.StrictOrd(pipeline.Receive(id)) })
}

func TestSeqBeforeStrictOrd(t *testing.T) {
	within(t, 5*time.Second, func() {
		var p pipeline.Pipeline
		p.Source([]int{0, 1, 2, 3})
		p.NofBatches(4)
		p.Add(
			pipeline.Par(pipeline.Receive(func(seqNo int, data interface{}) interface{} {
				if seqNo == 0 {
					time.Sleep(100 * time.Millisecond)
				}
				return data
			})),
			pipeline.Seq(pipeline.Receive(id)),
			pipeline.StrictOrd(pipeline.Receive(id)),
		)
		p.Run()
	})
}

func TestStaleIndexDropsBatches(t *testing.T) {
	var p pipeline.Pipeline
	var n int32
	p.Source(make([]int, 100))
	p.Add(
		pipeline.Par(pipeline.Receive(id)),
		pipeline.Ord(pipeline.Identity),
		pipeline.Par(pipeline.Receive(id)),
		pipeline.Seq(pipeline.Receive(id)),
		pipeline.Par(pipeline.Receive(func(_ int, data interface{}) interface{} {
			atomic.AddInt32(&n, int32(len(data.([]int))))
			return data
		})),
	)
	p.Run()
	if n != 100 {
		t.Errorf("the last node saw %d of 100 elements", n)
	}
}

func TestOrderedLimitedParCancelInBegin(t *testing.T) {
	// run with -race: the worker goroutines read what Run still writes
	for i := 0; i < 2000; i++ {
		var p pipeline.Pipeline
		p.Source(make([]int, 4))
		p.Add(
			pipeline.LimitedPar(4, pipeline.Receive(id)),
			pipeline.Limit(0, true),
			pipeline.StrictOrd(pipeline.Receive(id)),
		)
		p.Run()
	}
}

// A source whose last Err call races with SetErr, here made deterministic by
// calling SetErr from Err itself.
type errSource struct {
	p     *pipeline.Pipeline
	n     int
	taken bool
}

func (s *errSource) Prepare(context.Context) int { return -1 }
func (s *errSource) Fetch(int) int               { s.n++; return 2 - s.n }
func (s *errSource) Data() interface{}           { return []int{1} }
func (s *errSource) Err() error {
	if s.n == 2 && !s.taken {
		s.taken = s.p.SetErr(errors.New("late"))
	}
	return nil
}

func TestSetErrNotOverwritten(t *testing.T) {
	var p pipeline.Pipeline
	src := &errSource{p: &p}
	p.Source(src)
	p.Add(pipeline.Seq(pipeline.Receive(id)))
	p.Run()
	if src.taken && p.Err() == nil {
		t.Fatal("SetErr returned true, but Err returns nil")
	}
}

// run with -race: Sort mutates the collection while goroutines of its own
// IsSorted call still read it.
func TestSortRacesWithIsSorted(t *testing.T) {
	for k := 0; k < 50; k++ {
		a := make([]int, 200000)
		for i := range a {
			a[i] = i
		}
		a[11], a[12] = a[12], a[11]
		sort.Sort(sort.IntSlice(a))
	}
}

func TestFirstBatchWithinMax(t *testing.T) {
	var p pipeline.Pipeline
	calls := 0
	p.Source(pipeline.NewFunc(-1, func(size int) (interface{}, int, error) {
		if calls++; calls > 3 {
			return nil, 0, nil
		}
		if size > 10 {
			t.Errorf("batch size %d > 10", size)
		}
		return make([]int, size), size, nil
	}))
	p.SetVariableBatchSize(100, 10)
	p.Add(pipeline.Seq(pipeline.Receive(id)))
	p.Run()
}

func TestArraySource(t *testing.T) {
	var p pipeline.Pipeline
	var res []int
	p.Source([3]int{1, 2, 3})
	p.Add(pipeline.Ord(pipeline.Slice(&res)))
	p.Run()
	if len(res) != 3 {
		t.Error(res)
	}
}

func TestSliceFilterNotASlice(t *testing.T) {
	var p pipeline.Pipeline
	var res int
	p.Source([]int{1, 2, 3})
	var ctor interface{}
	p.Add(pipeline.Ord(func(p *pipeline.Pipeline, kind pipeline.NodeKind, size *int) (pipeline.Receiver, pipeline.Finalizer) {
		r, _ := pipeline.Slice(&res)(p, kind, size)
		return func(s int, d interface{}) (x interface{}) {
			defer func() { ctor = recover() }()
			return r(s, d)
		}, nil
	}))
	p.Run()
	if p.Err() == nil || ctor != nil {
		t.Errorf("no pipeline error for a result that is not a slice; receiver panicked: %v", ctor)
	}
}

func TestCountSets(t *testing.T) {
	count := 1000
	var p pipeline.Pipeline
	n := 0
	p.Source(pipeline.NewFunc(-1, func(int) (interface{}, int, error) {
		if n++; n > 1 {
			return nil, 0, nil
		}
		return make([]int, 7), 7, nil
	}))
	p.Add(pipeline.Ord(pipeline.Count(&count)))
	p.Run()
	if count != 7 {
		t.Error(count)
	}
}

func TestSkipSize(t *testing.T) {
	var p pipeline.Pipeline
	count := 0
	p.Source(make([]int, 10))
	p.Add(pipeline.Skip(3), pipeline.Ord(pipeline.Count(&count)))
	p.Run()
	if count != 7 {
		t.Error(count)
	}
}

func TestNilBatches(t *testing.T) {
	var p pipeline.Pipeline
	var bad interface{}
	guard := func(n pipeline.Node) pipeline.Node { return n }
	_ = guard
	var res []int
	p.Source([]int{1, 2, 3, 4, 5, 6, 7, 8})
	p.NofBatches(8)
	// Skip turns the batches it consumes into nil; Limit must cope. (Without
	// the fix this panics in a pipeline goroutine and crashes the test binary.)
	p.Add(pipeline.Skip(3), pipeline.Limit(2, false), pipeline.Ord(pipeline.Slice(&res)))
	p.Run()
	if bad != nil || len(res) != 2 || res[0] != 4 {
		t.Error(res)
	}
}

func TestCancelStopsFetching(t *testing.T) {
	within(t, 5*time.Second, func() {
		var p pipeline.Pipeline
		p.Source(pipeline.NewFunc(-1, func(size int) (interface{}, int, error) {
			return make([]int, size), size, nil
		}))
		p.Add(pipeline.Limit(10, true))
		p.Run()
	})
}
