package main

import (
	"encoding/json"
	"errors"
	"math/rand"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cybergarage/go-sqlparser/sql/net"
	"github.com/cybergarage/go-tracing/tracer"
	"github.com/google/uuid"
)

func init() { register("session", runSession) }

type ssConn struct {
	User    int   `json:"user"`
	DB      int   `json:"db"`
	Schemas []int `json:"schemas"`
	Span    int   `json:"span"`
	Fails   int64 `json:"fails"`
	ID      int   `json:"id"`
	Given   bool  `json:"given"`
}

type ssOp struct {
	Op string `json:"op"`
	C  int    `json:"c"`
	V  int    `json:"v"`
	L  []int  `json:"l"`
}

type ssCfg struct {
	Conns   []ssConn `json:"conns"`
	Set     bool     `json:"set"`
	Threads [][]ssOp `json:"threads"`
}

var ssNames = []string{"", "a", "A", "ab", "日本", "a b", "information_schema", "0"}

func ssName(i int) string { return ssNames[i%len(ssNames)] }

func ssBack(s string) int { return slices.Index(ssNames, s) }

func ssBackAll(l []string) []int {
	r := []int{}
	for _, s := range l {
		r = append(r, ssBack(s))
	}
	return r
}

func ssList(l []int) []string {
	r := []string{}
	for _, v := range l {
		r = append(r, ssName(v))
	}
	return r
}

// ssSpan is a span context which counts its spans.
type ssSpan struct {
	n    int
	open *atomic.Int64
}

func (s *ssSpan) Span() tracer.Span          { return &tracer.NullSpan }
func (s *ssSpan) StartSpan(name string) bool { s.open.Add(1); return name == "span" }
func (s *ssSpan) FinishSpan() bool           { s.open.Add(-1); return true }

type ssState struct {
	conn  net.Conn
	stub  *stubConn
	spans []*ssSpan
	id    net.ConnID
	uuid  uuid.UUID
	ts    time.Time
	good  bool // the time of the creation is right
	held  [][]string
	was   [][]string
}

func newSsState(c ssConn, shared []string, others []*ssState, pause func()) *ssState {
	s := &ssState{stub: &stubConn{fails: c.Fails, err: errors.New("refused"), delay: pause}}
	for i := 0; i < 4; i++ {
		s.spans = append(s.spans, &ssSpan{i, &atomic.Int64{}})
	}
	opts := []net.ConnOption{}
	if c.User >= 0 {
		opts = append(opts, net.WithConnUser(ssName(c.User)))
	}
	if c.DB >= 0 {
		opts = append(opts, net.WithConnDatabase(ssName(c.DB)))
	}
	if len(c.Schemas) > 0 {
		opts = append(opts, net.WithConnSchemas(shared...))
	}
	if c.Span >= 0 {
		opts = append(opts, net.WithConnTracer(s.spans[c.Span]))
	}
	want := net.ConnID(0)
	if c.Given {
		want = net.ConnID(rgID(c.ID))
		opts = append(opts, net.WithConnID(want))
	}
	before := time.Now()
	s.conn = net.NewConnWith(s.stub, opts...)
	after := time.Now()
	s.id, s.uuid, s.ts = s.conn.ID(), s.conn.UUID(), s.conn.Timestamp()
	s.good = s.id == want && s.uuid != uuid.Nil && !s.ts.Before(before) && !s.ts.After(after) && s.conn.Context() != nil
	for _, o := range others {
		s.good = s.good && o.uuid != s.uuid
	}
	if c.Span < 0 {
		s.conn.SetSpanContext(s.spans[0])
	}
	return s
}

func (s *ssState) do(o ssOp) obj {
	r := obj{"err": "ok", "v": 0, "l": []int{}}
	switch o.Op {
	case "setuser":
		s.conn.SetUser(ssName(o.V))
	case "setdb":
		s.conn.SetDatabase(ssName(o.V))
	case "setschemas":
		l := ssList(o.L)
		s.conn.SetSchemas(l...)
		for i := range l {
			l[i] = "changed"
		}
	case "setspan":
		s.conn.SetSpanContext(s.spans[o.V])
	case "user":
		r["v"] = ssBack(s.conn.User())
	case "db":
		r["v"] = ssBack(s.conn.Database())
	case "schemas":
		r["l"] = ssBackAll(s.conn.Schemas())
	case "span":
		r["v"] = s.spanOf()
	case "start":
		if !s.conn.StartSpan("span") {
			r["err"] = "not started"
		}
	case "finish":
		if !s.conn.FinishSpan() {
			r["err"] = "not finished"
		}
	case "close":
		if err := s.conn.Close(); err != nil {
			r["err"] = "close"
			if !errors.Is(err, s.stub.err) {
				r["err"] = err.Error()
			}
		}
	}
	return r
}

func (s *ssState) spanOf() int {
	if x, ok := s.conn.SpanContext().(*ssSpan); ok && x.n < len(s.spans) && s.spans[x.n] == x {
		return x.n
	}
	return -1
}

func (s *ssState) state(spoil bool) obj {
	l := s.conn.Schemas()
	now := slices.Clone(l)
	s.held, s.was = append(s.held, l), append(s.was, now)
	stable := true
	for i := range s.held {
		stable = stable && slices.Equal(s.held[i], s.was[i])
	}
	if spoil && len(l) > 0 {
		// changing a returned list must not change the connection
		l = append(l[:0], "changed")
		_ = append(l, "changed", "changed")
		s.held, s.was = s.held[:len(s.held)-1], s.was[:len(s.was)-1]
	}
	starts := []int64{}
	for _, x := range s.spans {
		starts = append(starts, x.open.Load())
	}
	return obj{"user": ssBack(s.conn.User()), "db": ssBack(s.conn.Database()), "schemas": ssBackAll(now), "span": s.spanOf(),
		"calls": s.stub.calls.Load(), "starts": starts,
		"fixed": s.good && stable && s.conn.ID() == s.id && s.conn.UUID() == s.uuid && s.conn.Timestamp().Equal(s.ts)}
}

func runSession(seed int64, line []byte, emit func(any)) {
	var v struct {
		ID  int    `json:"id"`
		Cfg ssCfg  `json:"cfg"`
		Ops []ssOp `json:"ops"`
	}
	must(json.Unmarshal(line, &v))
	rng := rand.New(rand.NewSource(seed*65537 + int64(v.ID)))
	res, runs := []any{}, []any{}
	pan := guarded(func() {
		if len(v.Ops) == 0 {
			return
		}
		all := []*ssState{}
		lists := map[string][]string{}
		for _, c := range v.Cfg.Conns {
			// equal lists are one and the same slice, with room at its end
			b, _ := json.Marshal(c.Schemas)
			l, ok := lists[string(b)]
			if !ok {
				l = append(make([]string, 0, len(c.Schemas)+rng.Intn(4)), ssList(c.Schemas)...)
				lists[string(b)] = l
			}
			all = append(all, newSsState(c, l, all, nil))
		}
		for _, o := range v.Ops {
			out := all[o.C-1].do(o)
			states := []obj{}
			for _, s := range all {
				states = append(states, s.state(rng.Intn(2) == 0))
			}
			res = append(res, obj{"out": out, "all": states})
		}
	})
	reps := 0
	if len(v.Cfg.Threads) > 0 {
		reps = 6
	}
	for i := 0; i < reps && pan == ""; i++ {
		run := obj{}
		run, pan = ssConcurrent(v.Cfg, i%3)
		runs = append(runs, run)
	}
	emit(obj{"id": v.ID, "cfg": v.Cfg, "ops": v.Ops, "res": res, "runs": runs, "panic": pan})
}

func ssConcurrent(c ssCfg, level int) (obj, string) {
	type event struct {
		Op   ssOp  `json:"op"`
		Out  obj   `json:"out"`
		Call int64 `json:"call"`
		Ret  int64 `json:"ret"`
	}
	pause := pauser(level)
	s := newSsState(c.Conns[0], ssList(c.Conns[0].Schemas), nil, pause)
	var clock atomic.Int64
	var wg, ready sync.WaitGroup
	events := make([][]event, len(c.Threads))
	pans := make([]string, len(c.Threads))
	start := make(chan struct{})
	for t, ops := range c.Threads {
		wg.Add(1)
		ready.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			<-start
			pans[t] = guarded(func() {
				for _, o := range ops {
					call := clock.Add(1)
					out := s.do(o)
					events[t] = append(events[t], event{o, out, call, clock.Add(1)})
				}
			})
		}()
	}
	ready.Wait()
	close(start)
	wg.Wait()
	all := []event{}
	pan := ""
	for t := range events {
		all = append(all, events[t]...)
		if pan == "" {
			pan = pans[t]
		}
	}
	return obj{"events": all, "final": s.state(false)}, pan
}
