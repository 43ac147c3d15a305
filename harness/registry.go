package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	gonet "net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cybergarage/go-sqlparser/sql/net"
	"github.com/google/uuid"
)

func init() { register("registry", runRegistry) }

// stubConn is the underlying network connection: it counts and may refuse to close.
type stubConn struct {
	gonet.Conn
	calls atomic.Int64
	done  atomic.Int64 // successful closes
	fails int64
	err   error
	delay func()
}

func (c *stubConn) Close() error {
	n := c.calls.Add(1)
	if c.delay != nil {
		c.delay()
	}
	if n <= c.fails {
		return c.err
	}
	c.done.Add(1)
	return nil
}

// fakeConn is another implementation of the connection interface.
type fakeConn struct {
	net.Conn // not used
	stub     *stubConn
	id       net.ConnID
	uuid     uuid.UUID
	pause    func()
	onClose  func()
}

func (c *fakeConn) ID() net.ConnID {
	if c.pause != nil {
		c.pause()
	}
	return c.id
}

func (c *fakeConn) UUID() uuid.UUID {
	if c.pause != nil {
		c.pause()
	}
	return c.uuid
}

func (c *fakeConn) Close() error {
	err := c.stub.Close()
	if err == nil && c.onClose != nil {
		c.onClose()
	}
	return err
}

type rgOp struct {
	Op string `json:"op"`
	A  int    `json:"a"`
	B  int    `json:"b"`
}

type rgCfg struct {
	U []struct {
		ID    int    `json:"id"`
		U     int    `json:"u"`
		Kind  string `json:"kind"`
		Fails int64  `json:"fails"`
	} `json:"u"`
	Set     bool     `json:"set"`
	Pre     []rgOp   `json:"pre"`
	Threads [][]rgOp `json:"threads"`
}

type rgWorld struct {
	mgr   net.ConnManager
	conns []net.Conn
	stubs []*stubConn
	errs  []error
	ids   []uint64
	uuids []uuid.UUID
}

var rgIDs = []uint64{0, 1, 1<<32 + 1, math.MaxUint64, 1 << 63, 255}

func rgID(i int) uint64 { return rgIDs[i%len(rgIDs)] }

func rgUUID(u int) uuid.UUID {
	x := uuid.UUID{}
	switch u {
	case 0:
		return uuid.Nil
	case 1:
		x[15] = 1
	case 2:
		x[0] = 1
	default:
		for i := range x {
			x[i] = byte(u*7 + i)
		}
	}
	return x
}

func newRgWorld(c rgCfg, rng *rand.Rand, pause func()) *rgWorld {
	w := &rgWorld{mgr: net.NewConnManager()}
	for i, u := range c.U {
		stub := &stubConn{fails: u.Fails, err: fmt.Errorf("close of %d", i), delay: pause}
		id := rgID(u.ID)
		var conn net.Conn
		var uid uuid.UUID
		if u.Kind == "real" && u.U > 100 {
			conn = net.NewConnWith(stub, net.WithConnID(id))
			uid = conn.UUID()
		} else {
			uid = rgUUID(u.U)
			if u.Kind == "real" {
				// closes its connection once like a real one
				conn = &fakeReal{Conn: net.NewConnWith(stub), id: id, uuid: uid, pause: pause}
			} else {
				f := &fakeConn{stub: stub, id: id, uuid: uid, pause: pause}
				if u.Kind == "self" {
					f.onClose = func() { _ = w.mgr.RemoveConn(f) }
				}
				conn = f
			}
		}
		w.conns, w.stubs, w.errs = append(w.conns, conn), append(w.stubs, stub), append(w.errs, stub.err)
		w.ids, w.uuids = append(w.ids, id), append(w.uuids, uid)
	}
	return w
}

// fakeReal is a real connection under another identity.
type fakeReal struct {
	net.Conn
	id    net.ConnID
	uuid  uuid.UUID
	pause func()
}

func (c *fakeReal) ID() net.ConnID {
	if c.pause != nil {
		c.pause()
	}
	return c.id
}

func (c *fakeReal) UUID() uuid.UUID {
	if c.pause != nil {
		c.pause()
	}
	return c.uuid
}

// index returns the number of a connection; 0: none, -1: an unknown one.
func (w *rgWorld) index(c net.Conn, ok bool) int {
	if !ok {
		if c != nil {
			return -2
		}
		return 0
	}
	for i, x := range w.conns {
		if x == c {
			return i + 1
		}
	}
	return -1
}

func (w *rgWorld) uuidOf(u int) uuid.UUID {
	if u > 100 && u-101 < len(w.uuids) {
		return w.uuids[u-101]
	}
	return rgUUID(u)
}

func (w *rgWorld) do(o rgOp) obj {
	var err error
	one, set := 0, []int{}
	kind := ""
	switch o.Op {
	case "add":
		err = w.mgr.AddConn(w.conns[o.A-1])
	case "update":
		err = w.mgr.UpdateConn(w.conns[o.A-1], w.conns[o.B-1])
	case "remove":
		err = w.mgr.RemoveConn(w.conns[o.A-1])
	case "removeuid":
		w.mgr.RemoveConnByUID(rgID(o.A))
	case "removeuuid":
		w.mgr.RemoveConnByUUID(w.uuidOf(o.A))
	case "byid":
		one = w.index(w.mgr.LookupConnByUID(rgID(o.A)))
	case "byuuid":
		one = w.index(w.mgr.LookupConnByUUID(w.uuidOf(o.A)))
	case "conns":
		for _, c := range w.mgr.Conns() {
			set = append(set, w.index(c, true))
		}
	case "start":
		err = w.mgr.Start()
	case "close", "stop":
		if o.Op == "close" {
			err = w.mgr.Close()
		} else {
			err = w.mgr.Stop()
		}
		if err != nil {
			kind = "close"
			for i, e := range w.errs {
				if errors.Is(err, e) {
					set = append(set, i+1)
				}
			}
		}
	}
	switch {
	case kind != "":
	case err == nil:
		kind = "ok"
	case errors.Is(err, net.ErrExist) && !errors.Is(err, net.ErrNotExist):
		kind = "exist"
	case errors.Is(err, net.ErrNotExist) && !errors.Is(err, net.ErrExist):
		kind = "notexist"
	default:
		kind = "other: " + err.Error()
	}
	return obj{"err": kind, "set": set, "one": one}
}

func (w *rgWorld) state() obj {
	conns, byid, byuuid, calls := []int{}, []int{}, []int{}, []int64{}
	for _, c := range w.mgr.Conns() {
		conns = append(conns, w.index(c, true))
	}
	for i := range w.conns {
		byid = append(byid, w.index(w.mgr.LookupConnByUID(w.ids[i])))
		byuuid = append(byuuid, w.index(w.mgr.LookupConnByUUID(w.uuids[i])))
		calls = append(calls, w.stubs[i].calls.Load())
	}
	return obj{"conns": conns, "byid": byid, "byuuid": byuuid, "calls": calls}
}

// pauser returns a function which sometimes lets others run.
func pauser(level int) func() {
	if level == 0 {
		return nil
	}
	var n atomic.Int64
	return func() {
		k := n.Add(1)
		switch {
		case level > 1 && k%7 == 0:
			time.Sleep(20 * time.Microsecond)
		default:
			runtime.Gosched()
		}
	}
}

func runRegistry(seed int64, line []byte, emit func(any)) {
	var v struct {
		ID  int    `json:"id"`
		Cfg rgCfg  `json:"cfg"`
		Ops []rgOp `json:"ops"`
	}
	must(json.Unmarshal(line, &v))
	rng := rand.New(rand.NewSource(seed*65537 + int64(v.ID)))
	res, runs := []any{}, []any{}
	pan := guarded(func() {
		w := newRgWorld(v.Cfg, rng, nil)
		for _, o := range v.Ops {
			out := w.do(o)
			res = append(res, obj{"out": out, "state": w.state()})
		}
	})
	reps := 0
	if len(v.Cfg.Threads) > 0 {
		reps = 6
	}
	for i := 0; i < reps && pan == ""; i++ {
		run := obj{}
		run, pan = rgConcurrent(v.Cfg, rng, i%3)
		runs = append(runs, run)
	}
	emit(obj{"id": v.ID, "cfg": v.Cfg, "ops": v.Ops, "res": res, "runs": runs, "panic": pan})
}

// rgConcurrent runs the threads once and records the events.
func rgConcurrent(c rgCfg, rng *rand.Rand, level int) (obj, string) {
	w := newRgWorld(c, rng, pauser(level))
	for _, o := range c.Pre {
		w.do(o)
	}
	type event struct {
		Op   rgOp  `json:"op"`
		Out  obj   `json:"out"`
		Call int64 `json:"call"`
		Ret  int64 `json:"ret"`
	}
	var clock atomic.Int64
	var wg, ready sync.WaitGroup
	events := make([][]event, len(c.Threads))
	pans := make([]string, len(c.Threads))
	start := make(chan struct{})
	for t, ops := range c.Threads {
		wg.Add(1)
		ready.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			<-start
			pans[t] = guarded(func() {
				for _, o := range ops {
					call := clock.Add(1)
					out := w.do(o)
					events[t] = append(events[t], event{o, out, call, clock.Add(1)})
				}
			})
		}()
	}
	ready.Wait()
	close(start)
	wg.Wait()
	all := []event{}
	pan := ""
	for t := range events {
		all = append(all, events[t]...)
		if pan == "" {
			pan = pans[t]
		}
	}
	return obj{"events": all, "final": w.state()}, pan
}
