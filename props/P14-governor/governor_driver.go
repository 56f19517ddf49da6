package vh

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/backoff"
	governor "github.com/choria-io/go-choria/providers/governor/streams"
	natsd "github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats.go"
)

type gvCase struct {
	ID    string `json:"id"`
	Steps []struct {
		A struct {
			N   string `json:"n"`
			W   string `json:"w"`
			X   string `json:"x"`
			Res string `json:"res"`
		} `json:"a"`
		S struct {
			Limit  int               `json:"limit"`
			Exists bool              `json:"exists"`
			St     map[string]string `json:"st"`
			Slots  map[string]int    `json:"slots"`
		} `json:"s"`
	} `json:"steps"`
}
type gvConc struct {
	ID      string `json:"id"`
	Limit   int    `json:"limit"`
	Workers int    `json:"workers"`
	Seed    int64  `json:"seed"`
	Cancel  bool   `json:"cancel"`
}

type gvResult struct {
	fin governor.Finisher
	seq uint64
	err error
}
type gvWorker struct {
	g      governor.Governor
	cancel context.CancelFunc
	res    chan gvResult
	cur    *gvResult // the current grant
	old    governor.Finisher
	seqs   []uint64 // its slots, oldest first
}

type gvMiss struct {
	step     int
	key      string
	exp, got any
	d        []any
}

func gvWalk(nc *nats.Conn, name string, c gvCase) *gvMiss {
	miss := func(i int, key string, exp, got any) *gvMiss { return &gvMiss{i, key, exp, got, []any{c.Steps[i].A}} }
	subj := "mcollective.governor." + name
	mk := func(limit uint64) (governor.Manager, error) {
		return governor.NewManager(name, limit, time.Hour, 0, nc, true, governor.WithSubject(subj))
	}
	mgr, err := mk(1)
	if err != nil {
		return &gvMiss{0, "create", nil, err.Error(), nil}
	}
	defer func() { mgr.Stream().Delete() }()
	ws := map[string]*gvWorker{}
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	for _, n := range []string{"w1", "w2", "w3"} {
		opts := []governor.Option{governor.WithSubject(subj), governor.WithInterval(5 * time.Millisecond)}
		if n == "w2" {
			opts = append(opts, governor.WithBackoff(backoff.Policy{Millis: []int{4, 6, 8}}))
		}
		if n == "w3" {
			opts = append(opts, governor.WithoutLeavingOnCompletion())
		}
		ws[n] = &gvWorker{g: governor.New(name, nc, opts...)}
	}
	wait := func(w *gvWorker, d time.Duration) *gvResult {
		select {
		case x := <-w.res:
			return &x
		case <-time.After(d):
			return nil
		}
	}
	prev := map[string]string{"w1": "idle", "w2": "idle", "w3": "idle"}
	for i, s := range c.Steps {
		a := s.A
		w := ws[a.W]
		got := func(n string, x *gvResult, exp string) *gvMiss {
			w := ws[n]
			switch {
			case x == nil && exp == "waiting":
				return nil
			case x == nil:
				return miss(i, "start", exp, n+" is still waiting")
			case x.err != nil && exp == "error":
				if x.fin != nil || x.seq != 0 {
					return miss(i, "start", "no slot with the error", fmt.Sprint(x.seq))
				}
				return nil
			case x.err == nil && exp == "granted":
				w.cur = x
				w.seqs = append(w.seqs, x.seq)
				return nil
			}
			return miss(i, "start", exp, fmt.Sprintf("%s: seq %d err %v", n, x.seq, x.err))
		}
		switch a.N {
		case "start":
			cx, cancel := context.WithCancel(ctx)
			w.cancel = cancel
			w.res = make(chan gvResult, 1)
			res := w.res
			go func() {
				f, q, err := w.g.Start(cx, a.W)
				res <- gvResult{f, q, err}
			}()
			d := 5 * time.Second
			if a.Res == "waiting" {
				d = 15 * time.Millisecond
			}
			if m := got(a.W, wait(w, d), a.Res); m != nil {
				return m
			}
		case "busy":
			var err error
			if g := vhGuard(5*time.Second, func() { _, _, err = w.g.Start(ctx, a.W) }); g != "" || err == nil {
				return miss(i, "started-twice", "an error", fmt.Sprintf("%v %v", g, err))
			}
		case "finish":
			var err error
			fin := w.cur.fin
			if g := vhGuard(5*time.Second, func() { err = fin() }); g != "" || err != nil && a.Res == "ok" {
				return miss(i, "finish", a.Res, fmt.Sprintf("%v %v", g, err))
			}
			if a.W != "w3" {
				w.seqs = nil
			}
			w.old, w.cur = fin, nil
		case "stale":
			var err error
			if g := vhGuard(5*time.Second, func() { err = w.old() }); g != "" || err != nil {
				return miss(i, "stale-finisher", "nothing", fmt.Sprintf("%v %v", g, err))
			}
		case "cancel":
			w.cancel()
			if m := got(a.W, wait(w, 5*time.Second), "error"); m != nil {
				return m
			}
		case "evict":
			name, err := mgr.Evict(w.seqs[0])
			if err != nil || name != a.W {
				return miss(i, "evict", a.W, fmt.Sprintf("%s %v", name, err))
			}
			if _, err = mgr.Evict(w.seqs[0]); err == nil {
				return miss(i, "evict-again", "an error", nil)
			}
			w.seqs = w.seqs[1:]
		case "reset":
			if err = mgr.Reset(); err != nil {
				return miss(i, "reset", nil, err.Error())
			}
			for _, w := range ws {
				w.seqs = nil
			}
		case "expire":
			if err = mgr.SetMaxAge(250 * time.Millisecond); err != nil {
				return miss(i, "maxage", nil, err.Error())
			}
			vhEventually(10*time.Second, func() bool { n, err := mgr.Active(); return err == nil && n == 0 })
			if err = mgr.SetMaxAge(time.Hour); err != nil {
				return miss(i, "maxage", nil, err.Error())
			}
			for _, w := range ws {
				w.seqs = nil
			}
		case "limit":
			l := uint64(1)
			if a.X == "2" {
				l = 2
			}
			if err = mgr.SetLimit(l); err != nil {
				return miss(i, "limit", nil, err.Error())
			}
		case "remove":
			if err = mgr.Stream().Delete(); err != nil {
				return miss(i, "remove", nil, err.Error())
			}
			for _, w := range ws {
				w.seqs = nil
			}
		case "create":
			if mgr, err = mk(1); err != nil {
				return miss(i, "create", nil, err.Error())
			}
		}
		// whoever was let in, or turned away, by this step learns it
		for n, w := range ws {
			if prev[n] != "wait" || n == a.W && a.N == "cancel" {
				continue
			}
			exp := map[string]string{"wait": "waiting", "hold": "granted", "idle": "error"}[s.S.St[n]]
			d := 5 * time.Second
			if exp == "waiting" {
				d = 15 * time.Millisecond
			}
			if m := got(n, wait(w, d), exp); m != nil {
				return m
			}
		}
		prev = s.S.St
		if !s.S.Exists {
			continue
		}
		if mgr.Limit() != int64(s.S.Limit) || mgr.MaxAge() != time.Hour || mgr.Name() != name || mgr.Subject() != subj {
			return miss(i, "configuration", []any{s.S.Limit, time.Hour.String(), name, subj}, []any{mgr.Limit(), mgr.MaxAge().String(), mgr.Name(), mgr.Subject()})
		}
		total := 0
		want := []string{}
		for n, k := range s.S.Slots {
			total += k
			for j := 0; j < k; j++ {
				want = append(want, n)
			}
		}
		sort.Strings(want)
		var active uint64
		if !vhEventually(3*time.Second, func() bool { active, err = mgr.Active(); return err == nil && active == uint64(total) }) {
			return miss(i, "active", want, active)
		}
		have := []string{}
		nfo, err := mgr.Stream().Information()
		if err == nil {
			for q := nfo.State.FirstSeq; q <= nfo.State.LastSeq && len(have) <= total; q++ {
				m, err := mgr.Stream().ReadMessage(q)
				if err == nil {
					have = append(have, string(m.Data))
				}
			}
			sort.Strings(have)
			if !vhSame(want, have) {
				return miss(i, "slots", want, have)
			}
		}
	}
	return nil
}

// gvRun is a history of many workers at one Governor
func gvRun(nc *nats.Conn, name string, c gvConc) (evs []map[string]any, err error) {
	subj := "mcollective.governor." + name
	mgr, err := governor.NewManager(name, uint64(c.Limit), time.Hour, 0, nc, true, governor.WithSubject(subj))
	if err != nil {
		return nil, err
	}
	defer mgr.Stream().Delete()
	var mu sync.Mutex
	rec := func(k string, w int) {
		mu.Lock()
		evs = append(evs, map[string]any{"k": k, "w": w})
		mu.Unlock()
	}
	wg := sync.WaitGroup{}
	granted := 0
	for i := 0; i < c.Workers; i++ {
		wg.Add(1)
		rnd := rand.New(rand.NewSource(c.Seed + int64(i)))
		go func() {
			defer wg.Done()
			g := governor.New(name, nc, governor.WithSubject(subj), governor.WithInterval(3*time.Millisecond))
			if c.Cancel && i%3 == 2 {
				// gives up at some point while waiting, and tries again
				cx, cancel := context.WithTimeout(context.Background(), time.Duration(rnd.Intn(6000))*time.Microsecond)
				fin, _, e := g.Start(cx, fmt.Sprintf("w%d", i))
				cancel()
				if e == nil {
					rec("granted", i)
					rec("finish", i)
					fin()
				}
			}
			cx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			defer cancel()
			fin, _, e := g.Start(cx, fmt.Sprintf("w%d", i))
			mu.Lock()
			if e != nil {
				err = e
				mu.Unlock()
				return
			}
			granted++
			evs = append(evs, map[string]any{"k": "granted", "w": i})
			mu.Unlock()
			time.Sleep(time.Duration(rnd.Intn(3000)) * time.Microsecond)
			rec("finish", i)
			if e = fin(); e == nil {
				e = fin()
			}
			if e != nil {
				mu.Lock()
				err = e
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if err != nil {
		return nil, err
	}
	n, err := mgr.Active()
	if err != nil {
		return nil, err
	}
	return append(evs, map[string]any{"k": "end", "active": n, "granted": granted}), nil
}

func TestVerif(t *testing.T) {
	var in struct {
		Walks []gvCase `json:"walks"`
		Concs []gvConc `json:"concs"`
	}
	r := vhOpen(t, &in)
	defer r.Done()
	d, err := os.MkdirTemp("", "js")
	if err != nil {
		r.Error("%v", err)
	}
	srv, err := natsd.NewServer(&natsd.Options{ServerName: "vh", JetStream: true, StoreDir: d, Port: -1, Host: "127.0.0.1", NoSigs: true, NoLog: true})
	if err != nil {
		r.Error("%v", err)
	}
	go srv.Start()
	if !srv.ReadyForConnections(20 * time.Second) {
		r.Error("no server")
	}
	defer func() { srv.Shutdown(); srv.WaitForShutdown() }()
	work := make(chan func(nc *nats.Conn))
	wg := sync.WaitGroup{}
	for i := 0; i < 8; i++ {
		nc, err := nats.Connect(srv.ClientURL())
		if err != nil {
			r.Error("%v", err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer nc.Close()
			for f := range work {
				f(nc)
			}
		}()
	}
	clean := strings.NewReplacer("-", "_")
	for _, c := range in.Walks {
		work <- func(nc *nats.Conn) {
			r.Case(c.ID)
			var m *gvMiss
			// a try of the Governor has a second to complete: only what repeats is reported
			for k := 0; k < 3; k++ {
				m = gvWalk(nc, fmt.Sprintf("%s_%d", clean.Replace(c.ID), k), c)
				if m == nil {
					break
				}
				r.Count("retried")
			}
			for range c.Steps {
				r.Step()
			}
			if m != nil {
				r.Mismatch(c.ID, m.step, m.key, m.exp, m.got, m.d...)
			}
		}
	}
	for _, c := range in.Concs {
		work <- func(nc *nats.Conn) {
			r.Case(c.ID)
			r.Step()
			var evs []map[string]any
			var err error
			for k := 0; k < 3; k++ {
				evs, err = gvRun(nc, fmt.Sprintf("%s_%d", clean.Replace(c.ID), k), c)
				if err == nil {
					break
				}
			}
			if err != nil {
				r.Mismatch(c.ID, 0, "concurrent-failed", "every worker gets its turn", err.Error(), c)
				return
			}
			r.emit(map[string]any{"t": "hist", "case": c.ID, "limit": c.Limit, "expect": c.Workers, "ev": evs})
		}
	}
	close(work)
	wg.Wait()
}
