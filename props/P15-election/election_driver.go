package vh

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	election "github.com/choria-io/go-choria/providers/election/streams"
	"github.com/nats-io/nats.go"
)

type elStore struct {
	mu   sync.Mutex
	ex   bool
	seq  uint64
	val  string
	last uint64
}

func (s *elStore) holder() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.ex {
		return "none"
	}
	return s.val
}
func (s *elStore) write(v string) uint64 { // locked
	s.last++
	s.seq, s.val, s.ex = s.last, v, true
	return s.seq
}
func (s *elStore) remove() {
	s.mu.Lock()
	s.ex = false
	s.last++
	s.mu.Unlock()
}

// elKV is one member's view of the bucket
type elKV struct {
	nats.KeyValue
	s       *elStore
	mu      sync.Mutex
	outcome string
	ttl     time.Duration
	status  func() error
	bad     string
	calls   int
}

type elStatus struct {
	nats.KeyValueStatus
	ttl time.Duration
}

func (s *elStatus) TTL() time.Duration { return s.ttl }

func (k *elKV) Bucket() string { return "ELECTION" }
func (k *elKV) Status() (nats.KeyValueStatus, error) {
	if k.status != nil {
		if err := k.status(); err != nil {
			return nil, err
		}
	}
	return &elStatus{ttl: k.ttl}, nil
}

func (k *elKV) do(key string, v []byte, cond func() bool) (uint64, error) {
	k.mu.Lock()
	o := k.outcome
	k.calls++
	if key != "the.key" {
		k.bad = "wrote key " + key
	}
	k.mu.Unlock()
	k.s.mu.Lock()
	defer k.s.mu.Unlock()
	if o == "fail" {
		return 0, fmt.Errorf("timeout")
	}
	if !cond() {
		return 0, fmt.Errorf("wrong last sequence")
	}
	seq := k.s.write(string(v))
	if o == "lost" {
		return 0, fmt.Errorf("timeout")
	}
	return seq, nil
}
func (k *elKV) Create(key string, v []byte) (uint64, error) {
	return k.do(key, v, func() bool { return !k.s.ex })
}
func (k *elKV) Update(key string, v []byte, last uint64) (uint64, error) {
	return k.do(key, v, func() bool { return k.s.ex && k.s.seq == last })
}
func (k *elKV) Put(key string, v []byte) (uint64, error) {
	return k.do(key, v, func() bool { return true })
}
func (k *elKV) PutString(key string, v string) (uint64, error) { return k.Put(key, []byte(v)) }
func (k *elKV) Delete(key string, _ ...nats.DeleteOpt) error {
	_, err := k.do(key, nil, func() bool { return true })
	k.s.remove()
	return err
}

// elGate parks a member between campaigns
type elGate struct {
	mu      sync.Mutex
	parked  chan int
	release chan time.Duration
	closed  chan struct{}
	entered atomic.Int64 // when the interval was first asked for, since the start
}

// elLate counts members that went on after being stopped during their startup splay
var elLate atomic.Int32

func (g *elGate) Duration(n int) time.Duration {
	g.entered.CompareAndSwap(0, time.Now().UnixNano())
	g.mu.Lock()
	closed := g.closed
	g.mu.Unlock()
	select {
	case <-closed:
		return time.Hour
	case g.parked <- n:
	}
	select {
	case <-closed:
		return time.Hour
	case d := <-g.release:
		return d
	}
}

type elCase struct {
	ID    string `json:"id"`
	Steps []struct {
		A struct {
			N    string `json:"n"`
			M    string `json:"m"`
			X    string `json:"x"`
			Won  int    `json:"won"`
			Lost int    `json:"lost"`
			Camp string `json:"camp"`
		} `json:"a"`
		S struct {
			S struct {
				KV string            `json:"kv"`
				St map[string]string `json:"st"`
			} `json:"s"`
		} `json:"s"`
	} `json:"steps"`
}

type elMember struct {
	mu        sync.Mutex
	kv        *elKV
	gate      *elGate
	won, lost int
	camps     []string
	el        interface {
		Start(context.Context) error
		Stop()
		IsLeader() bool
		State() election.State
	}
	cancel context.CancelFunc
	ret    chan error
	atGate bool
	ticked bool
}

func elNew(name string, s *elStore, ttl time.Duration) *elMember {
	m := &elMember{kv: &elKV{s: s, ttl: ttl}, gate: &elGate{parked: make(chan int), release: make(chan time.Duration), closed: make(chan struct{})}}
	m.el, _ = election.NewElection(name, "the.key", m.kv, election.WithBackoff(m.gate),
		election.OnWon(func() { m.mu.Lock(); m.won++; m.mu.Unlock() }),
		election.OnLost(func() { m.mu.Lock(); m.lost++; m.mu.Unlock() }),
		election.OnCampaign(func(s election.State) { m.mu.Lock(); m.camps = append(m.camps, s.String()); m.mu.Unlock() }))
	return m
}

func (m *elMember) start() {
	ctx, cancel := context.WithCancel(context.Background())
	m.gate.mu.Lock()
	m.gate.closed = make(chan struct{})
	m.gate.mu.Unlock()
	m.cancel = cancel
	m.ret = make(chan error, 1)
	m.atGate = false
	m.ticked = false
	m.gate.entered.Store(0)
	ret := m.ret
	go func() { ret <- m.el.Start(ctx) }()
}

// park waits until the member is between campaigns
func (m *elMember) park(d time.Duration) (int, bool) {
	select {
	case n := <-m.gate.parked:
		m.atGate = true
		return n, true
	case <-time.After(d):
		return 0, false
	}
}

func elWalk(r *vhReporter, c elCase) {
	store := &elStore{}
	ms := map[string]*elMember{"m1": elNew("m1", store, 10*time.Second), "m2": elNew("m2", store, 10*time.Second), "m3": elNew("m3", store, 10*time.Second)}
	defer func() {
		for _, m := range ms {
			if m.cancel != nil {
				m.cancel()
				m.gate.mu.Lock()
				select {
				case <-m.gate.closed:
				default:
					close(m.gate.closed)
				}
				m.gate.mu.Unlock()
			}
		}
	}()
	for i, st := range c.Steps {
		r.Step()
		a := st.A
		m := ms[a.M]
		won, lost, calls := 0, 0, 0
		if m != nil {
			m.mu.Lock()
			won, lost = m.won, m.lost
			m.camps = nil
			m.mu.Unlock()
			m.kv.mu.Lock()
			m.kv.outcome = a.X
			calls = m.kv.calls
			m.kv.mu.Unlock()
		}
		switch a.N {
		case "start":
			m.start()
			time.Sleep(2 * time.Millisecond)
			// the configuration step ends before the member campaigns
			if !vhEventually(2*time.Second, func() bool { return m.el.State() == election.CandidateState }) {
				r.Mismatch(c.ID, i, "start", "a candidate", m.el.State().String(), a)
				return
			}
		case "again":
			var err error
			g := vhGuard(5*time.Second, func() { err = m.el.Start(context.Background()) })
			if g != "" || err == nil {
				r.Mismatch(c.ID, i, "started-twice", "an error", fmt.Sprintf("%q %v", g, err), a)
				return
			}
		case "tick":
			if !m.atGate {
				if _, ok := m.park(12 * time.Second); !ok {
					r.Mismatch(c.ID, i, "hang", "campaigns", "did not", a)
					return
				}
			}
			m.atGate = false
			m.ticked = true
			m.gate.release <- time.Millisecond
			n, ok := m.park(10 * time.Second)
			if !ok {
				r.Mismatch(c.ID, i, "hang", "campaign ends", "did not", a)
				return
			}
			if s := st.S.S.St[a.M]; (s == "pend" || s == "lead") && n != 0 {
				r.Mismatch(c.ID, i, "leader-interval", 0, n, a)
			}
			if !vhSame([]string{a.Camp}, m.camps) {
				r.Mismatch(c.ID, i, "campaign", []string{a.Camp}, m.camps, a)
				return
			}
		case "stop":
			g := ""
			stopped := time.Now().UnixNano()
			m.gate.mu.Lock()
			if a.X == "cancel" {
				m.cancel()
			}
			m.gate.mu.Unlock()
			if a.X == "stop" {
				g = vhGuard(5*time.Second, m.el.Stop)
			}
			m.gate.mu.Lock()
			close(m.gate.closed)
			m.gate.mu.Unlock()
			if g != "" {
				r.Mismatch(c.ID, i, "stop", "returns", g, a)
				return
			}
			select {
			case <-m.ret:
			case <-time.After(5 * time.Second):
				r.Mismatch(c.ID, i, "stop", "the election ends", "did not", a)
				return
			}
			if at := m.gate.entered.Load(); !m.ticked && at != 0 {
				// between its splay and its first campaign: that campaign may still happen
				if at > stopped && elLate.Add(1) > 1 {
					r.Mismatch(c.ID, i, "campaign-after-stop", "none", "campaigned", a)
				}
				return
			}
			m.kv.mu.Lock()
			after := m.kv.calls
			m.kv.mu.Unlock()
			if after != calls {
				r.Mismatch(c.ID, i, "write-after-stop", 0, after-calls, a)
				return
			}
		case "store":
			if a.X == "delete" {
				store.remove()
			} else {
				store.mu.Lock()
				store.write("x")
				store.mu.Unlock()
			}
		}
		if m != nil {
			m.mu.Lock()
			won, lost = m.won-won, m.lost-lost
			m.mu.Unlock()
			if a.N == "stop" && won == 0 && a.Lost == 1 && lost == 0 {
				r.Mismatch(c.ID, i, "shutdown-lost", a.Lost, lost, a)
			} else if won != a.Won || lost != a.Lost {
				r.Mismatch(c.ID, i, "notifications", []int{a.Won, a.Lost}, []int{won, lost}, a)
				return
			}
			if m.kv.bad != "" {
				r.Mismatch(c.ID, i, "key", "the.key", m.kv.bad, a)
				return
			}
		}
		if h := store.holder(); h != st.S.S.KV {
			r.Mismatch(c.ID, i, "holder", st.S.S.KV, h, a)
			return
		}
		for n, s := range st.S.S.St {
			var lead bool
			var state election.State
			if g := vhGuard(5*time.Second, func() { lead = ms[n].el.IsLeader(); state = ms[n].el.State() }); g != "" {
				r.Mismatch(c.ID, i, "blocked", "", g, a)
				return
			}
			if lead != (s == "lead") {
				r.Mismatch(c.ID, i, "leader", s, lead, n, a)
				return
			}
			if s != "idle" && (state == election.LeaderState) != (s == "pend" || s == "lead") || s == "idle" && state == election.LeaderState {
				r.Mismatch(c.ID, i, "state", s, state.String(), n, a)
				return
			}
		}
	}
}

type elLease struct {
	ID string `json:"id"`
	R  struct {
		TTL   int    `json:"ttl"`
		Store string `json:"store"`
		Bo    bool   `json:"bo"`
	} `json:"r"`
	Runs  bool `json:"runs"`
	Watch bool `json:"watch"`
}

func elLeaseCase(r *vhReporter, c elLease) {
	r.Step()
	kv := &elKV{s: &elStore{}, ttl: time.Duration(c.R.TTL) * time.Millisecond}
	n := 0
	var mu sync.Mutex
	kv.status = func() error {
		mu.Lock()
		defer mu.Unlock()
		n++
		if c.R.Store == "down" || c.R.Store == "flaky" && n == 1 {
			return fmt.Errorf("timeout")
		}
		return nil
	}
	var camps []time.Time
	opts := []election.Option{election.OnCampaign(func(election.State) { mu.Lock(); camps = append(camps, time.Now()); mu.Unlock() })}
	if c.R.Bo {
		opts = append(opts, election.WithBackoff(&elGate{closed: make(chan struct{}), parked: make(chan int, 1000), release: make(chan time.Duration)}))
	}
	el, err := election.NewElection("m", "the.key", kv, opts...)
	if err != nil {
		r.Mismatch(c.ID, 0, "lease", nil, err.Error())
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ret := make(chan error, 1)
	go func() { ret <- el.Start(ctx) }()
	started := false
	select {
	case err = <-ret:
		if err == nil {
			r.Mismatch(c.ID, 0, "lease", "an error or a running election", "returned nil", c.R)
			return
		}
	case <-time.After(3 * time.Second):
		started = true
		if c.R.Store == "down" {
			// still trying: it ends with its context
			started = false
			cancel()
			select {
			case err = <-ret:
				if err == nil {
					r.Mismatch(c.ID, 0, "lease", "an error", "returned nil", c.R)
				}
			case <-time.After(5 * time.Second):
				r.Mismatch(c.ID, 0, "start-hang", "ends with its context", "did not", c.R)
				return
			}
		}
	}
	if started != c.Runs {
		r.Mismatch(c.ID, 0, "lease", c.Runs, started, c.R, fmt.Sprint(err))
		return
	}
	if g := vhGuard(5*time.Second, func() { el.IsLeader(); el.State() }); g != "" {
		r.Mismatch(c.ID, 0, "blocked-after-start", "", g, c.R)
		return
	}
	if c.Watch {
		gap := func() time.Duration {
			mu.Lock()
			defer mu.Unlock()
			if len(camps) < 2 {
				return 0
			}
			return camps[1].Sub(camps[0])
		}
		ttl := kv.ttl
		vhEventually(ttl+7*time.Second, func() bool { return gap() > 0 })
		if g := gap(); g < 900*time.Millisecond || g > ttl-500*time.Millisecond {
			r.Mismatch(c.ID, 0, "renewal-interval", ttl.String(), g.String(), c.R)
		}
	}
	if started && g2(el) != "" {
		r.Mismatch(c.ID, 0, "stop", "returns", "hang", c.R)
	}
}

func g2(el interface{ Stop() }) string { return vhGuard(5*time.Second, el.Stop) }

func TestVerif(t *testing.T) {
	var in struct {
		Walks  []elCase  `json:"walks"`
		Leases []elLease `json:"leases"`
	}
	r := vhOpen(t, &in)
	defer r.Done()
	wg := sync.WaitGroup{}
	for _, c := range in.Leases {
		wg.Add(1)
		r.Case(c.ID)
		go func() { defer wg.Done(); elLeaseCase(r, c) }()
	}
	sem := make(chan struct{}, 1500)
	for _, c := range in.Walks {
		wg.Add(1)
		sem <- struct{}{}
		r.Case(c.ID)
		go func() { defer func() { <-sem; wg.Done() }(); elWalk(r, c) }()
	}
	wg.Wait()
}
