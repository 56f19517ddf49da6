package vh

// Replays the behaviours of Agents.tla into the real agent manager.

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/message"
	"github.com/choria-io/go-choria/protocol"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/choria-io/tokens"
	"github.com/nats-io/nats.go"
	"github.com/sirupsen/logrus"
)

type vhInst struct {
	K string `json:"k"`
	G int    `json:"g"`
}

type vhState struct {
	Mode  string            `json:"mode"`
	Known map[string]vhInst `json:"known"`
	Gen   int               `json:"gen"`
	Pend  []struct {
		N string `json:"n"`
		K string `json:"k"`
		G int    `json:"g"`
	} `json:"pend"`
	Up bool `json:"up"`
}

type vhCase struct {
	ID    string  `json:"id"`
	Init  vhState `json:"init"`
	Steps []struct {
		A struct {
			Op  string `json:"op"`
			N   string `json:"n"`
			K   string `json:"k"`
			W   string `json:"w"`
			Res string `json:"res"`
		} `json:"a"`
		S vhState `json:"s"`
	} `json:"steps"`
}

type vhConn struct {
	mu     sync.Mutex
	subs   map[string]string
	failAt int
	calls  int
}

func (c *vhConn) ConnectedServer() string          { return "nats://vh" }
func (c *vhConn) ConnectionOptions() nats.Options  { return nats.Options{} }
func (c *vhConn) ConnectionStats() nats.Statistics { return nats.Statistics{} }
func (c *vhConn) InboxPrefix() string              { return "vh" }
func (c *vhConn) AgentBroadcastTarget(coll, a string) string {
	return coll + ".broadcast.agent." + a
}
func (c *vhConn) ServiceBroadcastTarget(coll, a string) string {
	return coll + ".broadcast.service." + a
}
func (c *vhConn) QueueSubscribe(_ context.Context, name, subject, group string, out chan inter.ConnectorMessage) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.calls++
	if c.failAt > 0 && c.calls == c.failAt {
		return errors.New("simulated failure")
	}
	if _, ok := c.subs[name]; ok {
		c.subs[name] += " AGAIN"
		return nil
	}
	c.subs[name] = subject + "/" + group
	return nil
}
func (c *vhConn) Unsubscribe(name string) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.subs, name)
	return nil
}
func (c *vhConn) list() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	o := []string{}
	for _, s := range c.subs {
		o = append(o, s)
	}
	sort.Strings(o)
	return o
}

type vhTracker struct {
	mu      sync.Mutex
	handled []string // request id and instance
	running int
	cmd     map[string]chan string
}

type vhAgent struct {
	kind string
	gen  int
	tr   *vhTracker
	si   agents.ServerInfoSource
}

func (a *vhAgent) Name() string                            { return "vh" }
func (a *vhAgent) SetServerInfo(s agents.ServerInfoSource) { a.si = s }
func (a *vhAgent) ServerInfo() agents.ServerInfoSource     { return a.si }
func (a *vhAgent) ShouldActivate() bool                    { return a.kind != "idle" }
func (a *vhAgent) Metadata() *agents.Metadata {
	m := &agents.Metadata{Name: "vh", Timeout: 120, Version: "1.0.0", Service: a.kind == "service"}
	switch a.kind {
	case "quick":
		m.Timeout = 1
	case "zero":
		m.Timeout = 0
	case "anon":
		m.Name = ""
	}
	return m
}
func (a *vhAgent) HandleMessage(ctx context.Context, msg inter.Message, req protocol.Request, _ inter.ConnectorInfo, out chan *agents.AgentReply) {
	a.tr.mu.Lock()
	a.tr.handled = append(a.tr.handled, fmt.Sprintf("%s g%d", req.RequestID(), a.gen))
	a.tr.running++
	cmd := a.tr.cmd[req.RequestID()]
	a.tr.mu.Unlock()
	defer func() {
		a.tr.mu.Lock()
		a.tr.running--
		a.tr.mu.Unlock()
	}()
	how := <-cmd
	rep := &agents.AgentReply{Body: []byte("from g" + strconv.Itoa(a.gen)), Message: msg, Request: req}
	if how == "fail" {
		rep.Error = errors.New("agent error")
	}
	out <- rep
	if how == "twice" {
		select {
		case out <- &agents.AgentReply{Body: []byte("second"), Message: msg, Request: req}:
		case <-time.After(50 * time.Millisecond):
		}
	}
}

type vhPend struct {
	id   string
	gen  int
	done chan struct{}
}

func TestVerif(t *testing.T) {
	in := struct {
		Cases []vhCase `json:"cases"`
	}{}
	r := vhOpen(t, &in)
	dir := t.TempDir()
	lg := logrus.New()
	lg.Out = io.Discard
	logrus.SetOutput(io.Discard)
	k := vhNewRing(r, dir, "A", "caller")
	cfg := config.NewConfigForTests()
	cfg.Collectives = []string{"one", "two"}
	cfg.MainCollective = "one"
	cfg.Identity = "vh.example"
	cfg.LogLevel = "fatal"
	cfg.LogFile = "discard"
	cfg.DisableTLS = true
	cfg.Choria.SecurityProvider = "choria"
	cfg.Choria.ChoriaSecuritySeedFile = k.Seed("caller")
	cfg.Choria.ChoriaSecurityTokenFile = filepath.Join(dir, "c.jwt")
	cfg.Choria.ChoriaSecurityTrustedSigners = []string{k.Hex("A")}
	os.WriteFile(cfg.Choria.ChoriaSecurityTokenFile, []byte(k.Client("up=me", "caller", "A", "ok", &tokens.ClientPermissions{FleetManagement: true}, nil)), 0600)
	fw, err := choria.NewWithConfig(cfg)
	if err != nil {
		r.Error("framework: %v", err)
	}
	log := logrus.NewEntry(lg)

	run := func(c vhCase) {
		r.Case(c.ID)
		conn := &vhConn{subs: map[string]string{}}
		tr := &vhTracker{cmd: map[string]chan string{}}
		reqs := make(chan inter.ConnectorMessage, 10)
		var m *agents.Manager
		if c.Init.Mode == "svc" {
			m = agents.NewServices(reqs, fw, conn, nil, log)
		} else {
			m = agents.New(reqs, fw, conn, nil, log)
		}
		if c.Init.Mode == "deny" {
			m.DenyAgent("b")
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		replies := make(chan *agents.AgentReply, 100)
		pend := []*vhPend{}
		leftover := 0 // told to nobody
		nreq := 0
		cleanup := func() {
			tr.mu.Lock()
			defer tr.mu.Unlock()
			for _, ch := range tr.cmd {
				select {
				case ch <- "late":
				default:
				}
			}
		}
		defer cleanup()
		reply := func() *agents.AgentReply {
			select {
			case x := <-replies:
				return x
			case <-time.After(10 * time.Second):
				return nil
			}
		}
		describe := func(x *agents.AgentReply) string {
			if x == nil {
				return "no reply"
			}
			kind := "reply " + string(x.Body)
			if x.Error != nil {
				kind = "error"
			}
			if x.Message == nil || x.Request == nil || x.Message.RequestID() == "" {
				return kind + " without its request"
			}
			return kind + " for " + x.Request.RequestID()
		}

		for n, s := range c.Steps {
			r.Step()
			got, exp := "", ""
			bad := vhGuard(25*time.Second, func() {
				exp = s.A.Res
				conn.mu.Lock()
				conn.calls, conn.failAt = 0, 0
				conn.mu.Unlock()
				res := func(err error) string {
					if err != nil {
						return "error"
					}
					return "ok"
				}
				switch s.A.Op {
				case "register":
					conn.failAt, _ = strconv.Atoi(s.A.W)
					got = res(m.RegisterAgent(ctx, s.A.N, &vhAgent{kind: s.A.K, gen: s.S.Gen, tr: tr}, conn))
				case "unregister":
					got = res(m.UnregisterAgent(s.A.N, conn))
				case "replace":
					got = res(m.ReplaceAgent(s.A.N, &vhAgent{kind: s.A.K, gen: s.S.Gen, tr: tr}))
				case "dispatch":
					id := fmt.Sprintf("%032x", nreq)
					nreq++
					req, err := v2.NewRequest(s.A.N, "vh.example", "up=me", 60, id, "one")
					if err != nil {
						r.Error("%v", err)
					}
					req.SetMessage([]byte("hello"))
					msg, err := message.NewMessageFromRequest(req, "reply", fw)
					if err != nil {
						r.Error("%v", err)
					}
					tr.mu.Lock()
					tr.cmd[id] = make(chan string, 2)
					before := len(tr.handled)
					tr.mu.Unlock()
					wg := &sync.WaitGroup{}
					wg.Add(1)
					p := &vhPend{id: id, done: make(chan struct{})}
					go m.Dispatch(ctx, wg, replies, msg, req)
					go func() { wg.Wait(); close(p.done) }()
					if exp == "nothing" {
						select {
						case <-p.done:
							got = "nothing"
						case <-time.After(10 * time.Second):
							got = "still waiting"
						}
						tr.mu.Lock()
						if len(tr.handled) != before {
							got = "handled " + tr.handled[len(tr.handled)-1]
						}
						tr.mu.Unlock()
						break
					}
					p.gen = s.S.Pend[len(s.S.Pend)-1].G
					pend = append(pend, p)
					vhEventually(10*time.Second, func() bool { tr.mu.Lock(); defer tr.mu.Unlock(); return len(tr.handled) > before })
					tr.mu.Lock()
					exp = fmt.Sprintf("%s g%d", id, p.gen)
					got = strings.Join(tr.handled[before:], ",")
					tr.mu.Unlock()
				case "answer", "timeout":
					i, _ := strconv.Atoi(s.A.N)
					p := pend[i-1]
					pend = append(pend[:i-1:i-1], pend[i:]...)
					if s.A.Op == "answer" {
						tr.mu.Lock()
						ch := tr.cmd[p.id]
						tr.mu.Unlock()
						ch <- s.A.W
						exp = fmt.Sprintf("reply from g%d for %s", p.gen, p.id)
						if s.A.W == "fail" {
							exp = "error for " + p.id
						}
						if s.A.K == "quick" {
							// it may have run out of time meanwhile on a busy machine
							x := reply()
							got = describe(x)
							if x != nil && x.Error != nil && x.Error.Error() != "agent error" {
								exp = "error for " + p.id
							}
						} else {
							got = describe(reply())
						}
					} else {
						exp = "error for " + p.id
						got = describe(reply())
						leftover++
						tr.mu.Lock()
						tr.cmd[p.id] <- "reply"
						tr.mu.Unlock()
					}
					select {
					case <-p.done:
					case <-time.After(10 * time.Second):
						got += ", dispatch still waiting"
					}
				case "shutdown":
					// replies to other requests that were not sent yet
					other := &agents.AgentReply{Error: fmt.Errorf("other")}
					replies <- other
					cancel()
					want, have := []string{}, []string{}
					for _, p := range pend {
						select {
						case <-p.done:
						case <-time.After(10 * time.Second):
							have = append(have, "dispatch still waiting")
						}
					}
					if reply() != other {
						have = append(have, "order of replies")
					}
					for _, p := range pend {
						want = append(want, "error for "+p.id)
						have = append(have, describe(reply()))
						tr.mu.Lock()
						tr.cmd[p.id] <- "reply"
						tr.mu.Unlock()
					}
					sort.Strings(want)
					sort.Strings(have)
					pend = nil
					exp, got = strings.Join(want, ","), strings.Join(have, ",")
				}
			})
			if bad != "" {
				r.Mismatch(c.ID, n, "hang", s.A, bad)
				return
			}
			if got != exp {
				r.Mismatch(c.ID, n, s.A.Op, exp, got, s.A)
				return
			}
			r.Count(s.A.Op)
			if len(replies) != 0 {
				r.Mismatch(c.ID, n, "extra-reply", "no other reply", describe(<-replies), s.A)
				return
			}
			known, subs := []string{}, []string{}
			for nm, i := range s.S.Known {
				_, found := m.Get(nm)
				if found != (i.G > 0) {
					r.Mismatch(c.ID, n, "get", i, found, s.A)
					return
				}
				if i.G == 0 {
					continue
				}
				known = append(known, nm)
				for _, coll := range []string{"one", "two"} {
					if i.K == "service" {
						subs = append(subs, coll+".broadcast.service."+nm+"/"+nm)
					} else {
						subs = append(subs, coll+".broadcast.agent."+nm+"/")
					}
				}
			}
			sort.Strings(known)
			sort.Strings(subs)
			if !vhSame(known, m.KnownAgents()) {
				r.Mismatch(c.ID, n, "known", known, m.KnownAgents(), s.A)
				return
			}
			if !vhSame(subs, conn.list()) {
				r.Mismatch(c.ID, n, "subscriptions", subs, conn.list(), s.A)
				return
			}
		}
		// whatever was left is finished, agents that answer are not left behind
		for _, p := range pend {
			tr.mu.Lock()
			ch := tr.cmd[p.id]
			tr.mu.Unlock()
			ch <- "reply"
			if x := describe(reply()); x != fmt.Sprintf("reply from g%d for %s", p.gen, p.id) && !strings.HasPrefix(x, "error for") && !strings.HasPrefix(x, "reply from") {
				r.Mismatch(c.ID, len(c.Steps), "final", "a reply", x)
				return
			}
		}
		cleanup()
		if !vhEventually(10*time.Second, func() bool { tr.mu.Lock(); defer tr.mu.Unlock(); return tr.running == 0 }) {
			tr.mu.Lock()
			r.Mismatch(c.ID, len(c.Steps), "agents-left-running", 0, tr.running)
			tr.mu.Unlock()
			return
		}
		if len(replies) != 0 {
			r.Mismatch(c.ID, len(c.Steps), "late-reply", "no other reply", describe(<-replies))
		}
	}

	work := make(chan vhCase)
	wg := sync.WaitGroup{}
	for i := 0; i < 8*runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range work {
				run(c)
			}
		}()
	}
	for _, c := range in.Cases {
		work <- c
	}
	close(work)
	wg.Wait()
	r.Done()
}
