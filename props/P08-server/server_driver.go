package vh

// Runs real server instances on a real NATS server and sends them the specification's messages.

import (
	"context"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/server"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/choria-io/tokens"
	natsd "github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats.go"
	"github.com/sirupsen/logrus"
)

type vhCase struct {
	ID string `json:"id"`
	R  struct {
		Wire   string `json:"wire"`
		Sig    string `json:"sig"`
		Verify bool   `json:"verify"`
		Filter string `json:"filter"`
		Age    string `json:"age"`
		TTL    int    `json:"ttl"`
		Agent  string `json:"agent"`
		Coll   string `json:"coll"`
		Path   string `json:"path"`
		Reply  string `json:"reply"`
		Fed    bool   `json:"fed"`
		Up     bool   `json:"up"`
	} `json:"r"`
	Ran int    `json:"ran"`
	Rep string `json:"rep"`
	Ctr struct {
		Total    int64 `json:"total"`
		Valid    int64 `json:"valid"`
		Invalid  int64 `json:"invalid"`
		Passed   int64 `json:"passed"`
		Filtered int64 `json:"filtered"`
		Expired  int64 `json:"expired"`
	} `json:"ctr"`
}

type vhSeen struct {
	mu      sync.Mutex
	handled map[string][]string // request id: agents that handled it
	replies map[string][]*nats.Msg
	other   []string
}

func (s *vhSeen) ran(id string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.handled[id])
}

type vhAgent struct {
	name string
	seen *vhSeen
	si   agents.ServerInfoSource
	done chan struct{}
}

func (a *vhAgent) Name() string                            { return a.name }
func (a *vhAgent) SetServerInfo(s agents.ServerInfoSource) { a.si = s }
func (a *vhAgent) ServerInfo() agents.ServerInfoSource     { return a.si }
func (a *vhAgent) ShouldActivate() bool                    { return true }
func (a *vhAgent) Metadata() *agents.Metadata {
	t := 10
	if a.name == "slow" || a.name == "late" {
		t = 1
	}
	return &agents.Metadata{Name: a.name, Timeout: t, Version: "1.0.0", License: "x", Author: "x", Description: "x", Service: a.name == "svc"}
}

func (a *vhAgent) HandleMessage(ctx context.Context, msg inter.Message, req protocol.Request, ci inter.ConnectorInfo, out chan *agents.AgentReply) {
	a.seen.mu.Lock()
	a.seen.handled[req.RequestID()] = append(a.seen.handled[req.RequestID()], a.name+" "+string(req.Message())+" "+req.CallerID()+" "+msg.Collective())
	a.seen.mu.Unlock()
	rep := &agents.AgentReply{Body: []byte("answer to " + req.RequestID()), Message: msg, Request: req}
	put := func() {
		select {
		case out <- rep:
		case <-a.done:
		}
	}
	switch a.name {
	case "live", "svc":
		put()
	case "twice":
		put()
		put()
	case "err":
		rep.Error = fmt.Errorf("failed")
		put()
	case "slow":
	case "late":
		time.Sleep(1500 * time.Millisecond)
		put()
	}
}

func vhFilter(f string) *protocol.Filter {
	o := protocol.NewFilter()
	add := func(k string) {
		switch k {
		case "idme":
			o.AddIdentityFilter("me.example")
		case "idother":
			o.AddIdentityFilter("other.example")
		case "ids":
			o.AddIdentityFilter("other.example")
			o.AddIdentityFilter("/^me\\./")
		case "agent":
			o.AddAgentFilter("live")
		case "noagent":
			o.AddAgentFilter("live")
			o.AddAgentFilter("ghost")
		case "class":
			o.AddClassFilter("role::web")
		case "noclass":
			o.AddClassFilter("role::db")
		case "fact":
			o.AddFactFilter("country", "==", "mt")
		case "nofact":
			o.AddFactFilter("country", "==", "de")
		case "factop":
			o.AddFactFilter("count", ">=", "10")
		case "nofactop":
			o.AddFactFilter("count", ">", "10")
		}
	}
	switch f {
	case "all":
		for _, k := range []string{"idme", "agent", "class", "fact", "factop"} {
			add(k)
		}
	case "allbutid":
		for _, k := range []string{"idother", "agent", "class", "fact"} {
			add(k)
		}
	case "allbutfact":
		for _, k := range []string{"idme", "agent", "class", "fact", "nofactop"} {
			add(k)
		}
	case "allbutclass":
		for _, k := range []string{"idme", "agent", "class", "noclass", "fact"} {
			add(k)
		}
	case "allbutagent":
		for _, k := range []string{"idme", "noagent", "class", "fact"} {
			add(k)
		}
	default:
		add(f)
	}
	return o
}

type vhRep struct {
	t protocol.TransportMessage
	r protocol.Reply
}

func vhReply(fw *choria.Framework, data []byte) (*vhRep, error) {
	t, err := fw.NewTransportFromJSON(data)
	if err != nil {
		return nil, err
	}
	q, err := fw.NewReplyFromTransportJSON(data, false)
	if err != nil {
		return nil, err
	}
	return &vhRep{t, q}, nil
}

func TestVerif(t *testing.T) {
	in := struct {
		Cases []vhCase `json:"cases"`
	}{}
	r := vhOpen(t, &in)
	dir := t.TempDir()
	logrus.SetOutput(io.Discard)
	k := vhNewRing(r, dir, "A", "X", "caller", "server", "stranger")
	put := func(name string, data string) string {
		f := filepath.Join(dir, name)
		if err := os.WriteFile(f, []byte(data), 0600); err != nil {
			r.Error("%v", err)
		}
		return f
	}
	facts := put("facts.json", `{"country":"mt","count":10}`)
	classes := put("classes.txt", "role::web\nbase\n")

	ns, err := natsd.NewServer(&natsd.Options{Host: "127.0.0.1", Port: -1, NoLog: true, NoSigs: true, ServerName: "vh"})
	if err != nil {
		r.Error("nats: %v", err)
	}
	go ns.Start()
	if !ns.ReadyForConnections(20 * time.Second) {
		r.Error("nats did not start")
	}
	defer ns.Shutdown()
	nc, err := nats.Connect(ns.ClientURL())
	if err != nil {
		r.Error("%v", err)
	}
	defer nc.Close()

	seen := &vhSeen{handled: map[string][]string{}, replies: map[string][]*nats.Msg{}}
	done := make(chan struct{})
	defer close(done)
	_, err = nc.Subscribe("reply.>", func(m *nats.Msg) {
		seen.mu.Lock()
		seen.replies[m.Subject[6:]] = append(seen.replies[m.Subject[6:]], m)
		seen.mu.Unlock()
	})
	if err != nil {
		r.Error("%v", err)
	}

	server.RegisterAdditionalAgent(func(ctx context.Context, mgr *agents.Manager, c inter.AgentConnector, l *logrus.Entry) error {
		for _, n := range []string{"live", "err", "slow", "twice", "late", "svc"} {
			if err := mgr.RegisterAgent(ctx, n, &vhAgent{name: n, seen: seen, done: done}, c); err != nil {
				return err
			}
		}
		return nil
	})

	type inst struct {
		srv  *server.Instance
		id   string
		wg   *sync.WaitGroup
		stop func()
	}
	newfw := func(id string, verify bool) *choria.Framework {
		cfg := config.NewConfigForTests()
		cfg.InitiatedByServer = true
		cfg.Identity = id
		cfg.DisableTLS = true
		cfg.LogLevel = "fatal"
		cfg.LogFile = "discard"
		cfg.Collectives = []string{"mcollective", "other"}
		cfg.MainCollective = "mcollective"
		cfg.RegisterInterval = 0
		cfg.FactSourceFile = facts
		cfg.ClassesFile = classes
		cfg.DisableSecurityProviderVerify = !verify
		cfg.Choria.MiddlewareHosts = []string{ns.ClientURL()}
		cfg.Choria.SecurityProvider = "choria"
		cfg.Choria.ChoriaSecuritySeedFile = k.Seed("server")
		cfg.Choria.ChoriaSecurityTokenFile = put("server-"+id+fmt.Sprint(verify)+".jwt", k.Server(id, "server", "A", "ok", nil))
		cfg.Choria.ChoriaSecurityTrustedSigners = []string{k.Hex("A")}
		fw, err := choria.NewWithConfig(cfg)
		if err != nil {
			r.Error("framework: %v", err)
		}
		return fw
	}
	// identities differ so that their counters do; the identity filters match all of them
	start := func(n string, verify bool) *inst {
		id := "me.example"
		fw := newfw(id, verify)
		srv, err := server.NewInstance(fw)
		if err != nil {
			r.Error("instance: %v", err)
		}
		ctx, cancel := context.WithCancel(context.Background())
		i := &inst{srv: srv, id: id, wg: &sync.WaitGroup{}, stop: cancel}
		i.wg.Add(1)
		if err := srv.Run(ctx, i.wg); err != nil {
			r.Error("run: %v", err)
		}
		return i
	}

	tok := map[string]string{}
	for n, f := range map[string]func() string{
		"ok": func() string {
			return k.Client("up=me", "caller", "A", "ok", &tokens.ClientPermissions{FleetManagement: true}, nil)
		},
		"expired": func() string {
			return k.Client("up=me", "caller", "A", "expired", &tokens.ClientPermissions{FleetManagement: true}, nil)
		},
		"foreign": func() string {
			return k.Client("up=me", "caller", "X", "ok", &tokens.ClientPermissions{FleetManagement: true}, nil)
		},
		"nofleet": func() string { return k.Client("up=me", "caller", "A", "ok", &tokens.ClientPermissions{}, nil) },
	} {
		tok[n] = f()
	}

	now := func() int64 { return time.Now().UnixNano() }
	wire := func(c *vhCase, id string) []byte {
		caller := "up=me"
		if c.R.Sig == "name" {
			caller = "up=other"
		}
		req, err := v2.NewRequest(c.R.Agent, "client.example", caller, c.R.TTL, id, c.R.Coll)
		if err != nil {
			r.Error("%v", err)
		}
		req.SetMessage([]byte("body " + id))
		req.SetFilter(vhFilter(c.R.Filter))
		j, err := req.JSON()
		if err != nil {
			r.Error("%v", err)
		}
		m := map[string]any{}
		json.Unmarshal(j, &m)
		const slack = 2
		ttl := int64(c.R.TTL)
		off := map[string]int64{"fresh": 0, "nearold": -(ttl - slack), "old": -(ttl + slack), "ancient": -1000000, "nearfuture": ttl - slack, "future": ttl + slack}
		if c.R.Age == "zerotime" {
			m["time"] = 1
		} else {
			m["time"] = now() + off[c.R.Age]*int64(time.Second)
		}
		if c.R.Wire == "badinner" {
			m["protocol"] = "io.choria.protocol.v2.reply"
		}
		j, _ = json.Marshal(m)
		sig := ed25519.Sign(k.pri["caller"], j)
		body := j
		t := "ok"
		switch c.R.Sig {
		case "forged":
			sig = ed25519.Sign(k.pri["stranger"], j)
		case "altered":
			m["message"] = base64.StdEncoding.EncodeToString([]byte("body of evil"))
			body, _ = json.Marshal(m)
		case "missing":
			sig = []byte("insecure")
		case "expired", "foreign", "nofleet":
			t = c.R.Sig
		}
		s := map[string]any{"protocol": "io.choria.protocol.v2.secure_request", "request": body, "signature": sig, "caller": tok[t]}
		switch c.R.Wire {
		case "replykind":
			s = map[string]any{"protocol": "io.choria.protocol.v2.secure_reply", "reply": body, "hash": sig}
		case "badsecure":
			s["request"] = 1
		}
		sj, _ := json.Marshal(s)
		h := map[string]any{"sender": "client.example"}
		if c.R.Reply == "set" {
			h["reply"] = "reply." + id
		}
		if c.R.Fed {
			h["federation"] = map[string]any{"request": "fed" + id, "reply": "origin." + id}
		}
		p := "io.choria.protocol.v2.transport"
		if c.R.Wire == "otherproto" {
			p = "io.choria.protocol.v9.transport"
		}
		w, _ := json.Marshal(map[string]any{"protocol": p, "data": sj, "headers": h})
		switch c.R.Wire {
		case "garbage":
			w = []byte("\x01garbage{")
		case "empty":
			w = []byte{}
		case "null":
			w = []byte("null")
		}
		return w
	}

	client := newfw("client.example", true)
	total := 0
	run := func(i *inst, cases []vhCase, batch int) {
		for at := 0; at < len(cases); at += batch {
			end := min(at+batch, len(cases))
			b := cases[at:end]
			ids := make([]string, len(b))
			before := i.srv.Stats()
			sentAt := make([]time.Time, len(b))
			msgs := make([][]byte, len(b))
			for n := range b {
				r.Case(b[n].ID)
				r.Step()
				ids[n] = fmt.Sprintf("%032x", total)
				total++
				msgs[n] = wire(&b[n], ids[n])
			}
			var want, got [6]int64
			for n := range b {
				c := &b[n]
				coll := c.R.Coll
				if coll == "foreign" {
					coll = "mcollective"
				}
				subj := coll + ".node." + i.id
				if c.R.Path == "agent" {
					subj = coll + ".broadcast.agent." + c.R.Agent
				}
				if err := nc.Publish(subj, msgs[n]); err != nil {
					r.Error("%v", err)
				}
				sentAt[n] = time.Now()
				for x, v := range []int64{c.Ctr.Total, c.Ctr.Valid, c.Ctr.Invalid, c.Ctr.Passed, c.Ctr.Filtered, c.Ctr.Expired} {
					want[x] += v
				}
			}
			nc.Flush()
			read := func() {
				s := i.srv.Stats()
				got = [6]int64{s.Total - before.Total, s.Valid - before.Valid, s.Invalid - before.Invalid, s.Passed - before.Passed, s.Filtered - before.Filtered, s.TTLExpired - before.TTLExpired}
			}
			vhEventually(5*time.Second, func() bool { read(); return got == want })
			// replies and late doings
			needWait := false
			for n := range b {
				c := &b[n]
				if c.Rep == "sent" {
					vhEventually(5*time.Second, func() bool { seen.mu.Lock(); defer seen.mu.Unlock(); return len(seen.replies[ids[n]]) > 0 })
				} else {
					needWait = true
				}
				if c.Ran > 0 {
					vhEventually(5*time.Second, func() bool { return seen.ran(ids[n]) > 0 })
					if c.R.Agent == "late" || c.R.Agent == "slow" {
						time.Sleep(time.Until(sentAt[n].Add(1800 * time.Millisecond)))
					}
				}
			}
			if needWait {
				time.Sleep(15 * time.Millisecond)
			}
			nc.Flush()
			read()
			if got != want {
				kind := "accounting"
				r.Mismatch(b[0].ID, 0, kind, want, got, "total valid invalid passed filtered expired", b)
			}
			seen.mu.Lock()
			for n := range b {
				c := &b[n]
				h := seen.handled[ids[n]]
				if len(h) != c.Ran {
					key := "handled"
					if len(h) > c.Ran {
						key = "acted"
					}
					r.Mismatch(c.ID, n, key, c.Ran, h, c.R)
					continue
				}
				if c.Ran == 1 {
					caller := "up=me"
					if c.R.Sig == "name" {
						caller = "up=other"
					}
					exp := c.R.Agent + " body " + ids[n] + " " + caller + " " + c.R.Coll
					if c.R.Sig == "altered" {
						exp = c.R.Agent + " body of evil up=me " + c.R.Coll
					}
					if h[0] != exp {
						r.Mismatch(c.ID, n, "handled-what", exp, h[0], c.R)
					}
				}
				rs := seen.replies[ids[n]]
				wantr := 0
				if c.Rep == "sent" {
					wantr = 1
				}
				if len(rs) != wantr {
					r.Mismatch(c.ID, n, "replies", wantr, len(rs), c.R)
					continue
				}
				r.Count(fmt.Sprintf("ran%d_%s", c.Ran, c.Rep))
				if wantr == 0 {
					continue
				}
				tr, err := vhReply(client, rs[0].Data)
				if err != nil {
					r.Mismatch(c.ID, n, "reply", "a reply", err.Error(), string(rs[0].Data))
					continue
				}
				fid, _ := tr.t.FederationRequestID()
				frep, _ := tr.t.FederationReplyTo()
				g := map[string]any{"id": tr.r.RequestID(), "agent": tr.r.Agent(), "sender": tr.r.SenderID(), "body": string(tr.r.Message()), "fed": tr.t.IsFederated(), "fedid": fid, "fedreply": frep}
				w := map[string]any{"id": ids[n], "agent": c.R.Agent, "sender": "me.example", "body": "answer to " + ids[n], "fed": c.R.Fed, "fedid": "", "fedreply": ""}
				if c.R.Fed {
					w["fedid"], w["fedreply"] = "fed"+ids[n], "origin."+ids[n]
				}
				if !vhSame(g, w) {
					r.Mismatch(c.ID, n, "reply-content", w, g, c.R)
				}
			}
			seen.mu.Unlock()
		}
	}

	// both kinds of server share an identity and so its counters, they run one after the other
	for _, verify := range []bool{true, false} {
		var up, down []vhCase
		for _, c := range in.Cases {
			if c.R.Verify == verify && c.R.Up {
				up = append(up, c)
			} else if c.R.Verify == verify {
				down = append(down, c)
			}
		}
		i := start("a", verify)
		run(i, up[:len(up)/2], 1)
		run(i, up[len(up)/2:], 6)
		// an agent that is being waited for must not hold up others: slow ones first
		if verify {
			if err := i.srv.PrepareForShutdown(); err != nil {
				r.Mismatch("shutdown", 0, "prepare", nil, err.Error())
			}
			vhEventually(5*time.Second, func() bool { return !i.srv.Connector().IsConnected() })
			run(i, down, 4)
		}
		i.stop()
		fin := make(chan struct{})
		go func() { i.wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(20 * time.Second):
			r.Mismatch("shutdown", 0, "stops", "a stopped server", "still running")
		}
	}
	_ = ed25519.PublicKeySize
	r.Done()
}
