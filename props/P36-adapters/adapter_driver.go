package vh

// Replays walks of Adapter.tla and the table of Settings.tla against the real data adapters, between two stand-in networks.

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/broker/adapter"
	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/srvcache"
	"github.com/choria-io/tokens"
)

type adCfg struct {
	Ver   string `json:"ver"`
	Proto string `json:"proto"`
	Topic string `json:"topic"`
	IW    int    `json:"iw"`
	SW    int    `json:"sw"`
	Q     int    `json:"q"`
}
type adMsg struct {
	I int    `json:"i"`
	K string `json:"k"`
	S string `json:"s"`
}
type adState struct {
	Cfg  map[string]adCfg   `json:"cfg"`
	Hand map[string][]adMsg `json:"hand"`
}
type adIn struct {
	Cases []struct {
		ID    string  `json:"id"`
		Init  adState `json:"init"`
		Steps []struct {
			A struct {
				X    string             `json:"x"`
				A    string             `json:"a"`
				T    string             `json:"t"`
				K    string             `json:"k"`
				S    string             `json:"s"`
				I    int                `json:"i"`
				Fate map[string]string  `json:"fate"`
				Out  map[string][]adMsg `json:"out"`
			} `json:"a"`
			S adState `json:"s"`
		} `json:"steps"`
	} `json:"cases"`
	Rows []struct {
		ID string            `json:"id"`
		R  map[string]string `json:"r"`
		OK bool              `json:"ok"`
		IW int               `json:"iw"`
		P  string            `json:"proto"`
	} `json:"rows"`
}

// adRaw tells when it is looked at: a worker that looks at a message is done with the one before
type adRaw struct {
	subj string
	d    []byte
	once sync.Once
	seen chan struct{}
}

func (m *adRaw) Subject() string { return m.subj }
func (m *adRaw) Reply() string   { return "" }
func (m *adRaw) Data() []byte    { m.once.Do(func() { close(m.seen) }); return m.d }
func (m *adRaw) Msg() any        { return nil }

type adPub struct {
	target string
	data   []byte
}
type adNet struct {
	mu     sync.Mutex
	subs   map[string]map[string][]chan inter.ConnectorMessage // topic, group
	pubs   []adPub
	held   map[string]int
	shut   map[string]chan struct{}
	fail   map[string]bool
	conns  int
	closed int
	to     map[string]int // connections per set of servers
	turn   int
}

type adConn struct {
	inter.Connector
	n    *adNet
	once sync.Once
}

func (c *adConn) Close() {
	c.once.Do(func() { c.n.mu.Lock(); c.n.closed++; c.n.mu.Unlock() })
}
func (c *adConn) ConnectedServer() string { return "nats://in:4222" }
func (c *adConn) ChanQueueSubscribe(name string, subject string, group string, capacity int) (chan inter.ConnectorMessage, error) {
	ch := make(chan inter.ConnectorMessage, capacity)
	c.n.mu.Lock()
	defer c.n.mu.Unlock()
	if c.n.subs[subject] == nil {
		c.n.subs[subject] = map[string][]chan inter.ConnectorMessage{}
	}
	c.n.subs[subject][group] = append(c.n.subs[subject][group], ch)
	return ch, nil
}

// targets start with the name of the adapter
func (c *adConn) PublishRaw(target string, data []byte) error {
	who, _, _ := strings.Cut(target, ".")
	n := c.n
	n.mu.Lock()
	gate := n.shut[who]
	if n.fail[who] {
		delete(n.fail, who)
		n.mu.Unlock()
		return fmt.Errorf("simulated publish failure")
	}
	if gate != nil {
		n.held[who]++
		n.mu.Unlock()
		<-gate
		n.mu.Lock()
		n.held[who]--
	}
	n.pubs = append(n.pubs, adPub{target, append([]byte{}, data...)})
	n.mu.Unlock()
	return nil
}

type adFw struct {
	*choria.Framework
	n   *adNet
	cfg *config.Config
}

func (f *adFw) Configuration() *config.Config { return f.cfg }
func (f *adFw) MiddlewareServers() (srvcache.Servers, error) {
	return srvcache.StringHostsToServers([]string{"in:4222"}, "nats")
}
func (f *adFw) NewConnector(ctx context.Context, servers func() (srvcache.Servers, error), name string, log *logrus.Entry) (inter.Connector, error) {
	to, err := servers()
	if err != nil {
		return nil, err
	}
	f.n.mu.Lock()
	f.n.conns++
	f.n.to[strings.Join(to.Strings(), " ")]++
	f.n.mu.Unlock()
	return &adConn{n: f.n}, nil
}

func adNewNet() *adNet {
	return &adNet{subs: map[string]map[string][]chan inter.ConnectorMessage{}, held: map[string]int{}, shut: map[string]chan struct{}{}, fail: map[string]bool{}, to: map[string]int{}}
}

// send gives a message to one member of each queue group, and then waits until each of them is done with it
func (n *adNet) send(topic string, data []byte) bool {
	n.mu.Lock()
	var to []chan inter.ConnectorMessage
	for _, l := range n.subs[topic] {
		to = append(to, l[n.turn%len(l)])
	}
	n.turn++
	n.mu.Unlock()
	wait := []*adRaw{}
	for _, ch := range to {
		ch <- &adRaw{subj: topic, d: data, seen: make(chan struct{})}
		m := &adRaw{subj: topic, d: []byte("barrier"), seen: make(chan struct{})}
		ch <- m
		wait = append(wait, m)
	}
	for _, m := range wait {
		select {
		case <-m.seen:
		case <-time.After(20 * time.Second):
			return false
		}
	}
	return true
}

func (n *adNet) taken() []adPub {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]adPub{}, n.pubs...)
}

type adMaker struct {
	r   *vhReporter
	fws map[string]*choria.Framework
}

func adBody(i int, k string) string {
	return fmt.Sprintf("{\"n\": %d,\n \"k\": \"%s\", \"u\": \"\u00e9 <&> \\u2028\", \"e\": \"\", \"l\": [1.50, null]}", i, k)
}

// make is the message of a kind: what goes over the wire, and when it says it was made
func (m *adMaker) make(k string, s string, i int) ([]byte, time.Time) {
	r := m.r
	switch k {
	case "garbage":
		return []byte("{\"protocol\": \"choria:transport:1\", garbage"), time.Time{}
	case "empty":
		return []byte{}, time.Time{}
	}
	ver, rver, caller := "v1", protocol.RequestV1, "choria=me.mcollective"
	if strings.HasSuffix(k, "2") {
		ver, rver, caller = "v2", protocol.RequestV2, "up=me"
	}
	fw := m.fws[ver]
	req, err := fw.NewRequest(rver, "registration", s, caller, 60, fmt.Sprintf("%032x", i), "mcollective")
	if err != nil {
		r.Error("%v", err)
	}
	req.SetMessage([]byte(adBody(i, k)))
	when := req.Time()
	var tr protocol.TransportMessage
	if strings.HasPrefix(k, "rep") {
		fw.Configuration().Identity = s
		rep, err := fw.NewReply(req)
		if err != nil {
			r.Error("%v", err)
		}
		rep.SetMessage([]byte(adBody(i, k)))
		when = rep.Time()
		sr, err := fw.NewSecureReply(rep)
		if err != nil {
			r.Error("%v", err)
		}
		tr, err = fw.NewTransportForSecureReply(sr)
		if err != nil {
			r.Error("%v", err)
		}
	} else {
		sr, err := fw.NewSecureRequest(context.Background(), req)
		if err != nil {
			r.Error("%v", err)
		}
		if k == "secure" {
			j, err := sr.JSON()
			if err != nil {
				r.Error("%v", err)
			}
			return j, when
		}
		tr, err = fw.NewTransportForSecureRequest(sr)
		if err != nil {
			r.Error("%v", err)
		}
	}
	j, err := tr.JSON()
	if err != nil {
		r.Error("%v", err)
	}
	if k == "hollow" {
		o := map[string]any{}
		json.Unmarshal(j, &o)
		o["data"] = base64.StdEncoding.EncodeToString([]byte("{}"))
		j, _ = json.Marshal(o)
	}
	return j, when
}

func adShow(j []byte) string {
	o := map[string]any{}
	json.Unmarshal(j, &o)
	res, _ := json.Marshal(o)
	return string(res)
}

func adWant(target string, body string, sender string, when time.Time, rid string) string {
	j, _ := json.Marshal(map[string]any{"protocol": "choria:adapters:choria_streams:output:1", "data": body, "sender": sender, "time": when.UTC(), "requestid": rid})
	return target + " " + adShow(j)
}

func TestVerif(t *testing.T) {
	in := adIn{}
	r := vhOpen(t, &in)
	defer r.Done()
	logrus.SetOutput(io.Discard)
	dir := t.TempDir()
	k := vhNewRing(r, dir, "A", "caller")
	ca := vhNewCA(r, dir, "ca")
	put := func(name string, data []byte) string {
		f := filepath.Join(dir, name)
		if err := os.WriteFile(f, data, 0600); err != nil {
			r.Error("%v", err)
		}
		return f
	}
	leaf := ca.Leaf(r, vhCertSpec{CN: "me.mcollective", SANs: []string{"me.mcollective"}})
	newfw := func(ver string) *choria.Framework {
		cfg := config.NewConfigForTests()
		cfg.Collectives, cfg.MainCollective, cfg.LogLevel, cfg.LogFile = []string{"mcollective"}, "mcollective", "fatal", "discard"
		cfg.Identity = "broker.example"
		if ver == "v1" {
			cfg.Choria.SecurityProvider = "file"
			cfg.Choria.CertnameAllowList = []string{`\.mcollective$`}
			cfg.Choria.FileSecurityCertificate = put("me.pem", leaf.cert)
			cfg.Choria.FileSecurityKey = put("me.key", leaf.key)
			cfg.Choria.FileSecurityCA = ca.file
			cfg.SetOption("plugin.security.file.identity", "me.mcollective")
		} else {
			cfg.Choria.SecurityProvider = "choria"
			cfg.DisableSecurityProviderVerify = true
			cfg.Choria.ChoriaSecuritySeedFile = k.Seed("caller")
			cfg.Choria.ChoriaSecurityTokenFile = put("caller.jwt", []byte(k.Client("up=me", "caller", "A", "ok", &tokens.ClientPermissions{FleetManagement: true}, nil)))
			cfg.Choria.ChoriaSecurityTrustedSigners = []string{k.Hex("A")}
		}
		fw, err := choria.NewWithConfig(cfg)
		if err != nil {
			r.Error("framework %s: %v", ver, err)
		}
		return fw
	}
	mk := &adMaker{r, map[string]*choria.Framework{"v1": newfw("v1"), "v2": newfw("v2")}}
	// a broker reads messages of its own security system only
	brokers := []*choria.Framework{newfw("v1"), newfw("v2")}

	// run starts adapters, and gives what stops them
	run := func(id string, idx int, n *adNet, names []string, opts map[string]string) (func() string, error) {
		fw := brokers[idx%2]
		cfg := config.NewConfigForTests()
		cfg.Identity = "broker.example"
		cfg.Choria.BrokerAdapters = names
		for o, v := range opts {
			cfg.SetOption(o, v)
		}
		ctx, cancel := context.WithCancel(context.Background())
		wg := &sync.WaitGroup{}
		err := adapter.RunAdapters(ctx, &adFw{fw, n, cfg}, wg)
		return func() string {
			cancel()
			g := vhGuard(20*time.Second, wg.Wait)
			if g != "" {
				return "adapters do not stop: " + g
			}
			n.mu.Lock()
			defer n.mu.Unlock()
			if err == nil && n.closed != n.conns {
				return fmt.Sprintf("%d of %d connections closed", n.closed, n.conns)
			}
			return ""
		}, err
	}

	for ri, row := range in.Rows {
		r.Case(row.ID)
		r.Step()
		n := adNewNet()
		name := fmt.Sprintf("r%d", ri)
		opts := map[string]string{}
		set := func(o string, v string) {
			if v != "" {
				opts["plugin.choria.adapter."+name+"."+o] = v
			}
		}
		out := row.R["out"]
		if out != "" {
			out = name + ".out"
		}
		set("type", row.R["type"])
		set("queue_len", row.R["qlen"])
		set("ingest.workers", row.R["iw"])
		set("ingest.topic", row.R["topic"])
		set("ingest.protocol", row.R["proto"])
		set("stream.workers", row.R["sw"])
		set("stream.topic", out)
		if ri%2 == 0 {
			set("stream.servers", "one:4222,nats://two:4222")
		}
		stop, err := run(row.ID, ri, n, []string{name}, opts)
		if (err == nil) != row.OK {
			stop()
			r.Mismatch(row.ID, 0, "settings", row.OK, fmt.Sprint(err), row.R)
			continue
		}
		if err != nil {
			stop()
			continue
		}
		if len(n.subs["in.>"]) != 1 || len(n.subs) != 1 {
			r.Mismatch(row.ID, 0, "subscriptions", "one queue group on in.>", fmt.Sprint(n.subs), row.R)
			stop()
			continue
		}
		for g, l := range n.subs["in.>"] {
			if g == "" || len(l) != row.IW {
				r.Mismatch(row.ID, 0, "workers", row.IW, fmt.Sprint(g, len(l)), row.R)
			}
		}
		sw := map[string]int{"": 10, "1": 1}[row.R["sw"]]
		to := map[string]int{"nats://in:4222": row.IW}
		if ri%2 == 0 {
			to["nats://one:4222 nats://two:4222"] = sw
		} else {
			to["nats://in:4222"] += sw
		}
		if !vhSame(to, n.to) {
			r.Mismatch(row.ID, 0, "connections", to, n.to, row.R)
		}
		want := []string{}
		for i, kind := range []string{"req1", "rep2", "req2", "rep1", "rep2", "rep1", "req1", "req2"} {
			wire, when := mk.make(kind, "n1.example", i)
			n.send("in.>", wire)
			if strings.HasSuffix(kind, []string{"1", "2"}[ri%2]) && (row.P == "request") == strings.HasPrefix(kind, "req") {
				target := name
				if out != "" {
					target = out
				}
				want = append(want, adWant(target, adBody(i, kind), "n1.example", when, fmt.Sprintf("%032x", i)))
			}
		}
		got := func() []string {
			res := []string{}
			for _, p := range n.taken() {
				res = append(res, p.target+" "+adShow(p.data))
			}
			sort.Strings(res)
			return res
		}
		sort.Strings(want)
		if !vhEventually(10*time.Second, func() bool { return vhSame(got(), want) }) {
			r.Mismatch(row.ID, 0, "default-messages", want, got(), row.R)
		}
		if s := stop(); s != "" {
			r.Mismatch(row.ID, 0, "stop", "", s, row.R)
		}
	}

	for ci, c := range in.Cases {
		r.Case(c.ID)
		n := adNewNet()
		opts := map[string]string{}
		names := map[string]string{"a": fmt.Sprintf("a%d", ci), "b": fmt.Sprintf("b%d", ci)}
		for x, name := range names {
			o := c.Init.Cfg[x]
			p := "plugin.choria.adapter." + name + "."
			opts[p+"type"] = []string{"jetstream", "choria_streams"}[ci%2]
			opts[p+"queue_len"] = fmt.Sprint(o.Q)
			opts[p+"ingest.topic"] = o.Topic
			opts[p+"ingest.protocol"] = o.Proto
			opts[p+"ingest.workers"] = fmt.Sprint(o.IW)
			opts[p+"stream.workers"] = fmt.Sprint(o.SW)
			opts[p+"stream.topic"] = name + ".reg.%s.in"
		}
		stop, err := run(c.ID, map[string]int{"1": 0, "2": 1}[c.Init.Cfg["a"].Ver], n, []string{names["a"], names["b"]}, opts)
		if err != nil {
			stop()
			r.Mismatch(c.ID, 0, "start", "two adapters", err.Error(), c.Init.Cfg)
			continue
		}
		want := map[string][]string{}
		made := map[int]time.Time{}
		open := func(name string) {
			n.mu.Lock()
			if g := n.shut[name]; g != nil {
				close(g)
				delete(n.shut, name)
			}
			n.mu.Unlock()
		}
		got := func(name string) []string {
			res := []string{}
			for _, p := range n.taken() {
				if strings.HasPrefix(p.target, name+".") {
					res = append(res, p.target+" "+adShow(p.data))
				}
			}
			return res
		}
		same := func(x string) bool {
			g, w := got(names[x]), append([]string{}, want[x]...)
			if c.Init.Cfg[x].SW > 1 {
				sort.Strings(g)
				sort.Strings(w)
			}
			return vhSame(g, w)
		}
		stopped := false
		ok := true
		for i, s := range c.Steps {
			r.Step()
			switch s.A.X {
			case "send":
				wire, when := mk.make(s.A.K, s.A.S, s.A.I)
				made[s.A.I] = when
				if !n.send(s.A.T, wire) {
					r.Mismatch(c.ID, i, "receive", "a worker takes the message", "none does", s.A)
					ok = false
				}
			case "shut":
				n.mu.Lock()
				n.shut[names[s.A.A]] = make(chan struct{})
				n.mu.Unlock()
			case "open":
				open(names[s.A.A])
			case "fail":
				n.mu.Lock()
				n.fail[names[s.A.A]] = true
				n.mu.Unlock()
			case "stop":
				if x := stop(); x != "" {
					r.Mismatch(c.ID, i, "stop", "", x)
					ok = false
				}
				stopped = true
			}
			if !ok {
				break
			}
			for x, l := range s.A.Out {
				for _, m := range l {
					want[x] = append(want[x], adWant(names[x]+".reg."+m.S+".in", adBody(m.I, m.K), m.S, made[m.I], fmt.Sprintf("%032x", m.I)))
				}
			}
			settled := func() bool {
				n.mu.Lock()
				for x, f := range s.A.Fate {
					if f == "refused" && n.fail[names[x]] || n.held[names[x]] != len(s.S.Hand[x]) {
						n.mu.Unlock()
						return false
					}
				}
				n.mu.Unlock()
				return same("a") && same("b")
			}
			if !vhEventually(10*time.Second, settled) {
				r.Mismatch(c.ID, i, s.A.X+"-published", want, map[string]any{"a": got(names["a"]), "b": got(names["b"]), "held": n.held}, s.A)
				ok = false
				break
			}
		}
		open(names["a"])
		open(names["b"])
		if !stopped {
			if x := stop(); x != "" && ok {
				r.Mismatch(c.ID, len(c.Steps), "stop", "", x)
			}
		} else if ok {
			time.Sleep(2 * time.Millisecond)
			if !same("a") || !same("b") {
				r.Mismatch(c.ID, len(c.Steps), "after-stop", want, map[string]any{"a": got(names["a"]), "b": got(names["b"])})
			}
		}
	}
}
