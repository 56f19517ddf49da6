package vh

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/broker/federation"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"
	v1 "github.com/choria-io/go-choria/protocol/v1"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/srvcache"
)

type vhIn struct {
	Cases []vhCase `json:"cases"`
	Burst int      `json:"burst"`
}
type vhCase struct {
	ID   string `json:"id"`
	Kind string `json:"kind"`
	R    vhRow  `json:"r"`
	Out  struct {
		To       []string `json:"to"`
		Side     string   `json:"side"`
		Fed      bool     `json:"fed"`
		Reply    string   `json:"reply"`
		FedReply string   `json:"fedreply"`
		Hops     int      `json:"hops"`
	} `json:"out"`
	Steps []struct {
		A struct {
			X    string      `json:"x"`
			Q    string      `json:"q"`
			T    []string    `json:"t"`
			From [][2]string `json:"from"`
			K    string      `json:"k"`
		} `json:"a"`
	} `json:"steps"`
}
type vhRow struct {
	Dir      string   `json:"dir"`
	Ver      int      `json:"ver"`
	Fed      bool     `json:"fed"`
	Targets  []string `json:"targets"`
	Reply    string   `json:"reply"`
	FedReply string   `json:"fedreply"`
	Hops     int      `json:"hops"`
	Fail     []int    `json:"fail"`
	Body     string   `json:"body"`
}

type vhMsg struct {
	subj string
	d    []byte
}

func (m *vhMsg) Subject() string { return m.subj }
func (m *vhMsg) Reply() string   { return "" }
func (m *vhMsg) Data() []byte    { return m.d }
func (m *vhMsg) Msg() any        { return nil }

type vhPub struct {
	side, target string
	data         []byte
}
type vhSub struct {
	owner int
	group string
	ch    chan inter.ConnectorMessage
}

// vhBus is the two networks the brokers sit between
type vhBus struct {
	mu    sync.Mutex
	subs  map[string][]*vhSub // side + subject
	pubs  []vhPub
	fails map[string]bool
	rng   *rand.Rand
	seen  map[string]int
	gone  map[int]bool // owners that left the networks
}

func (b *vhBus) send(side string, subj string, data []byte) bool {
	b.mu.Lock()
	groups := map[string][]*vhSub{}
	for _, s := range b.subs[side+" "+subj] {
		groups[s.group] = append(groups[s.group], s)
	}
	var to []*vhSub
	for _, g := range groups {
		to = append(to, g[b.rng.Intn(len(g))])
	}
	b.mu.Unlock()
	for _, s := range to {
		s.ch <- &vhMsg{subj, data}
	}
	return len(to) > 0
}

func (b *vhBus) nsubs(side string, subj string) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.subs[side+" "+subj])
}

func (b *vhBus) owners(side string, subj string) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	o := map[int]bool{}
	for _, s := range b.subs[side+" "+subj] {
		o[s.owner] = true
	}
	return len(o)
}

func (b *vhBus) drop(owner int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.gone[owner] = true
	for k, l := range b.subs {
		n := []*vhSub{}
		for _, s := range l {
			if s.owner != owner {
				n = append(n, s)
			}
		}
		b.subs[k] = n
	}
}

type vhConn struct {
	inter.Connector
	b     *vhBus
	owner int
	side  string
}

func (c *vhConn) Close()                  {}
func (c *vhConn) ConnectedServer() string { return "nats://" + c.side + ":4222" }
func (c *vhConn) ChanQueueSubscribe(name string, subject string, group string, capacity int) (chan inter.ConnectorMessage, error) {
	ch := make(chan inter.ConnectorMessage, capacity)
	c.b.mu.Lock()
	defer c.b.mu.Unlock()
	k := c.side + " " + subject
	if c.b.gone[c.owner] {
		return ch, nil // a worker that was still starting
	}
	c.b.subs[k] = append(c.b.subs[k], &vhSub{c.owner, group, ch})
	return ch, nil
}
func (c *vhConn) QueueSubscribe(ctx context.Context, name string, subject string, group string, out chan inter.ConnectorMessage) error {
	ch, err := c.ChanQueueSubscribe(name, subject, group, 64)
	if err != nil {
		return err
	}
	go func() {
		for {
			select {
			case m := <-ch:
				out <- m
			case <-ctx.Done():
				return
			}
		}
	}()
	return nil
}
func (c *vhConn) PublishRaw(target string, data []byte) error {
	c.b.mu.Lock()
	defer c.b.mu.Unlock()
	if c.b.fails[target] {
		return fmt.Errorf("simulated publish failure")
	}
	c.b.pubs = append(c.b.pubs, vhPub{c.side, target, append([]byte{}, data...)})
	return nil
}

type vhFw struct {
	inter.Framework
	b     *vhBus
	owner int
	cfg   *config.Config
}

func (f *vhFw) Configuration() *config.Config { return f.cfg }
func (f *vhFw) Logger(c string) *logrus.Entry { return logrus.NewEntry(logrus.StandardLogger()) }
func (f *vhFw) FederationMiddlewareServers() (srvcache.Servers, error) {
	return srvcache.StringHostsToServers([]string{"federation:4222"}, "nats")
}
func (f *vhFw) MiddlewareServers() (srvcache.Servers, error) {
	return srvcache.StringHostsToServers([]string{"collective:4222"}, "nats")
}
func (f *vhFw) NewConnector(ctx context.Context, servers func() (srvcache.Servers, error), name string, logger *logrus.Entry) (inter.Connector, error) {
	s, err := servers()
	if err != nil {
		return nil, err
	}
	return &vhConn{b: f.b, owner: f.owner, side: s.Servers()[0].Host()}, nil
}
func vhParse(data []byte) (protocol.TransportMessage, error) {
	if strings.Contains(string(data), string(protocol.TransportV2)) {
		return v2.NewTransportFromJSON(data)
	}
	return v1.NewTransportFromJSON(data)
}
func (f *vhFw) NewTransportFromJSON(data []byte) (protocol.TransportMessage, error) {
	return vhParse(data)
}

func vhBroker(ctx context.Context, b *vhBus, name string, owner int) {
	cfg := config.NewConfigForTests()
	cfg.Identity = fmt.Sprintf("broker%d", owner)
	fb, err := federation.NewFederationBroker(name, &vhFw{b: b, owner: owner, cfg: cfg})
	if err != nil {
		panic(err)
	}
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go fb.Start(ctx, wg)
}

type vhReq struct {
	protocol.SecureRequest
	d []byte
}

func (r *vhReq) JSON() ([]byte, error) { return r.d, nil }

type vhRep struct {
	protocol.SecureReply
	d []byte
}

func (r *vhRep) JSON() ([]byte, error) { return r.d, nil }

var vhSeq int
var vhSeqMu sync.Mutex

func vhID() string {
	vhSeqMu.Lock()
	defer vhSeqMu.Unlock()
	vhSeq++
	return fmt.Sprintf("%032d", vhSeq)
}

func vhTransport(ver int, dir string, sender string, body []byte) protocol.TransportMessage {
	var t protocol.TransportMessage
	var err error
	if ver == 1 {
		t, err = v1.NewTransportMessage(sender)
	} else {
		t, err = v2.NewTransportMessage(sender)
	}
	if err != nil {
		panic(err)
	}
	if dir == "request" {
		err = t.SetRequestData(&vhReq{d: body})
	} else {
		err = t.SetReplyData(&vhRep{d: body})
	}
	if err != nil {
		panic(err)
	}
	return t
}

func vhJSON(t protocol.TransportMessage) []byte {
	j, err := t.JSON()
	if err != nil {
		panic(err)
	}
	return j
}

func vhBody(kind string, id string) []byte {
	switch kind {
	case "binary":
		return append([]byte(id), 0, 1, 255, 254, '"', '\n', 0xc3, 0x28)
	case "large":
		return append([]byte(id), []byte(strings.Repeat("0123456789abcdef", 16384))...)
	}
	return []byte(id + `{"hello":"world"}`)
}

const vhFedSubj = "choria.federation.fed1.federation"
const vhColSubj = "choria.federation.fed1.collective"

type vhGot struct {
	Side   string `json:"side"`
	Target string `json:"target"`
}

func (b *vhBus) take(match func(p vhPub) bool) []vhPub {
	b.mu.Lock()
	defer b.mu.Unlock()
	res := []vhPub{}
	for _, p := range b.pubs {
		if match(p) {
			res = append(res, p)
		}
	}
	return res
}

func vhNewBus(seed int64) *vhBus {
	return &vhBus{subs: map[string][]*vhSub{}, fails: map[string]bool{}, rng: rand.New(rand.NewSource(seed)), seen: map[string]int{}, gone: map[int]bool{}}
}

func vhReady(r *vhReporter, b *vhBus, n int) {
	for i := 0; i < 1000; i++ {
		if b.nsubs("federation", vhFedSubj) >= n && b.nsubs("collective", vhColSubj) >= n {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// sessions run on their own buses
func vhSession(r *vhReporter, c vhCase, seed int64) {
	b := vhNewBus(seed)
	b.fails["bad.target"] = true
	ctx1, stop1 := context.WithCancel(context.Background())
	ctx2, stop2 := context.WithCancel(context.Background())
	defer stop2()
	defer stop1()
	vhBroker(ctx1, b, "fed1", 1)
	vhBroker(ctx2, b, "fed1", 2)
	// another federation on the same networks must not take part
	other, stop3 := context.WithCancel(context.Background())
	defer stop3()
	vhBroker(other, b, "fed2", 3)
	vhReady(r, b, 2)
	for i := 0; i < 1000 && (b.owners("federation", vhFedSubj) < 2 || b.owners("collective", vhColSubj) < 2); i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if b.nsubs("federation", vhFedSubj) == 0 || b.nsubs("collective", vhColSubj) == 0 {
		r.Mismatch(c.ID, 0, "subscribed", "subscriptions on "+vhFedSubj+" and "+vhColSubj, fmt.Sprint(b.nsubs("federation", vhFedSubj), b.nsubs("collective", vhColSubj)))
		return
	}
	want := map[string]int{}
	ids := map[string]string{}
	reqs := map[string]int{} // version used
	check := func(step int) bool {
		expect := 0
		for _, n := range want {
			expect += n
		}
		count := func() int {
			b.mu.Lock()
			defer b.mu.Unlock()
			return len(b.pubs)
		}
		for i := 0; i < 2000 && count() < expect; i++ {
			time.Sleep(5 * time.Millisecond)
		}
		time.Sleep(4 * time.Millisecond)
		got := map[string]int{}
		for _, p := range b.take(func(vhPub) bool { return true }) {
			m, err := vhParse(p.data)
			if err != nil {
				r.Mismatch(c.ID, step, "unparsable", "a transport message", string(p.data))
				return false
			}
			d, _ := m.Message()
			got[fmt.Sprintf("%s>%s>%s", p.side, p.target, d)]++
		}
		if !vhSame(got, want) {
			r.Mismatch(c.ID, step, "session", want, got)
			return false
		}
		return true
	}
	nreply := map[string]int{}
	for i, s := range c.Steps {
		r.Step()
		switch s.A.X {
		case "send":
			id := vhID()
			ids[s.A.Q] = id
			reqs[s.A.Q] = 1 + i%2
			body := "request " + s.A.Q
			t := vhTransport(reqs[s.A.Q], "request", "client", []byte(body))
			t.SetReplyTo("client." + s.A.Q)
			t.SetFederationRequestID(id)
			tg := []string{}
			for _, n := range s.A.T {
				tg = append(tg, "node."+n)
				want["collective>node."+n+">"+body]++
			}
			t.SetFederationTargets(tg)
			b.send("federation", vhFedSubj, vhJSON(t))
		case "reply":
			var wg sync.WaitGroup
			for _, f := range s.A.From {
				q, n := f[0], f[1]
				ps := b.take(func(p vhPub) bool {
					return p.target == "node."+n && strings.Contains(p.side, "coll") && strings.Contains(string(p.data), ids[q])
				})
				if len(ps) != 1 {
					r.Mismatch(c.ID, i, "session", "one request for "+q+" at "+n, len(ps))
					return
				}
				m, err := vhParse(ps[0].data)
				if err != nil {
					r.Mismatch(c.ID, i, "unparsable", "a transport message", string(ps[0].data))
					return
				}
				k := q + n
				nreply[k]++
				body := fmt.Sprintf("reply %s %s %d", q, n, nreply[k])
				want["federation>client."+q+">"+body]++
				t := vhTransport(reqs[q], "reply", n, []byte(body))
				id, _ := m.FederationRequestID()
				fr, _ := m.FederationReplyTo()
				t.SetFederationRequestID(id)
				t.SetFederationReplyTo(fr)
				j := vhJSON(t)
				to := m.ReplyTo()
				wg.Add(1)
				go func() {
					defer wg.Done()
					b.send("collective", to, j)
				}()
			}
			wg.Wait()
		case "junk":
			body := []byte("junk")
			for ver := 1; ver <= 2; ver++ {
				t := vhTransport(ver, "request", "client", body)
				switch s.A.K {
				case "unfederated":
					t.SetReplyTo("client.x")
					b.send("federation", vhFedSubj, vhJSON(t))
				case "malformed":
					b.send("federation", vhFedSubj, []byte("{broken"))
					b.send("collective", vhColSubj, []byte(""))
					b.send("federation", vhFedSubj, []byte("null"))
					b.send("collective", vhColSubj, []byte(`{"protocol":"io.choria.protocol.v2.transport","data":"eA==","headers":null}`))
					b.send("collective", vhColSubj, []byte(`{"protocol":"choria:transport:1","data":"eA==","headers":null}`))
				case "notargets":
					t.SetReplyTo("client.x")
					t.SetFederationRequestID(vhID())
					b.send("federation", vhFedSubj, vhJSON(t))
				case "noreply":
					t.SetFederationRequestID(vhID())
					t.SetFederationTargets([]string{"node.n1"})
					b.send("federation", vhFedSubj, vhJSON(t))
				case "straynofed":
					t.SetReplyTo("client.x")
					b.send("collective", vhColSubj, vhJSON(t))
				case "strayreply":
					t.SetFederationRequestID(vhID())
					t.SetFederationTargets([]string{"node.n1"})
					t.SetReplyTo("client.x")
					b.send("collective", vhColSubj, vhJSON(t))
				}
			}
		case "stop":
			b.drop(1)
			stop1()
		}
		if !check(i) {
			return
		}
	}
	time.Sleep(30 * time.Millisecond)
	check(len(c.Steps))
}

func TestVerif(t *testing.T) {
	var in vhIn
	r := vhOpen(t, &in)
	logrus.SetOutput(io.Discard)
	b := vhNewBus(1)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	vhBroker(ctx, b, "fed1", 1)
	vhReady(r, b, 10)

	// rows in bursts over one broker
	var rows, sessions []vhCase
	for _, c := range in.Cases {
		if c.Kind == "row" {
			rows = append(rows, c)
		} else {
			sessions = append(sessions, c)
		}
	}
	if len(rows) > 0 && (b.nsubs("federation", vhFedSubj) == 0 || b.nsubs("collective", vhColSubj) == 0) {
		r.Mismatch(rows[0].ID, 0, "subscribed", "subscriptions on "+vhFedSubj+" and "+vhColSubj, fmt.Sprint(b.nsubs("federation", vhFedSubj), b.nsubs("collective", vhColSubj)))
		r.Done()
		return
	}
	for s := 0; s < len(rows); s += in.Burst {
		chunk := rows[s:min(s+in.Burst, len(rows))]
		vhBurst(r, b, chunk)
	}
	sem := make(chan struct{}, 16)
	var wg sync.WaitGroup
	for i, c := range sessions {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r.Case(c.ID)
			vhSession(r, c, int64(i))
		}()
	}
	wg.Wait()
	r.Done()
}

func vhBurst(r *vhReporter, b *vhBus, chunk []vhCase) {
	b.mu.Lock()
	b.pubs = nil
	b.fails = map[string]bool{}
	b.mu.Unlock()
	type sent struct {
		id   string
		body []byte
		want map[string]int
		hops [][3]string
	}
	ss := make([]sent, len(chunk))
	expect := 0
	var wg sync.WaitGroup
	for i, c := range chunk {
		r.Case(c.ID)
		r.Step()
		id := vhID()
		body := vhBody(c.R.Body, id)
		tr := vhTransport(c.R.Ver, c.R.Dir, "sender."+id, body)
		pre := id + "."
		// targets carry the id of their message
		if c.R.Fed {
			tr.SetFederationRequestID(id)
			tg := []string{}
			for _, x := range c.R.Targets {
				tg = append(tg, pre+x)
			}
			if len(tg) > 0 {
				tr.SetFederationTargets(tg)
			}
			if c.R.FedReply != "" {
				tr.SetFederationReplyTo(pre + c.R.FedReply)
			}
		}
		if c.R.Reply != "" {
			tr.SetReplyTo(pre + c.R.Reply)
		}
		hops := [][3]string{}
		for h := 0; h < c.R.Hops; h++ {
			hop := [3]string{fmt.Sprintf("in%d", h), "via", fmt.Sprintf("out%d", h)}
			hops = append(hops, hop)
			tr.RecordNetworkHop(hop[0], hop[1], hop[2])
		}
		b.mu.Lock()
		for _, f := range c.R.Fail {
			if c.R.Dir == "request" {
				b.fails[pre+c.R.Targets[f-1]] = true
			} else {
				b.fails[pre+c.R.FedReply] = true
			}
		}
		b.mu.Unlock()
		want := map[string]int{}
		for _, x := range c.Out.To {
			want[c.Out.Side+">"+pre+x]++
			expect++
		}
		ss[i] = sent{id, body, want, hops}
		j := vhJSON(tr)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if c.R.Dir == "request" {
				b.send("federation", vhFedSubj, j)
			} else {
				b.send("collective", vhColSubj, j)
			}
		}()
	}
	wg.Wait()
	for i := 0; i < 400; i++ {
		b.mu.Lock()
		n := len(b.pubs)
		b.mu.Unlock()
		if n >= expect {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(100 * time.Millisecond)
	byid := map[string][]vhPub{}
	for _, p := range b.take(func(vhPub) bool { return true }) {
		m, err := vhParse(p.data)
		if err != nil {
			r.Mismatch(chunk[0].ID, 0, "unparsable", "a transport message", string(p.data))
			continue
		}
		s := strings.TrimPrefix(m.SenderID(), "sender.")
		byid[s] = append(byid[s], p)
	}
	for i, c := range chunk {
		s := ss[i]
		got := map[string]int{}
		for _, p := range byid[s.id] {
			got[p.side+">"+p.target]++
		}
		if !vhSame(got, s.want) {
			r.Mismatch(c.ID, 0, "published", s.want, got)
			continue
		}
		for _, p := range byid[s.id] {
			m, _ := vhParse(p.data)
			d, _ := m.Message()
			if string(d) != string(s.body) {
				r.Mismatch(c.ID, 0, "payload", len(s.body), len(d))
			}
			id, fed := m.FederationRequestID()
			tg, _ := m.FederationTargets()
			fr, _ := m.FederationReplyTo()
			pre := s.id + "."
			wr := c.Out.Reply
			if wr != "" && c.R.Dir == "reply" {
				wr = pre + wr
			}
			wf := c.Out.FedReply
			if wf != "" {
				wf = pre + wf
			}
			if fed != c.Out.Fed || (fed && id != s.id) || len(tg) != 0 || fr != wf || m.ReplyTo() != wr || m.SenderID() != "sender."+s.id {
				r.Mismatch(c.ID, 0, "headers", []any{c.Out.Fed, s.id, []string{}, wf, wr}, []any{fed, id, tg, fr, m.ReplyTo()}, p.target)
			}
			h := m.SeenBy()
			ok := len(h) == c.Out.Hops
			for k := 0; ok && k < len(s.hops); k++ {
				ok = h[k] == s.hops[k]
			}
			in := map[string]string{"request": "federation", "reply": "collective"}[c.R.Dir]
			if ok {
				l := h[len(h)-1]
				ok = l[0] == "nats://"+in+":4222" && strings.HasPrefix(l[1], "broker1") && l[2] == "nats://"+c.Out.Side+":4222"
			}
			if !ok {
				r.Mismatch(c.ID, 0, "seen-by", c.Out.Hops, h)
			}
			if m.Version() != map[int]protocol.ProtocolVersion{1: protocol.TransportV1, 2: protocol.TransportV2}[c.R.Ver] {
				r.Mismatch(c.ID, 0, "version", c.R.Ver, m.Version())
			}
		}
		sort.Slice(s.hops, func(i, j int) bool { return false })
	}
	r.Sample(chunk[0].R)
}
