package vh

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	imock "github.com/choria-io/go-choria/inter/imocks"
	"github.com/choria-io/go-choria/message"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/client"
	addl "github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/agent"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/choria-io/go-choria/srvcache"
	"github.com/sirupsen/logrus"
	"go.uber.org/mock/gomock"
)

type vhEv struct {
	E  string   `json:"e"`
	S  string   `json:"s"`
	K  string   `json:"k"`
	To []string `json:"to"`
}
type vhCase struct {
	ID  string `json:"id"`
	Cfg struct {
		N, Batch, Workers int
		Late, Expr        bool
		Mode              string
	} `json:"cfg"`
	Script     []vhEv
	Ok, Failed int
	Got        []string
	None       []string
	Unexp      []string
	Handled    []struct {
		S     string `json:"s"`
		Shown bool   `json:"shown"`
	}
	Ended string
	// limits
	R struct {
		N, Batch int
		Limit    struct{ S string }
		Method   string
		Seed     int64
	}
	Valid, Inorder bool
	Wanted         int
	Batches        []int
	Sleep          int
}

type vhRaw struct{ d []byte }

func (m *vhRaw) Subject() string { return "reply" }
func (m *vhRaw) Reply() string   { return "" }
func (m *vhRaw) Data() []byte    { return m.d }
func (m *vhRaw) Msg() any        { return nil }

type vhReply struct {
	protocol.Reply
	s string
	m []byte
}

func (r *vhReply) SenderID() string { return r.s }
func (r *vhReply) Message() []byte  { return r.m }
func (r *vhReply) Time() time.Time  { return time.Unix(1600000000, 0) }

// vhNet is the network of one case
type vhNet struct {
	mu     sync.Mutex
	out    chan inter.ConnectorMessage
	pubs   [][]string
	at     []time.Time
	onPub  func(n int)
	parsed int
	subs   []vhNetSub
	deaf   int // published while nobody listens for replies to it
}
type vhNetSub struct {
	ctx    context.Context
	target string
}

type vhNetConn struct {
	inter.Connector
	n *vhNet
}

func (c *vhNetConn) Close() {}
func (c *vhNetConn) QueueSubscribe(ctx context.Context, _ string, target string, _ string, out chan inter.ConnectorMessage) error {
	c.n.mu.Lock()
	c.n.out = out
	c.n.subs = append(c.n.subs, vhNetSub{ctx, target})
	c.n.mu.Unlock()
	return nil
}
func (c *vhNetConn) Publish(msg inter.Message) error {
	c.n.mu.Lock()
	c.n.pubs = append(c.n.pubs, append([]string{}, msg.DiscoveredHosts()...))
	c.n.at = append(c.n.at, time.Now())
	i := len(c.n.pubs)
	f := c.n.onPub
	heard := false
	for _, s := range c.n.subs {
		heard = heard || (s.ctx.Err() == nil && s.target == msg.ReplyTo())
	}
	if !heard {
		c.n.deaf++
	}
	c.n.mu.Unlock()
	if f != nil {
		f(i)
	}
	return nil
}

var vhSlow atomic.Int32

type vhNoT struct{}

func (vhNoT) Errorf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func (vhNoT) Fatalf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func (vhNoT) Helper()                   {}

func vhClient(n *vhNet, agent string, service bool) (*client.RPC, error) {
	fw, _ := imock.NewFrameworkForTests(gomock.NewController(vhNoT{}), io.Discard, imock.WithCallerID(), imock.WithConfig(config.NewConfigForTests()))
	fw.EXPECT().NewMessage(gomock.Any(), gomock.Any(), gomock.Any(), gomock.Any(), gomock.Any()).DoAndReturn(func(payload []byte, agent string, collective string, msgType string, request inter.Message) (inter.Message, error) {
		return message.NewMessage(payload, agent, collective, msgType, request, fw)
	}).AnyTimes()
	fw.EXPECT().NewConnector(gomock.Any(), gomock.Any(), gomock.Any(), gomock.Any()).DoAndReturn(func(ctx context.Context, servers func() (srvcache.Servers, error), name string, logger *logrus.Entry) (inter.Connector, error) {
		return &vhNetConn{n: n}, nil
	}).AnyTimes()
	fw.EXPECT().NewReplyFromTransportJSON(gomock.Any(), gomock.Any()).DoAndReturn(func(d []byte, _ bool) (protocol.Reply, error) {
		n.mu.Lock()
		n.parsed++
		n.mu.Unlock()
		var m map[string]string
		if json.Unmarshal(d, &m) != nil {
			return nil, fmt.Errorf("no reply")
		}
		return &vhReply{s: m["s"], m: []byte(m["m"])}, nil
	}).AnyTimes()
	ddl := &addl.DDL{
		Metadata: &agents.Metadata{Name: agent, Description: "x", Author: "x", Version: "1.0.0", License: "x", URL: "x", Timeout: 10, Service: service},
		Actions:  []*addl.Action{},
		Schema:   "https://choria.io/schemas/mcorpc/ddl/v1/agent.json",
	}
	return client.New(fw, agent, client.DDL(ddl))
}

func vhBody(e vhEv) []byte {
	m := map[string]string{"s": e.S}
	switch e.K {
	case "ok":
		m["m"] = `{"action":"a","statuscode":0,"statusmsg":"OK","data":{}}`
	case "fail":
		m["m"] = `{"action":"a","statuscode":1,"statusmsg":"failed","data":{}}`
	case "badrpc":
		m["m"] = `{"action":"a","statuscode":`
	default:
		return []byte("garbage")
	}
	j, _ := json.Marshal(m)
	return j
}

func vhSorted(s []string) []string {
	r := append([]string{}, s...)
	sort.Strings(r)
	return r
}

func vhReplies(r *vhReporter, cs vhCase) {
	n := &vhNet{}
	rpc, err := vhClient(n, "vagent", cs.Cfg.Mode == "service")
	if err != nil {
		r.Error("%s", err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	// the script cut at its publishes
	parts := [][]vhEv{}
	quick := true
	for _, e := range cs.Script {
		if e.E == "publish" {
			parts = append(parts, nil)
			continue
		}
		if e.E == "deadline" {
			quick = false
		}
		parts[len(parts)-1] = append(parts[len(parts)-1], e)
	}
	delivered := 0
	n.onPub = func(i int) {
		if i > len(parts) {
			return
		}
		for _, e := range parts[i-1] {
			switch e.E {
			case "deliver":
				delivered++
				n.out <- &vhRaw{vhBody(e)}
			case "cancel":
				want := delivered
				go func() {
					vhEventually(20*time.Second, func() bool { n.mu.Lock(); defer n.mu.Unlock(); return n.parsed >= want })
					cancel()
				}()
			}
		}
	}
	var hmu sync.Mutex
	handled := map[string]int{}
	opts := []client.RequestOption{client.ReplyHandler(func(p protocol.Reply, rr *client.RPCReply) {
		hmu.Lock()
		handled[fmt.Sprintf("%s shown=%v", p.SenderID(), rr != nil)]++
		if rr != nil && (rr.Sender != p.SenderID() || !rr.Time.Equal(p.Time())) {
			handled["reply of another sender"]++
		}
		hmu.Unlock()
	})}
	targets := []string{}
	for i := 1; i <= cs.Cfg.N; i++ {
		targets = append(targets, fmt.Sprintf("n%d", i))
	}
	if len(targets) > 0 {
		opts = append(opts, client.Targets(targets))
	}
	tmo := 30 * time.Second
	if !quick {
		tmo = 1500 * time.Millisecond
	}
	opts = append(opts, client.Timeout(tmo))
	w := func() {
		if cs.Cfg.Workers > 0 {
			opts = append(opts, client.Workers(cs.Cfg.Workers))
		}
	}
	if !cs.Cfg.Late {
		w()
	}
	if cs.Cfg.Batch > 0 {
		opts = append(opts, client.InBatches(cs.Cfg.Batch, -1))
	}
	if cs.Cfg.Late {
		w()
	}
	if cs.Cfg.Expr {
		opts = append(opts, client.ReplyExprFilter("ok()"))
	}
	switch cs.Cfg.Mode {
	case "service":
		opts = append(opts, client.ServiceRequest())
	case "noreply":
		if cs.Cfg.N%2 == 0 {
			opts = append(opts, client.ReplyTo("custom.target"))
		} else {
			opts = append(opts, client.Replies(make(chan inter.ConnectorMessage, 10)))
		}
	}
	var res client.RequestResult
	start := time.Now()
	p := vhGuard(20*time.Second, func() { res, err = rpc.Do(ctx, "action", map[string]string{"a": "b"}, opts...) })
	took := time.Since(start)
	last := len(cs.Script)
	if p != "" {
		what := "request-panics"
		if p == "hang" {
			what = "request-does-not-finish"
			vhSlow.Add(1)
		}
		r.Mismatch(cs.ID, last, what, "a finished request", p, cs)
		return
	}
	if err != nil || res == nil {
		r.Mismatch(cs.ID, last, "request-fails", "", fmt.Sprint(err), cs)
		return
	}
	if quick && took > 15*time.Second {
		r.Mismatch(cs.ID, last, "request-late", "ends when all replied", took.String(), cs)
	}
	if !quick && took < 1400*time.Millisecond {
		r.Mismatch(cs.ID, last, "request-early", "waits for its deadline", took.String(), cs)
	}
	st := res.Stats()
	cmp := func(key string, want, got any) {
		r.Step()
		if !vhSame(want, got) {
			r.Mismatch(cs.ID, last, key, want, got, cs)
		}
	}
	cmp("ok-count", cs.Ok, st.OKCount())
	cmp("fail-count", cs.Failed, st.FailCount())
	cmp("responses", len(cs.Got), st.ResponsesCount())
	cmp("no-response", vhSorted(cs.None), vhSorted(st.NoResponseFrom()))
	cmp("unexpected", vhSorted(cs.Unexp), vhSorted(st.UnexpectedResponseFrom()))
	if cs.Cfg.Mode == "service" {
		cmp("discovered", vhSorted(cs.Got), vhSorted(*st.DiscoveredNodes()))
	} else {
		cmp("discovered", vhSorted(targets), vhSorted(*st.DiscoveredNodes()))
		cmp("all", len(cs.None) == 0, st.All())
		cmp("waiting-for", len(cs.None) > 0, st.WaitingFor(targets))
	}
	want := map[string]int{}
	for _, h := range cs.Handled {
		want[fmt.Sprintf("%s shown=%v", h.S, h.Shown)]++
	}
	cmp("handled", want, handled)
	wp := [][]string{}
	for _, e := range cs.Script {
		if e.E == "publish" {
			wp = append(wp, vhSorted(e.To))
		}
	}
	gp := [][]string{}
	for _, p := range n.pubs {
		gp = append(gp, vhSorted(p))
	}
	cmp("published", wp, gp)
	if cs.Cfg.Mode != "noreply" {
		cmp("published-unheard", 0, n.deaf)
	}
	if _, err := st.RequestDuration(); err != nil {
		r.Mismatch(cs.ID, last, "duration", "", err.Error(), cs)
	}
}

func vhLimits(r *vhReporter, cs vhCase) {
	targets := []string{}
	for i := 1; i <= cs.R.N; i++ {
		targets = append(targets, fmt.Sprintf("n%d", i))
	}
	orig := append([]string{}, targets...)
	// the same list is used for both requests, as a caller that keeps its discovered nodes does
	run := func() (*vhNet, error, string, []int) {
		n := &vhNet{}
		n.onPub = func(i int) {
			n.mu.Lock()
			hosts := n.pubs[i-1]
			n.mu.Unlock()
			for _, h := range hosts {
				n.out <- &vhRaw{vhBody(vhEv{S: h, K: "ok"})}
			}
		}
		rpc, err := vhClient(n, "vagent", false)
		if err != nil {
			r.Error("%s", err)
		}
		cb := []int{}
		opts := []client.RequestOption{client.Targets(targets), client.LimitMethod(cs.R.Method), client.LimitSize(cs.R.Limit.S),
			client.LimitSeed(cs.R.Seed), client.Timeout(8 * time.Second), client.DiscoveryEndCB(func(d, l int) error { cb = append(cb, d, l); return nil })}
		if cs.R.Batch > 0 {
			s := -1
			if cs.Sleep > 0 {
				s = cs.Sleep
			}
			opts = append(opts, client.InBatches(cs.R.Batch, s))
		}
		p := vhGuard(60*time.Second, func() { _, err = rpc.Do(context.Background(), "action", map[string]string{}, opts...) })
		return n, err, p, cb
	}
	n1, err, p, cb := run()
	r.Step()
	if p != "" {
		r.Mismatch(cs.ID, 0, "limit-panics", "", p, cs.R)
		return
	}
	if !cs.Valid {
		if err == nil || len(n1.pubs) > 0 {
			r.Mismatch(cs.ID, 0, "invalid-limit-accepted", "error, nothing published", fmt.Sprintf("%v %v", err, n1.pubs), cs.R)
		}
		return
	}
	if err != nil {
		r.Mismatch(cs.ID, 0, "valid-limit-refused", "", err.Error(), cs.R)
		return
	}
	sizes := []int{}
	flat := []string{}
	for _, b := range n1.pubs {
		sizes = append(sizes, len(b))
		flat = append(flat, b...)
	}
	if !vhSame(cs.Batches, sizes) {
		r.Mismatch(cs.ID, 0, "batches", cs.Batches, sizes, cs.R)
	}
	seen := map[string]bool{}
	known := map[string]bool{}
	for _, t := range orig {
		known[t] = true
	}
	for _, f := range flat {
		if seen[f] {
			r.Mismatch(cs.ID, 0, "addressed-twice", f, flat, cs.R)
		}
		if !known[f] {
			r.Mismatch(cs.ID, 0, "not-discovered", f, flat, cs.R)
		}
		seen[f] = true
	}
	if cs.Inorder && !vhSame(flat, orig[:cs.Wanted]) {
		r.Mismatch(cs.ID, 0, "not-the-first", orig[:cs.Wanted], flat, cs.R)
	}
	if !vhSame(cb, []int{cs.R.N, cs.Wanted}) {
		r.Mismatch(cs.ID, 0, "reported-counts", []int{cs.R.N, cs.Wanted}, cb, cs.R)
	}
	for i := 1; i < len(n1.at) && cs.Sleep > 0; i++ {
		if n1.at[i].Sub(n1.at[i-1]) < time.Duration(cs.Sleep)*time.Second {
			r.Mismatch(cs.ID, 0, "no-sleep", cs.Sleep, n1.at[i].Sub(n1.at[i-1]).String(), cs.R)
		}
	}
	n2, err, _, _ := run()
	if err != nil || !vhSame(n1.pubs, n2.pubs) {
		r.Mismatch(cs.ID, 1, "same-seed-other-nodes", n1.pubs, n2.pubs, cs.R)
	}
	if cs.R.Method == "random" && cs.Wanted < cs.R.N {
		r.Sample(map[string]any{"seed": cs.R.Seed, "n": cs.R.N, "limit": cs.R.Limit.S, "chosen": flat})
	}
}

func TestVerif(t *testing.T) {
	var in struct{ Cases []vhCase }
	r := vhOpen(t, &in)
	os.Setenv("CHORIA_FED_COLLECTIVE", "")
	sem := make(chan struct{}, 250)
	var wg sync.WaitGroup
	for _, cs := range in.Cases {
		if vhSlow.Load() > 30 {
			break // enough hangs to report
		}
		sem <- struct{}{}
		wg.Add(1)
		r.Case(cs.ID)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if len(cs.Script) > 0 || cs.Cfg.Mode != "" {
				vhReplies(r, cs)
			} else {
				vhLimits(r, cs)
			}
		}()
	}
	wg.Wait()
	r.Done()
}
