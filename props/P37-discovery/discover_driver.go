package vh

// Replays the tables of Discover.tla against the real discovery sources: inventories, node lists, external commands,
// a stand-in PuppetDB that understands the queries it is sent, and a stand-in network that answers broadcasts.

import (
	"context"
	"crypto/tls"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/choria"
	cdisc "github.com/choria-io/go-choria/client/discovery"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/filter"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/providers/discovery/broadcast"
	"github.com/choria-io/go-choria/providers/discovery/external"
	"github.com/choria-io/go-choria/providers/discovery/flatfile"
	"github.com/choria-io/go-choria/providers/discovery/inventory"
	"github.com/choria-io/go-choria/providers/discovery/puppetdb"
	"github.com/choria-io/go-choria/srvcache"
)

type dcRow struct {
	F          [][2]string `json:"f"`
	C          string      `json:"c"`
	Src        string      `json:"src"`
	IDs        []string    `json:"ids"`
	Extra      string      `json:"extra"`
	Bad        string      `json:"bad"`
	YAML       bool        `json:"yaml"`
	NoValidate bool        `json:"novalidate"`
	Fmt        string      `json:"fmt"`
	As         string      `json:"as"`
	How        string      `json:"how"`
	Q          string      `json:"q"`
	Cmd        string      `json:"cmd"`
	Does       string      `json:"does"`
	Args       bool        `json:"args"`
	Slide      bool        `json:"slide"`
	To         int         `json:"to"`
	Dflt       int         `json:"dflt"`
	Slow       bool        `json:"slow"`
	At         []int       `json:"at"`
}
type dcCase struct {
	ID   string `json:"id"`
	Part string `json:"part"`
	R    dcRow  `json:"r"`
	V    struct {
		OK     bool     `json:"ok"`
		ByName bool     `json:"byname"`
		Nodes  []string `json:"nodes"`
	} `json:"v"`
}
type dcIn struct {
	Cases []dcCase `json:"cases"`
}

type dcNode struct {
	Name        string         `json:"name"`
	Collectives []string       `json:"collectives"`
	Facts       map[string]any `json:"facts"`
	Classes     []string       `json:"classes"`
	Agents      []string       `json:"agents"`
}

type m = map[string]any

var dcFleet = []dcNode{
	{"web1.example.net", []string{"mt", "c2"}, m{"country": "mt", "cpus": 4, "virtual": true, "os": m{"family": "RedHat"}}, []string{"apache", "role::web", "common"}, []string{"rpcutil", "package", "puppet"}},
	{"web2.example.net", []string{"mt"}, m{"country": "uk", "cpus": 16, "virtual": false, "os": m{"family": "Debian"}}, []string{"apache::mod", "role::web", "common"}, []string{"rpcutil", "puppet"}},
	{"db1.example.net", []string{"c2", "mt"}, m{"country": "mt", "cpus": 10, "virtual": true, "os": m{"family": "Debian"}}, []string{"mysql", "role::db", "common"}, []string{"package", "rpcutil"}},
	{"db2.example.com", []string{"c2"}, m{}, []string{}, []string{"rpcutil"}},
	{"web10.example.net", []string{"mt"}, m{"country": "de", "cpus": 8, "virtual": false}, []string{"apache", "common"}, []string{}},
	{"lost.example.net", []string{}, m{}, []string{}, []string{}},
}

// ---- a stand-in PuppetDB

type pqlEval func(n *dcNode, res map[string]any) bool
type pql struct {
	toks []string
	i    int
}

var pqlTok = regexp.MustCompile(`^(?:\s+|"(?:[^"\\]|\\.)*"|[a-zA-Z_][\w.\-:]*|-?\d[\w.]*|<=|>=|[=~<>!(){}\[\],.])`)

func pqlParse(q string) (ev pqlEval, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("query %s: %v", q, e)
		}
	}()
	p := &pql{}
	for s := q; s != ""; {
		t := pqlTok.FindString(s)
		if t == "" {
			panic("cannot read " + s)
		}
		s = s[len(t):]
		if strings.TrimSpace(t) != "" {
			p.toks = append(p.toks, t)
		}
	}
	for _, t := range []string{"nodes", "[", "certname", ",", "deactivated", "]", "{"} {
		p.want(t)
	}
	ev = p.or("node")
	p.want("}")
	if p.i != len(p.toks) {
		panic("text after the query")
	}
	return ev, nil
}
func (p *pql) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}
func (p *pql) next() string { t := p.peek(); p.i++; return t }
func (p *pql) want(t string) {
	if g := p.next(); g != t {
		panic(fmt.Sprintf("%q where %q belongs", g, t))
	}
}
func (p *pql) or(ctx string) pqlEval {
	l := p.and(ctx)
	for p.peek() == "or" {
		p.next()
		a, b := l, p.and(ctx)
		l = func(n *dcNode, r map[string]any) bool { return a(n, r) || b(n, r) }
	}
	return l
}
func (p *pql) and(ctx string) pqlEval {
	l := p.not(ctx)
	for p.peek() == "and" {
		p.next()
		a, b := l, p.not(ctx)
		l = func(n *dcNode, r map[string]any) bool { return a(n, r) && b(n, r) }
	}
	return l
}
func (p *pql) not(ctx string) pqlEval {
	if p.peek() == "!" {
		p.next()
		e := p.not(ctx)
		return func(n *dcNode, r map[string]any) bool { return !e(n, r) }
	}
	if p.peek() == "(" {
		p.next()
		e := p.or(ctx)
		p.want(")")
		return e
	}
	return p.cond(ctx)
}
func pqlResources(n *dcNode) []map[string]any {
	res := []map[string]any{}
	for _, c := range n.Classes {
		parts := strings.Split(c, "::")
		for i := range parts {
			parts[i] = strings.ToUpper(parts[i][:1]) + parts[i][1:]
		}
		res = append(res, m{"type": "Class", "title": strings.Join(parts, "::"), "tag": []string{c}})
	}
	for _, a := range n.Agents {
		if a == "rpcutil" {
			res = append(res, m{"type": "Class", "title": "Choria::Service", "tag": []string{"choria"}})
			continue
		}
		res = append(res, m{"type": "File", "title": "/" + a + ".rb", "tag": []string{"file", "mcollective_agent_" + a + "_server"}})
		res = append(res, m{"type": "File", "title": "/" + a + ".ddl", "tag": []string{"mcollective_agent_" + a + "_client"}})
	}
	return append(res, m{"type": "Class", "title": "Settings", "tag": []string{}})
}
func (p *pql) cond(ctx string) pqlEval {
	name := p.next()
	switch {
	case ctx == "node" && (name == "resources" || name == "inventory"):
		p.want("{")
		e := p.or(name)
		p.want("}")
		if name == "inventory" {
			return e
		}
		return func(n *dcNode, _ map[string]any) bool {
			for _, r := range pqlResources(n) {
				if e(n, r) {
					return true
				}
			}
			return false
		}
	case ctx == "node" && name == "certname" && p.peek() == "in":
		for _, t := range []string{"in", "inventory", "[", "certname", "]", "{"} {
			p.want(t)
		}
		e := p.or("inventory")
		p.want("}")
		return e
	}
	match := ""
	if strings.HasSuffix(name, ".match") {
		p.want("(")
		match = p.text(p.next())
		p.want(")")
		name = strings.TrimSuffix(name, ".match")
	}
	op, tok := p.next(), p.next()
	return func(n *dcNode, r map[string]any) bool {
		var vals []any
		switch {
		case ctx == "node" && name == "certname":
			vals = []any{n.Name}
		case ctx == "resources" && name == "tag":
			for _, t := range r["tag"].([]string) {
				vals = append(vals, t)
			}
		case ctx == "resources" && (name == "type" || name == "title"):
			vals = []any{r[name]}
		case ctx == "inventory" && strings.HasPrefix(name, "facts."):
			var v any = m{}
			f := m{}
			for k, x := range n.Facts {
				f[k] = x
			}
			cs := []any{}
			for _, c := range n.Collectives {
				cs = append(cs, c)
			}
			f["mcollective"] = m{"server": m{"collectives": cs}}
			v = f
			for _, part := range strings.Split(name, ".")[1:] {
				mm, ok := v.(m)
				if !ok || mm[part] == nil {
					return false
				}
				v = mm[part]
			}
			if match != "" {
				l, ok := v.([]any)
				if !ok {
					return false
				}
				for i, x := range l {
					if ok, _ := regexp.MatchString("^(?:"+match+")$", strconv.Itoa(i)); ok {
						vals = append(vals, x)
					}
				}
			} else {
				vals = []any{v}
			}
		default:
			panic("no field " + name + " in " + ctx)
		}
		for _, v := range vals {
			if p.holds(v, op, tok) {
				return true
			}
		}
		return false
	}
}
func (p *pql) text(t string) string {
	if !strings.HasPrefix(t, `"`) {
		panic("no string: " + t)
	}
	// a backslash stands for itself unless it is before a quote or another backslash
	t = t[1 : len(t)-1]
	return strings.ReplaceAll(strings.ReplaceAll(t, `\"`, `"`), `\\`, `\`)
}
func (p *pql) holds(v any, op string, tok string) bool {
	if op == "~" {
		s, ok := v.(string)
		return ok && regexp.MustCompile(p.text(tok)).MatchString(s)
	}
	if strings.HasPrefix(tok, `"`) {
		if op != "=" {
			panic("strings are not ordered")
		}
		return v == any(p.text(tok))
	}
	if tok == "true" || tok == "false" {
		return op == "=" && v == any(tok == "true")
	}
	want, err := strconv.ParseFloat(tok, 64)
	if err != nil {
		panic("no value " + tok)
	}
	i, ok := v.(int)
	if !ok {
		return false
	}
	f := float64(i)
	switch op {
	case "=":
		return f == want
	case "<":
		return f < want
	case ">":
		return f > want
	case "<=":
		return f <= want
	case ">=":
		return f >= want
	}
	panic("no operator " + op)
}

// ---- a stand-in network

type dcAnswer struct {
	after time.Duration
	data  []byte
}
type dcNet struct {
	mu      sync.Mutex
	subs    map[string]chan inter.ConnectorMessage
	pubs    []inter.Message
	answers []dcAnswer
	slow    time.Duration
	conns   int
	done    chan struct{}
}
type dcConn struct {
	inter.Connector
	n *dcNet
}
type dcMsg struct{ d []byte }

func (m *dcMsg) Subject() string { return "" }
func (m *dcMsg) Reply() string   { return "" }
func (m *dcMsg) Data() []byte    { return m.d }
func (m *dcMsg) Msg() any        { return nil }

func (c *dcConn) Close() {}
func (c *dcConn) QueueSubscribe(_ context.Context, _ string, subject string, _ string, out chan inter.ConnectorMessage) error {
	c.n.mu.Lock()
	c.n.subs[subject] = out
	c.n.mu.Unlock()
	return nil
}
func (c *dcConn) Publish(msg inter.Message) error {
	c.n.mu.Lock()
	defer c.n.mu.Unlock()
	c.n.pubs = append(c.n.pubs, msg)
	out := c.n.subs[msg.ReplyTo()]
	if out == nil {
		return nil
	}
	for _, a := range c.n.answers {
		if a.after == 0 {
			out <- &dcMsg{a.data}
			continue
		}
		time.AfterFunc(a.after, func() {
			select {
			case out <- &dcMsg{a.data}:
			case <-c.n.done:
			}
		})
	}
	return nil
}

type dcFw struct {
	*choria.Framework
	n   *dcNet
	cfg *config.Config
}

func (f *dcFw) Configuration() *config.Config { return f.cfg }
func (f *dcFw) NewConnector(ctx context.Context, servers func() (srvcache.Servers, error), name string, log *logrus.Entry) (inter.Connector, error) {
	f.n.mu.Lock()
	f.n.conns++
	d := f.n.slow
	f.n.mu.Unlock()
	select {
	case <-ctx.Done():
		return nil, ctx.Err()
	case <-time.After(d):
	}
	return &dcConn{n: f.n}, nil
}

func dcSorted(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

func TestVerif(t *testing.T) {
	in := dcIn{}
	r := vhOpen(t, &in)
	defer r.Done()
	logrus.SetOutput(io.Discard)
	dir := t.TempDir()
	scratch := filepath.Join(dir, "tmp")
	os.Mkdir(scratch, 0700)
	os.Setenv("TMPDIR", scratch)
	log := logrus.NewEntry(logrus.StandardLogger())
	put := func(name string, data []byte, mode os.FileMode) string {
		f := filepath.Join(dir, name)
		if err := os.WriteFile(f, data, mode); err != nil {
			r.Error("%v", err)
		}
		return f
	}
	ca := vhNewCA(r, dir, "ca")
	leaf := ca.Leaf(r, vhCertSpec{CN: "me.mcollective", SANs: []string{"me.mcollective"}})
	srv := ca.Leaf(r, vhCertSpec{CN: "localhost", SANs: []string{"localhost"}})
	mycert, mykey := put("me.pem", leaf.cert, 0600), put("me.key", leaf.key, 0600)
	newcfg := func() *config.Config {
		cfg := config.NewConfigForTests()
		cfg.Collectives, cfg.MainCollective, cfg.LogLevel, cfg.LogFile = []string{"mt", "c2"}, "mt", "fatal", "discard"
		cfg.Identity = "me.example"
		cfg.Choria.SecurityProvider = "file"
		cfg.Choria.CertnameAllowList = []string{`\.mcollective$`}
		cfg.Choria.FileSecurityCertificate = mycert
		cfg.Choria.FileSecurityKey = mykey
		cfg.Choria.FileSecurityCA = ca.file
		cfg.SetOption("plugin.security.file.identity", "me.mcollective")
		return cfg
	}

	// PuppetDB
	pair, err := tls.X509KeyPair(srv.cert, srv.key)
	if err != nil {
		r.Error("%v", err)
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Error("%v", err)
	}
	defer ln.Close()
	var pdbErr error
	pdbQueries := 0
	hs := &http.Server{TLSConfig: &tls.Config{Certificates: []tls.Certificate{pair}}, ErrorLog: nil, Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		pdbQueries++
		res := []any{m{"certname": "old.example.net", "deactivated": true}}
		pdbErr = nil
		if q.URL.Path != "/pdb/query/v4" {
			pdbErr = fmt.Errorf("asked for %s", q.URL.Path)
		}
		ev, err := pqlParse(q.URL.Query().Get("query"))
		if err != nil {
			pdbErr = err
		} else {
			func() {
				defer func() {
					if e := recover(); e != nil {
						pdbErr = fmt.Errorf("query %s: %v", q.URL.Query().Get("query"), e)
					}
				}()
				for i := range dcFleet {
					if ev(&dcFleet[i], nil) {
						res = append(res, m{"certname": dcFleet[i].Name, "deactivated": nil})
					}
				}
			}()
		}
		if pdbErr != nil {
			w.WriteHeader(400)
			return
		}
		json.NewEncoder(w).Encode(res)
	})}
	go hs.ServeTLS(ln, "", "")
	defer hs.Close()
	base := newcfg()
	base.Choria.PuppetDBHost, base.Choria.PuppetDBPort = "localhost", ln.Addr().(*net.TCPAddr).Port
	fw, err := choria.NewWithConfig(base)
	if err != nil {
		r.Error("framework: %v", err)
	}

	// what every node answers to a discovery request
	answers := map[string][]byte{}
	for _, n := range dcFleet {
		req, err := fw.NewRequest(protocol.RequestV1, "discovery", "me.example", "choria=me.mcollective", 60, strings.Repeat("a", 32), "mt")
		if err != nil {
			r.Error("%v", err)
		}
		req.SetMessage([]byte("ping"))
		base.Identity = n.Name
		rep, err := fw.NewReply(req)
		if err != nil {
			r.Error("%v", err)
		}
		rep.SetMessage([]byte("pong"))
		sr, err := fw.NewSecureReply(rep)
		if err != nil {
			r.Error("%v", err)
		}
		tr, err := fw.NewTransportForSecureReply(sr)
		if err != nil {
			r.Error("%v", err)
		}
		j, err := tr.JSON()
		if err != nil {
			r.Error("%v", err)
		}
		answers[n.Name] = j
	}
	base.Identity = "me.example"
	garbage := []byte("{\"protocol\": \"nonsense\"}")

	mkFilter := func(f [][2]string) *protocol.Filter {
		opts := []filter.Filter{}
		for _, i := range f {
			switch i[0] {
			case "id":
				opts = append(opts, filter.IdentityFilter(i[1]))
			case "agent":
				opts = append(opts, filter.AgentFilter(i[1]))
			case "class":
				opts = append(opts, filter.ClassFilter(i[1]))
			case "fact":
				opts = append(opts, filter.FactFilter(i[1]))
			case "compound":
				opts = append(opts, filter.CompoundFilter(i[1]))
			}
		}
		res, err := filter.NewFilter(opts...)
		if err != nil {
			r.Error("filter %v: %v", f, err)
		}
		return res
	}
	// the same with the options a user gives
	mkOpts := func(x dcRow, i int) (*cdisc.StandardOptions, string) {
		o := cdisc.NewStandardOptions()
		o.Collective, o.DiscoveryTimeout = x.C, 1
		agent := ""
		for _, f := range x.F {
			switch f[0] {
			case "id":
				o.IdentityFilter = append(o.IdentityFilter, f[1])
			case "agent":
				if agent == "" {
					agent = f[1]
				} else {
					o.AgentFilter = append(o.AgentFilter, f[1])
				}
			case "class", "fact":
				if i%3 == 0 && !strings.Contains(f[1], " ") {
					o.CombinedFilter = append(o.CombinedFilter, f[1])
				} else if f[0] == "class" {
					o.ClassFilter = append(o.ClassFilter, f[1])
				} else {
					o.FactFilter = append(o.FactFilter, f[1])
				}
			case "compound":
				o.CompoundFilter = f[1]
			}
		}
		if i%3 == 0 && len(o.CombinedFilter) > 1 {
			o.CombinedFilter = []string{strings.Join(o.CombinedFilter, " ")}
		}
		return o, agent
	}
	count := func(f [][2]string, k string) (n int) {
		for _, i := range f {
			if i[0] == k {
				n++
			}
		}
		return n
	}

	groups := []any{
		m{"name": "webs", "filter": m{"classes": []string{"role::web"}}},
		m{"name": "mt", "filter": m{"facts": []string{"country=mt"}, "agents": []string{"rpcutil"}}},
		m{"name": "all"},
		m{"name": "expr", "filter": m{"compound": "with('apache') or with('country=uk')"}},
		m{"name": "some", "filter": m{"identities": []string{"web1.example.net", "/^db2/"}}},
		m{"name": "nobody", "filter": m{"identities": []string{"/^web/"}, "classes": []string{"mysql"}}},
	}
	invdata := func() map[string]any {
		var nodes []any
		for _, n := range dcFleet {
			nodes = append(nodes, m{"name": n.Name, "collectives": n.Collectives, "facts": n.Facts, "classes": n.Classes, "agents": n.Agents})
		}
		return m{"$schema": inventory.DataSchema, "groups": groups, "nodes": nodes}
	}
	asJSON := func(v any) []byte {
		j, err := json.Marshal(v)
		if err != nil {
			r.Error("%v", err)
		}
		return j
	}
	invjson := put("inventory.json", asJSON(invdata()), 0600)
	names := []string{}
	for _, n := range dcFleet {
		names = append(names, n.Name)
	}

	script := put("ext.sh", []byte(`#!/bin/sh
d="$(dirname "$0")"
for a in "$@"; do last2="$last1"; last1="$last"; last="$a"; done
cat "$CHORIA_EXTERNAL_REQUEST" > "$d/got.request"
{ echo "$last2 $last1 $last"; echo "$CHORIA_EXTERNAL_REQUEST $CHORIA_EXTERNAL_REPLY $CHORIA_EXTERNAL_PROTOCOL"; } > "$d/got.env"
: > "$d/got.args"
for a in "$@"; do echo "<$a>" >> "$d/got.args"; done
. "$d/todo.sh"
`), 0700)
	ctx := context.Background()

	type outcome struct {
		nodes []string
		err   error
		note  [3]any // another complaint: what, expected, got
	}

	// broadcast discovers over the stand-in network
	bcast := func(c dcCase, i int) outcome {
		x := c.R
		cfg := newcfg()
		cfg.DiscoveryTimeout = 1
		n := &dcNet{subs: map[string]chan inter.ConnectorMessage{}, done: make(chan struct{})}
		defer close(n.done)
		tick := 100 * time.Millisecond
		to := 150 * time.Millisecond
		if c.Part == "window" {
			x.C = "mt"
			to = time.Duration(x.To) * tick
			cfg.DiscoveryTimeout = 2
			if x.Dflt < 10 {
				cfg.DiscoveryTimeout = 1
			}
			at := 0
			for j, a := range x.At {
				at += a
				n.answers = append(n.answers, dcAnswer{time.Duration(at) * tick, answers[dcFleet[j].Name]})
			}
			if x.Slow {
				n.slow = 5 * tick
			}
		} else {
			for j, node := range c.V.Nodes {
				n.answers = append(n.answers, dcAnswer{0, answers[node]})
				if j%2 == 0 {
					n.answers = append(n.answers, dcAnswer{0, garbage})
				}
			}
		}
		bf := &dcFw{fw, n, cfg}
		flt := mkFilter(x.F)
		opts := []broadcast.DiscoverOption{broadcast.Timeout(to)}
		if x.C != "mt" || i%2 == 0 {
			opts = append(opts, broadcast.Collective(x.C))
		}
		if len(x.F) > 0 {
			opts = append(opts, broadcast.Filter(flt))
		}
		if x.Slide {
			if i%2 == 0 {
				opts = append(opts, broadcast.SlidingWindow())
			} else {
				cfg.Choria.BroadcastDiscoveryDynamicTimeout = true
			}
		}
		if i%3 == 0 {
			opts = append(opts, broadcast.Name("me"))
		}
		o := outcome{}
		ctx, cancel := context.WithCancel(ctx)
		defer cancel()
		start := time.Now()
		if g := vhGuard(20*time.Second, func() {
			if c.Part == "filters" && i%5 == 0 && count(x.F, "compound") < 2 {
				cfg.DiscoveryTimeout = 1
				so, agent := mkOpts(x, i)
				so.DiscoveryMethod = []string{"mc", "broadcast"}[i%2]
				o.nodes, _, o.err = so.Discover(ctx, bf, agent, false, false, log)
			} else {
				o.nodes, o.err = broadcast.New(bf).Discover(ctx, opts...)
			}
		}); g != "" {
			o.err = fmt.Errorf("%s", g)
			return o
		}
		took := time.Since(start)
		n.mu.Lock()
		defer n.mu.Unlock()
		if c.V.ByName {
			if len(n.pubs) != 0 {
				o.note = [3]any{"asked", "nobody", len(n.pubs)}
			}
			return o
		}
		if len(n.pubs) != 1 {
			o.note = [3]any{"requests", 1, len(n.pubs)}
			return o
		}
		p := n.pubs[0]
		f := p.Filter()
		if f == nil {
			f = protocol.NewFilter()
		}
		got := []any{p.Agent(), p.Collective(), p.Type(), string(p.Payload()), f.Identity, f.Agent, f.Class, f.Fact, f.Compound}
		canon := func(f *protocol.Filter) string {
			l := []string{}
			for _, k := range [][]string{f.Identity, f.Agent, f.Class} {
				l = append(l, strings.Join(dcSorted(k), ","))
			}
			fs := []string{}
			for _, x := range f.Fact {
				fs = append(fs, x.Fact+x.Operator+x.Value)
			}
			cs := []string{}
			for _, x := range f.Compound {
				cs = append(cs, fmt.Sprint(x))
			}
			return strings.Join(append(l, strings.Join(dcSorted(fs), ","), strings.Join(dcSorted(cs), ",")), "|")
		}
		body := string(p.Payload())
		if dec, err := base64.StdEncoding.DecodeString(body); err == nil {
			body = string(dec)
		}
		if p.Agent() != "discovery" || p.Collective() != x.C || p.Type() != inter.RequestMessageType || body != "ping" || canon(f) != canon(flt) {
			o.note = [3]any{"request", []any{"discovery", x.C, "request", canon(flt)}, got}
		}
		if c.Part == "window" {
			// it does not go on for longer than it listens
			max := to + n.slow
			if x.Slide && len(c.V.Nodes) > 0 {
				at := 0
				for j := 0; j < len(c.V.Nodes); j++ {
					at += x.At[j]
				}
				if d := time.Duration(at+3) * tick; d < max {
					max = d
				}
			}
			if took > max {
				o.note = [3]any{"listens", max.String(), took.String()}
			}
		}
		return o
	}

	run := func(c dcCase, i int) outcome {
		x := c.R
		o := outcome{}
		switch {
		case c.Part == "window" || x.Src == "broadcast":
			return bcast(c, i)

		case x.Src == "puppetdb":
			pdbErr = nil
			before := pdbQueries
			if i%2 == 0 && count(x.F, "compound") == 0 {
				so, agent := mkOpts(x, i)
				so.DiscoveryMethod = []string{"choria", "puppetdb"}[i/2%2]
				o.nodes, _, o.err = so.Discover(ctx, fw, agent, false, false, log)
			} else {
				o.nodes, o.err = puppetdb.New(fw).Discover(ctx, puppetdb.Filter(mkFilter(x.F)), puppetdb.Collective(x.C), puppetdb.Timeout(time.Second))
			}
			if pdbErr != nil {
				o.note = [3]any{"query", "a valid query", pdbErr.Error()}
			} else if (c.V.ByName || !c.V.OK) && pdbQueries != before {
				o.note = [3]any{"asked", "nobody", pdbQueries - before}
			}

		case x.Src == "inventory":
			cfg := newcfg()
			bf := &dcFw{fw, nil, cfg}
			if i%2 == 0 && count(x.F, "compound") < 2 {
				so, agent := mkOpts(x, i)
				so.DiscoveryMethod = "inventory"
				so.DiscoveryOptions["file"] = invjson
				o.nodes, _, o.err = so.Discover(ctx, bf, agent, false, false, log)
			} else {
				opts := []inventory.DiscoverOption{inventory.Filter(mkFilter(x.F)), inventory.Collective(x.C)}
				if i%3 == 0 {
					cfg.Choria.InventoryDiscoverySource = invjson
				} else {
					opts = append(opts, inventory.File(invjson))
				}
				o.nodes, o.err = inventory.New(bf).Discover(ctx, opts...)
			}

		case c.Part == "groups":
			f := [][2]string{}
			for _, id := range x.IDs {
				f = append(f, [2]string{"id", id})
			}
			switch x.Extra {
			case "agent":
				f = append(f, [2]string{"agent", "rpcutil"})
			case "agents":
				f = append(f, [2]string{"agent", "rpcutil"}, [2]string{"agent", "package"})
			case "class":
				f = append(f, [2]string{"class", "apache"})
			case "fact":
				f = append(f, [2]string{"fact", "country=mt"})
			case "compound":
				f = append(f, [2]string{"compound", "with('apache')"})
			}
			o.nodes, o.err = inventory.New(fw).Discover(ctx, inventory.Filter(mkFilter(f)), inventory.Collective(x.C), inventory.File(invjson))

		case c.Part == "files":
			d := invdata()
			nodes := d["nodes"].([]any)
			switch x.Bad {
			case "schema":
				d["$schema"] = "https://choria.io/schemas/other.json"
			case "noschema":
				delete(d, "$schema")
			case "nonodes":
				delete(d, "nodes")
			case "extra":
				nodes[1].(m)["colour"] = "red"
			case "noname":
				delete(nodes[2].(m), "name")
			case "emptyname":
				nodes[2].(m)["name"] = ""
			case "badgroup":
				d["groups"] = append(append([]any{}, groups...), m{"name": "not ok"})
			case "groupnofilter":
				d["groups"] = []any{m{"name": "x"}}
			}
			data := asJSON(d)
			if x.Bad == "garbage" {
				data = append([]byte("{"), data...)
			}
			name := "inv.json"
			if x.YAML {
				name = []string{"inv.yaml", "inv.yml"}[i%2]
				if x.Bad != "garbage" {
					data = dcYAML(d)
				}
			}
			file := put(name, data, 0600)
			if x.Bad == "missing" {
				file = filepath.Join(dir, "missing-"+name)
			}
			do := map[string]string{"file": file}
			if x.NoValidate {
				do["novalidate"] = "1"
			}
			o.nodes, o.err = inventory.New(fw).Discover(ctx, inventory.DiscoveryOptions(do), inventory.Collective("mt"))

		case x.Src == "flatfile" || c.Part == "flat":
			if c.Part == "filters" {
				x.Fmt, x.As, x.How = "text", "text", "file"
			}
			list := append([]string{}, names...)
			if x.Bad == "badname" {
				list = append(list, "bad_name!")
			}
			if x.Bad == "empty" {
				list = []string{}
			}
			var val any = list
			if x.Q != "" {
				val = m{"nodes": list, "other": []any{"x"}}
			}
			if x.Bad == "notlist" {
				val = m{"a": "b"}
			}
			var data []byte
			switch x.As {
			case "text":
				l := append([]string{}, list...)
				if x.Bad == "spaces" {
					for i := range l {
						l[i] = "  " + l[i] + "\t"
					}
				}
				data = []byte(strings.Join(l, []string{"\n", "\r\n"}[i%2]))
				if len(l) > 0 && i%3 == 0 {
					data = append(data, '\n')
				}
			case "json":
				data = asJSON(val)
			case "yaml":
				data = dcYAML(val)
			case "rpc":
				reps := []any{}
				for _, s := range list {
					reps = append(reps, m{"sender": s, "statuscode": 0, "statusmsg": "OK", "data": m{}})
				}
				data = asJSON(m{"agent": "rpcutil", "action": "ping", "replies": reps})
				if x.Bad == "notlist" {
					data = []byte("[" + string(data) + "]")
				}
			}
			file := put("nodes.txt", data, 0600)
			if x.How == "missing" {
				file = filepath.Join(dir, "absent.txt")
			}
			fmts := map[string]flatfile.SourceFormat{"text": flatfile.TextFormat, "json": flatfile.JSONFormat, "yaml": flatfile.YAMLFormat, "rpc": flatfile.ChoriaResponsesFormat}
			do := map[string]string{}
			opts := []flatfile.DiscoverOption{}
			switch x.How {
			case "file", "missing":
				opts = append(opts, flatfile.File(file))
			case "reader":
				opts = append(opts, flatfile.Reader(strings.NewReader(string(data))))
			case "option":
				do["file"] = file
				if x.Fmt != "" {
					do["format"] = map[string][]string{"text": {"text", "txt"}, "json": {"json", "json"}, "yaml": {"yaml", "yml"}, "rpc": {"choriarpc", "rpc"}}[x.Fmt][i%2]
				}
			}
			if x.How != "option" && x.Fmt != "" {
				opts = append(opts, flatfile.Format(fmts[x.Fmt]))
			}
			switch x.Q {
			case "nodes", "gone":
				do["filter"] = x.Q
			case "blank":
				do["filter"] = ""
			}
			if len(do) > 0 {
				opts = append(opts, flatfile.DiscoveryOptions(do))
			}
			if c.Part == "filters" {
				opts = append(opts, flatfile.Filter(mkFilter(x.F)))
			}
			o.nodes, o.err = flatfile.New(fw).Discover(ctx, opts...)

		case c.Part == "external":
			cfg := newcfg()
			cfg.DiscoveryTimeout = 7
			bf := &dcFw{fw, nil, cfg}
			todo := ""
			rep := m{"protocol": external.ResponseProtocol, "nodes": c.V.Nodes}
			if !c.V.OK { // what a command that fails says is not to be believed
				l := []string{}
				for _, n := range dcFleet {
					l = append(l, n.Name)
				}
				rep["nodes"] = l
			}
			switch x.Does {
			case "error":
				rep["error"] = "simulated failure"
			case "exit":
				todo = "after='exit 3'"
				if x.Args {
					todo = "after='exit 1'"
				}
			case "protocol":
				rep["protocol"] = "io.choria.other"
			case "hang":
				todo = "sleep 3"
			case "noise":
				todo = "head -c 300000 /dev/zero | tr '\\0' 'x'; echo; echo more; head -c 300000 /dev/zero | tr '\\0' 'y' >&2; echo more >&2"
			}
			put("reply.json", asJSON(rep), 0600)
			if x.Does == "garbage" {
				put("reply.json", []byte("{garbage"), 0600)
			}
			todo += "\n"
			if x.Does != "silent" {
				todo += "cat \"$d/reply.json\" > \"$CHORIA_EXTERNAL_REPLY\"\n"
			}
			todo += "$after\n"
			put("todo.sh", []byte(todo), 0600)
			for _, f := range []string{"got.request", "got.env", "got.args"} {
				os.Remove(filepath.Join(dir, f))
			}
			cmd := script
			extra := []string{}
			if x.Args {
				cmd += " --x 'a  b' \"\""
				extra = []string{"<--x>", "<a  b>", "<>"}
			}
			to := 5 * time.Second
			if x.Does == "hang" {
				to = time.Second
			}
			flt := mkFilter(x.F)
			opts := []external.DiscoverOption{external.Collective(x.C), external.Timeout(to), external.Federations([]string{"f1", "f2"})}
			if len(x.F) > 0 {
				opts = append(opts, external.Filter(flt))
			}
			do := map[string]string{"colour": "red"}
			switch x.Cmd {
			case "config":
				cfg.Choria.ExternalDiscoveryCommand = cmd
			case "option":
				cfg.Choria.ExternalDiscoveryCommand = "/nonexisting"
				do["command"] = cmd
			case "call":
				cfg.Choria.ExternalDiscoveryCommand = "/nonexisting"
				opts = append(opts, external.Command(cmd))
			case "blank":
				cfg.Choria.ExternalDiscoveryCommand = "  "
			case "absent":
				cfg.Choria.ExternalDiscoveryCommand = filepath.Join(dir, "absent.sh")
			}
			opts = append(opts, external.DiscoveryOptions(do))
			start := time.Now()
			e := external.New(bf)
			for k := 0; k < 2; k++ { // again with the very same options
				o.nodes, o.err = e.Discover(ctx, opts...)
				if (o.err == nil) != c.V.OK || x.Does == "hang" {
					break
				}
			}
			if took := time.Since(start); took > 2500*time.Millisecond && x.Does == "hang" {
				o.note = [3]any{"timeout", "stops at the timeout", took.String()}
			}
			if l, _ := os.ReadDir(scratch); len(l) != 0 {
				o.note = [3]any{"files", "no files left behind", len(l)}
			}
			if x.Cmd == "none" || x.Cmd == "blank" || x.Cmd == "absent" {
				break
			}
			gotreq := map[string]any{}
			b, _ := os.ReadFile(filepath.Join(dir, "got.request"))
			json.Unmarshal(b, &gotreq)
			want := m{"$schema": external.RequestSchema, "protocol": external.RequestProtocol, "collective": x.C, "filter": flt, "federations": []string{"f1", "f2"}, "options": m{"colour": "red"}, "timeout": to.Seconds()}
			if !vhSame(gotreq, want) {
				o.note = [3]any{"request", want, gotreq}
			}
			b, _ = os.ReadFile(filepath.Join(dir, "got.env"))
			lines := strings.Split(string(b), "\n")
			if len(lines) < 2 || lines[0] != lines[1] || !strings.HasSuffix(lines[0], " "+external.RequestProtocol) {
				o.note = [3]any{"environment", "the same files in arguments and environment", lines}
			}
			b, _ = os.ReadFile(filepath.Join(dir, "got.args"))
			args := strings.Split(strings.TrimSpace(string(b)), "\n")
			if len(args) != len(extra)+3 || !vhSame(args[:len(extra)], extra) {
				o.note = [3]any{"arguments", extra, args}
			}
		}
		return o
	}
	judge := func(o outcome, c dcCase) (string, any, any) {
		if o.note[0] != nil {
			return o.note[0].(string), o.note[1], o.note[2]
		}
		if (o.err == nil) != c.V.OK {
			return "decides", c.V.OK, fmt.Sprint(o.err)
		}
		if o.err == nil && !vhSame(dcSorted(o.nodes), dcSorted(c.V.Nodes)) {
			return "nodes", dcSorted(c.V.Nodes), dcSorted(o.nodes)
		}
		return "", nil, nil
	}

	// those that take time run on a clock of their own
	timed := map[int]outcome{}
	for i, c := range in.Cases {
		if c.Part != "window" && c.R.Src != "broadcast" {
			continue
		}
		synctest.Test(t, func(t *testing.T) {
			timed[i] = bcast(c, i)
			time.Sleep(time.Minute)
		})
	}
	for i, c := range in.Cases {
		r.Case(c.ID)
		r.Step()
		o, ok := timed[i]
		if !ok {
			if g := vhGuard(30*time.Second, func() { o = run(c, i) }); g != "" {
				r.Mismatch(c.ID, 0, c.Part+"-crash", "an answer", g, c.R)
				continue
			}
		}
		src := c.Part
		if c.R.Src != "" {
			src = c.R.Src
		}
		if key, want, got := judge(o, c); key != "" {
			r.Mismatch(c.ID, 0, src+"-"+key, want, got, c.R)
		}
	}
}

func dcYAML(v any) []byte {
	j, _ := json.Marshal(v)
	var x any
	json.Unmarshal(j, &x)
	return []byte(dcY(x, ""))
}
func dcY(v any, ind string) string {
	switch x := v.(type) {
	case map[string]any:
		if len(x) == 0 {
			return ind + "{}\n"
		}
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := ""
		for _, k := range ks {
			s += ind + strconv.Quote(k) + ":\n" + dcY(x[k], ind+"  ")
		}
		return s
	case []any:
		if len(x) == 0 {
			return ind + "[]\n"
		}
		s := ""
		for _, e := range x {
			s += ind + "-\n" + dcY(e, ind+"  ")
		}
		return s
	default:
		j, _ := json.Marshal(x)
		return ind + string(j) + "\n"
	}
}
