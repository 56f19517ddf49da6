package vh

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/aagent"
	"github.com/choria-io/go-choria/build"
	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/message"
	"github.com/choria-io/go-choria/providers/data/ddl"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/choria-io/go-choria/server/data"
	"github.com/choria-io/go-choria/server/registration"
	"github.com/choria-io/go-choria/statistics"
	"github.com/sirupsen/logrus"
)

type rgState struct {
	Cfg struct {
		Provs    []string `json:"provs"`
		Trigger  bool     `json:"trigger"`
		Compress bool     `json:"compress"`
		Target   string   `json:"target"`
	} `json:"cfg"`
	File struct {
		Kind string `json:"kind"`
		K    int    `json:"k"`
		Mt   int    `json:"mt"`
	} `json:"file"`
	Cust int  `json:"cust"`
	Conn bool `json:"conn"`
}
type rgOut struct {
	P   string `json:"p"`
	K   int    `json:"k"`
	Upd bool   `json:"upd"`
}
type rgCase struct {
	ID    string  `json:"id"`
	Init  rgState `json:"init"`
	Steps []struct {
		A struct {
			X   string  `json:"x"`
			N   int     `json:"n"`
			Out []rgOut `json:"out"`
		} `json:"a"`
		S rgState `json:"s"`
	} `json:"steps"`
}
type rgRow struct {
	ID  string `json:"id"`
	Row struct {
		Reg        []string `json:"reg"`
		Data       bool     `json:"data"`
		Interval   int      `json:"interval"`
		Splay      bool     `json:"splay"`
		Collective string   `json:"collective"`
	} `json:"row"`
	OK   bool     `json:"ok"`
	On   []string `json:"on"`
	Last int      `json:"last"`
	In   string   `json:"in"`
}

var rgLens = []int{0, 300, 330, 345, 375}
var rgSizes = []int{0, 100, 139, 140, 180}

func rgContent(k int) []byte { return bytes.Repeat([]byte{byte('a' + k)}, rgLens[k]) }

// what a node knows about itself
type rgInfo struct{}

func (rgInfo) Classes() []string                 { return []string{"c1", "c2"} }
func (rgInfo) Facts() json.RawMessage            { return json.RawMessage(`{"f":{"g":[1,"x"]}}`) }
func (rgInfo) Identity() string                  { return "me.example" }
func (rgInfo) KnownAgents() []string             { return []string{"a1", "gone", "a2"} }
func (rgInfo) DataFuncMap() (ddl.FuncMap, error) { return nil, nil }
func (rgInfo) Status() *statistics.InstanceStatus {
	return &statistics.InstanceStatus{Identity: "me.example", Uptime: 7}
}
func (rgInfo) BuildInfo() *build.Info { return &build.Info{} }
func (rgInfo) MachinesStatus() ([]aagent.MachineState, error) {
	return []aagent.MachineState{{Name: "m1", Version: "1.2.3", State: "RUN", Path: "/x"}, {Name: "m2", Version: "0.0.1", State: "STOP"}}, nil
}
func (rgInfo) AgentMetadata(a string) (agents.Metadata, bool) {
	return agents.Metadata{Name: a, Version: "9.9.9"}, a != "gone"
}

// the network
type rgMsg struct {
	at  time.Time
	msg inter.Message
}
type rgNet struct {
	mu   sync.Mutex
	conn bool
	fail bool
	n    int
	msgs []rgMsg
}

func (n *rgNet) IsConnected() bool { n.mu.Lock(); defer n.mu.Unlock(); return n.conn }
func (n *rgNet) Publish(m inter.Message) error {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.n++
	n.msgs = append(n.msgs, rgMsg{time.Now(), m})
	if n.fail && n.n%3 == 0 {
		return fmt.Errorf("simulated failure")
	}
	return nil
}
func (n *rgNet) take() []rgMsg {
	n.mu.Lock()
	defer n.mu.Unlock()
	m := n.msgs
	n.msgs = nil
	return m
}

type rgFw struct {
	*choria.Framework
	cfg *config.Config
}

func (f *rgFw) Configuration() *config.Config { return f.cfg }
func (f *rgFw) NewMessage(payload []byte, agent string, collective string, msgType string, request inter.Message) (inter.Message, error) {
	return message.NewMessage(payload, agent, collective, msgType, request, f)
}

// a source others add
type rgCustom struct {
	mu     sync.Mutex
	k      int
	target string
}

func (c *rgCustom) StartRegistration(ctx context.Context, wg *sync.WaitGroup, interval int, out chan *data.RegistrationItem) {
	defer wg.Done()
	t := time.NewTimer(2500 * time.Millisecond)
	for {
		select {
		case <-t.C:
			t.Reset(time.Duration(interval) * time.Second)
			c.mu.Lock()
			k := c.k
			c.mu.Unlock()
			var i *data.RegistrationItem
			switch {
			case k == -1:
				i = &data.RegistrationItem{Data: []byte{}}
			case k > 0:
				i = &data.RegistrationItem{Data: []byte(fmt.Sprintf("%d%s", k, strings.Repeat("-", rgSizes[k]-1)))}
				switch c.target {
				case "dest":
					i.Destination = "custom.dest"
				case "agent":
					i.TargetAgent = "custom"
				}
			}
			select {
			case out <- i:
			case <-ctx.Done():
				return
			}
		case <-ctx.Done():
			return
		}
	}
}

func rgUnzip(b []byte) []byte {
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil
	}
	b, err = io.ReadAll(z)
	if err != nil {
		return nil
	}
	return b
}

// what a message is, or what is wrong with it
func rgDecode(m inter.Message, file string, cfg *config.Config, target string, mt int64) (rgOut, string) {
	o := rgOut{}
	if m.Collective() != cfg.RegistrationCollective || m.Type() != inter.RequestMessageType || m.ReplyTo() != "dev.null" {
		return o, fmt.Sprintf("collective %s type %s reply to %s", m.Collective(), m.Type(), m.ReplyTo())
	}
	if len(m.Payload()) > 1 && m.Payload()[1] == '-' {
		o.P, o.K = "custom", int(m.Payload()[0]-'0')
	} else {
		var x struct {
			Protocol string
			Mtime    int64
			File     string
			Updated  bool
			Content  json.RawMessage
			ZContent []byte
		}
		if err := json.Unmarshal(m.Payload(), &x); err != nil {
			return o, "payload " + string(m.Payload())
		}
		switch x.Protocol {
		case "choria:registration:filecontent:1":
			o.P, o.Upd = "file", x.Updated
			var c []byte
			if x.Content != nil {
				json.Unmarshal(x.Content, &c)
			}
			if (x.ZContent != nil) != cfg.Choria.FileContentCompression || (x.Content == nil) != cfg.Choria.FileContentCompression {
				return o, "compressed against the configuration"
			}
			if x.ZContent != nil {
				c = rgUnzip(x.ZContent)
			}
			for k := 1; k < len(rgLens); k++ {
				if bytes.Equal(c, rgContent(k)) {
					o.K = k
				}
			}
			if x.File != file || x.Mtime != mt {
				return o, fmt.Sprintf("file %s modified %d, not %d", x.File, x.Mtime, mt)
			}
		case "choria:registration:inventorycontent:1":
			o.P = "inventory"
			b := []byte(x.Content)
			if (x.ZContent != nil) != cfg.Choria.InventoryContentCompression {
				return o, "compressed against the configuration"
			}
			if x.ZContent != nil {
				b = rgUnzip(x.ZContent)
			}
			got := map[string]any{}
			json.Unmarshal(b, &got)
			st, _ := json.Marshal(rgInfo{}.Status())
			ag := []any{}
			for _, a := range []string{"a1", "a2"} {
				am, _ := rgInfo{}.AgentMetadata(a)
				ag = append(ag, am)
			}
			want := map[string]any{"agents": ag, "classes": []string{"c1", "c2"}, "facts": json.RawMessage(`{"f":{"g":[1,"x"]}}`), "status": json.RawMessage(st), "collectives": cfg.Collectives,
				"build_info": map[string]any{"version": rgInfo{}.BuildInfo().Version(), "sha": rgInfo{}.BuildInfo().SHA()},
				"machines":   []any{map[string]any{"name": "m1", "version": "1.2.3", "state": "RUN"}, map[string]any{"name": "m2", "version": "0.0.1", "state": "STOP"}}}
			if !vhSame(got, want) {
				return o, string(b)
			}
		default:
			return o, "payload " + string(m.Payload())
		}
	}
	wd, wa := "", "registration"
	switch {
	case target == "dest" && o.P == "custom":
		wd = "custom.dest"
	case target == "dest":
		wd = o.P + ".dest"
	case target == "agent" && o.P == "custom":
		wa = "custom"
	}
	if m.CustomTarget() != wd || m.Agent() != wa {
		return o, fmt.Sprintf("sent to %q agent %q", m.CustomTarget(), m.Agent())
	}
	return o, ""
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases []*rgCase `json:"cases"`
		Rows  []*rgRow  `json:"rows"`
	}
	r := vhOpen(t, &in)
	defer r.Done()
	logrus.SetOutput(io.Discard)
	dir := t.TempDir()
	cfg := rgConfig()
	fw, err := choria.NewWithConfig(cfg)
	if err != nil {
		r.Error("%v", err)
	}
	for _, c := range in.Rows {
		r.Case(c.ID)
		r.Step()
		synctest.Test(t, func(t *testing.T) { rgBegin(r, c, fw, dir) })
	}
	for i, c := range in.Cases {
		r.Case(c.ID)
		synctest.Test(t, func(t *testing.T) { rgWalk(r, c, fw, dir, i%2 == 1) })
	}
}

func rgConfig() *config.Config {
	cfg := config.NewConfigForTests()
	cfg.Collectives, cfg.MainCollective, cfg.RegistrationCollective, cfg.LogLevel, cfg.LogFile = []string{"mt", "reg", "main"}, "mt", "reg", "fatal", "discard"
	cfg.Identity = "me.example"
	cfg.DisableTLS = true
	cfg.DisableSecurityProviderVerify = true
	cfg.OverrideCertname = "me.mcollective"
	cfg.Choria.SecurityProvider = "file"
	return cfg
}

func rgFinish(r *vhReporter, id string, step int, cancel func(), wg *sync.WaitGroup) bool {
	cancel()
	done := false
	go func() { wg.Wait(); done = true }()
	time.Sleep(time.Second)
	synctest.Wait()
	if !done {
		r.Mismatch(id, step, "stops", "everything stops", "something goes on")
		os.Stdout.Sync()
		r.Done()
		os.Exit(0)
	}
	return done
}

func rgBegin(r *vhReporter, c *rgRow, fw *choria.Framework, dir string) {
	cfg := rgConfig()
	cfg.Registration = c.Row.Reg
	cfg.RegisterInterval = c.Row.Interval
	cfg.RegistrationSplay = c.Row.Splay
	cfg.RegistrationCollective = c.Row.Collective
	cfg.MainCollective = "main"
	cfg.Collectives = []string{"main", "reg"}
	file := filepath.Join(dir, "data")
	mt := time.Unix(1700000000, 0)
	os.WriteFile(file, rgContent(1), 0600)
	os.Chtimes(file, mt, mt)
	if c.Row.Data {
		cfg.Choria.FileContentRegistrationData = file
	}
	n := &rgNet{conn: true}
	log := logrus.New()
	log.SetOutput(io.Discard)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	m := registration.New(&rgFw{fw, cfg}, rgInfo{}, n, log.WithField("x", 1))
	start := time.Now()
	wg.Add(1)
	var err error
	if g := vhPanics(func() { err = m.Start(ctx, wg) }); g != "" {
		r.Mismatch(c.ID, 0, "begin-crash", c.OK, g, c.Row)
	}
	if (err == nil) != c.OK {
		r.Mismatch(c.ID, 0, "begin", c.OK, fmt.Sprint(err), c.Row)
	}
	rounds := 4
	if c.OK {
		time.Sleep(time.Duration(rounds*max(c.Row.Interval, 1)+c.Last) * time.Second)
		synctest.Wait()
		seen := map[string][]time.Duration{}
		for _, x := range n.take() {
			o, bad := rgDecode(x.msg, file, cfg, "", mt.Unix())
			if bad != "" {
				r.Mismatch(c.ID, 0, "begin-message", "", bad, c.Row)
			}
			if x.msg.Collective() != c.In {
				r.Mismatch(c.ID, 0, "begin-collective", c.In, x.msg.Collective(), c.Row)
			}
			seen[o.P+"_content"] = append(seen[o.P+"_content"], x.at.Sub(start))
		}
		for _, p := range c.On {
			l := seen[p]
			if len(l) < rounds || l[0] < time.Second || l[0] > time.Duration(c.Last)*time.Second {
				r.Mismatch(c.ID, 0, "begin-times", c.Last, fmt.Sprint(p, l), c.Row)
				continue
			}
			for i := 1; i < len(l); i++ {
				if l[i]-l[i-1] != time.Duration(c.Row.Interval)*time.Second {
					r.Mismatch(c.ID, 0, "begin-interval", c.Row.Interval, fmt.Sprint(p, l), c.Row)
					break
				}
			}
			delete(seen, p)
		}
		if len(seen) != 0 {
			r.Mismatch(c.ID, 0, "begin-sources", c.On, seen, c.Row)
		}
	}
	rgFinish(r, c.ID, 0, cancel, wg)
}

func vhPanics(f func()) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return ""
}

func rgWalk(r *vhReporter, c *rgCase, fw *choria.Framework, dir string, fail bool) {
	s := c.Init
	cfg := rgConfig()
	cfg.RegisterInterval = 10
	cfg.RegistrationSplay = false
	if s.Cfg.Trigger {
		cfg.RegisterInterval = 30
		cfg.Choria.RegistrationSizeTrigger = 40
		cfg.Choria.RegistrationSizeInterval = 10
	}
	cfg.Choria.FileContentCompression = s.Cfg.Compress
	cfg.Choria.InventoryContentCompression = len(c.Steps)%2 == 0
	sub := filepath.Join(dir, "sub")
	file := filepath.Join(sub, "data")
	cfg.Choria.FileContentRegistrationData = file
	if s.Cfg.Target == "dest" {
		cfg.Choria.FileContentRegistrationTarget = "file.dest"
		cfg.Choria.InventoryContentRegistrationTarget = "inventory.dest"
	}
	mt := func(s rgState) int64 { return 1700000000 + int64(s.File.Mt) }
	put := func(s rgState) {
		os.RemoveAll(sub)
		if s.File.Kind == "nodir" {
			os.WriteFile(sub, []byte("x"), 0600)
			return
		}
		os.Mkdir(sub, 0700)
		switch s.File.Kind {
		case "ok":
			os.WriteFile(file, rgContent(s.File.K), 0600)
		case "empty":
			os.WriteFile(file, nil, 0600)
		default:
			return
		}
		at := time.Unix(mt(s), 0)
		if err := os.Chtimes(file, at, at); err != nil {
			r.Error("%v", err)
		}
	}
	put(s)
	custom := &rgCustom{k: s.Cust, target: s.Cfg.Target}
	added := false
	for _, p := range s.Cfg.Provs {
		switch p {
		case "custom":
			added = true
		default:
			cfg.Registration = append(cfg.Registration, p+"_content")
		}
	}
	if len(c.Steps)%3 == 0 {
		sort.Sort(sort.Reverse(sort.StringSlice(cfg.Registration)))
	}
	n := &rgNet{conn: s.Conn, fail: fail}
	log := logrus.New()
	log.SetOutput(io.Discard)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	m := registration.New(&rgFw{fw, cfg}, rgInfo{}, n, log.WithField("x", 1))
	wg.Add(1)
	if err := m.Start(ctx, wg); err != nil {
		r.Mismatch(c.ID, 0, "begin", nil, err.Error(), s.Cfg)
	}
	if added {
		m.RegisterProvider(ctx, wg, custom)
	}
	start := time.Now()
	stopped := false
	round := 0
	for i, st := range c.Steps {
		r.Step()
		switch st.A.X {
		case "poll", "silent":
			// sources are polled between 10n and 10n+5 seconds
			time.Sleep(start.Add(time.Duration(round*10+6) * time.Second).Sub(time.Now()))
			synctest.Wait()
			round++
		case "resize", "touch", "ok", "gone", "empty", "nodir":
			put(st.S)
		case "say":
			custom.mu.Lock()
			custom.k = st.S.Cust
			custom.mu.Unlock()
		case "conn":
			n.mu.Lock()
			n.conn = st.S.Conn
			n.mu.Unlock()
		case "stop":
			stopped = rgFinish(r, c.ID, i, cancel, wg)
		}
		got := []string{}
		for _, x := range n.take() {
			o, bad := rgDecode(x.msg, file, cfg, s.Cfg.Target, mt(st.S))
			if bad != "" {
				r.Mismatch(c.ID, i, "message", "", bad, s.Cfg)
			}
			got = append(got, fmt.Sprint(o))
		}
		want := []string{}
		for _, o := range st.A.Out {
			want = append(want, fmt.Sprint(o))
		}
		sort.Strings(got)
		sort.Strings(want)
		if !vhSame(got, want) {
			key := "published"
			if len(s.Cfg.Provs) > 1 {
				key = "published-together"
			}
			r.Mismatch(c.ID, i, key, want, got, s.Cfg)
			break
		}
	}
	if !stopped {
		rgFinish(r, c.ID, len(c.Steps), cancel, wg)
	}
	os.RemoveAll(sub)
}
