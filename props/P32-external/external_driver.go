package external

// Replays the external agent specifications into the real provider, with real programs.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/nats-io/nats.go"
	"github.com/sirupsen/logrus"
)

type vhFiles struct {
	A1    string `json:"a1"`
	Fresh bool   `json:"fresh"`
	A2    string `json:"a2"`
	B     string `json:"b"`
	KA    []any  `json:"ka"`
	KB    []any  `json:"kb"`
}

type vhCase struct {
	ID    string `json:"id"`
	Kind  string `json:"kind"`
	Steps []struct {
		A struct {
			Op    string `json:"op"`
			N     string `json:"n"`
			V     string `json:"v"`
			Fresh bool   `json:"fresh"`
		} `json:"a"`
		S vhFiles `json:"s"`
	} `json:"steps"`
	Rows []struct {
		R struct {
			Input string `json:"input"`
			Prog  string `json:"prog"`
			Exit  string `json:"exit"`
			Reply string `json:"reply"`
			Out   string `json:"out"`
		} `json:"r"`
		Ran    int    `json:"ran"`
		Status string `json:"status"`
		Data   string `json:"data"`
		Told   bool   `json:"told"`
	} `json:"rows"`
}

type vhFW struct {
	inter.Framework
	cfg *config.Config
}

func (f vhFW) Configuration() *config.Config { return f.cfg }
func (f vhFW) ProvisionMode() bool           { return false }

type vhSI struct{ agents.ServerInfoSource }

func (vhSI) Facts() json.RawMessage { return json.RawMessage(`{"fact":"value"}`) }
func (vhSI) Classes() []string      { return nil }
func (vhSI) KnownAgents() []string  { return nil }

type vhMsg struct {
	inter.Message
	p []byte
}

func (m vhMsg) Payload() []byte   { return m.p }
func (m vhMsg) RequestID() string { return "rid" }

type vhConn struct {
	mu   sync.Mutex
	subs map[string]string
}

func (c *vhConn) ConnectedServer() string          { return "nats://vh" }
func (c *vhConn) ConnectionOptions() nats.Options  { return nats.Options{} }
func (c *vhConn) ConnectionStats() nats.Statistics { return nats.Statistics{} }
func (c *vhConn) InboxPrefix() string              { return "vh" }
func (c *vhConn) AgentBroadcastTarget(coll, a string) string {
	return coll + ".broadcast.agent." + a
}
func (c *vhConn) ServiceBroadcastTarget(coll, a string) string {
	return coll + ".broadcast.service." + a
}
func (c *vhConn) QueueSubscribe(_ context.Context, name, subject, group string, out chan inter.ConnectorMessage) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.subs[name] = subject
	return nil
}
func (c *vhConn) Unsubscribe(name string) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.subs, name)
	return nil
}

// the real agent manager, remembering which instance serves each agent
type vhMgr struct {
	*agents.Manager
	fw   vhFW
	log  *logrus.Entry
	inst map[string]agents.Agent
}

func (m *vhMgr) Logger() *logrus.Entry   { return m.log }
func (m *vhMgr) Choria() inter.Framework { return m.fw }
func (m *vhMgr) known() map[string]bool {
	k := map[string]bool{}
	for _, n := range m.KnownAgents() {
		k[n] = true
	}
	return k
}
func (m *vhMgr) RegisterAgent(ctx context.Context, name string, agent agents.Agent, conn inter.AgentConnector) error {
	before := m.known()[name]
	err := m.Manager.RegisterAgent(ctx, name, agent, conn)
	if !before && m.known()[name] {
		m.inst[name] = agent
	}
	return err
}
func (m *vhMgr) ReplaceAgent(name string, agent agents.Agent) error {
	err := m.Manager.ReplaceAgent(name, agent)
	if err == nil {
		m.inst[name] = agent
	}
	return err
}
func (m *vhMgr) UnregisterAgent(name string, conn inter.AgentConnector) error {
	err := m.Manager.UnregisterAgent(name, conn)
	if err == nil {
		delete(m.inst, name)
	}
	return err
}

type vhEnv struct {
	r    *vhReporter
	dir  string
	tmp  string
	prov *Provider
	mgr  *vhMgr
	conn *vhConn
	ctl  string
	rec  string
}

func vhSetup(r *vhReporter, dir string) *vhEnv {
	e := &vhEnv{r: r, dir: dir, tmp: filepath.Join(dir, "tmp"), ctl: filepath.Join(dir, "ctl"), rec: filepath.Join(dir, "rec")}
	for _, d := range []string{e.tmp, e.rec, filepath.Join(dir, "lib1", "mcollective", "agent"), filepath.Join(dir, "lib2", "mcollective", "agent")} {
		if err := os.MkdirAll(d, 0755); err != nil {
			r.Error("mkdir: %v", err)
		}
	}
	os.Setenv("TMPDIR", e.tmp)
	os.Setenv("VH_SECRET", "secret")
	l := logrus.New()
	l.SetOutput(io.Discard)
	log := logrus.NewEntry(l)
	cfg, err := config.NewDefaultConfig()
	if err != nil {
		r.Error("config: %v", err)
	}
	cfg.ConfigFile = filepath.Join(dir, "server.conf")
	cfg.RPCAuthorization = false
	cfg.Collectives = []string{"c1"}
	cfg.MainCollective = "c1"
	cfg.Choria.RubyLibdir = []string{filepath.Join(dir, "lib1"), filepath.Join(dir, "lib2")}
	fw := vhFW{cfg: cfg}
	e.conn = &vhConn{subs: map[string]string{}}
	e.mgr = &vhMgr{Manager: agents.New(make(chan inter.ConnectorMessage, 10), fw, e.conn, vhSI{}, log), fw: fw, log: log, inst: map[string]agents.Agent{}}
	e.prov = &Provider{}
	e.prov.Initialize(cfg, log)
	return e
}

func vhDDL(name, version, provider string, timeout int, dup bool) []byte {
	act := map[string]any{"action": "act", "display": "failed", "description": "d",
		"input": map[string]any{
			"x": map[string]any{"prompt": "x", "description": "x", "type": "string", "validation": "shellsafe", "maxlength": 20, "optional": false},
			"n": map[string]any{"prompt": "n", "description": "n", "type": "integer", "optional": true}},
		"output": map[string]any{
			"place": map[string]any{"description": "p", "display_as": "p"},
			"ver":   map[string]any{"description": "v", "display_as": "v", "default": version},
			"cnt":   map[string]any{"description": "c", "display_as": "c", "default": 5}}}
	acts := []any{act, map[string]any{"action": "other", "input": map[string]any{}, "output": map[string]any{}}}
	if dup {
		acts = append(acts, act)
	}
	j, _ := json.Marshal(map[string]any{"$schema": "x", "metadata": map[string]any{"name": name, "version": version, "provider": provider, "timeout": timeout, "author": "a", "license": "l", "url": "u", "description": "d"}, "actions": acts})
	return j
}

// program writes a program that runs the script in ctl
func (e *vhEnv) program(path, ctl string) {
	if err := os.WriteFile(path, []byte("#!/bin/sh\nexec /bin/sh "+ctl+" \"$@\"\n"), 0755); err != nil {
		e.r.Error("program: %v", err)
	}
}

func (e *vhEnv) place(n string) (ddl, prog, name string) {
	switch n {
	case "a1":
		d := filepath.Join(e.dir, "lib1", "mcollective", "agent")
		return filepath.Join(d, "a.json"), filepath.Join(d, "a"), "a"
	case "a2":
		d := filepath.Join(e.dir, "lib2", "mcollective", "agent", "a")
		os.MkdirAll(d, 0755)
		return filepath.Join(d, "a.json"), filepath.Join(d, "a"), "a"
	}
	d := filepath.Join(e.dir, "lib1", "mcollective", "agent", "b")
	os.MkdirAll(d, 0755)
	return filepath.Join(d, "b.json"), filepath.Join(d, "b"), "b"
}

func (e *vhEnv) write(i int, n, v string, fresh bool) {
	ddl, prog, name := e.place(n)
	var dat []byte
	switch v {
	case "dup":
		dat = vhDDL(name, "dup", "external", i%2, i%2 == 1)
	case "bad":
		switch i % 6 {
		case 0:
			dat = []byte(`{"metadata":{"name":"a","ver`)
		case 1:
			dat = []byte(`{}`)
		case 2:
			dat = []byte(`{"$schema":"x","actions":[{"action":"act"}]}`)
		case 3:
			dat = vhDDL("", "v1", "external", 1, false)
		case 4:
			dat = vhDDL(name, "v1", "ruby", 1, false)
		case 5:
			dat = nil
		}
		dat = append(dat, '\n')
	default:
		dat = vhDDL(name, v, "external", 1, false)
	}
	ctl := prog + ".sh"
	active := "true"
	if v == "off" {
		active = "false"
	}
	script := `case "$CHORIA_EXTERNAL_PROTOCOL" in
*activation_request) grep -q '"agent":"` + name + `"' "$CHORIA_EXTERNAL_REQUEST" && echo '{"activate":` + active + `}' > "$CHORIA_EXTERNAL_REPLY" ;;
*) echo '{"statuscode":0,"statusmsg":"OK","data":{"place":"` + n + `"}}' > "$CHORIA_EXTERNAL_REPLY" ;;
esac
`
	if v == "off" && i%3 == 1 {
		script = "exit 1\n"
	}
	if v == "off" && i%3 == 2 {
		script = "echo nonsense > \"$CHORIA_EXTERNAL_REPLY\"\n"
	}
	os.WriteFile(ctl, []byte(script), 0644)
	if _, err := os.Stat(prog); err != nil {
		e.program(prog, ctl)
	}
	if err := os.WriteFile(ddl, dat, 0644); err != nil {
		e.r.Error("ddl: %v", err)
	}
	if !fresh {
		e.age(n)
	}
}

func (e *vhEnv) age(n string) {
	ddl, _, _ := e.place(n)
	old := time.Now().Add(-time.Hour)
	os.Chtimes(ddl, old, old)
}

func (e *vhEnv) call(id string, name, action, data string) (map[string]any, string) {
	ag, ok := e.mgr.inst[name]
	if !ok {
		return nil, "no agent"
	}
	req, err := v2.NewRequest(name, "sender1", "choria=me.mcollective", 60, "rid-"+id, "c1")
	if err != nil {
		e.r.Error("request: %v", err)
	}
	f := protocol.NewFilter()
	f.AddAgentFilter(name)
	req.SetFilter(f)
	out := make(chan *agents.AgentReply, 10)
	j := []byte(`{"agent":"` + name + `","action":"` + action + `"`)
	if data != "" {
		j = append(j, []byte(`,"data":`+data)...)
	}
	j = append(j, '}')
	done := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- fmt.Sprintf("panic: %v", p)
			}
		}()
		ag.HandleMessage(context.Background(), vhMsg{p: j}, req, e.conn, out)
		done <- ""
	}()
	select {
	case p := <-done:
		if p != "" {
			return nil, p
		}
	case <-time.After(20 * time.Second):
		return nil, "hangs"
	}
	if len(out) != 1 {
		return nil, fmt.Sprintf("%d replies", len(out))
	}
	rep := <-out
	res := map[string]any{}
	if err = json.Unmarshal(rep.Body, &res); err != nil {
		return nil, "reply does not parse: " + err.Error()
	}
	return res, ""
}

func vhKnown(k []any) (v string, place int, on bool) {
	if len(k) == 0 {
		return "", 0, false
	}
	return k[0].(string), int(k[1].(float64)), k[2].(bool)
}

func (e *vhEnv) walk(c vhCase) {
	r := e.r
	old := time.Now().Add(-time.Hour)
	for n, name := range map[string]string{"rpcutil.json": "rpcutil", "sneaky.json": "discovery", "scout/scout.json": "scout", "inner/inner.json": "choria_registry"} {
		p := filepath.Join(e.dir, "lib1", "mcollective", "agent", n)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, vhDDL(name, "v1", "external", 1, false), 0644)
		os.Chtimes(p, old, old)
		ctl := filepath.Join(e.dir, "reserved.sh")
		os.WriteFile(ctl, []byte("echo '{\"activate\":true}' > \"$CHORIA_EXTERNAL_REPLY\"\n"), 0644)
		prog := filepath.Join(filepath.Dir(p), name)
		if fi, err := os.Stat(prog); err == nil && fi.IsDir() {
			continue
		}
		e.program(prog, ctl)
	}
	for i, s := range c.Steps {
		switch s.A.Op {
		case "write":
			e.write(i+len(c.Steps), s.A.N, s.A.V, s.A.Fresh)
		case "age":
			e.age("a1")
		case "remove":
			ddl, prog, _ := e.place(s.A.N)
			os.Remove(ddl)
			if i%2 == 0 {
				os.Remove(prog)
				os.Remove(prog + ".sh")
			}
		case "scan":
			pan := func() (p any) {
				defer func() { p = recover() }()
				if err := e.prov.reconcileAgents(context.Background(), e.mgr, e.conn); err != nil {
					return err
				}
				return nil
			}()
			if pan != nil {
				r.Mismatch(c.ID, i, "scan-panic", "agents follow the descriptions on disk", fmt.Sprint(pan))
				return
			}
		}
		want := map[string]string{}
		subs := []string{}
		for n, k := range map[string][]any{"a": s.S.KA, "b": s.S.KB} {
			v, pl, on := vhKnown(k)
			if on {
				want[n] = fmt.Sprintf("%s at %d", v, pl)
				subs = append(subs, "c1.broadcast.agent."+n)
			}
		}
		got := map[string]string{}
		for _, n := range e.mgr.KnownAgents() {
			v := "nothing"
			if in, ok := e.mgr.inst[n]; ok {
				pl := 1
				for _, d := range e.prov.Agents() {
					if d.Metadata.Name == n && strings.HasPrefix(d.SourceLocation, filepath.Join(e.dir, "lib2")) {
						pl = 2
					}
				}
				v = fmt.Sprintf("%s at %d", in.Metadata().Version, pl)
			}
			got[n] = v
		}
		if !reflect.DeepEqual(got, want) {
			r.Mismatch(c.ID, i, "agents", want, got)
			return
		}
		gs := []string{}
		e.conn.mu.Lock()
		for _, v := range e.conn.subs {
			gs = append(gs, v)
		}
		e.conn.mu.Unlock()
		sort.Strings(gs)
		sort.Strings(subs)
		if !reflect.DeepEqual(gs, subs) {
			r.Mismatch(c.ID, i, "subscriptions", subs, gs)
			return
		}
		// the agents run the program next to their description, with the outputs it describes
		if s.A.Op == "scan" {
			for n, k := range map[string][]any{"a": s.S.KA, "b": s.S.KB} {
				v, pl, on := vhKnown(k)
				src := map[string]string{"a1": s.S.A1, "a2": s.S.A2, "b1": s.S.B}[fmt.Sprintf("%s%d", n, pl)]
				if !on || src != v {
					continue
				}
				place := n
				if n == "a" {
					place = fmt.Sprintf("a%d", pl)
				}
				rep, e2 := e.call(fmt.Sprintf("%s-%d", c.ID, i), n, "act", `{"x":"hello"}`)
				if e2 != "" || rep["statuscode"] != float64(0) || !reflect.DeepEqual(rep["data"], map[string]any{"place": place, "ver": v, "cnt": float64(5)}) {
					r.Mismatch(c.ID, i, "served", map[string]any{"place": place, "ver": v}, map[string]any{"reply": rep, "error": e2})
					return
				}
				r.Count("calls")
			}
		}
		if left, _ := os.ReadDir(e.tmp); len(left) > 0 {
			r.Mismatch(c.ID, i, "leftovers", "no files left", left[0].Name())
			return
		}
		r.Step()
	}
}

var vhInputs = map[string]string{"ok": `{"x":"hello"}`, "all": `{"x":"world","n":7}`, "unsafe": `{"x":"a;b"}`, "long": `{"x":"` + strings.Repeat("x", 21) + `"}`, "wrong": `{"x":"hello","n":"7"}`,
	"missing": `{"n":7}`, "extra": `{"x":"hello","y":1}`, "text": `"x"`, "nodata": ""}

func (e *vhEnv) rows(c vhCase) {
	r := e.r
	e.write(0, "b", "v1", false)
	if err := e.prov.reconcileAgents(context.Background(), e.mgr, e.conn); err != nil {
		r.Error("scan: %v", err)
	}
	if e.mgr.inst["b"] == nil {
		r.Error("agent b was not registered")
	}
	_, prog, _ := e.place("b")
	ctl := prog + ".sh"
	good, _ := os.ReadFile(prog)
	for i, x := range c.Rows {
		id := fmt.Sprintf("%s-%d", c.ID, i)
		os.RemoveAll(e.rec)
		os.MkdirAll(e.rec, 0755)
		os.RemoveAll(prog)
		os.WriteFile(prog, good, 0755)
		switch x.R.Prog {
		case "missing":
			os.Remove(prog)
		case "noexec":
			os.Chmod(prog, 0644)
		case "directory":
			os.Remove(prog)
			os.MkdirAll(prog, 0755)
		}
		reply := map[string]string{
			"data": `{"statuscode":0,"statusmsg":"said","data":{"place":"here"}}`, "full": `{"statuscode":0,"statusmsg":"said","data":{"place":"here","ver":"mine","cnt":0,"more":[1]}}`,
			"nulldata": `{"statuscode":0,"statusmsg":"said","data":null}`, "none": "", "garbage": "\x00\x01 nothing", "half": `{"statuscode":0,"statusmsg":"said","data":{"place":"he`, "list": `[1,2]`, "text": `"OK"`,
			"status1": `{"statuscode":1,"statusmsg":"said","data":{"place":"here"}}`, "status4": `{"statuscode":4,"statusmsg":"said","data":{"place":"here"}}`, "status5": `{"statuscode":5,"statusmsg":"said","data":{"place":"here"}}`,
			"status99": `{"statuscode":99,"statusmsg":"said","data":{"place":"here"}}`, "badstatus": `{"statuscode":"zero","statusmsg":"said","data":{"place":"here"}}`}[x.R.Reply]
		os.WriteFile(filepath.Join(e.dir, "reply"), []byte(reply), 0644)
		s := "echo x >> " + e.rec + "/ran\ncp \"$CHORIA_EXTERNAL_REQUEST\" " + e.rec + "/request\ncp \"$CHORIA_EXTERNAL_FACTS\" " + e.rec + "/facts\nenv > " + e.rec + "/env\npwd > " + e.rec + "/pwd\nprintf '%s\\n' \"$@\" > " + e.rec + "/args\n"
		if x.R.Reply != "none" {
			s += "cat " + e.dir + "/reply > \"$CHORIA_EXTERNAL_REPLY\"\n"
		}
		switch x.R.Out {
		case "lines":
			s += "for i in 1 2 3 4 5; do echo line $i; echo error $i >&2; done\n"
		case "long":
			s += "head -c 300000 /dev/zero | tr '\\0' x; echo\n"
		case "errlong":
			s += "head -c 300000 /dev/zero | tr '\\0' x >&2\n"
		case "huge":
			s += "yes 0123456789012345678901234567890123456789 | head -n 20000; yes error | head -n 20000 >&2\n"
		case "child":
			s += "sleep 9 &\n"
		case "binary":
			s += "head -c 200000 /dev/urandom\n"
		}
		switch x.R.Exit {
		case "sig":
			s += "kill -9 $$\n"
		case "slow":
			s += "sleep 9\n"
		default:
			s += "exit " + x.R.Exit + "\n"
		}
		os.WriteFile(ctl, []byte(s), 0644)
		start := time.Now()
		rep, perr := e.call(id, "b", "act", vhInputs[x.R.Input])
		took := time.Since(start)
		bad := func(key string, want, got any) {
			r.Mismatch(c.ID, i, key, map[string]any{"row": x.R, "want": want}, got)
		}
		ran, _ := os.ReadFile(e.rec + "/ran")
		n := bytes.Count(ran, []byte("x"))
		switch {
		case perr != "":
			bad("no-reply", "one reply", perr)
			continue
		case n != x.Ran:
			bad("ran", x.Ran, n)
			continue
		case took > 8*time.Second:
			bad("slow", "an answer within its timeout", took.String())
			continue
		}
		want := map[string]float64{"OK": 0, "Aborted": 1, "InvalidData": 4, "UnknownError": 5, "other": 99}[x.Status]
		if rep["statuscode"] != want {
			bad("status", want, rep)
			continue
		}
		if x.Told {
			if rep["statusmsg"] != "said" {
				bad("message", "said", rep)
			}
			d := map[string]any{"full": map[string]any{"place": "here", "ver": "mine", "cnt": float64(0), "more": []any{float64(1)}}, "defaults": map[string]any{"ver": "v1", "cnt": float64(5)}, "data": map[string]any{"place": "here", "ver": "v1", "cnt": float64(5)}}[x.Data]
			if x.Data == "defaults" || x.Data == "data" || x.Data == "full" {
				got, _ := rep["data"].(map[string]any)
				delete(got, "place-unset")
				if pl, ok := got["place"]; ok && pl == nil {
					delete(got, "place")
				}
				if !reflect.DeepEqual(got, d) {
					bad("data", d, rep)
				}
			}
		} else if rep["statusmsg"] == "OK" || rep["statusmsg"] == "said" {
			bad("message", "why it failed", rep)
		}
		if n > 0 {
			rq := map[string]any{}
			dat, _ := os.ReadFile(e.rec + "/request")
			json.Unmarshal(dat, &rq)
			delete(rq, "msgtime")
			var in any
			json.Unmarshal([]byte(vhInputs[x.R.Input]), &in)
			wrq := map[string]any{"$schema": "https://choria.io/schemas/mcorpc/external/v1/rpc_request.json", "protocol": "io.choria.mcorpc.external.v1.rpc_request", "agent": "b", "action": "act", "requestid": "rid-" + id, "senderid": "sender1",
				"callerid": "choria=me.mcollective", "collective": "c1", "ttl": float64(60), "data": in}
			if !reflect.DeepEqual(rq, wrq) {
				bad("request", wrq, string(dat))
			}
			facts, _ := os.ReadFile(e.rec + "/facts")
			pwd, _ := os.ReadFile(e.rec + "/pwd")
			if string(facts) != `{"fact":"value"}` {
				bad("facts", `{"fact":"value"}`, string(facts))
			}
			if strings.TrimSpace(string(pwd)) != e.tmp {
				bad("cwd", e.tmp, string(pwd))
			}
			env, _ := os.ReadFile(e.rec + "/env")
			args, _ := os.ReadFile(e.rec + "/args")
			al := strings.Split(strings.TrimSpace(string(args)), "\n")
			for _, w := range []string{"CHORIA_EXTERNAL_PROTOCOL=io.choria.mcorpc.external.v1.rpc_request\n", "CHORIA_EXTERNAL_CONFIG=" + filepath.Join(e.dir, "plugin.d", "b") + "\n", "PATH=" + os.Getenv("PATH") + "\n", "CHORIA_EXTERNAL_REQUEST=" + al[0] + "\n"} {
				if !strings.Contains(string(env), w) {
					bad("environment", w, string(env))
				}
			}
			if strings.Contains(string(env), "VH_SECRET") {
				bad("environment", "not the environment of the server", string(env))
			}
			if len(al) != 3 || !strings.Contains(string(env), "CHORIA_EXTERNAL_REPLY="+al[1]+"\n") || al[2] != "io.choria.mcorpc.external.v1.rpc_request" {
				bad("arguments", "request, reply and protocol", al)
			}
		}
		if left, _ := os.ReadDir(e.tmp); len(left) > 0 {
			bad("leftovers", "no files left", left[0].Name())
			for _, l := range left {
				os.Remove(filepath.Join(e.tmp, l.Name()))
			}
		}
		r.Count("row_" + x.Status)
		r.Step()
	}
}

// many requests at once, while the disk is looked at: each gets the answer to its own request
func (e *vhEnv) race(c vhCase) {
	e.write(0, "b", "v1", false)
	e.prov.reconcileAgents(context.Background(), e.mgr, e.conn)
	_, prog, _ := e.place("b")
	os.WriteFile(prog+".sh", []byte(`x=$(sed 's/.*"x":"\([a-z0-9]*\)".*/\1/' "$CHORIA_EXTERNAL_REQUEST")
echo '{"statuscode":0,"statusmsg":"OK","data":{"place":"'$x'"}}' > "$CHORIA_EXTERNAL_REPLY"
`), 0644)
	stop := make(chan struct{})
	var bg, wg sync.WaitGroup
	bg.Add(1)
	go func() {
		defer bg.Done()
		for {
			select {
			case <-stop:
				return
			default:
				e.prov.reconcileAgents(context.Background(), e.mgr, e.conn)
				e.prov.Agents()
			}
		}
	}()
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 6; k++ {
				x := fmt.Sprintf("v%dk%d", g, k)
				rep, err := e.call(c.ID+x, "b", "act", `{"x":"`+x+`"}`)
				d, _ := rep["data"].(map[string]any)
				if err != "" || d["place"] != x {
					e.r.Mismatch(c.ID, g, "mixed", x, map[string]any{"reply": rep, "error": err})
					return
				}
				e.r.Step()
			}
		}()
	}
	wg.Wait()
	close(stop)
	bg.Wait()
}

func TestVerif(t *testing.T) {
	in := struct {
		Cases []vhCase `json:"cases"`
	}{}
	r := vhOpen(t, &in)
	defer r.Done()
	logrus.SetOutput(io.Discard)
	for _, c := range in.Cases {
		r.Case(c.ID)
		dir := t.TempDir()
		e := vhSetup(r, dir)
		switch c.Kind {
		case "walk":
			e.walk(c)
		case "rows":
			e.rows(c)
		case "race":
			e.race(c)
		}
		os.RemoveAll(dir)
	}
}
