package vh

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/golang/executor"
	"github.com/choria-io/go-choria/providers/execution"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/choria-io/go-choria/submission"
	"github.com/sirupsen/logrus"
)

type vhChunk struct {
	S string `json:"s"`
	K string `json:"k"`
}
type vhJobCase struct {
	ID  string `json:"id"`
	Cfg struct {
		Track bool   `json:"track"`
		End   string `json:"end"`
		Fault string `json:"fault"`
		Hb    bool   `json:"hb"`
	} `json:"cfg"`
	Script []vhChunk `json:"script"`
	Phase  string    `json:"phase"`
	Exit   string    `json:"exit"`
	Runs   int       `json:"runs"`
	Dup    int       `json:"dup"`
}

type vhQuery struct {
	ID string `json:"id"`
	Q  struct {
		Agent, Action, Caller, Command, Req, Ident string
		Running, Completed                         bool
		Since, Before                              int64
	} `json:"q"`
	Matches []string `json:"matches"`
}

type vhExecCase struct {
	ID string `json:"id"`
	R  struct {
		Act, Caller, Ag, Ac, State string
		Authz, Spool               bool
		Sig                        int
	} `json:"r"`
	Ok, Delivered, Command, Running, Started, Killed bool
	Exit                                             int
}

// vhSub is the submission spool of one job
type vhSub struct {
	mu    sync.Mutex
	msgs  []string
	body  [][]byte
	rel   bool
	fail  string
	fired bool
}

func (s *vhSub) NewMessage() *submission.Message { return &submission.Message{} }
func (s *vhSub) Submit(m *submission.Message) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	p := strings.Split(m.Subject, ".")
	kind := p[len(p)-1]
	cls := kind
	if kind == "stdout" || kind == "stderr" {
		cls = "output"
	}
	if cls == s.fail && !s.fired {
		s.fired = true
		return errors.New("simulated submission failure")
	}
	if !m.Reliable {
		s.rel = true
	}
	s.msgs = append(s.msgs, m.Subject)
	s.body = append(s.body, append([]byte{}, m.Payload...))
	return nil
}

func vhChunkData(k string, i int) []byte {
	switch k {
	case "line":
		return []byte(fmt.Sprintf("line %d of the job\n", i))
	case "part":
		return []byte(fmt.Sprintf("part%d", i))
	case "crlf":
		return []byte(fmt.Sprintf("\n\ndos %d\r\n\n", i))
	case "long":
		return append(bytes.Repeat([]byte(fmt.Sprintf("long%d-", i)), 25000), '\n')
	case "burst":
		b := &bytes.Buffer{}
		for j := 0; j < 300; j++ {
			fmt.Fprintf(b, "burst %d row %d %s\n", i, j, strings.Repeat("x", j%37))
		}
		return b.Bytes()
	}
	panic(k)
}

func vhRunJob(r *vhReporter, td string, c *vhJobCase, log *logrus.Entry) {
	dir := filepath.Join(td, c.ID)
	spool := filepath.Join(dir, "spool")
	os.MkdirAll(spool, 0700)
	defer os.RemoveAll(dir)
	mm := func(key string, want, got any) { r.Mismatch(c.ID, len(c.Script), key, want, got, c) }

	want := map[string][]byte{"out": {}, "err": {}}
	sh := &bytes.Buffer{}
	fmt.Fprintf(sh, "echo ran >> %s/ran\necho $$ > %s/mypid.tmp\nmv %s/mypid.tmp %s/mypid\nwhile [ ! -e %s/go ]; do sleep 0.02; done\n", dir, dir, dir, dir, dir)
	for i, k := range c.Script {
		d := vhChunkData(k.K, i)
		f := filepath.Join(dir, fmt.Sprintf("chunk%d", i))
		os.WriteFile(f, d, 0600)
		redir := ""
		if k.S == "err" {
			redir = " >&2"
		}
		fmt.Fprintf(sh, "cat %s%s\n", f, redir)
		want[k.S] = append(want[k.S], d...)
	}
	switch c.Cfg.End {
	case "zero":
		sh.WriteString("exit 0\n")
	case "three":
		sh.WriteString("exit 3\n")
	case "killed":
		sh.WriteString("kill -9 $$\n")
	case "held":
		sh.WriteString("sleep 8 &\nexit 0\n") // a child of the job keeps its outputs open
	}
	script := filepath.Join(dir, "job.sh")
	os.WriteFile(script, sh.Bytes(), 0700)
	cmd := "/bin/sh"
	if c.Cfg.End == "missing" {
		cmd = filepath.Join(dir, "missing")
	}
	job, err := execution.New("choria=me", "ag", "act", "req"+c.ID, "node.example", "job", cmd, []string{script}, map[string]string{"VH": "1"})
	if err != nil {
		r.Error("%s", err)
	}
	if _, err = job.CreateSpool(spool); err != nil {
		mm("create", "created", err.Error())
		return
	}
	if c.Dup > 0 {
		other, _ := execution.New("choria=other", "ag", "act", "other", "node.example", "job", "/bin/false", nil, nil)
		if _, err := other.CreateSpool(spool); !errors.Is(err, execution.ErrDuplicateJob) && err == nil {
			mm("duplicate-created", "refused", fmt.Sprint(err))
		}
	}
	p, err := execution.Load(spool, "job")
	if err != nil {
		mm("load", "", err.Error())
		return
	}
	if s, _ := p.HasStarted(); s || p.IsRunning() || p.Caller != "choria=me" {
		mm("new-job", "not started", "started")
	}
	sub := &vhSub{fail: c.Cfg.Fault}
	hb := time.Duration(0)
	if c.Cfg.Hb {
		hb = 40 * time.Millisecond
	}
	done := make(chan string, 1)
	var serr error
	go func() {
		done <- vhGuard(60*time.Second, func() { serr = p.StartSupervised(context.Background(), spool, sub, hb, c.Cfg.Track, log) })
	}()
	ran := func() int { b, _ := os.ReadFile(filepath.Join(dir, "ran")); return bytes.Count(b, []byte("ran")) }

	if c.Phase == "refused" {
		if g := <-done; g != "" {
			mm("start-hangs", "", g)
			return
		}
		if !errors.Is(serr, execution.ErrStartFailed) {
			mm("start-failure", "start failed", fmt.Sprint(serr))
		}
		if ran() != 0 {
			mm("ran-anyway", 0, ran())
		}
		l, err := execution.Load(spool, "job")
		if err == nil {
			if s, _ := l.HasStarted(); s || l.IsRunning() {
				mm("refused-started", "not started", "started")
			}
		}
		return
	}
	var pid int
	if !vhEventually(20*time.Second, func() bool {
		b, err := os.ReadFile(filepath.Join(dir, "mypid"))
		pid, _ = strconv.Atoi(strings.TrimSpace(string(b)))
		return err == nil && pid > 1
	}) {
		mm("not-started", "started", fmt.Sprint(serr))
		return
	}
	// as others see the job while it runs
	live := func() string {
		l, err := execution.Load(spool, "job")
		if err != nil {
			return err.Error()
		}
		s, err := l.HasStarted()
		got, perr := l.ParsePid()
		switch {
		case err != nil || !s:
			return "not started"
		case !l.IsRunning():
			return "not running"
		case perr != nil || got != pid:
			return fmt.Sprintf("pid %d is not %d %v", got, pid, perr)
		case l.StartTime.IsZero() || !l.TerminateTime.IsZero():
			return "times"
		case !p.StartTime.Equal(l.StartTime):
			return "other start time"
		}
		if err := l.StartSupervised(context.Background(), spool, sub, 0, false, log); !errors.Is(err, execution.ErrAlreadyStarted) {
			return fmt.Sprintf("started again: %v", err)
		}
		if _, err := l.CreateSpool(spool); err == nil {
			return "created again"
		}
		return ""
	}
	got := ""
	if !vhEventually(10*time.Second, func() bool { got = live(); return got == "" }) {
		mm("running-job", "", got)
	}
	if c.Cfg.Hb {
		time.Sleep(150 * time.Millisecond)
	}
	os.WriteFile(filepath.Join(dir, "go"), nil, 0600)
	if g := <-done; g != "" {
		syscall.Kill(pid, syscall.SIGKILL)
		mm("job-hangs", "ends", g)
		return
	}
	if serr != nil {
		mm("supervision-error", "", serr.Error())
	}
	l, err := execution.Load(spool, "job")
	if err != nil {
		mm("load-ended", "", err.Error())
		return
	}
	r.Step()
	if s, _ := l.HasStarted(); !s || l.IsRunning() || l.TerminateTime.IsZero() || l.TerminateTime.Before(l.StartTime) {
		mm("ended-job", "started, ended", l)
	}
	if !l.IsMatch(&execution.ListQuery{Completed: true}) || l.IsMatch(&execution.ListQuery{Running: true}) {
		mm("ended-job-query", "completed", l)
	}
	if l.Caller != "choria=me" || l.Command != cmd || l.RequestID != "req"+c.ID || l.ID != "job" || l.Agent != "ag" || l.Action != "act" || !vhSame(l.Args, []string{script}) || !l.Created.Equal(job.Created) {
		mm("specification", job, l)
	}
	if g, err := l.ParsePid(); err != nil || g != pid {
		mm("pid", pid, fmt.Sprint(g, err))
	}
	code, cerr := l.ParseExitCode()
	switch c.Exit {
	case "killed":
		if !errors.Is(cerr, execution.ErrProcessFailed) {
			mm("exit", "failed", fmt.Sprint(code, cerr))
		}
	default:
		if cerr != nil || fmt.Sprint(code) != c.Exit {
			mm("exit", c.Exit, fmt.Sprint(code, cerr))
		}
	}
	so, err1 := l.Stdout()
	se, err2 := l.Stderr()
	if err1 != nil || err2 != nil || !bytes.Equal(so, want["out"]) || !bytes.Equal(se, want["err"]) {
		mm("output-files", []int{len(want["out"]), len(want["err"])}, []any{len(so), len(se), fmt.Sprint(err1, err2)})
	}
	if n := ran(); n != c.Runs {
		mm("runs", c.Runs, n)
	}
	if err := l.StartSupervised(context.Background(), spool, sub, 0, false, log); !errors.Is(err, execution.ErrAlreadyStarted) {
		mm("started-again", "already started", fmt.Sprint(err))
	}

	// the messages
	prefix := "choria.executor.req" + c.ID + ".job."
	kinds := []string{}
	pub := map[string][]byte{"out": {}, "err": {}}
	for i, s := range sub.msgs {
		if !strings.HasPrefix(s, prefix) {
			mm("subject", prefix, s)
		}
		k := strings.TrimPrefix(s, prefix)
		switch k {
		case "out.stdout":
			pub["out"] = append(pub["out"], sub.body[i]...)
		case "out.stderr":
			pub["err"] = append(pub["err"], sub.body[i]...)
		case "pid":
			if string(sub.body[i]) != fmt.Sprint(pid) {
				mm("pid-message", pid, string(sub.body[i]))
			}
			kinds = append(kinds, k)
		case "exit":
			e := execution.ExitCode{}
			err := json.Unmarshal(sub.body[i], &e)
			if err != nil || (c.Exit == "killed") != (e.Error != "") || (c.Exit != "killed" && fmt.Sprint(e.Code) != c.Exit) {
				mm("exit-message", c.Exit, string(sub.body[i]))
			}
			kinds = append(kinds, k)
		case "spec":
			sp := execution.Process{}
			if err := json.Unmarshal(sub.body[i], &sp); err != nil || sp.ID != "job" || sp.StartTime.IsZero() {
				mm("spec-message", "", string(sub.body[i]))
			}
			kinds = append(kinds, k)
		case "hb":
			if string(sub.body[i]) != "true" && string(sub.body[i]) != "false" {
				mm("hb-message", "true or false", string(sub.body[i]))
			}
		default:
			mm("subject", "", s)
		}
	}
	wk := []string{"spec"}
	if c.Cfg.Fault != "pid" {
		wk = append(wk, "pid")
	}
	if c.Cfg.Fault != "exit" {
		wk = append(wk, "exit")
	}
	if !vhSame(wk, kinds) || sub.rel {
		mm("messages", wk, kinds)
	} else if sub.msgs[0] != prefix+"spec" || (c.Cfg.Fault != "exit" && sub.msgs[len(sub.msgs)-1] != prefix+"exit") {
		mm("message-order", wk, sub.msgs)
	}
	if c.Cfg.Hb && !strings.Contains(strings.Join(sub.msgs, " "), ".hb") {
		mm("no-heartbeat", "", sub.msgs)
	}
	for _, s := range []string{"out", "err"} {
		w := want[s]
		if !c.Cfg.Track {
			w = nil
		}
		// a line end may be added to output that does not end in one
		g := pub[s]
		if c.Cfg.Fault == "output" && sub.fired && bytes.HasPrefix(w, g) {
			continue
		}
		if !bytes.Equal(w, g) && !(len(w) > 0 && w[len(w)-1] != '\n' && bytes.Equal(append(append([]byte{}, w...), '\n'), g)) {
			i := 0
			for i < len(w) && i < len(g) && w[i] == g[i] {
				i++
			}
			mm("published-"+s, len(w), map[string]any{"bytes": len(g), "equal": i})
		}
	}
}

// ---- the recorded jobs, the list and the executor agent ----

type vhFW struct {
	inter.Framework
	cfg *config.Config
}

func (f vhFW) Configuration() *config.Config { return f.cfg }
func (f vhFW) ProvisionMode() bool           { return false }

type vhMgr struct {
	fw  vhFW
	log *logrus.Entry
}

func (m vhMgr) RegisterAgent(context.Context, string, agents.Agent, inter.AgentConnector) error {
	return nil
}
func (m vhMgr) UnregisterAgent(string, inter.AgentConnector) error { return nil }
func (m vhMgr) ReplaceAgent(string, agents.Agent) error            { return nil }
func (m vhMgr) Logger() *logrus.Entry                              { return m.log }
func (m vhMgr) Choria() inter.Framework                            { return m.fw }

type vhSI struct{ agents.ServerInfoSource }

func (vhSI) Facts() json.RawMessage { return json.RawMessage(`{}`) }
func (vhSI) Classes() []string      { return nil }
func (vhSI) KnownAgents() []string  { return nil }

type vhReq struct{ protocol.Request }

func (r vhReq) CallerPublicData() string { return "" }
func (r vhReq) SignerPublicData() string { return "" }

type vhMsg struct {
	inter.Message
	p []byte
}

func (m vhMsg) Payload() []byte   { return m.p }
func (m vhMsg) RequestID() string { return "rid" }

func vhCall(r *vhReporter, cfg *config.Config, log *logrus.Entry, caller, action string, data any) (mcorpc.StatusCode, map[string]any, string) {
	a, err := executor.New(vhMgr{fw: vhFW{cfg: cfg}, log: log})
	if err != nil {
		r.Error("%s", err)
	}
	a.SetServerInfo(vhSI{})
	preq, _ := v2.NewRequest("executor", "sender1", "choria="+caller+".mcollective", 30, "rid", "coll")
	preq.SetFilter(protocol.NewFilter())
	dj, _ := json.Marshal(data)
	body, _ := json.Marshal(map[string]any{"agent": "executor", "action": action, "data": json.RawMessage(dj)})
	out := make(chan *agents.AgentReply, 5)
	if g := vhGuard(30*time.Second, func() { a.HandleMessage(context.Background(), vhMsg{p: body}, vhReq{preq}, nil, out) }); g != "" {
		return 99, nil, g
	}
	if len(out) != 1 {
		return 99, nil, fmt.Sprintf("%d replies", len(out))
	}
	rep := struct {
		Statuscode mcorpc.StatusCode `json:"statuscode"`
		Statusmsg  string            `json:"statusmsg"`
		Data       map[string]any    `json:"data"`
	}{}
	if err := json.Unmarshal((<-out).Body, &rep); err != nil {
		return 99, nil, err.Error()
	}
	return rep.Statuscode, rep.Data, rep.Statusmsg
}

func vhConfig(r *vhReporter, td, spool string, authz bool) *config.Config {
	cfg, err := config.NewDefaultConfig()
	if err != nil {
		r.Error("%s", err)
	}
	cfg.ConfigFile = filepath.Join(td, "server.conf")
	cfg.Choria.ExecutorSpool = spool
	cfg.Choria.ExecutorEnabled = true
	cfg.RPCAuthorization = authz
	cfg.RPCAuthorizationProvider = "action_policy"
	cfg.RPCAudit = false
	return cfg
}

func vhRecord(r *vhReporter, spool string, p *execution.Process, pid int, exit string) {
	if pid > 0 {
		p.PidFile = filepath.Join(spool, p.ID, "pid")
	}
	if _, err := p.CreateSpool(spool); err != nil {
		r.Error("%s", err)
	}
	if pid > 0 {
		os.WriteFile(p.PidFile, []byte(fmt.Sprint(pid)), 0600)
	}
	if exit != "" {
		os.WriteFile(filepath.Join(spool, p.ID, "exit"), []byte(exit), 0600)
	}
}

func vhLive(r *vhReporter) (*exec.Cmd, func() bool) {
	c := exec.Command("/bin/sleep", "600")
	if err := c.Start(); err != nil {
		r.Error("%s", err)
	}
	done := make(chan struct{})
	go func() { c.Wait(); close(done) }()
	return c, func() bool {
		select {
		case <-done:
			return false
		default:
			return true
		}
	}
}

func vhDeadPid(r *vhReporter) int {
	c := exec.Command("/bin/true")
	if err := c.Run(); err != nil {
		r.Error("%s", err)
	}
	return c.Process.Pid
}

func TestVerif(t *testing.T) {
	in := struct {
		Cases []json.RawMessage `json:"cases"`
		Kind  string            `json:"kind"`
	}{}
	r := vhOpen(t, &in)
	defer r.Done()
	lg := logrus.New()
	lg.SetOutput(io.Discard)
	logrus.SetOutput(io.Discard)
	log := logrus.NewEntry(lg)
	td := t.TempDir()
	os.MkdirAll(filepath.Join(td, "policies"), 0700)
	for n, p := range map[string]string{
		"executor": "policy default allow\n",
		"pkg":      "policy default deny\nallow\tchoria=alice.mcollective\tinstall remove\t*\t*\n",
		"shell":    "policy default deny\nallow\tchoria=bob.mcollective\trun\t*\t*\n"} {
		os.WriteFile(filepath.Join(td, "policies", n+".policy"), []byte(p), 0600)
	}

	var wg sync.WaitGroup
	sem := make(chan struct{}, 24)
	each := func(f func(raw json.RawMessage)) {
		for _, raw := range in.Cases {
			h := struct{ ID string }{}
			json.Unmarshal(raw, &h)
			probe := map[string]any{}
			json.Unmarshal(raw, &probe)
			r.Case(h.ID)
			sem <- struct{}{}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				f(raw)
			}()
		}
		wg.Wait()
	}

	lspool := filepath.Join(td, "list")
	var base time.Time
	setup := func() {
		base = time.Now().Add(-100 * time.Hour).Truncate(time.Second)
		os.MkdirAll(lspool, 0700)
		live, _ := vhLive(r)
		t.Cleanup(func() { live.Process.Kill() })
		for _, j := range []struct {
			id, ag, ac, ca, cmd, req, ident string
			at                              int
			st, en, alive                   bool
		}{
			{"j1", "pkg", "install", "alice", "/bin/echo", "r1", "i1", 1, false, false, false},
			{"j2", "pkg", "remove", "bob", "/bin/sleep", "r2", "i1", 2, true, false, true},
			{"j3", "shell", "install", "alice", "/bin/sleep", "r3", "i1", 3, true, true, false},
			{"j4", "pkg", "install", "bob", "/bin/echo", "r1", "i2", 4, true, true, true},
			{"j5", "shell", "run", "alice", "/bin/echo", "r2", "i1", 5, true, false, false},
		} {
			p, err := execution.New(j.ca, j.ag, j.ac, j.req, j.ident, j.id, j.cmd, nil, nil)
			if err != nil {
				r.Error("%s", err)
			}
			p.Created = base.Add(time.Duration(j.at) * time.Hour)
			pid := 0
			if j.st {
				p.StartTime = p.Created.Add(time.Second)
				pid = vhDeadPid(r)
			}
			if j.alive {
				pid = live.Process.Pid
			}
			exit := ""
			if j.en {
				p.TerminateTime = p.Created.Add(time.Minute)
				exit = `{"code":0,"error":""}`
			}
			vhRecord(r, lspool, p, pid, exit)
		}
		// things that are no jobs
		os.WriteFile(filepath.Join(lspool, "stray"), []byte("x"), 0600)
		os.MkdirAll(filepath.Join(lspool, "nospec"), 0700)
		os.MkdirAll(filepath.Join(lspool, "corrupt"), 0700)
		os.WriteFile(filepath.Join(lspool, "corrupt", "spec.json"), []byte("{"), 0600)
	}
	at := func(h int64) time.Time {
		if h == 0 {
			return time.Time{}
		}
		return base.Add(time.Duration(h) * time.Hour)
	}

	switch in.Kind {
	case "job":
		each(func(raw json.RawMessage) {
			c := &vhJobCase{}
			json.Unmarshal(raw, c)
			vhRunJob(r, td, c, log)
		})
	case "list", "agentlist":
		setup()
		each(func(raw json.RawMessage) {
			c := &vhQuery{}
			json.Unmarshal(raw, c)
			r.Step()
			got := []string{}
			if in.Kind == "list" {
				res, err := execution.List(lspool, &execution.ListQuery{Action: c.Q.Action, Agent: c.Q.Agent, Before: at(c.Q.Before), Since: at(c.Q.Since), Caller: c.Q.Caller,
					Command: c.Q.Command, Completed: c.Q.Completed, Running: c.Q.Running, Identity: c.Q.Ident, RequestID: c.Q.Req})
				if err != nil {
					r.Mismatch(c.ID, 0, "list-fails", "", err.Error(), c)
					return
				}
				for _, p := range res {
					got = append(got, p.ID)
				}
			} else {
				q := map[string]any{}
				set := func(k string, v string) {
					if v != "" {
						q[k] = v
					}
				}
				set("action", c.Q.Action)
				set("agent", c.Q.Agent)
				set("caller", c.Q.Caller)
				set("command", c.Q.Command)
				set("identity", c.Q.Ident)
				set("requestid", c.Q.Req)
				if c.Q.Running {
					q["running"] = true
				}
				if c.Q.Completed {
					q["completed"] = true
				}
				if c.Q.Since > 0 {
					q["since"] = at(c.Q.Since).Unix()
				}
				if c.Q.Before > 0 {
					q["before"] = at(c.Q.Before).Unix()
				}
				code, data, msg := vhCall(r, vhConfig(r, td, lspool, true), log, "alice", "list", q)
				if code != mcorpc.OK {
					r.Mismatch(c.ID, 0, "list-fails", "", msg, c)
					return
				}
				js, _ := data["jobs"].([]any)
				for _, j := range js {
					got = append(got, fmt.Sprint(j.(map[string]any)["id"]))
				}
			}
			sort.Strings(got)
			sort.Strings(c.Matches)
			if !vhSame(got, c.Matches) {
				r.Mismatch(c.ID, 0, in.Kind, c.Matches, got, c)
			}
		})
	case "exec":
		each(func(raw json.RawMessage) {
			c := &vhExecCase{}
			json.Unmarshal(raw, c)
			r.Step()
			spool := filepath.Join(td, c.ID)
			os.MkdirAll(spool, 0700)
			p, err := execution.New("choria=owner", c.R.Ag, c.R.Ac, "req", "node", "job", "/usr/bin/secret", []string{"--password", "x"}, nil)
			if err != nil {
				r.Error("%s", err)
			}
			p.StartTime = time.Now().Add(-time.Minute)
			p.StdoutFile = filepath.Join(spool, "job", "stdout")
			p.StderrFile = filepath.Join(spool, "job", "stderr")
			alive := func() bool { return false }
			victim := func() int {
				cmd, a := vhLive(r)
				alive = a
				t.Cleanup(func() { cmd.Process.Kill() })
				return cmd.Process.Pid
			}
			id := "job"
			switch c.R.State {
			case "new":
				p.StartTime = time.Time{}
				vhRecord(r, spool, p, 0, "")
			case "running":
				vhRecord(r, spool, p, victim(), "")
			case "zero", "three", "killed":
				p.TerminateTime = time.Now()
				vhRecord(r, spool, p, vhDeadPid(r), map[string]string{"zero": `{"code":0,"error":""}`, "three": `{"code":3,"error":""}`, "killed": `{"code":-1,"error":"process killed"}`}[c.R.State])
			case "reused":
				p.TerminateTime = time.Now()
				vhRecord(r, spool, p, victim(), `{"code":0,"error":""}`)
			case "unknown":
				id = "other"
				vhRecord(r, spool, p, victim(), "")
			case "corrupt":
				vhRecord(r, spool, p, victim(), "")
				os.WriteFile(filepath.Join(spool, "job", "spec.json"), []byte(`{"id":`), 0600)
			}
			if c.Started {
				os.WriteFile(p.StdoutFile, []byte("12345"), 0600)
				os.WriteFile(p.StderrFile, []byte("123"), 0600)
			}
			had := alive()
			use := spool
			if !c.R.Spool {
				use = ""
			}
			args := map[string]any{"id": id}
			if c.R.Act == "signal" {
				args["signal"] = c.R.Sig
			}
			code, data, msg := vhCall(r, vhConfig(r, td, use, c.R.Authz), log, c.R.Caller, c.R.Act, args)
			mm := func(key string, want, got any) { r.Mismatch(c.ID, 0, key, want, got, c, data, msg) }
			if (code == mcorpc.OK) != c.Ok {
				mm(c.R.Act+"-result", c.Ok, msg)
			}
			if code != mcorpc.OK && code != mcorpc.Aborted {
				mm(c.R.Act+"-status", "aborted", code)
			}
			if c.Delivered {
				if !vhEventually(5*time.Second, func() bool { return !alive() }) {
					mm("signal-lost", "delivered", "process lives")
				}
			} else if had && !alive() {
				mm("signal-delivered", "no signal", "process is gone")
			}
			if strings.Contains(fmt.Sprint(data, msg), "secret") != (c.Command && c.R.Act == "status") || strings.Contains(fmt.Sprint(data, msg), "password") != (c.Command && c.R.Act == "status") {
				mm("command-shown", c.Command, data)
			}
			if !c.Ok || code != mcorpc.OK {
				return
			}
			if fmt.Sprint(data["running"]) != fmt.Sprint(c.Running) {
				mm("running", c.Running, data["running"])
			}
			if c.R.Act == "signal" {
				return
			}
			if fmt.Sprint(data["started"]) != fmt.Sprint(c.Started) || fmt.Sprint(data["agent"]) != c.R.Ag || fmt.Sprint(data["action"]) != c.R.Ac || fmt.Sprint(data["caller"]) != "choria=owner" {
				mm("status-fields", c, data)
			}
			if fmt.Sprint(data["exit_code"]) != fmt.Sprint(c.Exit) || (fmt.Sprint(data["exit_reason"]) != "") != c.Killed {
				mm("status-exit", c.Exit, data)
			}
			if c.Started && !c.Running && (fmt.Sprint(data["stdout_bytes"]) != "5" || fmt.Sprint(data["stderr_bytes"]) != "3") {
				mm("status-bytes", "5 3", data)
			}
		})
	}
}
