package vh

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/aagent/machine"
	"github.com/choria-io/go-choria/aagent/model"
	"github.com/choria-io/go-choria/aagent/watchers"
	"github.com/choria-io/go-choria/aagent/watchers/execwatcher"
	"github.com/choria-io/go-choria/aagent/watchers/expressionwatcher"
	"github.com/choria-io/go-choria/aagent/watchers/filewatcher"
	"github.com/choria-io/go-choria/aagent/watchers/watcher"
	governor "github.com/choria-io/go-choria/providers/governor/streams"
	"github.com/nats-io/jsm.go"
	natsd "github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats.go"
)

type gtCase struct {
	ID   string `json:"id"`
	Kind string `json:"kind"`
	// gate
	Rows []struct {
		R struct {
			Active []string                `json:"active"`
			State  string                  `json:"state"`
			Dep2   string                  `json:"dep2"`
			Req    []struct{ M, S string } `json:"req"`
		} `json:"r"`
		On bool `json:"on"`
	} `json:"rows"`
	// chain
	Log []string `json:"log"`
	Evs []string `json:"evs"`
	Res []string `json:"res"`
	// watchers
	Init struct {
		C  json.RawMessage `json:"c"`
		G  bool            `json:"g"`
		M  string          `json:"m"`
		SL string          `json:"sl"`
	} `json:"init"`
	Steps []struct {
		A struct {
			N     string   `json:"n"`
			Here  bool     `json:"here"`
			Dep   string   `json:"dep"`
			C     string   `json:"c"`
			S     string   `json:"s"`
			F     string   `json:"f"`
			Ran   bool     `json:"ran"`
			Ev    []string `json:"ev"`
			Note  bool     `json:"note"`
			Out   string   `json:"out"`
			Newer bool     `json:"newer"`
			Made  bool     `json:"made"`
			Op    string   `json:"op"`
			LC    []string `json:"lc"`
			Done  bool     `json:"done"`
		} `json:"a"`
		S struct {
			K string `json:"k"`
			F struct {
				C string `json:"c"`
				M bool   `json:"m"`
			} `json:"f"`
			H  bool   `json:"h"`
			SL string `json:"sl"`
			P  string `json:"p"`
		} `json:"s"`
	} `json:"steps"`
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases []gtCase `json:"cases"`
	}
	r := vhOpen(t, &in)
	work := os.Getenv("VERIF_WORK")
	tmp := filepath.Join(work, "tmp")
	os.MkdirAll(tmp, 0755)
	os.Setenv("TMPDIR", tmp)
	for n, p := range map[string]any{"exec": execwatcher.ChoriaPlugin().Creator} {
		if err := watchers.RegisterWatcherPlugin(n, p.(model.WatcherConstructor)); err != nil {
			r.Error("register: %v", err)
		}
	}
	srv, err := natsd.NewServer(&natsd.Options{ServerName: "vh", JetStream: true, StoreDir: filepath.Join(work, "js"), Port: -1, Host: "127.0.0.1", NoSigs: true, NoLog: true})
	if err != nil {
		r.Error("%v", err)
	}
	go srv.Start()
	if !srv.ReadyForConnections(20 * time.Second) {
		r.Error("no server")
	}
	gtURL = srv.ClientURL()
	defer func() { srv.Shutdown(); srv.WaitForShutdown() }()
	sem := make(chan struct{}, 24)
	var wg sync.WaitGroup
	for k, c := range in.Cases {
		sem <- struct{}{}
		wg.Add(1)
		go func(k int, c gtCase) {
			defer wg.Done()
			defer func() { <-sem }()
			dir := filepath.Join(work, fmt.Sprintf("c%d", k))
			os.MkdirAll(dir, 0755)
			defer os.RemoveAll(dir)
			r.Case(c.ID)
			defer func() {
				if p := recover(); p != nil {
					r.Mismatch(c.ID, 0, "panic", "no panic", fmt.Sprint(p))
				}
			}()
			switch c.Kind {
			case "gate":
				gtGate(r, c)
			case "exec":
				gtExec(r, c, dir)
			case "file":
				gtFile(r, c, dir)
			case "expr":
				gtExpr(r, c, dir)
			case "chain":
				gtChain(r, c, dir)
			case "gov":
				gtGov(r, c, k, dir)
			}
		}(k, c)
	}
	wg.Wait()
	left, _ := filepath.Glob(filepath.Join(tmp, "*"))
	if len(left) > 0 {
		r.Mismatch("all", 0, "temp-files", "no data or facts copies left behind", len(left))
	}
	r.Done()
}

func gtGate(r *vhReporter, c gtCase) {
	for i, row := range c.Rows {
		r.Step()
		m := vhNewMachine("/nonexisting")
		m.state = row.R.State
		m.foreign = map[string]string{"dep": "ready", "dep2": row.R.Dep2}
		var req []model.ForeignMachineState
		for _, q := range row.R.Req {
			req = append(req, model.ForeignMachineState{MachineName: q.M, MachineState: q.S})
		}
		w, err := watcher.NewWatcher("w", "exec", 0, row.R.Active, req, m, "bad", "good")
		if err != nil {
			r.Error("new watcher: %v", err)
		}
		if got := w.ShouldWatch(); got != row.On {
			r.Mismatch(c.ID, i, "gate", row.On, got, row.R)
		}
	}
}

var gtReq = []model.ForeignMachineState{{MachineName: "dep", MachineState: "ready"}}

func gtRun(w any) (vhWatcher, func()) {
	x := w.(vhWatcher)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	go x.Run(ctx, wg)
	return x, func() {
		cancel()
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
		}
	}
}

func gtCompare(r *vhReporter, id string, i int, m *vhMachine, w vhWatcher, ev []string, note bool, out string, detail any) bool {
	e, n := m.Take()
	ok := true
	if !vhSame(e, ev) {
		r.Mismatch(id, i, "events", ev, e, detail)
		ok = false
	}
	if (n == 1) != note || n > 1 {
		r.Mismatch(id, i, "notification", note, n, detail)
		ok = false
	}
	if got := vhCurrent(w)["previous_outcome"]; got != out {
		r.Mismatch(id, i, "outcome", out, got, detail)
		ok = false
	}
	return ok
}

const gtScript = `#!/bin/sh
printf '%s|%s|%s|%s|%s|' "$1" "$MACHINE_WATCHER_NAME" "$MACHINE_NAME" "$X_K" "$(pwd)" >> "$2"
cat "$WATCHER_DATA" >> "$2"
printf '|' >> "$2"
cat "$WATCHER_FACTS" >> "$2"
echo >> "$2"
case "$1" in
 true) echo "[1, 2]"; exit 0;;
 exit3) echo '{"k":"wrong"}'; exit 3;;
 json1) echo '{"k":"v1","o":{"x":[1,"a"]}}'; exit 0;;
 json2) echo '{"k":"v2"}'; exit 0;;
 slow) echo '{"k":"wrong"}'; exec sleep 4;;
esac
exit 9
`

func gtExec(r *vhReporter, c gtCase, dir string) {
	var cfg struct {
		OK       string `json:"ok"`
		Fail     string `json:"fail"`
		Suppress bool   `json:"suppress"`
		Mode     string `json:"mode"`
	}
	if err := json.Unmarshal(c.Init.C, &cfg); err != nil {
		r.Error("cfg: %v", err)
	}
	script, ran := filepath.Join(dir, "cmd.sh"), filepath.Join(dir, "ran")
	os.WriteFile(script, []byte(gtScript), 0755)
	m := vhNewMachine(dir)
	m.foreign["dep"] = "ready"
	m.facts = `{"f":"<one>"}`
	wi, err := execwatcher.New(m, "wx", []string{"in"}, gtReq, cfg.Fail, cfg.OK, "", 0, map[string]any{
		"command": `{{ lookup "data.cmd" "" }}`, "timeout": "2s", "suppress_success_announce": cfg.Suppress,
		"parse_as_data": cfg.Mode == "data", "disown": cfg.Mode == "disown", "environment": []string{`X_K={{ lookup "data.k" "none" }}`}})
	if err != nil {
		r.Mismatch(c.ID, 0, "new", "watcher is created", err.Error())
		return
	}
	w, stop := gtRun(wi)
	defer stop()
	if !m.Hold(w) {
		r.Mismatch(c.ID, 0, "hang", "watcher checks when notified", "no check")
		return
	}
	defer m.Free()
	k := "none"
	for i, st := range c.Steps {
		r.Step()
		a := st.A
		cmd := ""
		switch a.C {
		case "missing":
			cmd = filepath.Join(dir, "missing")
		case "empty":
		case "badquote":
			cmd = fmt.Sprintf("/bin/sh %s 'true %s", script, ran)
		default:
			cmd = fmt.Sprintf("/bin/sh %s %s %q", script, a.C, ran)
		}
		m.mu.Lock()
		m.data["cmd"] = cmd
		puts := m.puts
		switch a.Dep {
		case "gone":
			delete(m.foreign, "dep")
		default:
			m.foreign["dep"] = a.Dep
		}
		m.state = map[bool]string{true: "in", false: "out"}[a.Here]
		before, _ := json.Marshal(m.data)
		m.mu.Unlock()
		os.Remove(ran)
		if !m.Check(w) {
			r.Mismatch(c.ID, i, "hang", "check completes", "no further check", a)
			return
		}
		dat, _ := os.ReadFile(ran)
		if !a.Ran && len(dat) > 0 {
			r.Mismatch(c.ID, i, "ran", "command does not run", string(dat), a)
			return
		}
		if a.Ran {
			rd, _ := filepath.EvalSymlinks(dir)
			exp := fmt.Sprintf("%s|wx|vmachine|%s|%s|%s|%s\n", a.C, k, rd, before, m.facts)
			if string(dat) != exp {
				r.Mismatch(c.ID, i, "ran", exp, string(dat), a)
				return
			}
		}
		if !gtCompare(r, c.ID, i, m, w, a.Ev, a.Note, a.Out, a) {
			return
		}
		m.mu.Lock()
		k = "none"
		if v, ok := m.data["k"]; ok {
			k = fmt.Sprint(v)
		}
		wrote := m.puts - puts
		m.mu.Unlock()
		exp := st.S.K
		if exp == "absent" {
			exp = "none"
		}
		if k != exp {
			r.Mismatch(c.ID, i, "data", exp, k, a)
			return
		}
		if wrote > 0 && !(cfg.Mode == "data" && a.Out == "success") {
			r.Mismatch(c.ID, i, "data", "no data written", wrote, a)
			return
		}
	}
}

func gtFile(r *vhReporter, c gtCase, dir string) {
	f := filepath.Join(dir, "the.file")
	m := vhNewMachine(dir)
	m.state = "in"
	m.data["v"] = "hello"
	props := map[string]any{"path": "the.file"}
	if c.Init.G {
		props["contents"] = `{{ lookup "data.v" "none" }}-x`
		props["owner"], props["group"], props["mode"] = "root", "root", "0640"
	}
	wi, err := filewatcher.New(m, "wf", []string{"in"}, nil, "bad", "good", "1h", 0, props)
	if err != nil {
		r.Mismatch(c.ID, 0, "new", "watcher is created", err.Error())
		return
	}
	w, stop := gtRun(wi)
	defer stop()
	if !m.Hold(w) {
		r.Mismatch(c.ID, 0, "hang", "watcher checks when notified", "no check")
		return
	}
	defer m.Free()
	future := time.Now().Add(time.Hour)
	content := map[string]string{"want": "hello-x", "other": "something else"}
	for i, st := range c.Steps {
		r.Step()
		a := st.A
		switch a.N {
		case "write":
			mt := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
			if s, err := os.Stat(f); err == nil {
				mt = s.ModTime()
			}
			if a.Newer {
				future = future.Add(time.Minute)
				mt = future
			}
			if err := os.WriteFile(f, []byte(content[a.C]), 0640); err != nil {
				r.Error("write: %v", err)
			}
			os.Chmod(f, 0640)
			os.Chtimes(f, mt, mt)
		case "chmod":
			os.Chmod(f, 0666)
		case "remove":
			os.Remove(f)
		case "move":
			m.Set(map[bool]string{true: "in", false: "out"}[st.S.H])
		case "check":
			if !m.Check(w) {
				r.Mismatch(c.ID, i, "hang", "check completes", "no further check", a)
				return
			}
			if !gtCompare(r, c.ID, i, m, w, a.Ev, a.Note, a.Out, a) {
				return
			}
		}
		got, mode := "absent", true
		if dat, err := os.ReadFile(f); err == nil {
			got = "?" + string(dat)
			for k, v := range content {
				if v == string(dat) {
					got = k
				}
			}
			s, _ := os.Stat(f)
			mode = s.Mode() == 0640
		}
		if got != st.S.F.C || mode != st.S.F.M {
			r.Mismatch(c.ID, i, "file", st.S.F, fmt.Sprintf("%s mode ok %v", got, mode), a)
			return
		}
		ents, _ := os.ReadDir(dir)
		for _, e := range ents {
			if e.Name() != "the.file" {
				r.Mismatch(c.ID, i, "leftover", "no temporary files stay behind", e.Name(), a)
				return
			}
		}
	}
}

func gtExpr(r *vhReporter, c gtCase, dir string) {
	var cfg string
	json.Unmarshal(c.Init.C, &cfg)
	m := vhNewMachine(dir)
	props := map[string]any{}
	if cfg != "fail" {
		props["success_when"] = `data.s > "o"`
	}
	if cfg != "success" {
		props["fail_when"] = `data.f > "o"`
	}
	wi, err := expressionwatcher.New(m, "we", []string{"in"}, nil, "bad", "good", "1h", 0, props)
	if err != nil {
		r.Mismatch(c.ID, 0, "new", "watcher is created", err.Error())
		return
	}
	w, stop := gtRun(wi)
	defer stop()
	if !m.Hold(w) {
		r.Mismatch(c.ID, 0, "hang", "watcher checks when notified", "no check")
		return
	}
	defer m.Free()
	val := map[string]any{"yes": "yes", "no": "no", "junk": 5}
	for i, st := range c.Steps {
		r.Step()
		a := st.A
		m.mu.Lock()
		m.data["s"], m.data["f"] = val[a.S], val[a.F]
		m.state = map[bool]string{true: "in", false: "out"}[a.Here]
		m.mu.Unlock()
		if !m.Check(w) {
			r.Mismatch(c.ID, i, "hang", "check completes", "no further check", a)
			return
		}
		if !gtCompare(r, c.ID, i, m, w, a.Ev, a.Note, a.Out, a) {
			return
		}
	}
}

type gtNotifier struct {
	mu  sync.Mutex
	evs []string
}

func (n *gtNotifier) NotifyPostTransition(t *machine.TransitionNotification) error {
	n.mu.Lock()
	n.evs = append(n.evs, t.Transition)
	n.mu.Unlock()
	return nil
}
func (n *gtNotifier) NotifyWatcherState(string, machine.WatcherStateNotification) error { return nil }
func (n *gtNotifier) Debugf(machine.InfoSource, string, string, ...any)                 {}
func (n *gtNotifier) Infof(machine.InfoSource, string, string, ...any)                  {}
func (n *gtNotifier) Warnf(machine.InfoSource, string, string, ...any)                  {}
func (n *gtNotifier) Errorf(machine.InfoSource, string, string, ...any)                 {}

const gtChainYaml = `name: chain
version: 1.0.0
initial_state: start
transitions:
  - {name: go, from: [start], destination: a}
  - {name: ab, from: [a], destination: b}
  - {name: ba, from: [b], destination: a}
  - {name: ca, from: [c], destination: a}
  - {name: fail, from: [a, b], destination: c}
  - {name: stop, from: [c], destination: done}
watchers:
  - {name: wa, type: exec, state_match: [a], success_transition: ab, fail_transition: fail, properties: {command: "/bin/sh step.sh wa", timeout: 10s}}
  - {name: wb, type: exec, state_match: [b], success_transition: ba, fail_transition: fail, properties: {command: "/bin/sh step.sh wb", timeout: 10s}}
  - {name: wc, type: exec, state_match: [c], success_transition: ca, fail_transition: stop, properties: {command: "/bin/sh step.sh wc", timeout: 10s},
     foreign_state_required: [{machine_name: dep, state: ready}]}
  - {name: wd, type: exec, state_match: [a, b, c], success_transition: stop, fail_transition: stop, properties: {command: "/bin/sh step.sh wd", timeout: 10s},
     foreign_state_required: [{machine_name: dep, state: ready}, {machine_name: dep, state: other}]}
`

func gtChain(r *vhReporter, c gtCase, dir string) {
	r.Step()
	step := "#!/bin/sh\ncd " + dir + "\necho $1 >> log\nread x < results\nsed -i 1d results\n[ \"$x\" = ok ]\n"
	os.WriteFile(filepath.Join(dir, "step.sh"), []byte(step), 0755)
	os.WriteFile(filepath.Join(dir, "results"), []byte(strings.Join(c.Res, "\n")+"\n"), 0644)
	os.WriteFile(filepath.Join(dir, "machine.yaml"), []byte(gtChainYaml), 0644)
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	mgr := watchers.New(ctx)
	m, err := machine.FromDir(dir, mgr)
	if err != nil {
		r.Mismatch(c.ID, 0, "load", "machine loads", err.Error())
		cancel()
		return
	}
	n := &gtNotifier{}
	m.RegisterNotifier(n)
	m.SetFactSource(func() json.RawMessage { return json.RawMessage("{}") })
	m.SetExternalMachineStateQuery(func(name string) (string, error) {
		if name == "dep" {
			return "ready", nil
		}
		return "", fmt.Errorf("not found")
	})
	<-m.Start(ctx, wg)
	if err := m.Transition("go"); err != nil {
		r.Mismatch(c.ID, 0, "go", "transition", err.Error())
	}
	done := vhEventually(30*time.Second, func() bool { return m.State() == "done" })
	time.Sleep(60 * time.Millisecond)
	cancel()
	wg.Wait()
	dat, _ := os.ReadFile(filepath.Join(dir, "log"))
	log := regexp.MustCompile(`\s+`).Split(strings.TrimSpace(string(dat)), -1)
	n.mu.Lock()
	defer n.mu.Unlock()
	if !done || !vhSame(log, c.Log) || !vhSame(n.evs, c.Evs) {
		r.Mismatch(c.ID, 0, "chain", map[string]any{"state": "done", "ran": c.Log, "events": c.Evs},
			map[string]any{"state": m.State(), "ran": log, "events": n.evs}, c.Res)
	}
}

var gtURL string

// gtGov runs an exec watcher whose command needs a slot of a Governor; the command ends when it is told to
func gtGov(r *vhReporter, c gtCase, k int, dir string) {
	nc, err := nats.Connect(gtURL)
	if err != nil {
		r.Error("connect: %v", err)
	}
	defer nc.Close()
	name := fmt.Sprintf("GOV%d", k)
	subj := "mt.governor." + name
	m := vhNewMachine(dir)
	m.facts = fmt.Sprintf(`{"gov":%q}`, name)
	if m.jsm, err = jsm.New(nc); err != nil {
		r.Error("jsm: %v", err)
	}
	m.foreign["dep"] = "ready"
	var gm governor.Manager
	slot := c.Init.SL
	if slot != "none" {
		if gm, err = governor.NewManager(name, 1, time.Hour, 1, nc, true, governor.WithSubject(subj)); err != nil {
			r.Error("governor: %v", err)
		}
		defer func() { gm.Stream().Delete() }()
	}
	var other governor.Finisher
	take := func() {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		if other, _, err = governor.New(name, nc, governor.WithSubject(subj)).Start(ctx, "other"); err != nil {
			r.Error("other: %v", err)
		}
	}
	if slot == "other" {
		take()
	}
	var mu sync.Mutex
	asked := 0
	sub, err := nc.Subscribe(subj, func(*nats.Msg) { mu.Lock(); asked++; mu.Unlock() })
	if err != nil {
		r.Error("subscribe: %v", err)
	}
	defer sub.Unsubscribe()
	nc.Flush()
	tries := func() int { mu.Lock(); defer mu.Unlock(); return asked }

	script, ran, end := filepath.Join(dir, "cmd.sh"), filepath.Join(dir, "ran"), filepath.Join(dir, "end")
	os.WriteFile(script, []byte("echo ran >> "+ran+"\nwhile [ ! -f "+end+" ]; do sleep 0.02; done\nread x < "+end+"\nexit $x\n"), 0644)
	wi, err := execwatcher.New(m, "wx", []string{"in"}, gtReq, "bad", "good", "", 0, map[string]any{
		"command": "/bin/sh " + script, "timeout": "60s", "governor": `{{ lookup "facts.gov" "" }}`, "governor_timeout": map[string]string{"patient": "60s", "hasty": "1s"}[c.Init.M]})
	if err != nil {
		r.Mismatch(c.ID, 0, "new", "watcher is created", err.Error())
		return
	}
	w, stop := gtRun(wi)
	stopped := false
	defer func() {
		os.WriteFile(end, []byte("0\n"), 0644)
		if !stopped {
			stop()
		}
	}()
	runs := func() int { d, _ := os.ReadFile(ran); return strings.Count(string(d), "\n") }
	total := 0
	for i, st := range c.Steps {
		r.Step()
		a := st.A
		t0, s0 := tries(), m.Asked()
		bad := func(key string, exp, got any) { r.Mismatch(c.ID, i, "governor-"+key, exp, got, a) }
		switch a.Op {
		case "move":
			m.Set(map[bool]string{true: "in", false: "out"}[st.S.H])
		case "take":
			take()
		case "check":
			w.NotifyStateChance()
			if st.S.P == "idle" {
				if !vhEventually(20*time.Second, func() bool { return m.Asked() > s0 }) {
					bad("check", "the watcher checks", "it does not")
					return
				}
			} else if !vhEventually(20*time.Second, func() bool { return tries() > t0 }) {
				bad("campaign", "the watcher asks for a slot", "it does not")
				return
			}
		case "free":
			if err := other(); err != nil {
				r.Error("finish: %v", err)
			}
			if a.Done && !vhEventually(20*time.Second, func() bool { return tries() > t0 || len(m.Life()) > 0 }) {
				bad("campaign", "the watcher asks again or gives up", "it does not")
				return
			}
		case "succeed", "fail":
			os.WriteFile(end+".new", []byte(map[string]string{"succeed": "0\n", "fail": "3\n"}[a.Op]), 0644)
			os.Rename(end+".new", end)
		case "giveup":
		case "stop":
			stop()
			stopped = true
		}
		if a.Ran {
			total++
			if !vhEventually(20*time.Second, func() bool { return runs() >= total }) {
				bad("run", "the command runs", "it does not")
				return
			}
		}
		if a.Note {
			vhEventually(20*time.Second, func() bool { _, n := m.Peek(); return n > 0 })
			vhEventually(5*time.Second, func() bool { e, _ := m.Peek(); return len(e) > 0 })
		}
		if len(a.LC) > 0 && !(a.Op == "free" && a.Done) {
			vhEventually(20*time.Second, func() bool { return len(m.Life()) >= len(a.LC) })
		}
		held := map[string]uint64{"other": 1, "mine": 1}[st.S.SL]
		if gm != nil {
			var got uint64
			if !vhEventually(20*time.Second, func() bool { got, err = gm.Active(); return err == nil && got == held }) {
				bad("slots", held, got)
				return
			}
		}
		// whatever it still does has to be seen
		time.Sleep(60 * time.Millisecond)
		if gm != nil {
			if got, err := gm.Active(); err != nil || got != held {
				bad("slots", held, got)
				return
			}
		}
		if a.Op == "succeed" || a.Op == "fail" {
			os.Remove(end)
		}
		if n := runs(); n != total {
			bad("runs", total, n)
			return
		}
		e, n := m.Take()
		life := m.TakeLife()
		if a.Op == "stop" {
			continue
		}
		if !vhSame(e, a.Ev) {
			bad("events", a.Ev, e)
			return
		}
		if (n == 1) != a.Note || n > 1 {
			bad("notification", a.Note, n)
			return
		}
		if !(a.Op == "free" && a.Done) {
			exp := []string{}
			for _, l := range a.LC {
				exp = append(exp, name+"/"+l)
			}
			if !vhSame(life, exp) {
				bad("announced", exp, life)
				return
			}
		}
	}
	r.Count("governed")
}
