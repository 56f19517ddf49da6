package vh

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/nats-io/nats.go"
	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/aagent"
	"github.com/choria-io/go-choria/aagent/machine"
	"github.com/choria-io/go-choria/aagent/model"
	"github.com/choria-io/go-choria/aagent/watchers"
	"github.com/choria-io/go-choria/aagent/watchers/watcher"
	"github.com/choria-io/go-choria/inter"
)

type hoState struct {
	Content map[string]string `json:"content"`
	Run     map[string]string `json:"run"`
	St      map[string]string `json:"st"`
	Over    bool              `json:"over"`
}
type hoCase struct {
	ID    string  `json:"id"`
	Init  hoState `json:"init"`
	Steps []struct {
		A struct {
			X     string `json:"x"`
			Storm bool   `json:"storm"`
			D     string `json:"d"`
			By    string `json:"by"`
			E     string `json:"e"`
			Ok    bool   `json:"ok"`
		} `json:"a"`
		S hoState `json:"s"`
	} `json:"steps"`
}

// ---- what the host needs from the server
type hoProvider struct {
	log *logrus.Entry
}
type hoConn struct{ inter.Connector }

func (hoConn) Nats() *nats.Conn { return &nats.Conn{} }

func (p *hoProvider) PublishRaw(string, []byte) error { return nil }
func (p *hoProvider) Logger(string) *logrus.Entry     { return p.log }
func (p *hoProvider) Identity() string                { return "node.example" }
func (p *hoProvider) PrometheusTextFileDir() string   { return "" }
func (p *hoProvider) ScoutOverridesPath() string      { return "" }
func (p *hoProvider) ServerStatusFile() (string, int) { return "", 0 }
func (p *hoProvider) MainCollective() string          { return "mt" }
func (p *hoProvider) Connector() inter.Connector      { return hoConn{} }
func (p *hoProvider) Facts() json.RawMessage          { return json.RawMessage("{}") }
func (p *hoProvider) MachineSignerKey() string        { return "" }
func (p *hoProvider) MachineHTTPPort() int            { return 0 }

// ---- a watcher that tells which machines are at work
type hoRec struct {
	*watcher.Watcher
	dir, version, name, id string
	begun, ended           int
	deleted                int
	since                  time.Time
}

var (
	hoMu   sync.Mutex
	hoAll  = map[string][]*hoRec{} // by machine directory
	hoDone = map[string]time.Time{}
)

type hoPlugin struct{}

func (hoPlugin) New(m model.Machine, name string, states []string, req []model.ForeignMachineState, failEvent string, successEvent string, interval string, ai time.Duration, properties map[string]any) (any, error) {
	w, err := watcher.NewWatcher(name, "recorder", ai, states, req, m, failEvent, successEvent)
	if err != nil {
		return nil, err
	}
	r := &hoRec{Watcher: w, dir: m.Directory(), version: m.Version(), name: name, id: m.InstanceID()}
	hoMu.Lock()
	hoAll[r.dir] = append(hoAll[r.dir], r)
	hoMu.Unlock()
	return r, nil
}
func (hoPlugin) Type() string                                { return "recorder" }
func (hoPlugin) EventType() string                           { return "recorder" }
func (hoPlugin) UnmarshalNotification(n []byte) (any, error) { return nil, nil }

func (r *hoRec) Run(ctx context.Context, wg *sync.WaitGroup) {
	defer wg.Done()
	hoMu.Lock()
	r.begun++
	r.since = time.Now()
	hoMu.Unlock()
	for {
		select {
		case <-r.StateChangeC():
		case <-ctx.Done():
			hoMu.Lock()
			r.ended++
			hoMu.Unlock()
			return
		}
	}
}
func (r *hoRec) Delete() { hoMu.Lock(); r.deleted++; hoMu.Unlock() }

// hoRunning are the versions and watchers at work in dir
func hoRunning(dir string) []string {
	hoMu.Lock()
	defer hoMu.Unlock()
	res := []string{}
	for _, r := range hoAll[dir] {
		for i := r.ended; i < r.begun; i++ {
			res = append(res, r.version+" "+r.name)
		}
	}
	for i := range res {
		for j := i + 1; j < len(res); j++ {
			if res[j] < res[i] {
				res[i], res[j] = res[j], res[i]
			}
		}
	}
	return res
}

// ---- the machine that is compiled in
type hoMachine struct{}

func (hoMachine) Name() string       { return "p" }
func (hoMachine) PluginName() string { return "p" }
func (hoMachine) Machine() any {
	return &machine.Machine{
		MachineName: "p", MachineVersion: "1.0.0", InitialState: "idle",
		Transitions: []*machine.Transition{
			{Name: "go", From: []string{"idle"}, Destination: "on"},
			{Name: "back", From: []string{"on"}, Destination: "idle"},
		},
		WatcherDefs: []*watchers.WatcherDef{{Name: "rec", Type: "recorder", Properties: map[string]any{}}},
	}
}

var hoVersions = map[string]string{"v1": "1.0.0", "v2": "2.0.0", "invalid": "4.0.0", "slow": "3.0.0"}

func hoManifest(d, c string) string {
	if c == "broken" {
		return "name: [" + d + "\n  version: }"
	}
	splay, wtype, subs := "", "recorder", ""
	switch c {
	case "slow":
		splay = "splay_start: 30\n"
	case "invalid":
		wtype = "nosuchwatcher"
	case "v1":
		subs = "\n    subscribe:\n      - machine_name: p\n        event: go"
		if d == "b" {
			subs += "\n      - machine_name: a\n        event: go"
		}
	}
	return fmt.Sprintf(`name: %s
version: %s
initial_state: idle
%stransitions:
  - name: go
    from: [idle]
    destination: on%s
  - name: back
    from: [on]
    destination: idle
watchers:
  - name: rec1
    type: recorder
    properties: {}
  - name: rec2
    type: %s
    state_match: [on]
    properties: {}
`, d, hoVersions[c], splay, subs, wtype)
}

func hoWrite(root, d, c string) {
	dir := filepath.Join(root, d)
	f := filepath.Join(dir, "machine.yaml")
	switch c {
	case "absent":
		os.RemoveAll(dir)
	case "nomanifest":
		os.MkdirAll(dir, 0755)
		os.Remove(f)
	default:
		os.MkdirAll(dir, 0755)
		os.WriteFile(f, []byte(hoManifest(d, c)), 0644)
	}
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases []*hoCase `json:"cases"`
	}
	r := vhOpen(t, &in)
	defer r.Done()
	log := logrus.New()
	log.SetOutput(io.Discard)
	watchers.RegisterWatcherPlugin("recorder", hoPlugin{})
	aagent.RegisterMachinePlugin(hoMachine{})
	td, err := os.MkdirTemp("", "host")
	if err != nil {
		r.Error("%v", err)
	}
	defer os.RemoveAll(td)
	var wg sync.WaitGroup
	for i, c := range in.Cases {
		wg.Add(1)
		r.Case(c.ID)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(i*37) * time.Millisecond)
			hoWalk(r, c, filepath.Join(td, c.ID), &hoProvider{log.WithField("c", c.ID)})
		}()
	}
	wg.Wait()
}

func hoWalk(r *vhReporter, c *hoCase, root string, fw *hoProvider) {
	for _, d := range []string{"tmp", ".hidden", "c-temp"} { // never machines
		hoWrite(root, d, "v2")
	}
	os.WriteFile(filepath.Join(root, "machine.yaml"), []byte(hoManifest("z", "v2")), 0644)
	for _, d := range []string{"a", "b"} {
		hoWrite(root, d, c.Init.Content[d])
	}
	a, err := aagent.New(root, fw)
	if err != nil {
		r.Mismatch(c.ID, -1, "create", "a host", err.Error())
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	wg := &sync.WaitGroup{}
	t0 := time.Now()
	a.ManageMachines(ctx, wg)
	step := -1
	what := ""
	bad := func(key string, exp, got any) { r.Mismatch(c.ID, step, key, exp, got, what) }
	// calls into the host never block
	call := func(d time.Duration, f func()) bool {
		if g := vhGuard(d, f); g != "" {
			bad("blocked", "the host answers", g)
			return false
		}
		return true
	}
	observe := func() (got map[string]string, ok bool) {
		got = map[string]string{}
		var ss []aagent.MachineState
		if !call(20*time.Second, func() { ss, _ = a.AllMachineStates() }) {
			return nil, false
		}
		for _, s := range ss {
			n := s.Name
			if _, has := got["loaded "+n]; has {
				n += " again"
			}
			got["loaded "+n] = s.Version
			got["state "+n] = s.State
		}
		for _, d := range []string{"a", "b", "p", "tmp", ".hidden", "c-temp", ""} {
			if x := hoRunning(filepath.Join(root, d)); len(x) > 0 {
				got["running "+d] = strings.Join(x, ",")
			}
		}
		return got, true
	}
	expected := func(s hoState) map[string]string {
		e := map[string]string{"loaded p": "1.0.0", "state p": s.St["p"], "running p": "1.0.0 rec"}
		for _, d := range []string{"a", "b"} {
			v := s.Run[d]
			if v == "none" {
				continue
			}
			e["loaded "+d] = hoVersions[v]
			e["state "+d] = s.St[d]
			if v == "v1" || v == "v2" {
				e["running "+d] = hoVersions[v] + " rec1," + hoVersions[v] + " rec2"
			}
		}
		return e
	}
	same := func(s hoState, got map[string]string) bool {
		e := expected(s)
		for k, v := range e {
			if v == "any" {
				if got[k] != "idle" && got[k] != "on" {
					return false
				}
				e[k] = got[k]
			}
		}
		for _, d := range []string{"a", "b"} {
			if s.Run[d] == "slow" && got["running "+d] == "3.0.0 rec1,3.0.0 rec2" {
				e["running "+d] = got["running "+d]
			}
		}
		return vhSame(e, got)
	}
	wait := func(s hoState, limit time.Duration) (map[string]string, bool) {
		end := time.Now().Add(limit)
		for {
			got, ok := observe()
			if !ok {
				return nil, false
			}
			if same(s, got) || time.Now().After(end) {
				return got, true
			}
			time.Sleep(40 * time.Millisecond)
		}
	}
	finish := func() {
		cancel()
		if g := vhGuard(20*time.Second, func() { wg.Wait() }); g != "" {
			bad("stop", "everything stops", g)
			return
		}
		time.Sleep(50 * time.Millisecond)
		for _, d := range []string{"a", "b", "p"} {
			if x := hoRunning(filepath.Join(root, d)); len(x) > 0 {
				bad("stop", "nothing runs", x)
			}
			// no machine starts twice
			hoMu.Lock()
			for _, rec := range hoAll[filepath.Join(root, d)] {
				if rec.begun > 1 {
					bad("started-twice", 1, rec.begun)
				}
			}
			hoMu.Unlock()
		}
	}
	got, ok := wait(c.Init, 5*time.Second)
	if !ok {
		return
	}
	if !same(c.Init, got) {
		bad("initial", expected(c.Init), got)
		return
	}
	phase := func() time.Duration { return time.Since(t0) % (10 * time.Second) }
	gone := map[string]time.Time{} // directories that hold nothing to run, and since when
	prev := c.Init
	for i, s := range c.Steps {
		r.Step()
		step = i
		what = fmt.Sprintf("%+v content=%v before=%v", s.A, s.S.Content, prev.Run)
		switch s.A.X {
		case "fire":
			name, version, path, id := s.A.D, "", "", ""
			dir := filepath.Join(root, s.A.D)
			ss, _ := a.AllMachineStates()
			mine := aagent.MachineState{ID: "none", Version: "9.9.9"}
			for _, x := range ss {
				if x.Name == s.A.D {
					mine = x
				}
			}
			switch s.A.By {
			case "path":
				name, path = "", dir
			case "id":
				name, id = "", mine.ID
			case "all":
				version, path, id = mine.Version, dir, mine.ID
			case "wrongversion":
				version = "0.0.1"
			case "wrongpath":
				path = dir + "x"
			case "wrongid":
				id = "x" + mine.ID
			case "none":
				name = ""
			}
			var err error
			if !call(20*time.Second, func() { err = a.Transition(name, version, path, id, s.A.E) }) {
				return
			}
			if (err == nil) != s.A.Ok {
				bad("transition", s.A.Ok, fmt.Sprint(err))
				return
			}
			got, ok := wait(s.S, 5*time.Second)
			if !ok {
				return
			}
			if !same(s.S, got) {
				bad("fire", expected(s.S), got)
				return
			}
		case "tick", "race":
			if p := phase(); p > 9*time.Second || (s.A.Storm && p > 2500*time.Millisecond) {
				time.Sleep(10*time.Second - p + 1200*time.Millisecond)
			}
			for d, v := range s.S.Content {
				if v != prev.Content[d] || (!s.A.Storm && s.A.X == "tick") {
					hoWrite(root, d, v)
				}
			}
			stop := make(chan struct{})
			var storm sync.WaitGroup
			if s.A.Storm { // events arrive until the machine is replaced
				storm.Add(1)
				go func() {
					defer storm.Done()
					for n := 0; ; n++ {
						select {
						case <-stop:
							return
						default:
						}
						e := "go"
						if ss, _ := a.AllMachineStates(); true {
							found := false
							for _, x := range ss {
								if x.Name == "a" && x.Version == hoVersions[prev.Run["a"]] {
									found = true
									if x.State == "on" {
										e = "back"
									}
								}
							}
							if !found {
								return
							}
						}
						a.Transition("a", hoVersions[prev.Run["a"]], "", "", e)
					}
				}()
			}
			time.Sleep(10*time.Second - phase())
			if s.A.X == "race" {
				time.Sleep(500 * time.Millisecond)
				a.Transition("p", "", "", "", "go")
			}
			time.Sleep(30 * time.Millisecond)
			limit := 9 * time.Second
			if s.A.Storm { // a transition may sleep for five seconds before the machine can be stopped
				limit = 18 * time.Second
			}
			got, ok := wait(s.S, limit)
			close(stop)
			if !ok {
				return
			}
			if !call(20*time.Second, storm.Wait) {
				return
			}
			if !same(s.S, got) {
				bad(s.A.X, expected(s.S), got)
				return
			}
			for _, d := range []string{"a", "b"} {
				if s.S.Run[d] == "none" || s.S.Run[d] == "invalid" {
					if prev.Run[d] == "slow" {
						gone[d] = time.Now()
					}
				} else {
					delete(gone, d)
				}
			}
		}
		for d, at := range gone { // what was removed while it waited to start never does
			hoMu.Lock()
			for _, rec := range hoAll[filepath.Join(root, d)] {
				if rec.since.After(at) {
					bad("started-late", "a removed machine does not start", rec.version)
				}
			}
			hoMu.Unlock()
		}
		prev = s.S
	}
	step = len(c.Steps)
	finish()
}
