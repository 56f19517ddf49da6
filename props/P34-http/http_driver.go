package vh

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/nats-io/nats.go"
	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/aagent"
	"github.com/choria-io/go-choria/aagent/model"
	"github.com/choria-io/go-choria/aagent/watchers"
	"github.com/choria-io/go-choria/aagent/watchers/httpswitchwatcher"
	"github.com/choria-io/go-choria/aagent/watchers/metricwatcher"
	"github.com/choria-io/go-choria/backoff"
	"github.com/choria-io/go-choria/inter"
)

type haState struct {
	St   string `json:"st"`
	Pos  string `json:"pos"`
	Kst  string `json:"kst"`
	Val  int    `json:"val"`
	Met  int    `json:"met"`
	Host bool   `json:"host"`
	Over bool   `json:"over"`
}
type haCase struct {
	ID    string  `json:"id"`
	Port  int     `json:"port"`
	Init  haState `json:"init"`
	Steps []struct {
		A struct {
			X     string `json:"x"`
			M     string `json:"m"`
			On    bool   `json:"on"`
			How   string `json:"how"`
			Ok    bool   `json:"ok"`
			T     string `json:"t"`
			J     string `json:"j"`
			Slow  bool   `json:"slow"`
			Moved bool   `json:"moved"`
		} `json:"a"`
		S haState `json:"s"`
	} `json:"steps"`
}

// ---- what the host needs from the server
type haProvider struct {
	log  *logrus.Entry
	port int
	mu   sync.Mutex
	evs  map[string][]string // transitions that were announced for each machine
}
type haConn struct{ inter.Connector }

func (haConn) Nats() *nats.Conn { return &nats.Conn{} }

func (p *haProvider) PublishRaw(s string, d []byte) error {
	if s == "choria.machine.transition" {
		var e struct {
			Data struct {
				Machine    string `json:"machine"`
				Transition string `json:"transition"`
			} `json:"data"`
		}
		json.Unmarshal(d, &e)
		p.mu.Lock()
		p.evs[e.Data.Machine] = append(p.evs[e.Data.Machine], e.Data.Transition)
		p.mu.Unlock()
	}
	return nil
}
func (p *haProvider) take(m string) []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	r := p.evs[m]
	p.evs[m] = nil
	return r
}
func (p *haProvider) Logger(string) *logrus.Entry     { return p.log }
func (p *haProvider) Identity() string                { return "node.example" }
func (p *haProvider) PrometheusTextFileDir() string   { return "" }
func (p *haProvider) ScoutOverridesPath() string      { return "" }
func (p *haProvider) ServerStatusFile() (string, int) { return "", 0 }
func (p *haProvider) MainCollective() string          { return "mt" }
func (p *haProvider) Connector() inter.Connector      { return haConn{} }
func (p *haProvider) Facts() json.RawMessage          { return json.RawMessage("{}") }
func (p *haProvider) MachineSignerKey() string        { return "" }
func (p *haProvider) MachineHTTPPort() int            { return p.port }

const haScript = `v=$(cat val)
if [ -f hold ]; then sleep 4 & fi
echo "{\"metrics\":{\"v\":$v}}"
`

func haManifest(name, version string) string {
	if version == "bare" {
		return fmt.Sprintf(`name: %s
version: 99.0.0
initial_state: bare
transitions:
  - {name: turn_on, from: [bare], destination: ON}
watchers:
  - name: hid
    type: metric
    properties: {command: "/bin/sh ./met.sh", interval: 1h, skip_prometheus: true}
`, name)
	}
	return fmt.Sprintf(`name: %s
version: %s
initial_state: OFF
transitions:
  - {name: turn_on, from: [OFF, MID], destination: ON}
  - {name: turn_off, from: [ON], destination: OFF}
  - {name: lock, from: [OFF, ON, MID], destination: LOCK}
  - {name: unlock, from: [LOCK], destination: MID}
  - {name: away, from: [OFF, ON, MID, LOCK], destination: AWAY}
  - {name: back, from: [AWAY], destination: MID}
watchers:
  - name: sw
    type: httpswitch
    state_match: [OFF, ON, LOCK, MID]
    success_transition: turn_on
    fail_transition: turn_off
    properties: {on_when: [ON], off_when: [OFF], disable_when: [LOCK], annotations: {room: %s}}
  - name: met
    type: metric
    state_match: [OFF, ON, LOCK, MID]
    properties: {command: "/bin/sh ./met.sh", interval: 1s, http: true, skip_prometheus: true, labels: {room: %s}}
  - name: late
    type: metric
    properties: {command: "/bin/sh ./met.sh", interval: 1h, http: true, skip_prometheus: true}
  - name: hid
    type: metric
    properties: {command: "/bin/sh ./met.sh", interval: 1h, skip_prometheus: true}
`, name, version, name, name)
}

func haWrite(root, d, n, version string, val int) {
	dir := filepath.Join(root, d)
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, "met.sh"), []byte(haScript), 0644)
	haVal(root, d, val)
	os.WriteFile(filepath.Join(root, d+".new"), []byte(haManifest(n, version)), 0644)
	os.Rename(filepath.Join(root, d+".new"), filepath.Join(dir, "machine.yaml"))
}

func haVal(root, n string, val int) {
	f := filepath.Join(root, n, "val")
	os.WriteFile(f+".new", []byte(fmt.Sprint(val)), 0644)
	os.Rename(f+".new", f)
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases    []*haCase `json:"cases"`
		Parallel int       `json:"parallel"`
	}
	r := vhOpen(t, &in)
	defer r.Done()
	log := logrus.New()
	log.SetOutput(io.Discard)
	logrus.SetOutput(io.Discard)
	backoff.FiveSecStartGrace = backoff.Policy{Millis: []int{0, 1}}
	for n, p := range map[string]any{"httpswitch": httpswitchwatcher.ChoriaPlugin().Creator, "metric": metricwatcher.ChoriaPlugin().Creator} {
		if err := watchers.RegisterWatcherPlugin(n, p.(model.WatcherConstructor)); err != nil {
			r.Error("register: %v", err)
		}
	}
	td, err := os.MkdirTemp("", "http")
	if err != nil {
		r.Error("%v", err)
	}
	defer os.RemoveAll(td)
	sem := make(chan struct{}, in.Parallel)
	var wg sync.WaitGroup
	for _, c := range in.Cases {
		sem <- struct{}{}
		wg.Add(1)
		r.Case(c.ID)
		go func(c *haCase) {
			defer func() { <-sem; wg.Done() }()
			port := c.Port
			for try := 0; ; try++ {
				l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
				if err == nil {
					l.Close()
					break
				}
				if port++; try > 4 {
					r.Error("no free port near %d: %v", c.Port, err)
					return
				}
			}
			haWalk(r, c, filepath.Join(td, c.ID), &haProvider{log: log.WithField("c", c.ID), port: port, evs: map[string][]string{}})
		}(c)
	}
	wg.Wait()
}

type haReply struct {
	Code int
	Body string
	Err  error
}

func haWalk(r *vhReporter, c *haCase, root string, fw *haProvider) {
	m, k := "m"+c.ID, "k"+c.ID
	haWrite(root, m, m, "1.0.0", c.Init.Val)
	haWrite(root, k, k, "1.0.0", 7)
	a, err := aagent.New(root, fw)
	if err != nil {
		r.Mismatch(c.ID, -1, "create", "a host", err.Error())
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	step, what := -1, ""
	bad := func(key string, exp, got any) { r.Mismatch(c.ID, step, key, exp, got, what) }
	cl := &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 30}}
	defer func() {
		cancel()
		cl.CloseIdleConnections()
		if g := vhGuard(20*time.Second, func() { wg.Wait() }); g != "" {
			bad("stop", "everything stops", g)
		}
		os.RemoveAll(root)
	}()
	t0 := time.Now()
	a.ManageMachines(ctx, wg)
	do := func(method, path, body string) haReply {
		req, _ := http.NewRequest(method, fmt.Sprintf("http://127.0.0.1:%d%s", fw.port, path), bytes.NewBufferString(body))
		res, err := cl.Do(req)
		if err != nil {
			return haReply{Err: err}
		}
		defer res.Body.Close()
		d, _ := io.ReadAll(res.Body)
		return haReply{Code: res.StatusCode, Body: string(d)}
	}
	sw := func(m, w string) string { return "/choria/machine/switch/v1/" + m + "/" + w }
	ha := func(m, w string) string { return "/choria/homeassistant/switch/v1/" + m + "/" + w }
	mt := func(m, w string) string { return "/choria/machine/metric/v1/" + m + "/" + w }
	press := func(m string, on bool, how string) haReply {
		if how == "ha" {
			return do("POST", ha(m, "sw"), map[bool]string{true: "ON", false: "OFF"}[on])
		}
		return do("POST", sw(m, "sw"), fmt.Sprintf(`{"on":%v}`, on))
	}
	saysOn := func(x haReply, on bool, how string) bool {
		if x.Err != nil || x.Code != 200 {
			return false
		}
		if how == "ha" {
			return x.Body == map[bool]string{true: "ON", false: "OFF"}[on]
		}
		var p struct {
			IsOn *bool `json:"is_on"`
		}
		return json.Unmarshal([]byte(x.Body), &p) == nil && p.IsOn != nil && *p.IsOn == on
	}
	state := func(n string) string {
		ss, _ := a.AllMachineStates()
		for _, s := range ss {
			if s.Name == n {
				return s.State
			}
		}
		return "gone"
	}
	// what can be seen of one switch
	look := func(n string) (pos string, err string) {
		x, h := do("GET", sw(n, "sw"), ""), do("GET", ha(n, "sw"), "")
		if x.Err != nil || h.Err != nil {
			return "", fmt.Sprintf("no answer: %v %v", x.Err, h.Err)
		}
		if x.Code == 400 && h.Code == 400 {
			if strings.Contains(x.Body, "null") || x.Body == "" {
				return "", "odd reply " + x.Body
			}
			return "none", ""
		}
		var p struct {
			IsOn   bool   `json:"is_on"`
			IsOff  bool   `json:"is_off"`
			Status string `json:"status"`
			Detail struct {
				Data struct {
					Annotations map[string]string `json:"annotations"`
				} `json:"data"`
				Annotations map[string]string `json:"annotations"`
				IsOn        bool              `json:"is_on"`
			} `json:"detail"`
		}
		if x.Code != 200 || h.Code != 200 || json.Unmarshal([]byte(x.Body), &p) != nil {
			return "", fmt.Sprintf("odd reply %+v %+v", x, h)
		}
		if p.IsOn == p.IsOff || p.IsOn != (p.Status == "on") || (h.Body == "ON") != p.IsOn || (h.Body != "ON" && h.Body != "OFF") || p.Detail.Annotations["room"] != n || p.Detail.IsOn != p.IsOn {
			return "", fmt.Sprintf("they do not agree: %+v %+v", x, h)
		}
		return p.Status, ""
	}
	metric := func() (int, string) {
		x := do("GET", mt(m, "met"), "")
		if x.Err != nil {
			return 0, x.Err.Error()
		}
		if x.Code == 400 {
			return -1, ""
		}
		var p struct {
			Labels  map[string]string  `json:"labels"`
			Metrics map[string]float64 `json:"metrics"`
			Time    int64              `json:"time"`
		}
		if x.Code != 200 || json.Unmarshal([]byte(x.Body), &p) != nil {
			return 0, fmt.Sprintf("odd reply %+v", x)
		}
		if len(p.Metrics) == 0 {
			return 0, ""
		}
		if p.Labels["room"] != m || time.Since(time.Unix(p.Time, 0)) > time.Minute*5 {
			return 0, fmt.Sprintf("odd reply %+v", x)
		}
		return int(p.Metrics["v"]), ""
	}
	// everything that can be seen
	observe := func(exp haState) (map[string]any, map[string]any) {
		e := map[string]any{"machine": exp.St, "switch": exp.Pos, "k": exp.Kst, "k switch": strings.ToLower(exp.Kst), "metric": exp.Met}
		e["late"] = 200
		if exp.Pos == "none" {
			e["metric"], e["late"] = -1, 400
		}
		g := map[string]any{"machine": state(m), "k": state(k)}
		var err string
		if g["switch"], err = look(m); err != "" {
			g["error"] = err
		}
		if g["k switch"], err = look(k); err != "" {
			g["error k"] = err
		}
		if g["metric"], err = metric(); err != "" {
			g["error metric"] = err
		}
		g["late"] = do("GET", mt(m, "late"), "").Code
		if exp.Pos == "any" && g["switch"] != "none" {
			g["switch"] = "any"
		}
		return e, g
	}
	settle := func(exp haState, key string, limit time.Duration) bool {
		var e, g map[string]any
		if !vhEventually(limit, func() bool { e, g = observe(exp); return vhSame(e, g) }) {
			bad(key, e, g)
			return false
		}
		return true
	}
	if c.Init.Kst == "ON" {
		if !vhEventually(10*time.Second, func() bool { return press(k, true, "json").Code == 200 }) {
			bad("initial", "k can be switched on", press(k, true, "json"))
			return
		}
	}
	if !settle(c.Init, "initial", 15*time.Second) {
		return
	}
	time.Sleep(20 * time.Millisecond)
	fw.take(m)
	version, dir := 1, m
	prev := c.Init
	for i, s := range c.Steps {
		r.Step()
		step = i
		what = fmt.Sprintf("%+v in %+v", s.A, prev)
		limit := 12 * time.Second
		exact := true // announced transitions are known
		want := []string{}
		switch s.A.X {
		case "press":
			n := map[string]string{"m": m, "k": k}[s.A.M]
			x := press(n, s.A.On, s.A.How)
			if x.Err != nil {
				bad("no-answer", "an answer", x.Err.Error())
				return
			}
			if s.A.Ok != (x.Code == 200) {
				bad("press", s.A.Ok, x)
				return
			}
			if s.A.Ok && !saysOn(x, s.A.On, s.A.How) {
				bad("press-answer", s.A.On, x)
				return
			}
			if s.A.M == "m" && s.S.St != prev.St {
				want = append(want, map[bool]string{true: "turn_on", false: "turn_off"}[s.A.On])
			}
		case "burst", "burstlock":
			exact = false
			var bw sync.WaitGroup
			var mu sync.Mutex
			var fail []haReply
			for j := 0; j < 12; j++ {
				bw.Add(1)
				go func() {
					defer bw.Done()
					on, how := j%2 == 0, []string{"json", "ha"}[j/2%2]
					x := press(m, on, how)
					ok := saysOn(x, on, how) || (s.A.X == "burstlock" && x.Err == nil && x.Code == 500)
					if !ok {
						mu.Lock()
						fail = append(fail, x)
						mu.Unlock()
					}
				}()
			}
			var terr error
			if s.A.X == "burstlock" {
				g := vhGuard(20*time.Second, func() { terr = a.Transition(m, "", "", "", "lock") })
				if g != "" || terr != nil {
					bad("no-answer", "the machine locks", fmt.Sprint(g, terr))
					return
				}
			}
			bw.Wait()
			if len(fail) > 0 {
				bad("burst", "every press is answered", fmt.Sprintf("%+v", fail))
				return
			}
			if s.A.X == "burst" {
				if x := press(m, s.A.On, "json"); !saysOn(x, s.A.On, "json") {
					bad("burst", "the last press is answered", x)
					return
				}
			}
		case "fire":
			var terr error
			g := vhGuard(20*time.Second, func() { terr = a.Transition(m, "", "", "", s.A.T) })
			if g != "" || terr != nil {
				bad("no-answer", "the machine transitions", fmt.Sprint(g, terr))
				return
			}
			want = append(want, s.A.T)
		case "measure":
			haVal(root, dir, s.S.Val)
			if s.S.Met == prev.Met {
				time.Sleep(1500 * time.Millisecond)
			}
		case "junk":
			var x haReply
			code := 400
			switch s.A.J {
			case "badjson":
				x, code = do("POST", sw(m, "sw"), `{"on":tr`), 500
			case "put":
				x, code = do("PUT", sw(m, "sw"), `{"on":true}`), 404
			case "delete":
				x, code = do("DELETE", ha(m, "sw"), `ON`), 404
			case "metricpost":
				x, code = do("POST", mt(m, "met"), `{}`), 404
			case "nomachine":
				x = do("GET", sw("x"+m, "sw"), "")
			case "nowatcher":
				x = do("GET", ha(m, "sw2"), "")
			case "notswitch":
				x = do("GET", sw(m, "met"), "")
			case "notmetric":
				x = do("GET", mt(m, "sw"), "")
			case "hidden":
				x = do("GET", mt(m, "hid"), "")
			}
			if x.Err != nil || x.Code != code {
				bad("junk-"+s.A.J, code, x)
				return
			}
		case "remove":
			exact = false
			limit = 25 * time.Second
			os.RemoveAll(filepath.Join(root, dir))
		case "strip":
			exact = false
			limit = 25 * time.Second
			haWrite(root, dir, m, "bare", s.S.Val)
		case "replace":
			exact = false
			limit = 25 * time.Second
			if s.A.Slow {
				os.WriteFile(filepath.Join(root, dir, "hold"), nil, 0644)
				time.Sleep(1200 * time.Millisecond)
			}
			version++
			v := fmt.Sprintf("%d.0.0", version)
			if s.A.Moved {
				// just before the host looks, gathering is still under way then
				if p := time.Since(t0) % (10 * time.Second); p < 9700*time.Millisecond {
					time.Sleep(9700*time.Millisecond - p)
				}
				os.RemoveAll(filepath.Join(root, dir))
				dir = "another" + m
			}
			haWrite(root, dir, m, v, s.S.Val)
			if !vhEventually(limit, func() bool {
				ss, _ := a.AllMachineStates()
				for _, x := range ss {
					if x.Name == m && x.Version == v {
						return true
					}
				}
				return false
			}) {
				bad("replace", "version "+v, "it does not run")
				return
			}
			os.Remove(filepath.Join(root, dir, "hold"))
			if s.A.Slow {
				time.Sleep(1500 * time.Millisecond)
			}
		}
		if !settle(s.S, s.A.X, limit) {
			return
		}
		time.Sleep(30 * time.Millisecond)
		e, g := observe(s.S)
		// the metric may be gathered again at any time but always yields the same
		if !vhSame(e, g) {
			bad(s.A.X+"-later", e, g)
			return
		}
		evs := fw.take(m)
		if exact && !vhSame(append([]string{}, evs...), want) {
			bad("transitions", want, evs)
			return
		}
		prev = s.S
	}
}
