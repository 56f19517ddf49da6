package vh

// Replays the behaviour of checks and programs into the real nagios, exec and metric watchers and the scout agent.

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/choria-io/go-choria/aagent"
	"github.com/choria-io/go-choria/aagent/watchers/execwatcher"
	"github.com/choria-io/go-choria/aagent/watchers/metricwatcher"
	"github.com/choria-io/go-choria/aagent/watchers/nagioswatcher"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	scout "github.com/choria-io/go-choria/scout/agent/scout"
	"github.com/choria-io/go-choria/server"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/sirupsen/logrus"
)

type ckPerf struct{ L, V, U string }
type ckProg struct{ X, O string }
type ckKV struct{ K, V string }
type ckGood struct {
	F    string
	M, L []ckKV
}

type ckCase struct {
	ID   string `json:"id"`
	Kind string `json:"kind"`
	// nagios, metric
	Init  json.RawMessage `json:"init"`
	Steps []struct {
		A struct {
			X     string          `json:"x"`
			E     string          `json:"e"`
			P     json.RawMessage `json:"p"`
			Perf  []ckPerf        `json:"perf"`
			Ran   bool            `json:"ran"`
			Code  int             `json:"code"`
			Good  ckGood          `json:"good"`
			Fresh bool            `json:"fresh"`
			Bad   bool            `json:"bad"`
		} `json:"a"`
		S json.RawMessage `json:"s"`
	} `json:"steps"`
	// tables
	Rows []struct {
		R struct {
			X    string
			O    struct{ Data, Quiet, Disown bool }
			Act  string
			List []string
		}
		Out struct {
			Ev, Outcome           string
			Note                  int
			Put                   bool
			Done, Skipped, Failed []string
			Ok                    string
		}
	} `json:"rows"`
}

// ckMachine behaves like a machine with the states of a Scout check, or like a machine in state run
type ckMachine struct {
	*vhMachine
	name  string
	over  string
	calls atomic.Int64
	scout bool
	tmu   sync.Mutex
	w     vhWatcher
}

func (m *ckMachine) Name() string { return m.name }
func (m *ckMachine) State() string {
	m.calls.Add(1)
	return m.vhMachine.State()
}
func (m *ckMachine) OverrideData() ([]byte, error) {
	if m.over == "" {
		return nil, nil
	}
	return os.ReadFile(m.over)
}

func (m *ckMachine) Transition(ev string, args ...any) error {
	if !m.scout {
		return m.vhMachine.Transition(ev, args...)
	}
	// a machine holds its lock while it tells its watchers of the change
	m.tmu.Lock()
	defer m.tmu.Unlock()
	cur := m.vhMachine.State()
	to := ""
	switch ev {
	case "OK", "WARNING", "CRITICAL", "UNKNOWN":
		if cur != "MAINTENANCE" {
			to = ev
		}
	case "FORCE_CHECK", "MAINTENANCE":
		if cur != "MAINTENANCE" && cur != "FORCE_CHECK" {
			to = ev
		}
	case "RESUME":
		if cur == "MAINTENANCE" {
			to = "UNKNOWN"
		}
	}
	if to == "" {
		return nil
	}
	m.vhMachine.Set(to)
	m.w.NotifyStateChance()
	return nil
}

var ckOut = map[string]string{
	"none":    "",
	"text":    "all is well\n",
	"perf":    "OK: load|load1=0.5;1;2;; load5=2;3\n",
	"units":   "OK | rta=12.5ms;100 used=80%;90;95 size=10KB hits=7c",
	"nan":     "OK|load=U good=1 other=U;1;2",
	"novalue": "OK|x= good=2s y=;1;2",
	"pipes":   "OK|a=1|b=2",
	"junk":    "OK|=|===== ;;; ' '' =x",
	"words":   "OK|a b=c=d e=up =",
	"neg":     "OK|'temp'=-4.5;-10;10",
}

// ckPlant puts the program in place, sh is what to run for it
func ckPlant(dir string, x string, out string) (cmd string) {
	file := filepath.Join(dir, "plugin.sh")
	body := "#!/bin/sh\n[ \"$MACHINE_NAME\" = \"" + filepath.Base(dir) + "\" ] || exit 91\n[ \"$MACHINE_WATCHER_NAME\" = \"w\" ] || exit 92\n[ \"$PWD\" = \"" + dir + "\" ] || exit 93\ncase \":$PATH:\" in *:" + dir + ":*) ;; *) exit 94;; esac\n"
	body += "printf %s '" + strings.ReplaceAll(out, "'", "'\\''") + "'\n"
	mode := os.FileMode(0755)
	// by way of sh: a script that was just written can be busy while other programs are being started
	cmd = "/bin/sh ./plugin.sh"
	switch x {
	case "kill":
		body += "kill -9 $$\n"
	case "slow":
		body = "#!/bin/sh\nexec sleep 50\n"
	case "slowchild":
		body += "sleep 50\necho done\n"
	case "missing":
		cmd = "./nosuchprogram"
	case "notexec":
		mode = 0644
		cmd = "./plugin.sh"
	case "empty":
		cmd = ""
	case "blank":
		cmd = "  "
	case "quote":
		cmd = "./plugin.sh 'open"
	case "override", "args":
		cmd = `/bin/sh ./plugin.sh 'a b' "<x>" '&' c+d`
		body += "[ \"$1\" = 'a b' ] && [ \"$2\" = '<x>' ] && [ \"$3\" = '&' ] && [ \"$4\" = 'c+d' ] && [ $# = 4 ] || exit 95\n"
		if x == "override" {
			body += "exit 2\n"
		}
	case "env":
		body += "[ \"$EXTRA\" = \"has 5\" ] || exit 96\ngrep -q '\"seen\":\"yes\"' \"$WATCHER_DATA\" || exit 97\ngrep -q '\"f\":5' \"$WATCHER_FACTS\" || exit 98\n"
	default:
		if n, err := strconv.Atoi(strings.TrimPrefix(x, "e")); err == nil && strings.HasPrefix(x, "e") {
			body += fmt.Sprintf("exit %d\n", n)
		}
	}
	if x == "missing" || x == "empty" || x == "blank" || x == "quote" {
		return cmd // nothing that runs meanwhile may change
	}
	os.WriteFile(file+".new", []byte(body), mode)
	os.Chmod(file+".new", mode)
	os.Rename(file+".new", file)
	return cmd
}

const ckSlow = 15 * time.Second // a program that never finishes is given up on well before this

func TestVerif(t *testing.T) {
	var in struct {
		Cases []*ckCase `json:"cases"`
	}
	r := vhOpen(t, &in)
	logrus.SetOutput(io.Discard)
	work, err := filepath.EvalSymlinks(os.Getenv("VERIF_WORK"))
	if err != nil {
		t.Fatal(err)
	}
	tmp := filepath.Join(work, "tmp")
	os.MkdirAll(tmp, 0755)
	os.Setenv("TMPDIR", tmp)
	sem := make(chan struct{}, 4)
	var wg sync.WaitGroup
	for k, c := range in.Cases {
		sem <- struct{}{}
		wg.Add(1)
		go func(k int, c *ckCase) {
			defer wg.Done()
			defer func() { <-sem }()
			dir := filepath.Join(work, fmt.Sprintf("c%d-%s", k, c.ID))
			os.MkdirAll(dir, 0755)
			defer os.RemoveAll(dir)
			r.Case(c.ID)
			switch c.Kind {
			case "nagios":
				ckNagios(r, c, dir)
			case "exec":
				ckExec(r, c, dir)
			case "metric":
				ckMetric(r, c, dir)
			case "mrace":
				ckRace(r, c, dir)
			case "scout":
				ckScout(r, c)
			}
		}(k, c)
	}
	wg.Wait()
	r.Done()
}

func ckProm(dir string, file string, prefix string) []string {
	b, _ := os.ReadFile(filepath.Join(dir, file))
	res := []string{}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, prefix) {
			res = append(res, l)
		}
	}
	sort.Strings(res)
	return res
}

func ckNagios(r *vhReporter, c *ckCase, dir string) {
	type state struct {
		Ms, St string
		N      int
		End    bool
	}
	m := &ckMachine{vhMachine: vhNewMachine(dir), name: filepath.Base(dir), scout: true, over: filepath.Join(dir, "overrides.json")}
	m.vhMachine.Set("UNKNOWN")
	m.txtdir = filepath.Join(dir, "prom")
	os.MkdirAll(m.txtdir, 0755)
	wi, err := nagioswatcher.New(m, "w", []string{"OK", "WARNING", "CRITICAL", "UNKNOWN", "FORCE_CHECK"}, nil, "", "", "", 0, map[string]any{
		"plugin": `{{ o "cmd" "/bin/sh ./plugin.sh" }}`, "timeout": "2s", "annotations": map[string]any{"a1": "v1"},
	})
	if err != nil {
		r.Mismatch(c.ID, 0, "new", "a watcher", err.Error())
		return
	}
	w := wi.(*nagioswatcher.Watcher)
	m.w = w
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	defer wg.Wait()
	defer cancel()
	wg.Add(1)
	go w.Run(ctx, &wg)
	cur := func() *nagioswatcher.StateNotification { return w.CurrentState().(*nagioswatcher.StateNotification) }

	var hist []string
	ent := func(e *nagioswatcher.Execution) string { return fmt.Sprintf("%d %v", e.Status, ckPerfs(e)) }
	for i, s := range c.Steps {
		r.Step()
		var ex state
		json.Unmarshal(s.S, &ex)
		var p ckProg
		json.Unmarshal(s.A.P, &p)
		before := len(cur().History)
		m.Take()
		bad := func(key string, want any, got any) {
			r.Mismatch(c.ID, i, key, want, got, map[string]any{"action": s.A, "state": ex})
		}
		switch s.A.X {
		case "delete":
			w.Delete()
			if got := ckProm(m.txtdir, "choria_machine_nagios_watcher_status.prom", "choria_machine_nagios_watcher_status{name=\""+m.name+"\""); len(got) > 0 {
				bad("deleted", "no metrics of a check that was removed", got)
			}
			return
		case "extern":
			if res := vhGuard(10*time.Second, func() { m.Transition(s.A.E) }); res != "" {
				bad("blocked", "a transition completes", res)
				return
			}
			time.Sleep(3 * time.Millisecond)
		case "force", "storm":
			cmd := ckPlant(dir, p.X, ckOut[p.O])
			if s.A.X == "storm" {
				ckPlant(dir, p.X, ckOut[p.O])
				f := filepath.Join(dir, "plugin.sh")
				b, _ := os.ReadFile(f)
				os.WriteFile(f+".new", []byte(strings.Replace(string(b), "printf ", "sleep 0.4\nprintf ", 1)), 0755)
				os.Rename(f+".new", f)
			}
			ov := map[string]any{m.name: map[string]any{"cmd": cmd}, "other": map[string]any{"cmd": "./nosuchprogram"}}
			if cmd == "/bin/sh ./plugin.sh" {
				ov = map[string]any{"other": map[string]any{"cmd": "./nosuchprogram"}}
			}
			j, _ := json.Marshal(ov)
			os.WriteFile(m.over, j, 0644)
			evs := []string{"FORCE_CHECK"}
			if s.A.X == "storm" {
				evs = []string{"FORCE_CHECK", "", "OK", "FORCE_CHECK", "CRITICAL", "FORCE_CHECK", "OK", "FORCE_CHECK"}
			}
			start := time.Now()
			for _, e := range evs {
				if e == "" {
					time.Sleep(150 * time.Millisecond)
					continue
				}
				if res := vhGuard(10*time.Second, func() { m.Transition(e) }); res != "" {
					bad("blocked", "asking for a check does not block the machine", e+": "+res)
					os.Exit(3) // the machine cannot be stopped any more
				}
			}
			done := vhEventually(ckSlow, func() bool {
				if s.A.X == "storm" {
					return m.vhMachine.State() == ex.Ms && time.Since(start) > time.Second
				}
				h := cur().History
				if before >= 15 {
					return m.vhMachine.State() != "FORCE_CHECK" && h[len(h)-1].Executed.After(start.Add(-time.Millisecond))
				}
				return len(h) > before && m.vhMachine.State() != "FORCE_CHECK"
			})
			if !done {
				bad("not-reported", fmt.Sprintf("the check is done and reported within %v", ckSlow), map[string]any{"state": m.vhMachine.State(), "current": cur()})
				os.Exit(3)
			}
			if s.A.X == "storm" {
				if got := m.vhMachine.State(); got != ex.Ms {
					bad("state", ex.Ms, got)
				}
				return
			}
			hist = append(hist, fmt.Sprintf("%d %v", s.A.Code, ckWant(s.A.Perf)))
			if len(hist) > 15 {
				hist = hist[1:]
			}
			notes := m.notesTaken()
			if len(notes) != 1 {
				bad("announced", "one announcement per check", len(notes))
			} else if n := notes[0].(*nagioswatcher.StateNotification); n.Status != ex.St || n.StatusCode != s.A.Code || n.Machine != m.name {
				bad("announcement", ex.St, []any{n.Status, n.StatusCode, n.Machine})
			}
			cs := cur()
			if s.A.Ran && cs.Output != strings.TrimSpace(ckOut[p.O]) {
				bad("output", strings.TrimSpace(ckOut[p.O]), cs.Output)
			}
			if s.A.Ran && fmt.Sprint(ckPerfs2(cs)) != fmt.Sprint(ckWant(s.A.Perf)) {
				bad("perfdata", s.A.Perf, cs.PerfData)
			}
			if cs.Annotations["a1"] != "v1" {
				bad("annotations", "v1", cs.Annotations)
			}
		}
		if got := m.vhMachine.State(); got != ex.Ms {
			bad("state", ex.Ms, got)
			return
		}
		cs := cur()
		got := []string{}
		for _, e := range cs.History {
			got = append(got, ent(e))
		}
		if fmt.Sprint(got) != fmt.Sprint(hist) || len(got) != ex.N {
			bad("history", hist, got)
			return
		}
		if ex.St != "ANY" {
			if cs.Status != ex.St {
				bad("status", ex.St, cs.Status)
				return
			}
			prom := ckProm(m.txtdir, "choria_machine_nagios_watcher_status.prom", "choria_machine_nagios_watcher_status{name=\""+m.name+"\"")
			want := ex.St
			if want == "NOTCHECKED" {
				want = "UNKNOWN"
			}
			code := map[string]int{"OK": 0, "WARNING": 1, "CRITICAL": 2, "UNKNOWN": 3}[want]
			line := fmt.Sprintf("choria_machine_nagios_watcher_status{name=%q,status=%q} %d", m.name, want, code)
			if !vhEventually(time.Second, func() bool {
				prom = ckProm(m.txtdir, "choria_machine_nagios_watcher_status.prom", "choria_machine_nagios_watcher_status{name=\""+m.name+"\"")
				return len(prom) == 1 && prom[0] == line
			}) {
				bad("prometheus", line, prom)
				return
			}
		}
	}
}

func (m *ckMachine) notesTaken() []any {
	m.mu.Lock()
	defer m.mu.Unlock()
	n := m.notes
	m.notes = nil
	return n
}

func ckWant(ps []ckPerf) []string {
	res := []string{}
	for _, p := range ps {
		f, _ := strconv.ParseFloat(p.V, 64)
		res = append(res, fmt.Sprintf("%s=%v %s", p.L, f, p.U))
	}
	return res
}

func ckPerfs(e *nagioswatcher.Execution) []string {
	res := []string{}
	for _, p := range e.PerfData {
		res = append(res, fmt.Sprintf("%s=%v %s", p.Label, p.Value, p.Unit))
	}
	return res
}

func ckPerfs2(e *nagioswatcher.StateNotification) []string {
	return ckPerfs(&nagioswatcher.Execution{PerfData: e.PerfData})
}

func ckExec(r *vhReporter, c *ckCase, base string) {
	for i, row := range c.Rows {
		r.Step()
		dir := filepath.Join(base, fmt.Sprintf("r%d", i))
		os.MkdirAll(dir, 0755)
		m := &ckMachine{vhMachine: vhNewMachine(dir), name: filepath.Base(dir)}
		m.facts = `{"f":5}`
		out := map[string]string{"json": `{"a":1,"b":{"c":"x"}}`, "jsonempty": "{}", "jsonlist": `[{"a":1}]`, "jsoncut": `{"a":1,`}[row.R.X]
		cmd := ckPlant(dir, row.R.X, out)
		m.data["seen"] = "yes"
		m.data["cmd"] = cmd
		tpl := `{{ lookup "data.cmd" "./nosuchprogram" }}`
		if row.R.X == "template" {
			tpl = `./plugin.sh {{ nosuch`
		}
		wi, err := execwatcher.New(m, "w", []string{"in"}, nil, "bad", "good", "", 0, map[string]any{
			"command": tpl, "timeout": "2s", "environment": []string{`EXTRA=has {{ lookup "facts.f" 0 }}`},
			"parse_as_data": row.R.O.Data, "suppress_success_announce": row.R.O.Quiet, "disown": row.R.O.Disown,
		})
		if err != nil {
			r.Mismatch(c.ID, i, "new", "a watcher", err.Error(), row)
			continue
		}
		w := wi.(*execwatcher.Watcher)
		ctx, cancel := context.WithCancel(context.Background())
		var wg sync.WaitGroup
		wg.Add(1)
		go w.Run(ctx, &wg)
		w.NotifyStateChance()
		vhEventually(ckSlow, func() bool { e, _ := m.Peek(); return len(e) > 0 })
		time.Sleep(5 * time.Millisecond)
		if res := vhGuard(ckSlow, func() { cancel(); wg.Wait() }); res != "" {
			r.Mismatch(c.ID, i, "stuck", fmt.Sprintf("a program that does not finish is given up on within %v", ckSlow), res, row)
			os.Exit(3)
		}
		evs, notes := m.Take()
		puts := map[string]any{}
		for k, v := range m.Data() {
			if k != "seen" && k != "cmd" {
				puts[k] = v
			}
		}
		j, _ := json.Marshal(puts)
		want := "{}"
		if row.Out.Put {
			want = `{"a":1,"b":{"c":"x"}}`
		}
		if fmt.Sprint(evs) != fmt.Sprint([]string{row.Out.Ev}) {
			r.Mismatch(c.ID, i, "event", row.Out.Ev, evs, row)
		}
		if notes != row.Out.Note {
			r.Mismatch(c.ID, i, "announced", row.Out.Note, notes, row)
		}
		if string(j) != want {
			r.Mismatch(c.ID, i, "data", want, string(j), row)
		}
		if got := vhCurrent(w)["data"]; got == nil {
			if s := w.CurrentState().(*execwatcher.StateNotification); s.PreviousOutcome != row.Out.Outcome {
				r.Mismatch(c.ID, i, "outcome", row.Out.Outcome, s.PreviousOutcome, row)
			}
		}
	}
}

func ckMetricWatcher(m *ckMachine, name string) (*metricwatcher.Watcher, error) {
	wi, err := metricwatcher.New(m, name, []string{"in"}, nil, "bad", "good", "", 0, map[string]any{
		"command": `{{ lookup "data.cmd" "./plugin.sh" }}`, "interval": "1s", "labels": map[string]string{"dupe": "w"}, "store": true,
	})
	if err != nil {
		return nil, err
	}
	return wi.(*metricwatcher.Watcher), nil
}

func ckMetric(r *vhReporter, c *ckCase, dir string) {
	m := &ckMachine{vhMachine: vhNewMachine(dir), name: filepath.Base(dir)}
	m.txtdir = filepath.Join(dir, "prom")
	os.MkdirAll(m.txtdir, 0755)
	m.data["cmd"] = ckPlant(dir, "missing", "")
	w, err := ckMetricWatcher(m, "w")
	if err != nil {
		r.Mismatch(c.ID, 0, "new", "a watcher", err.Error())
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	defer wg.Wait()
	defer cancel()
	wg.Add(1)
	go w.Run(ctx, &wg)
	vhEventually(ckSlow, func() bool { return m.calls.Load() >= 2 })

	out := map[string]string{
		"json": `{"labels":{"unique":"u"},"metrics":{"v1":1,"v2":1.5}}`, "json2": ` {"metrics":{"v1":3}}`, "jsonnull": `{"labels":null,"metrics":null}`,
		"jsonnone": `{}`, "jsonlabels": `{"labels":{"dupe":"mine"},"metrics":{"v3":4}}`, "jsonbad": `{"metrics":{"v1":9}`, "jsontype": `{"metrics":{"v1":"nine"}}`,
		"perf": ckOut["perf"], "nan": "OK|load=U ok=7", "silent": "", "fail": `{"metrics":{"v1":9}}`, "failperf": "CRITICAL|load1=9",
	}
	for i, s := range c.Steps {
		r.Step()
		var p string
		json.Unmarshal(s.A.P, &p)
		x := p
		switch p {
		case "fail", "failperf":
			x = "e2"
		}
		cmd := ckPlant(dir, x, out[p])
		m.DataPut("cmd", cmd)
		m.Take()
		n := m.calls.Load()
		bad := func(key string, want any, got any) {
			r.Mismatch(c.ID, i, key, want, got, map[string]any{"prog": p, "good": s.A.Good})
		}
		// a run asks twice, so one whole run after the change is done when the second one after it starts
		whole := func() bool {
			return vhEventually(4*ckSlow, func() bool {
				w.NotifyStateChance()
				return m.calls.Load() >= n+5
			})
		}
		full := whole()
		if full && s.A.Fresh {
			// what the program before it did may have arrived late
			m.Take()
			n = m.calls.Load()
			full = whole()
		}
		if !full {
			bad("stuck", "a program that does not finish is given up on", m.calls.Load()-n)
			os.Exit(3)
		}
		want := map[string]float64{}
		for _, kv := range s.A.Good.M {
			f, _ := strconv.ParseFloat(kv.V, 64)
			want[kv.K] = f
		}
		lbl := map[string]string{}
		if s.A.Good.F != "none" {
			lbl["format"] = s.A.Good.F
			for _, kv := range s.A.Good.L {
				lbl[kv.K] = kv.V
			}
			lbl["dupe"] = "w"
		}
		got := func() (map[string]float64, map[string]string) {
			j, _ := json.Marshal(w.LastMetric())
			lm := struct {
				Metrics map[string]float64
				Labels  map[string]string
			}{}
			json.Unmarshal(j, &lm)
			delete(lm.Metrics, "choria_runtime_seconds")
			if s.A.Good.F != "none" && (p == "jsonnull" || c.Steps[i].A.Good.M == nil) && lm.Labels != nil {
				if _, ok := lm.Labels["format"]; !ok {
					lm.Labels["format"] = s.A.Good.F // an output that sets labels to null
				}
			}
			return lm.Metrics, lm.Labels
		}
		gm, gl := got()
		if s.A.Fresh {
			// the watcher gives programs one second, which a busy system may use up
			vhEventually(15*time.Second, func() bool {
				gm, gl = got()
				if fmt.Sprint(gm) == fmt.Sprint(want) && fmt.Sprint(gl) == fmt.Sprint(lbl) {
					return true
				}
				w.NotifyStateChance()
				return false
			})
		}
		if fmt.Sprint(gm) != fmt.Sprint(want) {
			bad("metrics", want, gm)
			return
		}
		if fmt.Sprint(gl) != fmt.Sprint(lbl) {
			bad("labels", lbl, gl)
			return
		}
		evs, notes := m.Take()
		if s.A.Bad != (len(evs) > 0) && (s.A.Bad || s.A.Fresh) {
			bad("failure-event", s.A.Bad, evs)
		}
		if s.A.Fresh && notes == 0 {
			bad("announced", "an announcement", notes)
		}
		if s.A.Good.F != "none" {
			d, ok := m.DataGet("metric")
			j, _ := json.Marshal(d)
			var dm map[string]struct{ Metrics map[string]float64 }
			json.Unmarshal(j, &dm)
			delete(dm["w"].Metrics, "choria_runtime_seconds")
			if !ok || (len(want) > 0 && fmt.Sprint(dm["w"].Metrics) != fmt.Sprint(want)) {
				bad("data", want, string(j))
			}
		}
		if s.A.Fresh && s.A.Good.F != "none" {
			for _, kv := range s.A.Good.M {
				pre := "choria_machine_metric_watcher_w_" + kv.K + "{"
				lines := ckProm(m.txtdir, "choria_machine_metrics_watcher_status.prom", pre)
				found := false
				for _, l := range lines {
					ls := strings.SplitN(strings.TrimPrefix(l, pre), "} ", 2)
					v, _ := strconv.ParseFloat(ls[len(ls)-1], 64)
					has := v == want[kv.K]
					for k, lv := range lbl {
						has = has && strings.Contains(","+ls[0]+",", fmt.Sprintf(`,%s="%s",`, k, lv))
					}
					found = found || has
				}
				if !found {
					bad("prometheus", pre, lines)
				}
			}
		}
	}
}

// ckRace has the users of the metrics at work at the same time: announcements, the http port, machine data, other metrics
func ckRace(r *vhReporter, c *ckCase, dir string) {
	r.Step()
	m := &ckMachine{vhMachine: vhNewMachine(dir), name: filepath.Base(dir)}
	m.txtdir = filepath.Join(dir, "prom")
	os.MkdirAll(m.txtdir, 0755)
	m.data["cmd"] = ckPlant(dir, "e0", `{"metrics":{"a":1,"b":2,"c":3,"d":4,"e":5,"f":6,"g":7,"h":8,"i":9,"j":10}}`)
	w, err := ckMetricWatcher(m, "w")
	if err != nil {
		r.Mismatch(c.ID, 0, "new", "a watcher", err.Error())
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(1)
	go w.Run(ctx, &wg)
	vhEventually(ckSlow, func() bool { _, n := m.Peek(); return n > 0 })
	loop := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ctx.Err() == nil {
				f()
			}
		}()
	}
	loop(func() { w.CurrentState() })
	loop(func() { json.Marshal(w.LastMetric()) })
	loop(func() { json.Marshal(m.Data()) })
	loop(func() { ckMetricWatcher(m, "other") })
	time.Sleep(1500 * time.Millisecond)
	cancel()
	wg.Wait()
}

type ckSI struct {
	agents.ServerInfoSource
	moved []string
}

func (*ckSI) Facts() json.RawMessage { return json.RawMessage(`{}`) }
func (*ckSI) Classes() []string      { return nil }
func (*ckSI) KnownAgents() []string  { return nil }
func (s *ckSI) MachinesStatus() ([]aagent.MachineState, error) {
	all := []string{"FORCE_CHECK", "MAINTENANCE", "RESUME", "OK"}
	return []aagent.MachineState{
		{Name: "a", State: "OK", Scout: true, AvailableTransitions: all, Version: "1.2.3", StartTimeUTC: 5, ScoutState: &nagioswatcher.StateNotification{Status: "OK"}},
		{Name: "m", State: "OK", AvailableTransitions: all},
		{Name: "b", State: "OTHER", Scout: true, AvailableTransitions: []string{"OK"}},
		{Name: "f", State: "OK", Scout: true, AvailableTransitions: all},
	}, nil
}
func (s *ckSI) MachineTransition(name string, version string, path string, id string, transition string) error {
	s.moved = append(s.moved, name+" "+transition)
	if name != "a" {
		return fmt.Errorf("cannot transition")
	}
	return nil
}

type ckFW struct {
	inter.Framework
	cfg *config.Config
}

func (f ckFW) Configuration() *config.Config { return f.cfg }
func (f ckFW) ProvisionMode() bool           { return false }

type ckMgr struct {
	server.AgentManager
	fw inter.Framework
}

func (m ckMgr) Choria() inter.Framework { return m.fw }
func (m ckMgr) Logger() *logrus.Entry {
	lg := logrus.New()
	lg.SetOutput(io.Discard)
	return logrus.NewEntry(lg)
}

type ckMsg struct {
	inter.Message
	p []byte
}

func (m ckMsg) Payload() []byte   { return m.p }
func (m ckMsg) RequestID() string { return "rid" }

func ckScout(r *vhReporter, c *ckCase) {
	cfg, err := config.NewDefaultConfig()
	if err != nil {
		r.Error("config: %v", err)
		return
	}
	cfg.RPCAuthorization = false
	ag, err := scout.New(ckMgr{fw: ckFW{cfg: cfg}})
	if err != nil {
		r.Error("scout: %v", err)
		return
	}
	call := func(i int, action string, data any) (si *ckSI, rep mcorpc.Reply, out map[string]json.RawMessage, ok bool) {
		si = &ckSI{}
		ag.SetServerInfo(si)
		preq, _ := v2.NewRequest("scout", "sender1", "choria=me", 30, fmt.Sprintf("rid%d", i), "coll")
		j, _ := json.Marshal(map[string]any{"agent": "scout", "action": action, "data": data})
		box := make(chan *agents.AgentReply, 4)
		if res := vhGuard(20*time.Second, func() { ag.HandleMessage(context.Background(), ckMsg{p: j}, preq, nil, box) }); res != "" || len(box) != 1 {
			r.Mismatch(c.ID, i, "reply", "one reply", res, len(box))
			return
		}
		body := (<-box).Body
		raw := struct {
			Statuscode mcorpc.StatusCode
			Statusmsg  string
			Data       map[string]json.RawMessage
		}{}
		if err := json.Unmarshal(body, &raw); err != nil {
			r.Mismatch(c.ID, i, "reply", "a reply", err.Error(), string(body))
			return
		}
		rep.Statuscode, rep.Statusmsg = raw.Statuscode, raw.Statusmsg
		return si, rep, raw.Data, true
	}
	for i, row := range c.Rows {
		r.Step()
		data := map[string]any{"checks": row.R.List}
		if len(row.R.List) == 0 && i%2 == 0 {
			data = map[string]any{}
		}
		si, rep, out, ok := call(i, row.R.Act, data)
		if !ok {
			continue
		}
		get := func(k string) []string {
			res := []string{}
			json.Unmarshal(out[k], &res)
			sort.Strings(res)
			return res
		}
		srt := func(s []string) []string { s = append([]string{}, s...); sort.Strings(s); return s }
		for k, want := range map[string][]string{"transitioned": row.Out.Done, "skipped": row.Out.Skipped, "failed": row.Out.Failed} {
			if string(out[k]) == "null" || out[k] == nil || fmt.Sprint(get(k)) != fmt.Sprint(srt(want)) {
				r.Mismatch(c.ID, i, k, want, string(out[k]), row)
			}
		}
		ev := map[string]string{"trigger": "FORCE_CHECK", "maintenance": "MAINTENANCE", "resume": "RESUME"}[row.R.Act]
		moved := []string{}
		for _, n := range row.Out.Done {
			moved = append(moved, n+" "+ev)
		}
		for _, n := range row.Out.Failed {
			if n == "f" {
				moved = append(moved, n+" "+ev)
			}
		}
		if fmt.Sprint(srt(moved)) != fmt.Sprint(srt(si.moved)) {
			r.Mismatch(c.ID, i, "moved", moved, si.moved, row)
		}
		if row.Out.Ok != "any" && (rep.Statuscode == mcorpc.OK) != (row.Out.Ok == "ok") {
			r.Mismatch(c.ID, i, "status", row.Out.Ok, fmt.Sprint(rep.Statuscode, " ", rep.Statusmsg), row)
		}
	}
	_, rep, out, ok := call(len(c.Rows), "checks", map[string]any{})
	if !ok {
		return
	}
	var cs []struct {
		Name, State, Version string
		Start_time           int64
		Status               *struct{ Status string }
	}
	json.Unmarshal(out["checks"], &cs)
	if rep.Statuscode != mcorpc.OK || len(cs) != 3 || cs[0].Name != "a" || cs[0].Status == nil || cs[0].Status.Status != "OK" || cs[0].Start_time != 5 || cs[0].Version != "1.2.3" || cs[1].Name != "b" || cs[1].State != "OTHER" || cs[2].Name != "f" {
		r.Mismatch(c.ID, 0, "checks", "the three checks of the node", string(out["checks"]))
	}
}
