package vh

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/aagent/machine"
)

type fsRule struct {
	From []string `json:"from"`
	To   string   `json:"to"`
}
type fsNote struct {
	E    string `json:"e"`
	From string `json:"from"`
	To   string `json:"to"`
}
type fsDef struct {
	E1 fsRule `json:"e1"`
	E2 fsRule `json:"e2"`
	X1 fsRule `json:"x1"`
}
type fsCase struct {
	ID   string `json:"id"`
	Kind string `json:"kind"`
	Init struct {
		D fsDef `json:"d"`
	} `json:"init"`
	Steps []struct {
		A struct {
			N     string   `json:"n"`
			X     string   `json:"x"`
			Note  []fsNote `json:"note"`
			Avail []string `json:"avail"`
		} `json:"a"`
		S struct {
			S string `json:"s"`
		} `json:"s"`
	} `json:"steps"`
	Rows []struct {
		R  map[string]any `json:"r"`
		Ok bool           `json:"ok"`
	} `json:"rows"`
	Plan [][]string `json:"plan"`
}

type fsManager struct {
	mu       sync.Mutex
	notified int
}

func (m *fsManager) Run(context.Context, *sync.WaitGroup) error { return nil }
func (m *fsManager) NotifyStateChance() {
	m.mu.Lock()
	m.notified++
	m.mu.Unlock()
}
func (m *fsManager) SetMachine(any) error            { return nil }
func (m *fsManager) WatcherState(string) (any, bool) { return nil, false }
func (m *fsManager) Delete()                         {}

type fsNotifier struct {
	mu    sync.Mutex
	notes []fsNote
	onN   func(fsNote)
	state []string
}

func (n *fsNotifier) NotifyPostTransition(t *machine.TransitionNotification) error {
	n.mu.Lock()
	defer n.mu.Unlock()
	x := fsNote{t.Transition, t.FromState, t.ToState}
	n.notes = append(n.notes, x)
	n.state = append(n.state, fmt.Sprintf("%s %s %s", t.Machine, t.Version, t.Info.State()))
	if n.onN != nil {
		n.onN(x)
	}
	return nil
}
func (n *fsNotifier) NotifyWatcherState(string, machine.WatcherStateNotification) error { return nil }
func (n *fsNotifier) Debugf(machine.InfoSource, string, string, ...any)                 {}
func (n *fsNotifier) Infof(machine.InfoSource, string, string, ...any)                  {}
func (n *fsNotifier) Warnf(machine.InfoSource, string, string, ...any)                  {}
func (n *fsNotifier) Errorf(machine.InfoSource, string, string, ...any)                 {}

func fsYaml(d fsDef) string {
	var b strings.Builder
	b.WriteString("name: m\nversion: 1.0.0\ninitial_state: a\ntransitions:\n")
	add := func(n string, r fsRule, subs ...string) {
		if len(r.From) == 0 {
			return
		}
		f := append([]string{}, r.From...)
		sort.Strings(f)
		fmt.Fprintf(&b, "  - name: %s\n    from: [%s]\n    destination: %s\n    subscribe:\n", n, strings.Join(f, ","), r.To)
		for _, s := range subs {
			fmt.Fprintf(&b, "      - machine_name: other\n        event: %s\n", s)
		}
	}
	add("e1", d.E1, "go")
	add("e1", d.X1, "go")
	add("e2", d.E2, "go", "stop")
	b.WriteString("watchers:\n  - name: w\n    type: exec\n    properties:\n      command: /bin/true\n")
	return b.String()
}

func fsLoad(dir string, y string) (*machine.Machine, *fsManager, error) {
	os.MkdirAll(dir, 0700)
	f := filepath.Join(dir, "machine.yaml")
	if err := os.WriteFile(f, []byte(y), 0600); err != nil {
		return nil, nil, err
	}
	mgr := &fsManager{}
	m, err := machine.FromYAML(f, mgr)
	return m, mgr, err
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases []fsCase `json:"cases"`
	}
	r := vhOpen(t, &in)
	work := os.Getenv("VERIF_WORK")
	sem := make(chan struct{}, 128)
	var wg sync.WaitGroup
	for k, c := range in.Cases {
		sem <- struct{}{}
		wg.Add(1)
		go func(k int, c fsCase) {
			defer wg.Done()
			defer func() { <-sem }()
			dir := filepath.Join(work, fmt.Sprintf("m%d", k))
			defer os.RemoveAll(dir)
			r.Case(c.ID)
			switch c.Kind {
			case "walk":
				fsWalk(r, c, dir)
			case "def":
				fsDefs(r, c, dir)
			case "conc":
				fsConc(r, c, dir, int64(k))
			}
		}(k, c)
	}
	wg.Wait()
	r.Done()
}

func fsWalk(r *vhReporter, c fsCase, dir string) {
	m, mgr, err := fsLoad(dir, fsYaml(c.Init.D))
	if err != nil {
		r.Mismatch(c.ID, 0, "load", "the machine loads", err.Error())
		return
	}
	ext := &fsNotifier{}
	n1, n2 := &fsNotifier{}, &fsNotifier{}
	m.RegisterNotifier(n1, n2)
	m.SetExternalMachineNotifier(func(t *machine.TransitionNotification) { ext.NotifyPostTransition(t) })
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	select {
	case <-m.Start(ctx, &wg):
	case <-time.After(30 * time.Second):
		r.Mismatch(c.ID, 0, "start", "starts", "did not start in 30s")
		return
	}
	for i, st := range c.Steps {
		r.Step()
		n1.notes, n2.notes, ext.notes, mgr.notified = nil, nil, nil, 0
		n1.state = nil
		err = nil
		switch st.A.N {
		case "fire":
			err = m.Transition(st.A.X)
		case "foreign":
			m.ExternalEventNotify(&machine.TransitionNotification{Machine: "other", Transition: st.A.X})
		case "stranger":
			m.ExternalEventNotify(&machine.TransitionNotification{Machine: "unrelated", Transition: st.A.X})
		}
		if err != nil && len(st.A.Note) > 0 {
			r.Mismatch(c.ID, i, "transition-error", st.A, err.Error())
			return
		}
		if m.State() != st.S.S {
			r.Mismatch(c.ID, i, "state", map[string]any{"def": c.Init.D, "action": st.A, "state": st.S.S}, m.State())
			return
		}
		exp := st.A.Note
		if exp == nil {
			exp = []fsNote{}
		}
		for who, n := range map[string]*fsNotifier{"notifier 1": n1, "notifier 2": n2, "external": ext} {
			got := n.notes
			if got == nil {
				got = []fsNote{}
			}
			if !vhSame(got, exp) {
				r.Mismatch(c.ID, i, "notifications", map[string]any{"who": who, "notes": exp, "action": st.A}, got)
				return
			}
		}
		for k, s := range n1.state {
			if s != "m 1.0.0 "+exp[k].To {
				r.Mismatch(c.ID, i, "notified-state", "m 1.0.0 "+exp[k].To, s)
				return
			}
		}
		if mgr.notified != len(exp) {
			r.Mismatch(c.ID, i, "watchers-notified", len(exp), mgr.notified)
			return
		}
		av := m.AvailableTransitions()
		sort.Strings(av)
		ev := append([]string{}, st.A.Avail...)
		sort.Strings(ev)
		if strings.Join(av, ",") != strings.Join(ev, ",") {
			r.Mismatch(c.ID, i, "available", ev, av)
			return
		}
		for _, e := range []string{"e1", "e2", "nope"} {
			want := strings.Contains(strings.Join(ev, ","), e)
			if m.Can(e) != want {
				r.Mismatch(c.ID, i, "can", map[string]any{"e": e, "can": want}, m.Can(e))
				return
			}
		}
	}
	if !m.IsStarted() {
		r.Mismatch(c.ID, len(c.Steps), "started", true, false)
	}
	m.Stop()
	if m.IsStarted() {
		r.Mismatch(c.ID, len(c.Steps), "stopped", "not started after Stop", "still started")
	}
}

func fsDefs(r *vhReporter, c fsCase, dir string) {
	for i, row := range c.Rows {
		r.Step()
		s := func(k string) string { return fmt.Sprint(row.R[k]) }
		n := func(k string) int { return int(row.R[k].(float64)) }
		var b strings.Builder
		w := func(k, v string) {
			if v != "" {
				fmt.Fprintf(&b, "%s: %s\n", k, v)
			}
		}
		w("name", s("name"))
		w("version", s("version"))
		w("initial_state", s("initial"))
		if n("transitions") == 1 {
			b.WriteString("transitions:\n  - name: e1\n    from: [a]\n    destination: b\n")
			switch s("sub") {
			case "ok":
				b.WriteString("    subscribe:\n      - machine_name: o\n        event: x\n")
			case "noname":
				b.WriteString("    subscribe:\n      - event: x\n")
			case "noevent":
				b.WriteString("    subscribe:\n      - machine_name: o\n")
			}
		}
		if n("watchers") == 1 {
			b.WriteString("watchers:\n  - name: w\n    type: exec\n")
			if s("wstate") != "" {
				fmt.Fprintf(&b, "    state_match: [%s]\n", s("wstate"))
			}
			w("    fail_transition", s("wfail"))
			w("    success_transition", s("wok"))
			w("    announce_interval", s("announce"))
		}
		m, _, err := fsLoad(filepath.Join(dir, fmt.Sprint(i)), b.String())
		if (err == nil) != row.Ok {
			r.Mismatch(c.ID, i, "definition", map[string]any{"row": row.R, "loads": row.Ok}, fmt.Sprint(err))
			continue
		}
		if err == nil && m.State() != s("initial") {
			r.Mismatch(c.ID, i, "initial-state", s("initial"), m.State())
		}
	}
}

func fsConc(r *vhReporter, c fsCase, dir string, seed int64) {
	m, _, err := fsLoad(dir, fsYaml(c.Init.D))
	if err != nil {
		r.Mismatch(c.ID, 0, "load", "the machine loads", err.Error())
		return
	}
	var mu sync.Mutex
	var ev []map[string]any
	add := func(e map[string]any) {
		mu.Lock()
		ev = append(ev, e)
		mu.Unlock()
	}
	n := &fsNotifier{onN: func(x fsNote) { add(map[string]any{"k": "note", "e": x.E, "from": x.From, "to": x.To}) }}
	m.RegisterNotifier(n)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	<-m.Start(ctx, &wg)
	var cw sync.WaitGroup
	for w, plan := range c.Plan {
		cw.Add(1)
		go func(w int, plan []string) {
			defer cw.Done()
			rng := rand.New(rand.NewSource(seed*31 + int64(w)))
			for k, e := range plan {
				r.Step()
				id := fmt.Sprintf("%d.%d", w, k)
				add(map[string]any{"k": "call", "c": id, "e": e})
				m.Transition(e)
				add(map[string]any{"k": "ret", "c": id})
				time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
			}
		}(w, plan)
	}
	if vhGuard(60*time.Second, cw.Wait) != "" {
		r.Mismatch(c.ID, 0, "hang", "concurrent transitions complete", "still running after 60s")
		return
	}
	add(map[string]any{"k": "end", "s": m.State()})
	r.emit(map[string]any{"t": "hist", "case": c.ID, "def": c.Init.D, "ev": ev})
}
