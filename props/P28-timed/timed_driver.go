package vh

import (
	"context"
	"fmt"
	"hash/fnv"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/aagent/watchers/schedulewatcher"
	"github.com/choria-io/go-choria/aagent/watchers/timerwatcher"
)

type tmState struct {
	Cfg struct {
		Splay any      `json:"splay"`
		Small bool     `json:"small"`
		N     string   `json:"n"`
		Skip  bool     `json:"skip"`
		Leave []string `json:"leave"`
		D     int      `json:"d"`
		Unset bool     `json:"unset"`
	} `json:"cfg"`
	In   bool   `json:"in"`
	Run  string `json:"run"`
	T    int    `json:"t"`
	Cond string `json:"cond"`
}
type tmCase struct {
	ID    string  `json:"id"`
	Kind  string  `json:"kind"`
	Init  tmState `json:"init"`
	Steps []struct {
		A struct {
			X       string `json:"x"`
			Settle  bool   `json:"settle"`
			Ev      any    `json:"ev"`
			Certain bool   `json:"certain"`
			Glitch  bool   `json:"glitch"`
		} `json:"a"`
		S tmState `json:"s"`
	} `json:"steps"`
}

// every case runs with a virtual clock: nothing happens while any goroutine can still run
func TestVerif(t *testing.T) {
	var in struct {
		Cases  []*tmCase `json:"cases"`
		Repeat int       `json:"repeat"`
	}
	r := vhOpen(t, &in)
	defer r.Done()
	for _, c := range in.Cases {
		r.Case(c.ID)
		for n := 0; n < in.Repeat; n++ {
			if n%2 == 1 {
				runtime.GOMAXPROCS(1)
			} else {
				runtime.GOMAXPROCS(4)
			}
			ok := true
			synctest.Test(t, func(t *testing.T) {
				if c.Kind == "timer" {
					ok = tmTimer(r, c)
				} else {
					ok = tmSchedule(r, c, n)
				}
			})
			if !ok || (c.Kind != "timer" && n > 0) {
				break
			}
		}
	}
}

func tmPut(m *vhMachine, in bool, alt bool) {
	s := "out"
	if in {
		s = "in"
	}
	if alt {
		s += "2"
	}
	m.Set(s)
}

func tmTimer(r *vhReporter, c *tmCase) bool {
	m := vhNewMachine("")
	conf, timer := "10s", 10*time.Second
	if c.Init.Cfg.Small { // anything below a second is a second
		conf, timer = "100ms", time.Second
	}
	x, err := timerwatcher.New(m, "tm", []string{"in", "in2"}, nil, "expired", "", "", 0, map[string]any{"timer": conf, "splay": c.Init.Cfg.Splay})
	if err != nil {
		r.Mismatch(c.ID, -1, "create", "a watcher", err.Error())
		return false
	}
	w := x.(vhWatcher)
	alt := false
	tmPut(m, c.Init.In, alt)
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(1)
	go w.Run(ctx, &wg)
	gone := false
	del := func() {
		if !gone {
			gone = true
			x.(interface{ Delete() }).Delete()
		}
	}
	defer func() { // nothing may be left behind
		cancel()
		del()
		time.Sleep(time.Hour)
		wg.Wait()
	}()
	synctest.Wait()
	bad := func(i int, key string, exp, got any) bool {
		a := c.Steps[i].A
		r.Mismatch(c.ID, i, "timer-"+key, exp, got, fmt.Sprintf("%s settle=%v", a.X, a.Settle))
		return false
	}
	for i, s := range c.Steps {
		r.Step()
		switch s.A.X {
		case "enter", "leave", "other":
			alt = !alt
			tmPut(m, s.S.In, alt)
			w.NotifyStateChance()
			if s.A.Settle {
				time.Sleep(time.Millisecond)
			}
		case "half":
			time.Sleep(timer * 6 / 10)
		case "full":
			time.Sleep(timer + timer/10)
		case "delete":
			del()
		case "cancel":
			cancel()
		}
		if !s.A.Settle {
			continue
		}
		synctest.Wait()
		ev, _ := m.Take()
		want := []string{}
		if n, _ := s.A.Ev.(float64); n > 0 {
			want = append(want, "expired")
		}
		if !vhSame(ev, want) {
			return bad(i, "events", want, ev)
		}
		if st := vhCurrent(w); s.A.X != "delete" && s.A.X != "cancel" {
			want := "stopped"
			if s.S.Run != "no" {
				want = "running"
			}
			if st["state"] != want {
				return bad(i, "state", want, st["state"])
			}
			if d, _ := st["timer"].(float64); c.Init.Cfg.Splay != true && time.Duration(d) != timer || d > float64(timer) {
				return bad(i, "duration", timer.String(), st["timer"])
			}
		}
	}
	return true
}

var tmSpecs = map[string][]string{
	"one":        {"2 * * * *"},
	"twice":      {"1,5 * * * *"},
	"everythird": {"*/3 * * * *"},
	"overlap":    {"1,6 0 * * *", "2 * 1 * *"},
	"three":      {"1 * * * *", "2 0 * * *", "3-6/3 0 * * *"},
	"same":       {"2 * * * *", "2,5 * * * *"},
	"self":       {"1-3,6 * * * *"},
	"never":      {"2 5 * * *"},
	"date":       {"3 0 1 1 *", "3 0 2 1 *"},
	"weekday":    {"4 0 * * 6", "2 0 * * 0"},
	"default":    {"2,4 * * * *"},
	"splay":      {"1,6 * * * *"},
	"adjacent":   {"1,3 * * * *"},
}

func tmSchedule(r *vhReporter, c *tmCase, n int) bool {
	m := vhNewMachine("")
	h := fnv.New32a()
	h.Write([]byte(c.ID))
	base := time.Now() // midnight
	time.Sleep(time.Duration(h.Sum32()%997+uint32(n)*500) * time.Millisecond)
	cfg := c.Init.Cfg
	props := map[string]any{"schedules": tmSpecs[cfg.N], "skip_trigger_on_reenter": cfg.Skip}
	if !cfg.Unset {
		props["duration"] = fmt.Sprintf("%dm", cfg.D)
	}
	splay, _ := cfg.Splay.(float64)
	if splay > 0 {
		props["start_splay"] = fmt.Sprintf("%vm", splay)
	}
	x, err := schedulewatcher.New(m, "sc", []string{"in", "in2"}, nil, "off_ev", "on_ev", "", 0, props)
	if err != nil {
		r.Mismatch(c.ID, -1, "create", "a watcher", err.Error())
		return false
	}
	w := x.(vhWatcher)
	type fired struct {
		ev string
		at time.Duration
	}
	var mu sync.Mutex
	log := []fired{}
	alt := false
	tmPut(m, c.Init.In, alt)
	m.onEvent = func(e string) {
		mu.Lock()
		log = append(log, fired{e, time.Since(base)})
		mu.Unlock()
		for _, l := range cfg.Leave {
			if (l == "succ" && e == "on_ev") || (l == "fail" && e == "off_ev") {
				m.Set("out")
			}
		}
		w.NotifyStateChance()
	}
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(1)
	go w.Run(ctx, &wg)
	defer func() {
		cancel()
		wg.Wait()
		time.Sleep(time.Hour)
	}()
	time.Sleep(base.Add(30 * time.Second).Sub(time.Now()))
	synctest.Wait()
	pending := []string{}
	for i, s := range c.Steps {
		r.Step()
		start := time.Since(base)
		switch s.A.X {
		case "enter", "leave", "other":
			alt = !alt
			tmPut(m, map[string]bool{"enter": true, "leave": false, "other": m.State()[:2] == "in"}[s.A.X], alt)
			w.NotifyStateChance()
			time.Sleep(time.Millisecond)
		case "tick":
			time.Sleep(base.Add(time.Duration(s.S.T)*time.Minute + 30*time.Second).Sub(time.Now()))
		}
		synctest.Wait()
		mu.Lock()
		got := log
		log = nil
		mu.Unlock()
		what := fmt.Sprintf("%s %s t=%d skip=%v leave=%v", cfg.N, s.A.X, s.S.T, cfg.Skip, cfg.Leave)
		names := []string{}
		for _, f := range got {
			names = append(names, f.ev)
			edge := time.Duration(s.S.T) * time.Minute
			late := f.at - edge
			if s.A.X != "tick" {
				late = f.at - start - time.Second
			} else if f.ev == "on_ev" && splay > 0 {
				if late > time.Second || late < -time.Second {
					late = 0 // somewhere in the splay, in this minute
				}
			}
			if late < -time.Second || late > time.Second {
				r.Mismatch(c.ID, i, "schedule-time", fmt.Sprintf("within a second of %v", edge), f.at.String(), what)
				return false
			}
		}
		if !s.A.Certain {
			pending = append(pending, names...)
			continue
		}
		names = append(pending, names...)
		pending = []string{}
		want := []string{}
		switch s.A.Ev {
		case "succ":
			want = append(want, "on_ev")
		case "fail":
			want = append(want, "off_ev")
		}
		if !vhSame(names, want) && !(s.A.Glitch && vhSame(names, []string{"off_ev", "on_ev"})) {
			r.Mismatch(c.ID, i, "schedule-events", want, names, what)
			return false
		}
		if st := vhCurrent(w); st["state"] != s.S.Cond {
			r.Mismatch(c.ID, i, "schedule-state", s.S.Cond, st["state"], what)
			return false
		}
	}
	return true
}
