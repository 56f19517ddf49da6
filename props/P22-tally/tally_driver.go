package tally

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/lifecycle"
	cloudevents "github.com/cloudevents/sdk-go/v2"
	"github.com/nats-io/nats.go"
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"github.com/sirupsen/logrus"
)

type vhAct struct {
	N       string   `json:"n"`
	Node    string   `json:"node"`
	X       string   `json:"x"`
	Ok      int      `json:"ok"`
	Bad     int      `json:"bad"`
	Expired []string `json:"expired"`
	Lead    string   `json:"lead"`
}
type vhCase struct {
	ID    string `json:"id"`
	Steps []struct {
		A struct {
			X vhAct                                    `json:"x"`
			G map[string]map[string]map[string]float64 `json:"g"`
		} `json:"a"`
	} `json:"steps"`
}

type vhMsg struct {
	s string
	d []byte
}

func (m *vhMsg) Subject() string { return m.s }
func (m *vhMsg) Reply() string   { return "" }
func (m *vhMsg) Data() []byte    { return m.d }
func (m *vhMsg) Msg() any        { return nil }

type vhConn struct {
	life, trans, exec chan inter.ConnectorMessage
	got               chan struct{}
}

func (c *vhConn) Nats() *nats.Conn { return nil }
func (c *vhConn) QueueSubscribe(_ context.Context, _ string, subject string, _ string, out chan inter.ConnectorMessage) error {
	switch {
	case strings.HasPrefix(subject, "choria.lifecycle.event."):
		c.life = out
	case subject == "choria.machine.transition":
		c.trans = out
	case subject == "choria.machine.watcher.exec.state":
		c.exec = out
		close(c.got)
	}
	return nil
}

// vhCollect reads every series of a metric as "label=value,..." -> value
func vhCollect(cs ...prometheus.Collector) map[string]float64 {
	res := map[string]float64{}
	for i, c := range cs {
		ch := make(chan prometheus.Metric, 1000)
		c.Collect(ch)
		close(ch)
		for m := range ch {
			pb := &dto.Metric{}
			m.Write(pb)
			ls := []string{}
			for _, l := range pb.Label {
				ls = append(ls, l.GetName()+"="+l.GetValue())
			}
			v := pb.GetCounter().GetValue() + pb.GetGauge().GetValue()
			if s := pb.GetSummary(); s != nil {
				v += float64(s.GetSampleCount())
			}
			if v != 0 {
				res[fmt.Sprintf("%d:%s", i, strings.Join(ls, ","))] += v
			}
		}
	}
	return res
}

func vhTotal(m map[string]float64) (t float64) {
	for _, v := range m {
		t += v
	}
	return t
}

func vhEvent(a vhAct) ([]byte, string) {
	comp, host := "A", "n1"
	if a.Node != "" {
		p := strings.Split(a.Node, ".")
		comp, host = p[0], p[1]
	}
	opts := []lifecycle.Option{lifecycle.Component(comp), lifecycle.Identity(host + ".example.net")}
	t := lifecycle.Alive
	name := a.N
	switch a.N {
	case "startup":
		t = lifecycle.Startup
		opts = append(opts, lifecycle.Version(a.X))
	case "alive":
		opts = append(opts, lifecycle.Version(a.X))
	case "shutdown":
		t = lifecycle.Shutdown
	case "other":
		name = a.X
		switch a.X {
		case "provisioned":
			t = lifecycle.Provisioned
		case "upgraded":
			t = lifecycle.Upgraded
			opts = append(opts, lifecycle.Version("v1"), lifecycle.NewVersion("v2"))
		default:
			t = lifecycle.Governor
			k := map[string]lifecycle.GovernorEventType{"gov-enter": lifecycle.GovernorEnterEvent, "gov-exit": lifecycle.GovernorExitEvent,
				"gov-timeout": lifecycle.GovernorTimeoutEvent, "gov-evict": lifecycle.GovernorEvictEvent}[a.X]
			opts = append(opts, lifecycle.GovernorName("GOV"), lifecycle.GovernorType(k), lifecycle.GovernorSequence(1))
			name = "governor"
		}
	}
	e, err := lifecycle.New(t, opts...)
	if err != nil {
		return nil, ""
	}
	j, _ := json.Marshal(e)
	return j, name
}

func vhCloud(source string, data []byte) []byte {
	e := cloudevents.NewEvent("1.0")
	e.SetType("io.choria.lifecycle.v1.x")
	e.SetSource(source)
	e.SetSubject("n1")
	e.SetID("abc")
	e.SetTime(time.Now())
	if data != nil {
		e.SetData(cloudevents.ApplicationJSON, json.RawMessage(data))
	}
	j, _ := json.Marshal(e)
	return j
}

func vhMalformed(k string) []byte {
	alive, _ := vhEvent(vhAct{N: "alive", Node: "A.n9", X: "v1"})
	m := map[string]any{}
	json.Unmarshal(alive, &m)
	with := func(k string, v any) []byte {
		if v == nil {
			delete(m, k)
		} else {
			m[k] = v
		}
		j, _ := json.Marshal(m)
		return j
	}
	switch k {
	case "empty":
		return nil
	case "nojson":
		return alive[:len(alive)-2]
	case "array":
		return []byte("[" + string(alive) + "]")
	case "noproto":
		return with("protocol", nil)
	case "badproto":
		return with("protocol", "io.choria.lifecycle.v1.bogus")
	case "badtype":
		return with("identity", 7)
	case "badversion":
		return with("version", []string{"v1"})
	case "ce-source":
		return vhCloud("io.choria.other", alive)
	case "ce-nodata":
		return vhCloud("io.choria.lifecycle", nil)
	case "ce-inner":
		return vhCloud("io.choria.lifecycle", with("version", 1))
	}
	return nil
}

func vhMachine(k string) []byte {
	ce := func(d map[string]any) []byte {
		e := cloudevents.NewEvent("1.0")
		e.SetType("io.choria.machine.x")
		e.SetSource("io.choria.machine")
		e.SetSubject("n1")
		e.SetID("abc")
		e.SetTime(time.Now())
		e.SetData(cloudevents.ApplicationJSON, d)
		j, _ := json.Marshal(e)
		return j
	}
	tr := map[string]any{"protocol": "io.choria.machine.v1.transition", "machine": "m", "version": "1", "transition": "t", "from_state": "f", "to_state": "s"}
	ex := map[string]any{"protocol": "io.choria.machine.watcher.exec.v1.state", "machine": "m", "version": "1", "name": "w", "command": "c", "previous_outcome": "success", "previous_run_time": 1000000}
	switch k {
	case "tr-ok":
		return ce(tr)
	case "tr-proto":
		tr["protocol"] = "io.choria.machine.v1.other"
		return ce(tr)
	case "ex-success":
		return ce(ex)
	case "ex-error":
		ex["previous_outcome"] = "error"
		return ce(ex)
	case "ex-other":
		ex["previous_outcome"] = "skipped"
		return ce(ex)
	}
	return []byte("{")
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases []vhCase `json:"cases"`
	}
	r := vhOpen(t, &in)
	defer r.Done()
	registerStats = false
	lg := logrus.New()
	lg.SetOutput(io.Discard)
	work := make(chan vhCase)
	wg := sync.WaitGroup{}
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range work {
				r.Case(c.ID)
				vhWalk(r, c, logrus.NewEntry(lg))
			}
		}()
	}
	for _, c := range in.Cases {
		work <- c
	}
	close(work)
	wg.Wait()
}

func vhWalk(r *vhReporter, c vhCase, lg *logrus.Entry) {
	conn := &vhConn{got: make(chan struct{})}
	rec, err := New(Component("*"), Connection(conn), Logger(lg), StatsPrefix("vh"))
	if err != nil {
		r.Error("%s", err)
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() { done <- rec.Run(ctx) }()
	defer func() {
		cancel()
		select {
		case err := <-done:
			if err != nil {
				r.Mismatch(c.ID, 0, "run", nil, err.Error())
			}
		case <-time.After(10 * time.Second):
			r.Mismatch(c.ID, 0, "run-hang", "returns when its context ends", "did not")
		}
	}()
	select {
	case <-conn.got:
	case err := <-done:
		r.Mismatch(c.ID, 0, "run", nil, fmt.Sprint(err))
		done <- err
		return
	case <-time.After(10 * time.Second):
		r.Mismatch(c.ID, 0, "run", "subscribes", "did not")
		return
	}
	rec.wonCb()
	exp := map[string]float64{}
	add := func(k string) { exp[k]++ }
	counters := func() map[string]float64 {
		return vhCollect(rec.okEvents, rec.badEvents, rec.eventTypes, rec.nodesExpired, rec.governorEvents, rec.transitionEvent, rec.execWatchSuccess, rec.execWatchFail, rec.execWatchRuntime)
	}
	for i, s := range c.Steps {
		r.Step()
		a := s.A.X
		comp := "A"
		if a.Node != "" {
			comp = strings.Split(a.Node, ".")[0]
		}
		send := func(ch chan inter.ConnectorMessage, subj string, d []byte) { ch <- &vhMsg{subj, d} }
		subj := "choria.lifecycle.event.alive." + comp
		switch a.N {
		case "startup", "alive", "shutdown", "other":
			d, typ := vhEvent(a)
			if (i+len(c.ID))%2 == 0 {
				d = vhCloud("io.choria.lifecycle", d)
			}
			add(fmt.Sprintf("0:active=%s,component=%s", a.Lead, comp))
			add(fmt.Sprintf("2:active=%s,component=%s,type=%s", a.Lead, comp, typ))
			if typ == "governor" {
				ev := map[string]string{"gov-enter": "enter", "gov-exit": "exit", "gov-timeout": "timeouts", "gov-evict": "eviction"}[a.X]
				add(fmt.Sprintf("4:active=%s,component=%s,event=%s,governor=GOV", a.Lead, comp, ev))
			}
			send(conn.life, subj, d)
		case "bad":
			add(fmt.Sprintf("1:active=%s,component=%s", a.Lead, comp))
			send(conn.life, subj, vhMalformed(a.X))
		case "machine":
			ch, sub := conn.trans, "choria.machine.transition"
			l := fmt.Sprintf("active=%s,machine=m,version=1,watcher=w", a.Lead)
			switch a.X {
			case "tr-ok":
				add(fmt.Sprintf("5:active=%s,from=f,machine=m,to=s,transition=t,version=1", a.Lead))
			case "ex-success":
				add("6:" + l)
				add("8:" + l)
			case "ex-error":
				add("7:" + l)
				add("8:" + l)
			}
			if a.Bad == 1 {
				cn := "transition"
				if a.X == "ex-json" {
					cn = "exec_watcher"
				}
				add(fmt.Sprintf("1:active=%s,component=%s", a.Lead, cn))
			}
			if strings.HasPrefix(a.X, "ex") {
				ch, sub = conn.exec, "choria.machine.watcher.exec.state"
			}
			send(ch, sub, vhMachine(a.X))
		case "quiet":
			p := strings.Split(a.Node, ".")
			rec.Lock()
			if rec.observed[p[0]] != nil && rec.observed[p[0]].hosts[p[1]+".example.net"] != nil {
				o := rec.observed[p[0]].hosts[p[1]+".example.net"]
				o.ts = o.ts.Add(-50 * time.Minute)
			}
			rec.Unlock()
		case "maintain":
			for _, n := range a.Expired {
				add(fmt.Sprintf("3:active=%s,component=%s", a.Lead, strings.Split(n, ".")[0]))
			}
			rec.maintenance()
		case "lead":
			if a.X == "1" {
				rec.wonCb()
			} else {
				rec.lostCb()
			}
		}
		if a.N != "quiet" && a.N != "lead" {
			end := time.Now().Add(5 * time.Second)
			for time.Now().Before(end) && (len(conn.life)+len(conn.trans)+len(conn.exec) > 0 || vhTotal(counters()) != vhTotal(exp)) {
				time.Sleep(20 * time.Microsecond)
			}
		}
		rec.Lock()
		got := vhCollect(rec.versionsTally)
		rec.Unlock()
		want := map[string]float64{}
		for comp, vs := range s.A.G {
			for v, ls := range vs {
				for l, n := range ls {
					if n != 0 {
						want[fmt.Sprintf("0:active=%s,component=%s,version=%s", l, comp, v)] = n
					}
				}
			}
		}
		if !vhSame(want, got) {
			r.Mismatch(c.ID, i, "gauges", want, got, a)
			return
		}
		if g := counters(); !vhSame(exp, g) {
			r.Mismatch(c.ID, i, "counters", exp, g, a)
			return
		}
	}
}
