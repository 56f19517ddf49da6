package vh

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/nats-io/jsm.go"
	natsd "github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats.go"

	"github.com/choria-io/go-choria/aagent/watchers/kvwatcher"
)

type kvStep struct {
	A struct {
		X  string `json:"x"`
		Ev string `json:"ev"`
		V  string `json:"v"`
		On bool   `json:"on"`
		S  int    `json:"s"`
	} `json:"a"`
	S kvState `json:"s"`
}
type kvState struct {
	Opt struct {
		Get   bool `json:"get"`
		Match bool `json:"match"`
	} `json:"opt"`
	Data string `json:"data"`
}
type kvCase struct {
	ID    string   `json:"id"`
	Mode  string   `json:"mode"`
	Init  kvState  `json:"init"`
	Steps []kvStep `json:"steps"`
	Raw   string   `json:"raw"`
	Want  string   `json:"want"`
	Query string   `json:"query"`
	Hiera bool     `json:"hiera"`
	How   string   `json:"how"`
	Iv    string   `json:"iv"`
	N     struct {
		Key    string `json:"key"`
		Store  string `json:"store"`
		Prefix bool   `json:"prefix"`
		Name   string `json:"name"`
	} `json:"n"`
}

// kvMachine reports its active state as often as it has tokens, always with a negative count
type kvMachine struct {
	*vhMachine
	mu     sync.Mutex
	tokens int
	asked  int
	broken bool // data cannot be changed
}

func (m *kvMachine) isBroken() bool   { m.mu.Lock(); defer m.mu.Unlock(); return m.broken }
func (m *kvMachine) setBroken(b bool) { m.mu.Lock(); m.broken = b; m.mu.Unlock() }
func (m *kvMachine) DataPut(k string, v any) error {
	if m.isBroken() {
		return fmt.Errorf("simulated failure to save")
	}
	return m.vhMachine.DataPut(k, v)
}
func (m *kvMachine) DataDelete(k string) error {
	if m.isBroken() {
		return fmt.Errorf("simulated failure to save")
	}
	return m.vhMachine.DataDelete(k)
}

func (m *kvMachine) State() string {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.asked++
	if m.tokens == 0 {
		return "out"
	}
	if m.tokens > 0 {
		m.tokens--
	}
	return "in"
}
func (m *kvMachine) grant(n int) { m.mu.Lock(); m.tokens = n; m.mu.Unlock() }
func (m *kvMachine) left() int   { m.mu.Lock(); defer m.mu.Unlock(); return m.tokens }
func (m *kvMachine) nasked() int { m.mu.Lock(); defer m.mu.Unlock(); return m.asked }

type kvEnv struct {
	r  *vhReporter
	nc *nats.Conn
	js nats.JetStreamContext
	m  *jsm.Manager
}

func (e *kvEnv) bucket(name string, repub bool) (nats.KeyValue, error) {
	cfg := &nats.KeyValueConfig{Bucket: name, Storage: nats.MemoryStorage, History: 5}
	if repub {
		cfg.RePublish = &nats.RePublish{Source: ">", Destination: "repub.>"}
	}
	return e.js.CreateKeyValue(cfg)
}

func kvWait(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(3 * time.Millisecond)
	}
}

func (e *kvEnv) walk(c kvCase, idx int) {
	r := e.r
	name := fmt.Sprintf("W%d_%s", idx, c.ID)
	m := &kvMachine{vhMachine: vhNewMachine("")}
	m.jsm = e.m
	repub := c.Mode == "repub"
	dk := name + "_k"
	events := []string{}
	var cancel context.CancelFunc
	var wg *sync.WaitGroup
	var w vhWatcher
	var last time.Time
	stop := func() {
		if cancel != nil {
			cancel()
			wg.Wait()
			time.Sleep(5 * time.Millisecond)
		}
	}
	defer func() { stop(); e.js.DeleteKeyValue(name) }()
	start := func() bool {
		props := map[string]any{"bucket": name, "key": "k", "mode": "poll", "on_successful_get": c.Init.Opt.Get, "on_matching_update": c.Init.Opt.Match}
		interval := "2s"
		if repub {
			props["republish_trigger"] = "repub.$KV." + name + ".*"
			interval = "1h"
		}
		wi, err := kvwatcher.New(m, "kv", []string{"in"}, nil, "failed", "changed", interval, time.Hour, props)
		if err != nil {
			r.Mismatch(c.ID, 0, "create", "a watcher", err.Error())
			return false
		}
		w = wi.(vhWatcher)
		var ctx context.Context
		ctx, cancel = context.WithCancel(context.Background())
		wg = &sync.WaitGroup{}
		wg.Add(1)
		n := m.nasked()
		go w.Run(ctx, wg)
		if !kvWait(20*time.Second, func() bool { return m.nasked() > n }) {
			r.Mismatch(c.ID, 0, "no-first-poll", "the key is looked at when starting", "it was not")
			return false
		}
		if repub {
			e.nc.Flush()
		}
		return true
	}
	var kv nats.KeyValue
	var err error
	if repub {
		kv, err = e.bucket(name, true)
		if err != nil {
			r.Error("bucket: %v", err)
		}
	}
	m.grant(0)
	if !start() {
		return
	}
	puts := 0
	for i, s := range c.Steps {
		r.Step()
		var err error
		failok := false
		on := 0
		if s.A.On {
			on = -1
		}
		switch s.A.X {
		case "create":
			kv, err = e.bucket(name, false)
		case "remove":
			err = e.js.DeleteKeyValue(name)
		case "put":
			m.grant(on)
			puts++
			raw := fmt.Sprintf(`{"v":"%s","n":[1,{"x":null}]}`, s.A.V)
			if puts%2 == 0 {
				raw = fmt.Sprintf("\n{\"n\": [1, {\"x\": null}],\t\"v\": \"%s\"} \n", s.A.V)
			}
			_, err = kv.Put("k", []byte(raw))
		case "del":
			m.grant(on)
			err = kv.Delete("k")
		case "purge":
			m.grant(on)
			err = kv.Purge("k")
		case "foreign":
			m.grant(-1)
			failok = true
			_, err = kv.Put("xk", []byte(`{"v":"other"}`))
		case "plain":
			m.grant(-1)
			failok = true
			err = e.nc.Publish("repub.$KV."+name+".k", []byte(`{"v":"forged"}`))
		case "stale", "staledel", "stalepurge":
			m.grant(-1)
			failok = true
			msg := nats.NewMsg("repub.$KV." + name + ".k")
			msg.Header.Set("Nats-Stream", "KV_"+name)
			msg.Header.Set("Nats-Subject", "$KV."+name+".k")
			msg.Header.Set("Nats-Sequence", fmt.Sprint(s.A.S-1))
			msg.Header.Set("Nats-Time-Stamp", time.Now().UTC().Format(time.RFC3339Nano))
			msg.Header.Set("Nats-Last-Sequence", fmt.Sprint(max(0, s.A.S-2)))
			switch s.A.X {
			case "stale":
				msg.Data = []byte(`{"v":"old"}`)
			case "staledel":
				msg.Header.Set("KV-Operation", "DEL")
			case "stalepurge":
				msg.Header.Set("KV-Operation", "PURGE")
			}
			err = e.nc.PublishMsg(msg)
		case "poll", "nostore":
			m.setBroken(s.A.X == "nostore")
			time.Sleep(time.Until(last.Add(1700 * time.Millisecond)))
			m.grant(1)
			w.NotifyStateChance()
			if !kvWait(20*time.Second, func() bool { return m.left() == 0 }) {
				r.Mismatch(c.ID, i, "no-poll", "a state change is followed by a look at the key", "none in 20 seconds")
				return
			}
			last = time.Now()
		case "soon":
			if time.Since(last) > time.Second {
				r.Count("slow")
				continue
			}
			m.grant(1)
			w.NotifyStateChance()
			kvWait(5*time.Second, func() bool { return m.left() == 0 })
			if time.Since(last) > 1400*time.Millisecond {
				r.Count("slow")
				return
			}
		case "idle":
			m.grant(0)
			n := m.nasked()
			w.NotifyStateChance()
			kvWait(5*time.Second, func() bool { return m.nasked() > n })
		case "restart":
			stop()
			m.grant(on)
			if s.A.On && !repub {
				m.grant(1)
			}
			if !start() {
				return
			}
			if s.A.On {
				last = time.Now()
			}
		}
		if err != nil {
			r.Error("%s: %s: %v", c.ID, s.A.X, err)
		}
		if s.A.Ev == "success" {
			events = append(events, "changed")
		} else if s.A.Ev == "fail" {
			events = append(events, "failed")
		}
		settled := func() bool {
			ev, _ := m.Peek()
			if failok && len(ev) == len(events)+1 && ev[len(ev)-1] == "failed" {
				events = append(events, "failed")
			}
			return vhSame(ev, events) && kvData(m, dk) == s.S.Data
		}
		ok := kvWait(4*time.Second, settled)
		if repub || s.A.Ev == "" || s.A.X == "restart" {
			time.Sleep(20 * time.Millisecond)
			ok = kvWait(time.Second, settled)
		}
		m.setBroken(false)
		if repub {
			m.grant(0)
		}
		if !ok {
			ev, _ := m.Peek()
			key := s.A.X + "-event"
			if kvData(m, dk) != s.S.Data {
				key = s.A.X + "-data"
			}
			r.Mismatch(c.ID, i, key, map[string]any{"events": events, "data": s.S.Data}, map[string]any{"events": ev, "data": kvData(m, dk)}, c.Init.Opt)
			return
		}
	}
	if n := len(m.Data()); n > 1 {
		r.Mismatch(c.ID, len(c.Steps), "other-data", "one item", m.Data())
	}
}

func kvData(m *kvMachine, k string) string {
	v, ok := m.DataGet(k)
	if !ok || v == nil {
		return "none"
	}
	if o, ok := v.(map[string]any); ok {
		if x, ok := o["v"].(string); ok && vhSame(o["n"], []any{1, map[string]any{"x": nil}}) {
			return x
		}
	}
	return fmt.Sprintf("%v", v)
}

func (e *kvEnv) parse(c kvCase, idx int) {
	r := e.r
	r.Step()
	name := fmt.Sprintf("P%d", idx)
	kvb, err := e.bucket(name, true)
	if err != nil {
		r.Error("bucket: %v", err)
	}
	defer e.js.DeleteKeyValue(name)
	m := &kvMachine{vhMachine: vhNewMachine("")}
	m.jsm = e.m
	m.facts = `{"role":"web","os":"linux"}`
	props := map[string]any{"bucket": name, "key": c.N.Key, "store_key": c.N.Store, "bucket_prefix": c.N.Prefix, "query": c.Query, "hiera_config": c.Hiera, "republish_trigger": "repub.$KV." + name + ".>"}
	wi, err := kvwatcher.New(m, "kv", []string{"in"}, nil, "failed", "changed", c.Iv, time.Hour, props)
	if err != nil {
		r.Mismatch(c.ID, 0, "create", "a watcher", err.Error())
		return
	}
	real := map[string]string{"k": "k", "{{ lookup \"facts.role\" \"none\" }}.k": "web.k", "{{ lookup \"facts.none\" \"dflt\" }}": "dflt"}[c.N.Key]
	put := func() {
		if _, err := kvb.Put(real, []byte(c.Raw)); err != nil {
			r.Error("put: %v", err)
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	wg.Add(1)
	if c.How == "poll" {
		put()
		m.grant(-1)
		go wi.(vhWatcher).Run(ctx, wg)
	} else {
		m.grant(0)
		go wi.(vhWatcher).Run(ctx, wg)
		kvWait(20*time.Second, func() bool { return m.nasked() > 0 })
		e.nc.Flush()
		m.grant(-1)
		put()
	}
	defer func() { cancel(); wg.Wait() }()
	kn := c.N.Name
	if c.N.Prefix {
		kn = name + kn[2:]
	}
	var want any
	json.Unmarshal([]byte(c.Want), &want)
	wantd := map[string]any{kn: want}
	ok := kvWait(4*time.Second, func() bool { ev, _ := m.Peek(); return vhSame(m.Data(), wantd) && vhSame(ev, []string{"changed"}) })
	if !ok {
		ev, _ := m.Peek()
		r.Mismatch(c.ID, 0, "parse", map[string]any{"data": wantd, "events": []string{"changed"}}, map[string]any{"data": m.Data(), "events": ev}, c.Raw)
	}
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases    []kvCase `json:"cases"`
		Parallel int      `json:"parallel"`
	}
	r := vhOpen(t, &in)
	defer r.Done()
	d, err := os.MkdirTemp("", "js")
	if err != nil {
		r.Error("%v", err)
	}
	srv, err := natsd.NewServer(&natsd.Options{ServerName: "vh", JetStream: true, StoreDir: d, Port: -1, Host: "127.0.0.1", NoSigs: true, NoLog: true})
	if err != nil {
		r.Error("%v", err)
	}
	go srv.Start()
	if !srv.ReadyForConnections(20 * time.Second) {
		r.Error("no server")
	}
	defer func() { srv.Shutdown(); srv.WaitForShutdown() }()
	envs := []*kvEnv{}
	for i := 0; i < 8; i++ {
		nc, err := nats.Connect(srv.ClientURL())
		if err != nil {
			r.Error("%v", err)
		}
		js, err := nc.JetStream(nats.MaxWait(30 * time.Second))
		if err != nil {
			r.Error("%v", err)
		}
		mgr, err := jsm.New(nc, jsm.WithTimeout(30*time.Second))
		if err != nil {
			r.Error("%v", err)
		}
		envs = append(envs, &kvEnv{r, nc, js, mgr})
	}
	sem := make(chan struct{}, in.Parallel)
	var wg sync.WaitGroup
	for i, c := range in.Cases {
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r.Case(c.ID)
			if c.Mode == "" {
				envs[i%8].parse(c, i)
			} else {
				envs[i%8].walk(c, i)
			}
		}()
	}
	wg.Wait()
}
