package vh

// A recording implementation of model.Machine for driving watchers.

import (
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/model"
	"github.com/choria-io/go-choria/lifecycle"
	"github.com/nats-io/jsm.go"
)

type vhMachine struct {
	mu      sync.Mutex
	state   string
	data    map[string]any
	facts   string
	foreign map[string]string
	dir     string
	txtdir  string
	events  []string // transitions fired
	notes   []any    // watcher states announced
	signer  string
	jsm     *jsm.Manager
	http    model.HttpManager
	onEvent func(string)
	puts    int
	armed   bool
	asked   int      // how often the state was asked for
	life    []string // governor lifecycle events
	arrived chan struct{}
	release chan struct{}
}

func vhNewMachine(dir string) *vhMachine {
	return &vhMachine{state: "in", data: map[string]any{}, facts: "{}", foreign: map[string]string{}, dir: dir, arrived: make(chan struct{}, 1)}
}

// State is what every check of a watcher asks first: while the gate is armed the next check is held here,
// which proves that the previous one completed and lets the driver prepare the next step.
func (m *vhMachine) State() string {
	m.mu.Lock()
	if m.armed {
		m.armed = false
		rel := m.release
		m.mu.Unlock()
		m.arrived <- struct{}{}
		<-rel
		m.mu.Lock()
	}
	defer m.mu.Unlock()
	m.asked++
	return m.state
}

func (m *vhMachine) Asked() int { m.mu.Lock(); defer m.mu.Unlock(); return m.asked }

func (m *vhMachine) Life() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]string{}, m.life...)
}

func (m *vhMachine) TakeLife() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	l := append([]string{}, m.life...)
	m.life = nil
	return l
}

func (m *vhMachine) arm() {
	m.mu.Lock()
	m.armed = true
	m.release = make(chan struct{})
	m.mu.Unlock()
}

// Hold brings the run loop of w to its next check and holds it there
func (m *vhMachine) Hold(w vhWatcher) bool {
	m.arm()
	w.NotifyStateChance()
	select {
	case <-m.arrived:
		vhDrain(w)
		return true
	case <-time.After(20 * time.Second):
		m.mu.Lock()
		m.armed = false
		m.mu.Unlock()
		return false
	}
}

// vhDrain removes a queued notification while the run loop is held in a check, it would make for an extra one
func vhDrain(w vhWatcher) {
	if d, ok := w.(interface{ StateChangeC() chan struct{} }); ok {
		select {
		case <-d.StateChangeC():
		default:
		}
	}
}

// Start runs w and holds it at its first check
func (m *vhMachine) Start(ctx context.Context, w vhWatcher, wg *sync.WaitGroup) bool {
	m.arm()
	wg.Add(1)
	go w.Run(ctx, wg)
	select {
	case <-m.arrived:
		return true
	case <-time.After(10 * time.Second):
	}
	w.NotifyStateChance()
	select {
	case <-m.arrived:
		return true
	case <-time.After(20 * time.Second):
		return false
	}
}

// Check lets the held check run and holds the one after it
func (m *vhMachine) Check(w vhWatcher) bool {
	m.mu.Lock()
	rel := m.release
	m.mu.Unlock()
	close(rel)
	time.Sleep(4 * time.Millisecond)
	return m.Hold(w)
}

func (m *vhMachine) Free() {
	m.mu.Lock()
	m.armed = false
	rel := m.release
	m.mu.Unlock()
	if rel != nil {
		select {
		case <-rel:
		default:
			close(rel)
		}
	}
}
func (m *vhMachine) Set(s string) { m.mu.Lock(); m.state = s; m.mu.Unlock() }
func (m *vhMachine) Transition(t string, args ...any) error {
	if t == "" {
		return nil
	}
	m.mu.Lock()
	m.events = append(m.events, t)
	f := m.onEvent
	m.mu.Unlock()
	if f != nil {
		f(t)
	}
	return nil
}
func (m *vhMachine) NotifyWatcherState(w string, s any) {
	m.mu.Lock()
	m.notes = append(m.notes, s)
	m.mu.Unlock()
}
func (m *vhMachine) Name() string                    { return "vmachine" }
func (m *vhMachine) Directory() string               { return m.dir }
func (m *vhMachine) TextFileDirectory() string       { return m.txtdir }
func (m *vhMachine) Identity() string                { return "node.example" }
func (m *vhMachine) InstanceID() string              { return "1234" }
func (m *vhMachine) Version() string                 { return "1.0.0" }
func (m *vhMachine) TimeStampSeconds() int64         { return time.Now().Unix() }
func (m *vhMachine) OverrideData() ([]byte, error)   { return nil, nil }
func (m *vhMachine) ChoriaStatusFile() (string, int) { return "", 0 }
func (m *vhMachine) JetStreamConnection() (*jsm.Manager, error) {
	if m.jsm == nil {
		return nil, fmt.Errorf("no connection")
	}
	return m.jsm, nil
}
func (m *vhMachine) PublishLifecycleEvent(t lifecycle.Type, opts ...lifecycle.Option) {
	if e, err := lifecycle.New(t, opts...); err == nil {
		if g, ok := e.(*lifecycle.GovernorEvent); ok {
			m.mu.Lock()
			m.life = append(m.life, g.Governor+"/"+string(g.EventType))
			m.mu.Unlock()
		}
	}
}
func (m *vhMachine) MainCollective() string { return "mt" }
func (m *vhMachine) Facts() json.RawMessage { return json.RawMessage(m.facts) }
func (m *vhMachine) Data() map[string]any {
	m.mu.Lock()
	defer m.mu.Unlock()
	r := map[string]any{}
	for k, v := range m.data {
		r[k] = v
	}
	return r
}
func (m *vhMachine) DataPut(k string, v any) error {
	m.mu.Lock()
	m.data[k] = v
	m.puts++
	m.mu.Unlock()
	return nil
}
func (m *vhMachine) DataGet(k string) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.data[k]
	return v, ok
}
func (m *vhMachine) DataDelete(k string) error {
	m.mu.Lock()
	delete(m.data, k)
	m.mu.Unlock()
	return nil
}
func (m *vhMachine) SignerKey() string { return m.signer }
func (m *vhMachine) LookupExternalMachineState(n string) (string, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	s, ok := m.foreign[n]
	if !ok {
		return "", fmt.Errorf("could not find machine")
	}
	return s, nil
}
func (m *vhMachine) SetHttpManager(h model.HttpManager)             { m.http = h }
func (m *vhMachine) HttpManager() model.HttpManager                 { return m.http }
func (m *vhMachine) Debugf(name string, format string, args ...any) {}
func (m *vhMachine) Infof(name string, format string, args ...any)  {}
func (m *vhMachine) Warnf(name string, format string, args ...any)  {}
func (m *vhMachine) Errorf(name string, format string, args ...any) {}

// Take returns and clears what was fired and announced
func (m *vhMachine) Take() ([]string, int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	e, n := m.events, len(m.notes)
	m.events, m.notes = nil, nil
	if e == nil {
		e = []string{}
	}
	return e, n
}

func (m *vhMachine) Peek() ([]string, int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]string{}, m.events...), len(m.notes)
}

type vhWatcher interface {
	Run(context.Context, *sync.WaitGroup)
	NotifyStateChance()
	CurrentState() any
}

// vhCurrent is the watcher state as its JSON form
func vhCurrent(w vhWatcher) map[string]any {
	j, err := json.Marshal(w.CurrentState())
	if err != nil {
		return map[string]any{"err": err.Error()}
	}
	r := map[string]any{}
	json.Unmarshal(j, &r)
	return r
}
