package vh

import (
	"context"
	"crypto/ed25519"
	"crypto/rand"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/goccy/go-yaml"

	machines "github.com/choria-io/go-choria/aagent/watchers/machineswatcher"
	"github.com/choria-io/go-choria/aagent/watchers/pluginswatcher"
)

type mmSpec struct {
	Ok  bool              `json:"ok"`
	Why string            `json:"why"`
	W   map[string]string `json:"w"`
}
type mmDisk struct {
	M string `json:"m"`
	P bool   `json:"p"`
}
type mmCfg struct {
	Kind  string `json:"kind"`
	Purge bool   `json:"purge"`
	Key   string `json:"key"`
}
type mmState struct {
	Cfg  mmCfg             `json:"cfg"`
	Spec mmSpec            `json:"spec"`
	Disk map[string]mmDisk `json:"disk"`
}
type mmCase struct {
	ID    string  `json:"id"`
	Init  mmState `json:"init"`
	Steps []struct {
		A struct {
			X   string    `json:"x"`
			Put mmSpec    `json:"put"`
			E   [2]string `json:"e"`
			Out string    `json:"out"`
		} `json:"a"`
		S mmState `json:"s"`
	} `json:"steps"`
}

type mmEnv struct {
	c     *mmCase
	base  string // where the machines live
	plug  string // where the managed ones are deployed
	pri   ed25519.PrivateKey
	other ed25519.PrivateKey
}

func mmItem(kind, name, v string) map[string]any {
	it := map[string]any{"name": name, "source": "https://example.net/" + name + "-1.tgz", "checksum": "aa11", "verify": "SHA256SUMS", "verify_checksum": "bb11"}
	switch v {
	case "v2":
		it["source"], it["checksum"], it["verify_checksum"] = "https://example.net/"+name+"-2.tgz", "aa22", "bb22"
		it["username"], it["password"], it["governor"] = "bob", "s3cret", "GOV"
		it["match"] = "identity('^node') && !has_file('/nonexisting/x')"
		if kind != "machines" {
			it["match"] = "identity('^node') && get_fact('role') == 'web'"
		}
	case "nomatch":
		it["match"] = "identity('^web')"
	case "badmatch":
		it["match"] = "identity("
	}
	return it
}

// the properties a manager machine must have for an item
func mmWantProps(e *mmEnv, name, v string) map[string]string {
	it := mmItem(e.c.Init.Cfg.Kind, name, v)
	get := func(k string) string { s, _ := it[k].(string); return s }
	target := e.base
	if e.c.Init.Cfg.Kind == "pluginsdir" {
		target = e.plug
	}
	return map[string]string{"source": get("source"), "checksum": get("checksum"), "verify": "SHA256SUMS", "verify_checksum": get("verify_checksum"),
		"creates": name, "target": target, "username": get("username"), "password": get("password"), "governor": get("governor")}
}

func (e *mmEnv) prefix() string {
	if e.c.Init.Cfg.Kind == "pluginsdir" {
		return "mgr"
	}
	return "mm"
}

func (e *mmEnv) mdir(n string) string { return filepath.Join(e.base, e.prefix()+"_"+n) }
func (e *mmEnv) pdir(n string) string { return filepath.Join(e.plug, n) }

// what is deployed for a name
func (e *mmEnv) disk(n string) (mmDisk, string) {
	d := mmDisk{M: "no"}
	if i, err := os.Stat(e.pdir(n)); err == nil && i.IsDir() {
		d.P = true
	}
	i, err := os.Stat(e.mdir(n))
	if err != nil {
		return d, ""
	}
	if !i.IsDir() {
		return d, "not a directory"
	}
	raw, err := os.ReadFile(filepath.Join(e.mdir(n), "machine.yaml"))
	if err != nil {
		d.M = "dir"
		return d, ""
	}
	if strings.HasPrefix(string(raw), "# tampered") {
		d.M = "bad"
		return d, ""
	}
	var m struct {
		Name         string `yaml:"name"`
		InitialState string `yaml:"initial_state"`
		Watchers     []struct {
			Type       string         `yaml:"type"`
			Interval   string         `yaml:"interval"`
			StateMatch []string       `yaml:"state_match"`
			Properties map[string]any `yaml:"properties"`
		} `yaml:"watchers"`
	}
	err = yaml.Unmarshal(raw, &m)
	if err != nil || len(m.Watchers) != 1 {
		return d, fmt.Sprintf("unusable machine: %v", err)
	}
	w := m.Watchers[0]
	for _, v := range []string{"v1", "v2"} {
		ok := m.Name == e.prefix()+"_"+n && w.Type == "archive" && w.Interval == "1m30s" && m.InitialState == "MANAGE" && vhSame(w.StateMatch, []string{"MANAGE"})
		for k, x := range mmWantProps(e, n, v) {
			if g, _ := w.Properties[k].(string); g != x {
				ok = false
			}
		}
		if ok {
			d.M = v
			return d, ""
		}
	}
	return d, "another machine: " + string(raw)
}

func (e *mmEnv) data(r *vhReporter, s mmSpec) any {
	kind := e.c.Init.Cfg.Kind
	items := []map[string]any{}
	names := []string{}
	for n := range s.W {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if v := s.W[n]; v != "absent" {
			items = append(items, mmItem(kind, n, v))
		}
	}
	if !s.Ok && s.Why[0] != 'u' && len(items) == 0 {
		items = append(items, mmItem(kind, "a", "v1"), mmItem(kind, "b_c", "v2"))
	}
	last := len(items) - 1
	switch s.Why {
	case "noname":
		items[last]["name"] = ""
	case "badfield":
		items[last]["username"] = []int{5}
	case "nosource":
		delete(items[last], "source")
	case "nosum":
		delete(items[last], "checksum")
	case "noverify":
		items[last]["verify_checksum"] = ""
	}
	j, _ := json.Marshal(items)
	switch s.Why {
	case "notjson":
		j = []byte(`[{"name":"a",`)
	case "object":
		j = []byte(`{"name":"a"}`)
	case "null":
		j = []byte(`[null]`)
	case "wrongtype":
		return 12
	}
	b := base64.StdEncoding.EncodeToString(j)
	if s.Why == "notb64" {
		b = "!!!!"
	}
	sign := func(k ed25519.PrivateKey, b string) string {
		msg := []byte(b)
		if kind == "machines" {
			msg, _ = base64.StdEncoding.DecodeString(b)
		}
		return hex.EncodeToString(ed25519.Sign(k, msg))
	}
	sig := sign(e.pri, b)
	switch s.Why {
	case "unsigned":
		sig = ""
	case "nothex":
		sig = "zz" + sig[2:]
	case "otherkey":
		sig = sign(e.other, b)
	case "short-sig":
		sig = sig[:64]
	case "otherbody":
		sig = sign(e.pri, base64.StdEncoding.EncodeToString([]byte(`[]`)))
	}
	key := "plugins"
	if kind == "machines" {
		key = "machines"
	}
	res := map[string]any{key: b}
	if sig != "" {
		res["signature"] = sig
	}
	return res
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases    []*mmCase `json:"cases"`
		Parallel int       `json:"parallel"`
	}
	r := vhOpen(t, &in)
	defer r.Done()
	td, err := os.MkdirTemp("", "machines")
	if err != nil {
		r.Error("%v", err)
	}
	defer os.RemoveAll(td)
	sem := make(chan struct{}, in.Parallel)
	var wg sync.WaitGroup
	for _, c := range in.Cases {
		sem <- struct{}{}
		wg.Add(1)
		go func(c *mmCase) {
			defer func() { <-sem; wg.Done() }()
			r.Case(c.ID)
			root := filepath.Join(td, c.ID)
			mmWalk(r, c, root)
			os.RemoveAll(root)
		}(c)
	}
	wg.Wait()
}

func mmWalk(r *vhReporter, c *mmCase, root string) {
	e := &mmEnv{c: c, base: filepath.Join(root, "machines")}
	e.plug = e.base
	cfg := c.Init.Cfg
	if cfg.Kind == "pluginsdir" {
		e.plug = filepath.Join(root, "plugins")
		os.MkdirAll(e.plug, 0700)
	}
	pub, pri, _ := ed25519.GenerateKey(rand.Reader)
	opub, opri, _ := ed25519.GenerateKey(rand.Reader)
	e.pri, e.other = pri, opri
	own := filepath.Join(e.base, "manager")
	os.MkdirAll(own, 0700)
	os.MkdirAll(filepath.Join(e.base, "keep"), 0700)
	os.MkdirAll(filepath.Join(e.base, "other_a"), 0700)
	os.MkdirAll(filepath.Join(e.base, e.prefix()+"x_a"), 0700)
	os.WriteFile(filepath.Join(e.base, e.prefix()+"_file"), []byte("x"), 0600)
	fixed := []string{"keep", "manager", e.prefix() + "_file", e.prefix() + "x_a", "other_a"}
	sort.Strings(fixed)
	props := map[string]any{"data_item": "spec", "purge_unknown": cfg.Purge}
	m := vhNewMachine(own)
	m.facts = `{"role":"web"}`
	switch cfg.Key {
	case "prop":
		props["public_key"] = hex.EncodeToString(pub)
	case "signer":
		props["public_key"] = hex.EncodeToString(opub)
		m.signer = hex.EncodeToString(pub)
	case "short":
		props["public_key"] = hex.EncodeToString(pub[:8])
	}
	var w vhWatcher
	var x any
	var err error
	if cfg.Kind == "machines" {
		props["machine_manage_interval"] = "90s"
		x, err = machines.New(m, "mm", []string{"in"}, nil, "fail_ev", "succ_ev", "", 0, props)
	} else {
		props["plugin_manage_interval"] = "90s"
		if cfg.Kind == "pluginsdir" {
			props["plugins_directory"] = e.plug
			props["manager_machine_prefix"] = "mgr"
		}
		x, err = pluginswatcher.New(m, "mm", []string{"in"}, nil, "fail_ev", "succ_ev", "", 0, props)
	}
	if err != nil {
		r.Mismatch(c.ID, -1, "create", "a watcher", err.Error())
		return
	}
	w = x.(vhWatcher)
	write := func(n, v string) {
		os.MkdirAll(e.mdir(n), 0700)
		os.WriteFile(filepath.Join(e.mdir(n), "machine.yaml"), []byte(v), 0600)
	}
	for n, d := range c.Init.Disk {
		if d.M != "no" {
			// rendered by hand
			p := mmWantProps(e, n, d.M)
			j, _ := json.Marshal(p)
			write(n, fmt.Sprintf("name: %s_%s\ninitial_state: MANAGE\nwatchers:\n - type: archive\n   interval: 1m30s\n   state_match: [ MANAGE ]\n   properties: %s\n", e.prefix(), n, j))
		}
		if d.P {
			os.MkdirAll(e.pdir(n), 0700)
		}
	}
	m.Set("out")
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	started := m.Start(ctx, w, &wg)
	defer func() {
		cancel()
		m.Free()
		if g := vhGuard(30*time.Second, func() { wg.Wait() }); g != "" {
			r.Mismatch(c.ID, len(c.Steps), "stop", "the watcher stops", g)
		}
	}()
	if !started {
		r.Mismatch(c.ID, -1, "stuck", "the watcher checks", "it does not")
		return
	}
	cur := c.Init.Spec
	prevOut := ""
	for i, s := range c.Steps {
		r.Step()
		key := func(k string) string { return cfg.Kind + "-" + k }
		what := []any{s.A.Put, s.A.E, s.A.Out, cfg}
		if !vhSame(s.A.Put, cur) || i == 0 {
			if s.A.Put.Why == "none" {
				m.DataDelete("spec")
			} else {
				m.DataPut("spec", e.data(r, s.A.Put))
			}
		}
		n := s.A.E[1]
		switch s.A.E[0] {
		case "tamper":
			write(n, "# tampered\n")
		case "strip":
			os.Remove(filepath.Join(e.mdir(n), "machine.yaml"))
		case "remove":
			os.RemoveAll(e.mdir(n))
		case "deploy":
			os.MkdirAll(e.pdir(n), 0700)
			os.WriteFile(filepath.Join(e.pdir(n), "machine.yaml"), []byte("x"), 0600)
		}
		if s.A.Out == "skipped" {
			m.Set("out")
		} else {
			m.Set("in")
		}
		m.Take()
		if !m.Check(w) {
			r.Mismatch(c.ID, i, key("stuck"), "the check completes", "it does not", what)
			return
		}
		ev, notes := m.Take()
		wantEv, wantNotes := []string{}, 0
		switch s.A.Out {
		case "updated":
			wantEv, wantNotes = []string{"succ_ev"}, 1
		case "error":
			wantEv, wantNotes = []string{"fail_ev"}, 1
		}
		if !vhSame(ev, wantEv) {
			r.Mismatch(c.ID, i, key("event"), wantEv, ev, what)
			return
		}
		if notes != wantNotes {
			r.Mismatch(c.ID, i, key("announced"), wantNotes, notes, what)
			return
		}
		st := vhCurrent(w)
		if s.A.Out != "skipped" || prevOut == "" {
			prevOut = s.A.Out
		}
		if st["previous_outcome"] != s.A.Out {
			r.Mismatch(c.ID, i, key("outcome"), s.A.Out, st["previous_outcome"], what)
			return
		}
		for n, d := range s.S.Disk {
			g, why := e.disk(n)
			if why != "" || g != d {
				r.Mismatch(c.ID, i, key("disk"), []any{n, d}, []any{g, why}, what)
				return
			}
		}
		// nothing else appeared or went
		got := []string{}
		for _, dir := range []string{e.base, e.plug} {
			des, _ := os.ReadDir(dir)
			for _, de := range des {
				known := false
				for n := range s.S.Disk {
					known = known || de.Name() == n || de.Name() == e.prefix()+"_"+n
				}
				if !known {
					got = append(got, de.Name())
				}
			}
			if e.base == e.plug {
				break
			}
		}
		sort.Strings(got)
		if !vhSame(got, fixed) {
			r.Mismatch(c.ID, i, key("bystanders"), fixed, got, what)
			return
		}
		_, has := m.DataGet("spec")
		if s.A.Out != "error" && has != (s.S.Spec.Why != "none") {
			r.Mismatch(c.ID, i, key("data"), s.S.Spec.Why != "none", has, what)
			return
		}
		if s.A.Out == "error" && s.S.Spec.Why == "none" && has {
			r.Mismatch(c.ID, i, key("data"), "the bad specification is removed", "it is kept", what)
			return
		}
		cur = s.S.Spec
	}
}
