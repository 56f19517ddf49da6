package vh

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"github.com/choria-io/go-choria/aagent/machine"
)

type mdCase struct {
	ID    string `json:"id"`
	Trace bool   `json:"trace"`
	Steps []struct {
		A struct {
			N, X, K, V, How string
		} `json:"a"`
		S struct {
			M map[string]map[string]string `json:"m"`
			D map[string]map[string]string `json:"d"`
			S map[string]string            `json:"s"`
		} `json:"s"`
	} `json:"steps"`
}

type mdManager struct{}

func (m *mdManager) Run(context.Context, *sync.WaitGroup) error { return nil }
func (m *mdManager) NotifyStateChance()                         {}
func (m *mdManager) SetMachine(any) error                       { return nil }
func (m *mdManager) WatcherState(string) (any, bool)            { return nil, false }
func (m *mdManager) Delete()                                    {}

func mdVal(v string) any {
	switch v {
	case "str":
		return "some \"string\" <&>"
	case "num":
		return 42
	case "map":
		return map[string]any{"a": []any{"x", 1.5, nil}, "b": map[string]any{"c": true}}
	case "nil":
		return nil
	case "empty":
		return ""
	case "false":
		return false
	}
	return v
}

func mdLoad(dir, name string) (*machine.Machine, error) {
	y := fmt.Sprintf("name: %s\nversion: 1.0.0\ninitial_state: a\ntransitions:\n  - name: e\n    from: [a]\n    destination: b\nwatchers:\n  - name: w\n    type: exec\n", name)
	os.MkdirAll(dir, 0700)
	if err := os.WriteFile(filepath.Join(dir, "machine.yaml"), []byte(y), 0600); err != nil {
		return nil, err
	}
	return machine.FromDir(dir, &mdManager{})
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases []mdCase `json:"cases"`
	}
	r := vhOpen(t, &in)
	work := os.Getenv("VERIF_WORK")
	sem := make(chan struct{}, 32)
	var wg sync.WaitGroup
	for k, c := range in.Cases {
		sem <- struct{}{}
		wg.Add(1)
		go func(k int, c mdCase) {
			defer wg.Done()
			defer func() { <-sem }()
			dir := filepath.Join(work, fmt.Sprintf("m%d", k))
			defer os.RemoveAll(dir)
			r.Case(c.ID)
			defer func() {
				if p := recover(); p != nil {
					r.Mismatch(c.ID, 0, "panic", "no panic", fmt.Sprint(p))
				}
			}()
			mdRun(r, c, dir)
		}(k, c)
	}
	wg.Wait()
	r.Done()
}

func mdRun(r *vhReporter, c mdCase, dir string) {
	ms := map[string]*machine.Machine{}
	load := func(x string) bool {
		m, err := mdLoad(filepath.Join(dir, x), x)
		if err != nil {
			r.Mismatch(c.ID, 0, "load", "machine loads", err.Error())
			return false
		}
		ms[x] = m
		return true
	}
	if !load("m") || !load("n") {
		return
	}
	var collect func() []vhFileEvent
	if c.Trace {
		collect, _ = vhWatch([]string{filepath.Join(dir, "m"), filepath.Join(dir, "n")}, func(f string) bool { return filepath.Base(f) == "machine_data.json" })
	}
	snap := map[string]any{}
	for i, st := range c.Steps {
		r.Step()
		var err error
		switch st.A.N {
		case "put":
			err = ms[st.A.X].DataPut(st.A.K, mdVal(st.A.V))
		case "del":
			err = ms[st.A.X].DataDelete(st.A.K)
		case "reload":
			if !load(st.A.X) {
				return
			}
		case "corrupt":
			f := filepath.Join(dir, st.A.X, "machine_data.json")
			dat := map[string]string{"truncated": `{"k1":"x","k2":`, "list": `["k1"]`, "empty": "", "null": "null"}[st.A.How]
			if st.A.How == "missing" {
				os.Remove(f)
			} else if err := os.WriteFile(f, []byte(dat), 0600); err != nil {
				r.Error("corrupt: %v", err)
			}
			if !load(st.A.X) {
				return
			}
		case "snap":
			snap = ms["m"].Data()
		case "scribble":
			d := ms["m"].Data()
			d["k1"], d["k2"], d["k3"] = "scribbled", "scribbled", "scribbled"
		}
		if err != nil {
			r.Mismatch(c.ID, i, "error", "no error from "+st.A.N, err.Error())
			return
		}
		for x, m := range ms {
			exp := map[string]any{}
			for k, v := range st.S.M[x] {
				got, ok := m.DataGet(k)
				if v == "absent" {
					if ok {
						r.Mismatch(c.ID, i, "get", map[string]any{"machine": x, "key": k, "value": "absent"}, got)
						return
					}
					continue
				}
				exp[k] = mdVal(v)
				if !ok || !vhSame(got, mdVal(v)) {
					r.Mismatch(c.ID, i, "get", map[string]any{"machine": x, "key": k, "value": mdVal(v)}, got)
					return
				}
			}
			if !vhSame(m.Data(), exp) {
				r.Mismatch(c.ID, i, "data", map[string]any{"machine": x, "data": exp}, m.Data())
				return
			}
			// what a restart at this moment would find
			disk := map[string]any{}
			dexp := map[string]any{}
			for k, v := range st.S.D[x] {
				if v != "absent" {
					dexp[k] = mdVal(v)
				}
			}
			j, err := os.ReadFile(filepath.Join(dir, x, "machine_data.json"))
			if err == nil {
				// a given up file is as good as none
				if json.Unmarshal(j, &disk) != nil || disk == nil {
					disk = map[string]any{}
				}
			}
			if !vhSame(disk, dexp) {
				r.Mismatch(c.ID, i, "file", map[string]any{"machine": x, "data": dexp}, string(j))
				return
			}
		}
		sexp := map[string]any{}
		for k, v := range st.S.S {
			if v != "absent" {
				sexp[k] = mdVal(v)
			}
		}
		if !vhSame(snap, sexp) {
			r.Mismatch(c.ID, i, "copy-changed", sexp, snap)
			return
		}
	}
	if collect != nil {
		var evs []vhFileEvent
		for _, e := range collect() {
			evs = append(evs, e)
		}
		r.emit(map[string]any{"t": "trace", "case": c.ID, "events": evs})
	}
}
