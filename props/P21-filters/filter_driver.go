package vh

// Replays the filter and operator tables into the real filter code.

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/choria-io/go-choria/filter"
	"github.com/choria-io/go-choria/filter/facts"
	"github.com/choria-io/go-choria/protocol"
	v1 "github.com/choria-io/go-choria/protocol/v1"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/providers/data/ddl"
	"github.com/sirupsen/logrus"
)

type vhFilterRow struct {
	ID string `json:"id"`
	R  struct {
		Identity []string `json:"identity"`
		Agent    []string `json:"agent"`
		Class    []string `json:"class"`
		Fact     []string `json:"fact"`
		Compound []string `json:"compound"`
	} `json:"r"`
	Sel map[string]bool `json:"sel"`
}

type vhVal struct {
	T string `json:"t"`
	N int    `json:"n"`
	S string `json:"s"`
}

type vhOpRow struct {
	ID string `json:"id"`
	R  struct {
		Fact vhVal  `json:"fact"`
		Op   string `json:"op"`
		Lit  vhVal  `json:"lit"`
	} `json:"r"`
	V string `json:"v"`
}

type vhNode struct {
	id      string
	agents  []string
	classes []string
	facts   string
}

func (n vhNode) Classes() []string                 { return n.classes }
func (n vhNode) Facts() json.RawMessage            { return json.RawMessage(n.facts) }
func (n vhNode) Identity() string                  { return n.id }
func (n vhNode) KnownAgents() []string             { return n.agents }
func (n vhNode) DataFuncMap() (ddl.FuncMap, error) { return ddl.FuncMap{}, nil }

func vhNum(tenths int, float bool) string {
	if !float && tenths%10 == 0 {
		return fmt.Sprint(tenths / 10)
	}
	s := fmt.Sprintf("%d.%d", abs(tenths)/10, abs(tenths)%10)
	if tenths < 0 {
		s = "-" + s
	}
	return s
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

func (v vhVal) json() string {
	switch v.T {
	case "int":
		return vhNum(v.N, false)
	case "float":
		return vhNum(v.N, true)
	case "text":
		j, _ := json.Marshal(v.S)
		return string(j)
	case "bool":
		return v.S
	case "null":
		return "null"
	case "object":
		return `{"v":1}`
	case "list":
		return `[1]`
	}
	panic(v.T)
}

func (v vhVal) lit() string {
	switch v.T {
	case "int":
		return vhNum(v.N, false)
	case "float":
		return vhNum(v.N, true)
	}
	return v.S
}

func TestVerif(t *testing.T) {
	in := struct {
		Filters []*vhFilterRow `json:"filters"`
		Ops     []*vhOpRow     `json:"ops"`
	}{}
	r := vhOpen(t, &in)
	defer r.Done()

	lg := logrus.New()
	lg.SetOutput(io.Discard)
	log := logrus.NewEntry(lg)
	td := t.TempDir()

	nodes := []vhNode{
		{"n1", []string{"rpcutil", "a1"}, []string{"c1", "role::web"}, `{"f":1,"s":"Abc","b":true,"nest":{"x":2.5},"l":["x",3]}`},
		{"n2", []string{"a1"}, nil, `{"f":2,"s":"zed","b":false}`},
		{"n3", nil, []string{"c1", "Role::DB"}, `{}`},
	}
	for _, n := range nodes {
		os.WriteFile(filepath.Join(td, n.id+".json"), []byte(n.facts), 0600)
		os.WriteFile(filepath.Join(td, n.id+".txt"), []byte(strings.Join(n.classes, "\n")+"\n"), 0600)
	}

	for i, c := range in.Filters {
		r.Case(c.ID)
		r.Step()
		f, err := filter.NewFilter(filter.IdentityFilter(c.R.Identity...), filter.AgentFilter(c.R.Agent...), filter.ClassFilter(c.R.Class...), filter.FactFilter(c.R.Fact...), filter.CompoundFilter(c.R.Compound...))
		if err != nil {
			r.Mismatch(c.ID, 0, "parse", "a filter", err.Error(), c)
			continue
		}
		// the way requests take: encoded and decoded
		var req, back protocol.Request
		if i%2 == 0 {
			req, _ = v2.NewRequest("a1", "s", "choria=me", 60, "01234567890123456789012345678901", "c")
			back, _ = v2.NewRequest("a1", "s", "choria=me", 60, "01234567890123456789012345678901", "c")
		} else {
			req, _ = v1.NewRequest("a1", "s", "choria=me", 60, "01234567890123456789012345678901", "c")
			back, _ = v1.NewRequest("a1", "s", "choria=me", 60, "01234567890123456789012345678901", "c")
		}
		req.SetMessage([]byte("{}"))
		req.SetFilter(f)
		j, err := req.JSON()
		if err == nil {
			err = json.Unmarshal(j, back)
		}
		if err != nil {
			r.Mismatch(c.ID, 0, "encode", "a request", err.Error(), c)
			continue
		}
		for _, n := range nodes {
			got := false
			if res := vhGuard(30*time.Second, func() { got = f.MatchServerRequest(back, n, log) }); res != "" {
				r.Mismatch(c.ID, 0, "crash", "a verdict", res, c)
				continue
			}
			if got != c.Sel[n.id] {
				key := "selected"
				if n.id == "n2" && got && strings.Contains(" "+strings.Join(c.R.Fact, " ")+" ", " b!=false ") {
					key = "false-not-equal"
				}
				r.Mismatch(c.ID, 0, key, c.Sel[n.id], got, n.id, c)
				continue
			}
			// the same from the files a node keeps
			fs, cs := filepath.Join(td, n.id+".json"), filepath.Join(td, n.id+".txt")
			all := true
			if len(c.R.Identity) > 0 {
				all = all && f.MatchIdentity(n.id)
			}
			if len(c.R.Agent) > 0 {
				all = all && f.MatchAgents(n.agents)
			}
			if len(c.R.Class) > 0 {
				all = all && f.MatchClassesFile(cs, log)
			}
			if len(c.R.Fact) > 0 {
				all = all && f.MatchFactsFile(fs, log)
			}
			if len(c.R.Compound) > 0 && n.id != "n3" { // a node without any facts reads as one without fact file
				all = all && f.MatchCompoundFiles(fs, cs, n.agents, log)
			}
			if all != got && !(len(c.R.Compound) > 0 && n.id == "n3") {
				r.Mismatch(c.ID, 0, "files", got, all, n.id, c)
			}
		}
	}

	type pair struct{ f, l string }
	seen := map[pair]map[string]bool{}
	kind := map[pair][2]string{}
	for _, c := range in.Ops {
		r.Case(c.ID)
		r.Step()
		doc := `{"other":7}`
		if c.R.Fact.T != "absent" {
			doc = `{"other":7,"x":{"y":` + c.R.Fact.json() + `}}`
		}
		var got bool
		var err error
		if res := vhGuard(30*time.Second, func() { got, err = facts.HasFactJSON("x.y", c.R.Op, c.R.Lit.lit(), json.RawMessage(doc), log) }); res != "" {
			r.Mismatch(c.ID, 0, "crash", "a verdict", res, c)
			continue
		}
		if err != nil && got {
			r.Mismatch(c.ID, 0, "error", "no match with an error", err.Error(), c)
		}
		if c.V != "any" && got != (c.V == "yes") {
			key := "operator"
			if c.R.Fact.T == "bool" && c.R.Fact.S == "false" && c.R.Op == "!=" {
				key = "false-not-equal"
			}
			r.Mismatch(c.ID, 0, key, c.V, fmt.Sprint(got, " ", err), c)
		}
		m := facts.MatchFacts([][3]string{{"other", "==", "7"}, {"x.y", c.R.Op, c.R.Lit.lit()}}, json.RawMessage(doc), log)
		m2 := facts.MatchFacts([][3]string{{"x.y", c.R.Op, c.R.Lit.lit()}, {"other", "==", "8"}}, json.RawMessage(doc), log)
		m3 := facts.MatchFacts([][3]string{{"x.y", c.R.Op, c.R.Lit.lit()}, {"other", "==", "7"}}, json.RawMessage(doc), log)
		if m != got || m2 || m3 != got {
			r.Mismatch(c.ID, 0, "conjunction", got, []bool{m, m2, m3}, c)
		}
		k := pair{doc, c.R.Lit.T + " " + c.R.Lit.lit()}
		if seen[k] == nil {
			seen[k] = map[string]bool{}
		}
		seen[k][c.R.Op] = got
		kind[k] = [2]string{c.R.Fact.T, c.R.Lit.T}

		// as typed
		if c.R.Op != "" && c.R.Op != "<>" && c.R.Op != "~" {
			want := map[string]string{"=": "==", "=>": ">=", "=<": "<="}[c.R.Op]
			if want == "" {
				want = c.R.Op
			}
			if strings.HasPrefix(c.R.Lit.lit(), "/") {
				want = "=~"
			}
			for _, s := range []string{"x.y" + c.R.Op + c.R.Lit.lit(), " x.y " + c.R.Op + "  " + c.R.Lit.lit() + " "} {
				p, err := facts.ParseFactFilterString(s)
				if err != nil || p != [3]string{"x.y", want, c.R.Lit.lit()} {
					r.Mismatch(c.ID, 0, "typed", []string{"x.y", want, c.R.Lit.lit()}, fmt.Sprint(p, err), s)
				}
			}
		}
	}

	for k, v := range seen {
		if _, ok := v["<"]; !ok {
			continue
		}
		switch kind[k][0] {
		case "int", "float", "text", "bool":
		default:
			continue
		}
		if v["!="] == v["=="] {
			key := "ne-eq"
			if k.f == `{"other":7,"x":{"y":false}}` {
				key = "false-not-equal"
			}
			r.Mismatch("", 0, key, "opposites", v, k.f, k.l)
		}
		if kind[k][0] == "bool" || (kind[k][0] != "text" && (kind[k][1] == "text" || kind[k][1] == "bool")) {
			continue
		}
		n := 0
		for _, o := range []string{"<", "==", ">"} {
			if v[o] {
				n++
			}
		}
		if n != 1 || v["<="] != (v["<"] || v["=="]) || v[">="] != (v[">"] || v["=="]) {
			r.Mismatch("", 0, "order", "one of less, equal and greater", v, k.f, k.l)
		}
	}
}
