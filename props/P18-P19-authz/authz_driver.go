package vh

// Replays the authorisation tables into mcorpc.AuthorizeRequest with real policy files, tokens and Rego policies.

import (
	"encoding/json"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/choria-io/tokens"
	"github.com/sirupsen/logrus"
)

type vhLine struct {
	K  string `json:"k"`
	V  string `json:"v"`
	C  string `json:"c"`
	A  string `json:"a"`
	F  string `json:"f"`
	Cl string `json:"cl"`
}

type vhPolicyRow struct {
	ID string `json:"id"`
	R  struct {
		File    []vhLine `json:"file"`
		Own     bool     `json:"own"`
		Def     string   `json:"def"`
		UseDef  string   `json:"usedef"`
		Uncon   string   `json:"uncon"`
		Facts   string   `json:"facts"`
		Classes string   `json:"classes"`
	} `json:"r"`
	OK bool `json:"ok"`
}

type vhTokenRow struct {
	ID string `json:"id"`
	R  struct {
		Prov   string   `json:"prov"`
		Authz  bool     `json:"authz"`
		Agent  string   `json:"agent"`
		Action string   `json:"action"`
		List   []string `json:"list"`
		Rego   string   `json:"rego"`
		Tok    string   `json:"tok"`
		Filter string   `json:"filter"`
		Data   string   `json:"data"`
		Files  string   `json:"files"`
		Req    string   `json:"req"`
	} `json:"r"`
	V string `json:"v"`
}

type vhSI struct{ agents.ServerInfoSource }

func (vhSI) Facts() json.RawMessage { return json.RawMessage(`{"f":1,"n":5,"country":"mt"}`) }
func (vhSI) Classes() []string      { return []string{"c1", "c2"} }
func (vhSI) KnownAgents() []string  { return []string{"ag", "rpcutil"} }
func (vhSI) Identity() string       { return "n1" }

type vhFW struct{ inter.Framework }

func (vhFW) ProvisionMode() bool { return false }

var vhCaller = map[string]string{"*": "*", "me": "choria=me.mcollective", "other": "choria=other.mcollective", "other me": "choria=other.mcollective choria=me.mcollective", "me other": "choria=me.mcollective choria=other.mcollective", "re": "/^choria=m/", "renot": "/^choria=z/", "rebad": "/(me/", "rebad me": "/(me/ choria=me.mcollective", "me rebad": "choria=me.mcollective /(me/", "unclosed": "/choria", "ME": "choria=ME.mcollective", "unclosed me": "/choria choria=me.mcollective", "me unclosed": "choria=me.mcollective /choria", "g": "gee", "h": "haa", "h g": "haa choria=zed gee", "me2": "choria=me.mcollective2", "prefix": "choria=me"}
var vhFact = map[string]string{"f=1 n=5": "f=1 n=5", "f=1 n=6": "f=1 n=6", "n>4": "n>4", "n>5": "n>5", "f!=1": "f!=1", "nof=1": "nof=1", "re": "f=~^[1]$", "junk": "junk", "f=1 junk": "f=1 junk", "cnot": "!f=2", "cnote": "f=1 and n=5", "cparen": "(f=1)"}
var vhClass = map[string]string{"re": "/^C[12]$/", "renot": "/^c[34]$/", "fact": "f=1", "cand": "c1 and c2"}

func vhOr(m map[string]string, k string) string {
	if v, ok := m[k]; ok {
		return v
	}
	return k
}

func (l vhLine) text(t *testing.T) string {
	switch l.K {
	case "comment":
		return "# allow\t*\t*\t*\t*"
	case "blank":
		return "   "
	case "defallow":
		return "policy default allow"
	case "defdeny":
		return "policy default deny"
	case "defjunk":
		return "policy\tdefault\tmaybe"
	case "spaces":
		return "allow choria=me.mcollective * * *"
	case "words":
		return "grant everything please"
	case "rule":
		cols := []string{l.V, vhOr(vhCaller, l.C), l.A, vhOr(vhFact, l.F)}
		if l.Cl != "missing" {
			cols = append(cols, vhOr(vhClass, l.Cl))
		}
		return strings.Join(cols, "\t")
	}
	t.Fatal(l.K)
	return ""
}

func vhWrite(t *testing.T, f, s string) {
	os.MkdirAll(filepath.Dir(f), 0700)
	if err := os.WriteFile(f, []byte(s), 0600); err != nil {
		t.Fatal(err)
	}
}

func vhPolicyCase(t *testing.T, c *vhPolicyRow, cfg *config.Config) {
	dir := filepath.Join(filepath.Dir(cfg.ConfigFile), "policies")
	lines := []string{}
	for _, l := range c.R.File {
		lines = append(lines, l.text(t))
	}
	vhWrite(t, filepath.Join(dir, "groups"), "# groups\n\nbad\nno/name choria=me.mcollective\nhaa choria=other.mcollective\ngee choria=x choria=me.mcollective choria=y\n")
	if c.R.Own {
		vhWrite(t, filepath.Join(dir, "ag.policy"), strings.Join(lines, "\n")+"\n")
	} else {
		vhWrite(t, filepath.Join(dir, "other.policy"), strings.Join(lines, "\n")+"\n")
	}
	switch c.R.Def {
	case "allow", "deny":
		vhWrite(t, filepath.Join(dir, "default.policy"), c.R.Def+"\t*\t*\t*\t*\n")
	case "othername":
		vhWrite(t, filepath.Join(dir, "fallback.policy"), "allow\t*\t*\t*\t*\n")
	}
	switch c.R.UseDef {
	case "":
	case "named":
		cfg.SetOption("plugin.actionpolicy.enable_default", "1")
		cfg.SetOption("plugin.actionpolicy.default_name", "fallback")
	default:
		cfg.SetOption("plugin.actionpolicy.enable_default", c.R.UseDef)
	}
	if c.R.Uncon != "" {
		cfg.SetOption("plugin.actionpolicy.allow_unconfigured", c.R.Uncon)
	}
	cfg.FactSourceFile = filepath.Join(dir, "facts.json")
	switch c.R.Facts {
	case "ok":
		vhWrite(t, cfg.FactSourceFile, `{"f":1,"n":5}`)
	case "broken":
		vhWrite(t, cfg.FactSourceFile, `{"f":1,"n":5`)
	}
	cfg.ClassesFile = filepath.Join(dir, "classes.txt")
	switch c.R.Classes {
	case "ok":
		vhWrite(t, cfg.ClassesFile, "c1\nc2\n")
	case "unset":
		cfg.ClassesFile = ""
	}
	cfg.RPCAuthorizationProvider = "action_policy"
}

func vhRego(kind, pkg string) string {
	head := "package " + pkg + "\n\ndefault allow := false\n\n"
	body := map[string]string{
		"yes":         "allow if { true }",
		"no":          "allow if { false }",
		"agent":       `allow if { input.agent == "ag" }`,
		"action":      `allow if { input.action == "ac" }`,
		"data":        `allow if { input.data.x == 1 }`,
		"claims":      `allow if { input.claims.callerid == "choria=me.mcollective" }`,
		"filter":      "allow if { requires_filter() }",
		"class":       `allow if { requires_class_filter("web") }`,
		"noclass":     `allow if { requires_class_filter("we") }`,
		"identity":    `allow if { requires_identity_filter("n1") }`,
		"noidentity":  `allow if { requires_identity_filter("n") }`,
		"fact":        `allow if { requires_fact_filter("country=mt") }`,
		"nofact":      `allow if { requires_fact_filter("country=mx") }`,
		"factop":      `allow if { requires_fact_filter("country!=mt") }`,
		"collective":  `allow if { input.collective == "mcollective" }`,
		"two":         "allow if {\n input.agent == \"ag\"\n input.data.x == 1\n}",
		"either":      "allow if { input.agent == \"ag\" }\n\nallow if { input.data.x == 1 }",
		"undefinedfn": "allow if { no_such_function(\"x\") }",
		"syntax":      "allow if { true",
	}
	switch kind {
	case "none":
		return "# nothing\n"
	case "nodefault":
		return "package " + pkg + "\n\nallow if { input.agent == \"ag\" }\n"
	case "nodefaultno":
		return "package " + pkg + "\n\nallow if { false }\n"
	case "text":
		return "package " + pkg + "\n\nallow := \"true\"\n"
	case "number":
		return "package " + pkg + "\n\nallow := 1\n"
	case "package":
		return "package " + pkg + "x\n\nallow := true\n"
	}
	b, ok := body[kind]
	if !ok {
		panic(kind)
	}
	return head + b + "\n"
}

func vhTokenCase(t *testing.T, c *vhTokenRow, cfg *config.Config, req *mcorpc.Request, ring *vhRing) {
	dir := filepath.Join(filepath.Dir(cfg.ConfigFile), "policies")
	cfg.RPCAuthorization = c.R.Authz
	cfg.RPCAuthorizationProvider = c.R.Prov
	req.Agent, req.Action = c.R.Agent, c.R.Action
	req.Data = json.RawMessage(map[string]string{"x1": `{"x":1}`, "x2": `{"x":2}`, "list": `[1]`, "null": `null`}[c.R.Data])

	has := func(k string) bool { return c.R.Filter == "full" || c.R.Filter == k }
	req.Filter = protocol.NewFilter()
	req.Filter.AddAgentFilter(c.R.Agent)
	if has("classonly") {
		req.Filter.AddClassFilter("app")
		req.Filter.AddClassFilter("web")
	}
	if has("idonly") {
		req.Filter.AddIdentityFilter("n1")
	}
	if has("factonly") {
		req.Filter.AddFactFilter("country", "==", "mt")
	}
	if has("compound") {
		req.Filter.AddCompoundFilter("with('x')")
	}

	regoPkg := "io.choria.aaasvc"
	if c.R.Prov == "rego_policy" {
		regoPkg = "io.choria.mcorpc.authpolicy"
		p := vhRego(c.R.Rego, regoPkg)
		deny := vhRego("no", regoPkg)
		own, def := filepath.Join(dir, "rego", "ag.rego"), filepath.Join(dir, "rego", "default.rego")
		switch c.R.Files {
		case "own":
			vhWrite(t, own, p)
		case "default":
			vhWrite(t, def, p)
		case "both":
			vhWrite(t, own, deny)
			vhWrite(t, def, p)
		case "ownno":
			vhWrite(t, own, p)
			vhWrite(t, def, deny)
		}
	}

	switch c.R.Tok {
	case "ok":
		req.CallerPublicData = ring.Client("choria=me.mcollective", "K", "R", "ok", nil, func(cl *tokens.ClientIDClaims) {
			cl.AllowedAgents = c.R.List
			if c.R.Rego != "none" && c.R.Prov != "rego_policy" {
				cl.OPAPolicy = vhRego(c.R.Rego, regoPkg)
			}
		})
	case "server":
		req.CallerPublicData = ring.Server("n1", "K", "R", "ok", nil)
	case "garbage":
		req.CallerPublicData = "not.a.token"
	case "empty":
		req.CallerPublicData = "{}"
	case "none":
	}
}

func TestVerif(t *testing.T) {
	in := struct {
		Policy []*vhPolicyRow `json:"policy"`
		Token  []*vhTokenRow  `json:"token"`
		Cases  []any          `json:"cases"`
	}{}
	r := vhOpen(t, &in)
	defer r.Done()

	lg := logrus.New()
	lg.SetOutput(io.Discard)
	log := logrus.NewEntry(lg)
	td := t.TempDir()
	ring := vhNewRing(r, td, "R", "K")

	mk := func() (*config.Config, *mcorpc.Request, string) {
		dir, err := os.MkdirTemp(td, "c")
		if err != nil {
			t.Fatal(err)
		}
		cfg, err := config.NewDefaultConfig()
		if err != nil {
			t.Fatal(err)
		}
		cfg.ConfigFile = filepath.Join(dir, "server.conf")
		cfg.RPCAuthorization = true
		f := protocol.NewFilter()
		f.AddAgentFilter("ag")
		return cfg, &mcorpc.Request{Agent: "ag", Action: "act", CallerID: "choria=me.mcollective", Collective: "mcollective", SenderID: "n1", RequestID: "1", TTL: 60, Time: time.Now(), Data: json.RawMessage(`{"x":1}`), Filter: f}, dir
	}

	for _, c := range in.Policy {
		r.Case(c.ID)
		r.Step()
		cfg, req, dir := mk()
		vhPolicyCase(t, c, cfg)
		got := false
		if res := vhGuard(30*time.Second, func() { got = mcorpc.AuthorizeRequest(vhFW{}, req, cfg, vhSI{}, log) }); res != "" {
			r.Mismatch(c.ID, 0, "crash", "a verdict", res, c)
		} else if got != c.OK {
			r.Mismatch(c.ID, 0, "verdict", c.OK, got, c)
		}
		os.RemoveAll(dir)
	}

	for _, c := range in.Token {
		r.Case(c.ID)
		r.Step()
		cfg, req, dir := mk()
		vhTokenCase(t, c, cfg, req, ring)
		var si agents.ServerInfoSource = vhSI{}
		switch c.R.Req {
		case "nil":
			req = nil
		case "noagent":
			req.Agent = ""
		case "nosi":
			si = nil
		case "nocfg":
			cfg = nil
		}
		got := false
		if res := vhGuard(30*time.Second, func() { got = mcorpc.AuthorizeRequest(vhFW{}, req, cfg, si, log) }); res != "" {
			r.Mismatch(c.ID, 0, "crash", "a verdict", res, c)
		} else if c.V != "any" && got != (c.V == "yes") {
			r.Mismatch(c.ID, 0, "verdict", c.V, got, c)
		}
		os.RemoveAll(dir)
	}
}
