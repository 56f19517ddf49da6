package vh

// Replays the request handling table into a real mcorpc agent.

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/choria-io/tokens"
	"github.com/sirupsen/logrus"
)

type vhCase struct {
	ID string `json:"id"`
	R  struct {
		Payload string `json:"payload"`
		Agent   string `json:"agent"`
		Action  string `json:"action"`
		Authz   string `json:"authz"`
		Caller  string `json:"caller"`
		Audit   string `json:"audit"`
		Outcome string `json:"outcome"`
	} `json:"r"`
	Status  string   `json:"status"`
	Ran     int      `json:"ran"`
	Audited int      `json:"audited"`
	Replies int      `json:"replies"`
	Log     []string `json:"log"`
}

type vhFW struct {
	inter.Framework
	cfg *config.Config
}

func (f vhFW) Configuration() *config.Config { return f.cfg }
func (f vhFW) ProvisionMode() bool           { return false }

type vhSI struct{ agents.ServerInfoSource }

func (vhSI) Facts() json.RawMessage { return json.RawMessage(`{}`) }
func (vhSI) Classes() []string      { return nil }
func (vhSI) KnownAgents() []string  { return nil }

type vhReq struct {
	protocol.Request
	pub string
}

func (r vhReq) CallerPublicData() string { return r.pub }
func (r vhReq) SignerPublicData() string { return "signer" }

type vhMsg struct {
	inter.Message
	p []byte
}

func (m vhMsg) Payload() []byte   { return m.p }
func (m vhMsg) RequestID() string { return "rid" }

const vhData = `{"x":"text","v":"a;b"}`

func (c *vhCase) payload() string {
	q := func(s string) string { j, _ := json.Marshal(s); return string(j) }
	head := fmt.Sprintf(`"agent":%s,"action":%s`, q(c.R.Agent), q(c.R.Action))
	switch c.R.Payload {
	case "ok":
		return `{` + head + `,"data":` + vhData + `}`
	case "nodata":
		return `{` + head + `}`
	case "nulldata":
		return `{` + head + `,"data":null}`
	case "listdata":
		return `{` + head + `,"data":[1,2]}`
	case "forged":
		return `{` + head + `,"data":` + vhData + `,"callerid":"choria=me.mcollective","requestid":"forged","senderid":"forged","collective":"forged","ttl":9999,"time":"2001-01-01T00:00:00Z","CallerPublicData":"forged","SignerPublicData":"forged","Filter":{"agent":["forged"]}}`
	case "extra":
		return `{"other":[{"a":null}],` + head + `,"data":` + vhData + `}`
	case "garbage":
		return `\x00\x01`
	case "empty":
		return ""
	case "text":
		return `"act"`
	case "list":
		return `[{` + head + `}]`
	case "null":
		return `null`
	case "badagent":
		return `{"agent":1,"action":` + q(c.R.Action) + `}`
	case "badaction":
		return `{"agent":` + q(c.R.Agent) + `,"action":["act"]}`
	case "trailing":
		return `{` + head + `}x`
	}
	panic(c.R.Payload)
}

var vhStatus = map[string]mcorpc.StatusCode{"OK": mcorpc.OK, "Aborted": mcorpc.Aborted, "UnknownAction": mcorpc.UnknownAction, "MissingData": mcorpc.MissingData, "InvalidData": mcorpc.InvalidData, "UnknownError": mcorpc.UnknownError}

func TestVerif(t *testing.T) {
	in := struct {
		Cases []*vhCase `json:"cases"`
	}{}
	r := vhOpen(t, &in)
	defer r.Done()

	lg := logrus.New()
	lg.SetOutput(io.Discard)
	logrus.SetOutput(io.Discard)
	log := logrus.NewEntry(lg)
	td := t.TempDir()
	ring := vhNewRing(r, td, "R", "K")
	tok := map[string]string{}
	tok["me"] = ring.Client("choria=me.mcollective", "K", "R", "ok", nil, func(c *tokens.ClientIDClaims) { c.AllowedAgents = []string{"ag.act"} })
	tok["other"] = ring.Client("choria=other.mcollective", "K", "R", "ok", nil, func(c *tokens.ClientIDClaims) { c.AllowedAgents = []string{"ag.nope", "other.*"} })
	if err := os.MkdirAll(filepath.Join(td, "policies"), 0700); err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"ag", "other"} {
		os.WriteFile(filepath.Join(td, "policies", n+".policy"), []byte("policy default deny\nallow\tchoria=me.mcollective\t*\t*\t*\n"), 0600)
	}

	for _, c := range in.Cases {
		r.Case(c.ID)
		r.Step()
		cfg, err := config.NewDefaultConfig()
		if err != nil {
			t.Fatal(err)
		}
		cfg.ConfigFile = filepath.Join(td, "server.conf")
		auditLog := filepath.Join(td, "audit-"+c.ID+".log")
		cfg.Choria.RPCAuditLogfile = auditLog
		cfg.Choria.RPCAuditLogFileMode = "0600"
		cfg.RPCAudit = c.R.Audit != "off"
		switch c.R.Audit {
		case "nofile":
			cfg.Choria.RPCAuditLogfile = ""
		case "badmode":
			cfg.Choria.RPCAuditLogFileMode = "zz"
		case "unwritable":
			cfg.Choria.RPCAuditLogfile = filepath.Join(td, "policies", "ag.policy", "x")
		}
		cfg.RPCAuthorization = c.R.Authz != "off"
		cfg.RPCAuthorizationProvider = map[string]string{"off": "action_policy", "policy": "action_policy", "token": "aaasvc", "unknown": "nothing"}[c.R.Authz]

		preq, err := v2.NewRequest("ag", "sender1", "choria="+c.R.Caller+".mcollective", 30, "rid-"+c.ID, "coll")
		if err != nil {
			t.Fatal(err)
		}
		f := protocol.NewFilter()
		f.AddAgentFilter("ag")
		preq.SetFilter(f)
		req := vhReq{preq, tok[c.R.Caller]}
		msg := vhMsg{p: []byte(c.payload())}

		readAudit := func() []string {
			b, err := os.ReadFile(auditLog)
			if err != nil {
				return nil
			}
			return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		}

		agent := mcorpc.New("ag", &agents.Metadata{Name: "ag", Timeout: 5}, vhFW{cfg: cfg}, log)
		agent.SetServerInfo(vhSI{})
		outbox := make(chan *agents.AgentReply, 10)
		ran := 0
		order := []string{}
		var seen *mcorpc.Request
		other := 0
		agent.MustRegisterAction("act", func(_ context.Context, q *mcorpc.Request, rep *mcorpc.Reply, _ *mcorpc.Agent, _ inter.ConnectorInfo) {
			if len(outbox) > 0 {
				r.Mismatch(c.ID, 0, "early-reply", "no reply before the action ran", len(outbox), c)
			}
			for range readAudit() {
				order = append(order, "audit")
			}
			ran++
			order = append(order, "run")
			seen = q
			rep.Data = map[string]any{"hello": "world"}
			set := func(s mcorpc.StatusCode) { rep.Statuscode = s; rep.Statusmsg = "said" }
			switch c.R.Outcome {
			case "aborts":
				set(mcorpc.Aborted)
			case "invalid":
				set(mcorpc.InvalidData)
			case "missing":
				set(mcorpc.MissingData)
			case "unknown", "outcome99":
				set(mcorpc.UnknownError)
			case "nodata":
				rep.Data = map[string]any{}
			case "nullreply":
				rep.Data = nil
			case "unencodable":
				rep.Data = make(chan int)
			case "silent":
				rep.DisableResponse = true
			case "silentfail":
				set(mcorpc.Aborted)
				rep.DisableResponse = true
			case "badparams":
				p := struct {
					X int `json:"x"`
				}{}
				mcorpc.ParseRequestData(&p, q, rep)
			case "validate":
				p := struct {
					V string `json:"v" validate:"shellsafe"`
				}{}
				mcorpc.ParseRequestData(&p, q, rep)
			}
		})
		agent.MustRegisterAction("second", func(_ context.Context, _ *mcorpc.Request, _ *mcorpc.Reply, _ *mcorpc.Agent, _ inter.ConnectorInfo) {
			other++
		})

		if res := vhGuard(30*time.Second, func() { agent.HandleMessage(context.Background(), msg, req, nil, outbox) }); res != "" {
			r.Mismatch(c.ID, 0, "crash", "the message is handled", res, c)
			continue
		}

		if ran > 1 || other > 0 {
			r.Mismatch(c.ID, 0, "actions", "the requested action at most once", []int{ran, other}, c)
		}
		n := len(outbox)
		if n > 1 {
			r.Mismatch(c.ID, 0, "replies", "at most one", n, c)
		}
		if c.R.Audit != "off" && c.R.Audit != "on" {
			continue // what a failing audit does to the request is not claimed
		}
		if ran != c.Ran {
			r.Mismatch(c.ID, 0, "ran", c.Ran, ran, c)
			continue
		}
		if n != c.Replies {
			r.Mismatch(c.ID, 0, "replies", c.Replies, n, c)
			continue
		}
		lines := readAudit()
		if len(lines) != c.Audited {
			r.Mismatch(c.ID, 0, "audited", c.Audited, lines, c)
			continue
		}
		for i := 0; i < n; i++ {
			order = append(order, "reply")
		}
		if ran == 1 && !vhSame(order, c.Log) {
			r.Mismatch(c.ID, 0, "order", c.Log, order, c)
		}

		if len(lines) == 1 {
			a := map[string]any{}
			json.Unmarshal([]byte(lines[0]), &a)
			data, _ := json.Marshal(a["data"])
			got := []any{a["request_id"], a["caller"], a["sender"], a["agent"], a["action"], string(data), a["request_time"]}
			want := []any{"rid-" + c.ID, preq.CallerID(), "sender1", c.R.Agent, c.R.Action, vhOrData(c.R.Payload, "{}"), float64(preq.Time().Unix())}
			if c.R.Payload == "nodata" {
				want[5] = "{}"
			}
			if !vhSame(got, want) {
				r.Mismatch(c.ID, 0, "audit-record", want, got, c)
			}
		}

		if seen != nil {
			want := []any{c.R.Agent, c.R.Action, "rid-" + c.ID, "sender1", preq.CallerID(), "coll", 30, preq.Time().UnixNano(), tok[c.R.Caller], "signer", []string{"ag"}, vhOrData(c.R.Payload, "{}")}
			got := []any{seen.Agent, seen.Action, seen.RequestID, seen.SenderID, seen.CallerID, seen.Collective, seen.TTL, seen.Time.UnixNano(), seen.CallerPublicData, seen.SignerPublicData, seen.Filter.AgentFilters(), vhCompact(seen.Data)}
			if !vhSame(want, got) {
				r.Mismatch(c.ID, 0, "request", want, got, c)
			}
		}

		if n == 0 {
			continue
		}
		rep := <-outbox
		if rep.Request.RequestID() != req.RequestID() || rep.Message.RequestID() != "rid" {
			r.Mismatch(c.ID, 0, "reply-to", "this request", rep.Request.RequestID(), c)
		}
		if c.Ran == 1 && c.R.Outcome == "unencodable" {
			if rep.Error == nil {
				r.Mismatch(c.ID, 0, "reply-error", "an error", string(rep.Body), c)
			}
			continue
		}
		if rep.Error != nil {
			r.Mismatch(c.ID, 0, "reply-error", "none", rep.Error.Error(), c)
			continue
		}
		body := struct {
			Action string            `json:"action"`
			Code   mcorpc.StatusCode `json:"statuscode"`
			Msg    string            `json:"statusmsg"`
			Data   json.RawMessage   `json:"data"`
		}{}
		if err := json.Unmarshal(rep.Body, &body); err != nil {
			r.Mismatch(c.ID, 0, "reply-body", "JSON", string(rep.Body), c)
			continue
		}
		if body.Code != vhStatus[c.Status] {
			r.Mismatch(c.ID, 0, "status", c.Status, body, c)
		}
		if (body.Code == mcorpc.OK) != (body.Msg == "OK") || body.Msg == "" {
			r.Mismatch(c.ID, 0, "message", "OK exactly when it was", body, c)
		}
		if c.Ran == 1 {
			if body.Action != "act" {
				r.Mismatch(c.ID, 0, "reply-action", "act", body.Action, c)
			}
			want := `{"hello":"world"}`
			if c.R.Outcome == "nodata" {
				want = `{}`
			}
			if c.R.Outcome != "nullreply" && string(body.Data) != want {
				r.Mismatch(c.ID, 0, "reply-data", want, string(body.Data), c)
			}
		} else if string(body.Data) != `{}` {
			r.Mismatch(c.ID, 0, "reply-data", "none", string(body.Data), c)
		}
	}
}

func vhOrData(payload, none string) string {
	switch payload {
	case "nodata":
		return none
	case "nulldata":
		return "null"
	case "listdata":
		return "[1,2]"
	}
	s := vhCompact(json.RawMessage(vhData))
	return s
}

func vhCompact(j json.RawMessage) string {
	var v any
	if err := json.Unmarshal(j, &v); err != nil {
		return string(j)
	}
	b, _ := json.Marshal(v)
	return string(b)
}
