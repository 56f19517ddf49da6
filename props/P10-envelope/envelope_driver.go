package vh

// Builds real messages of both protocol versions, changes them on the wire as the specification says, and unpacks them again.

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/tokens"
	"github.com/sirupsen/logrus"
)

type vhCase struct {
	ID string `json:"id"`
	R  struct {
		Ver    string `json:"ver"`
		Kind   string `json:"kind"`
		As     string `json:"as"`
		Fed    bool   `json:"fed"`
		Body   string `json:"body"`
		Filter string `json:"filter"`
		TTL    int    `json:"ttl"`
		Signed bool   `json:"signed"`
		T      struct {
			Layer string `json:"layer"`
			Field string `json:"field"`
			Op    string `json:"op"`
		} `json:"t"`
	} `json:"r"`
	OK  bool `json:"ok"`
	Hdr struct {
		Reply  string `json:"reply"`
		Sender string `json:"sender"`
		Fed    struct {
			ID      string `json:"id"`
			Reply   string `json:"reply"`
			Targets string `json:"targets"`
		} `json:"fed"`
	} `json:"hdr"`
}

const (
	vhID    = "0123456789abcdef0123456789abcdef"
	vhAltID = "fedcba9876543210fedcba9876543210"
)

func vhBody(b string) []byte {
	switch b {
	case "text":
		return []byte("hello world")
	case "empty":
		return []byte{}
	case "json":
		return []byte(`{"a":"\"quoted\"","b":[1,2,{"c":null}],"d":"<&>\u2028"}`)
	case "unicode":
		return []byte("héé\u2028 \x01\x7f \U0001F600 \\ \" /")
	case "binary":
		o := make([]byte, 0, 600)
		for i := 0; i < 600; i++ {
			o = append(o, byte(255-i%256))
		}
		return o
	case "large":
		return []byte(strings.Repeat("0123456789abcdef", 40000))
	}
	panic(b)
}

func vhFilter(f string) *protocol.Filter {
	o := protocol.NewFilter()
	switch f {
	case "full":
		o.AddAgentFilter("rpcutil")
		o.AddClassFilter("/role::.*/")
		o.AddIdentityFilter("node1.example")
		o.AddFactFilter("country", "==", "mt")
		o.AddFactFilter("a.b", ">=", "10")
	case "agents":
		o.AddAgentFilter("rpcutil")
		o.AddAgentFilter("other")
	case "compound":
		o.AddCompoundFilter(`with("country=mt") and not with("x")`)
	}
	return o
}

// JSON names of the fields of each layer
var vhNames = map[string]map[string]string{
	"v1request": {"body": "message", "id": "envelope.requestid", "agent": "envelope.agent", "sender": "envelope.senderid", "time": "envelope.time", "caller": "envelope.callerid", "coll": "envelope.collective", "ttl": "envelope.ttl", "filter": "envelope.filter", "proto": "protocol", "sbody": "message", "smac": "signature", "scred": "pubcert"},
	"v1reply":   {"body": "message", "id": "envelope.requestid", "agent": "envelope.agent", "sender": "envelope.senderid", "time": "envelope.time", "proto": "protocol", "sbody": "message", "smac": "hash"},
	"v2request": {"body": "message", "id": "id", "agent": "agent", "sender": "sender", "time": "time", "caller": "caller", "coll": "collective", "ttl": "ttl", "filter": "filter", "proto": "protocol", "sbody": "request", "smac": "signature", "scred": "caller"},
	"v2reply":   {"body": "message", "id": "request", "agent": "agent", "sender": "sender", "time": "time", "proto": "protocol", "sbody": "reply", "smac": "hash"},
}

var vhHdrNames = map[string]map[string]string{
	"v1": {"reply": "reply-to", "sender": "mc_sender", "fed": "federation", "fedid": "federation.req", "fedreply": "federation.reply-to", "fedtargets": "federation.target"},
	"v2": {"reply": "reply", "sender": "sender", "fed": "federation", "fedid": "federation.request", "fedreply": "federation.reply", "fedtargets": "federation.targets"},
}

var vhProtos = map[string]string{
	"innerv1request": "choria:request:1", "innerv1reply": "choria:reply:1", "innerv2request": "io.choria.protocol.v2.request", "innerv2reply": "io.choria.protocol.v2.reply",
	"securev1request": "choria:secure:request:1", "securev1reply": "choria:secure:reply:1", "securev2request": "io.choria.protocol.v2.secure_request", "securev2reply": "io.choria.protocol.v2.secure_reply",
	"transportv1request": "choria:transport:1", "transportv1reply": "choria:transport:1", "transportv2request": "io.choria.protocol.v2.transport", "transportv2reply": "io.choria.protocol.v2.transport",
}

func vhOther(s string) string {
	return map[string]string{"v1": "v2", "v2": "v1", "request": "reply", "reply": "request"}[s]
}

func vhProto(op, layer, ver, kind string) any {
	switch op {
	case "otherver":
		return vhProtos[layer+vhOther(ver)+kind]
	case "otherkind":
		return vhProtos[layer+ver+vhOther(kind)]
	case "inner":
		return vhProtos["inner"+ver+kind]
	}
	return "io.choria.protocol.v9.strange"
}

func vhDecode(b []byte) map[string]any {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	m := map[string]any{}
	if err := d.Decode(&m); err != nil {
		panic(fmt.Sprintf("%v: %s", err, b))
	}
	return m
}

func vhEncode(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func vhParent(m map[string]any, path string) (map[string]any, string) {
	if p := strings.Index(path, "."); p >= 0 && m[path[:p]] != nil {
		if n, ok := m[path[:p]].(map[string]any); ok {
			return n, path[p+1:]
		}
	}
	return m, path
}

// changes one field in a document
func vhChange(m map[string]any, path, op string, alt any) {
	n, k := vhParent(m, path)
	switch op {
	case "absent":
		delete(n, k)
	case "null":
		n[k] = nil
	case "empty":
		switch n[k].(type) {
		case map[string]any:
			n[k] = map[string]any{}
		case json.Number:
			n[k] = 0
		default:
			n[k] = ""
		}
	case "type":
		switch n[k].(type) {
		case string:
			n[k] = []any{1, "x"}
		default:
			n[k] = "a string"
		}
	default:
		n[k] = alt
	}
}

func vhB64Flip(s string, trunc bool) string {
	if b, err := base64.StdEncoding.DecodeString(s); err == nil && len(b) > 0 {
		if trunc {
			b = b[:len(b)/2]
		} else {
			b[len(b)/2] ^= 1
		}
		return base64.StdEncoding.EncodeToString(b)
	}
	panic("not base64: " + s)
}

type vhGot struct {
	Err  string
	What map[string]any
	Hdr  map[string]any
}

func TestVerif(t *testing.T) {
	in := struct {
		Cases []vhCase `json:"cases"`
	}{}
	r := vhOpen(t, &in)
	dir := t.TempDir()
	logrus.SetOutput(io.Discard)
	k := vhNewRing(r, dir, "A", "X", "caller", "stranger", "node")
	ca := vhNewCA(r, dir, "ca")
	put := func(name string, data []byte) string {
		f := filepath.Join(dir, name)
		if err := os.WriteFile(f, data, 0600); err != nil {
			r.Error("%v", err)
		}
		return f
	}
	leaf := ca.Leaf(r, vhCertSpec{CN: "me.mcollective", SANs: []string{"me.mcollective"}})
	stranger := ca.Leaf(r, vhCertSpec{CN: "stranger.mcollective", SANs: []string{"stranger.mcollective"}})

	newfw := func(ver string, signed bool) *choria.Framework {
		cfg := config.NewConfigForTests()
		cfg.Collectives = []string{"mcollective", "other"}
		cfg.MainCollective = "mcollective"
		cfg.Identity = "node1.example"
		cfg.LogLevel = "fatal"
		cfg.LogFile = "discard"
		if ver == "v1" {
			cfg.Identity = "me.mcollective"
			cfg.Choria.SecurityProvider = "file"
			cfg.Choria.CertnameAllowList = []string{`\.mcollective$`, `^me`}
			cfg.Choria.FileSecurityCertificate = put("me.pem", leaf.cert)
			cfg.Choria.FileSecurityKey = put("me.key", leaf.key)
			cfg.Choria.FileSecurityCA = ca.file
			cfg.SetOption("plugin.security.file.identity", "me.mcollective")
		} else {
			cfg.Choria.SecurityProvider = "choria"
			cfg.DisableSecurityProviderVerify = true
			cfg.Choria.ChoriaSecuritySeedFile = k.Seed("caller")
			cfg.Choria.ChoriaSecurityTokenFile = put("caller.jwt", []byte(k.Client("up=me", "caller", "A", "ok", &tokens.ClientPermissions{FleetManagement: true}, nil)))
			cfg.Choria.ChoriaSecurityTrustedSigners = []string{k.Hex("A")}
			cfg.Choria.ChoriaSecuritySignReplies = signed
		}
		fw, err := choria.NewWithConfig(cfg)
		if err != nil {
			r.Error("framework %s: %v", ver, err)
		}
		return fw
	}
	fws := map[string]*choria.Framework{"v1": newfw("v1", false), "v2": newfw("v2", false), "v2s": newfw("v2", true)}
	strangerToken := k.Client("up=me", "stranger", "A", "ok", &tokens.ClientPermissions{FleetManagement: true}, nil)
	caller := map[string]string{"v1": "choria=me.mcollective", "v2": "up=me"}

	for _, c := range in.Cases {
		c := c
		r.Case(c.ID)
		r.Step()
		fw := fws[c.R.Ver]
		if c.R.Signed {
			fw = fws["v2s"]
		}
		names := vhNames[c.R.Ver+c.R.Kind]
		body := vhBody(c.R.Body)
		rver := protocol.RequestV1
		if c.R.Ver == "v2" {
			rver = protocol.RequestV2
		}

		// what is sent
		req, err := fw.NewRequest(rver, "rpcutil", "sender.example", caller[c.R.Ver], c.R.TTL, vhID, "mcollective")
		if err != nil {
			r.Error("%s: request: %v", c.ID, err)
		}
		var tr protocol.TransportMessage
		want := map[string]any{"id": vhID, "agent": "rpcutil", "body": base64.StdEncoding.EncodeToString(body)}
		if c.R.Kind == "request" {
			req.SetMessage(body)
			req.SetFilter(vhFilter(c.R.Filter))
			sr, err := fw.NewSecureRequest(context.Background(), req)
			if err != nil {
				r.Error("%s: secure request: %v", c.ID, err)
			}
			tr, err = fw.NewTransportForSecureRequest(sr)
			if err != nil {
				r.Error("%s: transport: %v", c.ID, err)
			}
			want["sender"], want["caller"], want["coll"], want["ttl"], want["time"] = "sender.example", caller[c.R.Ver], "mcollective", c.R.TTL, req.Time().UnixNano()
			want["filter"] = string(vhEncode(vhFilter(c.R.Filter)))
		} else {
			req.SetMessage([]byte("the request"))
			rep, err := fw.NewReply(req)
			if err != nil {
				r.Error("%s: reply: %v", c.ID, err)
			}
			rep.SetMessage(body)
			sr, err := fw.NewSecureReply(rep)
			if err != nil {
				r.Error("%s: secure reply: %v", c.ID, err)
			}
			tr, err = fw.NewTransportForSecureReply(sr)
			if err != nil {
				r.Error("%s: transport: %v", c.ID, err)
			}
			want["sender"], want["time"] = fw.Configuration().Identity, rep.Time().UnixNano()
		}
		tr.SetReplyTo("rt")
		tr.SetSender("snd")
		if c.R.Fed {
			tr.SetFederationRequestID("fid")
			tr.SetFederationReplyTo("freply")
			tr.SetFederationTargets([]string{"node1.example", "node2.example"})
		}
		wire, err := tr.JSON()
		if err != nil {
			r.Error("%s: transport JSON: %v", c.ID, err)
		}

		receive := func(wire []byte) (g vhGot) {
			bad := vhGuard(20*time.Second, func() {
				// headers are read as every receiver does
				if m, err := fw.NewTransportFromJSON(wire); err == nil {
					rid, _ := m.FederationRequestID()
					rt, _ := m.FederationReplyTo()
					tg, _ := m.FederationTargets()
					g.Hdr = map[string]any{"reply": m.ReplyTo(), "sender": m.SenderID(), "fedid": rid, "fedreply": rt, "fedtargets": strings.Join(tg, ","), "isfed": m.IsFederated()}
					m.SeenBy()
				}
				if c.R.As == "request" {
					q, err := fw.NewRequestFromTransportJSON(wire, false)
					if err != nil {
						g.Err = err.Error()
						return
					}
					f, _ := q.Filter()
					g.What = map[string]any{"id": q.RequestID(), "agent": q.Agent(), "body": base64.StdEncoding.EncodeToString(q.Message()), "sender": q.SenderID(), "caller": q.CallerID(),
						"coll": q.Collective(), "ttl": q.TTL(), "time": q.Time().UnixNano(), "filter": string(vhEncode(f))}
					if id, _ := q.FederationRequestID(); id != g.Hdr["fedid"] {
						g.What["fed"] = "request id lost"
					}
					if rt, _ := q.FederationReplyTo(); rt != g.Hdr["fedreply"] {
						g.What["fed"] = "reply target lost"
					}
					if tg, _ := q.FederationTargets(); strings.Join(tg, ",") != g.Hdr["fedtargets"] {
						g.What["fed"] = "targets lost"
					}
				} else {
					q, err := fw.NewReplyFromTransportJSON(wire, false)
					if err != nil {
						g.Err = err.Error()
						return
					}
					g.What = map[string]any{"id": q.RequestID(), "agent": q.Agent(), "body": base64.StdEncoding.EncodeToString(q.Message()), "sender": q.SenderID(), "time": q.Time().UnixNano()}
					if id, _ := q.FederationRequestID(); id != g.Hdr["fedid"] {
						g.What["fed"] = "request id lost"
					}
				}
			})
			if bad != "" {
				g.Err = "crash: " + bad
				g.What = nil
				r.Mismatch(c.ID, 0, "crash", "no crash", bad, c.R)
			}
			return g
		}

		// what the wire makes of it
		T := c.R.T
		if T.Layer == "bytes" {
			data, _ := base64.StdEncoding.DecodeString(vhDecode(wire)["data"].(string))
			for i := range data {
				var n []byte
				switch T.Op {
				case "flip":
					n = append([]byte{}, data...)
					n[i] ^= 1 << (i % 7)
				case "drop":
					n = append(append([]byte{}, data[:i]...), data[i+1:]...)
				case "dup":
					n = append(append(append([]byte{}, data[:i]...), data[i]), data[i:]...)
				}
				m := vhDecode(wire)
				m["data"] = base64.StdEncoding.EncodeToString(n)
				g := receive(vhEncode(m))
				r.Step()
				if g.What != nil && !vhSame(g.What, want) {
					r.Mismatch(c.ID, i, "tampered", want, g.What, c.R)
					break
				}
			}
			continue
		}
		m := vhDecode(wire)
		raw := []byte(nil)
		unpack := func() (map[string]any, map[string]any) {
			data, _ := base64.StdEncoding.DecodeString(m["data"].(string))
			s := vhDecode(data)
			body := s[names["sbody"]].(string)
			if c.R.Ver == "v2" {
				b, _ := base64.StdEncoding.DecodeString(body)
				body = string(b)
			}
			return s, vhDecode([]byte(body))
		}
		packInner := func(s map[string]any, i map[string]any) []byte {
			j := vhEncode(i)
			if c.R.Ver == "v2" {
				s[names["sbody"]] = base64.StdEncoding.EncodeToString(j)
			} else {
				s[names["sbody"]] = string(j)
			}
			return j
		}
		packSecure := func(s any) { m["data"] = base64.StdEncoding.EncodeToString(vhEncode(s)) }
		altInner := func(i map[string]any, f string) any {
			switch f {
			case "body":
				if c.R.Ver == "v2" {
					return base64.StdEncoding.EncodeToString([]byte("altered"))
				}
				return "altered"
			case "id":
				return vhAltID
			case "agent":
				return "package"
			case "sender":
				return "evil.example"
			case "caller":
				return strings.Replace(caller[c.R.Ver], "me", "other", 1)
			case "coll":
				return "other"
			case "ttl":
				return 61
			case "time":
				n, key := vhParent(i, names["time"])
				v, _ := n[key].(json.Number).Int64()
				return v + 1
			case "filter":
				return vhFilter("agents")
			}
			panic(f)
		}

		switch {
		case T.Layer == "none":

		case T.Layer == "inner" || T.Layer == "rehash":
			s, i := unpack()
			if T.Field == "env" {
				i["envelope"] = nil
			} else if T.Field == "proto" {
				switch T.Op {
				case "absent", "null":
					vhChange(i, "protocol", T.Op, nil)
				default:
					i["protocol"] = vhProto(T.Op, "inner", c.R.Ver, c.R.Kind)
				}
			} else {
				var alt any
				if T.Op == "alt" {
					alt = altInner(i, T.Field)
				}
				vhChange(i, names[T.Field], T.Op, alt)
			}
			j := packInner(s, i)
			if T.Layer == "rehash" {
				h := sha256.Sum256(j)
				s["hash"] = base64.StdEncoding.EncodeToString(h[:])
			}
			packSecure(s)

		case T.Layer == "secure" && T.Field == "whole":
			data, _ := base64.StdEncoding.DecodeString(m["data"].(string))
			switch T.Op {
			case "null":
				data = []byte("null")
			case "list":
				data = []byte("[]")
			case "string":
				data = []byte(`"x"`)
			case "emptyobj":
				data = []byte("{}")
			case "trunc":
				data = data[:len(data)/2]
			case "garbage":
				data = []byte("\x00\x01garbage")
			}
			m["data"] = base64.StdEncoding.EncodeToString(data)

		case T.Layer == "secure":
			s, i := unpack()
			switch T.Field {
			case "mac":
				var alt any
				if T.Op == "alt" || T.Op == "trunc" {
					alt = vhB64Flip(s[names["smac"]].(string), T.Op == "trunc")
				}
				vhChange(s, names["smac"], T.Op, alt)
			case "cred":
				var alt any
				switch {
				case T.Op == "stranger" && c.R.Ver == "v1":
					alt = string(stranger.cert)
				case T.Op == "stranger":
					alt = strangerToken
				case T.Op == "alt" && c.R.Ver == "v1":
					o := s["pubcert"].(string)
					p := len(o) / 2
					ch := "A"
					if o[p] == 'A' || o[p] == '\n' {
						p++
						ch = "B"
					}
					alt = o[:p] + ch + o[p+1:]
				case T.Op == "alt":
					o := s["caller"].(string)
					p := strings.LastIndex(o, ".") + 10
					ch := "A"
					if o[p] == 'A' {
						ch = "B"
					}
					alt = o[:p] + ch + o[p+1:]
				}
				vhChange(s, names["scred"], T.Op, alt)
			case "proto":
				if T.Op == "null" {
					s["protocol"] = nil
				} else {
					s["protocol"] = vhProto(T.Op, "secure", c.R.Ver, c.R.Kind)
				}
			case "body":
				if T.Op == "replay" {
					// another, otherwise valid, message under this one's integrity data
					vhChange(i, names["body"], "alt", altInner(i, "body"))
					vhChange(i, names["id"], "alt", vhAltID)
					packInner(s, i)
				} else {
					vhChange(s, names["sbody"], T.Op, nil)
				}
			}
			packSecure(s)

		case T.Layer == "transport" && T.Field == "whole":
			switch T.Op {
			case "null":
				raw = []byte("null")
			case "list":
				raw = []byte("[]")
			case "emptyobj":
				raw = []byte("{}")
			case "trunc":
				raw = wire[:len(wire)/2]
			case "garbage":
				raw = []byte("\x00garbage")
			case "empty":
				raw = []byte{}
			}

		case T.Layer == "transport":
			if T.Field == "proto" {
				switch T.Op {
				case "absent", "null":
					vhChange(m, "protocol", T.Op, nil)
				default:
					m["protocol"] = vhProto(T.Op, "transport", c.R.Ver, c.R.Kind)
				}
			} else {
				vhChange(m, "data", T.Op, nil)
			}

		case T.Layer == "header":
			if T.Field == "all" {
				vhChange(m, "headers", T.Op, nil)
			} else {
				var alt any = "alt"
				if T.Field == "fedtargets" {
					alt = []string{"alt"}
				}
				vhChange(m["headers"].(map[string]any), vhHdrNames[c.R.Ver][T.Field], T.Op, alt)
			}

		default:
			r.Error("unknown change %v", T)
		}
		if raw == nil {
			raw = vhEncode(m)
		}

		g := receive(raw)
		if strings.HasPrefix(g.Err, "crash") {
			continue
		}
		if (g.What != nil) != c.OK {
			r.Mismatch(c.ID, 0, "accepted", c.OK, g.What != nil, c.R, g.Err)
			continue
		}
		r.Count(fmt.Sprintf("accepted_%v", c.OK))
		if !c.OK {
			continue
		}
		if !vhSame(g.What, want) {
			r.Mismatch(c.ID, 0, "content", want, g.What, c.R)
			continue
		}
		tg := map[string]string{"two": "node1.example,node2.example", "none": "", "alt": "alt"}[c.Hdr.Fed.Targets]
		isfed := c.R.Fed && T.Field != "fed" && T.Field != "all"
		wh := map[string]any{"reply": c.Hdr.Reply, "sender": c.Hdr.Sender, "fedid": c.Hdr.Fed.ID, "fedreply": c.Hdr.Fed.Reply, "fedtargets": tg, "isfed": isfed}
		if !vhSame(g.Hdr, wh) {
			r.Mismatch(c.ID, 0, "headers", wh, g.Hdr, c.R)
		}
	}
	r.Done()
}
