package vh

import (
	"context"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/choria-io/go-choria/build"
	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/lifecycle"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/golang/provision"
	"github.com/choria-io/go-choria/server/agents"
)

type pvAct struct {
	X     string `json:"x"`
	C     string `json:"c"`
	T     string `json:"t"`
	B     string `json:"b"`
	Ok    bool   `json:"ok"`
	Early bool   `json:"early"`
}
type pvState struct {
	Mode   string `json:"mode"`
	Token  bool   `json:"token"`
	File   string `json:"file"`
	Holder string `json:"holder"`
	Cfg    string `json:"cfg"`
	Seed   bool   `json:"seed"`
	Jwt    bool   `json:"jwt"`
	Ecdh   bool   `json:"ecdh"`
}
type pvCase struct {
	ID    string  `json:"id"`
	Kind  string  `json:"kind"`
	Init  pvState `json:"init"`
	Steps []struct {
		A pvAct   `json:"a"`
		S pvState `json:"s"`
	} `json:"steps"`
}

type pvSI struct {
	agents.ServerInfoSource
	mu  sync.Mutex
	evs map[lifecycle.Type]int
}

func (s *pvSI) NewEvent(t lifecycle.Type, opts ...lifecycle.Option) error {
	s.mu.Lock()
	s.evs[t]++
	s.mu.Unlock()
	return nil
}
func (s *pvSI) count(t lifecycle.Type) int { s.mu.Lock(); defer s.mu.Unlock(); return s.evs[t] }

type pvMsg struct {
	inter.Message
	p []byte
}

func (m pvMsg) Payload() []byte   { return m.p }
func (m pvMsg) RequestID() string { return "rid" }

type pvMgr struct {
	fw  inter.Framework
	log *logrus.Entry
}

func (m *pvMgr) RegisterAgent(ctx context.Context, name string, agent agents.Agent, conn inter.AgentConnector) error {
	return nil
}
func (m *pvMgr) UnregisterAgent(name string, conn inter.AgentConnector) error { return nil }
func (m *pvMgr) ReplaceAgent(name string, agent agents.Agent) error           { return nil }
func (m *pvMgr) Choria() inter.Framework                                      { return m.fw }
func (m *pvMgr) Logger() *logrus.Entry                                        { return m.log }

var (
	pvMu       sync.Mutex
	pvRestarts int
	pvStops    int
	pvHits     int
)

var pvCallers = map[string][2]string{"A": {"prov1.example", "choria=one"}, "B": {"prov1.example", "choria=two"}, "C": {"prov2.example", "choria=one"}}

type pvEnv struct {
	agent *mcorpc.Agent
	r     *vhReporter
	nreq  int64
}

// call runs an action as the network would
func (e *pvEnv) call(c string, action string, data any) (*mcorpc.Reply, json.RawMessage, string) {
	n := atomic.AddInt64(&e.nreq, 1)
	who := pvCallers[c]
	pr, err := v2.NewRequest("choria_provision", who[0], who[1], 30, fmt.Sprintf("rid%d", n), "mcollective")
	if err != nil {
		e.r.Error("%v", err)
	}
	body, _ := json.Marshal(map[string]any{"agent": "choria_provision", "action": action, "data": data})
	outbox := make(chan *agents.AgentReply, 1)
	g := vhGuard(60*time.Second, func() { e.agent.HandleMessage(context.Background(), pvMsg{p: body}, pr, nil, outbox) })
	if g != "" {
		return nil, nil, g
	}
	select {
	case rep := <-outbox:
		res := &mcorpc.Reply{}
		var raw struct {
			Data json.RawMessage `json:"data"`
		}
		json.Unmarshal(rep.Body, res)
		json.Unmarshal(rep.Body, &raw)
		return res, raw.Data, ""
	case <-time.After(10 * time.Second):
		return nil, nil, "no reply"
	}
}

func (e *pvEnv) freeLock() {
	w := provision.LockWindow
	provision.LockWindow = time.Nanosecond
	for _, c := range []string{"A", "B", "C"} {
		e.call(c, "configure", map[string]any{})
	}
	provision.LockWindow = w
}

func pvTree(dir string) map[string]string {
	res := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case i.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			res[rel] = "-> " + t
		case i.IsDir():
			res[rel] = "dir"
		default:
			b, _ := os.ReadFile(p)
			res[rel] = string(b)
		}
		return nil
	})
	return res
}

// settings as a reader of the file sees them, false when something other than settings and comments is in it
func pvSettings(file string) (map[string]string, bool) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, false
	}
	res := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		k, v, ok := strings.Cut(l, "=")
		if !ok {
			return res, false
		}
		if _, dup := res[strings.TrimSpace(k)]; dup {
			return res, false
		}
		res[strings.TrimSpace(k)] = strings.TrimSpace(v)
	}
	return res, true
}

var pvOrig = map[string]string{"prov": "plugin.choria.server.provision=1\nlogfile=discard\n", "normal": "plugin.choria.server.provision=0\nlogfile=discard\nidentity=existing.example\n"}

func pvConfigs(kind string) map[string]string {
	m := map[string]string{"identity": "new.example.net", "plugin.choria.server.provision": "0", "logfile": "discard", "plugin.choria.srv_domain": "example.net", "plugin.choria.network.client_port": "4333", "collectives": "a,b , c", "classesfile": "/a path/with=equals"}
	if kind == "still" {
		m["plugin.choria.server.provision"] = "1"
	}
	return m
}

func pvEncrypt(r *vhReporter, serverPub string) (pub string, enc string, clear []byte) {
	pri, pubb, err := choria.ECDHKeyPair()
	if err != nil {
		r.Error("%v", err)
	}
	sp, _ := hex.DecodeString(serverPub)
	secret, err := choria.ECDHSharedSecret(pri, sp)
	if err != nil {
		r.Error("%v", err)
	}
	//lint:ignore SA1019 there is no alternative
	blk, err := x509.EncryptPEMBlock(rand.Reader, "RSA PRIVATE KEY", []byte("the private key"), secret, x509.PEMCipherAES256)
	if err != nil {
		r.Error("%v", err)
	}
	return hex.EncodeToString(pubb), string(pem.EncodeToMemory(blk)), []byte("the private key")
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases []*pvCase `json:"cases"`
	}
	r := vhOpen(t, &in)
	defer r.Done()
	lg := logrus.New()
	lg.SetOutput(io.Discard)
	logrus.SetOutput(io.Discard)
	log := logrus.NewEntry(lg)
	td, err := os.MkdirTemp("", "prov")
	if err != nil {
		r.Error("%v", err)
	}
	defer os.RemoveAll(td)
	jwtfile := filepath.Join(td, "provision.jwt")
	os.WriteFile(jwtfile, []byte("the.provisioning.jwt"), 0600)
	repo := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		pvMu.Lock()
		pvHits++
		pvMu.Unlock()
		http.Error(w, "no", 404)
	}))
	defer repo.Close()
	build.ProvisionBrokerURLs = "nats://127.0.0.1:1"
	build.ProvisionJWTFile = jwtfile
	provision.SetRestartAction(func(time.Duration, agents.ServerInfoSource, *logrus.Entry) { pvMu.Lock(); pvRestarts++; pvMu.Unlock() })
	provision.SetShutdownAction(func(time.Duration, agents.ServerInfoSource, *logrus.Entry) { pvMu.Lock(); pvStops++; pvMu.Unlock() })

	for _, c := range in.Cases {
		r.Case(c.ID)
		root := filepath.Join(td, "w"+c.ID)
		dir := filepath.Join(root, "etc", "choria")
		os.MkdirAll(dir, 0700)
		cf := filepath.Join(dir, "server.conf")
		real := cf
		st := c.Init
		if c.Kind != "" {
			st = pvState{Mode: "prov", File: "file", Cfg: "orig"}
		}
		switch st.File {
		case "file":
			os.WriteFile(cf, []byte(pvOrig[st.Mode]), 0600)
		case "link":
			os.MkdirAll(filepath.Join(root, "real"), 0700)
			real = filepath.Join(root, "real", "actual.conf")
			os.WriteFile(real, []byte(pvOrig[st.Mode]), 0600)
			os.Symlink("../../real/actual.conf", cf)
		}
		build.ProvisionModeDefault = fmt.Sprint(st.Mode == "prov")
		build.ProvisionToken = ""
		if st.Token {
			build.ProvisionToken = "s3cret"
		}
		cfg := config.NewConfigForTests()
		cfg.DisableTLS = true
		cfg.InitiatedByServer = true
		cfg.LogLevel = "fatal"
		cfg.ConfigFile = cf
		cfg.Choria.ProvisionAllowUpdate = true
		fw, err := choria.NewWithConfig(cfg)
		if err != nil {
			r.Error("%v", err)
		}
		cfg.Choria.SSLDir = "" // the directory next to the configuration
		si := &pvSI{evs: map[lifecycle.Type]int{}}
		p, err := provision.New(&pvMgr{fw, log})
		if err != nil {
			r.Error("%v", err)
		}
		e := &pvEnv{agent: p.(*mcorpc.Agent), r: r}
		e.agent.SetServerInfo(si)
		provision.LockWindow = 2 * time.Minute
		e.freeLock()
		if st.Jwt {
			os.WriteFile(filepath.Join(dir, "server.jwt"), []byte("old.jwt"), 0600)
		}
		if c.Kind == "race" {
			pvRace(r, e, c)
		} else if c.Kind == "lock" {
			pvLock(r, e, c)
		} else {
			pvWalk(r, e, c, si, root, dir, cf, real, repo.URL)
		}
		os.RemoveAll(root)
	}
}

// callers arriving at once: exactly one of them gets a lock nobody holds
func pvRace(r *vhReporter, e *pvEnv, c *pvCase) {
	for round := 0; round < 1000; round++ {
		e.freeLock()
		time.Sleep(time.Microsecond)
		got := make([]string, 3)
		var wg sync.WaitGroup
		var ready int32
		for i, who := range []string{"A", "B", "C"} {
			wg.Add(1)
			go func(i int, who string) {
				defer wg.Done()
				for atomic.AddInt32(&ready, 1); atomic.LoadInt32(&ready) < 3; {
				}
				for k := 0; k < 2; k++ {
					rep, _, g := e.call(who, "jwt", map[string]any{})
					switch {
					case g != "":
						got[i] += g
					case rep.Statusmsg == provision.LockedError:
						got[i] += "locked "
					default:
						got[i] += "in "
					}
				}
			}(i, who)
		}
		wg.Wait()
		sort.Strings(got)
		if !vhSame(got, []string{"in in ", "locked locked ", "locked locked "}) {
			r.Mismatch(c.ID, round, "race", "one caller", got)
			return
		}
	}
}

// the lock in real time, a late step makes a walk void
func pvLock(r *vhReporter, e *pvEnv, c *pvCase) {
	const tick = 120 * time.Millisecond
	provision.LockWindow = tick*3 - tick/2
	start := time.Now()
	ticks := 0
	for i, s := range c.Steps {
		r.Step()
		if s.A.X == "tick" {
			ticks++
			time.Sleep(time.Until(start.Add(time.Duration(ticks) * tick)))
			continue
		}
		rep, _, g := e.call(s.A.C, "configure", map[string]any{})
		if time.Since(start)-time.Duration(ticks)*tick > tick/3 {
			r.Count("late")
			return
		}
		if g != "" {
			r.Mismatch(c.ID, i, "reply", "a reply", g)
			return
		}
		// both are refused, but differently
		if locked := rep.Statusmsg == provision.LockedError; locked == s.A.Ok {
			r.Mismatch(c.ID, i, "lock-time", map[string]any{"ok": s.A.Ok}, rep.Statusmsg, c.Steps[:i+1])
			return
		}
	}
}

func pvWalk(r *vhReporter, e *pvEnv, c *pvCase, si *pvSI, root, dir, cf, real, repo string) {
	serverPub := ""
	ssl := filepath.Join(root, "etc", "ssl")
	for i, s := range c.Steps {
		r.Step()
		if s.A.X == "expire" {
			w := provision.LockWindow
			provision.LockWindow = time.Nanosecond
			e.call(s.A.C, "configure", map[string]any{})
			provision.LockWindow = w
			continue
		}
		data := map[string]any{}
		switch s.A.T {
		case "right":
			data["token"] = "s3cret"
		case "wrong":
			data["token"] = "s3cre"
		}
		want := map[string]string{}
		var clear []byte
		pol := map[string]string{"one.policy": "policy default deny\n", "two.policy": "policy default allow\n"}
		rego := map[string]string{"x.rego": "package x\n"}
		if s.A.X == "configure" {
			kind := "good"
			if s.A.B == "still" {
				kind = "still"
			}
			want = pvConfigs(kind)
			j, _ := json.Marshal(want)
			data["config"] = string(j)
			tls := func() {
				data["certificate"], data["ca"], data["ssldir"] = "the certificate", "the ca", ssl
			}
			switch s.A.B {
			case "full":
				tls()
				data["server_jwt"] = fmt.Sprintf("new.jwt.%d", i)
				data["action_policies"], data["opa_policies"] = pol, rego
			case "empty":
				data["config"] = ""
			case "badjson":
				data["config"] = `{"a":`
			case "badcfg":
				want["plugin.security.client_anon_tls"] = "1"
				j, _ := json.Marshal(want)
				data["config"] = string(j)
			case "nopair":
				tls()
				data["key"] = "a key"
			case "badkey":
				tls()
				data["key"], data["ecdh_public"] = "a key", strings.Repeat("ab", 32)
			case "badpolicy":
				data["action_policies"] = map[string]string{"one.policy": "x", "two": "y"}
			case "badrego":
				data["opa_policies"] = map[string]string{"one.rego": "x", "two.policy": "y"}
			case "escape":
				data["action_policies"] = map[string]string{"../../../escaped.policy": "x"}
			case "escaperego":
				data["opa_policies"] = map[string]string{"../../../../escaped.rego": "x"}
			case "withkey":
				tls()
				var pub, enc string
				pub, enc, clear = pvEncrypt(r, serverPub)
				data["key"], data["ecdh_public"] = enc, pub
			}
		}
		switch s.A.X {
		case "gen25519":
			data["nonce"] = fmt.Sprintf("nonce %d", i)
		case "restart":
			switch s.A.B {
			case "splay":
				data["splay"] = 4
			case "negsplay":
				data["splay"] = -4
			}
		case "release_update":
			data["repository"], data["version"] = repo, "1.2.3"
		}
		before := pvTree(root)
		pvMu.Lock()
		restarts, stops, hits := pvRestarts, pvStops, pvHits
		pvMu.Unlock()
		prov := si.count(lifecycle.Provisioned)
		rep, out, g := e.call(s.A.C, s.A.X, data)
		after := pvTree(root)
		what := fmt.Sprintf("%s %s %s by %s", s.A.X, s.A.T, s.A.B, s.A.C)
		bad := func(key string, exp any, got any) {
			r.Mismatch(c.ID, i, s.A.X+"-"+key, exp, got, what, c.Init)
		}
		if g != "" {
			bad("reply", "a reply", g)
			return
		}
		if (rep.Statuscode == mcorpc.OK) != s.A.Ok {
			bad("result", map[bool]string{true: "accepted", false: "refused"}[s.A.Ok], []any{rep.Statuscode, rep.Statusmsg})
			return
		}
		// effects
		wantRestarts, wantStops, wantProv := 0, 0, 0
		if s.A.Ok && (s.A.X == "restart" || s.A.X == "reprovision") {
			wantRestarts = 1
		}
		if s.A.Ok && s.A.X == "shutdown" {
			wantStops = 1
		}
		if s.A.Ok && s.A.X == "configure" {
			wantProv = 1
		}
		eff := func() [4]int {
			pvMu.Lock()
			defer pvMu.Unlock()
			return [4]int{pvRestarts - restarts, pvStops - stops, si.count(lifecycle.Provisioned) - prov, 0}
		}
		wantEff := [4]int{wantRestarts, wantStops, wantProv, 0}
		for k := 0; k < 400 && eff() != wantEff; k++ {
			time.Sleep(time.Millisecond)
		}
		if eff() != wantEff {
			bad("effects", wantEff, eff())
			return
		}
		pvMu.Lock()
		hits = pvHits - hits
		pvMu.Unlock()
		if s.A.Early && hits > 0 {
			bad("update-attempted", "nothing downloaded", hits)
			return
		}
		if s.A.Early && !vhSame(before, after) {
			bad("changed", "nothing changed", pvDiff(before, after))
			return
		}
		rc, _ := filepath.Rel(root, real)
		if !s.A.Ok && before[rc] != after[rc] {
			bad("config-changed", before[rc], after[rc])
			return
		}
		link, _ := filepath.Rel(root, cf)
		if c.Init.File == "link" && before[link] != after[link] {
			bad("link", before[link], after[link])
			return
		}
		for p := range after {
			if strings.Contains(p, "escaped") || strings.HasPrefix(filepath.Base(p), "provision") {
				bad("stray-file", "no such file", p)
				return
			}
		}
		if !s.A.Ok {
			// what the server holds as its identity stays
			if s.S.Jwt != pvHas(after, "etc/choria/server.jwt") || s.S.Seed != pvHas(after, "etc/choria/server.seed") {
				bad("identity", s.S, pvDiff(before, after))
				return
			}
			if before["etc/choria/server.seed"] != after["etc/choria/server.seed"] {
				bad("seed-changed", "unchanged", "changed")
				return
			}
			continue
		}
		switch s.A.X {
		case "configure":
			got, ok := pvSettings(cf)
			if !ok || !vhSame(got, want) {
				bad("config", want, got)
				return
			}
			if s.A.B == "full" {
				exp := map[string]string{"etc/choria/server.jwt": fmt.Sprintf("new.jwt.%d", i), "etc/ssl/certificate.pem": "the certificate", "etc/ssl/ca.pem": "the ca",
					"etc/choria/policies/one.policy": pol["one.policy"], "etc/choria/policies/two.policy": pol["two.policy"], "etc/choria/policies/rego/x.rego": rego["x.rego"]}
				for k, v := range exp {
					if after[k] != v {
						bad("files", map[string]string{k: v}, after[k])
						return
					}
				}
			}
			if s.A.B == "withkey" {
				blk, _ := pem.Decode([]byte(after["etc/ssl/private.pem"]))
				if blk == nil || string(blk.Bytes) != string(clear) {
					bad("key", string(clear), after["etc/ssl/private.pem"])
					return
				}
			}
		case "reprovision":
			got, ok := pvSettings(cf)
			if !ok || got["plugin.choria.server.provision"] != "1" {
				bad("config", "provisioning enabled", got)
				return
			}
		case "gen25519":
			var o provision.ED25519Reply
			json.Unmarshal(out, &o)
			seed, _ := hex.DecodeString(after["etc/choria/server.seed"])
			pub, _ := hex.DecodeString(o.PublicKey)
			sig, _ := hex.DecodeString(o.Signature)
			if len(seed) != 32 || len(pub) != 32 || string(ed25519.NewKeyFromSeed(seed).Public().(ed25519.PublicKey)) != string(pub) || !ed25519.Verify(pub, []byte(fmt.Sprintf("nonce %d", i)), sig) {
				bad("key", "the key stored, its public key and the signed nonce", o)
				return
			}
			if before["etc/choria/server.seed"] == after["etc/choria/server.seed"] {
				bad("key", "a new seed", "the same seed")
				return
			}
		case "gencsr":
			var o provision.CSRReply
			json.Unmarshal(out, &o)
			blk, _ := pem.Decode([]byte(o.CSR))
			kb, _ := pem.Decode([]byte(pvEnd(after, "private.pem")))
			if blk == nil || kb == nil {
				bad("csr", "a CSR and a key", out)
				return
			}
			csr, err1 := x509.ParseCertificateRequest(blk.Bytes)
			key, err2 := x509.ParsePKCS1PrivateKey(kb.Bytes)
			if err1 != nil || err2 != nil || csr.CheckSignature() != nil || !key.PublicKey.Equal(csr.PublicKey.(*rsa.PublicKey)) || csr.Subject.CommonName == "" {
				bad("csr", "a CSR for the stored key", fmt.Sprint(err1, err2))
				return
			}
		case "jwt":
			var o provision.JWTReply
			json.Unmarshal(out, &o)
			if o.JWT != "the.provisioning.jwt" || len(o.ECDHPublic) != 64 || o.ECDHPublic == serverPub {
				bad("reply", "the token and a new exchange key", o)
				return
			}
			serverPub = o.ECDHPublic
		}
		if s.S.Jwt != pvHas(after, "etc/choria/server.jwt") || s.S.Seed != pvHas(after, "etc/choria/server.seed") {
			bad("identity", s.S, pvDiff(before, after))
			return
		}
	}
}

func pvHas(t map[string]string, k string) bool { _, ok := t[k]; return ok }
func pvEnd(t map[string]string, k string) string {
	for p, v := range t {
		if strings.HasSuffix(p, k) {
			return v
		}
	}
	return ""
}
func pvDiff(a, b map[string]string) []string {
	res := []string{}
	for k := range a {
		if v, ok := b[k]; !ok {
			res = append(res, "removed "+k)
		} else if v != a[k] {
			res = append(res, "changed "+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			res = append(res, "added "+k)
		}
	}
	sort.Strings(res)
	return res
}
