package vh

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/backoff"
	"github.com/choria-io/go-choria/build"
	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/srvcache"
	"github.com/choria-io/tokens"
)

type pmBuild struct {
	Urls   string `json:"urls"`
	Srv    string `json:"srv"`
	Token  string `json:"token"`
	Def    bool   `json:"def"`
	Secure bool   `json:"secure"`
	V2     bool   `json:"v2"`
	Update bool   `json:"update"`
	Facts  string `json:"facts"`
	Reg    string `json:"reg"`
	User   string `json:"user"`
	Pass   string `json:"pass"`
	Status string `json:"status"`
}
type pmCase struct {
	ID   string `json:"id"`
	Kind string `json:"kind"`
	Row  struct {
		Server bool   `json:"server"`
		Urls   string `json:"urls"`
		Token  string `json:"token"`
		Def    bool   `json:"def"`
		Opt    string `json:"opt"`
		Own    string `json:"own"`
		Jwt    string `json:"jwt"`
		Extra  bool   `json:"extra"`
		Srv    string `json:"srv"`
		Up     int    `json:"up"`
		Stop   int    `json:"stop"`
	} `json:"row"`
	B    pmBuild `json:"b"`
	Mode bool    `json:"mode"`
	Prof struct {
		Set      bool   `json:"set"`
		User     string `json:"user"`
		Pass     string `json:"pass"`
		Facts    string `json:"facts"`
		Update   bool   `json:"update"`
		Status   string `json:"status"`
		Reg      string `json:"reg"`
		Srv      string `json:"srv"`
		Secure   bool   `json:"secure"`
		Security string `json:"security"`
	} `json:"prof"`
	Supports bool `json:"supports"`
	Tries    int  `json:"tries"`
	Out      struct {
		T string   `json:"t"`
		S []string `json:"s"`
	} `json:"out"`
}

func pmSetBuild(b pmBuild, jwt string) {
	build.ProvisionBrokerURLs, build.ProvisionBrokerSRVDomain, build.ProvisionToken, build.ProvisionJWTFile = b.Urls, b.Srv, b.Token, jwt
	build.ProvisionModeDefault, build.ProvisionSecure = fmt.Sprint(b.Def), fmt.Sprint(b.Secure)
	build.ProvisioningUsesProtocolV2, build.ProvisionAllowServerUpdate = fmt.Sprint(b.V2), fmt.Sprint(b.Update)
	build.ProvisionFacts, build.ProvisionRegistrationData, build.ProvisionStatusFile = b.Facts, b.Reg, b.Status
	build.ProvisioningBrokerUsername, build.ProvisioningBrokerPassword = b.User, b.Pass
	protocol.Secure = "true"
}

func pmBuilt() pmBuild {
	bi := &build.Info{}
	return pmBuild{bi.ProvisionBrokerURLs(), bi.ProvisionBrokerSRVDomain(), bi.ProvisionToken(), bi.ProvisionDefault(), bi.ProvisionSecurity(), bi.ProvisionUsingVersion2(),
		bi.ProvisionAllowServerUpdate(), bi.ProvisionFacts(), bi.ProvisionRegistrationData(), bi.ProvisioningBrokerUsername(), bi.ProvisioningBrokerPassword(), bi.ProvisionStatusFile()}
}

func pmSnapshot(r *vhReporter, c *config.Config) map[string]any {
	j, err := json.Marshal(c)
	if err != nil {
		r.Error("snapshot: %v", err)
	}
	cj, err := json.Marshal(c.Choria)
	if err != nil {
		r.Error("snapshot: %v", err)
	}
	out := map[string]any{}
	json.Unmarshal(j, &out)
	ch := map[string]any{}
	json.Unmarshal(cj, &ch)
	out["Choria"] = ch
	return out
}

func pmConfig(r *vhReporter, dir string) *config.Config {
	cfg := config.NewConfigForTests()
	cfg.DisableTLS = true
	cfg.DisableSecurityProviderVerify = true
	cfg.LogLevel = "fatal"
	cfg.Identity = "me.example"
	cfg.ConfigFile = filepath.Join(dir, "etc", "server.conf")
	cfg.RPCAuthorization = true
	cfg.Collectives = []string{"prod", "other"}
	cfg.MainCollective = "prod"
	cfg.Registration = []string{"inventory_content"}
	cfg.RegistrationCollective = "other"
	cfg.RegisterInterval = 11
	cfg.RegistrationSplay = true
	cfg.FactSourceFile = "/prod/facts.yaml"
	ch := cfg.Choria
	ch.FederationCollectives = []string{"fed"}
	ch.NatsUser, ch.NatsPass = "produser", "prodpass"
	ch.SSLDir = "/prod/ssl"
	ch.SecurityProvider = "file"
	ch.StatusFilePath, ch.StatusUpdateSeconds = "/prod/status.json", 33
	ch.FileContentRegistrationTarget, ch.FileContentRegistrationData = "prod.target", "/prod/reg.json"
	ch.UseSRVRecords, ch.SRVDomain = false, "prod.example"
	ch.MiddlewareHosts = []string{"prod.example:4222"}
	return cfg
}

func pmMode(r *vhReporter, c *pmCase, k *vhRing, dir string) {
	start := pmBuild{Urls: c.Row.Urls, Token: c.Row.Token, Def: c.Row.Def, Secure: true}
	if c.Row.Extra {
		start.Facts, start.Reg, start.User, start.Pass, start.Status = "/build/facts.json", "/build/reg.json", "builduser", "buildpass", "/build/status.json"
	}
	jwtf := filepath.Join(dir, "provisioning.jwt")
	os.Remove(jwtf)
	os.MkdirAll(filepath.Join(dir, "etc"), 0700)
	prov := func(urls []string, srv string, b pmBuild) {
		p, err := tokens.NewProvisioningClaims(b.Secure, b.Def, b.Token, b.User, b.Pass, []string{"x"}, "", b.Reg, b.Facts, "choria", "", time.Hour)
		if err != nil {
			r.Error("%v", err)
		}
		p.URLs, p.SRVDomain, p.ProtoV2, p.AllowUpdate = strings.Join(urls, ","), srv, b.V2, b.Update
		os.WriteFile(jwtf, []byte(k.sign("ok", p, k.pri["A"], "", "")), 0600)
	}
	one := pmBuild{Token: "jt1"}
	switch c.Row.Jwt {
	case "unset":
		jwtf = ""
	case "missing":
	case "garbage":
		os.WriteFile(jwtf, []byte("not.a.token"), 0600)
	case "client":
		os.WriteFile(jwtf, []byte(k.Client("up=bob", "B", "A", "ok", nil, nil)), 0600)
	case "notoken":
		prov([]string{"nats://evil.example:4222"}, "", pmBuild{Def: true, V2: true, User: "eu"})
	case "neither":
		prov(nil, "", pmBuild{Token: "evil", Def: true})
	case "both":
		prov([]string{"nats://evil.example:4222"}, "evil.example", pmBuild{Token: "evil", Def: true})
	case "urls":
		prov([]string{"nats://j1.example:4222", " nats://j2.example:4223"}, "", one)
	case "srv":
		prov(nil, "prov.example", pmBuild{Token: "jt2", Def: true, Secure: true, Update: true, Facts: "/jwt/facts.json", User: "ju", Pass: "jp"})
	case "full":
		prov([]string{"wss://j3.example:443"}, "", pmBuild{Token: "jt3", Secure: true, V2: true, Update: true, Facts: "/jwt/facts.json", Reg: "/jwt/reg.json", User: "ju", Pass: "jp"})
	default:
		r.Error("jwt %s", c.Row.Jwt)
	}
	pmSetBuild(start, jwtf)
	cfg := pmConfig(r, dir)
	cfg.InitiatedByServer = c.Row.Server
	own := filepath.Join(dir, "own.jwt")
	switch c.Row.Own {
	case "same":
		os.WriteFile(own, []byte(k.Server("me.example", "B", "A", "ok", nil)), 0600)
	case "other":
		os.WriteFile(own, []byte(k.Server("image.example", "B", "A", "ok", nil)), 0600)
	case "expired":
		os.WriteFile(own, []byte(k.Server("image.example", "B", "A", "expired", nil)), 0600)
	}
	if c.Row.Own != "none" {
		cfg.Choria.ChoriaSecurityTokenFile = own
		cfg.Choria.ChoriaSecuritySeedFile = k.Seed("B")
	}
	switch c.Row.Opt {
	case "true":
		cfg.SetOption("plugin.choria.server.provision", "1")
		cfg.Choria.Provision = true
	case "false":
		cfg.SetOption("plugin.choria.server.provision", "0")
		cfg.Choria.Provision = false
	}
	fw, err := choria.NewWithConfig(cfg)
	if err != nil {
		r.Error("framework: %v", err)
	}
	before := pmSnapshot(r, cfg)
	if res := vhGuard(20*time.Second, func() { fw.ConfigureProvisioning(context.Background()) }); res != "" {
		r.Mismatch(c.ID, 0, "configure-"+strings.Split(res, ":")[0], "done", res, c.Row)
		return
	}
	r.Step()
	if got := pmBuilt(); got != c.B {
		r.Mismatch(c.ID, 0, "build", c.B, got, c.Row)
	}
	after := pmSnapshot(r, cfg)
	if fw.ProvisionMode() != c.Mode {
		r.Mismatch(c.ID, 0, "mode", c.Mode, !c.Mode, c.Row)
	}
	if fw.SupportsProvisioning() != c.Supports {
		r.Mismatch(c.ID, 0, "supports", c.Supports, !c.Supports, c.Row)
	}
	// the whole configuration is compared: nothing else may change
	exp, p := before, c.Prof
	secure := true
	if p.Set {
		ch := exp["Choria"].(map[string]any)
		exp["RPCAuthorization"] = false
		ch["FederationCollectives"] = []any{}
		exp["Collectives"] = []any{"provisioning"}
		exp["MainCollective"] = "provisioning"
		exp["Registration"] = []any{}
		exp["FactSourceFile"] = p.Facts
		ch["NatsUser"], ch["NatsPass"] = p.User, p.Pass
		ch["ProvisionAllowUpdate"] = p.Update
		ch["SSLDir"] = filepath.Join(dir, "etc", "ssl")
		ch["SecurityProvider"] = p.Security
		if p.Status != "" {
			ch["StatusFilePath"], ch["StatusUpdateSeconds"] = p.Status, 10.0
		}
		if p.Reg != "" {
			exp["RegistrationCollective"] = "provisioning"
			exp["Registration"] = []any{"file_content"}
			exp["RegisterInterval"] = 120.0
			exp["RegistrationSplay"] = false
			ch["FileContentRegistrationTarget"] = "provisioning.registration.data"
			ch["FileContentRegistrationData"] = p.Reg
		}
		if p.Srv != "" {
			ch["UseSRVRecords"], ch["SRVDomain"] = true, p.Srv
		}
		if p.Security == "choria" {
			ch["ChoriaSecurityTokenFile"] = jwtf
			ch["ChoriaSecuritySignReplies"] = false
		}
		secure = p.Secure
	}
	for _, part := range []string{"", "Choria"} {
		a, b := exp, after
		if part != "" {
			a, b = exp[part].(map[string]any), after[part].(map[string]any)
		}
		for key := range a {
			if key != "Choria" && !reflect.DeepEqual(a[key], b[key]) {
				r.Mismatch(c.ID, 0, fmt.Sprintf("setting-%v-%s%s", c.Mode, part, key), a[key], b[key], c.Row)
			}
		}
	}
	if protocol.IsSecure() != secure {
		r.Mismatch(c.ID, 0, "secure", secure, !secure, c.Row)
	}
	if c.Mode {
		if fw.IsFederated() {
			r.Mismatch(c.ID, 0, "federated", false, true, c.Row)
		}
		r.Count("provisioning")
	}
	if protocol.Secure = "true"; c.B.Srv == "" && c.B.Urls != "" {
		s, err := fw.ProvisioningServers(context.Background())
		if err != nil || strings.Join(s.Strings(), ",") != strings.ReplaceAll(c.B.Urls, " ", "") {
			r.Mismatch(c.ID, 0, "servers", c.B.Urls, fmt.Sprint(s, err), c.Row)
		}
	}
}

func pmTargets(t *testing.T, r *vhReporter, c *pmCase, d *svDNS, dir string) {
	pmSetBuild(pmBuild{Urls: c.Row.Urls, Srv: c.Row.Srv, Token: "t"}, "")
	cfg := pmConfig(r, dir)
	cfg.InitiatedByServer = true
	fw, err := choria.NewWithConfig(cfg)
	if err != nil {
		r.Error("framework: %v", err)
	}
	const name = "_choria-provisioner._tcp.prov.example"
	d.set(map[string][]svServer{})
	synctest.Test(t, func(t *testing.T) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		d.mu.Lock()
		d.hook = func(n string) {
			d.mu.Lock()
			defer d.mu.Unlock()
			if n != name {
				return
			}
			if d.count[n] >= c.Row.Up {
				d.zone = map[string][]svServer{name: {{Host: "p1.example", Port: 4222}, {Host: "p2.example", Port: 4333}}}
			}
			if d.count[n] == c.Row.Stop {
				time.AfterFunc(100*time.Millisecond, cancel)
			}
		}
		d.mu.Unlock()
		begin := time.Now()
		var s srvcache.Servers
		var err error
		done := make(chan struct{})
		go func() {
			defer close(done)
			s, err = fw.ProvisioningServers(ctx)
		}()
		select {
		case <-done:
		case <-time.After(2 * time.Hour):
			r.Mismatch(c.ID, 0, "targets-hang", c.Out, "still trying", c.Row)
			cancel()
			<-done
			return
		}
		took := time.Since(begin)
		r.Step()
		if (err != nil) != (c.Out.T == "error") {
			r.Mismatch(c.ID, 0, "targets-error", c.Out, fmt.Sprint(err), c.Row)
			return
		}
		if err == nil && !reflect.DeepEqual(s.Strings(), c.Out.S) {
			r.Mismatch(c.ID, 0, "targets", c.Out.S, s.Strings(), c.Row)
		}
		if err != nil && (s == nil || s.Count() != 0) {
			r.Mismatch(c.ID, 0, "targets-with-error", "none", fmt.Sprint(s), c.Row)
		}
		d.mu.Lock()
		n := d.count[name]
		d.mu.Unlock()
		if n != c.Tries {
			r.Mismatch(c.ID, 0, "targets-tries", c.Tries, n, c.Row)
		}
		var lo, hi time.Duration
		for i := 1; i < c.Tries; i++ {
			ms := backoff.TwentySec.Millis[min(i, len(backoff.TwentySec.Millis)-1)]
			lo += time.Duration(ms/2) * time.Millisecond
			hi += time.Duration(ms*3/2) * time.Millisecond
		}
		if c.Out.T == "error" {
			hi += 200 * time.Millisecond
		}
		if took < lo || took > hi+time.Duration(c.Tries)*50*time.Millisecond {
			r.Mismatch(c.ID, 0, "targets-pace", []string{lo.String(), hi.String()}, took.String(), c.Row)
		}
	})
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases []*pmCase `json:"cases"`
	}
	r := vhOpen(t, &in)
	dir := t.TempDir()
	k := vhNewRing(r, dir, "A", "B")
	old := net.DefaultResolver
	d := &svDNS{}
	d.set(nil)
	net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: d.dial}
	defer func() { net.DefaultResolver = old }()
	net.LookupSRV("", "", "warm.example") // the resolver makes its channels outside the bubbles
	for _, c := range in.Cases {
		r.Case(c.ID)
		if c.Kind == "targets" {
			pmTargets(t, r, c, d, dir)
			continue
		}
		sub := filepath.Join(dir, "w"+c.ID)
		os.MkdirAll(sub, 0700)
		pmMode(r, c, k, sub)
		os.RemoveAll(sub)
	}
	r.Done()
}
