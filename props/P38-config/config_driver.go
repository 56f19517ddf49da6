package vh

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/choria-io/go-choria/build"
	"github.com/choria-io/go-choria/config"
	"github.com/sirupsen/logrus"
)

type cfLine struct {
	K    string `json:"k"`
	V    string `json:"v"`
	Form string `json:"form"`
}
type cfFile struct {
	At    string   `json:"at"`
	Lines []cfLine `json:"lines"`
}
type cfCase struct {
	ID   string `json:"id"`
	Part string `json:"part"`
	Row  struct {
		Files []cfFile `json:"files"`
		API   string   `json:"api"`
		Home  string   `json:"home"`
		Env   string   `json:"env"`
	} `json:"row"`
	OK       bool              `json:"ok"`
	Set      map[string]string `json:"set"`
	Raw      any               `json:"raw"`
	NoVerify bool              `json:"noverify"`
}

var cfKeys = map[string]string{
	"hosts": "plugin.choria.middleware_hosts", "tls": "plugin.choria.network.tls_timeout", "ssldir": "plugin.choria.ssldir", "srv": "plugin.choria.use_srv",
	"srvdomain": "plugin.choria.srv_domain", "user": "plugin.nats.user", "signer": "plugin.choria.security.request_signer.url", "service": "plugin.choria.security.request_signer.service",
	"provider": "plugin.security.provider", "canon": "plugin.security.client_anon_tls", "sanon": "plugin.security.server_anon_tls", "token": "plugin.choria.security.server.token_file",
	"seed": "plugin.choria.security.server.seed_file", "port": "plugin.choria.stats_port", "registry": "plugin.choria.services.registry.cache",
	"other": "plugin.some.thing", "otherplugin": "plugin.other.key", "dotted": "plugin.other.a.b",
}
var cfEnv = map[string]string{"srvdomain": "CHORIA_SRV_DOMAIN", "user": "MCOLLECTIVE_NATS_USERNAME", "registry": "CHORIA_REGISTRY"}

func cfKey(k string) string {
	if n, ok := cfKeys[k]; ok {
		return n
	}
	return k
}

func cfRead(c *config.Config) map[string]string {
	l := func(l []string) string {
		s := ""
		for _, x := range l {
			s += x + "|"
		}
		return s
	}
	b := func(b bool) string { return fmt.Sprint(b) }
	return map[string]string{
		"registerinterval": fmt.Sprint(c.RegisterInterval), "rpcaudit": b(c.RPCAudit), "rpcauthorization": b(c.RPCAuthorization), "color": b(c.Color), "loglevel": c.LogLevel,
		"identity": c.Identity, "collectives": l(c.Collectives), "main_collective": c.MainCollective, "registration_collective": c.RegistrationCollective, "libdir": l(c.LibDir),
		"default_discovery_options": l(c.DefaultDiscoveryOptions), "rpcauthprovider": c.RPCAuthorizationProvider, "classesfile": c.ClassesFile,
		"hosts": l(c.Choria.MiddlewareHosts), "tls": c.Choria.NetworkTLSTimeout.String(), "ssldir": c.Choria.SSLDir, "srv": b(c.Choria.UseSRVRecords), "srvdomain": c.Choria.SRVDomain,
		"user": c.Choria.NatsUser, "signer": c.Choria.RemoteSignerURL, "service": b(c.Choria.RemoteSignerService), "provider": c.Choria.SecurityProvider,
		"canon": b(c.Choria.ClientAnonTLS), "sanon": b(c.Choria.ServerAnonTLS), "token": c.Choria.ServerTokenFile, "seed": c.Choria.ServerTokenSeedFile,
		"port": fmt.Sprint(c.Choria.StatsPort), "registry": c.Choria.RegistryClientCache,
	}
}

func TestVerif(t *testing.T) {
	in := struct {
		Cases []*cfCase `json:"cases"`
	}{}
	r := vhOpen(t, &in)
	defer r.Done()
	logrus.SetOutput(io.Discard)
	top := t.TempDir()
	back, _ := os.Getwd()
	defer os.Chdir(back)
	for i, c := range in.Cases {
		r.Case(c.ID)
		r.Step()
		dir := filepath.Join(top, fmt.Sprint(i))
		if g := vhGuard(30*time.Second, func() { cfOne(r, c, dir) }); g != "" {
			r.Mismatch(c.ID, 0, c.Part+"-crash", "a configuration or an error", g, c.Row)
		}
		os.Chdir(back)
		os.RemoveAll(dir)
	}
}

func cfOne(r *vhReporter, c *cfCase, dir string) {
	home := filepath.Join(dir, "home")
	conf := filepath.Join(dir, "etc")
	switch c.Row.Home {
	case "yes":
		conf = filepath.Join(home, ".config")
	case "near":
		conf = home + "r"
	}
	outer := filepath.Join(dir, "project")
	inner := filepath.Join(outer, "deep")
	for _, d := range []string{home, filepath.Join(conf, "plugin.d"), filepath.Join(conf, "plugin.d", "more.d"), filepath.Join(conf, "plugin.d", "dir.cfg"), inner} {
		if err := os.MkdirAll(d, 0700); err != nil {
			r.Error("%v", err)
		}
	}
	if err := os.Chdir(inner); err != nil {
		r.Error("%v", err)
	}
	os.Setenv("HOME", home)
	for k, v := range cfEnv {
		switch c.Row.Env {
		case "set":
			if k == "registry" {
				os.Setenv(v, "~/x")
			} else {
				os.Setenv(v, "fromenv")
			}
		case "empty":
			os.Setenv(v, "")
		default:
			os.Unsetenv(v)
		}
	}
	was := build.DefaultCollectives
	defer func() { build.DefaultCollectives = was }()
	switch c.Row.Env {
	case "build1":
		build.DefaultCollectives = "g1"
	case "build2":
		build.DefaultCollectives = "g1 , g2"
	}
	main := filepath.Join(conf, "choria.conf")
	parsed := []string{main}
	late := []string{}
	for _, f := range c.Row.Files {
		path, prefix := "", ""
		text := ""
		switch f.At {
		case "main":
			path = main
			text = "identity = n1.example\n"
		case "outer":
			path = filepath.Join(outer, "choria.conf")
		case "inner":
			path = filepath.Join(inner, "choria.conf")
		case "other.d":
			path = filepath.Join(conf, "plugin.d", "more.d", "other.cfg")
		default:
			path = filepath.Join(conf, "plugin.d", f.At)
			prefix = "plugin." + strings.TrimSuffix(f.At, filepath.Ext(f.At)) + "."
		}
		for _, x := range f.Lines {
			k := cfKey(x.K)
			if prefix != "" && strings.HasPrefix(k, prefix) {
				k = strings.TrimPrefix(k, prefix)
			}
			switch x.Form {
			case "plain":
				text += k + " = " + x.V
			case "tight":
				text += k + "=" + x.V
			case "wide":
				text += "    " + k + "    =     " + x.V + "   \r"
			case "tabs":
				text += "\t" + k + "\t=\t" + x.V + "\t"
			case "comment":
				text += "#" + k + " = " + x.V
			case "commentafter":
				text += "   # " + k + " = " + x.V
			case "blank":
				text += "   "
			case "junk":
				text += k + " is " + x.V
			case "novalue":
				text += k + " =  "
			case "long":
				text += "# " + strings.Repeat("long ", 30000)
			}
			text += "\n"
		}
		if err := os.WriteFile(path, []byte(text), 0600); err != nil {
			r.Error("%v", err)
		}
		switch f.At {
		case "outer", "inner":
			if c.Row.API == "user" {
				late = append(late, path)
			}
		case "main", "other.d", "other.txt":
		default:
			if c.Row.Home != "yes" {
				parsed = append(parsed, path)
			}
		}
	}
	sort.Strings(parsed[1:])
	parsed = append(parsed, late...)
	switch c.Row.Env {
	case "missing":
		os.Remove(main)
	case "dir":
		os.Remove(main)
		os.Mkdir(main, 0700)
	}
	var cfg *config.Config
	var err error
	if c.Row.API == "user" {
		cfg, err = config.NewConfig(main)
	} else {
		cfg, err = config.NewSystemConfig(main, true)
	}
	if (err == nil) != c.OK {
		r.Mismatch(c.ID, 0, c.Part+"-accepted", c.OK, fmt.Sprint(err), c.Row)
		return
	}
	if err != nil {
		return
	}
	raw := map[string]string{}
	if m, ok := c.Raw.(map[string]any); ok {
		for k, v := range m {
			raw[cfKey(k)] = v.(string)
		}
	}
	for k, got := range cfRead(cfg) {
		if k == "identity" {
			if got != "n1.example" {
				r.Mismatch(c.ID, 0, c.Part+"-identity", "n1.example", got, c.Row)
			}
			continue
		}
		want := strings.Replace(c.Set[k], "HOME/", home+"/", 1)
		want = strings.Replace(want, "CONF/", conf+"/", 1)
		if _, ok := cfEnv[k]; ok && k != "srvdomain" && c.Row.Env != "none" {
			if _, ok := raw[cfKey(k)]; !ok {
				continue // nothing is said about those without a default
			}
		}
		if got != want {
			r.Mismatch(c.ID, 0, c.Part+"-setting", k+" "+want, k+" "+got, c.Row)
		}
	}
	raw["identity"] = "n1.example"
	if !vhSame(cfg.UnParsedOptions(), raw) {
		r.Mismatch(c.ID, 0, c.Part+"-texts", raw, cfg.UnParsedOptions(), c.Row)
	}
	for k := range raw {
		if !cfg.HasOption(k) || cfg.Option(k, "no") != raw[k] {
			r.Mismatch(c.ID, 0, c.Part+"-option", raw[k], cfg.Option(k, "no"), c.Row)
		}
	}
	if _, ok := raw[cfKey("other")]; !ok && (cfg.HasOption(cfKey("other")) || cfg.Option(cfKey("other"), "no") != "no") {
		r.Mismatch(c.ID, 0, c.Part+"-option", "no", cfg.Option(cfKey("other"), "no"), c.Row)
	}
	if cfg.DisableTLSVerify != c.NoVerify || cfg.DisableSecurityProviderVerify != c.NoVerify || cfg.DisableTLS {
		r.Mismatch(c.ID, 0, c.Part+"-verification", c.NoVerify, []any{cfg.DisableTLSVerify, cfg.DisableSecurityProviderVerify, cfg.DisableTLS}, c.Row)
	}
	if !vhSame(cfg.ParsedFiles, parsed) || cfg.ConfigFile != main || cfg.InitiatedByServer != (c.Row.API != "user") {
		r.Mismatch(c.ID, 0, c.Part+"-files", parsed, []any{cfg.ParsedFiles, cfg.ConfigFile}, c.Row)
	}
}
