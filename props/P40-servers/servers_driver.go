package vh

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/srvcache"
	"github.com/sirupsen/logrus"
)

type svRow struct {
	FedEnv  string                `json:"fedenv"`
	FedCfg  []string              `json:"fedcfg"`
	MW      []string              `json:"mw"`
	Fed     []string              `json:"fed"`
	Peers   []string              `json:"peers"`
	PdbHost string                `json:"pdbhost"`
	PdbPort int                   `json:"pdbport"`
	Srv     bool                  `json:"srv"`
	Domain  string                `json:"domain"`
	Facter  string                `json:"facter"`
	Zone    map[string][]svServer `json:"zone"`
}
type svFn struct {
	Fn  string `json:"fn"`
	Out struct {
		Err     bool       `json:"err"`
		Servers []svServer `json:"servers"`
	} `json:"out"`
	Asked []string `json:"asked"`
}
type svCase struct {
	ID    string   `json:"id"`
	Part  string   `json:"part"`
	Row   svRow    `json:"row"`
	Dom   string   `json:"dom"`
	Cols  []string `json:"cols"`
	IsFed bool     `json:"isfed"`
	Fns   []svFn   `json:"fns"`
	Seed  int64    `json:"seed"`
	Init  struct {
		Zone map[string]int `json:"zone"`
	} `json:"init"`
	Steps []struct {
		A struct {
			Op    string `json:"op"`
			N     string `json:"n"`
			V     int    `json:"v"`
			Asked bool   `json:"asked"`
		} `json:"a"`
	} `json:"steps"`
}

func svGot(s srvcache.Servers) ([]svServer, string) {
	out := []svServer{}
	if s == nil {
		return out, ""
	}
	for _, x := range s.Servers() {
		out = append(out, svServer{x.Host(), int(x.Port()), x.Scheme()})
	}
	if s.Count() != len(out) {
		return out, fmt.Sprintf("counts %d", s.Count())
	}
	// every way of writing them means the same servers
	hps, strs := s.HostPorts(), s.Strings()
	urls, err := s.URLs()
	for i, x := range out {
		h, p, herr := net.SplitHostPort(hps[i])
		if herr != nil || h != x.Host || p != fmt.Sprint(x.Port) {
			return out, "host and port written as " + hps[i]
		}
		if x.Scheme == "" {
			if strs[i] != hps[i] {
				return out, "written as " + strs[i]
			}
			if err == nil {
				return out, "an url without a scheme"
			}
			continue
		}
		back, berr := srvcache.StringHostsToServers([]string{strs[i]}, "")
		if berr != nil || back.Count() != 1 || back.Servers()[0].Host() != x.Host || int(back.Servers()[0].Port()) != x.Port || back.Servers()[0].Scheme() != x.Scheme {
			return out, "written as " + strs[i]
		}
	}
	for i, x := range out {
		if err == nil && (urls[i].Scheme != x.Scheme || urls[i].Hostname() != x.Host || urls[i].Port() != fmt.Sprint(x.Port) || urls[i].String() != strs[i]) {
			return out, fmt.Sprintf("url %s", urls[i])
		}
		if err != nil && x.Scheme != "" && i == 0 && len(out) == 1 {
			return out, fmt.Sprintf("no url: %v", err)
		}
	}
	return out, ""
}

func svResolve(r *vhReporter, c *svCase, d *svDNS, dir string) {
	row := c.Row
	zone := map[string][]svServer{}
	for n, a := range row.Zone {
		zone[n+"."+c.Dom] = a
		zone[n+".elsewhere.example"] = []svServer{{Host: "wrong.example", Port: 1}}
	}
	d.set(zone)
	path := filepath.Join(dir, "none")
	if row.Facter != "missing" {
		path = filepath.Join(dir, "facter")
	}
	os.Setenv("PATH", path)
	os.Unsetenv("CHORIA_FED_COLLECTIVE")
	cfg, err := config.NewDefaultConfig()
	if err != nil {
		r.Error("config: %v", err)
	}
	os.Setenv("CHORIA_FED_COLLECTIVE", row.FedEnv)
	cfg.DisableSecurityProviderVerify = true
	cfg.DisableTLS = true
	cfg.LogLevel = "fatal"
	cfg.Identity = "me.example"
	ch := cfg.Choria
	ch.SecurityProvider = "file"
	ch.FederationCollectives, ch.MiddlewareHosts, ch.FederationMiddlewareHosts, ch.NetworkPeers = row.FedCfg, row.MW, row.Fed, row.Peers
	ch.PuppetDBHost, ch.PuppetDBPort, ch.UseSRVRecords, ch.SRVDomain = row.PdbHost, row.PdbPort, row.Srv, row.Domain
	fw, err := choria.NewWithConfig(cfg)
	if err != nil {
		r.Error("framework: %v", err)
	}
	if got := fw.FederationCollectives(); !reflect.DeepEqual(append([]string{}, got...), append([]string{}, c.Cols...)) {
		r.Mismatch(c.ID, 0, c.Part+"-collectives", c.Cols, got, row)
	}
	if fw.IsFederated() != c.IsFed {
		r.Mismatch(c.ID, 0, c.Part+"-federated", c.IsFed, !c.IsFed, row)
	}

	rng := rand.New(rand.NewSource(c.Seed))
	fns := append([]svFn{}, c.Fns...)
	rng.Shuffle(len(fns), func(i, j int) { fns[i], fns[j] = fns[j], fns[i] })
	if rng.Intn(2) == 0 {
		fns = append(fns, c.Fns...) // what was found before says the same again
	}
	want := map[string]bool{}
	for i, f := range fns {
		var s srvcache.Servers
		var err error
		res := vhGuard(20*time.Second, func() {
			switch f.Fn {
			case "middleware":
				s, err = fw.MiddlewareServers()
			case "federation":
				s, err = fw.FederationMiddlewareServers()
			case "puppetdb":
				s, err = fw.PuppetDBServers()
			case "peers":
				s, err = fw.NetworkBrokerPeers()
			case "try":
				var one srvcache.Server
				one, err = fw.TrySrvLookup([]string{"_one._tcp", "_two._tcp"}, srvcache.NewServer("def.example", 99, ""))
				if err == nil {
					s = srvcache.NewServers(one)
				}
			default:
				r.Error("function %s", f.Fn)
			}
		})
		r.Step()
		if res != "" {
			r.Mismatch(c.ID, i, c.Part+"-"+f.Fn+"-"+strings.Split(res, ":")[0], f.Out, res, row)
			return
		}
		for _, n := range f.Asked {
			want[n] = true
		}
		got, bad := svGot(s)
		if bad != "" {
			r.Mismatch(c.ID, i, c.Part+"-"+f.Fn+"-written", f.Out.Servers, bad, row)
		}
		if (err != nil) != f.Out.Err {
			r.Mismatch(c.ID, i, c.Part+"-"+f.Fn+"-error", f.Out.Err, fmt.Sprint(err), row)
			continue
		}
		exp := append([]svServer{}, f.Out.Servers...)
		if err == nil && !reflect.DeepEqual(got, exp) {
			r.Mismatch(c.ID, i, c.Part+"-"+f.Fn, exp, got, row)
		}
		if err == nil && s != nil && rng.Intn(2) == 0 {
			// what a caller does with an answer is its own affair
			s.Each(func(x srvcache.Server) { x.SetPort(9); x.SetHost("changed"); x.SetScheme("changed") })
		}
		r.Count(f.Fn)
	}
	d.mu.Lock()
	asked := []string{}
	for n := range d.asked {
		asked = append(asked, n)
	}
	d.mu.Unlock()
	exp := []string{}
	for n := range want {
		exp = append(exp, n)
	}
	sort.Strings(asked)
	sort.Strings(exp)
	// names that do not exist may also be tried in the domains the resolver is configured with
	keep := asked[:0]
	for _, n := range asked {
		known := false
		for _, e := range exp {
			known = known || (n != e && strings.HasPrefix(n, e+"."))
		}
		if !known {
			keep = append(keep, n)
		}
	}
	if !reflect.DeepEqual(append([]string{}, keep...), exp) {
		r.Mismatch(c.ID, len(fns), c.Part+"-asked", exp, keep, row)
	}
	if c.Part == "parse" {
		svParse(r, c)
	}
}

// svParse parses the hosts without a scheme to assume: each needs its own
func svParse(r *vhReporter, c *svCase) {
	for _, scheme := range []string{"", "https"} {
		s, err := srvcache.StringHostsToServers(c.Row.MW, scheme)
		var mw svFn
		for _, f := range c.Fns {
			if f.Fn == "federation" {
				mw = f
			}
		}
		if len(c.Row.MW) == 0 {
			if err != nil || s.Count() != 0 {
				r.Mismatch(c.ID, 0, "parse-none", "no servers", fmt.Sprint(s, err))
			}
			continue
		}
		fail := mw.Out.Err
		for _, h := range c.Row.MW {
			fail = fail || (scheme == "" && strings.Index(h, "://") < 1)
		}
		if (err != nil) != fail {
			r.Mismatch(c.ID, 0, "parse-error", fail, fmt.Sprint(err), c.Row.MW, scheme)
			continue
		}
		if err != nil {
			continue
		}
		got, bad := svGot(s)
		exp := append([]svServer{}, mw.Out.Servers...)
		for i, h := range c.Row.MW {
			if strings.Index(h, "://") < 1 {
				exp[i].Scheme = scheme
			}
		}
		if bad != "" || !reflect.DeepEqual(got, exp) {
			r.Mismatch(c.ID, 0, "parse-scheme", exp, got, bad, scheme)
		}
	}
}

func svWalk(t *testing.T, r *vhReporter, c *svCase) {
	synctest.Test(t, func(t *testing.T) {
		now := map[string]int{}
		for n, v := range c.Init.Zone {
			now[n] = v
		}
		asked := 0
		l := logrus.New()
		l.SetOutput(io.Discard)
		cache := srvcache.New("me", 3*time.Second, func(service, proto, name string) (string, []*net.SRV, error) {
			asked++
			full := name
			if service != "" || proto != "" {
				full = "_" + service + "._" + proto + "." + name
			}
			n := strings.TrimSuffix(full, ".example.net")
			if now[n] == 0 {
				return "", nil, errors.New("no such host")
			}
			return full, []*net.SRV{{Target: fmt.Sprintf("v%d.%s.", now[n], n), Port: uint16(now[n])}, {Target: "second.", Port: 2}}, nil
		}, logrus.NewEntry(l))
		time.Sleep(100 * time.Millisecond)
		for i, s := range c.Steps {
			r.Step()
			switch s.A.Op {
			case "tick":
				time.Sleep(time.Second)
			case "change":
				now[s.A.N] = s.A.V
			case "lookup":
				asked = 0
				sv, err := cache.LookupSrvServers("", "", s.A.N+".example.net", "nats")
				got := 0
				if err == nil {
					x := sv.Servers()[0]
					got = int(x.Port())
					if sv.Count() != 2 || x.Host() != fmt.Sprintf("v%d.%s", got, s.A.N) || x.Scheme() != "nats" || sv.Servers()[1].Host() != "second" {
						r.Mismatch(c.ID, i, "cache-servers", s.A, sv.Strings())
					}
					sv.Each(func(x srvcache.Server) { x.SetPort(77); x.SetHost("changed") })
				} else if sv == nil || sv.Count() != 0 {
					r.Mismatch(c.ID, i, "cache-failed", s.A, fmt.Sprint(sv))
				}
				if got != s.A.V {
					r.Mismatch(c.ID, i, "cache-answer", s.A, got)
					return
				}
				if (asked > 0) != s.A.Asked || asked > 1 {
					r.Mismatch(c.ID, i, "cache-asked", s.A, asked)
					return
				}
			}
		}
	})
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases []*svCase `json:"cases"`
	}
	r := vhOpen(t, &in)
	dir := t.TempDir()
	for _, d := range []string{"none", "facter"} {
		os.Mkdir(filepath.Join(dir, d), 0700)
	}
	os.WriteFile(filepath.Join(dir, "facter", "facter"), []byte("#!/bin/sh\n[ \"$1\" = networking.domain ] && echo facts.net || echo wrong.net\n"), 0700)
	old := net.DefaultResolver
	d := &svDNS{}
	net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: d.dial}
	defer func() { net.DefaultResolver = old }()
	os.Setenv("HOME", dir)
	for _, c := range in.Cases {
		r.Case(c.ID)
		if c.Part == "cache" {
			svWalk(t, r, c)
			continue
		}
		svResolve(r, c, d, dir)
	}
	r.Done()
}
