package network

// Replays the specification's admission and permission tables into the real broker authenticator.

import (
	"crypto/ed25519"
	"crypto/md5"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/choria-io/tokens"
	"github.com/golang-jwt/jwt/v5"
	"github.com/nats-io/nats-server/v2/server"
	"github.com/sirupsen/logrus"
)

type vhTok struct {
	K  string `json:"k"`
	By string `json:"by"`
	V  string `json:"v"`
}

type vhRow struct {
	TLS     bool   `json:"tls"`
	Mode    string `json:"mode"`
	MTLS    bool   `json:"mtls"`
	Prov    string `json:"prov"`
	Allow   string `json:"allow"`
	Deny    bool   `json:"deny"`
	Sys     string `json:"sys"`
	NoToken bool   `json:"notoken"`
	Remote  string `json:"remote"`
	Conn    string `json:"conn"`
	User    string `json:"user"`
	Pass    string `json:"pass"`
	Token   vhTok  `json:"token"`
	Sig     string `json:"sig"`
	Kind    string `json:"kind"`
	Perm    string `json:"perm"`
}

type vhCase struct {
	ID string `json:"id"`
	R  *vhRow `json:"r"`
	V  struct {
		OK   bool   `json:"ok"`
		Acct string `json:"acct"`
		User string `json:"user"`
		Role string `json:"role"`
	} `json:"v"`
	Perm *struct {
		K     string   `json:"k"`
		P     []string `json:"p"`
		OU    string   `json:"ou"`
		Extra bool     `json:"extra"`
		CS    []string `json:"cs"`
	} `json:"perm"`
	Set string `json:"set"` // key into sets
}

type vhSet struct {
	Pub []string `json:"pub"`
	Sub []string `json:"sub"`
	U   string   `json:"u"`
}

type vhIn struct {
	Cases    []vhCase         `json:"cases"`
	Sets     map[string]vhSet `json:"sets"`
	Concrete []string         `json:"concrete"`
	Wild     []string         `json:"wild"`
	PID      string           `json:"pid"`
}

const (
	vhCaller   = "up=me"
	vhIdentity = "me.example"
)

type vhAddr string

func (a vhAddr) Network() string { return "tcp" }
func (a vhAddr) String() string  { return string(a) }

type vhClient struct {
	tls    *tls.ConnectionState
	opts   *server.ClientOpts
	remote net.Addr
	nonce  []byte
	kind   int
	user   *server.User
}

func (c *vhClient) GetTLSConnectionState() *tls.ConnectionState { return c.tls }
func (c *vhClient) GetOpts() *server.ClientOpts                 { return c.opts }
func (c *vhClient) RegisterUser(u *server.User)                 { c.user = u }
func (c *vhClient) RemoteAddress() net.Addr                     { return c.remote }
func (c *vhClient) GetNonce() []byte                            { return c.nonce }
func (c *vhClient) Kind() int                                   { return c.kind }
func (c *vhClient) GetID() uint64                               { return 1 }

type vhKeys struct {
	aPub, cPub, xPub, zPub, ownPub, otherPub ed25519.PublicKey
	aPri, cPri, xPri, zPri, ownPri, otherPri ed25519.PrivateKey
	b, p                                     *rsa.PrivateKey
	bFile, pFile                             string
	cache                                    map[string]string
}

func vhPub(r *vhReporter, f string, k *rsa.PrivateKey) {
	der, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
	if err != nil {
		r.Error("%v", err)
	}
	err = os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}), 0600)
	if err != nil {
		r.Error("%v", err)
	}
}

func vhNewKeys(r *vhReporter, dir string) *vhKeys {
	k := &vhKeys{cache: map[string]string{}}
	k.aPub, k.aPri, _ = ed25519.GenerateKey(rand.Reader)
	k.cPub, k.cPri, _ = ed25519.GenerateKey(rand.Reader)
	k.xPub, k.xPri, _ = ed25519.GenerateKey(rand.Reader)
	k.zPub, k.zPri, _ = ed25519.GenerateKey(rand.Reader)
	k.ownPub, k.ownPri, _ = ed25519.GenerateKey(rand.Reader)
	k.otherPub, k.otherPri, _ = ed25519.GenerateKey(rand.Reader)
	k.b, _ = rsa.GenerateKey(rand.Reader, 2048)
	k.p, _ = rsa.GenerateKey(rand.Reader, 2048)
	k.bFile, k.pFile = filepath.Join(dir, "b.pem"), filepath.Join(dir, "p.pem")
	vhPub(r, k.bFile, k.b)
	vhPub(r, k.pFile, k.p)
	return k
}

func (k *vhKeys) signer(by string) any {
	switch by {
	case "A":
		return k.aPri
	case "B":
		return k.b
	case "C":
		return k.cPri
	case "X":
		return k.xPri
	case "P":
		return k.p
	}
	return nil
}

type vhTweaks struct {
	perms  *tokens.ClientPermissions
	sperms *tokens.ServerPermissions
	ou     string
	extra  bool
	cs     []string
}

func (k *vhKeys) std(r *vhReporter, sc *tokens.StandardClaims, ou *string, name *string, t vhTok) any {
	signer := k.signer(t.By)
	switch t.V {
	case "expired":
		sc.ExpiresAt = jwt.NewNumericDate(time.Now().Add(-time.Hour))
		sc.NotBefore = jwt.NewNumericDate(time.Now().Add(-2 * time.Hour))
		sc.IssuedAt = sc.NotBefore
	case "notyet":
		sc.NotBefore = jwt.NewNumericDate(time.Now().Add(time.Hour))
	case "noname":
		*name = ""
	case "nokey":
		sc.PublicKey = ""
	case "badkey":
		sc.PublicKey = "abcd"
	case "noou":
		*ou = ""
	case "otherou", "acme":
		*ou = "acme"
	case "chained", "chainexpired", "chainforged":
		h, err := tokens.NewClientIDClaims("up=handler", nil, "choria", nil, "", "", time.Hour, nil, k.zPub)
		if err != nil {
			r.Error("%v", err)
		}
		ik := k.aPri
		if t.V == "chainforged" {
			ik = k.xPri
		}
		err = h.AddOrgIssuerData(ik)
		if err != nil {
			r.Error("%v", err)
		}
		err = sc.AddChainIssuerData(h, k.zPri)
		if err != nil {
			r.Error("%v", err)
		}
		if t.V == "chainexpired" {
			sc.IssuerExpiresAt = jwt.NewNumericDate(time.Now().Add(-time.Minute))
			sc.ExpiresAt = jwt.NewNumericDate(time.Now().Add(time.Hour))
		}
		signer = k.zPri
	}
	return signer
}

func (k *vhKeys) token(r *vhReporter, t vhTok, tw vhTweaks) string {
	if t.K == "none" {
		return ""
	}
	if t.K == "garbage" {
		return "x.y.z"
	}
	cj, _ := json.Marshal([]any{t, tw.perms, tw.sperms, tw.ou, tw.extra, tw.cs})
	if s, ok := k.cache[string(cj)]; ok {
		return s
	}
	var (
		claims jwt.Claims
		signer any
		err    error
	)
	ou := tw.ou
	if ou == "" {
		ou = "choria"
	}
	switch t.K {
	case "client", "unknown":
		c, e := tokens.NewClientIDClaims(vhCaller, nil, ou, nil, "", "", time.Hour, tw.perms, k.ownPub)
		if e != nil {
			r.Error("%v", e)
		}
		if tw.extra {
			c.AdditionalPublishSubjects = []string{"acme.extra.>"}
			c.AdditionalSubscribeSubjects = []string{"acme.extra.>"}
		}
		signer = k.std(r, &c.StandardClaims, &c.OrganizationUnit, &c.CallerID, t)
		if t.K == "unknown" {
			c.Purpose = "choria_other"
		}
		claims = c
	case "server":
		cs := tw.cs
		if len(cs) == 0 {
			cs = []string{"mt"}
		}
		c, e := tokens.NewServerClaims(vhIdentity, cs, ou, tw.sperms, nil, k.ownPub, "", time.Hour)
		if e != nil {
			r.Error("%v", e)
		}
		if tw.cs != nil && len(tw.cs) == 0 {
			c.Collectives = []string{}
		}
		if tw.extra {
			c.AdditionalPublishSubjects = []string{"acme.extra.>"}
		}
		signer = k.std(r, &c.StandardClaims, &c.OrganizationUnit, &c.ChoriaIdentity, t)
		claims = c
	case "prov":
		c, e := tokens.NewProvisioningClaims(true, true, "s3cret", "", "", []string{"nats://localhost:4222"}, "", "", "", ou, "", time.Hour)
		if e != nil {
			r.Error("%v", e)
		}
		n := ""
		signer = k.std(r, &c.StandardClaims, &c.OrganizationUnit, &n, t)
		claims = c
	}
	var s string
	if t.V == "algnone" {
		s, err = jwt.NewWithClaims(jwt.SigningMethodNone, claims).SignedString(jwt.UnsafeAllowNoneSignatureType)
	} else {
		s, err = tokens.SignToken(claims, signer)
	}
	if err != nil {
		r.Error("signing %v: %v", t, err)
	}
	if t.V == "tampered" {
		parts := strings.Split(s, ".")
		dat, _ := base64.RawURLEncoding.DecodeString(parts[1])
		nd := strings.Replace(strings.Replace(string(dat), vhCaller, "up=ME", 1), vhIdentity, "ME.example", 1)
		if nd == string(dat) {
			r.Error("could not tamper")
		}
		parts[1] = base64.RawURLEncoding.EncodeToString([]byte(nd))
		s = strings.Join(parts, ".")
	}
	k.cache[string(cj)] = s
	return s
}

var (
	vhAccChoria = &server.Account{Name: "choria"}
	vhAccSystem = &server.Account{Name: "system"}
	vhAccProv   = &server.Account{Name: "provisioning"}
)

func vhAuth(k *vhKeys, x *vhRow, log *logrus.Entry) *ChoriaAuth {
	a := &ChoriaAuth{log: log, choriaAccount: vhAccChoria, isTLS: x.TLS, denyServers: x.Deny, allowIssuerBasedTLSAccess: x.MTLS, provWithoutToken: x.NoToken,
		issuerTokens: map[string]string{}}
	switch x.Mode {
	case "signers":
		a.clientJwtSigners = []string{k.bFile, hex.EncodeToString(k.aPub)}
		a.serverJwtSigners = []string{hex.EncodeToString(k.aPub), k.bFile}
	case "issuer":
		a.issuerTokens = map[string]string{"choria": hex.EncodeToString(k.aPub), "acme": hex.EncodeToString(k.cPub)}
	}
	switch x.Allow {
	case "in":
		a.clientAllowList = []string{"192.0.2.0/24"}
	case "out":
		a.clientAllowList = []string{"198.51.100.7", "203.0.113.0/24"}
	}
	switch x.Prov {
	case "nopass":
		a.provisioningAccount, a.provisioningTokenSigner = vhAccProv, k.pFile
	case "nosigner":
		a.provisioningAccount, a.provPass = vhAccProv, "provpw"
	case "noacct":
		a.provPass, a.provisioningTokenSigner = "provpw", k.pFile
	case "on":
		a.provisioningAccount, a.provPass, a.provisioningTokenSigner = vhAccProv, "provpw", k.pFile
	}
	switch x.Sys {
	case "nopass":
		a.systemUser, a.systemAccount = "system", vhAccSystem
	case "noacct":
		a.systemUser, a.systemPass = "system", "syspw"
	case "full":
		a.systemUser, a.systemPass, a.systemAccount = "system", "syspw", vhAccSystem
	}
	return a
}

func vhConn(r *vhReporter, k *vhKeys, x *vhRow, tw vhTweaks) *vhClient {
	c := &vhClient{nonce: []byte("a-nonce-1234"), kind: server.CLIENT, opts: &server.ClientOpts{Username: x.User}}
	if x.Kind == "leaf" {
		c.kind = server.LEAF
	}
	switch x.Remote {
	case "tcp":
		c.remote = vhAddr("192.0.2.10:4500")
	case "pipe":
		c.remote = vhAddr("pipe")
	}
	switch x.Conn {
	case "unverified":
		c.tls = &tls.ConnectionState{}
	case "verified":
		cert := &x509.Certificate{}
		c.tls = &tls.ConnectionState{VerifiedChains: [][]*x509.Certificate{{cert}}, PeerCertificates: []*x509.Certificate{cert}}
	}
	switch x.Pass {
	case "right":
		c.opts.Password = "pw"
		switch x.User {
		case "provisioner":
			c.opts.Password = "provpw"
		case "system":
			c.opts.Password = "syspw"
		}
	case "wrong":
		c.opts.Password = "nope"
	}
	c.opts.Token = k.token(r, x.Token, tw)
	sign := func(pri ed25519.PrivateKey, n []byte) string {
		return base64.RawURLEncoding.EncodeToString(ed25519.Sign(pri, n))
	}
	switch x.Sig {
	case "good":
		c.opts.Sig = sign(k.ownPri, c.nonce)
	case "otherkey":
		c.opts.Sig = sign(k.otherPri, c.nonce)
	case "othernonce":
		c.opts.Sig = sign(k.ownPri, []byte("another"))
	case "garbage":
		c.opts.Sig = "not base64 !"
	case "emptynonce":
		c.nonce = nil
		c.opts.Sig = sign(k.ownPri, nil)
	}
	return c
}

// does filter f cover subject (or wildcard) s
func vhCovers(f, s string) bool {
	ft, st := strings.Split(f, "."), strings.Split(s, ".")
	for i, t := range ft {
		if t == ">" {
			return len(st) > i
		}
		if i >= len(st) {
			return false
		}
		if t == "*" {
			if st[i] == ">" {
				return false
			}
			continue
		}
		if t != st[i] {
			return false
		}
	}
	return len(ft) == len(st)
}

func vhOverlaps(f, s string) bool {
	ft, st := strings.Split(f, "."), strings.Split(s, ".")
	for i := 0; ; i++ {
		if i == len(ft) || i == len(st) {
			return len(ft) == len(st)
		}
		if ft[i] == ">" || st[i] == ">" {
			return true
		}
		if ft[i] != "*" && st[i] != "*" && ft[i] != st[i] {
			return false
		}
	}
}

func vhAllowed(p *server.SubjectPermission, s string) bool {
	if p == nil {
		return true
	}
	for _, d := range p.Deny {
		if vhOverlaps(d, s) {
			return false
		}
	}
	if len(p.Allow) == 0 {
		return true
	}
	for _, a := range p.Allow {
		if vhCovers(a, s) {
			return true
		}
	}
	return false
}

func vhResolve(s string, me string) string {
	s = strings.ReplaceAll(s, ".MES.", fmt.Sprintf(".%x.", sha256.Sum256([]byte(me))))
	s = strings.ReplaceAll(s, ".ME.", fmt.Sprintf(".%x.", md5.Sum([]byte(me))))
	return strings.ReplaceAll(s, ".OTHER.", fmt.Sprintf(".%x.", md5.Sum([]byte("up=somebody"))))
}

func vhComparePerms(r *vhReporter, id string, in *vhIn, set string, k string, u *server.User, memo map[string]bool) {
	exp, ok := in.Sets[set]
	if !ok {
		r.Error("no permission set %q", set)
	}
	me := vhCaller
	if k == "server" {
		me = vhIdentity
	}
	fp, _ := json.Marshal([]any{set, u.Permissions, me})
	if memo[string(fp)] {
		return
	}
	memo[string(fp)] = true
	var pub, sub *server.SubjectPermission
	if u.Permissions != nil {
		pub, sub = u.Permissions.Publish, u.Permissions.Subscribe
	}
	check := func(what string, want []string, p *server.SubjectPermission) {
		w := map[string]bool{}
		for _, s := range want {
			w[s] = true
		}
		uni := in.Concrete
		if exp.U == "all" {
			uni = append(append([]string{}, in.Concrete...), in.Wild...)
		}
		for _, s := range uni {
			r.Count("subjects")
			got := vhAllowed(p, vhResolve(s, me))
			if got != w[s] {
				r.Mismatch(id, 0, what+":"+s, w[s], got, set)
			}
		}
	}
	check("pub", exp.Pub, pub)
	check("sub", exp.Sub, sub)
}

func TestVerif(t *testing.T) {
	in := vhIn{}
	r := vhOpen(t, &in)
	dir := t.TempDir()
	k := vhNewKeys(r, dir)
	lg := logrus.New()
	lg.Out = io.Discard
	log := logrus.NewEntry(lg)
	auths := map[string]*ChoriaAuth{}
	memo := map[string]bool{}

	for _, c := range in.Cases {
		r.Case(c.ID)
		r.Step()
		var (
			x  *vhRow
			tw vhTweaks
		)
		if c.R != nil {
			x = c.R
			switch x.Perm {
			case "none":
				tw.perms = &tokens.ClientPermissions{}
			case "system":
				tw.perms = &tokens.ClientPermissions{SystemUser: true}
			case "org":
				tw.perms = &tokens.ClientPermissions{OrgAdmin: true}
			case "others":
				tw.perms = &tokens.ClientPermissions{StreamsAdmin: true, StreamsUser: true, EventsViewer: true, ElectionUser: true, Governor: true, FleetManagement: true, SignedFleetManagement: true,
					ExtendedServiceLifetime: true, AuthenticationDelegator: true}
			case "provisioner":
				tw.perms = &tokens.ClientPermissions{ServerProvisioner: true}
			}
		} else {
			x = &vhRow{TLS: true, Mode: "issuer", Prov: "on", Allow: "none", Sys: "off", Remote: "tcp", Conn: "unverified", User: "bob", Pass: "right",
				Token: vhTok{K: c.Perm.K, By: "A", V: "ok"}, Sig: "good", Kind: "client"}
			if c.Perm.OU == "acme" {
				x.Token = vhTok{K: c.Perm.K, By: "C", V: "acme"}
			}
			tw.ou, tw.extra, tw.cs = c.Perm.OU, c.Perm.Extra, c.Perm.CS
			has := map[string]bool{}
			for _, p := range c.Perm.P {
				has[p] = true
			}
			if c.Perm.K == "client" {
				tw.cs = nil
				if !has["nil"] {
					tw.perms = &tokens.ClientPermissions{OrgAdmin: has["org"], StreamsAdmin: has["sadmin"], StreamsUser: has["suser"], EventsViewer: has["events"],
						ElectionUser: has["election"], Governor: has["gov"], FleetManagement: has["fleet"], SignedFleetManagement: has["signed"]}
				}
			} else if !has["nil"] {
				tw.sperms = &tokens.ServerPermissions{Streams: has["streams"], Submission: has["submission"], Governor: has["gov"], ServiceHost: has["service"]}
			}
		}
		ck, _ := json.Marshal([]any{x.TLS, x.Mode, x.MTLS, x.Prov, x.Allow, x.Deny, x.Sys, x.NoToken})
		a, ok := auths[string(ck)]
		if !ok {
			a = vhAuth(k, x, log)
			auths[string(ck)] = a
		}
		conn := vhConn(r, k, x, tw)
		got := false
		res := vhGuard(10*time.Second, func() { got = a.Check(conn) })
		if res != "" {
			r.Mismatch(c.ID, 0, "crash", "a decision", res)
			continue
		}
		if c.R == nil {
			if !got || conn.user == nil {
				// not this table's subject; a refused role is P12's concern
				r.Mismatch(c.ID, 0, "refused", true, got)
				continue
			}
			vhComparePerms(r, c.ID, &in, c.Set, c.Perm.K, conn.user, memo)
			continue
		}
		type verdict struct {
			OK   bool   `json:"ok"`
			Acct string `json:"acct"`
			User string `json:"user"`
		}
		g := verdict{OK: got}
		if got {
			if conn.user == nil {
				r.Mismatch(c.ID, 0, "no-user", "a registered user", nil)
				continue
			}
			g.User = conn.user.Username
			if conn.user.Account != nil {
				g.Acct = conn.user.Account.Name
			}
		}
		e := verdict{OK: c.V.OK, Acct: c.V.Acct, User: c.V.User}
		switch e.User {
		case "caller":
			e.User = vhCaller
		case "identity":
			e.User = vhIdentity
		}
		if in.PID == "P12" {
			if g != e {
				r.Mismatch(c.ID, 0, "verdict", e, g)
			}
			continue
		}
		if got && c.V.OK && c.Set != "" {
			vhComparePerms(r, c.ID, &in, c.Set, x.Token.K, conn.user, memo)
		}
	}
	r.Sample(in.Cases[0])
	r.Done()
}
