package vh

import (
	"bufio"
	"context"
	"crypto/ed25519"
	"crypto/md5"
	"crypto/tls"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/choria-io/go-choria/build"
	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/srvcache"
	"github.com/nats-io/nats.go"
	"github.com/sirupsen/logrus"
)

type cnCase struct {
	ID   string `json:"id"`
	Kind string `json:"kind"`
	Row  struct {
		Sec    string `json:"sec"`
		Who    string `json:"who"`
		NoTLS  bool   `json:"notls"`
		Prov   string `json:"prov"`
		Token  string `json:"token"`
		Seed   string `json:"seed"`
		User   string `json:"user"`
		CA     bool   `json:"ca"`
		Broker string `json:"broker"`
	} `json:"row"`
	St   string `json:"st"`
	Link string `json:"link"`
	Cred struct {
		User   bool   `json:"user"`
		Token  string `json:"token"`
		Signed bool   `json:"signed"`
		Inbox  string `json:"inbox"`
	} `json:"cred"`
	Dead  bool `json:"dead"`
	Steps []struct {
		A struct {
			Op   string   `json:"op"`
			How  string   `json:"how"`
			S    string   `json:"s"`
			Subs []string `json:"subs"`
			Pend int      `json:"pend"`
			Was  string   `json:"was"`
		} `json:"a"`
	} `json:"steps"`
}

type cnConnect struct {
	User  string `json:"user"`
	Pass  string `json:"pass"`
	Token string `json:"auth_token"`
	Jwt   string `json:"jwt"`
	Sig   string `json:"sig"`
	Name  string `json:"name"`
	tls   bool
}

// cnBroker speaks enough of the NATS protocol to see what a client says
type cnBroker struct {
	l        net.Listener
	tlsc     *tls.Config
	gate     chan string // what to do with the next try, nil to accept all
	mu       sync.Mutex
	connects []cnConnect
	tries    int
	subs     map[string]string // of the current connection, subject by sid
	pubs     []string
	cur      net.Conn
	w        sync.Mutex
}

const cnNonce = "nonce-to-sign"

func cnListen(r *vhReporter, tlsc *tls.Config, gate chan string) *cnBroker {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Error("listen: %v", err)
	}
	b := &cnBroker{l: l, tlsc: tlsc, gate: gate, subs: map[string]string{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go b.serve(c)
		}
	}()
	return b
}

func (b *cnBroker) send(c net.Conn, f string, a ...any) {
	b.w.Lock()
	defer b.w.Unlock()
	fmt.Fprintf(c, f, a...)
}

func (b *cnBroker) serve(c net.Conn) {
	defer c.Close()
	b.mu.Lock()
	b.tries++
	b.mu.Unlock()
	do := "accept"
	raw := bufio.NewReader(c)
	left := make(chan struct{})
	if b.gate == nil {
		close(left)
	} else {
		// clients wait to be spoken to: one that speaks or leaves has given up on this try
		go func() { raw.Peek(1); close(left) }()
		select {
		case do = <-b.gate:
		case <-left:
			return
		}
	}
	if do == "gone" {
		return
	}
	info := map[string]any{"server_id": "x", "server_name": "x", "version": "2.12.0", "proto": 1, "host": "127.0.0.1", "port": 1, "headers": true, "max_payload": 1048576,
		"auth_required": true, "nonce": cnNonce, "tls_required": b.tlsc != nil}
	j, _ := json.Marshal(info)
	b.send(c, "INFO %s\r\n", j)
	if b.tlsc != nil {
		t := tls.Server(c, b.tlsc)
		if t.Handshake() != nil {
			return
		}
		c = t
	}
	<-left
	in := raw
	if b.tlsc != nil {
		in = bufio.NewReader(c)
	}
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		switch strings.ToUpper(f[0]) {
		case "CONNECT":
			var cc cnConnect
			json.Unmarshal([]byte(strings.TrimSpace(line[7:])), &cc)
			cc.tls = b.tlsc != nil
			b.mu.Lock()
			b.connects = append(b.connects, cc)
			b.cur = c
			b.subs = map[string]string{}
			b.mu.Unlock()
			if do == "auth" {
				b.send(c, "-ERR 'Authorization Violation'\r\n")
				return
			}
		case "PING":
			b.send(c, "PONG\r\n")
		case "SUB":
			b.mu.Lock()
			b.subs[f[len(f)-1]] = strings.Join(f[1:len(f)-1], " ")
			b.mu.Unlock()
		case "UNSUB":
			b.mu.Lock()
			delete(b.subs, f[1])
			b.mu.Unlock()
		case "PUB", "HPUB":
			n, _ := strconv.Atoi(f[len(f)-1])
			body := make([]byte, n+2)
			if _, err := io.ReadFull(in, body); err != nil {
				return
			}
			b.mu.Lock()
			b.pubs = append(b.pubs, f[1]+" "+string(body[:n]))
			b.mu.Unlock()
		}
	}
}

// cnDead reserves a port nobody listens on
func cnDead(r *vhReporter) (int, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		r.Error("socket: %v", err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		r.Error("bind: %v", err)
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		r.Error("name: %v", err)
	}
	return sa.(*syscall.SockaddrInet4).Port, func() { syscall.Close(fd) }
}

func (b *cnBroker) has() []string {
	b.mu.Lock()
	defer b.mu.Unlock()
	out := []string{}
	for _, s := range b.subs {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func cnServers(ports ...int) srvcache.Servers {
	var s []srvcache.Server
	for _, p := range ports {
		s = append(s, srvcache.NewServer("127.0.0.1", p, "nats"))
	}
	return srvcache.NewServers(s...)
}

func (b *cnBroker) port() int { return b.l.Addr().(*net.TCPAddr).Port }

type cnWorld struct {
	r    *vhReporter
	dir  string
	k    *vhRing
	ca   *vhCA
	cert string
	key  string
	tlsc map[string]*tls.Config
	log  *logrus.Entry
}

func (w *cnWorld) config(dir string) *config.Config {
	cfg := config.NewConfigForTests()
	cfg.DisableSecurityProviderVerify = true
	cfg.LogLevel = "fatal"
	cfg.Identity = "me.example"
	cfg.ConfigFile = filepath.Join(dir, "server.conf")
	cfg.Collectives, cfg.MainCollective = []string{"mt", "sub"}, "mt"
	cfg.Choria.SecurityProvider = "file"
	cfg.Choria.FileSecurityCA, cfg.Choria.FileSecurityCertificate, cfg.Choria.FileSecurityKey = w.ca.file, w.cert, w.key
	cfg.Choria.NetworkConnectTimeout = 5 * time.Second
	return cfg
}

func (w *cnWorld) connect(c *cnCase) {
	r, row, k := w.r, c.Row, w.k
	dir := filepath.Join(w.dir, c.ID)
	os.MkdirAll(dir, 0700)
	defer os.RemoveAll(dir)
	cfg := w.config(dir)
	cfg.InitiatedByServer = row.Who == "server"
	cfg.DisableTLS = row.NoTLS
	tf := filepath.Join(dir, "tok.jwt")
	who, other, v := "me.example", "us.example", "ok"
	if row.Who == "client" {
		who, other = "up=bob", "up=rob"
	}
	if row.Token == "other" {
		who = other
	}
	if row.Token == "expired" {
		v = "expired"
	}
	tok := ""
	if row.Who == "client" {
		tok = k.Client(who, "B", "A", v, nil, nil)
	} else {
		tok = k.Server(who, "B", "A", v, nil)
	}
	if row.Token != "missing" {
		os.WriteFile(tf, []byte(tok+"\n"), 0600)
	}
	seed := k.Seed("B")
	build.ProvisionToken, build.ProvisionJWTFile = "", ""
	ch := cfg.Choria
	switch row.Sec {
	case "anon":
		if row.Who == "server" {
			ch.ServerAnonTLS, ch.ServerTokenFile, ch.ServerTokenSeedFile = true, tf, seed
		} else {
			ch.ClientAnonTLS, ch.RemoteSignerTokenFile, ch.RemoteSignerTokenSeedFile = true, tf, seed
		}
	case "choria":
		ch.SecurityProvider = "choria"
		ch.ChoriaSecurityTokenFile, ch.ChoriaSecuritySeedFile = tf, seed
		ch.ChoriaSecurityTrustedSigners = []string{k.Hex("A")}
		if row.CA {
			ch.ChoriaSecurityCA = w.ca.file
		}
		ch.ChoriaSecurityCertificate, ch.ChoriaSecurityKey = w.cert, w.key
	}
	provjwt := ""
	if row.Prov != "no" {
		cfg.SetOption("plugin.choria.server.provision", "1")
		ch.Provision = true
		build.ProvisionToken = "secret"
		if row.Prov == "jwt" {
			build.ProvisionJWTFile = filepath.Join(dir, "prov.jwt")
			provjwt = k.Prov("A", "ok")
			os.WriteFile(build.ProvisionJWTFile, []byte(provjwt), 0600)
		}
	}
	switch row.User {
	case "both":
		ch.NatsUser, ch.NatsPass = "nu", "np"
	case "half":
		ch.NatsUser = "nu"
	}
	fw, err := choria.NewWithConfig(cfg)
	if err != nil {
		r.Error("framework: %v", err)
	}
	if row.Seed == "missing" {
		for _, f := range []*string{&ch.ServerTokenSeedFile, &ch.RemoteSignerTokenSeedFile, &ch.ChoriaSecuritySeedFile} {
			if *f != "" {
				*f = filepath.Join(dir, "gone.seed")
			}
		}
	}
	b := cnListen(r, w.tlsc[row.Broker], nil)
	defer b.l.Close()
	wait := 15 * time.Second
	if c.St == "never" {
		wait = 600 * time.Millisecond
	}
	ctx, cancel := context.WithTimeout(context.Background(), wait)
	defer cancel()
	asked := 0
	var conn inter.Connector
	begin := time.Now()
	res := vhGuard(30*time.Second, func() {
		conn, err = fw.NewConnector(ctx, func() (srvcache.Servers, error) { asked++; return cnServers(b.port()), nil }, "verif", w.log)
	})
	took := time.Since(begin)
	r.Step()
	if res != "" {
		r.Mismatch(c.ID, 0, "connect-"+strings.Split(res, ":")[0], c.St, res, row)
		return
	}
	if conn != nil && err == nil {
		defer conn.Close()
	}
	b.mu.Lock()
	got := append([]cnConnect{}, b.connects...)
	b.mu.Unlock()
	st := "connected"
	if err != nil {
		st = "never"
		if asked == 0 {
			st = "refused"
		}
	}
	if st != c.St {
		r.Mismatch(c.ID, 0, "connect-"+c.St, c.St, fmt.Sprint(st, " ", err), row)
		return
	}
	if st != "connected" {
		// nothing is told to a broker that is not connected to
		if len(got) != 0 {
			r.Mismatch(c.ID, 0, "connect-told", c.St, got, row)
		}
		if st == "never" && took < 500*time.Millisecond {
			r.Mismatch(c.ID, 0, "connect-gave-up", "keeps trying", took.String(), row)
		}
		return
	}
	r.Count("connected")
	if len(got) != 1 {
		r.Mismatch(c.ID, 0, "connect-count", 1, got, row)
		return
	}
	g := got[0]
	if g.tls != (c.Link == "tls") {
		r.Mismatch(c.ID, 0, "connect-link", c.Link, g.tls, row)
	}
	if (g.User == "nu" && g.Pass == "np") != c.Cred.User || (!c.Cred.User && g.User+g.Pass != "") {
		r.Mismatch(c.ID, 0, "connect-user", c.Cred, g, row)
	}
	want := map[string]string{"own": tok, "prov": provjwt, "none": ""}[c.Cred.Token]
	if g.Token != want {
		r.Mismatch(c.ID, 0, "connect-token", c.Cred.Token, g.Token, row)
	}
	if c.Cred.Signed {
		sig, err := base64.RawURLEncoding.DecodeString(g.Sig)
		if err != nil || !ed25519.Verify(k.pub["B"], []byte(cnNonce), sig) || g.Jwt != tok {
			r.Mismatch(c.ID, 0, "connect-signature", "valid", g, row)
		}
	} else if g.Jwt != "" || g.Sig != "" {
		r.Mismatch(c.ID, 0, "connect-signature", "none", g, row)
	}
	if g.Name != "verif" {
		r.Mismatch(c.ID, 0, "connect-name", "verif", g.Name, row)
	}
	prefix := "mt.reply"
	if c.Cred.Inbox == "unique" {
		prefix = fmt.Sprintf("mt.reply.%x", md5.Sum([]byte(who)))
	}
	if p := conn.InboxPrefix(); p != prefix || conn.ConnectionOptions().InboxPrefix != prefix {
		r.Mismatch(c.ID, 0, "connect-inbox", prefix, p, row)
	}
	if o := conn.ConnectionOptions(); o.MaxReconnect != -1 || (row.Who == "client") != (o.PingInterval == 30*time.Second) {
		r.Mismatch(c.ID, 0, "connect-options", "reconnects for ever", fmt.Sprint(o.MaxReconnect, o.PingInterval), row)
	}
}

func (w *cnWorld) walk(c *cnCase) {
	r := w.r
	dir := filepath.Join(w.dir, c.ID)
	os.MkdirAll(dir, 0700)
	defer os.RemoveAll(dir)
	cfg := w.config(dir)
	cfg.DisableTLS = true
	cfg.InitiatedByServer = true
	fw, err := choria.NewWithConfig(cfg)
	if err != nil {
		r.Error("framework: %v", err)
	}
	gate := make(chan string)
	nowhere := make(chan bool, 10)
	b := cnListen(r, nil, gate)
	defer b.l.Close()
	dead := 0
	if c.Dead {
		p, release := cnDead(r)
		defer release()
		dead = p
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var conn inter.Connector
	var cerr error
	ready := make(chan struct{})
	// the first tries nobody can be found, until told otherwise
	lead := 0
	for _, s := range c.Steps {
		if s.A.Op == "fail" && s.A.How == "nowhere" {
			lead++
		}
		if s.A.Op == "accept" || s.A.Op == "close" {
			break
		}
	}
	order := []string{}
	for _, s := range c.Steps {
		if s.A.Op == "fail" {
			order = append(order, s.A.How)
		} else if s.A.Op == "accept" || s.A.Op == "close" {
			break
		}
	}
	asked := 0
	var mu sync.Mutex
	go func() {
		defer close(ready)
		conn, cerr = fw.NewConnector(ctx, func() (srvcache.Servers, error) {
			mu.Lock()
			n := asked
			asked++
			mu.Unlock()
			if n < len(order) && order[n] == "nowhere" {
				nowhere <- true
				return srvcache.NewServers(), errors.New("cannot find any")
			}
			if dead != 0 {
				return cnServers(dead, b.port()), nil
			}
			return cnServers(b.port()), nil
		}, "verif", w.log)
	}()
	_ = lead
	outs := map[string]chan inter.ConnectorMessage{}
	stop := map[string]context.CancelFunc{}
	subject := map[string]string{"queue": "mt.queue grp", "chan": "mt.chan grp2", "ctx": "mt.ctx"}
	pubs := 0
	fail := func(i int, key string, exp, got any) {
		r.Mismatch(c.ID, i, "link-"+key, exp, got, c.Steps[i].A)
	}
	grant := func(i int, what string) bool {
		select {
		case gate <- what:
			return true
		case <-time.After(12 * time.Second):
			fail(i, "gave-up", "another try", "none")
			return false
		}
	}
	finish := func() {
		cancel()
		select {
		case <-ready:
			if cerr == nil && conn != nil && conn.Nats() != nil {
				conn.Nats().Close()
			}
		case <-time.After(10 * time.Second):
		}
		close(gate)
	}
	want := map[string]bool{}
	current := func() []string {
		out := []string{}
		for s, ok := range want {
			if ok {
				out = append(out, subject[s])
			}
		}
		sort.Strings(out)
		return out
	}
	check := func(i int, key string) bool {
		exp := current()
		if !vhEventually(5*time.Second, func() bool { return fmt.Sprint(b.has()) == fmt.Sprint(exp) }) {
			fail(i, key, exp, b.has())
			return false
		}
		return true
	}
	for i, s := range c.Steps {
		r.Step()
		switch s.A.Op {
		case "fail":
			if s.A.How == "nowhere" {
				select {
				case <-nowhere:
				case <-time.After(12 * time.Second):
					fail(i, "gave-up", "looks again", "nothing")
					finish()
					return
				}
				continue
			}
			if !grant(i, s.A.How) {
				finish()
				return
			}
		case "accept":
			if !grant(i, "accept") {
				finish()
				return
			}
			select {
			case <-ready:
			case <-time.After(8 * time.Second):
				fail(i, "accept", "connected", "still connecting")
				finish()
				return
			}
			if cerr != nil {
				fail(i, "accept", "connected", cerr.Error())
				finish()
				return
			}
			if !vhEventually(5*time.Second, conn.IsConnected) {
				fail(i, "accept", "connected", "not connected")
			}
			if !check(i, "subscriptions") {
				finish()
				return
			}
			if !vhEventually(5*time.Second, func() bool { b.mu.Lock(); defer b.mu.Unlock(); return len(b.pubs) == pubs }) {
				fail(i, "published", pubs, len(b.pubs))
			}
		case "drop":
			b.mu.Lock()
			b.cur.Close()
			b.mu.Unlock()
			vhEventually(5*time.Second, func() bool { return !conn.IsConnected() })
		case "sub":
			out := make(chan inter.ConnectorMessage, 10)
			sctx, scancel := context.WithCancel(ctx)
			var err error
			f := strings.Fields(subject[s.A.S] + " ")
			grp := ""
			if len(f) > 1 {
				grp = f[1]
			}
			if s.A.S == "chan" {
				out, err = conn.ChanQueueSubscribe(s.A.S, f[0], grp, 10)
			} else {
				err = conn.QueueSubscribe(sctx, s.A.S, f[0], grp, out)
			}
			if err != nil {
				fail(i, "subscribe", "ok", err.Error())
			}
			outs[s.A.S], stop[s.A.S] = out, scancel
			want[s.A.S] = true
			if !check(i, "subscribe") {
				finish()
				return
			}
		case "unsub":
			n := conn.Nats().NumSubscriptions()
			if s.A.S == "ctx" {
				stop[s.A.S]()
			} else if err := conn.Unsubscribe(s.A.S); err != nil {
				fail(i, "unsubscribe", "ok", err.Error())
			}
			want[s.A.S] = false
			if !vhEventually(3*time.Second, func() bool { return conn.Nats().NumSubscriptions() == n-1 }) {
				fail(i, "unsubscribe", n-1, conn.Nats().NumSubscriptions())
			}
			if conn.IsConnected() && !check(i, "unsubscribe") {
				finish()
				return
			}
		case "pub":
			pubs++
			var err error
			body := fmt.Sprintf("m%d", pubs)
			if pubs%2 == 0 {
				err = conn.PublishRaw("mt.target", []byte(body))
			} else {
				err = conn.PublishRawMsg(&nats.Msg{Subject: "mt.target", Data: []byte(body)})
			}
			if err != nil {
				fail(i, "publish", "ok", err.Error())
			}
			if conn.IsConnected() {
				if !vhEventually(5*time.Second, func() bool { b.mu.Lock(); defer b.mu.Unlock(); return len(b.pubs) == pubs && b.pubs[pubs-1] == "mt.target "+body }) {
					fail(i, "published", body, b.pubs)
				}
			}
		case "msg":
			sid := ""
			b.mu.Lock()
			for k, v := range b.subs {
				if v == subject[s.A.S] {
					sid = k
				}
			}
			cur := b.cur
			b.mu.Unlock()
			subj := strings.Fields(subject[s.A.S])[0]
			b.send(cur, "MSG %s %s reply.to 5\r\nhello\r\n", subj, sid)
			select {
			case m := <-outs[s.A.S]:
				if string(m.Data()) != "hello" || m.Subject() != subj || m.Reply() != "reply.to" {
					fail(i, "message", "hello", fmt.Sprint(m.Subject(), m.Reply(), string(m.Data())))
				}
			case <-time.After(5 * time.Second):
				fail(i, "message", "hello", "nothing")
			}
			for o, ch := range outs {
				if o != s.A.S && want[o] && len(ch) != 0 {
					fail(i, "message-elsewhere", s.A.S, o)
				}
			}
		case "close":
			r.Count("close " + s.A.Was)
			if s.A.Was == "connecting" {
				cancel()
				// a try under way ends as the broker lets it
				end := time.After(12 * time.Second)
			wait:
				for {
					select {
					case <-ready:
						break wait
					case gate <- "gone":
					case <-end:
						fail(i, "close", "ends", "still connecting")
						break wait
					}
				}
				if cerr == nil {
					fail(i, "close", "an error", "connected")
				}
			} else {
				if s.A.Was == "lost" {
					go func() { // tries under way
						defer func() { recover() }()
						for j := 0; j < 20; j++ {
							select {
							case gate <- "gone":
							case <-time.After(time.Second):
							}
						}
					}()
				}
				if res := vhGuard(20*time.Second, conn.Close); res != "" {
					fail(i, "close-"+strings.Split(res, ":")[0], "closed", res)
				}
				if conn.IsConnected() {
					fail(i, "close", "closed", "connected")
				}
			}
			b.mu.Lock()
			n := b.tries
			b.mu.Unlock()
			time.Sleep(1700 * time.Millisecond)
			b.mu.Lock()
			if b.tries != n {
				fail(i, "close-again", n, b.tries)
			}
			b.mu.Unlock()
			return
		}
	}
	finish()
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases []*cnCase `json:"cases"`
	}
	r := vhOpen(t, &in)
	dir := t.TempDir()
	l := logrus.New()
	l.SetOutput(io.Discard)
	w := &cnWorld{r: r, dir: dir, k: vhNewRing(r, dir, "A", "B"), ca: vhNewCA(r, dir, "ca"), log: logrus.NewEntry(l), tlsc: map[string]*tls.Config{"plain": nil}}
	w.k.Seed("B")
	evil := vhNewCA(r, dir, "evil")
	mk := func(ca *vhCA, ip string) *tls.Config {
		x := ca.Leaf(r, vhCertSpec{CN: "broker", SANs: []string{"broker.example"}, IPs: []net.IP{net.ParseIP(ip)}})
		c, err := tls.X509KeyPair(x.cert, x.key)
		if err != nil {
			r.Error("%v", err)
		}
		return &tls.Config{Certificates: []tls.Certificate{c}}
	}
	w.tlsc["good"], w.tlsc["evil"], w.tlsc["name"] = mk(w.ca, "127.0.0.1"), mk(evil, "127.0.0.1"), mk(w.ca, "192.0.2.9")
	leaf := w.ca.Leaf(r, vhCertSpec{CN: "me.example", SANs: []string{"me.example"}})
	w.cert, w.key = filepath.Join(dir, "me.pem"), filepath.Join(dir, "me.key")
	os.WriteFile(w.cert, leaf.cert, 0600)
	os.WriteFile(w.key, leaf.key, 0600)
	sem := make(chan struct{}, 12)
	var wg sync.WaitGroup
	for _, c := range in.Cases {
		if c.Kind == "row" {
			r.Case(c.ID)
			w.connect(c)
			continue
		}
		build.ProvisionToken, build.ProvisionJWTFile = "", ""
		sem <- struct{}{}
		r.Case(c.ID)
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			w.walk(c)
		}()
	}
	wg.Wait()
	r.Done()
}
