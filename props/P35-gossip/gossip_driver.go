package vh

// Walks the gossip specification with the real watcher on a virtual clock, announcing to a server at the end of a pipe.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/textproto"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/aagent/watchers/gossipwatcher"
	"github.com/nats-io/jsm.go"
	"github.com/nats-io/nats.go"
)

type gsState struct {
	Cfg struct {
		Iv  string `json:"iv"`
		Reg string `json:"reg"`
		TTL bool   `json:"ttl"`
	} `json:"cfg"`
	In    bool   `json:"in"`
	On    string `json:"on"`
	Alive bool   `json:"alive"`
	Conn  bool   `json:"conn"`
	Gen   int    `json:"gen"`
}

type gsAct struct {
	X      string `json:"x"`
	Settle bool   `json:"settle"`
	Lo     int    `json:"lo"`
	Hi     int    `json:"hi"`
}

type gsCase struct {
	ID    string  `json:"id"`
	Init  gsState `json:"init"`
	Steps []struct {
		A gsAct   `json:"a"`
		S gsState `json:"s"`
	} `json:"steps"`
}

type gsReg struct {
	C      string `json:"c"`
	S      string `json:"s"`
	P      string `json:"p"`
	IP     string `json:"ip"`
	Port   int    `json:"port"`
	Prefix string `json:"prefix"`
}

type gsRow struct {
	ID string `json:"id"`
	R  struct {
		K       string `json:"k"`
		Subject string `json:"subject"`
		Payload string `json:"payload"`
		Reg     gsReg  `json:"reg"`
		Iv      string `json:"iv"`
	} `json:"r"`
	OK      bool   `json:"ok"`
	Subject string `json:"subject"`
}

type gsMsg struct {
	Subject string
	Payload string
	TTL     string
}

// the server end of the pipe
type gsServer struct {
	mu   sync.Mutex
	msgs []gsMsg
}

func (s *gsServer) take() []gsMsg {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := s.msgs
	s.msgs = nil
	return m
}

func (s *gsServer) Dial(string, string) (net.Conn, error) {
	c, srv := net.Pipe()
	go func() {
		fmt.Fprintf(srv, "INFO {\"server_id\":\"x\",\"version\":\"2.11.0\",\"proto\":1,\"headers\":true,\"max_payload\":1048576}\r\n")
		rd := bufio.NewReader(srv)
		for {
			line, err := rd.ReadString('\n')
			if err != nil {
				return
			}
			f := strings.Fields(line)
			if len(f) == 0 {
				continue
			}
			switch f[0] {
			case "PING":
				fmt.Fprint(srv, "PONG\r\n")
			case "PUB", "HPUB":
				total, _ := strconv.Atoi(f[len(f)-1])
				buf := make([]byte, total+2)
				if _, err := io.ReadFull(rd, buf); err != nil {
					return
				}
				m := gsMsg{Subject: f[1], Payload: string(buf[:total])}
				if f[0] == "HPUB" {
					hl, _ := strconv.Atoi(f[len(f)-2])
					h := string(buf[:hl])
					m.Payload = string(buf[hl:total])
					if i := strings.Index(h, "\r\n"); i >= 0 {
						mh, _ := textproto.NewReader(bufio.NewReader(strings.NewReader(h[i+2:]))).ReadMIMEHeader()
						m.TTL = strings.Join(mh["Nats-Ttlseconds"], "|")
					}
				}
				s.mu.Lock()
				s.msgs = append(s.msgs, m)
				s.mu.Unlock()
			}
		}
	}()
	return c, nil
}

func gsConnect() (*gsServer, *nats.Conn, *jsm.Manager, error) {
	s := &gsServer{}
	nc, err := nats.Connect("nats://127.0.0.1:4222", nats.SkipHostLookup(), nats.SetCustomDialer(s), nats.PingInterval(1000*time.Hour), nats.NoReconnect())
	if err != nil {
		return nil, nil, nil, err
	}
	mgr, err := jsm.New(nc)
	return s, nc, mgr, err
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases  []*gsCase `json:"cases"`
		Rows   []*gsRow  `json:"rows"`
		Repeat int       `json:"repeat"`
	}
	r := vhOpen(t, &in)
	defer r.Done()
	for _, c := range in.Rows {
		r.Case(c.ID)
		r.Step()
		synctest.Test(t, func(t *testing.T) { gsDefine(r, c) })
	}
	for _, c := range in.Cases {
		r.Case(c.ID)
		for n := 0; n < in.Repeat; n++ {
			if n%2 == 1 {
				runtime.GOMAXPROCS(1)
			} else {
				runtime.GOMAXPROCS(4)
			}
			ok := true
			synctest.Test(t, func(t *testing.T) { ok = gsWalk(r, c, n) })
			if !ok {
				break
			}
		}
	}
}

func gsDefine(r *vhReporter, c *gsRow) {
	m := vhNewMachine("")
	p := map[string]any{}
	if c.R.K != "reg" {
		p["subject"] = c.R.Subject
		p["payload"] = c.R.Payload
	}
	if c.R.K != "plain" {
		p["registration"] = map[string]any{"cluster": c.R.Reg.C, "service": c.R.Reg.S, "protocol": c.R.Reg.P, "ip": c.R.Reg.IP, "port": c.R.Reg.Port, "prefix": c.R.Reg.Prefix, "priority": 7}
	}
	x, err := gossipwatcher.New(m, "gs", []string{"in"}, nil, "", "", c.R.Iv, 0, p)
	if (err == nil) != c.OK {
		r.Mismatch(c.ID, 0, "define", c.OK, fmt.Sprint(err), c.R)
		return
	}
	if err != nil {
		return
	}
	srv, nc, mgr, err := gsConnect()
	if err != nil {
		r.Error("%v", err)
	}
	m.jsm = mgr
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(1)
	w := x.(vhWatcher)
	go w.Run(ctx, &wg)
	synctest.Wait()
	got := srv.take()
	if len(got) != 1 || got[0].Subject != c.Subject {
		r.Mismatch(c.ID, 0, "define-subject", c.Subject, got, c.R)
	} else if c.R.K != "plain" {
		want := map[string]any{"cluster": c.R.Reg.C, "service": c.R.Reg.S, "protocol": c.R.Reg.P, "address": c.R.Reg.IP, "port": c.R.Reg.Port, "priority": 7}
		if !gsSameJSON(got[0].Payload, want) {
			r.Mismatch(c.ID, 0, "define-payload", want, got[0].Payload, c.R)
		}
	} else if got[0].Payload != c.R.Payload {
		r.Mismatch(c.ID, 0, "define-payload", c.R.Payload, got[0].Payload, c.R)
	}
	if iv := map[string]time.Duration{"": 15 * time.Second, "0s": 15 * time.Second, "5s": 5 * time.Second, "100ms": 100 * time.Millisecond}[c.R.Iv]; iv > 0 {
		time.Sleep(10*iv + iv/2)
		synctest.Wait()
		if n := len(srv.take()); n != 10 {
			r.Mismatch(c.ID, 0, "define-interval", 10, n, c.R)
		}
	}
	cancel()
	wg.Wait()
	time.Sleep(time.Hour)
	nc.Close()
	time.Sleep(time.Hour)
}

func gsSameJSON(s string, want any) bool {
	var v any
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		return false
	}
	return vhSame(v, want)
}

func gsWalk(r *vhReporter, c *gsCase, n0 int) bool {
	m := vhNewMachine("")
	srv, nc, mgr, err := gsConnect()
	if err != nil {
		r.Error("%v", err)
	}
	iv, conf := 10*time.Second, "10s"
	switch c.Init.Cfg.Iv {
	case "default":
		iv, conf = 15*time.Second, ""
	case "short":
		iv, conf = 50*time.Millisecond, "50ms"
	}
	p := map[string]any{}
	ttl := ""
	if c.Init.Cfg.TTL {
		p["ttl_seconds"] = 30
		ttl = "30s"
	}
	subject := func(gen int) string { return fmt.Sprintf("mt.gossip.g%d", gen) }
	payload := func(gen int) string { return fmt.Sprintf("up g%d", gen) }
	if c.Init.Cfg.Reg == "none" {
		p["subject"] = "mt.gossip.{{lookup\t\"data.gen\"\t\"x\"}}" // no spaces in subjects
		p["payload"] = `up {{ lookup "data.gen" "x" }}`
	} else {
		reg := map[string]any{"cluster": "lon", "service": "web", "protocol": "http", "ip": "10.0.0.1", "port": 80, "priority": 1, "annotations": map[string]string{"gen": "{{ lookup `data.gen` `x` }}"}}
		pre := "$KV.CHORIA_SERVICES"
		if c.Init.Cfg.Reg == "prefix" {
			pre = "my.kv"
			reg["prefix"] = pre
		}
		p["registration"] = reg
		subject = func(int) string { return pre + ".lon.http.web.1234" }
	}
	x, err := gossipwatcher.New(m, "gs", []string{"in", "in2"}, nil, "", "", conf, 0, p)
	if err != nil {
		r.Mismatch(c.ID, -1, "create", "a watcher", err.Error())
		return false
	}
	w := x.(vhWatcher)
	gen := func(g int) { m.DataPut("gen", fmt.Sprintf("g%d", g)) }
	gen(0)
	if c.Init.Conn {
		m.jsm = mgr
	}
	alt := false
	put := func(in bool) {
		s := "out"
		if in {
			s = "in"
		}
		if alt {
			s += "2"
		}
		alt = !alt
		m.Set(s)
	}
	put(c.Init.In)
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(1)
	go w.Run(ctx, &wg)
	gone := false
	del := func() {
		if !gone {
			gone = true
			x.(interface{ Delete() }).Delete()
		}
	}
	defer func() { // nothing may be left behind
		cancel()
		del()
		time.Sleep(time.Hour)
		wg.Wait()
		nc.Close()
		time.Sleep(time.Hour)
	}()
	bad := func(i int, key string, exp, got any) bool {
		a := gsAct{X: "init"}
		if i >= 0 {
			a = c.Steps[i].A
		}
		r.Mismatch(c.ID, i, "gossip-"+key, exp, got, fmt.Sprintf("%s settle=%v", a.X, a.Settle))
		return false
	}
	var last *gsMsg
	var lastAt time.Time
	check := func(i, lo, hi int, g int) bool {
		synctest.Wait()
		got := srv.take()
		if len(got) < lo || len(got) > hi {
			k := "missing"
			if len(got) > hi {
				k = "extra"
			}
			return bad(i, k, fmt.Sprintf("%d to %d announcements", lo, hi), got)
		}
		for _, m := range got {
			if m.Subject != subject(g) {
				return bad(i, "subject", subject(g), m.Subject)
			}
			if c.Init.Cfg.Reg == "none" {
				if m.Payload != payload(g) {
					return bad(i, "payload", payload(g), m.Payload)
				}
			} else if want := map[string]any{"cluster": "lon", "service": "web", "protocol": "http", "address": "10.0.0.1", "port": 80, "priority": 1, "annotations": map[string]any{"gen": fmt.Sprintf("g%d", g)}}; !gsSameJSON(m.Payload, want) {
				return bad(i, "payload", want, m.Payload)
			}
			if m.TTL != ttl {
				return bad(i, "ttl", ttl, m.TTL)
			}
			mm := m
			last = &mm
			lastAt = time.Now()
		}
		if last != nil {
			st := vhCurrent(w)
			if st["previous_subject"] != last.Subject || st["previous_payload"] != last.Payload {
				return bad(i, "state", last, st)
			}
			if at, _ := st["previous_gossip"].(float64); time.Unix(int64(at), 0).After(time.Now()) || lastAt.Sub(time.Unix(int64(at), 0)) > iv+2*time.Second {
				return bad(i, "state-time", lastAt.Unix(), st["previous_gossip"])
			}
		}
		return true
	}
	n := 0
	if c.Init.In && c.Init.Conn {
		n = 1
	}
	if !check(-1, n, n, 0) {
		return false
	}
	time.Sleep(iv / 10) // keeps away from the ticks
	for i, s := range c.Steps {
		r.Step()
		switch s.A.X {
		case "enter", "leave", "other":
			put(s.S.In)
			w.NotifyStateChance()
		case "half":
			time.Sleep(iv / 2)
		case "full":
			time.Sleep(iv)
		case "connect":
			m.mu.Lock()
			m.jsm = mgr
			m.mu.Unlock()
		case "change":
			gen(s.S.Gen)
		case "delete":
			del()
		case "cancel":
			cancel()
		}
		if !s.A.Settle {
			// the watcher gets various ways into it before the next one
			for k := 0; k < n0%5; k++ {
				runtime.Gosched()
			}
			continue
		}
		if !check(i, s.A.Lo, s.A.Hi, s.S.Gen) {
			return false
		}
		if s.A.X == "enter" || s.A.X == "leave" || s.A.X == "other" {
			// the phase of the ticks: entering comes right before it, others leave it alone
			if s.S.On == "0" && s.A.Lo+s.A.Hi > 0 || s.S.On == "0" && !s.S.Conn && s.A.X != "other" {
				time.Sleep(iv / 10)
			}
		}
	}
	return true
}
