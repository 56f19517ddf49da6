package submission

import (
	"context"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/choria-io/go-choria/backoff"
	"github.com/nats-io/nats.go"
	"github.com/sirupsen/logrus"
)

type spCase struct {
	ID    string `json:"id"`
	Kind  string `json:"kind"`
	Limit int    `json:"limit"`
	Trace bool   `json:"trace"`
	Steps []struct {
		A struct {
			N   string `json:"n"`
			M   string `json:"m"`
			Ok  bool   `json:"ok"`
			P   int    `json:"p"`
			Pub []struct {
				M     string `json:"m"`
				Tries int    `json:"tries"`
				Ok    bool   `json:"ok"`
			} `json:"pub"`
		} `json:"a"`
		S struct {
			O [][]string      `json:"-"`
			R json.RawMessage `json:"o"`
			T map[string]int  `json:"t"`
			D map[string]bool `json:"d"`
			H []string        `json:"h"`
			U []string        `json:"u"`
		} `json:"s"`
	} `json:"steps"`
	Rows []struct {
		R struct {
			Subject  string  `json:"subject"`
			Payload  string  `json:"payload"`
			Prio     uint    `json:"prio"`
			Created  string  `json:"created"`
			TTL      float64 `json:"ttl"`
			Sender   string  `json:"sender"`
			Hdr      string  `json:"hdr"`
			Reliable bool    `json:"reliable"`
		} `json:"r"`
		Ok bool `json:"ok"`
	} `json:"rows"`
}

// the connection: records what is handed to it and answers as scripted
type spConn struct {
	mu   sync.Mutex
	fail map[string]bool // message name -> publish fails
	seen []*nats.Msg
	rng  *rand.Rand
	name func(*nats.Msg) string
}

func (c *spConn) PublishRaw(string, []byte) error { return fmt.Errorf("unexpected") }

func (c *spConn) PublishRawMsg(msg *nats.Msg) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.seen = append(c.seen, msg)
	if c.fail[c.name(msg)] {
		return fmt.Errorf("simulated publish failure")
	}
	return nil
}

func (c *spConn) RequestRawMsgWithContext(ctx context.Context, msg *nats.Msg) (*nats.Msg, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.seen = append(c.seen, msg)
	rep := nats.NewMsg("reply")
	if c.fail[c.name(msg)] {
		switch c.rng.Intn(8) {
		case 0:
			return nil, nats.ErrNoResponders
		case 1:
			return nil, context.DeadlineExceeded
		case 2:
			rep.Data = []byte(`{"error":{"code":503,"description":"simulated"},"stream":"S","seq":0}`)
		case 3:
			rep.Data = nil
		case 4:
			rep.Data = []byte(`{"stream":"S","seq":10`)
		case 5:
			rep.Data = []byte(`{"error":{"code":400,"err_code":10071,"description":"wrong last sequence"}}`)
		case 6:
			return nil, nats.ErrConnectionClosed
		default:
			rep.Data = []byte(`garbage`)
		}
		return rep, nil
	}
	if c.rng.Intn(2) == 0 {
		rep.Data = []byte(`{"stream":"S","seq":10}`)
	} else {
		rep.Data = []byte(`{"stream":"S","seq":10,"duplicate":true}`)
	}
	return rep, nil
}

// gate lets the real spool poll freely but runs one scan of a priority only when asked to
type spGate struct {
	Store
	mu   sync.Mutex
	want map[uint]int // 2: discard the next batch, it may predate the request; 1: run it
	done chan struct{}
}

func (g *spGate) StartPoll(ctx context.Context, wg *sync.WaitGroup, h func([]*Message) error) error {
	return g.Store.StartPoll(ctx, wg, func(m []*Message) error {
		g.mu.Lock()
		defer g.mu.Unlock()
		if len(m) == 0 {
			return nil
		}
		p := m[0].Priority
		switch g.want[p] {
		case 2:
			g.want[p] = 1
			return nil
		case 1:
			g.want[p] = 0
			err := h(m)
			g.done <- struct{}{}
			return err
		}
		return nil
	})
}

type spRun struct {
	r      *vhReporter
	c      spCase
	dir    string
	spool  *Spool
	gate   *spGate
	conn   *spConn
	ctx    context.Context
	cancel func()
	wg     *sync.WaitGroup
	ids    map[string]string // message id -> name
	sent   map[string]*Message
	stuck  map[int]bool
	files  map[string]string
	pub    ed25519.PublicKey
}

func spIsReliable(m string) bool { return strings.HasPrefix(m, "r") }
func spPrio(m string) uint {
	if m == "r3" || m == "u2" {
		return 3
	}
	return 1
}
func spMaxTries(m string) uint {
	switch m {
	case "r1":
		return 2
	case "r2":
		return 3
	case "r3":
		return 1
	}
	return 500
}

func spLog() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return logrus.NewEntry(l)
}

func (x *spRun) start() error {
	if x.pub == nil {
		pub, key, err := ed25519.GenerateKey(nil)
		if err != nil {
			return err
		}
		x.pub = pub
		if err = os.WriteFile(x.dir+".seed", []byte(hex.EncodeToString(key.Seed())), 0600); err != nil {
			return err
		}
		if err = os.WriteFile(x.dir+".token", []byte("the.token"), 0600); err != nil {
			return err
		}
	}
	s, err := New("mt", "node.example", Directory, spLog(), WithSpoolDirectory(x.dir), WithMaxSpoolEntries(x.c.Limit), WithSeedFile(x.dir+".seed"), WithTokenFile(x.dir+".token"))
	if err != nil {
		return err
	}
	ds := s.store.(*DirectorySpool)
	ds.pollInterval = 2 * time.Millisecond
	ds.bo = backoff.Policy{Millis: []int{7200000}}
	x.gate = &spGate{Store: s.store, want: map[uint]int{}, done: make(chan struct{}, 10)}
	s.store = x.gate
	x.spool = s
	x.ctx, x.cancel = context.WithCancel(context.Background())
	x.wg = &sync.WaitGroup{}
	x.wg.Add(1)
	go s.Run(x.ctx, x.wg, x.conn)
	return nil
}

func (x *spRun) stop() bool {
	x.cancel()
	return vhGuard(20*time.Second, x.wg.Wait) == ""
}

// onDisk reads the spool: name -> decoded messages in file order per priority
func (x *spRun) onDisk() map[uint][]*Message {
	res := map[uint][]*Message{}
	for p := uint(0); p < 5; p++ {
		d := filepath.Join(x.dir, fmt.Sprintf("P%d", p))
		ents, _ := os.ReadDir(d)
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".msg") {
				continue
			}
			var m Message
			j, err := os.ReadFile(filepath.Join(d, e.Name()))
			if err != nil {
				continue
			}
			if json.Unmarshal(j, &m) != nil {
				m = Message{ID: "unparsable " + e.Name()}
			}
			m.sm = filepath.Join(d, e.Name())
			res[p] = append(res[p], &m)
		}
	}
	return res
}

func (x *spRun) name(m *nats.Msg) string {
	n, ok := x.ids[m.Header.Get("Nats-Msg-Id")]
	if !ok {
		return "?" + m.Header.Get("Nats-Msg-Id")
	}
	return n
}

func (x *spRun) rewrite(name string, edit func(map[string]any)) error {
	for _, ms := range x.onDisk() {
		for _, m := range ms {
			if x.ids[m.ID] != name {
				continue
			}
			j, err := os.ReadFile(m.sm.(string))
			if err != nil {
				return err
			}
			v := map[string]any{}
			if err := json.Unmarshal(j, &v); err != nil {
				return err
			}
			edit(v)
			j, _ = json.Marshal(v)
			tmp := filepath.Join(filepath.Dir(x.dir), filepath.Base(x.dir)+".edit")
			if err := os.WriteFile(tmp, j, 0600); err != nil {
				return err
			}
			return os.Rename(tmp, m.sm.(string))
		}
	}
	return fmt.Errorf("message %s is not in the spool", name)
}

func (x *spRun) run() {
	id := x.c.ID
	x.r.Case(id)
	if err := x.start(); err != nil {
		x.r.Error("start: %v", err)
	}
	defer x.cancel()

	for i, st := range x.c.Steps {
		x.r.Step()
		switch st.A.N {
		case "submit":
			m := x.spool.NewMessage()
			m.Subject = "sub." + st.A.M
			m.Payload = []byte(fmt.Sprintf("payload of %s \x00\xff %d", st.A.M, i))
			m.Priority = spPrio(st.A.M)
			m.Reliable = spIsReliable(st.A.M)
			m.MaxTries = spMaxTries(st.A.M)
			m.Sender = "verif"
			m.Headers = map[string]string{"X-Name": st.A.M}
			// how old it is and whether it is signed makes no difference to what is done with it
			m.Sign = (len(id)+int(id[len(id)-1])+int(st.A.M[1]))%3 == 0
			switch (int(id[len(id)-1]) + i + int(st.A.M[1])) % 5 {
			case 1:
				m.Created, m.TTL = time.Now().Add(-13*12*time.Hour), 7*24*3600
			case 2:
				m.Created, m.TTL = time.Now().Add(-30*24*time.Hour), 31*24*3600
			case 3:
				m.Created, m.TTL = time.Now().Add(-100*time.Minute), 2*3600
			case 4:
				m.TTL = 900
			}
			x.ids[m.ID] = st.A.M
			x.sent[st.A.M] = m
			err := x.spool.Submit(m)
			if (err == nil) != st.A.Ok {
				x.r.Mismatch(id, i, "P02:submit-accepted", st.A.Ok, fmt.Sprint(err))
				return
			}
		case "elapse":
			if err := x.rewrite(st.A.M, func(v map[string]any) { v["next_try"] = time.Now().Add(-time.Minute) }); err != nil {
				x.r.Error("%s step %d elapse: %v", id, i, err)
			}
		case "expire":
			if err := x.rewrite(st.A.M, func(v map[string]any) {
				v["created"] = time.Now().Add(-2 * time.Hour)
				v["ttl"] = 60
			}); err != nil {
				x.r.Error("%s step %d expire: %v", id, i, err)
			}
		case "restart":
			if !x.stop() {
				x.r.Mismatch(id, i, "P01:stop", "the spool stops when cancelled", "it did not within 20s")
				return
			}
			if err := x.start(); err != nil {
				x.r.Mismatch(id, i, "P01:restart", "the spool starts again", err.Error())
				return
			}
		case "stick":
			os.Chmod(filepath.Join(x.dir, fmt.Sprintf("P%d", st.A.P)), 0500)
			x.stuck[st.A.P] = true
		case "unstick":
			os.Chmod(filepath.Join(x.dir, fmt.Sprintf("P%d", st.A.P)), 0700)
			x.stuck[st.A.P] = false
			time.Sleep(10 * time.Millisecond)
		case "scan":
			if !x.scan(i, uint(st.A.P)) {
				return
			}
		}
		if !x.compare(i) {
			return
		}
	}
	x.stop()
}

func (x *spRun) scan(i int, p uint) bool {
	id := x.c.ID
	st := x.c.Steps[i]
	x.conn.mu.Lock()
	x.conn.fail = map[string]bool{}
	for _, e := range st.A.Pub {
		x.conn.fail[e.M] = !e.Ok
	}
	x.conn.seen = nil
	x.conn.mu.Unlock()

	// is anything due at all? expired messages also make a batch
	busy := len(st.A.Pub) > 0
	if i > 0 && !vhSame(x.c.Steps[i-1].S.R, st.S.R) {
		busy = true
	}
	wait := 15 * time.Second
	if !busy {
		wait = 25 * time.Millisecond
	}
	x.gate.mu.Lock()
	x.gate.want[p] = 2
	x.gate.mu.Unlock()
	ran := false
	select {
	case <-x.gate.done:
		ran = true
	case <-time.After(wait):
	}
	x.gate.mu.Lock()
	x.gate.want[p] = 0
	x.gate.mu.Unlock()
	select {
	case <-x.gate.done:
		ran = true
	default:
	}
	if busy && !ran {
		lost := "P02"
		for _, e := range st.A.Pub {
			if spIsReliable(e.M) {
				lost = "P01"
			}
		}
		x.r.Mismatch(id, i, lost+":not-offered", st.A.Pub, "no due messages were offered for publishing within 15s")
		return false
	}

	x.conn.mu.Lock()
	seen := x.conn.seen
	x.conn.mu.Unlock()
	var got, exp []string
	gr, er, gu, eu := []string{}, []string{}, []string{}, []string{}
	for _, m := range seen {
		n := x.name(m)
		got = append(got, n)
		if spIsReliable(n) {
			gr = append(gr, n)
		} else {
			gu = append(gu, n)
		}
	}
	for _, e := range st.A.Pub {
		exp = append(exp, e.M)
		if spIsReliable(e.M) {
			er = append(er, e.M)
		} else {
			eu = append(eu, e.M)
		}
	}
	if !vhSame(gu, eu) {
		x.r.Mismatch(id, i, "P02:unreliable-published", eu, gu)
		return false
	}
	if !vhSame(gr, er) {
		missing := false
		for _, e := range er {
			f := false
			for _, g := range gr {
				f = f || g == e
			}
			missing = missing || !f
		}
		key := "P02:reliable-order"
		if missing {
			key = "P01:reliable-not-published"
		} else {
			// one that is not due, already acknowledged, exhausted or expired is a P01 matter
			for _, g := range gr {
				f := false
				for _, e := range er {
					f = f || g == e
				}
				if !f && i > 0 {
					prev := x.c.Steps[i-1].S
					inSpool := strings.Contains(string(prev.R), `"`+g+`"`)
					if !inSpool || !prev.D[g] {
						key = "P01:reliable-published-again"
					}
				}
			}
			if len(gr) > len(er) && key == "P02:reliable-order" && len(gr) != len(spUniq(gr)) {
				key = "P01:reliable-published-again"
			}
		}
		x.r.Mismatch(id, i, key, er, gr)
		return false
	}
	if !vhSame(got, exp) {
		x.r.Mismatch(id, i, "P02:order", exp, got)
		return false
	}
	for k, m := range seen {
		e := st.A.Pub[k]
		o := x.sent[e.M]
		hdr := map[string]string{"X-Name": e.M, "Nats-Msg-Id": o.ID, "Choria-Priority": fmt.Sprint(o.Priority), "Choria-Sender": "verif", "Choria-Identity": "node.example"}
		hdr["Choria-Created"] = fmt.Sprint(o.Created.UnixNano())
		if o.Reliable {
			hdr["Choria-Reliable"] = "1"
		}
		if o.Sign {
			hdr["Choria-Token"] = "the.token"
			sig, _ := hex.DecodeString(m.Header.Get("Choria-Signature"))
			if !ed25519.Verify(x.pub, o.Payload, sig) {
				x.r.Mismatch(id, i, "P01:signature", "a signature of the payload", m.Header.Get("Choria-Signature"))
				return false
			}
			hdr["Choria-Signature"] = m.Header.Get("Choria-Signature")
		}
		if e.Tries > 0 {
			hdr["Choria-Tries"] = fmt.Sprint(e.Tries)
		}
		gh := map[string]string{}
		for k := range m.Header {
			gh[k] = strings.Join(m.Header[k], "|")
		}
		if !vhSame(hdr, gh) {
			x.r.Mismatch(id, i, "P01:headers", hdr, gh)
			return false
		}
		if string(m.Data) != string(o.Payload) || m.Subject != "mt.submission.in."+o.Subject {
			x.r.Mismatch(id, i, "P01:content", []string{"mt.submission.in." + o.Subject, string(o.Payload)}, []string{m.Subject, string(m.Data)})
			return false
		}
	}
	x.r.Count("scans")
	return true
}

func spUniq(s []string) map[string]bool {
	r := map[string]bool{}
	for _, x := range s {
		r[x] = true
	}
	return r
}

// compare the directory with the specification's queue
func (x *spRun) compare(i int) bool {
	id := x.c.ID
	st := x.c.Steps[i]
	exp := map[string][]string{}
	// ToJson writes a function over {1,3} as an object
	if err := json.Unmarshal(st.S.R, &exp); err != nil {
		x.r.Error("state: %v", err)
	}
	held := map[string]bool{}
	for _, h := range st.S.H {
		held[h] = true
	}
	// an accepted message that could not be removed earlier is removed by a later poll, wait for that
	var got map[string][]string
	disk := x.onDisk()
	try := func() string {
		got = map[string][]string{}
		tries := map[string]uint{}
		next := map[string]time.Time{}
		for p, ms := range disk {
			for _, m := range ms {
				n, ok := x.ids[m.ID]
				if !ok {
					return "P01:spool-content"
				}
				if held[n] {
					continue
				}
				got[fmt.Sprint(p)] = append(got[fmt.Sprint(p)], n)
				tries[n] = m.Tries
				next[n] = m.NextTry
				o := x.sent[n]
				if string(o.Payload) != string(m.Payload) || o.Subject != m.Subject || o.Reliable != m.Reliable || !vhSame(o.Headers, m.Headers) || m.MaxTries != o.MaxTries {
					return "P01:spool-content"
				}
			}
		}
		for _, kind := range []bool{true, false} {
			for _, p := range []string{"1", "3"} {
				var e, g []string
				for _, n := range exp[p] {
					if spIsReliable(n) == kind {
						e = append(e, n)
					}
				}
				for _, n := range got[p] {
					if spIsReliable(n) == kind {
						g = append(g, n)
					}
				}
				es, gs := append([]string{}, e...), append([]string{}, g...)
				sort.Strings(es)
				sort.Strings(gs)
				if !vhSame(es, gs) {
					if kind {
						return "P01:spool-reliable"
					}
					return "P02:spool-unreliable"
				}
			}
		}
		for _, p := range []string{"1", "3"} {
			for _, n := range exp[p] {
				if int(tries[n]) != st.S.T[n] {
					return "P01:tries"
				}
				if !st.S.D[n] && next[n].Before(time.Now().Add(time.Minute)) {
					return "P01:retry-time"
				}
			}
		}
		for p, e := range exp {
			if len(e)+len(got[p]) > 0 && !vhSame(e, got[p]) {
				return "P02:spool-order"
			}
		}
		return ""
	}
	var key string
	wait := 50 * time.Millisecond
	if st.A.N == "unstick" {
		wait = 15 * time.Second
	}
	vhEventually(wait, func() bool {
		disk = x.onDisk()
		key = try()
		return key == ""
	})
	if key != "" {
		x.r.Mismatch(id, i, key, map[string]any{"spool": exp, "tries": st.S.T, "after": st.A.N}, map[string]any{"spool": got})
		return false
	}
	return true
}

// ---- inotify recorder

type spEvent struct {
	Op  string `json:"op"`
	F   string `json:"f"`
	Src string `json:"src"`
	Q   bool   `json:"q"`
}

func spWatch(dir string) (func() []spEvent, error) {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK)
	if err != nil {
		return nil, err
	}
	wds := map[int32]string{}
	dirs := []string{"", "P0", "P1", "P2", "P3", "P4"}
	for _, d := range dirs {
		wd, err := syscall.InotifyAddWatch(fd, filepath.Join(dir, d), syscall.IN_CREATE|syscall.IN_MODIFY|syscall.IN_CLOSE_WRITE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO|syscall.IN_DELETE)
		if err != nil {
			return nil, err
		}
		wds[int32(wd)] = d
	}
	return func() []spEvent {
		var evs []spEvent
		from := map[uint32]string{}
		buf := make([]byte, 1<<20)
		for {
			n, err := syscall.Read(fd, buf)
			if err != nil || n <= 0 {
				break
			}
			for off := 0; off+syscall.SizeofInotifyEvent <= n; {
				e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[off]))
				name := strings.TrimRight(string(buf[off+syscall.SizeofInotifyEvent:off+syscall.SizeofInotifyEvent+int(e.Len)]), "\x00")
				off += syscall.SizeofInotifyEvent + int(e.Len)
				d := wds[e.Wd]
				f := filepath.Join(d, name)
				ev := spEvent{F: f, Q: d != "" && strings.HasSuffix(name, ".msg")}
				switch {
				case e.Mask&syscall.IN_CREATE != 0:
					ev.Op = "create"
				case e.Mask&syscall.IN_MODIFY != 0:
					ev.Op = "modify"
				case e.Mask&syscall.IN_CLOSE_WRITE != 0:
					ev.Op = "close"
				case e.Mask&syscall.IN_MOVED_FROM != 0:
					ev.Op = "from"
					from[e.Cookie] = f
				case e.Mask&syscall.IN_MOVED_TO != 0:
					ev.Op = "to"
					ev.Src = from[e.Cookie]
				case e.Mask&syscall.IN_DELETE != 0:
					ev.Op = "delete"
				default:
					continue
				}
				evs = append(evs, ev)
			}
		}
		syscall.Close(fd)
		return evs
	}, nil
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases []spCase `json:"cases"`
	}
	r := vhOpen(t, &in)
	work := os.Getenv("VERIF_WORK")
	sem := make(chan struct{}, 48)
	var wg sync.WaitGroup
	for k, c := range in.Cases {
		if c.Kind == "validate" {
			spValidate(r, c, filepath.Join(work, "validate"))
			continue
		}
		sem <- struct{}{}
		wg.Add(1)
		go func(k int, c spCase) {
			defer wg.Done()
			defer func() { <-sem }()
			dir := filepath.Join(work, fmt.Sprintf("spool-%d", k))
			x := &spRun{r: r, c: c, dir: dir, ids: map[string]string{}, sent: map[string]*Message{}, stuck: map[int]bool{}}
			x.conn = &spConn{rng: rand.New(rand.NewSource(int64(k))), name: x.name}
			var collect func() []spEvent
			if c.Trace {
				if _, err := New("mt", "x", Directory, spLog(), WithSpoolDirectory(dir), WithMaxSpoolEntries(1)); err == nil {
					collect, _ = spWatch(dir)
				}
			}
			x.run()
			if collect != nil {
				r.emit(map[string]any{"t": "trace", "case": c.ID, "events": collect()})
			}
			if x.cancel != nil {
				x.stop()
			}
			os.RemoveAll(dir)
		}(k, c)
	}
	wg.Wait()
	r.Done()
}

func spValidate(r *vhReporter, c spCase, dir string) {
	r.Case(c.ID)
	for i, row := range c.Rows {
		r.Step()
		d := filepath.Join(dir, fmt.Sprint(i))
		s, err := New("mt", "node.example", Directory, spLog(), WithSpoolDirectory(d), WithMaxSpoolEntries(10))
		if err != nil {
			r.Error("%v", err)
		}
		m := s.NewMessage()
		m.Subject = row.R.Subject
		m.Payload = []byte(row.R.Payload)
		m.Priority = row.R.Prio
		m.Sender = row.R.Sender
		m.TTL = row.R.TTL
		m.Reliable = row.R.Reliable
		switch row.R.Created {
		case "zero":
			m.Created = time.Time{}
		case "old":
			m.Created = time.Now().Add(-time.Hour)
		case "future":
			m.Created = time.Now().Add(30 * time.Second)
		}
		if row.R.Hdr != "" {
			m.Headers = map[string]string{"X-Fine": "1", row.R.Hdr: "v"}
		}
		err = s.Submit(m)
		files, _ := filepath.Glob(filepath.Join(d, "P*", "*.msg"))
		ok := err == nil
		if ok != row.Ok || (len(files) == 1) != row.Ok {
			r.Mismatch(c.ID, i, "P01:validate", map[string]any{"row": row.R, "accepted": row.Ok}, map[string]any{"err": fmt.Sprint(err), "files": len(files)})
		}
		if ok && len(files) == 1 && filepath.Base(filepath.Dir(files[0])) != fmt.Sprintf("P%d", row.R.Prio) {
			r.Mismatch(c.ID, i, "P01:validate", fmt.Sprintf("queued in P%d", row.R.Prio), files[0])
		}
		os.RemoveAll(d)
	}
}
