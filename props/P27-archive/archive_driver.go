package vh

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	archive "github.com/choria-io/go-choria/aagent/watchers/archivewatcher"
)

type arState struct {
	Cfg struct {
		Verify bool `json:"verify"`
		Auth   bool `json:"auth"`
	} `json:"cfg"`
	Want   string `json:"want"`
	Target string `json:"target"`
}
type arCase struct {
	ID    string  `json:"id"`
	Init  arState `json:"init"`
	Steps []struct {
		A struct {
			X    string `json:"x"`
			Want string `json:"want"`
			E    string `json:"e"`
			K    string `json:"k"`
			Out  string `json:"out"`
			Hits int    `json:"hits"`
		} `json:"a"`
		S arState `json:"s"`
	} `json:"steps"`
}

func arHash(b []byte) string { s := sha256.Sum256(b); return hex.EncodeToString(s[:]) }

// the files of a version
func arFiles(v string) map[string]string {
	return map[string]string{"machine.yaml": "name: app " + v + "\n", "bin/run.sh": "#!/bin/sh\n# " + v + strings.Repeat(" padding", 3000) + "\n", "bin/deep/er/data": v, "empty": "", "x": "short " + v, "with  some space.txt": v}
}

func arSums(files map[string]string) string {
	names := []string{}
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	res := ""
	for _, n := range names {
		res += arHash([]byte(files[n])) + "  " + n + "\n"
	}
	return res
}

// the files below the directory an archive of some kind creates, and the hash its checksums file should have
func arContent(v, kind string) (map[string]string, string) {
	f := arFiles(v)
	sums := arSums(f)
	want := arHash([]byte(sums))
	switch kind {
	case "a-nosums":
		return f, want
	case "a-badfile":
		f["bin/deep/er/data"] += "!"
	case "a-badlast":
		f["x"] += "!"
	case "a-missing":
		delete(f, "empty")
	case "a-sums":
		f["bin/deep/er/data"] += "!"
		sums = arSums(f)
	case "a-malformed":
		sums = "this is no checksums file\n"
		want = arHash([]byte(sums))
	case "a-othername":
		f["SHA512SUMS"] = sums
		return f, want
	case "a-longhash":
		sums = strings.Replace(sums, "  machine.yaml", "00  machine.yaml", 1)
		want = arHash([]byte(sums))
	}
	f["SHA256SUMS"] = sums
	return f, want
}

type arEntry struct {
	h tar.Header
	c string
}

func arArchive(v, kind string) (data []byte, verify string) {
	files, verify := arContent(v, kind)
	es := []arEntry{{tar.Header{Name: "app/", Typeflag: tar.TypeDir, Mode: 0755}, ""}}
	dirs := map[string]bool{}
	names := []string{}
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		parts := strings.Split(n, "/")
		for i := 1; i < len(parts); i++ {
			d := strings.Join(parts[:i], "/")
			if !dirs[d] {
				dirs[d] = true
				es = append(es, arEntry{tar.Header{Name: "app/" + d + "/", Typeflag: tar.TypeDir, Mode: 0755}, ""})
			}
		}
		mode := int64(0644)
		if strings.HasSuffix(n, ".sh") {
			mode = 0755
		}
		es = append(es, arEntry{tar.Header{Name: "app/" + n, Typeflag: tar.TypeReg, Mode: mode, Size: int64(len(files[n]))}, files[n]})
	}
	file := func(n, c string) arEntry {
		return arEntry{tar.Header{Name: n, Typeflag: tar.TypeReg, Mode: 0644, Size: int64(len(c))}, c}
	}
	switch kind {
	case "dotdot":
		es = append(es, file("app/../../../escaped", "x"))
	case "dotdotdir":
		es = append([]arEntry{{tar.Header{Name: "../../escaped/", Typeflag: tar.TypeDir, Mode: 0755}, ""}}, es...)
	case "symlink":
		es = append(es, arEntry{tar.Header{Name: "app/link", Linkname: "machine.yaml", Typeflag: tar.TypeSymlink, Mode: 0777}, ""})
	case "symdir":
		es = append(es, arEntry{tar.Header{Name: "app/out", Linkname: "/tmp", Typeflag: tar.TypeSymlink, Mode: 0777}, ""}, file("app/out/"+"escaped-"+v, "x"))
	case "hardlink":
		es = append(es, arEntry{tar.Header{Name: "app/link", Linkname: "app/machine.yaml", Typeflag: tar.TypeLink, Mode: 0644}, ""})
	case "fifo":
		es = append(es, arEntry{tar.Header{Name: "app/fifo", Typeflag: tar.TypeFifo, Mode: 0644}, ""})
	case "abs":
		es = append(es, file("/escaped-abs", "x"))
	case "beside":
		es = append(es, arEntry{tar.Header{Name: "bystander/", Typeflag: tar.TypeDir, Mode: 0755}, ""}, file("bystander/file", "changed"), file("top", "x"))
	case "dup":
		es = append([]arEntry{es[0], file("app/machine.yaml", "an earlier and longer version of the same file")}, es...)
	case "appfile":
		es = []arEntry{file("app", "not a directory")}
	case "nodir":
		for i := range es {
			es[i].h.Name = "other" + strings.TrimPrefix(es[i].h.Name, "app")
		}
	}
	var buf bytes.Buffer
	gz := gzip.NewWriter(&buf)
	if kind == "notar" {
		gz.Write([]byte(strings.Repeat("this is not a tar file ", 100)))
		gz.Close()
		return buf.Bytes(), verify
	}
	var tb bytes.Buffer
	tw := tar.NewWriter(&tb)
	for _, e := range es {
		h := e.h
		tw.WriteHeader(&h)
		tw.Write([]byte(e.c))
	}
	tw.Close()
	raw := tb.Bytes()
	if kind == "cuttar" {
		raw = raw[:len(raw)*2/3]
	}
	if kind == "notgzip" {
		return raw, verify
	}
	gz.Write(raw)
	gz.Close()
	return buf.Bytes(), verify
}

type arServed struct {
	kind string
	body []byte
	auth bool
	hits int
	bad  string
}

type arWeb struct {
	mu  sync.Mutex
	now map[string]*arServed
}

func (w *arWeb) ServeHTTP(rw http.ResponseWriter, q *http.Request) {
	w.mu.Lock()
	s := w.now[q.URL.Path]
	if s == nil {
		w.mu.Unlock()
		http.Error(rw, "no", 404)
		return
	}
	s.hits++
	u, p, ok := q.BasicAuth()
	if ok != s.auth || (s.auth && (u != "bob" || p != "s3cret")) {
		if s.kind != "nopassword" {
			s.bad = fmt.Sprintf("credentials %v %q %q", ok, u, p)
		}
		w.mu.Unlock()
		http.Error(rw, "no", 401)
		return
	}
	kind, body := s.kind, s.body
	w.mu.Unlock()
	switch kind {
	case "404", "500":
		rw.WriteHeader(map[string]int{"404": 404, "500": 500}[kind])
		rw.Write([]byte("sorry"))
	case "other":
		b, _ := arArchive("v9", "good")
		rw.Write(b)
	case "empty":
	case "shortbody":
		rw.Header().Set("Content-Length", fmt.Sprint(len(body)))
		rw.Write(body[:len(body)/2])
	case "reset":
		if c, _, err := rw.(http.Hijacker).Hijack(); err == nil {
			c.Close()
		}
	default:
		rw.Write(body)
	}
}

// relative paths of everything below dir with type and content
func arTree(dir string) map[string]string {
	res := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil || rel == "." {
			return nil
		}
		switch {
		case i.IsDir():
			res[rel] = "dir"
		case i.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			x := ""
			if i.Mode()&0100 != 0 {
				x = "x"
			}
			res[rel] = "file" + x + " " + string(b)
		default:
			res[rel] = i.Mode().String()
		}
		return nil
	})
	return res
}

func arWant(t string) map[string]string {
	res := map[string]string{}
	switch t {
	case "absent":
		return res
	case "file":
		res["app"] = "file a file"
		return res
	case "empty":
		res["app"] = "dir"
		return res
	}
	v, kind, edit := t[:2], "good", ""
	if strings.Contains(t, "!") {
		kind = t[3:]
	} else if strings.HasSuffix(t, "+") {
		edit = "extra"
	} else if strings.Contains(t, "-") {
		edit = t[3:]
	}
	files, _ := arContent(v, kind)
	res["app"] = "dir"
	put := func(n, c string) {
		parts := strings.Split(n, "/")
		for i := 1; i < len(parts); i++ {
			res["app/"+strings.Join(parts[:i], "/")] = "dir"
		}
		x := ""
		if strings.HasSuffix(n, ".sh") {
			x = "x"
		}
		res["app/"+n] = "file" + x + " " + c
	}
	for n, c := range files {
		put(n, c)
	}
	switch edit {
	case "extra":
		res["app/extra"] = "file extra"
	case "changed":
		res["app/bin/deep/er/data"] = "file " + v + "!"
	case "truncated":
		res["app/machine.yaml"] = "file "
	case "lost":
		delete(res, "app/empty")
	case "sumsedit":
		put("SHA256SUMS", files["SHA256SUMS"]+"\n")
	case "nosums":
		delete(res, "app/SHA256SUMS")
	}
	return res
}

// edits made by the administrator or an intruder
func arEdit(app, v, e string) {
	w := func(n, c string) { os.WriteFile(filepath.Join(app, n), []byte(c), 0644) }
	switch e {
	case "absent":
		os.RemoveAll(app)
	case "file":
		os.RemoveAll(app)
		os.WriteFile(app, []byte("a file"), 0644)
	case "empty":
		os.RemoveAll(app)
		os.MkdirAll(app, 0755)
	case "extra":
		w("extra", "extra")
	case "changed":
		w("bin/deep/er/data", v+"!")
	case "truncated":
		w("machine.yaml", "")
	case "lost":
		os.Remove(filepath.Join(app, "empty"))
	case "sumsedit":
		b, _ := os.ReadFile(filepath.Join(app, "SHA256SUMS"))
		w("SHA256SUMS", string(b)+"\n")
	case "nosums":
		os.Remove(filepath.Join(app, "SHA256SUMS"))
	}
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases    []*arCase `json:"cases"`
		Parallel int       `json:"parallel"`
	}
	r := vhOpen(t, &in)
	defer r.Done()
	td, err := os.MkdirTemp("", "archive")
	if err != nil {
		r.Error("%v", err)
	}
	defer os.RemoveAll(td)
	web := &arWeb{now: map[string]*arServed{}}
	srv := httptest.NewServer(web)
	defer srv.Close()
	sem := make(chan struct{}, in.Parallel)
	var wg sync.WaitGroup
	for _, c := range in.Cases {
		sem <- struct{}{}
		wg.Add(1)
		go func(c *arCase) {
			defer func() { <-sem; wg.Done() }()
			r.Case(c.ID)
			root := filepath.Join(td, c.ID)
			arWalk(r, c, root, web, srv.URL)
			os.RemoveAll(root)
		}(c)
	}
	wg.Wait()
}

func arWalk(r *vhReporter, c *arCase, root string, web *arWeb, url string) {
	target := filepath.Join(root, "opt", "target")
	app := filepath.Join(target, "app")
	os.MkdirAll(filepath.Join(root, "m"), 0755)
	os.MkdirAll(filepath.Join(target, "bystander"), 0755)
	os.WriteFile(filepath.Join(target, "bystander", "file"), []byte("mine"), 0644)
	m := vhNewMachine(filepath.Join(root, "m"))
	m.facts = `{"place":"one"}`
	props := map[string]any{"source": url + `/{{ lookup "data.path" "" }}`, "creates": "app", "target": target, "checksum": `{{ lookup "data.checksum" "" }}`, "timeout": "20s"}
	if c.Init.Cfg.Verify {
		props["verify"] = "SHA256SUMS"
		props["verify_checksum"] = `{{ lookup "data.verify" "" }}`
	}
	if c.Init.Cfg.Auth {
		props["username"] = `{{ lookup "data.user" "bob" }}`
		props["password"] = `{{ lookup "data.pass" "s3cret" }}`
	}
	x, err := archive.New(m, "ar", []string{"in"}, nil, "fail_ev", "succ_ev", "1h", 0, props)
	if err != nil {
		r.Mismatch(c.ID, -1, "create", "a watcher", err.Error())
		return
	}
	w := x.(vhWatcher)
	m.Set("out")
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	ok := m.Start(ctx, w, &wg)
	defer func() {
		cancel()
		m.Free()
		if g := vhGuard(30*time.Second, func() { wg.Wait() }); g != "" {
			r.Mismatch(c.ID, len(c.Steps), "stop", "the watcher stops", g)
		}
	}()
	if !ok {
		r.Mismatch(c.ID, -1, "stuck", "the watcher checks", "it does not")
		return
	}
	rest := func() map[string]string {
		res := arTree(root)
		for k := range res {
			if k == "opt/target/app" || strings.HasPrefix(k, "opt/target/app/") || k == "opt/target/tmp" {
				delete(res, k)
			}
		}
		return res
	}
	others := rest()
	for i, s := range c.Steps {
		r.Step()
		what := fmt.Sprintf("want=%s edit=%s served=%s verify=%v auth=%v", s.A.Want, s.A.E, s.A.K, c.Init.Cfg.Verify, c.Init.Cfg.Auth)
		prev := c.Init.Target
		if i > 0 {
			prev = c.Steps[i-1].S.Target
		}
		arEdit(app, prev[:2], s.A.E)
		body, verify := arArchive(s.S.Want, s.A.K)
		if s.A.Out == "verified" { // what is deployed is what is wanted
			_, verify = arArchive(s.S.Want, "good")
		}
		sv := &arServed{kind: s.A.K, body: body, auth: c.Init.Cfg.Auth}
		path := fmt.Sprintf("%s/%d", c.ID, i)
		sum := arHash(body)
		switch s.A.K {
		case "badurl":
			path = "%zz"
		case "nochecksum":
			sum = ""
		case "nopassword":
			m.DataPut("pass", "wrong")
		case "empty":
			sv.body = nil
		}
		if s.A.K != "nopassword" {
			m.DataPut("pass", "s3cret")
		}
		web.mu.Lock()
		web.now["/"+path] = sv
		web.mu.Unlock()
		m.DataPut("path", path)
		m.DataPut("checksum", sum)
		m.DataPut("verify", verify)
		if s.A.Out == "skipped" {
			m.Set("out")
		} else {
			m.Set("in")
		}
		m.Take()
		if !m.Check(w) {
			r.Mismatch(c.ID, i, "stuck", "the check completes", "it does not", what)
			return
		}
		web.mu.Lock()
		delete(web.now, "/"+path)
		hits, bad := sv.hits, sv.bad
		web.mu.Unlock()
		ev, _ := m.Take()
		wantEv := map[string][]string{"skipped": {}, "error": {"fail_ev"}}[s.A.Out]
		if s.A.Out == "verified" || s.A.Out == "downloaded" {
			wantEv = []string{"succ_ev"}
		}
		got := arTree(target)
		for k := range got {
			if k != "app" && !strings.HasPrefix(k, "app/") {
				delete(got, k)
			}
		}
		if exp := arWant(s.S.Target); !vhSame(got, exp) {
			r.Mismatch(c.ID, i, "target-"+s.A.Out, s.S.Target, arDiff(exp, got), what)
			return
		}
		if !vhSame(ev, wantEv) {
			r.Mismatch(c.ID, i, "event", wantEv, ev, what)
			return
		}
		if st := vhCurrent(w); s.A.Out != "skipped" && st["previous_outcome"] != s.A.Out {
			r.Mismatch(c.ID, i, "outcome", s.A.Out, st["previous_outcome"], what)
			return
		}
		if bad != "" {
			r.Mismatch(c.ID, i, "credentials", "as configured", bad, what)
			return
		}
		if (hits > 0) != (s.A.Hits > 0) && s.A.K != "reset" {
			r.Mismatch(c.ID, i, "requests", s.A.Hits, hits, what)
			return
		}
		if d := arDiff(others, rest()); len(d) > 0 {
			r.Mismatch(c.ID, i, "elsewhere", "nothing else changes", d, what)
			return
		}
	}
}

func arDiff(a, b map[string]string) []string {
	res := []string{}
	cut := func(s string) string {
		if len(s) > 60 {
			return s[:60]
		}
		return s
	}
	for k, v := range a {
		if b[k] != v {
			res = append(res, fmt.Sprintf("%s: %q is %q", k, cut(v), cut(b[k])))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			res = append(res, fmt.Sprintf("%s: appeared as %q", k, cut(v)))
		}
	}
	sort.Strings(res)
	return res
}
