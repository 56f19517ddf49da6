package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/client"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/agent"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/replyfmt"
	"github.com/fatih/color"
	"github.com/sirupsen/logrus"
)

type dsCase struct {
	ID      string `json:"id"`
	Replies []struct {
		St   int    `json:"st"`
		V    string `json:"v"`
		W    string `json:"w"`
		HasW bool   `json:"hasw"`
	} `json:"replies"`
	Agg    string                       `json:"agg"`
	Def    bool                         `json:"def"`
	VSum   []dsCount                    `json:"vsum"`
	WSum   []dsCount                    `json:"wsum"`
	Usable int                          `json:"usable"`
	Sum    int                          `json:"sum"`
	Names  []int                        `json:"names"`
	Shown  map[string]map[string][]bool `json:"shown"`
}

type dsCount struct {
	K string `json:"k"`
	N int    `json:"n"`
}

var dsJSON = map[string]string{"a": `"a"`, "b": `"b"`, "yes": "true", "one": "1", "half": "2.5", "three": `"3"`, "neg": "-4", "nan": `"NaN"`, "inf": `"Inf"`, "null": "null", "list": "[1]"}
var dsText = map[string]string{"a": "a", "b": "b", "yes": "true", "one": "1", "half": "2.5", "three": "3", "neg": "-4", "nan": "NaN", "inf": "Inf", "null": "", "list": "[1]"}
var dsOver = map[string]replyfmt.DisplayMode{"ddl": replyfmt.DisplayDDL, "ok": replyfmt.DisplayOK, "failed": replyfmt.DisplayFailed, "all": replyfmt.DisplayAll, "none": replyfmt.DisplayNone}

type dsWorld struct {
	r   *vhReporter
	log *logrus.Entry
}

func (w *dsWorld) action(c *dsCase, mode string) *agent.Action {
	vagg := ""
	switch c.Agg {
	case "summary", "average", "chart":
		vagg = fmt.Sprintf(`{"function":%q,"args":["v"]},`, c.Agg)
	case "mapped":
		vagg = `{"function":"boolean_summary","args":["v",{"true":"Yes","a":"Alpha","1":"One"}]},`
	}
	def := ""
	if c.Def {
		def = `,"default":"unknown"`
	}
	a := &agent.Action{}
	err := json.Unmarshal([]byte(fmt.Sprintf(`{"action":"act","display":%q,"output":{"v":{"display_as":"The Vee"},"w":{"display_as":"Wee"%s}},"aggregate":[%s{"function":"summary","args":["w"]},{"function":"summary","args":[]},{"function":"nope","args":["x"]}]}`, mode, def, vagg)), a)
	if err != nil {
		w.r.Error("ddl: %v", err)
	}
	return a
}

func dsName(i int) string { return fmt.Sprintf("n%d.example", i+1) }

func dsSort(s []dsCount) []dsCount {
	o := append([]dsCount{}, s...)
	sort.Slice(o, func(i, j int) bool { return o[i].K < o[j].K })
	return o
}

func (w *dsWorld) results(c *dsCase, ci int) (*replyfmt.RPCResults, []string, []string) {
	st := client.NewStats()
	var disc, missing, extra []string
	for i := range c.Replies {
		disc = append(disc, dsName(i))
	}
	switch ci % 3 {
	case 1:
		disc = append(disc, "quiet1.example", "quiet2.example")
		missing = []string{"quiet1.example", "quiet2.example"}
	case 2:
		if len(disc) > 0 {
			extra = disc[:1]
			disc = disc[1:]
		}
	}
	st.SetDiscoveredNodes(disc)
	res := &replyfmt.RPCResults{Agent: "agt", Action: "act", Stats: st}
	for i, p := range c.Replies {
		rp := &client.RPCReply{Action: "act", Statuscode: mcorpc.StatusCode(p.St), Statusmsg: fmt.Sprintf("message %d", i), Time: time.Unix(1600000000, 0).UTC()}
		switch p.V {
		case "nodata":
		case "array":
			rp.Data = json.RawMessage(`[1,2]`)
		default:
			d := []string{`"dotted.name":"dot"`, `"big":12345678901234567890`}
			if p.V != "gone" {
				d = append(d, `"v":`+dsJSON[p.V])
			}
			if p.HasW {
				d = append(d, `"w":"zed"`)
			}
			rp.Data = json.RawMessage("{" + strings.Join(d, ",") + "}")
		}
		st.RecordReceived(dsName(i))
		if p.St == 0 {
			st.PassedRequestInc()
		} else {
			st.FailedRequestInc()
		}
		res.Replies = append(res.Replies, &replyfmt.RPCReply{Sender: dsName(i), RPCReply: rp})
	}
	return res, missing, extra
}

var dsLine = regexp.MustCompile(`^\s+([^:\s][^:]*): (.*)$`)
var dsColor = regexp.MustCompile("\x1b\\[[0-9;]*m")
var dsNodes = regexp.MustCompile(`Finished processing (\d+) / (\d+) hosts`)
var dsVNodes = regexp.MustCompile(`Nodes: (\d+) / (\d+)\n\s+Pass / Fail: (\d+) / (\d+)\n\s+No Responses: (\d+)\nUnexpected Responses: (\d+)`)

func (w *dsWorld) text(c *dsCase, ci int, mode, over string, verbose, silent bool) {
	r := w.r
	what := map[string]any{"mode": mode, "over": over, "verbose": verbose, "silent": silent}
	fail := func(key string, exp, got any) { r.Mismatch(c.ID, 0, "text-"+key, exp, got, what) }
	res, missing, extra := w.results(c, ci)
	a := w.action(c, mode)
	var buf bytes.Buffer
	var err error
	if g := vhGuard(10*time.Second, func() { err = res.RenderTXT(&buf, a, verbose, silent, dsOver[over], false, w.log) }); g != "" {
		fail(strings.Split(g, ":")[0], "rendered", g)
		return
	}
	if err != nil {
		fail("error", "rendered", err.Error())
		return
	}
	r.Step()
	out := buf.String()
	// without color, the footer aside
	if i := strings.Index(out, "\x1b"); i >= 0 && !strings.Contains(out[:i], "Finished processing") && !strings.HasPrefix(dsColor.ReplaceAllString(out[i:], ""), "---- request stats") {
		fail("color", "none", out)
	}
	out = dsColor.ReplaceAllString(out, "")
	// the replies come first
	rest := ""
	head := out
	for _, m := range []string{"\nSummary of ", "\nFinished processing", "\n---- request stats"} {
		if i := strings.Index("\n"+head, m); i >= 0 {
			rest = ("\n" + head)[i:] + rest
			head = ("\n" + head)[1:max(i, 1)]
		}
	}
	blocks := map[string][]string{}
	var order []string
	cur := ""
	for _, l := range strings.Split(head, "\n") {
		if l != "" && l[0] != ' ' {
			cur = strings.Fields(l)[0]
			order = append(order, cur)
			blocks[cur] = []string{l}
		} else if cur != "" {
			blocks[cur] = append(blocks[cur], l)
		}
	}
	var want []string
	for i, s := range c.Shown[mode][over] {
		if s {
			want = append(want, dsName(i))
		}
	}
	if fmt.Sprint(want) != fmt.Sprint(order) {
		fail("shown", want, order)
		return
	}
	for i, p := range c.Replies {
		b, ok := blocks[dsName(i)]
		if !ok {
			continue
		}
		if good := len(strings.Fields(b[0])) == 1; good != (p.St == 0) {
			fail("status", p.St, b[0])
		}
		body := strings.Join(b[1:], "\n")
		data := res.Replies[i].Data
		if verbose {
			var got any
			if err := json.Unmarshal([]byte(body), &got); err != nil {
				fail("verbose", string(data), body)
				continue
			}
			var exp any
			if data != nil {
				json.Unmarshal(data, &exp)
			}
			if !vhSame(exp, got) {
				fail("verbose", exp, got)
			}
			continue
		}
		if p.St != 0 {
			if strings.TrimSpace(body) != fmt.Sprintf("message %d", i) {
				fail("failure", i, body)
			}
			continue
		}
		got := map[string]string{}
		for _, l := range b[1:] {
			if m := dsLine.FindStringSubmatch(l); m != nil {
				got[m[1]] = strings.TrimSpace(m[2])
			} else if strings.TrimSpace(l) != "" {
				got["?"] += l
			}
		}
		exp := map[string]string{}
		if p.V != "nodata" && p.V != "array" {
			exp["dotted.name"], exp["big"] = "dot", "12345678901234567890"
			if p.V != "gone" {
				exp["The Vee"] = dsText[p.V]
			}
			if p.W != "nothing" {
				exp["Wee"] = p.W
			}
		}
		if !vhSame(exp, got) {
			fail("outputs", exp, got)
		}
	}
	if silent {
		if strings.TrimSpace(rest) != "" {
			fail("silent", "nothing else", rest)
		}
		return
	}
	// summaries
	sec := map[string][]string{}
	cur = ""
	for _, l := range strings.Split(rest, "\n") {
		if strings.HasPrefix(l, "Summary of ") {
			cur = strings.TrimSuffix(strings.TrimPrefix(l, "Summary of "), ":")
			if _, ok := sec[cur]; ok {
				fail("summary-twice", cur, rest)
			}
			sec[cur] = []string{}
		} else if strings.HasPrefix(l, "Finished") || strings.HasPrefix(l, "----") {
			break
		} else if cur != "" && strings.TrimSpace(l) != "" {
			sec[cur] = append(sec[cur], strings.TrimSpace(l))
		}
	}
	w.section(fail, "Wee", sec["Wee"], c.WSum)
	none := []string{"No summary received"}
	v, has := sec["The Vee"]
	if has != (c.Agg != "none") || len(sec) > 2 {
		fail("summaries", c.Agg, sec)
	}
	switch c.Agg {
	case "summary", "mapped":
		w.section(fail, "The Vee", v, c.VSum)
	case "average":
		exp := none
		if c.Usable > 0 {
			exp = []string{fmt.Sprintf("Average: %.3f", float64(c.Sum)/10/float64(c.Usable))}
		}
		if fmt.Sprint(exp) != fmt.Sprint(v) {
			fail("average", exp, v)
		}
	case "chart":
		if (fmt.Sprint(v) == fmt.Sprint(none)) != (c.Usable == 0) || len(v) == 0 {
			fail("chart", c.Usable, v)
		}
	}
	// footer
	d := len(c.Replies) + len(missing) - len(extra)
	if verbose {
		m := dsVNodes.FindStringSubmatch(rest)
		exp := []string{strconv.Itoa(len(c.Replies)), strconv.Itoa(d), strconv.Itoa(len(c.Names)), strconv.Itoa(len(c.Replies) - len(c.Names)), strconv.Itoa(len(missing)), strconv.Itoa(len(extra))}
		if m == nil || fmt.Sprint(m[1:]) != fmt.Sprint(exp) {
			fail("footer", exp, rest)
		}
	} else {
		m := dsNodes.FindStringSubmatch(rest)
		if m == nil || m[1] != strconv.Itoa(len(c.Replies)) || m[2] != strconv.Itoa(d) {
			fail("footer", []int{len(c.Replies), d}, rest)
		}
	}
	for what, l := range map[string][]string{"\nNo Responses from": missing, "\nUnexpected Responses from": extra} {
		i := strings.Index(rest, what)
		if (i >= 0) != (len(l) > 0) {
			fail("list", l, rest)
			continue
		}
		for _, n := range l {
			if !strings.Contains(rest[i:], n) {
				fail("list", l, rest)
			}
		}
	}
}

func (w *dsWorld) section(fail func(string, any, any), name string, got []string, want []dsCount) {
	if len(want) == 0 {
		if fmt.Sprint(got) != "[No summary received]" {
			fail("summary-"+name, "none", got)
		}
		return
	}
	var cs []dsCount
	for _, l := range got {
		i := strings.LastIndex(l, ": ")
		if i < 0 {
			fail("summary-"+name, want, got)
			return
		}
		n, _ := strconv.Atoi(l[i+2:])
		if len(cs) > 0 && cs[len(cs)-1].N < n {
			fail("summary-order", want, got)
		}
		cs = append(cs, dsCount{l[:i], n})
	}
	if fmt.Sprint(dsSort(cs)) != fmt.Sprint(dsSort(want)) {
		fail("summary-"+name, want, got)
	}
}

func (w *dsWorld) others(c *dsCase, ci int) {
	r := w.r
	fail := func(key string, exp, got any) { r.Mismatch(c.ID, 0, key, exp, got, nil) }
	var names []string
	for _, n := range c.Names {
		names = append(names, dsName(n-1))
	}
	// names, of successes only
	res, missing, extra := w.results(c, ci)
	for _, sorted := range []bool{false, true} {
		if sorted { // replies come in any order
			for i, j := 0, len(res.Replies)-1; i < j; i, j = i+1, j-1 {
				res.Replies[i], res.Replies[j] = res.Replies[j], res.Replies[i]
			}
		}
		var b bytes.Buffer
		if err := res.RenderNames(&b, false, sorted); err != nil || fmt.Sprint(strings.Fields(b.String())) != fmt.Sprint(names) {
			fail("names", names, b.String())
		}
		b.Reset()
		got := []string{}
		err := res.RenderNames(&b, true, sorted)
		if err != nil || json.Unmarshal(b.Bytes(), &got) != nil || got == nil || fmt.Sprint(got) != fmt.Sprint(names) {
			fail("names-json", names, b.String())
		}
	}
	// a table of the outputs of successes
	res, _, _ = w.results(c, ci)
	var b bytes.Buffer
	if g := vhGuard(10*time.Second, func() { res.RenderTable(&b, w.action(c, "always")) }); g != "" {
		fail("table-"+strings.Split(g, ":")[0], "rendered", g)
		return
	}
	var rows [][]string
	for _, l := range strings.Split(b.String(), "\n") {
		if !strings.Contains(l, "│") {
			continue
		}
		var row []string
		f := strings.Split(l, "│")
		for _, x := range f[1 : len(f)-1] {
			row = append(row, strings.TrimSpace(x))
		}
		if len(rows) > 0 && len(row) > 0 && row[0] == "" { // goes on
			last := rows[len(rows)-1]
			for i := range row {
				last[i] += row[i]
			}
			continue
		}
		rows = append(rows, row)
	}
	exp := [][]string{{"Sender", "The Vee", "Wee"}}
	for _, n := range c.Names {
		p := c.Replies[n-1]
		if p.V == "nodata" {
			continue
		}
		v, ww := dsText[p.V], p.W
		if ww == "nothing" {
			ww = ""
		}
		exp = append(exp, []string{dsName(n - 1), v, ww})
	}
	if fmt.Sprint(exp) != fmt.Sprint(rows) {
		fail("table", exp, rows)
	}
	r.Step()
	// JSON has everything, as it was
	res, _, _ = w.results(c, ci)
	b.Reset()
	var err error
	if g := vhGuard(10*time.Second, func() { err = res.RenderJSON(&b, w.action(c, "ok")) }); g != "" {
		fail("json-"+strings.Split(g, ":")[0], "rendered", g)
		return
	}
	var doc struct {
		Agent   string `json:"agent"`
		Action  string `json:"action"`
		Replies []struct {
			Sender     string          `json:"sender"`
			Statuscode int             `json:"statuscode"`
			Statusmsg  string          `json:"statusmsg"`
			Data       json.RawMessage `json:"data"`
		} `json:"replies"`
		Stats struct {
			No   []string `json:"no_responses"`
			Un   []string `json:"unexpected_responses"`
			D    int      `json:"discovered"`
			Fail int      `json:"failed"`
			OK   int      `json:"ok"`
			N    int      `json:"responses"`
		} `json:"request_stats"`
		Summaries map[string]json.RawMessage `json:"summaries"`
	}
	if e := json.Unmarshal(b.Bytes(), &doc); err != nil || e != nil {
		fail("json", "a document", fmt.Sprint(err, e, b.String()))
		return
	}
	r.Step()
	if doc.Agent != "agt" || doc.Action != "act" || len(doc.Replies) != len(c.Replies) {
		fail("json-replies", len(c.Replies), b.String())
		return
	}
	orig, _, _ := w.results(c, ci)
	for i, p := range doc.Replies {
		o := orig.Replies[i]
		compact := func(j json.RawMessage) string {
			if j == nil {
				return "null"
			}
			var b bytes.Buffer
			json.Compact(&b, j)
			return b.String()
		}
		if p.Sender != o.Sender || p.Statuscode != int(o.Statuscode) || p.Statusmsg != o.Statusmsg || compact(p.Data) != compact(o.Data) {
			fail("json-reply", o, p)
		}
	}
	s := doc.Stats
	sort.Strings(s.No)
	if fmt.Sprint(s.No, s.Un) != fmt.Sprint(missing, extra) || s.D != len(c.Replies)+len(missing)-len(extra) || s.OK != len(c.Names) || s.Fail != len(c.Replies)-len(c.Names) || s.N != len(c.Replies) {
		fail("json-stats", c.Names, s)
	}
	counts := func(j json.RawMessage) []dsCount {
		m := map[string]int{}
		if j == nil || json.Unmarshal(j, &m) != nil {
			return []dsCount{{"unreadable", -1}}
		}
		out := []dsCount{}
		for k, n := range m {
			out = append(out, dsCount{k, n})
		}
		return dsSort(out)
	}
	if g := counts(doc.Summaries["w"]); fmt.Sprint(g) != fmt.Sprint(dsSort(c.WSum)) {
		fail("json-summary-w", c.WSum, g)
	}
	switch c.Agg {
	case "summary", "mapped":
		if g := counts(doc.Summaries["v"]); fmt.Sprint(g) != fmt.Sprint(dsSort(c.VSum)) {
			fail("json-summary-v", c.VSum, g)
		}
	case "average":
		m := map[string]float64{}
		json.Unmarshal(doc.Summaries["v"], &m)
		v, ok := m["average"]
		if ok != (c.Usable > 0) || (ok && math.Abs(v-float64(c.Sum)/10/float64(c.Usable)) > 1e-9) {
			fail("json-average", c.Sum, string(doc.Summaries["v"]))
		}
	}
}

func TestVerif(t *testing.T) {
	var in struct {
		Cases []*dsCase `json:"cases"`
	}
	r := vhOpen(t, &in)
	color.NoColor = false
	l := logrus.New()
	l.SetOutput(io.Discard)
	w := &dsWorld{r: r, log: logrus.NewEntry(l)}
	modes := []string{"", "ok", "failed", "always"}
	overs := []string{"ddl", "ddl", "ok", "failed", "all", "all", "none"}
	for i, c := range in.Cases {
		r.Case(c.ID)
		w.text(c, i, "always", "ddl", false, false)
		w.text(c, i, modes[i%4], overs[i%7], i%5 == 0, i%11 == 0)
		w.text(c, i, modes[(i/4)%4], overs[(i/3)%7], i%2 == 0, false)
		w.others(c, i)
	}
	r.Done()
}
