package vh

// Replays the DDL validation table into the real DDL code.

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/agent"
)

type vhItem struct {
	Type     string   `json:"type"`
	Max      int      `json:"max"`
	Rule     string   `json:"rule"`
	Enum     []string `json:"enum"`
	Optional bool     `json:"optional"`
	Default  string   `json:"default"`
}

type vhRow struct {
	ID string `json:"id"`
	R  struct {
		K    string          `json:"k"`
		Item json.RawMessage `json:"item"`
		V    json.RawMessage `json:"v"`
	} `json:"r"`
	OK    bool              `json:"ok"`
	Typed bool              `json:"typed"`
	Conv  string            `json:"conv"`
	Def   map[string]string `json:"def"`
}

var vhVals = map[string]string{
	"i0": "0", "i1": "1", "ineg": "-17", "ibig": "4503599627370496", "iexp": "1e3", "f15": "1.5", "f10": "1.0", "fneg": "-0.5", "fsmall": "1e-9",
	"true": "true", "false": "false", "null": "null", "obj0": "{}", "obj1": `{"a":[1]}`, "arr0": "[]", "arr1": `["a",{"b":1}]`,
	"t0": `""`, "tabc": `"abc"`, "tlong": `"` + strings.Repeat("abcd", 10) + `"`, "tmax": `"` + strings.Repeat("abcd", 5) + `"`, "tmax1": `"` + strings.Repeat("abc", 7) + `"`,
	"tsemi": `"ab;cd"`, "tamp": `"ab&cd"`, "tampamp": `"ab&&c"`, "tdollar": `"ab$cd"`, "ttick": "\"ab`cd\"", "tpipe": `"ab|cd"`, "tgt": `"ab>cd"`, "tlt": `"ab<cd"`,
	"tip4": `"10.1.1.1"`, "tip6": `"::1"`, "tipbad": `"1.1.1"`, "tone": `"one"`, "ttwo": `"two"`, "tONE": `"ONE"`, "tnum": `"12345"`, "ttrue": `"true"`, "tabcnl": `"abc\nd"`, "tabcnlend": `"abc\n"`, "tspabc": `" abc"`, "tip4nl": `"10.1.1.1\n"`, "tonesp": `"one "`,
}

func vhItemJSON(i vhItem) map[string]any {
	m := map[string]any{"prompt": "p", "description": "d", "type": i.Type, "optional": i.Optional}
	if i.Max > 0 {
		m["maxlength"] = i.Max
	}
	if i.Rule != "" {
		m["validation"] = i.Rule
	}
	if len(i.Enum) > 0 {
		m["list"] = i.Enum
	}
	if i.Default != "none" {
		m["default"] = json.RawMessage(vhVals[i.Default])
	}
	return m
}

func TestVerif(t *testing.T) {
	in := struct {
		Cases []*vhRow `json:"cases"`
	}{}
	r := vhOpen(t, &in)
	defer r.Done()

	load := func(inputs map[string]any, outputs map[string]any) *agent.Action {
		j, err := json.Marshal(map[string]any{"$schema": "x", "metadata": map[string]any{"name": "ag", "timeout": 5}, "actions": []any{map[string]any{"action": "other", "input": map[string]any{}, "output": map[string]any{}}, map[string]any{"action": "act", "input": inputs, "output": outputs}}})
		if err != nil {
			t.Fatal(err)
		}
		d, err := agent.NewFromBytes(j)
		if err != nil {
			t.Fatal(err)
		}
		a, err := d.ActionInterface("act")
		if err != nil {
			t.Fatal(err)
		}
		return a
	}
	str := func(j json.RawMessage) (s string) {
		if err := json.Unmarshal(j, &s); err != nil {
			t.Fatal(err)
		}
		return s
	}
	canon := func(v any) string { j, _ := json.Marshal(v); return string(j) }
	same := func(a, b string) bool {
		var x, y any
		return json.Unmarshal([]byte(a), &x) == nil && json.Unmarshal([]byte(b), &y) == nil && vhSame(x, y)
	}

	one := func(c *vhRow) {
		switch c.R.K {
		case "one":
			it := vhItem{}
			json.Unmarshal(c.R.Item, &it)
			a := load(map[string]any{"in": vhItemJSON(it)}, nil)
			val := vhVals[str(c.R.V)]
			_, err := a.ValidateRequestJSON(json.RawMessage(`{"in":` + val + `}`))
			if (err == nil) != c.OK {
				r.Mismatch(c.ID, 0, "one", c.OK, fmt.Sprint(err), c)
			}
			var v any
			json.Unmarshal([]byte(val), &v)
			_, err = a.ValidateInputValue("in", v)
			if (err == nil) != c.OK {
				r.Mismatch(c.ID, 0, "one-value", c.OK, fmt.Sprint(err), c)
			}
			if _, err := a.ValidateInputValue("nope", v); err == nil {
				r.Mismatch(c.ID, 0, "unknown-input", "an error", "none", c)
			}

		case "convert":
			it := vhItem{}
			json.Unmarshal(c.R.Item, &it)
			typed := strings.TrimPrefix(str(c.R.V), "s:")
			a := load(map[string]any{"in": vhItemJSON(it)}, nil)
			res, _, err := a.ValidateAndConvertToDDLTypes(map[string]string{"in": typed})
			if c.Conv == "any" {
				return
			}
			if (err == nil) != c.OK {
				r.Mismatch(c.ID, 0, "convert", c.Conv, fmt.Sprint(res, err), c)
				return
			}
			if _, verr := a.ValidateInputString("in", typed); (verr == nil) != c.OK {
				r.Mismatch(c.ID, 0, "convert-validate", c.OK, fmt.Sprint(verr), c)
			}
			if !c.OK {
				return
			}
			want := c.Conv
			if want == "same" {
				want = canon(typed)
			}
			if len(res) != 1 || !same(canon(res["in"]), want) {
				r.Mismatch(c.ID, 0, "converted", want, canon(res), c)
				return
			}
			// what the client sends is what the node admits
			if _, err := a.ValidateRequestJSON(json.RawMessage(canon(res))); err != nil {
				r.Mismatch(c.ID, 0, "converted-admitted", "admitted", err.Error(), c)
			}

		case "multi", "zero":
			inputs := map[string]any{}
			items := map[string]vhItem{}
			if c.R.K == "multi" {
				json.Unmarshal(c.R.Item, &items)
				for n, i := range items {
					inputs[n] = vhItemJSON(i)
				}
			}
			v := map[string]string{}
			json.Unmarshal(c.R.V, &v)
			req := map[string]any{}
			for _, n := range []string{"a", "b", "c"} {
				if v[n] != "absent" {
					req[n] = json.RawMessage(vhVals[v[n]])
				}
			}
			switch v["x"] {
			case "extra":
				req["zz"] = 1
			case "process_results":
				req["process_results"] = true
			}
			a := load(inputs, nil)
			_, err := a.ValidateRequestJSON(json.RawMessage(canon(req)))
			if (err == nil) != c.OK {
				r.Mismatch(c.ID, 0, "request", c.OK, fmt.Sprint(err), c)
			}
			if c.R.K == "multi" && v["x"] == "none" {
				m := map[string]any{}
				json.Unmarshal([]byte(canon(req)), &m)
				if err := a.SetDefaults(m); err != nil {
					r.Mismatch(c.ID, 0, "defaults", "set", err.Error(), c)
				}
				want := map[string]any{}
				for n, s := range c.Def {
					if s != "absent" {
						want[n] = json.RawMessage(vhVals[s])
					}
				}
				if !same(canon(m), canon(want)) {
					r.Mismatch(c.ID, 0, "defaults", canon(want), canon(m), c)
				}
				// typed on the command line: texts of the same values
				typed := map[string]string{}
				for n, x := range req {
					s := string(x.(json.RawMessage))
					if strings.HasPrefix(s, `"`) {
						json.Unmarshal([]byte(s), &s)
					}
					typed[n] = s
				}
				lenient := v["a"] == "i1" || v["b"] == "tnum" || v["b"] == "null" // typed, these are texts and numbers as declared
				res, _, err := a.ValidateAndConvertToDDLTypes(typed)
				if !lenient && (err == nil) != c.Typed {
					r.Mismatch(c.ID, 0, "typed", c.Typed, fmt.Sprint(err), c)
				}
				if err == nil && !same(canon(res), canon(want)) && !lenient {
					r.Mismatch(c.ID, 0, "typed-result", canon(want), canon(res), c)
				}
				if err == nil {
					if _, err := a.ValidateRequestJSON(json.RawMessage(canon(res))); err != nil {
						r.Mismatch(c.ID, 0, "typed-admitted", "admitted", err.Error(), c)
					}
				}
			}

		case "output":
			vals := map[string]any{"null": nil, "zero": 0.0, "false": false, "text": "hello", "blank": "", "list": []any{1.0}}
			o := map[string]any{"description": "d", "display_as": "d"}
			if d := str(c.R.Item); d != "none" {
				o["default"] = vals[d]
			}
			a := load(nil, map[string]any{"out": o, "second": map[string]any{"description": "d", "display_as": "d", "default": 9}})
			m := map[string]any{"other": 1.0}
			want := map[string]any{"other": 1.0, "second": 9.0}
			if g := str(c.R.V); g != "absent" {
				m["out"] = vals[g]
			}
			if c.Def["out"] != "absent" {
				want["out"] = vals[c.Def["out"]]
			}
			a.SetOutputDefaults(m)
			if !vhSame(want, m) {
				r.Mismatch(c.ID, 0, "output-defaults", want, m, c)
			}

		case "body":
			body := map[string]string{"list": "[]", "text": `"a"`, "number": "1", "null": "null", "broken": `{"a":`, "empty": ""}[str(c.R.V)]
			_, err := load(map[string]any{}, nil).ValidateRequestJSON(json.RawMessage(body))
			if (err == nil) != c.OK {
				r.Mismatch(c.ID, 0, "body", c.OK, fmt.Sprint(err), c)
			}
		}
	}

	for _, c := range in.Cases {
		r.Case(c.ID)
		r.Step()
		if res := vhGuard(20*time.Second, func() { one(c) }); res != "" {
			r.Mismatch(c.ID, 0, "crash", "a verdict", res, c)
		}
	}
}
