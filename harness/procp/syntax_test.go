package procp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

type obj = map[string]interface{}

// raw is a literal that is written as it is in both syntaxes.
type raw string

func (r raw) MarshalJSON() ([]byte, error) { return []byte(r), nil }

func toJSON(o obj, indent string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", indent)
	vt.Must(e.Encode(o))
	return b.String()
}

func quoteHCL(s string) string {
	r := strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n", "\t", "\\t")
	return "\"" + r.Replace(s) + "\""
}

func bareKey(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && (c >= '0' && c <= '9' || c == '-' || c == '_')) {
			return false
		}
	}
	return s != "" && s != "true" && s != "false"
}

// style draws the free choices of the HCL syntax.
type style struct{ rt *rapid.T }

func (st style) value(v interface{}, in string) string {
	switch v := v.(type) {
	case string:
		return quoteHCL(v)
	case bool, int, float64:
		b, err := json.Marshal(v)
		vt.Must(err)
		return string(b)
	case raw:
		return string(v)
	case []string:
		var q []string
		for _, s := range v {
			q = append(q, quoteHCL(s))
		}
		if len(q) > 0 && chance(st.rt, "multiline", 4) {
			return "[\n" + in + "  " + strings.Join(q, ",\n"+in+"  ") + "\n" + in + "]"
		}
		return "[" + strings.Join(q, ", ") + "]"
	}
	panic(fmt.Sprintf("%T", v))
}

func (st style) body(o obj, in string) string {
	var keys []string
	for k := range o {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(keys) > 1 {
		keys = rapid.Permutation(keys).Draw(st.rt, "order")
	}
	var b strings.Builder
	for _, k := range keys {
		name := k
		if !bareKey(k) || chance(st.rt, "quotekey", 3) {
			name = quoteHCL(k)
		}
		switch n(st.rt, "comment", 0, 14) {
		case 0:
			b.WriteString(in + "# \"x\" = {\n")
		case 1:
			b.WriteString(in + "// note\n\n")
		case 2:
			b.WriteString(in + "/* two\n lines */\n")
		}
		if sub, ok := asObj(o[k]); ok {
			eq := ""
			if chance(st.rt, "assign", 4) {
				eq = "= "
			}
			b.WriteString(in + name + " " + eq + "{\n" + st.body(sub, in+"\t") + in + "}\n")
			continue
		}
		b.WriteString(in + name + " = " + st.value(o[k], in) + "\n")
	}
	return b.String()
}

func asObj(v interface{}) (obj, bool) {
	switch v := v.(type) {
	case obj:
		return v, true
	case map[string]string:
		o := obj{}
		for k, s := range v {
			o[k] = s
		}
		return o, true
	case map[string][]string:
		o := obj{}
		for k, s := range v {
			o[k] = s
		}
		return o, true
	}
	return nil, false
}

func toHCL(rt *rapid.T, o obj) string { return style{rt}.body(o, "") }

// write writes o in a drawn syntax.
func write(rt *rapid.T, path string, o obj, hcl bool) string {
	s := ""
	if hcl {
		s = toHCL(rt, o)
	} else {
		s = toJSON(o, pick(rt, "indent", "", " ", "\t"))
	}
	big := s
	if vt.Rare(rt, "padded", 12) { // blank space may stand between any two things
		pad := strings.Repeat(pick(rt, "padding", "\n", " \n", "                       \n"), rapid.SampledFrom([]int{50, 3000, 70000}).Draw(rt, "lines"))
		big = pad + s
		if !hcl && rapid.Bool().Draw(rt, "inside") {
			big = strings.Replace(s, "{", "{"+pad, 1)
		}
	}
	vt.Must(os.WriteFile(path, []byte(big), 0o644))
	return s
}

// put sets a dotted name.
func put(o obj, name string, v interface{}) {
	parts := strings.Split(name, ".")
	for _, p := range parts[:len(parts)-1] {
		if _, ok := o[p]; !ok {
			o[p] = obj{}
		}
		o = o[p].(obj)
	}
	o[parts[len(parts)-1]] = v
}
