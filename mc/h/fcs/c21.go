// Package fcs holds the scenarios on the configuration formats.
package fcs

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"maps"
	"slices"
	"sort"
	"strings"

	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	configset_json "github.com/aperturerobotics/controllerbus/controller/configset/json"
	configset_proto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	controller_exec "github.com/aperturerobotics/controllerbus/controller/exec"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/cts"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/ghodss/yaml"
)

// fmtEnv is a bus which resolves the config types f, g and true.
type fmtEnv struct {
	*bst.Env
	ctx context.Context
}

func newFmtEnv(x *mcx.X) *fmtEnv {
	e := &fmtEnv{Env: bst.New(x)}
	e.ctx = e.Ctx
	var fs []controller.Factory
	for _, id := range []string{"f", "g", "true"} {
		fs = append(fs, cts.NewFac(x, id))
	}
	c := resolver.NewController(dct.Log(), e.B, static.NewResolver(fs...))
	_, err := e.B.AddController(e.Ctx, c, nil)
	bst.Must(x, err)
	return e
}

// guard runs fn and reports a panic.
func guard(x *mcx.X, what string, fn func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			x.Failf("%s: panic: %v", what, r)
		}
	}()
	fn()
	return true
}

// ent is one entry of an abstract config set.
type ent struct {
	rev  uint64
	id   string
	a, b string // field values
}

type absSet map[string]ent

func (s absSet) String() string {
	var out []string
	for k, v := range s {
		out = append(out, fmt.Sprintf("%q:%+v", k, v))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func mkConf(v ent) config.Config {
	c := cts.NewConf(v.id, v.a)
	c.FailWithErr = v.b
	return c
}

func (s absSet) build() configset.ConfigSet {
	cs := configset.ConfigSet{}
	for k, v := range s {
		cs[k] = configset.NewControllerConfig(v.rev, mkConf(v))
	}
	return cs
}

func entOf(c configset.ControllerConfig) (ent, error) {
	if c == nil {
		return ent{}, fmt.Errorf("nil entry")
	}
	cc, ok := c.GetConfig().(*cts.Conf)
	if !ok || cc == nil {
		return ent{}, fmt.Errorf("config is %T", c.GetConfig())
	}
	return ent{c.GetRev(), cc.GetConfigID(), cc.ExampleField, cc.FailWithErr}, nil
}

func absOf(cs configset.ConfigSet) (absSet, error) {
	out := absSet{}
	for k, v := range cs {
		e, err := entOf(v)
		if err != nil {
			return nil, fmt.Errorf("%q: %w", k, err)
		}
		out[k] = e
	}
	return out, nil
}

func same(a, b absSet) bool { return maps.Equal(a, b) }

// the forms of a config set
const (
	fGo    = iota // configset.ConfigSet
	fProto        // *configset_proto.ConfigSet
	fBin          // protobuf encoding
	fPJSON        // JSON encoding of the message
	fPYAML        // the same as YAML
	fJ            // configset_json.ConfigSet
	fJSON         // JSON text
	fYAML         // YAML text
	fReq          // encoded execution request with YAML
	nForms
)

var formNames = [nForms]string{"go", "proto", "bin", "pjson", "pyaml", "j", "json", "yaml", "req"}

type edge struct {
	from, to int
	name     string
	fn       func(e *fmtEnv, v any) (any, error)
}

// scrub overwrites a buffer which was decoded: the result must not refer to it.
func scrub(b []byte) {
	for i := range b {
		b[i] = 'X'
	}
}

var edges = []edge{
	{fGo, fProto, "NewConfigSet", func(e *fmtEnv, v any) (any, error) {
		return configset_proto.NewConfigSet(v.(configset.ConfigSet), false)
	}},
	{fGo, fProto, "NewConfigSet-json", func(e *fmtEnv, v any) (any, error) {
		return configset_proto.NewConfigSet(v.(configset.ConfigSet), true)
	}},
	{fGo, fProto, "ApplyConfig", func(e *fmtEnv, v any) (any, error) {
		m := configset_proto.ConfigSetMap{}
		for k, c := range v.(configset.ConfigSet) {
			cc, err := m.ApplyConfig(k, c.GetConfig(), c.GetRev(), len(k)%2 == 0)
			if err != nil {
				return nil, err
			}
			if m[k] != cc {
				return nil, fmt.Errorf("ApplyConfig returned another entry")
			}
		}
		return &configset_proto.ConfigSet{Configs: m}, nil
	}},
	{fProto, fBin, "MarshalVT", func(e *fmtEnv, v any) (any, error) { return v.(*configset_proto.ConfigSet).MarshalVT() }},
	{fBin, fProto, "UnmarshalVT", func(e *fmtEnv, v any) (any, error) {
		b, o := bytes.Clone(v.([]byte)), &configset_proto.ConfigSet{}
		err := o.UnmarshalVT(b)
		scrub(b)
		return o, err
	}},
	{fProto, fPJSON, "MarshalJSON", func(e *fmtEnv, v any) (any, error) { return json.Marshal(v.(*configset_proto.ConfigSet)) }},
	{fPJSON, fProto, "UnmarshalJSON", func(e *fmtEnv, v any) (any, error) {
		b, o := bytes.Clone(v.([]byte)), &configset_proto.ConfigSet{}
		err := json.Unmarshal(b, o)
		scrub(b)
		return o, err
	}},
	{fPJSON, fPYAML, "JSONToYAML", func(e *fmtEnv, v any) (any, error) { return yaml.JSONToYAML(v.([]byte)) }},
	{fPYAML, fProto, "yaml.Unmarshal", func(e *fmtEnv, v any) (any, error) {
		o := &configset_proto.ConfigSet{}
		return o, yaml.Unmarshal(v.([]byte), o)
	}},
	{fProto, fProto, "Merge", func(e *fmtEnv, v any) (any, error) {
		return configset_proto.MergeConfigSets(nil, v.(*configset_proto.ConfigSet), &configset_proto.ConfigSet{}), nil
	}},
	{fProto, fGo, "Resolve", func(e *fmtEnv, v any) (any, error) { return v.(*configset_proto.ConfigSet).Resolve(e.ctx, e.B) }},
	{fGo, fGo, "Merge", func(e *fmtEnv, v any) (any, error) {
		return configset.MergeConfigSets(nil, v.(configset.ConfigSet), configset.ConfigSet{}), nil
	}},
	{fGo, fJ, "json.NewConfigSet", func(e *fmtEnv, v any) (any, error) {
		return configset_json.NewConfigSet(v.(configset.ConfigSet)), nil
	}},
	{fGo, fJ, "json.NewConfig", func(e *fmtEnv, v any) (any, error) {
		o := configset_json.ConfigSet{}
		for k, c := range v.(configset.ConfigSet) {
			cc := &configset_json.ControllerConfig{Rev: c.GetRev(), Id: c.GetConfig().GetConfigID(), Config: configset_json.NewConfig(c.GetConfig())}
			if cc.Config.GetConfig() != c.GetConfig() {
				return nil, fmt.Errorf("GetConfig returns another config")
			}
			o[k] = cc
		}
		return o, nil
	}},
	{fGo, fJ, "json.NewConfigWithJSON", func(e *fmtEnv, v any) (any, error) {
		o := configset_json.ConfigSet{}
		for k, c := range v.(configset.ConfigSet) {
			dat, err := c.GetConfig().MarshalJSON()
			if err != nil {
				return nil, err
			}
			o[k] = &configset_json.ControllerConfig{Rev: c.GetRev(), Id: c.GetConfig().GetConfigID(), Config: configset_json.NewConfigWithJSON(string(dat))}
		}
		return o, nil
	}},
	{fJ, fJSON, "json.Marshal", func(e *fmtEnv, v any) (any, error) { return json.Marshal(v.(configset_json.ConfigSet)) }},
	{fJSON, fJ, "json.Unmarshal", func(e *fmtEnv, v any) (any, error) {
		b, o := bytes.Clone(v.([]byte)), configset_json.ConfigSet{}
		err := json.Unmarshal(b, &o)
		scrub(b)
		return o, err
	}},
	{fJSON, fYAML, "JSONToYAML", func(e *fmtEnv, v any) (any, error) { return yaml.JSONToYAML(v.([]byte)) }},
	{fJ, fGo, "json.Resolve", func(e *fmtEnv, v any) (any, error) { return v.(configset_json.ConfigSet).Resolve(e.ctx, e.B) }},
	{fJ, fJ, "json.Resolve-keep", func(e *fmtEnv, v any) (any, error) {
		_, err := v.(configset_json.ConfigSet).Resolve(e.ctx, e.B)
		return v, err
	}},
	{fGo, fYAML, "MarshalYAML", func(e *fmtEnv, v any) (any, error) { return configset_json.MarshalYAML(v.(configset.ConfigSet)) }},
	{fYAML, fGo, "UnmarshalYAML", func(e *fmtEnv, v any) (any, error) {
		b, o := bytes.Clone(v.([]byte)), configset.ConfigSet{}
		added, err := configset_json.UnmarshalYAML(e.ctx, e.B, b, o, false)
		scrub(b)
		if err == nil && !sameKeys(added, slices.Collect(maps.Keys(o))) {
			return nil, fmt.Errorf("reported %q as added", added)
		}
		return o, err
	}},
	{fYAML, fJ, "yaml.Unmarshal", func(e *fmtEnv, v any) (any, error) {
		o := configset_json.ConfigSet{}
		err := yaml.Unmarshal(v.([]byte), &o)
		return o, err
	}},
	{fGo, fReq, "ExecControllerYAML", func(e *fmtEnv, v any) (any, error) {
		r, err := controller_exec.ExecControllerYAMLFromConfigSet(v.(configset.ConfigSet))
		if err != nil {
			return nil, err
		}
		return r.MarshalVT()
	}},
	{fReq, fYAML, "Unmarshal", func(e *fmtEnv, v any) (any, error) {
		r := &controller_exec.ExecControllerRequest{}
		err := r.UnmarshalVT(v.([]byte))
		return []byte(r.GetConfigSetYaml()), err
	}},
	{fGo, fProto, "ExecControllerProto", func(e *fmtEnv, v any) (any, error) {
		r, err := controller_exec.ExecControllerProtoFromConfigSet(v.(configset.ConfigSet))
		if err != nil {
			return nil, err
		}
		j, err := r.MarshalJSON()
		if err != nil {
			return nil, err
		}
		r = &controller_exec.ExecControllerRequest{}
		err = r.UnmarshalJSON(j)
		return r.GetConfigSet(), err
	}},
}

func sameKeys(a, b []string) bool {
	a, b = slices.Clone(a), slices.Clone(b)
	sort.Strings(a)
	sort.Strings(b)
	return slices.Equal(a, b)
}

// values of the enumeration
var keysDom = []string{"k", "true", "", "a b: c", "é\n\""}
var revDom = []uint64{1, 0, 1<<63 + 1, 1<<53 + 1}
var idDom = []string{"f", "g", "true"}
var valDom = []string{"", "v", "{", "{}", "null", "12", "true", "\n a: b\n", "\"<&>\u2028é", "~", "\x7b\"a\":1\x7d", " ", "1e3"}

// pairs of string values
func pair(i int) (string, string) {
	n := len(valDom)
	if i < n {
		return valDom[i], ""
	}
	return valDom[(i+3)%n], valDom[i%n]
}

var nPairs = 2 * len(valDom)

func outgoing(form int) (out []int) {
	for i, g := range edges {
		if g.from == form {
			out = append(out, i)
		}
	}
	return
}

// formats takes a config set through all chains of conversions.
func formats(x *mcx.X, full bool, depth int) {
	e := newFmtEnv(x)
	s := absSet{}
	if full {
		// all single entries
		a, b := pair(x.Choose(nPairs))
		s[keysDom[x.Choose(len(keysDom))]] = ent{revDom[x.Choose(len(revDom))], idDom[x.Choose(len(idDom))], a, b}
	} else {
		n := x.Choose(3)
		for i := 0; i < n; i++ {
			a, b := pair(x.Choose(4))
			s[keysDom[i]] = ent{revDom[i], idDom[i], a, b}
		}
	}
	var cur any = s.build()
	form, chain := fGo, ""
	for i := 0; i < depth || form != fGo; i++ {
		out := outgoing(form)
		var g edge
		if i < depth {
			g = edges[out[x.Choose(len(out))]]
		} else {
			// the way back
			for _, o := range out {
				if to := edges[o].to; to == fGo || (form != fProto && form != fJ && to != form) {
					g = edges[o]
					if to == fGo {
						break
					}
				}
			}
		}
		chain += fmt.Sprintf(" %s(%s->%s)", g.name, formNames[g.from], formNames[g.to])
		var err error
		ok := guard(x, fmt.Sprintf("config set %v:%s", s, chain), func() { cur, err = g.fn(e, cur) })
		if !ok {
			return
		}
		if err != nil {
			x.Failf("config set %v:%s: %v", s, chain, err)
			return
		}
		form = g.to
		if cs, ok := cur.(configset.ConfigSet); ok && cs == nil {
			// an empty set may become a nil one
			cur = configset.ConfigSet{}
		}
		x.Ev(g.name, form, 0, 0)
		if form == fProto {
			if err := cur.(*configset_proto.ConfigSet).Validate(); err != nil {
				x.Failf("config set %v:%s: Validate: %v", s, chain, err)
			}
		}
		if form == fGo {
			got, err := absOf(cur.(configset.ConfigSet))
			if err != nil || !same(got, s) {
				x.Failf("config set %v:%s: became %v (%v)", s, chain, got, err)
				return
			}
			if !cur.(configset.ConfigSet).Equal(s.build()) || !s.build().Equal(cur.(configset.ConfigSet)) {
				x.Failf("config set %v:%s: is not Equal to the original", s, chain)
			}
		}
	}
	e.Finish()
}

// doc is a fragment of a document and its meaning.
type doc struct {
	text string
	bad  bool
	v    ent
}

// documents for one entry
var jsonDocs = []doc{
	{`{"id":"f","rev":1,"config":{"exampleField":"v"}}`, false, ent{1, "f", "v", ""}},
	{`{"id":"f","rev":2,"config":{}}`, false, ent{2, "f", "", ""}},
	{`{"id":"f"}`, false, ent{0, "f", "", ""}},
	{`{"id":"f","config":null}`, false, ent{0, "f", "", ""}},
	{`{"config":{"exampleField":"v"},"unknown":{"id":[1]},"id":"g"}`, false, ent{0, "g", "v", ""}},
	{`{"id":"g","config":{ "failWithErr" : "{\"" } }`, false, ent{0, "g", "", "{\""}},
	{`{"id":"f","config":{"unknown":[{}],"exampleField":"v"}}`, false, ent{0, "f", "v", ""}},
	{`null`, true, ent{}},
	{`{}`, true, ent{}},
	{`{"id":""}`, true, ent{}},
	{`{"config":{}}`, true, ent{}},
	{`{"id":null,"config":{}}`, true, ent{}},
	{`{"id":"f","config":[]}`, true, ent{}},
	{`{"id":"f","config":1}`, true, ent{}},
	{`{"id":"f","config":true}`, true, ent{}},
	{`{"id":"f","config":{"exampleField":{}}}`, true, ent{}},
	{`{"id":"f","config":{"exampleField":[1]}}`, true, ent{}},
	{`{"id":"f","rev":-1}`, true, ent{}},
	{`{"id":"f","rev":{}}`, true, ent{}},
	{`{"id":{},"config":{}}`, true, ent{}},
	{`{"id":"f","config":"**"}`, true, ent{}},
	{`[]`, true, ent{}},
	{`1`, true, ent{}},
	{`"f"`, true, ent{}},
}

// parsers of a document with a config set
type parser struct {
	name string
	fn   func(e *fmtEnv, text string) (configset.ConfigSet, error)
}

var parsers = []parser{
	{"json", func(e *fmtEnv, text string) (configset.ConfigSet, error) {
		o := configset_json.ConfigSet{}
		if err := json.Unmarshal([]byte(text), &o); err != nil {
			return nil, err
		}
		return o.Resolve(e.ctx, e.B)
	}},
	{"json-json", func(e *fmtEnv, text string) (configset.ConfigSet, error) {
		// the document is written back before it is resolved
		o := configset_json.ConfigSet{}
		if err := json.Unmarshal([]byte(text), &o); err != nil {
			return nil, err
		}
		dat, err := json.Marshal(o)
		if err != nil {
			return nil, err
		}
		o = configset_json.ConfigSet{}
		if err := json.Unmarshal(dat, &o); err != nil {
			return nil, err
		}
		return o.Resolve(e.ctx, e.B)
	}},
	{"UnmarshalYAML", func(e *fmtEnv, text string) (configset.ConfigSet, error) {
		y, err := yaml.JSONToYAML([]byte(text))
		if err != nil {
			return nil, err
		}
		o := configset.ConfigSet{}
		_, err = configset_json.UnmarshalYAML(e.ctx, e.B, y, o, true)
		return o, err
	}},
	{"entries", func(e *fmtEnv, text string) (configset.ConfigSet, error) {
		// entry by entry
		var m map[string]json.RawMessage
		if err := json.Unmarshal([]byte(text), &m); err != nil {
			return nil, err
		}
		o := configset.ConfigSet{}
		for k, v := range m {
			y, err := yaml.JSONToYAML(v)
			if err != nil {
				return nil, err
			}
			cc, err := configset_json.UnmarshalControllerConfigYAML(y)
			if err != nil {
				return nil, err
			}
			c, err := cc.Resolve(e.ctx, e.B)
			if err != nil {
				return nil, err
			}
			if cc.GetRev() != c.GetRev() {
				return nil, fmt.Errorf("the revision was %d before", cc.GetRev())
			}
			if cc.Config.GetConfig() != c.GetConfig() {
				return nil, fmt.Errorf("GetConfig returns another config")
			}
			o[k] = c
		}
		return o, nil
	}},
	{"proto", func(e *fmtEnv, text string) (configset.ConfigSet, error) {
		o := &configset_proto.ConfigSet{}
		if err := json.Unmarshal([]byte(`{"configs":`+text+`}`), o); err != nil {
			return nil, err
		}
		return o.Resolve(e.ctx, e.B)
	}},
	{"proto-bin", func(e *fmtEnv, text string) (configset.ConfigSet, error) {
		o := &configset_proto.ConfigSet{}
		if err := yaml.Unmarshal([]byte(`{"configs":`+text+`}`), o); err != nil {
			return nil, err
		}
		dat, err := o.MarshalVT()
		if err != nil {
			return nil, err
		}
		o = &configset_proto.ConfigSet{}
		if err := o.UnmarshalVT(dat); err != nil {
			return nil, err
		}
		return o.Resolve(e.ctx, e.B)
	}},
}

// documents decodes all documents of up to n entries.
func documents(x *mcx.X, n int) {
	e := newFmtEnv(x)
	want, bad := absSet{}, false
	var parts []string
	k := x.Choose(n + 1)
	for i := 0; i < k; i++ {
		d := jsonDocs[x.Choose(len(jsonDocs))]
		key := keysDom[i]
		kb, _ := json.Marshal(key)
		parts = append(parts, string(kb)+":"+d.text)
		bad = bad || d.bad
		want[key] = d.v
	}
	text := "{" + strings.Join(parts, ",") + "}"
	for _, p := range parsers {
		what := fmt.Sprintf("%s: document %s", p.name, text)
		var got configset.ConfigSet
		var err error
		if !guard(x, what, func() { got, err = p.fn(e, text) }) {
			return
		}
		if bad {
			if err == nil {
				a, aerr := absOf(got)
				x.Failf("%s: was accepted as %v (%v)", what, a, aerr)
			}
			continue
		}
		if err != nil {
			x.Failf("%s: %v", what, err)
			continue
		}
		a, aerr := absOf(got)
		if aerr != nil || !same(a, want) {
			x.Failf("%s: was read as %v (%v)", what, a, aerr)
		}
	}
	e.Finish()
}

// mergeYAML reads a YAML config set into another one.
func mergeYAML(x *mcx.X) {
	e := newFmtEnv(x)
	pick := func(base uint64) absSet {
		s := absSet{}
		for _, k := range keysDom[:2] {
			switch x.Choose(3) {
			case 1:
				s[k] = ent{base, "f", "v", ""}
			case 2:
				s[k] = ent{base + 1, "g", "w", "x"}
			}
		}
		return s
	}
	old, add, over := pick(1), pick(2), x.Choose(2) == 1
	dat, err := configset_json.MarshalYAML(add.build())
	bst.Must(x, err)
	cs := old.build()
	added, err := configset_json.UnmarshalYAML(e.ctx, e.B, dat, cs, over)
	bst.Must(x, err)
	want := maps.Clone(old)
	var wantAdded []string
	for k, v := range add {
		if _, ok := want[k]; !ok || over {
			want[k] = v
			wantAdded = append(wantAdded, k)
		}
	}
	got, err := absOf(cs)
	if err != nil || !same(got, want) {
		x.Failf("%v merged into %v (overwrite %v) is %v (%v)", add, old, over, got, err)
	}
	if !sameKeys(added, wantAdded) {
		x.Failf("%v merged into %v (overwrite %v): %q reported as added", add, old, over, added)
	}
	e.Finish()
}

// rawTokens make up the encoded config of an entry.
var rawTokens = []string{"{", "}", `"a"`, ":", ",", "1", "[", "]", "null", " "}

// rawConfigs checks the entries which carry arbitrary bytes.
func rawConfigs(s *mcx.SeqX) {
	depth := 5
	if s.Tier == "thorough" {
		depth = 7
	}
	var rec func(d int, text string)
	rec = func(d int, text string) {
		if s.Over() {
			return
		}
		rawConfig(s, text)
		if d == depth {
			return
		}
		for _, t := range rawTokens {
			s.Trans()
			rec(d+1, text+t)
		}
	}
	rec(0, "{")
	for _, t := range []string{"", "\x00", "\x0a\x01v", "\xff\xfe", "\x7b", "\x7b\x0a\x7d", " {}", "x", "\x0a\x01{", "\x12\x02{}"} {
		rawConfig(s, t)
	}
}

func rawConfig(s *mcx.SeqX, text string) {
	if !s.State(text) {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			s.Failf(text, "config %q: panic: %v", text, r)
		}
	}()
	c := &configset_proto.ControllerConfig{Id: "f", Rev: 3, Config: []byte(text)}
	isJSON := len(text) != 0 && text[0] == '{'
	bad := isJSON && !json.Valid([]byte(text))
	if err := c.Validate(); (err != nil) != bad {
		s.Failf(text, "Validate of config %q returned %v", text, err)
	}
	cs := &configset_proto.ConfigSet{Configs: map[string]*configset_proto.ControllerConfig{"k": c}}
	if err := cs.Validate(); (err != nil) != bad {
		s.Failf(text, "Validate of a set with config %q returned %v", text, err)
	}
	dat, err := cs.MarshalJSON()
	s.Case(fmt.Sprint(text, err != nil))
	s.Sample("%q -> %s", text, dat)
	if err != nil {
		if !bad {
			s.Failf(text, "MarshalJSON of config %q: %v", text, err)
		}
		return
	}
	if !json.Valid(dat) {
		s.Failf(text, "config %q is written as invalid JSON: %s", text, dat)
		return
	}
	out := &configset_proto.ConfigSet{}
	if err := out.UnmarshalJSON(dat); err != nil {
		s.Failf(text, "config %q: %s is not read: %v", text, dat, err)
	} else if !out.EqualVT(cs) {
		s.Failf(text, "config %q: %s is read as %v", text, dat, out)
	}
}

// setAlgebra compares and merges all small sets.
func setAlgebra(s *mcx.SeqX) {
	keys := []string{"p", "q"}
	choices := []*ent{nil, {1, "f", "v", ""}, {2, "f", "v", ""}, {2, "f", "w", ""}, {1, "g", "v", ""}}
	var sets []absSet
	for _, a := range choices {
		for _, b := range choices {
			m := absSet{}
			for i, c := range []*ent{a, b} {
				if c != nil {
					m[keys[i]] = *c
				}
			}
			sets = append(sets, m)
		}
	}
	for i, a := range sets {
		for j, b := range sets {
			s.Trans()
			s.Case(fmt.Sprint("eq", i, j))
			id := fmt.Sprintf("equal %v | %v", a, b)
			if got := a.build().Equal(b.build()); got != (i == j) {
				s.Failf(id, "Equal(%v, %v) is %v", a, b, got)
			}
			da, db := configset.NewApplyConfigSet(a.build()), configset.NewApplyConfigSet(b.build())
			if got := directive.Directive(da).(directive.DirectiveWithEquiv).IsEquivalent(db); got != (i == j) {
				s.Failf(id, "directives with %v and %v: IsEquivalent is %v", a, b, got)
			}
			// the nil entries of a set are ignored
			for k := range sets {
				merge(s, a, b, sets[k])
				if s.Over() {
					return
				}
			}
		}
	}
}

func merge(s *mcx.SeqX, in ...absSet) {
	want := absSet{}
	for _, m := range in {
		for k, v := range m {
			if o, ok := want[k]; !ok || o.rev <= v.rev {
				want[k] = v
			}
		}
	}
	id := fmt.Sprintf("merge %v", in)
	var gs []configset.ConfigSet
	var ps []*configset_proto.ConfigSet
	for _, m := range in {
		c := m.build()
		p, err := configset_proto.NewConfigSet(c, true)
		if err != nil {
			s.Failf(id, "%v", err)
			return
		}
		for _, k := range []string{"p", "q"} {
			if _, ok := c[k]; !ok {
				c[k] = nil
				p.Configs[k] = nil
			}
		}
		gs, ps = append(gs, c), append(ps, p)
	}
	s.Case(id)
	s.Trans()
	if got, err := absOf(configset.MergeConfigSets(gs...)); err != nil || !same(got, want) {
		s.Failf(id, "MergeConfigSets(%v) is %v (%v)", in, got, err)
	}
	wp, err := configset_proto.NewConfigSet(want.build(), true)
	if err != nil {
		s.Failf(id, "%v", err)
		return
	}
	if got := configset_proto.MergeConfigSets(ps...); !got.EqualVT(wp) {
		s.Failf(id, "proto MergeConfigSets(%v) is %v", in, got)
	}
	for i, m := range in {
		for _, k := range []string{"p", "q"} {
			w, ok := m[k]
			if g := gs[i][k]; (g != nil) != ok || (ok && (g.GetRev() != w.rev)) {
				s.Failf(id, "MergeConfigSets changed its argument %d", i)
			}
			if g := ps[i].Configs[k]; (g != nil) != ok || (ok && g.Rev != w.rev) {
				s.Failf(id, "proto MergeConfigSets changed its argument %d", i)
			}
		}
	}
}

func init() {
	depth, vdepth := 5, 2
	if mcx.Thorough() {
		depth, vdepth = 7, 3
	}
	mcx.Register(&mcx.Scenario{Prop: "C21", Name: "formats", EnvOnly: true, NoRace: true, Weight: 2, Body: func(x *mcx.X) { formats(x, false, depth) }})
	mcx.Register(&mcx.Scenario{Prop: "C21", Name: "values", EnvOnly: true, NoRace: true, Weight: 2, Body: func(x *mcx.X) { formats(x, true, vdepth) }})
	mcx.Register(&mcx.Scenario{Prop: "C21", Name: "documents", EnvOnly: true, NoRace: true, Body: func(x *mcx.X) { documents(x, 2) }})
	mcx.Register(&mcx.Scenario{Prop: "C21", Name: "merge-yaml", EnvOnly: true, NoRace: true, Body: mergeYAML})
	mcx.RegisterSeq(&mcx.Seq{Prop: "C21", Name: "raw-configs", Run: rawConfigs})
	mcx.RegisterSeq(&mcx.Seq{Prop: "C21", Name: "set-algebra", Run: setAlgebra})
}
