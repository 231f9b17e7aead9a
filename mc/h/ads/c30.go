package ads

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	bus_api "github.com/aperturerobotics/controllerbus/bus/api"
	api_controller "github.com/aperturerobotics/controllerbus/bus/api/controller"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	configset_proto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	controller_exec "github.com/aperturerobotics/controllerbus/controller/exec"
	"github.com/aperturerobotics/controllerbus/directive"
	directive_proto "github.com/aperturerobotics/controllerbus/directive/proto"
	boilerplate_controller "github.com/aperturerobotics/controllerbus/example/boilerplate/controller"
	boilerplate_v1 "github.com/aperturerobotics/controllerbus/example/boilerplate/v1"
	plugin_fs "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library/filesystem"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// a constructor of one message
type mk = func() reflect.Value

// setter sets a field to one value of its domain.
type setter = func(f reflect.Value)

var enumT = reflect.TypeOf(controller_exec.ControllerStatus(0))

// domain returns the values of a field; depth limits the nesting.
func domain(t reflect.Type, depth int) []setter {
	vals := func(vs ...any) (o []setter) {
		for _, v := range vs {
			o = append(o, func(f reflect.Value) { f.Set(reflect.ValueOf(v).Convert(t)) })
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		return vals(false, true)
	case reflect.String:
		return vals("", "1s", "é\"<\n\u2028 }")
	case reflect.Uint64:
		return vals(uint64(0), uint64(1), ^uint64(0))
	case reflect.Uint32:
		return vals(uint32(0), uint32(300), ^uint32(0))
	case reflect.Int32: // an enumeration
		return vals(int32(0), int32(1), int32(2), int32(3), int32(77))
	case reflect.Ptr:
		o := []setter{func(reflect.Value) {}}
		for _, m := range messages(t.Elem(), depth-1) {
			o = append(o, func(f reflect.Value) { f.Set(m()) })
		}
		return o
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return []setter{func(reflect.Value) {}, func(f reflect.Value) { f.SetBytes([]byte(`{"a":1}`)) }, func(f reflect.Value) { f.SetBytes([]byte{0, 0xff, '"'}) }}
		}
		o := []setter{func(reflect.Value) {}}
		var el []setter
		if t.Elem().Kind() == reflect.Ptr {
			for _, m := range messages(t.Elem().Elem(), depth-1) {
				el = append(el, func(f reflect.Value) { f.Set(m()) })
			}
		} else {
			el = domain(t.Elem(), depth-1)
		}
		for i, a := range el {
			o = append(o, func(f reflect.Value) {
				f.Set(reflect.MakeSlice(t, 1, 4))
				a(f.Index(0))
			})
			// with the next one and itself
			for _, b := range []setter{a, el[(i+1)%len(el)]} {
				o = append(o, func(f reflect.Value) {
					f.Set(reflect.MakeSlice(t, 2, 2))
					a(f.Index(0))
					b(f.Index(1))
				})
			}
		}
		return o
	case reflect.Map:
		o := []setter{func(reflect.Value) {}}
		el := messages(t.Elem().Elem(), depth-1)
		for i := range el {
			for _, ks := range [][]string{{""}, {"a"}, {"a", "é \""}} {
				o = append(o, func(f reflect.Value) {
					f.Set(reflect.MakeMap(t))
					for j, k := range ks {
						f.SetMapIndex(reflect.ValueOf(k), el[(i+j)%len(el)]())
					}
				})
			}
		}
		return o
	}
	panic(fmt.Sprint("no domain for ", t))
}

// messages returns constructors of all messages of a type in the domain: with
// the last level of nesting each field is either zero or its second value.
func messages(t reflect.Type, depth int) []mk {
	type fd struct {
		i   int
		dom []setter
	}
	var fds []fd
	total := 1
	for i := 0; i < t.NumField(); i++ {
		if !t.Field(i).IsExported() {
			continue
		}
		k := t.Field(i).Type.Kind()
		if depth <= 0 && (k == reflect.Ptr || k == reflect.Map || k == reflect.Slice) {
			continue
		}
		d := domain(t.Field(i).Type, depth)
		if depth <= 0 && len(d) > 2 {
			d = d[:2]
		}
		fds = append(fds, fd{i, d})
		total *= len(d)
	}
	var out []mk
	for n := 0; n < total; n++ {
		out = append(out, func() reflect.Value {
			m := reflect.New(t)
			k := n
			for _, f := range fds {
				f.dom[k%len(f.dom)](m.Elem().Field(f.i))
				k /= len(f.dom)
			}
			return m
		})
	}
	return out
}

// canon prints the contents of a message; an empty list is the same as none.
func canon(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		var f []string
		e := v.Elem()
		for i := 0; i < e.NumField(); i++ {
			if e.Type().Field(i).IsExported() {
				f = append(f, canon(e.Field(i)))
			}
		}
		return "{" + strings.Join(f, " ") + "}"
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("x%x", v.Bytes())
		}
		f := []string{}
		for i := 0; i < v.Len(); i++ {
			f = append(f, canon(v.Index(i)))
		}
		return "[" + strings.Join(f, ",") + "]"
	case reflect.Map:
		f := []string{}
		for _, k := range v.MapKeys() {
			f = append(f, fmt.Sprintf("%q:%s", k.String(), canon(v.MapIndex(k))))
		}
		sort.Strings(f)
		return "(" + strings.Join(f, ",") + ")"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	return fmt.Sprint(reflect.ValueOf(v.Interface()).Convert(v.Type()).Interface())
}

// netDir is a directive which goes over the network.
type msg interface {
	MarshalVT() ([]byte, error)
	UnmarshalVT([]byte) error
	MarshalJSON() ([]byte, error)
	UnmarshalJSON([]byte) error
	SizeVT() int
	MarshalToSizedBufferVT([]byte) (int, error)
}

var msgTypes = []msg{
	&bus_api.Config{}, &bus_api.GetBusInfoRequest{}, &bus_api.GetBusInfoResponse{},
	&api_controller.Config{}, &config.Placeholder{}, &configset_controller.Config{},
	&configset_proto.ConfigSet{}, &configset_proto.ControllerConfig{},
	&controller.Info{}, &controller_exec.ExecControllerRequest{}, &controller_exec.ExecControllerResponse{},
	&directive.DirectiveInfo{}, &directive.DirectiveState{}, &directive.ProtoDebugValue{},
	&boilerplate_controller.Config{}, &boilerplate_v1.Boilerplate{}, &boilerplate_v1.BoilerplateResult{},
	&plugin_fs.Config{},
}

// netMsg turns a message into a directive for the codec.
type netMsg struct {
	directive.Networked
	m msg
}

func (n *netMsg) MarshalVT() ([]byte, error) { return n.m.MarshalVT() }
func (n *netMsg) UnmarshalVT(d []byte) error { return n.m.UnmarshalVT(d) }

// netNone is a directive which is no message.
type netNone struct{ directive.Networked }

var errMarshal = errors.New("cannot marshal")

type netErr struct{ directive.Networked }

func (netErr) MarshalVT() ([]byte, error) { return nil, errMarshal }
func (netErr) UnmarshalVT([]byte) error   { return errMarshal }

// call calls a method with one result.
func call(v reflect.Value, name string, a ...reflect.Value) reflect.Value {
	return v.MethodByName(name).Call(a)[0]
}

// wire checks all messages.
func wire(s *mcx.SeqX) {
	depth := 3
	if s.Tier == "thorough" {
		depth = 4
	}
	codec := directive_proto.GetProtobufCodec()
	for _, z := range msgTypes {
		t := reflect.TypeOf(z).Elem()
		all := messages(t, depth)
		if len(all) > 60000 {
			all = messages(t, depth-1)
		}
		s.Sample("%s: %d messages", t, len(all))
		var prev mk
		for i, m := range all {
			if s.Over() {
				return
			}
			want := canon(m())
			name := fmt.Sprintf("%s %d %s", t, i, want)
			if s.Only != "" && s.Only != name && prev != nil {
				prev = m
				continue
			}
			s.Case(t.String() + fmt.Sprint(len(want)))
			s.State(name)
			guard(s, name, func() {
				a := m()
				am := a.Interface().(msg)
				// binary
				s.Trans()
				dat, err := am.MarshalVT()
				if err != nil {
					s.Failf(name, "MarshalVT: %v", err)
					return
				}
				if am.SizeVT() != len(dat) {
					s.Failf(name, "SizeVT is %d, but %d bytes were written", am.SizeVT(), len(dat))
				}
				r := reflect.New(t)
				if err := r.Interface().(msg).UnmarshalVT(dat); err != nil || canon(r) != want {
					s.Failf(name, "read back from binary as %s, %v", canon(r), err)
				}
				// cut off: an error or another message, never a panic
				for n := 0; n < len(dat); n++ {
					_ = reflect.New(t).Interface().(msg).UnmarshalVT(dat[:n])
				}
				// json
				s.Trans()
				js, err := am.MarshalJSON()
				if err != nil {
					s.Failf(name, "MarshalJSON: %v", err)
					return
				}
				r = reflect.New(t)
				if err := r.Interface().(msg).UnmarshalJSON(js); err != nil || canon(r) != want {
					s.Failf(name, "read back from json %s as %s, %v", js, canon(r), err)
				}
				// copies
				s.Trans()
				c := call(a, "CloneVT")
				if canon(c) != want {
					s.Failf(name, "the copy is %s", canon(c))
				}
				if !call(a, "EqualVT", c).Bool() || !call(c, "EqualVT", a).Bool() {
					s.Failf(name, "is not equal to its copy")
				}
				poison(c)
				if canon(a) != want {
					s.Failf(name, "changing the copy has changed it to %s", canon(a))
				}
				if prev != nil && s.Only == "" {
					p := prev()
					if got, w := call(a, "EqualVT", p).Bool(), canon(p) == want; got != w {
						s.Failf(name, "EqualVT with %s is %v", canon(p), got)
					}
				}
				// the codec of directives
				nd, err := codec.Marshal(&netMsg{m: am})
				if err != nil || string(nd) != string(dat) && !strings.Contains(want, "(") {
					s.Failf(name, "the codec writes %x, %v", nd, err)
				}
				r = reflect.New(t)
				if err := codec.Unmarshal(nd, &netMsg{m: r.Interface().(msg)}); err != nil || canon(r) != want {
					s.Failf(name, "the codec reads %s, %v", canon(r), err)
				}
				if in, ok := am.(*controller.Info); ok {
					c := in.Clone()
					if canon(reflect.ValueOf(c)) != want || c == in {
						s.Failf(name, "Clone returns %v", c)
					}
					if e := controllerInfoNil(); e != "" {
						s.Failf(name, "%s", e)
					}
				}
				if rs, ok := am.(*controller_exec.ExecControllerResponse); ok {
					checkResp(s, name, rs)
				}
			})
			prev = m
		}
	}
	name := "codec"
	s.Case(name)
	guard(s, name, func() {
		if d, err := codec.Marshal(nil); len(d) != 0 || err != nil {
			s.Failf(name, "marshaling nothing: %v %v", d, err)
		}
		if err := codec.Unmarshal([]byte{1, 2}, nil); err != nil {
			s.Failf(name, "unmarshaling nothing: %v", err)
		}
		if _, err := codec.Marshal(netNone{}); err != directive_proto.ErrNotProtobuf {
			s.Failf(name, "marshaling what is no message: %v", err)
		}
		if err := codec.Unmarshal([]byte{}, netNone{}); err != directive_proto.ErrNotProtobuf {
			s.Failf(name, "unmarshaling what is no message: %v", err)
		}
		if _, err := codec.Marshal(netErr{}); err != errMarshal {
			s.Failf(name, "marshaling with an error: %v", err)
		}
		if err := codec.Unmarshal(nil, netErr{}); err != errMarshal {
			s.Failf(name, "unmarshaling with an error: %v", err)
		}
	})
}

func controllerInfoNil() string {
	var n *controller.Info
	if n.Clone() != nil {
		return "the copy of no info is one"
	}
	return ""
}

// checkResp checks how a status is printed.
func checkResp(s *mcx.SeqX, name string, rs *controller_exec.ExecControllerResponse) {
	want := ""
	if rs.GetStatus() == controller_exec.ControllerStatus_ControllerStatus_ERROR {
		if want = rs.GetErrorInfo(); want == "" {
			want = controller_exec.ErrAllControllersFailed.Error()
		}
	}
	err := rs.GetError()
	if (err != nil) != (want != "") || err != nil && err.Error() != want {
		s.Failf(name, "GetError returns %v", err)
	}
	str := rs.FormatLogString()
	if !strings.Contains(str, rs.GetId()) || !strings.Contains(str, want) || rs.GetStatus() != 0 && !strings.Contains(str, rs.GetStatus().String()) {
		s.Failf(name, "is printed as %q", str)
	}
}

// poison changes everything in a message in place.
func poison(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		for i := 0; i < e.NumField(); i++ {
			if e.Type().Field(i).IsExported() {
				poison(e.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			poison(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			poison(v.MapIndex(k))
		}
	case reflect.String:
		v.SetString(v.String() + "!")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int32:
		v.SetInt(v.Int() + 1)
	case reflect.Uint8, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 0x55)
	}
}

func init() {
	mcx.RegisterSeq(&mcx.Seq{Prop: "C30", Name: "wire", Run: wire})
}
