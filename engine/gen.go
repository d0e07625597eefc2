package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
	"unicode"
)

// Generated harness code: for every message type of the committed specification spec/messages.json, functions that
// fill it symbolically, compare it and build its reference encoding, and one harness per property and type.

type specField struct {
	Name string
	Kind string
	Type string
	Min  int
	Max  int

	Missing bool // the current tree's struct lacks it: its zero value is expected on the wire
}
type specMsg struct {
	Name   string
	Key    int
	Min    int
	Max    int
	Fields []specField
}

// first flexible version of each API (KIP-482), which the library writes in the classic layout
var flexible = map[string]int{
	"Metadata": 9, "LeaderAndIsr": 4, "StopReplica": 2, "UpdateMetadata": 6, "ControlledShutdown": 3, "OffsetCommit": 8,
	"OffsetFetch": 6, "FindCoordinator": 3, "JoinGroup": 6, "Heartbeat": 4, "LeaveGroup": 4, "SyncGroup": 4, "DescribeGroups": 5,
	"ListGroups": 3, "ApiVersions": 3, "CreateTopics": 5, "DeleteTopics": 4, "InitProducerId": 2, "CreateDelegationToken": 2,
	"DeleteGroups": 2, "ElectLeaders": 2, "IncrementalAlterConfigs": 1, "AlterPartitionReassignments": 0,
	"ListPartitionReassignments": 0,
}

func loadSpec(root string) ([]specMsg, error) {
	b, err := os.ReadFile(filepath.Join(root, "spec", "messages.json"))
	if err != nil {
		return nil, err
	}
	var ms []specMsg
	return ms, json.Unmarshal(b, &ms)
}

func lower(s string) bool { return unicode.IsLower(rune(s[0])) }

func generate(repo, root string) (map[string][]byte, error) {
	ms, err := loadSpec(root)
	if err != nil {
		return nil, err
	}
	have := structFields(filepath.Join(repo, "message"))
	for i := range ms {
		for j := range ms[i].Fields {
			f := &ms[i].Fields[j]
			if h, ok := have[ms[i].Name]; ok && !h[f.Name] {
				f.Missing = true
			}
		}
	}
	return map[string][]byte{
		"zz_hmsg/gen_msgs.go": []byte(genMsgs(ms)),
		"zz_hmsg/gen_apis.go": []byte(genAPIs(ms)),
	}, nil
}

// structFields lists the fields of every struct type of the package in dir.
func structFields(dir string) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	fs := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fs, n, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(x ast.Node) bool {
			if ts, ok := x.(*ast.TypeSpec); ok {
				if st, ok := ts.Type.(*ast.StructType); ok {
					m := map[string]bool{}
					for _, fl := range st.Fields.List {
						for _, id := range fl.Names {
							m[id.Name] = true
						}
					}
					out[ts.Name.Name] = m
				}
			}
			return true
		})
	}
	return out
}

func genMsgs(ms []specMsg) string {
	by := map[string]*specMsg{}
	nested := map[string]bool{}
	for i := range ms {
		by[ms[i].Name] = &ms[i]
	}
	for _, m := range ms {
		for _, f := range m.Fields {
			if f.Kind == "Array" {
				nested[f.Type[2:]] = true
			}
		}
	}
	sites := func(m *specMsg) int { return arraySites(by, m) }
	var sb strings.Builder
	p := func(f string, a ...interface{}) { fmt.Fprintf(&sb, f+"\n", a...) }
	p("// Code generated from spec/messages.json; not committed.")
	p("package zz_hmsg")
	p("import (\n\t\"github.com/savaki/kafka/message\"\n\tv \"github.com/savaki/kafka/zz_vrt\"\n)")
	for i := range ms {
		m := &ms[i]
		T := m.Name
		hidden := false
		for _, f := range m.Fields {
			if lower(f.Name) {
				hidden = true
			}
		}
		GT := "message." + T
		if hidden {
			GT = "sh_" + T
			p("type %s struct {", GT)
			for _, f := range m.Fields {
				t := f.Type
				if f.Kind == "Array" {
					t = "[]message." + t[2:]
				}
				p("\t%s %s", f.Name, t)
			}
			p("}")
		}
		// fill
		p("func fill_%s(sh *shape) %s {", T, GT)
		p("\tvar x %s", GT)
		for _, f := range m.Fields {
			nm := f.Name
			if f.Missing {
				continue
			}
			switch f.Kind {
			case "Bool":
				p("\tx.%s = sh.bool(%q)", nm, nm)
			case "Int8", "Int16", "Int32", "Int64":
				p("\tx.%s = v.%s(%q)", nm, f.Kind, nm)
			case "String":
				p("\tx.%s = sh.str(%q)", nm, nm)
			case "Bytes":
				p("\tx.%s = sh.bytes(%q)", nm, nm)
			case "Int32Array", "Int64Array", "StringArray":
				p("\tx.%s = sh.%s(%q)", nm, strings.ToLower(f.Kind[:1])+f.Kind[1:], nm)
			case "Array":
				E := f.Type[2:]
				p("\tif n := sh.next(); n >= 0 {")
				p("\t\tx.%s = make([]message.%s, n)", nm, E)
				p("\t\tfor i := range x.%s {\n\t\t\tsh.push(i)\n\t\t\tx.%s[i] = fill_%s(sh)\n\t\t\tsh.pop()\n\t\t}", nm, nm, E)
				p("\t}")
			default:
				panic("kind " + f.Kind)
			}
		}
		p("\treturn x\n}")
		// eq
		p("func eq_%s(x %s, y message.%s, ver int) {", T, GT, T)
		for _, f := range m.Fields {
			nm := f.Name
			if lower(nm) || f.Missing {
				continue
			}
			where := T + "." + nm
			full := f.Min == m.Min && f.Max == m.Max
			if !full {
				p("\tif ver >= %d && ver <= %d {", f.Min, f.Max)
			}
			switch f.Kind {
			case "Bool", "Int8", "Int16", "Int32", "Int64":
				p("\tv.Assert(x.%s == y.%s, \"%s does not round-trip\")", nm, nm, where)
			case "String":
				p("\tv.AssertEqStr(x.%s, y.%s, \"%s does not round-trip\")", nm, nm, where)
			case "Bytes":
				p("\tv.AssertEqBytes(x.%s, y.%s, \"%s does not round-trip\")", nm, nm, where)
			case "Int32Array", "Int64Array", "StringArray":
				p("\tv.Assert((x.%s == nil) == (y.%s == nil), \"%s: null and empty are confused\")", nm, nm, where)
				fallthrough
			case "Array":
				p("\tif len(x.%s) != len(y.%s) {\n\t\tv.Fail(\"%s: length does not round-trip\")\n\t}", nm, nm, where)
				p("\tfor i := range x.%s {", nm)
				switch f.Kind {
				case "Array":
					p("\t\teq_%s(x.%s[i], y.%s[i], ver)", f.Type[2:], nm, nm)
				case "StringArray":
					p("\t\tv.AssertEqStr(x.%s[i], y.%s[i], \"%s does not round-trip\")", nm, nm, where)
				default:
					p("\t\tv.Assert(x.%s[i] == y.%s[i], \"%s does not round-trip\")", nm, nm, where)
				}
				p("\t}")
			}
			if !full {
				p("\t} else {")
				switch f.Kind {
				case "Bool":
					p("\tv.Assert(!y.%s, \"%s is set in a version that does not have it\")", nm, where)
				case "Int8", "Int16", "Int32", "Int64":
					p("\tv.Assert(y.%s == 0, \"%s is set in a version that does not have it\")", nm, where)
				case "String":
					p("\tv.Assert(len(y.%s) == 0, \"%s is set in a version that does not have it\")", nm, where)
				default:
					p("\tv.Assert(y.%s == nil, \"%s is set in a version that does not have it\")", nm, where)
				}
				p("\t}")
			}
		}
		p("}")
		// ref
		p("func ref_%s(b []byte, x %s, ver int) []byte {", T, GT)
		for _, f := range m.Fields {
			nm := f.Name
			full := f.Min == m.Min && f.Max == m.Max
			if !full {
				p("\tif ver >= %d && ver <= %d {", f.Min, f.Max)
			}
			fn := map[string]string{"Bool": "rbool", "Int8": "r8", "Int16": "r16", "Int32": "r32", "Int64": "r64", "String": "rstr", "Bytes": "rbytes",
				"Int32Array": "ri32s", "Int64Array": "ri64s", "StringArray": "rstrs"}[f.Kind]
			if f.Missing {
				zero := map[string]string{"Bool": "false", "String": "\"\"", "Bytes": "nil", "Int32Array": "nil", "Int64Array": "nil", "StringArray": "nil"}[f.Kind]
				if zero == "" {
					zero = "0"
				}
				if fn == "" {
					fn = "r32"
				}
				p("\tb = %s(b, %s)", fn, zero)
			} else if fn != "" {
				p("\tb = %s(b, x.%s)", fn, nm)
			} else {
				p("\tif x.%s == nil && nullArrays {\n\t\tb = r32(b, -1)\n\t} else {\n\t\tb = r32(b, int32(len(x.%s)))\n\t}", nm, nm)
				p("\tfor i := range x.%s {\n\t\tb = ref_%s(b, x.%s[i], ver)\n\t}", nm, f.Type[2:], nm)
			}
			if !full {
				p("\t}")
			}
		}
		p("\treturn b\n}")
		// harness
		n := sites(m)
		p("// make: a symbolic %s in version ver", T)
		if hidden {
			p(`func mk_%s(ver, sites int) (%s, message.%s) {
	w := fill_%s(newShape(sites))
	b := ref_%s(nil, w, ver)
	var x message.%s
	d := message.NewDecoder(b, len(b))
	v.Assert(x.Decode(d, int16(ver)) == nil, "%s: cannot be decoded")
	_, err := d.Int8()
	v.Assert(err != nil, "%s: not all its bytes are decoded")
	return w, x
}`, T, GT, T, T, T, T, T, T)
		} else {
			p("func mk_%s(ver, sites int) (%s, message.%s) {\n\tw := fill_%s(newShape(sites))\n\treturn w, w\n}", T, GT, T, T)
		}
		vers := m.Max - m.Min + 1
		symv := fmt.Sprintf("\tver := v.IntRange(\"version\", %d, %d)", m.Min, m.Max)
		pick := fmt.Sprintf("\tver := %d + v.Choose(\"version\", %d)", m.Min, vers)
		p(`// %s, versions %d-%d: declared size and encoded length
//vrt:quick long=2
//vrt:thorough arr=3 pairs=1 time=300 long=4
//vrt:split long
func H_C04_%s() {
%s
	_, x := mk_%s(ver, %d)
	s, e := enc()
	x.Encode(e, int16(ver))
	v.Assert(e.Flush() == nil, "%s: Flush reports an error")
	v.Assert(int(x.Size(int16(ver))) == len(s.B), "%s: declared size differs from the encoded length")
	v.Reach("end")
}
`, T, m.Min, m.Max, T, pick, T, n, T, T)
		p(`// %s, versions %d-%d: round trip
//vrt:quick long=2
//vrt:thorough arr=3 pairs=1 time=300 long=4
//vrt:split long
func H_C05_%s() {
%s
	w, x := mk_%s(ver, %d)
	s, e := enc()
	x.Encode(e, int16(ver))
	mark := v.Int32("mark")
	e.PutInt32(mark)
	d := dec(s, e, "%s")
	var y message.%s
	err := y.Decode(d, int16(ver))
	v.Assert(err == nil, "%s: decoding what was encoded fails")
	eq_%s(w, y, ver)
	after(d, mark, "%s")
}
`, T, m.Min, m.Max, T, pick, T, n, T, T, T, T, T)
		if m.Name == "RequestHeader" || m.Name == "ResponseHeader" {
			vers-- // the last one is the flexible header
			if m.Name == "RequestHeader" {
				vers++ // version 2 is what the library writes for every API: its classic form
			}
		}
		api := strings.TrimSuffix(strings.TrimSuffix(T, "Request"), "Response")
		fl, isFl := flexible[api]
		top := !nested[T]
		find := ""
		if isFl && top {
			find = fmt.Sprintf("\tif ver >= %d {\n\t\tv.Finding(\"flexible/%s/v%d\", \"%s version %d is written in the classic layout, not in the flexible one (KIP-482) that Kafka defines\")\n\t}\n", fl, T, fl, T, fl)
		}
		p(`// %s, versions %d-%d: field layout
//vrt:quick long=2
//vrt:thorough arr=3 pairs=1 time=300 long=4
//vrt:split long
func H_C06_%s() {
%s
	w, x := mk_%s(ver, %d)
	s, e := enc()
	x.Encode(e, int16(ver))
	v.Assert(e.Flush() == nil, "%s: Flush reports an error")
	v.AssertEqBytes(ref_%s(nil, w, ver), s.B, "%s: encoding differs from Kafka's layout")
%s	v.Reach("end")
}
`, T, m.Min, m.Max, T, pick, T, n, T, T, T, find)
		if top {
			p(`// %[1]s: one value used by two goroutines at once
//vrt:all par=1 shapes=0 strmax=3
//vrt:replay try
func H_C04_%[1]s_par() {
	ver := %[2]d + v.Choose("version", 2)*%[3]d
	_, x := mk_%[1]s(ver, %[4]d)
	par(func(int) {
		s, e := enc()
		x.Encode(e, int16(ver))
		v.Assert(e.Flush() == nil, "%[1]s: Flush reports an error")
		v.Assert(int(x.Size(int16(ver))) == len(s.B), "%[1]s: declared size differs from the encoded length")
	})
}

// %[1]s: one value encoded, and decoded, by two goroutines at once
//vrt:all par=1 shapes=0 strmax=3
//vrt:replay try
func H_C05_%[1]s_par() {
	ver := %[2]d + v.Choose("version", 2)*%[3]d
	w, x := mk_%[1]s(ver, %[4]d)
	par(func(int) {
		s, e := enc()
		x.Encode(e, int16(ver))
		d := dec(s, e, "%[1]s")
		var y message.%[1]s
		err := y.Decode(d, int16(ver))
		v.Assert(err == nil, "%[1]s: decoding what was encoded fails")
		eq_%[1]s(w, y, ver)
	})
}

// %[1]s: one value encoded by two goroutines at once
//vrt:all par=1 shapes=0 strmax=3
//vrt:replay try
func H_C06_%[1]s_par() {
	ver := %[2]d + v.Choose("version", 2)*%[3]d
	w, x := mk_%[1]s(ver, %[4]d)
	par(func(int) {
		s, e := enc()
		x.Encode(e, int16(ver))
		v.Assert(e.Flush() == nil, "%[1]s: Flush reports an error")
		v.AssertEqBytes(ref_%[1]s(nil, w, ver), s.B, "%[1]s: encoding differs from Kafka's layout")
	})
}
`, T, m.Min, m.Max-m.Min, n)
		}
		if len(m.Fields) > 0 {
			p(`// %s, versions %d-%d: every truncation
//vrt:thorough arr=2 pairs=1 time=300
//vrt:quick shapes=2
func H_C08_%s() {
%s
	w, _ := mk_%s(ver, %d)
	b := ref_%s(nil, w, ver)
	v.Assume(len(b) > 0)
	k := v.Int32("cut")
	v.Assume(k >= 0 && int(k) < len(b))
	d := message.NewDecoder(b, int(k))
	var y message.%s
	err := y.Decode(d, int16(ver))
	v.Assert(err != nil, "%s: truncated input is decoded without an error")
	v.Assert(message.IsInsufficientDataError(err), "%s: truncated input is not reported as insufficient data")
	v.Reach("end")
}
`, T, m.Min, m.Max, T, symv, T, n, T, T, T, T)
		}
		p(`// %s, versions %d-%d: arbitrary bytes; nested structures by contract
//vrt:all contract=1
//vrt:quick conc=1 unwind=2 time=100
//vrt:thorough conc=3 unwind=4 time=300
func H_C07_%s() {
%s
	raw := v.Bytes("raw", 1<<16-1)
	n := v.IntRange("n", 0, 1<<16-1)
	v.Assume(n <= len(raw))
	v.AllocLimit(n)
	v.Contract("nestedDecode", "%s")
	d := message.NewDecoder(raw, n)
	var y message.%s
	err := y.Decode(d, int16(ver))
	if err == nil {
		v.Assert(d.Discard(0) == nil, "%s: more bytes are consumed than the decoder was given")
	}
	v.Reach("end")
}
`, T, m.Min, m.Max, T, symv, T, T, T)
	}
	return sb.String()
}

func arraySites(by map[string]*specMsg, m *specMsg) int {
	n := 0
	for _, f := range m.Fields {
		if strings.HasSuffix(f.Kind, "Array") {
			n++
		}
		if f.Kind == "Array" {
			n += arraySites(by, by[f.Type[2:]])
		}
	}
	return n
}

// genAPIs: one harness per API call of the broker.
func genAPIs(ms []specMsg) string {
	by := map[string]*specMsg{}
	for i := range ms {
		by[ms[i].Name] = &ms[i]
	}
	var sb strings.Builder
	p := func(f string, a ...interface{}) { fmt.Fprintf(&sb, f+"\n", a...) }
	p("// Code generated from spec/messages.json; not committed.")
	p("package zz_hmsg")
	p("import (\n\t\"github.com/savaki/kafka/message\"\n\tv \"github.com/savaki/kafka/zz_vrt\"\n)")
	p("var apis = []api{")
	for _, m := range ms {
		if m.Key >= 0 && strings.HasSuffix(m.Name, "Request") {
			p("\t{%d, %d, %d, %q},", m.Key, m.Min, m.Max, strings.TrimSuffix(m.Name, "Request"))
		}
	}
	p("}")
	for i := range ms {
		m := &ms[i]
		if m.Key < 0 || !strings.HasSuffix(m.Name, "Request") {
			continue
		}
		A := strings.TrimSuffix(m.Name, "Request")
		R := by[A+"Response"]
		p(`// %[1]s: any range advertised by the broker
//
//vrt:quick time=100
//vrt:thorough time=300
//vrt:replay try
func H_C12_%[1]s() {
	lo, hi := v.Int16("min"), v.Int16("max")
	b, p, err := dialBroker(%[2]d, lo, hi)
	top := hi
	if top > %[4]d {
		top = %[4]d
	}
	if top < lo || top < %[3]d {
		v.Assert(err != nil, "%[1]s: connecting to a broker without a common version succeeds")
		v.Reach("end")
		return
	}
	v.Assert(err == nil, "%[1]s: connecting to a broker with a common version fails")
	done := make(chan bool, 1)
	go func() {
		b.%[1]s(message.%[1]sRequest{})
		done <- true
	}()
	key, ver, _, _ := frame(p)
	v.Assert(key == %[2]d, "%[1]s: wrong API key")
	v.Assert(ver == top, "%[1]s: not the highest common version")
	p.Close()
	<-done
	v.Reach("end")
}
`, A, m.Key, m.Min, m.Max)
		p(`// %[1]s: the request frame in every version
//
//vrt:all strfix=2
//vrt:quick shapes=1 arr=3 strs=6 time=100
//vrt:thorough shapes=1 arr=4 strs=20 pairs=1 time=900
//vrt:replay try
func H_C13_%[1]s() {
	ver := %[3]d + v.Choose("version", %[4]d)
	b, p, err := dialBroker(%[2]d, %[3]d, int16(ver))
	v.Assert(err == nil, "cannot connect")
	var x message.%[1]sRequest
	if v.Bool("filled") {
		_, x = mk_%[1]sRequest(ver, %[5]d)
	}
	s, e := enc()
	x.Encode(e, int16(ver))
	v.Assert(e.Flush() == nil, "the request cannot be encoded")
	done := make(chan bool, 1)
	go func() {
		b.%[1]s(x)
		done <- true
	}()
	key, got, _, body := frame(p)
	v.Assert(key == %[2]d, "%[1]s: wrong API key")
	v.Assert(int(got) == ver, "%[1]s: the version in the header is not the negotiated one")
	v.AssertEqBytes(s.B, body, "%[1]s: the frame does not hold the request in the negotiated version")
	v.Settle()
	v.Assert(len(p.TryRead()) == 0, "%[1]s: more than one frame is sent")
	p.Close()
	<-done
	v.Reach("end")
}
`, A, m.Key, m.Min, m.Max-m.Min+1, arraySites(by, m))
		p(`// %[1]s: the response in every version, whole and cut short
//
//vrt:all strfix=2
//vrt:quick shapes=1 arr=3 strs=6 time=100
//vrt:thorough shapes=1 arr=4 strs=20 pairs=1 time=900
//vrt:replay try
func H_C14_%[1]s() {
	ver := %[3]d + v.Choose("version", %[4]d)
	b, p, err := dialBroker(%[2]d, %[3]d, int16(ver))
	v.Assert(err == nil, "cannot connect")
	w := fill_%[1]sResponse(newShape(%[5]d))
	nullArrays = true
	body := ref_%[1]sResponse(nil, w, ver)
	cut := len(body)
	if v.Bool("cut") {
		cut -= 1 + v.Choose("by", 2)*(len(body)-1)
		v.Assume(cut >= 0)
	}
	var got message.%[1]sResponse
	done := make(chan bool, 1)
	go func() {
		got, err = b.%[1]s(message.%[1]sRequest{})
		done <- true
	}()
	_, _, cid, _ := frame(p)
	reply(p, cid, body[:cut])
	<-done
	if cut < len(body) {
		v.Assert(err != nil, "%[1]s: a response that cannot be decoded is returned without an error")
	} else {
		v.Assert(err == nil, "%[1]s: the call fails although the response is good")
		eq_%[1]sResponse(w, got, ver)
	}
	v.Reach("end")
}
`, A, m.Key, m.Min, m.Max-m.Min+1, arraySites(by, R))
	}
	return sb.String()
}
