package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
	"unicode"

	"rangedbverif/core"
)

func init() { checks["C21"] = c21 }

//go:embed genprobe/probe.go.txt
var probeSource string

func c21(t *core.T) {
	t.SetRule("random packages of event and command structs (names with keywords, letters outside ASCII and the names of generated variables and methods; all declaration forms and field types; any choice of marked text and number fields, subject ids and encryption targets) are given to the four generator programs; the result is compiled together with a probe that runs it: every value reports its id, type and name; a recording encryptor must be asked for exactly the marked fields with the right subject, encrypting must change just those and decrypting bring everything back, a deleted key at any call must blank them all, and any other failure must leave the event as it was; aggregates must pass every command and event (value or pointer) to its handler and return just the events it raised; binders must bind every event once; generating again must give the same code. Malformed input, and output that cannot be written, must be refused. Non-trivial: a package that compiles and runs; distinct by its sources")
	t.Assume("marks within anonymous nested structs, structs declared within functions and generic structs are outside the property", "text fields are strings and number fields are ints, the types the generator documents by its tests")
	t.SetHangLimit(5 * time.Minute)
	dir, err := os.MkdirTemp("", "gen")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	g := &genRun{t: t, dir: dir, bin: filepath.Join(dir, "bin")}
	g.module()
	if !g.build() {
		return
	}
	j := &jobs{t: t}
	for _, k := range []string{"events", "commands", "aggregate", "binder"} {
		kind := k
		j.add(t.N(120, 3000), "refused-"+kind, func(t *core.T, name string, r *rand.Rand) { g.refused(name, kind, r) })
	}
	j.run(8)
	total, batch := t.N(600, 12000), 150
	for at := 0; at < total && !t.Stopped(); at += batch {
		g.packages(at, batch)
	}
}

type genRun struct {
	t   *core.T
	dir string
	bin string
}

func (g *genRun) run(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err := c.Run()
	g.t.Tick()
	return out.String(), err
}

// module makes the scratch module in which the generators and their results are compiled.
func (g *genRun) module() {
	h := filepath.Join(g.t.Root, ".build")
	mod, err := os.ReadFile(filepath.Join(h, "h.mod"))
	if err != nil {
		panic(err)
	}
	sum, err := os.ReadFile(filepath.Join(h, "h.sum"))
	if err != nil {
		panic(err)
	}
	repoSum, _ := os.ReadFile("/repo/go.sum")
	g.write("go.mod", strings.Replace(string(mod), "module rangedbverif", "module scratch", 1))
	g.write("go.sum", string(sum)+string(repoSum))
	g.write("probe/probe.go", probeSource)
}

func (g *genRun) write(name, text string) {
	p := filepath.Join(g.dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

var generators = []string{"eventgenerator", "commandgenerator", "aggregategenerator", "eventbinder"}

func (g *genRun) build() bool {
	args := []string{"build", "-o", g.bin + "/"}
	for _, n := range generators {
		args = append(args, "github.com/inklabs/rangedb/gen/"+n)
	}
	if err := os.MkdirAll(g.bin, 0o755); err != nil {
		panic(err)
	}
	out, err := g.run(g.dir, nil, "go", args...)
	if err != nil {
		panic(fmt.Sprintf("cannot build the generators: %v\n%s", err, out))
	}
	return true
}

// A genField is one field of a struct.
type genField struct {
	name, typ, mark, target string
	embed                   bool
}

type genStruct struct {
	name    string
	fields  []genField
	subject string
}

type genFile struct {
	name    string // without .go
	id, typ string
	structs []genStruct
	source  string
}

type genPackage struct {
	name, label string
	agg         string // "" when there is none
	events      []genFile
	commands    *genFile
	aggEvents   bool
	files       map[string]string
}

var (
	genWords    = []string{"Thing", "User", "Room", "Was", "Done", "Sent", "Added", "Order", "Line", "X", "V2", "Étape", "名", "Ünit", "A", "HTTP", "ID"}
	genTypes    = []string{"Import", "Return", "Go", "Type", "Default", "Select", "Apply", "Raise", "Load", "Handle", "E", "C", "String", "Error", "ResetPendingEvents", "PendingEvents", "Range", "Event", "Command", "CommandTypes", "Next", "Log", "Fallthrough", "thingDone", "Nil", "Étage", "Ñandú"}
	genFields   = []string{"Name", "Email", "Type", "Func", "Range", "Err", "E", "Encryptor", "Crypto", "Strconv", "String", "Nil", "Étage", "StringAge", "DecryptedAge", "Age", "Map", "Interface", "Go", "Default", "Select", "X", "Y", "Z1", "Birth_Year", "BirthYear", "Année", "Üser", "HTTP", "Error", "Len", "Int", "Event", "RedactTo", "C", "Var", "Package", "True", "Atoi", "名前", "X名"}
	genPlain    = []string{"string", "int", "int64", "uint", "float64", "bool", "[]string", "[]int", "map[string]int", "*string", "*int", "time.Time", "struct{ A, B string }", "[2]string", "[]byte", "map[string][]string"}
	genReserved = map[string]bool{"apply": true, "raise": true, "resetPendingEvents": true, "pendingEvents": true}
)

func lowerFirst(s string) string {
	r := []rune(s)
	r[0] = unicode.ToLower(r[0])
	return string(r)
}

// handlerName is the method an aggregate needs for a struct.
func handlerName(s string) string {
	n := lowerFirst(s)
	if token.IsKeyword(n) || genReserved[n] {
		return n + "_"
	}
	return n
}

type genNames struct {
	r    *rand.Rand
	used map[string]bool
}

func (n *genNames) pick(special []string, odds int) string {
	for {
		var s string
		if n.r.Intn(odds) == 0 {
			s = special[n.r.Intn(len(special))]
		} else {
			for i := 1 + n.r.Intn(3); i > 0; i-- {
				s += genWords[n.r.Intn(len(genWords))]
			}
		}
		first := []rune(s)[0]
		if !unicode.IsUpper(first) && s != "thingDone" {
			continue
		}
		if k := lowerFirst(s); !n.used[k] {
			n.used[k] = true
			return s
		}
	}
}

// genID names of fields that can hold an aggregate id.
var genID = []string{"ID", "ThingID", "Key", "Étage", "Type", "UserID"}

func newGenStruct(r *rand.Rand, name, id string, event bool) genStruct {
	s := genStruct{name: name}
	names := &genNames{r: r, used: map[string]bool{lowerFirst(id): true}}
	for _, m := range []string{"aggregateID", "aggregateType", "eventType", "commandType", "encrypt", "decrypt", "ident", "meta"} {
		names.used[m] = true
	}
	idField := genField{name: id, typ: "string"}
	if id == "Key" && r.Intn(2) == 0 {
		idField = genField{name: "Ident", typ: "Ident", embed: true}
	}
	var rest []genField
	if event && r.Intn(3) > 0 {
		if idField.embed || r.Intn(3) == 0 {
			s.subject = names.pick(genFields, 2)
			rest = append(rest, genField{name: s.subject, typ: "string", mark: "subject-id"})
		} else {
			s.subject = id
			idField.mark = "subject-id"
		}
		for i := r.Intn(5); i > 0; i-- {
			rest = append(rest, genField{name: names.pick(genFields, 2), typ: "string", mark: "personal-data"})
		}
		for i := r.Intn(3) * r.Intn(2); i > 0; i-- {
			f := genField{name: names.pick(genFields, 2), typ: "int", mark: "personal-data"}
			f.target = f.name + "Encrypted"
			if r.Intn(3) == 0 || names.used[lowerFirst(f.target)] {
				f.target = names.pick(genFields, 2)
			}
			names.used[lowerFirst(f.target)] = true
			rest = append(rest, f, genField{name: f.target, typ: "string"})
		}
	}
	for i := r.Intn(5); i > 0; i-- {
		rest = append(rest, genField{name: names.pick(genFields, 3), typ: genPlain[r.Intn(len(genPlain))]})
	}
	if r.Intn(4) == 0 {
		rest = append(rest, genField{name: "Meta", typ: "Meta", embed: true})
	}
	rest = append(rest, idField)
	r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	s.fields = rest
	return s
}

func genTag(r *rand.Rand, f genField) string {
	if f.mark == "" && r.Intn(8) == 0 {
		// Tags of other conventions mean nothing to the generators.
		return []string{" `old note`", " ``", " `x`", ` "a\"b"`, " `json:`", " `encrypt`", " ` `"}[r.Intn(7)]
	}
	var parts []string
	if r.Intn(2) == 0 {
		parts = append(parts, fmt.Sprintf("json:%q", lowerFirst(f.name)+[]string{"", ",omitempty"}[r.Intn(2)]))
	}
	if f.mark != "" {
		parts = append(parts, fmt.Sprintf("encrypt:%q", f.mark))
	}
	if f.target != "" {
		parts = append(parts, fmt.Sprintf("serialized:%q", f.target))
	}
	if r.Intn(5) == 0 {
		parts = append(parts, `doc:"a b, c:d"`)
	}
	if len(parts) == 0 {
		return ""
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	tag := strings.Join(parts, " ")
	if r.Intn(4) == 0 {
		return fmt.Sprintf(" %q", tag)
	}
	return " `" + tag + "`"
}

func genStructSource(r *rand.Rand, s genStruct) string {
	var b strings.Builder
	b.WriteString("struct {\n")
	for i := 0; i < len(s.fields); i++ {
		f := s.fields[i]
		if r.Intn(5) == 0 {
			fmt.Fprintf(&b, "\t// %s holds `something` of \"type\" struct.\n", f.name)
		}
		if f.embed {
			fmt.Fprintf(&b, "\t%s\n", f.typ)
			continue
		}
		names := f.name
		// A declaration of several fields.
		for i+1 < len(s.fields) && f.target == "" && f.mark != "subject-id" && r.Intn(2) == 0 {
			n := s.fields[i+1]
			if n.embed || n.typ != f.typ || n.mark != f.mark || n.target != "" {
				break
			}
			names += ", " + n.name
			i++
		}
		fmt.Fprintf(&b, "\t%s %s%s", names, f.typ, genTag(r, f))
		if r.Intn(6) == 0 {
			b.WriteString(" // note")
		}
		b.WriteString("\n")
	}
	b.WriteString("}")
	return b.String()
}

func genFileSource(r *rand.Rand, pkg string, f *genFile) string {
	var b strings.Builder
	body := &strings.Builder{}
	for i, s := range f.structs {
		switch r.Intn(6) {
		case 0:
			fmt.Fprintf(body, "// %s is documented.\n// type Fake struct { ID string }\n", s.name)
		case 1:
			fmt.Fprintf(body, "type named%s%d %s\n", f.name, i, []string{"int", "[]string", "map[string]string", "interface{ F() }", "func(int) string", "string"}[r.Intn(6)])
		case 2:
			fmt.Fprintf(body, "const const%s%d = `type Fake2 struct {}`\n\nvar var%s%d = struct{ A string }{}\n\n", f.name, i, f.name, i)
		case 3:
			fmt.Fprintf(body, "func func%s%d() string { return \"type Fake3 struct {}\" }\n\n", f.name, i)
		}
		src := genStructSource(r, s)
		if r.Intn(4) == 0 {
			fmt.Fprintf(body, "type (\n%s %s\n)\n\n", s.name, src)
		} else {
			fmt.Fprintf(body, "type %s %s\n\n", s.name, src)
		}
	}
	fmt.Fprintf(&b, "%spackage %s\n\n", []string{"", "// Package comment.\n", "/* block */ "}[r.Intn(3)], pkg)
	if strings.Contains(body.String(), "time.Time") {
		b.WriteString("import \"time\"\n\n")
	}
	return b.String() + body.String()
}

func newGenPackage(r *rand.Rand, label, name string) *genPackage {
	p := &genPackage{name: name, label: label, files: map[string]string{}}
	types := &genNames{r: r, used: map[string]bool{"ident": true, "meta": true, "verifProbe": true, "bindEvents": true, "fake": true, "fake2": true, "fake3": true}}
	if r.Intn(4) > 0 {
		p.agg = []string{"thing", "room", "Account", "order2", "größe"}[r.Intn(5)]
		types.used[lowerFirst(p.agg)] = true
	}
	base := p.agg
	if base == "" {
		base = "my"
	}
	typeNames := []string{"thing", "my type", `quoted"type`, `back\slash`, "a`b", "日本", "%s", "{{.}}", "t!x", ""}
	file := func(suffix string, n int, event bool) genFile {
		f := genFile{name: base + suffix, id: genID[r.Intn(len(genID))], typ: typeNames[r.Intn(len(typeNames))]}
		for ; n > 0; n-- {
			f.structs = append(f.structs, newGenStruct(r, types.pick(genTypes, 3), f.id, event))
		}
		f.source = genFileSource(r, name, &f)
		return f
	}
	size := func() int {
		if r.Intn(10) == 0 {
			return 1 + r.Intn(20)
		}
		return 1 + r.Intn(4)
	}
	hasEvents, hasCommands := r.Intn(6) > 0, r.Intn(3) > 0
	if !hasEvents && !hasCommands {
		hasEvents = true
	}
	if hasEvents {
		p.events = append(p.events, file("_events", size(), true))
		p.aggEvents = true
	}
	if hasEvents && r.Intn(4) == 0 {
		p.events = append(p.events, file("_more", size(), true))
	}
	if hasCommands {
		f := file("_commands", size(), false)
		p.commands = &f
	}
	return p
}

var stampLine = regexp.MustCompile(`(?m)^// \d{4}-.*$`)

// generate runs the generators for a package and returns what went wrong.
func (g *genRun) generate(p *genPackage, r *rand.Rand) string {
	dir := filepath.Join(g.dir, p.name)
	put := func(name, text string) {
		p.files[name] = text
		g.write(p.name+"/"+name, text)
	}
	put("base.go", fmt.Sprintf("package %s\n\ntype Ident struct{ Key string }\n\ntype Meta struct{ Note string }\n", p.name))
	twice := func(out string, env []string, tool string, args []string, outFlag string, byDefault bool) string {
		var texts [2]string
		for i := range texts {
			a := args
			if i == 1 || !byDefault {
				a = append(append([]string{}, args...), outFlag, out)
			}
			msg, err := g.run(dir, env, filepath.Join(g.bin, tool), a...)
			if err != nil {
				return fmt.Sprintf("%s %q failed: %v %s", tool, a, err, msg)
			}
			b, err := os.ReadFile(filepath.Join(dir, out))
			if err != nil {
				return fmt.Sprintf("%s %q did not write %s", tool, a, out)
			}
			texts[i] = string(b)
		}
		p.files[out] = texts[1]
		if a, b := stampLine.ReplaceAllString(texts[0], ""), stampLine.ReplaceAllString(texts[1], ""); a != b {
			return fmt.Sprintf("%s %q wrote two different results for the same file:\n%s\n--- and\n%s", tool, args, a, b)
		}
		g.t.Count("generator runs", 2)
		return ""
	}
	flags := func(f genFile) ([]string, []string) {
		args := []string{"-id", f.id, "-aggregateType", f.typ}
		if r.Intn(2) == 0 {
			return args, []string{"GOPACKAGE=" + p.name, "GOFILE=" + f.name + ".go"}
		}
		return append(args, "-package", p.name, "-inFile", f.name+".go"), []string{"GOPACKAGE=wrong", "GOFILE=wrong.go"}
	}
	for _, f := range p.events {
		put(f.name+".go", f.source)
		args, env := flags(f)
		if m := twice(f.name+"_gen.go", env, "eventgenerator", args, "-outFile", r.Intn(2) == 0); m != "" {
			return m
		}
	}
	if f := p.commands; f != nil {
		put(f.name+".go", f.source)
		args, env := flags(*f)
		if m := twice(f.name+"_gen.go", env, "commandgenerator", args, "-outFile", r.Intn(2) == 0); m != "" {
			return m
		}
	}
	if p.agg != "" {
		args := []string{"-name", p.agg}
		if p.commands == nil || !p.aggEvents || r.Intn(2) == 0 {
			if p.commands != nil {
				args = append(args, "-commands", p.commands.name+".go")
			}
			if p.aggEvents {
				args = append(args, "-events", p.events[0].name+".go")
			}
		}
		if m := twice(p.agg+"_aggregate_gen.go", []string{"GOPACKAGE=" + p.name}, "aggregategenerator", args, "-out", r.Intn(2) == 0); m != "" {
			return m
		}
	}
	if len(p.events) > 0 {
		var names []string
		for _, f := range p.events {
			names = append(names, f.name+".go")
		}
		if m := twice("bind_events_gen.go", []string{"GOPACKAGE=" + p.name}, "eventbinder", []string{"-files", strings.Join(names, ",")}, "-out", r.Intn(2) == 0); m != "" {
			return m
		}
	}
	put("verif_probe.go", p.probe())
	return ""
}

// probe is the hand-written part: the aggregate's handlers, and a description for the monitor.
func (p *genPackage) probe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"github.com/inklabs/rangedb\"\n\n\t\"scratch/probe\"\n)\n\nvar _ rangedb.Event\n\n", p.name)
	fmt.Fprintf(&b, "func VerifProbe() probe.Package {\n\treturn probe.Package{\n\t\tName: %q,\n", p.label)
	list := func(field string, files []genFile) {
		fmt.Fprintf(&b, "\t\t%s: []probe.Message{\n", field)
		for _, f := range files {
			for _, s := range f.structs {
				fmt.Fprintf(&b, "\t\t\t{Name: %q, Type: %q, ID: %q, Zero: %s{}, Subject: %q, Protected: []probe.Field{", s.name, f.typ, f.id, s.name, s.subject)
				for _, x := range s.fields {
					if x.mark == "personal-data" {
						fmt.Fprintf(&b, "{Name: %q, Target: %q}, ", x.name, x.target)
					}
				}
				b.WriteString("}},\n")
			}
		}
		b.WriteString("\t\t},\n")
	}
	names := func(f *genFile) []string {
		out := []string{}
		if f != nil {
			for _, s := range f.structs {
				out = append(out, s.name)
			}
		}
		return out
	}
	list("Events", p.events)
	var bound []string
	for i := range p.events {
		bound = append(bound, names(&p.events[i])...)
	}
	if len(p.events) > 0 {
		fmt.Fprintf(&b, "\t\tBind: BindEvents,\n\t\tBound: %#v,\n", bound)
	}
	var applied []string
	if p.aggEvents {
		applied = names(&p.events[0])
	}
	if p.commands != nil {
		list("Commands", []genFile{*p.commands})
	}
	if p.agg != "" {
		fmt.Fprintf(&b, "\t\tNew: func() probe.Aggregate { return &%s{} },\n\t\tHandled: %#v,\n\t\tApplied: %#v,\n", p.agg, names(p.commands), applied)
	}
	b.WriteString("\t}\n}\n")
	if p.agg != "" {
		fmt.Fprintf(&b, "\ntype %s struct {\n\tpendingEvents []rangedb.Event\n\tverifLog []string\n\tverifNext []rangedb.Event\n}\n\nfunc (a *%s) Log() []string { return a.verifLog }\nfunc (a *%s) SetNext(events []rangedb.Event) { a.verifNext = events }\n", p.agg, p.agg, p.agg)
		for _, n := range names(p.commands) {
			fmt.Fprintf(&b, "func (a *%s) %s(m %s) {\n\ta.verifLog = append(a.verifLog, probe.Entry(\"handle\", m))\n\thalf := len(a.verifNext) / 2\n\ta.raise(a.verifNext[:half]...)\n\ta.raise(a.verifNext[half:]...)\n}\n", p.agg, handlerName(n), n)
		}
		for _, n := range applied {
			fmt.Fprintf(&b, "func (a *%s) %s(m %s) { a.verifLog = append(a.verifLog, probe.Entry(\"apply\", m)) }\n", p.agg, handlerName(n), n)
		}
	}
	return b.String()
}

func (p *genPackage) show() string {
	var names []string
	for n := range p.files {
		if n != "base.go" {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		fmt.Fprintf(&b, "\n----- %s\n%s", n, p.files[n])
	}
	return b.String()
}

var buildHeader = regexp.MustCompile(`(?m)^# scratch/(p\d+)$`)

// packages generates, compiles and runs one batch.
func (g *genRun) packages(first, n int) {
	t := g.t
	list := make([]*genPackage, n)
	t.Parallel(n, 8, func(i int) {
		label := fmt.Sprintf("package-%d", first+i)
		if t.Skip(label) {
			return
		}
		r := t.Rand(label)
		p := newGenPackage(r, label, fmt.Sprintf("p%d", first+i))
		if m := g.generate(p, r); m != "" {
			t.Fail(label, "generate", "%s\n%s", m, p.show())
			return
		}
		list[i] = p
		t.Eval()
	})
	byName := map[string]*genPackage{}
	for _, p := range list {
		if p != nil {
			byName[p.name] = p
		}
	}
	defer func() {
		for _, p := range list {
			if p != nil {
				os.RemoveAll(filepath.Join(g.dir, p.name))
			}
		}
	}()
	for try := 0; len(byName) > 0; try++ {
		var names []string
		for n := range byName {
			names = append(names, n)
		}
		sort.Strings(names)
		var b strings.Builder
		b.WriteString("package main\n\nimport (\n\t\"scratch/probe\"\n")
		for _, n := range names {
			fmt.Fprintf(&b, "\t%s \"scratch/%s\"\n", n, n)
		}
		b.WriteString(")\n\nfunc main() {\n\tprobe.Run(\n")
		for _, n := range names {
			fmt.Fprintf(&b, "\t\t%s.VerifProbe(),\n", n)
		}
		b.WriteString("\t)\n}\n")
		g.write("main.go", b.String())
		out, err := g.run(g.dir, nil, "go", "build", "-o", "probe.bin", ".")
		if err != nil {
			bad := buildHeader.FindAllStringSubmatch(out, -1)
			if len(bad) == 0 || try > 3 {
				panic(fmt.Sprintf("cannot build the generated packages: %v\n%s", err, out))
			}
			for _, m := range bad {
				p := byName[m[1]]
				if p == nil {
					continue
				}
				text := out[strings.Index(out, m[0]):]
				if i := strings.Index(text[1:], "\n# "); i > 0 {
					text = text[:i+1]
				}
				t.Fail(p.label, "does-not-compile", "the generated code does not compile:\n%s\n%s", text, p.show())
				delete(byName, m[1])
			}
			continue
		}
		break
	}
	if len(byName) == 0 {
		return
	}
	cmd := exec.Command(filepath.Join(g.dir, "probe.bin"), fmt.Sprint(t.Seed*1000+int64(first)), fmt.Sprint(t.N(40, 400)))
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	t.Tick()
	var res struct {
		Failures []struct{ Package, Key, Text string }
		Counts   map[string]int
	}
	if err == nil {
		err = json.Unmarshal(out, &res)
	}
	if err != nil {
		t.Fail("probe", "probe", "the program of generated packages ended with %v: %s", err, stderr.String())
		return
	}
	byLabel := map[string]*genPackage{}
	for _, p := range byName {
		byLabel[p.label] = p
		t.Distinct(p.show())
		t.Count("packages compiled and run", 1)
	}
	for k, v := range res.Counts {
		t.Count(k, v)
	}
	for _, f := range res.Failures {
		t.Fail(f.Package, f.Key, "%s\n%s", f.Text, byLabel[f.Package].show())
	}
	for _, p := range byLabel {
		t.Sample(map[string]interface{}{"package": p.label, "files": len(p.files), "text": p.show()[:min(1500, len(p.show()))]})
		break
	}
}

// refused gives a generator something it must not accept.
func (g *genRun) refused(name, kind string, r *rand.Rand) {
	t := g.t
	dir, err := os.MkdirTemp(g.dir, "bad")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	p := newGenPackage(r, name, "bad")
	f := genFile{name: "thing", id: "ID", typ: "thing"}
	if kind == "events" {
		for len(p.events) == 0 {
			p = newGenPackage(r, name, "bad")
		}
		f = p.events[0]
	} else {
		f.structs = []genStruct{newGenStruct(r, "One", "ID", false), newGenStruct(r, "Two", "ID", false)}
		f.source = genFileSource(r, "bad", &f)
	}
	src := f.source
	what, in, out := "", "in.go", "out.go"
	breaks := []string{"cut", "no package", "no structs", "empty", "missing", "stray", "unwritable", "full"}
	if kind == "events" {
		breaks = append(breaks, "number target", "no target", "shared target", "no subject", "number target", "no target", "no subject")
	}
	switch what = breaks[r.Intn(len(breaks))]; what {
	case "cut":
		for try := 0; ; try++ {
			src = f.source[:r.Intn(len(f.source))]
			if _, err := parser.ParseFile(token.NewFileSet(), "", src, 0); err != nil {
				break
			}
			if try > 50 {
				return
			}
		}
	case "no package":
		src = strings.Replace(src, "package ", "", 1)
		if _, err := parser.ParseFile(token.NewFileSet(), "", src, 0); err == nil {
			return
		}
	case "no structs":
		if kind == "binder" {
			return
		}
		src = "package bad\n\ntype A int\n\n// type B struct{}\ntype C interface{ F() }\n"
	case "empty":
		src = ""
	case "missing":
		in = "absent.go"
	case "stray":
		at := strings.LastIndex(src, "}\n")
		src = src[:at] + "}}\n" + src[at+2:]
	case "unwritable":
		out = "no/such/dir/out.go"
	case "full":
		if _, err := os.Stat("/dev/full"); err != nil {
			return
		}
		out = "/dev/full"
	default:
		odd := ""
		switch what {
		case "number target":
			odd = "type Odd struct {\n\tID string `encrypt:\"subject-id\"`\n\tAge int `encrypt:\"personal-data\" serialized:\"AgeEnc\"`\n\tAgeEnc " + []string{"int", "[]byte", "*string", "[]string", "interface{}", "int64", "struct{ S string }"}[r.Intn(7)] + "\n}\n"
		case "no target":
			odd = "type Odd struct {\n\tID, Other string\n\tSubj string `encrypt:\"subject-id\"`\n\tAge int `encrypt:\"personal-data\" serialized:\"AgeEnc\"`\n}\n"
		case "shared target":
			odd = "type Odd struct {\n\tID string `encrypt:\"subject-id\"`\n\tAge int `encrypt:\"personal-data\" serialized:\"Enc\"`\n\tYear int `encrypt:\"personal-data\" serialized:\"Enc\"`\n\tEnc string\n}\n"
		case "no subject":
			odd = "type Odd struct {\n\tID string\n\tName string `encrypt:\"personal-data\"`\n}\n"
			if r.Intn(2) == 0 {
				odd = "type Odd struct {\n\tID string\n\tAge int `encrypt:\"personal-data\" serialized:\"Enc\"`\n\tEnc string\n}\n"
			}
		}
		if r.Intn(2) == 0 {
			src += "\n" + odd
		} else {
			at := strings.Index(src, "\ntype ")
			if i := strings.Index(src, "\n//"); i >= 0 && i < at {
				at = i
			}
			if i := strings.Index(src, "\nconst "); i >= 0 && i < at {
				at = i
			}
			if at > 0 && strings.Index(src, "import") < at {
				src = src[:at] + "\n" + odd + src[at:]
			} else {
				src += "\n" + odd
			}
		}
		if _, err := parser.ParseFile(token.NewFileSet(), "", src, 0); err != nil {
			panic(fmt.Sprintf("%v\n%s", err, src))
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "in.go"), []byte(src), 0o644); err != nil {
		panic(err)
	}
	good := "package bad\n\ntype Fine struct{ ID string }\n"
	if err := os.WriteFile(filepath.Join(dir, "good.go"), []byte(good), 0o644); err != nil {
		panic(err)
	}
	var tool string
	var args []string
	switch kind {
	case "events":
		tool, args = "eventgenerator", []string{"-package", "bad", "-id", "ID", "-aggregateType", "t", "-inFile", in, "-outFile", out}
	case "commands":
		tool, args = "commandgenerator", []string{"-package", "bad", "-id", "ID", "-aggregateType", "t", "-inFile", in, "-outFile", out}
	case "aggregate":
		tool, args = "aggregategenerator", []string{"-package", "bad", "-name", "thing", "-out", out}
		if what == "no structs" {
			args = append(args, "-events", in, "-commands", in)
		} else {
			switch r.Intn(4) {
			case 0:
				args = append(args, "-events", in)
			case 1:
				args = append(args, "-commands", in)
			case 2:
				args = append(args, "-commands", in, "-events", "good.go")
			case 3:
				args = append(args, "-commands", "good.go", "-events", in)
			}
		}
	case "binder":
		files := []string{"good.go", in}
		r.Shuffle(2, func(i, j int) { files[i], files[j] = files[j], files[i] })
		tool, args = "eventbinder", []string{"-package", "bad", "-files", strings.Join(files, ","), "-out", out}
	}
	msg, err := g.run(dir, nil, filepath.Join(g.bin, tool), args...)
	if err == nil {
		got, _ := os.ReadFile(filepath.Join(dir, "out.go"))
		t.Fail(name, "accepted", "%s %q accepts input that is malformed (%s):\n%s\nand writes\n%s", tool, args, what, src, got)
		return
	}
	if strings.Contains(msg, "goroutine ") {
		t.Fail(name, "panic", "%s %q for malformed input (%s):\n%s\n%s", tool, args, what, src, msg)
		return
	}
	if strings.TrimSpace(msg) == "" {
		t.Fail(name, "silent", "%s %q fails without a message (%s)", tool, args, what)
	}
	t.Count("refused inputs", 1)
	t.Distinct(kind + what + src)
}
