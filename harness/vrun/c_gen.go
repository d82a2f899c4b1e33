package main

// C19: the generator. Random trees of interfaces are given to it, what it makes
// is compiled and driven.

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

//go:embed ref.go
var srcRef string

//go:embed gen.go
var srcGen string

//go:embed driver.txt
var srcDriver string

type gField struct{ typ string }

type gMethod struct {
	name        string
	in, out     []string
	decl        string
	compileOnly bool
}

type gIface struct {
	name    string
	pkg     string // "" for the top
	methods []gMethod
	missing string
	local   bool // declared in a function, can't be named
}

type gTree struct {
	r      *rand.Rand
	n      int
	apart  bool // the file is not built
	ifaces []gIface
	files  map[string]string
	taken  map[string]bool
}

var gScalars = []string{"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string", "byte", "rune", "int", "string", "float64"}

func (t *gTree) typ(depth int) string {
	switch t.r.Intn(9) {
	case 0, 1:
		if depth > 0 {
			return "[]" + t.typ(depth-1)
		}
	case 2:
		if depth > 0 {
			return "map[" + gScalars[t.r.Intn(len(gScalars))] + "]" + t.typ(depth-1)
		}
	case 3:
		return []string{"interface{}", "any", "interface {}", "interface{\n}"}[t.r.Intn(4)]
	}
	return gScalars[t.r.Intn(len(gScalars))]
}

var gClash = []string{"p", "slot", "results", "err", "ferry", "arg0", "arg1", "ret0", "ret1", "nil", "true", "string", "int", "len", "append", "main", "args", "method", "name", "any", "error", "i", "proxy", "s", "init"}

// list writes a parameter list (or results) in one of the forms Go allows.
func (t *gTree) list(types []string, used map[string]bool, form int) string {
	if len(types) == 0 {
		return ""
	}
	nl := func() string { return []string{"", "", "", "\n\t\t", " /* c */ "}[t.r.Intn(5)] }
	var out []string
	name := func() string {
		for {
			var s string
			switch form {
			case 1:
				s = string(rune('a' + t.r.Intn(26)))
				if used[s] {
					s = fmt.Sprint("v", t.r.Intn(1000))
				}
			default:
				if t.r.Intn(4) == 0 {
					return "_"
				}
				s = gClash[t.r.Intn(len(gClash))]
			}
			if !used[s] {
				used[s] = true
				return s
			}
		}
	}
	if form == 0 {
		for _, x := range types {
			out = append(out, nl()+x)
		}
	} else {
		for i := 0; i < len(types); {
			j := i
			var names []string
			for j < len(types) && types[j] == types[i] && (j == i || t.r.Intn(3) > 0) {
				names = append(names, name())
				j++
			}
			out = append(out, nl()+strings.Join(names, ", ")+" "+types[i])
			i = j
		}
	}
	s := strings.Join(out, ", ")
	if t.r.Intn(6) == 0 {
		s += ",\n\t"
	}
	return s
}

func (t *gTree) types(max int) []string {
	n := t.r.Intn(max + 1)
	var out []string
	for i := 0; i < n; i++ {
		if i > 0 && t.r.Intn(2) == 0 {
			out = append(out, out[i-1])
		} else {
			out = append(out, t.typ(t.r.Intn(4)))
		}
	}
	return out
}

var gNames = []string{"Add", "Get", "Call", "CallWithResult", "Visit", "String", "Error", "Len", "Slot", "Register", "SetTimeout", "Init", "Main", "Ünicode", "Do_It", "Type", "Func", "X", "OnTick", "Assign", "Set", "Put", "Query", "A", "B1", "GET", "ADD", "ÜNICODE", "TYPE", "DO_IT", "PutX", "PutXY"}

func (t *gTree) method(name string) gMethod {
	m := gMethod{name: name, in: t.types([]int{6, 6, 6, 6, 6, 24}[t.r.Intn(6)]), out: t.types([]int{4, 4, 4, 4, 4, 24}[t.r.Intn(6)])}
	if t.r.Intn(12) == 0 {
		m.compileOnly = true
		x := []string{"error", "complex128", "uintptr", "[]error"}[t.r.Intn(4)]
		if t.r.Intn(2) == 0 {
			m.in = append(m.in, x)
		} else {
			m.out = append(m.out, x)
		}
	}
	used := map[string]bool{}
	m.decl = name + "(" + t.list(m.in, used, t.r.Intn(3)) + ")"
	switch {
	case len(m.out) == 0:
		if t.r.Intn(4) == 0 {
			m.decl += " ()"
		}
	case len(m.out) == 1 && t.r.Intn(2) == 0:
		m.decl += " " + m.out[0]
	default:
		m.decl += " (" + t.list(m.out, used, t.r.Intn(3)) + ")"
	}
	if t.r.Intn(5) == 0 {
		m.decl = "// " + name + " does something.\n\t" + m.decl
	}
	if t.r.Intn(8) == 0 {
		m.decl += " // interface { "
	}
	return m
}

// iface makes an interface and returns the text after "type".
func (t *gTree) iface(pkg string, local bool) string {
	t.n++
	f := gIface{pkg: pkg, local: local || t.apart}
	f.name = fmt.Sprintf([]string{"IThing%d", "Proxy%d", "HTTP%dServer", "X%d", "I_%d", "FerryProxy%d", "Ünder%d"}[t.r.Intn(7)], t.n)
	if pkg == "" && t.r.Intn(5) == 0 {
		f.name = fmt.Sprintf("thing%d", t.n)
	}
	// Interfaces whose names differ in case only, or not at all.
	if k := len(t.ifaces); k > 0 && t.r.Intn(8) == 0 {
		if n := t.ifaces[t.r.Intn(k)].name; !t.taken[strings.ToUpper(n)] && n != strings.ToUpper(n) {
			f.name = strings.ToUpper(n)
		}
	} else if k > 0 && t.r.Intn(16) == 0 {
		if o := &t.ifaces[t.r.Intn(k)]; o.pkg != pkg && !t.taken[pkg+"/"+o.name] && strings.ToUpper(o.name[:1]) == o.name[:1] {
			// Which of them is registered is not said.
			f.name, f.local, o.local = o.name, true, true
		}
	}
	t.taken[f.name], t.taken[pkg+"/"+f.name] = true, true
	names := t.r.Perm(len(gNames))[:t.r.Intn([]int{7, 7, 7, 7, len(gNames) + 1}[t.r.Intn(5)])]
	if t.r.Intn(4) == 0 {
		// Names that differ in case only.
		names = t.r.Perm(len(gNames))
		k := names[t.r.Intn(len(names))]
		var twins []int
		for _, n := range names {
			if strings.EqualFold(gNames[n], gNames[k]) || len(twins) < 4 && t.r.Intn(9) == 0 {
				twins = append(twins, n)
			}
		}
		names = twins
	}
	var lines []string
	for _, k := range names {
		m := t.method(gNames[k])
		f.methods = append(f.methods, m)
		lines = append(lines, "\t"+m.decl)
	}
	if len(f.methods) > 1 && t.r.Intn(4) == 0 {
		if m := f.methods[t.r.Intn(len(f.methods))]; !m.compileOnly {
			f.missing = m.name
		}
	}
	t.ifaces = append(t.ifaces, f)
	eq := ""
	if t.r.Intn(10) == 0 {
		eq = "= "
	}
	if len(lines) == 0 && t.r.Intn(2) == 0 {
		return f.name + " " + eq + "interface{}"
	}
	return f.name + " " + eq + "interface {\n" + strings.Join(lines, "\n") + "\n}"
}

func (t *gTree) file(path, pkg string) {
	t.apart = apart(path)
	var sb strings.Builder
	if t.r.Intn(3) == 0 {
		sb.WriteString("// type ICommented interface { M() }\n\n/* type INot interface { } */\n\n")
	}
	name := pkg
	if pkg == "" {
		name = "main"
	}
	fmt.Fprintf(&sb, "package %s\n\n", name[strings.LastIndex(name, "/")+1:])
	for k := 1 + t.r.Intn(3); k > 0; k-- {
		t.n++
		switch t.r.Intn(9) {
		case 0:
			fmt.Fprintf(&sb, "type Struct%d struct {\n\tA int\n\tB interface{ Inner() }\n}\n\n", t.n)
		case 1:
			fmt.Fprintf(&sb, "const Text%d = `type IText interface { M() }`\n\n", t.n)
		case 2:
			fmt.Fprintf(&sb, "func Fn%d(v interface{ Inner() }) interface{} { return v }\n\n", t.n)
		case 3:
			n := t.n
			fmt.Fprintf(&sb, "func Fl%d() {\n\ttype %s\n}\n\n", n, t.iface(pkg, true))
		}
		if t.r.Intn(3) > 0 {
			fmt.Fprintf(&sb, "type %s\n\n", t.iface(pkg, false))
			continue
		}
		sb.WriteString("type (\n")
		for j := t.r.Intn([]int{4, 4, 4, 14}[t.r.Intn(4)]); j >= 0; j-- {
			t.n++
			switch t.r.Intn(4) {
			case 0:
				fmt.Fprintf(&sb, "\tGroup%d []string\n\n", t.n)
			default:
				fmt.Fprintf(&sb, "\t%s\n\n", t.iface(pkg, false))
			}
		}
		sb.WriteString(")\n\n")
	}
	t.files[path] = sb.String()
}

// fileNames are what files of a tree may be called; of the last ones go makes no
// part of a package, or not on this system.
var fileNames = []string{"f%d.go", "agenda%d.go", "gen%d.go", "x%d.gen.go", "proxy%d.go", "api_gen%d.go", "my-file%d.go", "a.b%d.go", "ün%d.go", "my%dproxy.gen.go",
	"thing%d_test.go", "thing%d_windows.go", "_draft%d.go", ".hidden%d.go"}
var dirNames = []string{"sub%d", "gen%d", "agenda%d", "proxy%d", "test%d", "internal/p%d", "testdata/t%d", "v%d"}

func (t *gTree) fileName(k int) string {
	if t.r.Intn(2) == 0 {
		return fmt.Sprintf("f%d.go", k)
	}
	return fmt.Sprintf(fileNames[t.r.Intn(len(fileNames))], k)
}

// apart tells whether a file is not built.
func apart(path string) bool {
	name := path[strings.LastIndex(path, "/")+1:]
	return strings.HasSuffix(name, "_test.go") || strings.HasSuffix(name, "_windows.go") || name[0] == '_' || name[0] == '.'
}

func makeTree(r *rand.Rand) *gTree {
	t := &gTree{r: r, files: map[string]string{}, taken: map[string]bool{}}
	for k := t.r.Intn(3); k >= 0; k-- {
		t.file(t.fileName(k), "")
	}
	for k := t.r.Intn(3); k > 0; k-- {
		sub := fmt.Sprintf("sub%d", k)
		if t.r.Intn(2) == 0 {
			sub = fmt.Sprintf(dirNames[t.r.Intn(len(dirNames))], k)
		}
		t.file(sub+"/a.go", sub)
		if t.r.Intn(2) == 0 {
			t.file(sub+"/"+t.fileName(9), sub)
		}
		if t.r.Intn(2) == 0 {
			t.file(sub+"/deep/more/x.go", sub+"/deep/more")
		}
	}
	if t.r.Intn(2) == 0 {
		t.files["main.go"] = "package main\n\nfunc main() { driverMain() }\n"
	}
	if t.r.Intn(3) == 0 {
		t.files["notes.txt"] = "type INotes interface {"
		t.files["x.go.bak"] = "type INotes interface {"
	}
	if t.r.Intn(3) == 0 {
		t.files["proxy.gen.go"] = "package main\n\n" + strings.Repeat("// stale }}\n", 20000)
	}
	return t
}

// feats writes the features and the table of interfaces.
func (t *gTree) feats() string {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"reflect\"\n\n\t\"github.com/muguangyi/ferry\"\n")
	pkgs := map[string]string{}
	for _, f := range t.ifaces {
		if f.pkg != "" && !f.local && pkgs[f.pkg] == "" {
			pkgs[f.pkg] = fmt.Sprint("zzp", len(pkgs))
			fmt.Fprintf(&sb, "\t%s \"tree/%s\"\n", pkgs[f.pkg], f.pkg)
		}
	}
	sb.WriteString(")\n\nvar _ = reflect.TypeOf\nvar _ ferry.IFeature\n\n")
	var table strings.Builder
	for i, f := range t.ifaces {
		if f.local {
			continue
		}
		fmt.Fprintf(&sb, "type zzFeat%d struct{ r *zzRec }\n\nfunc (f *zzFeat%d) OnStart(s ferry.ISlot) {}\nfunc (f *zzFeat%d) OnDestroy(s ferry.ISlot) {}\n", i, i, i)
		var quiet []string
		for _, m := range f.methods {
			if m.compileOnly {
				quiet = append(quiet, fmt.Sprintf("%q: true", m.name))
			}
			if m.name == f.missing {
				continue
			}
			var in, args, out, rets []string
			for k, x := range m.in {
				in = append(in, fmt.Sprintf("a%d %s", k, x))
				args = append(args, fmt.Sprintf(", a%d", k))
			}
			for k, x := range m.out {
				out = append(out, x)
				rets = append(rets, fmt.Sprintf("zzAs[%s](rs, %d)", strings.ReplaceAll(x, "\n", " "), k))
			}
			fmt.Fprintf(&sb, "func (f *zzFeat%d) %s(%s) (%s) {\n\trs := f.r.call(%q%s)\n\t_ = rs\n\treturn %s\n}\n", i, m.name, strings.Join(in, ", "), strings.Join(out, ", "), m.name, strings.Join(args, ""), strings.Join(rets, ", "))
		}
		q := f.name
		if f.pkg != "" {
			q = pkgs[f.pkg] + "." + f.name
		}
		fmt.Fprintf(&table, "\t{%q, func(r *zzRec) ferry.IFeature { return &zzFeat%d{r} }, func(p interface{}) bool { _, ok := p.(%s); return ok }, reflect.TypeOf((*%s)(nil)).Elem(), %q, map[string]bool{%s}},\n",
			f.name, i, q, q, f.missing, strings.Join(quiet, ", "))
	}
	fmt.Fprintf(&sb, "\nvar zzIfaces = []zzIface{\n%s}\n", table.String())
	return sb.String()
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOFLAGS=") && !strings.HasPrefix(e, "VW_") {
			env = append(env, e)
		}
	}
	return append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

// command runs a program and returns its output, and whether it succeeded.
func command(dir string, limit time.Duration, name string, args ...string) (stdout, all string, err error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	var so, both bytes.Buffer
	cmd.Stdout = &so
	cmd.Stderr = &both
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err = cmd.Start(); err != nil {
		return
	}
	t := time.AfterFunc(limit, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err = cmd.Wait()
	t.Stop()
	return so.String(), both.String(), err
}

// genDate is the comment that tells when the code was generated.
var genDate = regexp.MustCompile(`(?m)^// *\d{4}-\d\d-\d\d.*$`)

func init() {
	scenario("c19", func(w *W) {
		repo := os.Getenv("VERIF_REPO")
		gen := filepath.Join(w.tmp, "gen")
		if _, all, err := command(repo, 5*time.Minute, "go", "build", "-o", gen, "./tool"); err != nil {
			fail("the generator does not build: %v\n%s", err, all)
		}
		for i := 0; i < w.N && !w.Bad(); i++ {
			w.genRound(gen, repo, i, w.R(i))
		}
	})
	checks["C19"] = func(c *C) {
		c.Rule("a case is a call of a proxy method that the generator made for a random tree of interfaces; distinct are place (local, remote), signature and way to succeed or fail; arguments and results are random values of the declared types, compared with what the feature has seen and returned")
		c.Assume("which of several interfaces of the same name is registered is not judged; methods are exported; the top directory is package main")
		c.Run(8, Times(c.Pick(8, 16), Job{Scenario: "c19", N: c.Pick(5, 60), P: map[string]int64{"calls": 8}, Timeout: 900})...)
	}
}

func (w *W) genRound(gen, repo string, i int, r *rand.Rand) {
	t := makeTree(r)
	for len(t.ifaces) == 0 {
		t = makeTree(r)
	}
	dir := filepath.Join(w.tmp, fmt.Sprint("tree", i))
	defer os.RemoveAll(dir)
	put := func(name, text string) {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := ioutil.WriteFile(p, []byte(text), 0644); err != nil {
			fail("%v", err)
		}
	}
	for name, text := range t.files {
		put(name, text)
	}
	src := func() string {
		s := ""
		for name, text := range t.files {
			if strings.HasSuffix(name, ".go") && name != "proxy.gen.go" {
				s += "\n=== " + name + "\n" + text
			}
		}
		return s
	}
	run := func() string {
		_, all, err := command(dir, time.Minute, gen)
		if err != nil {
			w.Viol("generator", "the generator fails: %v\n%s\n%s", err, all, src())
			return ""
		}
		b, err := ioutil.ReadFile(filepath.Join(dir, "proxy.gen.go"))
		if err != nil {
			w.Viol("generator", "no proxy.gen.go is written: %v\n%s", err, src())
		}
		return string(b)
	}
	one := run()
	if w.Bad() {
		return
	}
	two := run()
	if w.Bad() {
		return
	}
	if genDate.ReplaceAllString(one, "") != genDate.ReplaceAllString(two, "") {
		w.Viol("generator", "running the generator again gives something else\n%s\n%s", two, src())
		return
	}
	// The driver is not there when the generator runs.
	put("zz_ref.go", srcRef)
	put("zz_gen.go", srcGen)
	put("zz_driver.go", srcDriver)
	put("zz_feats.go", t.feats())
	if t.files["main.go"] == "" {
		put("main.go", "package main\n\nfunc main() { driverMain() }\n")
	}
	put("go.mod", "module tree\n\ngo 1.21\n\nrequire github.com/muguangyi/ferry v0.0.0\n\nreplace github.com/muguangyi/ferry => "+repo+"\n")
	if _, all, err := command(dir, 5*time.Minute, "go", "build", "-o", "driver", "."); err != nil {
		os.Rename(filepath.Join(dir, "proxy.gen.go"), filepath.Join(dir, "proxy.txt"))
		if _, all2, err := command(dir, 5*time.Minute, "go", "build", "-o", "driver", "."); err != nil {
			fail("the driver does not build: %v\n%s\n%s", err, all2, src())
		}
		w.Viol("generator", "the proxies do not compile: %s\n%s\n=== proxy.gen.go\n%s", all, src(), one)
		return
	}
	w.Count("trees", 1)
	w.Count("interfaces", len(t.ifaces))
	seed := strconv.FormatInt(r.Int63n(1<<40), 10)
	stdout, all, err := command(dir, 10*time.Minute, filepath.Join(dir, "driver"), fmt.Sprintf("127.0.0.1:%d", w.hubPort()), strconv.Itoa(w.block(4)), "4", strconv.Itoa(int(w.p("calls", 6))), seed)
	done := false
	sc := bufio.NewScanner(strings.NewReader(stdout))
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		var m struct {
			Viol, State, Sample string
			Evals               int
			Done                bool
		}
		if json.Unmarshal(sc.Bytes(), &m) != nil {
			continue
		}
		switch {
		case m.Viol != "":
			w.Viol("proxy", "%s\n%s\n=== proxy.gen.go\n%s", m.Viol, src(), one)
			return
		case m.State != "":
			w.State("%s", m.State)
		case m.Sample != "":
			w.Sample("%s", m.Sample)
		case m.Done:
			done = true
			w.Eval(m.Evals)
			w.Count("proxy calls", m.Evals)
		}
	}
	if !done {
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 97 || strings.Contains(all, "HARNESS:") {
			fail("driver: %s", all)
		}
		if len(all) > 4000 {
			all = all[:4000]
		}
		w.Viol("proxy", "the driver ends: %v\n%s\n%s\n=== proxy.gen.go\n%s", err, all, src(), one)
	}
}
