package props

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"google.golang.org/protobuf/compiler/protogen"

	"verif.local/mc/pgen"
)

// genStatus is what the preparation of C15 found out about each schema set.
type genStatus struct {
	PluginBuild string // error
	Sets        map[string]*setStatus
}

type setStatus struct {
	Plugin  string // error of the plugin
	Compile string // error of the compiler
	Types   int    // number of message types
	Linked  bool
}

func statusFile(dir string) string { return filepath.Join(dir, "genstatus.json") }

func loadStatus(dir string) *genStatus {
	b, err := os.ReadFile(statusFile(dir))
	if err != nil {
		return nil
	}
	st := new(genStatus)
	if json.Unmarshal(b, st) != nil {
		return nil
	}
	return st
}

func repoOf() string {
	if d := os.Getenv("MC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// messagesOf lists the messages of a file without map entries, in the order of
// the schema.
func messagesOf(f *protogen.File) []*protogen.Message {
	var r []*protogen.Message
	var walk func(ms []*protogen.Message)
	walk = func(ms []*protogen.Message) {
		for _, m := range ms {
			if !m.Desc.IsMapEntry() {
				r = append(r, m)
			}
			walk(m.Messages)
		}
	}
	walk(f.Messages)
	return r
}

// prepareGenerated builds the plugin, generates and compiles all schema sets
// and builds a worker with the generated types linked in.
func prepareGenerated(dir, tier string) (string, string) {
	return prepareSets(dir, tier, func(*pgen.Set) bool { return true })
}

func prepareSets(dir, tier string, keep func(*pgen.Set) bool) (string, string) {
	st := &genStatus{Sets: map[string]*setStatus{}}
	defer func() {
		b, _ := json.Marshal(st)
		_ = os.WriteFile(statusFile(dir), b, 0o644)
	}()
	plugin := filepath.Join(dir, "plugin")
	if err := pgen.Build(repoOf(), plugin); err != nil {
		st.PluginBuild = err.Error()
		return "", "the plugin does not build"
	}
	mcdir := filepath.Join(os.Getenv("VERIF_DIR"), "mc")
	root := filepath.Join(dir, "gen")
	if err := genModule(mcdir, root); err != nil {
		st.PluginBuild = err.Error()
		return "", err.Error()
	}
	var sets []*pgen.Set
	for _, s := range pgen.Sets(tier == "thorough") {
		if keep(s) {
			sets = append(sets, s)
		}
	}
	for _, s := range sets {
		st.Sets[s.Name] = new(setStatus)
	}
	parallel(len(sets), func(i int) {
		s := sets[i]
		x := st.Sets[s.Name]
		req := pgen.Request(s.Files, s.All(), "")
		resp, err := pgen.Run(plugin, req)
		if err == nil && resp.Error != nil {
			err = fmt.Errorf("plugin reports: %.3000s", resp.GetError())
		}
		if err != nil {
			x.Plugin = err.Error()
			return
		}
		for _, f := range resp.File {
			*f.Name = strings.TrimPrefix(f.GetName(), pgen.Base+"/")
		}
		if err := pgen.Write(root, resp); err != nil {
			x.Plugin = err.Error()
			return
		}
		n, err := writeRegistry(root, s)
		if err != nil {
			x.Plugin = err.Error()
		}
		x.Types = n
	})
	// compile: everything at once, then, if the go command gives no answer per
	// package, set by set
	var normal, alone []*pgen.Set
	for _, s := range sets {
		if st.Sets[s.Name].Plugin != "" {
			continue
		}
		if s.Directive {
			alone = append(alone, s)
		} else {
			normal = append(normal, s)
		}
	}
	if out, err := goBuild(root, normal); err != nil {
		if !attribute(out, normal, st) {
			alone = append(alone, normal...)
		}
	}
	parallel(len(alone), func(i int) {
		if out, err := goBuild(root, alone[i:i+1]); err != nil {
			st.Sets[alone[i].Name].Compile = firstLines(out, 3000)
		}
	})
	var good []*pgen.Set
	var main strings.Builder
	main.WriteString("package main\n\nimport (\n\t\"os\"\n\n\t\"verif.local/mc/h\"\n\t\"verif.local/mc/props\"\n\t\"verif.local/mc/sup\"\n")
	for _, s := range sets {
		if x := st.Sets[s.Name]; x.Plugin == "" && x.Compile == "" {
			good = append(good, s)
			fmt.Fprintf(&main, "\t_ %q\n", pgen.Base+"/reg/"+s.Name)
		}
	}
	main.WriteString(")\n\nfunc main() {\n\tsup.Worker(os.Args[2:], func(id string) func(*h.Ctx) { return props.Table()[id].Body })\n}\n")
	_ = os.MkdirAll(filepath.Join(root, "driver"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "driver", "main.go"), []byte(main.String()), 0o644); err != nil {
		return "", err.Error()
	}
	bin := filepath.Join(dir, "driver")
	cmd := exec.Command("go", "build", "-trimpath", "-o", bin, "./driver")
	cmd.Dir = root
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Sprintf("the generated packages do not link: %v %s", err, firstLines(string(out), 2000))
	}
	for _, s := range good {
		st.Sets[s.Name].Linked = true
	}
	return bin, ""
}

// genModule makes a module that uses the checker's own dependencies.
func genModule(mcdir, root string) error {
	if err := os.MkdirAll(root, 0o755); err != nil {
		return err
	}
	b, err := os.ReadFile(filepath.Join(mcdir, "go.mod"))
	if err != nil {
		return err
	}
	mod := strings.Replace(string(b), "module verif.local/mc", "module "+pgen.Base, 1)
	mod += "\nrequire verif.local/mc v0.0.0\n\nreplace verif.local/mc => " + mcdir + "\n"
	if err := os.WriteFile(filepath.Join(root, "go.mod"), []byte(mod), 0o644); err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(mcdir, "go.sum"))
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(root, "go.sum"), sum, 0o644)
}

// writeRegistry writes a package that registers the generated types of a set.
func writeRegistry(root string, s *pgen.Set) (int, error) {
	plug, err := pgen.Plugin(pgen.Request(s.Files, s.All(), ""))
	if err != nil {
		return 0, fmt.Errorf("schema set %s is not valid: %v", s.Name, err)
	}
	names := map[string][]string{}
	for _, f := range plug.Files {
		p := string(f.GoImportPath)
		for _, m := range messagesOf(f) {
			names[p] = append(names[p], m.GoIdent.GoName)
			for _, o := range m.Oneofs {
				if o.Desc.IsSynthetic() {
					continue
				}
				for _, of := range o.Fields {
					names[p] = append(names[p], of.GoIdent.GoName)
				}
			}
		}
		if _, ok := names[p]; !ok {
			names[p] = nil
		}
	}
	var paths []string
	n := 0
	for p := range names {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	var b strings.Builder
	b.WriteString("package reg\n\nimport (\n")
	for i, p := range paths {
		if len(names[p]) == 0 {
			fmt.Fprintf(&b, "\t_ %q\n", p)
		} else {
			fmt.Fprintf(&b, "\tp%d %q\n", i, p)
		}
	}
	b.WriteString("\n\t\"verif.local/mc/gentypes\"\n)\n\nfunc init() {\n")
	fmt.Fprintf(&b, "\t_ = gentypes.Types\n")
	for i, p := range paths {
		if len(names[p]) == 0 {
			continue
		}
		fmt.Fprintf(&b, "\tgentypes.Register(%q, %q, map[string]interface{}{\n", s.Name, p)
		for _, m := range names[p] {
			fmt.Fprintf(&b, "\t\t%q: (*p%d.%s)(nil),\n", m, i, m)
			n++
		}
		b.WriteString("\t})\n")
	}
	b.WriteString("}\n")
	d := filepath.Join(root, "reg", s.Name)
	if err := os.MkdirAll(d, 0o755); err != nil {
		return n, err
	}
	return n, os.WriteFile(filepath.Join(d, "reg.go"), []byte(b.String()), 0o644)
}

func goBuild(root string, sets []*pgen.Set) (string, error) {
	args := []string{"build", "-trimpath"}
	for _, s := range sets {
		args = append(args, "./"+s.Name+"/...", "./reg/"+s.Name)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = root
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	out, err := cmd.CombinedOutput()
	return string(out), err
}

// attribute assigns compiler output to sets; false: it does not say which.
func attribute(out string, sets []*pgen.Set, st *genStatus) bool {
	cur := ""
	found := false
	text := map[string]string{}
	for _, line := range strings.Split(out, "\n") {
		if strings.HasPrefix(line, "# ") {
			p := strings.TrimPrefix(strings.Fields(line)[1], pgen.Base+"/")
			p = strings.TrimPrefix(p, "reg/")
			cur = strings.Split(p, "/")[0]
			found = true
		} else if cur == "" && strings.TrimSpace(line) != "" {
			return false
		}
		text[cur] += line + "\n"
	}
	for _, s := range sets {
		if t, ok := text[s.Name]; ok && s.Name != "" {
			st.Sets[s.Name].Compile = firstLines(t, 3000)
			delete(text, s.Name)
		}
	}
	delete(text, "")
	return found && len(text) == 0
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}
