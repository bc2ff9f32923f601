package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
)

// toolConfig is one build of the checker.
type toolConfig struct {
	Name string
	Go   string   // command
	Env  []string // of the build
	Args []string // of the build
	Thor bool     // thorough tier only
}

// toolConfigs: the first is the reference the others are compared with.
var toolConfigs = []toolConfig{
	{Name: "go1.27", Go: "go"},
	{Name: "go1.26", Go: "go1.26"},
	{Name: "go1.25", Go: "go1.25"},
	{Name: "go1.25-noswissmap", Go: "go1.25", Env: []string{"GOEXPERIMENT=noswissmap"}},
	{Name: "go1.24", Go: "go1.24"},
	{Name: "go1.24-noswissmap", Go: "go1.24", Env: []string{"GOEXPERIMENT=noswissmap"}},
	{Name: "go1.23", Go: "go1.23"},
	{Name: "go1.27-386", Go: "go", Env: []string{"GOARCH=386"}},
	{Name: "go1.23-386", Go: "go1.23", Env: []string{"GOARCH=386"}, Thor: true},
	{Name: "go1.27-noopt", Go: "go", Args: []string{"-gcflags=all=-N -l"}, Thor: true},
	{Name: "go1.23-noopt", Go: "go1.23", Args: []string{"-gcflags=all=-N -l"}, Thor: true},
	{Name: "go1.27-v3", Go: "go", Env: []string{"GOAMD64=v3"}, Thor: true},
}

func toolBin(dir, name string) string { return filepath.Join(dir, "mc-"+name) }

// prepareToolchains builds the checker with every toolchain.
func prepareToolchains(dir, tier string) (string, string) {
	src, err := os.Getwd()
	if v := os.Getenv("VERIF_DIR"); v != "" {
		src = v
	}
	if err != nil {
		return "", err.Error()
	}
	src = filepath.Join(src, "mc")
	var wg sync.WaitGroup
	sem := make(chan struct{}, 4)
	var mu sync.Mutex
	var built, missing []string
	for _, tc := range toolConfigs {
		if tc.Thor && tier != "thorough" {
			continue
		}
		if _, err := exec.LookPath(tc.Go); err != nil {
			missing = append(missing, tc.Name)
			continue
		}
		tc := tc
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			cmd := exec.Command(tc.Go, append(append([]string{"build"}, tc.Args...), "-o", toolBin(dir, tc.Name), "./cmd/mc")...)
			cmd.Dir = src
			cmd.Env = append(os.Environ(), tc.Env...)
			out, err := cmd.CombinedOutput()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				// Is it the toolchain, or the code under test?
				_ = os.WriteFile(toolBin(dir, tc.Name)+".err", []byte(fmt.Sprintf("%v\n%s", err, firstLines(string(out), 2000))), 0o644)
				return
			}
			if x, err := exec.Command(toolBin(dir, tc.Name), "list").CombinedOutput(); err != nil && strings.Contains(tc.Name, "386") {
				missing = append(missing, tc.Name+" (does not run here: "+firstLines(string(x), 200)+")")
				_ = os.Remove(toolBin(dir, tc.Name))
				return
			}
			built = append(built, tc.Name)
		}()
	}
	wg.Wait()
	sort.Strings(built)
	note := "configurations: " + strings.Join(built, ", ")
	if len(missing) > 0 {
		note += "; not available: " + strings.Join(missing, ", ")
	}
	return "", note
}

// toolPart is a part of the space that is run under every configuration.
type toolPart struct {
	Name     string
	Body     func(*h.Ctx)
	Families []string // of the body; nil: all
	Chunks   int
	Thor     bool
}

func toolParts() []toolPart {
	return []toolPart{
		{Name: "maps and repeated fields of all sizes", Body: c19sizes, Chunks: 16},
		{Name: "round trip", Body: c01, Families: []string{"single-field", "nesting", "trees", "written-types", "wide"}, Chunks: 4},
		{Name: "encoding", Body: c02, Families: []string{"single-field", "nesting", "trees", "written-types", "wide"}, Chunks: 4, Thor: true},
		{Name: "size", Body: c03, Chunks: 8, Thor: true},
		{Name: "decoding", Body: c05, Families: []string{"single-field tokens", "two-field tokens", "nested tokens"}, Chunks: 4},
		{Name: "merging", Body: c07, Families: []string{"one field", "two fields", "recursive types", "concatenation"}, Chunks: 4},
		{Name: "unknown fields", Body: c06, Chunks: 8, Thor: true},
		{Name: "optional fields", Body: c12, Chunks: 4, Thor: true},
		{Name: "separate messages", Body: c18, Chunks: 16, Thor: true},
		{Name: "round trip, more fields", Body: c01, Families: []string{"field-pairs", "field-triples", "long"}, Chunks: 8, Thor: true},
	}
}

// toolResult is what a child reports.
type toolResult struct {
	R       h.Result
	Digests map[string]uint64 // per unit of c19sizes
}

var toolDigests map[string]uint64 // set in a child

// childTool runs one chunk of a part: index of the part, chunk, tier, status
// file, output file.
func childTool(av []string) {
	debug.SetPanicOnFault(true)
	var part, chunk int
	fmt.Sscan(av[0], &part)
	fmt.Sscan(av[1], &chunk)
	p := toolParts()[part]
	c := &h.Ctx{Property: "C19", Tier: av[2], Seed: 1, Shard: chunk, NShards: p.Chunks, OnlyUnit: -1, OnlyCase: -1, Families: p.Families, MaxViolations: 2}
	c.Init(av[3])
	if f := os.Getenv("MC_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(w)
			defer w.Close()
		}
	}
	toolDigests = map[string]uint64{}
	c.Run(p.Body)
	pprof.StopCPUProfile()
	b, _ := json.Marshal(&toolResult{R: c.R, Digests: toolDigests})
	if err := os.WriteFile(av[4], b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

// C19: the same results with every toolchain.
func c19(c *h.Ctx) {
	if c.Family("build") {
		for _, tc := range toolConfigs {
			tc := tc
			if !c.Unit(func() string { return tc.Name }) || !c.Case(nil) {
				continue
			}
			if b, err := os.ReadFile(toolBin(c.Dir, tc.Name) + ".err"); err == nil {
				c.Fail("does not build with %s: %s", tc.Name, b)
			}
		}
	}
	for pi, part := range toolParts() {
		if part.Thor && !c.Thorough() || !c.Family(part.Name) {
			continue
		}
		for chunk := 0; chunk < part.Chunks; chunk++ {
			if !c.Unit(func() string { return fmt.Sprintf("chunk %d of %d", chunk, part.Chunks) }) {
				continue
			}
			var ref *toolResult
			refName := ""
			for _, tc := range toolConfigs {
				if _, err := os.Stat(toolBin(c.Dir, tc.Name)); err != nil {
					continue
				}
				// the reference is needed for the comparison whichever case is replayed
				if !c.Case(func() string { return tc.Name }) && ref != nil {
					continue
				}
				res, died := runTool(c, tc.Name, pi, chunk)
				if died != "" {
					c.Fail("%s: %s", tc.Name, died)
					continue
				}
				for _, v := range res.R.Violations {
					c.Fail("%s: %s unit %d case %d: %s | %s\n%s", tc.Name, v.Family, v.Unit, v.Case, v.UnitDesc, v.CaseDesc, v.Detail)
				}
				c.Trans(int(res.R.Transitions))
				if len(res.R.Violations) > 0 {
					continue
				}
				c.Trace(int(res.R.Traces))
				c.R.States += res.R.States
				c.R.Outcomes["cases run with "+tc.Name] += res.R.Cases
				if ref == nil {
					ref, refName = res, tc.Name
					continue
				}
				if res.R.Cases != ref.R.Cases || res.R.Units != ref.R.Units || res.R.Transitions != ref.R.Transitions || !reflect.DeepEqual(res.R.Outcomes, ref.R.Outcomes) {
					c.Fail("%s: %d units, %d cases, %d calls, outcomes %v; %s: %d units, %d cases, %d calls, outcomes %v",
						tc.Name, res.R.Units, res.R.Cases, res.R.Transitions, res.R.Outcomes, refName, ref.R.Units, ref.R.Cases, ref.R.Transitions, ref.R.Outcomes)
				}
				for u, d := range ref.Digests {
					if res.Digests[u] != d {
						c.Fail("the results of %s differ between %s and %s", u, tc.Name, refName)
					}
				}
			}
		}
	}
}

func runTool(c *h.Ctx, name string, part, chunk int) (*toolResult, string) {
	base := filepath.Join(c.Dir, fmt.Sprintf("tool-%s-%d-%d-%d", name, part, chunk, os.Getpid()))
	out, st := base+".json", base+".st"
	defer os.Remove(out)
	defer os.Remove(st)
	cmd := exec.Command(toolBin(c.Dir, name), "child", "tool", fmt.Sprint(part), fmt.Sprint(chunk), c.Tier, st, out)
	// GC often: much of what goes wrong with maps shows only then
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=100")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		return nil, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := 150 * time.Second
	if c.Thorough() {
		limit = 30 * time.Minute
	}
	end := time.After(limit)
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	where := func() string {
		s := h.MapStatus(st)
		return fmt.Sprintf("at family %d unit %d case %d", s.Family, s.Unit, s.Case)
	}
	for {
		select {
		case <-tick.C:
			c.Beat()
		case <-end:
			_ = cmd.Process.Kill()
			<-done
			return nil, "no end after " + limit.String() + " " + where()
		case err := <-done:
			if err != nil {
				return nil, fmt.Sprintf("the process died %s: %v\n%s", where(), err, firstLines(eb.String(), 3000))
			}
			b, err := os.ReadFile(out)
			if err != nil {
				return nil, err.Error()
			}
			r := new(toolResult)
			if err := json.Unmarshal(b, r); err != nil {
				return nil, err.Error()
			}
			return r, ""
		}
	}
}

// keyAt is key i of a pattern of keys.
func keyAt(k model.Kind, pattern, i int) model.Val {
	if k == model.Bool {
		return model.Val{U: uint64(i & 1)}
	}
	if k == model.String {
		switch pattern {
		case 1:
			return model.Val{S: strings.Repeat("k", 40) + fmt.Sprint(i)}
		case 2:
			return model.Val{S: strings.Repeat("\x00", i)}
		}
		return model.Val{S: fmt.Sprint(i)}
	}
	v := uint64(i)
	switch pattern {
	case 1:
		v = uint64(i) << 20
		if !k.Is32() {
			v = uint64(i) << 44
		}
	case 2:
		v = -uint64(i)
	}
	if k.Is32() {
		v = uint64(uint32(v))
	}
	return model.Val{U: v}
}

// sizes of maps and repeated fields: around every size at which the runtime
// changes its representation.
func sizesOf(thorough bool) []int {
	var r []int
	add := func(a, b int) {
		for ; a <= b; a++ {
			r = append(r, a)
		}
	}
	if thorough {
		add(0, 300)
		for _, n := range []int{416, 448, 512, 832, 896, 1024, 1664, 1792, 2048, 3328, 3584, 4096, 7168, 8192, 14336} {
			if n > 300 {
				add(n-2, n+2)
			}
		}
		return r
	}
	add(0, 18)
	for _, n := range []int{20, 26, 28, 32, 40, 52, 56, 64, 80, 104, 112, 128, 208, 224, 256, 448, 896, 1792} {
		add(n-1, n+1)
	}
	return r
}

// c19sizes: maps and repeated fields of all sizes and histories.
func c19sizes(c *h.Ctx) {
	digest := func(name string) func(parts ...string) {
		hh := fnv.New64a()
		return func(parts ...string) {
			for _, p := range parts {
				hh.Write([]byte(p))
				hh.Write([]byte{0xff, 0xfe})
			}
			if toolDigests != nil {
				toolDigests[name] = hh.Sum64()
			}
		}
	}
	errText := func(err error) string {
		if err == nil {
			return ""
		}
		return err.Error()
	}
	// message checks a message with field value fv in the Go message p.
	message := func(s *model.Schema, m *model.Msg, p reflect.Value, dg func(...string)) {
		n := proto.Size(p.Interface())
		b, err := proto.Marshal(p.Interface())
		if err != nil {
			c.Fail("Marshal: %v", err)
			return
		}
		if n != len(b) {
			c.Fail("Size is %d, Marshal produces %d bytes", n, len(b))
		}
		cb, err := model.Canonical(s, b)
		want := model.Encode(s, m)
		cw, _ := model.Canonical(s, want)
		if err != nil || !bytes.Equal(cb, cw) {
			c.Fail("encoding %s, want %s (map entries in any order) %v", hx(cb), hx(want), err)
		}
		q := model.Fresh(s)
		if err := proto.Unmarshal(b, q.Interface()); err != nil {
			c.Fail("Unmarshal(Marshal(m)): %v", err)
			return
		}
		got, err := model.FromGo(s, q)
		if err != nil {
			c.Fail("%v", err)
			return
		}
		if d := model.Diff(m, got); d != "" {
			c.Fail("round trip changed the message: %s", d)
		}
		// again, into the same message: entries replaced, elements appended
		err = proto.Unmarshal(want, q.Interface())
		twice, ferr := model.FromGo(s, q)
		if err != nil || ferr != nil {
			c.Fail("Unmarshal: %v %v", err, ferr)
			return
		}
		wm := m.Clone() // entries replaced by the same entries
		if s.Fields[0].Card == model.Rep {
			wm.F[0].L = append(wm.F[0].L, m.F[0].L...)
		}
		if d := model.Diff(wm, twice); d != "" {
			c.Fail("decoding twice: %s", d)
		}
		// all but the last byte
		if len(b) > 0 {
			cut := model.Fresh(s)
			err = proto.Unmarshal(want[:len(want)-1], cut.Interface())
			if err == nil {
				c.Fail("truncated input is accepted")
			}
			x, ferr := model.FromGo(s, cut)
			if ferr != nil {
				c.Fail("after truncated input: %v", ferr)
				return
			}
			dg(errText(err), x.String())
			c.Trans(1)
		}
		got2, err := model.FromGo(s, p)
		if err != nil {
			c.Fail("the marshalled message: %v", err)
		} else if d := model.Diff(m, got2); d != "" {
			c.Fail("Size or Marshal changed the message: %s", d)
		}
		dg(string(cb), got.String())
		c.Trans(4)
		c.Trace(1)
	}
	histories := []string{"inserted", "with size hint", "from three times as many", "cleared before", "decoded", "half decoded", "twice the keys changed"}
	sizes := sizesOf(c.Thorough())
	vals := []model.Kind{model.Bool, model.Int32, model.Double, model.String, model.Bytes, model.Message}
	patterns := 2
	if c.Thorough() {
		vals = append(append([]model.Kind{}, model.ScalarKinds...), model.Message)
		patterns = 3
	}
	if c.Family("maps") {
		for _, kk := range model.MapKeyKinds {
			for vi, vk := range vals {
				for pat := 0; pat < patterns; pat++ {
					if kk == model.Bool && pat > 0 {
						continue
					}
					name := fmt.Sprintf("map<%v,%v> keys %d", kk, vk, pat)
					if !c.Unit(func() string { return name }) {
						continue
					}
					dg := digest(name)
					s := model.New("", model.FMap(3, kk, vk, Leaf), model.F(4, model.Plain, model.Int32))
					f := &s.Fields[0]
					mt := f.GoType()
					for _, n := range sizes {
						if kk == model.Bool && n > 2 {
							break
						}
						if kk == model.String && pat == 2 && n > 300 {
							break // quadratic
						}
						if !c.Thorough() && n > 500 && (vi+pat)%3 != 0 {
							continue
						}
						for hi, hist := range histories {
							if n > 100 && !c.Thorough() && (hi+n+pat)%3 != 0 {
								continue
							}
							if !c.Case(func() string { return fmt.Sprintf("%d entries, %s", n, hist) }) {
								continue
							}
							c.State(name, fmt.Sprint(n), hist)
							c.Guard("call", func() {
								m, p := buildMap(s, mt, kk, pat, n, hi)
								message(s, m, p, dg)
							})
						}
					}
				}
			}
		}
	}
	if c.Family("repeated fields") {
		for _, k := range append(append([]model.Kind{}, model.ScalarKinds...), model.Message) {
			name := "repeated " + k.String()
			if !c.Unit(func() string { return name }) {
				continue
			}
			dg := digest(name)
			s := model.New("", model.Shape{Kind: k, Card: model.Rep}.Of(3, Leaf), model.F(4, model.Plain, model.Int32))
			f := &s.Fields[0]
			for _, n := range append(sizes, 2559, 2560, 2561, 5119, 5120, 5121) {
				for spare := 0; spare < 4; spare++ {
					if !c.Case(func() string { return fmt.Sprintf("%d elements, spare capacity %d", n, spare) }) {
						continue
					}
					c.State(name, fmt.Sprint(n), fmt.Sprint(spare))
					c.Guard("call", func() {
						m := model.NewMsg(s)
						m.F[0] = gen.ListOf(f, n)
						m.F[1] = model.FieldVal{Set: true, V: model.Val{U: 7}}
						p := model.ToGo(s, m)
						gf := model.GoField(s, 0, p.Elem())
						if spare > 0 {
							// spare capacity with other elements in it
							full := gen.ListOf(f, n+spare*5)
							x := model.NewMsg(s)
							x.F[0] = full
							q := model.ToGo(s, x)
							gf.Set(model.GoField(s, 0, q.Elem()).Slice(0, n))
						}
						message(s, m, p, dg)
						// append by decoding
						if spare > 0 && n <= 600 {
							add := model.NewMsg(s)
							add.F[0] = gen.ListOf(f, 1+spare*4)
							b := model.Encode(s, add)
							if err := proto.Unmarshal(b, p.Interface()); err != nil {
								c.Fail("Unmarshal: %v", err)
								return
							}
							wm := m.Clone()
							model.Decode(s, b, wm)
							got, err := model.FromGo(s, p)
							if err != nil {
								c.Fail("%v", err)
								return
							}
							if d := model.Diff(wm, got); d != "" {
								c.Fail("elements appended by decoding: %s", d)
							}
							c.Trans(1)
						}
					})
				}
			}
		}
	}
	if c.Family("maps inside") {
		// maps whose values hold maps: iterators nested in one another
		inner := model.New("", model.FMap(1, model.Int32, model.String, nil), model.FMap(2, model.String, model.Message, Leaf), model.F(3, model.Rep, model.Sint64))
		top := 10
		if c.Thorough() {
			top = 20
		}
		for _, card := range []model.Card{model.Rep, model.Map} {
			for _, kk := range []model.Kind{model.String, model.Int64, model.Fixed32} {
				if card == model.Rep && kk != model.String {
					continue
				}
				name := fmt.Sprintf("%v %v of maps", card, kk)
				if !c.Unit(func() string { return name }) {
					continue
				}
				dg := digest(name)
				s := model.New("", model.Shape{Kind: model.Message, Card: card, Key: kk}.Of(2, inner), model.F(4, model.Plain, model.Int32))
				for a := 0; a <= top; a++ {
					for b := 0; b <= top; b++ {
						if !c.Case(func() string { return fmt.Sprintf("%d outside, %d inside", a, b) }) {
							continue
						}
						c.State(name, fmt.Sprint(a), fmt.Sprint(b))
						c.Guard("call", func() {
							m := model.NewMsg(s)
							m.F[1] = model.FieldVal{Set: true, V: model.Val{U: 9}}
							for i := 0; i < a; i++ {
								im := model.NewMsg(inner)
								im.F[0] = gen.MapOf(&inner.Fields[0], (b+i)%(top+1))
								im.F[1] = gen.MapOf(&inner.Fields[1], b)
								im.F[2] = gen.ListOf(&inner.Fields[2], (b*3+i)%23)
								if card == model.Rep {
									m.F[0].L = append(m.F[0].L, model.Val{M: im})
								} else {
									m.F[0].E = append(m.F[0].E, model.Entry{K: keyAt(kk, 0, i), V: model.Val{M: im}})
								}
							}
							model.SortEntries(m.F[0].E)
							message(s, m, model.ToGo(s, m), dg)
						})
					}
				}
			}
		}
	}
	runtime.GC()
}

// buildMap makes a message with a map of n entries which came about by a
// history.
func buildMap(s *model.Schema, mt reflect.Type, kk model.Kind, pat, n, hist int) (*model.Msg, reflect.Value) {
	f := &s.Fields[0]
	entry := func(i, salt int) model.Entry {
		return model.Entry{K: keyAt(kk, pat, i), V: gen.NthElem(f, i+salt)}
	}
	m := model.NewMsg(s)
	m.F[1] = model.FieldVal{Set: true, V: model.Val{U: 5}}
	for i := 0; i < n; i++ {
		m.F[0].E = append(m.F[0].E, entry(i, 0))
	}
	one := func(e ...model.Entry) reflect.Value {
		x := model.NewMsg(s)
		x.F[0].E = e
		return model.ToGo(s, x)
	}
	// keys and values as Go values
	type kv struct{ k, v reflect.Value }
	goEntry := func(e model.Entry) kv {
		it := model.GoField(s, 0, one(e).Elem()).MapRange()
		it.Next()
		return kv{it.Key(), it.Value()}
	}
	p := model.Fresh(s)
	model.WriteField(s, 1, &m.F[1], p.Elem())
	gf := model.GoField(s, 0, p.Elem())
	switch hist {
	case 0, 1:
		g := reflect.MakeMap(mt)
		if hist == 1 {
			g = reflect.MakeMapWithSize(mt, n)
		}
		for _, e := range m.F[0].E {
			x := goEntry(e)
			g.SetMapIndex(x.k, x.v)
		}
		gf.Set(g)
	case 2, 3:
		g := reflect.MakeMap(mt)
		total := 3 * n
		if kk == model.Bool {
			total = 2
		}
		for i := 0; i < total; i++ {
			x := goEntry(entry(i, 1))
			g.SetMapIndex(x.k, x.v)
		}
		from := n
		if hist == 3 {
			from = 0
		}
		for i := from; i < total; i++ {
			g.SetMapIndex(goEntry(entry(i, 0)).k, reflect.Value{})
		}
		for _, e := range m.F[0].E {
			x := goEntry(e)
			g.SetMapIndex(x.k, x.v)
		}
		gf.Set(g)
	case 4, 5, 6:
		// 4: all decoded; 5: the first half by hand; 6: every key twice
		if hist == 5 {
			g := reflect.MakeMap(mt)
			for _, e := range m.F[0].E[:n/2] {
				x := goEntry(e)
				g.SetMapIndex(x.k, x.v)
			}
			gf.Set(g)
		}
		var b []byte
		if hist == 6 {
			for i := n - 1; i >= 0; i-- {
				b = model.AppendField(b, f, &model.FieldVal{E: []model.Entry{entry(i, 2)}})
			}
		}
		from := 0
		if hist == 5 {
			from = n / 2
		}
		for _, e := range m.F[0].E[from:] {
			b = model.AppendField(b, f, &model.FieldVal{E: []model.Entry{e}})
		}
		if err := proto.Unmarshal(b, p.Interface()); err != nil {
			panic(fmt.Sprintf("Unmarshal: %v", err))
		}
		if n > 0 && hist == 4 && mt.Elem().Kind() != reflect.Ptr {
			// an entry the user changes afterwards
			x := goEntry(entry(0, 0))
			gf.SetMapIndex(x.k, reflect.Value{})
			gf.SetMapIndex(x.k, x.v)
		}
	}
	model.SortEntries(m.F[0].E)
	return m, p
}
