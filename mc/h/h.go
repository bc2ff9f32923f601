// Package h is the exploration harness: it enumerates units and cases in a
// fixed order, shards them over worker processes, counts what was covered,
// and records violations so that each can be replayed by its position.
package h

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Violation is one failed case.
type Violation struct {
	Property string `json:"property"`
	Family   string `json:"family"`
	Unit     int64  `json:"unit"`
	Case     int64  `json:"case"`
	UnitDesc string `json:"unit_desc"`
	CaseDesc string `json:"case_desc"`
	Detail   string `json:"detail"`
	Repro    string `json:"go_repro,omitempty"`
	Crash    bool   `json:"crash,omitempty"`
	NShards  int    `json:"nshards"`
	Shard    int    `json:"shard"`
	Tier     string `json:"tier"`
	Rerun    string `json:"rerun,omitempty"`
	Known    string `json:"known,omitempty"`
}

// Result is what a worker reports.
type Result struct {
	Units       int64            `json:"units"`
	Cases       int64            `json:"cases"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Outcomes    map[string]int64 `json:"outcomes"`
	PerFamily   map[string]int64 `json:"per_family"`
	Samples     []string         `json:"samples"`
	Notes       []string         `json:"notes"`
	Known       []string         `json:"known"` // known findings observed again
	Capped      bool             `json:"capped"`
	Violations  []Violation      `json:"violations"`
	Done        bool             `json:"done"`
}

// Status is shared with the supervisor through a mapped file.
type Status struct {
	Family, Unit, Case, Beat int64
}

// Ctx is the state of one worker.
type Ctx struct {
	Property string
	Tier     string
	Seed     int64
	Shard    int
	NShards  int
	Dir      string // scratch directory of this run
	Verif    string // /verif
	Repo     string
	// replay filter; -1 / "" = everything
	OnlyFamily    string
	Families      []string // non-empty: only these
	OnlyUnit      int64
	OnlyCase      int64
	Verbose       bool
	MaxViolations int
	Deadline      time.Time
	R             Result
	st            *Status
	famIdx        int64
	family        string
	unit          int64
	kase          int64
	unitDesc      func() string
	caseDesc      func() string
	famSamples    int
	seen          map[uint64]struct{}
	tick          int
	expired       bool
	knownSeen     map[string]bool
	hardFail      bool
	repro         func() string
	OnFamily      func(string)
}

type stop struct{}

// Thorough reports the tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// MapStatus maps the status file.
func MapStatus(path string) *Status {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return new(Status)
	}
	defer f.Close()
	_ = f.Truncate(4096)
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return new(Status)
	}
	return (*Status)(unsafe.Pointer(&b[0]))
}

// Init prepares a worker.
func (c *Ctx) Init(statusPath string) {
	if statusPath != "" {
		c.st = MapStatus(statusPath)
	} else {
		c.st = new(Status)
	}
	c.famIdx = -1
	c.unit, c.kase = -1, -1
	c.seen = map[uint64]struct{}{}
	c.knownSeen = map[string]bool{}
	c.R.Outcomes = map[string]int64{}
	c.R.PerFamily = map[string]int64{}
	if c.MaxViolations == 0 {
		c.MaxViolations = 3
	}
}

// Family starts a family of units; false: skip it.
func (c *Ctx) Family(name string) bool {
	c.famIdx++
	atomic.StoreInt64(&c.st.Family, c.famIdx)
	c.family = name
	c.unit, c.kase = -1, -1
	c.famSamples = 0
	c.unitDesc, c.caseDesc, c.repro = nil, nil, nil
	if c.OnFamily != nil {
		c.OnFamily(name)
	}
	if c.OnlyFamily != "" && c.OnlyFamily != name {
		return false
	}
	if len(c.Families) > 0 {
		in := false
		for _, f := range c.Families {
			in = in || f == name
		}
		if !in {
			return false
		}
	}
	return !c.Expired()
}

// FamilyIndex is used by the supervisor to translate the status.
func (c *Ctx) FamilyIndex() int64 { return c.famIdx }

// Unit starts the next unit; false: it belongs to another shard.
func (c *Ctx) Unit(desc func() string) bool {
	c.unit++
	c.kase = -1
	c.unitDesc, c.caseDesc, c.repro = desc, nil, nil
	if c.OnlyUnit >= 0 {
		if c.unit != c.OnlyUnit {
			return false
		}
	} else if c.NShards > 1 && c.unit%int64(c.NShards) != int64(c.Shard) {
		return false
	}
	if c.expired {
		return false
	}
	atomic.StoreInt64(&c.st.Unit, c.unit)
	atomic.StoreInt64(&c.st.Case, -1)
	atomic.AddInt64(&c.st.Beat, 1)
	c.R.Units++
	if c.Verbose {
		fmt.Printf("unit %s/%d: %s\n", c.family, c.unit, c.str(desc))
	}
	return true
}

// Case starts the next case of the unit; false: filtered out.
func (c *Ctx) Case(desc func() string) bool {
	c.kase++
	c.caseDesc = desc
	c.repro = nil
	if c.OnlyCase >= 0 && c.kase != c.OnlyCase {
		return false
	}
	atomic.StoreInt64(&c.st.Case, c.kase)
	atomic.AddInt64(&c.st.Beat, 1)
	c.tick++
	if c.tick&255 == 0 && c.Expired() {
		return false
	}
	if c.expired {
		return false
	}
	c.R.Cases++
	c.R.PerFamily[c.family]++
	if c.famSamples < 1 && c.Shard == 0 || c.Verbose {
		c.famSamples++
		s := fmt.Sprintf("%s: %s: %s", c.family, c.str(c.unitDesc), c.str(desc))
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.R.Samples = append(c.R.Samples, s)
		if c.Verbose {
			fmt.Printf("  case %d: %s\n", c.kase, c.str(desc))
		}
	}
	return true
}

// Pos identifies the current case within its family.
func (c *Ctx) Pos() uint64 { return uint64(c.unit)<<32 | uint64(uint32(c.kase)) }

// Beat tells the supervisor that a long case is alive.
func (c *Ctx) Beat() { atomic.AddInt64(&c.st.Beat, 1) }

func (c *Ctx) str(f func() string) string {
	if f == nil {
		return ""
	}
	s := f()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

// Expired reports whether the time budget is used up.
func (c *Ctx) Expired() bool {
	if !c.expired && !c.Deadline.IsZero() && time.Now().After(c.Deadline) {
		c.expired = true
		c.R.Capped = true
		c.Note("time budget reached in family %s", c.family)
	}
	return c.expired
}

// Note adds a remark to the evidence.
func (c *Ctx) Note(f string, a ...interface{}) {
	if len(c.R.Notes) < 20 {
		c.R.Notes = append(c.R.Notes, fmt.Sprintf(f, a...))
	}
}

// State counts a state if it was not seen before.
func (c *Ctx) State(parts ...string) bool {
	hh := fnv.New64a()
	for _, p := range parts {
		hh.Write([]byte(p))
		hh.Write([]byte{0xff, 0xfe})
	}
	k := hh.Sum64()
	if _, ok := c.seen[k]; ok {
		return false
	}
	c.seen[k] = struct{}{}
	c.R.States++
	return true
}

// StateU counts a state identified by numbers.
func (c *Ctx) StateU(k ...uint64) bool {
	hh := fnv.New64a()
	var b [8]byte
	for _, x := range k {
		binary.LittleEndian.PutUint64(b[:], x)
		hh.Write(b[:])
	}
	s := hh.Sum64()
	if _, ok := c.seen[s]; ok {
		return false
	}
	c.seen[s] = struct{}{}
	c.R.States++
	return true
}

// Trans counts transitions (calls of the implementation that were checked).
func (c *Ctx) Trans(n int) { c.R.Transitions += int64(n) }

// Trace counts a complete model trace that was replayed on the implementation
// and agreed.
func (c *Ctx) Trace(n int) { c.R.Traces += int64(n) }

// Outcome counts a class of observed outcomes.
func (c *Ctx) Outcome(s string) { c.R.Outcomes[s]++ }

// SetRepro sets the generator of a standalone reproduction for the case.
func (c *Ctx) SetRepro(f func() string) { c.repro = f }

// Known reports that a known finding (by its key in known_findings.json) was
// observed again.
func (c *Ctx) Known(key string) {
	if !c.knownSeen[key] {
		c.knownSeen[key] = true
		c.R.Known = append(c.R.Known, key)
	}
}

// Fail records a violation of the current case.
func (c *Ctx) Fail(f string, a ...interface{}) {
	d := fmt.Sprintf(f, a...)
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	v := Violation{Property: c.Property, Family: c.family, Unit: c.unit, Case: c.kase, UnitDesc: c.str(c.unitDesc), CaseDesc: c.str(c.caseDesc), Detail: d, NShards: c.NShards, Shard: c.Shard, Tier: c.Tier}
	if c.repro != nil {
		func() {
			defer func() { recover() }()
			v.Repro = c.repro()
		}()
	}
	c.R.Violations = append(c.R.Violations, v)
	if c.Verbose {
		fmt.Printf("FAIL %s\n", d)
	}
	if len(c.R.Violations) >= c.MaxViolations {
		panic(stop{})
	}
}

// FailKeyed is Fail unless the finding is listed as known.
func (c *Ctx) FailKeyed(key, f string, a ...interface{}) {
	for _, k := range KnownKeys() {
		if k == key {
			c.Known(key)
			return
		}
	}
	c.Fail(f, a...)
}

var knownKeys []string
var knownLoaded bool

// KnownFile is the committed list of known findings.
var KnownFile = "/verif/known_findings.json"

// Finding is an entry of the known findings file.
type Finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

// Findings loads the file.
func Findings() []Finding {
	var x struct {
		Findings []Finding `json:"findings"`
	}
	b, err := os.ReadFile(KnownFile)
	if err == nil {
		_ = json.Unmarshal(b, &x)
	}
	return x.Findings
}

// KnownKeys lists the keys of the known findings.
func KnownKeys() []string {
	if !knownLoaded {
		knownLoaded = true
		for _, f := range Findings() {
			knownKeys = append(knownKeys, f.Key)
		}
	}
	return knownKeys
}

// Guard runs f and turns a panic into a violation; it reports whether f
// returned normally.
func (c *Ctx) Guard(what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, s := r.(stop); s {
				panic(r)
			}
			c.Fail("%s panicked: %v\n%s", what, r, trimStack(string(debug.Stack())))
			ok = false
		}
	}()
	f()
	return true
}

// Panics runs f and reports the panic value, if any.
func Panics(f func()) (v interface{}) {
	defer func() {
		v = recover()
		if _, s := v.(stop); s {
			panic(v)
		}
	}()
	f()
	return nil
}

func trimStack(s string) string {
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 2500 {
		s = s[:2500] + "..."
	}
	return s
}

// Run executes body and fills the result.
func (c *Ctx) Run(body func(c *Ctx)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); !ok {
				panic(r)
			}
		}
		c.R.Done = true
	}()
	body(c)
}
