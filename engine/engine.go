package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const targetPrefix = "github.com/shellyln/go-open-soql-parser"
const propsPkg = "soqlverif/props"

var typInt32 types.Type = types.Typ[types.Int32]

type Engine struct {
	jcache, jmeth, jptr sync.Map
	prog                *ssa.Program
	types               *Types
	fmu                 sync.Mutex
	fns                 map[*ssa.Function]*Func
	fnList              []*Func
	byName              map[string]*Func

	gmu   sync.Mutex
	gidx  map[*ssa.Global]int
	glist []*ssa.Global

	wrapErrType *RType // of *fmt.wrapError

	rtErrType *RType
	timeType  *RType
	anyType   *RType

	harness  []*Func
	initPkgs []*ssa.Package
	initOK   map[string]bool

	tier      int
	crossMu   sync.Mutex
	crossSeen map[uint64]bool
	crossN    map[int]int
	stop      atomic.Bool

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Item
	active   int
	deadline time.Time

	viol   map[string][]*Violation
	vlimit int

	samples   []Sample
	fallback  []Sample // inputs of paths that could not be encoded
	pending   []int    // per harness: paths not explored yet
	sampleCap int
	reach     map[string]int
	verbose   bool
}

type Sample struct {
	H       int
	Values  []uint64
	Obs     []ObsOut
	Outcome string
}

type ObsOut struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

func (e *Engine) stopped() bool { return e.stop.Load() }

func loadEngine(dir string, patterns []string) (*Engine, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), goEnv()...),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			errs = append(errs, er.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, types: &Types{}, fns: map[*ssa.Function]*Func{}, byName: map[string]*Func{}, gidx: map[*ssa.Global]int{},
		viol: map[string][]*Violation{}, reach: map[string]int{}, initOK: map[string]bool{}, vlimit: 3}
	e.cond = sync.NewCond(&e.mu)
	e.anyType = e.types.get(types.NewInterfaceType(nil, nil))
	e.rtErrType = e.types.get(types.NewNamed(types.NewTypeName(0, nil, "runtimeError", nil), types.Typ[types.String], nil))
	for _, p := range prog.AllPackages() {
		for _, mem := range p.Members {
			if f, ok := mem.(*ssa.Function); ok {
				switch p.Pkg.Path() + "." + f.Name() {
				case "errors.New":
					e.byName["errors.New"] = e.fnOf(f)
				}
			}
			if p.Pkg.Path() == modelPkg || p.Pkg.Path() == symPkg {
				if f, ok := mem.(*ssa.Function); ok {
					e.byName[p.Pkg.Path()+"."+f.Name()] = e.fnOf(f)
				}
			}
		}
		if w := p.Type("wrapError"); w != nil && p.Pkg.Path() == "fmt" {
			e.wrapErrType = e.types.get(types.NewPointer(w.Type()))
		}
		if p.Pkg.Path() == "time" {
			e.timeType = e.types.get(p.Type("Time").Type())
		}
	}
	if e.timeType == nil {
		return nil, fmt.Errorf("package time not loaded")
	}
	// package init order
	done := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if sp := prog.Package(p); sp != nil && allowInit(p.Path()) {
			e.initPkgs = append(e.initPkgs, sp)
		}
	}
	for _, p := range pkgs {
		visit(p.Types)
	}
	return e, nil
}

const modelPkg = "soqlverif/model"

func allowInit(path string) bool {
	if strings.HasPrefix(path, targetPrefix) || strings.HasPrefix(path, "github.com/shellyln/") || strings.HasPrefix(path, "soqlverif/") {
		return true
	}
	switch path {
	case "strconv", "internal/strconv", "unicode", "unicode/utf8", "strings", "time", "encoding/base64", "math/bits", "sort", "bytes", "slices", "cmp", "io", "internal/stringslite", "internal/itoa", "maps", "iter", "unicode/utf16", "regexp", "regexp/syntax", "text/template", "encoding/hex", "container/list":
		return true
	}
	return false
}

func (e *Engine) globalIdx(g *ssa.Global) int {
	e.gmu.Lock()
	defer e.gmu.Unlock()
	if i, ok := e.gidx[g]; ok {
		return i
	}
	i := len(e.glist)
	e.gidx[g] = i
	e.glist = append(e.glist, g)
	return i
}

func (m *M) global(i int) *Obj {
	for i >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	if o := m.globals[i]; o != nil {
		return o
	}
	m.eng.gmu.Lock()
	g := m.eng.glist[i]
	m.eng.gmu.Unlock()
	t := m.eng.types.get(g.Type().Underlying().(*types.Pointer).Elem())
	o := &Obj{size: t.size, init: true, name: g.String()}
	if g.Pkg != nil && !allowInit(g.Pkg.Pkg.Path()) && g.Name() != "init$guard" {
		// package state that was never initialised: reading it is not modelled
		o.c = make([]V, t.size)
		for k := range o.c {
			o.c[k] = V{p: poison{g.String()}}
		}
	}
	m.globals[i] = o
	return o
}

func (e *Engine) newMachine(id int) *M {
	b := newBuilder()
	m := &M{eng: e, b: b, s: newSolver(b), id: id, stepLimit: 4_000_000_000, fnUsed: map[*Func]int{}, runeSrc: map[uint32][]*Expr{}}
	m.st.Reasons = map[string]int{}
	m.known = map[uint32]bool{}
	m.reached = map[string]bool{}
	m.item = &Item{}
	m.hst = make([]Stats, len(e.harness))
	for i := range m.hst {
		m.hst[i].Reasons = map[string]int{}
	}
	return m
}

// runInits interprets the package initialisers of the modelled packages.
func (m *M) runInits() (errs []string) {
	m.inRun = false
	for _, p := range m.eng.initPkgs {
		f := p.Func("init")
		if f == nil {
			continue
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					m.depth, m.sp = 0, 0
					switch y := x.(type) {
					case *pathAbort:
						errs = append(errs, p.Pkg.Path()+": "+y.msg)
					case *GoPanic:
						errs = append(errs, p.Pkg.Path()+": panic "+dumpV(y.v, 0))
					default:
						panic(x)
					}
				}
			}()
			// package init functions call the inits of their imports first; those are
			// run in dependency order here, so calls to other packages' init are skipped
			m.call(m.eng.fnOf(f), nil)
		}()
	}
	m.inRun = true
	return errs
}

// ---- exploration ----

func (e *Engine) push(it Item) {
	e.mu.Lock()
	e.queue = append(e.queue, it)
	e.pending[it.h]++
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) worker(m *M) {
	m.out = e.push
	for {
		e.mu.Lock()
		for len(e.queue) == 0 && e.active > 0 && !e.stop.Load() {
			e.cond.Wait()
		}
		if e.stop.Load() || len(e.queue) == 0 {
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		it := e.queue[len(e.queue)-1]
		e.queue = e.queue[:len(e.queue)-1]
		e.active++
		e.mu.Unlock()
		m.runPath(&it)
		e.mu.Lock()
		e.active--
		if !m.aborted {
			e.pending[it.h]--
		}
		e.mu.Unlock()
		e.cond.Broadcast()
		if time.Now().After(e.deadline) {
			e.stop.Store(true)
			e.cond.Broadcast()
		}
	}
}

func (m *M) runPath(it *Item) {
	m.resetPath(it)
	t0 := time.Now()
	m.aborted = false
	m.st = Stats{Reasons: m.hst[it.h].Reasons}
	m.st.Paths++
	outcome := "ok"
	func() {
		defer func() {
			x := recover()
			if x == nil {
				m.st.Complete++
				return
			}
			switch y := x.(type) {
			case *pathAbort:
				switch y.k {
				case abAssume:
					m.st.Pruned++
					outcome = ""
				case abUnsupported:
					m.st.Unsupported++
					m.st.Reasons[y.msg]++
					outcome = "unsup"
				case abSteps:
					m.st.StepOut++
					m.st.Reasons[y.msg]++
					outcome = "unsup"
				case abViolation:
					outcome = "violation"
				case abUnknown:
					m.st.Unknown++
					m.st.Reasons[y.msg]++
					outcome = ""
				default:
					m.aborted = true
					outcome = ""
				}
			case *GoPanic:
				func() {
					defer func() {
						if z := recover(); z != nil {
							if _, ok := z.(*pathAbort); !ok {
								panic(z)
							}
						}
					}()
					msg := m.panicText(y.v)
					m.violation("panic: "+msg, m.model)
				}()
				outcome = "violation"
			default:
				// engine bug: report as unsupported rather than dying, keep the text
				if m.eng.verbose {
					panic(x)
				}
				m.st.Unsupported++
				m.st.Reasons[fmt.Sprintf("engine: %v in %s", x, m.where())]++
				outcome = "unsup"
			}
		}()
		f := m.eng.harness[it.h]
		m.call(f, nil)
	}()
	m.st.Steps += int64(m.steps)
	m.st.Decisions += m.ndec
	m.st.Cpu = time.Since(t0)
	if !m.aborted {
		r := m.st.Reasons
		m.st.Reasons = nil
		m.hst[it.h].add(&m.st)
		m.st.Reasons = r
	}
	if outcome == "ok" {
		m.eng.sample(m, it)
	} else if outcome == "unsup" {
		m.eng.mu.Lock()
		if len(m.eng.fallback) < 2000 {
			m.eng.fallback = append(m.eng.fallback, Sample{H: it.h, Values: m.inputValues(m.model)})
		}
		m.eng.mu.Unlock()
	}
	m.undo()
}

func (m *M) panicText(v V) string {
	i, ok := v.p.(*Iface)
	if !ok {
		return "?"
	}
	if s, ok := i.v.p.(*Str); ok {
		return m.concStr(s)
	}
	if i.v.p == nil && i.t.kind != KString {
		return fmt.Sprint(i.v.n)
	}
	return i.t.String()
}

// concrete text of a string under the path's model
func (m *M) concStr(s *Str) string {
	if s == nil {
		return ""
	}
	if s.b == nil {
		return s.s
	}
	b := make([]byte, len(s.b))
	for i, e := range s.b {
		b[i] = byte(m.eval(e))
	}
	return string(b)
}

func (m *M) obsOut() []ObsOut {
	var r []ObsOut
	for _, o := range m.obs {
		switch o.kind {
		case 's':
			r = append(r, ObsOut{o.label, strconv.QuoteToASCII(m.jtext(m.concStr(o.v.str())))})
		case 'i':
			n := o.v.n
			if e := o.v.sym(); e != nil {
				n = m.eval(e)
			}
			r = append(r, ObsOut{o.label, fmt.Sprint(int64(n))})
		case 'b':
			n := o.v.n
			if e := o.v.sym(); e != nil {
				n = m.eval(e)
			}
			r = append(r, ObsOut{o.label, fmt.Sprint(n != 0)})
		}
	}
	return r
}

func (m *M) inputValues(model []uint64) []uint64 {
	vals := []uint64{}
	for i, v := range m.vars {
		if v.name == "maporder" {
			continue
		}
		if i < len(model) {
			vals = append(vals, model[i])
		} else {
			vals = append(vals, 0)
		}
	}
	return vals
}

func (e *Engine) sample(m *M, it *Item) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for r := range m.reached {
		e.reach[e.harness[it.h].f.Name()+":"+r]++
	}
	e.reach[e.harness[it.h].f.Name()]++
	n := e.reach[e.harness[it.h].f.Name()]
	// keep the first few and then a thinning selection
	if n <= e.sampleCap || n&(n-1) == 0 {
		e.samples = append(e.samples, Sample{H: it.h, Values: m.inputValues(m.model), Obs: m.obsOut(), Outcome: "ok"})
	}
}

func (e *Engine) report(m *M, label string, model []uint64) {
	e.mu.Lock()
	defer e.mu.Unlock()
	h := e.harness[m.item.h].f.Name()
	key := h + "|" + label
	if len(e.viol[key]) >= e.vlimit {
		return
	}
	old := m.model
	m.model = append([]uint64(nil), model...)
	m.modelChanged()
	v := &Violation{Harness: h, Label: label, Model: m.inputValues(model), Vars: append([]varInfo(nil), m.vars...)}
	for _, o := range m.obsOut() {
		if o.Label == "input" {
			v.Msg = o.Val
		}
	}
	m.model = old
	m.modelChanged()
	e.viol[key] = append(e.viol[key], v)
}

// explore runs all harnesses to completion or deadline
func (e *Engine) explore(ms []*M, deadline time.Time) (complete bool) {
	e.stop.Store(false)
	e.deadline = deadline
	e.pending = make([]int, len(e.harness))
	for h := len(e.harness) - 1; h >= 0; h-- {
		e.queue = append(e.queue, Item{h: h})
		e.pending[h] = 1
	}
	e.active = 0
	var wg sync.WaitGroup
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(time.Until(deadline)):
			e.stop.Store(true)
			e.cond.Broadcast()
		}
	}()
	for _, m := range ms {
		wg.Add(1)
		go func(m *M) {
			defer wg.Done()
			e.worker(m)
		}(m)
	}
	wg.Wait()
	close(done)
	complete = !e.stop.Load() && len(e.queue) == 0
	e.stop.Store(true)
	return complete
}

// pickSamples chooses paths to be replayed on the compiled code.
func (e *Engine) pickSamples(seed int) []Sample {
	per := map[int][]Sample{}
	for _, s := range e.samples {
		per[s.H] = append(per[s.H], s)
	}
	var r []Sample
	for h := range e.harness {
		r = append(r, per[h]...)
	}
	// interleave so that the first ones written out come from different harnesses
	var out []Sample
	for i := 0; len(out) < len(r); i++ {
		for h := range e.harness {
			if i < len(per[h]) {
				out = append(out, per[h][i])
			}
		}
	}
	return out
}

func (e *Engine) findHarnesses(prop string) error {
	p := e.prog.ImportedPackage(propsPkg)
	if p == nil {
		return fmt.Errorf("no package %s", propsPkg)
	}
	var names []string
	for n, mem := range p.Members {
		if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(n, prop+"_") && len(f.Params) == 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		e.harness = append(e.harness, e.fnOf(p.Func(n)))
	}
	if len(names) == 0 {
		return fmt.Errorf("no harness for %s", prop)
	}
	return nil
}

func (e *Engine) crossWanted(h int, hash uint64) bool {
	limit := 60
	if e.tier > 0 {
		limit = 4000
	}
	e.crossMu.Lock()
	defer e.crossMu.Unlock()
	if e.crossSeen == nil {
		e.crossSeen, e.crossN = map[uint64]bool{}, map[int]int{}
	}
	k := hash*31 + uint64(h)
	if e.crossN[h] >= limit || e.crossSeen[k] {
		return false
	}
	e.crossSeen[k] = true
	e.crossN[h]++
	return true
}
