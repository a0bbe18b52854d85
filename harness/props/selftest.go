package props

import (
	"bytes"
	clist "container/list"
	"errors"
	"fmt"
	"maps"
	"math/bits"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"
	"unicode/utf8"

	"soqlverif/sym"
)

// The functions named T00_ decide no property. They are run with -prop T00 and show that
// the engine and the compiled program agree on library routines that the code under test
// may come to use.

type stErr struct{ code int }

func (e *stErr) Error() string { return "code " + strconv.Itoa(e.code) }

type stKind int

func (k stKind) String() string { return [...]string{"zero", "one", "two"}[k] }

// T00_fmt: formatting.
func T00_fmt() {
	s := sym.Str("s", 2, "abc'")
	n := sym.Concrete(sym.Str("n", 1, "123"))
	k := int(n[0] - '0')
	sym.ObserveStr("a", fmt.Sprintf("%s|%v|%d|%05d|%x|%-4s|%q|%t|%v", s, s, k, k, k+10, n, n, k > 1, []string{n, "x"}))
	sym.ObserveStr("b", fmt.Sprint("a", k, k, "b", s, 1.5, nil, stKind(1)))
	sym.ObserveStr("c", fmt.Sprintln("a", s, k))
	var b strings.Builder
	fmt.Fprintf(&b, "%s-%d", s, k)
	var bb bytes.Buffer
	fmt.Fprint(&bb, s, k, "z")
	sym.ObserveStr("d", b.String()+bb.String())
	e := fmt.Errorf("at %d: %w", k, &stErr{k})
	sym.ObserveStr("e", e.Error()+errors.Unwrap(e).Error())
	sym.ObserveStr("f", fmt.Sprintf("%T %T %c %U %08.3f %+d %s %d%%", k, s, 'x', 'y', 1.25, k, stKind(k%3), k))
	var nilErr error
	sym.ObserveStr("g", fmt.Sprintf("%v %s %v", nilErr, e, []int{1, k}))
	sym.ObserveBool("is", errors.Is(e, e))
}

// T00_as: errors.As.
func T00_as() {
	var t *stErr
	e := fmt.Errorf("x: %w", &stErr{4})
	sym.ObserveBool("as", errors.As(e, &t))
	sym.ObserveInt("code", t.code)
}

// T00_sort: sorting.
func T00_sort() {
	type kv struct{ k, v int }
	for _, n := range []int{3, 12, 13, 30, 60} {
		l := make([]kv, n)
		for i := range l {
			l[i] = kv{i * 7 % 5, i}
		}
		a, b := append([]kv{}, l...), append([]kv{}, l...)
		sort.Slice(a, func(i, j int) bool { return a[i].k < a[j].k })
		sort.SliceStable(b, func(i, j int) bool { return b[i].k < b[j].k })
		c := append([]kv{}, l...)
		slices.SortFunc(c, func(x, y kv) int { return x.k - y.k })
		d := append([]kv{}, l...)
		slices.SortStableFunc(d, func(x, y kv) int { return x.k - y.k })
		t := ""
		for i := range a {
			t += strconv.Itoa(a[i].v) + "," + strconv.Itoa(b[i].v) + "," + strconv.Itoa(c[i].v) + "," + strconv.Itoa(d[i].v) + " "
		}
		sym.ObserveStr("sorted", t)
	}
	x := []string{"b", "a", sym.Str("c", 1, "ab")}
	sort.Strings(x)
	sym.ObserveStr("strings", strings.Join(x, ""))
	y := []int{3, 1, 2}
	slices.Sort(y)
	i, ok := slices.BinarySearch(y, 2)
	sym.ObserveInt("at", i)
	sym.ObserveBool("found", ok)
	sym.ObserveInt("max", slices.Max(y))
	slices.Reverse(y)
	sym.ObserveInt("first", y[0])
	sort.Sort(sort.Reverse(sort.IntSlice(y)))
	sym.ObserveInt("sorted first", y[0])
}

// T00_strings: string routines.
func T00_strings() {
	s := sym.Str("s", 3, "aB. ")
	sym.ObserveStr("fields", strings.Join(strings.Fields(s), "|"))
	sym.ObserveStr("split", strings.Join(strings.Split(s, "."), "|"))
	a, b, ok := strings.Cut(s, ".")
	sym.ObserveStr("cut", a+"|"+b)
	sym.ObserveBool("cut", ok)
	sym.ObserveStr("map", strings.Map(unicode.ToUpper, s))
	sym.ObserveStr("trim", strings.TrimSpace(s)+"|"+strings.Trim(s, ".")+"|"+strings.TrimLeft(s, "a")+"|"+strings.TrimSuffix(s, "B")+"|"+strings.TrimPrefix(s, "a"))
	sym.ObserveStr("replace", strings.ReplaceAll(s, ".", "--")+strings.Replace(s, "a", "", 1))
	sym.ObserveStr("replacer", strings.NewReplacer(".", "-", "a", "b").Replace(s))
	sym.ObserveInt("last", strings.LastIndex(s, ".")+10*strings.IndexByte(s, 'a')+100*strings.IndexAny(s, ". ")+1000*strings.Count(s, "a"))
	sym.ObserveBool("fold", strings.EqualFold(s, "ab."))
	sym.ObserveInt("compare", strings.Compare(s, "aB "))
	sym.ObserveBool("any", strings.ContainsAny(s, ". ") && strings.ContainsRune(s, 'a'))
	sym.ObserveInt("func", strings.IndexFunc(s, unicode.IsUpper))
	t := ""
	for _, r := range s {
		if unicode.IsLetter(r) || unicode.IsSpace(r) {
			t += string(r)
		}
	}
	sym.ObserveStr("runes", t+string([]rune(s)))
	sym.ObserveInt("count", utf8.RuneCountInString(s))
	var bb bytes.Buffer
	bb.WriteString(s)
	bb.WriteByte('x')
	bb.WriteRune('y')
	sym.ObserveStr("buffer", bb.String())
	sym.ObserveBool("bytes", bytes.Equal([]byte(s), bb.Bytes()[:3]))
	sym.ObserveStr("quote", strconv.Quote(sym.Concrete(s)))
	sym.ObserveStr("title", strings.ToTitle(s))
}

// T00_conv: conversions.
func T00_conv() {
	s := sym.Str("s", 2, "0a-9")
	n, err := strconv.Atoi(s)
	sym.ObserveInt("atoi", n)
	sym.ObserveBool("err", err != nil)
	u, err := strconv.ParseUint(s, 16, 8)
	sym.ObserveInt("uint", int(u))
	sym.ObserveBool("err", err != nil)
	if err != nil {
		sym.ObserveStr("message", err.Error())
		var ne *strconv.NumError
		if e, ok := err.(*strconv.NumError); ok {
			ne = e
		}
		sym.ObserveStr("func", ne.Func)
	}
	sym.ObserveStr("format", strconv.FormatInt(int64(n), 2)+strconv.FormatBool(n > 0)+string(strconv.AppendInt(nil, int64(n), 10)))
	v, err := strconv.ParseBool(s)
	sym.ObserveBool("bool", v || err == nil)
	sym.ObserveInt("bits", bits.OnesCount(uint(n))+bits.Len(uint(n)))
}

type stPair[K comparable, V any] struct {
	k K
	v V
}

func stPairs[K comparable, V any](m map[K]V) []stPair[K, V] {
	var l []stPair[K, V]
	for k, v := range m {
		l = append(l, stPair[K, V]{k, v})
	}
	return l
}

type stShape interface {
	area() int
	stNamed
}
type stNamed interface{ name() string }
type stBase struct{ n string }

func (b *stBase) name() string { return b.n }

type stSquare struct {
	*stBase
	side int
}

func (s stSquare) area() int { return s.side * s.side }

func stDeferred(n int) (r int, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("recovered: %v", x)
		}
		r *= 2
	}()
	for i := 0; i < n; i++ {
		defer func(i int) { r += i }(i)
	}
	if n > 2 {
		panic("too many")
	}
	return n, nil
}

// T00_language: generics, embedding, closures, defer, labels, goto, maps, channels.
func T00_language() {
	c := sym.Str("c", 1, "abc")
	m := map[string]int{"a": 1, "b": 2, "z": 3}
	m[c] += 10
	p := stPairs(m)
	sort.Slice(p, func(i, j int) bool { return p[i].k < p[j].k })
	t := ""
	for _, x := range p {
		t += x.k + strconv.Itoa(x.v)
	}
	sym.ObserveStr("pairs", t)
	m2 := maps.Clone(m)
	delete(m2, "a")
	sym.ObserveInt("len", len(m)*10+len(m2))
	sym.ObserveBool("equal", maps.Equal(m, m2))
	sym.ObserveInt("keys", len(slices.Sorted(maps.Keys(m))))
	var sh stShape = stSquare{&stBase{"sq" + c}, 4}
	f := sh.area
	sym.ObserveStr("shape", sh.name()+strconv.Itoa(f()))
	for n := 1; n < 5; n++ {
		r, err := stDeferred(n)
		sym.ObserveInt("deferred", r)
		if err != nil {
			sym.ObserveStr("err", err.Error())
		}
	}
	l := clist.New()
	l.PushBack(1)
	l.PushFront(2)
	sum := 0
	for e := l.Front(); e != nil; e = e.Next() {
		sum = sum*10 + e.Value.(int)
	}
	sym.ObserveInt("list", sum)
	i := 0
again:
	i++
	if i < 3 {
		goto again
	}
outer:
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			switch {
			case b == 2:
				continue outer
			case a == 2:
				break outer
			}
			i += a*3 + b
		}
	}
	sym.ObserveInt("loops", i)
	arr := [4]int{1, 2, 3}
	brr := arr
	brr[0] = 9
	sym.ObserveBool("arrays", arr == brr)
	sl := arr[1:2:3]
	sl = append(sl, 7)
	sl = append(sl, 8)
	sl[0] = 5
	sym.ObserveInt("slices", arr[1]*1000+arr[2]*100+arr[3]*10+len(sl))
	copy(arr[:], arr[1:])
	sym.ObserveInt("copy", arr[0])
	m2 = nil
	sym.ObserveInt("clear", len(m2))
	var x interface{} = sh
	switch v := x.(type) {
	case fmt.Stringer:
		sym.ObserveStr("type", v.String())
	case stNamed:
		sym.ObserveStr("type", v.name())
	}
	fn := func(vs ...int) (r int) {
		for _, v := range vs {
			r += v
		}
		return
	}
	sym.ObserveInt("variadic", fn(arr[:]...)+fn())
	type key struct{ a, b string }
	km := map[key]bool{{"x", c}: true}
	sym.ObserveBool("struct key", km[key{"x", "a"}])
}

// T00_slices: package slices.
func T00_slices() {
	l := []string{"a", "b", sym.Str("c", 1, "abc")}
	sym.ObserveInt("index", slices.Index(l, "c"))
	sym.ObserveBool("contains", slices.ContainsFunc(l, func(s string) bool { return s > "b" }))
	l2 := slices.Insert(slices.Clone(l), 1, "x", "y")
	l2 = slices.Delete(l2, 0, 1)
	sym.ObserveStr("edited", strings.Join(l2, ""))
	sym.ObserveStr("compact", strings.Join(slices.Compact(l2), ""))
	sym.ObserveBool("equal", slices.Equal(l, l2))
	l3 := slices.DeleteFunc(slices.Clone(l), func(s string) bool { return s == "a" })
	sym.ObserveStr("kept", strings.Join(l3, ""))
	sym.ObserveStr("concat", strings.Join(slices.Concat(l, l3), ""))
}

// T00_sync: synchronisation of one goroutine.
func T00_sync() {
	var mu sync.RWMutex
	var n atomic.Int64
	var once sync.Once
	var sm sync.Map
	pool := sync.Pool{New: func() interface{} { return new(int) }}
	for i := 0; i < 3; i++ {
		mu.Lock()
		once.Do(func() { n.Add(5) })
		p := pool.Get().(*int)
		*p = i
		pool.Put(p)
		sm.Store(i, i*i)
		mu.Unlock()
		atomic.AddInt64(new(int64), 1)
	}
	v, ok := sm.Load(2)
	sym.ObserveBool("ok", ok)
	sym.ObserveInt("v", v.(int))
	sym.ObserveInt("n", int(n.Load()))
}

// T00_chan: a goroutine that hands over a value.
func T00_chan() {
	c := make(chan int, 2)
	c <- 1
	c <- 2
	close(c)
	s := 0
	for v := range c {
		s += v
	}
	sym.ObserveInt("sum", s)
	d := make(chan string)
	go func() { d <- "x" }()
	sym.ObserveStr("got", <-d)
}
