package driver

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync/atomic"
	"time"

	zserio "github.com/woven-planet/go-zserio"

	"zsverif/zs"
)

// Entry is what generated code of one schema offers.
type Entry struct {
	New    map[string]func() any // by root reference
	Enums  map[string]*EnumEntry
	Consts map[string]any            // by reference
	Items  map[string]map[string]any // bitmask and enum constants by reference and item
}

// EnumEntry has the helpers of an enum.
type EnumEntry struct {
	New     func() any
	Values  func() any
	Strings func() []string
	FromStr func(string) (any, error)
}

var reg = map[string]*Entry{}

// Register is called by the generated registry.
func Register(key string, e *Entry) { reg[key] = e }

type object interface {
	MarshalZserio(zserio.Writer) error
	UnmarshalZserio(zserio.Reader) error
	ZserioBitSize(int) (int, error)
}

// run is the state of one schema being exercised.
type run struct {
	job  *zs.Job
	sc   *zs.SCase
	w    *zs.World
	c    *zs.Codec
	b    *Bridge
	e    *Entry
	out  *output
	root string
	in   *zs.Inst
	idx  int
}

type output struct {
	f     *bufio.Writer
	file  *os.File
	done  zs.Line
	seen  map[uint64]bool
	viols int
	job   *zs.Job
}

func (o *output) write(l *zs.Line) {
	b, err := json.Marshal(l)
	if err != nil {
		panic(err)
	}
	o.f.Write(append(b, '\n'))
	o.f.Flush()
}

func (o *output) stat(k string, n int) { o.done.Stats[k] += n }

// distinct counts a case as non-trivial unless it was seen.
func (o *output) distinct(parts ...any) bool {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			io.WriteString(h, x)
		default:
			fmt.Fprint(h, x)
		}
		h.Write([]byte{0})
	}
	k := h.Sum64()
	if o.seen[k] {
		return false
	}
	o.seen[k] = true
	o.done.Nontriv++
	return true
}

func (r *run) sample(v *zs.Val, b []byte, extra string) {
	o := r.out
	if len(o.done.Samples) >= o.job.Samples {
		return
	}
	m := map[string]any{"schema": r.sc.Key, "type": r.root, "declaration": r.in.D.String(), "value": clip(r.w.Render(r.in, v), 600), "bytes": clip(hex.EncodeToString(b), 400)}
	if extra != "" {
		m["case"] = extra
	}
	o.done.Samples = append(o.done.Samples, m)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// progress is watched for cases that never end.
var progress atomic.Int64
var current atomic.Pointer[string]

// inflight is the message being decoded, and whether the outcome is certain.
var inflight atomic.Pointer[message]

type message struct {
	b    []byte
	sure bool
}

// watch ends the process when a case does not end or uses up the memory.
func watch() {
	last, since := int64(-1), time.Now()
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	end := func(code int, why string) {
		m := inflight.Load()
		if m == nil {
			m = &message{sure: true}
		}
		if !m.sure {
			code = 9
		}
		fmt.Fprintf(os.Stderr, "%s\ninput: %x\n", why, clipB(m.b))
		buf := make([]byte, 1<<16)
		os.Stderr.Write(buf[:runtime.Stack(buf, true)])
		os.Exit(code)
	}
	for {
		time.Sleep(50 * time.Millisecond)
		metrics.Read(heap)
		if n := heap[0].Value.Uint64(); n > 2500<<20 {
			end(8, fmt.Sprintf("%d bytes of memory in use", n))
		}
		if p := progress.Load(); p != last {
			last, since = p, time.Now()
		} else if time.Since(since) > 60*time.Second {
			end(7, "stuck in a case for 60 s")
		}
	}
}

// viol is what a check returns when a property is broken.
type viol struct {
	kind, msg string
	hex       []byte
}

func vf(kind, f string, a ...any) *viol { return &viol{kind: kind, msg: fmt.Sprintf(f, a...)} }

// guard runs fn, turning a panic of the code under test into a violation.
func guard(kind string, fn func() *viol) (v *viol) {
	defer func() {
		if x := recover(); x != nil {
			if be, ok := x.(bridgeErr); ok {
				v = vf(kind, "%s", be.msg)
				return
			}
			v = vf("panic", "panic in %s: %v\n%s", kind, x, stack())
		}
	}()
	return fn()
}

func stack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var s []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i+1], "zserio") || strings.Contains(lines[i+1], "/gen/") {
			s = append(s, strings.TrimSpace(lines[i]), "    "+strings.TrimSpace(lines[i+1]))
		}
		if len(s) > 12 {
			break
		}
	}
	return strings.Join(s, "\n")
}

type check func(r *run, v *zs.Val, rng *zs.Rng) *viol

type mode struct {
	// value checks one value; rng gives the further choices, the same on every call for a case.
	value check
	// schema checks a schema once.
	schema func(r *run) *viol
	// adjust the value generator.
	gen     func(g *zs.VG)
	nonroot bool
}

var modes = map[string]*mode{}

// Main is the driver process.
func Main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: driver JOB OUT")
		os.Exit(3)
	}
	raw, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	job := &zs.Job{}
	if err := json.Unmarshal(raw, job); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	debug.SetMaxStack(256 << 20)
	f, err := os.Create(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	o := &output{f: bufio.NewWriter(f), file: f, seen: map[uint64]bool{}, job: job}
	o.done = zs.Line{T: "done", Stats: map[string]int{}}
	cur, err := os.OpenFile(os.Args[2]+".cur", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	setCur := func(s string) {
		current.Store(&s)
		cur.WriteAt([]byte(fmt.Sprintf("%-200s", s)), 0)
	}
	go watch()
	m := modes[job.Mode]
	if m == nil {
		fmt.Fprintln(os.Stderr, "no mode", job.Mode)
		os.Exit(3)
	}
	for _, sc := range job.Cases {
		runCase(job, m, sc, o, setCur)
	}
	o.write(&o.done)
	o.f.Flush()
	f.Close()
}

func runCase(job *zs.Job, m *mode, sc *zs.SCase, o *output, setCur func(string)) {
	w := zs.NewWorld(sc.Schema)
	b := NewBridge(w)
	r := &run{job: job, sc: sc, w: w, c: b.C, b: b, e: reg[sc.Key], out: o}
	if r.e == nil {
		fmt.Fprintln(os.Stderr, "schema not linked:", sc.Key)
		os.Exit(3)
	}
	o.stat("schemas", 1)
	if m.schema != nil && (sc.OnlyRoot == "" || sc.OnlyRoot == "*") {
		progress.Add(1)
		setCur(fmt.Sprintf("%s * 0", sc.Key))
		if v := guard("schema", func() *viol { return m.schema(r) }); v != nil {
			o.viols++
			o.write(&zs.Line{T: "viol", Key: sc.Key, Root: "*", Kind: v.kind, Msg: v.msg, Hex: hex.EncodeToString(v.hex)})
		}
	}
	if m.value == nil {
		return
	}
	for ri, root := range sc.Schema.Roots {
		if sc.OnlyRoot != "" && sc.OnlyRoot != root {
			continue
		}
		if r.e.New[root] == nil {
			fmt.Fprintln(os.Stderr, "root not linked:", sc.Key, root)
			os.Exit(3)
		}
		r.root, r.in = root, w.Inst(root, nil)
		fails := 0
		for k := 0; k < job.N; k++ {
			if sc.OnlyRoot != "" && sc.OnlyIdx >= 0 && k != sc.OnlyIdx {
				continue
			}
			progress.Add(1)
			setCur(fmt.Sprintf("%s %s %d", sc.Key, root, k))
			r.idx = k
			rng := zs.NewRng(sc.Seed, uint64(ri), uint64(k))
			g := &zs.VG{C: r.c, R: rng, Stat: o.done.Stats, Big: k%8 == 0}
			if m.gen != nil {
				m.gen(g)
			}
			v := g.Root(r.in)
			o.stat("rejected", g.Rejected)
			if v == nil {
				o.stat("novalue", 1)
				if k > 3 {
					break
				}
				continue
			}
			sub := rng.U64()
			test := func(v *zs.Val) *viol {
				progress.Add(1)
				return guard(job.Mode, func() *viol { return m.value(r, v, zs.NewRng(sub)) })
			}
			o.done.Evals++
			bad := test(v)
			if bad == nil {
				continue
			}
			fails++
			if job.Shrink > 0 {
				small := r.c.Shrink(r.in, v, func(x *zs.Val) bool {
					y := test(x)
					return y != nil && (y.kind == "panic") == (bad.kind == "panic") && (y.kind == "harness") == (bad.kind == "harness")
				}, job.Shrink)
				if b2 := test(small); b2 != nil {
					v, bad = small, b2
				}
			}
			o.viols++
			o.write(&zs.Line{T: "viol", Key: sc.Key, Root: root, Idx: k, Kind: bad.kind, Msg: bad.msg, Value: r.w.Render(r.in, v), Hex: hex.EncodeToString(bad.hex)})
			if job.MaxViol > 0 && o.viols >= job.MaxViol {
				o.write(&o.done)
				o.f.Flush()
				os.Exit(0)
			}
			if fails >= 1 {
				break // next root
			}
		}
	}
}

// helpers shared by the modes

func (r *run) obj() object { return r.e.New[r.root]().(object) }

func (r *run) goObj(v *zs.Val, rng *zs.Rng) object {
	o := r.obj()
	r.b.R = rng
	r.b.ToGo(r.in, v, reflect.ValueOf(o).Elem())
	return o
}

func (r *run) back(o object) (*zs.Val, error) {
	return r.b.FromGo(r.in, reflect.ValueOf(o).Elem())
}

func marshal(o object) ([]byte, error) { return zserio.Marshal(o.(zserio.Marshaler)) }

func unmarshal(b []byte, o object) error { return zserio.Unmarshal(b, o.(zserio.Unmarshaler)) }

var errFault = errors.New("injected fault")
