// drv drives phabrik through its exported API and records what it did, as
// traces that TLC checks against the specifications in /verif/spec.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime/debug"
	"sync"
)

// M is a JSON object
type M = map[string]interface{}

var (
	flagProp = flag.String("prop", "", "property")
	flagSeed = flag.Int64("seed", 1, "seed")
	flagTier = flag.String("tier", "quick", "quick or thorough")
	flagOut  = flag.String("out", "", "trace file")
	flagGen  = flag.String("gen", "", "behaviours generated from the specification")
	flagOnly = flag.Int("only", -1, "only this scenario")
	flagPart = flag.String("part", "0/1", "part of the scenarios")
)

// Out writes traces
type Out struct {
	mu    sync.Mutex
	f     *os.File
	w     *bufio.Writer
	n     int
	evs   int
	cur   []interface{}
	curID interface{}
	seen  map[string]bool
	Stats map[string]int
}

// Put writes one trace, unless an identical one was written
func (o *Out) Put(id interface{}, evs []interface{}) { o.PutM("", id, evs) }

// PutM writes a trace of another specification than the property's first
func (o *Out) PutM(mod string, id interface{}, evs []interface{}) {
	b, err := json.Marshal(evs)
	if err != nil {
		panic(err)
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	o.Stats["scenarios"]++
	if o.seen[mod+string(b)] {
		o.Stats["identical"]++
		return
	}
	o.seen[mod+string(b)] = true
	ib, _ := json.Marshal(id)
	fmt.Fprintf(o.w, `{"m":%q,"id":%s,"evs":%s}`+"\n", mod, ib, b)
	o.w.Flush()
	o.n++
	o.evs += len(evs)
}

// Group collects independent events into traces of some length
type Group struct {
	o    *Out
	name string
	size int
	n    int
	evs  []interface{}
}

func (g *Group) Add(e interface{}) {
	g.evs = append(g.evs, e)
	if len(g.evs) >= g.size {
		g.Flush()
	}
}

func (g *Group) Flush() {
	if len(g.evs) > 0 {
		g.o.Put(fmt.Sprintf("%s/%d", g.name, g.n), g.evs)
		g.n++
		g.evs = nil
	}
}

// Ctx of a driver
type Ctx struct {
	*Out
	Prop     string
	Seed     int64
	Thorough bool
	Gen      string
	Only     int
	Part     int
	Parts    int
}

// Rand makes a source for one purpose
func (c *Ctx) Rand(salt int64) *rand.Rand { return rand.New(rand.NewSource(c.Seed*1000003 + salt)) }

// N scales with the tier
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

var drivers = map[string]func(*Ctx){}

func main() {
	flag.Parse()
	debug.SetMaxStack(512 << 20)
	log.SetOutput(io.Discard)
	d, ok := drivers[*flagProp]
	if !ok {
		fmt.Fprintln(os.Stderr, "no driver for", *flagProp)
		os.Exit(2)
	}
	f, err := os.Create(*flagOut)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	o := &Out{f: f, w: bufio.NewWriter(f), seen: map[string]bool{}, Stats: map[string]int{}}
	c := &Ctx{Out: o, Prop: *flagProp, Seed: *flagSeed, Thorough: *flagTier == "thorough", Gen: *flagGen, Only: *flagOnly}
	fmt.Sscanf(*flagPart, "%d/%d", &c.Part, &c.Parts)
	d(c)
	o.w.Flush()
	o.Stats["traces"] = o.n
	o.Stats["events"] = o.evs
	b, _ := json.Marshal(o.Stats)
	os.WriteFile(*flagOut+".stats", b, 0644)
}
