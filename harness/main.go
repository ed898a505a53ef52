package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
)

// Result is what one child process reports.
type Result struct {
	Case   string           `json:"case"`
	Cov    map[string]int64 `json:"cov"`
	Viol   []Violation      `json:"viol"`
	States []string         `json:"states"`
	Blocks int64            `json:"blocks"`
	Crash  string           `json:"crash,omitempty"`
}

type options struct {
	profile        string
	seed           int64
	blocks         int
	deep           bool
	queries        bool
	predict        bool
	trace          string
	db             string
	from, to, step int64
	crash          string
	conc           int
	out            string
	plain          bool
	every          int
	genesis        string
	ref            string
	width          int
	sims           bool
	exports        string
	exportDir      string
	prop           string
	busy, vary     bool
	twins          bool
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: zz MODE flags")
		os.Exit(2)
	}
	var o options
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	fs.StringVar(&o.profile, "profile", "mix", "workload profile")
	fs.Int64Var(&o.seed, "seed", 1, "")
	fs.IntVar(&o.blocks, "blocks", 100, "")
	fs.BoolVar(&o.deep, "deep", false, "compare all raw stores around failing transactions")
	fs.BoolVar(&o.queries, "queries", false, "check queries against the state")
	fs.BoolVar(&o.predict, "predict", false, "check predictions against trial executions")
	fs.StringVar(&o.trace, "trace", "", "trace file to write or to replay")
	fs.StringVar(&o.db, "db", "", "database directory (default: in memory)")
	fs.Int64Var(&o.from, "from", 0, "")
	fs.Int64Var(&o.to, "to", 0, "")
	fs.StringVar(&o.crash, "crash", "", "where to stop: '', 'finalize', 'init'")
	fs.IntVar(&o.conc, "conc", 0, "concurrent query workers")
	fs.StringVar(&o.out, "out", "", "file for results")
	fs.BoolVar(&o.plain, "plain", false, "no observation points")
	fs.IntVar(&o.every, "every", 0, "query dump every n blocks")
	fs.StringVar(&o.genesis, "genesis", "", "exported genesis file")
	fs.StringVar(&o.ref, "ref", "", "results to compare with (default: those of the trace)")
	fs.StringVar(&o.prop, "prop", "P27", "property the comparison decides")
	fs.StringVar(&o.exports, "exports", "", "heights at which the state is exported")
	fs.StringVar(&o.exportDir, "exportdir", ".", "")
	fs.IntVar(&o.width, "width", 24, "requests asked about each state")
	fs.BoolVar(&o.sims, "sims", false, "also simulate concurrently")
	fs.BoolVar(&o.twins, "twins", false, "record, or replay, the chain with failed transactions replaced by ones that only pay")
	fs.BoolVar(&o.busy, "busy", false, "also check, simulate and query between blocks")
	fs.BoolVar(&o.vary, "vary", false, "other node-local settings")
	fs.Parse(os.Args[2:])
	res := &Result{Case: strings.Join(os.Args[1:], " "), Cov: map[string]int64{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				res.Crash = fmt.Sprintf("%v\n%s", r, debug.Stack())
				if len(res.Crash) > 6000 {
					res.Crash = res.Crash[:6000]
				}
			}
		}()
		f, ok := modes[os.Args[1]]
		if !ok {
			fmt.Println("unknown mode")
			os.Exit(2)
		}
		f(&o, res)
	}()
	if err := json.NewEncoder(os.Stdout).Encode(res); err != nil {
		panic(err)
	}
}

var modes map[string]func(o *options, res *Result)

func init() {
	modes = map[string]func(o *options, res *Result){
		"run":     modeRun,
		"replay":  modeReplay,
		"import":  modeImport,
		"conc":    modeConc,
		"upgrade": modeUpgrade,
	}
}

func modeRun(o *options, res *Result) {
	runtime.GOMAXPROCS(2)
	g := NewGen(o.seed, o.profile)
	n := OpenNode(dbm.NewMemDB(), nil)
	c := NewCov()
	res.Cov = c.N
	m := NewMon(n, c)
	m.Deep = o.deep
	m.Queries = o.queries
	g.n, g.m = n, m
	defer func() {
		res.Viol, res.Blocks = m.Viol, n.Height-g.height+1
		for h := range m.states {
			res.States = append(res.States, fmt.Sprintf("%x", h))
		}
		sort.Strings(res.States)
	}()
	if o.queries || o.predict {
		qr := rand.New(rand.NewSource(o.seed + 77))
		every := o.every
		if every == 0 {
			every = 4
		}
		m.onBlock = func(*abci.ResponseFinalizeBlock) {
			if n.Height%int64(every) != 0 || len(m.Viol) >= m.Max {
				return
			}
			if o.queries {
				m.queries(qr, 3, 12, qr.Intn(8) == 0)
			}
			if o.predict {
				m.predictions(qr, 6)
			}
		}
	}
	if o.twins {
		n.Twins = map[string][]byte{}
	}
	if o.trace != "" {
		t := newTracer(o.trace, o.seed, o.profile)
		n.Tracer = t
		defer t.close()
	}
	n.InitGenesis(g.genesis())
	g.Setup()
	g.Run(o.blocks)
}
