package main

// replay.go: executing a recorded chain again, in another process and under
// other conditions, and comparing what it reports.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"

	"cosmossdk.io/log"
	pruningtypes "cosmossdk.io/store/pruning/types"
	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/client"

	"github.com/KYVENetwork/chain/app"
	teamTypes "github.com/KYVENetwork/chain/x/team/types"
)

// OpenPlain builds the application without any observation points, the way
// kyved does.
func OpenPlain(db dbm.DB, opts ...func(*baseapp.BaseApp)) *Node {
	setPrefixes()
	setTeam()
	opts = append([]func(*baseapp.BaseApp){baseapp.SetChainID(ChainID)}, opts...)
	a, err := app.New(log.NewNopLogger(), db, nil, true, emptyOpts{}, opts...)
	if err != nil {
		panic(err)
	}
	n := &Node{App: a, DB: db}
	n.txCfg = getField[client.TxConfig](a, "txConfig")
	n.Height = a.LastBlockHeight()
	return n
}

// setTeam points the team module to accounts the workload has keys for.
func setTeam() {
	teamTypes.FOUNDATION_ADDRESS = NewAcc("foundation").Str
	teamTypes.BCP_ADDRESS = NewAcc("bcp").Str
}

func openDB(dir string) dbm.DB {
	if dir == "" {
		return dbm.NewMemDB()
	}
	db, err := dbm.NewDB("app", dbm.GoLevelDBBackend, dir)
	must(err)
	return db
}

// report of a replay
func (res *Result) differ(prop string, h int64, l []string) {
	if len(l) == 0 {
		return
	}
	if len(l) > 8 {
		l = l[:8]
	}
	if len(res.Viol) < 10 {
		res.Viol = append(res.Viol, Violation{Props: []string{prop}, Height: h, Step: "replay " + prop, Msgs: l})
	}
}

// digests queries the committed state; the questions depend on the state and
// the height only.
func (n *Node) digests(height int64, k int) ([]string, []string) {
	s := NewReader(n.App).Read(n.Ctx(), true)
	q := &Q{n: n, s: s, r: rand.New(rand.NewSource(height*7919 + 5)), fail: func(string) {}, hit: func(string) {}}
	return q.digest(k)
}

func compareQueries(h int64, a, b blockOut) (l []string) {
	if len(a.Q) == 0 || len(b.Q) == 0 {
		return
	}
	if len(a.Q) != len(b.Q) {
		return []string{fmt.Sprintf("height %d: %d vs %d queries could be asked", h, len(a.Q), len(b.Q))}
	}
	for i := range a.Q {
		if a.Qs[i] != b.Qs[i] {
			l = append(l, fmt.Sprintf("height %d: query %s vs %s", h, a.Qs[i], b.Qs[i]))
		} else if a.Q[i] != b.Q[i] {
			l = append(l, fmt.Sprintf("height %d: %s answers %s vs %s", h, a.Qs[i], a.Q[i], b.Q[i]))
		}
	}
	return
}

// busy does what a node does next to executing blocks.
func (n *Node) busy(r *rand.Rand, rec *traceRec, res *Result) {
	req := n.BlockReq(blockTime(rec.Time), rec.Txs)
	if p, err := n.App.PrepareProposal(&abci.RequestPrepareProposal{MaxTxBytes: 1 << 20, Txs: rec.Txs, Height: req.Height, Time: req.Time, ProposerAddress: req.ProposerAddress}); err == nil {
		res.Cov["busy.proposals_prepared"]++
		_ = p
	}
	if _, err := n.App.ProcessProposal(&abci.RequestProcessProposal{Txs: rec.Txs, Height: req.Height, Time: req.Time, ProposerAddress: req.ProposerAddress, Hash: req.Hash}); err == nil {
		res.Cov["busy.proposals_processed"]++
	}
	for _, tx := range rec.Txs {
		if r.Intn(2) == 0 {
			_, _ = n.App.CheckTx(&abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType_New})
			res.Cov["busy.checktx"]++
		}
		if r.Intn(2) == 0 {
			func() {
				defer func() { _ = recover() }()
				_, _, _ = n.App.Simulate(tx)
				res.Cov["busy.simulated"]++
			}()
		}
	}
	if r.Intn(3) == 0 {
		n.digests(n.Height+1000, 2)
		res.Cov["busy.queried"]++
	}
}

func modeReplay(o *options, res *Result) {
	recs := readTrace(o.trace)
	ref := map[int64]*traceRec{}
	if o.ref != "" {
		for _, r := range readTrace(o.ref) {
			ref[r.Height] = r
		}
	} else {
		for _, r := range recs {
			ref[r.Height] = r
		}
	}
	var opts []func(*baseapp.BaseApp)
	r := rand.New(rand.NewSource(o.seed*31 + 7))
	if o.vary {
		// node-local settings which must not matter
		opts = append(opts, baseapp.SetIAVLCacheSize(10), baseapp.SetIAVLDisableFastNode(true),
			baseapp.SetMinGasPrices("3tkyve"), baseapp.SetQueryGasLimit(50_000_000),
			baseapp.SetPruning(pruningtypes.NewPruningOptions(pruningtypes.PruningEverything)))
		runtime.GOMAXPROCS(1)
	}
	n := OpenPlain(openDB(o.db), opts...)
	gen := recs[0]
	initial := gen.Height + 1
	if n.Height == 0 {
		n.InitChainRaw(gen.Genesis, blockTime(gen.Time), initial)
		if o.crash == "init" {
			res.Cov["restart.after_genesis"]++
			return
		}
	}
	if o.to == 0 {
		o.to = recs[len(recs)-1].Height
	}
	var out *tracer
	if o.out != "" {
		f, err := os.OpenFile(o.out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		must(err)
		out = wrapTracer(f)
		defer out.close()
	}
	exports := parseHeights(o.exports)
	var stop chan struct{}
	var wg sync.WaitGroup
	defer func() {
		if stop != nil {
			close(stop)
			wg.Wait()
		}
	}()
	for _, rec := range recs[1:] {
		if rec.Height <= n.Height {
			continue
		}
		if rec.Height > o.to {
			if o.crash == "finalize" {
				_, err := n.App.FinalizeBlock(n.BlockReq(blockTime(rec.Time), rec.Txs))
				must(err)
				res.Cov["restart.before_commit"]++
			}
			break
		}
		if o.busy {
			n.busy(r, rec, res)
		}
		if o.twins {
			if !n.untouched(o, rec, res) {
				return
			}
			continue
		}
		got, err := n.Block(blockTime(rec.Time), rec.Txs)
		if err != nil {
			res.differ(o.prop, rec.Height, []string{fmt.Sprintf("height %d: block is not executed: %v", rec.Height, err)})
			return
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			for i, t := range got.TxResults {
				if t.Code != 0 {
					fmt.Fprintf(os.Stderr, "height %d tx %d: %s\n", rec.Height, i, t.Log)
				}
			}
		}
		x := digestOf(got, true)
		if o.every > 0 && rec.Height%int64(o.every) == 0 {
			x.Qs, x.Q = n.digests(rec.Height, 3)
			res.Cov["replay.queries"] += int64(len(x.Q))
		}
		if out != nil {
			out.write(&traceRec{Height: rec.Height, blockOut: x})
		}
		if exports[rec.Height] {
			writeExport(o.exportDir, n.export())
			res.Cov["export.written"]++
		}
		want := ref[rec.Height]
		if want != nil {
			l := compareBlock(rec.Height, want.blockOut, x, true)
			l = append(l, compareQueries(rec.Height, want.blockOut, x)...)
			res.differ(o.prop, rec.Height, l)
			res.Cov["checked"] += int64(len(x.Tx) + 2)
			if len(want.Q) > 0 {
				res.Cov["checked"] += int64(len(x.Q))
				res.Cov["replay.queries_compared"] += int64(len(x.Q))
			}
			res.Cov["replay.blocks_compared"]++
			res.Cov["replay.txs_compared"] += int64(len(x.Tx))
			res.Cov["distinct"]++
		}
		res.Blocks++
		if len(res.Viol) >= 5 {
			return
		}
	}
	if o.crash == "" && o.db != "" {
		must(n.App.Close())
		_ = n.DB.Close()
	}
}

var _ = json.Marshal
