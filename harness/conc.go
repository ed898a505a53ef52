package main

// conc.go: readers and simulations next to block processing.

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/types/query"
)

type concReq struct {
	name, path string
	data       []byte
}

type concSeen struct {
	i   int
	ans string
}

func (n *Node) askText(c concReq) string {
	a := n.ask(c.path, c.data)
	if a.code != 0 {
		return fmt.Sprintf("refused %d/%s", a.code, a.space)
	}
	return string(a.raw)
}

// concRequests samples requests about the committed state.
func (n *Node) concRequests(height int64, max int) (l []concReq) {
	s := NewReader(n.App).Read(n.Ctx(), true)
	r := rand.New(rand.NewSource(height*104729 + 3))
	q := &Q{n: n, s: s, r: r, fail: func(string) {}, hit: func(string) {}}
	for _, c := range q.singles(2) {
		l = append(l, concReq{c.name + " " + c.req.String(), c.path, enc(c.req)})
	}
	for _, c := range q.lists(2) {
		req := c.req(&query.PageRequest{Limit: uint64(1 + r.Intn(200)), Reverse: r.Intn(4) == 0})
		l = append(l, concReq{c.name, c.path, enc(req)})
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	if len(l) > max {
		l = l[:max]
	}
	return
}

// judged names the queries whose answers come from the versioned stores alone.
// The block time and the in-memory indices change at another moment of the
// commit than the stores do, which is how the SDK works.
var judged = []string{"AccountAssets", "AccountFundedList", "Delegator", "DelegatorsByStaker", "FinalizedBundle", "Funder", "Funders", "FundingsByFunder",
	"FundingsByPool", "Params", "StakersByDelegator", "bundles", "delegation", "funders", "global", "pool", "stakers"}

func isJudged(name string) bool {
	for _, j := range judged {
		if strings.HasPrefix(name, j) && (len(name) == len(j) || !isLetter(name[len(j)])) {
			return true
		}
	}
	return false
}

func isLetter(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }

func modeConc(o *options, res *Result) {
	runtime.GOMAXPROCS(o.conc + 1)
	recs := readTrace(o.trace)
	// Without the fast node index: in the IAVL version the SDK uses, a reader
	// between the removal of a key and the end of the commit puts the removed
	// key back into the shared cache.  That is not this repository's code, and
	// it would hide what is.
	n := OpenPlain(openDB(o.db), baseapp.SetIAVLDisableFastNode(true))
	// A process that continues an existing chain has nothing in memory yet: then
	// everybody's first requests come while its first block is executed.
	resumed := n.Height > 0
	if !resumed {
		n.InitChainRaw(recs[0].Genesis, blockTime(recs[0].Time), recs[0].Height+1)
	}
	var abciMu sync.Mutex // CometBFT's local client serialises the ABCI calls
	for bi, rec := range recs[1:] {
		if rec.Height <= n.Height {
			continue
		}
		if o.to > 0 && rec.Height > o.to {
			break
		}
		if bi == 0 {
			_, err := n.Block(blockTime(rec.Time), rec.Txs)
			must(err)
			continue
		}
		reqs := n.concRequests(n.Height, o.width)
		// Half of the requests are not asked beforehand: whatever the code keeps
		// after the first request must be safe when that comes during a block.
		before := make([]string, len(reqs))
		cold := make([]bool, len(reqs))
		for i, c := range reqs {
			if cold[i] = resumed || (rec.Height+int64(i))%2 == 0; !cold[i] {
				before[i] = n.askText(c)
			}
		}
		h0 := n.Height
		var stop atomic.Bool
		var wg sync.WaitGroup
		var sims, checks atomic.Int64
		seen := make([][]concSeen, o.conc)
		for w := 0; w < o.conc; w++ {
			w, r := w, rand.New(rand.NewSource(rec.Height*131+int64(w)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 4 || !stop.Load(); k++ {
					if k > 3000 {
						break
					}
					if len(rec.Txs) > 0 && w == 0 && k%4 == 1 {
						tx := rec.Txs[r.Intn(len(rec.Txs))]
						abciMu.Lock()
						_, _ = n.App.CheckTx(&abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType_New})
						abciMu.Unlock()
						checks.Add(1)
					}
					if o.sims && len(rec.Txs) > 0 && w == 1 && k%4 == 1 {
						func() {
							defer func() { _ = recover() }()
							_, _, _ = n.App.Simulate(rec.Txs[r.Intn(len(rec.Txs))])
						}()
						sims.Add(1)
					}
					i := r.Intn(len(reqs))
					seen[w] = append(seen[w], concSeen{i, n.askText(reqs[i])})
				}
			}()
		}
		abciMu.Lock()
		got, err := n.App.FinalizeBlock(n.BlockReq(blockTime(rec.Time), rec.Txs))
		must(err)
		abciMu.Unlock()
		abciMu.Lock()
		_, err = n.App.Commit()
		must(err)
		abciMu.Unlock()
		n.Height++
		n.Time = blockTime(rec.Time)
		stop.Store(true)
		wg.Wait()
		x := digestOf(got, true)
		res.differ(o.prop, rec.Height, compareBlock(rec.Height, rec.blockOut, x, true))
		var bad []string
		kinds := map[string]bool{}
		after := map[int]string{}
		total, mid, judgedN, coldN := 0, 0, 0, 0
		for _, l := range seen {
			for _, e := range l {
				total++
				if cold[e.i] {
					coldN++
					continue
				}
				if !isJudged(reqs[e.i].name) {
					continue
				}
				judgedN++
				kinds[strings.FieldsFunc(reqs[e.i].name, func(r rune) bool { return r == ' ' || r == '(' })[0]] = true
				if e.ans == before[e.i] {
					continue
				}
				a, ok := after[e.i]
				if !ok {
					a = n.askText(reqs[e.i])
					after[e.i] = a
				}
				mid++
				if e.ans != a {
					bad = append(bad, fmt.Sprintf("while block %d was executed, %s was answered neither as at height %d nor as at height %d", rec.Height, reqs[e.i].name, h0, n.Height))
				}
			}
		}
		res.differ(o.prop, rec.Height, bad)
		res.Cov["conc.queries"] += int64(total)
		res.Cov["conc.answers_of_the_new_state"] += int64(mid)
		for k := range kinds {
			res.Cov["conc.judged."+k]++
		}
		res.Cov["conc.judged_answers"] += int64(judgedN)
		res.Cov["conc.cold_queries"] += int64(coldN)
		if resumed {
			res.Cov["conc.blocks_after_a_cold_start"]++
		}
		res.Cov["conc.simulations"] += sims.Load()
		res.Cov["conc.checktx"] += checks.Load()
		res.Cov["checked"] += int64(total)
		res.Cov["distinct"]++
		res.Blocks++
	}
}
