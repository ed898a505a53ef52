package main

// twins.go: a failed transaction leaves nothing behind but its fee.  The chain
// is executed once more with every failed transaction replaced by one that
// pays the same fee and does nothing, and with those left out that were not
// admitted at all: every later state, result and event must be the same,
// including what code keeps in memory between transactions.

import (
	"encoding/hex"
	"fmt"

	abci "github.com/cometbft/cometbft/abci/types"
)

// charged tells whether a transaction got as far as paying its fee.
func charged(r *abci.ExecTxResult) bool { return len(r.Events) > 0 }

func (n *Node) untouched(o *options, rec *traceRec, res *Result) bool {
	var txs [][]byte
	var of []int
	for i, b := range rec.Instead {
		if len(b) > 0 {
			txs = append(txs, b)
			of = append(of, i)
		}
	}
	got, err := n.Block(blockTime(rec.Time), txs)
	if err != nil {
		res.differ(o.prop, rec.Height, []string{fmt.Sprintf("height %d: without its failed transactions the block is not executed: %v", rec.Height, err)})
		return false
	}
	x := digestOf(got, true)
	for k, i := range of {
		if string(rec.Instead[i]) == string(rec.Txs[i]) {
			continue
		}
		res.Cov["untouched.failed_txs_replaced"]++
		if t := got.TxResults[k]; t.Code == 0 || !charged(t) {
			// the gas did not suffice for the replacement
			res.Cov["untouched.given_up"]++
			return false
		}
	}
	res.Cov["untouched.left_out"] += int64(len(rec.Txs) - len(txs))
	var l []string
	for k, i := range of {
		if string(rec.Instead[i]) == string(rec.Txs[i]) && rec.Tx[i] != x.Tx[k] {
			l = append(l, fmt.Sprintf("height %d tx %d: %s, without the failed transactions before it %s", rec.Height, i, rec.Tx[i], x.Tx[k]))
		}
	}
	if rec.App != hex.EncodeToString(got.AppHash) {
		l = append(l, fmt.Sprintf("height %d: state hash %s, without the failed transactions %s", rec.Height, rec.App, x.App))
	}
	if rec.Ev != x.Ev {
		l = append(l, fmt.Sprintf("height %d: other block events without the failed transactions", rec.Height))
	}
	res.differ(o.prop, rec.Height, l)
	res.Cov["untouched.blocks"]++
	res.Cov["checked"] += int64(len(of) + 2)
	res.Cov["distinct"]++
	res.Blocks++
	return len(res.Viol) < 5
}
