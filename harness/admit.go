package main

// admit.go: what the node lets into its mempool.  Every transaction of a block
// is offered before the block is executed, while the operator of the node asks
// for a minimum price of their own.

import (
	"fmt"
	"math/rand"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/baseapp"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

func (m *Mon) mempool() {
	if m.Cur == nil || m.C.N["blocks"] < 3 {
		return
	}
	r := rand.New(rand.NewSource(m.Cur.Height*31 + int64(len(m.txs))))
	// The price set now is the one in force after the next commit.
	own := m.ownPrice
	if m.ownOf != m.N.App {
		own = nil
	}
	next := sdk.DecCoins{}
	kyve := sdk.NewDecCoinFromDec(Denom, math.LegacyNewDecWithPrec(1+r.Int63n(300), 3))
	acoin := sdk.NewDecCoinFromDec("acoin", math.LegacyNewDecWithPrec(1+r.Int63n(30), 7))
	switch r.Intn(4) {
	case 0:
	case 1:
		next = sdk.NewDecCoins(kyve)
	case 2:
		next = sdk.NewDecCoins(acoin)
	default:
		next = sdk.NewDecCoins(kyve, acoin)
	}
	baseapp.SetMinGasPrices(next.String())(m.N.App.App.BaseApp)
	m.ownPrice, m.ownOf = next, m.N.App
	for _, t := range m.txs {
		gas := math.LegacyNewDecFromInt(math.NewIntFromUint64(t.meta.Gas))
		need := map[string]math.Int{}
		raise := func(dn string, price math.LegacyDec) {
			if x := price.Mul(gas).Ceil().TruncateInt(); x.IsPositive() && (need[dn].IsNil() || x.GT(need[dn])) {
				need[dn] = x
			}
		}
		raise(Denom, m.Cur.GloParams.MinGasPrice)
		for _, c := range own {
			raise(c.Denom, c.Amount)
		}
		pays := len(need) == 0
		for _, c := range t.meta.Fee {
			if n, ok := need[c.Denom]; ok && c.Amount.GTE(n) {
				pays = true
			}
		}
		res, err := m.N.App.CheckTx(&abci.RequestCheckTx{Tx: t.bytes, Type: abci.CheckTxType_New})
		if err != nil {
			m.report(t.label(), []string{"P25", "P33"}, "the mempool check fails: "+err.Error())
			continue
		}
		m.C.Hit(fmt.Sprintf("admission.%v", map[bool]string{true: "admitted", false: "refused"}[res.Code == 0]))
		short := res.Codespace == "sdk" && res.Code == 13
		switch {
		case res.Code == 0 && !pays:
			m.report(t.label(), []string{"P25"}, fmt.Sprintf("the mempool admits a fee of %s for %d gas at a minimum of %s and %s", t.meta.Fee, t.meta.Gas, m.Cur.GloParams.MinGasPrice, own))
		case short && pays:
			m.report(t.label(), []string{"P25"}, fmt.Sprintf("the mempool refuses a fee of %s for %d gas at a minimum of %s and %s", t.meta.Fee, t.meta.Gas, m.Cur.GloParams.MinGasPrice, own))
		case short:
			m.C.Hit("admission.fee_too_low")
		case res.Code == 0 && len(own) > 0:
			m.C.Hit("admission.pays_the_operators_price")
		}
	}
}
