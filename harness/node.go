package main

// node.go: a driver for the real KYVE application.  It builds the app exactly
// as `kyved` does (app.New), installs observation points around the ante
// handler, the post handler and every module's begin/end blocker, and then
// feeds it blocks of signed transactions through the ABCI interface.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"time"
	"unsafe"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtProto "github.com/cometbft/cometbft/proto/tendermint/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/client"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"
	signing "github.com/cosmos/cosmos-sdk/types/tx/signing"
	xauthsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	authTypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	bankTypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govTypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	mintTypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	slashingTypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
	stakingTypes "github.com/cosmos/cosmos-sdk/x/staking/types"

	"github.com/KYVENetwork/chain/app"
	globalTypes "github.com/KYVENetwork/chain/x/global/types"
	teamTypes "github.com/KYVENetwork/chain/x/team/types"
)

const (
	ChainID = "kyve-test"
	KYVE    = uint64(1_000_000_000)
)

var Denom = globalTypes.Denom

// Acc is one keyed account of the workload.
type Acc struct {
	Name string
	Priv *secp256k1.PrivKey
	Addr sdk.AccAddress
	Str  string
	Num  uint64
	Seq  uint64
}

func NewAcc(name string) *Acc {
	priv := secp256k1.GenPrivKeyFromSecret([]byte("verif-" + name))
	addr := sdk.AccAddress(priv.PubKey().Address())
	s, err := sdk.Bech32ifyAddressBytes("kyve", addr)
	if err != nil {
		panic(err)
	}
	return &Acc{Name: name, Priv: priv, Addr: addr, Str: s}
}

type emptyOpts struct{}

func (emptyOpts) Get(string) interface{} { return nil }

// Hooks are called synchronously by the running application.
type Hooks interface {
	// BeginModule/EndModule bracket one module's begin or end blocker.
	BeforeModule(ctx sdk.Context, phase, mod string)
	AfterModule(ctx sdk.Context, phase, mod string, evs []abci.Event)
	// BeforeAnte sees the state a transaction starts from.
	BeforeAnte(ctx sdk.Context, tx sdk.Tx, ante sdk.AnteHandler)
	// AfterAnte sees the state after fees and sequence were taken.
	AfterAnte(ctx sdk.Context, tx sdk.Tx, err error)
	// AfterMsgs sees the state after message execution (before the post handler).
	AfterMsgs(ctx sdk.Context, tx sdk.Tx, success bool)
	// AfterPost sees the state after the post handler.
	AfterPost(ctx sdk.Context, tx sdk.Tx, success bool, err error)
}

type Node struct {
	App    *app.App
	DB     dbm.DB
	Hooks  Hooks
	Tracer *tracer
	Twins  map[string][]byte // of each transaction: one that pays the same and does nothing
	Height int64
	Time   time.Time
	vals   []abci.ValidatorUpdate
	cons   sdk.ConsAddress
	txCfg  client.TxConfig
}

func getField[T any](obj interface{}, name string) T {
	v := reflect.ValueOf(obj).Elem().FieldByName(name)
	return *(*T)(unsafe.Pointer(v.UnsafeAddr()))
}

func setPrefixes() {
	c := sdk.GetConfig()
	if c.GetBech32AccountAddrPrefix() == "kyve" {
		return
	}
	c.SetBech32PrefixForAccount("kyve", "kyvepub")
	c.SetBech32PrefixForValidator("kyvevaloper", "kyvevaloperpub")
	c.SetBech32PrefixForConsensusNode("kyvevalcons", "kyvevalconspub")
	c.Seal()
}

// OpenNode builds the application over db and loads the latest version.
func OpenNode(db dbm.DB, h Hooks) *Node {
	setPrefixes()
	n := &Node{DB: db, Hooks: h}
	a, err := app.New(log.NewNopLogger(), db, nil, false, emptyOpts{}, baseapp.SetChainID(ChainID))
	if err != nil {
		panic(err)
	}
	n.App = a
	n.txCfg = getField[client.TxConfig](a, "txConfig")
	base := a.App.BaseApp
	ante := getField[sdk.AnteHandler](base, "anteHandler")
	post := getField[sdk.PostHandler](base, "postHandler")
	a.SetAnteHandler(func(ctx sdk.Context, tx sdk.Tx, sim bool) (sdk.Context, error) {
		obs := n.Hooks != nil && !sim && ctx.ExecMode() == sdk.ExecModeFinalize
		if obs {
			n.Hooks.BeforeAnte(ctx, tx, ante)
		}
		nctx, err := ante(ctx, tx, sim)
		if obs {
			c := nctx
			if c.IsZero() {
				c = ctx
			}
			n.Hooks.AfterAnte(c, tx, err)
		}
		return nctx, err
	})
	a.SetPostHandler(func(ctx sdk.Context, tx sdk.Tx, sim, success bool) (sdk.Context, error) {
		obs := n.Hooks != nil && !sim && ctx.ExecMode() == sdk.ExecModeFinalize
		if obs {
			n.Hooks.AfterMsgs(ctx, tx, success)
		}
		if post == nil {
			if obs {
				n.Hooks.AfterPost(ctx, tx, success, nil)
			}
			return ctx, nil
		}
		nctx, err := post(ctx, tx, sim, success)
		if obs {
			n.Hooks.AfterPost(ctx, tx, success, err)
		}
		return nctx, err
	})
	mm := a.ModuleManager
	a.SetBeginBlocker(func(ctx sdk.Context) (sdk.BeginBlock, error) {
		order := append([]string{}, mm.OrderBeginBlockers...)
		defer func() { mm.OrderBeginBlockers = order }()
		var evs []abci.Event
		for _, name := range order {
			if n.Hooks != nil {
				n.Hooks.BeforeModule(ctx, "begin", name)
			}
			mm.OrderBeginBlockers = []string{name}
			r, err := mm.BeginBlock(ctx)
			if err != nil {
				return sdk.BeginBlock{}, err
			}
			evs = append(evs, r.Events...)
			if n.Hooks != nil {
				n.Hooks.AfterModule(ctx, "begin", name, r.Events)
			}
		}
		return sdk.BeginBlock{Events: evs}, nil
	})
	a.SetEndBlocker(func(ctx sdk.Context) (sdk.EndBlock, error) {
		order := append([]string{}, mm.OrderEndBlockers...)
		defer func() { mm.OrderEndBlockers = order }()
		out := sdk.EndBlock{ValidatorUpdates: []abci.ValidatorUpdate{}}
		for _, name := range order {
			if n.Hooks != nil {
				n.Hooks.BeforeModule(ctx, "end", name)
			}
			mm.OrderEndBlockers = []string{name}
			r, err := mm.EndBlock(ctx)
			if err != nil {
				return sdk.EndBlock{}, err
			}
			out.Events = append(out.Events, r.Events...)
			out.ValidatorUpdates = append(out.ValidatorUpdates, r.ValidatorUpdates...)
			if n.Hooks != nil {
				n.Hooks.AfterModule(ctx, "end", name, r.Events)
			}
		}
		return out, nil
	})
	if err := a.LoadLatestVersion(); err != nil {
		panic(err)
	}
	n.Height = a.LastBlockHeight()
	return n
}

// GenesisOpts describes the initial chain.
type GenesisOpts struct {
	Time       time.Time
	Accounts   []*Acc
	Balance    sdk.Coins // per account
	Validator  *Acc      // operator + sole staking delegator; it decides gov votes
	ValTokens  uint64
	Inflation  string // yearly, e.g. "0.05"; "" = default
	Customize  func(a *app.App, gs map[string]json.RawMessage)
	BlocksYear uint64
	Height     *int64 // initial height, set by Customize
}

var consKey = ed25519.GenPrivKeyFromSecret([]byte("verif-consensus"))

func (n *Node) InitGenesis(o GenesisOpts) {
	a := n.App
	cdc := a.AppCodec()
	gs := a.DefaultGenesis()
	valAddr := sdk.ValAddress(o.Validator.Addr)
	pkAny, _ := codectypes.NewAnyWithValue(consKey.PubKey())
	tokens := math.NewIntFromUint64(o.ValTokens)
	val := stakingTypes.Validator{
		OperatorAddress: valAddr.String(), ConsensusPubkey: pkAny, Status: stakingTypes.Bonded,
		Tokens: tokens, DelegatorShares: math.LegacyNewDecFromInt(tokens),
		UnbondingTime:     time.Unix(0, 0).UTC(),
		Commission:        stakingTypes.NewCommission(math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()),
		MinSelfDelegation: math.OneInt(),
	}
	var accs []authTypes.GenesisAccount
	var bals []bankTypes.Balance
	total := sdk.NewCoins()
	for i, ac := range o.Accounts {
		ac.Num = uint64(i)
		accs = append(accs, authTypes.NewBaseAccount(ac.Addr, nil, uint64(i), 0))
		bals = append(bals, bankTypes.Balance{Address: ac.Str, Coins: o.Balance})
		total = total.Add(o.Balance...)
	}
	gs[authTypes.ModuleName] = cdc.MustMarshalJSON(authTypes.NewGenesisState(authTypes.DefaultParams(), accs))
	bonded := sdk.NewCoins(sdk.NewCoin(Denom, tokens))
	team := sdk.NewCoins(sdk.NewCoin(Denom, math.NewIntFromUint64(teamTypes.TEAM_ALLOCATION)))
	bals = append(bals,
		bankTypes.Balance{Address: authTypes.NewModuleAddress(stakingTypes.BondedPoolName).String(), Coins: bonded},
		bankTypes.Balance{Address: authTypes.NewModuleAddress(teamTypes.ModuleName).String(), Coins: team})
	total = total.Add(bonded...).Add(team...)
	gs[bankTypes.ModuleName] = cdc.MustMarshalJSON(bankTypes.NewGenesisState(bankTypes.DefaultParams(), bals, total, nil, nil))
	sp := stakingTypes.DefaultParams()
	sp.BondDenom = Denom
	gs[stakingTypes.ModuleName] = cdc.MustMarshalJSON(stakingTypes.NewGenesisState(sp, []stakingTypes.Validator{val},
		[]stakingTypes.Delegation{stakingTypes.NewDelegation(o.Validator.Str, valAddr.String(), math.LegacyNewDecFromInt(tokens))}))
	mg := mintTypes.DefaultGenesisState()
	mg.Params.MintDenom = Denom
	if o.Inflation != "" {
		d := math.LegacyMustNewDecFromStr(o.Inflation)
		mg.Minter.Inflation = d
		mg.Params.InflationMax, mg.Params.InflationMin, mg.Params.InflationRateChange = d, d, math.LegacyZeroDec()
	}
	if o.BlocksYear != 0 {
		mg.Params.BlocksPerYear = o.BlocksYear
	}
	gs[mintTypes.ModuleName] = cdc.MustMarshalJSON(mg)
	gg := govv1.DefaultGenesisState()
	one := time.Second
	exp := 500 * time.Millisecond
	gg.Params.VotingPeriod = &one
	gg.Params.ExpeditedVotingPeriod = &exp
	gg.Params.MinDeposit = sdk.NewCoins(sdk.NewInt64Coin(Denom, 1000))
	gg.Params.ExpeditedMinDeposit = sdk.NewCoins(sdk.NewInt64Coin(Denom, 2000))
	gg.Params.Quorum = "0.000000001000000000"
	gs[govTypes.ModuleName] = cdc.MustMarshalJSON(gg)
	cons := sdk.ConsAddress(consKey.PubKey().Address())
	sg := slashingTypes.DefaultGenesisState()
	sg.SigningInfos = []slashingTypes.SigningInfo{{Address: cons.String(), ValidatorSigningInfo: slashingTypes.ValidatorSigningInfo{
		Address: cons.String(), JailedUntil: time.Unix(0, 0).UTC()}}}
	gs[slashingTypes.ModuleName] = cdc.MustMarshalJSON(sg)
	if o.Customize != nil {
		o.Customize(a, gs)
	}
	bz, err := json.Marshal(gs)
	if err != nil {
		panic(err)
	}
	h := int64(1)
	if o.Height != nil {
		h = *o.Height
	}
	n.InitChainRaw(bz, o.Time, h)
}

func DefaultConsensusParams() *cmtProto.ConsensusParams {
	return app.DefaultConsensusParams
}

func (n *Node) InitChainRaw(appState []byte, t time.Time, initialHeight int64) {
	_, err := n.App.InitChain(&abci.RequestInitChain{
		ChainId: ChainID, ConsensusParams: DefaultConsensusParams(),
		Validators: []abci.ValidatorUpdate{}, AppStateBytes: appState, Time: t, InitialHeight: initialHeight,
	})
	if err != nil {
		panic(fmt.Sprintf("InitChain: %v", err))
	}
	if n.Tracer != nil {
		n.Tracer.write(&traceRec{Height: initialHeight - 1, Time: t.Unix(), Genesis: appState, Seed: n.Tracer.seed, Profile: n.Tracer.profile})
	}
	n.Time = t
	n.Height = initialHeight - 1
	n.cons = sdk.ConsAddress(consKey.PubKey().Address())
}

// BlockReq builds the FinalizeBlock request for the next height.
func (n *Node) BlockReq(t time.Time, txs [][]byte) *abci.RequestFinalizeBlock {
	cons := sdk.ConsAddress(consKey.PubKey().Address())
	return &abci.RequestFinalizeBlock{
		Height: n.Height + 1, Time: t, Txs: txs, ProposerAddress: cons,
		DecidedLastCommit: abci.CommitInfo{Votes: []abci.VoteInfo{{
			Validator:   abci.Validator{Address: cons, Power: 1000},
			BlockIdFlag: cmtProto.BlockIDFlagCommit,
		}}},
		Hash: []byte(fmt.Sprintf("%032d", n.Height+1)),
	}
}

// Block executes and commits one block.
func (n *Node) Block(t time.Time, txs [][]byte) (*abci.ResponseFinalizeBlock, error) {
	res, err := n.App.FinalizeBlock(n.BlockReq(t, txs))
	if err != nil {
		return nil, err
	}
	if _, err := n.App.Commit(); err != nil {
		return nil, err
	}
	n.Height++
	n.Time = t
	if n.Tracer != nil {
		rec := &traceRec{Height: n.Height, Time: t.Unix(), Txs: txs, blockOut: digestOf(res, true)}
		if n.Twins != nil {
			for i, r := range res.TxResults {
				b := []byte{}
				switch {
				case r.Code == 0:
					b = txs[i]
				case charged(r):
					b = n.Twins[string(txs[i])]
				}
				rec.Instead = append(rec.Instead, b)
				delete(n.Twins, string(txs[i]))
			}
		}
		n.Tracer.write(rec)
	}
	return res, nil
}

// Ctx returns a read-only context over the last committed state.
func (n *Node) Ctx() sdk.Context {
	return n.App.BaseApp.NewUncachedContext(false, cmtProto.Header{Height: n.Height, ChainID: ChainID, Time: n.Time})
}

// TxSpec describes a transaction to sign.
type TxSpec struct {
	Signer  *Acc
	Msgs    []sdk.Msg
	Gas     uint64
	Fee     sdk.Coins
	Payer   sdk.AccAddress
	Granter sdk.AccAddress
	BadSeq  bool
}

// Sign produces the bytes of a signed transaction using the signer's tracked sequence.
func (n *Node) Sign(t TxSpec) []byte {
	cfg := n.txCfg
	b := cfg.NewTxBuilder()
	if err := b.SetMsgs(t.Msgs...); err != nil {
		panic(err)
	}
	gas := t.Gas
	if gas == 0 {
		gas = 20_000_000
	}
	b.SetGasLimit(gas)
	b.SetFeeAmount(t.Fee)
	if t.Granter != nil {
		b.SetFeeGranter(t.Granter)
	}
	seq := t.Signer.Seq
	if t.BadSeq {
		seq += 7
	}
	sigData := signing.SingleSignatureData{SignMode: signing.SignMode_SIGN_MODE_DIRECT}
	sig := signing.SignatureV2{PubKey: t.Signer.Priv.PubKey(), Data: &sigData, Sequence: seq}
	if err := b.SetSignatures(sig); err != nil {
		panic(err)
	}
	sd := xauthsigning.SignerData{ChainID: ChainID, AccountNumber: t.Signer.Num, Sequence: seq, PubKey: t.Signer.Priv.PubKey(), Address: t.Signer.Str}
	bz, err := xauthsigning.GetSignBytesAdapter(n.Ctx(), cfg.SignModeHandler(), signing.SignMode_SIGN_MODE_DIRECT, sd, b.GetTx())
	if err != nil {
		panic(err)
	}
	s, err := t.Signer.Priv.Sign(bz)
	if err != nil {
		panic(err)
	}
	sigData.Signature = s
	sig.Data = &sigData
	if err := b.SetSignatures(sig); err != nil {
		panic(err)
	}
	out, err := cfg.TxEncoder()(b.GetTx())
	if err != nil {
		panic(err)
	}
	return out
}

var _ = module.NewManager
