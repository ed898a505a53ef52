package main

// genesis.go: exporting a chain and continuing from the export.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"cosmossdk.io/core/appmodule"
	cmtProto "github.com/cometbft/cometbft/proto/tendermint/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"

	"github.com/KYVENetwork/chain/app"
)

type exported struct {
	Height int64           `json:"height"`
	Time   int64           `json:"time"`
	State  json.RawMessage `json:"state"`
	Params []byte          `json:"params"`
}

func (n *Node) export() *exported {
	e, err := n.App.ExportAppStateAndValidators(false, nil, nil)
	must(err)
	p, err := e.ConsensusParams.Marshal()
	must(err)
	return &exported{Height: e.Height - 1, Time: n.Time.Unix(), State: e.AppState, Params: p}
}

// finalizeCtx is the context over the not yet committed state of InitChain.
func finalizeCtx(a *app.App) sdk.Context {
	v := reflect.ValueOf(a.App.BaseApp).Elem().FieldByName("finalizeBlockState").Elem().FieldByName("ctx")
	return *(*sdk.Context)(unsafe.Pointer(v.UnsafeAddr()))
}

func basics(a *app.App) module.BasicManager {
	b := module.BasicManager{}
	for name, m := range a.ModuleManager.Modules {
		if x, ok := m.(appmodule.AppModule); ok {
			b[name] = module.CoreAppModuleBasicAdaptor(name, x)
		}
	}
	return b
}

func sections(raw json.RawMessage) map[string]json.RawMessage {
	m := map[string]json.RawMessage{}
	must(json.Unmarshal(raw, &m))
	return m
}

func compact(r json.RawMessage) []byte {
	var b bytes.Buffer
	if len(r) == 0 {
		return nil
	}
	must(json.Compact(&b, r))
	return b.Bytes()
}

// where names the first place in which two documents differ.
func where(a, b interface{}, path string) string {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok {
			break
		}
		ks := map[string]bool{}
		for k := range x {
			ks[k] = true
		}
		for k := range y {
			ks[k] = true
		}
		var l []string
		for k := range ks {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			if d := where(x[k], y[k], path+"."+k); d != "" {
				return d
			}
		}
		return ""
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok {
			break
		}
		for i := 0; i < len(x) && i < len(y); i++ {
			if d := where(x[i], y[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		if len(x) != len(y) {
			return fmt.Sprintf("%s has %d entries vs %d", path, len(x), len(y))
		}
		return ""
	}
	if reflect.DeepEqual(a, b) {
		return ""
	}
	return fmt.Sprintf("%s is %.200v vs %.200v", path, a, b)
}

// exportDiff compares two exported application states section by section.
func exportDiff(what string, a, b json.RawMessage) (l []string) {
	x, y := sections(a), sections(b)
	var names []string
	for k := range mergeKeys2(x, y) {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if k == "ibc" {
			continue // the localhost client follows the height
		}
		if !bytes.Equal(compact(x[k]), compact(y[k])) {
			var p, q interface{}
			_ = json.Unmarshal(x[k], &p)
			_ = json.Unmarshal(y[k], &q)
			d := where(p, q, k)
			if d == "" {
				continue
			}
			l = append(l, what+": "+d)
		}
	}
	return
}

func mergeKeys2(a, b map[string]json.RawMessage) map[string]bool {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return m
}

func parseHeights(s string) map[int64]bool {
	m := map[int64]bool{}
	for _, x := range strings.Split(s, ",") {
		if h, err := strconv.ParseInt(x, 10, 64); err == nil {
			m[h] = true
		}
	}
	return m
}

func exportFile(dir string, h int64) string {
	return filepath.Join(dir, fmt.Sprintf("export-%d.json", h))
}

func writeExport(dir string, e *exported) {
	b, err := json.Marshal(e)
	must(err)
	must(os.WriteFile(exportFile(dir, e.Height), b, 0o644))
}

func readExport(path string) *exported {
	b, err := os.ReadFile(path)
	must(err)
	e := &exported{}
	must(json.Unmarshal(b, e))
	return e
}

// modeImport starts a chain from an exported state and continues it with the
// blocks which followed on the original chain.
func modeImport(o *options, res *Result) {
	e := readExport(exportFile(o.exportDir, o.from))
	recs := readTrace(o.trace)
	ref := map[int64]*traceRec{}
	for _, r := range readTrace(o.ref) {
		ref[r.Height] = r
	}
	n := OpenPlain(openDB(o.db))
	a := n.App

	// its own validation accepts it
	secs := sections(e.State)
	for name, b := range basics(a) {
		g, ok := b.(module.HasGenesisBasics)
		// ibc-go refuses its own localhost connection; that is not KYVE's
		if !ok || secs[name] == nil || name == "ibc" {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					res.differ(o.prop, e.Height, []string{fmt.Sprintf("validation of the exported %s state panics: %v", name, r)})
				}
			}()
			if err := g.ValidateGenesis(a.AppCodec(), n.txCfg, secs[name]); err != nil {
				res.differ(o.prop, e.Height, []string{fmt.Sprintf("the exported %s state is not valid: %v", name, err)})
			}
		}()
		res.Cov["import.sections_validated"]++
		res.Cov["checked"]++
	}

	// it can be imported
	func() {
		defer func() {
			if r := recover(); r != nil {
				res.differ(o.prop, e.Height, []string{fmt.Sprintf("the exported state can not be imported: %v", r)})
			}
		}()
		n.InitChainRaw(e.State, blockTime(e.Time), e.Height+1)
	}()
	if len(res.Viol) > 0 {
		return
	}
	res.Cov["import.imported"]++

	// it exports again identically
	ctx := finalizeCtx(a).WithBlockHeight(e.Height)
	g, err := a.ModuleManager.ExportGenesisForModules(ctx, a.AppCodec(), nil)
	must(err)
	again, err := json.Marshal(g)
	must(err)
	l := exportDiff(fmt.Sprintf("exported at height %d, imported and exported again", e.Height), e.State, again)
	res.differ(o.prop, e.Height, l)
	res.Cov["import.sections_compared"] += int64(len(g))
	res.Cov["checked"] += int64(len(g))

	// and it goes on like the original
	heights := parseHeights(o.exports)
	for _, rec := range recs[1:] {
		if rec.Height <= e.Height || o.to > 0 && rec.Height > o.to {
			continue
		}
		got, err := n.Block(blockTime(rec.Time), rec.Txs)
		if err != nil {
			res.differ(o.prop, rec.Height, []string{fmt.Sprintf("height %d: block is not executed by the imported chain: %v", rec.Height, err)})
			return
		}
		x := digestOf(got, false)
		want := ref[rec.Height]
		if o.every > 0 && rec.Height%int64(o.every) == 0 && len(want.Q) > 0 {
			x.Qs, x.Q = n.digests(rec.Height, 3)
			res.Cov["replay.queries_compared"] += int64(len(x.Q))
		}
		w := want.blockOut
		w.Tx = nil
		for _, t := range want.Tx {
			w.Tx = append(w.Tx, strings.SplitN(t, " gas ", 2)[0])
		}
		res.differ(o.prop, rec.Height, append(compareBlock(rec.Height, w, x, false), compareQueries(rec.Height, w, x)...))
		if heights[rec.Height] {
			y := n.export()
			res.differ(o.prop, rec.Height, exportDiff(fmt.Sprintf("original vs imported at %d, both at height %d", e.Height, rec.Height), readExport(exportFile(o.exportDir, rec.Height)).State, y.State))
			res.Cov["import.later_exports_compared"]++
		}
		res.Cov["checked"] += int64(len(x.Tx) + len(x.Q) + 1)
		res.Cov["replay.blocks_compared"]++
		res.Cov["replay.txs_compared"] += int64(len(x.Tx))
		res.Cov["distinct"]++
		res.Blocks++
		if len(res.Viol) >= 5 {
			return
		}
	}
}

var _ = cmtProto.Header{}
