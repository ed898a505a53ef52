package main

// trace.go: recording of executed blocks and their results, and the digests
// by which two executions are compared.

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
)

// traceRec is one line of a trace: the genesis (height 0) or one block.
type traceRec struct {
	Height  int64    `json:"h"`
	Time    int64    `json:"t"`
	Genesis []byte   `json:"g,omitempty"`
	Txs     [][]byte `json:"txs,omitempty"`
	Profile string   `json:"p,omitempty"`
	Instead [][]byte `json:"alt,omitempty"` // the transactions without the failed ones
	Seed    int64    `json:"s,omitempty"`
	blockOut
}

// blockOut is what a block produced.
type blockOut struct {
	App string   `json:"app,omitempty"` // app hash
	Tx  []string `json:"tx,omitempty"`  // one digest per transaction
	Ev  string   `json:"ev,omitempty"`  // block events
	Q   []string `json:"q,omitempty"`   // query answers (digests)
	Qs  []string `json:"qs,omitempty"`  // the queries
}

type tracer struct {
	f       *os.File
	w       *bufio.Writer
	seed    int64
	profile string
}

func newTracer(path string, seed int64, profile string) *tracer {
	f, err := os.Create(path)
	must(err)
	return &tracer{f, bufio.NewWriterSize(f, 1<<20), seed, profile}
}

func wrapTracer(f *os.File) *tracer { return &tracer{f: f, w: bufio.NewWriterSize(f, 1<<20)} }

func blockTime(t int64) time.Time { return unix(t) }

func (t *tracer) write(r *traceRec) {
	b, err := json.Marshal(r)
	must(err)
	t.w.Write(b)
	t.w.WriteByte('\n')
}

func (t *tracer) close() { t.w.Flush(); t.f.Close() }

func sum(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:10])
}

func eventsDigest(evs []abci.Event) string {
	h := sha256.New()
	for _, e := range evs {
		fmt.Fprintf(h, "%q{", e.Type)
		for _, a := range e.Attributes {
			fmt.Fprintf(h, "%q=%q,%v;", a.Key, a.Value, a.Index)
		}
		fmt.Fprint(h, "}")
	}
	return hex.EncodeToString(h.Sum(nil)[:10])
}

// digestOf abstracts a block result.  The free text log of a failed
// transaction is not part of the result; everything else is.
func digestOf(res *abci.ResponseFinalizeBlock, gas bool) (o blockOut) {
	o.App = hex.EncodeToString(res.AppHash)
	for _, r := range res.TxResults {
		g := ""
		if gas {
			g = fmt.Sprintf(" gas %d/%d", r.GasUsed, r.GasWanted)
		}
		o.Tx = append(o.Tx, fmt.Sprintf("code %d/%s data %s events %s%s", r.Code, r.Codespace, sum(r.Data), eventsDigest(r.Events), g))
	}
	o.Ev = eventsDigest(res.Events) + fmt.Sprintf(" updates %d", len(res.ValidatorUpdates))
	return
}

func readTrace(path string) (l []*traceRec) {
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	d := json.NewDecoder(bufio.NewReaderSize(f, 1<<20))
	for d.More() {
		r := &traceRec{}
		must(d.Decode(r))
		l = append(l, r)
	}
	return
}

// compareBlock lists the differences of two executions of the same block.
func compareBlock(h int64, a, b blockOut, apphash bool) (l []string) {
	if apphash && a.App != b.App {
		l = append(l, fmt.Sprintf("height %d: state hash %s vs %s", h, a.App, b.App))
	}
	if len(a.Tx) != len(b.Tx) {
		l = append(l, fmt.Sprintf("height %d: %d vs %d transaction results", h, len(a.Tx), len(b.Tx)))
	} else {
		for i := range a.Tx {
			if a.Tx[i] != b.Tx[i] {
				l = append(l, fmt.Sprintf("height %d tx %d: %s vs %s", h, i, a.Tx[i], b.Tx[i]))
			}
		}
	}
	if a.Ev != b.Ev {
		l = append(l, fmt.Sprintf("height %d: block events %s vs %s", h, a.Ev, b.Ev))
	}
	return
}
