import json, os, sys
sys.path.insert(0, "/verif")
sys.argv = ["x"]
import check
from scenarios import SPECIAL
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
TECH = {
    "P26": ("online oracle over the raw stores around each failing transaction, and twin execution of every chain with its failed transactions replaced by ones that only pay", "failures are those the workload produces, out-of-gas at sampled limits included; the twin run sees what a failure leaves in memory only if a later block uses it"),
    "P27": ("replicated execution: replicas in separate processes replay the same blocks, results compared", "compares executions of the same blocks in several processes with different scheduling, garbage collection and concurrent queries; nondeterminism that no replica showed is not found"),
    "P28": ("restart fault injection: a node is stopped and restarted at many points of a recorded chain and compared with an uninterrupted one", "stops at block borders, between execution and commit and around genesis; crashes inside the database's own commit are the SDK's and are not injected"),
    "P29": ("export/import differential: exported states are imported and continued next to the original", "compares exported genesis documents, query answers and later results at the sampled heights"),
    "P30": ("online oracle: query answers compared with the decoded stores after blocks, page walks, hostile requests", "the expected answers are computed from the raw stores by independent code; requests are sampled"),
    "P31": ("online oracle: predictions compared with trial execution of the corresponding message on the same state", "sampled (pool, account) combinations between and inside blocks"),
    "P37": ("the real upgrade handler runs over rewritten v1.4 states of monitored chains; every store record compared before and after, online monitors afterwards", "v1.4 states are produced by re-encoding states of the current code with tkyve only; store deletions at load time and the texts of old mainnet proposals are not judged"),
    "P32": ("Go race detector plus snapshot-consistency oracle on concurrent queries and simulations", "races are found only on interleavings that were exercised; the SDK and IAVL are instrumented as well"),
}
DEF = ("online trace monitor with an executable reference model over generated transactions, on the real application",
       "every transaction and module step of the driven executions is judged against an independently written model; says nothing about states the generator did not reach; the Cosmos SDK below is trusted")
checks = []
for p in props:
    if p not in check.PLAN and p not in SPECIAL:
        continue
    t, n = TECH.get(p, DEF)
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": t,
                   "level": "fault_enumeration" if p == "P28" else "exploration", "level_note": n})
na = [{"property": p, "reason": "not claimed yet"} for p in props if p not in [c["property"] for c in checks]]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none: no hooks in /repo", "enable": "the harness is compiled as an extra package through go build -overlay and brackets the application from outside", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), [x["property"] for x in na])
