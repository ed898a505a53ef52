#!/usr/bin/env python3
"""check.py PROPERTY: builds the harness from /repo's working tree, runs the
workloads under the monitors that decide PROPERTY and writes the evidence file.

check.py replay FILE: repeats the case recorded in a replay file."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()

ALL = ["mix", "bundles", "deleg", "funds", "stakers", "team", "gov", "fees", "whale", "hostile"]

# property -> (profiles by weight, extra options of the runs, coverage counters
# that must have been observed for the run to mean something)
PLAN = {
    "P01": ("mix2 deleg3 funds3 whale3 team2 bundles2 stakers1 hostile2 full3", "", "monitor.solvency_checks slash.nonzero withdraw.paid commission.claimed charge.multicoin team.claimed_unlocked"),
    "P02": ("mix3 fees3 funds3 whale2 team2 bundles3 deleg2 hostile2", "", "monitor.balances_summed burn mint.block bundle.finalized"),
    "P03": ("deleg8 bundles5 mix3 whale3 stakers1", "", "credit.delegators withdraw.paid withdraw.multicoin slash.nonzero monitor.reward_readings"),
    "P04": ("deleg8 bundles4 stakers4 whale3 mix1", "", "slash.SLASH_TYPE_TIMEOUT slash.SLASH_TYPE_UPLOAD slash.SLASH_TYPE_VOTE slash.nonzero"),
    "P05": ("deleg12 stakers2 whale3 mix3", "", "ok.delegation.Delegate ok.delegation.Undelegate undelegation.executed undelegation.exactly_due undelegation.reduced"),
    "P06": ("deleg16 mix4", "", "ok.delegation.Redelegate fail.delegation.Redelegate redelegate.limit redelegate.last_second_of_cooldown redelegate.first_second_after_cooldown redelegate.same_block"),
    "P07": ("bundles12 mix3 whale1 funds2 hostile2", "", "bundle.finalized monitor.archive_ends"),
    "P08": ("bundles12 mix4 hostile4", "", "ok.bundles.VoteBundleProposal vote.twice vote.changed"),
    "P09": ("bundles12 stakers4 mix2 whale2", "", "tally.BUNDLE_STATUS_VALID tally.BUNDLE_STATUS_INVALID tally.BUNDLE_STATUS_NO_QUORUM tally.departed_voter"),
    "P10": ("bundles10 funds4 mix2 whale4", "", "bundle.finalized payout.storage payout.delegation slash.SLASH_TYPE_UPLOAD slash.SLASH_TYPE_VOTE"),
    "P11": ("bundles10 stakers6 mix4", "", "rotation.pick rotation.some_excluded propose.too_early propose.exactly_due claim"),
    "P12": ("bundles10 stakers6 mix4", "", "points.limit timeout timeout.exactly_due"),
    "P13": ("mix5 gov6 bundles3 stakers3 hostile3", "", "status.exactly_min_delegation status.exactly_max_voting_power status.running status.disabled status.upgrading status.voting~power propose.blocked.voting~power uploader.cleared.upgrading"),
    "P14": ("bundles6 mix6 gov4 team2 whale2", "", "mint.block inflation.split_among_pools inflation.pool_excluded inflation.no_runnable_pool"),
    "P15": ("funds14 bundles3 mix3", "", "fund charge.multicoin charge.partial charge.exhausted defund.all fund.below_minimum"),
    "P16": ("funds12 bundles2 mix2 full4", "", "fund defund.all defund.all_naming_more charge.exhausted fund.evicts fund.evicts_unlisted fund.full_rejected"),
    "P17": ("stakers13 mix3 full4", "", "join leave join.valaddress_taken join.evicts join.evicts_a_leaving_one join.full_rejected"),
    "P18": ("stakers16 mix4", "", "leave.executed leave.exactly_due"),
    "P19": ("stakers12 bundles4 mix4", "", "commission.changed commission.exactly_due commission.replaced commission.claimed"),
    "P20": ("hostile8 fees6 mix4 gov2 team2", "", "authz.no_grant group.executed"),
    "P21": ("gov14 mix3 hostile3", "", "pool.created pool.disabled_with_members pool.enabled upgrade.applied upgrade.finished upgrade.cancelled"),
    "P22": ("gov12 mix3 hostile3 fees2", "", "params.updated"),
    "P23": ("team20", "", "team.created team.clawback team.claimed_unlocked team.allocation_exceeded team.claim_too_much"),
    "P24": ("team16 mix2 whale2", "", "team.provision team.account_rewarded team.claimed_account_rewards team.claimed_authority_rewards"),
    "P25": ("fees16 mix3 hostile3", "", "fee.too_low fee.exactly_minimum fee.refunded gas.surcharge_nonzero burn admission.fee_too_low admission.pays_the_operators_price"),
    "P26": ("hostile6 fees5 mix3 funds2 stakers2 team2", "-deep", "monitor.raw_store_comparisons monitor.failed_txs monitor.not_admitted tx.out_of_gas"),
    "P30": ("mix4 hostile2 gov3 bundles3 deleg2 stakers2 funds2 team1 full1", "-queries", "query.state_comparisons query.hostile monitor.steps"),
    "P31": ("bundles10 mix4 stakers3 gov3 hostile2", "-predict -every 1", "predict.propose.true predict.vote.true predict.validate.true predict.vote_after_abstain"),
    "P33": ("hostile6 whale4 gov4 mix3 deleg2 funds2 full1", "", "blocks tx.panicked upgrade.applied points.limit"),
    "P34": ("gov20", "", "gov.tallied gov.protocol_stake_voted gov.staker_votes_for_delegators"),
    "P35": ("mix4 stakers5 deleg5 funds3 gov2 full1", "", "monitor.derived_checks monitor.derived_records"),
    "P36": ("mix4 bundles4 funds3 stakers3 deleg3 gov3 team2", "", "monitor.events_compared"),
}

TITLES = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(line)
    TITLES[d["id"]] = d["title"]


def sh(cmd, timeout):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)


def build(out, *flags):
    r = sh(["bash", os.path.join(HERE, "harness", "build.sh"), out, *flags], 800)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode() + r.stderr.decode())
        print("check: the harness does not build against this tree")
        sys.exit(2)


class Run:
    """collects what the children of one check reported"""

    def __init__(self, prop):
        self.prop = prop
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self.bin = os.path.join(self.dir, "zz")
        self.cov = {}
        self.states = set()
        self.cases = []
        self.viol = []      # (case, violation)
        self.errors = []
        self.blocks = 0

    def child(self, args, timeout=600, binary=None, env=None):
        e = dict(os.environ)
        e["GOMEMLIMIT"] = "3GiB"
        e["GOGC"] = "200"
        e["HOME"] = self.dir
        e["TMPDIR"] = self.dir
        if env:
            e.update(env)
        try:
            p = subprocess.run([binary or self.bin, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return {"case": " ".join(args), "fail": "no answer within %d s" % timeout}
        try:
            d = json.loads(p.stdout.decode().strip().splitlines()[-1])
        except Exception:
            return {"case": " ".join(args), "fail": "exit %d: %s" % (p.returncode, p.stderr.decode()[-3000:]), "stderr": p.stderr.decode()}
        d["stderr"] = p.stderr.decode()
        return d

    def take(self, d):
        self.cases.append(d["case"])
        if "fail" in d:
            # the process that runs the chain died
            self.add(d["case"], ["P33"], "process", [d["fail"][-1500:]])
            return
        if d.get("crash"):
            self.add(d["case"], ["P33"], "crash", [d["crash"][:1500]])
        for k, v in d["cov"].items():
            self.cov[k] = self.cov.get(k, 0) + v
        for s in d.get("states") or []:
            self.states.add(s)
        self.blocks += d.get("blocks") or 0
        for v in d.get("viol") or []:
            self.viol.append((d["case"], v))

    def add(self, case, props, step, msgs, height=0):
        self.viol.append((case, {"props": props, "height": height, "step": step, "msgs": msgs}))

    def pool(self, jobs, workers=8):
        with cf.ThreadPoolExecutor(workers) as ex:
            return list(ex.map(lambda f: f(), jobs))


def run_cases(prop):
    profs, extra, _ = PLAN[prop]
    l = []
    for w in profs.split():
        m = re.match(r"([a-z]+)(\d+)$", w)
        l.append((m.group(1), int(m.group(2))))
    mult, blocks = (2, 160) if TIER == "quick" else (30, 400)
    if prop in HEAVY:
        mult, blocks = HEAVY[prop] if TIER == "quick" else (12, 300)
    cases = []
    for name, w in l:
        for i in range(w * mult):
            seed = SEED * 100000 + i
            b = blocks if name != "full" else blocks // 2
            cases.append(["run", "-profile", name, "-seed", str(seed), "-blocks", str(b), *extra.split()])
    # the expensive ones first
    cases.sort(key=lambda c: 0 if c[2] in ("full", "hostile", "mix", "gov") else 1)
    return cases


# -deep copies whole stores around failing transactions
HEAVY = {"P26": (1, 120), "P30": (1, 160), "P31": (1, 160)}


def monitored(run):
    cases = run_cases(run.prop)
    for d in run.pool([lambda a=a: run.child(a) for a in cases]):
        run.take(d)


from scenarios import SPECIAL  # noqa: E402


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def matches(k, v):
    text = v["step"] + "\n" + "\n".join(v["msgs"])
    return re.search(k["match"], text) is not None


def main(prop):
    if prop not in TITLES:
        print("unknown property", prop)
        sys.exit(2)
    run = Run(prop)
    try:
        return decide(run)
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)


def decide(run):
    prop = run.prop
    build(run.bin)
    for f in SPECIAL.get(prop, ["monitored"]):
        (monitored if f == "monitored" else f)(run)
    hits = [(c, v) for c, v in run.viol if prop in v["props"]]
    others = sorted({p for _, v in run.viol for p in v["props"] if p != prop})
    kf = [k for k in known()["known"] if k["property"] == prop]
    new, seen = [], set()
    for c, v in hits:
        k = next((k for k in kf if matches(k, v)), None)
        if k:
            seen.add(k["id"])
        else:
            new.append((c, v))
    for k in kf:
        if k["id"] in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if TIER == "quick" or True:
        evidence(run, new)
    if others:
        print("note: this run also saw disagreements that concern", " ".join(others))
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": SEED, "tier": TIER, "found": [{"case": c, **v} for c, v in new[:20]]}, f, indent=1)
        for c, v in new[:5]:
            print("case: zz %s" % c)
            print("  height %s, %s" % (v["height"], v["step"][:400]))
            for m in v["msgs"][:6]:
                print("   ", m[:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s held on %d cases, %d blocks, %d distinct protocol states (%.0f s)" % (prop, len(run.cases), run.blocks, len(run.states), time.time() - T0))
    return 0


def evidence(run, new):
    prop = run.prop
    need = [x.replace("~", " ") for x in (PLAN[prop][2].split() if prop in PLAN else [])] + getattr(run, "need", [])
    missing = [k for k in need if not run.cov.get(k)]
    cov = {
        "evaluations": run.cov.get("monitor.steps", 0) + run.cov.get("monitor.failed_txs", 0) + run.cov.get("monitor.not_admitted", 0) + run.cov.get("checked", 0),
        "distinct_nontrivial": len(run.states) + run.cov.get("distinct", 0),
        "rule": "evaluations: judged steps of the real application (one per transaction and per module block step) plus the comparisons of the special scenarios; "
                "each compares the complete decoded protocol state after the step with the state predicted from the one before. "
                "distinct_nontrivial: distinct abstract protocol states observed (per pool: status, votes by kind, members, active funders, points, pending proposal; "
                "and the number of stakers, delegations, queue entries, fundings, vesting accounts) plus distinct compared answers of the special scenarios",
        "samples": ["zz " + c for c in run.cases[:6]],
        "cases": len(run.cases),
        "blocks": run.blocks,
        "relevant_observations": {k: run.cov.get(k, 0) for k in need},
        "missing_observations": missing,
        "observed": {k: run.cov[k] for k in sorted(run.cov)},
    }
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov,
          "assumptions": ["the reference model in /verif/harness states the intended behaviour", "the Cosmos SDK, IAVL and the Go runtime behave as documented",
                          "violations are only found on executions that were driven"],
          "wall_s": round(time.time() - T0, 1), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    if missing:
        print("note: not observed in this run:", ", ".join(missing))


def replay(path):
    d = json.load(open(path))
    run = Run(d["property"])
    try:
        build(run.bin)
        for c in sorted({x["case"] for x in d["found"]}):
            if not c.startswith("run "):
                print("repeat with VERIF_SEED=%s VERIF_TIER=%s python3 check.py %s" % (d["seed"], d["tier"], d["property"]))
                continue
            r = run.child(c.split())
            for v in r.get("viol") or []:
                if d["property"] in v["props"]:
                    print(json.dumps(v, indent=1))
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)
    return 0


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
