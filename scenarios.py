"""special scenarios: checks that need several processes executing the same
recorded chain"""
import os, random, re, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
PROFS = ["mix", "bundles", "deleg", "funds", "stakers", "team", "gov", "fees", "whale", "hostile"]


def traces(run, counts, blocks, post, extra=()):
    """records chains under the monitors and hands each to post(i, dir, trace)"""
    jobs = []
    i = 0
    for prof, n in counts:
        for k in range(n):
            i += 1
            jobs.append((i, prof, SEED * 100000 + 500 + k))

    def one(j):
        i, prof, seed = j
        d = os.path.join(run.dir, "t%d" % i)
        os.makedirs(d)
        t = os.path.join(d, "trace")
        r = run.child(["run", "-profile", prof, "-seed", str(seed), "-blocks", str(blocks), "-trace", t, *extra])
        if "fail" in r or r.get("crash"):
            return [("take", r)]
        r["case"] = "run -profile %s -seed %d -blocks %d" % (prof, seed, blocks)
        return [("take", r)] + post(i, d, t, "%s %d" % (prof, seed), random.Random(seed * 31 + i))

    for l in run.pool([lambda j=j: one(j) for j in jobs]):
        for what, r in l:
            if what == "take":
                run.take(r)
            else:
                taken(run, r)


def heights(trace):
    """the first and the last height of a recorded chain"""
    with open(trace) as f:
        first = int(re.search(r'"h":(-?\d+)', f.readline()).group(1)) + 1
        return first, first - 1 + sum(1 for _ in f)


def taken(run, r):
    """a replay: whatever it reports concerns the property of this check"""
    run.cases.append(r["case"])
    if "fail" in r:
        run.add(r["case"], [run.prop], "process", [r["fail"][-1500:]])
        return
    if r.get("crash"):
        run.add(r["case"], [run.prop], "crash", [r["crash"][:1500]])
    for k, v in r["cov"].items():
        run.cov[k] = run.cov.get(k, 0) + v
    run.blocks += r.get("blocks") or 0
    for v in r.get("viol") or []:
        run.viol.append((r["case"], v))


def case(r, text):
    r["case"] = text
    return ("replay", r)


def counts(quick, thorough):
    n = quick if TIER == "quick" else thorough
    return [(p, n * (2 if p in ("mix", "bundles") else 1)) for p in PROFS]


def replicas(run):
    run.need = ["replay.blocks_compared", "replay.txs_compared", "busy.simulated", "busy.checktx", "busy.proposals_processed", "busy.queried"]
    blocks = 160 if TIER == "quick" else 400

    def post(i, d, t, name, r):
        out = []
        out.append(case(run.child(["replay", "-trace", t, "-seed", str(i)], env={"GOMAXPROCS": "1", "GOGC": "20"}), "replica of %s" % name))
        out.append(case(run.child(["replay", "-trace", t, "-seed", str(i), "-busy", "-vary"], env={"TZ": "Asia/Tokyo", "GOGC": "400", "LANG": "tr_TR.UTF-8"}),
                        "busy replica of %s with other settings" % name))
        out.append(case(run.child(["replay", "-trace", t, "-seed", str(i), "-busy", "-db", os.path.join(d, "db")], env={"TZ": "America/St_Johns"}),
                        "busy replica of %s on disk" % name))
        return out
    traces(run, counts(1, 12), blocks, post)


def restarts(run):
    run.need = ["restart.after_genesis", "restart.after_commit", "restart.before_commit", "replay.queries_compared", "replay.blocks_compared"]
    blocks = 120 if TIER == "quick" else 300
    stops = 7 if TIER == "quick" else 40

    def post(i, d, t, name, r):
        ref, db = os.path.join(d, "ref"), os.path.join(d, "db")
        first, last = heights(t)
        base = run.child(["replay", "-trace", t, "-out", ref, "-every", "1", "-prop", "P28"])
        out = [case(base, "uninterrupted replay of %s" % name)]
        if "fail" in base or base.get("crash") or base.get("viol"):
            return out
        common = ["replay", "-trace", t, "-ref", ref, "-db", db, "-every", "1", "-prop", "P28"]
        out.append(case(run.child(common + ["-crash", "init"]), "%s stopped after the genesis" % name))
        hs = sorted(r.sample(range(first, last), min(stops, last - first)))
        for n, h in enumerate(hs):
            if n % 2 == 0:
                x = run.child(common + ["-to", str(h), "-crash", "finalize"])
                text = "%s stopped between execution and commit of block %d" % (name, h + 1)
            else:
                x = run.child(common + ["-to", str(h)])
                text = "%s stopped after block %d" % (name, h)
                if "cov" in x:
                    x["cov"]["restart.after_commit"] = 1
            out.append(case(x, text))
            if "fail" in x or x.get("crash") or x.get("viol"):
                return out
        out.append(case(run.child(common), "%s restarted after block %d and run to the end" % (name, hs[-1])))
        return out
    traces(run, counts(1, 8), blocks, post)


def imports(run):
    run.need = ["import.imported", "import.sections_validated", "import.sections_compared", "import.later_exports_compared", "replay.queries_compared",
                "replay.blocks_compared", "replay.txs_compared"]
    blocks = 140 if TIER == "quick" else 300
    points = 4 if TIER == "quick" else 16

    def post(i, d, t, name, r):
        ref = os.path.join(d, "ref")
        first, last = heights(t)
        hs = sorted(r.sample(range(first + 4, last - 3), points) + [last - 2])
        ex = ",".join(map(str, hs))
        base = run.child(["replay", "-trace", t, "-out", ref, "-every", "4", "-exports", ex, "-exportdir", d, "-prop", "P29"])
        out = [case(base, "replay of %s with exports" % name)]
        if "fail" in base or base.get("crash") or base.get("viol"):
            return out
        for h in hs[:-1]:
            out.append(case(run.child(["import", "-trace", t, "-ref", ref, "-every", "4", "-exports", ex, "-exportdir", d, "-from", str(h), "-prop", "P29"]),
                            "%s exported at height %d and imported" % (name, h)))
        return out
    traces(run, counts(1, 8), blocks, post)


# libraries that compute on the data they are handed: an access inside them is
# attributed to the code that called them
PURE = re.compile(r"^(runtime|internal|sync/atomic|sync|strings|bytes|sort|slices|maps|strconv|fmt|reflect|encoding|math|time|errors|container|unicode|bufio|io|hash|crypto)(/|\.)"
                  r"|^cosmossdk\.io/(math|errors)|^github\.com/cosmos/gogoproto|^google\.golang\.org/protobuf|^github\.com/cosmos/cosmos-sdk/types\.\(?\*?(Coin|Coins|DecCoin|DecCoins|AccAddress)"
                  r"|^github\.com/KYVENetwork/chain/zzverif")


def frames(text):
    return re.findall(r"^\s*(\S[^\n]*)\(.*?\)\n\s+(\S+?):\d+", text, re.M)


def owner(text):
    """the first frame that is not a pure library"""
    for fn, path in frames(text):
        if PURE.match(fn) or fn.startswith("main."):
            continue
        return fn, path
    return "", ""


def races(err):
    """data races in which at least one access was made by the repository's own code"""
    own, total = [], 0
    for rep in re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", err, re.S):
        total += 1
        parts = rep.split("\n\n")
        for p in parts[:2]:
            fn, path = owner(p.split("\n", 1)[1] if "\n" in p else "")
            if path.startswith(REPO + "/"):
                own.append(rep)
                break
    return own, total


def concurrent(run):
    from check import build
    run.need = ["conc.queries", "conc.answers_of_the_new_state", "conc.simulations", "conc.checktx", "conc.judged_answers", "conc.blocks_after_a_cold_start"]
    race = os.path.join(run.dir, "zzrace")
    build(race, "-race")
    blocks = 60 if TIER == "quick" else 250

    def judge(x, text):
        own, total = races(x.get("stderr", ""))
        if "cov" in x:
            x["cov"]["race.reports_inside_the_sdk_only"] = total - len(own)
        if own:
            x.setdefault("viol", None)
            x["viol"] = (x["viol"] or []) + [{"props": ["P32"], "height": 0, "step": "race detector", "msgs": [o[:3000] for o in own[:3]]}]
        if "fail" in x:
            # a fatal error of the Go runtime: whose code was it?
            m = re.search(r"(fatal error: .*?)\n\n(goroutine .*?)\n\n", x.get("stderr", ""), re.S)
            if m and not own:
                fn, path = owner(m.group(2).split("\n", 1)[1])
                if not path.startswith(REPO + "/"):
                    x = {"case": text, "cov": {"race.sdk_crash": 1}, "viol": [], "blocks": 0}
            elif own:
                x = {"case": text, "cov": {}, "viol": x["viol"], "blocks": 0}
        return case(x, text)

    def conc(args):
        return run.child(["conc", "-prop", "P32", *args], binary=race, env={"GORACE": "halt_on_error=0 history_size=3", "GOMEMLIMIT": "6GiB"})

    def post(i, d, t, name, r):
        out = []
        for k, (n, extra) in enumerate([(3, ["-sims"]), (2, [])] if TIER == "quick" else [(3, ["-sims"]), (5, ["-sims"]), (2, []), (7, [])]):
            out.append(judge(conc(["-trace", t, "-conc", str(n), "-seed", str(k), *extra]),
                             "%s with %d concurrent readers%s" % (name, n, " and simulations" if extra else "")))
        # nodes started from what was stored, asked from their first moment on
        db, copy = os.path.join(d, "db"), os.path.join(d, "copy")
        first, last = heights(t)
        for h in sorted(r.sample(range(first + 3, last - 2), 3 if TIER == "quick" else 12)):
            x = run.child(["replay", "-trace", t, "-db", db, "-to", str(h), "-prop", "P32"])
            if "fail" in x or x.get("crash") or x.get("viol"):
                return out + [case(x, "replay of %s up to %d" % (name, h))]
            shutil.copytree(db, copy)
            out.append(judge(conc(["-trace", t, "-db", copy, "-to", str(h + 2), "-conc", "5", "-width", "60", "-seed", str(h)]), "%s started at %d among 5 readers" % (name, h)))
            shutil.rmtree(copy)
        return out
    n = 1 if TIER == "quick" else 6
    traces(run, [(p, n) for p in PROFS], blocks, post)


def upgrades(run):
    """the v1.5.0 upgrade over many histories, monitored before, in and after it"""
    run.need = ["v15.executed", "v15.fundings_with_coins", "v15.entries_with_rewards", "v15.current_rewards", "v15.commission_rewards",
                "v15.after_undelegation", "v15.pending_create_pool_messages", "v15.pools_to_upgrade", "v15.pools_already_upgrading"]
    quick = TIER == "quick"
    jobs = []
    for prof, n in [("mix", 3), ("deleg", 3), ("funds", 3), ("stakers", 3), ("gov", 4), ("bundles", 3), ("whale", 2), ("fees", 1), ("hostile", 2), ("team", 1)]:
        for k in range(n if quick else n * 30):
            jobs.append(["upgrade", "-profile", prof, "-seed", str(SEED * 100000 + 700 + k), "-blocks", str(200 if quick else 400)])
    for d in run.pool([lambda a=a: run.child(a) for a in jobs]):
        taken(run, d)
        for x in d.get("states") or []:
            run.states.add(x)


def untouched(run):
    """every chain once more without its failed transactions (twins.go)"""
    run.need = ["untouched.blocks", "untouched.failed_txs_replaced", "untouched.left_out"]
    blocks = 140 if TIER == "quick" else 400

    def post(i, d, t, name, r):
        return [case(run.child(["replay", "-twins", "-trace", t, "-prop", "P26"]), "%s without its failed transactions" % name)]
    traces(run, counts(1, 12), blocks, post, ["-twins"])


SPECIAL = {"P26": ["monitored", untouched], "P37": [upgrades], "P27": [replicas], "P28": [restarts], "P29": [imports], "P32": [concurrent]}
