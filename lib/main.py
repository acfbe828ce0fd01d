"""Supervisor: forks workers over the cases of one check, watches them, decides the verdict."""
import importlib.util, json, os, signal, sys, time, traceback, faulthandler
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
SCRATCH = os.environ["VH_SCRATCH"]
os.chdir(SCRATCH)

DEADLINE = {"quick": 640, "thorough": 6 * 3600}
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))   # development aid: stop all workers at the first violation
CASE_LIMIT = {"quick": 150, "thorough": 900}
ALONE_LIMIT = {"quick": 110, "thorough": 1800}  # a case that ran out of time beside others is judged by running it again alone


def load(prop):
    import vh
    spec = importlib.util.spec_from_file_location("check_" + prop, os.path.join(ROOT, "checks", prop + ".py"))
    mod = importlib.util.module_from_spec(spec)
    before = len(vh.MONITORS)
    spec.loader.exec_module(mod)
    return mod, vh.MONITORS[before:]


def known_list(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {e["key"]: e for e in json.load(open(p))["known"] if e["property"] == prop}


def run_case(prop, mon, i, seed, tier, limit=None):
    import vh
    c = vh.Case(prop, mon["name"], i, seed, tier)
    rec = dict(mon=mon["name"], i=i)
    def on_alarm(*_):
        raise TimeoutError("case limit")
    signal.signal(signal.SIGALRM, on_alarm)
    limit = limit or CASE_LIMIT[tier]; signal.alarm(limit)
    t = time.time()
    try:
        mon["fn"](c)
        rec["v"] = "held"
    except vh.Violation as e:
        rec["v"] = "violated"; rec["msg"] = str(e); rec["key"] = e.key
    except vh.Skip:
        rec["v"] = "skip"
    except TimeoutError as e:
        rec["v"] = "violated" if vh.in_repo(e.__traceback__) else "timeout"
        rec["key"] = None
        rec["slow"] = True; rec["msg"] = f"no result within {limit} s\n" + traceback.format_exc(limit=-4)
    except Exception as e:
        # raised by the code under test outside a monitored call, or by the harness itself
        rec["msg"] = traceback.format_exc(limit=-6)
        # (after a monitored call: the oracle could not make sense of what the code returned)
        rec["v"] = "violated" if vh.in_repo(e.__traceback__) or (c.calls and (isinstance(e, FileNotFoundError) or not isinstance(e, (MemoryError, OSError)))) else "error"
        rec["key"] = None
    finally:
        signal.alarm(0)
        import shutil
        shutil.rmtree(os.path.join(SCRATCH, f"case_{os.getpid()}_{mon['name']}_{i}"), ignore_errors=True)
    rec.update(obs=c.obs, nt=c.nontrivial, calls=c.calls, params=c.params, sig=c.sig.hexdigest(), t=round(time.time() - t, 3))
    rec["mut"] = c.mutations[:5]
    return rec


def trace_lines(out):
    """development aid (VERIF_COV=dir): which lines of the package this check executes"""
    import atexit
    m = sys.monitoring; seen = set(); root = os.path.join(REPO, "src")
    def line(code, no):
        if code.co_filename.startswith(root): seen.add((code.co_filename[len(root) + 1:], no))
        return m.DISABLE
    m.use_tool_id(4, "lines"); m.register_callback(4, m.events.LINE, line); m.set_events(4, m.events.LINE)
    return lambda: json.dump(sorted(seen), open(out, "w"))


def worker(k, n, prop, mons, seed, tier, budget_end, path):
    if os.environ.get("VERIF_COV"):
        dump = trace_lines(os.path.join(os.environ["VERIF_COV"], f"{prop}-{k}.json"))
        try: worker_(k, n, prop, mons, seed, tier, budget_end, path)
        finally: dump()
    else: worker_(k, n, prop, mons, seed, tier, budget_end, path)


def worker_(k, n, prop, mons, seed, tier, budget_end, path):
    faulthandler.enable(open(path + ".fault", "w"))
    with open(path, "w") as f:
        j = 0
        total = max(m[tier] for m in mons)
        # interleave monitors so that a time cut-off thins every monitor alike
        slow = {}
        order = sorted(((i / m[tier], mi, i) for mi, m in enumerate(mons) for i in range(m[tier])))
        for idx, (_, mi, i) in enumerate(order):
            if idx % n != k:
                continue
            if time.time() > budget_end and i >= mons[mi].get("quick", 1):
                continue
            if tier == "quick" and time.time() > budget_end + 240: break          # a slow machine: judge what was observed
            if slow.get(mi, 0) >= 2: continue
            f.write(json.dumps({"begin": [mons[mi]["name"], i]}) + "\n"); f.flush()
            rec = run_case(prop, mons[mi], i, seed, tier)
            f.write(json.dumps(rec, default=str) + "\n"); f.flush()
            if rec.get("slow"): slow[mi] = slow.get(mi, 0) + 1
            if rec["v"] == "violated" and FAILFAST and rec.get("key") is None: open(os.path.join(SCRATCH, "stop"), "w").close()
            if FAILFAST and os.path.exists(os.path.join(SCRATCH, "stop")): return


def alone(prop, mon, r, seed, tier, limit):
    """Run one case again, with the machine to itself; its verdict counts."""
    path = os.path.join(SCRATCH, "alone.jsonl")
    if os.path.exists(path): os.remove(path)
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0); q = run_case(prop, mon, r["i"], seed, tier, limit)
            with open(path, "w") as f: f.write(json.dumps(q, default=str))
        except BaseException: traceback.print_exc()
        os._exit(0)
    end = time.time() + limit + 15
    while time.time() < end and os.waitpid(pid, os.WNOHANG)[0] == 0: time.sleep(.05)
    try: os.killpg(pid, signal.SIGKILL)
    except OSError: pass
    try: q = json.load(open(path))
    except (OSError, ValueError): q = dict(r, v="violated", msg=f"no result within {limit} s, alone on the machine\n" + r["msg"])
    if q.get("slow"): q["v"] = "violated"
    return q


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        os.environ["VERIF_TIER"] = r["tier"]
        mod, mons = load(r["property"])
        m = [x for x in mons if x["name"] == r["monitor"]][0]
        rec = run_case(r["property"], m, r["case"], r["seed"], r["tier"])
        print(json.dumps(rec, indent=1, default=str))
        if rec["v"] == "violated" and (rec["key"] not in known_list(r["property"])):
            print(f"VIOLATION property={r['property']} replay={sys.argv[2]}")
            return 1
        return 0 if rec["v"] in ("held", "violated") else 2

    prop = sys.argv[1]
    tier = os.environ["VERIF_TIER"]; seed = int(os.environ["VERIF_SEED"])
    if tier not in ("quick", "thorough"):
        print("unknown tier", tier); return 2
    t0 = time.time()
    mod, mons = load(prop)
    if len(sys.argv) > 3:
        mons = [m for m in mons if m["name"] in sys.argv[3].split(",")]
    n = int(os.environ.get("VERIF_JOBS", getattr(mod, "JOBS", min(8, os.cpu_count() or 1))))
    end = t0 + DEADLINE[tier]
    budget_end = t0 + float(os.environ.get("VERIF_BUDGET", {"quick": 240, "thorough": 1500}[tier]))
    pids, paths = {}, []
    for k in range(n):
        path = os.path.join(SCRATCH, f"w{k}.jsonl"); paths.append(path)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                worker(k, n, prop, mons, seed, tier, budget_end, path)
            except BaseException:
                traceback.print_exc(); code = 3
            sys.stdout.flush(); sys.stderr.flush()
            if "joblib.externals.loky" in sys.modules:
                try: sys.modules["joblib.externals.loky"].get_reusable_executor().shutdown(wait=True, kill_workers=True)
                except BaseException: pass
            os._exit(code)
        pids[pid] = k
    crashed, broken, timedout = {}, [], False
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > end:
                timedout = True
                for p in pids:
                    try: os.killpg(p, signal.SIGKILL)
                    except OSError: pass
            time.sleep(0.02)
            continue
        k = pids.pop(pid)
        try: os.killpg(pid, signal.SIGKILL)      # helper processes the case may have left behind
        except OSError: pass
        if os.WIFSIGNALED(st) and not timedout:
            crashed[k] = os.WTERMSIG(st)
        elif os.WIFEXITED(st) and os.WEXITSTATUS(st):
            broken.append(k)

    recs = []
    per = {m["name"]: dict(cases=0, held=0, violated=0, known=0, skip=0, observations=0, calls=0) for m in mons}
    lost = []
    for k, path in enumerate(paths):
        pend = None
        if os.path.exists(path):
            for line in open(path):
                try: d = json.loads(line)
                except ValueError: continue
                if "begin" in d: pend = d["begin"]
                else: recs.append(d); pend = None
        if k in crashed:
            sig = crashed[k]
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL) and pend:
                recs.append(dict(mon=pend[0], i=pend[1], v="violated", key=None, obs=1, nt=1, calls=1, params={}, sig=f"crash{k}", t=0,
                                 msg=f"the process died with signal {sig} while running this case:\n" + open(path + ".fault").read()[:1500]))
            else:
                lost.append((k, sig, pend))
    slow = [r for r in recs if r.get("slow")]; confirmed = False
    for r in slow:
        left = t0 + 870 - time.time() if tier == "quick" else 1e9
        if confirmed or left < 60: r["v"] = "violated" if confirmed else "skip"; continue
        recs[recs.index(r)] = q = alone(prop, [m for m in mons if m["name"] == r["mon"]][0], r, seed, tier, int(min(ALONE_LIMIT[tier], left - 20)))
        confirmed = q["v"] == "violated"
    thinned = tier == "quick" and time.time() > budget_end + 240
    known = known_list(prop)
    problems = []
    viol, kf = [], {}
    for r in recs:
        p = per[r["mon"]]
        p["cases"] += 1; p["observations"] += r["obs"]; p["calls"] += r["calls"]
        if r["v"] == "violated":
            if r.get("key") in known:
                p["known"] += 1; kf.setdefault(r["key"], []).append(r)
            else:
                p["violated"] += 1; viol.append(r)
        elif r["v"] in ("held", "skip"):
            p[r["v"]] += 1
        else:
            problems.append(f"{r['v']} in {r['mon']}#{r['i']}: {r.get('msg','')}")
    if lost: problems.append(f"workers lost: {lost}")
    if broken: problems.append(f"workers failed: {broken}")
    if timedout: problems.append("deadline reached")
    for m in mons:
        if per[m["name"]]["observations"] < (1 if thinned or slow else m["min_obs"]):
            problems.append(f"monitor {m['name']} made {per[m['name']]['observations']} observations, needs {m['min_obs']}")
    extra = mod.finish(recs) if hasattr(mod, "finish") else {}

    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    replay = None
    if viol:
        rd = os.path.join(ROOT, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        for q in range(min(3, len(viol))):
            v = viol[q]
            path = os.path.join(rd, f"{prop}-{v['mon']}-{v['i']}.json")
            json.dump(dict(property=prop, monitor=v["mon"], case=v["i"], seed=seed, tier=tier,
                           params=v["params"], message=v["msg"]), open(path, "w"), indent=1)
            if replay is None: replay = path
    nontriv = len({(r["mon"], r["sig"]) for r in recs if r["nt"] > 0})
    samples = []
    for m in mons:
        rs = [r for r in recs if r["mon"] == m["name"] and r["nt"] > 0]
        if rs:
            r = rs[0]
            samples.append(dict(monitor=m["name"], case=r["i"], input=r["params"], observations=r["obs"], verdict=r["v"]))
    man = {c["property"]: c for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]} if os.path.exists(os.path.join(ROOT, "MANIFEST.json")) else {}
    ev = dict(property=prop, tier=tier, seed=seed, level=man.get(prop, {}).get("level", "exploration"),
              coverage=dict(evaluations=len(recs), distinct_nontrivial=nontriv,
                            rule="one case = one seeded input/configuration/history driven through the real code; non-trivial when at least one oracle step compared a value that is not identically zero/empty; distinct by digest of the generated inputs",
                            oracle_observations=sum(r["obs"] for r in recs), monitored_calls=sum(r["calls"] for r in recs),
                            monitors=per, samples=samples, known_findings_seen=sorted(kf), **extra),
              assumptions=getattr(mod, "ASSUMPTIONS", ["NumPy/SciPy primitives used by the reference model are correct"]),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if problems: ev["coverage"]["inconclusive"] = [str(x)[:400] for x in problems[:10]]
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, default=str)

    for key in sorted(kf):
        print(f"KNOWN-FINDING: property={prop} {known[key]['what']}")
    for m in mons:
        print(f"  {m['name']}: {per[m['name']]}")
    print(f"{prop} {tier} seed={seed}: {len(recs)} cases, {nontriv} distinct non-trivial, {ev['coverage']['oracle_observations']} observations, {time.time()-t0:.1f}s")
    if viol:
        seen = set()
        for v in viol:
            if v["mon"] in seen and not os.environ.get("VERIF_ALL"): continue
            seen.add(v["mon"])
            print(f"violated: {v['mon']}#{v['i']} {v['params']}\n   {v['msg']}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if problems:
        for x in problems[:10]: print("INCONCLUSIVE:", x)
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc if isinstance(rc, int) else 2)
