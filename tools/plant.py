"""Plant a bug: make /verif/seeded/<id>/ from replacements, confirm it in /repo's working tree (restored afterwards).
usage: from plant import plant; plant(id, prop, file, [(old,new)], needs, what, demo_python)"""
import json, os, subprocess, sys
SE = "/verif/seeded"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(id, prop, file, reps, needs, what, demo, run_check=True, check_tests=True):
    files = file if isinstance(file, list) else [file] * len(reps)
    d = f"{SE}/{id}"; os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
    ok = True
    try:
        open(d + "/demo.py", "w").write(demo.strip() + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds on this input; nonzero: it is broken\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
        for f, (a, b) in zip(files, reps):
            p = "/repo/src/tools21cm/" + f; s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a)); open(p, "w").write(s.replace(a, b))
        diff = sh("git -C /repo diff").stdout; open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
        # the lines it changes must be the original repository's
        blame = []
        base = "14bc1c4"
        for f in set(files):
            old = sh(f"git -C /repo show {base}:src/tools21cm/{f}").stdout.splitlines()
            for l in diff.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in old: blame.append(l)
        if any(f.endswith(".pyx") for f in files): b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, b.stdout[-500:]
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
        t = "-"
        if check_tests:
            sh("bash /opt/vp/test.sh /tmp/plant_t.json"); j = json.load(open("/tmp/plant_t.json"))
            passed = set(j.get("passed", [])) if isinstance(j.get("passed"), list) else set(k for k, v in j.items() if v in ("pass", "passed"))
            t = len(STABLE - passed)
        c = ""
        if run_check:
            env = dict(os.environ, VERIF_SEED="1"); q = sh(f"bash /verif/run.sh {prop} quick", cwd="/verif", env=env)
            v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]; c = f"check exit {q.returncode} {'CAUGHT' if q.returncode == 1 and v else 'MISSED'}"
            f = "/verif/tools/caught.json"; j = json.load(open(f)) if os.path.exists(f) else {}; mon = v[0].split("/")[-1].split("-")[1] if v else ""; j[id] = f"{prop} ({mon})" if q.returncode == 1 and v else "missed"; json.dump(j, open(f, "w"), indent=1, sort_keys=True)
        print(f"{id}: demo clean={r0.returncode} patched={r1.returncode} tests_broken={t} {c}" + (f" NOT-ORIGINAL {blame[:3]}" if blame else "") + ("" if r0.returncode == 0 else "\n" + r0.stdout[-800:]) + ("" if r1.returncode else "\n" + r1.stdout[-300:]), flush=True)
    finally:
        sh("git -C /repo checkout -- .")
        if any(f.endswith(".pyx") for f in files): sh("bash /opt/vp/build.sh")
