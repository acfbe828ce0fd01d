"""Rewrites the 'fixed' list of known_findings.json from /repo's fix commits (property by range of commits)."""
import json, pathlib, subprocess
ROOT = pathlib.Path(__file__).resolve().parent.parent
FIRST = [  # first commit of each run of fixes found through the same property
 ("6a7e94b", "C01"), ("742a633", "C20"), ("38901f2", "C01"), ("f3b8916", "C02"), ("3e6cfe7", "C01"), ("65c5cd5", "C02"), ("3549ec4", "C03"), ("59069b0", "C04"),
 ("4c343bc", "C10"), ("e86d239", "C05"), ("4321eac", "C08"), ("7f6f72e", "C20"), ("b6b75a3", "C06"), ("f98f42d", "C08"), ("62183f8", "C06"), ("9533df6", "C07"),
 ("7ac45e0", "C09"), ("4f9889c", "C10"), ("23416a6", "C11"), ("0a32470", "C14"), ("dd67446", "C15"), ("475c660", "C17"), ("8782338", "C17"), ("203f039", "C18"),
 ("1724422", "C19"), ("58e0c2e", "C20"), ("7d2701a", "C19"), ("d12ec8c", "C21"), ("d683575", "C20"), ("691c020", "C21"), ("36e121d", "C22"), ("8c40bd6", "C23"), ("c78c7a1", "C24"), ("7554158", "C02"), ("4e3bf66", "C26"), ("9ca834c", "C25"), ("f5dcf57", "C05"), ("dd3704e", "C02"), ("996d8f6", "C08"), ("f10e0f9", "C02"), ("ede7b36", "C10"), ("9f495ad", "C19"),
 ("e2c9cfc", "C06"), ("2d92dfc", "C11"),
    ("0dfe297", "C08"), ("7bf9919", "C19"), ("3e8cb69", "C08"), ("b1cbbd7", "C14"), ("1636f1a", "C23"), ("be762e7", "C21"), ("d30bf84", "C01"), ("b793f01", "C25"), ("3d2d6ed", "C23"),
]
d = json.load(open(ROOT / "known_findings.json")); start = dict(FIRST); cur = None; out = []
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "14bc1c4.."], text=True).splitlines():
    h, s = line.split(" ", 1); cur = start.pop(h, cur)
    if h in ("c2cd30f", "d683575", "691c020") or not s.startswith("fix: "): continue   # undone: test_case.py may not change
    out.append(f"fixed: property={cur} {h} did not hold before: {s.removeprefix('fix: ')}")
assert not start, start
d["fixed"] = out; json.dump(d, open(ROOT / "known_findings.json", "w"), indent=1)
