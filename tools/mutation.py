#!/usr/bin/env python3
"""tools/mutation.py PLAN.json OUT.jsonl [slots]: runs checks against mutants of single places in private mount
namespaces (neither /repo nor /verif changes). PLAN: [{"file","range"?, "checks":[..], "n":k, "seed"?}]."""
import json, os, random, shutil, subprocess, sys, threading, queue, time
plan, out, slots = json.load(open(sys.argv[1])), sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 5
jobs = []
seen = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); seen.add((d["file"], d["start"], d["text"]))
for p in plan:
    if "mutant" in p:
        jobs.append({**p["mutant"], "checks": p["checks"]}); continue
    ms = []
    for rg in (p.get("ranges") or [p.get("range", "1-1000000")]):
        ms += [json.loads(l) for l in subprocess.run(["node", "/verif/tools/mutate.mjs", "/repo/" + p["file"], rg], capture_output=True, text=True).stdout.splitlines()]
    random.Random(p.get("seed", 1)).shuffle(ms)
    for m in ms[: p["n"]]:
        m["file"] = p["file"]; m["checks"] = p["checks"]
        if (m["file"], m["start"], m["text"]) not in seen: jobs.append(m)
random.Random(7).shuffle(jobs)
q = queue.Queue()
for j in jobs: q.put(j)
lock = threading.Lock(); t0 = time.time(); n = [0, 0]
def work(i):
    base = f"/tmp/mut/{os.getpid()}-slot{i}"
    os.makedirs(base, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", base + "/repo"]); subprocess.run(["cp", "-a", "/verif", base + "/verif"])
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        path = f"{base}/repo/{m['file']}"
        src = open(path, encoding="utf8").read()
        # offsets are in UTF-16 units
        b = src.encode("utf-16-le")
        new = (b[: 2 * m["start"]] + m["text"].encode("utf-16-le") + b[2 * m["end"]:]).decode("utf-16-le")
        open(path, "w", encoding="utf8").write(new)
        caught, res = None, {}
        for c in m["checks"]:
            t = time.time()
            e = dict(os.environ, VERIF_SEED="1", VERIF_STOP="1", VERIF_LIMIT="150", VERIF_HEAP="2500")
            try:
                r = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {base}/repo /repo && mount --bind {base}/verif /verif && cd /verif && exec ./run.sh {c} quick"], capture_output=True, text=True, env=e, timeout=400, cwd="/")
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired: rc, o = 99, ""
            key = next((l.strip()[:120] for l in o.splitlines() if l.startswith("  ")), "")
            res[c] = [rc, key, round(time.time() - t)]
            if rc != 0:
                caught = c; break
        open(path, "w", encoding="utf8").write(src)
        m["caught"] = caught; m["res"] = res
        with lock:
            n[0] += 1; n[1] += caught is not None
            with open(out, "a") as f: f.write(json.dumps(m) + "\n")
            print(f"{n[1]}/{n[0]} of {len(jobs)} {time.time()-t0:.0f}s {'      ' if caught else 'MISSED'} {m['file']}:{m['line']} {m['kind']} [{m['was'][:60]!r} -> {m['text'][:40]!r}] {res}", flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(slots)]
[t.start() for t in ts]; [t.join() for t in ts]
