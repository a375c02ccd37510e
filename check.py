#!/usr/bin/env python3
"""check.py PROP: builds libpluto from /repo's working tree with the property's
instrumentation, runs its workload under the monitors, writes
evidence/PROP.json.  Exit 0: held; 1: VIOLATION; 2: the check itself failed.
VERIF_SEED, VERIF_TIER (quick|thorough) from the environment."""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "mon"))
import build as B
from props import PROPS

REPLAY = os.path.join(ROOT, "build", "replay")


class Rec:
    """One case as the monitor process reported it."""
    def __init__(s, k, name, status):
        s.k, s.name, s.status = k, name, status
        s.v, s.st, s.h, s.ub, s.isl, s.x, s.crash, s.pinned = [], {}, [], [], [], [], None, None


def parse(out):
    recs = []
    for line in out.split("\n"):
        f = line.split("\t")
        if f[0] == "C":
            recs.append(Rec(int(f[1]), f[2], f[3]))
        elif not recs:
            continue
        elif f[0] == "V":
            recs[-1].v.append((f[1], f[2] if len(f) > 2 else ""))
        elif f[0] == "S":
            recs[-1].st[f[1]] = recs[-1].st.get(f[1], 0) + int(f[2])
        elif f[0] == "H":
            recs[-1].h.append(f[1])
        elif f[0] == "K":
            recs[-1].crash = (f[1], f[2] if len(f) > 2 else "")
        elif f[0] == "U":
            recs[-1].ub.append(f[1])
        elif f[0] == "I":
            recs[-1].isl.append(f[1])
        elif f[0] == "X":
            recs[-1].x.append(f[1])
    return recs


def known_findings():
    res = []
    for line in open(os.path.join(ROOT, "known-findings.txt")):
        m = re.match(r"known: property=(\w+) case=(\S+) sig=/(.*?)/ (.*)$", line.strip())
        if m:
            res.append(m.groups())
        elif line.strip() and not line.startswith("#") and not line.startswith("fixed: "):
            raise SystemExit("known-findings.txt: bad line: " + line)
    return res


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    evf = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evf), exist_ok=True)
    if os.path.exists(evf):
        os.unlink(evf)
    os.makedirs(REPLAY, exist_ok=True)
    exe = B.build(cfg["variant"])
    n = cfg[tier]
    if os.environ.get("VERIF_CASES"):
        n = int(os.environ["VERIF_CASES"])
    cpu = cfg.get("cpu", 20)
    chunk = cfg.get("chunk", max(1, min(12, n // 32)))
    env0 = dict(os.environ)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS", "LSAN_OPTIONS"):
        env0.pop(k, None)
    passes = cfg.get("passes", [{}])
    jobs = []
    for pi, penv in enumerate(passes):
        for f in sorted(glob.glob(os.path.join(ROOT, "mon/pinned", prop + "-*.case"))):
            lim = re.search(r"^#cpu (\d+)", open(f).read(), re.M)
            jobs.append((pi, f, ["one", "--prop", prop, "--file", f, "--cpu", lim.group(1) if lim else str(cpu)]))
        for a in range(0, n, chunk):
            jobs.append((pi, None, ["run", "--prop", prop, "--seed", str(seed), "--from", str(a), "--to", str(min(n, a + chunk)), "--cpu", str(cpu)]))

    # a change that makes the library hang: judge what was seen before the time of a run is up
    limit, began, left_out = (480 if tier == "quick" else 1e9), time.time(), []

    def go(job):
        pi, pin, args = job
        if time.time() - began > limit:
            left_out.append(args)
            return pi, 0, [], ""
        env = dict(env0)
        env.update(passes[pi])
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, errors="replace")
        recs = parse(r.stdout)
        for q in recs:
            q.pinned = os.path.basename(pin) if pin else None
        return pi, r.returncode, recs, r.stderr[-500:]

    recs, bad_rc = [[] for _ in passes], []
    workers = cfg.get("workers", min(8, os.cpu_count() or 8))
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for pi, rc, rr, err in ex.map(go, jobs):
            recs[pi] += rr
            if rc:
                bad_rc.append((rc, err))
    allr = [r for p in recs for r in p]
    if bad_rc:
        print("check error: monitor process failed: %s" % (bad_rc[0],))
        return 2
    hx = [r for r in allr if r.x]
    if hx:
        print("check error: harness: case %d %s: %s" % (hx[0].k, hx[0].name, hx[0].x[0]))
        return 2

    # ---- violations: (rec, sig)
    viol = []
    for r in allr:
        for m, msg in r.v:
            viol.append((r, "%s: %s" % (m, msg)))
        if r.crash:
            viol.append((r, "crash: %s" % r.crash[0]))
        if cfg.get("ub"):
            viol += [(r, "ub: " + u) for u in r.ub]
            viol += [(r, "islref: " + u) for u in r.isl]
        if r.pinned and r.status == "timeout":
            viol.append((r, "timeout"))
    tmo = [r for r in allr if r.status == "timeout" and not r.pinned]
    if len(tmo) > max(6, len(allr) // 20):
        for r in tmo:
            viol.append((r, "timeout: no result within %d s of processor time in %d of %d cases" % (cpu, len(tmo), len(allr))))
    nul = [r for r in allr if r.st.get("null_schedule") and not r.pinned]
    if len(nul) > max(8, len(allr) // 16):
        for r in nul[:3]:
            viol.append((r, "fails: no schedule in %d of %d cases" % (len(nul), len(allr))))
    nul = [r for r in allr if r.st.get("null_schedulable") and not r.pinned]
    if len(nul) > max(5, len(allr) // 100):
        for r in nul[:3]:
            viol.append((r, "fails: no schedule in %d of %d cases of simple programs" % (len(nul), len(allr))))
    for pi in range(1, len(passes)):
        base = {(r.k, r.pinned): r for r in recs[0]}
        for r in recs[pi]:
            b = base.get((r.k, r.pinned))
            if b and b.status == "done" and r.status == "done" and b.h != r.h:
                viol.append((r, "same: another result when fresh memory holds other bytes and other programs came before"))
    kf = known_findings()
    hits, new = {}, []
    for r, sig in viol:
        for i, (p, case, rx, text) in enumerate(kf):
            if p == prop and (case == "*" or case == (r.pinned or "")) and re.search(rx, sig):
                hits[i] = hits.get(i, 0) + 1
                break
        else:
            new.append((r, sig))
    kc = [(r, s) for r, s in viol if s.startswith("crash") and not r.pinned and (r, s) not in new]
    if len(kc) > max(8, len(allr) // 16):  # listed crashes are rare; many are something else
        new += [(r, s + " (%d such crashes in %d cases)" % (len(kc), len(allr))) for r, s in kc]
    for i in sorted(hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[i][3]))

    # ---- coverage
    st = {}
    for r in allr:
        for k, c in r.st.items():
            st[k] = st.get(k, 0) + c
    done = [r for r in allr if r.status == "done"]
    nontriv = set()
    for r in done:
        if any(r.st.get(k, 0) > 0 for k in cfg["nontrivial"]):
            nontriv.update(r.h)
    fam = {}
    for r in allr:
        f = r.name.split("/")[-1].split(":")[0]
        fam[f] = fam.get(f, 0) + 1
    samples = []
    for r in done:
        if not r.pinned and any(r.st.get(k, 0) > 0 for k in cfg["nontrivial"]):
            g = subprocess.run([exe, "gen", "--prop", prop, "--seed", str(seed), "--case", str(r.k)], stdout=subprocess.PIPE, text=True, env=env0)
            samples.append({"case": r.k, "text": g.stdout, "observed": r.st, "result": r.h[:3]})
            if len(samples) >= 3:
                break
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(allr), "distinct_nontrivial": len(nontriv), "rule": cfg["rule"], "samples": samples,
            "observed": st, "families": fam, "timeouts": len([r for r in allr if r.status == "timeout"]), "chunks_not_run": len(left_out),
            "crashes": len([r for r in allr if r.crash]), "instrumentation": cfg["variant"],
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    json.dump(ev, open(evf, "w"), indent=1)
    if new:
        seen = set()
        for r, sig in new:
            key = re.sub(r"\d+", "", sig)[:40]
            if key in seen or len(seen) >= 5:
                continue
            seen.add(key)
            path = os.path.join(REPLAY, "%s-s%d-%s.case" % (prop, seed, r.pinned or r.k))
            if r.pinned:
                txt = open(os.path.join(ROOT, "mon/pinned", r.pinned)).read()
            else:
                txt = subprocess.run([exe, "gen", "--prop", prop, "--seed", str(seed), "--case", str(r.k)], stdout=subprocess.PIPE, text=True, env=env0).stdout
            with open(path, "w") as f:
                f.write("# %s\n# replay: %s one --prop %s --file %s -v\n" % (sig.replace("\n", " ")[:400], exe, prop, path) + txt)
            print("%s case %s (%s): %s" % (prop, r.pinned or r.k, r.name, sig[:500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        print("%d violation(s) in %d cases" % (len(new), len({(r.k, r.pinned) for r, _ in new})))
        return 1
    need = cfg.get("min_nontrivial", max(10, n // 20))
    if len(nontriv) < need and not os.environ.get("VERIF_CASES"):
        print("check error: only %d distinct non-trivial observations (need %d)" % (len(nontriv), need))
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (prop, len(allr), len(nontriv), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:  # a build failure or a bug here is not a verdict
        import traceback
        traceback.print_exc()
        print("check error: %s" % e)
        rc = 2
    sys.exit(rc)
