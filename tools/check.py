#!/usr/bin/env python3
"""check.py PROP [quick|thorough]      runs the monitors of one property and judges what they saw.

Exit 0: the property held on everything explored; 1: VIOLATION lines printed; 2: no answer.
VERIF_SEED (default 1) selects the inputs.   See DESIGN.md.
"""
import collections, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS

VERIF = B.VERIF
ENV = dict(B.ENV)
ENV.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_btl="self,vader",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_pml="ob1", OMPI_MCA_plm="isolated",
           OMP_NUM_THREADS="4",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4000",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=0",
           PMIX_MCA_gds="hash",
           TSAN_OPTIONS="halt_on_error=0:report_signal_unsafe=0:history_size=4:exitcode=0")
NPROC = 8


class Seen:
    """What the monitors reported."""
    def __init__(self):
        self.cases = 0
        self.sigs = set()
        self.nontriv = set()
        self.samples = []
        self.kinds = collections.Counter()
        self.kind_samples = {}
        self.cnt = collections.Counter()
        self.viol = {}            # key -> (detail, replay dict)
        self.broken = []

    def add_viol(self, key, detail, rep):
        if key not in self.viol:
            self.viol[key] = (detail, rep, 1)
        else:
            d, r, n = self.viol[key]
            self.viol[key] = (d, r, n + 1)


def repo_frame(lines, start):
    for l in lines[start:start + 40]:
        m = re.match(r"\s*#\d+ \S+ in (\S+) (\S+?)(:\d+)?(:\d+)?\s*$", l)
        if m and (B.REPO + "/") in m.group(2):
            return m.group(1), os.path.basename(m.group(2))
        if l.startswith("SUMMARY"):
            break
    return None


def stderr_keys(lines, ubsan):
    """Stable names for sanitizer reports and fatal errors in a case's standard error."""
    keys = []
    for i, l in enumerate(lines):
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", l)
        if m:
            f = repo_frame(lines, i + 1)
            keys.append(("asan:%s:%s" % (m.group(1), f[0] if f else "?"), l.strip()))
        m = re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", l)
        if m and ubsan and not m.group(1).startswith(B.H):
            msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(3))[:90].strip()
            keys.append(("ubsan:%s:%s" % (os.path.basename(m.group(1)), msg), l.strip()))
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", l)
        if m:
            rep = []
            for q in lines[i + 1:]:
                if "ThreadSanitizer" in q:
                    break
                rep.append(q)
            f = repo_frame(rep, 0)
            if f:                      # something of the library takes part
                keys.append(("tsan:%s:%s" % (m.group(1).strip(), f[0]), l.strip() + " " + " | ".join(x.strip() for x in rep[:14])))
        m = re.search(r"VERIF-FATAL ([^:]*): (.*)", l)
        if m:
            keys.append(("fatal:%s:%s" % (m.group(1).strip(), re.sub(r"-?\d+", "N", m.group(2))[:80].strip()), l.strip()))
    return keys


class Sym:
    """addr2line with a cache"""
    def __init__(self, exe):
        self.exe, self.c = exe, {}

    def many(self, pcs):
        need = [p for p in set(pcs) if p not in self.c]
        for i in range(0, len(need), 500):
            part = need[i:i + 500]
            o = subprocess.run(["addr2line", "-f", "-e", self.exe] + part, stdout=subprocess.PIPE, text=True, env=ENV).stdout.split("\n")
            for k, p in enumerate(part):
                self.c[p] = (o[2 * k], o[2 * k + 1])
        return [self.c[p] for p in pcs]


def parse(path, seen, prop, seed, tier, exe, cfg, retry):
    """Read the record file of one chunk."""
    cur = None
    cases = []
    with open(path, errors="replace") as f:
        for line in f:
            p = line.rstrip("\n").split("\t")
            if p[0] == "K" and len(p) > 2:
                cur = dict(idx=int(p[1]), kind=p[2], V=[], C=[], S=None, X=None, E=[], L=[])
                cases.append(cur)
            elif cur is None:
                continue
            elif p[0] == "V":
                cur["V"].append((p[1], "\t".join(p[2:])))
            elif p[0] == "C":
                cur["C"].append((p[1], int(p[2])))
            elif p[0] == "S":
                cur["S"] = (p[1], p[2] == "1", "\t".join(p[3:]))
            elif p[0] == "X":
                cur["X"] = (p[1], p[2])
            elif p[0] == "E":
                cur["E"].append("\t".join(p[1:]))
            elif p[0] == "L":
                cur["L"].append((p[1], int(p[2]), int(p[3])))
    sym = Sym(exe)
    for c in cases:
        rep = dict(property=prop, seed=seed, tier=tier, case=c["idx"], kind=c["kind"],
                   command="VERIF_SEED=%d %s/tools/check.py %s replay %d %s %s" % (seed, VERIF, prop, c["idx"], tier, cfg["target"]),
                   what=c["S"][2] if c["S"] else "")
        seen.cases += 1
        seen.kinds[c["kind"]] += 1
        if c["S"]:
            sig, nt, desc = c["S"]
            seen.sigs.add(sig)
            if nt:
                seen.nontriv.add(sig)
                seen.kind_samples.setdefault(c["kind"], [])
                if len(seen.kind_samples[c["kind"]]) < 2:
                    seen.kind_samples[c["kind"]].append("%s #%d: %s" % (c["kind"], c["idx"], desc[:700]))
        for n, k in c["C"]:
            seen.cnt[n] += k
        for k, d in c["V"]:
            seen.add_viol(k, d, rep)
        keys = stderr_keys(c["E"], cfg.get("ubsan", prop == "C21"))
        for k, d in keys:
            seen.add_viol(k, d, dict(rep, stderr=c["E"][:80]))
        if c["X"]:
            seen.cnt["abnormal_ends"] += 1
            if c["X"][0] == "timeout":
                if retry:
                    retry(c["idx"])
                else:
                    seen.add_viol("hang:" + c["kind"], "case did not end", dict(rep, stderr=c["E"][:80]))
            elif not any(k.startswith(("asan", "fatal")) for k, d in keys):
                seen.add_viol("abnormal:%s:%s:%s" % (c["kind"], c["X"][0], c["X"][1]), "case ended with %s %s" % c["X"], dict(rep, stderr=c["E"][:80]))
        for pcs, n, by in c["L"]:
            fr = [f for f, w in sym.many(pcs.split()) if (B.REPO + "/") in w]
            whole = sym.many(pcs.split())
            names = []
            for f in fr:
                if not names or names[-1] != f:
                    names.append(f)
            if not names:
                continue          # the monitor's own allocation
            seen.add_viol("leak:" + "<".join(names[:4]), "%d block(s), %d bytes left allocated: %s" % (n, by, " < ".join("%s %s" % w for w in whole)), rep)
    return cases


def vg_keys(log):
    """Valgrind's reports about code of the library itself."""
    keys = []
    if not os.path.exists(log):
        return keys
    t = re.sub(r"(?m)^==\d+== ?", "", open(log, errors="replace").read())
    for blk in t.split("\n\n"):
        L = [l for l in blk.split("\n") if l.strip()]
        if not L or not re.search(r"uninitialised|Invalid|overlap|Mismatched", L[0]):
            continue
        fr = []
        for l in L[1:]:
            m = re.match(r"\s+(?:at|by) 0x[0-9A-F]+: (.*) \((.*?)(?::\d+)?\)$", l)
            if m:
                fr.append((m.group(1), m.group(2), l.strip()))
            elif fr:
                break                 # the second stack of the report
        fr = [f for f in fr if not f[1].startswith("in /") and "vg_replace" not in f[1]]
        if fr and fr[0][1].startswith(B.REPO + "/"):
            names = [f[0] for f in fr if f[1].startswith(B.REPO + "/")][:3]
            keys.append(("valgrind:%s:%s" % (re.sub(r"of size \d+|'.*'", "", L[0]).strip()[:60], "<".join(names)), L[0].strip() + " " + " ".join(f[2] for f in fr[:4])))
    return keys


def run_serial(prop, cfg, tier, seed, seen, only=None):
    exe = os.path.join(B.BUILD, "bin", cfg["target"])
    n = cfg["n"][0 if tier == "quick" else 1]
    lo = 0
    if only is not None:
        lo, n = only, only + 1
    tmo = cfg.get("timeout", 60)
    cap = cfg.get("cap", (240, 820))[0 if tier == "quick" else 1]
    work = tempfile.mkdtemp(prefix="vfc")
    env = dict(ENV, TMPDIR=work)
    env.update(cfg.get("env", {}))
    t0 = time.time()
    step = max(1, min(40, (n - lo + NPROC * 3 - 1) // (NPROC * 3)))
    if cfg.get("step"):
        step = cfg["step"]
    chunks = [(a, min(n, a + step)) for a in range(lo, n, step)]
    retries = []
    pre = lambda log: ["valgrind", "-q", "--num-callers=10", "--fullpath-after=", "--log-file=" + log] if cfg.get("valgrind") else []

    def vgrun(k, a, b):
        log, out = os.path.join(work, "l%s" % k), os.path.join(work, "lo%s" % k)
        subprocess.run(pre(log) + [exe, prop, str(seed), str(a), str(b), "0" if tier == "quick" else "1", out, out + "e", str(tmo)],
                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work)
        return vg_keys(log)

    def job(k):
        a, b = chunks[k]
        if time.time() - t0 > cap:
            return None
        out = os.path.join(work, "o%d" % k)
        for attempt in range(4):
            r = subprocess.run(pre(os.path.join(work, "l%d" % k)) + [exe, prop, str(seed), str(a), str(b), "0" if tier == "quick" else "1", out, os.path.join(work, "e%d" % k), str(tmo)],
                               env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", cwd=work)
            if r.returncode == 0 or "before MPI_INIT" not in r.stderr:
                break
            seen.cnt["mpi_start_failures"] += 1     # the MPI library could not start under load: nothing of the repository has run
            time.sleep(1 + 2 * attempt)
        return out, r.returncode, r.stderr[-2000:]

    skipped = 0
    try:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for k, r in enumerate(ex.map(job, range(len(chunks)))):
                if r is None:
                    skipped += 1
                    continue
                out, rc, err = r
                if rc != 0 or not os.path.exists(out):
                    seen.broken.append("runner ended with %s: %s" % (rc, err))
                if os.path.exists(out):
                    parse(out, seen, prop, seed, tier, exe, cfg, retries.append)
                    os.unlink(out)
                if cfg.get("valgrind"):
                    seen.cnt["cases_under_valgrind"] += chunks[k][1] - chunks[k][0]
                    ks = [x for x in vg_keys(os.path.join(work, "l%d" % k)) if x[0] not in seen.viol]
                    if ks:          # which case of the chunk?
                        per = [(i, vgrun("r%d.%d" % (k, i), i, i + 1)) for i in range(*chunks[k])] if chunks[k][1] - chunks[k][0] > 1 else [(chunks[k][0], ks)]
                        for i, kk in per + [(chunks[k][0], ks)]:
                            for key, d in kk:
                                if key not in seen.viol:
                                    seen.add_viol(key, d, dict(property=prop, seed=seed, tier=tier, case=i, command="VERIF_SEED=%d %s/tools/check.py %s replay %d %s %s" % (seed, VERIF, prop, i, tier, cfg["target"]), what=""))
        # a case that ran out of time is run again alone, with much more time
        for idx in retries[:6]:
            out = os.path.join(work, "retry%d" % idx)
            subprocess.run([exe, prop, str(seed), str(idx), str(idx + 1), "0" if tier == "quick" else "1", out, out + "e", str(tmo * 2)],
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work)
            parse(out, seen, prop, seed, tier, exe, cfg, None)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if skipped:
        seen.cnt["chunks_not_started_time_cap"] = skipped


def load_known():
    fixed, known = [], {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                known[(m.group(1), m.group(2).replace("%20", " "))] = m.group(3)
    return known


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = None
    if tier == "replay":
        only, tier = int(sys.argv[3]), (sys.argv[4] if len(sys.argv) > 4 else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    parts = cfg.get("parts") or [cfg]
    targets = sorted(set(q["target"] for q in parts) | set(cfg.get("needs", [])))
    if not B.build(targets):
        print("check %s: build failed" % prop)
        return 2
    seen = Seen()
    tb = time.time() - t0
    for q in parts:
        if only is not None and len(sys.argv) > 5 and q["target"] != sys.argv[5]:
            continue
        q = dict({k: v for k, v in cfg.items() if k != "parts"}, **q)
        if q.get("runner", "serial") == "serial":
            run_serial(prop, q, tier, seed, seen, only)
        else:
            import runners
            getattr(runners, "run_" + q["runner"])(prop, q, tier, seed, seen, only)
    wall = time.time() - t0
    known = load_known()
    bad, kn = [], []
    for key in sorted(seen.viol):
        (kn if (prop, key) in known else bad).append(key)
    for key in kn:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, known[(prop, key)]))
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    files = []
    for i, key in enumerate(bad):
        d, rep, cnt = seen.viol[key]
        fn = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha1(key.encode()).hexdigest()[:10]))
        json.dump(dict(rep, key=key, detail=d, occurrences=cnt), open(fn, "w"), indent=1)
        files.append(fn)
        if i < 25:
            print("VIOLATION property=%s replay=%s" % (prop, fn))
            print("  %s (%d cases): %s" % (key, cnt, d[:400]))
    samples = [s for k in sorted(seen.kind_samples) for s in seen.kind_samples[k]][:12]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2),
              coverage=dict(evaluations=seen.cases, distinct_nontrivial=len(seen.nontriv), rule=cfg["rule"], samples=samples,
                            case_kinds=dict(seen.kinds), observed=dict(seen.cnt), build_s=round(tb, 1)),
              assumptions=cfg.get("assumptions", []),
              violations=[dict(key=k, detail=seen.viol[k][0][:500], replay=f) for k, f in zip(bad, files)])
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s seed %d: %d cases, %d distinct non-trivial, %d oracle checks, %d violation kinds, %d known, %.1fs"
          % (prop, tier, seed, seen.cases, len(seen.nontriv), seen.cnt.get("oracle_checks", 0), len(bad), len(kn), wall))
    if bad:
        return 1
    if seen.broken:
        for b in seen.broken[:5]:
            print("check %s: no answer: %s" % (prop, b))
        return 2
    if not seen.cases or (only is None and (not seen.nontriv or not seen.cnt.get("oracle_checks"))):
        print("check %s: nothing observed" % prop)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
