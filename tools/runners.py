"""Runners for the checks that are not plain serial processes."""
import concurrent.futures as cf, glob, os, shutil, signal, subprocess, tempfile, time
import build as B

ALL_SLOTS = 24         # ranks run at the same time


def run_par(prop, cfg, tier, seed, seen, only=None):
    """Case ranges are run by mpiexec jobs of 2 to 8 ranks; a case that ends its job abnormally is recorded and the job goes on after it."""
    from check import ENV, parse, NPROC
    exe = os.path.join(B.BUILD, "bin", cfg["target"])
    n = cfg["n"][0 if tier == "quick" else 1]
    tmo = cfg.get("timeout", 40)
    cap = cfg.get("cap", (240, 820))[0 if tier == "quick" else 1]
    work = tempfile.mkdtemp(prefix="vfp")
    os.chmod(work, 0o755)
    t0 = time.time()
    # the job of a case, and so its number of ranks, depends on the case number alone
    size = 25
    chunks = [(a, min(n, a + size), (4, 4, 8, 3)[(a // size) % 4]) for a in range(0, n, size)]
    if only is not None:
        chunks = [(only, only + 1, (4, 4, 8, 3)[(only // size) % 4])]
    retries = []

    def mpi(a, b, w, tag, t):
        out = os.path.join(work, tag)
        env = dict(ENV, TMPDIR=os.path.join(work, "t" + tag))
        env.update(cfg.get("env", {}))
        os.makedirs(env["TMPDIR"], exist_ok=True)
        cmd = ["mpiexec", "-n", str(w), exe, prop, str(seed), str(a), str(b), "0" if tier == "quick" else "1", out, str(t)]
        p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True, cwd=work)
        try:
            p.wait(t * 3 + (b - a) * 10)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        shutil.rmtree(env["TMPDIR"], ignore_errors=True)
        return out

    def job(k):
        a, b, w = chunks[k]
        outs, part = [], 0
        while a < b:
            if time.time() - t0 > cap:
                return outs, True, None
            tag = "o%d.%d" % (k, part)
            part += 1
            out = mpi(a, b, w, tag, tmo)
            last, done = None, False
            if os.path.exists(out):
                with open(out, errors="replace") as f:
                    for l in f:
                        if l.startswith("K\t"):
                            last, ended = int(l.split("\t")[1]), False
                        elif l.startswith("T\t"):
                            ended = True
                        elif l.startswith("Z\t"):
                            done = True
            if last is None:
                return outs, False, "job of cases %d..%d recorded nothing" % (a, b)
            if not done and not ended:
                with open(out, "a") as f:
                    err, late = [], False
                    for e in sorted(glob.glob(out + ".err*")):
                        t = open(e, errors="replace").read()
                        late |= "VERIF-TIMEOUT" in t
                        err += [x for x in t.split("\n") if x][:150]
                    late &= not any("AddressSanitizer" in x or "VERIF-FATAL" in x for x in err)
                    f.write("X\t%s\t%d\n" % (("timeout", 0) if late else ("status", 1)))
                    for x in err[:300]:
                        f.write("E\t" + x.replace("\t", " ") + "\n")
            outs.append(out)
            a = b if done else last + 1
        return outs, False, None

    skipped = 0
    try:
        with cf.ThreadPoolExecutor(cfg.get("jobs", 4)) as ex:
            for outs, skip, bad in ex.map(job, range(len(chunks))):
                skipped += skip
                if bad:
                    seen.broken.append(bad)
                for o in outs:
                    parse(o, seen, prop, seed, tier, exe, cfg, retries.append)
        for idx in retries[:6]:
            w = (4, 4, 8, 3)[(idx // size) % 4]
            out = mpi(idx, idx + 1, w, "retry%d" % idx, tmo * 2)
            if os.path.exists(out):
                t = open(out, errors="replace").read()
                if "\nT\t" not in t:
                    with open(out, "a") as f:
                        f.write("X\ttimeout\t0\n")
                        for e in sorted(glob.glob(out + ".err*")):
                            for x in [x for x in open(e, errors="replace").read().split("\n") if x][:100]:
                                f.write("E\t" + x.replace("\t", " ") + "\n")
                parse(out, seen, prop, seed, tier, exe, cfg, None)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if skipped:
        seen.cnt["chunks_not_started_time_cap"] = skipped
