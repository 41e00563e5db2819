#!/usr/bin/env python3
"""Driver: python3 mc/check.py <PROPERTY>   (tier from VERIF_TIER, default quick)
          python3 mc/check.py --replay out/<PROPERTY>-<n>.json

Builds the harnesses of a property from /repo's working tree, runs them over their whole bounded space on all
cores, replays every failing execution alone before reporting it, and writes evidence/<PROPERTY>.json."""
import json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import props

VERIF = B.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NPROC = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 4))))
MAXFAIL = 12


def env_of(job):
    e = dict(os.environ)
    e["SCOTCH_PTHREAD_NUMBER"] = "1"
    e["LC_ALL"] = "C"
    for k in list(e):
        if k.startswith("SCOTCH_") and k != "SCOTCH_PTHREAD_NUMBER":
            del e[k]
    e.pop("ASAN_OPTIONS", None)
    e.update(job.get("env", {}))
    return e


def tail(path, n=3500):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            l = f.tell()
            f.seek(max(0, l - 200000))
            t = f.read().decode("latin-1")
    except OSError:
        return ""
    i = t.find("==ERROR")
    if i > 0:
        return t[max(0, i - 300):i + n]
    return t[-n:]


class Shard:
    def __init__(self, job, exe, i, n, tmp):
        self.job, self.exe, self.i, self.n, self.tmp = job, exe, i, n, tmp
        self.frm = 0
        self.fails = []      # (idx, desc, msg, kind)
        self.stats = []
        self.done = False
        self.crashes = 0
        self.run = 0
        self.proc = None
        self.start()

    def cmd(self):
        c = [self.exe, "--shard", "%d/%d" % (self.i, self.n), "--from", str(self.frm), "--state", self.state, "--stats", self.statf,
             "--tmp", self.scr]
        if TIER == "thorough":
            c.append("--thorough")
        return c + self.job.get("args", [])

    def start(self):
        self.run += 1
        b = os.path.join(self.tmp, "%s-%d-%d" % (self.job["name"], self.i, self.run))
        self.state, self.statf, self.scr = b + ".state", b + ".stats", b + ".d"
        self.outp, self.errp = b + ".out", b + ".err"
        os.makedirs(self.scr, exist_ok=True)
        self.proc = subprocess.Popen(self.cmd(), stdout=open(self.outp, "wb"), stderr=open(self.errp, "wb"), stdin=subprocess.DEVNULL,
                                     env=env_of(self.job), cwd=self.scr, preexec_fn=os.setsid)
        self.lastbeat, self.lasttime = None, time.time()

    def peek(self):
        try:
            with open(self.state, "rb") as f:
                d = f.read()
            idx, beat, total = struct.unpack("QQQ", d[:24])
            return idx, beat, d[24:].split(b"\0", 1)[0].decode("latin-1")
        except Exception:
            return 0, 0, ""

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def harvest(self):
        done = False
        with open(self.outp, "rb") as f:
            for line in f.read().decode("latin-1").split("\n"):
                if line.startswith("F\t"):
                    p = line.split("\t")
                    if len(p) >= 4:
                        self.fails.append((int(p[1]), p[2], p[3], "fail"))
                elif line.startswith("DONE\t"):
                    done = True
        shutil.rmtree(self.scr, ignore_errors=True)
        return done

    def poll(self):
        """Returns True when the shard is finished."""
        if self.done:
            return True
        rc = self.proc.poll()
        if rc is None:
            idx, beat, desc = self.peek()
            now = time.time()
            if (idx, beat) != self.lastbeat:
                self.lastbeat, self.lasttime = (idx, beat), now
            elif now - self.lasttime > self.job.get("hang", 30):
                self.kill()
                self.harvest()
                self.fails.append((idx, desc, "no progress for %d s (hang)" % self.job.get("hang", 30), "hang"))
                self.next(idx)
            return self.done
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        ok = self.harvest()
        if ok and rc == 0:
            try:
                self.stats.append((json.load(open(self.statf)), self.statf + ".h"))
            except Exception as e:
                raise SystemExit("cannot read stats: %s" % e)
            self.done = True
        else:
            idx, beat, desc = self.peek()
            self.fails.append((idx, desc, "crash (exit status %s): %s" % (rc, summarize(tail(self.errp))), "crash"))
            self.next(idx)
        return self.done

    def next(self, idx):
        self.crashes += 1
        if self.crashes >= 4 or idx == 0 or len(self.fails) > 50:
            self.done = True
            return
        self.frm = idx + 1
        self.start()


def summarize(t):
    m = re.search(r"SUMMARY: ([^\n]*)", t)
    s = m.group(1) if m else t.strip().split("\n")[-1][:300]
    m = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", t)
    if m:
        s += " [" + " < ".join("%s %s" % (a, os.path.basename(b)) for a, b in m[:6]) + "]"
    return s[:700]


def run_one(exe, job, args, tmp, limit):
    scr = tempfile.mkdtemp(dir=tmp)
    st = os.path.join(scr, "state")
    c = [exe, "--tmp", scr, "--state", st] + args + job.get("args", [])
    if TIER == "thorough":
        c.append("--thorough")
    p = subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env_of(job), cwd=scr, preexec_fn=os.setsid)
    try:
        o, e = p.communicate(timeout=limit)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        rc = "timeout"
    shutil.rmtree(scr, ignore_errors=True)
    return rc, o.decode("latin-1"), e.decode("latin-1")


def confirm(exe, job, f, shard, tmp):
    """Re-executes the failing case alone, then, if it does not fail alone, after its whole prefix."""
    idx, desc, msg, kind = f
    if idx == 0:
        rc, o, e = run_one(exe, job, ["--shard", "%d/%d" % shard], tmp, job.get("hang", 30) * 4)
        if rc != 0:
            return ["--shard", "%d/%d" % shard], "status %s %s" % (rc, summarize(e))
        return None, None
    lim = max(job.get("hang", 30) * 2, 60)
    for args in (["--only", str(idx)], ["--shard", "%d/%d" % shard, "--until", str(idx)]):
        rc, o, e = run_one(exe, job, args, tmp, lim if args[0] == "--only" else lim + 180)
        m = [l for l in o.split("\n") if l.startswith("F\t%d\t" % idx)]
        if m:
            return args, m[0].split("\t")[3]
        if rc == "timeout" and kind == "hang":
            return args, "does not terminate"
        if rc not in (0, "timeout"):
            return args, "status %s %s" % (rc, summarize(e[-200000:]))
    return None, None


def load_known(prop):
    try:
        k = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except OSError:
        return []
    return [e for e in k.get("findings", []) if e["property"] == prop]


def main():
    t0 = time.time()
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        job = [j for j in props.PROPS[r["property"]]["jobs"] if j["name"] == r["job"]][0]
        exe = props.build(job)
        tmp = tempfile.mkdtemp(prefix="vcmc")
        if r.get("tier") == "thorough":
            global TIER
            TIER = "thorough"
        rc, o, e = run_one(exe, job, r["args"], tmp, 600)
        sys.stdout.write(o)
        sys.stderr.write(e)
        shutil.rmtree(tmp, ignore_errors=True)
        return 1 if rc != 0 or "\nF\t" in "\n" + o else 0
    prop = sys.argv[1]
    P = props.PROPS[prop]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    for f in os.listdir(os.path.join(VERIF, "out")):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(VERIF, "out", f))
    budget = 780 if TIER == "quick" else 6 * 3600
    tmp = tempfile.mkdtemp(prefix="vcmc")
    known = load_known(prop)
    knownhit = {}
    violations = []
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, nontrivial_executions=0, notes={}, samples=[], jobs=[])
    exhaustive = True
    trouble = []
    hashes = set()
    try:
        for job in P["jobs"]:
            if TIER == "quick" and job.get("thorough_only"):
                continue
            tj = time.time()
            exe = props.build(job)
            tb = time.time() - tj
            n = min(NPROC, job.get("shards", NPROC))
            shards = [Shard(job, exe, i, n, tmp) for i in range(n)]
            hung = None
            while True:
                alive = 0
                for s in shards:
                    if not s.poll():
                        alive += 1
                if not alive:
                    break
                if TIER == "quick" and hung is None and any(f[3] == "hang" for s in shards for f in s.fails):
                    hung = time.time()            # something does not terminate: give the others a little time, then report
                if sum(len(s.fails) for s in shards) > 400 or time.time() - t0 > budget or (hung and time.time() - hung > 10):
                    trouble.append("stopped early: %s" % ("time budget" if time.time() - t0 > budget else "hang" if hung else "many failures"))
                    exhaustive = False
                    for s in shards:
                        if not s.done:
                            s.kill()
                            s.harvest()
                            s.done = True
                    break
                time.sleep(0.02 if time.time() - tj < 2 else 0.1)
            jc = dict(job=job["name"], build_s=round(tb, 1), run_s=round(time.time() - tj - tb, 1), executions=0, operations=0, states=0)
            total = 0
            js = set()
            for s in shards:
                for st, hf in s.stats:
                    total = max(total, st["total"])
                    jc["executions"] += st["ran"]
                    jc["operations"] += st["ops"]
                    cov["nontrivial_executions"] += st["nontrivial"]
                    for k, v in st["notes"].items():
                        cov["notes"][job["name"] + "." + k] = cov["notes"].get(job["name"] + "." + k, 0) + v
                    if s.i in (0, n // 2):
                        cov["samples"] += [job["name"] + " " + x for x in st["samples"][:3]]
                    try:
                        with open(hf, "rb") as f:
                            d = f.read()
                        js.update(struct.unpack("<%dQ" % (len(d) // 8), d))
                    except OSError:
                        pass
            jc["states"] = len(js)
            jc["space"] = total
            hashes |= set((job["name"], h) for h in js) if len(P["jobs"]) > 1 else js
            cov["states"] += len(js)
            cov["transitions"] += jc["operations"]
            cov["traces_validated_against_impl"] += jc["executions"]
            cov["jobs"].append(jc)
            if any(s.crashes for s in shards) and job["name"] != "witness":
                exhaustive = False
            nc = 0
            seen = set()
            for s, f in sorted(((s, f) for s in shards for f in s.fails), key=lambda x: x[1][3] == "hang"):
                if True:
                    if (f[0], s.i) in seen:
                        continue
                    seen.add((f[0], s.i))
                    kn = [k for k in known if k.get("status") == "open" and k.get("job", job["name"]) == job["name"] and re.search(k["match"], f[1] + " :: " + f[2])]
                    if kn:
                        knownhit.setdefault(kn[0]["what"], 0)
                        knownhit[kn[0]["what"]] += 1
                        continue
                    if nc >= MAXFAIL or len(violations) >= MAXFAIL or (violations and (f[3] == "hang" or time.time() - t0 > 300)):
                        continue
                    nc += 1
                    args, msg = confirm(exe, job, f, (s.i, n), tmp)
                    if args is None:
                        trouble.append("not reproduced: %s case %d %s: %s" % (job["name"], f[0], f[1][:200], f[2][:300]))
                        continue
                    rp = os.path.join(VERIF, "out", "%s-%d.json" % (prop, len(violations)))
                    violations.append(rp)
                    json.dump(dict(property=prop, job=job["name"], tier=TIER, case=f[0], description=f[1], what=f[2], replayed=msg, args=args,
                                   replay_cmd="python3 mc/check.py --replay out/%s" % os.path.basename(rp)), open(rp, "w"), indent=1)
                    print("case %d of %s: %s\n    %s" % (f[0], job["name"], f[1][:600], (msg or f[2])[:900]))
            if any(s.crashes >= 4 for s in shards) and not violations and not knownhit:
                trouble.append("a harness could not be run to its end")
            if violations and TIER == "quick":
                break
    except B.BuildError as e:
        print("BUILD ERROR: %s" % e)
        shutil.rmtree(tmp, ignore_errors=True)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for w, c in knownhit.items():
        print("KNOWN-FINDING: property=%s %s (%d executions)" % (prop, w, c))
    cov["exhaustive"] = bool(exhaustive and not trouble)
    cov["bounds"] = P.get("bounds", "")
    cov["samples"] = cov["samples"][:12]
    cov["known_findings_hit"] = sum(knownhit.values())
    ev = dict(property=prop, tier=TIER, seed=SEED, level="model_checking", coverage=cov, assumptions=P.get("assumptions", []) + trouble,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d distinct states, %d transitions, %.1f s%s" % (prop, TIER, cov["traces_validated_against_impl"], cov["states"], cov["transitions"], time.time() - t0,
                                                                                  " (not exhaustive)" if not cov["exhaustive"] else ""))
    for t in trouble:
        print("NOTE: " + t)
    if violations:
        for v in violations[:1]:
            print("VIOLATION property=%s replay=%s" % (prop, v))
        return 1
    if cov["traces_validated_against_impl"] == 0 or any("budget" in t or "could not be run" in t for t in trouble):
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
