#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      decide one property
   check.py --replay FILE                   run a recorded violation again
   check.py --try FAMILY COUNT [SEED]       engine + trace validation of one family (development)
"""
import sys, os, json, subprocess, hashlib, time, shutil, re, glob, resource, tempfile, random
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from families import FAM, MC, PROP
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 4))
CXX = "clang++-16" if shutil.which("clang++-16") else "clang++"
LIBFLAGS = ["-std=c++2a", "-fcoroutines-ts", "-stdlib=libstdc++", "-pthread", "-g1", "-O1",
            "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-Wno-everything"]
RTFLAGS = ["-std=c++20", "-stdlib=libstdc++", "-O2", "-g1", "-Wno-everything"]


SCHEDULES = 16      # schedules per scenario, as in engine/simrt.cpp


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ build
def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def build(srcs):
    """objects of the library, of the runtime and of each scenario source, cached by content; returns {src: program}"""
    os.makedirs(BUILD, exist_ok=True)
    inc = glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/source/**/*", recursive=True)
    aio = [p for p in glob.glob(REPO + "/asio/**/*", recursive=True) if os.path.isfile(p)]
    inc = [p for p in inc if os.path.isfile(p)]
    lib = [p for p in sorted(glob.glob(REPO + "/source/**/*.cpp", recursive=True))]
    hdr = [p for p in inc if not p.endswith(".cpp")]
    eng = [HERE + "/engine/sim.h"]
    jobs, objs = [], []

    def obj(src, flags, deps):
        k = digest([src] + deps, " ".join(flags) + CXX)
        o = os.path.join(BUILD, os.path.basename(src) + "." + k + ".o")
        if not os.path.exists(o):
            jobs.append((o, [CXX] + flags + ["-c", src]))
        return o
    for s in srcs:
        objs.append(obj(f"{HERE}/engine/{s}.cpp", LIBFLAGS + ["-I" + REPO + "/include", "-I" + HERE + "/engine"]
                        + (["-DASIO_STANDALONE", "-I" + REPO] if s == "token" else []),
                        hdr + eng + [HERE + "/engine/common.h"] + (aio if s == "token" else [])))
    rt = obj(HERE + "/engine/simrt.cpp", RTFLAGS, eng)
    libo = [obj(s, LIBFLAGS + ["-I" + REPO + "/include"], hdr) for s in lib]

    def run(j):
        tmp = j[0] + ".tmp%d" % os.getpid()
        r = sh(j[1] + ["-o", tmp])
        if r.returncode:
            raise CheckError("build failed: " + " ".join(j[1]) + "\n" + r.stdout[-4000:])
        os.replace(tmp, j[0])
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(run, jobs))
    progs = {}
    for s, o in zip(srcs, objs):
        k = digest([], " ".join([o, rt] + libo))
        p = os.path.join(BUILD, s + "." + k)
        if not os.path.exists(p):
            tmp = p + ".tmp%d" % os.getpid()
            r = sh([CXX, "-stdlib=libstdc++", "-pthread", o, rt] + libo + ["-ldl", "-o", tmp])
            if r.returncode:
                raise CheckError("link failed:\n" + r.stdout[-4000:])
            os.replace(tmp, p)
        os.utime(p)
        progs[s] = p
    # the cache is bounded
    files = sorted((p for p in glob.glob(BUILD + "/*") if os.path.isfile(p)), key=os.path.getmtime)
    for p in files[:-120]:
        try:
            os.unlink(p)
        except OSError:
            pass
    return progs


# ------------------------------------------------------------------ executions of the real code
def seed_of(fam, seed):
    return int(hashlib.sha256(f"{fam}/{seed}".encode()).hexdigest()[:12], 16)


DIED = '{"i":%d,"cfg":{},"ev":[["F",0,"died"]]}'
DIED_CFG = '"cfg":{}'


def died_at(stf):
    try:
        with open(stf, "rb") as f:
            v = int.from_bytes(f.read(8), "little")
        os.unlink(stf)
        return v - 1 if v > 0 else None
    except OSError:
        return None


def worker(prog, fam, seed, k, total, out, maxs, thorough):
    start, stats = k, {"exec": 0, "points": 0, "switches": 0, "events": 0, "restarts": 0, "faults": 0}
    t0 = time.time()
    stf = out + ".status"
    while start < total:
        left = maxs - (time.time() - t0)
        if left <= 0:
            stats["cut"] = True
            break
        cnt = (total - start + NCPU - 1) // NCPU
        cmd = [prog, fam, str(seed), str(start), str(cnt), str(NCPU), out, str(int(left * 1000))]
        if thorough:
            cmd.append("thorough")
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           env=dict(os.environ, SIM_CPU=str(k), SIM_STATUS=stf),
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (int(left) + 90, int(left) + 100)))
        try:
            s = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            i = died_at(stf)
            if i is not None and (r.returncode < 0 or r.returncode >= 10):
                with open(out, "a") as f:       # the process itself did not survive this execution
                    f.write(DIED % i + "\n")
                stats["faults"] += 1
                start = i // SCHEDULES + NCPU
                if stats["faults"] >= 4:
                    break
                continue
            raise CheckError(f"engine {fam} start={start}: rc={r.returncode} {r.stdout[-300:]} {r.stderr[-3300:]}")
        for x in ("exec", "points", "switches", "events"):
            stats[x] += s[x]
        if s["end"] == "done":
            break
        if s["end"] == "time":
            stats["cut"] = True
            break
        start = s["next"]
        if s["end"] == "fault":
            stats["faults"] += 1
            if stats["faults"] >= 4:
                break
        else:
            stats["restarts"] += 1
    return stats


def record(prog, fam, seed, total, maxs, thorough, tmp):
    """returns (unique trace lines, statistics); total: executions (one schedule per scenario in the wide families)"""
    if "_wide" not in fam:
        total = (total + SCHEDULES - 1) // SCHEDULES
    outs = [os.path.join(tmp, f"{fam}.{k}") for k in range(NCPU)]
    with ThreadPoolExecutor(NCPU) as ex:
        st = list(ex.map(lambda k: worker(prog, fam, seed, k, total, outs[k], maxs, thorough), range(NCPU)))
    lines, seen = [], set()
    for o in outs:
        if not os.path.exists(o):
            continue
        with open(o, errors="replace") as f:
            for ln in f:
                ln = ln.rstrip("\n")
                j = ln.find('"cfg"')
                if j < 0 or not ln.endswith("}"):
                    continue
                h = hashlib.blake2b(ln[j:].encode(), digest_size=12).digest()
                if h not in seen:
                    seen.add(h)
                    lines.append(ln)
        os.unlink(o)
    tot = {}
    for s in st:
        for k, v in s.items():
            tot[k] = tot.get(k, 0) + v
    return lines, tot


# ------------------------------------------------------------------ TLC
def tlc(args, env, tmp, timeout, heap="2g", props=()):
    meta = tempfile.mkdtemp(dir=tmp)
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, *props, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-nowarning", "-noGenerateSpecTE", *args]
    try:
        r = sh(cmd, env=dict(os.environ, **env), cwd=SPEC, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, ""
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    return (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)


CANARY = ',["F",0,"canary"]]}'


def validate(spec, lines, tmp, timeout=600, canary=True):
    """lines rejected by the trace specification: [(line, position)], and (states generated, distinct)"""
    died = [ln for ln in lines if DIED_CFG in ln]      # nothing in them a specification could look at
    if died:
        r, c = validate(spec, [ln for ln in lines if DIED_CFG not in ln], tmp, timeout, canary)
        return [(ln, 1) for ln in died] + r, c
    if not lines:
        return [], (0, 0)
    work = list(lines)
    ncan = 0
    if canary:      # one impossible history: the machinery must reject it
        base = min(lines, key=len)
        work.append(base[:-2] + CANARY if not base.endswith("[]}") else base)
        ncan = 0 if base.endswith("[]}") else 1
    fn = tempfile.mktemp(dir=tmp, suffix=".ndjson")
    with open(fn, "w") as f:
        f.write("\n".join(work) + "\n")
    rc, out = tlc(["-config", "Tr.cfg", "-workers", "1", spec + ".tla"], {"TRACES": fn}, tmp, timeout,
                  props=["-Dtlc2.tool.queue.IStateQueue=StateDeque"])
    os.unlink(fn)
    if rc is None:
        raise CheckError(f"{spec}: TLC timed out on {len(work)} traces")
    if rc != 0 or "Model checking completed. No error has been found" not in out:
        if len(lines) > 1:      # a trace the specification can not even evaluate: isolate it
            h = len(lines) // 2
            a, ca = validate(spec, lines[:h], tmp, timeout, False)
            b, cb = validate(spec, lines[h:], tmp, timeout, False)
            return a + b, (ca[0] + cb[0], ca[1] + cb[1])
        if canary or "Error" not in out or "evaluat" not in out:
            raise CheckError(f"{spec}: TLC failed (rc {rc})\n" + out[-3000:])
        return [(lines[0], -1)], (0, 0)
    rej = [(int(a), int(b)) for a, b in re.findall(r'<<"REJ", (\d+), (\d+)>>', out)]
    if ncan:
        if len(work) not in [k for k, _ in rej]:
            raise CheckError(f"{spec}: the impossible history was accepted")
        rej = [x for x in rej if x[0] != len(work)]
    return [(lines[k - 1], p) for k, p in rej], counts(out)


def validate_all(spec, lines, tmp, timeout=800):
    n = min(NCPU, max(1, len(lines) // 40))
    # balance by length
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    shards = [[] for _ in range(n)]
    for j, i in enumerate(order):
        shards[j % n].append(lines[i])
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda s: validate(spec, s, tmp, timeout), shards))
    return [x for r, _ in res for x in r], (sum(c[0] for _, c in res), sum(c[1] for _, c in res))


def model_check(name, thorough, tmp, timeout):
    mod, q, t = MC[name]
    cfg = t if thorough and os.path.exists(os.path.join(SPEC, t)) else q
    rc, out = tlc(["-config", cfg, "-workers", "4" if thorough else "3", "-coverage", "100", mod + ".tla"], {}, tmp, timeout, heap="6g" if thorough else "3g")
    if rc is None:
        raise CheckError(f"{mod}/{cfg}: TLC timed out")
    if rc != 0 or "No error has been found" not in out:
        raise CheckError(f"{mod}/{cfg}: the model does not have its properties (rc {rc})\n" + out[-4000:])
    g, d = counts(out)
    # per action counts of the last coverage report
    cov = {}
    for m in re.finditer(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)>: (\d+):(\d+)", out, re.M):
        cov[m.group(1)] = int(m.group(4))
    dead = [a for a, n in cov.items() if n == 0]
    return {"model": mod, "config": cfg, "states_generated": g, "distinct_states": d, "actions": cov, "actions_never_taken": dead}


# ------------------------------------------------------------------ findings
def known_findings():
    """lines  'known: property=<id> match=<regular expression over the trace line>  text'"""
    r = []
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for ln in open(fn):
            m = re.match(r"known: property=(\S+) match=(\S+)\s+(.*)", ln)
            if m:
                r.append((m.group(1), re.compile(m.group(2)), m.group(3).strip()))
    return r


def describe(line, pos):
    try:
        d = json.loads(line)
        ev = d["ev"]
        if pos < 0:
            return "the specification can not evaluate the history"
        at = json.dumps(ev[pos - 1]) if 0 < pos <= len(ev) else "end"
        return f"index {d['i']}: event {pos} {at} is not a step the specification allows"
    except Exception:
        return "unreadable trace"


def confirm(prog, fam, seed, line, spec, thorough, tmp):
    """runs the execution again; true if it is rejected again"""
    i = json.loads(line)["i"]
    out = tempfile.mktemp(dir=tmp)
    cmd = [prog, fam, str(seed), str(i // SCHEDULES), "1", "1", out, "0"] + (["thorough"] if thorough else [])
    r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, SIM_ONLY=str(i), SIM_CPU="0"),
                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (120, 130)))
    if DIED_CFG in line:
        return (line, 1) if r.returncode < 0 or r.returncode >= 10 else None
    if not os.path.exists(out):
        return None
    ls = [x.rstrip("\n") for x in open(out, errors="replace")]
    os.unlink(out)
    if not ls:
        return None
    rej, _ = validate(spec, ls[-1:], tmp, canary=False)
    return rej[0] if rej else None


# ------------------------------------------------------------------ one property
def check(prop, tier):
    t0 = time.time()
    thorough = tier == "thorough"
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    parts, mcs = PROP[prop]
    parts = [(f.split("/") + [1])[:2] for f in parts]
    fams = [f for f, _ in parts]
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
    pool = ThreadPoolExecutor(1 if thorough else max(1, len(mcs)))
    try:
        fm = [pool.submit(model_check, m, thorough, tmp, 3000 if thorough else 600) for m in mcs]
        progs = build(sorted({FAM[f][0] for f in fams}))
        models = None
        viol, finds, detail, samples, unrep = [], [], {}, [], 0
        states = trans = traces = evals = 0
        known = known_findings()
        for f, part in parts:
            src, spec, nq, nt = FAM[f]
            total = (nt if thorough else nq) // int(part)
            seed = seed_of(f, vseed)
            t1 = time.time()
            lines, st = record(progs[src], f, seed, total, 1500 if thorough else 150, thorough, tmp)
            t2 = time.time()
            if not lines:
                raise CheckError(f"{f}: no trace was recorded")
            rej, (g, d) = validate_all(spec, lines, tmp, 7200 if thorough else 700)
            t3 = time.time()
            trans += g
            states += d
            traces += len(lines) - len(rej)
            evals += st["exec"]
            detail[f] = {"specification": spec, "executions": st["exec"], "distinct_histories": len(lines), "rejected": len(rej),
                         "events": st["events"], "scheduling_points": st["points"], "thread_switches": st["switches"],
                         "longest_history": max(map(len, lines)), "cut_by_time": bool(st.get("cut")),
                         "wall_record_s": round(t2 - t1, 1), "wall_validate_s": round(t3 - t2, 1)}
            rng = random.Random(seed)
            for ln in rng.sample(lines, min(2, len(lines))):
                if len(ln) < 3000:
                    samples.append({"family": f, "history": json.loads(ln)})
            rej.sort(key=lambda x: len(x[0]))
            for ln, pos in rej[:6]:
                hit = [k for k in known if k[0] == prop and k[1].search(ln)]
                if hit:
                    finds.append(hit[0][2])
                    continue
                again = confirm(progs[src], f, seed, ln, spec, thorough, tmp)
                if again is None:
                    unrep += 1
                    detail[f].setdefault("not_reproduced", []).append(ln[:2000])
                    continue
                rd = os.path.join(EVID, "replay")
                os.makedirs(rd, exist_ok=True)
                fn = os.path.join(rd, f"{prop}-{len(viol)}.json")
                with open(fn, "w") as o:
                    json.dump({"property": prop, "family": f, "seed": seed, "index": json.loads(ln)["i"], "thorough": thorough,
                               "specification": spec, "rejected_at_event": again[1], "what": describe(*again),
                               "trace": json.loads(again[0])}, o, indent=1)
                viol.append((fn, describe(*again)))
                if len(viol) >= 3:
                    break
            if len(viol) >= 3:
                break
        if models is None:
            models = [x.result() for x in fm]
        for m in models:
            states += m["distinct_states"]
            trans += m["states_generated"]
        ev = {"property": prop, "tier": tier, "seed": vseed, "level": "model_checking",
              "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": traces,
                           "samples": samples[:4], "executions": evals, "families": detail, "models": models},
              "assumptions": ["executions are sequentially consistent interleavings of the instrumented code (engine/simrt.cpp)",
                              "the histories explored are those of the seeded scenario generators"],
              "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
        with open(os.path.join(EVID, prop + ".json"), "w") as o:
            json.dump(ev, o, indent=1)
        for x in sorted(set(finds)):
            print(f"KNOWN-FINDING: property={prop} {x}")
        for fn, w in viol:
            print(w)
            print(f"VIOLATION property={prop} replay={fn}")
        if viol:
            return 1
        if unrep:
            print(f"note: {unrep} rejected histories did not repeat and were not counted")
        print(f"ok {prop} {tier}: {evals} executions, {traces} distinct histories accepted, {states} states, {ev['wall_s']} s")
        return 0
    finally:
        pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(tmp, ignore_errors=True)


def replay(fn):
    r = json.load(open(fn))
    src, spec, _, _ = FAM[r["family"]]
    prog = build([src])[src]
    tmp = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
    try:
        again = confirm(prog, r["family"], r["seed"], json.dumps(dict(r["trace"], i=r["index"]), separators=(",", ":")), spec, r["thorough"], tmp)
        if again:
            print(again[0])
            print(describe(*again))
            print(f"VIOLATION property={r['property']} replay={fn}")
            return 1
        print("accepted")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def attempt(fam, count, vseed):
    src, spec, _, _ = FAM[fam]
    prog = build([src])[src]
    tmp = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
    try:
        seed = seed_of(fam, vseed)
        t1 = time.time()
        lines, st = record(prog, fam, seed, count, 600, False, tmp)
        t2 = time.time()
        rej, c = validate_all(spec, lines, tmp)
        print(st, "unique", len(lines), "record %.1f validate %.1f" % (t2 - t1, time.time() - t2), "states", c, "REJECTED", len(rej))
        print("program:", prog, fam, seed)
        rej.sort(key=lambda x: len(x[0]))
        for ln, pos in rej[:5]:
            print(describe(ln, pos))
            print("  ", ln[:3000])
            print("   reproduced:", bool(confirm(prog, fam, seed, ln, spec, False, tmp)))
        return 1 if rej else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--replay":
            return replay(a[1])
        if a and a[0] == "--try":
            return attempt(a[1], int(a[2]), int(a[3]) if len(a) > 3 else 1)
        if a and a[0] == "--setup":
            build(sorted({v[0] for v in FAM.values()}))
            return 0
        if not a or a[0] not in PROP:
            print(__doc__)
            return 2
        return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except CheckError as e:
        print("CHECK ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
