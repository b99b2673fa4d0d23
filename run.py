#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]

Decides one property: builds the driver from /repo's working tree, model-checks the
specification's design configurations, lets TLC generate behaviours where the property is
about histories, runs the driver on the real code, and validates every recorded line against
the specification with TLC. Exit 0: held; 1: VIOLATION line printed; 2: the check itself failed."""
import json, os, re, shutil, subprocess, sys, time, threading, collections
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
DRV = os.path.join(HERE, "drivers")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402


class CheckError(Exception):
    pass


class EvalError(CheckError):
    """TLC could not evaluate the specification on the recorded lines."""


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_driver(src, out, flags=(), san="address"):
    base = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-include", "memory", f"-I{DRV}"]
    inc = [f"-I{REPO}/include", "-I/opt/vp/compat", "-I/usr/include/eigen3"]
    cmd = ["g++"] + base + [f"-fsanitize={san}"] + list(flags) + inc + [os.path.join(DRV, src), "-o", out, "-lmsgpackc", "-lflatbuffers"]
    r = sh(cmd)
    if r.returncode:
        raise CheckError("driver does not compile:\n" + "\n".join(l for l in r.stdout.splitlines() if "error" in l)[:3000])


STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


def tlc(module, cfg, work, env=None, workers=2, heap="3g", extra=(), timeout=800, name=None):
    """Run TLC; returns (output, generated, distinct). Raises CheckError if TLC did not finish cleanly."""
    md = os.path.join(work, "md_" + (name or module))
    shutil.rmtree(md, ignore_errors=True)
    os.makedirs(md)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss256m", f"-Djava.io.tmpdir={md}", f"-Xmx{heap}", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", md, "-config", cfg] + list(extra) + [module + ".tla"]
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = STAT.findall(r.stdout)
    if r.returncode != 0 or "Error:" in r.stdout or not m:
        kind = EvalError if r.returncode > 0 and "Error:" in r.stdout and "OutOfMemory" not in r.stdout and "StackOverflow" not in r.stdout else CheckError
        raise kind(f"TLC failed on {module} ({cfg}), rc={r.returncode}:\n" + r.stdout[-3500:])
    return r.stdout, int(m[-1][0]), int(m[-1][1])


def env_for_driver(tier, seed):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:report_signal_unsafe=0:history_size=4"
    e["VERIF_SEED"] = str(seed)
    e["VERIF_TIER"] = tier
    e.pop("DRV_ONLY", None)
    return e


def run_driver(exe, args, trace, env, timeout=850):
    r = subprocess.run([exe] + args + [trace], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if r.returncode:
        raise CheckError(f"driver failed rc={r.returncode}: {r.stdout[-2000:]}")


def load_lines(trace):
    lines = {}
    with open(trace) as f:
        for ln in f:
            m = re.match(r'\{"id":(\d+),', ln)
            if not m:
                raise CheckError("malformed trace line: " + ln[:200])
            lines[int(m.group(1))] = ln
    return lines


def culprit(module, cfg, lines, ids, work, tag):
    """A line on which the specification cannot be evaluated (not JSON, or not an observation it knows)."""
    def fails(part):
        path = os.path.join(work, f"{tag}_part.ndjson")
        with open(path, "w") as f:
            for i in part:
                f.write(lines[i])
        try:
            tlc(module, cfg, work, env={"TRACE": path}, workers=2, heap="6g", name=f"{tag}_part", timeout=120)
            return False
        except EvalError:
            return True
    while len(ids) > 1:
        h = len(ids) // 2
        if fails(ids[:h]):
            ids = ids[:h]
        elif fails(ids[h:]):
            ids = ids[h:]
        else:
            return None
    return ids[0] if fails(ids) else None


def validate(module, cfg, lines, work, tag, steps_of=None):
    """Validate the lines with TLC, in parallel chunks. Returns ({id: reasons}, states, distinct)."""
    ids = [i for i in sorted(lines) if '"skipped":true' not in lines[i][:60]]
    chunks, cur, size = [], [], 0
    total = sum(len(lines[i]) for i in ids)
    limit = max(200_000, min(12_000_000, total // 4 + 1))
    for i in ids:
        cur.append(i)
        size += len(lines[i])
        if size >= limit:
            chunks.append(cur)
            cur, size = [], 0
    if cur:
        chunks.append(cur)

    def one(k):
        path = os.path.join(work, f"{tag}_{k}.ndjson")
        with open(path, "w") as f:
            for i in chunks[k]:
                f.write(lines[i])
        try:
            out, gen, dist = tlc(module, cfg, work, env={"TRACE": path}, workers=2, heap="6g", name=f"{tag}_{k}")
        except EvalError as e:
            i = culprit(module, cfg, lines, chunks[k], work, f"{tag}_{k}")
            if i is None:
                raise e
            return {i: ["outside the specification's vocabulary: " + " ".join(str(e).split())[-300:]]}, 0, 0
        os.unlink(path)
        rej = {}
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(.*?)\s*>>', out, re.S):
            rej.setdefault(int(m.group(1)), []).append(re.sub(r"\s+", " ", m.group(2)).strip('"'))
        n = len(chunks[k])
        if dist < n + 32:  # every line is consumed (a line that could not be would deadlock TLC)
            raise CheckError(f"{module}: {dist} states for {n} lines")
        return rej, gen, dist

    rejects, gen, dist = {}, 0, 0
    if chunks:
        with ThreadPoolExecutor(4) as ex:
            for rj, g, d in ex.map(one, range(len(chunks))):
                rejects.update(rj)
                gen += g
                dist += d
    return rejects, gen, dist


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == pid and k.get("status") == "open"]


def is_known(finding, line):
    return re.search(finding["match"], line) is not None


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = PROPS[pid]
    t0 = time.time()
    work = os.path.join(HERE, "build", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    outdir = os.path.join(HERE, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    env = env_for_driver(tier, seed)

    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "model_runs": [], "trace_runs": []}
    lock = threading.Lock()

    def model(mc):
        cfg = mc.get("thorough_cfg", mc["cfg"]) if tier == "thorough" else mc["cfg"]
        if mc.get("thorough_only") and tier != "thorough":
            return
        out, gen, dist = tlc(mc["module"], cfg, work, workers=mc.get("workers", 4), heap=mc.get("heap", "4g"), timeout=mc.get("timeout", 780),
                             name="mc_" + mc["module"] + cfg, extra=mc.get("extra", ()))
        with lock:
            cov["states"] += dist
            cov["transitions"] += gen
            cov["model_runs"].append({"module": mc["module"], "config": cfg, "distinct_states": dist, "states_generated": gen})

    def generate(g, path):
        """Let TLC enumerate behaviours of the specification; one JSON line each."""
        cfg = g.get("thorough_cfg", g["cfg"]) if tier == "thorough" else g["cfg"]
        extra = list(g.get("extra_" + tier, g.get("extra", ())))
        extra = [x.replace("{seed}", str(seed)) for x in extra]
        out, gen, dist = tlc(g["module"], cfg, work, workers=g.get("workers", 4), heap="4g", timeout=800, extra=extra, name="gen_" + g["module"])
        seen, n = set(), 0
        with open(path, "w") as f:
            for m in re.finditer(r'^"?GEN (.*?)"?$', out, re.M):
                s = m.group(1).replace('\\"', '"')
                if s not in seen:
                    seen.add(s)
                    f.write(s + "\n")
                    n += 1
        if n < g.get("min", 1):
            raise CheckError(f"{g['module']} generated only {n} behaviours")
        with lock:
            cov["states"] += dist
            cov["transitions"] += gen
            cov["model_runs"].append({"module": g["module"], "config": cfg, "distinct_states": dist, "states_generated": gen, "behaviours_generated": n})

    runs = conf["runs"]
    jobs = []
    with ThreadPoolExecutor(8) as ex:
        for mc in conf.get("models", ()):
            jobs.append(ex.submit(model, mc))
        for r in runs:
            r["exe"] = os.path.join(work, r["driver"].replace(".cpp", "") + "".join(re.sub(r"\W", "_", f) for f in r.get("flags", ())))
            if not any(q is not r and q.get("exe") == r["exe"] and q.get("_c") for q in runs):
                r["_c"] = True
                jobs.append(ex.submit(compile_driver, r["driver"], r["exe"], r.get("flags", ()), r.get("san", "address")))
            if "gen" in r:
                r["script"] = os.path.join(work, r["gen"]["module"] + ".script")
                if any(q is not r and q.get("script") == r["script"] for q in runs):
                    continue
                jobs.append(ex.submit(generate, r["gen"], r["script"]))
        errs = [j.exception() for j in jobs if j.exception()]
    if errs:
        raise errs[0]
    log(f"[{pid}] built and model-checked in {time.time()-t0:.1f}s")

    violations, known = [], collections.Counter()
    findings = known_findings(pid)
    for n, r in enumerate(runs):
        args = list(r.get("args", ())) + ([r["script"]] if "script" in r else [])
        trace = os.path.join(work, f"trace{n}.ndjson")
        t1 = time.time()
        run_driver(r["exe"], args, trace, env)
        lines = load_lines(trace)
        os.unlink(trace)
        t2 = time.time()
        rej, gen, dist = validate(r["trace"], r.get("cfg", "Trace.cfg"), lines, work, f"v{n}")
        distinct = len(set(re.sub(r'^\{"id":\d+,', "", l) for l in lines.values()))
        if not rej and distinct < r.get("min_distinct", 2):
            raise CheckError(f"{r['driver']} recorded only {distinct} distinct lines")
        cov["traces_validated_against_impl"] += len(lines)
        cov["states"] += dist
        cov["transitions"] += gen
        kinds = collections.Counter(re.findall(r'"op":"([^"]*)"', "".join(lines.values()))) if r.get("ops") else {}
        cov["trace_runs"].append({"driver": r["driver"], "args": r.get("args", []), "trace_spec": r["trace"], "lines": len(lines), "distinct_lines": distinct,
                                  "bytes": sum(map(len, lines.values())), "rejected_first_pass": len(rej), "operations": dict(kinds),
                                  "driver_s": round(t2 - t1, 1), "tlc_s": round(time.time() - t2, 1)})
        for i in sorted(lines)[:: max(1, len(lines) // 3)][:3]:
            cov["samples"].append(lines[i][:500].strip())
        log(f"[{pid}] {r['driver']} {r.get('args', '')}: {len(lines)} lines, driver {t2-t1:.1f}s, TLC {time.time()-t2:.1f}s, rejected {len(rej)}")
        if rej:
            confirmed = {}
            for attempt in range(2):
                sample = sorted(rej)[:40]
                env2 = dict(env, DRV_ONLY=",".join(map(str, sample)))
                run_driver(r["exe"], args, trace, env2)
                again = load_lines(trace)
                os.unlink(trace)
                rej2, _, _ = validate(r["trace"], r.get("cfg", "Trace.cfg"), again, work, f"r{n}_{attempt}")
                for i in rej2:
                    confirmed[i] = (rej2[i], again[i])
                if confirmed:
                    break
            if not confirmed:  # it may need the history of the cases before it: repeat the whole run
                run_driver(r["exe"], args, trace, env)
                again = load_lines(trace)
                os.unlink(trace)
                rej2, _, _ = validate(r["trace"], r.get("cfg", "Trace.cfg"), again, work, f"r{n}_full")
                confirmed = {i: (rej2[i], again[i]) for i in rej2 if i in rej}
            for i, (why, line) in sorted(confirmed.items()):
                k = next((f for f in findings if is_known(f, line)), None)
                if k:
                    known[k["id"]] += 1
                else:
                    violations.append((r, i, why, line))
            if not confirmed:
                log(f"[{pid}] {len(rej)} rejections were not repeated by a second run; not reported")
    for f in findings:
        log(f"KNOWN-FINDING: property={pid} {f['what']}" + ("" if known[f["id"]] else " (not exercised by this run)"))

    ev = {"property": pid, "tier": tier, "seed": seed, "level": conf["level"], "coverage": cov, "assumptions": conf["assumptions"],
          "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    cov["exhaustive"] = False
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        path = os.path.join(outdir, f"{pid}_violation.json")
        with open(path, "w") as f:
            for r, i, why, line in violations[:20]:
                json.dump({"property": pid, "driver": r["driver"], "args": r.get("args", []), "case": i, "rejected_by": r["trace"], "why": why, "seed": seed, "tier": tier,
                           "replay": f"VERIF_SEED={seed} VERIF_TIER={tier} DRV_ONLY={i} {r['exe']} ... out.ndjson", "observed": line.strip()[:20000]}, f)
                f.write("\n")
        if any("script" in r for r, *_ in violations):
            for r in runs:
                if "script" in r:
                    shutil.copy(r["script"], os.path.join(outdir, f"{pid}_{os.path.basename(r['script'])}"))
        r, i, why, line = violations[0]
        log(f"[{pid}] first: case {i} ({'; '.join(why)}): {line.strip()[:600]}")
        log(f"VIOLATION property={pid} replay={path}")
        return 1
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    log(f"[{pid}] held: {cov['traces_validated_against_impl']} traces, {cov['states']} states, {time.time()-t0:.1f}s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        sys.exit(2)
