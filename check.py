#!/usr/bin/env python3
"""Runs the property-based checks of /verif against the working tree of /repo.

  check.py C01 [--tier quick|thorough] [--seed N]      run one check
  check.py C01 --replay replays/C01-xxxx.json          re-run a recorded failure
  check.py --list                                      list the configured checks

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: the machinery itself could not run.
"""
import argparse, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VP_REPO", "/repo"))
SRC = VERIF / "src"
BUILD = VERIF / "build"
REPLAYS = VERIF / "replays"
EVID = VERIF / "evidence"
sys.path.insert(0, str(VERIF))
from checks import CHECKS, LEVEL, ASSUME  # noqa: E402

NCPU = max(1, min(8, os.cpu_count() or 1))
CXX = "clang++"
BASE = ["-std=c++17", "-w", "-g0", "-fno-omit-frame-pointer", "-ftemplate-backtrace-limit=3", "-fmacro-backtrace-limit=1"]
SAN = ["-fsanitize=address,alignment,return", "-fno-sanitize-recover=all"]
TSAN = ["-fsanitize=thread"]
STALL_S = 40        # a single case normally takes milliseconds
REPLAY_TIMEOUT = 60

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:symbolize=0:detect_odr_violation=0"
ENV["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:symbolize=0"
ENV["TSAN_OPTIONS"] = "exitcode=97:halt_on_error=1:symbolize=0:report_thread_leaks=0"
ENV.pop("LD_PRELOAD", None)


class Machinery(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---- building ---------------------------------------------------------------
def tree_hash():
    h = hashlib.sha256()
    for root in (REPO / "include", SRC):
        for p in sorted(root.rglob("*")):
            if p.is_file():
                h.update(str(p).encode()); h.update(b"\0"); h.update(p.read_bytes()); h.update(b"\0")
    h.update(" ".join(BASE + SAN + TSAN).encode())
    return h.hexdigest()[:16]


def compile_bin(b, fuzzer=False):
    """b: dict name, src, defs, san, libs. Returns (path, None) or (None, log)."""
    out = BUILD / ("%s%s-%s" % (b["name"], "-fuzz" if fuzzer else "", TREE))
    if out.exists():
        return out, None
    BUILD.mkdir(exist_ok=True)
    tmp = out.with_suffix(".tmp%d" % os.getpid())
    san = TSAN if b.get("san") == "thread" else [] if b.get("san") == "none" else SAN
    if fuzzer:
        san = ["-fsanitize=fuzzer,address,alignment,return", "-fno-sanitize-recover=all", "-DVP_FUZZER"]
    common = [CXX] + BASE + [b.get("opt", "-O1")] + san + b.get("cflags", []) + ["-D" + d for d in b.get("defs", [])] + ["-I", str(REPO / "include"), "-I", str(SRC)]
    if b.get("so"):   # a module to be loaded dynamically, with symbols of its own
        so = BUILD / ("%s%s-%s.so" % (b["name"], "-fuzz" if fuzzer else "", TREE))
        common += ["-fvisibility=hidden", "-fPIC"]
        stmp = so.with_suffix(".tmp%d" % os.getpid())
        cmd = [x for x in common if x != "-DVP_FUZZER" and not x.startswith("-fsanitize=fuzzer")] + (["-fsanitize=address,alignment,return"] if fuzzer else []) + ["-shared", str(SRC / b["so"]), "-o", str(stmp)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            return None, " ".join(cmd) + "\n" + p.stdout
        os.replace(stmp, so)
        common += ['-DVP_SO="%s"' % so]
    cmd = common + [str(SRC / b["src"]), "-o", str(tmp)] + b.get("libs", [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        if tmp.exists():
            tmp.unlink()
        return None, " ".join(cmd) + "\n" + p.stdout
    os.replace(tmp, out)
    return out, None


def toolchain_ok():
    d = tempfile.mkdtemp(prefix="vp-tc-")
    try:
        f = Path(d) / "t.cpp"
        f.write_text("#include <vector>\n#include <unordered_map>\n#include <boost/iterator/iterator_facade.hpp>\nint main(){std::vector<int> v(3);return (int)v.size()-3;}\n")
        for san in (SAN, TSAN):
            p = subprocess.run([CXX] + BASE + ["-O1"] + san + [str(f), "-o", d + "/t"], capture_output=True)
            if p.returncode != 0:
                return False
            if subprocess.run([d + "/t"], env=ENV, capture_output=True).returncode != 0:
                return False
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- running ------------------------------------------------------------------
def read_shm(path):
    """choices of the case that was running"""
    try:
        with open(path, "rb") as f:
            h = f.read(32)
            if len(h) < 32:
                return None
            idx, n, done, _ = struct.unpack("<4Q", h)
            raw = f.read(4 * n)
            return idx, list(struct.unpack("<%dI" % (len(raw) // 4), raw[: len(raw) // 4 * 4])), done
    except OSError:
        return None


def run_worker(binpath, b, seed, w, workers, cases, cap, scratch, stop):
    stem = scratch / ("%s-%d" % (b["name"], w))
    out, shm = str(stem) + ".json", str(stem) + ".shm"
    cmd = [str(binpath), "--run", "--seed", str(seed), "--tag", b["name"], "--worker", str(w), "--workers", str(workers),
           "--cases", str(cases), "--shm", shm, "--out", out, "--max-seconds", str(cap)]
    errf = open(str(stem) + ".err", "wb")
    p = subprocess.Popen(cmd, stdout=errf, stderr=subprocess.STDOUT, env=ENV, cwd=str(scratch))
    last, last_t, hung = None, time.time(), False
    while True:
        try:
            p.wait(timeout=0.1)
            break
        except subprocess.TimeoutExpired:
            if stop.is_set():
                p.kill(); p.wait(); break
            s = read_shm(shm)
            cur = (s[0], len(s[1])) if s else None
            if cur != last:
                last, last_t = cur, time.time()
            elif time.time() - last_t > STALL_S:
                hung = True
                p.kill(); p.wait(); break
    errf.close()
    res = {"bin": b["name"], "worker": w, "rc": p.returncode, "hung": hung, "json": None, "choices": None, "stopped": stop.is_set()}
    if os.path.exists(out):
        try:
            res["json"] = json.load(open(out))
            res["hashes"] = out + ".h"
        except ValueError:
            pass
    res["err"] = open(str(stem) + ".err", "rb").read()[-6000:].decode("utf8", "replace")
    if res["json"] and res["json"]["violation"]:
        res["fail"] = res["json"]["violation"]
        res["choices"] = res["json"]["fail_choices"]
        stop.set()
    elif hung:
        s = read_shm(shm)
        res["fail"] = "case did not finish within %d s" % STALL_S
        res["choices"] = s[1] if s else None
        stop.set()
    elif res["json"] is None and not res["stopped"]:
        s = read_shm(shm)
        res["fail"] = "process ended abnormally (rc %s): %s" % (p.returncode, first_report(res["err"]))
        res["choices"] = s[1] if s else None
        stop.set()
    return res


def first_report(err):
    for line in err.splitlines():
        if "ERROR:" in line or "runtime error" in line or "WARNING: ThreadSanitizer" in line or "terminate called" in line or "Assertion" in line or "hard rss" in line:
            return re.sub(r"==\d+==", "", line).strip()[:300]
    return (err.strip().splitlines() or ["no output"])[-1][:300]


def replay_once(binpath, choices, timeout=REPLAY_TIMEOUT, trace=False):
    """returns (failed, message, trace)"""
    d = tempfile.mkdtemp(prefix="vp-rp-")
    try:
        f = Path(d) / "c"
        f.write_text(" ".join(map(str, choices)))
        cmd = [str(binpath), "--replay", str(f)] + (["--trace"] if trace else [])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            return True, "case did not finish within %d s" % timeout, ""
        o = p.stdout.decode("utf8", "replace")
        tr = ""
        m = re.search(r"^TRACE (.*)$", o, re.M)
        if m:
            tr = m.group(1)
        if p.returncode == 0:
            return False, "", tr
        m = re.search(r"^FAIL (.*)$", o, re.M)
        return True, (m.group(1) if m else "process ended abnormally (rc %s): %s" % (p.returncode, first_report(o))), tr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shrink(binpath, choices, hang, budget=40.0):
    t0 = time.time()
    to = 10 if not hang else 20
    tried = 0

    def bad(c):
        nonlocal tried
        tried += 1
        return replay_once(binpath, c, timeout=to)[0]

    cur = list(choices)
    if hang:
        budget = 60
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        # truncate the tail, then delete chunks
        size = max(1, len(cur) // 2)
        while size >= 1 and time.time() - t0 < budget:
            i = max(0, len(cur) - size)
            while time.time() - t0 < budget:
                cand = cur[:i] + cur[i + size:]
                if len(cand) < len(cur) and bad(cand):
                    cur = cand
                    improved = True
                if i == 0:
                    break
                i = max(0, i - size)
            size //= 2
        for i in range(len(cur)):
            if time.time() - t0 > budget:
                break
            if i < len(cur) and cur[i] > 0:
                for v in (0, 1, cur[i] // 2, cur[i] - 1):
                    if v < cur[i]:
                        cand = cur[:i] + [v] + cur[i + 1:]
                        if bad(cand):
                            cur = cand
                            improved = True
                            break
    while cur and cur[-1] == 0 and bad(cur[:-1]):
        cur.pop()
    return cur, tried


def write_replay(pid, binname, choices, msg, trace, extra=None):
    REPLAYS.mkdir(exist_ok=True)
    h = hashlib.sha256((binname + repr(choices) + msg).encode()).hexdigest()[:10]
    p = REPLAYS / ("%s-%s.json" % (pid, h))
    d = {"property": pid, "binary": binname, "choices": choices, "message": msg, "history": trace,
         "rerun": "python3 check.py %s --replay %s" % (pid, p.relative_to(VERIF))}
    d.update(extra or {})
    p.write_text(json.dumps(d, indent=1) + "\n")
    return p


def known_findings():
    out = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)$", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def run_check(pid, tier, seed):
    t0 = time.time()
    spec = CHECKS[pid]
    bins = spec["bins"]
    ev_file = EVID / ("%s.json" % pid)
    EVID.mkdir(exist_ok=True)
    if ev_file.exists():
        ev_file.unlink()
    scratch = Path(tempfile.mkdtemp(prefix="vp-%s-" % pid))
    violations = []
    results = []
    fuzz_stats = []
    try:
        with ThreadPoolExecutor(NCPU) as ex:
            built = list(ex.map(compile_bin, bins))
        t_build = time.time() - t0
        paths = {}
        for b, (p, err) in zip(bins, built):
            if p is None:
                if not toolchain_ok():
                    raise Machinery("toolchain not working")
                REPLAYS.mkdir(exist_ok=True)
                lp = REPLAYS / ("%s-build-%s.log" % (pid, b["name"]))
                lp.write_text(err)
                m = re.search(r"^.*error:.*$", err, re.M)
                log("%s: client program using only the public interface does not compile: %s" % (b["name"], (m.group(0) if m else err[-300:])[:400]))
                violations.append((b["name"], "client program does not compile", lp))
            else:
                paths[b["name"]] = p
        if not violations:
            stop = threading.Event()
            tasks = []
            for b in bins:
                cases = b["cases"] * (spec.get("thorough_factor", 20) if tier == "thorough" else 1)
                workers = max(1, min(b.get("workers", NCPU), cases))
                for w in range(workers):
                    tasks.append((b, w, workers, cases))
            tasks.sort(key=lambda t: t[1])
            cap = 1800 if tier == "thorough" else 240
            deadline = t0 + (20000 if tier == "thorough" else 640)   # a starved machine explores less instead of giving no answer
            with ThreadPoolExecutor(spec.get("parallel", NCPU)) as ex:
                def go(t):
                    if stop.is_set():
                        return None
                    b, w, n, cases = t
                    return run_worker(paths[b["name"]], b, seed, w, n, cases, max(2, min(cap, deadline - time.time())), scratch, stop)
                results = [r for r in ex.map(go, tasks) if r]
            fails = [r for r in results if r.get("fail")]
            for r in fails[:1]:
                def rerun(r):
                    b, w, n, cases = [t for t in tasks if t[0]["name"] == r["bin"] and t[1] == r["worker"]][0]
                    return run_worker(paths[b["name"]], b, seed, w, n, cases, cap, scratch, threading.Event())
                v, again = confirm(pid, bins, paths, r, rerun)
                violations += v
                if again:       # a worker was stopped by the machine: everything else is run again as well
                    results = [again]
                    stop.clear()
                    with ThreadPoolExecutor(max(1, spec.get("parallel", NCPU) // 2)) as ex:
                        results += [x for x in ex.map(go, [t for t in tasks if not (t[0]["name"] == r["bin"] and t[1] == r["worker"])]) if x]
                    if [x for x in results if x.get("fail")]:
                        raise Machinery("workers keep being stopped: %s" % [x["fail"] for x in results if x.get("fail")][:2])
            if tier == "thorough" and not violations and spec.get("fuzz_seconds", 120):
                fz, v = run_fuzz(pid, spec, bins, paths, scratch, seed)
                fuzz_stats = fz
                violations += v
        # ---- evidence
        cov = coverage(results, spec, fuzz_stats)
        cov["build_s"] = round(t_build, 1)
        kf = known_findings()
        for lab in sorted(cov["labels"]):
            if lab.startswith("known:"):
                fid = lab[6:]
                if (pid, fid) in kf:
                    log("KNOWN-FINDING: property=%s %s: %s (seen %d times in this run)" % (pid, fid, kf[(pid, fid)], cov["labels"][lab]))
                else:
                    p = write_replay(pid, "-", [], "finding %s is not listed in known_findings.txt" % fid, "")
                    violations.append(("-", "unlisted finding " + fid, p))
        ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL.get(pid, "exploration"), "coverage": cov,
              "assumptions": ASSUME + spec.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        ev_file.write_text(json.dumps(ev, indent=1) + "\n")
        log("%s %s seed=%d: %d cases, %d distinct non-trivial, %d build+run s, %d violation(s)" % (
            pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"], len(violations)))
        for name, msg, p in violations:
            log("  %s: %s" % (name, msg[:600]))
        if violations:
            log("VIOLATION property=%s replay=%s" % (pid, violations[0][2]))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def confirm(pid, bins, paths, r, rerun):
    """replays a failure; only one that reproduces is reported"""
    path = paths[r["bin"]]
    b = [x for x in bins if x["name"] == r["bin"]][0]
    if r["choices"] is None:
        r["choices"] = []
    n = 3 if not b.get("nondet") else 25
    tries = [replay_once(path, r["choices"], timeout=30 if r["hung"] else REPLAY_TIMEOUT) for _ in range(3 if r["hung"] else n)]
    bad = [t for t in tries if t[0]]
    killed = r["hung"] or "rss" in r["fail"] or r.get("rc") in (-9, -15)
    if "FATAL: ThreadSanitizer" in r.get("err", ""):
        raise Machinery("ThreadSanitizer cannot run here: %s" % r["err"][:300])
    if b.get("nondet") and (bad or not killed):
        # schedule dependent (TSan): one report is a proof of the race, as TSan reports no false races here
        msg = bad[0][1] if bad else r["fail"]
        p = write_replay(pid, r["bin"], r["choices"], msg, r.get("err", "")[-3000:], {"reproduced": "%d/%d" % (len(bad), n)})
        return [(r["bin"], msg, p)], None
    if not bad:
        # the recorded case alone passes: run the worker's whole sequence of cases again
        again = rerun(r)
        if not again.get("fail"):
            if killed:      # out of memory or starved machine, not a fact about the code
                log("note: %s worker %d was stopped (%s); its cases passed when run again" % (r["bin"], r["worker"], r["fail"]))
                return [], again
        p = write_replay(pid, r["bin"], r["choices"], r["fail"], r.get("err", "")[-3000:],
                         {"reproduced": "0/%d replays of the case alone; whole worker run again: %s" % (len(tries), "fails" if again.get("fail") else "passes")})
        return [(r["bin"], r["fail"] + " (depends on the process history)", p)], None
    if len(bad) < len(tries):
        p = write_replay(pid, r["bin"], r["choices"], bad[0][1], "", {"reproduced": "%d/%d" % (len(bad), len(tries))})
        return [(r["bin"], bad[0][1] + " (reproduced %d/%d times)" % (len(bad), len(tries)), p)], None
    small, tried = shrink(path, r["choices"], r["hung"])
    f, msg, tr = replay_once(path, small, trace=True)
    if not f:
        small = r["choices"]
        f, msg, tr = replay_once(path, small, trace=True)
    p = write_replay(pid, r["bin"], small, msg, tr, {"original_choices": len(r["choices"]), "shrink_attempts": tried, "first_message": r["fail"]})
    return [(r["bin"], msg + ("  [" + tr + "]" if tr else ""), p)], None


def run_fuzz(pid, spec, bins, paths, scratch, seed):
    """coverage-guided search over the same choice sequences (thorough tier)"""
    fb = [b for b in bins if b.get("san") not in ("thread",) and not b.get("nofuzz")]
    if not fb:
        return [], []
    with ThreadPoolExecutor(NCPU) as ex:
        built = list(ex.map(lambda b: compile_bin(b, True), fb))
    stats, viol = [], []
    jobs = []
    per = max(1, NCPU // len(fb))
    secs = int(os.environ.get("VP_FUZZ_SECONDS", spec.get("fuzz_seconds", 120)))
    for b, (p, err) in zip(fb, built):
        if p is None:
            raise Machinery("fuzz target %s does not build: %s" % (b["name"], err[-500:]))
        for j in range(per):
            d = scratch / ("fz-%s-%d" % (b["name"], j))
            (d / "corpus").mkdir(parents=True)
            jobs.append((b, p, d, seed * 100 + j + 1))

    def go(job):
        b, p, d, s = job
        o = open(d / "log", "wb")
        e = dict(ENV); e["ASAN_OPTIONS"] += ":handle_abort=1"
        subprocess.run([str(p), "-seed=%d" % s, "-max_total_time=%d" % secs, "-max_len=2048", "-timeout=30", "-rss_limit_mb=3000",
                        "-artifact_prefix=%s/art-" % d, "-print_final_stats=1", "corpus"], cwd=str(d), stdout=o, stderr=subprocess.STDOUT, env=e)
        o.close()
        t = (d / "log").read_text(errors="replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t)
        c = re.findall(r"cov: (\d+) ft: (\d+)", t)
        return b, int(m.group(1)) if m else 0, c[-1] if c else ("0", "0"), sorted(d.glob("art-*")), t
    with ThreadPoolExecutor(NCPU) as ex:
        for b, n, c, arts, t in ex.map(go, jobs):
            stats.append({"target": b["name"], "executions": n, "edges": int(c[0]), "features": int(c[1])})
            for a in arts:
                if a.name.startswith("art-slow") or a.name.startswith("art-oom"):
                    continue
                raw = a.read_bytes()
                ch = [raw[i] | (raw[i + 1] << 8) for i in range(0, len(raw) - 1, 2)]
                r = {"bin": b["name"], "choices": ch, "fail": "found by libFuzzer", "hung": a.name.startswith("art-timeout"), "err": t[-3000:]}
                if not viol and all(replay_once(paths[b["name"]], ch)[0] for _ in range(3)):
                    viol += confirm(pid, bins, paths, r, None)[0]
    return stats, viol


def coverage(results, spec, fuzz_stats):
    hs = set()
    labels = {}
    ev = nt = units = mx = 0
    samples, rules, per = [], [], {}
    for r in results:
        j = r["json"]
        if not j:
            continue
        ev += j["evaluations"]; nt += j["nontrivial"]; units += j["units"]; mx = max(mx, j["max_choices"])
        pb = per.setdefault(r["bin"], {"evaluations": 0, "nontrivial": 0})
        pb["evaluations"] += j["evaluations"]; pb["nontrivial"] += j["nontrivial"]
        for k, v in j["labels"].items():
            labels[k] = labels.get(k, 0) + v
        if j["rule"] not in rules:
            rules.append(j["rule"])
        if r["worker"] == 0:
            samples += ["%s: %s" % (r["bin"], s) for s in j["samples"][:2]]
        try:
            raw = open(r["hashes"], "rb").read()
            salt = hash(r["bin"]) & 0xFFFF
            hs.update((salt, x) for (x,) in struct.iter_unpack("<Q", raw))
        except (OSError, KeyError):
            pass
    c = {"evaluations": ev, "distinct_nontrivial": len(hs), "nontrivial": nt, "rule": " / ".join(rules), "samples": samples[:8] or ["(no case completed)"],
         "labels": labels, "per_binary": per, "max_choices_in_a_case": mx}
    if units:
        c["checked_points"] = units
    if fuzz_stats:
        c["coverage_guided"] = fuzz_stats
    return c


def do_replay(pid, path):
    d = json.loads(Path(path).read_text())
    b = [x for x in CHECKS[pid]["bins"] if x["name"] == d["binary"]][0]
    p, err = compile_bin(b)
    if p is None:
        log(err[-3000:])
        return 1
    f, msg, tr = replay_once(p, d["choices"], trace=True)
    log("history:", tr)
    log("FAILS: " + msg if f else "passes")
    if f:
        log("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if f else 0


def prune_build():
    if BUILD.exists():
        for p in BUILD.iterdir():
            if not p.name.endswith(TREE):
                try:
                    p.unlink()
                except OSError:
                    pass


def main():
    global TREE
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.list:
        for k in CHECKS:
            log(k, " ".join(b["name"] for b in CHECKS[k]["bins"]))
        return 0
    if a.selftest:
        ok = toolchain_ok()
        log("toolchain", "ok" if ok else "BROKEN")
        return 0 if ok else 2
    TREE = tree_hash()
    if not (REPO / "include/boost/poly_collection/base_collection.hpp").exists():
        log("no poly_collection headers in", REPO)
        return 2
    try:
        if a.replay:
            return do_replay(a.pid, a.replay)
        if not os.environ.get("VP_KEEP_BUILD"):
            prune_build()
        return run_check(a.pid, a.tier, a.seed)
    except Machinery as e:
        log("MACHINERY:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
