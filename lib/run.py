#!/usr/bin/env python3
"""Runs one property's check: builds its workloads from /repo's working tree, runs them under their
monitors and sanitizers, and turns what they recorded into a verdict and an evidence file.

    python3 lib/run.py ID [--replay FILE]

exit 0  held on everything observed          exit 1  a VIOLATION line was printed
exit 2  no verdict (build failure, starvation, time-out, ...): never reported as a violation
"""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import mkws  # noqa: E402
from checks import CHECKS  # noqa: E402

TARGET = "x86_64-unknown-linux-gnu"


class NoVerdict(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "VK_", "MIRI", "ASAN", "TSAN"))}
    env.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
               PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               RUST_BACKTRACE="0", INSTA_UPDATE="no")
    return env


def crate_dir(leg):
    c = leg["crate"]
    if c.startswith("ws:"):
        # a generated workspace; the sources in it are /repo's
        return mkws.make(c[3:])
    return os.path.join(VERIF, "harness", c)


def toolchain(mode):
    return "1.94" if mode == "native" else "nightly"


def target_dir(leg):
    c = leg["crate"]
    name = leg.get("target") or (f"ws-{c[3:]}-target" if c.startswith("ws:") else c)
    mode = leg.get("mode", "native")
    return os.path.join(VERIF, "build", name if mode == "native" else f"{name}-{mode}")


def cargo_setup(leg):
    """environment, cargo arguments, path of the binary"""
    mode = leg.get("mode", "native")
    env = base_env()
    if mode == "node":
        return env, [], f"{VERIF}/build/{leg['crate']}/extension.js"
    env["RUSTUP_TOOLCHAIN"] = toolchain(mode)
    env["CARGO_TARGET_DIR"] = target_dir(leg)
    args = []
    profile = "debug"
    if mode == "native":
        out = f"{target_dir(leg)}/{profile}/{leg['bin']}"
    else:
        args += ["--target", TARGET]
        out = f"{target_dir(leg)}/{TARGET}/{profile}/{leg['bin']}"
        if mode == "asan":
            env["RUSTFLAGS"] = "-Zsanitizer=address"
        elif mode == "tsan":
            env["RUSTFLAGS"] = "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"
            args += ["-Zbuild-std"]
        elif mode == "miri":
            env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-permissive-provenance"
    return env, args, out


#: Lock files to put back: a change of /repo's dependencies must not fail for the lock files here.
LOCKS = {}


def unlock(leg):
    """Whether the crate's lock file fits /repo's manifests; if not, lets it be rewritten for this run."""
    lock = f"{crate_dir(leg)}/Cargo.lock"
    if leg["crate"].startswith("ws:") or lock in LOCKS:
        return []
    env, _, _ = cargo_setup(leg)
    r = subprocess.run(["cargo", "metadata", "--offline", "--locked", "--format-version=1", "--manifest-path", f"{crate_dir(leg)}/Cargo.toml"],
                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=crate_dir(leg))
    if r.returncode != 0 and "--locked" in r.stderr and os.path.exists(lock):
        with open(lock, "rb") as f:
            LOCKS[lock] = f.read()
        return []
    return ["--locked"]


def relock():
    for path, data in LOCKS.items():
        with open(path, "wb") as f:
            f.write(data)
    LOCKS.clear()


def build(leg):
    mode = leg.get("mode", "native")
    env, args, out = cargo_setup(leg)
    if mode == "miri":
        return 0.0  # built by cargo miri run
    if mode == "node":
        t = time.time()
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = subprocess.run(["node", f"{crate_dir(leg)}/bundle.mjs", f"{mkws.REPO}/editors/code", out], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise NoVerdict(f"bundling the extension failed:\n{r.stdout[-6000:]}")
        return time.time() - t
    bins = [a for b in (leg["bin"], *leg.get("also", [])) for a in ("--bin", b)]
    cmd = ["cargo", "build", "--offline", *unlock(leg), "-q", "--manifest-path", f"{crate_dir(leg)}/Cargo.toml", *bins, *args]
    t = time.time()
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=crate_dir(leg))
    if r.returncode != 0:
        raise NoVerdict(f"build of {leg['bin']} ({mode}) failed:\n{r.stdout[-6000:]}")
    return time.time() - t


def read_journal(path):
    try:
        with open(path, "rb") as f:
            data = f.read()
        n = int.from_bytes(data[:8], "little")
        return data[8 : 8 + n].decode("utf-8", "replace")
    except OSError:
        return ""


SANITIZER = re.compile(
    r"ERROR: AddressSanitizer: ([\w-]+)|WARNING: ThreadSanitizer: ([\w -]+)|(?:error: )?(Undefined Behavior): |ERROR: (LeakSanitizer)|runtime (error)"
)


def sanitizer_key(text):
    m = SANITIZER.search(text)
    if not m:
        return None
    what = next(g for g in m.groups() if g).strip().replace(" ", "-")
    frame = re.search(r"(?:#\d+ [^\n]*?|--> |at )(?:/repo|/verif/build/ws-\w+)/((?:crates|xtask|editors)/\S+?)(?::\d+)*[\s)]", text[m.start():])
    where = frame.group(1) if frame else "?"
    return f"{what}@{where}"


def execute_all(leg, prop, seed, tier, replay, scratch, budget):
    """As many processes as the leg asks for, each with random cases of its own, taken together."""
    n = 1 if replay else leg.get("shards", {}).get(tier, 1)
    if n == 1:
        return execute(leg, prop, seed, tier, replay, scratch, budget)
    dirs = [os.path.join(scratch, f"shard{k}") for k in range(n)]
    for d in dirs:
        os.makedirs(d)
    if leg.get("unprivileged") or leg.get("mode") == "node":
        os.chown(scratch, 65534, 65534)
    with concurrent.futures.ThreadPoolExecutor(n) as pool:
        outs = list(pool.map(lambda k: execute(leg, prop, seed, tier, replay, dirs[k], budget, shard=k), range(n)))
    violations = {}
    for k, (_, found, _) in enumerate(outs):
        for v in found:
            v["shard"] = k
            violations.setdefault(v["key"], v)
    error = next((e for _, _, e in outs if e), None)
    records = [(r, d) for (r, _, _), d in zip(outs, dirs) if r]
    if not records:
        return None, list(violations.values()), error
    record = dict(records[0][0])
    distinct = set()
    for r, d in records:
        with open(os.path.join(d, "out.json.distinct"), "rb") as f:
            data = f.read()
        distinct.update(data[i : i + 8] for i in range(0, len(data), 8))
    maxima = {m for r, _ in records for m in r["maxima"]}
    counters = {}
    for r, _ in records:
        for k, v in r["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k in maxima else counters.get(k, 0) + v
    record.update(evaluations=sum(r["evaluations"] for r, _ in records), distinct_nontrivial=len(distinct), counters=counters,
                  inconclusive=[i for r, _ in records for i in r["inconclusive"]],
                  notes={**{k: v for r, _ in records for k, v in r["notes"].items()}, "processes": n})
    return record, list(violations.values()), error


#: A program is not copied while another is started: it would inherit the file open for writing, which then is "busy".
STARTING = threading.Lock()


def execute(leg, prop, seed, tier, replay, scratch, budget, shard=0):
    """One process. Returns (record or None, [violations], error or None)."""
    mode = leg.get("mode", "native")
    env, args, out = cargo_setup(leg)
    result = os.path.join(scratch, "out.json")
    journal = os.path.join(scratch, "journal")
    for p in (result, journal):
        if os.path.exists(p):
            os.remove(p)
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VK_OUT=result, VK_PROP=prop, VK_BUDGET=str(budget), VK_SCRATCH=scratch,
               VK_REPO="/repo", TMPDIR=scratch)
    env.update(leg.get("env", {}))
    if shard:
        env["VK_SHARD"] = str(shard)
    if replay:
        env["VK_REPLAY"] = replay
    if mode == "node":
        # as an unprivileged user, from files of its own: what it overwrites by mistake is its scratch directory at most
        for f in (out, f"{mkws.REPO}/editors/code/package.json", *glob.glob(f"{crate_dir(leg)}/*.js")):
            shutil.copy(f, scratch)
        env.update(VK_BUNDLE=f"{scratch}/extension.js", VK_MANIFEST=f"{scratch}/package.json", HOME=scratch)
        cmd = ["/usr/bin/setpriv", "--reuid", "65534", "--regid", "65534", "--clear-groups", shutil.which("node"), f"{scratch}/{leg['bin']}.js"]
        for d in (scratch, os.path.dirname(scratch)):
            os.chown(d, 65534, 65534)
    elif mode == "miri":
        cmd = ["cargo", "miri", "run", "-q", "--offline", *unlock(leg), "--manifest-path", f"{crate_dir(leg)}/Cargo.toml", "--bin", leg["bin"], *args]
        # nothing of the C library for the journal
    else:
        cmd = [out]
        env["VK_JOURNAL"] = journal
        # other programs the workload runs: VK_AIR for `air`, ...
        also = {f"VK_{b.upper()}": os.path.join(os.path.dirname(out), b) for b in leg.get("also", [])}
        env.update(also)
        if leg.get("unprivileged"):
            # what it may delete or overwrite by mistake is its own scratch directory at most
            mine = os.path.join(scratch, "workload")
            with STARTING:
                shutil.copy(out, mine)
                for k, v in also.items():
                    env[k] = shutil.copy(v, os.path.join(scratch, os.path.basename(v)))
            cmd = ["/usr/bin/setpriv", "--reuid", "65534", "--regid", "65534", "--clear-groups", mine]
            for d in (scratch, os.path.dirname(scratch)):
                os.chown(d, 65534, 65534)
            env["HOME"] = scratch
    env["ASAN_OPTIONS"] = "halt_on_error=1:abort_on_error=0:exitcode=95:detect_leaks=0:allocator_may_return_null=1"
    env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=96:report_signal_unsafe=0"
    limit = leg.get("limit", budget * 3 + 120)
    errfile = os.path.join(scratch, "stderr")
    with open(errfile, "wb") as err:
        if leg.get("unprivileged") or mode == "node":
            os.chown(errfile, 65534, 65534)
        with STARTING:
            p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err, cwd=scratch, start_new_session=True)
        try:
            code = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None, [], f"{leg['bin']} ({mode}) exceeded {limit} s"
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
    with open(errfile, "rb") as f:
        text = f.read().decode("utf-8", "replace")
    record = None
    if os.path.exists(result):
        with open(result) as f:
            record = json.load(f)
    violations = list(record["violations"]) if record else []
    inflight = read_journal(journal)
    skey = sanitizer_key(text) if mode not in ("native", "node") else None
    if skey:
        i = SANITIZER.search(text).start()
        violations.append({"key": f"{mode}:{skey}", "detail": text[i : i + 5000], "case": {"inflight": inflight, "mode": mode}})
        return record, violations, None
    if code == 0 and record is not None:
        return record, violations, None
    if code == 97:
        return None, [{"key": "does-not-return", "detail": f"no return within 20 s of CPU time on: {inflight[:2000]}", "case": {"inflight": inflight}}], None
    if code < 0 and -code in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
        if "memory allocation of" in text and -code == signal.SIGABRT:
            return None, [], f"{leg['bin']} ran out of memory"
        name = signal.Signals(-code).name
        return None, [{"key": f"died:{name}", "detail": f"{name} on: {inflight[:2000]}\n{text[-1500:]}", "case": {"inflight": inflight}}], None
    return None, [], f"{leg['bin']} ({mode}) ended with {code}:\n{text[-4000:]}"


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(rf"known: property={prop} key=(\S+) (.*)", line)
            if m:
                out[m[1]] = m[2].strip()
    return out


def main():
    prop = sys.argv[1]
    replay = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1]) if "--replay" in sys.argv else None
    check = CHECKS[prop]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    scratch_base = tempfile.mkdtemp(prefix=f"vk-{prop}-")
    os.chmod(scratch_base, 0o755)
    known = known_findings(prop)
    violations, seen_known, legs, errors, records = [], {}, [], [], []
    try:
        only = None
        if replay:
            try:
                only = json.load(open(replay)).get("leg")
            except (OSError, ValueError, AttributeError):
                pass
        for leg in check["legs"]:
            if tier == "quick" and leg.get("thorough_only"):
                continue
            name = leg.get("name") or f"{leg['bin']}/{leg.get('mode', 'native')}"
            if only and name != only:
                continue
            try:
                if leg.get("prepare"):
                    leg["prepare"]()
                build_s = build(leg)
            except NoVerdict as e:
                errors.append(f"{name}: {e}")
                continue
            budget = leg.get("budget", {}).get(tier, 20 if tier == "quick" else 240)
            scratch = os.path.join(scratch_base, re.sub(r"\W", "_", name))
            os.makedirs(scratch)
            t = time.time()
            record, found, error = execute_all(leg, prop, seed, tier, replay, scratch, budget)
            if [v["key"] for v in found] == ["does-not-return"] and not replay:
                # say so only if it happens again, at the same place
                _, again, _ = execute(leg, prop, seed, tier, replay, scratch, budget, shard=found[0].get("shard", 0))
                if [(v["key"], v["case"]) for v in again] != [(v["key"], v["case"]) for v in found]:
                    found, error = [], f"{leg['bin']} stopped once, and not again, on {found[0]['case']}"
            if error:
                errors.append(f"{name}: {error}")
            if record:
                records.append((name, leg, record))
                if record["notes"].get("starved") and not found and not replay:
                    errors.append(f"{name}: " + "; ".join(record["inconclusive"][:5]))
            legs.append({
                "leg": name, "mode": leg.get("mode", "native"), "build_s": round(build_s, 1), "run_s": round(time.time() - t, 1),
                "evaluations": record["evaluations"] if record else 0,
                "distinct_nontrivial": record["distinct_nontrivial"] if record else 0,
                "observed": record["counters"] if record else {},
                "notes": record["notes"] if record else {},
                "inconclusive": record["inconclusive"][:10] if record else [],
                "violations": len(found),
            })
            for v in found:
                v["leg"] = name
                if v["key"] in known:
                    seen_known[v["key"]] = v
                else:
                    violations.append(v)
    finally:
        relock()
        shutil.rmtree(scratch_base, ignore_errors=True)

    main_leg = records[0][2] if records else None
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": check.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(l["evaluations"] for l in legs),
            # of the first leg only: the legs of one check repeat each other's inputs
            "distinct_nontrivial": main_leg["distinct_nontrivial"] if main_leg else 0,
            "rule": check["rule"],
            "samples": (main_leg["samples"] if main_leg else []) or ["nothing was run"],
            "legs": legs,
            "errors": errors,
            "known_findings_observed": sorted(seen_known),
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    if not replay:
        with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
    for key, what in known.items():
        if key in seen_known:
            say(f"KNOWN-FINDING: property={prop} {what}")
        elif not replay:
            say(f"note: the known finding {key} was not observed in this run")
    if violations:
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        for i, v in enumerate(violations[:10]):
            path = f"replays/{prop}-{i}.json"
            with open(f"{VERIF}/{path}", "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, **v}, f, indent=1, ensure_ascii=False)
            say(f"{v['leg']}: {v['key']}: {v['detail'][:1500]}")
            say(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors:
            say("NO VERDICT:", e)
        return 2
    say(f"{prop}: held on {evidence['coverage']['evaluations']} evaluations ({evidence['coverage']['distinct_nontrivial']} distinct), {evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
