"""Builds the workers from /repo's working tree, runs them and reports.

check <ID> [--tier quick|thorough] [--seed N] [--keep]

exit 0: the property held on everything explored
exit 1: VIOLATION property=<id> replay=<path>
exit 2: no answer (the worker does not build, a bug of the worker, out of time)
"""
import concurrent.futures
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")

SQLITE_MOD = "github.com/mattn/go-sqlite3 v1.14.0"
SQLITE_SUM = (SQLITE_MOD + " h1:mLyGNKR8+Vv9CAU7PphKa2hkEqxxhn8i32J6FPj1/QA=\n"
              "github.com/mattn/go-sqlite3 v1.14.0/go.mod h1:JIl7NbARA7phWnGvh0LKTyg7S9BA+6gx71ShQilpsus=\n")

sys.path.insert(0, os.path.join(VERIF, "lib"))
from jobs import PROPS  # noqa: E402


class NoAnswer(Exception):
    pass


# --------------------------------------------------------------- building

FLAVOURS = {
    "plain": dict(flags=[], env={}),
    "race": dict(flags=["-race"], env={}),
    "asan": dict(flags=["-asan"], env={}),
    "ubsan": dict(flags=[], env={
        "CGO_CFLAGS": "-O1 -g -fsanitize=undefined -fno-sanitize-recover=undefined",
        "CGO_LDFLAGS": "-fsanitize=undefined"}),
    "tsan": dict(flags=[], env={
        "CGO_CFLAGS": "-O1 -g -fsanitize=thread",
        "CGO_LDFLAGS": "-fsanitize=thread"}),
}

RUN_ENV = {
    "plain": {},
    "race": {"GORACE": "halt_on_error=1 exitcode=66"},
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=67:quarantine_size_mb=16:malloc_context_size=8"},
    "ubsan": {"UBSAN_OPTIONS": "print_stacktrace=1:exitcode=68"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=69:report_signal_unsafe=0"},
}


def goenv(extra):
    env = dict(os.environ)
    for k in ("GOFLAGS", "GOOS", "GOARCH", "GOROOT"):
        env.pop(k, None)
    env.update(GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off", CGO_ENABLED="1", GOFLAGS="")
    env.setdefault("HOME", "/root")
    env.update(extra)
    return env


def sources(mod, group):
    """(name in the package, path) of the files of a worker."""
    out = []
    dirs = [os.path.join(HARNESS, "common")]
    dirs.append(os.path.join(HARNESS, "v6" if mod == "v6" else "v45"))
    for d in dirs:
        for f in sorted(os.listdir(d)):
            if not f.endswith(".go"):
                continue
            stem = f[:-3]
            if stem.startswith("sql_") and group != "sql":
                continue
            if stem.startswith("heap_") and group != "heap":
                continue
            if stem.startswith("mem_") and group != "mem":
                continue
            if mod == "v4" and stem.endswith("_only5") or mod == "v5" and stem.endswith("_only4"):
                continue
            out.append((f, os.path.join(d, f)))
    return out


def gomod(tmp, mod):
    """A copy of the go.mod and go.sum of the module, which go build may extend."""
    d = os.path.join(tmp, "mod-" + mod)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(REPO, mod, "go.mod")) as f:
        text = f.read()
    sums = ""
    p = os.path.join(REPO, mod, "go.sum")
    if os.path.exists(p):
        with open(p) as f:
            sums = f.read()
    p = os.path.join(VERIF, "gosum", mod + ".sum")
    if os.path.exists(p):
        with open(p) as f:
            extra = f.read()
        have = set(sums.splitlines())
        sums = sums.rstrip("\n") + ("\n" if sums else "")
        sums += "".join(l + "\n" for l in extra.splitlines() if l and l not in have)
    if mod == "v6":
        text += "\nrequire " + SQLITE_MOD + "\n"
        sums = sums.rstrip("\n") + ("\n" if sums else "") + SQLITE_SUM
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write(text)
    with open(os.path.join(d, "go.sum"), "w") as f:
        f.write(sums)
    return os.path.join(d, "go.mod")


def build(tmp, mod, flavour, group):
    d = os.path.join(tmp, "%s-%s-%s" % (mod, flavour, group))
    os.makedirs(d)
    replace = {}
    # cgo needs a directory that exists
    pkg = "cmd" if group in ("mem", "heap") else "cmd/zz_verif_worker"
    for name, path in sources(mod, group):
        if mod == "v4":
            with open(path) as f:
                text = f.read().replace("tree-search-language/v5", "tree-search-language/v4")
            path = os.path.join(d, name)
            with open(path, "w") as f:
                f.write(text)
        replace[os.path.join(REPO, mod, pkg, "zz_verif_" + name)] = path
    overlay = os.path.join(d, "overlay.json")
    with open(overlay, "w") as f:
        json.dump({"Replace": replace}, f)
    out = os.path.join(d, "worker")
    fl = FLAVOURS[flavour]
    cmd = ["go", "build", "-mod=mod", "-modfile=" + gomod(os.path.join(d), mod), "-overlay", overlay] + fl["flags"] + ["-o", out, "./" + pkg]
    r = subprocess.run(cmd, cwd=os.path.join(REPO, mod), env=goenv(fl["env"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoAnswer("the %s %s worker does not build:\n%s" % (mod, flavour, r.stdout[-6000:]))
    return out


def build_tool(tmp, mod, tool, flags):
    """Builds a command of the repository."""
    out = os.path.join(tmp, "tool-%s-%s" % (mod, tool))
    cmd = ["go", "build", "-mod=mod", "-modfile=" + gomod(os.path.join(tmp, "t-%s-%s" % (mod, tool)), mod)] + flags + ["-o", out, "./cmd/" + tool]
    r = subprocess.run(cmd, cwd=os.path.join(REPO, mod), env=goenv({}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoAnswer("%s/cmd/%s does not build:\n%s" % (mod, tool, r.stdout[-6000:]))
    return out


# ---------------------------------------------------------------- running

class Run:
    def __init__(self, job, shard, shards, binary, d, args):
        self.job, self.shard, self.shards, self.binary, self.args = job, shard, shards, binary, args
        self.base = os.path.join(d, "%s-%s-%s-%d" % (job["mod"], job["flavour"], job["group"], shard))
        self.rc = None

    def cmd(self, prop, tier, seed):
        return [self.binary, "-prop", prop, "-tier", tier, "-seed", str(seed), "-shard", str(self.shard), "-shards", str(self.shards),
                "-flavour", self.job["flavour"], "-out", self.base + ".json", "-journal", self.base + ".journal",
                "-arg", ",".join("%s=%s" % kv for kv in sorted(self.args.items()))]

    def journal(self):
        try:
            with open(self.base + ".journal", "rb") as f:
                data = f.read()
            head, rest = data.split(b"\n", 1)
            no, n = head.split()
            return int(no), rest[:int(n)].decode("utf-8", "backslashreplace")
        except (OSError, ValueError):
            return 0, ""

    def stderr(self):
        try:
            with open(self.base + ".err", errors="backslashreplace") as f:
                t = f.read()
            return t if len(t) < 16000 else t[:8000] + "\n...\n" + t[-8000:]
        except OSError:
            return ""


def execute(run, prop, tier, seed, stop, limit):
    if stop.is_set():
        return
    env = dict(os.environ)
    env.update(RUN_ENV[run.job["flavour"]])
    env["TMPDIR"] = os.path.dirname(run.base)
    env.setdefault("GOTRACEBACK", "single")
    if run.job["flavour"] == "plain" and run.shards > 1:
        env["GOMAXPROCS"] = "2"
    env.update(run.job.get("env", {}))
    with open(run.base + ".err", "wb") as err, open(run.base + ".stdout", "wb") as out:
        p = subprocess.Popen(run.cmd(prop, tier, seed), stdin=subprocess.DEVNULL, stdout=out, stderr=err, env=env,
                             cwd=os.path.dirname(run.base), start_new_session=True)
        end = time.time() + limit
        while True:
            try:
                run.rc = p.wait(timeout=0.1)
                break
            except subprocess.TimeoutExpired:
                if stop.is_set() or time.time() > end:
                    run.rc = "stopped" if stop.is_set() else "timeout"
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)  # children that are left
        except OSError:
            pass
    if run.rc not in (0, "stopped", "timeout", 3):
        stop.set()


def verdict(run):
    """The violation that a run shows, or None."""
    rc = run.rc
    no, case = run.journal()
    what = dict(case_no=no, case=case, module=run.job["mod"], flavour=run.job["flavour"], shard=run.shard, shards=run.shards)
    if rc == 1:
        with open(run.base + ".json") as f:
            v = json.load(f)["violation"]
        what.update(v)
        return what
    if rc == 4:
        what.update(clause="terminates", detail="a single case did not end within its limit", stack=run.stderr())
        return what
    what.update(clause="the process survives", detail="the worker ended with status %s (66 race, 67 address sanitizer, 68 undefined behaviour sanitizer, 69 thread sanitizer, 2 go runtime, negative: signal)" % rc, stack=run.stderr())
    return what


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    prop, only, i = None, None, 0
    while i < len(argv):
        a = argv[i]
        if a == "--tier":
            tier = argv[i + 1]; i += 1
        elif a == "--seed":
            seed = argv[i + 1]; i += 1
        elif a == "--only":
            only = argv[i + 1]; i += 1
        else:
            prop = a
        i += 1
    try:
        seed = int(seed)
    except ValueError:
        seed = 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if prop not in PROPS:
        print("usage: check <property> [--tier quick|thorough] [--seed N]; properties: " + " ".join(sorted(PROPS)))
        sys.exit(2)
    started = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = check(prop, tier, seed, tmp, started, only)
    except NoAnswer as e:
        print("NO ANSWER property=%s %s" % (prop, e))
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, seed, tmp, started, only):
    spec = PROPS[prop]
    jobs = []
    for j in spec["jobs"]:
        j = dict(j)
        j.setdefault("flavour", "plain")
        j.setdefault("group", "core")
        j.setdefault("tools", [])
        j.setdefault("shards", 8)
        if only and only not in (j["mod"], j["flavour"], j["mod"] + "-" + j["flavour"]):
            continue
        jobs.append(j)

    # Build the workers, two at a time, the go command is parallel.
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        bins = {}
        tools = {}
        for j in jobs:
            k = (j["mod"], j["flavour"], j["group"])
            if k not in bins:
                bins[k] = ex.submit(build, tmp, *k)
            for t in j["tools"]:
                if (j["mod"], t) not in tools:
                    tools[(j["mod"], t)] = ex.submit(build_tool, tmp, j["mod"], t, j.get("tool_flags", []))
        bins = {k: f.result() for k, f in bins.items()}
        tools = {k: f.result() for k, f in tools.items()}
    built = time.time() - started

    runs = []
    d = os.path.join(tmp, "run")
    os.makedirs(d)
    for j in jobs:
        args = dict(j.get("args", {}))
        for t in j["tools"]:
            args[t] = tools[(j["mod"], t)]
        args["repo"] = os.path.join(REPO, j["mod"])
        n = j["shards"]
        for s in range(n):
            runs.append(Run(j, s, n, bins[(j["mod"], j["flavour"], j["group"])], d, args))
    stop = threading.Event()
    limit = 6 * 3600 if tier == "thorough" else 800 - built
    width = min(j.get("width", 8) for j in jobs)
    for attempt in (1, 2):
        todo = [r for r in runs if r.rc is None or r.rc == -9]
        if not todo or (attempt == 2 and not any(r.rc == -9 for r in todo)):
            break
        if attempt == 2:
            # Killed: perhaps the machine was out of memory, so alone this time.
            stop.clear()
            width = 1
        with concurrent.futures.ThreadPoolExecutor(width) as ex:
            list(ex.map(lambda r: execute(r, prop, tier, seed, stop, limit), todo))

    bad = [r for r in runs if r.rc not in (0, "stopped", "timeout", 3, None)]
    violations = [verdict(r) for r in bad]
    # The evidence.
    evals, keys, counters, samples, known = 0, set(), {}, [], set()
    for r in runs:
        try:
            with open(r.base + ".json") as f:
                res = json.load(f)
            with open(r.base + ".json.keys", "rb") as f:
                b = f.read()
        except (OSError, ValueError):
            continue
        evals += res["evaluations"]
        keys.update(r.job["mod"].encode() + b[i:i + 8] for i in range(0, len(b), 8))
        pre = "" if len(set((j["mod"], j["flavour"]) for j in jobs)) == 1 else "%s %s: " % (r.job["mod"], r.job["flavour"])
        for k, v in res["counters"].items():
            counters[pre + k] = counters.get(pre + k, 0) + v
        if r.shard < 3:
            samples += [pre + s for s in (res["samples"] or [])[:3]]
        known.update(res["known"] or [])
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(keys), rule=spec.get("rule", "?"), samples=samples[:24] or ["(none)"],
                            events_observed=dict(sorted(counters.items())),
                            builds=["%s %s %s x%d" % (j["mod"], j["flavour"], j["group"], j["shards"]) for j in jobs],
                            build_s=round(built, 1)),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - started, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")

    listed = known_findings(prop)
    for k in sorted(known):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[k]))
        else:
            violations.append(dict(clause="known finding that is not listed", detail=k, case="", case_no=0))
    if violations:
        v = violations[0]
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-%d.txt" % (prop, tier, seed))
        with open(path, "w", errors="backslashreplace") as f:
            f.write("property: %s\nclause broken: %s\nmodule: %s   build: %s\n" % (prop, v["clause"], v.get("module"), v.get("flavour")))
            f.write("case %s:\n%s\n\nwhat was observed:\n%s\n" % (v["case_no"], v["case"], v["detail"]))
            if v.get("stack"):
                f.write("\n%s\n" % v["stack"])
            f.write("\nrun again: cd /verif && ./check %s --tier %s --seed %d   (the case list depends only on the seed)\n" % (prop, tier, seed))
        print("clause: %s\n%s" % (v["clause"], v["detail"][:2000]))
        if v.get("stack"):
            print(v["stack"][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    unsure = [r for r in runs if r.rc != 0]
    if unsure:
        r = unsure[0]
        raise NoAnswer("worker %s ended with %s\n%s" % (os.path.basename(r.base), r.rc, r.stderr()[-3000:]))
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (prop, tier, seed, evals, len(keys), time.time() - started))
    return 0


def known_findings(prop):
    out = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("known: "):
                    kv = dict(x.split("=", 1) for x in line.split()[1:3])
                    if kv.get("property") == prop:
                        out[kv["key"]] = line.split(None, 3)[3].strip()
    except OSError:
        pass
    return out
