"""Shared machinery of the checks: build the harness, run scenarios against the real code, run TLC
on models and on recorded traces, report violations and evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 4))


class ToolError(Exception):
    pass


class Check:
    """One run of one property's check."""

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.quick = tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rnd = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"oxv-{pid}-")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.scenarios = 0
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.violations = []
        self.models = []
        self.action_counts = {}
        self.bin = None

    def lap(self, what):
        if os.environ.get("OXV_TIME"):
            print(f"   [{time.time() - self.t0:6.1f}] {what}", file=sys.stderr)

    # ------------------------------------------------------------------ build
    def build(self, cli=False, rows=False):
        self.bin = build_harness(cli, rows)
        self.lap("built")
        return self.bin

    # ------------------------------------------------------------ run harness
    def run(self, scens, parallel=CORES, timeout=150, env=None):
        """Runs scenarios (dicts id/ops; "$D" in strings is a private scratch directory) and
        returns {id: [events]}.  A scenario whose process ended early gets a final Aborted event."""
        if not scens:
            return {}
        ids = [s["id"] for s in scens]
        assert len(set(ids)) == len(ids), "scenario ids not unique"
        k = max(1, min(parallel, len(scens)), -(-len(scens) // 120))      # a process keeps the files it has opened
        chunks = [scens[i::k] for i in range(k)]
        out = {}
        with cf.ThreadPoolExecutor(parallel) as ex:
            for r in ex.map(lambda c: self._run_chunk(c, timeout, env), chunks):
                out.update(r)
        self.scenarios += len(scens)
        self.lap(f"ran {len(scens)} scenarios")
        return out

    def _run_chunk(self, scens, timeout, env):
        res = {}
        todo = list(scens)
        ended = 0
        while todo:
            # a directory whose name has the same length on every machine and in every run
            d = tempfile.mkdtemp(prefix="s", dir=self.tmp)
            text = "".join(json.dumps(subst(s, d)) + "\n" for s in todo)
            e = dict(os.environ)
            e.update(env or {})
            p = subprocess.Popen([self.bin], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, text=True, env=e, cwd=d, errors="replace",
                                 preexec_fn=limits)
            timed = False
            try:
                o, err = p.communicate(text, timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                o, err = p.communicate()
                timed = True
            if p.returncode == 3 or "harness:" in err:
                raise ToolError("harness: " + err[-800:])
            cur = None
            for line in o.splitlines():
                try:
                    ev = json.loads(line.replace(d, "$D"))
                except ValueError:
                    continue
                if ev["ev"] == "Scenario":
                    cur = ev["id"]
                    res[cur] = []
                if cur is not None:
                    res[cur].append(ev)
            fin = [s for s in todo if s["id"] in res]
            if not timed and p.returncode == 137 and cur is not None:
                pass
            elif not timed and p.returncode == 0 and len(fin) == len(todo):
                rmtree(d)
                return res
            # the process ended inside the last scenario it started
            last = cur if cur is not None else todo[0]["id"]
            res.setdefault(last, [dict(ev="Scenario", id=last)])
            if not (res[last] and res[last][-1]["ev"] == "End"):
                why = "no answer within the time limit" if timed else f"process ended with {p.returncode}"
                res[last].append(dict(ev="Aborted", code=(p.returncode if not timed else -1000), why=why))
            i = [s["id"] for s in todo].index(last)
            todo = todo[i + 1:]
            rmtree(d)
            ended += p.returncode != 137        # 137: the scenario itself ends the process
            if timed or ended > 12:      # that is enough to report; the rest is not run
                return res
        return res

    def scratch(self):
        return tempfile.mkdtemp(prefix="k", dir=self.tmp)

    # ------------------------------------------------------------------- TLC
    def model(self, module, cfg=None, timeout=600, workers=CORES, note="", simulate=None, env=None, mem="4g",
              must=()):
        """Checks a model exhaustively (or by simulation); an error in it is a tool error: the
        design itself does not depend on /repo."""
        r = tlc(module, cfg or module, self.tmp, workers=workers, timeout=timeout, simulate=simulate, env=env, mem=mem,
                coverage=bool(must))
        if not r["ok"]:
            raise ToolError(f"model {module}/{cfg}: {r['out'][-3000:]}")
        for a in must:
            if r["actions"].get(a, 0) == 0:
                raise ToolError(f"model {module}: action {a} never taken (vacuous)\n" + r["out"][-1500:])
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append(dict(module=module, cfg=cfg or module, states=r["distinct"], transitions=r["generated"],
                                depth=r["depth"], note=note))
        self.lap(f"model {module}")
        return r

    def model_fails(self, module, cfg, inv, note=""):
        """The model speaks: with one ingredient of the design left out, the invariant is broken."""
        r = tlc(module, cfg, self.tmp, workers=2)
        if (r["kind"] not in ("invariant", "eval")) if inv is None else (r["kind"] != "invariant" or r["inv"] != inv):
            raise ToolError(f"model {module}/{cfg}: expected {inv} to be violated: {r['out'][-2000:]}")
        self.transitions += r["generated"]
        self.models.append(dict(module=module, cfg=cfg, states=r["distinct"], transitions=r["generated"], depth=r["depth"],
                                note=f"without it {inv} is violated, as it must: {note}"))

    def gen(self, module, cfg, num, depth, timeout=300, env=None, seed=None):
        """Behaviours printed by a generator model run with -simulate: list of JSON values."""
        k = max(1, min(CORES, num // 20 or 1))
        per = (num + k - 1) // k
        with cf.ThreadPoolExecutor(k) as ex:
            rs = list(ex.map(lambda j: tlc(module, cfg, self.tmp, workers=1, timeout=timeout, env=env,
                                           simulate=f"num={per}", depth=depth,
                                           seed=(seed or self.seed) * 1000 + j), range(k)))
        out, seen = [], set()
        for r in rs:
            if not r["ok"]:
                raise ToolError(f"generator {module}: {r['out'][-2000:]}")
            for line in r["out"].splitlines():
                if line.startswith('"BEHAVIOUR '):
                    line = json.loads(line)[len("BEHAVIOUR "):]
                    if line not in seen:
                        seen.add(line)
                        out.append(json.loads(line))
            self.transitions += r["generated"]
        if not out:
            raise ToolError(f"generator {module} produced nothing: {rs[0]['out'][-1500:]}")
        self.lap(f"generated {len(out)} with {module}")
        return out

    def enum(self, module, cfg, timeout=300, env=None, workers=1):
        """Every behaviour/case a generator model prints when explored exhaustively."""
        r = tlc(module, cfg, self.tmp, workers=workers, timeout=timeout, env=env)
        if not r["ok"]:
            raise ToolError(f"enumeration {module}: {r['out'][-2000:]}")
        out, seen = [], set()
        for line in r["out"].splitlines():
            if line.startswith('"BEHAVIOUR '):
                line = json.loads(line)[len("BEHAVIOUR "):]
                if line not in seen:
                    seen.add(line)
                    out.append(json.loads(line))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append(dict(module=module, cfg=cfg, states=r["distinct"], transitions=r["generated"],
                                depth=r["depth"], note="exhaustive enumeration of cases"))
        self.lap(f"enumerated {len(out)} with {module}")
        return out

    def validate(self, module, traces, cfg=None, timeout=600, per=2500, mem="3g", env=None, scens=None, mutants=()):
        """Checks recorded traces ({id: events}) against a trace specification.  Every rejected
        scenario becomes a violation (one TLC run finds the first; the rest is checked again
        without it, up to a few)."""
        groups = pack_groups(traces, per)
        rejected = []
        with cf.ThreadPoolExecutor(CORES) as ex:
            for rej, n, e in ex.map(lambda g: self._validate_group(module, cfg, g, timeout, mem, env), groups):
                rejected += rej
                self.traces += n
                self.events += e
        byid = {s["id"]: s for s in (scens or [])}
        for sid, idx, ev, why in rejected:
            self.violation(sid, byid.get(sid), traces[sid], idx, ev, why, module)
        if not rejected and mutants:
            self._selftest(module, cfg, traces, timeout, mem, env, mutants)
        self.sample(traces)
        self.lap(f"validated {len(traces)} traces in {len(groups)} groups")
        return rejected

    def _selftest(self, module, cfg, traces, timeout, mem, env, mutants):
        """The binding is not vacuous: each mutant (name, function events -> corrupted events or None) of an
        accepted trace must be rejected."""
        jobs = []
        for name, f in mutants:
            for sid, evs in traces.items():
                if len(evs) < 400:
                    m = f(json.loads(json.dumps(evs)))
                    if m is not None:
                        jobs.append((name, sid, m))
                        break
        with cf.ThreadPoolExecutor(CORES) as ex:
            rs = list(ex.map(lambda j: self._validate_group(module, cfg, [(j[1], j[2])], timeout, mem, env)[0], jobs))
        for (name, sid, _), r in zip(jobs, rs):
            if not r:
                raise ToolError(f"self test: {module} accepts trace {sid} corrupted by {name}")
        self.extra.setdefault("corrupted_traces_rejected", []).extend(j[0] for j in jobs)

    def _validate_group(self, module, cfg, g, timeout, mem, env):
        rej = []
        todo = list(g)
        n = e = 0
        while todo:
            path = tempfile.mktemp(prefix="t", suffix=".ndjson", dir=self.tmp)
            index = []
            with open(path, "w") as f:
                for sid, evs in todo:
                    for j, ev in enumerate(evs):
                        index.append((sid, j, ev))
                        f.write(json.dumps(ev) + "\n")
            en = dict(env or {})
            en["TRACE"] = path
            r = tlc(module, cfg or module, self.tmp, workers=1, timeout=timeout, env=en, mem=mem)
            os.unlink(path)
            m = re.search(r"TRACE-MATCHED (-?\d+) OF (\d+)", r["out"])
            if r["ok"] and m and m.group(1) == m.group(2) and int(m.group(2)) == len(index):
                n += len(todo)
                e += len(index)
                break
            if m and int(m.group(1)) < len(index) and r["kind"] in ("ok", "postcondition"):
                at = int(m.group(1))
                why = "the specification allows no such step here"
            elif r["kind"] in ("eval", "invariant"):
                # the state reached before the error tells how far the trace went
                ls = [int(x) for x in re.findall(r"/\\ l = (\d+)", r["out"])]
                if not ls:
                    raise ToolError(f"trace {module}: {tail(r['out'])}")
                at = ls[-1] - 1 if r["kind"] == "eval" else ls[-1] - 2
                why = ("invariant " + (r["inv"] or "?") + " violated") if r["kind"] == "invariant" else \
                    "the recorded step does not even have the form the specification speaks about: " + \
                    " ".join(re.findall(r"(?m)^(?:Error|The exception|The error|Attempted|Cannot|:).*", r["out"]))[:400]
            else:
                raise ToolError(f"trace {module}: {tail(r['out'])}")
            at = max(0, min(at, len(index) - 1))
            sid, j, ev = index[at]
            rej.append((sid, j, ev, why))
            k = [s for s, _ in todo].index(sid)
            n += k
            todo = todo[k + 1:]
            if len(rej) >= 3:
                break
        return rej, n, e

    # ------------------------------------------------------------- reporting
    def sample(self, traces, k=2):
        if len(self.samples) < 4:
            for sid in list(traces)[:k]:
                self.samples.append(dict(scenario=sid, events=[cut(e) for e in traces[sid][:14]]))

    def violation(self, sid, scen, events, idx, ev, why, module):
        self.violations.append(dict(id=sid, scen=scen, events=events, idx=idx, ev=ev, why=why, module=module))

    def finish(self, level="model_checking"):
        known, _ = load_known(self.pid)
        shown = set()
        fresh = []
        for v in self.violations:
            for pat, text in known:
                if re.fullmatch(pat, v["id"]):
                    if text not in shown:
                        print(f"KNOWN-FINDING: property={self.pid} {text}")
                        shown.add(text)
                    break
            else:
                fresh.append(v)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   trace_events=self.events, scenarios_run=self.scenarios, models=self.models,
                   samples=self.samples[:4] or ["none"], known_findings_seen=sorted(shown))
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if fresh:
            rd = os.path.join(VERIF, "out", "replay")
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(fresh[:5]):
                p = os.path.join(rd, f"{self.pid}-{i}.json")
                with open(p, "w") as f:
                    json.dump(dict(property=self.pid, scenario=v["scen"] or v["id"], module=v["module"], why=v["why"],
                                   failing_event_index=v["idx"], failing_event=v["ev"],
                                   events=v["events"][max(0, v["idx"] - 200):v["idx"] + 3]), f, indent=1)
                print(f"  {v['id']}: event {v['idx']} {json.dumps(cut(v['ev']))[:400]}: {v['why']}")
                print(f"VIOLATION property={self.pid} replay={p}")
        print(f"{self.pid} {self.tier}: {self.states} model states, {self.transitions} transitions, "
              f"{self.traces} traces / {self.events} events validated, {len(fresh)} violations, "
              f"{time.time() - self.t0:.0f} s")
        return 1 if fresh else 0

    def cleanup(self):
        rmtree(self.tmp)


def limits():
    """a run-away allocation of the code under test ends that process only"""
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
    resource.setrlimit(resource.RLIMIT_NOFILE, (hard, hard))


def cut(e):
    s = json.dumps(e)
    return e if len(s) < 300 else s[:300]


def rmtree(d):
    shutil.rmtree(d, ignore_errors=True)


def subst(x, d):
    if isinstance(x, str):
        return x.replace("$D", d)
    if isinstance(x, list):
        return [subst(y, d) for y in x]
    if isinstance(x, dict):
        return {k: subst(v, d) for k, v in x.items()}
    return x


def pack_groups(traces, per):
    total = sum(len(e) for e in traces.values())
    per = max(50, min(per, total // CORES + 1))
    groups, cur, n = [], [], 0
    for sid, evs in traces.items():
        cur.append((sid, evs))
        n += len(evs)
        if n >= per:
            groups.append(cur)
            cur, n = [], 0
    if cur:
        groups.append(cur)
    return groups


def tail(out):
    i = out.find("Error:")
    return (out[i:i + 2000] + "\n...\n" if i >= 0 else "") + out[-1000:]


def tlc(module, cfg, tmp, workers=1, timeout=600, simulate=None, depth=None, seed=None, env=None, mem="3g",
        coverage=False):
    meta = tempfile.mkdtemp(prefix="m", dir=tmp)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss128m",
           "-XX:TieredStopAtLevel=1" if workers == 1 and not simulate else "-XX:+TieredCompilation",
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-deadlock",
           "-config", os.path.join(SPEC, cfg + ".cfg"), "-fp", "0"]
    if coverage:
        cmd += ["-coverage", "1"]
    if simulate:
        cmd += ["-simulate", simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=SPEC, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module}/{cfg} did not finish in {timeout} s")
    finally:
        rmtree(meta)
    out = p.stdout + p.stderr
    out = re.sub(r"(?m)^(Parsing file|Semantic processing|TLC2 Version|Running|\s*$).*\n", "", out)
    g = re.findall(r"([\d,]+) states generated(?: \(.*?\))?, ([\d,]+) distinct states found", out)
    gen, dis = (int(g[-1][0].replace(",", "")), int(g[-1][1].replace(",", ""))) if g else (0, 0)
    if simulate:
        m = re.findall(r"([\d,]+) states checked", out) or re.findall(r"Progress: ([\d,]+) states", out)
        gen = int(m[-1].replace(",", "")) if m else gen
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    kind, inv = "ok", None
    if p.returncode != 0 or "Error:" in out:
        m = re.search(r"Error: (?:Invariant|Action property|Temporal properties?) ?(\S*)", out)
        if "ostcondition" in out and ("violated" in out or "is false" in out) and "Attempted" not in out:
            kind = "postcondition"
        elif m and "violated" in out:
            kind, inv = "invariant", m.group(1)
        elif re.search(r"evaluat|Attempted to|was not in the domain|out of|Evaluating", out) and "Parsing" not in out[-2000:]:
            kind = "eval"
        else:
            kind = "tool"
        if "OutOfMemory" in out or "Parse Error" in out or "Could not find" in out:
            kind = "tool"
    acts = {}
    if coverage:
        for m in re.finditer(r"<(\w+) line \d+.*?>: (\d+):(\d+)", out):
            acts[m.group(1)] = max(acts.get(m.group(1), 0), int(m.group(3)))
    return dict(ok=kind == "ok" and p.returncode == 0, kind=kind, inv=inv, out=out, generated=gen, distinct=dis,
                depth=int(d.group(1)) if d else 0, actions=acts, rc=p.returncode)


# ------------------------------------------------------------------- building
def repo_digest():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as g:
                    h.update(g.read())
    return h.hexdigest()


def build_harness(cli=False, rows=False):
    target = os.path.join(VERIF, "target")
    os.makedirs(target, exist_ok=True)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_PROFILE") or k in ("CARGO_INCREMENTAL", "RUSTFLAGS", "CARGO_TARGET_DIR"):
            del env[k]
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTUP_AUTO_INSTALL="0", CFLAGS="-O0 -g0",
               CARGO_TARGET_DIR=target)
    env["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + env.get("PATH", "")
    hd = os.path.join(VERIF, "harness")
    # cargo decides by modification times; a tree that changed without newer times must not pass for built
    dig = repo_digest()
    mark = os.path.join(target, "repo.sha256")
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != dig:
        if os.path.exists(os.path.join(target, "debug")):
            subprocess.run(["cargo", "clean", "--offline", "-p", "oxyroot", "-p", "oxyroot_derive", "-p", "oxh"], cwd=hd, env=env,
                           capture_output=True)
        with open(mark, "w") as f:
            f.write("")
    cmd = ["cargo", "build", "--offline", "--locked", "--bin", "oxh"]
    if cli:
        cmd = ["cargo", "build", "--offline", "--locked", "--features", "cli", "--bin", "oxh", "--bin", "oxyroot-ls", "--bin", "oxyroot-dump"]
    if rows:
        cmd = ["cargo", "build", "--offline", "--locked", "--features", "rows", "--bin", "oxr"]
    p = subprocess.run(cmd, cwd=hd, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("cannot build the harness against /repo:\n" + p.stderr[-3000:])
    with open(mark, "w") as f:
        f.write(dig)
    return os.path.join(target, "debug", "oxr" if rows else "oxh")


# ------------------------------------------------------------- known findings
def load_known(pid):
    """known_findings: lines `finding: property=P scenario=<regex> <text>` and
    `fixed: property=P <commit> <text>` (the latter suppress nothing)."""
    known, fixed = [], []
    p = os.path.join(VERIF, "known_findings")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) scenario=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3).strip()))
            m = re.match(r"fixed: property=(\w+) (\S+) (.*)", line)
            if m and m.group(1) == pid:
                fixed.append((m.group(2), m.group(3).strip()))
    return known, fixed


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: check.py <property> [quick|thorough]", file=sys.stderr)
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(pid, tier)
    try:
        checks[pid](c)
        return c.finish()
    except ToolError as e:
        print(f"{pid}: tool error: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.cleanup()
