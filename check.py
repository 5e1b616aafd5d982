#!/usr/bin/env python3
"""Supervisor of the runtime monitors: check.py <ID> [--thorough | --replay FILE] | --setup

Builds the monitored crate from /repo's working tree, runs the workload of one property on all cores under
its oracle, and reports: exit 0 held on everything observed, exit 1 + VIOLATION line, exit 2 inconclusive.
"""
import ctypes
import glob
import hashlib
import json
import mmap
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TGT = os.path.join(HERE, "target")
HARNESS = os.path.join(HERE, "harness")
TRIPLE = "x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
W = 8
T0 = time.time()

ENV = dict(os.environ)
for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUST_MIN_STACK"):
    ENV.pop(k, None)
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["RUST_BACKTRACE"] = "0"


TMPS = []
DICT = []  # the words of the code under test, which some monitors choose from


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ builds

BUILDS = {
    "cov": dict(args=["--features", "cov"], env={"RUSTC_WRAPPER": HERE + "/tools/rustc_cov.sh"}, bin="release/ymon"),
    "count": dict(args=["--features", "count"], env={}, bin="release/ymon"),
    "plain": dict(args=["--features", "count"], env={"CARGO_PROFILE_RELEASE_OPT_LEVEL": "0"}, bin="release/ymon"),
    "work": dict(
        tc="+nightly", args=["--features", "count,tracepc", "-Zbuild-std=std,panic_unwind", "--target", TRIPLE],
        env={"RUSTC_WRAPPER": HERE + "/tools/rustc_work.sh"}, bin=TRIPLE + "/release/ymon"),
    "asan": dict(tc="+nightly", args=["--target", TRIPLE], env={"RUSTFLAGS": "-Zsanitizer=address"}, bin=TRIPLE + "/release/ymon"),
    "tsan": dict(tc="+nightly", args=["-Zbuild-std", "--target", TRIPLE], env={"RUSTFLAGS": "-Zsanitizer=thread"}, bin=TRIPLE + "/release/ymon"),
    "utils": dict(dir=HERE + "/utils_h", args=[], env={}, bin="release/yutil"),
    # one digest program in four builds (C31)
    "b-release": dict(dir=HERE + "/builds_h", args=[], env={}, bin="release/ybuild"),
    "b-debug": dict(dir=HERE + "/builds_h", args=[], env={"CARGO_PROFILE_RELEASE_OPT_LEVEL": "0", "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "true",
                                                          "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "true"}, bin="release/ybuild"),
    "b-serde": dict(dir=HERE + "/builds_h", args=["--features", "serde"], env={"CARGO_PROFILE_RELEASE_OPT_LEVEL": "s", "CARGO_PROFILE_RELEASE_LTO": "fat",
                                                                              "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "1"}, bin="release/ybuild"),
    "b-serde-debug": dict(dir=HERE + "/builds_h", args=["--features", "serde"], env={"CARGO_PROFILE_RELEASE_OPT_LEVEL": "1", "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "true",
                                                                                    "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "true"}, bin="release/ybuild"),
}


def build(kind):
    b = BUILDS[kind]
    t = time.time()
    cmd = ["cargo"] + ([b["tc"]] if "tc" in b else []) + ["build", "--release", "--offline", "--locked"] + b["args"] + ["--target-dir", f"{TGT}/{kind}"]
    r = subprocess.run(cmd, cwd=b.get("dir", HARNESS), env={**ENV, **b["env"]}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Inconclusive(f"the {kind} build of {REPO} failed:\n{r.stdout[-3000:]}")
    log(f"built {kind} in {time.time() - t:.1f} s")
    return f"{TGT}/{kind}/{b['bin']}"


# ------------------------------------------------------------------ constants of the code under test

def code_of(path):
    try:
        s = open(path, encoding="utf-8").read()
    except (OSError, UnicodeDecodeError):
        return ""
    i = s.find("#[cfg(test)]")
    return s if i < 0 else s[:i]


TOK = re.compile(
    r"""//[^\n]*|/\*.*?\*/|(b?"(?:[^"\\]|\\.)*")|(r\#*"(?:.*?)"\#*)|(b?'(?:[^'\\]|\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.)')|\b(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)""",
    re.S)
ESC = re.compile(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|\n\s*|.)", re.S)


def unescape(s):
    def f(m):
        e = m.group(1)
        if e[0] == "x":
            return chr(int(e[1:], 16))
        if e[0] == "u":
            return chr(int(e[2:-1].replace("_", ""), 16))
        if e[0] == "\n":
            return ""
        return {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(e, e)
    return ESC.sub(f, s)


def mine(path):
    """String, character and integer constants of the code under test steer the workload (never the verdict)."""
    strings, ints, chars = set(), set(), set()
    for f in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True) + glob.glob(REPO + "/utils/src/**/*.rs", recursive=True)):
        for m in TOK.finditer(code_of(f)):
            try:
                if m.group(1):
                    strings.add(unescape(m.group(1).lstrip("b")[1:-1]))
                elif m.group(2):
                    strings.add(re.sub(r'^r#*"|"#*$', "", m.group(2)))
                elif m.group(3):
                    c = unescape(m.group(3).lstrip("b")[1:-1])
                    if len(c) == 1:
                        chars.add(c)
                elif m.group(4):
                    ints.add(int(m.group(4).replace("_", ""), 0))
            except ValueError:
                pass
    out = []
    for s in sorted(strings):
        if 0 < len(s) <= 64 and "\ud800" not in s:
            out.append("s " + json.dumps(s))
    for i in sorted(ints):
        if i < 1 << 32:
            out.append(f"i {i}")
    for c in sorted(chars):
        out.append(f"c {ord(c)}")
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")
    return len(out)


# ------------------------------------------------------------------ running

def limits(mem):
    def f():
        os.setsid()
        try:
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # die with the supervisor
        except OSError:
            pass
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def cpu(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0.0


def slot_read(path):
    try:
        with open(path, "rb") as f:
            b = f.read(16)
            if len(b) < 16:
                return 0, b""
            n, ln = struct.unpack("<QQ", b)
            return n, f.read(ln)
    except OSError:
        return 0, b""


def one(exe, case, prop=None, cpu_s=60, mem=6 << 30, stack=None):
    """Runs one case in a process of its own: ('held'|'violated'|'crash'|'slow'|'error', text)"""
    if not DICT:
        TMPS.append(tempfile.mkdtemp(prefix="ymon-words-"))
        mine(TMPS[-1] + "/dict")
        DICT.append(TMPS[-1] + "/dict")
    cmd = [exe, "one", "--case", case, "--dict", DICT[0]] + (["--prop", prop] if prop else []) + (["--stack", str(stack)] if stack else [])

    def pre():
        limits(mem)()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 2))
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, env=ENV, timeout=cpu_s * 4 + 60)
    except subprocess.TimeoutExpired:
        return "error", "wall clock"
    out = (r.stdout + r.stderr[-2000:]).decode("utf-8", "replace")
    if r.returncode == 0:
        return "held", out
    if r.returncode == 10:
        return "violated", out
    if r.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        return "slow", out
    if r.returncode < 0:
        return "crash", f"signal {-r.returncode}: {out}"
    return "error", out


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.tmp = tempfile.mkdtemp(prefix=f"ymon-{prop}-")
        TMPS.append(self.tmp)
        self.dict = self.tmp + "/dict"
        self.constants = mine(self.dict)
        DICT[:] = [self.dict]
        self.cov = {}
        self.viol = None  # (message, replay file)
        self.known = []

    def replay_file(self, data, ext="case"):
        d = f"{HERE}/replays/{self.prop}"
        os.makedirs(d, exist_ok=True)
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogatepass")
        p = f"{d}/{hashlib.sha256(data).hexdigest()[:16]}.{ext}"
        with open(p, "wb") as f:
            f.write(data)
        return p

    def violation(self, msg, data, ext="case"):
        if self.viol is None:
            self.viol = (msg, self.replay_file(data, ext))

    # ---- fleet of workers over the case oracles
    def fleet(self, exe, prop, secs, cap):
        procs = []
        for w in range(W):
            out, slot = f"{self.tmp}/o{w}", f"{self.tmp}/s{w}"
            cmd = [exe, "run", "--prop", prop, "--seed", str(SEED), "--worker", str(w), "--workers", str(W), "--secs", str(secs),
                   "--tier", TIER, "--dict", self.dict, "--slot", slot, "--out", out]
            err = open(f"{self.tmp}/e{w}", "wb")
            p = subprocess.Popen(cmd, stdout=err, stderr=err, preexec_fn=limits(6 << 30), env=ENV)
            procs.append(dict(p=p, out=out, slot=slot, n=-1, t=time.time(), c=0.0, w=w, state=None))
        deadline = time.time() + cap
        while any(x["state"] is None for x in procs):
            time.sleep(0.25)
            for x in procs:
                if x["state"] is not None:
                    continue
                rc = x["p"].poll()
                if rc is not None:
                    x["state"] = rc
                    continue
                n, _ = slot_read(x["slot"])
                c = cpu(x["p"].pid)
                if n != x["n"]:
                    x["n"], x["t"], x["c"] = n, time.time(), c
                elif n > 0 and time.time() - x["t"] > 20 and c - x["c"] > 15:
                    _, data = slot_read(x["slot"])
                    if data:
                        x["hang"] = data
                        x["p"].kill()
                        x["p"].wait()
                        x["state"] = "hang"
            if any(x["state"] not in (None, 0) for x in procs) or time.time() > deadline:
                late = time.time() > deadline
                # a worker found something: the others are stopped
                for x in procs:
                    if x["state"] is None:
                        x["p"].kill()
                        x["p"].wait()
                        x["state"] = "late" if late else "stopped"
        for x in procs:
            st = x["state"]
            if st == 1:
                j = json.load(open(x["out"]))
                v = j["violation"]
                self.violation(f"{v['message']}\n  text: {v['text']!r:.600}\n  tree: {v.get('tree')!s:.600}", open(v["case"], "rb").read())
            elif st == "hang":
                self.suspect_hang(exe, x["hang"], prop)
            elif isinstance(st, int) and st not in (0, 1):
                _, data = slot_read(x["slot"])
                e = open(f"{self.tmp}/e{x['w']}", "rb").read()[-1500:].decode("utf-8", "replace")
                if st > 0 and st != 134:
                    raise Inconclusive(f"worker {x['w']} ended with {st}: {e}")
                self.suspect_crash(exe, data, prop, f"worker ended by {st}: {e}")
        if self.viol:
            return
        if any(x["state"] == "late" for x in procs):
            raise Inconclusive(f"workers did not finish within {cap:.0f} s")
        js = [json.load(open(x["out"])) for x in procs]
        stages = {}
        for j in js:
            for k, v in j["stages"].items():
                stages[k] = stages.get(k, 0) + v
        sigs = self.union([x["out"] + ".sigs" for x in procs])
        self.cov = dict(
            evaluations=sum(j["evaluations"] for j in js), distinct_nontrivial=sigs, events_observed=sum(j["events"] for j in js),
            nontrivial_evaluations=sum(j["nontrivial"] for j in js), stages=stages, edges_reached=max(j["edges"] for j in js),
            edges_instrumented=max(j["edges_total"] for j in js), corpus_entries_kept=sum(j["pool"] for j in js),
            constants_mined=self.constants, samples=[s for j in js for s in j["samples"]][:8])
        if self.cov["evaluations"] < 1000 or sigs < 20 or (exe.startswith(TGT + "/cov") and self.cov["edges_reached"] < 100):
            raise Inconclusive(f"the monitors observed too little: {json.dumps(self.cov)[:600]}")

    def union(self, files):
        s = set()
        for f in files:
            try:
                b = open(f, "rb").read()
            except OSError:
                continue
            s.update(struct.unpack(f"<{len(b) // 8}Q", b[:len(b) // 8 * 8]))
        return len(s)

    def suspect_crash(self, exe, data, prop, why, stack=None):
        if not data:
            raise Inconclusive(f"crash without a case: {why}")
        f = self.tmp + "/suspect"
        open(f, "wb").write(data)
        a = one(exe, f, prop, stack=stack)
        b = one(exe, f, prop, stack=stack)
        if a[0] in ("crash", "violated") and b[0] in ("crash", "violated"):
            self.violation(f"the process dies on this case ({a[1][:500]})", data)
        elif a[0] == "slow" and b[0] == "slow":
            self.suspect_hang(exe, data, prop)
        else:
            raise Inconclusive(f"{why}; alone the case gives {a[0]}, {b[0]}")

    def suspect_hang(self, exe, data, prop):
        """A hang is decided on executed steps, not on time: the instrumented build may execute 2e10 edges of the crate."""
        f = self.tmp + "/suspect"
        open(f, "wb").write(data)
        a = one(exe, f, prop, cpu_s=30)
        if a[0] in ("violated", "crash"):
            self.violation(a[1][:800], data)
            return
        if a[0] == "held":
            raise Inconclusive("a worker stalled, but the case alone does not")
        work = build("work")
        r = subprocess.run([work, "cost", "--case", f, "--limit", str(20_000_000_000)], env=ENV, preexec_fn=limits(8 << 30), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 77:
            self.violation("a call executes more than 2e10 code edges without returning", data)
        elif r.returncode < 0:
            self.violation(f"a call never returns: the process ends with {r.returncode} (memory exhausted or crashed)", data)
        else:
            raise Inconclusive(f"stalled case: {a[0]}, work monitor {r.returncode}")

    # ---- several processes of one command, each writing a JSON result
    def batch(self, jobs, cap):
        """jobs: list of (name, cmd, env, mem); returns list of (name, rc, out json or None, output)"""
        ps = []
        for i, (name, cmd, env, mem) in enumerate(jobs):
            out = f"{self.tmp}/b-{name}"
            e = open(out + ".err", "wb")
            ps.append((name, subprocess.Popen(cmd + ["--out", out], stdout=e, stderr=e, env={**ENV, **env}, preexec_fn=limits(mem)), out))
        deadline = time.time() + cap
        res = []
        for name, p, out in ps:
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                for _, q, _ in ps:
                    if q.poll() is None:
                        try:
                            os.killpg(q.pid, signal.SIGKILL)
                        except OSError:
                            pass
                raise Inconclusive(f"{name} did not finish within {cap:.0f} s")
            j = None
            try:
                j = json.load(open(out))
            except (OSError, ValueError):
                pass
            res.append((name, rc, j, open(out + ".err", "rb").read().decode("utf-8", "replace")))
        return res

    # ---- reporting
    def finish(self, rule, assumptions=()):
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="exploration",
                  coverage={"rule": rule, **self.cov}, assumptions=list(assumptions), wall_s=round(time.time() - T0, 2), violations=1 if self.viol else 0)
        c = ev["coverage"]
        c.setdefault("evaluations", 0)
        c.setdefault("distinct_nontrivial", 0)
        c.setdefault("samples", [])
        if self.viol:
            c["violation"] = self.viol[0][:2000]
        os.makedirs(HERE + "/evidence", exist_ok=True)
        with open(f"{HERE}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        for k in self.known:
            log(f"KNOWN-FINDING: property={self.prop} {k}")
        if self.viol:
            log(self.viol[0])
            log(f"VIOLATION property={self.prop} replay={self.viol[1]}")
            return 1
        log(f"{self.prop}: held on {c['evaluations']} executions, {c['distinct_nontrivial']} distinct and non-trivial, in {time.time() - T0:.1f} s")
        return 0


# ------------------------------------------------------------------ properties

RULES = {
    "C01": "every text is tokenized, parsed, built, printed, cloned and compared; non-trivial: the event stream has more than four events; distinct by the shape of the event stream",
    "C02": "token ranges and escape marks are laid over the text and must tile it; non-trivial: more than one token; distinct by the sequence of kinds and escape marks",
    "C03": "tokens are compared with a reference lexer written from the documented table; non-trivial: more than one token; distinct by the sequence of kinds",
    "C04": "byte, row and column of every token are recounted from the text; non-trivial: more than one row or a multi-byte character; distinct by the positions",
    "C05": "the event stream is checked online by a push-down grammar monitor; non-trivial: some construct was opened; distinct by the stream of events",
    "C06": "events are laid over the tokens of the source, each piece exactly once and in order; distinct by the event stream",
    "C07": "each piece of event text is compared with the source: contiguous text has to be a span; distinct by the shape of the stream",
    "C08": "deserialize, to_yamd and try_to_yamd agree, and mutated event streams are judged against a reference stack machine; distinct by the shape of the stream",
    "C09": "the blocks of the document are compared with those of a reference parser; distinct by the tree of blocks",
    "C10": "inline nodes are compared with those of a reference parser; distinct by the inline shape",
    "C11": "lists are compared with those of a reference parser and with level invariants; distinct by the list shape",
    "C12": "collapsibles and highlights are compared with those of a reference parser; distinct by the container shape",
    "C13": "front matter and body are compared with a reference scan; distinct by the metadata shape",
    "C14": "parse, print, parse again, compare; distinct by the tree",
    "C15": "well-formed trees are printed, parsed and compared; distinct by the tree",
    "C16": "every character is escaped in every context and the results compared; distinct by the text",
    "C17": "the LF and the CRLF form of a text are parsed and compared; distinct by the text",
    "C18": "documents and events go to JSON and back and are compared with an independent encoder; distinct by the tree",
    "C22": "trees of plain content are written by an independent writer, parsed and printed; distinct by the tree",
    "C23": "the words of the source are followed into the tree; distinct by the tree",
    "C27": "trees of any shape, in and out of the documented limits, are printed whole and in parts, and the print is read back; distinct by the tree",
    "C28": "content is built from every run and selection of the tokens of a text and compared with their texts; distinct by the kinds and escape marks",
    "C29": "documents, events and tokens are cloned, changed in one place and compared; equality is judged against an independent encoding; distinct by the tree",
    "C32": "documents and every node in them are printed with format options and into writers that fail; distinct by the tree",
    "C33": "the events of a tree are written with contents of every form, and those of a text rearranged, wrapped and moved, and built; distinct by the tree",
    "C34": "the plain characters of a text are replaced one by one and tokens, events, tree and print compared; distinct by the kinds of tokens",
    "C35": "words of a text are replaced by others of any length and tokens, events, tree and print compared; distinct by the events",
    "C30": "a loaded document is edited, saved and loaded in rounds; distinct by the trees of all rounds",
    "C26": "a block is parsed alone and in other places and compared; distinct by the text",
}

FLEET = list(RULES)
QUICK_SECS, THOROUGH_SECS = 32, 420


def check_fleet(prop):
    r = Run(prop)
    exe = build("cov")
    secs = THOROUGH_SECS if THOROUGH else QUICK_SECS
    if prop == "C01":
        stack_phase(r)
        if r.viol:
            return r
    r.fleet(exe, prop, secs, 850 - (time.time() - T0))
    if prop == "C01" and not r.viol:
        r.cov["small_stack"] = r.small_stack
        deep_finding(r, exe)
    return r


def stack_phase(r):
    """C01, second sentence: nesting on an ordinary 2 MiB thread stack."""
    exe = build("count")
    slot = r.tmp + "/stack.slot"
    out = r.tmp + "/stack.out"
    p = subprocess.run([exe, "stack", "--slot", slot, "--out", out, "--stack", str(2 << 20)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=ENV, preexec_fn=limits(6 << 30), timeout=300)
    if p.returncode == 1:
        j = json.load(open(out))["violation"]
        r.violation(j["message"], open(j["case"], "rb").read())
    elif p.returncode != 0:
        _, data = slot_read(slot)
        if p.returncode > 0 and p.returncode != 134:
            raise Inconclusive(f"stack phase ended with {p.returncode}: {p.stdout[-800:]!r}")
        r.suspect_crash(exe, data, "C01", f"stack phase ended by {p.returncode} {p.stdout[-300:]!r}", stack=2 << 20)
    else:
        r.small_stack = json.load(open(out))
    if r.viol:
        return
    # the same stack, code without optimisation: large flat documents and trees, and nesting once more
    exe = build("plain")
    jobs = [(f"flat{w}", [exe, "flat", "--stack", str(2 << 20), "--worker", str(w), "--workers", str(W), "--n", str(150_000 if TIER == "thorough" else 60_000),
                          "--slot", f"{r.tmp}/flat{w}.slot"], {}, 6 << 30) for w in range(W)]
    jobs.append(("nest", [exe, "stack", "--stack", str(2 << 20), "--slot", f"{r.tmp}/nest.slot"], {}, 6 << 30))
    flat = []
    for name, rc, j, err in r.batch(jobs, 300):
        if rc == 1 and j and "violation" in j:
            r.violation(j["violation"]["message"], open(j["violation"]["case"], "rb").read())
        elif rc in (134,) or rc < 0:
            _, data = slot_read(f"{r.tmp}/{name}.slot")
            r.suspect_crash(exe, data, "C01", f"a 2 MiB stack: {name} ended by {rc} {err[-300:]}", stack=2 << 20)
        elif rc != 0:
            raise Inconclusive(f"{name} ended with {rc}: {err[-800:]}")
        else:
            flat.append(j)
    if flat:
        r.small_stack["unoptimised"] = dict(evaluations=sum(j["evaluations"] for j in flat), largest_text=max(j.get("largest_text", 0) for j in flat))


def findings(prop):
    res = []
    try:
        for line in open(HERE + "/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return res


def deep_finding(r, exe):
    """The listed stack overflow, and only that one: this exact text, in a process of its own."""
    for fid, what in findings("C01"):
        if fid != "deep-collapsibles":
            continue
        n = 200_000
        t = "{% a\n" * n
        f = r.tmp + "/deep"
        data = f"ymon1 C01 0 {len(t)} N\n{t}".encode()
        open(f, "wb").write(data)
        st, out = one(exe, f, "C01", cpu_s=60, stack=8 << 20)
        if st == "crash" and "overflow" in out:
            r.known.append(what)
        r.cov["known_finding_demonstration"] = st


def check_work(prop):
    r = Run(prop)
    work = build("work")
    secs = THOROUGH_SECS if THOROUGH else 25
    jobs = [(f"w{w}", [work, "work", "--seed", str(SEED), "--worker", str(w), "--workers", str(W), "--secs", str(secs), "--tier", TIER,
                       "--note", f"{r.tmp}/n{w}"], {}, 8 << 30) for w in range(W)]
    res = r.batch(jobs, 840 - (time.time() - T0))
    cost_results(r, res)
    if not r.viol:
        js = [x[2] for x in res]
        lin = max((j["worst_linear"] for j in js), key=lambda x: x[0])
        hos = max((j["worst_hostile"] for j in js), key=lambda x: x[0])
        r.cov = dict(evaluations=sum(j["evaluations"] for j in js), distinct_nontrivial=sum(j["distinct"] for j in js), linear_families=js[0]["linear_families"],
                     hostile_families=sum(j["hostile_families"] for j in js), worst_linear_ratio_for_8x=lin, worst_hostile_ratio_for_2x=hos,
                     samples=[s for j in js for s in j["samples"]][:6])
        if r.cov["evaluations"] < 500 or r.cov["worst_linear_ratio_for_8x"][0] < 2:
            raise Inconclusive("the work counters observed too little")
    return r


def cost_results(r, res):
    for name, rc, j, err in res:
        w = name[1:]
        if rc == 0 and j:
            continue
        if rc == 1 and j and "violation" in j:
            r.violation(j["violation"]["message"], j["violation"].get("text", json.dumps(j["violation"])), "text")
        elif rc == 77:
            note = json.load(open(f"{r.tmp}/n{w}"))
            t = note.pop("text", "")
            r.violation(f"work budget of {note.get('limit')} edges exceeded: size {note.get('n')} of family {note.get('family')}, budget is 40 times the cost of the size before", t or json.dumps(note), "text")
        elif rc < 0 or rc == 134:
            note = json.load(open(f"{r.tmp}/n{w}"))
            t = note.get("text", "")
            raise Inconclusive(f"cost worker died ({rc}) on {note.get('family')}: {err[-500:]} {t[:200]!r}")
        elif rc == 101 or "panicked" in err:
            raise Inconclusive(f"cost worker panicked: {err[-800:]}")
        else:
            raise Inconclusive(f"cost worker ended with {rc}: {err[-800:]}")


def check_memory(prop):
    r = Run(prop)
    exe = build("count")
    secs = THOROUGH_SECS if THOROUGH else 25
    jobs = [(f"w{w}", [exe, "memory", "--seed", str(SEED), "--worker", str(w), "--workers", str(W), "--secs", str(secs), "--tier", TIER,
                       "--note", f"{r.tmp}/n{w}"], {}, 8 << 30) for w in range(W)]
    res = r.batch(jobs, 840 - (time.time() - T0))
    cost_results(r, res)
    if not r.viol:
        js = [x[2] for x in res]
        r.cov = dict(evaluations=sum(j["evaluations"] for j in js), distinct_nontrivial=sum(j["distinct"] for j in js), families=js[0]["families"],
                     worst_growth=max((j["worst_growth"] for j in js), key=lambda x: x[0]), worst_bytes_per_byte=max((j["worst_per_byte"] for j in js), key=lambda x: x[0]),
                     samples=[s for j in js for s in j["samples"]][:6])
        if r.cov["evaluations"] < 500 or r.cov["worst_bytes_per_byte"][0] < 1:
            raise Inconclusive("the allocation counters observed too little")
    return r


def check_purity(prop):
    r = Run(prop)
    errs = []

    def bg(kind, box):
        try:
            box[kind] = build(kind)
        except Inconclusive as e:
            errs.append(str(e))
    box = {}
    ths = [threading.Thread(target=bg, args=(k, box)) for k in ("count", "asan", "tsan")]
    miri_box = {}

    def bg_miri():
        t = time.time()
        p = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--target-dir", TGT + "/miri", "--", "--help", "x"], cwd=HARNESS,
                           env={**ENV, "MIRIFLAGS": "-Zmiri-disable-isolation"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        miri_box["ok"] = p.returncode == 2 and "usage: ymon" in p.stdout
        miri_box["out"] = p.stdout[-1500:]
        log(f"built miri in {time.time() - t:.1f} s")
    ths.append(threading.Thread(target=bg_miri))
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs:
        raise Inconclusive(errs[0])
    if not miri_box.get("ok"):
        raise Inconclusive("the interpreter does not start: " + miri_box.get("out", ""))

    def cmd(exe, w, secs, mode, texts, rounds=0):
        return [exe, "purity", "--seed", str(SEED), "--worker", str(w), "--workers", str(W), "--secs", str(secs), "--mode", mode, "--texts", str(texts),
                "--rounds", str(rounds), "--dict", r.dict]
    s1, s2, s3 = (160, 120, 150) if THOROUGH else (20, 14, 20)
    total = {}

    def judge(kind, res, jobs):
        for (name, rc, j, err), (_, c, env, _) in zip(res, jobs):
            replay = json.dumps({"kind": kind, "cmd": c[1:], "seed": SEED})
            san = re.search(r"(WARNING: ThreadSanitizer|ERROR: AddressSanitizer|error: Undefined Behavior|error: memory leaked|SUMMARY: \w+Sanitizer)[^\n]*", err)
            if san:
                r.violation(f"{kind}: {san.group(0)}\n{err[san.start():san.start() + 2500]}", replay, "json")
            elif rc == 1 and j and "violation" in j:
                r.violation(f"{kind}: {j['violation']['message']}", json.dumps({"kind": kind, "cmd": c[1:], "rounds": j["violation"]["rounds"], "seed": SEED}), "json")
            elif rc == 0 and j:
                total.setdefault(kind, []).append(j)
            elif rc < 0 or rc == 134 or (kind == "miri" and "error:" in err):
                # the same workload again: only a crash that comes back is reported
                again = subprocess.run(c + ["--out", r.tmp + "/again"], env={**ENV, **env}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits(0), timeout=300)
                if again.returncode < 0 or again.returncode == 134 or kind == "miri" and again.returncode == 1:
                    r.violation(f"{kind}: the process dies ({rc}): {err[-1500:]}", replay, "json")
                else:
                    raise Inconclusive(f"{kind} run {name} died once ({rc}) and not again: {err[-800:]}")
            else:
                raise Inconclusive(f"{kind} run {name} ended with {rc}: {err[-1200:]}")

    def left():
        return 860 - (time.time() - T0)
    jobs = [(f"p{w}", cmd(box["count"], w, s1, "full", 300), {}, 0) for w in range(W)]
    judge("histories", r.batch(jobs, left()), jobs)
    if not r.viol:
        jobs = [(f"a{w}", cmd(box["asan"], w, s2, "san", 100), {"ASAN_OPTIONS": "detect_leaks=0:exitcode=66"}, 0) for w in range(4)]
        jobs += [(f"t{w}", cmd(box["tsan"], w, s2, "san", 60), {"TSAN_OPTIONS": "exitcode=66:halt_on_error=0"}, 0) for w in range(4, 6)]
        res = r.batch(jobs, left())
        judge("asan", res[:4], jobs[:4])
        judge("tsan", res[4:], jobs[4:])
    if not r.viol:
        env = {"MIRIFLAGS": "-Zmiri-disable-isolation"}
        jobs = [(f"m{w}", ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--manifest-path", HARNESS + "/Cargo.toml", "--target-dir", TGT + "/miri", "--"]
                 + cmd("x", w, s3, "miri", 0)[1:] + ["--stack", str(8 << 20)], env, 0) for w in range(W)]
        judge("miri", r.batch(jobs, left()), jobs)
    if not r.viol:
        full = total["histories"]
        ev = {}
        for k in total:
            for j in total[k]:
                for a, b in j.get("events", {}).items():
                    ev[f"{k}: {a}"] = ev.get(f"{k}: {a}", 0) + b
        r.cov = dict(evaluations=sum(j["evaluations"] for k in total for j in total[k]), distinct_nontrivial=r.union([f"{r.tmp}/b-p{w}.sigs" for w in range(W)]),
                     executions={k: sum(j["evaluations"] for j in total[k]) for k in total}, events_observed=ev,
                     samples=[s for j in full for s in j["samples"]][:5] + [s for s in total["miri"][0]["samples"]][:2])
        if r.cov["evaluations"] < 1000 or min(r.cov["executions"].values()) < 4:
            raise Inconclusive("too few executions")
    return r


# ---- command line tool

def tool(exe, args, timeout=120, cwd=None):
    return subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout, cwd=cwd, env=ENV, preexec_fn=limits(4 << 30))


def check_token_stat(prop):
    from concurrent.futures import ThreadPoolExecutor
    r = Run(prop)
    exe = build("utils")
    ymon = build("count")
    d = r.tmp + "/files"
    os.makedirs(d)
    n = 6000 if THOROUGH else 900
    p = subprocess.run([ymon, "tokstat", "--seed", str(SEED), "--texts", str(n), "--dict", r.dict, "--out", d], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise Inconclusive(f"tokstat generator: {p.returncode} {p.stdout[-500:]!r}")
    cases = json.load(open(d + "/expected.json"))
    names = ["plain", "with space", "имя файла", "a" * 60, "x.yamd", "deep/er/y", "{% t", "new\nline", "quote'\"", "..hidden"]

    def run1(ic):
        i, c = ic
        data = open(f"{d}/{c['file']}", "rb").read()
        sub = f"{r.tmp}/c{i}"
        path = os.path.join(sub, names[i % len(names)])
        os.makedirs(os.path.dirname(path))
        with open(path, "wb") as f:
            f.write(data)
        if i % 7 == 0:
            os.chmod(path, 0o444)
        os.utime(path, ns=(10**18, 10**18))
        rel = i % 5 == 0
        before = os.stat(path)
        q = tool(exe, ["token-stat", os.path.relpath(path, sub) if rel else path], cwd=sub)
        msg = None
        if q.returncode != 0:
            msg = f"exit status {q.returncode}: {q.stderr[-300:]!r}"
        else:
            after = os.stat(path)
            try:
                out = q.stdout.decode("utf-8")
            except UnicodeDecodeError:
                out = None
                msg = "output is not UTF-8"
            if out is not None:
                msg = judge_stat(out, os.path.relpath(path, sub) if rel else path, c)
            if not msg and (open(path, "rb").read() != data or after.st_mtime_ns != before.st_mtime_ns or after.st_ino != before.st_ino or after.st_mode != before.st_mode):
                msg = "the file was changed"
            if not msg and sum(len(fs) for _, _, fs in os.walk(sub)) != 1:
                msg = "files were created next to the file"
        shutil.rmtree(sub, ignore_errors=True)
        return (msg, data, c)
    seen, kinds, samples = set(), set(), []
    total = 0
    with ThreadPoolExecutor(W) as ex:
        for msg, data, c in ex.map(run1, enumerate(cases)):
            if msg and not r.viol:
                r.violation(f"token-stat on {data[:300]!r}: {msg}\n  expected {c['counts']}", data, "yamd")
            seen.add(tuple(sorted(c["counts"].items())))
            kinds.update(c["counts"])
            total += c["total"]
            if len(samples) < 4 and 5 < len(data) < 200:
                samples.append({"text": data.decode(), "counts": c["counts"]})
    refused = 0
    if not r.viol:
        for msg, data in stat_refusals(r, exe):
            refused += 1
            if msg:
                r.violation(msg, data, "bin")
                break
    r.cov = dict(evaluations=len(cases) + refused, refusals=refused, distinct_nontrivial=len(seen), tokens_counted=total, kinds_seen=sorted(kinds), largest_file=max(c["bytes"] for c in cases), samples=samples)
    if not r.viol and len(kinds) < 15:
        raise Inconclusive("too few token kinds in the files")
    return r


def stat_refusals(r, exe):
    """What is no readable UTF-8 text has no counts: (message or None, bytes of the file)"""
    d = r.tmp + "/refused"
    os.makedirs(d + "/dir")
    bad = [b"\xff", b"\x80", b"\xc3", b"\xe6\xbc", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xfe\xff\0a", b"\xff\xfea\0"]
    files = [("missing", None), ("dir", None), ("no/such/dir", None)]
    for i, b in enumerate(bad):
        for j, data in enumerate([b, b"a" + b, b"# a\n\n*b*\n" + b, b + b"\n\n- c", b"x" * 4095 + b + b"y", b"x" * 8191 + b, b"z " * 40_000 + b + b"\n\n"]):
            files.append((f"f{i}-{j}", data))
    for name, data in files:
        f = f"{d}/{name}"
        if data is not None:
            with open(f, "wb") as h:
                h.write(data)
        q = tool(exe, ["token-stat", f])
        msg = None
        if q.returncode == 0 or b"token count" in q.stdout.lower():
            msg = f"token-stat on {name} ({data[:80] if data else 'no file'!r}) is not refused: status {q.returncode}, {q.stdout[:200]!r}"
        elif data is not None and open(f, "rb").read() != data:
            msg = f"token-stat changed the file {data[:80]!r}"
        elif data is None and name != "dir" and os.path.exists(f):
            msg = f"token-stat created {name}"
        yield msg, data or name.encode()


def judge_stat(out, path, c):
    # the path may contain anything: cut it out first
    i = out.find(path)
    if i < 0 or "Token statistics for" not in out[:i]:
        return f"no header naming the file in {out[:300]!r}"
    rest = out[i + len(path):]
    rows = []
    for line in rest.split("\n"):
        if not line.strip():
            continue
        m = re.fullmatch(r"\s*([^:]+?)\s*:\s*(\d+)\s*", line)
        if not m:
            return f"unexpected line {line!r}"
        rows.append((m.group(1), int(m.group(2))))
    if not rows or rows[0][0] != "Total token count":
        return f"no total in {out!r:.300}"
    if rows[0][1] != c["total"]:
        return f"total {rows[0][1]} instead of {c['total']}"
    got = rows[1:]
    if len({k for k, _ in got}) != len(got):
        return f"a kind is listed twice: {got}"
    if dict(got) != c["counts"]:
        return f"counts {dict(got)}"
    if any(a[1] < b[1] for a, b in zip(got, got[1:])):
        return f"not in descending order: {got}"
    return None


MARKERS = ["{%", "%}", "\n\n", "\n", "{", "}", "~", "*", " ", "-", "#", ">", "!", "`", "+", "[", "]", "(", ")", "_", "|"]
MARK_CHARS = set("{}%~* -#>!`+[]()_|\n")


def check_random(prop):
    from concurrent.futures import ThreadPoolExecutor
    import random as rnd
    r = Run(prop)
    exe = build("utils")
    ymon = build("count")
    g = rnd.Random(SEED)
    jobs = []
    for L in list(range(0, 41)) + [63, 64, 65, 99, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4095, 4096, 4097]:
        for m in [None, 0, 1, 2, 3, 4, 5, 7, 10, 33, 100]:
            jobs.append((L, m))
    for L in (0, 1, 5, 100, 2000):
        for m in (11, 12, 16, 20, 50, 64, 128, 255, 256, 257, 500, 1000):
            jobs.append((L, m))
    for m in [None, 1, 2, 3, 4, 5, 6, 8, 12, 20]:
        jobs += [(20_000, m)] * 2
    jobs += [(65_535, None), (65_536, None), (65_537, 4), (100_000, None), (30_000, 100)]
    reps = 12 if THOROUGH else 2
    jobs = jobs * reps
    for _ in range(3000 if THOROUGH else 300):
        jobs.append((g.choice([g.randrange(50), g.randrange(3000)]), g.choice([None, g.randrange(12), g.randrange(60)])))
    g.shuffle(jobs)

    def run1(ij):
        i, (L, m) = ij
        a = ["random", str(L)]
        if m is not None:
            a += ["--max-literal-len" if i % 2 else "-m", str(m)]
        q = tool(exe, a)
        msg, st = judge_random(L, 10 if m is None else m, q)
        return msg, st, a, q.stdout
    stats = {}
    texts = set()
    samples = []
    n = 0
    acc = r.tmp + "/acc"
    os.makedirs(acc)
    kept = 0
    with ThreadPoolExecutor(W) as ex:
        for msg, st, a, out in ex.map(run1, enumerate(jobs)):
            n += 1
            if msg and not r.viol:
                r.violation(f"`{' '.join(a)}`: {msg}\n  output {out[:300]!r}", json.dumps({"args": a, "message": msg, "output": out.decode('utf-8', 'backslashreplace')}), "json")
            texts.add(out)
            if len(samples) < 4 and 10 < len(out) < 150:
                samples.append({"args": a, "output": out.decode("utf-8", "replace")})
            for k, v in (st or {}).items():
                stats[k] = stats.get(k, 0) + v
            if not msg and len(out) < 5000 and kept < 1500:
                with open(f"{acc}/{kept}", "wb") as f:
                    f.write(out[:-1])
                kept += 1
    # across runs: outputs are random, and literals use the whole allowance
    if not r.viol:
        big = [x for x in texts if len(x) > 15_000]
        if len(big) < len([j for j in jobs if j[0] >= 15_000]):
            r.violation("two runs of the random command printed the same 20000 bytes", json.dumps({"args": ["random", "20000"]}), "json")
        if stats.get("runs", 0) > 2000 and stats.get("long runs", 0) > 0.2 * stats["runs"]:
            r.violation(f"literals exceed their limit: {stats}", json.dumps(stats), "json")
    if not r.viol:
        p = subprocess.run([ymon, "accept", "--case", acc], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits(6 << 30), timeout=300)
        if p.returncode == 10:
            f = p.stdout.decode("utf-8", "replace").split("\n")[0]
            name = f.split(" ")[0]
            r.violation(f"the parser does not accept an output: {f}", open(f"{acc}/{name}", "rb").read(), "yamd")
        elif p.returncode != 0:
            raise Inconclusive(f"accept: {p.returncode} {p.stdout[-500:]!r}")
    r.cov = dict(evaluations=n, distinct_nontrivial=len(texts), settings=len(set(jobs)), accepted_by_parser=kept, observed=stats, samples=samples)
    return r


def judge_random(L, m, q):
    if q.returncode != 0:
        return f"exit status {q.returncode}: {q.stderr[-300:]!r}", None
    b = q.stdout
    try:
        t = b.decode("utf-8")
    except UnicodeDecodeError:
        return "output is not UTF-8", None
    if not b.endswith(b"\n"):
        return "no line break at the end", None
    b, t = b[:-1], t[:-1]
    lit = m
    token = max(2, 4 * lit)
    if len(b) < L:
        return f"{len(b)} bytes instead of at least {L}", None
    if L == 0 and b:
        return f"{len(b)} bytes although none are asked for", None
    if len(b) - L >= token and not (L == 0 and len(b) == 0):
        return f"{len(b)} bytes exceed {L} by {len(b) - L}, a token has at most {token}", None
    st = {"bytes": len(b)}
    if len(b) >= 15_000:
        # density of markers with this setting: every kind comes up (expected number of each over 30)
        tokens = len(b) / ((1 * 18 + 2 * 3 + 3.99 * ((3 + lit) / 2 if m > 3 else m)) / 22)
        if tokens / 22 > 60:
            for k in MARKERS:
                if k not in t:
                    return f"marker {k!r} does not occur in {len(b)} bytes", None
        runs = [x for x in re.split("[" + re.escape("".join(sorted(MARK_CHARS))) + "]+", t) if x]
        if m == 0:
            if runs:
                return f"literals although the limit is 0: {runs[0]!r}", None
        else:
            if len(runs) < 20:
                return f"only {len(runs)} literals in {len(b)} bytes", None
            longest = max(len(x) for x in runs)
            if longest > 6 * max(m, 1) + 2:
                return f"a literal of {longest} characters, the limit is {m}", None
            over = sum(len(x) > lit for x in runs)
            # two literals in a row are drawn in about 1 of 22 cases
            if len(runs) >= 200 and over > 0.2 * len(runs):
                return f"{over} of {len(runs)} literals have more than {lit} characters", None
            if len(runs) >= 200 and max(len(x) for x in runs) < min(lit, 3):
                return f"no literal has {min(lit, 3)} characters", None
            st["runs"] = len(runs)
            st["long runs"] = over
    return None, st


# ------------------------------------------------------------------ C31: builds

DIGESTS = ["tokens", "events", "tree", "printed text", "tree of a part of the events", "text of nodes in other places"]
OTHER_TARGETS = ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"]


def split_texts(b):
    v, at = [], 0
    while at + 4 <= len(b):
        n = struct.unpack("<I", b[at:at + 4])[0] & 0x7fffffff
        v.append(b[at + 4:at + 4 + n])
        at += 4 + n
    return v


def miri_cmd(target, args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--manifest-path", HERE + "/builds_h/Cargo.toml", "--target-dir", TGT + "/b-miri", "--target", target, "--"] + args


def check_builds(prop):
    r = Run(prop)
    ymon = build("count")
    menv = {"MIRIFLAGS": "-Zmiri-disable-isolation"}
    per, small = (60_000, 900) if THOROUGH else (9000, 14)
    box = {}

    def targets():
        # other pointer width, other byte order: the interpreter runs the same program
        try:
            jobs = []
            for t in OTHER_TARGETS:
                p = subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", t], cwd=HERE + "/builds_h", env={**ENV, **menv}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    raise Inconclusive(f"no standard library for {t}: {p.stdout[-800:]}")
                e = r.tmp + "/empty"
                open(e, "wb").close()
                p = subprocess.run(miri_cmd(t, ["run", e, e + ".out"]), env={**ENV, **menv}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    raise Inconclusive(f"the interpreter does not run for {t}: {p.stdout[-800:]}")
        except Inconclusive as e:
            box["fail"] = e

    th = threading.Thread(target=targets)
    th.start()
    names = ["b-release", "b-debug", "b-serde", "b-serde-debug"]
    try:
        exes = {n: build(n) for n in names}
        jobs = [(f"t{w}", [ymon, "texts", "--seed", str(SEED), "--worker", str(w), "--workers", str(W), "--n", str(per), "--dict", r.dict], {}, 4 << 30) for w in range(W)]
        jobs += [(f"m{w}", [ymon, "texts", "--seed", str(SEED), "--worker", str(w), "--workers", str(W), "--n", str(small), "--most", "70", "--dict", r.dict], {}, 4 << 30) for w in range(W)]
        for name, rc, _, err in r.batch(jobs, 200):
            if rc:
                raise Inconclusive(f"texts {name}: {rc} {err[-500:]}")
        files = [f"{r.tmp}/b-t{w}" for w in range(W)]
        mfiles = [f"{r.tmp}/b-m{w}" for w in range(W)]
        left = lambda: max(60, 800 - (time.time() - T0))

        def run(cmds, what, cap, env):
            ps = [(n, f, o, subprocess.Popen(c, stdout=open(o + ".log", "wb"), stderr=subprocess.STDOUT, env={**ENV, **env}, preexec_fn=limits(0 if env else 6 << 30))) for n, f, o, c in cmds]
            end = time.time() + cap
            for n, f, o, p in ps:
                try:
                    p.wait(max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    for q in ps:
                        if q[3].poll() is None:
                            q[3].kill()
                    raise Inconclusive(f"{what} {n} did not finish")
            return ps

        digests = {}
        for n in names:
            for n, f, o, p in run([(n, f, f"{f}.{n}", [exes[n], "run", f, f"{f}.{n}"]) for f in files + mfiles], "build", left(), {}):
                if p.returncode:
                    # the crash of one build is a difference: another build handles the text
                    box.setdefault("crash", []).append((n, f, p.returncode))
                else:
                    digests[n, f] = open(o, "rb").read()
        texts = {f: split_texts(open(f, "rb").read()) for f in files + mfiles}
        for n, f, rc in box.get("crash", []):
            i = os.path.getsize(f"{f}.{n}") // 48
            rcs = {k: subprocess.run([exes[k], "run", f, r.tmp + "/q", str(i)], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode for k in names}
            if any(rcs.values()) and not all(rcs.values()):
                r.violation(f"{texts[f][i][:300]!r} ends the process in some builds only: {rcs}", texts[f][i], ext="builds")
            else:
                raise Inconclusive(f"{n} ended with {rc}, alone: {rcs}: {texts[f][i][:300]!r}")
        sigs = set()
        events = 0

        def compare(a, b, f, da, db):
            nonlocal events
            if len(da) != len(db) or len(da) != 48 * len(texts[f]):
                raise Inconclusive(f"{a} and {b} report on different numbers of texts")
            events += len(da) // 8
            if da == db:
                return
            for i, t in enumerate(texts[f]):
                x, y = da[48 * i:48 * i + 48], db[48 * i:48 * i + 48]
                if x != y:
                    k = next(k for k in range(6) if x[8 * k:8 * k + 8] != y[8 * k:8 * k + 8])
                    r.violation(f"the {DIGESTS[k]} of {t[:300]!r} differ between the builds {a} and {b}", t, ext="builds")
                    return
        for f in files + mfiles if not r.viol else []:
            for n in names[1:]:
                compare(names[0], n, f, digests[names[0], f], digests[n, f])
            d = digests[names[0], f]
            sigs.update(d[i + 8:i + 16] for i in range(0, len(d), 48))
    finally:
        th.join()
    interpreted = 0
    if not r.viol:
        if "fail" in box:
            raise box["fail"]
        cmds = [(t, f, f"{f}.{t}", miri_cmd(t, ["run", f, f"{f}.{t}"])) for w, f in enumerate(mfiles) for t in ([OTHER_TARGETS[w % 2]] if not THOROUGH else OTHER_TARGETS)]
        for n, f, o, p in run(cmds, "interpreter", left(), menv):
            if p.returncode:
                raise Inconclusive(f"interpreter for {n} ended with {p.returncode}: {open(o + '.log').read()[-800:]}")
            compare("b-release", n, f, digests["b-release", f], open(o, "rb").read())
            interpreted += len(texts[f])
    n = sum(len(t) for t in texts.values())
    r.cov = dict(evaluations=n * len(names) + interpreted, distinct_nontrivial=len(sigs), events_observed=events, texts=n, builds=names, interpreted_for_other_targets=interpreted,
                 targets=OTHER_TARGETS, constants_mined=r.constants, samples=[t[:200].decode("utf-8", "replace") for t in texts[files[0]][-6:]])
    return r


CHECKS = {p: check_fleet for p in FLEET}
CHECKS.update({"C19": check_purity, "C20": check_work, "C21": check_memory, "C24": check_token_stat, "C25": check_random, "C31": check_builds})
RULES.update({
    "C19": "texts whose reference result comes from a fresh process each are run again in random histories, placements, environments and threads, and under ASan, TSan and Miri; distinct by tokens and tree",
    "C20": "documents of 400, 3200 and 25600 constructs and hostile families of doubling size under an edge counter of crate and standard library; every case is non-trivial, distinct by the text",
    "C21": "families of texts of growing size and random texts under a counting allocator; distinct by the text",
    "C24": "the tool runs on files of generated texts; the counts come from the reference lexer; distinct by the counts",
    "C31": "every text is tokenized, parsed, built and printed by four builds of one program (optimised or not, checks on or off, serde on or off), some also for 32-bit and big-endian targets in an interpreter, and all results are compared; distinct by the events",
    "C25": "the tool runs with lengths and limits of a grid and of random choice; distinct by the output",
})


def replay(prop, f):
    if f.endswith(".case"):
        exe = build("count")
        for st in ([2 << 20, None] if prop == "C01" else [None]):
            a, out = one(exe, f, prop, stack=st)
            log(a, out[:3000])
            if a != "held":
                break
        if a in ("violated", "crash"):
            log(f"VIOLATION property={prop} replay={f}")
            return 1
        return 0 if a == "held" else 2
    if f.endswith(".text"):
        exe = build("work" if prop == "C20" else "count")
        return subprocess.run([exe, "cost", "--case", f], env=ENV).returncode
    if prop == "C19":
        j = json.load(open(f))
        kind = {"histories": "count"}.get(j["kind"], j["kind"])
        c = list(j["cmd"])
        if "--rounds" in c and "rounds" in j:
            c[c.index("--rounds") + 1] = str(j["rounds"])
        tmp = tempfile.mkdtemp(prefix="ymon-replay-")
        mine(tmp + "/dict")
        c[c.index("--dict") + 1] = tmp + "/dict"
        if kind == "miri":
            rc = subprocess.run(["cargo"] + c + ["--out", tmp + "/o"], env={**ENV, "MIRIFLAGS": "-Zmiri-disable-isolation"}).returncode
        else:
            rc = subprocess.run([build(kind)] + c + ["--out", tmp + "/o"], env={**ENV, "ASAN_OPTIONS": "detect_leaks=0"}).returncode
        shutil.rmtree(tmp, ignore_errors=True)
        return 0 if rc == 0 else 1
    if f.endswith(".builds"):
        t = open(f, "rb").read()
        d = tempfile.mkdtemp(prefix="ymon-replay-")
        TMPS.append(d)
        open(d + "/t", "wb").write(struct.pack("<I", len(t)) + t)
        shown = {}
        for k in [k for k in BUILDS if k.startswith("b-")]:
            shown[k] = subprocess.run([build(k), "show", d + "/t", d + "/o"], env=ENV, stdout=subprocess.PIPE).stdout.decode("utf-8", "replace")
        if len(t) < 2000:
            for k in OTHER_TARGETS:
                shown[k] = subprocess.run(miri_cmd(k, ["show", d + "/t", d + "/o"]), env={**ENV, "MIRIFLAGS": "-Zmiri-disable-isolation"}, stdout=subprocess.PIPE).stdout.decode("utf-8", "replace")
        for k, v in shown.items():
            log(f"--- {k}\n{v}")
        bad = len(set(shown.values())) > 1
        if bad:
            log(f"VIOLATION property={prop} replay={f}")
        return 1 if bad else 0
    if prop == "C24":
        exe, ymon = build("utils"), build("count")
        try:
            open(f, encoding="utf-8", newline="").read()
        except UnicodeDecodeError:
            q = tool(exe, ["token-stat", f])
            bad = q.returncode == 0 or b"token count" in q.stdout.lower()
        else:
            d = tempfile.mkdtemp(prefix="ymon-replay-")
            TMPS.append(d)
            subprocess.run([ymon, "tokstat", "--case", f, "--out", d], env=ENV, check=True)
            q = tool(exe, ["token-stat", f])
            bad = q.returncode != 0 or judge_stat(q.stdout.decode("utf-8", "replace"), f, json.load(open(d + "/expected.json"))[0])
        log(q.stdout.decode("utf-8", "replace")[:2000], q.returncode, bad)
        if bad:
            log(f"VIOLATION property={prop} replay={f}")
        return 1 if bad else 0
    log(open(f).read()[:2000])
    return 2


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for k in BUILDS:
            build(k)
        return 0
    if not a or a[0] not in CHECKS:
        print(__doc__)
        return 2
    prop = a[0]
    try:
        if len(a) > 2 and a[1] == "--replay":
            return replay(prop, a[2])
        return CHECKS[prop](prop).finish(RULES[prop])
    except Inconclusive as e:
        log(f"INCONCLUSIVE property={prop}: {e}")
        return 2
    finally:
        for t in TMPS:
            shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
