"""
What all checks have in common: running TLC on the specification, running the
implementation on the behaviours, checking what it did against the
specification, and reporting.
"""
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import gen
import impl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
PYTHON = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SCRATCH_ROOT = os.environ.get("TMPDIR", "/tmp")
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class MachineryError(Exception):
    """Something other than the code under test went wrong."""


def codes(s):
    return [ord(c) for c in s]


def text(cs):
    return "".join(map(chr, cs))


def parse_tla(s):
    """Sequences, records, sets, strings, numbers and booleans as TLC prints them."""
    tok = re.compile(r'\s*(<<|>>|\{|\}|\[|\]|\|->|,|"(?:[^"\\]|\\.)*"|-?\d+|TRUE|FALSE|[A-Za-z_]\w*)')
    pos = 0
    items = []
    while pos < len(s):
        m = tok.match(s, pos)
        if not m:
            if s[pos:].strip() == "":
                break
            raise MachineryError("cannot parse %r" % s[pos:pos + 80])
        items.append(m.group(1))
        pos = m.end()
    i = 0

    def value():
        nonlocal i
        t = items[i]
        i += 1
        if t in ("<<", "{"):
            close = ">>" if t == "<<" else "}"
            out = []
            while items[i] != close:
                out.append(value())
                if items[i] == ",":
                    i += 1
            i += 1
            return out
        if t == "[":
            out = {}
            while items[i] != "]":
                k = items[i]
                i += 2
                out[k] = value()
                if items[i] == ",":
                    i += 1
            i += 1
            return out
        if t[0] == '"':
            return t[1:-1].replace('\\"', '"').replace("\\\\", "\\")
        if t in ("TRUE", "FALSE"):
            return t == "TRUE"
        return int(t)
    return value()


def messages(output, tag):
    """The values of PrintT(<<tag, ...>>), which may span several lines."""
    out = []
    lines = output.split("\n")
    start = re.compile(r'^<<\s*"%s"' % tag)
    k = 0
    while k < len(lines):
        if start.match(lines[k]):
            buf = lines[k]
            while buf.count("<<") != buf.count(">>"):
                k += 1
                if k >= len(lines):
                    raise MachineryError("incomplete message of TLC")
                buf += "\n" + lines[k]
            out.append(parse_tla(buf)[1:])
        k += 1
    return out


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.rnd = random.Random("%s/%d" % (pid, self.seed))
        self.start = time.time()
        self.scratch = tempfile.mkdtemp(prefix="gr-%s-" % pid)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.events = 0
        self.model_runs = []
        self.samples = []
        self.families = {}
        self.rejects = []
        self.known_lines = []
        self.cases = []
        self.next_id = 1
        self.quick = self.tier != "thorough"
        self.assumptions = []
        self.replay = None

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # -- TLC ------------------------------------------------------------------

    def tlc(self, module, cfg, env=None, heap="6g", timeout=3000, workers=8, args=()):
        """Runs TLC and returns its output."""
        meta = tempfile.mkdtemp(dir=self.scratch)
        cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC",
               "-Djava.io.tmpdir=" + meta, "-cp", JARS,
               "tlc2.TLC", "-workers", str(workers), "-nowarning", "-noGenerateSpecTE", "-metadir", meta,
               "-config", os.path.join(SPEC, cfg), *args, os.path.join(SPEC, module)]
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            r = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
        out = r.stdout.decode("utf-8", "replace")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if r.returncode != 0 or not m or "No error has been found" not in out:
            tail = "\n".join(l for l in out.split("\n") if not l.startswith(("Parsing", "Semantic", "Linting")))
            raise MachineryError("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, tail[:6000] + "\n...\n" + tail[-1500:]))
        gen, distinct = map(int, m[-1])
        shutil.rmtree(meta, ignore_errors=True)
        return out, gen, distinct

    def explore(self, module, cfg, name, env=None, **kw):
        """
        Explores a bounded model, checking its invariants, and returns the
        messages it printed by tag.
        """
        t = time.time()
        out, gen, distinct = self.tlc(module, cfg, env, **kw)
        self.states += distinct
        self.transitions += gen
        self.model_runs.append(dict(model=module.replace(".tla", ""), config=name, states=distinct,
                                    transitions=gen, wall_s=round(time.time() - t, 2)))
        return out

    def behaviours(self, name, depth, take=None, module="MC", want=None):
        """
        Explores a model exhaustively; its alphabet, and some of its behaviours
        (all if take is None) as pairs of a configuration and indexes.
        """
        out = self.explore(module + ".tla", "MC.cfg", "%s, %d steps" % (name, depth),
                           dict(FAMILY=name, DEPTH=str(depth)))
        m = re.search(r'^<<"ALPHABET", "(.*)">>$', out, re.M)
        fam = json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
        cases = re.findall(r'<<"CASE", (\d+), <<([\d, \s]*?)>>\s*>>', out)
        if not cases:
            raise MachineryError("no behaviours of " + name)
        cases = sorted((int(c), tuple(int(i) for i in h.split(","))) for c, h in cases)
        if want:
            cases = [c for c in cases if want(fam, c)]
        if take is not None and len(cases) > take:
            # long ones are more interesting than short ones
            weight = sorted(cases, key=lambda c: (len(c[1]) + 1) * self.rnd.random(), reverse=True)
            cases = weight[:take]
        self.families["%s: behaviours of the model" % name] = len(cases)
        return fam, cases

    def family(self, name, depth, take, cl, share=6, module="MC", want=None, variants=None):
        """
        Documents of a family as cases.  variants: the other configurations
        that the document is rendered with first.
        """
        fam, cases = self.behaviours(name, depth, take, module, want)
        docs = [(fam["cfgs"][c - 1], fam["pre"] + [fam["alpha"][i - 1] for i in h]) for c, h in cases]
        self.sessions(name, docs, cl, share, variants)
        return fam

    def sessions(self, name, docs, cl, share=4, variants=None, **kw):
        """Documents (pairs of configuration and events) as cases, some in each."""
        for k in range(0, len(docs), share):
            cfgs, ps = [], []
            for cfg, es in docs[k:k + share]:
                for c in (variants(cfg) if variants else []) + [cfg]:
                    if c not in cfgs:
                        cfgs.append(c)
                    ps.append((cfgs.index(c) + 1, es))
            self.add(name, gen.session(cfgs, ps, cl, **kw))

    # -- cases ----------------------------------------------------------------

    def add(self, family, case):
        case["id"] = self.next_id
        case["family"] = family
        self.next_id += 1
        self.cases.append(case)
        self.families[family] = self.families.get(family, 0) + 1
        return case["id"]

    def validate(self, module="Trace"):
        """Executes all cases and checks what the implementation did."""
        if not self.cases:
            return
        src = os.path.join(self.scratch, "cases.ndjson")
        dst = os.path.join(self.scratch, "observed.ndjson")
        with open(src, "w") as f:
            for c in self.cases:
                f.write(json.dumps(c) + "\n")
        env = dict(os.environ)
        for k in ("PYTHONPATH", "PYTHONHOME"):
            env.pop(k, None)
        env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONHASHSEED="0",
                   PYTHONPYCACHEPREFIX=os.path.join(self.scratch, "pyc"),
                   GR_SCRATCH=self.scratch)
        r = subprocess.run([PYTHON, "-W", "ignore", os.path.join(HARNESS, "impl.py"), src, dst],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=3000)
        if r.returncode != 0:
            raise MachineryError("execution failed:\n" + r.stdout.decode("utf-8", "replace")[-3000:])
        with open(dst) as f:
            observed = [json.loads(l) for l in f]
        if len(observed) != len(self.cases):
            raise MachineryError("%d cases, %d observed" % (len(self.cases), len(observed)))
        self.check_traces(observed, module)
        self.cases = []

    def check_traces(self, observed, module="Trace"):
        """Checks observed cases against the trace specification, two TLCs at a time."""
        by_id = {c["id"]: c for c in observed}
        # bounded shards, to bound the memory that TLC needs, of about the same work
        lines = [(c, json.dumps(strip(c))) for c in observed]
        total = sum(len(l) for _, l in lines)
        count = max(2, 2 * -(-total // 24_000_000))
        shards = [[] for _ in range(count)]
        for k, cl in enumerate(lines):
            shards[k % count].append(cl)
        shards = [s for s in shards if s]

        def run(k):
            path = os.path.join(self.scratch, "trace%d.ndjson" % k)
            with open(path, "w") as f:
                for _, l in shards[k]:
                    f.write(l + "\n")
            r = self.tlc(module + ".tla", "Trace.cfg", dict(TRACE=path), heap="5g",
                         workers=4 if len(shards) > 1 else 8)
            os.unlink(path)
            return r
        with ThreadPoolExecutor(2) as pool:
            results = list(pool.map(run, range(len(shards))))
        for shard, (out, gen, distinct) in zip(shards, results):
            rejected = {}
            for m in messages(out, "REJECT"):
                rejected[m[0]] = dict(event=m[1], clauses=sorted(m[2]))
            for m in messages(out, "EXPECT"):
                if m[0] in rejected:
                    rejected[m[0]]["expected"] = m[1]
            # every event of every accepted trace is one state
            want = sum((rejected[c["id"]]["event"] if c["id"] in rejected else len(c["ops"])) + 1 for c, _ in shard)
            if distinct != want:
                raise MachineryError("%d states instead of %d: not every trace was checked" % (distinct, want))
            self.states += distinct
            self.transitions += gen
            self.validated += len(shard)
            self.events += sum(len(c["ops"]) for c, _ in shard)
            for i, r in rejected.items():
                self.rejects.append((by_id[i], r))
        pick = random.Random(self.seed)
        for c in pick.sample(observed, min(2, len(observed))):
            self.samples.append(brief(c))

    def finding(self, name, case):
        """A case that is known to fail, if it is listed in the file of findings."""
        case["finding"] = name
        self.add("known findings", case)

    def direct(self, family, clause, note):
        """A violation that needs no execution to be seen."""
        self.rejects.append((dict(id=0, kind="note", family=family, cfgs=[], ops=[], note=note),
                             dict(event=0, clauses=[clause])))

    def known(self, case, r):
        if "finding" not in case:
            return False
        with open(FINDINGS) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid and m.group(2) == case["finding"]:
                    self.known_lines.append("KNOWN-FINDING: property=%s %s" % (self.pid, m.group(3)))
                    return True
        return False

    # -- results --------------------------------------------------------------

    def report(self):
        """The outcome of the cases of a replay."""
        for case, r in self.rejects:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.replay))
            print("  clauses: %s; event %d" % (", ".join(r["clauses"]), r["event"]))
            for line in explain(case, r).split("\n"):
                print("  | " + line)
        if not self.rejects:
            print("%s: the replayed case is accepted" % self.pid)
        return 1 if self.rejects else 0

    def finish(self):
        replay_dir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(replay_dir, exist_ok=True)
        for old in glob.glob(os.path.join(replay_dir, self.pid + "-*.json")):
            os.unlink(old)
        self.rejects = [x for x in self.rejects if not self.known(*x)]
        self.rejects.sort(key=lambda cr: len(json.dumps(cr[0])))
        for k, (case, r) in enumerate(self.rejects[:5]):
            path = os.path.join(replay_dir, "%s-%d.json" % (self.pid, k + 1))
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, case=case, rejected=r), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  clauses: %s; family %s, event %d" % (", ".join(r["clauses"]), case["family"], r["event"]))
            for line in explain(case, r).split("\n"):
                print("  | " + line)
        violations = len(self.rejects)
        if violations > 5:
            print("  ... and %d more" % (violations - 5))
        for line in sorted(set(self.known_lines)):
            print(line)
        wall = round(time.time() - self.start, 2)
        evidence = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
            coverage=dict(
                states=self.states, transitions=self.transitions,
                traces_validated_against_impl=self.validated,
                trace_events=self.events, models=self.model_runs,
                cases_by_family=self.families, samples=self.samples[:6],
            ),
            assumptions=self.assumptions, wall_s=wall, violations=violations,
        )
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        print("%s: %d states, %d traces validated, %d violations, %.1f s"
              % (self.pid, self.states, self.validated, violations, wall))
        return 1 if violations else 0


RECORDED = {"session": ("res", "out", "err"), "nd": ("res", "reads", "len"), "cls": ("res", "classes", "insts", "fresh"),
            "cli": ("res", "out", "same", "asMd", "asIs", "libMd", "libIs", "others")}


def again(case):
    """A case without what has been recorded."""
    drop = RECORDED[case["kind"]]
    c = {k: v for k, v in case.items() if k != "finding"}
    c["ops"] = [{k: v for k, v in o.items() if k not in drop} for o in case["ops"]]
    return c


def strip(case):
    """What the trace specification does not need, and JSON null, which it cannot have."""
    c = {k: v for k, v in case.items() if k not in ("family", "note", "finding", "keys")}
    c["ops"] = [{k: v for k, v in o.items() if k not in ("html", "cuts", "err", "source", "flag", "others")}
                for o in c["ops"]]
    return c


def brief(case):
    s = json.dumps(readable(case))
    return s if len(s) < 1500 else s[:1500] + "..."


def readable(x):
    """Code points as text."""
    if isinstance(x, dict):
        return {k: readable(v) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > 0 and all(isinstance(i, int) and not isinstance(i, bool) and i >= 9 for i in x):
            return text(x)
        return [readable(i) for i in x]
    return x


def explain(case, r):
    if case["kind"] == "note":
        return case["note"]
    out = []
    last = case["ops"][r["event"] - 1]
    if case["kind"] == "session" and "p" in last:
        cfg = None
        for o in case["ops"][:r["event"]]:
            if o.get("p") != last["p"]:
                continue
            if o["op"] == "new":
                cfg = case["cfgs"][o["cfg"] - 1]
            if o["op"] == "feed":
                out.append("feed %r" % (o["html"] if "html" in o else impl.events_html(o["es"])))
                if o.get("cuts"):
                    out.append("  in pieces, cut at %s" % o["cuts"])
            else:
                out.append("%s -> %s %s" % (o["op"], o["res"], o.get("err", "")))
        if cfg:
            base = gen.base_cfg()
            out.insert(0, "configuration: " + json.dumps(readable({k: v for k, v in cfg.items() if base.get(k) != v}),
                                                         ensure_ascii=False)[:1500])
    else:
        for k, o in enumerate(case["ops"][:r["event"]], 1):
            d = {a: b for a, b in o.items() if a not in ("out",)}
            out.append("%d. %s" % (k, json.dumps(readable(d), ensure_ascii=False)[:1500]))
    if isinstance(last.get("out"), list):
        out.append("observed: %r" % text(last["out"]))
    if "expected" in r:
        out.append("expected: %r" % readable(r["expected"]))
    return "\n".join(out)
