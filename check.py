#!/usr/bin/env python3
"""check.py PROPERTY

Decides one property of orc-format: model checks the parts of the specification the property
rests on (TLC), generates write programs - partly enumerated by TLC from the specification - runs
them against the crate built from /repo, and validates the recorded runs against the
specification (TLC on spec/Trace.tla).

Exit 0: held on everything explored.  1: VIOLATION line.  2: the check itself failed.
"""
import collections
import concurrent.futures
import glob
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import mixes  # noqa: E402

SPEC = os.path.join(HERE, "spec")
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
REPO = os.environ.get("ORC_REPO", "/repo")
# overflow checks and debug assertions on, and off as in a release build
DRIVERS = [os.path.join(BUILD, d, "orc-driver") for d in ("debug", "release")]
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = float(os.environ.get("VERIF_BUDGET", "780"))   # seconds, thorough tier
START = time.time()


class Broken(Exception):
    """The check could not do its work."""


def say(*a):
    print("[%6.1fs]" % (time.time() - START), *a, flush=True)


# ------------------------------------------------------------------ building

def source_hash():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(HERE, "harness")):
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".proto")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def cargo(*args):
    env = dict(os.environ, CARGO_TARGET_DIR=BUILD, CARGO_NET_OFFLINE="true")
    return subprocess.run(["cargo", *args, "--offline", "--manifest-path", os.path.join(HERE, "harness", "Cargo.toml")],
                          env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build():
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "source.sha256")
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old == now and all(map(os.path.exists, DRIVERS)):
        return
    for rel in ([], ["--release"]):
        if old:
            cargo("clean", "-q", "-p", "orc-format", *rel)
            cargo("clean", "-q", "-p", "orc-driver", *rel)
        r = cargo("build", "-q", *rel)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            raise Broken("the driver does not build against the working tree of %s" % REPO)
    open(stamp, "w").write(now)
    say("driver built")


# ------------------------------------------------------------------ TLC

def tlc(module, cfg, metadir, workers=1, env=None, args=(), timeout=800, xmx="2500m", out=None):
    cmd = ["java", "-Xss512m", "-Xmx" + xmx, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-cp", JARS,
           "-Djava.io.tmpdir=" + WORK, "tlc2.TLC", "-deadlock", "-noGenerateSpecTE", "-metadir", metadir,
           "-workers", str(workers), *args, "-config", cfg, module + ".tla"]
    os.makedirs(metadir, exist_ok=True)
    try:
        with open(out, "w") as o:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=o, stderr=subprocess.STDOUT, timeout=timeout)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = -9
    shutil.rmtree(metadir, ignore_errors=True)
    return rc, open(out, errors="replace").read()


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def counts(text):
    m = STATES.findall(text)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def config_with(name, consts, path):
    s = open(os.path.join(SPEC, name + ".cfg")).read()
    for k, v in consts.items():
        s, n = re.subn(r"(?m)^ %s (=|<-) .*$" % re.escape(k), lambda m: " %s = %s" % (k, v), s)
        if n != 1:
            raise Broken("constant %s in %s.cfg" % (k, name))
    open(path, "w").write(s)
    return path


def run_models(names):
    """Model check the parts of the specification; every canary variant has to fail."""
    res = []

    def one(name):
        m = mixes.MODELS[name]
        consts = m.get("thorough", {}) if TIER == "thorough" else m.get("quick", {})
        w = 2 if TIER == "quick" else 4
        cfg = config_with(m["tla"], consts, os.path.join(WORK, "m_%s.cfg" % name))
        rc, txt = tlc(m["tla"], cfg, os.path.join(WORK, "mm_" + name), workers=w, timeout=BUDGET + 600, xmx="6g",
                      out=os.path.join(WORK, "m_%s.out" % name))
        g, d = counts(txt)
        if rc != 0 or "No error has been found" not in txt:
            raise Broken("model %s: TLC ended with %d:\n%s" % (name, rc, txt[-1500:]))
        rejected = []
        wrong = m.get("canary") or []
        for i, c in enumerate([wrong] if isinstance(wrong, dict) else wrong):
            cfg = config_with(m["tla"], dict(m.get("quick", {}), **c), os.path.join(WORK, "k_%s%d.cfg" % (name, i)))
            rc, txt = tlc(m["tla"], cfg, os.path.join(WORK, "mk_%s%d" % (name, i)), workers=w, timeout=600, xmx="6g",
                          out=os.path.join(WORK, "k_%s%d.out" % (name, i)))
            bad = re.search(r"Invariant (\w+) is violated|Temporal properties were violated|Action property (\w+)", txt)
            if not bad:
                raise Broken("model %s: the wrong variant %s is not rejected (rc %d)" % (name, c, rc))
            rejected.append("%s by %s" % (c, bad.group(1) or bad.group(0)))
        canary = "; ".join(rejected) or None
        return dict(model=m["tla"], constants=consts, states=d, generated=g, wrong_variant=canary)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, names):
            say("model %(model)s: %(states)d distinct states" % r, "; rejected: %s" % r["wrong_variant"] if r["wrong_variant"] else "")
            res.append(r)
    return res


# ------------------------------------------------------------------ running programs

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def drive(prog_file, out_file, ids, driver=0):
    """Run the programs; returns {id: reason} for those that crashed the process or never ended."""
    crashed, first = {}, 0
    if os.path.exists(out_file):
        os.remove(out_file)
    open(out_file, "w").close()
    while first < len(ids):
        try:
            r = subprocess.run([DRIVERS[driver], "run", prog_file, out_file, str(first)], timeout=240, preexec_fn=limits,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        n = 0
        good = 0
        with open(out_file, "rb+") as f:
            while True:
                line = f.readline()
                if not line.endswith(b"\n"):
                    break
                n += 1
                good = f.tell()
            f.truncate(good)
        if rc == 0:
            if n != len(ids):
                raise Broken("driver wrote %d of %d runs" % (n, len(ids)))
            return crashed
        if rc == 2 or n >= len(ids):
            raise Broken("driver ended with %s: %s" % (rc, r.stderr[-500:] if rc != "timeout" else ""))
        why = "never ended" if rc == "timeout" else "ended the process (%s)" % rc
        crashed[ids[n]] = why
        if os.environ.get("VERIF_KEEP"):
            say("program", ids[n], why, r.stderr[-600:] if rc != "timeout" else "")
        if len(crashed) > 3 or rc == "timeout":
            return crashed
        # a placeholder keeps the numbering of the references
        with open(out_file, "a") as f:
            f.write(json.dumps(dict(id=ids[n], ref=0, tag="twin", schema=dict(k="LONG", p=0, s=0, n=[0], names=[], kids=[]), comp="NONE",
                                    block=-1, stripe=-1, stride=-1, strideN=[1, 10000], conf=[], crash=why, fin=False, flushed=False, ev=[], file=[], dec=[])) + "\n")
        first = n + 1
    return crashed


class Env:
    """What the generators may ask for."""

    def __init__(self):
        self.cache = {}
        self.n = 0

    def probe(self, p):
        self.n += 1
        f = os.path.join(WORK, "probe.prog")
        o = os.path.join(WORK, "probe.nd")
        open(f, "w").write(p.copy("probe", tag="", ref=None).text())
        if drive(f, o, ["probe"]):
            return None
        return json.loads(open(o).readline())

    def length(self, p):
        r = self.probe(p)
        return len(r["file"]) if r else 0

    def writes(self, p):
        """Number of write calls a willing sink receives."""
        r = self.probe(p.copy(p.id, sink="log"))
        return sum(1 for e in (r["ev"] if r else []) if e["e"] != "put" for x in e["io"] if x[0] >= 0)

    def closes(self, p):
        r = self.probe(p)
        out, res = 0, []
        for e in (r["ev"] if r else []):
            if e["e"] == "batch":
                res.append(e["out"] > out)
            if e["e"] != "put":
                out = e["out"]
        return res + [False] * (len([o for o in p.ops if o[0] == "B"]) - len(res))

    def calls(self):
        if "calls" not in self.cache:
            rc, txt = tlc("MC_Calls", os.path.join(SPEC, "MC_Calls.cfg"), os.path.join(WORK, "calls"), workers=CORES,
                          out=os.path.join(WORK, "calls.out"), xmx="6g")
            if rc != 0 or "No error has been found" not in txt:
                raise Broken("MC_Calls: TLC ended with %d:\n%s" % (rc, txt[-1500:]))
            schemas, progs = None, collections.defaultdict(list)
            for line in txt.splitlines():
                if line.startswith('<<"PROG"'):
                    m = re.match(r'<<"PROG", (\d+), "(.*)">>$', line)
                    progs[int(m.group(1))].append(m.group(2).replace('\\"', '"'))
                elif line.startswith('<<"SCHEMAS"') and schemas is None:
                    schemas = json.loads(re.match(r'<<"SCHEMAS", "(.*)">>$', line).group(1).replace('\\"', '"'))
            self.cache["calls"] = (schemas, {k: [json.loads(x) for x in sorted(set(v))] for k, v in sorted(progs.items())})
            self.generated = dict(getattr(self, "generated", {}), MC_Calls=(sum(map(len, progs.values())),) + counts(txt))
        return self.cache["calls"]

    def confs(self):
        """Histories of configuration calls, from MC_Config."""
        if "confs" not in self.cache:
            rc, txt = tlc("MC_Config", os.path.join(SPEC, "MC_Config.cfg"), os.path.join(WORK, "confs"), workers=2,
                          out=os.path.join(WORK, "confs.out"))
            if rc != 0 or "No error has been found" not in txt:
                raise Broken("MC_Config: TLC ended with %d:\n%s" % (rc, txt[-1500:]))
            got = {m.group(1).replace('\\"', '"') for m in re.finditer(r'^<<"CONF", "(.*)">>$', txt, re.M)}
            self.cache["confs"] = [json.loads(x) for x in sorted(got)]
            self.generated = dict(getattr(self, "generated", {}), MC_Config=(len(got),) + counts(txt))
        return self.cache["confs"]

    def paths(self, enc):
        if enc not in self.cache:
            rc, txt = tlc("EncPaths", os.path.join(SPEC, "EncPaths_%s.cfg" % enc), os.path.join(WORK, "paths" + enc), workers=1,
                          out=os.path.join(WORK, "paths_%s.out" % enc))
            if rc != 0 or "No error has been found" not in txt:
                raise Broken("EncPaths: TLC ended with %d:\n%s" % (rc, txt[-1500:]))
            # TLC breaks long tuples over several lines
            flat = " ".join(txt.split())
            got = {tuple(int(x) for x in m.group(1).split(",")) for m in re.finditer(r'<<\s*"PATH",\s*"%s",\s*<<([-\d, ]+)>>\s*>>' % enc, flat)}
            if not got:
                raise Broken("EncPaths printed no paths")
            self.cache[enc] = [list(x) for x in sorted(got)]
            self.generated = dict(getattr(self, "generated", {}), **{"EncPaths_" + enc: (len(got),) + counts(txt)})
        return self.cache[enc]


# ------------------------------------------------------------------ trace validation

COMPLAINT = re.compile(r'<<"(C\d\d)", "([^"]*)", (-?\d+), (-?\d+)>>')


def parse_violations(text):
    """[(run id, event, [complaint])] from the error traces of TLC."""
    got, run, event = {}, None, 0
    flat = text
    for m in re.finditer(r'^/\\ (run|event|complaints) = (.*(?:\n(?!/\\|State |\s*$).*)*)', flat, re.M):
        if m.group(1) == "run":
            run = m.group(2).strip().strip('"')
        elif m.group(1) == "event":
            event = int(m.group(2).split()[0])
        else:
            c = COMPLAINT.findall(m.group(2))
            if c and run:
                got[run] = c
    return got


def judge(nd, prop, name, timeout, module="Trace"):
    cfg = os.path.join(WORK, "T_%s.cfg" % name)
    open(cfg, "w").write('CONSTANT Prop = "%s"\nINIT TInit\nNEXT TNext\nINVARIANT Holds\nALIAS Alias\nVIEW View\n' % prop)
    rc, txt = tlc(module, cfg, os.path.join(WORK, "t_" + name), workers=1, env={"TRACE_FILE": nd}, args=("-continue",),
                  timeout=timeout, xmx="3g", out=os.path.join(WORK, "t_%s.out" % name))
    return rc, txt


def shard(groups, n):
    """Split groups of programs over n files of about equal weight, keeping groups together."""
    bins = [[0, []] for _ in range(n)]
    for g in sorted(groups, key=lambda g: -sum(p.weight() for p in g)):
        b = min(bins, key=lambda x: x[0])
        b[0] += sum(p.weight() for p in g)
        b[1].append(g)
    return [b[1] for b in bins if b[1]]


class Round:
    pass


def run_shard(args):
    """Run and judge one shard.  Returns a dictionary of results."""
    prop, name, groups, deadline, driver, module = args
    progs = [p for g in groups for p in g]
    ids = [p.id for p in progs]
    pf, nd = os.path.join(WORK, name + ".prog"), os.path.join(WORK, name + ".nd")
    open(pf, "w").write("".join(p.text() for p in progs))
    res = dict(programs=len(progs), violations={}, known=[], states=0, transitions=0, judged=0, lines={}, canary=None, broken=None)
    res["crashed"] = drive(pf, nd, ids, driver)
    for i, why in res["crashed"].items():
        res["violations"][i] = [(prop, "a call " + why, "0", "0")]
    if len(res["crashed"]) > 3 or "never ended" in res["crashed"].values():
        return res
    expect, calls = 0, 0
    with open(nd) as f:
        for line in f:
            # number of recorded calls without parsing everything
            n = line.count('{"e":"')
            expect += n + 2
            calls += n
    res["calls"] = calls
    res["bytes"] = os.path.getsize(nd)
    rc, txt = judge(nd, prop, name, max(120, deadline - time.time()), module)
    if rc == -9:
        res["broken"] = "TLC did not finish shard %s in time" % name
        return res
    res["known"] = re.findall(r'<<"KNOWN", "(\w+)", "([^"]+)">>', txt)
    v = parse_violations(txt)
    res["violations"].update(v)
    gen, dist = counts(txt)
    res["states"], res["transitions"] = dist, gen
    if not v:
        if rc == 0 and dist == expect:
            res["judged"] = len(progs)
        elif re.search(r"StackOverflow|OutOfMemory|Java heap", txt):
            res["broken"] = "TLC ran out of memory on shard %s" % name
        elif rc == 75 or "Error: Evaluating" in txt or "TLC threw an unexpected exception" in txt or "The error occurred when TLC was evaluating" in txt:
            res["eval_error"] = txt[-3000:]
        else:
            res["broken"] = "shard %s: TLC ended with %d, %d of %d states:\n%s" % (name, rc, dist, expect, txt[-1500:])
    else:
        res["judged"] = len(progs)
        if dist > expect:
            res["broken"] = "shard %s: more states than events" % name
    if not v and not res["crashed"]:
        res["nd"] = nd
    return res


def isolate(prop, groups, name, driver):
    """A shard on which TLC's evaluation failed: find a program that causes it."""
    if len(groups) == 1:
        return groups[0]
    for half in (groups[:len(groups) // 2], groups[len(groups) // 2:]):
        r = run_shard((prop, name + "i", half, time.time() + 300, driver, "Trace"))
        if r.get("eval_error") or r["violations"]:
            return isolate(prop, half, name, driver)
    return None


# ------------------------------------------------------------------ corrupted traces

def corrupt(prop, recs, r):
    """Recorded runs with one thing changed, such that the property no longer holds of them."""
    out = []

    def put(rec, **kw):
        out.append(dict(rec, **kw))

    fins = [x for x in recs if x["fin"] and x["tag"] == ""]
    r.shuffle(fins)
    if prop in ("C12", "C14", "C16"):
        for x in [x for x in recs if x["ref"] and x["fin"]][:4]:
            f = list(x["file"])
            f[len(f) // 2] ^= 1
            put(x, file=f)
    elif prop == "C13":
        for x in recs:
            if x["tag"] == "fault" and len(out) < 6:
                bad = [i for i, e in enumerate(x["ev"]) if e["e"] != "put" and e["r"] == "err"]
                if bad:
                    ev = [dict(e) for e in x["ev"]]
                    ev[bad[0]]["r"] = "ok"
                    put(x, ev=ev)
    elif prop == "C11":
        for x in recs:
            if len(out) < 6 and any(e["e"] in ("batch", "finish") and e["r"] == "panic" for e in x["ev"]):
                ev = [dict(e) for e in x["ev"]]
                for e in ev:
                    if e["e"] in ("batch", "finish") and e["r"] == "panic":
                        e["r"] = "ok"
                put(x, ev=ev)
    elif prop == "C17":
        for i, x in enumerate([x for x in fins if x["conf"]][:6]):
            put(x, conf=x["conf"] + [[["comp", "SNAPPY", [["block", 77]]], ["comp", "ZSTD", [["level", 0]]], ["stride", 77]][i % 3]])
    elif prop == "C10":
        for x in fins[:40]:
            b = [i for i, e in enumerate(x["ev"]) if e["e"] == "batch" and e["n"] > 0]
            if b and len(out) < 6:
                # the last batch seems to have reached the sink a call earlier
                ev = [dict(e) for e in x["ev"]]
                grew = [i for i in b if ev[i]["out"] > max([0] + [e["out"] for e in ev[:i] if e["e"] != "put"])]
                if not grew:
                    continue
                i = grew[0]
                ev[i]["out"] = max([0] + [e["out"] for e in ev[:i] if e["e"] != "put"])
                put(x, ev=ev)
    else:
        for x in fins:
            if len(out) >= 6:
                break
            if prop == "C05":
                sch = json.loads(json.dumps(x["schema"]))
                todo = [sch]
                while todo:
                    t = todo.pop()
                    if t["k"] in ("LONG", "INT", "DATE", "STRING", "BINARY", "DOUBLE", "FLOAT"):
                        t["k"] = {"LONG": "INT", "INT": "LONG", "DATE": "LONG", "STRING": "BINARY", "BINARY": "STRING",
                                  "DOUBLE": "FLOAT", "FLOAT": "DOUBLE"}[t["k"]]
                        put(x, schema=sch)
                        break
                    todo += t["kids"]
            elif prop == "C04":
                f = list(x["file"])
                put(x, file=f[:3] + [0] + f[3:], dec=[[a + 1, b] for a, b in x["dec"]])
            elif prop == "C03":
                if x["comp"] != "NONE":
                    put(x, block=(x["block"] if x["block"] > 0 else 262144) + 1)
            elif prop == "C09":
                n = sum(e["n"] for e in x["ev"] if e["e"] == "batch")
                s = 10000 if x["stride"] < 0 else x["stride"]
                if 0 < s < n and x["schema"]["k"] not in ("LIST", "MAP", "UNION"):
                    put(x, stride=s + 1 if n % s == 1 or s == 1 else s - 1)
            else:
                # a value that was never written: null instead of the recorded value
                flat = []

                def go(t):
                    flat.append(t["k"])
                    for k in t["kids"]:
                        go(k)
                go(x["schema"])
                hit = [(i, j) for i, e in enumerate(x["ev"]) if e["e"] == "put" and flat[e["c"]] not in ("STRUCT", "LIST", "MAP", "UNION")
                       for j, c in enumerate(e["vs"]) if c != []]
                s = 10000 if x["stride"] < 0 else x["stride"]
                if hit and s > 0:
                    i, j = r.choice(hit)
                    ev = [dict(e, vs=list(e["vs"])) if e["e"] == "put" else e for e in x["ev"]]
                    ev[i]["vs"][j] = []
                    put(x, ev=ev)
    return out


def canaries(prop, nds, seed):
    """The trace check has to reject corrupted traces."""
    r = random.Random("canary:%s:%s" % (seed, prop))
    nd = max(sorted(nds), key=lambda f: sum(1 for _ in open(f)))
    recs, size = [], 0
    lines = open(nd).read().splitlines()
    by = list(range(len(lines)))
    r.shuffle(by)
    sel, seen = [], set()
    for i in by:
        if len(lines[i]) < 30000 and len(sel) < 400:
            sel.append(i)
    recs = [json.loads(lines[i]) for i in sel]
    bad = corrupt(prop, recs, r)[:6]
    if not bad:
        return dict(corrupted=0, rejected=0)
    refs, out = {}, []
    for x in bad:
        if x["ref"]:
            if x["ref"] not in refs:
                out.append(json.loads(lines[x["ref"] - 1]))
                refs[x["ref"]] = len(out)
    for i, x in enumerate(bad):
        if x["ref"]:
            x["ref"] = refs[x["ref"]]
        x["id"] = "corrupt%d" % i
        out.append(x)
    f = os.path.join(WORK, "canary.nd")
    open(f, "w").write("".join(json.dumps(x) + "\n" for x in out))
    rc, txt = judge(f, prop, "canary", 300)
    v = [k for k in parse_violations(txt) if k.startswith("corrupt")]
    if not v:
        raise Broken("no corrupted trace was rejected:\n" + txt[-1500:])
    return dict(corrupted=len(bad), rejected=len(v))


def large_canary(prop, nds):
    """The same for the runs recorded by number: one row less than announced, in every one."""
    out = []
    for f in nds:
        x = json.loads(open(f).readline())
        if len(x["ev"]) > 1000:
            continue
        i = next(i for i, e in enumerate(x["ev"]) if e["e"] == "batch" and e["n"] != [0])
        x["ev"][i]["n"] = [1, 77]
        out.append(dict(x, id="corrupt%d" % len(out)))
    f = os.path.join(WORK, "lcanary.nd")
    open(f, "w").write("".join(json.dumps(x) + "\n" for x in out))
    _, txt = judge(f, prop, "lcanary", 300, "Large")
    v = parse_violations(txt)
    if len(v) != len(out):
        raise Broken("corrupted runs by number: %d of %d rejected:\n" % (len(v), len(out)) + txt[-1500:])


# ------------------------------------------------------------------ one property

def families(prop, rnd, env, grow, large=False):
    """All groups of one round, with ids that say where they come from."""
    groups, sizes = [], collections.OrderedDict()
    for fam, n in mixes.MIX[prop] if not large else [("large", mixes.LARGE[prop])] if prop in mixes.LARGE and rnd == 0 else []:
        if rnd > 0 and fam in ("extremes", "empty", "big", "huge", "tags", "lengths", "kinds") and rnd % 4:
            continue
        r = random.Random("%d:%s:%s:%d" % (SEED, prop, fam, rnd))
        m = int(n * grow) if isinstance(n, int) and fam not in ("sweep", "empty", "tags", "lengths", "kinds", "entrysweep", "levels", "bounds", "variants") else n
        k = 0
        for gi, g in enumerate(mixes.FAMILIES[fam](r, m, env)):
            new = {p.id: "%s.%d.%d.%d" % (fam, rnd, gi, pi) for pi, p in enumerate(g)}
            for p in g:
                p.ref = new[p.ref] if p.ref else None
                p.id = new[p.id]
            groups.append(g)
            k += len(g)
        sizes[fam] = k
    return groups, sizes


def known_lines(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p):
        m = re.match(r"KNOWN-FINDING: property=(\w+) \[(\w+)\] (.*)", line)
        if m and m.group(1) == prop:
            out[m.group(2)] = line.strip()
    return out


def level_of(prop):
    return "fault_enumeration" if prop == "C13" else "model_checking"


def check(prop):
    build()
    env = Env()
    models = run_models(mixes.PROP_MODELS[prop])
    known = known_lines(prop)
    tot = collections.Counter()
    fams = collections.Counter()
    seen_known, samples, violations, progs_by_id = {}, [], {}, {}
    canary = None
    digest = set()
    rnd = 0
    while True:
        grow = 1 if TIER == "quick" else (1 if rnd == 0 else 2)
        groups, sizes = families(prop, rnd, env, grow)
        fams.update(sizes)
        for g in groups:
            for p in g:
                tx = p.text()
                digest.add(hashlib.md5(tx.split("\n", 1)[1].encode()).digest())
        r = random.Random("%d:%s:samples" % (SEED, prop))
        if rnd == 0:
            for g in r.sample(groups, min(4, len(groups))):
                samples.append(g[-1].text()[:700])
        shards = shard(groups, CORES if TIER == "quick" else 2 * CORES)
        say("round %d: %d programs in %d shards" % (rnd, sum(len(g) for g in groups), len(shards)))
        limit = time.time() + (600 if TIER == "quick" else BUDGET + 600)
        jobs = [(prop, "s%d_%d" % (rnd, i), gs, limit, i % 2, "Trace") for i, gs in enumerate(shards)]
        lgroups, lsizes = families(prop, rnd, env, grow, large=True)
        fams.update(lsizes)
        jobs += [(prop, "l%d_%d_%d" % (rnd, i, d), [g], limit, d, "Large") for i, g in enumerate(lgroups) for d in (0, 1)]
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            results = list(ex.map(run_shard, jobs))
        for i, (job, res) in enumerate(zip(jobs, results)):
            gs = job[2]
            if res.get("eval_error"):
                say("evaluation error in a shard, looking for the program")
                g = isolate(prop, gs, "x%d" % rnd, job[4]) if job[5] == "Trace" else gs[0]
                if g is None:
                    raise Broken("TLC cannot evaluate a shard:\n" + res["eval_error"])
                res["violations"][g[0].id] = [(prop, "the recorded run cannot be interpreted", "0", "0")]
                say(res["eval_error"][-1500:])
            if res["broken"] and not res["violations"]:
                raise Broken(res["broken"])
            for k in ("programs", "states", "transitions", "judged", "calls"):
                tot[k] += res.get(k, 0)
            for k, i in res["known"]:
                seen_known.setdefault(k, []).append(i)
            if res["violations"]:
                for g in gs:
                    for p in g:
                        progs_by_id[p.id] = (p, g)
                violations.update(res["violations"])
        if not violations and rnd == 0:
            canary = canaries(prop, [res["nd"] for job, res in zip(jobs, results) if "nd" in res and job[5] == "Trace"], SEED)
            say("corrupted traces: %(rejected)d of %(corrupted)d rejected" % canary)
            if lgroups:
                large_canary(prop, [res["nd"] for job, res in zip(jobs, results) if "nd" in res and job[5] == "Large"])
        for res in results:
            for f in glob.glob(os.path.join(WORK, "[sl]%d_*.nd" % rnd)):
                os.remove(f)
            break
        rnd += 1
        spent = time.time() - START
        if violations or TIER == "quick" or spent + 1.1 * (spent / rnd) > BUDGET:
            break

    # what was found
    mine = {i: c for i, c in violations.items() if any(x[0] == prop for x in c)}
    for k, ids in sorted(seen_known.items()):
        if k not in known:
            raise Broken("finding %s is not listed in known_findings.txt" % k)
    for k in sorted(seen_known):
        print(known[k], "(%d runs, e.g. %s)" % (len(seen_known[k]), sorted(seen_known[k])[0]))
    rc = 0
    if mine:
        rc = 1
        cand = []
        for i, c in mine.items():
            p, g = progs_by_id[i]
            ref = next((q for q in g if q.id == p.ref), None)
            cand.append((len(p.text()) + (len(ref.text()) if ref else 0), i, p, ref, c))
        cand.sort(key=lambda x: (x[0], x[1]))
        path = os.path.join(EVID, "%s.replay" % prop)
        with open(path, "w") as f:
            f.write("# %d of %d programs break %s; the shortest follows.\n" % (len(mine), tot["programs"], prop))
            f.write("# Replay: python3 %s --replay %s %s\n" % (os.path.join(HERE, "check.py"), prop, path))
            for _, i, p, ref, c in cand[:1]:
                for x in c:
                    f.write("# %s: %s %s (stripe or call %s, column %s)\n" % (i, x[0], x[1], x[2], x[3]))
                f.write((ref.text() if ref else "") + p.text())
        for _, i, p, ref, c in cand[:8]:
            print("  %s: %s" % (i, "; ".join("%s (%s, column %s)" % (x[1], x[2], x[3]) for x in c[:3] if x[0] == prop)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    os.makedirs(EVID, exist_ok=True)
    cov = dict(states=tot["states"] + sum(m["states"] for m in models),
               transitions=tot["transitions"] + sum(m["generated"] for m in models),
               traces_validated_against_impl=tot["judged"],
               evaluations=tot["programs"], distinct_nontrivial=len(digest),
               rule="programs by family (below), run against the crate; distinct by text without the id",
               samples=samples, families=dict(fams), recorded_calls=tot["calls"], rounds=rnd,
               models=models, corrupted_traces=canary,
               behaviours_from_tlc={k: dict(printed=v[0], states=v[2], transitions=v[1]) for k, v in getattr(env, "generated", {}).items()},
               known_findings={k: len(v) for k, v in seen_known.items()})
    json.dump(dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level_of(prop), coverage=cov,
                   assumptions=["the driver records calls and bytes truly", "Zstandard payloads are decompressed by the zstd crate, everything else by the specification",
                                "TLC and its Java runtime"],
                   wall_s=round(time.time() - START, 1), violations=len(mine)), open(os.path.join(EVID, "%s.json" % prop), "w"), indent=1)
    say("%s: %d programs, %d runs validated, %d states; %s" % (prop, tot["programs"], tot["judged"], cov["states"],
                                                               "%d violate" % len(mine) if mine else "held"))
    return rc


def replay(prop, path):
    build()
    text = "".join(x for x in open(path) if not x.startswith("#"))
    ids = re.findall(r"^P (\S+)", text, re.M)
    pf, nd = os.path.join(WORK, "r.prog"), os.path.join(WORK, "r.nd")
    open(pf, "w").write(text)
    rc = 0
    for driver, what in enumerate(("with overflow checks", "without overflow checks")):
        crashed = drive(pf, nd, ids, driver)
        print(what, "crashed:", crashed)
        _, txt = judge(nd, prop, "r", 300, "Large" if re.search(r"^P \S+ \S+ large", text, re.M) else "Trace")
        v = parse_violations(txt)
        print(v or txt[-1500:])
        rc = 1 if crashed or v else rc
        if "-k" in sys.argv:
            shutil.copy(nd, "/tmp/replay%d.nd" % driver)
    return rc


def main():
    global WORK
    args = [a for a in sys.argv[1:] if a != "-k"]
    if args == ["--build"]:
        try:
            build()
            return 0
        except Broken as e:
            print("ERROR:", e)
            return 2
    prop = args[1] if args[0] == "--replay" else args[0]
    WORK = os.path.join(HERE, ".work", "%s.%d" % (prop, os.getpid()))
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    try:
        if args[0] == "--replay":
            return replay(prop, args[2])
        return check(prop)
    except Broken as e:
        print("ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(WORK, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
