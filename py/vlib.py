"""Runner: TLC, evidence, verdict lines, known findings."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
JARS = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"


class Machinery(Exception):
    pass


def build_java():
    """Compile the rational-arithmetic override; cached by source hash."""
    src = os.path.join(VERIF, "java", "Rat.java")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(VERIF, "build", "java-" + h)
    if not os.path.exists(os.path.join(out, "Rat.class")):
        tmp = tempfile.mkdtemp(prefix="vjava")
        p = subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", tmp, src],
                           capture_output=True, text=True)
        if p.returncode:
            raise Machinery("javac failed: " + p.stderr)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        try:
            shutil.copytree(tmp, out)
        except FileExistsError:
            pass
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def tlc(module, cfg, env=None, workers=8, timeout=800, extra=(), mem="8g"):
    """Run TLC on spec/<module>.tla with the given config; returns (output, rc)."""
    cp = build_java() + ":" + JARS
    meta = tempfile.mkdtemp(prefix="vtlc")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-DTLA-Library=" + SPEC, "-cp", cp, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noTE", "-config", os.path.join(SPEC, cfg)]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout + p.stderr, p.returncode


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(out):
    m = STATES.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def tail(out, n=40):
    return "\n".join([x[:400] for x in out.splitlines() if "@@" not in x][-n:])


OPEN = {}       # calls the specification leaves open, by operation


def validate(path, nbeh, module="Trace", cfg="Trace.cfg", timeout=800, workers=8):
    """Validate a file of recorded behaviours.  Returns (bad, ended, states).
    bad: list of (behaviour index, event index, op, clauses)."""
    skip = set()
    bads = []
    total = (0, 0)
    cur = path
    index = list(range(1, nbeh + 1))
    ended = 0
    for attempt in range(6):
        out, rc = tlc(module, cfg, {"TRACE": cur}, timeout=timeout, workers=workers)
        got_end, got_bad, opened = {}, {}, {}
        for line in out.splitlines():
            line = line.strip().strip('"')
            if line.startswith("@@BAD|"):
                _, b, l, op, cl = line.split("|", 4)
                got_bad[int(b)] = (int(l), op, cl)
            elif line.startswith("@@OPEN|"):
                op_ = line.split("|")[1]
                opened[op_] = opened.get(op_, 0) + 1
            elif line.startswith("@@END|"):
                _, b, l = line.split("|")
                got_end[int(b)] = int(l)
        st = stats(out)
        if "Model checking completed. No error has been found" in out:
            total = (total[0] + st[0], total[1] + st[1])
            for op_, n in opened.items():
                OPEN[op_] = OPEN.get(op_, 0) + n
            for b, (l, op, cl) in got_bad.items():
                bads.append((index[b - 1], l, op, cl))
            ended += len(got_end)
            if len(got_end) + len(got_bad) != len(index):
                raise Machinery("TLC left %d behaviours without a verdict\n%s" % (len(index) - len(got_end) - len(got_bad), tail(out)))
            return bads, ended, total
        # an evaluation error: the specification cannot interpret one behaviour
        m = re.findall(r"^/\\ b = (\d+)", out, re.M) or re.findall(r"^b = (\d+)", out, re.M)
        ml = re.findall(r"^/\\ l = (\d+)", out, re.M)
        if not m or "TLC threw" in out and "OutOfMemory" in out:
            raise Machinery("TLC failed on %s\n%s" % (module, tail(out, 60)))
        b = int(m[-1])
        err = [x for x in out.splitlines() if x.startswith("Error:")]
        bads.append((index[b - 1], int(ml[-1]) + 1 if ml else 0, "?", "{\"uninterpretable\"} " + " ".join(err)[:300]))
        if os.environ.get("VDEBUG"):
            print(tail(out, 60))
        # drop it and revalidate the rest
        lines = open(cur).read().splitlines()
        keep = [i for i in range(len(lines)) if i != b - 1]
        index = [index[i] for i in keep]
        cur = path + ".r%d" % attempt
        with open(cur, "w") as f:
            for i in keep:
                f.write(lines[i] + "\n")
        if not index:
            return bads, ended, total
    return bads, ended, total
