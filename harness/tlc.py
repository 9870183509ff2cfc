"""Running TLC: exhaustive model checking, behaviour generation and trace validation."""
import json, os, re, shutil, subprocess, tempfile, time

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class MachineryError(Exception):
    pass


def _tlc(args, env=None, timeout=800, heap="3g", workers="1"):
    meta = tempfile.mkdtemp(prefix="vtlc")
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC",
           "-metadir", meta, "-workers", workers, "-noGenerateSpecTE", *args]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out: " + " ".join(args))
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def _stats(out):
    m = re.findall(r"(\d+) states generated[^,]*, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(spec, cfg=None, workers="4", timeout=800, heap="6g"):
    """Exhaustive check of a model. Returns dict(states, transitions, wall_s)."""
    t = time.time()
    rc, out = _tlc(["-deadlock", "-config", (cfg or spec) + ".cfg", spec + ".tla"],
                   timeout=timeout, workers=workers, heap=heap)
    gen, dist = _stats(out)
    if rc != 0 or "Model checking completed. No error has been found" not in out:
        raise MachineryError("model %s/%s does not satisfy its properties:\n%s" % (spec, cfg, out[-4000:]))
    return dict(model=cfg or spec, states=dist, transitions=gen, wall_s=round(time.time() - t, 1))


def simulate(spec, cfg, num, depth, seed, timeout=300):
    """Behaviours of a generator model. The model prints <<"BEH", json>> at the end of each."""
    rc, out = _tlc(["-deadlock", "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed),
                    "-aril", "0", "-config", cfg + ".cfg", spec + ".tla"], timeout=timeout)
    behs = []
    for m in re.finditer(r'<<"BEH", "(.*)">>', out):
        behs.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    if not behs:
        raise MachineryError("no behaviours generated by %s:\n%s" % (spec, out[-3000:]))
    return behs


_BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)
_DONE = re.compile(r'<<\s*"DONE",\s*(\d+)\s*>>')


def validate(spec, trace_path, timeout=800, heap="3g"):
    """Validate one ndjson trace file. Returns (bad: list of (line, [clauses]), states, transitions)."""
    n = sum(1 for _ in open(trace_path))
    rc, out = _tlc(["-deadlock", "-config", spec + ".cfg", spec + ".tla"], env={"TRACE": trace_path},
                   timeout=timeout, heap=heap)
    done = _DONE.findall(out)
    extra = []
    if not done or int(done[-1]) != n:
        at = re.findall(r"^(?:/\\ )?l = (\d+)\s*$", out, re.M)
        if rc in (75, 76, 255, 150, 151, 152, 153) and at and "OutOfMemory" not in out and 1 <= int(at[-1]) <= n:
            # the specification's operators are not even defined on what was recorded here
            extra = [(int(at[-1]), ["UNEXPLAINED"])]
        elif rc == 0 and 1 <= _stats(out)[1] <= n:
            extra = [(_stats(out)[1], ["UNEXPLAINED"])]        # no action of the specification allows this event
        else:
            raise MachineryError("trace validation by %s did not finish (%s lines):\n%s" % (spec, n, out[-4000:]))
    bad = {}
    for ln, cl in _BAD.findall(out):
        bad.setdefault(int(ln), set()).update(re.findall(r'"([^"]*)"', cl))
    gen, dist = _stats(out)
    for ln, cl in extra:
        bad.setdefault(ln, set()).update(cl)
    return sorted((k, sorted(v)) for k, v in bad.items()), dist, gen
