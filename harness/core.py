"""Runner: shards of Hypothesis searches over JSON-able case specs.

A property module (props/Cxx.py) defines
    RULE         how cases are made and what makes one non-trivial
    ASSUMPTIONS  list of str
    SUBS         list of Sub
A Sub is one executable statement of (part of) the property: a strategy that
draws a *spec* (plain JSON data, from which the inputs are built without any
further randomness), and a check(spec, ctx) that raises Violation.

Outcomes: exit 0 held on everything explored; exit 1 + VIOLATION line; exit 2
for an error of the harness itself (never reported as a violation).
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID") or os.path.join(HERE, "evidence")
HANG_S = 240.0  # one generated case takes milliseconds (or a JIT compile); see DESIGN
RERUN_S = 300.0
REHANG_S = 120.0


class Violation(Exception):
    """The code under test broke the property on the current case."""


class StopShard(BaseException):
    """Time budget of a shard used up (inconclusive, not a violation)."""


class Sub:
    def __init__(self, name, strategy, check, configs=(None,), n=(100, 2000), cap=(60, 900), parts=(1, 1)):
        self.name = name
        self.strategy = strategy  # cfg -> hypothesis strategy of specs
        self.check = check  # (spec, ctx) -> None, raises Violation
        self.configs = list(configs)
        self.n = n  # examples per shard (quick, thorough)
        self.cap = cap  # seconds per shard (quick, thorough)
        self.parts = parts  # number of independent shards per config


class Ctx:
    """What a check may report about the case at hand."""

    def __init__(self):
        self.labels = {}
        self.nontriv = False

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, flag=True):
        self.nontriv = self.nontriv or bool(flag)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def call(fn, *a, **k):
    """Call code under test; any exception on these valid inputs is a violation."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with quiet():
                return fn(*a, **k)
    except (Violation, StopShard, KeyboardInterrupt):
        raise
    except MemoryError:
        raise
    except Exception as e:  # noqa: BLE001
        msg = str(e).strip().replace("\n", " ")
        raise Violation(f"{getattr(fn, '__name__', fn)} raised {type(e).__name__}: {msg[:300]}") from e


def call_raises(fn, exc, *a, **k):
    """The call must raise one of `exc`."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with quiet():
                out = fn(*a, **k)
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{getattr(fn, '__name__', fn)} raised {type(e).__name__} rather than one of {exc}: {e}") from e
    raise Violation(f"{getattr(fn, '__name__', fn)} accepted an input it should reject, returning {str(out)[:200]}")


def of_package(e):
    """Does exception `e` come out of the package (or numba's compilation of it)?  Then it is a violation."""
    if isinstance(e, (Violation, StopShard, MemoryError)) or not isinstance(e, Exception):
        return False
    if type(e).__module__.startswith("numba."):
        return True
    root = os.path.join(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")), "neutralocean") + os.sep
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def judged(check, spec, ctx):
    """Run a check; an exception of the package on its (valid) inputs is a violation."""
    try:
        check(spec, ctx)
    except Exception as e:  # noqa: BLE001
        if of_package(e):
            msg = str(e).strip().replace("\n", " ")
            raise Violation(f"the package raised {type(e).__name__}: {msg[:300]}") from e
        raise


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


def _seed(base, *names):
    h = hashlib.sha256(":".join([str(base), *map(str, names)]).encode()).digest()
    return int.from_bytes(h[:8], "big")


END = [float("inf")]  # when the run as a whole has to be over (quick tier)


# ---------------------------------------------------------------- one shard
def run_shard(sub, cfg, cfg_i, part, prop, seed, tier, outfile, curfile):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    t = 0 if tier == "quick" else 1
    n, cap = sub.n[t], sub.cap[t]
    t0 = time.monotonic()
    st = dict(sub=sub.name, cfg=cfg, part=part, evals=0, status="ok", labels={}, samples=[], hashes=[], capped=False)
    seen = set()
    first = [t0]
    best = {"spec": None, "msg": None, "size": None, "t": None}
    curfd = os.open(curfile, os.O_RDWR | os.O_CREAT)

    def body(spec):
        now = time.monotonic()
        if best["t"] is None:
            # the clock starts after the first case, whose time goes to compilation
            if now - first[0] > cap or now > min(t0 + cap + 200.0, END[0]):
                st["capped"] = True
                raise StopShard
        elif now - best["t"] > 30.0:
            raise StopShard
        txt = canon(spec)
        b = txt.encode()
        os.ftruncate(curfd, 0)
        os.pwrite(curfd, b, 0)
        ctx = Ctx()
        try:
            judged(sub.check, spec, ctx)
        except Violation as v:
            if best["t"] is None:
                best["t"] = time.monotonic()
            if best["size"] is None or len(txt) <= best["size"]:
                best.update(spec=spec, msg=str(v), size=len(txt))
            raise
        if best["t"] is None:
            if st["evals"] == 0:
                first[0] = time.monotonic()
            st["evals"] += 1
            for k, v in ctx.labels.items():
                st["labels"][k] = st["labels"].get(k, 0) + v
            if ctx.nontriv:
                h = hashlib.blake2b(b, digest_size=8).hexdigest()
                if h not in seen:
                    seen.add(h)
                    if len(st["samples"]) < 2 and len(txt) < 1500:
                        st["samples"].append(json.loads(txt))

    strat = sub.strategy(cfg)
    test = given(strat)(body)
    test = hypothesis.seed(_seed(seed, prop, sub.name, canon(cfg), part))(test)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
        derandomize=False,
    )(test)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with quiet():
                test()
    except StopShard:
        pass
    except Violation:
        pass
    except BaseException as e:  # noqa: BLE001
        if best["spec"] is None:
            st["status"] = "error"
            st["error"] = traceback.format_exc()[-4000:]
    if best["spec"] is not None:
        st["status"] = "violation"
        st["spec"] = best["spec"]
        st["msg"] = best["msg"]
    st["hashes"] = sorted(seen)
    st["wall"] = time.monotonic() - t0
    with open(outfile + ".tmp", "w") as f:
        json.dump(st, f)
    os.replace(outfile + ".tmp", outfile)


def _replay_once(sub, spec):
    """Run one saved case directly, no generation library involved."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        judged(sub.check, spec, Ctx())


def _fork_replay(sub, spec, limit):
    """-> ('ok'|'violation'|'error'|'hang'|'crash', message)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            _replay_once(sub, spec)
            out = "ok", ""
        except Violation as v:
            out = "violation", str(v)
        except BaseException:  # noqa: BLE001
            out = "error", traceback.format_exc()[-3000:]
        try:
            os.write(w, json.dumps(out).encode()[:60000])
        finally:
            os._exit(code)
    os.close(w)
    t0 = time.monotonic()
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.monotonic() - t0 > limit:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return "hang", f"the call did not return within {limit:.0f} s"
        time.sleep(0.02)
    data = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        data += c
    os.close(r)
    if os.WIFSIGNALED(status):
        return "crash", f"the process was killed by signal {os.WTERMSIG(status)}"
    try:
        return tuple(json.loads(data))
    except ValueError:
        return "error", "no result from replay"


def load(prop):
    mod = importlib.import_module("props." + prop)
    import neutralocean

    where = os.path.realpath(os.path.dirname(neutralocean.__file__))
    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))  # VERIF_REPO: only for self-tests on scratch copies
    if where != os.path.join(repo, "neutralocean"):
        raise RuntimeError(f"neutralocean imported from {where}, not {repo}")
    return mod


def write_replay(prop, sub, cfg, spec, msg, seed, tier):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b((sub + canon(spec)).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, f"{prop}-{sub}-{h}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, sub=sub, cfg=cfg, spec=spec, message=msg, seed=seed, tier=tier,
                       how=f"python3 /verif/run.py {prop} --replay {path}"), f, indent=1)
    return path


def main(prop, args):
    tier = os.environ.get("VERIF_TIER") or "quick"
    replay = None
    only = None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    it = iter(args)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--replay":
            replay = next(it)
        elif a == "--only":
            only = next(it)
        else:
            print("unknown argument", a)
            return 2
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = _seed(os.environ["VERIF_SEED"])
    t0 = time.monotonic()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod = load(prop)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        return 2
    subs = {s.name: s for s in mod.SUBS}
    if tier == "quick":
        END[0] = t0 + 700.0

    if replay:
        r = json.load(open(replay))
        res, msg = _fork_replay(subs[r["sub"]], r["spec"], RERUN_S)
        print(res, msg)
        if res in ("violation", "hang", "crash"):
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        return 0 if res == "ok" else 2

    ti = 0 if tier == "quick" else 1
    if ti == 0:
        scale *= 2.5
    shards = []
    for s in mod.SUBS:
        if only and s.name not in only.split(","):
            continue
        if scale != 1:
            s.n = tuple(max(1, int(x * scale)) for x in s.n)
        for ci, cfg in enumerate(s.configs):
            for part in range(s.parts[ti]):
                shards.append((s, cfg, ci, part))
    if hasattr(mod, "WARM"):  # compile what the workers share; a failure here shows up in the cases
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with quiet():
                    mod.WARM()
        except Exception:  # noqa: BLE001
            pass
    # longest first
    shards.sort(key=lambda x: -x[0].cap[ti])
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    results, errors, viol = [], [], []
    running = {}
    confirmed = set()  # those of `viol` that a replay has confirmed already
    nproc = min(8, os.cpu_count() or 1)
    todo = list(enumerate(shards))
    try:
        while todo or running:
            if time.monotonic() > END[0]:
                todo = []
            while todo and len(running) < nproc and not viol:
                i, (s, cfg, ci, part) = todo.pop(0)
                out, cur = (os.path.join(scratch, f"{i}.{x}") for x in ("out", "cur"))
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        run_shard(s, cfg, ci, part, prop, seed, tier, out, cur)
                        os._exit(0)
                    except BaseException:  # noqa: BLE001
                        traceback.print_exc()
                        os._exit(3)
                running[pid] = (i, out, cur, time.monotonic())
            if viol and todo:
                todo = []
            done = []
            for pid, (i, out, cur, ts) in running.items():
                p, status = os.waitpid(pid, os.WNOHANG)
                s, cfg, ci, part = shards[i]
                if p:
                    done.append(pid)
                    if os.path.exists(out):
                        st = json.load(open(out))
                        results.append(st)
                        if st["status"] == "violation":
                            viol.append((s, cfg, st["spec"], st["msg"]))
                        elif st["status"] == "error":
                            errors.append(f"[{s.name} {cfg} {part}] {st['error']}")
                    else:
                        spec = _cur_spec(cur)
                        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
                        if spec is not None and sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                            res, msg = _fork_replay(s, spec, RERUN_S)
                            if res in ("violation", "crash", "hang"):
                                viol.append((s, cfg, spec, msg))
                                confirmed.add(len(viol) - 1)
                            else:
                                viol.append((s, cfg, spec, f"the process crashed with signal {sig} at this case in a longer run"))
                        else:
                            errors.append(f"[{s.name} {cfg} {part}] shard died: status {status}")
                else:
                    try:
                        last = os.stat(cur).st_mtime
                        age = time.time() - last
                    except OSError:
                        age = 0
                    if age > HANG_S:
                        spec = _cur_spec(cur)
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        done.append(pid)
                        if viol:
                            continue
                        res, msg = _fork_replay(s, spec, REHANG_S)
                        if res in ("violation", "crash", "hang"):
                            viol.append((s, cfg, spec, msg))
                            confirmed.add(len(viol) - 1)
                        else:
                            errors.append(f"[{s.name} {cfg} {part}] stalled")
            for pid in done:
                running.pop(pid)
            if viol and running:
                # one confirmed violation decides the run: give the others a moment, then stop them
                deadline = time.monotonic() + 1.0
                for pid in list(running):
                    while time.monotonic() < deadline and os.waitpid(pid, os.WNOHANG)[0] == 0:
                        time.sleep(0.02)
                    with contextlib.suppress(ProcessLookupError, ChildProcessError):
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                running = {}
                todo = []
            time.sleep(0.02)
    finally:
        for pid in running:
            with contextlib.suppress(ProcessLookupError):
                os.kill(pid, signal.SIGKILL)
        shutil.rmtree(scratch, ignore_errors=True)

    # confirm each violation by a plain replay that bypasses the library
    lines = []
    for i, (s, cfg, spec, msg) in enumerate(viol):
        res, m2 = ("violation", msg) if i in confirmed else _fork_replay(s, spec, REHANG_S)
        if res == "error":
            errors.append(f"[{s.name}] replay: {m2}")
            continue
        note = m2 if res != "ok" else msg + "  (did not recur when replayed alone)"
        path = write_replay(prop, s.name, cfg, spec, note, seed, tier)
        lines.append((path, s.name, note))

    labels, per = {}, {}
    hashes = set()
    samples = []
    for st in results:
        for k, v in st["labels"].items():
            labels[f"{st['sub']}.{k}"] = labels.get(f"{st['sub']}.{k}", 0) + v
        pp = per.setdefault(st["sub"], dict(evaluations=0, distinct_nontrivial=0, shards=0, capped=0))
        pp["evaluations"] += st["evals"]
        new = {(st["sub"], h) for h in st["hashes"]} - hashes
        hashes |= new
        pp["distinct_nontrivial"] += len(new)
        pp["shards"] += 1
        pp["capped"] += bool(st["capped"])
    seen_sub = {}
    for st in sorted(results, key=lambda r: (r["sub"], str(r["cfg"]), r["part"])):
        for sp in st["samples"]:
            if seen_sub.get(st["sub"], 0) < 2 and len(samples) < 12:
                seen_sub[st["sub"]] = seen_sub.get(st["sub"], 0) + 1
                samples.append(dict(sub=st["sub"], spec=sp))
    wall = time.monotonic() - t0
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(st["evals"] for st in results),
            distinct_nontrivial=len(hashes),
            rule=mod.RULE,
            samples=samples,
            per_check=per,
            classes=labels,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(lines),
    )
    os.makedirs(EVID, exist_ok=True)
    if not only:
        with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier} seed={seed}: {ev['coverage']['evaluations']} cases, "
          f"{ev['coverage']['distinct_nontrivial']} distinct non-trivial, {wall:.1f} s")
    for k, v in sorted(per.items()):
        print("   ", k, v)
    if os.environ.get("VERIF_LABELS"):
        for k, v in sorted(labels.items()):
            print("      ", k, v)
        for st in sorted(results, key=lambda r: -r["wall"]):
            print(f"       {st['sub']} {st['cfg']} {st['part']}: {st['evals']} in {st['wall']:.1f}s capped={st['capped']}")
    for path, name, note in lines:
        print(f"  {name}: {note[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
    if lines:
        return 1
    if errors:
        for e in errors[:5]:
            print("HARNESS ERROR:", e)
        return 2
    if not results or sum(st["evals"] for st in results) == 0:
        print("HARNESS ERROR: nothing was explored")
        return 2
    return 0


def _cur_spec(cur):
    try:
        return json.load(open(cur))
    except Exception:  # noqa: BLE001
        return None
