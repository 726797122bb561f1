"""Driver: check one property.   python3-vt -m mdv.check <ID> [--tier quick|thorough] [--harness h] [-v]"""
import warnings
warnings.filterwarnings('ignore', category=DeprecationWarning)
import glob, sys, os, time, json, pickle, threading, traceback, signal, subprocess, shutil, select, re, argparse
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mdv import ir, build, models
from mdv import exec as ex
from mdv import prove as pv
from mdv import terms as tm
from mdv.mem import Unsupported
from mdv.specs import PROPS

VERIF = build.VERIF
NCPU = int(os.environ.get("VP_JOBS", "8"))
TRUSTED = [
    "clang 18 front end and the opt passes inline/sroa/early-cse/simplifycfg (the verified text is the LLVM IR they produce from /repo's sources)",
    "mdv's IR semantics, loop-summary inference and normal-form prover (/verif/mdv), z3 4.x as back end",
    "machine floating point treated as exact real arithmetic (NaN/inf/rounding excluded); decimal literals read as the written decimal, pi as the real pi",
    "models of libm (sin, cos, sqrt, ... with their algebraic identities), operator new/delete, memcpy, C++ exceptions",
    "string formatting and logging assumed to have no effect on simulation state",
]


def in_big_stack(f):
    out = []

    def g():
        try:
            out.append(("ok", f()))
        except BaseException as e:  # noqa
            out.append(("err", "".join(traceback.format_exception(e))))
    sys.setrecursionlimit(200000)
    threading.stack_size(768 * 1024 * 1024)
    t = threading.Thread(target=g)
    t.start()
    t.join()
    return out[0]


def die_with_parent(ppid):
    """the kernel ends this process when its parent goes away"""
    try:
        import ctypes
        ctypes.CDLL(None, use_errno=True).prctl(1, signal.SIGKILL, 0, 0, 0)
        if os.getppid() != ppid:
            os._exit(1)
    except OSError:
        pass


def stream(idx, prove, jobs, hard, total):
    """prove(i) for all i in idx in child processes, each obligation under a hard
    limit; returns {i: (result, seconds)} and summed statistics"""
    got, stats = {}, {}
    pend = list(idx)
    t_end = time.time() + total
    live = {}

    def start(chunk):
        r, w = os.pipe()
        me = os.getpid()
        pid = os.fork()
        if pid == 0:
            try:
                die_with_parent(me)
                os.close(r)

                def body():
                    for i in chunk:
                        res = prove(i)
                        b = pickle.dumps((i, res))
                        b = len(b).to_bytes(8, "little") + b
                        while b:
                            b = b[os.write(w, b):]
                in_big_stack(body)
            finally:
                os._exit(0)
        os.close(w)
        live[r] = [pid, b"", list(chunk), time.time()]
    n = max(1, min(jobs, (len(pend) + 3) // 4))
    for j in range(n):
        start(pend[j::n])
    while live:
        rl, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for fd in list(live):
            h = live[fd]
            dead = False
            if fd in rl:
                b = os.read(fd, 1 << 20)
                if not b:
                    dead = True
                h[1] += b
                while len(h[1]) >= 8 and len(h[1]) >= 8 + int.from_bytes(h[1][:8], "little"):
                    k = int.from_bytes(h[1][:8], "little")
                    i, (r, t, st) = pickle.loads(h[1][8:8 + k])
                    h[1] = h[1][8 + k:]
                    got[i] = (r, t)
                    for a, v in st.items():
                        stats[a] = stats.get(a, 0) + v
                    h[2].remove(i)
                    h[3] = now
            stuck = now - h[3] > hard or now > t_end
            if not dead and not stuck:
                continue
            if stuck and not dead:
                try:
                    os.kill(h[0], signal.SIGKILL)
                except OSError:
                    pass
            os.close(fd)
            del live[fd]
            os.waitpid(h[0], 0)
            rest = h[2]
            if rest:
                got[rest[0]] = (("unknown", "timeout" if stuck else "worker lost", None), now - h[3])
                if rest[1:] and now < t_end:
                    start(rest[1:])
    return got, stats


def forked(f, timeout):
    """start f in a child; returns handle"""
    r, w = os.pipe()
    me = os.getpid()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            die_with_parent(me)
            os.close(r)
            os.setpgid(0, 0)
            res = f()
            with os.fdopen(w, "wb") as fh:
                pickle.dump(res, fh)
        except BaseException as e:  # noqa
            sys.stderr.write("worker: %s\n" % "".join(traceback.format_exception(e))[-3000:])
            code = 1
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    return [pid, r, b"", time.time() + timeout]


def wait_all(hs, done):
    """collect from handles; done(i, result or None)"""
    live = {h[1]: (i, h) for i, h in hs}
    while live:
        now = time.time()
        rl, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rl:
            i, h = live[fd]
            b = os.read(fd, 1 << 20)
            if b:
                h[2] += b
                continue
            os.close(fd)
            del live[fd]
            os.waitpid(h[0], 0)
            try:
                res = pickle.loads(h[2])
            except Exception:
                res = None
            done(i, res)
            return [x for x in hs if x[1] is not h]
        for fd, (i, h) in list(live.items()):
            if now > h[3]:
                try:
                    os.killpg(h[0], signal.SIGKILL)
                except OSError:
                    pass
                os.close(fd)
                del live[fd]
                try:
                    os.waitpid(h[0], 0)
                except OSError:
                    pass
                done(i, None)
                return [x for x in hs if x[1] is not h]
    return []


def parallel(tasks, jobs, timeout):
    """tasks: list of thunks -> list of results (None on crash/timeout)"""
    out = [None] * len(tasks)
    pend = list(range(len(tasks)))
    live = []

    def fin(i, r):
        out[i] = r
    while pend or live:
        while pend and len(live) < jobs:
            i = pend.pop(0)
            live.append((i, forked(tasks[i], timeout)))
        live = wait_all(live, fin)
    return out


# ------------------------------------------------------------------ one harness
def run_harness(mods, hn, opts, cfg, jobs):
    t0 = time.time()
    E = ex.Engine(mods, stubs=dict(cfg.get("stubs", {})), opts=opts)
    st = ex.State()
    top = None
    outs = []
    try:
        outs = E.call(E.funcs[hn], [], st)
    except (ex.NullDeref, ex.MemError) as e:
        E.obs.append(ex.Ob("memory: %s" % e, "safety", [], False, E.where(), None, ()))
        top = "memory: %s" % e
    except Unsupported as e:
        top = "unsupported: %s" % e
    except RecursionError:
        top = "unsupported: recursion"
    except Exception as e:
        top = "internal: " + "".join(traceback.format_exception(e))[-1500:]
    texec = time.time() - t0
    obs = E.obs
    allowed = cfg.get("throws", ())
    for k, s, v in outs:
        if k == "throw":
            obs.append(ex.Ob("no exception %s" % v[1], "check", list(s.pc), False, "exit of %s" % hn, None, s.fa))
        elif k == "stop" and v != "assume":
            obs.append(ex.Ob("no abort", "check", list(s.pc), False, "exit of %s" % hn, None, s.fa))
    for rx, why in cfg.get("defer", ()):
        keep = []
        for o in obs:
            if o.kind == "defined" and re.search(rx, o.where):
                E.note("deferred: definedness at %s is decided by %s" % (o.where.split(" in ")[0], why))
            else:
                keep.append(o)
        obs = keep

    def prover(mult):
        def f(i):
            P = pv.Prover(cfg["ob_timeout"] * mult, cfg["z3_ms"] * mult)
            t1 = time.time()
            try:
                r = P.prove(obs[i])
            except RecursionError:
                r = ("unknown", "recursion", None)
            except Exception as e:
                r = ("unknown", "internal: " + "".join(traceback.format_exception(e))[-800:], None)
            return r, time.time() - t1, vars(P.stats)
        return f
    left = lambda: max(5, cfg["harness_timeout"] - (time.time() - t0))
    order = [i for i, o in enumerate(obs) if o.kind == "check"] + [i for i, o in enumerate(obs) if o.kind != "check"]
    got, stats = stream(order, prover(1), jobs, cfg["ob_timeout"] * 1.2 + 5, left())
    # one retry with more time for obligations lost to a time limit
    late = [i for i in order if obs[i].kind != "reach" and got.get(i, (("unknown",),))[0][0] == "unknown"]
    if late and len(late) <= 12 and time.time() - t0 < cfg["harness_timeout"] * 0.4:
        g2, s2 = stream(late, prover(2), max(jobs, 4), cfg["ob_timeout"] * 2.2 + 5, left())
        got.update(g2)
        for k, v in s2.items():
            stats[k] = stats.get(k, 0) + v
    recs = []
    for i, o in enumerate(obs):
        r, t = got.get(i, (("unknown", "worker lost", None), 0))
        recs.append(dict(kind=o.kind, name=o.name, where=o.where, status=r[0], method=r[1], model=r[2] if r[0] != "proved" else None, time=t,
                         goal=str(o.goal)[:400] if r[0] != "proved" else ""))
    return dict(harness=hn, top=top, obs=recs, notes=dict(E.notes), entered=dict(E.entered), covers=dict(E.covers), exec=texec,
                total=time.time() - t0, stats=stats, inputs={k: v[0] for k, v in E.inputset.items()}, summaries=getattr(E, "summaries", 0),
                outs=[k for k, _, _ in outs], opts={k: v for k, v in opts.items()})


def worker(lls, hn, opts, cfg, jobs):
    def f():
        def g():
            mods = [ir.Module(p) for p in lls]
            return run_harness(mods, hn, opts, cfg, jobs)
        st, r = in_big_stack(g)
        if st == "err":
            return dict(harness=hn, top="internal: " + r[-2000:], obs=[], notes={}, entered={}, covers={}, exec=0, total=0, stats={}, inputs={}, summaries=0, outs=[], opts=opts)
        return r
    return f


def list_harnesses(ll):
    hs = []
    with open(ll) as f:
        for L in f:
            m = re.match(r'define .*@(h_\w+)\(\)', L)
            if m:
                hs.append(m.group(1))
    return hs


def is_bad(o):
    return o["status"] != "proved" and o["kind"] != "reach"


def demangle(names):
    try:
        p = subprocess.run(["/usr/bin/llvm-cxxfilt-18"] if os.path.exists("/usr/bin/llvm-cxxfilt-18") else ["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.split("\n")[:len(names)]
    except OSError:
        return names


def model_values(model):
    out = {}
    if not model:
        return out
    for k, v in model.items():
        if isinstance(v, dict):
            for args, val in v["entries"]:
                if len(args) == 1 and isinstance(args[0], int) and isinstance(val, (int, float)) and not isinstance(val, bool):
                    out["%s[%d]" % (k, args[0])] = val
        elif isinstance(v, bool):
            out[k] = int(v)
        elif isinstance(v, (int, float)):
            out[k] = v
    return out


class Native:
    def __init__(self, work, groups):
        self.work = work
        self.wraps = {g["file"]: g.get("wrap") for g in groups}
        self.objs = None
        self.exes = {}
        self.err = None

    def exe(self, contract, cdefs=()):
        if contract in self.exes:
            return self.exes[contract]
        try:
            if self.objs is None:
                self.objs = build.native_lib(self.work + "/native")
            e = build.native_exe(self.work + "/native", self.objs, contract, cdefs, self.wraps.get(contract))
        except RuntimeError as x:
            self.err = str(x)[-1500:]
            e = None
        self.exes[contract] = e
        return e

    def run(self, contract, harness, seed, count, secs, only=None, values=None):
        if os.environ.get("MDV_NONATIVE"):
            return None, ""
        e = self.exe(contract)
        if e is None:
            return None, "native build failed: %s" % self.err
        cmd = [e, harness, str(seed), str(count), str(secs), only or ""]
        if values is not None:
            vf = self.work + "/values.txt"
            with open(vf, "w") as f:
                for k, v in values.items():
                    f.write("%s %.17g\n" % (k, float(v)))
            cmd.append(vf)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 90, cwd=self.work, errors="replace")
        except subprocess.TimeoutExpired:
            return None, "native run timed out"
        txt = p.stdout.decode("latin1") if isinstance(p.stdout, bytes) else p.stdout
        m = re.search(r"^FAIL (.*)$", txt, re.M)
        if m:
            ins = dict(re.findall(r"^IN (\S+) (\S+)$", txt, re.M))
            return (m.group(1), ins), txt
        return None, txt


def check_property(pid, tier, seed, only_h=None, verbose=False):
    t0 = time.time()
    spec = PROPS[pid]
    work = "/tmp/mdv_%s_%d" % (pid, os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return _check(pid, spec, tier, seed, only_h, verbose, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _check(pid, spec, tier, seed, only_h, verbose, work, t0):
    thorough = tier == "thorough"
    cfg = dict(ob_timeout=spec.get("ob_timeout", 25) * (4 if thorough else 1), z3_ms=spec.get("z3_ms", 6000) * (4 if thorough else 1),
               harness_timeout=spec.get("harness_timeout", 240) * (4 if thorough else 1))
    groups = []
    for g in spec["contracts"]:
        groups.append(g)
    # build
    tb = time.time()
    built = []
    for gi, g in enumerate(groups):
        lls = build.build_ir("%s/g%d" % (work, gi), g["tus"], g["file"], list(g.get("noinline", ())) + list(g.get("stubs", {})), g.get("defs", ()))
        built.append(lls)
    tbuild = time.time() - tb
    tasks, meta = [], []
    for gi, (g, lls) in enumerate(zip(groups, built)):
        c = dict(cfg)
        c["stubs"] = g.get("stubs", {})
        c["defer"] = list(g.get("defer", ()))
        hs = list_harnesses(lls[0])
        if only_h:
            hs = [h for h in hs if h in only_h]
        for h in hs:
            meta.append((gi, h))
            ch = dict(c)
            if g.get("defined_in") and h not in g["defined_in"]:
                ch["defer"] = c["defer"] + [(".", "the same obligation in " + ", ".join(g["defined_in"]))]
            tasks.append((lls, h, {}, ch))
    nh = max(1, len(tasks))
    jobs = max(1, NCPU // min(nh, NCPU))
    res = parallel([worker(l, h, o, c, jobs) for l, h, o, c in tasks], min(nh, NCPU), cfg["harness_timeout"] + 60)
    results = []
    for (gi, h), (l, hh, o, c), r in zip(meta, tasks, res):
        if r is None:
            r = dict(harness=h, top="internal: worker lost or timed out", obs=[], notes={}, entered={}, covers={}, exec=0, total=0, stats={}, inputs={}, summaries=0, outs=[], opts={})
        r["group"] = gi
        results.append(r)
        if verbose:
            show(r)
    # bounded stand-ins for harnesses outside the verifier's reach
    bounded = []
    need = [r for r in results if r["top"] or any(o["kind"] == "unsupported" and is_bad(o) for o in r["obs"])]
    btasks, bmeta = [], []
    for r in need:
        g = groups[r["group"]]
        vals = g.get("bounded", {"N": (1, 2, 3)})
        names = [k for k in vals if r["inputs"].get(k) == "I" or r["top"]]
        if not names:
            continue
        for k in range(max(len(vals[n]) for n in names)):
            conc = {n: vals[n][min(k, len(vals[n]) - 1)] for n in names}
            c = dict(cfg)
            c["stubs"] = g.get("bounded_stubs", g.get("stubs", {}))
            c["defer"] = list(g.get("defer", ()))
            btasks.append((built[r["group"]], r["harness"], {"concrete": conc, "unroll": True}, c))
            bmeta.append((r, conc))
    if btasks and (thorough or time.time() - t0 < 420):
        bres = parallel([worker(l, h, o, c, 1) for l, h, o, c in btasks], NCPU, 600 if thorough else 150)
        for (r, conc), b in zip(bmeta, bres):
            if b is None:
                continue
            b["bounded_at"] = conc
            b["group"] = r["group"]
            bounded.append(b)
            if verbose:
                show(b)
    # failures
    nat = Native(work, groups)
    viol = []
    degraded = []
    seen = set()
    spent = {}

    known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]

    def is_open(h, n):
        """obligations recorded as undischarged on the unchanged tree (decided by native search only)"""
        return any(re.fullmatch(x, h + "/" + n) for x in spec.get("open", ()))

    def search(h, contract, filt):
        """random native evaluation of a harness; the time per harness is capped"""
        cap = 60 if thorough else 15
        left = (2 * cap if filt else 3 * cap) - spent.get(h, 0)
        if not thorough:
            left = min(left, 160 - sum(spent.values()), 820 - (time.time() - t0))
        if left <= 1:
            return None, ""
        t1 = time.time()
        res = nat.run(contract, h, seed, 2000000, min(cap, left), filt)
        spent[h] = spent.get(h, 0) + time.time() - t1
        return res
    for r in results + bounded:
        bad = [o for o in r["obs"] if is_bad(o)]
        contract = groups[r["group"]]["file"]
        names = []
        for o in bad:
            if o["kind"] == "check" and o["name"] not in names:
                names.append(o["name"])
        for nme in names:
            if (r["harness"], nme) in seen:
                continue
            seen.add((r["harness"], nme))
            if is_known(known, r["harness"], nme):
                continue
            os_ = [o for o in bad if o["kind"] == "check" and o["name"] == nme]
            hit = None
            log = ""
            isexc = nme.startswith("no exception") or nme.startswith("no abort")
            filt = None if isexc else nme
            for o in os_[:3]:
                if o["model"]:
                    vals = model_values(o["model"])
                    hit, log = nat.run(contract, r["harness"], seed, 300, 5, filt, vals)
                    if hit:
                        break
            if not hit:
                hit, log = search(r["harness"], contract, filt)
            if hit:
                viol.append(dict(harness=r["harness"], check=nme, obs=os_, native=hit, log=log, contract=contract, bounded=r.get("bounded_at")))
            elif is_open(r["harness"], nme):
                degraded.append("%s/%s: %s (open at the baseline)" % (r["harness"], nme, os_[0]["method"]))
            else:
                viol.append(dict(harness=r["harness"], check=nme, obs=os_, native=None, log=log, contract=contract, bounded=r.get("bounded_at")))
        other = [o for o in bad if o["kind"] != "check"]
        if (other or r["top"]) and (r["harness"], "*") not in seen:
            seen.add((r["harness"], "*"))
            hit, log = search(r["harness"], contract, None)
            if hit:
                viol.append(dict(harness=r["harness"], check=hit[0].split(" code=")[0], obs=other, native=hit, log=log, contract=contract, bounded=r.get("bounded_at")))
            else:
                what = r["top"] or "; ".join("%s %s at %s (%s)" % (o["kind"], o["name"], o["where"].split(" in ")[0], o["status"]) for o in other[:6])
                tool = r["top"] is not None or all(o["kind"] == "unsupported" for o in other)
                bs = [b for b in bounded if b["harness"] == r["harness"]]
                if is_open(r["harness"], "*") or (tool and bs and all(not b["top"] and not any(is_bad(o) for o in b["obs"]) for b in bs)):
                    degraded.append("%s: %s%s" % (r["harness"], what, "; bounded stand-in passed at %s" % [b["bounded_at"] for b in bs] if tool else ""))
                else:
                    viol.append(dict(harness=r["harness"], check=what[:300], obs=other, native=None, log=log, contract=contract, bounded=r.get("bounded_at")))
    nat_samples = 0
    nat_note = []
    if thorough:
        from concurrent.futures import ThreadPoolExecutor
        for g in groups:
            nat.exe(g["file"])
        with ThreadPoolExecutor(NCPU) as pool:
            runs = list(pool.map(lambda r: nat.run(groups[r["group"]]["file"], r["harness"], seed, 3000000, spec.get("native_secs", 20)), results))
        for r, (hit, log) in zip(results, runs):
            contract = groups[r["group"]]["file"]
            m = re.search(r"OK samples=(\d+) rejected=(\d+) checks=(\d+)", log or "")
            if m:
                nat_samples += int(m.group(1))
                if int(m.group(3)) == 0:
                    nat_note.append("%s: native cross-check evaluated no check (preconditions rejected all samples)" % r["harness"])
            if hit and not any(v["harness"] == r["harness"] for v in viol):
                viol.append(dict(harness=r["harness"], check=hit[0].split(" code=")[0], obs=[], native=hit, log=log, contract=contract, bounded=None))
    # vacuity
    vac = []
    for r in results:
        if not r["top"]:
            if not any(o["kind"] == "check" for o in r["obs"]):
                vac.append(r["harness"])
            byname = {}
            for o in r["obs"]:
                if o["kind"] == "check":
                    byname.setdefault(o["name"], []).append(o["method"])
            for n, ms in byname.items():
                if all(m == "vacuous-path" for m in ms):
                    vac.append("%s/%s" % (r["harness"], n))
    return finish(pid, spec, tier, seed, results, bounded, viol, degraded, vac, tbuild, t0, groups, nat_samples, nat_note, verbose)


def show(r):
    n = {}
    for o in r["obs"]:
        n[(o["kind"], o["status"])] = n.get((o["kind"], o["status"]), 0) + 1
    print("  %s%s exec %.1fs total %.1fs %s %s" % (r["harness"], " bounded %s" % r.get("bounded_at") if r.get("bounded_at") else "", r["exec"], r["total"], n, r["top"] or ""))
    for o in r["obs"]:
        if is_bad(o):
            print("     %s %s: %s (%s) %.1fs  %s | %s" % (o["kind"], o["name"], o["status"], o["method"][:300], o["time"], o["where"][:140], o["goal"][:160]))
        elif o["time"] > 8:
            print("     slow %s %s %s %.1fs %s" % (o["kind"], o["name"], o["method"], o["time"], o["where"][:100]))


def is_known(known, harness, check):
    """a failure is known only at the very check (all its components) that the findings file names"""
    base = re.sub(r"(\.\d+)+$", "", check)
    return any(x.get("harness") == harness and x.get("check") in (check, base) for x in known)


def known_findings():
    p = VERIF + "/known_findings.jsonl"
    out = []
    if os.path.exists(p):
        for L in open(p):
            L = L.strip()
            if L.startswith("{"):
                out.append(json.loads(L))
    return out


def finish(pid, spec, tier, seed, results, bounded, viol, degraded, vac, tbuild, t0, groups, nat_samples, nat_note, verbose):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    for old in glob.glob("%s/evidence/replay_%s_*.json" % (VERIF, pid)):
        os.remove(old)
    known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]
    real = []
    for v in viol:
        if is_known(known, v["harness"], v["check"]):
            continue
        real.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    lines = []
    for i, v in enumerate(real):
        rp = "%s/evidence/replay_%s_%d.json" % (VERIF, pid, i)
        nat = v["native"]
        with open(rp, "w") as f:
            json.dump(dict(property=pid, harness=v["harness"], obligation=v["check"], contract="contracts/" + v["contract"],
                           locations=sorted(set(o["where"] for o in v["obs"]))[:8],
                           verifier=[dict(status=o["status"], method=o["method"], goal=o["goal"], model=o["model"]) for o in v["obs"][:3]],
                           bounded=v["bounded"],
                           native=dict(failed=nat[0], inputs=nat[1]) if nat else None,
                           native_log=(v["log"] or "")[-2000:],
                           replay="build contracts/%s with contracts/vp_native.cc and /repo/source, run: ./replay %s %d 1 5 '%s' <values>" % (v["contract"], v["harness"], seed, v["check"])),
                      f, indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if nat else " no-failing-input-found"))
        print("  obligation %s/%s failed at %s%s" % (v["harness"], v["check"], "; ".join(sorted(set(o["where"].split(" in ")[0] for o in v["obs"]))[:4]),
                                                    "; reproduced natively: %s" % nat[0] if nat else ""))
    listed = 0
    for r in results:  # obligations that fail because of a listed finding are counted apart
        bad = [o for o in r["obs"] if o["kind"] == "check" and o["status"] != "proved" and is_known(known, r["harness"], o["name"])]
        listed += len(bad)
        r["obs"] = [o for o in r["obs"] if o not in bad]
    tot = sum(len([o for o in r["obs"] if o["kind"] != "reach"]) for r in results)
    dis = sum(len([o for o in r["obs"] if o["kind"] != "reach" and o["status"] == "proved"]) for r in results)
    pre = sum(v for r in results for k, v in r["notes"].items() if k.startswith("discharged-") or k.startswith("trivial-"))
    byk, bym = {}, {}
    for r in results:
        for o in r["obs"]:
            if o["status"] == "proved":
                bym[o["method"]] = bym.get(o["method"], 0) + 1
            byk[o["kind"]] = byk.get(o["kind"], 0) + 1
    ent = sorted(set(k for r in results for k in r["entered"] if "7moordyn" in k or k.startswith("MoorDyn") or k.startswith("_ZN8StateVar")))
    ent = [e for e in ent if not e.startswith("_ZN2vp")]
    dem = demangle(ent)
    solver = sum(r["stats"].get("z3_time", 0) for r in results)
    ok = not degraded and not vac and dis == tot
    cov = dict(obligations=tot, discharged=dis, checker_cmd="python3-vt /verif/mdv/check.py %s --tier %s" % (pid, tier), trusted_base=TRUSTED,
               obligations_by_kind=byk, discharged_by_backend=bym, safety_obligations_discharged_during_generation=pre,
               harnesses=[r["harness"] for r in results], functions_under_contract=[d[:160] for d in dem], functions_count=len(dem),
               loop_summaries=sum(r["summaries"] for r in results), solver_seconds=round(solver, 2), build_seconds=round(tbuild, 1),
               slowest_obligations=[dict(name=o["name"], kind=o["kind"], seconds=round(o["time"], 2), where=o["where"][:100]) for o in
                                    sorted((o for r in results for o in r["obs"]), key=lambda o: -o["time"])[:5]],
               undischarged=degraded, failing_because_of_listed_findings=listed, vacuous=vac, native_cross_check_samples=nat_samples, native_notes=nat_note)
    if spec.get("level") == "other":
        cov["explanation"] = spec["bound"]
    if bounded:
        cov["bounded_standins"] = [dict(harness=b["harness"], bound=b["bounded_at"], obligations=len(b["obs"]), discharged=len([o for o in b["obs"] if o["status"] == "proved"])) for b in bounded]
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "proof"), coverage=cov,
              assumptions=spec.get("assumptions", []) + sorted(set("engine note: %s" % k for r in results for k in r["notes"] if not k.startswith(("discharged", "trivial", "loop-summary")))),
              wall_s=round(time.time() - t0, 2), violations=len(real))
    with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d/%d obligations discharged (+%d during generation), %d functions, %d harnesses, %.1fs%s" %
          (pid, tier, dis, tot, pre, len(dem), len(results), time.time() - t0, "" if ok else "  UNDISCHARGED: %s %s" % (degraded[:8], vac)))
    for L in lines:
        print(L)
    return 1 if real else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--harness", action="append")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        rc = check_property(a.pid, a.tier, seed, a.harness, a.v)
    except RuntimeError as e:
        print("ERROR: cannot build the verified text: %s" % str(e)[-3000:])
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
