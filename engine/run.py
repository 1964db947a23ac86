"""Running a check: build, explore, discharge, replay, report."""
import json
import math
import os
import queue
import random
import re
import shutil
import sys
import tempfile
import time
import copy
import hashlib
import traceback
import multiprocessing as mp
from . import ir, native, num as numm, bits
from .expr import Node, f32
from .session import explore, Conc, Sym, Infeasible, Rejected, CallFailed, nx32
from .sx import PathEnd, Machine
from . import expr as E

HERE = native.HERE


class Job:
    """A body to decide numerically.
    cuts: functions whose computed value is kept as an unknown related to its argument ('cube': x*x*x is treated as the power 3 of x; 'direct': boxes are split whenever the bounds of the simplified difference do not decide, without the linear relaxation); presplit: initial subdivision of inputs."""
    kind = 'num'

    def __init__(self, name, body, max_paths=3000, max_instr=3_000_000, max_terms=300, stubs=None, presplit=None, max_depth=60, cuts=(),
                 validate=True, symerr=False, whole=False, unroll=None):
        self.unroll = unroll    # paths with more decisions are outside the bounds
        self.whole = whole      # decide each path with all its conditions (no slicing)
        self.symerr = symerr
        self.name = name
        self.body = body
        self.max_paths = max_paths
        self.max_instr = max_instr
        self.max_terms = max_terms
        self.stubs = stubs
        self.presplit = presplit
        self.max_depth = max_depth
        self.cuts = cuts
        self.validate = validate


# ---------------------------------------------------------------------------- workers
G = {}


def worker(tq, rq, wid):
    nat = native.Native(G['so'])
    nata = native.Native(G['asan'], asan=True) if G.get('asan') else None
    st = {}
    try:
        while True:
            t = tq.get()
            if t is None:
                break
            t1 = time.time()
            try:
                k = t['k']
                r = bitwork(t, nat, nata) if k == 'bits' else xwork(t) if k == 'explore' else chunk(t, nat, st)
            except MemoryError:
                raise
            except Exception:
                r = dict(error=traceback.format_exc())
            r['task'] = t
            r['dt'] = time.time() - t1
            rq.put(r)
    finally:
        nat.stop()
        if nata:
            nata.stop()


def bitwork(t, nat, nata):
    job = G['jobs'][t['job']]
    r = bits.run_job(G['mod'], job, nat, nata, time.time() + t['slice'], t['prefixes'])
    st = r['stats']
    return dict(viol=[(t['job'], v, bad) for _, v, bad in r['viol']], und=[u[1] for u in r['und']], paths=r['paths'],
                functions={x for x in r['functions']}, left=r['left'], claims=st['claims'], replays=st['replays'], instr=st['instr'],
                queries=st['queries'], unsat=st['unsat'], solver_s=st['solver_s'])


def xwork(t):
    """Follow decision prefixes, report complete paths as traces."""
    job = G['jobs'][t['job']]
    work = list(t['prefixes'])
    end = time.time() + t['slice']
    traces = []
    inf = 0
    fns = set()
    steps = claims = npaths = 0
    zq = zu = 0
    zs = 0.0
    while work and time.time() < end:
        S = Sym(G['mod'], work.pop(), job.max_instr)
        S.stubs = job.stubs or {}
        S.unroll = job.unroll
        try:
            job.body(S)
        except Infeasible:
            work.extend(S.alts)
            inf += 1
            continue
        except PathEnd as e:
            S.path.end = (e.kind, e.what)
        work.extend(S.alts)
        fns |= S.path.called
        steps += S.path.steps
        zq, zu, zs = zq + S.path.queries, zu + S.path.unsat, zs + S.path.solver_s
        claims += len(S.path.claims)
        inputs = [(x[0], x[2], x[3]) for x in S.path.inputs]
        if S.path.end is not None or job.whole:
            traces.append((list(S.trace), None, inputs, None))
        else:
            sl = slices(S.path)
            if not sl or any(len(p[1]) < len(S.path.conds) for p, _ in sl):
                if impossible(S.path, job):
                    inf += 1
                    continue
            for part, key in sl:
                traces.append((list(S.trace), part, inputs, key))
            npaths += 1
            continue
        npaths += 1
    return dict(traces=traces, left=work, infeasible=inf, functions=fns, instr=steps, claims=claims, paths=npaths, queries=zq, unsat=zu, solver_s=zs)


_dig = {}


def digest(n):
    """Structural digest of an expression and the names of the inputs below it."""
    r = _dig.get(n.id)
    if r is not None:
        return r
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in _dig:
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, Node) and a.id not in _dig]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        h = hashlib.blake2b(digest_size=16)
        h.update(repr((x.op, x.ty)).encode())
        names = frozenset()
        if x.op == 'var':
            names = frozenset([x.args[0]])
        for a in x.args:
            if isinstance(a, Node):
                d, nm = _dig[a.id]
                h.update(d)
                names |= nm
            else:
                h.update(('|' + (a.hex() if isinstance(a, float) else repr(a))).encode())
        _dig[x.id] = (h.digest(), names)
    return _dig[n.id]


def slices(path):
    """Split a path's claims into groups that share inputs, each with the path conditions it can depend on.
    Conditions that share no input (transitively) with a claim cannot affect it; dropping them merges paths that differ only there."""
    conds = [(i, digest(c)) for i, (c, _) in enumerate(path.conds)]
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            x = parent[x]
        return x
    for _, (_, nm) in conds:
        nm = sorted(nm)
        for x in nm[1:]:
            parent[find(x)] = find(nm[0])
    groups = {}
    for k, (name, e) in enumerate(path.claims):
        nm = digest(e)[1] if isinstance(e, Node) else ()
        groups.setdefault(frozenset(find(x) for x in nm), []).append(k)
    out = []
    for g, cl in groups.items():
        keep = [i for i, (_, nm) in conds if not g or any(find(x) in g for x in nm)]
        h = hashlib.blake2b(digest_size=16)
        roots = []
        for k in cl:
            e = path.claims[k][1]
            h.update(repr(path.claims[k][0]).encode())
            h.update(digest(e)[0] if isinstance(e, Node) else repr(e).encode())
            roots.append(e)
        cs = set()
        for i in keep:
            c, pol = path.conds[i]
            cs.add(digest(c)[0] + (b'1' if pol else b'0'))
            roots.append(c)
        if path.fixed:
            seen = set()
            st = [x for x in roots if isinstance(x, Node)]
            while st:
                x = st.pop()
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.id in path.fixed:
                    cs.add(digest(x)[0] + repr(path.fixed[x.id]).encode())
                st.extend(a for a in x.args if isinstance(a, Node))
        for c in sorted(cs):
            h.update(c)
        out.append(((tuple(cl), tuple(keep)), h.digest()))
    return out


_imp = {}


def impossible(path, job):
    """True when some group of connected path conditions has no solution (interval contraction over a few sub-boxes):
    such a path is dropped before its claims are separated from the conditions they do not share inputs with."""
    groups = []
    for i, (c, pol) in enumerate(path.conds):
        nm = set(digest(c)[1])
        idx = [i]
        rest = []
        for g in groups:
            if g[0] & nm:
                nm |= g[0]
                idx = g[1] + idx
            else:
                rest.append(g)
        groups = rest + [(nm, idx)]
    for nm, idx in groups:
        h = hashlib.blake2b(digest_size=16)
        for i in sorted(idx):
            c, pol = path.conds[i]
            h.update(digest(c)[0] + (b'1' if pol else b'0'))
        k = h.digest()
        r = _imp.get(k)
        if r is None:
            r = _imp[k] = len(nm) <= 2 and infeasible(path, nm, idx, job)
        if r:
            return True
    return False


def infeasible(path, nm, idx, job):
    P = copy.copy(path)
    P.conds = [path.conds[i] for i in idx]
    P.claims = []
    N = numm.Num(P, job.max_terms, job.cuts, False)
    ins = [i for i, x in enumerate(path.inputs) if x[0] in nm]

    def rec(box, depth):
        try:
            N.forward(box)
        except numm.Empty:
            return True
        if depth == 0:
            return False
        for i in ins:
            lo, hi = box[i]
            m = 0.5 * (lo + hi)
            if not lo < m < hi:
                continue
            if all(rec(box[:i] + [b] + box[i + 1:], depth - 1) for b in ((lo, m), (m, hi))):
                return True
            break
        return False
    return rec([(x[2], x[3]) for x in path.inputs], 5)


def relevant(path, cl):
    """Indices of the conditions connected to the inputs of the given claims (a replayed path may carry extra implied conditions)."""
    names = set()
    for k in cl:
        e = path.claims[k][1]
        if isinstance(e, Node):
            names |= digest(e)[1]
    if not names:
        return list(range(len(path.conds)))
    ds = [digest(c)[1] for c, _ in path.conds]
    ch = True
    while ch:
        ch = False
        for d in ds:
            if d & names and not d <= names:
                names |= d
                ch = True
    return [i for i, d in enumerate(ds) if d & names]


def getnum(ji, trace, part, st):
    key = (ji, tuple(trace), part)
    N = st.get(key)
    if N is None:
        if len(st) > 30:
            st.clear()
        job = G['jobs'][ji]
        S = Sym(G['mod'], list(trace), job.max_instr)
        S.stubs = job.stubs or {}
        try:
            job.body(S)
        except PathEnd as e:
            S.path.end = (e.kind, e.what)
        if S.trace != list(trace) or S.alts:
            raise RuntimeError('path did not replay')
        if part is not None:
            S.path.conds = [S.path.conds[i] for i in relevant(S.path, part[0])]
            S.path.claims = [S.path.claims[i] for i in part[0]]
        N = st[key] = numm.Num(S.path, job.max_terms, job.cuts, job.symerr)
        N.relevant = {nm for e in [c for _, c in S.path.claims] + [c for c, _ in S.path.conds] if isinstance(e, Node) for nm in digest(e)[1]}
    return N


def replay(job, nat, names, pt):
    """Run the body natively at a point.  -> list of (claim, value, text) that fail, [] if none, None if rejected."""
    S = Conc(nat, dict(zip(names, pt)))
    try:
        job.body(S)
    except Rejected:
        return None
    except CallFailed as e:
        return [('call', str(e))]
    except ZeroDivisionError:
        return None
    except ValueError:
        # native result is NaN or infinite in a comparison
        return [('nan', 'a result is not a number: %s' % (S.calls[-1:],))]
    bad = []
    for nm, v in S.results:
        try:
            ok = v >= 0
        except TypeError:
            ok = False
        if not ok:
            bad.append((nm, '%s at %s; native calls %s' % (nm, dict(zip(names, pt)), [(f, i, o) for f, i, o in S.calls][:4])))
    return bad


def chunk(t, nat, st):
    ji, boxes, deadline = t['job'], t['boxes'], t['slice']
    job = G['jobs'][ji]
    N = getnum(ji, t['trace'], t['part'], st)
    path = N.path
    q0, u0, s0 = N.queries, N.unsat, N.solver_s
    names = [x[0] for x in path.inputs]
    part = t['part']
    rng = random.Random(len(t['trace']))
    t0 = time.time()
    viol = []
    und = []
    nb = 0
    stack = list(boxes)
    rp = 0
    while stack and time.time() - t0 < deadline:
        box, claims, depth = stack.pop()
        nb += 1
        B = numm.Box(N, box)
        if path.end is not None:
            empty, _, models, _ = B.run([])
            if empty:
                continue
            pend = None
        else:
            empty, res, models, _ = B.run(claims)
            if empty:
                continue
            pend = [c for c in claims if not res.get(c)]
            if not pend:
                continue
        # candidate counterexamples: the solver's models, then the middle of the box
        pts = []
        b2 = B.box2
        for m in (models or {}).values():
            if m is not None:
                pts.append([f32(x) for x in m])
        pts = pts[:2] + [[f32(0.5 * (lo + hi)) for lo, hi in b2]]
        if depth == 0:
            pts += [[f32(lo) for lo, hi in b2], [f32(hi) for lo, hi in b2]]
        hit = None
        for p in pts:
            rp += 1
            bad = replay(job, nat, names, p)
            if bad is None and part is not None:
                # inputs the claim does not depend on may violate an assumption that was sliced away
                free = [k for k, x in enumerate(path.inputs) if x[0] not in N.relevant]
                for _ in range(12 if free else 0):
                    p = list(p)
                    for k in free:
                        lo, hi = path.inputs[k][2], path.inputs[k][3]
                        p[k] = f32(lo + (hi - lo) * rng.random())
                    bad = replay(job, nat, names, p)
                    if bad is not None:
                        break
            if bad:
                hit = (p, bad)
                break
        if hit:
            viol.append((ji, dict(zip(names, hit[0])), hit[1]))
            break
        # split
        sc = B.score(pend) if pend is not None else [numm.relw(v) for v in b2]
        order = sorted(range(len(sc)), key=lambda k: -sc[k])
        done = False
        if depth < job.max_depth:
            for k in order:
                if sc[k] <= 0 and any(sc):
                    break
                h = numm.bisect(b2[k])
                if h is None:
                    continue
                for part in h:
                    nbx = list(b2)
                    nbx[k] = part
                    stack.append((nbx, pend, depth + 1))
                done = True
                break
            if not done and not any(sc):
                for k in sorted(range(len(sc)), key=lambda k: -(b2[k][1] - b2[k][0])):
                    h = numm.bisect(b2[k])
                    if h:
                        for part in h:
                            nbx = list(b2)
                            nbx[k] = part
                            stack.append((nbx, pend, depth + 1))
                        done = True
                        break
        if not done:
            und.append('%s undecided on box %s' % ([N.claims[c][0] for c in pend][:3] if pend is not None else 'path ending with %s: %s,' % path.end,
                                                    {n: b for n, b in list(zip(names, b2))[:8]}))
    return dict(boxes=nb, left=stack if not viol else [], viol=viol, und=und, queries=N.queries - q0, unsat=N.unsat - u0,
                solver_s=N.solver_s - s0, replays=rp)


# ---------------------------------------------------------------------------- driver
class Result:
    def __init__(self):
        self.viol = []
        self.und = []
        self.stats = dict(paths=0, infeasible=0, boxes=0, queries=0, unsat=0, solver_s=0.0, claims=0, replays=0, instr=0, merged=0)
        self.functions = set()
        self.claims = {}


def decide(mod, so, jobs, budget, seed=1, nproc=None, verbose=False, asan=None):
    """Explore and discharge all jobs."""
    R = Result()
    nproc = nproc or int(os.environ.get('VERIF_PROCS', '8'))
    t0 = time.time()
    end = t0 + budget
    G.update(so=so, asan=asan, jobs=jobs, mod=mod)
    backlog = []
    for ji, j in enumerate(jobs):
        backlog.append(dict(k='bits' if j.kind == 'bits' else 'explore', job=ji, prefixes=[[]], slice=2.0))
    random.Random(seed).shuffle(backlog)
    ctx = mp.get_context('fork')
    tq, rq = ctx.Queue(), ctx.Queue()
    ws = [ctx.Process(target=worker, args=(tq, rq, i), daemon=True) for i in range(nproc)]
    for w in ws:
        w.start()
    pend = 0
    dead = set()
    info = [dict(paths=0, boxes=0, claims=0, t=0.0, out=0.0) for _ in jobs]
    und = {}
    seen = set()

    def note(ji, text):
        und.setdefault(ji, []).append(text)
        if len(und[ji]) > 30:
            dead.add(ji)
    try:
        while backlog or pend:
            while backlog and pend < nproc * 2:
                used = {}
                for x in backlog:
                    used.setdefault(x['job'], info[x['job']]['t'] + info[x['job']]['out'])
                ji = min(used, key=lambda x: used[x])
                k = max(x for x in range(len(backlog)) if backlog[x]['job'] == ji)
                t = backlog.pop(k)
                if t['job'] in dead:
                    continue
                if time.time() > end:
                    note(t['job'], 'not finished in time (%s)' % t['k'] + ((' e.g. box %s' % (t['boxes'][0][0][:6],)) if t['k'] == 'num' else ''))
                    continue
                tq.put(t)
                info[ji]['out'] += 0.3
                pend += 1
            if not pend:
                break
            try:
                r = rq.get(timeout=max(120.0, end - time.time() + 120.0))
            except queue.Empty:
                R.und.append(('all', 'workers unresponsive'))
                break
            pend -= 1
            t = r['task']
            ji = t['job']
            info[ji]['out'] -= 0.3
            job = jobs[ji]
            if r.get('error'):
                note(ji, 'internal error: ' + r['error'].strip().split('\n')[-1])
                if verbose or os.environ.get('VERIF_DEBUG'):
                    print(r['error'])
                continue
            for k in ('boxes', 'queries', 'unsat', 'solver_s', 'replays', 'instr', 'paths', 'infeasible', 'claims'):
                R.stats[k] += r.get(k, 0)
            R.functions |= r.get('functions', set())
            info[ji]['paths'] += r.get('paths', 0)
            info[ji]['boxes'] += r.get('boxes', 0)
            info[ji]['claims'] += r.get('claims', 0)
            info[ji]['last'] = time.time() - t0
            info[ji]['t'] += r.get('dt', 0.0)
            for v in r.get('viol', ()):
                R.viol.append((jobs[v[0]].name, v[1], v[2]))
                dead.add(ji)
            for u in r.get('und', ()):
                note(ji, u)
            left = r.get('left') or []
            if t['k'] == 'explore':
                for trace, part, inputs, key in r['traces']:
                    if key is not None:
                        if (ji, key) in seen:
                            R.stats['merged'] += 1
                            continue
                        seen.add((ji, key))
                    for b in presplit(job, inputs):
                        backlog.append(dict(k='num', job=ji, trace=trace, part=part, boxes=[(b, list(range(len(part[0]))) if part else [], 0)], slice=1.0))
                if info[ji]['paths'] > job.max_paths:
                    note(ji, 'more than %d paths' % job.max_paths)
                    dead.add(ji)
            if left and ji not in dead:
                k = max(1, (len(left) + 3) // 4)
                for s in range(0, len(left), k):
                    n = dict(t)
                    n['slice'] = 1.5 if t['k'] == 'num' else 3.0
                    n['boxes' if t['k'] == 'num' else 'prefixes'] = left[s:s + k]
                    backlog.append(n)
    finally:
        for w in ws:
            tq.put(None)
        time.sleep(0.05)
        for w in ws:
            w.terminate()
    for ji, j in enumerate(jobs):
        R.claims[j.name] = info[ji]['claims']
        if info[ji]['claims'] == 0 and ji not in dead and ji not in und:
            note(ji, 'vacuous: no claim reached')
        for u in und.get(ji, [])[:5]:
            R.und.append((j.name, u))
        if verbose:
            print('  %-32s paths %4d claims %5d boxes %6d done %6.1fs%s' % (j.name, info[ji]['paths'], info[ji]['claims'], info[ji]['boxes'],
                  info[ji].get('last') or 0, '  UNDECIDED %d' % len(und[ji]) if ji in und else ''))
    return R


def presplit(job, inputs):
    bxs = [[(lo, hi) for (_, lo, hi) in inputs]]
    for nm, k in (job.presplit or {}).items():
        ii = [x[0] for x in inputs].index(nm)
        nb = []
        for b in bxs:
            lo, hi = b[ii]
            for s in range(k):
                a = lo if s == 0 else nx32(f32(lo + (hi - lo) * s / k), 1)
                c = hi if s == k - 1 else f32(lo + (hi - lo) * (s + 1) / k)
                bb = list(b)
                bb[ii] = (a, c)
                nb.append(bb)
        bxs = nb
    return bxs


class CEx:
    """Executor context for fully concrete runs (translation validation)."""

    def decide(self, c):
        raise PathEnd('unsupported', 'symbolic condition in a concrete run')

    concretize = decide

    def select(self, *a):
        return None

    def libm_node(self, name, ty, args):
        raise PathEnd('unsupported', name)

    def fabs_node(self, ty, a):
        raise PathEnd('unsupported', 'fabs')

    def stub(self, name, args):
        return None


def validate(mod, so, jobs, seed, n=3):
    """Push concrete inputs through the IR executor and through the native library; they must agree bit for bit."""
    nat = native.Native(so)
    rng = random.Random(seed)
    agree = 0
    bad = []
    witnesses = 0

    class V(Conc):
        def call(self, fn, ins, nout, pre=()):
            nonlocal agree
            o = Conc.call(self, fn, ins, nout, pre)
            m = Machine(mod, CEx(), 30_000_000)
            a = m.alloc('in', max(4, 4 * len(ins)), 'stack')
            b = m.alloc('out', max(4, 4 * nout), 'stack')
            for i, v in enumerate(ins):
                m.store(E.Ptr(a, 4 * i), 'float', f32(float(v)))
            try:
                m.run('@' + fn, [E.Ptr(a, 0), E.Ptr(b, 0)] + list(pre))
            except PathEnd as e:
                bad.append('%s: executor ended with %s' % (fn, e))
                return o
            for i in range(nout):
                x = m.load(E.Ptr(b, 4 * i), 'float')
                y = float(o[i])
                if isinstance(x, float) and (x == y or (x != x and y != y)):
                    agree += 1
                elif isinstance(x, float) and abs(x - y) <= 3e-7 * max(abs(x), abs(y), 1e-30):
                    agree += 1      # different compilers may pick differently rounded library calls
                else:
                    bad.append('%s(%s)[%d]: executor %r, native %r' % (fn, [float(z) for z in ins][:6], i, x, y))
            return o
    samples = []
    for j in jobs:
        if j.kind != 'num' or not j.validate:
            continue
        got = 0
        for k in range(n * 20):
            if got >= n:
                break
            pts = {}

            class P(V):
                def inp(self, name, lo, hi, ty='f32'):
                    if name not in pts:
                        if lo > 0 and hi / lo > 100:
                            v = math.exp(rng.uniform(math.log(lo), math.log(hi)))
                        else:
                            v = rng.uniform(lo, hi)
                        pts[name] = min(max(f32(v), lo), hi)
                    return V.inp(self, name, lo, hi, ty)
            S = P(nat, pts)
            try:
                j.body(S)
            except Rejected:
                continue
            except CallFailed:
                continue
            except (ValueError, ZeroDivisionError):
                pass
            got += 1
            witnesses += len(S.results)
            if len(samples) < 6 and S.calls:
                samples.append(dict(job=j.name, inputs={k: float(v) for k, v in list(pts.items())[:9]}, call=S.calls[0][0],
                                    output=[float(z) for z in S.calls[0][2]][:9] if not isinstance(S.calls[0][2], str) else S.calls[0][2]))
    nat.stop()
    return agree, bad, witnesses, samples


def validate_bits(mod, so, jobs, seed, n=3):
    """The same for bit-exact bodies: random words through the executor and the native code."""
    nat = native.Native(so)
    rng = random.Random(seed + 7)
    agree = 0
    bad = []
    samples = []

    class V(bits.BConc):
        def bv(self, name, w, lo=None, hi=None):
            if name not in self.vals:
                lo2, hi2 = lo or 0, (1 << w) - 1 if hi is None else hi
                v = rng.randint(lo2, hi2)
                if rng.random() < 0.2:
                    v = min(max(rng.choice([0, 1, 0x80, 0xff, 0x7f800000, 0x80000000, (1 << w) - 1]), lo2), hi2)
                self.vals[name] = v
            return bits.BConc.bv(self, name, w, lo, hi)

        def call(self, fn, ins, nout, pre=(), fl=False):
            nonlocal agree
            o = bits.BConc.call(self, fn, ins, nout, pre, fl)
            m = Machine(mod, CEx(), 30_000_000)
            a = m.alloc('in', max(4, 4 * len(ins)), 'stack')
            b = m.alloc('out', max(4, 4 * nout), 'stack')
            for i, v in enumerate(ins):
                m.store(E.Ptr(a, 4 * i), ('i', 32), int(v))
            try:
                m.run('@' + fn, [E.Ptr(a, 0), E.Ptr(b, 0)] + [int(x) for x in pre])
            except PathEnd as e:
                bad.append('%s: executor ended with %s' % (fn, e))
                return o
            for i in range(nout):
                x = m.load(E.Ptr(b, 4 * i), ('i', 32))
                if x == o[i] or (fl and E.bits2f(x, 'f32') != E.bits2f(x, 'f32') and E.bits2f(o[i], 'f32') != E.bits2f(o[i], 'f32')):
                    agree += 1
                else:
                    bad.append('%s(%s)[%d]: executor %r, native %r' % (fn, ins[:8], i, x, o[i]))
            return o
    for j in jobs:
        if j.kind != 'bits':
            continue
        got = 0
        for k in range(n * 15):
            if got >= n:
                break
            S = V(nat, {})
            try:
                j.body(S)
            except (Rejected, CallFailed):
                continue
            got += 1
            if len(samples) < 4 and S.calls:
                samples.append(dict(job=j.name, inputs=dict(list(S.vals.items())[:12]), call=S.calls[0][0],
                                    output=S.calls[0][3][:12] if not isinstance(S.calls[0][3], str) else S.calls[0][3]))
    nat.stop()
    return agree, bad, samples
