"""Command line of a check:  python -m engine.main C01 [quick|thorough] [-v] [--only JOB]  |  --replay FILE"""
import importlib
import json
import os
import re
import shutil
import sys
import tempfile
import time
from . import ir, native, run, bits
from .session import Conc

HERE = native.HERE
TRUST = ['clang 18 front end and -O1 pipeline (C++ to LLVM IR)', 'LLVM IR interpreter and encoder in /verif/engine', 'z3',
         'glibc libm functions are within 2 ulp of the mathematical function (monotone near exact points not assumed)']


def known():
    """known_findings.txt -> list of (property, job, claim, text) of open findings."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) job=(\S+) claim=(\S+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out


def main(argv):
    args = [a for a in argv if not a.startswith('-')]
    verbose = '-v' in argv
    if '--replay' in argv:
        return replay_file(args[0])
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = [a[7:] for a in argv if a.startswith('--only=')]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    C = importlib.import_module('checks.' + pid)
    jobs = C.jobs(tier)
    if only:
        jobs = [j for j in jobs if any(re.search(o, j.name) for o in only)]
    budget = getattr(C, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 3000)
    scratch = tempfile.mkdtemp(prefix='vf_' + pid + '_')
    try:
        asan = any(getattr(j, 'asan', False) for j in jobs)
        try:
            base = native.build(C.HARNESS, scratch, asan=asan)
        except native.BuildError as e:
            print('BUILD FAILED: %s' % e)
            return 2
        mod = ir.load(base + '.ll')
        tb = time.time() - t0
        R = run.decide(mod, base + '.so', jobs, budget, seed, verbose=verbose, asan=base + '.asan.so' if asan else None)
        agree, bad, wit, samples = 0, [], 0, []
        try:
            agree, bad, wit, samples = run.validate(mod, base + '.so', jobs, seed, 2 if tier == 'quick' else 8)
            nb, nbad, bs = run.validate_bits(mod, base + '.so', jobs, seed, 3 if tier == 'quick' else 10)
            agree += nb
            bad += nbad
            samples += bs
        except Exception as e:          # the cross-check of the executor is a diagnostic, not a verdict
            bad.append('cross-check did not finish: %r' % e)
        for b in bad[:5]:
            print('TRANSLATION MISMATCH (executor and native code differ): %s' % b)
        # violations
        opn = [k for k in known() if k[0] == pid]
        reported = []
        for jname, vals, fails in R.viol:
            new = []
            for cl, text in fails:
                k = [x for x in opn if x[1] == jname and x[2] == cl]
                if k:
                    print('KNOWN-FINDING: property=%s %s' % (pid, k[0][3]))
                else:
                    new.append((cl, text))
            if new:
                reported.append((jname, vals, new))
        for i, (jname, vals, fails) in enumerate(reported):
            d = os.path.join(HERE, 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s_%s.json' % (pid, re.sub(r'\W+', '_', jname)))
            json.dump(dict(property=pid, job=jname, inputs=vals, failing=[c for c, _ in fails], detail=fails[0][1]), open(path, 'w'), indent=1)
            print('counterexample: job %s, inputs %s' % (jname, vals))
            print('  fails: %s' % (', '.join(c for c, _ in fails[:6])))
            print('  %s' % fails[0][1][:600])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        seen = set()
        for j, u in R.und:
            if verbose or j not in seen:
                print('UNDECIDED %s: %s' % (j, u[:300]))
            seen.add(j)
        st = R.stats
        undj = {j for j, _ in R.und}
        dis = [j.name for j in jobs if j.name not in undj and j.name not in {v[0] for v in R.viol}]
        wall = time.time() - t0
        level = getattr(C, 'LEVEL', 'model_checking')
        fns = sorted(demangle(R.functions))
        ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(wall, 2), violations=len(reported),
                  coverage=dict(
                      states=st['paths'] + st['boxes'], transitions=st['instr'], traces_validated_against_impl=agree,
                      samples=samples[:6],
                      explanation='symbolic execution of the LLVM IR of the real code; %d paths, %d claims on them, decided by %d z3 queries '
                                  '(%d unsat) over %d boxes of the stated input domain; states = paths + boxes, transitions = IR instructions '
                                  'executed symbolically, traces_validated = outputs on which executor and native code agreed' % (
                                      st['paths'], st['claims'], st['queries'], st['unsat'], st['boxes']),
                      obligations=len(jobs), discharged=len(dis), undecided=['%s: %s' % (j, u[:200]) for j, u in R.und[:20]],
                      paths=st['paths'], infeasible_paths=st['infeasible'], claims=st['claims'], boxes=st['boxes'], queries=st['queries'], queries_unsat=st['unsat'],
                      solver_seconds=round(st['solver_s'], 2), native_replays=st['replays'], claims_per_job=R.claims,
                      functions_encoded=fns[:80], bounds=getattr(C, 'BOUNDS', ''), outside=getattr(C, 'OUTSIDE', ''),
                      translation_mismatches=len(bad), build_s=round(tb, 2), checker_cmd='python -m engine.main %s %s' % (pid, tier),
                      trusted_base=TRUST),
                  assumptions=TRUST + list(getattr(C, 'ASSUME', [])))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        if not only:
            json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%s %s: %d/%d obligations discharged, %d violated, %d undecided; %d paths, %d queries (%d unsat), %d boxes, solver %.1fs, wall %.1fs' % (
            pid, tier, len(dis), len(jobs), len(reported), len(undj), st['paths'], st['queries'], st['unsat'], st['boxes'], st['solver_s'], wall))
        return 1 if reported else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def demangle(names):
    import subprocess
    try:
        o = subprocess.run(['c++filt'], input='\n'.join(sorted(x.strip('@').strip('"') for x in names)), capture_output=True, text=True).stdout
        return [l for l in o.split('\n') if l and not l.startswith('std::') and 'gnu_cxx' not in l]
    except OSError:
        return list(names)


def replay_file(path):
    d = json.load(open(path))
    C = importlib.import_module('checks.' + d['property'])
    j = [j for j in C.jobs('thorough') + C.jobs('quick') if j.name == d['job']][0]
    scratch = tempfile.mkdtemp(prefix='vf_replay_')
    try:
        base = native.build(C.HARNESS, scratch, asan=getattr(j, 'asan', False))
        for a in (False, True):
            if a and not getattr(j, 'asan', False):
                break
            nat = native.Native(base + ('.asan.so' if a else '.so'), asan=a)
            if j.kind == 'bits':
                bad, S = bits.breplay(j, nat, d['inputs'])
            else:
                bad = run.replay(j, nat, list(d['inputs']), list(d['inputs'].values()))
            nat.stop()
            if bad:
                break
        print('inputs %s' % d['inputs'])
        for c, t in bad or []:
            print('FAILS %s: %s' % (c, t[:800]))
        if not bad:
            print('no failure on this tree')
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.setrecursionlimit(200000)
    sys.path.insert(0, HERE)
    sys.exit(main(sys.argv[1:]))
