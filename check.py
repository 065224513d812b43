#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property by bounded symbolic model checking.

Exit 0: every harness of the property is verified for all values within its bounds.
Exit 1: a counterexample was found AND reproduced natively on the real code (VIOLATION line).
Exit 2: no answer (time, memory, unsupported construct, counterexample not reproduced...).
"""
import argparse, glob, json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
ENG = VERIF + '/engine'
HARN = ENG + '/harness'
KBIN = os.path.expanduser('~/.kani/kani-0.68.0/bin')
FLAGS = ['-Z', 'stubbing', '-Z', 'unstable-options', '--no-memory-safety-checks',
         '--no-assertion-reach-checks', '--no-overflow-checks']
CBMC = ['--cbmc-args', '--max-field-sensitivity-array-size', '1024']

ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--only', help='development: only harnesses containing this text')
A = ap.parse_args()
ID, TIER = A.id, A.tier
MOD = ID.lower()
SPEC = json.load(open(ENG + '/spec.json')).get(ID, {})
BUDGET = 840 if TIER == 'quick' else 6 * 3600
T0 = time.time()
WORK = '%s/work/%s' % (ENG, ID)
os.makedirs(WORK, exist_ok=True)
os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
ENV['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + ENV.get('PATH', '')
for v in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN'):
    ENV.pop(v, None)


def left():
    return max(10, BUDGET - (time.time() - T0))


def limits():
    os.setsid()


def run(cmd, timeout, out, cwd=HARN, env=ENV, stop=None):
    """Runs cmd in its own process group; returns its exit code, or None on timeout or if `stop`
    says so."""
    with open(out, 'w') as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT,
                             preexec_fn=limits)
        end = time.time() + timeout
        while True:
            try:
                return p.wait(max(0.1, min(5 if stop else timeout, end - time.time())))
            except subprocess.TimeoutExpired:
                if time.time() < end and not (stop and stop()):
                    continue
                os.killpg(p.pid, 9)
                p.wait()
                return None


def kani(extra, out, timeout, jobs=None, cbmc=CBMC, stop=None):
    cmd = ['cargo', 'kani', '--features', MOD, '--target-dir', WORK + '/kani'] + FLAGS + extra
    if jobs:
        cmd += ['-j', str(jobs), '--output-format', 'terse']
    return run(cmd + cbmc, timeout, out, stop=stop)


def list_harnesses():
    """Names in the module's `harnesses!` block, read from the source."""
    s = open('%s/src/%s.rs' % (HARN, MOD)).read()
    names = []
    for m in re.finditer(r'harnesses!\s*\{(.*?)\n\}', s, re.S):
        names += re.findall(r'\bfn ([qt]_\w+)\(\)', m.group(1))
    return names


def build_replay(profile):
    env = dict(ENV, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    cmd = ['cargo', 'build', '--offline', '--bin', 'replay', '--target-dir', WORK + '/native']
    if profile == 'release':
        cmd.append('--release')
    rc = run(cmd, 300, '%s/build-%s.log' % (WORK, profile), env=env)
    exe = '%s/native/%s/replay' % (WORK, 'debug' if profile == 'dev' else 'release')
    return exe if rc == 0 and os.path.exists(exe) else None


def replay(exe, harness, tape):
    """Returns (violated, text)."""
    log = tape + '.log'
    rc = run([exe, harness, tape], 20, log, env=dict(ENV, RUST_BACKTRACE='0'))
    txt = open(log).read()[-3000:]
    if rc is None:
        return True, txt + '\n(the real code did not come to an end within 20 s)'
    if '_rejects' in harness:
        return rc == 77, txt     # 77: what had to be rejected was accepted
    # 90/91: unusable tape.  Everything else that is not 0 is a panic, an abort or a signal.
    return rc not in (0, 90, 91), txt


def tapes(text):
    """The concrete value vectors of every playback test Kani printed."""
    res = []
    for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', text, re.S):
        vals = [[int(x) for x in v.split(',') if x.strip()]
                for v in re.findall(r'vec!\[([\d,\s]*)\]', m.group(1))]
        res.append(vals)
    return res


def failed_so_far(log):
    """{harness: description} of the failures reported in the log of a running batch."""
    at, cur, res = {}, None, {}
    try:
        lines = open(log, errors='replace').read().split('\n')
    except OSError:
        return res
    for l in lines:
        m = re.match(r'Thread (\d+): ?(.*)', l)
        if m:
            cur = m.group(1)
            c = re.match(r'Checking harness (\S+?)\.\.\.', m.group(2))
            if c:
                at[cur] = c.group(1)
            continue
        m = re.match(r'Failed Checks: (.*)', l)
        h = at.get(cur)
        if m and h and '_rejects' not in h and 'unwinding assertion' not in m.group(1) \
                and 'not currently supported' not in m.group(1):
            res.setdefault(h, m.group(1))
    return res


GRACE = 60      # seconds the other harnesses get after the first failure


class Slow:
    """Ends a batch in which a harness has failed and the others take long."""

    def __init__(self, log):
        self.log, self.since = log, None

    def __call__(self):
        if self.since is None:
            if failed_so_far(self.log):
                self.since = time.time()
            return False
        return time.time() - self.since > GRACE


def batch(names, extra, jobs, tag, timeout, slow=False):
    """Model checks these harnesses; returns ({h: result}, {h: statistics}, {h: goto file})."""
    js = '%s/%s.json' % (WORK, tag)
    if os.path.exists(js):
        os.remove(js)
    sel = ['--exact']
    for n in names:
        sel += ['--harness', '%s::%s' % (MOD, n)]
    log = '%s/%s' % (WORK, 'kani.log' if tag == 'result' else tag + '.log')
    kani(sel + extra + ['--harness-timeout', '%ds' % timeout, '--export-json', js], log,
         left() if tag == 'result' else min(left(), timeout + 60), jobs=jobs,
         stop=Slow(log) if slow else None)
    if not os.path.exists(js):
        return None
    R = json.load(open(js))
    return ({r['harness_id']: r for r in R['verification_results']['results']},
            {c['harness_id']: c.get('cbmc_stats') or {} for c in R.get('cbmc', [])},
            {h['pretty_name']: h['goto_file'] for h in R.get('harness_metadata', [])})


def only_unwinding(r):
    bad = [c for c in r['checks'] if c['status'] == 'Failure' and c['category'] != 'cover']
    return bool(bad) and all(c['category'] == 'unwind' for c in bad)


def unwind_bound(name):
    s = open('%s/src/%s.rs' % (HARN, MOD)).read()
    m = re.search(r'unwind\((\d+)\)\]((?!unwind)[^{])*fn %s\(\)' % name, s)
    return int(m.group(1)) if m else 20


UNWIND = {}     # bounds raised in this run


def main():
    names = [n for n in list_harnesses() if TIER == 'thorough' or n.startswith('q_')]
    if A.only:
        names = [n for n in names if A.only in n]
    if not names:
        print('no harness for', ID)
        return 2
    jobs = min(int(SPEC.get('jobs', 8)), max(1, len(names)), os.cpu_count() or 4)
    R = batch(names, [], jobs, 'result', int(left() * 0.8), slow=True)
    if R is None:
        # a harness has failed and the rest takes long: the failure decides if it is confirmed
        for h, what in failed_so_far(WORK + '/kani.log').items():
            v = confirm(h, [dict(description=what, location={})], [])
            if v:
                evidence(names, [dict(harness=h, status='Failure')], NOTHING, set(), [v],
                         [(x, 'not finished') for x in names if not h.endswith('::' + x)])
                return report(v)
        R = batch(names, [], jobs, 'result', int(left() * 0.8))
    if R is None:
        print(open(WORK + '/kani.log').read()[-4000:])
        print('%s: no result from the model checker' % ID)
        return 2
    res, stats, goto = R
    failing = judge(names, res, stats, {}, {})[0]
    violation = first_confirmed([f for f in failing if f[1]])
    # Second chance, one at a time: no verdict (memory shared with the others), or nothing but an
    # unwinding bound that is too small (a loop was rewritten).
    notes = {}
    for n in names:
        h = '%s::%s' % (MOD, n)
        r = res.get(h)
        if violation or left() < 60:
            break
        if r is None or not r.get('checks'):
            R = batch([n], [], None, 'retry', int(left() * 0.6))
            notes[h] = 'run again alone'
        elif only_unwinding(r):
            bound = unwind_bound(n) * 2 + 2
            R = batch([n], ['--unwind', str(bound)], None, 'retry', int(left() * 0.6))
            notes[h] = 'unwinding bound raised to %d' % bound
            if R and (h not in R[0] or not R[0][h].get('checks') or only_unwinding(R[0][h])):
                R = None      # keep the first result: the replay decides
            elif R:
                UNWIND[h] = bound
        else:
            continue
        if R:
            for old, new in zip((res, stats, goto), R):
                old.update(new)

    failing, inconclusive, per_h, tot, functions = judge(names, res, stats, goto, notes)
    if not violation:
        violation = first_confirmed([f for f in failing if f[0] not in TRIED])
    if not violation:
        inconclusive += [(h, 'counterexample for "%s" was not reproduced by the real code' %
                          ((fails + unwind)[0]['description'])) for h, fails, unwind in failing]
    evidence(names, per_h, tot, functions, [violation] if violation else [], inconclusive)
    if violation:
        return report(violation)
    for h, w in inconclusive:
        print('NO ANSWER %s: %s' % (h, w))
    if inconclusive:
        return 2
    print('%s: %d harnesses, %d checks, all hold within the bounds (%.0f s)' %
          (ID, len(names), tot['checks'], time.time() - T0))
    return 0


NOTHING = dict(checks=0, vccs=0, solver=0.0, symex=0.0, steps=0, covers=0)
TRIED = set()


def report(v):
    print('property %s, harness %s: %s' % (ID, v['harness'], v['what']))
    print(v['output'])
    print('VIOLATION property=%s replay=%s' % (ID, v['replay']))
    return 1


def first_confirmed(failing):
    """One confirmed counterexample decides the property."""
    for h, fails, unwind in failing:
        TRIED.add(h)
        v = confirm(h, fails, unwind)
        if v:
            return v
    return None


def judge(names, res, stats, goto, notes):
    """Failures, harnesses without an answer, and the numbers for the evidence."""
    failing, inconclusive, per_h = [], [], []
    tot = dict(NOTHING)
    functions = set()
    for n in names:
        h = '%s::%s' % (MOD, n)
        r = res.get(h)
        if r is None or not r.get('checks'):
            inconclusive.append((h, 'no verdict (time or memory limit, or an internal error)'))
            continue
        rejects = '_rejects' in n
        checks, status = r['checks'], r['status']
        accepted = [c for c in checks if c['category'] == 'cover' and
                    c['description'].startswith('never:')]
        checks = [c for c in checks if c not in accepted]
        if rejects:      # the library is expected to panic; being accepted is the violation
            checks = [c for c in checks if c['category'] not in
                      ('assertion', 'arithmetic_overflow', 'safety_check',
                        'division-by-zero')]
            status = 'Success'
        accepted = [c for c in accepted if c['status'] == 'Satisfied']
        bad = [c for c in checks if c['status'] not in
               ('Success', 'Satisfied', 'Unreachable', 'Uncovered', 'Covered')]
        covers = [c for c in checks if c['category'] == 'cover']
        fails = accepted + [c for c in bad if c['status'] == 'Failure' and c['category'] not in
                 ('cover', 'unwind', 'unsupported_construct', 'missing_definition')]
        unwind = [c for c in bad if c['status'] == 'Failure' and c['category'] == 'unwind']
        other = [c for c in bad if c not in fails and c not in unwind]
        s = stats.get(h, {})
        tot['checks'] += len(checks) - len(covers)
        tot['covers'] += sum(c['status'] == 'Satisfied' for c in covers)
        tot['vccs'] += s.get('vccs_generated') or 0
        tot['solver'] += s.get('runtime_decision_procedure_s') or 0
        tot['symex'] += s.get('runtime_symex_s') or 0
        tot['steps'] += s.get('size_program_expression') or 0
        per_h.append(dict(harness=h, status=status, checks=len(checks) - len(covers),
                          vccs_generated=s.get('vccs_generated'),
                          vccs_after_simplification=s.get('vccs_remaining'),
                          program_steps=s.get('size_program_expression'),
                          symex_s=s.get('runtime_symex_s'),
                          solver_s=s.get('runtime_decision_procedure_s'),
                          wall_s=r['duration_ms'] / 1000.0))
        if h in notes:
            per_h[-1]['note'] = notes[h]
        if fails or unwind:
            failing.append((h, fails, unwind))
        elif other:
            inconclusive.append((h, '; '.join('%s: %s' % (c['category'], c['description'])
                                              for c in other[:3])))
        elif not covers:
            inconclusive.append((h, 'no reachability witness'))
        elif status != 'Success':
            inconclusive.append((h, 'status ' + status))
        if h in goto:
            functions |= encoded(goto[h])
    return failing, inconclusive, per_h, tot, functions


def encoded(symtab):
    """Functions of the repository in the goto program of a harness."""
    out = symtab.replace('.symtab.out', '.out')
    mp = symtab.replace('.symtab.out', '.pretty_name_map.json')
    try:
        txt = subprocess.run([KBIN + '/goto-instrument', '--list-goto-functions', out],
                             capture_output=True, text=True, timeout=60).stdout
        pretty = json.load(open(mp))
    except Exception:
        return set()
    res = set()
    for name in set(re.findall(r'_R\w+', txt)):
        p = pretty.get(name)
        if p and 'optlib' in p:
            p2 = re.sub(r'<closure.*', '', p)
            # defined in the repository (not merely instantiated with its types)
            if re.match(r'^<?(&mut |&)?(optlib|optlib_testfunc)::', p2):
                res.add(p)
    return res


def confirm(h, fails, unwind):
    """Replays the counterexamples of a failed harness on the real code."""
    log = '%s/playback-%s.log' % (WORK, h.split('::')[1])
    kani(['--exact', '--harness', h] +
         (['--unwind', str(UNWIND[h])] if h in UNWIND else []) +
         ['-Z', 'concrete-playback', '--concrete-playback=print'],
         log, left())
    ts = tapes(open(log).read())
    seen = []
    for i, t in enumerate(ts[:40]):
        if t in seen:
            continue
        seen.append(t)
        path = '%s/evidence/replay/%s-%s-%d.tape' % (VERIF, ID, h.split('::')[1], i)
        with open(path, 'w') as f:
            f.write('# property %s, harness %s\n' % (ID, h))
            f.write('# replay: (cd %s && cargo run --offline --bin replay -- %s %s)\n' % (HARN, h, path))
            for v in t:
                f.write(' '.join('%02x' % b for b in v) + '\n')
        for profile in ('dev', 'release'):
            exe = EXES.setdefault(profile, None) or build_replay(profile)
            EXES[profile] = exe
            if not exe:
                continue
            bad, txt = replay(exe, h, path)
            if bad:
                what = (fails + unwind)[0]
                return dict(harness=h, replay=path, output=txt, profile=profile,
                            what='%s (%s:%s)' % (what['description'], what['location'].get('file'),
                                                 what['location'].get('line')))
        os.remove(path)
    return None


EXES = {}


def evidence(names, per_h, tot, functions, violations, inconclusive):
    ev = dict(
        property=ID, tier=TIER, seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
        coverage=dict(
            explanation='Bounded symbolic model checking (Kani 0.68 / CBMC 6.11 / CaDiCaL) of the '
                        'compiled MIR of /repo. Each harness drives the real public API with '
                        'symbolic data; the SAT solver decides every assertion, panic and '
                        'overflow check for all values within the bounds.',
            harnesses=per_h,
            functions_encoded=sorted(functions),
            bounds=SPEC.get('bounds', ''),
            outside_bounds=SPEC.get('outside', ''),
            checks_decided=tot['checks'],
            reachability_witnesses=tot['covers'],
            queries_vccs_generated=tot['vccs'],
            solver_time_s=round(tot['solver'], 2),
            symbolic_execution_time_s=round(tot['symex'], 2),
            program_steps=tot['steps'],
            no_answer=[dict(harness=h, why=w) for h, w in inconclusive],
            samples=[p['harness'] for p in per_h],
        ),
        assumptions=SPEC.get('assumptions', []) + [
            'CBMC, CaDiCaL and the Kani MIR translation are trusted',
            'rand 0.7.3 is replaced by engine/rand-sym: every draw is any value of its documented '
            'range (a superset of what any generator can return)',
            'pointer-validity checks of Kani are off: the library has no unsafe code',
        ],
        wall_s=round(time.time() - T0, 1), violations=len(violations))
    if violations:
        ev['coverage']['counterexamples'] = [dict(harness=v['harness'], replay=v['replay'],
                                                  what=v['what'], profile=v['profile'])
                                             for v in violations]
    with open('%s/evidence/%s.json' % (VERIF, ID), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
