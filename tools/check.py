#!/usr/bin/env python3
# check.py PROPERTY [quick|thorough]: extracts /repo/src, has Verus discharge every obligation, replays on the real code
import sys, os, re, json, time, subprocess, tempfile, shutil, threading, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
VERIF = vlib.VERIF
SRC = os.environ.get('VERIF_SRC', '/repo/src')
OUT = os.path.join(VERIF, 'out')
REPLAY = os.path.join(VERIF, 'replay', 'target', 'debug', 'replay')
THR = os.path.join(VERIF, 'replay', 'target', 'debug', 'thr')
SHIPPED = os.path.join(VERIF, 'replay', 'target', 'nodbg', 'replay')
OPS = os.path.join(VERIF, 'replay', 'target', 'debug', 'ops')
def driver(prop): return THR if prop == 'C19' else OPS if prop == 'C18' else REPLAY
# libraries of client programs that no other proof needs: one the front end rejects is set aside, not the whole proof
LEAF = ('l_threads', 'l_client')

# ---------------------------------------------------------------- which obligations belong to which property
FAM = {  # types whose values a property is about
    'C01': r'^(Dct1|Dst1)(Naive|ConvertToFft)?(::|\.)',
    'C02': r'^(Type2And3\w+|TransformType2And3)(::|\.)',
    'C03': r'^(Type4\w+|TransformType4)(::|\.)',
    'C04': r'^(Dct5|Dst5|Dct6And7|Dst6And7|Dct8|Dst8)(Naive|ConvertToFft)?(::|\.)',
    'C05': r'^Mdct\w*(::|\.)(process_mdct|new|len|get_)',
    'C06': r'^Mdct\w*(::|\.)(process_imdct|new|len|get_)',
}
HELPERS = r'^(twiddles::|DctNum::|array_utils::)'
LIBRARY = r'(l_\w+|math|specs)$'
PROCESS = r'(::|\.)process_'

def kind_of(key, e):
    """the kinds of obligation one verifier message is about"""
    m, c = e['msg'], e['clause']
    t = re.search(r'//#(\w+)', c)
    tag = t.group(1) if t else None
    if tag: return tag
    if 'index in bounds' in m or 'arithmetic' in m or 'division by zero' in m or 'decreases' in m or 'shift' in m: return 'safe'
    if 'vpanic' in c: return 'panic'
    # a lemma's hypothesis is a step of the proof, not a condition of a call the code makes
    if 'precondition' in m: return 'step' if re.match(LIBRARY, e.get('clause_of') or '') else 'callee'
    return 'step'

def owners(key, e, used_by):
    """the properties whose own obligation this failure is"""
    k = kind_of(key, e)
    # the step counters exist in the runs made for C18 alone, which judge nothing else
    if k == 'cost': return {'C18'}
    fam = [p for p, r in FAM.items() if re.match(r, key)]
    res = set()
    if key.startswith('window_fn::'): return {'C13'} if k != 'safe' else {'C13', 'C09'}
    if key.startswith('DctPlanner::'):
        if k == 'window': return {'C11'}
        if re.search(r'mdct', key) and k in ('step', 'callee'): return {'C10', 'C11'}
        return {'C10'}
    if key.startswith('common::'): return {'C08'}
    if re.match(HELPERS, key):
        if key.startswith('array_utils::') and k == 'callee': return {'C09'}
        if k == 'safe': return {'C09'}
        return {p for p in FAM if p in used_by(key)}
    if key.endswith('::new'):
        if k == 'window': return {'C05', 'C06'}
        if k == 'new' and '.wf()' in e['clause']: return set(fam)
        if k in ('new', 'panic', 'accept'): return {'C12'}
        if k == 'safe': return {'C12'}
        if k == 'callee': return set(fam) | {'C12'}
        return set(fam)
    if k == 'size': return {'C08'}
    if k == 'accept': return {'C08', 'C09'}
    if k == 'tail': return {'C07'}
    if k == 'scratchlen': return {'C07', 'C09'}
    if k == 'len': return {'C12', 'C10'}
    if k == 'safe': return {'C09'}
    if k == 'panic': return {'C08', 'C09'}
    if k == 'callee': return {'C09'} | set(fam)
    # value of the result, or a step towards it
    return set(fam)

def coverage(prop):
    """regex of the functions whose obligations carry the property"""
    if prop in FAM: return FAM[prop] + '|' + HELPERS
    return {
        'C07': PROCESS + '|get_scratch_len|::new$', 'C08': PROCESS + r'|^common::|len$', 'C09': r'.',
        'C10': r'.', 'C11': r'^DctPlanner::(plan_mdct|plan_new_mdct|plan_dct4|plan_new_dct4|plan_dct3|plan_dct2|plan_new_dct2)|^Mdct',
        'C12': r'(::new|::len)$', 'C13': r'^window_fn::', 'C14': r'^window_fn::', 'C15': r'^(window_fn::|Mdct)', 'C16': PROCESS + '|::new$', 'C18': PROCESS + r'|::new$|^DctPlanner::', 'C19': PROCESS,
    }[prop]

# ---------------------------------------------------------------- the verifier
VMSG = ('postcondition', 'precondition', 'assertion failed', 'invariant not satisfied', 'arithmetic', 'division by zero', 'decreases', 'rlimit', 'Resource limit',
        'loop', 'unable to prove', 'not satisfied', 'cannot show', 'could not prove', 'possible')
def is_verification(d):
    m = d['msg']
    return not d['code'] and any(x in m for x in VMSG) and 'not supported' not in m and 'must have' not in m and 'does not yet support' not in m

T0 = time.time()
def prove(work, log, limit=700):
    lost, info = set(), dict(iterations=0)
    r = None
    for it in range(14):
        left = limit - (time.time() - T0)
        if left < 60: return dict(ok=False, why='the verifier did not finish in time', report=r, lost=lost, **info)
        info['iterations'] = it + 1
        gen, rep = os.path.join(work, 'gen.rs'), os.path.join(work, 'rep.json')
        rc, err = vlib.extract(SRC, gen, rep, lost)
        if rc: return dict(ok=False, why='extraction failed: ' + err[-600:], **info)
        r = json.load(open(rep))
        res = vlib.verus(gen, ['--rlimit', '80'], timeout=left)
        if res['rc'] is None: return dict(ok=False, why='the verifier did not finish in time', report=r, lost=lost, **info)
        cl = vlib.classify(gen, res)
        bad = {k: [e for e in es if not is_verification(e)] for k, es in cl.items()}
        bad = {k: v for k, v in bad.items() if v}
        vr = res['summary'].get('verification-results', {})
        if not bad and 'verified' not in vr: bad = {k: es for k, es in cl.items()}
        if not bad and 'verified' not in vr and not cl: return dict(ok=False, why='the verifier gave no result: ' + res['stderr'][-600:], report=r, lost=lost, **info)
        if not bad and 'verified' in vr:
            return dict(ok=True, res=res, errors=cl, report=r, lost=lost, verified=vr.get('verified', 0), nerr=vr.get('errors', 0), gen=gen, **info)
        known = {f['key'] for f in r['functions']}
        new = set()
        for k, es in bad.items():
            lib = k.split('::')[0]
            if lib in LEAF and 'lib ' + lib not in lost: new.add('lib ' + lib); continue
            if k in known and k not in lost: new.add(k)
            elif k.startswith('type ') and k not in lost:
                new.add(k); new |= {f for f in known if f.startswith(k[5:] + '::')}
            elif k.startswith('struct '):
                new |= {f for f in known if f.startswith(k[7:] + '::')} - lost
        log.append('front end rejects: ' + '; '.join('%s: %s' % (k, es[0]['msg'][:160]) for k, es in bad.items())[:1500])
        if not new: return dict(ok=False, why='the verifier\'s front end rejects the extracted text: ' + log[-1], report=r, lost=lost, **info)
        lost |= new
    return dict(ok=False, why='too many functions outside the verifier\'s reach', report=r, lost=lost, **info)

def probe(work, lost, cov=None):
    """vacuity guard: with a false assertion at the end of every function, each of them must fail
    (cov: only the modules with functions this regular expression finds)"""
    d = os.path.join(work, 'probe'); os.makedirs(d, exist_ok=True)
    gen, rep = os.path.join(d, 'gen.rs'), os.path.join(d, 'rep.json')
    env = os.environ.get('EXTRACT_PROBE'); os.environ['EXTRACT_PROBE'] = '1'
    try: rc, err = vlib.extract(SRC, gen, rep, lost)
    finally:
        if env is None: del os.environ['EXTRACT_PROBE']
    if rc: return None
    r = json.load(open(rep))
    text = open(gen).read().split('\n')
    mods, cur = [], None
    for n, l in enumerate(text, 1):
        m = re.match(r'pub mod (\w+) \{', l)
        if m: cur = m.group(1)
        for f in r['functions']:
            if f['start'] == n: f['module'] = cur
    if cov: r['functions'] = [f for f in r['functions'] if re.search(cov, f['key'])]
    mods = sorted({f['module'] for f in r['functions'] if f.get('module')})
    if not mods: return dict(probed=0, unreachable=[])
    res = vlib.verus(gen, ['--rlimit', '10'] + [a for m in mods for a in ('--verify-module', m)], timeout=max(20, 800 - (time.time() - T0)))
    cl = vlib.classify(gen, res)
    want = [f for f in r['functions'] if f['status'] == 'verified' and any('vacuity probe' in l for l in text[f['start'] - 1:f['end']])]
    if not res['summary'].get('verification-results', {}).get('errors'): return None
    want = [f for f in want if 'false,' not in text[f['start']:f['end']][0:14] and not any(l.strip() == 'false,' for l in text[f['start'] - 1:f['end']])]
    dead = [f['key'] for f in want if f['key'] not in cl]
    return dict(probed=len(want), unreachable=dead)

def run_replay(prop, tier, seed, secs, hints, out, grace=240, exe=None):
    try:
        p = subprocess.run([exe or driver(prop), 'search', prop, str(seed), tier, str(secs)] + [str(h) for h in hints], capture_output=True, text=True, timeout=secs + grace)
        out['rc'], out['text'] = p.returncode, p.stdout
        if prop == 'C19' and p.returncode not in (0, 1):
            # the process died in the last case begun
            last = [l[4:] for l in p.stdout.split('\n') if l.startswith('RUN ')][-1:]
            q = subprocess.run([THR, 'case', last[0]], capture_output=True, text=True, timeout=secs + 240) if last else None
            if q is not None and q.returncode not in (0, 1): out['rc'], out['text'] = 1, 'FAIL %s :: the process is aborted (status %s)' % (last[0], q.returncode)
    except Exception as e:
        out['rc'], out['text'] = None, str(e)

def run_lean(out):
    """the axioms of contracts/math.rs, each restated and proved over Mathlib in lean/Axioms.lean"""
    want = set(re.findall(r'axiom fn (\w+)', open(os.path.join(VERIF, 'contracts', 'math.rs')).read()))
    f = os.path.join(VERIF, 'lean', 'Axioms.lean')
    have = set(re.findall(r'^theorem (\w+)', open(f).read(), re.M))
    try: p = subprocess.run(['lean', f], capture_output=True, text=True, timeout=300)
    except Exception as e: out['lean'] = 'not run: %s' % e; return
    t = p.stdout + p.stderr
    ok = p.returncode == 0 and 'sorry' not in t and 'error' not in t
    out['lean'] = dict(accepted=ok, axioms=sorted(want), proved=sorted(want & have) if ok else [], not_proved=sorted(want - have) if ok else sorted(want), output=t[-300:])

def shipped(prop):
    """properties about checks: also searched in a build without debug assertions and overflow checks"""
    return prop in ('C08', 'C12')

def build(out, prop):
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(VERIF, 'tools', 'extract'), capture_output=True, text=True)
    out['extract'] = (r.returncode, r.stderr[-1500:])
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--bin', os.path.basename(driver(prop))], cwd=os.path.join(VERIF, 'replay'), capture_output=True, text=True)
    out['replay'] = (r.returncode, r.stderr[-1500:])
    if shipped(prop):
        r = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--profile', 'nodbg', '--bin', 'replay'], cwd=os.path.join(VERIF, 'replay'), capture_output=True, text=True)
        out['shipped'] = r.returncode == 0
    if prop == 'C19' and r.returncode:
        # a program that shares every kind of object between threads no longer compiles
        m = re.search(r'error\[E0277\]: (.*cannot be (?:shared|sent) between threads safely)', r.stderr)
        if m: out['notshared'] = m.group(1)

def hints_of():
    """integer literals of the current source: lengths near them are tried"""
    s = set()
    for f in glob.glob(SRC + '/**/*.rs', recursive=True):
        t = open(f, errors='replace').read().split('#[cfg(test)]')[0]
        t = re.sub(r'//.*', '', t)
        for m in re.finditer(r'\b(\d[\d_]*|0x[0-9a-fA-F_]+)(?:usize|u32|u64|i32|i64)?\b', t):
            try: v = int(m.group(1).replace('_', ''), 0)
            except ValueError: continue
            if 5 <= v <= 1 << 20: s.add(v)
        for m in re.finditer(r'1\s*<<\s*(\d+)', t): s.add(1 << min(int(m.group(1)), 20))
    return sorted(s)[:60]

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    # with ghost step counters and the contracts of contracts/cost
    if prop == 'C18': os.environ['EXTRACT_COST'] = '1'
    os.makedirs(OUT, exist_ok=True); os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='verif-')
    log, b = [], {}
    try:
        build(b, prop)
        hints = hints_of()
        rp = {'rc': None, 'text': 'the replay driver does not build against the current tree: ' + b['replay'][1]}
        if 'notshared' in b: rp = {'rc': 1, 'text': 'FAIL t=share :: a program whose threads share one object is rejected by the compiler: ' + b['notshared']}
        th = th2 = None
        rp2 = {'rc': 0, 'text': ''}
        if b['replay'][0] == 0:
            th = threading.Thread(target=run_replay, args=(prop, tier, seed, 60 if tier == 'quick' else 300, hints, rp)); th.start()
        if b.get('shipped'):
            th2 = threading.Thread(target=run_replay, args=(prop, tier, seed, 60 if tier == 'quick' else 300, hints, rp2, 240, SHIPPED)); th2.start()
        if tier == 'thorough': run_lean(b)
        if b['extract'][0] == 0:
            try: pv = prove(work, log)
            except Exception as e: pv = dict(ok=False, why='the proof driver failed: %r' % e)
        else: pv = dict(ok=False, why='the extractor does not build: ' + b['extract'][1])
        try: pb = probe(work, pv['lost'], coverage(prop) if tier == 'quick' else None) if pv['ok'] and (tier != 'quick' or time.time() - t0 < 500) else None
        except Exception as e: pb = None
        if th: th.join()
        if th2: th2.join()
        finish(prop, tier, seed, t0, pv, pb, rp, rp2, log, hints, work, b.get('lean'))
    finally:
        shutil.rmtree(work, ignore_errors=True)

def finish(prop, tier, seed, t0, pv, pb, rp, rp2, log, hints, work, lean):
    cov = re.compile(coverage(prop))
    report = (pv.get('report') or {}).get('functions', [])
    byk = {f['key']: f for f in report}
    short = {}
    for f in report: short.setdefault(re.split(r'::|\.', f['key'])[-1], []).append(f['key'])
    def callees(k):
        r = set()
        for c in byk.get(k, {}).get('calls', []):
            n = c.lstrip('.').split('::')[-1]
            # a plain call resolves to a free or inherent function, a method call to any method
            for x in short.get(n, []): r.add(x)
        return r
    ctypes = set()
    for f in glob.glob(os.path.join(VERIF, 'contracts', '*.vc')): ctypes |= set(re.findall(r'^@@ type (\w+)', open(f).read(), re.M))
    uncontracted = {f['key'] for f in report if not f['contracted'] and f['kind'] != 'impl'}
    def reach(k):
        seen, todo = set(), [k]
        while todo:
            x = todo.pop()
            for y in callees(x):
                if y not in seen: seen.add(y); todo.append(y)
        return seen
    lost = {f['key']: f['reason'] for f in report if f['status'] == 'lost'}
    for l in pv.get('lost', ()):
        if l.startswith('lib '): lost[l] = 'client programs rejected by the front end'
    errors, undecided, own = pv.get('errors', {}) if pv['ok'] else {}, {}, []
    closure = {}
    def used_by(h):
        ps = set()
        for p, r in FAM.items():
            for f in report:
                if re.match(r, f['key']):
                    if f['key'] not in closure: closure[f['key']] = callees(f['key'])
                    if h in closure[f['key']]: ps.add(p); break
        return ps
    for k, es in errors.items():
        if k not in byk:
            undecided[k] = 'proof library: ' + es[0]['msg']; continue
        ty = k.split('::')[0]
        if byk[k]['kind'] == 'impl' and ty not in ctypes: undecided[k] = 'type without a contract'; continue
        if k in uncontracted: undecided[k] = 'new function without a contract'; continue
        nc = callees(k) & uncontracted
        if nc: undecided[k] = 'calls functions without a contract: ' + ', '.join(sorted(nc)); continue
        lc = [e for e in es if 'rlimit' in e['msg'] or 'Resource limit' in e['msg']]
        if len(lc) == len(es): undecided[k] = 'solver resource limit'; continue
        for e in es:
            if e in lc: continue
            if prop in owners(k, e, used_by): own.append((k, e))
    mine = [f['key'] for f in report if cov.search(f['key']) and f['status'] != 'trusted']
    relevant_lost = {k: v for k, v in {**lost, **undecided}.items() if cov.search(k) or (k not in byk and not k.startswith('lib ')) or (k == 'lib l_threads' and prop == 'C19') or (k == 'lib l_client' and prop in ('C14', 'C15', 'C16'))}
    def failing(o): return [l[5:] for l in o['text'].split('\n') if l.startswith('FAIL ')] if o['rc'] == 1 else []
    def count(o):
        m = re.search(r'CASES (\d+) of (\d+)', o['text'] or '')
        return int(m.group(1)) if m else 0
    fails, ncases, second = failing(rp), count(rp), None
    only2 = [f for f in failing(rp2) if f not in fails]
    fails += only2; ncases += count(rp2)
    if not fails and rp['rc'] == 0 and (own or relevant_lost or not pv['ok']):
        # something of this property was not proved: a longer search of other data and far more lengths
        second = {'rc': None, 'text': ''}
        left = 780 - (time.time() - t0)
        run_replay(prop, 'deep', seed + 1, (int(max(15, min(150, left))) if tier == 'quick' else 600), hints, second, 60)
        fails = failing(second); ncases += count(second)
    known = []
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf): known = [x for x in json.load(open(kf)).get('known', []) if x['property'] == prop]
    viol = []
    for f in fails:
        case = f.split(' :: ')[0]
        k = [x for x in known if x['case'] == case]
        if k: print('KNOWN-FINDING: property=%s %s' % (prop, f)); continue
        viol.append(f)
    status = 0
    rpath = os.path.join(OUT, prop + '.replay.json')
    if os.path.exists(rpath): os.remove(rpath)
    if viol or own:
        status = 1
        d = dict(property=prop, tier=tier, seed=seed,
                 failing_input=viol[0] if viol else None, other_failing_inputs=viol[1:],
                 replay_cmd=((SHIPPED if viol[0] in only2 else driver(prop)) + " case '" + viol[0].split(' :: ')[0] + "'") if viol else None,
                 failed_obligations=[dict(function=k, message=e['msg'], clause=e['clause'], verifier_output=e['rendered'][:3000]) for k, e in (own or [])][:20],
                 other_failed_obligations=[dict(function=k, message=e['msg'], clause=e['clause']) for k, es in errors.items() for e in es][:40])
        json.dump(d, open(rpath, 'w'), indent=1)
    # what was discharged
    times, nq, smt = [], 0, 0
    if pv['ok']:
        for mm in pv['res']['summary'].get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in mm.get('function-breakdown', []):
                times.append((f['time'], f['function'], f.get('success', True))); smt += f['time']
    failed_fns = [k for k in errors]
    verified_mine = [k for k in mine if byk[k]['status'] == 'verified' and k not in errors] if pv['ok'] else []
    inv = vlib.inventory(pv['gen']) if pv['ok'] else {}
    lem = [t for t in times if re.search(r'::(l_\w+|math|specs|m_\w+::lem_\w+)', t[1])]
    nlem, nlem_ok = len(lem), len([t for t in lem if t[2]])
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=dict(
        obligations=len(mine) + nlem, discharged=len(verified_mine) + nlem_ok,
        obligation_unit='one function (all its postconditions, loop invariants, callee preconditions, bounds and overflow conditions, termination) or one lemma; Verus/Z3 discharges each separately',
        checker_cmd='verus gen.rs --num-threads 8 --rlimit 80 (gen.rs extracted from %s on this run)' % SRC,
        functions_under_contract=verified_mine,
        lemmas_discharged=nlem_ok,
        whole_crate=dict(verified=pv.get('verified', 0), errors=pv.get('nerr', 0)) if pv['ok'] else dict(error=pv.get('why')),
        backend='Verus 0.2026.09.13 with Z3', solver_ms=smt, slowest=[(t[1], t[0]) for t in sorted(times, reverse=True)[:3]],
        not_proved_this_run=relevant_lost, other_undischarged=[k for k in failed_fns if k not in relevant_lost],
        bounded_standin=dict(used=bool(relevant_lost) or not pv['ok'], note='functions in not_proved_this_run are only checked by the replay cases below; never counted as discharged'),
        vacuity=pb,
        axioms_checked_in_lean=lean or 'in the thorough tier only',
        replay=dict(cases=ncases, tier=tier, integer_literals_used_as_length_hints=hints[:20], second_search=None if second is None else 'after obligations that were not discharged: %d cases' % count(second), result=(fails[:3] or 'no failing input') if rp['rc'] in (0, 1) else rp['text'][-400:]),
        trusted_base=['Verus and Z3', 'the extractor tools/extract (what it drops: see DESIGN.md)'] + inv.get('trusted', []),
    ), assumptions=inv.get('assumptions', []) + (['a planned inner FFT of length m does at most 100*m*bits(m) arithmetic operations (rustfft is not verified); filling, copying and allocation are not counted'] if prop == 'C18' else []) + log, wall_s=round(time.time() - t0, 1), violations=len(viol) or len(own))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for l in log: print('note:', l[:300])
    if not pv['ok']: print('note: no proof on this run (%s); bounded stand-in only' % pv['why'][:500])
    for k, v in sorted(relevant_lost.items())[:12]: print('bounded: %s (%s)' % (k, v[:120]))
    if len(relevant_lost) > 12: print('bounded: ... %d in all' % len(relevant_lost))
    if pb and pb['unreachable']: print('note: vacuity probe not refuted in', ', '.join(pb['unreachable'])[:500])
    for k, e in own[:10]: print('failed obligation: %s: %s %s' % (k, e['msg'], e['clause'][:160]))
    print('%s: %d of %d functions and %d lemmas proved; %d replay cases; %.0f s' % (prop, len(verified_mine), len(mine), nlem_ok, ncases, time.time() - t0))
    if viol:
        print('failing input:', viol[0])
        print('VIOLATION property=%s replay=%s' % (prop, rpath))
    elif own:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath))
    sys.stdout.flush()
    global EXIT
    EXIT = status

EXIT = 0
if __name__ == '__main__':
    try: main()
    except Exception as e:
        # no result is not a violation
        import traceback; traceback.print_exc()
        sys.exit(2)
    sys.exit(EXIT)
