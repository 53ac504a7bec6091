# runs the extractor and Verus, maps every diagnostic back to the extracted function it belongs to
import json, os, re, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EXTRACT = os.path.join(HERE, 'extract', 'target', 'debug', 'extract')

def extract(src, out, rep, lost=()):
    p = subprocess.run([EXTRACT, src, os.path.join(VERIF, 'contracts'), out, rep] + sorted(lost), capture_output=True, text=True)
    return p.returncode, p.stderr

def chunks(gen):
    # (start, end, key) of every marked region, 1-based lines
    res, stack, lines = [], [], open(gen).read().split('\n')
    for i, l in enumerate(lines, 1):
        if l.startswith('//@F '): stack.append((i, l[5:].strip()))
        elif l.startswith('//@E') and stack:
            s, k = stack.pop(); res.append((s, i, k))
    return res, lines

def key_at(ch, line):
    best = None
    for s, e, k in ch:
        if s <= line <= e and (best is None or e - s < best[0]): best = (e - s, k)
    return best[1] if best else None

def verus(gen, args=(), timeout=800):
    d = os.path.dirname(gen)
    t = time.time()
    cmd = ['verus', os.path.basename(gen), '--num-threads', '8', '--triggers-mode', 'silent', '--output-json', '--time-expanded',
           '--error-format=json', '--multiple-errors', '5'] + list(args)
    # in a session of its own, so that a solver that ignores its limits is ended with the verifier
    p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return dict(rc=None, diags=[], summary={}, secs=time.time() - t, stderr='timeout')
    diags = []
    rest = []
    for l in err.split('\n'):
        l = l.strip()
        if l.startswith('{'):
            try: diags.append(json.loads(l)); continue
            except Exception: pass
        if l: rest.append(l)
    try: summary = json.loads(out)
    except Exception: summary = {}
    return dict(rc=p.returncode, diags=diags, summary=summary, secs=time.time() - t, stderr='\n'.join(rest)[-4000:])

def all_spans(d):
    r = list(d.get('spans', []))
    for c in d.get('children', []): r += all_spans(c)
    return r

def classify(gen, res):
    # function key -> list of (message, primary line, clause text, rendered)
    ch, lines = chunks(gen)
    out = {}
    for d in res['diags']:
        if d.get('level') != 'error': continue
        if d['message'].startswith('aborting due to'): continue
        sp = d.get('spans', [])
        prim = [s for s in sp if s['is_primary']] or sp
        ks = [key_at(ch, s['line_start']) for s in sp]
        msg = d['message']
        clause, ckey = '', None
        key = None
        if 'postcondition not satisfied' in msg:
            # one span is the clause, another the end of the body: the body names the function
            for s in sp:
                lab = s.get('label') or ''
                if 'failed this postcondition' in lab: clause = lines[s['line_start'] - 1]
                else: key = key_at(ch, s['line_start'])
            if key is None:
                key = ks[0] if ks else None
        else:
            for s in prim:
                if key is None: key = key_at(ch, s['line_start'])
            for s in sp:
                if 'failed precondition' in (s.get('label') or ''):
                    clause = lines[s['line_start'] - 1]
                    ckey = key_at(ch, s['line_start'])
            if not clause and prim and '//#' in lines[prim[0]['line_start'] - 1]: clause = lines[prim[0]['line_start'] - 1]
        out.setdefault(key or '?', []).append(dict(msg=msg, line=prim[0]['line_start'] if prim else 0, clause=clause.strip(), clause_of=ckey, code=d.get('code'), rendered=d.get('rendered', '')))
    return out

def inventory(gen):
    """every assumption in the text handed to the verifier"""
    ch, lines = chunks(gen)
    trusted, assume = [], []
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('//'): continue
        if 'external_body' in s or 'axiom fn' in s or 'uninterp spec fn' in s or 'assume_specification' in s or 'external_type_specification' in s:
            nxt = ' '.join(lines[i:i + 3])
            n = re.search(r'(?:fn|struct|trait)\s+(\w+)', nxt)
            what = 'axiom' if 'axiom' in s else 'unspecified' if 'uninterp' in s else 'trusted (external_body)' if 'external_body' in s else 'assumed specification'
            trusted.append('%s: %s [%s]' % (what, n.group(1) if n else s[:60], key_at(ch, i + 1) or ''))
        if re.search(r'\bassume\s*\(|\badmit\s*\(', s): assume.append('assume at generated line %d: %s' % (i + 1, s[:120]))
    return dict(trusted=sorted(set(trusted)), assumptions=assume + [
        'machine floating point is read as exact real arithmetic (type R, operations specified over real)',
        'the inner FFT obeys its contract (unnormalised forward DFT, scratch bound); rustfft itself is not verified',
        'transform lengths are at most max_len() and inner FFT scratch at most fft_max(), see DESIGN.md'])
