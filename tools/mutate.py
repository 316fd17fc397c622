#!/usr/bin/env python3
"""Mutation testing of the checks themselves: applies small random changes to a scratch copy of /repo and reports the ones no check notices.
usage: mutate.py OUT.jsonl N SEED WORKER [file...]   (files below src; default: all)
Not a check: nothing registered in MANIFEST.json uses it."""
import json, os, random, re, subprocess, sys, time
OUT, N, SEED, W = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
R, B = f'/tmp/mr{W}', f'/tmp/mb{W}'
if not os.path.exists(R):
    subprocess.check_call(['cp', '-a', '/repo', R])
subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
subprocess.check_call(['git', '-C', R, 'fetch', '-q', '/repo', 'HEAD'])
subprocess.check_call(['git', '-C', R, 'reset', '-q', '--hard', 'FETCH_HEAD'])
EXTRA = [('sgp4', ['D04']), ('observer', ['C01', 'S04']), ('wings', ['U01']), ('i2c_controller', ['C07']), ('gpio', ['C07']), ('global_environment', ['E01', 'S03']),
         ('local_environment', ['E04', 'S03']), ('initialize_attitude', ['D01', 'D03', 'S04']), ('initialize_log', ['S04', 'U07']), ('installed_components', ['S04']),
         ('structure/', ['F01', 'F02', 'F03', 'F04', 'F05']), ('igrf', ['E03', 'S03']), ('attitude', ['D03']), ('simulation_case', ['S03', 'S04']), ('sample', [])]
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
have = {p['id'] for p in props if os.path.exists(f"/verif/props/{p['id']}.cpp")}
def checks(f):
    out = []
    for p in props:
        files = p['anchors']['files'] + [m['where'] for m in p['anchors']['mechanism']]
        stem = re.sub(r'\.(cpp|hpp|h|c)$', '', 'src/' + f)
        if any(stem + '.' in a for a in files): out.append(p['id'])
    for p in props:  # same directory
        if any(os.path.dirname('src/' + f) == a.split(' ')[0].rstrip('/') for a in p['anchors']['files'] + [m['where'] for m in p['anchors']['mechanism']]): out.append(p['id'])
    for k, v in EXTRA:
        if k in f: out += v
    seen = []
    for x in out:
        if x in have and x not in seen: seen.append(x)
    return seen
files = sys.argv[5:]
if not files:
    for d, _, fs in os.walk('/repo/src'):
        for f in sorted(fs):
            q = os.path.relpath(os.path.join(d, f), '/repo/src')
            if f.endswith('.cpp') and not f.startswith('test_') and not re.search(r'hils|com_port_interface|with_c2a|examples/|/sample', q): files.append(q)
    files.sort()
rng = random.Random(SEED)
def strip(l):
    l = re.sub(r'//.*', '', l)
    return l
SKIP = re.compile(r'^\s*(#|\*|/\*|//|using |namespace|template|static_assert|assert|\}|\{)|std::cerr|std::cout|cerr|cout|printf|GetLogHeader|WriteScalar\("|WriteVector\("|WriteQuaternion\("')
def mutants(l):
    """all small changes of a line"""
    code = strip(l)
    r = []
    if SKIP.search(code) or not code.strip() or ';' not in code and '(' not in code: return r
    instr = [(m.start(), m.end()) for m in re.finditer(r'"[^"]*"', code)]
    def ok(i): return not any(a <= i < b for a, b in instr)
    def rep(rx, f):
        for m in re.finditer(rx, code):
            if ok(m.start()):
                n = f(m)
                if n is not None: r.append(code[:m.start()] + n + code[m.end():])
    rep(r' \+ ', lambda m: ' - '); rep(r' - ', lambda m: ' + '); rep(r' \* ', lambda m: ' / '); rep(r' / ', lambda m: ' * ')
    rep(r' \+= ', lambda m: ' -= '); rep(r' -= ', lambda m: ' += ')
    rep(r' < ', lambda m: ' <= '); rep(r' > ', lambda m: ' >= '); rep(r' <= ', lambda m: ' < '); rep(r' >= ', lambda m: ' > ')
    rep(r' == ', lambda m: ' != '); rep(r' != ', lambda m: ' == '); rep(r' && ', lambda m: ' || '); rep(r' \|\| ', lambda m: ' && ')
    rep(r'\btrue\b', lambda m: 'false'); rep(r'\bfalse\b', lambda m: 'true')
    rep(r'\bsin\(', lambda m: 'cos('); rep(r'\bcos\(', lambda m: 'sin('); rep(r'\bmin\(', lambda m: 'max('); rep(r'\bmax\(', lambda m: 'min(')
    rep(r'\[0\]', lambda m: '[1]'); rep(r'\[1\]', lambda m: '[2]'); rep(r'\[2\]', lambda m: '[0]')
    rep(r'(?<![\w.\[])(\d+\.\d+(?:[eE][-+]?\d+)?)(?![\w.])', lambda m: '0.5' if float(m.group(1)) == 0 else repr(float(m.group(1)) * 1.02))
    rep(r'(?<![\w.\[])(\d+)(?![\w.\]])', lambda m: str(int(m.group(1)) + 1))
    rep(r'(?<=[=(,] )-(?=\w)|(?<=\()-(?=\w)|(?<=return )-(?=\w)', lambda m: '')
    rep(r'\.Conjugate\(\)', lambda m: ''); rep(r'\.InverseFrameConversion\(', lambda m: '.FrameConversion('); rep(r'(?<!Inverse)FrameConversion\(', lambda m: 'InverseFrameConversion(')
    rep(r'\.Transpose\(\)', lambda m: '')
    rep(r'if \((?!!)([^()]*(?:\([^()]*\)[^()]*)*)\)', lambda m: 'if (!(' + m.group(1) + '))'); rep(r'if \((?!!)([^()]*(?:\([^()]*\)[^()]*)*)\)', lambda m: 'if (false && (' + m.group(1) + '))')
    if re.match(r'^\s*[\w\[\]\.\->()_:]+ ?(=|\+=|-=|\*=|/=) [^;]*;\s*$', code) and not re.match(r'^\s*(const|auto|double|int|unsigned|bool|size_t|std::|static|return)\b', code): r.append('')
    elif re.match(r'^\s*[\w\.\->:]+\([^;]*\);\s*$', code) and 'return' not in code: r.append('')
    return [x for x in r if x != code]
done = 0
out = open(OUT, 'a')
while done < N:
    f = rng.choice(files)
    cs = checks(f)
    if not cs: continue
    path = f'{R}/src/{f}'
    text = open(path, encoding='utf-8', errors='surrogateescape').read().split('\n')
    cand = [(i, m) for i, l in enumerate(text) for m in mutants(l)]
    if not cand: continue
    i, m = rng.choice(cand)
    old = text[i]
    text[i] = m
    open(path, 'w', encoding='utf-8', errors='surrogateescape').write('\n'.join(text))
    t0 = time.time()
    res = 'SURVIVED'; detail = ''
    cs = cs[:6] + [x for x in ('S04', 'S03') if x not in cs[:6]]
    for c in cs:
        env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B, VERIF_FAST='1', VERIF_SEED=str(1 + SEED % 7))
        p = subprocess.run(['./run.sh', c], cwd='/verif', env=env, capture_output=True, text=True, errors='replace')
        if p.returncode == 2:
            res = 'NOBUILD' if 'build failed' in p.stdout else 'ERROR'; detail = p.stdout[-300:] if res == 'ERROR' else ''
            break
        if p.returncode == 1:
            res = 'KILLED'; detail = c + ' ' + ' '.join(x for x in p.stdout.split('\n') if 'FAILED' in x)[:160]
            break
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    if res != 'NOBUILD': done += 1
    out.write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=m.strip(), checks=cs, res=res, detail=detail, s=round(time.time() - t0))) + '\n'); out.flush()
