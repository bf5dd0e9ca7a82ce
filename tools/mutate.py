#!/usr/bin/env python3
"""Development aid: CM_REPO=scratch CM_VP=its-build-scripts python3 tools/mutate.py FILE N SEED PROP...
samples small changes of one library file; those that build and pass the stable tests are given to the checks; prints which checks notice."""
import json, os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, VP = os.environ['CM_REPO'], os.environ['CM_VP']
assert R != '/repo'
f, n, seed, props = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
path = R + '/ColorMagic/' + f
src = open(path, encoding='latin-1', newline='').read()
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
lines = src.split('\n')


def code(l):
    s = l.strip()
    return s and not s.startswith(('//', '*', '/*', '#', 'namespace', 'public:', 'case ')) and not re.match(r'^\w+:$', s)


SWAP = {'red': 'green', 'green': 'blue', 'blue': 'red', 'hue': 'saturation', 'saturation': 'hue', 'lightness': 'saturation', 'value': 'saturation', 'luma': 'chroma', 'chroma': 'luma', 'x': 'y', 'y': 'z', 'z': 'x', 'a': 'b', 'b': 'a', 'u': 'v', 'v': 'u',
        'color1': 'color2', 'color2': 'color1', 'weight1': 'weight2', 'weight2': 'weight1', 'source': 'destination', 'destination': 'source', 'cyan': 'magenta', 'magenta': 'yellow', 'yellow': 'black', 'black': 'cyan', 'min': 'max', 'max': 'min', 'fminf': 'fmaxf', 'fmaxf': 'fminf',
        'sinf': 'cosf', 'cosf': 'sinf', 'alpha': None, 'lhs': 'rhs', 'rhs': 'lhs', 'm_rows': 'm_columns', 'm_columns': 'm_rows', 'rows': 'columns', 'columns': 'rows', 'i': 'j', 'j': 'i', 's': 'd', 'd': 's', 'true': 'false', 'false': 'true'}
cands = []
incom = False
for k, l in enumerate(lines):
    if '/*' in l:
        incom = True
    if incom or not code(l):
        if '*/' in l:
            incom = False
        continue
    c = l.split('//')[0]
    def put(i, j, t):
        if l[:i].count('"') % 2: return
        cands.append((k, l[:i] + t + l[j:]))
    for m in re.finditer(r'(?<![\w.])(\d+\.?\d*)(f?)(?![\w.])', c):
        v = float(m.group(1))
        isint = '.' not in m.group(1)
        t = (str(int(v) + 1) if isint else '%.7g' % (v * 1.07 if v else 0.13))
        if not isint and '.' not in t: t += '.0'
        put(m.start(1), m.end(1), t)
    for m in re.finditer(r' ([-+*/]) ', c):
        put(m.start(1), m.end(1), {'+': '-', '-': '+', '*': '/', '/': '*'}[m.group(1)])
    for m in re.finditer(r' (<=|>=|<|>|==|!=|&&|\|\|) ', c):
        put(m.start(1), m.end(1), {'<=': '>', '>=': '<', '<': '>=', '>': '<=', '==': '!=', '!=': '==', '&&': '||', '||': '&&'}[m.group(1)])
    for m in re.finditer(r'\b[A-Za-z_]\w*\b', c):
        if SWAP.get(m.group(0)):
            put(m.start(), m.end(), SWAP[m.group(0)])
    if c.rstrip('\r').rstrip().endswith(';') and '=' in c and not re.match(r'^\s*(auto|float|int|const|double|static|return|using|bool|std|color_space|T|virtual)\b', c) or re.match(r'^\s*(\w+->\w+\(|throw|if .*throw|\w+\.push_back)', c):
        cands.append((k, re.match(r'^\s*', l).group(0) + ';'))
random.Random(seed).shuffle(cands)


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


stat = dict(nobuild=0, tests=0, caught=0, survived=0)
done = 0
try:
    for k, t in cands:
        if done >= n:
            break
        new = lines[:]
        new[k] = t
        open(path, 'w', encoding='latin-1', newline='').write('\n'.join(new))
        p = sh('timeout 300 bash %s/build.sh' % VP)
        if p.returncode:
            stat['nobuild'] += 1
            continue
        sh('timeout 100 bash %s/test.sh %s/t.json' % (VP, VP))
        if base - set(json.load(open('%s/t.json' % VP))['passed']):
            stat['tests'] += 1
            continue
        done += 1
        hit = None
        for q in props:
            p = sh('python3 %s/check.py %s' % (V, q), cwd=V)
            if p.returncode == 1:
                hit = q
                break
            if p.returncode != 0:
                print('   check %s ended with %d: %s' % (q, p.returncode, p.stdout[-300:]))
        stat['caught' if hit else 'survived'] += 1
        print('%s %s:%d\n   - %s\n   + %s' % (hit or 'SURVIVED', f, k + 1, lines[k].strip(), t.strip()) if not hit or os.environ.get('MUT_ALL') else '%s :%d' % (hit, k + 1), flush=True)
finally:
    open(path, 'w', encoding='latin-1', newline='').write(src)
print(f, stat, len(cands), 'candidates')
