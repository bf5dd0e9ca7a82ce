#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current sources by static analysis (see DESIGN.md).
Exit 0: no violation. Exit 1: violations, one VIOLATION line each. Anything else: the check itself could not run."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
import build
V = build.V


def table():
    """property -> specification file, read off the entry points the specifications define"""
    t = {}
    for f in sorted(glob.glob(V + '/specs/*.cpp')):
        for p in re.findall(r'extern "C" void ([A-Z]\d{2,3})_\w+\(\)', open(f).read()):
            t.setdefault(p, set()).add(os.path.basename(f)[:-4])
    return t


def rel(s):
    s = s.replace(build.REPO + '/', '').replace(V + '/', '')
    return re.sub(r'[^/ ]+/\.\./', '', s)


def merge(d):
    m = dict(entries=0, instructions=0, forks=0, call_sites=0, cases=0, functions=set(), unmodelled=set(), obligations=[])
    for f in glob.glob(d + '/*.json'):
        j = json.load(open(f))
        for k in ('instructions', 'forks', 'call_sites'):
            m[k] += j[k]
        if f.endswith('root.json'):
            m['entries'] = j['entries']
        else:
            m['cases'] += 1
        m['functions'] |= set(j['functions'])
        m['unmodelled'] |= set(j['unmodelled'])
        m['obligations'] += j['obligations']
    return m


def analyse(prop, spec, tier):
    cmai, bc = build.engine(), build.spec(spec)
    out = tempfile.mkdtemp(dir=build.B)
    try:
        opt = ['--jobs', '8', '--case-mem', '2500', '--case-time', '40'] if tier == 'quick' else ['--jobs', '6', '--case-mem', '4500', '--case-time', '300']
        cmd = [cmai, bc, '--entries', prop + '_', '--out', out, '--repo', build.REPO + '/'] + opt
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=780 if tier == 'quick' else 3400, start_new_session=True)
        except subprocess.TimeoutExpired:
            raise build.BuildError('analysis ran out of time')
        if p.returncode:
            raise build.BuildError('analyser ended with %d: %s' % (p.returncode, p.stdout[-2000:]))
        return merge(out)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def known(prop):
    f = V + '/known_findings.json'
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))['findings'] if k['property'] == prop and k['status'] == 'known']


def matches(k, o):
    return o['entry'] == k['entry'] and o['what'] == k['what'] and o['case'] in k['cases'] and o['kind'] == k.get('kind', o['kind'])


def main():
    prop = sys.argv[1]
    tier = 'thorough' if 'thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    specs = table().get(prop)
    if not specs:
        print('no specification defines', prop)
        return 2
    ms = []
    for s in sorted(specs):
        ms.append((s, analyse(prop, s, tier)))
    obs = [dict(o, spec=s) for s, m in ms for o in m['obligations']]
    if not obs:
        print('no obligation was generated for', prop)
        return 2
    bad = [o for o in obs if o['verdict'] == 0]
    und = [o for o in obs if o['verdict'] not in (0, 1)]
    ks = known(prop)
    hit, new = {}, []
    for o in bad:
        k = next((i for i, k in enumerate(ks) if matches(k, o)), None)
        if k is None:
            new.append(o)
        else:
            hit.setdefault(k, []).append(o)
    for i, os_ in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, ks[i]['description']))
    groups = {}
    for o in new:
        groups.setdefault((o['entry'], o['what'], o['kind'], rel(o['loc'])), []).append(o)
    rep = os.path.join(V, 'evidence', 'replay')
    os.makedirs(rep, exist_ok=True)
    for f in glob.glob('%s/%s-*.json' % (rep, prop)):
        os.unlink(f)
    for n, (g, os_) in enumerate(sorted(groups.items())):
        path = '%s/%s-%d.json' % (rep, prop, n)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, entry=g[0], obligation=g[1], rule=g[2], construct=g[3], first=os_[0]['why'],
                           cases=[dict(case=o['case'], why=o['why'], stated_at=rel(o['hloc'])) for o in os_],
                           replay='python3 %s/check.py %s' % (V, prop)), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s [%s]\n  in %s\n  e.g. %s: %s%s' % (g[0], g[1], g[2], g[3] or '(result)', os_[0]['case'], os_[0]['why'], ' (and %d more cases)' % (len(os_) - 1) if len(os_) > 1 else ''))
    fns = set().union(*[m['functions'] for _, m in ms])
    lib = sorted(f for f in fns if f.startswith(('color_space::', 'color_manipulation::', 'matrix<', 'predefined', 'matrix')))
    rules = {}
    for o in obs:
        r = rules.setdefault(o['what'], [0, 0])
        r[0] += 1
        r[1] += o['verdict'] == 1
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', violations=len(groups), wall_s=round(time.time() - t0, 2),
              coverage=dict(
                  explanation='Abstract interpretation of the LLVM IR of /repo\'s current sources: each case feeds the library free symbols for its inputs, every path through the listed functions is '
                              'covered by joins or splits, and each obligation is a relation between the resulting symbolic values that is discharged by interval, linear and rewriting arguments. '
                              'Nothing is executed and no solver is used. "undecided" obligations are neither proved nor reported.',
                  obligations=len(obs), discharged=sum(o['verdict'] == 1 for o in obs), undecided=len(und), refuted=len(bad), cases=sum(m['cases'] for _, m in ms),
                  entries=sum(m['entries'] for _, m in ms), instructions_interpreted=sum(m['instructions'] for _, m in ms), path_splits=sum(m['forks'] for _, m in ms),
                  call_sites=sum(m['call_sites'] for _, m in ms), library_functions=len(lib), library_function_names=[rel(f) for f in lib][:400],
                  rules={k: dict(obligations=v[0], discharged=v[1]) for k, v in sorted(rules.items())},
                  undecided_samples=[dict(case=o['case'], what=o['what'], why=o['why']) for o in und[:20]],
                  unmodelled=sorted(set().union(*[m['unmodelled'] for _, m in ms])),
                  known_findings=[ks[i]['description'] for i in sorted(hit)], samples=[dict(case=o['case'], what=o['what'], verdict=o['verdict'], why=o['why'][:200]) for o in obs[:: max(1, len(obs) // 5)]][:5]),
              assumptions=['real arithmetic up to the tolerance stated with each obligation; float rounding is not analysed', 'the LLVM IR clang 18 emits at -O0 for the Linux build is faithful to the source',
                           'operator new does not fail; the C++ standard library behaves as its headers and the analyser\'s models of libm, allocation and exceptions say'])
    with open('%s/evidence/%s.json' % (V, prop), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d refuted (%d known) in %.1fs' % (prop, len(obs), ev['coverage']['discharged'], len(und), len(bad), len(bad) - len(new), time.time() - t0))
    return 1 if groups else 0


if __name__ == '__main__':
    try:
        os.makedirs(build.B, exist_ok=True)
        with build.Lock():
            pass
        sys.exit(main())
    except build.BuildError as e:
        print('check could not run:', e)
        sys.exit(2)
