#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md (between <!-- name --> and <!-- /name -->)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = {
 'P01': ('conv', 'type of the result read back, component count; escaping exceptions, null results and memory faults are violations by themselves'),
 'P02': ('conv', 'alpha of the source term equals alpha of the result term; extra cases at black, grey and white, where the code branches on zero'),
 'P03': ('conv', 'pointer identity of the working space, for two different spaces'),
 'P04': ('conv', 'snapshot of the source and its working space before and after; writes to the result must not reach the source'),
 'P05': ('comps, conv', 'documented bounds per type and component, for arbitrary floats (NaN, infinities) on writes'),
 'P06': ('comps', 'documented opacity range'), 'P07': ('comps', 'documented component order'), 'P08': ('comps', 'snapshot of the original'),
 'P09': ('comps', 'type and component comparison written in the specification'), 'P10': ('comps', 'h - 360 floor(h / 360), clamped to 359 as the types do'),
 'P11': ('comps', 'must throw, for symbolic indices'), 'P12': ('comps', 'shift and mask of the code'),
 'P13': ('calc', 'weighted sum clamped to the range of the type'), 'P14': ('calc', 'w c1 + (1-w) c2'), 'P15': ('calc', 'difference, clamped'), 'P16': ('calc', 'mean of 1 to 6 colours; lists are bounded by that'),
 'P17': ('calc', 'must throw outside 0..1 and must not inside'), 'P18': ('calc', 'the same operation after an explicit conversion of the second operand; snapshots of both'),
 'P19': ('blend', 'Porter and Duff\'s table of source and destination factors'), 'P20': ('blend', 'per-channel functions of the W3C compositing specification as the headers document them, and the region rule'),
 'P21': ('blend', 'hue, saturation and lightness of the result as set out by the mode, in the documented HSL reading of this library'),
 'P22': ('blend', 'must throw for null operands and different working spaces, and must not for any pair of types'), 'P23': ('blend', 'snapshots, type, range'),
 'P24': ('blend', 'the same operation on explicitly converted colours'), 'P25': ('convdef', 'textbook definitions on the colour hexagon, per sextant'),
 'P26': ('convdef', 'CIE definitions (XYZ, xyY, Lab, Luv, LCH), sRGB companding'), 'P27': ('convdef', 'composition of the direct conversions along the graph of types'),
 'P28': ('dist', 'published formulas; CIEDE2000 on lightness differences and hue axes only, see limits'), 'P29': ('dist', 'zero on equal colours, not negative, symmetric where defined so'),
 'P30': ('dist', 'distance of explicitly converted colours'), 'P31': ('adjust', 'snapshot, type, space, opacity'), 'P32': ('adjust', 'documented effect in HSL or HSV, other attributes equal'),
 'P33': ('combo', 'type, space and opacity of the base colour; count'), 'P34': ('combo', 'hue offsets and mode table'), 'P35': ('combo', 'must throw'),
 'P36': ('state', 'the same call analysed again after every writable static of the library was replaced by an arbitrary reachable value or after other calls'),
 'P37': ('gamma', 'order of the parts and their borders'), 'P38': ('gamma', 'published transfer functions and inverse relation'), 'P39': ('space', 'x = X/(X+Y+Z) and back; published illuminants'),
 'P40': ('space', 'Lindbloom\'s construction: columns S_j (x_j/y_j, 1, z_j/y_j), matrix times white; published primaries'), 'P41': ('matrix', 'element formulas'), 'P42': ('matrix', 'cofactor expansion, A adj(A) = det(A) I'),
 'P43': ('matrix', 'must throw'), 'P44': ('adapt', 'snapshot, white of the target, type'), 'P45': ('adapt', 'published matrices (von Kries, Bradford, CMCCAT97 and so on)'),
 'P46': ('names', 'table of X11/CSS names written independently in the specification'), 'P47': ('base', 'component formulas'), 'P49': ('state', 'the same operation on two equal copies; zero distance. CIEDE2000 is left out: for equal colours it gives NaN where the known finding of P28 applies'), 'P48': ('hex', 'grammar of #RRGGBB and #AARRGGBB over symbolic characters; std::string is analysed, std::regex is modelled as an automaton on character terms; lengths 0 to 12'),
}
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
M = json.load(open(V + '/MANIFEST.json'))
K = json.load(open(V + '/known_findings.json'))
na = {x['property']: x['reason'] for x in M['not_applicable']}
out = {}
t = '| id | property | specification | compared with | last run: discharged / obligations |\n|---|---|---|---|---|\n'
for p in P:
    if p['id'] in na:
        continue
    s, o = O.get(p['id'], ('', ''))
    try:
        c = json.load(open(V + '/evidence/%s.json' % p['id']))['coverage']; n = '%d / %d' % (c['discharged'], c['obligations'])
    except Exception:
        n = ''
    t += '| %s | %s | %s | %s | %s |\n' % (p['id'], p['title'], s, o, n)
out['table'] = t
out['na'] = ''.join('* %s: %s\n' % x for x in na.items())
out['fixed'] = ''.join('* %s\n' % x.replace('fixed: property=', '') for x in K['fixed'])
out['known'] = ''.join('* %s, entry %s, case %s: %s\n' % (k['property'], k['entry'], ', '.join(k['cases']), k['description']) for k in K['findings'])
sd = ''
for d in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    sd += '| %s | %s | %s | %s |\n' % (d, m['property'], m.get('what_it_breaks', ''), m.get('needs', ''))
out['seeded'] = '| bug | caught by | breaks | needs |\n|---|---|---|---|\n' + sd
f = V + '/DESIGN.md'
s = open(f).read()
for k, v in out.items():
    s = s.replace('@%s@' % k.upper(), '<!-- %s -->\n<!-- /%s -->' % (k, k))
    s = re.sub('<!-- %s -->.*?<!-- /%s -->' % (k, k), lambda m: '<!-- %s -->\n%s<!-- /%s -->' % (k, v, k), s, flags=re.S)
open(f, 'w').write(s)
