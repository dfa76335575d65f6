"""Development tool: finds which (config, op, type, shape) wrappers compile; writes universe.json (committed)."""
import os, sys, json, subprocess, concurrent.futures as cf, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
from buildlib import BASE, HERE, make_pch
def main(only=None, configs=None):
    configs = configs or list(gen.CONFIGS)
    d = tempfile.mkdtemp(prefix='dpmprobe'); uni_p = HERE + '/universe.json'
    uni = json.load(open(uni_p)) if os.path.exists(uni_p) else {}
    pch = {c: make_pch(c, d) for c in configs}
    def ok(c, items, tag):
        p = f'{d}/{tag}.cpp'; open(p, 'w').write(gen.ops_unit(items))
        r = subprocess.run(['g++', *BASE(c), '-fsyntax-only', *pch[c], p], capture_output=True, text=True)
        if r.returncode:
            e = [l for l in r.stderr.splitlines() if 'error:' in l]
            return False, (e[0][-150:] if e else r.stderr[-150:])
        return True, ''
    def one(c, o):
        bad = {}
        items = [(o, t, s) for t in o['types'] for s in gen.shapes(t)]
        if ok(c, items, f'{c}_{o["name"]}')[0]: return c, o['name'], bad
        for t in o['types']:
            if ok(c, [(o, t, s) for s in gen.shapes(t)], f'{c}_{o["name"]}_{t}')[0]: continue
            for s in gen.shapes(t):
                r, e = ok(c, [(o, t, s)], f'{c}_{o["name"]}_{s[0]}')
                if not r: bad[s[0]] = e
        return c, o['name'], bad
    sel = [o for o in gen.OPS if not only or o['name'] in only]
    with cf.ThreadPoolExecutor(8) as ex:
        for c, n, bad in ex.map(lambda x: one(*x), [(c, o) for o in sel for c in configs]):
            uni.setdefault(n, {})[c] = sorted(bad)
            if bad: print(c, n, len(bad), next(iter(bad.values())), flush=True)
            json.dump(uni, open(uni_p, 'w'), indent=0, sort_keys=True)
    subprocess.run(['rm', '-rf', d])
if __name__ == '__main__': main(sys.argv[1:])
