"""Builds simulator binaries from /repo's working tree."""
import os, subprocess, glob, json, hashlib, concurrent.futures as cf
import gen, memgen, cbgen
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('DPM_REPO', '/repo')
def BASE(c, opt='-O2'):
    return ['-std=c++20', opt, *gen.flags(c)[0], '-w', '-DNDEBUG', '-DDPM_INLINE_EXTENSIONS', '-DDPM_HANDLE_ERRORS', '-DDPM_PROPAGATE_NAN',
            '-DDPM_STATIC_DEFINE', *gen.flags(c)[1], '-I' + REPO, '-I' + HERE + '/core', '-idirafter', HERE + '/include']
def make_pch(c, d, opt='-O2', extra=()):
    h = f'{d}/pch_{c}.hpp'; open(h, 'w').write('#pragma once\n#include "wrap.hpp"\n')
    subprocess.run(['g++', *BASE(c, opt), *extra, '-x', 'c++-header', h, '-o', h + '.gch'], check=True)
    return ['-include', h]
ENGINE = ['world.cpp', 'values.cpp', 'main.cpp', 'profiles.cpp', 'noalt.cpp']
LIBSRC = ['dpm/detail/fconst.cpp', 'dpm/detail/assert.cpp']
def universe():
    return json.load(open(HERE + '/universe.json'))
def items_for(c, ops=None, idx=None, types=None, dense=()):
    """Every (op, lane type, shape) triple of configuration c that compiles on the pinned tree."""
    uni = universe(); r = {}
    for o in gen.OPS:
        if ops is not None and o['name'] not in ops: continue
        bad = set(uni.get(o['name'], {}).get(gen.base(c), ()))
        for t in o['types']:
            if types and t not in types: continue
            for k, s in enumerate(gen.shapes(t)):
                if s[0] in bad or (idx is not None and k not in idx): continue
                r.setdefault(o['name'], []).append((o, t, s))
            if o['name'] in dense: r.setdefault(o['name'], []).extend((o, t, s) for s in gen.tails(t))
    return r
class Build:
    def __init__(self, d, configs, ops=None, idx=None, types=None, opt='-O2', jobs=8, extra=(), engine=ENGINE, mem=None, cb=False, boot=False, config_ops=None, life=False, dense=()):
        self.d, self.configs, self.opt, self.jobs, self.extra, self.engine = d, configs, opt, jobs, list(extra), engine
        self.sel = {c: items_for(c, (config_ops or {}).get(c, ops), idx, types, dense) for c in configs}; self.dropped = []; self.mem, self.idx, self.cb = mem, idx, cb; self.boot = boot; self.life = life; self.dense = dense; self.types = types or gen.ALL
        os.makedirs(d, exist_ok=True)
    def cc(self, cmd, timeout=600):
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        return r.returncode == 0, r.stderr
    def must(self, cmd):
        ok, e = self.cc(cmd)
        if not ok: raise RuntimeError('build failed: ' + ' '.join(cmd[-4:]) + '\n' + e[-3000:])
    def write(self, n, s):
        p = f'{self.d}/{n}'; open(p, 'w').write(s); return p
    def op_chunk(self, c, pch, items, tag):
        p = self.write(f'{c}_{tag}.cpp', gen.ops_unit(items)); o = p[:-4] + '.o'
        ok, e = self.cc(['g++', *BASE(c, self.opt), *self.extra, '-c', *pch, p, '-o', o])
        if ok: return [o]
        if len(items) == 1:
            self.dropped.append((c, items[0][0]['name'], items[0][2][0])); return []
        # something in the tree under test no longer compiles: isolate it and go on with the rest
        groups = {}
        for it in items: groups.setdefault(it[0]['name'], []).append(it)
        if len(groups) == 1: parts = [items[:len(items) // 2], items[len(items) // 2:]]
        else: parts = list(groups.values())
        return [x for k, pt in enumerate(parts) for x in self.op_chunk(c, pch, pt, f'{tag}_{k}')]
    def mem_chunk(self, c, pch, items, tag, unit=memgen.unit):
        p = self.write(f'{c}_{tag}.cpp', unit(items)); o = p[:-4] + '.o'
        ok, e = self.cc(['g++', *BASE(c, self.opt), *self.extra, '-c', *pch, p, '-o', o])
        if ok: return [o]
        if len(items) == 1: self.dropped.append((c, '.'.join(items[0][2:]), items[0][1][0])); return []
        for k in (5, 3, 1, 4, 2) if len(items[0]) > 3 else (2, 1):
            g = {}
            for it in items: g.setdefault(it[k], []).append(it)
            if len(g) > 1: break
        return [x for n, pt in enumerate(g.values()) for x in self.mem_chunk(c, pch, pt, f'{tag}_{n}', unit)]
    def run(self):
        d = self.d
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            pchs = dict(zip(self.configs, ex.map(lambda c: make_pch(c, d, self.opt, self.extra), self.configs)))
            host = ['g++', '-std=c++20', '-O2', '-w', '-I' + HERE + '/core']
            self.write('meta.cpp', gen.ops_meta())
            for t in self.types: self.write(f'ref_{t}.cpp', gen.ref_unit(t))
            fut, objs = [], {c: [] for c in self.configs}
            # heaviest first
            work = []
            for c in self.configs:
                chunk, n = [], 0; k = 0
                for name, its in self.sel[c].items():
                    w = len(its) * WEIGHT.get(name, 1)
                    if chunk and n + w > 700: work.append((n, c, chunk, f'u{k}')); chunk, n, k = [], 0, k + 1
                    chunk = chunk + its; n += w
                if chunk: work.append((n, c, chunk, f'u{k}'))
            work.sort(key=lambda x: -x[0])
            fs = [(c, ex.submit(self.op_chunk, c, pchs[c], ch, tag)) for _, c, ch, tag in work]
            for c in self.configs:
                p = self.write(f'{c}_shapes.cpp', gen.shapes_unit(self.types, bool(self.dense)))
                self.write(f'{c}_cfg.cpp', f'extern const char *const sim_config; const char *const sim_config = "{c}";')
                fut.append(ex.submit(self.must, ['g++', *BASE(c, '-O1'), '-c', p, '-o', p[:-4] + '.o'])); objs[c].append(p[:-4] + '.o')
                fut.append(ex.submit(self.must, [*host, '-c', f'{d}/{c}_cfg.cpp', '-o', f'{d}/{c}_cfg.o'])); objs[c].append(f'{d}/{c}_cfg.o')
                for s in LIBSRC + sorted(os.path.relpath(x, REPO) for x in glob.glob(REPO + '/dpm/detail/x86/*.cpp')):
                    o = f'{d}/{c}_lib_' + s.replace('/', '_')[:-4] + '.o'; objs[c].append(o)
                    fut.append(ex.submit(self.must, ['g++', *BASE(c, self.opt), *self.extra, '-c', f'{REPO}/{s}', '-o', o]))
            if self.boot:
                for c in self.configs: fut.append(ex.submit(self.must, ['g++', *BASE(c, self.opt), '-c', f'{HERE}/core/bootfeat.cpp', '-o', f'{d}/{c}_bootfeat.o'])); objs[c].append(f'{d}/{c}_bootfeat.o')
            if self.mem is not None:
                for c in self.configs:
                    for t in self.types: fs.append((c, ex.submit(self.mem_chunk, c, pchs[c], memgen.items([t], self.mem, self.idx), f'mem_{t}')))
            if self.cb:
                for c in self.configs:
                    for t in self.types: fs.append((c, ex.submit(self.mem_chunk, c, pchs[c], cbgen.items([t], self.idx), f'cb_{t}', cbgen.unit)))
            eng = []
            for s in [f'{HERE}/core/{x}' for x in self.engine] + [f'{d}/meta.cpp'] + [f'{d}/ref_{t}.cpp' for t in self.types]:
                o = f'{d}/eng_' + os.path.basename(s)[:-4] + '.o'; eng.append(o)
                fut.append(ex.submit(self.must, [*host, *(['-fwrapv', '-frounding-math', '-O1'] if 'ref_' in s else []), '-c', s, '-o', o]))
            for f in fut: f.result()
            for c, f in fs: objs[c] += f.result()
            if self.boot or self.life:
                # the simulator, not the C runtime, decides when (and in which machine) the library's start-up code runs
                for c in self.configs:
                    for o in objs[c]:
                        if '_lib_' not in o and not (self.life and '_u' in os.path.basename(o)): continue
                        secs = {l.split()[1] for l in subprocess.run(['objdump', '-h', o], capture_output=True, text=True).stdout.splitlines() if len(l.split()) > 1 and l.split()[1].startswith(('.init_array', '.fini_array')) and not l.split()[1].endswith('.00300')}
                        if secs: self.must(['objcopy', *[x for s in secs for x in ('--rename-section', f'{s}=dpm_{s[1:5]},alloc,load,readonly,data,contents')], o])
            def link(c):
                self.must(['g++', '-static', '-no-pie', *objs[c], *eng, *(['-Wl,--wrap=__cxa_atexit', '-Wl,--wrap=atexit'] if self.life else []), '-o', f'{d}/sim_{c}', '-lpthread']); return f'{d}/sim_{c}'
            return dict(zip(self.configs, ex.map(link, self.configs)))
WEIGHT = {}
if __name__ == '__main__':
    import sys, time
    t = time.time(); b = Build(sys.argv[1], sys.argv[2].split(','), ops=sys.argv[3].split(',') if len(sys.argv) > 3 else None); print(b.run(), b.dropped[:10], time.time() - t)
