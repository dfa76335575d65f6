"""Which operations, shapes, configurations and how many simulated runs each property's check uses."""
from ops import OPS
ALLC = ['sse2', 'sse42', 'avx', 'avx2']
try: HOST = set(next(l for l in open('/proc/cpuinfo') if l.startswith('flags')).split())
except (OSError, StopIteration): HOST = set()
# built in the thorough tier, and only where the host can execute it
DEEP = ['avx512'] if {'avx512f', 'avx512cd', 'avx512vl', 'avx512bw', 'avx512dq'} <= HOST else []
DEEP_QUICK = set()
NAMES = [o['name'] for o in OPS]
ELEM = ['exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh',
        'erf', 'erfc', 'tgamma', 'lgamma', 'hypot', 'pow', 'pows', 'atan2', 'sincos']
ROUND = ['ceil', 'floor', 'trunc', 'round', 'rint', 'nearbyint', 'lround', 'lrint', 'llround', 'llrint', 'itrunc_i32', 'iround_i32', 'irint_i32', 'itrunc_i64', 'iround_i64', 'irint_i64', 'ltrunc', 'lltrunc']
MANIP = ['frexp', 'modf', 'ldexp', 'scalbn', 'ldexps', 'scalbns', 'scalbln', 'ilogb', 'logb', 'nextafter', 'copysign', 'fmod', 'remainder', 'fdim', 'fdims', 'fma', 'fmadd', 'fmsub', 'fnmadd',
         'fnmsub', 'sqrt', 'cbrt', 'rcp', 'rsqrt', 'abs', 'fabs', 'fmax', 'fmin', 'isfinite', 'isinf', 'isnan', 'isnormal', 'signbit', 'isgreater', 'isgreaterequal',
         'isless', 'islessequal', 'islessgreater', 'isunordered', 'fpclassify', 'fmods', 'remainders', 'copysigns', 'lerp', 'fmaxs', 'fmins', 'lerps', 'remquo', 'frexpr', 'modfr', 'scalblns', 'nanv']
MASK = ['blendm', 'mand', 'mor', 'mxor', 'mnot', 'mlnot', 'mland', 'mlor', 'meq', 'mne', 'all_of', 'any_of', 'none_of', 'some_of', 'count', 'minidx', 'maxidx', 'mandeq', 'moreq', 'mxoreq', 'msetel', 'mrev',
        'mviapk', 'mviafs', 'mvia_i8', 'mvia_i16', 'mvia_i32', 'mvia_f64',
        'mnatd', 'mvianat', 'mshmix', 'mshb0', 'mshbl', 'mshswap', 'mshfar', 'mshpick', 'mshgrow', 'mrefand', 'mrefor', 'mrefxor', 'mrefcpy', 'mrefswap']
REDUCE = ['hadd', 'hmul', 'hand', 'hor', 'hxor', 'hcust', 'hfadd', 'hfmul', 'hcustf', 'hmin', 'hmax', 'xhadd', 'xhmul', 'xhand', 'xhor', 'xhxor', 'xhfadd', 'xhfmul']
MOVE = [n for n in NAMES if n.startswith(('cast_', 'conv_', 'scast_', 'ecast_'))] + ['bcast', 'gen', 'setel', 'rev', 'rot', 'viapk', 'viafs', 'natd', 'vianat', 'viacom', 'shmix', 'shb0', 'shbl', 'shswap', 'shfar', 'shpick', 'shgrow']
PROMO = [n for n in NAMES if n.startswith(('p_', 'w_', 'x_', 'ws_'))]
CORE = [n for n in NAMES if n not in PROMO]
LANE = [n for n in NAMES if n not in ELEM + ROUND + MANIP + MASK + REDUCE + MOVE + PROMO]
assert all(n in NAMES for n in ELEM + ROUND + MANIP + MASK + REDUCE + MOVE), [n for n in ELEM + ROUND + MANIP + MASK + REDUCE + MOVE if n not in NAMES]
import buildlib, subprocess
class Main:
    """A property decided in the register machine world (world.cpp)."""
    alt = 'noalt.cpp'; level = 'exploration'
    real = ['every library operation wrapped (headers and dpm/detail/x86/*.cpp compiled from /repo in each instruction-set configuration)', 'CPU registers, MXCSR and x87 state of the host']
    stub = ['thread scheduler, signal delivery and handler entry (simulated by single-stepping with the trap flag)', 'register file and stack contents before each call (filled by the simulator)']
    faults = {'preemptions at an instruction of a call': 'preemptions', 'handlers entered inside a call': 'handlers', 'calls with garbage in dead registers, stack and padding': 'garbage',
              'calls under a directed rounding mode': 'rounding_modes', 'calls under flush-to-zero or denormals-are-zero': 'ftz_daz', 'calls with exception flags already raised': 'preset_flags', 'calls abandoned at an instruction': 'abandoned', 'calls before the static initialisers of the library ran': 'early_calls', 'calls after its destructors ran': 'late_calls', 'handlers entered inside a static initialiser': 'boot_handlers'}
    checks = {'results compared with the array model': 'model_checks', 'results compared with the same call run alone': 'isolated', 'results compared across lanes': 'relations', 'operations skipped (operand outside the domain)': 'skipped'}
    state_rule = 'distinct (operation, shape, environment, operand provenance, nesting) call contexts plus distinct (operation, instruction, thread) preemption points and whole schedules'
    rule = 'A run is a generated program of library calls per simulated thread plus a schedule and faults; non-trivial if at least one fault or environment change fired in it; distinct by the hash of its event log (calls, results, flags, switches).'
    assumptions = ['single-core interleaving at instruction granularity is sequentially consistent; weak memory ordering is not modelled (the library shares no memory between calls)',
                   'g++ -O2 code of this host for sse2, sse4.2, avx and avx2+fma configurations, and with AVX-512 (F, CD, VL, BW, DQ) if the host has it; MSVC builds are not executed']
    def __init__(self, ops, idx, quick, thorough, types=None, configs=ALLC, **k):
        self.ops, self.idx, self.quick, self.thorough, self.types, self.configs, self.dropped = ops, idx, quick, thorough, types, configs, []
        self.__dict__.update(k)
    def build(self, d, configs):
        b = buildlib.Build(d, configs, ops=set(self.ops), idx=self.idx, types=self.types, engine=['world.cpp', 'values.cpp', 'main.cpp', 'profiles.cpp', self.alt] + (['life.cpp'] if getattr(self, 'life', False) else []), extra=getattr(self, 'extra', ()), config_ops=getattr(self, 'config_ops', None), life=getattr(self, 'life', False), dense=getattr(self, 'dense', ()))
        r = b.run(); self.dropped = b.dropped; return r
    def samples(self, binary, pid, seed, env):
        return [subprocess.run([binary, 'show', pid, str(seed), str(k)], capture_output=True, text=True, env=env).stdout[:1500] for k in (0, 1)]
class Mem(Main):
    """Properties decided against the simulated memory (memworld.cpp)."""
    alt = 'memworld.cpp'
    real = ['copy_from, copy_to and the loading constructors of every vector and mask type (compiled from /repo in each instruction-set configuration)', 'page protection and instruction stepping of the host']
    stub = ['other threads and handlers writing to neighbouring memory (played by the simulator between instructions)', 'demand paging (pages granted one at a time)']
    faults = {'neighbouring bytes written between two instructions of a transfer': 'neighbour_writes', 'neighbouring bytes rewritten at every instruction': 'storm_writes', 'pages faulted in during a transfer': 'demand_pages',
              'transfers run by a handler inside a transfer': 'nested_transfers', 'pages made inaccessible around a transfer': 'inaccessible_pages', 'calls with garbage in dead registers and stack': 'garbage'}
    checks = {'transfers compared with the arena model': 'model_checks', 'transfers straddling a page boundary': 'page_straddling', 'transfers with no lane selected': 'empty_masks'}
    state_rule = 'distinct (transfer, alignment, faults, pages touched, mask) contexts'
    rule = 'A run is a sequence of generated transfers over one arena with page rights, neighbouring writers and handlers; non-trivial if at least one fault fired; distinct by the hash of lanes, memory and instruction counts.'
    def build(self, d, configs):
        b = buildlib.Build(d, configs, ops={'pos'}, idx=self.idx, types=self.types, engine=['world.cpp', 'values.cpp', 'main.cpp', 'profiles.cpp', self.alt], mem=self.masked)
        r = b.run(); self.dropped = b.dropped; return r
class Cb(Main):
    """Callbacks owned by the simulator (cbworld.cpp)."""
    alt = 'cbworld.cpp'
    real = ['generator constructors of vectors and masks and reduce with caller-supplied operations (compiled from /repo in each instruction-set configuration)', 'C++ exception unwinding through library frames']
    stub = ['the caller-supplied callables (every result, exception and re-entrant call is chosen by the simulator)', 'handler entry (single-stepping)']
    faults = {'exceptions thrown by an invocation': 'exceptions', 're-entrant library calls from a callback': 'reentries', 'handlers entered inside a call': 'handlers', 'calls with garbage in dead registers and stack': 'garbage'}
    checks = {'calls checked against the invocation log': 'model_checks', 'callback invocations checked': 'callbacks'}
    state_rule = 'distinct (operation, shape, throwing invocation, value class, nesting) contexts'
    rule = 'A run is a sequence of calls whose callbacks the simulator answers; non-trivial if an exception, re-entry, handler or garbage fault fired; distinct by the hash of results, invocation and instruction counts.'
    def build(self, d, configs):
        b = buildlib.Build(d, configs, ops={'pos'}, idx=self.idx, types=self.types, engine=['world.cpp', 'values.cpp', 'main.cpp', 'profiles.cpp', self.alt], cb=True)
        r = b.run(); self.dropped = b.dropped; return r
class Boot(Main):
    """Start-up against a simulated processor and kernel (bootworld.cpp)."""
    alt = 'bootworld.cpp'
    real = ['the start-up code of dpm/detail/x86/cpuid.cpp and every has_*() and is_*() query (compiled from /repo in each instruction-set configuration)', 'C library code under open, read and close']
    stub = ['the processor (CPUID and XGETBV answered by a model)', 'the kernel (/proc/cpuinfo and file system calls answered by a model)', 'operator new']
    faults = {'open of /proc/cpuinfo failing': 'open_failures', 'reads failing': 'read_failures', 'short reads': 'short_reads', 'allocations failing': 'allocation_failures'}
    checks = {'features compared with the machine': 'model_checks', 'start-ups taking the operating-system route': 'fallback_boots', 'CPUID instructions executed': 'cpuid_executed', 'XGETBV instructions executed': 'xgetbv_executed'}
    state_rule = 'distinct (reported features, XCR0, kernel file style, maximum leaf, faults fired) start-ups'
    rule = 'A run is one start-up of the library in a generated machine (vendor, maximum leaf, feature bits, XCR0, cpuinfo text) with faults in system calls and allocations; non-trivial if a fault fired; distinct by the hash of executed events, reported features and instruction count.'
    def build(self, d, configs):
        b = buildlib.Build(d, configs, ops={'pos'}, idx=self.idx, types=['i32'], engine=['world.cpp', 'values.cpp', 'main.cpp', 'profiles.cpp', self.alt], boot=True)
        r = b.run(); self.dropped = b.dropped; return r
SPEC = {
    'S09': Boot([], [0], (60000, 30), (3000000, 600)),
    'S13': Cb([], [0, 1, 2, 3, 4, 5, 6], (60000, 30), (1000000, 900)),
    'S04': Mem([], [0, 1, 2, 3, 4, 5, 6], (30000, 32), (1000000, 900), masked=False),
    'S05': Mem([], [0, 1, 2, 3, 4, 5, 6], (30000, 32), (1000000, 900), masked=True),
    'S01': Main(CORE, [1, 2, 5], (9000, 32), (400000, 900)),
    'S02': Main(CORE, [1, 2, 5], (9000, 32), (400000, 900)),
    'S03': Main(ROUND + ['add', 'sub', 'mul', 'div', 'adds', 'subs', 'muls', 'divs', 'addeq', 'muleq', 'sqrt', 'eq', 'lt', 'le', 'min', 'max', 'abs', 'copysign', 'fma', 'fmadd', 'fdim', 'modf', 'frexp', 'ldexp', 'nextafter'] + [n for n in NAMES if n.startswith('cast_')],
                [0, 1, 2, 3, 4, 5], (15000, 32), (600000, 900), types=['f32', 'f64'], extra=['-frounding-math']),
    'S06': Main(LANE, [0, 1, 2, 3, 4, 5, 6], (15000, 32), (600000, 900)),
    'S07': Main(MANIP, [0, 1, 2, 3, 4, 5, 6], (15000, 32), (600000, 900), types=['f32', 'f64', 'i8', 'i16', 'i32', 'i64']),
    'S14': Main(ELEM, [0, 1, 2, 3, 4], (15000, 32), (600000, 900), types=['f32', 'f64']),
    'S08': Main(LANE + ROUND + MANIP + ELEM, [0, 1, 2, 3], (9000, 32), (400000, 900)),
    'S10': Main(CORE, [3, 5, 6], (4000, 32), (200000, 900), configs=['sse2', 'sse42', 'avx', 'avx2', 'sse2+d', 'avx2+d'], config_ops={c: set(ELEM) for c in ('sse2+d', 'avx2+d')}),
    'S17': Main(CORE, [1, 3, 5], (15000, 32), (600000, 900), configs=['sse2', 'avx2'], life=True),
    'S18': Main(CORE, [1, 2, 5], (9000, 32), (400000, 900), configs=['sse2', 'avx2']),
    'S16': Main(ELEM + MANIP + ROUND, [0, 1, 3, 5], (15000, 32), (600000, 900), types=['f32', 'f64'], configs=['sse2+p', 'sse2+n', 'avx2+p', 'avx2+n']),
    'S11': Main(MASK + REDUCE, [0, 1, 2, 3, 4, 5, 6], (15000, 32), (600000, 900), dense={'all_of', 'any_of', 'none_of', 'some_of', 'count', 'minidx', 'maxidx', 'mnot', 'hadd', 'hmin', 'hmax'}),
    'S15': Main(PROMO, [0, 1, 3, 5], (15000, 32), (600000, 900)),
    'S12': Main(MOVE, [0, 1, 2, 3, 4, 5, 6], (15000, 32), (600000, 900)),
}
