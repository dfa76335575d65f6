"""Writes MANIFEST.json from the list of claimed properties."""
import json, sys
NOTE = {
 'S01': 'thousands of seeded schedules per run; every call is compared bit for bit with the same call run alone in a pristine process. A dependence that no explored schedule, operand or garbage pattern exposes is missed.',
 'S02': 'control words, flags and x87 tag compared around every call in seeded environments; single-core model.',
 'S03': 'array model evaluated by the host libm and FPU under the same rounding mode; operations compiled with -frounding-math.',
 'S04': 'simulated address space: guard pages, demand paging, neighbour writes at any instruction; every byte of the arena compared with a model.',
 'S05': 'as S04 with unselected elements inaccessible or written by others.',
 'S06': 'register histories compared lane by lane with an array model after every call.',
 'S07': 'register histories compared lane by lane with scalar libm functions; NaN payloads and (for some operations) signs of zero are not compared.',
 'S08': 'pairs of related calls compared bit for bit; no external oracle.',
 'S09': 'the detection code runs under emulated CPUID, XGETBV and system calls; x86 Linux only.',
 'S10': 'every instruction stepped; bound 200000 instructions; system call instructions and entries of the allocator are reported; stray accesses are seen only when they fault or change results.',
 'S17': 'the simulator takes the static initialisers of the library and of its users over from the C runtime (objcopy) and runs them, in a seeded order and interrupted, between the calls it chooses; exit handlers likewise. Every call is compared bit for bit with the same call in an initialised pristine process.',
 'S18': 'calls left by a non-local jump at a seeded instruction; every other call is compared bit for bit with the same call run alone. The control state of the abandoning thread itself is reset by the simulator, as its application would have to.',
 'S11': 'register histories compared with an array-of-bool model.',
 'S12': 'register histories compared with an array model over all pairs of element types.',
 'S13': 'callbacks are owned by the simulator, which logs every invocation and throws at any of them.',
 'S15': 'register histories of promoted calls compared lane by lane with the scalar function of the promoted arguments; elementary functions with the coarse tolerance of S14.',
 'S16': 'register histories compared with the array model under each build option; lanes whose operands or results are erroneous there are not compared.',
 'S14': 'coarse tolerance: gross errors only; accuracy to the last bits is not claimed.',
}
ids = sys.argv[1:] or sorted(NOTE)
m = {'version': 1, 'setup_cmd': 'python3 check.py setup',
     'checks': [{'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough', 'evidence_file': f'evidence/{i}.json',
                 'technique': 'deterministic simulation with fault injection: seeded search over schedules, environments and faults', 'level': 'exploration', 'level_note': NOTE[i]} for i in ids],
     'not_applicable': [
        {'property': 'N01', 'reason': 'constant evaluation happens inside the compiler: there is no execution whose schedule, environment or faults a simulator could control.'},
        {'property': 'N02', 'reason': 'a purely numerical bound over single operands that depends on no schedule, fault, environment or history; seeded search over simulated runs cannot bound an error in units of the last place (S14 decides the coarse, history-dependent part).'}]
        + [{'property': i, 'reason': 'its check is under construction and not yet claimed.'} for i in NOTE if i not in ids],
     'notes': 'No hooks in /repo: the seams are the public operations (called through generated wrappers), the trap flag, page protection and instruction emulation. Repairs are the fix: commits listed in known_findings.txt.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
