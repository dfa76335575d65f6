import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
X='dpm/detail/x86/'
p('S01','Operations are re-entrant and independent of every other thread and handler',
 'The value a library operation returns is a function of its operands and the floating-point environment alone. It is the same whether the call runs undisturbed or is preempted at any instruction by other threads or asynchronous handlers that themselves call the library, and whatever garbage dead registers, stack and padding hold when it starts.',
 ['schedules','inputs','programs'],'every interleaving of calls on 1 to 4 threads at instruction granularity, every handler entry point, every content of dead registers, stack memory, result storage and padding elements',
 'The unit tests call each operation from one thread, once, in a fresh process state; whether a hidden static buffer, an uninitialised register lane or a stale upper half matters depends on where a switch happens and what ran before.',
 [X+'type.hpp',X+'utility.hpp',X+'transform.hpp',X+'sincos.cpp',X+'tan.cpp','dpm/detail/generic/type.hpp','dpm/detail/fconst.cpp'],
 [('operations keep all state in registers and automatic storage; lookup tables are constant',X+'lut.hpp, dpm/detail/fconst.cpp'),('temporaries are zero-initialised before partial writes',X+'type.hpp')],
 [('lookup tables','constants shared by all calls','dpm/detail/fconst.cpp')],['return values of public operations'])
p('S02','Operations leave the floating-point control environment and raised flags alone',
 'No operation changes the rounding mode, exception masks, flush-to-zero or denormals-are-zero settings, the x87 control word or the direction flag as seen by its caller, and none leaves the x87/MMX register stack in use. Exception flags that were raised before the call are still raised after it. This holds for every starting environment and wherever the call is interrupted.',
 ['schedules','inputs','configurations'],'every operation, every combination of rounding mode, FTZ, DAZ and already raised flags at entry, every preemption point',
 'Tests run in the default environment and never read the control words or flags; a save/restore pair that misses one path or one bit is invisible to them.',
 [X+'round.hpp',X+'except.hpp',X+'fmanip.hpp',X+'class.hpp'],
 [('nearbyint saves and restores exception state',X+'round.hpp'),('error paths raise flags by computing instead of writing the status word',X+'except.hpp')],
 [('MXCSR','rounding mode, masks, flags','processor'),('x87 control and tag word','x87/MMX state','processor')],['MXCSR, x87 environment and RFLAGS after each call'])
p('S03','Results depend on the rounding mode exactly where they should',
 'Under every rounding mode, basic arithmetic, square root, conversions to floating point and the functions documented to round in the current mode return what the scalar operation returns in that mode. Truncations, floor, ceil, rounding half away from zero, comparisons, selection and exponent manipulation return the same values in every mode. Neither depends on switching between modes by other threads or handlers while the call is in progress.',
 ['schedules','inputs','configurations'],'all four rounding modes with any flags preset, switches between threads that use different modes at any instruction, all shapes',
 'Tests never set a rounding mode; emulations of rounding in terms of additions of large constants are only correct in some modes.',
 [X+'round.hpp',X+'cvt.hpp',X+'addsub.hpp',X+'muldiv.hpp','dpm/detail/generic/math.hpp'],
 [('rounding emulation for targets without rounding instructions',X+'round.hpp'),('integer to floating-point conversion emulation',X+'cvt.hpp')],None,['return values under each MXCSR rounding mode'])
p('S04','Vector transfers touch exactly the lanes they transfer',
 'Copying a vector or mask to or from memory reads and writes exactly its elements at the documented positions, converting each to the requested type: no byte before, between or after them is written, and no page that holds none of them is accessed. This holds for every alignment the tag permits, for element, vector and over-aligned tags, and for buffers that start or end at an inaccessible page. Writes made by others to neighbouring bytes while the transfer runs are never lost.',
 ['schedules','inputs','fault_sequences'],'every position of the buffer relative to page boundaries and protection changes, demand paging of any subset of the pages during the transfer, writes to adjacent bytes at every instruction, every shape and memory element type',
 'Tests copy to and from small aligned local arrays; over-reads, read-modify-write of neighbours and out-of-bounds tails only show next to an unmapped page or a concurrent writer.',
 [X+'type.hpp',X+'mbase.hpp','dpm/detail/generic/type.hpp','dpm/detail/alias.hpp'],
 [('copy_from / copy_to of vectors and masks','dpm/detail/generic/type.hpp, '+X+'type.hpp'),('tail elements are transferred one by one',X+'type.hpp')],[('caller memory','elements and their neighbours','caller')],['memory contents and page accesses'])
p('S05','Masked transfers touch only the selected lanes',
 'A masked transfer reads or writes only the elements whose mask lane is set; unselected lanes of a loaded vector keep their value, unselected elements in memory are never written, and unselected elements may lie in inaccessible memory. Writes by others to unselected elements while the transfer runs are never lost.',
 ['schedules','inputs','fault_sequences'],'every mask value, every position of the buffer relative to inaccessible pages, writes by others to unselected elements at every instruction',
 'Tests use a handful of masks on arrays that are entirely accessible and nobody else writes to.',
 [X+'type.hpp','dpm/detail/generic/type.hpp','dpm/type.hpp'],[('masked copy of vectors and masks',X+'type.hpp, dpm/detail/generic/type.hpp')],[('caller memory','selected and unselected elements','caller')],['memory contents and page accesses'])
p('S06','Element-wise operations refine the scalar operation on an array',
 'Any program of arithmetic, bitwise, shift, comparison, minimum/maximum, blend and compound assignment operations on vectors computes in every lane what the scalar operations compute on arrays of the same values, with the wrap-around and signedness of the element type. Padding beyond the last lane, however it came about in earlier operations, never influences a lane. The result is the same for every vector representation and instruction-set level.',
 ['histories','inputs','schedules','configurations'],'programs of up to 24 operations over a register file, fed with results of earlier operations, with arbitrary padding contents, interruptions and shapes, in four instruction-set configurations',
 'Tests apply each operation once to one or two fixed vectors of a few shapes; leaks from padding need a history, and emulated operations fail only for particular values.',
 [X+'addsub.hpp',X+'muldiv.hpp',X+'bitwise.hpp',X+'cmp.hpp',X+'minmax.hpp',X+'utility.hpp',X+'type.hpp',X+'transform.hpp','dpm/detail/generic/type.hpp','dpm/detail/generic/math.hpp'],
 [('per-type native implementations with generic fall-back',X+'type.hpp'),('instruction emulation for older targets',X+'utility.hpp, '+X+'bitwise.hpp')],[('vector registers','lanes plus padding','ext::native_data')],['lanes of results'])
p('S07','Floating-point manipulation and classification agree with the scalar functions',
 'For every operand, including zeros of either sign, denormals, infinities and NaN, splitting, scaling, exponent extraction, neighbour, sign, remainder, fused multiply-add, square root, root and classification functions return in each lane, and in each of their results, what the scalar function returns. Splitting a value and recombining the parts restores it. This holds after any history and under any interruption.',
 ['histories','inputs','schedules'],'programs of such calls over a register file with special values in any lane, arbitrary padding and interruptions; recombination within the program',
 'Tests use ordinary values; the interesting values are combinations of special operands in some lanes and ordinary ones in others.',
 [X+'fmanip.hpp',X+'frexp.cpp',X+'modf.cpp',X+'scalbn.cpp',X+'logb.cpp',X+'nextafter.cpp',X+'class.hpp',X+'mbase.hpp','dpm/detail/generic/math.hpp'],
 [('bit-level decomposition of elements',X+'frexp.cpp, '+X+'modf.cpp, '+X+'logb.cpp'),('exceptional lanes are blended or recomputed one by one',X+'scalbn.cpp, '+X+'nextafter.cpp')],None,['lanes of both results'])
p('S08','Each lane depends only on the same lane of the operands',
 'For every element-wise operation, including the elementary functions, a lane of the result depends only on the values in the same lane of the operands, not on its position, nor on the values in other lanes, nor on the padding. Placing the same operand values in another lane, beside arbitrary neighbours (including ones that take exceptional paths), yields the identical value.',
 ['inputs','histories'],'pairs of calls related by a permutation or replacement of lanes, with NaN, infinities, denormals, out-of-range values and garbage padding in the other lanes',
 'Tests look at one vector at a time and mostly fill it with similar values; slow paths taken because of a neighbour are not exercised.',
 [X+'trig.hpp',X+'sincos.cpp',X+'tan.cpp',X+'exp.hpp',X+'log10.cpp',X+'scalbn.cpp',X+'mbase.hpp',X+'lut.hpp'],
 [('per-lane selection between fast and exceptional results',X+'except.hpp, '+X+'mbase.hpp'),('slow path invoked for the lanes of a bit mask',X+'mbase.hpp')],None,['lanes of results of related calls'])
p('S09','CPU feature detection never reports what cannot be used',
 'A feature is reported only if the processor announces it and the operating system has enabled the register state it needs. While no system call fails, every such feature is reported, however the reads are split. Failing system calls and allocations during start-up may hide features but never invent one, never leak a descriptor, and never make start-up hang or crash.',
 ['fault_sequences','configurations'],'every combination of processor leaves, operating-system state and register enablement, every sequence of short reads, interruptions and errors of the system calls used',
 'The host of the tests has one processor and a healthy file system; no test reaches the failure paths.',
 [X+'cpuid.cpp',X+'cpuid.hpp'],[('start-up probe of the processor and the operating system',X+'cpuid.cpp')],[('detected feature set','filled before main',X+'cpuid.cpp')],['public feature queries'])
p('S10','Every call completes in a bounded number of steps and cannot fail',
 'For every operand and every floating-point environment with exceptions masked, each operation returns within a bounded number of instructions, raises no signal, and does not touch memory outside its operands, results and constants. It needs neither heap memory nor the operating system, so no failing allocation or system call can make it fail or block.',
 ['inputs','configurations'],'every operation stepped instruction by instruction with arbitrary operands (including NaN, infinities, denormals and values far outside the usual range) in every environment',
 'Tests use moderate operands in the default environment; out-of-range table indices or loops show only for particular bit patterns.',
 [X+'lut.hpp',X+'trig.hpp',X+'exp.hpp',X+'nextafter.cpp',X+'scalbn.cpp','dpm/detail/assert.cpp'],
 [('table indices are masked to the size of the table',X+'exp.hpp, '+X+'log2.cpp')],None,['number of instructions and signals per call'])
p('S11','Masks and reductions refine arrays of booleans and left-to-right folds',
 'Any program of mask operations, mask queries (all, any, none, some, count, first, last) and conversions between masks computes what it computes on an array of booleans of the mask size, whatever produced the mask and whatever its padding holds. Reducing a vector combines each of its lanes exactly once and nothing else.',
 ['histories','inputs','schedules'],'programs over mask and vector registers with masks produced by comparisons, conversions, element writes and garbage padding; sizes that do and do not fill native vectors',
 'Tests check a few masks per query; padding lanes that count as set need a history that sets them.',
 [X+'type.hpp',X+'bitwise.hpp',X+'cmp.hpp','dpm/detail/generic/type.hpp','dpm/type.hpp'],
 [('queries look at the first lanes only',X+'type.hpp'),('reductions fold halves and a tail','dpm/detail/generic/type.hpp, '+X+'type.hpp')],[('mask registers','lanes plus padding','ext::native_data')],['query results and mask lanes'])
p('S12','Moving and converting vectors preserves every element',
 'Broadcasting, generating, element writes, shuffles, casts between element types and conversions between vector representations deliver to every lane exactly the element the operation names, converted as the scalar conversion would. Converting to another representation of the same elements and back is the identity. This holds after any history, for every size and under any interruption.',
 ['histories','inputs','schedules','configurations'],'programs over a register file with all pairs of element types and representations, sizes that do not fill native vectors, values at the limits of the types',
 'Tests cover some type pairs at one size with small values; widening and narrowing between representations of different native sizes has many size-dependent paths.',
 [X+'cvt.hpp',X+'type.hpp',X+'utility.hpp','dpm/detail/generic/type.hpp','dpm/utility.hpp'],
 [('native conversion kernels with size adaption',X+'cvt.hpp'),('generic element by element conversion','dpm/detail/generic/type.hpp')],None,['lanes of results'])
p('S13','Callbacks run exactly once per element, and their failures pass through',
 'Constructing a vector or mask from a generator calls it exactly once for each lane index and stores each result in its lane; reducing with a caller-supplied operation combines every lane exactly once, so a vector of n lanes costs n-1 combinations, whatever values the operation returns. An exception thrown by the operation at any of its invocations reaches the caller and leaves the operands and later calls unaffected, and callbacks may themselves call the library.',
 ['histories','inputs','fault_sequences'],'every shape, arbitrary callback results, an exception at every invocation, nested library calls inside callbacks',
 'Tests pass stateless lambdas that never throw and cannot count how often or with which operands they were called.',
 [X+'type.hpp','dpm/detail/generic/type.hpp','dpm/utility.hpp'],[('generator constructors','dpm/detail/generic/type.hpp, '+X+'type.hpp'),('reduction by halves with a scalar tail','dpm/detail/generic/type.hpp')],None,['sequence of callback invocations'])
p('S14','Elementary functions are never grossly wrong, in any company',
 'Exponential, logarithmic, trigonometric, hyperbolic, power, error and gamma functions agree in every lane with the scalar functions to within 2^-11 (single) or 2^-28 (double) relative error plus a tiny absolute error, for every operand whose magnitude the function handles by itself (trigonometric operands up to 1000, otherwise any), with the same NaN, infinity and domain behaviour. This holds for every mixture of ordinary and exceptional lanes, after any history and under any interruption.',
 ['histories','inputs','schedules'],'programs of such calls with operands from all binades and special values mixed within a vector, with garbage padding and interruptions',
 'Tests evaluate a few ordinary points per function; denormal, boundary and mixed-lane operands select other paths.',
 [X+'exp.hpp',X+'log.cpp',X+'log2.cpp',X+'log10.cpp',X+'log1p.cpp',X+'trig.hpp',X+'sincos.cpp',X+'tan.cpp',X+'asincos.cpp',X+'atan.cpp',X+'hypot.cpp','dpm/detail/fconst.hpp','dpm/detail/generic/math.hpp'],
 [('argument reduction, table and polynomial evaluation',X+'trig.hpp, '+X+'exp.hpp'),('exceptional results blended per lane',X+'except.hpp')],None,['lanes of results'])
p('S15','Mixed and integer arguments of math functions are promoted like scalars',
 'A math function called on a vector of integers computes in double, and one called on arguments of different arithmetic types computes in the type the scalar function would promote them to: every lane equals the scalar function of the promoted arguments, for every element type including the narrow, 64-bit and unsigned ones. Reductions to lane masks (classification and comparison) of such arguments follow the same rule, in every order of the argument types, after any history and under interruption.',
 ['histories','inputs','schedules'],'all promoted entry points, all integer element types and mixtures of float, double and integer arguments, all shapes, any history of calls, garbage in the padding of the widened intermediate vectors',
 'No test calls a math function with integer or mixed arguments; the promoted vector has another shape (more native registers, another padding) than its operands, so the conversion on the way in and out only fails for particular element types, sizes and lanes.',
 ['dpm/detail/generic/math.hpp','dpm/detail/x86/mbase.hpp',X+'cvt.hpp'],
 [('promote_t selects the type of the computation','dpm/detail/generic/math.hpp'),('static_simd_cast of the arguments',X+'cvt.hpp')],None,['lanes of results'])
p('S16','Build options weaken only the operands they document',
 'Switching off DPM_HANDLE_ERRORS leaves only erroneous operands without a specified result: NaN operands still give NaN while DPM_PROPAGATE_NAN is on, and with both off every lane whose operands are neither NaN nor erroneous still gets the documented result. A lane whose result is unspecified never disturbs another lane of the same vector, a later call or the padding of the vector. Error handling itself is part of the contract when the options are on.',
 ['configurations','histories','inputs','schedules'],'the three meaningful combinations of both options on every instruction set, vectors mixing ordinary, NaN, infinite and out-of-domain lanes, any history of calls and preemption',
 'The test suite is built with both options on only, so the code between the conditionals is never run without them; and a fault in a single lane of a mixed vector needs a history that puts such lanes side by side.',
 ['dpm/detail/config.hpp',X+'exp.hpp',X+'logb.cpp',X+'log1p.cpp',X+'scalbn.cpp',X+'modf.cpp',X+'nextafter.cpp',X+'hypot.cpp',X+'asincos.cpp',X+'sincos.cpp',X+'tan.cpp','README.md'],
 [('exceptional lanes are blended in under each option separately',X+'exp.hpp, '+X+'logb.cpp, '+X+'scalbn.cpp'),('DPM_HANDLE_ERRORS implies DPM_PROPAGATE_NAN','dpm/detail/config.hpp')],None,['lanes of results'])
p('S17','Operations work before, during and after the static life of the library',
 'An operation called from a static initialiser, from a destructor of a static object or from a signal handler during either returns what it returns in the middle of the program, in whatever order the linker arranges the initialisers of the translation units. Running the initialisers and destructors of the library never disturbs calls in progress on other threads.',
 ['schedules','programs','configurations'],'every number of calls before the static initialisers run and after the destructors ran, every order of the initialisers, handlers at any instruction of an initialiser, other threads in the middle of calls',
 'Tests run from main, after all initialisers and before all destructors; whether a table or dispatch pointer filled in by an initialiser is ready depends on link order and on who calls first.',
 ['dpm/detail/fconst.cpp','dpm/detail/fconst.hpp',X+'lut.hpp',X+'cpuid.cpp',X+'sincos.cpp',X+'tan.cpp',X+'log2.cpp'],
 [('tables and constants are constant-initialised','dpm/detail/fconst.cpp, '+X+'lut.hpp'),('only the processor probe has an initialiser',X+'cpuid.cpp')],
 [('lookup tables','constants shared by all calls','dpm/detail/fconst.cpp')],['return values of public operations'])
p('S18','A call abandoned at any instruction leaves no trace',
 'If a call never returns because its thread is destroyed or an asynchronous handler leaves it by a non-local jump, every other call in the program, before or after, on the same or another thread, still returns what it returns when run alone. No call ever waits for, or depends on, the completion of another.',
 ['schedules','fault_sequences','programs'],'abandoning any number of calls (and of calls made by handlers) at any instruction, combined with preemption, handlers and garbage in dead registers and stack',
 'Tests let every call return; a cache entry, guard or flag that is left half-updated needs a call that stops between two particular instructions.',
 [X+'type.hpp',X+'mbase.hpp',X+'sincos.cpp',X+'tan.cpp','dpm/detail/generic/math.hpp','dpm/detail/fconst.cpp'],
 [('operations keep all state in registers and automatic storage',X+'type.hpp, '+X+'mbase.hpp')],
 [('static storage of the library','constants only','dpm/detail/fconst.cpp, '+X+'lut.hpp')],['return values of public operations'])
p('N01','Constant evaluation agrees with run-time evaluation',
 'Every operation that can be evaluated at compile time yields the same lanes as at run time.',['inputs'],'every constant expression','Compile-time tests cover a few expressions.',[X+'type.hpp','dpm/detail/generic/type.hpp'],[('constant evaluation goes through the packed representation',X+'type.hpp')])
p('N02','Elementary functions are accurate to a few units in the last place',
 'Elementary functions are accurate to a few units in the last place over their whole domain.',['inputs'],'every operand','Tests compare a few points with a tolerance.',[X+'exp.hpp',X+'trig.hpp','dpm/detail/fconst.hpp'],[('polynomial approximations','dpm/detail/fconst.hpp')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['id']
