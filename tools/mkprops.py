"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
K='kerncraft/kernel.py'; M='kerncraft/machinemodel.py'; CP='kerncraft/cacheprediction.py'
IC='kerncraft/incore_model.py'; KC='kerncraft/kerncraft.py'; ECM='kerncraft/models/ecm.py'
RL='kerncraft/models/roofline.py'; BM='kerncraft/models/benchmark.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','Iteration numbering and address trace follow the C loop nest',
 'For every kernel and constant binding, iteration number n denotes the n-th iteration the C loop nest would execute (innermost index fastest, start, bound and step honoured), converting indices to iteration numbers is its inverse, and the number of the last iteration is consistent with it. '
 'The byte offsets reported for any range of iterations are exactly the array loads and stores those iterations perform, each array occupying its own cacheline-aligned region that overlaps no other array.',
 ['inputs','programs'],'all kernels in the supported language, all bindings of their constants, all iteration ranges and array spacings',
 'Tests evaluate a handful of iterations of unit-step 2D/3D stencils; the mapping must hold for any nesting depth, start, step, index expression and iteration range.',
 [K],[('iteration numbering','Kernel.global_iterator, global_iterator_to_indices, indices_to_global_iterator, max_global_iteration, iteration_length'),('offset compilation','Kernel.compile_global_offsets, compile_sympy_accesses, array_sizes')])

p('C02','Kernel front end extracts exactly what the C source performs',
 'For every kernel in the supported language the analysis reports exactly the array reads and writes, scalar reads and writes, floating-point operation counts, loop bounds and steps, array shapes and datatypes that the C source contains, regardless of layout and formatting. '
 'A YAML kernel description of the same kernel gives the same loads, stores, iteration counts and address trace as the C source.',
 ['programs'],'all kernels expressible in the supported C subset, and all equivalent YAML descriptions',
 'Tests parse about ten fixed kernels and compare a few fields; extraction must be right for any expression shape, nesting depth and index expression.',
 [K],[('source walk','KernelCode._process_code, _p_for, _p_assignment, _p_sources'),('description','KernelDescription.__init__'),('flop counting','Kernel._calculate_flops / _p_sources')])

p('C03','Unsupported kernels are refused, never silently misanalysed',
 'A kernel that leaves the supported language (non-simple loop conditions or steps, several loop nests, statements between loop headers, control flow or calls in the body, non-constant array shapes, undeclared or dimension-mismatched arrays) is refused with an error. '
 'It never yields an analysis that describes a different program than the one given.',
 ['programs'],'all mutations of supported kernels that leave the documented subset',
 'Tests hold only accepted kernels; the refusals are scattered assertions nobody exercises.',
 [K],[('grammar checks','KernelCode._process_code, _p_for, _p_assignment, _p_sources, set_variable, check')])

p('C04','Source cleaning strips comments and macros and nothing else',
 'Cleaning a kernel source removes comments, preprocessor lines or pragmas as requested and leaves the remaining program token-for-token unchanged, wherever comments are placed and whether or not the text ends in a newline. '
 'Renaming an identifier in a syntax tree changes every occurrence of that identifier and no other.',
 ['inputs'],'all C texts of comment, pragma, macro and code fragments in any order; all syntax trees',
 'No test calls the cleaner with more than one layout; its correctness depends on the position of every comment and newline.',
 ['kerncraft/pycparser_utils.py'],[('cleaning','clean_code'),('renaming','replace_id')])

p('C05','Generated C programs compute what the original kernel computes',
 'For every supported kernel and constant binding, the generated kernel function and its driver compile, and executing the generated function leaves every array and scalar result with the values the original multi-dimensional source would produce, the timing-loop repetition aside. '
 'The generated program never reads or writes outside the storage it allocates and has no undefined behaviour.',
 ['programs','inputs'],'all supported kernels and constant bindings for which the original source itself stays within its array bounds',
 'Tests check that generated text for one or two kernels equals a fixed string or that it compiles; semantic equality after flattening must hold for all index expressions.',
 [K],[('code generation','KernelCode.get_kernel_code, get_kernel_header, get_main_code, _build_kernel_function_declaration, _build_const_declartions, _build_array_declarations, transform_multidim_to_1d_*')])

p('C06','Cache simulation results equal an exact replay of the kernel\'s accesses',
 'Per-level loads, hits, misses, stores and evictions reported by the cache-simulation predictor are those obtained by feeding the kernel\'s exact address stream to the described cache hierarchy after warm-up, scaled to one unit of work (one cache line of the innermost loop progress). '
 'They obey conservation (loads = hits + misses per level, misses of a level = loads of the next, up to write-allocations for lines evicted to it) and are never negative.',
 ['programs','configurations'],'all kernels, problem sizes and cache hierarchies (levels, associativity, policies, core counts)',
 'Tests compare a few kernels on two machines against literal numbers; conservation and equality with an independent replay must hold for any kernel, size and hierarchy.',
 [CP,M],[('simulation','CacheSimulationPredictor.__init__, get_loads, get_hits, get_misses, get_stores, get_evicts'),('hierarchy construction','MachineModel.get_cachesim')])

p('C07','Layer-condition predictions match a reuse-distance evaluation',
 'For every kernel and machine, the layer-condition predictor reports for each cache level the hits and misses obtained by evaluating the reuse distances of the kernel\'s accesses against that level\'s capacity, and its evictions equal the distinct store references (none where everything fits). '
 'Misses never increase from one level to a larger one, a larger cache never predicts more misses, and the reported transition points in the problem size are the sizes at which the prediction changes.',
 ['programs','configurations'],'all kernels accepted by the predictor, all problem sizes, cache sizes and core counts',
 'Tests compare three kernels at fixed sizes; the relation to reuse distances must hold over all sizes and stencil shapes, in particular around the capacity thresholds.',
 [CP,'kerncraft/models/layer_condition.py'],[('layer conditions','LayerConditionPredictor.__init__'),('report','models/layer_condition.py LC')])

p('C08','ECM prediction is composed exactly from its inputs',
 'For every kernel, machine description, in-core result and cache traffic, each inter-level contribution of the ECM model equals the predicted traffic divided by the documented bandwidth (half- or full-duplex, memory by measured bandwidth and clock), and the total is the larger of the overlapping in-core time and the sum of the non-overlapping time and all transfer times (transfers the machine description calls overlapping count to the former, memory latency penalties to the latter), all per cache line of work. '
 'Every reported unit conversion (cycles per cache line, cycles per iteration, iterations per second, FLOP/s) denotes the same quantity.',
 ['programs','configurations'],'all combinations of kernel, machine file, in-core throughput and cache traffic',
 'Tests check literal totals for three kernels on SandyBridge and Haswell in one or two units.',
 [ECM],[('data part','ECMData.calculate_cycles'),('in-core part','ECMCPU.analyze'),('composition','ECM.analyze, report'),('units','ECMData.conv_cy, ECMCPU.conv_cy, ECM.conv_cy')])

p('C09','ECM multicore scaling is bounded and consistent with one core',
 'The multicore ECM prediction for one core equals the single-core prediction, performance never decreases as cores are added, never exceeds the core count times the single-core performance and never exceeds the memory-bandwidth limit, and the reported saturation point is where the memory bound is reached; in between it follows the documented memory bus utilization u(c) = min(1, c T_MEM / (T_ECM + u(c-1) (c-1) T_MEM/2)). '
 'A kernel with no memory traffic scales linearly.',
 ['configurations','inputs'],'all combinations of in-core time, per-level transfer times, and core counts of a machine',
 'Tests look at one scaling result at most; the inequalities quantify over every core count and bottleneck structure.',
 [ECM],[('scaling','ECM.analyze (multi-core scaling), report')])

p('C10','Roofline reports the true minimum over all bottlenecks',
 'For every kernel and machine the Roofline prediction is the smallest of the in-core limit and, for each memory level, traffic volume combined with the selected measured bandwidth, and the named bottleneck is the one attaining it. '
 'The arithmetic peak is that of the kernel\'s own precision and the number of cores, and all units in which a result is shown denote the same performance.',
 ['programs','configurations'],'all kernels (single and double precision, with and without memory traffic), machines, core counts and cache traffic',
 'Tests cover literal values of a few double-precision kernels on one core; the min and the unit algebra must hold for every traffic pattern.',
 [RL],[('flop roofline','RooflineFLOP.calculate_cache_access, analyze, conv_perf'),('asm roofline','RooflineASM.analyze')])

p('C11','Bandwidth selection uses the closest measured benchmark',
 'For every machine file, memory level, core and thread count and stream mix, the bandwidth returned is a value measured in that machine file for that level (scaled only as the file prescribes), from the microkernel whose read/write ratio is nearest to the kernel\'s, for the requested number of cores. '
 'Without a core count it is the best bandwidth measured with up to one NUMA domain (or one group of cores sharing that level).',
 ['configurations','inputs'],'all machine files, levels, core/thread counts and read/write stream mixes',
 'Tests query a few combinations on one machine.',
 [M],[('selection','MachineModel.get_bandwidth')])

p('C12','Quantities with SI prefixes keep their value through every operation',
 'Addition, subtraction, multiplication, division, comparison and prefix normalisation of quantities with SI prefixes and units give the same numeric value and unit as plain arithmetic on base units, a quantity printed and parsed back is the same quantity to the printed precision, and incompatible units are refused. '
 'Each prefix denotes its SI power of ten.',
 ['inputs'],'all values, prefixes and units, and all sequences of operations on them',
 'Tests check about a dozen literals and never the large prefixes.',
 ['kerncraft/prefixedunit.py'],[('quantity arithmetic','PrefixedUnit and its operators, good_prefix, reduced, with_prefix')])

p('C13','Interval sets behave like the sets of integers they denote',
 'Building, uniting and measuring interval sets gives exactly the set of integers covered, whatever the number, order, overlap and adjacency of the intervals: lengths count every element once, membership is exact, equal sets compare equal, and stored intervals are disjoint and ordered. '
 'No operation alters its operands or the caller\'s data.',
 ['inputs'],'all sequences of intervals and set operations',
 'Tests check a handful of intervals; correctness depends on the overlap pattern of arbitrarily many.',
 ['kerncraft/intervals.py'],[('interval set','Intervals')])

p('C14','Cached analyses never change an answer',
 'For every history of runs over kernel files that share one directory - changing constants, core count, machine file, in-core model, pointer increment, marked block or the kernel source itself - every run reports what the same run would report with no stored intermediates. '
 'An intermediate older than what it was derived from is rebuilt.',
 ['histories','configurations'],'all sequences of runs with different options and of edits to the kernel or machine file',
 'Tests start from a clean directory; staleness needs two different runs in sequence.',
 [K,CP,IC,KC],[('intermediate store','KernelCode.get_intermediate_location, _check_freshness, lock_intermediate'),('cached predictions','cacheprediction.py LC_analysis / CSIM_analysis files'),('in-core cache','KernelCode.incore_analysis'),('machine identity','MachineModel.get_identifier')])

p('C15','Concurrent runs on the same kernel do not disturb each other',
 'Any number of processes analysing the same kernel file at the same time all finish, and each reports what it would report alone. '
 'No process reads an intermediate file that another is still writing, and no intermediate is left locked.',
 ['schedules'],'all interleavings of several processes using one intermediates directory',
 'Tests run in one process.',
 [K],[('locking protocol','KernelCode.lock_intermediate, _check_freshness'),('users of it','get_kernel_code, get_main_code, compile_kernel, assemble_to_object, incore_analysis, build_executable')],
 )

p('C16','A run killed at any point does not poison later runs',
 'If a run is killed at any moment, later runs on the same kernel finish and report what they would have reported had the killed run never happened. '
 'Stored result files always hold either the previous complete content or the new complete content.',
 ['crash_points'],'all points at which the process can be killed, and external tools failing midway',
 'No test interrupts a run.',
 [K,KC,CP],[('intermediates','writers of the intermediates directory'),('result files','kerncraft.run --store/--json handling')])

p('C17','Every requested parameter combination is analysed and stored exactly once',
 'A run over value ranges analyses every combination in the cross product of the requested values exactly once with exactly those constants bound, and the result store afterwards holds one entry per combination with the result of that combination\'s own analysis. '
 'Results already in the store from other runs survive, and the text, stored and JSON outputs agree.',
 ['inputs','histories'],'all sets of defined ranges, models and sequences of runs into the same store',
 'Tests run one or two fixed command lines.',
 [KC],[('permutation loop','kerncraft.run'),('result store','identifier_from_arguments and --store/--json output')])

p('C18','Range definitions denote exactly the documented value sets',
 'A constant definition given as a number, or as start-stop with optional count and linear/log spacing, expands to exactly the documented values, endpoints included, in order and within the given limits, and a repeated definition of a name adds its values once. '
 'A malformed definition is refused, and one command line never affects the parsing of another.',
 ['inputs','histories'],'all definition strings and sequences of command-line parses in one process',
 'Tests check a few ranges.',
 [KC],[('range expansion','space, AppendStringRange'),('argument checks','create_parser, check_arguments')])

p('C19','Marking assembly for analysis preserves the program',
 'Inserting analysis markers into compiler-generated assembly keeps every original line in its original order, notes the pointer increment, and places exactly one start and one end marker around precisely the block asked for (by number, label, interactively or automatically), which is a loop body present in the input. '
 'The marked assembly still assembles to the same code outside the markers.',
 ['inputs'],'all assembly files a compiler may emit for a kernel (several loops, repeated instruction lines, directives, comments)',
 'Tests check a few stored assembly files.',
 [IC],[('marking','asm_instrumentation, userselect_block'),('block selection','ISA.select_best_block, compute_block_metric')])

p('C20','Detected pointer increments are correct or refused',
 'Whenever a pointer increment is detected automatically for a loop body, it equals the number of bytes by which every moving store of that body (every moving load, if no store moves) advances per execution; when the instructions do not determine a single increment, none is claimed. '
 'Bodies advancing by one register which is incremented once by a constant are detected, and increments given by the user are used for exactly the body they were given for, the latest one.',
 ['inputs'],'all loop bodies with any mix of addressing modes, scales, and increment instructions on x86 and AArch64',
 'Tests use stored blocks of a few compiler outputs.',
 [IC],[('increment detection','ISA.get_pointer_increment (x86, AArch64)')])

p('C21','Performance-counter scheduling measures every requested event',
 'For every set of requested events, the schedule of benchmark runs contains each event exactly where a compatible hardware counter exists, never assigns one counter twice within a run, and never needs more runs than events; event strings name the event, counter and options they were given. '
 'Derived metrics evaluate their formula with each counter replaced by its own measured value and nothing else.',
 ['inputs','configurations'],'all sets of events with any register alternatives and options; all metric formulas over them',
 'Tests check one small event set.',
 [BM,M],[('scheduling','build_minimal_runs, group_iterator, register_options, eventstr'),('formulas','MachineModel.parse_perfctr_event, parse_perfmetric')])

p('C22','Machine descriptions load, dump and stay isolated',
 'A machine description written out and loaded again is the same description and gives the same predictions, and loading, changing or simulating with one description never alters another, nor a later load of the same or a changed file. '
 'The cache hierarchy built for a given number of cores gives each level the capacity share and sharing that the file states for that number of cores.',
 ['configurations','histories'],'all machine files, core counts and sequences of loads, changes and simulator constructions in one process',
 'Tests load each file once, and never dump.',
 [M],[('load/dump','MachineModel.__init__, dump, update'),('cache hierarchy','MachineModel.get_cachesim')])

p('C23','Analyses in one process are independent of what ran before',
 'The result of analysing a kernel with given constants does not depend on which constants were bound, which other kernels were analysed, or in which order, earlier in the same process. '
 'Clearing and rebinding constants gives the result of a fresh analysis.',
 ['histories'],'all sequences of constant bindings, queries and analyses in one process',
 'Tests build a fresh kernel object for each check.',
 [K,CP],[('state reset','Kernel.clear_state, set_constant, set_variable'),('memoised substitution','Kernel.subs_consts')])

p('C24','Merging result stores loses nothing',
 'Merging any number of result stores yields exactly the union of their entries, merging nested entries recursively, with the later file winning only where both give a value for the same entry. '
 'Inputs are left unchanged.',
 ['inputs'],'all collections of result stores with any nesting and overlap',
 'No test covers merging.',
 ['kerncraft/picklemerge.py'],[('merge','picklemerge.update, main')])

p('C25','Measured benchmark results are derived correctly from the counters',
 'Given the outputs of the measurement tool for the runs it performed, the reported performance, runtime per repetition, data volumes and per-cacheline counts are the documented functions of those counters, all units agree, and warnings appear exactly when the measured clock or the computer do not match the machine description. '
 'The tool is invoked with the binary, repetition count, pinning and counter set that the requested analysis calls for, and measured runs last long enough.',
 ['inputs','configurations'],'all counter values and output layouts of the measurement tool, all kernels and core counts',
 'Tests run the model once against a dummy tool with constant output.',
 [BM],[('tool call','Benchmark.perfctr'),('derivation','Benchmark.analyze, report')])

p('C26','Hardware detection transcribes reports and measurements faithfully',
 'For every computer whose tools report it, the generated machine description has the sockets, cores, threads, NUMA domains, cache sizes, sharing groups and clock that the reports state, its benchmark results are the best of the bandwidths measured with the kernel, size and cores noted with them (outdated ones being measured again, others kept), and a description is never written with invented values in place of unknown ones. Comparing a description with the current system reports exactly the entries in which they differ.',
 ['configurations','histories'],'all topology reports (sockets, SMT, shared and private caches, NUMA layouts), benchmark outcomes, interruptions',
 'No test can vary the hardware.',
 [M],[('topology','get_machine_readouts, get_memory_hierarchy, MachineModel.update'),('benchmarks','MachineModel._update_benchmarks, measure_bw, find_fastest_bench_kernel, get_available_bench_kernels'),('comparison','MachineModel.current_system, main')])
p('C27','In-core results are the analyser\'s own figures for the chosen loop',
 'Every in-core analysis gives its analyser (OSACA, LLVM-MCA or IACA) exactly the instructions of the chosen loop and the micro-architecture of the machine description, and returns as port cycles, throughput, loop-carried and critical path latency and micro-ops what the analyser reports for them, also when stored results are used again. Failing or unreadable analyser runs are refused, and unknown instructions are warned of.',
 ['inputs','configurations','histories'],'all loops, compilers, instruction sets, micro-architectures and reports of the analysers',
 'Tests analyse a handful of kernels with OSACA only and compare one or two figures; LLVM-MCA and IACA are never run.',
 [IC],[('OSACA','osaca_analyse_instrumented_assembly'),('LLVM-MCA','llvm_mca_analyse_instrumented_assembly'),('IACA','iaca_analyse_instrumented_binary'),('marking','asm_instrumentation, KernelCode.incore_analysis')])
p('C28','Stand-alone measurements (kc-pheno) belong to the regions given',
 'For each measured region, or the whole run, the reported performance, runtime per repetition, data volumes, per-cacheline counts and phenomenological model are the documented functions of that region\'s own counters and of the loops, repetitions and floating point operations given for it or by default. '
 'Variables are adjusted only within their ranges and for regions which they cover, until runs last long enough or a warning tells that they do not; the tool is called with the arguments, pinning, markers and counter sets asked for, and malformed arguments, unknown regions and missing information are refused or warned of.',
 ['inputs','configurations','histories'],'all command lines (regions, loops, repetitions, operations, variables with ranges) and all outcomes of the measurement tool',
 'No test runs kc-pheno.',
 ['kerncraft/standalone_pheno.py','kerncraft/models/standalone_benchmark.py',K],[('command line','standalone_pheno.check_arguments, run'),('adjustment','StandaloneBenchmark.adjust_variables, perfctr'),('derivation','StandaloneBenchmark.analyze, report'),('description','BinaryDescription')])
json_lines='\n'.join(json.dumps(x) for x in P)+'\n'
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(json_lines)
for x in P:
    assert len(x['title'])<=80,x['id']
    assert x['statement'].strip().count('. ')<=2,(x['id'])
print(len(P))
