"""What each check runs."""
import glob, os, shutil, subprocess
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
MODELS2 = ['BouncingBall', 'Dahlquist', 'Feedthrough', 'Resource', 'Stair', 'VanDerPol']
MODELS3 = MODELS2 + ['Clocks', 'Roberts', 'StateSpace']

W = ['walker.cpp']

PROPS = {}


def prop(pid, runs, rule, **kw):
    PROPS[pid] = dict(id=pid, runs=runs, rule=rule, **kw)


ASAN = 'AddressSanitizer, UndefinedBehaviorSanitizer and a hang watchdog stay on throughout.'

prop('C01', [dict(driver='modes.cpp', sources=W, vers=(3,))],
     'For every model, interface type and flag combination: every (mode, call, next call) whose outcome the mode table decides, and random walks of 30-80 calls '
     'mixing legal and about 8% illegal calls. An evaluation is one judged call. Distinct: (instance kind, mode, call, following mode, following call) and call '
     'trigrams of the walks.',
     technique='runtime monitor of the mode machine under sanitizers (exhaustive call pairs and random walks)',
     note='Exhaustive for all pairs of calls from every mode; sampled for longer histories. Trusts the hand-written table of permitted calls. ' + ASAN)
prop('C02', [dict(driver='modes.cpp', sources=W, vers=(2,))],
     'As C01, for FMI 2.',
     technique='runtime monitor of the mode machine under sanitizers (exhaustive call pairs and random walks)',
     note='Exhaustive for all pairs of calls from every mode; sampled for longer histories. Trusts the hand-written table of permitted calls. ' + ASAN)
TWIN = 'Trusts nothing about the model: two histories that must be equivalent are compared with each other, value by value and bit by bit. '
prop('C07', [dict(driver='walkprops.cpp', sources=W)],
     'A random history of up to 40 legal operations, a save in whatever mode it ended, a continuation of 3-32 operations ending in an arbitrary (possibly illegal) call. '
     'The continuation is repeated after further random histories, errors, resets and terminations followed by a restore, and in another instance. An evaluation is one compared '
     'continuation. Distinct: (model, kind, mode at the save, last operation) and (mode at the save, following operation and its result).',
     technique='twin-run monitor under sanitizers: continuation after a restore compared with the undisturbed continuation',
     note='Sampled histories. ' + TWIN + ASAN)
prop('C08', [dict(driver='walkprops.cpp', sources=W)],
     'As C07, through serialization: buffers are heap blocks of exactly the announced size, the source state and often the instance are freed before the bytes are used, the state is '
     'restored in the same or another instance, also from bytes at any alignment and into an existing state object, serialized again, and wrong sizes are tried. Distinct: as C07 plus (model, kind of wrong size).',
     technique='twin-run monitor under AddressSanitizer: behaviour after a serialization round trip compared with the undisturbed continuation',
     note='Sampled histories. ' + TWIN + ASAN)
prop('C09', [dict(driver='walkprops.cpp', sources=W)],
     'One to three random histories each ended by a reset in whatever mode was reached (also after errors), then 5-50 operations that are also made on a new instance, some without fmi2SetupExperiment. An evaluation is one '
     'compared pair. Distinct: (model, kind, mode and operation before the reset, number of resets) and operations with results after it.',
     technique='twin-run monitor under sanitizers: reset instance compared with a new instance',
     note='Sampled histories. ' + TWIN + ASAN)
prop('C10', [dict(driver='walkprops.cpp', sources=W), dict(driver='threads.cpp', sources=W, flavour='tsan')],
     'Two to five instances of one FMU with random histories, first alone, then interleaved at random in one thread (run 1, AddressSanitizer), and two to four threads with one instance each, some of which change their thread between calls '
     '(run 2, ThreadSanitizer); answers and log messages are compared with those obtained alone. An evaluation is one compared instance. Distinct: interleavings, and thread histories.',
     technique='ThreadSanitizer on concurrent instances, and solo-versus-interleaved comparison of answers and messages',
     note='Sampled interleavings; the thread scheduler decides what overlaps, but data races are detected from the happens-before order. ' + TWIN + ASAN)
R = W + ['ref.cpp']
REF = 'Trusts the reference equations in harness/ref.cpp and compares with a tolerance of 1e-7; cases in which rounding alone decides an event are abandoned. '
CSM = ['BouncingBall', 'Dahlquist', 'Feedthrough', 'Resource', 'Roberts', 'StateSpace', 'Stair', 'VanDerPol']
STEPS = ('Random start values, start and stop times, then up to 28 (60 for C15) steps of single internal steps, multiples, fractions, sub-step sizes and returns to the grid, with parameter and '
         'input changes in between, for every model, FMI version and combination of early return and Event Mode. ')
prop('C11', [dict(driver='sim.cpp', sources=R, models=CSM)],
     STEPS + 'At the end one step that must be refused. One sequence in fifty is a long simulation of more than 65536 internal steps. An evaluation is one judged step. Distinct: (model, flags, number of internal steps, position in the grid, events) and kinds of refused steps.',
     technique='runtime monitor of the step contract over random step sequences, under sanitizers',
     note='Sampled step sequences with |t| below about 50, and long simulations of up to 80000 internal steps. Trusts the documented tolerance of 1e-5. ' + ASAN)
prop('C12', [dict(driver='sim.cpp', sources=R, models=CSM)],
     STEPS + 'After every step all variables are compared with the reference at the reported grid time. An evaluation is one step. Distinct: as C11.',
     technique='reference-model monitor (explicit Euler on the internal grid) over random step sequences, under sanitizers',
     note='Sampled. ' + REF + ASAN)
prop('C14', [dict(driver='sim.cpp', sources=R, models=CSM)],
     'For each model with both interface types: the same random settings in up to four forms (FMI 2/3, Model Exchange/Co-Simulation); the Model Exchange forms are integrated by the driver with the '
     'internal step; all variables, event counts and termination are compared at every communication point. An evaluation is one compared point. Distinct: (model, interval, events so far, position).',
     technique='differential monitor: four forms of each model driven in lockstep, under sanitizers',
     note='Sampled settings. Agreement only, no reference model. Tolerance 1e-7. ' + ASAN)
prop('C15', [dict(driver='sim.cpp', sources=R, models=['BouncingBall'])],
     STEPS + 'Also Model Exchange with arbitrary importer step sizes, repeated and uncalled-for event updates, and starts below the floor. An evaluation is one step or event update. '
     'Distinct: (form, flags, internal steps, position, event, number of bounces, rest).',
     technique='reference-model monitor of every impact, in co-simulation and Model Exchange, under sanitizers',
     note='Sampled. ' + REF + ASAN)
prop('C16', [dict(driver='sim.cpp', sources=R, models=['Stair'])],
     STEPS + 'Also Model Exchange with arbitrary times before and at the announced events, which are met exactly, up to rounding or up to 1e-6, and repeated event updates. An evaluation is one step or event update. '
     'Distinct: (form, flags, internal steps, position, event, counter).',
     technique='reference-model monitor of the counter, announced event times and termination, under sanitizers',
     note='Sampled. Start times on the internal grid below one. ' + REF + ASAN)
prop('C17', [dict(driver='sim.cpp', sources=R, vers=(3,), models=CSM)],
     STEPS + 'Flags, reached time and continuation point of every step are compared with the events of the reference. An evaluation is one step. Distinct: (model, flags, internal steps, event position, result flags).',
     technique='reference-model monitor of early return and event flags, under sanitizers',
     note='Sampled. With Event Mode but no early return, termination may be reported up to one internal step later. ' + REF + ASAN)
prop('C24', [dict(driver='sim.cpp', sources=R, vers=(3,), models=CSM)],
     STEPS + 'The callback checks time, flags and environment, reads all variables and in a third of the cases requests an early return. An evaluation is one step. Distinct: as C17.',
     technique='callback monitor compared with the reference model in every internal step, under sanitizers',
     note='Sampled. ' + REF + ASAN)
prop('C04', [dict(driver='access.cpp', sources=W)],
     'Random groups (1-6 references, with repetitions) of settable variables of one type with random and extreme values through all modes, steps and reconfigurations; after each call every variable '
     'is compared with the last accepted value, and Feedthrough outputs with their inputs. An evaluation is one comparison of all variables or one grouped read. Distinct: (model, mode, variable, position in the '
     'call, group size) and (variable, value).',
     technique='shadow-value monitor under sanitizers',
     note='Sampled values and histories; signaling NaNs are left out. ' + ASAN)
prop('C05', [dict(driver='access.cpp', sources=W)],
     'In every mode of every kind of instance: requests with one defect each (unknown reference, other type, no references, no values, wrong count) inserted at a random position of an otherwise valid request, '
     'with heap buffers of exactly the announced size; and valid requests. An evaluation is one request. Distinct: (model, kind, mode, type, get/set, defect, size).',
     technique='monitor of rejection, report and absence of effects under AddressSanitizer',
     note='Sampled requests. Clock-typed requests are judged by C20 only. ' + ASAN)
prop('C06', [dict(driver='access.cpp', sources=W)],
     'Every variable in every mode of every kind of instance, set to legal and illegal values around each documented limit. An evaluation is one set. Distinct: (model, kind, mode, variable, outcome, value).',
     technique='exhaustive monitor of settable variables per mode and of value limits, under sanitizers',
     note='All combinations of variable and mode that the property decides; combinations the standard leaves open are not judged. ' + ASAN)
EQ = 'Trusts the equations in harness/ref.cpp; compares with a tolerance of 1e-11 of the terms involved. '
prop('C13', [dict(driver='eval.cpp', sources=R)],
     'Random parameters, start values, states and times, also at and around the decision points of the event indicators; evaluations in random order and number in Initialization, Event and '
     'Continuous-Time Mode, and one request with a wrong count at the end. An evaluation is one request. Distinct: (model, mode, quantity, requests before at this point) and (quantity, expected values).',
     technique='reference-model monitor of every evaluation, and bitwise repeatability, under sanitizers',
     note='Sampled points and orders. ' + EQ + ASAN)
prop('C18', [dict(driver='eval.cpp', sources=R)],
     'Random points; random lists of 0-4 unknowns and knowns with repetitions and random seeds in every mode that permits them; models without derivatives and wrong lengths must be refused; output '
     'derivatives of the bouncing ball. An evaluation is one request. Distinct: (model, kind, mode, function, list lengths, first variables).',
     technique='reference-model monitor of Jacobian products and comparison with numerical differentiation of the running model, under sanitizers',
     note='Sampled points. Judged are derivatives, residual and event indicators with respect to states and (in Initialization Mode) mu, as declared in the model description. ' + EQ + ASAN)
prop('C19', [dict(driver='eval.cpp', sources=R, vers=(3,), models=['StateSpace'])],
     'All 216 combinations of dimensions for every kind of instance, random matrices, then a simulation with random reconfigurations, restores and a reset or a request of wrong size. After every operation all '
     'arrays are compared element by element. An evaluation is one comparison of all arrays. Distinct: (situation, kind, mode, dimensions).',
     technique='reference-model monitor of all array variables over all dimensions and random reconfigurations, under sanitizers',
     note='Exhaustive in the first configuration, sampled in the later ones. Values of arrays whose shape changes in a reconfiguration are taken over from the instance. ' + EQ + ASAN)
MEMCHECK = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no', '--num-callers=12']
prop('C03', [dict(driver='fuzz.cpp', sources=W), dict(driver='fuzz.cpp', sources=W, flavour='plain', wrapper=MEMCHECK, extra='light')],
     'Up to three instances per case with 100-200 operations: about half legal calls, the rest arbitrary calls with unknown references, wrong counts, missing arrays, over-long strings, extreme numbers, foreign sizes, '
     'calls in wrong modes and without instance; all buffers are heap blocks of exactly the announced size. An evaluation is one history. Distinct: histories. '
     'A smaller number of histories is repeated under memcheck, which also sees uninitialised memory.',
     fortify=True,
     technique='AddressSanitizer, UndefinedBehaviorSanitizer, memcheck and a monitor of copies within the instance over random call histories, with hang watchdog',
     note='Sampled histories. Times of co-simulation instances stay below 1000; missing pointers are only tried for the arrays of get and set calls and for instances. Red-zone tools do not see overruns between members of one object; there, only memcpy, memmove, memset, strcpy and strncpy with arrays of known size and subscripts are watched.')


def mock(work, flavour):
    """A recording stand-in for an FMU binary."""
    so = os.path.join(work, 'mock.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so, os.path.join(HARNESS, 'mock.c')], check=True)
    return so


IMP = dict(driver='importer.cpp', models=[], repo_sources=['src/FMI.c', 'src/FMI2.c', 'src/FMI3.c'], cflags=['-I', os.path.join(REPO, 'include')], prepare=mock)
prop('C26', [dict(driver='fuzz.cpp', sources=W, cflags=['-DWITH_LSAN'], leaks=1), dict(IMP, cflags=IMP['cflags'] + ['-DWITH_LSAN'], leaks=1)],
     'Histories as in C03 on two instances plus failed instantiations; everything that was created is freed, then LeakSanitizer looks for lost memory and the open files are counted; every fourth case repeats one '
     'history eight times and watches the memory in use; the same for sessions with the import library, including libraries that lack a function. An evaluation is one case. Distinct: cases.',
     technique='LeakSanitizer after every history, open-file count and memory-in-use monitor over repeated cycles',
     note='Sampled histories. ' + ASAN)
CLK = dict(driver='clocks.cpp', models=['Clocks'], vers=(3,))
prop('C20', [dict(CLK), dict(CLK, flavour='plain'), dict(CLK, flavour='o0', extra='slow')],
     'Partition 2 preempted by 1, and partition 3 by 1, by 2, and by 2 that is itself preempted by 1, at every machine instruction outside locked sections (by single-stepping), repeated for three builds of the FMU '
     '(sanitized, optimized, unoptimized); activations preempted at random instructions many times; random sequences of activations, inputs, clock reads and interval reads, single, in lists, malformed and after termination, without preemption, also without lock callbacks and with reads '
     'inside the clock-update callback. An evaluation is one judged activation. Distinct: (partition, preempting partition, instruction) and (partition, time, ticks modulo 5, interval state).',
     technique='single-stepping monitor that preempts partitions at every instruction, and a reference model of the partitions, under sanitizers',
     note='Exhaustive over single preemption points of the compiled code on this machine; sampled for several preemptions. The output clock is judged only without preemption. The loop of partition 3 is optimized away, or skipped in the unoptimized build.')
MISC = dict(driver='misc.cpp', sources=W)
prop('C21', [dict(MISC)],
     'Random combinations of names (empty, missing, long, with format characters), tokens (altered in one character, truncated, extended, of other models, missing), interface types, flags, callbacks and resource paths for '
     'every FMU; the strings are wiped after the call. An evaluation is one instantiation. Distinct: (model, version, type, which conditions hold, flags).',
     technique='runtime monitor of instantiation results and messages against the stated conditions, under sanitizers',
     note='Sampled combinations. ' + ASAN)
prop('C22', [dict(MISC)],
     'Histories of legal and arbitrary calls in which logging is switched at random; every call is paired with the messages it produced. An evaluation is one judged call. Distinct: (model, mode, operation, failed, '
     'errors switched on) and (model, length of rejected category).',
     technique='runtime monitor that pairs every call with its log messages, under sanitizers',
     note='Sampled histories. No model logs events, so only the silence of that category is observed. Clock functions of models without clocks and unimplemented functions may fail without message. ' + ASAN)
prop('C23', [dict(MISC, models=['Resource'])],
     'Directories with odd, random and long names below a scratch directory, file contents, both URI forms with varying percent-encoding (FMI 2), plain paths (FMI 3), missing files, dangling links, wrong schemes, '
     'over-long and missing locations, other working directories; y is read in every mode. An evaluation is one read. Distinct: (version, type, kind of name, kind of content, kind of location, length).',
     technique='runtime monitor of the value, status and messages against the file on disk, with sanitizers and an open-file count',
     note='Sampled names. Locations near or above 4096 characters are only judged for safety or, without file, for the error. ' + ASAN)
import describe  # noqa: E402
prop('C25', [dict(driver='describe.cpp', sources=W, prepare=describe.table)],
     'For every FMU: every declared variable is read with its declared type and size and with other types, compared with its start value, and set; interface types, capabilities, states, derivatives, event indicators, '
     'nominals, states changed by events, internal steps, early returns, variables that change between events, log categories, dependencies of unknowns during initialization and simulation (also linear ones, and of the DAE formulation), and the clocks of variables are compared with what the binary does; the shipped results are simulated again. An evaluation is one comparison. Distinct: (model, version, item).',
     technique='runtime comparison of the parsed model descriptions with the observed behaviour of the binaries, under sanitizers',
     note='Exhaustive over the declared items; values to set are sampled. Units are not compared. ' + ASAN)
prop('C27', [dict(driver='oom.cpp', sources=W, leaks=1), dict(IMP, cflags=IMP['cflags'] + ['-DWITH_LSAN', '-DWITH_OOM'], leaks=1)],
     'Scripted histories (instantiate, log, save, serialize, step, fail, reset, repeat) per model, version and interface type: each memory request (and opening of a file) made by the FMU fails once alone and once with all later ones; '
     'the outcome of every call is compared with the undisturbed run, nothing may be printed, then the instance is reset and compared with a new one; arbitrary histories with random failures; the same for sessions with the import library; random requests of its own memory functions. An evaluation is one judged call. '
     'Distinct: (model, version, type, failed request, alone or with all later ones) and (call, reported or survived).',
     technique='interposed failing allocator with AddressSanitizer and LeakSanitizer, runtime comparison with the undisturbed run',
     note='Every request of each scripted history is enumerated; the histories themselves are sampled. ' + ASAN, level='fault_enumeration')

prop('C28', [IMP],
     'Sessions of 40 random calls of the import library per FMI version and interface type, with random arguments, array lengths, statuses and results of a recording stand-in for the FMU, call log on and off; '
     'libraries that lack each single function; missing and broken libraries; failing instantiations; messages of the FMU. An evaluation is one judged call. Distinct: (function, status, log on or off).',
     technique='runtime monitor of the calls received by a recording stand-in for the FMU, import library under AddressSanitizer and UndefinedBehaviorSanitizer',
     note='Every function, every returned status and every missing function is enumerated; arguments are sampled. A tracked mode is judged only after calls that succeeded. ' + ASAN)
prop('C29', [IMP],
     'As C28 with the call log on and message lengths drawn around the powers of two from 1 KB to 16 KB: each message is compared with an independent rendering of the call. '
     'An evaluation is one message. Distinct: (function, length of the message).',
     technique='runtime comparison of every logged call with an independent rendering, import library under AddressSanitizer and UndefinedBehaviorSanitizer',
     note='Sampled. Arrays that the import library logs by address are compared by address. ' + ASAN)
prop('C30', [dict(driver='paths.cpp', models=[], repo_sources=['src/FMI.c'], cflags=['-I', os.path.join(REPO, 'include')])],
     'Every single byte in five positions with every buffer size from 0 to 59, the empty path, random paths of up to 5000 bytes of four kinds with every buffer size around the exact fit. Inputs and outputs lie in heap blocks of '
     'exactly the announced size. An evaluation is one call. Distinct: (length of the path, length of the result or rejection).',
     technique='runtime comparison with an independent decoder, AddressSanitizer with exact-size buffers',
     note='Exhaustive over single bytes and small buffers, sampled beyond. A URI that fits with fewer than three characters to spare may be rejected. Linux x86-64 only. ' + ASAN)


def sources(work, flavour):
    """Compiles every FMU from the sources it carries, as its description says; <name>.so.err tells why that failed."""
    hdr = os.path.join(work, 'fmiheaders')
    os.makedirs(hdr, exist_ok=True)
    for h in glob.glob(os.path.join(REPO, 'include', 'fmi[23]*.h')):
        shutil.copy(h, hdr)
    jobs = []
    for ver, models in ((2, MODELS2), (3, MODELS3)):
        for m in models:
            fmu = os.path.join(work, 'fmu%d-%s' % (ver, flavour), 'temp', m)
            try:
                if ver == 3:
                    b = ET.parse(os.path.join(fmu, 'sources', 'buildDescription.xml')).getroot().find('BuildConfiguration')
                    sets = [([f.get('name') for f in s.findall('SourceFile')],
                             ['-D%s=%s' % (d.get('name'), d.get('value')) for d in s.findall('PreprocessorDefinition')]) for s in b.findall('SourceFileSet')]
                else:
                    x = ET.parse(os.path.join(fmu, 'modelDescription.xml')).getroot()
                    names = {tuple(f.get('name') for f in x.find(t).find('SourceFiles').findall('File')) for t in ('ModelExchange', 'CoSimulation')}
                    sets = [(list(n), []) for n in names]
                    if len(sets) != 1:
                        sets = None
            except Exception as e:
                sets = None
            for variant, cc in (('gcc', ['gcc', '-O1', '-ftrivial-auto-var-init=pattern']), ('gcc-O3', ['gcc', '-O3']), ('clang', ['clang', '-O2'] if shutil.which('clang') else ['gcc', '-O2'])):
                d = os.path.join(work, 'src', variant, 'fmi%d' % ver)
                os.makedirs(d, exist_ok=True)
                jobs.append((sets, cc, os.path.join(fmu, 'sources'), hdr, os.path.join(d, m + '.so')))

    def one(job):
        sets, cc, src, hdr, so = job
        if not sets:
            open(so + '.err', 'w').write('is not described')
            return
        objs = []
        for k, (files, defs) in enumerate(sets):
            for j, f in enumerate(files):
                o = '%s.%d.%d.o' % (so, k, j)
                objs.append(o)
                r = subprocess.run(cc + ['-w', '-std=gnu99', '-fPIC', '-I', src, '-I', hdr] + defs + ['-c', os.path.join(src, f), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    open(so + '.err', 'w').write('does not compile:\n' + r.stdout[:1500])
                    return
        r = subprocess.run(cc[:1] + ['-shared', '-o', so] + objs + ['-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            open(so + '.err', 'w').write('does not link:\n' + r.stdout[:1500])
            return
        for line in subprocess.run(['nm', '-D', '--defined-only', so], stdout=subprocess.PIPE, text=True).stdout.split('\n'):
            n = line.split()[-1:] or ['']
            if n[0].startswith('fmi2') or n[0].startswith('fmi3'):
                open(so + '.err', 'w').write('defines %s without the prefix' % n[0])

    with ThreadPoolExecutor(8) as e:
        list(e.map(one, jobs))
    return os.path.join(work, 'src')


prop('C31', [dict(driver='walkprops.cpp', sources=W, prepare=sources)],
     'Every FMU is compiled from the sources it carries, as its description says, by gcc -O1 with patterned uninitialized variables, gcc -O3 and clang -O2. Random histories of 4-63 legal operations with one or two '
     'arbitrary (possibly illegal) calls are made on the binary and on one of these builds; all answers and log messages are compared. An evaluation is one compared history. '
     'Distinct: (model, build, kind, operation and its result).',
     technique='differential monitor: source code form compared with the binary form over random histories, the binary under sanitizers',
     note='Sampled histories, three builds on this platform. The sources are compiled as C99 with the extensions of the compiler, because they use strdup. ' + TWIN + ASAN)
LIBRARY = dict(repo_sources=IMP['repo_sources'], cflags=IMP['cflags'] + ['-DWITH_IMPORT'])
prop('C32', [dict(driver='walkprops.cpp', sources=W, **LIBRARY), dict(driver='threads.cpp', sources=W, flavour='tsan', **LIBRARY)],
     'Random histories of 4-63 legal operations with one or two arbitrary (possibly illegal) calls, saved and serialized states, are made on every FMU directly and through the import library, call log on and off, and all '
     'answers and messages are compared; two to five imported instances are interleaved at random in one thread (run 1, AddressSanitizer), or used by two to four threads (run 2, ThreadSanitizer), and compared with the same '
     'histories made alone. An evaluation is one compared history. Distinct: (model, kind, operation and its result), interleavings, and thread histories.',
     technique='differential monitor: FMUs driven directly and through the import library, under AddressSanitizer and ThreadSanitizer',
     note='Sampled histories and interleavings; what the call log contains is judged by C29. ' + TWIN + ASAN)
prop('C33', [dict(driver='host.cpp', sources=W, flavour='plain', **LIBRARY)],
     'Histories as in C03 on two instances, and legal histories through the import library. Before and after each: working directory, umask, environment, locale, rounding mode, floating-point traps, denormal handling, signal '
     'dispositions and mask, timers, limits, priority, threads, children, open files, files in the working directory, the resources and the binary, the state of rand(), and what was printed; after each call its constant '
     'arguments. An evaluation is one history. Distinct: histories.',
     technique='monitor of the process state and of constant arguments over random call histories',
     note='Sampled histories. What the import library prints when it fails is not judged.')
