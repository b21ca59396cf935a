"""What each property's check runs."""
import check as C
import sys
C = sys.modules.get('__main__') if hasattr(sys.modules.get('__main__'), 'build_many') else C

HARNESS = {   # name -> (sources, include dirs, defines)
    'h_poly': (['h_poly.cpp'] + C.LIB + ['gf2.cpp'], ['samples/sfmtdc'], []),
    'h_search': (['h_search.cpp'] + C.LIB + ['gf2.cpp'], [], []),
    'h_equi': (['h_equi.cpp'] + C.LIB + ['gf2.cpp'], [], []),
    'h_mt': (['h_mt.cpp'], [], []),
    'h_util': (['h_util.cpp', 'gf2.cpp'], [], C.SHADEF),
    'h_indep': (['h_indep.cpp'] + C.LIB + ['gf2.cpp'], [], []),
    'h_thread': (['h_thread.cpp'] + C.LIB + ['gf2.cpp'], [], []),
    'h_samples': (['h_samples.cpp', 'samples/XORSHIFT/xorshift128.c'] + C.LIB + ['gf2.cpp'], ['.'], ['-fno-operator-names']),
    'h_sfmt': (['h_sfmt.cpp'] + C.LIB + ['gf2.cpp'], ['.'], []),
    'h_dsfmt': (['h_sfmt.cpp'] + C.LIB + ['gf2.cpp'], ['.'], ['-DDSFMT']),
    'h_simd': (['h_sfmt.cpp'] + C.LIB + ['gf2.cpp'], ['.'], ['-DP23']),
    'h_dsimd': (['h_sfmt.cpp'] + C.LIB + ['gf2.cpp'], ['.'], ['-DP23', '-DDSFMT']),
    'h_verify': (['h_verify.cpp', 'gf2.cpp'], [], []),
    'h_args': (['h_args.cpp'], [], []),
    'h_red': (['h_red.cpp'] + C.LIB + ['gf2.cpp'], [], []),
}

# the sample programs: name -> (directory below samples, sources, defines)
SF, DS = ['Annihilate.cpp'], ['Annihilate.cpp', 'printBinary.cpp']
PROGRAMS = {
    'mt1': ('MTDC', ['mt1.cpp'], []), 'mt2': ('MTDC', ['mt2.cpp'], []),
    'mtgp': ('MTGPDC', ['MTGP32dc.cpp', 'parse_opt.cpp'], []), 'mtgplin': ('MTGPDC', ['test_linearity.cpp'], []),
    'mtgpsha': ('MTGPDC', ['MTGP32dc.cpp', 'parse_opt.cpp'], C.SHADEF),
    'tiny': ('TinyMTDC', ['tinymt32dc.cpp', 'parse_opt.cpp'], []),
    'rmt': ('RMT', ['rmt64dc.cpp'], []), 'rmteq': ('RMT', ['calc_equidist.cpp'], []), 'rmtper': ('RMT', ['calc_period.cpp'], []),
    'sfmtdc': ('sfmtdc', ['sfmtdc.cpp'] + SF, []), 'sfmtfix': ('sfmtdc', ['sfmtdcfixed.cpp'] + SF, []),
    'sfmteq': ('sfmtdc', ['calc_equidist.cpp'] + SF, []), 'sfmtlin': ('sfmtdc', ['test_linearity.cpp'], []),
    'sfmtper': ('sfmtdc', ['test_period.cpp'] + SF, []), 'sfmtpar': ('sfmtdc', ['calc_parity.cpp'] + SF, ['-DMAIN']),
    'dsfmtdc': ('dSFMTdc', ['dSFMTdc.cpp', 'calc_fixpoint.cpp'] + SF, []), 'dsfmteq': ('dSFMTdc', ['calc_equidist.cpp'] + SF, []),
    'dsfmtlin': ('dSFMTdc', ['test_linearity.cpp'], []), 'dsfmtper': ('dSFMTdc', ['calc_period.cpp'] + SF, []),
    'dsfmtpar': ('dSFMTdc', ['calc_parity_main.cpp', 'calc_parity.cpp'] + DS, []),
    'dsfmtfixp': ('dSFMTdc', ['calc_fixpoint_main.cpp', 'calc_fixpoint.cpp'] + DS, []),
    'dsfmtold': ('dSFMTdc', ['make_old_format.cpp'] + DS, []),
    'x1': ('XORSHIFT', ['xorshift-1.cpp'], []), 'x2': ('XORSHIFT', ['xorshift-2.cpp'], []), 'x3': ('XORSHIFT', ['xorshift-3.cpp'], []),
    'x4': ('XORSHIFT', ['xorshift-4.cpp'], []), 'x5': ('XORSHIFT', ['xorshift-5.cpp'], []),
    'x128': ('XORSHIFT', ['xorshift128.c', 'xorshift128_main.c'], []),
}

def programs(*flavors):
    """builds the sample programs; per flavor a directory with one executable of the plain name per program"""
    import os
    plans, names = [], []
    for fl in flavors:
        for n, (d, srcs, defs) in sorted(PROGRAMS.items()):
            srcs = [os.path.join('samples', d, x) for x in srcs] + ([] if d == 'XORSHIFT' and n == 'x128' else C.LIB)
            plans.append((srcs, [os.path.join('samples', d)], ['-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS'] + defs, fl, 'prog_' + n))
            names.append((fl, n))
    exes = C.build_many(plans)
    out = []
    for fl in flavors:
        b = os.path.join(C.builddir(), 'bin.%s.%d' % (fl, os.getpid()))
        os.makedirs(b)
        for (f, n), e in zip(names, exes):
            if f == fl:
                os.link(e, os.path.join(b, n))
        out.append(b)
    return out

def with_programs(h, *flavors, nshards=None, san_all=False, extra=()):
    def run(ctx, res):
        import shutil
        srcs, incs, defs = HARNESS[h]
        exe, = C.build_many([(srcs, incs, defs, 'opt', h)])
        b = programs(*flavors)
        try:
            C.run_harness(exe, ctx.prop, ctx, res, extra=['--bin', ':'.join(b)] + list(extra), nshards=nshards, san_all=san_all)
        finally:
            for d in b:
                shutil.rmtree(d, ignore_errors=True)
    return run

def simple(h, flavor='asan', nshards=None):
    def run(ctx, res):
        srcs, incs, defs = HARNESS[h]
        exe, = C.build_many([(srcs, incs, defs, flavor, h)])
        C.run_harness(exe, ctx.sub or ctx.prop, ctx, res, nshards=nshards)
    return run

def several(*hs, flavor='asan'):
    def run(ctx, res):
        exes = C.build_many([(HARNESS[h][0], HARNESS[h][1], HARNESS[h][2], flavor, h) for h in hs])
        for e in exes:
            C.run_harness(e, ctx.sub or ctx.prop, ctx, res)
    return run

def p20(ctx, res):
    ex = C.build_many([(HARNESS['h_thread'][0], HARNESS['h_thread'][1], HARNESS['h_thread'][2], fl, 'h_thread') for fl in ('tsan', 'plain')])
    C.run_harness(ex[0], 'P20', ctx, res, nshards=3, san_all=True)
    C.run_harness(ex[1], 'P20', ctx, res, nshards=3, scale=3.0)

# the workloads of the other properties, for P21: property, harness, scale (quick ASan), scale (quick memcheck)
P21_LOADS = [('P01', 'h_poly', .25, .02), ('P02', 'h_poly', .25, .02), ('P03', 'h_poly', .3, .02), ('P04', 'h_poly', .3, .02),
             ('P05', 'h_search', .2, .01), ('P06', 'h_equi', .1, .01), ('P07', 'h_equi', .1, .01), ('P08', 'h_equi', .1, .01),
             ('P09', 'h_search', .1, .01), ('P10', 'h_search', .2, .01), ('P11', 'h_red', .2, .01), ('P12', 'h_equi', .1, .01),
             ('P12', 'h_search', .1, .01), ('P13', 'h_red', .2, .01), ('P14', 'h_mt', .2, .02), ('P15', 'h_mt', .2, .02),
             ('P16', 'h_mt', .1, .01), ('P17', 'h_util', .3, .02), ('P18', 'h_util', .2, .01), ('P19', 'h_indep', .1, .01),
             ('P22', 'h_samples', .5, .03), ('P22', 'h_sfmt', .5, .04), ('P22', 'h_dsfmt', .5, .04),
             ('P23', 'h_simd', .15, .01), ('P23', 'h_dsimd', .15, .01)]

def p21(ctx, res):
    import time
    from concurrent.futures import ThreadPoolExecutor
    hs = sorted(set(l[1] for l in P21_LOADS))
    exes = C.build_many([(HARNESS[h][0], HARNESS[h][1], HARNESS[h][2], fl, h) for h in hs for fl in ('asan', 'plain')])
    ex = dict(zip([(h, fl) for h in hs for fl in ('asan', 'plain')], exes))
    mem = lambda k: k.split(':')[0] in ('leak', 'mem', 'ub', 'uninit', 'crash')
    k = 1 if ctx.tier != 'thorough' else 4
    def load(l):
        prop, h, sa, sv = l
        r = C.Result()
        if ctx.sub and ctx.sub != prop:
            return r
        t = time.time()
        if ctx.vg != 'only':
            C.run_harness(ex[h, 'asan'], prop, ctx, r, extra=['--leaks'], san_all=True, scale=sa * k, judge=mem)
        t2 = time.time()
        if ctx.vg != 'no':
            C.run_harness(ex[h, 'plain'], prop, ctx, r, scale=sv * k, judge=mem, valgrind=True)
        if ctx.verbose:
            print('  %s %s: asan %.0f s, memcheck %.0f s' % (prop, h, t2 - t, time.time() - t2))
        return r
    with ThreadPoolExecutor(3) as pool:         # many loads end with one long case
        for r in pool.map(load, P21_LOADS):
            res.merge(r)

ORACLE = ['the oracle (harness/gf2.cpp: own F2 polynomial arithmetic, Berlekamp-Massey, elimination) is correct',
          'NTL and GMP as installed']
PROPS = {
    'P01': dict(run=simple('h_poly'), assumptions=ORACLE,
                rule='random block-companion generators (irreducible, reducible, singular), output maps (full, sparse, rank-deficient, dead bits), states incl. zero, bit positions, sizes; one evaluation = one minpoly call judged by own Berlekamp-Massey on 4n+80 recorded outputs; non-trivial: minimal polynomial of degree > 0, distinct by (size, bit, polynomial)'),
    'P02': dict(run=simple('h_poly'), assumptions=ORACLE,
                rule='every polynomial of degree 2..12 (14 thorough) plus constructed irreducibles whose order misses chosen prime factors, large Mersenne degrees, exponents around all Mersenne exponents; non-trivial: irreducible polynomial, distinct by polynomial and expectation'),
    'P03': dict(run=simple('h_poly'), assumptions=['GMP/NTL integer arithmetic and 40-round Miller-Rabin'],
                rule='every entry of all 17 published lists (one evaluation per entry) and primitivity decisions on constructed elements whose order misses exactly one prime; distinct by table entry / polynomial'),
    'P04': dict(run=simple('h_poly'), assumptions=ORACLE,
                rule='products of known irreducible factors and all polynomials below degree 2d for d<=5; non-trivial: degree at least d; distinct by (d, polynomial)'),
    'P05': dict(run=simple('h_search'), assumptions=ORACLE, rule='pools of candidate parameters (primitive, irreducible non-primitive, reducible, degenerate outputs), random streams, budgets incl. 0 and repeated start calls; one evaluation = one start call whose logged candidates are replayed through the oracle; non-trivial: found, or more than one candidate examined; distinct by history prefix'),
    'P09': dict(run=simple('h_search'), assumptions=ORACLE, rule='combined searches, each run verbose and silent, with scripted and real tempering stages; one evaluation = one completed search judged on the generator as left; all non-trivial, distinct by parameters and outcome'),
    'P10': dict(run=simple('h_search'), assumptions=ORACLE, rule='as P05 with reducible candidates (factor just missing, too large, split)'),
    'P06': dict(run=simple('h_equi'), assumptions=ORACLE, rule='irreducible recurrences of degree 1..100 and 127/521/607, output maps incl. dead/duplicated bits, tempering, reversed outputs, all accuracies; one evaluation = both forms of the analysis compared with the rank oracle; non-trivial: accuracy > 1 and k(1) > 0; distinct by generator and k values'),
    'P07': dict(run=simple('h_equi'), assumptions=ORACLE, rule='18 instantiations of the block-wise search on random generators; one evaluation = one block of one parameter, all its patterns re-evaluated by the oracle; non-trivial: some pattern of the block is worse than the best'),
    'P08': dict(run=simple('h_equi'), assumptions=ORACLE, rule='one- and two-parameter bit-wise searches; one evaluation = one search compared with a breadth-first oracle over all survivors'),
    'P12': dict(run=several('h_equi', 'h_search'), assumptions=ORACLE, rule='reducible recurrences with one primitive factor of Mersenne degree and random small cofactors; one evaluation = one analysis (both forms) or one completed combined search; non-trivial: the cofactor is not constant'),
    'P11': dict(run=simple('h_red'), assumptions=ORACLE, rule='invertible block-companion generators, arbitrary polynomials (0, constants, monomials, the characteristic polynomial and its cofactors); one evaluation = one annihilation compared with direct stepping, or one collected characteristic polynomial; non-trivial: polynomial of positive degree'),
    'P13': dict(run=simple('h_red'), assumptions=ORACLE, rule='reducible generators with a simple primitive factor and 0..word-1 extra bits, random and projecting certification words; one evaluation = one vector judged against the image of f(T) on a full basis plus 60 states; non-trivial: at least one extra bit'),
    'P14': dict(run=simple('h_mt'), assumptions=['reference MT19937 in harness/h_mt.cpp (published algorithm, known answers) and std::mt19937'],
                rule='histories of construction, reseeding in every public form, copies and mixed draws compared draw by draw with a reference, integer seeds also with std::mt19937, and long streams; one evaluation = one history or seed; all non-trivial, distinct by history'),
    'P15': dict(run=simple('h_mt'), assumptions=['reference MT19937-64 in harness/h_mt.cpp (published algorithm, known answers) and std::mt19937_64'],
                rule='as P14 with the 64-bit generator'),
    'P16': dict(run=simple('h_mt'), assumptions=['the executable counter model of harness/h_mt.cpp'],
                rule='complete enumerations (all 8-bit seeds, 16-bit and larger samples) and histories of draws in all forms, reseeds and copies, for 8/16/32/64-bit and signed counters, against a counter model; one evaluation = one history'),
    'P17': dict(run=simple('h_util'), assumptions=ORACLE,
                rule='naive definitions; all 16-bit words, structured and random 32/64-bit words, ranges, tables with dirty output arrays, polynomials; one evaluation = one argument; non-trivial: non-zero argument'),
    'P18': dict(run=simple('h_util'), assumptions=ORACLE,
                rule='linear generators and generators with one planted superposition failure (kind, step 0..99, bit) judged by direct observation over the first 100 outputs of the two states the tester used; non-trivial: linear, or visibly failing'),
    'P19': dict(run=simple('h_indep'), assumptions=['the work of a task is deterministic given its seed (all harness inputs are)'],
                rule='16 kinds of library work on objects of their own, cut into steps: run alone, alone again, interleaved step by step, and nested inside the generator calls of another one; every observable (results, generator state) must be equal; plus every analysis in any order on one generator; one evaluation = one interleaving or analysis'),
    'P20': dict(run=p20, technique='ThreadSanitizer and sequential-equivalence monitor over concurrent runs with injected scheduling noise',
                assumptions=['NTL as installed is thread safe (built with NTL_THREADS) and not instrumented', 'ThreadSanitizer reports races of the executed pairs of accesses'],
                rule='2..8 threads each running 2..5 pieces of work on objects of their own (often the same kind, or the very same work), with yields and sleeps injected at generator calls; results compared with the sequential run, races reported by TSan; distinct: pairs of kinds of work observed overlapping in time'),
    'P22': dict(run=several('h_samples', 'h_sfmt', 'h_dsfmt'), assumptions=ORACLE + ['std::mt19937'],
                rule='the generator classes of the sample programs with known full-period and random parameters: random histories of seeding, zeroing, stepping, adding, cloning, checked output by output; references running from the printed parameters; elimination over more states than the announced dimension; all single-bit states; parameters set up from extreme streams against their ranges; seeds differing in one bit; one evaluation = one history, parameter set or elimination'),
    'P23': dict(run=several('h_simd', 'h_dsimd'), assumptions=ORACLE,
                rule='128-bit words against 128-bit integers (all shifts and positions); equidistribution of parameters found by the creators, as 128/64/52/32-bit streams from both ends, against the rank of the observed windows over the maximal-period component for every start position; one evaluation = one word or one analysis'),
    'P24': dict(run=with_programs('h_verify', 'opt', nshards=16), technique='runtime monitoring: the sample programs run as processes under generated command lines; an offline checker recomputes everything they print from the printed parameters alone',
                assumptions=ORACLE[:1] + ['the recurrences written in harness/h_verify.cpp are those of the generators'],
                rule='creator command lines (seeds, identifiers at and between the bounds, exponents, counts, files, verbose, filters) and the analysis programs on what they printed, all sample programs; one evaluation = one printed line (period, identifier, defect, weight, polynomial, certification vector, fixed point recomputed) or one set of analyses; enumerations compared with the complete list; all non-trivial, distinct by line'),
    'P25': dict(run=with_programs('h_args', 'asan', 'plain', nshards=16, san_all=True), technique='AddressSanitizer, UndefinedBehaviorSanitizer and memcheck on the sample programs under generated argument vectors, with a monitor of status, usage message and printed parameters',
                assumptions=['the lists of accepted exponents, ranges and field counts in harness/h_args.cpp are the documented ones', 'the sanitizers and valgrind detect the errors of the executed paths'],
                rule='argument vectors: valid ones in all option forms and one flaw each (exponent, identifier, option value, unknown option, missing operand or argument, unwritable file, malformed, short or out-of-range parameter strings, junk), and complete runs; one evaluation = one process; all non-trivial, distinct by program and arguments'),
    'P21': dict(run=p21, technique='AddressSanitizer, UndefinedBehaviorSanitizer, allocation-growth monitor and memcheck over all monitored workloads',
                assumptions=['the sanitizers and valgrind detect the errors of the executed paths', 'growth: a leak shows as blocks that stay alive after each of four identical repetitions'],
                rule='the workloads of P01-P19, P22 and P23 on smaller scales (every case four times with every allocation tracked; also under memcheck for uninitialised values); one evaluation = one evaluation of those workloads'),
}
