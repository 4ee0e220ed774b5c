"""What each property's check covers: harness sources, build variants and bounds."""
CELL, ND, ASRT, DBG, MT = 'INTP_CELL_LAYOUT', 'INTP_PERIODIC_NO_DUMMY_POINT', 'INTP_ENABLE_ASSERTION', 'INTP_DEBUG', 'INTP_MULTITHREAD'
VARIANTS = {
    'd17': ('c++17', []), 'c17': ('c++17', [CELL]), 'n17': ('c++17', [ND]), 'cn17': ('c++17', [CELL, ND]),
    'd11': ('c++11', []), 'c11': ('c++11', [CELL]), 'n11': ('c++11', [ND]), 'cn11': ('c++11', [CELL, ND]),
    'd14': ('c++14', []), 'cn14': ('c++14', [CELL, ND]),
    'd20': ('c++20', []), 'cn20': ('c++20', [CELL, ND]),
    'a17': ('c++17', [ASRT]), 'ca17': ('c++17', [CELL, ASRT]), 'cna17': ('c++17', [CELL, ND, ASRT]), 'na11': ('c++11', [ND, ASRT]), 'a11': ('c++11', [ASRT]),
    'g20': ('c++20', [CELL, ND, DBG]),
}
FOUR = ['d17', 'c17', 'n17', 'cn17']
BROAD = ['d17', 'c17', 'n17', 'cn17', 'd11', 'cn11']
ALLV = BROAD + ['c11', 'n11', 'd14', 'cn14', 'd20', 'cn20', 'a17', 'g20']
ASSUME = [
    'values are exact real numbers (rounding is outside the claim) unless the job runs in floating point mode',
    'clang 18 -O1 IR of the headers with libstdc++ 13; allocation fails only above 2^40 bytes',
    'libm, operator new/delete, exception and string runtime functions follow their specification',
]
PROPS = {}
def P(pid, bounds, units, **kw): PROPS[pid] = dict(bounds=bounds, units=units, **kw)

P('C01', 'orders 0-9; 1-D: every n from order+1 to 2*order+8, and single larger ones (order 0-1: 300, order 2-3: 130-140, order 4: 67, order 5: 40; thorough every n from 40 to 60, and 100), data fully symbolic, evenly spaced / listed / irregular concrete coordinates, one symbolic node, symbolic origin and spacing; 2-D, 3-D, 4-D small meshes, all periodicity combinations; float types',
  [dict(src='c01.cpp', slices=[0, 1, 2, 3], variants=BROAD, thorough=ALLV)])
P('C02', 'orders 0-8; 1-D: every n from order+1 to 2*order+8, 31-34 and single ones up to 130 (thorough 40-44); every real coordinate inside and outside the mesh; polynomial coefficients symbolic; evenly spaced / listed / irregular coordinates, one symbolic node, symbolic origin and spacing; 2-D and 3-D with all periodicity combinations; float types',
  [dict(src='c02.cpp', slices=[0, 1, 2], variants=BROAD, thorough=ALLV)])
P('C03', 'orders 0-7; 1-D: every n from order+1 to 2*order+7 and single ones up to 40 (thorough 26-28), data and coordinate fully symbolic, compared with a reference built from the documented breakpoints; 2-D, 3-D small meshes; characterisation by pieces for symbolic node positions',
  [dict(src='c03.cpp', slices=[0, 1, 2], variants=BROAD, thorough=ALLV)])
P('C04', 'orders 0-7; 1-D: n from order+1 to order+5 and single ones up to 35 (thorough 18), 2-D and 3-D small meshes; every derivative order 0..order+2 per dimension and every mixed order in 2-D (3-D: 0..1, thorough 0..2); data symbolic, every coordinate of every piece, inside and outside the mesh; all overloads; evenly spaced, irregular, symbolic spacing, symbolic nodes for orders 1-2; float types',
  [dict(src='c04.cpp', slices=[0, 1, 2], variants=FOUR + ['d11'], thorough=ALLV)])
P('C05', 'orders 0-6; any whole number of periods (unbounded integer), every coordinate of the base period, data symbolic; 1-D n from order+1 to order+4 and single ones up to 66 (thorough every n to 18); values and every derivative order, checked and unchecked, through function and spline; symbolic spacing and nodes; 2-D, 3-D with periodic and mixed dimensions; float types',
  [dict(src='c05.cpp', slices=[0, 1], variants=FOUR + ['d11'], thorough=ALLV)])
P('C06', 'orders 0-7; every real coordinate; 1-D n from order+1 to order+6 and single ones up to 66 (thorough every n from 16 to 24), 2-D and 3-D small meshes with all periodicity combinations; every overload; plus IEEE jobs: every double coordinate except NaN, ten concrete ranges, and the reported range for every pair of double ends (n = order+2, orders 1-3)',
  [dict(src='c06.cpp', slices=[0, 1], variants=FOUR + ['d11'], thorough=ALLV),
   dict(src='c06.cpp', tag='ieee', slices=[9], variants=['d17', 'cn11'], thorough=FOUR + ['d11', 'cn11'], args=['--mode', 'fp'])])
P('C07', 'orders 0-8; every real coordinate of the end pieces and beyond, data symbolic; values and derivatives through function and spline; 1-D n from order+1 to order+6 and single ones up to 300 (thorough every n from 20 to 30), symbolic spacing and nodes; 2-D, 3-D including corners where two coordinates are outside; float types',
  [dict(src='c07.cpp', slices=[0, 1], variants=FOUR + ['d11'], thorough=ALLV)])
P('C08', 'orders 0-5, IEEE arithmetic: every double (and float) coordinate including NaN and infinities, every hint from order to the last interior knot, every derivative order up to order+1; 1-D n from order+1 to order+3 (thorough order+9), construction for every n to 2*order+10 (thorough 70); 2-D and 3-D small meshes, one coordinate symbolic at a time; evaluation proxies. Every load, store, allocation, free and use of uninitialised data is checked',
  [dict(src='c08.cpp', slices=[0, 1, 2], variants=['d17', 'c17', 'cn17', 'n11', 'cn11'], thorough=ALLV, args=['--mode', 'fp'])])
P('C12', 'one to four dimensions; index mapping: symbolic index tuples for 25 shapes up to 10^6 elements and for symbolic extents (up to 2^12 per dimension in 2-D, 2^8 in 3-D, 2^4 in 4-D); inverse mapping: symbolic positions; element access and line iteration on meshes up to 24 elements with symbolic contents, every element, line, offset pair; lines of longer meshes (up to 4096 points per line, 2-D and 3-D) with symbolic line numbers and offsets; construction, conversion and resize',
  [dict(src='c12.cpp', variants=['d17', 'd11', 'a17', 'd20'], thorough=['d17', 'd11', 'd14', 'd20', 'a17', 'a11', 'g20'])])
P('C13', 'all entries symbolic up to 4x4 (thorough 5x5), one symbolic row up to 6x6 (thorough 9x9), concrete diagonally dominant matrices up to 21x21; band widths 0-4 (thorough 6) independently; cyclic matrices with dimension at least lower+upper+1; right-hand side fully symbolic; pivots assumed nonzero',
  [dict(src='c13.cpp', variants=['d17', 'd11', 'a17'], thorough=['d17', 'd11', 'd14', 'd20', 'a17', 'a11'])], assume=['no pivot is zero'])
P('C14', 'dimensions 1-10 (thorough 15), band widths 0-5 (thorough 6) independently, all elements and vectors symbolic; cyclic matrices with dimension at least lower+upper+1',
  [dict(src='c14.cpp', variants=['d17', 'd11', 'a17'], thorough=['d17', 'd11', 'd14', 'd20', 'a17', 'a11'])])
REF = ('ref.cpp', 'c++17', ['intp=intp_ref', 'H=H_ref'])
VARIANTS.update({'s17': ('c++17', ['INTP_STACK_ALLOCATOR']), 'cs11': ('c++11', [CELL, 'INTP_STACK_ALLOCATOR']), 'ng11': ('c++11', [ND, DBG])})
P('C09', 'orders 0-5 in 1-D (n from order+1 to order+4 and single ones from 21 to 40; thorough 2*order+6), orders 1-3 in 2-D, orders 1-2 in 3-D, all periodicity combinations; each configuration against the default configuration (c++17, no macros): cell layout, implicit periodic point, assertions, debug, stack allocator macro, C++11/14/17/20; data, repeated points and coordinates symbolic (any period), all derivative orders up to order+1',
  [dict(src='c09.cpp', slices=[0, 1], parts=[REF], variants=['c17', 'n17', 'cn17', 'd11', 'cn11', 'd20', 'a17', 'g20'], thorough=['c17', 'n17', 'cn17', 'd11', 'c11', 'n11', 'cn11', 'd14', 'cn14', 'd20', 'cn20', 'a17', 'ca17', 'cna17', 'na11', 'a11', 'g20', 's17', 'cs11', 'ng11'])])
P('C10', 'orders 0-5 in 1-D (n up to 18; thorough 20), 1-3 in 2-D, order 1 in 3-D (thorough 2), evenly spaced and irregular coordinates, periodic and aperiodic; every interpolate overload (const template, expiring template, into an empty / used / differently shaped function), up to four functions from one template, expiring and later overwritten data, one-dimensional conveniences with default ranges; evaluation proxies at every real coordinate; data symbolic',
  [dict(src='c10.cpp', slices=[0, 1], variants=BROAD, thorough=ALLV)])
P('C11', 'orders 0-4 in 2-D (thorough 5), orders 1-2 in 3-D (product thorough 3), order 1 in 4-D; all axis permutations in 2-D and 3-D, two in 4-D; unequal extents from order+1 (one axis up to 12; thorough 34), evenly spaced and irregular axes mixed, periodicity combinations; symbolic data, every piece along one axis at a time; value, pure and mixed derivatives; float types',
  [dict(src='c11.cpp', slices=[0, 1, 2], variants=FOUR + ['d11'], thorough=ALLV)])
P('C15', 'orders 0-5 (6 for lists); 1-D n from order+1 to order+5 (thorough 2*order+9) and single ones from 21 to 66; end points against listed coordinates with concrete and with symbolic origin and spacing; any symbolic positive scale and any offset for evenly spaced and irregular axes; 2-D orders 1-2 (thorough 3); data symbolic, every coordinate (any period), derivatives up to the order; float types',
  [dict(src='c15.cpp', slices=[0, 1], variants=FOUR + ['d11'], thorough=ALLV)])
P('C19', 'orders 0-5 in 1-D with 1-4 pieces (and 12, 17, 20 for orders 3, 2, 1; thorough 9), clamped, unclamped, evenly spaced, doubled interior knots, periodic, and fully symbolic knots (orders 1-3); orders 1-3 in 2-D, order 1 in 3-D (thorough 2); control points symbolic, every coordinate of the range, every hint within the interior knots (2-D, 3-D: first and last), every derivative order up to order+1; basis functions of every order up to the spline order',
  [dict(src='c19.cpp', slices=[0, 1], variants=FOUR + ['d11', 'cn11'], thorough=ALLV)])
P('C20', 'orders 0-5 in 1-D (n from order+1 to order+4 and single ones from 20 to 66; thorough 2*order+8), 1-3 in 2-D, order 1 in 3-D (thorough 2); both data sets and both factors symbolic, every piece, all derivative orders; two-component vectors with component-wise arithmetic (values and derivatives) and with scalar multiplication only (values); float values, float coordinates, both, against the double formulas',
  [dict(src='c20.cpp', fallback=True, slices=[0, 1], variants=FOUR + ['d11', 'cn11'], thorough=ALLV)])
P('C21', 'orders 0-5 in 1-D, 1-3 in 2-D, order 1 in 3-D (thorough 2); ten scenarios of copying, moving, assigning (to empty, differently shaped, itself), swapping, containers, destroyed or overwritten sources and data, re-evaluation, splines; meshes of one to four dimensions; data and coordinates symbolic; memory errors are violations',
  [dict(src='c21.cpp', variants=FOUR + ['d11', 'cn11'], thorough=ALLV)])
VARIANTS['s11'] = ('c++11', ['INTP_STACK_ALLOCATOR'])
P('C18', 'assertions enabled directly or through the debug macro; coordinate lists: one arbitrary coordinate at any place for orders 0-5, n from order+1 to order+3 and 9, 11, 20 (orders 3, 2, 1), all coordinates arbitrary for orders 0-2 and up to 4 points, second and third dimension of 3-D meshes; list lengths 0 to order+6 against extents order+1 to order+3; 0 to 3*order+6 knots against order+1 to order+3 control points in 1-D and 2-D; every 64-bit index tuple on meshes of one to four dimensions; every element of band matrices up to 6x6 (thorough 10x10); valid construction and evaluation at every real coordinate',
  [dict(src='c18.cpp', slices=[0, 1], variants=['a17', 'cna17', 'na11', 'g20'], thorough=['a17', 'ca17', 'cna17', 'na11', 'a11', 'g20', 'ng11'])])
P('C22', 'aligned allocator: every 64-bit element count, element sizes 1, 4, 8, 24 and 4096 bytes, all declared alignments; up to four live blocks released in any order; vectors up to 9 elements; fixed-buffer allocator: one allocator object, capacities 4 to 1000, two or three allocations with every 64-bit count, any number released in last-in-first-out order and one more allocation',
  [dict(src='c22.cpp', variants=['s17', 's11', 'd17'], thorough=['s17', 's11', 'cs11', 'd17', 'd11', 'd20'])])
RT = 'rt_threads.cpp'
P('C16', 'every interleaving at synchronisation operations (mutex, condition variable, atomic flag, thread start and join, static initialisation) with every choice of the thread woken: 1 worker with up to 3 tasks, 2 workers with 1 task; with at most 1-4 preemptions (jobs _p1.._p4; blocking switches are unlimited) 2 workers with 2-18 tasks, 3-4 workers, two submitting threads, tasks submitting tasks, tasks nobody waits for at destruction, first use by two threads, failing thread creation, injected spurious wakeups; task results and the throwing task symbolic; sequentially consistent memory, data races looked for separately (happens-before on schedules with at most one preemption)',
  [dict(src='c16.cpp', rt=RT, variants=['d17'], thorough=['d17', 'd11', 'd20'], time=150),
   dict(src='c16.cpp', rt=RT, tag='std', variants=['d11', 'd20'], thorough=['d14'], time=150, jobs='^(one|idle|pending|nested|two_workers_one|two_workers_batches|void|first|zero|no_)'),
   dict(src='c16.cpp', rt=RT, tag='race', variants=['d17'], thorough=['d17', 'd11'], args=['--race', '--preempt', '1'], jobs='^(one_worker_one_task|two_workers_one_task|two_workers_two_tasks_p4|pending_two_workers_p4|two_submitters_two|nested|rounds|first_use|void|idle_two|no_second)', time=100)])
VARIANTS.update({'m17': ('c++17', [MT]), 'cm17': ('c++17', [CELL, MT]), 'cnm17': ('c++17', [CELL, ND, MT]), 'cnm20': ('c++20', [CELL, ND, MT]), 'cm11': ('c++11', [CELL, MT]), 'nm11': ('c++11', [ND, MT])})
P('C17', 'every task on a thread of its own (no accidental ordering): 1-D, 2-D meshes with 2 to 20 and 82 to 130 lines (thorough 60) and 3-D meshes up to 4x3x3 (thorough 6x5x4), orders 1-3, all periodicity combinations, a template used twice, two threads constructing at the same time; the library\'s own pool with its 8 workers in rotation at every synchronisation operation on smaller meshes; data symbolic; data races by happens-before (valid for every schedule of the same tasks), the constructed function compared with the single-threaded one on O+1 points per dimension of every cell',
  [dict(src='c17.cpp', rt=RT, tag='own', defs=['STUB_POOL'], optional=True, parts=[REF], variants=['m17', 'cm17', 'cnm17', 'cm11'], thorough=['m17', 'cm17', 'cnm17', 'cnm20', 'cm11', 'nm11'], args=['--sched', 'det', '--race']),
   dict(src='c17.cpp', rt=RT, parts=[REF], variants=['cnm17', 'cm11'], thorough=['m17', 'cm17', 'cnm17', 'cnm20', 'cm11', 'nm11'], args=['--sched', 'rr', '--race'])])
P('C25', 'two threads using one object, or two unrelated objects, at the same time: functions of orders 0-5 in 1-D, 1-3 in 2-D, order 1 in 3-D (values, derivatives, checked access), templates (interpolate, proxies), band solvers, meshes, splines; data symbolic, coordinates symbolic within a piece that differs between the threads (end pieces extend beyond the range), in 2-D and 3-D only the first one symbolic; data races by happens-before (valid for every schedule); values on the schedule that alternates at every synchronisation operation, and with every placement of up to two preemptions at synchronisation operations and atomic accesses',
  [dict(src='c25.cpp', rt=RT, tag='race', variants=['d17', 'cn17', 'd11', 'cn11'], thorough=['d17', 'c17', 'n17', 'cn17', 'd11', 'cn11', 'd20', 'cn20'], args=['--sched', 'det', '--race']),
   dict(src='c25.cpp', rt=RT, tag='switch', variants=['d17', 'cn17'], thorough=['d17', 'c17', 'n17', 'cn17', 'd11', 'cn11', 'd20', 'cn20'], args=['--sched', 'all', '--preempt', '2'])])
