SIM = 'deterministic simulation with fault injection: '
STUBS = ('Seeded exploration, no exhaustiveness. Real: all of dcf. Stubbed: '
         'what users supply (dates in sim worlds, day counts, '
         'interpolations, callables, payoffs, models). ')

prop('C01', 'Failure atomicity of reading operations',
     'Valuation, sensitivities, solving, curve fitting and every other query '
     'of curves, cash flow lists, models, FX containers and ratings leave '
     'all objects, containers handed in and module settings exactly as they '
     'found them - whether the call succeeds, fails because a date, day '
     'count, function, curve, payoff or model supplied by the user fails or '
     'answers nonsense, or is cancelled. Asked again once the fault is gone, '
     'the same query gives what fresh objects with the same data give.',
     ['fault_sequences', 'histories', 'inputs'],
     'for all object graphs, histories of updates, queries, and faults '
     '(exceptions, outages, corrupted answers, cancellation) at any call '
     'of a user supplied collaborator during the query',
     'The tests run queries on the success path only; none makes a '
     'collaborator fail half way through a bracketing or finite difference '
     'loop and looks at the objects afterwards, and the number of points at '
     'which a fault can hit is unbounded.',
     ['dcf/pricer.py'] + LISTS + CURVES[:1] + ['dcf/models/optionpricing.py'],
     [F('restore of spreads, fixed rates and valuation dates in finally '
        'clauses', 'dcf/pricer.py'),
      F('detaching and re-attaching temporary shift curves',
        'dcf/pricer.py get_basis_point_value, get_bucketed_delta, '
        'get_curve_fit'),
      F('fixed rate list set and restored', 'dcf/pricer.py get_fair_rate')],
     ['state of all objects before and after each attempt'],
     claim=(SIM + 'seeded fault schedules at collaborator calls, '
            'before/after state comparison and retry against a fresh twin',
            STUBS + 'Faults arrive at collaborator calls; asynchronous '
            'exceptions between two bytecodes of dcf are not injected.'))

prop('C02', 'Answers depend on the current data only, not on history',
     'After any history of point updates, fixings, spreads, changed rates, '
     'payoff and model attributes, re-linked curves, registry and class '
     'settings, queries and aborted valuations, every answer equals the one '
     'freshly constructed objects holding the same current data give. The '
     'order in which points arrived, queries asked before, and equal but '
     'not identical date objects make no difference.',
     ['histories', 'fault_sequences', 'inputs'],
     'for all object graphs, date types and finite histories of updates, '
     'queries and aborted valuations, checked at any point of the history',
     'The tests build objects and ask once; they hardly ever change an '
     'object after a query, so stale interpolations, cached results or '
     'left over temporary state cannot show.',
     CURVES + LISTS + ['dcf/pricer.py', 'dcf/ratingclass.py'],
     [F('rebuild of the interpolation on every update',
        'dcf/curves/curve.py Curve.__setitem__'),
      F('links to other curves resolved at call time',
        'dcf/curves, dcf/cashflows, dcf/models')],
     ['all public answers'],
     claim=(SIM + 'seeded histories, refinement against freshly built twins '
            'in another process', STUBS +
            'A rule that is wrong for fresh objects too is out of scope '
            '(C04, C11 and C12 hold reference models). 1e-9 relative, 1e-6 '
            'for bracketed solutions.'))

prop('C03', 'Concurrent and re-entrant use gives the answers of running alone',
     'Threads reading the same objects (values, rates, present value, yield '
     'to maturity, accrued interest, casts, tables, iteration), threads '
     'changing and solving on objects of their own, and user supplied '
     'functions that call back into the library each get exactly the '
     'answers they get when running alone, under every interleaving. '
     'Fair rates, basis point values, bucketed deltas and curve fits modify '
     'the objects handed to them temporarily and are covered for objects '
     'used by one thread only.',
     ['schedules', 'histories', 'fault_sequences'],
     'for all thread programs, object graphs, preemption points inside the '
     'library and nested calls from collaborators, with faults in some '
     'threads',
     'No test starts a thread or nests a call; the interleavings of even two '
     'short reads run into the billions.',
     ['dcf/pricer.py'] + CURVES + LISTS,
     [F('iterators without shared position', 'dcf/curves/curve.py __iter__'),
      F('valuation date handed on without storing it on the shared model',
        'dcf/pricer.py get_present_value'),
      F('no module level scratch state', 'dcf')],
     ['answers of every thread, state of shared objects afterwards'],
     claim=(SIM + 'seeded scheduler over real threads preempted at lines and '
            'bytecodes, seeded re-entrancy', STUBS + 'Preemption only at '
            'lines or bytecodes of dcf and at collaborator calls.'))

prop('C04', 'A curve answers from the points it currently holds',
     'At any time a curve returns at each date the fixing of that date if '
     'there is one, otherwise the documented interpolation of the points it '
     'currently holds, in both cases plus its spread; its domain, iteration '
     'and membership list exactly these points. An update takes effect at '
     'once and at that point only, and an update that raises (bad value, '
     'failing or cancelled collaborator) has no effect at all. Algebra of '
     'curves gives the pointwise result on the united domain and keeps '
     'origin and day count.',
     ['histories', 'fault_sequences', 'inputs'],
     'for all curve classes, interpolations, date types, day counts and '
     'sequences of accepted, refused and interrupted updates, fixings and '
     'spreads',
     'The tests read curves right after construction for a few fixed grids; '
     'update sequences, refused updates and interruptions are not tested.',
     ['dcf/curves/curve.py', 'dcf/interpolation.py', 'dcf/daycount.py',
      'dcf/curves/creditcurve.py', 'dcf/curves/interestratecurve.py'],
     [F('point store and interpolation replaced together',
        'dcf/curves/curve.py __setitem__'),
      F('spread and fixings added on reading', 'dcf/curves/curve.py '
        '__call__')],
     ['value at nodes and other dates after every step'],
     claim=(SIM + 'seeded update and fault histories, refinement against a '
            'small executable reference model of a curve',
            STUBS + 'Ties of nearest interpolation, logarithms of non '
            'positive values and extrapolation of forward prices are outside '
            'of the model (forward prices: C07).'))

prop('C05', 'Operations change their target and nothing else',
     'An update changes the object it is made on and those linked to it on '
     'purpose, and nothing else: not other objects built from the same or '
     'equal lists and dictionaries, not these containers, not the defaults '
     'later objects start from. What a caller does with containers handed '
     'in or handed out (domains, tables, cash flow lists, keyword '
     'arguments, pair dictionaries) and with derived objects (casts, sums, '
     'shifted curves, fixed flows) leaves the objects they came from as '
     'they are.',
     ['histories', 'inputs', 'fault_sequences'],
     'for all worlds of objects sharing their inputs, and histories of '
     'updates, refused updates, queries, faults and caller-side changes of '
     'containers and derived objects',
     'Tests build each object from fresh literals and look at that object '
     'only, so sharing of state between objects cannot show.',
     CURVES + LISTS + ['dcf/curves/fx.py', 'dcf/ratingclass.py',
                       'dcf/pricer.py'],
     [F('own copies of lists', 'dcf/curves/curve.py, '
        'dcf/cashflows/cashflow.py'),
      F('no mutable defaults', 'dcf')],
     ['state of all objects in the process'],
     claim=(SIM + 'seeded histories over worlds with shared inputs, frame '
            'condition checked on every object after every step',
            STUBS + 'The fixings dictionary, payoffs, models and the master '
            'scale are handed out by reference on purpose.'))

prop('C06', 'Persistence, copies and reported arguments carry the full state',
     'An object graph persisted at any point of its history and restored in '
     'another process answers like the original at that point and can be '
     'used on like it; an interrupted attempt to persist changes nothing. '
     'The same holds for deep copies, which are independent of their '
     'original, and for curves (without spread and fixings) rebuilt from '
     'the constructor arguments they report.',
     ['crash_points', 'histories', 'fault_sequences', 'inputs'],
     'for all object graphs, histories before and after, points of '
     'persisting, interruptions of it, and crashes at which only persisted '
     'bytes survive',
     'No test persists or copies an object, let alone one with a history; '
     'constructor arguments are only read for display.',
     CURVES + LISTS + ['dcf/curves/fx.py', 'dcf/ratingclass.py',
                       'dcf/interpolation.py', 'dcf/models'],
     [F('state held in picklable attributes and module level functions',
        'dcf/curves/curve.py, dcf/interpolation.py'),
      F('constructor arguments reported by kwargs', 'dcf/curves'),
      F('rebuild of the fx container', 'dcf/curves/fx.py')],
     ['answers of original and restored objects'],
     claim=(SIM + 'crash and restart with only persisted bytes surviving, '
            'interrupted persisting, forked histories of copies',
            STUBS + 'Storage is bytes in memory. BusinessDate of the '
            'installed package cannot be pickled itself and is covered by '
            'the constructor argument route only.'))

prop('C07', 'All fx pairs of a container stay consistent',
     'At any time every pair of currencies an fx container shows is the one '
     'implied by the latest spot each currency was added with: inverse pairs '
     'are inverse, cross pairs are products of the pairs with the base '
     'currency, today and at every forward date, where a forward is the spot '
     'times the discount factor of the domestic over the one of the foreign '
     'curve as these curves are now. No pair is missing or left over after '
     'any history of currencies added, added again with new spots or new '
     'curves, curves updated or replaced, additions refused for bad input or '
     'interrupted, messages lost, repeated or late, crashes and restarts. '
     'The same holds for fx forward curves on their own.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'for all containers, currencies, histories of spot and curve messages, '
     'refused and interrupted additions, crashes and restarts, and dates',
     'The tests build one container from fixed spots and look at a few '
     'pairs. The pairs are redundant state: each update touches many of '
     'them, and only a history of updates and failures can show that they '
     'still agree.',
     ['dcf/curves/fx.py', 'dcf/curves/curve.py',
      'dcf/curves/interestratecurve.py'],
     [F('triangulation on adding a currency', 'dcf/curves/fx.py '
        'FxContainer.add'),
      F('forward by discount factors', 'dcf/curves/fx.py FxForwardCurve, '
        'dcf/curves/curve.py ForwardCurve')],
     ['the full matrix of pairs, at the origin, spot and forward dates, '
      'after every step'],
     claim=(SIM + 'fx desk fed over a lossy network, redundant state audited '
            'against a reference model after every step',
            STUBS + 'Where an addition is interrupted the container may show '
            'the old or the new data of that currency, but one of them '
            'throughout. A pair of a currency with itself is defined for '
            'the base only.'))

prop('C08', 'Every operation ends, and fails at once when it has to',
     'Every reading, risk figure, solver and product builder ends within '
     'work bounded by the size of the data and the length of the schedule, '
     'for ordinary and extreme arguments, all date types, and nonsense '
     'answers (nan, infinities, zero, huge numbers) of user supplied '
     'parts; schedules of products hold the dates asked for, no more and '
     'no fewer. Solvers end in a solution or an error of their own, never '
     'in a recursion limit. When a user supplied part fails, the failure '
     'reaches the caller as it is, without dcf retrying or swallowing it; '
     'once the outage is over the next attempt gives the ordinary answer. '
     'Work does not grow with the number of operations done before.',
     ['fault_sequences', 'histories', 'inputs'],
     'for all object graphs, arguments including extreme targets, bounds '
     'and shifts, outages, transient outages, deadlines and corrupted '
     'answers at any call of a collaborator',
     'A test that passes says nothing about arguments on which a loop or a '
     'recursion does not end; no test counts the work or makes a part fail '
     'in the middle of a search.',
     ['dcf/pricer.py', 'dcf/cashflows/products.py', 'dcf/cashflows/'
      'cashflow.py', 'dcf/models/optionpricing.py', 'dcf/ratingclass.py']
     + CURVES,
     [F('bisection and secant searches', 'dcf/pricer.py'),
      F('roll out of schedules', 'dcf/cashflows/products.py, '
        'dcf/daycount.py'),
      F('short, cash and hazard rates by differences of neighbours',
        'dcf/curves'),
      F('numerical greeks', 'dcf/models/optionpricing.py')],
     ['steps of dcf code, calls of collaborators, dates of schedules'],
     claim=(SIM + 'simulated step clock over dcf code, bounded liveness '
            'under outages, deadlines and corrupted answers, retry after '
            'the fault', STUBS + 'Steps are calls and jumps of dcf byte '
            'code. Bounds: 400000 steps for a reading, 1200 valuations per '
            'unknown of a solver. Periods of products are positive and '
            'curves are not linked in cycles.'))

prop('C09', 'Optional packages are optional',
     'Where scipy, numpy, dateutil, tabulate, matplotlib or businessdate '
     'are not installed - from the start, or lost and returned while the '
     'process runs - dcf can be imported and everything that is not '
     'inherently part of the missing package gives the answers it gives '
     'with all packages: the same values, failures and effects on later '
     'answers, and integrals of curves (and implied volatilities made of '
     'them) as defined, up to the accuracy of daily steps.',
     ['fault_sequences', 'histories', 'inputs'],
     'for all sets of missing packages, points in a history at which '
     'packages go and come back, object graphs and histories',
     'The tests run with what is installed there; code behind an '
     'ImportError is not executed by any of them.',
     ['dcf/curves/curve.py', 'dcf/curves/volatilitycurve.py',
      'dcf/cashflows/products.py', 'dcf/daycount.py'],
     [F('substitutes of scipy.integrate', 'dcf/curves/curve.py '
        'DateCurve.integrate, DateCurve.derivative'),
      F('optional import of businessdate', 'dcf/cashflows/products.py')],
     ['event logs of the same history with and without the packages'],
     claim=(SIM + 'simulated loss of packages from the start and in the '
            'middle of a history, event logs compared with an undisturbed '
            'run, integrals with a reference model',
            STUBS + 'Packages are removed by an import hook in an '
            'interpreter of their own.'))

prop('C10', 'Answers do not depend on machine, clock or interpreter',
     'The same history gives the same answers, representations, tables and '
     'failures in any environment: whatever the hash seed, optimisation '
     'flags, clock, time zone, locale, working directory, environment '
     'variables, random state, collector, recursion limit, thread or '
     'warnings filter of the process, also when these change while it '
     'runs.',
     ['schedules', 'histories', 'inputs'],
     'for all pairs of environments, changes of the environment in the '
     'middle of a history, object graphs and histories',
     'The tests run once in one environment; a dependence on today, on the '
     'order of a set or on an assert statement shows in another one only.',
     ['dcf/daycount.py', 'dcf/cashflows/products.py', 'dcf/pricer.py',
      'dcf/plans.py'] + CURVES[:3],
     [F('defaults of dates and origins', 'dcf/cashflows, dcf/pricer.py'),
      F('tables of cash flows and rates', 'dcf/cashflows/cashflow.py, '
        'dcf/curves/curve.py')],
     ['event logs of the same history in two environments'],
     claim=(SIM + 'two interpreters in different simulated environments '
            '(clock, zone, hash seed, flags, random state, ...), one of '
            'them moving, event logs compared',
            STUBS + 'Floating point of one machine; locales C and C.utf8 '
            'only.'))

prop('C11', 'A book valued through time answers by the documented rules',
     'At any time every reading of a book of curves, cash flow lists, '
     'products, options, fx containers and ratings - values, discount '
     'factors, zero, short and cash rates, annuities, survival and default '
     'probabilities, intensities, hazard rates, volatilities, forwards, '
     'integrals, cash flows, forward and fixed rates, tables, present '
     'values, accrued interest, option prices, casts - is the one given by '
     'its documented definition from the data and links the book holds at '
     'that time, whatever updates, late, duplicate or corrupted messages, '
     'clock moves, faults, crashes and restarts brought it there; and after '
     'the feed is resynchronised it is the one of the latest data. Requests '
     'whose parts do not fit together (dates and values of different '
     'number, a period which does not meet its end, unknown names) are '
     'refused.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'for all books, feeds over a network that delays, reorders, '
     'duplicates, loses and corrupts messages, clock moves, faults of '
     'collaborators, checkpoints (also torn), crashes, restarts and '
     'readings',
     'Tests compare fresh objects with recorded numbers at single dates. '
     'They do not relate an answer to the data held after updates, '
     're-linking, restarts or clock moves, nor cover combinations of curve '
     'class, interpolation, day count, date type, spread, fixings and '
     'dates before, on, between and after the points.',
     CURVES + LISTS + ['dcf/pricer.py', 'dcf/curves/fx.py',
                       'dcf/curves/volatilitycurve.py', 'dcf/models',
                       'dcf/cashflows/products.py'],
     [F('rates derived from discount factors, short rates and cash rates',
        'dcf/curves/interestratecurve.py'),
      F('probabilities and intensities', 'dcf/curves/creditcurve.py'),
      F('forward prices off the last point', 'dcf/curves/curve.py'),
      F('payoffs', 'dcf/cashflows/payoffs.py'),
      F('present value and accrued interest', 'dcf/pricer.py')],
     ['answers to queries, and outcomes of the messages applied'],
     claim=(SIM + 'desk fed over a lossy network with crash and restart, '
            'every answer compared with an executable reference model that '
            'shares no code with dcf',
            STUBS + 'The network, the publisher, the disk and the clock are '
            'simulated. Where the documentation defines no answer (dates '
            'before the origin of some classes, zero times, ties) the '
            'reference abstains; abstentions are counted in the evidence.'))

prop('C12', 'Risk figures and calibration follow from repricing',
     'At any time in the life of a book: the fair rate makes the cash flow '
     'list worth the given value, the yield discounts it to the given value, '
     'a fitted curve reprices the instruments it was fitted to; basis point '
     'value, bucketed sensitivities, accrued interest, option greeks and '
     'annuities are the documented difference quotient, derivative or sum '
     'of prices; solvers refuse only where the bounds do not enclose a '
     'solution. Interrupting any of them leaves later figures as they '
     'would have been.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'for all books, feeds, clock moves, faults in the middle of a solver '
     'or sensitivity, crashes and restarts, and risk figures',
     'Tests pin a few figures of fixed books. The relation between figure '
     'and repricing is not tested, nor after an interrupted solver.',
     ['dcf/pricer.py', 'dcf/models/optionpricing.py',
      'dcf/models/bachelier.py', 'dcf/models/black76.py',
      'dcf/models/displaced.py', 'dcf/cashflows/cashflow.py',
      'dcf/curves/interestratecurve.py'],
     [F('bracketing and repricing', 'dcf/pricer.py'),
      F('greeks and their scaling', 'dcf/models/optionpricing.py'),
      F('swap annuity', 'dcf/curves/interestratecurve.py')],
     ['risk figures against repricing with the reference model'],
     claim=(SIM + 'faults inside solvers and sensitivities of a desk fed '
            'over a lossy network, every figure judged by repricing with '
            'the reference model',
            STUBS + 'Figures of discontinuous prices (a jump at the '
            'solution) and analytic greeks pinned by the test data but '
            'differing from the derivative (log normal vega) are not '
            'judged.'))
