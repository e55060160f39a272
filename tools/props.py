"""The properties, one entry each (source of properties.jsonl and MANIFEST.json)."""


def P(id, title, statement, over, text, why, files, mech, technique='', level_note='', reason='', state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                         'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                         'observe_at': list(observe), 'hook_needed': None},
                technique=technique, level_note=level_note, reason=reason)


S = 'src/wafo/'
PROPERTIES = [
    P('C01', 'A call never modifies the arrays, lists, dicts or objects passed to it',
      'Calling any public function, method or constructor leaves every argument the caller passed in as it was: array '
      'contents, shape and dtype, list and dictionary contents, and the attributes of objects are the same after the call '
      'as before. The only exceptions are matplotlib objects handed over to be drawn in and the two documented cases that '
      'exist to update their argument (merging keyword options into an options dictionary, refitting the distributions '
      'whose profiles are plotted).',
      ['inputs', 'histories'], 'all public entry points, all argument values, shapes, dtypes and option combinations',
      'Tests compare return values; hardly any inspects its inputs afterwards, and whether an input is overwritten often '
      'depends on its dtype, contiguity, shape or on an option (an array that is already float and one-dimensional is not '
      'copied on the way in).',
      [S + 'misc.py', S + 'objects.py', S + 'spectrum/core.py', S + 'covariance/core.py', S + 'kdetools/gridding.py',
       S + 'kdetools/kernels.py', S + 'integrate.py', S + 'sg_filter/_core.py', S + 'markov.py', S + 'stats/estimation.py'],
      [('copies on entry (np.array, astype, ravel of a copy, .copy())', 'throughout the numerical modules'),
       ('copy.copy / copy.deepcopy of spectrum, covariance and time series objects', S + 'spectrum/core.py')],
      'interprocedural alias and effect analysis',
      'Sound for the modelled language and library subset: every write reached from a public entry point is traced to the '
      'locations it may alias. Trusted: the effect model of numpy/scipy functions; user callbacks are not followed.'),
    P('C02', 'Query and conversion methods leave the object they are called on unchanged',
      'Evaluating, converting, simulating from or summarising an object (spectrum, covariance, time series, transformation, '
      'density estimate, smoother, filter, interpolant, quadrature rule) does not change that object: the same query '
      'repeated afterwards gives the same answer and all attributes are as before. Methods that exist to change the object '
      '(normalising, resampling or rotating a spectrum, setting labels, fitting, resetting) replace its attributes and never '
      'overwrite array contents that copies of the object may share.',
      ['inputs', 'histories'], 'all public methods and property setters of all classes, in any order of calls',
      'Tests call each method once on a fresh object; a method that damages its receiver shows only in a second, different '
      'call, and a damaged shared array only in another object.',
      [S + 'spectrum/core.py', S + 'covariance/core.py', S + 'objects.py', S + 'sg_filter/_core.py', S + 'kdetools/kdetools.py',
       S + 'transform/models.py', S + 'transform/estimation.py', S + 'interpolate.py', S + 'containers.py'],
      [('work on copies of data and args', S + 'spectrum/core.py, ' + S + 'covariance/core.py'),
       ('attribute replacement in mutators', S + 'spectrum/core.py')],
      'interprocedural alias and effect analysis',
      'As C01 for the receiver. The methods that may change the object are an explicit table with reasons.'),
    P('C03', 'A result depends on the arguments only, never on earlier calls',
      'The value computed by a call is determined by its arguments, the state of the object it is called on and the random '
      'generator; no earlier call, by this or any other object, changes it. Remembered intermediate results are found '
      'again only for exactly the inputs they were computed from, and results handed out are not the remembered objects '
      'themselves.',
      ['histories', 'inputs'], 'all sequences of calls of public functions and methods in one process',
      'A test runs one call in a fresh process; whether a cache entry, default argument or module variable left by an '
      'earlier call is picked up depends on the history.',
      [S + 'integrate.py', S + 'misc.py', S + 'gaussian.py', S + 'spectrum/core.py', S + 'stats/estimation.py'],
      [('cache of quadrature nodes and weights', S + 'integrate.py'), ('settings of the compiled integrator', S + 'gaussian.py')],
      'effect analysis of long-lived state, memo-key completeness, must-configure typestate',
      'Every write to a module variable, class attribute, default value or cached object is an obligation. State inside '
      'external libraries is not considered.'),
    P('C04', 'Calls leave process-wide settings, the environment and files alone',
      'No call of the library changes settings shared by the whole process: floating point error handling, print options, '
      'warning filters, plotting configuration, working directory, environment variables, import path or signal handlers. '
      'Whatever is changed for the duration of a call is restored on every exit, errors included, and computations neither '
      'write, rename or delete files nor start other programs.',
      ['inputs', 'histories'], 'all public functions and methods and the import of every module, on normal and error exits',
      'The tests never look at these settings, and a setting left changed alters the behaviour of the caller\'s code, not '
      'of the code under test.',
      [S + 'misc.py', S + 'spectrum/core.py', S + 'stats/estimation.py', S + 'kdetools/kdetools.py', S + 'graphutil.py'],
      [('np.errstate / warnings.catch_warnings scopes', 'throughout')],
      'call-site analysis of setters with restoring scopes',
      'Every resolved call site and assignment is looked up in a table of state-changing library functions.'),
    P('C05', 'With the same seed a simulation gives the same result',
      'Whenever a seed is passed to a simulation, every random number that enters the result is drawn from a generator '
      'initialised with that seed, on every path and for every combination of options, including the parts of the work '
      'delegated to other simulations. The seed is applied once, so that the simulated cases differ from each other, and '
      'no random number comes from the clock, the process or any other generator. An integrator that starts from random '
      'points takes nothing from the generator where it was given a seed, 0 included.',
      ['inputs', 'histories', 'configurations'], 'all simulation entry points, all seeds, options and previous generator states',
      'A test compares one seeded run with stored numbers; option combinations and earlier draws from the generator are not '
      'exercised.',
      [S + 'spectrum/core.py', S + 'covariance/core.py', S + 'gaussian.py', S + 'misc.py', S + 'stats/core.py'],
      [('seeding of the generator before drawing', S + 'spectrum/core.py, ' + S + 'covariance/core.py')],
      'path-sensitive typestate over the resolved call graph',
      'All paths through every seeded entry point and its callees; numpy\'s global generator is the modelled resource.'),
    P('C06', 'Only simulations use random numbers, and nothing reseeds unasked',
      'Functions whose purpose is not simulation draw no random numbers, so repeating them gives the same result and the '
      'state of the random generator is the same after the call as before. The generator is reseeded only when the caller '
      'passes a seed: without one, no path through any function sets its state, and no seed parameter has a default other '
      'than None. Importing the library draws and seeds nothing.',
      ['inputs', 'histories'], 'all public functions and methods and the import of every module',
      'Small random perturbations stay within the tolerances of the tests, and the state of the generator after a call is '
      'never inspected.',
      [S + 'misc.py', S + 'objects.py', S + 'spectrum/core.py', S + 'kdetools/kdetools.py', S + 'stats/estimation.py',
       S + 'gaussian.py'],
      [('draws confined to the simulation entry points', 'throughout')],
      'transitive effect analysis of draws; path-sensitive abstract interpretation without a seed',
      'Draw and seed effects over the resolved call graph; the simulation entry points are an explicit table. Every function that can set the state of a generator is also walked, callees included, with its seed bound to None.'),
    P('C07', 'An unknown option name or code is refused, never taken for another option',
      'Where a function or constructor takes one of a fixed set of option names or codes (method, kind, type, definition, '
      'kernel, spreading, wave definition, bandwidth rule and the like), a value outside that set leads to an exception '
      'before it can matter. It is never computed with as if one of the valid options had been given, and it never yields None or '
      'a half-finished result. Not meant are options documented with a fallback for all other values (such as the compiled '
      'library for \'clib\', plain Python otherwise), and switches between forms of output.',
      ['inputs', 'configurations'], 'all functions with a closed set of option values, all strings and numbers outside the set',
      'Tests use valid option values; the number of invalid ones (misspellings, other cases, neighbouring numbers) is '
      'unbounded, and a silent fallback gives plausible numbers.',
      [S + 'misc.py', S + 'objects.py', S + 'spectrum/core.py', S + 'spectrum/models.py', S + 'covariance/core.py',
       S + 'kdetools/kernels.py', S + 'kdetools/kdetools.py', S + 'transform/estimation.py', S + 'interpolate.py',
       S + 'integrate.py', S + 'sg_filter/_core.py', S + 'stats/estimation.py'],
      [('dispatch on the option: if/elif chains ending in raise, dictionary lookups, asserted membership', 'throughout'),
       ('KDE/Kernel factories', S + 'kdetools/kernels.py')],
      'path-sensitive propagation of an unknown option value',
      'An abstract value equal to no constant is followed along all paths from the entry point through dispatches, tables, '
      'helpers and constructors until it raises. The options covered are an explicit table.'),
    P('C08', 'Every parameter takes effect, and options are handed on where work is delegated',
      'Every parameter that a public function, method or constructor accepts can change what the call returns or does, also in '
      'combination with each value of its options, except where the option makes it meaningless (a bandwidth rule when the '
      'bandwidth itself is given). Where a function leaves part of the work to another one that has an option of the same name, '
      'the value it was given, or the one its object was constructed with, is handed over; it is never silently replaced by the '
      'default of the callee or by a constant. What an object was made with (the parameters of a spectrum, spreading or '
      'transformation model, the limits and tolerances of an integrator, the data of a container) can change what its computations '
      'return. Not meant are parameters that only control what is printed.',
      ['inputs', 'configurations'], 'all parameters of all public functions, all values options are compared with, all call sites',
      'A test passes a few options and compares numbers; an option that is accepted and then dropped on one branch, or '
      'replaced by the default further down, goes unnoticed unless a test varies exactly this option on exactly this branch.',
      [S + 'misc.py', S + 'objects.py', S + 'spectrum/core.py', S + 'spectrum/models.py', S + 'covariance/core.py',
       S + 'covariance/estimation.py', S + 'kdetools/kdetools.py', S + 'transform/estimation.py', S + 'wave_theory/core.py',
       S + 'integrate.py', S + 'gaussian.py', S + 'stats/core.py', S + 'stats/estimation.py'],
      [('keyword arguments handed on through the layers', 'throughout'),
       ('constructor options kept as attributes', S + 'spectrum/models.py, ' + S + 'transform/estimation.py')],
      'interprocedural data and control dependence with option specialisation',
      'The influence of each parameter is over-approximated, so a parameter reported as without effect cannot matter. '
      'Combinations in which a parameter has no meaning, and callee options that only share a name, are explicit tables.'),
    P('C09', 'Conversions carry the description of the sea state along',
      'Where one object is converted into another (spectrum to covariance function and back, time series to spectrum, covariance, '
      'turning points and transformation, turning points to cycle pairs, cycle pairs to level crossings and cycle matrix, model '
      'to data, frequency to directional spectrum), the result keeps what describes the process: the transformation, water depth, '
      'normalisation, lag or frequency type, mean, standard deviation, duration and kind of cycles, and its values and arguments come '
      'from those of the original. This holds on every path through the conversion, whatever options are given. What a container is '
      'constructed with is what its attributes hold.',
      ['inputs', 'configurations'], 'all conversions between the containers of the package and all their constructors, all paths and options',
      'A test converts and compares the numbers, mostly for a Gaussian process of infinite depth, for which a lost transformation or '
      'depth equals its default; the loss shows only in what is computed from the converted object.',
      [S + 'objects.py', S + 'spectrum/core.py', S + 'spectrum/models.py', S + 'covariance/core.py', S + 'covariance/estimation.py',
       S + 'transform/core.py', S + 'transform/models.py', S + 'transform/estimation.py', S + 'containers.py'],
      [('attributes copied after construction', S + 'spectrum/core.py:tocovdata, ' + S + 'covariance/core.py:tospecdata'),
       ('keywords of the constructors', S + 'objects.py, ' + S + 'spectrum/core.py, ' + S + 'covariance/core.py')],
      'field-sensitive interpretation of conversions and constructors',
      'Every attribute of the result gets the inputs its value is computed from on every path; code that is not followed counts as using '
      'everything, so an attribute reported as lost is lost. The attributes to be carried are an explicit table of 21 conversions and 10 '
      'constructors; that the values themselves are right is not shown.'),
    P('C11', 'No uninitialised memory reaches a result',
      'Every array that is made without initial values (numpy.empty and relatives, ufuncs with where= and no out=) is written '
      'completely, on every path, before it is returned, stored, passed on or computed with. So no element of a result depends on what '
      'happened to lie in memory.',
      ['inputs', 'configurations'], 'all functions of all modules, all paths, sizes and masks',
      'Fresh memory is mostly zero in a test process, so a partly filled array looks right; whether all elements are written depends on '
      'sizes and masks the tests do not take.',
      [S + 'kdetools/gridding.py', S + 'dctpack.py', S + 'interpolate.py', S + 'stats/core.py', S + 'integrate.py', S + 'objects.py', S + 'markov.py',
       S + 'misc.py', S + 'spectrum/core.py', S + 'covariance/core.py', S + 'kdetools/kernels.py', S + 'polynomial.py', S + '_misc_numba.py'],
      [('np.empty', S + 'interpolate.py'), ('zeros followed by partial assignment', 'throughout the numerical modules')],
      'must-write region analysis (symbolic intervals, masks and complements) over all paths',
      'Flow-sensitive per creation site; calls of functions of the package are looked up in the effect summaries. Buffers filled under a running '
      'count are taken as filled as far as the count.'),
    P('C12', 'An error inside a computation reaches the caller',
      'No function of the library carries on silently after an exception: each exception handler raises (the same or another error), warns, '
      'or marks the result as missing (nan), apart from fallbacks of optional imports and single lookups that are asked by trying '
      '(and a short list of documented substitutes). finally blocks do not return. So a wrong or default number is never presented in place '
      'of a failed computation.',
      ['inputs', 'fault_sequences', 'configurations'], 'all exception handlers of all modules',
      'Tests do not make the inner computation fail; with a handler that goes on, they see nothing of it.',
      [S + 'containers.py', S + 'covariance/core.py', S + 'covariance/estimation.py', S + 'spectrum/core.py', S + 'objects.py', S + 'misc.py',
       S + 'sg_filter/_core.py', S + 'stats/estimation.py', S + 'integrate.py', S + 'interpolate.py', S + 'transform/core.py', S + 'graphutil.py'],
      [('try/except', 'throughout')],
      'classification of all exception handlers by what every path through them does',
      'All handlers, suppress() and finally blocks; calls in handlers are followed to see whether they raise or warn.'),
    P('C13', 'Every call ends: no loop or recursion runs forever',
      'Every loop of the library ends after a bounded number of rounds and every recursion reaches its base case, whatever '
      'the values computed on the way (nan and inf included): iterations are limited by a counter, by the size of an array '
      'or by a quantity that moves towards a fixed bound by a fixed amount or factor in every round, on every path through '
      'the loop body.',
      ['inputs'], 'all loops and recursive calls, all inputs, tolerances and callback results',
      'A test sees only loops that end; the input for which an iteration never meets its tolerance, or a counter is skipped, '
      'would hang the test run instead of failing it.',
      [S + 'wave_theory/dispersion_relation.py', S + 'misc.py', S + '_misc_numba.py', S + 'polynomial.py', S + 'kdetools/kernels.py',
       S + 'spectrum/core.py', S + 'covariance/core.py', S + 'stats/estimation.py', S + 'stats/core.py', S + 'sg_filter/_core.py',
       S + 'integrate.py', S + 'integrate_oscillating.py'],
      [('iteration counters and limits', 'throughout')],
      'ranking-function synthesis over all paths of every loop body',
      'Every while loop needs a measure of one of the listed forms; the one loop whose measure is argued by hand is named in '
      'the evidence. Floating point growth factors are assumed to reach their bound.'),
    P('C14', 'An iterative method that gives up says so',
      'When a limited iteration (quadratures, roots of orthogonal polynomials, dispersion relation, bandwidth selection, '
      'smoothing, estimation of transformations, adaptive discretization, profile likelihood search, logistic regression) '
      'stops because its iteration limit is reached and not because its convergence test is met, the caller learns it on '
      'every path and for every option: by a warning, an exception, or a returned or stored value computed from the outcome. '
      'Failure codes of the external optimizer and of the compiled integrator are passed on in the same way.',
      ['inputs', 'configurations'], 'all limited iterations, all inputs, tolerances, limits and options',
      'Tests use well-behaved inputs for which the iterations converge; that an unconverged result is returned as if it were '
      'accurate shows only for inputs nobody tried.',
      [S + 'integrate.py', S + 'integrate_oscillating.py', S + 'wave_theory/dispersion_relation.py', S + 'kdetools/kernels.py',
       S + 'sg_filter/_core.py', S + 'spectrum/models.py', S + 'stats/estimation.py', S + 'stats/core.py', S + 'misc.py',
       S + 'transform/estimation.py', S + 'stats/_distn_infrastructure.py', S + 'gaussian.py'],
      [('_assert_warn(converged, ...) after the loop', S + 'integrate.py, ' + S + 'wave_theory/dispersion_relation.py'),
       ('status codes ier and warnflag', S + 'gaussian.py, ' + S + 'stats/_distn_infrastructure.py')],
      'propagation of the limit-reached state over all paths, helpers and callers',
      'All loops with an iteration limit and a convergence exit, except an explicit table of loops whose limit is not an '
      'accuracy limit. Whether the convergence test itself is adequate is not decided.'),
    P('C15', 'Whole numbers may be given as integers: results are not truncated',
      'Passing integers or integer arrays where real numbers are expected gives the same result as passing the same values '
      'as floats: no intermediate or final value is rounded to an integer, and no in-place operation fails, because an '
      'array took its element type from the argument.',
      ['inputs'], 'all public functions and methods, all array-like arguments of integer type',
      'Tests nearly always pass floats; whether a truncation occurs depends on the element type the caller happened to use.',
      [S + 'misc.py', S + 'objects.py', S + 'spectrum/core.py', S + 'spectrum/models.py', S + 'covariance/core.py', S + 'markov.py',
       S + 'polynomial.py', S + 'interpolate.py', S + 'kdetools/kdetools.py', S + 'gaussian.py', S + 'sg_filter/_core.py',
       S + 'wave_theory/dispersion_relation.py', S + 'stats/core.py'],
      [('conversion to float on entry (dtype=float, asfarray, 1.0 *)', 'throughout'),
       ('zeros_like / empty_like / np.array(x) work arrays', 'throughout')],
      'abstract interpretation of element types',
      'Interprocedural over the types float, type of an argument, integer, unknown; values of unknown type are not reported.'),
    P('C16', 'Every path is complete: defined variables, valid calls, a result on each return',
      'On every path through every function: each variable that is used has a value; every name, attribute, module member '
      'and exported name exists; every call passes arguments the callee accepts, in their places; as many results are unpacked '
      'as are returned, in their order; a function that returns a value returns one, and equally many, on all its paths; and texts are formatted '
      'with the values their placeholders need.',
      ['inputs', 'configurations'], 'all functions of all modules, all paths (options, branches, error handlers)',
      'Branches for rare options and error messages are executed by no test; the mistake shows as NameError, TypeError, '
      'None or a wrong unpacking when a user first takes that branch.',
      [S + 'misc.py', S + 'objects.py', S + 'spectrum/core.py', S + 'spectrum/models.py', S + 'covariance/core.py',
       S + 'stats/estimation.py', S + 'kdetools/kdetools.py', S + 'polynomial.py', S + 'graphutil.py', S + 'gaussian.py',
       S + 'transform/models.py', S + 'markov.py'],
      [('option branches and error handlers', 'throughout')],
      'path-sensitive definite assignment, name, signature, argument order, arity and format checking',
      'All functions; correlated conditions are tracked by literal. Members of external libraries are looked up in a committed '
      'list of the names the installed versions have.'),
    P('C17', 'Every documented option value works and selects a behaviour of its own',
      'For each option whose values the documentation lists (methods, kinds, wave and crossing definitions, kernels, weight '
      'functions, parametrizations, sensor types, indices of distribution parameters): every listed value, and the default, is '
      'accepted and leads to a result; two values documented as different choices are treated differently somewhere on the way '
      '(no choice is silently computed as another one); and two names documented for the same choice lead to the same computation.',
      ['inputs', 'configurations'], 'all options with documented values, all their values and pairs of values, all other arguments',
      'The tests call most functions with one or two of the values the documentation lists; a value that is misspelt in a test or '
      'table, covered by an earlier branch or dropped on the way to the function that decides is noticed by nobody.',
      [S + 'misc.py', S + 'objects.py', S + 'spectrum/core.py', S + 'spectrum/models.py', S + 'covariance/core.py', S + 'interpolate.py',
       S + 'kdetools/kernels.py', S + 'integrate.py', S + 'wave_theory/core.py', S + 'stats/estimation.py', S + 'transform/models.py'],
      [('chains of comparisons and tables of names', 'throughout')],
      'abstract interpretation per documented value, comparing the decisions taken',
      'Each documented value is followed through the function and its callees with everything else unknown; what the selected '
      'branch computes is not judged. The values are a table taken from the docstrings.'),
    P('C18', 'Array sizes, loop counts and indices are computed as integers',
      'Every array size, number of repetitions, loop count, transform length, index and slice bound that the library computes has '
      'an integer type on every path: a quotient, a rounded number or any other floating point value is converted before it is '
      'used as one, and floating point values are never combined with bit operators. So no call fails with a TypeError for some '
      'inputs, sizes or options only, provided the caller gives integers where integers are asked for.',
      ['inputs', 'configurations'], 'all functions of all modules, all paths, all argument values and combinations of options',
      'Whether a size is a floating point number depends on the branch that computed it (a default, a limit taken by min or max, an '
      'option); the tests take one of them, and the statement looks right in both.',
      [S + 'integrate.py', S + 'misc.py', S + 'objects.py', S + 'spectrum/core.py', S + 'covariance/core.py', S + 'kdetools/kernels.py',
       S + 'kdetools/kdetools.py', S + 'sg_filter/_core.py', S + 'interpolate.py', S + 'polynomial.py', S + 'markov.py', S + 'dctpack.py'],
      [('int(), astype(int), // and nextpow2 before sizes', 'throughout the numerical modules')],
      'abstract interpretation over number kinds (integer, floating point, unknown)',
      'Flow-sensitive over all functions, calls followed with the kinds of their arguments, attributes as the join of what is stored. '
      'Values of unknown kind are not reported.'),
    P('C19', 'The interface is the documented one: names, defaults and return values',
      'For every public function, method and constructor: each parameter its documentation lists can be given under that name; '
      'where the documentation states a default value, leaving the argument out is the same as giving that value; whatever has a '
      'documented default can be left out; as many values are returned as are documented, in the documented order; and the '
      'attributes and methods a class documents exist. This also holds where options are handed on to another function.',
      ['inputs', 'configurations'], 'all public functions, methods and constructors with numpydoc sections',
      'The tests give most options explicitly or compare with values computed by the same code; a default that differs from the '
      'documented one, or results in another order, give plausible numbers for every input.',
      [S + 'objects.py', S + 'spectrum/core.py', S + 'spectrum/models.py', S + 'covariance/core.py', S + 'kdetools/kdetools.py',
       S + 'kdetools/kernels.py', S + 'gaussian.py', S + 'misc.py', S + 'polynomial.py', S + 'integrate.py', S + 'interpolate.py',
       S + 'stats/core.py', S + 'stats/estimation.py', S + 'transform/core.py', S + 'transform/estimation.py', S + 'sg_filter/_core.py',
       S + 'wave_theory/core.py', S + 'graphutil.py', S + 'markov.py'],
      [('signatures, keyword dictionaries and return statements', 'throughout')],
      'comparison of parsed docstrings with signatures, keyword flow and return statements',
      'The docstrings are the specification. Defaults described in words or by an expression, and return values that are not tuple '
      'displays, are not judged; keywords are followed through the functions they are handed to.'),
]

NOT_APPLICABLE = [
    P('N01', 'Conversions and their inverses undo each other',
      'w2k and k2w, dat2gauss and gauss2dat, spectrum to covariance and back, to frequency in Hz and back return the starting '
      'point up to rounding.', ['inputs'], 'all valid inputs', 'Tests sample a few points.',
      [S + 'wave_theory/dispersion_relation.py', S + 'transform/core.py', S + 'spectrum/core.py', S + 'covariance/core.py'],
      [('Newton iteration and FFT pairs', S + 'wave_theory/dispersion_relation.py')],
      reason='Equality of floating point results of iterations and transforms up to tolerance: no static argument in reach bounds it.'),
    P('N02', 'Density, distribution function and quantiles of a distribution agree',
      'The derivative of cdf is pdf, ppf inverts cdf, and cdf rises from 0 to 1.', ['inputs'], 'all parameters and arguments',
      'Tests sample parameters.', [S + 'stats/core.py', S + 'stats/distributions.py'], [('formulas of each distribution', S + 'stats/distributions.py')],
      reason='Analytic identities between independently coded formulas; needs numerical or symbolic evaluation, not source analysis.'),
    P('N03', 'Reported error estimates bound the true error',
      'The error returned by the integrators and probability calculations is not smaller than the actual one.', ['inputs'],
      'all integrands and limits', 'Tests sample smooth integrands.', [S + 'integrate.py', S + 'gaussian.py'],
      [('Richardson extrapolation, dea3', S + 'integrate.py')],
      reason='A statement about numerical analysis of arbitrary callbacks; error estimates are heuristics by design.'),
    P('N04', 'Spectral moments, significant wave height and simulated variance agree',
      'Normalising, resampling and simulating keep m0, Hm0 and Tp of the spectrum.', ['inputs', 'configurations'], 'all spectra and options',
      'Tests compare a few spectra within tolerances.', [S + 'spectrum/core.py', S + 'spectrum/models.py'], [('normalisation integrals', S + 'spectrum/models.py')],
      reason='Quantitative relation between quadrature results and random samples; not decidable from the source text.'),
    P('N05', 'Cycle counts satisfy the rainflow and level crossing relations',
      'Rainflow counts give the same level crossings as the signal, and damage sums follow from them.', ['inputs'], 'all sequences of turning points',
      'Tests sample a few series.', [S + 'misc.py', S + '_misc_numba.py', S + 'objects.py', S + 'markov.py'], [('rainflow kernels', S + '_misc_numba.py')],
      reason='Functional correctness of a counting algorithm over arbitrary sequences; needs proof or exploration, not dataflow.'),
]
