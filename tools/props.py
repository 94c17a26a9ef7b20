"""Single source for properties.jsonl and MANIFEST.json (see gen.py)."""
INF, INT, ANA, KF, SH = ('sdepy/infrastructure.py', 'sdepy/integration.py',
                         'sdepy/analytical.py', 'sdepy/kfun.py',
                         'sdepy/shortcuts.py')


def P(id, title, statement, over, text, why, files, mech, observe):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None))


PROPS = [
    # ------------------------------------------------------------- process
    P('C01', 'A process holds exactly the timeline and values it was given',
      'For every scalar or one-dimensional timeline of N points and every '
      'x, v or c consistent with it, the created process has shape '
      '(N,) + vshape + (paths,), carries exactly the given values (c copied '
      'at each time point, v and c on one path) in the requested dtype, or in '
      'the dtype of the given values if none is requested, and exposes the '
      'given timeline. '
      'Values and timeline passed as arrays are stored by reference whenever '
      'no conversion is needed. '
      'Zero or several of x, v, c, an empty or multi-dimensional timeline, or '
      'a first axis that does not match the timeline, raise ValueError.',
      ['inputs', 'configurations'],
      'all timelines (scalar/list/array, int/float), value shapes, dtypes '
      '(ints, floats, bool, complex), one of x/v/c, and malformed combinations',
      'tests sample a few shapes and float dtypes; dtype by omission, complex '
      'and bool values, reference semantics and malformed inputs are not swept',
      [INF], [('process.__new__', INF)],
      ['process(...)', '.t', '.x', '.shape', '.dtype', 'np.shares_memory']),
    P('C02', 'Ufuncs on processes compute elementwise and never mix timelines',
      'Applying any NumPy ufunc or operator to processes sharing the timeline, '
      'to processes of which one is constant, or to a process and an array or '
      'scalar of fitting shape, yields a process whose values equal the ufunc on the '
      'underlying arrays and whose timeline is that of the non-constant '
      'operand (of the first if all are constant). '
      'If two non-constant processes have different timelines, or their value '
      'or path axes differ in number or in size (other than 1), a ValueError '
      'is raised instead of a result. '
      'In-place operators and out= into a process that is also an operand '
      'obey the same rules.',
      ['inputs', 'programs'],
      'all pairs of processes/arrays/scalars in either order, all unary, '
      'binary and two-output ufuncs, all shapes that do or do not broadcast',
      'tests run few ufuncs over one fixed family of shapes; operand order, '
      'equal-length different timelines, in-place and multi-output ufuncs '
      'multiply',
      [INF], [('process.__array_prepare__', INF),
              ('process.__array_wrap__', INF),
              ('process._is_compatible', INF)],
      ['result .t', 'result .x', 'ValueError']),
    P('C03', 'NumPy methods and plain indexing see only the values of a process',
      'Every ndarray method or attribute of array values (and the NumPy '
      'functions delegating to them), '
      'applied to a process, gives the values the same call gives on its '
      'array view, irrespective of the timeline; any other NumPy function '
      'does the same or is refused with ValueError. '
      'Indexing with any standard NumPy index (integers, slices, ellipsis, '
      'new axes, boolean or integer arrays and tuples of these) returns '
      'a plain array equal to the same index on the array view; assignment '
      'through a standard index changes exactly those values.',
      ['inputs', 'programs'],
      'all processes, a table of ndarray methods/functions with generated '
      'axis/keepdims/dtype arguments, and generated standard indexes',
      'test_no_override compares a fixed list of calls on one shape',
      [INF], [('process.__getitem__ fall-through', INF),
              ('process.__array_wrap__ without context', INF)],
      ['p.method(...)', 'p[index]', 'p[index] = v']),
    P('C04', 'Time, value and path indexing, reshaping and copying are coherent',
      'p["t", i], p["v", i] and p["p", i] return processes selecting the same '
      'entries of the timeline and values as numpy indexing of the time, value '
      'or path axes, an integer (Python or NumPy, negative included) on time '
      'or paths being kept as an axis of length one; an unknown indexing flag '
      'raises IndexError. '
      'shapeas adds or removes unit axes to the left of the values, without '
      'altering data, and refuses to drop a non-unit axis; pcopy, xcopy and '
      'tcopy copy or share timeline and values exactly as named. '
      'x, vshape, paths, tx, dt and dtx agree with the shape, timeline and '
      'values of the process.',
      ['inputs'],
      'all process shapes, int/slice/array/boolean/multi-index keys, target '
      'shapes, copy kinds',
      'tests index a single process with a handful of literal keys',
      [INF], [('process.__getitem__', INF), ('process.shapeas', INF),
              ('process.pcopy/xcopy/tcopy', INF)],
      ['p["t"/"v"/"p", i]', 'np.shares_memory', 'properties']),
    P('C05', 'Interpolation passes through the nodes and is flat outside',
      'For a process p and times s of any shape, p(s) has shape s.shape + vshape '
      '+ (paths,) and the dtype of p, equals the stored value at timeline '
      'points, the first or last value outside the timeline, and in between '
      'the interpolation of the requested kind (piecewise linear by default; '
      'nearest, zero, previous, next, quadratic and cubic as in '
      'scipy.interpolate.interp1d). '
      'A one-point process is constant in time; p(s, ds) equals p(s + ds) - '
      'p(s); rebase(s) is the process with timeline s and values p(s); '
      'the interp_kind attribute is the default kind. Values, timeline and '
      'interp_kind are those in force when p(s) is evaluated.',
      ['inputs'],
      'all processes with increasing timelines, query times inside, at and '
      'outside the timeline in any shape and order, all kinds, any ds',
      'tests interpolate a quadratic on a few grids',
      [INF], [('process.interp', INF), ('process.__call__', INF),
              ('process.rebase', INF)],
      ['p(s)', 'p(s, ds)', 'p.interp()(s)', 'p.rebase(s)']),
    P('C06', 'piecewise() interpolates to the stated step function',
      'The process returned by piecewise(t, x or v, mode) evaluates, at any time '
      'strictly inside a segment, to the value of that segment: the '
      'nearest reference time for "mid", the last reference time not after '
      'the query for "forward", the first reference time not before it for '
      '"backward", the first or last value applying outside the timeline. '
      'This holds on every path and value component; an unknown mode '
      'raises ValueError.',
      ['inputs'],
      'all timelines, value shapes, modes and query times that are not '
      'segment boundaries',
      'tests use one timeline and a few query points',
      [INF], [('piecewise', INF)], ['piecewise(...)(s)']),
    P('C07', 'Summaries across paths, values and time equal their definitions',
      'pmin/pmax/psum/pmean/pvar/pstd, their v- and t- counterparts and '
      'tcumsum equal the corresponding statistic of the values along the path '
      'axis, all value axes or the time axis, for processes of integer, '
      'boolean or floating dtype, honouring ddof and dtype arguments. '
      'Results are processes: p-summaries keep timeline and vshape on one '
      'path, v-summaries keep timeline and paths with scalar values, '
      't-summaries are constant processes, with one point of the timeline, '
      'keeping vshape and paths, tcumsum keeps the whole shape; the process is not modified.',
      ['inputs'],
      'all process shapes and integer/boolean/float dtypes, every summary, '
      'ddof and dtype options',
      'tests check float values on few shapes and compare against the same '
      'numpy call with the same dtype',
      [INF], [('process.p*/v*/t* methods', INF)],
      ['summary result values, shape, timeline']),
    P('C08', 'Increments, derivative and integral in time are mutually exact',
      'tdiff(dt_exp, fwd) holds (p[i+1]-p[i])/(t[i+1]-t[i])**dt_exp, placed at '
      't[i] if fwd and at t[i+1] otherwise; tder() is tdiff with dt_exp=1 '
      'forward. '
      'tint() starts at 0 and grows by p[i]*(t[i+1]-t[i]), keeping timeline '
      'and shape; p.tder().tint() equals p["t", :-1] - p["t", 0] and '
      'p.tint().tder() equals p["t", :-1] up to rounding, for integer as well '
      'as floating values and any increasing timeline.',
      ['inputs'],
      'all processes with two or more points, irregular timelines, dt_exp '
      'values, directions, dtypes',
      'tests check one float process on few timelines',
      [INF], [('process.tdiff/tder/tint', INF)], ['values and timelines']),
    P('C09', 'Empirical chf and cdf are the averages across paths',
      'p.chf(t, u) and p.cdf(t, x) have shape t.shape + u.shape (or x.shape) + '
      'vshape and equal, at each entry, the average across paths of '
      'exp(1j*u*p(t)) and of the indicator p(t) <= x, p(t) being the '
      'interpolated process. '
      'Omitting t uses the stored timeline points; omitting both arguments '
      'raises TypeError.',
      ['inputs'],
      'all processes, t and u/x of any shape including values tied with '
      'process values',
      'tests check a couple of shapes',
      [INF], [('process.chf', INF), ('process.cdf', INF)],
      ['p.chf(...)', 'p.cdf(...)']),
    # ------------------------------------------------------------- sources
    P('C10', 'Sources honour shape, dtype and the generator they are given',
      'For every preset stochasticity source, dz(t, dt) (and dz(t) for sources '
      'with memory) has shape (t + dt).shape + vshape + (paths,) and the '
      'requested dtype, for t and dt of any mutually broadcastable shapes, and '
      'increments over dt=0 are zero. '
      'All randomness comes from the generator passed as rng, or, if none is '
      'given, from the package default generator in force when the source is '
      'created: equal generator states give equal realizations, and other '
      'generators are left untouched. '
      'A seed in place of a generator raises TypeError.',
      ['inputs', 'configurations', 'histories'],
      'all nine source classes, paths, vshape, dtype, t/dt shapes and signs, '
      'Generator and RandomState generators, explicit or default',
      'tests check a few literal t, dt shapes and never look at other '
      'generators',
      [INF], [('source.__init__', INF), ('*_source.__call__', INF)],
      ['dz(t, dt)', 'dz.rng', 'generator states before/after']),
    P('C11', 'Wiener increments are centred Gaussians with the stated covariance',
      'Increments of wiener_source and odd_wiener_source over dt (of '
      'either sign) are normal with mean 0 and variance |dt|, independent '
      'across times, paths (antithetic pairs aside) and value components, '
      'except along the last value axis when corr, or rho, is given: '
      'there the covariance is corr(t + dt/2)*|dt|. '
      'Constant, callable and process-valued corr or rho (with or without '
      'trailing unit axis) are equivalent, rho meaning the matrix pairing the '
      'i-th and (K+i)-th components; a non-square corr, one not matching '
      'vshape[-1], or any corr with scalar values, raises ValueError.',
      ['inputs', 'configurations'],
      'all valid correlation matrices and rho vectors, constant or '
      'time-dependent, value shapes, t and dt arrays with any sign',
      'quantitative tests use one or two matrices and fixed positive steps',
      [INF], [('wiener_source.__call__', INF), ('_get_corr_matrix', INF)],
      ['sample moments of dw(t, dt)', 'dw.corr']),
    P('C12', 'Poisson increments are integer counts with mean lam*dt',
      'Increments of poisson_source over dt are independent non-negative '
      'integer counts (non-positive if dt < 0), Poisson distributed with mean '
      'lam*|dt|, or lam(t + dt/2)*|dt| for time-dependent lam, each value '
      'component and path with its own entry of lam broadcast to vshape + '
      '(paths,). '
      'A lam that does not broadcast to that shape is rejected with '
      'ValueError.',
      ['inputs', 'configurations'],
      'all non-negative lam (scalar, array, per path, callable, process), t '
      'and dt arrays of any shape and sign',
      'tests check formal shapes; statistics only for one constant lam',
      [INF], [('poisson_source.__call__', INF)],
      ['sample moments of dn(t, dt)', 'sign and integrality']),
    P('C13', 'Compound Poisson increments are the sums of their recorded jumps',
      'Each increment of cpoisson_source is the sum of as many independent '
      'variates of y (y(t + dt/2) if time-dependent) as the underlying Poisson '
      'increment counts, with the sign of dt, and exactly zero where that '
      'count is zero. '
      'After each call, dn_value holds those counts and y_value the variates '
      'used, all of them and no other, whatever the dtype of the counts; '
      'y parameters given as arrays broadcastable to vshape + (paths,) apply '
      'entry by entry; an explicitly given dn source supplies the counts, '
      'which are of dtype ptype otherwise.',
      ['inputs', 'configurations'],
      'all preset and scipy.stats jump laws (continuous, discrete, constant, '
      'array- and time-valued parameters), intensities, dt signs and shapes, '
      'explicit dn sources',
      'tests check formal properties for a few laws with scalar parameters',
      [INF], [('cpoisson_source.__call__', INF)],
      ['dj(t, dt)', 'dj.dn_value', 'dj.y_value']),
    P('C14', 'Jump distributions have the law, moments and mapping they declare',
      'norm_rv, uniform_rv, exp_rv and double_exp_rv produce variates of the '
      'documented law for every parameter value, scalar or array, in the '
      'domain, and their mean, var, std and exp_mean methods return that '
      "law's mean, variance, standard deviation and mean exponential "
      '(infinite where it diverges); parameters outside the domain of exp_rv and '
      'double_exp_rv raise ValueError. '
      'If any parameter is callable, the result is a callable of time '
      'yielding the distribution with parameters evaluated at that time. '
      'rvmap(f, y) yields f of the variates of y for the same generator state, '
      'passing the time to f when its first parameter is named t or s.',
      ['inputs'],
      'all parameter values and shapes in and outside the domain, callables, '
      'mapped functions of y and of (t, y)',
      'tests check moments of default parameters only',
      [INF], [('norm_rv, uniform_rv, exp_rv, double_exp_rv', INF),
              ('rvmap', INF)],
      ['rvs', 'mean/var/std/exp_mean']),
    P('C15', 'Antithetic sources mirror the first half of the paths exactly',
      'With 2K paths, the last K paths of odd_wiener_source realizations are '
      'exactly the negatives of the first K, and those of '
      'even_poisson_source and even_cpoisson_source exactly their copies, '
      'for every t, dt, vshape, dtype and source parameter; the first K paths '
      'are those of the plain source with K paths under the same generator state. '
      'An odd number of paths raises ValueError, and paths, vshape, dtype and '
      'rng report the values of the whole source.',
      ['inputs', 'configurations'],
      'all path counts, shapes, dtypes, correlations, intensities and laws',
      'tests check one shape per class',
      [INF], [('_antithetics', INF)], ['dz(t, dt)', 'attributes']),
    P('C16', 'Sources with memory never change a value they have revealed',
      'In any sequence of calls dz(t), dz(t, dt) on true_wiener_source, '
      'true_poisson_source and true_cpoisson_source, with times in any order '
      'on either side of t0 and arrays of any shape, each time point always '
      'yields the value it first yielded (points closer than rtol count as '
      'the same point), dz(t0) is z0, and dz(t, dt) is exactly dz(t + dt) - '
      'dz(t). '
      'A sub-source dz[i] returns, for t and dt of any shape, the '
      'corresponding value components of dz and shares its memory in both '
      'directions; t lists the stored times in increasing order without '
      'repetition and size the number of stored scalars. '
      'Counts are non-decreasing in time, and compound sums do not change '
      'where the counts do not.',
      ['histories', 'inputs'],
      'all call histories, value shapes, t0/z0/rtol, jump laws including '
      'constant, discrete and vanishing jumps',
      'tests run a few fixed refinement orders; histories are unbounded',
      [INF], [('true_source._retrieve_old_or_generate_new', INF),
              ('new_inside / new_outside', INF),
              ('_indexed_true_source', INF)],
      ['dz(t)', 'dz(t, dt)', 'dz[i]', 'dz.t', 'dz.size']),
    P('C17', 'Conditional refinement preserves the law of the path',
      'Whatever the order in which times are asked of a source with memory, '
      'on either side of t0, the increments between consecutive times are '
      'independent and have the law of the source: normal with covariance '
      'corr*(t2 - t1) for true_wiener_source, Poisson with mean lam*(t2 - t1) '
      'for true_poisson_source, compound Poisson with those counts and '
      'variates of y for true_cpoisson_source. '
      'For a correlation matrix linear in time, the covariance is the exact '
      'integral of the matrix; constant, callable and process-valued '
      'parameters are all supported.',
      ['histories', 'inputs'],
      'all query orders of a few time points, corr/rho/lam/y parameters',
      'tests look at one refinement order with wide tolerances',
      [INF], [('true_wiener_source.new_inside', INF),
              ('true_poisson_source.new_inside', INF),
              ('true_cpoisson_source.new_inside', INF)],
      ['sample moments across paths of increments']),
    # ---------------------------------------------------------- montecarlo
    P('C18', 'Monte Carlo moments do not depend on how the sample was batched',
      'After any sequence of updates, mean, var, std, stderr, skew, kurtosis, '
      'paths, vshape and stats equal the (population) statistics of all '
      'samples pooled together, per value component, up to rounding; kurtosis is the '
      'fourth standardized moment and stderr is std/sqrt(paths - 1). '
      'The axis argument selects the sample axis, subsequent samples broadcast '
      'against the shape of the first, and use="even"/"odd" pools half-sums '
      '(half-differences) of antithetic halves, refusing odd lengths. '
      'An indexed instance a[i] always reports the current statistics of '
      'component i. Means have the requested dtype, or else the float dtype of '
      'the first sample.',
      ['histories', 'inputs'],
      'all splits of samples into batches, shapes, axes, dtypes, large '
      'offsets, antithetic modes, indexing before or after updates',
      'tests cumulate two to ten batches of normal samples of one layout',
      [INF], [('montecarlo._update_moments', INF),
              ('montecarlo.__getitem__', INF)],
      ['a.stats', 'a.mean() etc.', 'a[i]']),
    P('C19', 'Histograms account for every sample point exactly once',
      'For any updates, the histogram of a component counts exactly the pooled '
      'sample points falling in each bin (last bin closed), the bins being those '
      'given or those numpy.histogram finds for the first sample, and outpaths '
      'counts exactly the points outside, so that counts plus outpaths is '
      'paths; outerr is outpaths/paths. '
      'density_histogram is the histogram normalized to unit integral over '
      'the bins; histogram requests on empty, multi-valued or bins=None '
      'instances raise an exception, and ill-shaped bins are refused.',
      ['histories', 'inputs'],
      'all batch sequences, bins as int, rule name, edges per component, '
      'range, ties on edges, points outside',
      'tests check one normal sample and counts totals',
      [INF], [('montecarlo._update_histogram', INF),
              ('montecarlo.histogram', INF)],
      ['histogram()', 'density_histogram()', 'outpaths', 'outerr()']),
    P('C20', 'Monte Carlo pdf and cdf estimates follow the histogram as documented',
      'The gaussian_kde pdf is the mixture of normal kernels centred at bin '
      'midpoints, weighted by the bin probability, with standard deviation '
      'bandwidth times the bin width, and its cdf is the exact '
      'integral of it, growing from 0 to 1. '
      'The interp cdf equals the cumulated bin probabilities at bin edges, 0 '
      'below and 1 above; the interp pdf equals the density at midpoints and 0 '
      'at the boundaries and outside. '
      'Both accept x of any shape and uneven bins; an unknown method raises '
      'ValueError.',
      ['inputs'],
      'all samples, bins (uneven included), x shapes, bandwidths and kinds',
      'tests evaluate the estimates on one grid with loose tolerance',
      [INF], [('montecarlo._pdf_or_cdf', INF)], ['a.pdf(x)', 'a.cdf(x)']),
    # --------------------------------------------------------- integration
    P('C21', 'Path generation touches exactly the required time points in order',
      'A simulation visits, in strictly increasing order forwards of '
      'timeline[i0] and strictly decreasing order backwards, exactly the '
      'timeline points merged with the requested steps lying within the timeline '
      '(plus any intermediate point introduced by adaptive stepping), and '
      'stores a value exactly once per output point (the initial one once '
      'per direction) at exactly that time. '
      'This holds for every timeline (integer, unsigned or float), steps '
      '(None, int or iterable), i0 (negative included) and depth; integer '
      'timelines are simulated in floats and returned as given. '
      'Timelines that are not strictly increasing or not one-dimensional, an '
      'i0 outside the timeline, and steps beyond the target raise an '
      'exception. Unless getinfo is false, the info dictionary (the one given, '
      'or a new one per generator) records t0, tmin, tmax, computed_steps and '
      'stored_steps of the last simulation, of its forwards part if there is one.',
      ['inputs', 'configurations'],
      'all timelines, steps, i0, depths and adaptive step choices',
      'tests run a few literal timelines and steps',
      [INT], [('paths_generator.__call__', INT),
              ('paths_generator._generate_paths', INT)],
      ['sequence of begin/next/store/end calls', 'returned timeline']),
    P('C22', 'SDE integration is the Euler-Maruyama recursion of the equation',
      'Integrating a user-defined SDE gives, at each output time, exactly the '
      'value (up to rounding) of x(s+ds) = x(s) + sum of sde coefficient(s, x) '
      'times source increment(s, ds), run over the visited time points from '
      'the initial condition at timeline[i0], forwards and backwards. '
      'Coefficients see parameters evaluated at the start of each step and '
      'the current x; differentials missing from the sde count as zero; '
      'with log=True the recursion acts on the logarithm and the '
      'result is exponentiated once. '
      'Unknown parameters, missing values, sde results that are not a '
      'dictionary over the declared sources, and unknown methods are refused '
      'with an exception.',
      ['inputs', 'programs', 'configurations'],
      'generated polynomial SDEs over dt, dw, dn, dj and custom '
      'differentials, parameters of any form, shapes, timelines, steps, i0',
      'tests check a few SDEs against closed forms',
      [INT], [('integrator.euler_next', INT), ('SDE.A', INT),
              ('SDE.dZ', INT), ('SDE.begin/store/exit', INT)],
      ['returned process vs. reference recursion']),
    P('C23', 'Systems of SDEs equal their equations integrated jointly',
      'A system of q equations yields q processes of the common vshape, each '
      'following the Euler recursion of its own equation fed with the '
      'components of the others and of the sources dispatched as documented: '
      'component [kk, i*N + h] of the source to [kk, h] of equation i, or '
      '[kk, i] if addaxis, which is forced for scalar values. '
      'Initial conditions are one per equation, or a scalar for all; pack and '
      'unpack are inverse of each other; with log=True each result is the '
      'exponential of its integrated logarithm; wrong numbers '
      'or types of equations returned by sde are refused.',
      ['inputs', 'programs', 'configurations'],
      'generated systems for q from 1 to 4, shapes, addaxis, log, initial '
      'conditions, correlated sources, integration settings',
      'tests check two-equation systems with one layout',
      [INT], [('SDEs.pack/unpack', INT), ('SDEs.A', INT),
              ('SDEs.init/result', INT)],
      ['returned tuple of processes vs. reference recursion']),
    P('C24', 'Each preset process integrates its documented equation',
      'wiener, lognorm, ornstein_uhlenbeck, hull_white (any number of '
      'factors), hull_white_1factor, cox_ingersoll_ross, full_heston, heston, '
      'jumpdiff, merton_jumpdiff and kou_jumpdiff processes equal, for given '
      'source realizations, the Euler recursion of the SDE in their '
      'documentation (on log(x) for lognormal, Heston and jump-diffusion '
      'processes, negative variances truncated to zero in the coefficients '
      'for CIR and Heston), for all admissible parameters, constant, per '
      'path or time-dependent, and all integration settings. '
      'heston equals the first output of full_heston; hull_white equals '
      'the sum of its factors; default parameters are the documented ones.',
      ['inputs', 'configurations'],
      'all eleven processes, parameters, shapes, timelines, steps, i0',
      'quantitative tests compare end statistics for one parameter set with '
      'tolerances of several percent',
      [INT], [('*_SDE.sde/init/let/result', INT)],
      ['returned processes vs. reference recursion']),
    P('C25', 'Equivalent ways to specify a parameter give the same paths',
      'Given the same generator state, a parameter passed as scalar, array, '
      'constant callable or constant process, or broadcast in full to vshape '
      '+ (paths,), produces identical realizations (jump distribution '
      'parameters: as scalar, 0-d array or callable); time-dependent parameters '
      'given as a callable or as a process taking the same values at the '
      'integration points are likewise interchangeable. '
      'A path- or component-dependent parameter acts entry by entry: each '
      'path equals the one obtained when its own parameter value is used for all '
      'paths. Arguments passed by the user are never modified.',
      ['inputs', 'configurations'],
      'all preset processes and source parameters (lam, corr, rho, jump '
      'parameters), all forms of each parameter',
      'tests try each form once on fixed values and only check shapes',
      [INF, INT], [('_variable_param_setup', INF), ('SDE.A', INT)],
      ['realizations under equal seeds']),
    P('C26', 'integrate() builds the same integrator as an explicit subclass',
      'For any sde function, the class produced by the integrate decorator '
      '(with or without arguments, with q and sources given or inferred) is a '
      'subclass of SDE or SDEs and of integrator, has the stated sources, '
      'q, log and addaxis, and yields the same realizations as the explicit '
      'subclass under the same generator state. '
      'q or sources inconsistent with the function, an empty system, or a '
      'function that cannot be evaluated when inference is needed raise an '
      'exception; no evaluation takes place if both are given.',
      ['programs', 'inputs'],
      'generated sde functions (single and systems), declarations and '
      'parameters',
      'tests and doctests use three fixed functions',
      [INT], [('integrate', INT), ('_SDE_from_function', INT)],
      ['class attributes', 'realizations']),
    P('C27', 'User-supplied sources are used as given and checked',
      'A source instance, process or any callable with paths and vshape '
      'passed as dw, dn or dj supplies exactly the increments entering the '
      'integration, called once per step with the step start and length; '
      'lower-rank vshapes broadcast to the process shape; a source class '
      'is instantiated with the paths, vshape, dtype, generator and parameters '
      'of the process. '
      'Objects lacking the source protocol, or with other paths or a vshape '
      'not broadcastable, are refused with ValueError.',
      ['inputs', 'configurations'],
      'all preset processes and user SDEs, source kinds (recording stub, '
      'process, sources with memory, antithetic classes), shapes',
      'tests pass one valid and one invalid source per kind',
      [INF, INT], [('_source_setup', INF), ('_check_source', INF),
                   ('SDE.source_dw/dn/dj', INT)],
      ['recorded calls', 'returned process', 'ValueError']),
    P('C28', 'Integration is reproducible and leaves no trace between calls',
      'The result of p(timeline) is determined by the parameters, the '
      'timeline and the state of the generator passed as rng (or the package '
      'default generator when rng is omitted), irrespective of previous or interleaved '
      'calls of this or other integrators, of the global NumPy generator '
      'and of hash randomization. '
      'Results of earlier calls, and arrays passed by the user, are not '
      'modified by later calls, and distinct instances of a class do not share state.',
      ['histories', 'inputs', 'configurations'],
      'interleaved call histories over several integrator instances, '
      'generators and timelines',
      'tests never interleave instances',
      [INT, INF], [('SDE.__init__', INT), ('SDE._ordered_source_ids', INT),
                   ('_get_default_rng', INF)],
      ['realizations under reset generators', 'user arrays', 'earlier results']),
    P('C29', 'Diagnostic information matches what the integration did',
      'After an integration, info reports t0, tmin, tmax, and, for its forward '
      'part (for its backward part, if there is no other) the number of steps '
      'computed and of '
      'output points stored after the initial one; Heston negative_y_count '
      'counts, per component and path, the steps started from a '
      'negative variance; jump-diffusion jump_count sums the jumps of all '
      'steps and jump_rate relates jumps to each output interval, last entry '
      'repeated. '
      'getinfo=False leaves the results unchanged and records nothing; a '
      'dictionary passed as info is the one filled; info hooks of user classes are '
      'called once per begin, step, store and end, with the documented '
      'step variables. Info is about the last call only.',
      ['inputs', 'configurations'],
      'all timelines, steps, shapes and processes with diagnostics',
      'tests only check that items exist',
      [INT], [('paths_generator._generate_paths', INT),
              ('full_heston_SDE.info_next', INT),
              ('jumpdiff_SDE.info_next', INT)],
      ['p.info']),
    # --------------------------------------------------------------- kfunc
    P('C30', 'kfunc objects manage parameters without side effects',
      'For a kfunc-wrapped class or function, calling with keyword parameters '
      'and no variables gives an instance with merged parameters '
      '(latest wins); calling with variables evaluates the original '
      'callable with the merged parameters; any chain of such calls equals the '
      'single direct call with the merged parameters. '
      'params reports the parameters in force, defaults included; no call '
      'changes the parameters or results of the instance it was made from; '
      'unknown parameters are refused, and ill-formed classes or functions '
      'cannot be wrapped.',
      ['histories', 'programs', 'inputs'],
      'generated signatures and chains of partial calls over functions, '
      'classes and sdepy processes/sources',
      'tests run fixed short chains',
      [KF], [('_kfunc_decorate_class', KF), ('_kfunc_decorate_function', KF)],
      ['results', '.params', 'exceptions']),
    P('C31', 'Shortcuts and analytical kfuncs agree with what they abbreviate',
      'Each shortcut for a source or process (dw, dn, dj, odd_dw, even_dn, '
      'even_dj, true_dw, true_dn, true_dj, wiener, lognorm, oruh, hwff, hw1f, '
      'cir, heston_xy, heston, jumpdiff, mjd, kou) is a kfunc and a subclass of the '
      'corresponding class, and produces the same realizations for the '
      'same parameters and generator state, in one or several partial calls. '
      'Each exported analytical function is a kfunc whose value equals the plain '
      'function for all parameters passed at once, in stages, or by default.',
      ['inputs', 'configurations'],
      'all shortcuts and analytical functions, generated parameters and '
      'staging',
      'tests call a few shortcuts once',
      [SH, KF], [('shortcuts module', SH)],
      ['realizations', 'values', 'iskfunc']),
    # ---------------------------------------------------------- analytical
    P('C32', 'Analytical means, variances, densities and chfs are consistent',
      'For all admissible parameters, every analytical pdf is non-negative, '
      'integrates to one, has the stated mean and variance and is the '
      'derivative of the stated cdf; std is the square root of var; '
      'characteristic functions equal 1 at 0, are Hermitian, and generate the '
      'same mean, variance and density; stated values equal '
      'independent closed forms or numerical solutions for the documented '
      'SDE (Wiener, lognormal, Ornstein-Uhlenbeck, one- and two-factor '
      'Hull-White, CIR, Heston, Merton and Kou). '
      'Values broadcast over array-like arguments entry by entry.',
      ['inputs'],
      'all functions, parameters in their domains (correlation and factor '
      'axes included), times, evaluation points, shapes',
      'tests check one parameter set each, mostly shapes',
      [ANA], [('analytical functions', ANA)], ['function values']),
    P('C33', 'Realized processes follow the analytical laws',
      'Across paths, processes integrated with constant parameters have, '
      'within statistical and time-step error, the mean, variance, cdf and '
      'characteristic function given by the corresponding analytical functions, for '
      'all admissible parameters, forwards from the first timeline '
      'point, with independent components unless correlated and the '
      'requested correlation between factors or equations.',
      ['inputs', 'configurations'],
      'all preset processes with analytical counterparts, parameters, times',
      'test_quant uses 100 paths and one parameter set per process',
      [INT, ANA, INF], [('*_process', INT), ('*_mean/_var/_cdf/_chf', ANA)],
      ['sample statistics vs. analytical values']),
    P('C34', 'Black-Scholes values satisfy parity, bounds, deltas and limits',
      'bscall and bsput equal the discounted expectation of the '
      'payoff under the stated lognormal law, satisfy put-call '
      'parity and no-arbitrage bounds, and bscall_delta and bsput_delta are '
      'their derivatives in x0, for all positive k, x0, non-negative t, '
      'sigma and any r, q. '
      'At t=0 or sigma=0 they reduce to the discounted intrinsic value; '
      'd1 - d2 = sigma*sqrt(t); array-like arguments of any '
      'broadcastable shapes are accepted and treated entry by entry; the '
      'floating-point error settings of NumPy are left as found.',
      ['inputs'],
      'all parameters, limits included, scalars, lists and arrays',
      'test_bs samples a grid against a simulated payoff',
      [ANA], [('bsd1d2', ANA), ('bscall/bsput and deltas', ANA)],
      ['function values']),
]

# technique and level note of each check
_N = ('Exploration: every generated case is decided by an explicit oracle; '
      'no counterexample among them is not a proof. Trusts NumPy and SciPy. ')
_S = ('Statistical oracles use thresholds of about 1e-9 or less per test, '
      'with fixed seeds; smaller deviations go unnoticed. ')
TECHNIQUE = {
    'C01': ('construction from generated timelines, values and dtypes vs. a NumPy model', _N),
    'C02': ('differential test of ufuncs against plain arrays, with shape/timeline model', _N),
    'C03': ('differential test of ndarray methods and indexing against the array view', _N),
    'C04': ('differential test of indexing, reshaping and copies against a NumPy model', _N),
    'C05': ('reference interpolation (own linear/step formulas, interp1d) on generated timelines', _N),
    'C06': ('step function model evaluated away from segment boundaries', _N),
    'C07': ('independent summation in exact or float arithmetic per path/value/time', _N),
    'C08': ('explicit loop model and round trips between tder and tint', _N),
    'C09': ('direct averages over paths, entry by entry', _N),
    'C10': ('shape/dtype model and replay of generator states over generated sources', _N),
    'C11': ('moment and Kolmogorov-Smirnov tests on generated correlations, exact rejection tests', _N + _S),
    'C12': ('Poisson goodness of fit on generated intensities, sign/integrality invariants', _N + _S),
    'C13': ('exact accounting of increments against recorded counts and variates', _N + _S),
    'C14': ('moments, distribution tests and metamorphic mapping of generated jump laws', _N + _S),
    'C15': ('exact mirror relation and differential test with the plain source', _N),
    'C16': ('model-based testing of generated query histories against a memory model', _N),
    'C17': ('distribution tests of increments after generated query orders', _N + _S),
    'C18': ('batching-invariance against pooled reference statistics over generated histories', _N),
    'C19': ('reference histogram of the pooled sample over generated histories', _N),
    'C20': ('closed-form kernel mixture and interpolation model', _N),
    'C21': ('recording generator subclass against a model of the touched points', _N),
    'C22': ('generated SDE programs against a reference Euler recursion on recorded increments', _N),
    'C23': ('generated systems of SDEs against a reference Euler recursion per equation', _N),
    'C24': ('reference recursions of all preset processes on recorded increments', _N),
    'C25': ('metamorphic equality of parameter forms under equal generator states', _N),
    'C26': ('generated SDE functions: decorator vs. explicit subclass', _N),
    'C27': ('recording stub sources, exact call log and result model, rejection tests', _N),
    'C28': ('interleaved call histories against isolated reference runs', _N),
    'C29': ('diagnostics against counts recomputed from recorded steps and increments', _N),
    'C30': ('model-based testing of generated chains of partial calls', _N),
    'C31': ('differential test of shortcuts and kfuncs against what they abbreviate', _N),
    'C32': ('numerical integration, ODE and closed-form oracles for analytical functions', _N + 'Numerical oracles have stated tolerances.'),
    'C33': ('statistical tests of realized processes against analytical laws', _N + _S),
    'C34': ('independent quadrature, parity, bounds and finite differences', _N),
}
