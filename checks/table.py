"""property -> (module, function, technique, rule)"""
VN = 'abstract interpretation of the source (gated value numbering, loop summaries)'
CHECKS = {
    'C13': ('c13', 'run', VN + '; result terms compared with textbook formulas',
            'Every public Kalman primitive (pure and Cython source) is summarised for arbitrary dimensions and its '
            'result and in-place updates are compared, as value terms, with the textbook formula.'),
    'C14': ('c14', 'run', VN + '; translation comparison of the Cython source with the Python source',
            'Every public function and method of the compiled helper modules (Cython source) is summarised for '
            'arbitrary dimensions and its result and in-place updates are compared with the pure Python counterpart.'),
    'C15': ('c15', 'run', VN + '; moments of draws and log-densities compared with the Gaussian definition',
            'For constant and per-particle f, g, Q, R, every move, density, draw and proposal of the nonlinear Gaussian '
            'model is summarised for arbitrary dimensions; draws (affine in their normal variates) are compared by mean '
            'and covariance, log-densities as value terms.'),
    'C16': ('mix', 'c16', VN + '; mixed linear/nonlinear model operations compared with the joint Gaussian',
            'Every operation of the mixed model is summarised for all forms of its hooks and arbitrary dimensions and compared with conditioning in the joint Gaussian of linear state, noise and prediction.'),
    'C18': ('hier', 'c18', VN + '; hierarchical model operations compared with the conditionally Gaussian model',
            'Every operation of the hierarchical model is summarised for arbitrary user densities, all forms of the linear hooks and arbitrary dimensions and compared with conditional Kalman prediction, update and smoothing.'),
    'C19': ('lin', 'c19', VN + '; linear model operations compared with the Kalman filter and RTS smoother',
            'Every operation of the linear time-varying model is summarised for constant and time-varying dynamics, absent offsets and arbitrary dimensions and compared with Kalman prediction, update and RTS smoothing with the matrices of that time.'),
    'C20': ('all_bounds', 'run', VN + '; bound terms compared with the density at zero prediction error',
            'The bound of every model with a rejection bound is compared with the maximum over the particle set of the '
            'transition log-density at zero prediction error, with the data of the requested time step.'),
    'C17': ('marg', 'c17', VN + '; information-form terms compared with Gaussian marginalisation',
            'Backward weights and information forms of the marginalised mixed model are summarised for all forms of the dynamics, with and without data, and arbitrary dimensions and compared with the marginalisation of future, conditional dynamics and linear posterior.'),
    'C21': ('pack', 'c21', VN + '; stored state compared with what is read back',
            'State setters and getters of the mixed, hierarchical and linear models are composed for arbitrary dimensions; what is read must be the stored values, other columns unchanged, and storing what was read the identity.'),
    'C22': ('pack', 'c22', VN + '; moments along whole trajectories compared with conditional Kalman filter and RTS smoother',
            'Re-filtering and smoothing passes over trajectories of up to 3 (thorough: 4) steps with all positions of a missing measurement are summarised for arbitrary trajectory counts, dimensions and dynamics and every step compared with the recursive reference.'),
    'C01': ('flt', 'c01', VN + '; log-weight terms compared with the importance weights of each algorithm',
            'One forward step of all eight filters and every measurement update is summarised for arbitrary models (hooks) and sizes; the new log-weights must equal, up to a common constant, the importance weights of the algorithm.'),
    'C02': ('drv', 'c02', VN + '; every exponential of a log-weight proved to be shifted by its maximum',
            'Every exponential of a log-weight in filters, resampling, drivers and averages must have a maximum-0 or uniform argument; weight plus offset must equal the unshifted weight.'),
    'C03': ('flt', 'c03', VN + '; ancestors and propagated particles compared as terms',
            'Ancestors stored by one step of every filter must be the identity or the drawn indices, and propagated particles those of the selected ancestors, in agreement with the resampled flag.'),
    'C04': ('flt', 'c04', VN + '; last-slot and ancestor-weight terms compared with the conditional filters',
            'The last particle slot of every conditional filter must hold the reference state of that time; its ancestor must be fixed or drawn with previous weight times transition density.'),
    'C05': ('drv', 'c05', VN + '; draws compared with systematic resampling of the weights',
            'Index draws must be inversions of the normalised cumulative weights at (k+u)/n with one uniform; the resampling decision must be exactly ESS below threshold times count; weights become uniform.'),
    'C06': ('drv', 'c06', VN + '; data arguments of every model call traced to their time step',
            'In forward steps and driver runs the u, y, t arguments of every model call and all stored data must be those of the right time index, for all filters and storage modes.'),
    'C07': ('drv', 'c07', VN + '; effect analysis of writes and aliasing on stored history',
            'No write of a later step may reach arrays stored for earlier steps, the conditioning trajectory or arguments; stored steps share no array.'),
    'C23': ('obj', 'c23', VN + '; objective terms compared with the expected complete-data log-likelihood',
            'Every objective term of the linear and mixed models, the full-trajectory sums and the function handed to the numeric maximiser are summarised for arbitrary trajectories, parameters and dimensions and compared with the average expected complete-data log-likelihood.'),
    'C24': ('obj', 'c24', VN + '; gradient terms compared with the analytic derivative of the objective',
            'Every value-and-gradient method is summarised for arbitrary user-supplied derivatives (all subsets), parameters and dimensions; the value must equal the value-only objective and the gradient its exact derivative.'),
    'C25': ('em', 'c25', VN + '; EM iterations compared with the schedule and the stochastic-approximation recursion',
            'Three iterations of every driver are summarised for arbitrary models, counts, trajectories and results of simulation and maximisation (unknown functions), all forms of schedules and options; every simulate call, weight vector and trajectory set must be that of the schedule and recursion.'),
    'C26': ('instr', 'c26', VN + '; arguments, results and counters of every forwarded operation compared',
            'Every operation of the model interfaces, in every call form used in the library (read from its call sites), is run abstractly through the instrumenter over a model of unknown operations; arguments, result and the change of every counter must be those specified.'),
    'C29': ('udens', 'run', VN + '; density term compared with the convolution of two uniforms',
            'The density is summarised for arbitrary interval ends in either order and for the evaluation point in every region of the support, and compared with the overlap length of the two intervals over the product of their widths.'),
    'C35': ('comb', 'run', VN + '; attributes of combined objects compared with those of the parts',
            'Every model class of the library, with full and minimal options, is constructed abstractly in combination with each estimation base in every base order; all parts must be initialised with their own options and unknown options rejected.'),
    'C27': ('agg', 'c27', 'name, member and call-shape resolution over the syntax tree of the whole package; abstract interpretation of every analysis context for name, attribute and argument errors',
            'Every name load, module member, self attribute, object attribute and call in every function (executed or not) must bind to a definition that accepts it (library members and signatures are read from the installed numpy/scipy); in addition no analysis context of the other checks may reach an undefined name, a missing member, an unset attribute or local, or an argument its callee lacks.'),
    'C28': ('agg', 'c28', 'alias and effect analysis by abstract interpretation: every store is resolved to the cells it can reach, and stores into cells of read-only arguments are reported',
            'In every analysis context of the other checks (all evaluation, proposal, smoothing, objective, gradient, estimate and EM operations with arbitrary inputs), particles, trajectories, data and model matrices are distinct cells that views keep sharing; no store on any path may reach one the operation does not own.'),
    'C30': ('agg', 'c30', 'shape analysis with symbolic dimensions by abstract interpretation',
            'In every analysis context of the other checks, all counts and dimensions are distinct symbols; no array operation on any path may combine, index or store incompatible shapes, and results must have the shape of the mathematical reference.'),
    'C11': ('drv', 'c11', VN + '; exhaustive enumeration of names and options',
            'Every documented filter/smoother name is run abstractly; the class selected, options passed and errors raised are compared with the documented table.'),
    'C12': ('drv', 'c12', VN + '; estimate terms compared with stored particles and weights',
            'Estimates, weights and means reported by the simulator must be the stored terms; simulate() must feed data in order.'),
    'C08': ('smo', 'c08', VN + "; drawn backward indices compared with the kernel's own selection rule",
            "Every backward sampler is summarised for arbitrary models, particle and trajectory counts (rejection rounds 0-2, MCMC rounds 1-2); the indices returned must equal the kernel's selection from the same draws."),
    'C09': ('smo', 'c09', VN + '; acceptance log-ratio compared with the Metropolis-Hastings ratio',
            'One MH step, for every combination of history, future, proposal kind and measurement, must return the proposal where log(u) is below the exact ratio and the conditioned current state elsewhere, with that mask.'),
    'C10': ('smo', 'c10', VN + '; per-time data flow of whole smoother runs compared with the algorithm',
            'For every smoother, runs of 1-3 filter steps with arbitrary contents are summarised with the samplers as unknown functions of their arguments; every state must be drawn from the matching filter step, ancestors, future and data.'),
}

NOTE = ('Sound up to the modelled numpy/scipy transfer functions and real arithmetic: values are compared as terms for '
        'symbolic sizes; terms that are not syntactically equal are compared by evaluating the two terms at random '
        'points (one-sided error towards a missed difference only). Constructs the analysis cannot track are reported '
        'as undecided in the evidence, never as violations.')

NA = {
    'C31': 'Statistical convergence of Monte-Carlo estimates is a limit statement over random runs; no static argument '
           'over the source decides it (the per-step kernels it rests on are C01-C12).',
    'C32': 'Monotone likelihood is a fact about exact EM on real data; the implementation maximises numerically with '
           'scipy.optimize on Monte-Carlo estimates, which no static argument bounds (objective and gradients: C23, C24).',
    'C33': 'Accumulated floating-point rounding over unbounded histories is a run-time quantity; the analysis works in '
           'real arithmetic.',
    'C34': 'Termination of an accept-reject loop is a probabilistic run-time property depending on user densities.',
}
