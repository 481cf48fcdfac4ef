# -*- coding: utf-8 -*-
"""the properties: text, anchors and how they are decided"""
NOTE = ("Sound up to real arithmetic (no rounding) and to the models of numpy/xarray/scipy calls built into the analyser; "
        "sample count, data and real parameters are universally quantified, small structural parameters (dimension, degree, "
        "arity, option names) are enumerated. Constructs the analyser cannot model are reported as undecided in the evidence, never as violations.")
PROPS = []
TECH = "static analysis: interprocedural value-graph dataflow (gated value numbering) over the AST, compared with a reference"


def P(id, title, statement, over, text, why, files, mech, technique=TECH, note=NOTE, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=["VolterraBasis/" + f for f in files], mechanism=[dict(name=a, where="VolterraBasis/" + b) for a, b in mech]),
             technique=technique, note=note)
    if na:
        d["na"] = na
    PROPS.append(d)


P("C01", "Finite-difference velocities and accelerations are the documented stencils",
  "For every trajectory, the velocity and acceleration computed from positions (or the acceleration computed from velocities) are, at every kept time, exactly the documented finite-difference combination of the neighbouring samples divided by the step (or its square), for any weighting of forward and backward differences. Exactly the samples without the required neighbours are dropped, positions and times of kept samples are unchanged, and the input is not modified. When jump correction is on, a displacement beyond the threshold is shifted by one period before it enters any stencil.",
  ["inputs", "configurations"], "all trajectories of any length and 1-2 components, all steps, difference weights, jump sizes and thresholds",
  "The tests build trajectories only to feed bases; none compares a derivative with its stencil.",
  ["__init__.py"], [("shift/assign/dropna stencils", "__init__.py:compute_va, compute_va_gjf, compute_a, compute_a_from_vel")])
P("C02", "Framing and stacking a trajectory preserves data, times and step",
  "Wrapping arrays into a trajectory keeps every position, velocity and acceleration value in its row and column, turns one-dimensional series into single-column ones, and records the step as the spacing of the first two times; with time repair on, times become equidistant from zero with the rounded (or given) step. Stacking position and velocity for underdamped use puts positions above velocities and velocities above accelerations with the step kept.",
  ["inputs", "configurations"], "all series of any length, one or more components, with and without velocity/acceleration and time repair",
  "No test inspects the framed data sets.",
  ["__init__.py"], [("xr.Dataset construction", "__init__.py:xframe"), ("xr.concat", "__init__.py:concat_underdamped")])
P("C03", "Every basis returns arrays of exactly its advertised size",
  "After fitting on any data, every library basis returns values with one row per sample and one column per advertised basis element, first derivatives and Hessians with one trailing axis (two for Hessians) of the data dimension, and derivative column counts equal to the advertised count minus the constant columns when the constant is declared removed. This holds at every call, whatever was evaluated before.",
  ["inputs", "configurations", "histories"], "all sample sets, dimensions 1-3, both constant conventions, degrees/orders/knot counts enumerated",
  "The tests evaluate a few fixed bases on one random sample and mostly one configuration each.",
  ["basis/_basis_features.py", "basis/_local_features.py", "basis/_multidim_basis.py"], [("n_output_features_ and array allocation", "basis/*.py")])
P("C04", "Basis derivatives, Hessians and antiderivatives are mutually consistent",
  "For every library basis, every derivative column is the exact partial derivative of the corresponding value column, every Hessian column its exact second derivative (zero off-diagonal entries where the element depends on one coordinate), and the derivative of every antiderivative column is the value column. With the constant declared removed, the remaining derivative columns keep their order.",
  ["inputs", "configurations"], "all sample points, all fitted data descriptions, enumerated bases, degrees, orders and dimensions",
  "The tests look at shapes only; no numerical derivative is compared.",
  ["basis/_basis_features.py", "basis/_local_features.py"], [("deriv/hessian/antiderivative", "basis/_basis_features.py, basis/_local_features.py")])
P("C05", "Basis columns evaluate the documented functions",
  "Column by column, the polynomial basis is the chosen orthogonal or monomial family in increasing degree, the Fourier basis is the normalised constant followed by sine and cosine pairs of increasing harmonic, the linear basis is the (optionally centred) coordinate, and the spline bases are the B-splines on the equidistant knots of the fitted range or the given spline function. Coordinates are laid out innermost, so column k*dim+i belongs to coordinate i.",
  ["inputs", "configurations"], "all sample points and fitted ranges, enumerated families, degrees, orders, knot counts and dimensions",
  "The tests check shapes, never the functions evaluated.",
  ["basis/_basis_features.py", "basis/_local_features.py"], [("basis()", "basis/_basis_features.py, basis/_local_features.py")])
P("C06", "Smooth indicators form a partition of unity with exact derivatives",
  "For any set of disjoint increasing transition intervals, indicator k is one on its plateau, zero outside, and follows the chosen edge function inside the transitions, whichever way an interval is given; the non-periodic indicators sum to one everywhere. Reported first and second derivatives are the derivatives of these functions in every region, and the periodic variant folds the last indicator onto the first.",
  ["inputs", "configurations"], "all sample points, all interval positions and widths, 1-4 intervals, all named edges and user-supplied edge functions",
  "The tests check shapes for a single set of intervals.",
  ["basis/_local_features.py"], [("edge functions and gating", "basis/_local_features.py:SmoothIndicatorFeatures")])
P("C07", "Combined bases are exactly the concatenation of their parts",
  "A basis built by combining bases of one coordinate, or by a tensor product of bases per coordinate, returns for every sample the parts' columns (or all products of the parts' columns) in the documented order, and its derivatives, Hessians and column counts follow from the parts by the sum and product rules. Fitting fits every part on its own coordinate's description, a later fit replaces an earlier one, and repeated evaluation gives the same result.",
  ["inputs", "configurations", "histories"], "arbitrary user-supplied bases, all sample sets, enumerated arities and part sizes",
  "The tests combine two fixed library bases and look at shapes.",
  ["basis/_basis_features.py", "basis/_multidim_basis.py"],
  [("FeaturesCombiner.basis/deriv/hessian", "basis/_basis_features.py"), ("Tensorial products", "basis/_multidim_basis.py")])
P("C08", "Correlation estimators return the time-lagged average",
  "Each correlation routine returns, for every lag below the requested truncation, the sum over all overlapping samples of the lagged product divided by their number, for every pair of columns, lag counted from the first argument's earlier sample as documented. The FFT and direct routines compute the same quantity, omitting the second series gives the autocorrelation, and the arguments are not modified.",
  ["inputs", "configurations"], "all series of any length, any number of columns, all truncations",
  "No test exercises the correlation module.",
  ["correlation.py"], [("correlation_1D/ND, correlation_direct_1D/ND", "correlation.py")])
P("C09", "Averages over several trajectories pool all samples",
  "Every ensemble average the estimator computes over a list of trajectories of unequal lengths (feature means, Gram matrices, velocity covariance behind the effective mass, results of arbitrary per-trajectory functions) equals the sum over all samples of all trajectories divided by the total number of samples. The serial and the parallel loop give the same result, a single data set is treated like a one-element list, and the trajectories are not modified.",
  ["inputs", "configurations", "schedules"], "any lengths and data, one to three trajectories, every model class, serial and parallel loops",
  "The stable tests never run the estimator, and equal-length samples hide wrong weights.",
  ["gle_estimation.py", "models.py"], [("weights and loop_over_trajs", "gle_estimation.py:Estimator_gle._loop_over_trajs_serial/_loop_over_trajs_parallel"), ("_compute_gram, _compute_square_vel", "gle_estimation.py")])
P("C10", "Model features are the basis along the trajectory and its time derivative",
  "For every model class, the force features are the force basis evaluated on the trajectory (plus velocity times gradient for the friction model), and the kernel features and their time derivatives satisfy the chain rule for the given positions, velocities and accelerations. The features used to evaluate the kernel match those the kernel was correlated with, and their counts equal the sizes the model advertises; the constant is dropped only where documented.",
  ["inputs", "configurations"], "arbitrary user bases, all trajectories, dimensions 1-2, both constant conventions, every model class",
  "The tests never call basis_vector.",
  ["models.py"], [("basis_vector, setup_basis", "models.py:Pos_gle*, ModelBase")])
P("C11", "Estimated correlations are the pooled products of features and observable",
  "For every model class and option combination, the correlation matrices the estimator stores are, at every lag below the truncation, the average over all trajectories (weighted by length) of kernel feature times kernel feature, and of kernel feature times (observable minus fitted mean force) at the later time; the derivative matrices use the feature's time derivative as the earlier factor, and when second-order information is not requested only the lag-zero derivative correlation is stored. Serial, parallel, FFT, direct and vectorised computation give the same matrices with the documented dimension names and kernel-time axis. Requesting them before the mean force exists is an error.",
  ["inputs", "configurations", "schedules"], "all trajectories of unequal lengths, arbitrary user bases and fitted coefficients, dimensions 1-2, every model class, every option",
  "The stable tests never run the estimator; any correlation value would be accepted.",
  ["gle_estimation.py", "models.py", "correlation.py"], [("compute_corrs and per-trajectory products", "gle_estimation.py:Estimator_gle.compute_corrs/_compute_square..."), ("basis_vector(compute_for=...)", "models.py")])
P("C12", "The mean force solves the pooled least squares problem",
  "The fitted force coefficients times the Gram matrix of the force features (averaged over all samples of all trajectories) equal the average of feature times observed acceleration (or chosen observable), for every model class, dimension and constant convention, and are stored with one column per observable component. Choosing no force gives exactly zero coefficients of the right shape. Replacing the observable by the projected features uses the fitted features' own derivatives and keeps the features' dimension.",
  ["inputs", "configurations"], "all trajectories, arbitrary user bases of 1-3 functions, dimensions 1-2, serial and parallel",
  "The stable tests never fit a force.",
  ["gle_estimation.py", "models.py"], [("normal equations", "gle_estimation.py:Estimator_gle.compute_mean_force, compute_gram_force"), ("solve_linear", "gle_estimation.py")])
P("C13", "Inverted kernels satisfy the discretised Volterra equation",
  "Every point of the kernel returned by the compiled first-kind and second-kind routines (rectangle, midpoint, trapezoid, Simpson) is the exact solution of the routine's quadrature form of the Volterra equation given the correlations, the time step, the initial value and the earlier kernel points. This holds for any number of time points, basis functions and observables; the last point of the first-kind rectangle rule, which the scheme cannot determine, is zero.",
  ["inputs"], "all correlation arrays, steps and initial values; any length by induction, short lengths unrolled; 1-2 functions and observables",
  "No stable test calls the compiled inversion routines.",
  ["fkernel.f90"], [("kernel_first_kind_*, kernel_second_kind_*", "fkernel.f90")])
P("C14", "The kernel computation wires data, method and time axis correctly",
  "For every inversion method the estimator hands the stored correlations (on every third or every lag where Richardson extrapolation asks for it), time step and initial kernel value to the method's routine and combines the results as the method's formula requires. The returned kernel has one time label per point, equal to the time that point belongs to, the observable's dimension name, and the initial value computed from the lag-zero correlations unless one is given. An unknown method, or a method whose inputs have not been computed, is rejected.",
  ["inputs", "configurations"], "all correlations, any number of lags, 1-2 functions and observables, every method, with and without derivative correlations and given initial values",
  "No stable test computes a kernel.",
  ["gle_estimation.py"], [("compute_kernel", "gle_estimation.py:Estimator_gle.compute_kernel")])
P("C15", "Noise and noise correlations follow from the fitted model",
  "Along any trajectory the memory term is minus the quadrature of the kernel with the past kernel features over the elapsed time (at most the kernel's or the requested truncation length), and the noise is the observable minus mean force minus memory, on the trajectory's own time axis. The correlation of the noise with a left operator averages, over all starting points of all trajectories, the left operator at the start times the noise evolved from that start. The estimator's correlation is the average of those of its trajectories weighted by their lengths. The quadrature follows the method the kernel was computed with, and unsupported methods fall back as documented.",
  ["inputs", "configurations"], "all trajectories, kernels and coefficients, any length, kernels of 1-4 points or any length, every model class and inversion method",
  "No stable test computes the noise.",
  ["gle_estimation.py", "models.py", "fkernel.f90"], [("compute_noise, compute_corrs_w_noise", "gle_estimation.py"), ("memory_rect/trapz, corrs_rect/trapz", "fkernel.f90")])
P("C16", "Projection on the range is one consistent change of basis",
  "With range projection switched on, the correlations, the lag-zero and derivative correlations, the kernel features and the Gram matrix are all expressed in the same reduced basis, each kernel-feature index being projected exactly once, and the force part is not projected. The projection consists of the leading left singular vectors of the lag-zero correlation whose singular values exceed the tolerance. Results computed with and without projection have matching dimension names.",
  ["inputs", "configurations"], "all correlations, tolerances and trajectories, models of 2-3 kernel functions",
  "No stable test uses the projection.",
  ["models.py", "gle_estimation.py"], [("set_range_projection", "models.py"), ("P_range application", "gle_estimation.py, models.py")])
P("C17", "Volterra quadratures, evolution and flux follow their formulas",
  "The compiled partial quadratures weight the kernel samples as the rectangle, midpoint, trapezoid or Simpson rule prescribes for the given number of intervals. Each step of the model's time evolution is the implicit step of the chosen scheme applied to the previous values with the force term and the memory over the (truncated) kernel, starting from the given value, with times spaced by the step. The flux of an evolved matrix is the force term plus minus the quadrature with the chosen coefficients; inconsistent shapes are rejected.",
  ["inputs", "configurations"], "all kernels, forces and initial values, any number of intervals for the quadratures, short evolutions unrolled, 1-2 functions",
  "No stable test calls the evolution or the quadratures.",
  ["models.py", "fkernel.f90"], [("evolve_volterra, flux_from_volterra", "models.py"), ("solve_ide_*, *_integral", "fkernel.f90")])
P("C18", "Compiled routines stay inside their arrays and assign every result",
  "For every size of input the wrappers accept, each compiled routine reads and writes only inside the extents of its arrays, combines only operands of matching shapes, and assigns every element of what it returns.",
  ["inputs"], "all sizes by symbolic bounds, small sizes unrolled; every routine in the module",
  "The extension is built without bounds checking and the stable tests never call it.",
  ["fkernel.f90"], [("array subscripts and declarations", "fkernel.f90")])
P("C19", "Fitted force, free energy, friction, kernel and inverse mass evaluate as fitted",
  "For every model class and any fitted coefficients, the force, friction, inverse mass and kernel evaluated at given points are the model's features at those points times the stored coefficients (or the coefficients given in the call), point by point and lag by lag, with one column per component. The free energy is minus the antiderivative of the force times the given or default mass over kT, shifted to minimum zero unless another shift is asked for. Missing coefficients, and coefficients for another number of functions, are rejected instead of being evaluated.",
  ["inputs", "configurations"], "all points, coefficients and kernels, arbitrary user bases, points as array, data array or data set, dimensions 1-2, every model class, every lag",
  "No stable test evaluates a fitted model.",
  ["models.py"], [("force_eval, pmf_eval, kernel_eval, inv_mass_eval, friction", "models.py")])
P("C20", "The estimator derives step, weights, description and truncation from all data",
  "For any list of trajectories the description handed to the basis has the total number of samples, the extremes over all trajectories and the length-weighted mean, the basis is fitted with it unless it was fitted before, and the stored weights are the shares of the samples. The step is the trajectories' own step, the truncation is the number of samples up to the shorter of the requested length and the shortest trajectory, and the estimator offers the model's public methods. Trajectories without a time dimension, the step attribute or a needed variable are rejected, also when they come second.",
  ["inputs", "configurations"], "all trajectories of unequal lengths, one to three of them, dimensions 1-2, every model class, serial and parallel",
  "The stable tests never build an estimator.",
  ["gle_estimation.py", "models.py"], [("Estimator_gle.__init__, describe_data", "gle_estimation.py"), ("pool_describe/minimal_describe", "gle_estimation.py")])
P("C21", "A saved and reloaded model is the same model",
  "For every model class and any subset of fitted quantities, saving the model to a data set and loading it back gives a model with the same force coefficients, kernel, Gram matrices, projection, step, truncation, observable, dimensions, masses and inversion method, and it evaluates to the same values. Quantities never computed are still absent after loading, and keyword arguments given to the load replace the stored ones. Neither saving nor loading modifies the model, the data set or its attributes.",
  ["inputs", "configurations"], "all coefficient and kernel values, dimensions 1-2, every model class, every subset of stored quantities used by the library",
  "No stable test saves a model.",
  ["models.py"], [("save_model, load_model", "models.py")])
P("C22", "Laplace transform and inversion check integrate the kernel over its own times",
  "The Laplace transform of a kernel is, for every requested value s and every pair of basis function and component, the Simpson integral of exp(-s t) times the kernel over the kernel's own times, on the requested equidistant values of s. The inversion check is minus the trapezoid rule of the product of the kernel and the earlier kernel-feature correlations over the elapsed times, and its difference to the stored correlation when asked for. A model without a kernel is rejected.",
  ["inputs", "configurations"], "all kernels, correlations and times, any length, 1-2 functions and components, default and given ranges of s",
  "No stable test calls either method.",
  ["models.py", "gle_estimation.py"], [("laplace_transform_kernel", "models.py"), ("check_volterra_inversion", "gle_estimation.py")])
P("C23", "The integrator advances the fitted equation by Runge-Kutta steps with memory",
  "From any history, every new position and velocity of a simulated trajectory is one fourth-order Runge-Kutta step of dx/dt = v, dv/dt = fitted force + noise - memory, the memory being the trapezoid rule of the (truncated, optionally projected) kernel over the past kernel features, taken at both ends of the step and interpolated between. The given history is kept unchanged, times are spaced by the step and a start without history begins at rest in the origin. A random starting window is a contiguous piece of one of the given trajectories, any of which can be drawn.",
  ["inputs", "configurations", "histories"], "all histories, coefficients, kernels and noises, arbitrary user bases, dimensions 1-2, kernels and histories of 1-5 points, one step (one to three with identity features)",
  "No stable test runs the integrator.",
  ["gle_integrate.py"], [("Integrator_gle.run, _rk_step, _f_rk, _mem_int_red", "gle_integrate.py"), ("initial_conditions", "gle_integrate.py")])
P("C24", "Coloured noise is white noise shaped by the kernel's spectral square root",
  "The noise of the stationary generator is, for every component, the white noise convolved (centred) with the inverse transform of the square root of the transform of the evenly continued kernel, scaled by the root of the step, with as many samples as asked for; the integrators use the fitted kernel contracted with the noise coefficients on the kernel's times. The Karhunen-Loeve generator returns the eigenvectors of the covariance times the root eigenvalues times white noise, cut to the requested length, and rejects longer requests. The stationary covariance matrix has the kernel at the time difference, and the backward kernel for negative differences.",
  ["inputs", "configurations"], "all kernels, white noise draws and steps; kernels of 2-5 points (any size for Karhunen-Loeve), shorter and longer noises than the kernel, dimensions 1-2",
  "No stable test draws noise.",
  ["gle_integrate.py"], [("ColoredNoiseGenerator", "gle_integrate.py"), ("KarhunenLoeveNoiseGenerator", "gle_integrate.py"), ("Integrator_gle.__init__", "gle_integrate.py")])
P("C25", "Kernel fits use, store and evaluate the named function per component",
  "Each named function type (exponential, normalised and double normalised exponential, the sech family, Gaussian) is fitted to the given times and values by least squares with its own formula, and evaluating the returned parameters applies that same formula at the given times. A kernel fit treats every pair of basis function and component on its own and stores and evaluates it at the pair's place; Prony series evaluate to the initial value times the (0,0) entry of the exponential of time times the fitted matrix, and the Markovian friction is the Simpson integral of each kernel component. A Prony fit takes the series divided by its first value, the spacing of the times and the given threshold and number of terms, and returns the first value with the fitted matrix, per kernel component; the fitted matrix before cleaning represents the shift by one sample in the orthogonal polynomials of the Hankel matrix. That Hankel matrix is rebuilt from the singular values of the data above the threshold (never more than the number of terms to keep, and any number may be asked for); its polynomials are orthogonal for it and normalised, with the signs of their norms. Cleaning drops the eigenvalues of modulus above one (unless told not to) with their vectors, and returns the real matrix whose eigenvalues are the logarithms of the others divided by the step, a real negative one entering with both of its conjugate logarithms. Inspection returns the series rebuilt from the same filtered matrix, at the scale of the data. The asymptotic fit takes the last half of the cumulative trapezoidal integral. Unknown function types are rejected and neither times nor kernels are modified.",
  ["inputs", "configurations"], "all kernels, times and parameters, flat and column times, 1-3 basis functions and components, every type and alias; the least squares optimiser itself is trusted",
  "No stable test fits a kernel.",
  ["fit_memory.py", "fit_prony.py", "models.py"], [("memory_fit, memory_fit_eval, memory_fit_kernel, memory_kernel_eval", "fit_memory.py"), ("prony_series_eval, prony_series_kernel_eval, ldl_hankel, clean_eigenvalues, get_jacobi_matrix_reduced, prony_inspect_data", "fit_prony.py")])
P("C26", "The free energy histogram counts every frame of every trajectory once",
  "The position range of all trajectories together, from the smallest to the largest position, is divided into as many equal bins as requested (or into the automatic ones), and every frame of every trajectory, the extreme ones included, is counted in exactly one of them. The histogram is the share of the frames per bin at the bin centre. The free energy is minus its logarithm on the bins that were visited, shifted to a minimum of zero; mean acceleration and mean square velocity are averages over the pooled frames of each bin, the force is minus the slope of the interpolating spline of the free energy times kT over the pooled mean square velocity, and the total force the slope of the spline of mean square velocity times share, over the share. Bins no trajectory or only some trajectories visit do not disturb the others, and the trajectories are not modified.",
  ["inputs", "configurations"], "all one-dimensional trajectories of unequal lengths (one or two of them), any number of bins, automatic bins, with and without the histogram option",
  "The tests never compute a free energy, and a lost extreme frame or an unpooled bin shows only for particular data.",
  ["__init__.py"], [("compute_1d_fe", "__init__.py")])
P("C27", "Finite element features evaluate the functions of the element at each point",
  "Every point is placed in a mesh element that contains it, for meshes in one, two and three dimensions whatever the order of their vertices or the number of their elements, the upper end of a line included. The feature values (gradients) of a point are the values (gradients, component by component) of the containing element's functions at the point's local coordinates, stored under the functions' global numbers; all other entries are zero, and there is one column per global function. The caller's points are not modified and repeated evaluations agree.",
  ["inputs", "configurations"], "all points inside the mesh, arbitrary element functions and global numberings; line meshes with sorted, refined and reordered vertices, simplices in 2-3 dimensions with 1-3 elements and any vertex positions; the finite element library's mapping and element functions are trusted",
  "The tests only look at the shapes of the result, on one mesh.",
  ["basis/_fem_features.py"], [("ElementFinder", "basis/_fem_features.py"), ("FEMScalarFeatures.basis, deriv", "basis/_fem_features.py")])
P("C28", "Meshes span the given interval with nodes at the documented places",
  "A uniform line of n elements has n+1 nodes, from the first to the second given end, in equal distances; a geometric line has n+1 nodes between the same ends whose successive element lengths have the given ratio, a ratio of one included. A line built from data runs from the given start or, without one, from the smallest value of the data to the given end or the largest value, in the requested number of equal elements. A line built from cluster centres is the smallest value, the sorted centres and the largest value. A mesh built from cluster centres has as vertices the given boundary vertices followed by the centres, and as elements their triangulation. The intersection of two lines is the point which lies on both, and infinite for parallel lines. The data and the boundary handed in are not modified.",
  ["inputs", "configurations"], "all ends, numbers of elements (any number for uniform lines, 1-4 for geometric ones), ratios, data and boundaries; the clustering and triangulation libraries are opaque functions of exactly these arguments",
  "The tests build one mesh of one size and never look at the places of its nodes.",
  ["basis/_mesh_utils.py"], [("uniform_line, non_uniform_line, data_driven_line, centroid_driven_line, centroid_driven_mesh, get_intersect", "basis/_mesh_utils.py")])
P("C29", "The position-dependent inverse mass is fitted to all trajectories",
  "The coefficients of the position-dependent inverse mass solve the normal equations of the kernel features, pooled over all samples of all trajectories: their Gram matrix times the coefficients is the mean of feature times velocity times velocity. The fitted inverse mass can be evaluated, giving one matrix per point. The numerically integrated free energy is the running sum of minus the force less the slope of the inverse mass, over the inverse mass, times the spacing of the points, shifted to a minimum of zero if asked. Neither trajectories nor points are modified, and serial and parallel loops agree.",
  ["inputs", "configurations"], "all trajectories of any lengths, all points and coefficients, every model class in one dimension, gradient and constant kernels in two, one to three trajectories",
  "No stable test computes a position-dependent mass.",
  ["gle_estimation.py", "models.py"], [("compute_pos_effective_mass", "gle_estimation.py"), ("inv_mass_eval, pmf_num_int_eval", "models.py")])
