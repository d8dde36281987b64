# ---------------------------------------------------------------- parametrizations
prop('P01', 'Direction pairs survive a round trip through every parametrization',
 'For every supported input parametrization that has both conversions, converting in-domain coordinates to the Cartesian pair (view first, light second) gives two unit vectors, and converting that pair back gives the same coordinates. Converting directly between two parametrizations gives the same result as converting through Cartesian coordinates, and converting a parametrization to itself returns the coordinates unchanged.',
 ['inputs'], 'all coordinates in the domain of each parametrization',
 'The tests convert a few hand-picked or sampled directions for a handful of parametrizations; an error that appears on one branch, octant or coordinate sign escapes them.',
 ['sources/core/params.h', 'sources/core/params.cpp'],
 [('conversion to Cartesian coordinates', 'sources/core/params.cpp params::to_cartesian, params.h half_to_cartesian'), ('conversion from Cartesian coordinates', 'sources/core/params.cpp params::from_cartesian'), ('dispatch', 'sources/core/params.h params::convert')])
prop('P02', 'Every parametrization computes its documented coordinates from a direction pair',
 'For any two unit directions, the coordinates produced by each input parametrization are the documented quantities: the half, back and difference vectors, their elevation and azimuth angles, the cosines of the light/view/half/back/reflected angles, the projected and stereographic coordinates, and the Stark and Neumann half/back norms. The half vector is the normalised sum of view and light, and the difference vector is the view vector rotated into the frame of the half vector.',
 ['inputs'], 'all pairs of unit view and light directions (degenerate pairs with no half or back vector excluded)',
 'Tests compare a few conversions with each other, which leaves a definition that is wrong in both directions, or wrong only for some directions, undetected.',
 ['sources/core/params.cpp', 'sources/core/params.h'],
 [('conversion from Cartesian coordinates', 'sources/core/params.cpp params::from_cartesian'), ('half vector', 'sources/core/params.cpp half_vector')])
prop('P03', 'Parametrization names, dimensions and identifiers agree',
 'Every input and output parametrization has one name; parsing that name gives back the same parametrization, and its dimension is the number of coordinates the conversions read and write. Unknown names parse to the unknown parametrization.',
 ['inputs', 'configurations'], 'all input and output parametrizations, all strings as names',
 'Tests parse the few names that appear in their command lines; a swapped or missing table entry shows up only for the parametrization concerned.',
 ['sources/core/params.cpp', 'sources/core/params.h'],
 [('tables', 'sources/core/params.cpp create_map, create_output_map'), ('lookup', 'sources/core/params.cpp parse_input, parse_output, get_name, dimension')])
prop('P04', 'Conversion of output values copies, spreads or averages the channels',
 'Converting output values between numbers of channels copies them when the numbers agree, repeats a single channel into every output channel, and replaces several channels by their mean when one channel is asked for; the previous contents of the destination never influence the result.',
 ['inputs'], 'all values, numbers of channels and previous destination contents',
 'No test converts from several channels to one, and none starts from a destination that is not zero.',
 ['sources/core/params.h'], [('output conversion', 'sources/core/params.h params::convert (output)')])
# ---------------------------------------------------------------- models
prop('P05', 'Analytic Jacobians equal the partial derivatives of the value',
 'For every reflectance lobe, Fresnel term and shadowing term of the library, every entry of the Jacobian returned for an input is the partial derivative, with respect to that parameter, of the value returned for that output channel, laid out channel after channel with one entry per parameter. This holds for scalar and RGB outputs, on every branch of the model, and where the model is constant the entries are zero.',
 ['inputs', 'configurations'], 'all parameter values, all unit direction pairs (or scalar inputs), scalar and RGB outputs',
 'The single fitting test exercises one model; a wrong derivative only slows or biases a fit and no test compares derivatives with values.',
 ['sources/plugins/nonlinear_function_ward/function.cpp', 'sources/plugins/nonlinear_function_beckmann/function.cpp', 'sources/plugins/nonlinear_function_blinn/function.cpp', 'sources/plugins/nonlinear_function_lafortune/function.cpp', 'sources/plugins/nonlinear_function_abc/function.cpp', 'sources/plugins/nonlinear_function_spherical_gaussian/function.cpp', 'sources/plugins/nonlinear_shadowing_smith/function.cpp', 'sources/plugins/nonlinear_shadowing_walter_smith/function.cpp', 'sources/plugins/nonlinear_fresnel_schlick/function.cpp', 'sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp'],
 [('Jacobian', 'parametersJacobian of every nonlinear_* plugin'), ('value', 'value of every nonlinear_* plugin')])
prop('P07', 'The parameter vector of a model is read back as it was set',
 'For every model, setting a parameter vector and reading it back gives the same vector, of the announced length, and the lower and upper bound vectors have that length with no lower bound above its upper bound. Setting parameters never changes their number.',
 ['inputs', 'configurations'], 'all parameter values, scalar and RGB outputs, every model option',
 'Tests set the parameters of at most two models and never read them back individually.',
 ['sources/core/function.h', 'sources/plugins/nonlinear_function_lafortune/function.cpp', 'sources/plugins/nonlinear_function_retroyoo/function.cpp', 'sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp'],
 [('parameter access', 'parameters, setParameters, getParametersMin, getParametersMax of every nonlinear_* plugin')])
prop('P08', 'Sums and products of models compose values, parameters and Jacobians',
 'The value of a sum (product) of models is the channel-wise sum (product) of the values of its parts at the same pair of directions; its parameter vector and its bounds are those of the non-fixed parts, in order, and setting parameters reaches exactly the non-fixed parts. The Jacobian is that of the composed value with respect to that parameter vector, whichever parts are fixed.',
 ['inputs', 'configurations'], 'any parts (abstract values and Jacobians), all fixed/free combinations, all parameter values',
 'The tests fit at most one composition and never with fixed parts in front of free ones.',
 ['sources/core/function.cpp', 'sources/core/function.h'],
 [('sums', 'sources/core/function.cpp compound_function'), ('products', 'sources/core/function.cpp product_function')])
prop('P09', 'Reflectance models compute their published formulas',
 'For all parameters and all pairs of unit directions above the horizon, every reflectance lobe, Fresnel term and shadowing term returns the value of its published formula (Ward, Beckmann, Blinn, Lafortune, ABC, shifted gamma, spherical Gaussian, Yoo retroreflection, Lambert, Schlick and its normalised and retro variants, Schlick, Smith and Walter-Smith shadowing), one value per output channel from that channel\'s own parameters. Directions for which the lobe is not defined give zero.',
 ['inputs', 'configurations'], 'all parameter values, all unit direction pairs, scalar and RGB outputs',
 'Tests evaluate one or two lobes at a few points, in fits that tolerate errors.',
 ['sources/plugins/nonlinear_function_ward/function.cpp', 'sources/plugins/nonlinear_function_sgd/function.cpp', 'sources/plugins/nonlinear_function_lafortune/function.cpp', 'sources/plugins/nonlinear_shadowing_walter_smith/function.cpp', 'sources/plugins/nonlinear_fresnel_retroschlick/function.cpp'],
 [('value', 'value of every nonlinear_* plugin')])
# ---------------------------------------------------------------- rational functions
prop('P10', 'Rational basis indices enumerate every multi-degree once, by total degree',
 'The multi-degrees attached to the basis functions of a rational function are pairwise distinct, have non-negative components, are ordered by non-decreasing total degree, and every multi-degree of lower total degree appears before any of higher total degree.',
 ['inputs'], 'all dimensions and basis indices',
 'Tests use one or two dimensions and a few dozen coefficients.',
 ['sources/core/rational_function.cpp'], [('degree enumeration', 'sources/core/rational_function.cpp estimate_dk, populate, index2degree')])
prop('P11', 'Rational functions evaluate numerator over denominator in the announced basis',
 'The value of a rational function is, in each channel, the ratio of the two linear combinations of basis functions with the stored coefficients; the basis functions are monomials, Chebyshev, Legendre or cosine products of the input scaled to [-1,1] over the definition domain. The numerator and denominator evaluated separately are exactly the two parts of that ratio.',
 ['inputs', 'configurations'], 'all coefficients, inputs, numbers of coefficients and channels',
 'Tests compare fitted results within tolerances and never evaluate the parts separately.',
 ['sources/core/rational_function.cpp', 'sources/plugins/rational_function_chebychev/rational_function.cpp', 'sources/plugins/rational_function_legendre/rational_function.cpp', 'sources/plugins/rational_function_cosine/rational_function.cpp'],
 [('evaluation', 'sources/core/rational_function.cpp value, p, q'), ('bases', 'rational_function_* plugins p, q')])
prop('P21', 'Rational fit constraints are the interval inequalities, and fits satisfy them',
 'The quadratic programming fitters (sequential and parallel) give the solver, for each output channel, two rows per sample with interval [low, up], which coefficients satisfy without slack exactly when the numerator lies between low and up times the denominator, for a denominator of one sign; the slack of each row is delta times the norm of the row. The objective is the squared norm of the coefficients. A function that a fit reports as found lies in the interval of every sample of the data, not only of those given to the solver. Data without intervals are converted to intervals around every one of their samples before a parallel fit. The eigenvector fitter returns the coefficients of smallest squared residual p - y q over the samples among the eigenvectors of the system it hands to the solver, and the least-squares fitter the least-squares numerator for its denominator.',
 ['inputs', 'configurations'], 'all samples, interval bounds, basis values and coefficient counts',
 'The fitting tests only look at whether a fit is found, not at the constraints.',
 ['sources/plugins/rational_fitters/quadprog.cpp', 'sources/plugins/rational_fitters/quadprog_parallel.cpp', 'sources/plugins/rational_fitters/quadratic_program.h', 'sources/plugins/rational_fitters/eigen.cpp', 'sources/plugins/rational_fitters/leastsquare.cpp'],
 [('constraint rows', 'get_constraint of the quadratic programming fitters'), ('acceptance of a fit', 'quadratic_program::test_constraints, fit_data')])
# ---------------------------------------------------------------- data
prop('P12', 'Interval data returns each sample with the interval that encloses it',
 'A data set of vertical intervals returns, for every stored sample and output channel, lower and upper bounds that enclose the value, taken from the confidence intervals when the data has them and otherwise the value minus and plus the requested relative or absolute width, never below zero when zero-clamping applies.',
 ['inputs', 'configurations'], 'all sample values, widths, and interval options',
 'Tests load one-dimensional files and never look at asymmetric or multi-channel intervals.',
 ['sources/core/vertical_segment.cpp', 'sources/core/vertical_segment.h'], [('interval access', 'sources/core/vertical_segment.cpp get, set, vs')])
prop('P13', 'MERL tables map every measured cell to itself',
 'Every cell index of a MERL table gives half/difference angles that look up the same cell again, angles inside the tabulated range always address a cell inside the table, and values are returned per channel with the documented channel scales.',
 ['inputs'], 'all cell indices and all in-range angles',
 'The table has 1.4 million cells and no MERL file is shipped with the tests.',
 ['sources/plugins/data_io/merl.cpp'], [('index maps', 'sources/plugins/data_io/merl.cpp theta_half_index, theta_diff_index, phi_diff_index, get, set, value')])
prop('P14', 'UTIA tables return what was stored for every cell and interpolate in between',
 'Every cell of a UTIA table, in every colour plane, is returned with the angles it was measured at and the value that was stored there, and reading it back through the angles returns that value. Between measured angles the result is a convex combination of the neighbouring cells, with azimuths wrapping around.',
 ['inputs'], 'all cells, planes, stored values and angles',
 'No UTIA file is shipped with the tests.',
 ['sources/plugins/data_io/utia.cpp'], [('cell access', 'sources/plugins/data_io/utia.cpp get, set, value')])
prop('P15', 'Image slices return what was stored for every pixel',
 'Every pixel of an image slice is returned with the coordinates of that pixel and the value stored there, and setting a sample at those coordinates changes that pixel only. No coordinate inside the closed domain addresses a pixel outside the image.',
 ['inputs'], 'all image sizes, pixels, stored values and coordinates in the domain',
 'The slice plugin is not exercised with images by the tests.',
 ['sources/plugins/data_io/slice.cpp'], [('pixel access', 'sources/plugins/data_io/slice.cpp get, set, value')])
prop('P16', 'Grid interpolation reproduces its samples and never reads outside the grid',
 'A regular grid evaluated at a stored sample position returns the stored value, evaluation anywhere inside the domain is the multilinear combination of the surrounding samples with weights that sum to one, and no evaluation reads outside the stored samples. A grid that was saved with its size is loaded back as a grid of that size with the same samples and parametrizations; a file with another number of samples is refused.',
 ['inputs'], 'all grid sizes, sample values and positions in the domain',
 'Tests interpolate a few points of one grid.',
 ['sources/plugins/data_interpolants/grid.cpp'], [('interpolation', 'sources/plugins/data_interpolants/grid.cpp value, get, set')])
prop('P17', 'Text data files are read back as they were written',
 'Writing a data set as text and loading the file gives a data set with the same dimensions, parametrizations and number of samples, and the same coordinates and values in the same order.',
 ['inputs', 'histories'], 'all data sets (values, dimensions, parametrizations, sample counts)',
 'The round-trip test uses one small data set whose numbers survive decimal formatting.',
 ['sources/core/data_storage.cpp', 'sources/core/vertical_segment.cpp'], [('text format', 'sources/core/data_storage.cpp save_data_as_text, load_data_from_text')])
prop('P24', 'Binary data files are read back bit for bit',
 'Writing a data set in the binary format and loading the file gives the same header (dimensions, parametrizations, sample count) and exactly the same numbers in the same order; a file with fewer numbers than its header announces is refused.',
 ['inputs', 'histories'], 'all data sets and truncations of their files',
 'The round-trip test uses one data set and never truncates the file.',
 ['sources/core/data_storage.cpp'], [('binary format', 'sources/core/data_storage.cpp save_data_as_binary, load_data_from_binary')])
prop('P22', 'Data set comparison accepts equal data and rejects any differing value',
 'Two data sets compare equal exactly when they have the same number of samples, the same parametrizations and every coordinate and value differs by no more than the tolerance, which is a small number by default; a value that is not a number equals nothing.',
 ['inputs'], 'all pairs of data sets and tolerances',
 'The tests compare data sets that are equal and never sets that differ slightly.',
 ['sources/core/data.cpp', 'sources/core/data.h'], [('comparison', 'sources/core/data.cpp data::equals')])
prop('P18', 'Error metrics compute the norms they name over the samples the mask selects',
 'The L1, L2, L3 and L-infinity norms, the mean-square and the root-mean-square errors reported between two value sets are those norms, per channel, over exactly the samples the mask selects (all samples without a mask), and no sample outside the sets is read. The light-weighted and the light-and-view-weighted errors that fit2stat reports weight every deviation by the cosines they name; samples with both directions below the surface count as no deviation. The L2 and L-infinity distances between a function and a data set are the root mean square and the maximum of the deviations over all samples.',
 ['inputs'], 'all sample values, numbers of samples and masks',
 'The metric tools are only run with their help options.',
 ['sources/core/metrics.cpp', 'sources/core/metrics.h', 'sources/core/function.cpp', 'sources/softs/fit2stat/fit2stat.cpp'], [('metrics', 'sources/core/metrics.cpp errors'), ('distances', 'sources/core/function.cpp L2_distance, Linf_distance'), ('weights', 'sources/softs/fit2stat/fit2stat.cpp')])
prop('P19', 'Command-line options and configuration vectors parse to what was written',
 'Every option given as "--key value" is found under its key with exactly that value, a key without value is defined and empty, keys that were not given are not defined, and a bracketed, comma-separated vector parses to its components in order.',
 ['inputs'], 'all argument lists',
 'Tests pass a handful of fixed command lines.',
 ['sources/core/args.h'], [('parsing', 'sources/core/args.h arguments')])
prop('P20', 'A saved function loads back with the same parameters',
 'Saving a function model in the native text format and loading the file into a model of that kind gives the same dimensions, input parametrization and options and exactly the same parameter values for every channel and lobe, so that both return equal values for every input; sums and products restore every part, and a rational function its domain and all coefficients.',
 ['inputs', 'histories', 'configurations'], 'all models, options and parameter values',
 'Only one or two models are saved and reloaded by the tests, with parameters that have few digits.',
 ['sources/core/function.cpp', 'sources/core/rational_function.cpp', 'sources/plugins/nonlinear_function_lafortune/function.cpp', 'sources/plugins/nonlinear_function_spherical_gaussian/function.cpp'],
 [('native format', 'save_call and load of every function')])
prop('P23', 'Cosine factors are removed by dividing by the cosines of both directions',
 'Loading a text file with --data-correct-cosine divides every value, and both bounds of its interval, by the cosine of the light elevation times the cosine of the view elevation of its sample, drops the samples with a direction at or below the horizon, and changes nothing else. Fitting the diffuse term starts, per channel, from the smallest value of the data over all samples; on data that carries the cosine factor (its output type says so, or --cos-fit) from the smallest quotient of the value and the product of both cosines over the samples with both directions above the horizon.',
 ['inputs', 'configurations'], 'all values and direction pairs',
 'No test uses a cosine-weighted output.',
 ['sources/core/params.h', 'sources/core/data_storage.cpp', 'sources/plugins/nonlinear_function_diffuse/function.cpp'], [('cosine factor', 'sources/core/data_storage.cpp load_data_from_text'), ('weighted output', 'sources/core/params.h is_cosine_weighted'), ('diffuse bootstrap', 'sources/plugins/nonlinear_function_diffuse/function.cpp bootstrap')])
prop('P26', 'The solvers see the residual of the model and its derivative',
 'The residual vector handed to the nonlinear least-squares solver has, for each sample and output channel, the difference between the measured value and the model value at that sample, both with the cosine factor when the fit asks for it, and the matrix handed with it is the derivative of that residual with respect to the parameters; for a compound function fitted part by part, of the part that is fitted. The fit starts from the bootstrapped parameters, refuses to start from parameters outside their bounds, and leaves the function with the parameters the solver found. The NLopt fitter gives its optimiser the sum over samples and channels of the squared differences between model and data, with its gradient and the bounds of the model, and succeeds exactly when the optimiser does; the Ceres fitter gives its solver that difference for each sample, or the difference of the logarithms of one plus each value with --log-fit, with its derivative, refuses parameters outside the bounds, and succeeds exactly when the solver finds a usable solution. Both convert each sample to the parametrization of the model, start from the bootstrapped parameters, leave a successful fit with the parameters found and the domain of the data, and pass on the optimiser, the limits on iterations and the tolerances that are asked for.',
 ['inputs', 'configurations'], 'any model (abstract value and Jacobian), all samples and parameter values',
 'The fitting test only checks the final distance of one fit.',
 ['sources/plugins/nonlinear_fitter_eigen/fitter.cpp', 'sources/plugins/nonlinear_fitter_nlopt/fitter.cpp', 'sources/plugins/nonlinear_fitter_ceres/fitter.cpp'], [('residual functor', 'sources/plugins/nonlinear_fitter_eigen/fitter.cpp EigenFunctor, CompoundFunctor'), ('driver', 'sources/plugins/nonlinear_fitter_eigen/fitter.cpp fit_data'), ('NLopt', 'sources/plugins/nonlinear_fitter_nlopt/fitter.cpp f, df, fit_data'), ('Ceres', 'sources/plugins/nonlinear_fitter_ceres/fitter.cpp CeresFunctor, fit_data, set_parameters')])
prop('P36', 'The quadratic solver finds the feasible point of least objective',
 'For a strictly convex quadratic objective and well-scaled linear constraints, QuadProg++ returns the point of least objective among those that satisfy every equality and inequality, with the value of the objective there, and infinity (or the largest number, when it gives up) exactly when no point satisfies them. It finds the same point in every order in which it can be told to look at the inequalities (the worst first, sliding windows of any size, growing or not, the worst set first), with or without inequalities, and whatever constraints enter and leave the active set on the way.',
 ['inputs', 'configurations'], 'all programs of the sizes stated',
 'No test runs the solver by itself; the fitting tests look at the exit status.',
 ['external/quadprog++/QuadProg++.cc', 'external/quadprog++/QuadProg++.hh'], [('solver', 'external/quadprog++/QuadProg++.cc solve_quadprog, solve_quadprog_with_guess'), ('active set', 'external/quadprog++/QuadProg++.cc add_constraint, delete_constraint'), ('orders', 'external/quadprog++/QuadProg++.hh Scheduling')])
prop('P25', 'Conversion tools give each sample the value of its source at its directions',
 'A data file converted by data2data holds, for every sample, the directions of that sample in the parametrization that is asked for (that of the input by default). Converted to a data set of samples (or with --splat) it holds the values of the input sample by sample, in order: samples with a direction below the horizon are left out, unless --all-values is given. Converted to any other data set, it holds at each of its own sample positions the value the input returns for the same pair of directions, and zero below the horizon. A file made by brdf2data holds at every sample of its template the value of the model at the same pair of directions, or the value of the data minus that of the model with --export-diff. The directions of the samples of the output are not changed by the values.',
 ['inputs', 'configurations'], 'all samples, parametrizations and options',
 'The tests run the tools on a few files and look at the exit status.',
 ['sources/softs/data2data/main.cpp', 'sources/softs/brdf2data/main.cpp'], [('data conversion', 'sources/softs/data2data/main.cpp'), ('model sampling', 'sources/softs/brdf2data/main.cpp')])
prop('P27', 'The command line builds, fits and writes the model it names',
 'The model built from --func is the one the plugin of that name provides, with the parametrization asked for; a bracketed list gives the sum of the listed models in order, --fresnel multiplies it by the Fresnel term, and the parts marked --fixed, or fixed with --fixed-lobe or --fixed-fresnel, keep their parameters out of the parameter vector; without --func it is a rational function. Loading a function file builds the model its header describes, with the dimensions and input parametrization of the header, and reads its parameters. Before a fit, a model without input parametrization takes that of the data and any other keeps its own. data2brdf fits that model to the data of the input file with the options of the command line and writes it exactly when the fit succeeds, with the parameters of the fit and its L2 and L-infinity distances to the data; brdf2brdf writes the model it loads.',
 ['inputs', 'configurations'], 'all models, their values and parameters, and the command lines listed',
 'The tests build a few single models and look at the exit status of the tools.',
 ['sources/core/plugins_manager.cpp', 'sources/softs/data2brdf/main.cpp', 'sources/softs/brdf2brdf/main.cpp'], [('models', 'sources/core/plugins_manager.cpp get_function, load_function, check_compatibility'), ('fitting tool', 'sources/softs/data2brdf/main.cpp')])
prop('P31', 'Plugins load from the first directory that has them; failures are errors',
 'A plugin is looked for in the directories of ALTA_PLUGIN_PATH in order (an empty entry, or no such variable, stands for the installation directory) under the file name lib<name>.so, or under the given name when it ends in "so", and taken from the first library there that provides the entry point that is asked for; it gets the size, parametrization and options it is asked for. A data file without plugin is read as text or binary as its header says. A plugin, function file or data file that cannot be loaded gives no object (a single model of --func whose plugin is missing is reported and replaced by a rational function), and the tools data2data, brdf2data, data2brdf, brdf2brdf, brdf2gnuplot, data2moments and data2stats report it with a non-zero exit status and write no file; it never crashes them. Listed models that cannot be loaded are left out of a sum.',
 ['configurations', 'fault_sequences'], 'all search paths and failures listed', 'Tests load the plugins of one installation.',
 ['sources/core/plugins_manager.cpp', 'sources/softs/data2data/main.cpp', 'sources/softs/data2brdf/main.cpp'], [('dynamic loading', 'sources/core/plugins_manager.cpp'), ('failures', 'sources/softs/*/main.cpp')])
prop('P28', 'Fits start from the point the user or the model gives, for every part',
 'Before a fit every parameter of the model gets a starting value. Without the option --bootstrap each model starts from values of its own that do not depend on what its parameters were before and lie within its bounds; the parts of a sum start with their own options, and both factors of a product with those of the product. With --bootstrap and a vector, the parameters that the fit may change start from the numbers of the vector in order, and fixed parts as they would without it. With --bootstrap and the file of a saved model, every part that is in the file starts from the parameters in the file and any other part as it would without the option; so do all parts when the file cannot be opened or, for sums and products, has no header. The starting point of a sum is preferred to those of its parts. (Of the models, the diffuse term accepts no starting point, the shifted-gamma model has none of its own, and the isotropic Lafortune model reads --bootstrap without file as another distribution of its lobes.)',
 ['inputs', 'configurations'], 'all starting values, previous parameters, fixed parts and files',
 'The tests fit a few models from their default start.',
 ['sources/core/function.cpp', 'sources/core/args.h', 'sources/plugins/nonlinear_*/function.cpp'], [('bootstrap of sums and products', 'sources/core/function.cpp bootstrap'), ('bootstrap of models', 'sources/plugins/nonlinear_*/function.cpp bootstrap')])
prop('P33', 'Analysis tools write the plots, moments and errors they name',
 'brdf2gnuplot with a data file writes one line per sample of the data, in order: the coordinates of the sample and the value of the model at the same directions (times the cosines of both directions with --cos-plot, for the model and for the data); with --error it writes the value of the sample minus that instead, and with --linear_error the number of the sample and that deviation divided by the value of the sample. With --polar-plot it writes half of --samples directions on either side of the normal, at regular elevations from the normal up to but excluding the horizon, negative ones on the side of the light, which is at the elevation --inc-angle. data2moments writes for every channel the integral, over a regular grid of the domain with the numbers of samples asked for, of the interpolated value above the least value that is stored, and the moments up to order 3 along the two dimensions asked for, normalised by that integral. data2stats writes the L1, L2, L3 and maximum norms, the MSE and the RMSE of the input against the reference, each under its name.',
 ['inputs', 'configurations'], 'all values of data and models',
 'The tests run no such tool on values that are known.',
 ['sources/softs/brdf2gnuplot/main.cpp', 'sources/softs/data2moments/main.cpp', 'sources/softs/data2stats/main.cpp'], [('plots', 'sources/softs/brdf2gnuplot/main.cpp'), ('moments', 'sources/softs/data2moments/main.cpp'), ('statistics', 'sources/softs/data2stats/main.cpp')])
prop('P29', 'Scattered data are interpolated from their nearest samples',
 'The interpolant data_rbf keeps the samples of its file in order, with their coordinates and values, their domain and their parametrization. Its value at any position is, for every channel, the mean of the up to three nearest samples, weighted with the inverse of (their squared distance plus 1e-10); a file that holds no data gives no object.',
 ['inputs'], 'all sample values and positions', 'The tests do not use this interpolant.',
 ['sources/plugins/data_interpolants/rbf.cpp'], [('samples', 'sources/plugins/data_interpolants/rbf.cpp get, min, max, load_data'), ('interpolation', 'sources/plugins/data_interpolants/rbf.cpp value')])
prop('P34', 'Measured data files load as their formats list them; broken files are refused',
 'An ASTM file gives the announced number of samples, each with the numbers of its line in order: the angles as coordinates, the colours or the radiance as values. A saved MERL or UTIA table is the raw table (three sizes first for MERL, the planes of the channels one after the other) and is loaded back with the same values; an UTIA table in an EXR image, and an image slice, have one pixel per cell with its red, green and blue values, and saving writes the same pixels. A file that has less numbers than it announces, has other table or image sizes, announces nothing, or is no image, gives no data object; a failure to save an image is reported as such.',
 ['inputs', 'fault_sequences'], 'all values in the files; all truncations of the stated sizes', 'Tests load no such file, or one that is whole.',
 ['sources/plugins/data_io/astm.cpp', 'sources/plugins/data_io/merl.cpp', 'sources/plugins/data_io/utia.cpp', 'sources/plugins/data_io/slice.cpp', 'sources/plugins/data_io/EXR_IO.h'], [('ASTM', 'sources/plugins/data_io/astm.cpp load_data'), ('MERL', 'sources/plugins/data_io/merl.cpp load_data, save'), ('UTIA', 'sources/plugins/data_io/utia.cpp load_data, save'), ('images', 'sources/plugins/data_io/EXR_IO.h, slice.cpp')])
prop('P35', 'Success means that the output was written',
 'Saving a data set (text, binary, grid, MERL, UTIA, image slice) or a model (in every export) to a file that cannot be created or not be completely written ends with an error; saving to one that can ends without. data2data, brdf2data, brdf2brdf, data2brdf, brdf2gnuplot, data2moments, data2stats and fit2stat exit with a status other than zero in the first case, and with zero in the second.',
 ['fault_sequences', 'configurations'], 'all outputs that can be created or not, and devices that are full; all contents', 'Tests write to a directory that exists, on a device that has space.',
 ['sources/core/data.cpp', 'sources/core/function.cpp', 'sources/plugins/data_io/merl.cpp', 'sources/plugins/data_io/utia.cpp', 'sources/plugins/data_io/slice.cpp', 'sources/plugins/data_interpolants/grid.cpp', 'sources/softs/data2data/main.cpp', 'sources/softs/brdf2data/main.cpp', 'sources/softs/brdf2brdf/main.cpp', 'sources/softs/data2brdf/main.cpp', 'sources/softs/brdf2gnuplot/main.cpp', 'sources/softs/data2moments/main.cpp', 'sources/softs/data2stats/data2stats.cpp', 'sources/softs/fit2stat/fit2stat.cpp'],
 [('data sets', 'sources/core/data.cpp, sources/plugins/data_io/*.cpp save'), ('models', 'sources/core/function.cpp function::save'), ('tools', 'sources/softs/*/main.cpp')])
# ---------------------------------------------------------------- outside the family
prop('P30', 'Fits converge to a good approximation of the data',
 'Fitting a model to data sampled from that model recovers parameters whose distance to the data is below the requested tolerance.',
 ['inputs', 'configurations'], 'all models and data sets', 'Tests fit a handful of data sets.',
 ['sources/plugins/nonlinear_fitter_eigen/fitter.cpp', 'sources/plugins/rational_fitters/quadprog.cpp'], [('fitters', 'sources/plugins/*fitter*')])
prop('P32', 'Numerical error of conversions and models stays within a few units of rounding',
 'The floating-point result of every conversion and model is within a small relative error of the exact value.',
 ['inputs'], 'all inputs', 'Tests compare a few points with tolerances.',
 ['sources/core/params.cpp'], [('conversions', 'sources/core/params.cpp')])

CLAIM['P01'] = ''
CLAIM['P02'] = ''
CLAIM['P03'] = ''
CLAIM['P04'] = ''
CLAIM['P05'] = 'Lobe sums inside one Lafortune model are decided for one lobe in general and for two lobes as a bounded contract.'
CLAIM['P07'] = ''
CLAIM['P09'] = 'Lobe sums inside one Lafortune model are decided for one lobe in general and for two lobes as a bounded contract.'
CLAIM['P08'] = 'Compounds of several parts are decided for up to the number of parts stated in the bounded contracts.'
CLAIM['P10'] = 'All contracts of this property are bounded (degrees and dimensions stated in the evidence).'
CLAIM['P11'] = 'Basis polynomials are proved; whole rational functions are decided for the sizes stated in the bounded contracts.'
CLAIM['P12'] = 'Reading the domain of a data set is bounded in the number of samples; access, widths and intervals are proved for any number.'
CLAIM['P22'] = 'Comparisons loop over all samples: decided for the sizes stated in the bounded contracts.'
CLAIM['P17'] = 'Round trips are decided for every value, for the numbers of samples and coordinates stated; every pair of parametrizations is covered.'
CLAIM['P24'] = CLAIM['P17']
CLAIM['P19'] = 'Decided for every character of the values, for the lengths and numbers of options stated.'
CLAIM['P13'] = ''
CLAIM['P14'] = ''
CLAIM['P15'] = ''
CLAIM['P16'] = 'Evaluation is proved for any grid size in one, two and three dimensions, given samples that sit at the nodes; that a new grid has them there is decided for the sizes stated.'
CLAIM['P20'] = 'Sums, products, several lobes and rational functions are decided for the sizes stated in the bounded contracts. The shifted-gamma model has no native format (saving it is not implemented) and is outside the property.'
CLAIM['P18'] = 'Decided for the numbers of samples and channels stated in the bounded contracts; the relative variants are not reported by any tool and are outside the property.'
CLAIM['P21'] = 'The equivalence of rows and intervals is proved for every row; the fitters are decided for the numbers of samples and coefficients stated. Solvers (QuadProg++, Eigen eigenvectors and QR) are assumed contracts.'
CLAIM['P23'] = 'The cosine division and the weighted output are proved per sample; loading and bootstrapping are decided for the numbers of samples stated.'
CLAIM['P26'] = 'Decided for the numbers of samples, channels and parameters stated; the Levenberg-Marquardt solver, NLopt and Ceres are assumed contracts.'
CLAIM['P36'] = 'Decided for every real program of one or two unknowns with the constraints stated, and for the integer programs stated; natively for random integer programs of up to 4 unknowns. Tolerances of the solver are avoided: a constraint is satisfied or violated by more than 1e-6.'
CLAIM['P25'] = 'Decided for the numbers of samples and channels stated in the bounded contracts, for abstract data, models and conversions.'
CLAIM['P27'] = 'Decided for the command lines and numbers of samples stated; plugins are assumed contracts (any model).'
CLAIM['P31'] = 'Decided for the search paths, names and failures stated; the dynamic loader, the environment and the plugins are assumed contracts.'
CLAIM['P28'] = 'Models are proved for one lobe; sums and products are decided for the numbers of parts and parameters stated in the bounded contracts, for abstract parts.'
CLAIM['P33'] = 'Decided for every value of data and models, for the numbers of samples and dimensions stated; the grid of the moments is read through the contract of interpolation.'
CLAIM['P29'] = 'Decided for the numbers of samples and dimensions stated; the search for the nearest samples (FLANN) is an assumed contract.'
CLAIM['P34'] = 'MERL and UTIA tables are proved for every value; ASTM files and EXR images are decided for the sizes stated. TinyEXR is an assumed contract; one bounded contract runs the real library.'
CLAIM['P35'] = 'MERL, UTIA and image tables are proved for every value; the others are decided for the sizes stated. An output fails by not being created, or by a device that is full or fills up while it is written.'
LEVEL = {'P36': 'other', 'P29': 'other', 'P33': 'other', 'P31': 'other', 'P25': 'other', 'P18': 'other', 'P26': 'other', 'P10': 'other', 'P22': 'other'}     # bounded contracts only
NA['P30'] = 'Convergence of iterative solvers on arbitrary data is not a functional contract any obligation within reach expresses: it depends on the numerics of external solvers (Eigen Levenberg-Marquardt, quadprog) and on the data.'
NA['P32'] = 'The verifier reads doubles as mathematical reals; rounding-error bounds for transcendental functions need a floating-point error analysis, not contracts.'
