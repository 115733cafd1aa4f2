"""Source of properties.jsonl (python3 tools/properties.py rewrites it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": list(state),
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})
M="pxmcmc/mcmc.py"; F="pxmcmc/forward.py"; ME="pxmcmc/measurements.py"; T="pxmcmc/transforms.py"
PR="pxmcmc/prior.py"; U="pxmcmc/utils.py"; S="pxmcmc/saving.py"; Q="pxmcmc/uncertainty.py"; G="pxmcmc/plotting.py"
SAMPLERS=["MYULA.run","PxMALA.run","SKROCK.run"]

p("C01","Samplers keep exactly the scheduled iterations of the chain",
 "A run of any sampler saves exactly the requested number of samples: saved sample j is the chain's state after iteration nburn + j*max(ngap,1) (counting iterations from 0), whatever was accepted, printed or tracked. The run performs no iteration after the one that yields the last saved sample, and none at all when no samples are requested.",
 ["configurations","inputs","histories"],"all samplers, all (nsamples, nburn, ngap) including 0, all acceptance histories, all verbosities",
 "The tests run one schedule (100, 10, 5) per sampler and never look at the chain.",
 [M],[("retention test on i, nburn, ngap",M+": MYULA.run, PxMALA.run, SKROCK.run"),("row write","PxMCMC._tracking")],
 ["mcmc.chain after run()","number of random draws consumed"],
 [{"name":"i, j","meaning":"iteration and saved-sample counters","where":M}])
p("C02","MYULA moves by the Moreau-Yosida Langevin update",
 "Every MYULA iteration moves the state X to X + delta*((prox(X) - X)/lmda - grad g(X)) + sqrt(2*delta)*w, with prox and grad g evaluated at the current state and w fresh independent standard Gaussian noise per parameter (for complex parameters, in the real and the imaginary part). For real parameters only the real part of the gradient counts and the state stays real.",
 ["inputs","histories","configurations"],"all states, noise sequences, step sizes, prox parameters, real and complex problems",
 "The tests only check that run() returns; a wrong coefficient, a stale gradient or reused noise passes.",
 [M],[("update",M+": MYULA.chain_step"),("stale-free loop",M+": MYULA.run")],["mcmc.chain"])
p("C03","PxMALA accepts with exactly the Metropolis-Hastings probability",
 "A PxMALA proposal X' is made by the MYULA update from the current state X with the current step size, and is accepted exactly when a fresh uniform draw is below pi(X')q(X|X') / (pi(X)q(X'|X)), where log pi is the reported log posterior and q is the Gaussian density that proposals are drawn from. On acceptance the state becomes X'; on rejection it stays X.",
 ["inputs","histories","configurations"],"all proposals, all accept/reject histories, real and complex parameters, tuned or fixed step size",
 "Detailed balance is a statement about every pair of states; no test computes an acceptance ratio.",
 [M],[("acceptance ratio",M+": PxMALA.run"),("transition density",M+": PxMALA.calc_logtransition")],["mcmc.chain","mcmc.acceptance_trace"])
p("C04","PxMALA's acceptance and step-size traces tell what happened",
 "After a run, PxMALA's acceptance trace has one entry per iteration, burn-in and thinned iterations included, equal to 1 if that iteration's proposal was accepted and 0 otherwise. Its step-size trace starts with the step size used by the first iteration and, when tuning, gains one entry per iteration: the step size the next iteration uses; without tuning it has just the one entry. A new run starts both traces afresh.",
 ["histories","configurations"],"all accept/reject histories, schedules, tuning on or off, repeated runs",
 "No test reads the traces.",
 [M],[("traces",M+": PxMALA.run")],["mcmc.acceptance_trace","mcmc.deltas_trace"])
p("C05","Step-size tuning stays in bounds and follows acceptance",
 "With tuning on, after iteration i (from 0) the step size is multiplied by 1 + 0.5/(i+1)^0.75 if the proposal was accepted and by 1 - 0.5/(i+1)^0.75 if not, then limited to [1e-8*lmda, lmda/2]; the next proposal uses it. With tuning off the step size never changes, and the parameter object the sampler was built from never changes.",
 ["histories","configurations"],"all acceptance histories, initial step sizes inside and outside the bounds",
 "No test looks at the step size; bounds are only reached after particular acceptance histories.",
 [M],[("tuning",M+": PxMALA._tune_delta")],["mcmc.deltas_trace","mcmc.delta"])
p("C06","SKROCK performs the s-stage stabilised Chebyshev recursion",
 "Each SKROCK iteration with s >= 1 stages applies the explicit stabilised recursion of Pereyra et al. (2020) with eta = 0.05: K_1 uses the gradient of the smoothed log posterior at the noise-perturbed state plus the scaled noise, and K_j = mu_j*delta*grad(K_{j-1}) + nu_j*K_{j-1} + (1-nu_j)*K_{j-2}, with coefficients from Chebyshev polynomials at omega_0 = 1 + eta/s^2. One fresh Gaussian noise vector (complex for complex parameters) is used per iteration, in all stages.",
 ["inputs","histories","configurations"],"all stage counts, states, noise sequences, step sizes",
 "The tests run s=5 and look at nothing.",
 [M,U],[("recursion",M+": SKROCK._K_recursion"),("coefficients",M+": SKROCK._recursion_coefs"),("Chebyshev values",U+": chebyshev1, cheb1der")],["mcmc.chain"])
p("C07","Saved diagnostics belong to the saved samples",
 "Row j of every tracked quantity (log posterior, data misfit, prior value, predictions) is that quantity evaluated at saved sample j, for any combination of tracked quantities; exactly the tracked quantities are present after a run, with one row per saved sample. The misfit is the residual weighted by the inverse data covariance, the log posterior is -mu*prior - misfit/2, and complex predictions and complex samples keep their imaginary parts.",
 ["configurations","histories"],"all samplers, all subsets of tracked quantities, accept/reject histories, schedules, real and complex problems",
 "Tests never read the tracked arrays and use the default tracking only.",
 [M],[("tracking",M+": _tracking, _initialise_tracking_arrays"),("log posterior",M+": logpi")],["mcmc.chain, logPi, L2s, priors, preds"])
p("C08","Tracking and printing never change the chain",
 "For a given sequence of random draws, the states the chain visits, the random numbers consumed, the acceptance decisions and the step sizes are the same for every choice of tracked quantities and every verbosity. No such choice makes a run fail.",
 ["configurations","histories"],"all subsets of tracked quantities x verbosities x samplers x schedules",
 "One tracking choice and verbosity 0 are tested.",
 [M],[("tracking and progress output",M+": run methods, _tracking, _print_progress")],["mcmc.chain and whichever arrays are tracked"])
p("C09","Runs are isolated: results depend only on inputs and random draws",
 "Samplers that share operators, priors and parameter objects do not influence each other, whatever the order of construction and runs; a repeated run of one sampler behaves as a first run (except that a tuning PxMALA goes on from its tuned step size). No run modifies the start point, data, covariance, prior, operator or parameter object it was given, and later changes to the start point do not reach saved results.",
 ["histories"],"all sequences of construct/run/save/modify-input operations up to a bound over samplers sharing objects",
 "Tests build everything afresh and run once.",
 [M,S],[("per-instance copies of parameters",M+": PxMCMC.__init__"),("rebinding, not in-place update, of the state",M+": run methods")],["tracked arrays and inputs after each operation"])
p("C10","Start points are honoured or refused",
 "A run given a 1D array with one entry per parameter starts the chain exactly there. Anything else that is not None (wrong length, wrong dimension, not an array) is refused with TypeError or ValueError before any sampling. With no start point, the chain starts from independent standard Laplace draws, one per parameter, complex if the parameters are.",
 ["inputs","configurations"],"all samplers, all start-point shapes, types and lengths up to a bound",
 "Tests try one valid and one short start point and do not look at where the chain starts.",
 [M],[("_initial_sample",M)],["first saved sample","exceptions","random draws consumed"])
p("C11","The data-fidelity gradient is the gradient of the log-likelihood",
 "For every forward operator, setting, noise model and sample, calc_gradg(forward(X)) is the gradient at X of half the inverse-covariance-weighted squared residual that the log posterior reports (for complex parameters, with respect to the real and imaginary parts; for real parameters the real part is). In the analysis setting predictions are measurement(X), in the synthesis setting measurement(inverse transform(X)).",
 ["inputs","configurations"],"all samples, both settings, real and complex data and operators, all noise specifications, built-in and user-defined operators",
 "Tests check output sizes only.",
 [F,M],[("forward, calc_gradg",F+": ForwardOperator"),("logpi",M)],["ForwardOperator.forward, calc_gradg","PxMCMC.logpi"])
p("C12","Noise specifications are interpreted consistently or refused",
 "A scalar sig_d, a vector of equal sig_d and a diagonal covariance matrix of their squares give the same misfits and gradients; in general a vector holds per-datum standard deviations and a matrix the data covariance, for real and complex data alike and whatever number type they are stored in. A non-square matrix, a vector of the wrong length, an array of more dimensions or an unknown setting is refused when the operator is built.",
 ["inputs","configurations"],"all scalar, vector and matrix specifications over a small alphabet",
 "Tests use two equal constants and never the matrix form.",
 [F],[("_build_inverse_covariance_matrix",F)],["ForwardOperator.invcov","calc_gradg","constructor exceptions"])
p("C13","Every measurement operator is linear with an exact adjoint",
 "For the identity, path-integral, harmonic and pixel-space weak-lensing operators, forward is complex linear (on the domain without monopole and dipole for lensing) and adjoint is its exact conjugate transpose: <forward(x), y> = <x, adjoint(y)> for all x, y, sizes, path matrices, masks and galaxy counts. The identity returns its input truncated or zero-padded to the data size, the path integral is multiplication by the given matrix, and wrong-length input to either is refused.",
 ["inputs","configurations"],"all basis vectors, sizes, matrices over a small alphabet, masks",
 "A dot test with one random pair at L=10 misses other sizes, masks with structure, complex matrices and errors in the kernel of the sampled pair.",
 [ME],[("forward/adjoint pairs",ME)],["Measurement.forward, adjoint"])
p("C14","Weak lensing maps convergence to masked, weighted shear",
 "Pixel-space weak lensing multiplies harmonic coefficients by -sqrt((l+2)(l-1)/((l+1)l)) with l<2 removed, synthesises spin-2 shear, keeps exactly the unmasked pixels in map order and weights each with sqrt(2*ngal)/0.37 (weight 1 without galaxy counts). The spherical Kaiser-Squires estimate inverts the harmonic operator on l>=2. Non-positive bandlimits, NaN shear signals and wrongly shaped signals or masks are refused.",
 ["inputs","configurations"],"all bandlimits up to a bound, all harmonic modes, all masks at small bandlimits, galaxy-count maps",
 "Tests compare magnitudes of one dot product; they do not fix the kernel, weights, mask order or refusals.",
 [ME],[("kernel, mask, weights",ME+": WeakLensingHarmonic, WeakLensing")],["WeakLensing.forward, adjoint, sks_estimate, mask_forward, mask_adjoint"])
p("C15","Wavelet transforms reconstruct exactly and have exact adjoints",
 "For every bandlimit, scale parameter, minimum scale, number of directions, spin, and in pixel or harmonic space, inverse(forward(x)) = x for every band-limited signal x, and forward_adjoint and inverse_adjoint are the exact conjugate transposes of forward and inverse. The reported coefficient counts match the vectors produced and accepted; real, integer and non-contiguous inputs give the same result as their complex copies.",
 ["inputs","configurations"],"all (L, B, J_min, dirs, spin, harmonic) in a grid, all basis vectors",
 "Tests use one (L,B,J_min), no directions, spin or harmonic mode, and one random signal.",
 [T],[("transform wrappers",T+": SphericalWaveletTransform"),("coefficient split",T+": _get_ncoefs")],["SphericalWaveletTransform methods"])
p("C16","All parts agree on the layout of coefficient vectors",
 "Coefficient vectors hold the scaling coefficients first and then each wavelet scale from coarse to fine: flattening and expanding are mutually inverse for every size and mode, and giving both or neither split is refused. For every transform configuration the number of scales it reports is right, the scale bandlimits partition the transform's vector, wavelet-based priors weight every coefficient, and per-scale credible intervals are those of that scale's coefficients, in map shape.",
 ["inputs","configurations"],"all small sizes for flatten/expand; all (L, B, J_min, dirs, spin) in a grid",
 "Tests use constant coefficients and one configuration, so misplaced entries go unseen.",
 [U,PR,Q,T],[("flatten_mlm, expand_mlm, _multires_bandlimits",U),("map_weights",PR),("wavelet_credible_interval_range",Q)],["flatten_mlm, expand_mlm, wavelet_credible_interval_range, prior.map_weights"])
p("C17","proxf is the proximal map of the prior",
 "In the synthesis setting, for every prior and real or complex sample x, proxf(x) minimises T*prior(y) + ||x-y||^2/2 over y, where T is the threshold given by the user. In the analysis setting the L1 prior is the L1 norm of adj(y) and proxf(x) = x + fwd(soft(adj(x)) - adj(x)), which is that minimiser whenever adj is the adjoint of fwd and adj(fwd(c)) = c for all c. The prior is non-negative, and evaluating it or its prox leaves the sample unchanged.",
 ["inputs","configurations"],"all samples over a small alphabet, thresholds, settings, prior classes, transform configurations, and all candidate minimisers in a neighbourhood set",
 "Tests check one vector against the implementation's own soft threshold, with identity transforms.",
 [PR,U],[("proxf, prior",PR),("soft",U)],["L1, S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights"])
p("C18","Wavelet priors weight coefficients by pixel area and wavelet power",
 "The spherical-wavelet L1 prior weights each coefficient with the quadrature weight of its pixel on its own scale's map. The power-weighted prior uses 2*pi^2*sin(theta)/(power*npixels) per scale, times the scale's peak multipole to the power eta on wavelet scales, and refuses tilings with a vanishing scale; both repeat the weights for every direction and support the synthesis setting only.",
 ["configurations","inputs"],"all (L, B, J_min, dirs, spin, eta) in a grid",
 "Tests only evaluate the prox once at one configuration.",
 [PR,U],[("weights",PR)],["prior(X) on basis vectors","map_weights"])
p("C19","Soft and hard thresholding act entrywise as documented",
 "Soft thresholding shrinks every entry's modulus by its threshold, to zero if it does not exceed it, and keeps sign or phase, for scalar and per-entry thresholds and for real, complex and integer input. Hard thresholding with fraction T keeps exactly the floor(T*n) entries of largest modulus when moduli are distinct, zeroing the rest. Neither modifies its input.",
 ["inputs"],"all vectors over a small alphabet, all thresholds",
 "Four hand-picked vectors are tested.",
 [U],[("soft, hard, _sign",U)],["soft, hard"])
p("C20","Map quadrature is exact for band-limited signals",
 "For every bandlimit L, integrating a map sampled at L with the map weights gives the exact integral over the sphere of any signal band-limited at L, real or complex; the weights are real, depend on latitude only, and sum to 4*pi.",
 ["inputs","configurations"],"all L up to a bound, all harmonic modes (a basis of the signals)",
 "One random signal at L=10 is tested.",
 [U],[("mw_map_weights, weights_theta, mw_weights, s2_integrate",U)],["mw_map_weights, s2_integrate"])
p("C21","Pixel areas partition the sphere",
 "For every bandlimit and radius the pixel areas are positive, equal within a latitude ring, sum to the sphere's area, and every leading set of rings sums to the polar cap they cover. Spherical-rectangle and cap areas are additive, scale with the radius squared, and agree with each other.",
 ["inputs","configurations"],"all L up to a bound, radii, grids of angles",
 "One L, unit radius and two caps are tested.",
 [U],[("pixel_area, polar_cap_area, calc_pixel_areas",U)],["pixel_area, polar_cap_area, calc_pixel_areas"])
p("C22","Chebyshev functions satisfy their definitions at every order",
 "For every order n >= 0 and argument, the first- and second-kind values are the Chebyshev polynomials T_n and U_n and the derivative is n*U_{n-1}, for scalars and arrays, integer or floating, inside and outside [-1,1]; negative orders are refused.",
 ["inputs"],"all orders up to a bound, grid of arguments",
 "Three points per function are tested.",
 [U],[("chebyshev1, chebyshev2, cheb1der",U)],["chebyshev1, chebyshev2, cheb1der"])
p("C23","A saved file holds exactly the run it was saved from",
 "After saving, the file outpath/filename.hdf5 contains every tracked array and trace of the sampler bit for bit with its shape and dtype, every run parameter and every extra keyword as an attribute, and nothing from an earlier file of that name. If a parameter or keyword cannot be stored the call raises, and the file has all arrays, readable (if an array cannot be, those stored before it); other files are never touched.",
 ["configurations","histories","fault_sequences"],"all samplers and tracking subsets, save/overwrite histories, failure at every item",
 "save_mcmc has no test.",
 [S],[("save_mcmc",S)],["HDF5 file contents"])
p("C24","Credible intervals and regions match the samples",
 "The credible-interval range of each parameter is the distance between the alpha/2 and 1-alpha/2 sample quantiles of that parameter alone: non-negative, shrinking as alpha grows, unaffected by sample order. The credible-region threshold is the alpha quantile of the log posteriors, and exactly the samples at or above it are in the region, so the most probable samples are always included.",
 ["inputs"],"all small chains over an alphabet, all alphas in a grid",
 "The module has no test.",
 [Q],[("quantiles",Q)],["credible_interval_range, credible_region_threshold, in_credible_region"])
p("C25","Operators, transforms and priors are pure functions",
 "The result of applying any measurement, transform, forward operator or prior to an input depends only on how the object was built and the input's current values: not on earlier calls, on other objects, or on the identity of the array. Inputs and arrays given at construction are never modified, and results never share memory that a later call overwrites.",
 ["histories","inputs"],"all call sequences up to a bound on objects sharing inputs, with inputs modified in place in between",
 "Tests call each operator once.",
 [ME,T,F,PR],[("stateless methods",ME+", "+T+", "+F+", "+PR)],["all public operator methods"])
p("C26","The survey mask covers both planes and grows with its width",
 "For every bandlimit and width the mask has the map's shape and only values 0 and 1; it is 0 exactly at pixels closer than the width to the map's equator or to the Galactic plane (with longitude shifted by 180 degrees and latitude counted from the north pole as colatitude minus 90). A wider mask never uncovers a pixel.",
 ["inputs","configurations"],"all L up to a bound, widths in a grid, all pixels",
 "build_mask has no test.",
 [U],[("build_mask",U)],["build_mask"])
p("C27","Plots show the data they are given",
 "The evolution plot draws the negated log posteriors, misfits and priors as given and marks the first maximum-posterior sample in each panel; the sample plot draws real and imaginary parts. Map plots show the (optionally masked) projection of the given map with the requested colour limits, symmetric about zero when centred, with a colour bar only if requested, and wavelet plots give one figure per scale with that scale's map, by default on one colour scale. Inputs are left unchanged.",
 ["inputs","configurations"],"all small chains over an alphabet, all option combinations, small maps",
 "The plotting module has no test.",
 [G],[("plot_* functions",G)],["matplotlib figure contents"])
p("C28","Standard output is suppressed only during the healpix call",
 "Spherical-harmonic wrapper calls return what healpy returns and write nothing to standard output, and standard output is the caller's stream again afterwards, for every nesting of suppression and also when an exception is raised inside.",
 ["histories","fault_sequences"],"all nestings of suppression, printing and exceptions up to a bound",
 "No test covers suppression.",
 [U],[("suppress_stdout, map2alm, alm2map",U)],["sys.stdout"])
p("C29","Path matrices keep path order under any worker schedule",
 "In the phase-velocity example, row i of the path matrix is the path of the i-th start/stop pair at the requested bandlimit, for every number of workers and every order in which workers finish. Reading a data file gives the i-th row's coordinates, datum, error and counts at index i, with errors made non-negative and a warning if any was negative.",
 ["schedules","inputs"],"all completion orders of up to 4 paths, worker counts, small data files with every sign pattern",
 "The example has no tests, and real worker pools show one order.",
 ["experiments/phasevel/main.py"],[("get_path_matrix, build_path, read_datafile","experiments/phasevel/main.py")],["returned sparse matrix, arrays, warnings"])

p("C30","Example scripts sample and save the problem asked for",
 "Each example's main.py runs the requested algorithm once on the synthesis problem of its options: the bandlimit given and the example's wavelets (B 1.5 for topography, else 2; J_min 2), step size delta and mu as given, lmda 1e-6 for topography, else delta/2, prior threshold lmda*mu, and the input file's data (topography in km; --makenoise adds the noise it saves, the same in every run, of level sigma/sqrt(pixel area), times the Africa factor in its block, without seeding the chain; --nsim multiplies errors by sqrt(n_similar); lensing data are the masked, weighted shear of the smoothed input). It saves outdir/algo_setting_time_jobid.hdf5 with its settings, uses an existing path file unchanged and creates a missing one. Unknown algorithms and other settings are refused without output.",
 ["configurations","inputs"],"all combinations of options over a small set of values per option, small bandlimits plus the defaults",
 "The examples have no tests, and each run poses one problem.",
 ["experiments/earthtopography/main.py","experiments/phasevel/main.py","experiments/weaklensing/main.py"],[("script body","experiments/*/main.py")],["the sampler that runs, the saved file"])
p("C31","Plot scripts summarise the saved run",
 "For a results file, each example's plot.py shows the run's evolution, the image and wavelet coefficients of the first sample of highest posterior (MAP), and the mean and 95% credible-interval range, per pixel and for phase velocity per wavelet scale, of the samples after the given burn-in, in image space whatever the setting, with their differences to the truth (and the added noise, if any). Figures are directory/name+suffix.png; --save_npy also saves the maps shown. Signal-to-noise ratios are 20 log10 of the ratio of Euclidean norms, those printed of truth and difference over unmasked pixels, and relative errors squared norm ratios of prediction errors.",
 ["histories","inputs"],"all orders and ties of three log posteriors, burn-ins, settings and options",
 "The plot scripts have no tests.",
 ["experiments/earthtopography/plot.py","experiments/phasevel/plot.py","experiments/weaklensing/plot.py"],[("script body","experiments/*/plot.py")],["figures, .npy files, printed numbers"])
p("C32","Custom components plug in through the documented interface",
 "A forward operator uses the transform, measurement and parameter count it is given, whether as arguments, class attributes or attributes set around the base constructor. Samplers need only data, invcov, nparams, forward and calc_gradg of an operator and prior and proxf of a prior, and give the same run with user-defined components as with built-in ones that compute the same. Methods that users must implement raise NotImplementedError in the base classes.",
 ["configurations","histories"],"all ways of supplying each component x settings; all samplers x component choices on scripted draws",
 "Tests use built-in components only.",
 [F,M,ME,T],[("ForwardOperator.__init__; base classes",F+", "+M+", "+ME+", "+T)],["operators and samplers built from user classes"])

p("C33","An interrupted run never spoils the next one",
 "Whatever interrupts them (the process killed at any file operation, a failing write, a refused, broken or short download), the lensing download leaves either no takahasi_*_kappa.fits or one with the simulation's complete convergence map, and the phase velocity example either no path file or the complete path matrix. Running again undisturbed then succeeds with the complete result. A finished download is not repeated.",
 ["crash_points","fault_sequences"],"all sequences of up to two faults, at every file operation (before, halfway, failing) and every chunk of the download",
 "The scripts have no tests, and nothing is ever interrupted.",
 ["experiments/weaklensing/download_takahasi.py","experiments/phasevel/main.py"],[("download, conversion and rename","experiments/weaklensing/download_takahasi.py"),("path matrix file","experiments/phasevel/main.py")],["files in the working directory","outcome of the next run"])
p("C34","Samplers that share components may run at the same time",
 "Two samplers run in two threads and share their forward operator, prior and parameter objects: whatever the interleaving, each run gives the chain, diagnostics and step sizes it gives alone with the same random draws, and shared objects are left unchanged. The same goes for single calls of operators, transforms, measurements and priors.",
 ["schedules"],"all interleavings with one preemption at any source line, and with two at any function call, for pairs of samplers and pairs of component calls",
 "Tests run one sampler at a time.",
 [M,F,ME,T,PR],[("no state outside the sampler",M+"; "+F+"; "+PR)],["chain, logPi, L2s, priors, preds, acceptance and step-size traces of both samplers"])
p("C35","Progress reports tell what happened",
 "With verbosity v > 0 a run prints one report after every v-th iteration (counted from 1, burn-in included) and at no other time; with verbosity 0 or less none. Past the burn-in a report gives the number of samples saved so far out of the number requested, and the log posterior, misfit (L2) and prior value of the last saved sample (MYULA, SKROCK) or of the current state (PxMALA, with the fraction of proposals accepted so far). During burn-in MYULA and SKROCK only say so, PxMALA reports as afterwards, with 0 samples saved.",
 ["histories","inputs"],"all schedules, verbosities and accept/reject histories in the box",
 "Tests run silently or never look at the output.",
 [M],[("_print_progress; run of every sampler",M)],["standard output"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
