INP = ["inputs"]

prop("C01", "Kepler's third law and chirp-mass conversions",
     "For all component masses the chirp mass is (m1 m2)^(3/5)/(m1+m2)^(1/5). Orbital frequency from semi-major axis and semi-major axis from orbital frequency both "
     "follow Kepler's third law for the total mass, so converting there and back is the identity. Results do not depend on the order of the two masses nor on the units the arguments are given in.",
     INP, "all positive masses, separations and frequencies, scalar or array, any compatible units",
     "The unit tests sample a few random masses; the identities quantify over all real inputs and all unit choices.",
     [U], [("chirp mass", U + " chirp_mass"), ("Kepler conversions", U + " get_a_from_f_orb, get_f_orb_from_a")])

prop("C02", "Peters functions g(n,e), F(e), beta, c0 and a(e) are the published ones",
     "For every harmonic n and eccentricity e the relative gravitational-wave power g(n,e) equals the Peters & Mathews Bessel-function expression and F(e) = (1 + 73/24 e^2 + 37/96 e^4)/(1-e^2)^(7/2). "
     "The constant beta = 64/5 G^3/c^5 m1 m2 (m1+m2), the inspiral relation between separation and eccentricity, its constant c0 and the harmonic frequency derivative are the published ones, and the separation at the initial eccentricity is the initial separation.",
     INP, "all real n, all e in [0,1), all masses, scalar and array arguments",
     "No stable test evaluates these beyond spot values; the identities are over two-parameter continua.",
     [U], [("g(n,e)", U + " peters_g"), ("F(e)", U + " peters_f"), ("beta, c0", U + " beta, c_0"),
           ("a(e), fn_dot", U + " get_a_from_ecc, fn_dot")])

prop("C03", "Strain amplitude and characteristic strain of every source and harmonic",
     "For each source, timestep and harmonic the strain amplitude satisfies h_0,n^2 = 2^(28/3)/5 (G Mc)^(10/3) (pi f_orb)^(4/3)/(c^8 D^2) g(n,e)/n^2, and the characteristic strain "
     "h_c,n^2 = 2^(5/3)/(3 pi^(4/3)) (G Mc)^(5/3) f_orb^(-1/3)/(c^3 D^2) g(n,e)/(n F(e)). "
     "Each output element uses only its own source's mass, distance, frequency and eccentricity and its own harmonic; position, polarisation and inclination enter only as the detector-response factor of that same source.",
     INP, "all chirp masses, distances, frequency and eccentricity histories, harmonics and shapes, with and without position/polarisation/inclination and a precomputed g(n,e)",
     "Tests check two limits on random sources (n=2, e=0); formula and axis alignment must hold for every n, e, shape and option.",
     [S], [("strain amplitude", S + " h_0_n"), ("characteristic strain", S + " h_c_n")])

prop("C04", "Detector response to sky position, polarisation and inclination",
     "The averaged squared antenna responses and their cross term are the published LISA functions of sky latitude, longitude and polarisation, and the amplitude modulation combines plus and cross responses with the inclination "
     "factors ((1+cos^2 i)/2)^2 and cos^2 i, times 5/4. Each source's factor depends only on its own angles and does not depend on the unit of angle used.",
     INP, "all positions, polarisations and inclinations, scalar or array",
     "No stable test evaluates the response functions at chosen angles.",
     [S, U], [("modulation", S + " amplitude_modulation"),
              ("responses", U + " D_plus_squared, D_cross_squared, D_plus_D_cross, F_plus_squared, F_cross_squared")])

prop("C05", "Merger times of circular and eccentric binaries in every regime",
     "A circular binary merges in a^4/(4 beta); an eccentric one in the Peters eccentricity integral (or the published fitting formula when exactness is not requested), with the small- and large-eccentricity approximations used below and above the caller's limits. "
     "Equivalent inputs (separation or orbital frequency, component masses or beta) give the same time, and each element of an array is treated as it would be alone. "
     "Insufficient input raises an error.",
     INP, "all masses, separations, frequencies, eccentricities in [0,1) and regime limits, scalar or array, every parametrisation",
     "Tests compare a handful of random binaries with known limits; regime boundaries, mixed arrays and the alternative parametrisations are not covered.",
     [E], [("circular", E + " get_t_merge_circ"), ("eccentric", E + " get_t_merge_ecc, t_merge_mandel_fit"),
           ("input choice", E + " check_mass_freq_input")])

prop("C06", "Circular inspirals follow the exact Peters solution at every timestep",
     "At elapsed time t a circular binary's separation satisfies a^4 = a_i^4 - 4 beta t, each source and timestep independently, and its frequencies follow from that separation by Kepler's law; once merged the separation is zero and the orbital frequency is the documented 100 Hz marker. "
     "Default timesteps run uniformly from zero to the evolution time (or the merger) with the requested count, and given timesteps are used as they are. "
     "The outputs are the requested quantities in the requested order, one row per source (flat for a single source).",
     INP, "all initial conditions, evolution times, timestep counts and output selections, one source or many",
     "Tests evolve a few random binaries with default options and compare end states.",
     [E], [("timesteps", E + " create_timesteps_array"), ("evolution and outputs", E + " evol_circ"),
           ("input choice", E + " check_mass_freq_input")])

prop("C07", "Eccentric inspirals integrate Peters' equations for every source and timestep",
     "The integrator receives exactly Peters' de/dt with each source's own constants, starting from its own eccentricity, at its own times, and separations and frequencies follow from the integrated eccentricity. "
     "When merger avoidance is on, the timesteps later than the given margin before a source's merger are all replaced by its last earlier timestep, so the evolution is frozen there. "
     "Using several processes gives the same results, in the same order, as using one, and the outputs are the requested ones in the requested order and shape.",
     ["inputs", "configurations", "schedules"], "all initial conditions, timesteps, margins, output selections and process counts",
     "Tests evolve few random binaries with one set of options; alignment between sources, timesteps and processes is a for-all statement.",
     [E], [("derivative", E + " de_dt"), ("integration", E + " integrate_de_dt, evol_ecc"), ("merger avoidance", E + " evol_ecc")])

prop("C08", "Stationarity classification and source masks select exactly the right sources",
     "A binary is stationary exactly when its fractional orbital-frequency change over the observation is at or below the tolerance, and one that merges meanwhile is not stationary. "
     "Selecting sources by circularity and stationarity returns exactly the sources with all the requested traits, where a trait left unspecified selects both kinds.",
     ["inputs", "histories"], "all sources, durations, tolerances and combinations of requested traits",
     "Tests count masks for one random collection at default tolerances.",
     [E, O], [("stationarity", E + " determine_stationarity, evolve_f_orb_circ"), ("masks", O + " Source.get_source_mask")])

prop("C09", "Instrument sensitivity curves equal their published fits at every frequency",
     "The LISA, TianQin and DECIGO power spectral densities are the published functions of frequency, with arm length, observation time, response function and confusion noise entering where published, and the chosen confusion noise added exactly once. "
     "Each frequency in an array is evaluated as it would be alone. "
     "A missing table of the exact response falls back to the analytical approximation.",
     ["inputs", "configurations"], "all frequencies, arm lengths, observation times, response functions and confusion-noise choices",
     "Tests check two or three relations between curves at sampled frequencies.",
     [P], [("LISA", P + " lisa_psd, approximate_response_function, load_response_function"), ("TianQin", P + " tianqin_psd"),
           ("DECIGO", P + " decigo_psd"), ("dispatch", P + " power_spectral_density")])

prop("C10", "Galactic confusion-noise models equal their published fits",
     "Each named confusion-noise model gives its published fit at every frequency, with the coefficients belonging to the given observation time, and no confusion noise gives exactly zero in the same unit and shape. "
     "A user-supplied noise function is used as given, and an unknown model name raises an error.",
     ["inputs", "configurations"], "all frequencies (array or single), models and observation times",
     "Tests sample one frequency array and default observation times.",
     [P], [("fits", P + " get_confusion_noise_robson19, _huang20, _thiele21, _karnesis21"), ("choice", P + " get_confusion_noise")])

prop("C11", "Instrument settings reach the sensitivity curve on every route",
     "Every route to a sensitivity curve (the curve itself, each signal-to-noise calculation, a source collection's own interpolated curve) uses the instrument, observation time, arm length, response, confusion noise and custom curve the user named. "
     "'auto' means that instrument's documented default, and an unknown instrument raises an error.",
     ["configurations", "inputs"], "all instruments and all settings, defaulted or given, on every route",
     "Tests run one or two instruments at their defaults and do not cross-check routes.",
     [P, N, O], [("dispatch", P + " power_spectral_density"), ("forwarding", N + " snr_*"),
                 ("collection", O + " Source.set_sc, get_snr_stationary, get_snr_evolving")])

prop("C12", "Signal-to-noise of stationary sources",
     "For each stationary source the squared signal-to-noise is the strain amplitude squared times observation time over the noise power at the gravitational-wave frequency, summed over the harmonics requested for that source when it is eccentric. "
     "The reported loudest harmonic is the one contributing most, and an interpolated curve, when supplied, replaces only the noise values.",
     INP, "all sources, harmonics, observation times, instruments and curve options",
     "Tests compare stationary and evolving results on a few random binaries.",
     [N], [("circular", N + " snr_circ_stationary"), ("eccentric", N + " snr_ecc_stationary")])

prop("C13", "Signal-to-noise of evolving sources integrates the characteristic strain",
     "For each evolving source the squared signal-to-noise is the integral over its own frequency track, from now to the end of the observation or its merger, of characteristic strain squared over frequency squared and noise, summed over harmonics one to the requested number when it is eccentric. "
     "One source's result does not depend on the other sources evaluated with it nor on the number of processes, and the reported loudest harmonic is the one contributing most.",
     ["inputs", "configurations"], "all evolving sources, harmonics, timestep counts, observation times, instruments and process counts",
     "Tests compare stationary and evolving limits on a few random binaries.",
     [N], [("circular", N + " snr_circ_evolving"), ("eccentric", N + " snr_ecc_evolving")])

prop("C14", "Signal-to-noise of a collection treats every source by its own kind",
     "get_snr, get_snr_stationary and get_snr_evolving give each selected, unmerged source the signal-to-noise of its own kind (circular or eccentric by the eccentricity tolerance, stationary or evolving by the stationarity tolerance), whatever the other sources are. "
     "The value returned for a source is the value stored for it, with its loudest harmonic, and merged sources get zero. The methods for one kind leave the stored values of sources they did not treat as they were. Stationary and Evolving collections treat all their sources as that kind.",
     ["inputs", "histories"], "all collections mixing circular, eccentric, stationary, evolving and merged sources, and all selections",
     "Tests build a few random collections and compare totals for one mixture.",
     [O], [("one kind", O + " Source.get_snr_stationary, get_snr_evolving"), ("all kinds", O + " Source.get_snr"),
           ("mask", O + " Source.get_source_mask")])

prop("C15", "Settings given to a signal-to-noise call, the collection's own, and its curve",
     "A signal-to-noise call uses the settings it is given and the collection's own for the rest, whatever calls came before. "
     "What it was given becomes the collection's own settings, and 'auto' stays automatic. "
     "A collection that interpolates its sensitivity curve always holds the interpolation of the noise for its present settings between 1e-7 Hz and 2 Hz, and practically infinite noise outside.",
     ["inputs", "histories", "configurations"], "all settings, instruments, orders of calls and interpolation choices",
     "Tests make single calls at default settings.",
     [O], [("calls", O + " Source.get_snr, get_snr_stationary, get_snr_evolving"), ("curve", O + " Source.set_sc, sc_params")])

prop("C16", "Sensitivity-curve settings stay complete, valid and in step with the curve",
     "However they are changed (assignment, update, in-place merge, setdefault, replacement), a collection's settings always hold exactly the six known parameters; unknown names and removals are refused and change nothing. "
     "Every accepted change is followed by the collection's interpolated curve. "
     "Settings of a subset, an evolved copy or another collection made from the same dictionary are independent.",
     ["inputs", "histories"], "all ways of changing the settings, all values and interpolation choices",
     "Tests change a few values through one or two of the ways.",
     [O], [("settings", O + " SensitivityCurveParams"), ("collection", O + " Source.sc_params, set_sc, __getitem__")])

prop("C17", "Derived quantities and tolerances follow the values they derive from",
     "Whatever was assigned or read before, n_sources, len(), the chirp masses and the separations are those of the component masses and orbital frequencies in force, and assigning separations sets the orbital frequencies that Kepler's law gives. "
     "After gw_lum_tol is assigned, ecc_tol and the harmonics functions are those of a collection created with that tolerance, on that collection only, and masks use the tolerances in force; ecc_tol is the first of 10000 evenly spaced eccentricities in [0, 0.2] at which harmonic 2 carries less than (1 - gw_lum_tol) of the power. "
     "max_strain_harmonic gives the harmonic of largest g(n,e), interpolated in the table and rounded. g is the spline through the tabulated g(n,e) at its own harmonics and eccentricities exactly while interpolation is on.",
     ["inputs", "histories"], "all masses, frequencies, separations and tolerances and histories of assignments of the kinds enumerated; eccentricities within the table",
     "Tests assign each attribute once at most and compare one value.",
     [O], [("derived values", O + " Source.m_c, a, n_sources"), ("tolerances", O + " Source.gw_lum_tol, find_eccentric_transition, create_harmonics_functions"),
           ("g(n,e)", O + " Source.set_g")])

prop("C18", "Strains of a collection of sources",
     "get_h_0_n and get_h_c_n return, for each selected source in order and each requested harmonic, that source's own strain amplitude or characteristic strain including its sky position where it has one, and zero for sources that have merged. "
     "One harmonic, a list and an array of harmonics are all accepted.",
     INP, "all collections, merged states, selections and harmonics",
     "Tests compare two routes on a few random collections.",
     [O, S], [("strains", O + " Source.get_h_0_n, get_h_c_n")])

prop("C19", "Subsets and copies of a collection are faithful and independent",
     "Indexing by a number, slice, boolean mask or list of numbers returns a collection of the same class holding exactly the chosen sources with all their attributes and results, in order, and copy() one holding all of them. "
     "Changing either collection, its arrays or its settings, leaves the other as it was.",
     ["inputs", "histories"], "all collections, optional attributes, results known or not, and indices",
     "Tests compare a few attributes for a few indices.",
     [O], [("indexing", O + " Source.__getitem__, copy"), ("settings", O + " SensitivityCurveParams")])

prop("C20", "Saving a collection and loading it gives the same collection back",
     "A collection read with from_file from a file written by save has the same class (where its constructor is Source's), the same sources in the same order with the same attributes, positions, weights and known results, and the same tolerances, number of processes, interpolation choices and sensitivity curve settings, except that custom functions come back as the default. "
     "Choices given when loading win over the saved ones. "
     "An existing file is never opened for writing unless overwriting was asked for (FileExistsError otherwise), the file read or written is the one named (with .h5 added where there is no HDF5 ending), and reading a missing file is a FileNotFoundError.",
     ["inputs", "histories", "configurations"], "all collections, optional attributes, results known or not, settings of every instrument, load-time choices, file names and repeated saves",
     "Tests do not exercise saving with every attribute, setting and choice; a lost or swapped field shows only in what is calculated afterwards.",
     [O], [("saving", O + " Source.save, _write_dataset"), ("loading", O + " Source.from_file, _read_dataset")])

prop("C21", "Merger times and evolution of a collection",
     "get_merger_time returns each selected source's own merger time, zero for sources that have merged, and keeps them only when asked. "
     "evolve_sources moves every source to its state after the given time, each by its own time where several are given: sources past their merger are merged, the others have their evolved eccentricity and frequency, and remaining merger times shrink by that time, never below zero. "
     "With create_new_class the result is a new collection that keeps everything else (distances, weights, positions, settings) and leaves the old one's sources unchanged.",
     ["inputs", "histories"], "all collections of circular, eccentric and merged sources, all evolution times",
     "Tests evolve one or two random collections.",
     [O, E], [("merger", O + " Source.get_merger_time"), ("evolution", O + " Source.evolve_sources")])

prop("C22", "A collection holds exactly what it was created from, or creation fails",
     "A new collection holds the given masses, eccentricities, distances, weights, orientations, tolerances and process count, source by source, single values as collections of one; its orbital frequencies are the given ones or follow from the separations by Kepler's law (frequencies win where both are given); positions are in ecliptic coordinates; no source has merged and no results are known. "
     "Orientations that are not given for sources with a position are drawn at random, one per source, isotropically (cos i uniform in [0, 1), polarisation uniform in [0, pi)); given ones are kept. "
     "Creation fails with ValueError without frequency and separation, for an orientation without a position, for a position with any eccentric source and for per-source arguments of different lengths (masses, distance, size, eccentricity, weights), and with an error for dimensional arguments without units.",
     ["inputs"], "all combinations of the arguments, single or many sources, Source, Stationary and Evolving",
     "Tests try a few invalid calls; that nothing is swapped, shared between sources or accepted by mistake concerns every combination.",
     [O], [("construction", O + " Source.__init__")])

prop("C23", "Calculations leave inputs, collections and earlier results as they were",
     "No calculation changes the arrays, lists, settings or positions it is given, nor those a collection was made from. "
     "Strains, characteristic strains, masks, merger times (unless kept) and copies leave a collection as it was, and calculations on a copy, subset or evolved copy leave the original as it was. "
     "Results returned earlier, stored ones included, keep their values when something else is calculated. "
     "A result depends only on the arguments and on the sources and settings in force, not on which calls were made before.",
     ["inputs", "histories"], "all arguments; all pairs of calls of the public functions and of the collection's calculations, before or after replacing each attribute of the sources",
     "Tests call functions on fresh inputs once and do not look at the inputs or at earlier results again; stale caches and in-place changes need a second call.",
     ["legwork/*"], [("functions", U + ", " + S + ", psd.py, " + E + ", snr.py: public functions"), ("collections", O + " Source: get_snr, get_snr_stationary, get_snr_evolving, get_h_0_n, get_h_c_n, get_source_mask, get_merger_time, evolve_sources, copy, __getitem__")])

prop("C24", "Plots show the selected sources and the noise of the settings in force",
     "A distribution plot draws exactly the values it is given, once and with their weights, on the given or new axes: histograms of the values or, on a log scale, of their log10 (limits likewise), densities and cumulative distributions with log_scale passed on, scatter points at (x, y) with the size scaled by weight and the scales of each axis as asked. "
     "plot_source_variables draws the named variables of exactly the selected sources (merged ones left out unless asked) in their stored units, and refuses unknown or not yet calculated variables. "
     "A sensitivity curve is the square root of the noise power (times the frequency, for characteristic strain) for all the settings given. "
     "Sources on a curve are drawn at their dominant frequency, SNR times above the noise there, for those above the cutoff, with curve and sources using the same settings; a collection's are its detectable, stationary, inspiralling sources, and it warns about detectable evolving circular and eccentric sources left out. "
     "Labels, limits and show are followed, and the figure and axes used are returned.",
     ["inputs", "configurations"], "all values, weights, selections, cutoffs and merged states; every plot kind, variable, scale combination and instrument, own and given axes",
     "Plots are only looked at by people; a wrong selection, weight or setting gives a plausible picture.",
     ["src/legwork/visualisation.py", O], [("drawing", "src/legwork/visualisation.py plot_1D_dist, plot_2D_dist, plot_sensitivity_curve, plot_sources_on_sc"), ("collections", O + " Source.plot_source_variables, plot_sources_on_sc")])

prop("C25", "The verification binaries are those of the published table",
     "A collection of verification binaries holds, in the table's order, exactly its masses, distances, inclinations, labels and signal-to-noise ratios, half its gravitational-wave frequencies as orbital frequencies, no eccentricity and its galactic positions in the collection's ecliptic frame; it starts without calculated results and is loudest in harmonic 2. "
     "It can't be subset, and its signal-to-noise ratios are calculated as those of any collection of such sources.",
     ["inputs", "configurations"], "all contents of the table's columns, all settings",
     "Tests compare total signal-to-noise ratios at most; a swapped column, unit or order shows only in single sources.",
     [O], [("table", O + " VerificationBinaries.__init__"), ("subsets", O + " VerificationBinaries.__getitem__")])

prop("C26", "Results do not depend on the units of the arguments",
     "Every function and every collection gives the same physical results when any of its masses, frequencies, separations, distances, times, angles or arm lengths are given in another unit of the same kind, alone or together.",
     ["inputs"], "all values of the arguments of the public functions and of a collection and its settings, each in three units",
     "Tests use one unit per quantity; a bare number taken in the wrong unit is right for that unit only.",
     ["src/legwork/*.py"], [("functions", U + ", " + S + ", src/legwork/psd.py, " + E + ", src/legwork/snr.py: public functions"), ("collections", O + " Source")])

prop("C27", "The number of worker processes does not change results",
     "Evolving an eccentric source, the signal-to-noise ratios of eccentric evolving sources and those of a collection (as a whole, evolving sources alone, any class and selection), and evolving a collection give the same results in the same order for any number of worker processes as for one. "
     "Work is handed only to functions a worker process can find by name, with plain data. "
     "The number of processes asked for, by argument or by the collection, is the size of the pool that is used.",
     ["inputs", "schedules", "configurations"], "all inputs, source lists and process counts; every function that starts worker processes",
     "Tests run few sources and mostly one process; a result that comes back in another order, or a function that can't be sent, shows only with several.",
     [E, N, O], [("pools", E + " evol_ecc; " + N + " snr_ecc_evolving"), ("process counts", O + " Source.get_snr, get_snr_evolving, evolve_sources")])

NUM = "Static analysis can show that the formulas and the grids are the right ones (%s), but not how large the error of %s is: that depends on the numerical values of the inputs, and a bound on it needs numerical analysis of the %s rather than of the source. "

na("C28", "Interpolated merger times and strains are accurate to the stated tolerance",
   "Signal-to-noise ratios and merger times obtained by interpolating tabulated g(n, e), Peters' integral or a sensitivity curve differ from directly calculated ones by less than the spacing of the tables justifies, everywhere inside the tables.",
   ["inputs"], "all eccentricities, harmonics and frequencies inside the tables",
   "Tests compare at a few points with loose tolerances.",
   [U, N, O], [("interpolation", O + " Source.set_g, set_sc, create_harmonics_functions; " + U + " get_t_merge_ecc fits")],
   NUM % ("C05, C14, C15 and C18 do: which tables are interpolated, where, and when the direct calculation is used instead", "an interpolant between its nodes", "interpolated functions"))

na("C29", "Numerically integrated evolution follows the true orbit",
   "The eccentricities of evol_ecc differ from the exact solution of Peters' equations by less than a small tolerance at every time step up to t_before the merger.",
   ["inputs"], "all initial eccentricities, separations, masses and time steps",
   "Tests compare a few orbits with themselves.",
   [E], [("integration", E + " evol_ecc, integrate_de_dt")],
   NUM % ("C07 does: equation, initial state, steps, scaling and the cut before merger", "scipy's adaptive integrator", "differential equation's stiffness near the merger"))

na("C30", "The harmonics summed hold the requested share of the power",
   "The harmonics summed for an eccentric source leave out less than the requested fraction of its gravitational-wave power, and of its signal-to-noise ratio.",
   ["inputs"], "all eccentricities below one, all tolerances",
   "Tests compare totals at a few eccentricities.",
   [O, N], [("harmonics", O + " Source.create_harmonics_functions, harmonics_required, max_strain_harmonic")],
   NUM % ("which harmonics are summed, in which groups and with which table entries, is decided in C14 and C17", "a truncated sum of Bessel functions", "series' tail; the table itself (harmonics.npz) is data and not part of this tree"))

na("C31", "Calculations scale linearly with sources, harmonics and time steps",
   "Calculations on a collection end in time and memory proportional to the number of sources, harmonics and time steps.",
   ["inputs"], "all collections",
   "Tests use small collections.",
   [N, O, E], [("loops", N + " snr_ecc_evolving, snr_ecc_stationary; " + O + " Source.get_snr")],
   "The cost is that of numpy and scipy calls on arrays whose length and stiffness are run-time quantities (the integrator's step count depends on the orbit); the loops of the source itself are over given lists and always end, which leaves no bound a static argument could add.")
