RM = "runtime monitoring: reference-model oracle over observed calls"
EXP = "Held on every execution produced by the seeded workload (counts in the evidence file); says nothing about inputs never driven. Trusts NumPy/SciPy primitives and the reference model in /verif."

prop("C01", "Spherical power spectra are the binned Fourier power of the input",
 "For any field and box, the auto, cross, n-dimensional and dimensionless power spectra equal |FFT|^2 (or the real part of the cross product) normalised by volume and cell number, averaged over exactly the Fourier modes whose |k| lies inside each requested bin, with each axis's own physical length setting its k. The reported k of each bin, the mode counts and the bin edges (count, list, linear or logarithmic) agree with that same set of modes. The result is unchanged by cyclic shifts of the field and by transposing field and box together, scales quadratically with amplitude, and cross(a,a) equals auto(a).",
 ["inputs", "configurations"],
 "all 1-3D real fields, even and odd and unequal grid shapes, box sizes (scalar or per axis), and kbins/binning settings",
 "The tests check three spectra of one small field with loose values; they cannot settle shapes, unequal axes, bin layouts or the mode bookkeeping.",
 ["power_spectrum.py", "fft_functions.py"],
 [("FFT normalisation", "power_spectrum.py:power_spectrum_nd"), ("k grid and radial averaging", "power_spectrum.py:_get_k,radial_average"), ("bin construction", "power_spectrum.py:_get_kbins")],
 ["power_spectrum_1d", "cross_power_spectrum_1d", "power_spectrum_nd", "cross_power_spectrum_nd", "dimensionless_ps"], RM, EXP)

prop("C02", "Anisotropic power spectra respect the line of sight",
 "Power spectra binned in (k, mu) and in (k_parallel, k_perpendicular) average exactly the Fourier modes inside each bin, where mu and k_parallel are measured along the requested line-of-sight axis, whichever axis that is, and each axis uses its own physical length. Excluding zero modes removes exactly the modes with k_perpendicular=0, and the multipole and mode-count outputs refer to the same modes. Moving the line of sight to another axis together with the data leaves the result unchanged.",
 ["inputs", "configurations"],
 "all fields, los axes, box lengths, mu/k binnings and zero-mode settings",
 "The tests use one cube with los axis 0 and compare a few numbers.",
 ["power_spectrum.py"],
 [("mu binning", "power_spectrum.py:mu_binning"), ("2D binning", "power_spectrum.py:power_spectrum_2d")],
 ["power_spectrum_mu", "cross_power_spectrum_mu", "power_spectrum_2d"], RM, EXP)

prop("C03", "Cosmology calculators follow the FLRW relations and invert each other",
 "Comoving and luminosity distance, age, angular size and Hubble rate returned for any redshift equal the corresponding integrals of the configured flat cosmology to numerical accuracy, for scalars and arrays, integers and floats alike. Conversions come in exact inverse pairs (redshift/frequency, redshift/comoving distance, physical/angular size, halo mass/virial temperature) and are monotonic. Multi-element results keep the input's shape and never depend on the order of the requested redshifts.",
 ["inputs", "configurations"], "all redshifts, frequencies, distances and masses in the reionization range, as scalars and one-dimensional arrays of any numeric type",
 "The tests evaluate three calculators at z=9 and compare rounded integers.",
 ["cosmo.py", "const.py"], [("distance integrals", "cosmo.py:z_to_cdist"), ("inverse table", "cosmo.py:cdist_to_z")],
 ["z_to_cdist", "cdist_to_z", "z_to_nu", "nu_to_z", "z_to_age", "luminosity_distance"], RM, EXP)

prop("C04", "Simulation settings derive every conversion from the last settings made",
 "After any sequence of calls that set the box size, Hubble parameter or density parameters, the cosmology-derived constants follow the last values set, and the box-dependent conversion factors (cell sizes, mass, velocity, length, density and time conversions) equal those a fresh session with the cosmology in force at the last box setting would derive. An unsupported box size is rejected and leaves the previous state untouched. Density and velocity files are converted with the factors current when they are read.",
 ["histories", "configurations"], "all sequences of setter calls",
 "No test calls a setter twice; derived globals are computed at import time.",
 ["conv.py", "const.py"], [("derived globals", "conv.py:set_sim_constants"), ("cosmology setters", "const.py:set_hubble_h")],
 ["conv.*", "const.*"], "runtime monitoring: state-history monitor against a fresh-process model", EXP)

prop("C05", "Light-cones take every slice from the right snapshots and positions",
 "Every slice of a constructed light-cone is the documented interpolation (linear, step, step on cells, sigmoid) between the two snapshots whose redshifts bracket that slice's redshift, read at the slice position that advances by one cell per output slice and wraps periodically along the chosen line-of-sight axis; velocity light-cones, light-cone sub-volumes and the older freq_box route take their slices the same way. This holds for every way of giving the snapshots (dictionary, file list, reading function), in any order, however many snapshots lie between consecutive slices. Output redshifts advance by one cell in comoving distance and span the requested range.",
 ["inputs", "configurations", "histories"], "all snapshot sets, redshift ranges, los axes, box lengths, interpolation modes",
 "No stable test builds a light-cone.",
 ["lightcone.py"], [("bracketing and interpolation", "lightcone.py:make_lightcone"), ("slice position", "lightcone.py:_get_slice")],
 ["make_lightcone", "get_lightcone_subvolume", "redshifts_at_equal_comoving_distance"], RM, EXP)

prop("C06", "Conversion between physical and observational coordinates preserves the sky",
 "Converting a light-cone from comoving to angular/frequency coordinates and back resamples every slice with the scale given by the cosmology at that slice's redshift, crops the centre or periodically pads to the requested field of view, keeps uniform fields uniform, and leaves the axes' order and lengths consistent with the returned coordinates. Binning in frequency averages the consecutive slices centred on each channel.",
 ["inputs", "configurations"], "all light-cones, output grids and interpolation settings",
 "No stable test covers this module.",
 ["angular_coordinates.py"], [("angular resampling", "angular_coordinates.py:physical_slice_to_angular"), ("frequency resampling", "angular_coordinates.py:physical_lightcone_to_observational")],
 ["physical_lightcone_to_observational", "observational_lightcone_to_physical"], RM, EXP)

prop("C07", "Redshift-space distortion only moves signal along the line of sight",
 "Moving a brightness-temperature cube or light-cone to redshift space conserves the summed signal of every line of sight, displaces each sub-cell by its line-of-sight velocity over the Hubble rate with wrap-around, and leaves every other direction untouched. Zero velocity returns the input, a uniform velocity of a whole number of cells is a cyclic shift, and velocities perpendicular to the line of sight have no effect.",
 ["inputs", "configurations"], "all cubes, velocity fields, los axes, redshifts, sub-cell counts",
 "No test covers the routine.",
 ["pv_mpm.py"], [("particle mesh shift", "pv_mpm.py:get_distorted_dt")],
 ["get_distorted_dt"], RM, EXP)

prop("C08", "Smoothing is convolution with a normalised kernel under the stated boundary",
 "Every smoothing kernel sums to one, is symmetric about its centre and has the documented width, and smoothing equals direct convolution with that kernel under the requested boundary rule. Smoothing preserves the mean for periodic boundaries, leaves constants unchanged and commutes with cyclic shifts for even and odd sizes. Smoothing of coeval boxes and light-cones uses the beam or top-hat width of each slice's redshift and only acts on the intended axes.",
 ["inputs", "configurations"], "all fields, kernel sizes and parities, boundary modes, redshifts and baselines",
 "Tests smooth one 9^3 cube and one kernel.",
 ["smoothing.py", "scipy_func.py"], [("FFT convolution", "smoothing.py:smooth_with_kernel"), ("kernels", "smoothing.py:gauss_kernel")],
 ["smooth_gauss", "smooth_tophat", "smooth_coeval", "smooth_lightcone"], RM, EXP)

prop("C09", "Brightness temperature follows the 21-cm equation cell by cell",
 "The differential brightness temperature of every cell is the 21-cm formula applied to that cell's neutral fraction, density over the cosmic mean and (if given) spin temperature at the cell's redshift, for coeval cubes and for light-cones along any line-of-sight axis. It is zero exactly where there is no neutral gas, negative only where the spin temperature is below the CMB, and linear in density and neutral fraction. It does not depend on whether inputs are supplied as arrays, files or file objects.",
 ["inputs", "configurations"], "all ionisation, density, temperature fields and redshifts",
 "Tests use uniform cubes with rounded results.",
 ["temperature.py"], [("formula", "temperature.py:_dt,_dt_full"), ("light-cone redshift scaling", "temperature.py:calc_dt_lightcone")],
 ["calc_dt", "calc_dt_full", "calc_dt_lightcone", "calc_dt_full_lightcone", "mean_dt"], RM, EXP)

prop("C10", "Simulation files round-trip and are read as the format says",
 "Any array or data set written by the package and read back gives the same values, shape and element order, for every supported installed format and precision. Binary simulation outputs (density, velocity, ionisation, temperature, ionisation rates, sources) are decoded with the documented header, precision, axis order and unit conversion, and the redshift is taken from the file name. A truncated or malformed file is never returned as a full-size array.",
 ["inputs", "configurations", "fault_sequences"], "all array shapes, dtypes, formats, and truncations of the files",
 "The stable tests read no file.",
 ["helper_functions.py", "density_file.py", "vel_file.py", "xfrac_file.py", "temper_file.py", "irate_file.py", "source_file.py", "read_files.py"],
 [("binary readers", "helper_functions.py:read_cbin,read_raw_binary"), ("file objects", "density_file.py:DensityFile")],
 ["read_cbin", "save_cbin", "DensityFile", "XfracFile", "VelocityFile"], "runtime monitoring: byte-level reference writers, round trips and truncation faults", EXP)

prop("C11", "Bubble-size statistics account for every selected cell",
 "Friends-of-friends labels are exactly the connected components of the thresholded field under the requested connectivity, component sizes sum to the number of selected cells, and size distributions are normalised consistently with those sizes. Spherical-average sizes are the largest scale at which the mean inside the ball around a cell passes the threshold, mean-free-path samples contain only distances from selected cells to the first unselected point, and granulometry and watershed sizes account for the selected cells. Percolation is reported exactly when one cluster connects the box across opposite faces.",
 ["inputs", "configurations"], "all fields, thresholds, connectivities and box sizes",
 "Tests use a single sphere per method.",
 ["bubble_stats.py", "Friends_of_Friends.py", "mfp_np.py", "spa_np.py", "percolation.py"],
 [("FoF", "bubble_stats.py:fof"), ("MFP", "mfp_np.py:mfp3d"), ("SPA", "spa_np.py:spa_np")],
 ["fof", "mfp", "spa", "dist_from_volumes"], RM, EXP)

prop("C12", "Topology measures are exact integer invariants on every backend",
 "The Euler characteristic of any binary field equals vertices minus edges plus faces minus cells of its periodic cubical complex, and Betti numbers count its connected components, tunnels and cavities with b0-b1+b2 equal to it. All compute backends that can run, job counts and input types give the same integer, invariant under cyclic shifts, axis permutations and reflections of the Euler characteristic's field.",
 ["inputs", "configurations", "schedules"], "all binary fields and neighbour settings on all backends",
 "No stable test covers topology.",
 ["topology.py", "ViteBetti.py", "ViteBetti_cython.pyx", "numba_functions.py", "morph.py"],
 [("Euler characteristic", "topology.py:EulerCharacteristic"), ("cubical complex", "ViteBetti.py")],
 ["EulerCharacteristic", "betti0", "betti1", "betti2"], RM, EXP)

prop("C13", "The native topology extension never touches memory out of bounds",
 "For every array shape, including tiny, degenerate and non-contiguous ones, the compiled topology code reads and writes only inside its arrays and performs no undefined arithmetic, and it returns the same values as the pure Python implementation.",
 ["inputs"], "all 3D arrays passed to the compiled functions",
 "Tests never execute the compiled code.",
 ["ViteBetti_cython.pyx"], [("unchecked indexing", "ViteBetti_cython.pyx")],
 ["CubeMap", "EulerCharacteristic"], "AddressSanitizer+UBSan build of the Cython extension plus bounds-checked build, differential oracle", EXP)

prop("C14", "Region identification and superpixels partition the field consistently",
 "Identified regions are exactly the cells on the requested side of the threshold the method reports, and superpixel segmentations label every cell, with each superpixel's statistic equal to the statistic of its own cells. Segmentation errors, label counts and stitched maps refer to the same partition.",
 ["inputs", "configurations"], "all fields, thresholds and segmentation settings",
 "Tests use one two-valued field.",
 ["identify_regions.py", "superpixels.py"], [("thresholds", "identify_regions.py"), ("label statistics", "superpixels.py:apply_operator_labelled_data")],
 ["bubbles_from_kmeans", "bubbles_from_fixed_threshold", "superpixel_map"], RM, EXP)

prop("C15", "One-point statistics equal their definitions and combine exactly",
 "Mean, variance, skewness, kurtosis, mass-weighted fractions, overdensities and per-slice mean subtraction equal their textbook definitions on any three-dimensional field (four-dimensional for vectors), along any line-of-sight axis. Combining means and variances of parts gives those of the whole.",
 ["inputs"], "all fields, axes and partitions into subsets",
 "Tests use a single field each.",
 ["statistics.py", "helper_functions.py", "usefuls.py"], [("moments", "statistics.py")],
 ["skewness", "kurtosis", "mass_weighted_mean_xi", "subtract_mean_signal", "signal_overdensity"], RM, EXP)

prop("C16", "Thomson optical depth is the path integral of the electron density",
 "The optical depth up to each redshift is the trapezoidal line-of-sight integral of the free-electron density for the given ionisation history plus the fully ionised contribution below the lowest redshift; it is non-decreasing with redshift, monotonic in ionised fraction, and additive over intervals. The optical-depth map applies the same integral to every sight line independently.",
 ["inputs"], "all ionisation histories, redshift samplings and light-cones",
 "The test checks one value to low precision.",
 ["tau.py"], [("integral", "tau.py:tau,tau_map")], ["tau", "tau_map"], RM, EXP)

prop("C17", "uv coverage counts every baseline sample once, where it belongs",
 "Baselines are the pairwise antenna separations in wavelengths, Earth rotation preserves their lengths, and gridding puts each visible sample in the cell of its rounded (u,v), counts each exactly once and drops exactly those outside the grid. Mirrored coverage is point-symmetric, coverage averages over time steps, and every bundled layout converts consistently between coordinate frames.",
 ["inputs", "configurations"], "all antenna layouts, redshifts, grids, integration times and declinations",
 "No stable test covers it.",
 ["radio_telescope_layout.py"], [("gridding", "radio_telescope_layout.py:grid_uv_tracks"), ("rotation", "radio_telescope_layout.py:earth_rotation_effect")],
 ["get_uv_daily_observation", "grid_uv_tracks", "earth_rotation_effect"], RM, EXP)

prop("C18", "A uv light-cone computed with restarts or in parallel equals a fresh one",
 "The set of uv maps for a light-cone is the same whether computed serially, in parallel, from scratch, or resumed from a saved file after an interruption at any point. Saved results are reused only for the same observing setup; a mismatch is rejected or recomputed, never silently mixed, and every requested redshift has its own map.",
 ["crash_points", "histories", "schedules", "configurations"], "all interruption points, worker counts and cache states",
 "No test runs it at all.",
 ["radio_telescope_noise.py"], [("checkpointing", "radio_telescope_noise.py:get_uv_map_lightcone")],
 ["get_uv_map_lightcone"], "runtime monitoring: crash injection at every save plus differential oracle", EXP, level="fault_enumeration")

prop("C19", "Telescope noise and instrument response follow the radiometer scaling",
 "Thermal noise per visibility scales as system temperature over the square root of bandwidth times time, image noise comes only from sampled uv cells with variance set by their coverage, and flux/temperature conversions are mutual inverses. Applying the uv response keeps exactly the sampled Fourier modes, is linear and, for natural sampling, idempotent.",
 ["inputs", "configurations"], "all noise configurations, uv maps and images",
 "No stable test covers noise.",
 ["radio_telescope_noise.py", "radio_telescope_sensitivity.py", "power_spectrum_noise.py"], [("sensitivity", "radio_telescope_sensitivity.py"), ("noise map", "radio_telescope_noise.py:noise_map")],
 ["noise_map", "kelvin_2_jansky", "apply_uv_response_on_image", "sigma_noise_radio"], RM, EXP)

prop("C20", "Analysis never changes its inputs and never depends on earlier calls",
 "No analysis function modifies the arrays passed to it or the session's cosmology and conversion settings. Calling a function again with the same arguments (and, for the random ones, the same random state), after any other calls in the same session, including failing ones and changes a caller makes to earlier results, gives the same result. The result depends on the values of the arrays, not on how they are laid out in memory.",
 ["histories", "inputs"], "all sequences of analysis calls in one session",
 "Tests use fresh arrays and never compare inputs afterwards.",
 ["power_spectrum.py", "smoothing.py", "lightcone.py", "temperature.py", "topology.py"], [("functional style", "power_spectrum.py:power_spectrum_nd")],
 ["all public analysis functions"], "runtime monitoring: argument digests before/after and replay in shuffled history", EXP)

prop("C21", "Synthetic fields, beams and correlations match their requested definitions",
 "Gaussian random fields have exactly the requested power at every k times the seed's unit noise, on even, odd and unequal grids; galactic and extragalactic foregrounds are one reproducible realisation scaled with frequency as documented, and bubble models are the union of periodic balls. Correlation functions (from the measured spectrum and Landy-Szalay) equal their definitions, wedge filters remove exactly the modes inside the wedge, and primary beams are centred and have the documented profile.",
 ["inputs", "configurations"], "all seeds, spectra and box shapes",
 "No stable test covers them.",
 ["gaussian_random_field.py", "foreground_model.py", "corr_function.py", "primary_beam.py"], [("field synthesis", "gaussian_random_field.py")],
 ["make_gaussian_random_field", "galactic_synch_fg"], RM, EXP)

prop("C22", "Bispectrum estimators average exactly the closed triangles of each bin",
 "Bispectrum estimates equal the average over closed Fourier triangles whose sides lie in the requested bins at the returned k values, are undefined where no such triangle exists, and change sign with the field. Position-dependent spectra and integrated bispectra equal the spectra and correlations of the field restricted to the actual sub-volumes.",
 ["inputs", "configurations"], "all fields, triangle configurations and sub-volume splits",
 "No stable test covers them.",
 ["bispectrum.py", "position_dependent_power_spectrum.py"], [("triangle filters", "bispectrum.py")],
 ["bispectrum_fast", "integrated_bispectrum_cross"], RM, EXP)

prop("C23", "Halo catalogues and particles are read completely and gridded conservatively",
 "Reading a halo or particle catalogue returns every record of the file that passes the requested mass and number cuts, with its own position, velocity and mass in the documented units. Placing halos on a grid puts each halo's mass in the cell that contains it so that the total is conserved.",
 ["inputs", "configurations"], "all catalogues, selections and grids",
 "No stable test reads a catalogue.",
 ["halo_list.py", "nbody_file.py", "nbody_pkdgrav.py", "nbody_tools.py", "line_intensity.py"], [("selection", "halo_list.py"), ("gridding", "nbody_file.py:halo_list_to_grid")],
 ["HaloList", "halo_list_to_grid"], RM, EXP)

prop("C24", "Lyman-alpha and UV observables follow their defining relations",
 "Lyman-alpha optical depths scale linearly with neutral density cell by cell with the documented line profile, the effective optical depth along the line of sight is the negative logarithm of the mean transmission in the periodic window around each cell along the requested axis, and the Voigt profile equals its defining integral. Magnitude, flux and luminosity conversions follow the AB system and invert each other, and fields of view convert to the comoving area of the given cosmology.",
 ["inputs", "configurations"], "all fields, windows, axes, temperatures and cosmologies",
 "No test covers them.",
 ["lyman_alpha_transmission.py", "astro_tools.py"], [("windowed transmission", "lyman_alpha_transmission.py:tau_nu_lyA_los")],
 ["tau_nu_lyA_los", "tau_nu_lyA_FGPA", "Muv_to_muv"], RM, EXP)

prop("C25", "Diagnostics, fits and plots report the statistics of what they were given",
 "The posterior diagnostics (SampledDistribution, GriddedProbabilities) report the weighted mean, covariance, sigmas, quantile intervals and cumulative distribution of the samples or of the probability grid they were given, for any number of parameters, any order of the samples and any scale of the weights, and the truth-based metrics (z-score, RMSE, Mahalanobis distance, PIT, 68% and 95% coverage) follow from those numbers; distributions added later leave earlier ones unchanged. Printed chain statistics and forest plots show the same numbers and leave the weights unmodified. FitFunction returns the least-squares parameters under the names they were given and predicts and scores with them. Slice and histogram plots show the requested slice and bins.",
 ["inputs", "histories"], "all samples, weights, grids, truths, model functions and cubes",
 "No test covers these classes.",
 ["plotting.py", "fitting_methods.py"], [("weighted metrics", "plotting.py:_calculate_base_metrics"), ("fit", "fitting_methods.py:fit")],
 ["SampledDistribution.add_distribution", "GriddedProbabilities.add_distribution", "print_chain_stats", "FitFunction.fit", "plot_slice"], RM, EXP)

prop("C26", "Wedge removal keeps exactly the modes outside the foreground wedge",
 "rolling_wedge_removal_lightcone returns, for every frequency channel, the centre of a Blackman-tapered chunk of the light-cone around that channel from which all modes with |k_par| inside the horizon wedge of the chunk's last channel (slope D_c H / c(1+z) for the given matter density) plus the taper's buffer have been removed. It is linear, local to half a chunk along the line of sight, equivariant under shifts and transposition of the sky and independent of the unit of length; it removes spectrally flat foregrounds and keeps modes outside the wedge, for even and odd chunk lengths. remove_wedge_image multiplies every Fourier mode by its filter value, and the barrel and diabolo filters fit the cube they are made for, with values between 0 and 1, removing the modes inside their cylinder or cone around the line of sight and keeping those outside.",
 ["inputs", "configurations"], "all light-cones, redshift axes, chunk lengths, thresholds and cosmologies",
 "No test covers foreground removal.",
 ["foreground_model.py"], [("rolling removal", "foreground_model.py:rolling_wedge_removal_lightcone"), ("image filter", "foreground_model.py:remove_wedge_image")],
 ["rolling_wedge_removal_lightcone", "remove_wedge_image", "barrel_filter"], RM, EXP)
