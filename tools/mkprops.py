import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a=dict(files=files,mechanism=[dict(name=mech,where=files[0])])
    if state: a['state']=[dict(name=state,where=files[0])]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
S='ssqueezepy/'
p('C01','CWT equals its defining filter-bank formula',
 "For every real input, the CWT and its time-derivative equal the documented filter-bank definition: pad the signal, multiply its spectrum by the wavelet sampled at each scale over the full frequency axis (times i*xi/dt for the derivative), inverse-transform, and cut back to the original samples. The L2 option differs from L1 only by the factor sqrt(scale), the padded-output option only by not cutting, and higher-order / averaged transforms equal the per-order transforms and their mean.",
 ['inputs','configurations'],"all signals (decided through the complete impulse basis, the transform being linear) of every short length, 1D and batched; all wavelets, scale layouts, pad types, norms, sampling-rate forms, orders and precisions of the configuration lattice",
 "Tests compare reconstruction error on a handful of chirps of power-of-two length with mostly default options; a wrong sample at one boundary, one scale, odd length or non-default option is invisible to a mean-error threshold.",
 [S+'_cwt.py',S+'utils/common.py',S+'utils/cwt_utils.py',S+'wavelets.py'],
 "cwt(): padsignal -> fft -> psih*xh -> ifft -> unpad; derivative via 1j*xi/dt; sqrt(scales) for L2; cwt_higher_order()")
p('C02','Execution options never change the transform',
 "Options that only choose how a transform is executed - all scales at once or looped, batched or one input at a time, caching wavelets or not, multi-threaded or serial, tensor flag, FFT planning effort, passing a wavelet as name, tuple or object - give the same values and shapes for every transform and its synchrosqueezed form.",
 ['inputs','configurations'],"every combination of execution options against the plain looped, serial, uncached, one-input execution, for forward, derivative, squeezed, higher-order and short-time transforms, all squeezing modes, on signals chosen from a small alphabet including silent and non-finite channels",
 "Tests check a few pairs of options on one signal; combinations (batched + non-default squeezing, cached + looped, higher-order + batched) are never compared.",
 [S+'_cwt.py',S+'_ssq_cwt.py',S+'_ssq_stft.py',S+'_stft.py',S+'ssqueezing.py',S+'algos.py'],
 "vectorized/_for_loop, is_2D broadcasting, cache_wavelet, *_par kernels vs serial kernels")
p('C03','Parallel kernels are schedule independent',
 "For every number of worker threads and every interleaving of their memory accesses, each multi-threaded numerical routine returns exactly what a single worker computes in order. No two workers ever touch the same output cell with at least one writing in a way that can influence the result.",
 ['schedules','inputs'],"all work-share splits and all interleavings of conflicting accesses of 1..N workers over each parallel loop of the library, on small inputs that force ties, duplicate targets and below-threshold entries",
 "A data race on a tie shows up only under particular schedules and inputs; unit tests run one uncontrolled schedule and compare to loose tolerances.",
 [S+'algos.py',S+'ridge_extraction.py',S+'utils/stft_utils.py',S+'wavelets.py',S+'_gmw.py'],
 "numba prange kernels: indexed sum, squeeze, phase transform, |x|, ridge penalties, buffer, wavelet sampling")
p('C04','Synchrosqueezing moves each coefficient to its nearest bin once',
 "Every coefficient whose magnitude exceeds the threshold is added, scaled by the layout's integration constant, to exactly one output cell: same time column, the frequency bin nearest to its instantaneous frequency (in the layout's own spacing, clipped to the range, ties and flips as documented). Coefficients below the threshold or with infinite frequency are not transferred, so per-column mass is conserved, and nothing else is in the output.",
 ['inputs','configurations'],"all small coefficient/frequency matrices over a tie- and boundary-rich alphabet (zero, below/above threshold, exact bin, half-way, beyond range, infinite), all bin layouts (linear, log, piecewise log, irregular lengths), with and without precomputed frequencies, both flips, serial and parallel, all squeezing modes",
 "Tests check energy ratios on a few real signals; an off-by-one in the last bin or in the piecewise transition moves a handful of coefficients and stays under thresholds.",
 [S+'ssqueezing.py',S+'algos.py',S+'_ssq_cwt.py',S+'_ssq_stft.py'],
 "ssqueeze(), ssqueeze_fast / indexed_sum_onfly kernels, find_closest arithmetic, const per scaletype")
p('C05','Output options do not alter the results they accompany',
 "Asking a synchrosqueezing call for additional outputs (instantaneous frequencies, derivative, preserved transform) or for flipped row order changes neither the squeezed transform, nor the returned transform, nor frequencies beyond the documented order. Every returned array has the documented shape and the transform returned is the one the plain transform call returns.",
 ['configurations','inputs'],"all combinations of output options x squeezing modes x differentiation types x 1D/batched input x pad types x flips",
 "Tests run option combinations only to see that they do not crash; outputs of different option sets are never compared with one another.",
 [S+'_ssq_cwt.py',S+'_ssq_stft.py',S+'ssqueezing.py'],
 "get_w/get_dWx/preserve_transform/flipud handling, fast path vs two-step path")
p('C06','Short-time transform inverts perfectly',
 "Inverting the short-time transform with the same parameters returns every original sample covered by overlapping windows of non-zero summed power (the non-zero overlap-add condition at the given hop) to rounding, for every signal length, FFT length, window length and shape, hop, modulation, pad type, window power and precision.",
 ['inputs','configurations'],"complete impulse basis over all (length, FFT length, window length, hop, modulated, window, pad type, window power, precision) within small bounds, including odd sizes and lengths not divisible by the hop",
 "Tests sample ~10 parameter sets on random signals; boundary frames depend on parity and divisibility combinations that are not sampled.",
 [S+'_stft.py',S+'utils/stft_utils.py',S+'utils/common.py'],
 "stft(): padsignal, buffer, window, rfft; istft(): irfft, unbuffer, window_norm, unpadding")
p('C07','Short-time transform equals its definition',
 "Each column is the DFT of the window-weighted slice of the padded signal centred on its hop position, with the DFT phase referenced to the window centre when modulated; the derivative output is the same with the time-derivative of the window in physical units. Shapes are (n_fft//2+1) x ((N-1)//hop+1), and framing/overlap-add helpers are exact inverses of each other.",
 ['inputs','configurations'],"impulse basis over all small lengths, FFT lengths, window lengths, hops, modulations, pad types, precisions, 1D and batched",
 "Tests only check a few shapes and reconstruction; a consistent shift or phase error in both directions would cancel in reconstruction.",
 [S+'_stft.py',S+'utils/stft_utils.py',S+'utils/common.py'],
 "stft()._stft, get_window(derivative), buffer()/unbuffer()/window_norm()")
p('C08','Inverse CWT equals its formula and ignores execution details',
 "The one-integral inverse equals the admissibility-normalised sum over scales documented for each scale layout and norm, adds the given mean exactly once, treats batches as independent inputs, and is unchanged between L1 and L2 transforms. The double-integral inverse equals its own formula whether the transform is given padded or unpadded.",
 ['inputs','configurations'],"impulse basis of transform matrices; all scale layouts, norms, means, batched or not, padded or not, all wavelets in the lattice",
 "Tests reconstruct zero-mean chirps with default layout only; a doubly-added mean or a batch mix-up does not show.",
 [S+'_cwt.py',S+'utils/cwt_utils.py'],
 "icwt(), _icwt_1int/_icwt_2int, piecewise recursion, adm_ssq/adm_cwt")
p('C09','Synchrosqueezed inversion and component partition are exact',
 "Full inversion of a synchrosqueezed transform is the normalised sum of the real part over all rows and equals the inverse of the unsqueezed transform when no coefficient is thresholded. Component inversion with any curve and width arrays partitions the rows: every component is the sum over its band at each time, absent-curve markers contribute nothing, the last output is the remainder, and for disjoint bands all outputs add up to the full inversion.",
 ['inputs','configurations'],"all small curve-centre/width arrays (including out-of-range, zero width, absent-curve, overlapping) x basis matrices; all windows and FFT lengths for the short-time case",
 "Tests extract one band from one signal; clipping at the edges and absent-curve columns are never checked.",
 [S+'_ssq_cwt.py',S+'_ssq_stft.py'],
 "issq_cwt(), issq_stft(), _invert_components()")
p('C10','Padding keeps the signal and extends it as named',
 "Padding to any target length returns an array of exactly that length (next suitable power of two by default) that contains the original samples at the reported offset, extended on both sides by the rule the pad type names, identically for batched input. The reported left/right amounts always add up with the input length to the padded length.",
 ['inputs','configurations'],"all lengths 1..64 (distinct-valued signals decide every signal since padding only copies samples), every pad type, every target length up to several times the input, 1D/2D",
 "Tests compare two pad types at a few lengths.",
 [S+'utils/common.py'],
 "padsignal(), p2up()")
p('C11','A wavelet object never serves stale or foreign data',
 "After any sequence of length changes, cached and uncached evaluations, precision casts and transforms, a wavelet object's values, frequency grid and statistics equal those of a freshly built one with the same settings (statistics: at the length they were last computed or reset for, as documented). Returned data is not altered by later use of the object.",
 ['histories'],"all sequences up to the depth bound over an alphabet of operations (set length, cached evaluation at colliding scale sets, half/full spectrum, plain evaluation, transform, attribute reads), several wavelets",
 "Tests construct a fresh object per use; cache invalidation depends on order and on nearly-equal arguments.",
 [S+'wavelets.py',S+'_cwt.py'],
 "Wavelet.__call__, Wavelet.Psih cache, N/xi setters, cwt's temporary N","Wavelet._Psih, _Psih_scale, _xi, _N")
p('C12','Calls have no side effects on the caller, even when they fail',
 "No public transform, inverse or helper modifies arrays, dictionaries or wavelet objects passed to it, or the library's global settings, beyond what its documentation declares. This also holds when the call ends with an exception at any internal step, after which the same call made correctly gives the same result as in a fresh process.",
 ['fault_sequences','histories','inputs'],"every public call in the catalogue x argument variants x an exception injected at each internal call point in turn; all ordered pairs of calls",
 "Tests never compare inputs before and after or inject failures mid-call.",
 [S+'_cwt.py',S+'_ssq_cwt.py',S+'_stft.py',S+'wavelets.py',S+'utils/fft_utils.py',S+'ridge_extraction.py',S+'algos.py'],
 "temporary state (wavelet.N, FFT patience) restored after use; inputs copied before in-place work","Wavelet.N, FFT_GLOBAL.patience/planning_timelimit")
p('C13','FFT wrapper equals the reference transform for every call history',
 "Every forward/inverse, real/complex, shifted or unshifted transform through the library's FFT front end equals the reference DFT for all lengths, axes, precisions and output lengths, whatever planning effort, thread or caching options are set and whatever was computed before. Results returned earlier are never changed by later calls.",
 ['histories','configurations'],"all call sequences up to the depth bound over (transform kind, length, axis, dtype, planning effort, caching) on one wrapper; impulse basis of inputs for single calls over the full configuration lattice",
 "Tests compare a handful of single calls; plan-cache collisions need two calls that differ in one attribute.",
 [S+'utils/fft_utils.py'],
 "FFT class: get_fft_object cache, _get_save_fill, patience handling","FFT._fft_objects / FFT_GLOBAL")
p('C14','FFT planning knowledge survives a crash while being saved',
 "If the process dies, or a write fails, at any point while planning knowledge is being saved, the next process starts normally and finds either the previously saved knowledge or the newly saved one, for both precisions. Processes saving at the same time leave the complete knowledge of one of them. Saved files are only ever written in the configured directory.",
 ['crash_points','histories','schedules'],"process death before every file-system operation of the save and at every torn-write length class, for histories of one to three planned transforms, followed by a restart; interleavings of two savers up to a preemption bound",
 "No test interrupts a save.",
 [S+'utils/fft_utils.py'],
 "FFT.save_wisdom()/load_wisdom()","wisdom32/wisdom64 files")
p('C15','Scale generation is well formed and self-consistent',
 "Every way of asking for scales yields a strictly increasing positive vector in the requested layout (constant ratio, constant step, or two constant-ratio pieces), of the requested density, inside the bounds implied by the chosen preset; explicit arrays are used unchanged. Inspecting generated scales recovers the layout and density they were made with, and the transition point of piecewise layouts.",
 ['inputs','configurations'],"all lengths in a dense small range, densities, layouts, presets, wavelets, downsampling thresholds and precisions",
 "Tests check a few lengths at default density.",
 [S+'utils/cwt_utils.py'],
 "process_scales(), make_scales(), cwt_scalebounds(), infer_scaletype(), logscale_transition_idx(), nv_from_scales()")
p('C16','Ridge extraction returns the minimum-penalty ridges',
 "Each extracted ridge is in range at every time, its frequency and energy outputs are those of the transform at the ridge, and it is a minimum-cost path of the documented energy-plus-jump penalty over all index paths of the (band-removed) energy map. Successive ridges see the energy with the previous ridge's band zeroed, clipped to the map; results do not depend on parallelism, on input scaling or on thread schedule.",
 ['inputs','schedules','configurations'],"all energy maps up to a small size over a small alphabet incl. ties, wide and tall; all penalties, bandwidths, ridge counts, scale layouts",
 "Tests use smooth signals with well separated ridges and wide tolerances; edges, tall maps and ties are not reached.",
 [S+'ridge_extraction.py'],
 "extract_ridges(): penalty matrix, accumulated penalty forward/backward pass, band removal")
p('C17','Settings resolve by one precedence, at call time',
 "For every setting, an explicit argument wins (including falsy ones), then the environment variable where one exists, then the configuration file, evaluated when the call is made (wavelet objects: when they are built). Changing one between calls takes effect on the next call and never on other settings.",
 ['configurations','histories'],"all presence/absence combinations of argument, environment variable and file entry over each settable default; sequences of changes between calls",
 "Tests read the shipped file only, once.",
 [S+'configs.py',S+'utils/backend.py',S+'wavelets.py',S+'_stft.py'],
 "gdefaults(), IS_PARALLEL(), USE_GPU(), configs.ini")
p('C18','Results are covariant with physical units',
 "Giving the sampling rate, or the equivalent time vector, changes only quantities that carry units and by exactly the right factor: derivatives and instantaneous/output frequencies scale with the rate, transforms, scales, squeezed coefficients' bins and inversions do not change. Sampling rate and time vector are interchangeable, the vector takes precedence, and malformed ones are rejected.",
 ['configurations','inputs'],"all rates of a spread alphabet x forms (rate, vector, both) x every transform, layout, differentiation type, modulation and squeezing mode",
 "Tests use unit rate almost everywhere.",
 [S+'_cwt.py',S+'_stft.py',S+'_ssq_cwt.py',S+'_ssq_stft.py',S+'ssqueezing.py',S+'utils/common.py',S+'experimental.py'],
 "_process_fs_and_t(), dt in derivative, Sfs, _compute_associated_frequencies()")
p('C19','Wavelets are correctly sampled, analytic and normalised',
 "Every built-in wavelet evaluated at any scale and length equals its closed form on the library's DFT frequency grid, is zero at negative frequencies and at zero frequency where documented, and keeps its norm convention (peak 2 or unit energy) for every parameter set and order; precision and array/scalar scale forms agree. Its centre frequency, time/frequency deviations and admissibility constants equal independent numerical evaluation of their definitions.",
 ['inputs','configurations'],"all lengths (odd/even), scales, parameter lattice, orders, norms, precisions; every grid point",
 "Tests check a few parameter sets at one length with plotting-grade tolerances.",
 [S+'wavelets.py',S+'_gmw.py',S+'utils/cwt_utils.py'],
 "wavelet kernels, gmw(), _xifn(), center_frequency(), time_resolution()/freq_resolution(), adm_*")
p('C20','Array primitives equal their brute-force definitions',
 "Nearest-value lookup, indexed sums, threshold and non-finite replacement, denormal zeroing, windowed searches and elementary statistics return what direct element-by-element evaluation of their definition gives, in every mode, shape, dtype and thread setting.",
 ['inputs','configurations'],"all small arrays over special-value alphabets (ties, endpoints, zero, denormal, infinite, NaN), all shapes up to bound, all dtypes, parallel and serial",
 "Tests compare parallel with serial implementation on random data, never with the definition, never at endpoints.",
 [S+'algos.py'],
 "find_closest(), indexed_sum(), replace_at_*(), replace_under_abs(), min_neglect_idx(), zero_denormals()")
p('C21','Output frequencies are ordered, in range and match the scales',
 "Frequencies returned with a synchrosqueezed transform are positive, monotone in the documented direction, one per row, span exactly the requested or implied range, and follow the requested layout; explicit frequencies are used as given. Converting scales to frequencies gives each scale's centre frequency, decreasing with scale and never above Nyquist.",
 ['inputs','configurations'],"all lengths, layouts, range modes, wavelets, pad on/off, rates and explicit vectors of the lattice",
 "Tests check that the peak row is near an expected frequency for a few signals.",
 [S+'ssqueezing.py',S+'experimental.py',S+'wavelets.py',S+'_ssq_cwt.py',S+'_ssq_stft.py'],
 "_compute_associated_frequencies(), _ssq_freqrange(), scale_to_freq(), center_frequency()")
p('C22','Test-signal generation is deterministic and as specified',
 "Each generated signal equals its closed-form definition with the requested parameters, length and time span. The same seed reproduces the same noise, which is the seed's normal draw scaled to the variance the requested signal-to-noise ratio implies, and no call changes the defaults used by later calls.",
 ['histories','configurations'],"all call sequences up to the depth bound over signal names x parameter overrides x seeds (including zero) x SNR values (including zero)",
 "Tests only run the generators for crashes and plots.",
 [S+'_test_signals.py'],
 "TestSignals.__call__/make_signals(), _process_input, _add_noise","default_args/default_tkw")
p('C23','Requested precision is honoured end to end',
 "Each transform computes and returns arrays in the precision requested by the wavelet or dtype setting regardless of the input's own dtype or memory layout, and single- and double-precision results agree to single-precision rounding. Integer, non-contiguous and reversed-view inputs give the same result as their contiguous floating-point copies.",
 ['inputs','configurations'],"all input dtypes x memory layouts x requested precision x transform/inverse/squeeze x dimensionality",
 "Tests use contiguous float64 inputs almost exclusively.",
 [S+'wavelets.py',S+'_cwt.py',S+'_stft.py',S+'utils/backend.py',S+'_ssq_cwt.py'],
 "_process_params_dtype(), S.asarray/astype, dtype attributes")
p('C24','Figures show exactly the data they are given',
 "Every plotting helper draws the arrays it is given - values, positions, part (real, imaginary, magnitude), count - on the axes asked for and no others, with the requested titles, labels, limits and markers, and ticks that name the value at their position. Wavelet views draw the wavelet's actual samples against their actual times and frequencies. Asking for a figure changes no argument and no computed result.",
 ['inputs','configurations'],"all combinations of data form, part, orientation, axes, labels, limits, markers, grids; all wavelets, lengths and views",
 "Tests only run plotting functions for crashes, with display disabled.",
 [S+'visuals.py',S+'toolkit.py',S+'_test_signals.py',S+'wavelets.py',S+'utils/cwt_utils.py'],
 "visuals.*, toolkit.lin_band(), TestSignals.demo/test_transforms(), viz= options")
p('C25','Warnings are given exactly when what they warn of is the case',
 "A call that cannot be inverted, whose input holds NaN or infinity, whose test signal aliases, whose window peaks off centre, or whose options are ignored or override each other says so in a warning naming the right subject; a call without that condition gives no warning. The library's ordinary default use never warns.",
 ['inputs','configurations'],"all small windows x hop x FFT length, every position of each non-finite value, all signals and frequencies around the aliasing limit, all combinations of options that carry a warning, ordinary use over lengths and wavelets",
 "Tests never inspect the log.",
 [S+'_stft.py',S+'_cwt.py',S+'_ssq_stft.py',S+'_test_signals.py',S+'algos.py',S+'wavelets.py',S+'ssqueezing.py',S+'utils/cwt_utils.py'],
 "WARN() call sites: _check_NOLA(), nan_checks, _process_fs_and_t, cache_wavelet, average, difforder, smart, presets","_maybe_warn_alias()")
p('N01','GPU execution equals CPU execution',
 "With GPU execution enabled, every transform, squeeze and reconstruction gives the same values as CPU execution to rounding, and tensors stay on the device unless asked for otherwise.",
 ['inputs','configurations','schedules'],"all transforms and kernels on a CUDA device",
 "GPU tests are skipped without a device.",
 [S+'algos.py',S+'utils/gpu_utils.py',S+'utils/backend.py'],
 "cupy raw kernels, torch back end")
p('N02','Performance matches documentation',
 "Parallel execution is faster than serial, and each transform runs within the times the README lists relative to other libraries.",
 ['schedules'],"timing on all hardware",
 "Timing depends on the machine.",
 [S+'algos.py',S+'utils/fft_utils.py'],
 "benchmark claims in README")
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
    print(d['id'],d['statement'].count('. ')+1)
