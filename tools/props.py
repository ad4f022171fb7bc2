"""Source of /verif/properties.jsonl (python tools/props.py rewrites it)."""
import json, os, sys

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)


ATS = "swprocess/activetimeseries.py"
S1C = "swprocess/sensor1c.py"
ARR = "swprocess/array1d.py"
WT = "swprocess/wavefieldtransforms.py"
WF = "swprocess/maswworkflows.py"
MASW = "swprocess/masw.py"
SNR = "swprocess/snr.py"
PK = "swprocess/peaks.py"
PS = "swprocess/peakssuite.py"
RX = "swprocess/regex.py"
UT = "swprocess/utils.py"
IA = "swprocess/interact.py"
INV = "swprocess/inversion.py"
REG = "swprocess/register.py"
SRC = "swprocess/source.py"
STA = "swprocess/stats.py"

# ----------------------------------------------------------------- time series
prop("T01", "Stacking is the stack-count-weighted mean, or is refused without effect",
     """After any history of stacking time series onto a record, its amplitude equals the mean of all records contributed
     so far, each weighted by its own number of stacks, its stack count equals the sum of the counts, and the
     contributed records are unchanged. Stacking a record that differs in time step, length or delay, or that is not an
     active time series (for sensors: also one at a different position), raises ValueError and leaves the target unchanged.""",
     ["histories"], "every sequence of accepted and rejected stack operations up to the depth bound, over records with different stack counts, lengths, time steps, delays and positions, including stacking onto itself and onto a record that was already stacked",
     "tests stack once or twice with one pair of counts; weighting errors and state damage on refusal only show for particular histories",
     [ATS, S1C], [("stack_append", ATS), ("_is_similar", ATS + ", " + S1C)],
     [("amplitude", "running weighted mean", ATS), ("nstacks", "running number of stacks", ATS)])
prop("T02", "Zero padding delivers the requested frequency step and keeps the record",
     """After zero padding to a frequency step df (with 1/(df*dt) an integer) the record reports exactly that step, its length is
     the smallest whole multiple of 1/(df*dt) that is not less than its length before the call, the reported multiple is that
     whole number, the original samples stay as a prefix and only zeros are appended. This holds however the record was padded or
     trimmed before, and a non-positive df raises ValueError and leaves the record as it was.""",
     ["histories", "inputs"], "every record length and df in the bound, and every sequence of zero_pad, trim and rejected zero_pad calls up to the depth bound",
     "tests pad a handful of lengths once; the three length branches and the carried-over multiple interact over repeated calls",
     [ATS, ARR], [("zero_pad", ATS), ("df/_df/multiple", ATS)],
     [("multiple", "raw bins per requested bin", ATS)])
prop("T03", "Trimming keeps every retained sample at its own time",
     """Trimming a record to [start, end] keeps exactly the samples lying in that interval (to the nearest sample when a limit is
     off the sampling grid), in order and unaltered, and the time vector afterwards gives each kept sample the time it had before
     (within half a sample for an off-grid start), with delay equal to the first time. It holds for any sequence of trims, with
     any pre-trigger delay, for single records, sensors and whole arrays; an illogical interval raises IndexError and changes nothing.""",
     ["histories", "inputs"], "every (start, end) pair over the grid, half grid and outside the record, every delay in the alphabet, every sequence of trims up to the depth bound",
     "tests trim one or two records once; errors in re-basing the delay need a second trim or a pre-trigger delay to show",
     [ATS, ARR, "sigpropy.TimeSeries (dependency)"], [("trim", ATS), ("time", ATS), ("trim", ARR)])
prop("T04", "Copies of records, sensors, sources and arrays are equal and independent",
     """Copying a time series, sensor, source or array through its copying constructor succeeds in every state reachable by
     trimming, padding, detrending, stacking, muting and offset trimming, and gives an object equal to the original in amplitude,
     time step, time vector, stack count, delay, frequency step and multiple, position and order. Afterwards no operation on
     either the copy or the original is visible through the other.""",
     ["histories"], "every history of in-place operations up to the depth bound before the copy, followed by every operation on either side",
     "tests copy freshly built objects; state carried by trimming and padding (delay, multiple) and aliasing show only after histories",
     [ATS, S1C, ARR, SRC], [("from_activetimeseries", ATS), ("from_sensor1c", S1C), ("from_array1d", ARR), ("from_source", SRC)])
prop("T05", "Cross-correlation stacking re-aligns any lag exactly",
     """For two records of equal length and time step whose cross-correlation has a unique maximum, the reported shift is the lag of
     that maximum, the shifted record is the second record moved by that many samples with zeros entering and no wrap-around, and
     cross-stacking gives the stack-count-weighted mean of the first record and the shifted second record. The correlation itself
     is the sum of products at every lag, over the extent and by the method asked for. The two inputs are
     left unchanged, and records of different time step or delay are refused with ValueError.""",
     ["inputs"], "every lag from -(n-1) to n-1 of a family of pulses, for every record length and pair of stack counts in the bound",
     "tests use a couple of lags; sign, off-by-one and edge lags need all of them",
     [ATS], [("crosscorr", ATS), ("crosscorr_shift", ATS), ("from_cross_stack", ATS)])
prop("T06", "Record and array equality tells apart exactly the differing objects",
     """Two time series, sensors, sources or arrays compare equal if and only if they are of the compared kind and agree in time step,
     length, stack count, delay, amplitude (to floating-point tolerance) and, where applicable, position, source and number and order of sensors.
     Equality is symmetric, never raises for foreign types, and does not alter its operands; construction refuses a stack count below one or
     a positive delay with ValueError.""",
     ["inputs"], "every pair drawn from a family in which each member differs from a base object in exactly one or two attributes, plus foreign objects",
     "tests check a few differing attributes one at a time against one base object",
     [ATS, S1C, SRC, ARR], [("__eq__/_is_similar", ATS + ", " + S1C), ("__eq__", SRC), ("is_similar/__eq__", ARR)])

# ----------------------------------------------------------------------- array
prop("A01", "An array orders its sensors by position and refuses malformed sets",
     """Whatever order sensors are supplied in, the array presents them by increasing x position, each with its own record, and
     indexing, positions and the time-series matrix agree with that order. Two sensors at one x position, or sensors that differ in
     length, time step, stack count or delay, are refused with ValueError wherever they appear in the list, and the supplied list is not altered.""",
     ["inputs"], "every permutation of up to five sensors and every placement of one defective sensor among them",
     "tests use one or two orders; a duplicate or dissimilar sensor is only tried in one place",
     [ARR], [("_check_array", ARR), ("__getitem__/position/timeseriesmatrix", ARR)])
prop("A02", "Derived array geometry follows from sensor and source positions",
     """Positions (absolute and relative to the first sensor), source offsets, mean source offset, resolution wavenumber
     (pi over the smallest spacing), channel count and uniform spacing (ValueError when spacing is not uniform) always equal the values
     computed from the current sensor and source positions. They follow every offset trimming, and reading them changes nothing.""",
     ["inputs", "histories"], "every subset of a position alphabet as sensors (uniform and not), every source position on it, between and outside, before and after every offset trim",
     "tests check one uniform geometry with one source position",
     [ARR], [("position/offsets/kres/spacing/array_center_distance", ARR)])
prop("A03", "Offset trimming keeps exactly the sensors inside the offset range",
     """Trimming by offset keeps exactly those sensors whose distance to the source along the array (x) is strictly between the minimum and maximum
     offset, in position order and with untouched records, whichever side of the array the source is on or if it lies within the
     array. If none qualifies ValueError is raised and the array is unchanged; sequences of trims keep the intersection.""",
     ["inputs", "histories"], "every sensor layout, source position (left, right, inside, coincident) and (min, max) pair in the alphabet, and every pair of successive trims",
     "the test trims one layout with the source on the left",
     [ARR], [("trim_offsets", ARR), ("offsets", ARR)])
prop("A04", "Muting zeroes every sample outside the window and only scales inside",
     """After muting with a start line and/or an end line in the distance-time plane, each sensor's samples before its start time
     and after its end time (both evaluated at that sensor's position on the record's own time axis, to within one sample) are exactly zero, and its samples
     inside the window equal the originals times a taper between 0 and 1 whose shape follows the window arguments (all ones for a zero taper). This holds
     for any pre-trigger delay, after trimming to any start time, for sloping lines and for lines leaving the record, independently for each sensor.""",
     ["inputs"], "every combination of start/end line endpoints, delay or trim start, array layout and taper in the alphabet",
     "tests mute one array with horizontal lines and zero or negative delay",
     [ARR], [("mute", ARR)])
prop("A05", "Amplitude matrix and picks never disturb the data and scale as stated",
     """The amplitude matrix has one row per sensor in position order; 'each' gives every row unit peak magnitude, 'all' scales all rows by the one
     common peak, 'none' returns the raw values, and detrending removes each row's own least-squares line before scaling. Threshold picks
     give, for each sensor, the time of the first sample of the detrended, self-normalized trace that departs from its initial (first ten samples) mean by more than the
     threshold. Building the matrix, picking, plotting a waterfall or plotting the layout never changes the array, nor does writing into the returned matrix; a waterfall draws each trace, scaled as requested, at its sensor's position.""",
     ["inputs", "histories"], "every combination of detrend, normalization, array layout and record shape in the alphabet, and every sequence of read-only operations up to the depth bound",
     "tests evaluate single calls on one array",
     [ARR], [("timeseriesmatrix", ARR), ("auto_pick_first_arrivals", ARR), ("waterfall/plot", ARR)])
prop("A06", "Writing an array to an SU file and reading it back loses nothing",
     """An array written to file and read back equals the original: source position, sensor positions (x and y, millimetre resolution),
     amplitudes (single precision), time step, delay (millisecond resolution), stack count and sensor order. Writing does not alter the array, and
     an unsupported file type is refused with ValueError without creating a file.""",
     ["inputs", "histories"], "every combination of stack count, delay, time step, number of sensors, negative/fractional coordinates and source side in the alphabet, including arrays produced by trimming, padding and stacking",
     "the test writes one array with one stack count",
     [ARR, S1C], [("to_file", ARR), ("from_files", ARR), ("_from_trace_su", S1C)])
prop("A07", "File headers are interpreted identically and correctly for every format",
     """Reading an SU, SEG-Y or SEG2 file gives each trace's amplitudes and time step unchanged, with sensor and source coordinates scaled by the
     header's coordinate scalar (negative divides, positive multiplies, zero means one) for x and y separately, then passed through
     the user's x and y mappings. The stack count (zero or missing means one) and the pre-trigger delay come from the header; coordinates flagged as angles are refused with ValueError. Keyword arguments for the reader (such as a start and end time) are honoured.""",
     ["inputs"], "every combination of format, coordinate scalar, x and y value, stack count, delay, coordinate unit and mapping in the alphabet",
     "test files carry y = 0, one scalar per format and identity mappings",
     [S1C, ARR], [("_from_trace_su/_from_trace_segy/_from_trace_seg2", S1C), ("from_files.parse_source", ARR)])
prop("A08", "Several files stack sensor by sensor whatever the order of their traces",
     """Reading several files of one shot gives, at each sensor position, the stack-count-weighted mean of the traces recorded at that position, and
     the summed stack count, whatever the order of traces within each file, whatever the coordinate mapping, for any number of files and whether names are given as a string, list or path. Keyword arguments for the reader apply to every file.
     A file whose source position differs, or whose sensors do not match, raises ValueError.""",
     ["inputs", "configurations"], "every trace order in each of up to three files, every mapping in the alphabet, all stack-count combinations, and every kind of mismatching file at each place in the list",
     "tests stack identical files whose traces are in ascending order and use no mapping",
     [ARR, S1C, ATS], [("from_files", ARR), ("stack_append", ATS)])
prop("A09", "Interactive muting and picking use exactly what the user clicked",
     """Interactive muting returns the start and end lines as ((distance, time), (distance, time)) pairs in click order, for either
     orientation of the time axis, in absolute positions whatever way the waterfall was drawn, mutes the array exactly as the non-interactive call with those lines and window arguments would, and asks only for the lines
     of the requested location (before, after, both). Manual picking returns distances and times in click order for either orientation, and leaves the data unchanged.""",
     ["inputs", "configurations"], "every sequence of clicks from a small set of points, for both axis orientations and all mute locations",
     "tests patch one session with one list of points per case",
     [ARR, IA], [("interactive_mute", ARR), ("manual_pick_first_arrivals", ARR)])

prop("A10", "Any sequence of processing steps acts on the records as they are",
     """However trimming, padding, detrending, offset trimming, muting, stacking, copying and file round trips are combined, each step transforms every record of the array by its own definition applied to
     the record as the previous steps left it, leaves everything else as it was, and keeps the records aligned: ordered by position, with common length, time step, start, stack count and frequency step. Refused steps change nothing, and the amplitude matrix, the geometry
     and the dispersion images of the array are always those of an array newly built from its present records. Arrays it was copied from stay as they were.""",
     ["histories"], "every sequence of steps from an alphabet of about twenty, up to a depth, from several arrays (source on either side or inside, delays, one to six sensors)",
     "tests apply one step to a fresh array",
     [ARR, S1C, ATS, WT], [("trim/zero_pad/trim_offsets/mute", ARR), ("trim/zero_pad/stack_append", ATS), ("from_array1d/to_file/from_files", ARR)])

prop("A11", "Drawings of an array show its sensors, source and records where they are",
     """`Array1D.plot` marks every sensor and the source at its coordinates, names how many sensors there are, their spacing when it is constant, and the source position, keeps all marks inside the axes, and applies
     the given styles on top of the defaults to sensors and source separately; `waterfall` draws one curve per sensor around its (optionally normalised) position against its own times, on the chosen axis with time running downwards when vertical,
     with the given style on every curve, one legend entry for all, and axis limits and names that fit. Supplied axes are drawn on (together with what they hold) and nothing is returned, otherwise a new figure and its axes are; neither the array nor the given keyword arguments change.""",
     ["figures"], "every combination of layout, source, keyword form, orientation and supplied or new axes", "tests only call the functions",
     [ARR], [("plot/waterfall", ARR)])

# ------------------------------------------------------------------ transforms
prop("W01", "Every transform reports the same requested frequencies and trial velocities",
     """For a given array and settings all transforms report the same frequencies: the record's spectral bins from the one nearest fmin to the one
     nearest fmax, inclusive, at the requested frequency step when the record was padded, each exactly the physical frequency at which the power in that column was evaluated.
     Trial velocities run from vmin to vmax inclusive with the requested count and linear or logarithmic spacing, and power has one row per velocity and one column per frequency.""",
     ["inputs", "configurations"], "every combination of record length, padding, fmin, fmax, velocity grid and transform in the alphabet",
     "tests check one padded and one unpadded record with on-grid limits",
     [WT], [("_frequency_keep_ids", WT), ("_create_vector", WT), ("from_array", WT)])
prop("W02", "Each transform computes its published definition",
     """For every array the reported power equals, entry by entry, an independent evaluation of the method's definition: phase-shift (trapezoidal
     integral over offset of unit-amplitude spectra phase-shifted by offset over trial velocity), beamforming (steered spatial cross-spectrum for plane or cylindrical steering
     and for no, sqrt-offset or inverse-amplitude weighting), FK (plane, unweighted beamforming) and slant-stack (interpolated time-domain linear stack, then spectrum).
     This holds for uneven spacing, any source side and any trial-velocity grid.""",
     ["inputs", "configurations"], "every combination of array layout, source side, record family, velocity grid, steering and weighting in the alphabet",
     "tests compare with a few stored images or check only shapes for one layout",
     [WT, ARR], [("transform", WT), ("slant_stack", WT), ("_spatiospectral_correlation_matrix", WT), ("_flipped_tseries_and_offsets", ARR)])
prop("W03", "Transforms find the true velocity and respect the problem's symmetries",
     """For a noise-free plane wave crossing the array at a trial velocity, away from spatial aliasing, every transform's peak at each frequency is that trial
     velocity, and slant-stack's is within one grid step. For cylindrical steering this holds for a cylindrical wave. The magnitude of the image is unchanged when the whole survey (sensors and source) is shifted or mirrored about a point, is
     unchanged for phase-shift when any trace is scaled by a positive factor, and is unchanged up to one global factor for every transform when all traces are scaled alike.""",
     ["inputs", "configurations"], "every combination of true velocity, layout, source side, shift, mirror point and transform in the alphabet",
     "tests include no wave of known velocity and no symmetric pair of surveys",
     [WT, ARR], [("transform", WT), ("_flip_required/offsets", ARR)])
prop("W04", "Normalizing an image is reversible and independent of history",
     """After any sequence of normalizations the image equals the magnitude of the original image with only the last normalization applied: unit maximum at every frequency,
     unit overall maximum, or unscaled. An unknown normalization is refused and leaves the image as it was. Plotting applies its requested normalization in the same way and neither alters frequencies, velocities nor peak velocities.""",
     ["histories"], "every sequence of normalize and plot calls up to the depth bound on real and complex images",
     "tests apply each normalization once to one image",
     [WT], [("normalize", WT), ("plot", WT)], [("power", "image", WT), ("_to_abs", "scale back to absolute power", WT)])
prop("W05", "Frequency-domain stacking is the count-weighted mean of images",
     """After stacking any sequence of images onto an empty or non-empty accumulator, its image is the mean of all contributions weighted by their counts and its count is their sum, with contributed
     images unchanged. An object that is not an image is refused with AttributeError and leaves the accumulator unchanged.""",
     ["histories"], "every sequence of stack operations up to the depth bound over real, complex and already stacked images and non-images",
     "tests stack two images once",
     [WT], [("EmptyWavefieldTransform.stack", WT)])
prop("W06", "Peak picking returns the trial velocity of largest magnitude",
     """At each frequency the picked velocity is the trial velocity whose power has the largest magnitude, for real and complex images, for
     any grid, and it does not change when the image is normalized by any method. An unknown picking method is refused with NotImplementedError, and a plotted image marks exactly those picked points.""",
     ["inputs", "histories"], "every small image over an alphabet of complex values with a unique maximum, before and after each normalization",
     "tests pick from one real non-negative image",
     [WT], [("find_peak_power", WT), ("normalize", WT)])

prop("W07", "Image plots show the image, its picks, near-field line and signal-to-noise",
     """Plotting a dispersion image draws the filled contours of the image (normalized as asked) over exactly its own frequencies and velocities, with levels from zero to its maximum; unless told not to, it marks exactly the
     picked velocity at each frequency; a near-field criterion adds the line velocity = frequency x array-centre distance / criterion without changing the velocity axis. Colour map, colour bar, marker and rasterization settings are honoured and the
     arguments given are unaltered; given axes are used (nothing is returned and no figure is opened), axes without their figure raise ValueError. The signal-to-noise plot shows exactly the ratio at its own frequencies, and warns and draws nothing when there is none.""",
     ["inputs", "configurations"], "every combination of image, normalization, picks, near-field criterion and axes, with keyword values and rasterization in rotation",
     "tests check that plotting runs, or not at all",
     [WT], [("plot/plot_snr", WT)])

# ------------------------------------------------------------------- workflows
prop("M01", "An MASW run equals the documented sequence of steps",
     """For every combination of settings, running a workflow gives the same image, frequencies, velocities, array and signal-to-noise as performing its documented steps by hand: read and stack
     (or, for frequency-domain, process each file and average the images), trim by offset, detrend, trim in time, mute, pad, transform.
     The single workflow uses the first file only, and file names may be a string or a list.""",
     ["configurations", "inputs"], "every combination of workflow, trim, mute, pad, offset range, signal-to-noise, transform, number of files and source side in the alphabet",
     "tests replace the array by mocks, or run one combination per workflow",
     [WF, MASW, ARR, WT], [("run", WF), ("trim_offsets/detrend/trim_time/mute/pad", WF)])
prop("M02", "Runs neither alter their inputs nor influence later runs",
     """Running any MASW workflow leaves the settings dictionary, the file list and the data files exactly as they were. The result of a run depends only on its
     own files and settings: repeating it, or running any other workflows, transforms and settings before it (also with shared settings dictionaries), gives an identical result.""",
     ["histories"], "every sequence of runs up to the depth bound over a family of settings covering all workflows and transforms, with shared and separate settings objects",
     "tests run one configuration per process and never compare a repeated run",
     [WF, WT, MASW], [("from_array", WT), ("run", WF)])
prop("M03", "Invalid surveys and settings are refused, valid ones are not",
     """A workflow refuses with ValueError a source strictly inside the array, and the frequency-domain workflow also refuses files whose source or
     number of sensors differ from the first file's, wherever in the list they are. Unknown workflow, transform or mute method names raise KeyError, and a source at or
     outside either end of the array is accepted.""",
     ["inputs", "configurations"], "every source position on, between and outside the sensors, every position of a mismatching file in the list, every workflow",
     "tests try one inside source and one dissimilar file",
     [WF, ARR, REG], [("check", WF), ("is_similar", ARR), ("create_class", REG)])
prop("M04", "Signal-to-noise is the ratio of mean spectra at the reported frequencies",
     """The signal-to-noise ratio at each reported frequency is the mean over sensors of the signal window's spectral magnitude divided by that of the noise window, both
     evaluated at exactly that frequency. Reported frequencies run from the bin nearest fmin to the bin nearest fmax at the native or requested step, for any padding and window lengths;
     windows of unequal length after any padding are refused with IndexError.""",
     ["inputs", "configurations"], "every combination of window length, padding step (finer, equal and coarser than native), fmin and fmax in the alphabet",
     "tests check only the frequency vector, for steps equal to the native one",
     [SNR, WF], [("from_array1ds", SNR), ("select_noise/select_signal/calculate_snr", WF)])
prop("M05", "Settings carry every argument, and registries resolve what was registered",
     """The settings dictionary built from keyword arguments holds each given value under its documented place, converted to the documented type, defaults for all others, survives a JSON round trip
     and is independent of other settings dictionaries and of the arguments passed. A name resolves to the class most recently registered
     under it in that registry, unknown names raise KeyError, and registrations in one registry never appear in another.""",
     ["inputs", "histories"], "every single and pairwise choice of non-default arguments, and every sequence of register and lookup operations up to the depth bound",
     "tests build one settings dictionary and register one class",
     [MASW, REG], [("create_settings_dict", MASW), ("register/create_class/create_instance", REG)])
prop("M06", "Source cross-correlation preserves moveout between sensors",
     """For a vibratory survey, correlating with the averaged source signal gives every sensor the cross-correlation of its record with that signal over one lag window common to
     all sensors and covering the travel times of interest, so that time differences between sensors are preserved and the image peaks at the true velocity. Source averaging
     weighs the files equally for any sample type and number of files, and sensor positions, stack counts and time step are kept.""",
     ["inputs", "configurations"], "every combination of source signal, true velocity, number of files, sample type, source side, record length and velocity range in the alphabet",
     "tests run one data set and compare with nothing",
     [ARR, WF, MASW], [("Array1DwSource.from_files", ARR), ("xcorrelate", ARR), ("TimeDomainXcorrMaswWorkflow", WF)])

prop("M07", "A vibratory run equals its steps",
     """For every combination of settings, running the correlation workflow gives the same image, frequencies, velocities, array and signal-to-noise as performing its steps by hand: read and
     stack the receiver files and average the source files, drop the pre-trigger part, trim by offset, detrend, trim in time, mute, correlate with the source channel asked for over the trial velocities' travel times, pad and transform.
     Signal and noise windows are taken from the records before correlation, and coordinate mappings apply throughout.""",
     ["configurations", "inputs"], "every combination of file counts, source channel, trim, mute, pad, offset range, signal-to-noise and source side in the alphabet, transforms and mappings in rotation",
     "tests run the workflow once, on one data set, without trim, mute, pad or signal-to-noise",
     [WF, ARR, MASW, SNR], [("TimeDomainXcorrMaswWorkflow.run", WF), ("Array1DwSource", ARR), ("MaswXcorr.run", MASW)])

# ----------------------------------------------------------------------- peaks
prop("P01", "Rejections remove exactly the peaks they describe, for good",
     """After any history of rejections the retained peaks are exactly those that were valid at the start and that no rejection in the history covers: a limits rejection covers values strictly
     outside its (possibly one-sided) limits, a box rejection covers values strictly inside both ranges, in any of the domains frequency, velocity, slowness, wavelength, wavenumber and the optional attributes.
     Retained peaks keep their order and values, all attributes and derived quantities (wavelength = velocity/frequency, slowness = 1/velocity, wavenumber = 2*pi*frequency/velocity) stay aligned, and a suite applies each rejection
     to all of its members.""",
     ["histories", "inputs"], "every sequence of rejections up to the depth bound over a grid of limits at, between and beyond the data values, for one- and two-dimensional peaks with missing values",
     "tests apply one rejection at a time to one data set, seldom with limits equal to data values",
     [PK, PS], [("reject_limits_outside", PK), ("reject_box_inside", PK), ("reject_*", PS)], [("_valid", "which peaks are retained", PK)])
prop("P02", "Saving peaks to JSON and loading them back loses nothing",
     """Peaks or suites written to JSON and read back are equal to what was written: identifier, all attributes, rejected peaks (which stay rejected but recorded), missing values, member order.
     Appending adds a member without disturbing those in the file, appending an identifier already there raises KeyError and leaves the file as it was, and building peaks from a
     dictionary leaves that dictionary unchanged so it can be used again with the same result.""",
     ["histories", "inputs"], "every sequence of write, append, reject, read and from-dictionary operations up to the depth bound over one- and two-dimensional peaks",
     "tests write and read single objects once, with all peaks valid",
     [PK, PS], [("to_json/from_json/from_dict", PK), ("to_json/from_json/from_dict", PS)])
prop("P03", "Peaks are equal exactly when their retained data agree",
     """Two peaks objects are equal if and only if they have the same identifier, the same attributes and the same retained values in the same order (to floating-point tolerance, missing values matching);
     objects with different numbers of retained peaks, including none, are never equal. Suites are equal if and only if their members are pairwise
     equal in order; equality is symmetric, never raises, and never alters its operands.""",
     ["inputs"], "every pair from a family of peaks of zero, one, two and three values with one or two differing attributes and masks, and every pair of suites built from them",
     "tests compare objects of equal, positive length",
     [PK, PS], [("__eq__", PK), ("__eq__", PS)])
prop("P04", "Simplifying multiple peaks keeps the strongest valid one at each frequency",
     """For peaks with several maxima per frequency, simplification returns, for each frequency that still has a valid peak and in order, the requested attribute of the
     valid peak with the largest power (of the first valid peak when no power is recorded); different attributes of one object are simplified to the same peaks. For single peaks it returns the retained values, and it changes nothing.""",
     ["inputs", "histories"], "every assignment of validity and relative power over grids of up to three maxima by three frequencies, after any rejection",
     "tests simplify one matrix with and without power",
     [PK], [("simplify_mpeaks", PK)])
prop("P05", "Reading .max files recovers exactly the valid peaks of each window",
     """Reading a .max file gives one peaks object per time window in file order (only the first window for the single-object reader), each holding exactly the rows of that
     window and wave type that are flagged valid, with velocity the reciprocal of slowness and azimuth, ellipticity, noise and power as written, at the place given by frequency and order of appearance.
     It holds for several maxima per frequency, missing and invalid rows, times and frequencies that are textual prefixes or suffixes of one another, infinite or nan noise, mixed wave types and several files in any order. Each object is identified by its window's start time and the processing type;
     unsupported program versions are refused with ValueError.""",
     ["inputs"], "every file built from the alphabet of windows, frequencies, number of maxima, row validity, wave types and number formats, and every ordered pair of files",
     "tests read a few well-behaved files written by one program version",
     [PK, PS, RX, "swprocess/meta.py"], [("_parse_peaks/from_max", PK), ("from_max", PS), ("get_peak_from_max/get_all/get_wavetype", RX)])

# ----------------------------------------------------------------------- suite
prop("S01", "A suite lists distinct members in order, however it is composed",
     """However a suite is composed (from one peaks object, an iterable, dictionaries, files or other suites, then appends), its members, identifiers and length always
     agree, in order of addition. Adding an identifier already present raises KeyError and adding a non-peaks object raises TypeError, leaving the suite unchanged.""",
     ["histories"], "every sequence of constructor and append operations up to the depth bound over peaks with equal and distinct identifiers",
     "tests append one valid and one duplicate member",
     [PS], [("append/_check_input", PS), ("from_peaks/from_dict/from_json/from_peakssuite", PS)])
prop("S02", "Interactive trimming rejects exactly the boxes committed by the user",
     """In an interactive trimming session the peaks rejected at the end are exactly those inside the boxes drawn (in the domain of the axes drawn on) since the last decision and confirmed by a
     continue or quit answer; boxes followed by an undo reject nothing, and earlier commitments stand. The session pauses to ask exactly when a box contains no retained peak, asks again after an unrecognized answer, asks for a new box when its two clicks are
     on different axes, ends only on quit, and accepts box corners in any order.""",
     ["histories"], "every sequence of boxes, answers and misplaced clicks up to the depth bound, for one and two axes and suites of one to three members",
     "tests replay three fixed sessions",
     [PS, PK], [("interactive_trimming", PS), ("_draw_box", PS), ("_reject_box_inside_bool_array/_reject", PK)])
prop("S03", "Suite statistics are those of the interpolated members",
     """Converting a suite to an array gives one row per member and one column per requested location, holding the member's value linearly interpolated between its retained peaks (nan outside their range), in either
     domain. Mean and standard deviation (n-1) at each reported location are those of the non-missing entries, correlation is that of the columns (after mean substitution if requested), locations with fewer valid members than the required count are dropped, fewer than three members are refused with ValueError,
     and the suite is unchanged.""",
     ["inputs", "configurations"], "every suite of three to four members over a small alphabet of coverage patterns, every requested location on, between and outside the peaks, all drop counts",
     "tests use one suite with full coverage and one with a hole",
     [PS, PK], [("to_array", PS), ("statistics/_drop/_drop_indices", PS)])
prop("S04", "Resolution limits are one curve expressed consistently in all domains",
     """For every supported pair of axes and limit attribute, each point of the computed limit curves satisfies the defining relation: its wavelength (or wavenumber) equals
     the given limit, with wavelength = velocity/frequency, slowness = 1/velocity and wavenumber = 2*pi/wavelength; wavelength limits L and wavenumber limits 2*pi/L give the same curve. Unsupported combinations raise NotImplementedError, and when plotting
     they warn and draw nothing.""",
     ["inputs", "configurations"], "every combination of axes, attribute, limits and sampling vectors in the alphabet",
     "tests compare a few combinations with hand-written values",
     [PS], [("calc_resolution_limits", PS), ("plot_resolution_limits", PS)])
prop("S05", "Plots show exactly the retained or selected peaks, member by member",
     """Plotting peaks or a suite draws, on each requested pair of axes, exactly the retained peaks of each member (or exactly the peaks selected by the mask given), with x and y of the domains asked for, per-member keyword values applied to the
     right member, each label shown once, and axes labelled and scaled for the domains they show. Statistics are drawn as their mean at its locations with error bars of one standard deviation. Plotting never changes the data or the arguments given, unknown domains raise AttributeError, and mismatched numbers of axes or masks raise IndexError.""",
     ["inputs", "configurations"], "every combination of domains, masks, number of members, keyword form and supplied axes in the alphabet, after any rejection",
     "tests check that plotting runs",
     [PK, PS], [("_plot/_prepare_types", PK), ("plot/_prepare_plot_kwargs", PS)])

prop("S06", "A suite always answers for its members' present retained peaks",
     """Whatever sequence of rejections (of the suite or of single members), appends, merges, file round trips, statistics and plots preceded, the table, the statistics, the simplified curves, the comparison,
     the file and the plot of a suite are exactly those of a suite newly built from members holding the peaks retained at that moment.""",
     ["histories"], "every sequence of operations from an alphabet of sixteen, up to a depth, from several suites",
     "tests compute statistics or plots of freshly built suites",
     [PS, PK], [("to_array/statistics/plot", PS), ("reject_limits_outside/reject_box_inside/append", PS), ("_valid", PK)])

# ----------------------------------------------------------------------- other
prop("S07", "The trimming session always shows the peaks it will act on",
     """Whenever an interactive trimming session asks for a box, and when it ends, each of its axes shows exactly the retained peaks of all members in the
     domains of that axes and in the members' styles, with those selected since the last decision visibly marked, whatever boxes, misplaced clicks
     and answers went before. The view, chosen at the start so that every retained peak lies inside it, the scales and the axis labels stay as they were, and resolution limits, when
     asked for, are drawn for that view at every question.""",
     ["histories", "configurations"], "every sequence of boxes, misplaced clicks and answers up to the depth bound, for suites of one to nine members, one to three axes, member styles and resolution limits",
     "tests do not look at the figure of a session, least of all after an undo or a second commitment",
     [PS, PK], [("interactive_trimming", PS), ("plot_resolution_limits", PS), ("_plot", PK)])
prop("I01", "A point-picking session records the user's last point of each selection",
     """A point-picking session returns, in order, the last point of each non-empty selection, and nothing else: empty selections are asked again, earlier points of one selection are ignored. It
     ends once the predefined number of points is reached or the user exits after a selection, and it waits for the initial adjustment and for confirmation to continue only when asked to.""",
     ["histories"], "every sequence of selections (empty, one, two points), key presses and mouse presses up to the horizon, for all option combinations",
     "tests replay a few fixed sequences",
     [IA], [("ginput_session", IA)])
prop("U01", "Extraction writes exactly the requested time block of each station",
     """For every row of the block table the extraction writes one file in the row's folder whose samples are exactly those recorded by that station from the start to the end second inclusive, taken
     from the hourly files that cover it, across hour, day, month and year boundaries and with several rows, in any order; a gap in the recording moves and alters no sample outside it. A block whose end precedes its start, or a table that cannot be read,
     raises and writes no file for it.""",
     ["inputs", "configurations"], "every block over hours 0 to 2 with boundary minutes and seconds, for boundaries of day, month and year, and every ordered pair of rows",
     "tests extract one table within one day",
     [UT], [("extract_mseed", UT)])
prop("U02", "The least-squares step is the exact optimum for linear problems",
     """For a linear forward model one step of the least-squares update from any previous estimate returns the same parameters: those which minimize the sum of the prior and
     the data misfit, each weighted by its inverse covariance. The posterior covariance equals the inverse of the sum of the prior information and the data information, is symmetric, never exceeds the prior covariance, and the inputs are unchanged.""",
     ["inputs"], "every small linear problem over an alphabet of Jacobians, covariances, priors, data and previous estimates",
     "tests evaluate one published example",
     [INV], [("leastsquare_iterativealgorithm", INV), ("leastsquare_posterioricovmatrix", INV)])
prop("U03", "Gap filling in statistical tables preserves all recorded values",
     """Reordering a table of observations to raise its density keeps, in every column, exactly the same recorded values (rows are only permuted), and moves rows
     with earlier first samples to the top. Filling gaps changes only missing entries, fills all of them from the given (or computed, given two recorded values) column mean and deviation, and the filled table is
     reproducible for a given generator. The dense regions of a sorted table are consecutive ranges covering all its columns, each holding at least the requested density and not extendable by a row or column.""",
     ["inputs"], "every pattern of missing entries in tables of up to four by four",
     "tests fill and sort two tables",
     [STA], [("_sort/_fill_data", STA)])

prop("U04", "Dropping sparse observations and locations keeps aligned, unaltered, dense data",
     """Dropping sparse data from a table of observations removes exactly the locations with fewer recorded values than the required count or fraction and the observations with less than the required fraction, the two
     being dropped in whichever order removes more missing entries per recorded value given up. Retained values, their order, and the alignment of each column with its location are unaltered, and the table given is unchanged.""",
     ["inputs"], "every pattern of missing values of every small table and every combination of required counts and fractions, for suites of peaks and for statistics",
     "tests drop from two tables",
     [PS, STA], [("_drop", PS + ", " + STA)])

# ----------------------------------------------------------------------- the whole
prop("E01", "The documented pipeline measures the dispersion the recorded waves have",
     """For records of waves of known dispersion, noise-free and not spatially aliased, a complete run (files of any supported format, any workflow, transform, weighting and steering, one or more shots on either side of the array,
     pre-trigger records trimmed, spectra padded, near traces dropped) gives peaks at the true phase velocities, to the resolution of the trial velocities, whatever was drawn in between. Peaks made of these results can be saved, loaded,
     merged with passive results and cleaned by limits and boxes in any order, ending in the same members and values; statistics over the cleaned suite equal the true velocities with no scatter.""",
     ["histories", "configurations"], "every combination of workflow, transform method, file format, dispersion curve and source position in the bound, and every order of saving, loading, merging, rejecting and drawing up to the depth bound",
     "tests exercise one stage at a time; errors that only show where one stage hands over to the next need the whole chain",
     ["swprocess/masw.py", ARR, PK, PS], [("run", "swprocess/masw.py"), ("find_peak_power", "swprocess/wavefieldtransforms.py"), ("to_json/from_json", PK), ("statistics", PS)])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
