#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=["swprocess/"+f for f in files],
                     mechanism=[dict(name=n, where="swprocess/"+w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Stacking records in time is the stack-count-weighted mean",
  """Stacking record B (of nB stacks) onto record A (of nA stacks) leaves A with the value (nA*a+nB*b)/(nA+nB) at every
  sample, with stack count nA+nB and its sample interval, delay and length unchanged, and leaves B unchanged.
  A B that is not an active-source record, or whose sample interval, delay or number of samples differs, is rejected with
  an error that leaves both records unchanged.""",
  ["inputs", "histories"], "all record lengths, amplitudes, sample intervals, delays and stack counts; repeated stacking",
  "The tests stack a few 5-sample literals with counts 1 and 2; the weights and the frame must hold for every count, length and sequence of stacks.",
  ["activetimeseries.py", "sensor1c.py"], [("ActiveTimeSeries.stack_append", "activetimeseries.py"), ("_is_similar", "activetimeseries.py, sensor1c.py")],
  ["amplitude", "nstacks", "delay", "dt", "nsamples", "raised error"])
p("C02", "Zero padding keeps the record and delivers the requested frequency step",
  """Padding a record for a frequency step df keeps all existing samples, in order and at the same times, and only appends
  zeros; the sample interval, delay and stack count do not change. Whenever 1/(df*dt) is a whole number N the reported
  frequency step is exactly df, because the padded length is the frequency multiple times N with a whole multiple; padding
  an array pads every one of its sensors this way. A non-positive df is rejected and changes nothing.""".replace(", because the padded length is the frequency multiple times N with a whole multiple", " and the padded length is a whole multiple of N"),
  ["inputs"], "all records, sample intervals and requested steps; every sensor of an array",
  "The tests try a handful of lengths; divisibility cases (longer, shorter, exact multiple) range over all integers.",
  ["activetimeseries.py", "array1d.py"], [("ActiveTimeSeries.zero_pad", "activetimeseries.py"), ("df/multiple properties", "activetimeseries.py"), ("Array1D.zero_pad", "array1d.py")],
  ["amplitude", "df", "multiple", "nsamples", "raised error"])
p("C03", "Trimming in time keeps exactly the requested contiguous samples",
  """Trimming a record to [t0, t1] inside its time range keeps, unaltered and in order, the contiguous samples from the one
  nearest t0 to the one nearest t1, and nothing else; afterwards the record starts at t0 and keeps its sample interval and
  stack count. A window that starts before the record, ends after it, or is empty (t0 >= t1) is rejected and the record is
  unchanged; trimming an array trims every sensor this way.""",
  ["inputs"], "all records, delays, sample intervals and trim windows; every sensor of an array",
  "Tests trim a few literals at sample-aligned times; off-by-one at either end for non-aligned times, delays and other lengths is not covered.",
  ["activetimeseries.py", "array1d.py"], [("ActiveTimeSeries.trim", "activetimeseries.py"), ("Array1D.trim", "array1d.py")],
  ["amplitude", "time", "delay", "raised error"])
p("C04", "Cross-correlation alignment picks the best lag and shifts without wrap-around",
  """For two equally sampled records of equal length the alignment returns a lag at which their full cross-correlation is
  largest, and the second record moved by that lag: same length, sample i taken from sample i-lag, zero where that lies
  outside the record. Cross-stacking yields the stack-count-weighted mean of the first record and the shifted second one;
  neither input is modified, and dissimilar records are rejected.""",
  ["inputs"], "all record pairs, lags of either sign, stack counts",
  "Tests use a few pulses; the sign, the wrap-around and the weighting must hold for every pair of records.",
  ["activetimeseries.py"], [("crosscorr_shift", "activetimeseries.py"), ("from_cross_stack", "activetimeseries.py")],
  ["returned shift and samples", "stacked amplitude", "inputs after the call"])
p("C05", "An array holds each sensor once, in ascending position, with its own record",
  """Building an array from sensors in any order yields the same sensors, each exactly once and still carrying its own record
  and position, ordered by strictly ascending x. If two sensors share an x, or any sensor differs from the others in sample
  interval, number of samples, delay or stack count, construction is rejected.""",
  ["inputs"], "every number, order and position of sensors",
  "Tests use at most a dozen sensors in a couple of orders; the permutation and the rejection must hold for all orders and any pair of offending sensors.",
  ["array1d.py", "sensor1c.py"], [("Array1D._check_array", "array1d.py"), ("Sensor1C._is_similar", "sensor1c.py")],
  ["sensors", "position()", "raised error"])
p("C06", "Offsets, source side and near-to-far ordering agree with the geometry",
  """Every offset equals the absolute distance between that sensor's position and the source, the array-centre distance is
  their mean, and the source counts as inside exactly when it lies strictly between the first and last sensor. For a source
  outside the array, the traces handed to the wavefield transforms are ordered with non-decreasing offsets, and every row is
  the trace recorded at the offset it is paired with.""",
  ["inputs"], "all sensor positions and source positions",
  "Tests place the source at a few points; pairing of traces and offsets must survive both source sides and any geometry.",
  ["array1d.py"], [("offsets", "array1d.py"), ("_source_inside", "array1d.py"), ("_flipped_tseries_and_offsets", "array1d.py")],
  ["offsets", "array_center_distance", "source-inside check", "transform input pairs"])
p("C07", "Offset selection keeps exactly the sensors strictly inside the range",
  """Restricting an array to offsets between a minimum and a maximum keeps exactly the sensors whose offset is strictly
  greater than the minimum and strictly less than the maximum, in their original order and with their records unchanged,
  whichever side of the array the source is on. If no sensor qualifies the call is rejected and the array is unchanged.""",
  ["inputs"], "all geometries, source sides and offset ranges",
  "Tests check a few ranges on one geometry with the source on one side.",
  ["array1d.py"], [("Array1D.trim_offsets", "array1d.py")], ["sensors after the call", "raised error"])
p("C08", "The trace matrix is the sensors' records, normalised as requested, and read-only",
  """Row i of the trace matrix is the record of the i-th sensor, linearly detrended if requested; normalising 'each' divides
  every row by its own largest absolute value and normalising 'all' divides all rows by the largest absolute value of the
  matrix. Producing the matrix never changes the sensors.""",
  ["inputs"], "every array, record and combination of options",
  "Tests compare one literal per option; the frame (records unchanged) and the row correspondence range over all arrays.",
  ["array1d.py"], [("Array1D.timeseriesmatrix", "array1d.py")], ["returned matrix", "sensor amplitudes after the call"])
p("C09", "Muting tapers each trace outside its own window and leaves geometry alone",
  """Muting with start and end lines multiplies every trace by its own Tukey window that runs from the sample where the
  start line crosses that trace's position to the sample where the end line does (the record's start, or its last sample,
  where a line is not given); every sample outside that window becomes zero. Positions, timing and stack counts do not
  change, and the window options given by the user are the ones applied.""",
  ["inputs"], "all arrays, delays, sample intervals and start/end lines whose windows lie within the record",
  "Tests mute one small array; slopes, delays and per-trace windows range over all geometries.",
  ["array1d.py"], [("Array1D.mute", "array1d.py")], ["sensor amplitudes"])
p("C10", "Header coordinates, scalars, delay and stack counts are decoded by one rule",
  """For SU and SEG-Y traces, receiver and source x and y alike are the stored integer divided by the magnitude of a negative
  coordinate scalar, or multiplied by a positive one (zero counts as one); delay is the stored milliseconds as seconds and a
  stored stack count of zero counts as one. SEG-2 receiver location, source location, delay and stack come from their named
  headers; user coordinate maps are applied to each of them, and non-length coordinate units are rejected.""",
  ["inputs"], "every header integer, scalar (powers of ten of either sign, and zero) and coordinate map",
  "Tests read two or three example files whose scalars never exercise a positive value or a non-zero y.",
  ["sensor1c.py", "array1d.py"], [("Sensor1C._from_trace_su/_segy/_seg2", "sensor1c.py"), ("Array1D.from_files parse_source", "array1d.py")],
  ["sensor x, y, delay, nstacks", "source x, y"])
p("C11", "Multiple shot files are stacked sensor by sensor with the same decoding",
  """Reading several files of the same shot gives, at each position, the stack-count-weighted mean of all traces recorded at
  that position, whatever the order of traces in the files, with coordinate maps and read options applied to every file.
  A file whose source, positions, sampling or number of traces differs is rejected.""",
  ["inputs", "histories"], "all numbers of files and traces, trace orders and coordinate maps",
  "Tests stack a few files in which all traces are identical up to scale, in ascending order and with identity maps.",
  ["array1d.py"], [("Array1D.from_files", "array1d.py")], ["sensor amplitudes and positions", "raised error"])
p("C12", "Writing an array to SU and reading it back restores it",
  """For an array whose positions, source coordinates and delay are whole millimetres and milliseconds, writing it as SU and
  reading it back restores every position, the source x and y, the delay and the stack count, and every sample as its
  single-precision value, in the same order.""",
  ["inputs"], "all arrays representable in the format",
  "Tests round-trip one array with a single stack.",
  ["array1d.py", "sensor1c.py"], [("Array1D.to_file", "array1d.py"), ("Array1D.from_files", "array1d.py")], ["array read back"])
p("C13", "Copies equal the original and share no state with it",
  """Copying a record, a sensor, a source or an array gives an object equal to the original in every recorded quantity
  (samples, sample interval, delay, stack count, positions, source). Changing the copy afterwards never changes the original,
  nor the reverse.""",
  ["inputs", "histories"], "all records and arrays; any later in-place operation on either object",
  "Tests compare a copy once; independence must hold for every field and every later operation.",
  ["activetimeseries.py", "sensor1c.py", "source.py", "array1d.py"],
  [("from_activetimeseries", "activetimeseries.py"), ("from_sensor1c", "sensor1c.py"), ("from_source", "source.py"), ("from_array1d", "array1d.py")],
  ["copy", "original after mutating the copy"])
p("C14", "Power normalisation is history independent and bounded by one",
  """Normalising dispersion power by frequency maximum makes each frequency column's largest absolute value one, by absolute
  maximum makes the overall largest one, and 'none' gives the absolute values on the original scale. Whatever normalisations
  were applied before, the result of the last one is the same as applying it alone to the original power.""",
  ["inputs", "histories"], "all power matrices with no zero column and all sequences of normalisations",
  "Tests apply one normalisation at a time on one matrix.",
  ["wavefieldtransforms.py"], [("AbstractWavefieldTransform.normalize", "wavefieldtransforms.py")], ["power"])
p("C15", "Every reported frequency is the true frequency of its spectral column",
  """Every transform and the signal-to-noise ratio report frequencies that are spectral bins of the (padded) record: each
  reported frequency equals its bin number times 1/(number of samples * sample interval), and its power column is computed
  from that bin. The first and last bins are those nearest the requested minimum and (up to the step) maximum, and consecutive
  ones differ by the record's reported frequency step.""",
  ["inputs"], "all records, paddings (frequency multiples) and frequency limits",
  "Tests use records that were not padded to a fractional step, so a mislabelled axis goes unnoticed.",
  ["wavefieldtransforms.py", "snr.py", "activetimeseries.py"], [("_frequency_keep_ids", "wavefieldtransforms.py"), ("transform methods", "wavefieldtransforms.py"), ("SignaltoNoiseRatio.from_array1ds", "snr.py")],
  ["frequencies", "power", "snr"])
p("C16", "The picked peak is the trial velocity of largest power at each frequency",
  """The peak picked at a frequency is a trial velocity at which that frequency's power column attains its maximum (the first
  one if tied), one per frequency and in frequency order. Trial velocities run from the requested minimum to the requested
  maximum with the requested number and linear or logarithmic spacing, and an unknown criterion or spacing is rejected.""",
  ["inputs"], "all real power matrices and trial-velocity settings",
  "Tests check one matrix.", ["wavefieldtransforms.py"], [("find_peak_power", "wavefieldtransforms.py"), ("_create_vector", "wavefieldtransforms.py")],
  ["find_peak_power()", "velocities"])
p("C17", "Frequency-domain stacking averages power over all shots",
  """Stacking dispersion results accumulates the average weighted by the number of results each already represents, so that
  stacking K single results onto the empty one gives exactly their arithmetic mean whatever the order, with count K; the
  stacked-on result is not altered.""",
  ["inputs", "histories"], "any number, order and content of results on the same grid",
  "Tests stack two constant matrices.", ["wavefieldtransforms.py"], [("EmptyWavefieldTransform.stack", "wavefieldtransforms.py")], ["power", "n"])
p("C18", "Phase-shift power is the trapezoidal slant integral of unit-amplitude spectra",
  """For every trial velocity v and reported frequency f, phase-shift power equals the magnitude of the trapezoidal integral
  over offset x of the trace spectra, each divided by its magnitude and multiplied by exp(i*2*pi*f*x/v). It is therefore
  unchanged when any trace is rescaled by a positive factor and never exceeds the offset span.""",
  ["inputs"], "all arrays with non-zero spectra, velocities and frequencies",
  "Tests compare one synthetic set to stored numbers.", ["wavefieldtransforms.py"], [("PhaseShift.transform", "wavefieldtransforms.py")], ["power"])
p("C19", "Beamformer power is the weighted quadratic form in the steering vector",
  """For every trial velocity and frequency, beamformer power equals e^H (S o W) e, with S the cross-spectral matrix of the
  traces (inverse-amplitude scaled if asked), W the outer product of offsets for 'sqrt' weighting and ones otherwise, and e
  the plane or cylindrical steering vector for k=2*pi*f/v at each offset. The f-k transform equals the beamformer with plane
  steering and no weighting, and choosing it leaves the caller's settings unchanged.""",
  ["inputs", "configurations"], "all arrays, velocities, frequencies and weighting/steering choices",
  "Tests compare a few stored matrices for one synthetic array.", ["wavefieldtransforms.py"],
  [("FDBF.transform", "wavefieldtransforms.py"), ("_spatiospectral_correlation_matrix", "wavefieldtransforms.py"), ("FK.from_array", "wavefieldtransforms.py")], ["power", "settings after the call"])
p("C20", "Slant stacking integrates along the trial moveout within the record",
  """For every trial velocity v and intercept time tau, the slant stack equals the trapezoidal integral over offset x of the
  traces sampled, with linear interpolation, at time tau + (x - nearest offset)/v, independently of the order in which
  velocities are given. No sample outside the recorded traces is ever used.""",
  ["inputs"], "all arrays, velocities and sample intervals for which an intercept exists",
  "Tests check one array with a few velocities; the incremental index bookkeeping must be right for every sequence of velocities.",
  ["wavefieldtransforms.py"], [("SlantStack.slant_stack", "wavefieldtransforms.py")], ["slant stack / power"])
p("C21", "Limit rejection removes exactly the points outside the limits, for good",
  """Rejecting points outside limits on any attribute removes exactly the still-valid points whose value is below the lower
  limit or above the upper limit (a missing limit does not restrict), keeps points on a limit, never brings back a point
  rejected before and never alters stored values. Applied to a suite it does this to every member.""",
  ["inputs", "histories"], "all peak sets, attributes, limits and sequences of rejections",
  "Tests reject a few literals once; resurrection and boundary handling range over all histories.",
  ["peaks.py", "peakssuite.py"], [("Peaks.reject_limits_outside", "peaks.py"), ("PeaksSuite.reject_limits_outside", "peakssuite.py")], ["frequency, velocity, ... after the call"])
p("C22", "Box rejection removes exactly the points strictly inside the box",
  """Rejecting a box removes exactly the still-valid points lying strictly inside both ranges, whichever order the corners
  are given in, and no other point; points rejected before stay rejected and stored values are not altered. Applied to a
  suite it does this to every member.""",
  ["inputs", "histories"], "all peak sets, attribute pairs, boxes and sequences of rejections",
  "Tests reject one box on literals.", ["peaks.py", "peakssuite.py"], [("Peaks.reject_box_inside", "peaks.py"), ("PeaksSuite.reject_box_inside", "peakssuite.py")], ["frequency, velocity, ... after the call"])
p("C23", "Reducing multiple maxima keeps the strongest valid peak per column",
  """Reducing a peak set with several maxima per frequency yields, per frequency column with at least one valid entry and in
  column order, the requested attribute at the valid entry of largest power (largest frequency when no power is stored; the
  first one if tied). One-dimensional sets are returned as their valid values; the set itself is not changed.""",
  ["inputs"], "all peak matrices, validity masks and attributes", "Tests use one 2-by-n example without rejected maxima ties.",
  ["peaks.py"], [("Peaks.simplify_mpeaks", "peaks.py")], ["returned values"])
p("C24", "Derived quantities stay aligned and mutually consistent",
  """At every valid point wavelength = velocity/frequency, slowness = 1/velocity and wavenumber = 2*pi*frequency/velocity, and
  all attributes of a peak set list the same points in the same order. A point with undefined velocity never appears.""",
  ["inputs", "histories"], "all peak sets, before and after rejections", "Tests check literals before any rejection.",
  ["peaks.py"], [("Peaks properties", "peaks.py")], ["frequency, velocity, wavelength, slowness, wavenumber, azimuth, ..."])
p("C25", "Saving peaks to JSON and loading them restores data, mask and identity",
  """Writing peak sets or suites to JSON and loading them restores every stored value, every rejection and every identifier
  in order; building from an in-memory dictionary never modifies it, so building twice gives equal results. Appending adds
  to what the file holds, and an identifier the file already holds is rejected with the file unchanged.""",
  ["inputs", "histories"], "all peak sets with finite or undefined values, masks, identifiers and append sequences",
  "Tests save and load a few literals and never reload the same dictionary.", ["peaks.py", "peakssuite.py"],
  [("Peaks.to_json/from_json/from_dict", "peaks.py"), ("PeaksSuite.to_json/from_json/from_dict", "peakssuite.py")], ["loaded objects", "file contents", "dictionary after the call"])
p("C26", "A suite's members and identifiers stay in step, unique and in insertion order",
  """After any sequence of construction, appends and merges, the suite lists its peak sets in insertion order and its
  identifier list is exactly their identifiers, pairwise distinct. Adding something that is not a peak set, or whose
  identifier is already present, is rejected and changes nothing; two suites are equal exactly when they have equal members
  in the same order.""",
  ["histories", "inputs"], "every sequence of operations and identifiers", "Tests append two or three members.",
  ["peakssuite.py"], [("PeaksSuite.append/from_peaks/from_peakssuite", "peakssuite.py")], ["peaks", "ids", "raised error"])
p("C27", "Sparse samples and observations are dropped exactly by their thresholds",
  """A row (or column) is dropped exactly when its number of defined values is below the count threshold or its fraction of
  defined values is below the fraction threshold. The dropped matrix is one of the two drop orders (columns then rows, or
  rows then columns), the one losing fewer defined values per undefined value removed, and sample points stay paired with
  their own columns.""",
  ["inputs"], "all data matrices and thresholds", "Tests use small literals.", ["peakssuite.py", "stats.py"],
  [("_drop_indices, _drop", "peakssuite.py, stats.py")], ["returned points and matrix"])
p("C28", "Suite statistics resample each member and summarise only defined values",
  """Resampling a suite gives one row per member, in order, holding that member's piecewise-linear curve at the requested
  points and undefined outside the member's range. Mean and standard deviation (n-1) at each retained point are those of the
  defined values of the retained rows, and fewer than three members are rejected.""",
  ["inputs"], "all suites, attributes and resampling points", "Tests use three or four literal members.",
  ["peakssuite.py"], [("PeaksSuite.to_array", "peakssuite.py"), ("PeaksSuite.statistics", "peakssuite.py")], ["to_array", "statistics"])
p("C29", "Resolution limits are the same physical limit in every plotting space",
  """For every supported combination of axes and limit type, each point of a resolution-limit curve, converted to wavelength
  or wavenumber by wavelength = velocity/frequency = 1/(frequency*slowness) and wavenumber = 2*pi/wavelength, has exactly the
  limiting value. The first curve belongs to the first limit, the second to the second, and unsupported combinations are
  rejected.""",
  ["inputs"], "all axis combinations, positive limits and axis ranges", "Tests compare two literals per combination.",
  ["peakssuite.py"], [("PeaksSuite.calc_resolution_limits", "peakssuite.py")], ["returned curves"])
p("C30", "Settings carry every option to its place and workflows follow and preserve them",
  """The settings dictionary holds every given option, with the documented type, at its own entry and nowhere else. Running a
  workflow applies the enabled steps in the documented order with exactly those values, skips disabled steps, rejects a
  source inside the array, and leaves the settings unchanged.""",
  ["configurations", "inputs"], "all option values and combinations of enabled steps", "Tests compare the default dictionary and mocked steps.",
  ["masw.py", "maswworkflows.py", "wavefieldtransforms.py"], [("Masw.create_settings_dict", "masw.py"), ("AbstractMaswWorkflow steps", "maswworkflows.py")], ["settings", "resulting transform"])
p("C31", "Rearranging and filling a data matrix never loses or alters defined values",
  """Sorting observations by first defined sample only permutes whole rows; filling replaces only undefined entries and leaves
  every defined value as it was; density is the fraction of defined entries within the inclusive corner range.""",
  ["inputs"], "all data matrices", "Tests use small literals.", ["stats.py"], [("Statistics._sort, _fill_data, _calc_density", "stats.py")], ["returned matrices"])
p("C32", "Peaks parsed from a .max file are exactly the file's valid peaks",
  """Every line of a supported .max file that belongs to the requested wave type and window and is flagged valid appears
  exactly once in the result, with frequency, 1/slowness, azimuth, ellipticity, noise and power from its own line, under an
  identifier made of the window time and processing type; no other point appears. Files of unsupported versions are
  rejected, and the wave type found in one file does not affect how the next one is read.""",
  ["inputs"], "all well-formed files: window times, frequencies, numbers of maxima and number formats",
  "Tests parse a few example files in which window times never share a suffix.", ["peaks.py", "peakssuite.py", "regex.py"],
  [("Peaks._parse_peaks", "peaks.py"), ("regex builders", "regex.py"), ("PeaksSuite.from_max", "peakssuite.py")], ["parsed peaks"])
p("C33", "Peak sets compare equal exactly when they list the same points",
  """Two peak sets are equal exactly when their identifiers, their attribute names and, for each attribute, the number and
  values (within floating tolerance) of valid points agree; the comparison never raises for peak sets of different sizes and
  never equates sets with different numbers of points.""",
  ["inputs"], "all pairs of peak sets", "Tests never compare sets of different size that broadcast.", ["peaks.py"], [("Peaks.__eq__", "peaks.py")], ["=="])
p("C34", "Interactive trimming removes only confirmed selections and undo restores",
  """In an interactive trimming session a point is removed exactly when it lay strictly inside a box drawn since the last
  pause and that pause was answered with 'continue' or 'quit'; answering 'undo' discards the boxes drawn since the last pause
  and removes nothing. The session ends exactly at 'quit', and unrecognised answers are asked again.""",
  ["histories", "inputs"], "every sequence of boxes and answers", "Tests script two short sessions.",
  ["peakssuite.py"], [("PeaksSuite.interactive_trimming", "peakssuite.py")], ["peaks after the session"])
p("C35", "Signal-to-noise ratio is the ratio of mean spectral amplitudes of equal windows",
  """At every reported frequency the ratio equals the across-sensor mean of the signal spectra's magnitude divided by that of
  the noise spectra at the same spectral bin. Windows of unequal length are rejected unless padding is requested, in which
  case both are padded to the requested step first.""",
  ["inputs"], "all arrays, window pairs, paddings and frequency limits", "Tests check one example without a fractional step.",
  ["snr.py"], [("SignaltoNoiseRatio.from_array1ds", "snr.py")], ["snr", "frequencies", "raised error"])
p("C36", "Least-squares update and posterior covariance follow the Bayesian formulae",
  """The iterative least-squares step returns p0 + C G^T (D + G C G^T)^-1 (d0 - dm + G (pm - p0)) and the posterior covariance
  returns C - C G^T (D + G C G^T)^-1 G C for all conforming arguments, without modifying them.""",
  ["inputs"], "all conforming vectors and matrices", "No test covers it.", ["inversion.py"],
  [("leastsquare_iterativealgorithm, leastsquare_posterioricovmatrix", "inversion.py")], ["returned arrays"])
p("C37", "Continuous-record extraction returns exactly the requested time span",
  """Extracting from hourly files reads every hourly file from the start hour to the end hour inclusive once, and writes for each
  station one file holding exactly the samples between the requested start and end times; a request that ends before it
  starts is rejected.""",
  ["inputs"], "all start/end times and stations", "Tests extract two short spans.", ["utils.py"], [("extract_mseed", "utils.py")], ["files written"])

path = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(path, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        n = d["statement"].count(". ") + 1
        assert n <= 3, (d["id"], n)
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
