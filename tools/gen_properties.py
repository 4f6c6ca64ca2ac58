"""Writes /verif/properties.jsonl (kept as code so that it is easy to edit and diff)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)

CORE='gemlog/core.py'; PYX='gemlog/parsers.pyx'; AUX='gemlog/gemlog_aux.py'; CAT='gemlog/gem_cat.py'
NET='gemlog/gem_network.py'; XC='gemlog/xcorr.py'; GC='gemlog/gemconvert.py'; HT='gemlog/huddle_test.py'

prop('C01', 'Every raw line decodes to exactly one record with its own values',
 "Reading a raw file with the compiled reader yields exactly one record per data, GPS and metadata line, in file order, holding that line's type, millisecond count and the values written on that line, and nothing for any other line. "
 "A compact data line stands for a pressure difference equal to its last letter's distance from 'm' and a millisecond count of 10 (plus the first letter's distance from 'm' when there are two letters) after the preceding data line, modulo 8192; a data line with a single number holds that pressure difference, 10 ms after the preceding data line. "
 "A line that was cut short never silently takes over values that belong to an earlier line.",
 ['inputs'], 'all values on all data/GPS/metadata/compact/other/truncated lines and all orders of such lines, for files of a few lines',
 'Tests compare readers on a handful of real files; they contain few compact lines, no truncated lines and a fixed interleaving of line types.',
 [PYX, CORE], [('parse_gemfile', PYX), ('_read_with_cython', CORE)],
 [('prev_dD_millis', 'millisecond count of the last data line', PYX)], ['records returned by the compiled reader'])

prop('C02', 'Unwrapping the millisecond counter reproduces the true elapsed time',
 "For any sequence of raw records whose true consecutive time steps are smaller than half of the counter's rollover period (8192 ms for formats 0.85C and later, 65536 ms for 0.8 and 0.85), the unwrapped millisecond counts of data, GPS and metadata records differ by exactly the true elapsed milliseconds (apart from the constant filter-delay correction applied to all data samples alike), including across rollovers and for small backward steps between record types. "
 "Every unwrapped count is congruent to the logged count modulo the rollover period, and the first one lies within half a rollover period of the requested starting offset. ",
 ['inputs', 'histories'], 'all counter values, all true step sequences below half a rollover, all offsets, all interleavings of record types, every supported format',
 'Tests check a few recorded files; rollovers that coincide with a record-type change, backward steps at the rollover, and offsets far from zero are never exercised.',
 [CORE], [('_process_gemlog_data', CORE)], None, ['data, GPS and metadata tables of a single-file read'])

prop('C03', 'Pressure and metadata values survive decoding unchanged',
 "Reading one raw file returns one pressure sample per data record, in order: the running sum of the logged differences for formats 0.85C, 0.9, 0.91 and 1.10, and the logged values themselves for 0.8 and 0.85. "
 "Every metadata record is returned with its own battery, temperature, auxiliary voltage and status values, no matter how GPS and metadata records are interleaved with the data. "
 "Every documented raw format version is accepted.",
 ['inputs'], 'all ADC differences and metadata values, all interleavings, all six format versions',
 'Tests compare standard deviations or rows of recorded files for two of the versions.',
 [CORE], [('_process_gemlog_data', CORE), ('_read_single', CORE)], None, ['result of a single-file read'])

prop('C04', 'A GPS fix is used exactly when it is plausible, and with its own time',
 "A GPS record is kept if and only if its latitude is within [-90, 90], its longitude within [-180, 180], neither is exactly zero, its lag is within [0, 1000] ms, its year is within [2014, 2040], its second is a whole number, and its date and time fields form a real calendar date and time. "
 "Every kept fix is reported with its own position and unwrapped millisecond count and with the UTC time given by its own date and time fields; a rejected fix has no effect on any other.",
 ['inputs'], 'all values of every GPS field, for several fixes at a time',
 'Tests only read real GPS streams, which are almost entirely valid; the boundary of every field and the rejection of neighbours is unexplored.',
 [CORE], [('_gps_in_bounds', CORE), ('_make_gps_time', CORE), ('_process_gemlog_data', CORE)], None, ['GPS table of a single-file read'])

prop('C05', 'Only files with a trustworthy GPS timing model are converted',
 "When GPS is required, a file's timing model is accepted only if the fixes span at least half of the file's duration, no step larger than 0.25 s exists between consecutive fixes' misfits to a straight line, and, once fixes farther than four standard deviations (or, when there are none, than 0.01 s) from the fit have repeatedly been removed, at least 10 fixes remain which span at least half of the file's duration and all of which the model reproduces to within 0.01 s; otherwise the file is rejected. "
 "When GPS is not required no file is rejected: without a good fit the clock is assumed to run at 1.024 ms per count, starting at the average start time implied by the fixes, or at zero if there are none.",
 ['inputs'], 'all GPS fix time patterns (including outliers and steps), all data spans, both GPS policies',
 'Tests cover one discontinuity file and one outlier file; the thresholds and their combination with outlier removal are never probed.',
 [CORE], [('_calculate_drift', CORE), ('_robust_regress', CORE), ('_detect_step', CORE)], None, ['timing header of each file', 'rejection exceptions'])

prop('C06', 'A bad raw file is skipped and reported without affecting other files',
 "When several raw files are read together, the result holds exactly the data, GPS and metadata of the files that can be read, in the given order, and each file that fails (unreadable, corrupt, no or inadequate GPS, missing serial number, sample times running backwards or jumping by more than 1 s) contributes nothing to them and produces exactly one problem message naming it. "
 "The values obtained from a good file do not depend on which other files failed, and the sample clock never runs backwards from one accepted file to the next.",
 ['inputs', 'fault_sequences'], 'all sequences of good and failing files and failure kinds, all sample times in the files',
 'Tests include two corrupt files at most, at fixed places, and only check that reading does not crash.',
 [CORE], [('_read_several', CORE)], [('startMillis', 'last accepted sample time, carried to the next file', CORE)], ['combined read result and its problem list'])

prop('C07', 'Every sample is timed by the clock model of its own file',
 "In a multi-file read, the time given to each sample, metadata record and file start/end is that of the timing polynomial fitted for the file whose millisecond span contains it, evaluated at its millisecond count, and a record outside every file's span gets no time at all. "
 "The millisecond spans' endpoints are included.",
 ['inputs'], 'all polynomial coefficients, all spans and gaps between files, all sample positions',
 'Tests compare recorded files to another reader within tolerances; swapped coefficients or off-by-one segment edges would hide in the noise.',
 [CORE], [('_apply_segments', CORE), ('_apply_fit', CORE), ('_assign_times', CORE)], None, ['sample times passed on to resampling; header start/end times; metadata times'])

prop('C08', 'Resampling never bridges a gap, loses a segment or invents samples',
 "Resampling timed samples to 100 samples per second splits the record exactly at every step that is longer than 25 ms or does not go forward in time, and gives each continuous run of samples lasting at least 10 ms its own trace on 10 ms spacing whose start is the run's first sample time rounded to the nearest 10 ms (shorter runs may be dropped). "
 "Each trace covers its run to within one sample at the end, contains no sample from beyond the run, and its values interpolate the samples of that run only (samples with no time are ignored).",
 ['inputs'], 'all sample time sequences of bounded length, including jitter, gaps of any length, backward steps and untimed samples',
 'Tests use recordings with at most one gap and look at amplitudes only.',
 [CORE], [('_interp_time', CORE)], None, ['traces returned by the resampler'])

prop('C09', 'Traces are joined across tiny gaps only, keeping every sample',
 "Merging converted traces joins neighbours separated by at most 31 ms into one continuous trace (filling a missing sample by interpolation between its neighbours) and leaves any longer gap open. "
 "Every original sample keeps its time and value, nothing is created outside such gaps, and no samples are duplicated.",
 ['inputs'], 'all start times on the 10 ms grid for several traces and all their sample values',
 'A unit test checks three fixed gaps.',
 [CORE], [('_merge_gaps', CORE)], None, ['merged stream'])

prop('C10', 'Output files partition the converted data',
 "Conversion writes every converted sample at or after the requested start and at or before the requested stop to exactly one output file, with its counts unchanged and with the count-to-unit factor attached, and writes no other sample. "
 "No output file crosses a multiple of the requested file length, and data gaps are never filled.",
 ['inputs', 'histories'], 'all trace start times, gap positions, start/stop times and file lengths, for streams of a few samples around a file boundary',
 'Tests convert one data set with whole-day files and check that files exist.',
 [CORE], [('convert', CORE), ('_write_hourlong_mseed', CORE), ('_trunc_UTCDateTime', CORE)], None, ['traces handed to the file writer'])

prop('C11', 'Conversion never overwrites one output with another',
 "All waveform files written by one conversion have distinct names, and a file name states the UTC second at which its data start and the station codes. "
 "A new GPS or metadata log always gets a name that does not exist yet: the serial number, the kind, and the lowest free three-digit index.",
 ['inputs', 'histories'], 'all pairs of trace start times; all sets of already existing log files',
 'Tests check the format of one name.',
 [CORE], [('_make_filename_converted', CORE), ('_make_filename', CORE), ('_write_hourlong_mseed', CORE)], None, ['file names'])

prop('C12', 'Conversion reads every selected raw file exactly once',
 "For any set of file numbers and any block length, the blocks of files that conversion reads are disjoint, in increasing order, and together contain every selected file, however the numbers are spaced and whichever blocks turn out to be empty or corrupt. "
 "Metadata, GPS and problem lists from every block that is read reach the output exactly once.",
 ['inputs', 'fault_sequences'], 'all file number sets of bounded size, all block lengths, all patterns of blocks that fail to read',
 'Tests convert directories with at most a few consecutive files, which fit in one block.',
 [CORE], [('convert', CORE)], [('n1', 'first file number of the next block', CORE)], ['file numbers passed to the reader', 'metadata and GPS logs'])

prop('C13', 'Exactly the requested raw files of one logger are selected',
 "For a requested serial number and set of file numbers, reading uses exactly those files in the folder which belong to that serial number (by extension, or by their content for .TXT files), whose number is requested, and which are larger than 10 bytes, in increasing order of number. "
 "A folder entry that cannot be identified or belongs to another logger is never used, and never prevents the others from being used.",
 ['inputs', 'configurations'], 'all small directories: file numbers, serial numbers, sizes, .TXT contents, requested numbers',
 'Tests use directories holding a single logger.',
 [CORE], [('_find_nonmissing_files', CORE), ('convert', CORE)], None, ['list of files read'])

prop('C14', 'Concatenating raw files preserves their readings',
 "Concatenating raw files so that each output contains GPS data copies every line after the header of every input from the first GPS-bearing file on to exactly one output, in order, starting a new output exactly at each GPS-bearing file whose predecessor also has GPS. "
 "Decoding an output yields the same absolute pressure readings and millisecond counts (modulo 8192) as decoding its inputs one by one: the first data line of an appended file is rewritten relative to the last reading of the file before it, for every format that stores differences.",
 ['inputs', 'histories'], 'all patterns of GPS availability over several files, all ADC values, all supported formats',
 'Tests only check that gem_cat runs on one directory.',
 [CAT], [('gem_cat', CAT), ('AppendFile', CAT)], None, ['output files'])

prop('C15', 'Re-encoding raw data in the compact format is lossless',
 "Converting a raw file to the compact 1.10 format keeps every GPS, metadata and other line, and reading the converted file gives exactly the same millisecond counts and pressure differences as reading the original, for every pressure difference and every spacing of samples. "
 "The converted file declares a format version which the package can read.",
 ['inputs'], 'all millisecond counts and ADC differences for several consecutive data lines, and all interleavings with other lines',
 'No test covers the converters.',
 [AUX, PYX], [('_convert_raw_091_110', AUX), ('parse_gemfile', PYX)], None, ['converted file and its decoding'])

prop('C16', 'Counts are scaled with the right factor for every logger and gain',
 "For every serial number from 3 up, the conversion factors are those of the hardware generation that the serial number belongs to, the low-gain setting doubles the high-gain factors, and the factor reported for Pa, V or counts is the pressure factor, the voltage factor, or 1. "
 "Ratio of the pressure and voltage factors equals the generation's sensor sensitivity, and an unknown gain setting or unit is refused.",
 ['inputs', 'configurations'], 'every serial number (unbounded above), every configuration value, every unit',
 'Tests check none of the boundaries between hardware generations.',
 [CORE], [('get_gem_specs', CORE), ('get_bitweight_info', CORE)], None, ['returned factors'])

prop('C17', 'The converter processes the right loggers under the right codes',
 "The command-line converter runs once for each distinct requested serial number (or, by default, each one found in the folder) that is not excluded and, when a codes file is given, is listed in it; loggers that are not listed are skipped. "
 "Each run gets the network, station and location codes on that serial number's own line of the codes file, regardless of line order, skipped loggers or leading zeros. "
 "A test run converts nothing, and long option names mean the same as the short ones.",
 ['inputs', 'configurations'], 'all codes tables and serial number sets of bounded size, all exclusions',
 'Tests run the command for one logger and no codes file.',
 [GC, NET], [('main', GC), ('_get_station_info', NET)], None, ['arguments of each conversion run'])

prop('C18', 'Station metadata ties each logger to its own codes and coordinates',
 "Building a station inventory creates exactly one channel for every listed network/station/location that has coordinates, under those codes, carrying the coordinates, elevation and serial number of the logger assigned to it and an operating period padded by one hour; loggers without coordinates are skipped. "
 "Each station's position is the average of its channels' positions and its and its network's operating period exactly spans their channels.",
 ['inputs', 'configurations'], 'all coordinates, times and assignments for a few loggers, networks, stations and locations',
 'Tests build one inventory and inspect nothing in it.',
 [NET], [('make_gem_inventory', NET)], None, ['returned inventory'])

prop('C19', 'GPS summary positions exclude outliers and nothing else',
 "The position reported for a logger is the mean of its fixes in the requested period that remain after repeatedly discarding fixes farther than five (spread plus 0.00001 degree) from the median in latitude or longitude until none is left; start and end time and count refer to the same fixes. "
 "A logger's row depends only on its own GPS log, and a station table only adds that logger's own codes and elevation.",
 ['inputs'], 'all fix positions and times for a few fixes, all periods and logger selections',
 'Tests compare one recorded data set with a stored summary.',
 [NET], [('_remove_outliers', NET), ('summarize_gps', NET)], None, ['summary table'])

prop('C20', 'Cross-correlation windows cover the data evenly',
 "Windowed processing uses windows of the requested length, the first starting at the time of the first sample and the last ending at the time of the last one, evenly spaced with at least the requested overlap and no more windows than needed; a record of exactly one window's length is one window, and a shorter one has none. "
 "Each window's function sees exactly the samples from the window's start up to, but not including, its end, and row k of every output column belongs to window k, with a blank where a window lacks that quantity.",
 ['inputs'], 'all record lengths, window lengths and overlaps within bounds; all patterns of missing output fields',
 'Tests run one window length and overlap.',
 [XC], [('apply_function_windows', XC)], None, ['windows passed to the function; output table'])

prop('C21', 'Day-by-day processing covers the whole period without overlap',
 "Day-by-day processing splits the requested period, limited to the available data, into consecutive intervals that meet at UTC midnights, and calls the processing function once per interval with exactly the selected channels' data in that interval (a sample at midnight belongs to the interval that starts then). "
 "No data between the start and the end of the period are skipped or processed twice, wherever in the day the period starts or ends.",
 ['inputs'], 'all start and stop times, data spans and file boundaries over several days',
 'Tests process ten seconds in the middle of a day.',
 [XC], [('loop_through_days', XC)], None, ['intervals passed to the processing function'])

prop('C22', 'Plane-wave inversion recovers the true slowness and direction',
 "For any array of three or more sensors that is not collinear, and any plane wave crossing it, the reported slowness and backazimuth computed from the wave's exact time lags are the true ones, independent of the order and naming of the sensors and of unrelated entries in the coordinates table. "
 "Every time window is inverted using its own lags only.",
 ['inputs', 'configurations'], 'all wave slownesses and directions, all sensor coordinates (non-collinear), all listing orders',
 'A test inverts one array and a few directions.',
 [XC], [('invert_for_slowness', XC)], None, ['slowness and backazimuth columns'])

prop('C23', 'Noise spectra are consistent across units',
 "For the self-noise and the background noise models, the amplitude spectrum and amplitude noise are the square roots, and the decibel ones ten times the base-ten logarithm, of the power spectrum and of the power integrated over the requested band, at exactly the requested frequencies. "
 "A frequency outside the model's range gives no number rather than an extrapolated one, and every documented model is available.",
 ['inputs'], 'all spectra values, frequencies and bands; each unit',
 'Tests only check that the functions run.',
 [AUX], [('_noise_spectrum_helper', AUX), ('gem_noise', AUX), ('ims_noise', AUX)], None, ['returned spectrum and noise'])

prop('C24', 'Huddle-test verdicts match the documented limits',
 "For every logger the huddle test classifies the lowest and highest battery voltage and temperature as error, warning or okay exactly according to the documented limits and warning margins, and the auxiliary voltage range, flatness, FIFO use, overruns, stack and GPS run time according to theirs. "
 "Each verdict depends only on that logger's own metadata, and each error and warning is reported once, under the logger's serial number.",
 ['inputs'], 'all metadata values for several loggers and a few samples each',
 'Tests run it on one good data set (which is missing here) and inspect nothing.',
 [HT], [('verify_huddle_test', HT)], None, ['table of verdicts'])

prop('C25', 'Short gaps are filled by interpolation, long gaps are left open',
 "Preparing a waveform for the huddle test fills every gap shorter than the limit with values interpolated from its surroundings, leaves gaps longer than the limit open, and changes no existing sample. "
 "A waveform with no gaps comes back unchanged.",
 ['inputs'], 'all gap lengths and positions for several traces and all sample values',
 'A test checks one gap of one length.',
 [AUX], [('_interpolate_stream', AUX)], None, ['returned stream'])

prop('C26', 'Channels are selected exactly as requested',
 "The channels processed are those of the available ones which match any requested identifier (all if none is requested; an identifier written in full is taken literally) and match no excluded identifier. "
 "No channel is listed twice.",
 ['inputs', 'configurations'], 'all identifier strings of bounded length, requests and exclusions',
 'Tests use two fixed lists.',
 [XC], [('_check_input_IDs', XC)], None, ['list of processed channels'])

prop('C27', 'Renaming files attaches the right codes and keeps the data',
 "Renaming converted files gives each waveform the network, station and location codes listed for the serial number in its file name, keeps samples and start times, and builds the output name from the requested pattern, those codes and the earliest start time. "
 "Files of unlisted serial numbers are skipped, and recordings of one logger that start in the same second do not overwrite each other.",
 ['inputs', 'configurations'], 'all code tables and start times for a few files',
 'Tests rename one set of files with one pattern.',
 [NET], [('rename_files', NET)], None, ['written files'])

prop('C28', 'Header information is read from the header lines only',
 "The serial number, format version and configuration taken from a raw file are those written in its header lines (the first S line, the first line, and the first readable C line near the start), whatever values, comments or junk lines surround them. "
 "If the serial number cannot be found the file is rejected, and the default configuration is used only if there is no readable configuration line.",
 ['inputs'], 'all header values of bounded length, in every supported format, with missing, repeated, commented and broken lines around them',
 'Tests read a handful of headers.',
 [CORE], [('_read_SN', CORE), ('_read_format_version', CORE), ('_read_config', CORE)], None, ['returned header values'])

prop('C29', 'Cross-correlation results report the right delay for each sensor pair',
 "For every time window, the reported lag of each sensor relative to the next one around the loop is the shift of best (most positive) correlation within the allowed range, in seconds of the (upsampled) sampling interval, with that pair's coefficient and each sensor's root-mean-square amplitude under their own codes; the mean coefficient is the average over the pairs, and a window is consistent exactly if the shifts around the loop sum to at most one sample per pair in either direction. "
 "Upsampling keeps the time span and every original sample at its time. "
 "Every command-line option (period, frequency band, window length, overlap, upsampling, channels) reaches the processing unchanged, and an impossible frequency band is refused.",
 ['inputs', 'configurations'], 'all sample values of short windows of two to four sensors, all patterns of missing data, all option values and combinations',
 'Tests run one configuration on recorded data and check a few rounded values.',
 [XC], [('xcorr_function', XC), ('xcorr_one_day', XC), ('upsample_stream', XC), ('xcorr_all', XC), ('main', XC)], None, ['table of results written by the command'])

prop('C30', 'Channel statistics count the hours of the requested period',
 "For each station, the reported share of the period with data is the number of its (hour-long) files lying within the period, ends included, divided by the period's hours; good data counts only files within two seconds of an hour long whose amplitude lies between 0.5 and 20000, and the quartiles are those of the same files' amplitudes. "
 "Stations without any file in the period are left out, and the order of the files does not matter. "
 "The waveform database has one row for each readable file, with that file's own station, amplitude, extremes and times.",
 ['inputs'], 'all file times, durations, amplitudes and stations for several files, all periods',
 'No test covers the statistics; the database test checks that the function runs.',
 [AUX], [('calc_channel_stats', 'gemlog/gemlog_aux.py'), ('make_db', 'gemlog/gemlog_aux.py')], None, ['statistics table', 'database table'])

prop('C31', 'The instrument response matches the gain setting',
 "For both gain settings the instrument response between 0.3 and 20 Hz is the inverse of that setting's count-to-pascal factor within 6 percent, low gain having exactly half the response of high gain, and the stated sensitivity is the response at its reference frequency. "
 "Removing the response removes that of the requested gain once from every trace of the data; an unknown gain is refused, and a sensor or logger response file given by the user replaces the standard one.",
 ['inputs', 'configurations'], 'every frequency in the pass band, both gains, every amplitude of the input data',
 'Tests compute one response and inspect nothing in it.',
 [NET], [('get_gem_response', NET), ('deconvolve_gem_response', NET)], None, ['response object', 'deconvolved data'])

prop('C32', 'The command-line tools do what their options say',
 "Each command-line tool passes the inputs, outputs, serial numbers to include or exclude, period and GPS requirement to its processing exactly as given, with the same meaning for the short and the long option names which its help message lists. "
 "The direction tool recovers the slowness and direction from the lags in its input file and the coordinates in the inventory; the inventory tool lists exactly the requested loggers under their own codes, or under their serial numbers with blank codes when there is no table.",
 ['inputs', 'configurations'], 'all option combinations, file names and serial numbers; all wave slownesses and logger coordinates',
 'Tests call the functions behind the tools, with one set of arguments.',
 [XC, NET, HT, CAT, 'gemlog/gemconvert_single.py'], [('calculate_direction_terminal', XC), ('summarize_gps_terminal', NET), ('main', 'gemlog/gemconvert_single.py'), ('main', HT), ('main', CAT)], None, ['arguments of the processing functions; output files'])

prop('C33', 'A read uses the right format, configuration and codes, and keeps all samples',
 "Reading a logger's raw files uses the format version and configuration of the first file which has a readable and supported version (files before it are skipped and reported), reports that version, that configuration and the conversion factors of the serial number and gain with every file, and puts the requested network, station (by default the serial number) and location on every trace. "
 "Every sample of the accepted files is passed on to resampling with its time, and every accepted fix is reported, whatever gaps there are in the data and in the GPS records.",
 ['inputs', 'configurations', 'fault_sequences'], 'all configurations and serial numbers, any combination of unusable first files, any spacing of samples and fixes',
 'Tests read a few recorded data sets of one format each, without gaps at the start.',
 [CORE], [('read_gem', CORE), ('_assign_times', CORE), ('_find_breaks', CORE)], None, ['returned header, traces, fixes and problems'])

prop('C34', 'Merging files by day keeps each logger and day apart',
 "Merging converted files by day writes exactly one file for each day and set of codes among the files that match the requested pattern, named after that day and those codes. It holds all samples of exactly those files as one waveform, each sample at its own time, with gaps filled by the value before them.",
 ['inputs', 'configurations'], 'all dates, serial numbers, networks and locations in the file names, any start time, gap, order of the files and selection',
 'No test merges files.',
 [NET], [('merge_files_day', NET)], None, ['output files'])

prop('C35', 'Exported audio is the waveform, centred and scaled',
 "Exporting a waveform as audio writes every sample in order, shifted and scaled so that their mean is zero and the greatest magnitude is one (all zeros for a constant waveform), at the waveform's sampling rate, under the requested name or by default one that states its start time and codes; the waveform itself is not changed. A sampling rate that is not a whole number is refused.",
 ['inputs'], 'all sample values, start times and sampling rates',
 'No test exports audio.',
 [CORE], [('write_wav', CORE), ('_write_hourlong_mseed', CORE)], None, ['audio file'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P))
