HOW = {
'C01': 'The compiled reader `parsers.pyx` is translated from its current source to Python with C integer and `char*` semantics (fixed-size buffers, `sscanf` returning the number of conversions, unset variables keep their value) and run on every sequence of line kinds with symbolic numbers. Oracle: a line-by-line decoder written from the format description. Every explored path is replayed on a build of the real Cython module made in a scratch folder.',
'C02': 'Records with symbolic true elapsed times (steps of less than half a cycle) are logged modulo the counter range, decoded by the real reader functions and unwrapped; the result must differ from the true time by a constant multiple of the cycle, for every file format.',
'C03': 'Every pressure difference and metadata value of a file is a solver variable; the decoded columns must be the running sum (or the value itself in the old formats) and the values of each record, row by row, through the compiled reader, its text fallback and the reader of the old formats.',
'C04': 'In one of three GPS records any three fields are symbolic; the decoded table must hold exactly the records that satisfy the documented plausibility limits (an independent predicate over the same variables) and each kept record its own date and time.',
'C05': 'The real robust-fit and step-detection code runs on fixes whose misfits to a drifting clock are symbolic; the least-squares fit is linear in the misfits for given counter values, so it is carried out exactly. Oracle: accept/refuse as documented (coverage, number of fixes, steps, outliers), fit close to the true clock whenever accepted.',
'C06': 'Outcome of each file (good, each way of failing) is a symbolic choice; a second run without the failing files must give the same data, times and header for the others, and exactly one problem message per failing file.',
'C07': 'Files with symbolic spans and symbolic clock polynomials; each record must be timed by the polynomial of the file it belongs to (products of symbolic coefficients and times are non-linear terms of the solver).',
'C08': 'Runs of samples with symbolic steps go through the real resampler and the real obspy traces (instrumented); number, start and end of the traces follow from the steps alone, and pressures lying on a line per run must be reproduced exactly, so a value taken from a neighbouring run shows.',
'C09': 'Symbolic start times and integer values of two to four traces are joined by the real code (and the real obspy merge); every input sample must be there at its time, filled samples interpolate, no gap above the limit is closed.',
'C10': '`convert` is run whole with reading replaced by symbolic streams and writing by a recorder: the multiset of written (time, value) pairs must be that of the input within the period, each once, each file within its own multiple of the file length.',
'C11': 'As C10, with the names of all written files: distinct within the run, and never the name of a file that was there before for the logs.',
'C12': 'File numbers are solver variables; which blocks are readable is a symbolic choice. All selected numbers must be read once in order, and data, metadata, fixes and problems of each block passed on once.',
'C13': 'Characters of file names and of the serial number line inside, the file size and the requested numbers are symbolic; whether a file is parsed must agree with the documented selection.',
'C14': 'Files with symbolic readings are concatenated by the real tool and read back by the real readers; the readings must be those of the inputs one after the other.',
'C15': 'A raw file with symbolic counts and values is re-encoded by the real converter and decoded again by the translated compiled reader; both decodings must agree.',
'C16': 'The real specification tables are evaluated for a symbolic serial number and gain setting and compared with factors derived from the documented hardware constants.',
'C17': '`main` of the converter runs with symbolic digits in the serial numbers of requests, exclusions and table lines (forked to concrete where the code needs them); the recorded conversion calls are compared with the documented association.',
'C18': 'Coordinates and table lines are symbolic; the inventory built by the real code must list each logger once under its codes with its coordinates, and station positions as the mean of the channels.',
'C19': 'Symbolic positions of some fixes and a symbolic period; the average must be that of the fixes left by the documented outlier rule, computed independently.',
'C20': 'Window length, overlap and start are symbolic; the recorded windows must be equally long, evenly spaced by the stated step, complete and inside the data, and the output rows must belong to them.',
'C21': 'Start, stop and file boundaries are symbolic over several days; the recorded pieces must be consecutive, meet at midnights and contain each sample once.',
'C22': 'Lags of a plane wave with symbolic slowness are inverted by the real code (exact linear algebra over symbolic right-hand sides) and must give that slowness back, for every row order and index of both tables.',
'C23': 'Tables of the noise models are symbolic; spectra and band noise in the three units must be related as the units are, and at the tabulated frequencies equal the tabulated values.',
'C24': 'The whole `verify_huddle_test` runs on metadata and GPS tables with symbolic values (report and plots replaced by stand-ins); each verdict is compared with the documented limits. Its remaining defects are known findings because the file may not be changed (see below).',
'C25': 'Symbolic gaps between traces; a gap below the limit must be closed with interpolated values and a longer one left, with all samples kept.',
'C26': 'Symbolic characters in channel identifiers and requests; the selected channels are compared with the documented pattern semantics.',
'C27': 'Files with symbolic codes and starting times are renamed by the real code; the written names, codes and data must be those of the table and of the file.',
'C28': 'Characters of the header lines are symbolic, including characters that make a line malformed; serial number, version and configuration must come from the right header lines or be the documented default.',
'C29': 'Shift and coefficient that obspy finds for each sensor pair are symbolic; column names, signs, units, consistency measure and the options from the command line to the function must match.',
'C30': 'File start times and amplitudes are symbolic; counts of hours and the statistics are compared with a direct computation over the period.',
'C31': 'Response of each gain is evaluated at a symbolic frequency and compared with the conversion factor of the same gain; deconvolution must divide by the sensitivity of the requested gain.',
'C32': 'Each tool is run for each option form with its worker functions recorded; the recorded arguments must be what the options say.',
'C33': '`read_gem` runs whole, with file reading and resampling replaced by recorders; format, configuration, codes, GPS requirement and the handed-over samples must be those of the files and of the call.',
'C34': 'Symbolic characters in the codes and symbolic times of files; the day files written must hold each logger’s data of that day, once, under its own name.',
'C35': 'Symbolic samples; the exported integers must be the de-meaned samples divided by the documented scale (largest magnitude just fits), at the sampling rate of the trace, and the trace itself unchanged.',
}
