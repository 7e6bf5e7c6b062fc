#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me to rewrite it)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

CORE, PYX, NET, AUX = "gemlog/core.py", "gemlog/parsers.pyx", "gemlog/gem_network.py", "gemlog/gemlog_aux.py"

prop("C01", "Raw files of every format decode to exactly what the logger wrote",
 "For an intact raw file of any supported format version (0.8, 0.85, 0.85C, 0.9, 0.91, 1.10), reading it yields exactly the recorded pressure samples (differences accumulated in the formats that store differences), state-of-health rows and valid GPS fixes, in file order, none lost, invented or altered. "
 "The logger's millisecond counter is unrolled through every rollover into one continuous count, carried on from a given starting count, with data times advanced by the documented 8.93-count timing correction relative to GPS and state-of-health times. "
 "Debug, header and unknown lines contribute nothing.",
 ["inputs"], "every format version, sample values over the full ADC range, any number of counter rollovers, any interleaving of data/GPS/state/debug lines, any starting count",
 "tests read a few fixed sample files (most absent here) and only check that no exception is raised; nothing compares decoded values with what was written",
 [CORE, PYX], [("compact and plain line decoding", "gemlog/parsers.pyx parse_gemfile"), ("rollover unrolling and cumulative sum", "gemlog/core.py _process_gemlog_data"), ("reader selection by version, time correction", "gemlog/core.py _read_single")],
 ["single-file read: data, metadata, gps"])

prop("C02", "Fast and fallback readers, and plain and compact formats, agree",
 "On an intact raw file the compiled reader, the table-based fallback reader and the line-by-line reference reader return the same samples, sample times, state-of-health values and GPS fixes. "
 "Re-encoding a recording from the plain to the compact line format (any mix of one-letter, two-letter and numeric data lines) does not change anything that is read from it. "
 "Line endings, blank lines and inserted debug lines change nothing either.",
 ["inputs", "programs"], "pairs (recording, encoding) and (file, reader)",
 "the existing comparison tests use one or two sample recordings, and those that need the sample files fail here",
 [CORE, PYX], [("compiled parser", "gemlog/parsers.pyx parse_gemfile"), ("table reader", "gemlog/core.py _read_with_pandas"), ("reference reader", "gemlog/core.py _slow__read_single_v0_9")],
 ["return values of the three readers"])

prop("C03", "Damaged raw files never crash the reader or produce fabricated values",
 "Whatever bytes a raw file contains (truncation at any byte, missing fields, overlong lines, binary garbage, lost lines), reading it ends in bounded time with either a result or an ordinary Python exception, never a process crash. "
 "Every state-of-health row and GPS fix returned corresponds field by field to a line of that file, so fields missing from a damaged line are never filled in from another line, and intact lines after a damaged one are still decoded. "
 "Damage confined to lines that carry no data leaves the result unchanged.",
 ["inputs", "fault_sequences"], "intact files mutated by truncation, field deletion, line damage, splices and random bytes, and arbitrary byte strings",
 "two corrupt sample files are tried; the space of damaged files is unbounded",
 [PYX, CORE], [("field-by-field scanning", "gemlog/parsers.pyx parse_gemfile"), ("reader fallback and exception mapping", "gemlog/core.py _read_single"), ("GPS sanity bounds", "gemlog/core.py _gps_in_bounds")],
 ["single-file read in a child process"])

prop("C04", "GPS-disciplined sample times are correct despite drift, lag and outliers",
 "When a file has adequate GPS coverage, the time assigned to each of its samples equals the true time to within a few milliseconds, for any start time, any clock rate within the oscillator's tolerance (linear or slowly curving), and any start value of the millisecond counter. "
 "Rare wrong GPS fixes and GPS lines with invalid fields (bad date, zero or out-of-range coordinates, fractional second, excessive lag) do not change the sample times. "
 "State-of-health rows get times on the same clock, and consecutive files recorded without a break form one continuous, correctly timed record.",
 ["inputs", "fault_sequences"], "clock drift polynomials, GPS schedules, outlier positions and sizes, 1-4 consecutive files",
 "tests check a handful of sample recordings; true time is unknown for those, so accuracy cannot be asserted",
 [CORE], [("robust drift regression", "gemlog/core.py _robust_regress, _calculate_drift"), ("GPS bounds", "gemlog/core.py _gps_in_bounds"), ("per-file piecewise time fit", "gemlog/core.py _apply_segments, _assign_times")],
 ["read of several files: waveform versus a known function of true time, header t1/t2, metadata t"])

prop("C05", "Files without trustworthy GPS timing are refused, unless the user insists",
 "By default a file is never converted when it has no valid GPS fix, GPS fixes spanning less than half of its data, fewer than ten consistent fixes, or a time step among its fixes; the failure is reported (no-GPS, inadequate-GPS and discontinuous-GPS conditions are told apart for a single file) and listed among the problems, and other files are unaffected. "
 "When GPS is declared unnecessary the same file is converted with all its samples, using the nominal clock rate anchored to whatever fixes exist. "
 "Files with adequate GPS are never refused.",
 ["inputs", "configurations"], "GPS fix count, span, placement, step size and position; require/not require GPS",
 "a few sample files cover single points of the accept/refuse boundary",
 [CORE], [("adequacy test and exception classes", "gemlog/core.py _calculate_drift"), ("step detection", "gemlog/core.py _detect_step"), ("skip and report", "gemlog/core.py _read_several")],
 ["problems list, returned samples, exception type"])

prop("C06", "Resampling keeps the waveform on an exact 10 ms grid and keeps real gaps",
 "Samples recorded at jittered logger times come out as contiguous traces at exactly 100 samples per second with sample times on whole hundredths of a second, integer counts, and values equal to the recorded waveform at those times to rounding and interpolation accuracy. "
 "A trace never extends across an interval with no recorded samples longer than 25 ms, and outside such intervals every part of the recording is covered except at most a few hundredths of a second at each edge.",
 ["inputs"], "sample-time jitter, gap positions and lengths, waveforms, recording lengths, absolute start times",
 "one unit test with a fixed gap; grid exactness and waveform accuracy are not asserted",
 [CORE], [("spline interpolation between breaks", "gemlog/core.py _interp_time")],
 ["traces returned by reading; interpolation of (time, value) tables"])

prop("C07", "Conversion writes every sample exactly once however output is chunked",
 "Converting a folder of raw files writes output files that together hold every sample of the recording from its first whole second on, exactly once and unaltered: no overlap, no loss and no change at file boundaries. "
 "Each output file lies within one output-length interval counted from the epoch and is named after its first sample time and its network, station, location and channel codes. "
 "The output length, the amount of data processed at a time and the output format change only how samples are split into files (and at most the few samples that bridge two separately processed blocks), and the raw files are left byte-identical.",
 ["inputs", "configurations"], "recordings of several files with gaps, output lengths, block sizes, formats, start times near file/day boundaries, code assignments",
 "one or two sample conversions are compared; chunking parameters are not varied",
 [CORE], [("block loop and trimming", "gemlog/core.py convert"), ("output splitting and naming", "gemlog/core.py _write_hourlong_mseed, _make_filename_converted")],
 ["output folder contents read back"])

prop("C08", "Start time, stop time and file numbers select exactly the requested data",
 "Converting with a start time and/or stop time (given as a date-time or as seconds since the epoch) writes exactly the samples of the whole recording that lie in that interval, for any interval, including ones that cut files, fall in gaps or miss the recording. "
 "Selecting raw file numbers writes exactly the data of those files, and a serial number selects exactly the files whose content carries that serial number. "
 "An interval outside the recording writes no samples; file numbers or serial numbers that match no file raise a missing-files error.",
 ["inputs", "configurations"], "intervals relative to recordings, number subsets, folders with several serial numbers",
 "no test uses a start or stop time",
 [CORE], [("interval handling", "gemlog/core.py convert"), ("file selection", "gemlog/core.py convert, _find_nonmissing_files, _read_SN")],
 ["output folder contents versus the full conversion"])

prop("C09", "GPS and state-of-health output files are complete and never overwritten",
 "Each conversion writes one GPS table and one state-of-health table for the serial number, holding exactly one row per valid GPS fix and per state-of-health line of the converted files, in order, with the recorded values and correct times. "
 "Automatically named tables use the lowest unused three-digit index, so that repeated conversions never modify or replace earlier tables, and explicitly given names are honoured.",
 ["inputs", "histories"], "recordings converted repeatedly, block sizes, pre-existing table files, explicit names",
 "tests only look at the existence of outputs",
 [CORE], [("table writing and numbering", "gemlog/core.py convert, _make_filename")],
 ["gps/ and metadata/ folders after each conversion"])

prop("C10", "Bad files and other loggers' files never affect the conversion of good files",
 "Converting a folder that also holds empty, truncated, corrupt, GPS-less or discontinuous files and other loggers' files writes exactly the same waveforms as converting the good files alone. "
 "Each skipped non-empty bad file whose serial number is readable is named in the returned list of problems, and no good file is. "
 "When no usable file remains an error is raised rather than success reported.",
 ["inputs", "fault_sequences"], "positions, kinds and numbers of bad files among good ones, block sizes",
 "tests combine a few fixed bad files in one order",
 [CORE], [("per-file exception handling", "gemlog/core.py _read_several"), ("block skipping", "gemlog/core.py convert"), ("header fallback", "gemlog/core.py read_gem")],
 ["outputs and problems list versus the good-only folder"])

prop("C11", "Merging raw files for missing GPS preserves the recording",
 "Merging a folder of raw files produces renumbered raw files that, read back in order, give exactly the samples, state-of-health rows and GPS fixes of the input files from the first file with GPS on, once each and in order, in every supported format. "
 "Every output file begins with an input file that has GPS data, a file without GPS is appended to its predecessor, and the inputs are left unchanged.",
 ["inputs", "histories"], "sequences of files with and without GPS, formats, lengths, serial numbers",
 "one folder with a fixed GPS pattern is merged, without checking the waveform",
 ["gemlog/gem_cat.py", CORE], [("append with first-sample correction", "gemlog/gem_cat.py AppendFile"), ("output file switching", "gemlog/gem_cat.py gem_cat")],
 ["output folder read back"])

prop("C12", "Counts scale to physical units by the right factor for each logger",
 "For every serial number, the reported hardware version, voltage per count and pressure per count follow the documented hardware table, are positive, change only between versions, and voltage and pressure factors double in the low-gain setting recorded in the raw file. "
 "A conversion carries that factor (or the user's own, or 1 for counts) into the output scale, so that scaled output equals counts times the factor.",
 ["inputs", "configurations"], "all serial numbers, gain settings, unit choices, user-supplied factors",
 "tests look at no or one serial number",
 [CORE], [("version table", "gemlog/core.py get_gem_specs"), ("gain and units", "gemlog/core.py get_bitweight_info"), ("scale of output", "gemlog/core.py convert, _write_hourlong_mseed"), ("configuration line", "gemlog/core.py _read_config")],
 ["returned factors; scale of SAC output files"])

prop("C13", "Renaming and day-merging converted files preserves every sample",
 "Renaming a set of converted files by a station table writes, for each file whose serial number is in the table, a file with the same samples and times carrying exactly the codes of its serial number, under the name the pattern prescribes; others are skipped and inputs are left unchanged. "
 "Merging files by day yields, for each day and channel, one file holding the unaltered samples of that day's input files of that channel and of no other, each gap inside the day filled by repeating the last sample before it.",
 ["inputs"], "file sets over several loggers, days and codes, station tables, name patterns, gaps",
 "only the number formatting of the name pattern is unit-tested",
 [NET], [("renaming", "gemlog/gem_network.py rename_files"), ("merging", "gemlog/gem_network.py merge_files_day"), ("pattern digits", "gemlog/gem_network.py _fix_file_name_digits")],
 ["output folder read back"])

prop("C14", "Station tables mean the same however the user writes them",
 "A station table gives the same serial number, network, station, location and elevation assignments whether it has a header or not, in any header capitalization and column order, from a file or in memory. "
 "Codes stay text with leading zeros kept, blank codes stay blank, network and location may be omitted (meaning blank), and missing elevations become -9999. "
 "Tables that cannot be understood are rejected.",
 ["inputs"], "tables with any codes, header spellings, column orders and optional columns",
 "one or two sample tables are used",
 [NET], [("table reading and normalisation", "gemlog/gem_network.py _get_station_info, _fix_station_info_keys")],
 ["parsed table; effect on renaming"])

prop("C15", "The GPS summary is the robust mean of each logger's latest in-window fixes",
 "For each included and not excluded serial number, the summary row gives the mean position, its standard error, the first and last time and the number of the fixes in the requested time window of the most recent GPS table in each folder, after repeatedly discarding positions far outside the spread of the rest. "
 "Fixes recorded elsewhere briefly do not move the result, and loggers with no fixes in the window are omitted. "
 "Station codes and elevation are attached from the station table by serial number, and the written summary file equals the returned one.",
 ["inputs", "configurations"], "GPS tables with outliers, several folders and table indices, time windows, include/exclude lists",
 "the tests for it need data files that are absent, and use one fixed dataset",
 [NET], [("outlier removal", "gemlog/gem_network.py _remove_outliers"), ("latest table reading", "gemlog/gem_network.py read_gps"), ("summary", "gemlog/gem_network.py summarize_gps")],
 ["returned and written summary versus an independent computation"])

prop("C16", "The station inventory lists every located channel with its own metadata",
 "The inventory built from a station table and coordinates has exactly one channel for each table entry with coordinates, under its network, station and location codes, with that logger's serial number, position, elevation and operating interval (padded by one hour), and the given response at 100 samples per second. "
 "Station position is the mean of its channels, station and network intervals span those of their members, entries without coordinates are left out without disturbing others, and writing and re-reading the inventory as stationXML preserves all of this. "
 "The command-line tool that makes summary, stationXML and KML files agrees with the library.",
 ["inputs"], "station tables with shared stations/locations, missing coordinates, coordinates keyed by serial number or codes",
 "one demo dataset is used and its test fails here",
 [NET], [("inventory building", "gemlog/gem_network.py make_gem_inventory"), ("command line", "gemlog/gem_network.py summarize_gps_terminal")],
 ["inventory contents versus tables"])

prop("C17", "Cross-correlation recovers the true delays between stations",
 "For stations recording delayed copies of one band-limited signal, each window's reported lag for every consecutive pair equals the imposed delay to within a sample period (or its fraction when upsampling), the correlation is near one, the amplitudes reported match the filtered waveforms, and lags around the array are flagged consistent. "
 "Delays whose lags do not add up around the array are flagged inconsistent, uncorrelated noise gets a low coefficient, and scaling, offset or trend of any trace does not change lags or coefficients. The lag check on converted files reports, for each window that the stations fully cover, the same lags in whole samples, their coefficients and their sum.",
 ["inputs", "configurations"], "station counts, delays, window lengths, overlaps, filter bands, upsampling ratios, noise",
 "one fixed set of delays on one waveform is tested",
 ["gemlog/xcorr.py"], [("pairwise correlation", "gemlog/xcorr.py xcorr_function"), ("filtering and upsampling", "gemlog/xcorr.py xcorr_one_day, upsample_stream")],
 ["lag, coefficient, amplitude and consistency columns"])

prop("C18", "Window analysis covers the requested data and channels, each window once",
 "Windowed analysis of a record visits windows of exactly the requested length, evenly spaced from the first to the last sample, with at least the requested overlap, each given exactly its own samples and its own mid-time. "
 "Over multi-day file sets each part of the requested time interval is analysed once, with every selected channel and no other, for any partition of the data into files and days; channel selection by full code or pattern, then exclusion, is honoured, and unreadable files are skipped. "
 "Invalid window, overlap, band or upsampling arguments are rejected.",
 ["inputs", "configurations"], "record lengths, windows, overlaps, file partitions, time intervals across midnights, selection patterns",
 "one data set in one day is processed by the tests",
 ["gemlog/xcorr.py"], [("window tiling", "gemlog/xcorr.py apply_function_windows"), ("day loop", "gemlog/xcorr.py loop_through_days"), ("channel selection", "gemlog/xcorr.py _check_input_IDs")],
 ["windows seen by the analysis callback"])

prop("C19", "Delays invert to the direction and slowness of the wave that made them",
 "For any array of at least three non-collinear stations, the delays of a plane wave with any backazimuth and horizontal slowness are inverted to that backazimuth (degrees clockwise from north, pointing to the source) and slowness, for any station order and any number of stations, per window independently. "
 "Stations without correlation data are ignored, and station coordinates derived from an inventory or a stream are local distances in kilometres consistent with geodetic positions.",
 ["inputs"], "array geometries, station orders, wave directions and speeds, extra stations in the coordinates",
 "one array and a few directions are tested",
 ["gemlog/xcorr.py"], [("least-squares inversion", "gemlog/xcorr.py invert_for_slowness"), ("local coordinates", "gemlog/xcorr.py get_coordinates")],
 ["backazimuth and slowness columns"])

prop("C20", "Noise spectra are consistent across units, frequencies and bands",
 "The logger's self-noise and the global noise models give, for any frequencies and band in range, the same spectrum in power, amplitude (its square root) and decibel (ten times its logarithm) form, through the tabulated values, and a band noise equal to the integral of the power spectrum over the band, additive over adjacent bands and increasing with the band. "
 "The low, medium and high models are ordered, frequencies outside the table give no value, and unknown models, versions or spectrum types are rejected.",
 ["inputs", "configurations"], "frequency vectors, bands, spectrum types, models",
 "two integrals are compared with constants",
 [AUX], [("spline and integral", "gemlog/gemlog_aux.py _noise_spectrum_helper"), ("tables", "gemlog/data/noise")],
 ["returned spectra and band noise"])

prop("C21", "Response removal restores pressure and is linear in the data",
 "Removing the instrument response from counts recorded by a logger restores the pressure signal in the passband, with the sensitivity matching the pressure-per-count factor of that logger generation. "
 "It is linear in the data, treats a stream exactly as its traces one by one, keeps times and lengths, and rejects other input types and unknown gain names; user-selected sensor or logger response files are honoured.",
 ["inputs", "configurations"], "signals and frequencies in the passband, amplitudes, streams, gain names, response files",
 "the test only checks that no exception occurs",
 [NET], [("response assembly", "gemlog/gem_network.py get_gem_response"), ("deconvolution", "gemlog/gem_network.py deconvolve_gem_response")],
 ["response values versus frequency; deconvolved traces"])

prop("C22", "The huddle test reports exactly the loggers that breach its limits",
 "For converted data of co-located loggers, the huddle test flags a logger for battery, temperature, auxiliary inputs, buffer use, overruns, unused stack or GPS run time if and only if its state-of-health breaches the documented limit, at the documented severity, and its statistics are those of the data. "
 "Loggers whose recording starts or stops too far from the rest, or whose temperature departs from the group, are reported as group errors, and excluded loggers play no part; "
 "with the cross-correlation option, nonzero time lags among the loggers are reported if and only if they occur in a substantial share (a fifth) of the windows in which their waveforms agree. "
 "The four documented results (errors, warnings, statistics, per-test results) are returned.",
 ["inputs", "configurations"], "state-of-health tables with values around every limit, logger sets, inclusion and exclusion lists",
 "one data set is run without looking at the result",
 ["gemlog/huddle_test.py"], [("per-logger limits", "gemlog/huddle_test.py verify_huddle_test"), ("group comparisons", "gemlog/huddle_test.py verify_huddle_test")],
 ["returned results versus limits"])

prop("C23", "The conversion command processes exactly the selected loggers, as the library",
 "The conversion command converts exactly the loggers present in (or requested from) the input folder minus the excluded ones, and each logger's output equals what the library call writes for it, whatever the number of parallel processes, output format and length. "
 "A codes file assigns its network, station and location codes to the output and skips loggers it does not list, test mode writes no data, a logger that fails does not stop the others, and the failure is logged. "
 "The single-file command writes the same samples as reading that file.",
 ["inputs", "configurations", "schedules"], "folders with several loggers, option combinations, process counts, codes files",
 "the command is run once or twice on sample data; combinations of options are not",
 ["gemlog/gemconvert.py", "gemlog/gemconvert_single.py"], [("option handling and pool", "gemlog/gemconvert.py main, convert_single_SN"), ("single-file conversion", "gemlog/gemconvert_single.py main, gemlog/core.py _convert_one_file")],
 ["output folder and log file"])

prop("C24", "The data summary tables describe the files they were computed from",
 "The database of converted files has one row per readable file matching the pattern, in name order, with that file's codes, start and end times, extreme values and high-passed amplitude; unreadable files are skipped and the saved table equals the returned one. "
 "Channel statistics derived from it give, per station with files inside the time window, the fraction of hours covered by any and by good data and the amplitude quartiles.",
 ["inputs"], "file sets with several stations, amplitudes, lengths, unreadable files, time windows",
 "no test covers them (the statistics cannot even run)",
 [AUX], [("file database", "gemlog/gemlog_aux.py make_db"), ("channel statistics", "gemlog/gemlog_aux.py calc_channel_stats")],
 ["returned tables versus file contents"])

prop("C25", "Short gaps are bridged, long gaps stay, and existing samples never change",
 "Joining pieces of a recording bridges every gap up to the stated limit by interpolating between its neighbours and leaves every longer gap open; the pieces come out in time order, without overlaps. "
 "Samples that existed before joining keep exactly their times and values, and a recording without gaps is returned unchanged. Listing the discontinuities of a set of files names exactly its unbroken stretches.",
 ["inputs"], "numbers and lengths of pieces and gaps, values, sampling positions, gap limits",
 "one fixed example each is tested",
 [CORE, AUX], [("gap merging in conversion", "gemlog/core.py _merge_gaps"), ("stream gap interpolation", "gemlog/gemlog_aux.py _interpolate_stream")],
 ["output traces versus input pieces"])

prop("C26", "Waveform files in every output format carry the converted samples",
 "Converting to SAC, text or WAV holds the same samples, times and codes as converting to miniSEED: SAC and text to the precision of the format, WAV as the mean-removed waveform scaled to full range at 100 samples per second. "
 "A WAV file written from any trace is, up to offset and positive scale, that trace, with peak magnitude one unless the trace is constant.",
 ["inputs", "configurations"], "waveforms including constants and extremes, formats, sampling rates",
 "WAV and text output are not tested",
 [CORE], [("format dispatch", "gemlog/core.py _write_hourlong_mseed"), ("WAV writer", "gemlog/core.py write_wav")],
 ["output files of each format read back"])

prop("C27", "From raw files to wave directions, a field campaign comes out right",
 "For an array of loggers that recorded one passing plane wave, following the documented workflow (merging raw files without GPS, converting, assigning or renaming codes, optionally merging days, summarizing GPS, building the inventory, calculating lags and inverting them) yields in every window that wave's backazimuth and horizontal slowness, a high correlation, consistent lags, and equal amplitudes at all stations. "
 "This holds through the commands and through the library, for any mixture of raw format versions, clock drifts, counter values, start times and codes, within the accuracy of timing, positions and correlation.",
 ["inputs", "configurations"], "array shapes, waves, logger clocks and formats, recording start times, code assignments, routes through the tools",
 "no test chains the tools or knows the true wave",
 [CORE, "gemlog/gem_cat.py", "gemlog/gemconvert.py", NET, "gemlog/xcorr.py"], [("timing", "gemlog/core.py _assign_times"), ("codes and positions", "gemlog/gem_network.py"), ("lags and inversion", "gemlog/xcorr.py")],
 ["direction table at the end of the workflow versus the simulated wave"])

prop("C28", "Conversion results do not depend on earlier runs or on the surroundings",
 "Whatever conversions ran before into the same folders (whole, of parts, repeated, interrupted, or made before more raw files were copied), a complete conversion leaves the same waveform files as a conversion into empty folders, and changes no earlier table that it is not told to write and no file of another name (the same holds for merging raw files into a folder used before); converting consecutive parts into one folder gives together the whole recording. "
 "The results of converting, merging raw files, renaming, day-merging and listing files do not depend on the local time zone, the order in which folders list their files, file dates, how paths are spelled, or other loggers' files.",
 ["histories", "crash_points", "configurations"], "sequences of conversions, points of interruption, partitions into parts, time zones, path spellings, listing orders",
 "tests run one conversion into an empty folder in one environment",
 [CORE, "gemlog/gem_cat.py", "gemlog/gemconvert.py", NET, AUX], [("output and table naming", "gemlog/core.py convert"), ("file selection", "gemlog/core.py _find_nonmissing_files"), ("folder listings", "gemlog/gem_cat.py, gemlog/gem_network.py, gemlog/gemlog_aux.py")],
 ["contents of output folders"])

prop("C29", "The table of raw files that a reading returns describes every file",
 "Reading raw files returns a table with one row per file found, in file order, giving its serial number, recorded settings, format version, median position, numbers of samples and valid fixes, first and last sample times, and the clock model with its residuals. "
 "Settings missing from old formats are the documented defaults; evaluating the clock model at a count gives that count's true time, and it meets every fix said to be used within the stated worst residual. "
 "Refused files (no or too few fixes, cut short) stay listed with no samples and no fixes counted, are named among the problems, and do not disturb other rows.",
 ["inputs", "configurations"], "format versions, settings, file counts and orders, positions that change between files, invalid or wrong fixes, refused files at any place, reading with or without requiring GPS",
 "tests do not look at this table",
 [CORE], [("file table", "gemlog/core.py _read_several, _read_single"), ("clock model columns", "gemlog/core.py _calculate_drift"), ("settings and version", "gemlog/core.py _read_config, _read_format_version")],
 ["read_gem: header, problems"])

prop("C30", "Every installed command does what the library does, from its documented options",
 "Each installed command, run as its own process with its documented short or long options in any order, exits successfully and leaves exactly the files that the corresponding library call makes with the same settings. "
 "Options left out take their documented defaults, and nothing else in the folder is changed. "
 "Help is printed on request, and unknown options or options lacking their value are refused with a failing exit code, without writing anything.",
 ["inputs", "configurations"], "the commands and their options, spellings, orders and defaults, over generated recordings, arrays and GPS tables",
 "tests do not start the commands as processes; they call a few functions with fixed arguments",
 ["gemlog/gemconvert.py", "gemlog/gemconvert_single.py", "gemlog/gem_cat.py", "gemlog/xcorr.py", NET, "gemlog/huddle_test.py"],
 [("argument parsing", "main, xcorr_all_terminal, calculate_direction_terminal, summarize_gps_terminal"), ("defaults", "gemlog/gemconvert.py main, gemlog/xcorr.py xcorr_all_terminal, gemlog/gem_cat.py main")],
 ["files left in the folder, exit code, standard output"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        n = d["statement"].count(". ") + 1
        assert n <= 3, (d["id"], n)
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
