"""The property table (source of properties.jsonl and MANIFEST.json)."""
U = ""


def P(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, na=None):
    return dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why,
        files=["src/pyuvdata/" + f for f in files], mech=mech, observe=observe,
        technique=technique, note=note, na=na,
    )


PROPS = [
    P(
        "C01",
        "Visibility selection keeps exactly the requested cells, correctly labelled",
        "Selecting on a visibility object by any supported criterion or combination (antenna numbers or names, "
        "antenna pairs, baseline numbers, antenna strings, times, LSTs and ranges of them, baseline-time indices, "
        "phase centers, frequencies, channels, polarizations) keeps exactly the data cells that satisfy all of the "
        "criteria, in their original order, each with its original value, flag, sample count and every per-row, "
        "per-channel, per-window and per-antenna label, and with all counts and axis-structure descriptions true of what is left. "
        "A request that matches nothing or names something absent is rejected and leaves the object unchanged.",
        ["inputs", "histories", "configurations"],
        "every combination of selection criteria and argument form, on every object layout (rectangular or not, "
        "conjugated, multi-window, overlapping windows, flexible polarization, several phase centers, metadata only), "
        "and every sequence of selections",
        "The tests select with a few hand-picked criteria on a few observatory files, most of them rectangular "
        "single-window data; they do not combine criteria or compare every label.",
        ["uvdata/uvdata.py", "utils/bls.py", "utils/times.py"],
        [("UVData.select", "uvdata/uvdata.py"), ("parse_ants", "utils/bls.py"), ("time selection helper", "utils/times.py")],
        ["UVData.select and the attributes of the resulting object"],
    ),
    P(
        "C02",
        "Combining visibility objects loses, moves and invents nothing",
        "Adding visibility objects, concatenating them along an axis, or reading several files together gives an object "
        "that contains every cell of every input at its own baseline, time, frequency and polarization with its own value, "
        "flag and sample count and its own labels (times, LSTs, uvw, integration time, phase center, scan number, channel "
        "width, window, equalization coefficients); cells no input had are flagged with zero samples; the result does not "
        "depend on the order or grouping of the inputs beyond axis order; overlapping data are refused unless the overlap is "
        "only blank data; incompatible inputs are refused; inputs are never modified unless the operation is in place.",
        ["inputs", "histories", "configurations"],
        "all ways of cutting an object into pieces along one or several axes, every order of the pieces, every axis order "
        "inside each piece, every grouping, every phase-center catalog pair",
        "The tests cut a few files into two or three pieces in axis order and re-add them; they do not permute the axes of the pieces "
        "or compare each label cell by cell.",
        ["uvdata/uvdata.py", "utils/phase_center_catalog.py"],
        [("UVData.__add__", "uvdata/uvdata.py"), ("UVData.fast_concat", "uvdata/uvdata.py")],
        ["UVData.__add__, __iadd__, fast_concat, read with a list of files"],
    ),
    P(
        "C03",
        "Reordering and conjugating visibilities only relabels, never alters, the data",
        "Reordering baseline-times, frequencies or polarizations by any supported key or index, and conjugating baselines by any "
        "supported convention, yields the same set of labelled cells: a reordered row carries all of its labels along; a "
        "conjugated row has its antennas swapped, uvw negated, data conjugated and cross-hand polarizations exchanged "
        "together with their flags and samples; the resulting order is the one asked for (rows equal in both keys are in time order), and the advertised ordering and "
        "rectangularity are true of the arrays.",
        ["inputs", "histories", "configurations"],
        "every ordering key and minor key, every conjugation convention and index set, on every layout, and every two-step sequence of them",
        "The tests check a few orders on a few files and mostly compare one array.",
        ["uvdata/uvdata.py", "utils/bltaxis.py", "utils/pol.py", "utils/frequency.py"],
        [("UVData.reorder_blts, reorder_freqs, reorder_pols, conjugate_bls", "uvdata/uvdata.py"), ("bltaxis helpers", "utils/bltaxis.py")],
        ["the resulting object's arrays, blt_order, blts_are_rectangular, time_axis_faster_than_bls"],
    ),
    P(
        "C04",
        "Phasing moves the uvw frame and the fringe together and is reversible",
        "Phasing, re-phasing to another center, phasing to a time and unphasing act on exactly the selected baseline-times; after "
        "any sequence of them the uvws are the projection of the antenna separation on the recorded apparent phase center, the "
        "visibilities are the unprojected visibilities rotated by the fringe of the w coordinate, so going to a center by any route "
        "gives the same object and unphasing gives the original back; the catalog entry of each row describes the "
        "requested source and no row that was not selected changes.",
        ["inputs", "histories", "configurations"],
        "all sequences of up to two (thorough three) phasing operations over sidereal, ephemeris, driftscan and unprojected centers, "
        "frames, masks, and options",
        "The tests compare single phasings with stored numbers for a few sources; they do not explore masks or sequences.",
        ["uvdata/uvdata.py", "utils/phasing.py", "utils/phase_center_catalog.py"],
        [("UVData.phase, unproject_phase, phase_to_time", "uvdata/uvdata.py"), ("uvw and coordinate calculations", "utils/phasing.py")],
        ["uvw_array, data_array, phase_center_app_ra/dec, phase_center_frame_pa, phase_center_catalog"],
    ),
    P(
        "C06",
        "A UVH5 file gives back the object that was written",
        "Writing any valid visibility object to UVH5 with any storage option and reading it gives an object with the same data (to the "
        "precision asked for), flags, sample counts, labels, telescope, phase centers, spectral windows, optional attributes and extra "
        "keywords, again after a second generation; a metadata-only read agrees with the full read; files with the older header and "
        "array layouts are read to the same object; writing does not modify the object.",
        ["inputs", "configurations", "histories"],
        "every combination of layout, spectral window arrangement, phase-center kind, optional attribute, storage type and legacy header form",
        "The tests write a few files and compare with the library's own equality, which ignores some attributes.",
        ["uvdata/uvh5.py", "utils/io/hdf5.py", "telescopes.py"],
        [("UVH5 header and data writing and reading", "uvdata/uvh5.py"), ("HDF5 indexing and complex storage", "utils/io/hdf5.py")],
        ["UVData.write_uvh5 and UVData.read"],
    ),
    P(
        "C11",
        "A UVH5 file written in parts holds exactly the parts written",
        "After a file is initialized and parts of it are written, in any order, by any selection criterion, regularly spaced or not, with any "
        "storage type, the file holds exactly the values of the latest part written to each cell and its initial value in every other "
        "cell, whichever parts were written when the writer stopped; a refused part changes neither the file nor the object.",
        ["histories", "crash_points", "inputs"],
        "every subset of rows, channels and polarizations as a part; every order of every partition; every prefix of the sequence of parts",
        "The tests write a handful of regular selections and look at the final file only.",
        ["uvdata/uvh5.py", "utils/io/hdf5.py"],
        [("initialize_uvh5_file, write_uvh5_part", "uvdata/uvh5.py"), ("_write_complex_astype", "utils/io/hdf5.py")],
        ["the datasets of the file after every step"],
    ),
    P(
        "C07",
        "A UVFITS file gives back the object that was written",
        "Writing any visibility object UVFITS can hold and reading it gives an object with the same data, flags, sample counts, times, LSTs, uvws, "
        "integration times, frequencies, channel widths, windows, polarizations, baselines, phase centers and antenna positions (to the format's precision), "
        "again after a second generation; the alternative file forms the reader accepts (baseline or antenna-pair "
        "columns, with or without window, source, LST and integration-time columns, other frames and position conventions) are read to "
        "the object they describe; objects the format cannot hold are refused, and writing does not modify the object.",
        ["inputs", "configurations", "histories"],
        "every combination of layout, window arrangement, phase-center set, antenna numbering and polarization set, and every single and pair of file forms",
        "The tests round-trip a few files and compare with the library's own equality; many read only one observatory's form.",
        ["uvdata/uvfits.py", "utils/io/fits.py"],
        [("write_uvfits, read_uvfits", "uvdata/uvfits.py"), ("axis helpers", "utils/io/fits.py")],
        ["UVData.write_uvfits and UVData.read"],
    ),
    P(
        "C10",
        "Partial and multi-file reads equal full reads plus select or combine",
        "Reading a UVH5, UVFITS, Miriad or measurement-set file with any selection gives the same data, labels and metadata as reading the whole "
        "file and selecting, whichever internal access path the selection takes, and requests that selection refuses are refused; "
        "reading a list of files gives the same object as reading each and combining them, in any order of the list, "
        "with or without a concatenation axis, with or without a selection.",
        ["inputs", "configurations"],
        "every selection atom and pairs and triples of them across axes, on several storage layouts per format; every cut into two or three files in every order",
        "The tests use a few selections per format; which indexing path runs depends on the selected fractions.",
        ["uvdata/uvdata.py", "uvdata/uvh5.py", "uvdata/uvfits.py", "uvdata/miriad.py", "utils/io/hdf5.py", "utils/tools.py"],
        [("UVData.read", "uvdata/uvdata.py"), ("_get_data", "uvdata/uvh5.py"), ("_get_data", "uvdata/uvfits.py"), ("read_miriad", "uvdata/miriad.py"), ("_convert_to_slices", "utils/tools.py")],
        ["UVData.read with selection keywords, lists of files and axis"],
    ),
    P(
        "C08",
        "A measurement set gives back the object that was written",
        "Writing any visibility object a measurement set can hold and reading it gives an object with the same data, flags, sample counts, times, uvws, "
        "integration times, frequencies, channel widths, windows, polarizations, baselines, phase centers (moving ones and proper motion included), scan "
        "numbers and antenna positions, again after a second generation, for linear and circular polarizations in any order, several windows and flexible "
        "polarization, and for the data, model and corrected-data columns; with the conjugation option the visibilities are "
        "conjugated in the file only; objects that cannot be held are refused, and writing does not modify the object's data.",
        ["inputs", "configurations", "histories"],
        "every combination of layout, window arrangement, phase-center set, antenna numbering, polarization set and order, data column and conjugation option",
        "The tests round-trip a few files and compare with the library's own equality.",
        ["uvdata/ms.py", "utils/io/ms.py", "utils/tools.py"],
        [("MS.write_ms, read_ms", "uvdata/ms.py"), ("table readers and writers", "utils/io/ms.py")],
        ["UVData.write_ms and UVData.read"],
    ),
    P(
        "C19",
        "Calibration selection and reordering keep exactly the right solutions",
        "Selecting on a calibration object (antennas by number or name, times, LSTs and ranges of them, frequencies, channels, "
        "spectral windows, Jones elements or polarization names, phase centers) keeps exactly the gains or delays that "
        "satisfy all of the criteria, each with its own value, flag, quality, total quality and every per-time, per-channel "
        "and per-window label (time or time range, LST, integration time, reference antenna, scan number, phase center, channel width, "
        "frequency range); reordering antennas, times, channels, windows or Jones elements is a permutation that gives the requested "
        "order and moves every per-element quantity with its element. Requests that match nothing or name something absent are refused "
        "and leave the object unchanged.",
        ["inputs", "histories", "configurations"],
        "every pair of selection criteria and argument form, every reorder argument, and every select/reorder sequence to "
        "depth 2 (3 thorough), on gain, wide-band gain and delay objects with time arrays or time ranges, one or "
        "several windows, flexible Jones, quality arrays, per-time metadata",
        "The tests select along one axis of a few files that have no scan numbers, reference antennas per time or several "
        "windows.",
        ["uvcal/uvcal.py", "utils/times.py", "utils/frequency.py"],
        [("UVCal.select", "uvcal/uvcal.py"), ("UVCal.reorder_*", "uvcal/uvcal.py"), ("time selection helper", "utils/times.py")],
        ["UVCal.select, reorder_antennas, reorder_freqs, reorder_times, reorder_jones and the attributes of the result"],
    ),
    P(
        "C20",
        "Combining calibration objects loses, moves and invents nothing",
        "Adding calibration objects or concatenating them along an axis gives an object that holds every gain or delay of every operand at its own "
        "antenna, frequency or window, time and Jones element with its own flag and quality, and every per-time, per-channel and "
        "per-window label; cells that no operand has are zero and flagged; the order of the axes of the operands does not matter, nor does "
        "the grouping of several additions; concatenation keeps the order of the operands; operands are not modified; overlapping "
        "or incompatible objects are refused and left unchanged.",
        ["inputs", "histories", "configurations"],
        "every pair of blocks of an object (halves and alternating elements on up to two axes each) in several axis orders, three-block "
        "sums in every order and grouping, concatenation of 2 and 3 blocks in every order, on gain, wide-band and delay objects",
        "The tests add the halves of two sorted single-window files.",
        ["uvcal/uvcal.py", "utils/phase_center_catalog.py"],
        [("UVCal.__add__, fast_concat", "uvcal/uvcal.py"), ("look_in_catalog", "utils/phase_center_catalog.py")],
        ["UVCal.__add__, __iadd__, fast_concat"],
    ),
    P(
        "C23",
        "Converting flag objects keeps every flag, metric and weight on its own data",
        "Converting a flag object between baseline, antenna and waterfall types and between flag and metric modes, in any order, keeps each value "
        "at its own time, frequency, polarization and antenna or baseline: broadcasting copies the waterfall value of the matching time, antenna flags reach "
        "exactly the baselines of that antenna, and collapsing is exactly the chosen reduction (or, and, weighted mean, absolute mean, "
        "quadratic mean) of the values and weights collapsed; thresholding flags exactly the values at or above the threshold; metadata and "
        "counts follow the data; applying a flag object to visibilities ORs each flag onto the matching baseline, time, frequency and "
        "polarization and nothing else; requests that do not match are refused; reference objects are not modified.",
        ["inputs", "histories", "configurations"],
        "every sequence of up to three conversions (thorough: more) on baseline objects with four row orders, antenna objects with unsorted times and "
        "waterfalls with unsorted times, one, two, reversed and overlapping windows, coded values and weights including zeros",
        "The tests convert sorted files once and mostly compare shapes or constant values.",
        ["uvflag/uvflag.py", "utils/apply_uvflag.py", "utils/array_collapse.py"],
        [("UVFlag conversions", "uvflag/uvflag.py"), ("apply_uvflag", "utils/apply_uvflag.py"), ("collapse methods", "utils/array_collapse.py")],
        ["UVFlag.to_waterfall, to_baseline, to_antenna, to_flag, to_metric, collapse_pol, from_uvdata, from_uvcal", "flags2waterfall, and_rows_cols, apply_uvflag"],
    ),
    P(
        "C24",
        "Flag object selection, combination and files keep exactly what was asked for",
        "Selecting from a flag object by times, antennas, antenna pairs, antenna strings, row indices, frequencies, channels or polarizations keeps exactly the "
        "matching flags, metrics and weights with their labels in their order; adding objects along an axis concatenates the operands' values and labels in order; "
        "OR and metric combination act element by element; writing a flag object and reading it (one file or a list) returns the same "
        "object with every compression; operands and files on disk are not changed, and impossible or incompatible requests are refused with nothing changed.",
        ["inputs", "histories", "configurations"],
        "every subset and pair of criteria on every type, mode, row order and window layout; every cut of every axis put together in both "
        "orders; all methods; files written and read twice with every compression",
        "The tests select single criteria on sorted single-window files.",
        ["uvflag/uvflag.py"],
        [("UVFlag select, add, or, combine_metrics, read, write", "uvflag/uvflag.py")],
        ["UVFlag.select, __add__, __or__, combine_metrics, read, write"],
    ),
    P(
        "C25",
        "Beam selection, combination and files keep every beam value with its labels",
        "Selecting from a beam by image axis indices, healpix pixels, frequencies, channels, feeds or polarizations, in any order and combination, keeps exactly the "
        "matching beam values with their own labels, basis vectors, bandpass, receiver arrays, S-parameters and coupling matrix; adding beams along any axis puts every value of both "
        "operands at its own pixel, frequency and feed or polarization whatever the order of the operands' axes, and zero where neither has data; writing a beamfits file and "
        "reading it (whole, by frequency, azimuth or zenith-angle range, or as a list of files) returns the same beam or exactly that part; operands are not modified, "
        "existing files are not overwritten without clobber, and overlapping, incompatible or impossible requests are refused with nothing changed.",
        ["inputs", "configurations", "histories"],
        "every subset of every axis (polarizations and feeds in every order, by number, name and orientation name), pairs of criteria, every cut of "
        "every axis recombined in both orders with the parts reordered, every contiguous range read, on 20 kinds of gridded and healpix, E-field and power, simple and phased-array beams",
        "The tests select sorted subsets of one beam file and add its halves in order.",
        ["uvbeam/uvbeam.py", "uvbeam/beamfits.py"],
        [("UVBeam.select, __add__", "uvbeam/uvbeam.py"), ("beamfits reader and writer", "uvbeam/beamfits.py")],
        ["UVBeam.select, __add__, __iadd__, read, from_file, read_beamfits, write_beamfits"],
    ),
    P(
        "C26",
        "Beam conversions and interpolation give the beam's own values",
        "Peak normalization leaves data times bandpass unchanged with a maximum of one per frequency; converting E-field to power gives for each feed pair the product of the fields summed over "
        "the vector components under the right polarization label (real without cross polarizations), and conversion to pseudo-Stokes the diagonal Mueller elements; interpolation returns the stored values at "
        "grid points, pixel centres and channels, the spline (or bilinear healpix) value between them including across the azimuth wrap, the requested polarizations in the requested order, nearest channels "
        "exactly when all lie within the tolerance, and the matching bandpass, coupling matrix and basis vectors; new objects and conversion to healpix carry these values with matching axes; beam areas are the pixel sums; "
        "reused splines never give another result than a fresh object; requests outside the beam or not defined are refused with nothing changed.",
        ["inputs", "histories", "configurations"],
        "every grid point and cell, frequency subsets on and off the channels, every ordered polarization subset, healpix maps in both orderings, all conversion options, and every history of conversions and "
        "selections between interpolations that reuse splines up to the bound",
        "The tests compare a few points of one file, mostly with the library's own splines; UVBeam tests on CST files cannot run here at all.",
        ["uvbeam/uvbeam.py", "uvbeam/uvbeam.pyx"],
        [("UVBeam conversions and interp", "uvbeam/uvbeam.py"), ("find_healpix_indices", "uvbeam/uvbeam.pyx")],
        ["UVBeam.peak_normalize, efield_to_power, efield_to_pstokes, interp, to_healpix, get_beam_area, get_beam_sq_area"],
    ),
    P(
        "C12",
        "Averaging and splitting integrations in time accounts for every sample once",
        "Downsampling in time (to a minimum integration time or by a number of integrations) groups each baseline's integrations in time order, each input integration in exactly one output (or, with "
        "ragged ends not kept, only the incomplete last group dropped), and each output has the summed integration time, the weighted mean time, the average of the unflagged samples weighted by "
        "integration time and nsamples (or their sum, for summing correlators), flagged only if all its inputs are, in which case the flagged samples are averaged, and matching nsamples; upsampling "
        "splits every integration longer than the maximum into equal contiguous parts carrying its data, flags and nsamples and leaves every other integration alone; resampling chooses between them as documented. "
        "Baselines, polarizations, channels, phase centers and scan numbers of each row are kept; times, LSTs, apparent positions and uvws are those of the new times; unprojected and driftscan data are "
        "resampled at a fixed position and returned to their own phase center, without touching rows with other phase centers; groups spanning phase centers are refused; rows come out in the requested order and counts match.",
        ["inputs", "histories", "configurations"],
        "every sequence of up to four integration times from three values on one baseline next to a regular, reversed one and a single integration, all flag patterns, all targets, options, phase-centre set-ups and row orders of the bound, and chains of two calls",
        "The tests use regular HERA-like data, one flag pattern at a time and compare a handful of cells.",
        ["uvdata/uvdata.py"],
        [("upsample_in_time, downsample_in_time, resample_in_time, _harmonize_resample_arrays", "uvdata/uvdata.py")],
        ["UVData.upsample_in_time, downsample_in_time, resample_in_time"],
    ),
    P(
        "C13",
        "Averaging in frequency accounts for every channel once",
        "frequency_average groups consecutive channels of each spectral window (or of the whole axis when windows are not respected), with the incomplete last group of each window kept as a smaller bin or dropped as asked; "
        "each output channel has the mean frequency, summed width, mean equalisation coefficients, the nsample-weighted mean (or the sum, in summing mode) of the unflagged inputs, all inputs when all are flagged, "
        "nsamples averaged over the group, and is flagged if all (or, when propagating flags, any) inputs are; windows left without channels disappear, window and flex-polarization labels stay right, "
        "and nothing along the other axes changes.",
        ["inputs", "configurations", "histories"],
        "1-8 channels in seven window layouts, every averaging length, every option combination, all flag patterns, with and without equalisation coefficients, flexible polarization, metadata only, and chains of two averagings",
        "The tests flag one or two channels of a single-window file.",
        ["uvdata/uvdata.py"],
        [("frequency_average", "uvdata/uvdata.py")],
        ["UVData.frequency_average"],
    ),
    P(
        "C14",
        "Redundant baselines are grouped, compressed and inflated consistently",
        "get_redundancies, from the data or from antenna positions and with either algorithm, partitions the baselines so that exactly those with the same separation within the tolerance (also reversed ones when conjugates are "
        "included, listed as such) share a group, with the right mean vectors and lengths, refusing ambiguous groups with the clustering algorithm; compress_by_redundancy keeps one baseline per group with its own rows, and when averaging gives it "
        "at each of its times the nsample-weighted mean of the unflagged samples of all the group's baselines in its own orientation (reversed baselines conjugated with cross-hand polarizations exchanged), summed nsamples, and "
        "flagged only where all inputs are, where the flagged samples are averaged; inflate_by_redundancy gives every baseline of a group the rows of the group's baseline in the data, oriented alike, "
        "in the requested row order; scan numbers, phase centers and metadata-only objects are handled; objects not modified in place are left untouched.",
        ["inputs", "configurations", "histories"],
        "three antenna layouts, every orientation of five baselines, four row layouts, six polarization sets, both algorithms and methods, all flag patterns of a group, every choice of at most one baseline per group inflated, compress then inflate, every arrangement of four points on a grid",
        "The tests use simulated files with one orientation pattern and parallel-hand polarizations only.",
        ["uvdata/uvdata.py", "utils/redundancy.py"],
        [("get_redundancies, compress_by_redundancy, inflate_by_redundancy", "uvdata/uvdata.py"), ("clustering", "utils/redundancy.py")],
        ["UVData.get_redundancies, compress_by_redundancy, inflate_by_redundancy; utils.redundancy.find_clusters, get_baseline_redundancies"],
    ),
    P(
        "C18",
        "Calibration scales each visibility by exactly its two antennas' gains",
        "utils.uvcalibrate gives every visibility of baseline (1,2), at its own time, frequency and polarization, the value V / (g1 conj(g2)) for divide-convention gains and V g1 conj(g2) for multiply-convention ones (the inverse when undoing; gains "
        "conjugated when asked), with the gains of the antennas of those names, the Jones terms of the visibility's two feeds for the dipole orientations of both objects, the calibration time or time range that matches (or the single one), and the matching frequency "
        "(delays evaluated at it), whatever the order of antennas, times, frequencies, Jones terms or rows; samples are flagged where either gain is flagged (unless flags are not propagated), where a gain is missing or zero, and data are then left unscaled; "
        "units, polarization convention (with its factor of two for intensity) and history are updated; undo restores the original; requests that cannot be met are refused; nothing but the returned object changes and the calibration never does.",
        ["inputs", "configurations"],
        "every combination of five row layouts, nine time forms and seven frequency forms of the calibration, crossed with antenna subsets, orders and renumbering, orientations, Jones sets, conventions, options, precisions; every combination of polarization conventions; apply-then-undo; every refused request",
        "The tests calibrate one file with matching orders and check a few baselines.",
        ["utils/uvcalibrate.py"],
        [("uvcalibrate, _apply_pol_convention, _get_pol_conventions", "utils/uvcalibrate.py")],
        ["utils.uvcalibrate"],
    ),
    P(
        "C21",
        "Calibration files give back the object that was written",
        "An object written with write_calfits, write_calh5 or write_ms_cal and read back has the same gains or delays, flags, qualities, total qualities (calfits, calh5), antennas, times or time ranges, frequencies, widths and windows, Jones terms, styles, conventions, "
        "reference antennas, phase centers, telescope and optional metadata, up to the format's documented reordering; objects a format cannot represent are refused instead of being changed; writing leaves the object alone; "
        "a second generation is identical; and reading part of a calh5 file, by any antenna, time, LST, frequency, window or Jones selection or metadata only, gives what selecting on the whole object gives.",
        ["inputs", "configurations", "histories"],
        "the product of ten kinds and window layouts, Jones sets, antenna subsets, time forms, optional arrays and precisions through three formats, every optional attribute alone, two generations, unrepresentable objects, overwriting; every single and paired selection of the C19 alphabet as a partial read",
        "The tests round-trip a few files and compare a few partial reads.",
        ["uvcal/calfits.py", "uvcal/calh5.py", "uvcal/ms_cal.py"],
        [("CALFITS.write_calfits/read_calfits", "uvcal/calfits.py"), ("CalH5.write_calh5/read_calh5, _get_data", "uvcal/calh5.py"), ("MSCal.write_ms_cal/read_ms_cal", "uvcal/ms_cal.py")],
        ["UVCal.write_calfits, write_calh5, write_ms_cal, UVCal.read"],
    ),
    P(
        "C22",
        "Converting a calibration object keeps every solution and its labels",
        "convert_to_flex_jones and remove_flex_jones keep each (antenna, frequency or window, time, Jones) solution with its flag and qualities, through any intermediate selection or reordering, padding only combinations that are absent with flagged values; "
        "convert_to_gain gives exp(±2πi f τ) at each frequency asked for, with flags, qualities and metadata of the delay, also for every Jones term; get_gains, get_flags, get_quality, get_time_array and the other accessors return the values of the requested antenna and Jones term; "
        "and initialize_from_uvdata / new_uvcal_from_uvdata take antennas (with positions, names, diameters in one order), times, frequencies, windows and Jones terms from the UVData object or the keywords, sharing no array with it.",
        ["inputs", "histories", "configurations"],
        "gain, wide-band and delay objects with 1-3 windows and 1-4 Jones terms with and without every optional array, every history of two steps between conversion and back, every Jones set for delays, every accessor key form, visibility layouts for the template",
        "The tests convert one or two files right back.",
        ["uvcal/uvcal.py", "uvcal/initializers.py"],
        [("convert_to_flex_jones, remove_flex_jones, convert_to_gain, get_gains, _slice_array", "uvcal/uvcal.py"), ("new_uvcal_from_uvdata", "uvcal/initializers.py")],
        ["UVCal.convert_to_flex_jones, remove_flex_jones, convert_to_gain, get_gains and other accessors, initialize_from_uvdata"],
    ),
    P(
        "C28",
        "Flexible-polarization objects hold exactly the visibilities of the full ones",
        "convert_to_flex_pol turns every (window, polarization) into a window of its own with the same frequencies, widths, data, flags, nsamples and equalisation coefficients, labelled by flex_spw_polarization_array; remove_flex_pol undoes it "
        "(combining windows of equal frequencies into a polarization axis, in whatever order they are, or keeping them apart, with samples that are absent flagged and zero), after any selection or reordering in between each sample still carries its own frequency, polarization and row; "
        "nothing along the baseline-time axis changes and metadata-only objects behave alike.",
        ["inputs", "histories", "configurations"],
        "six window layouts, seven polarization sets and orders, three row layouts, with and without data and equalisation coefficients; every history of one or two steps over twelve selections and reorderings between conversion and back, with and without combining",
        "The tests convert one SMA file there and back.",
        ["uvdata/uvdata.py"],
        [("convert_to_flex_pol, remove_flex_pol, _make_flex_pol", "uvdata/uvdata.py")],
        ["UVData.convert_to_flex_pol, remove_flex_pol"],
    ),
    P(
        "C17",
        "Equality, check() and copies tell exactly what an object holds",
        "Two objects of any of the five classes (and the telescopes in them) compare equal exactly when they are of one kind and every attribute agrees within its documented tolerance (strings up to blanks, keywords and catalogs entry by entry; "
        "file names not compared, row-order hints only when both are set), symmetrically, without raising and without changing either; check() returns True and changes nothing on a consistent object and refuses one with a required attribute missing, "
        "any attribute of the wrong shape, type or outside its accepted values, or attributes that contradict each other (counts, antennas, windows, phase centers, polarizations, times and LSTs, autos); "
        "copies equal the original and share nothing with it, metadata-only copies lack only the data-like arrays.",
        ["inputs", "configurations"],
        "18 objects of five classes, every attribute and every telescope attribute, every single change at each corner just inside and outside the tolerance, every keyword and catalog field, set against unset, every malformed value, 60 contradictions, scribbling over every attribute of a copy",
        "The tests compare a few hand-made differences.",
        ["parameter.py", "uvbase.py", "uvdata/uvdata.py", "uvcal/uvcal.py", "uvflag/uvflag.py", "uvbeam/uvbeam.py"],
        [("UVParameter.__eq__, _param_dict_equal, check_acceptability, expected_shape", "parameter.py"), ("UVBase.__eq__, check, copy", "uvbase.py"), ("check, copy, _fix_autos of each class", "uvdata/uvdata.py")],
        ["==, !=, check() and copy() of UVData, UVCal, UVFlag, UVBeam, Telescope"],
    ),
    P(
        "C27",
        "Antenna-pair, polarization and Jones labels convert losslessly",
        "antnums_to_baseline gives the documented number (2048 or, for antenna numbers or counts above 2047/2048, 2147483648 convention; 256 when attempted and possible; MIRIAD's when asked) and baseline_to_antnums gives back the same pair, distinct pairs have distinct numbers within an array, scalars, lists "
        "and arrays of any integer type agree, flipping a number swaps its antennas, out-of-range values are refused; polarization and Jones strings (any case, E/N labels per orientation, feeds h/v, single letters) and numbers convert into each other as AIPS memo 117 and the calfits memo say, whatever was "
        "converted before and for scalars and containers alike; conjugation swaps exactly the cross-hand terms and conjugate or AIPS/CASA reorderings are right permutations for any set and order.",
        ["inputs", "histories"],
        "every ordered pair of 30 boundary antenna numbers (and pairs of pairs of 14) in eight container types for six antenna counts, every pair of 0..300; every label in every capitalisation, orientation pair and container in call sequences of three; every ordered subset of up to four polarizations",
        "The tests convert a handful of values.",
        ["utils/bls.py", "utils/bls.pyx", "utils/pol.py"],
        [("antnums_to_baseline, baseline_to_antnums, baseline_index_flip", "utils/bls.py"), ("polstr2num, polnum2str, jstr2num, jnum2str, conj_pol, reorder_conj_pols, determine_pol_order", "utils/pol.py")],
        ["utils.antnums_to_baseline, baseline_to_antnums, polstr2num, polnum2str, jstr2num, jnum2str, conj_pol, pol.determine_pol_order"],
    ),
    P(
        "C37",
        "Visibility arithmetic combines exactly matching samples and nothing else",
        "sum_vis and diff_vis give the element-wise sum or difference of the two objects' data, keep every other attribute of the first, merge extra keywords (the first object's win), history and file names, and refuse, leaving both objects as they were, if any other attribute differs by more than its tolerance unless it is overridden; "
        "the second operand (and the first, when not in place) is never changed; remove_eq_coeffs multiplies or divides every visibility by its two antennas' coefficients at its frequency; "
        "normalize_by_autos divides (or multiplies, inverting) every cross-correlation by the geometric mean of the two antennas' autocorrelations of the same time, frequency and matching feeds whatever the row and polarization order, "
        "flags samples whose autos are missing, flagged or not positive, leaves autos alone when asked, and inverting undoes it.",
        ["inputs", "configurations", "histories"],
        "row layouts, windows, polarization sets, precisions; all relations of keywords and histories; every attribute of the second object changed alone, within and beyond tolerance, overridden or not; every state of each of three autocorrelations x layouts x nine polarization orders",
        "The tests combine one file with itself and normalise one time-ordered file.",
        ["uvdata/uvdata.py"],
        [("sum_vis, diff_vis, remove_eq_coeffs, normalize_by_autos", "uvdata/uvdata.py")],
        ["UVData.sum_vis, diff_vis, remove_eq_coeffs, normalize_by_autos"],
    ),
    P(
        "C33",
        "Fast metadata readers give what a full read gives, in any order of asking",
        "Every attribute of FastUVH5Meta and FastCalH5Meta (header items, unique times, LSTs in the order of the times, antenna pairs, baselines, antennas and polarizations, row order, rectangularity and faster axis, site in every form, positions, telescope object) "
        "equals what UVData/UVCal holds after a full read of the file, whichever optional header items the file lacks, whatever was asked, cached, deleted, closed, reopened, transactionally read or pickled before; "
        "has_key answers for exactly the pairs (in either direction, with the conjugate polarization when reversed), antennas and polarizations of the file; "
        "to_uvdata and to_uvcal give the object of a metadata-only read; a closed or pickled object holds no open file and works again when asked.",
        ["inputs", "configurations", "histories"],
        "78 files of every row layout, antenna-pair set and number of times x every subset of optional header items removed; every key of 36 pairs and all polarization names; every two-step (all or one sixth of three-step) history of 15 operations; calibration files of every type; lunar ellipsoids",
        "The tests look at one rectangular file.",
        ["uvdata/uvh5.py", "uvcal/calh5.py", "utils/io/hdf5.py"],
        [("FastUVH5Meta", "uvdata/uvh5.py"), ("FastCalH5Meta", "uvcal/calh5.py"), ("HDF5Meta", "utils/io/hdf5.py")],
        ["FastUVH5Meta and FastCalH5Meta attributes, has_key, get_transactional, close, open, pickle, to_uvdata, to_uvcal"],
    ),
    P(
        "C35",
        "Row order and rectangularity are found correctly for every sequence of rows",
        "For any sequence of (antenna pair, time) rows determine_blt_order returns an order that the rows really have, or None only if they are sorted by none of time, baseline number and either antenna number, gives complete data sorted by time and baseline its full order, and never fails; "
        "rectangularity is reported exactly when the rows are a full grid of times and baselines with one of them as the outer axis, with the right faster axis; the UVData methods record exactly that and nothing else, leaving an object that passes its checks, "
        "and keep it right through reorder_blts and select; the order is kept by UVH5 and UVFITS files.",
        ["inputs", "histories"],
        "every sequence of up to five (six) rows of up to four antenna pairs and three times and every order of complete sets; every permutation of every row subset on objects x recorded state x force; every reordering followed by row selections; every order through files",
        "The tests permute one data set at random.",
        ["utils/bltaxis.py", "uvdata/uvdata.py"],
        [("determine_blt_order, determine_rectangularity", "utils/bltaxis.py"), ("determine_blt_order, set_rectangularity, reorder_blts, select", "uvdata/uvdata.py")],
        ["utils.bltaxis.determine_blt_order, determine_rectangularity; UVData.determine_blt_order, set_rectangularity"],
    ),
    P(
        "C05",
        "Phase-centre catalogue operations keep every row with its own phase centre",
        "Through any sequence of rename_phase_center, split_phase_center, merge_phase_centers and select, every row's phase_center_id_array entry is in the catalogue and leads to the phase centre the documented meaning of the calls gives it "
        "(rename changes only names; split gives exactly the selected rows of that centre a new entry that differs only in name and id; merge joins exactly the named entries, which must be equal unless forced), Nphase is the number of entries, nothing else of the object changes, and a refused call changes nothing; "
        "combining objects along rows by +, += or fast_concat, with or without ignore_name, leaves every row with its own centre (position, motion, epoch, ephemeris times, and name unless names are ignored), merges equal centres, keeps different ones apart, loses and invents none and does not touch the operands, whatever the two numberings, shared names, duplicates or unused entries; "
        "along frequency rows of different phase centres are never combined.",
        ["inputs", "histories", "configurations"],
        "seven catalogues x every sequence of two (three) of 78 calls with names, ids, lists, masks and refused arguments; all ordered pairs of twelve catalogues, of catalogues before and after every call, and chains of three, x ignore_name x +, +=, fast_concat",
        "The tests try single calls on one or two phase centres.",
        ["uvdata/uvdata.py", "utils/phase_center_catalog.py"],
        [("rename_phase_center, split_phase_center, merge_phase_centers, _consolidate_phase_center_catalogs, _update_phase_center_id, __add__, fast_concat", "uvdata/uvdata.py"), ("look_in_catalog, generate_new_phase_center_id", "utils/phase_center_catalog.py")],
        ["UVData.rename_phase_center, split_phase_center, merge_phase_centers, select, __add__, fast_concat; phase_center_catalog, phase_center_id_array, Nphase"],
    ),
    P(
        "C15",
        "Accessors give and set exactly the asked rows, whatever was done before",
        "For every key (antenna pair, pair with polarization number or name, baseline number, polarization alone, as arguments, tuple or nested) get_data, get_flags, get_nsamples, get_times and get_lsts return the values of exactly the rows of that pair in order "
        "followed by those of the reversed pair conjugated with conjugate polarization, or raise KeyError if there are none; squeezing and copies are as asked and no writable view of the object is handed out; antpair2ind, get_antpairs, get_ants, get_baseline_nums, get_pols, get_antpairpols, get_feedpols and antpairpol_iter "
        "agree with the rows; set_data, set_flags and set_nsamples change exactly the asked values of one array or are refused and change nothing; "
        "the answers are right again after any sequence of operations that changes rows, pairs, polarizations or x_orientation, in place or not (nothing stale is returned), and for objects read from whole or partial files with or without recorded rectangularity.",
        ["inputs", "histories", "configurations"],
        "all keys of 36 pairs and 14 polarizations on 5 layouts x 6 pair sets x 7 polarization sets; setting at each key; every two-step (thorough: three-step) history of 34 operations with all keys asked before and after each; files with each header item left out",
        "The tests ask for a few keys of one file.",
        ["uvdata/uvdata.py", "utils/tools.py", "utils/pol.py"],
        [("antpair2ind, _key2inds, _smart_slicing, get_data, get_times, set_data, get_antpairs", "uvdata/uvdata.py"), ("slicify", "utils/tools.py")],
        ["UVData.get_data/get_flags/get_nsamples/get_times/get_lsts, antpair2ind, get_antpairs and other lists, set_data/set_flags/set_nsamples"],
    ),
    P(
        "C16",
        "Operations change only their object, fully or not at all, and share nothing",
        "Every operation of UVData, UVCal, UVFlag and UVBeam that gives a new object or only reads (inplace=False forms, +, |, comparisons, copies, conversions, accessors, checks, writers without force_phase) leaves the object and every object or array passed to it exactly as they were, "
        "and the object it gives shares no array, dictionary, list or telescope with them, so no later operation on one changes another; the in-place form gives exactly the object the other form returns, and returns nothing; operations that change an object leave their other arguments alone; "
        "a call refused for its arguments leaves the object it was called on exactly as it was, in both forms, with the same error.",
        ["inputs", "histories", "configurations"],
        "every operation with valid and refused argument variants on 27 object configurations, both forms; after every operation that gives an object the sequence of all in-place operations on the result, the operand and the argument with the other two watched",
        "The tests look at single results, not at the operands.",
        ["uvdata/uvdata.py", "uvcal/uvcal.py", "uvflag/uvflag.py", "uvbeam/uvbeam.py"],
        [("select, __add__, fast_concat, sum_vis, downsample_in_time, reorder_blts, write_miriad", "uvdata/uvdata.py"), ("select, __add__, fast_concat", "uvcal/uvcal.py"), ("to_baseline, to_antenna, __add__", "uvflag/uvflag.py"), ("select, interp, efield_to_power", "uvbeam/uvbeam.py")],
        ["all parameters of the objects involved in public operations of UVData, UVCal, UVFlag, UVBeam"],
    ),
    P(
        "C09",
        "A Miriad file gives back the object that was written",
        "Writing any UVData object Miriad can hold and reading it back (with or without recomputed LSTs) gives every row's visibilities, flags and sample counts under the same time, antenna pair, polarization, channel and phase center "
        "(baselines turned to ant1 < ant2 with polarizations, phases and uvws turned along), the same times, LSTs, uvws, apparent coordinates, frequencies, windows, row order, antennas and metadata to the precision of the format; a second generation is exact; objects Miriad cannot hold are refused, "
        "and neither the object nor an existing file is changed.",
        ["inputs", "configurations"],
        "5 row layouts x 6 window layouts x 9 phase-center settings, with covering combinations of antenna numberings, polarizations, precisions, orders, integration times, keywords and options",
        "The tests use a few observatory files with consecutive antennas, one window and one phase center.",
        ["uvdata/miriad.py", "uvdata/aipy_extracts.py"],
        [("read_miriad, write_miriad, _load_antpos, _load_miriad_variables", "uvdata/miriad.py"), ("UV, uv_selector", "uvdata/aipy_extracts.py")],
        ["UVData.read", "UVData.write_miriad"],
    ),
    P(
        "C34",
        "New objects built from values hold exactly those values, each in its place",
        "Telescope, UVData, UVCal and UVBeam objects made with new() from any accepted form of the arguments (telescope object or separate antenna arguments as dictionaries, arrays, numbers or names in any order; times and antenna pairs unique, repeated or in any order, combined in full or row by row with either axis fastest; "
        "time ranges; integration times, channel widths as numbers, arrays or left out; windows; polarizations, Jones terms and feeds as numbers or names for either dipole orientation; phase centers; data-like arrays or none; pixel grids and HEALPix) pass check and hold exactly those values, with the LST, integration time, "
        "uvw and phase center of its own time and pair in every row, the documented defaults elsewhere, and only true row orders recorded; contradictory or malformed arguments are refused, and the arguments passed in are not changed.",
        ["inputs", "configurations"],
        "9 time lists x 8 pair lists x all settings of 3 layout options x 3 forms of integration time; 4 frequency lists x 5 width forms x 6 window forms; 8 polarization sets x 3 containers x 9 telescope forms x 4 orientations; data, phase-center and keyword forms; the same for UVCal and UVBeam",
        "The tests build a few objects with sorted times and one style of telescope argument.",
        ["uvdata/initializers.py", "uvcal/initializers.py", "uvbeam/initializers.py", "telescopes.py"],
        [("new_uvdata, get_time_params, configure_blt_rectangularity, get_freq_params, get_spw_params, set_phase_params", "uvdata/initializers.py"), ("new_uvcal", "uvcal/initializers.py"), ("new_uvbeam", "uvbeam/initializers.py"), ("get_antenna_params, Telescope.new", "telescopes.py")],
        ["UVData.new", "UVCal.new", "UVBeam.new", "Telescope.new"],
    ),
    P(
        "C30",
        "What is on disk is the last successful write, whatever failed in between",
        "For every writer and any sequence of writes, refused writes and reads on one path: an existing file is never replaced or touched without clobber, and with it is replaced completely; an object that is refused (metadata only, failing its check) leaves the file as it was; reading, into a new or a used object, gives exactly the object "
        "last written and does not change the file. An I/O error at any point of a write or read is reported, never taken for success, changes nothing in the object being written, keeps nothing open, and the same operation then works when repeated.",
        ["histories", "crash points", "faults"],
        "10 writers x all sequences of 3-4 operations from 8; an injected error at every call into h5py, astropy FITS, casacore and the Miriad library during a write and during a read, for two objects per format",
        "The tests never inject I/O errors and overwrite a file only once or twice.",
        ["uvdata/uvh5.py", "uvdata/uvfits.py", "uvdata/ms.py", "uvdata/miriad.py", "uvcal/calh5.py", "uvcal/calfits.py", "uvcal/ms_cal.py", "uvflag/uvflag.py", "uvbeam/beamfits.py"],
        [("write_uvh5, initialize_uvh5_file", "uvdata/uvh5.py"), ("write_ms", "uvdata/ms.py"), ("write_miriad", "uvdata/miriad.py"), ("write_uvfits", "uvdata/uvfits.py"), ("write_calh5", "uvcal/calh5.py"), ("write_calfits", "uvcal/calfits.py"), ("write_ms_cal", "uvcal/ms_cal.py"), ("UVFlag.write", "uvflag/uvflag.py"), ("write_beamfits", "uvbeam/beamfits.py")],
        ["UVData.write_uvh5", "UVData.write_ms", "UVData.write_miriad", "UVData.write_uvfits", "UVCal.write_calh5", "UVCal.write_calfits", "UVCal.write_ms_cal", "UVFlag.write", "UVBeam.write_beamfits"],
    ),
    P(
        "C36",
        "Coordinates, sidereal times and projections follow their definitions, row by row",
        "Conversions between geodetic, geocentric, local and rotated coordinates are inverse to each other and agree with the reference ellipsoids on Earth and Moon for every site; baseline projections (calc_uvw), sidereal times, apparent places, frame position angles, interpolated ephemerides and generated tracks give, for every row, "
        "the value its own time, position, pointing and frame angle define, whatever the order, repetition or grouping of the rows and whether quantities are given as scalars or arrays, from each supported library; inputs are not changed and malformed shapes are refused.",
        ["inputs", "configurations"],
        "81 positions x 4 heights x 5 ellipsoids; every local displacement in a cube about 12 sites; every sequence of three pointing states from an alphabet of eight; eight time layouts; every sequence of three (ra, dec, time) from a 2x2x2 grid; ephemerides of 1-6 points with every placement of requested times",
        "The tests use sorted unique rows and one pointing at a time; the row-grouping shortcuts go wrong only for particular repetitions.",
        ["utils/phasing.py", "utils/coordinates.py", "utils/times.py"],
        [("calc_uvw, calc_app_coords, calc_sidereal_coords, calc_frame_pos_angle, transform_icrs_to_app, interpolate_ephem, uvw_track_generator", "utils/phasing.py"), ("XYZ_from_LatLonAlt, LatLonAlt_from_XYZ, ENU_from_ECEF, ECEF_from_ENU, rotECEF_from_ECEF", "utils/coordinates.py"), ("get_lst_for_time", "utils/times.py")],
        ["utils.phasing.calc_uvw", "utils.get_lst_for_time", "utils.ENU_from_ECEF"],
    ),
    P(
        "C29",
        "Mir metadata tables answer, edit, undo, combine and store exactly their records",
        "The tables of Mir metadata (MirMetaData and its kinds) behave like tables of records identified by their header keys in any order: after every history of masking, editing, undoing and copying, each query by mask, key, position or condition, each grouping and each index returns exactly the records and values the history "
        "leaves; undo restores the loaded values; two tables are equal exactly when the same keys carry the same values and masks; combining tables takes every record from the side the options name, or refuses conflicting ones leaving both as they were; tables written and read back, appended or overwritten, hold the same records.",
        ["histories", "inputs"],
        "tables of four records in unsorted key order, every history of up to two operations (three in the thorough tier) from an alphabet of 23; combination for every pair of key relations x values x masks x options; files for every mask",
        "The tests use tables in key order and single edits; mixing of rows needs unsorted keys or masks differing between the two tables.",
        ["uvdata/mir_meta_data.py"],
        [("MirMetaData.where, get_value, set_value, set_mask, reset_values, group_by, _add_check, __add__, __eq__, read, write", "uvdata/mir_meta_data.py")],
        ["MirMetaData.get_value", "MirMetaData.set_value", "MirMetaData.set_mask"],
    ),
    P(
        "C38",
        "Known-telescope values fill only what is missing, each antenna from its record",
        "Filling telescope information from the catalogue of known telescopes (update_params_from_known_telescopes, from_known_telescopes, set_telescope_params of UVData, UVCal and UVFlag) sets exactly the parameters that are missing, or all when overwriting is asked; every antenna gets the values of the catalogue record that carries its name, "
        "or failing that its number, whatever the order of the antennas and whichever of them are matched by which; nothing is set for the antennas unless all are matched; what was set is reported when asked; unknown telescopes are refused or left unchanged, and telescopes created by name share nothing.",
        ["inputs", "configurations"],
        "three antennas known by name, number, both (agreeing or not) or neither in all 125 combinations (in three orders in the thorough tier) x every subset of six parameters present x overwriting and warning options; UVData, UVCal, UVFlag objects lacking parts in six antenna orders",
        "The tests remove one parameter at a time from antennas in catalogue order.",
        ["telescopes.py"],
        [("Telescope.update_params_from_known_telescopes, Telescope.from_known_telescopes, known_telescope_location", "telescopes.py"), ("UVData.set_telescope_params", "uvdata/uvdata.py")],
        ["Telescope.update_params_from_known_telescopes", "UVData.set_telescope_params"],
    ),
]
