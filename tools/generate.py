"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay
in step.  A property is claimed when its check exists in checks/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "exorad/tasks/"
M = "exorad/models/"
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique,
         note, state=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, state=state))


prop(
    "P01", "An observation does not depend on what was observed before",
    "Observing a target gives the same table (columns, units, values and "
    "metadata) whatever was observed before in the same process and with the "
    "same built channels: other targets, the same target again, targets that "
    "failed, the same targets with another payload or other foregrounds. "
    "Observing leaves the channels, their tables and the payload description "
    "as they were.",
    ["histories"], "every sequence of observations up to a length, over a menu "
    "of targets (good, repeated, failing) and payloads sharing one process",
    "the tests observe one target once with freshly built channels; leaks "
    "need a particular earlier observation",
    [T + "targetHandler.py", M + "instruments/instrument.py",
     T + "foregroundHandler.py", "exorad/utils/util.py"],
    [("observation of one target", T + "targetHandler.py"),
     ("foregrounds and sky transmission kept on the target",
      T + "foregroundHandler.py"),
     ("merging of the channel tables", "exorad/utils/util.py")],
    "stateless model checking: all observation histories up to a depth, "
    "replayed from scratch in forked processes, against a fresh-process "
    "oracle",
    "exhaustive over the listed operations and depth; targets and payloads "
    "are small ones (two channels, working resolution 40-80)")
prop(
    "P02", "A parallel run equals the serial run",
    "Observing a target list with any number of workers, and whatever the "
    "order in which the workers start and finish, returns the same targets in "
    "the same order, with the same tables and metadata, as the serial run; a "
    "pipeline run in parallel writes the same results in its output file.",
    ["schedules"], "every completion order of up to 4 jobs over 1-4 workers, "
    "with failing targets among them, and repeated names of workers",
    "the operating system picks one completion order in a test run, and the "
    "tests use only one worker",
    [T + "targetHandler.py", "exorad/exorad.py"],
    [("distribution of the targets over the workers",
      T + "targetHandler.py"),
     ("collection of the results", T + "targetHandler.py")],
    "controlled scheduler: all start/finish orders of a pool of workers with "
    "pickled arguments and results, plus runs with the real process pool",
    "the pool is replaced by a scheduler with the same contract (each job in "
    "its own forked process on pickled copies); free-running pool runs only "
    "confirm the contract")
prop(
    "P03", "A target that cannot be observed never affects the others",
    "A target which cannot be observed, because a star parameter is missing "
    "or its source cannot be loaded, is left out of the results and of the "
    "output file; every other target of the list is observed, in list order, "
    "with the same result as if the failing ones were not in the list. The "
    "run itself completes, in serial and in parallel mode.",
    ["fault_sequences"], "every subset and position of failing targets in "
    "lists of up to 4 targets, with each kind of failure, serial and parallel",
    "the test lists contain only complete targets",
    [T + "targetHandler.py", T + "loadSource.py", "exorad/exorad.py"],
    [("skipping of failing targets", T + "targetHandler.py"),
     ("completeness of the star parameters", T + "loadSource.py")],
    "fault enumeration by model checking: every placement of failing targets, "
    "real pipeline run on each",
    "failures are those listed (missing values, missing stellar model "
    "directory or file, errors raised by the source)")
prop(
    "P04", "What is stored in an output file is read back unchanged",
    "Every dictionary of numbers, booleans, strings, lists, arrays, "
    "quantities, tables and spectra, nested to any depth and written to an "
    "output file, is read back with the same keys in the same order, the same "
    "values, strings in full, the same units and the same tables, also when "
    "other groups were written in the file before or after. Values which "
    "cannot be stored are refused with an error.",
    ["inputs", "histories"], "every nesting of every kind of value up to a "
    "depth, and every sequence of up to three writes and reopenings",
    "the tests write a few dictionaries and do not read all of them back",
    ["exorad/output/hdf5/hdf5.py", "exorad/output/hdf5/util.py",
     "exorad/output/output.py"],
    [("writing of each kind of value", "exorad/output/hdf5/util.py"),
     ("reading of groups", "exorad/output/hdf5/util.py")],
    "bounded exhaustive enumeration of stored values and write histories "
    "against a plain dictionary model",
    "keys are valid group names; masked tables and object arrays excluded")
prop(
    "P05", "A payload loaded from an output file equals the described one",
    "The payload and channels loaded from an output file, where a run or the "
    "payload preparation stored them, report the same channel tables, "
    "wavelength range and channels in the same order as those built from the "
    "payload description, and observing any target with them gives the same "
    "columns, units, values and metadata.",
    ["configurations"], "every combination of channel kinds, optical "
    "elements, slits, foregrounds, custom noises, resolutions and units of a "
    "small menu",
    "the tests load one stored payload and do not observe with it",
    [T + "instrumentHandler.py", M + "instruments/instrument.py",
     "exorad/output/hdf5/util.py"],
    [("loading of stored channels", T + "instrumentHandler.py"),
     ("writing of built channels", M + "instruments/instrument.py")],
    "bounded exhaustive enumeration of payload configurations, differential "
    "between built and reloaded channels",
    "payloads with up to two channels and three foregrounds")
prop(
    "P06", "A payload description is read faithfully",
    "Every element of a payload description keeps its attributes, its nested "
    "elements and its text, read as an integer, a number, a boolean or a "
    "string, with the unit it declares; elements repeated under the same "
    "parent are all kept in file order, and named ones are found by name. The "
    "configuration-path placeholder is replaced by the path in force (the one "
    "given at run time, otherwise the one in the file) and data files are "
    "read with their columns and units; a missing file or one that is not a "
    "payload description is refused with an error.",
    ["inputs"], "every small document over a menu of tags, texts, units, "
    "repetitions and nestings, every kind of data file and path setting",
    "the tests parse two fixed files",
    [T + "loadOptions.py"],
    [("document parser", T + "loadOptions.py"),
     ("data file reader", T + "loadOptions.py")],
    "bounded exhaustive enumeration of documents against an independent "
    "reading of the same document",
    "documents up to depth 3 with up to 4 siblings; texts from a menu")
prop(
    "P07", "A task result depends on its inputs only",
    "The result of reading a payload description, building its channels, "
    "loading a target list, listing channels or observing depends on the "
    "given inputs only: task objects used before on other files, with other "
    "configuration paths, working resolutions or channels, give the same "
    "results as new ones in a new process, also after calls that failed. "
    "Results returned earlier are not changed by later calls.",
    ["histories"], "every sequence of task calls up to a length over two "
    "payload files, two target lists and failing calls, on shared task "
    "objects",
    "each test makes new task objects and calls them once",
    [T + "task.py", T + "loadOptions.py", T + "instrumentHandler.py",
     "exorad/utils/passVal.py"],
    [("task inputs and outputs", T + "task.py"),
     ("configuration path", T + "loadOptions.py"),
     ("working resolution", "exorad/utils/passVal.py")],
    "stateless model checking: all call sequences up to a depth on shared "
    "task objects, against results of fresh processes",
    "two payload descriptions and two target lists")
prop(
    "P08", "Light crosses the optical elements in the listed order",
    "The transmission of a channel is, at each wavelength, the product of the "
    "transmissions of all the common elements and of the channel's own "
    "elements; the thermal emission of an element reaching the detector is "
    "its emissivity times the black body at its temperature times the "
    "transmissions of the elements after it only, common elements coming "
    "before those of the channel, also where elements of the two have the "
    "same name. The transmission and quantum efficiency "
    "listed in the channel table are those in each spectral bin.",
    ["configurations"], "every order and combination of a menu of elements "
    "(constant, band-limited, tabulated, non-emitting, boxes, slits) split "
    "between the common and the channel optics",
    "the tests compare one fixed optical chain, whose elements share the same "
    "transmission",
    [M + "optics/opticalPath.py", M + "optics/opticalElement.py",
     M + "instruments/instrument.py"],
    [("optical chain", M + "optics/opticalPath.py"),
     ("element properties", M + "optics/opticalElement.py"),
     ("transmission in the channel", M + "instruments/instrument.py")],
    "bounded exhaustive enumeration of optical chains against a reference "
    "model",
    "chains up to 4 elements; working resolution 40")
prop(
    "P09", "Thermal signal uses the right solid angle, window and slit",
    "The thermal signal of an optical element in a channel is its emission "
    "reaching the detector, integrated over the pixel area, quantum "
    "efficiency and wavelength, over the solid angle given for the element, "
    "otherwise pi for the detector box, pi minus the telescope beam for the "
    "optics box and the beam for any other element, and over the window of "
    "the spectral bin. Light that crosses a slit after the element is "
    "dispersed, smeared over the slit width and summed in the bin, while "
    "elements after the slit are not; the reported instrument signal and "
    "maximum signal per pixel are the sums over the elements.",
    ["configurations"], "every combination of element type, solid angle, "
    "position relative to the slit, slit width, focal ratios, pixel size, "
    "spectral resolution and window setting of a menu, in both kinds of "
    "channel",
    "the tests check the sum of fixed contributions of one payload",
    [M + "optics/opticalPath.py", "exorad/utils/diffuse_light_propagation.py",
     "exorad/utils/exolib.py"],
    [("signal of the elements", M + "optics/opticalPath.py"),
     ("integration and slit", "exorad/utils/diffuse_light_propagation.py"),
     ("solid angle of the beam", "exorad/utils/exolib.py")],
    "bounded exhaustive enumeration of payload configurations against a "
    "reference model",
    "slits narrower than the detector; working resolution 40-80")
prop(
    "P10", "Spectral bins tile the channel band at the requested resolution",
    "A photometer has one bin, its band. A spectrometer with a given "
    "resolving power has contiguous bins, starting at the lower edge of the "
    "band, each as wide as its lower edge divided by the resolving power, "
    "until the band is covered and not further; with native resolution there "
    "is one bin per pixel, in order of wavelength, with the width sampled by "
    "the pixel, and with a tabulated resolving power the bins follow the "
    "table and end at or beyond the band edge, a short last bin being merged.",
    ["configurations"], "every combination of band, resolving power, pixel "
    "size, wavelength solution (either direction, curved or straight), "
    "tabulated resolution and band of a whole number of pixels of a menu",
    "the tests check one band with one resolving power",
    [M + "instruments/spectrometer.py", M + "instruments/photometer.py"],
    [("bins of the spectrometer", M + "instruments/spectrometer.py"),
     ("bin of the photometer", M + "instruments/photometer.py")],
    "bounded exhaustive enumeration of band and resolution settings against "
    "tiling invariants and a reference model",
    "wavelength solutions are monotone")
prop(
    "P11", "Star signals follow from the stellar flux and the efficiencies",
    "The flux of a star in a spectral bin is its flux density integrated over "
    "the bin (for a photometer whose edges are not forced, over the whole "
    "wavelength range of the payload); its signal is the telescope area times the flux density times "
    "transmission times quantum efficiency divided by the photon energy, "
    "integrated over the same range. The signal in the aperture is the signal times "
    "the aperture correction, otherwise the encircled energy, otherwise "
    "unchanged, and the maximum signal in a pixel is the signal times the "
    "largest pixel fraction of the image (photometer) or the largest pixel "
    "of the dispersed image in the bin (spectrometer).",
    ["configurations"], "every combination of star, telescope area, aperture "
    "setting, image quality, quantum efficiency, transmission and resolution "
    "of a menu, in both kinds of channel",
    "the tests compare a few totals of one target",
    [M + "instruments/photometer.py", M + "instruments/spectrometer.py",
     M + "instruments/instrument.py", T + "propagateLight.py"],
    [("photometer signals", M + "instruments/photometer.py"),
     ("spectrometer signals", M + "instruments/spectrometer.py")],
    "bounded exhaustive enumeration of targets and payload configurations "
    "against a reference model",
    "black-body and tabulated sources; working resolution 80")
prop(
    "P12", "Each foreground is seen through those in front of it",
    "Foregrounds are listed from the farthest to the nearest: the signal of "
    "each one is its radiance times the transmissions of the foregrounds in "
    "front of it only, times the channel transmission, collected over the "
    "beam, pixel area, quantum efficiency, window and slit of the channel. "
    "The star is seen through all of them, and the listed foreground "
    "transmission is their product in each bin; one foreground, several, or "
    "none give the corresponding columns and no others.",
    ["configurations"], "every list of up to three foregrounds (with and "
    "without transmission, in every order), with and without slit, in both "
    "kinds of channel",
    "the tests propagate one foreground list through one channel",
    [T + "foregroundHandler.py", M + "foregrounds/skyForegrounds.py",
     M + "instruments/instrument.py"],
    [("foreground list", T + "foregroundHandler.py"),
     ("propagation through the channel", M + "instruments/instrument.py")],
    "bounded exhaustive enumeration of foreground lists against a reference "
    "model",
    "foreground names are distinct; working resolution 80")
prop(
    "P13", "The noise budget follows from the signals and the detector",
    "Saturation time is well depth over the maximum signal in a pixel, the "
    "sum of all contributions; frame time is the one given, otherwise the "
    "given fraction of the shortest saturation time in the channel, and the "
    "number of reads sets the read and shot noise gains, with at least two "
    "reads. Total noise, relative to the star signal in the aperture and for "
    "one hour, is the root sum of squares of dark current, read noise and "
    "all photon noises (raised by the channel's margin), and every custom "
    "noise of the payload and of the channel, constant or tabulated; a null "
    "star signal gives no number.",
    ["configurations"], "every combination of detector settings, margins, "
    "read schemes, custom noises (none, one, several, common and channel, "
    "constant and tabulated) and signals of a menu, and repeated estimates",
    "the tests check the gains and a few columns of one payload",
    [M + "noise.py", T + "noiseHandler.py", T + "targetHandler.py"],
    [("noise terms", M + "noise.py"),
     ("noise in a channel", T + "noiseHandler.py"),
     ("maximum signal", T + "targetHandler.py")],
    "bounded exhaustive enumeration of detector and noise settings against a "
    "reference model",
    "signals come from the real propagation or from a small table")
prop(
    "P14", "Resampling a spectrum is an average or an interpolation",
    "Resampling on a new wavelength grid gives the mean of the samples in "
    "each cell where the samples are denser than the new grid, and linear "
    "interpolation between the bracketing samples otherwise, zero outside of "
    "the sampled range. It does not depend on the order of the samples, "
    "duplicated samples or samples without coordinate; it keeps the unit, "
    "never leaves the range of the samples, never changes its inputs and "
    "never mixes different length units.",
    ["inputs"], "every pair of grids, order of samples, value shape, unit, "
    "duplication and missing coordinate of a menu, all permutations of up to "
    "5 samples",
    "the tests check two pairs of sorted grids",
    ["exorad/utils/exolib.py", M + "signal.py"],
    [("resampling", "exorad/utils/exolib.py"),
     ("resampling of a signal", M + "signal.py")],
    "bounded exhaustive enumeration of grids and sample orders against a "
    "reference definition",
    "grids of up to 1781 points; no two samples with one coordinate and "
    "different values")
prop(
    "P15", "Spectra have consistent units and sizes",
    "A spectrum always holds its wavelengths in micron, its times in hours "
    "and its values in the unit of its kind: quantities and table columns "
    "are converted, bare numbers are taken as already converted, and values "
    "in units that cannot be converted are refused with an error. "
    "Wavelengths, times and values of inconsistent sizes or too many axes are "
    "refused; a time-dependent spectrum is recognised as such.",
    ["inputs"], "every combination of kind of spectrum, container, unit and "
    "shape of wavelengths, values and times of a menu",
    "the tests check a few units and shapes",
    [M + "signal.py", M + "noise.py"],
    [("unit conversion", M + "signal.py"), ("size checks", M + "signal.py")],
    "bounded exhaustive enumeration of units and shapes against a reference "
    "predicate",
    "up to 3 axes, sizes up to 3")
prop(
    "P16", "Target lists are read faithfully in every format",
    "Loading a target list from a comma-separated file (either column "
    "convention), a table or a spreadsheet gives one target per row, in "
    "order, named after its planet when the list has planets and after its "
    "star otherwise, with every star and planet parameter with its value and "
    "unit and without mixing rows or columns, wherever the columns are "
    "placed. Searching by name finds the targets whose star or planet name "
    "contains the text, ignoring case, spaces and dashes; unknown formats "
    "are refused with an error.",
    ["inputs"], "every format, subset and order of columns, unit, missing "
    "value and number of rows of a menu",
    "the tests load one file per format and look at a few values",
    [M + "targetlist.py", T + "targetHandler.py", M + "target.py"],
    [("readers", M + "targetlist.py"),
     ("choice of the reader", T + "targetHandler.py")],
    "bounded exhaustive enumeration of target lists against a plain row model",
    "up to 3 targets; names from a menu")
prop(
    "P17", "The stellar spectrum is the requested one, scaled to the target",
    "A target gets a black body at its temperature, the stellar model nearest "
    "in temperature, gravity and metallicity (a black body if its temperature "
    "is out of the models' range), or the given tabulated spectrum, as "
    "requested in any letter case, scaled by the squared ratio of radius to "
    "distance and sampled over the requested wavelength range at the working "
    "resolution. Luminosity, model name and star parameters are reported with "
    "the target; a missing parameter, or a missing model directory, is "
    "refused with an error.",
    ["inputs"], "every source kind, star, missing parameter, order and unit "
    "of the wavelength range, and set of model files of a menu",
    "the tests load one star of each kind",
    [M + "source.py", T + "loadSource.py", M + "target.py"],
    [("source selection", T + "loadSource.py"),
     ("spectrum readers", M + "source.py")],
    "bounded exhaustive enumeration of sources, stars and model sets against "
    "a reference model",
    "stellar model files are small synthetic ones in the documented format")
prop(
    "P18", "Results do not depend on the units used in the inputs",
    "Writing any quantity of the payload description, its data files or the "
    "target list in another unit of the same kind (lengths, times, areas, "
    "angles, temperatures, distances, masses, detector rates) gives the same "
    "channel tables, signals and noises.",
    ["inputs"], "every quantity of a payload and target, one and two at a "
    "time, in every alternative unit of a menu, and every part of a payload "
    "whose ranges, bands and files all end at the same wavelengths",
    "the tests use one unit for each quantity",
    [M + "instruments/instrument.py", M + "instruments/spectrometer.py",
     M + "instruments/photometer.py", M + "noise.py",
     M + "optics/opticalElement.py", M + "signal.py"],
    [("unit conversions", M + "utils.py"),
     ("channel builders", M + "instruments/spectrometer.py")],
    "bounded exhaustive enumeration of unit substitutions, differential "
    "against the default units",
    "at most two substitutions at a time; relative tolerance 1e-6")
prop(
    "P19", "Looking for a new version never stops the program",
    "Importing the package and looking for a new version complete whatever "
    "the network answers: no network, refused or reset connections, time-outs "
    "at any step, error codes, malformed or incomplete answers. A newer "
    "published version is reported with the changes since the current "
    "version, and raises an error only when the check is explicitly forced; "
    "the current version is never reported as new.",
    ["fault_sequences"], "every fault at every network step and every "
    "published changelog of a menu, with and without the forced check",
    "the tests need a network and see one answer",
    ["exorad/utils/version_control.py", "exorad/__init__.py"],
    [("version check", "exorad/utils/version_control.py")],
    "fault enumeration by model checking: every environment answer at every "
    "network call",
    "network faults are raised at the connection and at the request, the two "
    "calls the check makes")
prop(
    "P20", "Merging tables loses and invents nothing",
    "Stacking tables keeps every row in order and every value and unit; a "
    "column missing from one of the tables is filled with zeros in the unit "
    "it has in the others, and the stacked tables are not changed. Updating a "
    "target's table replaces the columns that are given again, keeps the "
    "others, and adds the metadata; the maximum signal in a pixel is the sum "
    "of all its contributions at each row, however often it is estimated.",
    ["inputs", "histories"], "every list of up to 3 tables over a menu of "
    "column sets, units, row numbers and orders; every sequence of up to 3 "
    "updates",
    "the tests stack one pair of tables",
    ["exorad/utils/util.py", T + "targetHandler.py"],
    [("stacking", "exorad/utils/util.py"),
     ("update", T + "targetHandler.py")],
    "bounded exhaustive enumeration of tables and update sequences against a "
    "dictionary-of-columns model",
    "columns are numeric except the channel names, which all tables have")
prop(
    "P21", "A run replaces its output only, and never its inputs",
    "A run writes a new output file in which nothing of an older file with "
    "the same name survives, creates the missing output directories, and "
    "leaves a copy of the input files beside the output; inputs in any place, "
    "including the output directory, are never changed or deleted. A run "
    "whose inputs are missing or whose output is one of its inputs stops "
    "before anything is deleted.",
    ["histories", "configurations"], "every placement of payload, target list "
    "and output, every state of the output before the run, every sequence of "
    "up to three runs",
    "the tests run the pipeline without output file or once",
    ["exorad/exorad.py", "exorad/output/hdf5/hdf5.py"],
    [("pipeline", "exorad/exorad.py"),
     ("output file", "exorad/output/hdf5/hdf5.py")],
    "stateless model checking of run histories on a scratch file system "
    "against a file-system model",
    "runs are not interrupted; single user")
prop(
    "P22", "Zodiacal light is scaled by the factor or the map position",
    "Zodiacal radiance is the documented sum of a scattered and a thermal "
    "black body times a factor: the coefficient of the map position nearest "
    "to the target, across the zero of right ascension as well, when the map "
    "is requested and the target has coordinates; otherwise the given factor; "
    "zero if neither is available. A map that cannot be read falls back to "
    "the given factor, and a custom map is used when given and readable.",
    ["inputs"], "every description (map on or off, custom, missing or broken "
    "map, factor or not), target coordinates on a grid of the sky and in any "
    "angle unit",
    "the tests look at one direction of the sky",
    [M + "foregrounds/zodiacalForeground.py", T + "foregroundHandler.py"],
    [("zodiacal model", M + "foregrounds/zodiacalForeground.py"),
     ("map look-up", M + "foregrounds/zodiacalForeground.py")],
    "bounded exhaustive enumeration of descriptions and directions against a "
    "reference model",
    "distance in the map is measured in coordinate differences, as "
    "documented by the existing results")
prop(
    "P23", "Plotting draws exactly the selected targets",
    "The plotting command draws one figure per selected target, named after "
    "it, and no other: all targets by default, those at the positions given "
    "as single numbers, lists, ranges with both ends included, or none, "
    "counted from zero in the order of the target list, or the one with the "
    "given name. Giving both a selection and a name, or a malformed "
    "selection, draws nothing and is refused.",
    ["inputs"], "every selection text of a grammar up to a length, every "
    "target name, over target lists in and out of alphabetical order",
    "the tests draw one table",
    ["exorad/utils/plotter.py", "exorad/utils/util.py"],
    [("command", "exorad/utils/plotter.py"),
     ("range parser", "exorad/utils/util.py")],
    "bounded exhaustive enumeration of command lines against a set model",
    "of the contents of a figure, the title and one curve are compared")
prop(
    "P24", "The logging level chosen by the user is kept",
    "The level chosen for messages on screen holds until it is chosen again: "
    "silencing messages during a run shows errors only (nothing below the "
    "chosen level), and enabling them again restores the chosen level, for "
    "any nesting and repetition; running the pipeline, with or without "
    "failing targets, leaves the level as it was. A log file receives every "
    "message while the level on screen is left alone. Of several processes "
    "under MPI only the first shows messages below errors.",
    ["histories"], "every sequence up to length 5 of choosing a level, "
    "silencing, enabling, adding a log file and observing",
    "the tests emit messages at one level",
    ["exorad/log/__init__.py", "exorad/log/logger.py",
     T + "targetHandler.py"],
    [("level functions", "exorad/log/__init__.py"),
     ("silencing during observations", T + "targetHandler.py")],
    "explicit-state search over the logging operations against a level "
    "automaton, replayed on the implementation",
    "messages are emitted through the package loggers on the screen handler")
prop(
    "P25", "Images and apertures describe the given optics",
    "The detector image of a point source is the given image (or the Airy "
    "image of the focal ratios) at the wavelength, convolved with the pixel, "
    "with the nearest image in wavelength picked from a directory and images "
    "at intermediate wavelengths interpolated, or extrapolated beyond, where the "
    "format provides them. The columns of the image are x and the rows y, "
    "each with its own sampling and focal ratio. The directory may be "
    "written with or without a trailing slash. An aperture requested by encircled energy is, to one step of the scan of "
    "radii (one pixel of a given image, one F-lambda otherwise), the smallest "
    "that contains that energy; it grows with the request and sets the window "
    "of the channel; an aperture given by radius is used as given.",
    ["inputs"], "every image format, size, square or "
    "not, centring, sampling in x and y, wavelength, focal "
    "ratio, pixel size and requested energy of a menu",
    "the tests build one image of each kind",
    ["exorad/utils/exolib.py", M + "instruments/photometer.py",
     M + "instruments/spectrometer.py"],
    [("images", "exorad/utils/exolib.py"),
     ("aperture", "exorad/utils/exolib.py"),
     ("window", M + "instruments/photometer.py")],
    "bounded exhaustive enumeration of images and apertures against a "
    "reference model",
    "images are centred on the source and sampled alike on both axes; "
    "aperture radii are interpolated between unit steps of the scanned "
    "radius, as in the implementation")
prop(
    "P26", "Band edges are forced only when requested",
    "When the payload forces the channel band edges no star, foreground or "
    "transmission is counted outside of the channel band, the edges "
    "themselves belonging to it; when the option is off or not given nothing "
    "is cut. Other channels are not affected, and thermal emission is never "
    "cut by this option.",
    ["configurations"], "every value of the option, bands inside, beyond and "
    "at the edges of the detector and payload ranges, all of these coinciding "
    "with the data files, both kinds of channel, one and two channels",
    "the tests use the option in one payload with wide margins",
    [M + "instruments/instrument.py", M + "instruments/photometer.py",
     M + "instruments/spectrometer.py"],
    [("option", M + "instruments/instrument.py"),
     ("transmission in band", M + "instruments/instrument.py")],
    "bounded exhaustive enumeration of bands and option values against a "
    "reference model and a differential with the option off",
    "working resolution 80")
prop(
    "P27", "Full-contribution output only breaks the thermal signal down",
    "The full-contribution mode replaces the instrument signal by the signal "
    "of each emitting element, in every channel; these sum up to the "
    "instrument signal of the ordinary mode, and every other column, the "
    "total noise included, is the same as in the ordinary mode.",
    ["configurations"], "every combination of emitting elements, shared and "
    "not shared by the channels, slits, foregrounds and custom noises of a "
    "menu, in both modes",
    "the tests never run the full-contribution mode against the ordinary one",
    ["exorad/exorad.py", M + "optics/opticalPath.py", M + "noise.py"],
    [("full contribution mode", "exorad/exorad.py"),
     ("signal columns", M + "noise.py")],
    "bounded exhaustive enumeration of payload configurations, differential "
    "between the two modes",
    "runs through the pipeline with an output file")
prop(
    "P28", "The output file reports exactly what was observed",
    "The output file of a run holds, for every observed target and no other, "
    "in list order, the target table with the same columns, units, values and "
    "metadata as the observation, the star parameters and spectrum, and its "
    "foregrounds; it also holds the payload and the channel tables, and says "
    "which program and version wrote it. Plots, number of threads, logging and "
    "debugging options do not change the content. A payload loaded from a "
    "previous output gives the same targets and no payload group. The command "
    "line gives the same file as the corresponding call.",
    ["configurations"], "every combination of run options, payloads, target "
    "lists (file or table) and target names of a menu",
    "the tests write one target and do not compare it",
    ["exorad/exorad.py", M + "target.py", "exorad/output/hdf5/hdf5.py"],
    [("pipeline", "exorad/exorad.py"), ("target writer", M + "target.py"),
     ("output file", "exorad/output/hdf5/hdf5.py")],
    "bounded exhaustive enumeration of runs, differential between the file "
    "and the observation",
    "target names are distinct and valid group names")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            anchors = {"files": p["files"],
                       "mechanism": [{"name": n, "where": w}
                                     for n, w in p["mechanism"]]}
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": anchors,
            }) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks",
                                       p["id"].lower() + ".py")):
            cmd = "/opt/venv/bin/python -B /verif/run.py %s " % p["id"]
            checks.append({
                "property": p["id"], "quick_cmd": cmd + "quick",
                "thorough_cmd": cmd + "thorough",
                "technique": "model checking: " + p["technique"],
                "level": "model_checking",
                "level_note": "Exhaustive within the stated bounds, on the "
                "real code. Bounds and trust: " + p["note"] + ".",
            })
        else:
            na.append({"property": p["id"],
                       "reason": "its check is not built yet"})
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B /verif/tools/setup.py",
        "checks": checks, "not_applicable": na,
        "notes": "Checks run the code of /repo's working tree in place "
        "(editable python package, nothing is compiled). No hooks in /repo.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not")


main()
