TECH = "explicit TLA+ specification of the system (specs/Fimex.tla), executions of the real library recorded and checked event by event against it with TLC (trace validation), plus exhaustive TLC runs of small models"
NOTE = "Specification-based trace validation: every command of randomly generated histories is executed by the real code and TLC computes from the specification what it must observe; bounded by the number and size of the generated histories."
NOT_APPLICABLE = []
PROPS = [
 dict(id="C01", title="Metadata stay consistent under every history of edits",
  statement="Whatever sequence of additions, removals, replacements and renames of dimensions, variables and attributes is applied to a dataset description, including rejected ones, the description always equals what those operations mean one after the other: names stay unique, attributes follow their variable, shapes follow renamed dimensions, a rejected operation changes nothing, and queries agree with the content. Renaming something that does not exist, or to its own name, changes nothing. A copy is independent of its original.",
  over=["histories", "inputs"], all="all sequences of metadata operations and queries, over all names, types and shapes, on originals and copies",
  why="unit tests apply a few operations to fresh objects; the losses appear only in particular orders (rename onto an existing or the same name, forced removal, edits after a rejected edit)",
  files=["src/CDM.cc", "include/fimex/CDM.h", "src/CDMVariable.cc", "src/CDMAttribute.cc", "src/CDMDimension.cc"],
  mech=[("add/remove/rename of variables, dimensions, attributes", "src/CDM.cc"), ("search by attribute and dimension", "src/CDM.cc findVariables")],
  observe="description of the dataset after each operation"),
 dict(id="C02", title="A sub-block read equals the same block of the whole variable",
  statement="For every reader, variable and requested block, reading the block delivers exactly the elements of the complete variable at those positions, in the variable's order and type; this holds equally for reading one position of the unlimited dimension. A block of size zero is empty, and a request that leaves the variable's range or names an unknown variable is an error, never other data.",
  over=["inputs", "configurations"], all="all datasets (shapes, types, unlimited or not), all storage kinds and all requested blocks",
  why="tests read a few fixed slices of a few files; index arithmetic errors show only for particular combinations of rank, slice position and storage",
  files=["src/CDMReader.cc", "src/SliceBuilder.cc", "src/DataImpl.h", "src/Data.cc", "src/io/netcdf/NetCDF_CDMReader.cc"],
  mech=[("generic slicing", "src/CDMReader.cc getDataSlice"), ("range check", "src/SliceBuilder.cc setStartAndSize"), ("in-memory slicing", "src/DataImpl.h slice")],
  observe="values returned by the reading functions"),
 dict(id="C03", title="Extraction is pure subsetting",
  statement="An extraction presents exactly the selected positions of the source's dimensions, in source order, for every variable, and exactly the kept variables; attributes, types and all untouched dimensions are unchanged, and any block read from the extraction equals the corresponding elements of the source. Positions refer to the source's dimension and an out-of-range selection is rejected without effect. Extractions of extractions compose, and the source is unaffected.",
  over=["inputs", "histories"], all="all datasets, all sequences of selections (ranges, position sets, start/end, variable selections), nested extractions, all reads",
  why="tests extract one or two contiguous ranges; gaps in the position set combined with unsliced slower dimensions, repeated selections and edge positions are not sampled",
  files=["src/CDMExtractor.cc", "include/fimex/CDMExtractor.h"],
  mech=[("selection", "src/CDMExtractor.cc reduceDimension"), ("splitting and joining of slices", "src/CDMExtractor.cc getDataSlice_")],
  observe="metadata and values of the extractor after each call"),

 dict(id="C05", title="Aggregation presents each source's data exactly once",
  statement="Joining sources along their unlimited dimension concatenates, in source order, every variable on that dimension; joining along a new dimension gives one position per source; a union takes every variable from the first source that has it. Where a source cannot contribute to a joined variable, fill values of the right count stand in; nothing is shifted, dropped or taken from another source, for whole reads, blocks and single positions alike. The result is the same for readers added directly, files listed in an NcML document and files found by a scan.",
  over=["inputs", "configurations"], all="all lists of sources (with differing variables, shapes, lengths), all aggregation types, all ways of naming the sources, all reads",
  why="tests join two or three identical files; the errors need sources that differ (missing variables, other lengths, no unlimited dimension) and reads that cross or avoid source boundaries",
  files=["src/CDMReaderUtils.cc", "src/NcmlAggregationReader.cc", "src/AggregationReader.h", "src/AggregationReader.cc", "src/JoinExistingReader.cc", "src/JoinNewReader.cc", "src/UnionReader.cc"],
  mech=[("position to source mapping", "src/AggregationReader.cc, *Reader.cc"), ("NcML aggregation element", "src/NcmlAggregationReader.cc")],
  observe="metadata and values of the aggregation"),
 dict(id="C06", title="NcML reconfiguration changes exactly what the document says",
  statement="A dataset seen through an NcML document equals the source with the removals, renamings, shape, type, data and attribute changes of the document applied, in that order, and nothing else changed: every variable still delivers its own data, whatever names were exchanged. A changed type keeps physical values and missing values. An inconsistent document is rejected.",
  over=["inputs", "configurations"], all="all datasets, all documents built from the supported elements, all reads",
  why="tests use one document; chains and swaps of renamings, changes combined on one variable and data held in memory are not sampled",
  files=["src/NcmlCDMReader.cc", "include/fimex/NcmlCDMReader.h"],
  mech=[("metadata changes", "src/NcmlCDMReader.cc init*Change"), ("data access under changed names, shapes and types", "src/NcmlCDMReader.cc getDataSlice")],
  observe="metadata and values of the reconfigured reader"),
 dict(id="C07", title="Accumulation and de-accumulation are exact and position-independent",
  statement="Accumulating a variable delivers at each time the sum of all its values up to then, de-accumulating the difference to the time before, for every way and order of reading, and repeated reads agree. The two undo each other up to undefined values, variables without the unlimited dimension are unchanged, and the source's own data are never altered.",
  over=["inputs", "histories"], all="all datasets with missing values, all chains of processing, all sequences of position and block reads",
  why="tests read positions once in ascending order; caches make the result depend on the history of reads",
  files=["src/CDMProcessor.cc", "include/fimex/CDMProcessor.h"],
  mech=[("running totals with cache", "src/CDMProcessor.cc getDataSlice")],
  observe="values of the processor and of its source after arbitrary reads"),
 dict(id="C13", title="Packing, missing values and units preserve physical values",
  statement="Scaled reads deliver raw value times scale factor plus offset, converted linearly to the requested unit, and undefined exactly where the raw value is the variable's missing value. Storing physical values in another packing gives the nearest representable value, rounding halves away from zero, and maps missing to missing, for every pair of types. Inconvertible units and ill-typed fill values are errors.",
  over=["inputs", "configurations"], all="all element types on both sides, all values representable in the target, all fill values, scale factors, offsets and unit pairs",
  why="tests convert a handful of values between two or three types; there are a hundred type pairs, and edge values (fill, NaN, halves, 64 bit) matter in each",
  files=["src/DataImpl.h", "src/Data.cc", "include/fimex/Utils.h", "include/fimex/UnitsConverter.h", "src/Units.cc", "src/CDMReader.cc", "src/CDM.cc"],
  mech=[("conversion of type, scale, offset, fill", "src/DataImpl.h, include/fimex/Utils.h ScaleValue"), ("missing values and default fill", "src/CDM.cc getFillValue"), ("unit conversion", "src/Units.cc")],
  observe="values returned by scaled reads and by Data::convertDataType"),
 dict(id="C10", title="Time interpolation is exact at old times and linear in between",
  statement="After the time axis is changed by a time specification, the axis holds exactly the specified times (lists, '...' continuation, times relative to the first or last original time) in the requested unit, and every time-dependent variable has, at a time equal to an original one, the original values, between two originals the linear interpolation, and up to one interval beyond the ends the linear extrapolation, undefined farther away. Missing values never enter a computed number, types and all other variables are unchanged, and a malformed specification is rejected without effect. Changing the axis again starts from the original times.",
  over=["inputs", "histories"], all="all time axes and units, all time specifications, all variables with missing values, repeated changes, all reads",
  why="tests interpolate one file to one list of times and look at the axis only; values, missing values, unsorted lists and repeated changes are never compared",
  files=["src/CDMTimeInterpolator.cc", "src/TimeSpec.cc", "include/fimex/TokenizeDotted.h", "src/TimeUnit.cc", "src/interpolation.c"],
  mech=[("mapping of new times to old times", "src/CDMTimeInterpolator.cc changeTimeAxis"), ("parsing of time lists", "src/TimeSpec.cc"), ("linear interpolation", "src/interpolation.c mifi_get_values_linear_weak_extrapol_f")],
  observe="time axis, metadata and values of the time interpolator"),
 dict(id="C14", title="Horizontal interpolation delivers the method's value at each new grid point",
  statement="After a change of the horizontal grid, to axes in the same or another representation, to a list of points or to a template, each variable on the old grid has at each new point exactly the value the chosen method (nearest neighbour, bilinear, bicubic) defines from the old grid cells around the point's position, on ascending and descending axes and across the wrap of a global longitude axis. Undefined cells and points outside give the fill value, never a number; layers, times and other variables keep their places and values; metadata describe the new grid; variables on half a grid are dropped. Blocks equal the part of a whole read, and changing again starts from the original data.",
  over=["inputs", "histories"], all="all monotonous axes, all new axes and points inside, on and outside the old grid, all element types, methods, missing values, and blocks",
  why="tests interpolate one file and compare single points; borders, wraps, descending axes, blocks of the result and repeated changes are not sampled",
  files=["src/CDMInterpolator.cc", "src/CachedInterpolation.cc", "src/interpolation.c", "include/fimex/CDMInterpolator.h"],
  mech=[("position of a coordinate on an axis", "src/interpolation.c mifi_points2position"), ("value at a position", "src/interpolation.c mifi_get_values_*"), ("reduced domain and slicing", "src/CachedInterpolation.cc"), ("metadata of the new grid", "src/CDMInterpolator.cc changeCDM")],
  observe="positions, values and metadata of the interpolator"),
 dict(id="C12", title="A dataset written to NetCDF and read again is the same dataset",
  statement="Writing any dataset (numbers and, in netCDF-4, lists of texts) representable in the chosen NetCDF flavour (3, 64 bit, 4, 4 classic; any compression and chunking) and opening the file gives the same dimensions, variables, types, attributes and values, also over an existing file and for a copy of a copy. Changes asked for by the writer configuration (renamed or removed dimensions, variables and attributes, new types, packing and units) appear in the file, with the physical values of the data kept to the nearest representable value and missing kept missing. What cannot be stored is an error.",
  over=["inputs", "configurations"], all="all datasets, types, missing values, flavours and writer configurations, with and without an unlimited dimension, renamed or not",
  why="tests write two fixed files without configuration; combinations of rename, type, scale, unit and fill changes are never read back",
  files=["src/io/netcdf/NetCDF_CDMWriter.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "src/io/netcdf/NetCDF_Utils.cc", "src/CDMFileReaderFactory.cc"],
  mech=[("writer configuration", "src/io/netcdf/NetCDF_CDMWriter.cc initRemove, initFillRenameDimension, initFillRenameVariable"), ("conversion while writing", "src/io/netcdf/NetCDF_CDMWriter.cc convertData"), ("reading back", "src/io/netcdf/NetCDF_CDMReader.cc")],
  observe="metadata and values read from the written file"),
 dict(id="C26", title="A failed write or read is reported, never taken for success",
  statement="If any write to a NetCDF file or NcML document fails, once or from then on (disk full, at data, synchronisation or close), or the source of the data fails, the writer throws; a writer that returned has left a complete file. A read that fails below likewise throws or delivers the right values. Writing works again afterwards.",
  over=["crash points", "inputs"], all="every single failing write or read call, transient or permanent, while writing or reading any dataset in any flavour",
  why="no test injects a fault; there is one behaviour per failing system call",
  files=["src/io/netcdf/NetCDF_CDMWriter.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "src/io/netcdf/NetCDF_Utils.cc", "src/NcmlCDMWriter.cc"],
  mech=[("collecting errors in the parallel writing loop", "src/io/netcdf/NetCDF_CDMWriter.cc writeData"), ("checked close", "src/io/netcdf/NetCDF_CDMWriter.cc init")],
  observe="exceptions, and the content of files whose writing succeeded"),
 dict(id="C17", title="Vertical interpolation delivers the value between the two nearest levels, whatever the vertical coordinate",
  statement="Interpolating to fixed levels, another vertical axis or the levels of a template variable replaces the vertical dimension of every variable on a grid with a vertical coordinate. The levels of a column follow the coordinate's formula (pressure, height, altitude, depth, sigma, hybrid sigma pressure with ap or a and p0, hybrid height, ocean s-coordinates g1 and g2, a field of pressures or geopotential heights, heights above the topography), with units, scaling and missing surface values taken into account, at every point and time. Each result is the linear, logarithmic or nearest value of the two distinct levels around the wanted level, or the two closest outside, with extrapolation as the method says; missing stays missing, valid_min and valid_max bound the result. A wanted kind of level that cannot be computed is an error, not a wrong number; other variables are unchanged.",
  over=["inputs"], all="all columns of levels in any order, vertical coordinates and units, shapes and orders of dimensions, methods, target levels inside, on and outside, missing values, blocks",
  why="tests interpolate a few files to levels and compare single values; combinations of coordinates, extrapolation, order and missing terms are not sampled",
  files=["src/CDMVerticalInterpolator.cc", "src/interpolation.c", "include/fimex/FindNeighborElements.h", "src/coordSys/verticalTransform/", "src/vertical_coordinate_transformations.c", "src/coordSys/CF1_xCoordSysBuilder.cc"],
  mech=[("levels of a column", "src/coordSys/verticalTransform/*Converter.cc getDataSlice"), ("choice of levels", "include/fimex/FindNeighborElements.h find_closest_neighbor_distinct_elements"), ("value between levels", "src/interpolation.c mifi_get_values_linear_f and others"), ("shape and slices", "src/CDMVerticalInterpolator.cc getLevelDataSlice")],
  observe="metadata and values of the interpolating reader"),
 dict(id="C04", title="Extraction by time, level or lat-lon box keeps exactly the coordinates inside",
  statement="Asking the extractor for a time span, a range of levels or a longitude-latitude box, in any unit convertible to that of the axis, restricts the dimension of each axis it concerns to the coordinates inside, ends included (and up to 1% of the first step beyond), whatever the order of the axis and whether longitudes count from -180 or from 0, with boxes across the date line. All data on the dimension are cut at the same places, axes of other kinds and dimensions already cut are untouched; nothing inside gives an empty dimension. An impossible box is an error and leaves the extractor unchanged.",
  over=["inputs", "histories"], all="all axes, units, ranges (open, empty, reversed, partial), boxes, orders of dimensions and sequences of reductions",
  why="tests reduce two files by a box or a time; order of axes, units, ends of ranges, wraps and several axes of a kind are not sampled",
  files=["src/CDMExtractor.cc", "include/fimex/CDMExtractor.h"],
  mech=[("choice of axes and positions", "src/CDMExtractor.cc reduceAxes, reduceTime, reduceVerticalAxis"), ("box", "src/CDMExtractor.cc reduceLatLonBoundingBox")],
  observe="dimensions and values of the reduced reader"),
 dict(id="C08", title="A chain of readers is the composition of its stages, and reading changes nothing",
  statement="Readers built on readers in any order (aggregation, extraction, NcML, accumulation, time, horizontal and vertical interpolation, writing and reading back) deliver exactly what applying the stages one after the other to the data means. What a read delivers depends on the reader's definition only: not on which parts were read before, in which order, how often or through which other readers on the same source, and reading or deriving never changes what the source or any other reader delivers.",
  over=["histories", "inputs"], all="all chains and trees of stages on all datasets, all interleavings of whole, positional and block reads at all stages",
  why="tests read each stage once from fresh files; effects of reading on shared buffers and of stages on each other show only in particular sequences",
  files=["src/CDMReader.cc", "src/CDMExtractor.cc", "src/CDMInterpolator.cc", "src/CDMVerticalInterpolator.cc", "src/CDMTimeInterpolator.cc", "src/CDMProcessor.cc", "src/NcmlCDMReader.cc", "src/NcmlAggregationReader.cc", "src/Data.cc"],
  mech=[("data kept in memory are shared by reads", "src/CDMReader.cc getDataSliceFromMemory"), ("cached coordinates and reduced domains", "src/CDMInterpolator.cc"), ("one stage reads from another", "src/CDMExtractor.cc, src/CDMTimeInterpolator.cc getDataSlice")],
  observe="metadata and values at every stage of a chain"),
 dict(id="C09", title="Quality extraction keeps exactly the values whose status is acceptable",
  statement="The quality extractor delivers each value of a checked variable unchanged where the status variable, in the same dataset or another file, has an acceptable value at that place and time, and the fill value (the variable's or the configured one) elsewhere: acceptable are the listed values with dots expanded, or the valid ones (valid_range, valid_min, valid_max, no fill value), all, up to or from a limit, the highest or the lowest of the slice. A status with fewer dimensions applies to all of the others; a status may be checked itself; statuses found automatically by standard_name give the same, configuration wins. All other variables, metadata and the source are unchanged, and whole, positional and block reads agree. Unusable configurations are errors.",
  over=["inputs", "histories"], all="all variables, statuses, types, shapes, valid ranges, fill values, rules, sources (memory, reader, file) and ways to read",
  why="tests apply one mask to one file and look at two values; other rules (highest, lowest, automatic) are never executed by tests",
  files=["src/CDMQualityExtractor.cc", "include/fimex/TokenizeDotted.h"],
  mech=[("rules", "src/CDMQualityExtractor.cc constructor, getValidValues"), ("application", "src/CDMQualityExtractor.cc getDataSlice"), ("dotted lists", "include/fimex/TokenizeDotted.h")],
  observe="metadata and values of the quality extractor and of its source"),
 dict(id="C11",
      title="Changing a file in place and filling it from another dataset change exactly what they name",
      statement="Writing a slice (stored values, unpacked values, or values in another unit) into a file opened for reading and writing replaces exactly the named block of the named variable and nothing else, growing the unlimited dimension when the block reaches beyond its end (all other variables then hold fill values there); a write whose size or position does not fit fails and changes nothing. Filling a file from another dataset puts each value at the position that has the same coordinate values (appending along the unlimited dimension if the coordinate is new), keeps its physical value when the packing or fill value differs, leaves out variables the file lacks or has in another shape or for which coordinates are not found (reporting the latter as an error), and never changes anything else in the file.",
      over=["inputs", "histories"], all="all files, slices, value types, units, packings and sequences of writes; all pairs of datasets, coordinate overlaps and dimension translations",
  why="tests write one slice and fill two files with one order of coordinates and one packing",
  files=["src/FillWriter.cc", "src/CDMReaderWriter.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "src/SliceBuilder.cc"],
  mech=[("mapping of coordinates, appending, translation", "src/FillWriter.cc"), ("packing on the way out", "src/CDMReaderWriter.cc unscaleDataOf"), ("writing of a block", "src/io/netcdf/NetCDF_CDMReader.cc putDataSlice")],
  observe="metadata and values of the file, through the handle, after sync and after closing"),
 dict(id="C22", title="The C interface shows and changes the same data as the library behind it",
  statement="Through the C interface a program sees exactly the variables, types, dimensions and values the reader has: whole variables, slices along the unlimited dimension and arbitrary blocks (in the order of the dimensions of the variable asked for) are delivered unpacked as doubles, missing values as NaN, converted to the asked unit, never writing beyond the space given; values written are packed, converted and stored where the slice says; NcML changes and files written give what the library gives. A callback set for a variable takes the place of its values (unpacked, double, NaN where missing) in every way of reading, leaves all others and the source as they are, and its failure fails the read. Whatever goes wrong is reported by the return value: nothing is thrown and nothing crashes.",
  over=["inputs", "histories"], all="all readers, variables, slices, units, callbacks and sequences of calls",
  why="tests read one file through the C interface; wrong slices, wrong handles, missing units and callbacks on packed data are never tried",
  files=["src/c_fimex.cc", "src/C_CDMReader.cc", "src/CoordinateSystemSliceBuilder.cc", "include/fimex/mifi_cdm_reader.h"],
  mech=[("wrapping of calls", "src/c_fimex.cc"), ("callbacks", "src/C_CDMReader.cc"), ("slices on coordinate systems", "src/CoordinateSystemSliceBuilder.cc")],
  observe="return values, delivered arrays and metadata; content of files written"),
 dict(id="C24", title="Units of time, dates and their texts denote the same instants",
  statement="For every unit of time '<milliseconds|seconds|minutes|hours|days> since <date>' (any date and time from year 1 in the standard calendar, with or without an offset from UTC) TimeUnit maps every value to the instant value x length after the reference: unitTime2epochSeconds gives its seconds since 1970, unitTime2fimexTime its date and time to the nearest millisecond (seconds 0-59, milliseconds 0-999), and the inverse conversions give the value back; strings which are not units of time are rejected. FimexTime's ==, !=, <, <=, >, >= order times as instants (min_date_time before and max_date_time after all others), toEncoded/fromEncoded preserve time and order, and conversion of dates to time points, epoch seconds and text (extended and compact) and parsing of ISO texts (date, or date and time separated by T or blank, seconds and fraction optional) preserve the time; malformed texts are rejected. getUniqueForecastReferenceTime gives the one instant that all forecast_reference_time variables denote, whatever their units, else the WRF start attribute, and fails if there is none or more than one. Templates %NAME(format,offset)% in configured attributes are each replaced by the formatted time plus their own offset.",
  over=["inputs"],
  all="units of time, values, dates 1583-4095, pairs of dates, texts, datasets with reference times", why="conversions can go wrong at single dates, fractions or units only (leap years, change of calendar, rounding to the next second)",
  files=["src/TimeUnit.cc","src/FimexTime.cc","src/TimeUtils.cc","src/CDM_XMLConfigHelper.cc"], mech=[("decoding and encoding of times", "src/TimeUnit.cc unitTime2fimexTime, fimexTime2unitTime"), ("parsing and order", "src/FimexTime.cc parseISO8601, toEncoded"), ("templates", "src/CDM_XMLConfigHelper.cc replaceTemplateAttribute")],
  observe="values, dates and texts returned by TimeUnit, FimexTime, TimeUtils, getUniqueForecastReferenceTimeFT and replaceTemplateAttribute"),
 dict(id="C23", title="Coordinate systems are those the CF conventions give",
  statement="For a CF dataset listCoordinateSystems gives one system for each distinct set of axes (dimensions and names in the coordinates attribute) of the variables that are not axes themselves. Every axis has the type that standard_name, units, positive and axis (in this order, without regard to case) define; x, y, z and time axis, simple spatial gridding, projection (grid_mapping, or latitude_longitude for plain longitude/latitude grids), vertical transformation (by standard_name and formula_terms, only if the system has the dimensions of all terms) and the set of variables needed follow from them, and a system is 'for' exactly the variables having its axes. CDM's getHorizontalXAxis, getHorizontalYAxis, getVerticalAxis, getTimeAxis, getLatitudeLongitude and getProjectionOf give the same answers, also after the dataset's metadata was changed; the best horizontal systems are the projected (or latitude/longitude) ones, each with the variables on it; components of vectors are paired exactly when their standard names differ in the direction only and their shapes agree.",
  over=["inputs", "histories"], all="all CF datasets, definitions of axes, formulas, and changes of metadata between questions",
  why="interpolation, vertical conversion and aggregation rely on it; tests look at a few files only, and answers are cached",
  files=["src/coordSys/CF1_xCoordSysBuilder.cc", "src/coordSys/CoordinateSystem.cc", "src/coordSys/CoordinateAxis.cc", "src/CDM.cc", "src/CDMVariable.cc"],
  mech=[("types of axes, formulas", "src/coordSys/CF1_xCoordSysBuilder.cc"), ("choice of axes", "src/coordSys/CoordinateSystem.cc"), ("cached answers", "src/CDM.cc enhance")],
  observe="coordinate systems listed, their axes, types, projections and transformations, answers of CDM's getters, pairs of vector components"),
 dict(id="C27", title="PROJ.4 texts and CF grid mappings denote the same projections",
  statement="Projection::createByProj4 gives for every PROJ.4 text of a supported kind (aea, lcc, aeqd, laea, ortho, geos, nsper, cea, merc, omerc, sinu, stere, tmerc, utm with zone, latlong, rotated latlong) the CF grid-mapping attributes that say the same: standard parallels, origin, scale factor (k or k_0), false easting and northing, sweep axis, pole, figure of the earth (a or R with b, e, f or rf, ellps, datum, default a sphere of 6371 km) and towgs84, with full precision; texts of other kinds are kept verbatim, texts without +proj rejected. Projection::create makes the same projection from the attributes in any order (unsupported names are errors; a later radius replaces axes and vice versa), equal to the first by ==; getProj4String gives a text with the same meaning, from which the same attributes come again, and convertFromLonLat gives the coordinates PROJ gives for the original text and is undone by convertToLonLat. replaceProj4Earthfigure replaces all words on the figure of the earth and no others.",
  over=["inputs"], all="all supported kinds, parameters given or left out, orders of words and attributes, figures of the earth",
  why="a parameter lost or changed in one direction misplaces every value of a dataset, silently; tests try a handful of texts",
  files=["src/coordSys/Projection.cc", "src/coordSys/ProjectionImpl.cc", "src/coordSys/LambertConformalConicProjection.cc", "src/coordSys/StereographicProjection.cc", "src/coordSys/RotatedLatitudeLongitudeProjection.cc", "include/fimex/CDMNamedEntity.h"],
  mech=[("attributes from text", "src/coordSys/*Projection.cc parametersFromProj4, ProjectionImpl::proj4GetEarthAttributes"), ("text from attributes", "getProj4ProjectionPart, ProjectionImpl::getProj4EarthString"), ("equality", "ProjectionImpl::toString")],
  observe="attributes, texts and coordinates given by Projection"),
 dict(id="C21", title="Concurrent and forked reading is safe under every schedule",
  statement="Reading several variables or slices of one reader chain from several threads at the same time gives, for every thread, exactly the values a single reader would get, whatever the schedule; a file written with any number of OpenMP threads has the same content. The libraries that are not reentrant are protected: all calls of netCDF are made under one common lock, all calls of udunits (other than freeing a unit) under one common lock, no thread takes a lock it already holds, and locks are never taken in opposite orders. A process forked while readers are open can go on reading through them, in any way of reading, at the same time as its parent and its siblings, and all get the right values.",
  over=["inputs","histories","schedules"], all="every reader chain, every set of concurrent reads, every schedule, every number of writer threads, every fork",
  why="races, deadlocks and shared file offsets depend on schedules which single-threaded tests never take",
  files=["include/fimex/MutexLock.h","src/Units.cc","src/TimeUnit.cc","src/CDMProcessor.cc","src/io/netcdf/NetCDF_CDMReader.cc","src/io/netcdf/NetCDF_CDMWriter.cc","src/io/netcdf/NetCDF_Utils.cc"],
  mech=[("lock around netCDF","src/io/netcdf/NetCDF_Utils.cc Nc::getMutex"),("reopen after fork","src/io/netcdf/NetCDF_Utils.cc Nc::reopen_if_forked"),("lock around udunits","src/Units.cc unitsMutex"),("parallel writing","src/io/netcdf/NetCDF_CDMWriter.cc writeData")],
  observe="values read by threads and by forked children, files written with many threads, locks held when netCDF and udunits are entered"),
 dict(id="C16", title="Filling undefined values keeps every defined value and fills every undefined one with the documented method",
  statement="For every two-dimensional field of any size, including a single row or column, and every pattern of undefined values: filling (Laplace relaxation mifi_fill2d_f, creepfill mifi_creepfill2d_f, creepfillval mifi_creepfillval2d_f) leaves each defined value unchanged to the bit, reports the number of undefined values, leaves a field alone that is undefined throughout, and otherwise leaves no undefined value. Relaxation that may converge gives inner points that are the mean of their four neighbours and, on the border, the value of the point inside, all within the range of the defined values. Creepfill gives each undefined point the repeatedly weighted mean of its already defined neighbours and the mean (or the given default), starting from the defined values with their weight. As pre- or postprocess of an interpolation the filling is applied to each horizontal layer of every slice by itself, before or after the interpolation, in the order the processes were added.",
  over=["fields", "patterns of undefined values", "sizes and borders", "process parameters", "slices"], all="field contents, undefined patterns, sizes, coefficients and processes",
  why="tests fill one or two fields and look at a few values; borders, single rows, layers that are undefined throughout and the sequential weights matter only for particular patterns",
  files=["src/interpolation.c", "src/CDMInterpolator.cc", "include/fimex/interpolation.h", "include/fimex/CDMInterpolator.h"],
  mech=[("relaxation", "src/interpolation.c mifi_fill2d_f"), ("creepfill", "src/interpolation.c mifi_creepfillval2dImpl_f"), ("layers", "src/CDMInterpolator.cc processArray_")],
  observe="the filled field and the reported number; blocks read from an interpolator with processes"),
 dict(id="C18",
  title="Merging an inner with an outer dataset blends them as documented",
  statement="For every pair of an inner (top) and an outer (base) dataset on longitude/latitude grids: an overlay has, for every common compatible variable, the top's value wherever the top is defined and otherwise the base's value interpolated to the top's grid and converted to the top's unit, type and packing (the top's fill value where neither is defined); border smoothing with a transition of t and a border of b points gives the outer's value on the border, the inner's value beyond the transition and a linear blend between them in the transition, keeps the inner value where the outer is undefined, and uses the outer where the inner is undefined exactly if that is requested; a merge is the smoothed inner dataset on the target grid laid over the outer one, the target grid taken from the inner one being the inner axes continued with their step to the ends of the outer axes. Variables without counterpart, or with other non-horizontal dimensions in the counterpart, are left out, outer-only variables are added exactly if requested, variables without horizontal axes and the coordinate axes are those of the inner dataset; units that cannot be converted give an error; the result is the same whether it is read as a whole, by time step or by blocks, and whether the sources hold their data in memory or in files.",
  over=["datasets", "grids", "positions of the inner grid within the outer", "undefined values", "units, types and packing", "transition and border widths", "methods", "options"],
  all="all combinations of inner and outer dataset, options and reads",
  why="combines interpolation, unit conversion, packing and fill values of two datasets; several fast paths (equal packing, float) and both data-in-memory and streamed data must agree",
  files=["src/CDMMerger.cc", "src/CDMOverlay.cc", "src/CDMBorderSmoothing.cc", "src/CDMBorderSmoothing_Linear.cc", "src/CDMMergeUtils.cc"],
  mech=[("overlay", "CDMOverlay::getDataSlice"), ("transition along the border", "CDMBorderSmoothing_Linear, CDMBorderSmoothing::getDataSlice"), ("compatibility of variables, common grid", "makeMergedCDM, is_compatible"), ("target grid", "CDMMerger::setTargetGridFromInner, extendInnerAxis")],
  observe="getCDM, getData, getDataSlice of CDMOverlay, CDMBorderSmoothing and CDMMerger"),
 dict(id="C15",
  title="Forward interpolation aggregates exactly the source points of each target cell",
  statement="For every source dataset with one- or two-dimensional longitudes and latitudes, every longitude/latitude target grid and every forward method: each source point counts for exactly the target cell whose centre is nearest to it along each axis (points more than half a cell outside the target grid count for none); in every layer and time step each target value is the sum, mean, median (the upper one of an even number), minimum or maximum of the defined source values of its cell in the same layer and time step; it is undefined (the variable's fill value) if the cell has no defined source value, and for the forward_undef methods also if any source value of the cell is undefined. Types, packing and other variables are kept, and the result is the same whether read as a whole, by time step or by blocks.",
  over=["source grids and curvilinear coordinates", "target grids", "methods", "undefined values", "layers and time steps", "types"],
  all="all source points, target cells, methods and reads",
  why="which points fall into a cell, layers beyond the first, reduced source domains and undefined values are combinations that the few test files do not contain",
  files=["src/CachedForwardInterpolation.cc", "src/CDMInterpolator.cc", "src/interpolation.c", "include/fimex/mifi_constants.h"],
  mech=[("cells and aggregation", "src/CachedForwardInterpolation.cc"), ("positions of source points", "CDMInterpolator::changeProjectionByForwardInterpolation"), ("method names", "mifi_string_to_interpolation_method")],
  observe="getCDM, getData, getDataSlice of a CDMInterpolator after changeProjection with a forward method"),
 dict(id="C25",
  title="Files are found by pattern and opened as what they are",
  statement="For every tree of files and every pattern, searching files by a pattern (* within a name, ? for one character, ** across directories, everything else literally, including characters that are special in regular expressions) returns exactly the regular files whose path matches, each once, directory by directory in the order of their names, whatever other files and directories lie beside them. Opening a file with a known type name uses that format; without one (or with an unknown one) the content decides, and if the content is not recognised the extension (in any case); a file that is not in the format so chosen, or for which no format is found, gives an error, never a wrong dataset. Writing without a known type name takes the format from the extension (netCDF-4 for .nc), and what was written opens again as the same dataset under every name. Opening a pattern gives the files it finds joined along the unlimited dimension in that order.",
  over=["trees of files", "names and patterns", "type names", "file names and extensions", "contents"],
  all="all trees, patterns, and combinations of declared type, name and content",
  why="tests open a few files with matching name, type and content; searches depend on sibling directories and on special characters",
  files=["src/FileUtils.cc", "src/CDMFileReaderFactory.cc", "src/IoFactory.cc", "src/NcmlIoFactory.cc", "src/NullIoFactory.cc", "src/io/netcdf/NetCDFIoFactory.cc"],
  mech=[("search", "scanFiles_, globFiles"), ("choice of the format", "findFactory, findFactoryFromMagic, findFactoryFromFileName"), ("joining found files", "NetCDFIoFactory::createReader")],
  observe="files returned by globFiles; reader or error of CDMFileReaderFactory::create, and what the reader delivers"),
 dict(id="C28",
  title="A dataset written as NcML comes back the same",
  statement="For every dataset with variables of numbers or of lists of texts, writing it as an NcML document and opening that document gives the same dimensions (with lengths and which of them is unlimited), variables (with shapes and types), values and attributes: every integer exactly, every real number to the last bit (NaN included), texts and lists of texts with all their characters and boundaries, whatever characters are special in XML (attributes with an empty text do not exist there); datasets without records included. Attributes of unsigned types come back with the signed type of the same width, and unsigned variables additionally carry the attribute _Unsigned. Doing this again with the result changes nothing more.",
  over=["datasets", "types and values", "attribute texts", "sources (memory, reader, file)", "repeated round trips"],
  all="all datasets, values and texts",
  why="tests write one dataset with small values; digits are lost only for particular numbers, and escaping fails only for particular texts",
  files=["src/NcmlCDMWriter.cc", "src/NcmlCDMReader.cc", "src/NcmlUtils.cc", "src/Type2String.cc", "src/CDMAttribute.cc", "src/NcmlAggregationReader.cc"],
  mech=[("writing variables, values and attributes", "NcmlCDMWriter::write"), ("reading them", "NcmlCDMReader::initVariableDataChange, variableType, split_ncml_values"), ("numbers as text", "type2stream, string2type"), ("texts", "escapeXml")],
  observe="description of the reopened dataset and values of its variables"),
]
