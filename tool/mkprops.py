#!/usr/bin/env python3
"""Writes /verif/properties.jsonl"""
import json

H = "source/data_model/hdf5/"
C = "source/data_model/cxx/"
G = "source/data_model/gdal/"
L = "source/data_model/hl/"
P = "source/data_model/python/"
Q = "source/quality_assurance/"
S = "source/quality_assurance/scalability/"

props = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    props.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": None}})


p("P01", "HDF5 handles are reference counted exactly and closed exactly once",
  "Every copy of a handle object shares one HDF5 identifier whose reference count equals the number of live handle objects that own it; assignment gives up the handle previously held, moving leaves the source empty, and the close function of the identifier runs exactly once, when the last owner goes away. "
  "A handle that is not open is never closed, and reading its reference count or type never changes it.",
  ["histories", "fault_sequences"],
  "every sequence of construct / copy / move / assign (including to itself) / destroy / close-function replacement on any number of handles, starting from any reachable handle state, whether or not the library call that increments the count fails",
  "Tests construct a handful of handles and look at one count; they sample neither self-assignment, chains of copies and moves, nor failing increments.",
  [H + "source/identifier.cpp", H + "include/lue/hdf5/identifier.hpp"],
  [("Identifier special members, operator(), close", H + "source/identifier.cpp")],
  [("_id, _close", "HDF5 identifier and the function that gives it back", H + "include/lue/hdf5/identifier.hpp")],
  ["H5Iget_ref of the identifier", "calls of the close function"])

p("P02", "A hyperslab selects exactly the cells that offset, stride and count describe",
  "A selection built from a shape starts at the origin, has unit stride and counts every cell; one built from offset (and optionally stride) and count keeps those three vectors unchanged, also when copied. "
  "Its number of elements is the product of its counts, whatever the stride, and it is empty exactly when it has no cells; a selection around a centre cell has the shape given, with that cell in its middle; the size of a shape is the product of its extents (times the element size).",
  ["inputs"],
  "all ranks HDF5 supports (0..32) and all 64-bit offsets, strides and counts whose product is representable",
  "Tests use three or four fixed selections of rank up to three, all but one with unit strides.",
  [H + "source/hyperslab.cpp", H + "source/shape.cpp", H + "include/lue/hdf5/hyperslab.hpp"],
  [("Hyperslab constructors and nr_elements", H + "source/hyperslab.cpp"), ("nr_elements, size_of_shape", H + "source/shape.cpp")])

p("P03", "Dataset reads and writes transfer exactly the selected cells, in order",
  "Reading or writing a selection of a dataset of one or more dimensions transfers exactly the cells the selection addresses, between them and a dense memory block of the selection's count extents in row-major order, with the memory type given by the caller or remembered by the dataset; without a selection all cells are transferred. "
  "Filling a selection gives each selected cell the fill value and touches no other cell; resizing sets the extents asked for; reported shape and datatype are those of the stored dataset.",
  ["inputs", "fault_sequences"],
  "all dataset ranks and extents, all selections, all element types, any failing HDF5 call",
  "Tests read rows, columns and one cell from one small 2-D dataset and never fill strided selections.",
  [H + "source/dataset.cpp", H + "source/dataspace.cpp", H + "include/lue/hdf5/dataset.hpp", C + "source/core/array.cpp"],
  [("Dataset::read/write/fill/resize, create_dataset", H + "source/dataset.cpp"), ("create_dataspace", H + "source/dataspace.cpp"), ("Array::read/write", C + "source/core/array.cpp")],
  (), ["cells of the dataset", "memory buffer"])

p("P04", "Chunk shapes are valid and bounded for every value shape and element size",
  "The chunk shape computed for values of a given shape has one more dimension than the value, every extent is at least one, and no extent after the first exceeds the corresponding extent of the value. "
  "When a value fits in the 1 MiB limit the chunk holds the largest number of whole values that fits and otherwise it holds part of a single value; in both cases the chunk never exceeds the limit, unless one element does.",
  ["inputs"],
  "all value ranks HDF5 supports, all positive extents and all positive element sizes",
  "Tests evaluate five fixed shapes of rank up to two.",
  [H + "source/chunk.cpp", H + "source/shape.cpp"],
  [("chunk_shape", H + "source/chunk.cpp")])

p("P05", "File and memory datatypes map one-to-one and keep the element type",
  "Converting a native memory datatype to its standard on-disk datatype and back gives the same datatype for every supported element type, the on-disk type is the little-endian standard type of the same class, signedness and size, and strings keep their encoding. "
  "The name of a datatype is that of the predefined HDF5 type it is equal to, or 'string', so names of different types are distinct; encoding and decoding a datatype gives an equal one, and an unsupported datatype is refused rather than mapped to something else.",
  ["inputs"],
  "every native and on-disk datatype the library supports, and arbitrary other datatypes",
  "Tests go through the round trip for some types; the refusal of all others and the uniqueness over pairs are not tested.",
  [H + "source/datatype.cpp", H + "include/lue/hdf5/datatype.hpp", H + "include/lue/hdf5/datatype_traits.hpp"],
  [("file_datatype, memory_datatype, *_datatype_as_string", H + "source/datatype.cpp"), ("NativeDatatypeTraits, StandardDatatypeTraits", H + "include/lue/hdf5/datatype_traits.hpp")])

p("P06", "Attributes read back what was last written, and writing one leaves others alone",
  "After an attribute has been written, by name, on any object, it exists and reading it as the same type gives the value written last - numbers, and non-empty vectors of numbers and strings of any length, also when it existed before with another type or length - and no other attribute of any object has changed. "
  "Reading an attribute that does not exist is refused and creates nothing; a library call that fails is reported by an exception.",
  ["inputs", "histories", "fault_sequences"],
  "all attribute names, all values of the supported types, any prior set of attributes, any failing HDF5 call",
  "The one attribute test writes a single string once; overwriting with another length or size is not covered.",
  [H + "source/attribute.cpp", H + "source/attributes.cpp", H + "include/lue/hdf5/attribute.hpp", H + "include/lue/hdf5/attributes.hpp"],
  [("Attributes::write/read", H + "include/lue/hdf5/attributes.hpp"), ("Attribute::write/read, create_attribute", H + "include/lue/hdf5/attribute.hpp")])

p("P07", "Groups, datasets, files and links: creation adds one name, failures are reported",
  "Creating a group, dataset or link adds exactly that name to exactly that location and refuses to replace an existing one; opening one that is absent, or for which the library reports failure, raises an exception and changes nothing; existence queries agree with what has been created (a query the library cannot answer counts as absence). "
  "The list of contained groups or names is exactly the set of existing ones, and the parent, path and object information reported are those of the object itself. Dangling soft links, and the parent of the root group, are left out.",
  ["inputs", "histories", "fault_sequences"],
  "all names, all prior contents of the location, all outcomes of every HDF5 call",
  "Tests create a few groups in an empty file and never make a library call fail.",
  [H + "source/group.cpp", H + "source/file.cpp", H + "source/link.cpp", H + "source/hard_link.cpp", H + "source/soft_link.cpp", H + "source/primary_data_object.cpp", H + "source/object_info.cpp", H + "source/dataset.cpp"],
  [("create_group, group_exists, Group", H + "source/group.cpp"), ("create_file, File", H + "source/file.cpp"), ("create_soft_link, create_hard_link", H + "source/soft_link.cpp")])

p("P08", "Constant-shape object arrays: expanding and indexing keep objects separate",
  "In an array holding one equally shaped value per object, expanding by n adds exactly n objects (or, for arrays per location in time, n locations) and keeps the value shape, reported counts are the ones asked for, and the array for object i is exactly the hyperslab with index i. "
  "Reading or writing object i, or the range of objects [i, j), touches the cells of those objects and of no other.",
  ["inputs", "histories"],
  "all value shapes (any rank), all numbers of objects and locations in time, all indices within them, all element types",
  "Tests use ten objects with 2x3 values.",
  [C + "source/array/same_shape/value.cpp", C + "source/array/same_shape/constant_shape/value.cpp", C + "source/core/array.cpp"],
  [("Value::expand, read, write, operator[]", C + "source/array/same_shape/constant_shape/value.cpp"), ("create_value", C + "source/array/same_shape/value.cpp")])

p("P09", "Per-time-location values keep one dataset per location, with the shape asked for",
  "For values whose shape or presence varies through time, expanding location idx for n objects with a shape creates exactly one array, found again under that index, with extents n followed by the shape asked for and the element type of the property; no other location changes. "
  "The number of locations reported is the number created, and opening location idx gives the array created for it, with its element type.",
  ["inputs", "histories"],
  "all location indices, numbers of objects, shapes of any rank, element types and previously created locations",
  "Tests create a fixed number of locations in order, in one process, with one shape.",
  [C + "source/array/same_shape/variable_shape/value.cpp", C + "source/array/value_group.cpp"],
  [("Value::expand, operator[]", C + "source/array/same_shape/variable_shape/value.cpp"), ("ValueGroup", C + "source/array/value_group.cpp")])

p("P10", "Different-shape values keep one array per object id, with that object's shape",
  "For values whose shape differs between objects, expanding with a list of object ids and shapes creates exactly one array per listed object, found again under that id, whose extents are exactly the shape given for that id, for any rank (from one on where shapes vary through space); objects not listed do not change. "
  "The number of objects reported grows by the number listed, and for values per location in time the same holds at each location separately.",
  ["inputs", "histories"],
  "all lists of distinct ids, all shapes and ranks, all prior contents, all element types",
  "Tests use one fixed rank and consecutive ids.",
  [C + "source/array/different_shape/value.cpp", C + "source/array/different_shape/constant_shape/value.cpp", C + "source/array/different_shape/variable_shape/value.cpp"],
  [("Value::expand, operator[]", C + "source/array/different_shape/value.cpp")])

p("P11", "Collections map each name to one element and agree with the file",
  "A collection (of phenomena, property sets, universes, properties) opened from a file contains exactly the elements stored there; adding an element under a new name makes it - and changes nothing else - findable under that name, and adding a name already present is refused without altering the collection or the file. "
  "Size, names, membership tests and lookups agree with each other, and looking up an absent name raises an exception.",
  ["inputs", "histories"],
  "all names and all sequences of adding and reopening",
  "Tests add one or two elements to an empty collection.",
  [C + "include/lue/core/collection.hpp", C + "source/object/phenomena.cpp", C + "source/object/property_sets.cpp", C + "source/object/property/properties.cpp", C + "source/object/universes.cpp"],
  [("Collection", C + "include/lue/core/collection.hpp")])

p("P12", "Configurations of domains, clocks and properties round trip through a file",
  "Each configuration value (time and space configuration, clock unit, epoch kind and calendar, value shape, variability and object classifications) is stored under its own attribute as the text of its name, different for different values, and loading what was saved gives the same value; a stored text that is not one of the known ones, or none, is refused. "
  "Loading a configuration never changes the file, saving one changes no other attribute, and configurations are equal exactly when all their values are.",
  ["inputs", "histories"],
  "all combinations of values of every aspect, and arbitrary stored strings",
  "Tests round trip a few combinations.",
  [C + "include/lue/core/aspect.hpp", C + "include/lue/core/configuration.hpp", C + "include/lue/core/enum_string_bimap.hpp"],
  [("aspect_to_string, string_to_aspect", C + "include/lue/core/aspect.hpp"), ("Configuration::save/load", C + "include/lue/core/configuration.hpp")])

p("P13", "Clocks, epochs and durations round trip and convert exactly",
  "A clock saved with a time domain - unit, number of units per tick, and epoch with optional (non-empty) origin and calendar - is found again with the same parts, absent where they were absent, and nothing else is stored with it; two clocks are equal exactly when unit and number of units are the same (the epoch is not part of that). "
  "Tick periods, durations and points in time keep the 64-bit counts they were made with, a tick period is one unit unless given, and durations are equal exactly when they count as many ticks.",
  ["inputs", "histories"],
  "all clock units, tick counts, epoch kinds, and all present or absent origins and calendars",
  "Tests build one clock per unit and do not store them.",
  [C + "source/core/clock.cpp", C + "source/core/time/epoch.cpp", C + "include/lue/core/clock.hpp", C + "include/lue/core/time/duration.hpp", C + "include/lue/core/time/tick_period.hpp"],
  [("Clock, save/load", C + "source/core/clock.cpp"), ("Epoch", C + "source/core/time/epoch.cpp")])

p("P14", "Time domains store the item type and clock asked for, and reopen with them",
  "A time domain created with a configuration and a clock opens with that configuration and clock; time points have one coordinate per item, boxes two, and cells two plus a count per cell kept separately, all stored as unsigned 64-bit numbers, and adding items adds exactly the number asked for to exactly that array. "
  "A second domain in the same group is refused, a domain linked to from another group is the same domain there, and opening one that does not exist is refused.",
  ["inputs", "histories"],
  "all time configurations, clocks and numbers of items",
  "Tests create one domain of each kind.",
  [C + "source/object/time_domain.cpp", C + "source/info/time/time_point.cpp", C + "source/info/time/time_box.cpp", C + "source/info/time/time_cell.cpp", C + "source/info/time/location_in_time.cpp"],
  [("TimeDomain, create_time_domain", C + "source/object/time_domain.cpp")])

p("P15", "Space domains store items of the configured kind with rank-dependent coordinates",
  "A space domain created with a configuration, coordinate type and rank reopens with that configuration; space points have rank coordinates per item and boxes twice the rank, stored in the coordinate type given, for stationary and mobile items alike, and adding items adds exactly the number asked for and keeps the rest. "
  "A second domain in the same group is refused and leaves the first as it was, and opening one that does not exist is refused.",
  ["inputs", "histories"],
  "all space configurations, ranks, coordinate types and numbers of items",
  "Tests create one domain of each kind for rank two.",
  [C + "source/object/space_domain.cpp", C + "source/info/space/stationary_space_point.cpp", C + "source/info/space/stationary_space_box.cpp", C + "source/info/space/mobile_space_point.cpp", C + "source/info/space/mobile_space_box.cpp"],
  [("SpaceDomain, create_space_domain", C + "source/object/space_domain.cpp")])

p("P16", "Property sets own or share domains and trackers exactly as constructed",
  "A property set created with its own time domain, space domain or object tracker owns it; one created from an existing property set, time domain or tracker links to that object, so that changes through either are seen through both; opening it again finds the same domains, present or absent as at creation. "
  "No creation alters the property set or domain it links to.",
  ["inputs", "histories"],
  "all overloads of creating a property set, all configurations, all reopen sequences",
  "Tests cover creation of one configuration; sharing and reopening are not examined.",
  [C + "source/object/property/property_set.cpp", C + "source/object/property_sets.cpp", C + "source/object/identity/object_tracker.cpp"],
  [("create_property_set, PropertySet", C + "source/object/property/property_set.cpp")])

p("P17", "Properties land in, and are found in, the one collection that fits their shape",
  "Adding a property with given shape-per-object, value variability and shape variability stores it in exactly one of the six kinds of collections, the one for that combination, under its name; names are unique over all kinds, membership and size count each property once, and opening it by name with its kind gives the element type, rank and configuration it was created with. "
  "Adding a duplicate name, of whatever kind, is refused and leaves all collections unchanged.",
  ["inputs", "histories"],
  "all names, all kinds of properties, all sequences of additions",
  "Tests add one property of each kind with distinct names.",
  [C + "source/object/property/properties.cpp", C + "include/lue/object/property/properties.hpp", C + "source/info/property/property_group.cpp"],
  [("Properties", C + "source/object/property/properties.cpp"), ("PropertyGroup", C + "source/info/property/property_group.cpp")])

p("P18", "Discretization links of a property lead to exactly the property that was set",
  "Setting the space (or time) discretization of a property stores the kind of discretization and links to exactly the property given, of the same file; afterwards the property reports that it is discretized, and the discretization opened from it is that property, while the other kind of discretization and all other properties are unaffected. The same holds for the discretization of the presence of objects that is set on a space domain. "
  "A property for which none was set reports so; setting it a second time is refused and changes nothing.",
  ["inputs", "histories"],
  "all pairs of properties of all kinds, both kinds of discretization, all orders of setting them",
  "Tests set one space discretization in one use case.",
  [C + "source/info/property/property_group.cpp", L + "source/raster_view.cpp"],
  [("PropertyGroup::set_*_discretization, *_is_discretized", C + "source/info/property/property_group.cpp")])

p("P19", "Creating and opening LUE datasets stamps and checks the format",
  "A newly created dataset file carries the LUE version and opens, with empty collections of universes and phenomena and the description given, as a LUE dataset; opening a file that is not one (no such file, a directory, a file of another kind, a file without one of the collections) raises an exception and does not alter the file (a file of zero bytes opened for writing excepted, which the HDF5 library initialises); mode flags are honoured, so a file opened read-only is never modified. "
  "Creating over an existing name replaces that file and no other, a dataset created in memory touches no file, the path reported is the path opened, and a dataset is said to exist exactly when there is a regular file of that name; removing removes exactly that file.",
  ["inputs", "histories", "fault_sequences"],
  "all path names, access modes and failing library calls",
  "Tests create and open one file in the working directory.",
  [C + "source/object/dataset.cpp", H + "source/file.cpp"],
  [("create_dataset, open_dataset, Dataset", C + "source/object/dataset.cpp")])

p("P20", "Raster views store each layer and time step once, with the grid shape given",
  "A constant or variable raster view created for a grid shape, space box and (for variable ones) clock, time box and number of time steps stores exactly those; each added layer gets an array of exactly the grid shape (one per time step for variable ones), with the element type and no-data value asked for, and is found again by name after reopening. "
  "Layers are independent of each other and the view reports the shape, extents and layers it was given.",
  ["inputs", "histories"],
  "all grid shapes, boxes, numbers of time steps, layer names and element types",
  "Two use cases with one grid shape are tested.",
  [L + "source/raster_view.cpp", L + "include/lue/data_model/hl/raster_view.hpp", L + "source/dataset_view.cpp"],
  [("constant::create_raster_view, variable::create_raster_view, add_layer, layer", L + "source/raster_view.cpp")])

p("P21", "Array path names are parsed into their components without loss",
  "Parsing a path to an array into its parts (dataset path, phenomenon, property set and property names) gives the components whose concatenation with separators is the original path (repeated slashes within the path of the dataset counting as one), the last components being the names; a path with too few components, or, where only names are asked for, another number than three, is refused. "
  "Absolute dataset paths stay absolute and relative ones relative. (A path that has no dataset, a slash followed by three names, is outside this.)",
  ["inputs"],
  "all path strings, of any number of components of any length",
  "No test exercises the parsing.",
  [L + "source/util.cpp"],
  [("parse_array_pathname, parse_array_pathname3", L + "source/util.cpp")])

p("P22", "Raster blocks partition the raster",
  "For every raster shape and block shape, the grid of blocks covers each raster cell exactly once: the number of blocks along an axis is the smallest that covers it, and the valid cells of the block at a position are exactly the raster cells that fall in it, never more than the block shape and never less than one. "
  "Rows and columns are never exchanged.",
  ["inputs"],
  "all raster and block extents of at least one, all block positions",
  "Tests use two rasters and three blocks.",
  [G + "source/blocks.cpp", G + "include/lue/gdal/blocks.hpp"],
  [("Blocks", G + "source/blocks.cpp")])

p("P23", "GDAL access keeps axis order, band numbers, types and georeference",
  "Creating, opening, copying and deleting rasters, and reading or writing blocks, windows or whole bands, passes rows and columns, sizes, block positions, 1-based band numbers, data types, creation options and georeferences to GDAL in GDAL's own order, so shape, blocks and values read are those of the file; a no-data value is reported exactly when the file defines one, in the band's data type, and none is lost or rounded for any type. "
  "Every failure GDAL reports becomes an exception (for a no-data value: a result that says so), a georeference that is absent, rotated, south up or not square is refused, and every dataset opened or created is closed exactly once.",
  ["inputs", "fault_sequences"],
  "all raster shapes (non-square included), windows, block positions, data types, numbers of bands, creation options and all outcomes of GDAL calls",
  "Tests use a square or one fixed raster and never let a GDAL call fail.",
  [G + "source/dataset.cpp", G + "source/raster.cpp", G + "source/raster_band.cpp", G + "source/driver.cpp", G + "include/lue/gdal/raster_band.hpp", G + "include/lue/gdal/raster.hpp"],
  [("Dataset, create_dataset, create_copy", G + "source/dataset.cpp"), ("RasterBand::read/write, read_block/write_block, Raster::Band", G + "source/raster_band.cpp")])

p("P24", "Comparing rasters reports equality exactly when all valid cells agree",
  "Comparing two rasters of the same shape, data types, number of bands and (north-up, square) georeference finds them equal exactly when for every band both have no no-data value, or the same one, and each pair of cells is equal (or both the no-data value NaN), whatever the shapes of the blocks of the two rasters and the raster's extents relative to them, and without reading outside either raster. "
  "Rasters that differ in shape, data type, number of bands, georeference or no-data value, that do not exist, or that have a data type without C++ counterpart are never reported equal.",
  ["inputs"],
  "all raster shapes, block shapes, data types, numbers of bands, no-data values and cell values",
  "No test compares rasters.",
  [G + "source/compare_rasters.cpp"],
  [("compare_rasters", G + "source/compare_rasters.cpp")])

p("P25", "GDAL data types and C++ types correspond one-to-one",
  "Each supported C++ element type maps to the GDAL data type of the same class, signedness and size, no two to the same one, and none of them is refused as unsupported; the name of a data type is that of its enumerator. "
  "The driver chosen for a file name depends only on its extension, irrespective of letter case; a file name with an unknown extension, or none, gets no driver: the name reported is that of no driver, and looking it up is refused.",
  ["inputs"],
  "all GDAL data types and all file names",
  "Tests check a few types and no extensions.",
  [G + "source/data_type.cpp", G + "include/lue/gdal/type_traits.hpp", G + "source/driver.cpp", G + "source/dataset.cpp"],
  [("as_string, TypeTraits, driver_name", G + "source/data_type.cpp")])

p("P26", "Indexing arrays from Python selects the same cells as NumPy",
  "Reading array[index] from Python, for any combination of integers (negative ones included), slices (any start, stop and positive step) and ellipsis, gives the same values and shape as applying the index to the whole array in NumPy; assigning to array[index] changes exactly the cells NumPy would change. "
  "Indices out of bounds, too many indices and values of the wrong shape raise an exception and change nothing.",
  ["inputs"],
  "all array ranks and extents, all index expressions of integers, slices and ellipsis",
  "Tests index small arrays with a few fixed expressions.",
  ["source/data_model/python/source/core/array.cpp"],
  [("hyperslab computation in the Array binding", "source/data_model/python/source/core/array.cpp")])

p("P27", "Experiment bookkeeping records every run in order with its own measured interval",
  "A stopwatch reports the interval between its last start and stop, a time interval has a non-negative duration, and a run has the interval its stopwatch measured; an experiment keeps all runs in the order added, and the result written contains each run once with its index, start time and duration, and the experiment's array shape, partition shape and numbers of workers and time steps as given. "
  "Writing results reports failure to open the output as an exception.",
  ["inputs", "histories"],
  "all numbers of runs, shapes, counts and clock readings",
  "Tests check a stopwatch and default-constructed objects.",
  [Q + "cxx/source/scalability/stopwatch.cpp", Q + "cxx/source/scalability/run.cpp", Q + "cxx/source/scalability/experiment.cpp", Q + "cxx/source/scalability/array_experiment.cpp", Q + "cxx/source/scalability/io.cpp", Q + "cxx/source/scalability/time_interval.cpp"],
  [("Stopwatch, Run, Experiment, save_results", Q + "cxx/source/scalability/io.cpp")])

p("P28", "Scalability experiment shapes are complete, positive and monotone",
  "For every shape range configuration, the array and partition shapes enumerated have the rank of the original shape, positive extents, and sizes that do not decrease; the shapes span the requested range from the smallest to the largest multiplier, and the array shape for weak scaling is as close to the requested number of elements per worker as the original aspect ratio permits. "
  "Partition shapes never exceed what the array shape supports, and no shape occurs outside the range asked for.",
  ["inputs", "configurations"],
  "all ranks, extents, multipliers and step counts",
  "Tests use a few fixed configurations.",
  [Q + "scalability/command/scalability/experiment/shape.py"],
  [("shape_ranges, range_of_shapes, partition_shapes", "scalability shape module")])

p("P29", "Worker pools enumerate each permitted number of workers once, within the pool",
  "A multiplied, incremented or empty worker range enumerates, for the pool it describes, a strictly increasing sequence of worker counts, the first being the minimum size and none exceeding the maximum size, each being the previous one multiplied or incremented as described and none that fits missing; the number of permutations it reports is the length of that sequence and the maximum size is the last. "
  "An index outside of it, and a description that is not of a pool, are refused. A range described by its own JSON enumerates the same sequence. Workers range over the sizes of their pool, one benchmark for each permutation.",
  ["inputs", "configurations"],
  "all pool sizes, increments, multipliers and permutation counts",
  "Tests use a few fixed pools.",
  [Q + "scalability/command/scalability/experiment/pool.py"],
  [("Pool and worker ranges", "scalability pool module")])

p("P30", "Active object bookkeeping stores ids and indices of the size asked for",
  "The identity collections of a property set (object ids, active object ids, active object indices, active set indices) store unsigned 64-bit numbers, one per object or location; expanding one by n grows exactly that one by n and keeps what it held, and reopening gives the same contents. "
  "The object tracker hands out the collections stored in its own group and no others.",
  ["inputs", "histories"],
  "all numbers of objects, all sequences of expansions",
  "Tests create each collection once with a fixed number of ids.",
  [C + "source/object/identity/object_tracker.cpp", C + "source/info/identity/object_id.cpp", C + "source/info/identity/active_object_id.cpp", C + "source/info/identity/active_object_index.cpp", C + "source/info/identity/active_set_index.cpp"],
  [("ObjectTracker", C + "source/object/identity/object_tracker.cpp")])

import os

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
for x in props:
    for fn in x["anchors"]["files"]:
        if not os.path.exists("/repo/" + fn):
            print("missing", x["id"], fn)
print(len(props))
