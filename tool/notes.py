H5 = "Assumes the contracts of the HDF5 C library in vc/h5.py, the semantics of the standard library in vc/stdlib.py, and that sums and products do not overflow where the contract says so. "
NOTE["P01"] = ("proof", "All identifier operations on two handles of up to two library objects with any number of further owners; every wrapper class balanced under any single library failure. " + H5)
NOTE["P02"] = ("proof", "All ranks 0..32 and all 64-bit vectors; products up to rank 12 in full, above with up to three symbolic extents. " + H5)
NOTE["P22"] = ("proof", "All shapes and block shapes with int arithmetic that does not overflow. ")
NOTE["P04"] = ("proof", "Ranks 0..3 for all shapes, ranks 4, 5, 6 and 8 for shapes in order of extent (the code treats dimensions alike); floating point numbers as reals, std::pow by its monotonicity; a bounded replay covers ranks up to 32. " + H5)
NOTE["P05"] = ("proof", "All element types (as objects, by type, by traits, as copies), strings of any size and encoding, and fifteen kinds of unsupported datatypes, for which ending in an assertion counts as refusing. " + H5)
NOTE["P03"] = ("proof", "All ranks 1..32, extents, selections and memory types for every read and write overload of Dataset and Array; filling for any number of cells by loop induction. " + H5)
HOW["P01"] = 'Ghost reference counts per HDF5 identifier. Pre: arbitrary owners; each constructor, destructor, copy, move, assignment (self, aliasing, invalid included) of `Identifier` and of each wrapper class (File, Group, Dataset, Datatype, Attribute, ...) has as postcondition count == live owners, close called once at zero, never on an invalid one; also when one library call fails.'
HOW["P02"] = "Contracts of `Hyperslab`'s constructors, accessors, `nr_elements`, `empty`, `hyperslab(centre, ...)` and `size_of_shape`, for ranks 0..32, symbolic 64-bit vectors."
HOW["P22"] = 'Contracts of `gdal::Blocks` over all extents: smallest cover, valid cells = cells of the raster in the block; axes not exchanged; int arithmetic shown not to overflow under the stated precondition.'
HOW["P03"] = "Contracts of every overload of Dataset::read/write and Array::read/write: exactly one H5Dread/H5Dwrite, with the file selection, memory extents, memory type, transfer properties and buffer given; Dataset::fill: the buffer written holds the value for each selected cell (loop induction); shape, datatype, dataspace, resize; every library failure becomes an exception."
HOW["P04"] = "Contract of chunk_shape: rank, positivity, bounds and maximality of the chunk, by integer arithmetic over the real function."
HOW["P05"] = "Contracts of the datatype conversions, names, traits and encodings over the ten element types, strings of any size, and unsupported types; failing library calls."
NOTE["P06"] = ("proof", "Any object, any non-empty name, any prior state of the attribute (absent, same kind, string, number, vector); ten element types, strings of 1 to 2^31 characters, vectors of symbolic length; one failing library call at a time. Reading an absent attribute may be refused by assertion. " + H5)
HOW["P06"] = "Contracts of Attributes::write/read/exists/attribute/datatype: the value stored and read equals the one written, by ghost value and by the real read; frame: only that attribute of that object changes; every library failure becomes an exception."
NOTE["P07"] = ("proof", "A location (the root group or a group in it) with six links of every kind, and any name: free (a symbolic string) or that of one of the six; every pair of objects for equality; one failing library call at a time. " + H5)
HOW["P07"] = "Contracts of create/open/exists/contains for groups, datasets, links and files, listing, parent, path, name, equality: exactly one link is added, with the name and kind asked for, or nothing changes and an exception is thrown; the object opened is the one linked to."
NOTE["P08"] = ("proof", "Ranks 0-3 of the object arrays (rank enumerated; extents, counts and indices symbolic, any size), the three element types of each memory/stored combination, one failing library call at a time. " + H5)
HOW["P08"] = "Contracts of create_value, the constructors, expand, array_shape, nr_arrays, read and write (one object, a range) of both equally shaped values: which dataset is created, which extent results from an expansion, and that a transfer selects exactly the hyperslab of the objects named."
NOTE["P09"] = ("proof", "Ranks 0, 1 and 3 (2 with failing calls); location indices and object ids are five representatives (names are their decimal text), extents and counts symbolic; the loop over any number of objects is decided by one arbitrary iteration. " + H5)
HOW["P09"] = "Contracts of create_value, the constructors, expand, operator[] and nr_locations_in_time of both values that vary through time: exactly one array or group per location is added, with extents and type asked for; a taken location is refused and leaves everything as it was."
NOTE["P10"] = ("proof", "Ranks 0, 1 and 3 (2 with failing calls); object ids are five representatives (names are their decimal text), extents, counts and the list of extents symbolic; the loop over any number of objects is decided by one arbitrary iteration, whose object is free or taken. " + H5)
HOW["P10"] = "Contracts of create_value, the constructors, every expand overload, operator[], contains and exists of both values with a shape per object: an arbitrary object of the list gets exactly one array of its own shape, and the stored number grows by the length of the list."
NOTE["P30"] = ("proof", "All four collections, symbolic counts, indices and sizes, the other collections present or not, one failing library call at a time. " + H5)
HOW["P30"] = "Contracts of the identity collections and the object tracker: the dataset created, the extent after an expansion, the hyperslab a read or write selects, and that each accessor of the tracker is of the collection in its own group."
NOTE["P12"] = ("proof", "All values of all eleven aspects and all configurations of them; any prior text of the attribute, any stored text (a symbolic string of up to 2^20 characters), one failing library call at a time. " + H5)
HOW["P12"] = "Contracts of aspect_to_string, string_to_aspect, Tag, Aspect and Configuration (save, load, compare) for every aspect: the attribute and text stored, the value loaded, refusal of any other text, and a frame condition over all attributes of the file."
NOTE["P13"] = ("proof", "Every unit, kind of epoch and combination of origin and calendar; origins are symbolic strings, counts symbolic 64-bit numbers; one failing library call at a time. " + H5)
HOW["P13"] = "Contracts of Epoch, Clock, TickPeriod, Duration and TimePoint, and of create_time_domain and TimeDomain for the clock they store and find again: part by part, absent parts included."
NOTE["P14"] = ("proof", "Every kind of item, clock and epoch; symbolic numbers of items and additions; one failing library call at a time. Reading and writing the items is P08. " + H5)
HOW["P14"] = "Contracts of create_time_domain, link_time_domain, time_domain_exists, has_linked_time_domain, TimeDomain and the three kinds of items: what is added to the file, what is found again, which array grows."
NOTE["P15"] = ("proof", "Both mobilities and kinds of items, ten coordinate types, symbolic ranks, numbers of items and additions; one failing library call at a time. Reading and writing the items is P08; the presence discretization is P18. " + H5)
HOW["P15"] = "Contracts of create_space_domain, space_domain_exists, SpaceDomain and the four kinds of items: what is added to the file, what is found again, which array grows."
NOTE["P11"] = ("proof", "Phenomena, universes, property sets and the six collections of properties: a collection of 0, 1 or 3 elements, a name that is free or taken; any free name (of a link) for phenomena and universes next to up to one other element, representative names otherwise; one failing library call at a time. Longer histories follow from the contract of one step (the state before is any state the elements can be in) and are run by the battery. " + H5)
HOW["P11"] = "Contracts of Collection (names, size, membership, lookups, iteration, add) as instantiated for phenomena, universes, property sets and the six collections of properties, and of the functions creating and opening these: before and after adding, and opened again, everything asked of the collection agrees with the ghost file, and the file changes by the new element only."
NOTE["P16"] = ("proof", "All nine overloads; stored sets with every combination of no, own, shared or indirectly shared time domain, own or shared tracker, and space domain; clocks with symbolic parts, symbolic ranks; representative names of sets; one failing library call at a time for three overloads. " + H5)
HOW["P16"] = "Contracts of PropertySets::add (nine overloads), create_property_set, PropertySet and its accessors over the ghost file: which parts a set has, which stored objects its domains and tracker are (the very ones linked to, or its own), the same when opened again, and nothing else changed."
NOTE["P17"] = ("proof", "Ten ways of adding (every overload), ten element types, symbolic extents and descriptions, ranks 1-4; property sets without properties and with one of each of the six kinds; a name that is free (any, for the kinds with a shape; four representatives for those with a rank) or taken by any kind; one failing library call at a time. " + H5)
HOW["P17"] = "Contracts of Properties (every overload of add, contains, size, the three classifications, collection_group, names, collection), of the six collections' add, create_property and Property classes, and of PropertyGroup: exactly one group is added, to the collection that fits; what each collection, the classification and the property report afterwards, the same when opened again; a taken name changes nothing."
NOTE["P18"] = ("proof", "Properties of the six kinds (six sources, targets of the same or another kind, in the same or another set, or itself); nothing, the other or the same discretization set before; symbolic names of targets for the kinds with a shape; one failing library call at a time. " + H5)
HOW["P18"] = "Contracts of PropertyGroup's set_*_discretization, *_is_discretized, *_discretization_type and *_discretization_property, of SpaceDomain's presence discretization, and of the soft links under them: exactly the kind and one link are added, the object opened through it is the very property given, every other property and the other way of discretizing are unaffected; setting it again is refused and changes nothing."
NOTE["P19"] = ("proof", "Eight kinds of things under the name (nothing, a dataset, one lacking either collection, a version, or with an array for a collection, another kind of file, a directory), four representative names, symbolic descriptions, every way to create and open, both access modes; one failing library call at a time. std::filesystem's status and remove are modelled. " + H5)
HOW["P19"] = "Contracts of create_dataset, create_in_memory_dataset, open_dataset, Dataset's constructors and accessors, dataset_exists, remove_dataset and the file functions under them, over a ghost file system: what a new file holds, which file is opened with which access, refusal of what is not a dataset, and a frame over every other file."
NOTE["P21"] = ("proof", "Any strings as components, of any length, empty ones included; the number of components is enumerated, 1 to 12 (bounded: longer paths are not covered by the proof). boost::algorithm::split and std::filesystem::path are modelled for POSIX; the predicate given to split is executed.")
HOW["P21"] = "Contracts of parse_array_pathname3 and parse_array_pathname over strings built of symbolic components: refusal by number of components, the names, and the path of the dataset."
NOTE["P25"] = ("proof", "All values of GDALDataType; ten element types. File names are concrete: nine extensions in every letter case after representative stems, and 54 names with other extensions. std::filesystem::path::extension and tolower (C locale) are modelled; that the type ids have the sizes of the C++ types is checked against the library by the replay.")
HOW["P25"] = "Contracts of gdal::as_string, TypeTraits, supports, verify_support, driver_name and driver, executed for every data type and element type, and for file names in every letter case."
NOTE["P23"] = ("proof", "All shapes, offsets, windows, numbers of bands, data types and georeferences, symbolically; four lists of creation options; one failing GDAL call at a time. Assumed: the model of GDAL (vc/gdalm.py): its argument order, that no-data values of 64-bit bands need the 64-bit functions; no-data values are representable in the band's data type. std::format, strcpy and shared_ptr are modelled. Floating point values are reals.")
HOW["P23"] = "Contracts of every function of dataset.cpp, raster_band.{hpp,cpp} and raster.{hpp,cpp} over a ghost GDAL that logs the arguments it is given, tracks which datasets are open, and may let a call fail."
NOTE["P24"] = ("other", "Bounded: rasters up to 3 x 3 cells (floating point: 3 x 2), every block shape up to one larger than the raster along each axis for integers and a selection for floating points, one or two bands; cells and no-data values are symbolic, NaN included. For those, every path of the real code is decided by the solver; the blocks themselves are proved for all extents in P22. The ghost GDAL is assumed.", "contracts on the real code, discharged by SMT for bounded rasters (symbolic cells)")
HOW["P24"] = "compare_rasters is executed over a ghost GDAL with symbolic cells: its result is proved to be empty exactly when all cells, no-data values and types agree, all reads are inside the rasters, and every dataset is closed once."
NOTE["P29"] = ("proof", "All integers as sizes, multipliers, increments and indices. The Python source is executed as it is, on symbolic numbers; loops are cut by invariants found among the candidates of a template, each of which is an obligation, and by a variant. Integers are assumed; the textual form (__str__) is covered by the replay only.")
HOW["P29"] = "Contracts of Pool, the three worker ranges and Worker over the sequence meant (a function of the index with its laws proved): the number of permutations, each permutation, the extremes, refusals, and the range described by its own JSON."
