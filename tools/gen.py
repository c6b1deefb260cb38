"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after an edit).

A property is written out only when pbt/props/<id>.py exists.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, note, state=()):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, note=note, state=state))


R = "vistautils/range.py"
S = "vistautils/span.py"
PA = "vistautils/parameters.py"
IO = "vistautils/io_utils.py"
KV = "vistautils/key_value.py"
SC = "vistautils/scripts/"

prop("C01", "A range holds exactly the values between its bounds; equality, copies, notation",
     "A range contains a value exactly when the value satisfies its lower and its upper bound, each of which may be absent, inclusive or exclusive, over any totally ordered type. "
     "Its queries (has a lower/upper bound, bound types, endpoints, emptiness) and its notation report what it was built from; the endpoint of an unbounded end, reversed bounds and the open range on a single point are refused with ValueError, and so is asking for None. "
     "Two ranges are equal, and hash equal, exactly when their bounds and bound kinds are; copying, deep-copying and pickling under every protocol give an equal range which answers alike.",
     ["inputs"], "Every kind of bounds, over integers, strings, floats, fractions, tuples, dates and other ordered types; every value of small dense domains and generated wide numbers next to the endpoints; every pickle protocol and kind of copy.",
     "Tests try a few integer ranges each; which bound kinds on which endpoint types with which value is a product the samples cannot cover.",
     [R], [("cuts compare a bound against a value", R + ": _Cut and its subclasses (_BelowAll, _AboveAll, _BelowValue, _AboveValue)"), ("constructors and validation", R + ": Range.open ... Range.all, __attrs_post_init__"), ("membership and queries", R + ": Range.__contains__, has_lower_bound, lower_bound_type, lower_endpoint, is_empty, __eq__, __hash__, __repr__")],
     "Oracle: positions on an integer line with a half step before and after each domain point, computed independently of the code.")
prop("C02", "Range algebra: encloses, is_connected, intersects, intersection, span",
     "One range encloses another exactly when its bounds are at least as wide; two ranges are connected (and intersect) exactly when some, possibly empty, range is enclosed by both. "
     "The intersection of two connected ranges is the largest range enclosed by both, so it contains exactly the values of both, and is refused with ValueError for ranges which are not connected; span and create_spanning give the smallest range enclosing both or all, and create_spanning of nothing is refused with ValueError. "
     "No operation changes its operands, and the symmetric ones do not depend on the order.",
     ["inputs"], "All pairs, triples and lists of ranges with any bound kinds over small dense domains of several types, including empty ranges, ranges which only touch, and unbounded ones.",
     "Tests check hand-picked pairs of integer ranges; the case distinctions on bound kinds at equal endpoints are what goes wrong.",
     [R], [("enclosing and connection compare cuts", R + ": Range.encloses, is_connected, intersects"), ("intersection and span pick cuts", R + ": Range.intersection, span, create_spanning")],
     "Oracle: comparison of positions on the doubled integer line; results must equal independently built ranges.")
prop("C03", "Any history of additions leaves a range set with exactly the coalesced union",
     "After any sequence of additions (one at a time, in batches, from other sets, through the builder, in any order) a range set's members are exactly the maximal connected pieces of the union of the non-empty ranges added: none empty, no two connected, sorted from low to high; empty ranges add nothing. "
     "Clearing leaves it empty, and it can be filled again. "
     "Its length, emptiness, span (an error when empty) and the values it contains agree with these members, adding returns the set itself, and neither the ranges or sets added nor sets built before change.",
     ["histories", "inputs"], "All sequences of add, add_all (list, generator, mutable or immutable set) and clear, and builders in any order, over ranges of any bound kind, including unbounded ones and chains which merge many members at once.",
     "Tests add a handful of ranges in a fixed order; which members get coalesced depends on the whole history and on ties between bound kinds.",
     [R], [("coalescing on addition", R + ": _MutableSortedDictRangeSet.add, add_all, clear, _replace_range_with_same_lower_bound"), ("builders", R + ": ImmutableRangeSet.builder and its Builder, RangeSet.create_mutable")],
     "Model: list of maximal runs on the doubled integer line, compared after each step.")
prop("C04", "Every query of a range set agrees with a scan over its members",
     "For every range set, mutable or immutable: a value is contained exactly when a member contains it, and range_containing gives that member or None; a range is enclosed exactly when one member encloses it, and range_enclosing_range gives that member or None; it intersects exactly when it has a non-empty intersection with a member. "
     "ranges_overlapping gives exactly the members connected with the range, ranges_enclosed_by exactly those it encloses; rightmost_containing_or_below gives the last member with a part at or below the value, leftmost_containing_or_above the first with a part at or above it (maximal_... and minimal_... are the same), or None. "
     "encloses_all holds exactly when each range given, or each member of the set given, is enclosed; no query changes the set.",
     ["inputs", "histories"], "All range sets over small dense domains of several types and larger integer ones, mutable and immutable however built, against every value and generated ranges of every bound kind, and their own members.",
     "Tests query a few fixed sets; searches among sorted bounds against each bound kind, gaps and outer regions form the space.",
     [R], [("searches among the sorted bounds", R + ": _SortedDictRangeSet.range_containing, range_enclosing_range, ranges_enclosed_by, ranges_overlapping, __contains__, encloses, intersects, rightmost_containing_or_below, leftmost_containing_or_above"), ("collective queries", R + ": RangeSet.encloses_all")],
     "Oracle: linear scan with independently computed positions.")
prop("C05", "Range sets and maps are values: equality, hashes, snapshots, copies, pickles",
     "Two range sets, mutable or immutable, are equal exactly when they have the same members, however they were built, and equal sets hash equal; two range maps are equal exactly when they have the same ranges with equal values, whatever the order they were given in, and equal maps hash equal. "
     "An immutable copy, a copy, deep copy or pickle (under every protocol) of a set or map is equal to the original, of the same kind, and answers queries alike; later changes to a mutable set do not change copies taken before, nor the other way round. "
     "Immutable sets have no methods which change them.",
     ["inputs", "histories"], "All pairs of sets and maps built in different ways from generated ranges, all pickle protocols, copy and deepcopy, empty sets, and histories of later additions and clearing.",
     "Tests pickle one or two fixed sets and compare few pairs.",
     [R], [("equality and hashing", R + ": RangeSet.__eq__, __hash__; RangeMap.__eq__, __hash__"), ("pickling", R + ": _SortedDictRangeSet.__reduce__, __setstate__, RangeSet.__getstate__, ImmutableRangeMap.__reduce__"), ("immutable copies", R + ": immutable_copy")],
     "Members compared with those of independently built objects.")
prop("C06", "A range map finds the entry for a value, and refuses overlapping keys",
     "A range map looked up by a value gives the value of the one key range which contains it, and None when none does; `in` tells whether one does. "
     "get_from_rightmost_containing_or_below, get_from_leftmost_containing_or_above (and their aliases ..._maximal_... and ..._minimal_...), get_enclosed_by, as_dict and is_empty agree with a scan over the entries it was built from, also for values which are None, false or equal to each other. "
     "Keys which are connected (overlapping or touching) or empty are refused with ValueError however the map is built (factory function or builder), whatever their order.",
     ["inputs"], "All lists of entries over small dense domains of several types, in any order, legal or not, with look-ups at every point and by ranges of every bound kind.",
     "Tests build one or two maps; the lookups depend on bound kinds at neighbouring keys.",
     [R], [("map over a range set", R + ": ImmutableRangeMap.__getitem__, __contains__, get_enclosed_by, get_from_rightmost_containing_or_below, get_from_leftmost_containing_or_above, as_dict"), ("validation of keys", R + ": ImmutableRangeMap.__attrs_post_init__, _init_range_set; ImmutableRangeMap.Builder, immutablerangemap")],
     "Oracle: scan over the entries.")
prop("C07", "Spans are half-open offset intervals, and their algebra agrees with offset sets",
     "A span from start to end covers exactly the offsets from start up to but excluding end; it is refused with ValueError unless start is less than end, and with TypeError unless both are integers, cannot be assigned to, and its length, equality, hash, order, notation [start:end) and range (closed, from start to end - 1) follow from these offsets. "
     "contains_offset, contains_span, `in`, precedes, follows, overlaps, intersection and clip_to (None when there is nothing in common), shift and minimal_enclosing_span (of any iterable, ValueError when it is empty) give what the sets of offsets give. "
     "Sorting by earliest_then_longest_first_key orders by start and then the longest first; items with spans (HasSpan) answer as their span does.",
     ["inputs"], "Small spans in all relative positions, large and negative offsets, offsets around both ends, and lists, iterators, generators and sets of spans.",
     "Tests use a few pairs; off-by-one behaviour at touching and nested ends is the quantifier.",
     [S], [("span algebra", S + ": Span"), ("things with spans", S + ": HasSpan")],
     "Oracle: Python sets of integers.")
prop("C08", "Span indexes agree with a scan over the indexed items",
     "An index of items with spans answers get_exactly_matching, get_overlapping (spans with an offset in common), get_contained (items within the span) and get_containing (items around the span) with exactly the items a scan over all items gives, each equal item once, whatever the items' equality, their order, and whether they come from a list or an iterator. "
     "An index of disjoint items answers alike, with the item or None where there can be only one. "
     "Building it from items whose spans overlap, or from different items with the same span, is refused with ValueError.",
     ["inputs"], "All sets of small spans, disjoint, touching, nested or overlapping, as items compared by value, by name only or by identity (also false ones), and all query spans around them.",
     "Tests query one index with few spans; the answers depend on neighbouring, touching and nested spans.",
     [S, R], [("disjoint index over a range map", S + ": HasSpanIndex.index_disjoint, _DisjointHasSpanIndex, _build_range_to_item_index"), ("index of overlapping items", S + ": HasSpanIndex.index, _OverLappingHasSpanIndex")],
     "Oracle: scan over the items.")
prop("C09", "Annotated text keeps the text, nests tags and puts them at their offsets",
     "Formatting a text with annotations inserts for each annotation one start tag before its first and one end tag after its last character and changes nothing else; at one offset end tags come before start tags; longer annotations start first and end last, and of those with identical spans the first given starts first and ends last, so that tags nest properly whenever annotations do. "
     "A start tag has the label and all attributes sorted by name, and the constructors for div and span give an annotation of that label and class. "
     "With text offsets given, annotations are clipped to them and shifted, those entirely outside are left out, and a text of another length is refused with ValueError; an empty text stays empty; the annotations given are not changed.",
     ["inputs"], "All texts (any Unicode, markup characters) and lists of annotations with nested, crossing, touching and identical spans, any labels and attributes, with and without text offsets.",
     "Tests format a few fixed strings; orders of tags at one offset need combinations of annotations.",
     ["vistautils/annotated_text_utils.py"], [("tags sorted by offset", "vistautils/annotated_text_utils.py: HTMLStyleAnnotationFormatter.annotated_text, _tag_sequence"), ("clipping", "vistautils/annotated_text_utils.py: _clip_to_offsets_and_shift"), ("tags", "vistautils/annotated_text_utils.py: to_start_tag, to_end_tag, AnnotatedSpan.create_div_of_class, create_span_of_class")],
     "Oracle: reference formatter, plus a parser that recovers text and spans from the output.")
prop("C10", "Parameters look-up: values by dotted name, defaults, types, and errors by name",
     "A parameter is found exactly where its dotted name leads through namespaces; `in`, get, get_optional, namespace look-ups (or_empty) and look-ups within a namespace agree with the tree the parameters were made of. "
     "A typed accessor (string, integer, positive integer, floating point within an inclusive or exclusive range, boolean, list with restrictions, enumeration and their optional forms) gives exactly the value when it has the type and satisfies the restriction, the default (also a false one) or None only when the parameter is absent, and otherwise raises ParameterError, whose message names the parameter asked for. A parameter which is null counts as absent, except that get gives None for it. "
     "assert_exactly_one_present passes exactly when one of the names is present, sub-namespaces are listed in order, and no look-up changes the parameters.",
     ["inputs"], "All trees of namespaces with values of all types, every accessor with values of its own and of other types, present, absent, nested, below a leaf, with and without defaults and restrictions.",
     "Tests read a few fixed trees; values which are false, of almost the right type, or nested are combinations.",
     [PA], [("look-up", PA + ": Parameters.get, _private_get, __contains__, namespace, namespace_or_empty, sub_namespaces"), ("typed accessors", PA + ": Parameters.string, integer, positive_integer, floating_point, boolean, arbitrary_list, enum and optional_*")],
     "Oracle: nested dictionaries and a table of accepted types per accessor.")
prop("C11", "Unifying parameters is a deep, right-biased merge which changes neither side",
     "The unification of two sets of parameters has every name of either side: values only on one side as they are there, namespaces on both sides unified in turn, and otherwise the value of the right side, except that a value on one side where the other has a namespace is refused with an error which names such a parameter. "
     "It accepts parameters and plain mappings alike, carries the prefix given, and a chain of unifications without conflicts does not depend on how it is bracketed. "
     "Both sides stay as they were, and all names of the result lead to their values.",
     ["inputs"], "All pairs and chains of trees, sharing much, some or nothing of their shape, with and without conflicts, as parameters or mappings.",
     "Tests unify one or two pairs; depth, overlap and conflicts are the space.",
     [PA], [("unification", PA + ": Parameters.unify, _unify")],
     "Oracle: merge of nested dictionaries.")
prop("C12", "Parameters round-trip with nested dictionaries and pairs; equality and hashes",
     "Parameters made from a nested mapping give back an equal nested dictionary, in the same order, and as pairs of qualified names and values give every leaf once; changing the mapping afterwards, or what was given back, does not change the parameters. "
     "Parameters made from pairs of qualified names and values, in any order and with any separator, have exactly these values (a mapping is a namespace, to which later pairs may add, but which is not itself changed), with the namespaces needed, where a later pair replaces an earlier one. "
     "Equal trees make equal parameters with equal hashes, different ones do not; names with a dot, empty names in pairs, pairs with a name below one which has a value, and things which are no mapping are refused.",
     ["inputs"], "All trees of namespaces over values of all types, whole or taken out as a namespace, all lists of pairs including replaced names, all separators.",
     "Tests convert one or two fixed trees.",
     [PA], [("conversion", PA + ": Parameters.from_mapping, as_nested_dicts, as_mapping, namespaced_items, from_key_value_pairs"), ("identity", PA + ": Parameters.__eq__, __hash__ by attrs; _dict_from_string")],
     "Oracle: the nested dictionaries the case was generated as.")
prop("C13", "Parameters written as YAML are the same parameters when loaded again",
     "Writing parameters with the YAML writer, to a string, a sink, a path or a file name, and loading the result gives equal parameters: the same names in the same order at the top, values of the same types and equal, with paths as strings, sequences as lists and values of subclasses of text and numbers (such as members of enumerations) as the plain values they are, however odd the texts are (leading blanks, looking like numbers or YAML syntax, any Unicode, line breaks). "
     "Writing does not change the parameters. "
     "Values which YAML cannot express are refused rather than written otherwise, and text which is not a mapping with string names is refused when loading, without running anything.",
     ["inputs"], "All trees of parameters with odd names and values, every way to write and load.",
     "Tests write one or two small fixed trees; quoting, types and Unicode are an open space.",
     [PA], [("writing", PA + ": YAMLParametersWriter.write, _preprocess"), ("loading", PA + ": YAMLParametersLoader.load, load_string")],
     "Oracle: the generated tree itself, compared with types.")
prop("C14", "Interpolation replaces every %name% by that parameter's value; cycles are errors",
     "Loading parameters replaces each %name% in a text by the value of the parameter with that (dotted) name: one of the same file, else of the context given, else (if asked for) an environment variable; values of the file have precedence, and are themselves interpolated first, whatever the order they are written in and however long the chain. "
     "A text which is just one reference becomes the value referred to, of any type (also a namespace, a list or a false value), references within longer texts must be to texts, texts without references and other values are unchanged, and the context is merged into the result but itself not changed. "
     "A reference to something undefined, or to itself over any number of steps, is refused with an error.",
     ["inputs", "configurations"], "All trees of texts with references forwards, backwards, across namespaces, in chains, stars, trees and cycles, to the context and the environment, in any order of the file, loaded from a string or a file.",
     "Tests interpolate a few fixed files; orders, chains and cycles need a search.",
     [PA, "vistautils/_graph.py"], [("interpolation in dependency order", PA + ": YAMLParametersLoader._interpolate and its helpers"), ("dependency order", "vistautils/_graph.py: Digraph.topological_sort")],
     "Oracle: memoised recursive substitution over the plain tree.")
prop("C15", "Included parameter files: in order, later ones win, usable in interpolation",
     "Loading a file with a top-level _includes list gives the parameters of the included files, resolved relative to the including file, in the order listed, each overriding those before it, and overridden by the including file's own parameters, with namespaces merged deeply. "
     "The parameters included can be referred to for interpolation in the files which come later and in the including file; the directive itself is not a parameter, and below the top level it is no directive. "
     "Missing, malformed or empty files, relative includes without a file, conflicts between a value and a namespace, and files which include each other in a circle are refused with an error, and the context given is not changed.",
     ["inputs", "configurations"], "All small trees of files in several directories which include each other, with overlapping names, references, contexts and environments.",
     "Tests load one or two fixed files with includes.",
     [PA], [("includes", PA + ": YAMLParametersLoader._inner_load_from_string, _update_params, load")],
     "Oracle: merge and substitution over plain trees, file by file.")
prop("C16", "Path parameters exist or are created as documented; nothing else on disk changes",
     "existing_file, existing_directory, creatable_file, creatable_directory, creatable_empty_directory and their optional forms give the path of the parameter exactly when the disk is as they require, and otherwise raise an error; the creatable ones create exactly the missing directories (for a file, its parents), the empty-directory one refuses directories with any content unless told to delete it, when exactly that content is deleted, and nothing else on the disk is created, changed or removed in any history. "
     "An absent optional parameter gives None, and values which are no strings are refused. "
     "Lists and maps of paths (given directly or in a file, lists without comments and blank lines) give the paths of their lines, in order, resolved against the directory given, maps with malformed lines are refused, and pickled object parameters give the object written.",
     ["histories", "inputs"], "All histories of calls on directory trees with files, directories, symbolic links and broken links in any place, paths written in several ways, and all lists and maps of files.",
     "Tests try each method once or twice; what is on the disk already is the space.",
     [PA], [("path parameters", PA + ": Parameters.existing_file, existing_directory, creatable_file, creatable_directory, creatable_empty_directory, optional_*"), ("lists and maps", PA + ": Parameters.path_list_from_file, path_map_from_file, pickled_object_from_file")],
     "Oracle: model of the disk, with a snapshot of all files after each step; runs in a scratch directory.")
prop("C17", "Evaluated and factory-made parameters give what was asked for, else an error",
     "Evaluating a parameter gives the value of its expression (as a string, or a namespace with value and import) in the given context and with the imports asked for, the special value or the default when these apply, and raises ParameterError when it is missing, fails or has not the expected type. "
     "Making an object from parameters applies the factory named by the namespace (with from_parameters, or called, as documented) to that namespace's parameters, a special factory or the default factory when these are asked for, or gives the value; both a value and a factory are refused, and without either the default is used. "
     "Neither the parameters nor the caller's context are changed.",
     ["inputs", "configurations"], "All forms of the parameter (string, namespace with value or factory or both or neither, imports, dotted names), expected types, special values, special factories, defaults and contexts.",
     "Tests use a few fixed namespaces; which combination of forms, defaults and contexts applies is a product.",
     [PA], [("evaluation", PA + ": Parameters.evaluate, optional_evaluate"), ("factories", PA + ": Parameters.object_from_parameters, from_parameters")],
     "Oracle: decision table over the generated form; values evaluated directly by Python.")
prop("C18", "Entry points run the main method once with the file's and the user's parameters",
     "A program with parameters only runs its main method exactly once with the parameters of its parameter file, interpolated, overridden by each -p name value given (dotted names reach into namespaces, later ones win), and logging configured from them. "
     "Without a parameter file, with one which is missing, or with wrong arguments it does not run the main method and fails, with usage for wrong arguments; parameters passed explicitly take the place of the file and are not changed. "
     "What the main method raises is passed on.",
     ["inputs", "configurations"], "All parameter trees and lists of overrides on new and existing, top-level and nested names, in any position among the arguments, explicit parameters, faulty arguments and failing main methods.",
     "Tests run an entry point once or twice.",
     ["vistautils/parameters_only_entrypoint.py", PA], [("argument handling", "vistautils/parameters_only_entrypoint.py: parameters_only_entry_point"), ("overrides", PA + ": Parameters.from_key_value_pairs, unify")],
     "Oracle: merge of plain trees; main records its calls.")
prop("C19", "Sources give exactly the text or bytes kept, each time, wherever they are kept",
     "A source of text or bytes over a string, a file, a compressed file, a member of a zip or .tar.gz file, or one of a user's own gives exactly the content stored, by every way to read it (as a whole, by lines broken at line feeds only, opened as a stream and read in pieces, tested for emptiness), in the encoding asked for, whatever else is stored beside, and again the same each time. "
     "Reading leaves no file open, changes nothing stored, and gives an error, never an empty text, when there is nothing at the place or it cannot be decoded.",
     ["inputs", "histories"], "All texts and bytes, short and longer than buffers, over all kinds of source, encodings, compressions and member names, and sequences of ways to read.",
     "Tests read one short text from each source; encodings, line ends and sizes are the space.",
     [IO], [("sources of text", IO + ": CharSource and its implementations"), ("sources of bytes", IO + ": ByteSource and its implementations")],
     "Oracle: the generated content.", )
prop("C20", "Sinks: in any history of writes each target holds exactly what was written last",
     "After any sequence of writes through sinks of text or bytes (to files, members of zip files, strings, buffers, nowhere), by write, writelines or an opened stream, each target holds exactly what was written to it last, in UTF-8, and nothing of what was there before. "
     "Directories needed for a file are made, other files and other members of the same zip file keep their content, no file is left open, also when the writer fails, and the memory sinks give exactly the last text or bytes written, None before that.",
     ["histories", "inputs"], "All sequences of writes over fourteen targets, some sharing a file, with old content, empty and long pieces, re-used and fresh sinks, and failing writers.",
     "Tests write once to each sink; histories on shared files are not sampled.",
     [IO], [("sinks of text", IO + ": CharSink and its implementations"), ("sinks of bytes", IO + ": ByteSink and its implementations")],
     "Model: target to content; whole disk compared.")
prop("C21", "Document maps and line sets read back as written; malformed lines are refused",
     "A map from document ids to paths, written to a string or file sink, is written as one line per document sorted by id with the absolute path, and reading it gives an equal map; a line which is not an id, a tab and a path is refused with an error which shows the line, and spaces around and a missing last newline do not matter. "
     "file_lines_to_set gives exactly the distinct non-empty lines in the order of the file. "
     "is_empty_directory holds exactly for directories without any entry and refuses what is no directory.",
     ["inputs"], "All maps with odd ids and paths, all files with good and malformed lines, all files of lines, all small directories.",
     "Tests use one map of two entries.",
     [IO], [("maps", IO + ": write_doc_id_to_file_map, read_doc_id_to_file_map"), ("lines", IO + ": file_lines_to_set"), ("directories", IO + ": is_empty_directory")],
     "Oracle: the generated map or lines.")
prop("C22", "Zip stores hold exactly what was put, after any history of sessions",
     "After any sequence of sessions on a zip key-value sink (overwriting or appending, of text or bytes, with any file name function and list of keys, ended normally or by an error), a source on the file has exactly the keys put and gives for each exactly the value put; keys absent give KeyError or the default, however near to a key which is there, a value which cannot be read is an error and never the default, and items gives each pair once (filtered by key when asked). "
     "A second put of a key, also of one of an earlier session, is refused and changes nothing; values of a wrong type are refused and not listed. "
     "Sinks and sources used outside a context manager are refused, other files in the zip are kept when appending and gone when overwriting.",
     ["histories", "inputs"], "All sequences of sessions and puts over many keys and values of any size, every way to name files and to list keys, files made by others.",
     "Tests write one session of one or two keys.",
     [KV], [("sinks", KV + ": KeyValueSink.zip_character_sink, zip_bytes_sink, _ZipKeyValueSink"), ("sources", KV + ": KeyValueSource.zip_character_source, zip_bytes_source, _ZipFileKeyValueSource"), ("list of keys", KV + ": _read_keys_from_keys_file, _write_keys_to_keys_file")],
     "Model: a dictionary; also reads the zip file independently.")
prop("C23", "Key-value stores of every kind agree with a mapping, however made and wrapped",
     "A source over a mapping of files, an index file of a directory, a .tgz archive (with key function and name filter) or a wrapper which interprets the values of another source has exactly the keys and values of the corresponding mapping: by index, get with defaults, keys and items with key filter; absent keys give KeyError or the default. "
     "A directory sink stores each pair in a file of its own, and its index leads to all of them, also after an error in the session or an earlier session. "
     "Sources and sinks made from parameters are of the type the parameters name (or are given by the documented default), in the namespaces asked for, and wrong parameters are refused with ParameterError.",
     ["inputs", "histories"], "All small stores with odd keys and values, every kind of store and wrapper, every way to make them, archives with duplicate and foreign members.",
     "Tests use one small store of each kind.",
     [KV], [("mapped files", KV + ": KeyValueSource.from_doc_id_to_file_map, binary_from_doc_id_to_file_map, from_path_mapping, binary_from_path_mapping"), ("archives", KV + ": KeyValueLinearSource.str_linear_source_from_tar_gz, bytes_linear_source_from_tar_gz"), ("wrappers and directory sinks", KV + ": KeyValueSource.interpret_values, _DirectoryBytesKeyValueSink, _DirectoryCharKeyValueSink"), ("from parameters", KV + ": byte_key_value_source_from_params, char_key_value_source_from_params, byte_key_value_sink_from_params, char_key_value_sink_from_params, byte_key_value_linear_source_from_params")],
     "Oracle: a dictionary.")
prop("C24", "Splitting and joining key-value stores loses, adds and changes nothing",
     "Splitting a store into slices gives the number asked for, listed in _slices.txt, whose sizes differ by at most one and which together have every pair of the input exactly once; the same parameters give the same slices, in every process, and different random seeds different ones. "
     "An explicit split gives for each key file a store of exactly its keys with their values; a key which is not in the input, and (unless must_be_exhaustive is false) an input key in no key file, are errors which name it. "
     "Joining stores gives exactly the union of their pairs, refuses a key which is in two of them, and joining the slices of a split gives the input back; the inputs are not changed, and bad parameters are refused.",
     ["inputs", "configurations"], "All small stores as zip files or maps of files, all numbers of slices and seeds, all explicit splits (overlapping, exhaustive or not, with missing keys), all lists of stores to join.",
     "Tests split and join one fixed store.",
     [SC + "split_key_value_store.py", SC + "join_key_value_stores.py", KV], [("splitting", SC + "split_key_value_store.py: _split_into_even_slices, _explicit_split"), ("joining", SC + "join_key_value_stores.py: main")],
     "Oracle: dictionaries; determinism across interpreters with different hash seeds.")
prop("C25", "Downsampling gives a deterministic sample of the size asked for",
     "Downsampling a store of any kind to n pairs writes exactly min(n, size) distinct pairs of the input with their values and nothing else, replacing an output of an earlier run, and leaves the input unchanged. "
     "The same parameters give the same sample in the same order in every process, whatever the hash seed, other uses of random numbers and the order in which the store lists its keys, and the sample depends on random_seed: no pair is always or never taken. "
     "A number which is not positive or missing, and a missing input or output, are refused with ParameterError before anything is written.",
     ["inputs", "configurations"], "All small stores as zip files or maps of files, all sizes and seeds, several interpreters.",
     "Tests downsample one fixed store once, in one process.",
     [SC + "downsample_key_value_store.py", KV], [("sampling", SC + "downsample_key_value_store.py: main")],
     "Oracle: set relations; repeated runs, also in other interpreters.")
prop("C26", "Converting directories and tar files, and printing text at offsets, keep content",
     "Copying a directory into a store gives one entry per file, with its name (or its name without the last extension, when asked for) as key and exactly its bytes as value; files whose keys would be equal are not silently dropped from a zip store but refused. "
     "Converting a tar file makes a zip file named after it (.tar, .tar.gz or .tgz replaced by .zip, else .zip appended) with exactly its files, whether streamed or unpacked first, with large files (above the cut-off given, or 2 GB) omitted (and warned of) exactly when asked for, replaces an existing zip file, and leaves nothing else behind. "
     "Printing the text at offsets prints exactly the characters (not bytes) from the start to before the end, and says so when an offset is out of bounds.",
     ["inputs", "configurations"], "All small directories and tar files (compressed in any way, with odd names, times and sizes around the cut-off), all texts and offsets around their ends.",
     "Tests convert one fixed directory; the other programs have no tests.",
     [SC + "directory_to_key_value_store.py", SC + "tar_gz_to_zip.py", SC + "text_at_offsets.py"], [("directories", SC + "directory_to_key_value_store.py: main, strip_one_extension_key_function"), ("archives", SC + "tar_gz_to_zip.py: main, _output_name"), ("text", SC + "text_at_offsets.py: main")],
     "Oracle: the generated files, archives and texts; programs run with scratch working and temporary directories.")
prop("C27", "Checkpoints are a persistent set of names shared by all handles on the directory",
     "In every history of set, reset_all and look-ups over any number of checkpoint handles on one directory, a name is in the checkpoints of each of them, and of every one opened later, exactly when it was set by any of them and no reset_all came after. "
     "Names which differ in anything (case, dots, blanks, Unicode, line breaks) are different; looking for or setting something which is no string is refused with TypeError. "
     "Opening creates the directory where missing, keeps what was set before, and no operation touches files in other directories.",
     ["histories"], "All histories of setting, resetting, opening and asking over several handles and odd names, in new and nested directories given as path or string.",
     "Tests make a single checkpoint; persistence across handles and resets is a matter of histories.",
     ["vistautils/checkpoints.py"], [("one file per name", "vistautils/checkpoints.py: _CheckPointDirectory.set, __contains__, reset_all; Checkpoints.from_directory")],
     "Model: a set of names; other directories compared.")
prop("C28", "Iterator helpers give exactly the documented elements, lazily",
     "drop, windowed (with and without partial windows), tile_with_pairs, non_none and flatten_once_to_list give exactly the elements the documentation describes, the very same objects, in order, for every iterable, length and size, and refuse negative numbers to drop and window sizes below one with ValueError. "
     "On an iterator drop and windowed give an iterator; on another iterable, one which can be iterated again and in interleaved passes. only and get_only give the element when there is exactly one, whatever it compares equal to, and raise otherwise; none consumes more of an iterator than needed, so that they work on endless ones.",
     ["inputs"], "All short lists with None, false, equal, all-equal and incomparable elements, every shape of iterable (lists, tuples, generators, re-iterables, endless), every size parameter around the boundaries.",
     "Tests use one or two lists each; short inputs relative to the window size, and odd elements, are the boundary.",
     ["vistautils/iter_utils.py", "vistautils/iterutils.py", "vistautils/collection_utils.py", "vistautils/misc_utils.py"], [("iterator helpers", "vistautils/iter_utils.py: drop, windowed, only, non_none"), ("pairs", "vistautils/iterutils.py: tile_with_pairs"), ("only element", "vistautils/collection_utils.py: get_only"), ("flattening", "vistautils/misc_utils.py: flatten_once_to_list")],
     "Oracle: list slicing and identity of elements.")
prop("C29", "Amounts of memory are parsed exactly, and nothing else is accepted",
     "A string is accepted as an amount of memory exactly when it is a positive whole number in decimal digits, at most one blank, and one of the units K, M, G, T in either case with at most one B in either case after it, and nothing else; the amount has then exactly this number and unit. "
     "Every other string is refused with an error, and so are units other than these single letters, and amounts which are no positive whole numbers. "
     "Amounts are equal exactly when number and unit are.",
     ["inputs"], "All short strings over the relevant characters and generated longer ones, with numbers of any size, leading zeros, trailing line breaks.",
     "Tests parse a few legal and malformed strings.",
     ["vistautils/memory_amount.py"], [("pattern", "vistautils/memory_amount.py: MemoryAmount.parse"), ("units", "vistautils/memory_amount.py: MemoryUnit.parse")],
     "Oracle: hand-written recogniser.")
prop("C30", "Dependency order: every node once, predecessors first; cycles are refused",
     "For every directed graph without cycles the topological order lists every node exactly once, the source of each edge before its target, each time it is asked for. "
     "A graph with a cycle, of any length and reached from anywhere, is refused with ParameterInterpolationError rather than ordered in part. "
     "Edges of nodes outside the graph are refused when it is made, and in-degrees count the distinct edges into a node.",
     ["inputs"], "All small graphs with any edges, forward or not, cycles, self-loops, duplicate edges, isolated nodes, in any order.",
     "Tests build very few graphs; cycles reached late and diamonds need a search.",
     ["vistautils/_graph.py"], [("topological sort by in-degrees", "vistautils/_graph.py: Digraph.topological_sort, InDegreeView"), ("validation", "vistautils/_graph.py: validate_edges")],
     "Oracle: independent elimination of free nodes, and positions of edges.")
prop("C31", "Preconditions pass exactly when they hold, return the value, and say what failed",
     "Each precondition check passes exactly when its condition holds for the values given: check_arg and check_state for every true value, check_not_none and check_args_not_none for everything but None (also false values), check_args_are_none for Nones only, the isinstance checks for instances (also of subclasses and for tuples of classes; None for the optional one; every item of an iterator for the collective one), check_issubclass for subclasses, check_in for members. "
     "It then returns its argument itself where it returns one. "
     "Otherwise it raises ValueError, AssertionError (check_state) or TypeError (types) with the caller's message verbatim, formatted only when arguments for it are given; type and membership errors show the item, and the latter the legal values (when they are few) and the name.",
     ["inputs"], "All combinations of values (false, None, of other types), classes, tuples of classes and messages with and without formatting arguments and percent signs.",
     "Tests check a few failing and passing calls.",
     ["vistautils/preconditions.py"], [("checks", "vistautils/preconditions.py")],
     "Oracle: the condition restated directly.")
prop("C32", "Names, limited lists, evaluation contexts and identified items do as documented",
     "A list shown with a limit shows all elements when they fit, and otherwise exactly the first ones and the number of those left out, for any iterable; a negative limit is refused; strip_extension removes exactly the last dot and what follows it; pathify gives the path of a string and a path itself. "
     "The fully qualified name of a class, a module or an object's class is its module and qualified name, without the module for built-ins. "
     "An expression evaluated in the context of modules has the value Python gives it with these modules and the caller's names (which win), leaves the caller's context unchanged, and fails with TypeError when the value has not the expected type; items with ids or scores refuse a missing item, empty or non-string ids and non-float scores, and cannot be assigned to.",
     ["inputs"], "All short lists and limits, names with dots, classes and objects of all nestings, expressions with values and modules, ids, items and scores of all types.",
     "Tests sample one or two of each.",
     ["vistautils/misc_utils.py", "vistautils/class_utils.py"], [("helpers", "vistautils/misc_utils.py: str_list_limited, eval_in_context_of_modules, pathify, strip_extension, WithId, Scored"), ("names", "vistautils/class_utils.py: fully_qualified_name, fully_qualified_name_of_type")],
     "Oracle: restated behaviour.")
prop("C33", "Logging is configured as the parameters ask",
     "After configuring logging from parameters the root logger has the level which logging.root_level names (INFO when it is absent), and exactly the messages at or above it (and the level of its own which a logger may have) are emitted, each once, with their level, logger and text; the parameters themselves are logged exactly when asked for. "
     "With logging.config_file the file's configuration applies instead. "
     "An unknown level (with an error which names it) and a missing configuration file are refused with ParameterError.",
     ["configurations", "inputs"], "All levels, spellings and non-levels, sequences of messages at all levels to several loggers, and combinations of configuration file and level.",
     "Tests configure one or two fixed levels.",
     ["vistautils/logging_utils.py"], [("configuration", "vistautils/logging_utils.py: configure_logging_from, _config_logging_from_params")],
     "Each case runs with saved and restored logging state; output is captured.")
prop("C34", "Attribute helpers validate types, convert containers and never share state",
     "Attributes declared with the helpers accept exactly values of the declared type or types (None as well for optional ones, which default to None or the default given) and refuse all others, and missing required ones, with TypeError; those with a factory or private builder give every instance a fresh one of its own, and a private builder cannot be passed in. "
     "Attributes declared immutable hold an immutable collection of the declared type equal to the one given, unaffected by later changes to it, and the optional ones an empty one when given None or nothing. "
     "Types which are no immutable collections are refused with ValueError.",
     ["inputs", "histories"], "All helper kinds with values of matching and other types and defaults, and instances changed after construction.",
     "Tests construct one instance per helper.",
     ["vistautils/attrutils.py"], [("validators and converters", "vistautils/attrutils.py: attrib_instance_of, attrib_opt_instance_of, attrib_factory, attrib_immutable, attrib_opt_immutable, attrib_private_immutable_builder")],
     "Oracle: restated behaviour.")

P.sort(key=lambda p: p["pid"])
lines, checks = [], []
for p in P:
    if not os.path.exists(os.path.join(ROOT, "pbt", "props", p["pid"].lower() + ".py")):
        print("no check yet:", p["pid"])
        continue
    assert len(p["title"]) <= 80, (p["pid"], len(p["title"]))
    rec = {
        "id": p["pid"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
    }
    if p["state"]:
        rec["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    lines.append(json.dumps(rec))
    checks.append({
        "property": p["pid"],
        "quick_cmd": "VERIF_TIER=quick ./check %s" % p["pid"],
        "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p["pid"],
        "technique": "property-based testing (Hypothesis generators, explicit oracle, shrinking)",
        "level": "exploration",
        "level_note": p["note"],
    })
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": [],
        "notes": "Every check is one command, ./check <property>; see DESIGN.md. No hooks in /repo are needed.",
    }, f, indent=1)
    f.write("\n")
print(len(checks), "properties")
