# One entry per property; executed by props.py.

prop("C02", "Keyword lines of .cell/.param files report the right key, value and unit",
     "Every scalar or vector keyword line of a .cell or .param file is reported under its lower-case name with the value the file states: "
     "booleans as booleans (a keyword standing alone is true), numbers and rationals as numbers of the right kind, vectors as sequences, text unchanged, and a unit next to the value when one is given. "
     "Separator style (space, tab, '=' or ':'), letter case of the keyword, comments and blank lines make no difference, and no line is dropped or merged with another.",
     "inputs", "all files made of keyword lines: any keyword name, any boolean/integer/real/rational/vector/text value, with or without a unit, any separator and comment placement",
     "Tests hold a few hand-written keyword lines; the line grammar (signs, exponents, digits in names, text that begins like a number, units) is combinatorial.",
     ["parsers/cell_param_file_parser.py", "utilities/castep_res.py", "utilities/type_conv.py"],
     [("keyword line pattern and value typing", "parsers/cell_param_file_parser.py"), ("determine_type / to_type", "utilities/type_conv.py")],
     note=("generated keyword files against a line-by-line reference reading", "Text values are limited to what CASTEP accepts on one line."))

prop("C03", "%BLOCK sections of .cell/.param files are reported completely and exactly",
     "For every kind of block the reader knows (positions, lattice, symmetry, k-points, species tables, constraints, external fields and pressures, Hubbard U, quantisation axis, SEDC and others) the reported value contains exactly the rows of the block, in order, with the numbers, species, tags, labels, spins, mixture entries and units written in the file. "
     "Letter case and spacing of the block title, the unit line, comments and neighbouring blocks or keywords do not change what is reported for a block.",
     "inputs", "all block kinds with any number of rows, any legal numbers (including rationals in positions), species with and without tags, optional columns and units, in any order within a file",
     "Tests contain one instance of each block; number of rows, optional columns, signs, tags and combinations of blocks are unbounded.",
     ["parsers/cell_param_file_parser.py", "utilities/castep_res.py"],
     [("per-block readers and dispatch", "parsers/cell_param_file_parser.py")],
     note=("generated blocks and files against a model of the written rows", "Generated blocks follow the formats of the CASTEP documentation."))

prop("C04", "Pseudopotential strings and devel_code blocks are decoded losslessly",
     "A pseudopotential definition string is decoded into exactly the local channel, radii, cutoffs, projectors (with their types, radii, energies and signs), shell adjustments, test configuration and flags it spells out, for library names, file names and on-the-fly strings alike. "
     "A devel_code block is decoded into the nested sections and key/value pairs it contains, none lost when a section is repeated.",
     "inputs", "all on-the-fly generation strings with any number of projectors and optional parts, and all devel_code texts with any nesting, repeated sections and separators",
     "Tests decode a handful of strings; the string grammar is recursive with many optional parts.",
     ["parsers/cell_param_file_parser.py", "utilities/castep_res.py"],
     [("pseudopotential string patterns", "utilities/castep_res.py"), ("devel block reader", "parsers/cell_param_file_parser.py")],
     note=("generated strings and sections against the model they were written from", "local_energy in projector strings is outside the generated domain (never supported)."))

prop("C06", "The Fortran record reader behaves like a cursor over a list of records",
     "Reading a Fortran unformatted stream record by record returns exactly the records written, in order and byte for byte; skipping, rewinding, peeking, iterating and typed multi-record reads each move and read as the same operation on a list with a cursor would, in any sequence. "
     "Converting a record's bytes yields the integers, reals, complex numbers, logicals or text that were written.",
     "inputs histories", "all record lists (including empty records) and all operation histories on one reader; all values of each type",
     "Tests read one file front to back; the cursor's correctness is about histories of operations.",
     ["bin_parsers/fortran_bin_parser.py"],
     [("FortranBinaryReader", "bin_parsers/fortran_bin_parser.py")],
     note=("stateful histories against a list-with-cursor model; round trip of typed values", "Little/big endian convention is the one the reader documents."))

prop("C07", "Binary .cst_esp and .epme_bin files are reported value for value",
     "Parsing a binary electrostatic-potential file reports the number of spins, the grid and every potential value at its grid place (and the meta-GGA potential when there is one); parsing a binary electron-phonon file reports version, cell, ions, k-point eigenvalues and velocities and every coupling entry exactly as stored. "
     "Reading through a path gives the same result as reading through an open binary handle.",
     "inputs", "all grid sizes, one or two potentials, any number of ions, k-point pairs, bands and spins, any finite values",
     "Tests parse one small file of each kind.",
     ["bin_parsers/cst_esp_file_parser.py", "bin_parsers/epme_bin_parser.py", "bin_parsers/fortran_bin_parser.py"],
     [("parse_cst_esp_file", "bin_parsers/cst_esp_file_parser.py"), ("parse_epme_bin_file", "bin_parsers/epme_bin_parser.py")],
     note=("files written record by record from a model, compared value by value", "Grids have more than one point along the first direction; the two-spin potential layout is written as one block (assumption)."))

prop("C08", ".bands files report every k-point's eigenvalues under the right spin",
     "Parsing a .bands file reports the header (counts, electrons, Fermi energy per spin, unit cell) and, for each k-point in file order, its coordinates, weight and all eigenvalues, separated into up and down lists exactly when the file is spin polarised. No eigenvalue is lost, repeated or moved to another k-point or spin.",
     "inputs", "any number of k-points in any order, bands per spin, one or two spins, any fixed-point values",
     "The single sample file has two k-points; grouping depends on counts, order and spins.",
     ["parsers/bands_file_parser.py", "parsers/parse_utilities.py"],
     [("parse_bands_file", "parsers/bands_file_parser.py"), ("parse_regular_header", "parsers/parse_utilities.py")],
     note=("generated files against the model they were written from", "Eigenvalues are fixed-point as CASTEP writes them."))

prop("C09", "Gridded *_fmt files report every grid point once, in order",
     "Parsing a density, charge-difference, potential or electron-localisation file reports the grid indices as integer triples and one value per listed property for every grid line, in file order, under the property names given in the file's header. Blank lines and header contents do not add, drop or shift points.",
     "inputs", "any grid size and starting index, one or two data columns, fixed or exponent values, blank lines anywhere among the data",
     "Tests use a few lines of one column layout per format.",
     ["parsers/parse_fmt_files.py"], [("_parse_kpt_info", "parsers/parse_fmt_files.py")],
     note=("generated grids against the written rows", ""))

prop("C10", ".phonon and .phonon_dos files report every mode, or refuse the file",
     "Parsing a .phonon file reports for each q-point its position, weight, optional direction, every frequency, the infrared and Raman intensities where printed, and every eigenvector component in mode/ion order; parsing a .phonon_dos file reports every gradient row and each density-of-states column under its own name. "
     "A .phonon file in which a q-point has a missing or extra mode row is refused with an error, not reported.",
     "inputs", "any number of atoms, q-points and bins, with and without LO/TO directions, infrared and Raman columns, any fixed-point values; any single missing or duplicated row",
     "One sample per format; fixed-column reading, optional columns and row counting depend on the values.",
     ["parsers/phonon_file_parser.py", "parsers/phonon_dos_file_parser.py", "parsers/parse_utilities.py"],
     [("parse_phonon_file", "parsers/phonon_file_parser.py"), ("parse_phonon_dos_file", "parsers/phonon_dos_file_parser.py")],
     note=("generated files against the model; single-row mutations must be refused", "The dropped last DOS row is a listed known finding; the check accepts that variant only."))

prop("C11", ".efield and .elastic files report every tensor in full",
     "Parsing an .efield file reports the header and the permittivity and oscillator-strength tables column by column; parsing an .elastic file reports the header, every tensor block under its own name with its unit and all rows and columns, and internal strain rows per atom. Tensors keep their values, signs and order whichever blocks are present.",
     "inputs", "any number of atoms, modes and frequencies, any subset and order of tensor blocks, any values including list-directed exponent forms",
     "One sample per format.",
     ["parsers/efield_file_parser.py", "parsers/elastic_file_parser.py", "parsers/parse_utilities.py"],
     [("parse_efield_file", "parsers/efield_file_parser.py"), ("parse_elastic_file", "parsers/elastic_file_parser.py")],
     note=("generated files against the model they were written from", "Known findings pinned by the reference data (last rows dropped, oscillator columns shifted, index inside strain rows) are listed; exactly those variants are accepted."))

prop("C12", ".magres files report every tensor for every site and pair",
     "Parsing a .magres file reports the calculation record, the lattice and atoms, and every shielding, electric-field-gradient and J-coupling tensor for exactly the site or pair of sites it belongs to, with units and with both short and long names; index digits that touch the species name are separated correctly for the code version in the file. The old-style block adds each atom's eigenvalues, eigenvectors and scalar values.",
     "inputs", "any species and atom indices (including ones that fill the index column), any subset of tensors, any code version, with and without the old-style block",
     "The sample has one atom; joined species/index columns depend on version and index width.",
     ["parsers/magres_file_parser.py"], [("parse_magres_file", "parsers/magres_file_parser.py")],
     note=("generated files against the model they were written from", "Only the last total shielding tensor is kept (listed known finding)."))

prop("C13", ".md/.geom trajectories report every frame with every quantity",
     "Parsing a .md or .geom trajectory returns one entry per frame, in order, holding exactly the time or step, energies, temperature, pressure, cell, cell velocity and stress of that frame and each atom's position, velocity and force, under both short and long names. Header presence, comment text, whether separating lines are empty or contain spaces, and a missing final blank line make no difference.",
     "inputs", "any number of frames, any subset of quantities, any atoms (tags included), frames of equal or differing contents, any header",
     "Tests use one artificial frame; frame separation and per-frame grouping are about many frames.",
     ["parsers/md_geom_file_parser.py"], [("parse_md_geom_file", "parsers/md_geom_file_parser.py")],
     note=("generated trajectories against the model they were written from", ""))

prop("C14", "Random access to a trajectory equals indexing the fully parsed list",
     "On a trajectory of equally sized frames the lazy reader's length, indexing (negative, slices, iterables), sequential reading and iteration with jumps return the very frames the whole-file parser returns at those positions, in any order and any interleaving of these accesses. Out-of-range requests raise an index error, reading past the end signals exhaustion, and the position reported for the next sequential read is always the frame such a read returns.",
     "inputs histories", "all access histories on files of any number of uniform frames, with and without header",
     "Tests make a few fixed accesses to one file; positions depend on the whole history.",
     ["tools/md_geom_parser.py", "parsers/md_geom_file_parser.py", "utilities/filewrapper.py"],
     [("MDGeomParser", "tools/md_geom_parser.py")],
     note=("stateful access histories against a list-with-cursor model and the eager parser", "Frames have equal byte length and a trailing blank line, as the reader documents."),
     observe=["MDGeomParser public methods and properties"])

prop("C15", "The small result files (.ts .tddft .epme .hug .xrd_sf .err) are reported in full",
     "Transition-state files report each structure (reagent, product, trial) with its reaction coordinate, energies, cell and per-atom positions and forces; TDDFT files every overlap and spectroscopic entry with complex dipoles; electron-phonon files the header and every row with its k-points and indices; Hugoniot, X-ray structure factor and error files every row, factor and stack line. "
     "Values keep order, sign and grouping whatever the number of entries.",
     "inputs", "any number of structures, states, rows, reflections and stack lines; any species, indices and values",
     "One sample per format.",
     ["parsers/ts_file_parser.py", "parsers/tddft_file_parser.py", "parsers/epme_file_parser.py", "parsers/hug_file_parser.py", "parsers/xrd_sf_file_parser.py", "parsers/err_file_parser.py"],
     [("parse_ts_file", "parsers/ts_file_parser.py"), ("parse_tddft_file", "parsers/tddft_file_parser.py"), ("parse_epme_file", "parsers/epme_file_parser.py")],
     note=("generated files against the model they were written from", "The shifted .epme value columns are a listed known finding; exactly that variant is accepted."))

CASTEP = ["parsers/castep_file_parser.py", "utilities/castep_res.py", "utilities/filewrapper.py"]
WRITERS = "Sections are written in the layouts of CASTEP's own output as recorded in the repository's samples."


def castep(pid, title, statement, text, why, mech, level):
    prop(pid, title, statement, "inputs", text, why, CASTEP, [(n, "parsers/castep_file_parser.py") for n in mech],
         note=("generated sections, alone and among others, between lines without data; against the model they were written from", level + WRITERS))


prop("C16", "A .castep file yields one report per run, in order, each complete and separate",
     "A file holding several CASTEP runs one after another is reported as a list with one entry per run, in file order; every entry equals what the run's own text gives when parsed alone. Nothing leaks from one run into another, and a run that reports nothing adds no entry.",
     "inputs histories", "any number of concatenated runs with any sections in each, with and without run banners on the first",
     "Samples contain one run per file; state carried between runs shows only when particular sections follow one another.",
     CASTEP, [("parse_castep_file run delimiting", "parsers/castep_file_parser.py")],
     note=("concatenated generated runs against the model and against parsing each run alone", WRITERS))

castep("C17", "A .castep file's run information, options and warnings are reported exactly",
       "Build information, start time, continuation file, titles, every option of the parameter echo with its value, unit and group, memory estimates, warnings (boxed and plain, with their continuation lines and no others) and the final timing block are reported with exactly the text and numbers printed, whatever lines surround them. A line that follows a warning but does not continue it is read as usual.",
       "any subset, order and repetition of these sections; any option names, values and units; any warning text and number of continuation lines",
       "Samples fix one set of options and one warning layout.",
       ["parse_castep_file header branches", "_process_params", "_process_memory_est", "_process_finalisation"],
       "Memory rows with punctuation in their name are a listed known finding. ")
castep("C18", "A .castep file's set-up (cell, atoms, potentials...) is reported exactly",
       "Unit cell, positions (plain, labelled and mixture tables, reagent and product), velocities, spins, supercell, stress target, k-point grids and lists, applied field, quantisation axis, masses, quadrupole moments, pseudopotential files and definition strings, pseudo-atomic energies, pseudopotential reports, symmetry and constraints, pair potentials and dispersion parameters are reported value for value under the right species and atom, for any number of rows, tags, labels and signs.",
       "all such sections with any number of atoms, species (tagged, labelled), k-points, symmetry operations and parameters, any values including zero and negatives",
       "Samples contain one instance of each table; tags, labels, row counts beyond nine, zero values and absent units are combinations tests do not reach.",
       ["_process_unit_cell", "_process_atreg_block", "_process_spec_prop", "_process_kpoint_blocks", "_process_symmetry", "_process_pair_params", "_process_pspot_report", "_process_dftd"],
       "The third k-point component and the report's definition string are listed known findings. ")
castep("C19", "A .castep file's SCF cycles and energies are each reported once, in order",
       "Every SCF table is reported as its list of cycles with energy, Fermi energy (when the calculation has one), gain and time under the right names, with density, constraint and dipole notes and debug details on the cycle they belong to; every total energy, correction, solvation energy, spin integral, occupation table, line minimisation and delta-SCF state is reported once, in order. A finite-basis-set correction keeps its preliminary energies and SCF tables apart from the final ones.",
       "any number of cycles, cut-offs, tables and energies; metals and insulators; verbose and terse output; any values",
       "Samples cover a few cycles of one verbosity; attribution of notes to cycles and of energies to calculations depends on the sequence.",
       ["_process_scf", "_process_occupancies", "_process_wvfn_line_min", "_process_autosolvation", "_process_delta_scf"], "")
castep("C20", "Forces and stresses of a .castep file are reported per atom and kind, in order",
       "Every force table is reported under its kind (plain, symmetrised, constrained...) with all atoms and components, every stress tensor under its kind with its six components in Voigt order and printed sign, and the centre-of-mass force; repeated tables are appended in file order.",
       "any atoms, tags, kinds, marks on components (constrained, mixed) and repetition",
       "Samples have one table per kind.", ["_process_forces", "_process_stresses"], "")
castep("C21", "Vibrational, Raman, thermodynamic and Born-charge tables are reported in full",
       "For every q-point all modes with frequency, irreducible representation, intensities and activities where printed and the character table; dynamical matrices; Raman tensors with depolarisation and derived invariants; thermodynamic functions; displacement parameters; and Born charges are reported with no row lost, repeated or attributed to another q-point or atom.",
       "any number of q-points, modes, atoms, temperatures; every combination of optional columns; any values",
       "One sample per layout; optional columns and row counts combine.",
       ["_process_phonon", "_process_dynamical_matrix", "_process_raman", "_process_thermodynamics", "_process_atom_disp", "_process_born"], "")
castep("C22", "Every MD step and geometry iteration is reported once, with its own data",
       "Each molecular-dynamics iteration and each geometry-optimisation iteration is one entry, in order, holding exactly the positions, cell, energies, forces, stresses, SCF tables and convergence tables printed within it under the caller's selection; the state before the first geometry iteration becomes the first entry; the final configuration, enthalpy and bulk modulus, internal constraints and delocalised internals are reported. Nothing printed in one iteration is attributed to another or to the run.",
       "any number of iterations with any sections within them, any minimiser, any first step number, runs with no iterations, with and without a final configuration",
       "Samples have a few uniform iterations; attribution depends on which sections appear in which iteration.",
       ["parse_castep_file MD and geometry branches", "_process_md_block", "_process_geom_table", "_process_final_config_block", "_process_internal_constraints"],
       "Memory estimates inside MD iterations and constraints between an atom and its own image are listed known findings. ")
castep("C23", "Population and bonding analyses of a .castep file are reported per atom and bond",
       "Mulliken populations (unpolarised, collinear, separate spin rows), orbital populations, bond lengths and populations (with spin, including zero), Hirshfeld charges and electron-localisation histograms are reported for exactly the atoms and pairs printed, under the right shell and orbital names, with totals.",
       "any atoms, tags, orbitals (s to f), spins, bonds and values including zero",
       "One sample per layout.", ["_process_mulliken", "_process_orbital_populations", "_process_bond_analysis", "_process_hirshfeld", "_process_elf"], "")
castep("C24", "Response properties of a .castep file are reported tensor by tensor",
       "Permittivity, polarisability and non-linear optical tensors, TDDFT excitations, band structures, molecular dipoles, magnetic resonance tables, elastic constants, compliances, contributions and derived elastic properties, and Berry-phase polarisation are reported with every component in its place, under the right name, atom and unit.",
       "any number of states, bands, k-points and atoms; any values; any combination and repetition of tables",
       "One sample per table.",
       ["_process_3_6_matrix", "_process_tddft", "_process_band_structure", "_process_dipole", "_parse_magres_block", "_process_elastic_properties", "_process_berry_phase"],
       "Verbose Berry-phase tables that overwrite one another are a listed known finding. ")

prop("C25", "What a .castep section reports does not depend on what surrounds it",
     "Whatever other sections come before or after, in whatever order, and whatever informational lines CASTEP prints in between, each section contributes exactly the same data to the report: no line of one section is taken for another's, none is consumed by a neighbour, and lines without data change nothing.",
     "inputs", "all sequences of the known sections (over 60 kinds) with arbitrary other lines between them",
     "The parser is one dispatch chain of about a hundred patterns, so an edit to one pattern can capture or swallow another section's lines; tests exercise sections almost only in isolation.",
     CASTEP, [("parse_castep_file dispatch chain", "parsers/castep_file_parser.py"), ("Block.from_re", "utilities/filewrapper.py")],
     note=("random compositions of sections against the composed model; metamorphic insertion of lines", WRITERS))

prop("C26", "A level of detail keeps or drops whole kinds of data and changes nothing else",
     "For every set of filters, the report is exactly the data of the selected kinds: data of a kind that is not selected is absent, at top level and within iterations, and everything that is selected is the same as when everything is selected. The named levels (low, medium, high, full) contain the kinds they are documented to and high is the default. Selecting more only adds (pseudopotential definition strings, which are decoded where pseudopotential detail is selected, are kept as they are elsewhere).",
     "inputs", "all subsets of the thirty filters and all presets, on files of any sections",
     "2^30 selections times section sequences; tests use three presets on a few files. A selection check placed before or after a block is consumed changes what later lines mean.",
     CASTEP, [("Filters", "parsers/castep_file_parser.py"), ("selection guards of parse_castep_file", "parsers/castep_file_parser.py")],
     note=("random filter subsets against the filtered model; metamorphic monotonicity", "Energies, supercell and dE/dlnE lines are always reported (as the code does for every level). " + WRITERS))

ALL = ["parsers/__init__.py", "cli/castep_outputs_main.py", "utilities/utility.py"]
prop("C27", "However a file is handed over, the data are the same",
     "The data reported for a file depend on its bytes alone: passing an open handle, an in-memory file, a path as text or as Path object, calling the type's own parser or parse_single with the type deduced from the name or with the parser given (as a function, or by the type's name), with or without a named output format, with Unix or Windows line endings, gives the same data. A handle is read from where it stands and left open for its caller. A name whose type is unknown is refused with an error rather than guessed.",
     "inputs", "all files of all 22 file types, all stems and endings, every access route",
     "Tests open each sample one way; the routes times types times names are a product no list of samples covers.",
     ALL, [("parse_single, parse_all", "cli/castep_outputs_main.py"), ("file_or_path", "utilities/utility.py"), ("PARSERS", "parsers/__init__.py")],
     note=("generated files of every type read through every route, compared with each other", "Text files are UTF-8."))
prop("C28", "Dumped output reads back as the parsed data, in every output format",
     "Dumping any parsed data as JSON, YAML (either library), Python literal or pretty-printed text and reading that text back gives the same data: every key and value, with complex numbers, compound keys, infinities and nested sequences. JSON flattens compound keys by joining their parts, and nothing else; several files become one mapping from file name to data. Unknown formats are refused.",
     "inputs", "all parsed files of every type and all nested data built of the types the parsers return, in every format",
     "Tests compare dumps of samples with stored dumps made by the same code.",
     ["utilities/dumpers.py", "utilities/utility.py", "cli/castep_outputs_main.py"],
     [("get_dumpers", "utilities/dumpers.py"), ("json_safe, normalise, flatten_dict", "utilities/utility.py")],
     observe=["text written by parse_all / parse_single / the dumpers"],
     note=("round trip through independent readers of each format", "YAML is read back with the library's own loader."))
prop("C29", "The command line reads exactly the files asked for, each under its name",
     "castep_outputs with any mixture of seed names, file names, per-type lists, --inc and --inc-all switches reads exactly the existing files of those seeds (or those files) restricted to the requested types, in any directory and with dots or spaces in names, each once, reports each file's data under its name (or alone when there is one file), in the format and to the place asked for, and exits with success. Files of other seeds and types are never read.",
     "inputs", "all directory trees with files of all types, all argument combinations",
     "Argument combinations times directory contents; tests call the entry point with a few fixed lists.",
     ["cli/args.py", "cli/castep_outputs_main.py", "utilities/utility.py"],
     [("parse_args, args_to_dict", "cli/args.py"), ("main, parse_all", "cli/castep_outputs_main.py")],
     observe=["standard output or output file of the program"],
     note=("generated directory trees and argument lists against a model of the selection; in process and as a program", ""))
prop("C30", "The files predicted for a calculation are those of its task and switches",
     "get_generated_files returns exactly the files that the calculation described by its param and cell data writes: those of its task (whatever its spelling and letter case), those of each feature switched on, not those switched off, under the seed's own name, in the same order in every process, whether the data come from the seed, from named files or already parsed, and without changing the caller's data.",
     "inputs", "all combinations of task, switches, words, devel_code flags and pseudopotential settings; all seeds",
     "Dozens of independent switches and tasks interact; tests cover single ones.",
     ["tools/get_generated_files.py"],
     [("get_generated_files", "tools/get_generated_files.py")],
     observe=["return value of get_generated_files"],
     note=("generated inputs against a table-driven reference model; different hash seeds in separate processes", "Model written from the function's documentation and code."))
prop("C31", "A file which stops early is refused, or reported for what it holds",
     "For a file cut off at any line (a run which was killed), or a binary file cut at any byte, the reader either refuses the file or reports only data the whole file also has, in the same places (or, for what came before the first step of an optimisation, under that step), with sequences, mappings and warnings over several lines at most shorter; nothing is invented, and what was complete before the cut is still there when more is appended. A run which stopped after a complete section is reported without error.",
     "inputs crash_points", "all files of all types and every cut point",
     "Tests only parse complete files; the cut points of a file are as many as its lines.",
     ["parsers", "bin_parsers", "utilities/filewrapper.py"],
     [("end-of-file handling of every parser", "parsers"), ("Block.from_re eof_possible", "utilities/filewrapper.py"), ("frames of MDGeomParser", "parsers/md_geom_file_parser.py")],
     note=("generated files cut at random points; prefix relation between the reports of successive cuts", "Cuts inside a line of a text file are outside the domain: a truncated number is a different number."))
prop("C32", "A result depends on the file alone",
     "Reading a file gives the same data whatever was read before (including files which failed part way), however results returned earlier were changed by the caller, while other threads read other files, and in every process and hash seed, where mappings also keep the same order.",
     "inputs histories schedules", "all histories of reads and modifications, concurrent reads, processes",
     "Shared defaults, caches and module state show only over histories; every test starts afresh.",
     ["parsers", "bin_parsers", "utilities"],
     [("module-level tables and default arguments of all parsers", "parsers"), ("Filters defaults", "parsers/castep_file_parser.py")],
     note=("random histories of reads with destructive use of earlier results, against the first result; thread pools; fresh processes", "Threads are scheduled by the interpreter with a short switch interval, not enumerated."))
prop("C33", "Files and blocks are cursors over their lines",
     "Reading a wrapped file or a block by any sequence of single reads, one-line rewinds, blocks by pattern and blocks by count gives the lines of the file in order, with none lost or repeated: a block holds exactly the lines from its start to its n-th end line, reading goes on with the line after it, and an unfinished block is an error unless the end of the file may end it. "
     "Line numbers count the lines read, a block inside a block behaves like one in a file, removing bounds leaves the lines between. Stripping comments removes the comments, trailing blanks and empty lines, whatever the comment characters, and nothing else.",
     "inputs histories", "all texts and all operation histories on FileWrapper, Block (nested too) and plain files; all sets of comment characters",
     "Tests use these classes only through parsers on a few files; a cursor's correctness is about histories.",
     ["utilities/filewrapper.py", "utilities/utility.py"],
     [("FileWrapper", "utilities/filewrapper.py"), ("Block.from_re / get_lines / remove_bounds / rewind", "utilities/filewrapper.py"), ("strip_comments", "utilities/utility.py")],
     note=("stateful operation histories against a list-with-cursor model", "Rewinding after the end of the data was hit, and line numbers of blocks by count, are not claimed."),
     observe=["public methods of FileWrapper and Block, strip_comments"])

prop("C34", "Text becomes values, and values are rearranged, by one set of rules",
     "The numbers of a line are found whole and in order, whatever the signs, exponents and text between them; a text is typed as the narrowest kind that holds all its words and converted to it, structures are converted element by element, and labelled patterns capture each labelled number. "
     "Atom names are taken apart into species, tag and label. Helpers which stack, alias, flatten, strip and make data JSON-safe keep every value, under the key their documentation says, and leave their arguments alone unless they are documented to change them.",
     "inputs", "all numeric tokens, separators and nestings of data",
     "Doctests show one example each; the token grammar and the shapes of data are unbounded.",
     ["utilities/type_conv.py", "utilities/castep_res.py", "utilities/utility.py"],
     [("determine_type / to_type / fix_data_types / parse_int_or_float", "utilities/type_conv.py"), ("get_numbers / labelled_floats / get_atom_parts", "utilities/castep_res.py"),
      ("flatten_dict / json_safe / add_aliases / stack_dict / strip_nones / normalise_key", "utilities/utility.py")],
     note=("generated tokens and data against reference readings", "AtomLabel.from_str (which has no index to give) is outside."),
     observe=["return values of the public utilities"])

prop("C35", "Contradictory, malformed or missing input is refused with an error",
     "A binary electron-phonon file whose section tags are missing, repeated or wrong or whose counts of k-point pairs or bands disagree, a pseudopotential definition string with a part that cannot be read (an unclosed or empty bracket, an unreadable shell or projector group), a trajectory without frames, a request for a frame that does not exist or is no frame number, "
     "a file that does not exist, an unknown reader, format, file type or command-line argument, and a calculation whose files cannot be known are refused with an error: nothing is reported as if it had been understood, and the program neither prints data nor ends with success. The same input without the fault is accepted.",
     "inputs", "all placements of these faults in otherwise valid input",
     "Tests try valid input; that each guard is in place and looks at the right thing shows only on faults placed anywhere.",
     ["bin_parsers/epme_bin_parser.py", "parsers/cell_param_file_parser.py", "tools", "cli", "parsers/md_geom_file_parser.py"],
     [("_check_header, _parse_phonons", "bin_parsers/epme_bin_parser.py"), ("_parse_pspot_string, _parse_beta_function", "parsers/cell_param_file_parser.py"),
      ("MDGeomParser", "tools/md_geom_parser.py"), ("parse_single, parse_all", "cli/castep_outputs_main.py"), ("get_dumpers", "utilities/dumpers.py"), ("get_generated_files", "tools/get_generated_files.py")],
     note=("faults placed at random in generated valid input; the oracle is refusal of the fault and acceptance of the original", "Faults the readers were never meant to notice (unknown letters inside a projector, say) are outside."),
     observe=["exceptions raised by the public readers and tools, exit status and output of the program"])

prop("C36", "The cost of reading grows with what is read, not faster",
     "The work of reading any output file grows no faster than the number of its lines, rows, steps or runs; any number of them is read without running out of stack; a line of a few hundred characters, whatever it holds and wherever it stands, is read or refused at once; "
     "and the lazy trajectory reader opens a long file, tells its length and reads a frame anywhere in it without reading the frames in between.",
     "inputs", "all files of all types, all repetitions of their lines, all long lines",
     "Tests read small files, on which a quadratic loop, a recursion per line or a pattern which backtracks exponentially cost nothing.",
     ["parsers", "utilities/filewrapper.py", "utilities/castep_res.py", "tools/md_geom_parser.py"],
     [("FileWrapper, Block.from_re", "utilities/filewrapper.py"), ("gen_table_re and the regular expressions", "utilities/castep_res.py"), ("MDGeomParser", "tools/md_geom_parser.py"),
      ("parse_castep_file", "parsers/castep_file_parser.py")],
     note=("metamorphic: generated files with lines repeated N and 4N times, steps counted; lines widened to hundreds of columns under a CPU limit; bytes read by the lazy reader",
           "Steps of Python lines are counted, not time inside the C library, except for long lines, where only a limit of 12 CPU seconds against about one is claimed."))

prop("C37", "The log names the right line of the right file, and changes nothing",
     "At every level of logging the data read from a file of any type and name are the same and the program's output holds nothing but the data; messages go to the log alone, name the file, and a file which is in order causes nothing more severe than information, except that a trajectory without header is warned about. "
     "Each line of a .castep file that is logged stands under its own line number, also inside iterations and after lines read twice, each finding at or after the line where it begins, and runs and MD steps are counted as they are reported; the keywords and blocks found in .cell and .param files are those reported.",
     "inputs", "all files of all types, all file names, all levels",
     "No test looks at messages; line numbers depend on everything read before.",
     ["utilities/utility.py", "utilities/filewrapper.py", "parsers", "cli"],
     [("log_factory", "utilities/utility.py"), ("FileWrapper.lineno, Block.lineno", "utilities/filewrapper.py"), ("logger calls", "parsers"), ("parse_single, parse_all", "cli/castep_outputs_main.py")],
     observe=["records of the logging module, standard output and standard error of the program"],
     note=("generated files read at all levels with a handler that formats every message; the text of the line as oracle", "That a finding is logged at all is claimed for runs, MD steps, keywords and blocks only."))
