"""Texts of the properties; bin/gen.py writes properties.jsonl and MANIFEST.json from it and from props.py."""
import os
P = []
NA = []  # not_applicable


def p(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = state
    P.append((d, technique, note))


LP = "libraries/plumbing/"

p("L01", "The lattice is divided over ranks exactly, and every site has one home",
  "For every lattice size and number of MPI ranks, setting up the lattice either ends the program on every rank in an orderly way or gives each "
  "lattice site to exactly one rank and one storage place, with site coordinates, parity, owner, local index and loop traversal (all, even, odd sites) "
  "mutually consistent and agreed by all ranks. Setup always terminates, and a lattice whose sides give every rank an equal box of at least two sites "
  "per direction by plain repeated division is accepted.",
  ["configurations", "inputs"],
  "All lattice shapes within side bounds (1 to 4 dimensions, odd and even, divisible or not) times all rank counts 1..12 and more, standard and "
  "vectorised layouts, both rank placement schemes.",
  "The tests set up five fixed lattices with 1, 2 and 4 ranks; uneven divisions, failing first attempts, odd sizes and remapped ranks never occur there.",
  [LP + "setup_layout_generic.cpp", LP + "setup_layout_vector.cpp", LP + "lattice.cpp", LP + "lattice.h", LP + "map_node_layout.cpp", LP + "site_index.h"],
  [("division of the lattice into node boxes", LP + "setup_layout_generic.cpp setup_layout()"), ("owner and index of a site", LP + "lattice.cpp node_rank(), site_index()"),
   ("rank placement", LP + "map_node_layout.cpp create_remap()")],
  "exhaustive enumeration of configurations on the real code, all ranks in one process",
  "Every shape and rank count within the stated bounds is set up with the real code on all ranks and every site is checked; nothing is sampled.")

FLD = [LP + "field.h", LP + "field_comm.h", LP + "lattice.cpp", LP + "lattice.h", LP + "backend_cpu/field_storage_backend.h",
       LP + "backend_vector/field_storage_backend.h", LP + "backend_vector/lattice_vector.h", "hilapp/src/codegen.cpp"]
p("L02", "Reading a neighbour gives that site's current value, after any history",
  "Whatever sequence of operations came before (assignments to all, even or odd sites, single-site writes, early starts of communication, copies, swaps, moves, "
  "clearing), a site loop that reads a field at a neighbouring site or at an offset gets the value that site currently has on the periodic lattice, on every rank count and "
  "for standard and vectorised storage. Loops over one parity change only sites of that parity, and no field other than the assigned one changes.",
  ["histories", "configurations"],
  "All operation sequences up to 3 (quick) or 4 (thorough) operations on small lattices of even and odd sides, 1 to 6 ranks, all pairs of operations on all small shapes.",
  "The tests gather each direction once right after an assignment, on even lattices; stale, partial or in-flight halos appear only after particular sequences.",
  FLD, [("which halos are valid", LP + "field.h mark_changed(), is_gathered(), gather_status"), ("sending and receiving halos", LP + "field_comm.h start_communication(), wait_gather(), drop_comms()"),
        ("halo layout", LP + "lattice.cpp create_std_gathers()")],
  "explicit exploration of all operation histories of the real code with all ranks in one process",
  "Every history up to the bound is executed by the compiled library on 1..6 simulated ranks, and every site is compared with a plain copy of the lattice after each step; message buffers are checked for reuse while in flight.")

p("L03", "Antiperiodic boundaries flip the sign exactly when crossing the edge",
  "For a field with antiperiodic boundary conditions in any set of directions, reading across the lattice edge in such a direction gives minus the value of the "
  "site on the other side, once per crossing, and reading anywhere else gives the plain value; changing a boundary condition takes effect at the next read. "
  "This holds for any history of operations, any rank count and rank boundary, element type and storage layout.",
  ["histories", "configurations"],
  "All sequences of up to 3 (4) operations including switching the boundary condition of each direction, 1 to 6 ranks, even and odd sides, standard and AVX2 layouts.",
  "The antiperiodic test in the code base is compiled out and no test sets a boundary condition; the sign depends on layout, rank position and communication history.",
  FLD, [("boundary condition and neighbour table", LP + "field.h set_boundary_condition(), lattice.cpp setup_special_boundary_array()"),
        ("negation when packing or copying the halo", LP + "field_comm.h gather_comm_elements(), backend_vector/field_storage_backend.h set_local_boundary_elements()")],
  "explicit exploration of all operation histories of the real code with all ranks in one process",
  "Same explorer as L02 with the boundary condition switches in the alphabet; the reference multiplies by -1 per crossing.")

p("L04", "Shifted fields and long offsets read the right site",
  "A field shifted by any coordinate offset, or read at any offset in a site loop, equals the field at the periodically wrapped site, with the boundary sign for every crossing, for "
  "all offsets (including zero, negative, and longer than the lattice) and every parity of the target; sites of the other parity of the target keep their value. The result does not depend on "
  "which neighbours had been communicated before or on other offsets used in the same or earlier loops.",
  ["inputs", "histories", "configurations"],
  "All offsets in a box larger than the lattice, all parities, all sets of antiperiodic directions, and every earlier communication state, on 1 to 4 ranks.",
  "Tests shift by a few fixed offsets from a fresh field on even periodic lattices; paths of intermediate moves, buffered offsets and parities are input dependent.",
  [LP + "field_comm.h", LP + "field.h", LP + "coordinates.h", "hilapp/src/codegen.cpp"],
  [("decomposition into moves", LP + "field_comm.h shift()"), ("buffered offsets", LP + "field_comm.h do_buffered_shift(), buffered_shift_offsets()")],
  "exhaustive enumeration of offsets, parities, boundary conditions and prior communication states on the real code",
  "Each (offset, parity, boundary set, prior state) is executed and compared site by site with the wrapped reference.")

p("F01", "Sites, lists, boxes, slices and local copies transfer exact values",
  "Reading or writing a single site (including compound assignment), a list of sites in any order, a box, a slice, or the rank's own part with or without its surrounding "
  "sites gives exactly the values of those sites in the documented order, on the ranks which should get them, and changes no other site; later neighbour reads see the new values.",
  ["inputs", "configurations"],
  "Every site, every box, every slice, every ordered pair of sites of all small lattices of 2 to 4 dimensions with even and odd sides, on 1 to 6 ranks.",
  "The tests fetch one site list and one slice of a fixed lattice; which rank owns what, thin nodes and overlaps depend on shape and rank count.",
  [LP + "field_io.h", LP + "field_comm.h", LP + "field.h"],
  [("gathering and scattering of site lists", LP + "field_comm.h gather_elements(), scatter_elements()"), ("boxes and slices", LP + "field_io.h get_subvolume(), get_slice()"),
   ("rank part with halo", LP + "field_comm.h copy_local_data_with_halo()")],
  "exhaustive enumeration of sites, boxes, slices and site pairs on the real code, all ranks in one process",
  "Every case within the bounds is executed and every site of the lattice compared with a plain copy.")
p("F02", "Fields survive a file round trip on any rank count; short files are refused",
  "The file written for a field, several fields, a box or a slice (binary, single precision or text) has exactly the documented content, independent of the number of ranks and of the internal "
  "buffer size; reading it back, on any rank count, gives the same field, and later neighbour reads see the read values. A file of a smaller lattice fills the larger one periodically. A file which is too short to read, or cannot be written in full, ends the program "
  "with an error on all ranks and is never accepted.",
  ["inputs", "configurations"],
  "All small lattices of 2 and 3 dimensions, every box and slice, every truncation length of a file, full disks, buffers holding few sites, 1 to 4 ranks.",
  "The tests write one lattice which fits in one internal buffer; chunk ends, boxes and truncated files are not tried.",
  [LP + "field_io.h", LP + "field_comm.h", LP + "field.h"],
  [("chunked writing and reading", LP + "field_io.h Field<T>::write(), read()"), ("boxes and slices", LP + "field_io.h write_subvolume(), write_slice()"), ("several fields", LP + "field_io.h write_fields(), read_fields()")],
  "exhaustive enumeration of shapes, boxes, slices and truncation points on the real code",
  "The write buffer is set to a few sites at compile time (WRITE_BUFFER_SIZE) so that chunking happens within small lattices; file contents are compared byte by byte.")
p("F03", "Blocked lattices keep the right sites, parents and fields in any sequence",
  "After any sequence of block, unblock and switch-to-base operations the active lattice is the documented one with the right size, sites divided exactly over the ranks and working neighbours, shifts and sums; "
  "block_from and block_to_current_lattice copy exactly the sites divisible by the factor, unblock_to writes exactly those sites and leaves all others unmodified, and fields of other lattices keep their content. "
  "This holds also when some ranks have no sites of the blocked lattice.",
  ["histories", "configurations"],
  "All sequences of up to 4 (quick) lattice operations with six block factors from four lattice shapes in 2 to 4 dimensions, 1 to 8 ranks, with field copies in both directions after each.",
  "The tests block once or twice by 2 from a base lattice; different routes to the same size, unequal factors and ranks without sites need longer sequences.",
  [LP + "lattice.cpp", LP + "lattice.h", LP + "field_comm.h", LP + "field.h"],
  [("choice and creation of the blocked lattice", LP + "lattice.cpp block_by_factor(), setup_blocked_lattice()"), ("field copies", LP + "field_comm.h block_from(), unblock_to(), block_to_current_lattice()")],
  "explicit exploration of all operation histories of the real code with all ranks in one process",
  "Every sequence is executed by the real code on all ranks; after each operation geometry, neighbours, sums and all copies are compared with plain arrays per lattice.")

RED = [LP + "reduction.h", LP + "reductionvector.h", LP + "com_mpi.h", LP + "com_mpi.cpp", "hilapp/src/codegen.cpp", "hilapp/src/codegen_cpu.cpp", "hilapp/src/codegen_avx_new.cpp",
       LP + "backend_vector/defs.h"]
HIST = "explicit exploration of all operation histories of the real code with all ranks in one process"
ENUM = "exhaustive enumeration of inputs on the real code, all ranks in one process"
p("R01", "Sums and products accumulated in site loops are exact on every rank",
  "A variable accumulated with += (any element type) or *= (integer or floating point) in site loops holds, after each loop, the value it had on rank 0 before the loop combined with the contribution "
  "of every site executed, each exactly once, on every rank; after hila::set_allreduce(false), which concerns only the next loop, at least on rank 0. Several variables and components in one loop, conditions, "
  "parities and repeated loops do not disturb each other. The result does not depend on the number of ranks or threads, thread order or vectorisation.",
  ["histories", "configurations", "schedules"],
  "All sequences of up to 4 (quick) or 5 loops from ten kinds, 1 to 12 ranks, standard, AVX2 and OpenMP builds with every thread order deviating once or twice from the default.",
  "Tests sum a constant field once per type; double counting of an initial value, one parity, thread copies and products of vectorised types need particular sequences and builds.",
  RED, [("code generated around loops", "hilapp/src/codegen.cpp handle_reduction_init(), handle_reduction_result()"), ("packing of several sums", LP + "com_mpi.cpp hila_reduce_sums()"),
        ("thread copies", "hilapp/src/codegen_cpu.cpp"), ("sums over vector lanes", LP + "backend_vector/defs.h reduce_sum(), reduce_prod()")],
  HIST, "Site values are distinct powers of two, so that every wrong set of sites gives a wrong sum; all sequences within the bound are executed and every variable is compared on every rank after each operation.")
p("R02", "Delayed and non-blocking Reduction<T> give the plain result",
  "For every combination of the options allreduce, delayed and nonblocking, value() of a Reduction<T> equals the assigned value plus the contributions of all sites of all loops since, on all ranks (rank 0 if "
  "allreduce is off), whatever sequence of loops, assignments, start_reduce(), reduce(), value(), other reductions and field communication happened before; repeated value() calls agree, no operation deadlocks and no "
  "buffer is touched while its communication is under way.",
  ["histories", "configurations", "schedules"],
  "All 8 option sets, all sequences of up to 3 (4) of eleven operations, 1 to 12 ranks, three build variants, several element types.",
  "Tests use one delayed sequence; combinations of pending, completed and reassigned reductions are not tried.",
  RED, [("state machine of the reduction", LP + "reduction.h reduce_sum_node(), start_reduce(), wait(), operator=")],
  HIST, "Every history is executed; the message layer completes non-blocking reductions only when waited for and checks that buffers are left alone meanwhile.")
p("R03", "ReductionVector gives exact elementwise sums and products",
  "After the loops and, when delayed or non-blocking, reduce(), every element of a ReductionVector equals its previous value combined with the contributions of all sites of all loops, on all ranks (rank 0 if allreduce "
  "is off); this holds for all option combinations, sums and products, several statements, vectors and standard reductions in one loop, and any sequence of loops, assignments, element access, resizing and completion.",
  ["histories", "configurations"],
  "All 8 option sets, all sequences of up to 3 (4) of nine operations, 1 to 12 ranks, standard, AVX2 and OpenMP builds.",
  "Tests make one histogram of each kind; assignment while a reduction is unfinished, delayed products and mixed sequences are not tried.",
  RED, [("state machine of the reduction", LP + "reductionvector.h init_sum(), reduce_sum(), reduce_product(), start_reduce(), operator=")],
  HIST, "Every history is executed and every element compared with exact values on every rank.")
p("R04", "Field sum, product, min and max agree with a scan of the lattice",
  "sum, product, min and max of a field over all, even or odd sites equal those of a scan over these sites, for every type allowed and values including negative ones and the ends of the type's range; the returned location is a "
  "site of the requested parity where the field has that value, the same on all ranks. With allreduce off the result is right on rank 0. The result does not depend on rank or thread count, thread order or vectorisation.",
  ["inputs", "configurations", "schedules"],
  "All fields with values from alphabets of 2 or 3 values on all shapes of 2..3 sites per side, all pairs of special sites on larger ones, 1 to 12 ranks, all parities and scalar types, thread orders.",
  "Tests use random positive fields; ties, negative fields, ranks without sites of a parity and extreme values are rare inputs.",
  [LP + "reduction.h", LP + "field.h", LP + "com_mpi.cpp"], [("minimum and location", LP + "reduction.h Field<T>::minmax()"), ("sum and product", LP + "reduction.h Field<T>::sum(), product()")],
  ENUM, "Each field of the bounded space is built and each reduction compared with a scan of the whole lattice.")
p("R05", "ExtendedPrecision keeps sums exact far beyond double precision",
  "Sums of doubles in ExtendedPrecision (outside and inside site loops, over ranks and threads, also as vector components) are exact for values spanning 110 bits, and +, -, +=, -=, integer *, assignment and all comparisons, "
  "with ExtendedPrecision, signed and unsigned integer and floating operands on either side, agree with exact arithmetic; to_double() is the value rounded to double.",
  ["inputs", "configurations", "schedules"],
  "All assignments of up to 7 values between 2^-50 and 2^57 of both signs to the sites of tiny lattices, all pairs of sites on larger ones, all pairs of sums of up to 3 such values, integers -9..9 of six types, 1 to 6 ranks.",
  "The test adds one pair of numbers and one sum; cancellation order, merging over ranks or threads and mixed operand types are combinatorial.",
  ["libraries/datatypes/extended.h", "libraries/datatypes/extended.cpp", LP + "com_mpi.cpp"],
  [("compensated addition", "libraries/datatypes/extended.cpp operator+="), ("sum over ranks", LP + "com_mpi.cpp extended_sum_op(), reduce_node_sum_extended()"), ("arithmetic and comparison", "libraries/datatypes/extended.h")],
  ENUM, "Each case is computed by the real code and compared with exact 128-bit integer arithmetic; both orders of combining ranks are explored.")
FFTF = [LP + "fft.h", LP + "fft_fftw_transform.h", LP + "fft.cpp", LP + "spectraldensity.h", LP + "coordinates.h"]
p("T01", "FFT equals the Fourier sum, for every shape, direction set and rank count",
  "The forward transform of a field in any set of directions is the sum of f(x) exp(-i k x) over these directions (backward: exp(+i k x)), component by component, within rounding; forward and backward together multiply by "
  "the number of sites in these directions, and with no direction the result is the input. This holds in place or into another field, also one with unfinished communication, for any "
  "lattice shape including odd and blocked ones, any rank count and storage layout; the input is unchanged and neighbours of the result are right.",
  ["inputs", "configurations"],
  "All basis fields and dense ones, all sets of directions, both senses, all shapes of 2..7 sites per side in 2D and fewer in 3 and 4 dimensions, 1 to 6 ranks, blocked lattices with ranks without sites.",
  "Tests transform plane waves on one lattice with sides divisible by the rank count; uneven columns, subsets of directions and blocked lattices are not tried.",
  FFTF, [("distribution of columns over ranks", LP + "fft.cpp init_pencil_direction()"), ("sequence of directions and buffers", LP + "fft.h full_transform()"), ("communication", LP + "fft_fftw_transform.h gather_data(), scatter_data()")],
  ENUM, "The transform is linear, so all basis fields fix it; every case is compared with direct sums.")
p("T02", "Reflection, real-to-complex and complex-to-real transforms are exact",
  "reflect() in any set of directions gives f(L-x) in these coordinates; FFT_real_to_complex equals the Fourier sum of the real field; FFT_complex_to_real uses exactly the documented significant half of its input, inverts "
  "FFT_real_to_complex up to the volume, and refuses lattices with an odd side. This holds for all lattice shapes, rank counts and layouts.",
  ["inputs", "configurations"],
  "All basis fields and dense ones, all direction sets of the reflection, both senses, all shapes of 2..6 sites per side (1 to 4 dimensions), 1 to 6 ranks.",
  "Tests use one even lattice; odd sides, ranks with uneven parts and the boundary classes of the symmetric half need particular shapes.",
  FFTF, [("significant half", LP + "fft.h FFT_complex_to_real(), FFT_complex_to_real_site()"), ("reflection", LP + "fft_fftw_transform.h reflect()")],
  ENUM, "Every case within the bounds is computed by the real code and compared with direct sums.")
p("T03", "Spectral densities and k-binning count every mode in its bin, in any sequence",
  "After any sequence of changes of bins, k_max, bin width and power and of measurements, bin_k_field, bin_k_field_squarenorm and spectraldensity give on rank 0 the sums over exactly the sites (modes) whose k lies in each bin, for real and complex fields; "
  "k() and count() give the average k and number of sites of the present bins, and the parameters are as documented.",
  ["histories", "configurations"],
  "All sequences of up to 3 (4) of eleven operations, shapes of 2..6 sites per side, 1 to 4 ranks, five element types.",
  "Tests set the binning once and measure; cached averages and counts matter only after changes, real fields of odd component number take another path.",
  FFTF, [("bin of a mode", LP + "spectraldensity.h sd_get_k_bin()"), ("cached bin information", LP + "spectraldensity.h sd_calculate_bin_info()")],
  HIST, "Membership of each site is decoded from sums of distinct powers of two; sites within rounding of a bin edge may be in either bin.")
p("S01", "Site selections gather exactly the selected sites and values",
  "After a site loop, a SiteSelect (SiteValueSelect) holds on rank 0 exactly the sites for which select() was called in that loop, each once, with coordinates, site index and the value given (the last, if selected twice); "
  "with a size limit that many of them, and overflow() tells how many were left out; with no_join() each rank has its own until join(). This holds for all parities, reuse of the variable, several selections in a loop, any rank count and build.",
  ["inputs", "configurations"],
  "Every subset (for two statements every pair of subsets) of the sites of small lattices, every size limit, joined or not, all parities, 1 to 6 ranks.",
  "Tests select 51 scattered sites once; limits, ranks with nothing to send, sites selected twice and late joining are not tried.",
  [LP + "site_select.h", LP + "site_index.h", LP + "com_mpi.h", "hilapp/src/codegen_cpu.cpp"],
  [("collection in the loop", LP + "site_select.h select_site(), select_site_value()"), ("joining", LP + "site_select.h join_data_vectors()")],
  ENUM, "Every choice within the bounds is executed by the real code and compared with the set built by hand.")

p("C01", "Clusters are exactly the connected components of the lattice",
  "hila::Clusters built from a site type field has one cluster for each maximal set of sites of equal type (0..254) connected by nearest neighbour steps (periodic), background sites in none; built from links (link[d][X] nonzero), X and X+d are together exactly when joined by a chain of nonzero links. "
  "Each cluster once, with its type, size, surface area (links leaving it), and sites; labels distinct, the label field agreeing with the list; all ranks see the same list; find() again forgets the old result.",
  ["inputs", "configurations"],
  "Every assignment of types, and every set of links, on small 1-4 dimensional lattices; every short path; labyrinths; 1 to 4 ranks, every way to call.",
  "Tests look at one smooth pattern: winding clusters, clusters meeting at rank boundaries, thin chains and links are never tried.",
  [LP + "clusters.h", LP + "site_select.h", LP + "com_mpi.h"],
  [("merging of labels", LP + "clusters.h Clusters::make_labels(), find(VectorField)"), ("list of clusters over ranks", LP + "clusters.h Clusters::classify()")],
  ENUM, "Every choice within the bounds is executed by the real code and compared with components found by union of neighbours by hand.")
p("G01", "Random numbers are reproducible, in range, and independent over ranks and sites",
  "After hila::seed_random(s) all later random numbers (random, gaussrand, gaussrand2, random variables, fields, loops, shuffles) depend only on s, the rank and the calls made since, not on anything done before seeding nor on what other ranks draw. Different ranks, sites and seeds get different numbers; random() is in [0,1); gaussian numbers have the stated width and independent components; shuffle() gives a permutation, the direction and parity shuffles the same one on all ranks. "
  "Seed 0 takes the clock and tells the seed, which reproduces the run; use before seeding, or seeding before lattice.setup(), ends the program on all ranks.",
  ["histories", "inputs", "configurations"],
  "Every sequence of draws after every history of draws and reseedings up to the bounds, ranks and builds; every kind of unseeded use.",
  "Tests seed once at the start: a leftover of the previous sequence, ranks with equal streams and forgotten guards stay unseen.",
  [LP + "random.cpp", LP + "random.h", LP + "shuffle.h", LP + "field.h", "libraries/datatypes/matrix.h", "libraries/datatypes/cmplx.h", "hilapp/src/contains_random_visitor.cpp"],
  [("seeding", LP + "random.cpp seed_random(), initialize_host_rng()"), ("gaussian numbers", LP + "random.cpp gaussrand()"), ("shuffles", LP + "shuffle.h")],
  HIST, "Every sequence is executed by the real code twice, with and without the history, and the draws are compared. The distribution runs are deterministic checks of moments and only support the enumeration.")
p("K01", "Checkpoints restore exactly what was saved, also after an interruption",
  "restore_checkpoint() gives the gauge field of the last completed checkpoint() bit for bit, the trajectory after the saved one, the number of trajectories (a value edited in run_status counts, also in the running program) and a seed with reproducible random numbers, alike on all ranks and for any rank count. "
  "If the run is killed at any file operation or within a write, or the disk is full from some write on, the restart finds the last completed checkpoint or the one in progress, field and trajectory belonging together, or before the first the initial state; it can then go on. The old config is kept as .prev if asked for, and config_read() refuses files with another header or cut short on all ranks, and repeats smaller lattices.",
  ["crash_points", "histories", "inputs"],
  "A run with several checkpoints is killed before, and half way and one byte before the end of, each of its file operations, or finds the disk full from there on, and is then restarted (and killed again); every sequence of checkpoint, edit, restart; every damaged header and cut.",
  "No test runs checkpoint() at all, and none can place a kill at a given file operation.",
  ["libraries/tools/checkpoint.h", LP + "gaugefield.h", LP + "field_io.h", LP + "input.cpp", LP + "random.cpp"],
  [("writing and moving into place", "libraries/tools/checkpoint.h checkpoint(), finish_checkpoint()"), ("restart", "libraries/tools/checkpoint.h restore_checkpoint()"), ("configuration files", LP + "gaugefield.h config_write(), config_read()")],
  "stateless model checking: exhaustive enumeration of crash points and torn writes of the real code in a scratch directory, and of operation sequences",
  "Crash means that the process ends: what was handed to the operating system stays (loss of unsynchronised file caches in a power failure is not modelled).")

HP = ["hilapp/src/toplevelvisitor.cpp", "hilapp/src/generalvisitor.cpp", "hilapp/src/loop_function.cpp", "hilapp/src/loop_function_visitor.cpp"]
p("H01", "Translated site loops compute what the written program says",
  "For every site loop in the language hilapp accepts (fields at X, at neighbours and offsets, conditionals, inner loops, local variables, arrays, functions, reductions, templates, lambdas, classes; any parity), "
  "the translated program leaves every field, reduction and variable with the value the written statements give when executed site by site, statements in order, all neighbours read as before the loop; on every rank, from any earlier state of communications. "
  "This holds alike for the standard, the vectorised (AVX) and the OpenMP target and for every number of ranks.",
  ["programs", "configurations", "histories"],
  "All programs of a grammar: 19 statement forms times 75 expressions, all ordered pairs of 30 statements and triples of 15, 8 loop bodies in every context (templates, classes, lambdas, macros off), about 160 language features; run from several halo states and arguments on several rank counts.",
  "Tests contain a few hundred loops of the usual shapes; a wrong read/write/conditional analysis shows up only in particular combinations of statements.",
  HP + ["hilapp/src/codegen.cpp", "hilapp/src/codegen_cpu.cpp", "hilapp/src/codegen_avx_new.cpp", "hilapp/src/addrof_and_ref_visitor.cpp", "hilapp/src/depends_on_site_visitor.cpp", LP + "field.h", LP + "reduction.h"],
  [("analysis of references", "hilapp/src/toplevelvisitor.cpp"), ("code of the loop", "hilapp/src/codegen_cpu.cpp, codegen_avx_new.cpp")],
  "bounded exhaustive enumeration of programs; each is translated by the real hilapp and executed against a plain C++ reading of the same text",
  "Every program of the bounded grammar is translated, compiled and run on all rank counts and compared with the reference on every site; a few loops which hilapp or the compiler refuses are listed in harness/prog/unsupported.txt.")
p("H02", "hilapp refuses loops whose result would depend on order or rank, and only those",
  "hilapp gives an error and writes no output for a site loop that over ALL sites assigns a field it also reads at a neighbour, assigns to f[X+d], changes an outside variable other than by one kind of reduction, uses a reduction variable in another way in the same loop, changes array elements at varying index, "
  "uses a field without [X], contains another site loop, chooses the field or offset by a loop variable, declares static variables, containers or fields, takes addresses or references of outside data, or calls functions that use global or static variables. "
  "The neighbouring legal forms of the same loops are accepted.",
  ["programs"],
  "All combinations of rule, form of the offending statement and place in the loop (conditional, inner loop, switch, lambda, before or after other statements), for the vanilla, OpenMP and (thorough) AVX targets.",
  "No test runs hilapp on a wrong program: an error that is no longer reported is never noticed.",
  HP + ["hilapp/src/addrof_and_ref_visitor.cpp"],
  [("neighbour access with assignment", "hilapp/src/toplevelvisitor.cpp check_field_ref_list()"), ("outside variables and reductions", "hilapp/src/toplevelvisitor.cpp check_var_info_list(), handle_array_var_ref()"), ("functions", "hilapp/src/loop_function_visitor.cpp")],
  "bounded exhaustive enumeration of programs given to the real translator, the verdict compared with the one their construction implies",
  "About 2400 programs (3200 thorough); an abnormal end of hilapp counts as refusal. Changing an element of a temporary through a member function of f[X+d] is not in the enumeration.")

p("I01", "Parameter files are read exactly as written, and wrong ones end the run",
  "hila::input::get(), get_item() and lists return on every rank exactly the value written after the key (integers, floats, complex, strings with or without quotes, vectors, choices of words), whatever the layout (comments, empty lines, indentation, list continued on the next line), and the lines are consumed in order. "
  "A missing or wrong key, missing, surplus or malformed values, an unknown choice, or a missing file ends the program on all ranks (or returns false where it was asked to be quiet); -p key value replaces values and -i file the file. Opening another file, or the same again, starts from its first line.",
  ["inputs", "histories"],
  "Every sequence of entries of all kinds in all layouts up to the bound, every single fault in it, every set of overrides, every history of open, get, close on two objects.",
  "Tests read one well formed file in one layout; errors end the program so no unit test can even try them.",
  [LP + "input.cpp", LP + "input.h", LP + "cmdline.cpp"],
  [("lines and keys", LP + "input.cpp get_line(), get_key(), contains_word_list()"), ("values", LP + "input.cpp is_value(), get_token(), get_item()"), ("overrides", LP + "input.cpp")],
  ENUM, "Files are written by the check and read by the real code on all ranks; the expected values come from the generator. -p overrides of lists over several lines are not in the enumeration.")
p("I02", "The command line is parsed as given, wrong use ends the run",
  "Each flag gets exactly the strings that follow it up to the next flag, over all its occurrences, in order, equal on all ranks; flag_present(), flag_set(), values(), get_string(), get_int() and get_double() give these. "
  "An unknown flag, stray arguments, a wrong number of arguments for an occurrence, a value asked that is not there or not a number, or an unknown flag asked ends the program on all ranks.",
  ["inputs"],
  "Every list of arguments up to the bound over an alphabet of flags, numbers, negative numbers, words and repeated flags, and every access.",
  "The tests never give command lines; wrong ones end the program.",
  [LP + "cmdline.cpp", LP + "cmdline.h"],
  [("collection of arguments", LP + "cmdline.cpp read_arg_vector()"), ("unknown and left over arguments", LP + "cmdline.cpp fill_argmap()")],
  ENUM, "The real parser runs on each argument list and is compared with a direct reading of the documented rules.")
p("K02", "The run ends in time: time limit, signal and timers are right",
  "hila::time_to_finish() becomes true, on all ranks at the same call, exactly when less time is left than the longest interval between calls plus two minutes, or rank 0 has got SIGUSR1, and is false without limit and signal; a limit written as s, m:s, h:m:s or d-h:m:s means that many seconds, malformed ones end the run. "
  "Timers give the sum of the intervals and their number, each used one is once in the report, unbalanced ones are told, and destroyed ones are gone.",
  ["histories", "inputs", "configurations"],
  "Every sequence of clock steps, signals to any rank, and checks; every limit string over the field values; every sequence of timer operations, under a controlled clock.",
  "Tests have no control of the clock and no limit; an error costs a whole batch run without checkpoint.",
  [LP + "timing.cpp", LP + "timing.h"],
  [("limit", LP + "timing.cpp setup_timelimit(), time_to_finish()"), ("signal", LP + "timing.cpp signal_status()"), ("timers", LP + "timing.cpp timer::start(), stop(), report(), remove()")],
  HIST, "The clock and the signals are controlled by the explorer; every sequence runs on the real code and is compared with arithmetic.")

p("A02", "Complex numbers obey the rules of complex arithmetic",
  "Every operator, assignment form, comparison, constructor, conversion and function of Complex and Imaginary, in all mixes with real, integer and other precision operands, gives the value of complex arithmetic within rounding, also when operands are the same object or parts of the result; "
  "exactly representable results are exact, and const or by-value operands do not change.",
  ["inputs"],
  "Every pair of values out of a finite set (zeros, units, integers, fractions, big, small, all signs) for every operation and operand type.",
  "Tests check a few values; each of the functions is used by every physical program in hot loops.",
  ["libraries/datatypes/cmplx.h"],
  [("Complex", "libraries/datatypes/cmplx.h Complex_t, operators"), ("Imaginary", "libraries/datatypes/cmplx.h Imaginary_t")],
  ENUM, "Every operation runs on the real class and is compared with long double std::complex.")
p("A03", "Matrices, vectors, arrays and diagonal matrices obey linear algebra",
  "Every operator, assignment form, product, transpose, adjoint, trace, inner and outer product, norm, row, column and element access, cast and elementwise function of Matrix, Vector, Array and DiagonalMatrix, for square and rectangular shapes and mixed element types, gives the shape and values of the textbook definition within rounding (exactly for integers); "
  "this holds also if an operand is the destination or an element of it, and operands do not change.",
  ["inputs"],
  "Every operation for 10 shapes and 9 pairs of element types over a set of values that makes every element and index matter.",
  "Tests check few shapes and types; wrong index order only shows for rectangular or non symmetric operands.",
  ["libraries/datatypes/matrix.h", "libraries/datatypes/array.h", "libraries/datatypes/diagonal_matrix.h"],
  [("Matrix", "libraries/datatypes/matrix.h Matrix_t"), ("Array", "libraries/datatypes/array.h"), ("DiagonalMatrix", "libraries/datatypes/diagonal_matrix.h")],
  ENUM, "Every operation runs on the real class and is compared with sums written out in long double.")
p("A04", "Decompositions, determinants, solvers and matrix functions are what they claim",
  "Eigenvalue and singular value decompositions return the factors with the stated structure (unitary, sorted as requested) whose product is the matrix; LU_solve, inverses and every determinant function agree with the exact ones; and exp, altexp, chexp, chsexp, mult_chexp and the derivatives of the exponential give the power series of the matrix. "
  "This holds for every square matrix in the domain, also singular, degenerate, nilpotent, diagonal and permutation matrices and very small or large ones.",
  ["inputs"],
  "All matrices over a small alphabet for the small sizes and structured families (singular, degenerate, nilpotent, permutation, scaled) up to size 5.",
  "The special paths are taken for degenerate matrices only, which random test matrices never are.",
  ["libraries/datatypes/matrix_linalg.h", "libraries/datatypes/matrix.h"],
  [("decompositions", "libraries/datatypes/matrix_linalg.h eigen_hermitean svd LU_solve det"), ("exponentials", "libraries/datatypes/matrix.h exp chexp")],
  ENUM, "The real functions run on every matrix and are compared with long double reference computations.")
p("A05", "Group elements, algebras and generators of SU(N), SU(2) and U(1) are consistent",
  "SU2 and U1 objects behave as the 2x2 matrices and phases they stand for, in every operation; the generators are normalized to Tr(l_i^+ l_j) = 1/2 and expand, project, dot, conjugations, generator products and the bilinear projections agree with them for every matrix; "
  "exp and log of group and algebra are inverse to each other, also near 1 and -1; reunitarize, make_unitary, fix_det and random give elements of the group with the documented relation to the argument.",
  ["inputs"],
  "SU2, U1, SU(2) to SU(5): every generator, pair of generators, quaternion on an alphabet, permutation, centre and near-identity element.",
  "Errors show at -1, for tiny rotations, for off-diagonal generators or on reuse of a list, which tests with random elements do not meet.",
  ["libraries/datatypes/su2.h", "libraries/datatypes/sun_matrix.h", "libraries/datatypes/u1.h"],
  [("SU(N)", "libraries/datatypes/sun_matrix.h SU, Algebra"), ("SU2", "libraries/datatypes/su2.h"), ("U1", "libraries/datatypes/u1.h")],
  ENUM, "Every operation runs on the real class and is compared with long double matrices.")
p("A01", "Directions, parities, coordinate vectors and site indices obey their algebra",
  "Directions are unit vectors in all sums, differences, products, comparisons and negations, up and down; coordinate vectors are integer vectors in every operation and mod() gives the site of the periodic lattice also for negative coordinates; parity, is_direction, is_divisible, convert_to_k and SiteIndex agree with the coordinates. "
  "This holds in 1 to 4 dimensions, for even, odd and different lattice sides.",
  ["inputs"],
  "All directions and parities, all sites of 5 lattices and all vectors over an alphabet of positive and negative coordinates, in 1 to 4 dimensions.",
  "Every communication and loop offset is computed with these; errors for negative or wrapping offsets or odd sides are not sampled by tests.",
  ["libraries/plumbing/coordinates.h", "libraries/plumbing/site_index.h", "libraries/plumbing/fft.h"],
  [("Direction, Parity, CoordinateVector", "libraries/plumbing/coordinates.h"), ("SiteIndex", "libraries/plumbing/site_index.h")],
  ENUM, "Every operation runs on the real class and is compared with vectors of long.")
p("U01", "Multicanonical weights and acceptance follow the rule for every history",
  "For every sequence of order parameter values the weights, histograms and update size of the direct, single, smooth and canonical iteration follow the documented update rule for every bin, the iteration ends exactly at its condition, and every rank gets the same answer; "
  "weight() interpolates between the bin centers with constant or infinite walls outside, accept_reject accepts with probability min(1, exp(W(old) - W(new))), and a written weight file is read back while a malformed one is refused on all ranks.",
  ["histories", "inputs"],
  "All histories up to a depth over values in, between and outside of the bins, for every method, finish condition, wall and bin choice, and on 1 and 2 ranks.",
  "The iteration is a long running state machine; errors at edge bins, at the stop condition or in a call between updates depend on the history.",
  ["libraries/tools/multicanonical.cpp", "libraries/tools/multicanonical.h"],
  [("Muca", "libraries/tools/multicanonical.cpp iterate_weight_function_* accept_reject read_weight_function")],
  HIST, "The real Muca object is copied and stepped along every history next to a reference state machine, all state compared after each step.")

LG = "libraries/gauge/"
p("U02", "Gauge observables and smearing equal their definitions on every lattice",
  "For every link field, lattice shape, direction and number of ranks, the staple sums, the plaquette, improved, clover, logarithmic and bulk-prevention actions, Wilson lines of every path, Polyakov lines, energy and topological charge equal the values computed directly from the links. "
  "Stout smearing in all its versions (one step or a list of steps) gives the field of its definition and leaves the original field as it was.",
  ["inputs", "configurations"],
  "All lattice shapes of a list (even, odd, side 2, 2 to 4 dimensions), 6 kinds of link fields, all directions, planes and short paths, 1 to 4 ranks, SU(2) and SU(3), single and double.",
  "These functions chain several neighbour reads; on a cubic lattice with one rank, or near the identity, a wrong direction, order of factors or a stale halo is hidden.",
  [LG + n for n in ("staples.h", "wilson_plaquette_action.h", "wilson_line_and_force.h", "clover_action.h", "improved_action.h", "log_clover_action.h", "log_plaquette_action.h", "log_topo_supp_action.h", "bulk_prevention_action.h", "energy_and_topo_charge_clover.h", "energy_and_topo_charge_log.h", "polyakov.h", "stout_smear.h", "stout_smear_nch.h", "stout_smear_nchm.h")],
  [("staples", LG + "staples.h"), ("plaquette and rectangle actions", LG + "wilson_plaquette_action.h, improved_action.h"), ("smearing", LG + "stout_smear.h")],
  ENUM, "Every lattice, kind of field and path within the bounds is run through the library on all rank counts and compared with plain loops over the links.")
p("U03", "The force of each gauge action is the derivative of that action",
  "For every link field and direction in the algebra, the force a gauge action function gives is minus the derivative of the corresponding measured action: plaquette, improved, clover, logarithmic, bulk-prevention, the Wilson loop of any closed path, and an action of the stout smeared field. "
  "The adaptive gradient flow integrates the force of its action: it lowers the action, stays in the group and does not depend on how the flow time is divided.",
  ["inputs", "configurations"],
  "All lattice shapes of a list, 6 kinds of link fields, every action, all closed paths up to a length, all generators of the chosen links, 1 to 4 ranks, SU(2) and SU(3).",
  "A wrong staple, sign, factor or missing communication in a force only degrades the energy conservation of a simulation; no test compares a force with its action.",
  [LG + "wilson_plaquette_action.h", LG + "wilson_line_and_force.h", LG + "clover_action.h", LG + "log_clover_action.h", LG + "log_plaquette_action.h", LG + "improved_action.h", LG + "bulk_prevention_action.h", LG + "stout_smear.h", LG + "gradient_flow.h"],
  [("forces", LG + "*_action.h get_force*()"), ("force pulled back through smearing", LG + "stout_smear.h stout_smear_force()"), ("flow", LG + "gradient_flow.h do_gradient_flow_adapt()")],
  ENUM, "Every action, field, lattice and generator within the bounds: the force is compared with the central difference of the action evaluated by plain loops.")
p("U04", "Link updates keep the action or sample its distribution",
  "For every link and staple sum, overrelaxation keeps Re tr(U S) and the group, by full reflection of every SU(2) subgroup; maximisation finds the largest value in each SU(2) subgroup. "
  "The heat bath and Kennedy-Pendleton updates keep the group and, for every random number sequence, give the element the algorithm prescribes, with the first and second moments of the Boltzmann weight for SU(2).",
  ["inputs"],
  "Links and staples of 6 kinds for SU(2), SU(3), SU(4); the random numbers run over a lattice that fills the unit cube.",
  "A sampling bias of a few percent passes any statistical test that is short enough to run; enumerating the random numbers gives the moments without noise.",
  [LG + "sun_heatbath.h", LG + "sun_overrelax.h", LG + "sun_max_staple_sum_rot.h"],
  [("overrelaxation", LG + "sun_overrelax.h"), ("heat bath", LG + "sun_heatbath.h KennedyPendleton()")],
  ENUM, "Every combination of link, staple, coupling and random number point within the bounds is run through the library function and compared with the algorithm's formula and the exact moments.")
p("U06", "Gauss law repair and constant action flow do what they say",
  "get_gauss_violation gives the covariant divergence of the electric field at every site, gauss_fix_step moves the field down its gradient, and in two and three dimensions degauss ends with a violation per site below the requested quality after the steps the algorithm needs, with the links unchanged. "
  "get_cs_force gives for each link the part of the given direction orthogonal to the force of the chosen action, with fixed length; do_cs_flow_adapt moves every link at this speed, stays in the group and keeps the action within the integration accuracy.",
  ["inputs", "configurations"],
  "Every lattice, configuration, field and quality of the bounds on 1 to 4 ranks; six actions of the flow.",
  "Tests do not run these routines; a wrong neighbour or sign at the rank boundary shows only on a divided lattice with non-abelian links.",
  [LG + "degauss.h", LG + "cs_flow.h"],
  [("degauss", LG + "degauss.h degauss()"), ("constant action flow", LG + "cs_flow.h do_cs_flow_adapt()")],
  ENUM, "Every combination of lattice, ranks, links, field and quality is run and each algebra element compared with plain loops over the links in long double.")
p("U07", "The conjugate gradient solver gives the solution of the linear equation",
  "For every operator, parity, boundary condition, source and first guess, CG::apply ends with M^dagger M out = in to the requested accuracy on the sites of the operator's parity, in at most as many iterations as there are unknowns (a factor two allowed for rounding). "
  "A zero source and an exact first guess are solved too; the source, and the solution on the other sites, do not change.",
  ["inputs", "configurations"],
  "All combinations of 3 parities, periodic and antiperiodic directions, 4 sources, 3 first guesses, 2 operators and 2 accuracies on several lattices and 1 to 4 ranks.",
  "No test runs the solver; a solver that misses a boundary or starts from a wrong residual still converges on the usual zero first guess.",
  ["libraries/dirac/conjugate_gradient.h"],
  [("solver", "libraries/dirac/conjugate_gradient.h CG::apply()")],
  ENUM, "Every combination is run through the real solver and compared with Gaussian elimination of the same operator in long double.")
p("M01", "Values and lists sent between ranks arrive complete and unchanged",
  "hila::broadcast of numbers, structures, strings, vectors, arrays, lists of strings and pairs gives on every rank the value of the root rank, for every root, length (also zero or different on each rank) and type, and leaves other data as it was; send_to and receive_from deliver values and vectors in order. "
  "reduce_node_sum and reduce_node_product give the sum and product over the ranks on all ranks, or on rank 0 only if so asked, with the other ranks' values unchanged.",
  ["histories", "schedules"],
  "All sequences of operations up to a depth, with all roots, lengths 0 to 3 and more and several types, on 1 to 4 ranks.",
  "Tests use broadcasts only from rank 0 with equal lengths; wrong root, length or order shows with others.",
  [LP + "com_mpi.h", LP + "com_mpi.cpp"],
  [("broadcast, send_to, reduce_node_sum", LP + "com_mpi.h"), ("strings", LP + "com_mpi.cpp")],
  HIST, "Every sequence runs on the real code over the explorer's MPI layer, with all data compared on all ranks.")
p("P01", "Partitions of the ranks run independently of each other",
  "With -partitions P the ranks are divided into P equal groups, each with its own directory, output, ranks numbered from zero, lattice, files, input and random numbers; whatever sequence of field, reduction, broadcast and file operations each of them executes, its results are those of a program of its own. "
  "A number of ranks not divisible by P, or a wrong P, ends the program on all ranks.",
  ["configurations", "histories"],
  "1 to 7 partitions of 1 to 6 ranks, all pairs of operation sequences of two kinds of partitions.",
  "No test uses partitions; a communication over all ranks instead of the own partition hangs or mixes data only if the partitions do different things.",
  [LP + "initialize.cpp", LP + "com_mpi.cpp", LP + "com_mpi.h", LP + "random.cpp", LP + "input.cpp"],
  [("division", LP + "initialize.cpp setup_partitions()"), ("communicator", LP + "com_mpi.cpp split_into_partitions()")],
  HIST, "All partitions run in one explored execution, each with its own sequence, and are compared with plain references.")
p("U05", "Gauge, vector and plaquette fields behave as their component fields",
  "After any sequence of assignments, copies, moves, swaps, conversions and clearing of GaugeField, VectorField and PlaquetteField, every component holds the values a separate Field would, other objects do not change, and neighbour reads are right. "
  "write/read and config_write/config_read use the documented bytes and give back the same field, smaller lattices fill larger ones, and wrong or short files end the run on all ranks; block_gauge and block_gauge_to_current_lattice give the product of the links along each blocked direction at the divisible sites, and unblock_gauge changes exactly these sites.",
  ["histories", "configurations"],
  "All pairs of 17 operations, all blocking factors, all good and wrong files, on several lattices (odd sides, unequal divisions) and 1 to 8 ranks.",
  "Tests write and read one cubic configuration; uneven boxes, blocking by different factors, moved-from and reused fields do not occur.",
  [LP + "gaugefield.h", LP + "plaquettefield.h"],
  [("GaugeField", LP + "gaugefield.h"), ("PlaquetteField", LP + "plaquettefield.h")],
  HIST, "Every operation sequence runs on the real classes with all elements compared with plain arrays; non-commuting integer matrices make every factor and order visible.")
