PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, **kw))


NOTE = ("TLC explores the bounded instance completely and checks its invariants; every transition it finds is played into the code "
        "built from the current tree, and seeded random histories recorded from the code are accepted or rejected by TLC against the same module. ")
NOTEST = "No test of the container packages is built or run here (only the command line, geometry line, maths, mpl and utilities tests are); the package's own tests sample a few fixed sequences."

P("C01", "Arrays hold, hand out and bound-check their elements under every history",
  """A fixed or dynamic ecl::Array holds exactly the values last written to each position: at, operator[], front, back, forward and reverse iteration, assignment,
  comma initialisation, constant blueprints, copies and resize/clear agree on them. Access through at() (and operator[] in debug builds) outside the array, initialisers that
  are too long, and resizing what cannot be resized are refused with an exception and never touch memory outside the array or another array.
  With memory checking enabled, an overrun on either side of the storage is reported and nothing else is.""",
  ["inputs", "histories"], "every sequence of operations on any number of arrays, any length, any element type, debug and release builds",
  NOTEST, ["ecl_containers/include/ecl/containers/array"],
  [("Array, ArrayInitialiser, Array<T,DynamicStorage>", "ecl_containers/include/ecl/containers/array"), ("BoundsChecker, memory-check signatures", "ecl_containers/include/ecl/containers/array/array_mem_check.hpp")],
  NOTE + "Bound: lengths 0..3, two values, two arrays exhaustively; random histories with wider values.")
P("C02", "The push-and-pop queue is a bounded first-in-first-out history",
  """A PushAndPop container returns its elements in the order pushed (index 0 the oldest); size, asize, indexing and pop_front agree at every moment, and pushing
  into a full container drops exactly the oldest element. Clearing, refilling, resizing and copying (also from a container of another size) leave a container that behaves as a
  fresh one with those contents, whatever was pushed and popped before.""",
  ["inputs", "histories"], "every interleaving of push, pop, fill, resize, copy and clear, any capacity, fixed and dynamic",
  NOTEST, ["ecl_containers/include/ecl/containers/push_and_pop.hpp", "ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_fixed.hpp", "ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp"], [("leader/follower indices of the ring", "ecl_containers/include/ecl/containers/push_and_pop.hpp")],
  NOTE + "Bound: capacity 1..3, two values, two queues exhaustively; random histories up to capacity 16.")
P("C03", "The fifo window always holds the last n values pushed",
  """After any history a FiFo of length n holds, in order of age, the last n values pushed (or filled in), indexed with 0 the oldest, and writing through an index changes that element
  only. The running index stays inside the storage, and resize starts a new, correctly sized window.""",
  ["inputs", "histories"], "every history of push_back, fill, index, resize, any length", NOTEST,
  ["ecl_containers/include/ecl/containers/fifo.hpp"], [("leader_idx", "ecl_containers/include/ecl/containers/fifo.hpp")],
  NOTE + "Bound: length 1..4 exhaustively; random histories up to length 14.")
P("C04", "Stencils are exact windows onto arrays and vectors, never beyond them",
  """A Stencil opened on an array, vector or iterator range shows exactly the requested part of the underlying sequence: size, at, operator[], front, back, iteration and sub-stencils agree, and writes through it
  are writes to the underlying sequence and nowhere else. Opening, moving or indexing a window so that it would reach outside the sequence (at always, operator[] in debug builds) is refused with an exception; a
  comma initialiser fills the window from its start and refuses to go past its end.""",
  ["inputs", "histories"], "every underlying container kind, every offset and length, chains of windows on windows", NOTEST,
  ["ecl_containers/include/ecl/containers/stencil", "ecl_containers/include/ecl/containers/array"], [("Stencil and its specialisations, StencilInitialiser", "ecl_containers/include/ecl/containers/stencil")],
  NOTE + "Bound: sequences of length 3 exhaustively, up to 8 at random; window ranges that the code documents as unchecked are not driven.")
P("U01", "Flags behave as a set of enum values",
  """A Flags object holds a set of bits: construction, assignment, |, ^, &, ~, |=, ^=, &= and conversion to an integer act as the set operations on it, and testFlag is true exactly for a flag
  that shares a bit with the set (the zero flag exactly for the empty set). Combining flags never changes an operand.""",
  ["inputs", "histories"], "every sequence of operations over all 32 bits, sign bit included", "The flags test sets two or three flags of one enum and reads them back.",
  ["ecl_utilities/include/ecl/utilities/flags.hpp"], [("Flags", "ecl_utilities/include/ecl/utilities/flags.hpp")], NOTE + "Bound: bits 0, 1, 31 exhaustively; all 32 at random.")
P("U02", "Parameters store values, reference wrappers alias objects",
  """A Parameter holds a copy of the last value given to it by whichever syntax (constructor, call, assignment), unaffected by later changes of the source; a ReferenceWrapper always reads and writes the very
  object it was made from, copies of it refer to the same object, and its pointer is that object's address. The is_reference_wrapper and unwrap type traits identify wrappers and their wrapped types only.""",
  ["inputs", "histories"], "every interleaving of sets, gets, copies over several objects and element types", "The tests set one parameter and one wrapper once.",
  ["ecl_utilities/include/ecl/utilities/parameter.hpp", "ecl_utilities/include/ecl/utilities/references.hpp"], [("Parameter", "ecl_utilities/include/ecl/utilities/parameter.hpp"), ("ReferenceWrapper, ref, cref", "ecl_utilities/include/ecl/utilities/references.hpp")], NOTE)
P("U03", "A singleton type has exactly one instance in the process",
  """Every access to a Singleton type, from any translation unit and any thread, also when several threads make the first access together, reaches the same single object, which is constructed exactly once. State written
  through one access is seen by the next.""",
  ["schedules", "histories"], "every interleaving of first and later accesses over threads and translation units", "The test takes the instance twice in one thread.",
  ["ecl_utilities/include/ecl/utilities/singleton.hpp"], [("Singleton::instance", "ecl_utilities/include/ecl/utilities/singleton.hpp")],
  NOTE + "Racing first accesses are widened by a slow constructor; schedules are sampled, not enumerated.")
P("U04", "Function objects call exactly what they were built from, bound args included",
  """Each function object (free functions nullary/unary and bound, member functions nullary/unary, bound and partially bound, wrapped function objects by copy or by reference) calls exactly the function it was built from, once per
  call, on the right object with the right arguments, bound arguments having the value given at construction, and returns its result. The traits report whether a type is a nullary or unary function object.""",
  ["inputs", "histories"], "every kind of function object, void and valued, any sequence of calls and object changes", "No function object test runs here.",
  ["ecl_utilities/include/ecl/utilities/function_objects.hpp"], [("generateFunctionObject and the function object classes", "ecl_utilities/include/ecl/utilities/function_objects.hpp")], NOTE)
P("E01", "Exceptions carry their location, flag, message and data through every rethrow",
  """A StandardException or DataException reports the flag, message, data and location it was raised with, in what() and its accessors; each rethrow puts its own location in front and keeps everything else.
  ecl_assert_throw and ecl_debug_throw throw exactly when their condition fails in debug builds and never in release builds; ecl_throw always throws.""",
  ["inputs", "histories"], "every flag, every message, every chain of rethrows, debug and release builds", "No exception test runs here.",
  ["ecl_exceptions/include/ecl/exceptions", "ecl_exceptions/src/lib"], [("StandardException", "ecl_exceptions/src/lib/standard_exception.cpp"), ("DataException", "ecl_exceptions/include/ecl/exceptions/data_exception.hpp"), ("macros", "ecl_exceptions/include/ecl/exceptions/macros.hpp")], NOTE)
P("N01", "Elementary maths functions give the mathematically right value",
  """sign, psign and nsign return the sign with their stated value at zero for every argument; cube_root returns the real cube root also of negative numbers; the euclidean norms return the norm for every sign of component;
  isApprox and isApproxOrLessThan decide the documented relative tolerance for every pair of values (exactly for integers); pi and its fractions are correct to the type's precision.""",
  ["inputs"], "every argument, sign and precision", "The tests check a handful of values.",
  ["ecl_math/include/ecl/math"], [("simple.hpp, cube_root.hpp, fuzzy.hpp, constants.hpp, norms.hpp", "ecl_math/include/ecl/math")],
  NOTE + "Arguments are those for which the result is exact (integers, quarters, Pythagorean tuples), so that the specification decides without rounding.")
P("Q01", "Concept checks accept exactly the types that offer what the concept asks",
  """A compile time concept check compiles if and only if the type offers everything its concept (containers, byte containers, devices, streams, functions, blueprints, or one of the user's own) asks for: each member there, public, answering with the right kind of thing, elements of the right type.
  This holds wherever the check stands: in functions, classes, templates, or outside of them.""",
  ["inputs"], "every type, as the set of members it has, put to every concept, in every place", "Tests only hold types that pass; that others are rejected cannot be tested by code that compiles.",
  ["ecl_concepts/include/ecl/concepts/" + x for x in ("containers.hpp", "devices.hpp", "streams.hpp", "blueprints.hpp", "nullary_function.hpp", "macros.hpp")], [("ecl_compile_time_concept_check", "ecl_concepts/include/ecl/concepts/macros.hpp"), ("ContainerConcept and others", "ecl_concepts/include/ecl/concepts/containers.hpp")],
  NOTE + "Each type made up is one run of the compiler.")
P("W01", "Numeric limits and type traits describe the types truthfully",
  """numeric_limits reports the size in bytes and bits, minimum and maximum of every fundamental integral type exactly as the platform has them, and the traits is_integral, is_signed, is_unsigned and is_float hold for exactly
  the types they name, as do those of bytes and of source and sink devices; Unsigned, if_c, enable_if and Bool give exactly the types and values they stand for.""",
  ["inputs"], "every fundamental type and representatives of every other kind", "No type trait test runs here.",
  ["ecl_type_traits/include/ecl/type_traits", "ecl_type_traits/src/lib", "ecl_devices/include/ecl/devices/traits.hpp", "ecl_mpl/include/ecl/mpl"], [("numeric_limits", "ecl_type_traits/include/ecl/type_traits/numeric_limits.hpp"), ("fundamental_types, traits", "ecl_type_traits/include/ecl/type_traits")], NOTE)

CL = "ecl_command_line/include/ecl/command_line"
CLT = "The command line test parses an empty command line; only the quantifier over command lines and declarations matters here."
CLM = [("CmdLine::parse", CL + "/cmd_line.hpp"), ("processArg of each argument class", CL)]
CLN = NOTE + "Bound: all token lists up to length 3-4 over small alphabets for fixed declarations; random declarations and command lines of up to 14 tokens. Each parse runs in a process of its own, in which another command line may have been declared or parsed before. "
P("L01", "Accepted values are bound to the argument they were given to, exactly",
  """When a command line is accepted, every labelled value argument (by flag or by name, with the value attached by the delimiter or as the next token) and positional argument has exactly the value its token spells in its type, taken once;
  arguments not given keep their default and report not set, given ones report set. Which argument gets a token depends only on the declarations and the command line, not on earlier parses of other arguments' values, nor on other command lines the process has declared or parsed.""",
  ["inputs", "configurations"], "every set of declared arguments (type, label, delimiter, default, constraint) and every command line", CLT, [CL], CLM + [("ValueExtractor", CL + "/value_arg.hpp")], CLN)
P("L02", "Command lines that do not fit the declarations are rejected with the reason",
  """Parsing ends the program with exit status 1 and an error naming the argument and reason, before any value is used, exactly when a token matches no argument, a required argument is missing, a value is missing, malformed, not wholly consumed or outside its
  constraint, a delimiter is missing, or a once-only argument is repeated; nothing else is rejected. Declarations that are ill-formed (flag or name), clash with an existing flag or name, or follow an optional positional argument of the same command line are refused when made.""",
  ["inputs", "configurations"], "every set of declared arguments and every command line", CLT, [CL], CLM + [("exceptions", CL + "/arg_exception.hpp"), ("ValuesConstraint", CL + "/values_constraint.hpp")], CLN)
P("L03", "Switches toggle once, combine and count; exclusive groups take exactly one",
  """A switch flips its default when given, alone, by name or amongst combined letters, and at most once; a multi-switch counts all its occurrences, combined ones included. Of the arguments joined by xorAdd exactly one must be given, by whatever form,
  the others then keep their defaults and report not set; after -- (or --ignore_rest) no labelled argument is set any more.""",
  ["inputs", "configurations"], "every mix of switches, combined switches, groups and values in every order", CLT, [CL],
  CLM + [("SwitchArg, MultiSwitchArg", CL + "/switch_arg.hpp"), ("XorHandler", CL + "/xor_handler.hpp"), ("IgnoreRestVisitor", CL + "/ignore_rest_visitor.hpp")], CLN + "Multi-switches as members of exclusive groups are not driven.")
P("L04", "Repeatable and positional arguments collect every value, in order",
  """A multi argument collects exactly the values given to it in the order given, a required one needs at least one; positional arguments take the unlabelled tokens in order of declaration, one each, and an unlabelled multi argument all that remain,
  also after --. Values outside a constraint or malformed are refused wherever they stand in the list.""",
  ["inputs", "configurations"], "every sequence of labelled and unlabelled tokens", CLT, [CL], CLM + [("MultiArg", CL + "/multi_arg.hpp"), ("UnlabeledValueArg, UnlabeledMultiArg", CL + "/unlabeled_multi_arg.hpp")], CLN)
P("L05", "Usage, version and error texts describe the declared arguments completely",
  """--help and --version print the usage or version and end with exit status 0; the usage names every declared argument once (in exclusive groups joined by |), optional ones in brackets, repeatable ones as such, with type or allowed values, requiredness and description,
  and the program's message. Lines are wrapped at 75 characters, at spaces, commas or bars where possible, and no character is lost or repeated; a rejected command line prints the error followed by the brief usage (the full usage when help is disabled).""",
  ["inputs", "configurations"], "every set of declared arguments, long names, messages and program names", CLT, [CL], [("StdOutput", CL + "/std_output.hpp"), ("shortID, longID, getDescription", CL)], CLN)

P("L06", "DocBook texts are well formed and describe every declared argument",
  """With DocBook output set, --help prints one well-formed document with the program's name, message and version, every declared argument once in the synopsis, as required or optional and repeatable or not, and once with its full identification and description;
  members of an exclusive group stand together, with OR between them. Characters that mean markup are escaped in every text. --version prints the version, a rejected command line the argument and the reason, and exit statuses are as with plain output.""",
  ["inputs", "configurations"], "every set of declared arguments, names, messages and versions with any characters", CLT, [CL], [("DocBookOutput", CL + "/docbook_output.hpp"), ("shortID, longID, getDescription, isRequired", CL)], CLN)

GT = "The only geometry test that runs measures a handful of points against three line segments."
GN = NOTE + "Arguments are chosen so that the exact result is an integer or a small rational; the driver accepts a floating point answer only within rounding of it. "
GI = "ecl_geometry/include/ecl/geometry/"
GS = "ecl_geometry/src/lib/"
P("G01", "Polynomial arithmetic is exact: values, derivatives, shifts, division, sums",
  """Evaluating a polynomial, its first and second derivative objects and values, shifting its variable, multiplying by a scalar, integrating it into sums and dividing it by a monic linear factor (quotient and remainder) give the algebraic
  result for every coefficient set, and printing shows every term with its sign. Pascal's triangle holds the binomial coefficients. Division by a value always satisfies p(x) = q(x)(x-a) + r.""",
  ["inputs", "histories"], "every degree, coefficient set and argument, chains of operations", GT, [GI + "polynomial.hpp", GI + "pascals_triangle.hpp"],
  [("Polynomial<N>, Division, Synthetic division", GI + "polynomial.hpp"), ("PascalsTriangle", GI + "pascals_triangle.hpp")], GN + "Degrees 0..5.")
P("G02", "Interpolating polynomials meet their boundary conditions exactly",
  """The linear, cubic (derivative and second-derivative), quintic blueprints return the one polynomial of that degree that takes the given values, slopes and curvatures at both end points, for any order and position of the end points,
  whether constructed through the static constructor, copy or instantiated twice; ill-posed end points (equal) are the caller's.""",
  ["inputs"], "every end point pair and boundary data", GT, [GI + "polynomial.hpp", GS + "polynomial_blueprints.cpp"], [("blueprints", GS + "polynomial_blueprints.cpp")], GN)
P("G03", "Splines interpolate their points with the promised smoothness",
  """Cubic splines (natural, clamped, heuristic derivative), smooth linear splines and tension splines pass through their points, are continuous with their promised continuous derivatives at every knot, satisfy the end conditions
  they are named after, report their domain, and evaluate each segment in its own interval; data that do not fit (too few points, corners too large, arguments outside the domain) are refused with an exception.""",
  ["inputs"], "every number of points, spacing, values and end slopes", GT, [GI + "cubic_spline.hpp", GI + "smooth_linear_spline.hpp", GI + "tension_spline.hpp", GS],
  [("CubicSpline", GS + "cubic_spline.cpp"), ("SmoothLinearSpline", GS + "smooth_linear_spline.cpp"), ("TensionSpline", GS + "tension_spline_blueprints.cpp")], GN + "The specification solves the spline systems in exact rationals for unit and integer spacings; tension splines are judged by their defining conditions.")
P("G04", "Line segments give the line equation and the exact distance to a point",
  """A LinearSegment's A, B, C describe the line through its end points (also vertical ones, by its convention), and squaredDistanceFromPoint is the square of the distance from the point to the nearest point of the segment, the end points included,
  for every direction and order of the end points.""",
  ["inputs"], "every segment and point, vertical, horizontal, degenerate", GT, [GI + "linear_segment.hpp", GS + "linear_segment.cpp"], [("LinearSegment::squaredDistanceFromPoint", GS + "linear_segment.cpp")], GN)
P("G05", "Angles stay wrapped in (-pi, pi] and follow arithmetic modulo a turn",
  """After any sequence of assignments, additions, subtractions and multiplications an Angle lies in one turn around zero and equals the arithmetic result modulo a full turn; wrap_angle does the same to a plain value, degree and radian conversions are inverse,
  and the rotation matrix of an angle rotates by it and converts back to it.""",
  ["inputs", "histories"], "every sequence of operations, many turns either way, float and double", GT, [GI + "angle.hpp", GS + "angle.cpp"], [("Angle, wrap_angle", GI + "angle.hpp")], GN + "Angles are whole degrees.")
P("G06", "Poses compose, invert and convert as rigid transformations",
  """Plane poses (matrix storage, angle storage and Pose2D) and spatial poses compose as rigid motions: a*b, a*=b (also with themselves), inverse, relative pose, copies and conversions between storages, from rotation matrices, angles, translations and plane poses agree with the group of
  rigid transformations, and setting one component leaves the others alone. Returned translations and rotation matrices stay valid.""",
  ["inputs", "histories"], "every chain of compositions, inversions and conversions", GT, [GI + "legacy_pose2d.hpp", GI + "legacy_pose3d.hpp", GI + "pose2d.hpp", GS + "pose2d.cpp"],
  [("LegacyPose2D", GI + "legacy_pose2d.hpp"), ("LegacyPose3D", GI + "legacy_pose3d.hpp"), ("Pose2D", GI + "pose2d.hpp")], GN + "Histories use quarter turns; single operations also rotations by the angles of the 3-4-5 triangles, about any axes. Products of differently stored plane poses do not compile and are not covered. Pose2D is exercised over a stand-in for the Sophus library, which is not installed.")
P("G07", "Odometry trajectories are sequences of samples; distances to them are minimal",
  """Odometry helpers treat trajectories as sequences: building from vectors (by value or pointer), appending, resizing, getting and setting elements, front and back, extracting poses and twists keep every other element as it was; the getters and setters of samples, poses, twists and
  positions address the named component only; distances are Euclidean and the distance to a trajectory is that to its nearest point.""",
  ["inputs", "histories"], "every trajectory, index and sample, any history of edits", GT, [GI + "odometry_helper.hpp", GS + "odometry_helper.cpp"], [("distance, addAtEnd, vectorToTrajectory", GS + "odometry_helper.cpp")], GN)
LS = "ecl_linear_algebra/include/ecl/linear_algebra/sophus/"
LC = "ecl_linear_algebra/src/lib/"
P("H01", "Transformations interpolate along equal steps, convert and print exactly",
  """An interpolator between two transformations gives the first at 0, the second at 1 and, k n-ths of the way, the place k of n equal steps lead to; the sliding one turns so and moves straight. The planar one refuses what does not lie in one plane. Planar poses (x, y, heading) convert to transformations that turn and move points accordingly and back, and
  the transformation made of two points stands at the first and faces the second. Texts and formatters show the translation and the unit quaternion as set, a formatting given with the value for that value only, and each value once.""",
  ["inputs", "histories", "configurations"], "every pair of poses and every way between, every history of a formatter; debug and release builds", "The Sophus parts have no tests (and are not built without that library).",
  [LS + "helpers.hpp", LS + "interpolators.hpp", LS + "formatters.hpp", LC + "sophus_helpers.cpp", LC + "sophus_interpolators.cpp"], [("Interpolator, PlanarInterpolator, SlidingInterpolator", LC + "sophus_interpolators.cpp"), ("toPose2D, toPose3D, points2DToSophusTransform", LC + "sophus_helpers.cpp"), ("SE3fFormatter", LS + "formatters.hpp")],
  NOTE + "Sophus is not installed: the groups are a stand-in of the subset used (shim/include/sophus). Rotations are about z; single precision allows two thousandths.")
P("G08", "Roots, extrema and intersections of polynomials are found, all and only them",
  """The root finders for linear, quadratic and cubic polynomials return exactly the real roots, each once and also when leading coefficients vanish; Maximum and Minimum over an interval return the true extreme value, interior or at an end;
  the intersection of two lines is their common point, and parallel lines are reported as failing by the operation that failed, and by no later one.""",
  ["inputs", "histories"], "every coefficient set and interval", GT, [GI + "polynomial.hpp", GI + "function_math.hpp", GS + "polynomial.cpp"], [("Roots, Intersection", GS + "polynomial.cpp"), ("Maximum, Minimum", GI + "polynomial.hpp")], GN + "Cubics are those with rational roots, or one rational root.")
P("G09", "Points behave as vectors with checked indices, in every dimension",
  """Cartesian points of dimension two, three and higher and homogeneous points hold the coordinates last given, whichever constructor, setter, comma list or vector gave them; equality, sums, differences, scaling, rotation, norm, direction, distance and normalisation are the vector
  operations, changing only their target; indices outside the dimension and homogeneous vectors whose last coordinate is not one are refused; printing shows all coordinates.""",
  ["inputs", "histories"], "every coordinate, index and sequence of operations; int, float, double", GT, [GI + "cartesian_point.hpp", GI + "homogeneous_point.hpp"], [("CartesianPoint", GI + "cartesian_point.hpp"), ("HomogeneousPoint", GI + "homogeneous_point.hpp")], GN)

TI = "ecl_time/include/ecl/time/"
TS = "ecl_time/src/lib/"
TT = "The time tests are not built here; they sleep for real and compare loosely."
P("M01", "Time stamps are exact: one sign, carried nanoseconds, ordered, printed fully",
  """A time stamp or duration built from seconds and nanoseconds, a decimal number or a clock keeps one sign and less than a second of nanoseconds; sums and differences are exact to the nanosecond and keep that form for every pair of operands (also in place, and with themselves);
  the comparisons are the order of time, the accessors, conversion to double and printing (sign, nine decimals) show its value. A pair of mixed sign is refused.""",
  ["inputs", "histories"], "every pair of stamps of either sign and any chain of operations", TT, [TI + "timestamp_base.hpp", TS + "timestamp_base.cpp", TS + "timestamp_pos.cpp"],
  [("TimeStampBase operators", TS + "timestamp_base.cpp"), ("TimeStamp::stamp", TS + "timestamp_pos.cpp")], NOTE + "Bound: nine signed values with carries and borrows exhaustively; random nanosecond values.")
P("M02", "Sleeps ask for exactly the given time; a Snooze keeps its period without drift",
  """Each sleep (seconds, milli-, micro-, nanoseconds, durations; given when built or when called) asks the system for exactly that time whatever was slept before, and a failing sleep raises the matching exception. A Snooze wakes at start + k periods for every period,
  and when it is late it restarts one period after now; it never asks for an invalid time.""",
  ["inputs", "histories"], "every period, start time, delay pattern and sequence of sleeps", TT, [TI + "snooze_pos.hpp", TI + "sleep_pos.hpp", TS + "snooze_pos.cpp", TS + "sleep_pos.cpp"],
  [("Snooze::add_period, validate", TS + "snooze_pos.cpp"), ("operator()", TS + "sleep_pos.cpp")], NOTE + "The clock and the sleeping system calls are stand-ins that record what is asked and advance a virtual clock.")
P("M03", "Stopwatches and time data measure exactly",
  """A StopWatch or CpuWatch reports as elapsed the time of its own clock since it was built or last restarted, and as split the time since the last split (or restart), in any order; TimeData's average, variance and standard deviation are those of exactly the durations pushed since the last clear.""",
  ["inputs", "histories"], "every interleaving of restarts, splits and readings; every set of durations", TT, [TI + "stopwatch.hpp", TI + "cpuwatch_rt.hpp", TI + "time_data.hpp", TS + "stopwatch.cpp", TS + "cpuwatch_rt.cpp", TS + "time_data.cpp"],
  [("StopWatch", TS + "stopwatch.cpp"), ("CpuWatch", TS + "cpuwatch_rt.cpp"), ("TimeData", TS + "time_data.cpp")], NOTE + "Clocks are virtual.")
P("M04", "The frequency monitor reports the true rate and intervals of each window",
  """After a window longer than its period, analyse reports as frequency the number of updates in the window divided by its length, the shortest and longest interval between updates, whether there is a connection and when the last update came; within the window the last report stands, and each
  window starts afresh. All of it on the clock the monitor was built for.""",
  ["histories", "configurations"], "every pattern of updates and analyses, either clock", TT, [TI + "frequency.hpp", TS + "frequency.cpp"], [("FrequencyMonitor::update, analyse", TS + "frequency.cpp")], NOTE + "Clocks are virtual and unrelated to each other.")
P("M05", "Random numbers map the source to the documented distributions",
  """uniform() maps the source's value onto [0,1] and uniform(r) onto [-r,r], one source value each; gaussian values come in pairs from the first accepted point inside the unit circle by the polar method, scaled and shifted by the given deviation and mean, always finite; the seed given is the source's seed.""",
  ["inputs", "histories"], "every sequence of source values, float and double", "No test of the generator exists.", [TI + "random_number_generator.hpp"], [("uniform, gaussian", TI + "random_number_generator.hpp")],
  NOTE + "rand and srand are stand-ins scripted by the specification. The second value of a pair is shared by all generators of a type and survives reseeding; that is by construction and is not judged.")

VI = "ecl_converters/include/ecl/converters/"
VT = "The converter tests are not built here; they convert one value each."
P("V01", "Integers and bytes convert both ways, lowest byte first, whole or not at all",
  """Converting bytes to an integer of any width and back keeps every byte in its place, lowest first, whatever container or pointer pair holds them; fewer bytes leave the others zero, more bytes than fit are refused with an exception;
  hex byte strings are parsed to exactly their bytes, and malformed ones are refused.""",
  ["inputs"], "every byte string, integer and hex text; debug and release builds", VT, [VI + "from_byte_array.hpp", VI + "to_byte_array.hpp"],
  [("Converter<integral, byte array>", VI + "from_byte_array.hpp"), ("Converter<byte array, integral>", VI + "to_byte_array.hpp")], NOTE + "Byte strings up to nine bytes over boundary values.")
P("V02", "Numbers, text and digits convert exactly, within the buffer given",
  """Converting any integer, float or bool to a char string gives its exact decimal text (floats at the chosen precision) when it fits the buffer and is refused otherwise, never writing outside the buffer; integer text is parsed to its value, digits to digits and back,
  and what is no number or out of range is refused.""",
  ["inputs"], "every value of every integral type, every buffer size and precision; debug and release builds", VT, [VI + "char_strings.hpp", VI + "char.hpp", VI + "integers.hpp", VI + "string.hpp"], [("CharStringBuffer converters", VI + "char_strings.hpp"), ("Converter<int, char*>", VI + "integers.hpp")],
  NOTE + "Floats are eighths, exact in binary. Copying a converter that owns its buffer is not driven.")

FI = "ecl_formatters/include/ecl/formatters/"
FT = "The formatters have no tests built here; they print a few samples for the eye."
P("F01", "Integer formatters print exactly the number in the chosen base and layout",
  """An integer formatter prints the exact value of every integer type in decimal, hexadecimal or binary, in the width, alignment and base last set permanently, or for one output only in those given with the number (which change nothing permanently). Each formatter has its own settings, copies too, threads may print with different formatters at once, and printing
  one without a number in a debug build raises the usage exception.""",
  ["inputs", "histories"], "every integer of every type, every setting and interleaving of permanent and temporary formats and copies; debug and release builds", FT, [FI + "number.hpp", FI + "common.hpp"], [("Format<integer>", FI + "number.hpp")],
  NOTE + "The exhaustive part uses short histories (level bound 4; 6 thorough); every type is driven to its limits.")
P("F02", "Float and string formatters print the value whole in the chosen layout",
  """A float formatter prints the value rounded to its precision, whole whatever its size, and a string formatter the whole string, padded to at least the width with the alignment chosen; temporary formats hold for one output and leave the permanent width, alignment and precision as they were; threads may print with different formatters at once; printing without a value in a debug build raises the usage exception.""",
  ["inputs", "histories"], "every float, double and string; every setting and interleaving of permanent and temporary formats; debug and release builds", FT, [FI + "floats.hpp", FI + "strings.hpp", "ecl_formatters/src/lib/strings.cpp"],
  [("Format<float>, Format<double>", FI + "floats.hpp"), ("Format<std::string>", "ecl_formatters/src/lib/strings.cpp")], NOTE + "Floats are eighths and powers of two, whose decimal text is exact.")
P("F03", "Container formatters print every element once, in order, as set",
  """The formatters of float containers (arrays, push-and-pops, stencils) print every element in order with the precision and width set, temporarily given ones holding for one output only; copies are independent. The byte formatters print each byte of an array, vector or stencil exactly, in hexadecimal, once, in order. Matrix formatters print row by row, in columns, with the same rules for settings.
  Printing without a container in a debug build raises the usage exception.""",
  ["inputs", "histories"], "every container kind, length and content, every setting history", FT,
  ["ecl_containers/include/ecl/containers/common/formatters.hpp", "ecl_containers/include/ecl/containers/array/formatters.hpp", "ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp", "ecl_containers/include/ecl/containers/stencil/formatters.hpp", "ecl_linear_algebra/include/ecl/linear_algebra/eigen/formatters.hpp"],
  [("FloatContainerFormatter", "ecl_containers/include/ecl/containers/common/formatters.hpp"), ("byte formatters", "ecl_containers/include/ecl/containers/array/formatters.hpp")], NOTE)
XI = "ecl_streams/include/ecl/streams/text_streams/"
XT = "The stream package's tests are not built here and read a few well formed lines."
P("X01", "Text streams read exactly what is written, or fail and say so",
  """Reading an integer, hex number, float, bool, char, string or skip-free char from a text stream skips leading blanks, takes exactly the characters of the value (the documented delimiters end it) and yields its exact value, for every value the type can hold; a text that is no such value, or out of range, or ends, or a failing
  device, leaves the target's stream in the failed state with the right error flag and never a made up value. Streams do not affect each other.""",
  ["inputs", "histories", "fault_sequences"], "every text, every type and sequence of reads, every point at which the device fails", XT, [XI + "input_text_stream.hpp", XI + "base_text_stream.hpp"], [("InputTextStream::operator>>", XI + "input_text_stream.hpp")],
  NOTE + "Every text of up to 3 characters of a 7 letter alphabet (4 thorough) is read as each kind of type.")
P("X02", "Text streams write everything once, in order, exactly; failures are reported",
  """What is put to a text stream (characters, strings, every integer type, floats whole with six decimals, bools, endl, flush, manipulators) arrives at its device once, in order, exactly; endl and flush flush the device; a failing write is reported by fail(). A string device keeps every character written until it is read or
  cleared, however much it grows, in order, and never touches memory outside its buffer.""",
  ["inputs", "histories", "fault_sequences"], "every sequence of outputs, reads, clears and device failures, any length", XT,
  [XI + "output_text_stream.hpp", "ecl_streams/include/ecl/streams/string_stream.hpp", "ecl_streams/src/lib/manipulators.cpp", "ecl_devices/include/ecl/devices/string.hpp", "ecl_devices/src/lib/string.cpp"],
  [("OutputTextStream::operator<<", XI + "output_text_stream.hpp"), ("String device", "ecl_devices/src/lib/string.cpp")], NOTE + "Address sanitised.")
DI = "ecl_devices/include/ecl/devices/"
DS = "ecl_devices/src/lib/"
DT = "The device tests are not built here (they open real devices by hand) and look at the good case."
P("D01", "A file device writes what it was given, once, in order, or reports why not",
  """An OFile that is open keeps at its path exactly what was there before (append) or nothing (new), followed by everything written, once, in order, complete after each flush or close. Opening, writing, flushing and closing report every failure with the matching error flag or exception,
  never a failure that did not occur; a failed or repeated open, close or end leaks no descriptor and closes no one else's.""",
  ["inputs", "histories", "fault_sequences", "configurations"], "every history of opens, writes, flushes, closes on several files, every point at which the system fails with any error; exceptions or error flags", DT,
  [DI + "ofile_pos.hpp", DS + "ofile_pos.cpp", DS + "detail/error_handler.cpp", DS + "detail/exception_handler_pos.cpp"], [("OFile::open, write, flush, close", DS + "ofile_pos.cpp"), ("open_error and others", DS + "detail/exception_handler_pos.cpp")],
  NOTE + "Runs in a scratch folder; failures are injected at the calls of the C library.")
P("D02", "A shared file loses and repeats nothing among its users and ends with the last",
  """All shared files of one name write to one file; what each has written appears once and whole, in the order it was flushed (by flush, a full buffer, or its end). The file opens with the first user and closes with the last, whatever failed in between; a failing open, write or flush is reported, and leaves every other shared file usable.""",
  ["histories", "fault_sequences", "configurations"], "every interleaving of several users opening, writing, flushing, ending and failing on several names; exceptions or error flags", DT,
  [DI + "shared_file.hpp", DS + "shared_file.cpp", DI + "detail/character_buffer.hpp"], [("SharedFileManager::RegisterSharedFile, DeRegisterSharedFile", DS + "shared_file.cpp"), ("SharedFile::write, flush", DS + "shared_file.cpp")],
  NOTE + "Users live in one thread here. Copying a SharedFile is not driven.")
P("D03", "Sockets carry bytes both ways in order and report hang ups and failures",
  """Bytes written by a socket client or server arrive at its peer once, in order; reads, peeks and remaining() tell the truth about what has arrived, and a peer that hung up, refused, timed out or does not exist, and every error of the system, is reported with the matching flag or exception.
  Opening, closing, listening again and ending in any order leak no descriptor and close no one else's.""",
  ["histories", "fault_sequences", "configurations"], "every history of opens, listens, reads, writes, closes and ends of both sides, every failure of each system call; exceptions or error flags", DT,
  [DI + "socket_client_pos.hpp", DI + "socket_server_pos.hpp", DS + "socket_client_pos.cpp", DS + "socket_server_pos.cpp", DS + "detail/socket_exception_handler_pos.cpp"],
  [("SocketClient::open, read, write", DS + "socket_client_pos.cpp"), ("SocketServer::listen, read, write", DS + "socket_server_pos.cpp")], NOTE + "Over the loopback network; failures are injected at the system calls.")
P("D04", "Consoles carry every character both ways, and report what they could not",
  """Everything written to an output or error console, any character included, reaches its descriptor once, in order, at the latest at the flush and never more than a buffer late; what could not be delivered is reported (debug builds raise the exception). An input console returns exactly the characters
  typed, one at a time or by line and length, and reports the end of the input, which no character is taken for.""",
  ["inputs", "histories", "fault_sequences"], "every sequence of characters, writes, flushes, reads and failures; debug and release builds", DT, [DI + "console.hpp", DS + "console.cpp", DS + "detail/character_buffer.cpp"],
  [("OConsole, EConsole, IConsole", DS + "console.cpp"), ("CharStringBuffer", DS + "detail/character_buffer.cpp")], NOTE + "Descriptors 0 to 2 of the driver are replaced by pipes and memory files. What is still held back when a console ends, and reading lines with null characters, is not judged.")
P("D05", "Serial ports carry every byte both ways and wait as long as asked",
  """A serial port, however constructed, opened, reopened and reconfigured, hands its peer exactly the bytes written and its reader exactly the bytes that arrive after it was opened, each once, in order, any byte value included, and applies exactly the baud rate, data bits, stop bits and parity asked for,
  5 s timeout at first. A read returns what is there at once; with nothing there it waits no shorter than its resolution allows and no longer than its timeout, returns when data comes in, and returns at once when unblocked. A port that is missing, locked by another process, unplugged, closed, wrongly configured or failing
  is reported with the matching exception or flag, leaks no descriptor, and leaves other ports alone.""",
  ["inputs", "histories", "fault_sequences", "configurations"], "every history of several handles, their peers and another process; every timeout, setting, moment data comes in, system error; debug and release builds", DT,
  [DI + "serial_pos.hpp", DI + "serial_parameters.hpp", DS + "serial_pos.cpp", DS + "detail/error_handler.cpp"], [("Serial::open, close, block, unblock", DS + "serial_pos.cpp"), ("Serial::read, write", DI + "serial_pos.hpp")],
  NOTE + "Ports are pseudo terminals, the clock and the time a terminal would wait are virtual. Several handles of one process on one port are not driven; block() and unblock() may keep or discard unread input, a port opened again may keep the timeout last set or return to 5 s.")
XS = "ecl_streams/include/ecl/streams/"
P("X03", "File and log streams write exactly what was logged, in its enabled modes",
  """What is put to a file, shared file or log stream ends up in the named file once, in order of the flushes, new or appended as asked, however the stream was opened. A log stream puts the current time stamp and the header last given for the mode in front as set,
  writes (and evaluates) what is logged in an enabled mode and nothing in others, each stream by its own settings; logging to a stream that is not open raises the exception.""",
  ["histories", "schedules", "fault_sequences"], "every history of several streams opening, logging, configuring, flushing, ending; several logging threads", XT,
  [XS + "log_stream.hpp", XS + "file_streams.hpp", XS + "shared_file_stream.hpp", "ecl_streams/src/lib/log_stream.cpp"], [("LogStream", "ecl_streams/src/lib/log_stream.cpp"), ("LOG, FLUSH", XS + "log_stream.hpp")],
  NOTE + "The clock is virtual. Threads are run freely (not every schedule) and their log is checked to hold every record once, whole and in order.")
P("X04", "Streams over serial ports, sockets and consoles carry text both ways",
  """What is put into a stream over a serial port, a connection or a console reaches its other end whole, once and in order when flushed or ended by endl; what the other end sends is read back as the same words, numbers and characters, white space skipped unless raw characters are asked for. A stream opens its device with the settings it was given,
  by its constructor or later, whether it was open before or not; what cannot be opened raises the exception; reading and writing what is not open raises it and moves nothing.""",
  ["histories", "inputs", "configurations"], "every sequence of opening, putting, reading, feeding and closing of all the streams; debug and release builds", XT,
  [XS + "serial_stream.hpp", XS + "socket_streams.hpp", XS + "console_streams.hpp", XS + "text_stream.hpp", XS + "manipulators/end_of_line.hpp"], [("SerialStream", XS + "serial_stream.hpp"), ("SocketClientStream, SocketServerStream", XS + "socket_streams.hpp"), ("OConsoleStream, IConsoleStream", XS + "console_streams.hpp")],
  NOTE + "Serial ports are pseudo terminals, connections go over the loopback network. Reading more than was sent (which waits for ever) is not driven.")
AU = "ecl_core_apps/src/utils/"
P("A01", "The utilities carry what is typed and what arrives, and convert rotations",
  """The serial, hex and socket utilities send what is typed to the other end (hex: the bytes it spells) whole and in order, and show what arrives as characters or as hex codes, as asked, each line (or character, as documented by each) after a time stamp when asked, whatever reads fail in between; they use the port, host and baud rate given on the command line and
  end as they say when the other end hangs up. yaw2quaternion prints the quaternion of a yaw, quaternion2yaw the yaw of a quaternion and refuses those that have other components. The programs that tell of the system tell the sizes of the types, and the process's own statistics, as they are.""",
  ["histories", "inputs", "fault_sequences"], "every session of typing, arriving text and failing reads, with every combination of options; every rotation about z", "The utilities have no tests.",
  [AU + "hex.cpp", AU + "serial.cpp", AU + "socket_client.cpp", AU + "socket_server.cpp", AU + "yaw2quaternion.cpp", AU + "quaternion2yaw.cpp", AU + "process_statistics.cpp", "ecl_type_traits/src/utils/detect_sizes.cpp"], [("Reader::loop, Writer::loop", AU + "socket_client.cpp"), ("Reader::run, Writer::run", AU + "hex.cpp")],
  NOTE + "Whole programs run in processes of their own on pseudo terminals and the loopback network, their sleeps shortened; release builds. Typing and arriving text alternate. Ill formed hex text, which ends the debug program, and lines over 79 characters in the hex utility are not driven.")
HI = "ecl_threads/include/ecl/threads/"
HS = "ecl_threads/src/lib/"
HT = "The thread tests are not built here and try each call once in one order."
P("T01", "A mutex has one holder at most, and lets every waiting thread have its turn",
  """A mutex is held by at most one thread; lock waits until it gets it, trylock never waits, a timed trylock waits for at least the duration given and then says no; unlocking lets one of the waiting threads in. locks() is the number of threads holding or waiting, whatever failed and however many act at once.
  In debug builds locking twice or unlocking what one does not hold raises an exception and changes nothing; a call that the system refuses is told by its kind and changes nothing.""",
  ["schedules", "histories", "configurations"], "every order in which threads lock, try, wait, time out and unlock; debug and release builds", HT, [HI + "mutex_pos.hpp", HS + "mutex_pos.cpp"], [("Mutex::lock, trylock, unlock", HS + "mutex_pos.cpp")],
  NOTE + "The orders of calls of four threads are driven step by step; instruction level interleavings only by threads at full speed.")
P("T02", "A thread runs its task exactly once and is cleaned up, whatever comes first",
  """A started thread runs the given function, member or function object once, with the priority and stack size asked for; starting it again is refused. isRunning tells whether the task is still to come to its end, join returns after that and not before, cancel ends the task at its next waiting point, and an object that ends lets
  its task go on. Each thread is joined or detached once, and each copy of a function object destroyed once. What cannot start says so and can be started later. A threadable runs one task at a time, any number of times.""",
  ["schedules", "histories", "fault_sequences", "configurations"], "every history of starts, ends of tasks, cancels, joins, destructions and failures; debug and release builds", HT, [HI + "thread_pos.hpp", HI + "threadable.hpp", HS + "thread_pos.cpp", HI + "thread_exceptions_pos.hpp"],
  [("Thread::start, join, cancel, isRunning", HS + "thread_pos.cpp"), ("ThreadTask::EntryPoint", HI + "thread_pos.hpp"), ("Threadable::start", HI + "threadable.hpp")], NOTE + "Tasks begin, wait and end on command. Two threads starting one threadable at the same moment, and copies of Thread, are not driven. In debug builds a thread that may not have its priority ends the program, by construction.")
P("T03", "The priority set is the one in force and the one reported, or it fails",
  """After set_priority succeeds, the scheduler has exactly the policy and level documented for it, get_priority and the diagnostics report that priority, whatever was set before; every refusal of the system is reported by the matching exception (debug) or false, and real time levels out of range are refused.""",
  ["histories", "fault_sequences", "configurations"], "every sequence of priorities and every system error; debug and release builds", HT, [HI + "priority_pos.hpp", HS + "priority_pos.cpp"], [("set_priority, get_priority", HS + "priority_pos.cpp")], NOTE + "The scheduler is a stand-in.")
II = "ecl_ipc/include/ecl/ipc/"
IS = "ecl_ipc/src/lib/"
IT = "The ipc tests are not built here; they use one process."
P("I01", "A semaphore lets one process in at a time, everyone of one name sharing it",
  """All processes that open a name while its creator has it share one lock: it is had by at most one of them, lock returns only with it (a signal does not end the wait), trylock never waits, a timed trylock waits for at least the duration given before it says no, unlocking lets one of those waiting in.
  A user that ends neither takes the name away from the others nor changes who has the lock; the name is free again when its creator ends. A call that the system refuses is told by its kind and changes nothing.""",
  ["schedules", "histories", "configurations"], "every order in which processes open, lock, wait, are signalled, time out, unlock and end; debug and release builds", IT, [II + "semaphore_pos.hpp", IS + "semaphore_pos.cpp"],
  [("Semaphore::Semaphore, ~Semaphore", IS + "semaphore_pos.cpp"), ("Semaphore::lock, trylock, unlock", IS + "semaphore_pos.cpp")], NOTE + "The orders of calls of up to four processes are driven step by step; instruction level interleavings only by processes at full speed. Processes that die without ending their semaphores, and several unlocking at the same moment without having the lock, are not driven.")
P("I02", "Shared memory of one name is one memory, initialised once, and cleaned up",
  """Whoever opens a name first creates the memory with the default value of its type, everyone else sees what is there; what one process stores all others read. A failing open is reported with the matching exception and leaves no mapping, no descriptor and everyone else's memory as it was.
  The name goes when its manager ends or unlinks it, never that of a later memory; those connected keep theirs until they end.""",
  ["histories", "fault_sequences", "configurations"], "every history of processes opening, storing, reading, failing, unlinking and ending; debug and release builds", IT, [II + "shared_memory_pos.hpp", IS + "shared_memory_pos.cpp"],
  [("SharedMemory::SharedMemory, ~SharedMemory", II + "shared_memory_pos.hpp"), ("SharedMemoryBase::open, unlink", IS + "shared_memory_pos.cpp")], NOTE + "One type per name. Connecting in the very moment of another process's creation, which the documentation warns of, and unlinking by others than the manager, are not driven.")
SI = "ecl_sigslots/include/ecl/sigslots/"
P("J01", "Trajectories start, end and stay within the limits their waypoints set",
  """A trajectory interpolated through waypoints (smooth linear or tension splines) starts and ends at the first and last waypoint with the rates configured there (at rest if none), has no jump in position or speed, never exceeds a joint's greatest acceleration, and stretches durations rather than exceed nominal rates; tension splines pass every waypoint in between.
  What cannot be interpolated (too few waypoints, no nominal rate, no time) is refused, as are mismatched dimensions and times outside. Waypoints keep, copy, compare and print what was set.""",
  ["inputs", "histories"], "random waypoints in one to three dimensions, rates, durations and acceleration limits; every short history of waypoints and trajectories; debug and release builds", "The trajectory tests are not built here; they interpolate one set of waypoints.",
  ["ecl_manipulators/include/ecl/manipulators/waypoint.hpp", "ecl_manipulators/include/ecl/manipulators/trajectory.hpp", "ecl_manipulators/src/lib/trajectory.cpp"], [("linearSplineInterpolation, generateLinearSplines, tensionSplineInterpolation", "ecl_manipulators/src/lib/trajectory.cpp"), ("WayPoint", "ecl_manipulators/include/ecl/manipulators/waypoint.hpp")],
  NOTE + "Curves are judged at 6000 sampled times each, with tolerances that grow where short corners lie late in a long trajectory. Zero acceleration limits (interpolation would not end), queries before interpolating and copies of trajectories are not driven.")
P("K01", "Statistics and covariance ellipsoids are those of the data given",
  """Cumulative statistics hold, after any sequence of samples and clears and in copies, the mean and the (unbiased) variance of the samples since the last clear, and zeroes before there are any.
  An ellipse or ellipsoid built from a covariance has the square roots of its eigenvalues as lengths (the order documented) and their directions as axes, at right angles and of unit length, with rotation and intercepts to match, however close its eigenvalues or small its correlations; a default one is a unit circle or sphere.""",
  ["inputs", "histories"], "every short history of samples; random samples, rotations (rational), lengths and nearly degenerate matrices; float and double; debug and release builds", "The statistics tests are not built here; they look at one matrix each.",
  ["ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp", "ecl_statistics/include/ecl/statistics/covariance_ellipsoid.hpp", "ecl_statistics/src/lib/covariance_ellipsoid.cpp"], [("CumulativeStatistics::push_back", "ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp"), ("CovarianceEllipsoid::compute", "ecl_statistics/src/lib/covariance_ellipsoid.cpp")],
  NOTE + "Covariances are made of rational axes and whole lengths, whose ellipsoids are known exactly; matrices that are not symmetric or not positive are not driven.")
P("P01", "Real paths are the canonical places that paths stand for",
  """realpath answers, for any path, the canonical absolute path (no links, dots or doubled slashes) of what it stands for: relative ones from the directory one is in, links followed wherever they point, one after the other.
  Paths that stand for nothing, that run through files, loop, are too long or run through what may not be searched give the error documented for each, leave the text they were to fill alone, and leave nothing behind.""",
  ["inputs", "histories", "fault_sequences"], "every path of a family in every small tree of directories, files and links; random trees; each error of the system; debug and release builds", "No test looks at realpath.",
  ["ecl_filesystem/src/lib/realpath.cpp", "ecl_filesystem/include/ecl/filesystem/realpath.hpp"], [("realpath", "ecl_filesystem/src/lib/realpath.cpp")],
  NOTE + "Everything happens in a scratch tree below /tmp; paths that climb out of it are not driven. On Windows the function is something else, which is not covered.")
P("R01", "Differential drives turn wheel angles to poses and back exactly",
  """For a robot of any axis length and wheel radius, wheel angles give the way along (never aside) and the turn, wrapped, of the base; speeds give the wheel rates that bring them about, so that going there and looking back gives the same motion.
  Between two poses, the motion is their distance, negative if the second lies behind, and the wrapped difference of their headings.""",
  ["inputs", "histories"], "every small robot, command and pair of poses of a family; every drive on a small grid; random robots; debug and release builds", "No test looks at the kinematics.",
  ["ecl_mobile_robot/src/lib/differential_drive.cpp", "ecl_mobile_robot/include/ecl/mobile_robot/kinematics/differential_drive.hpp"], [("DifferentialDriveKinematics", "ecl_mobile_robot/src/lib/differential_drive.cpp")],
  NOTE + "Half turns may be reported either way; poses exactly sideways of each other are not driven (the sign is a matter of rounding), and headings are multiples of 15 degrees.")
P("S01", "Emitting runs every slot connected, once per shared topic, and no other",
  """Emitting a signal runs, with its data, each slot then listening to a topic it publishes, once for each such topic, and those reached through relaying signals; slots disconnected or ended meanwhile (by a slot, or another thread) are passed over. Handles that are copies share one connection, which is gone, with all its topics, at the end of the last;
  ending a slot waits until it is no longer running anywhere. What a slot throws reaches the emitter and breaks nothing.""",
  ["histories", "schedules", "configurations"], "every history of connections, copies, ends and emissions, slots acting or halting while they run; with and without data, debug and release builds", "The sigslot tests are not built here; they emit a few times in one thread.",
  [SI + "sigslot.hpp", SI + "manager.hpp", SI + "topic.hpp", SI + "signal.hpp", SI + "slot.hpp"], [("SigSlot::emit, process, ~SigSlot", SI + "sigslot.hpp"), ("SigSlotsManager::disconnect", SI + "manager.hpp"), ("Signal, Slot handles", SI + "slot.hpp")],
  NOTE + "Another thread emits and is halted inside a slot on command; other interleavings only by threads at full speed. A signal that ends while it emits, slots that end themselves (they would wait for ever) and signals reaching themselves are not driven.")
