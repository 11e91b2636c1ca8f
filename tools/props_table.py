ASAN = "address/UB sanitizers + "
COMMON = ("Held on the executions of the seeded workload only; the real sources are compiled with "
          "-fsanitize=address,undefined and pattern-initialised memory. ")

prop("C01", "Time arithmetic, ordering and scale conversions are exact",
     "Time stamps behave as one signed count of nanoseconds: comparison is a total order consistent with it, "
     "adding or subtracting instants, integers or seconds gives the exact (to 1 ns) normalised result. Conversions from GPS, Galileo and GLONASS week/time-of-week, "
     "GLONASS time of day and calendar dates name the right instant (for all weeks and milliseconds, across "
     "midnight and week ends), invert exactly, and one physical instant named on different scales is one stamp. "
     "Printed times identify the instant to the millisecond.",
     ["inputs"], "all pairs of instants (any second and nanosecond, negative included), all steps, weeks, "
     "milliseconds of week, times of day and dates",
     "Unit tests compare a few hand-picked instants with whole seconds; the defects live at second, week and midnight edges.",
     ["common/utctime.h", "common/utctime.cxx"],
     [("arithmetic and comparison operators", "common/utctime.cxx"),
      ("fromGPS/fromGalileo/fromGlonass/fromGlonassTimeOfDay/fromCalendar", "common/utctime.cxx"),
      ("fmt/stream printing", "common/utctime.h")],
     ASAN + "128-bit integer reference monitor on every operation",
     COMMON + "Oracle: 128-bit nanosecond arithmetic and an independent civil-date conversion.")

prop("C02", "Quantised time equality and ordering are consistent",
     "Two instants compare equal in quantised time exactly when they are closer than half the resolution; otherwise "
     "they are strictly ordered by time and exactly one of before/equal/after holds. The comparison is "
     "symmetric: swapping the operands swaps the answer.",
     ["inputs"], "all pairs of instants, concentrated around the half-resolution band and second boundaries",
     "Tests try a handful of offsets; the band edge across a second boundary is not among them.",
     ["common/quantized_time.h", "common/quantized_time.cxx"],
     [("comparison operators", "common/quantized_time.cxx")],
     ASAN + "integer reference monitor",
     COMMON + "Pairs within a few ns of the band edge are checked for consistency only.")

prop("C03", "The fixed-capacity ring buffer is a faithful bounded deque",
     "After any sequence of pushes, pops at either end, clears, copies and iterations, a ring buffer of capacity N "
     "holds exactly what a deque that drops its oldest element when full would hold, in the same order, through "
     "every accessor and iterator. Every element is constructed once, destroyed once and never touched outside its "
     "lifetime, elements are correctly aligned, and a copy shares nothing with its source.",
     ["histories"], "all operation sequences on buffers of several capacities and element types",
     "Unit tests push a fixed sequence of ints; wrap-around combined with pops, copies and non-trivial elements is not reached.",
     ["common/circular_buffer.h"],
     [("push/pop/wrap-around and element lifetime", "common/circular_buffer.h")],
     ASAN + "online model monitor (deque + lifetime ledger), exhaustive short histories",
     COMMON + "Exhaustive over all operation sequences up to a small length, random beyond.")

prop("C04", "A written log is read back completely, unchanged and in time order",
     "Every record written to a log is delivered by the reader exactly once, with identical content and stamp, to the "
     "callback subscribed for its stream and to nobody else. Records are delivered in the order of their stamps "
     "across streams (in write order within a stream), whatever subset is subscribed. A directory of logs stands for the one started last; moving a log or reading it again does not "
     "change what is read, and the recorded start, end and duration are those of the logging session.",
     ["histories", "inputs"], "all sequences of records of all kinds over any set of streams, with ties, and any subscription subset",
     "The tests write one small monotone sequence of a few types and read every stream.",
     ["common/logging/log_writer.cxx", "common/logging/log_reader.cxx", "common/logging/logger.h", "common/logging/logger.cxx", "common/logging/log_key.h",
      "common/logging/log_format.h"],
     [("per-stream files with headers", "common/logging/logger.h"),
      ("time-ordered merge", "common/logging/log_reader.cxx")],
     ASAN + "event-log comparison (exactly-once, order, content)",
     COMMON + "Oracle: the list of records given to the logger.")

prop("C05", "Log streams describe their own layout, for the C++ and python readers",
     "The header of every stream names the record type and its fields such that the listed types, sizes and names account for "
     "exactly the bytes of each record. The repository's python reader, guided by the header only, "
     "recovers for every record the same values that were logged, matrices included.",
     ["inputs"], "all loggable record kinds with arbitrary content",
     "The python reader is untested, and C++ tests read back with the same code that wrote, so a wrong header goes unseen.",
     ["common/logging/log_format.h", "common/logging/log_reader.py", "common/logging/logger.h", "common/logging/serialize.h"],
     [("field descriptions per type", "common/logging"), ("python loader", "common/logging/log_reader.py")],
     ASAN + "differential monitor against the python reader",
     COMMON + "Needs the system python3 with numpy and yaml.")

prop("C06", "Amended and truncated logs read as the most complete consistent log",
     "Reading a log that amends others delivers each stream from the newest log that contains it and nothing from "
     "shadowed copies, in global time order. A log whose data files are cut at any byte (crash while writing) still "
     "delivers every record completely on disk before the cut, unchanged, and ends cleanly.",
     ["crash_points", "histories"], "every byte position of a data file cut, and chains of amendments with any shadowing",
     "Tests have one two-level amendment and never truncate a file.",
     ["common/logging/log_reader.cxx", "common/logging/logger.cxx"],
     [("amends resolution", "common/logging/log_reader.cxx"), ("end of stream detection", "common/logging/log_reader.cxx")],
     ASAN + "truncation-point enumeration with recorded-history comparison",
     COMMON + "At most one partially written record may follow the complete ones.")

_dec = "over any history of received subframes/words/strings: any order, losses, repeats, issue changes, other satellites, damaged or padded messages"
prop("C07", "GPS ephemerides are decoded exactly and never mix issues",
     "Whenever the GPS decoder reports an ephemeris, all its subframes belong to one issue of data of one satellite and every field "
     "equals, bit for bit after scaling, the value the satellite broadcast. A complete set of subframes received in "
     "order is reported, no subframe of an older issue or other satellite leaks in, and foreign or broken messages change nothing.",
     ["histories", "inputs"], _dec,
     "Tests feed one recorded sequence; issue changes between subframes, losses and extreme field values do not occur in it.",
     ["common/ephemeris/gps.h", "common/ephemeris/gps.cxx"],
     [("subframe parser with issue-of-data checks", "common/ephemeris/gps.cxx"), ("bit extraction", "common/ephemeris/ephemeris.h")],
     ASAN + "independent encoder, per-field comparison over random histories",
     COMMON + "Oracle: an encoder written from the interface specification.")
prop("C08", "Galileo ephemerides are decoded exactly and never mix issues",
     "Whenever the Galileo decoder reports an ephemeris, all its words carry one issue of data of one satellite and every field "
     "equals, bit for bit after scaling, what the satellite broadcast. Pages that are damaged, alerting or of other satellites "
     "change nothing, and a completely received issue is reported with the right week.",
     ["histories", "inputs"], _dec,
     "Tests feed one recorded sequence whose expected values were produced by the decoder itself.",
     ["common/ephemeris/galileo.h", "common/ephemeris/galileo.cxx"],
     [("word parser and CRC", "common/ephemeris/galileo.cxx")],
     ASAN + "independent encoder, per-field comparison over random histories",
     COMMON + "Oracle: an encoder written from the interface specification. Known finding: the last 16 bits of each word.")
prop("C09", "GLONASS ephemerides are decoded exactly and never mix frames",
     "Whenever the GLONASS decoder reports an ephemeris, its strings belong to one frame and every field equals, after scaling, what "
     "the satellite broadcast, with times of ephemeris resolved to the right day. Damaged strings change nothing, and a "
     "complete frame is reported.",
     ["histories", "inputs"], _dec,
     "Tests feed one recorded frame; frame changes, midnight and large four-year intervals do not occur in it.",
     ["common/ephemeris/glonass.h", "common/ephemeris/glonass.cxx"],
     [("string parser and Hamming check", "common/ephemeris/glonass.cxx")],
     ASAN + "independent encoder, per-field comparison over random histories",
     COMMON + "Oracle: an encoder written from the interface specification.")
prop("C10", "Navigation decoders survive any input and depend on the messages alone",
     "Feeding any bytes of any length and alignment to the navigation decoders causes no memory error, undefined behaviour, hang or "
     "exit. What a decoder reports depends only on the messages it was given, not on memory contents, and any one- or two-bit "
     "corruption of a checksummed message is rejected without effect.",
     ["inputs", "fault_sequences"], "all byte sequences, lengths and alignments; all one- and two-bit errors",
     "Tests feed only well-formed messages of fixed size from aligned buffers.",
     ["common/ephemeris/gps.cxx", "common/ephemeris/galileo.cxx", "common/ephemeris/glonass.cxx", "common/ephemeris/ephemeris.h"],
     [("length and checksum validation", "common/ephemeris")],
     ASAN + "twin execution in differently filled memory, error injection",
     COMMON + "Exact-size heap buffers make any overread visible.")
prop("C11", "Bit-field extraction and insertion are exact for every offset and width",
     "Reading a signed, unsigned or sign-magnitude field of any supported width at any bit offset returns exactly the value those bits encode, "
     "and inserting a field changes those bits and no other. No byte outside the field is accessed.",
     ["inputs"], "every width and offset, all-ones/zeros/random contents, exact-size buffers",
     "Tests cover a few widths at a few offsets.",
     ["common/ephemeris/ephemeris.h", "utils"],
     [("getBit/setBit templates", "common/ephemeris")],
     ASAN + "bit-by-bit reference monitor, exhaustive widths and offsets",
     COMMON)
prop("C12", "Satellite positions, velocities and clocks follow the broadcast model",
     "The satellite state computed from a broadcast ephemeris equals the interface specification's position and clock for "
     "every time in its validity window, its velocity and clock drift are the time derivatives of position and clock, and all are finite. It depends on the "
     "ephemeris and time only, not on earlier computations or the previous contents of the output.",
     ["inputs", "histories"], "all physically possible GPS, Galileo and GLONASS ephemerides and times in their validity window, and sequences of calls",
     "Tests check one ephemeris per system against values with metre tolerances and always fresh outputs.",
     ["common/satellite/satellite_state.h", "common/satellite/satellite_state.cxx"],
     [("Kepler orbit and clock", "common/satellite/satellite_state.cxx"), ("GLONASS numerical integration", "common/satellite/satellite_state.cxx")],
     ASAN + "extended-precision reference model on random ephemerides",
     COMMON + "Oracle: long double re-implementation of the specifications; mm for Kepler, 5 cm for GLONASS.")
prop("C13", "The almanac always answers with the ephemeris closest in time",
     "However ephemerides of a satellite arrive (any order, repeats, updates of the same epoch), a state request is answered from one "
     "whose reference time is closest to the request, and a re-issued epoch replaces the older "
     "data. Ephemerides of other satellites or systems are refused, and lookups never alter what later lookups return. "
     "Through the satellite manager each request reaches exactly the satellite asked for, with all it was told, and unknown ones are reported.",
     ["histories"], "all arrival sequences and query times, including ties and times outside all validity windows",
     "Tests add two ephemerides in order.",
     ["common/satellite/satellite.h", "common/satellite/satellite.cxx", "core/sat_manager.cxx"],
     [("sorted insertion and closest search", "common/satellite/satellite.h"), ("getSat, ephCb", "core/sat_manager.cxx")],
     ASAN + "online model monitor over arrival histories",
     COMMON)
prop("C14", "Line of sight, light time and atmospheric delays are consistent",
     "For any receiver and satellite, azimuth and elevation are those of the line of sight in the receiver's local frame, the cached satellite state "
     "is that at the transmission time of the signal (range = light time, Earth rotation accounted for), and tropospheric and ionospheric delays are finite, "
     "non-negative and follow their published models. Updating the same cache for other times, receivers and satellites gives what a fresh computation gives.",
     ["inputs", "histories"], "all receiver positions (poles, date line, below sea level), look angles, times and query histories",
     "Tests use one receiver site and one satellite.",
     ["common/satellite/satellite_cache.cxx", "common/satellite/azel.cxx", "common/satellite/atm_correction.cxx", "common/satellite/satellite.h"],
     [("azimuth/elevation", "common/satellite/azel.cxx"), ("Klobuchar/Saastamoinen", "common/satellite/atm_correction.cxx"),
      ("light-time iteration and caching", "common/satellite/satellite_cache.cxx")],
     ASAN + "reference model and cache-versus-fresh comparison",
     COMMON + "Oracle: independent re-implementations.")
prop("C15", "The Lie group library obeys its group laws and its Jacobians are derivatives",
     "Quaternions, dual quaternions, SO3 and SE3 compose, invert, act on points and convert into one another as the rotations and rigid motions they stand for; "
     "exp and log invert each other over the whole range including zero and half a turn. Every Jacobian they return is the derivative of the value "
     "returned with it, and no finite input gives NaN, reads outside the storage or depends on aliasing of the operands.",
     ["inputs"], "all rotation angles (zero, series thresholds, half a turn), both quaternion signs, translations up to Earth radius, aliased operands and all storage kinds",
     "Tests use a few fixed medium-size rotations; thresholds, half turns and aliasing never occur.",
     ["common/math/quat.h", "common/math/dquat.h", "common/math/so3.h", "common/math/se3.h", "common/math/two_jet.h",
      "common/math/runge_kutta.h", "common/matrix_defs.h"],
     [("exp/log and their Jacobians", "common/math"), ("matrix utilities", "common/matrix_defs.h")],
     ASAN + "extended-precision matrix-exponential reference and numerical derivatives",
     COMMON + "Oracle: long double matrix exponential and 4x4 matrices; derivatives by central differences in long double.")
prop("C16", "Geodetic, Cartesian and local-level coordinates name the same points",
     "Converting latitude/longitude/height to Earth-centred coordinates, back, or to local north-east-down coordinates about any origin names the same "
     "physical point on the WGS84 ellipsoid, to micrometres near the surface, everywhere: poles, equator, date line, ocean floor, satellite altitudes. "
     "Local frames are orthonormal, point to true north, east and along the vertical, and preserve distances; every overload of a conversion agrees with the others.",
     ["inputs"], "all positions from below the ocean floor to beyond satellite altitude and all pairs of them",
     "Tests convert a few mid-latitude points.",
     ["utils/wgs84.h", "utils/wgs84.cxx"],
     [("ecef2lla iteration, q_e2n, dq_ecef2ned", "utils/wgs84.cxx")],
     ASAN + "extended-precision ellipsoid reference",
     COMMON + "Axes of a frame whose origin is given in Cartesian coordinates are not judged within 6 m of a pole.")
prop("C17", "Integer ambiguity resolution returns the best integer vector",
     "For any float ambiguity vector and positive definite covariance, the integer least-squares solver returns the integer vector of least Mahalanobis "
     "distance and the ratio of the best to the second best distance. Decorrelation is by a unimodular integer matrix and changes no distance; "
     "the factorisation reproduces the covariance; the search reports true distances, in order, without repeats.",
     ["inputs"], "all dimensions, scales and correlations of covariances and all float vectors, ill-conditioned ones included",
     "Tests solve one published example.",
     ["core/solver/lambda.h", "core/solver/lambda.cxx"],
     [("lambda/reduction/search", "core/solver/lambda.cxx")],
     ASAN + "exhaustive enumeration oracle and problems with planted solutions",
     COMMON + "Enumeration up to 5 ambiguities; up to 30 with separable problems disguised by unimodular transforms.")

prop("C18", "A generated filter is an extended Kalman filter",
     "For any configuration of fixed, rotation/pose and bundled states, the filter generated from it propagates and updates as the dense textbook filter does: "
     "the covariance is Ab P Ab' + Bb Qu Bb' + Qx with the second-order transition, the update uses P H' (H P H' + R)^-1 and subtracts what it learned, "
     "for every number of bundled states from none to the maximum. States are moved along their manifolds, keep their time when copied, "
     "measurements beyond the gate or disabled leave the estimate alone, a non-finite member anywhere is noticed and an unused one is not, "
     "and what is beyond the used part of a bundle never influences the result. The generator's output does not depend on the hash seed.",
     ["inputs", "histories"], "all states, covariances, Jacobians, noise levels, numbers of bundled states and sequences of predictions and updates",
     "Tests compare one configuration with one size at a time, with fresh memory behind the used part.",
     ["core/ekf/ekf_gen/ekf_gen.py", "core/ekf/ekf_gen/ekf_gen_matrix_manip.py", "core/ekf/ekf_gen/ekf_gen_state.py",
      "core/ekf/ekf_gen/ekf_gen_templates.py", "core/ekf/ekf_gen/ekf_gen_utils.py", "core/ekf/ekf_gen/symb_algebra.py",
      "core/ekf/ekf_gen/symb_block_matrix.py", "core/ekf/ekf_gen/symb_matrix.py"],
     [("expression generator", "core/ekf/ekf_gen/symb_block_matrix.py"), ("templates", "core/ekf/ekf_gen/ekf_gen_templates.py")],
     ASAN + "dense-algebra reference filter run in lockstep with the generated one",
     COMMON + "One configuration (harness/ekf/mon.yaml) with every kind of state and measurement; two generated filters cannot be linked together.")

prop("C19", "The RTK filter models are the physics and their Jacobians their derivatives",
     "The state derivative of the RTK filter is strapdown inertial navigation (gravity, turning body frame, biases, clocks); its measurement models "
     "predict the antenna's position and velocity, the pseudorange and Doppler of each satellite (geometry, lever arm, Earth rotation, atmosphere, both clocks of the "
     "right constellation) and the fixed ambiguities. Every Jacobian, for state, input and error, is the derivative of the value it comes "
     "with; asking for Jacobians changes no value, and entries of unused satellites are zero.",
     ["inputs"], "all states, inputs, lever arms, satellites and numbers of satellites from none to the maximum",
     "Tests compare Jacobians at one random state.",
     ["core/ekf/rtk_ekf_impl.cxx"],
     [("state dynamics and measurement models", "core/ekf/rtk_ekf_impl.cxx")],
     ASAN + "independent strapdown and observation models, numerical derivatives",
     COMMON + "Range rate may include the Earth rotation term with either sign; the change of the line of sight is ignored in the Doppler Jacobian by design.")
prop("C20", "Measurements may arrive in any order",
     "Whatever the order in which measurements of different sensors arrive, the estimate equals that of the same measurements "
     "arriving in order of time, as long as each is late by no more than the estimator's history: each accepted measurement is applied exactly once, in time order, with the right "
     "satellite and constellation, the inputs being those in force at its time. Measurements refused as too old change nothing, none ends the process, "
     "and the residual log holds one entry per update applied.",
     ["histories", "schedules"], "all arrival orders, delays, simultaneous measurements, gaps and sensor rates",
     "Tests feed a handful of measurements in two orders.",
     ["core/ekf/rtk_ekf_estimator.h", "core/ekf/rtk_ekf_estimator.cxx", "core/sat_manager.cxx"],
     [("rewind and replay", "core/ekf/rtk_ekf_estimator.cxx"), ("history buffers", "core/ekf/rtk_ekf_estimator.h")],
     ASAN + "trace monitor: the estimator drives a recording filter, whose calls are compared with those an in-order run should make",
     COMMON + "IMU stamps at least one time quantum (0.1 ms) apart; histories in which satellites were evicted between rewind and replay are not judged.")

prop("C21", "Preintegrated IMU agrees with strapdown integration and is well differentiated",
     "The relative pose and velocity preintegrated from a stream of inertial samples equal strapdown integration of those samples, whatever their spacing and wherever "
     "the interval starts and ends; the residual between two poses vanishes exactly when they are related by that motion under gravity, whatever pose they start from; "
     "a change of the bias estimate is accounted for to first order; the covariance is the propagated noise, symmetric and positive; every Jacobian is the derivative "
     "of its residual; splitting an interval anywhere changes nothing; copies are independent of their originals.",
     ["inputs", "histories"], "all streams of samples, intervals, poses, velocities, biases and orders of operations",
     "Tests integrate one simulated stream from the identity pose.",
     ["models/imu_model.h", "models/imu_model.cxx", "models/imu_state.h", "models/imu_state.cxx"],
     [("preintegration and residual", "models/imu_model.cxx"), ("error-state arithmetic", "models/imu_state.cxx")],
     ASAN + "independent strapdown integration, covariance recursion and numerical derivatives",
     COMMON + "Accuracy is judged to the order of the integration scheme used.")
prop("C22", "Graph residuals measure what they claim and come with their derivatives",
     "Each residual of the factor graph is its predicted minus measured quantity, whitened by its weight: pseudorange and Doppler with satellite motion, "
     "Earth rotation, lever arm and clocks of the right constellation, change of carrier phase between epochs, constant clock drift and switch factors, pose anchors. It "
     "vanishes for consistent states, does not depend on which Jacobians are asked for, and every Jacobian asked for is the derivative of the residual along the manifold "
     "of the parameter; robust switch factors only scale it.",
     ["inputs"], "all states, satellites, weights, and subsets of requested Jacobians",
     "Tests compare Jacobians at a few states with diagonal weights.",
     ["models/*.h", "models/*.cxx"],
     [("pseudorange", "models/prange_model.cxx"), ("carrier phase", "models/carrier_phase_model.cxx")],
     ASAN + "independent observation models and numerical derivatives",
     COMMON + "The known finding on the unit of the carrier phase is not judged further.")

prop("C23", "Receiver messages are delivered once, intact and in order, and recorded as sent",
     "Every well-formed UBX message in the byte stream, whatever is around it, however the bytes are split into reads, and whatever came before (foreign protocols, damaged, cut "
     "or overlong messages), reaches every subscribed listener exactly once, unaltered and in order; nothing else does; the parser always recovers. Commands are complete "
     "well-formed messages that depend on nothing but their arguments; version and module come from the receiver's answer; waiting and registering while another thread "
     "receives is free of races. A recording holds exactly the ephemerides and observations received, with their times, frequencies and units.",
     ["inputs", "histories", "schedules"], "all byte streams, ways of splitting them, command sequences and interleavings of receiver and user",
     "There is no test of the parser or the recorder.",
     ["parsers/ubx/ubx.h", "parsers/ubx/ubx.cxx", "parsers/ubx/ubx_defs.h", "tools/gather_ephemeris.cxx"],
     [("frame parser and commands", "parsers/ubx/ubx.cxx"), ("recorder", "tools/gather_ephemeris.cxx")],
     ASAN + "stream monitor on framed messages, ThreadSanitizer on a receiving thread, end-to-end comparison of recordings",
     COMMON + "The serial port library is replaced by a stand-in with the same interface. A damaged message may swallow as many bytes as its length announces.")

prop("C24", "Simulated sensors, feed, vehicle and controllers tell the simulated truth",
     "Simulated measurements are functions of the simulated truth at their own stamp: the IMU reads angular rate and specific force in the body frame plus walking biases and white "
     "noise of the configured sizes, the GNSS receiver reads pseudorange, Doppler and carrier phase of exactly the visible satellites from its antenna with one receiver clock, both at the configured rate. "
     "Ephemerides are delivered once each, in order, never before their time or beyond the last; the vehicle obeys its equations of motion, its controllers their gains, limits and signs, "
     "and it visits its waypoints in order. A recorded run is complete, in time order and reproduces its truth from its own measurements.",
     ["inputs", "histories"], "all vehicle states, skies, antenna positions, rates, options, noise settings and lengths of run",
     "There is one test of the car; the sensors, the feed and the simulation loop have none.",
     ["sim/sim.h", "sim/sim.cxx", "sim/sensors/*", "sim/dynamics/*", "sim/controllers/*"],
     [("inertial sensor", "sim/sensors/imu.cxx"), ("GNSS receiver and ephemeris feed", "sim/sensors/gnss.cxx"),
      ("vehicle and waypoints", "sim/dynamics/car.cxx"), ("controller", "sim/controllers/pid.cxx"), ("run", "sim/sim.cxx")],
     ASAN + "independent models of sensors and vehicle, statistics of the noise, dead reckoning of recorded runs",
     COMMON + "Noise statistics are judged at six or more standard errors. Zero time steps are not judged.")
prop("C25", "Configuration values arrive as written, or the program is told",
     "A value asked for by path is the one written there, element for element and in row order for matrices, whatever the layout of the file; a value that is absent, of another type or "
     "of another number of elements is reported and leaves the destination untouched, and ends the program if it was required. Only the destination asked for is written. "
     "Files that are missing or not YAML are never taken for an empty configuration.",
     ["inputs"], "all documents, paths, requested types and sizes",
     "Tests read one file whose values all fit.",
     ["utils/config.h", "utils/config.cxx", "utils/split_string.cxx"],
     [("typed access", "utils/config.h"), ("file", "utils/config.cxx")],
     ASAN + "differential monitor against the document model the file was written from",
     COMMON + "Numbers written as a type convertible to the one asked for are not judged beyond what YAML defines.")

prop("C26", "Simulated recordings and their post-processed estimates are what they say",
     "Whatever its configuration, the simulation program records exactly the configured run: its length, steps, rates, vehicle limits, waypoints, place, antenna and noises, each "
     "option acting where it says and nowhere else, with a truth that explains every recorded measurement. Post-processing such a recording starts from the configured or recorded state with the configured uncertainties, "
     "uses every inertial sample and observation once at its time, follows the truth within the accuracy of its integration, and writes whole records of the declared layout. "
     "The shipped configurations are accepted, and the ephemeris verifier names each ephemeris once and flags exactly those far from their reference time.",
     ["inputs", "histories"], "all configurations, skies, drives, rates and lengths of run",
     "No test runs any of the programs.",
     ["sim/simulate.cxx", "tools/post_process.cxx", "tools/verify_ephemeris.cxx", "config/*.yaml", "sim/config/*.yaml", "core/ekf/*"],
     [("simulation program", "sim/simulate.cxx"), ("post processing", "tools/post_process.cxx"), ("filter driver", "core/ekf/rtk_ekf_estimator.cxx")],
     ASAN + "the real programs run end to end in processes of their own; their recordings are compared with an independent drive, receiver model and dead reckoning",
     COMMON + "The generated filter is compiled without sanitizers. The sense of the configured heading is accepted either way. Runs of up to 30 s. Satellites within 3.5 degrees of the horizon are not judged by their residuals.")
prop("C27", "The shared numerical tools compute what their names say",
     "The numerical differentiators return, for every function between vectors and the Lie groups and on either side, its derivative to within the accuracy of their step; stacking, tiling, ranking, "
     "splitting into whole and fractional parts, clamping, skewing and tests for finiteness are right for every matrix, special values included. Random matrices have the size asked for, normal ones the "
     "standard distribution, uniform ones fill exactly the interval asked for. Strings are split and stripped without losing or inventing a character.",
     ["inputs"], "all functions, base points, matrices, intervals and strings",
     "Tests differentiate a handful of functions and never look at the random matrices.",
     ["common/numerical_jacobian.h", "common/matrix_defs.h", "common/random.h", "common/defs.h", "utils/split_string.cxx", "utils/strip_string.cxx"],
     [("numerical derivatives", "common/numerical_jacobian.h"), ("matrix helpers", "common/matrix_defs.h"), ("random matrices", "common/random.h")],
     ASAN + "online monitors: sixth-order differences, element-wise models, moments and ranges of the random values",
     COMMON + "An empty part after a trailing delimiter may be present or not; how tied values are ranked among themselves is not judged.")

prop("C28", "Failures are reported once, in full, and never passed over",
     "A failed check tells where it stands and what it says on the error stream and ends the program, a passed one does nothing; a message is shown, with its place and arguments and on its stream, exactly when its "
     "severity reaches the configured level and its condition holds. An error handed up through any tree of calls stops it at the failing step and arrives unchanged, and every step is evaluated exactly once. "
     "A result gives out a value or an error, never the one it does not hold, and an output argument writes exactly the elements named and refuses a destination of the wrong size.",
     ["inputs", "histories"], "all messages, levels, trees of calls, result types and sizes of destinations",
     "Tests print one line of each kind without looking at it and unwrap one result.",
     ["common/check.cxx", "common/print.h", "common/print.cxx", "common/error.h", "common/error_result.h", "common/out.h"],
     [("checks", "common/check.cxx"), ("messages", "common/print.cxx"), ("errors and results", "common/error.h, common/error_result.h"), ("output arguments", "common/out.h")],
     ASAN + "captured streams and exit status of forked runs, shadow model of call trees, element-wise model of outputs",
     COMMON + "Colours are not judged. Errors made from equal text at different places may or may not be equal.")

prop("C29", "Factors and graph nodes stand for the very variables they were given",
     "A factor's typed accessors, members and generic list lead, in order, to the variables it was built from, whatever changes and however many factors share them; each variable shows through its generic interface "
     "exactly its own numbers, their count and a kind that no other kind has. "
     "A graph starts with one node at the time, pose, velocity and clock of its options with every satellite switched on, and owns its copy of them.",
     ["inputs", "histories"], "all sets of shared variables, sequences of changes and initial options",
     "Tests build one factor of each kind from variables all distinct, and a graph whose node is never looked at.",
     ["common/hetero_collection.h", "core/states/*", "core/factors/*", "core/factor_graph.cxx", "core/imu_bias.h", "core/node.h"],
     [("collections", "common/hetero_collection.h"), ("variables", "core/states"), ("factors", "core/factors"), ("first node", "core/factor_graph.cxx")],
     ASAN + "ledger of variables compared with what every accessor leads to after every change",
     COMMON + "The graph's solver is not in the tree.")
