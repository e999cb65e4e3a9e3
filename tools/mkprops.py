#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os

RF = "rigid_body_motion/reference_frames.py"
CO = "rigid_body_motion/core.py"
IN = "rigid_body_motion/__init__.py"
UT = "rigid_body_motion/utils.py"
CS = "rigid_body_motion/coordinate_systems.py"
ES = "rigid_body_motion/estimators.py"
AC = "rigid_body_motion/accessors.py"
IO = "rigid_body_motion/io.py"
PL = "rigid_body_motion/plotting.py"
TR = "rigid_body_motion/ros/transformer.py"
MS = "rigid_body_motion/ros/msg.py"
VI = "rigid_body_motion/ros/visualization.py"
RU = "rigid_body_motion/ros/utils.py"
RI = "rigid_body_motion/ros/io.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "A name resolves to the frame that was last registered under it",
     "After any history of creating, registering, replacing (update), deregistering and clearing reference frames, and of dropping references to them, a frame name resolves in every call to exactly the frame that was last successfully registered under it and not since deregistered, cleared or replaced, and any other name is rejected with an error. Registering a name that is already taken without asking for an update, registering a frame without a name, and deregistering an unknown name are rejected. A name and the frame object it resolves to are interchangeable arguments.",
     ["histories"],
     "every sequence of frame construction, register/register_frame (with and without update), deregister, clear and garbage collection over any number of frames and names",
     "the tests exercise register, duplicate, update and deregister once each on fresh names; the answer depends on the whole history, including replaced frames being garbage collected later",
     [RF, CO],
     [("register/deregister guarded by a module-level dict", RF + ":_register,_deregister,clear_registry"),
      ("name resolution", CO + ":_resolve_rf"),
      ("destructor removes only its own entry", RF + ":ReferenceFrame.__del__")],
     ["rigid_body_motion.register_frame/deregister_frame/clear_registry, ReferenceFrame.register/deregister, any lookup by name"],
     [("registry", "name -> frame", RF + ":_registry")])

prop("C02", "A rejected call leaves the registry and every frame tree unchanged",
     "When constructing, registering, replacing or deregistering a reference frame raises an error, for whatever reason, every name resolves as before the call and every existing frame keeps its parent, its children and its transform. In particular no half-constructed frame stays attached to the requested parent.",
     ["histories", "fault_sequences"],
     "every reachable registry/tree state, every invalid call (unknown parent, wrong shape of translation/rotation/timestamps, discrete without timestamps, root with transform, missing or duplicate name, unknown name)",
     "tests only check that an exception is raised, never the state afterwards, and only from one or two starting states",
     [RF],
     [("validate before attaching to the parent", RF + ":ReferenceFrame.__init__"),
      ("check the name before constructing", RF + ":register_frame,_register")],
     ["parent/children of all frames, render_tree, lookups"])

prop("C03", "Frame trees stay well-formed and stable under registry operations",
     "Every frame is listed exactly once among the children of its parent, in the order of attachment, and nowhere else. Replacing a registered frame detaches exactly the replaced frame, together with its own descendants, from its parent and changes nothing else; registering a frame again under the name it already holds, deregistering and clearing change no tree at all. The rendered tree shows exactly the current structure.",
     ["histories"],
     "every history of frame construction and registry operations",
     "tests look at one two-frame tree after one update",
     [RF],
     [("anytree parent/children links", RF + ":ReferenceFrame.__init__"),
      ("update detaches the replaced frame", RF + ":_register"),
      ("rendering", RF + ":render_tree")],
     ["ReferenceFrame.parent/children/path, render_tree output"])

prop("C04", "Static transforms compose along the tree path",
     "The transform looked up between two frames of one tree is the composition of the frames' own transforms up to their lowest common ancestor and of the inverses down to the target, whatever the shape of the tree. Hence looking up A to B and B to A gives inverse transforms, A to C equals A to B followed by B to C, a frame to itself gives the identity, and frames in different trees are rejected with an error.",
     ["configurations", "inputs"],
     "every tree shape and depth, all static rotations and translations (including frames given without translation or rotation), all pairs and triples of frames",
     "tests use one fixed three-frame tree with one pair of mutually inverse frames",
     [RF, CO],
     [("tree walk", RF + ":ReferenceFrame._walk,_get_matcher"),
      ("composition loop", CO + ":TransformMatcher.get_transformation")],
     ["lookup_transform, lookup_pose, ReferenceFrame.lookup_transform, transform_*"])

prop("C05", "Specifying a frame by its inverse transform gives the same frame",
     "A frame given by the transform of its parent with respect to it (the inverse option) behaves in every lookup and transformation exactly like the frame given by the inverse of that transform, for static, moving and discrete frames and for frames given only a translation or only a rotation.",
     ["configurations", "inputs"],
     "all rotations/translations, static, moving and discrete frames, every constructor that offers the option",
     "tests check the inverse option for one static and one moving transform where the rotations are 90-degree turns",
     [RF],
     [("inverse option", RF + ":ReferenceFrame._init_arrays")],
     ["lookup_transform, transform_points between the frame and its relatives"])

prop("C06", "Transforming arrays agrees with the looked-up transform",
     "Transforming points rotates them by the looked-up rotation and then adds the looked-up translation, transforming vectors only rotates them, and transforming orientations left-multiplies by the looked-up rotation; pose lookup and dataset forms carry the same numbers, with the frame names in their attributes. Transforming into another frame and back returns the original values, a pose of a frame is the image of that frame's origin and identity orientation, and functions and frame methods agree.",
     ["configurations", "inputs"],
     "every tree of static and moving frames, every pair of frames, every array of vectors, points or quaternions",
     "tests compare a handful of single vectors for one fixed tree",
     [IN, RF, CO],
     [("transform methods", RF + ":transform_vectors,transform_points,transform_quaternions"),
      ("top-level wrappers", CO + ":_transform"),
      ("pose/transform datasets", CO + ":_make_transform_or_pose_dataset")],
     ["transform_points/vectors/quaternions, lookup_transform, lookup_pose"])

prop("C07", "Results carry exactly the timestamps the inputs define",
     "The result of a lookup or transformation is sampled at the timestamps of the array if it has any, else at those of the first continuously moving frame on the path from source to target, restricted (inclusively) to the interval covered by all continuously moving frames and the array; if only discretely moving frames are involved it is sampled at the sorted union of their timestamps, and if everything is static it has no timestamps. Non-monotonic timestamps and timestamps whose number does not match the data are rejected.",
     ["configurations", "inputs"],
     "every path mixing static, continuous and discrete frames with arbitrary partially overlapping or disjoint timestamps, with stamped or unstamped arrays, integer, float and datetime timestamps",
     "tests have two moving frames at most, always with nested intervals",
     [CO, RF],
     [("interval intersection and sampling choice", CO + ":TransformMatcher.get_range,get_timestamps"),
      ("timestamp validation", CO + ":TransformMatcher._check_timestamps")],
     ["timestamps returned by lookup_transform(return_timestamps=True) and transform_*(return_timestamps=True)"])

prop("C08", "Continuous frames pass through their samples and interpolate between",
     "At each of its own timestamps a continuously moving frame has exactly the transform given for it, between timestamps its translation is the linear interpolation and its rotation stays a unit rotation that reproduces constant-rate rotation exactly, and this holds per frame before the frames on a path are composed. The sign of a quaternion sample makes no difference, as both signs are the same rotation. An invalid sample (not a number) affects neither the transform at other samples nor what is interpolated away from it. A result never extends beyond the time a continuous frame is defined for.",
     ["configurations", "inputs"],
     "every path with one or more continuous frames with different sampling, uneven spacing, sign-flipped quaternions, evaluated at any timestamps requested through another frame or array",
     "tests compare interpolation for one frame pair with identity rotations",
     [CO],
     [("interp1d/squad resampling", CO + ":TransformMatcher._transform_from_frame"),
      ("composition after resampling", CO + ":TransformMatcher.get_transformation")],
     ["lookup_transform, transform_points"])

prop("C09", "Discrete frames hold each transform until the next event",
     "At any time a discrete frame has the transform of its latest event at or before that time, and before its first event the transform of that first event; it never interpolates, never narrows the time interval of a result and contributes its timestamps only when no continuous frame or stamped array is involved.",
     ["configurations", "inputs"],
     "every path mixing discrete frames with static, continuous and other discrete frames, times before, at, between and after the events",
     "one test, one discrete frame, one fixed timeline",
     [CO],
     [("event hold", CO + ":TransformMatcher._transform_from_frame"),
      ("timestamps", CO + ":TransformMatcher.get_timestamps")],
     ["lookup_transform, transform_points"])

prop("C10", "Stamped arrays are resampled before being transformed",
     "A stamped array is evaluated at the result timestamps (linearly for vectors and points, by rotation interpolation for quaternions, regardless of the signs of the samples; unchanged where the timestamps coincide) and then transformed with the transform of that same time; samples outside the common time interval are dropped, never extrapolated. Invalid elements (not a number) leave the others alone. Dimensions beyond time and space are carried along independently, and a single unstamped vector into a moving frame is transformed at every timestamp.",
     ["configurations", "inputs"],
     "all arrays with timestamps partially overlapping the moving frames on the path, with zero or more extra dimensions",
     "tests use arrays sharing the timestamps of the frame, or a single extra dimension",
     [CO, RF],
     [("array resampling", CO + ":TransformMatcher._resample_array,get_arrays"),
      ("broadcast over extra dims", RF + ":ReferenceFrame._expand_singleton_axes")],
     ["transform_points/vectors/quaternions with timestamps"])

prop("C11", "Array layout does not affect the transformation",
     "Choosing another spatial axis or time axis for the input array gives the same result with the axes placed the same way: the value computed for each vector or quaternion depends only on that vector and its timestamp, and the output has the axis order of the input. Negative axis numbers mean the same as their positive counterparts, and the kind of sequence that holds the numbers (nested list or tuple, array of any memory order, byte order or number type, read-only array, pandas object with any labels) makes no difference.",
     ["inputs", "configurations"],
     "all arrays of two to four dimensions in every kind of sequence, every placement of spatial axis and time axis (positive or negative numbers), with and without timestamps, static and moving frames",
     "tests use the default layout and one transposed example",
     [RF, CO, UT],
     [("axis handling", RF + ":ReferenceFrame._validate_input,transform_*"),
      ("defaults", CO + ":_maybe_unpack_dataarray"),
      ("rotation along an axis", UT + ":rotate_vectors")],
     ["transform_points/vectors/quaternions with axis/time_axis"])

prop("C12", "Labelled arrays transform like plain arrays and keep their labels",
     "Transforming a labelled array gives the values of transforming the plain array with the corresponding axes and timestamps, with the same name, dimensions and coordinates, except that time and time-dependent coordinates are resampled (or a leading time dimension added) to the result timestamps. The source frame may be taken from the array's attributes, a contradicting explicit source is warned about, and afterwards the attributes name the target frame while all other attributes are kept.",
     ["inputs", "configurations"],
     "all labelled arrays with spatial, time and extra dimensions in any order, extra coordinates numeric or not, attributes present or missing, explicit or implied source frame",
     "tests check the values for one dimension order and the attributes for a single case",
     [CO, IN],
     [("unpacking", CO + ":_maybe_unpack_dataarray"),
      ("repacking", CO + ":_make_dataarray"),
      ("attribute update", CO + ":_transform")],
     ["transform_* with DataArray input"])

prop("C13", "Queries and transformations have no side effects",
     "Looking up transforms, poses or velocities, transforming arrays, estimating and converting never modify their input arrays, labelled arrays or attributes, nor the frames, the tree or the registry; repeating a call later in the same history gives the same answer, and modifying a returned result does not change later answers.",
     ["histories", "inputs"],
     "every interleaving of queries with each other and with registry operations on other frames, all argument kinds",
     "tests call each function once and compare the result only",
     [IN, RF, CO, UT, ES, AC],
     [("copying of attrs/coords", CO + ":_maybe_unpack_dataarray,_make_dataarray"),
      ("fresh result arrays", RF + ":transform_*"),],
     ["arguments before/after, repeated results, frame attributes before/after"])

prop("C14", "Linear velocity is the time derivative of the looked-up position",
     "The linear velocity of a frame with respect to a reference is the finite-difference derivative per second of its looked-up position in that reference (one-sided at the first and last sample, second order in between also for irregular timestamps; exact for positions linear in time and, between the ends, quadratic in time), rotated into the frame it is to be represented in, at the timestamps of the lookup; reference defaults to the parent and the representation frame to the reference (functions) or parent (methods). The unit of datetime timestamps does not change the result, and velocities of a static frame are rejected.",
     ["configurations", "inputs"],
     "every tree with moving frames, every reference and representation frame, numeric timestamps and datetimes of any resolution, uneven spacing",
     "tests use one recording and compare with itself",
     [CO, RF, IN, ES],
     [("estimation", CO + ":_estimate_linear_velocity"),
      ("representation", RF + ":lookup_linear_velocity,lookup_twist")],
     ["lookup_linear_velocity, lookup_twist, estimate_linear_velocity"])

prop("C15", "Angular velocity is the rotation rate of the looked-up orientation",
     "For motion with constant rotation rate the angular velocity of a frame with respect to a reference equals that rate per second along the rotation axis (zero for a non-rotating frame), expressed in the requested representation frame, and it agrees between the combined and the separate lookup, between functions and methods, and between array, labelled array and frame forms. The signs of the individual quaternion samples, extra dimensions and the unit of datetime timestamps do not change the result.",
     ["configurations", "inputs"],
     "every tree with rotating frames, every reference and representation frame, both estimation modes, numeric timestamps and datetimes of any resolution",
     "tests use one recording and compare with itself",
     [CO, RF, IN, ES],
     [("estimation", CO + ":_estimate_angular_velocity"),
      ("representation", RF + ":lookup_angular_velocity,lookup_twist")],
     ["lookup_angular_velocity, lookup_twist, estimate_angular_velocity"])

prop("C16", "Velocity transformation adds the relative motion of the frames",
     "Transforming the reference frame of an angular velocity adds the angular velocity of the old reference in the new one; for a linear velocity it also adds the linear velocity of the old reference and the cross product of its angular velocity with the lever arm of the moving frame; transforming the moving frame adds the corresponding terms of the new moving frame, and transforming the representation frame only rotates. The results are represented in the target frame, and the added relative velocities are zero between mutually static frames.",
     ["configurations", "inputs"],
     "every tree with static and moving frames, every moving/reference/target frame, static or stamped velocity arrays",
     "tests use one recording and compare with a pre-computed value",
     [RF, IN],
     [("three-term formula", RF + ":transform_angular_velocity,transform_linear_velocity")],
     ["transform_angular_velocity, transform_linear_velocity"])

prop("C17", "Quaternion utilities obey quaternion algebra on every layout",
     "Quaternion product, inverse, vector rotation, interpolation, mean and Euler conversion agree with quaternion algebra element by element whatever the axis layout, broadcasting or dtype form: the product is associative with the inverse as two-sided inverse, rotation by a product is successive rotation and independent of the quaternion's scale, interpolation hits its samples and reproduces a constant rate whatever the signs of the samples, and the mean of a set maximises the summed squared inner product with its members independently for every batch element. Labelled quaternion arrays interpolate and invert with the same numbers and keep dimensions, names and other coordinates.",
     ["inputs"],
     "all quaternion arrays up to four dimensions, every quaternion axis, both dtypes, one-to-one and all-pairs rotation, all Euler orders",
     "tests use one or two fixed quaternions in the default layout",
     [UT, AC],
     [("algebra", UT + ":qinv,qmul,rotate_vectors,from_euler_angles"),
      ("mean", UT + ":qmean"),
      ("interpolation", UT + ":qinterp"),
      ("labelled", AC + ":DataArrayAccessor")],
     ["utils.*, DataArray.rbm.qinterp/qinv"])

prop("C18", "Coordinate system conversions are mutually inverse and layout-independent",
     "Converting between cartesian and polar (2D) or spherical (3D, ISO convention: radius, polar angle, azimuth) coordinates gives the defining trigonometric values, converting there and back returns the original point (including points on the axes and the origin), and the position of the coordinate axis does not matter. Labelled arrays get the new coordinate labels, keep everything else, and name the new system in the attribute that names the system, if there is one; unknown conversions and wrong lengths are rejected.",
     ["inputs"],
     "all points incl. axes/origin, all arrays up to three dimensions, any axis, labelled or not, replace_dim on or off",
     "tests convert three fixed points",
     [CS, IN, CO],
     [("conversion functions", CS + ":*"),
      ("wrapper", IN + ":transform_coordinates"),
      ("label replacement", CO + ":_replace_dim")],
     ["transform_coordinates"])

prop("C19", "Rotation and transform estimators recover the true motion",
     "For vector sets related by a rigid motion the best-fit rotation and best-fit transform return that motion (always a proper unit rotation, also for planar, reflected or noisy sets, where it is at least as good as any other candidate), iterative closest point returns it when started close enough, and the shortest-arc rotation maps the direction of the first vector onto that of the second with the smallest possible angle, including (anti)parallel vectors. Results are independent of the array layout and of labelled versus plain input.",
     ["inputs"],
     "all point sets of rank two or three, all rotations and translations, all pairs of non-zero vectors, all layouts",
     "tests recover one random or 90-degree transform",
     [ES],
     [("Kabsch/SVD", ES + ":best_fit_rotation,best_fit_transform"),
      ("ICP loop", ES + ":iterative_closest_point"),
      ("shortest arc", ES + ":shortest_arc_rotation")],
     ["estimators.*"])

prop("C20", "All constructors build the same frame from the same data",
     "Building a frame from a dataset, a translation or rotation array with labels, a rotation matrix, the registering function or the class constructor with the same data yields frames that behave identically in every lookup, with missing translation meaning zero and missing rotation meaning identity. Inputs of inconsistent shape are rejected by all of them.",
     ["inputs", "configurations"],
     "all rotations, translations, timestamps, inverse/discrete flags, parents by name or object",
     "each alternative constructor is tested once with random data and only for stored attributes",
     [RF],
     [("alternative constructors", RF + ":from_dataset,from_translation_dataarray,from_rotation_dataarray,from_rotation_matrix,register_frame")],
     ["lookup_transform, transform_points"])

prop("C21", "OptiTrack import is faithful for all bodies, units and rotation orders",
     "Importing an OptiTrack export returns one entry per rigid body (markers excluded) whose positions are in metres whatever the length unit declared, whose orientations are the unit quaternions of the Euler angles in the declared rotation order, and whose timestamps are the capture start plus the sample times; the numpy, pandas and xarray forms carry the same data.",
     ["inputs"],
     "all exports with any number of bodies and markers in any column order, centimetres/metres, all six rotation orders",
     "one test file with one unit and one order",
     [IO, UT],
     [("parser", IO + ":load_optitrack"), ("Euler conversion", UT + ":from_euler_angles")],
     ["load_optitrack"])

prop("C22", "ROS messages and TF export carry the frame tree faithfully",
     "Packing and unpacking transform, pose, twist, vector, point and quaternion messages returns the packed values with component order, frame ids and stamps preserved; exporting a frame tree publishes every non-root frame of the whole tree exactly once per sample with the correct parent, child, stamp and numbers, as static or stamped as appropriate, with a cache long enough for all samples. A broadcaster publishes for the requested index, the first one included, the transform (and optional pose and twist) of exactly that sample, and reacts to incoming messages by publishing the sample nearest in time. A path marker shows positions of the frame in order, all of them unless there are more than the requested number of points.",
     ["configurations", "inputs", "histories"],
     "all trees of static and moving frames, all message contents, all indices, all incoming message sequences",
     "the ROS tests need a ROS installation and are skipped",
     [TR, MS],
     [("message packing", MS + ":make_*,unpack_*"),
      ("export", TR + ":Transformer.from_reference_frame"),
      ("broadcast", TR + ":ReferenceFrameTransformBroadcaster.publish,handle_incoming_msg")],
     ["messages received by stand-ins of the ROS libraries"])

prop("C23", "Publishers publish while running and stop when told to",
     "A publisher that was told to spin publishes its samples cyclically in order, waiting between consecutive samples for their difference in time (a marker only when it changed), and, once stop has been called after the last spin, publishes at most the message already in progress and its thread ends, whatever the interleaving of stop with the start of the thread. Spinning again after a stop resumes publishing, a non-blocking spin returns the thread that publishes, and a shutdown of the node ends every loop.",
     ["schedules", "histories"],
     "all interleavings of spin, stop, node shutdown and the publishing thread's steps",
     "the ROS tests need a ROS installation and are skipped; they would only try one schedule",
     [TR, VI],
     [("stop flag", TR + ":ReferenceFrameTransformBroadcaster._spin_blocking,spin,stop"),
      ("stop flag", VI + ":BaseMarkerPublisher._spin_blocking,spin,stop,publish")],
     ["messages and thread liveness under a controlled scheduler with stand-ins for rospy"])

prop("C24", "Rosbag writing and reading round-trips motion data",
     "Transforms written to a bag are read back with the same timestamps, translations and rotations in order, odometry messages are read with every field in its place, header stamps are preferred over receive times, and the dataset form carries the same values with correctly labelled axes; an exported file holds the dataset to the stored precision. Inputs with inconsistent lengths and unsupported message types are rejected, and using reader methods outside the context is an error.",
     ["inputs", "histories"],
     "all message sequences, topics and datasets (numeric or datetime stamps)",
     "the rosbag tests need a ROS installation and are skipped",
     [RI, MS],
     [("reader", RI + ":RosbagReader"), ("writer", RI + ":RosbagWriter")],
     ["round trip through a stand-in bag"])

prop("C25", "Frame and array plots show the data at the right place",
     "Plotting a frame, points or quaternions draws each frame's axes at its position in the world frame, oriented by its orientation and scaled by the requested length, draws points at their coordinates, draws vectors from their base points, and afterwards the limits of each axis of the view contain everything drawn on it so far, with equal scale. Arrays of other shapes and moving frames are rejected.",
     ["inputs", "configurations"],
     "all static trees, all point and quaternion arrays, any base/world frame, custom axes or default",
     "tests only check that plotting does not raise",
     [PL],
     [("drawing", PL + ":_add_frame,_plot_single,reference_frame,points,quaternions,vectors")],
     ["artists and limits of the matplotlib axes"])

prop("C26", "Playback controls show each sample; init_node ends only its own master",
     "play_publisher shows controls for the samples of a publisher (from its timestamps attribute or the timestamps argument, datetime64 of any unit or seconds): it publishes the first sample, then one message whenever the position changes and none otherwise; the position always stays within the samples; forward and backward move by skip (or step, if skip is not given), up to the last and first sample, and also away from them; playing advances by step samples while there are samples, every step/speed times the mean distance between timestamps. init_node registers the node if a ROS master runs; starts one only if none runs and it is asked to, and raises otherwise, without registering; shutdown() of what it returns stops that master if it was started by this call, and otherwise leaves the master alone and warns; at exit every master it started is stopped.",
     ["inputs", "histories"],
     "any number of samples, regular or not, any step, skip and speed, any sequence of button presses, slider moves and playing; any sequence of init_node and shutdown calls with masters coming and going",
     "no test calls play_publisher or init_node",
     [RU],
     [("controls", RU + ":play_publisher"), ("master", RU + ":init_node")],
     ["published indices", "state of the widgets", "whether a ROS master runs", "registered nodes", "warnings"])

prop("C27", "Velocity estimates withstand outliers and keep what a filter passes",
     "Estimating a linear or angular velocity with outlier_thresh replaces the samples next to which the norm of the second-order difference of the position (or rotation vector) exceeds the threshold by interpolation, and only these: jumps and spikes of a recording that are above the threshold leave no trace, so that the estimate is the velocity of the motion without them wherever the motion around is undisturbed, and a recording without outliers is estimated as without the option. With cutoff the estimate is low-pass filtered without shift in time: a constant velocity stays as it is, an oscillation far below the cutoff frequency (relative to the Nyquist frequency) passes and one far above it is removed. This holds independently for every column of an array, in every layout, and for all functions and methods that take these options: estimation, velocity and twist lookups, velocity transformations and broadcasters.",
     ["inputs", "configurations"],
     "recordings with any number, size and position of jumps and spikes, any threshold and cutoff, arrays of any layout, every function with these options",
     "tests pass outlier_thresh and cutoff once each, to a recording without outliers, and compare with nothing but the shape or a rough mean",
     [CO, ES, RF],
     [("outliers and filter", CO + ":_estimate_linear_velocity,_estimate_angular_velocity"),
      ("options of lookups", RF + ":ReferenceFrame.lookup_linear_velocity,lookup_angular_velocity,lookup_twist,transform_linear_velocity,transform_angular_velocity")],
     ["estimate_linear_velocity, estimate_angular_velocity, lookup_linear_velocity, lookup_angular_velocity, lookup_twist, transform_linear_velocity, transform_angular_velocity, published twists"])

prop("C28", "Requests that do not fit their arrays, axes, times or frames are rejected",
     "A request is rejected with an exception, and leaves its inputs and all frames as they were, if an array has another number of components along the spatial axis than the function needs (3 for points, vectors and velocities, 4 for quaternions), if the axis of a transformation or fit is out of range, if spatial and time axis are the same, if there are more or fewer timestamps than samples along the time axis or the timestamps are not one-dimensional, if it names a dimension or coordinate the array does not have or names dimensions of an array without names, if it gives a dimension both by name and by number, if two arrays that are compared pairwise do not have equally many vectors, if a rotation matrix is not 3 by 3, if a frame is given by a name that is not registered or by something that is neither a name nor a frame, or if an option has none of its documented values. A request whose shapes, axes, timestamps, names and frames fit is accepted and yields an array of the shape of its input, with the spatial axis, in its place, of the size of the result.",
     ["inputs", "configurations"],
     "all shapes, axis numbers, numbers of timestamps, names of dimensions, subsets of coordinates, references to frames and option values, for every transformation, lookup, estimate and fit, as function and as method",
     "tests try a handful of misfits, each for one function and one layout",
     [CO, ES, RF],
     [("unpacking of arrays", CO + ":_maybe_unpack_dataarray"),
      ("validation", RF + ":ReferenceFrame._validate_input"),
      ("fits", ES + ":_reshape_vectors")],
     ["all transform, lookup and estimate functions, best fits, ReferenceFrame.from_rotation_matrix"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
