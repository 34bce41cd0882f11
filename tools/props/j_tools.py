PL = "rigid_body_motion/plotting.py"
TECH = """static analysis: abstract interpretation; the coordinates handed to the drawing
  library are evaluated as symbolic arrays and compared with the specified ones"""
P("C29", "Plots show the data at the right place",
  """plot_points draws the three columns of the array as x, y and z coordinates;
  plot_vectors draws each vector from its base point (by default the origin);
  plot_quaternions draws for each quaternion its rotated x, y and z axis in red, green and
  blue; plot_reference_frame draws the axes of the frame, of the given length, where they are
  in the world frame. Everything is drawn onto the given axes (or one new three-dimensional
  set) with the given options, and afterwards the limits of the axes contain what is drawn
  and have equal range. Arrays of other shapes, bases of another shape and
  moving frames are rejected.""",
  """every array of points, vectors, quaternions and bases, of one or more rows; every static
  frame, world frame and arrow length; limits in force before""",
  """tests draw two frames and look at nothing; a picture is not compared""",
  [PL],
  [("points and vectors", "plotting.py plot_points, plot_vectors"),
   ("quaternions", "plotting.py plot_quaternions"),
   ("frames", "plotting.py plot_reference_frame, _add_frame, Arrow3D"),
   ("limits", "plotting.py _set_axes_equal")],
  ["plot.points()", "plot.vectors()", "plot.quaternions()", "plot.reference_frame()"],
  over=("inputs",), technique=TECH,
  note="""The drawing library is taken as documented (plot and quiver scale the axes
  automatically, add_artist does not). Limits are compared with the
  specified bounds by identity testing of the two piecewise linear expressions.""")

IO = "rigid_body_motion/io.py"
TECH = """static analysis: abstract interpretation over a symbolic table; each returned cell is
  compared with the specified expression of the cells of the file"""
P("C32", "Poses imported from OptiTrack exports are those of the file",
  """load_optitrack returns one entry for each rigid body (and none for markers): positions in
  metres (converted from centimetres when the header says so), orientations as quaternions
  (w, x, y, z) equal to the rotation by the Euler angles in degrees about the axes in the order
  the header gives (XYZ by default), and the start of the recording plus the time of each
  sample as time stamps. The arrays, data frames and datasets hold the same values with
  the documented labels; other formats are rejected with a ValueError.""",
  """every table of poses; headers with and without units and order of rotation; each import
  format""",
  """one file in centimetres and XYZ order is loaded by the tests""",
  [IO],
  [("import", "io.py load_optitrack"),
   ("orientation", "utils.py from_euler_angles")],
  ["io.load_optitrack()"],
  over=("inputs", "configurations"), technique=TECH,
  note="""pandas is modelled by what it documents for the calls made here; files have two bodies
  with different names and one marker. Quaternion rotations exported by newer versions are not
  covered.""")

TECH = """static analysis: the names and signatures bound when the package is loaded by abstract
  interpretation are compared with the documented interface"""
P("C27", "The documented interface keeps its names, parameters and defaults",
  """Every function, class and method the documentation lists can be imported from the module it
  is listed under, and star import of the package gives every name of __all__. Each takes the
  parameters it documents, by name and, unless keyword-only, at their documented position;
  nothing else is required; and leaving a parameter out means the same as giving the documented
  default.""",
  """every documented name and parameter, every way of passing arguments""",
  """tests call functions with the arguments their authors use; an exchanged default or a lost
  export breaks the calls they do not make""",
  ["rigid_body_motion/__init__.py", "rigid_body_motion/reference_frames.py",
   "rigid_body_motion/utils.py", "rigid_body_motion/estimators.py",
   "rigid_body_motion/plot.py", "rigid_body_motion/accessors.py",
   "rigid_body_motion/ros/__init__.py"],
  [("exported names", "__init__.py __all__; plot.py; ros/__init__.py"),
   ("signatures", "all documented functions, classes and methods")],
  ["import rigid_body_motion", "every documented callable"],
  over=("programs",), technique=TECH,
  note="""The documented interface was recorded from the documentation and signatures of the pinned
  tree (rbmsa/data/api.json). Another default counts as the same if the analyser derives the
  same results and effects for both, and is undecided if they are of different kinds.""")
TECH = """static analysis: abstract interpretation with the download recorded"""
P("C28", "Example data are retrieved from their address and verified",
  """Looking up a documented data set (head, left_eye, right_eye, rosbag) in example_data
  retrieves that file from the address of the data repository, verified against the
  recorded hash of that file, and returns the path of the downloaded file; any other name raises
  KeyError and retrieves nothing, and nothing is retrieved before an item is asked for.""",
  """every data set, other names""",
  """tests have no network and skip them""",
  ["rigid_body_motion/utils.py"],
  [("store", "utils.py ExampleDataStore")],
  ["example_data[...]"],
  over=("inputs",), technique=TECH,
  note="""Names, addresses and hashes are those of the pinned tree. Downloading and hashing are
  pooch's.""")
TECH = """static analysis: abstract interpretation of the syntax trees; unit inference on
  the time stamps of the value-flow graph"""
P("C24", "Stamps of any resolution denote points in time",
  """Datetime stamps may be given in seconds, milliseconds, microseconds or nanoseconds, and in
  a different resolution for every frame, array and list of sampling points: creating frames,
  transforming, looking up, interpolating and estimating velocities take them for the points in
  time they denote and yield the same values as if all had been given in the same resolution.
  No stamp is cut to a coarser resolution on the way, and velocities are per second.""",
  """every combination of resolutions of the stamps of frames, arrays and sampling points""",
  """tests use stamps of one resolution; a wrong one changes values by factors or makes two
  time lines miss each other without an error""",
  ["rigid_body_motion/core.py", "rigid_body_motion/reference_frames.py",
   "rigid_body_motion/utils.py"],
  [("conversion", "core.py _convert_timestamps and its callers"),
   ("meeting places", "core.py TransformMatcher; utils.py qinterp; core.py "
    "_estimate_*_velocity")],
  ["ReferenceFrame()", "ReferenceFrame.from_*()", "register_frame()", "transform_*()",
   "lookup_*()", "qinterp()", "estimate_*_velocity()"],
  over=("inputs", "configurations"), technique=TECH,
  note="""Units of stamps are inferred from the points where they are given; interpolation by
  routines other than interp1d, interp and squad is undecided. Resolutions coarser than a second
  and mixing numbers with datetimes are not covered.""")
TECH = """static analysis: abstract interpretation of the syntax trees; comparison of the terms
  computed with and without the argument"""
P("C21", "An explicit zero or False is a value, not a missing argument",
  """Giving an optional argument explicitly as zero (an axis, a time axis, a quaternion axis, an
  outlier threshold, a tolerance, an angle, an arrow length, a message index, a marker type) or as
  False (timestamps=False for a DataArray) has the effect of that value in every function that
  takes it, and is never treated as if the argument had been left out; where leaving it out
  means zero, both are the same.""",
  """every optional numeric parameter of the interface, arrays and DataArrays, every case of the
  other arguments""",
  """tests rarely pass a zero explicitly; code that tests an argument by its truth works for all
  other values""",
  ["rigid_body_motion/core.py", "rigid_body_motion/utils.py",
   "rigid_body_motion/estimators.py", "rigid_body_motion/reference_frames.py",
   "rigid_body_motion/ros/transformer.py", "rigid_body_motion/ros/visualization.py"],
  [("axis defaults", "core.py _maybe_unpack_dataarray, _resolve_axis"),
   ("options", "core.py _estimate_*_velocity; utils.py from_euler_angles"),
   ("messages", "ros/transformer.py publish; ros/visualization.py get_marker")],
  ["every public function with optional numeric arguments"],
  over=("inputs", "configurations"), technique=TECH,
  note="""A violation is an outcome that is the same term with the zero as without the argument,
  in general or under one condition on the other arguments, or a choice by the truth of the
  argument whose alternatives differ at zero. Zeros inside arrays and tuples are not covered.""")
