TECH = ("static analysis: abstract interpretation of the syntax trees into a "
        "value-flow graph, reference-frame type inference (axes/base/target) with "
        "inductive loop invariants over the frame path")
NOTE = ("Static type soundness argument relative to the typing rules and to the "
        "documented semantics of numpy/quaternion/anytree/xarray, which are modelled; "
        "numerical error, interpolation error and timestamp matching are not covered. "
        "Values whose type cannot be inferred are reported as undecided and assert "
        "nothing.")
RF = "rigid_body_motion/reference_frames.py"
CO = "rigid_body_motion/core.py"
UT = "rigid_body_motion/utils.py"
ES = "rigid_body_motion/estimators.py"

P("C01", "Looked-up transforms compose along the frame tree",
  """For any tree of reference frames and any two frames in it, looking up the
  transformation (or pose) from one to the other yields the translation and rotation
  obtained by composing the stored transforms along the path between them: the
  translation is the position of the source frame's origin seen from and expressed in
  the target frame, and the rotation maps source axes to target axes. Looking up a
  frame in itself yields the identity. The frame may be given as an object or by its
  registered name, and the result form (tuple, with timestamps, dataset) does not
  change the values.""",
  """every frame tree (any depth, any branching, up and down paths), every pair of
  frames, every stored translation and rotation, every result form""",
  """tests use one three-level tree with a few numeric transforms; the composition
  has to hold for every path length and every mixture of upward and downward steps""",
  [RF, CO, "rigid_body_motion/coordinate_systems.py", UT],
  [("composition loop", "reference_frames.py ReferenceFrame.lookup_transform"),
   ("frame path", "reference_frames.py ReferenceFrame._walk"),
   ("step helpers", "core.py transform/_frame helpers"),
   ("quaternion rotation", "utils.py rotate_vectors")],
  ["lookup_transform()", "lookup_pose()", "ReferenceFrame.lookup_transform()"],
  over=("inputs", "configurations"), technique=TECH, note=NOTE)

P("C02", "Points, vectors and orientations are transformed correctly",
  """Transforming points applies the rotation and translation between the two frames,
  transforming vectors applies only the rotation, and transforming quaternions
  left-multiplies by the rotation, for every path between two frames, so that the
  result describes the same physical quantity in the target frame. This holds equally
  for the frame methods and the top-level functions, with and without timestamps, and
  for arrays as well as labelled arrays.""",
  """every frame tree, every pair of frames, every array of points, vectors or
  quaternions, every entry point""",
  """tests check a few numeric examples on one tree; a wrong sign, order of
  multiplication or step direction that only shows for multi-step or rotated paths
  passes them""",
  [RF, CO, "rigid_body_motion/coordinate_systems.py", UT],
  [("point/vector/quaternion transforms",
    "reference_frames.py ReferenceFrame.transform_points/_vectors/_quaternions"),
   ("top-level functions",
    "coordinate_systems.py transform_points/transform_vectors/transform_quaternions")],
  ["transform_points()", "transform_vectors()", "transform_quaternions()"],
  over=("inputs", "configurations"), technique=TECH, note=NOTE)

P("C03", "Velocity transforms account for the motion between the frames",
  """Transforming an angular or linear velocity from one frame to another yields the
  velocity measured between the frames the caller asked for: when the reference frame
  or the moving frame is exchanged, the relative angular velocity (and, for linear
  velocities, the relative linear velocity and the lever-arm term) between old and new
  frame is added with the right sign and in the right axes; when only the
  representation frame is exchanged, the vector is only rotated.""",
  """every frame tree and pair of frames, every choice of what is exchanged, static
  and moving frames, every input array""",
  """tests only compare a few synthetic trajectories; cross terms vanish whenever the
  rotation axis is aligned with the lever arm or the frames do not rotate""",
  [RF, CO, UT],
  [("angular velocity", "reference_frames.py ReferenceFrame.transform_angular_velocity"),
   ("linear velocity", "reference_frames.py ReferenceFrame.transform_linear_velocity")],
  ["transform_angular_velocity()", "transform_linear_velocity()"],
  over=("inputs", "configurations"), technique=TECH, note=NOTE)

P("C04", "Looked-up velocities refer to the requested frames",
  """Looking up a twist, linear velocity or angular velocity of a frame yields the
  motion of that frame with respect to the requested reference frame, expressed along
  the axes of the requested representation frame; when these are omitted, the
  documented defaults apply. A frame that does not move relative to its reference has
  zero velocity instead of an error where a static transform is documented to be
  accepted, and the result form does not change the values.""",
  """every frame tree, every choice of moving, reference and representation frame,
  given or defaulted, by name or object, with every result form""",
  """tests cover single examples in which the representation frame coincides with the
  reference or the moving frame""",
  [RF, CO, ES],
  [("velocity lookup", "reference_frames.py ReferenceFrame.lookup_twist/"
    "lookup_linear_velocity/lookup_angular_velocity"),
   ("estimation", "estimators.py estimate_linear_velocity/estimate_angular_velocity")],
  ["lookup_twist()", "lookup_linear_velocity()", "lookup_angular_velocity()"],
  over=("inputs", "configurations"), technique=TECH, note=NOTE)

P("C05", "Frames built from an inverted transform store its inverse",
  """Every way of constructing or registering a reference frame (from arrays, labelled
  arrays, datasets, rotation matrices) interprets the given translation and rotation
  as the transform from the frame to its parent; with the inverse option it stores the
  mathematical inverse instead, so that looking up parent-to-frame returns what was
  given.""",
  """every constructor, inverse on and off, with and without timestamps, every
  translation, rotation and rotation matrix""",
  """tests use identity or axis-aligned rotations in which an inverse taken in the
  wrong order or of only one component is invisible""",
  [RF, UT],
  [("inverse handling", "reference_frames.py ReferenceFrame.__init__ and from_* "
    "constructors"), ("registration", "reference_frames.py register_frame")],
  ["register_frame()", "ReferenceFrame()", "ReferenceFrame.from_dataset()",
   "ReferenceFrame.from_rotation_matrix()"],
  technique=TECH, note=NOTE)
