RF = "rigid_body_motion/reference_frames.py"
CO = "rigid_body_motion/core.py"
P("C13", "Contradictory or ill-shaped arguments are rejected",
  """Creating or registering a frame whose translation, rotation and timestamps do not
  have the shapes (n, 3), (n, 4) and (n,), or (3,) and (4,) without timestamps, a root
  with a transform, or a discrete frame without timestamps raises ValueError, as do
  transforms of arrays whose axis length, timestamps or dimension arguments contradict
  each other, unordered timestamps, an unknown kind of velocity transform, velocities of
  static relations, and point sets of different shape. Arguments that fit together are
  not rejected.""",
  """every entry point, every combination of shapes, axes and options of the arguments""",
  """tests try one bad value per argument; a check that is skipped on some path lets
  numpy broadcasting produce a plausible wrong result instead of an error""",
  [RF, CO, "rigid_body_motion/estimators.py", "rigid_body_motion/__init__.py"],
  [("frame arguments", "reference_frames.py ReferenceFrame.__init__, _init_arrays, "
    "_verify_root, from_rotation_matrix"),
   ("array arguments", "reference_frames.py ReferenceFrame._validate_input; core.py "
    "_maybe_unpack_dataarray, _transform, TransformMatcher._check_timestamps"),
   ("point sets", "estimators.py _reshape_vectors")],
  ["register_frame()", "ReferenceFrame()", "transform_*()", "lookup_*()",
   "estimate_*_velocity()", "best_fit_*()", "iterative_closest_point()"],
  over=("inputs", "configurations"),
  technique="""static analysis: abstract interpretation of the syntax trees; evaluation
  of the path condition of every raise statement over symbolic array shapes""",
  note="""Shapes are symbolic in the lengths (with every order of unequal lengths) and
  enumerated in the number of axes; conditions on stamps are evaluated over the possible
  signs of consecutive differences. Conditions the shape domain cannot evaluate are
  reported as undecided.""")
