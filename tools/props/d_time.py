RF = "rigid_body_motion/reference_frames.py"
CO = "rigid_body_motion/core.py"
UT = "rigid_body_motion/utils.py"
NOTE = ("The tree is abstract: every combination of static, continuously moving and "
        "discrete frames on paths of up to three frames, with a symbolic number of "
        "stamps and symbolic values; the expression each path produces is normalised in "
        "a domain of time lines and resampling operations (numpy, scipy and quaternion "
        "interpolators modelled as documented). Expressions outside that domain are "
        "reported as undecided.")
TECH = ("static analysis: abstract interpretation of the syntax trees into value-flow "
        "expressions and an abstract domain of time lines and resampling operations")

P("C06", "The reported time line is the overlap of everything that moves",
  """When a result combines several timestamped elements, its reported timestamps are
  those of one of them (the array if one is given, else the first continuously moving
  frame on the path), restricted to the interval in which all continuously moving
  elements are defined, both ends included. Discrete frames do not narrow the interval;
  if only discrete frames move, the time line is the sorted union of their stamps, and
  if nothing moves there are no timestamps.""",
  """every tree and pair of frames, every mixture of static, continuous and discrete
  frames and of timestamped and static arrays, every set of stamps (disjoint ends,
  nested intervals, coinciding ends)""",
  """tests use one or two frames whose stamps coincide or overlap in one particular
  way""",
  [CO, RF], [("time line", "core.py TransformMatcher.get_range, get_timestamps"),
             ("collection of elements", "reference_frames.py ReferenceFrame.get_matcher, "
              "lookup_transform, transform_*")],
  ["lookup_transform()", "transform_points()", "transform_vectors()",
   "transform_quaternions()"],
  over=("inputs", "configurations"), technique=TECH, note=NOTE)

P("C07", "Everything in a result is evaluated at the reported timestamps",
  """Every moving transform and every timestamped array that enters a result is
  evaluated at exactly the timestamps reported with that result, by interpolating its
  values against its own stamps, linearly for translations and vectors and spherically
  for rotations; static elements are repeated. Data are never paired with the stamps of
  another element, never paired up by position, and never clamped outside their
  range.""",
  """every tree and pair of frames, every mixture of static, continuous and discrete
  frames and of timestamped and static arrays, every transform and velocity lookup""",
  """tests mostly use equal stamps for all elements, for which pairing by position and
  pairing by time agree""",
  [CO, RF], [("matching", "core.py TransformMatcher.get_transformation, get_arrays, "
              "_transform_from_frame, _resample_array"),
             ("velocities", "reference_frames.py ReferenceFrame.lookup_twist, "
              "transform_linear_velocity, transform_angular_velocity")],
  ["lookup_transform()", "lookup_twist()", "transform_points()",
   "transform_linear_velocity()"],
  over=("inputs", "configurations"), technique=TECH, note=NOTE + " Equality guards on "
  "the stamps that skip resampling are taken as justified by the equality.")

P("C08", "Discrete frames hold their latest value",
  """A discrete frame contributes, at each reported timestamp, the translation and
  rotation of its latest event at or before that timestamp, and before its first event
  those of the first event. Its values are never interpolated, in whatever position on
  the path it is, upwards or downwards, alone or with other frames and arrays.""",
  """every tree with discrete frames, every order and number of events and of reported
  stamps""",
  """tests contain one discrete frame with a few events""",
  [CO, RF], [("step hold", "core.py TransformMatcher._transform_from_frame")],
  ["lookup_transform()", "transform_points()"],
  over=("inputs", "configurations"), technique=TECH, note=NOTE)
