RF = "rigid_body_motion/reference_frames.py"
CO = "rigid_body_motion/core.py"
UT = "rigid_body_motion/utils.py"
ES = "rigid_body_motion/estimators.py"
CS = "rigid_body_motion/coordinate_systems.py"
TECH = ("static analysis: effect and alias analysis on the value-flow graph of an "
        "abstract interpretation of the syntax trees (stores, in-place operations, "
        "views, joins, library call summaries)")
NOTE = ("Every path of every listed entry point with symbolic arguments; library calls "
        "are modelled by summaries (which calls view, copy or write), loops by "
        "widening. Paths beyond the analysis budget are reported as undecided.")

P("C09", "Arguments are never modified in place",
  """No function or method of the package writes to the arrays, labelled arrays,
  datasets or other data passed to it: after any call, whether it returns or raises,
  the caller's translation, rotation, timestamps, coordinates, vectors, quaternions,
  DataArrays (values, coordinates, attributes, name) and Datasets are what they were
  before.""",
  """every entry point, every combination of given and omitted options, every input
  type (array, view, labelled array, dataset)""",
  """tests look at return values and not at their inputs afterwards, and mostly pass
  lists or tuples, which are copied anyway; in-place writes need particular options or
  dtypes to reach the caller's memory""",
  ["rigid_body_motion/__init__.py", RF, CO, UT, ES, CS,
   "rigid_body_motion/accessors.py", "rigid_body_motion/io.py"],
  [("conversion helpers", "core.py _maybe_unpack_dataarray, _make_dataarray, "
    "_make_*_dataset"),
   ("numerical code", "utils.py, estimators.py, coordinate_systems.py")],
  ["every public function", "DataArray accessors"],
  technique=TECH, note=NOTE)

P("C10", "Looking things up or transforming changes nothing",
  """Queries (lookup_*, transform_*, get_transformation, render_tree, estimators and
  conversions) never change the registry, the tree or any frame, so that repeating a
  query or asking in another order gives the same answer; a query answers from the
  current registry and the current frames, never from a remembered answer of an
  earlier state. The arrays a lookup returns belong to the caller: changing them does
  not change any frame.""",
  """every sequence of queries and registrations, every query with every option""",
  """tests ask each question once on a fresh registry; hidden state shows only in a
  sequence of registrations and queries""",
  [RF, CO, "rigid_body_motion/__init__.py", ES],
  [("lookups", "reference_frames.py ReferenceFrame.lookup_*, get_transformation"),
   ("matching", "core.py TransformMatcher"), ("resolution", "core.py _resolve_rf")],
  ["lookup_transform()", "lookup_pose()", "lookup_twist()", "render_tree()"],
  over=("histories", "inputs"), technique=TECH, note=NOTE)

T2 = ("static analysis: abstract interpretation of registry operations under assumed "
      "registry contents; path-sensitive comparison of the effects on the registry and "
      "the tree with the specified ones")
N2 = ("One abstract run per operation and per assumed registry state (name absent, "
      "taken by this frame, taken by another frame); names and frames symbolic. The "
      "registry is modelled as a dict that the package alone writes to.")

P("C11", "The registry maps each name to the frame last registered under it",
  """A frame is found under a name exactly from the moment it is registered under it
  until it is deregistered, replaced or the registry is cleared: registering a taken
  name raises ValueError unless update=True, in which case the new frame takes the name
  and the replaced frame is detached from the tree. Deregistering
  an unknown name, or a frame whose name now belongs to another frame, raises
  ValueError and never removes that other frame; nor does garbage collection of a frame
  that is not (or no longer) registered. Creating a frame does not register it, only
  the registration functions write to the registry, and names resolve to exactly the
  registered frame (unknown names raise ValueError, other types TypeError).""",
  """every sequence of register, update, deregister, clear and garbage collection, for
  root and child frames""",
  """tests register and deregister a few fixed names once each""",
  [RF, CO, "rigid_body_motion/__init__.py"],
  [("registry", "reference_frames.py _registry, _register, _deregister, "
    "register_frame, deregister_frame, clear_registry"),
   ("frame methods", "reference_frames.py ReferenceFrame.register, deregister, "
    "__del__"), ("resolution", "core.py _resolve_rf")],
  ["register_frame()", "deregister_frame()", "clear_registry()",
   "ReferenceFrame.register()", "ReferenceFrame.deregister()"],
  state=[("_registry", "name to frame", "reference_frames.py")],
  over=("histories",), technique=T2, note=N2)

P("C12", "A rejected registration leaves registry and tree untouched",
  """If registering, creating, replacing or deregistering a frame raises, for whatever
  reason (bad shapes, missing timestamps, unknown parent, taken name, missing name),
  the registry holds the same names and frames as before, no half-built frame is
  attached to a parent, and no existing frame has been detached or changed.""",
  """every failing call of every registration operation and constructor, at every
  point at which it can fail""",
  """tests check that an exception is raised but not what the registry and the tree
  look like afterwards""",
  [RF],
  [("construction", "reference_frames.py ReferenceFrame.__init__"),
   ("registration", "reference_frames.py register_frame, _register, _deregister")],
  ["register_frame()", "ReferenceFrame()", "render_tree()"],
  state=[("_registry", "name to frame", "reference_frames.py"),
         ("parent", "tree links", "reference_frames.py ReferenceFrame")],
  over=("histories", "crash_points"), technique=T2, note=N2)
