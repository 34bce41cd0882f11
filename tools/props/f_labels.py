IN = "rigid_body_motion/__init__.py"
CO = "rigid_body_motion/core.py"
UT = "rigid_body_motion/utils.py"
ES = "rigid_body_motion/estimators.py"
P("C15", "Labelled results describe themselves",
  """Results returned as xarray objects carry the dimension names, component labels,
  variable names, units, motion types and the moving, reference and representation frames
  of what they hold, together with the timestamps reported for the values, and transforming
  a labelled array keeps its name, its other attributes and its other coordinates, changes the time
  coordinate to the stamps of the result (re-evaluating coordinates along it there), and
  updates the attributes for what was transformed. When the source frame or coordinate
  system is not given, it is the one recorded in the attribute for what is transformed.""",
  """every function with a labelled result, every kind of velocity, every combination of given
  and defaulted frames, named, default and absent timestamps, reported stamps equal to or
  different from those of the array""",
  """tests compare values; metadata that names the wrong frame or keeps stale stamps only
  shows when a later step relies on it""",
  [IN, CO, UT, ES],
  [("lookups", "utils.py _make_transform_or_pose_dataset, _make_twist_dataset, "
    "_make_velocity_dataarray; __init__.py lookup_*"),
   ("transforms", "core.py _transform, _make_dataarray, _replace_dim; __init__.py "
    "transform_*, transform_coordinates"),
   ("estimators", "estimators.py _make_transform_dataarrays and the labelled branches")],
  ["lookup_*(as_dataset=True)", "lookup_*_velocity(as_dataarray=True)", "transform_*()",
   "transform_coordinates()", "estimate_*_velocity()", "best_fit_*()",
   "shortest_arc_rotation()", "iterative_closest_point()"],
  over=("inputs", "configurations"),
  technique="""static analysis: abstract interpretation of the syntax trees; the labelled
  object is reconstructed from the value-flow graph of its construction, split by the
  conditions it was built under""",
  note="""The attributes of lookup_transform's dataset other than motion type and units are
  not claimed, nor the motion type of estimated velocities.""")
