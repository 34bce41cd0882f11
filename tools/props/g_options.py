IN = "rigid_body_motion/__init__.py"
CO = "rigid_body_motion/core.py"
RF = "rigid_body_motion/reference_frames.py"
ES = "rigid_body_motion/estimators.py"
P("C14", "Options reach the step they control",
  """Every option given to a module-level function takes effect exactly as it does in the
  method it stands for: the axes, timestamps, frames, kind of velocity and return options of
  the transforms and lookups arrive unchanged, the filter cutoff, outlier threshold and
  estimation mode act on every velocity component they are documented for (including the
  contributions a velocity transform adds) and on no other, and frame constructors pass on
  name, parent, timestamps, inversion and discreteness.""",
  """every public function, method and constructor with such options, every combination of
  option values, moving and static frames""",
  """an option dropped or swapped on one of many forwarding paths changes results only for
  noisy data or unusual arguments, which tests with clean signals do not notice""",
  [IN, CO, RF, ES],
  [("forwarding", "__init__.py transform_*, lookup_*; core.py _transform"),
   ("velocity options", "reference_frames.py lookup_*, transform_*_velocity; core.py "
    "_estimate_*_velocity; estimators.py estimate_*_velocity"),
   ("constructors", "reference_frames.py register_frame, ReferenceFrame.from_*")],
  ["transform_*()", "lookup_*()", "estimate_*_velocity()", "register_frame()",
   "ReferenceFrame.from_*()"],
  over=("inputs", "configurations"),
  technique="""static analysis: abstract interpretation of the syntax trees; option
  symbols traced through the value-flow graph to the arguments of the called method and to
  the operands of the filtering, thresholding and mode-selection steps""",
  note="""A step that uses an option in a form the rule does not know is reported as
  undecided. What the filter does to the data is not judged.""")
