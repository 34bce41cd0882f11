TECH = ("static analysis: abstract interpretation into a value-flow graph, then "
        "symbolic-shape array evaluation in a normalising algebra and comparison with "
        "the specified formula")
NOTE = ("The formula extracted from the source is compared, by normalisation, with the "
        "specified one for symbolic element values and the listed array layouts (axis "
        "lengths symbolic, number of axes up to four); real arithmetic, numpy modelled "
        "as documented. Formulas the algebra cannot normalise are reported as undecided.")
UT = "rigid_body_motion/utils.py"

P("C19", "Coordinate system conversions follow their definitions",
  """Converting between cartesian and polar and between cartesian and spherical
  coordinates follows the documented definitions in every quadrant (radius, polar
  angle from the z axis, azimuth), for every placement of the coordinate axis, leaving
  all other axes and their order alone, and back-and-forth conversion is the identity.
  The generic conversion function dispatches to the right conversion for each
  supported pair and rejects unsupported pairs and wrong axis lengths with a
  ValueError.""",
  """every array of coordinates in every quadrant, any number of dimensions and any
  axis, every pair of coordinate system names""",
  """tests convert a handful of points along the default axis""",
  ["rigid_body_motion/coordinate_systems.py"],
  [("conversions", "coordinate_systems.py cartesian_to_polar, polar_to_cartesian, "
    "cartesian_to_spherical, spherical_to_cartesian"),
   ("dispatch", "coordinate_systems.py transform_coordinates")],
  ["cartesian_to_polar()", "cartesian_to_spherical()", "transform_coordinates()"],
  technique=TECH, note=NOTE)

P("C22", "Rotating vectors is exact for any quaternion norm and layout",
  """Rotating vectors by quaternions yields the rotation described by the quaternion's
  direction, whatever its nonzero norm, whether it is passed as float components or as
  quaternion dtype, pairing quaternions and vectors along their common leading axes
  (or forming all combinations when one-to-one pairing is off) and putting the spatial
  axis of the result where the vectors had it. Arrays whose shapes cannot be paired or
  whose axis lengths are wrong are rejected with a ValueError.""",
  """every quaternion (any norm), every vector, every combination of array layouts and
  axis arguments""",
  """tests rotate by unit quaternions along the last axis, for which a wrong
  normalisation or a misplaced axis is invisible""",
  [UT], [("rotation", "utils.py rotate_vectors"), ("helpers", "utils.py qinv, qmul")],
  ["rotate_vectors()"], technique=TECH, note=NOTE)

RF = "rigid_body_motion/reference_frames.py"
ES = "rigid_body_motion/estimators.py"

P("C20", "Transforms keep the axis layout of the input",
  """Transforming an array of points, vectors, quaternions or velocities returns an
  array with the same axes in the same order as the input, for every placement of the
  spatial axis and of the time axis (counted from the front or from the back) and any
  number of further axes; only the length of the time axis may change. Each output
  vector is the transform of the input vector at the same position, computed with the
  transform at that time stamp.""",
  """every number of dimensions, every pair of spatial and time axis, static and moving
  frames, every transform and entry point""",
  """tests use two-dimensional arrays with time first and space last, for which swapped
  or unswapped axes coincide""",
  [RF, "rigid_body_motion/core.py", UT],
  [("axis handling", "reference_frames.py ReferenceFrame._validate_input, "
    "_move_spatial_axis, _expand_singleton_axes"),
   ("transforms", "reference_frames.py ReferenceFrame.transform_*")],
  ["transform_points()", "transform_vectors()", "transform_quaternions()",
   "transform_angular_velocity()", "transform_linear_velocity()"],
  technique=TECH, note=NOTE + " The matching of time stamps is replaced by an abstract "
  "resampling of the leading axis.")

P("C30", "Euler angles compose the axis rotations in the requested order",
  """Building quaternions from Euler angles multiplies the rotations about x (roll), y
  (pitch) and z (yaw) in the requested order, for every order, every subset of given
  angles and every array layout, as floats or as quaternion dtype. Contradictory or
  missing angles, angles of different shapes and orders that lack one of the three
  letters raise a ValueError.""",
  """every angle, every one of the six orders, every subset of angles, scalars and
  arrays of any shape, every axis""",
  """tests compare a few right angles for one or two orders""",
  [UT], [("conversion", "utils.py from_euler_angles")], ["from_euler_angles()"],
  technique=TECH, note=NOTE)

P("C31", "Quaternion inverse, product and mean are algebraically exact",
  """The inverse is the multiplicative inverse for any nonzero quaternion, the product
  of any number of quaternions is the left-to-right Hamilton product, and the mean is
  the eigenvector of the largest eigenvalue of the averaged outer products over the
  requested axes; all of them for any placement of the quaternion axis and for
  quaternion dtype. Mixing dtypes or passing fewer than two factors raises a
  ValueError, averaging over an axis that does not exist an IndexError.""",
  """every quaternion, any number of factors, every array layout, every axis
  argument""",
  """tests use single unit quaternions about one axis, for which the product
  commutes, the inverse is the conjugate and axes cannot be confused""",
  [UT], [("inverse", "utils.py qinv"), ("product", "utils.py qmul"),
         ("mean", "utils.py qmean")], ["qinv()", "qmul()", "qmean()"],
  technique=TECH, note=NOTE + " The eigenvalue solver is an uninterpreted function of "
  "the matrix.")

P("C36", "The shortest-arc rotation maps one direction onto the other",
  """The shortest-arc rotation between two arrays of vectors is, for each pair that is
  not antiparallel, the unit quaternion of the rotation about their common normal that
  takes the direction of the first onto the direction of the second, whatever their
  lengths. The quaternion axis takes the place of the spatial axis, for any placement
  of that axis.""",
  """every pair of nonzero, not antiparallel vectors of any length, every array layout
  and axis""",
  """tests use a few pairs of unit vectors along the last axis""",
  [ES], [("shortest arc", "estimators.py shortest_arc_rotation")],
  ["shortest_arc_rotation()"], technique=TECH, note=NOTE)
