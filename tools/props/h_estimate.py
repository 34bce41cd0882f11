ES = "rigid_body_motion/estimators.py"
CO = "rigid_body_motion/core.py"
UT = "rigid_body_motion/utils.py"
P("C37", "Estimated velocities are time derivatives",
  """Linear velocity is the derivative of the position and angular velocity is the vector
  part of twice the conjugate orientation times its derivative (or the derivative of the
  rotation vector, in that mode), taken along the time axis with respect to the time stamps in
  seconds, whatever the unit of the stamps and the order of the axes. Orientation samples with missing
  values are missing in the result and left out of the derivative of the others. Outlier
  rejection replaces by interpolation over time only samples whose change exceeds
  the threshold, and the filter is a zero-phase filter along time.""",
  """every array of samples, every position of the spatial and the time axis, every unit of
  the stamps, every threshold and cutoff""",
  """tests use one axis order, float or nanosecond stamps and compare with loose tolerances""",
  [CO, ES],
  [("derivatives", "core.py _estimate_linear_velocity, _estimate_angular_velocity"),
   ("entry points", "estimators.py estimate_linear_velocity, estimate_angular_velocity")],
  ["estimate_linear_velocity()", "estimate_angular_velocity()"],
  over=("inputs", "configurations"),
  technique="""static analysis: abstract interpretation of the syntax trees, normal forms of
  the components with a linear derivative operator along the labelled time axis""",
  note="""Sign flips of the quaternion samples and the accuracy of the difference scheme are
  numerical and not claimed; outlier rejection is analysed for arrays with two axes.""")

P("C23", "Best-fit rotations are proper and optimal",
  """best_fit_rotation and best_fit_transform return the proper rotation (determinant one,
  never a reflection) and, for transforms, the translation that together minimise the sum of squared
  distances between the second array and the transformed first array, as a unit quaternion
  and a vector. The direction is from the first array to the second. This holds whichever
  axis holds the vector components.""",
  """every pair of arrays of vectors, every axis, all signs of the determinants of the
  singular vectors, planar and mirrored data included""",
  """the mirrored case depends on the data and on the signs the decomposition happens to
  return; tests meet it by chance""",
  [ES],
  [("rotation", "estimators.py best_fit_rotation"),
   ("transform", "estimators.py best_fit_transform"),
   ("layout", "estimators.py _reshape_vectors")],
  ["best_fit_rotation()", "best_fit_transform()"],
  over=("inputs",),
  technique="""static analysis: the matrix turned into the quaternion is compared, cell by
  cell as a polynomial in the singular vectors, with the optimum (Kabsch), for every
  combination of determinant signs""",
  note="""The optimality of V diag(1, 1, det) U^T itself is the known theorem; rank-deficient
  data are covered as far as the decomposition returns orthogonal factors.""")

P("C35", "Iterative closest point matches and maps the right way",
  """iterative_closest_point pairs, in every iteration, the current points with their nearest neighbours in
  the second array and fits and applies the step from the current points to those neighbours, and what
  it returns is one translation and rotation mapping the given first array. An initial
  transform is applied before the first search. It stops after max_iterations or when the
  mean distance changes by less than the tolerance from one iteration to the next.""",
  """every pair of arrays, every initial guess, every number of iterations and tolerance""",
  """a swapped pairing or a wrong composition still converges on the nearly aligned data
  of the tests""",
  [ES],
  [("iteration", "estimators.py iterative_closest_point"),
   ("search", "estimators.py _nearest_neighbor")],
  ["iterative_closest_point()"],
  over=("inputs", "configurations"),
  technique="""static analysis: typing of the value-flow graph by which points each array
  holds, how they were moved and which rows correspond, with the loop at its fixed point
  and unrolled""",
  note="""Convergence to the right match depends on the data and is not claimed.""")
