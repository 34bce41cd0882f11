UT = "rigid_body_motion/utils.py"
AC = "rigid_body_motion/accessors.py"
MS = "rigid_body_motion/ros/msg.py"
TF = "rigid_body_motion/ros/transformer.py"
TECH = """static analysis: abstract interpretation of the syntax trees; the fields of every
  message handed to ROS are read off the value-flow graph of its construction"""
P("C33", "Orientations are interpolated and inverted along the right axes",
  """Interpolating quaternions returns, for each new time stamp, the spherical
  interpolation of the given samples at that time: along the time axis, at the place of that
  axis, with the components on the quaternion axis, whatever the unit of the stamps. The
  accessors qinterp and qinv keep dimensions, names, attributes and the coordinates of the
  other dimensions, and coordinates along the interpolated dimension come from the new
  stamps. qinv conjugates every sample and leaves its input alone.""",
  """every array of samples, position of the time and quaternion axes, unit of both sets
  of stamps and name of the dimensions""",
  """tests interpolate a (time, 4) array with one unit""",
  [UT, AC],
  [("interpolation", "utils.py qinterp"),
   ("accessors", "accessors.py DataArrayAccessor.qinterp, qinv")],
  ["qinterp()", "DataArray.rbm.qinterp", "DataArray.rbm.qinv"],
  over=("inputs", "configurations"),
  technique="""static analysis: abstract interpretation with labelled axes and units of time,
  the interpolation kept as a linear operator on the labelled samples""",
  note="""The accuracy of the spline of the quaternion library is taken for granted.""")

P("C17", "ROS messages carry what they were made from",
  """Every make_*_msg function returns a message whose stamp, frame names and components
  are those of its arguments, quaternions being given in w, x, y, z order and stored in the
  named fields, and every unpack_*_msg function returns those components in the order of the
  package, for stamped and unstamped messages. Unpacking what was made gives back the
  arguments.""",
  """every value of the components, every stamp and frame name""",
  """the ROS packages are not installed where the tests run""",
  [MS],
  [("constructors", "ros/msg.py make_transform_msg, make_pose_msg, make_twist_msg, "
    "make_vector_msg, make_point_msg, make_quaternion_msg, static_rf_to_transform_msg"),
   ("unpacking", "ros/msg.py unpack_*_msg")],
  ["rigid_body_motion.ros.msg"],
  over=("inputs",), technique=TECH,
  note="""The field names of the message classes are those of geometry_msgs; the fields of
  messages that come back from ROS are taken as given.""")

P("C38", "The transform broadcaster publishes the requested sample",
  """ReferenceFrameTransformBroadcaster.publish sends the transform of the frame with respect
  to the base at one sample, the requested or by default the current one, with the stamp of that
  sample in seconds, and pose and twist messages of the same sample and stamp if they were
  asked for. The motion is looked up between frame and base, the twist represented in the
  frame, with the given filter options. An incoming transform of the
  frame listened to publishes the sample nearest to its stamp; others publish nothing.""",
  """every frame, base, index (0 included), unit of the time stamps and combination of the
  publishing options""",
  """the ROS packages are not installed where the tests run""",
  [TF],
  [("publishing", "ros/transformer.py ReferenceFrameTransformBroadcaster.publish"),
   ("lookup", "ros/transformer.py ReferenceFrameTransformBroadcaster.__init__"),
   ("incoming", "ros/transformer.py "
    "ReferenceFrameTransformBroadcaster.handle_incoming_msg")],
  ["ros.ReferenceFrameTransformBroadcaster"],
  over=("inputs", "configurations"), technique=TECH,
  note="""The twist of a static frame and topic names are not claimed.""")

P("C39", "The ROS transformer answers for the frames and time asked for",
  """Transformer.from_reference_frame adds every frame of the tree but the root to the
  buffer, static ones as static transforms and moving ones with one transform per sample, each with
  its translation, rotation, stamp in seconds and the names of parent and frame, and the
  buffer keeps the whole time line. The query and transform methods ask the
  buffer for the transform from the source to the target frame at the given time, label what is
  transformed with the source frame and that time and return the transformed components.""",
  """every tree of frames, unit of the time stamps, pair of frames, time and value""",
  """the ROS packages are not installed where the tests run""",
  [TF, MS],
  [("buffer", "ros/transformer.py Transformer.from_reference_frame, set_transforms, "
    "set_transform_static"),
   ("queries", "ros/transformer.py Transformer.can_transform, lookup_transform, "
    "transform_vector, transform_point, transform_quaternion, transform_pose")],
  ["ros.Transformer"],
  over=("inputs", "configurations"), technique=TECH,
  note="""The arithmetic inside tf2 is taken for granted.""")

P("C18", "Rosbag messages are read and written sample by sample",
  """RosbagReader.load_messages returns, for odometry and transform messages, one row per
  message of the topic with the fields the arrays are named after, quaternions in w, x, y, z order,
  and rejects other message types. load_dataset, export and the cache hold those arrays
  under their names, dimensions and coordinates, the stamps read as seconds.
  RosbagWriter.write_transform_stamped writes one message per sample with that sample's
  stamp, translation, rotation and frame names, and rejects arrays whose shapes do not match.""",
  """every topic, number and content of messages, unit of the time stamps, form of the path""",
  """the ROS packages are not installed where the tests run""",
  ["rigid_body_motion/ros/io.py", MS],
  [("reading", "ros/io.py RosbagReader.load_messages, load_dataset, get_topics_and_types"),
   ("export", "ros/io.py RosbagReader.export"),
   ("writing", "ros/io.py RosbagWriter.write_transform_stamped, "
    "write_transform_stamped_dataset")],
  ["ros.RosbagReader", "ros.RosbagWriter"],
  over=("inputs", "configurations"), technique=TECH,
  note="""The rosbag library returns the messages that were recorded. The resolution of
  exported netCDF files and the naming of cache files are not claimed.""")

P("C26", "Rosbag files are open exactly inside their context",
  """Entering the context of RosbagReader or RosbagWriter opens the file of the object once, for
  reading or writing, and returns the object; leaving it closes that file, also when an
  exception leaves the context, which passes. Outside of the context the methods of the
  reader raise RuntimeError and open nothing, before the first and after every context.""",
  """every file, sequence of contexts and exception inside them""",
  """the ROS packages are not installed where the tests run""",
  ["rigid_body_motion/ros/io.py"],
  [("contexts", "ros/io.py RosbagReader.__enter__, __exit__, "
    "RosbagWriter.__enter__, __exit__"),
   ("guards", "ros/io.py RosbagReader.load_messages, get_topics_and_types")],
  ["ros.RosbagReader", "ros.RosbagWriter"],
  over=("histories", "inputs"), technique=TECH,
  note="""The rosbag library is taken as documented; whether an open file can be entered again
  is not claimed.""")

VI = "rigid_body_motion/ros/visualization.py"
RU = "rigid_body_motion/ros/utils.py"
P("C25", "Publishers spin at the pace of the recording until they are stopped",
  """spin() publishes one sample per pass in order, the first again after the last, and
  sleeps the seconds between a sample and the next, or the given interval. It blocks or returns
  the one thread it started, and leaves the loop when stop() was called or ROS shuts down,
  from every pass; a publisher that was stopped can spin again. A subscription is
  created after everything its handler reads.""",
  """every recording, unit of its stamps, interval, number of passes and moment of stop()""",
  """the ROS packages are not installed where the tests run, and loops without end cannot be
  tested to the end""",
  [TF, VI],
  [("spin", "ros/transformer.py ReferenceFrameTransformBroadcaster.spin, stop, _spin_blocking"),
   ("markers", "ros/visualization.py BaseMarkerPublisher.spin, stop, _spin_blocking")],
  ["ros.ReferenceFrameTransformBroadcaster", "ros.ReferenceFrameMarkerPublisher"],
  over=("schedules", "inputs", "histories"), technique=TECH.replace(
      "the fields of every\n  message handed to ROS are read off",
      "loops, effects and the order of\n  reads and writes are read off"),
  note="""stop() of a publisher that follows a subscription, and time slept by ROS itself, are
  not claimed.""")

P("C40", "Markers show the frame, colour, scale and points they were given",
  """get_marker fills every field of the marker with the argument given for it or its
  documented default, reading hexadecimal colours as red, green, blue and alpha over 255.
  A path marker shows every k-th position of the frame with respect to its base, k the
  least that keeps max_points. publish() sends a marker exactly when it differs
  from the last one sent.""",
  """every combination of arguments, colour string, number of samples and max_points""",
  """the ROS packages are not installed where the tests run""",
  [VI],
  [("markers", "ros/visualization.py get_marker, hex_to_rgba"),
   ("publishing", "ros/visualization.py BaseMarkerPublisher.publish"),
   ("frames", "ros/visualization.py ReferenceFrameMarkerPublisher.__init__")],
  ["ros.visualization.get_marker", "ros.visualization.hex_to_rgba",
   "ros.ReferenceFrameMarkerPublisher"],
  over=("inputs", "configurations"), technique=TECH,
  note="""The order of the components of the orientation given to get_marker and static frames
  in ReferenceFrameMarkerPublisher are not claimed.""")

P("C41", "The playback widget plays a recording at its pace",
  """play_publisher shows a slider over all samples, buttons and a play button that
  waits the mean difference of the time stamps times step over speed, in
  milliseconds. The buttons move by skip, by default step, samples forward or backward,
  and the message published is the one at the position of the slider, which follows
  the play button.""",
  """every recording, unit of the stamps, step, skip and speed""",
  """the widget packages are not installed where the tests run""",
  [RU],
  [("widget", "ros/utils.py play_publisher")],
  ["ros.play_publisher"],
  over=("inputs", "histories"), technique="""static analysis: abstract interpretation of the
  syntax tree; arguments of the widgets and callbacks are compared with the specification as
  value-flow terms""",
  note="""ipywidgets keeps the slider within its limits.""")

P("C16", "What is not required is not needed",
  """Importing the package, and calling its functions with arrays, needs nothing but the standard
  library, numpy, numpy-quaternion, scipy and anytree. What builds on an
  optional package works whenever that package is there, and without it its functions exist and
  raise ImportError when called. PyKDL is imported before matplotlib.""",
  """every set of installed optional packages and every function called with arrays""",
  """the tests run with the optional packages installed, so that nothing is ever missing""",
  ["rigid_body_motion/__init__.py", "rigid_body_motion/plot.py", "rigid_body_motion/ros/__init__.py",
   AC, UT],
  [("imports", "rigid_body_motion/__init__.py, ros/__init__.py, plot.py and the modules they import"),
   ("optional", "utils.py ExampleDataStore.__getitem__; io.py load_optitrack; plot.py fn_stub")],
  ["import rigid_body_motion"],
  over=("configurations", "programs"), technique="""static analysis: closure of the import
  statements executed by an import, with the handlers around them; abstract interpretation of
  every public function for arrays, recording the imports it reaches""",
  note="""Functions that are given DataArrays may need xarray; the ROS parts need ROS. That the required packages
  import nothing optional themselves is taken for granted.""")
