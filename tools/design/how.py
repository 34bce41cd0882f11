HOW = {
"C01": """Interprets `lookup_transform`, `lookup_pose` (method, top level, by name, every result form) for a symbolic frame path. The tree walk is abstracted to "parent of", and the composition loop is typed by an inductive invariant ("after k steps the pair is the transform from base to the k-th frame of the path"), for both directions of steps. The rotation primitives are atomic here and their formulas are obligations of their own (C22, C31, plus the *formula* rule here). Oracle: the type the documentation gives the result.""",
"C02": """As C01, for transforms of points, vectors and quaternions: the result must have the type of the input moved to the new frame, for each entry point, with and without stamps, and the orientation must be multiplied from the left.""",
"C03": """Velocity types have four parts (what moves, relative to what, along which axes, angular or linear); the rules for adding velocities and the lever arm are those of rigid body kinematics. Every combination of exchanged reference, moving and representation frame is typed.""",
"C04": """As C03 for the looked-up velocities: which frame's transform is differentiated and in which axes the result is, plus the exact conditions of the ValueError for static transforms. Both cases of every undecided condition must be typed as specified.""",
"C05": """Interprets every constructor with `inverse` on and off and types the stored pair of translation and rotation, comparing with given/inverse.""",
"C06": """For each abstract tree (all combinations of static/continuous/discrete frames on paths of up to three frames, with and without an array with stamps) the expression of the reported stamps is normalised in the time line domain and compared with: stamps of the first continuous source restricted to the overlap of all of them; union of events when all are discrete. Conditions over end points are judged for every order of the end points, other conditions both ways.""",
"C07": """On the same trees, every leaf (translation, rotation, input array) of the returned expression must have gone through one resampling operation from its own stamps to the reported ones, of the right kind (linear for vectors, spherical for rotations).""",
"C08": """As C07 for discrete frames: only hold operations (latest event not after the stamp; the first value before the first event).""",
"C09": """Alias analysis: the memory of each argument is a root; views, attribute and item access, containers and library calls that may return their argument keep the root; every store, in-place operator, `out=` and in-place method whose target may have a root of an argument is reported.""",
"C10": """Effect analysis of every query: no store to registry, module state or frames on any path; returned containers do not alias the registry; no memoising decorator or module-level cache around a function that depends on registry or frames.""",
"C11": """One abstract run per operation and assumed registry state (name absent, taken by this frame, taken by another); the writes to the registry, the changes of parents and the outcome must be exactly the specified ones. Unknown names must end in ValueError, never in another entry.""",
"C12": """For every raise that can leave a registration, the abstract state at that raise must show no registry write, no attached new frame and no changed old frame (typestate of the partially built frame, through handlers and `finally`).""",
"C13": """Path conditions of the raise statements are evaluated over symbolic shapes (lengths symbolic, with every order of unequal lengths) and over the possible signs of consecutive stamp differences: contradictory shapes must reach the raise on every path, valid ones must not certainly reach one.""",
"C14": """Each option is a fresh symbol; its uses are traced to the operand or argument of the step it controls, through every caller. In every case of the control flow in which the step is documented to run, the option has to take effect there.""",
"C15": """The labelled result is rebuilt from its construction term and its variables, dimensions, coordinate labels and attributes compared with the specified ones, for every result form and every combination of given/omitted frames; plus the frame that a transform of a labelled array starts from.""",
"C16": """Import closure: the import statements executed by importing the package and by each public function for arrays, with the handlers around them. An optional package must only be imported under a handler (or in a function that needs it).""",
"C17": """ROS message classes are records; the numpy arrays made of messages and the records made of arrays are compared field by field.""",
"C18": """The loops over messages of a bag are summarised (one pass for a symbolic message and its time); what a pass appends, and the arrays and exported dataset made of the lists, are compared with the specification.""",
"C19": """Cell formulas of the conversions compared with the textbook ones, for each axis position and each pair of systems.""",
"C20": """Arrays with the component and time axes at every pair of positions (2 to 4 axes; thorough 5): each output cell is compared with the specified one, so pairing of samples, broadcasting and the position of the axes are all judged.""",
"C22": """Cell formula against `q v q* / |q|^2` for non-normalised symbolic quaternions in all layouts and lengths, including broadcasting, `axis`, one-axis and rejection cases.""",
"C23": """Polynomial comparison with the optimum of Kabsch for each sign of the determinants.""",
"C25": """Loop and effect structure of `spin`, its thread and the flag, order of writes in `__init__` relative to the subscription (happens-before by program order), and the sleep term.""",
"C26": """Typestate of the bag file (closed, open, closed) across `__enter__`, the methods and `__exit__`, on normal and exceptional paths.""",
"C30": """For each of the orders (all permutations and, thorough, longer orders), component formulas of the quaternion against the product of half-angle rotations, for every layout.""",
"C31": """Component formulas for inverse and product; for the mean, the matrix handed to the eigenvalue solver, the choice of the eigenvector and the layout.""",
"C33": """The interpolation is a linear operator on labelled samples; labelled axes show which axis is interpolated, which holds components, and in which unit each time line is; accessors are checked to hand over array, stamps and dimensions and to rebuild coordinates.""",
"C35": """Typing by point set, motion and row correspondence; the loop at its fixed point and unrolled.""",
"C36": """Cell formula of the quaternion made of axis and half angle.""",
"C37": """Derivative operator along a labelled axis, missing-value masks as index sets, the outlier condition, the filter's axis and coefficients.""",
"C38": """The message handed to `publish` is a record; each field is compared.""",
"C39": """As C38 for what the tf2 buffer gets and is asked.""",
"C40": """As C38 for markers; the colour conversion by cell; the path points by index set.""",
"C41": """Arguments of widgets and callbacks as terms.""",
}
HOW["C29"] = """Each plotting function is interpreted with symbolic axes; drawing calls and reads and writes of limits are recorded in order, with their conditions. For each layout of the arguments the sequence is replayed in the array domain: coordinates handed to `plot`, `quiver` and the projected arrow ends are compared cell by cell, and final limits as piecewise linear expressions of the limits before and the plotted points."""
HOW["C32"] = """The file is a table of symbolic cells with the five header rows of an export; the pandas calls become operations on labelled columns. The cells of each returned position and orientation, and each time stamp, are compared with the specified expressions for each format, unit and order of rotation."""
HOW["C27"] = """The package is loaded by the interpreter; each documented name is resolved to the function, class or method bound to it, and its signature compared with the recorded one. Where a default differs, the call without the parameter and the call with the documented default are interpreted and compared as terms (result, effects, raises)."""
HOW["C28"] = """The lookup is interpreted with the download recorded: address and hash are constants after propagation and are compared with the specified ones; the returned path is the one retrieved."""
HOW["C24"] = """Unit inference on the value-flow graph: stamps enter with a unit (datetime64 of s, ms, us, ns), and every step (conversion, selection, merging, difference, scaling) has a typing rule; tests of an array's dtype are decided by the unit. Stamps kept by a frame must not be of a coarser unit than given; wherever samples are interpolated (interp1d, interp, squad; the samples' and the target's stamps) both sides must have reached the same unit, for pairs of units given for frames, arrays and sampling points. A cast to a coarser unit is a violation. Derivatives are compared with their specification per second, as in C37."""
HOW["C21"] = """Each call is interpreted three times: without the argument, with the constant zero, and with a symbol for it. The outcomes (result, effects on objects that outlive the call, raises with their conditions) are terms, compared up to the identity of created objects (rbmsa/canon.py), in general and specialised under each condition between alternatives that does not mention the argument; equality in a case in which the symbol matters is a violation. In the third run no choice may be made by the truth of the symbol unless both alternatives agree when zero is put in."""
HOW["C07"] = HOW["C07"] + """ The sampling rule is judged for each pair of the frames on the path (static, continuous, discrete): the stamps of one and those of the others are ordered symbols."""
HOW["C13"] = HOW["C13"] + """ The same call with arguments that agree is interpreted too; a raise with the same conditions in both cannot be the demanded one."""
HOW["C15"] = HOW["C15"] + """ Loops and selections over coordinates are evaluated over a model with coordinates of every kind (rbmsa/dom/coords.py)."""
HOW["C33"] = HOW["C33"] + """ Coordinates that a result drops, keeps or restamps are evaluated over the same model as in C15."""
HOW["C35"] = HOW["C35"] + """ Each fitted step must be a factor of what is returned."""
HOW["C38"] = """The message handed to `publish` is a record; each field is compared by normal form and, where that fails, refuted by the symbols the terms read (rbmsa/dom/terms.py). Stamps are typed as a moment: sequence, sample, ticks per second, and whether a cut or a reinterpretation happened on the way."""
