"""Regenerates /verif/properties.jsonl (the property texts live here)."""
import json, pathlib
V="src/coordinax/_src/vectors/"
O="src/coordinax/_src/operators/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Same-dimension position conversion preserves the geometric point",
"Converting a position between any two representations of the same dimension (1D Cartesian/radial; 2D Cartesian/polar; 3D Cartesian, cylindrical, spherical, math-convention spherical, lon-lat spherical, prolate spheroidal with any focal length; N-D Cartesian) yields a vector that denotes the same geometric point, to floating-point accuracy. Converting back, or going through any chain of intermediate representations, ends at the same point.",
["inputs","programs"],"every ordered pair and chain of representations; every in-domain point (all octants, axes, poles, branch cuts, foci, the origin, tiny and huge scales), every unit, batch shape, quantity type and focal length",
"The suite checks each conversion on one fixed array of four generic points in one unit; it never visits poles, cuts, other octants, mixed units or chains.",
[V+"d1/transform.py",V+"d2/transform.py",V+"d3/transform.py",V+"dn/transform.py",V+"api.py"],
[("per-pair closed-form conversion rules and the go-through-Cartesian fallback",V+"d3/transform.py"),("same conversions in 1D/2D",V+"d2/transform.py")],
["represent_as(position, type)","position.represent_as(type)"])

p("C02","Positions stay in their canonical range; invalid input is rejected",
"Every concrete position vector the library hands out has a non-negative radius, an inclination in [0, 180] deg (latitude in [-90, 90] deg), prolate spheroidal coordinates with mu >= Delta^2 >= |nu| and Delta > 0, and an azimuth built from a plain angular quantity lies in [0, 360] deg. Constructing a position from concrete values outside those ranges (negative radius, inclination out of range, inconsistent prolate coordinates) raises an error, for scalars and for any single bad element of a batch, in any unit, while values on the boundary are accepted.",
["inputs"],"every position class with a restricted component, every unit, scalar or batched values (including one bad element among many), values exactly on, just inside and just outside each bound; results of every conversion and arithmetic operation (azimuths given as an Angle are passed through unwrapped by design; checks do not fire under jit by design)",
"Tests probe one or two bad scalars; they cannot show that every vector produced anywhere is canonical, nor that the guard sees each element and unit.",
[V+"checks.py",V+"converters.py",V+"d1/radial.py",V+"d2/polar.py",V+"d2/spherical.py",V+"d3/spherical.py",V+"d3/mathspherical.py",V+"d3/lonlatspherical.py",V+"d3/cylindrical.py",V+"d3/spheroidal.py"],
[("__check_init__ range checks",V+"checks.py"),("azimuth wrapping converter",V+"converters.py")],
["construction of any position","return values of conversions and arithmetic"])

p("C03","Velocity conversion is the pushforward of the position conversion",
"Converting a velocity at a position from one representation to another multiplies it by the exact Jacobian of the position conversion at that point: the result is the time derivative, in the target components, of any trajectory with that position and velocity. This holds whichever representation or units the base position is given in, for every pair of same-dimension velocity types including the cos-latitude proper-motion form, and converting back recovers the original velocity.",
["inputs","programs"],"all ordered pairs of 1D/2D/3D velocity types (N-D Cartesian to itself), base position in any same-dimension representation or a Cartesian Quantity, all units, batch shapes, generic points off the coordinate singularities",
"Tests compare a few hand-picked values of a few pairs; a wrong Jacobian element, unit or base point only shows on generic inputs.",
[V+"transform/velocities.py",V+"d3/transform.py",V+"d2/transform.py",V+"d1/transform.py"],
[("autodiff Jacobian of represent_as contracted with the velocity",V+"transform/velocities.py"),("cos-latitude special cases",V+"d3/transform.py")],
["velocity.represent_as(type, position)"])

p("C04","Acceleration conversion transforms the second derivative of a trajectory",
"Converting an acceleration at a given velocity and position yields, in the target components, the second time derivative of the trajectory having that position, velocity and acceleration. In particular it is linear in the acceleration with the Jacobian of the position conversion as coefficient, is independent of how the base position and velocity are represented, and a round trip recovers the original acceleration.",
["inputs","programs"],"all ordered pairs of 1D/2D/3D acceleration types (Cartesian, radial, polar, cylindrical, spherical, math-spherical, lon-lat spherical), base velocity/position in any same-dimension representation or Cartesian Quantity, all units and batch shapes, generic points",
"Tests compare a few fixed numbers with at most one velocity; nothing compares against an independent derivative.",
[V+"transform/accelerations.py",V+"d1/transform.py",V+"d2/transform.py",V+"d3/transform.py"],
[("autodiff Jacobian contracted with the acceleration",V+"transform/accelerations.py")],
["acceleration.represent_as(type, velocity, position)"])

p("C05","Dimension-changing conversions follow their documented projections",
"Lowering the dimension of a position keeps exactly the documented component (the Cartesian x, or x and y, coordinates; the polar form of the x-y projection; the full radius, except that polar and cylindrical vectors project to their planar radius) and always issues the irreversible-dimension-change warning. Raising the dimension keeps the existing components, fills the missing ones with the documented default (zero) or the value passed by keyword, and never warns; dropping a raised dimension again returns the original Cartesian vector.",
["inputs","programs"],"every supported ordered pair of position types of different dimension, every in-domain point, unit, batch shape, with and without fill keywords",
"Tests use one generic array per pair and rarely pass fill values; the warning contract is asserted for a handful of pairs.",
[V+"transform/d1.py",V+"transform/d2.py",V+"transform/d3.py",V+"exceptions.py"],
[("explicit cross-dimension rules",V+"transform/d3.py"),("IrreversibleDimensionChange warning",V+"exceptions.py")],
["represent_as across dimensions","warnings issued"])

p("C06","Adding, subtracting and negating positions is Euclidean in any representation",
"For positions of equal dimension in any (possibly different) representations and units, a+b, a-b, -a and +a denote the Euclidean sum, difference, negation and copy of the points, and the result is returned in the left operand's representation. Hence the vector-space laws (commutativity, associativity, a-b = a+(-b), a-a = 0) hold geometrically; Cartesian velocities and accelerations obey the same laws component-wise.",
["inputs","programs"],"every ordered pair of position types of the same dimension, random expression trees over them, operator syntax and array-namespace functions, all units (also mixed), batch and broadcast shapes; Cartesian velocities (1D-3D addition, 3D subtraction) and accelerations (addition; subtraction in 1D and 3D)",
"Tests add one vector to itself or a fixed one with equal units; mixed representations, units and broadcasting are unexplored.",
[V+"base/base_pos.py",V+"d1/cartesian.py",V+"d2/cartesian.py",V+"d3/cartesian.py",V+"dn/cartesian.py"],
[("add/sub/neg primitive rules that go through Cartesian",V+"base/base_pos.py"),("Cartesian component rules",V+"d3/cartesian.py")],
["a+b, a-b, -a, +a and quaxed.numpy equivalents"])

p("C07","Scaling a position by a number is Euclidean in any representation",
"For a real scalar s, s*v, v*s and v/s denote the point multiplied (divided) by s and keep v's representation and canonical ranges, whatever the representation; (s*t)*v = s*(t*v), 1*v = v and s*(a+b) = s*a + s*b hold geometrically. Scaling by a non-scalar array is refused for multiplication, and multiplying two positions gives the component-wise product of their Cartesian coordinates.",
["inputs","programs"],"every position type with a Cartesian counterpart and Cartesian 1D/2D velocities and accelerations under left multiplication; scalars of any sign (also zero and negative), magnitude and Python/NumPy/JAX type; every unit and batch shape",
"Tests scale Cartesian or radius-type vectors by one positive number.",
[V+"base/base_pos.py",V+"d2/polar.py",V+"d3/mathspherical.py",V+"d1/cartesian.py",V+"d2/cartesian.py",V+"d3/cartesian.py",V+"dn/cartesian.py"],
[("mul/div primitive rules",V+"base/base_pos.py"),("radius-only fast paths",V+"d3/mathspherical.py")],
["s*v, v*s, v/s"])

p("C08","Vector equality compares physical values element by element",
"For positions, a == b converts b to a's representation and is true exactly at those batch elements where every component is physically equal, regardless of the units in which the components are stored; a vector equals itself and its copies, and a change in any single component of any single element makes exactly that element unequal. Velocities and accelerations compare the same way within one type, and comparing with an object of an unrelated type is never true.",
["inputs"],"all vector types, all batch shapes and units, single-component and single-element perturbations, exact representable values",
"Tests compare two or three fixed Cartesian vectors in one unit.",
[V+"base/base.py",V+"base/base_pos.py",V+"base/base_vel.py",V+"base/base_acc.py"],
[("component-wise equality reduced over leaves",V+"base/base.py"),("representation alignment before comparing",V+"base/base_pos.py")],
["a == b, a != b, jnp.equal"])

p("C09","Vectors behave like arrays of points under shape operations",
"A vector's shape is the broadcast of its component shapes, and ndim, size, len, iteration length, shapes, sizes, units and dtypes are consistent with it. Indexing, slicing, reshape, flatten, ravel, T, mT and broadcasting act on the batch exactly as NumPy acts on an array of points: each output element is the point NumPy would put there, no component is lost or misaligned (also when components have different, broadcastable shapes), and type, units and extra attributes are kept.",
["inputs","programs"],"every vector type including N-D, any batch shape of 0 to 4 axes including size-1 and empty axes, any index expression (ints, negative, slices, ellipsis, newaxis, integer and boolean arrays), uniform or broadcastable component shapes, both memory orders, sequences of operations",
"Tests exercise uniform shapes of at most two axes for one or two index forms.",
[V+"base/base.py",V+"dn/base.py",V+"utils.py",V+"base/register_primitives.py",V+"space/core.py"],
[("component-wise application after full_shaped",V+"base/base.py"),("N-D overrides keeping the feature axis",V+"dn/base.py"),("broadcast_in_dim / convert_element_type rules",V+"base/register_primitives.py")],
["vector[...], .reshape, .flatten, .ravel, .T, .mT, broadcast_to"])

p("C10","Unit conversion and input units never change physical values",
"Converting a vector to a unit system, to a mapping of dimensions to units, or to consistent units changes every component's unit as requested and leaves its physical value, type, extra attributes and shape unchanged. Every operation gives the same physical result whatever units its inputs are expressed in.",
["inputs","configurations"],"every vector type; every unit system and unit mapping covering the components' dimensions; every combination of component units (also different units for components of the same dimension)",
"Tests convert one vector to one unit system; unit-dependence of conversions and arithmetic is not tested.",
[V+"base/compat.py",V+"base/base.py"],
[("uconvert dispatches",V+"base/compat.py")],
["vector.uconvert(...), unxt.uconvert(..., vector)"])

p("C11","Each operator performs its documented map and its inverse undoes it",
"Spatial translations add the offset, rotations multiply by the matrix, boosts add velocity times time to the position (velocity boosts add only to velocities), spacetime translations shift time and position, and the general Galilean operator rotates, then translates, then boosts - on every supported input form (positions in any representation, Cartesian Quantities, position with time, four-vectors, position with velocity), giving the same physical result and keeping the input's representation. Applying an operator and then its inverse, in either order, returns the input, and no input component that the operator does not act on changes.",
["inputs","programs"],"all operator types, random parameters and units, all supported call signatures, 3D (and where supported 1D/2D) inputs in every representation, batch shapes",
"Tests call each operator on one input; inverse laws and agreement between signatures are not tested beyond single values.",
[O+"galilean/spatial_translation.py",O+"galilean/translation.py",O+"galilean/rotation.py",O+"galilean/boost.py",O+"galilean/composite.py",O+"boost.py",O+"identity.py",O+"compat.py"],
[("__call__ dispatches and inverse properties",O+"galilean"),("Quantity / four-vector adaptors",O+"compat.py")],
["operator(...), operator.inverse(...)"])

p("C12","Composition applies operators left to right and simplification keeps the action",
"A pipe built with | (from operators and pipes in any grouping) or explicitly applies its operators left to right; its inverse applies the inverses right to left; indexing, slicing and iterating give the constituent operators in order. Simplifying any operator or pipe returns an operator with the same action on every input, up to the tolerance used to recognise a null operator; matrix-multiplying rotations equals multiplying their matrices.",
["programs","inputs"],"arbitrary sequences (length 0-8) of all operator types with random and null parameters, any grouping of |, any application input, simplify() and simplify_op() of one or two operators, with parameters either exactly null or far above the tolerance",
"Tests simplify a few fixed pipes whose operators commute, and check types rather than actions.",
[O+"pipe.py",O+"composite.py",O+"base.py",O+"register_simplify.py",O+"galilean/rotation.py",O+"galilean/composite.py",O+"galilean/translation.py",O+"galilean/spatial_translation.py",O+"galilean/boost.py",O+"boost.py"],
[("Pipe.__call__ and | concatenation",O+"pipe.py"),("pairwise simplify_op reduction",O+"register_simplify.py")],
["op1 | op2 | ..., .simplify(), simplify_op, .inverse"])

p("C13","ICRS-Galactocentric transforms are the standard ones and invert exactly",
"The transform from ICRS to a Galactocentric frame with any parameters (galactic-centre direction and distance, solar height, roll, solar velocity) is the standard rigid transformation (identical to astropy's definition), for positions and for velocities; the reverse transform is its exact inverse, transforming a frame to itself is the identity, and going between two Galactocentric frames equals going through ICRS. Transforming to or from the null frame always raises a frame-transform error.",
["inputs","configurations"],"all frame parameters, all positions and velocities (Quantity and vector inputs in any representation and unit), all frame pairs including the null frame, eager, jit and vmap",
"Tests evaluate the default frame on one or two points.",
["src/coordinax/_coordinax_space_frames/frame_transforms.py","src/coordinax/_coordinax_space_frames/galactocentric.py","src/coordinax/_src/frames/xfm.py","src/coordinax/_src/frames/base.py"],
[("frame_transform_op dispatches and matrix construction","src/coordinax/_coordinax_space_frames/frame_transforms.py"),("null frame rejection","src/coordinax/_src/frames/xfm.py")],
["frame_transform_op(a, b)(...), frame.transform_op(b)"])

p("C14","Distance, parallax and distance modulus are mutually consistent",
"Distances, parallaxes and distance moduli convert into each other by tan(p) = 1 AU / d and m = 5 log10(d / 10 pc), through properties, constructors and the supported type conversions alike, so that every round trip returns the original value in any unit and shape. Wrong-dimension input (and, unless disabled, negative parallax) is rejected, and arithmetic that leaves the type's dimension degrades to a plain Quantity with the correct value and unit.",
["inputs"],"all positive distances over many orders of magnitude in all length/angle units, all shapes and dtypes, all conversion paths, the supported arithmetic primitives",
"Tests convert one value per path.",
["src/coordinax/_src/distances/core.py","src/coordinax/_src/distances/compat.py","src/coordinax/_src/distances/register_primitives.py"],
[("conversion properties and from_ dispatches","src/coordinax/_src/distances/core.py"),("promotion and primitive rules","src/coordinax/_src/distances/register_primitives.py")],
["Distance/Parallax/DistanceModulus construction, properties, arithmetic"])

p("C15","Angles act as physical angles in arithmetic and trigonometry",
"Arithmetic and trigonometric functions of Angle objects give the same physical result as on the equivalent plain quantity, in any angular unit: sine/cosine/tangent take the angle in radians, sums and scalings stay angles, and products, powers and roots degrade to plain quantities with the right unit. Non-angular units are rejected, and conversion to and from plain quantities keeps value and unit.",
["inputs"],"all finite angle values (many turns, negative, near multiples of 90 deg), all angular units, shapes and dtypes, every registered primitive",
"Tests evaluate single values per primitive.",
["src/coordinax/_src/angles/core.py","src/coordinax/_src/angles/base.py","src/coordinax/_src/angles/compat.py","src/coordinax/_src/angles/register_primitives.py"],
[("primitive rules","src/coordinax/_src/angles/register_primitives.py"),("promotion rule","src/coordinax/_src/angles/compat.py")],
["Angle arithmetic, jnp.sin/cos/... of Angle"])

p("C16","Exchanging coordinates with astropy keeps the geometry",
"Converting a coordinax vector, distance, angle or frame to its astropy counterpart, or building it from one, preserves every component's physical value and meaning: both sides denote the same point, velocity, distance or frame parameters, and a round trip returns the original. Cross-type construction from astropy (for example a spherical vector from a Cartesian representation) equals constructing first and converting afterwards.",
["inputs","programs"],"all supported class pairs in both directions, all units, shapes, in-domain values, cross-representation construction",
"Tests hold one fixed array per class pair and compare within one unit.",
["src/coordinax/_interop/coordinax_interop_astropy/constructors.py","src/coordinax/_interop/coordinax_interop_astropy/converters.py","src/coordinax/_interop/coordinax_interop_astropy/distance.py","src/coordinax/_coordinax_space_frames/_interop/interop_astropy/frames.py"],
[("plum conversion methods and from_ dispatches","src/coordinax/_interop/coordinax_interop_astropy/converters.py")],
["plum.convert(obj, astropy type), cls.from_(astropy object)"])

p("C17","JAX transformations do not change results",
"Any conversion, arithmetic operation, operator application or norm gives, under jit, under vmap and under both, the same physical result in the same type and units as eager evaluation element by element; derivatives obtained with jax.grad/jacfwd/jacrev equal the true derivatives. Vectors, operators, distances, angles and frames survive pytree flatten/unflatten unchanged, including static attributes.",
["programs","inputs"],"all public operations composed into random programs, batched over any axis, with arrays of any shape, valid inputs away from singular points for derivatives",
"Tests jit a few functions on one input and do not compare against eager results.",
[V+"base/base.py",V+"base/register_primitives.py",V+"transform/velocities.py",V+"d4/spacetime.py",O+"galilean/spatial_translation.py"],
[("equinox modules as pytrees, quax primitive rules",V+"base/base.py")],
["jax.jit/vmap/grad of public functions"])

p("C18","Four-vectors obey Minkowski geometry",
"A four-vector's norm is the principal complex square root of (ct)^2 - |q|^2 with its own speed of light, whatever the representation and units of its spatial part; addition, subtraction and negation act on time and space parts together; building one from a length-4 quantity uses ct for the first entry, and converting it to a quantity returns [ct, x, y, z]. Time broadcasts against the spatial batch but never enlarges it, the speed of light attribute is carried through every operation that returns a four-vector, and spatial attributes are reachable from the four-vector.",
["inputs","programs"],"all times, spatial vectors in every 3D representation, custom values of c, units and shapes (scalar or batched time), operators applied to four-vectors",
"Tests use one or two four-vectors with the default c and Cartesian space part.",
[V+"d4/spacetime.py",V+"d4/compat.py",O+"compat.py"],
[("norm/arithmetic/constructors",V+"d4/spacetime.py"),("quantity conversion",V+"d4/compat.py")],
["FourVector construction, norm, +, -, -v, convert, operator(four-vector)"])

p("C19","A Space transforms its members together at a common base point",
"Representing a Space in another representation gives, for each member, exactly what converting that member alone at the Space's own position (and velocity) gives, and a round trip returns the original physical phase-space point. A Space is an immutable mapping keyed by physical dimension: any alias of a dimension reaches the same member, indexing by a non-key, shape operations and negation act on each member, its shape is the broadcast of the members' shapes, and members of different shapes are broadcast together first, so that the points stay paired.",
["inputs","programs"],"all member combinations (position; position and velocity; position, velocity and acceleration) in all same-dimension representations, key aliases, indexes, units and shapes",
"Tests use one fixed Space.",
[V+"space/core.py",V+"space/compat.py"],
[("represent_as over members with shared base point",V+"space/core.py")],
["Space(...), space[...], space.represent_as(...)"])

p("C20","Multiplying by time integrates vectors component-wise",
"velocity * time is the position whose components are the velocity components times the time, acceleration * time the analogous velocity and acceleration * time^2 the analogous position, in the same coordinate family, (time on the left is defined for Cartesian and radial accelerations), in any units. The result of the wrong kind of multiplication (for instance velocity * time^2 or velocity * length) is an error, never a mis-typed vector.",
["inputs"],"all velocity and acceleration types having a same-family integral type, values keeping the result in range, scalar and broadcastable batch times, all time units",
"Tests multiply one Cartesian vector by one time.",
[V+"base/base_vel.py",V+"base/base_acc.py"],
[("mul primitive rules using field-name correspondence",V+"base/base_vel.py")],
["velocity * time, acceleration * time, acceleration * time**2"])

p("C21","Constructors keep what they are given; out-of-range spherical input is wrapped",
"Building a vector from a mapping, from an array plus unit, from a quantity whose last axis holds the components, or from another vector of the type stores exactly those components in declaration order with their units. The forgiving spherical constructors map any radius sign and any polar angle to the in-range coordinates of the same geometric point (the one obtained by using the raw values in the defining formulae).",
["inputs"],"all vector classes and constructor forms, all shapes, dtypes and units; raw spherical values with radius of any sign and polar angle of any number of turns (latitude within -450 to 270 deg)",
"Tests pass one value per constructor; wrapping is tested on one or two values.",
[V+"base/base.py",V+"d1/base.py",V+"d2/cartesian.py",V+"d3/cartesian.py",V+"d3/spherical.py",V+"d3/mathspherical.py",V+"d3/lonlatspherical.py",V+"d3/constructor.py",V+"dn/cartesian.py",V+"d3/generic.py","src/coordinax/_src/vectors/funcs.py"],
[("from_ dispatches",V+"base/base.py"),("wrapping logic",V+"d3/spherical.py")],
["Class.from_(...), coordinax.vector(...)"])

p("C22","Poincare polar variables encode exactly the cylindrical phase-space point",
"Converting a phase-space point (position and velocity in any 3D representation) to Poincare polar variables gives rho, z, their rates, and the canonical pair sqrt(2|L|) (cos phi, sin phi) with L = rho^2 dphi/dt; converting back returns the original position and velocity whenever dphi/dt is positive, with the absolute value of dphi/dt when it is negative.",
["inputs"],"all phase-space points with rho > 0 in all 3D representations and units, any batch shape, either sense of rotation",
"Tests use one point.",
[V+"transform/space.py",V+"transform/dn.py",V+"dn/poincare.py"],
[("closed-form rules",V+"transform/space.py"),("inverse rules",V+"transform/dn.py")],
["Space.represent_as(PoincarePolarVector), PoincarePolarVector.represent_as(Space)"])

p("C23","Norms are Euclidean lengths in every representation",
"The norm (and abs) of a position is the Euclidean distance of its point from the origin, the norm of a velocity at a position is its physical speed, and that of an acceleration at a velocity and position its Cartesian magnitude, in any representation and unit; it is non-negative, absolutely homogeneous and obeys the triangle inequality. Normalising a vector yields a dimensionless vector of unit length in the same direction.",
["inputs"],"all position/velocity/acceleration types that offer a norm, all in-domain values, units and batch shapes",
"Tests evaluate one 3-4-5 style value per class.",
[V+"base/base_pos.py",V+"base/base_vel.py",V+"base/base_acc.py",V+"d3/cartesian.py",V+"d3/mathspherical.py",V+"d3/lonlatspherical.py",V+"d2/cartesian.py",V+"d1/cartesian.py",V+"dn/cartesian.py"],
[("norm methods and overrides",V+"base/base_pos.py"),("normalize_vector",V+"d3/cartesian.py")],
["vector.norm(...), abs(vector), normalize_vector"])

p("C24","Converting a vector to a quantity lists its Cartesian components in order",
"Converting any position to a quantity gives its Cartesian coordinates stacked on a new last axis in x, y, z order, with the batch shape in front (broadcasting unequal component shapes) and correct physical values even when components carry different units; Cartesian and radial velocities and accelerations convert likewise component by component. Building a Cartesian vector back from that quantity returns the same point.",
["inputs"],"all position types with a Cartesian counterpart, Cartesian/radial velocities and accelerations, all target quantity types, unit mixtures and shapes",
"Tests convert one fixed vector per class with uniform units and shapes.",
[V+"base/compat.py",V+"compat.py",V+"utils.py",V+"dn/cartesian.py"],
[("plum conversion methods",V+"base/compat.py")],
["plum.convert(vector, Quantity)"])

p("C25","Operations are pure: no operand, history or thread affects a result",
"No operation modifies its operands (vectors, operators, spaces and frames are immutable and attempts to assign raise; copying or pickling gives an equal object), and the result of any operation depends only on its operands: repeating it later, after any other operations, in another order, or concurrently from several threads gives bit-for-bit the same value, type and units. Default parameters shared between objects are never altered.",
["histories","schedules","inputs"],"all public operations, arbitrary interleavings and orders of calls in one process, several threads using the library at once",
"Tests run each call once in a fixed order in one thread; cached or shared state that leaks between calls is invisible to them.",
[V+"base/base.py",V+"base/attribute.py",V+"transform/accelerations.py","src/coordinax/_src/operators/galilean/composite.py","src/coordinax/_coordinax_space_frames/galactocentric.py"],
[("frozen equinox modules",V+"base/base.py"),("module-level jitted functions and defaults",V+"transform/accelerations.py")],
["all public operations, in varied order and threads"])

p("C26","Physically meaningless input is refused",
"Giving a vector component, distance, angle, focal length, operator parameter or conversion argument a value of the wrong physical dimension raises an error at construction or call; so do arrays with the wrong number of components for a class, conversions that need missing information (a prolate target without focal length, a velocity without position, an acceleration without velocity), arithmetic between vectors of different kinds or incompatible shapes, and item assignment. None of these returns a value silently.",
["inputs"],"every component of every vector class and operator crossed with wrong dimensions; every binary operation crossed with mismatched kinds",
"Tests assert a couple of error cases; most of the cross product of wrong inputs is never tried.",
[V+"d1",V+"d2",V+"d3",V+"dn",V+"d4","src/coordinax/_src/distances/core.py","src/coordinax/_src/angles/base.py"],
[("dimension-parametric Quantity converters",V+"d3/cartesian.py"),("dispatch failure for unsupported operands",V+"base/base_pos.py")],
["constructors, represent_as, arithmetic with bad arguments"])

p("C27","Runtime type checking and float precision do not change behaviour",
"With runtime type checking (beartype) enabled or disabled, and with 32- or 64-bit floats, every valid program gives the same physical results (to the precision in force), types, units and warnings, and never fails only because checking is on. Vector components are stored as floats of the default precision even when given as integers or narrower floats (except those of 1-dimensional velocities and accelerations, which keep integers).",
["configurations","inputs"],"checker setting (off, beartype) x float width (32, 64) x a corpus of programs covering all modules, integer and float inputs",
"The suite runs in exactly one configuration (beartype, 32-bit).",
["src/coordinax/_src/__init__.py","src/coordinax/__init__.py",V+"d3/cartesian.py"],
[("jaxtyping import hook selected by environment variable","src/coordinax/__init__.py"),("dtype=float converters",V+"d3/cartesian.py")],
["results of the same programs in separate processes"])

p("C28","Vector families are coherent: integral, differential and component names match",
"For every position class the differential class's integral class is that position class again, likewise for velocity/acceleration; dimensions agree along the chain and within each family the differential component names are the position's names with d_ (d2_) prefixed, one for one. Every same-dimension pair of position classes (and of their velocity and acceleration classes), including classes a user defines, has exactly one applicable conversion: the call resolves without ambiguity or endless recursion, returns an instance of precisely the requested class, and converting to the own class is the identity.",
["programs"],"all concrete vector classes and all ordered pairs of them (finite, enumerated), including classes newly exported from the public namespace",
"Tests spot-check some classes; consistency across the whole class table and dispatch table is not enumerated.",
[V+"d1",V+"d2",V+"d3",V+"dn",V+"api.py"],
[("integral_cls / differential_cls / _cartesian_cls class properties",V+"base"),("represent_as dispatch table",V+"d3/transform.py")],
["class attributes and represent_as over the class table"])

p("C29","Printed forms show the object faithfully",
"str(), repr(), format() and the notebook displays (LaTeX, MIME bundle) of every vector, four-vector, Space, operator, pipe and frame succeed for every shape, unit, dtype and special value (empty, NaN, infinite, mixed component shapes, N-dimensional, traced) and agree with the object: the class name, every component name in order with its own unit, one number per stored value in order (to the printed precision), the shape, dtype and kind of each component in repr, operators and pipes showing their own parameters and constituents in order. The MIME bundle honours include and exclude (include has precedence). Printing never changes the object.",
["inputs"],"every concrete vector class x units x component shapes x value regimes, every operator kind, pipes, frames, Spaces, four-vectors",
"Doctests pin a few exact strings of tidy examples; mixed units and shapes, special values and most classes are never printed.",
[V+"base/base.py",V+"base/mixins.py",V+"d4/spacetime.py",V+"space/core.py","src/coordinax/_src/operators/base.py","src/coordinax/_src/operators/pipe.py"],
[("AbstractVector.__str__",V+"base/base.py"),("IPythonReprMixin",V+"base/mixins.py"),("AbstractOperator.__str__","src/coordinax/_src/operators/base.py")],
["str, repr, format, _repr_latex_, _repr_mimebundle_"])

out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
