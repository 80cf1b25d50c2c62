import json,subprocess
M={"a737eea":("C01","points on the polar axis and the origin converted to spherical gave NaN / a polar angle off by up to 1e-8"),
"a7db34e":("C01","re-expressing prolate coordinates with a new Delta raised when mu and nu had different units"),
"f39a9ce":("C01","converting the foci to prolate spheroidal coordinates gave NaN"),
"11974ad":("C02","a negative distance modulus (closer than 10 pc) as radial coordinate was rejected as a negative radius"),
"a12f058":("C06","adding/subtracting Cartesian vectors whose components have different units raised"),
"56d1caa":("C08","equality compared raw stored values: equal points in different units were unequal; same-class operands with different structure raised"),
"fea4d40":("C21","forgiving spherical constructors rejected/corrupted latitudes beyond 90 deg, distance moduli, parallaxes, broadcastable shapes; azimuth left out of range"),
"9443def":("C07","scaling a polar/math-spherical position by a negative scalar raised; scaling with Parallax/DistanceModulus radius scaled the parallax/modulus; division scaled the angles"),
"8d1ea35":("C12","simplifying two consecutive rotations multiplied their matrices in the wrong order"),
"838fa96":("C12","operator | Pipe dropped or reordered the constituents / failed"),
"8dcd3ec":("C12","simplifying 1D/2D spatial translations raised"),
"cc1b7ef":("C18","operators applied to a four-vector reset its speed of light to the default"),
"4dcbb2d":("C11","spatial translation of batched (q, p) raised or changed the velocity"),
"b6d6d2b":("C09","mT of CartesianPosND with more than two batch axes moved the component axis"),
"356dccf":("C09","shape operations on vectors with components of different (broadcastable) shapes misaligned or failed"),
"db6b0d9":("C03","velocity conversion from prolate spheroidal (scalar Delta) raised; cos-latitude conversions dropped Delta"),
"5263e81":("C04","acceleration conversion to/from prolate spheroidal raised"),
"33fd82c":("C03","LonCosLat self-conversion with a Quantity position raised AmbiguousLookupError"),
"3556087":("C05","dimension changes of positions whose radial component is a parallax or distance modulus raised"),
"969182f":("C06","arithmetic and equality of prolate spheroidal positions lost or mangled the focal length"),
"0262965":("C09","indexing with an ellipsis and ravel of N-dimensional vectors indexed/flattened the component axis; too many indices were accepted"),
"6eed08c":("C08","N-dimensional vectors compared component by component instead of vector by vector"),
"ef93f2c":("C09","reshape of N-dimensional vectors with a tuple raised"),
"0df1d3f":("C09","quaxed broadcast_to dropped the component axis of N-dimensional vectors and gave prolate Delta a batch shape; reshape of prolate positions raised"),
"eff1208":("C08","comparing a position holding a Parallax/DistanceModulus with one holding a Distance raised"),
"5f5f47e":("C23","the norm of any 2D velocity raised; the norm of a Cartesian acceleration refused the velocity and position arguments every other acceleration needs"),
"92c6e8e":("C15","product and quotient of two angles, scalar / angle and tan(angle) raised"),
"6fc2b62":("C14","product and quotient of two distances, scalar / distance, distance-angle products and sin/cos of a parallax raised"),
"73c5d32":("C11","rotating a prolate spheroidal position reset its focal length / raised"),
"720fc50":("C11","translating a prolate spheroidal position and velocity lost the focal length / raised"),
"d708296":("C16","a parallax or distance modulus as radial component became a nonsense astropy representation"),
"1d2b4a9":("C16","ProlateSpheroidalPos.from_ of a mapping of astropy quantities raised"),
"d720185":("C18","converting a four-vector with scalar time and batched position to a quantity raised"),
"68a19bf":("C23","norm() of a spherical position given by a parallax or distance modulus was an angle or a magnitude; four-vector norm raised"),
"8733d87":("C26","a quantity with the wrong number of components was accepted: components dropped or invented"),
"4437b57":("C19","aliases of a dimension did not reach the member of a Space; dimension in space was always False"),
    "11a21fc": ("C04", "converting an acceleration whose velocity is prolate spheroidal raised"),
"8d3b83a": ("C23","norm() of a Cylindrical/LonLatSpherical/MathSphericalPos whose radius has a smaller batch shape than its angles dropped the batch shape (shape () instead of (4,))"),

"5c129b5": ("C24","convert(CartesianPosND, UncheckedQuantity / Distance / AbstractQuantity) returned shape (*batch, N, 1) instead of (*batch, N)"),

"13502d1":("C25","copying or pickling a FourVector (or an operator holding one) recursed without end"),
"9cdc4cd":("C28","TwoSpherePos/Vel/Acc converted to their own class recursed without end"),
"318ebcf":("C28","CartesianAccND at a velocity and position (and so a Space holding one) had no conversion to its own class"),
"cd4c056":("C26","FourVector accepted a speed of light c of any dimension when runtime type checking is off"),
"8793dbc":("C28","(placement only: the definition added by 318ebcf moved to the end of its file)"),
"182430d":("C27","abs() of a MathSpherical/LonLatSpherical position (a Distance) failed only when runtime type checking was on"),
"e1a3ea6":("C19","Space built with two vectors for one dimension (speed and velocity, name and dimension) silently dropped one"),
"0e89679":("C19","indexing a Space whose members have different (broadcastable) shapes paired the wrong points (or raised)"),
"8ef1be0":("C12","simplifying a boost of one or two dimensions raised"),
"c56d3b7":("C07","multiplying or dividing a vector by an empty array was accepted"),
"5bc5495":("C09","iterating over a vector never ended")}
f=[]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines():
    h,s=l.split(" ",1)
    if s.startswith("fix:"):
        m=[v for k,v in M.items() if h.startswith(k[:7])]
        m=m[0] if m else ("??",s)
        f.append(f"fixed: property={m[0]} {h} {m[1]}")
d=json.load(open("/verif/known_findings.json")); d["fixed"]=f
json.dump(d,open("/verif/known_findings.json","w"),indent=1); print(len(f)); print([x for x in f if '??' in x])
