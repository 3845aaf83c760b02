import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))
PH="geec/polyhedron.py"
p("C01","Gravity is the Newtonian attraction of the body, everywhere",
"For every convex body and every observation point - outside, inside, on a face, edge or vertex, in the plane of a face, in line with an edge, near or far - the computed gravity is the Newtonian attraction of the homogeneous body in mGal, to the accuracy that the rounding of the coordinates allows. It is always finite.",
["inputs"],"every solid body x every observation point x every position, size and orientation in space",
"the tests compare one cube at a handful of points with stored numbers; degenerate views (coplanar, collinear, on the boundary), other shapes, scales and Earth-fixed coordinates are never reached",
[PH],[("solid angle, line integral and gravity of a face; sum over faces",PH),("body gravity",PH+": Polyhedron.get_gravity")],obs=["Polyhedron.get_gravity","Station.compute_gravity"])
p("C02","Gravity gradients are the exact, symmetric tensor off the body's surface",
"For every convex body and every observation point off its surface, the computed gradients are the second derivatives of the potential in Eotvos: a symmetric tensor whose trace is zero outside and -4*pi*G*density inside, also in the plane of a face or in line with an edge, exactly or up to rounding. When gradients are not requested they are zero and gravity is the same.",
["inputs"],"every solid body x every observation point off its surface x every position, size and orientation in space",
"the tests hold one cube's stored tensor at a few points; views for which the closed form is singular are not sampled",
[PH],[("derivatives of solid angle and line integrals",PH),("gradient of the body",PH+": Polyhedron.get_gravity")],obs=["Polyhedron.get_gravity(gradient=True)"])
p("C03","A body built from a point cloud is its closed, outward-oriented convex hull",
"From any non-flat set of points, in any order, with duplicates, interior points and points in the middle of edges and faces, in any numeric array layout, the body built is the boundary of the convex hull: every face lies on the hull, is oriented outward, every edge is shared by two faces, and the enclosed volume is that of the hull. The field depends only on that body.",
["inputs"],"every finite point cloud, order of its points, and array layout",
"the tests build one cube; other incidences of points, orders, duplicates and orientations are not built",
[PH],[("convex hull, outward orientation of the simplices",PH+": Polyhedron.__init__"),("shared edges and faces",PH)],obs=["Polyhedron.faces, edges, points","Polyhedron.get_gravity"])
p("C04","A result never depends on earlier, failed or interrupted computations",
"The field computed for a body at a point depends only on the body, the point, density, gravitational constant and the gradient option: never on the computations made before with the same or other bodies, on their failure or interruption at any moment, on arrays the caller modified afterwards, or on results the caller overwrote, nor on computations made at the same time in other threads with other bodies, nor on the body having been printed or copied.",
["histories","crash_points","schedules"],"every sequence of computations, failures and modifications of arrays by the caller, every point of interruption, and every interleaving of two threads",
"the tests compute on a fresh body each time; the per-edge and per-face caches make every computation stateful, which only sequences expose",
[PH,"geec/station.py"],[("per-edge and per-face cached integrals, reset between computations",PH)],[("cached integrals of edges and faces","left over from the last observation point",PH)],["Polyhedron.get_gravity","Station.compute_gravity"])
p("C05","Superposition: fields of bodies add up and scale with density",
"The field at a station is the sum of the fields of all bodies it was asked to compute, each once per request, in any grouping and order; it is proportional to density and gravitational constant, of either sign; and cutting a body into pieces does not change the total. A refused request leaves the station unchanged.",
["histories","inputs"],"every sequence of requests on any number of stations, every list of bodies, density and constant, every dissection of a body",
"the tests compute one body with one density at one station",
["geec/station.py",PH],[("accumulation over bodies","geec/station.py: Station.compute_gravity"),("scaling by density and constant",PH)],[("accumulated field of the station","sum so far","geec/station.py")],["Station.G","Station.T"])
p("C06","The field does not depend on the choice of axes, origin or length unit",
"Rotating, reflecting or translating body and observation point together, or changing the unit of length, transforms gravity as a vector and the gradients as a tensor, to the accuracy of the coordinates.",
["inputs"],"every body and observation point x every rigid motion, reflection and scale",
"the tests keep a single axis-aligned unit cube near the origin; absolute thresholds and axis-dependent branches only show elsewhere",
[PH],[("formulas in terms of differences and relative thresholds",PH)],obs=["Polyhedron.get_gravity"])
p("C07","What is not a solid body, a point or a list of bodies is refused",
"Points that do not span a volume (too few, coincident, collinear, coplanar), bodies with non-finite coordinates, arrays of the wrong shape (also of observation points) and objects of the wrong type are refused with an error; no number is ever returned for them, nor a finite gravity for an observation point with non-finite coordinates; the interpreter never crashes, and the station is unchanged.",
["inputs"],"every flat point set, non-finite coordinate, array shape and argument type",
"the tests try one wrong type per class",
[PH,"geec/station.py","geec/utils.py"],[("argument checks",PH+": Polyhedron.__init__"),("argument checks","geec/station.py")],obs=["Polyhedron()","Station()","Station.compute_gravity"])
p("C08","Coordinate conversions never move a point",
"After any sequence of conversions between geodetic coordinates on any ellipsoid, local east-north-up frames at any origin and Earth-fixed Cartesian coordinates, each point is at the same physical place to a fraction of a millimetre, and the coordinate system attached to the data is the one the coordinates are in. Plain Cartesian data are never changed, and converting one data set never affects another.",
["histories","inputs"],"every sequence of conversions from every initial coordinate system, every batch of points of the Earth up to 100 km, every set of live data sets",
"there is no effective test of coordinate conversion: the module cannot even be imported by the test suite without the geoid grids",
["geec/crs.py","geec/dataset.py","geec/mass.py","geec/observer.py"],[("pairwise conversions that update the descriptor","geec/crs.py"),("dispatch on the current system","geec/dataset.py: Dataset.to_*"),("lists of masses","geec/mass.py")],[("coordinate system descriptor","system, ellipsoid, local origin, vertical datum","geec/crs.py: CRS")],["Dataset.coords, Dataset.crs","Mass.dataset","Observer.dataset"])
p("C09","Orthometric heights are converted once, with the geoid they refer to",
"Converting heights (of a data set, a mass, observers or a list of masses) adds the geoid height of the configured vertical datum at each point's own longitude and latitude, nothing for ellipsoid heights, and marks the data so that converting again changes nothing. Coordinates that are not geodetic are left alone, and each mass uses its own datum.",
["histories","inputs"],"every vertical datum, position, batch, list of masses, and sequence of height and other conversions",
"no test reads a geoid",
["geec/crs.py","geec/dataset.py","geec/mass.py"],[("geoid lookup and datum reset","geec/crs.py: ellipsoid_height"),("dispatch","geec/dataset.py: Dataset.to_ellipsoid_height")],[("vertical datum of the descriptor","what heights refer to","geec/crs.py: CRS.vdatum")],["Dataset.coords","Dataset.crs"])
p("C10","Longitudes are wrapped to -180..180 and nothing else is touched",
"Wrapping maps every longitude in (180, 360] to the same meridian in (-180, 0], leaves every longitude in [-180, 180] exactly as it is, and changes no latitude, height, other point, or coordinates that are not geodetic. Wrapping again changes nothing.",
["inputs","histories"],"every longitude between -180 and 360 at every position in every batch, every coordinate system",
"no test wraps a longitude",
["geec/crs.py","geec/dataset.py"],[("wrap of the first column","geec/crs.py: wrap180"),("dispatch on the coordinate system","geec/dataset.py: Dataset.to_lon180")],obs=["Dataset.coords"])
p("C11","A coordinate system is understood as configured, or refused",
"Every description of a coordinate system (reference in any letter case, named ellipsoid or pair of axes, vertical datum, local origin; null or missing where a default is documented) is understood as exactly the documented system, a named ellipsoid taking precedence over axes and WGS84 being the default; every description with an unknown reference, ellipsoid or datum or an incomplete local origin is refused, as is a local frame on another ellipsoid than its system's. The answer never depends on descriptions read before.",
["configurations","histories"],"every combination of reference, ellipsoid, axes, vertical datum and origin, and every order of reading them",
"no test reads a coordinate system from a configuration",
["geec/crs.py"],[("readers of the settings","geec/crs.py: read_ref, read_vdatum, read_ellipsoid_parameters, read_enu_parameters"),("factory","geec/crs.py: get_crs")],obs=["get_crs","get_dataset"])
p("C12","Each setting comes from the most specific configuration that gives it",
"Each individual setting has the value given in the file named on the command line, else the one in the user's own configuration, else the packaged default; an explicit null counts as given, and the number of masses is that of the most specific list. Files that are missing or cannot be parsed are refused, and no value survives from an earlier set-up.",
["configurations","histories"],"every distribution of the settings over the three layers, and every sequence of set-ups",
"the tests load no configuration",
["geec/config.py","geec/cfg/config_default.yaml","geec/mass.py"],[("layering","geec/config.py: setup, _default_setup")],[("configuration layers","given file, user's file, default","geec/config.py")],["values read from the configuration"])
p("C13","The points of a body or of the observers are exactly those given",
"The coordinates used are the inline points if there are any, else the rows of the file, else the half-open regular grid with the last axis varying fastest: every point, in order, as floating-point numbers whatever way they are written. A missing file or the absence of any source is an error, never an empty or stale set, and every mass has its own points, density and constant.",
["configurations","inputs"],"every combination of sources, every spelling and layout of numbers, every grid, every list of masses",
"the tests read no points",
["geec/dataset.py","geec/mass.py","geec/observer.py"],[("choice and reading of the source","geec/dataset.py: _read_coords"),("list of masses","geec/mass.py: get_masses")],obs=["Dataset.coords","Mass.density","Mass.gravity_constant"])
p("C14","The result file is the field of the configured bodies at the configured points",
"A run writes one row per observation point, in order, under a line of names and a line of units: its position (as given for Cartesian points, else WGS84 longitude, latitude and ellipsoid height), the gravity in mGal and the gradients in Eotvos of all masses together, each with its own points, coordinate system, vertical datum, density and constant, in Earth-fixed axes (or the given axes for Cartesian data). Gradients are zero unless requested, and a run does not depend on earlier runs.",
["configurations","histories"],"every list of masses and observers over all coordinate systems, datums and sources, with and without gradients, and every sequence of runs",
"no test runs the program",
["geec/cli.py","geec/mass.py","geec/observer.py","geec/dataset.py","geec/crs.py","geec/station.py","geec/api.py"],[("the run command","geec/cli.py: run"),("writing the table","geec/api.py: write_file")],obs=["result file of geec run"])
p("C15","A run writes the complete result or fails, says so, and leaves files alone",
"Whatever goes wrong - invalid settings, missing files, flat bodies, an error or interruption at any moment of the computation, an unwritable destination - the run ends with a non-zero exit status, the previous result is still there unchanged (or the new one is complete; only a failure while the result itself is being written may leave it incomplete), and no input file is modified. A successful run replaces the whole previous content of the requested path with extension .csv, creating folders as needed, and touches nothing else.",
["fault_sequences","crash_points","configurations"],"every point of failure of a run, every invalid setting, every previous content and spelling of the output path",
"no test runs the program, let alone a failing one",
["geec/cli.py","geec/api.py","geec/config.py","geec/dataset.py"],[("compute everything before writing","geec/cli.py: run"),("path handling","geec/api.py: write_file")],obs=["exit status","files"])
p("C16","The configuration template is complete, faithful and runs as it is",
"The template command writes the packaged template unchanged to the requested path with extension .yaml (by default in the working directory), whatever the user's own configuration or the previous content, and touches nothing else; if anything fails before the file itself is written, the previous content stays and the exit status is non-zero. The template gives every setting a run reads, so that no default or user value shows through, and a run with it, as it is or after editing any documented setting, gives the field it describes.",
["configurations","crash_points"],"every output path, previous content, user configuration and point of failure; every edit of the documented settings",
"no test writes or uses the template",
["geec/cli.py","geec/cfg/config_template.yaml","geec/config.py"],[("the config command","geec/cli.py: config"),("template","geec/cfg/config_template.yaml")],obs=["template file","result file of geec run"])
p("C17","The log of a run shows the settings it used, and logs are kept",
"Every run and template command writes one new log file, in the folder that `geec --log` names, and never changes or removes earlier ones. A run logs, under its name, the value it uses of each setting of every mass, in order, and of the observers. Showing a configuration changes nothing; asking for the version or for the log folder writes no log.",
["configurations","histories"],"every distribution of the settings over the three layers, every number of masses, and every sequence of commands",
"no test runs a command",
["geec/config.py","geec/api.py","geec/cli.py"],[("log of the settings","geec/config.py: show"),("one log file for each command","geec/api.py: setup_logger, setup_logdir"),("version and log options","geec/cli.py: main")],[("log folder","logs of all commands so far","geec/api.py: setup_logdir")],["log files","output of geec --log, --version"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
H={r.split()[0]:r for r in __import__('subprocess').check_output(['git','-C','/repo','log','--oneline'],text=True).splitlines()}
techs={
"C01":"exhaustive enumeration of bodies x frames x observation points on the real code, against an exact reference model",
"C02":"exhaustive enumeration of bodies x frames x observation points on the real code, against an exact reference model",
"C03":"exhaustive enumeration of lattice point clouds, orders and layouts on the real code, against an exact rational hull",
"C04":"bounded model checking of operation sequences and interruption points on the real code",
"C05":"bounded model checking of operation sequences; exhaustive dissections",
"C06":"exhaustive enumeration of motions x bodies x points on the real code",
"C07":"exhaustive enumeration of degenerate inputs on the real code",
"C08":"explicit-state exploration of all conversion sequences on the real code against an abstract machine",
"C09":"explicit-state exploration of conversion sequences on the real code against an abstract machine",
"C10":"exhaustive enumeration of longitudes and batches on the real code",
"C11":"exhaustive enumeration of configurations and reading histories on the real code",
"C12":"explicit-state exploration of configuration layers and set-up histories on the real code",
"C13":"exhaustive enumeration of sources, spellings and grids on the real code",
"C14":"exhaustive enumeration of run configurations and run histories on the real program, against a reference model",
"C15":"exhaustive fault injection: every executed line, byte of output and invalid setting, on the real program",
"C16":"exhaustive enumeration of output paths, user configurations and edits on the real program",
"C17":"explicit-state exploration of configuration layers and command histories on the real program",
}
import importlib,sys
sys.path.insert(0,'/verif/mc')
M={"version":1,"setup_cmd":"/opt/venv/bin/python -B -c \"import numpy, scipy, numba, pandas, confuse, pymap3d, pygeodesy, typer, yaml\"","checks":[],"not_applicable":[],
"notes":"All checks run the code of /repo's working tree in-process (no build step is needed: pure Python with numba kernels compiled on first use). KNOWN_FINDINGS.txt lists the defects repaired in /repo."}
for x in P:
    m=importlib.import_module(x["id"].lower())
    i=x["id"]
    M["checks"].append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i} thorough",technique=techs[i],level=m.LEVEL,
      level_note="Every case within the bounds is executed on the real code and judged. Bounds (quick): "+m.BOUNDS["quick"]+". Assumes: "+"; ".join(m.ASSUMPTIONS)+"."))
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
