"""C02: the gravity gradient is the exact tensor off the boundary of the body."""
import field
import geom

ID = "C02"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all non-degenerate corner subsets of a cube x 125 lattice points; 48-symmetry representatives"
    " and 14 special bodies, 2 with tiny features, 3 bodies of 332 to 620 faces x 19 frames (scales 1e-6..1e6, rotations, ECEF offsets) x lattice / near-boundary"
    " (1e-2..1e-8 off faces, planes, edge lines) / far points; tetrahedra of {0,1,2}^3 modulo symmetry",
    "thorough": "as quick with 343 lattice points, every frame for every family, all 4-subsets and all"
    " 5-subsets modulo symmetry of {0,1,2}^3",
}
ASSUMPTIONS = [
    "reference: Werner & Scheeres closed form in 80-bit arithmetic on an exact rational convex hull",
    "tolerance 2e-12*(1+distance/edge distance)*sqrt(faces) plus coordinate rounding over edge distance, relative to G*rho",
]


def setup():
    geom.load()


def tasks(tier):
    return field.universe(tier, True)


def run_task(task, ctx):
    field.explore(task, ctx, "T")


def run_case(case, ctx):
    field.replay_case(case, ctx, "T")
