"""Observation points for C04 and C14."""

# points that are easily mistaken for each other: same hash, sum, norm, rounding, digits or set of coordinates
TWINS = [
    (3.0, -1.0, 2.5), (3.0, -2.0, 2.5), (-1.0, 3.0, -2.0), (-2.0, 3.0, -1.0), (-1.0, 3.0, -1.0), (2.5, 3.0, -1.0), (-3.0, 1.0, -2.5), (3.0, 1.0, 2.5),
    (3.0, 1.0, 2.5 + 2e-9), (3.0, 1.0, 2.5 - 2e-5), (2.75, 1.25, 2.5), (0.0, 3.0, 4.0), (-0.0, 3.0, 4.0), (4.0, 3.0, 0.0), (0.0, 0.0, 5.0), (0.0, -0.0, -5.0),
    (1.0, 12.0, 3.0), (11.0, 2.0, 3.0), (1.0, 2.0, 13.0), (1e-9, 3.0, 4.0), (3.0, 2.5, 1.0),
]
