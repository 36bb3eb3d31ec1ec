"""The groups of the solver checks: name (as in spec/SolveTab.tla) -> constructor."""
import emlp.groups as EG

MAKE = {
    "Tri2": lambda: EG.Trivial(2), "SO2": lambda: EG.SO(2), "SO3": lambda: EG.SO(3), "O2": lambda: EG.O(2),
    "O3": lambda: EG.O(3), "SO4": lambda: EG.SO(4), "S2": lambda: EG.S(2), "S3": lambda: EG.S(3), "S4": lambda: EG.S(4),
    "Z2": lambda: EG.Z(2), "Z3": lambda: EG.Z(3), "Z4": lambda: EG.Z(4), "Z5": lambda: EG.Z(5),
    "C3": lambda: EG.C(3), "C4": lambda: EG.C(4), "C5": lambda: EG.C(5), "C60": lambda: EG.C(60), "C420": lambda: EG.C(420), "D60": lambda: EG.D(60), "D3": lambda: EG.D(3), "D4": lambda: EG.D(4),
    "D6": lambda: EG.D(6), "Sca2": lambda: EG.Scaling(2), "Par": lambda: EG.Parity(), "TR": lambda: EG.TimeReversal(),
    "SO13p": lambda: EG.SO13p(), "SO13": lambda: EG.SO13(), "O13": lambda: EG.O13(), "SO11p": lambda: EG.SO11p(),
    "O11": lambda: EG.O11(), "GL2": lambda: EG.GL(2), "SL2": lambda: EG.SL(2), "SL3": lambda: EG.SL(3),
    "Sp1": lambda: EG.Sp(1), "Sp2": lambda: EG.Sp(2), "U1": lambda: EG.U(1), "U2": lambda: EG.U(2),
    "SU2": lambda: EG.SU(2), "SU3": lambda: EG.SU(3), "Cube": lambda: EG.Cube(), "Zks22": lambda: EG.ZksZnxZn(2, 2),
    "EmbA": lambda: EG.Embed(EG.S(2), 4, slice(0, 2)), "EmbB": lambda: EG.Embed(EG.S(2), 4, slice(2, 4)),
    "EmbC": lambda: EG.Embed(EG.SO(2), 3, slice(1, 3)), "EmbD": lambda: EG.Embed(EG.D(3), 3, slice(0, 2)),
    "EmbE": lambda: EG.Embed(EG.SL(2), 3, slice(0, 2)), "EmbF": lambda: EG.Embed(EG.SO(2), 3, slice(0, 2)),
    "ZxS": lambda: EG.Z(2) * EG.S(3), "SxZ": lambda: EG.S(3) * EG.Z(2), "SOxS": lambda: EG.SO(2) * EG.S(2),
    "SLxZ": lambda: EG.SL(2) * EG.Z(2), "Rub": lambda: EG.RubiksCube(),
}
ORTH = set("Tri2 SO2 SO3 O2 O3 SO4 S2 S3 S4 Z2 Z3 Z4 Z5 C3 C4 C5 C60 C420 D60 D3 D4 D6 Par TR Cube Zks22 EmbA EmbB EmbC EmbD EmbF ZxS SxZ SOxS Rub".split())
PERM = set("Tri2 S2 S3 S4 Z2 Z3 Z4 Z5 Cube Zks22 EmbA EmbB ZxS SxZ Rub".split())
