"""Which contract files decide which property."""
LINE = ["Line.cpp", "Waves.cpp", "Misc.cpp", "IO.cpp", "Seafloor.cpp"]
SUBSEG = {"_ZN7moordyn4Line10calcSubSegEjjd": "stub_calcSubSeg", "_ZN7moordyn8Seafloor10getDepthAtEdd": "stub_depth"}
INV = [("Inverse", "C07 (the nodal mass matrix is invertible)")]
DEF3 = ["h_balance_bending"]


def line(f, defined_in=("none",)):
    return dict(file=f, tus=LINE, stubs=SUBSEG, defined_in=list(defined_in), defer=INV)

POINT = ["Point.cpp"] + LINE
ATT = {"_ZN7moordyn4Line16setEndKinematicsEN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES3_NS_9EndPointsE": "stub_setEndKinematics",
       "_ZNK7moordyn4Line11getEndStuffERN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES4_RNS2_IdLi3ELi3ELi0ELi3ELi3EEENS_9EndPointsE": "stub_getEndStuff"}


ROD = ["Rod.cpp"] + POINT
ATTR = dict(ATT)
ATTR["_ZN7moordyn4Line17setEndOrientationEN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEENS_9EndPointsES4_"] = "stub_setEndOrientation"


MOTION = {"_ZN7moordyn3Rod5doRHSEv": "stub_rodRHS", "_ZN7moordyn4Body5doRHSEv": "stub_bodyRHS",
          "_ZN7moordyn9solveMat6ERKN5Eigen6MatrixIdLi6ELi6ELi0ELi6ELi6EEERKNS1_IdLi6ELi1ELi0ELi6ELi1EEE": "stub_solve"}


def rod(f):
    return dict(file=f, tus=ROD, stubs=ATTR, bounded_stubs={}, bounded={"nA": (0, 1, 2), "nB": (1, 0, 2), "N": (1, 2, 3)})


BODY = ["Body.cpp"] + ROD
V3, V6, M6 = "N5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEE", "N5Eigen6MatrixIdLi6ELi1ELi0ELi6ELi1EEE", "NS2_IdLi6ELi6ELi0ELi6ELi6EEE"
ATTB = {"_ZN7moordyn5Point13setKinematicsE%sS3_" % V3: "stub_pointKin",
        "_ZN7moordyn3Rod13setKinematicsE%sS3_" % V6: "stub_rodKin",
        "_ZN7moordyn5Point18getNetForceAndMassER%sR%sNS2_IdLi3ELi1ELi0ELi3ELi1EEES3_" % (V6, M6): "stub_pointLoads",
        "_ZN7moordyn3Rod18getNetForceAndMassER%sR%sNS2_IdLi3ELi1ELi0ELi3ELi1EEES3_" % (V6, M6): "stub_rodLoads"}


def body(f):
    return dict(file=f, tus=BODY, stubs=ATTB, bounded_stubs={}, bounded={"nP": (0, 1, 2), "nR": (1, 0, 1)})


def point(f):
    return dict(file=f, tus=POINT, stubs=ATT, bounded_stubs={}, bounded={"nA": (0, 1, 2)})


SCHEME = {}
for a, b in ((1, 1), (1, 2), (2, 2), (5, 4), (1, 5), (2, 3)):
    SCHEME["_ZN7moordyn14TimeSchemeBaseILj%dELj%dEE6UpdateEdj" % (a, b)] = "stub_upd_%d%d" % (a, b)
    SCHEME["_ZN7moordyn14TimeSchemeBaseILj%dELj%dEE14CalcStateDerivEj" % (a, b)] = "stub_calc_%d%d" % (a, b)

N = "_ZN7moordyn"
DISPATCH = {N + "5Point8setStateE%sS3_" % V3: "stub_pState", N + "5Point14updateFairleadEd": "stub_pFair", N + "5Point13getStateDerivEv": "stub_pDeriv",
            N + "5Point5doRHSEv": "stub_pRHS", N + "3Rod8setStateENS_7XYZQuatE" + V6: "stub_rState", N + "3Rod14updateFairleadEd": "stub_rFair",
            N + "3Rod13getStateDerivEv": "stub_rDeriv", N + "3Rod5doRHSEv": "stub_rRHS", N + "4Body8setStateENS_7XYZQuatE" + V6: "stub_bState",
            N + "4Body14updateFairleadEd": "stub_bFair", N + "4Body13getStateDerivEv": "stub_bDeriv", N + "4Body5doRHSEv": "stub_bRHS",
            N + "4Body18setDependentStatesEv": "stub_bDep", N + "4Line8setStateESt6vectorI%sSaIS4_EES6_" % V3: "stub_lState",
            N + "4Line13getStateDerivEv": "stub_lDeriv", N + "5Waves11updateWavesEv": "stub_waves"}

FACTOR = {"_ZN7moordyn13interp_factorIdEEjRKSt6vectorIT_SaIS2_EEjRKS2_RS2_": "stub_factor"}

EULER = {}
DEPTH = {"_ZN7moordyn8Seafloor10getDepthAtEdd": "stub_depth"}

PROPS = {
    "C01": dict(contracts=[dict(file="c01_transfer.cc", tus=["Misc.cpp"])]),
    "C02": dict(contracts=[dict(file="c02_rotation.cc", tus=["Misc.cpp"])]),
    "C03": dict(contracts=[line("c03_line_internal.cc", ["h_balance_bending"])]),
    "C04": dict(contracts=[dict(file="c04_buoyancy.cc", tus=LINE), line("c04_weight.cc")]),
    "C05": dict(contracts=[line("c05_morison.cc")]),
    "C06": dict(contracts=[line("c06_seabed.cc")]),
    "C07": dict(contracts=[line("c07_dynamics.cc")]),
    "C08": dict(contracts=[dict(file="c08_line.cc", tus=LINE), point("c08_point.cc"), rod("c08_rod.cc"), body("c08_body.cc")]),
    "C09": dict(contracts=[point("c09_point.cc")]),
    "C10": dict(contracts=[dict(rod("c10_rod.cc"), stubs=dict(ATT, **SUBSEG), bounded_stubs=SUBSEG, defined_in=["none"]),
                        dict(rod("c10_motion.cc"), stubs=dict(ATT, **MOTION), bounded_stubs=SUBSEG, defined_in=["none"], defer=INV)]),
    "C11": dict(contracts=[body("c11_body.cc"),
                        dict(body("c11_motion.cc"), stubs=MOTION, bounded_stubs={}, defined_in=["none"], defer=INV)]),
    "C12": dict(contracts=[dict(file="c12_state.cc", tus=["State.cpp", "Misc.cpp"])]),
    "C13": dict(contracts=[dict(file="c13_schemes.cc", tus=["Time.cpp", "State.cpp", "Misc.cpp"], stubs=SCHEME, bounded_stubs=SCHEME)]),
    "C14": dict(level="other", bound="bounded: two objects of every kind; every type enumerated, every value symbolic; all obligations discharged deductively within that bound", contracts=[dict(file="c14_dispatch.cc", tus=["Time.cpp", "State.cpp", "Misc.cpp"], stubs=DISPATCH, bounded_stubs=DISPATCH, wrap=DISPATCH,
                                noinline=[N + "14TimeSchemeBaseILj2ELj2EE6UpdateEdj", N + "14TimeSchemeBaseILj2ELj2EE14CalcStateDerivEj"])]),
    "C15": dict(contracts=[dict(file="c15_factor.cc", tus=[], bounded={"n": (2, 3, 4)}),
                        dict(file="c15_tables.cc", tus=LINE, bounded={"n": (2, 3, 4)}, stubs=FACTOR, bounded_stubs={})]),
    "C16": dict(contracts=[dict(file="c16_line.cc", tus=LINE, bounded={"N": (1, 2, 3)}),
                        dict(file="c16_objects.cc", tus=BODY, stubs=EULER, bounded_stubs=EULER, bounded={"N": (1, 0, 2)})]),
    "C17": dict(assumptions=["harnesses h_wave_repeats, h_wave_last_interval*, h_current_repeats, h_current_last_interval are bounded (a series of three samples)", "the bottom is below the wave at the place looked up"], contracts=[dict(file="c17_grid.cc", tus=["Seafloor.cpp", "Waves.cpp", "Misc.cpp"], stubs=FACTOR, bounded_stubs={}, bounded={"nx": (1, 2, 3), "ny": (2, 1, 3)}),
                        dict(file="c17_water.cc", defined_in=["none"], tus=["Waves.cpp", "Seafloor.cpp", "Misc.cpp"], stubs=dict(FACTOR, **DEPTH), bounded_stubs=DEPTH, bounded={"nx": (1, 2, 1), "ny": (2, 1, 1), "nz": (2, 1, 2), "nt": (2, 3, 2)})]),
    "C18": dict(level="other", bound="bounded: two objects of every kind (lines and rods of any length), two spectral components; every value symbolic; all obligations discharged deductively within that bound", contracts=[dict(file="c18_water.cc", tus=BODY, bounded={"N1": (1, 2, 3), "N2": (2, 1, 3), "M1": (0, 1, 2), "M2": (1, 0, 2)}),
                        dict(file="c18_spectrum.cc", defined_in=["none"], tus=["Waves/SpectrumKin.cpp", "Misc.cpp"])]),
}

COUPLING = {N + "7MoorDyn9AllOutputEdd": "stub_output", N + "4Body20initializeUnfreeBodyE%sS3_S3_" % V6: "stub_unfree",
            N + "3Rod14updateFairleadEd": "stub_rodFair", N + "5Point14updateFairleadEd": "stub_pointFair",
            N + "3Rod10initializeEv": "stub_rodInit", N + "5Point10initializeEv": "stub_pointInit",
            N + "5Waves5setupESt10shared_ptrI7EnvCondES1_INS_8SeafloorEEPNS_10TimeSchemeEPKc": "stub_waterSetup"}
PROPS["C19"] = dict(level="other", bound="bounded: up to three coupled objects of every kind; any number of internal time steps, every value symbolic; all obligations discharged deductively within that bound", contracts=[dict(file="c19_coupling.cc", tus=["MoorDyn2.cpp", "Time.cpp", "State.cpp"] + BODY, stubs=COUPLING, bounded_stubs=COUPLING)])
