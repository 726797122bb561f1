#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (kept in one place so that they stay in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LN = "source/Line.cpp"
TESTS = "The repository's tests run a handful of fixed moorings and compare to stored curves with loose tolerances"
P = []
NA = []
LINEHOW = "contracts/%s: the real Line::getStateDeriv is executed symbolically on a line with a symbolic number of segments in an arbitrary state; the postcondition is stated for an arbitrary node/segment k. Callee calcSubSeg (and the bathymetry lookup) through its contract. %s"
HOW = {
    "C01": "contracts/c01_transfer.cc: each helper is called on arbitrary real vectors/matrices and compared with the textbook rigid-body formula (work/energy form); polynomial identities, discharged by normal form.",
    "C02": "contracts/c02_rotation.cc: properness (R Rᵀ = 1, det = 1), agreement of the Euler and quaternion routes on every vector, round trips per branch of the conversion; trigonometric polynomials and case splits.",
    "C03": LINEHOW % ("c03_line_internal.cc", "Linear and bending cases are separate harnesses; definedness (every division and square root) is discharged in h_balance_bending."),
    "C04": "contracts/c04_buoyancy.cc for the wetted fraction (one harness per position of the two ends relative to the surface), contracts/c04_weight.cc for the nodal weight.",
    "C05": LINEHOW % ("c05_morison.cc", "Energy sign is a lemma over the same decomposition."),
    "C06": LINEHOW % ("c06_seabed.cc", "Flat seabed and arbitrary bathymetry."),
    "C07": LINEHOW % ("c07_dynamics.cc", "Positive definiteness is a lemma over the proved form of the matrix."),
}


def prop(id, title, st, over, text, why, files, mech, note, observe=()):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None), note=note))


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


prop("C01", "Rigid-body transfer of kinematics, forces and inertia between points",
     "Moving a velocity, a force, a mass or a 6x6 inertia from one reference point of a rigid body to another, or rotating it, is the exact rigid-body transformation: the transferred force has the same resultant and the moment increased by arm x force, and the transferred inertia applied to any rigid motion gives the force and moment the original inertia gives.",
     ["inputs"], "for every offset vector, force, mass matrix, inertia matrix, rotation matrix and rigid motion",
     TESTS + "; the unit tests of these helpers evaluate one hand-picked matrix each.",
     ["source/Misc.cpp", "source/Misc.hpp"],
     [("translateForce3to6, translateMass3to6, translateMass6to6, rotateM6, transformKinematics, getH", "source/Misc.cpp, source/Misc.hpp")],
     "every obligation is an equation between real-valued expressions, discharged for all inputs")
prop("C02", "Rotation conversions are consistent, proper and lose nothing",
     "Rotation matrices built from Euler angles or from unit quaternions are proper rotations; converting Euler angles to a quaternion (or a position-and-orientation six-vector to its quaternion form) and rotating a vector with either gives the same vector, and converting back gives the same orientation wherever the angles are in their principal range. Unit-vector and length-rescaling helpers return the same direction with the requested length.",
     ["inputs"], "for every roll, pitch, yaw, every unit quaternion and every vector",
     TESTS + "; conversions are sampled at a few angles.",
     ["source/Misc.cpp", "source/Misc.hpp"],
     [("RotXYZ, Euler2Quat, Quat2Euler, XYZQuat::fromVec6/toVec6, unitvector, scalevector, orientationAngles", "source/Misc.cpp, source/Misc.hpp")],
     "trigonometric functions enter through their algebraic identities")
prop("C03", "Line axial, damping and bending internal loads and nodal force balance",
     "In every line and at every call, a segment pulls along its own axis with EA times its strain when stretched and exerts no elastic axial force when slack, and its internal damping is along the axis and proportional to the elongation rate. The force on each node is exactly the tension and damping of its adjacent segments (with opposite signs at the two ends of a segment) plus the node's own external and bending loads, the bending forces of a line add up to zero, and the curvature of an inner node is never negative and is that of the circle through its two segments.",
     ["inputs", "configurations", "histories"], "for every number of segments, every node and segment, every state of the line and every end type",
     TESTS + "; they use a few lines with a fixed number of segments, mostly without bending stiffness.",
     [LN, "source/Line.hpp"], [("tension, damping, bending and net force loops of Line::getStateDeriv; GetCurvature; unitvector", LN + ", source/Misc.hpp")],
     "for symbolic N (loop summaries are inferred and checked); lines with constant EA, EI and damping; adjacent nodes distinct")
prop("C04", "Line submergence fraction and submerged weight",
     "The wetted fraction of a segment always lies in [0,1]: it is 1 when both ends are under water, 0 when both are above, and in between the wetted share of the height spanned by the inclined cylinder. The net weight of every node is vertical and equals half the dry weight minus the buoyancy of the wetted part of each adjacent segment.",
     ["inputs", "configurations"], "for every segment position, inclination, diameter, water level, and every node of a line with any number of segments",
     TESTS + "; partially submerged segments occur in one test at a few positions.",
     [LN], [("Line::calcSubSeg", LN), ("weight in Line::getStateDeriv", LN)],
     "in the weight obligations the wetted fraction enters through its proved contract")
prop("C05", "Line hydrodynamic loads follow Morison's equation and never add energy",
     "For every node of a line, the tangential and transverse drag are the Morison drag of the relative flow velocity decomposed along and across the node tangent, scaled by the wetted length; the fluid inertia forces are the Froude-Krylov plus added-mass forces of the fluid acceleration; pressure bending equals net internal pressure times curvature. The node tangent joins the neighbouring nodes (or is the imposed direction at a clamped end), and drag power against the relative velocity is never negative.",
     ["inputs", "configurations"], "for every number of segments, node, fluid velocity, acceleration, pressure and line state",
     TESTS + "; drag directions and end nodes are only seen through integrated trajectories.",
     [LN], [("drag, inertia and pressure terms of Line::getStateDeriv", LN)],
     "the wetted fraction enters through its contract (proved in C04)")
prop("C06", "Line seabed contact and friction",
     "A line node above the local seabed feels no seabed force. A node below it gets a vertical reaction of stiffness times penetration minus damping times vertical velocity (per unit of contact area) and a friction force opposite to its horizontal velocity, viscous at low speed and saturating at the Coulomb force, and none when it does not move horizontally.",
     ["inputs", "configurations"], "for every node of a line with any number of segments, any seabed (flat or bathymetry) and any state",
     TESTS + "; friction signs and the static/dynamic transition are not asserted.",
     [LN], [("bottom contact in Line::getStateDeriv", LN)],
     "for bathymetry the local depth is an arbitrary function of position (its contract is proved in C17)")
prop("C07", "Line node mass and equation of motion",
     "The mass matrix of every node is the structural mass of the adjacent half segments plus the added mass of their wetted part along and across the tangent, it is symmetric and positive definite, and the accelerations returned for the inner nodes solve mass times acceleration = net force. The returned position derivatives are the node velocities, and computing the derivatives does not move the line.",
     ["inputs", "configurations"], "for every number of segments, every inner node and every state of the line",
     TESTS + "; individual accelerations are never checked.",
     [LN], [("mass matrix and acceleration loops of Line::getStateDeriv", LN)],
     "Eigen's 3x3 inverse is verified through its own code, not assumed")

exec(open(V + "/tools/props_more.py").read()) if os.path.exists(V + "/tools/props_more.py") else None

BOUNDED = {"C14","C18","C19"}
TECH = "contract-based deductive verification: verification conditions generated function by function from the LLVM IR of /repo's current C++ and discharged by mdv (normal forms, sign analysis) and z3"
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
man = dict(version=1, setup_cmd="python3-vt -c 'import z3' && test -x /usr/bin/clang++-18",
           checks=[dict(property=p["id"], quick_cmd="python3-vt mdv/check.py %s" % p["id"], thorough_cmd="python3-vt mdv/check.py %s --tier thorough" % p["id"],
                        technique=TECH, level="other" if p["id"] in BOUNDED else "proof",
                        level_note=("Bounded: all obligations are discharged for all values, with the stated bound on the number of objects or elements; " if p["id"] in BOUNDED else "All obligations of the contracts are discharged for all inputs and all loop iterations over real arithmetic; ") + p["note"] +
                        ". Trusted: clang front end, mdv's IR semantics and prover, z3; floating point treated as exact reals.") for p in P if not any(n["property"] == p["id"] for n in NA)],
           not_applicable=NA, notes="No hooks in /repo: contracts live in /verif/contracts and call the real functions. See DESIGN.md.")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties")

# ------------------------------------------------------------------ DESIGN.md
import glob
head = open(V + "/tools/design_head.md").read()
rows = []
for p in P:
    rows.append("### %s %s\n\n%s\n\n*Quantifier:* %s. *Anchors:* %s.\n\n*How it is decided:* %s\n" % (
        p["id"], p["title"], p["statement"], p["quantifier"]["text"], "; ".join("%s (%s)" % (m["name"], m["where"]) for m in p["anchors"]["mechanism"]), HOW.get(p["id"], p["note"])))
for n in NA:
    rows.append("* not applicable: %s: %s\n" % (n["property"], n["reason"]))
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
seeds = ["| change | property | needs | breaks | outcome |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    i = m.split("/")[-2]
    seeds.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["needs"], d["what_it_breaks"], caught.get(i, "not yet run")))
defects = []
for L in open(V + "/known_findings.jsonl"):
    if L.startswith("{"):
        d = json.loads(L)
        defects.append("* %s" % d["what"])
with open(V + "/DESIGN.md", "w") as f:
    f.write(head.replace("DESIGN_TABLE", "\n".join(rows)).replace("SEED_TABLE", "\n".join(seeds)).replace("DEFECTS", "\n".join(defects)))
