"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "TLA+ RepMachine behaviours (TLC -simulate) replayed on emlp; recorded actions validated by TLC against TraceRep; RepCanon model checked",
 "C02": "TLA+ RepMachine behaviours replayed; recorded Lie algebra actions validated by TLC against TraceRep",
 "C03": "TLC model checking of RepCanon (all factor orders) and trace validation of canonicalize() against RepMachine",
 "C04": "TLA+ RepMachine behaviours replayed; pairwise equality and hash answers validated by TLC against TraceRep",
 "C05": "TLA+ histories of expressions and basis queries replayed; recorded bases validated by TLC against exact invariant dimensions and generators of Groups.tla",
 "C06": "TLA+ histories of expressions and projector queries replayed; recorded projectors validated by TLC (TraceSolve)",
 "C07": "TLC model checking of SolCache and replay of query histories sharing one process, every answer validated by TLC against the history-free denotation",
 "C08": "TLA+ catalogue of documented groups (Groups.tla, GroupTerms.tla); histories of constructors generated by TLC replayed, recorded generators validated by TLC against TraceGroups",
 "C09": "TLA+ histories of constructors and sample requests replayed; recorded samples validated by TLC against the membership and coverage predicates of GroupTerms",
 "C11": "TLC model checking of the allocation process (AllocModel, with a broken variant that must fail) and replay of TLC generated requests; every allocation validated by TLC against Alloc.tla",
 "C12": "TLA+ NetMachine histories replayed; every gated layer evaluation validated by TLC (which gate scales which coordinates)",
 "C13": "TLA+ NetMachine histories replayed; bilinear matrices and layers validated by TLC in exact arithmetic against the representation matrices of Rep.tla",
 "C14": "TLA+ NetMachine histories replayed in four backends; applied weights validated by TLC against generators and invariant spaces of Groups.tla",
 "C15": "TLA+ NetMachine histories; inputs and their images under generators computed by TLC, networks evaluated before and after training, outputs validated by TLC against the actions of Groups.tla",
 "C18": "TLA+ NetMachine histories; augmented batches validated by TLC in exact arithmetic with the group elements used",
 "C10": "TLA+ OpMachine histories (TLC -simulate) over linear operators replayed; every dense form, product, transpose, adjoint and gradient validated by TLC against exact dense algebra",
 "C19": "TLA+ model of the rank search (Krylov) and replay of histories with iterative solves, validated by TLC like C05",
}
NOTE = {
 "C01": "Every recorded matrix, size, and product is compared exactly (integers modulo a prime) with the denotation in Rep.tla; explores random programs of up to 14 operations over 8 groups and 5 kinds of base representation, each shard under its own hash seed.",
 "C02": "As C01, for the Lie algebra action, including the default derivative of custom representations.",
 "C03": "The design model is explored exhaustively within small constants for every total order of the factors; canonical forms returned by the code are checked for conjugation, idempotence and uniqueness in random programs.",
 "C05": "Every recorded basis must be orthonormal, annihilated by the generators as the specification defines them, and have exactly the dimension TLC computes by elimination modulo a prime; 53 groups including embeddings, products and complex groups; tolerance 4e-3.",
 "C06": "Hermitian, idempotent, correct trace and range, equal under repeated queries, consistent on vectors and matrices; same groups as C05.",
 "C07": "Histories of about 40 operations and questions over confusable groups, every answer judged without the history; earlier objects re-read.",
 "C19": "The iterative solver is called directly and through the size threshold; a loud failure is retried, silence with a wrong space is a violation.",
 "C08": "Every constructor with several parameters plus random nested products and embeddings; Lie algebra independence and dimension, generated finite parts, defining forms, flags and equality decided in TLA+ from the recorded generators.",
 "C09": "Samples of every constructor: membership, shape for any number of samples, repeated samples differ, coverage of components, of signs of Lie algebra directions and of small finite groups.",
 "C11": "All 53 groups, channel counts 1 to 600; every per rank number, split and dimension compared with the specification.",
 "C12": "Every coordinate is attributed to its gate by values that single out one gate; four backends, single inputs and batches, random hidden representations of one group, with repeated components in any order.",
 "C13": "Integer parameters and inputs make all comparisons exact; number of parameters, effect of each, linearity and equivariance under random group elements, four backends.",
 "C14": "Random raw weights and biases: the applied map must be equivariant and differ from the raw one by something orthogonal to all equivariant maps.",
 "C15": "Random configurations (channels, representations, lists), four backends, variants (ODE, Hamiltonian, normalization), phases init, set and train; discrete generators and Lie algebra directions.",
 "C18": "Quadratic models with integer coefficients over random representations; each row checked with its own recorded group element; also equivariant models under the library's own sampling.",
 "C10": "Random programs of operators up to 12 by 12 with Gaussian integer entries, compared exactly, eagerly and under jit, with the operands re-read at the end of each history.",
 "C04": "All pairs of registers of random programs, compared and hashed; equality must imply the same denotation, identical expressions must be equal; plus all pairs of constructed groups.",
}
TECH.update(json.load(open(os.path.join(V, "checks", "tech.json")))["tech"] if os.path.exists(os.path.join(V, "checks", "tech.json")) else {})
NOTE.update(json.load(open(os.path.join(V, "checks", "tech.json")))["note"] if os.path.exists(os.path.join(V, "checks", "tech.json")) else {})
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH:
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i, thorough_cmd="python3 checks/run.py %s thorough" % i,
                           technique=TECH[i], level="model_checking", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason="not claimed yet: its specification is being written"))
json.dump(dict(version=1, setup_cmd="python3 checks/setup.py", hooks=dict(guard="VERIF_UNUSED", enable="no hooks: the public API exposes the abstract state"),
               checks=checks, not_applicable=na,
               notes="TLA+ specifications in spec/, conformance drivers in harness/, orchestration in checks/. See DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
