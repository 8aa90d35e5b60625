#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SETUP = "bash setup.sh"
TECH = "abstract interpretation of the type-checked source into value graphs, compared with a reference value graph"
NOTE = ("Static and complete over inputs, parameters and randomness at the level of the value graphs; trusts the library models "
        "(ring, big.Int, SHAKE, transcript) and the reference formulation in /verif/spec; integers are mathematical. ")
P = []
HOW = {
    "J01": "The arguments of every challenge in both `Verify` and `Evaluate` (code order, dependence on loops over columns, rows and polynomials) are compared with one absorbed-transcript list; leaving out, reordering or moving an absorption behind a challenge is a difference.",
    "J02": "The boolean result of `Verify` is compared with one conjunction: shapes, outer and inner commitment equations, the four norm bounds, consistency of response, partial evaluations and claimed values. The challenges are abstract here (J01 decides them).",
    "J03": "Opening, commitments and proof are ring-element terms over the message, the noise and the key; compared with the matrix formulas of the scheme, for every message length up to the capacity.",
    "J04": "`challenge` is compared with the balanced digits of the seed bytes; the division loop of 64-bit limbs is summarised to a quotient/remainder.",
    "J05": "The key is a function of a seeded stream; position of every draw in the stream is a closed form, so order and one-draw-per-entry are decided for every dimension.",
    "J06": "The noise term is compared draw by draw with its centre and width; sharing of a draw between coefficients is visible since draws are indexed by the loop variables they are made under.",
    "J07": "Digit loops are summarised to base-b digits at every position; decoding to sums over the residues, with CRT reconstruction as a model.",
    "J08": "The search loop is a fold over the columns with the inner rank loop as `first`; all 24 fields of the result and the panic condition are compared with the norm analysis written independently. Floating-point operations are uninterpreted but commutative, whole numbers are exact.",
    "J09": "Ownership and effect analysis: every reference reachable from a copy is traced to a fresh object or to a location of the original; the stores of all methods of the copied types (composed over the types they hold) are intersected with what is shared, and shared generators are refused by type. In addition the copy of a new prover has the value graph of a new prover. lattigo rings are taken to be safe for concurrent use.",
    "J10": "Typestate over allocation sites: the ring that allocated each element is carried through the abstract interpretation of the entry points (everything inlined down to library calls); fields of inputs get the ring their type's constructor allocates them in; every use of an element in an operation of a ring, encoder, reconstructor or basis extender is an obligation that the rings agree. Elements whose ring is unknown give no obligation; a minimum number of obligations guards against losing them.",
    "B01": "The whole of `Prove` as one staged comparison: witnesses, transcripts, masks, commitments, evaluations.",
    "B02": "The verdict of `Verify` and of its parts as conjunctions over the compiled lists of constraints.",
    "B03": "The committed polynomials as polynomial terms over the batched constraints; division by X^n-1 is a model decided by M03.",
    "B04": "The context after each builder, for arbitrary contents before it.",
    "B05": "The context after each norm builder, and the unbounded-norm verifier part.",
    "B06": "The digit loops are folds with `first`; compared with the reference recurrence and its postcondition.",
    "B07": "Walks over `reflect.Value` are abstracted per kind of value; numbering and collection are the same recursion.",
    "B08": "Matrix and transposed product as double sums; the NTT and automorphism pair as index maps.",
    "B09": "The contents of the target polynomial, for arbitrary previous contents and lengths.",
    "B10": "The fields of prover and verifier that `Compile` returns.",
    "J11": "Non-interference on the value graph: units use one object several times, with the arguments of the other uses marked; after abstract interpretation (buffers, loops and all) no result may contain a marked argument. Random draws are told apart by their position, so fresh randomness is no dependency; rows of a ring element beyond its ring's moduli do not exist and are skipped. A value graph that contains such an argument although its value cancels would be reported; none does.",
    "B11": "As J11: units add a constraint, then overwrite the numbers that were passed in with marked values and extend the constraint; the resulting constraint or circuit may not contain them.",
    "M06": "Every reference reachable from a result is followed in the abstract store to the object it points into; objects made by the call are fine, memory of an argument, of the receiver or of a pooled buffer is a violation. Functions are analysed both with a symbolic receiver and on newly made objects (`separate` in `history.go`).",
    "T01": "Value graph of the search: the two nested loops are summarised as first-hit searches whose conditions (primality test, bit length, divisibility, bounds of the base) and whose result (p, b, k at the hit) are compared with the reference. The primality test and math.Exp2/Log2 are uninterpreted.",
    "M01": "Bodies unrolled by eight with tails are re-rolled into comprehensions; every operand may be aliased with the result (separate units); buffers from pools have arbitrary contents.",
    "M02": "Scatter writes at (i*d) mod 2n are inverted as permutations.",
    "M03": "Sums over all lengths, Horner loops as folds.",
    "M04": "Dependence analysis of the loop nests (affine subscripts over counters, lengths 2^L with L a symbol): each loop level is matched with a stage of the network by the subscripts of its updates, and pairs are proved distinct and complete by counting; lengths below 64 are handled one by one because they take other paths. Constructors as value graphs, with the search for the root as a bounded `first`. The permutation of bitReverseInPlace itself is an assumption.",
    "M05": "Streams with positions, rejection loops as `first`; tables at package initialisation are evaluated as comprehensions.",
}

def prop(id, title, statement, over, qtext, why, files, mech, claimed=True, reason=None, tech=TECH, note="", how=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  claimed=claimed, reason=reason, tech=tech, note=note, how=how or HOW.get(id, "")))

exec(open(os.path.join(here, "tools", "properties.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
man = {"version": 1, "setup_cmd": SETUP, "checks": [], "not_applicable": []}
for p in P:
    if p["claimed"]:
        man["checks"].append({
            "property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "bash check.sh " + p["id"],
            "technique": p["tech"], "level": "other", "level_note": NOTE + p["note"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")

props = []
for p in P:
    if p["claimed"]:
        props.append("* **%s** %s. Anchors: %s. %s" % (p["id"], p["title"], ", ".join("`%s`" % b.split(" ", 1)[1] for a, b in p["mech"]), p["how"]))
na = ["* **%s** %s: %s" % (p["id"], p["title"], p["reason"]) for p in P if not p["claimed"]]
seeds = ["| planted bug | needs | breaks |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))) if os.path.isdir(os.path.join(here, "seeded")) else []:
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    seeds.append("| %s | %s | %s |" % (d, m["needs"], m["what_it_breaks"]))
t = open(os.path.join(here, "tools", "design.md")).read()
t = t.replace("@PROPS@", "\n".join(props)).replace("@NA@", "\n".join(na) or "None.").replace("@SEEDS@", "\n".join(seeds))
open(os.path.join(here, "DESIGN.md"), "w").write(t)
