"""Writes MANIFEST.json."""
import json
import os

MC = "explicit-state model checking of the real code in lock step with a reference model"
EN = "exhaustive bounded enumeration of the real code's inputs and orders against an independent oracle"
LOCK = ("Every transition runs the real code of /repo; no separate model can drift. Complete for the alphabets, depths and state "
        "spaces the evidence lists (caps are reported there); values outside the alphabets are not covered. Trusted: the reference "
        "model written from the property, the canonical form of states, CPython. ")
ENUM = ("Every case of the stated finite spaces is run against the real code; values outside the spaces are not covered. Trusted: the "
        "independent oracle, the standard codecs, CPython. ")
T = {
    "C01": (MC, "model_checking", LOCK + "IDs come from three layouts (disjoint, colliding, boundary); several scenarios reach all their states."),
    "C02": (MC, "model_checking", LOCK + "Stale, foreign and never-issued invocation IDs are part of the alphabet."),
    "C03": (MC, "model_checking", LOCK + "Assumes all chunks of a call name the same procedure and receive_progress."),
    "C04": (MC, "model_checking", LOCK + "Table-only scenarios reach all states for 3 sessions x 2 procedures."),
    "C05": (MC, "model_checking", LOCK + "Rejoining with the same session ID is compared with rejoining under a new one."),
    "C06": (MC, "model_checking", LOCK + "All states for 3 sessions x 2 topics."),
    "C07": (MC, "model_checking", LOCK + "All states for 3 sessions x 2 topics."),
    "C08": (MC, "model_checking", LOCK + "A later wrong response is blamed on a rejection by replaying the history without it."),
    "C09": (MC, "model_checking", LOCK + "Every closed walk up to a length from every listed state is repeated 200 times; memory is the "
                                         "number of container entries and characters reachable from the instance."),
    "C10": (EN, "exploration", ENUM + "Runs of 140 IDs around every power of two and the wrap, all orders of calls to three generators, "
                                      "all scripts of extreme random answers."),
    "C11": (MC, "model_checking", LOCK + "All states for every kind of request with one ID each, and per group with two."),
    "C12": (MC, "model_checking", LOCK + "All states for every kind of request with one ID each, and per group with two."),
    "C13": (MC, "model_checking", LOCK + "Failing operations: protocol violations, undecodable frames, encoder failures."),
    "C14": (MC, "model_checking", LOCK + "Peers may send any message in any order, with valid, recorded and forged proofs; ed25519 and "
                                         "HMAC themselves are trusted."),
    "C15": (EN, "exploration", ENUM + "All one-character changes, truncations and bit flips of proofs, all pairs of concurrent handshakes, "
                                      "plus all orders of recorded proofs as states; ed25519 and HMAC themselves are trusted."),
    "C16": (EN, "exploration", ENUM + "Full product of methods, serializers, realms, authids, roles, extras, and of credentials."),
    "C17": (MC, "model_checking", LOCK + "Servers may send any message in any order."),
    "C18": (EN, "exploration", ENUM + "Full products of field values around two bases for every message type and serializer."),
    "C19": (EN, "exploration", ENUM + "Oracle: a table of the wire format written from the WAMP specification and independent codecs."),
    "C20": (EN, "exploration", ENUM + "Every type x length x pairwise and full assignments from a type and boundary alphabet."),
    "C21": (EN, "exploration", ENUM + "All short frames; all truncations, extensions, byte changes and bit flips of valid frames."),
    "C22": (EN, "exploration", ENUM + "All combinations of absent, empty and boundary args and kwargs, all decoded shapes."),
    "C23": (EN, "exploration", ENUM + "All sizes and codes, all four-byte strings over the relevant classes."),
    "C24": (EN, "exploration", ENUM + "All 2^24 lengths and all kinds; thorough also all headers."),
    "C25": (EN, "exploration", ENUM + "All orders of two programs up to a limit (fewest switches first) compared with each alone in a clean "
                                      "process, two threads preempted at every line under a controlled scheduler, plus the "
                                      "state spaces of pairs of model-checked instances."),
    "C26": (MC, "model_checking", LOCK + "All interleavings of client steps and deliveries of two or three scripted clients over ordered "
                                         "links; the router glue (which frame goes to dealer or broker) is the harness's."),
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import cbor2, msgpack, nacl'",
               "checks": [{"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"./run.sh {p} thorough", "technique": t,
                           "level": lvl, "level_note": n.strip()} for p, (t, lvl, n) in T.items()],
               "not_applicable": [],
               "notes": "No hooks: the checks run the unmodified code of /repo's working tree. known_findings.txt lists the defects "
                        "repaired by fix: commits; there is no unrepaired finding."}, f, indent=1)
    f.write("\n")
