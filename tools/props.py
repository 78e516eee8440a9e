"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "ssspy/bss/"
BSS = [B + f + ".py" for f in ("base", "ica", "fdica", "iva", "ilrma", "ipsdta", "mnmf", "cacgmm", "pdsbss", "admmbss",
                               "proxbss", "hva")]
ALG = ["ssspy/algorithm/projection_back.py", "ssspy/algorithm/minimal_distortion_principle.py",
       "ssspy/algorithm/permutation_alignment.py"]
LIN = ["ssspy/linalg/%s.py" % f for f in ("quadratic", "cubic", "inv", "eigh", "mean", "sqrtm", "_solve", "polynomial",
                                          "prox", "lqpqm")]
SPE = ["ssspy/special/%s.py" % f for f in ("flooring", "psd", "softmax", "logsumexp")]
TRA = ["ssspy/transform/%s.py" % f for f in ("whiten", "pca")]

P = []          # claimed
NA = []         # (id, title, statement, over, text, why, files, reason)
TRUST = ("Sound relative to the abstract interpreter vf/interp.py and its table of numpy operations (vf/npmodel.py); "
         "user callables are opaque; anything it cannot model is listed in the evidence as not analysed.")


def prop(id, title, statement, over, text, why, files, mech, technique, note="", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [],
                               hook_needed=None), _t=technique, _n=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None)), reason))


here = os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(os.path.join(here, "props.d"))):
    exec(compile(open(os.path.join(here, "props.d", f)).read(), f, "exec"))


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in P + [n for n, _ in NA]:
            fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    man = dict(version=1, setup_cmd="python3 check.py --self-test",
               checks=[dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
                            thorough_cmd="python3 check.py %s" % p["id"],
                            technique=p["_t"], level="other", level_note=(p["_n"] + " " + TRUST).strip()) for p in P],
               not_applicable=[dict(property=n["id"], reason=r) for n, r in NA],
               notes="Static analysis only: every check re-parses /repo/ssspy on each run and never imports or executes it.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
