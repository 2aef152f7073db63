"""Rewrites /verif/MANIFEST.json from this table (run by hand)."""
import json
CONT = ("TLA+ specification spec/Container.tla: TLC enumerates histories from it and validates the traces recorded "
        "from the real GSData/GSTensor against it")
NOTE = ("histories up to the bounds of spec/ContainerGen.tla (exhaustive in the model, stratified sample executed), "
        "plus random walks of 12 operations")
CHECKS = {p: (CONT, "model_checking", NOTE) for p in
          ("C06", "C07", "C08", "C09", "C10", "C11", "C12", "C16", "C18")}
NOT = {}


def main():
    try:
        from manifest_more import MORE
        CHECKS.update(MORE)
    except ImportError:
        pass
    m = dict(version=1, setup_cmd="true", checks=[
        dict(property=p, quick_cmd=f"./check.sh {p}", thorough_cmd=f"./check.sh {p} thorough",
             evidence_file=f"evidence/{p}.json", technique=t, level=lv, level_note=nt)
        for p, (t, lv, nt) in sorted(CHECKS.items())],
        not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT.items())],
        notes="No hooks: the checks use the public interface only. Fix commits in /repo are listed in known_findings.txt.")
    json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)


main()
