"""run.py CXX: runs the check of one property (see MANIFEST.json)."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import Check, MachineryError

FAM = {}
for ids, mod in ((("C01", "C02", "C03", "C04"), "fam_rep"), (("C05", "C06", "C07", "C19"), "fam_solve"),
                 (("C08", "C09"), "fam_groups"), (("C10",), "fam_ops"), (("C11", "C12", "C13", "C14", "C15", "C18"), "fam_nn"),
                 (("C16",), "fam_torch"), (("C17",), "fam_data")):
    for i in ids:
        FAM[i] = mod


def main():
    pid = sys.argv[1]
    c = Check(pid, tier=sys.argv[2] if len(sys.argv) > 2 else None)
    try:
        importlib.import_module(FAM[pid]).run(c)
        c.finish()
    except MachineryError as e:
        sys.stderr.write("ERROR: %s\n" % e)
        c.cleanup()
        sys.exit(2)


main()
