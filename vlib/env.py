"""Where things are.  Everything is imported from the working tree in /repo."""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
for _p in ("/opt/venv/lib/python3.12/site-packages",):
    if os.path.isdir(_p) and _p not in sys.path:
        sys.path.append(_p)
warnings.simplefilter("ignore")


def load():
    """Import the code under test from REPO (sources only, never a stale .pyc)."""
    import importlib.util

    # do not trust cached bytecode: compile from the sources of the working tree
    import importlib.machinery as m

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    class SourceOnly(m.SourceFileLoader):
        pass

    SourceOnly.get_code = get_code

    class Finder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name != "ccsds_ndm" and not name.startswith("ccsds_ndm."):
                return None
            rel = name.replace(".", "/")
            for cand, pkg in ((f"{REPO}/{rel}/__init__.py", True), (f"{REPO}/{rel}.py", False)):
                if os.path.isfile(cand):
                    return importlib.util.spec_from_file_location(
                        name, cand, loader=SourceOnly(name, cand),
                        submodule_search_locations=[os.path.dirname(cand)] if pkg else None,
                    )
            return None

    if not any(getattr(f, "__name__", "") == "Finder" for f in sys.meta_path):
        sys.meta_path.insert(0, Finder)
    import ccsds_ndm

    assert os.path.realpath(ccsds_ndm.__file__).startswith(os.path.realpath(REPO)), ccsds_ndm.__file__
    import ccsds_ndm.models.ndmxml2 as models
    from ccsds_ndm import ndm_io, ndm_kvn_io, ndm_xml_io

    return models, ndm_io, ndm_kvn_io, ndm_xml_io
