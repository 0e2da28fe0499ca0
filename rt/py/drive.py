"""Runs one list of calls against the extension module built from the tree.
drive.py DIR-OF-MODULE; the calls as JSON lines on stdin, one answer per line on stdout."""
import json, sys
sys.path.insert(0, sys.argv[1])
import disc_riider_py as m

ex = None
TRUE = [True, 1, "x", [0], (None,), 2.5, -1]
FALSE = [False, 0, None, "", [], 0.0]


def call(c):
    global ex
    op = c[0]
    if op == "open":
        ex = m.WiiIsoExtractor(c[1])
    elif op == "prepare":
        ex.prepare_extract_section(c[1])
    elif op == "remove":
        gone, seen, n = set(c[2]), [], c[3]

        def cb(p):
            seen.append(p)
            if p in gone:
                return TRUE[(len(seen) + n) % len(TRUE)]
            if n % 5 == 4 and len(seen) % 3 == 0:
                raise ValueError("no answer")
            return FALSE[(len(seen) + n) % len(FALSE)]
        ex.remove_files_by_callback(c[1], cb)
        return seen
    elif op == "dolhash":
        return bytes(ex.get_dol_hash(c[1])).hex()
    elif op == "extract":
        ex.extract_to(c[1], lambda p: None)
    elif op == "rebuild":
        m.rebuild_from_directory(c[1], c[2], lambda p: None)
    else:
        raise SystemExit(f"unknown call {op}")


for line in sys.stdin:
    try:
        r = {"ok": call(json.loads(line))}
    except Exception as e:
        r = {"err": f"{type(e).__name__}: {e}"}
    except BaseException as e:          # a panic in the extension
        r = {"panic": f"{type(e).__name__}: {e}"}
    print(json.dumps(r), flush=True)
