"""One verification job: python3-vt -m pyvc.job MODULE INDEX CFG OUT"""
import sys
import json
import importlib


def report_dict(rep):
    return dict(name=rep.name, qual=rep.qual, bounded=bool(rep.bounded), bound_text=rep.bound_text,
                unsupported=rep.unsupported, vacuous=rep.vacuous, paths=rep.paths, stats=rep.stats,
                used=rep.used, inlined=rep.inlined, loops=[str(x) for x in rep.loops][:40],
                secs=rep.secs,
                obligations=[dict(name=o.name, status=o.status, detail=o.detail, where=o.where,
                                  backend=o.backend, secs=o.secs) for o in rep.obligations])


def main():
    modname, idx, ci, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    sys.setrecursionlimit(30000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = {}

    def go():
        from pyvc.contract import verify
        mod = importlib.import_module('contracts.' + modname)
        c = mod.CONTRACTS[idx]
        rep = verify(c, c.configs()[ci])
        res.update(report_dict(rep))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
