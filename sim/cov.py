"""Which lines of mergekit the simulated runs reached (VERIF_COV=DIR; a development aid, off by default)."""
import os
import sys

DIR = os.environ.get("VERIF_COV")
SEEN = set()
_TOOL = 1


def start():
    if not DIR:
        return
    from sim import kernel

    pre = kernel.SOURCE_PREFIX
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "verif-cov")

    def line(code, n):
        if code.co_filename.startswith(pre):
            SEEN.add((code.co_filename[len(pre):], n))
        return mon.DISABLE

    mon.register_callback(_TOOL, mon.events.LINE, line)
    mon.set_events(_TOOL, mon.events.LINE)
    os.makedirs(DIR, exist_ok=True)


def dump():
    if not DIR:
        return
    with open("%s/%d.%d" % (DIR, os.getpid(), len(os.listdir(DIR))), "w") as f:
        f.writelines("%s:%d\n" % x for x in sorted(SEEN))


if __name__ == "__main__":  # report: cov.py DIR [file-substring]
    import ast
    import collections

    got = collections.defaultdict(set)
    for fn in os.listdir(sys.argv[1]):
        for l in open(os.path.join(sys.argv[1], fn)):
            f, n = l.rsplit(":", 1)
            got[f].add(int(n))
    base = os.environ.get("VERIF_REPO", "/repo") + "/mergekit/"
    sub = sys.argv[2] if len(sys.argv) > 2 else None
    for root, _, files in os.walk(base):
        for x in sorted(files):
            if not x.endswith(".py"):
                continue
            p = os.path.join(root, x)
            r = os.path.relpath(p, base)
            src = open(p).read()
            want = set()

            def walk(c):
                for _, _, n in c.co_lines():
                    if n:
                        want.add(n)
                for k in c.co_consts:
                    if hasattr(k, "co_lines"):
                        walk(k)

            walk(compile(src, p, "exec"))
            miss = want - got[r]
            if sub is None:
                print("%5d/%5d %s" % (len(want) - len(miss), len(want), r))
            elif sub in r:
                L = src.split("\n")
                for n in sorted(miss):
                    print("%s:%d: %s" % (r, n, L[n - 1]))
