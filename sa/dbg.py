"""debug helper: python3 -m sa.dbg Cxx -- print the trace mismatches of a property in full."""
import sys
from . import report, compare, terms as tm
from .pyfront import Program
from . import rules
def main():
    prop = sys.argv[1]
    depth = int(sys.argv[2]) if len(sys.argv) > 2 else 9
    root = sys.argv[3] if len(sys.argv) > 3 else '/repo'
    o = report.Rep.traces
    sh = tm.show
    def traces(self, name, code, spec, where='', drop=()):
        r = o(self, name, code, spec, where, drop)
        if not r:
            c = [e for e in compare.canon(code) if e.kind not in drop and not report.ignorable(e)]
            s = [e for e in compare.canon(spec) if e.kind not in drop and not report.ignorable(e)]
            mis, ext = compare.match(c, s)
            print('==', name)
            for t, l in (('EXT', ext), ('MIS', mis)):
                for e in l:
                    print(t, e.kind, [sh(a, depth) for a in e.args], 'G', sh(e.g, depth), 'Q', [sh(b, depth) for b in e.bounds], e.sites[:1])
        return r
    report.Rep.traces = traces
    rep = report.Rep(prop, Program(root))
    for n, f in rules.get(prop).rules:
        f(rep)
    for x in rep.obs:
        if x[1] != 'ok': print(x[0], x[1], x[2], x[3][:300])
main()
