"""A machine seen through its BPMs: arbitrary readings, arbitrary pseudo-inverse; records the corrector settings at every reading."""
from props.common import *

ORB = "pySC.correction.orbit_trajectory"
HORD, VORD = (1, 4, 7), (1, 4, 7, 9)
BORD = (3, 6, 8)


def machine(nturns=1):
    """correctors at 1, 4 (combined with a quadrupole), 7 and 9; BPMs at 3, 6, 8"""
    SC = new_SC(lattice([drift(), corrector("C1"), quad("Q"), monitor("B1"), quad("QC", 0.5, 1.0), drift(), monitor("B2"),
                         corrector("C3"), monitor("B3"), corrector("C4"), cavity("RF")]))
    SC.register_bpms(np.array(BORD))
    SC.register_magnets(np.array([1]), HCM=10.0, VCM=10.0)
    SC.register_magnets(np.array([4]), HCM=10.0, VCM=10.0)
    SC.register_magnets(np.array([7]), HCM=10.0, VCM=10.0)
    SC.register_magnets(np.array([9]), VCM=10.0)
    SC.register_cavities(np.array([10]))
    for o in VORD:      # limits out of the way (their effect is another property)
        SC.RING[o].CMlimit = arr([1e6, 1e6])
    SC.INJ.nTurns = nturns
    SC.update_magnets()
    SC.update_cavities()
    return SC


def upstream(cms, last):
    return [c for c in cms if c <= last]


class Loop:
    """patches the BPM reading and the pseudo-inverse.  plan(k) -> number of BPM readings (over all turns) with beam in reading k"""

    def __init__(self, ctx, SC, plan, bpms=BORD, hcm=HORD, vcm=VORD, rf=False, fixed=False, lo=-2, hi=2, sums=True, values=None):
        self.ctx, self.SC, self.plan, self.bpms, self.hcm, self.vcm = ctx, SC, plan, list(bpms), list(hcm), list(vcm)
        self.nt = SC.INJ.nTurns
        self.n = len(self.bpms) * self.nt
        self.ncm = len(self.hcm) + len(self.vcm) + (1 if rf else 0)
        self.fixed, self.lo, self.hi, self.values = fixed, lo, hi, values
        self.RM = arr([[0.125 * (i + 1) - 0.25 * j * (i % 2) for j in range(self.ncm)] for i in range(2 * self.n)])
        self.Mp = ctx.reals("Mp", (self.ncm, 2 * self.n), -2, 2)
        self.reads, self.set, self.trans, self.params, self.rf = [], [], [], None, []

    def reading(self, SC, bpm_ords=None, *a, **k):
        if a or k:
            raise E.Inconclusive("BPM reading with further arguments")
        ctx = self.ctx
        ctx.check(bpm_ords is None and self.bpms == list(SC.ORD.BPM) or bpm_ords is not None and list(map(int, bpm_ords)) == self.bpms, "the requested BPMs are read")
        j = len(self.reads)
        T = self.plan(j)
        out = np.full((2, self.n), NAN, dtype=object if W.MODE == "sym" else float)
        for d in (0, 1):
            for i in range(T):
                out[d, i] = self.values(j, d, i) if self.values else ctx.real(f"r{0 if self.fixed else j}.{d}.{i}", self.lo, self.hi)
        self.reads.append([[out[d, i] for i in range(self.n)] for d in (0, 1)])
        self.trans.append(T)
        self.set.append(self.now())
        self.rf.append(SC.RING[10].FrequencySetPoint)
        o = arr(out)
        return o, zeros(self.n)

    def now(self):
        return ([self.get(c, False) for c in self.hcm], [self.get(c, True) for c in self.vcm])

    def get(self, c, skew):
        v = self.SC.get_cm_setpoints([c], skew)
        return v[0] if isinstance(v, np.ndarray) and v.ndim else v

    def pinv(self, matrix, num_removed=0, alpha=0, damping=1, plot=False):
        self.ctx.eq(matrix, self.RM, "the given response matrix is inverted")
        self.params = (num_removed, alpha, damping)
        return self.Mp.copy()

    def run(self, name, *a, **k):
        """-> the result, or the exception raised"""
        f = getattr(W.mod(ORB), name)
        self.start = self.now()
        self.ctx.reach("feedback loop")
        with W.patched("pySC.core.beam", "bpm_reading", self.reading), W.patched("pySC.utils.sc_tools", "pinv", self.pinv):
            try:
                return f(self.SC, self.RM, *a, **k)
            except E.Inconclusive:
                raise
            except (RuntimeError, ValueError) as ex:
                return ex

    def change(self, k):
        """corrector changes between reading k and reading k+1"""
        a, b = self.set[k], self.set[k + 1]
        return [y - x for x, y in zip(a[0], b[0])], [y - x for x, y in zip(a[1], b[1])]

    def dphi(self, measurement, reference):
        d = [m - r for m, r in zip(measurement, reference)]
        out = []
        for i in range(self.ncm):
            t = 0.0
            for j in range(len(d)):
                if not (isinstance(d[j], float) and d[j] == 0.0):
                    t = t + self.Mp[i, j] * d[j]
            out.append(t)
        return out
