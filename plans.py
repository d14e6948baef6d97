"""What decides each property: exhaustive models (mc) and recorded histories (tr)."""


def mc(dom, module, cfg=None):
    return dict(kind="mc", dom=dom, module=module, cfg=(cfg or module) + ".cfg")


def tr(dom, prof, count, module):
    return dict(kind="trace", dom=dom, prof=prof, count=count, module=module)


PLANS = {
    "B14": dict(quick=[mc("bitarray", "BitArrayMC"), tr("bitarray", "std", 2400, "BitArrayTrace")],
                thorough=[mc("bitarray", "BitArrayMC", "BitArrayMC_t"), tr("bitarray", "std", 60000, "BitArrayTrace")]),
    "B13": dict(quick=[mc("ranges", "RangesMC"), tr("ranges", "std", 1600, "RangesTrace")],
                thorough=[mc("ranges", "RangesMC", "RangesMC_t"), tr("ranges", "std", 40000, "RangesTrace")]),
    "B12": dict(quick=[mc("refs", "RefsMC"), tr("refs", "std", 4000, "RefsTrace")],
                thorough=[mc("refs", "RefsMC", "RefsMC_t"), tr("refs", "std", 80000, "RefsTrace")]),
    "S14": dict(quick=[mc("minmax", "MinMaxMC"), tr("minmax", "std", 3000, "MinMaxTrace")],
                thorough=[mc("minmax", "MinMaxMC", "MinMaxMC_t"), tr("minmax", "std", 60000, "MinMaxTrace")]),
}


def struct(pid, count, *more, **deeper):
    q, t = [], []
    if pid != "S12":
        q.append(mc("struct", "StructMC", "StructMC_" + pid))
        t.append(mc("struct", "StructMC", "StructMC_" + pid + "_t"))
    if pid in ("S02", "S09", "S10", "S12"):
        q.append(mc("struct", "StructSeqMC", "StructSeqMC_" + pid))
        t.append(mc("struct", "StructSeqMC", "StructSeqMC_" + pid + "_t"))
    q.append(tr("struct", pid, count, "StructTrace"))
    t.append(tr("struct", pid, count * 15, "StructTrace"))
    PLANS[pid] = dict(quick=q + [m for m in more], thorough=t + [m for m in deeper.get("t", more)])


struct("S01", 3200)
struct("S02", 3200)
struct("S03", 3200)
struct("S04", 3200)
struct("S05", 1600)
struct("S06", 2400, mc("bitstream", "BitStreamMC"), tr("bitstream", "std", 1600, "BitStreamTrace"),
       t=[mc("bitstream", "BitStreamMC", "BitStreamMC_t"), tr("bitstream", "std", 40000, "BitStreamTrace")])
struct("S07", 3200)
struct("S08", 3200)
struct("S09", 3200)
struct("S10", 2400, mc("readahead", "ReadAheadMC"), tr("readahead", "std", 1600, "ReadAheadTrace"),
       t=[mc("readahead", "ReadAheadMC", "ReadAheadMC_t"), tr("readahead", "std", 40000, "ReadAheadTrace")])
struct("S11", 2400)
struct("S12", 3200)
struct("S13", 3200)


def buf(pid, count):
    """Exhaustive catalogues of small classes, and random histories of larger ones."""
    PLANS[pid] = dict(quick=[mc("buffer", "BufferMC", "BufferMC_" + pid), tr("buffer", pid, count, "BufferTrace")],
                      thorough=[mc("buffer", "BufferMC", "BufferMC_" + pid + "_t"), tr("buffer", pid, count * 15, "BufferTrace")])


for _n in range(1, 11):
    buf("B%02d" % _n, 1600)
PLANS["B11"] = dict(quick=[mc("buffer", "BufferSeqMC"), tr("buffer", "B11", 800, "BufferTrace")],
                    thorough=[mc("buffer", "BufferSeqMC", "BufferSeqMC_t"), tr("buffer", "B11", 20000, "BufferTrace")])
PLANS["S15"] = dict(quick=[mc("adapter", "AdapterMC"), tr("adapter", "S15", 1200, "AdapterTrace")],
                    thorough=[mc("adapter", "AdapterMC", "AdapterMC_t"), tr("adapter", "S15", 30000, "AdapterTrace")])
PLANS["S16"] = dict(quick=[mc("decl", "StructDeclMC"), tr("decl", "S16", 1600, "StructDeclTrace")],
                    thorough=[mc("decl", "StructDeclMC", "StructDeclMC_t"), tr("decl", "S16", 30000, "StructDeclTrace")])
PLANS["S17"] = dict(quick=[mc("contexts", "ContextsMC"), tr("contexts", "std", 4000, "ContextsTrace")],
                    thorough=[mc("contexts", "ContextsMC", "ContextsMC_t"), tr("contexts", "std", 60000, "ContextsTrace")])
