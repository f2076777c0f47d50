"""The histories of the other checks, as material for properties that hold of every history."""
import concurrent.futures as cf
import importlib, os, random
import vf


WRAPPED = 'GetFileType GetFileTypeFromHandle GetFileTypeFromMemory GetFIFFromFilename Initialise Save SaveToHandle SaveToMemory Allocate AllocateT AllocateEx AllocateExT Clone Copy Load LoadFromHandle LoadFromMemory OpenMemory ConvertTo8Bits ConvertToGreyscale ConvertTo16Bits555 ConvertTo16Bits565 ConvertTo24Bits ConvertTo32Bits ConvertToFloat ConvertToRGBF ConvertToRGBAF ConvertToUINT16 ConvertToRGB16 ConvertToRGBA16 ConvertToStandardType ConvertToType Rotate Rescale RescaleRect FlipHorizontal FlipVertical'.split()


def ledger():
    """the harness under the ledger; what the library asks of FreeImage goes through it"""
    return vf.build('rel', harness='ledger.cpp', extra_src=['-Wl,' + ','.join('--wrap=FreeImage_' + x for x in WRAPPED), '-ldl']).exe


class Stub:
    prints, out, ok, rc, distinct, states = [], '', True, 0, 0, 0


class Collector:
    """stands in for Check: keeps the cases instead of running them"""
    def __init__(self, prop, seed, thorough, dir):
        self.prop, self.seed, self.thorough, self.dir = prop, seed, thorough, dir
        self.tier = 'thorough' if thorough else 'quick'
        self.rng = random.Random('gather-%s-%d' % (prop, seed))
        self.notes, self.samples, self.cases = {}, [], []
        self.states = self.transitions = self.traces = self.events = 0
        os.makedirs(dir, exist_ok=True)

    def model(self, *a, **k):
        return Stub()

    def conform(self, module, cases, **k):
        self.cases += [vf.Case(module + '-' + c.id, c.lines) for c in cases if 'asan' not in k.get('name', '')]
        return {}

    def finish(self, **k):
        return 0


def gather(props, seed, dir, thorough=False):
    """{property: cases}; files the cases read lie in dir"""
    def one(p):
        m = importlib.import_module(p.lower())
        col = Collector(p, seed, thorough, dir)
        m.Check = lambda *a, **k: col
        m.build = lambda *a, **k: vf.Build('', '', '')
        m.run()
        if not col.cases:
            raise vf.ToolError('no histories of ' + p)
        for c in col.cases:
            c.id = p + '-' + c.id
        return col.cases
    with cf.ThreadPoolExecutor(4) as ex:
        return dict(zip(props, ex.map(one, props)))
