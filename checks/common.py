import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
from vf import Case, Check, build, main

LAYOUT = [  # name, types valid (must agree with specs/Formats.tla, which C06 checks)
 'R4G4 R4G4B4A4 B4G4R4A4 A4R4G4B4 R5G6B5 B5G6R5 R5G5B5A1 B5G5R5A1 A1R5G5B5 R8 R8G8 R8G8B8 B8G8R8 R8G8B8A8 B8G8R8A8 A8B8G8R8 A2R10G10B10 A2B10G10R10 '
 'R16 R16G16 R16G16B16 R16G16B16A16 R32 R32G32 R32G32B32 R32G32B32A32 B10G11R11_UFloat E5B9G9R9_UFloat'][0].split()
FNO = {n: i + 1 for i, n in enumerate(LAYOUT)}
UN, SN, UI, IN, UF, FL = range(6)
DDS, KTX, PVR = 1, 2, 3


def types(name):
    if name in ('R8', 'R8G8', 'R8G8B8', 'R8G8B8A8'): return [UN, SN, UI, IN]
    if name.startswith('A2'): return [UN, UI]
    if name.startswith('R16'): return [UN, SN, UI, IN, FL]
    if name.startswith('R32'): return [UI, IN, FL]
    if name.endswith('UFloat'): return [UF]
    return [UN]


BYTES = dict(zip(LAYOUT, [1, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 3, 3, 4, 4, 4, 4, 4, 2, 4, 6, 8, 4, 8, 12, 16, 4, 4]))
SRGB = {'R8G8B8', 'B8G8R8', 'R8G8B8A8', 'B8G8R8A8', 'A8B8G8R8'}
NODDS = {'R4G4B4A4', 'B4G4R4A4', 'B5G6R5', 'R5G5B5A1', 'B5G5R5A1', 'R8G8B8', 'B8G8R8', 'A8B8G8R8', 'A2R10G10B10', 'R16G16B16'}
NOKTX = {'R4G4', 'A4R4G4B4', 'B8G8R8'}
D1, D2, D3, CUBE = range(4)
RGBAF = 10


def all_pairs():
    return [(n, t) for n in LAYOUT for t in types(n)]


def log2(n):
    return n.bit_length() - 1


def maxmips(dim, w, h, d):
    return 1 + log2(max(w, h, d if dim == D3 else 1))
