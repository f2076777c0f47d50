#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; a property without a check file is not claimed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('model_checking', 'TLA+ state machine of the texture (TextureLifecycle.tla) model checked with TLC; TLC-generated behaviours replayed into the real code, recorded traces validated by TLC',
         'Exhaustive for the model within the bounds of its configurations; the real code is bound on every generated behaviour (all observables after every step), under AddressSanitizer for a share of them.'),
 'C02': ('model_checking', 'TLA+ specification of mip generation (MipChain.tla: source selection; MipGrain.tla: exact box and tent reductions) model checked with TLC; generated textures and custom mip sets run in the real code and every level judged by TLC',
         'Source selection is decided exactly with distinguishable images; box and linear levels by the exact weighted mean of their sources, other filters by confinement to the sources and uniformity.'),
 'C03': ('model_checking', 'TLA+ worker pool (Pool.tla) model checked with TLC over all interleavings; access and synchronisation traces of the real workers under controlled schedules validated by TLC',
         'Model: every interleaving within bounds. Real code: scheduled executions with all instrumented memory accesses checked for region, exactly-once and happens-before, and bytes compared with the single threaded result.'),
 'C04': ('model_checking', 'TLA+ codec specification (PixelCodec.tla); recorded encodings of the real code validated by TLC',
         'All formats and types at all code boundaries or a dense sample of them; ties may round either way.'),
 'C05': ('model_checking', 'TLA+ surface specification (Surfaces.tla); every byte of recorded conversions validated by TLC',
         'Every pixel of every surface judged, for every format and type, over sizes around the internal batch size and random shapes.'),
 'C06': ('model_checking', 'TLA+ format table (Formats.tla) compared exhaustively by TLC with the recorded answers and outcomes of the real code',
         'Exhaustive over formats, types, file types and colour spaces of this build (compressed formats are not part of it).'),
 'C07': ('model_checking', 'TLA+ DDS decoder specification (DdsFile.tla) run by TLC on recorded files of the real code', 'Every byte of every recorded file is accounted for.'),
 'C08': ('model_checking', 'TLA+ KTX decoder specification (KtxFile.tla) run by TLC on recorded files of the real code', 'Every byte of every recorded file is accounted for.'),
 'C09': ('model_checking', 'TLA+ PVR decoder specification (PvrFile.tla) run by TLC on recorded files of the real code', 'Every byte of every recorded file is accounted for.'),
 'C10': ('fault_enumeration', 'TLA+ sink/save specifications (SaveFault, SaveWriter, SaveHistory) model checked with TLC; all fault points of the real writers enumerated and validated by TLC',
         'Every byte position of small files as fault point; file sinks with real full devices; repeated saves.'),
 'C11': ('model_checking', 'TLA+ image memory specification (ImageMemory.tla); TLC-validated traces of pixel accesses of the real code',
         'All image formats; histories of accesses with complete memory comparison after each, under AddressSanitizer for a share; all 32-bit integers and doubles exactly.'),
 'C12': ('model_checking', 'TLA+ specification of the rectangle symmetries (Symmetry.tla): group laws model checked with TLC, real operations validated by TLC', 'Every format, sizes up to 9x9 plus larger ones, words of operations up to length 5.'),
 'C13': ('model_checking', 'TLA+ specification of the channel operations (ChannelOps.tla), recorded results validated by TLC', 'Every format, colour space and selector; sRGB functions given to the specification as a table with an error bound.'),
 'C14': ('model_checking', 'TLA+ value semantics specification (Values.tla, ValuesModel.tla) model checked with TLC; its behaviours replayed into the real code and validated by TLC',
         'All behaviours of bounded length of the object pool; under AddressSanitizer.'),
 'C15': ('model_checking', 'TLA+ specifications of image sources (ImageIO.tla) and of the stream protocol (StreamIO.tla, model checked); recorded loads and saves of generated files validated by TLC',
         'Files written by an independent encoder in many encodings, every kind of source, every truncation point of small files.'),
 'C16': ('model_checking', 'TLA+ command language of the tool (ToolGrammar.tla); generated argument vectors run with the real tool and validated by TLC', 'Single options exhaustively, option pairs and random vectors; exit code and effect on the output file.'),
 'C17': ('model_checking', 'TLA+ pipeline specification (ToolPipeline.tla, ToolPipeModel.tla); outputs of the real tool validated by TLC',
         'The documented sequence is executed by the specification for operations that move texels and channels, and as a program of library calls (specified by the other properties) otherwise; all files are decoded.'),
 'C18': ('model_checking', 'TLA+ normal map specification (NormalMap.tla), recorded maps validated by TLC', 'All option sets, sizes including 1 and 2; fixed point comparison with an error bound.'),
 'C19': ('model_checking', 'TLA+ resize specification (Resize.tla, its symmetry laws model checked), recorded results validated by TLC',
         'All formats and filters; exact box and tent averages, confinement, uniformity and symmetry; up to hundreds of source pixels for one.'),
 'C20': ('model_checking', 'TLA+ conversion specification (ImageConvert.tla), recorded conversions of all format pairs validated by TLC', 'All 17x17 pairs of formats, both gray modes.'),
 'C21': ('model_checking', 'TLA+ range specification (RangeAdjust.tla), recorded adjustments validated by TLC',
         'All format and type pairs; all 8-bit codes.'),
 'C22': ('model_checking', 'TLA+ specification of threads with objects of their own (Concurrent.tla) model checked with TLC; its schedules run in the real code, memory accesses ordered by vector clocks (SchedTrace.tla) and results compared per thread by TLC',
         'Model: every interleaving within bounds. Real code: every kind of operation twinned with itself and paired with others, in a fresh process each, under schedules that switch between and inside operations. Code inside FreeImage and the C++ library is judged by its results only.'),
 'C23': ('model_checking', 'TLA+ ownership model (Resources.tla) model checked with TLC, its leaking variant refuted; histories of all other checks repeated in the real code under a ledger of memory, files and threads, validated by TLC (ResourcesTrace.tla)',
         'Model: all histories within bounds, failing calls included. Real code: thousands of histories; growth is reported when it goes on with every repetition.'),
 'C24': ('model_checking', 'TLA+ self-composition of two processes with different ambience (Purity.tla) model checked with TLC, two impure variants refuted; histories of all other checks run in the real code in up to four ambiences, validated by TLC (PurityTrace.tla)',
         'Model: all histories within bounds. Real code: thousands of histories with different memory, company and order; answers compared by 60-bit hashes of everything observed.'),
 'C25': ('fault_enumeration', 'TLA+ model of calls whose requests may be refused (Refusal.tla) model checked with TLC, four faulty variants refuted; histories of the other checks with every request of every call refused in the real code, judged by TLC (RefusalTrace.tla)',
         'Model: all histories within bounds. Real code: every refusal point of short calls, the first and evenly spread others of long ones, refused once and for good, each in a process of its own.'),
}
checks, na = [], []
for p, (level, tech, note) in T.items():
    if os.path.exists(os.path.join(ROOT, 'checks', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': 'python3 checks/%s.py' % p.lower(), 'thorough_cmd': 'VERIF_TIER=thorough python3 checks/%s.py --thorough' % p.lower(),
                       'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': p, 'reason': 'The check is still being built.'})
m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ checked with TLC; no hooks in /repo are needed (the harness uses the public API, the tool its command line).'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
