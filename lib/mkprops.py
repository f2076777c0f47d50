import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=(),state=(),hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
L="lib/src/"; I="lib/include/cuttlefish/"
p("C01","Texture lifecycle follows the documented state machine",
 "For every sequence of public texture calls (initialise, set image, generate mipmaps, convert, query, save, copy, move, reset), every observable of the texture - validity, dimensions per level, level/face/depth counts, which images are present, completeness, converted state, format/type/alpha/mask, data sizes and save result - is the one the documented lifecycle prescribes for that sequence. A call that fails returns its failure value and leaves every observable of the texture unchanged. Queries outside the texture's extent return the documented empty answer and never touch other memory.",
 ["histories","inputs"],"all call histories over all dimensions (1D/2D/3D/cube, arrays), mip counts, sizes and valid or invalid arguments",
 "The unit tests run a dozen straight-line happy-path histories; failed calls in the middle of a history, repeated conversion, regeneration and out-of-range queries after a failed call are never combined.",
 [L+"Texture.cpp",I+"Texture.h"],
 [("argument and range guards of setImage/getImage/data/dataSize",L+"Texture.cpp"),("imagesComplete and convert preconditions",L+"Texture.cpp"),("generateMipmaps validation before mutation",L+"Texture.cpp")],
 ["return values and getters of Texture"],
 [("images","image present per (mip, depth, face)",L+"Texture.cpp Texture::Impl::images"),("textures","converted data per (mip, depth, face)",L+"Texture.cpp Texture::Impl::textures"),("mipLevels","current number of levels",L+"Texture.cpp Texture::Impl::mipLevels")])
p("C02","Every generated mip level derives from the right source image",
 "After mipmap generation with any set of custom mip images, each (level, array element, face) holds: its own custom image resized to the level if one was given; otherwise the previous level of the same element and face, where a 'once' custom image is skipped in favour of the image that would have been there and a 'continue' custom image replaces the source for all following levels. Images of other elements or faces never contribute; for 3D textures each slice is a convex combination only of the previous level's slices it covers, and every level is in the texture's size and colour space.",
 ["inputs","histories"],"all dimensions, array/cube/3D extents, level counts, filters and all assignments of once/continue custom images to (level, element, face)",
 "Tests place one custom mip in a single chain; the number of once/continue assignments over faces, elements and levels is exponential and state carried from one chain to the next never shows with one chain.",
 [L+"Texture.cpp",I+"Texture.h"],[("prevImage / inputImages restore state",L+"Texture.cpp generateMipmaps"),("CustomMipImage copy and move",L+"Texture.cpp"),("generateMips3d slice weights",L+"Texture.cpp")],
 ["Texture::getImage after generateMipmaps","converted bytes per level"],
 [("prevImage","image to resume from after a once replacement",L+"Texture.cpp")])
p("C03","Conversion result is independent of thread count and schedule",
 "For every texture, converting with any number of threads and under any interleaving of the workers yields exactly the bytes that a single-threaded conversion yields: each unit of work is performed exactly once, every write of a worker to a surface lands in that unit's own region, no two workers access the same memory without synchronisation when one writes, and all workers have finished before conversion returns.",
 ["schedules","inputs"],"all thread counts (0, 1, 2, more than jobs, all cores), all surface sizes and all interleavings of the workers",
 "A unit test runs whatever interleaving the machine happens to produce; small test surfaces have fewer jobs than threads so the pool is rarely even used.",
 [L+"Converter.cpp",L+"Converter.h",L+"StandardConverter.cpp",L+"StandardConverter.h"],
 [("atomic job counter and join",L+"Converter.cpp Converter::convert"),("job to pixel-range mapping",L+"StandardConverter.cpp")],
 ["bytes of every surface after convert","memory accesses and synchronisation of worker threads (compiler instrumentation)"],
 [("curJob","next unit of work to hand out",L+"Converter.cpp")])
p("C04","Pixel encoding matches the format's name, range and rounding",
 "For every supported uncompressed format and type and every input colour, the stored pixel holds exactly the channels the format names, in the named order and bit widths, each encoded with the type's rule: normalised values clamped then rounded to nearest, integers rounded and saturated to the channel's range, half/float/packed-float values to the nearest representable with saturation rules of the format. Bits of one channel never depend on another channel (except a shared exponent), and channels that the format lacks have no effect.",
 ["inputs"],"all formats x valid types x all channel values, including negatives, values above one, integer extremes, halves, subnormals, infinities",
 "Tests encode one gradient per format and check with tolerance; saturation at both ends, ties, extreme integers and cross-channel interference need systematic input sweeps.",
 [L+"StandardConverter.cpp",L+"StandardConverter.h",L+"HalfFloat.h",L+"HalfFloat.cpp"],
 [("packing functions per format",L+"StandardConverter.h"),("clamp and round per type",L+"StandardConverter.cpp"),("half float encoding",L+"HalfFloat.cpp")],["Texture::data after convert"])
p("C05","Every converted surface contains its own image, pixel for pixel",
 "After conversion, the data of each (face, level, depth) has exactly width x height blocks of the format's size for that level and block (x, y), counted row by row from the top-left, encodes pixel (x, y) of the image that was set for that same (face, level, depth). This holds for every size, including widths that are not a multiple of any internal batch size.",
 ["inputs"],"all dimensions, widths, heights, depths, faces, level counts and formats",
 "Tests convert a few fixed sizes; batch boundaries, 1-pixel rows and the product of faces, levels and depths are not sampled.",
 [L+"StandardConverter.h",L+"StandardConverter.cpp",L+"Converter.cpp",L+"Texture.cpp"],[("scanline order and batch bounds",L+"StandardConverter.h"),("surface index loops",L+"Converter.cpp")],["Texture::data, Texture::dataSize"])
p("C06","Format capability answers are consistent with actual behaviour",
 "For every format, type, colour space and file type: validity queries agree with each other, with the documented support table and with what conversion and saving actually do (conversion succeeds exactly for valid pairs whose colour space the format supports natively; saving succeeds exactly for pairs reported valid for that file type, else reports unsupported). Block size, block extent, minimum size, alpha presence, maximum mip count and the file type deduced from a name equal what the format name, dimensions or extension imply.",
 ["inputs","configurations"],"the complete product of formats, types, file types, colour spaces; all texture extents for level counts; all file names",
 "The tables are spread over five files and each test looks at one entry of one of them; agreement of all of them is a cross-product property.",
 [L+"Texture.cpp",L+"Converter.cpp",L+"SaveDds.cpp",L+"SaveKtx.cpp",L+"SavePvr.cpp","README.md"],[("validity tables",L+"Texture.cpp"),("isValidForDds/Ktx/Pvr",L+"SaveDds.cpp")],["static queries of Texture, results of convert and save"])
p("C07","A saved DDS file decodes back to exactly the texture",
 "For every texture and format valid for DDS, a reader that knows only the DDS specification finds in the saved file a header describing exactly the texture's format (bit layout, type, sRGB), dimension, extents, array size, cube flag, mip count, pitch and alpha mode, followed by every surface's bytes in DDS order, and nothing else.",
 ["inputs"],"all DDS-valid formats and types, dimensions, extents, array sizes, mip counts, colour spaces, alpha types",
 "Tests check that a non-empty stream was written; no test parses the header, let alone for the product of formats and shapes.",
 [L+"SaveDds.cpp",L+"SaveDds.h"],[("header construction",L+"SaveDds.cpp"),("surface order element, face, level, slice",L+"SaveDds.cpp")],["bytes produced by Texture::save"])
p("C08","A saved KTX file decodes back to exactly the texture",
 "For every texture and format valid for KTX, a reader that knows only the KTX 1 specification finds an identifier, header fields (type, type size, format, internal format, base format, extents, element, face and level counts) that describe exactly the texture and its bit layout, and per level an image size and row-padded surface bytes in KTX order that equal the converted data, and nothing else.",
 ["inputs"],"all KTX-valid formats and types, dimensions, extents (rows needing padding included), array sizes, mip counts, colour spaces",
 "Tests check that a non-empty stream was written; row padding and the image-size field differ by shape and are never inspected.",
 [L+"SaveKtx.cpp",L+"SaveKtx.h"],[("format table",L+"SaveKtx.cpp"),("level, padding and surface loops",L+"SaveKtx.cpp")],["bytes produced by Texture::save"])
p("C09","A saved PVR file decodes back to exactly the texture",
 "For every texture and format valid for PVR, a reader that knows only the PVR 3 specification finds header fields (pixel format, colour space, channel type, pre-multiplied flag, extents, surface, face and level counts, metadata blocks and their total size) that describe exactly the texture, followed by every surface's bytes in PVR order, and nothing else.",
 ["inputs"],"all PVR-valid formats and types, dimensions, extents, array sizes, mip counts, colour spaces, alpha types",
 "Tests check that a non-empty stream was written; no test parses the header or metadata.",
 [L+"SavePvr.cpp",L+"SavePvr.h"],[("pixel format construction",L+"SavePvr.cpp"),("metadata size and blocks",L+"SavePvr.cpp")],["bytes produced by Texture::save"])
p("C10","Saving reports success exactly when every byte was accepted",
 "For every output sink, whatever point it starts refusing data at, saving a texture returns success only if the sink accepted every byte of the file, and a write error otherwise; on success file, stream and memory destinations receive identical bytes. Requests that are invalid, unsupported or of unknown type return exactly that result without having written anything, creating or altering a file, and saving never changes the texture, so it can be repeated with identical outcome.",
 ["crash_points","fault_sequences","inputs"],"every byte offset at which a sink can fail, every container, shape and destination kind",
 "No existing test makes a sink fail except an unopenable path; failure at each individual write is a fault-enumeration property.",
 [L+"Texture.cpp",L+"SaveDds.cpp",L+"SaveKtx.cpp",L+"SavePvr.cpp",L+"Shared.h",L+"Shared.cpp"],[("checked write helper",L+"Shared.h"),("result mapping and final flush",L+"Texture.cpp")],["SaveResult and bytes in the sink, for sinks failing at byte k"])
p("C11","Image pixel access is exact, bounded and isolated",
 "For every image format, setting a pixel and reading it back returns the colour quantised (normalised channels to the nearest code, integers without their fraction) and saturated to the format's channels (grayscale formats store the luminance, computed in linear space for sRGB images, or the red channel when asked not to convert), and changes no other pixel. Row 0 is the top row, row memory obtained directly shows the same values at the advertised bit positions, and any access outside the image returns failure and changes nothing.",
 ["inputs","histories"],"all formats, colour spaces, sizes, coordinates, colours in and out of range, and sequences of writes",
 "Tests set a few in-range colours in a few formats and compare one pixel; isolation, saturation and masks over all formats are not sampled.",
 [L+"Image.cpp",I+"Image.h",I+"Color.h"],[("getPixelImpl/setPixelImpl/setPixelNoGrayscaleImpl",L+"Image.cpp"),("channel masks and shifts",L+"Image.cpp")],["Image::getPixel, setPixel, scanline, masks"])
p("C12","Rotations and flips are exact pixel permutations",
 "For every image format and size, rotating by any multiple of 90 degrees or flipping along an axis moves every pixel to the position the operation names and changes no pixel value, format or colour space; dimensions swap exactly for odd quarter turns. Consequently any sequence of these operations equals the corresponding element of the symmetry group of the rectangle, and operations returning a new image leave the source unchanged.",
 ["inputs","histories"],"all formats, sizes (including 1xN and Nx1) and all sequences of operations",
 "Tests rotate one small image once per angle in a few formats; compositions, degenerate sizes and fallback formats are not covered.",
 [L+"Image.cpp",I+"Image.h"],[("rotate with per-format fallback",L+"Image.cpp"),("flipHorizontal, flipVertical",L+"Image.cpp")],["Image::getPixel after the operation"])
p("C13","Channel operations compute the documented per-pixel function",
 "Swizzle, grayscale, alpha pre-multiplication and colour-space change replace every pixel by the documented function of that same pixel only: swizzle picks the named channel (unused gives 0, or 1 for alpha), grayscale and pre-multiplication act in linear space whatever the image's colour space, alpha is never colour-converted, and a colour-space change to the current space or there and back is the identity up to storage precision. Width, height and format never change, and every row and column is processed.",
 ["inputs","histories"],"all formats, colour spaces, sizes, pixel values, channel selections and sequences of operations",
 "Tests apply each operation once to one image in RGBAF; colour space x format x selection combinations and sequences are not covered.",
 [L+"Image.cpp",I+"Color.h"],[("swizzle, grayscale, preMultiplyAlpha, changeColorSpace",L+"Image.cpp"),("sRGB transfer functions",I+"Color.h")],["Image::getPixel after the operation"])
p("C14","Images, textures and custom mips behave as independent values",
 "A copy of an image, texture or custom mip image equals its source at the time of copying in every observable, and afterwards no operation on either can be observed through the other; assignment replaces the target's whole value, including self-assignment leaving it unchanged. A move transfers the value to the target, and the source can be reassigned, reset or destroyed safely; failed loads, initialisations and resets leave an invalid, reusable object.",
 ["histories"],"all histories of construction, copy, move, assignment, reset and mutation over several objects",
 "Tests copy once and compare; aliasing shows only in histories that mutate or destroy one side later.",
 [L+"Image.cpp",L+"Texture.cpp",I+"Image.h",I+"Texture.h"],[("copy/move constructors and assignment",L+"Image.cpp"),("CustomMipImage special members",L+"Texture.cpp")],["getters and pixels of every live object after every step"])
p("C15","Image files load identically from every kind of source",
 "For every encoded image, loading from a file, a memory block, a seekable stream and a non-seekable stream gives the same outcome; when it succeeds the image has the encoded dimensions, the pixel at row 0, column 0 is the top-left encoded pixel, every colour, gray level and alpha equals the encoded one, and the requested colour space is recorded. Saving an image and loading it back preserves the pixels a lossless encoding can represent, truncated or unrecognisable input yields an invalid image or failure rather than wrong dimensions or a crash, and a sink that refuses data makes saving fail.",
 ["inputs","fault_sequences"],"all lossless encodings, bit depths, palettes, sources, truncation points and sink failure points",
 "Tests load one PNG from a file and from memory; palettes, bit depths, stream kinds and truncation points are not sampled.",
 [L+"Image.cpp",L+"Shared.cpp"],[("FreeImage I/O adapters",L+"Image.cpp"),("format normalisation after load",L+"Image.cpp"),("readStreamData",L+"Shared.cpp")],["Image::load/save results, pixels"])
p("C16","The tool accepts exactly its documented command language",
 "For every argument vector the tool terminates with exit code 0, 1, 2 or 3: 1 exactly when the arguments violate the documented grammar or constraints (required options, argument counts and values, no mixed inputs, complete arrays and cubes, valid format for the file type, valid custom mip positions), 2 when an input cannot be loaded or a custom mip does not exist in the texture, 3 when conversion or writing fails. A complete output file exists after exit code 0, and with a non-zero code because of arguments or inputs no output file is created or altered; the order in which independent options are given does not matter.",
 ["inputs"],"all argument vectors over the documented options, including missing, repeated, malformed and reordered arguments",
 "80 CLI tests each check the exit code of one argument vector; the language of vectors is unbounded and no test looks at the output file or at option order.",
 ["tool/CommandLine.cpp","tool/CommandLine.h","tool/main.cpp","tool/README.md"],[("argument loop and validate",  "tool/CommandLine.cpp"),("exit codes","tool/main.cpp")],["process exit code, presence and header of the output file"])
p("C17","The tool applies its operations in the documented order to the right image",
 "For every combination of options, the texture written by the tool equals the one obtained by applying to each input image the documented operations in the documented order (linearise, resize, rotate, grayscale, normal map, flip X, flip Y, swizzle, pre-multiply), placing it at the array index or cube face given for it, generating the requested mip levels with the given custom mips, and encoding with the given format, type and alpha mode. The number of jobs never changes the output.",
 ["inputs","configurations"],"all combinations of operations, input kinds, index and face assignments, custom mips, formats, types and job counts",
 "CLI tests check only exit codes, never pixels, and never combine operations.",
 ["tool/main.cpp","tool/CommandLine.cpp","tool/README.md"],[("loadAndProcessImage","tool/main.cpp"),("loadImages, saveTexture","tool/main.cpp")],["decoded pixels and header of the output file"])
p("C18","Normal maps are computed from the right neighbours",
 "For every image, option set and height scale, the normal at each pixel is the unit vector proportional to the negated height differences of its horizontal and vertical neighbours (right handed, Z positive; wrapping to the opposite side on each axis exactly when requested, one-sided at the border otherwise), stored in [-1, 1] when the sign is kept and mapped to [0, 1] otherwise. Hence flat areas give the straight-up normal, and with wrapping the map commutes with cyclic shifts of the image.",
 ["inputs"],"all heights fields, sizes (including 1xN), wrap/sign options, height scales and destination formats",
 "Tests compare one 2x2..NxN example per option; border and degenerate sizes per axis and option are not sampled.",
 [L+"Image.cpp",I+"Image.h"],[("createNormalMap",L+"Image.cpp")],["Image::getPixel of the result"])
p("C19","Resizing is size-exact, unbiased and confined",
 "For every image, target size and filter, a successful resize returns exactly the requested dimensions with unchanged format and colour space and leaves the source unchanged; resizing to the same size is the identity, a uniform image stays uniform with the same value (up to storage precision of linear space for sRGB images), mirrored inputs give mirrored outputs (transposed ones transposed outputs, for filters that do not overshoot), and box and linear results are the mean of the covered pixels weighted by the filter, so within the range of those. Box reduction by a whole factor is the average of the covered pixels. All of this is computed in linear space for sRGB images, and invalid sizes give an invalid image.",
 ["inputs"],"all formats, colour spaces, source and target sizes and filters",
 "Tests resize one image per filter and format and compare a pixel or the size; orientation, uniformity and range hold for all sizes or not at all.",
 [L+"Image.cpp"],[("resize with per-format fallback",L+"Image.cpp")],["Image::getPixel of the result"])
p("C20","Image format conversion preserves colours up to destination precision",
 "Converting an image between any two pixel formats yields an image of the same size and colour space in which every pixel has the source colour saturated in the destination's channels: within one step of destinations of up to 8 bits with the ends of the range exact, rounded to nearest otherwise, and integer destinations dropping the fraction (luminance for grayscale destinations unless asked for the red channel, opaque alpha where the source has none, missing channels dropped). Converting to a wider format and back is the identity, position is preserved, and the source is unchanged.",
 ["inputs"],"all ordered pairs of formats, colour spaces, sizes and pixel values",
 "Tests convert one image for some pairs with a tolerance; the complete pair matrix with boundary values is not covered.",
 [L+"Image.cpp",I+"Image.h"],[("convert with fallback selection",L+"Image.cpp")],["Image::getPixel of the result"])
p("C21","Value-range adjustment maps source ranges onto target ranges",
 "For every source format and target type, range adjustment maps normalised sources onto [-1, 1] for signed normalised targets and onto the integer range of the source's own bit depth for integer targets (per channel, shifted to signed range for signed targets), and leaves every other combination of source and target untouched. The extremes of the source range land on the extremes of the target range and the mapping is per channel and monotone.",
 ["inputs","configurations"],"all image formats, original formats, target types and pixel values",
 "Tests check a few source/target pairs at a few values; the complete matrix with separate original format is not covered.",
 [L+"Texture.cpp",I+"Texture.h"],[("adjustImageValueRange",L+"Texture.cpp")],["pixels and format after Texture::adjustImageValueRange"])
p("C22","Separate objects can be used by separate threads",
 "For every number of threads that each work on images and textures of their own (possibly reading images and textures that all of them share and nobody changes), and for every interleaving including the very first use of the library, every operation of every thread yields exactly what it yields when that thread's operations are done alone, and the library performs no two accesses of different threads to the same memory, one of them a write, without ordering them.",
 ["schedules","histories"],"all interleavings of operation sequences on separate objects, first use included",
 "Tests use the library from a single thread, where hidden shared state (caches, scratch buffers, lazy initialisation) is invisible; a race shows only under particular interleavings.",
 [L+"Image.cpp",L+"Texture.cpp",L+"Converter.cpp",L+"SaveDds.cpp",L+"SaveKtx.cpp",L+"SavePvr.cpp",L+"Shared.cpp"],[("freeImageInitialize",L+"Image.cpp"),("emptyImage and static tables",L+"Texture.cpp"),("save to memory",L+"Texture.cpp")],["results of all public operations per thread","memory accesses of the library's code per thread"])
p("C23","Nothing is kept that no object owns",
 "Whatever history of calls an application makes - loads of damaged files, refused operations, failing saves, conversions with any number of threads included - all memory, open files and threads the library takes are owned by the images, textures and custom mip images it made, and are given back with them: behind repetitions of the same history the process holds no more of any of them, neither when all objects are destroyed after each repetition nor when the objects are kept and used again. The surroundings of the process (working directory, locale, rounding mode, signal handling, limits, standard streams) are as they were.",
 ["histories","fault_sequences"],"all histories of the public API, failing calls included, repeated any number of times",
 "Tests never look at memory, descriptors or threads, and run each operation once; a leak in one failing path is invisible to them.",
 [L+"Image.cpp",L+"Texture.cpp",L+"Converter.cpp",L+"SaveDds.cpp",L+"SaveKtx.cpp",L+"SavePvr.cpp"],[("Impl::create, Impl destructor, load",L+"Image.cpp"),("convert",L+"Converter.cpp"),("save",L+"Texture.cpp")],["blocks and bytes of memory, open files, threads of the process between calls"])
p("C24","Results depend on the arguments and objects only",
 "What a call answers, the value it leaves in an object and every byte it writes are determined by its arguments and the values of the objects it is about: the same history of calls gives identical results whatever fresh memory and the stack happen to hold, whichever other histories were run before in the process, when it is repeated, and alone in a fresh process.",
 ["histories","configurations"],"all histories of the public API, all contents of uninitialised memory, all preceding histories",
 "Tests run in one fixed order in one process with whatever memory holds; reading something that was never written, or left by an earlier call, mostly goes unnoticed.",
 [L+"Image.cpp",L+"Texture.cpp",L+"Converter.cpp",L+"StandardConverter.h",L+"SaveDds.cpp",L+"SaveKtx.cpp",L+"SavePvr.cpp"],[("initialize, resize, createNormalMap",L+"Image.cpp"),("generateMipmaps, convert",L+"Texture.cpp"),("headers",L+"SaveDds.cpp")],["results of all public operations, bytes of files"])
p("C25","Running out of resources is reported, never hidden",
 "Whichever request of a call for resources is refused - memory for pixels, lists or objects, opening a file, a conversion or a thread, once or from there on - the process goes on, and the call either does what it would have done anyway, or reports failure by its result or an exception, or hands out an object that says it is not whole: it never claims a success it was not. Objects the call is not about keep their values, everything the call had taken is given back with the objects, and all objects can be used, assigned and destroyed afterwards.",
 ["fault_sequences","histories"],"all requests for resources made by all calls of all histories, each refused alone or together with all that follow",
 "Tests never run out of anything, so the paths behind a refused allocation, conversion or thread are never executed.",
 [L+"Image.cpp",L+"Texture.cpp",L+"Converter.cpp",L+"SaveDds.cpp",L+"SaveKtx.cpp",L+"SavePvr.cpp"],[("Impl::create, load, convert, resize",L+"Image.cpp"),("initialize, assignment, generateMipmaps, convert",L+"Texture.cpp"),("threads of the conversion",L+"Converter.cpp")],["result or exception of the refused call","states and contents of all objects behind it","live memory once all objects are destroyed","status of the process"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
