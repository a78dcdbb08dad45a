#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state, observe, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=state, meaning='what the property talks about', where=files[0])], observe_at=[observe], hook_needed=None)))
SHAPE = "every image size, row padding, content, colour range, matrix, mode and instruction set"
WIDTH = "kernels change with the width (vector block, smaller block, scalar tail), the stride and the parity of rows and columns, per entry point and per instruction set; the tests sample a few sizes of a few entry points"

p("C01", "Only image descriptions that hold the image are accepted; no call panics",
  "Every conversion accepts an image whose planes have at least one pixel, strides no shorter than a row and exactly stride x rows samples, and rejects, with an error and without touching the destination, an image with a zero dimension, a stride shorter than a row, a plane too short for its rows, or source and destination sizes that do not match. No image description, however wrong, makes a call with samples of its bit depth panic, crash or access memory outside the buffers it was given (turning or mirroring an empty picture may also succeed and do nothing).",
  ["inputs"], "every entry point x every plane x every combination of size, stride and length, including extreme ones",
  "the tests only pass well-formed images; the checks are repeated per image type and per entry point",
  ["src/yuv_support.rs", "src/yuv_error.rs", "src/images.rs"],
  [("check_constraints of each image type", "src/images.rs"), ("check_* helpers", "src/yuv_error.rs"), ("per-call checks", "every conversion file")],
  "image descriptions (size, strides, plane lengths)", "returned Result, panic, destination contents, guard pages")
p("C02", "A successful conversion writes the whole destination picture and nothing else",
  "When a conversion succeeds, it has written every sample of every destination plane that belongs to the picture: all rows and columns, including odd last rows and columns and vector tails. It has changed no other sample of the destination: row padding keeps its contents.",
  ["inputs"], SHAPE, WIDTH, ["src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/yuv_nv_to_rgba.rs", "src/avx2", "src/sse", "src/avx512bw"],
  [("row drivers with chunks_exact(stride)", "every conversion file"), ("SIMD row kernels and tails", "src/sse, src/avx2, src/avx512bw")],
  "destination planes before and after", "public call return, cell by cell")
p("C03", "Results depend only on the picture: not on padding, addresses or old contents",
  "The result of a conversion is a function of the samples of the source picture and the call's parameters alone: repeating the call with other row padding, other buffer addresses and another previous destination content gives the same destination picture. A call reads nothing outside the source buffers, writes nothing outside the destination buffers, and leaves the source as it was.",
  ["inputs", "histories"], SHAPE + ", every earlier destination content", "an over-read or a use of stale destination samples is invisible unless the padding, the address or the previous contents change",
  ["src/avx2", "src/sse", "src/avx512bw", "src/yuv_to_yuy2.rs"],
  [("SIMD tails through stack buffers", "src/sse, src/avx2, src/avx512bw"), ("row slices", "every conversion file")],
  "source and destination memory with guard pages", "two executions of the same call")
p("C04", "8-bit YUV decodes to RGB with the colours of the chosen matrix and range",
  "Every pixel decoded from 8-bit planar, bi-planar, packed 4:2:2 or packed 4:4:4 YUV equals the exact result of the chosen matrix and range, clipped to 0..255, within the rounding of the fixed-point method: 1 step on the portable path and in professional mode, 3 steps elsewhere (4 for packed 4:2:2; fast mode counted against its documented 6-bit coefficients). Luma below black counts as black. The pixel uses the luma at its own position and the chroma sample of the block it lies in.",
  ["inputs", "configurations"], SHAPE, WIDTH + "; most test colours are flat and compared with wide tolerances",
  ["src/yuv_to_rgba.rs", "src/yuv_nv_to_rgba.rs", "src/yuy2_to_rgb.rs", "src/ayuv_to_rgb.rs", "src/yuv_support.rs"],
  [("inverse transform coefficients", "src/yuv_support.rs"), ("row kernels", "src/sse, src/avx2, src/avx512bw"), ("mode dispatch", "src/yuv_nv_to_rgba.rs")],
  "source and destination samples", "public call return")
p("C05", "10- to 16-bit YUV decodes to RGB with the colours of the chosen matrix and range",
  "Every pixel decoded from 10-, 12-, 14- or 16-bit YUV (planar, bi-planar or packed) to 8-bit, high bit-depth, 30-bit or half-float RGB equals the exact result of the chosen matrix and range, clipped to the destination's range, within the rounding of the fixed-point method: a few steps of the source's depth. Bright and saturated colours clip; they never wrap around.",
  ["inputs", "configurations"], SHAPE + ", every depth", WIDTH + "; high bit depths are hardly tested",
  ["src/yuv_p16_rgba_p16.rs", "src/yuv_nv_p10_to_rgb.rs", "src/yuv_nv_p10_to_ar30.rs", "src/yuv_p10_rgba.rs", "src/yuv_p16_rgba_f16.rs"],
  [("high bit-depth row kernels", "src/sse, src/avx2, src/avx512bw"), ("coefficients and rescaling", "src/yuv_support.rs")],
  "source and destination samples", "public call return")
p("C06", "8-bit RGB encodes to YUV with the chosen matrix and range",
  "Every luma sample encoded from 8-bit RGB equals the exact result of the chosen matrix and range for its pixel, and every chroma sample the exact result for the average of the pixels of its block that exist, within the rounding of the fixed-point method (1 step on the portable path and in professional mode, 2 on vector paths, 3 in fast mode). This includes the partial blocks of odd last rows and columns.",
  ["inputs", "configurations"], SHAPE, WIDTH, ["src/rgba_to_yuv.rs", "src/rgba_to_nv.rs", "src/rgb_to_y.rs", "src/yuv_support.rs"],
  [("forward transform coefficients", "src/yuv_support.rs"), ("row kernels", "src/sse, src/avx2, src/avx512bw"), ("odd row and column handling", "src/rgba_to_yuv.rs")],
  "source and destination samples", "public call return")
p("C07", "10- to 16-bit RGB encodes to YUV with the chosen matrix and range",
  "Every luma and chroma sample encoded from 10-, 12-, 14- or 16-bit RGB to planar or bi-planar YUV equals the exact result of the chosen matrix and range for its pixel or for the average of its block, within the rounding of the fixed-point method (a few steps of that depth), including partial blocks at odd edges.",
  ["inputs", "configurations"], SHAPE + ", every depth", WIDTH, ["src/rgb16_to_yuv_p16.rs", "src/rgb_to_nv_p16.rs", "src/yuv_support.rs"],
  [("high bit-depth encoders", "src/rgb16_to_yuv_p16.rs"), ("row kernels", "src/sse, src/avx2, src/avx512bw")],
  "source and destination samples", "public call return")
p("C08", "A sample influences only the pixels it belongs to",
  "Changing one luma or alpha sample of a YUV picture changes at most the pixel at its position, changing one chroma sample at most the pixels of its block, and changing one RGB pixel changes at most its own luma (and alpha) and the chroma samples of its block. Every other destination sample stays bit-identical.",
  ["inputs"], SHAPE + ", every sample position", "needs pairs of executions that differ in one sample, at positions around block and row boundaries",
  ["src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/yuv_nv_to_rgba.rs"],
  [("pixel to chroma mapping", "row kernels"), ("row pairing for 4:2:0", "row drivers")],
  "pairs of source and destination pictures", "two public calls")
p("C09", "Channel and sample orders are pure relabelings",
  "Entry points that differ only in the order in which channels are stored (RGB/BGR/RGBA/BGRA, NV12/NV21, the four packed 4:2:2 orders, AYUV/VYUA, the 30-bit orders, presence of an opaque alpha) compute the same picture: each named channel has identical values.",
  ["inputs", "configurations"], SHAPE, "the order is a constant parameter handled separately in each vector kernel; tests do not compare orders with each other",
  ["src/yuv_support.rs", "src/yuv_to_rgba.rs", "src/yuv_nv_to_rgba.rs"],
  [("channel order parameters", "src/yuv_support.rs"), ("interleaving stores and loads", "src/sse, src/avx2, src/avx512bw")],
  "pictures produced by pairs of calls", "two public calls")
p("C10", "Every instruction set computes the same picture",
  "For the same call, the portable path and the paths for each enabled instruction set give destination pictures that differ by no more than the rounding of their fixed-point arithmetic, at every pixel: at most 3 steps for colour arithmetic and nothing at all for operations that only move, pack or copy samples. Luma below black, which some paths clip before the arithmetic and others after it, is left out.",
  ["inputs", "configurations"], SHAPE, "one test run exercises one instruction set; nothing compares them",
  ["src/sse", "src/avx2", "src/avx512bw", "src/yuv_to_rgba.rs"],
  [("runtime feature dispatch", "every conversion file"), ("vector kernels", "src/sse, src/avx2, src/avx512bw")],
  "pictures produced by each build", "public call return of each build")
p("C11", "Alpha is carried, synthesized or premultiplied exactly as asked",
  "A destination alpha channel holds the source's alpha of the same pixel when the source has one (rescaled to the destination's depth) and the opaque value otherwise. When premultiplication is requested, the colour channels are those of the plain conversion scaled by alpha, rounded, and alpha itself is unchanged.",
  ["inputs", "configurations"], SHAPE + ", every alpha value", "alpha takes separate loads and stores in every vector kernel; tests do not check it",
  ["src/yuv_to_rgba_alpha.rs", "src/ayuv_to_rgb.rs", "src/yuv_p16_rgba16_alpha.rs"],
  [("alpha kernels", "src/yuv_to_rgba_alpha.rs"), ("premultiply", "src/ayuv_to_rgb.rs")],
  "source and destination samples", "public call return")
p("C12", "Packing to and unpacking from packed 4:2:2 preserves every sample",
  "Packing planar 4:2:2 into any packed 4:2:2 order and unpacking it again is lossless, at any size; packing 4:2:0 repeats each chroma row for its rows, packing 4:4:4 averages each pair of chroma samples, unpacking to 4:2:0 keeps the even rows' chroma and to 4:4:4 repeats each chroma sample for its pixels. Luma is always copied unchanged.",
  ["inputs", "histories"], SHAPE + ", chains of pack and unpack", WIDTH, ["src/yuv_to_yuy2.rs", "src/yuy2_to_yuv.rs", "src/yuv_to_yuy2_p16.rs", "src/yuy2_to_yuv_p16.rs"],
  [("pack kernels", "src/yuv_to_yuy2.rs, src/sse, src/avx2"), ("unpack kernels", "src/yuy2_to_yuv.rs, src/sse, src/avx2")],
  "planar and packed pictures", "chains of public calls")
p("C13", "GBR planes are an exact reordering of RGB (rescaled in limited range)",
  "In full range, converting RGB to GBR planes and back reproduces the picture exactly, each plane holding its own channel unchanged. In limited range, each component is scaled linearly between the range's bounds, to the nearest step.",
  ["inputs", "histories", "configurations"], SHAPE + ", every depth", WIDTH, ["src/to_identity.rs", "src/from_identity.rs", "src/from_identity_f16.rs"],
  [("GBR copy and scale kernels", "src/to_identity.rs, src/from_identity.rs")], "planes and interleaved pictures", "chains of public calls")
p("C14", "YCgCo conversions follow the YCgCo equations in both directions",
  "Decoding YCgCo gives R = Y - Cg + Co, G = Y + Cg, B = Y - Cg - Co of the range-normalised samples, clipped; encoding 8-bit RGB gives the inverse relation, chroma being that of the average of its block. Results are within the rounding of the fixed-point method.",
  ["inputs", "configurations"], SHAPE, WIDTH, ["src/ycgco_to_rgb.rs", "src/rgb_to_ycgco.rs", "src/ycgco_to_rgb_alpha.rs"],
  [("decoder", "src/ycgco_to_rgb.rs"), ("encoder", "src/rgb_to_ycgco.rs")], "source and destination samples", "public call return")
p("C15", "RGB channel shuffles move every channel to its named place, losslessly",
  "Converting between RGB, BGR, RGBA and BGRA copies every named channel of every pixel unchanged, adds an opaque alpha where the source has none, and drops it where the destination has none. Any chain of such conversions preserves the colour channels.",
  ["inputs", "histories"], SHAPE, WIDTH, ["src/shuffle.rs"], [("shuffle kernels", "src/shuffle.rs, src/avx512bw")], "interleaved pictures", "chains of public calls")
p("C16", "Rotation and mirroring permute pixels and form the expected group",
  "Rotating by 90, 180 or 270 degrees (counterclockwise) and mirroring move every pixel, whole, to the position the operation names; no pixel is lost, repeated or altered. Four quarter turns, two half turns or two equal mirrorings give back the original picture, and turns compose.",
  ["inputs", "histories"], SHAPE + ", every chain of operations", WIDTH, ["src/geometry.rs", "src/mirroring.rs"],
  [("transpose and rotate", "src/geometry.rs"), ("mirror", "src/mirroring.rs")], "pictures along a chain of operations", "chains of public calls")
p("C17", "30-bit RGB holds each channel at its named bits, in either byte order",
  "Packing RGB into a 30-bit format puts each channel, rescaled to 10 bits, at the bits the format names, with an opaque or rescaled alpha; unpacking reads the same bits back. Network byte order is the host order with the four bytes of each pixel reversed.",
  ["inputs", "configurations", "histories"], SHAPE, WIDTH, ["src/rgb_ar30.rs", "src/ar30_rgb.rs", "src/yuv_support.rs"],
  [("pack/unpack", "src/yuv_support.rs"), ("kernels", "src/rgb_ar30.rs, src/ar30_rgb.rs")], "packed and interleaved pictures", "chains of public calls")
p("C18", "Half-float conversions scale between 0..1 and the integer range",
  "Converting 8- to 16-bit samples to half-float gives the sample divided by the largest value of its depth, within one unit in the last place; converting back multiplies, rounds and saturates at the limits of the sample type. A round trip from integers of up to 10 bits reproduces them exactly.",
  ["inputs", "configurations", "histories"], SHAPE + ", every sample value", WIDTH, ["src/f16_converter.rs", "src/yuv_p16_rgba_f16.rs"],
  [("converters", "src/f16_converter.rs")], "integer and half-float planes", "chains of public calls")
p("C19", "Sample containers: big-endian and high-bit formats hold the same picture",
  "A big-endian entry point computes exactly the picture of its little-endian counterpart, byte-swapped on the side it names. Formats that keep samples in the high bits ignore the low bits when reading and clear them when writing; formats that keep samples in the low bits write zero above the sample's depth.",
  ["inputs", "configurations"], SHAPE + ", every depth", "byte order and bit position are constant parameters handled separately in every kernel; tests do not cover them",
  ["src/yuv_support.rs", "src/yuv_p16_rgba_p16.rs", "src/rgb16_to_yuv_p16.rs"],
  [("endianness and bytes position parameters", "src/yuv_support.rs"), ("loads and stores", "high bit-depth kernels")], "source and destination samples", "pairs of public calls")
p("C20", "Sharp YUV: plain luma, and chroma of the block's pixels mixed in linear light",
  "Sharp YUV encoding gives every pixel its plain luma and every block the chroma of its pixels mixed in linear light of the chosen transfer function with weights 9:3:3:1 (12:4 for a pair, one pixel alone at an odd column), up to rounding. Every transfer function is honoured, and a picture of one colour encodes like the plain encoder.",
  ["inputs", "configurations"], SHAPE + ", every transfer function", WIDTH, ["src/sharpyuv"],
  [("gamma tables and downsampling", "src/sharpyuv"), ("row encoders", "src/sharpyuv")], "source and destination samples", "public call return")
p("C21", "RemoteFX (RDP) planes carry RGB as signed fixed point with the standard's matrix",
  "Encoding RGB to RemoteFX planes gives the signed fixed-point Y, Cb and Cr of the RemoteFX matrix for every pixel, decoding applies the inverse with clipping, and a round trip reproduces 8-bit colours within one step.",
  ["inputs", "histories"], SHAPE, WIDTH, ["src/rdp.rs"], [("RDP kernels", "src/rdp.rs")], "planes and interleaved pictures", "chains of public calls")
p("C22", "Dividing rows among threads never changes the result",
  "With thread-parallel processing enabled, every schedule and every number of worker threads gives the picture that sequential row-by-row processing gives: each destination row (or row pair) is written by exactly one task and no task reads what another writes.",
  ["schedules", "configurations", "inputs"], "every schedule of row tasks over every number of workers", "a race or a wrong row split shows only under particular schedules and heights",
  ["src/internals.rs", "src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs"],
  [("parallel row iterators", "src/internals.rs"), ("row pairing for 4:2:0", "row drivers")], "row tasks and destination rows", "public call return under several thread counts")
p("C23", "Encoding and decoding are inverse up to rounding; grays stay neutral",
  "Encoding an RGB picture to 4:4:4 YUV and decoding it with the same matrix and range reproduces every colour within a few steps, black and white included; with subsampled chroma the same holds for pictures of uniform colour. A gray picture encodes to neutral chroma (within 2 steps at 16 bits, in fast mode and for custom matrices) and neutral chroma decodes to exact gray.",
  ["inputs", "histories", "configurations"], SHAPE + ", every encode/decode pair", "encoder and decoder are tested apart or with wide tolerances on random colours",
  ["src/rgba_to_yuv.rs", "src/yuv_to_rgba.rs", "src/yuv_support.rs"],
  [("forward and inverse transforms", "src/yuv_support.rs")], "pictures along a chain of calls", "chains of public calls")
p("C24", "Monochrome pictures are luma alone",
  "Encoding to 4:0:0 gives the luma the chosen matrix and range define, and decoding 4:0:0 gives R = G = B at every pixel, equal to the range-normalised luma, with the alpha plane carried when there is one.",
  ["inputs", "configurations"], SHAPE + ", every depth", WIDTH, ["src/y_to_rgb.rs", "src/y_p16_to_rgb16.rs", "src/y_with_alpha_to_rgb.rs", "src/rgb_to_y.rs"],
  [("gray kernels", "src/y_to_rgb.rs, src/y_p16_to_rgb16.rs")], "source and destination samples", "public call return")
p("C25", "Samples beyond the declared depth cannot break a conversion",
  "Samples stored in 16-bit (or 32-bit packed, or half-float) buffers may hold any bit pattern, also ones larger than the depth the caller declares or outside 0..1. In a build without integer-overflow checks, as releases are, such a call still returns Ok, does not panic, reads and writes nothing outside the caller's buffers, and writes every sample of the destination picture; only the values are unspecified.",
  ["inputs", "configurations"], SHAPE + ", every bit pattern of every sample",
  "a table indexed by a sample, an unchecked load whose address depends on a sample, or a debug assertion on a value shows only with values no in-depth test picture contains; and only some paths use such tables",
  ["src/yuv_p16_rgba_p16.rs", "src/yuv_p16_rgba16_alpha.rs", "src/sharpyuv", "src/f16_converter.rs", "src/rgb16_to_yuv_p16.rs", "src/y_p16_to_rgb16.rs"],
  [("clamping before tables and stores", "high bit-depth kernels"), ("gamma table look-ups", "src/sharpyuv"), ("premultiplication by arbitrary alpha", "src/yuv_p16_rgba16_alpha.rs, src/yuv_p16_rgba_alpha.rs")],
  "source sample values", "public call return, canaries and guard pages")
p("C26", "Image structures: allocation, self-check, and owned or borrowed buffers",
  "An image allocated by the crate is zero-filled and has, for every plane, the strides and rows its picture needs at the chosen subsampling (odd sizes rounded up), so that its own check accepts it. The check of every image structure accepts descriptions that hold the picture and refuses ones that do not, plane by plane. A conversion gives the same picture and the same verdict whether its images own their buffers or borrow them, and the read-only view of a mutable image shows the same size, strides and samples.",
  ["inputs", "configurations", "histories"], "every image structure x subsampling x size, stride and plane length, and every conversion with owned and with borrowed images",
  "tests allocate even sizes and look at the picture only, never at the structure; the checks and views are written once per structure",
  ["src/images.rs", "src/yuv_support.rs", "src/yuv_error.rs"],
  [("alloc, to_fixed, BufferStoreMut", "src/images.rs"), ("check_constraints", "src/images.rs")],
  "image structures: size, strides, plane lengths, ownership", "public call return")
p("C27", "Calls are independent: no history and no interference between threads",
  "A conversion is a function of its arguments: the verdict, the set of samples written and the picture are the same when the call is the first one a process makes, when it comes after other calls of the same or of other conversions with other arguments (other matrices, ranges, depths, sizes), and when several threads make it and others at the same time on buffers of their own.",
  ["histories", "schedules"], SHAPE + ", every sequence of calls and every interleaving of calls in several threads",
  "tests make one call per process state: tables or scratch kept between calls, keyed by too little, or shared between threads, give the right picture the first time",
  ["src/yuv_support.rs", "src/sharpyuv", "src/internals.rs", "src/images.rs"],
  [("per-call tables of coefficients and gamma", "src/yuv_support.rs, src/sharpyuv"), ("feature detection and dispatch", "the constructors in every conversion"), ("scratch rows", "src/sharpyuv, src/yuv_nv_to_rgba.rs")],
  "all inputs of a public call; destination samples", "public call return")
p("C28", "Errors tell the truth",
  "When a call is refused, the error names something that is wrong with it: a zero-size error only when a size is zero, a mismatch of images only when they differ, an error about luma, chroma, the packed frame or the destination only when such a plane is at fault; the expected and received numbers are those of that plane (the length or stride the picture needs and the one it was given), they differ, and the message shows both.",
  ["inputs"], SHAPE + ", one or more descriptions (size, stride, plane length) made wrong",
  "tests look at Ok or at nothing: the check functions repeat the same arithmetic per plane kind and per element, and a wrong kind, a swapped pair or a number of another plane is still an Err",
  ["src/yuv_error.rs", "src/images.rs", "src/geometry.rs"],
  [("check_rgba_destination, check_y8_channel, check_chroma_channel, check_interleaved_chroma_channel, check_yuv_packed422", "src/yuv_error.rs"), ("check_constraints", "src/images.rs")],
  "sizes, strides and plane lengths of the call", "public call return (Err)")
p("C29", "A picture can be converted in bands of rows",
  "Converting some rows of a picture as a picture of their own - from a row that starts a chroma block, whole chroma blocks of rows or up to the end - gives exactly these rows of the conversion of the whole picture. The exception is sharp encoding, whose rows look at the row below: there the rows up to the end are.",
  ["inputs"], SHAPE + ", every band of rows",
  "tests convert whole pictures of one size; state carried from row to row, a rounding that depends on the row number, or a row handled by another kernel because of its position stays within the tolerance of every test",
  ["src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/yuv_nv_to_rgba.rs", "src/rgba_to_nv.rs", "src/sharpyuv", "src/yuv_p16_rgba_p16.rs", "src/rgb16_to_yuv_p16.rs"],
  [("row and row-pair loops", "every conversion")], "source rows, destination rows", "public call return")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
