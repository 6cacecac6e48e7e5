#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json
L = 'pythonbmp/BITMAPlib.py'
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, **kw):
    a = {'files': files, 'mechanism': [{'name': mechanism, 'where': ', '.join(files)}]}
    a.update(kw)
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})

prop('C01', 'Single-pixel set and get follow the BMP byte layout exactly',
 "For every bit depth (1, 4, 8, 24), image size and in-range coordinate, setting a pixel changes exactly the bits the BMP format assigns to that pixel (bottom-up rows padded to 4 bytes, after the header and palette; leftmost pixel in the high bits; blue, green, red byte order) to the given color and no other bit of the image, and getting a pixel returns exactly those bits. Setting an out-of-range pixel changes nothing and getting one reports failure (-1, or an empty color). Setting or getting by RGB goes through the same location and the image's palette.",
 ['inputs'], 'all depths, all widths/heights below 2^24, all in-range and out-of-range coordinates, all colors valid for the depth, all prior image contents',
 'Golden-file tests use a few fixed 24-bit images of one width; widths with padding, odd 4-bit columns, every bit position of 1-bit images and out-of-range coordinates are not sampled.',
 [L, 'pythonbmp/inttools.py', 'pythonbmp/bmpconstants.py', 'pythonbmp/colors.py'],
 'plotxybit, getxybit, plotRGBxybit, getRGBxybit, the *_bmof/_bmofhd offset family, _xbytes stride')

prop('C02', 'A new or copied image has a consistent header and exact size',
 "Creating an image of any width, height and supported depth yields a buffer whose length is exactly header+palette size plus padded row size times height, whose header records that file size, the data offset for the depth (62, 118, 1078 or 54), the width, height, depth and info-header size, and whose default palette has one entry per color; the size and depth accessors read those same values back. Making an empty copy, or a new image with another image's dimensions, keeps the dimensions (and for the copy the header and palette) and starts with blank pixels.",
 ['inputs'], 'all widths and heights below 2^24 and the four depths',
 'Tests create images of only a handful of sizes and never inspect header fields or padding.',
 [L, 'pythonbmp/inttools.py', 'pythonbmp/bmpconstants.py', 'pythonbmp/bmppal.py'],
 'newBMP/_setmeta/_bmmeta/_getbmflsz/_xbytes, getmaxx/getmaxy/getmaxxy/getmaxxyandbits/getmaxcolors/bottomrightcoord/centercoord, copyBMPhdr, CopyBMPxydim2newBMP')

prop('C03', 'Drawing colors exactly the pixels of its shape inside the image',
 'Points, horizontal, vertical and general lines, polylines, curves, filled rectangles, circle and ellipse outlines and discs, arcs, thick and filled shapes, boundary fill and raw block transfers color exactly the pixels of their own shape that lie inside the image, with the given color, whatever coordinates and sizes they are given: parts outside the image are clipped or refused, never wrapped to other rows. They change no other pixel, nor the header, the palette or the length of the image buffer. (Excepted: 4-bit horizontal lines, whose end pixels follow the existing reference images.)',
 ['inputs'], 'all coordinates (negative, reversed, beyond the edges), sizes and depths',
 'All existing tests draw well inside the image; a missing or off-by-one clip only shows at the edges.',
 [L, 'pythonbmp/primitives2D.py', 'pythonbmp/mathlib.py', 'pythonbmp/inttools.py'],
 'plotxybit, plotRGBxybit, horiline, vertline, line, filledrect, circle, filledcircle, ellipse, filledellipse, BMPbitBLTput, BMPbitBLTget, vertBMPbitBLTget: bounds tests dominating raw stores')

prop('C04', 'Only palette and construction operations may change header or palette',
 "Apart from image construction and the operations documented to set or shift a palette, no operation writes header or palette bytes of an image it was given: every other write lands at or after the pixel-data offset for the image's depth. In particular no drawing, filter, flip, region or text operation changes an image's dimensions, depth or palette.",
 ['inputs', 'programs'], 'every public in-memory image operation, every depth',
 'Tests compare final files of fixed examples; a header write from an untested depth or branch is never reached.',
 [L], 'all bmp[...] stores and the functions that contain them')

prop('C05', 'Each file-to-file operation applies exactly its in-memory operation',
 "Every file-to-file operation loads the image named by its first argument, applies the in-memory operation it is named after to that image with the caller's remaining arguments, each passed unchanged and in its own position, and saves the resulting image under the name given as its second argument. Color adjustments of paletted images adjust every palette entry by the same rule and argument. Arguments with documented defaults use those defaults.",
 ['inputs', 'programs'], 'all file-to-file operations in the API, all argument values and image depths',
 'Each wrapper is tested with at most one argument tuple (often symmetric values), and a third of them, including non-24-bit branches, are not tested at all.',
 [L], 'X2file wrappers and the _use*sv / _use*regnsv / _use*circreg / _useclradjfn helpers')

prop('C06', 'Source files are never written; results go only to the named output',
 'An operation that takes a source image file and a destination file opens the source only for reading and writes only the destination. If the source file does not exist, or its depth is not supported by the operation, it reports this and writes no file at all. In the whole package files are opened for writing in only one place, the save operation, which writes exactly the image buffer to exactly the given name; only the two operations that fill a directory create one.',
 ['inputs', 'fault_sequences'], 'all file operations; source present or missing; every depth',
 'Tests never run with missing sources or wrong depths and do not check the source afterwards.',
 [L, 'pythonbmp/fileutils.py'], 'checklink/checklinks guards, loadBMP, saveBMP, the file helper layer')

prop('C07', 'Guards refuse exactly the invalid calls and are transparent otherwise',
 "Operations restricted to certain depths, to integer coordinates, or to regions that lie entirely inside the image refuse a call exactly when the depth, the argument types or the region (checked against both the width and the height) are wrong: they print the matching message, return nothing and leave the image unchanged. Valid calls run the operation with all positional and keyword arguments and hand back its result; timing and file-existence wrappers are equally transparent.",
 ['inputs'], 'all guard decorators and all operations carrying them; all depths, coordinates, radii and argument types',
 'Tests only make valid calls on square or large images, so neither side of a guard condition is ever exercised at its boundary.',
 ['pythonbmp/paramchecks.py', 'pythonbmp/fileutils.py', 'pythonbmp/proctimer.py', 'pythonbmp/primitives2D.py', L],
 'func24bitonly, func8and24bitonly, func4and8bitonly, entirerectinboundary, entirecircleinboundary, intcircleparam and combinations; functimer; checklink(s)')

prop('C08', 'Rectangular operations do not depend on the order of the corners',
 'An operation that takes a rectangle by two opposite corners has exactly the same effect and result whichever pair of opposite corners is given and in whichever order. This holds for filled rectangles and gradients, copying, cropping, inverting, outlining, color filters, monochrome, brightness, gamma and threshold adjustment, flips, mirrors, line erasing, and the to-file forms of these. (Plain rectangle outlines and lines are excepted.)',
 ['inputs'], 'all four corner orders, all coordinates, all depths',
 'Tests always pass the top-left corner first.',
 [L, 'pythonbmp/primitives2D.py'], 'sortrecpoints/swapif normalisation at the top of region operations')

prop('C09', 'Operations that produce a new image or buffer leave their inputs intact',
 'Cropping, XY flipping, resizing, pixelizing, upgrading to 24 bits, copying regions or headers, comparing images, reading pixels, rows, columns or palettes, and making color histograms never modify the source image, and the object they return shares no storage with it (upgrading an image that already has 24 bits may hand back that image itself). Geometry, vector, color-conversion and palette-generating helpers never modify the lists or buffers passed to them, except those documented to work in place.',
 ['inputs', 'programs'], 'all such operations and all inputs',
 'Tests never look at the inputs after the call.',
 [L, 'pythonbmp/mathlib.py', 'pythonbmp/colors.py', 'pythonbmp/primitives2D.py', 'pythonbmp/solids3D.py', 'pythonbmp/bufresize.py', 'pythonbmp/buffersplit.py', 'pythonbmp/bufferflip.py', 'pythonbmp/charts.py', 'pythonbmp/chartools.py', 'pythonbmp/fractals.py'],
 'interprocedural may-mutate sets of parameters; freshness of returned buffers')

prop('C10', 'Palette setters and getters agree with the BMP palette layout',
 "Palette entry c occupies the four bytes starting at 54+4c in the order blue, green, red, reserved: setting a palette or an entry writes exactly those bytes, reading an entry or the whole palette returns the same red, green and blue values, and a palette whose length is not the number of colors of the depth is ignored. Copying a palette copies all entries between images, and shifting a palette rotates whole entries without losing or altering any.",
 ['inputs'], 'all palettes, entries, depths below 24 and shift amounts',
 'Tests use default palettes and one shift on one file.',
 [L, 'pythonbmp/colors.py', 'pythonbmp/bmppal.py'], 'setbmppal, setbmppalwithBGRlist, setbmppalwithBGRAlist, setRGBpal, getRGBpal, getallRGBpal, copyRGBpal, palshift, generated palettes')

prop('C11', 'Color adjustments always produce valid color components',
 'For all color components 0..255 and all finite adjustment parameters (gamma at least 0), brightness, gamma, threshold, color-filter, monochrome and invert adjustments return only integer components between 0 and 255, so storing the result into an image never overflows, and each component is the documented function of the component and the parameter. Adjusting a buffer returns a buffer of the same length in which every pixel is adjusted by that function (color-filtering a buffer leaves its last pixel as it was).',
 ['inputs'], 'all byte values, buffer lengths that are whole pixels, and all parameter values',
 'Each filter is tested with one mild parameter; saturating parameters are never used.',
 ['pythonbmp/colors.py', 'pythonbmp/mathlib.py'], 'setminmax/setminmaxvec/intsetminmaxvec clamps before array construction')

prop('C12', 'Color and buffer conversions are exact inverses of one another',
 "Converting red, green, blue components to a packed integer and back gives the same components; all packed, list, tuple, array and BGR forms agree on which byte is which; reversing BGR order or nibble order or bit order twice restores the buffer; interleaving separated color channels restores the original buffer. An integer stored little-endian in a buffer or header field is read back unchanged.",
 ['inputs'], 'all 24-bit colors, all bytes, all buffer lengths that are whole pixels, all representable integers',
 'Tests only reach these through whole-image operations on a few files, so a swapped or dropped byte in an unused form goes unseen.',
 ['pythonbmp/colors.py', 'pythonbmp/inttools.py', 'pythonbmp/bufferflip.py', 'pythonbmp/buffersplit.py', 'pythonbmp/bufresize.py', 'pythonbmp/mathlib.py'],
 'int2RGB, int2RGBlist, int2RGBarr, int2BGRarr, RGB2int, RGB2BGRarr, RGB2BGRbuf, makeBGRbuf, altsplitbuf3way, flipnibbleinbuf, rotatebitsinbuf, pack/unpack4bitbuf, int2buf/buf2int, writeint/readint')

prop('C13', 'Each named fractal or attractor draws and saves its own formula',
 "Every named fractal operation iterates the escape-time formula of that name over exactly the requested rectangle, domain and iteration limit, with each caller parameter in its own role, stops at its escape condition or the limit, and colors each pixel from the iteration count reached there. Every save-to-file form creates an image of the requested size and depth, gives it the palette derived from the color factors, draws that fractal over the whole image with the caller's parameters and saves it under the given name. Attractor and flower forms plot exactly the point list of their own recurrence with the caller's coefficients, scaled to the image.",
 ['inputs', 'programs'], 'all fractal and attractor operations, all parameter values and depths',
 'Each fractal is tested with one parameter set at one depth; many attractors, IFS and other forms are untested.',
 [L, 'pythonbmp/fractals.py'], 'X -> plotmultifractal(iterX) -> savemultifractal2file chains, attractor lists')

prop('C14', 'Built-in fonts, palettes, color names and solids hold their reviewed data',
 'Every built-in font has a glyph of the stated height for each of its character codes, and glyph lookup picks the rows of the requested character; every built-in palette has exactly the number of entries its depth needs, each a byte triple; every color name maps to a 24-bit color, and the RGB, HSL and factor views of the color tables have the same names and describe the same color. Every built-in solid refers only to existing vertices and its faces form a closed surface with consistent orientation. Every entry of these tables is the reviewed value.',
 ['inputs'], 'all table entries, all characters, all solids',
 'Tests render one short string per font and no solids; a damaged entry elsewhere in a table is never touched.',
 ['pythonbmp/fonts.py', 'pythonbmp/bmppal.py', 'pythonbmp/colordict.py', 'pythonbmp/X11colordict.py', 'pythonbmp/XKCDcolordict.py', 'pythonbmp/solids3D.py'],
 'literal tables, getcharfont, getshapesidedict and *vert functions')

prop('C15', 'Text renderers place every glyph bit consistently',
 "For every font, string, scale and spacing, each text renderer draws exactly the set bits of each glyph, one scaled cell per bit, advancing one cell per bit and one glyph step per character, with the orientation its name says, and the in-image, to-file, dot and block variants of an orientation place the same cells. Rendering with a list of colors places the same cells as with a single color, one color per glyph row in rotation.",
 ['inputs'], 'all strings, scales, spacings, glyph patterns, colors and color lists',
 'Golden tests render one short string per variant with one scale and one color.',
 [L, 'pythonbmp/chartools.py', 'pythonbmp/fonts.py'], 'plot*8bitpattern*withfn, plotstringfunc and siblings, plot*string* wrappers')

prop('C16', 'Flips and mirrors copy each pixel to its mirrored position',
 "Flipping or mirroring an image or a region (rectangular or circular) moves or copies whole rows or columns to the position mirrored about the region's own centre line, keeping the color of each pixel: a flip exchanges the two halves, a left, right, top or bottom mirror copies from the named half onto the other one only. Corner mirrors are the composition of the two side mirrors they are named after.",
 ['inputs'], 'all regions, all image sizes and the depths each operation supports',
 'Each variant is tested on one 24-bit image with one region; other depths and sizes are not.',
 [L, 'pythonbmp/bufferflip.py', 'pythonbmp/mathlib.py'], 'verttrans, verttransregion, horizontalbulkswap callers, horitransformincircregion, verttransformincircregion, mirror* wrappers')

prop('C17', 'Results depend only on arguments; no hidden state is kept',
 "Apart from the operations documented as probabilistic, every operation is deterministic: it uses no randomness, clock or environment to compute its result, keeps no state between calls and never alters the package's built-in tables or default arguments. Two calls with equal arguments on equal images therefore give equal results whatever was called before.",
 ['histories', 'programs'], 'all public operations and all call histories',
 'Tests run each operation once, in one order.',
 ['pythonbmp/'], 'module globals, default arguments, table-returning functions, uses of random/time/os')

prop('C18', 'Vector, interpolation and geometry helpers obey their algebraic laws',
 'Over the real numbers the math helpers compute their defining formulas for all inputs and so satisfy their laws: vector sums, differences, scalings, dot and cross products, norms, distances, orthogonality, determinants, rotations, projections, linear interpolation and its inverse, smooth-step curves (fixed end points, symmetric about the middle), mirror points about a centre, means, variances, least-squares slope and intercept, histograms and numeric fits. Clamping returns a value inside its range and leaves values already inside unchanged.',
 ['inputs'], 'all real inputs (rounding ignored)',
 'No unit test calls these helpers; they are reached only indirectly with a few values.',
 ['pythonbmp/mathlib.py'], 'addvect, subvect, scalarmulvect, dotprod, crossprod, det3D, rotvec2D, rotations, lerp, invlerp, smoothstep family, mirror, setmin/setmax/setminmax, LSMslope/LSMYint')

prop('C19', 'Circle, ellipse and curve outlines are symmetric, centred and complete',
 "The points of every circle and ellipse outline come in sets symmetric about the centre's vertical and horizontal axes, and circles also about the diagonals; lines include both end points and step one pixel at a time along the longer direction; each curve's point list is exactly what its point iterator yields for the same arguments, and every curve and surface generator yields the points of its own parametric formula. Curve points move with the centre: shifting the centre shifts every point by the same amount.",
 ['inputs'], 'all centres, radii, end points and curve parameters',
 'Only one circle and one sphere are drawn in tests; no other curve is.',
 ['pythonbmp/primitives2D.py', 'pythonbmp/mathlib.py'], 'itercirclepart, mirror1stquad, itercircle, iterellipse, iterline, X-vert/iterX pairs')

prop('C20', 'Every name, call and message the package uses exists and fits',
 "Every name the package refers to is defined, every call to one of its own functions (including functions passed as arguments and called elsewhere) supplies an argument list that function accepts, and every user message it prints exists with as many fields as it is given. No operation can therefore fail with an undefined name, a wrong-arity call or a bad message format.",
 ['programs', 'inputs'], 'all functions and all call sites in the package and the paint program',
 'Python reports these only when the line runs; most error branches and many operations are never run by tests.',
 ['pythonbmp/', 'mspaint.py'], 'names, signatures, sysmsg keys and format strings')

prop('C21', 'Loading accepts only BMP files and returns their exact bytes',
 "Loading a file returns its bytes exactly as stored, up to the size its header records, when the file starts with the BMP signature and records a size larger than a bare header; any other file is reported and yields an empty image, and a missing file is reported and yields nothing. Saving then loading an image created by the package gives back the identical buffer.",
 ['inputs'], 'all file contents and all images the package creates',
 'Tests only load well-formed fixtures.',
 [L, 'pythonbmp/chartools.py', 'pythonbmp/fileutils.py'], 'loadBMP, saveBMP, char2int, the file size field')

prop('C22', 'Region operations touch only pixels inside their region',
 'An operation restricted to a rectangle applies its effect to every pixel of that rectangle, row by row over its full width and height, and to no other pixel; one restricted to a circle applies it to exactly the horizontal or vertical chords of that circle; a whole-image form acts on the full image from corner to corner. Copying a region and pasting it back at the same place restores it, and pasting refuses positions where the region would leave the image. Cropping, resizing, pixelizing and depth conversion build the new image from exactly the corresponding source pixels. (On 1- and 4-bit images copying, pasting and erasing work on whole bytes: the bytes that hold the ends of a row of the region belong to it entirely.)',
 ['inputs'], 'all regions (for copying and pasting, with rows of at most 65,535 bytes, which the copied buffer can record) and the depths each operation supports',
 'Tests use one region per operation and golden files; untested operations and depths are not compared.',
 [L, 'pythonbmp/bufresize.py', 'pythonbmp/primitives2D.py'], 'itercopyrect + offset stepping, circle chord loops, whole-image wrappers, copyrect/pasterect')

prop('C23', 'The paint program opens the file it was asked to open',
 "Started with the name of an existing file, the paint program hands exactly that file, as an absolute path, to the platform's image editor or viewer (mspaint on Windows, open on macOS, xdg-open elsewhere, the viewer intent on Android after the media scan). Started with a pattern, or with nothing for *.bmp, it opens the most recently modified match at or below the current directory; when there is none it says so on standard error and exits with status 1. A missing probe program is tolerated. It creates, changes and removes no file.",
 ['inputs', 'configurations'], 'all command lines and platforms',
 'The program is not tested at all.',
 ['mspaint.py'], 'determine_file, open-with-editor functions')

prop('C24', 'Pixel iterators, histograms and comparisons visit each pixel exactly once',
 "Iterating over the pixels or colors of an image or region yields every pixel of it exactly once with its own coordinates and color, at every depth; the color histogram counts every pixel once under its color and ranks colors by their count; edge and outline finders look at exactly the eight neighbors inside the image; comparing two images, or drawing their difference or their common parts, compares the pixels at equal coordinates over the whole area and reports or draws exactly the ones that differ (or agree).",
 ['inputs'], 'all images, regions and depths',
 'Tests compare two fixed 24-bit images; other depths, sizes whose rows have padding, and the last row or column are not looked at.',
 [L, 'pythonbmp/primitives2D.py', 'pythonbmp/dicttools.py', 'pythonbmp/textgraphics.py'],
 'iterimage*, imageregion*, itergetcolor*, colorhistogram, imagecomp, imagediff, showsimilarparts, _cmpimglines, getneighborcolorlist, plotimgedges, plotbmpastext')

prop('C25', 'Charts, solids, gradients and palettes are composed as documented',
 "Scatter plots, pie charts, axes, grids, 3-D solids, orbs and spheres, gradient fills and gradient outlines, and generated palettes are composed of the drawing primitives their documentation names, each called with the coordinates, sizes and colors computed from the caller's parameters by the documented formula: plotted data land at the screen position of their value, slices have the angle of their share, gradients of a whole image or of a shape run from the first to the last color over its extent (a filled gradient rectangle takes the share as the coordinate itself over the extent, kept between the ends, as its golden images fix), solid faces are drawn in depth order with the lighting of their normal, and each palette entry has the color of its index.",
 ['inputs'], 'all parameter values and depths',
 'No chart or solid and few gradients are drawn by any test.',
 [L, 'pythonbmp/charts.py', 'pythonbmp/solids3D.py', 'pythonbmp/colors.py', 'pythonbmp/colordict.py'],
 'XYscatterplot, piechart, XYaxis, xygrid, plot3d, plot3Dsolid, orb, sphere, grad*, filled*grad*, *pal generators')

prop('N01', 'Fractal images are numerically accurate',
 'Every pixel of a fractal image has the iteration count of the exact mathematical iteration at that point, independent of floating-point rounding.',
 ['inputs'], 'all domains and iteration limits', 'Golden files fix one rounding behaviour.',
 ['pythonbmp/fractals.py'], 'escape-time loops')
prop('N02', 'Probabilistic color reduction converges to the source brightness',
 'Averaged over an area, randomly dithered output has the brightness of its source.',
 ['inputs', 'histories'], 'all images', 'Randomised output is not tested.',
 ['pythonbmp/colors.py'], 'probplotRGBto1bit, probplotRGBto4bitpal')
prop('N03', 'Operations finish in time proportional to the pixels they touch',
 'The running time of each operation is bounded by a constant times the number of pixels (or points times iterations) involved.',
 ['inputs'], 'all sizes', 'Tests do not measure time.',
 ['pythonbmp/'], 'all loops')
prop('N04', 'Drawn curves follow their mathematical curve to within one pixel',
 'Every point of a rasterised circle, ellipse, spline or other curve lies within one pixel of the ideal curve and the outline has no gaps.',
 ['inputs'], 'all curve parameters', 'One circle radius is tested.',
 ['pythonbmp/primitives2D.py'], 'incremental rasterisers')
with open('/verif/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
