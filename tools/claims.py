REF = ('the gated value graph (global value numbering over an abstract interpretation of the syntax tree: result and effect on every '
       'argument) of each function of the property and of everything it calls is compared in normal form with a reviewed reference definition')
TRUST = ('Trusted: the reference definitions, the term normal form and the evaluator. Graphs that differ but that no random interpretation of '
         'the terms tells apart count as undecided and are listed, not reported.')
CLAIMS = {
 'C01': ('value-graph equality with a layout formula of the BMP format for each pixel accessor; ' + REF,
         'Every depth, size, coordinate and colour; 1-bit columns by residue class. ' + TRUST),
 'C02': ('value-graph equality of header bytes and buffer length with the BMP format; ' + REF,
         'Every width, height and depth. ' + TRUST),
 'C03': (REF, 'All coordinates, sizes and depths; numeric accuracy of curve formulas is not judged, only that they are the reviewed ones. ' + TRUST),
 'C04': ('interprocedural effect analysis: which parameter can receive header writes, offset writes below the pixel data, or a change of length, '
         'propagated through the call graph and held against the confirmed table; raw stores by value-graph equality with their reference',
         'Every public operation, alias and path. Offsets are classified from constants and the named offset functions; the functions that compute offsets are compared with reference definitions.'),
 'C05': (REF, 'All file-to-file operations, all argument values and depths. ' + TRUST),
 'C06': ('value-graph comparison of the file-effect sequence (opens, loads, saves and their conditions) of each file operation with its reference; typed effect rule on loads and saves; who-may-open-for-writing query over all calls',
         'Every file operation with source present or missing; contents are abstracted away. ' + TRUST),
 'C07': ('each guard decorator applied to an unknown operation, as a value graph, against the specification of its guard; decorator stack of each guarded operation against the confirmed one',
         'All argument values and types, all depths. ' + TRUST),
 'C08': ('value-graph equality of each operation under the four corner orders (relational: the code is compared with itself, no reference)',
         'All coordinates and depths. ' + TRUST),
 'C09': ('interprocedural may-modify / may-share effect analysis (points-to summaries per parameter) of every public function',
         'May-modify analysis over every path and alias; reports a parameter object whose write the confirmed table does not list. Does not decide deep sharing inside nested containers.'),
 'C10': ('value-graph equality of palette accessors and generators with the palette layout; ' + REF, 'Every palette entry, colour and depth. ' + TRUST),
 'C11': ('interval analysis of the value graph of every adjustment for all byte components and all parameters (range proof with splitting on conditions); value-graph equality of lengths; ' + REF,
         'All component and parameter values over the reals. ' + TRUST),
 'C12': ('value-graph equality of each conversion with its formula and of its round trips with the identity; ' + REF,
         'Every colour and byte value; buffers of a few fixed lengths per routine (element-wise symbolic) and, by reference, any length; integer fields of 1 to 7 bytes. ' + TRUST),
 'C13': (REF, 'All fractal and attractor operations, all parameters and depths. Rounding is not judged. ' + TRUST),
 'C14': ('every constant table is evaluated from the source and checked entry by entry (shape rules, agreement of views, closed oriented faces, equality with reviewed data); lookup functions by value-graph equality with their reference',
         'Every table entry. Trusted: the reviewed data file.'),
 'C15': (REF, 'All strings, scales, spacings, patterns and colours. ' + TRUST),
 'C16': (REF, 'All regions, sizes and depths. ' + TRUST),
 'C17': ('interprocedural effect analysis: randomness, clock, environment, module state, closure state',
         'Effect sources are resolved names and calls; every public function against the confirmed table.'),
 'C18': ('value-graph equality of each helper with its textbook formula, of both sides of algebraic laws over the helpers, and with reference definitions',
         'All real inputs, vectors of dimension 3 or 2; rounding ignored. ' + TRUST),
 'C19': (REF, 'All centres, radii and parameters. ' + TRUST),
 'C20': ('name resolution, definite assignment (also with the conditions on the bit depth folded, depth by depth), call-arity checking through function-valued parameters (call graph with higher-order flow) and format-string checking over every function',
         'Every function and call site. Attributes of external objects are not checked.'),
 'C21': (REF, 'All file contents and images. ' + TRUST),
 'C22': (REF, 'All regions and depths. ' + TRUST),
 'C23': ('value graph of the whole program (every external program run, with its arguments, order and conditions) against its reference; call query for operations that change files',
         'All command lines and platforms. ' + TRUST),
 'C24': (REF, 'All images, regions and depths. ' + TRUST),
 'C25': (REF, 'All parameters and depths. ' + TRUST),
}
NA = {
 'N01': 'numeric accuracy of floating point fractal iteration quantifies over runtime floating point values; no sound static argument in reach bounds it',
 'N02': 'statistical brightness of random dithering is a property of the distribution of runtime random numbers',
 'N03': 'running time is a runtime quantity; no static bound in reach for Python',
 'N04': 'distance of rasterised curves from the real curve needs floating point error analysis of accumulated trigonometry',
}
