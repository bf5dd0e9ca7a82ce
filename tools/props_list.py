CONV = [M + 'color_converter.cpp', M + 'color_converter.h']
ALLT = [S + n + '.cpp' for n in 'rgb_truecolor rgb_deepcolor grey_truecolor grey_deepcolor cmyk hsi hsv hsl hcy xyz xyy cieluv lab lch_ab lch_uv'.split()] + [S + 'color_base.h']
PAIRS = 'all 225 ordered pairs of colour types, through the generic and the named entry point, for every source colour whose components lie in their documented ranges'
FEW = 'The tests sample a handful of colours for some pairs of types; the guarantee is over all pairs and all component values.'

prop('P01', 'Every colour type converts to every other',
     'A colour of any of the fifteen types can be converted to any type, through the generic conversion or the one named after the target, and the result is a colour of exactly the requested type with that type\'s number of components. No conversion fails, crashes or yields nothing for an in-range colour.',
     PAIRS, FEW, CONV, [('convertTo and the to_* families', CONV[0])])
prop('P02', 'Conversions preserve opacity',
     'The opacity of a converted colour is that of its source, on the scale of the target type; 8 bit targets may differ by rounding only.', PAIRS, FEW, CONV, [('alpha argument of every constructed result', CONV[0])])
prop('P03', 'Conversions stay in the working space of the source',
     'A converted colour refers to the same RGB working space object as its source, whatever the target type and whichever working space that is.', PAIRS + ', in two different working spaces',
     'Tests use one working space and rarely look at the space of the result.', CONV, [('working space argument of every constructed result', CONV[0])])
prop('P04', 'Conversions leave their input alone and return independent colours',
     'Converting a colour changes neither the colour nor its working space: type, components, opacity, space, transform matrices, white point and gamma curve are as before. A conversion to another type returns a new object, and changing that does not affect the source.',
     PAIRS, 'Tests compare results, never the input after the call.', CONV, [('const inputs, local intermediate colours', CONV[0])])
prop('P05', 'Components never leave the range of their type',
     'Whatever number is passed to a constructor, a named setter or an indexed setter, and whatever a conversion between types computes, each component of the resulting colour lies within the range documented for its type.',
     'every component of every type for every float (NaN and infinities included) on writes, and every pair of types on conversions', 'Tests try one or two out-of-range values per type; conversions are not tested for range at all.',
     ALLT + CONV, [('clamping setters', S + 'color_base.h'), ('constructors', S)])
prop('P06', 'Opacity is stored faithfully and stays in range',
     'Opacity is always within 0 to 1, or 0 to 255 for the 8 bit types, after construction and after setting it: in-range values are stored as given, larger ones become fully opaque, negative ones fully transparent.',
     'every type and every float value', 'Tests set a few opacities on some types.', ALLT, [('alpha setters and constructors', S + 'color_base.h')])
prop('P07', 'All views of a colour\'s components agree',
     'Constructor argument, named accessor, indexed access and the component vector refer to the same component in the order documented for the type. Setting one component in range stores that value and changes no other component, opacity, type or working space.',
     'every type, component and in-range value', 'Tests check a few literal colours; swapped or aliased components show only on particular values.', ALLT, [('component vector layout', S + 'color_base.h')])
prop('P08', 'Copies and assignments reproduce the colour and are independent of it',
     'Copying a colour, directly or through the common interface, reproduces type, bounds, components, opacity and working space, and changing the copy leaves the original alone; the same holds for a colour made of a plain colour held by value, such as a sum. Assigning a colour to one of its type gives it the components, opacity, bounds and working space of its source, leaves the source alone and independent, and assigning a colour to itself changes nothing; copying from a colour of a different type through the common interface is refused.',
     'every type, every in-range colour, every pair of types for the refusal', 'Tests copy single literal colours.', ALLT, [('copy constructors and operator=', S)])
prop('P09', 'Colours are equal exactly when type and components agree',
     'Two colours compare equal exactly when they have the same type and the same components, in either order of comparison, and inequality is always the negation of equality.', 'every type, pairs of types, and every single differing component',
     'Tests compare a few literal colours.', ALLT, [('operator== and operator!=', S + 'color_base.h')])
prop('P10', 'Hue is an angle: whole turns do not matter',
     'In the HSI, HSV, HSL and HCY types a hue outside 0 to 360 is brought into that range by adding or subtracting whole turns, both on construction and when set; it is never clamped to an end of the range.', 'hues of up to hundreds of turns in both directions',
     'Tests try single values such as 361.', [S + n for n in ('hsi.cpp', 'hsv.cpp', 'hsl.cpp', 'hcy.cpp')] + [S + 'color_base.h'], [('hue setters', S + 'hsl.cpp')])
prop('P11', 'Component indices outside the type are rejected',
     'Reading or writing a component by an index that is negative or not below the number of components of the type raises an error instead of touching memory.', 'every type, indices in -1000..1000', 'Tests try one index past the end.', [S + 'color_base.h'], [('bounds check of indexed access', S + 'color_base.h')])
prop('P12', 'Packed integer codes decode to their four bytes',
     'Constructing an 8 bit colour from a 32 bit code gives alpha, red, green and blue equal to its four bytes from most to least significant, for every code including those with the top bit set.', 'all 2^32 codes', 'Tests decode a few codes.', [S + 'rgb_truecolor.cpp'], [('shift and mask decoding', S + 'rgb_truecolor.cpp')])
CALC = [M + 'color_calculation.cpp', M + 'color_calculation.h']
WH = 'The tests evaluate a few literal colours and weights; the formula must hold for every colour, weight and type.'
CQ = 'every type, all in-range colours and weights in 0..1, with and without opacity, through the typed and the generic overload'
prop('P13', 'Addition combines colours component by component with the given weights',
     'Adding two colours gives, limited to the range, the weighted sum of their components (the root of the weighted sum of squares for RGB); HSV hue and saturation add as vectors, the other hue types add as HSV and Lab and both LCH types as XYZ. The result has the type and working space of the first colour, and opacity follows the same rule when included and is that of the first colour otherwise.', CQ, WH, CALC, [('add overloads', CALC[0])])
prop('P14', 'Mixing weights two colours complementarily',
     'Mixing two colours with weight w equals adding them with weights w and 1-w in the space the type is added in, with the type and working space of the first colour; mixing a colour of a linear type with itself gives that colour back. Opacity mixes the same way when included and is that of the first colour otherwise.', CQ, WH, CALC, [('mix overloads', CALC[0])])
prop('P15', 'Subtraction removes the weighted second colour',
     'Subtracting gives, per component and limited to the range, the first colour minus the weight times the second; HSV hue and saturation subtract as vectors, the other hue types as HSV and Lab and both LCH types as XYZ. The result has the type and working space of the first colour, and opacity follows the same rule when included and is that of the first colour otherwise.', CQ, WH, CALC, [('subtract overloads', CALC[0])])
prop('P16', 'An average is the component-wise mean',
     'The average of a non-empty list of colours of one type has as each component the mean of theirs, as opacity the mean of theirs when included and that of the first otherwise, and the type and working space of the first. Averaging nothing is an error, and the averaged colours are unchanged.', 'every type, lists of 0 to 101 colours, also with one colour several times, all in-range components', WH, CALC, [('average_* functions', CALC[0])])
prop('P17', 'Weights are accepted exactly when they lie in 0..1',
     'Adding, mixing or subtracting with any weight below 0 or above 1 raises an error, and with any weight from 0 to 1, both ends included, it does not, whichever type the colours have and whether the typed or the generic form is used.', 'every type, operation and overload; weights over the whole float range', 'Tests try single bad weights on some overloads.', CALC, [('weight checks', CALC[0])])
prop('P18', 'Calculations on mixed types convert the second colour and change no operand',
     'Adding, mixing or subtracting colours of different types gives what the same operation gives after converting the second colour to the type of the first. The result is a new in-range colour of the first colour\'s type and working space, and both operands keep type, components, opacity and space.', 'all 225 ordered pairs of types, all in-range colours and weights, operands in different working spaces', 'Tests cover few pairs and never re-read the operands.', CALC + CONV, [('dispatch on the type of the first colour', CALC[0])])
BL = [M + 'color_blend.cpp', M + 'color_blend.h', M + 'porter_duff.cpp', M + 'porter_duff.h']
prop('P19', 'Porter-Duff operators keep exactly their regions',
     'For two colours with opacities s and d the plane splits into source only s(1-d), destination only d(1-s) and both s*d; each Porter-Duff operator keeps the regions it is defined by. The opacity of the result is the total kept area, and its colour is the mean of the kept regions\' colours weighted by area, limited to the range, and 0 when nothing is kept.',
     'all twelve operators, all deep RGB colours and opacities, and one object passed as both operands', 'Tests evaluate one or two opacity pairs per operator.', BL, [('porter_duff functions', BL[2])])
prop('P20', 'Separable blend modes follow their per-channel function and region rule',
     'Each separable blend mode applies its documented function to every channel where both colours are present and adds the source-only and destination-only regions as the two flags say: opacity is the kept area, the colour the area-weighted mean limited to the range. A user supplied function is composited in the same way. Dissolving shows where both colours are present one of the two colours in each channel, with the same areas.',
     'all 22 separable modes, the custom one and dissolve, the four flag combinations, all deep RGB colours and opacities', 'Tests evaluate one colour pair per mode.', BL, [('color_blend functions', BL[0])])
prop('P21', 'Hue, saturation, colour and luminosity modes exchange those attributes',
     'For opaque operands these modes build their result from hue, chroma and luma of the two colours: "hue" and "colour" take the hue of the source, "saturation" and "colour" its chroma, "luminosity" its luma, and everything else comes from the destination; the result is returned in the type of the source.', 'four modes, pairs of types, all in-range opaque colours', 'Tests evaluate one colour pair per mode.', BL, [('hue, saturation, color, luminosity', BL[0])])
prop('P22', 'Compositing rejects invalid operands and accepts all others',
     'Every blend mode and Porter-Duff operator raises an error when an operand is missing or the operands are in different working spaces, and none for two colours of any type in one working space.', 'every operator and mode, every type', 'Tests cover some operators with one type.', BL, [('input validation at the start of each operation', BL[0])])
prop('P23', 'Compositing returns a new in-range colour of the source\'s type',
     'Every blend mode and Porter-Duff operator returns a new colour of the type and working space of the source with components and opacity in range, and leaves both operands unchanged.', 'every operator and mode, pairs of types, all in-range colours and opacities', 'Tests use deep RGB and never re-read the operands.', BL, [('conversion to deep RGB and back', BL[0])])
prop('P24', 'Compositing mixed types equals compositing them as deep RGB',
     'Compositing colours of any types gives what compositing their deep RGB conversions gives, converted back to the type of the source; dissolving does so with the same random draws. Hue, saturation, colour and luminosity modes are excepted for HCY operands, whose own hue, chroma and luma they use.', 'every operator and mode, pairs of types, all in-range colours and opacities', 'Tests use deep RGB operands only.', BL + CONV, [('conversion to deep RGB and back', BL[0])])
prop('P25', 'Conversions between RGB, grey, CMYK and the hue types compute their definitions',
     'Converting between deep RGB and 8 bit RGB, grey, CMYK, HSV, HSL, HSI or HCY, and between HSV and HSL, gives the textbook values: hue as the angle on the colour hexagon, value as largest channel, lightness as mid-range, intensity and grey as mean, luma as Rec. 709 sum, saturations and chroma as documented, ink as complement, 8 bit scale 255. Black stays black and white stays white through every pair of types.',
     'all in-range colours in each of the six hue sextants, greys, black and white', 'Tests compare a handful of literal colours; each sextant and each branch on zero saturation or lightness is a path of its own.', CONV, [('rgb_deep_to_* and *_to_rgb_deep', CONV[0]), ('hue_from_rgb_helper, hsl_to_rgb_helper, hsv_to_rgb_helper', CONV[0])])
prop('P26', 'Conversions between the CIE types compute their definitions',
     'RGB to XYZ is the matrix of the working space times the linearized channels, and back the companded product with the inverse matrix, limited to the range; XYZ, xyY, CIELUV, Lab and their polar forms convert by their CIE definitions relative to the white of the working space, the polar forms with chroma as distance from the grey axis and hue in degrees.',
     'all in-range colours whose result the target type can hold, each quadrant of hue, both branches of each companding', 'Tests compare a handful of literal colours, mostly sRGB primaries.', CONV, [('xyz_to_*, *_to_xyz, polar forms', CONV[0])])
prop('P27', 'Converting directly equals converting step by step',
     'Types not directly related convert through the chain that links them (hue types, grey and CMYK through deep RGB, the CIE types through XYZ, each polar form through its rectangular one): the direct conversion gives the same components as the sequence of conversions along that chain, up to 8 bit rounding. HSV and HSL, which convert to each other by a formula of their own, are excepted.',
     'all ordered pairs of types, all in-range colours', 'Tests compare a few pairs on a few colours.', CONV, [('compositions in the conversion matrix', CONV[0])])
DIST = [M + 'color_distance.cpp', M + 'color_distance.h']
prop('P28', 'Colour distances compute their formulas',
     'The squared and plain Euclidean distances in deep RGB or CIELUV, the red-mean weighted distance, and the CIE76, CIE94 (graphic arts and textiles, any parameters), CMC l:c and CIEDE2000 colour differences have the values of their published definitions for the two colours given, first colour as reference.',
     'all pairs of in-range colours and all positive parameters; CIEDE2000 for pure lightness differences and for hues on the yellow-blue axis', 'Tests compare one or two literal pairs per formula; each branch on hue or lightness needs its own pair.', DIST, [('formula bodies', DIST[0])])
prop('P29', 'Distances behave like distances',
     'Every distance is zero for a colour and itself or an equal colour of any type, is never negative, ignores opacity, leaves both colours unchanged, and the Euclidean, weighted, CIE76 and CIEDE2000 distances do not depend on the order of the colours.',
     'every distance, every colour type, all in-range colours', 'Tests check the zero distance of single literal colours.', DIST, [('early returns and symmetric formulas', DIST[0])])
prop('P30', 'Distances depend on the colours, not on their types',
     'A distance between colours of whatever types is the distance between the same colours converted to the type the formula is defined in (deep RGB, CIELUV or Lab).', 'every distance and every type for either colour, all in-range colours', 'Tests use few combinations of types.', DIST, [('conversions at the start of each formula', DIST[0])])
ADJ = [M + 'color_adjustments.cpp', M + 'color_adjustments.h']
prop('P31', 'Adjustments return a colour of the same kind and leave their input alone',
     'Saturating or luminating a colour, in RGB or HSL space, returns a colour of the type, working space and opacity of the input with components in range, and leaves the input unchanged. The overload that takes a reference adjusts the colour in place, with the same resulting components and opacity.',
     'four adjustments, every colour type, all in-range colours, percentages in -1..1', 'Tests adjust a few literal colours and never re-read the input.', ADJ, [('conversion, adjustment and conversion back', ADJ[0])])
prop('P32', 'Adjustments compute what they document',
     'Saturating in RGB moves each channel away from the luma of the colour by the given part of its distance, luminating in RGB scales each channel by 1 plus the percentage, and in HSL saturation or lightness alone is scaled so, all limited to the range. Other types are adjusted through that space, and a percentage of zero keeps the colour.',
     'four adjustments, every colour type, all in-range colours, percentages in -3..3', 'Tests evaluate single percentages.', ADJ, [('adjustment bodies', ADJ[0])])
COMBO = [M + 'color_combinations.cpp', M + 'color_combinations.h']
prop('P33', 'Colour combinations are sets of the kind of their base colour',
     'A combination has the documented number of colours, all of the type, working space and opacity of the base colour. The base colour is unchanged and stands at its documented place (index 0, or 1 for analogous and split sets), and the others are new colours.',
     'every combination, sizes up to 360, every colour type, all in-range base colours and distances or amounts', 'Tests build combinations of single literal colours.', COMBO, [('create_* functions', COMBO[0])])
prop('P34', 'Colour combinations turn the hue evenly and follow their mode',
     'The colours of a combination of n have hues 360/n degrees apart, the complement is half a turn away, analogous colours lie the given distance to either side and split complements the distance to either side of the complement, saturation and lightness being kept. Monochromatic colours keep the hue and reduce saturation, lightness or both by the given part each. Other types are combined in HSL.',
     'all in-range base colours, distances and amounts; 2 to 16 colours (hue up to one degree, as HSL hues end at 359)', 'Tests compare a few literal hues.', COMBO, [('hue arithmetic of create_* functions', COMBO[0])])
prop('P35', 'Impossible colour combinations are rejected',
     'Asking for fewer than two or more than 360 colours, a distance of 0 or above 120 degrees, an amount outside 0..1, an unknown mode for several monochromatic colours or no monochromatic colour raises an error; the limits themselves are accepted.',
     'every colour type; all counts, distances, amounts and modes outside the limits', 'Tests try single bad values.', COMBO, [('argument checks', COMBO[0])])
prop('P36', 'Results do not depend on earlier calls',
     'Converting, calculating, compositing, measuring, adjusting and combining give the same result for the same colours whatever was computed before, and always for the current value of a colour, and the current white point and gamma curve of its working space, that have been changed since.',
     'every conversion pair, calculation, operator, mode, distance, adjustment and combination, with any earlier history abstracted by earlier calls and an arbitrary value of mutable static state', 'A test would have to hit the right history; tests call each operation once.', CONV + CALC + BL[:1] + DIST[:1] + ADJ[:1] + COMBO[:1], [('absence of hidden state', M)])
U = 'ColorMagic/utils/'
GAM = [S + 'gamma.h']
prop('P37', 'A gamma curve applies the part its borders select',
     'A gamma curve applies to a value the part with the smallest upper border not below it, in whatever order the parts were given, added or set, and keeps values above every border; parts that are missing or have no function are skipped, and a curve without parts keeps every value. Removing a part leaves the others in effect. The same holds for the inverse curve. Parts compare by border and equal their copies, parts with another border or function are not equal, and copies of parts and curves work like the original and do not depend on it.',
     'all values, all borders, every order of three parts, every way of building a curve', 'Tests use preset curves and single values.', GAM, [('sorting and selection of parts', GAM[0]), ('comparison and copying of parts', GAM[0])])
prop('P38', 'Preset gamma curves compute their formulas',
     'Each preset gamma curve computes its published formula, keeps 0 and 1, stays between them for values between them, and its inverse undoes it.',
     'all values from 0 to 1 for each preset', 'Tests evaluate one or two values per curve; each curve has pieces that need a value of their own.', GAM, [('preset functions and borders', GAM[0])])
WPF = [S + 'white_point.h']
prop('P39', 'Tristimulus values and chromaticity of a white point agree',
     'A white point made of tristimulus values has their shares as chromaticity; one made of a chromaticity has the tristimulus values of that chromaticity with Y of 1; given both, it keeps both. The conversions between them undo each other, every reading function gives the same values, copies equal the original, and white points that differ in any value are not equal. Each preset agrees in itself and is a white.',
     'all whites; all presets', 'Tests read single literal white points; most presets are never used.', WPF, [('constructors and conversions', WPF[0]), ('preset tables', WPF[0])])
RGBD = [S + 'rgb_color_space_definition.h']
prop('P40', 'A working space derives its matrices from its primaries and white',
     'The transformation matrix of a working space maps full red, green and blue to colours of the chromaticities given and their sum to the white point, its inverse matrix undoes it, also after the white point was replaced; white point and gamma curve are the ones given, and copies have the same contents and do not depend on the original. Presets have their published primaries, white and gamma.',
     'all primaries near the common ones, all whites, all presets', 'Tests compare the matrices of few presets.', RGBD, [('matrix derivation', RGBD[0]), ('preset tables', RGBD[0])])
MX = [U + 'matrix.h']
prop('P41', 'Matrices build and calculate as matrices do',
     'Matrices of any dimensions are filled row by row, read and written by row and column; sum, difference, product with a matrix, vector or number, and transposition have their mathematical values and dimensions, with the operands unchanged; compound assignments give the same as the operators; copies equal the original and do not depend on it; matrices with different dimensions or values are not equal.',
     'all values, dimensions from 1 to 4, square and not', 'Tests use one or two literal matrices per operation, mostly square.', MX, [('operators', MX[0])])
prop('P42', 'Determinant, adjoint and inverse of 3 by 3 matrices are those of linear algebra',
     'The determinant and adjoint of a 3 by 3 matrix have their mathematical values, and the inverse of one with determinant other than 0 is the matrix whose product with it is the identity; the matrix itself is unchanged where a result is returned.',
     'all values', 'Tests use single literal matrices.', MX, [('determinant, adjoint, invert', MX[0])])
prop('P43', 'Indices and dimensions out of bounds raise an error',
     'Reading or writing a row or column a matrix does not have, and adding, subtracting or multiplying matrices or vectors of unfit dimensions, raises an error instead of reading or writing foreign memory; a row or column a matrix does not have is neither null nor equal to another.',
     'all dimensions from 1 to 4, every index outside', 'Tests try single indices.', MX, [('bounds checks', MX[0])])
AD = [M + 'chromatic_adaptation.h', M + 'chromatic_adaptation.cpp']
prop('P44', 'Chromatic adaptation keeps everything but the colour and its white',
     'Adapting a colour to a white point returns a colour of its type and opacity with components in range, in a working space with the target white, the same primaries and gamma, and a matrix fit to that white; the colour and its working space are unchanged. Adapting to the white a colour already has keeps it, and black stays black.',
     'eleven adaptations, every colour type, all in-range colours', 'Tests adapt one XYZ colour.', AD, [('adaptation functions', AD[1])])
prop('P45', 'Chromatic adaptation computes the published transforms',
     'Each adaptation scales the cone responses, as defined by its published matrix, by the ratio of the whites, to the degree of adaptation its formula gives for the surround and luminances, with the published non-linear blue response of Bradford and CMCCAT97; the result is limited to the range. White becomes the target white under complete adaptation. Other types than XYZ are adapted through it.',
     'all in-range XYZ colours, target whites, surround factors and luminances; every colour type', 'Tests adapt one XYZ colour to one white.', AD, [('matrices and formulas', AD[1])])
prop('P46', 'Predefined colours have the codes of their names',
     'Each named colour has the red, green and blue of its CSS namesake and is opaque; a colour made of an integer code has the channels its four bytes spell; a predefined colour is offered in each type as the conversion of its 8 bit RGB colour.',
     'all 141 names; all integer codes', 'Tests use few names.', [U + 'colors.h', S + 'rgb_truecolor.cpp'], [('enumeration and getters', U + 'colors.h'), ('byte extraction', S + 'rgb_truecolor.cpp')])
CB = [S + 'color_base.h']
prop('P47', 'Operations every colour has work component by component',
     'The sum of two colours of one type adds their components, limited to the range, and has type, working space and opacity of the first; summing different types raises an error. Multiplying by and dividing by opacity scale each component by it, keep the opacity, and undo each other; dividing a transparent colour keeps it. Gamma correction of a colour applies the curve of its working space to each component, limited to the range, and the inverse correction the inverse curve.',
     'every colour type, all in-range colours and opacities', 'Tests use single literal colours of few types.', CB, [('operator+, alpha_multiply, alpha_divide, gamma correction', CB[0])])
prop('P48', 'Hexadecimal colour codes are parsed or rejected as documented',
     'A colour made of a text of six or eight hexadecimal digits in either case, with or without a leading hash sign, has the red, green, blue and, before them, opacity the digits spell, and is opaque with six. Any other text is rejected with an error.',
     'all texts of six or eight digits, all texts with one other character at any place, all other lengths up to 12', 'Tests parse a few literal texts.', [S + 'rgb_truecolor.cpp'], [('regular expression and digit parsing', S + 'rgb_truecolor.cpp')])
prop('P49', 'One colour may stand for several operands',
     'Adding, mixing, subtracting, averaging and compositing one colour object with itself gives what doing so with separate equal colours gives and leaves it unchanged; a colour equals itself and has no distance to itself or to an equal colour.',
     'every binary operation and mode, every colour type, all in-range colours and weights', 'Tests pass distinct objects.', CALC + BL + DIST, [('operations on two operands', M)])
na('N02', 'Computed values are accurate to float precision',
   'Every documented formula is evaluated with a relative error of a few units in the last place for all in-range inputs.',
   'all in-range inputs', 'Tests use absolute tolerances around 0.01.', CONV + CALC, [('single precision arithmetic throughout', M)],
   'A sound static rounding-error bound through pow, atan2 and cancellation in the conversion chains is not in reach of the domain (results are near-cancelling for dark colours); the analysis treats numbers as reals.')
