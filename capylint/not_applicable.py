"""Properties of the system that static analysis cannot decide here (with the reason)."""
NOT_APPLICABLE = [
    {
        'id': 'N01',
        'title': 'Converted colours and pixels match the colour profile maths',
        'statement': 'For every colour or image given to a document whose output colourspace differs, the value written is '
                     'the one the input and output ICC profiles define for the chosen rendering intent.',
        'over': ['inputs'],
        'qtext': 'every colour, image and pair of profiles',
        'why': 'Tests compare a few rendered pages; the space of colours and profiles is unbounded.',
        'files': ['src/colorconverter.cpp'],
        'mechanism': [('PdfColorConverter', 'src/colorconverter.cpp')],
        'reason': 'The result is computed by LittleCMS from profile data at run time; no argument over this repository\'s '
                  'source can bound those numeric values.',
    },
    {
        'id': 'N02',
        'title': 'Subset fonts render every kept glyph exactly as the source font does',
        'statement': 'For every font and every set of used glyphs the embedded subset font draws each glyph with the outline, '
                     'advance width and composite structure of the original font.',
        'over': ['inputs'],
        'qtext': 'every font file and subset of its glyphs',
        'why': 'Tests use a handful of fonts and short strings.',
        'files': ['src/ft_subsetter.cpp', 'src/cffsubsetter.cpp'],
        'mechanism': [('generate_font', 'src/ft_subsetter.cpp'), ('CFFWriter', 'src/cffsubsetter.cpp')],
        'reason': 'Equality of the drawn outlines is a relation between two font programs\' run-time contents; static rules '
                  'reach only the structural parts (bounds, byte order), which are claimed separately.',
    },
    {
        'id': 'N03',
        'title': 'Compressed streams inflate to the original data',
        'statement': 'Every compressed stream in a written file decompresses to exactly the bytes that were given to it.',
        'over': ['inputs'],
        'qtext': 'every stream content',
        'why': 'Tests inflate nothing; they compare rasterised pages.',
        'files': ['src/utils.cpp'],
        'mechanism': [('flate_compress', 'src/utils.cpp')],
        'reason': 'Round-trip equality through zlib is a property of run-time data, outside what source structure settles.',
    },
]
