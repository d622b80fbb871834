"""The message that belongs to each error code."""
TEXTS = {
    'NoError': 'No error.',
    'DynamicError': 'Unexpected error, the real error message should be in stdout or stderr.',
    'InvalidIndex': 'Invalid index.',
    'NegativeLineWidth': 'Negative line width.',
    'NoPages': 'No pages defined.',
    'ColorOutOfRange': 'Color component out of range.',
    'BadId': 'Bad ID number.',
    'BadEnum': 'Enum out of range.',
    'NegativeDash': 'Negative dash array element.',
    'InvalidFlatness': 'Flatness value out of bounds.',
    'ZeroLengthArray': 'Array has zero length.',
    'CouldNotOpenFile': 'Could not open file.',
    'FileWriteError': 'Writing to file failed.',
    'ArgIsNull': 'Required argument is NULL.',
    'IndexIsNegative': 'Index is negative.',
    'IndexOutOfBounds': 'Index out of bounds.',
    'BadUtf8': 'Invalid UTF-8 string.',
    'IncorrectColorChannelCount': 'Incorrect amoung of color channels for this colorspace.',
    'InvalidDrawContextType': 'Invalid draw context type for this operation.',
    'FileReadError': 'Failed to load data from file.',
    'InvalidICCProfile': 'Invalid ICC profile data.',
    'CompressionFailure': 'Compression failure.',
    'FreeTypeError': 'FreeType error.',
    'Unreachable': 'Unreachable code.',
    'PatternNotAccepted': 'Pattern can not be used in this operation.',
    'IconvError': 'Iconv error.',
    'BuiltinFontNotSupported': 'Builtin fonts can not be used in this operation.',
    'NoCmykProfile': 'Output CMYK profile not defined.',
    'UnsupportedFormat': 'Unsupported file format.',
    'NonBWColormap': 'Only monochrome colormap images supported.',
    'MalformedFontFile': 'Malformed font file.',
    'EmcOnEmpty': 'EMC called even though no marked content block is active.',
    'UnclosedMarkedContent': 'Marked content not closed.',
    'AnnotationReuse': 'Annotations (including widgets) can only be used once.',
    'StructureReuse': 'Structures can only be used once.',
    'BadOperationForIntent': 'Operation prohibited by current output intent.',
    'OutputProfileMissing': 'Output color profile not defined.',
    'InputProfileUnknown': 'Input image color profile could not be determined.',
    'MissingIntentIdentifier': 'Output intent identifier missing.',
    'DrawStateEndMismatch': 'Draw state end mismatch.',
    'UnusedOcg': 'OCG not used on this page.',
    'UnsupportedTIFF': 'Unsupported TIFF image.',
    'WrongDrawContext': 'Used object with a drawing context that was not used to create it.',
    'MissingMediabox': 'MediaBox is missing.',
    'MaskAndAlpha': 'Image used as a mask has an alpha channel.',
    'MissingGlyph': 'Font does not have the requested glyph.',
    'InvalidImageSize': 'Invalid image size.',
    'MissingPixels': 'Missing pixel data.',
    'ColorspaceMismatch': 'Color spaces are not of the same type.',
    'BadBoolean': 'Boolean integer value must be 0 or 1.',
    'BadStripStart': 'Gradient must start with a full patch.',
    'IncorrectDocumentForObject': 'Object created for one document used with a different document',
    'NotASCII': 'Argument must be ASCII.',
    'FileDoesNotExist': 'File does not exist.',
    'AnnotationMissingRect': 'Annotation is missing location rectangle.',
    'SlashStart': 'Argument must not start with a slash or be empty.',
    'NestedBMC': 'Nesting marked content is forbidden.',
    'RoleAlreadyDefined': 'Rolemap entry is already defined.',
    'WritingTwice': 'There can be only one call to the write function.',
    'ProfileProblem': 'Unspecified color profile error.',
    'ImageFormatNotPermitted': 'Image is not in format required by output settings.',
    'InvalidPageNumber': 'Page reference points to a non-existing page.',
    'NonSequentialPageNumber': 'Page number less than previous entry, page labeling must be added sequentially',
    'EmptyTitle': 'Title is empty.',
    'WrongDCForTransp': 'Transparency properties can only be set on pages and transparency groups.',
    'WrongDCForMatrix': 'Matrix can only be set for form XObjects.',
    'EmptyFunctionList': 'Type3 Function must have at least one Type2 function inside',
    'IncorrectShadingType': 'Incorrect shading type.',
    'IncorrectFunctionType': 'Incorrect function type.',
    'IncorrectAnnotationType': 'Incorrect annotation type.',
    'DuplicateName': 'Duplicated name.',
    'EmbeddedNullInString': 'String must not have an embedded null character.',
    'InvalidBufsize': 'Buffer size argument is invalid.',
    'MMapFail': 'MMaping file to memory failed.',
    'InvalidSubfont': 'Invalid subfont.',
    'FontNotSpecified': 'No font has been specified.',
    'InvalidBBox': 'Invalid values for bounding box.',
    'TooManyGlyphsUsed': 'Too many glyphs (> 65k) used in font.',
    'VariationsNotSupported': 'Font does not support variations.',
    'VariationNotFound': 'Font does not have requested variation.',
    'MissingCFFDictItem': 'CFF font missing an expected dictionary item.',
    'FieldStateNameMissing': 'Field state name must not be empty.',
    'IncorrectFieldType': 'Incorrect field type.',
    'ProducerMissingCapy': 'The metadata XML must contain a "pdf:Producer" entry with the value "CapyPDF".',
    'CollectionExists': 'Collection object already exists.',
    'XRefOffsetTooBig': 'Output file too big for xref table. Please report this issue in CapyPDF bug tracker.',
}
