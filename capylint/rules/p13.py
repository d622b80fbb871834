"""P13: every enumerator becomes the name, number or resource the PDF specification gives it."""
from ..facts import AnalysisBroken, rel
from ..util import repo_fns, all_nodes
from .. import choice
from ..errtexts import TEXTS

META = {
    'title': 'Every enumerator is written as the PDF name or value it stands for',
    'statement': 'For every enumerator of the API (blend modes, transitions, built-in fonts, spot functions, line ends, structure types, page '
                 'layouts and modes, label styles, rendering intents, colour spaces, 3D formats, soft masks, interpolation, collection views '
                 'and fields, PDF/X and PDF/A types, page boxes) each place of the library that turns it into a name, a number, a profile, '
                 'a pixel format or a file version chooses the one that PDF (or LittleCMS) defines for just that enumerator. Enumerators that '
                 'are written as numbers or flag bits have the numbers PDF gives them, and every error code has its own message.',
    'over': ['inputs', 'configurations'],
    'qtext': 'every enumerator of every enumeration at every place that looks at it',
    'why': 'A name table that is out of step with its enumeration still gives well-formed files; tests use two or three enumerators of each.',
    'files': ['src/document.cpp', 'src/pdfwriter.cpp', 'src/utils.cpp', 'src/pdfcommon.cpp', 'src/colorconverter.cpp', 'src/drawcontext.cpp',
              'src/errorhandling.cpp', 'include/capypdf.h.in'],
    'mechanism': [('name tables', 'src/document.cpp'), ('serialize_trans', 'src/utils.cpp'), ('line_ending_styles', 'src/pdfwriter.cpp'),
                  ('structure_type_names', 'src/pdfcommon.cpp'), ('profile_for, pixelformat_for, ri2lcms', 'src/colorconverter.cpp'),
                  ('error_texts', 'src/errorhandling.cpp')],
    'technique': 'partial evaluation of the control flow graph per enumerator (constants selected by table lookup, switch, comparison or helper '
                 'function), compared with an explicit table taken from the PDF specification',
    'level_note': 'Decides which constant is selected; that the selected constant reaches the right entry is P16 and P31.',
}


def names(prefix, text):
    """'BM NORMAL=Normal ..' -> {enumerator: {needed}}"""
    out = {}
    for w in text.split():
        k, v = w.split('=')
        out[prefix + k] = frozenset(v.split('+'))
    return out


def nums(prefix, text):
    return {prefix + w.split('=')[0]: frozenset({('#', int(w.split('=')[1], 0))}) for w in text.split()}


def members(prefix, text):
    return {prefix + w.split('=')[0]: frozenset({('M', w.split('=')[1])}) for w in text.split()}


CS = 'RGB=%s GRAY=%s CMYK=%s'
MAPS = {
    'CapyPDF_Builtin_Fonts': {'font name': names('CAPY_FONT_', '''TIMES_ROMAN=Times-Roman HELVETICA=Helvetica COURIER=Courier SYMBOL=Symbol
        TIMES_ROMAN_BOLD=Times-Bold HELVETICA_BOLD=Helvetica-Bold COURIER_BOLD=Courier-Bold ZAPF_DINGBATS=ZapfDingbats
        TIMES_ROMAN_ITALIC=Times-Italic HELVETICA_OBLIQUE=Helvetica-Oblique COURIER_OBLIQUE=Courier-Oblique
        TIMES_ROMAN_BOLDITALIC=Times-BoldItalic HELVETICA_BOLDOBLIQUE=Helvetica-BoldOblique COURIER_BOLDOBLIQUE=Courier-BoldOblique''')},
    'CapyPDF_Device_Colorspace': {
        'name': names('CAPY_DEVICE_CS_', CS % ('DeviceRGB', 'DeviceGray', 'DeviceCMYK')),
        'channels': nums('CAPY_DEVICE_CS_', CS % (3, 1, 4)),
        'pixel format': nums('CAPY_DEVICE_CS_', CS % (262169, 196617, 393249)),
        'profile': members('CAPY_DEVICE_CS_', CS % ('rgb_profile', 'gray_profile', 'cmyk_profile')),
        'profile file': members('CAPY_DEVICE_CS_', CS % ('rgb_profile_file', 'gray_profile_file', 'cmyk_profile_file')),
        'fill operator': names('CAPY_DEVICE_CS_', CS % ('rg', 'g', 'k')),
        'stroke operator': names('CAPY_DEVICE_CS_', CS % ('RG', 'G', 'K')),
    },
    'CapyPDF_Image_Colorspace': {
        'name': names('CAPY_IMAGE_CS_', CS % ('DeviceRGB', 'DeviceGray', 'DeviceCMYK')),
        'channels': nums('CAPY_IMAGE_CS_', CS % (3, 1, 4)),
        'pixel format': nums('CAPY_IMAGE_CS_', CS % (262169, 196617, 393249)),
        'profile': members('CAPY_IMAGE_CS_', CS % ('rgb_profile', 'gray_profile', 'cmyk_profile')),
    },
    'CapyPDF_Rendering_Intent': {
        'name': names('CAPY_RI_', '''RELATIVE_COLORIMETRIC=RelativeColorimetric ABSOLUTE_COLORIMETRIC=AbsoluteColorimetric
                                     SATURATION=Saturation PERCEPTUAL=Perceptual'''),
        'LittleCMS intent': nums('CAPY_RI_', 'RELATIVE_COLORIMETRIC=1 ABSOLUTE_COLORIMETRIC=3 SATURATION=2 PERCEPTUAL=0'),
    },
    'CapyPDF_Blend_Mode': {'name': names('CAPY_BM_', '''NORMAL=Normal MULTIPLY=Multiply SCREEN=Screen OVERLAY=Overlay DARKEN=Darken
        LIGHTEN=Lighten COLORDODGE=ColorDodge COLORBURN=ColorBurn HARDLIGHT=HardLight SOFTLIGHT=SoftLight DIFFERENCE=Difference
        EXCLUSION=Exclusion HUE=Hue SATURATION=Saturation COLOR=Color LUMINOSITY=Luminosity''')},
    'CapyPDF_Line_Annotation_End_Style': {'name': names('CAPY_LINE_ANNOTATION_END_', '''SQUARE=Square CIRCLE=Circle DIAMOND=Diamond
        OPEN_ARROW=OpenArrow CLOSED_ARROW=ClosedArrow NONE=None BUTT=Butt R_OPEN_ARROW=ROpenArrow R_CLOSED_ARROW=RClosedArrow SLASH=Slash''')},
    'CapyPDF_Transition_Type': {'name': names('CAPY_TR_', '''SPLIT=Split BLINDS=Blinds BOX=Box WIPE=Wipe DISSOLVE=Dissolve GLITTER=Glitter R=R
        FLY=Fly PUSH=Push COVER=Cover UNCOVER=Uncover FADE=Fade''')},
    'CapyPDF_Transition_Dimension': {'name': names('CAPY_TR_DIM_', 'H=H V=V')},
    'CapyPDF_Transition_Motion': {'name': names('CAPY_TR_M_', 'I=I O=O')},
    'CapyPDF_Page_Box': {'box': members('CAPY_BOX_', 'MEDIA=mediabox CROP=cropbox BLEED=bleedbox TRIM=trimbox ART=artbox')},
    'CapyPDF_PDFX_Type': {
        'name': names('CAPY_PDFX_', '''1_2001=PDF/X-1:2001 1A_2001=PDF/X-1a:2001 1A_2003=PDF/X-1a:2003 3_2002=PDF/X-3:2002 3_2003=PDF/X-3:2003
                      4=PDF/X-4 4P=PDF/X-4p 5G=PDF/X-5g 5PG=PDF/X-5pg 6=PDF/X-6 6p=PDF/X-6p 6n=PDF/X-6n'''),
        'file version': nums('CAPY_PDFX_', '1_2001=0 1A_2001=0 1A_2003=0 3_2002=0 3_2003=0 4=3 4P=3 5G=3 5PG=3 6=5 6p=5 6n=5'),
    },
    'CapyPDF_PDFA_Type': {'identification': names('CAPY_PDFA_', '''1a=1+A 1b=1+B 2a=2+A 2b=2+B 2u=2+U 3a=3+A 3b=3+B 3u=3+U
                                                                  4f=4+F+2020 4e=4+E+2020''')},
    'CapyPDF_Image_Interpolation': {'value': {'CAPY_INTERPOLATION_AUTO': frozenset(), 'CAPY_INTERPOLATION_PIXELATED': frozenset({'Interpolate', 'false'}),
                                              'CAPY_INTERPOLATION_SMOOTH': frozenset({'Interpolate', 'true'})}},
    'CapyPDF_Structure_Type': {'name': names('CAPY_STRUCTURE_TYPE_', '''DOCUMENT=Document DOCUMENT_FRAGMENT=DocumentFragment PART=Part SECT=Sect
        DIV=Div ASIDE=Aside NONSTRUCT=NonStruct P=P H=H H1=H1 H2=H2 H3=H3 H4=H4 H5=H5 H6=H6 H7=H7 TITLE=Title FENOTE=FENote SUB=Sub LBL=Lbl
        SPAN=Span EM=Em STRONG=Strong LINK=Link ANNOT=Annot FORM=Form RUBY=Ruby RB=RB RT=RT RP=RP WARICHU=Warichu WT=WT WP=WP L=L LI=LI
        LBODY=LBody TABLE=Table TR=TR TH=TH TD=TD THEAD=THead TBODY=TBody TFOOT=TFoot CAPTION=Caption FIGURE=Figure FORMULA=Formula
        ARTIFACT=Artifact''')},
    'CapyPDF_Page_Label_Number_Style': {'name': names('CAPY_PAGE_LABEL_NUMBER_STYLE_', '''DECIMAL=D ROMAN_UPPER=R ROMAN_LOWER=r
        LETTER_UPPER=A LETTER_LOWER=a''')},
    'CapyPDF_Page_Layout': {'name': names('CAPY_PAGE_LAYOUT_', '''SINGLE_PAGE=SinglePage ONE_COLUMN=OneColumn TWO_COLUMN_LEFT=TwoColumnLeft
        TWO_COLUMN_RIGHT=TwoColumnRight TWO_PAGE_LEFT=TwoPageLeft TWO_PAGE_RIGHT=TwoPageRight''')},
    'CapyPDF_Page_Mode': {'name': names('CAPY_PAGE_MODE_', '''USE_NONE=UseNone OUTLINES=UseOutlines THUMBS=UseThumbs FULL_SCREEN=FullScreen
        OC=UseOC ATTACHMENTS=UseAttachments''')},
    'CapyPDF_Soft_Mask_Subtype': {'name': names('CAPY_SOFT_MASK_', 'ALPHA=Alpha LUMINOSITY=Luminosity')},
    'CapyPDF_Halftone_Spot_Function': {'name': names('CAPY_HT_FUNC_', '''SIMPLEDOT=SimpleDot INVERTED_SIMPLEDOT=InvertedSimpleDot
        DOUBLEDOT=DoubleDot INVERTED_DOUBLEDOT=InvertedDoubleDot COSINEDOT=CosineDot DOUBLE=Double INVERTED_DOUBLE=InvertedDouble LINE=Line
        LINEX=LineX LINEY=LineY ROUND=Round ELLIPSE=Ellipse ELLIPSEA=EllipseA INVERTED_ELLIPSEA=InvertedEllipseA ELLIPSEB=EllipseB
        ELLIPSEC=EllipseC INVERTED_ELLIPSEC=InvertedEllipseC SQUARE=Square CROSS=Cross RHOMBOID=Rhomboid DIAMOND=Diamond''')},
    'CapyPDF_3D_File_Format': {'name': names('CAPY_3D_', 'UDF=U3D PRC=PRC')},
    'CapyPDF_Black_Point_Compensation': {'name': names('CAPY_BLACK_POINT_COMPENSATION_', 'OFF=OFF ON=ON DEFAULT=Default')},
    'CapyPDF_Collection_View': {'name': names('CAPY_COLLECTION_', 'D=D T=T H=H C=C')},
    'CapyPDF_Collection_Subtype': {'name': names('CAPY_COLLECTION_SUB_', '''S=S D=D N=N F=F DESC=Desc MOD_DATE=ModDate
        CREATION_DATE=CreationDate SIZE=Size COMPRESSED_SIZE=CompressedSize''')},
    'CapyPDF_Draw_Context_Type': {'kind of object': {
        'CAPY_DC_PAGE': frozenset(), 'CAPY_DC_COLOR_TILING': frozenset({'PatternType', 'PaintType', 'TilingType'}),
        'CAPY_DC_FORM_XOBJECT': frozenset({'Form'}),
        'CAPY_DC_TRANSPARENCY_GROUP': frozenset({'Form', 'Group'})}},
    'capypdf::internal::PdfVersion': {'header': names('', 'v13=%PDF-1.3 v14=%PDF-1.4 v15=%PDF-1.5 v16=%PDF-1.6 v17=%PDF-1.7 v20=%PDF-2.0')},
    'capypdf::internal::ContainerType': {'opening': names('', 'Array=[ Dictionary=<<'), 'closing': names('', 'Array=] Dictionary=>>')},
}

# enumerators whose number is what is written
NUMBERS = {
    'CapyPDF_Text_Mode': ('CAPY_TEXT_', 'FILL STROKE FILL_STROKE INVISIBLE FILL_CLIP STROKE_CLIP FILL_STROKE_CLIP CLIP', range(8)),
    'CapyPDF_Line_Cap': ('CAPY_LC_', 'BUTT ROUND PROJECTION', range(3)),
    'CapyPDF_Line_Join': ('CAPY_LJ_', 'MITER ROUND BEVEL', range(3)),
    'CapyPDF_Annotation_Flags': ('CAPY_ANNOTATION_FLAG_', 'NONE INVISIBLE HIDDEN PRINT NOZOOM NOROTATE NOVIEW READONLY LOCKED TOGGLENOVIEW '
                                 'LOCKEDCONTENTS', [0] + [1 << i for i in range(10)]),
    'CapyPDF_Form_Field_Flags': ('CAPY_FFIELD_', 'NONE READONLY REQUIRED NOEXPORT MULTILINE PASSWORD NOTOGGLETOOFF RADIO PUSHBUTTON COMBO EDIT '
                                 'SORT FILESELECT MULTISELECT DONOTSPELLCHECK DONOTSCROLL COMB RICHTEXT RADIOSINUNISON COMMITONSELCHANGE',
                                 [0, 1, 2, 4] + [1 << i for i in (12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 25, 26)]),
}


def tokens(consts):
    """texts split into bare words (a leading slash does not count)"""
    out = set()
    for c in consts:
        if isinstance(c, tuple):
            out.add(c)
            continue
        for w in c.replace('(', ' ').replace(')', ' ').split():
            out.add(w[1:] if w.startswith('/') else w)
    return out


def judge(need, sets, sel):
    """None: not a place that makes this choice; else [(enumerator, what is wrong)]"""
    want = frozenset().union(*need.values())
    seen = frozenset().union(*sel.values())
    number = any(isinstance(x, tuple) and x[0] == '#' for x in want)
    if number:
        if not any(x in sel[e] and x[1] not in (0, 1) for e in need if e in sel for x in need[e]) or not all(sel[e] for e in need if e in sel):
            return None
    elif not seen & want:
        # the same for all?
        return None
    bad = []
    for e, w in need.items():
        if e not in sel:
            continue
        wrong = sorted(str(x) for x in sel[e] & (want - w))
        miss = w - sets[e]
        if not miss and not number and w - sel[e] and not sel[e] & want and any(isinstance(x, str) and x not in want for x in sel[e]):
            miss = w - sel[e]      # the word is around for another reason; what is chosen is something else
        missing = sorted(x[1] if isinstance(x, tuple) else x for x in miss)
        if missing:
            bad.append((e, 'is not given ' + ', '.join(map(str, missing)) + (' but ' + ', '.join([show(x) for x in sorted(sel[e], key=str)][:4])
                                                                             if sel[e] else '')))
        elif wrong:
            bad.append((e, 'is given ' + ', '.join(wrong) + ', which belongs to another enumerator'))
    return bad


def show(x):
    return str(x[1]) if isinstance(x, tuple) else x


def run(facts, r):
    r.rule('choice', 'a place that turns an enumerator into a name, number, profile or operator selects the one defined for it', 30)
    r.rule('numbers', 'enumerators that are written as numbers have the numbers PDF defines', 20)
    r.rule('messages', 'every error code has its own message', 40)
    C = choice.build(facts)
    used = {}
    for f in repo_fns(facts):
        if '/src/' not in f.file or f.cfg is None:
            continue
        for s, e in sorted(C.subjects(f).items()):
            nm = e.get('td') or e['q']
            maps = MAPS.get(nm)
            if not maps:
                continue
            vals = {x[0]: x[1] for x in e['e']}
            raw = {x: C.consts(f, s, v) for x, v in vals.items()}
            out = {x: [c for c in cs if isinstance(c, tuple) and c[0] == 'OUT'] for x, cs in raw.items()}
            sets = {x: frozenset(tokens(cs)) for x, cs in raw.items()}
            for mn, need in maps.items():
                if nm == 'CapyPDF_Draw_Context_Type' and not s.startswith('this.'):
                    continue      # elsewhere the kind is only checked
                mem = any(isinstance(x, tuple) and x[0] == 'M' for w in need.values() for x in w)
                keep = {x: (cs if mem else frozenset(c for c in cs if not (isinstance(c, tuple) and c[0] in 'ME'))) for x, cs in sets.items()}
                ks = [x for x in keep if x in need]
                if not ks:
                    continue
                common = frozenset.intersection(*[keep[x] for x in ks])
                sel = {x: keep[x] - common for x in ks}
                bad = judge(need, keep, sel)
                if bad is None:
                    continue
                used.setdefault(nm, []).append(f)
                unk = [x for x in ks if ('?', '') in keep[x]]
                if unk:
                    r.count('choices from tables that are not constant')
                    continue
                for x, what in bad:
                    if out.get(x):
                        what = 'is looked up behind the end of a table of %d' % out[x][0][1]
                    r.bad('choice', f.loc, f, '%s:%s' % (mn, x), '%s %s (%s of %s)' % (x, what, mn, nm.split('::')[-1]))
                slash = {}
                for x in ks:
                    for c in raw[x]:
                        if isinstance(c, str) and c.strip() and c.strip().lstrip('/') in need[x]:
                            slash.setdefault(c.strip().startswith('/'), []).append(x)
                if len(slash) == 2 and not set(slash[True]) & set(slash[False]) and not bad:
                    few = min(slash, key=lambda k: len(slash[k]))
                    bad = [(slash[few][0], 'is written %s a slash, unlike the others' % ('with' if few else 'without'))]
                    r.bad('choice', f.loc, f, '%s:%s' % (mn, slash[few][0]), '%s %s (%s of %s)' % (*bad[0], mn, nm.split('::')[-1]))
                if not bad:
                    r.ok('choice', '%s of %s in %s (%d enumerators)' % (mn, nm.split('::')[-1], f.n, len(ks)), f)
    for nm in MAPS:
        if nm not in used and nm in C.enums:
            r.count('enumerations for which no place that writes them was recognised')
    for nm, (prefix, words, values) in NUMBERS.items():
        e = C.enums.get(nm)
        if e is None:
            continue
        have = {x[0]: x for x in e['e']}
        for w, v in zip(words.split(), values):
            x = have.get(prefix + w)
            if x is None:
                continue
            if x[1] != v:
                r.bad('numbers', '%s:%s' % (rel(e['file']), x[2]), None, prefix + w, '%s is %d, PDF defines %d' % (prefix + w, x[1], v))
            else:
                r.ok('numbers', '%s = %d' % (prefix + w, v), None)
    messages(facts, r, C)


def messages(facts, r, C):
    e = C.enums.get('capypdf::internal::ErrorCode')
    if e is None:
        return
    best = None
    for f in repo_fns(facts):
        if f.cfg is None:
            continue
        for s, e2 in C.subjects(f).items():
            if e2 is not e:
                continue
            sets = {x[0]: C.consts(f, s, x[1]) for x in e['e']}
            texts = [t for cs in sets.values() for t in cs if isinstance(t, str) and t in TEXTS.values()]
            if len(texts) > 20 and (best is None or len(texts) > best[2]):
                best = (f, sets, len(texts))
    if best is None:
        r.count('error messages that were not found')
        return
    f, sets, k = best
    common = frozenset.intersection(*sets.values())
    own = {}
    for x, cs in sets.items():
        for t in cs - common:
            if isinstance(t, str):
                own.setdefault(t, []).append(x)
    rev = {t: x for x, t in TEXTS.items()}
    for x, v, l in e['e']:
        if x == 'NumErrors':
            continue
        cs = sets[x] - common
        out = [c for c in cs if isinstance(c, tuple) and c[0] == 'OUT']
        ts = [t for t in cs if isinstance(t, str)]
        other = [t for t in ts if t in rev and rev[t] != x and TEXTS.get(x) not in ts]
        if out or not ts and x in TEXTS:
            r.bad('messages', f.loc, f, x, 'the error code %s has no message' % x)
        elif other:
            r.bad('messages', f.loc, f, x, 'the error code %s has the message of %s ("%s")' % (x, rev[other[0]], other[0]))
        else:
            r.ok('messages', x, f)
