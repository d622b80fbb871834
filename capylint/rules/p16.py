"""P16: an attribute set through the API arrives, unchanged, at the PDF entry that stands for it."""
from ..facts import CALLS, CTORS, rel
from ..util import strip_casts, all_nodes, callee, repo_fns, ancestors
from .. import objkinds, prov
from ..origins import clean

META = {
    'title': 'Every attribute set through the API arrives at its own PDF entry',
    'statement': 'Every value a caller sets on a property object (document and page properties, page boxes, annotations, form fields, outlines, '
                 'destinations, transitions, graphics states, halftones, functions, shadings, patterns, group properties, structure items, '
                 'viewports, collections, images, page labels, embedded files) is written, as given, under the PDF key that stands for it, with '
                 'the components of an array (rectangles, matrices, colours, coordinates, ranges) in the order PDF defines. No entry ever '
                 'shows a value set through a different setter, and an attribute that was set is not dropped because another one was not.',
    'over': ['inputs', 'histories'],
    'qtext': 'every value of every attribute and every combination of attributes set',
    'why': 'A value stored in or written from the neighbouring field still gives a well-formed file; tests set few attributes, one at a '
           'time, often with equal values.',
    'files': ['src/capi.cpp', 'src/document.cpp', 'src/pdfwriter.cpp', 'src/pdfcommon.cpp', 'src/utils.cpp', 'src/drawcontext.cpp',
              'src/objectformatter.cpp'],
    'mechanism': [('setters and constructors of property objects', 'src/capi.cpp'),
                  ('add_graphics_state, add_function, add_shading, create_catalog, create_outlines', 'src/document.cpp'),
                  ('write_annotation, write_form_field, write_page', 'src/pdfwriter.cpp'),
                  ('serialize_trans', 'src/utils.cpp')],
    'technique': 'context-sensitive backward access-path (provenance) analysis from every dictionary entry written to the parameters of the '
                 'public functions, compared with the correspondence the PDF specification gives',
    'level_note': 'Flow-insensitive per field, call-string sensitive through helpers, bounded by an explicit table of (function, parameter, '
                  'key). Mesh shading points and content-stream operands are not dictionary entries and are not covered here.',
}


def seq(key, *params):
    return [(p, (key,), (key, i)) for i, p in enumerate(params)]


def one(**kw):
    return [(p, tuple(k.split()), None) for p, k in kw.items()]


# public function -> [(parameter, keys it may appear under (first: must), (array key, position) or None)]
SPEC = {
    'document_properties_set_title': one(utf8_title='Title'),
    'document_properties_set_author': one(utf8_author='Author'),
    'document_properties_set_creator': one(utf8_creator='Creator'),
    'document_properties_set_language': one(lang='Lang'),
    'document_properties_set_output_intent': one(identifier='OutputConditionIdentifier'),
    'document_properties_set_page_layout': one(layout='PageLayout'),
    'document_properties_set_page_mode': one(mode='PageMode'),
    'document_properties_set_pdfx': one(xtype='GTS_PDFXVersion S'),
    'document_properties_set_pdfa': one(atype='S GTS_PDFXVersion'),
    'page_properties_set_pagebox': [(p, k, ('*', i)) for i, p in enumerate(('x1', 'y1', 'x2', 'y2'))
                                    for k in [('MediaBox', 'CropBox', 'BleedBox', 'TrimBox', 'ArtBox', 'BBox', 'XStep', 'YStep')]],
    'generator_add_page_labeling': one(start_page='Nums', style='S', prefix='P', start_num='St'),
    'generator_add_separation': [('separation_name', ('',), ('', 0)), ('cs', ('',), ('', 1)), ('fid', ('',), ('', 2))],
    'generator_add_lab_colorspace': seq('WhitePoint', 'xw', 'yw', 'zw') + seq('Range', 'amin', 'amax', 'bmin', 'bmax'),
    'generator_add_structure_item': one(stype='S', parent='P'),
    'generator_add_custom_structure_item': one(parent='P'),
    'form_xobject_new': [(p, ('BBox', 'XStep', 'YStep'), ('BBox', i)) for i, p in enumerate('lbrt')],
    'transparency_group_new': [(p, ('BBox', 'XStep', 'YStep'), ('BBox', i)) for i, p in enumerate('lbrt')],
    'tiling_pattern_context_new': [(p, ('BBox', 'XStep', 'YStep'), ('BBox', i)) for i, p in enumerate('lbrt')],
    'color_set_rgb': [(p, ('C0', 'C1'), ('C0 C1', i)) for i, p in enumerate('rgb')],
    'color_set_gray': [('v', ('C0', 'C1'), None)],
    'color_set_cmyk': [(p, ('C0', 'C1'), ('C0 C1', i)) for i, p in enumerate('cmyk')],
    'transition_set_S': one(type='S'),
    'transition_set_D': one(duration='D'),
    'transition_set_Dm': one(dim='Dm'),
    'transition_set_M': one(m='M'),
    'transition_set_Di': one(direction='Di'),
    'transition_set_SS': one(scale='SS'),
    'transition_set_B': one(is_opaque='B'),
    'optional_content_group_new': one(name='Name'),
    'graphics_state_set_SMask': one(smid='SMask'),
    'graphics_state_set_CA': one(value='CA'),
    'graphics_state_set_ca': one(value='ca'),
    'graphics_state_set_BM': one(blendmode='BM'),
    'graphics_state_set_op': one(value='op'),
    'graphics_state_set_OP': one(value='OP'),
    'graphics_state_set_OPM': one(value='OPM'),
    'graphics_state_set_FL': one(value='FL'),
    'graphics_state_set_SM': one(value='SM'),
    'graphics_state_set_AIS': one(value='AIS'),
    'graphics_state_set_TK': one(value='TK'),
    'graphics_state_set_blackpoint_compensation': one(use_comp='UseBlackPtComp'),
    'halftone_set_type1': one(frequency='Frequency', angle='Angle', htspot='SpotFunction'),
    'transparency_group_properties_set_CS': one(cs='CS'),
    'transparency_group_properties_set_I': one(I='I'),
    'transparency_group_properties_set_K': one(K='K'),
    'raster_image_builder_set_size': one(w='Width', h='Height'),
    'raster_image_builder_set_pixel_depth': one(depth='BitsPerComponent'),
    'raster_image_builder_set_alpha_depth': one(depth='BitsPerComponent'),
    'raster_image_builder_set_colorspace': one(colorspace='ColorSpace N'),
    'type2_function_new': one(domain='Domain', c1='C0', c2='C1', n='N'),
    'type3_function_new': one(domain='Domain', bounds='Bounds', encode='Encode', functions='Functions'),
    'type4_function_new': one(domain='Domain', range='Range'),
    'type2_shading_new': one(cs='ColorSpace', func='Function') + seq('Coords', 'x0', 'y0', 'x1', 'y1'),
    'type3_shading_new': one(cs='ColorSpace', func='Function') + [('coords[%d]' % i, ('Coords',), ('Coords', i)) for i in range(6)],
    'type4_shading_new': one(cs='ColorSpace') + seq('Decode', 'minx', 'maxx', 'miny', 'maxy'),
    'type6_shading_new': one(cs='ColorSpace') + seq('Decode', 'minx', 'maxx', 'miny', 'maxy'),
    'shading_set_extend': seq('Extend', 'starting', 'ending'),
    'shading_set_domain': seq('Domain', 'starting', 'ending'),
    'shading_pattern_new': one(shid='Shading'),
    'shading_pattern_set_matrix': seq('Matrix', *'abcdef'),
    'dc_set_group_matrix': seq('Matrix', *'abcdef'),
    'soft_mask_new': one(subtype='S', trid='G'),
    'text_annotation_new': one(utf8_text='Contents'),
    'file_attachment_annotation_new': one(fid='FS'),
    'line_annotation_new': one(utf8_text='Contents') + seq('L', 'x1', 'y1', 'x2', 'y2'),
    'annotation_set_uri': one(uri='URI'),
    'annotation_set_rectangle': seq('Rect', 'x1', 'y1', 'x2', 'y2'),
    'annotation_set_flags': one(flags='F'),
    'annotation_set_3d_stream': one(id='3DD'),
    'annotation_set_line_leader': one(LL='LL', LLE='LLE'),
    'annotation_set_line_endings': seq('LE', 'start', 'end'),
    'annotation_set_parent_field': one(id='Parent'),
    'annotation_set_widget_button_appearance': one(on_state='*', off_state='Off'),
    'printers_mark_annotation_new': one(fid='N'),
    'struct_item_extra_data_set_t': one(ttext='T'),
    'struct_item_extra_data_set_lang': one(lang='Lang'),
    'struct_item_extra_data_set_alt': one(alt='Alt'),
    'struct_item_extra_data_set_actual_text': one(actual='ActualText'),
    'destination_set_page_xyz': one(physical_page_number='Dest') + seq('Dest', 'x', 'y', 'z'),
    'destination_set_page_fit': one(physical_page_number='Dest'),
    'outline_set_title': one(title='Title'),
    'outline_set_C': [(p, ('C', 'C0', 'C1'), ('C', i)) for i, p in enumerate('rgb')],
    'outline_set_F': one(F='F'),
    'outline_set_parent': one(parent='Parent Prev Next'),
    'embedded_file_set_subtype': one(subtype='Subtype'),
    'embedded_file_set_pdf_name': one(pdf_name='F UF Names Limits'),
    'form_field_set_T': one(T='T'),
    'form_field_set_Ff': one(Ff='Ff'),
    'form_field_set_V': one(V='V'),
    'form_field_add_Opt_entry': one(choice='Opt'),
    'form_field_set_parent': one(parent='Parent'),
    'viewport_new': seq('BBox', 'x1', 'y1', 'x2', 'y2'),
    'number_format_new': one(name='U', C='C'),
    'measure_append_X': one(f='X'),
    'measure_append_Y': one(f='Y'),
    'measure_append_D': one(f='D'),
    'measure_append_A': one(f='A'),
    'collection_set_D': one(buf='D'),
    'collection_set_view': one(view='View'),
    'collection_field_new': one(subtype='Subtype', name='N'),
    'collection_field_set_O': one(O='O'),
    'collection_field_set_V': one(V='V'),
    'collection_field_set_E': one(E='E'),
}
# values that may be computed on the way
COMPUTED = {'XStep', 'YStep', 'Prev', 'Next'}
# which page box a label of the box enumeration selects
BOX = {'CAPY_BOX_MEDIA': 'MediaBox', 'CAPY_BOX_CROP': 'CropBox', 'CAPY_BOX_BLEED': 'BleedBox', 'CAPY_BOX_TRIM': 'TrimBox', 'CAPY_BOX_ART': 'ArtBox'}
# number formats reach U and C inside the array named here
VIA = {'measure_append_X': ('X',), 'measure_append_Y': ('Y',), 'measure_append_D': ('D',), 'measure_append_A': ('A',)}
PRESENT = ('has_value', 'operator bool')


class Entries:
    """every value written into a dictionary or array, with the public parameters it comes from"""

    def __init__(self, facts):
        self.facts = facts
        self.K = objkinds.build(facts)
        self.P = prov.build(facts)
        self.keycache = {}
        self.list = []
        for e in sorted(self.K.m.evs, key=lambda e: (e.fn.file, e.node.l, e.node.id, e.chain)):
            if e.kind != 'value' or e.arg is None:
                continue
            handles = e.node.n == 'add_object_ref'
            parts = [] if handles else self.parts(e.fn, e.node, e.chain, 0)
            if not parts:
                parts = [(e.fn, e.arg, e.chain)]
            for i, (f, x, ch) in enumerate(parts):
                at = self.P.of(f, x, (), ch, handles)
                self.list.append((e, i, f, x, ch, at, self.keys(e)))

    def parts(self, fn, call, chain, depth):
        """the tokens a repo helper of the formatter writes for one value (a rectangle ..), in order"""
        g = callee(self.facts, call)
        if g is None or g.body is None or depth > 3 or g.n in ('add_token', 'add_object_ref', 'add_token_pair') or g.n.startswith('add_'):
            return []
        c2 = chain + ((fn.key, call.id, g.key),)
        out = []
        for n in all_nodes(g):
            if n.k == 'CXXMemberCallExpr' and n.obj is not None and strip_casts(n.obj).k == 'CXXThisExpr':
                if n.n == 'add_token' and n.c:
                    out.append((g, n.c[0], c2))
                elif n.n not in ('begin_array', 'end_array', 'check_indent', 'added_item', 'add_token_with_slash'):
                    out += self.parts(g, n, c2, depth + 1)
        return out

    def keytext(self, kid, chain):
        k = (kid, chain)
        if k in self.keycache:
            return self.keycache[k]
        fn, node, arg = self.K.m.keynodes[kid]
        out = set()
        if arg is not None:
            at = self.P.of(fn, arg, (), chain)
            for a in at:
                n = self.facts.fns[a[1][0]].nodes.get(a[1][1]) if a[0] == 'c' and a[1][0] in self.facts.fns else None
                if n is not None and n.k == 'StringLiteral' and n.a.get('s') is not None:
                    out.add(n.a['s'])
                else:
                    out = set()
                    break
        if not out:
            out = {x for x in self.K.keytext(kid)}
        self.keycache[k] = out
        return out

    def keys(self, e):
        """[texts of each enclosing key], outermost first; arrays without a key give nothing"""
        out = []
        for fr in e.stack:
            if fr[0] == 'D' and fr[2] is not None:
                out.append({'*' if '\0' in t else t.strip('/ ') for t in self.keytext(fr[2], e.chain)} or {'?'})
        return out


def build(facts):
    x = getattr(facts, '_entries', None)
    if x is None:
        x = facts._entries = Entries(facts)
    return x


def chainstr(ks):
    return ' '.join('/' + '|'.join(sorted(k)) for k in ks) or 'array'


def pname(facts, fn, i, path):
    g = facts.by_q.get(fn) or [f for f in facts.fns.values() if f.externc and f.n == fn]
    g = [x for x in g if x.body is not None] or g
    n = g[0].params[i]['n'] if g and i < len(g[0].params) else str(i)
    return n + ''.join(p for p in path if p.startswith('['))


def run(facts, r):
    E = build(facts)
    r.rule('reach', 'the value of the parameter is written under the key PDF defines for it', 70)
    r.rule('own', 'an entry shows only values set through the setters that belong to its key', 110)
    r.rule('order', 'the components of an array come from the parameters PDF puts at those positions', 14)
    r.rule('asgiven', 'the value is written without arithmetic, truncation or negation on the way', 70)
    r.rule('guard', 'an optional attribute is written exactly when it was set', 25)
    r.rule('bool', 'a boolean attribute is written with its own truth value', 6)
    r.rule('box', 'each page box kind fills its own box', 5)
    byfn = {}
    for f in facts.fns.values():
        if f.externc and f.body is not None and f.n.startswith('capy_'):
            byfn[f.n] = f
    where = {}       # (fn, pname) -> list of entry
    for ent in E.list:
        for a in ent[5]:
            if a[0] in 'pv':
                where.setdefault((a[1][5:], pname(facts, a[1], a[2], a[3])), []).append(ent)
                if a[3] and a[3][0].startswith('['):
                    where.setdefault((a[1][5:], pname(facts, a[1], a[2], ())), []).append(ent)
    keytexts = {t for ent in E.list for k in ent[6] for t in k}
    unverified = 0
    # ---- reach
    for api, rows in sorted(SPEC.items()):
        f = byfn.get('capy_' + api)
        if f is None:
            unverified += 1
            continue
        names = {p['n'] for p in f.params}
        for p, keys, pos in rows:
            if p.split('[')[0] not in names:
                unverified += 1
                continue
            here = [e for e in where.get((api, p), ()) if under(e, keys[:1] if keys[0] != 'MediaBox' else keys, api)]
            if keys[0] in ('C0', 'BBox') and not here:
                here = [e for e in where.get((api, p), ()) if under(e, keys, api)]
            desc = '%s of %s is written under /%s' % (p, f.n, keys[0] or '(array)')
            if here:
                r.ok('reach', desc, f.q)
                continue
            # decide whether the analysis can vouch for the absence
            cand = [e for e in E.list if under(e, keys[:1], api)]
            followed = [e for e in cand if any(a[0] in 'pvn' for a in e[5])]
            blind = [e for e in cand if not any(a[0] in 'pvnc' for a in e[5])]
            unknownkey = keys[0] not in keytexts and literal_exists(facts, '/' + keys[0])
            if blind and not followed or unknownkey and not cand:
                unverified += 1
                continue
            if cand:
                e = followed[0] if followed else cand[0]
                got = sorted({'%s of %s' % (pname(facts, a[1], a[2], a[3]), a[1]) for a in e[5] if a[0] == 'p'})
                r.bad('reach', e[0].node.loc, e[0].fn.q, api + '.' + p,
                      'the value passed as `%s` to %s never reaches /%s: the entry written at %s shows %s' % (
                          p, f.n, keys[0], e[0].node.loc, ' and '.join(got) if got else 'something nothing in the API sets'))
            else:
                r.bad('reach', (f.loc if hasattr(f,'loc') else '%s:%s' % (rel(f.file), f.l)), f.q, api + '.' + p,
                      'the value passed as `%s` to %s is never written: there is no /%s entry' % (p, f.n, keys[0]))
    # ---- own, asgiven
    index = {(api, p): (keys, pos) for api, rows in SPEC.items() for p, keys, pos in rows}
    for ent in E.list:
        e, part, f, x, ch, at, ks = ent
        mine = []
        foreign = []
        for a in at:
            if a[0] not in 'pv':
                continue
            pn = pname(facts, a[1], a[2], a[3])
            row = index.get((a[1][5:], pn)) or index.get((a[1][5:], pn.split('[')[0]))
            if row is None:
                continue
            if a[0] == 'v' and a[1][5:] not in ('type2_function_new',) and a[1][5:] not in VIA:
                continue
            if a[0] == 'v' and a[1][5:] == 'type2_function_new' and not pn.startswith('c'):
                continue
            if a[1][5:] in VIA:
                if len(ks) < 2 or '?' in ks[-2]:
                    continue
                (mine if set(VIA[a[1][5:]]) & ks[-2] else foreign).append((a, pn, VIA[a[1][5:]]))
                continue
            (mine if under(ent, row[0], a[1][5:]) else foreign).append((a, pn, row[0]))
        # what several setters share (the data of a whole object, a size) is no entry of its own
        distinct = {(a[1], pn) for a, pn, _ in mine + foreign}
        if not ks and foreign and not mine and not e.stack:
            continue
        if ks and ks[-1] & {'Length', 'DL', 'Length1'}:
            continue
        if not mine and not foreign:
            continue
        if foreign and e.node.n == 'add_object_ref' and not mine:
            r.count('references left to P10', 1)
            continue
        if foreign and ks and '?' in ks[-1]:
            unverified += 1
            continue
        if foreign:
            a, pn, keys = sorted(foreign, key=lambda z: (z[0][1], z[1]))[0]
            r.bad('own', e.node.loc, e.fn.q, '%s %s.%s' % (chainstr(ks), a[1][5:], pn),
                  'the entry %s written here shows the value passed as `%s` to %s, which belongs under /%s' % (
                      chainstr(ks), pn, a[1], ' or /'.join(k or '(array)' for k in keys)))
        else:
            r.ok('own', '%s at %s shows only %s' % (chainstr(ks), e.node.loc, ', '.join(sorted({pn for _, pn, _ in mine}))), e.fn.q)
        if mine and not (ks and ks[-1] & COMPUTED) and e.node.n != 'add_object_ref':
            bad = sorted([a for a in at if a[0] == 'a' and judged(facts, a)], key=str)
            if len([a for a in bad if a[2] == '!']) % 2 == 0:
                bad = [a for a in bad if a[2] != '!']
            if bad:
                a = bad[0]
                g = facts.fns[a[1][0]]
                n = g.nodes.get(a[1][1])
                r.bad('asgiven', n.loc if n is not None else e.node.loc, g.q, '%s %s' % (chainstr(ks), a[2]),
                      'the value written under %s (at %s) is changed on the way from `%s` of %s: %s' % (
                          chainstr(ks), e.node.loc, mine[0][1], mine[0][0][1], 'truncated to an integer' if a[2] == 'truncation' else 'operator ' + a[2]))
            else:
                r.ok('asgiven', '%s at %s carries its value unchanged' % (chainstr(ks), e.node.loc), e.fn.q)
    order(facts, E, r)
    guards(facts, E, r)
    bools(facts, E, r)
    boxes(facts, E, r)
    if unverified:
        r.count('not decided (form not understood)', unverified)
    r.count('entries analysed', len(E.list))


def judged(facts, a):
    g = facts.fns.get(a[1][0])
    n = g.nodes.get(a[1][1]) if g is not None else None
    if n is None:
        return False
    if a[2] == 'truncation':
        return True
    if (n.t or '').endswith('*'):
        return False
    # index and size computations are not values on their way
    p = n.parent
    while p is not None and p.k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'):
        p = p.parent
    if p is not None and (p.k == 'ArraySubscriptExpr' or p.k in CALLS and p.n in ('at', 'operator[]', 'substr', 'reserve', 'resize', 'begin', 'advance')):
        return False
    return True


def literal_exists(facts, text):
    for f in repo_fns(facts):
        for n in all_nodes(f):
            if n.k == 'StringLiteral' and n.a.get('s') is not None and n.a['s'].strip() in (text, text[1:]):
                return True
    return False


def under(ent, keys, api):
    ks = ent[6]
    if not ks:
        return '' in keys and any(fr[0] == 'A' for fr in ent[0].stack)
    if api in VIA:
        return len(ks) >= 2 and bool(ks[-2] & set(VIA[api]))
    return bool(ks[-1] & set(keys)) and len(ks[-1]) <= 4


def order(facts, E, r):
    """arrays: per array written, the positions of the parameters of one function must be ascending and as PDF orders them"""
    groups = {}
    for ent in E.list:
        e, part, f, x, ch, at, ks = ent
        arr = [fr for fr in e.stack if fr[0] == 'A']
        if part or any(o[0] is e and o is not ent for o in ()):
            pass
        multi = e.node.n in ('write_rectangle', 'write_raw_rectangle', 'write_box', 'write_raw_box') or len(arr) == 0
        if e.stack and e.stack[-1][0] == 'A':
            gid = (e.fn.key, e.stack[-1][1], tuple(tuple(sorted(k)) for k in ks), e.chain[:-1] if e.chain else ())
            gid = (e.stack[-1][1], tuple(tuple(sorted(k)) for k in ks))
        elif part or partcount(E, e) > 1:
            gid = ('m', e.fn.key, e.node.id, tuple(tuple(sorted(k)) for k in ks))
        else:
            continue
        groups.setdefault(gid, []).append(ent)
    for gid, ents in sorted(groups.items(), key=lambda kv: str(kv[0])):
        apis = {}
        for ent in ents:
            e, part, f, x, ch, at, ks = ent
            for a in at:
                if a[0] == 'p':
                    apis.setdefault(a[1], []).append((pos_key(ent), pname(facts, a[1], a[2], a[3]), ent))
        for api, items in sorted(apis.items()):
            rows = {p: pos for p, keys, pos in SPEC.get(api[5:], ()) if pos is not None and (
                pos[0] == '*' or set(pos[0].split(' ')) & (ents[0][6][-1] if ents[0][6] else {''}))}
            items = [it for it in items if it[1] in rows]
            names = {}
            for k, p, ent in items:
                names.setdefault(k, set()).add(p)
            if len(names) == len(rows) > 1 and len({it[1] for it in items}) == 1 and all(
                    len([a for a in ent[5] if a[0] == 'p' and a[1] == api]) == 1 for _, _, ent in items):
                e = items[0][2][0]
                r.bad('order', e.node.loc, e.fn.q, api[5:] + ' ' + chainstr(items[0][2][6]),
                      'every component of the array under %s shows `%s` of %s; PDF defines %s' % (
                          chainstr(items[0][2][6]), items[0][1], api, ' '.join(sorted(rows, key=lambda p: rows[p][1]))))
                continue
            if len({it[1] for it in items}) < 2 or any(len(x) > 1 for x in names.values()):
                continue
            items.sort(key=lambda it: it[0])
            # several alternatives (switch over colour models, with/without extra entries) restart the order
            seq = []
            for k, p, ent in items:
                if not seq or seq[-1][0] != p:
                    seq.append((p, ent))
            want = sorted(rows, key=lambda p: rows[p][1])
            got = [p for p, _ in seq]
            if len(set(got)) == len(got) and got == [p for p in want if p in got] or got == got[:len(set(got))] * (len(got) // len(set(got))) and \
                    got[:len(set(got))] == [p for p in want if p in got]:
                r.ok('order', 'the components %s of %s are written in order at %s' % (' '.join(got), api, seq[0][1][0].node.loc), seq[0][1][0].fn.q)
            else:
                e = seq[0][1][0]
                r.bad('order', e.node.loc, e.fn.q, api[5:] + ' ' + chainstr(seq[0][1][6]),
                      'the array under %s holds the arguments of %s in the order %s; PDF defines %s' % (
                          chainstr(seq[0][1][6]), api, ' '.join(got), ' '.join(want)))


def partcount(E, e):
    if not hasattr(E, '_pc'):
        E._pc = {}
        for ent in E.list:
            E._pc[id(ent[0])] = E._pc.get(id(ent[0]), 0) + 1
    return E._pc[id(e)]


def pos_key(ent):
    e, part = ent[0], ent[1]
    # position of the outermost call that leads here, then of the token itself
    return tuple(c[1] for c in e.chain) + (e.node.id, part) if not e.chain else (e.chain[0][1],) + tuple(c[1] for c in e.chain[1:]) + (e.node.id, part)


def conds(e):
    """[(condition, branch taken)] of the enclosing if statements inside the function, innermost first"""
    out = []
    n = e.node
    while n.parent is not None:
        p = n.parent
        if p.k == 'IfStmt':
            kids = p.c
            br = [i for i, x in enumerate(kids) if x is n]
            if br and br[0] >= len(kids) - 2:
                out.append((p, br[0] == len(kids) - 2))
        elif p.k in ('LambdaExpr', 'ForStmt', 'CXXForRangeStmt', 'WhileStmt', 'SwitchStmt'):
            break
        n = p
    return out


def tests(n, pos=True):
    """[(expression tested, positive)] of a conjunction of presence tests, None when anything else is in it"""
    n = strip_casts(n)
    if n is None:
        return None
    if n.k == 'UnaryOperator' and n.op == '!':
        t = tests(n.c[0], not pos)
        return t if t is None or len(t) == 1 else None
    if n.k == 'BinaryOperator' and n.op == '&&' and pos:
        a, b = tests(n.c[0]), tests(n.c[1])
        return None if a is None or b is None else a + b
    if n.k == 'CXXMemberCallExpr' and n.n in PRESENT and n.obj is not None:
        return [(strip_casts(n.obj), pos)]
    if n.k == 'CXXMemberCallExpr' and n.n == 'empty' and n.obj is not None:
        return [(strip_casts(n.obj), not pos)]
    return None


def fieldof(n):
    """(class, field) of the member expression an optional or string is"""
    n = strip_casts(n)
    for _ in range(8):
        if n is None:
            return None
        if n.k == 'MemberExpr' and n.dk == 'field':
            return (n.cls, n.n, (n.t or ''))
        if n.k == 'CXXMemberCallExpr' and n.n in ('value', 'v', 'sv', 'value_or') and n.obj is not None:
            n = strip_casts(n.obj)
        elif n.k == 'CXXOperatorCallExpr' and n.op in ('*', '->') and n.c:
            n = strip_casts(n.c[0])
        elif n.k == 'UnaryOperator' and n.op == '*':
            n = strip_casts(n.c[0])
        elif n.k == 'CXXMemberCallExpr' and n.n.startswith('operator') and n.obj is not None:
            n = strip_casts(n.obj)
        elif n.k == 'ConditionalOperator':
            n = strip_casts(n.c[0])
        elif n.k == 'CXXMemberCallExpr' and n.n == 'at' and n.c:
            n = strip_casts(n.c[0])
        elif n.k in CALLS and len([x for x in n.c if x is not None and x.k != 'CXXDefaultArgExpr']) == 1:
            n = strip_casts(n.c[0])
        elif n.k == 'CXXOperatorCallExpr' and n.op == '[]' and len(n.c) == 2:
            n = strip_casts(n.c[1])
        else:
            return None
    return None


def optional_t(t):
    return 'std::optional<' in t


def string_t(t):
    return any(x in t for x in ('u8string', 'asciistring', 'PdfName', 'basic_string<'))


def guards(facts, E, r):
    seen = set()
    for ent in E.list:
        e = ent[0]
        if ent[1] or e.node.id in seen and (e.fn.key, e.node.id) in seen:
            continue
        fld = fieldof(e.arg)
        if fld is None or not (optional_t(fld[2]) or string_t(fld[2])) or not fld[0].startswith('capypdf'):
            continue
        if (e.fn.key, e.node.id) in seen:
            continue
        cs = conds(e)
        if not cs:
            continue
        stmt, then = cs[0]
        t = tests(stmt.c[-3] if len(stmt.c) >= 3 else None)
        if t is None:
            continue
        if not then:
            t = [(x, not p) for x, p in t] if len(t) == 1 else None
            if t is None:
                continue
        seen.add((e.fn.key, e.node.id))
        fs = [(fieldof(x), p) for x, p in t]
        if any(x is None for x, _ in fs):
            continue
        allconds = [y for s, th in cs for y in (tests(s.c[-3]) or [])] if cs else []
        mine = [p for x, p in fs if x[:2] == fld[:2]]
        outer = [1 for y, p in allconds if (fieldof(y) or (0, 0, ''))[:2] == fld[:2]]
        if mine:
            other = [x for x, p in fs if p and x[0] == fld[0] and x[:2] != fld[:2]]
            used = {(n.cls, n.n) for b in stmt.c[-2:] if b is not None for n in b.walk() if n.k == 'MemberExpr' and n.dk == 'field'}
            other = [x for x in other if x[:2] not in used]
            if all(mine) and other:
                r.bad('guard', stmt.loc, e.fn.q, '%s %s' % (chainstr(ent[6]), fld[1]),
                      '`%s` is written under %s only when `%s` is set as well' % (fld[1], chainstr(ent[6]), other[0][1]))
            elif all(mine):
                r.ok('guard', '%s::%s is written when set, at %s' % (fld[0].split('::')[-1], fld[1], e.node.loc), e.fn.q)
            else:
                r.bad('guard', stmt.loc, e.fn.q, '%s %s' % (chainstr(ent[6]), fld[1]),
                      '`%s` is written under %s exactly when it was not set' % (fld[1], chainstr(ent[6])))
        elif outer:
            r.ok('guard', '%s::%s is written when set, at %s' % (fld[0].split('::')[-1], fld[1], e.node.loc), e.fn.q)
        else:
            same = [x for x, p in fs if x[0] == fld[0] and p]
            used = {(n.cls, n.n) for b in stmt.c[-2:] if b is not None for n in b.walk() if n.k == 'MemberExpr' and n.dk == 'field'}
            if same and len(same) == len(fs) and not any(x[:2] in used for x in same):
                r.bad('guard', stmt.loc, e.fn.q, '%s %s' % (chainstr(ent[6]), fld[1]),
                      'whether `%s` is written under %s depends on `%s` being set, not on `%s` itself' % (
                          fld[1], chainstr(ent[6]), same[0][1], fld[1]))


def bools(facts, E, r):
    seen = set()
    for ent in E.list:
        e, part, f, x, ch, at, ks = ent
        x = strip_casts(x)
        if x is None or x.k != 'ConditionalOperator' or (f.key, x.id) in seen or len(x.c) != 3:
            continue
        a, b = strip_casts(x.c[1]), strip_casts(x.c[2])
        if a is None or b is None or a.k != 'StringLiteral' or b.k != 'StringLiteral':
            continue
        ta, tb = (a.a.get('s') or '').strip(), (b.a.get('s') or '').strip()
        if {ta, tb} != {'true', 'false'}:
            continue
        seen.add((f.key, x.id))
        neg = False
        c = strip_casts(x.c[0])
        while c is not None and c.k == 'UnaryOperator' and c.op == '!':
            neg = not neg
            c = strip_casts(c.c[0])
        if (ta == 'true') != neg:
            r.ok('bool', '%s at %s is written with its own truth value' % (chainstr(ks), e.node.loc), e.fn.q)
        else:
            r.bad('bool', e.node.loc, e.fn.q, chainstr(ks), 'the boolean under %s is written inverted' % chainstr(ks))


def boxes(facts, E, r):
    for ent in E.list:
        e, part, f, x, ch, at, ks = ent
        if part or not ks:
            continue
        lab = {a[3] for a in at if a[0] == 'k' and a[3] in BOX}
        key = ks[-1] & set(BOX.values())
        if not key or not lab:
            continue
        key = sorted(key)[0]
        wrong = sorted(l for l in lab if BOX[l] != key)
        if wrong:
            r.bad('box', e.node.loc, e.fn.q, key, 'the entry /%s shows the box set for %s' % (key, wrong[0]))
        else:
            r.ok('box', '/%s shows the box set for %s only' % (key, sorted(lab)[0]), e.fn.q)
