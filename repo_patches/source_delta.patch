From b131e55afc6f9ccbc4c3f38bfc8c895f77a7cc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 01/41] fix: report failures of CFF font subsetting instead of
 dropping them

---
 src/cffsubsetter.cpp | 2 +-
 src/ft_subsetter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 5344fb9..1a73d5c 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -600,7 +600,7 @@ rvoe<NoReturnValue> CFFWriter::create() {
     output.assign((std::byte *)header, (std::byte *)header + 4);
     append_index(source.name);
 
-    create_topdict();
+    ERCV(create_topdict());
     append_index(source.string);
     append_index(source.global_subr);
     fixups.charsets.value = output.size();
diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 506df11..02645f6 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1001,7 +1001,7 @@ rvoe<std::vector<std::byte>> generate_cff_font(const TrueTypeFontFile &source,
         }
     }
     CFFWriter w(source_data, converted);
-    w.create();
+    ERCV(w.create());
     return w.steal();
 }
 
-- 
2.43.0


From f2395155df814b7c206d80235e70c3343e7bdc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 02/41] fix: report errors from the info dictionary and outline
 destinations

---
 src/document.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index d236ff2..701bbb7 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -536,7 +536,7 @@ rvoe<NoReturnValue> PdfDocument::init() {
     // PDF uses 1-based indexing so add a dummy thing in this vector
     // to make PDF and vector indices are the same.
     document_objects.emplace_back(DummyIndexZero{});
-    generate_info_object();
+    ERCV(generate_info_object());
     switch(docprops.output_colorspace) {
     case CAPY_DEVICE_CS_RGB:
         if(!cm.get_rgb().empty()) {
@@ -1183,7 +1183,7 @@ rvoe<int32_t> PdfDocument::create_outlines() {
                 RETERR(InvalidPageNumber);
             }
             const auto page_object_number = pages.at(physical_page).page_obj_num;
-            serialize_destination(fmt, dest, page_object_number);
+            ERCV(serialize_destination(fmt, dest, page_object_number));
         }
         if(siblings.size() > 1) {
             auto loc = std::find(siblings.begin(), siblings.end(), cur_id);
-- 
2.43.0


From 11bfe541d79665742914b5e11b5dc3e10d8c0057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 03/41] fix: check seek, size and write results when staging
 input files

---
 src/imagefileops.cpp | 5 +++--
 src/mmapper.cpp      | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 100f125..e983ffb 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -480,8 +480,9 @@ rvoe<RasterImage> load_png_from_memory(const char *buf, int64_t bufsize) {
         RETERR(CouldNotOpenFile);
     }
     std::unique_ptr<FILE, int (*)(FILE *)> fcloser(f, fclose);
-    fwrite(buf, 1, bufsize, f);
-    fseek(f, 0, SEEK_SET);
+    if(fwrite(buf, 1, bufsize, f) != (size_t)bufsize || fseek(f, 0, SEEK_SET) != 0) {
+        RETERR(FileWriteError);
+    }
     return load_png_file(f);
 }
 
diff --git a/src/mmapper.cpp b/src/mmapper.cpp
index 5ab2c5a..f0fac25 100644
--- a/src/mmapper.cpp
+++ b/src/mmapper.cpp
@@ -113,13 +113,15 @@ rvoe<MMapper> mmap_file(const char *fname) {
     if(!f) {
         RETERR(CouldNotOpenFile);
     }
-    fseek(f, 0, SEEK_END);
+    if(fseek(f, 0, SEEK_END) != 0) {
+        fclose(f);
+        RETERR(FileReadError);
+    }
     const auto bufsize = ftell(f);
-    if(bufsize == 0) {
+    if(bufsize <= 0) {
         fclose(f);
         RETERR(FileReadError);
     }
-    fseek(f, 0, SEEK_SET);
     int fd = fileno(f);
     auto *buf = mmap(nullptr, bufsize, PROT_READ, MAP_PRIVATE, fd, 0);
     fclose(f);
-- 
2.43.0


From 807cea9940dbe334ed93ad5f60950ee68658861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 04/41] fix: do not read past the given size when validating a
 sized C string

---
 src/capi.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index cea91c4..19fff26 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -59,14 +59,18 @@ template<typename T> [[nodiscard]] CapyPDF_EC conv_err(const rvoe<T> &rc) {
 }
 
 rvoe<std::string> validate_cstring(const char *buf, int32_t strsize) {
+    if(!buf) {
+        RETERR(ArgIsNull);
+    }
     if(strsize < -1) {
         RETERR(InvalidBufsize);
     }
-    std::string converted = buf;
-    if(strsize != -1) {
-        if(converted.size() != (size_t)strsize) {
-            RETERR(EmbeddedNullInString);
-        }
+    if(strsize == -1) {
+        return std::string(buf);
+    }
+    std::string converted(buf, strsize);
+    if(converted.find('\0') != std::string::npos) {
+        RETERR(EmbeddedNullInString);
     }
     return converted;
 }
-- 
2.43.0


From baef115fe395f32a6590106e7f3a63dabff333ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 05/41] fix: validate marked content tags and optional content
 group names

---
 src/capi.cpp        | 13 ++++++++++---
 src/drawcontext.cpp |  2 +-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 19fff26..53c186e 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1037,7 +1037,11 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_BMC(CapyPDF_DrawContext *ctx,
                                           const char *tag) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
     auto *dc = static_cast<PdfDrawContext *>(ctx);
-    return conv_err(dc->cmd_BMC(tag));
+    auto rc = validate_ascii(tag, -1);
+    if(!rc) {
+        return conv_err(rc);
+    }
+    return conv_err(dc->cmd_BMC(rc->sv()));
     API_BOUNDARY_END;
 }
 
@@ -1942,9 +1946,12 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_destroy(CapyPDF_Transition *transition
 CAPYPDF_PUBLIC CapyPDF_EC capy_optional_content_group_new(CapyPDF_OptionalContentGroup **out_ptr,
                                                           const char *name) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
-    // FIXME check for ASCIIness (or even more strict?)
+    auto rc = validate_ascii(name, -1);
+    if(!rc) {
+        return conv_err(rc);
+    }
     auto *ocg = new OptionalContentGroup();
-    ocg->name = name;
+    ocg->name = rc->sv();
     *out_ptr = ocg;
     RETNOERR;
     API_BOUNDARY_END;
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 1559156..c8e707a 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -333,7 +333,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BMC(std::string_view tag) {
         RETERR(SlashStart);
     }
     ERCV(cmds.indent(DrawStateType::MarkedContent));
-    auto cmd = std::format("/{} BMC\n", tag);
+    auto cmd = std::format("{} BMC\n", bytes2pdfstringliteral(tag));
     cmds.append(cmd);
     RETOK;
 }
-- 
2.43.0


From 7096224729288d6f5c0aa54c0572d14b79af0f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 06/41] fix: give capy_dc_set_custom_page_properties the same
 contract as its siblings

---
 include/capypdf.h.in | 3 ++-
 src/capi.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/capypdf.h.in b/include/capypdf.h.in
index 750ea04..faa8577 100644
--- a/include/capypdf.h.in
+++ b/include/capypdf.h.in
@@ -962,7 +962,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_add_simple_navigation(
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_text_new(CapyPDF_DrawContext *ctx,
                                            CapyPDF_Text **out_ptr) CAPYPDF_DEFAULT_FUNCTION_PROPS;
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_set_custom_page_properties(
-    CapyPDF_DrawContext *ctx, const CapyPDF_PageProperties *custom_properties);
+    CapyPDF_DrawContext *ctx,
+    const CapyPDF_PageProperties *custom_properties) CAPYPDF_DEFAULT_FUNCTION_PROPS;
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_annotate(CapyPDF_DrawContext *ctx,
                                            CapyPDF_AnnotationId aid) CAPYPDF_DEFAULT_FUNCTION_PROPS;
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_set_transparency_group_properties(
diff --git a/src/capi.cpp b/src/capi.cpp
index 53c186e..787b11d 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1377,7 +1377,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_set_page_transition(
 }
 
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_set_custom_page_properties(
-    CapyPDF_DrawContext *ctx, const CapyPDF_PageProperties *custom_properties) {
+    CapyPDF_DrawContext *ctx,
+    const CapyPDF_PageProperties *custom_properties) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     auto *cprop = static_cast<const PageProperties *>(custom_properties);
-- 
2.43.0


From c09e361b59eec1df515b25c718d4e2d41629550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 07/41] fix: refuse out-of-range enumerators and negative array
 sizes in the C API

---
 src/capi.cpp | 55 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/capi.cpp b/src/capi.cpp
index 787b11d..0b6a02b 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -17,6 +17,16 @@
         return conv_err(ErrorCode::BadBoolean);                                                    \
     }
 
+#define CHECK_ENUM_ARG(v, max_enum_val)                                                            \
+    if((int)v < 0 || (int)v > (int)max_enum_val) {                                                 \
+        return conv_err(ErrorCode::BadEnum);                                                       \
+    }
+
+#define CHECK_ARRAY_SIZE(s)                                                                        \
+    if(s < 0) {                                                                                    \
+        return conv_err(ErrorCode::InvalidBufsize);                                                \
+    }
+
 using namespace capypdf::internal;
 
 // These structs are not in the interop header because they are
@@ -332,6 +342,7 @@ capy_document_properties_set_device_profile(CapyPDF_DocumentProperties *docprops
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_colorspace(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Device_Colorspace cs) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->output_colorspace = cs;
     RETNOERR;
@@ -356,6 +367,7 @@ capy_document_properties_set_output_intent(CapyPDF_DocumentProperties *docprops,
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfx(
     CapyPDF_DocumentProperties *docprops, CapyPDF_PDFX_Type xtype) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(xtype, CAPY_PDFX_6n);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->subtype = xtype;
     RETNOERR;
@@ -365,6 +377,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfx(
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfa(
     CapyPDF_DocumentProperties *docprops, CapyPDF_PDFA_Type atype) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(atype, CAPY_PDFA_4e);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->subtype = atype;
     RETNOERR;
@@ -397,6 +410,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_tagged(CapyPDF_DocumentPr
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_layout(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Page_Layout layout) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(layout, CAPY_PAGE_LAYOUT_TWO_PAGE_RIGHT);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->page_layout = layout;
     RETNOERR;
@@ -406,6 +420,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_layout(
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_mode(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Page_Mode mode) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(mode, CAPY_PAGE_MODE_ATTACHMENTS);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->page_mode = mode;
     RETNOERR;
@@ -468,6 +483,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_page_labeling(CapyPDF_Generator *ge
     std::optional<u8string> opt_prefix;
     std::optional<uint32_t> opt_start_num;
     if(style) {
+        CHECK_ENUM_ARG(*style, CAPY_PAGE_LABEL_NUMBER_STYLE_LETTER_LOWER);
         opt_style = *style;
     }
     if(prefix) {
@@ -608,6 +624,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_load_image_from_memory(CapyPDF_Generato
                                                                 CapyPDF_RasterImage **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(bufsize);
     auto *g = static_cast<PdfGen *>(gen);
     auto rc = g->load_image(buf, bufsize);
     if(rc) {
@@ -624,6 +641,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_convert_image(CapyPDF_Generator *gen,
                                                        CapyPDF_RasterImage **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(ri, CAPY_RI_PERCEPTUAL);
     auto *g = static_cast<PdfGen *>(gen);
     if(auto *raw = std::get_if<RawPixelImage>(&source->ri)) {
         auto rc = g->convert_image_to_cs(*raw, output_cs, ri);
@@ -700,6 +718,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_structure_item(CapyPDF_Generator *g
                                                             CapyPDF_StructureItemId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(stype, CAPY_STRUCTURE_TYPE_ARTIFACT);
     auto *g = static_cast<PdfGen *>(gen);
     std::optional<CapyPDF_StructureItemId> item_parent;
     if(parent) {
@@ -823,6 +842,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_separation(CapyPDF_Generator *gen,
                                                         CapyPDF_SeparationId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *g = static_cast<PdfGen *>(gen);
     auto name = validate_ascii(separation_name, strsize);
     if(!name) {
@@ -896,6 +916,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_rolemap_entry(CapyPDF_Generator *ge
                                                            CapyPDF_RoleId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(builtin, CAPY_STRUCTURE_TYPE_ARTIFACT);
     auto *g = static_cast<PdfGen *>(gen);
     auto nameobj = validate_cstring(name, namesize);
     if(!nameobj) {
@@ -1076,6 +1097,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_d(CapyPDF_DrawContext *ctx,
                                         int32_t array_size,
                                         double phase) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(array_size);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     return conv_err(dc->cmd_d(dash_array, array_size, phase));
     API_BOUNDARY_END;
@@ -1423,6 +1445,7 @@ capy_dc_add_simple_navigation(CapyPDF_DrawContext *ctx,
                               int32_t array_size,
                               const CapyPDF_Transition *tr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(array_size);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     std::optional<Transition> transition;
     if(tr) {
@@ -1654,6 +1677,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_M(CapyPDF_Text *text, double miterlimit)
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_j(CapyPDF_Text *text,
                                           CapyPDF_Line_Join join_style) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(join_style, CAPY_LJ_BEVEL);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_j(join_style));
     API_BOUNDARY_END;
@@ -1661,6 +1685,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_j(CapyPDF_Text *text,
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_J(CapyPDF_Text *text,
                                           CapyPDF_Line_Cap cap_style) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cap_style, CAPY_LC_PROJECTION);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_J(cap_style));
     API_BOUNDARY_END;
@@ -1670,6 +1695,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_d(CapyPDF_Text *text,
                                           int32_t array_size,
                                           double phase) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(array_size);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_d(dash_array, array_size, phase));
     API_BOUNDARY_END;
@@ -1764,6 +1790,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_Tm(CapyPDF_Text *text,
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_Tr(CapyPDF_Text *text,
                                            CapyPDF_Text_Mode tmode) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(tmode, CAPY_TEXT_CLIP);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_Tr(tmode));
     API_BOUNDARY_END;
@@ -1825,6 +1852,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_color_set_icc(CapyPDF_Color *color,
                                              double *values,
                                              int32_t num_values) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(num_values);
     ICCColor icc;
     icc.id = icc_id;
     icc.values.assign(values, values + num_values);
@@ -1874,6 +1902,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_new(CapyPDF_Transition **out_ptr) CAPY
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_S(CapyPDF_Transition *tr,
                                                 CapyPDF_Transition_Type type) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(type, CAPY_TR_FADE);
     auto pt = static_cast<Transition *>(tr);
     pt->type = type;
     RETNOERR;
@@ -1892,6 +1921,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_D(CapyPDF_Transition *tr,
 CAPYPDF_PUBLIC CapyPDF_EC
 capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(dim, CAPY_TR_DIM_V);
     auto pt = static_cast<Transition *>(tr);
     pt->Di = dim;
     RETNOERR;
@@ -1901,6 +1931,7 @@ capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim)
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_M(CapyPDF_Transition *tr,
                                                 CapyPDF_Transition_Motion m) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(m, CAPY_TR_M_O);
     auto pt = static_cast<Transition *>(tr);
     pt->M = m;
     RETNOERR;
@@ -2006,6 +2037,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_ca(CapyPDF_GraphicsState *stat
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_BM(
     CapyPDF_GraphicsState *state, CapyPDF_Blend_Mode blendmode) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(blendmode, CAPY_BM_LUMINOSITY);
     auto *s = static_cast<GraphicsState *>(state);
     s->BM = blendmode;
     RETNOERR;
@@ -2090,6 +2122,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_TK(CapyPDF_GraphicsState *stat
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_blackpoint_compensation(
     CapyPDF_GraphicsState *state, CapyPDF_Black_Point_Compensation use_comp) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(use_comp, CAPY_BLACK_POINT_COMPENSATION_DEFAULT);
     auto *s = static_cast<GraphicsState *>(state);
     s->UseBlackPtComp = use_comp;
     RETNOERR;
@@ -2126,6 +2159,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transparency_group_properties_new(
 CAPYPDF_PUBLIC CapyPDF_EC capy_transparency_group_properties_set_CS(
     CapyPDF_TransparencyGroupProperties *props, CapyPDF_Device_Colorspace cs) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *p = static_cast<TransparencyGroupProperties *>(props);
     p->CS = cs;
     RETNOERR;
@@ -2222,6 +2256,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_alpha_data(
 CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_input_data_compression_format(
     CapyPDF_RasterImageBuilder *builder, CapyPDF_Compression compression) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(compression, CAPY_COMPRESSION_DEFLATE);
     auto *b = static_cast<RasterImageBuilder *>(builder);
     b->i.md.compression = compression;
     RETNOERR;
@@ -2231,6 +2266,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_input_data_compression_f
 CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_colorspace(
     CapyPDF_RasterImageBuilder *builder, CapyPDF_Image_Colorspace colorspace) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(colorspace, CAPY_IMAGE_CS_CMYK);
     auto *b = static_cast<RasterImageBuilder *>(builder);
     b->i.md.cs = colorspace;
     RETNOERR;
@@ -2312,6 +2348,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type2_function_new(double *domain,
                                                   double n,
                                                   CapyPDF_Function **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(domain_size);
     *out_ptr = new _capyPDF_Function(PdfFunction{
         FunctionType2{std::vector<double>(domain, domain + domain_size), c1->c, c2->c, n}});
     RETNOERR;
@@ -2335,6 +2372,10 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type3_function_new(double *domain,
                                                   int32_t encode_size,
                                                   CapyPDF_Function **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(domain_size);
+    CHECK_ARRAY_SIZE(functions_size);
+    CHECK_ARRAY_SIZE(bounds_size);
+    CHECK_ARRAY_SIZE(encode_size);
     *out_ptr = new _capyPDF_Function(PdfFunction{
         FunctionType3{std::vector<double>(domain, domain + domain_size),
                       std::vector<CapyPDF_FunctionId>(functions, functions + functions_size),
@@ -2352,6 +2393,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_function_new(double *domain,
                                                   int32_t code_size,
                                                   CapyPDF_Function **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ARRAY_SIZE(domain_size);
+    CHECK_ARRAY_SIZE(range_size);
     auto rc = validate_cstring(code, code_size);
     if(!rc) {
         return conv_err(rc.error());
@@ -2372,6 +2415,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type2_shading_new(CapyPDF_Device_Colorspace cs,
                                                  CapyPDF_FunctionId func,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(PdfShading{ShadingType2{cs, x0, y0, x1, y1, func}});
     RETNOERR;
     API_BOUNDARY_END;
@@ -2422,6 +2466,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type3_shading_new(CapyPDF_Device_Colorspace cs,
                                                  CapyPDF_FunctionId func,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(
         ShadingType3{cs, coords[0], coords[1], coords[2], coords[3], coords[4], coords[5], func});
     RETNOERR;
@@ -2435,6 +2480,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_shading_new(CapyPDF_Device_Colorspace cs,
                                                  double maxy,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(ShadingType4{{}, minx, miny, maxx, maxy, cs});
     RETNOERR;
     API_BOUNDARY_END;
@@ -2484,6 +2530,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_new(CapyPDF_Device_Colorspace cs,
                                                  double maxy,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(ShadingType6{
         {},
         minx,
@@ -2688,6 +2735,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_annotation_set_line_endings(CapyPDF_Annotation *a
                                                            CapyPDF_Line_Annotation_End_Style end)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(start, CAPY_LINE_ANNOTATION_END_SLASH);
+    CHECK_ENUM_ARG(end, CAPY_LINE_ANNOTATION_END_SLASH);
     auto *a = static_cast<Annotation *>(annotation);
     if(auto *line = std::get_if<LineAnnotation>(&a->sub)) {
         line->end_styles = LineAnnotationEndStyles{start, end};
@@ -2829,6 +2878,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_image_pdf_properties_set_mask(CapyPDF_ImagePdfPro
 CAPYPDF_PUBLIC CapyPDF_EC capy_image_pdf_properties_set_interpolate(
     CapyPDF_ImagePdfProperties *par, CapyPDF_Image_Interpolation interp) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(interp, CAPY_INTERPOLATION_SMOOTH);
     auto p = static_cast<ImagePDFProperties *>(par);
     p->interp = interp;
     RETNOERR;
@@ -2998,6 +3048,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_soft_mask_new(CapyPDF_Soft_Mask_Subtype subtype,
                                              CapyPDF_TransparencyGroupId trid,
                                              CapyPDF_SoftMask **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(subtype, CAPY_SOFT_MASK_LUMINOSITY);
     *out_ptr = new SoftMask{{}, subtype, trid};
     RETNOERR;
     API_BOUNDARY_END;
@@ -3200,6 +3251,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_halftone_set_type1(CapyPDF_Halftone *ht,
                                                   CapyPDF_Halftone_Spot_Function htspot)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(htspot, CAPY_HT_FUNC_DIAMOND);
     ht->ht = HalftoneType1{frequency, angle, htspot};
     RETNOERR;
     API_BOUNDARY_END;
@@ -3218,6 +3270,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_3d_stream_new(const char *fname,
                                              CapyPDF_3D_File_Format format,
                                              CapyPDF_3DStream **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(format, CAPY_3D_PRC);
     auto rc = load_file_as_bytes(fname);
     if(!rc) {
         return conv_err(rc);
@@ -3466,6 +3519,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_set_schema(
 CAPYPDF_PUBLIC CapyPDF_EC capy_collection_set_view(CapyPDF_Collection *coll,
                                                    CapyPDF_Collection_View view) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(view, CAPY_COLLECTION_C);
     auto *c = static_cast<Collection *>(coll);
     c->View = view;
     RETNOERR;
@@ -3523,6 +3577,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_field_new(CapyPDF_Collection_Subtype s
                                                     CapyPDF_CollectionField **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(subtype, CAPY_COLLECTION_SUB_COMPRESSED_SIZE);
     auto rc = validate_utf8(name, namelen);
     if(!rc) {
         return conv_err(rc);
-- 
2.43.0


From 5410d47637e706d96dc86deac2e4229610c459e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:35 +0000
Subject: [PATCH 08/41] fix: quote user text completely in names, strings and
 XML

---
 src/capi.cpp                   |  2 +-
 src/commandstreamformatter.cpp |  8 ++-
 src/document.cpp               |  4 +-
 src/drawcontext.cpp            | 12 ++---
 src/drawcontext.hpp            |  2 +-
 src/objectformatter.cpp        | 10 ++--
 src/pdfwriter.cpp              | 10 ++--
 src/utils.cpp                  | 89 +++++++++++++++-------------------
 src/xmlformatter.cpp           |  2 +-
 9 files changed, 61 insertions(+), 78 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 0b6a02b..73ea80f 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1042,7 +1042,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_BDC_testing(CapyPDF_DrawContext *ctx,
     if(!astr) {
         return conv_err(astr.error());
     }
-    return conv_err(dc->cmd_BDC(astr.value(), {}, tags ? &tags->tags : nullptr));
+    return conv_err(dc->cmd_BDC(astr.value().sv(), {}, tags ? &tags->tags : nullptr));
     API_BOUNDARY_END;
 }
 
diff --git a/src/commandstreamformatter.cpp b/src/commandstreamformatter.cpp
index 86462b1..7f4ee11 100644
--- a/src/commandstreamformatter.cpp
+++ b/src/commandstreamformatter.cpp
@@ -2,6 +2,7 @@
 // Copyright 2025 Jussi Pakkanen
 
 #include <commandstreamformatter.hpp>
+#include <utils.hpp>
 #include <format>
 #include <cassert>
 
@@ -61,11 +62,8 @@ void CommandStreamFormatter::append_dict_entry(std::string_view key, int32_t val
 }
 
 void CommandStreamFormatter::append_dict_entry_string(const char *key, const char *value) {
-    if(key[0] == '/') {
-        std::format_to(appender, "{}{} ({})\n", lead, key, value);
-    } else {
-        std::format_to(appender, "{}/{} ({})\n", lead, key, value);
-    }
+    const auto quoted_key = bytes2pdfstringliteral(key[0] == '/' ? key + 1 : key);
+    std::format_to(appender, "{}{} {}\n", lead, quoted_key, pdfstring_quote(value));
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::BT() {
diff --git a/src/document.cpp b/src/document.cpp
index 701bbb7..2087b49 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1120,7 +1120,7 @@ rvoe<NoReturnValue> PdfDocument::create_catalog() {
             fmt.begin_dict();
             const auto &schema = c.schema.value();
             for(const auto &[key, value] : schema.entries) {
-                fmt.add_token_with_slash(key.c_str());
+                fmt.add_token(bytes2pdfstringliteral(key.sv()));
                 fmt.begin_dict();
                 fmt.add_token("/Subtype");
                 fmt.add_token(collection_view_subtype_names.at(value.subtype));
@@ -2085,7 +2085,7 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/EmbeddedFile");
         if(!ef.subtype.empty()) {
-            auto quoted = pdfname_quote(ef.subtype.sv());
+            auto quoted = bytes2pdfstringliteral(ef.subtype.sv());
             fmt.add_token_pair("/Subtype", quoted);
         }
         fileobj_id = add_object(DeflatePDFObject{std::move(fmt), RawData(std::move(ef.contents))});
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index c8e707a..997381f 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -277,7 +277,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_Bstar() {
     RETOK;
 }
 
-rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(const asciistring &name,
+rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(std::string_view name,
                                             std::optional<CapyPDF_StructureItemId> sid,
                                             const BDCTags *attributes) {
     if(!sid && !attributes) {
@@ -285,8 +285,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(const asciistring &name,
         std::abort();
     }
     cmds.append_indent();
-    cmds.append_raw("/");
-    cmds.append_raw(name.sv());
+    cmds.append_raw(bytes2pdfstringliteral(name));
     cmds.append_raw(" <<\n");
     ERCV(cmds.indent(DrawStateType::Dictionary));
     if(sid) {
@@ -309,12 +308,9 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_StructureItemId sid,
                                             const BDCTags *attributes) {
     const auto &itemtype = doc->structure_items.at(sid.id).stype;
     if(auto builtin = std::get_if<CapyPDF_Structure_Type>(&itemtype)) {
-        ERC(astr, asciistring::from_cstr(structure_type_names.at(*builtin)));
-        return cmd_BDC(astr, sid, attributes);
+        return cmd_BDC(structure_type_names.at(*builtin), sid, attributes);
     } else if(auto role = std::get_if<CapyPDF_RoleId>(&itemtype)) {
-        auto quoted = bytes2pdfstringliteral(doc->rolemap.at(role->id).name, false);
-        ERC(astr, asciistring::from_cstr(quoted.c_str()));
-        return cmd_BDC(astr, sid, attributes);
+        return cmd_BDC(doc->rolemap.at(role->id).name, sid, attributes);
     } else {
         std::abort();
     }
diff --git a/src/drawcontext.hpp b/src/drawcontext.hpp
index 247ed4e..140c7c0 100644
--- a/src/drawcontext.hpp
+++ b/src/drawcontext.hpp
@@ -74,7 +74,7 @@ public:
     rvoe<NoReturnValue> cmd_B();
     rvoe<NoReturnValue> cmd_bstar();
     rvoe<NoReturnValue> cmd_Bstar();
-    rvoe<NoReturnValue> cmd_BDC(const asciistring &name,
+    rvoe<NoReturnValue> cmd_BDC(std::string_view name,
                                 std::optional<CapyPDF_StructureItemId> sid,
                                 const BDCTags *attributes);
     rvoe<NoReturnValue> cmd_BDC(CapyPDF_StructureItemId sid, const BDCTags *attributes);
diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 6443a75..1598f90 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -87,7 +87,10 @@ void ObjectFormatter::add_token(double number) {
     added_item();
 }
 
-void ObjectFormatter::add_token(const PdfName &name) { add_token(name.sv()); }
+void ObjectFormatter::add_token(const PdfName &name) {
+    // The stored name always starts with a slash.
+    add_token(bytes2pdfstringliteral(name.sv().substr(1)));
+}
 
 void ObjectFormatter::add_token(uint64_t number) {
     check_indent();
@@ -163,10 +166,7 @@ void ObjectFormatter::check_indent() {
 }
 
 void ObjectFormatter::add_pdfstring(const asciistring &str) {
-    // FIXME: add quoting for special characters.
-    check_indent();
-    std::format_to(app, "({})", str.c_str());
-    added_item();
+    add_token(pdfstring_quote(str.sv()));
 }
 
 void ObjectFormatter::add_bytestring(const std::string_view str) {
diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index a384b57..106a775 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -55,11 +55,11 @@ std::string fontname2pdfname(std::string_view original) {
         }
         out += c;
     }
-    // FIXME: might need to escape other special characters as well.
-    return out;
+    return bytes2pdfstringliteral(out, false);
 }
 
-std::string subsetfontname2pdfname(std::string_view original, const int32_t subset_number) {
+// The original name is null if the font does not have a PostScript name.
+std::string subsetfontname2pdfname(const char *original, const int32_t subset_number) {
     std::string out;
     const int bufsize = 10;
     char buf[bufsize];
@@ -68,7 +68,9 @@ std::string subsetfontname2pdfname(std::string_view original, const int32_t subs
         out += 'A' + (buf[i] - '0');
     }
     out += "+";
-    out += fontname2pdfname(original);
+    if(original) {
+        out += fontname2pdfname(original);
+    }
     return out;
 }
 
diff --git a/src/utils.cpp b/src/utils.cpp
index 1c55548..630c6d7 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -77,10 +77,39 @@ bool needs_quoting(const unsigned char c) {
     if(c < '!' || c > '~') {
         return true;
     }
-    if(c == '#' || c == '(' || c == ')' || c == ' ' || c == '/') {
+    switch(c) {
+    case '#':
+    case '(':
+    case ')':
+    case '<':
+    case '>':
+    case '[':
+    case ']':
+    case '{':
+    case '}':
+    case '/':
+    case '%':
         return true;
+    default:
+        return false;
     }
-    return false;
+}
+
+// As in PDF 2.0 spec 7.3.4.2. An unescaped carriage return would be read back as a newline.
+void append_quoted_string_char(std::string &result, char c) {
+    switch(c) {
+    case '\r':
+        result += "\\r";
+        return;
+    case '(':
+    case ')':
+    case '\\':
+        result.push_back('\\');
+        break;
+    default:
+        break;
+    }
+    result.push_back(c);
 }
 
 template<typename T> rvoe<T> do_file_load(FILE *f) {
@@ -270,16 +299,7 @@ std::string pdfstring_quote(std::string_view raw_string) {
     result.reserve(raw_string.size() * 2 + 2);
     result.push_back('(');
     for(const char c : raw_string) {
-        switch(c) {
-        case '(':
-        case ')':
-        case '\\':
-            result.push_back('\\');
-            break;
-        default:
-            break;
-        }
-        result.push_back(c);
+        append_quoted_string_char(result, c);
     }
     result.push_back(')');
     return result;
@@ -296,16 +316,7 @@ std::string u8str2u8textstring(std::string_view u8string) {
     result.push_back(char(187));
     result.push_back(char(191));
     for(const char c : u8string) {
-        switch(c) {
-        case '(':
-        case ')':
-        case '\\':
-            result.push_back('\\');
-            break;
-        default:
-            break;
-        }
-        result.push_back(c);
+        append_quoted_string_char(result, c);
     }
     result.push_back(')');
     return result;
@@ -313,47 +324,23 @@ std::string u8str2u8textstring(std::string_view u8string) {
 
 std::string u8str2filespec(const u8string &str) {
     std::string result;
-    const char escaped_slash[4] = {'\\', '\\', '/', 0};
     result.reserve(str.size() + 10);
     result.push_back('(');
     result.push_back(char(239));
     result.push_back(char(187));
     result.push_back(char(191));
     for(const char c : str.sv()) {
-        switch(c) {
-        case '(':
-        case ')':
-        case '\\':
-            result.push_back('\\');
-            break;
-        case '/':
-            result += escaped_slash;
-            break;
-        default:
-            break;
+        if(c == '/') {
+            result += "\\\\";
         }
-        result.push_back(c);
+        append_quoted_string_char(result, c);
     }
     result.push_back(')');
     return result;
 }
 
 std::string pdfname_quote(std::string_view raw_string) {
-    std::string result;
-    result.reserve(raw_string.size() + 10);
-    for(const char c : raw_string) {
-        switch(c) {
-        case '/':
-            result += "#2F";
-            break;
-        case '#':
-            result += "#23";
-            break;
-        default:
-            result += c;
-        }
-    }
-    return result;
+    return bytes2pdfstringliteral(raw_string, false);
 }
 
 bool is_ascii(std::string_view text) {
@@ -452,7 +439,7 @@ void quote_xml_element_data_unchecked_into(const std::string_view &content, std:
             result += "&gt;";
             break;
         case '&':
-            result += "&quot;";
+            result += "&amp;";
             break;
         default:
             result += c;
diff --git a/src/xmlformatter.cpp b/src/xmlformatter.cpp
index ca29af8..49fd6f9 100644
--- a/src/xmlformatter.cpp
+++ b/src/xmlformatter.cpp
@@ -67,7 +67,7 @@ void XMLFormatter::add_tag_attribute(const char *name, std::string_view value) {
     output += "=\"";
     for(const auto c : value) {
         if(c == '"') {
-            output += "\\\"";
+            output += "&quot;";
         } else {
             output += c;
         }
-- 
2.43.0


From 61c4c2a3d1c62a45e3687d99df720aa8e9152209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 09/41] fix: check every id against the table that issued it

---
 src/document.cpp    | 46 ++++++++++++++++++++++++++++++++++-----------
 src/document.hpp    | 10 +++++-----
 src/drawcontext.cpp |  8 +++++++-
 src/generator.cpp   |  1 +
 src/pdfwriter.cpp   | 20 ++++++++++----------
 src/pdfwriter.hpp   |  2 +-
 6 files changed, 59 insertions(+), 28 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 2087b49..b550835 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1456,7 +1456,7 @@ uint32_t PdfDocument::glyph_for_codepoint(FT_Face face, uint32_t ucs4) {
 }
 
 bool PdfDocument::font_has_character(CapyPDF_FontId fid, uint32_t codepoint) {
-    return font_has_character(fonts.at(fid.id).fontdata.face.get(), codepoint);
+    return font_has_character(fonts.at(get(fid).font_index_tmp).fontdata.face.get(), codepoint);
 }
 
 bool PdfDocument::font_has_character(FT_Face face, uint32_t codepoint) {
@@ -1470,7 +1470,7 @@ rvoe<SubsetGlyph> PdfDocument::get_subset_glyph(CapyPDF_FontId fid,
     if(!glyph_id && !font_has_character(fid, codepoint)) {
         RETERR(MissingGlyph);
     }
-    ERC(blub, fonts.at(fid.id).subsets.get_glyph_subset(codepoint, glyph_id));
+    ERC(blub, fonts.at(get(fid).font_index_tmp).subsets.get_glyph_subset(codepoint, glyph_id));
     SubsetGlyph fss;
     fss.ss.fid = fid;
     fss.glyph_id = blub.offset;
@@ -1479,7 +1479,7 @@ rvoe<SubsetGlyph> PdfDocument::get_subset_glyph(CapyPDF_FontId fid,
 
 rvoe<SubsetGlyph>
 PdfDocument::get_subset_glyph(CapyPDF_FontId fid, const u8string &text, uint32_t glyph_id) {
-    ERC(blub, fonts.at(fid.id).subsets.get_glyph_subset(text, glyph_id));
+    ERC(blub, fonts.at(get(fid).font_index_tmp).subsets.get_glyph_subset(text, glyph_id));
     SubsetGlyph fss;
     fss.ss.fid = fid;
     fss.glyph_id = blub.offset;
@@ -2058,6 +2058,9 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
     if(o.title.empty()) {
         RETERR(EmptyTitle);
     }
+    if(o.parent) {
+        CHECK_INDEXNESS_V(o.parent->id, outlines.items);
+    }
     const auto cur_id = (int32_t)outlines.items.size();
     const auto par_id = o.parent.value_or(CapyPDF_OutlineId{-1}).id;
     outlines.parent[cur_id] = par_id;
@@ -2067,6 +2070,9 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
 }
 
 rvoe<CapyPDF_FormFieldId> PdfDocument::add_form_field(FormField &field) {
+    if(field.parent) {
+        CHECK_INDEXNESS_V(field.parent->id, form_fields);
+    }
     auto field_id = (int32_t)form_fields.size();
     auto obj_id = add_object(DelayedFormField{{field_id}, std::move(field)});
     form_fields.push_back((int32_t)obj_id);
@@ -2112,6 +2118,23 @@ rvoe<CapyPDF_AnnotationId> PdfDocument::add_annotation(const Annotation &a) {
     if(!a.rect) {
         RETERR(AnnotationMissingRect);
     }
+    if(auto *fa = std::get_if<FileAttachmentAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS_V(fa->fileid.id, embedded_files);
+    } else if(auto *sa = std::get_if<ScreenAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS_V(sa->mediafile.id, embedded_files);
+    } else if(auto *wa = std::get_if<WidgetAnnotation>(&a.sub)) {
+        if(wa->parent) {
+            CHECK_INDEXNESS_V(wa->parent->id, form_fields);
+        }
+        if(wa->buttoninfo) {
+            CHECK_INDEXNESS_V(wa->buttoninfo->on_state.id, form_xobjects);
+            CHECK_INDEXNESS_V(wa->buttoninfo->off_state.id, form_xobjects);
+        }
+    } else if(auto *pma = std::get_if<PrintersMarkAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS_V(pma->appearance.id, form_xobjects);
+    } else if(auto *ta = std::get_if<ThreeDAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS_V(ta->stream.id, document_objects);
+    }
     auto annot_id = (int32_t)annotations.size();
     auto obj_id = add_object(DelayedAnnotation{{annot_id}, a});
     annotations.push_back((int32_t)obj_id);
@@ -2136,6 +2159,7 @@ rvoe<CapyPDF_StructureItemId>
 PdfDocument::add_structure_item(const CapyPDF_RoleId role,
                                 std::optional<CapyPDF_StructureItemId> parent,
                                 std::optional<StructItemExtraData> extra) {
+    CHECK_INDEXNESS_V(role.id, rolemap);
     if(parent) {
         CHECK_INDEXNESS_V(parent->id, structure_items);
     }
@@ -2188,7 +2212,7 @@ rvoe<CapyPDF_SoftMaskId> PdfDocument::add_soft_mask(const SoftMask &sm) {
 
 std::optional<double>
 PdfDocument::glyph_advance(CapyPDF_FontId fid, double pointsize, uint32_t codepoint) const {
-    FT_Face face = fonts.at(fid.id).fontdata.face.get();
+    FT_Face face = fonts.at(get(fid).font_index_tmp).fontdata.face.get();
     FT_Set_Char_Size(face, 0, (FT_F26Dot6)(pointsize * 64), 300, 300);
     if(FT_Load_Char(face, codepoint, FT_LOAD_NO_HINTING | FT_LOAD_NO_BITMAP) != 0) {
         return {};
@@ -2243,19 +2267,19 @@ PdfDocument::load_font(FT_Library ft, const char *fname, FontProperties props) {
                 error);
         RETERR(UnsupportedFormat);
     }
-    CapyPDF_FontId font_source_id{(int32_t)fonts.size()};
+    const auto font_index = (int32_t)fonts.size();
     ERC(fss, FontSubsetter::construct(fname, face, props));
     fonts.emplace_back(FontThingy{std::move(ttf), std::move(fss)});
 
-    auto subfont_data_obj = add_object(DelayedSubsetFontData{font_source_id});
+    auto subfont_data_obj = add_object(DelayedSubsetFontData{font_index});
     auto subfont_descriptor_obj =
-        add_object(DelayedSubsetFontDescriptor{font_source_id, subfont_data_obj});
-    auto subfont_cmap_obj = add_object(DelayedSubsetCMap{font_source_id});
+        add_object(DelayedSubsetFontDescriptor{font_index, subfont_data_obj});
+    auto subfont_cmap_obj = add_object(DelayedSubsetCMap{font_index});
     auto subfont_obj =
-        add_object(DelayedSubsetFont{font_source_id, subfont_descriptor_obj, subfont_cmap_obj});
-    auto cid_dict_obj = add_object(DelayedCIDDictionary{font_source_id, subfont_descriptor_obj});
+        add_object(DelayedSubsetFont{font_index, subfont_descriptor_obj, subfont_cmap_obj});
+    auto cid_dict_obj = add_object(DelayedCIDDictionary{font_index, subfont_descriptor_obj});
 
-    CapyPDF_FontId fid{(int32_t)fonts.size() - 1};
+    CapyPDF_FontId fid{(int32_t)font_objects.size()};
     font_objects.push_back(FontPDFObjects{
         subfont_data_obj, subfont_descriptor_obj, subfont_obj, cid_dict_obj, fonts.size() - 1});
     return fid;
diff --git a/src/document.hpp b/src/document.hpp
index f0ea9db..93054ea 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -123,26 +123,26 @@ struct DeflatePDFObject {
 };
 
 struct DelayedSubsetFontData {
-    CapyPDF_FontId fid;
+    int32_t font_index;
 };
 
 struct DelayedSubsetCMap {
-    CapyPDF_FontId fid;
+    int32_t font_index;
 };
 
 struct DelayedSubsetFontDescriptor {
-    CapyPDF_FontId fid;
+    int32_t font_index;
     int32_t subfont_data_obj;
 };
 
 struct DelayedSubsetFont {
-    CapyPDF_FontId fid;
+    int32_t font_index;
     int32_t subfont_descriptor_obj;
     int32_t subfont_cmap_obj;
 };
 
 struct DelayedCIDDictionary {
-    CapyPDF_FontId fid;
+    int32_t font_index;
     int32_t subfont_descriptor_obj;
 };
 
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 997381f..1b1aaf5 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -245,6 +245,7 @@ void PdfDrawContext::build_resource_dict(ObjectFormatter &fmt) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::annotate(CapyPDF_AnnotationId annotation) {
+    CHECK_INDEXNESS(annotation.id, doc->annotations);
     if(used_annotations.find(annotation) != used_annotations.end()) {
         RETERR(AnnotationReuse);
     }
@@ -534,7 +535,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_scn(double value) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_sh(CapyPDF_ShadingId shid) {
-    CHECK_INDEXNESS(shid.id, doc->document_objects);
+    CHECK_INDEXNESS(shid.id, doc->shadings);
     used_shadings.insert(shid.id);
     auto cmd = std::format("/SH{} sh\n", shid.id);
     cmds.append(cmd);
@@ -718,6 +719,7 @@ rvoe<NoReturnValue> PdfDrawContext::convert_to_output_cs_and_set_color(const Dev
 }
 
 rvoe<NoReturnValue> PdfDrawContext::set_color(CapyPDF_PatternId id, bool stroke) {
+    CHECK_INDEXNESS(id.id, doc->document_objects);
     if(stroke) {
         ERCV(cmd_CS("/Pattern"));
     } else {
@@ -779,6 +781,7 @@ rvoe<NoReturnValue> PdfDrawContext::rotate(double angle) {
 
 rvoe<NoReturnValue> PdfDrawContext::render_text(
     const u8string &text, CapyPDF_FontId fid, double pointsize, double x, double y) {
+    CHECK_INDEXNESS(fid.id, doc->font_objects);
     PdfText t(this);
     ERCV(t.cmd_Tf(fid, pointsize));
     ERCV(t.cmd_Td(x, y));
@@ -890,6 +893,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         },
 
         [&](const Tf_arg &tf) -> rvoe<NoReturnValue> {
+            CHECK_INDEXNESS(tf.font.id, doc->font_objects);
             current_font = tf.font;
             current_pointsize = tf.pointsize;
             auto cmd = std::format(
@@ -1004,6 +1008,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
                 cmd += " SCN";
                 cmds.append(cmd);
             } else if(auto id = std::get_if<CapyPDF_PatternId>(&sarg.c)) {
+                CHECK_INDEXNESS(id->id, doc->document_objects);
                 used_patterns.insert(id->id);
                 cmds.append("/Pattern CS\n");
                 auto cmd = std::format("/Pattern-{} SCN\n", id->id);
@@ -1036,6 +1041,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
                 std::format_to(std::back_inserter(cmd), "{}\n", "scn");
                 cmds.append(cmd);
             } else if(auto id = std::get_if<CapyPDF_PatternId>(&nsarg.c)) {
+                CHECK_INDEXNESS(id->id, doc->document_objects);
                 used_patterns.insert(id->id);
                 cmds.append("/Pattern cs\n");
                 auto cmd = std::format("/Pattern-{} scn\n", id->id);
diff --git a/src/generator.cpp b/src/generator.cpp
index a436bee..f2baf49 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -164,6 +164,7 @@ PdfDrawContext *PdfGen::new_color_pattern(const PdfRectangle &rect) {
 
 rvoe<double>
 PdfGen::utf8_text_width(const u8string &txt, CapyPDF_FontId fid, double pointsize) const {
+    CHECK_INDEXNESS_V(fid.id, pdoc.font_objects);
     if(txt.empty()) {
         return 0;
     }
diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 106a775..942a4d4 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -366,27 +366,27 @@ rvoe<std::vector<ObjectOffset>> PdfWriter::write_objects() {
         // number and the easiest way to do that is to assign each one a running number,
         // which is the same as the font id.
         [&](const DelayedSubsetFontDescriptor &ssfontd) -> rvoe<NoReturnValue> {
-            const auto subset_id = ssfontd.fid.id;
+            const auto subset_id = ssfontd.font_index;
             ERCV(write_subset_font_descriptor(
-                i, doc.fonts.at(ssfontd.fid.id).fontdata, ssfontd.subfont_data_obj, subset_id));
+                i, doc.fonts.at(ssfontd.font_index).fontdata, ssfontd.subfont_data_obj, subset_id));
             RETOK;
         },
 
         [&](const DelayedSubsetCMap &sscmap) -> rvoe<NoReturnValue> {
-            ERCV(write_subset_cmap(i, doc.fonts.at(sscmap.fid.id)));
+            ERCV(write_subset_cmap(i, doc.fonts.at(sscmap.font_index)));
             RETOK;
         },
 
         [&](const DelayedSubsetFont &ssfont) -> rvoe<NoReturnValue> {
-            const auto subset_id = ssfont.fid.id;
+            const auto subset_id = ssfont.font_index;
             ERCV(write_subset_font(
-                i, doc.fonts.at(ssfont.fid.id), ssfont.subfont_cmap_obj, subset_id));
+                i, doc.fonts.at(ssfont.font_index), ssfont.subfont_cmap_obj, subset_id));
             RETOK;
         },
 
         [&](const DelayedCIDDictionary &ciddict) -> rvoe<NoReturnValue> {
-            const auto subset_id = ciddict.fid.id;
-            ERCV(write_cid_dict(i, ciddict.fid, ciddict.subfont_descriptor_obj, subset_id));
+            const auto subset_id = ciddict.font_index;
+            ERCV(write_cid_dict(i, ciddict.font_index, ciddict.subfont_descriptor_obj, subset_id));
             RETOK;
         },
 
@@ -694,10 +694,10 @@ rvoe<NoReturnValue> PdfWriter::write_subset_font(int32_t object_num,
 }
 
 rvoe<NoReturnValue> PdfWriter::write_cid_dict(int32_t object_num,
-                                              CapyPDF_FontId fid,
+                                              int32_t font_index,
                                               int32_t font_descriptor_obj,
                                               int32_t subset_id) {
-    const auto &font = doc.fonts.at(fid.id);
+    const auto &font = doc.fonts.at(font_index);
     auto face = font.fontdata.face.get();
     ERC(width_arr, build_subset_width_array(face, font.subsets.get_subset()));
     ObjectFormatter fmt;
@@ -732,7 +732,7 @@ rvoe<NoReturnValue> PdfWriter::write_cid_dict(int32_t object_num,
 
 rvoe<NoReturnValue> PdfWriter::write_subset_font_data(int32_t object_num,
                                                       const DelayedSubsetFontData &ssfont) {
-    const auto &font = doc.fonts.at(ssfont.fid.id);
+    const auto &font = doc.fonts.at(ssfont.font_index);
     ERC(subset_font, font.subsets.generate_subset(font.fontdata.fontdata));
 
     ERC(compressed_bytes, flate_compress(subset_font));
diff --git a/src/pdfwriter.hpp b/src/pdfwriter.hpp
index 52a0f83..543b6b1 100644
--- a/src/pdfwriter.hpp
+++ b/src/pdfwriter.hpp
@@ -55,7 +55,7 @@ private:
                                           int32_t tounicode_obj,
                                           int32_t subset_id);
     rvoe<NoReturnValue> write_cid_dict(int32_t object_num,
-                                       CapyPDF_FontId fid,
+                                       int32_t font_index,
                                        int32_t font_descriptor_obj,
                                        int32_t subset_id);
     rvoe<NoReturnValue> write_pages_root();
-- 
2.43.0


From 72883442e96f831d6fe9caa9c6826e34e442dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 10/41] fix: look an optional content group up before recording
 its use

---
 src/drawcontext.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 1b1aaf5..bd7cd02 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -318,9 +318,10 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_StructureItemId sid,
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_OptionalContentGroupId ocgid) {
-    used_ocgs.insert(ocgid);
+    const auto ocg_object = doc->ocg_object_number(ocgid);
     ERCV(cmds.indent(DrawStateType::MarkedContent));
-    auto cmd = std::format("/OC /oc{} BDC\n", doc->ocg_object_number(ocgid));
+    used_ocgs.insert(ocgid);
+    auto cmd = std::format("/OC /oc{} BDC\n", ocg_object);
     cmds.append(cmd);
     RETOK;
 }
-- 
2.43.0


From 2cfae2f68dc845f223d4066e103eec6e145446e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 11/41] fix: separate boolean tokens from what follows

---
 src/objectformatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 1598f90..6c9f3b3 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -101,6 +101,7 @@ void ObjectFormatter::add_token(uint64_t number) {
 void ObjectFormatter::add_token(bool value) {
     check_indent();
     buf += value ? "true" : "false";
+    added_item();
 }
 
 void ObjectFormatter::add_token_with_slash(const char *name) {
-- 
2.43.0


From a0912204363c48ed7bc9c21174bce01107c761a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 12/41] fix: complete the tokens of AIS, OutputIntent, media
 clip and page label entries

---
 src/document.cpp  | 16 ++++++++--------
 src/pdfwriter.cpp |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index b550835..09e8c0d 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -27,12 +27,12 @@ const std::array<const char *, 3> colorspace_names{
     "/DeviceCMYK",
 };
 
-const std::array<const char, 5> page_label_types{
-    'D', // Decimal
-    'R', // Roman Upper
-    'r', // Roman Lower
-    'A', // Letter Upper
-    'a', // Letter Lower
+const std::array<const char *, 5> page_label_types{
+    "/D", // Decimal
+    "/R", // Roman Upper
+    "/r", // Roman Lower
+    "/A", // Letter Upper
+    "/a", // Letter Lower
 };
 
 const std::array<const char *, 21> spot_function_names{
@@ -1154,7 +1154,7 @@ void PdfDocument::create_output_intent() {
     const char *gts =
         std::holds_alternative<CapyPDF_PDFX_Type>(docprops.subtype) ? "/GTS_PDFX" : "/GTS_PDFA1";
     fmt.begin_dict();
-    fmt.add_token_pair("/Type", "OutputIntent");
+    fmt.add_token_pair("/Type", "/OutputIntent");
     fmt.add_token_pair("/S", gts);
     fmt.add_token("/OutputConditionIdentifier");
     fmt.add_token(utf8_to_pdfutf16be(docprops.intent_condition_identifier));
@@ -1732,7 +1732,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/ca", state.ca->v());
     }
     if(state.AIS) {
-        fmt.add_token_pair("/AIS {}", *state.AIS ? "true" : "false");
+        fmt.add_token_pair("/AIS", *state.AIS ? "true" : "false");
     }
     if(state.TK) {
         fmt.add_token_pair("/TK", *state.TK ? "true" : "false");
diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 942a4d4..db4c1de 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -1096,7 +1096,7 @@ rvoe<NoReturnValue> PdfWriter::write_annotation(int obj_num, const DelayedAnnota
                             fmt.add_token("/P");
                             {
                                 fmt.begin_dict();
-                                fmt.add_token_pair("/TF", "(TEMPALWAYS");
+                                fmt.add_token_pair("/TF", "(TEMPALWAYS)");
                                 fmt.end_dict();
                             }
                             fmt.end_dict();
-- 
2.43.0


From 52e508dad7ca1a859349ccd3827c2569e7baa52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 13/41] fix: never use the output file itself as the temporary
 file

---
 src/pdfwriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index db4c1de..b32172d 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -230,8 +230,9 @@ rvoe<NoReturnValue> PdfWriter::write_to_file(const char *ofilename) {
         RETERR(WritingTwice);
     }
     doc.write_attempted = true;
+    // Must never be the same as the output file name.
     std::filesystem::path tempfname(ofilename);
-    tempfname.replace_extension(".pdf~");
+    tempfname += "~";
     FILE *out_file = fopen(tempfname.string().c_str(), "wb");
     if(!out_file) {
         perror(nullptr);
-- 
2.43.0


From 9890c5af9d9acbe8ef722141d3cfb5526828b657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 14/41] fix: remove the temporary file when writing fails

---
 src/pdfwriter.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index b32172d..fae4a24 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -216,6 +216,25 @@ void serialize_viewports(ObjectFormatter &fmt, const std::vector<Viewport> &vps)
     fmt.end_array();
 }
 
+// Gets rid of the temporary file if writing it did not succeed.
+class TempFileRemover {
+public:
+    explicit TempFileRemover(const std::filesystem::path &path_) : path(path_) {}
+    TempFileRemover(const TempFileRemover &) = delete;
+    TempFileRemover &operator=(const TempFileRemover &) = delete;
+    ~TempFileRemover() {
+        if(armed) {
+            std::error_code ec;
+            std::filesystem::remove(path, ec);
+        }
+    }
+    void dismiss() { armed = false; }
+
+private:
+    const std::filesystem::path &path;
+    bool armed = true;
+};
+
 } // namespace
 
 PdfWriter::PdfWriter(PdfDocument &doc_) : doc(doc_) {
@@ -238,6 +257,7 @@ rvoe<NoReturnValue> PdfWriter::write_to_file(const char *ofilename) {
         perror(nullptr);
         RETERR(CouldNotOpenFile);
     }
+    TempFileRemover remover(tempfname);
     std::unique_ptr<FILE, int (*)(FILE *)> fcloser(out_file, fclose);
 
     ERCV(write_to_file(out_file));
@@ -270,6 +290,7 @@ rvoe<NoReturnValue> PdfWriter::write_to_file(const char *ofilename) {
         fprintf(stderr, "%s\n", ec.category().message(ec.value()).c_str());
         RETERR(FileWriteError);
     }
+    remover.dismiss();
     RETOK;
 }
 
-- 
2.43.0


From 0022069e01e416b685894295f0d55dc9617b2e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 15/41] fix: write the parent tree of the structure root as an
 indirect reference

---
 src/document.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 09e8c0d..e5c7e0a 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1269,7 +1269,8 @@ void PdfDocument::create_structure_root_dict() {
     fmt.begin_array();
     fmt.add_object_ref(structure_items[rootobj->id].obj_id);
     fmt.end_array();
-    fmt.add_token_pair("/ParentTree", structure_parent_tree_object.value());
+    fmt.add_token("/ParentTree");
+    fmt.add_object_ref(structure_parent_tree_object.value());
     fmt.add_token_pair("/ParentTreeNextKey", structure_parent_tree_items.size());
     if(!rolemap.empty()) {
         fmt.add_token("/RoleMap");
-- 
2.43.0


From b86ee25efada97e375307d15cc757e4d77698fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 16/41] fix: store the transition dimension in /Dm

---
 src/capi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 73ea80f..88fa8db 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1923,7 +1923,7 @@ capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim)
     API_BOUNDARY_START;
     CHECK_ENUM_ARG(dim, CAPY_TR_DIM_V);
     auto pt = static_cast<Transition *>(tr);
-    pt->Di = dim;
+    pt->Dm = dim;
     RETNOERR;
     API_BOUNDARY_END;
 }
-- 
2.43.0


From faeaa76d8e93156a68d25735375a9f12bbb2d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 17/41] fix: write the overprint mode for other operations
 under /op

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index e5c7e0a..830d434 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1690,7 +1690,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/OP", *state.OP ? "true" : "false");
     }
     if(state.op) {
-        fmt.add_token_pair("/op2", *state.op ? "true" : "false");
+        fmt.add_token_pair("/op", *state.op ? "true" : "false");
     }
     if(state.OPM) {
         fmt.add_token_pair("/OPM", *state.OPM);
-- 
2.43.0


From ae0787c89f56aa126c0d2aaf1af0f2b608d9c4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 18/41] fix: write the viewport rectangle under /BBox

---
 src/pdfwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index fae4a24..c98f7f2 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -191,7 +191,7 @@ void serialize_viewports(ObjectFormatter &fmt, const std::vector<Viewport> &vps)
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/Viewport");
         if(vp.bbox) {
-            fmt.write_rectangle("bbox", vp.bbox.value());
+            fmt.write_rectangle("BBox", vp.bbox.value());
         }
         if(!vp.name.empty()) {
             fmt.add_token("/Name");
-- 
2.43.0


From a02f4b2a42afa603b1f4a3f8b8a3eb941811be57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 19/41] fix: do not write an operator to the command stream
 before checking that it is allowed

---
 src/commandstreamformatter.cpp | 19 +++++++++++++++----
 src/commandstreamformatter.hpp |  6 ++++++
 src/drawcontext.cpp            | 14 ++++++++++----
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/commandstreamformatter.cpp b/src/commandstreamformatter.cpp
index 7f4ee11..fbf7634 100644
--- a/src/commandstreamformatter.cpp
+++ b/src/commandstreamformatter.cpp
@@ -67,8 +67,9 @@ void CommandStreamFormatter::append_dict_entry_string(const char *key, const cha
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::BT() {
+    ERCV(check_nesting(DrawStateType::Text));
     append("BT");
-    ERCV(indent(DrawStateType::Text));
+    push_state(DrawStateType::Text);
     RETOK;
 }
 
@@ -80,7 +81,7 @@ rvoe<NoReturnValue> CommandStreamFormatter::ET() {
 
 rvoe<NoReturnValue> CommandStreamFormatter::CommandStreamFormatter::q() {
     append("q");
-    ERCV(indent(DrawStateType::SaveState));
+    push_state(DrawStateType::SaveState);
     RETOK;
 }
 
@@ -91,8 +92,9 @@ rvoe<NoReturnValue> CommandStreamFormatter::Q() {
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::BMC() {
+    ERCV(check_nesting(DrawStateType::MarkedContent));
     append("BMC");
-    ERCV(indent(DrawStateType::MarkedContent));
+    push_state(DrawStateType::MarkedContent);
     RETOK;
 }
 
@@ -109,15 +111,24 @@ void CommandStreamFormatter::clear() {
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::indent(DrawStateType stype) {
+    ERCV(check_nesting(stype));
+    push_state(stype);
+    RETOK;
+}
+
+rvoe<NoReturnValue> CommandStreamFormatter::check_nesting(DrawStateType stype) {
     if(stype == DrawStateType::Text && has_state(stype)) {
         RETERR(DrawStateEndMismatch); // FIXME
     }
     if(stype == DrawStateType::MarkedContent && has_state(stype)) {
         RETERR(NestedBMC);
     }
+    RETOK;
+}
+
+void CommandStreamFormatter::push_state(DrawStateType stype) {
     stack.push_back(stype);
     lead += "  ";
-    RETOK;
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::dedent(DrawStateType stype) {
diff --git a/src/commandstreamformatter.hpp b/src/commandstreamformatter.hpp
index c1879a0..ce5eb33 100644
--- a/src/commandstreamformatter.hpp
+++ b/src/commandstreamformatter.hpp
@@ -58,6 +58,12 @@ public:
     rvoe<NoReturnValue> indent(DrawStateType stype);
     rvoe<NoReturnValue> dedent(DrawStateType stype);
 
+    // Fails if a state of the given type can not be opened at this point.
+    rvoe<NoReturnValue> check_nesting(DrawStateType stype);
+
+    // As indent, but for a state that is known to be allowed here.
+    void push_state(DrawStateType stype);
+
     size_t size() const { return buf.size(); }
 
     size_t marked_content_depth() const;
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index bd7cd02..5706be2 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -285,13 +285,19 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(std::string_view name,
         fprintf(stderr, "%s", "Must specify sid or attributes. Otherwise use BMC.\n");
         std::abort();
     }
+    // Do everything that can fail before writing to the command stream.
+    ERCV(cmds.check_nesting(DrawStateType::MarkedContent));
+    std::optional<int32_t> mcid;
+    if(sid) {
+        ERC(MCID_id, add_bcd_structure(sid.value()));
+        mcid = MCID_id;
+    }
     cmds.append_indent();
     cmds.append_raw(bytes2pdfstringliteral(name));
     cmds.append_raw(" <<\n");
     ERCV(cmds.indent(DrawStateType::Dictionary));
-    if(sid) {
-        ERC(MCID_id, add_bcd_structure(sid.value()));
-        cmds.append_dict_entry("/MCID", MCID_id);
+    if(mcid) {
+        cmds.append_dict_entry("/MCID", mcid.value());
     }
     if(attributes) {
         for(const auto &[key, value] : *attributes) {
@@ -301,7 +307,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(std::string_view name,
     cmds.append(">>");
     ERCV(cmds.dedent(DrawStateType::Dictionary));
     cmds.append("BDC");
-    ERCV(cmds.indent(DrawStateType::MarkedContent));
+    cmds.push_state(DrawStateType::MarkedContent);
     RETOK;
 }
 
-- 
2.43.0


From 12e8906287e961edfa3362aa03d164b993db2633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 20/41] fix: always open the array of a TJ operator

---
 src/drawcontext.cpp | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 5706be2..cb2d1d6 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -800,23 +800,16 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
                                                            CommandStreamFormatter &serialisation,
                                                            CapyPDF_FontId &current_font) {
     CHECK_INDEXNESS(current_font.id, doc->font_objects);
-    bool is_first = true;
-    auto glyph_appender_lambda =
-        [this, &serialisation, &is_first](const SubsetGlyph &current_subset_glyph) {
-            used_external_fonts.insert(current_subset_glyph.ss);
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
-            auto glyphid = std::format("<{:04x}> ", current_subset_glyph.glyph_id);
-            serialisation.append_raw(glyphid);
-        };
+    auto glyph_appender_lambda = [this,
+                                  &serialisation](const SubsetGlyph &current_subset_glyph) {
+        used_external_fonts.insert(current_subset_glyph.ss);
+        auto glyphid = std::format("<{:04x}> ", current_subset_glyph.glyph_id);
+        serialisation.append_raw(glyphid);
+    };
+    serialisation.append_indent();
+    serialisation.append_raw("[ ");
     for(const auto &e : charseq) {
         if(auto kval = std::get_if<KerningValue>(&e)) {
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
             auto v = std::format("{} ", kval->v);
             serialisation.append_raw(v);
         } else if(auto uglyph = std::get_if<UnicodeCharacter>(&e)) {
@@ -829,10 +822,6 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             }
             ERC(subset, doc->get_subset_glyph(current_font, *u8str->begin(), {}));
             used_external_fonts.insert(subset.ss);
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
             serialisation.append_raw("<");
             for(const auto codepoint : *u8str) {
                 ERC(current_subset_glyph, doc->get_subset_glyph(current_font, codepoint, {}));
@@ -863,7 +852,6 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             fprintf(stderr, "Not implemented yet.\n");
             std::abort();
         }
-        is_first = false;
     }
     serialisation.append_raw("] TJ\n");
     RETOK;
-- 
2.43.0


From 9d865bd69b946b90dab407a1826b988140140211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 21/41] fix: do not truncate glyph ids in render_glyphs

---
 src/drawcontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index cb2d1d6..2f0fbf6 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1162,7 +1162,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_glyphs(const std::vector<PdfGlyph> &g
         prev_y = g.y;
         cmd.clear();
         std::format_to(
-            std::back_inserter(cmd), "<{:04x}>", (unsigned char)current_subset_glyph.glyph_id);
+            std::back_inserter(cmd), "<{:04x}>", current_subset_glyph.glyph_id);
         cmds.append_command(cmd, "Tj");
     }
     ERCV(cmds.dedent(DrawStateType::Text));
-- 
2.43.0


From 6fa44a3bc5f856c143713d25f8faea998e601492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 22/41] fix: clear used form xobjects and structures when a
 draw context is reused

---
 src/drawcontext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 2f0fbf6..7defd60 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -121,6 +121,8 @@ rvoe<DCSerialization> PdfDrawContext::serialize() {
 
 void PdfDrawContext::clear() {
     used_images.clear();
+    used_form_xobjects.clear();
+    used_structures.clear();
     used_external_fonts.clear();
     used_builtin_fonts.clear();
     used_colorspaces.clear();
-- 
2.43.0


From 41fed4d01aa6dbc77f9740f3dce236db391ce443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 23/41] fix: clear the draw context after adding a pattern or
 transparency group

---
 src/document.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 830d434..afc58d4 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2052,6 +2052,7 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
     auto &d = std::get<SerializedXObject>(sc_var);
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
+    ctx.clear();
     return CapyPDF_PatternId{objid};
 }
 
@@ -2195,6 +2196,7 @@ rvoe<CapyPDF_TransparencyGroupId> PdfDocument::add_transparency_group(PdfDrawCon
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
     transparency_groups.push_back(objid);
+    ctx.clear();
     return CapyPDF_TransparencyGroupId{(int32_t)transparency_groups.size() - 1};
 }
 
-- 
2.43.0


From 140e03c9d062824d74a40882b7800f6d48dadf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 24/41] fix: reject form xobjects and transparency groups of
 another document

---
 src/document.cpp  | 3 +++
 src/generator.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index afc58d4..d0394c0 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2185,6 +2185,9 @@ PdfDocument::add_optional_content_group(const OptionalContentGroup &g) {
 }
 
 rvoe<CapyPDF_TransparencyGroupId> PdfDocument::add_transparency_group(PdfDrawContext &ctx) {
+    if(&ctx.get_doc() != this) {
+        RETERR(IncorrectDocumentForObject);
+    }
     if(ctx.draw_context_type() != CAPY_DC_TRANSPARENCY_GROUP) {
         RETERR(InvalidDrawContextType);
     }
diff --git a/src/generator.cpp b/src/generator.cpp
index f2baf49..5f5abba 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -117,6 +117,9 @@ rvoe<NoReturnValue> PdfGen::add_page_labeling(uint32_t start_page,
 }
 
 rvoe<CapyPDF_FormXObjectId> PdfGen::add_form_xobject(PdfDrawContext &ctx) {
+    if(&ctx.get_doc() != &pdoc) {
+        RETERR(IncorrectDocumentForObject);
+    }
     if(ctx.draw_context_type() != CAPY_DC_FORM_XOBJECT) {
         RETERR(InvalidDrawContextType);
     }
-- 
2.43.0


From f584b7efae5781e115d1e7d6abf7229c7a96deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 25/41] fix: write the right subtype of collection fields

---
 src/document.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index d0394c0..1d826d3 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -150,7 +150,10 @@ const std::array<const char *, 3> blackpt_names{
     "/DEFAULT",
 };
 
-const std::array<const char *, 6> collection_view_subtype_names{
+const std::array<const char *, 9> collection_view_subtype_names{
+    "/S",
+    "/D",
+    "/N",
     "/F",
     "/Desc",
     "/ModDate",
-- 
2.43.0


From 63930bd25c5c04d3ea07cc6ef85432baba7a59b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 26/41] fix: the standard bold Times font is called Times-Bold

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 1d826d3..29c2ebd 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -95,7 +95,7 @@ const std::array<const char *, 14> font_names{
     "/Helvetica",
     "/Courier",
     "/Symbol",
-    "/Times-Roman-Bold",
+    "/Times-Bold",
     "/Helvetica-Bold",
     "/Courier-Bold",
     "/ZapfDingbats",
-- 
2.43.0


From 2cf4fd27c3ce401e6677ce28dbd028a3a2604fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 27/41] fix: identify PDF/A-4f and PDF/A-4e with revision and
 conformance

---
 src/document.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 29c2ebd..233fe9e 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1321,17 +1321,16 @@ int32_t PdfDocument::add_document_metadata_object() {
         xfmt.add_content(pdfa_part.at(*aptr));
         xfmt.close_tag();
 
-        if(*aptr == CAPY_PDFA_4f) {
+        if(*aptr >= CAPY_PDFA_4f) {
             xfmt.start_tag("pdfaid:rev");
             xfmt.finish_tag();
             xfmt.add_content("2020");
             xfmt.close_tag();
-        } else {
-            xfmt.start_tag("pdfaid:conformance");
-            xfmt.finish_tag();
-            xfmt.add_content(pdfa_conformance.at(*aptr));
-            xfmt.close_tag();
         }
+        xfmt.start_tag("pdfaid:conformance");
+        xfmt.finish_tag();
+        xfmt.add_content(pdfa_conformance.at(*aptr));
+        xfmt.close_tag();
         xfmt.close_tag();
 
         xfmt.start_tag("rdf:Description");
-- 
2.43.0


From c9fa5bda0419ebfd5045b8c3b869dbd5c219e647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 28/41] fix: spell inverted spot functions and default black
 point compensation as PDF does

---
 src/document.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 233fe9e..82b56d6 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -37,22 +37,22 @@ const std::array<const char *, 5> page_label_types{
 
 const std::array<const char *, 21> spot_function_names{
     "/SimpleDot",
-    "/Inverted_SimpleDot",
+    "/InvertedSimpleDot",
     "/DoubleDot",
-    "/Inverted_DoubleDot",
+    "/InvertedDoubleDot",
     "/CosineDot",
     "/Double",
-    "/Inverted_Double",
+    "/InvertedDouble",
     "/Line",
     "/LineX",
     "/LineY",
     "/Round",
     "/Ellipse",
     "/EllipseA",
-    "/Inverted_EllipseA",
+    "/InvertedEllipseA",
     "/EllipseB",
     "/EllipseC",
-    "/Inverted_EllipseC",
+    "/InvertedEllipseC",
     "/Square",
     "/Cross",
     "/Rhomboid",
@@ -147,7 +147,7 @@ const std::array<const char *, 6> page_mode_names{
 const std::array<const char *, 3> blackpt_names{
     "/OFF",
     "/ON",
-    "/DEFAULT",
+    "/Default",
 };
 
 const std::array<const char *, 9> collection_view_subtype_names{
-- 
2.43.0


From 59b1637a1570077bb23e187adee7a1a64d7d9042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 29/41] fix: give Python enumeration members the numbers of the
 C ones

---
 python/capypdf.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index faf7094..a509603 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -22,7 +22,7 @@ class LineAnnotationEndStyle(Enum):
     Circle = 1
     Diamond = 2
     OpenArrow = 3
-    ClosedArrow = 4,
+    ClosedArrow = 4
     NoEnding = 5 # Because "None" is a Python keyword
     Butt = 6
     ROpenAreow = 7
@@ -75,12 +75,12 @@ class TransitionType(Enum):
     Uncover = 10
     Fade = 11
 
-class TransitionDimension:
-    H = 0,
+class TransitionDimension(Enum):
+    H = 0
     V = 1
 
-class TransitionMotion:
-    I = 0,
+class TransitionMotion(Enum):
+    I = 0
     O = 1
 
 class PageBox(Enum):
@@ -178,8 +178,8 @@ class StructureType(Enum):
     Document = 0
     DocumentFragment = 1
 
-    Part = 2,
-    Sect = 3,
+    Part = 2
+    Sect = 3
     Div = 4
     Aside = 5
     Nonstruct = 6
-- 
2.43.0


From c17a5516766c806cd733a93ddbc605d9fd6409b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 30/41] fix: pass transition properties on in the Python
 bindings

---
 python/capypdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index a509603..db39b92 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1575,10 +1575,10 @@ class Transition:
         check_error(libfile.capy_transition_set_D(self, d))
 
     def set_Dn(self, dm):
-        check_error(libfile.capy_transition_set_Dm(self, Dm.value))
+        check_error(libfile.capy_transition_set_Dm(self, dm.value))
 
     def set_M(self, m):
-        check_error(libfile.capy_transition_set_M(self, M.value))
+        check_error(libfile.capy_transition_set_M(self, m.value))
 
     def set_Di(self, Di):
         check_error(libfile.capy_transition_set_Di(self, Di))
@@ -1587,7 +1587,7 @@ class Transition:
         check_error(libfile.capy_transition_set_SS(self, ss))
 
     def set_B(self, B):
-        check_error(libfile.capy_transition_set_S(self, int(B)))
+        check_error(libfile.capy_transition_set_B(self, int(B)))
 
     def __del__(self):
         check_error(libfile.capy_transition_destroy(self))
-- 
2.43.0


From 442cd11170ae03e0f224f7338afefa36c675b231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 31/41] fix: undefined names in the Python bindings

---
 python/capypdf.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index db39b92..535c315 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -832,7 +832,7 @@ class DocumentProperties:
         check_error(libfile.capy_document_properties_set_page_layout(self, layout.value))
 
     def set_page_mode(self, model):
-        if not isinstance(layout, PageMode):
+        if not isinstance(model, PageMode):
             raise CapyPDFException('Argument must be a PageMode enum.')
         check_error(libfile.capy_document_properties_set_page_mode(self, model.value))
 
@@ -2001,7 +2001,7 @@ class ImagePdfProperties:
     def set_interpolate(self, ival):
         if not isinstance(ival, ImageInterpolation):
             raise CapyPDFException('Argument must be image interpolation enum.')
-        check_error(libfile.capy_image_lpdf_properties_set_interpolate(self, ival.value))
+        check_error(libfile.capy_image_pdf_properties_set_interpolate(self, ival.value))
 
 
 class Destination:
@@ -2086,7 +2086,7 @@ class EmbeddedFile:
     def set_contents(self, contents):
         if not isinstance(contents, bytes):
             raise CapyPDFException('Contents must be raw bytes.')
-        check_error(libfile.capy_embedded_file_set_contents(ctypes.pointer(o), contents, len(contents)))
+        check_error(libfile.capy_embedded_file_set_contents(self, contents, len(contents)))
 
     def set_subtype(self, subtype):
         sbytes = subtype.encode('UTF-8')
@@ -2161,7 +2161,7 @@ class FormField:
     def set_parent(self, parent_field):
         if not isinstance(parent_field, FormFieldId):
             raise CapyPDFException('Argument must be a FormFieldId.')
-        check_error(libfile.capy_form_field_set_parent(self, parent_field.value))
+        check_error(libfile.capy_form_field_set_parent(self, parent_field))
 
     def set_Ff(self, Ff):
         if not isinstance(Ff, FormFieldFlags):
@@ -2194,10 +2194,10 @@ class Collection:
         check_error(libfile.capy_collection_destroy(self))
 
     def set_D(self, text):
-        if isinstance(V, bytes):
-            vbytes = V
+        if isinstance(text, bytes):
+            vbytes = text
         else:
-            vbytes = V.encode('UTF-8')
+            vbytes = text.encode('UTF-8')
         check_error(libfile.capy_collection_set_D(self, vbytes, len(vbytes)))
 
     def set_view(self, view):
-- 
2.43.0


From e2ad15267b1e8182e7ef479c5ac7429572eea09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 32/41] fix: do not pass arguments the C functions do not have

---
 python/capypdf.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 535c315..49b2fc5 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -495,7 +495,7 @@ cfunc_types = (
 ('capy_text_sequence_destroy', [ctypes.c_void_p]),
 
 ('capy_text_destroy', [ctypes.c_void_p]),
-('capy_text_cmd_BDC_builtin', [ctypes.c_void_p, StructureItemId, ctypes.c_void_p]),
+('capy_text_cmd_BDC_builtin', [ctypes.c_void_p, StructureItemId]),
 ('capy_text_cmd_EMC', [ctypes.c_void_p]),
 ('capy_text_cmd_Tc', [ctypes.c_void_p, ctypes.c_double]),
 ('capy_text_cmd_Td', [ctypes.c_void_p, ctypes.c_double, ctypes.c_double]),
@@ -1482,8 +1482,7 @@ class Text:
         check_error(libfile.capy_text_set_stroke(self, color))
 
     def cmd_BDC_builtin(self, struct_id):
-        tags = None # FIXME
-        check_error(libfile.capy_text_cmd_BDC_builtin(self, struct_id, tags))
+        check_error(libfile.capy_text_cmd_BDC_builtin(self, struct_id))
         return MarkedContextManager(self)
 
     def cmd_EMC(self):
@@ -2126,8 +2125,8 @@ class Halftone:
         check_error(libfile.capy_halftone_new(ctypes.pointer(o)))
         self._as_parameter_ = o
 
-    def set_default(self, subfont):
-        check_error(libfile.capy_halftone_set_default(self, subfont))
+    def set_default(self):
+        check_error(libfile.capy_halftone_set_default(self))
 
     def set_type1(self, frequency, angle, spotfunction):
         if not isinstance(spotfunction, HalftoneSpotFunction):
-- 
2.43.0


From 764e1d69e5bccc65f9a862960182dd798d560ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 33/41] fix: raster images can not be created empty

---
 python/capypdf.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 49b2fc5..b2e4608 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1593,14 +1593,8 @@ class Transition:
 
 
 class RasterImage:
-    def __init__(self, cptr = None):
-        if cptr is None:
-            self._as_parameter_ = None
-            opt = ctypes.c_void_p()
-            check_error(libfile.capy_raster_image_new(ctypes.pointer(opt)))
-            self._as_parameter_ = opt
-        else:
-            self._as_parameter_ = cptr
+    def __init__(self, cptr):
+        self._as_parameter_ = cptr
 
     def __del__(self):
         check_error(libfile.capy_raster_image_destroy(self))
-- 
2.43.0


From fea33f37232f1d88d456a0385220cd609dcef27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 34/41] fix: C++ wrapper: check add_separation, accept flag 3,
 call data()

---
 include/capypdf.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/capypdf.hpp b/include/capypdf.hpp
index f132d6b..d9d5fc2 100644
--- a/include/capypdf.hpp
+++ b/include/capypdf.hpp
@@ -272,7 +272,7 @@ public:
         CAPY_CPP_CHECK(capy_document_properties_set_output_intent(*this, identifier, strsize));
     }
     template<ByteSequence T> void set_output_intent(const T &buf) {
-        set_output_intent(buf.data, buf.size());
+        set_output_intent(buf.data(), buf.size());
     }
 
     void set_pdfx(CapyPDF_PDFX_Type xtype) {
@@ -642,7 +642,7 @@ public:
     }
     void
     extend(uint32_t flag, double *coords, uint32_t num_coords, Color *colors, uint32_t num_colors) {
-        if(flag != 1 and flag != 2) {
+        if(flag != 1 and flag != 2 and flag != 3) {
             CAPY_ERROR_HAPPENED("Bad flag value");
         }
         if(num_coords != 16) {
@@ -1123,7 +1123,7 @@ public:
                                         CapyPDF_Device_Colorspace cs,
                                         CapyPDF_FunctionId fid) {
         CapyPDF_SeparationId id;
-        capy_generator_add_separation(*this, name, name_size, cs, fid, &id);
+        CAPY_CPP_CHECK(capy_generator_add_separation(*this, name, name_size, cs, fid, &id));
         return id;
     }
 
-- 
2.43.0


From d28ea5782cd35fc2cef99291f009856a463d8f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 35/41] fix: refuse unsupported text colours, empty BDC and
 repeated navigation instead of aborting

---
 src/drawcontext.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 7defd60..ed97486 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -285,7 +285,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(std::string_view name,
                                             const BDCTags *attributes) {
     if(!sid && !attributes) {
         fprintf(stderr, "%s", "Must specify sid or attributes. Otherwise use BMC.\n");
-        std::abort();
+        RETERR(ArgIsNull);
     }
     // Do everything that can fail before writing to the command stream.
     ERCV(cmds.check_nesting(DrawStateType::MarkedContent));
@@ -1011,8 +1011,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
                 auto cmd = std::format("/Pattern-{} SCN\n", id->id);
                 cmds.append(cmd);
             } else {
-                printf("Given text stroke colorspace not supported yet.\n");
-                std::abort();
+                ERCV(set_color(sarg.c, true));
             }
             RETOK;
         },
@@ -1044,8 +1043,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
                 auto cmd = std::format("/Pattern-{} scn\n", id->id);
                 cmds.append(cmd);
             } else {
-                printf("Given text nonstroke colorspace not supported yet.\n");
-                std::abort();
+                ERCV(set_color(nsarg.c, false));
             }
             RETOK;
         },
@@ -1223,7 +1221,8 @@ PdfDrawContext::add_simple_navigation(std::span<const CapyPDF_OptionalContentGro
         RETERR(InvalidDrawContextType);
     }
     if(!sub_navigations.empty()) {
-        std::abort();
+        // A page has only one navigation sequence.
+        RETERR(StructureReuse);
     }
     for(const auto &sn : navs) {
         if(used_ocgs.find(sn) == used_ocgs.end()) {
-- 
2.43.0


From 8df283d5bb2b32552a3d4d306645799710975e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 36/41] fix: write continuation patches, refuse other
 unsupported values instead of aborting

Shadings and type 2 functions with colours that have no device colour space,
patch extensions, unknown form field types and output colour spaces and the
conversion of images without size or pixels ended the process.
---
 src/capi.cpp           |  4 +++-
 src/colorconverter.cpp |  9 +++++++--
 src/document.cpp       | 37 ++++++++++++++++++++++---------------
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 88fa8db..9d61277 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -641,6 +641,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_convert_image(CapyPDF_Generator *gen,
                                                        CapyPDF_RasterImage **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(output_cs, CAPY_DEVICE_CS_CMYK);
     CHECK_ENUM_ARG(ri, CAPY_RI_PERCEPTUAL);
     auto *g = static_cast<PdfGen *>(gen);
     if(auto *raw = std::get_if<RawPixelImage>(&source->ri)) {
@@ -2571,6 +2572,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_extend(CapyPDF_Shading *shade,
             return conv_err(ErrorCode::BadStripStart);
         }
         ContinuationCoonsPatch ccp;
+        ccp.flag = flag;
         grab_coons_data(ccp, coords, colors);
         sh6->elements.emplace_back(std::move(ccp));
     } else {
@@ -3302,7 +3304,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_form_field_new(CapyPDF_Form_Field_Type type,
         *out_ptr = new FormField{{}, {}, {}, {}, {}, TextField{}};
         break;
     default:
-        std::abort();
+        return conv_err(ErrorCode::BadEnum);
     }
     RETNOERR;
     API_BOUNDARY_END;
diff --git a/src/colorconverter.cpp b/src/colorconverter.cpp
index 8a967e6..c491b24 100644
--- a/src/colorconverter.cpp
+++ b/src/colorconverter.cpp
@@ -239,9 +239,14 @@ rvoe<RawPixelImage> PdfColorConverter::convert_image_to(RawPixelImage ri,
     cmsHPROFILE input_profile;
     const uint32_t input_pixelformat = pixelformat_for(ri.md.cs);
     const uint32_t output_pixelformat = pixelformat_for(output_format);
-    assert(ri.md.w > 0);
-    assert(ri.md.h > 0);
+    if(ri.md.w < 1 || ri.md.h < 1) {
+        RETERR(InvalidImageSize);
+    }
     const uint64_t num_pixels = ((uint64_t)ri.md.w) * ri.md.h;
+    // Size of an input pixel in bytes is its number of channels, as every channel has 8 bits.
+    if(ri.pixels.size() / T_CHANNELS(input_pixelformat) < num_pixels) {
+        RETERR(MissingPixels);
+    }
     LcmsHolder icc_holder;
     if(ri.icc_profile.empty()) {
         input_profile = profile_for(ri.md.cs);
diff --git a/src/document.cpp b/src/document.cpp
index 82b56d6..7e41306 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -211,8 +211,7 @@ rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
             ERCV(append_floatvalue<uint16_t>(s, cmyk->y.v()));
             ERCV(append_floatvalue<uint16_t>(s, cmyk->k.v()));
         } else {
-            fprintf(stderr, "Color space not supported yet.");
-            std::abort();
+            RETERR(ColorspaceMismatch);
         }
     }
     return rvoe<std::string>{std::move(s)};
@@ -221,18 +220,25 @@ rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
 rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
     std::string s;
     for(const auto &eh : shade.elements) {
-        if(!std::holds_alternative<FullCoonsPatch>(eh)) {
-            fprintf(stderr, "Continuation patches not yet supported.\n");
-            std::abort();
+        // A continuation patch gets its first four points and two colors from the previous patch.
+        char flag = 0;
+        std::span<const Point> points;
+        std::span<const Color> colors;
+        if(const auto *cont = std::get_if<ContinuationCoonsPatch>(&eh)) {
+            flag = (char)cont->flag;
+            points = cont->p;
+            colors = cont->c;
+        } else {
+            const auto &full = std::get<FullCoonsPatch>(eh);
+            points = full.p;
+            colors = full.c;
         }
-        const auto &e = std::get<FullCoonsPatch>(eh);
-        char flag = 0; //(char)e.flag;
-        assert(flag >= 0 && flag < 3);
+        assert(flag >= 0 && flag < 4);
         const char *ptr;
         ptr = (const char *)(&flag);
         s.append(ptr, ptr + sizeof(char));
 
-        for(const auto &p : e.p) {
+        for(const auto &p : points) {
             const double xratio =
                 std::clamp((p.x - shade.minx) / (shade.maxx - shade.minx), 0.0, 1.0);
             const double yratio =
@@ -241,7 +247,7 @@ rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
             ERCV(append_floatvalue<uint32_t>(s, xratio));
             ERCV(append_floatvalue<uint32_t>(s, yratio));
         }
-        for(const auto &colorobj : e.c) {
+        for(const auto &colorobj : colors) {
             if(shade.colorspace == CAPY_DEVICE_CS_RGB) {
                 if(!std::holds_alternative<DeviceRGBColor>(colorobj)) {
                     RETERR(ColorspaceMismatch);
@@ -286,7 +292,7 @@ int32_t num_channels_for(const CapyPDF_Image_Colorspace cs) {
     std::abort();
 }
 
-void color2numbers(ObjectFormatter &fmt, const Color &c) {
+rvoe<NoReturnValue> color2numbers(ObjectFormatter &fmt, const Color &c) {
     if(auto *rgb = std::get_if<DeviceRGBColor>(&c)) {
         fmt.add_token(rgb->r.v());
         fmt.add_token(rgb->g.v());
@@ -299,9 +305,10 @@ void color2numbers(ObjectFormatter &fmt, const Color &c) {
         fmt.add_token(cmyk->y.v());
         fmt.add_token(cmyk->k.v());
     } else {
-        fprintf(stderr, "Colorspace not supported yet.\n");
-        std::abort();
+        // Only device colors have color values that can be interpolated.
+        RETERR(ColorspaceMismatch);
     }
+    RETOK;
 }
 
 template<typename T1, typename T2> static void append_value_or_null(T1 &fmt, const T2 &val) {
@@ -1767,11 +1774,11 @@ rvoe<int32_t> PdfDocument::serialize_function(const FunctionType2 &func) {
 
     fmt.add_token("/C0");
     fmt.begin_array();
-    color2numbers(fmt, func.C0);
+    ERCV(color2numbers(fmt, func.C0));
     fmt.end_array();
     fmt.add_token("/C1");
     fmt.begin_array();
-    color2numbers(fmt, func.C1);
+    ERCV(color2numbers(fmt, func.C1));
     fmt.end_array();
     fmt.end_dict();
 
-- 
2.43.0


From ddf656fc82924e4eb71a4cc28ce1a08a0b01c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 37/41] fix: report malformed fonts and images and glyph
 overflow instead of aborting

---
 src/cffsubsetter.cpp  | 22 ++++++++++++++++------
 src/fontsubsetter.cpp |  3 +--
 src/ft_subsetter.cpp  | 27 ++++++++++++++++-----------
 src/generator.cpp     |  4 +++-
 src/imagefileops.cpp  |  4 +++-
 5 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 1a73d5c..5c0f5c2 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -202,7 +202,7 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
                 } while((b1 & 0xf) != 0xf);
                 unpacked_operand = -1; // FIXME
             } else {
-                std::abort();
+                RETERR(MalformedFontFile);
             }
             operands.push_back(unpacked_operand);
         }
@@ -261,13 +261,18 @@ rvoe<std::vector<CFFSelectRange3>> unpack_fdselect(std::span<std::byte> dataspan
                                                    uint32_t num_glyphs) {
     std::vector<CFFSelectRange3> ranges;
     size_t offset = 0;
+    if(dataspan.empty()) {
+        RETERR(MalformedFontFile);
+    }
     const uint8_t format = (uint8_t)dataspan[offset++];
     if(format == 0) {
-        std::vector<std::byte> selector_array{dataspan.begin() + offset,
-                                              dataspan.begin() + offset + num_glyphs};
-        // FIXME. OR maybe not. This seems to be used in generated
-        // subset fonts only.
-        return ranges;
+        if(dataspan.size() - offset < num_glyphs) {
+            RETERR(MalformedFontFile);
+        }
+        ranges.reserve(num_glyphs);
+        for(uint32_t i = 0; i < num_glyphs; ++i) {
+            ranges.emplace_back((uint16_t)i, (uint8_t)dataspan[offset + i]);
+        }
     } else if(format == 3) {
         ERC(nRg, extract_and_swap<uint16_t>(dataspan, offset));
         const uint32_t nRanges = nRg;
@@ -283,6 +288,11 @@ rvoe<std::vector<CFFSelectRange3>> unpack_fdselect(std::span<std::byte> dataspan
         if(sentinel != num_glyphs) {
             RETERR(MalformedFontFile);
         }
+    } else {
+        RETERR(MalformedFontFile);
+    }
+    if(ranges.empty() || ranges.front().first != 0) {
+        RETERR(MalformedFontFile);
     }
     return ranges;
 }
diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 183aecc..8b03e02 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -154,8 +154,7 @@ rvoe<NoReturnValue> FontSubsetter::handle_subglyphs(uint32_t glyph_index) {
     if(iscomp) {
         ERC(subglyphs, get_all_subglyphs(glyph_index, ttfile));
         if(subglyphs.size() + subset.glyphs.size() >= max_glyphs) {
-            fprintf(stderr, "Composite glyph overflow not yet implemented.");
-            std::abort();
+            RETERR(TooManyGlyphsUsed);
         }
         for(const auto &new_glyph : subglyphs) {
             if(subset.font_index_mapping.find(new_glyph) != subset.font_index_mapping.end()) {
diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 02645f6..ec7f8c1 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -425,7 +425,9 @@ rvoe<TTHead> load_head(const std::vector<TTDirEntry> &dir, std::span<const std::
     ERC(head, extract<TTHead>(buf, e->offset));
     head.swap_endian();
 #ifndef CAPYFUZZING
-    assert(head.magic == 0x5f0f3cf5);
+    if(head.magic != 0x5f0f3cf5) {
+        RETERR(MalformedFontFile);
+    }
 #endif
     return head;
 }
@@ -542,7 +544,9 @@ rvoe<CFFont> load_CFF_glyphs(uint32_t offset, std::span<std::byte> buf, uint16_t
     auto cff_span = buf.subspan(offset);
     auto cff = parse_cff_data(cff_span);
     if(cff.has_value()) {
-        assert(cff->char_strings.size() == num_glyphs);
+        if(cff->char_strings.size() != num_glyphs) {
+            RETERR(MalformedFontFile);
+        }
     }
     return cff;
 }
@@ -671,11 +675,13 @@ subset_glyphs(const TrueTypeFontFile &source,
     return subset;
 }
 
-TTHmtx subset_hmtx(const TrueTypeFontFile &source, const std::vector<TTGlyphs> &glyphs) {
+rvoe<TTHmtx> subset_hmtx(const TrueTypeFontFile &source, const std::vector<TTGlyphs> &glyphs) {
     TTHmtx subset;
-    assert(source.hmtx.longhor.size() + source.hmtx.left_side_bearings.size() ==
-           source.maxp.num_glyphs());
-    assert(!source.hmtx.longhor.empty());
+    if(source.hmtx.longhor.empty() ||
+       source.hmtx.longhor.size() + source.hmtx.left_side_bearings.size() !=
+           source.maxp.num_glyphs()) {
+        RETERR(MalformedFontFile);
+    }
     for(const auto &g : glyphs) {
         const auto gid = font_id_for_glyph(g);
         if(gid < source.hmtx.longhor.size()) {
@@ -687,8 +693,7 @@ TTHmtx subset_hmtx(const TrueTypeFontFile &source, const std::vector<TTGlyphs> &
                     TTLongHorMetric{uint16_t(source.hmtx.longhor.back().advance_width),
                                     int16_t(source.hmtx.left_side_bearings[sidebear_index])});
             } else {
-                fprintf(stderr, "Malformed font file?\n");
-                std::abort();
+                RETERR(MalformedFontFile);
             }
         }
     }
@@ -965,7 +970,8 @@ generate_truetype_font(const TrueTypeFontFile &source,
     dest.hhea = source.hhea;
     dest.maxp = source.maxp;
     dest.maxp.set_num_glyphs(subglyphs.size());
-    dest.hmtx = subset_hmtx(source, glyphs);
+    ERC(subset_metrics, subset_hmtx(source, glyphs));
+    dest.hmtx = std::move(subset_metrics);
     dest.hhea.num_hmetrics = dest.hmtx.longhor.size();
     dest.head.index_to_loc_format = 1;
     dest.cvt = source.cvt;
@@ -1091,8 +1097,7 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
         }
         auto it = mapping.find(glyph_index);
         if(it == mapping.end()) {
-            fprintf(stderr, "FAILfailFAIL\n");
-            std::abort();
+            RETERR(MissingGlyph);
         }
         glyph_index = it->second;
         byte_swap_inplace(glyph_index);
diff --git a/src/generator.cpp b/src/generator.cpp
index 5f5abba..cb1fdc8 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -195,7 +195,9 @@ PdfGen::utf8_text_width(const u8string &txt, CapyPDF_FontId fid, double pointsiz
             }
         }
         auto bob = glyph_advance(fid, pointsize, codepoint);
-        assert(bob);
+        if(!bob) {
+            RETERR(FreeTypeError);
+        }
         w += *bob;
         previous_codepoint = codepoint;
     }
diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index e983ffb..542727b 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -160,7 +160,9 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
             current_byte <<= 1;
             current_mask_byte <<= 1;
             auto input_value = current_row[i];
-            assert(input_value < palette.size()); // Span has .at only at c++26.
+            if(input_value >= palette.size()) { // Span has .at only at c++26.
+                RETERR(IndexOutOfBounds);
+            }
             bool is_white_p = is_white(palette[input_value]);
             bool is_trans_p = span_contains(alpha, current_row[i]);
             if(!is_white_p) {
-- 
2.43.0


From 39f66a69a59a4c062efab1efbeb5c5022eaf1b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:07 +0000
Subject: [PATCH 38/41] fix: write dash phases and builtin font sizes in fixed
 notation

---
 src/drawcontext.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index ed97486..9e4c4e1 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -384,7 +384,7 @@ PdfDrawContext::cmd_d(const double *dash_array, size_t dash_array_length, double
     for(size_t i = 0; i < dash_array_length; ++i) {
         std::format_to(app, "{:f} ", dash_array[i]);
     }
-    std::format_to(app, "] {} d\n", phase);
+    std::format_to(app, "] {:f} d\n", phase);
     cmds.append(cmd);
     RETOK;
 }
@@ -1079,7 +1079,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             for(auto val : dash.array) {
                 std::format_to(std::back_inserter(cmd), "{:f} ", val);
             }
-            std::format_to(std::back_inserter(cmd), " ] {} d\n", dash.phase);
+            std::format_to(std::back_inserter(cmd), " ] {:f} d\n", dash.phase);
             cmds.append(cmd);
             RETOK;
         },
@@ -1184,7 +1184,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_pdfdoc_text_builtin(const char *pdfdo
     ERCV(cmds.indent(DrawStateType::Text));
     std::string cmd;
     auto app = std::back_inserter(cmd);
-    std::format_to(app, "/Font{} {} Tf", font_object, pointsize);
+    std::format_to(app, "/Font{} {:f} Tf", font_object, pointsize);
     cmds.append(cmd);
     cmd.clear();
     cmds.append_command(x, y, "Td");
-- 
2.43.0


From 9cb6566c6dc4da60e4142064bb125e79cc11d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:23 +0000
Subject: [PATCH 39/41] fix: release FreeType variation and table data on error
 returns

---
 src/document.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 7e41306..f42d0d7 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -355,6 +355,7 @@ rvoe<NoReturnValue> initialize_multimaster(FT_Face face, const FontProperties &p
         error = FT_Get_Default_Named_Instance(face, &named_instance);
         if(error != 0) {
             print_freetype_error(error);
+            FT_Done_MM_Var(face->glyph->library, mmvar);
             RETERR(FreeTypeError);
         }
     }
@@ -362,6 +363,7 @@ rvoe<NoReturnValue> initialize_multimaster(FT_Face face, const FontProperties &p
     error = FT_Set_Named_Instance(face, named_instance);
     if(error != 0) {
         print_freetype_error(error);
+        FT_Done_MM_Var(face->glyph->library, mmvar);
         RETERR(FreeTypeError);
     }
 
@@ -2273,6 +2275,7 @@ PdfDocument::load_font(FT_Library ft, const char *fname, FontProperties props) {
     FT_Bytes base = nullptr;
     error = FT_OpenType_Validate(face, FT_VALIDATE_BASE, &base, nullptr, nullptr, nullptr, nullptr);
     if(!error) {
+        FT_OpenType_Free(face, base);
         fprintf(stderr,
                 "Font file %s is an OpenType font. "
                 "Only TrueType "
-- 
2.43.0


From 7966e47f7be00bea33862621eb76e19696c34c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:23 +0000
Subject: [PATCH 40/41] fix: check opened files, PNG structs and colour
 transforms before using them

---
 src/colorconverter.cpp | 14 +++++++++++++-
 src/colorconverter.hpp |  2 +-
 src/drawcontext.cpp    |  2 +-
 src/imagefileops.cpp   |  9 +++++++++
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/colorconverter.cpp b/src/colorconverter.cpp
index c491b24..0e8bec3 100644
--- a/src/colorconverter.cpp
+++ b/src/colorconverter.cpp
@@ -154,12 +154,15 @@ rvoe<DeviceRGBColor> PdfColorConverter::to_rgb(const DeviceCMYKColor &cmyk) {
                                         TYPE_RGB_DBL,
                                         ri2lcms.at(CAPY_RI_RELATIVE_COLORIMETRIC),
                                         0);
+    if(!transform) {
+        RETERR(ProfileProblem);
+    }
     cmsDoTransform(transform, &cmyk, &rgb, 1);
     cmsDeleteTransform(transform);
     return rgb;
 }
 
-DeviceGrayColor PdfColorConverter::to_gray(const DeviceRGBColor &rgb) {
+rvoe<DeviceGrayColor> PdfColorConverter::to_gray(const DeviceRGBColor &rgb) {
     DeviceGrayColor gray;
     auto transform = cmsCreateTransform(rgb_profile.h,
                                         TYPE_RGB_DBL,
@@ -167,6 +170,9 @@ DeviceGrayColor PdfColorConverter::to_gray(const DeviceRGBColor &rgb) {
                                         TYPE_GRAY_DBL,
                                         ri2lcms.at(CAPY_RI_RELATIVE_COLORIMETRIC),
                                         0);
+    if(!transform) {
+        RETERR(ProfileProblem);
+    }
     cmsDoTransform(transform, &rgb, &gray, 1);
     cmsDeleteTransform(transform);
     return gray;
@@ -184,6 +190,9 @@ rvoe<DeviceGrayColor> PdfColorConverter::to_gray(const DeviceCMYKColor &cmyk) {
                                         TYPE_GRAY_DBL,
                                         ri2lcms.at(CAPY_RI_RELATIVE_COLORIMETRIC),
                                         0);
+    if(!transform) {
+        RETERR(ProfileProblem);
+    }
     cmsDoTransform(transform, &cmyk, &gray, 1);
     cmsDeleteTransform(transform);
     return gray;
@@ -202,6 +211,9 @@ rvoe<DeviceCMYKColor> PdfColorConverter::to_cmyk(const DeviceRGBColor &rgb) {
                                         TYPE_CMYK_DBL,
                                         ri2lcms.at(CAPY_RI_RELATIVE_COLORIMETRIC),
                                         0);
+    if(!transform) {
+        RETERR(ProfileProblem);
+    }
     cmsDoTransform(transform, &rgb, &buf, 1);
     cmyk.c = buf[0] / 100.0;
     cmyk.m = buf[1] / 100.0;
diff --git a/src/colorconverter.hpp b/src/colorconverter.hpp
index a31b4ee..2f67bc0 100644
--- a/src/colorconverter.hpp
+++ b/src/colorconverter.hpp
@@ -40,7 +40,7 @@ public:
 
     rvoe<DeviceRGBColor> to_rgb(const DeviceCMYKColor &cmyk);
 
-    DeviceGrayColor to_gray(const DeviceRGBColor &rgb);
+    rvoe<DeviceGrayColor> to_gray(const DeviceRGBColor &rgb);
     rvoe<DeviceGrayColor> to_gray(const DeviceCMYKColor &cmyk);
     rvoe<DeviceCMYKColor> to_cmyk(const DeviceRGBColor &rgb);
 
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 9e4c4e1..ec325ea 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -648,7 +648,7 @@ rvoe<NoReturnValue> PdfDrawContext::convert_to_output_cs_and_set_color(const Dev
         return set_color(c, stroke);
     }
     case CAPY_DEVICE_CS_GRAY: {
-        DeviceGrayColor gray = cm->to_gray(c);
+        ERC(gray, cm->to_gray(c));
         return set_color(gray, stroke);
     }
     case CAPY_DEVICE_CS_CMYK: {
diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 542727b..8c77788 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -452,7 +452,13 @@ rvoe<RasterImage> load_png_file(FILE *f) {
     };
     PngCloser pclose;
     pclose.p = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
+    if(!pclose.p) {
+        RETERR(UnsupportedFormat);
+    }
     pclose.i = png_create_info_struct(pclose.p);
+    if(!pclose.i) {
+        RETERR(UnsupportedFormat);
+    }
 
     if(setjmp(png_jmpbuf(pclose.p))) {
         RETERR(UnsupportedFormat);
@@ -621,6 +627,9 @@ rvoe<RasterImage> load_image_file(const char *fname) {
     char buf[bufsize];
     buf[0] = 0;
     FILE *f = fopen(fname, "rb");
+    if(!f) {
+        RETERR(CouldNotOpenFile);
+    }
     auto rc = fread(buf, 1, bufsize, f);
     fclose(f);
     if(rc != bufsize) {
-- 
2.43.0


From 14c0a1f0048c001b99e688907a245dc3fc8879bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:35 +0000
Subject: [PATCH 41/41] fix: keep the LittleCMS error handler in a context of
 its own

cmsSetLogErrorHandler replaces the handler of the entire process: creating a
generator took away the handler of the application, and two generators made in
different threads wrote it at the same time.
---
 src/colorconverter.cpp | 43 +++++++++++++++++++++++++++++++++---------
 src/colorconverter.hpp | 12 +++++++++++-
 2 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/colorconverter.cpp b/src/colorconverter.cpp
index 0e8bec3..878b1f3 100644
--- a/src/colorconverter.cpp
+++ b/src/colorconverter.cpp
@@ -74,6 +74,8 @@ namespace capypdf::internal {
 
 LcmsHolder::~LcmsHolder() { deallocate(); }
 
+void LcmsContextDeleter::operator()(_cmsContext_struct *c) const { cmsDeleteContext(c); }
+
 void LcmsHolder::deallocate() {
     if(h) {
         cmsCloseProfile(h);
@@ -83,11 +85,18 @@ void LcmsHolder::deallocate() {
 
 rvoe<PdfColorConverter> PdfColorConverter::construct(const ColorProfiles &d) {
     PdfColorConverter conv;
+    conv.context.reset(cmsCreateContext(nullptr, nullptr));
+    if(conv.context) {
+        // The plain version of this function changes the handler of the entire process.
+        cmsSetLogErrorHandlerTHR(conv.context.get(), print_lcms_errors);
+    }
     if(!d.rgb_profile_file.empty()) {
         ERC(rgb, load_file_as_bytes(d.rgb_profile_file));
         conv.rgb_profile_data = std::move(rgb);
         cmsHPROFILE h =
-            cmsOpenProfileFromMem(conv.rgb_profile_data.data(), conv.rgb_profile_data.size());
+            cmsOpenProfileFromMemTHR(conv.context.get(),
+                                     conv.rgb_profile_data.data(),
+                                     conv.rgb_profile_data.size());
         if(!h) {
             RETERR(InvalidICCProfile);
         }
@@ -97,13 +106,15 @@ rvoe<PdfColorConverter> PdfColorConverter::construct(const ColorProfiles &d) {
             RETERR(IncorrectColorChannelCount);
         }
     } else {
-        conv.rgb_profile.h = cmsCreate_sRGBProfile();
+        conv.rgb_profile.h = cmsCreate_sRGBProfileTHR(conv.context.get());
     }
     if(!d.gray_profile_file.empty()) {
         ERC(gray, load_file_as_bytes(d.gray_profile_file));
         conv.gray_profile_data = std::move(gray);
         auto h =
-            cmsOpenProfileFromMem(conv.gray_profile_data.data(), conv.gray_profile_data.size());
+            cmsOpenProfileFromMemTHR(conv.context.get(),
+                                     conv.gray_profile_data.data(),
+                                     conv.gray_profile_data.size());
         if(!h) {
             RETERR(InvalidICCProfile);
         }
@@ -113,15 +124,18 @@ rvoe<PdfColorConverter> PdfColorConverter::construct(const ColorProfiles &d) {
             RETERR(IncorrectColorChannelCount);
         }
     } else {
-        auto curve = cmsBuildGamma(nullptr, 1.0);
-        conv.gray_profile.h = cmsCreateGrayProfile(cmsD50_xyY(), curve);
+        auto curve = cmsBuildGamma(conv.context.get(), 1.0);
+        conv.gray_profile.h =
+            cmsCreateGrayProfileTHR(conv.context.get(), cmsD50_xyY(), curve);
         cmsFreeToneCurve(curve);
     }
     if(!d.cmyk_profile_file.empty()) {
         ERC(cmyk, load_file_as_bytes(d.cmyk_profile_file));
         conv.cmyk_profile_data = std::move(cmyk);
         auto h =
-            cmsOpenProfileFromMem(conv.cmyk_profile_data.data(), conv.cmyk_profile_data.size());
+            cmsOpenProfileFromMemTHR(conv.context.get(),
+                                     conv.cmyk_profile_data.data(),
+                                     conv.cmyk_profile_data.size());
         if(!h) {
             RETERR(InvalidICCProfile);
         }
@@ -134,7 +148,6 @@ rvoe<PdfColorConverter> PdfColorConverter::construct(const ColorProfiles &d) {
         // Not having a CMYK profile is fine, but any call to CMYK color conversions
         // is an error.
     }
-    cmsSetLogErrorHandler(print_lcms_errors);
     return rvoe<PdfColorConverter>(std::move(conv));
 }
 
@@ -142,6 +155,17 @@ PdfColorConverter::PdfColorConverter() {}
 
 PdfColorConverter::~PdfColorConverter() {}
 
+PdfColorConverter &PdfColorConverter::operator=(PdfColorConverter &&o) {
+    rgb_profile = std::move(o.rgb_profile);
+    gray_profile = std::move(o.gray_profile);
+    cmyk_profile = std::move(o.cmyk_profile);
+    rgb_profile_data = std::move(o.rgb_profile_data);
+    gray_profile_data = std::move(o.gray_profile_data);
+    cmyk_profile_data = std::move(o.cmyk_profile_data);
+    context = std::move(o.context);
+    return *this;
+}
+
 rvoe<DeviceRGBColor> PdfColorConverter::to_rgb(const DeviceCMYKColor &cmyk) {
     if(!cmyk_profile.h) {
         RETERR(OutputProfileMissing);
@@ -263,7 +287,8 @@ rvoe<RawPixelImage> PdfColorConverter::convert_image_to(RawPixelImage ri,
     if(ri.icc_profile.empty()) {
         input_profile = profile_for(ri.md.cs);
     } else {
-        input_profile = cmsOpenProfileFromMem(ri.icc_profile.data(), ri.icc_profile.size());
+        input_profile =
+            cmsOpenProfileFromMemTHR(context.get(), ri.icc_profile.data(), ri.icc_profile.size());
         if(!input_profile) {
             RETERR(InvalidICCProfile);
         }
@@ -307,7 +332,7 @@ std::span<std::byte> PdfColorConverter::get_cmyk() {
 }
 
 rvoe<int> PdfColorConverter::get_num_channels(std::span<std::byte> icc_data) const {
-    cmsHPROFILE h = cmsOpenProfileFromMem(icc_data.data(), icc_data.size());
+    cmsHPROFILE h = cmsOpenProfileFromMemTHR(context.get(), icc_data.data(), icc_data.size());
     if(!h) {
         RETERR(InvalidICCProfile);
     }
diff --git a/src/colorconverter.hpp b/src/colorconverter.hpp
index 2f67bc0..1c62fe7 100644
--- a/src/colorconverter.hpp
+++ b/src/colorconverter.hpp
@@ -5,8 +5,11 @@
 
 #include <pdfcommon.hpp>
 
+#include <memory>
+
 // To avoid pulling all of LittleCMS in this file.
 typedef void *cmsHPROFILE;
+struct _cmsContext_struct;
 
 namespace capypdf::internal {
 
@@ -31,6 +34,10 @@ struct LcmsHolder {
     }
 };
 
+struct LcmsContextDeleter {
+    void operator()(_cmsContext_struct *c) const;
+};
+
 class PdfColorConverter {
 public:
     static rvoe<PdfColorConverter> construct(const ColorProfiles &d);
@@ -54,7 +61,7 @@ public:
 
     rvoe<int> get_num_channels(std::span<std::byte> icc_data) const;
 
-    PdfColorConverter &operator=(PdfColorConverter &&o) = default;
+    PdfColorConverter &operator=(PdfColorConverter &&o);
 
 private:
     PdfColorConverter();
@@ -62,6 +69,9 @@ private:
     cmsHPROFILE profile_for(CapyPDF_Device_Colorspace cs) const;
     cmsHPROFILE profile_for(CapyPDF_Image_Colorspace cs) const;
 
+    // Must outlive the profiles that are created in it.
+    std::unique_ptr<_cmsContext_struct, LcmsContextDeleter> context;
+
     LcmsHolder rgb_profile;
     LcmsHolder gray_profile;
     LcmsHolder cmyk_profile;
-- 
2.43.0

