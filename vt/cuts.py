"""R4: loop annotations (invariants) applied to the extracted text; see DESIGN.md."""
CUTS = {
 "default_get_active": dict(file="context_default.c", function="dx_default_get_active", nloops=1, idents=["entry"],
   decls="struct disir_default; struct disir_version; struct disir_default *vt_da_havoc(void); _Bool vt_da_inv(struct disir_default *);",
   cuts=[dict(loop=0, havoc_vars=["entry"], havoc="entry = vt_da_havoc();", inv="vt_da_inv(entry)")]),
 "default_finalize": dict(file="context_default.c", function="dx_default_finalize", nloops=1, idents=["entry", "prev"],
   decls="struct disir_default; struct disir_default *vt_df_havoc(struct disir_default **); _Bool vt_df_inv(struct disir_default *, struct disir_default *);",
   cuts=[dict(loop=0, havoc_vars=["entry", "prev"], havoc="entry = vt_df_havoc(&prev);", inv="vt_df_inv(prev, entry)")]),
 "exclusive_check": dict(file="context_restriction.c", function="dx_restriction_exclusive_value_check", nloops=4, idents=["entry", "exclusive_fulfilled", "restriction_entries_inactive", "allowed_written", "_tmp", "_cnt"],
   decls="struct disir_restriction; struct disir_restriction *vt_ex_havoc(int *, int *, int *); _Bool vt_ex_inv(struct disir_restriction *, int, int, int); struct disir_restriction *vt_sz_havoc(int *); _Bool vt_sz_inv(struct disir_restriction *, int);",
   cuts=[dict(loop=0, nested=True, havoc_vars=["entry", "exclusive_fulfilled", "restriction_entries_inactive", "allowed_written"], havoc="entry = vt_ex_havoc(&exclusive_fulfilled, &restriction_entries_inactive, &allowed_written);", inv="vt_ex_inv(entry, exclusive_fulfilled, restriction_entries_inactive, allowed_written)"),
     dict(loop=1, havoc_vars=["_tmp", "_cnt"], havoc="_tmp = vt_sz_havoc(&_cnt);", inv="vt_sz_inv(_tmp, _cnt)"),
     dict(loop=2, havoc_vars=["_tmp", "_cnt"], havoc="_tmp = vt_sz_havoc(&_cnt);", inv="vt_sz_inv(_tmp, _cnt)"),
     dict(loop=3, havoc_vars=["_tmp", "_cnt"], havoc="_tmp = vt_sz_havoc(&_cnt);", inv="vt_sz_inv(_tmp, _cnt)")]),
 "entries_value": dict(file="context_restriction.c", function="dx_restriction_entries_value", nloops=2, idents=["entry", "element_introduced", "min", "max", "min_closest", "max_closest"],
   decls="struct disir_restriction; struct disir_default; struct disir_version; struct disir_default *vt_ed_havoc(struct disir_version **); _Bool vt_ed_inv(struct disir_default *, struct disir_version *); struct disir_restriction *vt_er_havoc(int *, int *, struct disir_version **, struct disir_version **); _Bool vt_er_inv(struct disir_restriction *, int, int, struct disir_version *, struct disir_version *);",
   cuts=[dict(loop=0, havoc_vars=["entry", "element_introduced"], havoc="entry = vt_ed_havoc(&element_introduced);", inv="vt_ed_inv(entry, element_introduced)"),
     dict(loop=1, havoc_vars=["entry", "min", "max", "min_closest", "max_closest"], havoc="entry = vt_er_havoc(&min, &max, &min_closest, &max_closest);", inv="vt_er_inv(entry, min, max, min_closest, max_closest)")]),
 "inclusive": dict(file="validate.c", function="validate_inclusive_restrictions", nloops=1, idents=["element", "invalid", "status", "name", "size", "min", "max", "config_elements", "target_version"],
   decls="struct disir_context *vt_in_havoc(enum disir_status *, enum disir_status *, const char **); _Bool vt_in_inv(struct disir_context *, enum disir_status, struct disir_version *);",
   cuts=[dict(loop=0, heap=True, havoc_vars=["element", "invalid", "status", "name", "size", "min", "max", "config_elements"], havoc="element = vt_in_havoc(&invalid, &status, &name); size = 0; min = 0; max = 0; config_elements = 0;", inv="vt_in_inv(element, invalid, target_version)")]),
 "find_element": dict(file="context.c", function="dc_find_element", nloops=1, idents=["status", "i", "index", "output"],
   decls="unsigned int vt_fe_havoc(enum disir_status *); _Bool vt_fe_inv(unsigned int, unsigned int);",
   cuts=[dict(loop=0, heap=True, havoc_vars=["status", "i"], havoc="i = vt_fe_havoc(&status);", inv="vt_fe_inv(i, index)")]),
}
