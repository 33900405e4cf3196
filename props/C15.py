import re
LEVEL = "other"
H = "c15_types.c"
S = ["libs/compiler/syntax.c"]
F = ["type_is_" + f for f in ("boolean", "integer", "floating", "arithmetic", "const", "array", "structure", "enum", "enum_field", "function", "pointer", "scalar",
     "aggregate", "string", "file", "struct_pointer")] + ["type_get_class", "type_size", "type_const_get_unqualified_type", "type_array_get_element_type",
     "type_pointer_get_element_type", "type_structure_get_member_amount", "type_function_get_return_type", "type_function_get_parameter_amount", "get_enum_field_type",
     "type_structure_get_member_name", "type_structure_get_member_type", "type_function_get_parameter_type"]
GROUPS = [Group(f, H, "h_" + f, S, dfcc=False, functions=[f], unwind=5, unwindset=["cell:15", "start:15", "known:15"], rounds=3000) for f in F if f != "type_is_struct_pointer"]
GROUPS.append(Group("type_is_struct_pointer", H, "h_type_is_struct_pointer", S, unwind=3, unwindset=["cell:15", "start:15", "known:15"], dfcc=False, functions=["type_is_struct_pointer"],
                    rounds=3000, kind="bounded", bound="at most one const around a type", defs=["SHALLOW"]))
GROUPS.append(Group("basic_types", H, "h_basic", S, unwind=5, unwindset=["cell:15", "start:15", "known:15"], functions=["type_is_void", "type_is_null_pointer", "type_is_undefined"], rounds=3000))
V = ["libs/utils/vector.c", "libs/utils/item.c"]
B = ["type_add", "type_enum_add_fields", "type_array", "type_string", "type_structure", "type_pointer", "type_const"]
I, R, C = "TYPE_INTEGER", "TYPE_FLOATING", "TYPE_CHARACTER"
SHAPES = ["POINTER(%s) POINTER(%s) POINTER(%s) ARRAY(T(0)) ARRAY(T(0)) POINTER(T(3))" % (I, R, I), "ARRAY(%s) ARRAY(%s) POINTER(%s) ARRAY(%s) POINTER(T(0))" % (C, I, C, C),
          "CONST_(%s) CONST_(%s) CONST_(%s) POINTER(T(0)) CONST_(T(3)) POINTER(%s)" % (I, R, I, I), "CONST_(%s) CONST_(TYPE_BOOLEAN) ARRAY(T(0)) ARRAY(T(1))" % C,
          "STRUCT(%s) STRUCT(%s) STRUCT(%s)" % (I, I, R), "STRUCT(%s, %s) STRUCT(%s, %s)" % (I, R, I, R), "STRUCT(%s, %s)" % (I, I), "STRUCT(%s) STRUCT(T(0), %s) CONST_(T(1)) STRUCT(T(2))" % (R, I),
          "FUNCTION(%s, %s) FUNCTION(%s, %s) FUNCTION(%s, %s, %s)" % (I, R, I, R, I, R, R), "FUNCTION(%s, %s, %s) FUNCTION(%s, %s, %s) FUNCTION(T(0), %s)" % (I, R, C, R, R, C, I),
          "ENUM_(1, 2) ENUM_(1, 2) POINTER(T(0)) ENUM_(3, 4)", "ENUM_(5, 6) STRUCT(T(0), %s) CONST_(T(0))" % I]
def parts(h):
    return sum(len(x.split(",")) for x in re.findall(r"STRUCT\((.*?)\)(?= |$)", h))
for n, h in enumerate(SHAPES):
    GROUPS.append(Group("build_%d" % n, "c15_build.c", "h_build", S, native_only_sources=V, kind="bounded", bound="the history " + h.replace("TYPE_", "") + ", names taken from two in every way", unwind=max(8, 2 ** parts(h) + 1), dfcc=False,
                        unwindset=["type_requires_initialization:3", "model_resize:4", "start:3", "vector_increase:4", "type_add:12"], defs=["HISTORY=" + h, "NAMINGS=%d" % 2 ** parts(h)], functions=B, native_extra=n == 0))
GROUPS.append(Group("function_descriptions", "c15_build.c", "h_function", S, native_only_sources=V, kind="bounded", bound="one description of each form", dfcc=False, unwind=8,
                    unwindset=["h_function:17", "model_resize:6", "type_add:26"], defs=["MODEL_CAP=160"], functions=["type_function"], native_extra=False))
