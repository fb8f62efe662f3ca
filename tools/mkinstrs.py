#!/usr/bin/env python3
"""Writes spec/instrs.json: WebAssembly 2.0 instruction types and opcodes, transcribed from the
specification (binary format, section 5.4, and validation, section 3.3) - not from the code under test.
`*` stands for a polymorphic operand. imm: immediates in the text format (a memarg counts as one)."""
import json, os
T = {}
def add(name, op, params, results, imm=0):
    assert name not in T, name
    T[name] = {"op": op, "params": params, "results": results, "imm": imm}
def seq(start, names, f, prefix=None):
    for i, n in enumerate(names.split()):
        if n == "_":
            continue
        c = start + i
        op = "0x%02X" % c if prefix is None else "%s 0x%02X" % (prefix, c) + (" 0x01" if c > 0x7F else "")  # LEB128
        p, r, imm = f(n)
        add(n, op, p, r, imm)

add("drop", "0x1A", ["*"], [])
add("select", "0x1C", ["*", "*", "i32"], ["*"], 1)
add("local.get", "0x20", [], ["*"], 1)
add("local.set", "0x21", ["*"], [], 1)
add("local.tee", "0x22", ["*"], ["*"], 1)
add("global.get", "0x23", [], ["*"], 1)
add("global.set", "0x24", ["*"], [], 1)
add("table.get", "0x25", ["i32"], ["*"], 1)
add("table.set", "0x26", ["i32", "*"], [], 1)
ty = lambda n: n.split(".")[0]
seq(0x28, "i32.load i64.load f32.load f64.load i32.load8_s i32.load8_u i32.load16_s i32.load16_u "
    "i64.load8_s i64.load8_u i64.load16_s i64.load16_u i64.load32_s i64.load32_u", lambda n: (["i32"], [ty(n)], 1))
seq(0x36, "i32.store i64.store f32.store f64.store i32.store8 i32.store16 i64.store8 i64.store16 i64.store32",
    lambda n: (["i32", ty(n)], [], 1))
add("memory.size", "0x3F", [], ["i32"])
add("memory.grow", "0x40", ["i32"], ["i32"])
seq(0x41, "i32.const i64.const f32.const f64.const", lambda n: ([], [ty(n)], 1))
seq(0x45, "i32.eqz", lambda n: (["i32"], ["i32"], 0))
cmp = "eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u"
fcmp = "eq ne lt gt le ge"
j = lambda t, ops: " ".join(f"{t}.{o}" for o in ops.split())
rel = lambda n: ([ty(n)] * 2, ["i32"], 0)
un = lambda n: ([ty(n)], [ty(n)], 0)
bi = lambda n: ([ty(n)] * 2, [ty(n)], 0)
seq(0x46, j("i32", cmp), rel)
add("i64.eqz", "0x50", ["i64"], ["i32"])
seq(0x51, j("i64", cmp), rel)
seq(0x5B, j("f32", fcmp), rel)
seq(0x61, j("f64", fcmp), rel)
iun, ibi = "clz ctz popcnt", "add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr"
fun, fbi = "abs neg ceil floor trunc nearest sqrt", "add sub mul div min max copysign"
seq(0x67, j("i32", iun), un); seq(0x6A, j("i32", ibi), bi)
seq(0x79, j("i64", iun), un); seq(0x7C, j("i64", ibi), bi)
seq(0x8B, j("f32", fun), un); seq(0x92, j("f32", fbi), bi)
seq(0x99, j("f64", fun), un); seq(0xA0, j("f64", fbi), bi)
def conv(n):
    t, rest = n.split(".")
    src = [x for x in rest.split("_") if x in ("i32", "i64", "f32", "f64")][0]
    return [src], [t], 0
seq(0xA7, "i32.wrap_i64 i32.trunc_f32_s i32.trunc_f32_u i32.trunc_f64_s i32.trunc_f64_u i64.extend_i32_s "
    "i64.extend_i32_u i64.trunc_f32_s i64.trunc_f32_u i64.trunc_f64_s i64.trunc_f64_u f32.convert_i32_s "
    "f32.convert_i32_u f32.convert_i64_s f32.convert_i64_u f32.demote_f64 f64.convert_i32_s f64.convert_i32_u "
    "f64.convert_i64_s f64.convert_i64_u f64.promote_f32 i32.reinterpret_f32 i64.reinterpret_f64 "
    "f32.reinterpret_i32 f64.reinterpret_i64", conv)
seq(0xC0, "i32.extend8_s i32.extend16_s i64.extend8_s i64.extend16_s i64.extend32_s", un)
add("ref.null", "0xD0", [], ["*"], 1)
add("ref.is_null", "0xD1", ["*"], ["i32"])
add("ref.func", "0xD2", [], ["funcref"], 1)
seq(0x00, "i32.trunc_sat_f32_s i32.trunc_sat_f32_u i32.trunc_sat_f64_s i32.trunc_sat_f64_u i64.trunc_sat_f32_s "
    "i64.trunc_sat_f32_u i64.trunc_sat_f64_s i64.trunc_sat_f64_u", conv, "0xFC")
I3 = ["i32"] * 3
add("memory.init", "0xFC 0x08", I3, [], 1)
add("data.drop", "0xFC 0x09", [], [], 1)
add("memory.copy", "0xFC 0x0A", I3, [])
add("memory.fill", "0xFC 0x0B", I3, [])
add("table.init", "0xFC 0x0C", I3, [], 2)
add("elem.drop", "0xFC 0x0D", [], [], 1)
add("table.copy", "0xFC 0x0E", I3, [], 2)
add("table.grow", "0xFC 0x0F", ["*", "i32"], ["i32"], 1)
add("table.size", "0xFC 0x10", [], ["i32"], 1)
add("table.fill", "0xFC 0x11", ["i32", "*", "i32"], [], 1)
V = "v128"
FD = "0xFD"
seq(0, "v128.load v128.load8x8_s v128.load8x8_u v128.load16x4_s v128.load16x4_u v128.load32x2_s v128.load32x2_u "
    "v128.load8_splat v128.load16_splat v128.load32_splat v128.load64_splat", lambda n: (["i32"], [V], 1), FD)
add("v128.store", "0xFD 0x0B", ["i32", V], [], 1)
add("v128.const", "0xFD 0x0C", [], [V], 1)
add("i8x16.shuffle", "0xFD 0x0D", [V, V], [V], 16)
add("i8x16.swizzle", "0xFD 0x0E", [V, V], [V])
lane = {"i8x16": "i32", "i16x8": "i32", "i32x4": "i32", "i64x2": "i64", "f32x4": "f32", "f64x2": "f64"}
seq(0x0F, "i8x16.splat i16x8.splat i32x4.splat i64x2.splat f32x4.splat f64x2.splat", lambda n: ([lane[ty(n)]], [V], 0), FD)
def lanes(n):
    return ([V], [lane[ty(n)]], 1) if "extract" in n else ([V, lane[ty(n)]], [V], 1)
seq(0x15, "i8x16.extract_lane_s i8x16.extract_lane_u i8x16.replace_lane i16x8.extract_lane_s i16x8.extract_lane_u "
    "i16x8.replace_lane i32x4.extract_lane i32x4.replace_lane i64x2.extract_lane i64x2.replace_lane "
    "f32x4.extract_lane f32x4.replace_lane f64x2.extract_lane f64x2.replace_lane", lanes, FD)
vbi = lambda n: ([V, V], [V], 0)
vun = lambda n: ([V], [V], 0)
tst = lambda n: ([V], ["i32"], 0)
shf = lambda n: ([V, "i32"], [V], 0)
def vop(n):
    o = n.split(".")[1]
    if o in ("all_true", "any_true", "bitmask"):
        return tst(n)
    if o in ("shl", "shr_s", "shr_u"):
        return shf(n)
    if o in ("abs", "neg", "sqrt", "ceil", "floor", "trunc", "nearest", "popcnt", "not") or o.startswith(
            ("extadd", "extend", "convert", "trunc_sat", "demote", "promote")):
        return vun(n)
    return vbi(n)
seq(0x23, j("i8x16", cmp), vbi, FD)
seq(0x2D, j("i16x8", cmp), vbi, FD)
seq(0x37, j("i32x4", cmp), vbi, FD)
seq(0x41, j("f32x4", fcmp), vbi, FD)
seq(0x47, j("f64x2", fcmp), vbi, FD)
seq(0x4D, "v128.not v128.and v128.andnot v128.or v128.xor", vop, FD)
add("v128.bitselect", "0xFD 0x52", [V] * 3, [V])
add("v128.any_true", "0xFD 0x53", [V], ["i32"])
seq(0x54, "v128.load8_lane v128.load16_lane v128.load32_lane v128.load64_lane", lambda n: (["i32", V], [V], 2), FD)
seq(0x58, "v128.store8_lane v128.store16_lane v128.store32_lane v128.store64_lane", lambda n: (["i32", V], [], 2), FD)
seq(0x5C, "v128.load32_zero v128.load64_zero", lambda n: (["i32"], [V], 1), FD)
seq(0x5E, "f32x4.demote_f64x2_zero f64x2.promote_low_f32x4", vop, FD)
seq(0x60, "i8x16.abs i8x16.neg i8x16.popcnt i8x16.all_true i8x16.bitmask i8x16.narrow_i16x8_s i8x16.narrow_i16x8_u "
    "f32x4.ceil f32x4.floor f32x4.trunc f32x4.nearest i8x16.shl i8x16.shr_s i8x16.shr_u i8x16.add i8x16.add_sat_s "
    "i8x16.add_sat_u i8x16.sub i8x16.sub_sat_s i8x16.sub_sat_u f64x2.ceil f64x2.floor i8x16.min_s i8x16.min_u "
    "i8x16.max_s i8x16.max_u f64x2.trunc i8x16.avgr_u i16x8.extadd_pairwise_i8x16_s i16x8.extadd_pairwise_i8x16_u "
    "i32x4.extadd_pairwise_i16x8_s i32x4.extadd_pairwise_i16x8_u", vop, FD)
seq(0x80, "i16x8.abs i16x8.neg i16x8.q15mulr_sat_s i16x8.all_true i16x8.bitmask i16x8.narrow_i32x4_s "
    "i16x8.narrow_i32x4_u i16x8.extend_low_i8x16_s i16x8.extend_high_i8x16_s i16x8.extend_low_i8x16_u "
    "i16x8.extend_high_i8x16_u i16x8.shl i16x8.shr_s i16x8.shr_u i16x8.add i16x8.add_sat_s i16x8.add_sat_u "
    "i16x8.sub i16x8.sub_sat_s i16x8.sub_sat_u f64x2.nearest i16x8.mul i16x8.min_s i16x8.min_u i16x8.max_s "
    "i16x8.max_u _ i16x8.avgr_u i16x8.extmul_low_i8x16_s i16x8.extmul_high_i8x16_s i16x8.extmul_low_i8x16_u "
    "i16x8.extmul_high_i8x16_u", vop, FD)
seq(0xA0, "i32x4.abs i32x4.neg _ i32x4.all_true i32x4.bitmask _ _ i32x4.extend_low_i16x8_s i32x4.extend_high_i16x8_s "
    "i32x4.extend_low_i16x8_u i32x4.extend_high_i16x8_u i32x4.shl i32x4.shr_s i32x4.shr_u i32x4.add _ _ i32x4.sub "
    "_ _ _ i32x4.mul i32x4.min_s i32x4.min_u i32x4.max_s i32x4.max_u i32x4.dot_i16x8_s _ i32x4.extmul_low_i16x8_s "
    "i32x4.extmul_high_i16x8_s i32x4.extmul_low_i16x8_u i32x4.extmul_high_i16x8_u", vop, FD)
seq(0xC0, "i64x2.abs i64x2.neg _ i64x2.all_true i64x2.bitmask _ _ i64x2.extend_low_i32x4_s i64x2.extend_high_i32x4_s "
    "i64x2.extend_low_i32x4_u i64x2.extend_high_i32x4_u i64x2.shl i64x2.shr_s i64x2.shr_u i64x2.add _ _ i64x2.sub "
    "_ _ _ i64x2.mul i64x2.eq i64x2.ne i64x2.lt_s i64x2.gt_s i64x2.le_s i64x2.ge_s i64x2.extmul_low_i32x4_s "
    "i64x2.extmul_high_i32x4_s i64x2.extmul_low_i32x4_u i64x2.extmul_high_i32x4_u", vop, FD)
seq(0xE0, "f32x4.abs f32x4.neg _ f32x4.sqrt f32x4.add f32x4.sub f32x4.mul f32x4.div f32x4.min f32x4.max f32x4.pmin "
    "f32x4.pmax f64x2.abs f64x2.neg _ f64x2.sqrt f64x2.add f64x2.sub f64x2.mul f64x2.div f64x2.min f64x2.max "
    "f64x2.pmin f64x2.pmax i32x4.trunc_sat_f32x4_s i32x4.trunc_sat_f32x4_u f32x4.convert_i32x4_s "
    "f32x4.convert_i32x4_u i32x4.trunc_sat_f64x2_s_zero i32x4.trunc_sat_f64x2_u_zero f64x2.convert_low_i32x4_s "
    "f64x2.convert_low_i32x4_u", vop, FD)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "instrs.json")
with open(out, "w") as f:
    f.write("{\n" + ",\n".join(f"  {json.dumps(k)}: {json.dumps(v)}" for k, v in T.items()) + "\n}\n")
