#!/usr/bin/env python3
# writes contracts/type.lcv: the same contract for each predefined type
T = [("char", "int8_t", 8, 1), ("uchar", "uint8_t", 8, 0), ("int32", "int32_t", 32, 1), ("uint32", "uint32_t", 32, 0), ("int64", "int64_t", 64, 1), ("uint64", "uint64_t", 64, 0), ("double", "double", 64, 2), ("float", "float", 32, 2)]
o = ["// ---- C12: predefined types (written by tools/mktypes.py) -----------------------------",
     "// signed overflow of int and int64 sums/products is excluded by precondition (undefined in C);",
     "// narrow and unsigned types wrap.  Floating point: + and * are uninterpreted, comparisons are those of real numbers",
     "// (NaN and infinities are outside of the contracts).",
     "pred redop_int(int o) := o == LAIK_RO_Sum || o == LAIK_RO_Prod || o == LAIK_RO_Min || o == LAIK_RO_Max || o == LAIK_RO_And || o == LAIK_RO_Or;",
     "pred redop_flt(int o) := o == LAIK_RO_Sum || o == LAIK_RO_Prod || o == LAIK_RO_Min || o == LAIK_RO_Max;"]
for n, c, bits, sg in T:
    M = 1 << bits; H = M >> 1; ty = "double" if sg == 2 else "int"
    if sg == 0: w = lambda e: "((%s) %% %d)" % (e, M); lo, hi = 0, M - 1
    elif sg == 1: w = (lambda e: "(((%s) + %d) %% %d - %d)" % (e, H, M, H)) if bits < 32 else (lambda e: "(%s)" % e); lo, hi = -H, H - 1
    s32 = "32" if bits == 32 else ""
    if sg == 2: add, mul = "fadd%s(a, b)" % s32, "fmul%s(a, b)" % s32
    else: add, mul = w("a + b"), w("a * b")
    op = "redop_flt" if sg == 2 else "redop_int"
    r = "pred red_%s(int o, %s a, %s b, %s r) :=\n   (o == LAIK_RO_Sum ==> r == %s) && (o == LAIK_RO_Prod ==> r == %s)" % (n, ty, ty, ty, add, mul)
    r += "\n && (o == LAIK_RO_Min ==> (r == a || r == b) && r <= a && r <= b) && (o == LAIK_RO_Max ==> (r == a || r == b) && r >= a && r >= b)"
    if sg != 2:
        r += "\n && (o == LAIK_RO_And ==> r == %s) && (o == LAIK_RO_Or ==> r == %s)" % (("band(a, b)", "bor(a, b)"))
    o.append(r + ";")
    if sg == 2:
        mx = "340282346638528859811704183484516925440" if bits == 32 else "%d" % int(1.7976931348623157e308)
        neu = "(o == LAIK_RO_Sum ==> v == 0) && (o == LAIK_RO_Prod ==> v == 1) && (o == LAIK_RO_Min ==> v >= %s) && (o == LAIK_RO_Max ==> v <= -%s)" % (mx, mx)
    else:
        neu = "(o == LAIK_RO_Sum ==> v == 0) && (o == LAIK_RO_Prod ==> v == 1) && (o == LAIK_RO_Min ==> v == %d) && (o == LAIK_RO_Max ==> v == %d) && (o == LAIK_RO_Or ==> v == 0) && (o == LAIK_RO_And ==> v == %d)" % (hi, lo, -1 if sg else hi)
    o.append("pred neutral_%s(int o, %s v) := %s;" % (n, ty, neu))
    P = "cast<%s*>" % c
    o.append("""contract laik_%(n)s_init {
  params (void* base, int count, int o);
  requires %(op)s(o) && valid_array(%(P)s(base), count);
  ensures neutral: forall int k {%(P)s(base)[k]} :: 0 <= k && k < count ==> neutral_%(n)s(o, %(P)s(base)[k]);
  assigns %(P)s(base)[0 .. count];
  loop * {
    invariant b: 0 <= i && (i <= count || count < 0);
    invariant v: neutral_%(n)s(o, v);
    invariant done: forall int k {%(P)s(base)[k]} :: 0 <= k && k < i ==> %(P)s(base)[k] == v;
    decreases count - i;
  }
}""" % dict(n=n, op=op, P=P))
    ovf = ""
    if sg == 1 and bits >= 32:
        ovf = "\n  requires no_overflow: in1 != null && in2 != null ==> (forall int k {%s(in1)[k]} {%s(in2)[k]} :: 0 <= k && k < count ==> (o == LAIK_RO_Sum ==> %d <= %s(in1)[k] + %s(in2)[k] && %s(in1)[k] + %s(in2)[k] <= %d) && (o == LAIK_RO_Prod ==> %d <= %s(in1)[k] * %s(in2)[k] && %s(in1)[k] * %s(in2)[k] <= %d));" % (P, P, lo, P, P, P, P, hi, lo, P, P, P, P, hi)
    ext = ""
    if n == "uint64" or n == "uint32" or True: ext = ""
    o.append("""contract laik_%(n)s_reduce {
  params (void* out, void* in1, void* in2, int count, int o);
  requires %(op)s(o) && out != null && 0 <= count && valid_array(%(P)s(out), count) && (in1 == null || valid_array(%(P)s(in1), count)) && (in2 == null || valid_array(%(P)s(in2), count));
  requires alias: (in1 == out || in1 == null || separate(in1, out)) && (in2 == out || in2 == null || separate(in2, out));%(ovf)s
  ensures both: in1 != null && in2 != null ==> (forall int k {%(P)s(out)[k]} :: 0 <= k && k < count ==> red_%(n)s(o, old(%(P)s(in1)[k]), old(%(P)s(in2)[k]), %(P)s(out)[k]));
  ensures only1: in1 != null && in2 == null ==> (forall int k {%(P)s(out)[k]} :: 0 <= k && k < count ==> %(P)s(out)[k] == old(%(P)s(in1)[k]));
  ensures only2: in1 == null && in2 != null ==> (forall int k {%(P)s(out)[k]} :: 0 <= k && k < count ==> %(P)s(out)[k] == old(%(P)s(in2)[k]));
  ensures none: in1 == null && in2 == null ==> (forall int k {%(P)s(out)[k]} :: 0 <= k && k < count ==> neutral_%(n)s(o, %(P)s(out)[k]));
  assigns %(P)s(out)[0 .. count];
  loop * {
    invariant b: 0 <= i && i <= count;
    invariant done: forall int k {%(P)s(out)[k]} :: 0 <= k && k < i ==> red_%(n)s(o, old(%(P)s(in1)[k]), old(%(P)s(in2)[k]), %(P)s(out)[k]);
    invariant rest: forall int k {%(P)s(out)[k]} :: i <= k && k < count ==> %(P)s(out)[k] == old(%(P)s(out)[k]);
    decreases count - i;
  }
}""" % dict(n=n, op=op, P=P, ovf=ovf))
open(__file__.rsplit("/", 2)[0] + "/contracts/type.lcv", "w").write("\n".join(o) + "\n")
