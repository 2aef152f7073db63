# /opt/veriftools/pyvenv: writes spec/Curves.tla
from mpmath import mp, mpf, exp, log, floor, log10, nint
mp.dps = 40
def me(x):
    e = int(floor(log10(x))); m = int(nint(x / mpf(10) ** e * 10 ** 8))
    if m == 10 ** 9: m, e = 10 ** 8, e + 1
    return f"<<{m}, {e}>>"
def seq(xs, per=10):
    xs = list(xs); return "<<\n" + ",\n".join("  " + ", ".join(xs[i:i+per]) for i in range(0, len(xs), per)) + " >>"
K = 280
out = ["------------------------------- MODULE Curves -------------------------------",
"(* Values of the curves at exactly representable points, from 40-digit arithmetic (CurvesModel checks the functional equations",
"   they obey).  A positive number is <<m, e>> = m / 10^8 * 10^e with m of nine digits; micro is 10^-6. *)",
"EXTENDS Integers", f"KMAX == {K}",
"\\* exp(k / 4), k = -KMAX..KMAX",
"ExpTab == " + seq(me(exp(mpf(k)/4)) for k in range(-K, K+1)),
"\\* 1 / (1 + exp(-k / 4))",
"SigTab == " + seq(me(1/(1+exp(-mpf(k)/4))) for k in range(-K, K+1)),
"\\* log(p / (1 - p)) in micro, p = j / 64, j = 1..63",
"LogitTab == " + seq(str(int(nint(log(mpf(j)/(64-j))*10**6))) for j in range(1, 64)),
"\\* log(2^j - 1) in micro, j = 1..24: minus the logit of 2^-j",
"TwoTab == " + seq(str(int(nint(log(mpf(2)**j-1)*10**6))) for j in range(1, 25)),
f"LN2 == {int(nint(log(2)*10**6))}", f"LN2C == {int(nint((log(2)*10**6-693147)*100))}  \\* hundredths of a micro on top of LN2",
f"LN3 == {int(nint(log(3)*10**6))}",
f"LnDefaultMin == {int(nint(log(mpf('1e-9'))*10**6))}   \\* log(10^-9)",
f"LogitMilli == {int(nint(log(mpf('1e-4')/(1-mpf('1e-4')))*10**6))}    \\* logit(10^-4)",
f"LogitMicro == {int(nint(log(mpf('1e-6')/(1-mpf('1e-6')))*10**6))}   \\* logit(10^-6)",
"\\* an upper bound of exp(j), j = 0..11",
"ExpCeil == " + seq(str(int(floor(exp(j)))+1) for j in range(0, 18)),
"============================================================================="]
open('/verif/spec/Curves.tla','w').write("\n".join(out)+"\n")
