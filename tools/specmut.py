#!/usr/bin/env python3
"""Mutation test of the specification itself: each mutant of GDA.tla or Text.tla has to violate a law
of Laws.tla.  Not part of any check; run by hand: tools/specmut.py [WORKERS]."""
import os, sys, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = V + '/build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
M = [
    ('GDA', '[] r = HalfUp   -> cls >= 2', '[] r = HalfUp   -> cls = 3', 'add quantize format'),
    ('GDA', 'cls = 3 \\/ (cls = 2 /\\ odd)', 'cls = 3 \\/ (cls = 2 /\\ ~odd)', 'add quo root'),
    ('GDA', '[] r = Floor_   -> s = 1', '[] r = Floor_   -> s = 0', 'add'),
    ('GDA', '[] r = Up       -> TRUE', '[] r = Up       -> cls >= 2', 'add quo'),
    ('GDA', '[] r = HalfDown -> cls = 3', '[] r = HalfDown -> cls >= 2', 'add'),
    ('GDA', '(IF cls = 0 THEN 1 ELSE IF cls = 2 THEN 3 ELSE cls)', 'cls', 'quo'),
    ('GDA', '[] cx.r = Ceiling -> s = 0\n               [] OTHER -> TRUE', '[] cx.r = Ceiling -> s = 1\n               [] OTHER -> TRUE', 'add'),
    ('GDA', 'sub == adj < cx.lo', 'sub == adj <= cx.lo', 'add'),
    ('GDA', 'car == n > 0 /\\ ~sub /\\ BDigits(q) > D - n', 'car == FALSE', 'add quo'),
    ('GDA', 'FlagIf(sub /\\ cls # 0, Underflow)', 'FlagIf(sub, Underflow)', 'add'),
    ('GDA', 'FlagIf(n > 0, Rounded)', 'FlagIf(cls # 0, Rounded)', 'add'),
    ('GDA', 'FlagIf(q1 = BZero, Clamped)', '{}', 'add'),
    ('GDA', 'IF adj > cx.hi THEN OverflowOut(cx, s)', 'IF adj >= cx.hi THEN OverflowOut(cx, s)', 'add'),
    ('GDA', '[OverflowOut(cx, s) EXCEPT !.f = @ \\cup fl]', 'Out(Fin(s, q1, t1), fl)', 'add'),
    ('GDA', 'ELSE IF x.s = y.s THEN x.s\n            ELSE IF cx.r = Floor_ THEN 1 ELSE 0', 'ELSE 0', 'add'),
    ('GDA', 'ELSE Add(cx, x, WithSign(y, 1 - y.s))', 'ELSE Add(cx, WithSign(x, 1 - x.s), y)', 'add'),
    ('GDA', 'n == Min2(BTrail(C), ideal - e)', 'n == BTrail(C)', 'quo'),
    ('GDA', 'Max2(0, cx.p + 2 + Dy - Dx)', 'Max2(0, cx.p - 1 + Dy - Dx)', 'quo'),
    ('GDA', 'BDigits(DivMod1(x, y)[1]) > cx.p', 'BDigits(DivMod1(x, y)[1]) >= cx.p', 'int'),
    ('GDA', 'IF Adj(x) < Adj(y) THEN BShift(x.c, x.e - e)', 'IF Adj(x) <= Adj(y) THEN BShift(x.c, x.e - e)', 'int'),
    ('GDA', 'HalfFloor(e) == (e - (e % 2)) \\div 2', 'HalfFloor(e) == (e + (e % 2)) \\div 2', 'root'),
    ('GDA', 'Finish([cx EXCEPT !.r = HalfEven], 0, st', 'Finish(cx, 0, st', 'root'),
    ('GDA', 'ELSE IF n > cx.hi \\/ n < cx.tiny THEN', 'ELSE IF n > cx.hi \\/ n < cx.lo THEN', 'quantize'),
    ('GDA', 'ELSE IF ~cx.unl /\\ BDigits(z.c) + (z.e - n) > cx.p THEN Invalid({InvalidOp})\n', 'ELSE IF ~cx.unl /\\ BDigits(z.c) + (z.e - n) >= cx.p THEN Invalid({InvalidOp})\n', 'quantize'),
    ('GDA', 'Ceil(cx, x)  == IF ~cx.ok THEN BadCtx ELSE ToInt(Ceiling, x)', 'Ceil(cx, x)  == IF ~cx.ok THEN BadCtx ELSE ToInt(Up, x)', 'quantize'),
    ('GDA', 'v.e + BTrail(v.c))', 'v.e)', 'minor'),
    ('GDA', 'IF up THEN Ceiling ELSE Floor_]\n', 'IF up THEN Up ELSE Floor_]\n', 'next'),
    ('GDA', 'IF IsZero(x) THEN te ELSE Max2(te, k)', 'IF IsZero(x) THEN te ELSE Max2(te, k + 4)', 'next'),
    ('GDA', 'ELSE IF Adj(x) # Adj(y) THEN (IF Adj(x) < Adj(y) THEN -1 ELSE 1)', 'ELSE IF x.e # y.e THEN (IF x.e < y.e THEN -1 ELSE 1)', 'cmp'),
    ('GDA', 'ELSE g * ICmp(x.e, y.e)', 'ELSE ICmp(x.e, y.e)', 'cmp'),
    ('GDA', 'ELSE IF NaNRank(x) # 0 THEN g * BCmp(x.l, y.l)', 'ELSE IF NaNRank(x) # 0 THEN BCmp(x.l, y.l)', 'cmp'),
    ('GDA', 'IF IsInf(x) THEN IF IsInf(y) /\\ x.s # y.s THEN Invalid({InvalidOp})', 'IF IsInf(x) THEN IF IsInf(y) THEN Invalid({InvalidOp})', 'special'),
    ('GDA', 'IF sig THEN (IF IsSNaN(x) THEN x.s ELSE y.s)', 'IF sig THEN x.s', 'special'),
    ('GDA', 'ELSE IF IsZero(y) THEN IF IsZero(x) THEN Invalid({InvalidOp, DivUndefined}) ELSE Out(InfV(s), {DivByZero})\n    ELSE IF IsZero(x) THEN Finish(cx, s, BZero, SSub(x.e, y.e), FALSE, TRUE)',
     'ELSE IF IsZero(x) THEN Finish(cx, s, BZero, SSub(x.e, y.e), FALSE, TRUE)\n    ELSE IF IsZero(y) THEN Out(InfV(s), {DivByZero})', 'special conds'),
    ('GDA', 'FinishA(cx, s, C, e) == Finish(cx, s, C, e, FALSE, ~CtxGo(cx))', 'FinishA(cx, s, C, e) == Finish(cx, s, C, e, FALSE, TRUE)', 'go'),
    ('GDA', 'OverflowOut(cx, s) == Out(OverflowTo(cx, s), {Overflow, Inexact, Rounded})', 'OverflowOut(cx, s) == Out(OverflowTo(cx, s), {Overflow, Rounded})', 'conds'),
    ('GDA', 'ELSE IF e < cx.tiny THEN Out(ZeroV(s, cx.tiny), {Clamped})', 'ELSE IF FALSE THEN Out(ZeroV(s, cx.tiny), {Clamped})', 'range'),
    ('GDA', 'h > 0 \\/ (h = 0 /\\ BOdd(q))', 'h >= 0', 'bin'),
    ('GDA', 'k2  == Max2(k1, emin)', 'k2  == k1', 'bin'),
]


def run(law, spec, workers):
    e = dict(os.environ, LAW=law, DEEP='0', SEED='1', EVERY='1', HIST='')
    meta = tempfile.mkdtemp()
    p = subprocess.run(['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx3g', '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', workers,
                        '-metadir', meta, '-config', 'Laws.cfg', 'Laws.tla'], cwd=spec, env=e, capture_output=True, text=True, timeout=900)
    shutil.rmtree(meta, ignore_errors=True)
    return p.stdout


def main():
    w = sys.argv[1] if len(sys.argv) > 1 else '4'
    bad = 0
    for f, old, new, laws in M:
        d = tempfile.mkdtemp()
        s = os.path.join(d, 'spec')
        shutil.copytree(V + '/spec', s)
        p = os.path.join(s, f + '.tla')
        t = open(p).read()
        if t.count(old) != 1:
            print('NOT APPLICABLE', t.count(old), old); bad += 1; continue
        open(p, 'w').write(t.replace(old, new))
        hit = [l for l in laws.split() if 'Invariant Law is violated' in run(l, s, w)]
        if not hit:
            bad += 1
        print('killed' if hit else 'SURVIVED', ' '.join(hit), '|', old.replace('\n', ' ')[:90], '->', new[:60].replace('\n', ' '), flush=True)
        shutil.rmtree(d)
    print(bad, 'of', len(M), 'mutants survive')


main()
