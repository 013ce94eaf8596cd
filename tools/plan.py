"""What each property's check consists of: which histories are recorded (suites of harness/),
and which of the aspects of Machine.tla in which an event can differ are the property's."""

ASSUMPTIONS = [
    "the driver (harness/) observes the decimals through the library's accessors and decimal.Raw",
    "java.math.BigInteger computes what spec/BigIntDef.tla defines (checked by spec/BigIntCheck.tla on samples)",
    "operands are of moderate size: coefficients of up to a few hundred digits; results whose digits or zeros "
    "would not fit into memory are not asked for",
]

VALUE = {'class', 'sign', 'value', 'cohort', 'payload'}
STOP = {'panic', 'hang', 'crash'}
REALS = {'real', 'digits'}      # of Reals.tla: accuracy, and length of the coefficient

ADD = {'Add', 'Sub', 'Mul', 'FMA'}
INT = {'QuoInt', 'Rem', 'QuoRem'}
ROUNDS = {'Quantize', 'RoundToInt', 'Floor', 'Ceil', 'Round', 'Set'}
QUIET = {'Copy', 'Canonical', 'CopyAbs', 'CopyNeg', 'CopySign', 'SetSignbit', 'SetScale', 'SetInf', 'SetNaN',
         'SetUint64', 'SetMantScale', 'SetBigMantScale', 'SetFloat64', 'SetFloat', 'New', 'WithContext',
         'WithPrecision', 'Load'}
EXPLOG = {'Exp', 'Log', 'Log10', 'Pow'}
TRIG = {'Sin', 'Cos', 'Tan', 'Asin', 'Acos', 'Atan', 'Atan2', 'Hypot'}
CONST = {'Pi', 'E', 'Wallis', 'Lentz', 'BinarySplit', 'BinarySplitDynamic'}


def aspects(*a):
    s = set()
    for x in a:
        s |= {x} if isinstance(x, str) else set(x)
    return s


def keep(*asp, ops=None, notops=(), notags=(), tags=None, via=None):
    """the mismatches that are this property's"""
    asp = aspects(*asp)

    def f(b):
        return bool(b['asp'] & asp) and (ops is None or b['op'] in ops) and b['op'] not in notops \
            and not (b['tags'] & set(notags)) and (tags is None or bool(b['tags'] & set(tags))) \
            and (via is None or b['via'] in via)
    return f


def either(*ks):
    return lambda b: any(k(b) for k in ks)


ANY = aspects('class sign value cohort payload cond condI condR lost ctx ret panic hang crash frame rep args pred '
              'predN mant name cmp cmpabs total totalabs quantum maxmin err ok int64 uint64 int rat differ differq '
              'differrep float floatsign prec text refused accepted form pg pglarge unknown real digits'.split())


def suite(name, k, quick=2000, thorough=3000, seeds=20, **kw):
    def f(ck, deep):
        if deep:
            ck.traces_stage(name, thorough, k, seeds=seeds, **kw)
        else:
            ck.traces_stage(name, quick, k, **kw)
    return f


# laws of Laws.tla: for how many states one history is executed, in the quick and the thorough tier
EVERY = dict(add=(41, 61), quo=(31, 41), int=(41, 61), root=(5, 11), quantize=(11, 19), range=(97, 97), conds=(97, 97),
             special=(47, 97), cmp=(7, 19), text=(1, 5), parse=(3, 41), format=(7, 19), bin=(1, 5), go=(97, 97),
             next=(11, 19), minor=(11, 19), alias=(61, 101))


def law(name, k):
    def f(ck, deep):
        ck.law_stage(name, k, deep, EVERY[name][1 if deep else 0])
    return f


def both(*fs):
    def f(ck, deep):
        for g in fs:
            g(ck, deep)
    return f


K = {   # the aspects of a mismatch that are the property's
    'P01': keep(VALUE, STOP, ops=ADD),
    'P02': keep(VALUE, STOP, 'cond', ops={'Quo'}),
    'P03': keep(VALUE, STOP, 'cond', ops=INT),
    'P04': keep(VALUE, STOP, 'cond', ops={'Sqrt'}),
    'P05': keep(VALUE, STOP, 'cond', ops=ROUNDS),
    'P06': either(keep(VALUE, 'condR', STOP), keep(REALS, tags={'range'})),
    'P07': keep('cond', 'lost', 'err', 'name', 'frame', 'ctx', STOP),
    'P08': keep(VALUE, REALS, 'cond', STOP, tags={'nan', 'inf', 'zero'}),
    'P09': keep('cmp', 'cmpabs', 'total', 'totalabs', 'maxmin', 'args', 'frame', STOP),
    'P10': either(keep('text', 'frame', STOP, ops={'String'}),
                  keep(VALUE, 'cond', 'refused', 'accepted', STOP, ops={'SetString'}),
                  keep('differ', 'differq', 'differrep', ops={'Same'})),
    'P11': keep(VALUE, 'cond', 'lost', 'ctx', 'ret', 'refused', 'accepted', 'rep', 'frame', 'args', STOP,
                ops={'SetString', 'PgScan', 'PgNew'}),
    'P12': keep('text', 'frame', 'args', STOP, ops={'Format', 'String'}),
    'P13': keep(ANY - {'payload', 'name', 'pred'},
                ops={'Int', 'Rat', 'Float64', 'Float', 'SetUint64', 'SetMantScale', 'SetBigMantScale',
                     'SetFloat64', 'SetFloat', 'SetRat', 'New', 'Preds'}),
    'P14': keep(ANY, ops={'Decompose', 'Compose', 'Same', 'SetString', 'String'}),
    'P15': keep('rep', 'differ', 'differq', 'differrep', 'mant', 'predN', 'cmp', 'cmpabs', 'total'),
    'P16': either(keep('differ', 'differq', ops={'Same'}), keep(VALUE, ops=QUIET, tags={'alias'})),
    'P17': keep('frame', 'args'),
    'P18': keep('differ', 'differq', 'differrep', 'lost'),
    'P20': keep(VALUE, REALS, 'cond', STOP, ops=EXPLOG),
    'P21': keep(VALUE, REALS, 'cond', STOP, ops=TRIG),
    'P22': keep(VALUE, REALS, 'cond', STOP, ops=CONST),
    'P23': keep(VALUE, REALS, 'panic', 'hang', 'crash', 'ret', 'frame', 'args', tags={'go'}),
    'P24': keep(ANY, ops={'PgValue', 'PgScan', 'PgNew'}),
    'P25': keep(VALUE, 'cond', STOP, ops={'NextPlus', 'NextMinus'}),
    'P26': keep('class', 'cond', STOP, tags={'badctx'}),
    'P27': either(keep('pred', 'predN', 'mant', 'name', 'quantum'),
                  keep(VALUE, 'cond', 'lost', 'ctx', 'ret', STOP, ops=QUIET | {'Abs', 'Neg', 'Reduce'})),
    'P28': keep(STOP),
    'P29': either(keep('differ', 'differq', ops={'Same'}), keep('ctx', 'ret', via={'c', 'f'}),
                  keep(ANY, ops=QUIET, via={'f'}), keep('total', 'totalabs', 'quantum', 'maxmin', 'mant')),
}

# quick, thorough: histories of a seed; seeds of the thorough tier
SIZES = dict(P20=(1000, 2000, 12), P21=(1000, 2000, 12), P22=(700, 1000, 8), ends=(600, 3000, 6))
LAWS = dict(P01=['add'], P02=['quo'], P03=['int'], P04=['root'], P05=['quantize'], P06=['range'], P07=['conds'],
            P08=['special'], P09=['cmp'], P10=['text'], P11=['parse'], P12=['format'], P13=['bin'], P15=['cmp'],
            P16=['alias'], P17=['alias'], P18=['alias'], P23=['go'], P25=['next'], P27=['minor'])
ENDS = ['P06', 'P25']
# Walk.tla: (at random?, operations, behaviours or stride) in the quick and the thorough tier
WALKS = dict(P07=[(True, 20, 600), (True, 30, 6000)], P17=[(True, 20, 600), (True, 30, 6000)],
             P28=[(True, 25, 600), (True, 40, 6000)], P16=[(False, 1, 29), (False, 1, 1)],
             P29=[(False, 1, 31), (False, 1, 2)])

# other models, in the quick and the thorough tier
MODELS = dict(P01=[[], ['BigIntCheck']], P20=[['RealsCheck']] * 2, P21=[['RealsCheck']] * 2, P22=[['RealsCheck']] * 2)


def plan_of(p):
    def size(s):
        return SIZES.get(s, (2000, 3000, 20))
    fs = [suite(s, K[p], *size(s)) for s in [p] + (['ends'] if p in ENDS else [])]
    fs += [law(l, K[p]) for l in LAWS.get(p, [])]
    if p in MODELS:
        fs.append(lambda ck, deep: [ck.model_stage(m + '.tla', m + '.cfg', 600) for m in MODELS[p][0 if not deep else 1]])
    if p in WALKS:
        fs.append(lambda ck, deep: ck.walk_stage(K[p], *WALKS[p][1 if deep else 0]))
    return both(*fs)


PLAN = {p: plan_of(p) for p in K}


def p19(ck, deep):
    k = keep(ANY - {'hang'})
    ck.design_stage(2, 1, 1)
    ck.design_stage(3, 1, 1 if deep else 3)
    if deep:
        ck.broken_design_stage(['nolock', 'publishfirst', 'norecheck', 'once', 'doubleput', 'useafterput'])
        ck.design_stage(2, 2, 3)
    ck.concurrent_stage('P19', 600, k, rounds=20 if deep else 3)
    ck.race_stage('P19', 40, rounds=120 if deep else 12)


PLAN['P19'] = p19
