"""Registry of verification units: each proves the contracts of some functions of /repo."""
import z3
from vals import *
import env as E
import spec as S
import oracle as O
import u_ops
import u_misc
import u_run
import u_code
import u_rel
import u_agg
import u_relrun


class Unit:
    def __init__(self, id, kinds, fn, weight=1.0, recipes=None, functions=''):
        self.id, self.kinds, self.fn, self.weight, self.recipes, self.functions = id, kinds, fn, weight, recipes, functions

    @property
    def props(self):
        return {p for ps in self.kinds.values() for p in ps}


UNITS = []


def add(*a, **k):
    UNITS.append(Unit(*a, **k))


# ------------------------------------------------------------ counterexamples
def fpbits(v, w):
    v = z3.simplify(v)
    if z3.is_fp_value(v):
        if v.isNaN():
            return 0x7fc00000 if w == 32 else 0x7ff8000000000000
        return z3.simplify(z3.fpToIEEEBV(v)).as_long()
    return 0


def concrete(m, ov, t=None):
    """operand of a model -> oracle value, or None"""
    ev = lambda x: m.eval(x, model_completion=True)
    tag = ov.tag if isinstance(ov.tag, int) else ev(ov.tag).as_long()
    if tag == 0:
        return O.NULL
    if tag > 6:
        return None
    p = ov.pay(tag)
    if p is None:
        return None
    if tag in (1, 2):
        return ('il'[tag - 1], O.wrap(p if isinstance(p, int) else ev(p).as_long(), 32 if tag == 1 else 64))
    if tag == 3:
        b = p if isinstance(p, int) else (z3.is_true(ev(boolt(p))))
        return ('b', int(bool(b)))
    if tag in (4, 5):
        return ('fd'[tag - 4], fpbits(ev(p), 32 if tag == 4 else 64))
    n = p.n if isinstance(p.n, int) else ev(p.n).as_long()
    if n > 4000:
        return None
    bs = []
    for i in range(n):
        c = p.at(i)
        bs.append(c if isinstance(c, int) else ev(c).as_long())
    return ('s', bytes(bs))


def models(fail, strs, n=3):
    """models of a failed obligation with short strings"""
    out = []
    for lim in (8, 40, 600):
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(*fail.query)
        for x in strs:
            if not isinstance(x.n, int):
                s.add(z3.ULE(x.n, lim))
                for i in range(min(lim, 40)):
                    for t, f in fail.facts:
                        if x.term is not None and t.eq(x.term):
                            s.add(f(z3.BitVecVal(i, 64)))
        if s.check() == z3.sat:
            out.append(s.model())
            break
    if fail.model is not None:
        out.append(fail.model)
    return out


def op_recipes(fail):
    """native test recipes for a failed obligation of an operator unit"""
    d = fail.data
    if not d or 'op' not in d:
        return []
    out = []
    op = d['decoded']
    ar, _ = S.of(op)
    if 'vs' in d:
        vs = d['vs']
        try:
            for m in models(fail, [v.pay(6) for v in vs]):
                depth = m.eval(d['depth'], model_completion=True).as_long()
                k = min(depth, ar)
                t = [concrete(m, v) for v in vs[ar - k:]]
                if all(x is not None for x in t):
                    out.append(('expr', d['op'].hex(), t))
        except Exception as e:
            pass
    out.append(('focus', d['op'].hex()))
    return out


def op_fallback(bs):
    return lambda fail: op_recipes(fail) or [('focus', bs.hex())]


HEAVY = {'fc25': 36, 'fc15': 31, 'fc24': 16, 'fc14': 14, 'f12e': 7, 'f12c': 3}
for _bs, _op in S.all_ops():
    def _mk(bs=_bs, op=_op):
        def fn(env):
            u_ops.run_op(env, bs)
        add('op/' + bs.hex(), u_ops.kinds(S.owner(op)), fn, weight=HEAVY.get(bs.hex(), .4), recipes=op_fallback(bs),
            functions='operator %s' % S.tname(op))
    _mk()


def reg(id, kinds, fn, weight=1.0, functions='', props=None):
    """unit whose counterexamples are searched for with the native scenarios of the properties it serves"""
    ps = sorted({p for v in kinds.values() for p in v})
    add(id, kinds, fn, weight=weight, recipes=lambda fail: [('battery', p) for p in ps], functions=functions)


def K(p, *kinds, **more):
    d = {k: [p] for k in kinds}
    for k, v in more.items():
        d[k] = v
    return d


MEM = ('memory', 'trap', 'arith', 'leak', 'frame')
reg('hex/nibble', K('C22', 'value', *MEM), u_misc.run_nibbles, .2, 'HexToNibble, NibbleToHex')
reg('hex/decode', K('C22', 'value', *MEM), u_misc.run_hex_to_bytes, 10, 'HexToBytes')
reg('hex/encode', K('C22', 'value', 'arith', 'leak', 'frame', memory=['C22', 'C21'], trap=['C22', 'C21']), u_misc.run_bytes_to_hex, 4, 'BytesToHex')
reg('hex/of', K('C22', 'value', 'arith', 'leak', 'frame', memory=['C22', 'C21'], trap=['C22', 'C21']), u_misc.run_hex_of, 5, 'HexOfBytes')
reg('operand/access', K('C23', 'value', *MEM), u_misc.run_operand_access, 1, 'Operand constructors, GetValue, String')
reg('operand/equality', K('C23', *MEM, value=['C23', 'C17']), u_misc.run_operand_equality, 1, 'operator==, operator!= of Operand and String')
reg('operand/hash', K('C23', *MEM, value=['C23', 'C17']), u_misc.run_operand_hash, 1, 'std::hash<Operand>, std::hash<String>')
reg('tuple/hash', K('C23', *MEM, value=['C23', 'C17']), u_misc.run_tuple_hash, 3, 'std::hash<Tuple>')
reg('operand/any', K('C23', 'value', *MEM), u_misc.run_any, 2, 'any_optional_data_adaptor::ToOperand, FromOperand')
reg('tuple/map', dict(K('C17', 'value', *MEM), leak=['C17', 'C19'], value=['C17', 'C20']), u_misc.run_map_tuple, 11, 'MapTuple')
reg('tuple/concat', dict(K('C17', 'value', *MEM), leak=['C17', 'C19']), u_misc.run_concat_tuple, 3, 'ConcatTuple')
RUN = K('C11', 'run', 'frame', 'memory', 'trap', leak=['C11', 'C19'])
reg('runner/run', RUN, u_run.run_run, 2, 'Runner::Run, Runner::BindTuple, OperandStack::Clear')
reg('runner/get', RUN, u_run.run_get, .3, 'Runner::Get, OperandStack::Get')
reg('runner/getall', RUN, u_run.run_get_all, .3, 'Runner::GetAll, OperandStack::GetAll')
reg('runner/optional', K('C13', 'opt', 'memory', 'trap', run=['C11', 'C13']), u_run.run_optional, .5, 'Runner::GetOptional<T>')
reg('runner/type', K('C13', 'type', 'frame', 'memory', 'trap'), u_run.run_type, .5, 'Runner::GetType, OperatorVector::GetType')
C9 = ['C09', 'C21']
reg('codec/varint', dict(imm=['C09'], trunc=C9, consume=C9, memory=C9, arith=C9, trap=C9, leak=['C19']), u_code.run_varint, 3, 'DecodeValue<int, long, ...>, DecodeVarint')
reg('codec/real', dict(imm=['C09'], trunc=C9, memory=C9, trap=C9), u_code.run_real, .5, 'DecodeValue<float>, DecodeValue<double>')
reg('codec/string', dict(imm=['C09'], trunc=C9, consume=C9, memory=C9, trap=C9), u_code.run_string, 1, 'DecodeValue<String>')
reg('codec/program', dict(imm=['C09'], decode=['C10'], var=['C12'], rtype=['C13'], own=['C19'], leak=['C19'], memory=['C21', 'C10'], trap=['C21', 'C10'],
                          arith=['C21', 'C10'], frame=['C12']), u_code.run_program, 50,
    'OperatorVector::Decode, AddOperatorByType, AddCastOperator, AddFunOperator, Add, AddRelease, NullOperator, ConstOperator, ConstBoolOperator, IndexedVarOperator, OperandStack::PushVar')
reg('codec/release', dict(own=['C19', 'C10'], memory=['C19'], frame=['C19']), u_code.run_release, 2, 'OperatorVector::Release, ~OperatorVector, ~Runner')
reg('rel/filter', dict(filter=['C14'], own=['C19', 'C14'], memory=['C14', 'C19'], trap=['C14'], leak=['C19']), u_rel.run_filter, .5, 'FilterOp::Put, Get')
reg('rel/project', dict(project=['C15'], own=['C19', 'C15'], memory=['C15', 'C19'], trap=['C15'], leak=['C19']), u_rel.run_project, .5, 'ProjectOp::Put, Get')
reg('rel/evaldel', dict(own=['C19'], memory=['C19']), u_rel.run_eval_delete, .5, '~FilterOp, ~ProjectOp')
CH = dict(chain=['C18'], own=['C19', 'C18'], memory=['C18', 'C19'], trap=['C18'], leak=['C19'])
reg('rel/tandemput', CH, u_rel.run_tandem_put, .5, 'TandemOp::Put')
reg('rel/tandemget', CH, u_rel.run_tandem_get, .5, 'TandemOp::Get')
reg('rel/tandemdel', dict(own=['C19'], memory=['C19']), u_rel.run_tandem_delete, .5, '~TandemOp')
reg('rel/agg', dict(rdec=['C20'], agg=['C16', 'C20'], own=['C19'], memory=['C16', 'C21'], trap=['C16', 'C21'], value=['C16', 'C20'], arith=['C16']), u_agg.run_agg, 6,
    'DecodeValue<const Agg *>, DecodeAgg<...>, CountAllAgg::Add, CountAgg<T>::Add, CalcAgg<T>::Add (SUM, MIN, MAX), ~Agg')
AG = dict(agg=['C16'], group=['C17'], own=['C19'], memory=['C16', 'C17', 'C19'], trap=['C16'], leak=['C19'], value=['C16', 'C17'])
reg('rel/ungroupedput', AG, u_agg.run_ungrouped_put, 1, 'UngroupedAggOp::Put, AggOp::AddToCache')
reg('rel/ungroupedget', AG, u_agg.run_ungrouped_get, .5, 'UngroupedAggOp::Get')
reg('rel/ungroupeddel', AG, u_agg.run_ungrouped_delete, 1, '~UngroupedAggOp, ~AggOp')
GR = dict(AG, group=['C17', 'C16'])
reg('rel/groupednew', GR, u_agg.run_grouped_new, .3, 'GroupedAggOp::GroupedAggOp')
reg('rel/groupedput', GR, u_agg.run_grouped_put, 3, 'GroupedAggOp::Put, AggOp::AddToCache')
reg('rel/groupedget', GR, u_agg.run_grouped_get, .5, 'GroupedAggOp::Get')
reg('rel/groupeddel', GR, u_agg.run_grouped_delete, 1, '~GroupedAggOp, ~AggOp')
DEC = dict(rdec=['C20'], own=['C19', 'C20'], memory=['C21', 'C20'], trap=['C21', 'C20'], leak=['C19'], arith=['C21'])
reg('codec/array', DEC, u_agg.run_array, 2, 'DecodeArray<int32_t>, DecodeElements, CheckCount')
reg('codec/aggs', DEC, u_agg.run_aggs, 3, 'DecodeVector<const Agg *>, DecodeElements, CheckCount')
reg('runner/decode', dict(decode=['C10', 'C09'], memory=['C21'], leak=['C19']), u_relrun.run_runner_decode, .3, 'Runner::Decode')
reg('relrunner/decode', DEC, u_relrun.run_decode, 3, 'RelRunner::Decode, RelRunner::AppendOp, RelRunner::Release')
reg('relrunner/use', CH, u_relrun.run_delegate, .4, 'RelRunner::Put, RelRunner::Get')
reg('relrunner/delete', dict(own=['C19'], memory=['C19']), u_relrun.run_release, .4, '~RelRunner')
