"""Running one verification task (function against contract) and reporting it."""
import resource
import time
import traceback

import engine
import dump
import fun
import low
import terms
import verify
from ll import Unsupported



def contracts(world):
    con = dict(verify.BB)
    for p in world.procs.values():
        if p.fn:
            con[p.fn] = verify.proc_contract(p)
    return con


def consts_of(v):
    """constants in the path condition and the failed goal, and the model's values of the read variables"""
    pool, hints = set(), {}
    st = v.state
    if st is None:
        return pool, hints
    seen = set()
    wl = list(st.pc) + ([v.goal] if v.goal is not None else [])
    n = 0
    while wl and n < 200000:
        x = wl.pop()
        n += 1
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'const' and isinstance(x.val, int):
            for k in (-1, 0, 1):
                pool.add((x.val + k) & 0xffffffff)
        wl += [y for y in x.args]
    try:
        s = terms.Solver(5000)
        if s.sat(st.pc, v.goal if v.goal is not None else terms.TRUE, model=True) == 'sat':
            m = s.last_model
            seen = set()
            wl = list(st.pc) + [v.goal]
            while wl:
                x = wl.pop()
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.op == 'var' and str(x.val).startswith('rd:'):
                    _, pr, pc = str(x.val).split('!')[0].split(':')[:3]
                    val = terms.meval(m, x)
                    if isinstance(val, int):
                        hints.setdefault((pr, int(pc.split('#')[0])), []).append(val)
                wl += x.args
    except Exception:
        pass
    return pool, hints


def run_proc(prog, world, name, deadline, unroll=0):
    """discharge the obligations of one task; with unroll 1, short loops are executed in full before an invariant is sought; with 2, only those that call nothing"""
    t0 = time.time()
    z0 = terms.STATS['time']
    r = {'task': name, 'fn': fn(world, name), 'status': 'ok', 'obligations': 0}
    T = None
    try:
        if name in world.procs:
            p = world.procs[name]
            con = contracts(world)
            con.pop(p.fn)
            T = verify.Task(prog, world, p, con, world.invs)
            T.deadline = deadline
            T.unroll_first = unroll
            T.run()
        else:
            T = low.Acc(prog, world)
            T.deadline = deadline
            T.unroll_first = unroll
            T.run(name)
    except engine.Violation as e:
        und = '[solver: unknown]' in e.msg
        r.update(status='undecided' if und else 'violation', kind=e.kind, msg=e.msg)
        r['pool'], r['hints'] = consts_of(e)
    except engine.LoopFail as e:
        r.update(status='undecided', kind='loop', msg=str(e))
    except (Unsupported, engine.Budget) as e:
        r.update(status='undecided', kind='unsupported', msg=repr(e)[:300])
    except RecursionError:
        r.update(status='undecided', kind='unsupported', msg='recursion limit')
    except (KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError, NameError) as e:
        r.update(status='undecided', kind='internal', msg=traceback.format_exc()[-400:])
    except MemoryError:
        r.update(status='undecided', kind='memory', msg='out of memory')
    if T is not None:
        r['obligations'] = len(T.obl)
        kinds = {}
        for k, w, m in T.obl:
            kinds[k] = kinds.get(k, 0) + 1
        r['kinds'] = kinds
        r['assumed'] = sorted(T.trusted_calls)
        r['returns'] = [T.success_returns, T.fail_returns]
        r['solver_s'] = round(terms.STATS['time'] - z0, 2)
    r['wall'] = round(time.time() - t0, 2)
    return r


def fn(world, name):
    return world.procs[name].fn if name in world.procs else low.fn(name) or 'lemma over the contracts'


COST = {'pps': 40, 'bitstream_nalu_length': 35, 'sps_data': 35, 'slice_header': 25, 'slice_header_in_scalable_extension': 30, 'vui_parameters': 15, 'pred_weight_table': 12,
        'g.find_nalus': 30, 'bb.read64': 11, 'bb.read32': 6, 'bb.nonsyma': 18, 'bb.nonsymb': 18, 'wr.nonsyma': 17, 'wr.nonsymb': 17, 'wr.sea': 24, 'wr.seb': 24, 'wr.uea': 12, 'wr.ueb': 12}
COST.update({'wr.bits@%d' % b: 13 for b in range(8)})
COST.update({'bb.peek64@%d' % b: 5 for b in range(8)})
COST.update({'d.pred_weight_table': 14, 'd.pps': 6, 'd.sps_data': 5})
GROUPS = {
    '@dumps': dump.NAMES,
    '@derived': [n for n in fun.NAMES if n not in ('f.get_sps', 'f.get_pps', 'f.get_subset_sps', 'f.is_payload_parsed')],
    '@reader': ['bb.peek32@%d' % b for b in range(8)] + ['bb.peek64@%d' % b for b in range(8)] + ['bb.read32', 'bb.read64', 'bb.uint8', 'bb.uint16', 'bb.uint32', 'bb.skip', 'bb.skipbytes', 'bb.seek', 'bb.offset', 'bb.remaining', 'bb.ctor'],
    '@golomb': ['g.ue', 'g.se', 'lemma.ue', 'lemma.se'],
    '@rbsp': ['g.aligned', 'g.current_offset', 'g.more_data', 'g.trailing', 'g.unescape_rbsp'],
    '@nonsym': ['bb.nonsyma', 'bb.nonsymb', 'bb.countbits', 'lemma.nonsymmetric'],
    '@writer': ['wr.bits@%d' % b for b in range(8)] + ['wr.ctor', 'wr.uint', 'wr.uea', 'wr.ueb', 'wr.sea', 'wr.seb', 'wr.nonsyma', 'wr.nonsymb', 'wr.nonsymsize', 'bb.countbits', 'lemma.bits', 'lemma.ue', 'lemma.se', 'lemma.nonsymmetric'],
}


def expand(world, names):
    """a name ending in + also stands for its byte-buffer entry point"""
    out = []
    if '@all' in names:
        names = [n for n, p in world.procs.items() if p.fn] + [g for g in GROUPS] + ['g.find_nalus', 'g.find_nalus_explicit', 'u.counter'] + fun.NAMES + [n for n in names if n != '@all']
    names = [m for n in names for m in GROUPS.get(n, [n])]
    for n in names:
        if n.endswith('+'):
            n = n[:-1]
            out.append(n)
            if n + '_bytes' in world.procs:
                n = n + '_bytes'
        if n not in out:
            out.append(n)
    return list(dict.fromkeys(out))


def run(prog, world, name, deadline, unroll=0):
    return run_proc(prog, world, name, deadline, unroll)
