#!/usr/bin/env python3-vt
"""Replays the failing input recorded by a check against the code in /repo: exit 1 when it still fails, 0 when it does
not, 3 when the file carries no failing input (then it prints the failed obligations and the verifier's output)."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kemvc import build, native
def main():
    r = json.load(open(sys.argv[1])); i = r.get('failing_input')
    if not i:
        for o in r['failed_obligations']: print('%s | %s | %s' % (o['job'], o['obligation'], o['verifier_output']))
        return 3
    if 'unit' in i:
        from kemvc import unitnative
        h = unitnative.run(unitnative.build_bin(i['unit']), i['seed'], 20)
        print('still fails: %s' % h[:2000] if h else 'does not fail'); return 1 if h else 0
    lib = native_of(i)
    w = special(i, lib)
    if w is not None:
        print('%s: %s' % (i.get('entry') or i.get('oracle') or i.get('erase_object'), 'still fails (%s)' % w if w else 'does not fail')); return 1 if w else 0
    tape = bytes.fromhex(i['random_tape']) if i.get('random_tape') is not None else None
    st, o, pos = native.isolated(lib, i['entry'], [bytes.fromhex(x) for x in i['inputs']], i['output_sizes'], tape)
    want = [bytes.fromhex(x) for x in i['expected']]
    bad = st != 0 or [bytes(x) for x in o] != want or (i.get('expected_tape_use') is not None and pos != i['expected_tape_use'])
    if not bad and i.get('history'):
        from kemvc import hunt
        if hunt.rerun(lib if isinstance(lib, str) else lib.path, *i['history']):
            print('%s: still fails after %d other calls in the same process (%s)' % (i['entry'], i['history'][3], i['what'])); return 1
    print('%s: %s' % (i['entry'], 'still fails (%s)' % (st or i['what']) if bad else 'does not fail')); return 1 if bad else 0
def special(i, lib):
    """None: not one of these kinds; otherwise what still fails, or the empty string"""
    ins = [bytes.fromhex(x) for x in i.get('inputs', [])]
    if i.get('ct'):
        from kemvc import cthunt
        exe = cthunt.build_bin(); N = int(i['entry'].split('_')[1])
        n = [cthunt.count(exe, N, ins[0], c, '%d' % j) for j, c in enumerate(ins[1:])]
        return 'instruction counts %s' % n if len(set(n)) > 1 else ''
    if i.get('erase') is True:
        from kemvc import mlkem
        return mlkem.erase_native(lib, int(i['entry'].split('_')[1]), i['how'], ins[0]) or ''
    if i.get('erase'):
        from kemvc import xwing
        b = xwing.erase_native(lib, *i['erase'], ins[0], bytes.fromhex(i['random_tape']))
        return 'object bytes %s survive' % b[:8] if b else ''
    if 'oracle' in i:
        from kemvc import dhkem
        if 'tape' not in i: return '%s' % (dhkem.oracle(lib, i['oracle'], 150, 100, 12) or '')
        return dhkem.once(lib, i['oracle'], bytes.fromhex(i['tape']), bytes.fromhex(i['special']) if i['special'] else None) or ''
    if 'erase_object' in i:
        from kemvc import dhkem
        b = dhkem.erase_native(lib, i['erase_object'])
        return b['what'] if b else ''
    return None
def native_of(i):
    return build.native(i.get('crate', 'hm'), i.get('features'), i.get('tag', ''))
sys.exit(main())
