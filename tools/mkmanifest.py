import json
TECH = 'contract-based deductive verification of the code in /repo (IR-level symbolic execution, inferred and checked loop invariants, z3 and table enumeration)'
NOTE = {
 'C01': 'Every encoder of every configuration, the streaming wrappers and the one-shot encoder are proved against contracts for all inputs; lemmas tie the contracts to RFC 4648.',
 'C02': 'Encoder and decoder contracts proved for all inputs; round-trip lemma by enumeration of all three-byte groups.',
 'C03': 'Decoder contracts proved for all inputs; the acceptance lemma characterises exactly the well-formed texts.',
 'C04': 'Decoder contracts proved for every stream state; composition lemma over the contracts.',
 'C05': 'Every access of every encoder is proved inside its bounds, for all inputs and states.',
 'C06': 'Every access of every decoder is proved inside its bounds, for all inputs and states.',
 'C07': 'All codecs satisfy one deterministic contract, including the successor state.',
 'C08': 'codec_choose is proved for all CPU reports, OS masks and flags; the init functions and wrappers for all flags.',
 'C09': 'All stubs and the wrappers around them are proved for all arguments.',
 'C10': 'The OpenMP one-shot functions are proved for every number of threads and part boundaries against the contracts of the stream functions and of the OpenMP runtime calls.',
 'C11': 'The functions of the tool are proved against contracts of the library and of the C library calls.',
 'C12': 'The functions of the tool are proved against contracts of the library and of the C library calls.',
 'C13': 'The functions of the tool are proved against contracts of the C library calls, including partial writes and failures.',
 'C14': 'Every entry of every table is evaluated against the alphabet; the generators are run and compared.',
 'C15': 'Frame conditions: no function writes or depends on mutable global data, apart from the codec pointers, which are written only when they must be.',
}
TAIL = ' Trusted: clang front end as meaning of the source, the engine, models of intrinsics and assembly instructions, z3.'
import sys, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
claimed = open('tools/claimed.txt').read().split()
props = [json.loads(l) for l in open('properties.jsonl')]
na = json.load(open('tools/na.json'))
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [], 'notes': 'See DESIGN.md. No hooks are needed in /repo.'}
for p in props:
    i = p['id']
    if i in claimed:
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': 'proof', 'level_note': NOTE[i] + TAIL})
    else:
        m['not_applicable'].append({'property': i, 'reason': na.get(i, 'no check yet')})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
