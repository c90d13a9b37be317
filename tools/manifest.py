"""Writes MANIFEST.json from properties.jsonl (python3 tools/manifest.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'property-based round trip and differential against struct-free reference encodings',
    'C02': 'property-based round trip against the reference varint encoding, all boundaries',
    'C03': 'property-based round trip of generated byte strings and texts',
    'C04': 'property-based round trip of generated 160/256-bit values',
    'C05': 'property-based round trip of generated lists against a reference encoding',
    'C06': 'model-based generation of write/read histories against a byte-stream model',
    'C07': 'fault injection over all cut positions and generated hostile prefixes',
    'C08': 'property-based round trip and refusal over generated texts',
    'C09': 'differential against integer comparison over generated near-equal pairs',
    'C10': 'property-based round trip and minimality against int.to_bytes',
    'C11': 'differential against Python integers, chains of operations',
    'C12': 'differential against exact integer arithmetic on generated amounts',
    'C13': 'differential against exact decimal arithmetic, round trip of text',
    'C14': 'differential against a reference Merkle tree over generated leaf lists',
    'C15': 'differential against a reference trimming model over generated flags',
    'C16': 'round trip and differential against a reference SEC1 decoder over generated and hostile encodings',
    'C17': 'differential against a reference curve implementation, group laws as invariants',
    'C18': 'differential against tuple order over generated points with equal x',
    'C19': 'differential against a reference ECDSA verifier over generated mutations',
    'C20': 'differential against an independent key derivation over generated keys',
    'C21': 'round trip and refusal of generated corruptions against a reference WIF decoder',
    'C22': 'differential against a reference NEP-2 implementation over generated passphrases and corruptions',
    'C23': 'round trip and refusal of generated corruptions against a reference address codec',
    'C24': 'differential against hashlib/integer references over generated bytes',
    'C25': 'generated command lines against reference conversions, in process and as a process',
    'C26': 'differential against textbook ECDSA over generated keys, messages and secrets',
    'C28': 'differential against integer definitions over generated primes of all residue classes',
    'C29': 'generated deterministic interleavings of threads (trace-driven scheduler); results compared with the ones of calls run alone',
    'C30': 'generated faults of the stream at every call inside write/read histories, against a byte-stream model',
    'C31': 'differential between processes with different interpreter settings over generated batches of calls',
    'C27': 'model-based generation of call histories with disturbances; every result compared with a reference',
}
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    checks.append(dict(property=i, quick_cmd='sh check.sh %s quick' % i, thorough_cmd='sh check.sh %s thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=TECH[i] + ' (Hypothesis; atheris in the thorough tier)', level='exploration',
                       level_note='Generated-input search with an explicit oracle and shrinking: no counterexample among the cases counted in the evidence file; '
                                  'not a proof for all inputs. Trusts the reference models in pbt/ref.py, hashlib, Python integers and the installed dependencies.'))
m = dict(version=1, setup_cmd='sh setup.sh', checks=checks, not_applicable=[],
         notes='No hooks: the checks drive the public interface of /repo/neocore. Repairs are the fix: commits in /repo, see known-findings.txt.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
