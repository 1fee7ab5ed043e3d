#!/opt/venv/bin/python
"""Rewrites MANIFEST.json from the checks and the list below."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import world, engine
world.load_repo()
PY = '/opt/venv/bin/python'
NOTES = dict(
 C01='differential: scheduled delivery against single delivery, both real runs',
 C02='strict parser of the dump compares every byte, offset and the total with the input',
 C03='independent line model', C04='independent tokenizer and style model', C05='independent model of the SGR state and marker details',
 C06='completeness of what is shown, no crash, bounded output and termination for every option set',
 C07='limits against a source which fails, blocks or never ends right behind the limit, and against the run on the cut input',
 C08='strict terminal model accepts only SGR, line breaks and marked tabs in the output',
 C09='what has been printed at every request for input is compared with the line and row model', C10='errors of the input at every position of the delivery',
 C11='errors of the output at every position, three buffering modes', C12='Ctrl+C at executed source lines, in reads, writes and open',
 C13='allocation failure at executed source lines', C14='all the ways in which a run can end', C15='histories of runs in one process against fresh processes',
 C16='terminal width schedules', C17='debug runs against plain runs', C18='auxiliary modes with hostile standard streams',
 C19='simulated terminal driver with errors and interrupts at each call', C20='history model of the configuration in force; threads interleaved line by line',
 C21='brute-force nearest colour over an independent palette; histories repeated in another order', C22='value-semantics model of texts; threads interleaved line by line',
 C23='value model of sequences and spans, terminal model of what closing sequences do; threads interleaved line by line, exceptions injected',
 C24='hand-written scanners of what every kind of filter matches; threads interleaved line by line, exceptions injected, failing callbacks',
 C25='exact rational arithmetic decides what a formatted number denotes; threads interleaved line by line, exceptions injected',
 C26='value model of styles; independent parsers of SGR, HTML and tmux markup; threads interleaved line by line, exceptions injected',
 C27='the legend printed in a session is parsed and compared with every marker printed in that session',
 C28='independent description of every interval by an arbitrary set of units, model of the registry; threads interleaved line by line, exceptions injected',
 C29='layouts and colour arithmetic written anew, brute force nearest colours; threads interleaved line by line, exceptions injected, answers spoiled by their receivers',
 C30='the same request in random wordings, compared run by run in fresh processes and within one process; command lines with one mistake have to be rejected',
 C31='the generator writes next to itself and is therefore run from a scratch copy; failures of its output file strike at seeded byte positions')
NA = {}
titles = {}
for ln in open(os.path.join(engine.VERIF, 'properties.jsonl')):
    d = json.loads(ln); titles[d['id']] = d
checks = []
for cid, cls in sorted(engine.registry().items()):
    checks.append(dict(property=cid, quick_cmd=f'{PY} check.py {cid} --tier quick', thorough_cmd=f'{PY} check.py {cid} --tier thorough',
        evidence_file=f'evidence/{cid}.json', technique='deterministic simulation with fault injection: ' + NOTES[cid], level=cls.level,
        level_note='Seeded search: ' + cls.rule + '. Evidence, not proof: a violation outside of the sampled schedules, faults and inputs can be missed. '
        'Trusted: the simulated devices, the models in sim/, CPython.' + (' Assumes: ' + ' '.join(cls.assumptions) if cls.assumptions else '')))
doc = dict(version=1, setup_cmd=f'{PY} check.py --setup', checks=checks,
           not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
           notes='No hooks were needed in /repo: input and output streams, open(), the terminal size, termios and thread switching are replaced from outside. '
                 'KOLOMBOS_REPO overrides the location of the code under test (default /repo); replay: check.py --replay FILE.')
assert set(titles) == set(NA) | {c['property'] for c in checks}, set(titles) ^ (set(NA) | {c['property'] for c in checks})
with open(os.path.join(engine.VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1); f.write('\n')
