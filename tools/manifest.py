#!/usr/bin/env python3
"""Writes MANIFEST.json."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {
    'C01': 'Seeded structured programs parsed and run by preempted sessions; the simulated host decides every condition, array and value when asked, '
           'fails, or stops the run; against a direct structured reading (sim/structured.py). The final value of loop indexes and arrays resized while '
           'walked are out of the workload. Not exhaustive.',
    'C02': 'Seeded lives of formulas in a faulty store, parsed by preempted sessions alone and within scripts; every delivered text is judged by an '
           'independent precedence-climbing parser (sim/refparse.py). Chains of operators are sampled, not enumerated.',
    'C03': 'Seeded exploration of expression trees over failing, re-entrant and mutating host leaves, under a simulated clock and seeded PRNG; '
           'trusts the reference evaluator and operator semantics in sim/ref.py and sim/reflib.py. Not exhaustive.',
    'C04': 'Seeded exploration of interleaved, aborted and re-entrant function activations over shared and shadowing host globals; trusts the '
           'reference activation model in sim/ref.py. Not exhaustive.',
    'C05': 'Seeded fault injection at every seam (host calls, callbacks, fetches, arguments, operators, log); trusts the reference library and its '
           'failure values in sim/reflib.py. Not exhaustive.',
    'C06': 'Seeded text faults (truncation, lost, duplicated or swapped lines, flipped characters, lost closers, dangling continuations, reader '
           'errors); invariants and metamorphic relations over the faulted text, without a reference grammar. Not exhaustive.',
    'C07': 'Seeded source texts read through faulty storage by preempted parse sessions; schema and label invariants over every model that '
           'parse_script returns, plus the runs of structured programs under a simulated host. Not exhaustive.',
    'C08': 'Seeded exploration of jump-level models run by preempted, re-entrant, repeated and aborted sessions; trusts the reference interpreter '
           'in sim/ref.py. Not exhaustive.',
    'C09': 'The statement budget as crash point: every limit from 1 to N+2 (or a seeded sample) of seeded programs, against a counting reference '
           'interpreter. Not exhaustive over programs.',
    'C10': 'Seeded layout rewrites, chunked readers, reader faults and interleaved parse sessions, against a baseline parse. Not exhaustive.',
    'C11': 'Seeded lives of sorted indexes kept by preempted, crashing sessions through every consumer of the comparison, under zone switches and host '
           'changes; against an own order, all pairs after every phase. Pools of values are sampled, not enumerated.',
    'C12': 'Seeded histories run three times under a simulated host that spells integral numbers int, float or mixed and re-spells the shared state '
           'between calls and inside callbacks; the histories must agree. No reference model: a defect both spellings share is not seen. Numbers '
           'of 1e15 and more and minus zero are taken out of the state. Not exhaustive.',
    'C13': 'Seeded journals of numbers written as text by preempted sessions to a faulty store and replayed, as literals too, over several generations, '
           'with damaged lines and near-misses judged by an own grammar with exact rounding. Not all doubles.',
    'C14': 'Seeded documents kept as JSON in a faulty store by preempted, crashing sessions and other programs; against the ledger of what was written '
           'and an own token grammar. Not exhaustive over strings.',
    'C15': 'Seeded operation histories of cooperating sessions over aliased containers with failing callbacks and bad arguments; refinement against '
           'the reference heap in sim/reflib.py. Not exhaustive.',
    'C16': 'Seeded datetime operations under a simulated wall clock with time zone switches; trusts integer Gregorian arithmetic and zoneinfo. '
           'Whole-minute offsets, no ambiguous or skipped local times. Not exhaustive.',
    'C17': 'Seeded include trees over a simulated file and URL space with fetch faults, latencies, concurrent sessions and re-used options, plus CLI '
           'runs in a scratch directory; trusts the reference resolver and interpreter. Not exhaustive.',
    'C18': 'Seeded models linted between, before and beside the preempted sessions that run them; the edits the warnings suggest are judged by running '
           'original and edited model under the same simulated host decisions and faults. Not exhaustive.',
    'C19': 'Seeded histories of data operations over shared aliased tables with failing, re-entrant and mutating row expressions, against a reference '
           'that scans (no serialised keys); and typed tables written as CSV to a simulated store with torn, lost and doubled segments, crashes and '
           'zone switches, read back by concurrent sessions. Trusts sim/refdata.py, the ledger of written cells and zoneinfo. Not exhaustive.',
    'C20': 'Seeded lives of a document and its replicas, kept up to date by the differences of diffLines over a faulty network, plus small pairs, the '
           'CLI, unittestDeepEqual and every shipped include script. Convergence within two rounds once faults stop. Pairs are sampled, not enumerated.',
}

NOT_APPLICABLE = {}


def main():
    checks = []
    for prop, note in NOTES.items():
        if os.path.exists(os.path.join(ROOT, 'sim', 'props', prop.lower() + '.py')):
            checks.append({
                'property': prop,
                'quick_cmd': f'python3 check.py {prop}',
                'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {prop}',
                'technique': 'deterministic simulation with fault injection',
                'level': 'exploration',
                'level_note': note,
            })
    data = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python -c "from sim import env; env.build_shim()"',
        'checks': checks,
        'not_applicable': [{'property': prop, 'reason': reason} for prop, reason in NOT_APPLICABLE.items()],
        'notes': 'No hooks in /repo: every seam used exists in the shipped code. The genuine defects found, all repaired by fix: commits, are '
                 'listed in known-findings.txt.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
        json.dump(data, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
