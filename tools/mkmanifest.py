"""Writes MANIFEST.json."""
import json, os
N = {
 'C01': ('round-trip monitor over generated types and messages', 'Every encode/decode/re-encode observed on seeded types and values, read back by a value reader independent of the library\'s own equality.'),
 'C02': ('online oracle: independent X.691 ALIGNED PER reference encoder', 'Octets of every encode compared with an independent implementation of X.691 written from the standard and validated against the repository\'s own vectors.'),
 'C03': ('online oracle: reference encodings with sender options fed to the decoder', 'Every conforming encoding comes from the independent reference encoder, sender\'s options included; the decoded value is read component by component.'),
 'C04': ('version-pair monitor against the reference encoder', 'Pairs of derived schema versions; what the receiver must see is computed from the IR, not from the library.'),
 'C05': ('acceptance monitor at and around every constraint', 'Each place of a message in turn takes values at, inside and outside its constraint, over several ways of building; acceptance is compared with the set the constraint denotes.'),
 'C06': ('completeness monitor over subsets of missing components', 'Messages with components left out at any depth; encode must raise exactly when the completeness specification says so.'),
 'C07': ('fault injection with a reference decoder as online oracle', 'Truncated, flipped, spliced and random octets; each result is judged by an independent X.691 decoder that says which value, if any, the octets have. Termination is decided on executed lines.'),
 'C08': ('history monitor: snapshots of inputs and classes around every operation', 'Random histories of operations over shared and fresh objects; snapshots before and after, and every result compared with that of the same call alone in a fresh object graph.'),
 'C09': ('deterministic thread scheduler (sys.monitoring) with an isolation oracle', 'Real threads, switched at chosen lines or byte code instructions of the library, plus free running with a tiny switch interval; each thread\'s results compared with its sequential ones.'),
 'C10': ('view monitor: to_dict and str against the message model', 'Views of built and decoded messages compared with views computed from the IR value.'),
 'C11': ('generated-code monitor against the X.691 reference', 'Generated modules are executed and every class is exercised at the codec boundary; expectations come from the schema\'s IR. Unsupported notation is outside the domain; six known mistranslations are probed as known findings.'),
 'C12': ('parse-history monitor against a pristine forked process', 'Every result in a polluted process compared with that of a process that never parsed; folders snapshotted around calls with output_folder.'),
 'C13': ('differential monitor over logging configurations', 'Same operations under randomly chosen logging configurations and with logging untouched; records are formatted and file descriptors 1 and 2 watched.'),
 'C14': ('limit monitor: values around and beyond each unsupported feature', 'Sizes, counts and encodings on both sides of each limit; fragmented encodings come from the reference encoder.'),
 'C15': ('constraint-set monitor with an interval oracle and the reference encoder', 'Nested unions and intersections; acceptance and octets compared with set arithmetic on the constraint expression.'),
}
checks = [{'property': k, 'quick_cmd': './check.sh %s' % k, 'thorough_cmd': './check.sh %s --thorough' % k,
           'evidence_file': 'evidence/%s.json' % k, 'technique': 'runtime monitoring: ' + t, 'level': 'exploration',
           'level_note': n + ' Holds on the executions observed (counts in the evidence file), nothing more; deterministic per VERIF_SEED.'}
          for k, (t, n) in sorted(N.items())]
m = {'version': 1, 'setup_cmd': "/opt/venv/bin/python -c 'import asn1PERser, pyasn1, pyparsing, jinja2'", 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo: the library is observed at its API, by sys.monitoring, logging handlers and process boundaries. Findings: KNOWN_FINDINGS.txt.'}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w'), indent=1)
