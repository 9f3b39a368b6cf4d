#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from /repo's log (by hand: not part of any check)."""
import subprocess
MAP = {
 'blank lines around block strings': 'P02', 'between the sigil and the name': 'P02', 'refuse variables in the default values of variables': 'P04',
 'decode the escape sequences': 'P02', 'dangling reference': 'P01', 'both a fractional part': 'P02', 'exponentially often': 'P01',
 'ignored tokens between the members': 'P02', 'reset the validation state': 'P05', 'required arguments of a directive': 'P04',
 'reject null literals': 'P04', 'serialize the validation': 'P11', 'only subscribe to the selected': 'P12', 'subscribe to fields in fragments': 'P12',
 'default variable values to subscriptions': 'P12', 'fragment definition directives with the variables': 'P13', 'without a default subscription object': 'P12',
 'rethrow the original exception': 'P12', 'synchronize access to the registered': 'P11', 'skipped field hide': 'P06', 'complete each of the top level': 'P10',
 'always return a document': 'P08', 'apply both the skip and include': 'P06', 'invalid skip and include': 'P08', 'location and path of field errors': 'P08',
 'fragment directives alive': 'P01', 'end the selection set': 'P13', "truncate integer literals": 'P09', 'refuse variables in the default values of a schema': 'P20',
 'embedded zero characters': 'P16', 'not well formed JSON': 'P16', 'same names for enum': 'P18', 'full precision of float default': 'P18',
 'default reason of the deprecated': 'P18', 'types of all the arguments': 'P18', 'drop type extensions': 'P20', 'default values of nullable arguments': 'P09',
 'name the argument in the error': 'P09', 'excess padding': 'P17', "can't be released": 'P15', 'copy scalar values': 'P15',
 'with their full precision': 'P16', 'fragment definition directives as used': 'P03', 'validate every field which is merged': 'P04', 'visit a fragment twice': 'P01', 'replace invalid arguments': 'P09', 'parsed from JSON': 'P12',
}
MAP.update({'the whole text of descriptions': 'P20', 'look up the index of an input type': 'P20', 'operations of a schema extension': 'P20', 'true, false and null as the names': 'P20', 'override the accessors of their interfaces': 'P18'})
MAP.update({k: 'P19' for k in ('nullable and list modifiers', 'members of the Variables', 'wrapped fields, too', 'same names for response types', 'share a response name',
                               'byte order mark of a request', 'name of the type around', 'lists of non-null booleans')})
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
lines = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    p = [v for k, v in MAP.items() if k in s]
    assert len(p) == 1, (s, p)
    lines.append(f'fixed: property={p[0]} {h} {s[5:]}')
old = [l for l in open('/verif/known_findings.txt').read().splitlines() if not l.startswith('fixed: ')]
open('/verif/known_findings.txt', 'w').write('\n'.join(old).rstrip('\n') + '\n' + '\n'.join(lines) + '\n')
