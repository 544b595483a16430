"""Regenerate known_findings.json (fixed entries from the fix: commits in /repo)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {  # subject prefix -> property
    'update_index() treats a record': 'C06', "insert_index(on_label_conflict='replace')": 'C07',
    'renaming a label leaves': 'C07', 'drop_index_columns() leaves': 'C07', 'index and location updates fail': 'C06',
    'selecting quantities without index': 'C17', 'adding a weight group with an empty list': 'C18',
    'reify_mappings() keeps': 'C09', 'delete_unmatched_quantities() keeps': 'C09', 'foreign keys are not enforced': 'C10',
    'bind_file() cannot create': 'C10', 'to_file() hides': 'C10', 'selectors with unquoted': 'C11', 'nested :is()': 'C13',
    'legacy_rename_labels()': 'C41', 'legacy_drop_labels()': 'C41', 'legacy node cannot remove columns whose names need quotes on': 'C41', 'legacy node uses identifiers': 'C41',
    'index command ignores index codes': 'C30', 'mapping command reports unmatched': 'C40', 'translate uses links that do not cover': 'C03',
    'legacy ': 'C34', 'a reader cached to the drive': 'C27', 'the finalizer of a reader': 'C27', 'use the same case folding': 'C13', 'compound selectors with repeated': 'C13', 'weight_records() of the legacy': 'C34',
    'wide_to_long() fails': 'C29', 'wide_to_long() loses': 'C29',
    'quantities of the undefined record': 'C17', 'quantities at the finest level': 'C01',
    'mapping with one-sided': 'C25', 'exported index with weights': 'C30', 'index codes with very large': 'C30', 'ambiguous fields are cut off': 'C21', 'criteria with an unknown column': 'C24',
}
OPEN = [
    {'property': 'C13', 'scenario': 'backslash_value', 'label': 'parsing the printed selector gives an equal selector',
     'inputs': {'val': k}, 'what': f'str() of a selector cannot be parsed again when {w}', 'status': 'open'}
    for k, w in enumerate(['its value ends in a backslash (value a\\)', 'its value has a backslash before a quote (value \\")',
                           'its value has a backslash before a quote (value a\\"b)'])] + [
    {'property': 'C07', 'scenario': 'levels_after_drop', 'label': 'the mapping keeps its level', 'inputs': {'bits': k, 'gone': g},
     'what': f'drop_index_columns({c!r}) on columns a, b, c leaves the level of mappings at {lv} unchanged, so it names other or missing columns', 'status': 'open'}
    for k, lv, gs in ((0, '{a, b, c}', (0, 1, 2)), (2, '{a, b}', (0, 1))) for g in gs for c in ['abc'[g]]]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
    out = list(OPEN)
    for line in log.splitlines():
        h, s = line.split(' ', 1)
        if not s.startswith('fix: '):
            continue
        s = s[5:]
        prop = next(p for k, p in FIXED.items() if s.startswith(k))
        out.append({'property': prop, 'status': 'fixed', 'commit': h, 'what': s, 'entry': f'fixed: property={prop} {h} {s}'})
    with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


main()
