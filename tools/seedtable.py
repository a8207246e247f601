"""seedtable.py LOGDIR: the table of planted bugs in DESIGN.md, from the logs of
`check.sh` runs (LOGDIR/<id>.log) against each of /verif/seeded."""
import glob, json, os, re, sys
rows = []
for d in sorted(glob.glob('/verif/seeded/*')):
    i = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    try:
        log = open(sys.argv[1] + '/' + i + '.log', 'rb').read().decode('utf-8', 'replace')
    except OSError:
        log = ''
    if 'VIOLATION property=' + m['property'] not in log:
        by = '**missed**'
    else:
        h = re.findall(r'harness ([A-Za-z0-9 -]+?)(?:[:,.\[]|$| at| after)', log, re.M)
        by = h[-1].strip() if h else 'yes'
        if 'preemption' in by:
            by = 'one preemption'
    rows.append('| %s | %s | %s |' % (i, by, m['needs'].replace('|', '\\|').replace('\n', ' ')))
print('| planted bug | caught by harness | needs |\n|---|---|---|')
print('\n'.join(rows))
